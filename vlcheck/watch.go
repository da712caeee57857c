package main

import (
	"os"
	"runtime/debug"
	"runtime/metrics"
	"strconv"
	"sync/atomic"
	"time"
)

// Resource limits: an analysis that outgrows them is undecided, never silently cut short.

var memHigh, timeUp atomic.Bool
var gaveUp atomic.Int32

const (
	scenLimit = 120 * time.Second
	memLive   = 3 << 30 // live heap at which growing scenarios are given up
	memLimit  = 7 << 30
	bigSteps  = 20000 // scenarios below this many steps are not the ones that grow
)

func watch() {
	debug.SetMemoryLimit(memLimit)
	limit := 600 * time.Second
	if n, err := strconv.Atoi(os.Getenv("VLCHECK_SECONDS")); err == nil {
		limit = time.Duration(n) * time.Second
	}
	go func() {
		s := []metrics.Sample{{Name: "/gc/heap/live:bytes"}}
		for t0 := time.Now(); ; time.Sleep(100 * time.Millisecond) {
			metrics.Read(s)
			if s[0].Value.Kind() == metrics.KindUint64 {
				memHigh.Store(s[0].Value.Uint64() > memLive)
			}
			if time.Since(t0) > limit {
				timeUp.Store(true)
			}
		}
	}()
}

func (in *Interp) resources() {
	if timeUp.Load() {
		undecided("analysis time exceeded")
	}
	if in.t0.IsZero() {
		in.t0 = time.Now()
	} else if time.Since(in.t0) > scenLimit {
		if gaveUp.Add(1) >= 4 {
			timeUp.Store(true) // enough is known: the property is not established
		}
		undecided("analysis time for one scenario exceeded")
	}
	if memHigh.Load() && in.steps > bigSteps {
		undecided("analysis memory exceeded")
	}
}
