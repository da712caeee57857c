package main

import (
	"fmt"
	"go/types"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Ctx is one scenario: a fresh abstract interpreter and the obligations met on its final states.
type Ctx struct {
	in    *Interp
	p     *ssa.Package
	name  string
	viol  []violation
	obl   int // obligations discharged
	cells int // abstract final states examined
	quiet bool
	inner map[int]Val // keys of nested maps (V01)
	round int         // which of several calls of a setter is made (C40)
}

type violation struct {
	where, what, rule string
	undec             bool
}

// Report collects the scenarios of one property.
type Report struct {
	prog      *Program
	prop      string
	mu        sync.Mutex
	viol      []violation
	scenarios int
	obl       int
	cells     int
	steps     int
	branches  int
	funcs     map[string]bool
	calls     map[string]bool
	loops     map[string]string
	samples   []string
	tasks     []task
}
type task struct {
	name string
	pkg  string
	f    func(c *Ctx)
}

func newReport(p *Program, prop string) *Report {
	return &Report{prog: p, prop: prop, funcs: map[string]bool{}, calls: map[string]bool{}, loops: map[string]string{}}
}

// add queues a scenario.
func (r *Report) add(name string, f func(c *Ctx)) { r.tasks = append(r.tasks, task{name, "mqttp", f}) }
func (r *Report) addPkg(pkg, name string, f func(c *Ctx)) {
	r.tasks = append(r.tasks, task{name, pkg, f})
}

func (r *Report) fail(where, rule, f string, a ...interface{}) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.viol = append(r.viol, violation{where: where, rule: rule, what: fmt.Sprintf(f, a...)})
}

// ok counts an obligation decided outside the interpreter.
func (r *Report) ok(sample string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.obl++
	if len(r.samples) < 40 && sample != "" {
		r.samples = append(r.samples, sample)
	}
}

var debugMode = os.Getenv("VLCHECK_DEBUG") != ""

// run executes all queued scenarios in parallel.
func (r *Report) run() {
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	ch := make(chan task)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for t := range ch {
				r.runTask(t)
			}
		}()
	}
	only := os.Getenv("VLCHECK_ONLY")
	for _, t := range r.tasks {
		if only != "" && !strings.Contains(t.name, only) {
			continue
		}
		ch <- t
	}
	close(ch)
	wg.Wait()
	r.tasks = nil
	sort.Slice(r.viol, func(i, j int) bool {
		a, b := r.viol[i], r.viol[j]
		if a.undec != b.undec {
			return !a.undec
		}
		if a.where != b.where {
			return a.where < b.where
		}
		return a.what < b.what
	})
	sort.Strings(r.samples)
}

func (r *Report) runTask(t task) {
	t0 := time.Now()
	in := newInterp(r.prog)
	c := &Ctx{in: in, name: t.name, inner: map[int]Val{}}
	func() {
		defer func() {
			if e := recover(); e != nil {
				if u, ok := e.(undecidedErr); ok {
					c.viol = append(c.viol, violation{where: t.name, rule: "decidable", what: u.msg, undec: true})
					return
				}
				msg := fmt.Sprintf("internal: %v", e)
				if debugMode {
					msg += "\n" + string(debug.Stack())
				}
				c.viol = append(c.viol, violation{where: t.name, rule: "decidable", what: msg, undec: true})
			}
		}()
		c.p = r.prog.pkgs[t.pkg]
		if c.p == nil {
			undecided("package %s not found", t.pkg)
		}
		in.initPackage(c.p)
		t.f(c)
	}()
	r.mu.Lock()
	defer r.mu.Unlock()
	r.scenarios++
	r.obl += c.obl
	r.cells += c.cells
	r.steps += in.steps
	r.branches += in.branches
	for f := range in.funcs {
		if in.isModule(f) && f.Name() != "init" {
			r.funcs[shortFn(f)] = true
		}
	}
	for s := range in.calls {
		if s.Parent() != nil && in.isModule(s.Parent()) {
			r.calls[in.ipos(s)] = true
		}
	}
	for k, l := range in.loopRep {
		if strings.Contains(k, "/opt/") {
			continue
		}
		r.loops[k] = l.how
	}
	for _, v := range c.viol {
		if v.where == "" {
			v.where = t.name
		} else if v.where != t.name {
			v.what = "[" + t.name + "] " + v.what
		}
		r.viol = append(r.viol, v)
	}
	if len(r.samples) < 12 && c.obl > 0 {
		r.samples = append(r.samples, fmt.Sprintf("%s: %d final abstract states, %d obligations", t.name, c.cells, c.obl))
	}
	if debugMode {
		fmt.Fprintf(os.Stderr, "%-50s %8.2fs steps=%d cells=%d obl=%d viol=%d\n", t.name, time.Since(t0).Seconds(), in.steps, c.cells, c.obl, len(c.viol))
	}
}

// ---- scenario steps -----------------------------------------------------------------------------

func (c *Ctx) fail(st *State, rule, f string, a ...interface{}) {
	if len(c.viol) > 40 {
		return
	}
	what := fmt.Sprintf(f, a...)
	if st != nil {
		if len(st.note) > 0 {
			n := st.note
			if len(n) > 14 {
				n = n[len(n)-14:]
			}
			what += " path: " + strings.Join(n, " ")
		}
		if os.Getenv("VLCHECK_FACTS") != "" {
			what += st.dump()
		}
	}
	c.viol = append(c.viol, violation{where: c.name, rule: rule, what: what})
}

// must records one obligation.
func (c *Ctx) must(st *State, ok bool, rule, f string, a ...interface{}) bool {
	c.obl++
	if !ok {
		c.fail(st, rule, f, a...)
	}
	return ok
}

// split runs f on st; conditions f cannot decide partition the state.
func (c *Ctx) split(st *State, f func(st *State)) {
	n := 0
	work := []*State{st}
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		if s.dead {
			continue
		}
		if n++; n > 20000 {
			undecided("too many cases")
		}
		try := s.clone()
		var fr *forkReq
		nv, no, nc := len(c.viol), c.obl, c.cells
		func() {
			depth := len(c.in.stack)
			defer func() {
				if r := recover(); r != nil {
					if x, ok := r.(forkReq); ok {
						c.in.stack = c.in.stack[:depth]
						fr = &x
						return
					}
					panic(r)
				}
			}()
			f(try)
		}()
		if fr != nil {
			c.viol, c.obl, c.cells = c.viol[:nv], no, nc
			a, b := s.clone(), s
			a.assume(fr.cond, true)
			b.assume(fr.cond, false)
			work = append(work, a, b)
		}
	}
}

// each runs k on every outcome of a call. Panics that escape the call are handed to onPanic, or
// reported when it is nil.
func (c *Ctx) each(st *State, outs []Outcome, what string, k func(st *State, r Val)) {
	for _, o := range outs {
		if o.st.dead {
			continue
		}
		if o.panicked {
			c.fail(o.st, "no-panic", "%s panics: %s", what, o.where)
			continue
		}
		k(o.st, o.ret)
	}
}

// fn calls a package-level function.
func (c *Ctx) fn(st *State, name string, args []Val, k func(st *State, r Val)) {
	f := c.in.fn(c.p, name)
	var outs []Outcome
	outs = c.in.call(st.clone(), &Func{fn: f}, args, nil)
	c.each(st, outs, name, k)
}

// inv calls a method on an interface value holding a packet, or on a pointer of a named type.
func (c *Ctx) inv(st *State, recv Val, name string, args []Val, k func(st *State, r Val)) {
	i, ok := recv.(*Iface)
	if !ok {
		undecided("receiver %s", valStr(recv))
	}
	if i.t == nil {
		c.fail(st, "non-nil", "call of %s on a nil packet", name)
		return
	}
	m := c.methodOf(i.t, name)
	if m == nil {
		undecided("method %s of %s not found", name, i.t)
	}
	outs := c.in.call(st.clone(), &Func{fn: m}, append([]Val{i.v}, args...), nil)
	c.each(st, outs, typeName(i.t)+"."+name, k)
}

func (c *Ctx) methodOf(t types.Type, name string) *ssa.Function {
	sel := c.in.prog.MethodSets.MethodSet(t).Lookup(c.p.Pkg, name)
	if sel == nil {
		return nil
	}
	return c.in.prog.MethodValue(sel)
}

// types_ptr is the type *T of the package under analysis.
func types_ptr(c *Ctx, name string) types.Type {
	o := c.p.Pkg.Scope().Lookup(name)
	if o == nil {
		undecided("type %s not found", name)
	}
	return types.NewPointer(o.Type())
}

func typeName(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return t.String()
}

// nilErr tells whether an error value is nil (deciding it).
func (c *Ctx) nilErr(st *State, v Val) bool {
	switch x := st.finVal(v).(type) {
	case *Iface:
		return x.t == nil
	case *Opaque:
		return st.must(st.opqEq(x, &Iface{}))
	case *Fin:
		return c.nilErr(st, st.pick(x))
	}
	undecided("error value %s", valStr(v))
	return false
}
func tup(v Val, i int) Val { return v.(Tuple)[i] }

// errName describes an error value.
func (c *Ctx) errName(st *State, v Val) string {
	i, ok := st.finVal(v).(*Iface)
	if !ok {
		return valStr(v)
	}
	if i.t == nil {
		return "nil"
	}
	return typeName(i.t) + " " + valStr(st.finVal(i.v))
}

func (c *Ctx) num(lo, hi int64, name string) *Sym { return c.in.sym(name, lo, hi) }
func sv(s *Sym) Val                               { return &Num{S(s)} }

// blob makes an unknown content of lo..hi bytes.
func (c *Ctx) blob(name string, lo, hi int64) (*Seq, *Sym) {
	c.in.nblob++
	n := c.in.sym("len("+name+")", lo, hi)
	n.isLen = true
	return &Seq{[]Piece{{k: pBlob, base: &Blob{c.in.nblob, name}, off: K(0), n: S(n)}}}, n
}

// state starts a scenario.
func (c *Ctx) state() *State { return newState(c.in) }

var versions = []int64{3, 4, 5}

var typeNames = []string{"RESERVED", "CONNECT", "CONNACK", "PUBLISH", "PUBACK", "PUBREC", "PUBREL", "PUBCOMP",
	"SUBSCRIBE", "SUBACK", "UNSUBSCRIBE", "UNSUBACK", "PINGREQ", "PINGRESP", "DISCONNECT", "AUTH"}

const (
	tCONNECT = iota + 1
	tCONNACK
	tPUBLISH
	tPUBACK
	tPUBREC
	tPUBREL
	tPUBCOMP
	tSUBSCRIBE
	tSUBACK
	tUNSUBSCRIBE
	tUNSUBACK
	tPINGREQ
	tPINGRESP
	tDISCONNECT
	tAUTH
)

// dump lists what a state knows.
func (st *State) dump() string {
	var b strings.Builder
	b.WriteString(" facts:")
	for _, f := range st.normFacts() {
		fmt.Fprintf(&b, " [%s>=0]", f)
	}
	for s, e := range st.eq {
		fmt.Fprintf(&b, " [%s=%s]", S(s), e)
	}
	for s, iv := range st.iv {
		fmt.Fprintf(&b, " [%s in %d..%d]", S(s), iv[0], iv[1])
	}
	return b.String()
}
