package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"
)

type check struct {
	f    func(r *Report)
	rule string
}

// verifDir is where the evidence and the known findings live.
func verifDir() string {
	if d := os.Getenv("VLCHECK_VERIF"); d != "" {
		return d
	}
	return "/verif"
}

type finding struct{ prop, match, text string }

// knownFindings reads the entries "known: property=<id> match=<text of the violation> :: <what fails>".
func knownFindings() (r []finding) {
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.txt"))
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: property=") {
			continue
		}
		l = strings.TrimPrefix(l, "known: property=")
		i, j, k := strings.Index(l, " match="), strings.Index(l, " :: "), 0
		if i < 0 || j < i+7 {
			continue
		}
		k = j + 4
		r = append(r, finding{l[:i], strings.TrimSpace(l[i+7 : j]), l[k:]})
	}
	return
}

func main() {
	os.Exit(run())
}

func run() int {
	t0 := time.Now()
	debug.SetGCPercent(400)
	watch()
	if f := os.Getenv("VLCHECK_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	if len(os.Args) < 2 {
		fmt.Println("usage: vlcheck PROPERTY [quick|thorough]")
		return 2
	}
	prop := os.Args[1]
	if len(os.Args) > 2 {
		tier = os.Args[2]
	}
	ck, ok := checks[prop]
	if !ok {
		fmt.Println("unknown property", prop)
		return 2
	}
	var r *Report
	var more []string
	if prop == "P01" {
		more = []string{"vlplugin"} // it brings a logger and an HTTP server along
	}
	p, err := loadProgram(more...)
	if err != nil {
		r = newReport(nil, prop)
		r.viol = append(r.viol, violation{where: "/repo", rule: "loadable", what: err.Error(), undec: true})
	} else {
		r = newReport(p, prop)
		func() {
			defer func() {
				if e := recover(); e != nil {
					msg := fmt.Sprint("internal: ", e)
					if u, ok := e.(undecidedErr); ok {
						msg = u.msg
					}
					if debugMode {
						msg += "\n" + string(debug.Stack())
					}
					r.viol = append(r.viol, violation{where: prop, rule: "decidable", what: msg, undec: true})
				}
			}()
			uvLemma(r)
			ck.f(r)
			r.run()
		}()
	}
	var viol, known []violation
	kf := knownFindings()
	seen := map[string]bool{}
	for _, v := range r.viol {
		hit := false
		for _, k := range kf {
			if k.prop == prop && k.match != "" && strings.Contains(v.where+" "+v.rule+" "+v.what, k.match) && !v.undec {
				hit = true
				if !seen[k.match] {
					seen[k.match] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.text)
				}
			}
		}
		if hit {
			known = append(known, v)
		} else {
			viol = append(viol, v)
		}
	}
	dir := filepath.Join(verifDir(), "evidence")
	if len(viol) > 0 {
		replay := filepath.Join(dir, prop+".violations.txt")
		var b strings.Builder
		fmt.Fprintf(&b, "violations of %s (rule: %s)\nrerun: %s %s\n\n", prop, ck.rule, os.Args[0], prop)
		for i, v := range viol {
			kind := "violated"
			if v.undec {
				kind = "cannot be established"
			}
			fmt.Fprintf(&b, "%s: obligation [%s] %s: %s\n", v.where, v.rule, kind, v.what)
			if i < 12 {
				fmt.Printf("%s: obligation [%s] %s: %s\n", v.where, v.rule, kind, v.what)
			}
		}
		os.MkdirAll(dir, 0o755)
		os.WriteFile(replay, []byte(b.String()), 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, replay)
	}
	writeEvidence(dir, r, ck, len(viol), len(known), time.Since(t0))
	fmt.Printf("%s: %d scenarios, %d abstract final states, %d obligations, %d violations, %d known, %.1fs\n", prop, r.scenarios, r.cells, r.obl, len(viol), len(known), time.Since(t0).Seconds())
	if len(viol) > 0 {
		return 1
	}
	return 0
}

var tier = "quick"

func writeEvidence(dir string, r *Report, ck check, nv, nk int, d time.Duration) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	fs := sortedKeys(r.funcs)
	var loops []string
	for k, h := range r.loops {
		loops = append(loops, k+": "+h)
	}
	sort.Strings(loops)
	disc := r.obl - nv - nk
	if disc < 0 {
		disc = 0
	}
	ev := map[string]interface{}{
		"property": r.prop, "tier": tier, "seed": seed, "level": "other", "wall_s": d.Seconds(), "violations": nv,
		"coverage": map[string]interface{}{
			"explanation": "Static analysis of the type-checked SSA form of the current source; nothing of the repository is executed. Rule: " + ck.rule,
			"rule":        ck.rule,
			"scenarios":   r.scenarios, "abstract_final_states": r.cells, "instructions_interpreted": r.steps, "state_splits": r.branches,
			"obligations": r.obl, "discharged": disc,
			"functions_analysed": len(fs), "functions": fs, "call_sites": len(r.calls), "widened_loops": loops, "samples": r.samples,
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(dir, 0o755)
	os.WriteFile(filepath.Join(dir, r.prop+".json"), append(b, '\n'), 0o644)
}
