package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"
)

func main() {
	prop := flag.String("prop", "", "property id")
	root := flag.String("root", "", "only roots whose name contains this")
	contracts := flag.String("contracts", "/verif/contracts", "contract directory")
	out := flag.String("out", "", "result file (JSON)")
	verbose := flag.Bool("v", false, "verbose")
	t1 := flag.Duration("t1", 4*time.Second, "first solver timeout")
	t2 := flag.Duration("t2", 20*time.Second, "portfolio timeout")
	workers := flag.Int("j", 4, "parallel obligations")
	flag.Parse()
	t0 := time.Now()
	scratchDir, _ = os.MkdirTemp("", "govc")
	defer os.RemoveAll(scratchDir)
	w, err := load(*contracts)
	if err != nil {
		fmt.Fprintln(os.Stderr, "ERROR:", err)
		os.RemoveAll(scratchDir)
		os.Exit(3)
	}
	loadMS := time.Since(t0).Milliseconds()
	r := run(w, *prop, *root, *t1, *t2, *workers, *verbose)
	r.LoadMS = loadMS
	r.WallS = time.Since(t0).Seconds()
	if *out != "" {
		os.MkdirAll(filepath.Dir(*out), 0o755)
		b, _ := json.MarshalIndent(r, "", " ")
		os.WriteFile(*out, b, 0o644)
	}
	fmt.Printf("property=%s roots=%d obligations=%d discharged=%d failed=%d solver_ms=%d wall=%.1fs\n", *prop, len(r.Roots), r.Obligations, r.Discharged, len(r.Failed), r.SolverMS, r.WallS)
	for _, d := range r.Dropped {
		fmt.Println("DROPPED", d)
	}
	for _, e := range r.Errors {
		fmt.Println("ERROR", e)
	}
	for _, f := range r.Failed {
		fmt.Printf("FAILED %s [%s] in %s at %s: %s %s\n", f.Label, f.Kind, f.Root, f.Pos, f.Status, f.Reason)
	}
	os.RemoveAll(scratchDir)
	if len(r.Failed) > 0 || len(r.Errors) > 0 {
		os.Exit(1)
	}
}

type failRec struct {
	Label, Kind, Root, Pos, Status, Reason string
	Solver                                 string
	Output                                 string
}

type oblRec struct {
	Label  string `json:"label"`
	Kind   string `json:"kind"`
	Root   string `json:"root"`
	Pos    string `json:"pos"`
	Status string `json:"status"`
	Solver string `json:"solver"`
	MS     int64  `json:"ms"`
}

type Result struct {
	Property      string
	Roots         []string
	Obligations   int
	Discharged    int
	Failed        []failRec
	Errors        []string
	Obls          []oblRec
	BySolver      map[string]int
	SolverMS      int64
	LoadMS        int64
	WallS         float64
	Assumptions   []string
	Models        []string
	UsedContracts []string
	Inlined       []string
	Warnings      []string
	LabelCounts   map[string]int
	Vacuity       []string
	Dropped       []string
}

func hasProp(labels []string, prop string) bool {
	for _, l := range labels {
		if labelProp(l) == prop {
			return true
		}
	}
	return false
}

func labelProp(l string) string {
	if i := strings.IndexByte(l, '.'); i > 0 {
		return l[:i]
	}
	return ""
}

var labelRE = regexp.MustCompile(`\[label (C[0-9]+\.[^\]]*)\]`)
var propID = regexp.MustCompile(`^C[0-9]+$`)

func contains(a []string, s string) bool {
	for _, x := range a {
		if x == s {
			return true
		}
	}
	return false
}

func run(w *World, prop, rootFilter string, t1, t2 time.Duration, workers int, verbose bool) *Result {
	res := &Result{Property: prop, BySolver: map[string]int{}, LabelCounts: map[string]int{}}
	res.Errors = append(res.Errors, w.errors...)
	var rrs []*rootResult
	done := map[string]bool{}
	var queue []*Contract
	wantLabels := map[string]bool{}
	sel := func(name string) bool { return rootFilter == "" || strings.Contains(name, rootFilter) }
	var cs []*Contract
	for _, c := range w.contracts {
		cs = append(cs, c)
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].name < cs[j].name })
	for _, c := range cs {
		if (prop == "" || hasProp(c.labels, prop) || contains(c.props, prop)) && sel(c.name) {
			queue = append(queue, c)
			for _, l := range c.labels {
				if prop == "" || labelProp(l) == prop {
					wantLabels[l] = true
				}
			}
		}
	}
	timing := func(name string, f func()) {
		t0 := time.Now()
		f()
		if verbose {
			fmt.Fprintf(os.Stderr, "vcgen %s: %v\n", name, time.Since(t0).Round(time.Millisecond))
		}
	}
	for _, c := range w.closures {
		if (prop == "" || hasProp(c.labels, prop)) && sel(c.name) {
			timing(c.name, func() { rrs = append(rrs, w.verifyClosure(c)...) })
			for _, l := range c.labels {
				if prop == "" || labelProp(l) == prop {
					wantLabels[l] = true
				}
			}
		}
	}
	for _, p := range w.proofs {
		if (prop == "" || hasProp(p.labels, prop) || contains(p.props, prop)) && sel(p.name) {
			timing(p.name, func() { rrs = append(rrs, w.verifyProof(p)) })
			for _, l := range p.labels {
				if prop == "" || labelProp(l) == prop {
					wantLabels[l] = true
				}
			}
		}
	}
	for len(queue) > 0 || true {
		for _, r := range rrs {
			for n := range r.x.used {
				if c := w.contracts[n]; c != nil && !done[n] && rootFilter == "" {
					queue = append(queue, c)
				}
			}
		}
		var q2 []*Contract
		for _, c := range queue {
			if !done[c.name] {
				q2 = append(q2, c)
				done[c.name] = true
			}
		}
		queue = nil
		if len(q2) == 0 {
			break
		}
		for _, c := range q2 {
			timing(c.name, func() { rrs = append(rrs, w.verifyContract(c)) })
		}
	}
	type item struct {
		r *rootResult
		o *Obl
	}
	var items []item
	asm := map[string]bool{}
	warn := map[string]bool{}
	inl := map[string]bool{}
	used := map[string]bool{}
	mods := map[string]bool{}
	labelsSeen := map[string]int{}
	other := map[string]int{}
	for _, r := range rrs {
		res.Roots = append(res.Roots, r.name)
		if r.err != "" {
			res.Failed = append(res.Failed, failRec{Label: prop + ".subset", Kind: "verification-condition generation", Root: r.name, Status: "unsupported", Reason: r.err})
			continue
		}
		for _, o := range r.x.obls {
			if lp := labelProp(o.label); prop != "" && lp != prop && propID.MatchString(lp) {
				other[lp]++
				continue // discharged by the check of that property
			}
			items = append(items, item{r, o})
			labelsSeen[o.label]++
		}
		for a := range r.x.assume {
			asm[a] = true
		}
		for a := range r.x.warn {
			warn[a] = true
		}
		for a := range r.x.inlined {
			inl[a] = true
		}
		for a := range r.x.used {
			used[a] = true
		}
		for m := range r.x.models {
			mods[m.Name()] = true
		}
	}
	for l := range wantLabels {
		if labelsSeen[l] == 0 {
			res.Failed = append(res.Failed, failRec{Label: l, Kind: "coverage", Root: "-", Status: "no obligation", Reason: "no obligation was generated for this label"})
		}
	}
	res.LabelCounts = labelsSeen
	var mu sync.Mutex
	var wg sync.WaitGroup
	ch := make(chan item)
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for it := range ch {
				it.o.solve(it.r.x, t1, t2)
				mu.Lock()
				if verbose {
					fmt.Fprintf(os.Stderr, "%-10s %6dms %-10s %s [%s] %s\n", it.o.status, it.o.ms, it.o.solver, it.o.label, it.o.kind, it.o.pos)
				}
				mu.Unlock()
			}
		}()
	}
	for _, it := range items {
		ch <- it
	}
	close(ch)
	wg.Wait()
	for _, it := range items {
		o := it.o
		res.Obligations++
		res.BySolver[o.solver]++
		if o.status == "discharged" {
			res.Discharged++
		} else {
			res.Failed = append(res.Failed, failRec{Label: o.label, Kind: o.kind, Root: it.r.name, Pos: o.pos, Status: o.status, Solver: o.solver, Output: truncate(o.output, 20000)})
		}
		res.Obls = append(res.Obls, oblRec{o.label, o.kind, it.r.name, o.pos, o.status, o.solver, o.ms})
	}
	// vacuity of each obligation: a label all of whose obligations have a
	// contradictory path condition says nothing
	vac := map[string]int{}
	var vmu sync.Mutex
	vch := make(chan item)
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for it := range vch {
				if it.o.vacuous(it.r.x) {
					vmu.Lock()
					vac[it.o.label]++
					res.Vacuity = append(res.Vacuity, fmt.Sprintf("%s at %s in %s: UNREACHABLE", it.o.label, it.o.pos, it.r.name))
					vmu.Unlock()
				}
			}
		}()
	}
	for _, it := range items {
		if labelProp(it.o.label) != "" && it.o.status == "discharged" {
			vch <- it
		}
	}
	close(vch)
	wg.Wait()
	sort.Strings(res.Vacuity)
	for l, n := range vac {
		if n == labelsSeen[l] {
			res.Failed = append(res.Failed, failRec{Label: l, Kind: "vacuity", Root: "-", Status: "unreachable", Reason: "every obligation with this label is unreachable under the assumptions"})
		}
	}
	// vacuity: the assumptions at entry and at exit must be satisfiable
	for _, r := range rrs {
		if r.err != "" {
			continue
		}
		for _, n := range r.x.reachNotes {
			var as []*Term
			as = append(as, dedupe(r.x.facts[:n.nfacts])...)
			as = append(as, n.reach)
			rr := decide1(as, 2*time.Second)
			res.Vacuity = append(res.Vacuity, fmt.Sprintf("%s %s: %s", r.name, n.label, map[string]string{"sat": "reachable", "unknown": "no contradiction found", "unsat": "UNREACHABLE"}[rr.status]))
			if rr.status == "unsat" {
				res.Failed = append(res.Failed, failRec{Label: prop + ".vacuity", Kind: "vacuity", Root: r.name, Status: "unreachable", Reason: n.label + " is unreachable under the assumptions", Solver: rr.solver})
			}
		}
	}
	res.SolverMS = totalSolverMS
	for lp := range other {
		asm["obligations labelled "+lp+" in the same functions are assumed here and discharged by the check of "+lp] = true
	}
	for _, d := range w.dropped {
		for _, m := range labelRE.FindAllStringSubmatch(d, -1) {
			if labelProp(m[1]) == prop || prop == "" {
				res.Failed = append(res.Failed, failRec{Label: m[1], Kind: "contract does not type-check against the tree", Root: d, Status: "dropped", Reason: d})
			}
		}
	}
	res.Assumptions = keys(asm)
	res.Warnings = keys(warn)
	res.Inlined = keys(inl)
	res.UsedContracts = keys(used)
	res.Models = keys(mods)
	res.Dropped = w.dropped
	return res
}

func truncate(s string, n int) string {
	if len(s) > n {
		return s[:n] + "...\n"
	}
	return s
}

func keys(m map[string]bool) []string {
	r := []string{}
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func dedupe(ts []*Term) []*Term {
	seen := map[*Term]bool{}
	var r []*Term
	for _, t := range ts {
		if !seen[t] && t != tTrue {
			seen[t] = true
			r = append(r, t)
		}
	}
	return r
}

func (o *Obl) solve(x *Exec, t1, t2 time.Duration) {
	fileMu.Lock()
	triv := o.cond == tTrue || mkAnd(o.reach, mkNot(o.cond)) == tFalse
	neg := mkNot(o.cond)
	fileMu.Unlock()
	if triv {
		o.status, o.solver = "discharged", "simplifier"
		return
	}
	as := dedupe(x.facts[:o.nfacts])
	as = append(as, o.reach, neg)
	if os.Getenv("GOVC_SHOW") != "" {
		fileMu.Lock()
		fmt.Fprintf(os.Stderr, "---- %s %s\ncond %s\nreach %s\n", o.label, o.pos, o.cond, o.reach)
		fileMu.Unlock()
	}
	r := decide(as, t1, t2)
	o.solver, o.ms, o.output = r.solver, r.ms, r.output
	switch r.status {
	case "unsat":
		o.status = "discharged"
	case "sat":
		o.status = "failed"
	default:
		o.status = "unknown"
	}
}

// vacuous: the path condition of the obligation contradicts the assumptions.
func (o *Obl) vacuous(x *Exec) bool {
	if o.reach == tFalse {
		return true
	}
	as := append(dedupe(x.facts[:o.nfacts]), o.reach)
	r := decide1(as, 1500*time.Millisecond)
	if r.status == "unsat" && os.Getenv("GOVC_VAC") != "" {
		fileMu.Lock()
		script, _ := smtScript(as, false, "")
		fileMu.Unlock()
		os.WriteFile(filepath.Join(os.Getenv("GOVC_VAC"), fmt.Sprintf("vac%d.smt2", o.reach.id)), []byte(script+"(check-sat)\n"), 0o644)
	}
	return r.status == "unsat"
}

func decide1(as []*Term, t time.Duration) solveRes {
	for _, a := range as {
		if a == tFalse {
			return solveRes{"unsat", "simplifier", 0, ""}
		}
	}
	fileMu.Lock()
	script, _ := smtScript(as, false, "")
	fileMu.Unlock()
	return runSolver(bg, "z3-new", script, t)
}
