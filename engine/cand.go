package main

import (
	"sort"
	"strings"
	"sync"
	"time"

	"go/constant"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Candidate loop invariants (Houdini): predicates over the state that hold
// trivially on entry. Those that every iteration preserves, assuming all of
// them, are kept; the others are dropped.

type candidate func(st *State) *Term

func (x *Exec) mapCandidates(f *Frame, l *loopInfo, w *WriteLog, st0 *State) []candidate {
	var comps []string
	for c := range w.m {
		comps = append(comps, c)
	}
	sort.Strings(comps)
	var lits []*Term
	var r []candidate
	for _, c := range comps {
		mt := x.w.mapOfDom[c]
		e := w.m[c]
		if mt == nil || e.whole {
			continue
		}
		d, v := x.mapArrs(mt)
		var refs []*Term
		for t := range e.refs {
			refs = append(refs, t)
		}
		sortTerms(refs)
		if len(refs) > 4 {
			continue
		}
		for _, ref := range refs {
			ref := ref
			if ref.bvars {
				continue
			}
			dom0, val0 := mkSelect(st0.get(d), ref), mkSelect(st0.get(v), ref)
			r = append(r, func(st *State) *Term {
				k := freshConst("ck", sortOf(mt.Key()))
				dom, val := mkSelect(st.get(d), ref), mkSelect(st.get(v), ref)
				return quantify(k, func(k *Term) *Term {
					return mkImp(mkSelect(dom0, k), mkAnd(mkSelect(dom, k), mkEq(mkSelect(val, k), mkSelect(val0, k))))
				})
			})
			if sortOf(mt.Key()) != SStr {
				continue
			}
			if lits == nil {
				lits = stringLits(f.fn)
			}
			for _, lit := range lits {
				lit := lit
				r = append(r, func(st *State) *Term {
					dom, val := mkSelect(st.get(d), ref), mkSelect(st.get(v), ref)
					return mkAnd(mkEq(mkSelect(dom, lit), mkSelect(dom0, lit)), mkEq(mkSelect(val, lit), mkSelect(val0, lit)))
				})
			}
		}
	}
	return r
}

// stringLits: the short string constants used by a function, at most 40.
func stringLits(fn *ssa.Function) []*Term {
	m := map[string]bool{}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			for _, op := range i.Operands(nil) {
				c, ok := (*op).(*ssa.Const)
				if !ok || c.Value == nil || c.Value.Kind() != constant.String {
					continue
				}
				if s := constant.StringVal(c.Value); s != "" && len(s) < 40 && !strings.ContainsAny(s, " %") {
					m[s] = true
				}
			}
		}
	}
	var l []string
	for s := range m {
		l = append(l, s)
	}
	sort.Strings(l)
	if len(l) > 40 {
		l = l[:40]
	}
	var r []*Term
	for _, s := range l {
		r = append(r, mkStr(s))
	}
	return r
}

func (x *Exec) houdini(cands []candidate, try func(assume func(st *State, reach *Term), check func(edges []edgeIn))) (invs []func(map[*ssa.Phi]*Term, *State, *Term) *Term) {
	keep := make([]bool, len(cands))
	for i := range keep {
		keep[i] = true
	}
	for {
		changed := false
		n := 0
		try(func(st *State, reach *Term) {
			for i, c := range cands {
				if keep[i] {
					x.fact(mkImp(reach, c(st)))
				}
			}
		}, func(edges []edgeIn) {
			base := dedupe(x.facts)
			var wg sync.WaitGroup
			sem := make(chan bool, 8)
			ok := make([]bool, len(cands))
			for i, c := range cands {
				if !keep[i] {
					continue
				}
				n++
				var bad []*Term
				for _, e := range edges {
					bad = append(bad, mkAnd(x.pre(), e.cond, mkNot(c(e.st))))
				}
				goal := mkOr(bad...)
				if goal == tFalse {
					ok[i] = true
					continue
				}
				as := append(append([]*Term(nil), base...), goal)
				wg.Add(1)
				go func() {
					defer wg.Done()
					sem <- true
					ok[i] = decide1(as, 2*time.Second).status == "unsat"
					<-sem
				}()
			}
			wg.Wait()
			for i := range cands {
				if keep[i] && !ok[i] {
					keep[i] = false
					changed = true
				}
			}
		})
		if !changed {
			break
		}
	}
	for i, c := range cands {
		if keep[i] {
			c := c
			invs = append(invs, func(_ map[*ssa.Phi]*Term, st *State, _ *Term) *Term { return c(st) })
		}
	}
	return invs
}

var _ types.Type
