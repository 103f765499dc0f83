package main

import (
	"go/token"
	"sort"
	"strings"
)

// Lock discipline: with //verif:locked TYPE.mu LABEL every access to a field
// guarded by the mutex is an obligation that the mutex is held (for a write,
// exclusively), except on objects made by the function under verification.
//
// The state of each mutex is a component that no call changes: functions
// release the locks they take. Loops must leave it as they found it.

func heldComp(g *Guard) string { return regComp("X|held|"+g.key, arrSort(SInt, SInt)) }

func (w *World) lockedGuards() []*Guard {
	var r []*Guard
	for _, g := range w.guards {
		if g.locked != "" {
			r = append(r, g)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].key < r[j].key })
	return r
}

func (w *World) carryHeld(from, to *State) *State {
	for _, g := range w.lockedGuards() {
		c := heldComp(g)
		to.set(c, from.getQ(c))
	}
	return to
}

func (w *World) dropHeld(st *State) *State {
	for _, g := range w.lockedGuards() {
		st.set(heldComp(g), mkConstArray(arrSort(SInt, SInt), mkInt(0)))
	}
	return st
}

func (x *Exec) setHeld(st *State, g *Guard, ref *Term, n int64) {
	if g.locked == "" {
		return
	}
	c := heldComp(g)
	st.set(c, mkStore(st.getQ(c), ref, mkInt(n)))
}

func (x *Exec) checkHeld(st *State, comp string, ref *Term, write bool, reach *Term, pos token.Pos) {
	if x.spec > 0 || x.dry > 0 || len(x.modelPos) > 0 || len(x.w.guards) == 0 || ref.op == "alloc" || !strings.HasPrefix(comp, "F|") {
		return
	}
	g := x.w.guardedComp[comp]
	if g == nil || g.locked == "" {
		return
	}
	h := mkSelect(st.getQ(heldComp(g)), ref)
	ok, what := mkNot(mkEq(h, mkInt(0))), "read"
	if write {
		ok, what = mkEq(h, mkInt(2)), "write"
	}
	x.oblige(g.locked, "lock held for "+what, pos, reach, ok)
}
