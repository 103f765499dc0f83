package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// State maps heap components to terms. Components never touched so far are
// resolved through base.
type State struct {
	m    map[string]*Term
	base *stateBase
}

type stateBase struct {
	epoch  string
	bound  int64
	conds  []*Term
	states []*State
}

func newState(epoch string) *State {
	return &State{m: map[string]*Term{}, base: &stateBase{epoch: epoch, bound: db.alloc + 1}}
}

func (s *State) clone() *State {
	m := make(map[string]*Term, len(s.m))
	for k, v := range s.m {
		m[k] = v
	}
	return &State{m: m, base: s.base}
}

// readTrack, when set, records the components read.
var readTrack map[string]bool
var readFrom int64

func (s *State) get(comp string) *Term {
	if readTrack != nil {
		readTrack[comp] = true
	}
	return s.getQ(comp)
}

// getFor reads a component for use at one reference.
func (s *State) getFor(comp string, ref *Term) *Term {
	if readTrack != nil && ref.op == "alloc" {
		var k int64
		fmt.Sscan(ref.name, &k)
		if k > readFrom {
			return s.getQ(comp)
		}
	}
	return s.get(comp)
}

func (s *State) getQ(comp string) *Term {
	if t, ok := s.m[comp]; ok {
		return t
	}
	var t *Term
	if s.base.states != nil {
		t = s.base.states[len(s.base.states)-1].getQ(comp)
		for i := len(s.base.states) - 2; i >= 0; i-- {
			t = mkIte(s.base.conds[i], s.base.states[i].getQ(comp), t)
		}
	} else {
		so, ok := compSorts[comp]
		if !ok {
			panic("unregistered component " + comp)
		}
		t = mkConst("H"+s.base.epoch+"."+comp, so)
		t.bound = s.base.bound
	}
	s.m[comp] = t
	return t
}

func (s *State) set(comp string, t *Term) { s.m[comp] = t }

func mergeStates(conds []*Term, states []*State) *State {
	if len(states) == 1 {
		return states[0].clone()
	}
	same := true
	for _, s := range states[1:] {
		if s.base != states[0].base {
			same = false
		}
	}
	r := &State{m: map[string]*Term{}}
	if same {
		r.base = states[0].base
	} else {
		r.base = &stateBase{conds: conds, states: states}
	}
	keys := map[string]bool{}
	for _, s := range states {
		for k := range s.m {
			keys[k] = true
		}
	}
	var ks []string
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		t := states[len(states)-1].getQ(k)
		for i := len(states) - 2; i >= 0; i-- {
			t = mkIte(conds[i], states[i].getQ(k), t)
		}
		r.m[k] = t
	}
	return r
}

// ---- values

type Val interface{}

type addrKind int

const (
	aComp   addrKind = iota // value at comp[ref] (field or cell)
	aElem                   // comp[ref][idx]
	aGlobal                 // comp
)

type pathElem struct {
	field int
	st    types.Type // struct type
	idx   *Term      // array element when st == nil
}

type Addr struct {
	kind addrKind
	comp string
	ref  *Term
	idx  *Term
	path []pathElem
	typ  types.Type // pointee type
	slen *Term      // for elements reached through a slice: unused
}

func (a *Addr) key() string {
	k := fmt.Sprintf("%d|%s", a.kind, a.comp)
	if a.ref != nil {
		k += fmt.Sprintf("|r%d", a.ref.id)
	}
	if a.idx != nil {
		k += fmt.Sprintf("|i%d", a.idx.id)
	}
	for _, p := range a.path {
		if p.st != nil {
			k += fmt.Sprintf("|f%d", p.field)
		} else {
			k += fmt.Sprintf("|x%d", p.idx.id)
		}
	}
	return k
}

// addrEq: the condition under which two addresses are the same, or nil.
func addrEq(a, b Val) *Term {
	x, ok1 := a.(*Addr)
	y, ok2 := b.(*Addr)
	if !ok1 || !ok2 || len(x.path) > 0 || len(y.path) > 0 {
		return nil
	}
	if x.kind == aComp && y.kind == aComp && strings.HasPrefix(x.comp, "F|") && strings.HasPrefix(y.comp, "F|") {
		// Fields of objects: a component holds one field of one type. A
		// struct in a field has components of its own.
		if x.comp != y.comp {
			if types.Identical(x.typ, y.typ) {
				return tFalse
			}
			return nil
		}
		return mkEq(x.ref, y.ref)
	}
	return nil
}

var addrKeys = map[string]int{}

type AddrIte struct {
	cond *Term
	a, b Val
}

type FuncV struct {
	fn   *ssa.Function
	bind []Val
}

type TupleV struct{ vals []Val }

// iterator of a range over a map or string
type IterV struct {
	isStr bool
	m     *Term
	mt    *types.Map
	str   *Term
	domAt *Term  // domain at range start
	comp  string // the set of keys visited
}

var (
	addrTab []Val
	fnTab   []*FuncV
	fnKeys  = map[string]int{}
)

func valToTerm(v Val) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case *Addr:
		k := v.key()
		id, ok := addrKeys[k]
		if !ok {
			id = len(addrTab)
			addrTab = append(addrTab, v)
			addrKeys[k] = id
		}
		return mk("addrlit", fmt.Sprint(id), SInt)
	case *IterV:
		addrTab = append(addrTab, v)
		return mk("addrlit", fmt.Sprint(len(addrTab)-1), SInt)
	case *AddrIte:
		return mkIte(v.cond, valToTerm(v.a), valToTerm(v.b))
	case *FuncV:
		k := fmt.Sprintf("%p", v.fn)
		for _, b := range v.bind {
			k += fmt.Sprintf(",%d", valToTerm(b).id)
		}
		id, ok := fnKeys[k]
		if !ok {
			id = len(fnTab)
			fnTab = append(fnTab, v)
			fnKeys[k] = id
		}
		return mk("fnlit", fmt.Sprint(id), SInt)
	case nil:
		panic("valToTerm(nil)")
	}
	panic(fmt.Sprintf("valToTerm: %T", v))
}

// termToVal decodes address and function literals.
func termToVal(t *Term) Val {
	switch t.op {
	case "addrlit":
		var n int
		fmt.Sscan(t.name, &n)
		return addrTab[n]
	case "fnlit":
		var n int
		fmt.Sscan(t.name, &n)
		return fnTab[n]
	case "ite":
		if hasAddrLit(t) {
			return &AddrIte{t.args[0], termToVal(t.args[1]), termToVal(t.args[2])}
		}
	}
	return t
}

func hasAddrLit(t *Term) bool {
	switch t.op {
	case "addrlit":
		return true
	case "ite":
		return hasAddrLit(t.args[1]) || hasAddrLit(t.args[2])
	}
	return false
}

func sortTerms(ts []*Term) {
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
}

// ---- write log

type writeEntry struct {
	whole bool
	fresh bool
	refs  map[*Term]bool
}

type WriteLog struct {
	m   map[string]*writeEntry
	all bool
}

func newWriteLog() *WriteLog { return &WriteLog{m: map[string]*writeEntry{}} }

func (l *WriteLog) entry(comp string) *writeEntry {
	e := l.m[comp]
	if e == nil {
		e = &writeEntry{refs: map[*Term]bool{}}
		l.m[comp] = e
	}
	return e
}

func iteLeaves(t *Term, f func(*Term)) {
	if t.op == "ite" {
		iteLeaves(t.args[1], f)
		iteLeaves(t.args[2], f)
		return
	}
	f(t)
}

func (l *WriteLog) add(comp string, ref *Term) {
	e := l.entry(comp)
	if ref == nil {
		e.whole = true
		return
	}
	iteLeaves(ref, func(r *Term) { e.refs[r] = true })
}

// normalise turns a raw log into entries relative to an allocation counter
// and an id mark: references allocated after n0 become "fresh", references
// depending on constants created after mark become "whole".
func (l *WriteLog) normalise(n0 int64, mark int, stable func(*Term) bool) *WriteLog {
	r := newWriteLog()
	r.all = l.all
	for c, e := range l.m {
		ne := r.entry(c)
		ne.whole = e.whole
		ne.fresh = e.fresh
		for t := range e.refs {
			if t.op == "alloc" {
				var k int64
				fmt.Sscan(t.name, &k)
				if k > n0 {
					ne.fresh = true
					continue
				}
			}
			if dependsOnNew(t, mark, stable) {
				ne.whole = true
				continue
			}
			ne.refs[t] = true
		}
	}
	return r
}

func dependsOnNew(t *Term, mark int, stable func(*Term) bool) bool {
	out := map[*Term]bool{}
	collect(t, func(x *Term) bool {
		return x.op == "const" && x.id > mark && !strings.HasPrefix(x.name, "H") && (stable == nil || !stable(x))
	}, out, map[*Term]bool{})
	return len(out) > 0
}

func (l *WriteLog) subsetOf(o *WriteLog) bool {
	if l.all && !o.all {
		return false
	}
	for c, e := range l.m {
		oe := o.m[c]
		if oe == nil {
			return false
		}
		if oe.whole {
			continue
		}
		if e.whole || e.fresh && !oe.fresh {
			return false
		}
		for r := range e.refs {
			if !oe.refs[r] {
				return false
			}
		}
	}
	return true
}

func (l *WriteLog) union(o *WriteLog) {
	l.all = l.all || o.all
	for c, e := range o.m {
		x := l.entry(c)
		x.whole = x.whole || e.whole
		x.fresh = x.fresh || e.fresh
		for r := range e.refs {
			x.refs[r] = true
		}
	}
}
