package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Obl struct {
	label  string
	kind   string // ensures, assert, requires, inv, panic
	fn     string // function under verification
	pos    string
	reach  *Term
	cond   *Term
	nfacts int
	// results
	status  string // discharged, failed, unknown
	solver  string
	ms      int64
	output  string
	model   string
	trivial bool
}

type specCtx struct {
	requires  []*Term
	requiresL []ens
	ensures   []ens
	mode      string
}

type ens struct {
	label string
	cond  *Term
	pos   string
}

type Exec struct {
	static     map[*Term][]types.Type // static interface types a value was converted from
	w          *World
	facts      []*Term
	obls       []*Obl
	dry        int
	logs       []*WriteLog
	spec       int
	sctx       *specCtx
	depth      int
	stack      []*ssa.Function
	root       string
	rootFn     *ssa.Function
	used       map[string]bool // contracts relied on
	sites      map[string]bool // model call sites visited
	assume     map[string]bool // assumptions relied on
	inlined    map[string]bool
	panicLabel string
	warn       map[string]bool
	reachNotes []reachNote
	recursive  map[*ssa.Function]bool
	rootPkg    string
	rootFile   string
	models     map[*ssa.Function]bool
	modelPos   []token.Pos
	strict     bool
	prefix     *Term        // path condition of the current call, relative to which reach conditions are local
	known      map[int]bool // ids of the literals of prefix
}

type reachNote struct {
	label  string
	reach  *Term
	nfacts int
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Val
	binds  []Val
	defers []deferred
	exits  []exitRec
	spec   bool
	fi     *fnInfo
	names  map[string]ssa.Value
}

type deferred struct {
	reach *Term
	instr *ssa.Defer
	fnv   Val
	args  []Val
	block *ssa.BasicBlock
}

type exitRec struct {
	reach *Term
	st    *State
	res   []Val
}

type edgeIn struct {
	from *ssa.BasicBlock
	cond *Term
	st   *State
}

type unsupported struct{ msg string }

func (x *Exec) fail(pos token.Pos, f string, a ...any) {
	panic(unsupported{fmt.Sprintf("%s: %s", x.w.fset.Position(pos), fmt.Sprintf(f, a...))})
}

func (x *Exec) fact(t *Term) {
	if t == tTrue || x.spec > 0 {
		return
	}
	x.facts = append(x.facts, mkImp(x.pre(), t))
}

func (x *Exec) pre() *Term {
	if x.prefix == nil {
		return tTrue
	}
	return x.prefix
}

// under runs f with cond moved from the local reach condition to the prefix.
func (x *Exec) under(cond *Term, f func()) {
	if cond == tTrue || x.spec > 0 {
		f()
		return
	}
	sp, sk := x.prefix, x.known
	x.prefix = mkAnd(x.pre(), cond)
	x.known = map[int]bool{}
	for _, c := range conjuncts(x.prefix) {
		x.known[c.id] = true
	}
	defer func() { x.prefix, x.known = sp, sk }()
	f()
}

// simp decides a branch condition that the prefix already settles.
func (x *Exec) simp(c *Term) *Term {
	if x.prefix == nil || c == tTrue || c == tFalse {
		return c
	}
	if x.known[c.id] {
		return tTrue
	}
	if x.known[mkNot(c).id] {
		return tFalse
	}
	switch c.op {
	case "and":
		for _, a := range c.args {
			if x.known[mkNot(a).id] {
				return tFalse
			}
		}
	case "or":
		for _, a := range c.args {
			if x.known[a.id] {
				return tTrue
			}
		}
	}
	return c
}

// axiom adds a fact even in spec mode (definitions of terms).
func (x *Exec) axiom(t *Term) {
	if t == tTrue {
		return
	}
	if t.bvars {
		return
	}
	x.facts = append(x.facts, t)
}

func (x *Exec) oblige(label, kind string, pos token.Pos, reach, cond *Term) {
	if x.dry > 0 || reach == tFalse {
		return
	}
	if x.spec == 0 {
		reach = mkAnd(x.pre(), reach)
		if reach == tFalse {
			return
		}
	}
	p := x.w.fset.Position(pos)
	o := &Obl{label: label, kind: kind, fn: x.root, pos: fmt.Sprintf("%s:%d", p.Filename, p.Line), reach: reach, cond: cond, nfacts: len(x.facts)}
	x.obls = append(x.obls, o)
}

func (x *Exec) log(comp string, ref *Term) {
	for _, l := range x.logs {
		l.add(comp, ref)
	}
}

func (x *Exec) write(st *State, comp string, ref, v *Term) {
	x.log(comp, ref)
	st.set(comp, mkStore(st.getQ(comp), ref, v))
}

// ---- addresses

func (x *Exec) nonNil(reach, ref *Term, pos token.Pos, what string) {
	if x.spec > 0 {
		return
	}
	c := mkNot(mkEq(ref, mkInt(0)))
	if c == tTrue {
		return
	}
	x.panicOb(reach, c, pos, "nil dereference: "+what)
	x.fact(mkImp(reach, c))
}

func (x *Exec) panicOb(reach, cond *Term, pos token.Pos, what string) {
	if x.panicLabel == "" || x.spec > 0 {
		return
	}
	lab, kind, only := strings.Cut(x.panicLabel, "#")
	if only && !strings.Contains(what, kind) {
		return
	}
	x.oblige(lab, "panic-freedom ("+what+")", pos, reach, cond)
}

func (x *Exec) fieldAddr(base Val, st types.Type, i int, reach *Term, pos token.Pos) Val {
	u := st.Underlying().(*types.Struct)
	ft := u.Field(i).Type()
	switch b := base.(type) {
	case *Term:
		if v := termToVal(b); v != Val(b) {
			return x.fieldAddr(v, st, i, reach, pos)
		}
		x.nonNil(reach, b, pos, u.Field(i).Name())
		c := regComp(fieldComp(st, i), arrSort(SInt, sortOf(ft)))
		return &Addr{kind: aComp, comp: c, ref: b, typ: ft}
	case *Addr:
		n := *b
		n.path = append(append([]pathElem{}, b.path...), pathElem{field: i, st: st})
		n.typ = ft
		return &n
	case *AddrIte:
		return &AddrIte{b.cond, x.fieldAddr(b.a, st, i, mkAnd(reach, b.cond), pos), x.fieldAddr(b.b, st, i, mkAnd(reach, mkNot(b.cond)), pos)}
	}
	panic(fmt.Sprintf("fieldAddr on %T", base))
}

func (x *Exec) rawLoad(st *State, a *Addr) *Term {
	switch a.kind {
	case aGlobal:
		return st.get(a.comp)
	case aComp:
		return mkSelect(st.getFor(a.comp, a.ref), a.ref)
	default:
		return mkSelect(mkSelect(st.getFor(a.comp, a.ref), a.ref), a.idx)
	}
}

func (x *Exec) load(st *State, v Val, t types.Type, reach *Term, pos token.Pos) *Term {
	switch a := v.(type) {
	case *AddrIte:
		return mkIte(a.cond, x.load(st, a.a, t, mkAnd(reach, a.cond), pos), x.load(st, a.b, t, mkAnd(reach, mkNot(a.cond)), pos))
	case *Addr:
		if a.kind == aComp {
			x.checkHeld(st, a.comp, a.ref, false, reach, pos)
		}
		r := x.rawLoad(st, a)
		for _, p := range a.path {
			if p.st != nil {
				r = mkSel(string(sortOf(p.st)), p.field, r)
			} else {
				r = mkSelect(r, p.idx)
			}
		}
		x.typeFacts(r, t, reach)
		return r
	case *Term:
		if w := termToVal(a); w != Val(a) {
			return x.load(st, w, t, reach, pos)
		}
		x.nonNil(reach, a, pos, "load")
		if s := structOf(t); s != nil {
			n := structDT(types.Unalias(t), s)
			var as []*Term
			for i := 0; i < s.NumFields(); i++ {
				c := regComp(fieldComp(t, i), arrSort(SInt, sortOf(s.Field(i).Type())))
				as = append(as, mkSelect(st.getFor(c, a), a))
			}
			if len(as) == 0 {
				as = []*Term{mkInt(0)}
			}
			return mkCtor(n, Sort(n), as...)
		}
		if at, ok := t.Underlying().(*types.Array); ok {
			c := regComp(elemComp(at.Elem()), arrSort(SInt, arrSort(SInt, sortOf(at.Elem()))))
			return mkSelect(st.getFor(c, a), a)
		}
		c := regComp(cellComp(t), arrSort(SInt, sortOf(t)))
		r := mkSelect(st.getFor(c, a), a)
		x.typeFacts(r, t, reach)
		return r
	}
	panic(fmt.Sprintf("load from %T", v))
}

func (x *Exec) store(st *State, v Val, t types.Type, val *Term, reach *Term, pos token.Pos) {
	switch a := v.(type) {
	case *AddrIte:
		s1, s2 := st.clone(), st.clone()
		x.store(s1, a.a, t, val, mkAnd(reach, a.cond), pos)
		x.store(s2, a.b, t, val, mkAnd(reach, mkNot(a.cond)), pos)
		*st = *mergeStates([]*Term{a.cond, mkNot(a.cond)}, []*State{s1, s2})
	case *Addr:
		nv := val
		if len(a.path) > 0 {
			nv = updatePath(x.rawLoad(st, a), a.path, val)
		}
		switch a.kind {
		case aGlobal:
			x.log(a.comp, nil)
			st.set(a.comp, nv)
		case aComp:
			x.checkHeld(st, a.comp, a.ref, true, reach, pos)
			x.write(st, a.comp, a.ref, nv)
		default:
			x.write(st, a.comp, a.ref, mkStore(mkSelect(st.get(a.comp), a.ref), a.idx, nv))
		}
	case *Term:
		if w := termToVal(a); w != Val(a) {
			x.store(st, w, t, val, reach, pos)
			return
		}
		x.nonNil(reach, a, pos, "store")
		if s := structOf(t); s != nil {
			n := structDT(types.Unalias(t), s)
			for i := 0; i < s.NumFields(); i++ {
				c := regComp(fieldComp(t, i), arrSort(SInt, sortOf(s.Field(i).Type())))
				x.write(st, c, a, mkSel(n, i, val))
			}
			return
		}
		if at, ok := t.Underlying().(*types.Array); ok {
			c := regComp(elemComp(at.Elem()), arrSort(SInt, arrSort(SInt, sortOf(at.Elem()))))
			x.write(st, c, a, val)
			return
		}
		c := regComp(cellComp(t), arrSort(SInt, sortOf(t)))
		x.write(st, c, a, val)
	default:
		panic(fmt.Sprintf("store to %T", v))
	}
}

func updatePath(base *Term, path []pathElem, val *Term) *Term {
	if len(path) == 0 {
		return val
	}
	p := path[0]
	if p.st != nil {
		n := string(sortOf(p.st))
		dt := db.dts[n]
		args := make([]*Term, len(dt.fields))
		for i := range args {
			args[i] = mkSel(n, i, base)
		}
		args[p.field] = updatePath(args[p.field], path[1:], val)
		return mkCtor(n, base.sort, args...)
	}
	return mkStore(base, p.idx, updatePath(mkSelect(base, p.idx), path[1:], val))
}

// typeFacts records what the Go type guarantees about a loaded value.
func (x *Exec) typeFacts(t *Term, ty types.Type, reach *Term) {
	if t.bvars || isLit(t) || false {
		return
	}
	switch u := ty.Underlying().(type) {
	case *types.Basic:
		if lo, hi, ok := intRange(ty); ok {
			if t.op == "int" {
				return
			}
			x.axiom(mkLe(mkInt(lo), t))
			x.axiom(mkLe(t, mkInt(hi)))
		} else if isUnsigned(ty) && u.Info()&types.IsInteger != 0 && t.op != "int" {
			x.axiom(mkLe(mkInt(0), t))
		}
	case *types.Slice:
		x.sliceFacts(t)
	}
	_ = reach
}

func (x *Exec) sliceFacts(t *Term) {
	if t.op == "ctor" || t.bvars {
		return
	}
	x.axiom(mkLe(mkInt(0), slLen(t)))
	x.axiom(mkLe(mkInt(0), slOff(t)))
	x.axiom(mkLe(slLen(t), slCap(t)))
	x.axiom(mkImp(mkEq(slBase(t), mkInt(0)), mkEq(slCap(t), mkInt(0))))
}

// ---- operands

func (x *Exec) val(f *Frame, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(v)
	case *ssa.Global:
		t := deref(v.Type())
		return &Addr{kind: aGlobal, comp: regComp("G|"+v.Pkg.Pkg.Path()+"."+v.Name(), sortOf(t)), typ: t}
	case *ssa.Function:
		return &FuncV{fn: v}
	case *ssa.FreeVar:
		for i, fv := range f.fn.FreeVars {
			if fv == v {
				return f.binds[i]
			}
		}
	case *ssa.Builtin:
		return v
	}
	if r, ok := f.env[v]; ok {
		return r
	}
	x.fail(v.Pos(), "undefined value %s in %s", v.Name(), f.fn)
	return nil
}

func (x *Exec) tval(f *Frame, v ssa.Value) *Term { return valToTerm(x.val(f, v)) }

func (x *Exec) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return zeroOf(t)
	}
	switch sortOf(t) {
	case SBool:
		return mkBool(constant.BoolVal(c.Value))
	case SInt:
		iv := constant.ToInt(c.Value)
		if iv.Kind() == constant.Int {
			b, _ := new(big.Int).SetString(iv.ExactString(), 10)
			return mkBig(b)
		}
		return mkInt(0)
	case SStr:
		return mkStr(constant.StringVal(c.Value))
	case SReal:
		s := constant.ToFloat(c.Value).ExactString()
		return mk("real", s, SReal)
	}
	return zeroOf(t)
}

// ---- functions

func fnDisplay(fn *ssa.Function) string { return fn.String() }

// runFunc symbolically executes fn from st under reach. It returns merged
// results, the exit state and the condition of returning normally.
func (x *Exec) runFunc(fn *ssa.Function, args, binds []Val, st *State, reach *Term) ([]Val, *State, *Term) {
	if len(fn.Blocks) == 0 {
		x.fail(fn.Pos(), "no body: %s", fn)
	}
	f := &Frame{fn: fn, env: map[ssa.Value]Val{}, binds: binds, fi: infoOf(fn)}
	for i, p := range fn.Params {
		if i < len(args) {
			f.env[p] = args[i]
		}
	}
	x.stack = append(x.stack, fn)
	defer func() { x.stack = x.stack[:len(x.stack)-1] }()
	if x.spec == 0 {
		x.under(reach, func() {
			x.region(f, nil, map[*ssa.BasicBlock][]edgeIn{fn.Blocks[0]: {{nil, tTrue, st}}})
		})
	} else {
		x.region(f, nil, map[*ssa.BasicBlock][]edgeIn{fn.Blocks[0]: {{nil, reach, st}}})
	}
	if fn.Recover != nil {
		// the recover block returns the named results after a recovered panic;
		// panicking executions end the obligation scope (see DESIGN.md).
	}
	if len(f.exits) == 0 {
		res := make([]Val, fn.Signature.Results().Len())
		for i := range res {
			res[i] = zeroOf(fn.Signature.Results().At(i).Type())
		}
		return res, st, tFalse
	}
	var conds []*Term
	var states []*State
	for _, e := range f.exits {
		conds = append(conds, e.reach)
		states = append(states, e.st)
	}
	rel := relConds(conds, nil)
	out := mergeStates(rel, states)
	n := fn.Signature.Results().Len()
	res := make([]Val, n)
	for i := 0; i < n; i++ {
		var vs []Val
		for _, e := range f.exits {
			vs = append(vs, e.res[i])
		}
		res[i] = mergeVals(rel, vs)
	}
	nr := mkOr(conds...)
	if x.spec == 0 {
		nr = mkAnd(reach, nr)
	}
	return res, out, nr
}

func mergeVals(conds []*Term, vs []Val) Val {
	same := true
	for _, v := range vs[1:] {
		if v != vs[0] {
			same = false
		}
	}
	if same {
		return vs[0]
	}
	r := valToTerm(vs[len(vs)-1])
	for i := len(vs) - 2; i >= 0; i-- {
		r = mkIte(conds[i], valToTerm(vs[i]), r)
	}
	return termToVal(r)
}

// region processes the blocks of a loop body (or the whole function when l is
// nil) in reverse postorder. incoming holds the edges into the region; edges
// that leave the region stay in incoming for the caller.
func (x *Exec) region(f *Frame, l *loopInfo, incoming map[*ssa.BasicBlock][]edgeIn) {
	done := map[*ssa.BasicBlock]bool{}
	for _, b := range f.fi.rpo {
		if done[b] || l != nil && !l.blocks[b] {
			continue
		}
		if l != nil && b == l.header {
			// header of the region itself: executed by runLoop
			continue
		}
		in := incoming[b]
		if inner := f.fi.loops[b]; inner != nil {
			for lb := range inner.blocks {
				done[lb] = true
			}
			if len(in) == 0 {
				continue
			}
			delete(incoming, b)
			x.runLoop(f, inner, in, incoming)
			continue
		}
		if len(in) == 0 {
			continue
		}
		delete(incoming, b)
		x.enterBlock(f, b, in, incoming)
	}
}

func (x *Exec) enterBlock(f *Frame, b *ssa.BasicBlock, in []edgeIn, incoming map[*ssa.BasicBlock][]edgeIn) {
	var conds []*Term
	var states []*State
	var ins []edgeIn
	for _, e := range in {
		if e.cond == tFalse {
			continue
		}
		ins = append(ins, e)
		conds = append(conds, e.cond)
		states = append(states, e.st)
	}
	if len(ins) == 0 {
		return
	}
	reach := mkOr(conds...)
	st := mergeStates(relConds(conds, reach), states)
	// phis
	phis := map[*ssa.Phi]Val{}
	for _, ins1 := range b.Instrs {
		p, ok := ins1.(*ssa.Phi)
		if !ok {
			break
		}
		var vs []Val
		for _, e := range ins {
			vs = append(vs, x.val(f, p.Edges[predIndex(b, e.from, p)]))
		}
		phis[p] = mergeVals(relConds(conds, reach), vs)
	}
	for p, v := range phis {
		f.env[p] = v
	}
	x.execBlock(f, b, st, reach, incoming)
}

// relConds strips conjuncts common to all conditions, which the merged reach
// condition implies anyway, so that merged values have small guards.
func relConds(conds []*Term, reach *Term) []*Term {
	if len(conds) < 2 {
		return conds
	}
	common := map[int]bool{}
	for _, c := range conjuncts(conds[0]) {
		common[c.id] = true
	}
	for _, o := range conds[1:] {
		have := map[int]bool{}
		for _, c := range conjuncts(o) {
			have[c.id] = true
		}
		for id := range common {
			if !have[id] {
				delete(common, id)
			}
		}
	}
	r := make([]*Term, len(conds))
	for i, o := range conds {
		var cs []*Term
		for _, c := range conjuncts(o) {
			if !common[c.id] {
				cs = append(cs, c)
			}
		}
		r[i] = mkAnd(cs...)
	}
	return r
}

func predIndex(b, from *ssa.BasicBlock, p *ssa.Phi) int {
	for i, q := range b.Preds {
		if q == from {
			return i
		}
	}
	panic("predIndex")
}

func (x *Exec) addEdge(incoming map[*ssa.BasicBlock][]edgeIn, from, to *ssa.BasicBlock, cond *Term, st *State) {
	if cond == tFalse {
		return
	}
	// two edges from the same block to the same successor are merged
	for i, e := range incoming[to] {
		if e.from == from {
			incoming[to][i].cond = mkOr(e.cond, cond)
			return
		}
	}
	incoming[to] = append(incoming[to], edgeIn{from, cond, st})
}

func (x *Exec) execBlock(f *Frame, b *ssa.BasicBlock, st *State, reach *Term, incoming map[*ssa.BasicBlock][]edgeIn) {
	for _, ins := range b.Instrs {
		switch i := ins.(type) {
		case *ssa.Phi:
			continue
		case *ssa.Jump:
			x.addEdge(incoming, b, b.Succs[0], reach, st)
			return
		case *ssa.If:
			c := x.simp(x.tval(f, i.Cond))
			t := mkAnd(reach, c)
			e := mkAnd(reach, mkNot(c))
			x.addEdge(incoming, b, b.Succs[0], t, st.clone())
			x.addEdge(incoming, b, b.Succs[1], e, st)
			return
		case *ssa.Return:
			var res []Val
			for _, r := range i.Results {
				res = append(res, x.val(f, r))
			}
			f.exits = append(f.exits, exitRec{reach, st, res})
			return
		case *ssa.Panic:
			x.panicOb(reach, tFalse, i.Pos(), "explicit panic")
			return
		case *ssa.RunDefers:
			reach = x.runDefers(f, b, st, reach)
		default:
			var ns *State
			ns, reach = x.instr(f, ins, st, reach)
			st = ns
			if reach == tFalse {
				return
			}
		}
	}
}

func (x *Exec) runDefers(f *Frame, b *ssa.BasicBlock, st *State, reach *Term) *Term {
	for i := len(f.defers) - 1; i >= 0; i-- {
		d := f.defers[i]
		cond := d.reach
		if d.block.Dominates(b) {
			cond = tTrue
		}
		s2 := st.clone()
		r2 := mkAnd(reach, cond)
		if r2 == tFalse {
			continue
		}
		_, s3, r3 := x.callValue(f, d.instr.Common(), d.fnv, d.args, s2, r2, d.instr.Pos(), nil)
		if cond == tTrue {
			*st = *s3
			reach = r3
		} else {
			*st = *mergeStates([]*Term{cond, mkNot(cond)}, []*State{s3, st.clone()})
			reach = mkOr(r3, mkAnd(reach, mkNot(cond)))
		}
	}
	return reach
}

// ---- loops

func (x *Exec) havocLog(st *State, w *WriteLog, n0 int64, tag string) *State {
	if w.all {
		db.fresh++
		return x.w.carryHeld(st, newState(fmt.Sprintf("U%d", db.fresh)))
	}
	r := st.clone()
	var cs []string
	for c := range w.m {
		cs = append(cs, c)
	}
	sort.Strings(cs)
	for _, c := range cs {
		e := w.m[c]
		so, ok := compSorts[c]
		if !ok {
			continue
		}
		nc := freshConst("h."+tag+"."+shortComp(c), so)
		nc.bound = db.alloc + 1
		if strings.HasPrefix(c, "G|") || e.whole {
			r.set(c, nc)
			continue
		}
		var refs []*Term
		for t := range e.refs {
			refs = append(refs, t)
		}
		sortTerms(refs)
		if len(refs) == 0 && !e.fresh {
			continue
		}
		r.set(c, mkFramed(st.get(c), nc, n0, refs))
	}
	return r
}

func shortComp(c string) string {
	if i := strings.LastIndexAny(c, "/"); i >= 0 {
		return c[:2] + c[i+1:]
	}
	return c
}

func (x *Exec) runLoop(f *Frame, l *loopInfo, in []edgeIn, incoming map[*ssa.BasicBlock][]edgeIn) {
	h := l.header
	var conds []*Term
	var states []*State
	var ins []edgeIn
	for _, e := range in {
		if e.cond != tFalse {
			ins = append(ins, e)
			conds = append(conds, e.cond)
			states = append(states, e.st)
		}
	}
	if len(ins) == 0 {
		return
	}
	reach0 := mkOr(conds...)
	rc := relConds(conds, reach0)
	st0 := mergeStates(rc, states)
	var phis []*ssa.Phi
	inits := map[*ssa.Phi]Val{}
	for _, i := range h.Instrs {
		p, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		var vs []Val
		for _, e := range ins {
			vs = append(vs, x.val(f, p.Edges[predIndex(h, e.from, p)]))
		}
		inits[p] = mergeVals(rc, vs)
	}
	n0 := db.alloc
	db.alloc++
	mark := db.n
	loopNo := l.index
	hint := fmt.Sprintf("%s.L%d", f.fn.Name(), loopNo)

	type passRes struct {
		phiC   map[*ssa.Phi]*Term
		back   []edgeIn
		backV  map[*ssa.Phi]*Term
		exits  map[*ssa.BasicBlock][]edgeIn
		log    *WriteLog
		fexits []exitRec
		iters  []*nextRec
		reach  *Term
	}
	fixed := map[*ssa.Phi]bool{}
	pass := func(w *WriteLog, assume func(phiC map[*ssa.Phi]*Term, st *State, reach *Term)) *passRes {
		r := &passRes{phiC: map[*ssa.Phi]*Term{}, exits: map[*ssa.BasicBlock][]edgeIn{}, backV: map[*ssa.Phi]*Term{}}
		saveExits := f.exits
		f.exits = nil
		st := x.havocLog(st0, w, n0, hint)
		for _, p := range phis {
			if fixed[p] {
				f.env[p] = inits[p]
				r.phiC[p] = valToTerm(inits[p])
				continue
			}
			c := freshConst(hint+"."+p.Comment, sortOf(p.Type()))
			c.bound = db.alloc + 1
			r.phiC[p] = c
			f.env[p] = c
			x.typeFacts(c, p.Type(), tTrue)
		}
		if assume != nil {
			assume(r.phiC, st, reach0)
		}
		lg := newWriteLog()
		x.logs = append(x.logs, lg)
		ninc := map[*ssa.BasicBlock][]edgeIn{}
		r.reach = reach0
		saveNext := x.w.nexts
		x.w.nexts = nil
		x.execBlock(f, h, st, reach0, ninc)
		x.region(f, l, ninc)
		r.iters = x.w.nexts
		x.w.nexts = saveNext
		x.logs = x.logs[:len(x.logs)-1]
		r.log = lg
		for b, es := range ninc {
			if b == h {
				r.back = es
			} else {
				r.exits[b] = es
			}
		}
		if len(r.back) > 0 {
			var bc []*Term
			for _, e := range r.back {
				bc = append(bc, e.cond)
			}
			rb := relConds(bc, nil)
			for _, p := range phis {
				var vs []Val
				for _, e := range r.back {
					vs = append(vs, x.val(f, p.Edges[predIndex(h, e.from, p)]))
				}
				r.backV[p] = valToTerm(mergeVals(rb, vs))
			}
		}
		r.fexits = f.exits
		f.exits = saveExits
		return r
	}
	dry := func(w *WriteLog) *passRes {
		nf := len(x.facts)
		x.dry++
		r := pass(w, nil)
		x.dry--
		x.facts = x.facts[:nf]
		return r
	}
	// 1. write set fixpoint
	w := newWriteLog()
	var r *passRes
	for it := 0; ; it++ {
		r = dry(w)
		nw := r.log.normalise(n0, mark, nil)
		again := false
		if !nw.subsetOf(w) {
			if it > 4 {
				for c := range nw.m {
					nw.entry(c).whole = true
				}
			}
			w.union(nw)
			again = true
		}
		for _, p := range phis {
			if !fixed[p] && len(r.back) > 0 && r.backV[p] == r.phiC[p] {
				fixed[p] = true
				again = true
			}
		}
		if !again {
			break
		}
	}
	// 2. invariants
	var index *ssa.Phi
	idxDown := false
	var invs []func(phiC map[*ssa.Phi]*Term, st *State, reach *Term) *Term // returned term is assumed at the head
	var chk []func(phiC map[*ssa.Phi]*Term, st *State, reach *Term) (string, *Term, token.Pos)
	if len(r.back) > 0 {
		var bc []*Term
		for _, e := range r.back {
			bc = append(bc, e.cond)
		}
		C := mkOr(bc...)
		down := false
		phiSet := map[*Term]bool{}
		for _, p := range phis {
			if !fixed[p] {
				phiSet[r.phiC[p]] = true
			}
		}
		for _, p := range phis {
			if fixed[p] || sortOf(p.Type()) != SInt {
				continue
			}
			bv, pc := r.backV[p], r.phiC[p]
			minStep, maxStep, ok := stepRange(bv, pc)
			if !ok {
				continue
			}
			p := p
			if minStep >= 0 {
				invs = append(invs, func(phiC map[*ssa.Phi]*Term, st *State, reach *Term) *Term {
					return mkLe(valToTerm(inits[p]), phiC[p])
				})
			} else if maxStep <= 0 {
				invs = append(invs, func(phiC map[*ssa.Phi]*Term, st *State, reach *Term) *Term {
					return mkLe(phiC[p], valToTerm(inits[p]))
				})
			}
			if minStep == 1 && maxStep == 1 && (index == nil || down) {
				index, down = p, false
			}
			if minStep == -1 && maxStep == -1 && index == nil {
				index, down = p, true
			}
		}
		idxDown = down
		// facts about completed iterations
		okFor := func(t *Term, allowed map[*Term]bool) bool {
			out := map[*Term]bool{}
			collect(t, func(y *Term) bool {
				return y.op == "const" && y.id > mark && !strings.HasPrefix(y.name, "H") && !allowed[y]
			}, out, map[*Term]bool{})
			return len(out) == 0
		}
		if index != nil {
			pc := r.phiC[index]
			var keep []*Term
			for _, c := range conjuncts(C) {
				if okFor(c, map[*Term]bool{pc: true}) {
					keep = append(keep, c)
				}
			}
			// conditions that did not mention the index are plain facts after one iteration
			if len(keep) > 0 {
				K := mkAnd(keep...)
				idx := index
				init := valToTerm(inits[index])
				invs = append(invs, func(phiC map[*ssa.Phi]*Term, st *State, reach *Term) *Term {
					ph := freshConst("q", SInt)
					in, prev := doneRange(init, phiC[idx], ph, down)
					q := quantify(ph, func(v *Term) *Term {
						return mkImp(in, subst(K, map[*Term]*Term{pc: ph}))
					})
					last := mkImp(mkNot(mkEq(init, phiC[idx])), subst(K, map[*Term]*Term{pc: prev}))
					return mkAnd(q, last)
				})
			}
		} else if len(r.iters) > 0 {
			for _, nr := range r.iters {
				if !nr.it.isStr && f.fi.inner[nr.block] == l {
					nr := nr
					var keep []*Term
					for _, c := range conjuncts(subst(C, map[*Term]*Term{nr.ok: tTrue})) {
						if okFor(c, map[*Term]bool{nr.key: true}) {
							keep = append(keep, c)
						}
					}
					K := mkAnd(keep...)
					if K != tTrue {
						x.w.mapInv[nr.instr] = func(key, okT, dom *Term, reach *Term) {
							ks, _ := arrParts(dom.sort)
							ph := freshConst("q", ks)
							body := subst(K, map[*Term]*Term{nr.key: ph})
							q := quantify(ph, func(v *Term) *Term { return mkImp(mkSelect(dom, ph), body) })
							x.fact(mkImp(mkAnd(reach, mkNot(okT)), q))
						}
					}
				}
			}
		}
		// values assigned in the last completed iteration
		if index != nil {
			pc := r.phiC[index]
			for _, p := range phis {
				if fixed[p] || p == index {
					continue
				}
				p := p
				bv := r.backV[p]
				if bv == nil || hasAddrLit(bv) || hasFnLit(bv) && bv.sort == SInt && bv.op != "int" || !okFor(bv, map[*Term]bool{pc: true}) {
					continue
				}
				idx := index
				init := valToTerm(inits[idx])
				pinit := valToTerm(inits[p])
				invs = append(invs, func(phiC map[*ssa.Phi]*Term, st *State, reach *Term) *Term {
					_, prev := doneRange(init, phiC[idx], pc, down)
					return mkEq(phiC[p], mkIte(mkEq(init, phiC[idx]), pinit, subst(bv, map[*Term]*Term{pc: prev})))
				})
			}
		}
		// selected elements: b' = b, or e(i) when c(i)
		if index != nil {
			pc := r.phiC[index]
			for _, p := range phis {
				if fixed[p] || p == index || sortOf(p.Type()) == SBool {
					continue
				}
				p := p
				bv, bc := r.backV[p], r.phiC[p]
				if bv == nil || hasAddrLit(bv) || hasFnLit(bv) {
					continue
				}
				allow := map[*Term]bool{pc: true}
				var sel []*Term // e(i) = v and c(i), as terms over pc and bc
				ok, kept := true, false
				n := 0
				var walk func(t *Term, conds []*Term)
				walk = func(t *Term, conds []*Term) {
					if n++; n > 64 {
						ok = false
					}
					if t.op == "ite" && ok {
						walk(t.args[1], append(append([]*Term(nil), conds...), conjuncts(t.args[0])...))
						walk(t.args[2], append(append([]*Term(nil), conds...), conjuncts(mkNot(t.args[0]))...))
						return
					}
					if t == bc {
						kept = true
						return
					}
					if !okFor(t, allow) {
						ok = false
						return
					}
					c := mkEq(bc, t)
					for _, d := range conds {
						if okFor(d, allow) {
							c = mkAnd(c, d)
						}
					}
					sel = append(sel, c)
				}
				walk(bv, nil)
				if !ok || !kept || len(sel) == 0 {
					continue
				}
				any := mkOr(sel...)
				idx := index
				init, pinit := valToTerm(inits[idx]), valToTerm(inits[p])
				invs = append(invs, func(phiC map[*ssa.Phi]*Term, st *State, reach *Term) *Term {
					ph := freshConst("q", SInt)
					in, _ := doneRange(init, phiC[idx], ph, down)
					body := subst(any, map[*Term]*Term{pc: ph, bc: phiC[p]})
					return mkOr(mkEq(phiC[p], pinit), quantifyEx(ph, func(v *Term) *Term { return mkAnd(in, body) }))
				})
			}
		}
		// boolean accumulators: b' = b or c(i); b' = b and c(i)
		if index != nil {
			pc := r.phiC[index]
			for _, p := range phis {
				if fixed[p] || sortOf(p.Type()) != SBool {
					continue
				}
				p := p
				bv, bc := r.backV[p], r.phiC[p]
				whenT := subst(bv, map[*Term]*Term{bc: tTrue})
				whenF := subst(bv, map[*Term]*Term{bc: tFalse})
				allow := map[*Term]bool{pc: true}
				var mkInv func(ph *Term) (*Term, bool)
				if whenT == tTrue && okFor(whenF, allow) {
					mkInv = func(ph *Term) (*Term, bool) { return subst(whenF, map[*Term]*Term{pc: ph}), true }
				} else if whenF == tFalse && okFor(whenT, allow) {
					mkInv = func(ph *Term) (*Term, bool) { return mkNot(subst(whenT, map[*Term]*Term{pc: ph})), false }
				}
				if mkInv == nil {
					continue
				}
				idx := index
				init := valToTerm(inits[idx])
				binit := valToTerm(inits[p])
				_, orKind := mkInv(pc)
				invs = append(invs, func(phiC map[*ssa.Phi]*Term, st *State, reach *Term) *Term {
					ph := freshConst("q", SInt)
					c, _ := mkInv(ph)
					in, _ := doneRange(init, phiC[idx], ph, down)
					ex := quantifyEx(ph, func(v *Term) *Term { return mkAnd(in, c) })
					if orKind {
						return mkEq(phiC[p], mkOr(binit, ex))
					}
					return mkEq(phiC[p], mkAnd(binit, mkNot(ex)))
				})
			}
		}
	}
	// user invariants
	uis := append([]*loopInvSpec(nil), x.w.loopInvs[f.fn]...)
	for _, ui := range x.w.anyInvs {
		if _, ok := w.m[ui.writes]; ok {
			uis = append(uis, ui)
		} else if strings.HasSuffix(ui.writes, ".v_ranged") {
			for c := range w.m {
				if strings.HasPrefix(c, "X|ranged|") {
					uis = append(uis, ui)
					break
				}
			}
		}
	}
	for _, ui := range uis {
		if ui.loop >= 0 && ui.loop != loopNo || fnPkgPath(ui.fn) != x.rootPkg {
			continue
		}
		ui := ui
		get := func(phiC map[*ssa.Phi]*Term, st *State) ([]Val, bool) {
			var args []Val
			for _, prm := range ui.fn.Params {
				if prm.Name() == "done" && index != nil {
					init := valToTerm(inits[index])
					if idxDown {
						args = append(args, mkSub(init, phiC[index]))
					} else {
						args = append(args, mkSub(phiC[index], init))
					}
					continue
				}
				if prm.Name() == "done" {
					return nil, false
				}
				if n, ok := strings.CutPrefix(prm.Name(), "has_"); ok {
					_, ok := x.lookupName(f, h, n, nil, phis, phiC, st)
					args = append(args, mkBool(ok))
					continue
				}
				v, ok := x.lookupName(f, h, prm.Name(), prm.Type(), phis, phiC, st)
				if !ok && optional(ui.fn, prm.Name()) {
					v, ok = freshConst("none", sortOf(prm.Type())), true
				}
				if !ok {
					return nil, false
				}
				args = append(args, v)
			}
			return args, true
		}
		inv := func(phiC map[*ssa.Phi]*Term, st *State, reach *Term) *Term {
			args, ok := get(phiC, st)
			if !ok {
				return nil
			}
			return x.evalSpec(ui.fn, args, nil, st)
		}
		// entry check
		ph0 := map[*ssa.Phi]*Term{}
		for _, p := range phis {
			ph0[p] = valToTerm(inits[p])
			f.env[p] = inits[p]
		}
		if t := inv(ph0, st0, reach0); t != nil {
			x.oblige(ui.label, "loop invariant on entry", ui.fn.Pos(), reach0, t)
		} else {
			continue
		}
		invs = append(invs, inv)
		chk = append(chk, func(phiC map[*ssa.Phi]*Term, st *State, reach *Term) (string, *Term, token.Pos) {
			return ui.label, inv(phiC, st, reach), ui.fn.Pos()
		})
	}
	// candidate invariants about the maps written by the loop: entry keys keep
	// their values; the keys named in the function are left alone
	if c := x.mapCandidates(f, l, w, st0); len(c) > 0 && x.spec == 0 && x.dry == 0 && len(r.back) > 0 {
		invs = append(invs, x.houdini(c, func(assume func(st *State, reach *Term), check func(edges []edgeIn)) {
			nf := len(x.facts)
			x.dry++
			rr := pass(w, func(phiC map[*ssa.Phi]*Term, st *State, reach *Term) {
				for _, inv := range invs {
					if t := inv(phiC, st, reach); t != nil {
						x.fact(mkImp(reach, t))
					}
				}
				assume(st, reach)
			})
			check(rr.back)
			x.dry--
			x.facts = x.facts[:nf]
		})...)
	}
	// 3. final pass
	r = pass(w, func(phiC map[*ssa.Phi]*Term, st *State, reach *Term) {
		for _, inv := range invs {
			if t := inv(phiC, st, reach); t != nil {
				x.fact(mkImp(reach, t))
			}
		}
	})
	for _, g := range x.w.lockedGuards() {
		c := heldComp(g)
		for _, e := range r.back {
			if a, b := st0.getQ(c), e.st.getQ(c); a != b && x.dry == 0 {
				q := freshConst("q", SInt)
				x.oblige(g.locked, "locks released in a loop", h.Instrs[0].Pos(), e.cond, quantify(q, func(*Term) *Term { return mkEq(mkSelect(a, q), mkSelect(b, q)) }))
			}
		}
	}
	for _, c := range chk {
		for _, e := range r.back {
			phiB := map[*ssa.Phi]*Term{}
			save := map[*ssa.Phi]Val{}
			for _, p := range phis {
				phiB[p] = valToTerm(x.val(f, p.Edges[predIndex(h, e.from, p)]))
			}
			for _, p := range phis {
				save[p] = f.env[p]
				f.env[p] = termToVal(phiB[p])
			}
			lab, t, pos := c(phiB, e.st, e.cond)
			for p, v := range save {
				f.env[p] = v
			}
			if t != nil {
				x.oblige(lab, "loop invariant preserved", pos, e.cond, t)
			}
		}
	}
	for b, es := range r.exits {
		for _, e := range es {
			x.addEdge(incoming, e.from, b, e.cond, e.st)
		}
	}
	f.exits = append(f.exits, r.fexits...)
}

// doneRange: ph is the head value of a completed iteration; prev is the head
// value of the last completed one.
func doneRange(init, cur, ph *Term, down bool) (in, prev *Term) {
	if down {
		return mkAnd(mkLt(cur, ph), mkLe(ph, init)), mkAdd(cur, mkInt(1))
	}
	return mkAnd(mkLe(init, ph), mkLt(ph, cur)), mkAdd(cur, mkInt(-1))
}

// optional: the function has a parameter has_NAME.
func optional(fn *ssa.Function, name string) bool {
	for _, p := range fn.Params {
		if p.Name() == "has_"+name {
			return true
		}
	}
	return false
}

// lookupName finds the current value of a source variable by name.
func (x *Exec) lookupName(f *Frame, h *ssa.BasicBlock, name string, t types.Type, phis []*ssa.Phi, phiC map[*ssa.Phi]*Term, st *State) (Val, bool) {
	for _, p := range phis {
		if p.Comment == name {
			return phiC[p], true
		}
	}
	for _, p := range f.fn.Params {
		if p.Name() == name {
			return f.env[p], true
		}
	}
	for i, fv := range f.fn.FreeVars {
		if fv.Name() == name {
			v := f.binds[i]
			if types.Identical(fv.Type(), t) {
				return v, true
			}
			if d := deref(fv.Type()); d != nil && types.Identical(d, t) {
				return termToVal(x.load(st, v, d, tTrue, fv.Pos())), true
			}
		}
	}
	for _, b := range f.fn.Blocks {
		if !b.Dominates(h) {
			continue
		}
		for _, i := range b.Instrs {
			if a, ok := i.(*ssa.Alloc); ok && a.Comment == name {
				if v, ok := f.env[a]; ok {
					if t == nil || types.Identical(a.Type(), t) {
						return v, true
					}
					return termToVal(x.load(st, v, deref(a.Type()), tTrue, a.Pos())), true
				}
			}
			if dr, ok := i.(*ssa.DebugRef); ok && !dr.IsAddr {
				if o := dr.Object(); o != nil && o.Name() == name {
					if v, ok := f.env[dr.X]; ok {
						return v, true
					}
				}
			}
		}
	}
	return nil, false
}

// stepRange returns the range of constant differences b - p over ite leaves.
func stepRange(b, p *Term) (lo, hi int64, ok bool) {
	ok = true
	first := true
	iteLeaves(b, func(t *Term) {
		base, c := splitConst(t)
		if base != p || !c.IsInt64() {
			ok = false
			return
		}
		v := c.Int64()
		if first || v < lo {
			lo = v
		}
		if first || v > hi {
			hi = v
		}
		first = false
	})
	return
}

func quantify(ph *Term, mkBody func(*Term) *Term) *Term {
	return mkNot(quantifyEx(ph, func(v *Term) *Term { return mkNot(mkBody(v)) }))
}

// quantifyEx closes over the placeholder constant ph.
func quantifyEx(ph *Term, mkBody func(*Term) *Term) *Term {
	body := mkBody(ph)
	if ph.sort == SInt {
		body = rebase(ph, body)
	}
	bv := mkBV(body.qd+1, ph.sort)
	b := subst(body, map[*Term]*Term{ph: bv})
	if !b.bvars {
		return b
	}
	return mkExists([]*Term{bv}, b)
}

// rebase shifts the quantified integer so that array accesses in the body use
// it as their index directly: exists q. P(a[o+q]) becomes exists q'. P'(a[q'])
// with q' = o+q. The solver can then match the accesses.
func rebase(ph, body *Term) *Term {
	var rest *Term
	zero := false
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || rest != nil || zero {
			return
		}
		seen[t] = true
		if t.op == "select" && t.args[1].sort == SInt || t.op == "str.byte" {
			i := t.args[1]
			if i == ph {
				zero = true
				return
			}
			if i.op == "+" {
				r := mkSub(i, ph)
				if !r.bvars && !occurs(ph, r) {
					rest = r
					return
				}
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(body)
	if zero || rest == nil {
		return body
	}
	return subst(body, map[*Term]*Term{ph: mkSub(ph, rest)})
}

func occurs(x, t *Term) bool {
	out := map[*Term]bool{}
	collect(t, func(y *Term) bool { return y == x }, out, map[*Term]bool{})
	return len(out) > 0
}
