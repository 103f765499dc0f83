package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// fnName is the name of a function with generic instances mapped to their
// origin.
func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return fn.String()
}

func fnPkg(fn *ssa.Function) *types.Package {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg
	}
	if fn.Parent() != nil {
		return fnPkg(fn.Parent())
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg
	}
	if fn.Object() != nil {
		return fn.Object().Pkg()
	}
	return nil
}

func fnPkgPath(fn *ssa.Function) string {
	if p := fnPkg(fn); p != nil {
		return p.Path()
	}
	return ""
}

type callCtx struct {
	x     *Exec
	f     *Frame
	fn    *ssa.Function // nil for interface methods and unknown functions
	name  string
	sig   *types.Signature
	recvT types.Type // receiver type for methods
	args  []Val
	st    *State
	reach *Term
	pos   token.Pos
	label string
}

func (c *callCtx) t(i int) *Term { return valToTerm(c.args[i]) }

// argType returns the static type of argument i (receiver included).
func (c *callCtx) argType(i int) types.Type {
	if c.recvT != nil {
		if i == 0 {
			return c.recvT
		}
		i--
	}
	if i < c.sig.Params().Len() {
		return c.sig.Params().At(i).Type()
	}
	return nil
}

func (x *Exec) callValue(f *Frame, c *ssa.CallCommon, fnv Val, args []Val, st *State, reach *Term, pos token.Pos, instr ssa.Instruction) ([]Val, *State, *Term) {
	if reach == tFalse {
		return zeroResults(c.Signature()), st, reach
	}
	if c.IsInvoke() {
		return x.invoke(f, c.Method, c.Value.Type(), valToTerm(fnv), args, st, reach, pos)
	}
	if b, ok := fnv.(*ssa.Builtin); ok {
		return x.builtin(f, b, c, args, st, reach, pos)
	}
	if s := c.StaticCallee(); s != nil {
		if fv, ok := fnv.(*FuncV); ok {
			return x.callFunc(f, fv, args, st, reach, pos, "")
		}
	}
	return x.callDyn(f, fnv, c.Value, c.Signature(), args, st, reach, pos)
}

func zeroResults(sig *types.Signature) []Val {
	res := make([]Val, sig.Results().Len())
	for i := range res {
		res[i] = zeroOf(sig.Results().At(i).Type())
	}
	return res
}

// callDyn calls a function value.
func (x *Exec) callDyn(f *Frame, fnv Val, src ssa.Value, sig *types.Signature, args []Val, st *State, reach *Term, pos token.Pos) ([]Val, *State, *Term) {
	if t, ok := fnv.(*Term); ok {
		fnv = termToVal(t)
	}
	switch v := fnv.(type) {
	case *FuncV:
		return x.callFunc(f, v, args, st, reach, pos, "")
	case *AddrIte:
		return x.splitCall(v.cond, reach, st, func(s *State, r *Term) ([]Val, *State, *Term) {
			return x.callDyn(f, v.a, src, sig, args, s, r, pos)
		}, func(s *State, r *Term) ([]Val, *State, *Term) {
			return x.callDyn(f, v.b, src, sig, args, s, r, pos)
		})
	case *Term:
		if v.op == "int" && v.num.Sign() == 0 {
			x.panicOb(reach, tFalse, pos, "call of nil function")
			return zeroResults(sig), st, tFalse
		}
		if v.op == "ite" && hasFnLit(v) {
			return x.splitCall(v.args[0], reach, st, func(s *State, r *Term) ([]Val, *State, *Term) {
				return x.callDyn(f, v.args[1], src, sig, args, s, r, pos)
			}, func(s *State, r *Term) ([]Val, *State, *Term) {
				return x.callDyn(f, v.args[2], src, sig, args, s, r, pos)
			})
		}
		if mkEq(v, mkInt(0)) != tFalse && x.spec == 0 {
			x.nonNil(reach, v, pos, "function value")
		}
		name := "func value"
		if src != nil {
			name = funcValueName(src)
		}
		cc := &callCtx{x: x, f: f, name: name, sig: sig, args: args, st: st, reach: reach, pos: pos}
		return x.external(cc, name)
	}
	x.fail(pos, "call of %T", fnv)
	return nil, nil, nil
}

func hasFnLit(t *Term) bool {
	switch t.op {
	case "fnlit":
		return true
	case "int":
		return t.num.Sign() == 0
	case "ite":
		return hasFnLit(t.args[1]) || hasFnLit(t.args[2])
	}
	return false
}

// funcValueName names the source of a function value: "field:pkg.Type.name".
func funcValueName(v ssa.Value) string {
	if u, ok := v.(*ssa.UnOp); ok {
		switch a := u.X.(type) {
		case *ssa.FieldAddr:
			st := deref(a.X.Type())
			return "field:" + typeKey(st) + "." + st.Underlying().(*types.Struct).Field(a.Field).Name()
		case *ssa.Global:
			return "global:" + a.Pkg.Pkg.Path() + "." + a.Name()
		}
	}
	if e, ok := v.(*ssa.Field); ok {
		return "field:" + typeKey(e.X.Type()) + "." + e.X.Type().Underlying().(*types.Struct).Field(e.Field).Name()
	}
	if p, ok := v.(*ssa.Parameter); ok {
		return "param:" + p.Parent().String() + "." + p.Name()
	}
	return "func:" + typeKey(v.Type())
}

func (x *Exec) splitCall(cond, reach *Term, st *State, a, b func(*State, *Term) ([]Val, *State, *Term)) ([]Val, *State, *Term) {
	r1, r2 := mkAnd(reach, cond), mkAnd(reach, mkNot(cond))
	if r1 == tFalse {
		return b(st, reach)
	}
	if r2 == tFalse {
		return a(st, reach)
	}
	v1, s1, n1 := a(st.clone(), r1)
	v2, s2, n2 := b(st, r2)
	if n1 == tFalse {
		return v2, s2, n2
	}
	if n2 == tFalse {
		return v1, s1, n1
	}
	conds := []*Term{cond, mkNot(cond)}
	res := make([]Val, len(v1))
	for i := range res {
		res[i] = mergeVals(conds, []Val{v1[i], v2[i]})
	}
	return res, mergeStates(conds, []*State{s1, s2}), mkOr(n1, n2)
}

func hasBox(t *Term) bool {
	switch t.op {
	case "uf":
		return strings.HasPrefix(t.name, "box.")
	case "const":
		return isNilAny(t)
	case "ite":
		return hasBox(t.args[1]) || hasBox(t.args[2])
	}
	return false
}

func (x *Exec) invoke(f *Frame, m *types.Func, it types.Type, recv *Term, args []Val, st *State, reach *Term, pos token.Pos) ([]Val, *State, *Term) {
	sig := m.Type().(*types.Signature)
	if isNilAny(recv) {
		x.panicOb(reach, tFalse, pos, "method call on nil interface: "+m.Name())
		return zeroResults(sig), st, tFalse
	}
	if recv.op == "ite" && hasBox(recv) {
		return x.splitCall(recv.args[0], reach, st, func(s *State, r *Term) ([]Val, *State, *Term) {
			return x.invoke(f, m, it, recv.args[1], args, s, r, pos)
		}, func(s *State, r *Term) ([]Val, *State, *Term) {
			return x.invoke(f, m, it, recv.args[2], args, s, r, pos)
		})
	}
	if recv.op == "uf" && strings.HasPrefix(recv.name, "box.") {
		t := boxTypes[recv.name]
		if t != nil {
			if fn := x.w.lookupMethod(t, m); fn != nil {
				return x.callFunc(f, &FuncV{fn: fn}, append([]Val{termToVal(recv.args[0])}, args...), st, reach, pos, m.FullName())
			}
		}
	}
	if x.spec == 0 {
		c := mkNot(mkEq(recv, nilAnyT))
		if c != tTrue {
			x.panicOb(reach, c, pos, "method call on nil interface: "+m.Name())
			x.fact(mkImp(reach, c))
		}
	}
	cc := &callCtx{x: x, f: f, name: m.FullName(), sig: sig, recvT: it, args: append([]Val{recv}, args...), st: st, reach: reach, pos: pos}
	// a model or purity declaration may name the method, or any static interface
	// type that the receiver is known to have had
	key := m.FullName()
	for _, t := range append([]types.Type{it}, x.static[recv]...) {
		if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
			k := "(" + n.Obj().Pkg().Path() + "." + n.Obj().Name() + ")." + m.Name()
			if x.w.model(x, k) != nil || x.w.isPure(k) {
				key = k
				break
			}
		}
	}
	return x.external(cc, key)
}

func (w *World) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	ms := w.prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return w.prog.MethodValue(sel)
}

// callFunc calls a known function, with the ghost code attached to it.
func (x *Exec) callFunc(f *Frame, fv *FuncV, args []Val, st *State, reach *Term, pos token.Pos, iface string) ([]Val, *State, *Term) {
	if x.spec > 0 || len(x.modelPos) > 0 {
		return x.callFunc1(f, fv, args, st, reach, pos, iface)
	}
	name := fnName(fv.fn)
	if m := x.w.model(x, "//verif:before "+name); m != nil {
		_, st, reach = x.runModel(m, args, st, reach, pos)
	}
	res, ns, nr := x.callFunc1(f, fv, args, st, reach, pos, iface)
	if m := x.w.model(x, "//verif:after "+name); m != nil && nr != tFalse {
		as := append(append([]Val{}, args...), res...)
		_, ns, nr = x.runModel(m, as, ns, nr, pos)
	}
	return res, ns, nr
}

func (x *Exec) callFunc1(f *Frame, fv *FuncV, args []Val, st *State, reach *Term, pos token.Pos, iface string) ([]Val, *State, *Term) {
	fn := fv.fn
	name := fnName(fn)
	cc := &callCtx{x: x, f: f, fn: fn, name: name, sig: fn.Signature, args: args, st: st, reach: reach, pos: pos}
	if r := fn.Signature.Recv(); r != nil {
		cc.recvT = r.Type()
	}
	if x.w.isSpecPkgFunc(fn) && isIntrinsic(fn.Name()) {
		return x.intrinsic(cc)
	}
	if x.w.opaque[fn] && !x.inStack(fn) {
		return x.opaqueCall(cc)
	}
	if x.spec == 0 {
		x.w.logCall(x, name)
	}
	if fn.Synthetic != "" && fn.Parent() == nil && len(fn.Blocks) > 0 && fn.Origin() == nil {
		// wrappers, thunks and bound methods
		return x.inline(cc, fv)
	}
	if m := x.w.model(x, name); m != nil && !x.inStack(m) {
		return x.runModel(m, args, st, reach, pos)
	}
	if ct := x.w.contracts[name]; ct != nil && x.spec == 0 && !ct.inlineOnly && fn.Parent() == nil {
		if res, ns, nr, ok := x.applyContract(cc, ct); ok {
			return res, ns, nr
		}
	}
	if ct := x.w.auto[fn]; ct != nil && x.spec == 0 && fn.Parent() == nil && !(knownDyn(args) && x.stackCount(fn) == 0) {
		if res, ns, nr, ok := x.applyContract(cc, ct); ok {
			return res, ns, nr
		}
	}
	if n := natives[name]; n != nil {
		if res, ok := n(cc); ok {
			return res, cc.st, cc.reach
		}
	}
	if len(fn.Blocks) > 0 && (x.w.inRepo(fn) || x.w.inlineStd(name, fn) || fn.Parent() != nil) {
		if n := x.stackCount(fn); n > 0 && fn.Parent() == nil || len(x.stack) > 60 {
			known := knownDyn(args)
			if os.Getenv("GOVC_REC") != "" && !known {
				fmt.Fprintf(os.Stderr, "recursion %s at %s: %v spec=%d\n", name, x.w.fset.Position(pos), args, x.spec)
				for _, s := range x.stack {
					fmt.Fprintf(os.Stderr, "   %s\n", s)
				}
			}
			if !known || n > 4 || len(x.stack) > 60 {
				if len(fv.bind) == 0 {
					if res, ns, nr, ok := x.applyContract(cc, x.w.autoContract(fn)); ok {
						return res, ns, nr
					}
				}
				x.warn["recursive call of "+name+" treated as unknown"] = true
				return x.unknownCall(cc)
			}
		}
		return x.inline(cc, fv)
	}
	if iface != "" && x.w.model(x, iface) != nil {
		return x.runModel(x.w.model(x, iface), args2iface(cc), st, reach, pos)
	}
	return x.external(cc, name)
}

// args2iface boxes the receiver for an interface method model.
func args2iface(c *callCtx) []Val {
	r := append([]Val{}, c.args...)
	if c.recvT != nil {
		r[0] = box(valToTerm(c.args[0]), c.recvT)
	}
	return r
}

// knownDyn: the dynamic types of the interface arguments are known.
func knownDyn(args []Val) bool {
	known := false
	for _, a := range args {
		if t, ok := a.(*Term); ok && t.sort == SAny {
			known = true
			iteLeaves(t, func(l *Term) { known = known && hasBox(l) })
		}
	}
	return known
}

func (x *Exec) stackCount(fn *ssa.Function) int {
	n := 0
	for _, s := range x.stack {
		if s == fn {
			n++
		}
	}
	return n
}

func (x *Exec) inStack(fn *ssa.Function) bool {
	for _, s := range x.stack {
		if s == fn {
			return true
		}
	}
	return false
}

func (x *Exec) inline(c *callCtx, fv *FuncV) (res []Val, ns *State, nr *Term) {
	if x.spec == 0 {
		x.inlined[c.name] = true
	}
	st0 := c.st.clone()
	nst := len(x.stack)
	nobl := len(x.obls)
	nlogs := len(x.logs)
	dry, spec := x.dry, x.spec
	pfx, known := x.prefix, x.known
	defer func() {
		if r := recover(); r != nil {
			u, ok := r.(unsupported)
			if !ok || x.spec > 0 || x.strict {
				panic(r)
			}
			x.stack = x.stack[:nst]
			x.obls = x.obls[:nobl]
			x.logs = x.logs[:nlogs]
			x.dry, x.spec = dry, spec
			x.prefix, x.known = pfx, known
			x.warn["outside the subset, treated as unknown code: "+c.name+": "+u.msg] = true
			c.st = st0
			res, ns, nr = x.unknownCall(c)
		}
	}()
	sp := x.panicLabel
	if !x.w.inRepo(fv.fn) {
		x.panicLabel = ""
	}
	res, ns, nr = x.runFunc(fv.fn, c.args, fv.bind, c.st, c.reach)
	x.panicLabel = sp
	return res, ns, nr
}

// unknownCall havocs everything.
func (x *Exec) unknownCall(c *callCtx) ([]Val, *State, *Term) {
	db.fresh++
	for _, l := range x.logs {
		l.all = true
	}
	db.alloc++
	st := x.w.carryHeld(c.st, newState(fmt.Sprintf("U%d", db.fresh)))
	return x.freshResults(c, ""), st, c.reach
}

func (x *Exec) freshResults(c *callCtx, hint string) []Val {
	n := c.sig.Results().Len()
	res := make([]Val, n)
	var errT *Term
	if hint == "" {
		hint = c.name
		if i := strings.LastIndexAny(hint, "/"); i >= 0 {
			hint = hint[i+1:]
		}
	}
	for i := 0; i < n; i++ {
		t := c.sig.Results().At(i).Type()
		v := withBound(freshConst("r."+hint, sortOf(t)))
		x.resultFacts(v, t)
		res[i] = v
		if i == n-1 && i > 0 && isErrorType(t) {
			errT = v
		}
	}
	if errT != nil && x.spec == 0 {
		for i := 0; i < n-1; i++ {
			switch c.sig.Results().At(i).Type().Underlying().(type) {
			case *types.Pointer:
				x.fact(mkImp(mkEq(errT, nilAnyT), mkNot(mkEq(res[i].(*Term), mkInt(0)))))
				x.assume["library functions returning (*T, error) return a non-nil pointer when the error is nil"] = true
			case *types.Interface:
				x.fact(mkImp(mkEq(errT, nilAnyT), mkNot(mkEq(res[i].(*Term), nilAnyT))))
			}
		}
	}
	return res
}

func isErrorType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() == nil && n.Obj().Name() == "error"
}

// resultFacts adds type facts for a fresh value, including those of directly
// nested struct fields.
func (x *Exec) resultFacts(v *Term, t types.Type) {
	x.typeFacts(v, t, tTrue)
	if s := structOf(t); s != nil {
		n := structDT(types.Unalias(t), s)
		for i := 0; i < s.NumFields(); i++ {
			x.typeFacts(mkSel(n, i, v), s.Field(i).Type(), tTrue)
		}
	}
}

// external handles a call of a function without verified body.
func (x *Exec) external(c *callCtx, key string) ([]Val, *State, *Term) {
	if c.fn == nil {
		if m := x.w.model(x, key); m != nil && !x.inStack(m) {
			return x.runModel(m, c.args, c.st, c.reach, c.pos)
		}
		if n := natives[key]; n != nil {
			if res, ok := n(c); ok {
				return res, c.st, c.reach
			}
		}
	}
	if x.w.isPure(key) {
		return x.pureCall(c, key), c.st, c.reach
	}
	if !x.w.noEffect(key) {
		x.assume["effects of "+key+" limited to objects passed to it directly; result arbitrary"] = true
		x.havocArgs(c)
	} else {
		x.assume["no modelled side effect: "+key+"; result arbitrary"] = true
		x.runCallbacks(c)
	}
	return x.freshResults(c, ""), c.st, c.reach
}

// runCallbacks executes closures passed to external code with arbitrary
// arguments; their writes are havocked.
func (x *Exec) runCallbacks(c *callCtx) {
	if x.spec > 0 {
		return
	}
	for _, a := range c.args {
		v := a
		if t, ok := v.(*Term); ok {
			v = termToVal(t)
			if t.op == "uf" && strings.HasPrefix(t.name, "box.") {
				v = termToVal(t.args[0])
			}
		}
		if fv, ok := v.(*FuncV); ok {
			if x.w.inRepo(fv.fn) && !x.inStack(fv.fn) {
				x.detached(c, fv)
			}
		}
	}
}

// detached runs a closure as code executed at some unknown time from here on.
func (x *Exec) detached(c *callCtx, fv *FuncV) {
	var args []Val
	for _, p := range fv.fn.Params {
		v := withBound(freshConst("cb."+p.Name(), sortOf(p.Type())))
		x.resultFacts(v, p.Type())
		args = append(args, v)
	}
	n0 := db.alloc
	mark := db.n
	lg := newWriteLog()
	x.logs = append(x.logs, lg)
	run := fresh("cbruns")
	x.callFunc(c.f, fv, args, c.st.clone(), mkAnd(c.reach, run), c.pos, "")
	x.logs = x.logs[:len(x.logs)-1]
	nl := lg.normalise(n0, mark, nil)
	c.st = x.havocLog(c.st, nl, n0, "cb")
	if nl.all {
		db.fresh++
		c.st = x.w.carryHeld(c.st, newState(fmt.Sprintf("U%d", db.fresh)))
	}
}

func fresh(h string) *Term { return freshConst(h, SBool) }

func (x *Exec) havocArgs(c *callCtx) {
	if x.spec > 0 {
		return
	}
	x.runCallbacks(c)
	for i, a := range c.args {
		t := c.argType(i)
		if t == nil {
			continue
		}
		if c.sig.Variadic() && i == len(c.args)-1 {
			// expand the variadic slice
			et := t.Underlying().(*types.Slice)
			sl := valToTerm(a)
			if n := slLen(sl); n.op == "int" && n.num.Int64() < 20 {
				for k := int64(0); k < n.num.Int64(); k++ {
					x.havocPointee(c, x.elemAt(c.st, et.Elem(), sl, mkInt(k)), et.Elem())
				}
				continue
			}
		}
		x.havocPointee(c, a, t)
	}
}

func (x *Exec) havocPointee(c *callCtx, a Val, t types.Type) {
	switch v := a.(type) {
	case *Term:
		if w := termToVal(v); w != Val(v) {
			if _, ok := w.(*FuncV); ok {
				return
			}
			x.havocPointee(c, w, t)
			return
		}
		if v.sort == SAny {
			if v.op == "uf" && strings.HasPrefix(v.name, "box.") {
				if bt := boxTypes[v.name]; bt != nil {
					x.havocPointee(c, v.args[0], bt)
				}
			}
			return
		}
	case *Addr:
		if d := deref(t); d != nil {
			nv := withBound(freshConst("h.arg", sortOf(d)))
			x.resultFacts(nv, d)
			x.store(c.st, v, d, nv, c.reach, c.pos)
		}
		return
	case *AddrIte:
		return
	default:
		return
	}
	v := a.(*Term)
	if v.op == "int" {
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		d := u.Elem()
		nv := withBound(freshConst("h.arg", sortOf(d)))
		x.resultFacts(nv, d)
		x.initObjWith(c.st, v, d, nv)
	case *types.Slice:
		if v.sort == SSlice && isByteSlice(t) {
			comp := regComp(elemComp(u.Elem()), arrSort(SInt, arrSort(SInt, sortOf(u.Elem()))))
			b := slBase(v)
			old := mkSelect(c.st.get(comp), b)
			nw := freshConst("h.buf", old.sort)
			x.write(c.st, comp, b, nw)
			// bytes outside the passed window are unchanged
			i := freshConst("q", SInt)
			q := quantify(i, func(*Term) *Term {
				return mkImp(mkOr(mkLt(i, slOff(v)), mkLe(mkAdd(slOff(v), slLen(v)), i)), mkEq(mkSelect(nw, i), mkSelect(old, i)))
			})
			x.fact(q)
			x.byteRange(nw)
		}
	}
}

// byteRange states that an array holds bytes.
func (x *Exec) byteRange(arr *Term) {
	i := freshConst("q", SInt)
	x.fact(quantify(i, func(*Term) *Term {
		return mkAnd(mkLe(mkInt(0), mkSelect(arr, i)), mkLe(mkSelect(arr, i), mkInt(255)))
	}))
}

// pureArg encodes an argument of a pure external function.
func (x *Exec) pureArg(st *State, v Val, t types.Type) []*Term {
	tm := valToTerm(v)
	switch u := t.Underlying().(type) {
	case *types.Slice:
		if isByteSlice(t) {
			return []*Term{x.bytesToStr(st, tm)}
		}
		return []*Term{x.elems(st, u.Elem(), slBase(tm)), slOff(tm), slLen(tm)}
	}
	return []*Term{tm}
}

func (x *Exec) pureArgs(c *callCtx) []*Term {
	var ts []*Term
	for i := range c.args {
		t := c.argType(i)
		if t == nil {
			ts = append(ts, c.t(i))
			continue
		}
		if c.sig.Variadic() && i == len(c.args)-1 {
			sl := c.t(i)
			et := t.Underlying().(*types.Slice).Elem()
			if n := slLen(sl); n.op == "int" && n.num.Int64() < 20 && !isByteSlice(t) {
				for k := int64(0); k < n.num.Int64(); k++ {
					ts = append(ts, x.elemAt(c.st, et, sl, mkInt(k)))
				}
				continue
			}
		}
		ts = append(ts, x.pureArg(c.st, c.args[i], t)...)
	}
	return ts
}

func pureName(key string, ts []*Term) string {
	n := "fn." + sanitize(key)
	for _, t := range ts {
		switch t.sort {
		case SStr:
			n += ".s"
		case SInt:
			n += ".i"
		case SBool:
			n += ".b"
		case SAny:
			n += ".a"
		default:
			n += "." + sanitize(string(t.sort))
		}
	}
	return n
}

func (x *Exec) pureCall(c *callCtx, key string) []Val {
	ts := x.pureArgs(c)
	x.assume["deterministic function of its arguments: "+key] = true
	n := c.sig.Results().Len()
	res := make([]Val, n)
	for i := 0; i < n; i++ {
		rt := c.sig.Results().At(i).Type()
		nm := pureName(key, ts)
		if n > 1 {
			nm += fmt.Sprintf(".r%d", i)
		}
		res[i] = x.pureResult(c.st, nm, ts, rt)
	}
	return res
}

func (x *Exec) pureResult(st *State, nm string, ts []*Term, rt types.Type) Val {
	if isByteSlice(rt) {
		s := mkUF(nm+".str", SStr, ts...)
		n := mkStrOp("str.len", SInt, s)
		b := x.strToBytes(st, s)
		isnil := mkUF(nm+".nil", SBool, ts...)
		x.axiom(mkImp(isnil, mkEq(n, mkInt(0))))
		return mkIte(isnil, zeroOf(rt), b)
	}
	r := mkUF(nm, sortOf(rt), ts...)
	if r.sort == SSlice || r.op == "uf" && (r.sort == SInt && !isIntType(rt)) {
		r.bound = 0
	}
	x.resultFacts(r, rt)
	return r
}

func isIntType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (x *Exec) goStmt(f *Frame, c *ssa.CallCommon, fnv Val, args []Val, st *State, reach *Term, pos token.Pos) {
	x.assume["a goroutine's effects are taken to happen at some time after it is started; its body is checked from the state at its start"] = true
	n0 := db.alloc
	mark := db.n
	lg := newWriteLog()
	x.logs = append(x.logs, lg)
	x.callValue(f, c, fnv, args, x.w.dropHeld(st.clone()), reach, pos, nil)
	x.logs = x.logs[:len(x.logs)-1]
	nl := lg.normalise(n0, mark, nil)
	ns := x.havocLog(st, nl, n0, "go")
	if nl.all {
		db.fresh++
		ns = x.w.carryHeld(st, newState(fmt.Sprintf("U%d", db.fresh)))
	}
	*st = *ns
}

// ---- models

func (x *Exec) runModel(m *ssa.Function, args []Val, st *State, reach *Term, pos token.Pos) ([]Val, *State, *Term) {
	x.w.useModel(x, m)
	if len(args) < len(m.Params) {
		x.fail(pos, "model %s takes %d values, the call passes %d", m.Name(), len(m.Params), len(args))
	}
	for i, p := range m.Params {
		if t, ok := args[i].(*Term); ok && t.sort != sortOf(p.Type()) {
			x.fail(pos, "model %s: parameter %s does not have the type of the call", m.Name(), p.Name())
		}
	}
	sp := x.panicLabel
	x.panicLabel = ""
	x.modelPos = append(x.modelPos, pos)
	res, ns, nr := x.runFunc(m, args, nil, st, reach)
	x.modelPos = x.modelPos[:len(x.modelPos)-1]
	x.panicLabel = sp
	return res, ns, nr
}

// ---- spec

// evalSpec evaluates a boolean spec function.
func (x *Exec) evalSpec(fn *ssa.Function, args, binds []Val, st *State) *Term {
	x.spec++
	defer func() { x.spec-- }()
	res, _, _ := x.runFunc(fn, args, binds, st.clone(), tTrue)
	return valToTerm(res[0])
}

// specPre runs a contract function: it returns its requires clauses, the post
// closure and the writes to spec-local variables.
func (x *Exec) specPre(ct *Contract, args []Val, st *State) (*specCtx, *FuncV, *State, *WriteLog) {
	save := x.sctx
	sc := &specCtx{}
	x.sctx = sc
	x.spec++
	lg := newWriteLog()
	logs := x.logs
	x.logs = []*WriteLog{lg}
	s1 := st.clone()
	res, s2, _ := x.runFunc(ct.spec, args, nil, s1, tTrue)
	x.logs = logs
	x.spec--
	x.sctx = save
	var post *FuncV
	if len(res) == 1 {
		v := res[0]
		if t, ok := v.(*Term); ok {
			v = termToVal(t)
		}
		post, _ = v.(*FuncV)
	}
	return sc, post, s2, lg
}

// restore copies spec-local cells into st.
func restore(st, from *State, lg *WriteLog) *State {
	r := st.clone()
	var comps []string
	for c := range lg.m {
		comps = append(comps, c)
	}
	sort.Strings(comps)
	for _, c := range comps {
		var refs []*Term
		for ref := range lg.m[c].refs {
			refs = append(refs, ref)
		}
		sortTerms(refs)
		for _, ref := range refs {
			r.set(c, mkStore(r.get(c), ref, mkSelect(from.get(c), ref)))
		}
	}
	return r
}

func (x *Exec) specPost(ct *Contract, post *FuncV, res []Val, st *State) *specCtx {
	sc := &specCtx{}
	if post == nil {
		return sc
	}
	save := x.sctx
	x.sctx = sc
	x.spec++
	x.runFunc(post.fn, res, post.bind, st.clone(), tTrue)
	x.spec--
	x.sctx = save
	return sc
}

func (x *Exec) applyContract(c *callCtx, ct *Contract) ([]Val, *State, *Term, bool) {
	for _, a := range c.args {
		if t, ok := a.(*Term); ok {
			a = termToVal(t)
		}
		switch a.(type) {
		case *Addr, *AddrIte:
			return nil, nil, nil, false // interior pointers: inline
		}
	}
	if x.inStack(ct.fn) && len(x.stack) > 0 && x.stack[0] != ct.fn {
		// recursion through an inlined body: the contract is used
	}
	sum := x.w.summary(ct)
	if sum == nil {
		return nil, nil, nil, false
	}
	if ct.spec != nil {
		x.used[ct.name] = true
	}
	var sc *specCtx
	var post *FuncV
	var s2 *State
	var lg *WriteLog
	if ct.spec != nil {
		sc, post, s2, lg = x.specPre(ct, c.args, c.st)
	} else {
		sc = &specCtx{}
	}
	for _, r := range sc.requiresL {
		x.oblige(r.label, "precondition of "+ct.name, c.pos, c.reach, r.cond)
		x.fact(mkImp(c.reach, r.cond))
	}
	n0 := db.alloc
	db.alloc++
	// frame
	m := map[*Term]*Term{}
	for i, p := range sum.params {
		if i < len(c.args) {
			m[p] = valToTerm(c.args[i])
		}
	}
	pre := "H" + sum.epoch + "."
	tl := newWriteLog()
	tl.all = sum.log.all
	var comps []string
	for comp := range sum.log.m {
		comps = append(comps, comp)
	}
	sort.Strings(comps)
	for _, comp := range comps {
		e := sum.log.m[comp]
		ne := tl.entry(comp)
		ne.whole, ne.fresh = e.whole, e.fresh
		for ref := range e.refs {
			hs := map[*Term]bool{}
			collect(ref, func(y *Term) bool { return y.op == "const" && strings.HasPrefix(y.name, pre) }, hs, map[*Term]bool{})
			mm := map[*Term]*Term{}
			for k, v := range m {
				mm[k] = v
			}
			for h := range hs {
				mm[h] = c.st.get(h.name[len(pre):])
			}
			iteLeaves(subst(ref, mm), func(r *Term) { ne.refs[r] = true })
		}
	}
	var ns *State
	if tl.all {
		db.fresh++
		ns = x.w.carryHeld(c.st, newState(fmt.Sprintf("U%d", db.fresh)))
	} else {
		ns = x.havocLog(c.st, tl, n0, "call")
	}
	for _, l := range x.logs {
		l.all = l.all || tl.all
		for _, comp := range comps {
			e := tl.m[comp]
			le := l.entry(comp)
			le.whole = le.whole || e.whole
			le.fresh = le.fresh || e.fresh
			for r := range e.refs {
				le.refs[r] = true
			}
		}
	}
	x.w.setNow(x, ns, c.st)
	n := c.sig.Results().Len()
	res := make([]Val, n)
	for i := range res {
		t := c.sig.Results().At(i).Type()
		v := withBound(freshConst("r."+ct.short, sortOf(t)))
		x.resultFacts(v, t)
		res[i] = v
	}
	if ct.spec == nil {
		return res, ns, c.reach, true
	}
	p := x.specPost(ct, post, res, restore(ns, s2, lg))
	for _, e := range p.ensures {
		x.fact(mkImp(c.reach, e.cond))
	}
	return res, ns, c.reach, true
}

// ---- intrinsics

func (x *Exec) specClosure(v Val) *FuncV {
	if t, ok := v.(*Term); ok {
		if t.op == "uf" && strings.HasPrefix(t.name, "box.") {
			t = t.args[0]
		}
		v = termToVal(t)
	}
	fv, ok := v.(*FuncV)
	if !ok {
		panic(unsupported{"spec closure is not a literal"})
	}
	return fv
}

// opaqueCall evaluates a specification predicate as an uninterpreted function
// of its arguments and of the state it reads, and states its definition as a
// fact. Uses in states that agree are then equal by congruence.
func (x *Exec) opaqueCall(c *callCtx) ([]Val, *State, *Term) {
	save, saveFrom := readTrack, readFrom
	readTrack, readFrom = map[string]bool{}, db.alloc
	x.spec++
	res, _, _ := x.runFunc(c.fn, c.args, nil, c.st.clone(), tTrue)
	x.spec--
	var comps []string
	for k := range readTrack {
		comps = append(comps, k)
		if save != nil {
			save[k] = true
		}
	}
	readTrack = nil
	sort.Strings(comps)
	var ts []*Term
	for i := range c.args {
		ts = append(ts, c.t(i))
	}
	nm := "opaque." + c.fn.Name()
	for _, k := range comps {
		t := c.st.get(k)
		ts = append(ts, t)
		nm += "." + sanitize(shortComp(k))
	}
	readTrack, readFrom = save, saveFrom
	r := mkUF(nm, sortOf(c.sig.Results().At(0).Type()), ts...)
	x.axiom(mkEq(r, valToTerm(res[0])))
	return []Val{r}, c.st, c.reach
}

func (x *Exec) evalClosure(fv *FuncV, args []Val, st *State) *Term {
	x.spec++
	defer func() { x.spec-- }()
	res, _, _ := x.runFunc(fv.fn, args, fv.bind, st.clone(), tTrue)
	return valToTerm(res[0])
}

var intrinsics = map[string]bool{"v_requires": true, "v_requires_l": true, "v_ensures": true, "v_assert": true, "v_assume": true,
	"v_forall": true, "v_exists": true, "v_all": true, "v_some": true, "v_havoc": true, "v_pure": true, "v_dynis": true,
	"v_unreachable": true, "v_now": true, "v_err": true, "v_new": true, "v_reach": true,
	"v_base": true, "v_off": true, "v_chanClosed": true, "v_ranged": true, "v_tag": true}

func isIntrinsic(name string) bool {
	if i := strings.IndexByte(name, '['); i >= 0 {
		name = name[:i]
	}
	return intrinsics[name]
}

func (x *Exec) intrinsic(c *callCtx) ([]Val, *State, *Term) {
	name := c.fn.Name()
	if i := strings.IndexByte(name, '['); i >= 0 {
		name = name[:i]
	}
	ret := func(v ...Val) ([]Val, *State, *Term) { return v, c.st, c.reach }
	lit := func(i int) string {
		t := c.t(i)
		if t.op != "str" {
			x.fail(c.pos, "%s: label must be constant", name)
		}
		return t.name
	}
	switch name {
	case "v_requires":
		if x.sctx != nil {
			x.sctx.requires = append(x.sctx.requires, mkImp(c.reach, c.t(0)))
			x.sctx.requiresL = append(x.sctx.requiresL, ens{"", mkImp(c.reach, c.t(0)), ""})
		}
		return ret()
	case "v_requires_l":
		if x.sctx != nil {
			x.sctx.requires = append(x.sctx.requires, mkImp(c.reach, c.t(1)))
			x.sctx.requiresL = append(x.sctx.requiresL, ens{lit(0), mkImp(c.reach, c.t(1)), ""})
		}
		return ret()
	case "v_ensures":
		if x.sctx != nil {
			x.sctx.ensures = append(x.sctx.ensures, ens{lit(0), mkImp(c.reach, c.t(1)), x.w.fset.Position(c.pos).String()})
		}
		return ret()
	case "v_assert":
		if x.spec == 0 {
			pos := c.pos
			if len(x.modelPos) > 0 {
				pos = x.modelPos[0]
			}
			x.oblige(lit(0), "assertion at "+c.f.fn.Name(), pos, c.reach, c.t(1))
			x.fact(mkImp(c.reach, c.t(1)))
		}
		return ret()
	case "v_assume":
		if x.spec > 0 && x.sctx != nil {
			x.axiom(mkImp(c.reach, c.t(0)))
			x.assume["assumed by a contract: "+x.w.fset.Position(c.pos).String()] = true
		} else {
			x.fact(mkImp(c.reach, c.t(0)))
		}
		return c.resNil(), c.st, c.reach
	case "v_forall", "v_exists":
		lo, hi := c.t(0), c.t(1)
		ph := freshConst("q", SInt)
		fv := x.specClosure(c.args[2])
		body := x.evalClosure(fv, []Val{ph}, c.st)
		rng := mkAnd(mkLe(lo, ph), mkLt(ph, hi))
		if name == "v_forall" {
			return ret(quantify(ph, func(*Term) *Term { return mkImp(rng, body) }))
		}
		return ret(quantifyEx(ph, func(*Term) *Term { return mkAnd(rng, body) }))
	case "v_all", "v_some":
		fv := x.specClosure(c.args[0])
		var phs []*Term
		var args []Val
		for _, p := range fv.fn.Params {
			ph := freshConst("q", sortOf(p.Type()))
			phs = append(phs, ph)
			args = append(args, ph)
		}
		body := x.evalClosure(fv, args, c.st)
		for i := len(phs) - 1; i >= 0; i-- {
			ph := phs[i]
			b := body
			if name == "v_all" {
				body = quantify(ph, func(*Term) *Term { return b })
			} else {
				body = quantifyEx(ph, func(*Term) *Term { return b })
			}
		}
		return ret(body)
	case "v_havoc":
		t := c.sig.Results().At(0).Type()
		v := withBound(freshConst("havoc", sortOf(t)))
		x.resultFacts(v, t)
		return ret(v)
	case "v_pure":
		sl := c.t(1)
		n := slLen(sl)
		if n.op != "int" {
			x.fail(c.pos, "v_pure arguments")
		}
		var ts []*Term
		for k := int64(0); k < n.num.Int64(); k++ {
			a := x.elemAt(c.st, c.sig.Params().At(1).Type().Underlying().(*types.Slice).Elem(), sl, mkInt(k))
			ts = append(ts, x.unboxArg(c.st, a)...)
		}
		t := c.sig.Results().At(0).Type()
		return ret(x.pureResult(c.st, pureName("spec."+lit(0), ts), ts, t))
	case "v_dynis": // dynamic type test with a type parameter
		t := c.fn.TypeArgs()[0]
		return ret(dynIs(c.t(0), t))
	case "v_unreachable":
		if x.spec == 0 {
			x.oblige(lit(0), "unreachable", c.pos, c.reach, tFalse)
		}
		return ret()
	case "v_chanClosed":
		ch := c.t(0)
		if ch.op == "uf" && strings.HasPrefix(ch.name, "box.") {
			ch = ch.args[0]
		}
		return ret(mkSelect(c.st.get(regComp("X|chanclosed", arrSort(SInt, SBool))), ch))
	case "v_ranged": // the key was visited by a range loop over a map
		var ds []*Term
		ks := sortOf(c.sig.Params().At(0).Type())
		for _, comp := range x.rangeComps(ks) {
			ds = append(ds, mkSelect(c.st.get(comp), c.t(0)))
		}
		return ret(mkOr(ds...))
	case "v_tag": // the field of the struct that obj points to, by its json name
		t := c.sig.Results().At(0).Type()
		if o := c.t(0); o.op == "uf" && strings.HasPrefix(o.name, "box.") {
			if bt := boxTypes[o.name]; bt != nil && deref(bt) != nil {
				if r := x.tagField(c.st, termToVal(o.args[0]), deref(bt), lit(1), t, c); r != nil {
					return ret(r)
				}
			}
		}
		v := withBound(freshConst("havoc", sortOf(t)))
		x.resultFacts(v, t)
		return ret(v)
	case "v_base": // the array that a slice lies in
		return ret(slBase(c.t(0)))
	case "v_off": // where it starts
		return ret(slOff(c.t(0)))
	case "v_now":
		return ret(x.w.now(c.st))
	case "v_err": // a fresh non-nil error
		return ret(x.newErr(c.st))
	case "v_new":
		return ret(newRefOf(x, c))
	case "v_reach":
		if x.spec == 0 && x.dry == 0 {
			x.reachNotes = append(x.reachNotes, reachNote{lit(0), mkAnd(x.pre(), c.reach), len(x.facts)})
		}
		return ret()
	}
	x.fail(c.pos, "unknown intrinsic %s", name)
	return nil, nil, nil
}

func newRefOf(x *Exec, c *callCtx) Val {
	t := deref(c.sig.Results().At(0).Type())
	r := newRef()
	nv := withBound(freshConst("new", sortOf(t)))
	x.resultFacts(nv, t)
	x.initObjWith(c.st, r, t, nv)
	return r
}

func (c *callCtx) resNil() []Val { return nil }

func (x *Exec) unboxArg(st *State, a *Term) []*Term {
	if a.op == "uf" && strings.HasPrefix(a.name, "box.") {
		t := boxTypes[a.name]
		return x.pureArg(st, a.args[0], t)
	}
	return []*Term{a}
}

func (x *Exec) newErr(st *State) *Term {
	e := x.w.errType()
	if e == nil {
		t := withBound(freshConst("err", SAny))
		x.axiom(mkNot(mkEq(t, nilAnyT)))
		return t
	}
	r := newRef()
	return box(r, types.NewPointer(e))
}

// rangeComps lists the sets of visited keys of the range loops seen so far.
func (x *Exec) rangeComps(ks Sort) []string {
	var r []string
	for n, s := range compSorts {
		if strings.HasPrefix(n, "X|ranged|") && s == arrSort(ks, SBool) {
			r = append(r, n)
		}
	}
	sort.Strings(r)
	return r
}

func rangeComp(i ssa.Instruction, ks Sort) string {
	fn := i.Parent()
	n := 0
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Range); ok {
				n++
				if in == i {
					return regComp(fmt.Sprintf("X|ranged|%s|%d|%s", fnName(fn), n, ks), arrSort(ks, SBool))
				}
			}
		}
	}
	return regComp("X|ranged|"+fnName(fn)+"|"+string(ks), arrSort(ks, SBool))
}

// tagField reads a field by its json name.
func (x *Exec) tagField(st *State, base Val, t types.Type, tag string, want types.Type, c *callCtx) *Term {
	u, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < u.NumFields(); i++ {
		name, _, _ := strings.Cut(reflect.StructTag(u.Tag(i)).Get("json"), ",")
		if name == "" {
			name = u.Field(i).Name()
		}
		if u.Field(i).Embedded() {
			if r := x.tagField(st, x.fieldAddr(base, t, i, c.reach, c.pos), u.Field(i).Type(), tag, want, c); r != nil {
				return r
			}
		}
		if name == tag && types.Identical(u.Field(i).Type(), want) {
			return x.load(st, x.fieldAddr(base, t, i, c.reach, c.pos), want, c.reach, c.pos)
		}
	}
	return nil
}
