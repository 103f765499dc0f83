package main

import (
	"fmt"
	"go/token"
	"go/types"
	"net/textproto"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) builtin(f *Frame, b *ssa.Builtin, c *ssa.CallCommon, args []Val, st *State, reach *Term, pos token.Pos) ([]Val, *State, *Term) {
	ret := func(v ...Val) ([]Val, *State, *Term) { return v, st, reach }
	at := func(i int) types.Type { return c.Args[i].Type() }
	switch b.Name() {
	case "len", "cap":
		switch u := at(0).Underlying().(type) {
		case *types.Basic:
			t := mkStrOp("str.len", SInt, valToTerm(args[0]))
			if !t.bvars && t.op != "int" {
				x.axiom(mkLe(mkInt(0), t))
			}
			return ret(t)
		case *types.Slice:
			s := valToTerm(args[0])
			x.sliceFacts(s)
			if b.Name() == "cap" {
				return ret(slCap(s))
			}
			return ret(slLen(s))
		case *types.Map:
			return ret(x.mapLength(st, valToTerm(args[0]), u))
		case *types.Array:
			return ret(mkInt(u.Len()))
		case *types.Pointer:
			return ret(mkInt(u.Elem().Underlying().(*types.Array).Len()))
		case *types.Chan:
			if b.Name() == "cap" {
				return ret(mkUF("go.chancap", SInt, valToTerm(args[0])))
			}
			n := freshConst("chanlen", SInt)
			x.fact(mkLe(mkInt(0), n))
			return ret(n)
		}
	case "append":
		return ret(x.appendSlice(st, valToTerm(args[0]), valToTerm(args[1]), at(0).Underlying().(*types.Slice).Elem(), at(1)))
	case "copy":
		return ret(x.copySlice(st, valToTerm(args[0]), valToTerm(args[1]), at(0).Underlying().(*types.Slice).Elem()))
	case "delete":
		x.mapDelete(st, valToTerm(args[0]), at(0).Underlying().(*types.Map), valToTerm(args[1]))
		return ret()
	case "clear":
		if mt, ok := at(0).Underlying().(*types.Map); ok {
			d, _ := x.mapArrs(mt)
			a := mkConstArray(arrSort(sortOf(mt.Key()), SBool), tFalse)
			x.write(st, d, valToTerm(args[0]), a)
			x.axiom(mkEq(mapLen(a), mkInt(0)))
			return ret()
		}
		if sl, ok := at(0).Underlying().(*types.Slice); ok {
			s := valToTerm(args[0])
			z := mkConstArray(arrSort(SInt, sortOf(sl.Elem())), zeroOf(sl.Elem()))
			o := x.elems(st, sl.Elem(), slBase(s))
			na := freshConst("cleared", o.sort)
			q := freshConst("q", SInt)
			in := mkAnd(mkLe(slOff(s), q), mkLt(q, mkAdd(slOff(s), slLen(s))))
			x.fact(quantify(q, func(*Term) *Term { return mkEq(mkSelect(na, q), mkIte(in, mkSelect(z, q), mkSelect(o, q))) }))
			x.write(st, elemComp(sl.Elem()), slBase(s), na)
			return ret()
		}
	case "close":
		ch := valToTerm(args[0])
		if m := x.w.model(x, "builtin:close"); m != nil && x.spec == 0 {
			_ = m
		}
		comp := regComp("X|chanclosed", arrSort(SInt, SBool))
		if x.spec == 0 {
			if lab := x.w.closeLabel(x); lab != "" {
				x.oblige(lab, "close of a channel that is not closed", pos, reach, mkNot(mkSelect(st.get(comp), ch)))
				x.fact(mkImp(reach, mkNot(mkSelect(st.get(comp), ch))))
			}
		}
		x.write(st, comp, ch, tTrue)
		return ret()
	case "min", "max":
		r := valToTerm(args[0])
		for _, a := range args[1:] {
			t := valToTerm(a)
			if r.sort != SInt {
				r = mkUF(b.Name()+sanitize(string(r.sort)), r.sort, r, t)
				continue
			}
			if b.Name() == "min" {
				r = mkIte(mkLe(r, t), r, t)
			} else {
				r = mkIte(mkLe(t, r), r, t)
			}
		}
		return ret(r)
	case "recover":
		x.assume["recover() returns nil: executions that panic are outside the obligations unless panic-freedom is the property"] = true
		return ret(nilAnyT)
	case "print", "println":
		return ret()
	case "ssa:wrapnilchk":
		return ret(args[0])
	}
	x.fail(pos, "builtin %s", b.Name())
	return nil, nil, nil
}

func (x *Exec) appendSlice(st *State, s, t *Term, et types.Type, tt types.Type) *Term {
	x.assume["append returns a slice with its own backing array (no aliasing through spare capacity)"] = true
	if t.sort == SStr {
		n := mkStrOp("str.len", SInt, t)
		t = mkSlice(x.strBase(st, t), mkInt(0), n, n)
	}
	n := slLen(t)
	if n.op == "int" && n.num.Sign() == 0 {
		return s
	}
	sl := slLen(s)
	old := x.elems(st, et, slBase(s))
	src := x.elems(st, et, slBase(t))
	newLen := mkAdd(sl, n)
	if t == s {
		return s
	}
	var arr *Term
	start := mkAdd(slOff(s), sl)
	if n.op == "int" && n.num.Int64() <= 16 {
		arr = old
		for k := int64(0); k < n.num.Int64(); k++ {
			arr = mkStore(arr, mkAdd(start, mkInt(k)), mkSelect(src, mkAdd(slOff(t), mkInt(k))))
		}
	} else if sl.op == "int" && sl.num.Sign() == 0 {
		// a copy of t
		arr = src
		r := newRef()
		comp := regComp(elemComp(et), arrSort(SInt, arrSort(SInt, sortOf(et))))
		x.write(st, comp, r, arr)
		c := freshConst("cap", SInt)
		x.axiom(mkLe(n, c))
		return mkIte(mkEq(n, mkInt(0)), s, mkSlice(r, slOff(t), n, c))
	} else {
		arr = freshConst("append", old.sort)
		arr.bound = db.alloc + 1
		i := freshConst("q", SInt)
		x.axiom(quantify(i, func(*Term) *Term {
			return mkImp(mkAnd(mkLe(slOff(s), i), mkLt(i, start)), mkEq(mkSelect(arr, i), mkSelect(old, i)))
		}))
		j := freshConst("q", SInt)
		x.axiom(quantify(j, func(*Term) *Term {
			return mkImp(mkAnd(mkLe(start, j), mkLt(j, mkAdd(start, n))), mkEq(mkSelect(arr, j), mkSelect(src, mkAdd(slOff(t), mkSub(j, start)))))
		}))
	}
	if b, ok := et.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
		x.axiom(mkEq(x.strOf(arr, slOff(s), newLen), mkStrOp("str.++", SStr, x.strOf(old, slOff(s), sl), x.strOf(src, slOff(t), n))))
	}
	r := newRef()
	comp := regComp(elemComp(et), arrSort(SInt, arrSort(SInt, sortOf(et))))
	x.write(st, comp, r, arr)
	c := freshConst("cap", SInt)
	x.axiom(mkLe(newLen, c))
	x.axiom(mkLe(mkInt(0), c))
	res := mkSlice(r, slOff(s), newLen, c)
	if n.op == "int" {
		return res
	}
	return mkIte(mkEq(n, mkInt(0)), s, res)
}

func (x *Exec) strBase(st *State, s *Term) *Term {
	return slBase(x.strToBytes(st, s))
}

func (x *Exec) copySlice(st *State, d, s *Term, et types.Type) *Term {
	if s.sort == SStr {
		n := mkStrOp("str.len", SInt, s)
		s = mkSlice(x.strBase(st, s), mkInt(0), n, n)
	}
	n := mkIte(mkLe(slLen(d), slLen(s)), slLen(d), slLen(s))
	old := x.elems(st, et, slBase(d))
	src := x.elems(st, et, slBase(s))
	arr := freshConst("copy", old.sort)
	arr.bound = db.alloc + 1
	i := freshConst("q", SInt)
	in := mkAnd(mkLe(slOff(d), i), mkLt(i, mkAdd(slOff(d), n)))
	x.axiom(quantify(i, func(*Term) *Term {
		return mkIte(in, mkEq(mkSelect(arr, i), mkSelect(src, mkAdd(slOff(s), mkSub(i, slOff(d))))), mkEq(mkSelect(arr, i), mkSelect(old, i)))
	}))
	if b, ok := et.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
		x.axiom(mkEq(x.strOf(arr, slOff(d), n), x.strOf(src, slOff(s), n)))
	}
	comp := regComp(elemComp(et), arrSort(SInt, arrSort(SInt, sortOf(et))))
	x.write(st, comp, slBase(d), mkIte(mkEq(n, mkInt(0)), old, arr))
	return n
}

type nativeFn func(c *callCtx) ([]Val, bool)

var natives map[string]nativeFn

func strFn(op string, s Sort, perm ...int) nativeFn {
	return func(c *callCtx) ([]Val, bool) {
		var ts []*Term
		for _, p := range perm {
			ts = append(ts, c.t(p))
		}
		return []Val{mkStrOp(op, s, ts...)}, true
	}
}

func one(v Val) ([]Val, bool) { return []Val{v}, true }

func nop(c *callCtx) ([]Val, bool) { return []Val{}, true }

func strLen(s *Term) *Term { return mkStrOp("str.len", SInt, s) }

func errorsIs(x *Exec, a, b *Term) *Term {
	if isNilAny(a) {
		return mkEq(b, nilAnyT)
	}
	if a.op == "ite" {
		return mkIte(a.args[0], errorsIs(x, a.args[1], b), errorsIs(x, a.args[2], b))
	}
	if b.op == "ite" {
		return mkIte(b.args[0], errorsIs(x, a, b.args[1]), errorsIs(x, a, b.args[2]))
	}
	if a == b {
		return tTrue
	}
	if ws, ok := x.w.wraps[a]; ok {
		cs := []*Term{mkEq(a, b)}
		for _, w := range ws {
			cs = append(cs, errorsIs(x, w, b))
		}
		return mkOr(cs...)
	}
	r := mkUF("errors.Is", SBool, a, b)
	x.axiom(mkImp(mkEq(a, b), r))
	x.axiom(mkImp(mkAnd(mkEq(a, nilAnyT), r), mkEq(b, nilAnyT)))
	return r
}

// sprintf expands the verbs that are plain concatenations.
func (c *callCtx) sprintf(fi int) *Term {
	x := c.x
	fs := c.t(fi)
	sl := c.t(fi + 1)
	n := slLen(sl)
	if fs.op != "str" || n.op != "int" {
		return mkUF(pureName("fmt.Sprintf", []*Term{fs, sl}), SStr, fs, sl)
	}
	var parts []*Term
	f := fs.name
	arg := int64(0)
	var lit strings.Builder
	flush := func() {
		if lit.Len() > 0 {
			parts = append(parts, mkStr(lit.String()))
			lit.Reset()
		}
	}
	et := c.sig.Params().At(c.sig.Params().Len() - 1).Type().Underlying().(*types.Slice).Elem()
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			lit.WriteByte(f[i])
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("+-# 0123456789.", f[j]) >= 0 {
			j++
		}
		if j >= len(f) {
			lit.WriteByte('%')
			break
		}
		if f[j] == '%' {
			lit.WriteByte('%')
			i = j
			continue
		}
		verb := f[i : j+1]
		i = j
		if arg >= n.num.Int64() {
			flush()
			parts = append(parts, mkStr("%!missing"))
			continue
		}
		a := x.elemAt(c.st, et, sl, mkInt(arg))
		arg++
		flush()
		parts = append(parts, x.fmtArg(c.st, verb, a))
	}
	flush()
	return mkStrOp("str.++", SStr, append([]*Term{mkStr("")}, parts...)...)
}

func (x *Exec) fmtArg(st *State, verb string, a *Term) *Term {
	if a.op == "ite" && hasBox(a) {
		return mkIte(a.args[0], x.fmtArg(st, verb, a.args[1]), x.fmtArg(st, verb, a.args[2]))
	}
	if a.op == "uf" && strings.HasPrefix(a.name, "box.") {
		t := boxTypes[a.name]
		if b, ok := t.(*types.Basic); ok {
			switch {
			case b.Kind() == types.String && (verb == "%s" || verb == "%v"):
				return a.args[0]
			case b.Kind() == types.String && verb == "%q":
				return mkUF("fn.strconv.Quote.s", SStr, a.args[0])
			case b.Info()&types.IsInteger != 0 && (verb == "%d" || verb == "%v"):
				return mkUF("go.itoa", SStr, a.args[0])
			}
		}
		ts := x.pureArg(st, a.args[0], t)
		nm := "fmt." + sanitize(verb) + "." + sanitize(typeKey(t))
		return mkUF(nm, SStr, ts...)
	}
	return mkUF("fmt."+sanitize(verb), SStr, a)
}

// wrapErr creates an error value wrapping ws.
func (x *Exec) wrapErr(st *State, ws []*Term) *Term {
	e := x.newErr(st)
	x.w.wraps[e] = ws
	return e
}

const ctxmapSort = Sort("(Array Any Any)")

func ctxmap(c *Term) *Term {
	if c.op == "ite" {
		return mkIte(c.args[0], ctxmap(c.args[1]), ctxmap(c.args[2]))
	}
	return mkUF("ctxmap", ctxmapSort, c)
}

func (x *Exec) newCtx(m *Term) *Term {
	c := withBound(freshConst("ctx", SAny))
	x.axiom(mkNot(mkEq(c, nilAnyT)))
	x.axiom(mkEq(ctxmap(c), m))
	return c
}

const (
	nsSec     = int64(1000000000)
	unixToAbs = int64(62135596800) // seconds between year 1 and 1970
)

func init() {
	natives = map[string]nativeFn{}
	n := natives
	n["strings.HasPrefix"] = strFn("str.prefixof", SBool, 1, 0)
	n["strings.HasSuffix"] = strFn("str.suffixof", SBool, 1, 0)
	n["strings.Contains"] = strFn("str.contains", SBool, 0, 1)
	index := func(c *callCtx) ([]Val, bool) {
		sub := c.t(1)
		if sub.sort == SInt {
			if sub.op != "int" {
				return nil, false
			}
			sub = mkStr(string([]byte{byte(sub.num.Int64())}))
		}
		r := mkStrOp("str.indexof", SInt, c.t(0), sub)
		if r.op != "int" {
			c.x.axiom(mkAnd(mkLe(mkInt(-1), r), mkLe(mkAdd(r, strLen(sub)), strLen(c.t(0)))))
			c.x.axiom(mkEq(mkLe(mkInt(0), r), mkStrOp("str.contains", SBool, c.t(0), sub)))
		}
		return one(r)
	}
	fold := func(fn func(string) string) nativeFn {
		return func(c *callCtx) ([]Val, bool) {
			if t := c.t(0); t.op == "str" {
				return one(mkStr(fn(t.name)))
			}
			return nil, false
		}
	}
	n["net/textproto.CanonicalMIMEHeaderKey"] = fold(textproto.CanonicalMIMEHeaderKey)
	n["net/http.CanonicalHeaderKey"] = fold(textproto.CanonicalMIMEHeaderKey)
	n["strings.ToLower"] = fold(strings.ToLower)
	n["strings.ToUpper"] = fold(strings.ToUpper)
	n["strings.TrimSpace"] = fold(strings.TrimSpace)
	n["strings.Index"] = index
	n["strings.IndexByte"] = index
	n["strings.TrimPrefix"] = func(c *callCtx) ([]Val, bool) {
		s, p := c.t(0), c.t(1)
		return one(mkIte(mkStrOp("str.prefixof", SBool, p, s), c.x.substr(s, strLen(p), mkSub(strLen(s), strLen(p))), s))
	}
	n["strings.TrimSuffix"] = func(c *callCtx) ([]Val, bool) {
		s, p := c.t(0), c.t(1)
		return one(mkIte(mkStrOp("str.suffixof", SBool, p, s), c.x.substr(s, mkInt(0), mkSub(strLen(s), strLen(p))), s))
	}
	n["strings.CutPrefix"] = func(c *callCtx) ([]Val, bool) {
		s, p := c.t(0), c.t(1)
		ok := mkStrOp("str.prefixof", SBool, p, s)
		return []Val{mkIte(ok, c.x.substr(s, strLen(p), mkSub(strLen(s), strLen(p))), s), ok}, true
	}
	n["strings.CutSuffix"] = func(c *callCtx) ([]Val, bool) {
		s, p := c.t(0), c.t(1)
		ok := mkStrOp("str.suffixof", SBool, p, s)
		return []Val{mkIte(ok, c.x.substr(s, mkInt(0), mkSub(strLen(s), strLen(p))), s), ok}, true
	}
	n["strings.Cut"] = func(c *callCtx) ([]Val, bool) {
		s, p := c.t(0), c.t(1)
		i := mkStrOp("str.indexof", SInt, s, p)
		ok := mkStrOp("str.contains", SBool, s, p)
		c.x.axiom(mkAnd(mkLe(mkInt(-1), i), mkLe(mkAdd(i, strLen(p)), strLen(s))))
		c.x.axiom(mkEq(mkLe(mkInt(0), i), ok))
		a := mkAdd(i, strLen(p))
		return []Val{mkIte(ok, c.x.substr(s, mkInt(0), i), s), mkIte(ok, c.x.substr(s, a, mkSub(strLen(s), a)), mkStr("")), ok}, true
	}
	n["strings.Clone"] = func(c *callCtx) ([]Val, bool) { return one(c.t(0)) }
	n["bytes.Equal"] = func(c *callCtx) ([]Val, bool) {
		return one(mkEq(c.x.bytesToStr(c.st, c.t(0)), c.x.bytesToStr(c.st, c.t(1))))
	}
	n["bytes.Clone"] = func(c *callCtx) ([]Val, bool) {
		s := c.t(0)
		r := c.x.makeSlice(c.st, tByte, c.x.elems(c.st, tByte, slBase(s)), mkInt(0), mkInt(0))
		return one(mkIte(mkEq(slBase(s), mkInt(0)), zeroSlice(), mkSlice(slBase(r), slOff(s), slLen(s), slLen(s))))
	}
	n["crypto/subtle.ConstantTimeCompare"] = func(c *callCtx) ([]Val, bool) {
		return one(mkIte(mkEq(c.x.bytesToStr(c.st, c.t(0)), c.x.bytesToStr(c.st, c.t(1))), mkInt(1), mkInt(0)))
	}
	mapCopy := func(c *callCtx, dst, src *Term, mt *types.Map) {
		x, st := c.x, c.st
		d, v := x.mapArrs(mt)
		od, ov := mkSelect(st.get(d), dst), mkSelect(st.get(v), dst)
		sd, sv := x.mapDom(st, src, mt), mkSelect(st.get(v), src)
		nd, nv := freshConst("copyd", od.sort), freshConst("copyv", ov.sort)
		q := freshConst("q", sortOf(mt.Key()))
		x.fact(quantify(q, func(*Term) *Term {
			return mkAnd(mkEq(mkSelect(nd, q), mkOr(mkSelect(od, q), mkSelect(sd, q))), mkEq(mkSelect(nv, q), mkIte(mkSelect(sd, q), mkSelect(sv, q), mkSelect(ov, q))))
		}))
		x.mapLenFacts(nd)
		x.write(st, d, dst, nd)
		x.write(st, v, dst, nv)
	}
	n["maps.Copy"] = func(c *callCtx) ([]Val, bool) {
		mt, ok := c.argType(0).Underlying().(*types.Map)
		mt2, ok2 := c.argType(1).Underlying().(*types.Map)
		if !ok || !ok2 || !types.Identical(mt.Key(), mt2.Key()) || !types.Identical(mt.Elem(), mt2.Elem()) {
			return nil, false
		}
		mapCopy(c, c.t(0), c.t(1), mt)
		return []Val{}, true
	}
	n["maps.Clone"] = func(c *callCtx) ([]Val, bool) {
		mt, ok := c.argType(0).Underlying().(*types.Map)
		if !ok {
			return nil, false
		}
		x, st := c.x, c.st
		r := newRef()
		d, v := x.mapArrs(mt)
		m := c.t(0)
		x.write(st, d, r, x.mapDom(st, m, mt))
		x.write(st, v, r, mkSelect(st.get(v), m))
		return one(mkIte(mkEq(m, mkInt(0)), mkInt(0), r))
	}
	n["fmt.Sprintf"] = func(c *callCtx) ([]Val, bool) { return one(c.sprintf(0)) }
	n["fmt.Sprint"] = func(c *callCtx) ([]Val, bool) {
		ts := c.x.pureArgs(c)
		return one(mkUF(pureName("fmt.Sprint", ts), SStr, ts...))
	}
	n["strconv.Itoa"] = func(c *callCtx) ([]Val, bool) { return one(mkUF("go.itoa", SStr, c.t(0))) }
	n["fmt.Errorf"] = func(c *callCtx) ([]Val, bool) {
		var ws []*Term
		fs, sl := c.t(0), c.t(1)
		if fs.op == "str" && strings.Contains(fs.name, "%w") {
			et := c.sig.Params().At(1).Type().Underlying().(*types.Slice).Elem()
			arg := int64(0)
			for i := 0; i+1 < len(fs.name); i++ {
				if fs.name[i] != '%' {
					continue
				}
				i++
				if fs.name[i] == '%' {
					continue
				}
				for i < len(fs.name) && strings.IndexByte("+-# 0123456789.", fs.name[i]) >= 0 {
					i++
				}
				if i < len(fs.name) && fs.name[i] == 'w' {
					ws = append(ws, c.x.elemAt(c.st, et, sl, mkInt(arg)))
				}
				arg++
			}
		}
		return one(c.x.wrapErr(c.st, ws))
	}
	n["errors.New"] = func(c *callCtx) ([]Val, bool) { return one(c.x.wrapErr(c.st, nil)) }
	n["errors.Is"] = func(c *callCtx) ([]Val, bool) { return one(errorsIs(c.x, c.t(0), c.t(1))) }
	n["errors.Join"] = func(c *callCtx) ([]Val, bool) {
		sl := c.t(0)
		if slLen(sl).op == "int" {
			et := c.sig.Params().At(0).Type().Underlying().(*types.Slice).Elem()
			var ws, nn []*Term
			for k := int64(0); k < slLen(sl).num.Int64(); k++ {
				e := c.x.elemAt(c.st, et, sl, mkInt(k))
				ws = append(ws, e)
				nn = append(nn, mkNot(mkEq(e, nilAnyT)))
			}
			return one(mkIte(mkOr(nn...), c.x.wrapErr(c.st, ws), nilAnyT))
		}
		// nil iff every element is nil
		e := withBound(freshConst("joined", SAny))
		et := c.sig.Params().At(0).Type().Underlying().(*types.Slice).Elem()
		i := freshConst("q", SInt)
		all := quantify(i, func(*Term) *Term {
			return mkImp(mkAnd(mkLe(mkInt(0), i), mkLt(i, slLen(sl))), mkEq(c.x.elemAt(c.st, et, sl, i), nilAnyT))
		})
		c.x.axiom(mkEq(mkEq(e, nilAnyT), all))
		return one(e)
	}
	n["errors.As"] = func(c *callCtx) ([]Val, bool) {
		c.x.havocArgs(c)
		r := mkUF("errors.As", SBool, c.t(0), freshConst("tgt", SInt))
		c.x.axiom(mkImp(mkEq(c.t(0), nilAnyT), mkNot(r)))
		return one(r)
	}
	// context
	n["context.Background"] = func(c *callCtx) ([]Val, bool) {
		t := mkConst("ctx.background", SAny)
		c.x.axiom(mkNot(mkEq(t, nilAnyT)))
		c.x.axiom(mkEq(ctxmap(t), mkConstArray(ctxmapSort, nilAnyT)))
		return one(t)
	}
	n["context.TODO"] = n["context.Background"]
	n["context.WithValue"] = func(c *callCtx) ([]Val, bool) {
		return one(c.x.newCtx(mkStore(ctxmap(c.t(0)), c.t(1), c.t(2))))
	}
	wc := func(c *callCtx) ([]Val, bool) {
		cancel := withBound(freshConst("cancel", SInt))
		c.x.axiom(mkNot(mkEq(cancel, mkInt(0))))
		return []Val{c.x.newCtx(ctxmap(c.t(0))), cancel}, true
	}
	n["context.WithCancel"] = wc
	n["context.WithTimeout"] = wc
	n["context.WithDeadline"] = wc
	n["context.WithCancelCause"] = wc
	n["context.WithoutCancel"] = func(c *callCtx) ([]Val, bool) { return one(c.x.newCtx(ctxmap(c.t(0)))) }
	n["(context.Context).Value"] = func(c *callCtx) ([]Val, bool) {
		return one(termToVal(mkSelect(ctxmap(c.t(0)), c.t(1))))
	}
	// time: a time.Time is an absolute number of nanoseconds
	n["time.Now"] = func(c *callCtx) ([]Val, bool) { return one(c.x.w.tick(c.x, c.st)) }
	n["time.Since"] = func(c *callCtx) ([]Val, bool) { return one(mkSub(c.x.w.tick(c.x, c.st), c.t(0))) }
	n["time.Until"] = func(c *callCtx) ([]Val, bool) { return one(mkSub(c.t(0), c.x.w.tick(c.x, c.st))) }
	n["(time.Time).Add"] = func(c *callCtx) ([]Val, bool) { return one(mkAdd(c.t(0), c.t(1))) }
	n["(time.Time).Sub"] = func(c *callCtx) ([]Val, bool) { return one(mkSub(c.t(0), c.t(1))) }
	n["(time.Time).After"] = func(c *callCtx) ([]Val, bool) { return one(mkLt(c.t(1), c.t(0))) }
	n["(time.Time).Before"] = func(c *callCtx) ([]Val, bool) { return one(mkLt(c.t(0), c.t(1))) }
	n["(time.Time).Equal"] = func(c *callCtx) ([]Val, bool) { return one(mkEq(c.t(0), c.t(1))) }
	n["(time.Time).Compare"] = func(c *callCtx) ([]Val, bool) {
		return one(mkIte(mkLt(c.t(0), c.t(1)), mkInt(-1), mkIte(mkEq(c.t(0), c.t(1)), mkInt(0), mkInt(1))))
	}
	n["(time.Time).IsZero"] = func(c *callCtx) ([]Val, bool) { return one(mkEq(c.t(0), mkInt(0))) }
	n["(time.Time).UTC"] = func(c *callCtx) ([]Val, bool) { return one(c.t(0)) }
	n["(time.Time).Local"] = n["(time.Time).UTC"]
	n["(time.Time).Round"] = func(c *callCtx) ([]Val, bool) {
		if c.t(1).op == "int" && c.t(1).num.Sign() == 0 {
			return one(c.t(0))
		}
		r := mkUF("time.Round", SInt, c.t(0), c.t(1))
		c.x.axiom(mkAnd(mkLe(mkSub(c.t(0), c.t(1)), r), mkLe(r, mkAdd(c.t(0), c.t(1)))))
		return one(r)
	}
	n["(time.Time).Truncate"] = func(c *callCtx) ([]Val, bool) {
		d := c.t(1)
		if d.op == "int" && d.num.Sign() > 0 {
			return one(mkSub(c.t(0), mkMod(c.t(0), d)))
		}
		return one(mkUF("time.Truncate", SInt, c.t(0), d))
	}
	n["(time.Time).Unix"] = func(c *callCtx) ([]Val, bool) {
		return one(mkAdd(mkDiv(c.t(0), mkInt(nsSec)), mkInt(-unixToAbs)))
	}
	n["(time.Time).UnixNano"] = func(c *callCtx) ([]Val, bool) {
		return one(mkSub(c.t(0), mkMul(mkInt(unixToAbs), mkInt(nsSec))))
	}
	n["time.Unix"] = func(c *callCtx) ([]Val, bool) {
		return one(mkAdd(mkMul(mkAdd(c.t(0), mkInt(unixToAbs)), mkInt(nsSec)), c.t(1)))
	}
	n["(time.Duration).Seconds"] = func(c *callCtx) ([]Val, bool) { return one(mkUF("dur.seconds", SReal, c.t(0))) }
	n["(time.Duration).Truncate"] = func(c *callCtx) ([]Val, bool) {
		d := c.t(1)
		if d.op == "int" && d.num.Sign() > 0 {
			return one(mkIte(mkLe(mkInt(0), c.t(0)), mkSub(c.t(0), mkMod(c.t(0), d)), mkAdd(c.t(0), mkMod(mkSub(mkInt(0), c.t(0)), d))))
		}
		return nil, false
	}
	// locks
	lock := func(c *callCtx) ([]Val, bool) { c.x.w.onLock(c, true); return []Val{}, true }
	unlock := func(c *callCtx) ([]Val, bool) { c.x.w.onLock(c, false); return []Val{}, true }
	for _, k := range []string{"(*sync.Mutex)", "(*sync.RWMutex)"} {
		n[k+".Lock"] = lock
		n[k+".Unlock"] = unlock
	}
	n["(*sync.RWMutex).RLock"] = lock
	n["(*sync.RWMutex).RUnlock"] = func(c *callCtx) ([]Val, bool) { c.x.w.onRUnlock(c); return []Val{}, true }
	n["(*sync.Cond).Signal"] = nop
	n["(*sync.Cond).Broadcast"] = nop
	n["(*sync.WaitGroup).Add"] = nop
	n["(*sync.WaitGroup).Done"] = nop
	n["(*sync.WaitGroup).Wait"] = nop
	n["(*sync.Once).Do"] = func(c *callCtx) ([]Val, bool) {
		c.x.runCallbacks(c)
		return []Val{}, true
	}
	for _, k := range []string{"Printf", "Print", "Println", "Fatalf", "Fatal"} {
		n["log."+k] = nop
	}
	n["fmt.Printf"] = func(c *callCtx) ([]Val, bool) { return c.x.freshResults(c, ""), true }
	n["fmt.Println"] = n["fmt.Printf"]
	n["slices.Contains"] = func(c *callCtx) ([]Val, bool) {
		sl := c.t(0)
		et := c.sig.Params().At(0).Type().Underlying().(*types.Slice).Elem()
		i := freshConst("q", SInt)
		return one(quantifyEx(i, func(*Term) *Term {
			return mkAnd(mkLe(mkInt(0), i), mkLt(i, slLen(sl)), c.x.eq(c.x.elemAt(c.st, et, sl, i), c.t(1), et))
		}))
	}
	n["slices.Index"] = func(c *callCtx) ([]Val, bool) {
		if c.x.spec > 0 {
			return nil, false
		}
		sl := c.t(0)
		et := c.sig.Params().At(0).Type().Underlying().(*types.Slice).Elem()
		r := freshConst("index", SInt)
		i := freshConst("q", SInt)
		c.x.axiom(mkAnd(mkLe(mkInt(-1), r), mkLt(r, slLen(sl))))
		c.x.axiom(mkImp(mkLe(mkInt(0), r), c.x.eq(c.x.elemAt(c.st, et, sl, r), c.t(1), et)))
		c.x.axiom(quantify(i, func(*Term) *Term {
			return mkImp(mkAnd(mkLe(mkInt(0), i), mkLt(i, mkIte(mkEq(r, mkInt(-1)), slLen(sl), r))), mkNot(c.x.eq(c.x.elemAt(c.st, et, sl, i), c.t(1), et)))
		}))
		return one(r)
	}
	n["slices.ContainsFunc"] = func(c *callCtx) ([]Val, bool) {
		fv, ok := termToVal(c.t(1)).(*FuncV)
		if !ok {
			return nil, false
		}
		sl := c.t(0)
		et := c.sig.Params().At(0).Type().Underlying().(*types.Slice).Elem()
		i := freshConst("q", SInt)
		mark := db.n
		body := c.x.evalClosure(fv, []Val{c.x.elemAt(c.st, et, sl, i)}, c.st)
		if dependsOnNew(body, mark, nil) {
			return nil, false
		}
		return one(quantifyEx(i, func(*Term) *Term {
			return mkAnd(mkLe(mkInt(0), i), mkLt(i, slLen(sl)), body)
		}))
	}
	clone := func(c *callCtx) ([]Val, bool) {
		s := c.t(0)
		et := c.sig.Params().At(0).Type().Underlying().(*types.Slice).Elem()
		r := c.x.makeSlice(c.st, et, c.x.elems(c.st, et, slBase(s)), mkInt(0), mkInt(0))
		return one(mkIte(mkEq(slBase(s), mkInt(0)), zeroSlice(), mkSlice(slBase(r), slOff(s), slLen(s), slLen(s))))
	}
	n["slices.Clone"] = clone
	// an array of a sort permutes the elements: same multiset is abstracted to arbitrary content
	sortf := func(c *callCtx) ([]Val, bool) {
		sl := c.t(0)
		if sl.sort != SSlice {
			return nil, false
		}
		et := c.sig.Params().At(0).Type().Underlying().(*types.Slice).Elem()
		comp := regComp(elemComp(et), arrSort(SInt, arrSort(SInt, sortOf(et))))
		old := c.x.elems(c.st, et, slBase(sl))
		nw := withBound(freshConst("sorted", old.sort))
		perm := freshName("perm")
		inv := freshName("perminv")
		i := freshConst("q", SInt)
		rng := func(t *Term) *Term { return mkAnd(mkLe(mkInt(0), t), mkLt(t, slLen(sl))) }
		p := mkUF(perm, SInt, i)
		q := mkUF(inv, SInt, i)
		c.x.axiom(quantify(i, func(*Term) *Term {
			return mkImp(rng(i), mkAnd(rng(p), rng(q), mkEq(mkSelect(nw, mkAdd(slOff(sl), i)), mkSelect(old, mkAdd(slOff(sl), p))), mkEq(mkSelect(old, mkAdd(slOff(sl), i)), mkSelect(nw, mkAdd(slOff(sl), q)))))
		}))
		c.x.write(c.st, comp, slBase(sl), nw)
		return []Val{}, true
	}
	n["slices.Sort"] = sortf
	n["sort.Strings"] = sortf
	n["sort.Slice"] = func(c *callCtx) ([]Val, bool) {
		a := c.t(0)
		if a.op == "uf" && strings.HasPrefix(a.name, "box.") {
			if sl, ok := boxTypes[a.name].Underlying().(*types.Slice); ok {
				cc := *c
				cc.args = []Val{a.args[0]}
				cc.sig = types.NewSignatureType(nil, nil, nil, types.NewTuple(types.NewVar(0, nil, "x", types.NewSlice(sl.Elem()))), nil, false)
				return sortf(&cc)
			}
		}
		return nil, false
	}
	n["slices.SortFunc"] = sortf
	// atomics: content of the object is the value
	atom := func(c *callCtx) (*Addr, bool) {
		v := c.args[0]
		if t, ok := v.(*Term); ok {
			v = termToVal(t)
			if t2, ok := v.(*Term); ok {
				d := deref(c.recvT)
				return &Addr{kind: aComp, comp: regComp(cellComp(d), arrSort(SInt, SInt)), ref: t2, typ: d}, true
			}
		}
		a, ok := v.(*Addr)
		return a, ok
	}
	for _, ty := range []string{"Int64", "Int32", "Uint64", "Uint32"} {
		p := "(*sync/atomic." + ty + ")"
		n[p+".Load"] = func(c *callCtx) ([]Val, bool) {
			a, ok := atom(c)
			if !ok {
				return nil, false
			}
			return one(c.x.load(c.st, a, types.Typ[types.Int64], c.reach, c.pos))
		}
		n[p+".Store"] = func(c *callCtx) ([]Val, bool) {
			a, ok := atom(c)
			if !ok {
				return nil, false
			}
			c.x.store(c.st, a, types.Typ[types.Int64], c.t(1), c.reach, c.pos)
			return []Val{}, true
		}
		n[p+".Add"] = func(c *callCtx) ([]Val, bool) {
			a, ok := atom(c)
			if !ok {
				return nil, false
			}
			v := mkAdd(c.x.load(c.st, a, types.Typ[types.Int64], c.reach, c.pos), c.t(1))
			c.x.store(c.st, a, types.Typ[types.Int64], v, c.reach, c.pos)
			return one(v)
		}
	}
}

func zeroSlice() *Term { return mkSlice(mkInt(0), mkInt(0), mkInt(0), mkInt(0)) }

func freshName(h string) string {
	db.fresh++
	return fmt.Sprintf("%s!%d", h, db.fresh)
}
