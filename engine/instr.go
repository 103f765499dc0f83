package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"slices"

	"golang.org/x/tools/go/ssa"
)

type nextRec struct {
	it    *IterV
	ok    *Term
	key   *Term
	block *ssa.BasicBlock
	instr ssa.Instruction
}

func (x *Exec) instr(f *Frame, ins ssa.Instruction, st *State, reach *Term) (*State, *Term) {
	switch i := ins.(type) {
	case *ssa.DebugRef:
		return st, reach
	case *ssa.Alloc:
		f.env[i] = x.alloc(st, deref(i.Type()))
	case *ssa.BinOp:
		f.env[i] = x.binop(f, i, st, reach)
	case *ssa.UnOp:
		switch i.Op {
		case token.MUL:
			t := i.Type()
			if g, ok := i.X.(*ssa.Global); ok {
				if v := x.w.globalConst(g); v != nil {
					f.env[i] = v
					break
				}
				if v := x.w.ghostMap(g); v != nil {
					f.env[i] = v
					break
				}
			}
			f.env[i] = termToVal(x.load(st, x.val(f, i.X), t, reach, i.Pos()))
		case token.NOT:
			f.env[i] = mkNot(x.tval(f, i.X))
		case token.SUB:
			v := x.tval(f, i.X)
			if v.sort == SReal {
				f.env[i] = mkUF("go.fneg", SReal, v)
			} else {
				f.env[i] = x.wrap(mkSub(mkInt(0), v), i.Type())
			}
		case token.XOR:
			v := x.tval(f, i.X)
			if _, hi, ok := intRange(i.Type()); ok && isUnsigned(i.Type()) {
				f.env[i] = mkSub(mkInt(hi), v)
			} else {
				f.env[i] = mkSub(mkInt(-1), v)
			}
		case token.ARROW:
			et := i.X.Type().Underlying().(*types.Chan).Elem()
			ch := x.tval(f, i.X)
			v := x.recv(st, ch, et, reach, i)
			if i.CommaOk {
				ok := freshConst("recvok", SBool)
				v2 := mkIte(ok, valToTerm(v), zeroOf(et))
				f.env[i] = &TupleV{[]Val{v2, ok}}
			} else {
				f.env[i] = v
			}
		default:
			x.fail(i.Pos(), "unop %s", i.Op)
		}
	case *ssa.Call:
		c := i.Common()
		fnv, args := x.callOperands(f, c)
		res, ns, nr := x.callValue(f, c, fnv, args, st, reach, i.Pos(), i)
		n := c.Signature().Results().Len()
		if n == 1 {
			f.env[i] = res[0]
		} else if n > 1 {
			f.env[i] = &TupleV{res}
		} else if len(res) == 1 {
			f.env[i] = res[0]
		}
		return ns, nr
	case *ssa.ChangeInterface:
		f.env[i] = x.val(f, i.X)
		t := valToTerm(f.env[i])
		if x.static == nil {
			x.static = map[*Term][]types.Type{}
		}
		if !slices.Contains(x.static[t], i.X.Type()) {
			x.static[t] = append(x.static[t], i.X.Type())
		}
	case *ssa.ChangeType:
		f.env[i] = x.changeType(x.val(f, i.X), i.X.Type(), i.Type())
	case *ssa.Convert:
		f.env[i] = x.convert(st, x.val(f, i.X), i.X.Type(), i.Type(), reach, i.Pos())
	case *ssa.MultiConvert:
		f.env[i] = x.convert(st, x.val(f, i.X), i.X.Type(), i.Type(), reach, i.Pos())
	case *ssa.Defer:
		fnv, args := x.callOperands(f, i.Common())
		f.defers = append(f.defers, deferred{reach, i, fnv, args, i.Block()})
	case *ssa.Extract:
		tv, ok := x.val(f, i.Tuple).(*TupleV)
		if !ok {
			x.fail(i.Pos(), "extract of %T", x.val(f, i.Tuple))
		}
		f.env[i] = tv.vals[i.Index]
	case *ssa.Field:
		v := x.tval(f, i.X)
		r := mkSel(string(sortOf(i.X.Type())), i.Field, v)
		x.typeFacts(r, i.Type(), reach)
		f.env[i] = termToVal(r)
	case *ssa.FieldAddr:
		f.env[i] = x.fieldAddr(x.val(f, i.X), deref(i.X.Type()), i.Field, reach, i.Pos())
	case *ssa.Go:
		fnv, args := x.callOperands(f, i.Common())
		x.goStmt(f, i.Common(), fnv, args, st, reach, i.Pos())
	case *ssa.If, *ssa.Jump, *ssa.Return, *ssa.Panic, *ssa.Phi:
		panic("unexpected")
	case *ssa.Index:
		v := x.tval(f, i.X)
		idx := x.tval(f, i.Index)
		if v.sort == SStr {
			x.indexOb(idx, mkStrOp("str.len", SInt, v), reach, i.Pos())
			f.env[i] = x.strByte(v, idx)
		} else {
			n := i.X.Type().Underlying().(*types.Array).Len()
			x.indexOb(idx, mkInt(n), reach, i.Pos())
			f.env[i] = termToVal(mkSelect(v, idx))
		}
	case *ssa.IndexAddr:
		f.env[i] = x.indexAddr(st, x.val(f, i.X), i.X.Type(), x.tval(f, i.Index), reach, i.Pos())
	case *ssa.Lookup:
		v := x.tval(f, i.X)
		idx := x.tval(f, i.Index)
		if v.sort == SStr {
			x.indexOb(idx, mkStrOp("str.len", SInt, v), reach, i.Pos())
			f.env[i] = x.strByte(v, idx)
			break
		}
		val, ok := x.mapGet(st, v, i.X.Type().Underlying().(*types.Map), idx, reach)
		if i.CommaOk {
			f.env[i] = &TupleV{[]Val{val, ok}}
		} else {
			f.env[i] = val
		}
	case *ssa.MakeChan:
		r := newRef()
		f.env[i] = r
		x.axiom(mkEq(mkUF("go.chancap", SInt, r), x.tval(f, i.Size)))
	case *ssa.MakeClosure:
		var bs []Val
		for _, b := range i.Bindings {
			bs = append(bs, x.val(f, b))
		}
		f.env[i] = &FuncV{i.Fn.(*ssa.Function), bs}
	case *ssa.MakeInterface:
		f.env[i] = box(x.tval(f, i.X), i.X.Type())
	case *ssa.MakeMap:
		r := newRef()
		x.initMap(st, r, i.Type().Underlying().(*types.Map))
		f.env[i] = r
	case *ssa.MakeSlice:
		et := i.Type().Underlying().(*types.Slice).Elem()
		n := x.tval(f, i.Len)
		c := x.tval(f, i.Cap)
		x.panicOb(reach, mkAnd(mkLe(mkInt(0), n), mkLe(n, c)), i.Pos(), "make slice length")
		x.fact(mkImp(reach, mkAnd(mkLe(mkInt(0), n), mkLe(n, c))))
		f.env[i] = x.makeSlice(st, et, mkConstArray(arrSort(SInt, sortOf(et)), zeroOf(et)), n, c)
	case *ssa.MapUpdate:
		m := x.tval(f, i.Map)
		x.nonNil(reach, m, i.Pos(), "assignment to map")
		x.mapSet(st, m, i.Map.Type().Underlying().(*types.Map), x.tval(f, i.Key), x.tval(f, i.Value))
	case *ssa.Next:
		f.env[i] = x.next(f, i, st, reach)
	case *ssa.Range:
		v := x.tval(f, i.X)
		if v.sort == SStr {
			f.env[i] = &IterV{isStr: true, str: v}
		} else {
			mt := i.X.Type().Underlying().(*types.Map)
			ks := sortOf(mt.Key())
			comp := rangeComp(i, ks)
			x.log(comp, nil)
			st.set(comp, mkConstArray(arrSort(ks, SBool), tFalse))
			f.env[i] = &IterV{m: v, mt: mt, domAt: x.mapDom(st, v, mt), comp: comp}
		}
	case *ssa.Select:
		n := len(i.States)
		idx := freshConst("select", SInt)
		lo := int64(0)
		if !i.Blocking {
			lo = -1
		}
		x.fact(mkImp(reach, mkAnd(mkLe(mkInt(lo), idx), mkLt(idx, mkInt(int64(n))))))
		vals := []Val{idx, freshConst("recvok", SBool)}
		for k, s := range i.States {
			if s.Dir == types.RecvOnly {
				et := s.Chan.Type().Underlying().(*types.Chan).Elem()
				vals = append(vals, x.recv(st, x.tval(f, s.Chan), et, mkAnd(reach, mkEq(idx, mkInt(int64(k)))), i))
			} else {
				st = x.send(f, st, x.tval(f, s.Chan), s.Chan.Type(), x.val(f, s.Send), mkAnd(reach, mkEq(idx, mkInt(int64(k)))), reach, s.Pos)
			}
		}
		f.env[i] = &TupleV{vals}
	case *ssa.Send:
		st = x.send(f, st, x.tval(f, i.Chan), i.Chan.Type(), x.val(f, i.X), reach, reach, i.Pos())
	case *ssa.Slice:
		f.env[i] = x.slice(f, i, st, reach)
	case *ssa.SliceToArrayPointer:
		x.fail(i.Pos(), "slice to array pointer")
	case *ssa.Store:
		v := x.tval(f, i.Val)
		x.store(st, x.val(f, i.Addr), i.Val.Type(), v, reach, i.Pos())
	case *ssa.TypeAssert:
		f.env[i] = x.typeAssert(f, i, reach)
	default:
		x.fail(ins.Pos(), "unsupported instruction %T", ins)
	}
	return st, reach
}

func (x *Exec) callOperands(f *Frame, c *ssa.CallCommon) (Val, []Val) {
	fnv := x.val(f, c.Value)
	var args []Val
	for _, a := range c.Args {
		args = append(args, x.val(f, a))
	}
	return fnv, args
}

// alloc creates a zero-initialised object and returns its reference.
func (x *Exec) alloc(st *State, t types.Type) *Term {
	r := newRef()
	x.initObj(st, r, t)
	return r
}

func (x *Exec) initObj(st *State, r *Term, t types.Type) {
	x.initObjWith(st, r, t, zeroOf(t))
}

func (x *Exec) initObjWith(st *State, r *Term, t types.Type, v *Term) {
	if s := structOf(t); s != nil {
		n := structDT(types.Unalias(t), s)
		for i := 0; i < s.NumFields(); i++ {
			c := regComp(fieldComp(t, i), arrSort(SInt, sortOf(s.Field(i).Type())))
			x.write(st, c, r, mkSel(n, i, v))
		}
		return
	}
	if at, ok := t.Underlying().(*types.Array); ok {
		c := regComp(elemComp(at.Elem()), arrSort(SInt, arrSort(SInt, sortOf(at.Elem()))))
		x.write(st, c, r, v)
		return
	}
	c := regComp(cellComp(t), arrSort(SInt, sortOf(t)))
	x.write(st, c, r, v)
}

func (x *Exec) makeSlice(st *State, et types.Type, content, n, c *Term) *Term {
	r := newRef()
	comp := regComp(elemComp(et), arrSort(SInt, arrSort(SInt, sortOf(et))))
	x.write(st, comp, r, content)
	return mkSlice(r, mkInt(0), n, c)
}

func (x *Exec) elems(st *State, et types.Type, base *Term) *Term {
	comp := regComp(elemComp(et), arrSort(SInt, arrSort(SInt, sortOf(et))))
	return mkSelect(st.get(comp), base)
}

func (x *Exec) elemAt(st *State, et types.Type, sl, i *Term) *Term {
	return mkSelect(x.elems(st, et, slBase(sl)), mkAdd(slOff(sl), i))
}

func (x *Exec) indexOb(idx, n, reach *Term, pos token.Pos) {
	if x.spec > 0 {
		return
	}
	c := mkAnd(mkLe(mkInt(0), idx), mkLt(idx, n))
	if c == tTrue {
		return
	}
	x.panicOb(reach, c, pos, "index in range")
	x.fact(mkImp(reach, c))
}

func (x *Exec) strByte(s, i *Term) *Term {
	t := mkStrOp("str.byte", SInt, s, i)
	if !t.bvars && t.op != "int" {
		x.axiom(mkLe(mkInt(0), t))
		x.axiom(mkLe(t, mkInt(255)))
	}
	return t
}

func (x *Exec) indexAddr(st *State, v Val, t types.Type, idx *Term, reach *Term, pos token.Pos) Val {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		s := valToTerm(v)
		x.indexOb(idx, slLen(s), reach, pos)
		comp := regComp(elemComp(u.Elem()), arrSort(SInt, arrSort(SInt, sortOf(u.Elem()))))
		return &Addr{kind: aElem, comp: comp, ref: slBase(s), idx: mkAdd(slOff(s), idx), typ: u.Elem()}
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		x.indexOb(idx, mkInt(at.Len()), reach, pos)
		switch a := v.(type) {
		case *Term:
			if w := termToVal(a); w != Val(a) {
				return x.indexAddr(st, w, t, idx, reach, pos)
			}
			x.nonNil(reach, a, pos, "array")
			comp := regComp(elemComp(at.Elem()), arrSort(SInt, arrSort(SInt, sortOf(at.Elem()))))
			return &Addr{kind: aElem, comp: comp, ref: a, idx: idx, typ: at.Elem()}
		case *Addr:
			n := *a
			n.path = append(append([]pathElem{}, a.path...), pathElem{idx: idx})
			n.typ = at.Elem()
			return &n
		case *AddrIte:
			return &AddrIte{a.cond, x.indexAddr(st, a.a, t, idx, mkAnd(reach, a.cond), pos), x.indexAddr(st, a.b, t, idx, mkAnd(reach, mkNot(a.cond)), pos)}
		}
	}
	x.fail(pos, "indexAddr %s", t)
	return nil
}

// ---- integers

var pow2 = func() (r [65]*big.Int) {
	for i := range r {
		r[i] = new(big.Int).Lsh(big.NewInt(1), uint(i))
	}
	return
}()

func mkDiv(a, b *Term) *Term { // floor division, b literal > 0 in practice
	if a.op == "int" && b.op == "int" && b.num.Sign() > 0 {
		q := new(big.Int)
		q.Div(a.num, b.num) // Euclidean = floor for positive b
		return mkBig(q)
	}
	if b.op == "int" && b.num.IsInt64() && b.num.Int64() == 1 {
		return a
	}
	return mk("div", "", SInt, a, b)
}

func mkMod(a, b *Term) *Term {
	if a.op == "int" && b.op == "int" && b.num.Sign() > 0 {
		return mkBig(new(big.Int).Mod(a.num, b.num))
	}
	return mk("mod", "", SInt, a, b)
}

// wrap reduces v to the range of a sized integer type.
func (x *Exec) wrap(v *Term, t types.Type) *Term {
	lo, hi, ok := intRange(t)
	if !ok {
		return v
	}
	if v.op == "int" {
		span := hi - lo + 1
		m := new(big.Int).Sub(v.num, big.NewInt(lo))
		m.Mod(m, big.NewInt(span))
		m.Add(m, big.NewInt(lo))
		return mkBig(m)
	}
	span := big.NewInt(hi - lo + 1)
	inR := mkAnd(mkLe(mkInt(lo), v), mkLe(v, mkInt(hi)))
	return mkIte(inR, v, mkAdd(mkMod(mkSub(v, mkInt(lo)), mkBig(span)), mkInt(lo)))
}

// mulPow2 returns k when t is syntactically a multiple of 2^k.
func mulPow2(t *Term) int {
	switch t.op {
	case "*":
		if t.args[1].op == "int" && t.args[1].num.Sign() > 0 {
			return int(t.args[1].num.TrailingZeroBits()) + mulPow2(t.args[0])
		}
	case "+":
		return min(mulPow2(t.args[0]), mulPow2(t.args[1]))
	case "int":
		if t.num.Sign() == 0 {
			return 64
		}
		return int(t.num.TrailingZeroBits())
	case "ite":
		return min(mulPow2(t.args[1]), mulPow2(t.args[2]))
	}
	return 0
}

func (x *Exec) bitop(op token.Token, a, b *Term, t types.Type) *Term {
	if a.op == "int" && b.op == "int" && a.num.Sign() >= 0 && b.num.Sign() >= 0 {
		r := new(big.Int)
		switch op {
		case token.AND:
			r.And(a.num, b.num)
		case token.OR:
			r.Or(a.num, b.num)
		case token.XOR:
			r.Xor(a.num, b.num)
		case token.AND_NOT:
			r.AndNot(a.num, b.num)
		}
		return mkBig(r)
	}
	if a.op == "int" {
		if op != token.AND_NOT {
			a, b = b, a
		}
	}
	switch op {
	case token.AND:
		if b.op == "int" && b.num.Sign() >= 0 {
			p := new(big.Int).Add(b.num, big.NewInt(1))
			if p.TrailingZeroBits() == uint(p.BitLen()-1) {
				return mkMod(a, mkBig(p))
			}
			// a single bit
			if b.num.Sign() > 0 && b.num.TrailingZeroBits() == uint(b.num.BitLen()-1) {
				return mkMul(mkMod(mkDiv(a, b), mkInt(2)), b)
			}
		}
		r := mkUF("go.bvand", SInt, a, b)
		x.axiom(mkImp(mkLe(mkInt(0), b), mkAnd(mkLe(mkInt(0), r), mkLe(r, b))))
		x.axiom(mkImp(mkLe(mkInt(0), a), mkAnd(mkLe(mkInt(0), r), mkLe(r, a))))
		return r
	case token.OR:
		if b.op == "int" && b.num.Sign() == 0 {
			return a
		}
		r := mkUF("go.bvor", SInt, a, b)
		if k := mulPow2(a); k > 0 && k <= 64 {
			x.axiom(mkImp(mkAnd(mkLe(mkInt(0), b), mkLt(b, mkBig(pow2[k]))), mkEq(r, mkAdd(a, b))))
		}
		if k := mulPow2(b); k > 0 && k <= 64 {
			x.axiom(mkImp(mkAnd(mkLe(mkInt(0), a), mkLt(a, mkBig(pow2[k]))), mkEq(r, mkAdd(a, b))))
		}
		x.axiom(mkImp(mkAnd(mkLe(mkInt(0), a), mkLe(mkInt(0), b)), mkAnd(mkLe(a, r), mkLe(b, r), mkLe(r, mkAdd(a, b)))))
		return r
	case token.XOR:
		r := mkUF("go.bvxor", SInt, a, b)
		x.typeFacts(r, t, tTrue)
		return r
	}
	r := mkUF("go.bvandnot", SInt, a, b)
	x.typeFacts(r, t, tTrue)
	return r
}

func (x *Exec) binop(f *Frame, i *ssa.BinOp, st *State, reach *Term) Val {
	a, b := x.tval(f, i.X), x.tval(f, i.Y)
	t := i.X.Type()
	switch i.Op {
	case token.EQL:
		return x.eq(a, b, t)
	case token.NEQ:
		return mkNot(x.eq(a, b, t))
	}
	if a.sort == SStr {
		switch i.Op {
		case token.ADD:
			return mkStrOp("str.++", SStr, a, b)
		case token.LSS:
			return mkStrOp("str.<", SBool, a, b)
		case token.GTR:
			return mkStrOp("str.<", SBool, b, a)
		case token.LEQ:
			return mkNot(mkStrOp("str.<", SBool, b, a))
		case token.GEQ:
			return mkNot(mkStrOp("str.<", SBool, a, b))
		}
	}
	if a.sort == SReal {
		switch i.Op {
		case token.LSS:
			return mkUF("go.flt", SBool, a, b)
		case token.GTR:
			return mkUF("go.flt", SBool, b, a)
		case token.LEQ:
			return mkUF("go.fle", SBool, a, b)
		case token.GEQ:
			return mkUF("go.fle", SBool, b, a)
		}
		return mkUF("go.f"+fmt.Sprint(map[token.Token]string{token.ADD: "add", token.SUB: "sub", token.MUL: "mul", token.QUO: "div"}[i.Op]), SReal, a, b)
	}
	switch i.Op {
	case token.ADD:
		return x.wrap(mkAdd(a, b), t)
	case token.SUB:
		r := mkSub(a, b)
		if isUnsigned(t) {
			if _, _, ok := intRange(t); !ok {
				// 64-bit unsigned subtraction wraps exactly
				r = mkIte(mkLe(b, a), r, mkAdd(r, mkBig(pow2[64])))
			}
		}
		return x.wrap(r, t)
	case token.MUL:
		return x.wrap(mkMul(a, b), t)
	case token.QUO, token.REM:
		c := mkNot(mkEq(b, mkInt(0)))
		if x.spec == 0 && c != tTrue {
			x.panicOb(reach, c, i.Pos(), "division by zero")
			x.fact(mkImp(reach, c))
		}
		pos := func(a *Term) *Term { // truncated division of a by b
			q := mkDiv(a, b)
			if i.Op == token.QUO {
				return q
			}
			return mkMod(a, b)
		}
		if isUnsigned(t) {
			return pos(a)
		}
		if b.op == "int" && b.num.Sign() > 0 {
			na := mkSub(mkInt(0), a)
			if i.Op == token.QUO {
				return mkIte(mkLe(mkInt(0), a), mkDiv(a, b), mkSub(mkInt(0), mkDiv(na, b)))
			}
			return mkIte(mkLe(mkInt(0), a), mkMod(a, b), mkSub(mkInt(0), mkMod(na, b)))
		}
		if i.Op == token.QUO {
			r := mkUF("go.quo", SInt, a, b)
			x.axiom(mkImp(mkAnd(mkLe(mkInt(0), a), mkLt(mkInt(0), b)), mkEq(r, mkDiv(a, b))))
			return r
		}
		r := mkUF("go.rem", SInt, a, b)
		x.axiom(mkImp(mkAnd(mkLe(mkInt(0), a), mkLt(mkInt(0), b)), mkAnd(mkLe(mkInt(0), r), mkLt(r, b), mkLe(r, a))))
		return r
	case token.LSS:
		return mkLt(a, b)
	case token.GTR:
		return mkLt(b, a)
	case token.LEQ:
		return mkLe(a, b)
	case token.GEQ:
		return mkLe(b, a)
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		return x.bitop(i.Op, a, b, t)
	case token.SHL:
		if b.op == "int" && b.num.IsInt64() && b.num.Int64() <= 64 && b.num.Sign() >= 0 {
			return x.wrap(mkMul(a, mkBig(pow2[b.num.Int64()])), t)
		}
		r := mkUF("go.shl", SInt, a, b)
		x.typeFacts(r, t, tTrue)
		return r
	case token.SHR:
		if b.op == "int" && b.num.IsInt64() && b.num.Int64() <= 64 && b.num.Sign() >= 0 {
			return mkDiv(a, mkBig(pow2[b.num.Int64()]))
		}
		r := mkUF("go.shr", SInt, a, b)
		x.axiom(mkImp(mkLe(mkInt(0), a), mkAnd(mkLe(mkInt(0), r), mkLe(r, a))))
		return r
	}
	x.fail(i.Pos(), "binop %s on %s", i.Op, t)
	return nil
}

func (x *Exec) eq(a, b *Term, t types.Type) *Term {
	if a.sort == SSlice { // comparison with nil
		if b.op == "ctor" {
			return mkEq(slBase(a), mkInt(0))
		}
		return mkEq(slBase(b), mkInt(0))
	}
	if a.sort == SReal {
		return mkUF("go.feq", SBool, a, b)
	}
	if a.sort != b.sort {
		// comparison of an interface with a concrete value goes through boxing in SSA
		return freshConst("cmp", SBool)
	}
	return mkEq(a, b)
}

// ---- interfaces

var typeIDs = map[string]int64{}
var typeByID = map[int64]types.Type{}

func typeID(t types.Type) int64 {
	t = types.Unalias(t)
	k := typeKey(t)
	id, ok := typeIDs[k]
	if !ok {
		id = int64(len(typeIDs) + 1)
		typeIDs[k] = id
		typeByID[id] = t
		boxTypes["box."+sanitize(k)] = t
	}
	return id
}

var boxTypes = map[string]types.Type{}

func boxName(t types.Type) string {
	t = types.Unalias(t)
	typeID(t)
	return sanitize(typeKey(t))
}

func box(v *Term, t types.Type) *Term {
	if types.IsInterface(t) {
		return v
	}
	n := boxName(t)
	if v.op == "uf" && v.name == "unbox."+n {
		// box(unbox(x)) = x only when x has the type; keep as is
	}
	return mkUF("box."+n, SAny, v)
}

func unbox(v *Term, t types.Type) *Term {
	return mkUF("unbox."+boxName(t), sortOf(t), v)
}

// dynIs returns the condition that interface value v holds concrete type t.
func dynIs(v *Term, t types.Type) *Term {
	n := boxName(t)
	if isNilAny(v) {
		return tFalse
	}
	switch {
	case v.op == "uf" && len(v.name) > 4 && v.name[:4] == "box.":
		return mkBool(v.name == "box."+n)
	case v.op == "ite":
		return mkIte(v.args[0], dynIs(v.args[1], t), dynIs(v.args[2], t))
	}
	return mkEq(mkUF("dyn", SInt, v), mkInt(typeID(t)))
}

func implBool(v *Term, it types.Type, st *State) *Term {
	if isNilAny(v) {
		return tFalse
	}
	if v.op == "uf" && len(v.name) > 4 && v.name[:4] == "box." {
		if t := boxTypes[v.name]; t != nil {
			return mkBool(types.Implements(t, it.Underlying().(*types.Interface)))
		}
	}
	if v.op == "ite" {
		return mkIte(v.args[0], implBool(v.args[1], it, st), implBool(v.args[2], it, st))
	}
	nm := "impl." + sanitize(typeKey(it))
	// One name for interfaces with the same methods.
	for n, t := range implTypes {
		if types.Identical(t.Underlying(), it.Underlying()) {
			nm, it = n, t
			break
		}
	}
	implTypes[nm] = it
	return mkAnd(mkNot(mkEq(v, nilAnyT)), mkUF(nm, SBool, mkUF("dyn", SInt, v)))
}

func (x *Exec) typeAssert(f *Frame, i *ssa.TypeAssert, reach *Term) Val {
	v := x.tval(f, i.X)
	var ok, val *Term
	impl := func(t types.Type) bool {
		return types.Implements(t, i.AssertedType.Underlying().(*types.Interface))
	}
	if types.IsInterface(i.AssertedType) {
		if impl(i.X.Type()) || slices.ContainsFunc(x.static[v], impl) {
			ok = mkNot(mkEq(v, nilAnyT))
		} else {
			ok = implBool(v, i.AssertedType, nil)
		}
		val = v
	} else {
		ok = dynIs(v, i.AssertedType)
		// the value was converted from a static interface type that the
		// asserted type does not implement
		if slices.ContainsFunc(x.static[v], func(t types.Type) bool {
			it, isI := t.Underlying().(*types.Interface)
			return isI && !types.Implements(i.AssertedType, it)
		}) {
			ok = tFalse
		}
		val = unbox(v, i.AssertedType)
		if ok != tTrue && ok != tFalse {
			x.axiom(mkImp(ok, mkEq(v, box(val, i.AssertedType))))
		}
		x.typeFacts(val, i.AssertedType, reach)
	}
	if i.CommaOk {
		return &TupleV{[]Val{termToVal(mkIte(ok, val, zeroOf(i.AssertedType))), ok}}
	}
	x.panicOb(reach, ok, i.Pos(), "type assertion")
	x.fact(mkImp(reach, ok))
	return termToVal(val)
}

// ---- conversions

func (x *Exec) changeType(v Val, from, to types.Type) Val {
	fs, ts := sortOf(from), sortOf(to)
	if fs == ts {
		return v
	}
	return x.convStruct(valToTerm(v), from, to)
}

func (x *Exec) convStruct(v *Term, from, to types.Type) *Term {
	fu, ok1 := from.Underlying().(*types.Struct)
	tu, ok2 := to.Underlying().(*types.Struct)
	if !ok1 || !ok2 {
		if v.sort == sortOf(to) {
			return v
		}
		return freshConst("conv", sortOf(to))
	}
	n := string(sortOf(to))
	var as []*Term
	for i := 0; i < tu.NumFields(); i++ {
		as = append(as, x.convStruct(mkSel(string(sortOf(from)), i, v), fu.Field(i).Type(), tu.Field(i).Type()))
	}
	if len(as) == 0 {
		as = []*Term{mkInt(0)}
	}
	return mkCtor(n, Sort(n), as...)
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

var tByte = types.Typ[types.Uint8]

const sByteArr = Sort("(Array Int Int)")

// strOf is the string made of n bytes of array arr from off.
func (x *Exec) strOf(arr, off, n *Term) *Term {
	if n.op == "int" && n.num.Sign() == 0 {
		return mkStr("")
	}
	if arr.op == "uf" && arr.name == "bytesOf" {
		s := arr.args[0]
		if off.op == "int" && off.num.Sign() == 0 && n == mkStrOp("str.len", SInt, s) {
			return s
		}
		r := x.substr(s, off, n)
		return r
	}
	r := mkUF("strOf", SStr, arr, off, n)
	if !r.bvars {
		x.axiom(mkImp(mkLe(mkInt(0), n), mkEq(mkStrOp("str.len", SInt, r), n)))
	}
	return r
}

func (x *Exec) substr(s, off, n *Term) *Term {
	r := mkStrOp("str.substr", SStr, s, off, n)
	if !r.bvars && r.op == "str.substr" {
		x.axiom(mkImp(mkAnd(mkLe(mkInt(0), off), mkLe(mkInt(0), n), mkLe(mkAdd(off, n), mkStrOp("str.len", SInt, s))), mkEq(mkStrOp("str.len", SInt, r), n)))
	}
	return r
}

// bytesOf returns the array of bytes of a string.
func (x *Exec) bytesOf(s *Term) *Term {
	if s.op == "uf" && s.name == "strOf" {
		if s.args[1].op == "int" && s.args[1].num.Sign() == 0 {
			return s.args[0]
		}
	}
	return mkUF("bytesOf", sByteArr, s)
}

func (x *Exec) bytesToStr(st *State, sl *Term) *Term {
	return x.strOf(x.elems(st, tByte, slBase(sl)), slOff(sl), slLen(sl))
}

func (x *Exec) strToBytes(st *State, s *Term) *Term {
	n := mkStrOp("str.len", SInt, s)
	return x.makeSlice(st, tByte, x.bytesOf(s), n, n)
}

func (x *Exec) convert(st *State, v Val, from, to types.Type, reach *Term, pos token.Pos) Val {
	fu, tu := from.Underlying(), to.Underlying()
	fb, fok := fu.(*types.Basic)
	tb, tok := tu.(*types.Basic)
	switch {
	case fok && tok && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
		t := valToTerm(v)
		flo, fhi, fsized := intRange(from)
		tlo, thi, tsized := intRange(to)
		if tsized {
			if fsized && flo >= tlo && fhi <= thi {
				return t
			}
			return x.wrap(t, to)
		}
		if fsized && (flo >= 0 || !isUnsigned(to)) {
			return t
		}
		if isUnsigned(to) && !isUnsigned(from) {
			return mkIte(mkLe(mkInt(0), t), t, mkAdd(t, mkBig(pow2[64])))
		}
		if !isUnsigned(to) && isUnsigned(from) {
			return mkIte(mkLt(t, mkBig(pow2[63])), t, mkSub(t, mkBig(pow2[64])))
		}
		return t
	case fok && tok && fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
		return v
	case tok && tb.Info()&types.IsString != 0:
		if isByteSlice(from) {
			return x.bytesToStr(st, valToTerm(v))
		}
		if s, ok := fu.(*types.Slice); ok { // []rune
			sl := valToTerm(v)
			return mkUF("runesToStr", SStr, x.elems(st, s.Elem(), slBase(sl)), slOff(sl), slLen(sl))
		}
		return mkUF("runeToStr", SStr, valToTerm(v))
	case fok && fb.Info()&types.IsString != 0:
		if isByteSlice(to) {
			return x.strToBytes(st, valToTerm(v))
		}
		if s, ok := tu.(*types.Slice); ok {
			n := mkUF("runeCount", SInt, valToTerm(v))
			x.axiom(mkLe(mkInt(0), n))
			return x.makeSlice(st, s.Elem(), mkUF("runesOf", sByteArr, valToTerm(v)), n, n)
		}
	case fok && tok && (fb.Info()|tb.Info())&types.IsFloat != 0:
		t := valToTerm(v)
		if t.sort == sortOf(to) {
			return t
		}
		return mkUF("conv."+string(t.sort)+"."+string(sortOf(to)), sortOf(to), t)
	}
	if sortOf(from) == sortOf(to) {
		return v
	}
	x.fail(pos, "convert %s to %s", from, to)
	return nil
}

// ---- maps

func (x *Exec) mapArrs(mt *types.Map) (dom, val string) {
	d, v := mapComps(mt)
	ks, vs := sortOf(mt.Key()), sortOf(mt.Elem())
	regComp(d, arrSort(SInt, arrSort(ks, SBool)))
	regComp(v, arrSort(SInt, arrSort(ks, vs)))
	if x.w.mapOfDom == nil {
		x.w.mapOfDom = map[string]*types.Map{}
	}
	x.w.mapOfDom[d] = mt
	return d, v
}

func (x *Exec) initMap(st *State, r *Term, mt *types.Map) {
	d, v := x.mapArrs(mt)
	ks, vs := sortOf(mt.Key()), sortOf(mt.Elem())
	dom := mkConstArray(arrSort(ks, SBool), tFalse)
	x.write(st, d, r, dom)
	x.write(st, v, r, mkConstArray(arrSort(ks, vs), zeroOf(mt.Elem())))
	x.axiom(mkEq(mapLen(dom), mkInt(0)))
}

func mapLen(dom *Term) *Term { return mkUF("maplen."+sanitize(string(dom.sort)), SInt, dom) }

func (x *Exec) mapDom(st *State, m *Term, mt *types.Map) *Term {
	d, _ := x.mapArrs(mt)
	a := mkSelect(st.get(d), m)
	if mkEq(m, mkInt(0)) == tFalse {
		return a
	}
	return mkIte(mkEq(m, mkInt(0)), mkConstArray(a.sort, tFalse), a)
}

func (x *Exec) mapGet(st *State, m *Term, mt *types.Map, k *Term, reach *Term) (Val, *Term) {
	_, v := x.mapArrs(mt)
	dom := mkSelect(x.mapDom(st, m, mt), k)
	raw := mkSelect(mkSelect(st.get(v), m), k)
	x.typeFacts(raw, mt.Elem(), reach)
	val := mkIte(dom, raw, zeroOf(mt.Elem()))
	return termToVal(val), dom
}

func (x *Exec) mapSet(st *State, m *Term, mt *types.Map, k, val *Term) {
	d, v := x.mapArrs(mt)
	od := mkSelect(st.get(d), m)
	nd := mkStore(od, k, tTrue)
	x.write(st, d, m, nd)
	x.write(st, v, m, mkStore(mkSelect(st.get(v), m), k, val))
	x.mapLenFacts(od)
	if nd != od {
		x.axiom(mkEq(mapLen(nd), mkIte(mkSelect(od, k), mapLen(od), mkAdd(mapLen(od), mkInt(1)))))
	}
}

func (x *Exec) mapLenFacts(dom *Term) {
	if dom.bvars {
		return
	}
	l := mapLen(dom)
	x.axiom(mkLe(mkInt(0), l))
	ks, _ := arrParts(dom.sort)
	x.axiom(mkImp(mkEq(l, mkInt(0)), mkEq(dom, mkConstArray(arrSort(ks, SBool), tFalse))))
}

func (x *Exec) mapDelete(st *State, m *Term, mt *types.Map, k *Term) {
	d, _ := x.mapArrs(mt)
	od := mkSelect(st.get(d), m)
	nd := mkStore(od, k, tFalse)
	x.write(st, d, m, nd)
	x.mapLenFacts(od)
	if nd != od {
		x.axiom(mkEq(mapLen(nd), mkIte(mkSelect(od, k), mkSub(mapLen(od), mkInt(1)), mapLen(od))))
	}
}

func (x *Exec) mapLength(st *State, m *Term, mt *types.Map) *Term {
	d, _ := x.mapArrs(mt)
	dom := mkSelect(st.get(d), m)
	x.mapLenFacts(dom)
	l := mapLen(dom)
	if mkEq(m, mkInt(0)) == tFalse {
		return l
	}
	return mkIte(mkEq(m, mkInt(0)), mkInt(0), l)
}

func (x *Exec) next(f *Frame, i *ssa.Next, st *State, reach *Term) Val {
	it, ok := x.val(f, i.Iter).(*IterV)
	if !ok {
		x.fail(i.Pos(), "next on %T", x.val(f, i.Iter))
	}
	okT := freshConst("next", SBool)
	if it.isStr {
		idx := freshConst("sidx", SInt)
		r := freshConst("srune", SInt)
		x.fact(mkImp(mkAnd(reach, okT), mkAnd(mkLe(mkInt(0), idx), mkLt(idx, mkStrOp("str.len", SInt, it.str)), mkLe(mkInt(0), r))))
		x.fact(mkImp(mkAnd(reach, okT), mkImp(mkLt(mkStrOp("str.byte", SInt, it.str, idx), mkInt(128)), mkEq(r, mkStrOp("str.byte", SInt, it.str, idx)))))
		x.w.nexts = append(x.w.nexts, &nextRec{it, okT, idx, i.Block(), i})
		return &TupleV{[]Val{okT, idx, r}}
	}
	key := withBound(freshConst("mkey", sortOf(it.mt.Key())))
	dom := x.mapDom(st, it.m, it.mt)
	x.fact(mkImp(mkAnd(reach, okT), mkSelect(dom, key)))
	if it.comp != "" {
		seen := st.getQ(it.comp)
		x.fact(mkImp(mkAnd(reach, okT), mkNot(mkSelect(seen, key))))
		x.log(it.comp, nil)
		st.set(it.comp, mkIte(okT, mkStore(seen, key, tTrue), seen))
		if !insertsInto(i.Parent(), it.mt) {
			// every entry that was there from the start was visited
			ph := freshConst("q", sortOf(it.mt.Key()))
			x.fact(mkImp(mkAnd(reach, mkNot(okT)), quantify(ph, func(*Term) *Term {
				return mkImp(mkAnd(mkSelect(it.domAt, ph), mkSelect(dom, ph)), mkSelect(seen, ph))
			})))
		}
	}
	_, v := x.mapArrs(it.mt)
	val := mkSelect(mkSelect(st.get(v), it.m), key)
	x.typeFacts(val, it.mt.Elem(), reach)
	x.typeFacts(key, it.mt.Key(), reach)
	x.w.nexts = append(x.w.nexts, &nextRec{it, okT, key, i.Block(), i})
	if fn := x.w.mapInv[i]; fn != nil {
		fn(key, okT, dom, reach)
	}
	return &TupleV{[]Val{okT, termToVal(key), termToVal(val)}}
}

// ---- slices

func (x *Exec) slice(f *Frame, i *ssa.Slice, st *State, reach *Term) Val {
	v := x.val(f, i.X)
	lo := mkInt(0)
	if i.Low != nil {
		lo = x.tval(f, i.Low)
	}
	chk := func(hi, mx *Term) {
		if x.spec > 0 {
			return
		}
		c := mkAnd(mkLe(mkInt(0), lo), mkLe(lo, hi), mkLe(hi, mx))
		if c != tTrue {
			x.panicOb(reach, c, i.Pos(), "slice bounds")
			x.fact(mkImp(reach, c))
		}
	}
	switch u := i.X.Type().Underlying().(type) {
	case *types.Basic: // string
		s := valToTerm(v)
		n := mkStrOp("str.len", SInt, s)
		hi := n
		if i.High != nil {
			hi = x.tval(f, i.High)
		}
		chk(hi, n)
		return x.substr(s, lo, mkSub(hi, lo))
	case *types.Slice:
		s := valToTerm(v)
		hi := slLen(s)
		if i.High != nil {
			hi = x.tval(f, i.High)
		}
		cp := slCap(s)
		mx := cp
		if i.Max != nil {
			mx = x.tval(f, i.Max)
		}
		if i.High == nil {
			chk(hi, hi)
		} else {
			chk(hi, mx)
		}
		return mkSlice(slBase(s), mkAdd(slOff(s), lo), mkSub(hi, lo), mkSub(mx, lo))
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		n := mkInt(at.Len())
		hi := n
		if i.High != nil {
			hi = x.tval(f, i.High)
		}
		chk(hi, n)
		switch a := v.(type) {
		case *Term:
			if termToVal(a) == Val(a) {
				x.nonNil(reach, a, i.Pos(), "array")
				return mkSlice(a, lo, mkSub(hi, lo), mkSub(n, lo))
			}
			v = termToVal(a)
		}
		// slice of an array inside another object: the content is copied
		x.assume["slicing an array held inside another object is modelled as a copy (writes through the slice do not reach the array)"] = true
		arr := x.load(st, v, u.Elem(), reach, i.Pos())
		s := x.makeSlice(st, at.Elem(), arr, n, n)
		return mkSlice(slBase(s), lo, mkSub(hi, lo), mkSub(n, lo))
	}
	x.fail(i.Pos(), "slice of %s", i.X.Type())
	return nil
}

// ---- channels

func (x *Exec) recv(st *State, ch *Term, et types.Type, reach *Term, i ssa.Instruction) Val {
	v := withBound(freshConst("recv", sortOf(et)))
	x.typeFacts(v, et, reach)
	if m := x.w.sends["recv|"+x.rootPkg+"|"+typeKey(et)]; m != nil && x.spec == 0 {
		_, s2, _ := x.runModel(m, []Val{ch, v}, st.clone(), reach, i.Pos())
		if _, sel := i.(*ssa.Select); sel {
			s2 = mergeStates([]*Term{reach, mkNot(reach)}, []*State{s2, st})
		}
		*st = *s2
	}
	return v
}

func (x *Exec) send(f *Frame, st *State, ch *Term, ct types.Type, v Val, reach, blockReach *Term, pos token.Pos) *State {
	if m := x.w.sendModel(x, ct.Underlying().(*types.Chan).Elem()); m != nil {
		s2 := st.clone()
		_, s3, _ := x.runModel(m, []Val{ch, v}, s2, reach, pos)
		if reach == blockReach {
			return s3
		}
		return mergeStates([]*Term{reach, mkNot(reach)}, []*State{s3, st})
	}
	return st
}

// insertsInto reports whether the function inserts into a map of the type.
func insertsInto(fn *ssa.Function, mt *types.Map) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if u, ok := in.(*ssa.MapUpdate); ok && types.Identical(u.Map.Type().Underlying(), mt) {
				return true
			}
		}
	}
	return false
}
