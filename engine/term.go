package main

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Terms are hash-consed. Sorts are SMT-LIB sort expressions; "Str" is the
// sort of Go strings (printed as String or as an uninterpreted sort).
type Sort string

const (
	SBool  Sort = "Bool"
	SInt   Sort = "Int"
	SStr   Sort = "Str"
	SAny   Sort = "Any"
	SReal  Sort = "Real"
	SSlice Sort = "Slice"
)

func arrSort(k, v Sort) Sort { return Sort("(Array " + string(k) + " " + string(v) + ")") }

// arrParts splits an array sort.
func arrParts(s Sort) (k, v Sort) {
	t := string(s)
	if !strings.HasPrefix(t, "(Array ") {
		panic("not an array sort: " + t)
	}
	t = t[len("(Array ") : len(t)-1]
	depth := 0
	for i := 0; i < len(t); i++ {
		switch t[i] {
		case '(':
			depth++
		case ')':
			depth--
		case ' ':
			if depth == 0 {
				return Sort(t[:i]), Sort(t[i+1:])
			}
		}
	}
	panic("bad array sort " + t)
}

const infBound = int64(1) << 60

type Term struct {
	op    string // see below
	name  string // const/uf/ctor/sel name, literal text
	args  []*Term
	sort  Sort
	id    int
	num   *big.Int // op == "int"
	bvars bool     // contains free bound variables
	bound int64    // exclusive upper bound (allocation counter) on references held in this term; infBound if unknown
	qd    int      // highest bound-variable index used by quantifiers inside
}

// ops:
//  const(name) int str true false not and or ite = + - * div mod < <=
//  select store uf(name) ctor(name) sel(name) bvar(name)
//  forall exists (args[0]=body, name="v:Sort;...") framed(old,new,[w...]) name=counter
//  str.len str.++ str.prefixof str.suffixof str.contains str.substr str.indexof str.byte str.<
//  alloc(num) fnlit(num) addrlit(num)

type TermDB struct {
	tab     map[string]*Term
	n       int
	selMemo map[[2]int]*Term
	dts     map[string]*Datatype
	dtOrder []string
	fresh   int
	alloc   int64
	nolog   bool
}

type Datatype struct {
	name   string
	fields []string // selector names
	sorts  []Sort
}

var db = &TermDB{tab: map[string]*Term{}, selMemo: map[[2]int]*Term{}, dts: map[string]*Datatype{}}

const allocBase = int64(1000000000)

func mk(op, name string, sort Sort, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(name)
	sb.WriteByte('|')
	sb.WriteString(string(sort))
	for _, a := range args {
		sb.WriteByte('|')
		sb.WriteString(strconv.Itoa(a.id))
	}
	k := sb.String()
	if t, ok := db.tab[k]; ok {
		return t
	}
	db.n++
	t := &Term{op: op, name: name, args: args, sort: sort, id: db.n, bound: infBound}
	for _, a := range args {
		if a.bvars {
			t.bvars = true
		}
		t.qd = max(t.qd, a.qd)
	}
	switch op {
	case "bvar":
		t.bvars = true
		fmt.Sscanf(name, "q%d_", &t.qd)
	case "int":
		t.num, _ = new(big.Int).SetString(name, 10)
		if t.num.Sign() == 0 {
			t.bound = 0
		}
	case "ite":
		t.bound = max(args[1].bound, args[2].bound)
	case "store":
		t.bound = max(args[0].bound, args[2].bound)
	case "select":
		t.bound = args[0].bound
	case "sel", "ctor":
		t.bound = 0
		for _, a := range args {
			t.bound = max(t.bound, a.bound)
		}
	case "framed":
		t.bound = max(args[0].bound, args[1].bound)
	case "alloc":
		n, _ := strconv.ParseInt(name, 10, 64)
		t.bound = n + 1
	case "true", "false", "fnlit", "addrlit", "str":
		t.bound = 0
	}
	if op == "forall" || op == "exists" {
		// closed unless the body has other bound variables
		t.bvars = freeBV(args[0], strings.Split(name, ";"))
	}
	db.tab[k] = t
	return t
}

func bvNames(decl []string) map[string]bool {
	m := map[string]bool{}
	for _, d := range decl {
		m[d[:strings.Index(d, ":")]] = true
	}
	return m
}

func freeBV(t *Term, decl []string) bool {
	bound := bvNames(decl)
	seen := map[int]bool{}
	var f func(t *Term) bool
	f = func(t *Term) bool {
		if !t.bvars || seen[t.id] {
			return false
		}
		seen[t.id] = true
		if t.op == "bvar" {
			return !bound[t.name]
		}
		if t.op == "forall" || t.op == "exists" {
			// conservative: inner binders use distinct names
			inner := bvNames(strings.Split(t.name, ";"))
			for n := range inner {
				if !bound[n] {
					bound[n] = true
					defer delete(bound, n)
				}
			}
			return f(t.args[0])
		}
		for _, a := range t.args {
			if f(a) {
				return true
			}
		}
		return false
	}
	return f(t)
}

var (
	tTrue  = mk("true", "", SBool)
	tFalse = mk("false", "", SBool)
)

func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}
func mkInt(n int64) *Term            { return mk("int", strconv.FormatInt(n, 10), SInt) }
func mkBig(n *big.Int) *Term         { return mk("int", n.String(), SInt) }
func mkStr(s string) *Term           { return mk("str", s, SStr) }
func mkConst(n string, s Sort) *Term { return mk("const", n, s) }

func freshConst(hint string, s Sort) *Term {
	db.fresh++
	t := mk("const", fmt.Sprintf("%s!%d", sanitize(hint), db.fresh), s)
	return t
}

// newRef returns a fresh allocated reference.
func newRef() *Term {
	db.alloc++
	return mk("alloc", strconv.FormatInt(db.alloc, 10), SInt)
}

// withBound marks a fresh constant as only holding references allocated so far.
func withBound(t *Term) *Term {
	t.bound = db.alloc + 1
	return t
}

func sanitize(s string) string {
	var sb strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' || r == '!' {
			sb.WriteRune(r)
		} else {
			sb.WriteByte('_')
		}
	}
	return sb.String()
}

func isLit(t *Term) bool {
	switch t.op {
	case "int", "str", "true", "false", "alloc", "fnlit", "addrlit":
		return true
	}
	return false
}

func mkNot(a *Term) *Term {
	switch a.op {
	case "true":
		return tFalse
	case "false":
		return tTrue
	case "not":
		return a.args[0]
	}
	return mk("not", "", SBool, a)
}

func mkAnd(as ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a.op == "and" {
			for _, x := range a.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if a == tTrue || seen[a.id] {
			return true
		}
		if a == tFalse || seen[mkNot(a).id] {
			return false
		}
		seen[a.id] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return tFalse
		}
	}
	// unit simplification: drop/or-simplify disjunctions containing known literals
	changed := false
	for i, a := range out {
		if a.op == "or" {
			var keep []*Term
			sat := false
			for _, d := range a.args {
				if seen[d.id] {
					sat = true
					break
				}
				if seen[mkNot(d).id] {
					continue
				}
				keep = append(keep, d)
			}
			if sat {
				out[i] = tTrue
				changed = true
			} else if len(keep) < len(a.args) {
				out[i] = mkOr(keep...)
				changed = true
			}
		}
	}
	if changed {
		return mkAnd(out...)
	}
	switch len(out) {
	case 0:
		return tTrue
	case 1:
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return mk("and", "", SBool, out...)
}

func conjuncts(a *Term) []*Term {
	if a.op == "and" {
		return a.args
	}
	if a == tTrue {
		return nil
	}
	return []*Term{a}
}

func mkOr(as ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a.op == "or" {
			for _, x := range a.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if a == tFalse || seen[a.id] {
			return true
		}
		if a == tTrue || seen[mkNot(a).id] {
			return false
		}
		seen[a.id] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return tTrue
		}
	}
	// resolution: factor the common conjuncts of all disjuncts
	for again := true; again; {
		again = false
	outer:
		for i := 0; i < len(out); i++ {
			for j := i + 1; j < len(out); j++ {
				if m := mergeOr(out[i], out[j]); m != nil {
					rest := append([]*Term{}, out[:i]...)
					rest = append(rest, out[i+1:j]...)
					rest = append(rest, out[j+1:]...)
					if m.op == "or" {
						rest = append(rest, m.args...)
					} else {
						rest = append(rest, m)
					}
					out = rest
					again = true
					break outer
				}
			}
		}
		if len(out) == 1 && out[0] == tTrue {
			return tTrue
		}
	}
	if len(out) > 1 {
		// factor common
		common := map[int]*Term{}
		for _, c := range conjuncts(out[0]) {
			common[c.id] = c
		}
		for _, o := range out[1:] {
			have := map[int]bool{}
			for _, c := range conjuncts(o) {
				have[c.id] = true
			}
			for id := range common {
				if !have[id] {
					delete(common, id)
				}
			}
		}
		if len(common) > 0 {
			var cs []*Term
			for _, c := range common {
				cs = append(cs, c)
			}
			sort.Slice(cs, func(i, j int) bool { return cs[i].id < cs[j].id })
			var ds []*Term
			for _, o := range out {
				var r []*Term
				for _, c := range conjuncts(o) {
					if common[c.id] == nil {
						r = append(r, c)
					}
				}
				ds = append(ds, mkAnd(r...))
			}
			return mkAnd(append(cs, mkOr(ds...))...)
		}
	}
	switch len(out) {
	case 0:
		return tFalse
	case 1:
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	// dedupe again after merging
	res := out[:1]
	for _, o := range out[1:] {
		if o != res[len(res)-1] {
			res = append(res, o)
		}
	}
	if len(res) == 1 {
		return res[0]
	}
	return mk("or", "", SBool, res...)
}

// mergeOr simplifies (A∧c)∨(A∧¬c) to A, and (A∧c∧...)∨A to A, and
// (A∧c)∨(A∧¬c∧R) to A∧(c∨R) is left alone. Returns nil when nothing applies.
func mergeOr(a, b *Term) *Term {
	ca, cb := conjuncts(a), conjuncts(b)
	ma := map[int]bool{}
	for _, c := range ca {
		ma[c.id] = true
	}
	mb := map[int]bool{}
	for _, c := range cb {
		mb[c.id] = true
	}
	var onlyA, onlyB []*Term
	for _, c := range ca {
		if !mb[c.id] {
			onlyA = append(onlyA, c)
		}
	}
	for _, c := range cb {
		if !ma[c.id] {
			onlyB = append(onlyB, c)
		}
	}
	if len(onlyA) == 0 {
		return a
	}
	if len(onlyB) == 0 {
		return b
	}
	common := func() []*Term {
		var r []*Term
		for _, c := range ca {
			if mb[c.id] {
				r = append(r, c)
			}
		}
		return r
	}
	if len(onlyA) == 1 && len(onlyB) == 1 && mkNot(onlyA[0]) == onlyB[0] {
		return mkAnd(common()...)
	}
	// A∧c ∨ A∧¬c∧R == A∧c ∨ A∧R
	if len(onlyA) == 1 {
		n := mkNot(onlyA[0])
		for k, c := range onlyB {
			if c == n {
				r := append([]*Term{}, onlyB[:k]...)
				r = append(r, onlyB[k+1:]...)
				cm := common()
				if len(cm) == 0 {
					return mkOrRaw(onlyA[0], mkAnd(r...))
				}
				return mkAnd(append(cm, mkOrRaw(onlyA[0], mkAnd(r...)))...)
			}
		}
	}
	if len(onlyB) == 1 {
		n := mkNot(onlyB[0])
		for k, c := range onlyA {
			if c == n {
				r := append([]*Term{}, onlyA[:k]...)
				r = append(r, onlyA[k+1:]...)
				cm := common()
				if len(cm) == 0 {
					return mkOrRaw(onlyB[0], mkAnd(r...))
				}
				return mkAnd(append(cm, mkOrRaw(onlyB[0], mkAnd(r...)))...)
			}
		}
	}
	// complementary disjunctive parts: ¬(x∨y) is an "and" of negations; covered by conjuncts
	if len(onlyA) > 1 && len(onlyB) == 1 && onlyB[0].op == "or" {
		if mkNot(mkAnd(onlyA...)) == onlyB[0] || sameSet(negAll(onlyA), onlyB[0].args) {
			return mkAnd(common()...)
		}
	}
	if len(onlyB) > 1 && len(onlyA) == 1 && onlyA[0].op == "or" {
		if sameSet(negAll(onlyB), onlyA[0].args) {
			return mkAnd(common()...)
		}
	}
	return nil
}

func negAll(a []*Term) []*Term {
	r := make([]*Term, len(a))
	for i, x := range a {
		r[i] = mkNot(x)
	}
	return r
}

func sameSet(a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	m := map[int]bool{}
	for _, x := range a {
		m[x.id] = true
	}
	for _, x := range b {
		if !m[x.id] {
			return false
		}
	}
	return true
}

func mkOrRaw(a, b *Term) *Term {
	return mkOr(a, b)
}

func mkImp(a, b *Term) *Term { return mkOr(mkNot(a), b) }

func mkIte(c, a, b *Term) *Term {
	if c == tTrue {
		return a
	}
	if c == tFalse {
		return b
	}
	if a == b {
		return a
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("ite sorts differ: %s %s\n%s\n%s", a.sort, b.sort, a, b))
	}
	if c.op == "not" {
		return mkIte(c.args[0], b, a)
	}
	if a.sort == SBool {
		switch {
		case a == tTrue:
			return mkOr(c, b)
		case a == tFalse:
			return mkAnd(mkNot(c), b)
		case b == tTrue:
			return mkOr(mkNot(c), a)
		case b == tFalse:
			return mkAnd(c, a)
		}
	}
	if a.op == "ite" && a.args[0] == c {
		a = a.args[1]
	}
	if b.op == "ite" && b.args[0] == c {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	// ite(c, x, ite(d, x, y)) -> ite(c or d, x, y)
	if b.op == "ite" && b.args[1] == a {
		return mkIte(mkOr(c, b.args[0]), a, b.args[2])
	}
	if a.op == "ctor" && b.op == "ctor" && a.name == b.name && len(a.args) > 0 {
		args := make([]*Term, len(a.args))
		for i := range args {
			args[i] = mkIte(c, a.args[i], b.args[i])
		}
		return mkCtor(a.name, a.sort, args...)
	}
	return mk("ite", "", a.sort, c, a, b)
}

// distinctRefs reports whether two Int terms are known to be different.
func knownDistinct(a, b *Term) bool {
	if a == b {
		return false
	}
	if a.op == "int" && b.op == "int" {
		return true
	}
	la, lb := litRef(a), litRef(b)
	if la && lb && !(a.op == "addrlit" && b.op == "addrlit") {
		return true
	}
	if a.op == "alloc" {
		n, _ := strconv.ParseInt(a.name, 10, 64)
		if b.bound <= n {
			return true
		}
	}
	if b.op == "alloc" {
		n, _ := strconv.ParseInt(b.name, 10, 64)
		if a.bound <= n {
			return true
		}
	}
	if a.op == "str" && b.op == "str" {
		return true
	}
	if a.op == "ctor" && b.op == "ctor" {
		if a.name != b.name {
			return a.sort == b.sort
		}
		for i := range a.args {
			if knownDistinct(a.args[i], b.args[i]) {
				return true
			}
		}
	}
	// x + c vs x
	if a.sort == SInt && b.sort == SInt {
		ba, ca := splitConst(a)
		bb, cb := splitConst(b)
		if ba == bb && ca.Cmp(cb) != 0 {
			return true
		}
	}
	return false
}

func litRef(t *Term) bool {
	switch t.op {
	case "alloc", "fnlit", "addrlit":
		return true
	case "int":
		return t.num.CmpAbs(big.NewInt(allocBase/2)) < 0
	}
	return false
}

// distinctLeaf: one of the values that t chooses from is an object that a
// cannot refer to.
func distinctLeaf(a, t *Term, depth int) bool {
	if t.op == "ite" && depth > 0 {
		return distinctLeaf(a, t.args[1], depth-1) || distinctLeaf(a, t.args[2], depth-1)
	}
	return t.op == "alloc" && knownDistinct(a, t)
}

func mkEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("eq sorts differ: %s vs %s: %s, %s", a.sort, b.sort, a, b))
	}
	if knownDistinct(a, b) {
		return tFalse
	}
	if a.op == "addrlit" && b.op == "addrlit" {
		if c := addrEq(termToVal(a), termToVal(b)); c != nil {
			return c
		}
	}
	if a.sort == SInt && (a.op == "+" || b.op == "+") {
		if d := mkSub(a, b); d.op == "int" {
			return mkBool(d.num.Sign() == 0)
		}
	}
	if a.sort == SBool {
		switch {
		case a == tTrue:
			return b
		case b == tTrue:
			return a
		case a == tFalse:
			return mkNot(b)
		case b == tFalse:
			return mkNot(a)
		case mkNot(a) == b:
			return tFalse
		}
	}
	if a.op == "ctor" && b.op == "ctor" && a.name == b.name {
		var cs []*Term
		for i := range a.args {
			cs = append(cs, mkEq(a.args[i], b.args[i]))
		}
		return mkAnd(cs...)
	}
	// push equality with a literal into ite with literal branches
	if (isLit(b) || b.op == "uf0") && a.op == "ite" {
		l, r := mkEq(a.args[1], b), mkEq(a.args[2], b)
		if l == tTrue || l == tFalse || r == tTrue || r == tFalse {
			return mkIte(a.args[0], l, r)
		}
	}
	if (isLit(a) || a.op == "uf0") && b.op == "ite" {
		return mkEq(b, a)
	}
	// a reference against one of several objects, some made by this function
	if a.sort == SInt {
		if b.op == "ite" && distinctLeaf(a, b, 3) {
			return mkIte(b.args[0], mkEq(b.args[1], a), mkEq(b.args[2], a))
		}
		if a.op == "ite" && distinctLeaf(b, a, 3) {
			return mkIte(a.args[0], mkEq(a.args[1], b), mkEq(a.args[2], b))
		}
	}
	if b.op == "ite" && (b.args[1] == a || b.args[2] == a) {
		return mkIte(b.args[0], mkEq(b.args[1], a), mkEq(b.args[2], a))
	}
	if a.op == "ite" && (a.args[1] == b || a.args[2] == b) {
		return mkIte(a.args[0], mkEq(a.args[1], b), mkEq(a.args[2], b))
	}
	// box injectivity / nil
	if a.op == "uf" && b.op == "uf" && strings.HasPrefix(a.name, "box.") && strings.HasPrefix(b.name, "box.") {
		if a.name != b.name {
			return tFalse
		}
		return mkEq(a.args[0], b.args[0])
	}
	if isNilAny(a) && b.op == "uf" && strings.HasPrefix(b.name, "box.") || isNilAny(b) && a.op == "uf" && strings.HasPrefix(a.name, "box.") {
		return tFalse
	}
	if isNilAny(b) && a.op == "ite" || isNilAny(a) && b.op == "ite" {
		if isNilAny(a) {
			a, b = b, a
		}
		l, r := mkEq(a.args[1], b), mkEq(a.args[2], b)
		return mkIte(a.args[0], l, r)
	}
	if a.sort == SStr {
		if b.op == "str" && b.name == "" {
			if a.op == "str.++" {
				var cs []*Term
				for _, x := range a.args {
					cs = append(cs, mkEq(x, b))
				}
				return mkAnd(cs...)
			}
		} else if a.op == "str" && a.name == "" {
			return mkEq(b, a)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("=", "", SBool, a, b)
}

var nilAnyT = mk("const", "nilAny", SAny)

func init() { nilAnyT.bound = 0 }

func isNilAny(t *Term) bool { return t == nilAnyT }

func splitConst(t *Term) (*Term, *big.Int) {
	if t.op == "int" {
		return nil, t.num
	}
	if t.op == "+" && len(t.args) == 2 && t.args[1].op == "int" {
		return t.args[0], t.args[1].num
	}
	return t, new(big.Int)
}

// linear splits an integer term into a sum of coefficient * atom plus a constant.
func linear(t *Term, k *big.Int, m map[*Term]*big.Int, c *big.Int) {
	switch t.op {
	case "int":
		c.Add(c, new(big.Int).Mul(k, t.num))
		return
	case "+":
		for _, a := range t.args {
			linear(a, k, m, c)
		}
		return
	case "*":
		if t.args[1].op == "int" {
			linear(t.args[0], new(big.Int).Mul(k, t.args[1].num), m, c)
			return
		}
	}
	o := m[t]
	if o == nil {
		o = new(big.Int)
		m[t] = o
	}
	o.Add(o, k)
}

var one1 = big.NewInt(1)

func fromLinear(m map[*Term]*big.Int, c *big.Int) *Term {
	var ts []*Term
	for t, k := range m {
		if k.Sign() != 0 {
			ts = append(ts, t)
		}
	}
	if len(ts) == 0 {
		return mkBig(c)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	for i, t := range ts {
		if k := m[t]; k.Cmp(one1) != 0 {
			ts[i] = mk("*", "", SInt, t, mkBig(k))
		}
	}
	base := ts[0]
	if len(ts) > 1 {
		base = mk("+", "", SInt, ts...)
	}
	if c.Sign() == 0 {
		return base
	}
	return mk("+", "", SInt, base, mkBig(c))
}

func mkAdd(a, b *Term) *Term {
	if a.sort != SInt {
		return mk("+", "", a.sort, a, b)
	}
	if a.op == "int" && b.op == "int" {
		return mkBig(new(big.Int).Add(a.num, b.num))
	}
	m, c := map[*Term]*big.Int{}, new(big.Int)
	linear(a, one1, m, c)
	linear(b, one1, m, c)
	return fromLinear(m, c)
}

func mkSub(a, b *Term) *Term {
	if a.sort != SInt {
		return mk("-", "", a.sort, a, b)
	}
	if a == b {
		return mkInt(0)
	}
	m, c := map[*Term]*big.Int{}, new(big.Int)
	linear(a, one1, m, c)
	linear(b, big.NewInt(-1), m, c)
	return fromLinear(m, c)
}

func mkMul(a, b *Term) *Term {
	if a.op == "int" {
		a, b = b, a
	}
	if a.sort == SInt && b.op == "int" {
		m, c := map[*Term]*big.Int{}, new(big.Int)
		linear(a, b.num, m, c)
		return fromLinear(m, c)
	}
	if a.sort == SInt && a.id > b.id {
		a, b = b, a
	}
	return mk("*", "", a.sort, a, b)
}

func mkLt(a, b *Term) *Term {
	if a.op == "int" && b.op == "int" {
		return mkBool(a.num.Cmp(b.num) < 0)
	}
	if a == b {
		return tFalse
	}
	if a.sort == SInt {
		if d := mkSub(b, a); d.op == "int" {
			return mkBool(d.num.Sign() > 0)
		}
	}
	return mk("<", "", SBool, a, b)
}
func mkLe(a, b *Term) *Term { return mkNot(mkLt(b, a)) }

func mkUF(name string, s Sort, args ...*Term) *Term {
	if len(args) == 0 {
		return mkConst(name, s)
	}
	if strings.HasPrefix(name, "unbox.") && args[0].op == "uf" && args[0].name == "box."+name[6:] {
		return args[0].args[0]
	}
	if strings.HasPrefix(name, "unbox.") && args[0].op == "ite" {
		a := args[0]
		l, r := mkUF(name, s, a.args[1]), mkUF(name, s, a.args[2])
		if l.op != "uf" || r.op != "uf" {
			return mkIte(a.args[0], l, r)
		}
	}
	t := mk("uf", name, s, args...)
	if strings.HasPrefix(name, "box.") || strings.HasPrefix(name, "unbox.") {
		t.bound = args[0].bound
	}
	return t
}

func mkCtor(name string, s Sort, args ...*Term) *Term {
	// eta: ctor(sel0(x), sel1(x), ...) = x
	if len(args) > 0 && args[0].op == "sel" {
		x := args[0].args[0]
		dt := db.dts[name]
		ok := x.sort == s
		if ok {
			for i, a := range args {
				if a.op != "sel" || a.args[0] != x || a.name != dt.fields[i] {
					ok = false
					break
				}
			}
		}
		if ok {
			return x
		}
	}
	return mk("ctor", name, s, args...)
}

func mkSel(dtname string, i int, x *Term) *Term {
	dt := db.dts[dtname]
	if x.op == "ctor" {
		return x.args[i]
	}
	if x.op == "ite" {
		return mkIte(x.args[0], mkSel(dtname, i, x.args[1]), mkSel(dtname, i, x.args[2]))
	}
	t := mk("sel", dt.fields[i], dt.sorts[i], x)
	t.bound = x.bound
	return t
}

func declDT(name string, fields []string, sorts []Sort) {
	if db.dts[name] != nil {
		return
	}
	db.dts[name] = &Datatype{name, fields, sorts}
	db.dtOrder = append(db.dtOrder, name)
}

func init() {
	declDT("Slice", []string{"sl.base", "sl.off", "sl.len", "sl.cap"}, []Sort{SInt, SInt, SInt, SInt})
}

func mkSlice(base, off, ln, cp *Term) *Term { return mkCtor("Slice", SSlice, base, off, ln, cp) }
func slBase(s *Term) *Term                  { return mkSel("Slice", 0, s) }
func slOff(s *Term) *Term                   { return mkSel("Slice", 1, s) }
func slLen(s *Term) *Term                   { return mkSel("Slice", 2, s) }
func slCap(s *Term) *Term                   { return mkSel("Slice", 3, s) }

func mkSelect(a, i *Term) *Term {
	key := [2]int{a.id, i.id}
	if t, ok := db.selMemo[key]; ok {
		return t
	}
	t := mkSelect1(a, i)
	db.selMemo[key] = t
	return t
}

func mkSelect1(a, i *Term) *Term {
	switch a.op {
	case "store":
		if a.args[1] == i {
			return a.args[2]
		}
		if knownDistinct(a.args[1], i) {
			return mkSelect(a.args[0], i)
		}
		return mkIte(mkEq(a.args[1], i), a.args[2], mkSelect(a.args[0], i))
	case "ite":
		return mkIte(a.args[0], mkSelect(a.args[1], i), mkSelect(a.args[2], i))
	case "constarray":
		return a.args[0]
	case "framed":
		n, _ := strconv.ParseInt(a.name, 10, 64)
		var cs []*Term
		for _, w := range a.args[2:] {
			cs = append(cs, mkEq(w, i))
		}
		if i.bound <= n+1 {
		} else if i.op == "alloc" {
			cs = append(cs, tTrue)
		} else {
			cs = append(cs, mkLe(mkInt(allocBase+n+1), i))
		}
		return mkIte(mkOr(cs...), mkSelect(a.args[1], i), mkSelect(a.args[0], i))
	}
	if a.op == "uf" && a.name == "bytesOf" {
		return mkStrOp("str.byte", SInt, a.args[0], i)
	}
	_, v := arrParts(a.sort)
	if i.op == "ite" && (litRef(i.args[1]) || litRef(i.args[2])) && (a.op == "const") {
		return mkIte(i.args[0], mkSelect(a, i.args[1]), mkSelect(a, i.args[2]))
	}
	return mk("select", "", v, a, i)
}

func mkStore(a, i, v *Term) *Term {
	if a.op == "store" && a.args[1] == i {
		a = a.args[0]
	}
	if v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	return mk("store", "", a.sort, a, i, v)
}

func mkConstArray(s Sort, v *Term) *Term {
	t := mk("constarray", "", s, v)
	t.bound = v.bound
	return t
}

// mkFramed is an array equal to old except at the references in w and at
// references allocated after counter value n, where it equals nw.
func mkFramed(old, nw *Term, n int64, w []*Term) *Term {
	return mk("framed", strconv.FormatInt(n, 10), old.sort, append([]*Term{old, nw}, w...)...)
}

func mkQuant(kind string, vars []*Term, body *Term) *Term {
	if body == tTrue || body == tFalse {
		return body
	}
	if !body.bvars {
		return body // all our quantified domains are non-empty; guards are inside the body
	}
	var ds []string
	for _, v := range vars {
		ds = append(ds, v.name+":"+string(v.sort))
	}
	return mk(kind, strings.Join(ds, ";"), SBool, body)
}

func mkForall(vars []*Term, body *Term) *Term {
	if body.op == "and" {
		var cs []*Term
		for _, c := range body.args {
			cs = append(cs, mkForall(vars, c))
		}
		return mkAnd(cs...)
	}
	return mkNot(mkExists(vars, mkNot(body)))
}

func mkExists(vars []*Term, body *Term) *Term {
	if !body.bvars {
		// "exists i. guard(i) && c" always keeps guard; a body without bound vars is just itself
		return body
	}
	return mkQuant("exists", vars, body)
}

func mkBV(depth int, s Sort) *Term {
	return mk("bvar", fmt.Sprintf("q%d_%s", depth, sanitize(string(s))), s)
}

// ---- strings

func mkStrOp(op string, s Sort, args ...*Term) *Term {
	allLit := true
	for _, a := range args {
		if a.op != "str" && a.op != "int" {
			allLit = false
		}
	}
	switch op {
	case "str.len":
		if allLit {
			return mkInt(int64(len(args[0].name)))
		}
		if args[0].op == "str.++" {
			r := mkInt(0)
			for _, a := range args[0].args {
				r = mkAdd(r, mkStrOp("str.len", SInt, a))
			}
			return r
		}
		if args[0].op == "ite" {
			a := args[0]
			return mkIte(a.args[0], mkStrOp(op, s, a.args[1]), mkStrOp(op, s, a.args[2]))
		}
	case "str.++":
		var out []*Term
		for _, a := range args {
			if a.op == "str.++" {
				out = append(out, a.args...)
			} else {
				out = append(out, a)
			}
		}
		var o2 []*Term
		for _, a := range out {
			if a.op == "str" {
				if a.name == "" {
					continue
				}
				if n := len(o2); n > 0 && o2[n-1].op == "str" {
					o2[n-1] = mkStr(o2[n-1].name + a.name)
					continue
				}
			}
			o2 = append(o2, a)
		}
		if len(o2) == 0 {
			return mkStr("")
		}
		if len(o2) == 1 {
			return o2[0]
		}
		return mk("str.++", "", SStr, o2...)
	case "str.prefixof":
		if allLit {
			return mkBool(strings.HasPrefix(args[1].name, args[0].name))
		}
		if args[0].op == "str" && args[0].name == "" || args[0] == args[1] {
			return tTrue
		}
		if args[1].op == "str.++" && args[1].args[0] == args[0] {
			return tTrue
		}
		if args[0].op == "str" && args[1].op == "str.++" && args[1].args[0].op == "str" {
			l := args[1].args[0].name
			if strings.HasPrefix(l, args[0].name) {
				return tTrue
			}
			if !strings.HasPrefix(args[0].name, l) {
				return tFalse
			}
		}
	case "str.suffixof":
		if allLit {
			return mkBool(strings.HasSuffix(args[1].name, args[0].name))
		}
		if args[0].op == "str" && args[0].name == "" || args[0] == args[1] {
			return tTrue
		}
		if args[1].op == "str.++" && args[0].op == "str" {
			last := args[1].args[len(args[1].args)-1]
			if last.op == "str" {
				if strings.HasSuffix(last.name, args[0].name) {
					return tTrue
				}
				if !strings.HasSuffix(args[0].name, last.name) {
					return tFalse
				}
			}
		}
	case "str.contains": // contains(s, sub)
		if allLit {
			return mkBool(strings.Contains(args[0].name, args[1].name))
		}
	case "str.substr": // (s, off, len)
		if allLit && args[0].op == "str" && args[1].op == "int" && args[2].op == "int" {
			o, l := int(args[1].num.Int64()), int(args[2].num.Int64())
			if o >= 0 && l >= 0 && o+l <= len(args[0].name) {
				return mkStr(args[0].name[o : o+l])
			}
		}
		if args[1].op == "int" && args[1].num.Sign() == 0 && args[2].op == "str.len" && args[2].args[0] == args[0] {
			return args[0]
		}
	case "str.indexof":
		if allLit {
			return mkInt(int64(strings.Index(args[0].name, args[1].name)))
		}
	case "str.byte":
		if allLit {
			i := args[1].num.Int64()
			if i >= 0 && i < int64(len(args[0].name)) {
				return mkInt(int64(args[0].name[i]))
			}
		}
		if args[0].op == "uf" && args[0].name == "strOf" {
			return mkSelect(args[0].args[0], mkAdd(args[0].args[1], args[1]))
		}
		if args[0].op == "ite" {
			a := args[0]
			return mkIte(a.args[0], mkStrOp(op, s, a.args[1], args[1]), mkStrOp(op, s, a.args[2], args[1]))
		}
	case "str.<":
		if allLit {
			return mkBool(args[0].name < args[1].name)
		}
		if args[0] == args[1] {
			return tFalse
		}
	}
	return mk(op, "", s, args...)
}

// ---- substitution

func subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	return substMemo(t, m, memo)
}

func substMemo(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	args := make([]*Term, len(t.args))
	ch := false
	for i, a := range t.args {
		args[i] = substMemo(a, m, memo)
		if args[i] != a {
			ch = true
		}
	}
	r := t
	if ch {
		r = rebuild(t, args)
	}
	memo[t] = r
	return r
}

func rebuild(t *Term, args []*Term) *Term {
	switch t.op {
	case "not":
		return mkNot(args[0])
	case "and":
		return mkAnd(args...)
	case "or":
		return mkOr(args...)
	case "ite":
		return mkIte(args[0], args[1], args[2])
	case "=":
		return mkEq(args[0], args[1])
	case "+":
		if t.sort == SInt {
			m, c := map[*Term]*big.Int{}, new(big.Int)
			for _, a := range args {
				linear(a, one1, m, c)
			}
			return fromLinear(m, c)
		}
		return mkAdd(args[0], args[1])
	case "-":
		return mkSub(args[0], args[1])
	case "*":
		return mkMul(args[0], args[1])
	case "div":
		return mkDiv(args[0], args[1])
	case "mod":
		return mkMod(args[0], args[1])
	case "<":
		return mkLt(args[0], args[1])
	case "select":
		return mkSelect(args[0], args[1])
	case "store":
		return mkStore(args[0], args[1], args[2])
	case "constarray":
		return mkConstArray(t.sort, args[0])
	case "framed":
		n, _ := strconv.ParseInt(t.name, 10, 64)
		return mkFramed(args[0], args[1], n, args[2:])
	case "uf":
		return mkUF(t.name, t.sort, args...)
	case "ctor":
		return mkCtor(t.name, t.sort, args...)
	case "sel":
		if args[0].op == "ctor" || args[0].op == "ite" {
			dt := db.dts[dtOfSel(t.name)]
			for i, f := range dt.fields {
				if f == t.name {
					return mkSel(dt.name, i, args[0])
				}
			}
		}
		r := mk("sel", t.name, t.sort, args[0])
		r.bound = args[0].bound
		return r
	case "forall", "exists":
		if args[0] == tTrue || args[0] == tFalse {
			return args[0]
		}
		return mk(t.op, t.name, SBool, args[0])
	}
	if strings.HasPrefix(t.op, "str.") {
		return mkStrOp(t.op, t.sort, args...)
	}
	return mk(t.op, t.name, t.sort, args...)
}

var selOwner = map[string]string{}

func dtOfSel(sel string) string {
	if d, ok := selOwner[sel]; ok {
		return d
	}
	for n, d := range db.dts {
		for _, f := range d.fields {
			selOwner[f] = n
		}
	}
	return selOwner[sel]
}

// consts collects the constants in t accepted by f.
func collect(t *Term, f func(*Term) bool, out map[*Term]bool, seen map[*Term]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	if f(t) {
		out[t] = true
	}
	for _, a := range t.args {
		collect(a, f, out, seen)
	}
}

func (t *Term) String() string {
	return t.str(0)
}
func (t *Term) str(d int) string {
	if d > 8 {
		return "..."
	}
	switch t.op {
	case "const", "bvar", "int":
		return t.name
	case "str":
		return strconv.Quote(t.name)
	case "true", "false":
		return t.op
	case "alloc", "fnlit", "addrlit":
		return t.op + "#" + t.name
	}
	var sb strings.Builder
	n := t.op
	if t.op == "uf" || t.op == "ctor" || t.op == "sel" {
		n = t.name
	} else if t.op == "forall" || t.op == "exists" {
		n = t.op + "[" + t.name + "]"
	}
	sb.WriteString("(" + n)
	for _, a := range t.args {
		sb.WriteString(" " + a.str(d+1))
	}
	sb.WriteString(")")
	return sb.String()
}
