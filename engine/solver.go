package main

import (
	"context"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// ---- SMT-LIB printing

type printer struct {
	native     bool // native strings
	decls      map[string]string
	declO      []string
	dts        map[string]bool
	uses       map[*Term]int
	names      map[*Term]string
	out        strings.Builder
	lits       map[string]bool
	boxes      map[string]bool
	impls      map[string]bool
	lens       map[*Term]bool
	cats       map[*Term]bool
	preds      map[*Term]bool
	sorts      map[Sort]bool
	addr       map[string]bool
	framedDone map[*Term]bool
	hasQ       bool
	hasStr     bool
}

func (p *printer) sort(s Sort) string {
	t := string(s)
	if strings.HasPrefix(t, "(Array ") {
		k, v := arrParts(s)
		return "(Array " + p.sort(k) + " " + p.sort(v) + ")"
	}
	if s == SStr {
		if p.native {
			return "String"
		}
		return "Str"
	}
	return quoteSym(t)
}

func quoteSym(s string) string {
	switch s {
	case "Int", "Bool", "Real", "String", "Str", "Any", "Slice":
		return s
	}
	for _, r := range s {
		if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' || r == '!' || r == '$') {
			return "|" + strings.NewReplacer("|", "!", "\\", "/").Replace(s) + "|"
		}
	}
	if s[0] >= '0' && s[0] <= '9' {
		return "|" + s + "|"
	}
	return s
}

func (p *printer) decl(name, text string) {
	if _, ok := p.decls[name]; !ok {
		p.decls[name] = text
		p.declO = append(p.declO, name)
	}
}

func smtStr(s string) string {
	var sb strings.Builder
	sb.WriteByte('"')
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '"':
			sb.WriteString(`""`)
		case c == '\\' || c < 32 || c > 126:
			fmt.Fprintf(&sb, "\\u{%x}", c)
		default:
			sb.WriteByte(c)
		}
	}
	sb.WriteByte('"')
	return sb.String()
}

func (p *printer) useSort(s Sort) {
	if p.sorts[s] {
		return
	}
	p.sorts[s] = true
	if strings.HasPrefix(string(s), "(Array ") {
		k, v := arrParts(s)
		p.useSort(k)
		p.useSort(v)
		return
	}
	if dt := db.dts[string(s)]; dt != nil {
		for _, f := range dt.sorts {
			p.useSort(f)
		}
	}
}

func (p *printer) count(t *Term) {
	p.uses[t]++
	if p.uses[t] > 1 {
		return
	}
	p.useSort(t.sort)
	for _, a := range t.args {
		p.count(a)
	}
	switch t.op {
	case "const":
		p.decl("c:"+t.name, fmt.Sprintf("(declare-const %s %s)", quoteSym(t.name), p.sort(t.sort)))
	case "real":
		p.decl("r:"+t.name, fmt.Sprintf("(declare-const |real.%s| Real)", t.name))
	case "str":
		p.lits[t.name] = true
		p.useSort(SStr)
	case "addrlit":
		p.addr[t.name] = true
	case "uf":
		p.declUF(t.name, t.sort, t.args)
		if strings.HasPrefix(t.name, "box.") {
			p.boxes[t.name] = true
		}
		if strings.HasPrefix(t.name, "impl.") {
			p.impls[t.name] = true
		}
	case "forall", "exists":
		p.hasQ = true
		for _, d := range strings.Split(t.name, ";") {
			p.useSort(Sort(d[strings.Index(d, ":")+1:]))
		}
	}
	if strings.HasPrefix(t.op, "str.") {
		p.hasStr = true
		if t.op == "str.len" && !t.bvars {
			p.lens[t] = true
		}
		if t.op == "str.++" && !t.bvars {
			p.cats[t] = true
		}
		if !t.bvars && (t.op == "str.prefixof" || t.op == "str.suffixof" || t.op == "str.contains") {
			p.preds[t] = true
		}
	}
}

func (p *printer) declUF(name string, s Sort, args []*Term) {
	if _, ok := p.decls["u:"+name]; ok {
		return
	}
	var as []string
	for _, a := range args {
		p.useSort(a.sort)
		as = append(as, p.sort(a.sort))
	}
	p.useSort(s)
	p.decl("u:"+name, fmt.Sprintf("(declare-fun %s (%s) %s)", quoteSym(name), strings.Join(as, " "), p.sort(s)))
}

func (p *printer) ref(t *Term, local map[*Term]string) string {
	if n, ok := p.names[t]; ok {
		return n
	}
	if n, ok := local[t]; ok {
		return n
	}
	s := p.expr(t, local)
	if !t.bvars && p.uses[t] > 1 && len(t.args) > 0 {
		n := fmt.Sprintf("t%d", t.id)
		fmt.Fprintf(&p.out, "(define-fun %s () %s %s)\n", n, p.sort(t.sort), s)
		p.names[t] = n
		return n
	}
	return s
}

func (p *printer) apply(f string, args []*Term, local map[*Term]string) string {
	var sb strings.Builder
	sb.WriteString("(" + f)
	for _, a := range args {
		sb.WriteString(" " + p.ref(a, local))
	}
	sb.WriteString(")")
	return sb.String()
}

func (p *printer) expr(t *Term, local map[*Term]string) string {
	switch t.op {
	case "const":
		return quoteSym(t.name)
	case "bvar":
		return t.name
	case "int":
		if t.num.Sign() < 0 {
			return "(- " + strings.TrimPrefix(t.name, "-") + ")"
		}
		return t.name
	case "real":
		return "|real." + t.name + "|"
	case "alloc":
		n, _ := strconv.ParseInt(t.name, 10, 64)
		return strconv.FormatInt(allocBase+n, 10)
	case "fnlit":
		n, _ := strconv.ParseInt(t.name, 10, 64)
		return strconv.FormatInt(3*allocBase+n+1000000000*10, 10)
	case "addrlit":
		return "|addr!" + t.name + "|"
	case "true", "false":
		return t.op
	case "str":
		if p.native {
			return smtStr(t.name)
		}
		return "|lit:" + litSym(t.name) + "|"
	case "not", "and", "or", "ite", "=", "+", "-", "*", "<", "select", "store", "div", "mod":
		return p.apply(t.op, t.args, local)
	case "uf":
		return p.apply(quoteSym(t.name), t.args, local)
	case "ctor":
		return p.apply("mk-"+quoteDT(t.name), t.args, local)
	case "sel":
		return p.apply(quoteSym(t.name), t.args, local)
	case "constarray":
		return fmt.Sprintf("((as const %s) %s)", p.sort(t.sort), p.ref(t.args[0], local))
	case "framed":
		// array equal to old except at the given references and new objects
		return p.framedExpr(t, local)
	case "forall", "exists":
		var vs []string
		nl := map[*Term]string{}
		for k, v := range local {
			nl[k] = v
		}
		for _, d := range strings.Split(t.name, ";") {
			i := strings.Index(d, ":")
			vs = append(vs, fmt.Sprintf("(%s %s)", d[:i], p.sort(Sort(d[i+1:]))))
		}
		return fmt.Sprintf("(%s (%s) %s)", t.op, strings.Join(vs, " "), p.ref(t.args[0], nl))
	case "str.len":
		return p.apply(p.strName("str.len"), t.args, local)
	case "str.++":
		if p.native {
			return p.apply("str.++", t.args, local)
		}
		s := p.ref(t.args[len(t.args)-1], local)
		for i := len(t.args) - 2; i >= 0; i-- {
			s = "(U.++ " + p.ref(t.args[i], local) + " " + s + ")"
		}
		return s
	case "str.byte":
		if p.native {
			return "(str.to_code (str.at " + p.ref(t.args[0], local) + " " + p.ref(t.args[1], local) + "))"
		}
		return p.apply("U.byte", t.args, local)
	case "str.indexof":
		if p.native {
			return "(str.indexof " + p.ref(t.args[0], local) + " " + p.ref(t.args[1], local) + " 0)"
		}
		return p.apply("U.indexof", t.args, local)
	case "str.prefixof", "str.suffixof", "str.contains", "str.substr", "str.<":
		return p.apply(p.strName(t.op), t.args, local)
	}
	panic("expr: " + t.op)
}

func (p *printer) strName(op string) string {
	if p.native {
		return op
	}
	return "U." + strings.TrimPrefix(op, "str.")
}

func quoteDT(n string) string { return n }

func litSym(s string) string {
	var sb strings.Builder
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c < 33 || c > 126 || c == '|' || c == '\\' {
			fmt.Fprintf(&sb, "{%02x}", c)
		} else {
			sb.WriteByte(c)
		}
	}
	return sb.String()
}

// framed arrays that survive simplification are replaced by a fresh constant
// constrained by a quantified definition.
func (p *printer) framedExpr(t *Term, local map[*Term]string) string {
	n := fmt.Sprintf("fr%d", t.id)
	if !p.framedDone[t] {
		p.framedDone[t] = true
		k, _ := arrParts(t.sort)
		o := p.ref(t.args[0], nil)
		nw := p.ref(t.args[1], nil)
		cnt, _ := strconv.ParseInt(t.name, 10, 64)
		cond := fmt.Sprintf("(<= %d i)", allocBase+cnt+1)
		for _, w := range t.args[2:] {
			cond = fmt.Sprintf("(or (= i %s) %s)", p.ref(w, nil), cond)
		}
		fmt.Fprintf(&p.out, "(declare-const %s %s)\n(assert (forall ((i %s)) (! (= (select %s i) (ite %s (select %s i) (select %s i))) :pattern ((select %s i)))))\n",
			n, p.sort(t.sort), p.sort(k), n, cond, nw, o, n)
	}
	return n
}

func smtScript(asserts []*Term, native bool, opts string) (string, *printer) {
	p := &printer{native: native, decls: map[string]string{}, uses: map[*Term]int{}, names: map[*Term]string{}, lits: map[string]bool{}, boxes: map[string]bool{}, impls: map[string]bool{},
		lens: map[*Term]bool{}, cats: map[*Term]bool{}, preds: map[*Term]bool{}, sorts: map[Sort]bool{}, addr: map[string]bool{}, framedDone: map[*Term]bool{}}
	for _, a := range asserts {
		p.count(a)
	}
	var head strings.Builder
	head.WriteString(opts)
	if p.sorts[SAny] || len(p.boxes) > 0 {
		head.WriteString("(declare-sort Any 0)\n")
	}
	if !native {
		head.WriteString("(declare-sort Str 0)\n")
	}
	for _, d := range db.dtOrder {
		if d != "Slice" && !p.sorts[Sort(d)] {
			continue
		}
		dt := db.dts[d]
		var fs []string
		for i, f := range dt.fields {
			fs = append(fs, fmt.Sprintf("(%s %s)", quoteSym(f), p.sort(dt.sorts[i])))
		}
		fmt.Fprintf(&head, "(declare-datatypes ((%s 0)) (((mk-%s %s))))\n", quoteSym(d), d, strings.Join(fs, " "))
	}
	// declarations
	for b := range p.boxes {
		t := boxTypes[b]
		p.declUFs("unbox."+b[4:], sortOf(t), SAny)
	}
	if len(p.boxes) > 0 || p.decls["u:dyn"] != "" {
		p.declUFs("dyn", SInt, SAny)
	}
	var decls []string
	for _, n := range p.declO {
		decls = append(decls, p.decls[n])
	}
	var pre strings.Builder
	pre.WriteString(head.String())
	if !native {
		pre.WriteString(`(declare-fun U.len (Str) Int)
(declare-fun U.++ (Str Str) Str)
(declare-fun U.prefixof (Str Str) Bool)
(declare-fun U.suffixof (Str Str) Bool)
(declare-fun U.contains (Str Str) Bool)
(declare-fun U.substr (Str Int Int) Str)
(declare-fun U.indexof (Str Str) Int)
(declare-fun U.byte (Str Int) Int)
(declare-fun U.< (Str Str) Bool)
`)
		p.lits[""] = true
		var ls []string
		for l := range p.lits {
			ls = append(ls, l)
		}
		sort.Strings(ls)
		var syms []string
		for _, l := range ls {
			s := "|lit:" + litSym(l) + "|"
			syms = append(syms, s)
			fmt.Fprintf(&pre, "(declare-const %s Str)\n(assert (= (U.len %s) %d))\n", s, s, len(l))
		}
		if len(syms) > 1 {
			fmt.Fprintf(&pre, "(assert (distinct %s))\n", strings.Join(syms, " "))
		}
		pre.WriteString("(assert (forall ((s Str)) (! (and (>= (U.len s) 0) (=> (= (U.len s) 0) (= s |lit:|))) :pattern ((U.len s)))))\n")
		pre.WriteString("(assert (forall ((a Str) (b Str)) (! (= (U.len (U.++ a b)) (+ (U.len a) (U.len b))) :pattern ((U.++ a b)))))\n")
		pre.WriteString("(assert (forall ((a Str) (b Str)) (! (=> (U.prefixof a b) (<= (U.len a) (U.len b))) :pattern ((U.prefixof a b)))))\n")
		pre.WriteString("(assert (forall ((a Str) (b Str)) (! (=> (U.suffixof a b) (<= (U.len a) (U.len b))) :pattern ((U.suffixof a b)))))\n")
		pre.WriteString("(assert (forall ((a Str)) (! (U.prefixof a a) :pattern ((U.prefixof a a)))))\n")
	}
	for a := range p.addr {
		fmt.Fprintf(&pre, "(declare-const |addr!%s| Int)\n(assert (> |addr!%s| %d))\n", a, a, 8*allocBase)
	}
	for _, d := range decls {
		pre.WriteString(d + "\n")
	}
	// interface axioms
	hasNil := p.decls["c:nilAny"] != ""
	if p.decls["u:dyn"] != "" && hasNil {
		pre.WriteString("(assert (= (dyn nilAny) 0))\n(assert (forall ((x Any)) (! (=> (= (dyn x) 0) (= x nilAny)) :pattern ((dyn x)))))\n")
	}
	var bs []string
	for b := range p.boxes {
		bs = append(bs, b)
	}
	sort.Strings(bs)
	for _, b := range bs {
		t := boxTypes[b]
		fmt.Fprintf(&pre, "(assert (forall ((x %s)) (! (and (= (dyn (%s x)) %d) (= (%s (%s x)) x)) :pattern ((%s x)))))\n", p.sort(sortOf(t)), quoteSym(b), typeID(t), quoteSym("unbox."+b[4:]), quoteSym(b), quoteSym(b))
	}
	var is []string
	for i := range p.impls {
		is = append(is, i)
	}
	sort.Strings(is)
	for _, in := range is {
		it := implTypes[in]
		if it == nil {
			continue
		}
		for _, b := range bs {
			v := types.Implements(boxTypes[b], it.Underlying().(*types.Interface))
			fmt.Fprintf(&pre, "(assert (= (%s %d) %v))\n", quoteSym(in), typeID(boxTypes[b]), v)
		}
	}
	var body strings.Builder
	for _, a := range asserts {
		s := p.ref(a, nil)
		body.WriteString(p.out.String())
		p.out.Reset()
		fmt.Fprintf(&body, "(assert %s)\n", s)
	}
	return pre.String() + body.String(), p
}

func (p *printer) declUFs(name string, s Sort, arg Sort) {
	p.useSort(s)
	p.decl("u:"+name, fmt.Sprintf("(declare-fun %s (%s) %s)", quoteSym(name), p.sort(arg), p.sort(s)))
}

var implTypes = map[string]types.Type{}

// ---- running solvers

type solverCfg struct {
	name string
	cmd  []string
	opts string
}

var scratchDir string
var bg = context.Background()

var solverVersions = map[string]string{
	"z3-new": "z3 (newer)", "z3": "z3 4.8.12", "cvc5": "cvc5 1.1.2",
}

func solverCmd(name string, timeout time.Duration, file string) []string {
	ms := int(timeout / time.Millisecond)
	switch name {
	case "z3", "z3-new":
		return []string{name, "-smt2", fmt.Sprintf("-t:%d", ms), "-memory:3000", file}
	case "cvc5":
		return []string{"cvc5", "--lang=smt2", "--strings-exp", fmt.Sprintf("--tlimit=%d", ms), "--produce-models", file}
	case "cvc5-enum":
		return []string{"cvc5", "--lang=smt2", "--strings-exp", "--enum-inst", fmt.Sprintf("--tlimit=%d", ms), "--produce-models", file}
	}
	panic(name)
}

type solveRes struct {
	status string // unsat sat unknown
	solver string
	ms     int64
	output string
}

var fileN int
var fileMu sync.Mutex

func writeScript(script string) string {
	fileMu.Lock()
	fileN++
	n := fileN
	fileMu.Unlock()
	f := filepath.Join(scratchDir, fmt.Sprintf("q%d.smt2", n))
	os.WriteFile(f, []byte(script), 0o644)
	return f
}

func runSolver(ctx context.Context, name string, script string, timeout time.Duration) solveRes {
	pre := ""
	if strings.HasPrefix(name, "cvc5") {
		pre = "(set-logic ALL)\n"
	}
	f := writeScript(pre + script + "(check-sat)\n(get-model)\n")
	defer os.Remove(f)
	c, cancel := context.WithTimeout(ctx, timeout+2*time.Second)
	defer cancel()
	args := solverCmd(name, timeout, f)
	t0 := time.Now()
	cmd := exec.CommandContext(c, args[0], args[1:]...)
	out, _ := cmd.CombinedOutput()
	ms := time.Since(t0).Milliseconds()
	s := string(out)
	st := "unknown"
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimSpace(l)
		if l == "unsat" || l == "sat" || l == "unknown" {
			st = l
			break
		}
		if strings.HasPrefix(l, "(error") {
			break
		}
	}
	return solveRes{st, name, ms, s}
}

var totalSolverMS int64
var solverMu sync.Mutex

// decide checks whether the conjunction of asserts is unsatisfiable.
// reduced drops facts: those with quantifiers (other than the last two
// assertions, the path condition and the negated goal), and, when rel > 0,
// those that share no fresh constant with the goal within rel rounds. Proving
// the goal from fewer facts is sound.
func reduced(asserts []*Term, rel int) []*Term {
	n := len(asserts)
	if n < 3 {
		return nil
	}
	var out []*Term
	if rel == 0 {
		for _, a := range asserts[:n-2] {
			if a.qd == 0 {
				out = append(out, a)
			}
		}
	} else {
		memo := map[*Term]map[string]bool{}
		cur := map[string]bool{}
		for k := range freeConsts(asserts[n-1], memo) {
			cur[k] = true
		}
		in := make([]bool, n)
		for r := 0; r < rel; r++ {
			add := map[string]bool{}
			for i, a := range asserts[:n-2] {
				if in[i] {
					continue
				}
				for k := range freeConsts(a, memo) {
					if cur[k] {
						in[i] = true
						break
					}
				}
				if in[i] {
					for k := range freeConsts(a, memo) {
						add[k] = true
					}
				}
			}
			for k := range add {
				cur[k] = true
			}
		}
		for i, a := range asserts[:n-2] {
			if in[i] {
				out = append(out, a)
			}
		}
	}
	if len(out) == n-2 {
		return nil
	}
	return append(out, asserts[n-2:]...)
}

// freeConsts: the fresh constants in t (the initial memory is left out, every
// fact mentions it).
func freeConsts(t *Term, memo map[*Term]map[string]bool) map[string]bool {
	if m, ok := memo[t]; ok {
		return m
	}
	m := map[string]bool{}
	if t.op == "const" && !strings.HasPrefix(t.name, "H2.") && !strings.HasPrefix(t.name, "|H2.") {
		m[t.name] = true
	}
	for _, a := range t.args {
		for k := range freeConsts(a, memo) {
			m[k] = true
		}
	}
	memo[t] = m
	return m
}

// cvc5Script: cvc5 has no constant arrays over uninterpreted sorts.
func cvc5Script(s string) string {
	s = strings.Replace(s, "(declare-sort Any 0)\n", "(declare-datatypes ((Any 0)) (((nilAny) (someAny (any.id Int)))))\n", 1)
	s = strings.Replace(s, "(declare-const nilAny Any)\n", "", 1)
	s = strings.Replace(s, "(declare-sort Str 0)\n", "(declare-datatypes ((Str 0)) (((|lit:|) (someStr (str.id Int)))))\n", 1)
	s = strings.Replace(s, "(declare-const |lit:| Str)\n", "", 1)
	return s
}

func decide(asserts []*Term, t1, t2 time.Duration) solveRes {
	for _, a := range asserts {
		if a == tFalse {
			return solveRes{"unsat", "simplifier", 0, ""}
		}
	}
	fileMu.Lock()
	script, p := smtScript(asserts, false, "")
	fileMu.Unlock()
	add := func(r solveRes) solveRes {
		solverMu.Lock()
		totalSolverMS += r.ms
		solverMu.Unlock()
		return r
	}
	// a short attempt with everything, then fewer facts and everything side by side
	quick := t1 / 4
	if d := os.Getenv("GOVC_DUMPALL"); d != "" {
		os.WriteFile(filepath.Join(d, fmt.Sprintf("q%d.smt2", asserts[len(asserts)-1].id)), []byte(script+"(check-sat)\n"), 0o644)
	}
	r := add(runSolver(context.Background(), "z3-new", script, quick))
	if r.status == "unsat" {
		return r
	}
	type job struct {
		solver, script string
		partial        bool // sat means nothing
		tag            string
	}
	race := func(jobs []job, t time.Duration) (solveRes, bool) {
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		ch := make(chan solveRes, len(jobs))
		for _, j := range jobs {
			j := j
			go func() {
				sc := j.script
				if j.solver == "cvc5" {
					sc = cvc5Script(sc)
				}
				rr := runSolver(ctx, j.solver, sc, t)
				if j.partial && rr.status == "sat" {
					rr.status = "unknown"
				}
				rr.solver += j.tag
				ch <- rr
			}()
		}
		best := solveRes{status: "unknown"}
		for range jobs {
			rr := add(<-ch)
			if rr.status == "unsat" {
				return rr, true
			}
			if rr.status == "sat" {
				return rr, true
			}
			if strings.Contains(rr.output, "(error") && !strings.Contains(rr.output, "model is not available") && !strings.Contains(rr.output, "annot get model") && !strings.Contains(rr.output, "annot get value") && os.Getenv("GOVC_ERR") != "" {
				fmt.Fprintf(os.Stderr, "solver error %s: %s\n", rr.solver, truncate(rr.output, 300))
			}
			if best.output == "" {
				best = rr
			}
		}
		return best, false
	}
	var jobs []job
	fileMu.Lock()
	reds := [][]*Term{reduced(asserts, 0), reduced(asserts, 1), reduced(asserts, 2)}
	var scs []string
	for _, as := range reds {
		if as == nil {
			scs = append(scs, "")
			continue
		}
		sc, _ := smtScript(as, false, "")
		scs = append(scs, sc)
	}
	fileMu.Unlock()
	hasLits := len(p.lits) > 0
	hasStr := p.hasStr || hasLits
	if r.status != "sat" {
		for i, sc := range scs {
			if sc != "" {
				jobs = append(jobs, job{"z3-new", sc, true, []string{"/noquant", "/rel1", "/rel2"}[i]})
			}
		}
		jobs = append(jobs, job{"z3-new", script, hasStr, ""})
		rr, ok := race(jobs, t1)
		if ok {
			return rr
		}
		r = rr
	}
	if os.Getenv("GOVC_DUMP") != "" {
		os.WriteFile(filepath.Join(os.Getenv("GOVC_DUMP"), fmt.Sprintf("dump%d.smt2", asserts[len(asserts)-1].id)), []byte(script+"(check-sat)\n"), 0o644)
	}
	jobs = nil
	if hasStr {
		fileMu.Lock()
		native, _ := smtScript(asserts, true, "")
		fileMu.Unlock()
		jobs = append(jobs, job{"z3-new", native, false, ""}, job{"cvc5", native, false, ""}, job{"z3", native, false, ""}, job{"cvc5", script, true, ""})
		if scs[0] != "" {
			jobs = append(jobs, job{"cvc5", scs[0], true, "/noquant"})
		}
	} else {
		jobs = append(jobs, job{"cvc5", script, false, ""}, job{"z3", script, false, ""})
		if scs[0] != "" {
			jobs = append(jobs, job{"cvc5", scs[0], true, "/noquant"})
		}
		if r.status != "sat" {
			jobs = append(jobs, job{"z3-new", script, false, ""})
		} else {
			return r
		}
	}
	rr, ok := race(jobs, t2)
	if ok {
		return rr
	}
	return rr
}
