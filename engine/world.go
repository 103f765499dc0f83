package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const repoModule = "github.com/c2FmZQ/tlsproxy"

type Contract struct {
	name        string // full name of the function
	short       string
	fn          *ssa.Function
	spec        *ssa.Function
	labels      []string
	inlineOnly  bool
	panicLabel  string
	noReturnVal bool
	missing     bool
	closure     string // role of a closure contract
	callee      string // the function that the closure is passed to
	without     string // closures that capture this type are not meant
	target      string
	props       []string
}

type Proof struct {
	name       string
	fn         *ssa.Function
	labels     []string
	props      []string
	panicLabel string
}

type loopInvSpec struct {
	fn    *ssa.Function
	label string
	loop  int
	// instead of a function: every loop with a counter that writes this ghost
	writes string
}

type Guard struct {
	key    string // comp of the mutex
	typ    types.Type
	fields []string
	inv    *ssa.Function
	label  string
	locked string // label of the lock discipline
}

type World struct {
	opaque      map[*ssa.Function]bool
	ghosts      map[*ssa.Global]*Term
	fset        *token.FileSet
	prog        *ssa.Program
	pkgs        map[string]*packages.Package
	ssaPkgs     map[string]*ssa.Package
	nexts       []*nextRec
	mapInv      map[ssa.Instruction]func(key, ok, dom, reach *Term)
	loopInvs    map[*ssa.Function][]*loopInvSpec
	anyInvs     []*loopInvSpec
	contracts   map[string]*Contract
	mapOfDom    map[string]*types.Map
	closures    []*Contract
	proofs      []*Proof
	models      map[string]map[string]*ssa.Function
	modelLabels map[*ssa.Function][]string
	pure        map[string]bool
	noeff       map[string]bool
	inlineS     map[string]bool
	guards      map[string]*Guard
	guardedComp map[string]*Guard
	sends       map[string]*ssa.Function
	wraps       map[*Term][]*Term
	sums        map[*Contract]*Summary
	gconst      map[*ssa.Global]*gconstRec
	closeLab    map[string]string // package path -> label for close obligations
	errors      []string
	callees     map[string]bool
	specFiles   map[string]bool
	dropped     []string
	usedModels  map[string]bool
	auto        map[*ssa.Function]*Contract
	sumBusy     map[*Contract]bool
	sumRec      map[*Contract]bool
}

type gconstRec struct{ v Val }

type Summary struct {
	params []*Term
	epoch  string
	log    *WriteLog
}

// ---- loading

type overlayFile struct {
	pkgDir string
	pkg    string
	path   string // overlay path
	src    string
	orig   string
}

const preludeSrc = `
func v_requires(c bool)                            {}
func v_requires_l(label string, c bool)            {}
func v_ensures(label string, c bool)               {}
func v_assert(label string, c bool)                {}
func v_assume(c bool)                              {}
func v_forall(lo, hi int, f func(int) bool) bool   { return true }
func v_exists(lo, hi int, f func(int) bool) bool   { return true }
func v_all(f any) bool                             { return true }
func v_some(f any) bool                            { return true }
func v_havoc[T any]() (r T)                        { return }
func v_new[T any]() (r *T)                         { return }
func v_pure[T any](name string, args ...any) (r T) { return }
func v_dynis[T any](x any) bool                    { return true }
func v_now() (t v_time.Time)                       { return }
func v_base[T any](s []T) int                      { return 0 }
func v_chanClosed(ch any) bool                     { return false }
func v_ranged[K any](key K) bool                   { return false }
func v_tag[T any](obj any, tag string) (r T)       { return }
func v_off[T any](s []T) int                       { return 0 }
func v_err() (e error)                             { return }
func v_reach(label string)                         {}
func v_unreachable(label string)                   {}

func v_imp(a, b bool) bool { return !a || b }
func v_iff(a, b bool) bool { return a == b }
`

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

// readContracts reads contract files: <dir>/<slug>/*.go, each with a line
// "//verif:package <dir relative to the repository>".
func readContracts(dir string) ([]*overlayFile, error) {
	var out []*overlayFile
	files, _ := filepath.Glob(filepath.Join(dir, "*", "*.go"))
	sort.Strings(files)
	dirs := map[string]string{}
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		src := string(b)
		rel := ""
		name := ""
		for _, l := range strings.Split(src, "\n") {
			if strings.HasPrefix(l, "//verif:package ") {
				rel = strings.TrimSpace(strings.TrimPrefix(l, "//verif:package "))
			}
			if strings.HasPrefix(l, "package ") && name == "" {
				name = strings.Fields(l)[1]
			}
		}
		if rel == "" || name == "" {
			return nil, fmt.Errorf("%s: no //verif:package", f)
		}
		pd := filepath.Join(repoDir(), rel)
		o := &overlayFile{pkgDir: pd, pkg: repoModule + "/" + rel, src: src, orig: f}
		o.path = filepath.Join(pd, "zz_verif_"+filepath.Base(f))
		out = append(out, o)
		dirs[pd] = name
	}
	var ds []string
	for d := range dirs {
		ds = append(ds, d)
	}
	sort.Strings(ds)
	for _, d := range ds {
		out = append(out, &overlayFile{pkgDir: d, path: filepath.Join(d, "zz_verif_prelude.go"), src: "package " + dirs[d] + "\n\nimport v_time \"time\"\n" + preludeSrc})
	}
	return out, nil
}

func loadEnv() []string {
	gr := "/opt/veriftools/go1.24.13"
	env := os.Environ()
	var out []string
	for _, e := range env {
		k := e[:strings.Index(e, "=")]
		switch k {
		case "GOROOT", "GOFLAGS", "GOPROXY", "GOWORK", "PATH", "GOTOOLCHAIN", "GOSUMDB":
			continue
		}
		out = append(out, e)
	}
	if _, err := os.Stat(gr); err != nil {
		return append(env, "GOFLAGS=-mod=mod -buildvcs=false", "GOPROXY=off", "GOWORK=off")
	}
	return append(out, "GOROOT="+gr, "PATH="+gr+"/bin:"+os.Getenv("PATH"), "GOFLAGS=-mod=mod -buildvcs=false", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local", "GOSUMDB=off")
}

func load(contractDir string) (*World, error) {
	w := &World{
		pkgs: map[string]*packages.Package{}, ssaPkgs: map[string]*ssa.Package{},
		mapInv: map[ssa.Instruction]func(key, ok, dom, reach *Term){}, loopInvs: map[*ssa.Function][]*loopInvSpec{},
		contracts: map[string]*Contract{}, models: map[string]map[string]*ssa.Function{}, modelLabels: map[*ssa.Function][]string{},
		pure: map[string]bool{}, noeff: map[string]bool{}, inlineS: map[string]bool{}, guards: map[string]*Guard{}, guardedComp: map[string]*Guard{}, sends: map[string]*ssa.Function{},
		wraps: map[*Term][]*Term{}, sums: map[*Contract]*Summary{}, gconst: map[*ssa.Global]*gconstRec{}, closeLab: map[string]string{}, callees: map[string]bool{},
		specFiles: map[string]bool{}, usedModels: map[string]bool{},
	}
	ofs, err := readContracts(contractDir)
	if err != nil {
		return nil, err
	}
	var pkgs []*packages.Package
	for try := 0; ; try++ {
		overlay := map[string][]byte{}
		for _, o := range ofs {
			overlay[o.path] = []byte(o.src)
			w.specFiles[o.path] = true
		}
		w.fset = token.NewFileSet()
		cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repoDir(), Env: loadEnv(), Overlay: overlay, Fset: w.fset}
		pkgs, err = packages.Load(cfg, "./...")
		if err != nil {
			return nil, err
		}
		bad := false
		repoErr := ""
		packages.Visit(pkgs, nil, func(p *packages.Package) {
			for _, e := range p.Errors {
				fixed := false
				for _, o := range ofs {
					if strings.HasPrefix(e.Pos, o.path+":") {
						var line int
						fmt.Sscanf(e.Pos[len(o.path)+1:], "%d", &line)
						if line > 0 && try < 12 {
							if d := dropDecl(o, line); d != "" {
								w.dropped = append(w.dropped, d+" ("+e.Msg+")")
								fixed = true
								bad = true
							}
						}
					}
				}
				if !fixed && strings.HasPrefix(p.PkgPath, repoModule) && repoErr == "" {
					repoErr = e.Error()
				}
			}
		})
		if bad && try < 12 {
			continue
		}
		if repoErr != "" {
			return nil, fmt.Errorf("the repository does not compile: %s", repoErr)
		}
		break
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics|ssa.GlobalDebug)
	prog.Build()
	w.prog = prog
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		w.pkgs[p.PkgPath] = p
		if sp := prog.Package(p.Types); sp != nil {
			w.ssaPkgs[p.PkgPath] = sp
		}
	})
	for _, n := range defaultPure {
		w.pure[n] = true
	}
	for _, n := range defaultNoEffect {
		w.noeff[n] = true
	}
	for _, n := range defaultInline {
		w.inlineS[n] = true
	}
	var ps []string
	for path := range w.pkgs {
		ps = append(ps, path)
	}
	sort.Strings(ps)
	for _, path := range ps {
		p := w.pkgs[path]
		for i, f := range p.Syntax {
			fn := p.CompiledGoFiles[i]
			if w.specFiles[fn] {
				if err := w.directives(p, f); err != nil {
					return nil, err
				}
			}
		}
	}
	return w, nil
}

// dropDecl blanks the top-level declaration that contains the given line
// (a contract that no longer type-checks against the tree).
var quotedLabel = regexp.MustCompile(`"(C[0-9]+\.[A-Za-z0-9_.-]+)"`)
var coverLabel = regexp.MustCompile(`^//verif:covers (.*)`)

func dropDecl(o *overlayFile, line int) string {
	lines := strings.Split(o.src, "\n")
	if line > len(lines) {
		return ""
	}
	s := line - 1
	for s >= 0 && !strings.HasPrefix(lines[s], "func ") && !strings.HasPrefix(lines[s], "var ") && !strings.HasPrefix(lines[s], "type ") {
		if strings.HasPrefix(lines[s], "import") {
			break
		}
		s--
	}
	if s < 0 {
		return ""
	}
	if strings.HasPrefix(lines[s], "import") || strings.Contains(lines[line-1], `"`) && s < 0 {
		// unused import: blank it
		l := lines[line-1]
		if i := strings.Index(l, `"`); i >= 0 {
			lines[line-1] = "\t_ " + l[i:]
			o.src = strings.Join(lines, "\n")
			return o.orig + ": import " + l
		}
		return ""
	}
	e := s
	if !strings.HasSuffix(lines[s], "}") || strings.HasSuffix(lines[s], "{") {
		for e+1 < len(lines) && !(lines[e] == "}" && e > s) {
			if strings.HasPrefix(lines[s], "var ") && !strings.HasSuffix(lines[s], "(") && !strings.HasSuffix(lines[s], "{") {
				break
			}
			e++
		}
	}
	// also the directive comments above
	c := s
	for c > 0 && strings.HasPrefix(lines[c-1], "//") {
		c--
	}
	name := lines[s]
	dir := ""
	for k := c; k <= e; k++ {
		for _, m := range quotedLabel.FindAllStringSubmatch(lines[k], -1) {
			dir += " [label " + m[1] + "]"
		}
		for _, m := range coverLabel.FindAllStringSubmatch(lines[k], -1) {
			for _, l := range strings.Fields(m[1]) {
				dir += " [label " + l + "]"
			}
		}
		if strings.HasPrefix(lines[k], "//verif:") {
			dir += " " + lines[k]
		}
		lines[k] = ""
	}
	o.src = strings.Join(lines, "\n")
	return filepath.Base(o.orig) + ": " + name + dir
}

func (w *World) inRepo(fn *ssa.Function) bool {
	return strings.HasPrefix(fnPkgPath(fn), repoModule)
}

func (w *World) isSpecPkgFunc(fn *ssa.Function) bool {
	p := fn.Pos()
	if o := fn.Origin(); o != nil {
		p = o.Pos()
	}
	if !p.IsValid() {
		return false
	}
	return w.specFiles[w.fset.Position(p).Filename]
}

func (w *World) inlineStd(name string, fn *ssa.Function) bool {
	return matchSet(w.inlineS, name)
}

func matchSet(m map[string]bool, name string) bool {
	if m[name] {
		return true
	}
	// "pkg.*" entries
	for i := len(name) - 1; i > 0; i-- {
		if name[i] == '.' {
			if m[name[:i]+".*"] {
				return true
			}
			break
		}
	}
	return false
}

func (w *World) isPure(key string) bool   { return matchSet(w.pure, key) }
func (w *World) noEffect(key string) bool { return matchSet(w.noeff, key) }

func (w *World) logCall(x *Exec, name string) {}

func (w *World) model(x *Exec, name string) *ssa.Function {
	m := w.models[name]
	if m == nil {
		return nil
	}
	if f := m[x.rootPkg+"@"+x.rootFile]; f != nil {
		return f
	}
	if f := m[x.rootPkg]; f != nil {
		return f
	}
	if f := m["*"]; f != nil {
		return f
	}
	return nil
}

// qualifyIface names a method of an interface of the package in full.
func qualifyIface(pkg, key string) string {
	if i := strings.Index(key, ")."); i > 1 && key[0] == '(' && !strings.ContainsAny(key[1:i], "./*") {
		return "(" + pkg + "." + key[1:]
	}
	return key
}

func (w *World) useModel(x *Exec, m *ssa.Function) {
	x.models[m] = true
}

func (w *World) sendModel(x *Exec, et types.Type) *ssa.Function {
	return w.sends[x.rootPkg+"|"+typeKey(et)]
}

func (w *World) closeLabel(x *Exec) string { return w.closeLab[x.rootPkg] }

// ---- directives

func (w *World) fullName(pkg, target string) string {
	if strings.HasPrefix(target, "(*") {
		return "(*" + pkg + "." + target[2:]
	}
	if strings.HasPrefix(target, "(") {
		return "(" + pkg + "." + target[1:]
	}
	return pkg + "." + target
}

func (w *World) findFunc(pkg, target string) *ssa.Function {
	sp := w.ssaPkgs[pkg]
	if sp == nil {
		return nil
	}
	// a full path names a function of another package
	if i := strings.LastIndex(target, "/"); i >= 0 {
		j := strings.Index(target[i:], ".") + i
		k := strings.IndexAny(target, "abcdefghijklmnopqrstuvwxyz")
		if j < i || k < 0 {
			return nil
		}
		pkg, target = target[k:j], target[:k]+target[j+1:]
		if sp = w.ssaPkgs[pkg]; sp == nil {
			return nil
		}
	}
	full := w.fullName(pkg, target)
	if strings.HasPrefix(target, "(") {
		t := strings.TrimPrefix(strings.TrimPrefix(target, "("), "*")
		i := strings.Index(t, ").")
		if i < 0 {
			return nil
		}
		tn, mn := t[:i], t[i+2:]
		m := sp.Type(tn)
		if m == nil {
			return nil
		}
		for _, ty := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
			ms := w.prog.MethodSets.MethodSet(ty)
			for k := 0; k < ms.Len(); k++ {
				if ms.At(k).Obj().Name() == mn {
					fn := w.prog.MethodValue(ms.At(k))
					if fn != nil && fn.String() == full {
						return fn
					}
				}
			}
		}
		return nil
	}
	return sp.Func(target)
}

func (w *World) directives(p *packages.Package, f *ast.File) error {
	sp := w.ssaPkgs[p.PkgPath]
	for _, cg := range f.Comments {
		for _, c := range cg.List {
			t := strings.TrimSpace(c.Text)
			fs := strings.Fields(t)
			if len(fs) < 2 {
				continue
			}
			rest := strings.TrimSpace(strings.TrimPrefix(t, fs[0]))
			switch fs[0] {
			case "//verif:pure":
				w.pure[rest] = true
			case "//verif:noeffect":
				w.noeff[rest] = true
			case "//verif:inlinestd":
				w.inlineS[rest] = true
			case "//verif:frame":
				if t := w.findFunc(p.PkgPath, rest); t != nil {
					w.autoContract(t)
				}
			case "//verif:closelabel":
				w.closeLab[p.PkgPath] = fs[1]
			case "//verif:guard":
				i := strings.LastIndex(fs[1], ".")
				tn, mu := fs[1][:i], fs[1][i+1:]
				m := sp.Type(tn)
				if m == nil {
					w.errors = append(w.errors, "guard: no type "+tn)
					continue
				}
				g := &Guard{typ: m.Type(), fields: fs[2:]}
				g.key = "F|" + typeKey(m.Type()) + "|" + mu
				w.guards[g.key] = g
				st := structOf(m.Type())
				for _, f := range fs[2:] {
					for i := 0; i < st.NumFields(); i++ {
						if st.Field(i).Name() == strings.TrimSuffix(f, "*") {
							w.guardedComp[fieldComp(m.Type(), i)] = g
						}
					}
				}
			case "//verif:locked":
				i := strings.LastIndex(fs[1], ".")
				if m := sp.Type(fs[1][:i]); m != nil {
					if g := w.guards["F|"+typeKey(m.Type())+"|"+fs[1][i+1:]]; g != nil {
						g.locked = fs[2]
					}
				}
			}
		}
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Doc == nil {
			continue
		}
		fn := sp.Func(fd.Name.Name)
		if fn == nil {
			continue
		}
		labels := labelsOf(fd)
		var ct *Contract
		var pr *Proof
		panicLabel := ""
		inl := false
		var props, covers []string
		for _, c := range fd.Doc.List {
			t := strings.TrimSpace(c.Text)
			fs := strings.Fields(t)
			if len(fs) == 0 || !strings.HasPrefix(fs[0], "//verif:") {
				continue
			}
			rest := strings.TrimSpace(strings.TrimPrefix(t, fs[0]))
			switch fs[0] {
			case "//verif:contract":
				target := w.findFunc(p.PkgPath, rest)
				ct = &Contract{name: w.fullName(p.PkgPath, rest), short: rest, target: rest, fn: target, spec: fn, labels: labels}
				if target == nil && strings.Contains(commentText(fd), "//verif:optional") {
					ct = nil
					continue
				}
				if target == nil {
					ct.missing = true
				} else {
					ct.name = fnName(target)
				}
				if w.contracts[ct.name] != nil {
					return fmt.Errorf("duplicate contract for %s", ct.name)
				}
				w.contracts[ct.name] = ct
			case "//verif:closure":
				wo := ""
				if i := strings.Index(rest, " without "); i > 0 {
					rest, wo = rest[:i], rest[i+9:]
				}
				ct = &Contract{without: wo, name: "closure " + rest + " in " + p.PkgPath, short: rest, closure: rest, target: p.PkgPath, spec: fn, labels: labels}
				ct.callee, _ = strings.CutPrefix(rest, "call ")
				if ct.callee == rest {
					ct.callee = ""
				}
				w.closures = append(w.closures, ct)
			case "//verif:proof":
				pr = &Proof{name: p.PkgPath + "." + fd.Name.Name, fn: fn, labels: labels, props: fs[1:]}
				w.proofs = append(w.proofs, pr)
			case "//verif:model":
				scope := p.PkgPath
				key := rest
				if strings.HasPrefix(rest, "shared ") {
					scope = "*"
					key = strings.TrimSpace(strings.TrimPrefix(rest, "shared "))
				}
				if strings.HasPrefix(rest, "local ") { // for the contracts of this file
					scope = p.PkgPath + "@" + w.fileOf(fn)
					key = strings.TrimSpace(strings.TrimPrefix(rest, "local "))
				}
				if t := w.findFunc(p.PkgPath, key); t != nil {
					key = fnName(t)
				} else {
					key = qualifyIface(p.PkgPath, key)
				}
				if w.models[key] == nil {
					w.models[key] = map[string]*ssa.Function{}
				}
				w.models[key][scope] = fn
				w.modelLabels[fn] = labels
			case "//verif:before", "//verif:after":
				// ghost code around every call of the function
				key := rest
				scope := p.PkgPath
				if strings.HasPrefix(rest, "local ") {
					scope = p.PkgPath + "@" + w.fileOf(fn)
					key = strings.TrimSpace(strings.TrimPrefix(rest, "local "))
				}
				if t := w.findFunc(p.PkgPath, key); t != nil {
					key = fnName(t)
				}
				if w.models[fs[0]+" "+key] == nil {
					w.models[fs[0]+" "+key] = map[string]*ssa.Function{}
				}
				w.models[fs[0]+" "+key][scope] = fn
				w.modelLabels[fn] = labels
			case "//verif:recv":
				w.sends["recv|"+p.PkgPath+"|"+typeKey(fn.Signature.Params().At(1).Type())] = fn
				w.modelLabels[fn] = labels
			case "//verif:send":
				// parameter 1 has the element type
				w.sends[p.PkgPath+"|"+typeKey(fn.Signature.Params().At(1).Type())] = fn
				w.modelLabels[fn] = labels
			case "//verif:opaque":
				if w.opaque == nil {
					w.opaque = map[*ssa.Function]bool{}
				}
				w.opaque[fn] = true
			case "//verif:nopanic":
				panicLabel = fs[1]
				if len(fs) > 2 {
					panicLabel += "#" + fs[2] // only this kind
				}
			case "//verif:covers":
				covers = append(covers, fs[1:]...)
			case "//verif:property":
				props = append(props, fs[1:]...)
			case "//verif:inline":
				inl = true
			case "//verif:loopinv":
				if g, ok := strings.CutPrefix(fs[1], "writes:"); ok {
					w.anyInvs = append(w.anyInvs, &loopInvSpec{fn, fs[2], -1, "G|" + p.PkgPath + "." + g})
					continue
				}
				target := w.findFunc(p.PkgPath, fs[1])
				n := -1
				if len(fs) > 2 {
					fmt.Sscan(fs[2], &n)
				}
				lab := "inv"
				if len(fs) > 3 {
					lab = fs[3]
				}
				if target != nil {
					w.loopInvs[target] = append(w.loopInvs[target], &loopInvSpec{fn, lab, n, ""})
				}
			case "//verif:lockinv":
				i := strings.LastIndex(fs[1], ".")
				m := sp.Type(fs[1][:i])
				if m != nil {
					g := w.guards["F|"+typeKey(m.Type())+"|"+fs[1][i+1:]]
					if g != nil {
						g.inv = fn
						if len(fs) > 2 {
							g.label = fs[2]
						}
					}
				}
			}
		}
		if ct != nil {
			ct.panicLabel = panicLabel
			ct.inlineOnly = inl
			ct.props = props
			ct.labels = append(ct.labels, covers...)
			if panicLabel != "" {
				ct.labels = append(ct.labels, strings.Split(panicLabel, "#")[0])
			}
		}
		if pr != nil {
			pr.panicLabel = panicLabel
			pr.labels = append(pr.labels, covers...)
			if panicLabel != "" {
				pr.labels = append(pr.labels, strings.Split(panicLabel, "#")[0])
			}
			pr.props = append(pr.props, props...)
		}
	}
	return nil
}

func labelsOf(fd *ast.FuncDecl) []string {
	m := map[string]bool{}
	ast.Inspect(fd, func(n ast.Node) bool {
		c, ok := n.(*ast.CallExpr)
		if !ok {
			return true
		}
		id, ok := c.Fun.(*ast.Ident)
		if !ok {
			return true
		}
		switch id.Name {
		case "v_ensures", "v_assert", "v_requires_l", "v_unreachable":
			if l, ok := c.Args[0].(*ast.BasicLit); ok {
				m[strings.Trim(l.Value, `"`)] = true
			}
		}
		return true
	})
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// ---- immutable globals

func (w *World) globalConst(g *ssa.Global) Val {
	if r, ok := w.gconst[g]; ok {
		return r.v
	}
	rec := &gconstRec{}
	w.gconst[g] = rec
	if g.Pkg == nil || w.isSpecGlobal(g) {
		return nil
	}
	var stores []*ssa.Store
	inInit := 0
	addrTaken := false
	var scan func(fn *ssa.Function)
	seen := map[*ssa.Function]bool{}
	scan = func(fn *ssa.Function) {
		if fn == nil || seen[fn] {
			return
		}
		seen[fn] = true
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				var ops []*ssa.Value
				ops = i.Operands(ops)
				for _, o := range ops {
					if *o == ssa.Value(g) {
						switch s := i.(type) {
						case *ssa.Store:
							if s.Addr == ssa.Value(g) {
								stores = append(stores, s)
								if fn.Name() == "init" && fn.Synthetic != "" {
									inInit++
								}
							} else {
								addrTaken = true
							}
						case *ssa.UnOp, *ssa.DebugRef:
						case *ssa.FieldAddr, *ssa.IndexAddr:
							addrTaken = true
						default:
							addrTaken = true
						}
					}
				}
			}
		}
		for _, a := range fn.AnonFuncs {
			scan(a)
		}
	}
	for _, m := range g.Pkg.Members {
		switch m := m.(type) {
		case *ssa.Function:
			scan(m)
		case *ssa.Type:
			for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
				if types.IsInterface(t) {
					continue
				}
				ms := w.prog.MethodSets.MethodSet(t)
				for k := 0; k < ms.Len(); k++ {
					if fn := w.prog.MethodValue(ms.At(k)); fn != nil {
						scan(fn)
					}
				}
			}
		}
	}
	if addrTaken || len(stores) != inInit || len(stores) > 1 {
		return nil
	}
	t := deref(g.Type())
	if len(stores) == 0 {
		rec.v = zeroOf(t)
		return rec.v
	}
	v := stores[0].Val
	if c, ok := v.(*ssa.Const); ok {
		x := &Exec{w: w}
		rec.v = x.constVal(c)
		return rec.v
	}
	if isErrorType(t) {
		db.fresh++
		switch v.(type) {
		case *ssa.Call, *ssa.MakeInterface:
			e := box(mkInt(-1000-int64(db.fresh)), types.NewPointer(w.errType()))
			w.wraps[e] = nil
			rec.v = e
			return rec.v
		}
	}
	if fn, ok := v.(*ssa.Function); ok {
		rec.v = &FuncV{fn: fn}
		return rec.v
	}
	if mi, ok := v.(*ssa.MakeInterface); ok {
		if c, ok := mi.X.(*ssa.Const); ok {
			x := &Exec{w: w}
			rec.v = box(valToTerm(x.constVal(c)), mi.X.Type())
			return rec.v
		}
	}
	k := mkConst("GC."+sanitize(g.Pkg.Pkg.Path()+"."+g.Name()), sortOf(t))
	k.bound = 1
	rec.v = k
	return k
}

// ghostMap is the identity of a map-typed ghost variable of a contract file.
// Ghost maps exist from the start and are never reassigned.
func (w *World) ghostMap(g *ssa.Global) *Term {
	if !w.isSpecGlobal(g) || !strings.HasPrefix(g.Name(), "g_") {
		return nil
	}
	if _, ok := deref(g.Type()).Underlying().(*types.Map); !ok {
		return nil
	}
	if w.ghosts == nil {
		w.ghosts = map[*ssa.Global]*Term{}
	}
	if w.ghosts[g] == nil {
		w.ghosts[g] = newRef()
	}
	return w.ghosts[g]
}

func (w *World) isSpecGlobal(g *ssa.Global) bool {
	return w.specFiles[w.fset.Position(g.Pos()).Filename]
}

func (w *World) errType() types.Type {
	p := w.pkgs["errors"]
	if p == nil {
		return nil
	}
	o := p.Types.Scope().Lookup("errorString")
	if o == nil {
		return nil
	}
	return o.Type()
}

// ---- time

const nowComp = "G|$now"

func (w *World) now(st *State) *Term {
	regComp(nowComp, SInt)
	return st.get(nowComp)
}

func (w *World) tick(x *Exec, st *State) *Term {
	old := w.now(st)
	if x.spec > 0 {
		return old
	}
	n := freshConst("now", SInt)
	x.fact(mkLe(old, n))
	x.log(nowComp, nil)
	st.set(nowComp, n)
	return n
}

func (w *World) setNow(x *Exec, ns, old *State) {
	a, b := w.now(old), w.now(ns)
	if a != b {
		x.fact(mkLe(a, b))
	}
}

// ---- locks

func (w *World) onRUnlock(c *callCtx) {
	v := c.args[0]
	if t, ok := v.(*Term); ok {
		v = termToVal(t)
	}
	if a, ok := v.(*Addr); ok && a.kind == aComp && len(a.path) == 0 && c.x.spec == 0 {
		if g := w.guards[a.comp]; g != nil {
			c.x.setHeld(c.st, g, a.ref, 0)
		}
	}
}

func (w *World) onLock(c *callCtx, acquire bool) {
	x := c.x
	if x.spec > 0 {
		return
	}
	v := c.args[0]
	if t, ok := v.(*Term); ok {
		v = termToVal(t)
	}
	a, ok := v.(*Addr)
	if !ok || a.kind != aComp || len(a.path) > 0 {
		return
	}
	g := w.guards[a.comp]
	if g == nil {
		return
	}
	relC := regComp("X|rel|"+g.key, arrSort(SInt, SBool))
	if !acquire {
		if g.inv != nil && g.label != "" {
			x.oblige(g.label, "lock invariant at unlock", c.pos, c.reach, x.evalSpec(g.inv, []Val{a.ref}, nil, c.st))
		}
		x.write(c.st, relC, a.ref, tTrue)
		x.setHeld(c.st, g, a.ref, 0)
		return
	}
	if n := c.fn.Name(); n == "RLock" {
		x.setHeld(c.st, g, a.ref, 1)
	} else {
		x.setHeld(c.st, g, a.ref, 2)
	}
	rel := mkSelect(c.st.get(relC), a.ref)
	if rel != tFalse {
		s := structOf(g.typ)
		for _, fname := range g.fields {
			deep := strings.HasSuffix(fname, "*")
			elems := strings.HasSuffix(fname, "[]") // only the elements change
			deep = deep || elems
			fname = strings.TrimSuffix(strings.TrimSuffix(fname, "*"), "[]")
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() != fname {
					continue
				}
				ft := s.Field(i).Type()
				comp := regComp(fieldComp(g.typ, i), arrSort(SInt, sortOf(ft)))
				old := mkSelect(c.st.get(comp), a.ref)
				nv := withBound(freshConst("lk."+fname, sortOf(ft)))
				x.resultFacts(nv, ft)
				nw := mkIte(rel, nv, old)
				if elems {
					nw = old
				} else {
					x.write(c.st, comp, a.ref, nw)
				}
				if mt, ok := ft.Underlying().(*types.Map); ok && deep {
					d, vv := x.mapArrs(mt)
					for _, mc := range []string{d, vv} {
						o := mkSelect(c.st.get(mc), nw)
						n := withBound(freshConst("lkm."+fname, o.sort))
						x.write(c.st, mc, nw, mkIte(rel, n, o))
					}
				}
				if sl, ok := ft.Underlying().(*types.Slice); ok && deep {
					ec := regComp(elemComp(sl.Elem()), arrSort(SInt, arrSort(SInt, sortOf(sl.Elem()))))
					o := mkSelect(c.st.get(ec), slBase(nw))
					n := withBound(freshConst("lks."+fname, o.sort))
					x.write(c.st, ec, slBase(nw), mkIte(rel, n, o))
				}
			}
		}
		x.assume["state guarded by a mutex may change arbitrarily between two critical sections of one function; other interleavings are not modelled"] = true
	}
	if g.inv != nil {
		x.fact(mkImp(c.reach, x.evalSpec(g.inv, []Val{a.ref}, nil, c.st)))
	}
}

func (w *World) initState(x *Exec, epoch string) *State {
	st := newState(epoch)
	for _, g := range w.guards {
		rc := regComp("X|rel|"+g.key, arrSort(SInt, SBool))
		st.set(rc, mkConstArray(arrSort(SInt, SBool), tFalse))
	}
	w.dropHeld(st)
	x.facts = append(x.facts, mkLe(mkInt(63000000000), mkDiv(w.now(st), mkInt(nsSec))))
	x.facts = append(x.facts, mkLe(mkDiv(w.now(st), mkInt(nsSec)), mkInt(70000000000)))
	return st
}

// ---- running

func (w *World) newExec(root, pkg string, spec *ssa.Function) *Exec {
	return &Exec{w: w, rootFile: w.fileOf(spec), root: root, rootPkg: pkg, used: map[string]bool{}, sites: map[string]bool{}, assume: map[string]bool{}, inlined: map[string]bool{}, warn: map[string]bool{}, models: map[*ssa.Function]bool{}}
}

func (x *Exec) freshParam(name string, t types.Type) *Term {
	v := withBound(freshConst("p."+name, sortOf(t)))
	x.resultFacts(v, t)
	return v
}

type rootResult struct {
	x      *Exec
	name   string
	entry  *Term
	err    string
	entryN int
}

var epochN int

func newEpoch() string { epochN++; return fmt.Sprintf("%d", epochN) }

func (w *World) fileOf(fn *ssa.Function) string {
	if fn == nil {
		return ""
	}
	return filepath.Base(w.prog.Fset.Position(fn.Pos()).Filename)
}

func commentText(fd *ast.FuncDecl) string {
	s := ""
	for _, c := range fd.Doc.List {
		s += c.Text + "\n"
	}
	return s
}

func (w *World) verifyContract(ct *Contract) (r *rootResult) {
	x := w.newExec(ct.name, fnPkgPath(ct.spec), ct.spec)
	x.panicLabel = ct.panicLabel
	r = &rootResult{x: x, name: ct.name, entry: tTrue}
	if ct.missing || ct.fn == nil {
		r.err = "function under contract not found: " + ct.name
		return r
	}
	defer func() {
		if e := recover(); e != nil {
			if u, ok := e.(unsupported); ok {
				r.err = u.msg
				return
			}
			panic(e)
		}
	}()
	db.alloc++
	st := w.initState(x, newEpoch())
	var args []Val
	for _, p := range ct.fn.Params {
		args = append(args, x.freshParam(p.Name(), p.Type()))
	}
	sc, post, s1, lg := x.specPre(ct, args, st)
	x.facts = append(x.facts, sc.requires...)
	r.entryN = len(x.facts)
	x.rootFn = ct.fn
	res, out, reach := x.runFunc(ct.fn, args, nil, s1.clone(), tTrue)
	p := x.specPost(ct, post, res, restore(out, s1, lg))
	for _, e := range p.ensures {
		x.oblige(e.label, "postcondition", ct.fn.Pos(), reach, e.cond)
		x.obls[len(x.obls)-1].pos = e.pos
	}
	x.reachNotes = append(x.reachNotes, reachNote{"exit", reach, len(x.facts)})
	return r
}

func (w *World) verifyProof(p *Proof) (r *rootResult) {
	x := w.newExec(p.name, fnPkgPath(p.fn), p.fn)
	x.panicLabel = p.panicLabel
	r = &rootResult{x: x, name: p.name, entry: tTrue}
	defer func() {
		if e := recover(); e != nil {
			if u, ok := e.(unsupported); ok {
				r.err = u.msg
				return
			}
			panic(e)
		}
	}()
	db.alloc++
	st := w.initState(x, newEpoch())
	var args []Val
	for _, q := range p.fn.Params {
		args = append(args, x.freshParam(q.Name(), q.Type()))
	}
	r.entryN = len(x.facts)
	_, _, reach := x.runFunc(p.fn, args, nil, st, tTrue)
	x.reachNotes = append(x.reachNotes, reachNote{"exit", reach, len(x.facts)})
	return r
}

// verifyClosure finds the closures stored in the given struct field anywhere
// in the package and verifies each against the contract.
func (w *World) verifyClosure(ct *Contract) (rs []*rootResult) {
	for _, fn := range w.closuresFor(ct) {
		if w.captures(ct, fn) {
			rs = append(rs, w.verifyOneClosure(ct, fn))
		}
	}
	if len(rs) == 0 {
		rs = append(rs, &rootResult{x: w.newExec(ct.name, ct.target, ct.spec), name: ct.name, entry: tTrue, err: "no function is assigned to " + ct.closure})
	}
	return rs
}

// captures: the function captures a variable of the type of each extra
// parameter of the contract, and none of the excluded type.
func (w *World) captures(ct *Contract, fn *ssa.Function) bool {
	has := func(t types.Type) bool {
		for _, fv := range fn.FreeVars {
			if types.Identical(fv.Type(), t) {
				return true
			} else if d := deref(fv.Type()); d != nil && types.Identical(d, t) {
				return true
			}
		}
		return false
	}
	for i := len(fn.Params); i < len(ct.spec.Params); i++ {
		if !has(ct.spec.Params[i].Type()) {
			return false
		}
	}
	if ct.without != "" {
		for _, fv := range fn.FreeVars {
			t := fv.Type()
			if d := deref(t); d != nil && deref(d) != nil {
				t = d
			}
			if d := deref(t); d != nil && typeKey(d) == ct.target+"."+ct.without {
				return false
			}
		}
	}
	return true
}

func (w *World) closuresFor(ct *Contract) []*ssa.Function {
	sp := w.ssaPkgs[ct.target]
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	add := func(v ssa.Value) {
		for {
			switch u := v.(type) {
			case *ssa.ChangeType:
				v = u.X
				continue
			case *ssa.MakeClosure:
				v = u.Fn
				continue
			}
			break
		}
		if f, ok := v.(*ssa.Function); ok && !seen[f] {
			seen[f] = true
			out = append(out, f)
		}
	}
	for fn := range ssautil.AllFunctions(w.prog) {
		if fnPkg(fn) == nil || fnPkg(fn) != sp.Pkg || w.isSpecPkgFunc(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if ct.callee != "" {
					if c, ok := i.(ssa.CallInstruction); ok && c.Common().StaticCallee() != nil && fnName(c.Common().StaticCallee()) == ct.callee {
						for _, a := range c.Common().Args {
							add(a)
						}
					}
					continue
				}
				s, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				t := deref(fa.X.Type())
				if typeKey(t)+"."+t.Underlying().(*types.Struct).Field(fa.Field).Name() == ct.closure {
					add(s.Val)
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	return out
}

func (w *World) verifyOneClosure(ct *Contract, fn *ssa.Function) (r *rootResult) {
	x := w.newExec(ct.name+" = "+fn.String(), ct.target, ct.spec)
	x.panicLabel = ct.panicLabel
	r = &rootResult{x: x, name: x.root, entry: tTrue}
	defer func() {
		if e := recover(); e != nil {
			if u, ok := e.(unsupported); ok {
				r.err = u.msg
				return
			}
			panic(e)
		}
	}()
	db.alloc++
	st := w.initState(x, newEpoch())
	var args, binds []Val
	for _, p := range fn.Params {
		args = append(args, x.freshParam(p.Name(), p.Type()))
	}
	for _, fv := range fn.FreeVars {
		b := x.freshParam(fv.Name(), fv.Type())
		x.facts = append(x.facts, mkNot(mkEq(b, mkInt(0))))
		binds = append(binds, b)
	}
	// the contract's extra parameters are matched with captured variables by type
	sargs := append([]Val{}, args...)
	for i := len(args); i < len(ct.spec.Params); i++ {
		p := ct.spec.Params[i]
		var found Val
		for k, fv := range fn.FreeVars {
			if types.Identical(fv.Type(), p.Type()) {
				found = binds[k]
			} else if d := deref(fv.Type()); d != nil && types.Identical(d, p.Type()) {
				found = termToVal(x.load(st, binds[k], d, tTrue, fv.Pos()))
			}
		}
		if found == nil {
			r.err = fmt.Sprintf("%s captures no variable of type %s", fn, p.Type())
			return r
		}
		sargs = append(sargs, found)
	}
	sc, post, s1, lg := x.specPre(ct, sargs, st)
	x.facts = append(x.facts, sc.requires...)
	r.entryN = len(x.facts)
	res, out, reach := x.runFunc(fn, args, binds, s1.clone(), tTrue)
	p := x.specPost(ct, post, res, restore(out, s1, lg))
	for _, e := range p.ensures {
		x.oblige(e.label, "postcondition", fn.Pos(), reach, e.cond)
		x.obls[len(x.obls)-1].pos = e.pos
	}
	x.reachNotes = append(x.reachNotes, reachNote{"exit", reach, len(x.facts)})
	return r
}

// summary computes the symbolic write set of a function.
// autoContract is the contract of a recursive function without a written one:
// its inferred frame and nothing else.
func (w *World) autoContract(fn *ssa.Function) *Contract {
	if w.auto == nil {
		w.auto = map[*ssa.Function]*Contract{}
	}
	if w.auto[fn] == nil {
		w.auto[fn] = &Contract{name: fnName(fn), short: fn.Name(), fn: fn}
	}
	return w.auto[fn]
}

// summary computes the write set of a function in terms of its parameters; a
// recursive function's is the least fixpoint.
func (w *World) summary(ct *Contract) (s *Summary) {
	if s, ok := w.sums[ct]; ok {
		if s != nil && w.sumBusy[ct] {
			w.sumRec[ct] = true
		}
		return s
	}
	if ct.fn == nil {
		return nil
	}
	if w.sumBusy == nil {
		w.sumBusy, w.sumRec = map[*Contract]bool{}, map[*Contract]bool{}
	}
	w.sumBusy[ct] = true
	defer func() { w.sumBusy[ct] = false }()
	s = &Summary{log: newWriteLog(), epoch: "none"}
	for _, p := range ct.fn.Params {
		s.params = append(s.params, freshConst("none."+p.Name(), sortOf(p.Type())))
	}
	for it := 0; it < 6; it++ {
		w.sums[ct] = s
		w.sumRec[ct] = false
		n := w.summary1(ct)
		if n == nil || !w.sumRec[ct] {
			w.sums[ct] = n
			return n
		}
		// the parameters differ between iterations: compare after renaming
		m := map[*Term]*Term{}
		for i := range s.params {
			m[s.params[i]] = n.params[i]
		}
		same := true
		for comp, e := range n.log.m {
			o := s.log.m[comp]
			if o == nil || (e.whole && !o.whole) || (e.fresh && !o.fresh) {
				same = false
				break
			}
			if o.whole {
				continue
			}
			have := map[*Term]bool{}
			for r := range o.refs {
				have[renameEpoch(subst(r, m), s.epoch, n.epoch)] = true
			}
			for r := range e.refs {
				if !have[r] {
					same = false
				}
			}
		}
		if n.log.all && !s.log.all {
			same = false
		}
		s = n
		if same {
			w.sums[ct] = s
			return s
		}
	}
	// no convergence: give up on locations
	for comp := range s.log.m {
		s.log.entry(comp).whole = true
	}
	w.sums[ct] = s
	return s
}

func renameEpoch(t *Term, from, to string) *Term {
	hs := map[*Term]bool{}
	collect(t, func(y *Term) bool { return y.op == "const" && strings.HasPrefix(y.name, "H"+from+".") }, hs, map[*Term]bool{})
	m := map[*Term]*Term{}
	for h := range hs {
		m[h] = mkConst("H"+to+"."+h.name[len(from)+2:], h.sort)
	}
	return subst(t, m)
}

func (w *World) summary1(ct *Contract) (s *Summary) {
	saveNext := w.nexts
	defer func() {
		w.nexts = saveNext
		if e := recover(); e != nil {
			if _, ok := e.(unsupported); !ok {
				panic(e)
			}
			s = nil
		}
	}()
	pkg := fnPkgPath(ct.fn)
	if ct.spec != nil {
		pkg = fnPkgPath(ct.spec)
	}
	x := w.newExec("summary "+ct.name, pkg, ct.spec)
	x.dry = 1
	ep := "S" + newEpoch()
	db.alloc++
	st := newState(ep)
	s = &Summary{epoch: ep}
	var args []Val
	pset := map[*Term]bool{}
	for _, p := range ct.fn.Params {
		v := x.freshParam(p.Name(), p.Type())
		pset[v] = true
		s.params = append(s.params, v)
		args = append(args, v)
	}
	n0 := db.alloc
	mark := db.n
	lg := newWriteLog()
	x.logs = append(x.logs, lg)
	x.runFunc(ct.fn, args, nil, st, tTrue)
	s.log = lg.normalise(n0, mark, func(t *Term) bool { return pset[t] || strings.HasPrefix(t.name, "GC.") })
	if os.Getenv("GOVC_WRITES") != "" {
		var cs []string
		for c, e := range s.log.m {
			cs = append(cs, fmt.Sprintf("%s(whole=%v,%d)", c, e.whole, len(e.refs)))
		}
		sort.Strings(cs)
		fmt.Fprintf(os.Stderr, "writes of %s: all=%v %s\n", ct.name, s.log.all, strings.Join(cs, " "))
	}
	return s
}
