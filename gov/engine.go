package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/foomo/gotsrpc/v2"
const specPath = modPath + "/verifspec"

func nowMs() int64 { return time.Now().UnixMilli() }

// Engine holds everything shared between function verifications.
type Engine struct {
	hints      map[string]fnHint
	fset       *token.FileSet
	pkgs       map[string]*packages.Package
	prog       *ssa.Program
	tags       Tags
	mu         sync.Mutex
	buildMu    sync.Mutex
	fnIDs      map[*ssa.Function]int64
	globIDs    map[*ssa.Global]int64
	implIfaces sync.Map
	contracts  map[*ssa.Function]*Contract
	ctList     []*Contract
	specFns    map[*types.Func]*SpecFn
	observed   map[string]bool
	dropped    []string // contract declarations that do not fit the current code
	frozen     map[*ssa.Global]bool
	roots      []*packages.Package
	astFns     map[*types.Func]*ast.FuncDecl
	declPkg    map[*types.Func]*packages.Package
	gwritten   map[*ssa.Global]int
	emitMu     sync.Mutex
	emits      map[*ssa.Function]map[string]bool
	modTypes   []types.Type
	inits      *initFacts
}

// Clause is one specification expression.
type Clause struct {
	name  string
	expr  ast.Expr
	holes []*types.Var
	trace bool
	ct    *Contract
	props []string
}

// Contract of one function.
type Contract struct {
	target     string
	decl       *ast.FuncDecl
	pkg        *packages.Package
	fn         *ssa.Function
	params     []*types.Var // receiver first
	results    []*types.Var
	props      []string
	requires   []*Clause
	ensures    []*Clause
	onPanic    []*Clause
	assigns    []*Clause
	assignsAll bool
	anyFrame   bool
	invs       []*Clause
	nopanic    bool
	pure       bool
	trusted    bool
	inline     bool // verified, but callers still see the body
	macros     map[types.Object]ast.Expr
	instArgs   []types.Type
	unroll     int
	err        string
	writers    []*Clause // writers the function may answer through
	decodes    []*Clause // values it decodes into
	nocapture  bool      // it keeps no reference to its arguments
	stable     []string  // struct types unknown code is assumed to leave alone
}

type SpecFn struct {
	obj  *types.Func
	decl *ast.FuncDecl
	pkg  *packages.Package
	rec  bool
}

func (e *Engine) fnID(f *ssa.Function) int64 {
	e.mu.Lock()
	defer e.mu.Unlock()
	if v, ok := e.fnIDs[f]; ok {
		return v
	}
	v := int64(len(e.fnIDs) + 1)
	e.fnIDs[f] = v
	return v
}

func (e *Engine) globID(g *ssa.Global) int64 {
	e.mu.Lock()
	defer e.mu.Unlock()
	if v, ok := e.globIDs[g]; ok {
		return v
	}
	v := int64(len(e.globIDs) + 1)
	e.globIDs[g] = v
	return v
}

func (e *Engine) build(p *ssa.Package) {
	if p == nil {
		return
	}
	e.buildMu.Lock()
	defer e.buildMu.Unlock()
	p.Build()
}

// overlayFile: a contract file and the place it takes in the module.
type overlayFile struct {
	src  string // path in /verif
	dst  string // path in the module
	text []byte
}

type LoadOpts struct {
	Dir      string // module directory (real source tree)
	Patterns []string
	Overlay  []overlayFile
}

// Load type-checks the module's current source together with the contracts.
// Contract declarations which do not type-check against the current source
// are dropped (and reported), so that a refactoring cannot break the check.
func Load(o LoadOpts) (*Engine, error) {
	e := &Engine{
		fnIDs: map[*ssa.Function]int64{}, globIDs: map[*ssa.Global]int64{},
		contracts: map[*ssa.Function]*Contract{}, specFns: map[*types.Func]*SpecFn{},
		observed: map[string]bool{}, pkgs: map[string]*packages.Package{},
		astFns: map[*types.Func]*ast.FuncDecl{}, declPkg: map[*types.Func]*packages.Package{},
		gwritten: map[*ssa.Global]int{}, emits: map[*ssa.Function]map[string]bool{},
	}
	files := append([]overlayFile(nil), o.Overlay...)
	for round := 0; round < 6; round++ {
		ov := map[string][]byte{}
		bydst := map[string]int{}
		for i, f := range files {
			ov[f.dst] = f.text
			bydst[f.dst] = i
		}
		fset := token.NewFileSet()
		cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: o.Dir, Overlay: ov, Fset: fset, BuildFlags: []string{"-tags=verif"}, Env: append(os.Environ(), "GOWORK=off")}
		ps, err := packages.Load(cfg, o.Patterns...)
		if err != nil {
			return nil, err
		}
		bad := map[int]map[int]bool{}
		var hard []string
		packages.Visit(ps, nil, func(p *packages.Package) {
			for _, er := range p.Errors {
				parts := strings.SplitN(er.Pos, ":", 3)
				if len(parts) >= 2 {
					if i, ok := bydst[parts[0]]; ok {
						ln, _ := strconv.Atoi(parts[1])
						if bad[i] == nil {
							bad[i] = map[int]bool{}
						}
						bad[i][ln] = true
						continue
					}
				}
				hard = append(hard, er.Error())
			}
		})
		if len(hard) > 0 && len(bad) == 0 {
			return nil, fmt.Errorf("the source tree does not type-check: %s", strings.Join(hard, "; "))
		}
		if len(bad) == 0 {
			e.fset = fset
			e.roots = ps
			packages.Visit(ps, nil, func(p *packages.Package) {
				if _, ok := e.pkgs[p.PkgPath]; !ok {
					e.pkgs[p.PkgPath] = p
				}
			})
			e.prog, _ = ssautil.AllPackages(ps, ssa.InstantiateGenerics)
			e.collect()
			return e, nil
		}
		for i, lines := range bad {
			t, dropped, err := dropDecls(files[i].text, lines)
			if err != nil {
				return nil, fmt.Errorf("contract file %s: %v", files[i].src, err)
			}
			for _, d := range dropped {
				e.dropped = append(e.dropped, filepath.Base(files[i].src)+": "+d)
			}
			if os.Getenv("GOV_DEBUG") != "" {
				for ln := range lines {
					fmt.Fprintf(os.Stderr, "contract %s:%d does not type-check\n", files[i].src, ln)
				}
				packages.Visit(ps, nil, func(p *packages.Package) {
					for _, er := range p.Errors {
						fmt.Fprintln(os.Stderr, "  ", er)
					}
				})
			}
			files[i].text = t
		}
	}
	return nil, fmt.Errorf("contracts do not type-check")
}

// dropDecls removes the declarations containing the given lines.
func dropDecls(src []byte, lines map[int]bool) ([]byte, []string, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", src, parser.ParseComments)
	if err != nil {
		return nil, nil, err
	}
	var dropped []string
	type span struct{ a, b int }
	var spans []span
	hit := map[int]bool{}
	for _, d := range f.Decls {
		a, b := fset.Position(d.Pos()), fset.Position(d.End())
		st := a.Offset
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Doc != nil {
			st = fset.Position(fd.Doc.Pos()).Offset
		}
		for ln := range lines {
			if ln >= a.Line && ln <= b.Line {
				hit[ln] = true
				if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.IMPORT {
					// unused imports: drop the import line itself
					for _, s := range gd.Specs {
						if fset.Position(s.Pos()).Line == ln {
							spans = append(spans, span{fset.Position(s.Pos()).Offset, fset.Position(s.End()).Offset})
						}
					}
					continue
				}
				name := "declaration"
				if fd, ok := d.(*ast.FuncDecl); ok {
					name = fd.Name.Name
				}
				dropped = append(dropped, name)
				spans = append(spans, span{st, b.Offset})
				break
			}
		}
	}
	if len(spans) == 0 {
		return nil, nil, fmt.Errorf("cannot locate type errors at lines %v", lines)
	}
	sort.Slice(spans, func(i, j int) bool { return spans[i].a > spans[j].a })
	out := append([]byte(nil), src...)
	for _, s := range spans {
		for i := s.a; i < s.b; i++ {
			if out[i] != '\n' {
				out[i] = ' '
			}
		}
	}
	_ = bytes.NewBuffer
	_ = format.Source
	return out, dropped, nil
}

func (e *Engine) inModule(p *types.Package) bool {
	return p != nil && (p.Path() == modPath || strings.HasPrefix(p.Path(), modPath+"/") || strings.HasPrefix(p.Path(), "verifcorpus"))
}

// ssaPkg returns the SSA package for a path.
func (e *Engine) ssaPkg(path string) *ssa.Package {
	p := e.pkgs[path]
	if p == nil {
		return nil
	}
	sp := e.prog.Package(p.Types)
	e.build(sp)
	return sp
}

// findFn resolves "Name", "(*T).Name", "(T).Name" in package p; "$1" suffixes
// select anonymous functions.
func (e *Engine) findFn(p *packages.Package, target string) *ssa.Function {
	anon := ""
	if i := strings.IndexByte(target, '$'); i >= 0 {
		target, anon = target[:i], target[i+1:]
	}
	sp := e.prog.Package(p.Types)
	e.build(sp)
	var fn *ssa.Function
	if strings.HasPrefix(target, "(") {
		j := strings.Index(target, ").")
		if j < 0 {
			return nil
		}
		rt, name := target[1:j], target[j+2:]
		ptr := strings.HasPrefix(rt, "*")
		rt = strings.TrimPrefix(rt, "*")
		o := p.Types.Scope().Lookup(rt)
		if o == nil {
			return nil
		}
		T := o.Type()
		if ptr {
			T = types.NewPointer(T)
		}
		obj, _, _ := types.LookupFieldOrMethod(T, true, p.Types, name)
		f, ok := obj.(*types.Func)
		if !ok {
			return nil
		}
		fn = e.prog.FuncValue(f)
	} else {
		fn = sp.Func(target)
	}
	if fn == nil {
		return nil
	}
	if anon != "" {
		for _, k := range strings.Split(anon, "$") {
			n, _ := strconv.Atoi(k)
			if n < 1 || n > len(fn.AnonFuncs) {
				return nil
			}
			fn = fn.AnonFuncs[n-1]
		}
	}
	return fn
}

func (e *Engine) collect() {
	var paths []string
	for p := range e.pkgs {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	e.computeInit()
	for _, path := range paths {
		p := e.pkgs[path]
		if !e.inModule(p.Types) || path == specPath {
			continue
		}
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok {
					continue
				}
				obj, _ := p.TypesInfo.Defs[fd.Name].(*types.Func)
				if obj == nil {
					continue
				}
				e.astFns[obj] = fd
				e.declPkg[obj] = p
				if fd.Doc == nil {
					continue
				}
				for _, c := range fd.Doc.List {
					t := strings.TrimSpace(strings.TrimPrefix(c.Text, "//"))
					if strings.HasPrefix(t, "@ contract ") {
						e.addContract(p, fd, strings.TrimSpace(strings.TrimPrefix(t, "@ contract ")))
					}
					if t == "@ spec" {
						e.specFns[obj] = &SpecFn{obj: obj, decl: fd, pkg: p}
					}
				}
			}
		}
	}
	for _, sf := range e.specFns {
		sf.rec = e.specRecursive(sf)
	}
	for _, ct := range e.ctList {
		for _, cl := range ct.all() {
			e.scanTrace(ct, cl)
		}
	}
}

func (ct *Contract) all() []*Clause {
	var out []*Clause
	out = append(out, ct.requires...)
	out = append(out, ct.ensures...)
	out = append(out, ct.onPanic...)
	return out
}

func (e *Engine) specRecursive(sf *SpecFn) bool {
	seen := map[*SpecFn]bool{}
	var reach func(s *SpecFn) bool
	reach = func(s *SpecFn) bool {
		found := false
		ast.Inspect(s.decl.Body, func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok {
				if f, ok := s.pkg.TypesInfo.Uses[id].(*types.Func); ok {
					if t, ok := e.specFns[f]; ok {
						if t == sf {
							found = true
						} else if !seen[t] {
							seen[t] = true
							if reach(t) {
								found = true
							}
						}
					}
				}
			}
			return true
		})
		return found
	}
	return reach(sf)
}

func gsName(info *types.Info, fun ast.Expr) string {
	switch x := fun.(type) {
	case *ast.IndexExpr:
		return gsName(info, x.X)
	case *ast.IndexListExpr:
		return gsName(info, x.X)
	case *ast.ParenExpr:
		return gsName(info, x.X)
	case *ast.SelectorExpr:
		if o := info.Uses[x.Sel]; o != nil && o.Pkg() != nil && o.Pkg().Path() == specPath && info.Selections[x] == nil {
			return o.Name()
		}
	}
	return ""
}

// scanTrace marks clauses that talk about the event trace, and collects the
// event names they observe.
func (e *Engine) scanTrace(ct *Contract, cl *Clause) {
	var visit func(n ast.Node, pkg *packages.Package, macros map[types.Object]ast.Expr, depth int)
	visit = func(n ast.Node, pkg *packages.Package, macros map[types.Object]ast.Expr, depth int) {
		if depth > 6 {
			return
		}
		ast.Inspect(n, func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok {
				o := pkg.TypesInfo.Uses[id]
				if m, ok := macros[o]; ok {
					visit(m, pkg, macros, depth+1)
				}
				if f, ok := o.(*types.Func); ok {
					if sf, ok := e.specFns[f]; ok && !sf.rec {
						visit(sf.decl.Body, sf.pkg, nil, depth+1)
					}
				}
			}
			call, ok := n.(*ast.CallExpr)
			if !ok {
				return true
			}
			switch gsName(pkg.TypesInfo, call.Fun) {
			case "Count", "Arg", "Ret", "Recv", "At", "After", "Before":
				cl.trace = true
				for _, a := range call.Args {
					if tv, ok := pkg.TypesInfo.Types[a]; ok && tv.Value != nil && tv.Type != nil {
						if b, ok := tv.Type.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
							e.observed[strings.Trim(tv.Value.ExactString(), `"`)] = true
						}
					}
				}
			case "CountOf", "DynArg", "DynRet", "AtDyn", "AfterDyn":
				cl.trace = true
				e.observed["dyn"] = true
			}
			return true
		})
	}
	visit(cl.expr, ct.pkg, ct.macros, 0)
}

func (e *Engine) addContract(p *packages.Package, fd *ast.FuncDecl, target string) {
	ct := &Contract{target: target, decl: fd, pkg: p, macros: map[types.Object]ast.Expr{}}
	pkg := p
	if i := strings.LastIndex(target, " in "); i >= 0 {
		pkg = e.pkgs[strings.TrimSpace(target[i+4:])]

		target = strings.TrimSpace(target[:i])
		if pkg == nil {
			e.dropped = append(e.dropped, fd.Name.Name+": package not found")
			return
		}
	}
	ct.fn = e.findFn(pkg, target)
	if ct.fn == nil {
		ct.fn = e.initFn(pkg, target)
	}
	info := p.TypesInfo
	sig := info.Defs[fd.Name].Type().(*types.Signature)
	var vars []*types.Var
	for i := 0; i < sig.Params().Len(); i++ {
		vars = append(vars, sig.Params().At(i))
	}
	if ct.fn == nil {
		e.dropped = append(e.dropped, fd.Name.Name+": no function "+target)
		return
	}
	// parameters (receiver first, then free variables for closures), then results
	var want []types.Type
	for _, q := range ct.fn.Params {
		want = append(want, q.Type())
	}
	for _, q := range ct.fn.FreeVars {
		want = append(want, q.Type())
	}
	np := len(want)
	res := ct.fn.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		want = append(want, res.At(i).Type())
	}
	if len(want) != len(vars) {
		e.dropped = append(e.dropped, fmt.Sprintf("%s: %s has %d parameters and results, the contract %d", fd.Name.Name, target, len(want), len(vars)))
		return
	}
	for i := range want {
		if !types.Identical(want[i], vars[i].Type()) {
			e.dropped = append(e.dropped, fmt.Sprintf("%s: parameter/result %d of %s is %s, the contract has %s", fd.Name.Name, i, target, want[i], vars[i].Type()))
			return
		}
	}
	ct.params, ct.results = vars[:np], vars[np:]
	for _, s := range fd.Body.List {
		switch x := s.(type) {
		case *ast.AssignStmt:
			if x.Tok == token.DEFINE && len(x.Lhs) == len(x.Rhs) {
				for i := range x.Lhs {
					ct.macros[info.Defs[x.Lhs[i].(*ast.Ident)]] = x.Rhs[i]
				}
				continue
			}
			if id, ok := x.Lhs[0].(*ast.Ident); ok && id.Name == "_" {
				continue
			}
		case *ast.ExprStmt:
			call, ok := x.X.(*ast.CallExpr)
			if !ok {
				break
			}
			str := func(i int) string {
				tv := info.Types[call.Args[i]]
				s, _ := strconv.Unquote(tv.Value.ExactString())
				return s
			}
			switch gsName(info, call.Fun) {
			case "Property":
				for i := range call.Args {
					ct.props = append(ct.props, str(i))
				}
			case "Requires":
				for i := range call.Args {
					ct.requires = append(ct.requires, &Clause{name: fmt.Sprintf("requires%d", len(ct.requires)+1), expr: call.Args[i], ct: ct})
				}
			case "Ensures":
				ct.ensures = append(ct.ensures, &Clause{name: str(0), expr: call.Args[1], ct: ct, props: strArgs(info, call.Args[2:])})
			case "OnPanic":
				ct.onPanic = append(ct.onPanic, &Clause{name: str(0), expr: call.Args[1], ct: ct, props: strArgs(info, call.Args[2:])})
			case "Assigns":
				for _, a := range call.Args {
					ct.assigns = append(ct.assigns, &Clause{name: "assigns", expr: a, ct: ct})
				}
			case "AssignsAll":
				ct.assignsAll = true
			case "AssignsWriter":
				ct.writers = append(ct.writers, &Clause{name: "writer", expr: call.Args[0], ct: ct})
			case "AssignsDecoded":
				ct.decodes = append(ct.decodes, &Clause{name: "decoded", expr: call.Args[0], ct: ct})
			case "NoCapture":
				ct.nocapture = true
			case "Stable":
				ct.stable = append(ct.stable, str(0))
			case "AnyFrame":
				ct.anyFrame = true
			case "NoPanic":
				ct.nopanic = true
			case "Pure":
				ct.pure = true
			case "Trusted":
				ct.trusted = true
			case "InlineAtCalls":
				ct.inline = true
			case "Unroll":
				n, _ := strconv.Atoi(info.Types[call.Args[0]].Value.ExactString())
				ct.unroll = n
			case "Invariant":
				fl := call.Args[1].(*ast.FuncLit)
				cl := &Clause{name: str(0), ct: ct}
				fsig := info.Types[fl].Type.(*types.Signature)
				for i := 0; i < fsig.Params().Len(); i++ {
					cl.holes = append(cl.holes, fsig.Params().At(i))
				}
				cl.expr = fl.Body.List[len(fl.Body.List)-1].(*ast.ReturnStmt).Results[0]
				ct.invs = append(ct.invs, cl)
			default:
				e.dropped = append(e.dropped, fd.Name.Name+": unknown statement in contract")
			}
			continue
		}
	}
	if o, ok := e.contracts[ct.fn]; ok {
		// several contracts for one function: merge clauses is not supported
		e.dropped = append(e.dropped, fd.Name.Name+": duplicate contract for "+o.target)
		return
	}
	e.contracts[ct.fn] = ct
	e.ctList = append(e.ctList, ct)
}

func strArgs(info *types.Info, as []ast.Expr) []string {
	var out []string
	for _, a := range as {
		s, _ := strconv.Unquote(info.Types[a].Value.ExactString())
		out = append(out, s)
	}
	return out
}
