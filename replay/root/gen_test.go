package gotsrpc

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/foomo/gotsrpc/v2/config"
)

func gProgs(t *testing.T, v *verifRun, n int, anon bool, f func(p *gProg)) {
	base := t.TempDir()
	for i := 0; i < v.rounds(n) && v.bad < 5; i++ {
		p := gNewProg(rand.New(rand.NewSource(v.rng.Int63())), filepath.Join(base, fmt.Sprint(i)), anon)
		if err := p.write(); err != nil {
			t.Fatal(err)
		}
		f(p)
		_ = os.RemoveAll(p.dir)
	}
}

// ---- C16 ----------------------------------------------------------------------

func TestVerifC16_exposed(t *testing.T) {
	v := newVerifRun(t)
	gProgs(t, v, 60, false, func(p *gProg) {
		r := p.read()
		if !v.ok(r.err == nil, "the package is not understood: %v\n%s", r.err, p.source()) {
			return
		}
		v.ok(r.pkgName == p.pkgs[0].name, "package name %q", r.pkgName)
		got := map[string]*Service{}
		for _, s := range r.services {
			v.ok(got[s.Name] == nil, "service %s is there twice", s.Name)
			got[s.Name] = s
		}
		v.ok(len(got) == len(p.services), "%d services of %d", len(got), len(p.services))
		for _, s := range p.services {
			g := got[s.name]
			if !v.ok(g != nil, "service %s is missing", s.name) {
				continue
			}
			v.ok(g.Endpoint == s.endpoint, "%s has endpoint %q, configured is %q", s.name, g.Endpoint, s.endpoint)
			v.ok(g.IsInterface == s.iface, "%s: interface: %v", s.name, g.IsInterface)
			var have, want []string
			for _, m := range g.Methods {
				have = append(have, m.Name)
			}
			for _, m := range s.exposed() {
				want = append(want, m.name)
			}
			v.ok(fmt.Sprint(have) == fmt.Sprint(want), "%s exposes %v, its exported methods are %v", s.name, have, want)
			for i, m := range s.exposed() {
				if i >= len(g.Methods) || g.Methods[i].Name != m.name {
					continue
				}
				names := func(fs []*Field) (ns []string) {
					for _, f := range fs {
						ns = append(ns, f.Name)
					}
					return
				}
				wnames := func(fs []*gField) (ns []string) {
					for _, f := range fs {
						ns = append(ns, f.name)
					}
					return
				}
				v.ok(fmt.Sprintf("%q", names(g.Methods[i].Args)) == fmt.Sprintf("%q", wnames(m.args)), "%s.%s takes %q, should take %q", s.name, m.name, names(g.Methods[i].Args), wnames(m.args))
				v.ok(fmt.Sprintf("%q", names(g.Methods[i].Return)) == fmt.Sprintf("%q", wnames(m.ret)), "%s.%s gives %q, should give %q", s.name, m.name, names(g.Methods[i].Return), wnames(m.ret))
			}
		}
		// fields of the structs read
		ds, _ := p.reach(nil)
		for d := range ds {
			st := r.structs[d.full()]
			if d.kind != "struct" || st == nil {
				continue
			}
			have, want := map[string]bool{}, map[string]bool{}
			for _, f := range st.Fields {
				have[f.Name] = true
			}
			for _, f := range d.fields {
				if !f.emb && token.IsExported(f.name) {
					if f.bare {
						want[""] = true
					} else {
						want[f.name] = true
					}
				}
			}
			v.ok(fmt.Sprint(have) == fmt.Sprint(want), "%s has the fields %v, its exported fields are %v", d.full(), have, want)
		}
	})
}

// ---- C20 ----------------------------------------------------------------------

// gCode reads generated Go code: its imports and type spellings.
type gCode struct {
	f       *ast.File
	aliases map[string]string // alias -> path
	self    string
	dup     string
}

func gParse(code, self string) (*gCode, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "gen.go", code, 0)
	if err != nil {
		return nil, err
	}
	c := &gCode{f: f, aliases: map[string]string{}, self: self}
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		n := filepath.Base(p)
		if im.Name != nil {
			n = im.Name.Name
		}
		if o, ok := c.aliases[n]; ok && o != p {
			c.dup = n + " is " + o + " and " + p
		}
		c.aliases[n] = p
	}
	return c, nil
}

func (c *gCode) canon(e ast.Expr) string {
	switch x := e.(type) {
	case *ast.Ident:
		if token.IsExported(x.Name) || x.Obj != nil || !gBuiltin[x.Name] {
			return c.self + "." + x.Name
		}
		return x.Name
	case *ast.StarExpr:
		return "*" + c.canon(x.X)
	case *ast.ArrayType:
		if x.Len != nil {
			return "[?]" + c.canon(x.Elt)
		}
		return "[]" + c.canon(x.Elt)
	case *ast.MapType:
		return "map[" + c.canon(x.Key) + "]" + c.canon(x.Value)
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok {
			if p, ok := c.aliases[id.Name]; ok {
				return p + "." + x.Sel.Name
			}
		}
	case *ast.InterfaceType:
		return "interface{}"
	}
	var b bytes.Buffer
	_ = printer.Fprint(&b, token.NewFileSet(), e)
	return "?" + b.String()
}

var gBuiltin = map[string]bool{"string": true, "bool": true, "byte": true, "error": true, "any": true, "int": true, "int8": true, "int16": true, "int32": true, "int64": true, "uint": true, "uint8": true, "uint16": true, "rune": true, "uintptr": true, "uint32": true, "uint64": true, "float32": true, "float64": true}

func (c *gCode) list(fl *ast.FieldList) (ts []string) {
	if fl == nil {
		return
	}
	for _, f := range fl.List {
		n := len(f.Names)
		if n == 0 {
			n = 1
		}
		for ; n > 0; n-- {
			ts = append(ts, c.canon(f.Type))
		}
	}
	return
}

func gCanons(fs []*gField) (ts []string) {
	for _, f := range fs {
		ts = append(ts, f.typ.canon())
	}
	return
}

func TestVerifC20_spelling(t *testing.T) {
	v := newVerifRun(t)
	gProgs(t, v, 60, false, func(p *gProg) {
		r := p.read()
		if !v.ok(r.err == nil, "the package is not understood: %v\n%s", r.err, p.source()) {
			return
		}
		self := p.pkgs[0].path
		target := &config.Target{Package: self, Services: p.serviceMap()}
		for _, s := range p.services {
			target.GoRPC = append(target.GoRPC, s.name)
			target.TSRPC = append(target.TSRPC, s.name)
		}
		unions := map[string][]string{}
		if v.rng.Intn(3) == 0 {
			unions[p.pkgs[1+v.rng.Intn(3)].path] = []string{"SomeUnion"}
		}
		get := func(name string, f func() (string, error)) *gCode {
			var code string
			var err error
			if pm := verifTry(func() { code, err = f() }); pm != nil {
				err = fmt.Errorf("panic: %v", pm)
			}
			if !v.ok(err == nil, "%s: %v", name, err) {
				return nil
			}
			c, err := gParse(code, self)
			if !v.ok(err == nil, "%s is not Go: %v\n%s", name, err, p.source()) {
				return nil
			}
			v.ok(c.dup == "", "%s: one alias for two packages: %s", name, c.dup)
			return c
		}
		same := func(where string, have, want []string) {
			v.ok(fmt.Sprintf("%q", have) == fmt.Sprintf("%q", want), "%s: generated types %q, the service's are %q", where, have, want)
		}
		clients := get("TSRPC client", func() (string, error) { return RenderGoTSRPCClients(r.services, self, r.pkgName, target) })
		proxies := get("TSRPC proxy", func() (string, error) { return RenderGoTSRPCProxies(r.services, self, r.pkgName, target, unions) })
		gclients := get("GoRPC client", func() (string, error) { return RenderGoRPCClients(r.services, self, r.pkgName, target) })
		gproxies := get("GoRPC proxy", func() (string, error) { return RenderGoRPCProxies(r.services, self, r.pkgName, target) })
		for _, s := range p.services {
			for _, m := range s.exposed() {
				where := s.name + "." + m.name
				args, rets := gCanons(m.data()), gCanons(m.ret)
				if clients != nil {
					if ft := gMethodOf(clients.f, s.name+"GoTSRPCClient", m.name); v.ok(ft != nil, "%s: no client method", where) {
						same(where+" TSRPC client arguments", clients.list(ft.Params)[1:], args)
						same(where+" TSRPC client results", clients.list(ft.Results), append(append([]string{}, rets...), "error"))
					}
					if ft := gFuncOf(clients.f, "HTTP"+s.name+"GoTSRPCClient", m.name); v.ok(ft != nil, "%s: no HTTP client method", where) {
						same(where+" HTTP client arguments", clients.list(ft.Params)[1:], args)
						same(where+" HTTP client results", clients.list(ft.Results), append(append([]string{}, rets...), "error"))
					}
				}
				if gclients != nil {
					if ft := gFuncOf(gclients.f, s.name+"GoRPCClient", m.name); v.ok(ft != nil, "%s: no GoRPC client method", where) {
						same(where+" GoRPC client arguments", gclients.list(ft.Params), args)
						same(where+" GoRPC client results", gclients.list(ft.Results), append(append([]string{}, rets...), "error"))
					}
				}
				if gproxies != nil {
					title := func(x string) string { return strings.ToUpper(x[:1]) + x[1:] }
					same(where+" GoRPC request", gproxies.structOf(title(s.name+m.name)+"Request"), args)
					same(where+" GoRPC response", gproxies.structOf(title(s.name+m.name)+"Response"), rets)
				}
				if proxies != nil {
					same(where+" TSRPC proxy arguments", proxies.argVars(s.name+"GoTSRPCProxy", m.name), args)
				}
			}
		}
		if proxies != nil && len(unions) > 0 {
			for pkg := range unions {
				found := false
				ast.Inspect(proxies.f, func(n ast.Node) bool {
					if cl, ok := n.(*ast.CompositeLit); ok && proxies.canonLit(cl) == pkg+".SomeUnion" {
						found = true
					}
					return true
				})
				v.ok(found, "the union %s.SomeUnion is not registered", pkg)
			}
		}
	})
}

func (c *gCode) canonLit(cl *ast.CompositeLit) string {
	if cl.Type == nil {
		return ""
	}
	return c.canon(cl.Type)
}

func gMethodOf(f *ast.File, iface, name string) (ft *ast.FuncType) {
	ast.Inspect(f, func(n ast.Node) bool {
		if ts, ok := n.(*ast.TypeSpec); ok && ts.Name.Name == iface {
			if it, ok := ts.Type.(*ast.InterfaceType); ok {
				for _, m := range it.Methods.List {
					if len(m.Names) == 1 && m.Names[0].Name == name {
						ft, _ = m.Type.(*ast.FuncType)
					}
				}
			}
		}
		return true
	})
	return
}

func gFuncOf(f *ast.File, recv, name string) *ast.FuncType {
	if d := gFuncDecl(f, recv, name); d != nil {
		return d.Type
	}
	return nil
}

func gFuncDecl(f *ast.File, recv, name string) *ast.FuncDecl {
	for _, d := range f.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Name.Name == name && fd.Recv != nil {
			if st, ok := fd.Recv.List[0].Type.(*ast.StarExpr); ok {
				if id, ok := st.X.(*ast.Ident); ok && id.Name == recv {
					return fd
				}
			}
		}
	}
	return nil
}

func (c *gCode) structOf(name string) (ts []string) {
	ts = []string{"no " + name}
	ast.Inspect(c.f, func(n ast.Node) bool {
		if s, ok := n.(*ast.TypeSpec); ok && s.Name.Name == name {
			if st, ok := s.Type.(*ast.StructType); ok {
				ts = c.list(st.Fields)
			}
		}
		return true
	})
	return
}

// argVars: the types of the variables the proxy decodes arguments into.
func (c *gCode) argVars(proxy, method string) (ts []string) {
	fd := gFuncDecl(c.f, proxy, "ServeHTTP")
	if fd == nil {
		return []string{"no ServeHTTP"}
	}
	ts = []string{"no case"}
	ast.Inspect(fd, func(n ast.Node) bool {
		cc, ok := n.(*ast.CaseClause)
		if !ok || len(cc.List) != 1 {
			return true
		}
		switch x := cc.List[0].(type) {
		case *ast.Ident:
			if x.Name != proxy+method {
				return true
			}
		case *ast.BasicLit:
			if x.Value != strconv.Quote(method) {
				return true
			}
		default:
			return true
		}
		ts = nil
		types := map[string]string{}
		for _, st := range cc.Body {
			switch s := st.(type) {
			case *ast.DeclStmt:
				if gd, ok := s.Decl.(*ast.GenDecl); ok {
					for _, sp := range gd.Specs {
						if vs, ok := sp.(*ast.ValueSpec); ok && vs.Type != nil {
							for _, n := range vs.Names {
								types[n.Name] = c.canon(vs.Type)
							}
						}
					}
				}
			case *ast.AssignStmt:
				for i, l := range s.Lhs {
					if id, ok := l.(*ast.Ident); ok && id.Name == "args" && i < len(s.Rhs) {
						if cl, ok := s.Rhs[i].(*ast.CompositeLit); ok {
							for _, e := range cl.Elts {
								if u, ok := e.(*ast.UnaryExpr); ok {
									if id, ok := u.X.(*ast.Ident); ok {
										ts = append(ts, types[id.Name])
									}
								}
							}
						}
					}
				}
			}
		}
		return false
	})
	return
}

// ---- C22 ----------------------------------------------------------------------

func gSubset(v *verifRun, ss []string) (out []string) {
	if v.rng.Intn(4) == 0 {
		return nil
	}
	for _, s := range ss {
		if v.rng.Intn(2) == 0 {
			out = append(out, s)
		}
	}
	if v.rng.Intn(5) == 0 {
		out = append(out, "Unrelated")
	}
	return
}

func gHas(ss []string, s string) bool {
	for _, x := range ss {
		if x == s {
			return true
		}
	}
	return false
}

func TestVerifC22_targets(t *testing.T) {
	v := newVerifRun(t)
	gProgs(t, v, 25, false, func(p *gProg) {
		r := p.read()
		if !v.ok(r.err == nil, "the package is not understood: %v", r.err) {
			return
		}
		self := p.pkgs[0].path
		var names []string
		for _, s := range p.services {
			names = append(names, s.name)
		}
		for k := 0; k < 4; k++ {
			target := &config.Target{Package: self, Services: p.serviceMap(), GoRPC: gSubset(v, names), TSRPC: gSubset(v, names)}
			check := func(kind string, f func() (string, error), marker func(s string) string, listed func(s string) bool) {
				var code string
				var err error
				if pm := verifTry(func() { code, err = f() }); pm != nil {
					err = fmt.Errorf("panic: %v", pm)
				}
				if !v.ok(err == nil, "%s: %v", kind, err) {
					return
				}
				for _, s := range names {
					has := regexp.MustCompile(marker(s)).MatchString(code)
					v.ok(has == listed(s), "%s of %s: rendered %v; gorpc %v, tsrpc %v", kind, s, has, target.GoRPC, target.TSRPC)
				}
			}
			ts := func(s string) bool { return len(target.TSRPC) == 0 || gHas(target.TSRPC, s) }
			gr := func(s string) bool { return gHas(target.GoRPC, s) }
			check("HTTP proxy", func() (string, error) { return RenderGoTSRPCProxies(r.services, self, r.pkgName, target, nil) }, func(s string) string { return `func \(p \*` + s + `GoTSRPCProxy\) ServeHTTP` }, ts)
			check("HTTP client", func() (string, error) { return RenderGoTSRPCClients(r.services, self, r.pkgName, target) }, func(s string) string { return `type HTTP` + s + `GoTSRPCClient struct` }, ts)
			check("GoRPC proxy", func() (string, error) { return RenderGoRPCProxies(r.services, self, r.pkgName, target) }, func(s string) string { return `func \(p \*` + s + `GoRPCProxy\) handler` }, gr)
			check("GoRPC client", func() (string, error) { return RenderGoRPCClients(r.services, self, r.pkgName, target) }, func(s string) string { return `type ` + s + `GoRPCClient struct` }, gr)
			check("TypeScript client", func() (string, error) {
				return RenderTypeScriptServices(r.services, config.TypeScriptMappings{}, r.scalars, r.structs, target)
			}, func(s string) string { return `export class ` + s + `Client \{` }, ts)
		}
	})
	// whole builds, with the files they leave
	for i := 0; i < v.rounds(2) && v.bad < 5; i++ {
		dir := t.TempDir()
		p := &gProg{dir: dir, mod: gMod}
		pk := &gPkg{path: gMod + "/svc", name: "svc", dir: "svc"}
		p.pkgs = []*gPkg{pk}
		for k := 0; k < 3; k++ {
			p.services = append(p.services, &gService{name: fmt.Sprintf("Svc%d", k), endpoint: fmt.Sprintf("/e%d", k), iface: true, methods: []*gMethod{{name: "Do", args: []*gField{{name: "a", typ: gPrim("int")}}}}})
		}
		if p.write() != nil {
			t.Fatal("cannot write")
		}
		names := []string{"Svc0", "Svc1", "Svc2"}
		tg := gTarget{out: "./ts/client.ts", gorpc: gSubset(v, names), tsrpc: gSubset(v, names)}
		if i == 0 {
			tg.gorpc, tg.tsrpc = []string{"Svc0", "Svc2"}, []string{"Svc1"}
		}
		exit, out := gBuild(dir, p.conf(tg, p.outs()), "")
		if !v.ok(exit == 0, "build failed: %s", out) {
			continue
		}
		rd := func(f string) string { b, _ := os.ReadFile(filepath.Join(dir, f)); return string(b) }
		for _, n := range names {
			v.ok(strings.Contains(rd("svc/gorpc_gen.go"), n+"GoRPCProxy struct") == gHas(tg.gorpc, n), "gorpc_gen.go and %s; listed: %v", n, tg.gorpc)
			v.ok(strings.Contains(rd("svc/gorpcclient_gen.go"), n+"GoRPCClient struct") == gHas(tg.gorpc, n), "gorpcclient_gen.go and %s; listed: %v", n, tg.gorpc)
			v.ok(strings.Contains(rd("svc/gotsrpc_gen.go"), n+"GoTSRPCProxy struct") == gHas(tg.tsrpc, n), "gotsrpc_gen.go and %s; listed: %v", n, tg.tsrpc)
			v.ok(strings.Contains(rd("svc/gotsrpcclient_gen.go"), "HTTP"+n+"GoTSRPCClient struct") == gHas(tg.tsrpc, n), "gotsrpcclient_gen.go and %s; listed: %v", n, tg.tsrpc)
			v.ok(strings.Contains(rd("ts/client.ts"), "class "+n+"Client") == (len(tg.tsrpc) == 0 || gHas(tg.tsrpc, n)), "client.ts and %s; listed: %v", n, tg.tsrpc)
		}
	}
}

func TestVerifC22_config(t *testing.T) {
	v := newVerifRun(t)
	dir := t.TempDir()
	for i := 0; i < v.rounds(30); i++ {
		sub := filepath.Join(dir, fmt.Sprint(i), "conf")
		_ = os.MkdirAll(sub, 0o755)
		mp := []string{".", "..", "./x", "x/y", "../z", "/abs/olute", ""}[v.rng.Intn(7)]
		var pkgs []string
		s := "module:\n  name: a.b/c\n"
		if mp != "" {
			s += "  path: " + mp + "\n"
		}
		s += "targets:\n  t:\n    package: a.b/c/d\n    services:\n      /x: X\n    tsrpc: [X]\n    out: o.ts\nmappings:\n"
		for k := 0; k < 1+v.rng.Intn(5); k++ {
			p := fmt.Sprintf("a.b/c/p%d", k)
			pkgs = append(pkgs, p)
			s += "  " + p + ":\n    out: out" + strconv.Itoa(k) + ".ts\n    structs: [" + p + ".S]\n"
		}
		f := filepath.Join(sub, "gotsrpc.yml")
		_ = os.WriteFile(f, []byte(s), 0o644)
		conf, err := config.LoadConfigFile(f)
		if !v.ok(err == nil, "not loaded: %v\n%s", err, s) {
			continue
		}
		v.ok(len(conf.Mappings) == len(pkgs), "%d mappings of %d", len(conf.Mappings), len(pkgs))
		for k, p := range pkgs {
			m := conf.Mappings[p]
			v.ok(m != nil && m.GoPackage == p && m.Out == fmt.Sprintf("out%d.ts", k) && fmt.Sprint(m.Structs) == "["+p+".S]", "mapping %s is %+v", p, m)
		}
		want := mp
		if mp != "" && !filepath.IsAbs(mp) {
			want = filepath.Join(sub, mp)
		}
		v.ok(conf.Module.Path == want && conf.Module.Name == "a.b/c", "module path %q of %s is %q, should be %q", mp, f, conf.Module.Path, want)
		tg := conf.Targets["t"]
		v.ok(tg != nil && tg.Package == "a.b/c/d" && tg.Services["/x"] == "X" && tg.Out == "o.ts" && len(tg.TSRPC) == 1, "target %+v", tg)
	}
	if _, err := config.LoadConfigFile(filepath.Join(dir, "none.yml")); err == nil {
		v.ok(false, "a configuration that is not there is loaded")
	}
	_ = os.WriteFile(filepath.Join(dir, "bad.yml"), []byte("targets: ["), 0o644)
	if _, err := config.LoadConfigFile(filepath.Join(dir, "bad.yml")); err == nil {
		v.ok(false, "a configuration that is no YAML is loaded")
	}
}

// ---- C17, C18, C19: whole TypeScript builds -----------------------------------

// gTS builds a program's TypeScript and gives the declarations of every
// package and the service file.
func gTS(v *verifRun, p *gProg) (decls map[string]string, client string, ok bool) {
	outs := p.outs()
	exit, out := gBuild(p.dir, p.conf(gTarget{out: "./ts/client.ts"}, outs), "")
	if !v.ok(exit == 0, "build failed with %d: %s\n%s", exit, out, p.source()) {
		return nil, "", false
	}
	decls = map[string]string{}
	for _, o := range outs {
		b, err := os.ReadFile(filepath.Join(p.dir, o))
		if err != nil {
			continue
		}
		for k, d := range gDecls(string(b)) {
			decls[k] = d
		}
	}
	b, err := os.ReadFile(filepath.Join(p.dir, "ts/client.ts"))
	v.ok(err == nil, "no client: %v", err)
	return decls, string(b), true
}

func TestVerifC17_types(t *testing.T) {
	v := newVerifRun(t)
	gProgs(t, v, 40, true, func(p *gProg) {
		decls, client, ok := gTS(v, p)
		if !ok {
			return
		}
		ds, _ := p.reach(nil)
		for d := range ds {
			if d.kind == "struct" {
				// member by member, whatever the order
				have := gMembers(decls[d.full()])
				for _, f := range d.fields {
					if f.emb || !token.IsExported(f.name) {
						continue
					}
					key, omit := gJSON(f.name, f.tag)
					if key == "" {
						continue
					}
					want := f.typ.ts(omit)
					if tt := gTypeTag(f.tag); tt != "" {
						want = tt
					}
					if !gIdent.MatchString(key) {
						key = strconv.Quote(key)
					}
					h, ok := have[key]
					if !ok {
						continue // C18's business
					}
					v.ok(gStrip(h.typ) == gStrip(want), "%s.%s %s `%s` renders as %q, should be %q", d.full(), f.name, f.typ.canon(), f.tag, h.typ, want)
				}
				continue
			}
			have := decls[d.full()]
			if len(d.consts) > 0 {
				have = regexp.MustCompile(`([{,])[^={},"]*=`).ReplaceAllString(have, "$1=") // the members' names are free
				have = strings.Replace(have, "{=", "{=", 1)
			}
			v.ok(have == gStrip(d.tsDecl()), "%s renders as %q, should be %q", d.full(), have, d.tsDecl())
		}
		// arguments and results
		text := gStrip(client)
		for _, s := range p.services {
			for _, m := range s.exposed() {
				var ps []string
				for _, a := range m.data() {
					ps = append(ps, a.name+":"+a.typ.ts(false))
				}
				var rs []string
				for i, f := range m.ret {
					n := f.name
					if n == "" {
						n = "ret"
						if i > 0 {
							n = fmt.Sprintf("ret_%d", i)
						}
					}
					rs = append(rs, n+":"+f.typ.ts(false))
				}
				res := "void"
				if len(m.ret) == 1 {
					res = m.ret[0].typ.ts(false)
				} else if len(m.ret) > 1 {
					res = "{" + strings.Join(rs, ";") + "}"
				}
				first := []rune(m.name)
				want := "async" + strings.ToLower(string(first[:1])) + string(first[1:]) + "(" + strings.Join(ps, ",") + "):Promise<" + res + ">{"
				i := strings.Index(text, "exportclass"+s.name+"Client{")
				v.ok(i >= 0 && strings.Contains(text[i:], gStrip(want)), "%s.%s should have the signature %s", s.name, m.name, want)
			}
		}
	})
}

type gMember struct {
	typ string
	opt bool
}

// gMembers splits an interface's text (without white space) into its members.
func gMembers(d string) map[string]gMember {
	m := map[string]gMember{}
	i := strings.IndexByte(d, '{')
	if i < 0 || !strings.HasPrefix(d, "exportinterface") {
		return m
	}
	s := strings.TrimSuffix(d[i+1:], "}")
	depth, start := 0, 0
	for j := 0; j < len(s); j++ {
		switch s[j] {
		case '{', '<', '(':
			depth++
		case '}', '>', ')':
			depth--
		case ';':
			if depth == 0 {
				x := s[start:j]
				start = j + 1
				k := strings.IndexByte(x, ':')
				if strings.HasPrefix(x, `"`) {
					if q := strings.IndexByte(x[1:], '"'); q >= 0 {
						k = q + 2 + strings.IndexByte(x[q+2:], ':')
					}
				}
				if k < 0 {
					continue
				}
				n := x[:k]
				m[strings.TrimSuffix(n, "?")] = gMember{x[k+1:], strings.HasSuffix(n, "?")}
			}
		}
	}
	return m
}

func TestVerifC18_members(t *testing.T) {
	v := newVerifRun(t)
	gProgs(t, v, 40, true, func(p *gProg) {
		decls, _, ok := gTS(v, p)
		if !ok {
			return
		}
		ds, _ := p.reach(nil)
		for d := range ds {
			if d.kind != "struct" {
				continue
			}
			text := decls[d.full()]
			if !v.ok(text != "", "%s is not rendered", d.full()) {
				continue
			}
			have, want := gMembers(text), map[string]bool{}
			for _, f := range d.fields {
				if f.emb || !token.IsExported(f.name) {
					continue
				}
				key, omit := gJSON(f.name, f.tag)
				if key == "" {
					continue
				}
				if !gIdent.MatchString(key) {
					key = strconv.Quote(key)
				}
				want[key] = true
				h, ok := have[key]
				v.ok(ok, "%s.%s `%s` has no member %s in %s", d.full(), f.name, f.tag, key, text)
				v.ok(!ok || h.opt == omit, "%s.%s `%s` is optional: %v", d.full(), f.name, f.tag, h.opt)
			}
			for k := range have {
				v.ok(want[k], "%s has a member %s that JSON does not carry: %s", d.full(), k, text)
			}
			wantExt := gStrip(d.tsDecl())
			wantExt = wantExt[:strings.IndexByte(wantExt, '{')]
			v.ok(strings.HasPrefix(text, wantExt+"{"), "%s should begin with %s: %s", d.full(), wantExt, text)
		}
	})
}

func TestVerifC19_collected(t *testing.T) {
	v := newVerifRun(t)
	gProgs(t, v, 60, true, func(p *gProg) {
		r := p.read()
		if !v.ok(r.err == nil, "the package is not understood: %v\n%s", r.err, p.source()) {
			return
		}
		ds, tm := p.reach(nil)
		for d := range ds {
			v.ok(r.structs[d.full()] != nil || r.scalars[d.full()] != nil, "%s is not collected\n%s", d.full(), p.source())
			v.ok((r.structs[d.full()] != nil) != (r.scalars[d.full()] != nil), "%s is collected as struct and scalar", d.full())
		}
		v.ok(!tm || r.structs["time.Time"] != nil, "time.Time is not collected")
		for _, n := range []string{"error", "net/http.Request", "net/http.ResponseWriter"} {
			_, a := r.structs[n]
			_, b := r.scalars[n]
			v.ok(!a && !b, "%s is collected", n)
		}
		for n, s := range r.structs {
			v.ok(s != nil && s.FullName() == n, "%s is collected as %+v", n, s)
		}
	})
	// a type that is not there
	gProgs(t, v, 25, true, func(p *gProg) {
		ds, _ := p.reach(nil)
		var cand []*gDecl
		for _, pk := range p.pkgs {
			for _, d := range pk.decls {
				if ds[d] {
					cand = append(cand, d)
				}
			}
		}
		if len(cand) == 0 {
			return
		}
		gone := cand[v.rng.Intn(len(cand))]
		var keep []*gDecl
		for _, d := range gone.pkg.decls {
			if d != gone {
				keep = append(keep, d)
			}
		}
		gone.pkg.decls = keep
		if len(keep) == 0 && v.rng.Intn(2) == 0 {
			_ = os.RemoveAll(filepath.Join(p.dir, gone.pkg.dir))
		}
		_ = p.write()
		r := p.read()
		v.ok(r.err != nil, "%s does not exist, and nobody complains\n%s", gone.full(), p.source())
	})
}

// ---- C21 ----------------------------------------------------------------------

var gImport = regexp.MustCompile(`(?m)^import \* as (\S+) from '([^']+)'`)

func TestVerifC21_imports(t *testing.T) {
	v := newVerifRun(t)
	gProgs(t, v, 25, true, func(p *gProg) {
		if _, _, ok := gTS(v, p); !ok {
			return
		}
		outs := p.outs()
		byModule := map[string]string{}
		for pkg, o := range outs {
			byModule[gModule(pkg)] = filepath.Clean(o)
		}
		files := []string{"ts/client.ts"}
		for _, o := range outs {
			files = append(files, filepath.Clean(o))
		}
		for _, f := range files {
			b, err := os.ReadFile(filepath.Join(p.dir, f))
			if err != nil {
				continue
			}
			imported := map[string]bool{}
			for _, m := range gImport.FindAllStringSubmatch(string(b), -1) {
				imported[m[1]] = true
				to := filepath.Join(filepath.Dir(f), m[2]) + ".ts"
				v.ok(to == byModule[m[1]] && strings.HasPrefix(m[2], "."), "%s imports %s from %s, which is %s; it lies in %s", f, m[1], m[2], to, byModule[m[1]])
			}
			for m := range byModule {
				used := regexp.MustCompile(`[:<,|>\s]` + regexp.QuoteMeta(m) + `\.`).MatchString(string(b))
				v.ok(!used || imported[m], "%s uses %s but does not import it", f, m)
			}
		}
	})
}

func TestVerifC21_paths(t *testing.T) {
	v := newVerifRun(t)
	n := 0
	for i := 0; i < v.rounds(10) && v.bad < 5; i++ {
		// the package: the module, inside it, beside it, or only named like it
		root := t.TempDir()
		mod, gopath := filepath.Join(root, "work"), filepath.Join(root, "gopath")
		rel := []string{"", "/svc", "/deep/svc", "-other/svc", "x", "/verif.test/mod/svc"}[i%6]
		pkgPath := gMod + rel
		inside := rel == "" || rel[0] == '/'
		want := filepath.Join(mod, rel)
		if !inside {
			want = filepath.Join(gopath, "src", pkgPath)
		}
		src := "package svc\n\ntype Service interface { Do(a int) int }\n"
		for _, d := range []string{filepath.Join(mod, rel), filepath.Join(gopath, "src", pkgPath)} {
			_ = os.MkdirAll(d, 0o755)
			text := src
			if d != want {
				text = "package wrong\n\ntype Service interface { Wrong() }\n"
			}
			_ = os.WriteFile(filepath.Join(d, "svc.go"), []byte(text), 0o644)
		}
		_ = os.WriteFile(filepath.Join(mod, "go.mod"), []byte("module "+gMod+"\n\ngo 1.23\n"), 0o644)
		conf := filepath.Join(mod, "gotsrpc.yml")
		_ = os.WriteFile(conf, []byte("module:\n  name: "+gMod+"\n  path: .\ntargets:\n  t:\n    package: "+pkgPath+"\n    services:\n      /s: Service\n    gorpc: [Service]\n"), 0o644)
		exit, out := gBuild(mod, conf, gopath, "GO111MODULE=auto", "GOPATH="+gopath)
		v.ok(exit == 0, "%s: build failed: %s", pkgPath, out)
		var where []string
		_ = filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
			if err == nil && filepath.Base(p) == "gorpc_gen.go" {
				where = append(where, filepath.Dir(p))
				b, _ := os.ReadFile(p)
				v.ok(strings.Contains(string(b), "ServiceDoRequest") && !strings.Contains(string(b), "Wrong"), "%s was parsed from another place", pkgPath)
			}
			return nil
		})
		v.ok(fmt.Sprint(where) == "["+want+"]", "%s was written to %v, should be in %s", pkgPath, where, want)
		n++
	}
	// types of required and replaced modules
	for i := 0; i < 5; i++ {
		root := t.TempDir()
		mod, gopath := filepath.Join(root, "work"), filepath.Join(root, "gopath")
		var dep, line string
		switch i {
		case 0:
			dep, line = filepath.Join(gopath, "pkg/mod/dep.test/m@v1.2.3/sub"), "require dep.test/m v1.2.3\n"
		case 1:
			dep, line = filepath.Join(root, "local/sub"), "require dep.test/m v1.2.3\n\nreplace dep.test/m => ../local\n"
		case 2:
			dep, line = filepath.Join(root, "abs/sub"), "require dep.test/m v1.2.3\n\nreplace dep.test/m => "+filepath.Join(root, "abs")+"\n"
		case 3:
			dep, line = filepath.Join(gopath, "pkg/mod/other.test/n@v0.1.0/sub"), "require dep.test/m v1.2.3\n\nreplace dep.test/m => other.test/n v0.1.0\n"
		case 4:
			dep, line = filepath.Join(gopath, "pkg/mod/dep.test/m@v1.2.3/sub"), "require (\n\tdep.test/mm v0.0.1\n\tdep.test/m v1.2.3\n)\n\nreplace dep.test/mm => ../local\n"
		}
		decoy := []string{filepath.Join(gopath, "src/dep.test/m/sub"), filepath.Join(gopath, "pkg/mod/dep.test/mm@v0.0.1/sub"), filepath.Join(gopath, "pkg/mod/dep.test/m@v1.2.3/sub"), filepath.Join(root, "local/sub")}
		for _, d := range append(decoy, dep) {
			_ = os.MkdirAll(d, 0o755)
			text := "package sub\n\ntype T struct { Wrong int }\n"
			if d == dep {
				text = "package sub\n\ntype T struct { Right int }\n"
			}
			_ = os.WriteFile(filepath.Join(d, "t.go"), []byte(text), 0o644)
		}
		_ = os.MkdirAll(filepath.Join(mod, "svc"), 0o755)
		_ = os.WriteFile(filepath.Join(mod, "svc/svc.go"), []byte("package svc\n\nimport \"dep.test/m/sub\"\n\ntype Service interface { Do(a sub.T) int }\n"), 0o644)
		_ = os.WriteFile(filepath.Join(mod, "go.mod"), []byte("module "+gMod+"\n\ngo 1.23\n\n"+line), 0o644)
		conf := filepath.Join(mod, "gotsrpc.yml")
		_ = os.WriteFile(conf, []byte("module:\n  name: "+gMod+"\n  path: .\ntargets:\n  t:\n    package: "+gMod+"/svc\n    out: ./ts/client.ts\n    services:\n      /s: Service\nmappings:\n  dep.test/m/sub:\n    out: ./ts/sub.ts\n"), 0o644)
		exit, out := gBuild(mod, conf, gopath)
		b, _ := os.ReadFile(filepath.Join(mod, "ts/sub.ts"))
		v.ok(exit == 0 && strings.Contains(string(b), "Right") && !strings.Contains(string(b), "Wrong"), "%q: package dep.test/m/sub was not read from %s: %s", line, dep, gTail(out))
	}
	_ = n
}

func gTail(s string) string {
	if len(s) > 300 {
		return "…" + s[len(s)-300:]
	}
	return s
}

// ---- C23 ----------------------------------------------------------------------

func TestVerifC23_files(t *testing.T) {
	v := newVerifRun(t)
	gProgs(t, v, 6, false, func(p *gProg) {
		outs := p.outs()
		home := filepath.Join(p.dir, "home")
		_ = os.MkdirAll(home, 0o755)
		out := "./new/dir/client.ts"
		file := filepath.Join(p.dir, out)
		tilde := v.rng.Intn(2) == 0
		if tilde {
			out = "~/a/client.ts"
			file = filepath.Join(home, "a/client.ts")
		}
		// what is to be written
		r := p.read()
		if !v.ok(r.err == nil, "not understood: %v", r.err) {
			return
		}
		conf := p.conf(gTarget{out: out}, outs)
		exit, msg := gBuild(p.dir, conf, "", "HOME="+home)
		if !v.ok(exit == 0, "build failed: %s", msg) {
			return
		}
		b, err := os.ReadFile(file)
		v.ok(err == nil && len(b) > 0, "%s is not written: %v", file, err)
		v.ok(strings.HasPrefix(string(b), "/* eslint:disable */\n// Code generated by gotsrpc"), "%s has no header", file)
		for _, s := range p.services {
			v.ok(strings.Count(string(b), "export class "+s.name+"Client {") == 1, "%s does not contain %s once", file, s.name)
		}
		want := string(b)
		// again: nothing to do
		files := []string{file}
		for _, o := range outs {
			if _, err := os.Stat(filepath.Join(p.dir, o)); err == nil {
				files = append(files, filepath.Join(p.dir, o))
			}
		}
		old := time.Unix(1000000000, 0)
		for _, f := range files {
			_ = os.Chtimes(f, old, old)
		}
		exit, msg = gBuild(p.dir, conf, "", "HOME="+home)
		v.ok(exit == 0, "second build failed: %s", msg)
		for _, f := range files {
			fi, err := os.Stat(f)
			v.ok(err == nil && fi.ModTime().Equal(old), "%s was written although nothing changed", f)
		}
		// other contents are replaced, whatever their length
		for _, c := range []string{"", "x", want + "more", strings.Repeat("z", len(want)), want[:len(want)-1], want[:len(want)/2]} {
			_ = os.WriteFile(file, []byte(c), 0o644)
			exit, msg = gBuild(p.dir, conf, "", "HOME="+home)
			b, _ := os.ReadFile(file)
			v.ok(exit == 0 && string(b) == want, "%s held %d other bytes and is not replaced: %s", file, len(c), gTail(msg))
		}
		// failures
		if tilde {
			_ = os.Remove(file)
			exit, _ = gBuild(p.dir, conf, "", "HOME=")
			v.ok(exit != 0, "no home directory, and no failure")
			exit, _ = gBuild(p.dir, conf, "")
			v.ok(exit != 0, "HOME is not set, and no failure")
			_, err := os.Stat(filepath.Join(p.dir, "~"))
			v.ok(err != nil, "a directory named ~ was made")
		}
		_ = os.Remove(file)
		_ = os.MkdirAll(file, 0o755)
		exit, _ = gBuild(p.dir, conf, "", "HOME="+home)
		v.ok(exit != 0, "the file cannot be written, and no failure")
		_ = os.RemoveAll(filepath.Dir(file))
		_ = os.WriteFile(filepath.Dir(file), []byte("a file"), 0o644)
		exit, _ = gBuild(p.dir, conf, "", "HOME="+home)
		v.ok(exit != 0, "the directory cannot be made, and no failure")
	})
}

var _ = runtime.GOROOT
var _ = sort.Strings
