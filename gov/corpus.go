package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

// The corpus: services (/verif/corpus) for which the generator built from the
// current tree generates proxies and clients anew on every run. The generated
// code is then verified like the module's own.

type cArg struct{ name, typ string }

type cMethod struct {
	name string
	http bool
	args []cArg // without the HTTP ones
	rets []cArg
}

type cService struct {
	pkg, pkgName, endpoint, name string
	iface                        bool
	gorpc, tsrpc                 bool
	methods                      []*cMethod
	imports                      map[string]string // name -> path
	req, res                     map[string][]string
}

type Corpus struct {
	dir      string
	services []*cService
	overlay  []overlayFile // sources, generated code and contracts
	tests    []overlayFile // harness
	patterns []string
	failure  string // the generator fails, or its code does not compile
	log      string
}

var corpusTargets = []cService{
	{pkg: "alpha", name: "Service", endpoint: "/alpha", gorpc: true, tsrpc: true},
	{pkg: "alpha", name: "Admin", endpoint: "/alpha/admin", gorpc: true, tsrpc: true},
	{pkg: "plain", name: "Service", endpoint: "/plain", gorpc: true, tsrpc: true},
}

const corpusRoot = "verifcorpus"

var theCorpus *Corpus
var corpusErr error
var corpusOnce sync.Once

func getCorpus() (*Corpus, error) {
	corpusOnce.Do(func() { theCorpus, corpusErr = buildCorpus() })
	return theCorpus, corpusErr
}

func dropCorpus() {
	if theCorpus != nil {
		os.RemoveAll(theCorpus.dir)
	}
}

func copyTree(src, dst string) error {
	return filepath.Walk(src, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		if fi.IsDir() {
			return os.MkdirAll(filepath.Join(dst, rel), 0o755)
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(filepath.Join(dst, rel), b, 0o644)
	})
}

// runGenerator lays a corpus out in dir and runs the tree's generator on it.
func runGenerator(src, dir string) (string, error) {
	if err := copyTree(src, filepath.Join(dir, corpusRoot)); err != nil {
		return "", err
	}
	y, err := os.ReadFile(filepath.Join(src, "gotsrpc.yml"))
	if err != nil {
		return "", err
	}
	os.Remove(filepath.Join(dir, corpusRoot, "gotsrpc.yml"))
	os.WriteFile(filepath.Join(dir, "gotsrpc.yml"), y, 0o644)
	os.MkdirAll(filepath.Join(dir, "ts"), 0o755)
	bin := filepath.Join(dir, "gotsrpc.bin")
	b := exec.Command(goRoot+"/bin/go", "build", "-o", bin, "./cmd/gotsrpc")
	b.Dir = repoDir
	if out, err := b.CombinedOutput(); err != nil {
		return "", fmt.Errorf("building the generator: %v\n%s", err, tail(string(out), 2000))
	}
	c := exec.Command(bin, "gotsrpc.yml")
	c.Dir = dir
	c.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GO111MODULE=on")
	var out bytes.Buffer
	c.Stdout, c.Stderr = &out, &out
	if err := c.Start(); err != nil {
		return "", err
	}
	done := make(chan error, 1)
	go func() { done <- c.Wait() }()
	select {
	case err = <-done:
	case <-time.After(90 * time.Second):
		c.Process.Kill()
		err = fmt.Errorf("the generator did not end")
		<-done
	}
	if err != nil {
		return out.String(), genFailure{err}
	}
	return out.String(), nil
}

type genFailure struct{ error }

func buildCorpus() (*Corpus, error) {
	dir, err := os.MkdirTemp("", "govcorpus")
	if err != nil {
		return nil, err
	}
	c := &Corpus{dir: dir}
	out, err := runGenerator(filepath.Join(verifDir, "corpus"), dir)
	c.log = out
	if err != nil {
		if _, ok := err.(genFailure); ok {
			c.failure = "the generator fails on the corpus: " + err.Error() + "\n" + tail(out, 4000)
			return c, nil
		}
		os.RemoveAll(dir)
		return nil, err
	}
	pkgs := map[string]bool{}
	base := filepath.Join(dir, corpusRoot)
	filepath.Walk(base, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && strings.HasSuffix(p, ".go") {
			rel, _ := filepath.Rel(base, p)
			b, _ := os.ReadFile(p)
			c.overlay = append(c.overlay, overlayFile{src: p, dst: filepath.Join(repoDir, corpusRoot, rel), text: b})
			pkgs[modPath+"/"+corpusRoot+"/"+filepath.Dir(rel)] = true
		}
		return nil
	})
	for p := range pkgs {
		c.patterns = append(c.patterns, p)
	}
	sort.Strings(c.patterns)
	// does it compile?
	of := filepath.Join(dir, "overlay.json")
	writeOverlay(of, c.overlay)
	b := exec.Command(goRoot+"/bin/go", append([]string{"build", "-overlay=" + of}, c.patterns...)...)
	b.Dir = repoDir
	if out, err := b.CombinedOutput(); err != nil {
		c.failure = "the generated code does not compile:\n" + tail(string(out), 4000)
		return c, nil
	}
	for i := range corpusTargets {
		s := corpusTargets[i]
		if err := c.readService(&s); err != nil {
			c.failure = err.Error()
			return c, nil
		}
		c.services = append(c.services, &s)
	}
	for _, s := range c.services {
		d := filepath.Join(repoDir, corpusRoot, s.pkg)
		c.overlay = append(c.overlay, overlayFile{src: "(contracts for " + s.pkg + "." + s.name + ")", dst: filepath.Join(d, "zz_verif_ct_"+strings.ToLower(s.name)+".go"), text: []byte(s.contracts())})
		c.tests = append(c.tests, overlayFile{src: filepath.Join(dir, "test_"+s.pkg+"_"+s.name+"_test.go"), dst: filepath.Join(d, "zz_verif_"+strings.ToLower(s.name)+"_test.go"), text: []byte(s.harness())})
	}
	common, err := os.ReadFile(filepath.Join(verifDir, "replay_corpus", "common_test.go"))
	if err != nil {
		return nil, err
	}
	for _, s := range c.services {
		if dst := filepath.Join(repoDir, corpusRoot, s.pkg, "zz_verif_common_test.go"); !c.hasTest(dst) {
			c.tests = append(c.tests, overlayFile{src: filepath.Join(dir, "test_"+s.pkg+"_common_test.go"), dst: dst, text: bytes.Replace(common, []byte("package PKG"), []byte("package "+s.pkgName), 1)})
		}
	}
	for _, t := range c.tests {
		os.WriteFile(t.src, t.text, 0o644)
	}
	return c, nil
}

func (c *Corpus) hasTest(dst string) bool {
	for _, t := range c.tests {
		if t.dst == dst {
			return true
		}
	}
	return false
}

// testPkgs: the packages of the corpus that have services.
func (c *Corpus) testPkgs() (out []string) {
	for _, s := range c.services {
		if len(out) == 0 || out[len(out)-1] != s.pkg {
			out = append(out, s.pkg)
		}
	}
	return
}

func writeOverlay(path string, fs []overlayFile) {
	var b strings.Builder
	b.WriteString("{\"Replace\":{")
	for i, f := range fs {
		if i > 0 {
			b.WriteString(",")
		}
		fmt.Fprintf(&b, "%q:%q", f.dst, f.src)
	}
	b.WriteString("}}")
	os.WriteFile(path, []byte(b.String()), 0o644)
}

func exprText(fset *token.FileSet, e ast.Expr) string {
	var b bytes.Buffer
	printer.Fprint(&b, fset, e)
	return b.String()
}

func fieldList(fset *token.FileSet, fl *ast.FieldList, prefix string) []cArg {
	var out []cArg
	if fl == nil {
		return nil
	}
	for _, f := range fl.List {
		t := exprText(fset, f.Type)
		if len(f.Names) == 0 {
			out = append(out, cArg{fmt.Sprintf("%s%d", prefix, len(out)), t})
			continue
		}
		for _, n := range f.Names {
			out = append(out, cArg{n.Name, t})
		}
	}
	return out
}

// readService reads the service's declaration (the corpus source) and the
// field names of the generated request and response types.
func (c *Corpus) readService(s *cService) error {
	dir := filepath.Join(c.dir, corpusRoot, s.pkg)
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, filepath.Join(dir, "service.go"), nil, 0)
	if err != nil {
		return err
	}
	s.pkgName = f.Name.Name
	s.imports = map[string]string{}
	for _, im := range f.Imports {
		p := strings.Trim(im.Path.Value, `"`)
		n := p[strings.LastIndexByte(p, '/')+1:]
		if im.Name != nil {
			n = im.Name.Name
		}
		s.imports[n] = p
	}
	add := func(name string, ft *ast.FuncType) {
		if !ast.IsExported(name) {
			return
		}
		m := &cMethod{name: name, args: fieldList(fset, ft.Params, "p"), rets: fieldList(fset, ft.Results, "r")}
		if len(m.args) > 0 && m.args[0].typ == "http.ResponseWriter" {
			m.http = true
			m.args = m.args[2:]
		}
		s.methods = append(s.methods, m)
	}
	for _, d := range f.Decls {
		switch x := d.(type) {
		case *ast.GenDecl:
			for _, sp := range x.Specs {
				ts, ok := sp.(*ast.TypeSpec)
				if !ok || ts.Name.Name != s.name {
					continue
				}
				if it, ok := ts.Type.(*ast.InterfaceType); ok {
					s.iface = true
					for _, m := range it.Methods.List {
						if len(m.Names) == 1 {
							add(m.Names[0].Name, m.Type.(*ast.FuncType))
						}
					}
				}
			}
		case *ast.FuncDecl:
			if x.Recv != nil && exprText(fset, x.Recv.List[0].Type) == "*"+s.name {
				add(x.Name.Name, x.Type)
			}
		}
	}
	sort.Slice(s.methods, func(i, j int) bool { return s.methods[i].name < s.methods[j].name })
	s.req, s.res = map[string][]string{}, map[string][]string{}
	if g, err := parser.ParseFile(token.NewFileSet(), filepath.Join(dir, "gorpc_gen.go"), nil, 0); err == nil {
		ast.Inspect(g, func(n ast.Node) bool {
			ts, ok := n.(*ast.TypeSpec)
			if !ok {
				return true
			}
			st, ok := ts.Type.(*ast.StructType)
			if !ok {
				return true
			}
			var names []string
			for _, f := range st.Fields.List {
				for _, n := range f.Names {
					names = append(names, n.Name)
				}
			}
			for _, m := range s.methods {
				switch ts.Name.Name {
				case s.name + m.name + "Request":
					s.req[m.name] = names
				case s.name + m.name + "Response":
					s.res[m.name] = names
				}
			}
			return true
		})
	}
	return nil
}

func (s *cService) typ() string {
	if s.iface {
		return s.name
	}
	return "*" + s.name
}

// usedImports: the service's imports that its methods' types mention.
func (s *cService) usedImports(body string) string {
	var b strings.Builder
	var ns []string
	for n := range s.imports {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		if strings.Contains(body, n+".") && s.imports[n] != "net/http" {
			fmt.Fprintf(&b, "\t%s %q\n", n, s.imports[n])
		}
	}
	return b.String()
}

// boxed: at an event, expression e holds value val of type typ.
func boxed(ev, e, typ, val string) string {
	if typ == "error" || strings.HasPrefix(typ, "interface") || typ == "any" {
		return fmt.Sprintf("gs.At(%q, 0, %s) == %s", ev, e, val)
	}
	return fmt.Sprintf("gs.At(%q, 0, gs.IsType[%s](%s) && gs.Same(%s.(%s), %s))", ev, typ, e, e, typ, val)
}

// contracts: the properties of one service's proxies and clients.
func (s *cService) contracts() string {
	var b strings.Builder
	p := func(f string, a ...any) { fmt.Fprintf(&b, f+"\n", a...) }
	ev := func(m *cMethod) string { return s.pkgName + "." + s.name + "." + m.name }
	N := s.name
	typ := s.typ()

	if !s.iface {
		// the service itself: its methods may do anything
		for _, m := range s.methods {
			var ps []string
			ps = append(ps, "s *"+N)
			if m.http {
				ps = append(ps, "w http.ResponseWriter", "r *http.Request")
			}
			for i, a := range m.args {
				ps = append(ps, fmt.Sprintf("a%d %s", i, a.typ))
			}
			for i, r := range m.rets {
				ps = append(ps, fmt.Sprintf("r%d %s", i, r.typ))
			}
			p("//@ contract (*%s).%s\nfunc ctService%s%s(%s) {\n\tgs.Trusted()\n\tgs.AssignsAll()\n}\n", N, m.name, N, m.name, strings.Join(ps, ", "))
		}
	}

	// ---- the HTTP proxy
	p("func lemmaServe%s(service %s, endpoint string, w http.ResponseWriter, r *http.Request) {\n\tNew%sGoTSRPCProxy(service, endpoint).ServeHTTP(w, r)\n}\n", N, typ, N)
	p("//@ contract lemmaServe%s\nfunc ctServe%s(service %s, endpoint string, w http.ResponseWriter, r *http.Request) {", N, N, typ)
	p("\tgs.Property(\"C01\", \"C02\", \"C03\", \"C04\", \"C06\")")
	p("\tgs.Stable(\"%s.CallStats\")", modPath)
	p("\tgs.Requires(service != nil, w != nil, r != nil, r.URL != nil, r.Body != nil, gs.Status(w) == 0, strings.HasPrefix(r.URL.Path, \"/\"))")
	p("\tpost := gs.Old(r.Method) == \"POST\"")
	p("\tpath := gs.Old(r.URL.Path)")
	var known []string
	for _, m := range s.methods {
		known = append(known, fmt.Sprintf("path == endpoint+\"/%s\"", m.name))
	}
	p("\tknown := post && (%s)", strings.Join(known, " || "))
	p("\tload := gs.Count(\"gotsrpc.LoadArgs\") == 1")
	p("\tloaded := load && gs.Ret[error](\"gotsrpc.LoadArgs\", 0, 0) == nil")
	p("\ttargets := decodeTargets%s(gs.Arg[interface{}](\"gotsrpc.LoadArgs\", 0, 0))", N)
	p("\treply := gs.Count(\"gotsrpc.Reply\") == 1")
	p("\treplied := reply && gs.Ret[error](\"gotsrpc.Reply\", 0, 0) == nil")
	p("\tvalues := gs.Arg[[]interface{}](\"gotsrpc.Reply\", 0, 0)")
	p("\town := gs.Old(gotsrpc.VerifStatsOf(r))")
	p("\thasOwn := gs.IsType[*gotsrpc.CallStats](own) && own.(*gotsrpc.CallStats) != nil")
	p("\tmonitored := gs.Count(\"gotsrpc.Monitor\") == 1")
	p("\tgs.Ensures(\"OPTIONS is answered without an error\", gs.Implies(gs.Old(r.Method) == \"OPTIONS\", gs.Status(w) == 0), \"C01\")")
	p("\tgs.Ensures(\"another verb is answered 405\", gs.Implies(gs.Old(r.Method) != \"OPTIONS\" && !post, gs.Status(w) == 405), \"C01\")")
	p("\tgs.Ensures(\"an unknown function is answered 404\", gs.Implies(post && !known, gs.Status(w) == 404), \"C01\")")
	p("\tgs.Ensures(\"and leaves no statistics\", gs.Implies(post && !known, !gs.IsType[*gotsrpc.CallStats](gotsrpc.VerifStatsOf(r))), \"C04\")")
	p("\tgs.Ensures(\"undecodable arguments are answered 400\", gs.Implies(load && !loaded, gs.Status(w) == 400), \"C01\")")
	p("\tgs.Ensures(\"arguments are decoded from this request, for a known method only\", gs.Count(\"gotsrpc.LoadArgs\") <= 1 && gs.Implies(load, known && gs.Arg[*http.Request](\"gotsrpc.LoadArgs\", 0, 2) == r), \"C01\")")
	p("\tgs.Ensures(\"a reply that cannot be sent is answered 500\", gs.Implies(reply && !replied && gs.After(\"gotsrpc.Reply\", 0, gs.Status(w)) == 0, gs.Status(w) == 500), \"C02\")")
	p("\tgs.Ensures(\"the reply goes to this request's writer\", gs.Count(\"gotsrpc.Reply\") <= 1 && gs.Implies(reply, known && gs.Arg[*http.Request](\"gotsrpc.Reply\", 0, 2) == r && gs.Arg[http.ResponseWriter](\"gotsrpc.Reply\", 0, 3) == w), \"C02\")")
	p("\tgs.Ensures(\"the monitor hears of served calls only, once\", gs.Count(\"gotsrpc.Monitor\") <= 1 && gs.Implies(monitored, known), \"C03\")")
	p("\tgs.Ensures(\"sizes and errors are recorded in the request's own statistics\", gs.Implies(hasOwn, gs.Implies(load, any(gs.Arg[*gotsrpc.CallStats](\"gotsrpc.LoadArgs\", 0, 1)) == own) && gs.Implies(reply, any(gs.Arg[*gotsrpc.CallStats](\"gotsrpc.Reply\", 0, 1)) == own)), \"C03\")")
	for _, m := range s.methods {
		on := fmt.Sprintf("post && path == endpoint+\"/%s\"", m.name)
		called := fmt.Sprintf("gs.Count(%q) == 1", ev(m))
		cond := on
		if len(m.args) > 0 {
			cond += " && loaded"
		}
		p("\tgs.Ensures(\"%s runs exactly when it is addressed and its arguments could be decoded\", gs.Count(%q) == gs.Ite(%s, 1, 0), \"C01\")", m.name, ev(m), cond)
		if len(m.args) > 0 {
			p("\tgs.Ensures(\"%s has its arguments decoded\", gs.Implies(%s, load), \"C01\")", m.name, on)
			var cs, mon []string
			off := 1
			if m.http {
				off = 3
			}
			for i, a := range m.args {
				cs = append(cs, fmt.Sprintf("gs.Same(gs.Arg[%s](%q, 0, %d), gs.After(\"gotsrpc.LoadArgs\", 0, *targets[%d].(*%s)))", a.typ, ev(m), off+i, i, a.typ))
				mon = append(mon, fmt.Sprintf("gs.At(\"gotsrpc.Monitor\", 0, gs.Arg[[]interface{}](\"gotsrpc.Monitor\", 0, 3)[%d]) == gs.After(\"gotsrpc.LoadArgs\", 0, targets[%d])", i, i))
			}
			p("\tgs.Ensures(\"%s has one value decoded per argument\", gs.Implies(%s, gs.After(\"gotsrpc.LoadArgs\", 0, len(targets)) == %d), \"C01\")", m.name, on, len(m.args))
			p("\tgs.Ensures(\"%s gets the decoded arguments in their positions\", gs.Implies(%s, %s), \"C01\")", m.name, called, strings.Join(cs, " && "))
			p("\tgs.Ensures(\"%s: the monitor gets the decoded arguments\", gs.Implies(monitored && %s, gs.At(\"gotsrpc.Monitor\", 0, len(gs.Arg[[]interface{}](\"gotsrpc.Monitor\", 0, 3))) == %d && %s), \"C03\")", m.name, called, len(m.args), strings.Join(mon, " && "))
		} else {
			p("\tgs.Ensures(\"%s: the monitor gets no arguments\", gs.Implies(monitored && %s, gs.At(\"gotsrpc.Monitor\", 0, len(gs.Arg[[]interface{}](\"gotsrpc.Monitor\", 0, 3))) == 0), \"C03\")", m.name, called)
		}
		replies := called
		if m.http {
			rw := fmt.Sprintf("gs.Arg[http.ResponseWriter](%q, 0, 1)", ev(m))
			p("\tgs.Ensures(\"%s gets the request itself\", gs.Implies(%s, gs.Arg[*http.Request](%q, 0, 2) == r), \"C06\", \"C01\")", m.name, called, ev(m))
			p("\tgs.Ensures(\"%s gets a writer that passes everything to the real one\", gs.Implies(%s, gs.IsType[*gotsrpc.ResponseWriter](%s) && gs.At(%q, 0, %s.(*gotsrpc.ResponseWriter).ResponseWriter == w && %s.(*gotsrpc.ResponseWriter).Status() == 200)), \"C06\")", m.name, called, rw, ev(m), rw, rw)
			st := fmt.Sprintf("gs.After(%q, 0, %s.(*gotsrpc.ResponseWriter).Status()) == 200", ev(m), rw)
			p("\tgs.Ensures(\"%s: no reply after an error status\", gs.Implies(%s && !(%s), !reply), \"C06\", \"C02\")", m.name, called, st)
			replies += " && " + st
			p("\tgs.Ensures(\"%s: the monitor hears of the call without a reply, too\", gs.Implies(%s && !reply, monitored), \"C03\")", m.name, called)
		}
		var cs, mon []string
		for i, r := range m.rets {
			cs = append(cs, " && "+boxed("gotsrpc.Reply", fmt.Sprintf("values[%d]", i), r.typ, fmt.Sprintf("gs.Ret[%s](%q, 0, %d)", r.typ, ev(m), i)))
			mon = append(mon, " && "+boxed("gotsrpc.Monitor", fmt.Sprintf("gs.Arg[[]interface{}](\"gotsrpc.Monitor\", 0, 4)[%d]", i), r.typ, fmt.Sprintf("gs.Ret[%s](%q, 0, %d)", r.typ, ev(m), i)))
		}
		p("\tgs.Ensures(\"%s: all results are sent, in order\", gs.Implies(%s, reply && gs.At(\"gotsrpc.Reply\", 0, len(values)) == %d%s), \"C02\", \"C06\")", m.name, replies, len(m.rets), strings.Join(cs, ""))
		p("\tgs.Ensures(\"%s: the monitor gets this call\", gs.Implies(%s && replied, monitored && gs.Arg[http.ResponseWriter](\"gotsrpc.Monitor\", 0, 1) == w && gs.Arg[*http.Request](\"gotsrpc.Monitor\", 0, 2) == r), \"C03\")", m.name, called)
		p("\tgs.Ensures(\"%s: the monitor gets the results as they were returned\", gs.Implies(%s && replied && monitored, gs.At(\"gotsrpc.Monitor\", 0, len(gs.Arg[[]interface{}](\"gotsrpc.Monitor\", 0, 4))) == %d%s), \"C03\")", m.name, called, len(m.rets), strings.Join(mon, ""))
		named := func(e string, i int) string {
			a := fmt.Sprintf("gs.Arg[*gotsrpc.CallStats](%q, 0, %d)", e, i)
			return fmt.Sprintf("gs.At(%q, 0, %s.Func == %q && %s.Package == %q && %s.Service == %q)", e, a, m.name, a, modPath+"/"+corpusRoot+"/"+s.pkg, a, N)
		}
		p("\tgs.Ensures(\"%s: the statistics name the function, package and service\", gs.Implies(%s && monitored, %s && gs.Implies(hasOwn, any(gs.Arg[*gotsrpc.CallStats](\"gotsrpc.Monitor\", 0, 5)) == own)), \"C03\")", m.name, called, named("gotsrpc.Monitor", 5))
		p("\tgs.Ensures(\"%s: so they do when the reply is sent\", gs.Implies(%s && reply, %s), \"C03\")", m.name, called, named("gotsrpc.Reply", 1))
		if len(m.args) > 0 {
			p("\tgs.Ensures(\"%s: the statistics carry the request's size\", gs.Implies(%s && monitored, gs.At(\"gotsrpc.Monitor\", 0, gs.Arg[*gotsrpc.CallStats](\"gotsrpc.Monitor\", 0, 5).RequestSize) == gs.Old(int(r.ContentLength))), \"C03\")", m.name, called)
		}
	}
	p("\tgs.AnyFrame()\n}\n")
	p("// decodeTargets: the values arguments are decoded into.\n//\n//@ spec\nfunc decodeTargets%s(x interface{}) []interface{} {\n\treturn gs.Ite(gs.IsType[*[]interface{}](x), *x.(*[]interface{}), x.([]interface{}))\n}\n", N)

	// the default endpoint
	p("func lemmaDefaultProxy%s(service %s) *%sGoTSRPCProxy { return NewDefault%sGoTSRPCProxy(service) }\n", N, typ, N, N)
	p("//@ contract lemmaDefaultProxy%s\nfunc ctDefaultProxy%s(service %s, p *%sGoTSRPCProxy) {\n\tgs.Property(\"C15\", \"C16\", \"C01\")\n\tgs.Ensures(\"the default proxy serves the configured endpoint\", p != nil && p.EndPoint == %q)\n\tgs.AnyFrame()\n}\n", N, N, typ, N, s.endpoint)
	p("func lemmaDefaultClient%s(url string) *HTTP%sGoTSRPCClient { return NewDefault%sGoTSRPCClient(url) }\n", N, N, N)
	p("//@ contract lemmaDefaultClient%s\nfunc ctDefaultClient%s(url string, c *HTTP%sGoTSRPCClient) {\n\tgs.Property(\"C15\", \"C16\")\n\tgs.Ensures(\"the default client calls the configured endpoint\", c != nil && c.EndPoint == %q && c.URL == url)\n\tgs.AnyFrame()\n}\n", N, N, N, s.endpoint)

	// ---- the Go client
	for _, m := range s.methods {
		var ps, as, cps, rts []string
		ps = append(ps, "c gotsrpc.Client", "url string", "endpoint string", "ctx context.Context")
		as = append(as, "ctx")
		for i, a := range m.args {
			ps = append(ps, fmt.Sprintf("a%d %s", i, a.typ))
			as = append(as, fmt.Sprintf("a%d", i))
		}
		cps = append(cps, ps...)
		for i, r := range m.rets {
			cps = append(cps, fmt.Sprintf("r%d %s", i, r.typ))
			rts = append(rts, fmt.Sprintf("r%d %s", i, r.typ))
		}
		cps = append(cps, "clientErr error")
		rts = append(rts, "clientErr error")
		p("func lemmaCall%s%s(%s) (%s) {\n\treturn (&HTTP%sGoTSRPCClient{URL: url, EndPoint: endpoint, Client: c}).%s(%s)\n}\n", N, m.name, strings.Join(ps, ", "), strings.Join(rts, ", "), N, m.name, strings.Join(as, ", "))
		p("//@ contract lemmaCall%s%s\nfunc ctCall%s%s(%s) {", N, m.name, N, m.name, strings.Join(cps, ", "))
		p("\tgs.Property(\"C15\")\n\tgs.Requires(c != nil)")
		C := "gotsrpc.Client.Call"
		p("\tsent := gs.Arg[[]interface{}](%q, 0, 5)\n\tinto := gs.Arg[[]interface{}](%q, 0, 6)\n\tcalled := gs.Count(%q) == 1", C, C, C)
		p("\tgs.Ensures(\"%s calls its own name at the endpoint, once, with the caller's context\", called && gs.Arg[gotsrpc.Client](%q, 0, 0) == c && gs.Arg[context.Context](%q, 0, 1) == ctx && gs.Arg[string](%q, 0, 2) == url && gs.Arg[string](%q, 0, 3) == endpoint && gs.Arg[string](%q, 0, 4) == %q)", m.name, C, C, C, C, C, m.name)
		var cs, rs []string
		for i, a := range m.args {
			cs = append(cs, " && "+boxed(C, fmt.Sprintf("sent[%d]", i), a.typ, fmt.Sprintf("a%d", i)))
		}
		for i, r := range m.rets {
			rs = append(rs, fmt.Sprintf(" && gs.At(%q, 0, gs.IsType[*%s](into[%d])) && gs.Same(r%d, gs.After(%q, 0, *gs.At(%q, 0, into[%d]).(*%s)))", C, r.typ, i, i, C, C, i, r.typ))
		}
		p("\tgs.Ensures(\"%s sends its arguments in order\", called && gs.At(%q, 0, len(sent)) == %d%s)", m.name, C, len(m.args), strings.Join(cs, ""))
		p("\tgs.Ensures(\"%s hands back the results in order\", called && gs.At(%q, 0, len(into)) == %d%s)", m.name, C, len(m.rets), strings.Join(rs, ""))
		p("\tgs.Ensures(\"%s reports the call's error\", called && (clientErr == nil) == (gs.Ret[error](%q, 0, 0) == nil))", m.name, C)
		p("\tgs.AnyFrame()\n}\n")
	}

	// ---- GoRPC
	if s.gorpc {
		for _, m := range s.methods {
			req, res := s.req[m.name], s.res[m.name]
			if len(req) != len(m.args) || len(res) != len(m.rets) {
				continue
			}
			p("func lemmaGoRPC%s%s(service %s, stats gotsrpc.GoRPCCallStatsHandlerFun, req %s%sRequest) interface{} {\n\tp := New%sGoRPCProxy(\"\", service, nil)\n\tp.SetCallStatsHandler(stats)\n\treturn p.handler(\"\", req)\n}\n", N, m.name, typ, N, m.name, N)
			p("//@ contract lemmaGoRPC%s%s\nfunc ctGoRPC%s%s(service %s, stats gotsrpc.GoRPCCallStatsHandlerFun, req %s%sRequest, response interface{}) {", N, m.name, N, m.name, typ, N, m.name)
			p("\tgs.Property(\"C14\")\n\tgs.Requires(service != nil)")
			p("\tgs.Stable(\"%s/%s/%s.%sGoRPCProxy\")", modPath, corpusRoot, s.pkg, N)
			var cs []string
			cs = append(cs, fmt.Sprintf("gs.Count(%q) == 1", ev(m)))
			for _, o := range s.methods {
				if o != m {
					cs = append(cs, fmt.Sprintf("gs.Count(%q) == 0", ev(o)))
				}
			}
			p("\tgs.Ensures(\"%s is called, once, and no other method\", %s)", m.name, strings.Join(cs, " && "))
			cs = nil
			off := 1
			if m.http {
				off = 3
			}
			for i, a := range m.args {
				cs = append(cs, fmt.Sprintf("gs.Same(gs.Arg[%s](%q, 0, %d), gs.Old(req.%s))", a.typ, ev(m), off+i, req[i]))
			}
			if len(cs) > 0 {
				p("\tgs.Ensures(\"%s gets the request's fields in their positions\", %s)", m.name, strings.Join(cs, " && "))
			}
			cs = []string{fmt.Sprintf("gs.IsType[%s%sResponse](response)", N, m.name)}
			for i, r := range m.rets {
				cs = append(cs, fmt.Sprintf("gs.Same(response.(%s%sResponse).%s, gs.Ret[%s](%q, 0, %d))", N, m.name, res[i], r.typ, ev(m), i))
			}
			p("\tgs.Ensures(\"%s's response carries all its results\", %s)", m.name, strings.Join(cs, " && "))
			p("\tgs.Ensures(\"%s: the statistics handler hears of it once\", gs.Count(\"dyn\") == gs.Ite(stats != nil, 1, 0) && gs.Implies(stats != nil, gs.Same(gs.Arg[gotsrpc.GoRPCCallStatsHandlerFun](\"dyn\", 0, 0), stats) && gs.At(\"dyn\", 0, gs.Arg[*gotsrpc.CallStats](\"dyn\", 0, 1).Package == %q && gs.Arg[*gotsrpc.CallStats](\"dyn\", 0, 1).Service == %q)))", m.name, modPath+"/"+corpusRoot+"/"+s.pkg, N)
			p("\tgs.AnyFrame()\n}\n")

			// the client
			var ps, as, cps, rts []string
			ps = append(ps, "c *gorpc.Client")
			for i, a := range m.args {
				ps = append(ps, fmt.Sprintf("a%d %s", i, a.typ))
				as = append(as, fmt.Sprintf("a%d", i))
			}
			cps = append(cps, ps...)
			for i, r := range m.rets {
				cps = append(cps, fmt.Sprintf("r%d %s", i, r.typ))
				rts = append(rts, fmt.Sprintf("r%d %s", i, r.typ))
			}
			cps = append(cps, "clientErr error")
			rts = append(rts, "clientErr error")
			p("func lemmaGoRPCCall%s%s(%s) (%s) {\n\treturn (&%sGoRPCClient{Client: c}).%s(%s)\n}\n", N, m.name, strings.Join(ps, ", "), strings.Join(rts, ", "), N, m.name, strings.Join(as, ", "))
			p("//@ contract lemmaGoRPCCall%s%s\nfunc ctGoRPCCall%s%s(%s) {", N, m.name, N, m.name, strings.Join(cps, ", "))
			C := "gorpc.Client.Call"
			p("\tgs.Property(\"C14\")\n\tgs.Requires(c != nil)")
			p("\tsent := gs.Arg[interface{}](%q, 0, 1)\n\tfailed := gs.Ret[error](%q, 0, 1)", C, C)
			if len(m.rets) > 0 {
				p("\tgot := gs.Ret[interface{}](%q, 0, 0)", C)
			}
			cs = []string{fmt.Sprintf("gs.Count(%q) == 1 && gs.Arg[*gorpc.Client](%q, 0, 0) == c && gs.IsType[%s%sRequest](sent)", C, C, N, m.name)}
			for i := range m.args {
				cs = append(cs, fmt.Sprintf("gs.Same(sent.(%s%sRequest).%s, a%d)", N, m.name, req[i], i))
			}
			p("\tgs.Ensures(\"%s sends its own request, once, with the arguments in their fields\", %s)", m.name, strings.Join(cs, " && "))
			p("\tgs.Ensures(\"%s returns the call's error\", clientErr == failed)", m.name)
			cs = nil
			for i := range m.rets {
				cs = append(cs, fmt.Sprintf("gs.Same(r%d, got.(%s%sResponse).%s)", i, N, m.name, res[i]))
			}
			if len(cs) > 0 {
				p("\tgs.Ensures(\"%s returns the response's fields\", gs.Implies(failed == nil, %s))", m.name, strings.Join(cs, " && "))
			}
			p("\tgs.AnyFrame()\n}\n")
		}
		// requests of other types
		first := s.methods[0]
		others := []struct{ name, decl, typ string }{
			{"Text", "", "string"},
			{"Number", "", "int"},
			{"Struct", fmt.Sprintf("type %sVerifNobodyRequest struct{ A int }", N), N + "VerifNobodyRequest"},
			{"Response", "", N + first.name + "Response"},
			{"Suffix", fmt.Sprintf("type Verif%s%sRequest struct{ A int }", N, first.name), "Verif" + N + first.name + "Request"},
			{"Short", fmt.Sprintf("type Verif%sRequest struct{ A int }", N), "Verif" + N + "Request"},
			{"Pointer", "", fmt.Sprintf("*%s%sRequest", N, first.name)},
		}
		for _, o := range others {
			if o.decl != "" {
				p("%s\n", o.decl)
			}
			p("func lemmaGoRPC%sUnknown%s(service %s, stats gotsrpc.GoRPCCallStatsHandlerFun, req %s) interface{} {\n\tp := New%sGoRPCProxy(\"\", service, nil)\n\tp.SetCallStatsHandler(stats)\n\treturn p.handler(\"\", req)\n}\n", N, o.name, typ, o.typ, N)
			p("//@ contract lemmaGoRPC%sUnknown%s\nfunc ctGoRPC%sUnknown%s(service %s, stats gotsrpc.GoRPCCallStatsHandlerFun, req %s, response interface{}) {", N, o.name, N, o.name, typ, o.typ)
			p("\tgs.Property(\"C14\")\n\tgs.Requires(service != nil)")
			var cs []string
			for _, m := range s.methods {
				cs = append(cs, fmt.Sprintf("gs.Count(%q) == 0", ev(m)))
			}
			p("\tgs.Ensures(\"an unknown request calls nothing and gets no response\", response == nil && %s)", strings.Join(cs, " && "))
			p("\tgs.OnPanic(\"an unknown request calls nothing, not even when it is refused\", %s)", strings.Join(cs, " && "))
			p("\tgs.AnyFrame()\n}\n")
		}
	}
	body := b.String()
	var h strings.Builder
	fmt.Fprintf(&h, "//go:build verif\n\npackage %s\n\nimport (\n\t\"context\"\n\t\"net/http\"\n\t\"strings\"\n", s.pkgName)
	h.WriteString(s.usedImports(body))
	fmt.Fprintf(&h, "\n\t\"%s\"\n\tgs \"%s\"\n", modPath, specPath)
	if s.gorpc {
		h.WriteString("\t\"github.com/valyala/gorpc\"\n")
	}
	h.WriteString(")\n\nvar _ = context.Background\nvar _ = strings.Join\n\n")
	return h.String() + body
}
