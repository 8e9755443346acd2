package gotsrpc

import (
	"encoding/json"
	"fmt"
	"go/token"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/foomo/gotsrpc/v2/config"
)

// A model of Go packages with services, from which sources are written and
// what the generator must make of them is computed, both independently of the
// generator.

const gMod = "verif.test/mod"

type gPkg struct {
	path, name, dir string
	decls           []*gDecl
}

type gDecl struct {
	pkg    *gPkg
	name   string
	kind   string // struct, prim, slice, map, iface
	typ    *gType // underlying, for prim, slice and map
	fields []*gField
	consts [][2]string // name and literal
}

type gType struct {
	kind      string // prim, ptr, slice, map, named, time, any, anon, error, writer, request
	name      string
	elem, key *gType
	decl      *gDecl
	fields    []*gField
}

type gField struct {
	name string
	typ  *gType
	tag  string
	emb  bool // inlined
	bare bool // embedded, under a JSON name: a member like any other
}

type gMethod struct {
	name      string
	args, ret []*gField
	named     bool // results have names
	valueRecv bool
}

type gService struct {
	name, endpoint string
	iface          bool
	methods        []*gMethod
}

type gProg struct {
	dir      string
	mod      string
	pkgs     []*gPkg
	services []*gService
	plain    bool // no anonymous structs etc. in signatures
}

func gPrim(n string) *gType { return &gType{kind: "prim", name: n} }

var gNumbers = []string{"int", "int8", "int16", "int32", "int64", "uint", "uint8", "byte", "rune", "uintptr", "uint16", "uint32", "uint64", "float32", "float64"}

func (d *gDecl) full() string { return d.pkg.path + "." + d.name }

// underKind: the kind of wire value of a type.
func (t *gType) nullable() bool {
	switch t.kind {
	case "ptr", "slice", "map":
		return true
	case "named":
		return t.decl.kind == "slice" || t.decl.kind == "map"
	}
	return false
}

func (t *gType) isByte() bool {
	return t.kind == "prim" && (t.name == "byte" || t.name == "uint8")
}

// goSrc spells the type in a file of pkg; imp collects the imports.
func (t *gType) goSrc(pkg *gPkg, imp map[string]string) string {
	switch t.kind {
	case "prim":
		return t.name
	case "error":
		return "error"
	case "any":
		return "interface{}"
	case "ptr":
		return "*" + t.elem.goSrc(pkg, imp)
	case "slice":
		return "[]" + t.elem.goSrc(pkg, imp)
	case "map":
		return "map[" + t.key.goSrc(pkg, imp) + "]" + t.elem.goSrc(pkg, imp)
	case "time":
		imp["time"] = "time"
		return "time.Time"
	case "writer":
		imp["net/http"] = "http"
		return "http.ResponseWriter"
	case "request":
		imp["net/http"] = "http"
		return "*http.Request"
	case "named":
		if t.decl.pkg == pkg {
			return t.decl.name
		}
		n, ok := imp[t.decl.pkg.path]
		if !ok {
			n = t.decl.pkg.name
			if last := filepath.Base(t.decl.pkg.path); last != n || len(imp)%2 == 1 {
				n = fmt.Sprintf("al%d", len(imp))
			}
			for _, used := range imp {
				if used == n {
					n = fmt.Sprintf("al%d", len(imp))
				}
			}
			imp[t.decl.pkg.path] = n
		}
		return n + "." + t.decl.name
	case "anon":
		s := "struct {\n"
		for _, f := range t.fields {
			s += "\t\t" + f.goSrc(pkg, imp) + "\n"
		}
		return s + "\t}"
	}
	panic(t.kind)
}

func (f *gField) goSrc(pkg *gPkg, imp map[string]string) string {
	s := f.typ.goSrc(pkg, imp)
	if !f.emb && !f.bare {
		s = f.name + " " + s
	}
	if f.tag != "" {
		s += " `" + f.tag + "`"
	}
	return s
}

// canon spells the type with full package paths.
func (t *gType) canon() string {
	switch t.kind {
	case "ptr":
		return "*" + t.elem.canon()
	case "slice":
		return "[]" + t.elem.canon()
	case "map":
		return "map[" + t.key.canon() + "]" + t.elem.canon()
	case "time":
		return "time.Time"
	case "named":
		return t.decl.full()
	case "any":
		return "interface{}"
	case "error":
		return "error"
	}
	return t.name
}

func gModule(path string) string {
	return strings.NewReplacer(".", "_", "/", "_", "-", "_").Replace(path)
}

// ts is the TypeScript type, with the null that says the wire can carry null.
func (t *gType) ts(optional bool) string {
	null := ""
	if t.nullable() && !optional {
		null = "|null"
	}
	return t.tsBare() + null
}

func (t *gType) tsBare() string {
	switch t.kind {
	case "prim":
		switch t.name {
		case "string":
			return "string"
		case "bool":
			return "boolean"
		}
		return "number"
	case "any":
		return "any"
	case "time":
		return "number"
	case "ptr":
		return t.elem.tsBare()
	case "slice":
		if t.elem.isByte() {
			return "string"
		}
		return "Array<" + t.elem.ts(false) + ">"
	case "map":
		return "Record<" + t.key.ts(false) + "," + t.elem.ts(false) + ">"
	case "named":
		return gModule(t.decl.pkg.path) + "." + t.decl.name
	case "anon":
		return "{" + gTSMembers(t.fields) + "}"
	}
	return "any" // error
}

var gIdent = regexp.MustCompile(`^[\p{L}_$][\p{L}\p{N}_$]*$`)

// gJSON: how encoding/json treats a field with that name and tag.
func gJSON(name, tag string) (key string, omitempty bool) {
	T := reflect.StructOf([]reflect.StructField{{Name: "X", Type: reflect.TypeOf(""), Tag: reflect.StructTag(tag)}})
	v := reflect.New(T).Elem()
	keys := func() []string {
		b, _ := json.Marshal(v.Interface())
		m := map[string]interface{}{}
		_ = json.Unmarshal(b, &m)
		var ks []string
		for k := range m {
			ks = append(ks, k)
		}
		return ks
	}
	zero := len(keys()) == 0
	v.Field(0).SetString("x")
	ks := keys()
	if len(ks) == 0 {
		return "", false
	}
	if ks[0] == "X" && !strings.Contains(tag, `"X`) {
		ks[0] = name
	}
	return ks[0], zero
}

func gTypeTag(tag string) string {
	for _, p := range strings.Split(reflect.StructTag(tag).Get("gotsrpc"), ",") {
		if strings.HasPrefix(p, "type:") {
			return p[5:]
		}
	}
	return ""
}

func gTSMembers(fields []*gField) string {
	s := ""
	for _, f := range fields {
		if f.emb || !token.IsExported(f.name) {
			continue
		}
		key, omit := gJSON(f.name, f.tag)
		if key == "" {
			continue
		}
		if !gIdent.MatchString(key) {
			key = strconv.Quote(key)
		}
		s += key
		if omit {
			s += "?"
		}
		s += ":"
		if tt := gTypeTag(f.tag); tt != "" {
			s += tt
		} else {
			s += f.typ.ts(omit)
		}
		s += ";"
	}
	return s
}

// tsDecl is the TypeScript declaration, without white space.
func (d *gDecl) tsDecl() string {
	switch d.kind {
	case "struct":
		ext := ""
		for _, f := range d.fields {
			if !f.emb {
				continue
			}
			x := f.typ.tsBare()
			if f.typ.kind == "ptr" {
				x = "Partial<" + x + ">"
			}
			if ext != "" {
				ext += ","
			}
			ext += x
		}
		if ext != "" {
			ext = "extends" + ext
		}
		return "exportinterface" + d.name + ext + "{" + gTSMembers(d.fields) + "}"
	case "slice", "map":
		return "exporttype" + d.name + "=" + d.typ.tsBare()
	case "union":
		var xs []string
		for _, f := range d.fields {
			xs = append(xs, f.typ.tsBare())
		}
		if d.fields[0].typ.kind == "ptr" {
			xs = append(xs, "undefined")
		}
		return "exporttype" + d.name + "=" + strings.Join(xs, "|")
	case "iface":
		return "exporttype" + d.name + "=any"
	case "prim":
		if len(d.consts) > 0 {
			cs := append([][2]string{}, d.consts...)
			sort.Slice(cs, func(i, j int) bool { return cs[i][0] < cs[j][0] })
			vals := ""
			for _, c := range cs {
				vals += "=" + c[1] + ","
			}
			return "exportenum" + d.name + "{" + vals + "}"
		}
		return "exporttype" + d.name + "=" + d.typ.tsBare()
	}
	panic(d.kind)
}

// reach adds the declarations a type needs.
func (t *gType) reach(m map[*gDecl]bool, tm *bool) {
	if t == nil {
		return
	}
	if t.kind == "time" {
		*tm = true
	}
	t.elem.reach(m, tm)
	t.key.reach(m, tm)
	for _, f := range t.fields {
		f.reach(m, tm)
	}
	if t.decl != nil && !m[t.decl] {
		m[t.decl] = true
		t.decl.typ.reach(m, tm)
		for _, f := range t.decl.fields {
			f.reach(m, tm)
		}
	}
}

func (f *gField) reach(m map[*gDecl]bool, tm *bool) {
	if !f.emb && !token.IsExported(f.name) {
		return
	}
	f.typ.reach(m, tm)
}

func (p *gProg) reach(only func(s *gService) bool) (map[*gDecl]bool, bool) {
	m := map[*gDecl]bool{}
	tm := false
	for _, s := range p.services {
		if only != nil && !only(s) {
			continue
		}
		for _, me := range s.exposed() {
			for _, f := range append(append([]*gField{}, me.args...), me.ret...) {
				if f.typ.kind != "writer" && f.typ.kind != "request" {
					f.typ.reach(m, &tm)
				}
			}
		}
	}
	return m, tm
}

func (s *gService) exposed() []*gMethod {
	var ms []*gMethod
	for _, m := range s.methods {
		if token.IsExported(m.name) && !m.valueRecv {
			ms = append(ms, m)
		}
	}
	sort.Slice(ms, func(i, j int) bool { return ms[i].name < ms[j].name })
	return ms
}

// data: the arguments that travel.
func (m *gMethod) data() []*gField {
	a := m.args
	if len(a) > 0 && a[0].typ.kind == "writer" {
		return a[2:]
	}
	return a
}

type gGen struct {
	r    *rand.Rand
	p    *gProg
	anon bool
}

func (g *gGen) pick(ss ...string) string { return ss[g.r.Intn(len(ss))] }

// typ makes a type for use in package at; depth bounds nesting.
func (g *gGen) typ(at *gPkg, depth int, field bool) *gType {
	named := func(kinds string) *gType {
		var ds []*gDecl
		for _, p := range g.p.pkgs {
			for _, d := range p.decls {
				if strings.Contains(kinds, d.kind) && (p == at || token.IsExported(d.name)) && g.mayUse(at, p) {
					ds = append(ds, d)
				}
			}
		}
		if len(ds) == 0 {
			return gPrim("string")
		}
		return &gType{kind: "named", decl: ds[g.r.Intn(len(ds))]}
	}
	n := 10
	if depth <= 0 {
		n = 6
	}
	switch g.r.Intn(n) {
	case 0:
		return gPrim(g.pick("string", "bool", "string"))
	case 1:
		return gPrim(gNumbers[g.r.Intn(len(gNumbers))])
	case 2, 3:
		return named("struct prim slice map iface union")
	case 4:
		return &gType{kind: "time"}
	case 5:
		return &gType{kind: "any"}
	case 6:
		e := g.typ(at, 0, false)
		if g.r.Intn(4) == 0 {
			e = g.typ(at, depth-1, field)
		}
		if e.kind == "ptr" {
			return e
		}
		return &gType{kind: "ptr", elem: e}
	case 7:
		if g.r.Intn(4) == 0 {
			return &gType{kind: "slice", elem: gPrim("byte")}
		}
		return &gType{kind: "slice", elem: g.typ(at, depth-1, field)}
	case 8:
		k := gPrim(g.pick("string", "int", "int64"))
		if g.r.Intn(2) == 0 {
			if x := named("prim"); x.kind == "named" && x.decl.typ.name != "bool" {
				k = x
			}
		}
		return &gType{kind: "map", key: k, elem: g.typ(at, depth-1, field)}
	default:
		if field && g.anon {
			t := &gType{kind: "anon"}
			for i := g.r.Intn(3); i >= 0; i-- {
				t.fields = append(t.fields, &gField{name: fmt.Sprintf("In%d", i), typ: g.typ(at, depth-1, true)})
			}
			if g.r.Intn(3) == 0 {
				return &gType{kind: "ptr", elem: t}
			}
			return t
		}
		return named("struct")
	}
}

// mayUse: imports go from lower to higher packages only.
func (g *gGen) mayUse(at, p *gPkg) bool {
	i, j := -1, -1
	for k, x := range g.p.pkgs {
		if x == at {
			i = k
		}
		if x == p {
			j = k
		}
	}
	return i <= j
}

func (g *gGen) tag(name string, used map[string]bool) string {
	uniq := func(n string) string {
		for used[n] {
			n += "x"
		}
		used[n] = true
		return n
	}
	var ps []string
	if g.r.Intn(4) == 0 {
		ps = append(ps, `yaml:"`+g.pick("-", "no", "no,omitempty")+`"`)
	}
	switch g.r.Intn(9) {
	case 0, 1:
		used[name] = true
	case 2:
		ps = append(ps, `json:"`+uniq(g.pick("a", "fooBar", "Ä", "union", "inline", "omitempty"))+`"`)
	case 3:
		ps = append(ps, `json:"`+uniq(g.pick("x-y", "a.b", "-x", "1st"))+`,omitempty"`)
	case 4:
		ps = append(ps, `json:"-"`)
	case 5:
		ps = append(ps, `json:",omitempty"`)
		used[name] = true
	case 6:
		ps = append(ps, `json:"`+uniq("c")+`,omitempty"`)
	case 7:
		if used["-"] {
			ps = append(ps, `json:""`)
			used[name] = true
		} else {
			used["-"] = true
			ps = append(ps, `json:"-,"`)
		}
	case 8:
		ps = append(ps, `json:"`+uniq("d")+`,`+g.pick("string", "foo", "omitempty,string", "inlined")+`"`)
	}
	if g.r.Intn(6) == 0 {
		ps = append(ps, `gotsrpc:"type:`+g.pick("Foo", "'x'", "Array<A|B>", "unknown")+`"`)
	}
	return strings.Join(ps, " ")
}

func gNewProg(r *rand.Rand, dir string, anon bool) *gProg {
	p := &gProg{dir: dir, mod: gMod}
	g := &gGen{r: r, p: p, anon: anon}
	for _, x := range [][2]string{{"svc", "svc"}, {"data/types", "types"}, {"da-ta/types", "types"}, {"deep/er/val", "values"}} {
		p.pkgs = append(p.pkgs, &gPkg{path: gMod + "/" + x[0], name: x[1], dir: x[0]})
	}
	// declarations, from the last package to the first: no recursion but that
	// of structs
	names := 0
	name := func(exported bool) string {
		names++
		if !exported {
			return fmt.Sprintf("%s%d", g.pick("hidden", "ändert", "_x"), names)
		}
		return fmt.Sprintf("%s%d", g.pick("Type", "Übel", "My_Type", "X"), names)
	}
	for i := len(p.pkgs) - 1; i >= 0; i-- {
		pk := p.pkgs[i]
		for j := 0; j < 1+r.Intn(2); j++ {
			pk.decls = append(pk.decls, &gDecl{pkg: pk, name: name(r.Intn(5) > 0), kind: "prim", typ: gPrim(g.pick("string", "int", "bool", "float64", "uint16", "rune", "byte", "uintptr"))})
			if d := pk.decls[len(pk.decls)-1]; r.Intn(3) == 0 && d.typ.name != "bool" {
				for k := r.Intn(4); k >= 0; k-- {
					lit := fmt.Sprint(k * 3)
					if d.typ.name == "string" {
						lit = fmt.Sprintf("\"v-%d\"", k)
					}
					d.consts = append(d.consts, [2]string{fmt.Sprintf("%s%d%d%c", g.pick("Const", "Ärg", "const", "C_"), names, j, 'A'+k), lit})
				}
			}
		}
		n := 1 + r.Intn(3)
		var structs []*gDecl
		for j := 0; j < n; j++ {
			d := &gDecl{pkg: pk, name: name(r.Intn(5) > 0), kind: "struct"}
			structs = append(structs, d)
			pk.decls = append(pk.decls, d)
		}
		for j := 0; j < r.Intn(3); j++ {
			k := g.pick("slice", "map")
			d := &gDecl{pkg: pk, name: name(true), kind: k}
			if k == "slice" {
				d.typ = &gType{kind: "slice", elem: g.typ(pk, 1, true)}
				if r.Intn(5) == 0 {
					d.typ.elem = gPrim("byte")
				}
			} else {
				d.typ = &gType{kind: "map", key: gPrim("string"), elem: g.typ(pk, 1, true)}
			}
			pk.decls = append(pk.decls, d)
		}
		if r.Intn(3) == 0 {
			pk.decls = append(pk.decls, &gDecl{pkg: pk, name: name(true), kind: "iface"})
		}
		for si, d := range structs {
			used := map[string]bool{}
			for f := r.Intn(6); f >= 0; f-- {
				n := fmt.Sprintf("%s%d", g.pick("Field", "Ärger", "F_", "lower", "übel", "_under"), f)
				d.fields = append(d.fields, &gField{name: n, typ: g.typ(pk, 2, true), tag: g.tag(n, used)})
			}
			if si > 0 && r.Intn(3) == 0 && token.IsExported(structs[si-1].name) {
				t := &gType{kind: "named", decl: structs[si-1]}
				if r.Intn(3) == 0 {
					t = &gType{kind: "ptr", elem: t}
				}
				if r.Intn(3) == 0 {
					d.fields = append(d.fields, &gField{name: structs[si-1].name, typ: t, bare: true, tag: g.pick(`json:"base"`, `json:"base,omitempty"`)})
				} else {
					d.fields = append(d.fields, &gField{typ: t, emb: true, tag: `json:",inline"`})
				}
			}
		}
	}
	for _, pk := range p.pkgs {
		if r.Intn(2) == 0 {
			continue
		}
		d := &gDecl{pkg: pk, name: name(true), kind: "union"}
		ptr := r.Intn(2) == 0
		for _, x := range p.pkgs[len(p.pkgs)-1].decls {
			if x.kind == "struct" && token.IsExported(x.name) && len(d.fields) < 3 {
				t := &gType{kind: "named", decl: x}
				if ptr {
					t = &gType{kind: "ptr", elem: t}
				}
				d.fields = append(d.fields, &gField{name: fmt.Sprintf("U%d", len(d.fields)), typ: t, tag: `json:",omitempty" gotsrpc:"union"`})
			}
		}
		if len(d.fields) > 0 && pk != p.pkgs[len(p.pkgs)-1] {
			pk.decls = append(pk.decls, d)
		}
	}
	// services
	for i := 0; i < 2+r.Intn(2); i++ {
		s := &gService{name: fmt.Sprintf("%s%d", g.pick("Service", "Adm", "Zz"), i), endpoint: fmt.Sprintf("/end/%d", 9-i), iface: r.Intn(2) == 0}
		for m := r.Intn(5); m >= 0; m-- {
			me := &gMethod{name: fmt.Sprintf("%s%d", g.pick("Do", "Get", "Ärger", "Übung", "do", "ärger", "_do", "日本"), m), named: r.Intn(2) == 0}
			if r.Intn(4) == 0 {
				me.args = append(me.args, &gField{name: "w", typ: &gType{kind: "writer"}}, &gField{name: "r", typ: &gType{kind: "request"}})
			}
			for a := r.Intn(4); a > 0; a-- {
				me.args = append(me.args, &gField{name: fmt.Sprintf("par%d", a), typ: g.typ(p.pkgs[0], 2, false)})
			}
			for a := r.Intn(3); a > 0; a-- {
				f := &gField{typ: g.typ(p.pkgs[0], 2, false)}
				if me.named {
					f.name = fmt.Sprintf("res%d", a)
				}
				me.ret = append(me.ret, f)
			}
			if r.Intn(3) == 0 {
				f := &gField{typ: &gType{kind: "error"}}
				if me.named {
					f.name = "err"
				}
				me.ret = append(me.ret, f)
			}
			s.methods = append(s.methods, me)
		}
		p.services = append(p.services, s)
	}
	return p
}

func (d *gDecl) constSrc() string {
	s := ""
	for i := 0; i < len(d.consts); i++ {
		if i+1 < len(d.consts) && len(d.consts)%2 == 0 {
			s += "const " + d.consts[i][0] + ", " + d.consts[i+1][0] + " " + d.name + " = " + d.consts[i][1] + ", " + d.consts[i+1][1] + "\n"
			i++
			continue
		}
		s += "const " + d.consts[i][0] + " " + d.name + " = " + d.consts[i][1] + "\n"
	}
	return s + "\n"
}

func gParams(fs []*gField, pk *gPkg, imp map[string]string) string {
	var ss []string
	for i, f := range fs {
		s := f.typ.goSrc(pk, imp)
		if i+1 < len(fs) && f.name != "" && f.typ.goSrc(pk, imp) == fs[i+1].typ.goSrc(pk, imp) {
			ss = append(ss, f.name) // a, b T
			continue
		}
		if f.name != "" {
			s = f.name + " " + s
		}
		ss = append(ss, s)
	}
	return "(" + strings.Join(ss, ", ") + ")"
}

// write lays the packages out as sources.
func (p *gProg) write() error {
	if err := os.MkdirAll(p.dir, 0o755); err != nil {
		return err
	}
	if err := os.WriteFile(filepath.Join(p.dir, "go.mod"), []byte("module "+p.mod+"\n\ngo 1.23\n"), 0o644); err != nil {
		return err
	}
	for i, pk := range p.pkgs {
		d := filepath.Join(p.dir, pk.dir)
		if err := os.MkdirAll(d, 0o755); err != nil {
			return err
		}
		// two files, so that types refer to each other across files
		for half := 0; half < 2; half++ {
			imp := map[string]string{}
			body := ""
			for j, de := range pk.decls {
				if j%2 != half {
					continue
				}
				switch de.kind {
				case "struct", "union":
					body += "type " + de.name + " struct {\n"
					for k, f := range de.fields {
						if k+1 < len(de.fields) && !f.emb && !f.bare && f.tag == "" && de.fields[k+1].tag == "" && !de.fields[k+1].emb && f.typ.canon() == de.fields[k+1].typ.canon() {
							body += "\t" + f.name + ", " // A, B T
							continue
						}
						body += "\t" + f.goSrc(pk, imp) + "\n"
					}
					body += "}\n\n"
				case "iface":
					body += "type " + de.name + " interface{ Foo() }\n\n"
				default:
					body += "type " + de.name + " " + de.typ.goSrc(pk, imp) + "\n\n"
				}
			}
			for j, de := range pk.decls {
				if j%3 == half && len(de.consts) > 0 { // not always the file of the type
					body += de.constSrc()
				} else if j%3 == 2 && half == 0 {
					body += de.constSrc()
				}
			}
			if i == 0 {
				for j, s := range p.services {
					if j%2 != half {
						continue
					}
					if s.iface {
						body += "type " + s.name + " interface {\n"
						for _, m := range s.methods {
							body += "\t" + m.name + gParams(m.args, pk, imp) + " " + gParams(m.ret, pk, imp) + "\n"
						}
						body += "}\n\n"
					} else {
						body += "type " + s.name + " struct{}\n\n"
						for _, m := range s.methods {
							body += "func (s *" + s.name + ") " + m.name + gParams(m.args, pk, imp) + " " + gParams(m.ret, pk, imp) + " { panic(0) }\n\n"
						}
						body += "func (s *Not" + s.name + ") Foreign() {}\n\ntype Not" + s.name + " struct{}\n\nfunc Loose" + s.name + "(a int) {}\n\n"
					}
				}
			}
			src := "package " + pk.name + "\n\n"
			var paths []string
			for q := range imp {
				paths = append(paths, q)
			}
			sort.Strings(paths)
			for _, q := range paths {
				if n := imp[q]; n == filepath.Base(q) {
					src += "import \"" + q + "\"\n"
				} else {
					src += "import " + n + " \"" + q + "\"\n"
				}
			}
			if err := os.WriteFile(filepath.Join(d, fmt.Sprintf("file%d.go", half)), []byte(src+"\n"+body), 0o644); err != nil {
				return err
			}
		}
		if err := os.WriteFile(filepath.Join(d, "x_test.go"), []byte("package "+pk.name+"\n\ntype OnlyInTest struct{}\n"), 0o644); err != nil {
			return err
		}
	}
	return nil
}

func (p *gProg) serviceMap() map[string]string {
	m := map[string]string{}
	for _, s := range p.services {
		m[s.endpoint] = s.name
	}
	return m
}

type gRead struct {
	pkgName  string
	services ServiceList
	structs  map[string]*Struct
	scalars  map[string]*Scalar
	err      error
}

func (p *gProg) read() (r gRead) {
	if pm := verifTry(func() {
		r.pkgName, r.services, r.structs, r.scalars, _, r.err = Read([]string{runtime.GOROOT()}, config.Namespace{Name: p.mod, Path: p.dir}, p.pkgs[0].path, p.serviceMap(), map[string]bool{}, map[string]bool{})
	}); pm != nil {
		r.err = fmt.Errorf("panic: %v", pm)
	}
	return
}

func (p *gProg) source() string {
	var b strings.Builder
	for _, pk := range p.pkgs {
		for half := 0; half < 2; half++ {
			x, _ := os.ReadFile(filepath.Join(p.dir, pk.dir, fmt.Sprintf("file%d.go", half)))
			b.Write(x)
		}
	}
	return b.String()
}

// ---- whole builds, in a process of their own (Build ends it on errors) ------

func TestGenChild(t *testing.T) {
	if os.Getenv("VERIF_GEN_CONF") == "" {
		t.Skip()
	}
	conf, err := config.LoadConfigFile(os.Getenv("VERIF_GEN_CONF"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(99)
	}
	Build(conf, os.Getenv("VERIF_GEN_GOPATH"))
	os.Exit(0)
}

// gBuild runs Build for a configuration file in dir.
func gBuild(dir, conf, gopath string, env ...string) (exit int, out string) {
	exe, err := os.Executable()
	if err != nil {
		return -1, err.Error()
	}
	c := exec.Command(exe, "-test.run=^TestGenChild$")
	c.Dir = dir
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "HOME=") && !strings.HasPrefix(e, "GOROOT=") {
			c.Env = append(c.Env, e)
		}
	}
	c.Env = append(c.Env, "GOROOT="+runtime.GOROOT(), "VERIF_GEN_CONF="+conf, "VERIF_GEN_GOPATH="+gopath)
	c.Env = append(c.Env, env...)
	done := make(chan struct{})
	go func() {
		select {
		case <-done:
		case <-time.After(60 * time.Second):
			if c.Process != nil {
				_ = c.Process.Kill()
			}
		}
	}()
	b, err := c.CombinedOutput()
	close(done)
	out = string(b)
	if err != nil {
		if ee, ok := err.(*exec.ExitError); ok {
			return ee.ExitCode(), out
		}
		return -1, err.Error()
	}
	return 0, out
}

type gTarget struct {
	out          string
	gorpc, tsrpc []string
}

// conf writes a configuration: every package is mapped to a file of its own.
func (p *gProg) conf(t gTarget, outs map[string]string) string {
	q := strconv.Quote
	s := "module:\n  name: " + p.mod + "\n  path: .\n\ntargets:\n  one:\n    package: " + p.pkgs[0].path + "\n    services:\n"
	for _, x := range p.services {
		s += "      " + x.endpoint + ": " + x.name + "\n"
	}
	if t.out != "" {
		s += "    out: " + q(t.out) + "\n"
	}
	list := func(n string, ss []string) {
		if len(ss) > 0 {
			s += "    " + n + ": [" + strings.Join(ss, ", ") + "]\n"
		}
	}
	list("gorpc", t.gorpc)
	list("tsrpc", t.tsrpc)
	s += "\nmappings:\n"
	var ks []string
	for k := range outs {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		s += "  " + k + ":\n    out: " + q(outs[k]) + "\n"
	}
	f := filepath.Join(p.dir, "gotsrpc.yml")
	_ = os.WriteFile(f, []byte(s), 0o644)
	return f
}

func (p *gProg) outs() map[string]string {
	m := map[string]string{"time": "./ts/time.ts"}
	for i, pk := range p.pkgs {
		m[pk.path] = fmt.Sprintf("./ts/%s/p%d.ts", []string{"", "sub", "sub/x", "other"}[i%4], i)
	}
	return m
}

func gStrip(s string) string {
	s = regexp.MustCompile(`\bany\s*\|\s*null\b`).ReplaceAllString(s, "any") // the same type
	return strings.Map(func(r rune) rune {
		if r == ' ' || r == '\t' || r == '\n' || r == '\r' {
			return -1
		}
		return r
	}, s)
}

// gDecls splits a file of types into its declarations.
func gDecls(text string) map[string]string {
	m := map[string]string{}
	cur := ""
	for _, l := range strings.Split(text, "\n") {
		if strings.HasPrefix(strings.TrimSpace(l), "//") {
			cur = strings.TrimSpace(strings.TrimPrefix(strings.TrimSpace(l), "//"))
			continue
		}
		if cur != "" {
			m[cur] += gStrip(l)
		}
	}
	return m
}
