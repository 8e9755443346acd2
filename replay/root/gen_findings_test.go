package gotsrpc

import (
	"os"
	"path/filepath"
	"strings"
	"testing"
)

// Programs the generator is known to get wrong, see known_findings.txt.

// gRaw generates the code of one package with a service S and returns all of
// it by file.
func gRaw(t *testing.T, src string) (exit int, files map[string]string) {
	dir := t.TempDir()
	put := func(name, text string) {
		_ = os.MkdirAll(filepath.Dir(filepath.Join(dir, name)), 0o755)
		if err := os.WriteFile(filepath.Join(dir, name), []byte(text), 0o644); err != nil {
			t.Fatal(err)
		}
	}
	put("go.mod", "module verif.test/mod\n\ngo 1.23\n")
	put("svc/svc.go", "package svc\n\n"+src)
	put("gotsrpc.yml", "module:\n  name: verif.test/mod\n  path: .\n\ntargets:\n  one:\n    package: verif.test/mod/svc\n    services:\n      /s: S\n    out: ./ts/client.ts\n    tsrpc: [S]\n    gorpc: [S]\n\nmappings:\n  verif.test/mod/svc:\n    out: ./ts/vo.ts\n  time:\n    out: ./ts/time.ts\n")
	exit, _ = gBuild(dir, filepath.Join(dir, "gotsrpc.yml"), "")
	files = map[string]string{}
	for _, n := range []string{"svc/gotsrpc_gen.go", "svc/gotsrpcclient_gen.go", "svc/gorpc_gen.go", "svc/gorpcclient_gen.go", "ts/client.ts", "ts/vo.ts"} {
		b, _ := os.ReadFile(filepath.Join(dir, n))
		files[n] = string(b)
	}
	return exit, files
}

func TestVerifC17_known(t *testing.T) {
	v := newVerifRun(t)
	_, f := gRaw(t, "type S interface {\n\tM() D\n}\n\ntype D struct {\n\tA int `gotsrpc:\"type:Record<string,number>\"`\n\tB int\n}\n")
	v.ok(strings.Contains(f["ts/vo.ts"], "interface D"), "no D in %s", f["ts/vo.ts"])
	v.known("type-tag-comma", strings.Contains(f["ts/vo.ts"], "A:Record<string,number>;"), "a type tag ends at its first comma")
	_, f = gRaw(t, "import \"time\"\n\ntype S interface {\n\tM() D\n}\n\ntype D time.Duration\n")
	v.known("named-of-named", strings.Contains(gStrip(f["ts/vo.ts"]), "exporttypeD=number"), "a type declared as another named type does not render like that type")
}

func TestVerifC18_known(t *testing.T) {
	v := newVerifRun(t)
	_, f := gRaw(t, "type S interface {\n\tM() D\n}\n\ntype D struct {\n\tE\n\tB int\n}\n\ntype E struct {\n\tA int\n}\n")
	v.ok(strings.Contains(f["ts/vo.ts"], "interface D"), "no D in %s", f["ts/vo.ts"])
	v.known("embedded-untagged", strings.Contains(gStrip(f["ts/vo.ts"]), "exportinterfaceDextends"), "the fields of an embedded struct without a tag are missing")
}

func TestVerifC20_known(t *testing.T) {
	v := newVerifRun(t)
	all := func(f map[string]string, s string) bool {
		for _, n := range []string{"svc/gotsrpc_gen.go", "svc/gotsrpcclient_gen.go", "svc/gorpc_gen.go", "svc/gorpcclient_gen.go"} {
			if !strings.Contains(f[n], s) {
				return false
			}
		}
		return true
	}
	_, f := gRaw(t, "type S interface {\n\tM(x [3]int)\n}\n")
	v.known("array", all(f, "[3]int"), "an array argument becomes a slice")
	_, f = gRaw(t, "type S interface {\n\tM(x **int)\n}\n")
	v.known("pointer-pointer", all(f, "**int"), "a pointer to a pointer loses its element type")
	_, f = gRaw(t, "type S interface {\n\tM(x ...int)\n}\n")
	v.known("variadic", all(f, "int"), "a variadic argument has no type")
	_, f = gRaw(t, "type S interface {\n\tM(x struct{ A int })\n}\n")
	v.known("anonymous-struct", all(f, "struct{"), "an argument of an anonymous struct type has no type")
}
