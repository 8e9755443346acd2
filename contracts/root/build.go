//go:build verif

package gotsrpc

import (
	"path"
	"path/filepath"
	"strings"

	gs "github.com/foomo/gotsrpc/v2/verifspec"

	"github.com/foomo/gotsrpc/v2/config"
)

// resolved is the file a path names: a leading tilde stands for home.
//
//@ spec
func resolved(file, home string) string {
	return gs.Ite(strings.HasPrefix(file, "~"), path.Join(home, file[1:]), file)
}

//@ contract updateCode
func ctUpdateCode(file string, code string, err error) {
	gs.Property("C23")
	gs.Requires(code != "")
	home := gs.Ret[string]("os.Getenv", 0, 0)
	tilde := strings.HasPrefix(file, "~")
	gs.Ensures("a tilde is the home directory", gs.Implies(tilde, gs.Count("os.Getenv") >= 1 && gs.Arg[string]("os.Getenv", 0, 0) == "HOME"))
	gs.Ensures("without a home directory nothing is touched", gs.Implies(tilde && home == "", err != nil && gs.Count("os.WriteFile") == 0 && gs.Count("os.MkdirAll") == 0))
	gs.Ensures("the directory is made", gs.Implies(err == nil, gs.Count("os.MkdirAll") == 1 && gs.Arg[string]("os.MkdirAll", 0, 0) == path.Dir(resolved(file, home))))
	gs.Ensures("a directory that cannot be made is reported", gs.Implies(gs.Count("os.MkdirAll") >= 1 && gs.Ret[error]("os.MkdirAll", 0, 0) != nil, err != nil))
	gs.Ensures("the code is written to that file, unless it is its content", gs.Implies(err == nil,
		gs.Ite(gs.Count("os.WriteFile") >= 1,
			gs.Count("os.WriteFile") == 1 && gs.Arg[string]("os.WriteFile", 0, 0) == resolved(file, home) && gs.At("os.WriteFile", 0, gs.StrOf(gs.Arg[[]byte]("os.WriteFile", 0, 1))) == code && gs.Before("os.MkdirAll", 0, "os.WriteFile", 0),
			gs.Count("os.ReadFile") >= 1 && gs.Arg[string]("os.ReadFile", 0, 0) == resolved(file, home) && gs.StrOf(gs.Ret[[]byte]("os.ReadFile", 0, 0)) == code)))
	gs.Ensures("a file with that content is left alone", gs.Implies(gs.Count("os.WriteFile") >= 1, gs.Count("os.ReadFile") >= 1 && gs.Arg[string]("os.ReadFile", 0, 0) == resolved(file, home) && gs.At("os.WriteFile", 0, gs.StrOf(gs.Ret[[]byte]("os.ReadFile", 0, 0))) != code))
	gs.Ensures("a write that failed is reported", gs.Implies(gs.Count("os.WriteFile") >= 1 && gs.Ret[error]("os.WriteFile", 0, 0) != nil, err != nil))
	gs.AnyFrame()
	gs.NoPanic()
}

//@ contract getPathForTarget
func ctGetPathForTarget(gomod config.Namespace, goPath string, target *config.Target, p string) {
	gs.Property("C21")
	gs.Requires(target != nil)
	inside := gomod.Name != "" && (target.Package == gomod.Name || strings.HasPrefix(target.Package, gomod.Name+"/"))
	gs.Ensures("inside the module: below its path", gs.Implies(inside, p == path.Join(gomod.Path, strings.TrimPrefix(target.Package, gomod.Name))))
	gs.Ensures("outside: below GOPATH", gs.Implies(!inside, p == path.Join(goPath, "src", target.Package)))
	gs.NoPanic()
}

//@ contract relativeFilePath
func ctRelativeFilePath(a, b string, r string, e error) {
	gs.Property("C21")
	gs.Ensures("the path from a's directory to b, without the extension", gs.Implies(e == nil, r == strings.TrimSuffix(gs.UF[string]("filepath.Rel", path.Dir(a), b), ".ts")))
	gs.Ensures("fails exactly when there is none", gs.Iff(e != nil, gs.UF[error]("filepath.Rel#err", path.Dir(a), b) != nil))
	gs.NoPanic()
}

var _ = filepath.Rel
