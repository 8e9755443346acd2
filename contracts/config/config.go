//go:build verif

package config

import (
	"path"
	"path/filepath"

	gs "github.com/foomo/gotsrpc/v2/verifspec"
)

// listed: the service is one of the names.
//
//@ spec
func listed(names []string, service string) bool {
	return gs.Exists(func(k int) bool { return 0 <= k && k < len(names) && names[k] == service })
}

//@ contract (*Target).IsGoRPC
func ctIsGoRPC(t *Target, service string, r bool) {
	gs.Property("C22")
	gs.Requires(t != nil)
	gs.Ensures("exactly when listed for GoRPC", gs.Iff(r, listed(t.GoRPC, service)))
	gs.Invariant("not among the names before the current one", func(i int) bool {
		return gs.Forall(func(k int) bool { return gs.Implies(0 <= k && k < i, t.GoRPC[k] != service) })
	})
	gs.NoPanic()
}

//@ contract (*Target).IsTSRPC
func ctIsTSRPC(t *Target, service string, r bool) {
	gs.Property("C22")
	gs.Requires(t != nil)
	gs.Ensures("exactly when listed for TSRPC, or nothing is", gs.Iff(r, len(t.TSRPC) == 0 || listed(t.TSRPC, service)))
	gs.Invariant("not among the names before the current one", func(i int) bool {
		return gs.Forall(func(k int) bool { return gs.Implies(0 <= k && k < i, t.TSRPC[k] != service) })
	})
	gs.NoPanic()
}

//@ contract loadConfig
func ctLoadConfig(yamlBytes []byte, conf *Config, err error) {
	gs.Property("C22")
	gs.Ensures("the bytes are parsed once, as they are", gs.Count("yaml.v2.Unmarshal") == 1 && gs.StrOf(gs.Arg[[]byte]("yaml.v2.Unmarshal", 0, 0)) == gs.Old(gs.StrOf(yamlBytes)))
	gs.Ensures("fails exactly when they cannot be parsed", (err == nil) == (gs.Ret[error]("yaml.v2.Unmarshal", 0, 0) == nil))
	gs.Ensures("the configuration is the parsed one", gs.Implies(err == nil, conf != nil && gs.Arg[any]("yaml.v2.Unmarshal", 0, 1) == any(conf)))
	gs.Ensures("every mapping is kept under its own Go package", gs.Implies(err == nil, gs.Forall(func(k string) bool {
		return gs.Implies(gs.Has(conf.Mappings, k), conf.Mappings[k].GoPackage == k)
	})))
	gs.Invariant("the mappings seen are kept under their own Go package", func(seen gs.Visited[string], c *Config) bool {
		return c != nil && gs.Forall(func(k string) bool {
			return gs.Implies(gs.Has(c.Mappings, k) && seen.Has(k), c.Mappings[k].GoPackage == k)
		})
	})
	gs.AnyFrame()
}

//@ contract LoadConfigFile
func ctLoadConfigFile(file string, conf *Config, err error) {
	gs.Property("C22")
	p := gs.After("config.loadConfig", 0, gs.Ret[*Config]("config.loadConfig", 0, 0).Module.Path)
	gs.Ensures("the file is read", gs.Count("os.ReadFile") >= 1 && gs.Arg[string]("os.ReadFile", 0, 0) == file)
	gs.Ensures("its content is parsed", gs.Implies(err == nil, gs.Ret[error]("os.ReadFile", 0, 1) == nil && gs.Count("config.loadConfig") == 1 && gs.Ret[error]("config.loadConfig", 0, 1) == nil && gs.Ret[*Config]("config.loadConfig", 0, 0) == conf))
	gs.Ensures("a relative module path is resolved against the file", gs.Implies(err == nil && p != "" && !path.IsAbs(p), conf.Module.Path == gs.UF[string]("filepath.Abs", filepath.Join(filepath.Dir(file), p))))
	gs.Ensures("any other module path stays", gs.Implies(err == nil && (p == "" || path.IsAbs(p)), conf.Module.Path == p))
	gs.Ensures("every mapping is kept under its own Go package", gs.Implies(err == nil, gs.Forall(func(k string) bool {
		return gs.Implies(gs.Has(conf.Mappings, k), conf.Mappings[k].GoPackage == k)
	})))
	gs.Ensures("a file that cannot be read is reported", gs.Implies(gs.Ret[error]("os.ReadFile", 0, 1) != nil, err != nil))
	gs.Ensures("an unreadable configuration is reported", gs.Implies(gs.Count("config.loadConfig") == 1 && gs.Ret[error]("config.loadConfig", 0, 1) != nil, err != nil))
	gs.AnyFrame()
}
