//go:build verif

package gotsrpc

import (
	gs "github.com/foomo/gotsrpc/v2/verifspec"
)

// goNamed spells a named type: qualified by its package's alias, unless it
// belongs to the generated package itself or has no package to qualify by.
//
//@ spec
func goNamed(pkg, name string, aliases map[string]string, self string) string {
	return gs.Ite(pkg != self && aliases[pkg] != "", aliases[pkg]+"."+name, name)
}

// goSpelling spells a type in Go.
//
//@ spec
func goSpelling(v *Value, aliases map[string]string, self string) string {
	star := gs.Ite(v.IsPtr, "*", "")
	switch {
	case v.Array != nil:
		return star + "[]" + goSpelling(v.Array.Value, aliases, self)
	case v.GoScalarType != "":
		return star + v.GoScalarType
	case v.StructType != nil:
		return star + goNamed(v.StructType.Package, v.StructType.Name, aliases, self)
	case v.Map != nil:
		return star + "map[" + goSpelling(v.Map.Key, aliases, self) + "]" + goSpelling(v.Map.Value, aliases, self)
	case v.Scalar != nil:
		return star + goNamed(v.Scalar.Package, v.Scalar.Name, aliases, self)
	case v.IsInterface:
		return star + "interface{}"
	}
	return star
}

//@ contract (*Value).goType
func ctGoType(v *Value, aliases map[string]string, packageName string, t string) {
	gs.Property("C20")
	gs.Ensures("the type's own spelling", t == goSpelling(v, aliases, packageName))
}

//@ contract (*Value).isHTTPResponseWriter
func ctIsHTTPResponseWriter(v *Value, r bool) {
	gs.Property("C15", "C01")
	gs.Requires(v != nil)
	gs.Ensures("exactly http.ResponseWriter", r == (v.StructType != nil && v.StructType.Name == "ResponseWriter" && v.StructType.Package == "net/http" || v.Scalar != nil && v.Scalar.Name == "ResponseWriter" && v.Scalar.Package == "net/http"))
	gs.NoPanic()
}

//@ contract (*Value).isHTTPRequest
func ctIsHTTPRequest(v *Value, r bool) {
	gs.Property("C15", "C01")
	gs.Requires(v != nil)
	gs.Ensures("exactly *http.Request", r == (v.IsPtr && (v.StructType != nil && v.StructType.Name == "Request" && v.StructType.Package == "net/http" || v.Scalar != nil && v.Scalar.Name == "Request" && v.Scalar.Package == "net/http")))
	gs.NoPanic()
}

// goRefers: spelling v takes a name of package p.
//
//@ spec
func goRefers(v *Value, p string) bool {
	switch {
	case v.StructType != nil:
		return v.StructType.Package == p
	case v.Array != nil:
		return goRefers(v.Array.Value, p)
	case v.Map != nil:
		return goRefers(v.Map.Key, p) || goRefers(v.Map.Value, p)
	case v.Scalar != nil:
		return v.Scalar.Package == p
	}
	return false
}

// oneToOne: no two packages share an alias.
//
//@ spec
func oneToOne(aliases map[string]string) bool {
	return gs.Forall(func(a, b string) bool {
		return gs.Implies(gs.Has(aliases, a) && gs.Has(aliases, b) && a != b, aliases[a] != aliases[b])
	})
}

//@ contract extractImport
func ctExtractImport(packageName string, fullPackageName string, aliases map[string]string) {
	gs.Property("C20")
	gs.Requires(aliases != nil)
	gs.Ensures("every other package has an alias", gs.Implies(packageName != fullPackageName, gs.Has(aliases, packageName)))
	gs.Ensures("nothing else gets one", gs.Forall(func(p string) bool {
		return gs.Implies(gs.Has(aliases, p), gs.Old(gs.Has(aliases, p)) || p == packageName && p != fullPackageName)
	}))
	gs.Ensures("existing aliases stay", gs.Forall(func(p string) bool {
		return gs.Implies(gs.Old(gs.Has(aliases, p)), gs.Has(aliases, p) && aliases[p] == gs.Old(aliases[p]))
	}))
	gs.Ensures("distinct packages keep distinct aliases", gs.Implies(gs.Old(oneToOne(aliases)), oneToOne(aliases)))
	gs.Assigns(aliases)
	gs.NoPanic()
}

//@ contract extractImportValue
func ctExtractImportValue(value *Value, fullPackageName string, aliases map[string]string) {
	gs.Property("C20")
	gs.Requires(aliases != nil)
	gs.Ensures("every other package the type names has an alias", gs.Forall(func(p string) bool {
		return gs.Implies(goRefers(value, p) && p != fullPackageName, gs.Has(aliases, p))
	}))
	gs.Ensures("nothing else gets one", gs.Forall(func(p string) bool {
		return gs.Implies(gs.Has(aliases, p), gs.Old(gs.Has(aliases, p)) || goRefers(value, p) && p != fullPackageName)
	}))
	gs.Ensures("existing aliases stay", gs.Forall(func(p string) bool {
		return gs.Implies(gs.Old(gs.Has(aliases, p)), gs.Has(aliases, p) && aliases[p] == gs.Old(aliases[p]))
	}))
	gs.Ensures("distinct packages keep distinct aliases", gs.Implies(gs.Old(oneToOne(aliases)), oneToOne(aliases)))
	gs.Assigns(aliases)
}

//@ contract extractImports
func ctExtractImports(fields []*Field, fullPackageName string, aliases map[string]string) {
	gs.Property("C20")
	gs.Requires(aliases != nil)
	gs.Ensures("every other package a field's type names has an alias", gs.Forall(func(p string, k int) bool {
		return gs.Implies(0 <= k && k < len(fields) && goRefers(fields[k].Value, p) && p != fullPackageName, gs.Has(aliases, p))
	}))
	gs.Ensures("existing aliases stay", gs.Forall(func(p string) bool {
		return gs.Implies(gs.Old(gs.Has(aliases, p)), gs.Has(aliases, p) && aliases[p] == gs.Old(aliases[p]))
	}))
	gs.Ensures("distinct packages keep distinct aliases", gs.Implies(gs.Old(oneToOne(aliases)), oneToOne(aliases)))
	gs.Invariant("the packages named so far have aliases", func(i int) bool {
		return gs.Forall(func(p string, k int) bool {
			return gs.Implies(0 <= k && k < i && goRefers(fields[k].Value, p) && p != fullPackageName, gs.Has(aliases, p))
		})
	})
	gs.Invariant("existing aliases stay", func() bool {
		return gs.Forall(func(p string) bool {
			return gs.Implies(gs.Old(gs.Has(aliases, p)), gs.Has(aliases, p) && aliases[p] == gs.Old(aliases[p]))
		})
	})
	gs.Invariant("distinct packages keep distinct aliases", func() bool { return gs.Implies(gs.Old(oneToOne(aliases)), oneToOne(aliases)) })
	gs.Assigns(aliases)
}


//@ contract isAlias
func ctIsAlias(name string, aliases map[string]string, r bool) {
	gs.Property("C20")
	gs.Ensures("exactly when a package has that alias", gs.Iff(r, gs.Exists(func(p string) bool { return gs.Has(aliases, p) && aliases[p] == name })))
	gs.Invariant("no package seen has it", func(seen gs.Visited[string]) bool {
		return gs.Forall(func(p string) bool {
			return gs.Implies(gs.Has(aliases, p) && seen.Has(p), aliases[p] != name)
		})
	})
	gs.NoPanic()
}
