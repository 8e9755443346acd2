//go:build verif

package gotsrpc

import (
	gs "github.com/foomo/gotsrpc/v2/verifspec"
)

// structOf is the struct type a value is made of.
//
//@ spec
func structOf(v *Value) *StructType {
	switch {
	case v.StructType != nil:
		return v.StructType
	case v.Map != nil:
		return structOf(v.Map.Value)
	case v.Array != nil:
		return structOf(v.Array.Value)
	}
	return nil
}

// scalarsOf are the named scalars a value is made of.
//
//@ spec
func scalarsOf(v *Value) gs.Seq[*Scalar] {
	switch {
	case v.Scalar != nil:
		return gs.Unit(v.Scalar)
	case v.Map != nil:
		return gs.Cat(gs.Ite(v.Map.Key != nil, scalarsOf(v.Map.Key), gs.Empty[*Scalar]()), scalarsOf(v.Map.Value))
	case v.Array != nil:
		return scalarsOf(v.Array.Value)
	}
	return gs.Empty[*Scalar]()
}

//@ spec
func typeName(pkg, name string) string { return gs.Ite(pkg == "", name, pkg+"."+name) }

// collected: every type but error and those of net/http.
//
//@ spec
func collectable(n string) bool {
	return n != "error" && n != "net/http.Request" && n != "net/http.ResponseWriter"
}

//@ contract getStructTypeForField
func ctGetStructTypeForField(value *Value, r *StructType) {
	gs.Property("C19")
	gs.Ensures("the struct type below pointers, slices and maps", r == structOf(value))
}

//@ contract getScalarForField
func ctGetScalarForField(value *Value, r []*Scalar) {
	gs.Property("C19")
	gs.Ensures("the named scalars below pointers, slices and maps", gs.Same(gs.SeqOf(r), scalarsOf(value)))
	gs.Ensures("the list is new", gs.Fresh(r) || len(r) == 0)
}

//@ contract collectStructTypes
func ctCollectStructTypes(fields []*Field, structTypes map[string]bool) {
	gs.Property("C19")
	gs.Requires(structTypes != nil)
	gs.Ensures("every struct type of a field is collected", gs.Forall(func(k int) bool {
		return gs.Implies(0 <= k && k < len(fields) && structOf(fields[k].Value) != nil && collectable(typeName(structOf(fields[k].Value).Package, structOf(fields[k].Value).Name)),
			structTypes[typeName(structOf(fields[k].Value).Package, structOf(fields[k].Value).Name)])
	}))
	gs.Ensures("nothing collected is lost", gs.Forall(func(n string) bool {
		return gs.Implies(gs.Old(structTypes[n]), structTypes[n])
	}))
	gs.Ensures("error and the HTTP types are not collected", gs.Forall(func(n string) bool {
		return gs.Implies(!collectable(n), structTypes[n] == gs.Old(structTypes[n]))
	}))
	gs.Invariant("the struct types so far are collected", func(i int) bool {
		return gs.Forall(func(k int) bool {
			return gs.Implies(0 <= k && k < i && structOf(fields[k].Value) != nil && collectable(typeName(structOf(fields[k].Value).Package, structOf(fields[k].Value).Name)),
				structTypes[typeName(structOf(fields[k].Value).Package, structOf(fields[k].Value).Name)])
		})
	})
	gs.Invariant("nothing collected is lost", func() bool {
		return gs.Forall(func(n string) bool { return gs.Implies(gs.Old(structTypes[n]), structTypes[n]) })
	})
	gs.Invariant("error and the HTTP types are not collected", func() bool {
		return gs.Forall(func(n string) bool { return gs.Implies(!collectable(n), structTypes[n] == gs.Old(structTypes[n])) })
	})
	gs.Assigns(structTypes)
}

//@ contract collectScalarTypes
func ctCollectScalarTypes(fields []*Field, scalarTypes map[string]bool) {
	gs.Property("C19")
	gs.Requires(scalarTypes != nil)
	gs.Ensures("every named scalar of a field is collected", gs.Forall(func(k, j int) bool {
		return gs.Implies(0 <= k && k < len(fields) && 0 <= j && j < gs.SeqLen(scalarsOf(fields[k].Value)) && gs.Nth(scalarsOf(fields[k].Value), j) != nil &&
			collectable(typeName(gs.Nth(scalarsOf(fields[k].Value), j).Package, gs.Nth(scalarsOf(fields[k].Value), j).Name)),
			scalarTypes[typeName(gs.Nth(scalarsOf(fields[k].Value), j).Package, gs.Nth(scalarsOf(fields[k].Value), j).Name)])
	}))
	gs.Ensures("nothing collected is lost", gs.Forall(func(n string) bool {
		return gs.Implies(gs.Old(scalarTypes[n]), scalarTypes[n])
	}))
	gs.Ensures("error and the HTTP types are not collected", gs.Forall(func(n string) bool {
		return gs.Implies(!collectable(n), scalarTypes[n] == gs.Old(scalarTypes[n]))
	}))
	gs.Invariant("the scalars of the fields so far are collected", func(i int) bool {
		return gs.Forall(func(k, j int) bool {
			return gs.Implies(0 <= k && k < i && 0 <= j && j < gs.SeqLen(scalarsOf(fields[k].Value)) && gs.Nth(scalarsOf(fields[k].Value), j) != nil &&
				collectable(typeName(gs.Nth(scalarsOf(fields[k].Value), j).Package, gs.Nth(scalarsOf(fields[k].Value), j).Name)),
				scalarTypes[typeName(gs.Nth(scalarsOf(fields[k].Value), j).Package, gs.Nth(scalarsOf(fields[k].Value), j).Name)])
		})
	})
	gs.Invariant("the scalars of the list so far are collected", func(list []*Scalar, i int) bool {
		return gs.Forall(func(j int) bool {
			return gs.Implies(0 <= j && j < i && j < len(list) && gs.Nth(gs.SeqOf(list), j) != nil && collectable(typeName(gs.Nth(gs.SeqOf(list), j).Package, gs.Nth(gs.SeqOf(list), j).Name)),
				scalarTypes[typeName(gs.Nth(gs.SeqOf(list), j).Package, gs.Nth(gs.SeqOf(list), j).Name)])
		})
	})
	gs.Invariant("nothing collected is lost", func() bool {
		return gs.Forall(func(n string) bool { return gs.Implies(gs.Old(scalarTypes[n]), scalarTypes[n]) })
	})
	gs.Invariant("error and the HTTP types are not collected", func() bool {
		return gs.Forall(func(n string) bool { return gs.Implies(!collectable(n), scalarTypes[n] == gs.Old(scalarTypes[n])) })
	})
	gs.Assigns(scalarTypes)
}

// namesScalar: the name is that of a named scalar, not of a struct.
//
//@ spec
func namesScalar(st *StructType, structs map[string]*Struct, scalars map[string]*Scalar) bool {
	return st != nil && !gs.Has(structs, st.Package+"."+st.Name) && gs.Has(scalars, st.Package+"."+st.Name)
}

//@ contract fixFieldStructs
func ctFixFieldStructs(fields []*Field, structs map[string]*Struct, scalars map[string]*Scalar) {
	gs.Property("C17", "C19", "C20")
	gs.Ensures("a field of a struct type keeps it", gs.Forall(func(k int) bool {
		return gs.Implies(0 <= k && k < len(fields) && !gs.Old(namesScalar(fields[k].Value.StructType, structs, scalars)),
			fields[k].Value.StructType == gs.Old(fields[k].Value.StructType) && fields[k].Value.Scalar == gs.Old(fields[k].Value.Scalar) && fields[k].Value.ScalarType == gs.Old(fields[k].Value.ScalarType))
	}))
	gs.Ensures("a field of a named scalar is that scalar", gs.Forall(func(k int) bool {
		return gs.Implies(0 <= k && k < len(fields) && gs.Old(namesScalar(fields[k].Value.StructType, structs, scalars)),
			fields[k].Value.StructType == nil && fields[k].Value.Scalar != nil && fields[k].Value.Scalar.Name == gs.Old(fields[k].Value.StructType.Name) && fields[k].Value.Scalar.Package == gs.Old(fields[k].Value.StructType.Package))
	}))
	gs.Invariant("fields keep their struct type", func() bool {
		return gs.Forall(func(k int) bool {
			return gs.Implies(0 <= k && k < len(fields) && !gs.Old(namesScalar(fields[k].Value.StructType, structs, scalars)),
				fields[k].Value.StructType == gs.Old(fields[k].Value.StructType) && fields[k].Value.Scalar == gs.Old(fields[k].Value.Scalar) && fields[k].Value.ScalarType == gs.Old(fields[k].Value.ScalarType))
		})
	})
	gs.Invariant("named scalars are settled or still to do", func() bool {
		return gs.Forall(func(k int) bool {
			return gs.Implies(0 <= k && k < len(fields) && gs.Old(namesScalar(fields[k].Value.StructType, structs, scalars)),
				fields[k].Value.StructType == gs.Old(fields[k].Value.StructType) || fields[k].Value.StructType == nil && fields[k].Value.Scalar != nil && fields[k].Value.Scalar.Name == gs.Old(fields[k].Value.StructType.Name) && fields[k].Value.Scalar.Package == gs.Old(fields[k].Value.StructType.Package))
		})
	})
	gs.Invariant("named scalars so far are settled", func(i int) bool {
		return gs.Forall(func(k int) bool {
			return gs.Implies(0 <= k && k < i && gs.Old(namesScalar(fields[k].Value.StructType, structs, scalars)),
				fields[k].Value.StructType == nil && fields[k].Value.Scalar != nil && fields[k].Value.Scalar.Name == gs.Old(fields[k].Value.StructType.Name) && fields[k].Value.Scalar.Package == gs.Old(fields[k].Value.StructType.Package))
		})
	})
	gs.AnyFrame()
}
