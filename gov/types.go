package main

import (
	"fmt"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/types/typeutil"
)

type unsupported struct{ why string }

func unsup(f string, a ...interface{}) {
	panic(unsupported{fmt.Sprintf(f, a...)})
}

// sortOf gives the SMT sort of an atomic Go type; ok=false for structs,
// arrays and tuples.
func sortOf(t types.Type) (Sort, bool) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		i := u.Info()
		switch {
		case i&types.IsBoolean != 0:
			return SBool, true
		case i&types.IsString != 0:
			return SStr, true
		case i&types.IsInteger != 0:
			return SInt, true
		case i&types.IsFloat != 0, i&types.IsComplex != 0:
			return SFlt, true
		case u.Kind() == types.UnsafePointer:
			return SInt, true
		case u.Kind() == types.UntypedNil:
			return SInt, true
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return SInt, true
	case *types.Interface:
		return SIface, true
	case *types.Slice:
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Name() == "verifspec" {
			es, ok := sortOf(u.Elem())
			if !ok {
				return "", false
			}
			return SSeq(es), true
		}
		return SSlice, true
	case *types.TypeParam:
		return "", false
	}
	return "", false
}

func mustSort(t types.Type) Sort {
	s, ok := sortOf(t)
	if !ok {
		unsup("no atomic sort for %s", t)
	}
	return s
}

func isStruct(t types.Type) (*types.Struct, bool) {
	s, ok := t.Underlying().(*types.Struct)
	return s, ok
}

func typeKey(t types.Type) string {
	t = types.Unalias(t)
	s := types.TypeString(t, nil)
	return s
}

// shortType renders a type the way reflect.Type.String does.
func shortType(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// leaves flattens a type into its atomic parts.
type leaf struct {
	path string
	sort Sort
	typ  types.Type
}

func leavesOf(t types.Type) []leaf {
	if s, ok := sortOf(t); ok {
		return []leaf{{"", s, t}}
	}
	if st, ok := isStruct(t); ok {
		var out []leaf
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			for _, l := range leavesOf(f.Type()) {
				out = append(out, leaf{"." + f.Name() + l.path, l.sort, l.typ})
			}
		}
		return out
	}
	if at, ok := t.Underlying().(*types.Array); ok {
		if at.Len() > 64 {
			unsup("large array %s", t)
		}
		var out []leaf
		for i := int64(0); i < at.Len(); i++ {
			for _, l := range leavesOf(at.Elem()) {
				out = append(out, leaf{fmt.Sprintf("[%d]%s", i, l.path), l.sort, l.typ})
			}
		}
		return out
	}
	unsup("leavesOf %s", t)
	return nil
}

// ---- type tags -------------------------------------------------------------

type Tags struct {
	mu    sync.Mutex
	m     typeutil.Map
	types []types.Type
}

func (t *Tags) Of(x types.Type) int64 {
	t.mu.Lock()
	defer t.mu.Unlock()
	if v := t.m.At(x); v != nil {
		return v.(int64)
	}
	t.types = append(t.types, x)
	n := int64(len(t.types))
	t.m.Set(x, n)
	return n
}

func (t *Tags) Type(n int64) types.Type {
	t.mu.Lock()
	defer t.mu.Unlock()
	if n < 1 || int(n) > len(t.types) {
		return nil
	}
	return t.types[n-1]
}

func ctorFor(t types.Type) string {
	if s, ok := sortOf(t); ok {
		switch s {
		case SInt:
			switch t.Underlying().(type) {
			case *types.Basic:
				return "iint"
			}
			return "iref"
		case SBool:
			return "ibool"
		case SStr:
			return "istr"
		case SFlt:
			return "iflt"
		case SSlice:
			return "islice"
		}
		unsup("ctorFor %s", t)
	}
	return "iref" // boxed struct / array
}

// intRange gives the value range of an integer type.
func intRange(t types.Type) (bits int, signed, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb || b.Info()&types.IsInteger == 0 {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	}
	return 64, true, true
}

func fnKey(full string) string {
	return strings.ReplaceAll(full, "github.com/foomo/gotsrpc/v2", "gotsrpc")
}
