//go:build verif

package gotsrpc

import (
	"go/ast"
	"go/types"

	gs "github.com/foomo/gotsrpc/v2/verifspec"
)

// goScalar is the wire scalar of a predeclared type, "" for other names.
//
//@ spec
func goScalar(name string) ScalarType {
	switch name {
	case "any", "interface":
		return ScalarTypeAny
	case "string":
		return ScalarTypeString
	case "bool":
		return ScalarTypeBool
	case "byte", "uint8":
		return ScalarTypeByte
	case "float32", "float64", "rune", "uintptr",
		"int", "int8", "int16", "int32", "int64",
		"uint", "uint16", "uint32", "uint64":
		return ScalarTypeNumber
	}
	return ""
}

//@ spec
func predeclared(name string) bool { return types.Universe.Lookup(name) != nil }

//@ contract getTypesFromAstType
func ctGetTypesFromAstType(ident *ast.Ident, structType string, scalarType ScalarType) {
	gs.Property("C17")
	gs.Ensures("either a scalar or a struct type of that name", gs.Iff(structType != "", scalarType == ScalarTypeNone && ident.Name != "") && gs.Implies(structType != "", structType == ident.Name))
	gs.Ensures("the wire scalar of a predeclared type", gs.Implies(goScalar(ident.Name) != "", scalarType == goScalar(ident.Name)))
	gs.Ensures("a name not declared in its file is no struct", gs.Implies(ident.Obj == nil && ident.Name != "", structType == ""))
	gs.Ensures("other names stand for themselves", gs.Implies(goScalar(ident.Name) == "" && ident.Name != "float" && structType == "" && ident.Name != "", string(scalarType) == ident.Name))
	gs.Assigns()
}

// path of the package a name is qualified with.
//
//@ spec
func pkgPath(imports fileImportSpecMap, name string) string {
	return gs.Ite(gs.Has(imports, name), imports[name].path, name)
}

//@ contract (fileImportSpecMap).getPackagePath
func ctGetPackagePath(fileImports fileImportSpecMap, packageName string, r string) {
	gs.Property("C21")
	gs.Ensures("the imported path of the name, else the name", r == pkgPath(fileImports, packageName))
	gs.Assigns()
}

// named: the value of a type given by name alone.
//
//@ spec
func named(v *Value, name string, imports fileImportSpecMap, pkg string) bool {
	return gs.Implies(goScalar(name) != "" && predeclared(name), v.ScalarType == goScalar(name) && v.GoScalarType == name) &&
		gs.Implies(name == "error" && v.StructType == nil, v.IsError) &&
		gs.Implies(!predeclared(name) && name != "", v.StructType != nil && v.StructType.Name == name && v.StructType.Package == pkgPath(imports, pkg) ||
			v.Scalar != nil && v.Scalar.Name == name && v.Scalar.Package == pkgPath(imports, pkg) && v.Scalar.Type == v.ScalarType)
}

//@ contract readAstType
func ctReadAstType(v *Value, fieldIdent *ast.Ident, fileImports fileImportSpecMap, packageName string) {
	gs.Property("C17", "C19")
	gs.Ensures("the named type", named(v, fieldIdent.Name, fileImports, packageName))
	gs.Ensures("a name not declared in its file is a named scalar", gs.Implies(fieldIdent.Obj == nil && fieldIdent.Name != "" && !predeclared(fieldIdent.Name),
		v.Scalar != nil && v.Scalar.Name == fieldIdent.Name && v.Scalar.Package == pkgPath(fileImports, packageName)))
	gs.Ensures("nothing but the name's part of it", v.IsPtr == gs.Old(v.IsPtr) && v.Array == gs.Old(v.Array) && v.Map == gs.Old(v.Map) && v.Struct == gs.Old(v.Struct) && v.IsInterface == gs.Old(v.IsInterface))
	gs.Ensures("its own description of the type", v.StructType == gs.Old(v.StructType) || gs.Fresh(v.StructType))
	gs.Assigns(v)
}

// shape: the value v is of the shape of the type expression e, at the outermost
// level; the values inside it are read by calls with the same contract.
//
//@ spec
func shape(v *Value, e ast.Expr, imports fileImportSpecMap) bool {
	return gs.Implies(gs.IsType[*ast.Ident](e), named(v, e.(*ast.Ident).Name, imports, "")) &&
		gs.Implies(gs.IsType[*ast.StarExpr](e), v.IsPtr) &&
		gs.Implies(gs.IsType[*ast.ArrayType](e), v.Array != nil && v.Array.Value != nil) &&
		gs.Implies(gs.IsType[*ast.MapType](e), v.Map != nil && v.Map.Value != nil) &&
		gs.Implies(gs.IsType[*ast.StructType](e), v.Struct != nil) &&
		gs.Implies(gs.IsType[*ast.InterfaceType](e), v.IsInterface) &&
		gs.Implies(gs.IsType[*ast.SelectorExpr](e), selected(v, e.(*ast.SelectorExpr), imports))
}

//@ spec
func selected(v *Value, e *ast.SelectorExpr, imports fileImportSpecMap) bool {
	return gs.Implies(gs.IsType[*ast.Ident](e.X) && e.Sel.Obj == nil && e.Sel.Name != "" && !predeclared(e.Sel.Name),
		v.Scalar != nil && v.Scalar.Name == e.Sel.Name && v.Scalar.Package == pkgPath(imports, e.X.(*ast.Ident).Name))
}

//@ contract readAstSelectorExpr
func ctReadAstSelectorExpr(v *Value, selectorExpr *ast.SelectorExpr, fileImports fileImportSpecMap) {
	gs.Property("C17", "C19")
	gs.Requires(v.StructType == nil)
	gs.Ensures("the named type of the package", selected(v, selectorExpr, fileImports))
	gs.Ensures("nothing but the name's part of it", v.IsPtr == gs.Old(v.IsPtr) && v.Array == gs.Old(v.Array) && v.Map == gs.Old(v.Map) && v.Struct == gs.Old(v.Struct) && v.IsInterface == gs.Old(v.IsInterface))
	gs.Assigns(v)
}

//@ contract readAstInterfaceType
func ctReadAstInterfaceType(v *Value, interfaceType *ast.InterfaceType, fileImports fileImportSpecMap) {
	gs.Property("C17")
	gs.Ensures("an interface", v.IsInterface && v.IsPtr == gs.Old(v.IsPtr))
	gs.Assigns(v)
}

//@ contract readAstStructType
func ctReadAstStructType(v *Value, structType *ast.StructType, fileImports fileImportSpecMap) {
	gs.Property("C17")
	gs.Ensures("an anonymous struct", v.Struct != nil && gs.Fresh(v.Struct) && v.IsPtr == gs.Old(v.IsPtr))
	gs.Assigns(v)
}

//@ contract readAstMapType
func ctReadAstMapType(m *Map, mapType *ast.MapType, fileImports fileImportSpecMap) {
	gs.Property("C17", "C19")
	gs.Requires(m.Value != nil, m.Value.StructType == nil)
	gs.Ensures("the map's value", m.Value == gs.Old(m.Value) && shape(m.Value, mapType.Value, fileImports))
	gs.Ensures("the map's key", gs.Implies(gs.IsType[*ast.Ident](mapType.Key) || gs.IsType[*ast.SelectorExpr](mapType.Key), m.Key != nil && shape(m.Key, mapType.Key, fileImports)))
	gs.Assigns(m, m.Value)
}

//@ contract readAstStarExpr
func ctReadAstStarExpr(v *Value, starExpr *ast.StarExpr, fileImports fileImportSpecMap) {
	gs.Property("C17", "C19")
	gs.Requires(v.StructType == nil)
	gs.Ensures("a pointer", v.IsPtr)
	gs.Ensures("to the type below", shape(v, starExpr.X, fileImports))
	gs.Assigns(v)
}

//@ contract (*Value).loadExpr
func ctLoadExpr(v *Value, expr ast.Expr, fileImports fileImportSpecMap) {
	gs.Property("C17", "C18", "C19")
	gs.Requires(v.StructType == nil)
	gs.Ensures("the outermost type", shape(v, expr, fileImports))
	gs.Ensures("a pointer exactly when it is one", gs.Implies(!gs.IsType[*ast.StarExpr](expr), v.IsPtr == gs.Old(v.IsPtr)))
	gs.Ensures("the element of a slice", gs.Implies(gs.IsType[*ast.ArrayType](expr), gs.Fresh(v.Array.Value) && shape(v.Array.Value, expr.(*ast.ArrayType).Elt, fileImports)))
	gs.Ensures("the value of a map", gs.Implies(gs.IsType[*ast.MapType](expr), gs.Fresh(v.Map.Value) && shape(v.Map.Value, expr.(*ast.MapType).Value, fileImports)))
	gs.Ensures("what a pointer points to", gs.Implies(gs.IsType[*ast.StarExpr](expr), shape(v, expr.(*ast.StarExpr).X, fileImports)))
	gs.Assigns(v)
}

//@ contract readField
func ctReadField(astField *ast.Field, fileImports fileImportSpecMap, names []string, v *Value, jsonInfo *JSONInfo) {
	gs.Property("C16", "C17", "C18", "C20")
	gs.Ensures("the declared names, in order", gs.Ite(len(astField.Names) == 0, len(names) == 1 && names[0] == "", len(names) == len(astField.Names) && gs.Forall(func(k int) bool {
		return gs.Implies(0 <= k && k < len(names), names[k] == astField.Names[k].Name)
	})))
	gs.Ensures("the declared type", v != nil && gs.Fresh(v) && shape(v, astField.Type, fileImports))
	gs.Ensures("a pointer exactly when it is declared so", gs.Implies(!gs.IsType[*ast.StarExpr](astField.Type), !v.IsPtr))
	gs.Ensures("the tag, if there is one", (jsonInfo == nil) == (astField.Tag == nil) && gs.Implies(jsonInfo != nil, gs.Fresh(jsonInfo)))
	gs.Ensures("the tag is read without its quotes", gs.Implies(astField.Tag != nil, jsonInfo.Ignore == ignored(astField.Tag.Value[1:len(astField.Tag.Value)-1]) &&
		jsonInfo.OmitEmpty == hasOption(astField.Tag.Value[1:len(astField.Tag.Value)-1], "json", 1, "omitempty") &&
		jsonInfo.Inline == hasOption(astField.Tag.Value[1:len(astField.Tag.Value)-1], "json", 1, "inline") &&
		jsonInfo.Union == hasOption(astField.Tag.Value[1:len(astField.Tag.Value)-1], "gotsrpc", 0, "union")))
	gs.Invariant("the names so far", func(i int, names []string) bool {
		return len(names) == i && gs.Forall(func(k int) bool {
			return gs.Implies(0 <= k && k < len(names), names[k] == astField.Names[k].Name)
		})
	})
	gs.Assigns()
}

// visible: the field belongs to a type's JSON fields by its name.
//
//@ spec
func visible(f *Field) bool { return f.Name == "" || ast.IsExported(f.Name) }

//@ contract readFieldList
func ctReadFieldList(fieldList []*ast.Field, fileImports fileImportSpecMap, fields []*Field, inlineFields []*Field, unionFields []*Field) {
	gs.Property("C16", "C18")
	gs.Ensures("only exported or embedded fields", gs.Forall(func(k int) bool {
		return gs.Implies(0 <= k && k < len(fields), fields[k] != nil && visible(fields[k]))
	}))
	gs.Ensures("only embedded fields are inherited, and only by inline", gs.Forall(func(k int) bool {
		return gs.Implies(0 <= k && k < len(inlineFields), inlineFields[k] != nil && inlineFields[k].Name == "" && inlineFields[k].JSONInfo.Inline && !inlineFields[k].JSONInfo.Ignore)
	}))
	gs.Ensures("only exported fields tagged so are union members", gs.Forall(func(k int) bool {
		return gs.Implies(0 <= k && k < len(unionFields), unionFields[k] != nil && ast.IsExported(unionFields[k].Name) && unionFields[k].JSONInfo.Union)
	}))
	gs.Invariant("only exported or embedded fields so far", func(fields []*Field) bool {
		return gs.Forall(func(k int) bool { return gs.Implies(0 <= k && k < len(fields), fields[k] != nil && visible(fields[k])) })
	})
	gs.Invariant("only embedded fields are inherited so far", func(inlineFields []*Field) bool {
		return gs.Forall(func(k int) bool {
			return gs.Implies(0 <= k && k < len(inlineFields), inlineFields[k] != nil && inlineFields[k].Name == "" && inlineFields[k].JSONInfo.Inline && !inlineFields[k].JSONInfo.Ignore)
		})
	})
	gs.Invariant("only exported fields tagged so are union members so far", func(unionFields []*Field) bool {
		return gs.Forall(func(k int) bool {
			return gs.Implies(0 <= k && k < len(unionFields), unionFields[k] != nil && ast.IsExported(unionFields[k].Name) && unionFields[k].JSONInfo.Union)
		})
	})
	gs.Assigns()
}

//@ contract (ServiceMethods).Swap
func ctServiceMethodsSwap(sm ServiceMethods, i int, j int) {
	gs.Property("C16")
	gs.Requires(0 <= i && i < len(sm), 0 <= j && j < len(sm))
	gs.Ensures("two methods exchanged", sm[i] == gs.Old(sm[j]) && sm[j] == gs.Old(sm[i]))
	gs.Ensures("the others stay", gs.Forall(func(k int) bool {
		return gs.Implies(0 <= k && k < len(sm) && k != i && k != j, sm[k] == gs.Old(sm[k]))
	}))
	gs.Assigns(sm)
}

//@ contract readFields
func ctReadFields(fieldList *ast.FieldList, fileImports fileImportSpecMap, fields []*Field) {
	gs.Property("C16", "C20")
	gs.Ensures("every argument has a value", gs.Forall(func(k int) bool {
		return gs.Implies(0 <= k && k < len(fields), fields[k] != nil && fields[k].Value != nil)
	}))
	gs.Ensures("without a list there are none", gs.Implies(fieldList == nil, len(fields) == 0))
	gs.Ensures("one after the other, in order", gs.Implies(fieldList != nil && oneEach(fieldList), len(fields) == len(fieldList.List) && inOrder(fields, fieldList)))
	gs.Invariant("every argument so far has a value", func(fields []*Field) bool {
		return gs.Forall(func(k int) bool {
			return gs.Implies(0 <= k && k < len(fields), fields[k] != nil && fields[k].Value != nil)
		})
	})
	gs.Invariant("one after the other so far", func(i int, fields []*Field) bool {
		return gs.Implies(oneEach(fieldList), len(fields) == i && inOrder(fields, fieldList))
	})
	gs.Invariant("then the name of this one", func(i int, j int, fields []*Field) bool {
		return gs.Implies(oneEach(fieldList), len(fields) == i+j && inOrder(fields, fieldList))
	})
	gs.Assigns()
}

// oneEach: no two parameters are declared together.
//
//@ spec
func oneEach(l *ast.FieldList) bool {
	return gs.Forall(func(k int) bool { return gs.Implies(0 <= k && k < len(l.List), len(l.List[k].Names) <= 1) })
}

//@ spec
func inOrder(fields []*Field, l *ast.FieldList) bool {
	return gs.Forall(func(k int) bool {
		return gs.Implies(0 <= k && k < len(fields), fields[k].Name == soleName(l.List[k]))
	})
}

// soleName is the name of a parameter declared alone, "" without one.
//
//@ spec
func soleName(f *ast.Field) string {
	return gs.Ite(len(f.Names) == 0, "", f.Names[0].Name)
}
