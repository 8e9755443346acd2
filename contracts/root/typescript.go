//go:build verif

package gotsrpc

import (
	"strings"

	gs "github.com/foomo/gotsrpc/v2/verifspec"

	"github.com/foomo/gotsrpc/v2/config"
)

// tsKey is the name of a field's member: its JSON name, if it has one.
//
//@ spec
func tsKey(f *Field) string {
	return gs.Ite(f.JSONInfo != nil && f.JSONInfo.Name != "", f.JSONInfo.Name, f.Name)
}

//@ contract (*Field).tsName
func ctTsName(f *Field, r string) {
	gs.Property("C18")
	gs.Ensures("the JSON name, or else the field's own", r == tsKey(f))
}

// tsScalar is the TypeScript type of a scalar.
//
//@ spec
func tsScalar(t ScalarType) string {
	switch t {
	case "byte":
		return "number"
	case "bool":
		return "boolean"
	case "error":
		return "any"
	}
	return string(t)
}

//@ contract tsTypeFromScalarType
func ctTsTypeFromScalarType(scalarType ScalarType, r string) {
	gs.Property("C17")
	gs.Ensures("the counterpart of the scalar", r == tsScalar(scalarType))
	gs.NoPanic()
}

// tsTag and tsOmit: the type tag of a field, and whether it is optional.
//
//@ spec
func tsTag(info *JSONInfo) string { return gs.Ite(info != nil, info.Type, "") }

//@ spec
func tsOmit(info *JSONInfo) bool { return info != nil && info.OmitEmpty }

// tsNull marks a value nullable, unless it is optional.
//
//@ spec
func tsNull(canBeNil bool, omit bool) string { return gs.Ite(canBeNil && !omit, "|null", "") }

// tsModule is the TypeScript module of a Go package.
//
//@ spec
func tsModule(mappings config.TypeScriptMappings, pkg string) string {
	return gs.Ite(gs.Has(mappings, pkg), mappings[pkg].TypeScriptModule, "")
}

// tsIsNil: the named type is a slice or a map.
//
//@ spec
func tsIsNil(structs map[string]*Struct, pkg, name string) bool {
	return gs.Has(structs, pkg+"."+name) && (structs[pkg+"."+name].Array != nil || structs[pkg+"."+name].Map != nil)
}

// tsTime: times are sent as numbers.
//
//@ spec
func tsTime(name string) string { return gs.Ite(name == "time.Time", "number", name) }

// tsLine is the current line after v has been rendered behind line.
//
//@ spec
func tsLine(v *Value, mappings config.TypeScriptMappings, structs map[string]*Struct, tag string, omit bool, line string) string {
	switch {
	case tag != "":
		return line + tag
	case v.Map != nil:
		key := gs.Ite(v.Map.Key != nil, tsLine(v.Map.Key, mappings, structs, "", false, line+"Record<"), line+"Record<"+v.Map.KeyType)
		return tsLine(v.Map.Value, mappings, structs, "", false, key+",") + ">" + tsNull(true, omit)
	case v.Array != nil:
		return tsArrayLine(v.Array, mappings, structs, line) + tsNull(true, omit)
	case v.Scalar != nil && v.Scalar.Package != "":
		return line + tsTime(tsModule(mappings, v.Scalar.Package)+"."+tsScalar(v.ScalarType)) + tsNull(v.IsPtr || tsIsNil(structs, v.Scalar.Package, v.Scalar.Name), omit)
	case v.Scalar != nil:
		return line + tsScalar(v.Scalar.Type)
	case v.StructType != nil && v.StructType.Package != "":
		return line + tsModule(mappings, v.StructType.Package) + "." + v.StructType.Name + tsNull(v.IsPtr || tsIsNil(structs, v.StructType.Package, v.StructType.Name), omit)
	case v.StructType != nil:
		return line + v.StructType.Name
	case v.Struct != nil:
		return "}" + tsNull(v.IsPtr, omit)
	case v.ScalarType != "":
		return line + tsScalar(v.ScalarType) + tsNull(v.IsPtr, omit)
	}
	return line + "any"
}

// tsArrayLine: bytes are sent as a string.
//
//@ spec
func tsArrayLine(a *Array, mappings config.TypeScriptMappings, structs map[string]*Struct, line string) string {
	return gs.Ite(a.Value.ScalarType == "byte" && !a.Value.IsPtr, line+"string", tsLine(a.Value, mappings, structs, "", false, line+"Array<")+">")
}

// tsDone is the text of the lines that are finished while v is rendered
// behind line: those of anonymous structs.
//
//@ spec
func tsDone(v *Value, mappings config.TypeScriptMappings, structs map[string]*Struct, tag string, tab string, ind int, line string) string {
	switch {
	case tag != "":
		return ""
	case v.Map != nil:
		done := gs.Ite(v.Map.Key != nil, tsDone(v.Map.Key, mappings, structs, "", tab, ind, line+"Record<"), "")
		key := gs.Ite(v.Map.Key != nil, tsLine(v.Map.Key, mappings, structs, "", false, line+"Record<"), line+"Record<"+v.Map.KeyType)
		return done + tsDone(v.Map.Value, mappings, structs, "", tab, ind, key+",")
	case v.Array != nil:
		return tsArrayDone(v.Array, mappings, structs, tab, ind, line)
	case v.Scalar != nil || v.StructType != nil:
		return ""
	case v.Struct != nil:
		return strings.Repeat(tab, ind) + line + "{\n" + tsMembers(v.Struct.Fields, len(v.Struct.Fields), mappings, structs, tab, ind+1)
	}
	return ""
}

//@ spec
func tsArrayDone(a *Array, mappings config.TypeScriptMappings, structs map[string]*Struct, tab string, ind int, line string) string {
	return gs.Ite(a.Value.ScalarType == "byte" && !a.Value.IsPtr, "", tsDone(a.Value, mappings, structs, "", tab, ind, line+"Array<"))
}

// tsMembers is the text of the first n fields: one line each, but none for
// those JSON ignores or has no name for.
//
//@ spec
func tsMembers(fields []*Field, n int, mappings config.TypeScriptMappings, structs map[string]*Struct, tab string, ind int) string {
	if n <= 0 {
		return ""
	}
	return tsMembers(fields, n-1, mappings, structs, tab, ind) + tsMemberText(fields[n-1], mappings, structs, tab, ind)
}

//@ spec
func tsMemberText(f *Field, mappings config.TypeScriptMappings, structs map[string]*Struct, tab string, ind int) string {
	if tsKey(f) == "" || f.JSONInfo != nil && f.JSONInfo.Ignore {
		return ""
	}
	head := tsQuoted(tsKey(f)) + gs.Ite(tsOmit(f.JSONInfo), "?", "") + ":"
	return tsDone(f.Value, mappings, structs, tsTag(f.JSONInfo), tab, ind, head) + strings.Repeat(tab, ind) + tsLine(f.Value, mappings, structs, tsTag(f.JSONInfo), tsOmit(f.JSONInfo), head) + ";\n"
}

//@ contract (*Value).tsType
func ctTsType(v *Value, mappings config.TypeScriptMappings, scalars map[string]*Scalar, structs map[string]*Struct, ts *code, jsonInfo *JSONInfo) {
	gs.Property("C17")
	gs.Requires(ts != nil, ts.indent >= 0)
	gs.Ensures("the line continues with the type", ts.line == gs.Old(tsLine(v, mappings, structs, tsTag(jsonInfo), tsOmit(jsonInfo), ts.line)))
	gs.Ensures("the lines of anonymous structs are finished", gs.Lines(ts.lines) == gs.Old(gs.Lines(ts.lines)+tsDone(v, mappings, structs, tsTag(jsonInfo), ts.tab, ts.indent, ts.line)))
	gs.Ensures("the indentation stays", ts.indent == gs.Old(ts.indent) && ts.tab == gs.Old(ts.tab))
	gs.Ensures("the lines are the builder's own", gs.Fresh(ts.lines) || gs.SameArray(ts.lines, gs.Old(ts.lines)))
	gs.Assigns(ts, ts.lines)
}

//@ contract (*Array).tsType
func ctArrayTsType(a *Array, mappings config.TypeScriptMappings, scalars map[string]*Scalar, structs map[string]*Struct, ts *code) {
	gs.Property("C17")
	gs.Requires(ts != nil, ts.indent >= 0)
	gs.Ensures("the line continues with the type", ts.line == gs.Old(tsArrayLine(a, mappings, structs, ts.line)))
	gs.Ensures("the lines of anonymous structs are finished", gs.Lines(ts.lines) == gs.Old(gs.Lines(ts.lines)+tsArrayDone(a, mappings, structs, ts.tab, ts.indent, ts.line)))
	gs.Ensures("the indentation stays", ts.indent == gs.Old(ts.indent) && ts.tab == gs.Old(ts.tab))
	gs.Ensures("the lines are the builder's own", gs.Fresh(ts.lines) || gs.SameArray(ts.lines, gs.Old(ts.lines)))
	gs.Assigns(ts, ts.lines)
}

//@ contract renderStructFields
func ctRenderStructFields(fields []*Field, mappings config.TypeScriptMappings, scalars map[string]*Scalar, structs map[string]*Struct, ts *code) {
	gs.Property("C18", "C17")
	gs.Requires(ts != nil, ts.indent >= 0, ts.line == "")
	gs.Ensures("one line for each field JSON carries", gs.Lines(ts.lines) == gs.Old(gs.Lines(ts.lines)+tsMembers(fields, len(fields), mappings, structs, ts.tab, ts.indent)))
	gs.Ensures("the last line is finished", ts.line == "" && ts.indent == gs.Old(ts.indent) && ts.tab == gs.Old(ts.tab))
	gs.Invariant("the lines of the fields so far", func(i int) bool {
		return gs.Lines(ts.lines) == gs.Old(gs.Lines(ts.lines))+tsMembers(fields, i, mappings, structs, ts.tab, ts.indent)
	})
	gs.Invariant("the line is finished", func() bool { return ts.line == "" })
	gs.Invariant("the lines are the builder's own", func() bool { return gs.Fresh(ts.lines) || gs.SameArray(ts.lines, gs.Old(ts.lines)) })
	gs.Invariant("the indentation stays", func() bool { return ts.indent == gs.Old(ts.indent) && ts.tab == gs.Old(ts.tab) })
	gs.Ensures("the lines are the builder's own", gs.Fresh(ts.lines) || gs.SameArray(ts.lines, gs.Old(ts.lines)))
	gs.Assigns(ts, ts.lines)
}

// tsWord: what is left of the name at byte i continues an identifier.
//
//@ spec
func tsWord(s string, i int) bool {
	if i >= len(s) {
		return true
	}
	r := gs.UF[rune]("runeAt", s, i)
	letter := r == '_' || r == '$' || gs.UF[bool]("unicode.IsLetter", r)
	return (letter || i > 0 && gs.UF[bool]("unicode.IsDigit", r)) && tsWord(s, i+gs.UF[int]("runeWidth", s, i))
}

//@ spec
func tsQuoted(name string) string {
	return gs.Ite(tsWord(name, 0), name, gs.UF[string]("strconv.Quote", name))
}

//@ contract tsMember
func ctTsMember(name string, r string) {
	gs.Property("C18")
	gs.Ensures("quoted exactly when it is no identifier", r == tsQuoted(name))
	gs.Invariant("an identifier so far", func(i int) bool { return gs.Iff(tsWord(name, 0), tsWord(name, i)) })
}

// tsKeyLine is a record up to its value.
//
//@ spec
func tsRecord(m *Map, mappings config.TypeScriptMappings, structs map[string]*Struct, line string) string {
	return gs.Ite(m.Key != nil, tsLine(m.Key, mappings, structs, "", false, line+"Record<"), line+"Record<"+m.KeyType) + ","
}

// tsUnion is the line of a union behind its first n members.
//
//@ spec
func tsUnion(fields []*Field, n int, mappings config.TypeScriptMappings, structs map[string]*Struct, open string, sep string, line string) string {
	if n <= 0 {
		return line
	}
	return tsLine(fields[n-1].Value, mappings, structs, "", true, tsUnion(fields, n-1, mappings, structs, open, sep, line)+gs.Ite(n > 1, sep, "")+open)
}

//@ spec
func tsUnionDone(fields []*Field, n int, mappings config.TypeScriptMappings, structs map[string]*Struct, open string, sep string, tab string, ind int, line string) string {
	if n <= 0 {
		return ""
	}
	return tsUnionDone(fields, n-1, mappings, structs, open, sep, tab, ind, line) + tsDone(fields[n-1].Value, mappings, structs, "", tab, ind, tsUnion(fields, n-1, mappings, structs, open, sep, line)+gs.Ite(n > 1, sep, "")+open)
}

// tsMaybe: one of the first n members may be left out.
//
//@ spec
func tsMaybe(fields []*Field, n int) bool {
	return n > 0 && (tsMaybe(fields, n-1) || fields[n-1].Value.IsPtr)
}

// tsParents is the line of an interface behind its first n inlined fields.
//
//@ spec
func tsParents(fields []*Field, n int, mappings config.TypeScriptMappings, structs map[string]*Struct, line string) string {
	if n <= 0 {
		return line
	}
	return tsLine(fields[n-1].Value, mappings, structs, "", true, tsParents(fields, n-1, mappings, structs, line)+gs.Ite(n > 1, ", ", "")+gs.Ite(fields[n-1].Value.IsPtr, "Partial<", "")) + gs.Ite(fields[n-1].Value.IsPtr, ">", "") + " "
}

//@ spec
func tsParentsDone(fields []*Field, n int, mappings config.TypeScriptMappings, structs map[string]*Struct, tab string, ind int, line string) string {
	if n <= 0 {
		return ""
	}
	return tsParentsDone(fields, n-1, mappings, structs, tab, ind, line) + tsDone(fields[n-1].Value, mappings, structs, "", tab, ind, tsParents(fields, n-1, mappings, structs, line)+gs.Ite(n > 1, ", ", "")+gs.Ite(fields[n-1].Value.IsPtr, "Partial<", ""))
}

// tsUnionOfTypes: the first member of the union is a type, not a constant.
//
//@ spec
func tsUnionOfTypes(str *Struct, structs map[string]*Struct) bool {
	v := str.UnionFields[0].Value
	return v.StructType != nil || v.Scalar != nil && structs[v.Scalar.Package+"."+v.Scalar.Name] != nil
}

// tsDeclared is the declaration of a type.
//
//@ spec
func tsDeclared(str *Struct, mappings config.TypeScriptMappings, structs map[string]*Struct, tab string, ind int) string {
	m := strings.Repeat(tab, ind)
	is := "export type " + str.Name + " = "
	switch {
	case str.Array != nil:
		return tsArrayDone(str.Array, mappings, structs, tab, ind, is) + m + tsArrayLine(str.Array, mappings, structs, is) + "\n"
	case str.Map != nil:
		return gs.Ite(str.Map.Key != nil, tsDone(str.Map.Key, mappings, structs, "", tab, ind, is+"Record<"), "") +
			tsDone(str.Map.Value, mappings, structs, "", tab, ind, tsRecord(str.Map, mappings, structs, is)) +
			m + tsLine(str.Map.Value, mappings, structs, "", false, tsRecord(str.Map, mappings, structs, is)) + ">\n"
	case len(str.UnionFields) > 0 && tsUnionOfTypes(str, structs):
		return tsUnionDone(str.UnionFields, len(str.UnionFields), mappings, structs, "", " | ", tab, ind, is) +
			m + tsUnion(str.UnionFields, len(str.UnionFields), mappings, structs, "", " | ", is) + gs.Ite(tsMaybe(str.UnionFields, len(str.UnionFields)), " | undefined", "") + "\n"
	case len(str.UnionFields) > 0:
		all := "export const " + str.Name + " = { "
		return tsUnionDone(str.UnionFields, len(str.UnionFields), mappings, structs, "...", ", ", tab, ind, all) +
			m + tsUnion(str.UnionFields, len(str.UnionFields), mappings, structs, "...", ", ", all) + " }\n" +
			m + is + "typeof " + str.Name + "\n"
	case len(str.InlineFields) > 0:
		ext := "export interface " + str.Name + " extends "
		return tsParentsDone(str.InlineFields, len(str.InlineFields), mappings, structs, tab, ind, ext) +
			m + tsParents(str.InlineFields, len(str.InlineFields), mappings, structs, ext) + "{\n" +
			tsMembers(str.Fields, len(str.Fields), mappings, structs, tab, ind+1) + m + "}\n"
	}
	return m + "export interface " + str.Name + " {\n" + tsMembers(str.Fields, len(str.Fields), mappings, structs, tab, ind+1) + m + "}\n"
}

//@ contract renderTypescriptStruct
func ctRenderTypescriptStruct(str *Struct, mappings config.TypeScriptMappings, scalars map[string]*Scalar, structs map[string]*Struct, ts *code, err error) {
	gs.Property("C17", "C18")
	gs.Requires(ts != nil, ts.indent >= 0, ts.line == "")
	bad := str.Array == nil && str.Map == nil && len(str.UnionFields) > 0 &&
		(len(str.Fields) > 0 || len(str.InlineFields) > 0 || !tsUnionOfTypes(str, structs) && str.UnionFields[0].Value.Scalar == nil)
	gs.Ensures("fails exactly when a union has other fields or no known member", gs.Iff(err != nil, gs.Old(bad)))
	gs.Ensures("exactly the declaration of the type", gs.Implies(err == nil, ts.line == "" && gs.Lines(ts.lines) == gs.Old(gs.Lines(ts.lines)+strings.Repeat(ts.tab, ts.indent)+"// "+str.Package+"."+str.Name+"\n"+tsDeclared(str, mappings, structs, ts.tab, ts.indent))))
	gs.Invariant("the union so far", func(i int) bool {
		return gs.Implies(len(str.UnionFields) > 0 && tsUnionOfTypes(str, structs), ts.line == tsUnion(str.UnionFields, i, mappings, structs, "", " | ", "export type "+str.Name+" = "))
	})
	gs.Invariant("the constants so far", func(i int) bool {
		return gs.Implies(len(str.UnionFields) > 0 && !tsUnionOfTypes(str, structs), ts.line == tsUnion(str.UnionFields, i, mappings, structs, "...", ", ", "export const "+str.Name+" = { "))
	})
	gs.Invariant("the parents so far", func(i int) bool {
		return gs.Implies(len(str.UnionFields) == 0, ts.line == tsParents(str.InlineFields, i, mappings, structs, "export interface "+str.Name+" extends "))
	})
	gs.Invariant("the lines of the union so far", func(i int) bool {
		return gs.Implies(len(str.UnionFields) > 0 && tsUnionOfTypes(str, structs), gs.Lines(ts.lines) == gs.Old(gs.Lines(ts.lines)+strings.Repeat(ts.tab, ts.indent)+"// "+str.Package+"."+str.Name+"\n")+tsUnionDone(str.UnionFields, i, mappings, structs, "", " | ", ts.tab, ts.indent, "export type "+str.Name+" = "))
	})
	gs.Invariant("the lines of the constants so far", func(i int) bool {
		return gs.Implies(len(str.UnionFields) > 0 && !tsUnionOfTypes(str, structs), gs.Lines(ts.lines) == gs.Old(gs.Lines(ts.lines)+strings.Repeat(ts.tab, ts.indent)+"// "+str.Package+"."+str.Name+"\n")+tsUnionDone(str.UnionFields, i, mappings, structs, "...", ", ", ts.tab, ts.indent, "export const "+str.Name+" = { "))
	})
	gs.Invariant("the lines of the parents so far", func(i int) bool {
		return gs.Implies(len(str.UnionFields) == 0, gs.Lines(ts.lines) == gs.Old(gs.Lines(ts.lines)+strings.Repeat(ts.tab, ts.indent)+"// "+str.Package+"."+str.Name+"\n")+tsParentsDone(str.InlineFields, i, mappings, structs, ts.tab, ts.indent, "export interface "+str.Name+" extends "))
	})
	gs.Invariant("a member may be missing", func(i int, u bool) bool { return gs.Implies(len(str.UnionFields) > 0 && tsUnionOfTypes(str, structs), u == tsMaybe(str.UnionFields, i)) })
	gs.Invariant("the lines are the builder's own", func() bool { return gs.Fresh(ts.lines) || gs.SameArray(ts.lines, gs.Old(ts.lines)) })
	gs.Invariant("the indentation stays", func() bool { return ts.indent == gs.Old(ts.indent) && ts.tab == gs.Old(ts.tab) })
	gs.Assigns(ts, ts.lines)
}
