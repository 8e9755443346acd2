From e1c5606f414a294b9b5e4a0b268a6e8b46362ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:21 +0000
Subject: [PATCH 01/22] fix: decode millisecond times outside 1678-2262 without
 int64 overflow

---
 timeext.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeext.go b/timeext.go
index 7326ae5..5b10679 100644
--- a/timeext.go
+++ b/timeext.go
@@ -15,5 +15,5 @@ func (x *TimeExt) ConvertExt(v interface{}) interface{} {
 func (x *TimeExt) UpdateExt(dest interface{}, src interface{}) {
 	tt := dest.(*time.Time) //nolint:forcetypeassert
 
-	*tt = time.Unix(0, src.(int64)*int64(time.Millisecond)).Local() //nolint:forcetypeassert
+	*tt = time.UnixMilli(src.(int64)).Local() //nolint:forcetypeassert
 }
-- 
2.43.0


From 944d9423d2ae88e7ae81fcefcc5da41a22416df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:56 +0000
Subject: [PATCH 02/22] fix: transport errors wrapped in several call-stack
 layers without duplicating text or losing identity

---
 error.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/error.go b/error.go
index 3e7b33a..c15cf71 100644
--- a/error.go
+++ b/error.go
@@ -20,18 +20,25 @@ type Error struct {
 
 // NewError returns a new instance
 func NewError(err error) *Error {
+	// skip *withStack error types
+	for {
+		if _, ok := err.(interface {
+			StackTrace() errors.StackTrace
+		}); !ok {
+			break
+		}
+		cause := errors.Unwrap(err)
+		if cause == nil {
+			break
+		}
+		err = cause
+	}
+
 	// check if already transformed
 	if v, ok := err.(*Error); ok { //nolint:errorlint
 		return v
 	}
 
-	// skip *withStack error type
-	if _, ok := err.(interface {
-		StackTrace() errors.StackTrace
-	}); ok && errors.Unwrap(err) != nil {
-		err = errors.Unwrap(err)
-	}
-
 	// retrieve error details
 	errType := reflect.TypeOf(err)
 	errElem := errType
-- 
2.43.0


From f84ee5f50c4814fa05c67a32a73348fa5d1b03f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:35 +0000
Subject: [PATCH 03/22] fix: (*Error).As compares the package of the target
 type, not only its short name

---
 error.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/error.go b/error.go
index c15cf71..9a6711d 100644
--- a/error.go
+++ b/error.go
@@ -67,7 +67,12 @@ func (e *Error) As(err interface{}) bool {
 	if e == nil || err == nil {
 		return false
 	}
-	if reflect.TypeOf(err).Elem().String() == e.Type {
+	errType := reflect.TypeOf(err).Elem()
+	errElem := errType
+	if errType.Kind() == reflect.Ptr {
+		errElem = errType.Elem()
+	}
+	if errType.String() == e.Type && errElem.PkgPath() == e.Pkg {
 		if decodeErr := mapstructure.Decode(e.Data, &err); decodeErr != nil {
 			fmt.Printf("ERROR: failed to decode error data\n%+v", decodeErr)
 			return false
-- 
2.43.0


From c64296fff4b2b2e934f87b482554b787a4f47758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:35 +0000
Subject: [PATCH 04/22] fix: (*Error).Is matches sentinel errors that wrap
 another error

---
 error.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/error.go b/error.go
index 9a6711d..a9b5259 100644
--- a/error.go
+++ b/error.go
@@ -127,7 +127,7 @@ func (e *Error) Is(err error) bool {
 		errElem = errType.Elem()
 	}
 
-	if e.Msg == err.Error() &&
+	if (e.Msg == err.Error() || e.Error() == err.Error()) &&
 		errType.String() == e.Type &&
 		errElem.PkgPath() == e.Pkg {
 		return true
-- 
2.43.0


From a45d730a5f9b7df6e23914beea16c6ea424e903f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:53 +0000
Subject: [PATCH 05/22] fix: record the service's own error in the call stats
 and leave the monitored return values alone for msgpack calls

---
 gotsrpc.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gotsrpc.go b/gotsrpc.go
index 01345a7..d10ef6c 100644
--- a/gotsrpc.go
+++ b/gotsrpc.go
@@ -95,15 +95,18 @@ func Reply(response []interface{}, stats *CallStats, r *http.Request, w http.Res
 
 	w.Header().Set("Content-Type", clientHandle.contentType)
 
+	encodedResponse := response
 	if clientHandle.beforeEncodeReply != nil {
-		if err := clientHandle.beforeEncodeReply(&response); err != nil {
+		// work on a copy: the call stats and the monitor need the original errors
+		encodedResponse = append(response[:0:0], response...)
+		if err := clientHandle.beforeEncodeReply(&encodedResponse); err != nil {
 			_, _ = fmt.Fprintln(os.Stderr, err.Error())
 			return errors.Wrap(err, "error during before encoder reply")
 		}
 	}
 
 	buf := new(bytes.Buffer)
-	if err := codec.NewEncoder(buf, clientHandle.handle).Encode(response); err != nil {
+	if err := codec.NewEncoder(buf, clientHandle.handle).Encode(encodedResponse); err != nil {
 		_, _ = fmt.Fprintln(os.Stderr, err.Error())
 		return errors.Wrap(err, "could not encode data to accepted format")
 	}
-- 
2.43.0


From b20646bdf89f3cfd9cbf40267c370bbc7c38d96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:53 +0000
Subject: [PATCH 06/22] fix: fill in the body of an HTTPError

---
 httperror.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/httperror.go b/httperror.go
index b5b059a..c3ce8ab 100644
--- a/httperror.go
+++ b/httperror.go
@@ -15,6 +15,7 @@ func NewHTTPError(msg string, code int) *HTTPError {
 	return &HTTPError{
 		error:      errors.New(msg),
 		StatusCode: code,
+		Body:       msg,
 	}
 }
 
-- 
2.43.0


From ecc18e8324a27e64bf913610d7b7d4f7c5a4e098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:48 +0000
Subject: [PATCH 07/22] fix: a package whose name only starts with the module's
 name is not inside the module

---
 build.go   | 2 +-
 gotsrpc.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/build.go b/build.go
index efcf0f7..cbbe4ea 100644
--- a/build.go
+++ b/build.go
@@ -55,7 +55,7 @@ func commonJSImports(conf *config.Config, c *code, tsFilename string, code strin
 }
 
 func getPathForTarget(gomod config.Namespace, goPath string, target *config.Target) (outputPath string) {
-	if gomod.Name != "" && strings.HasPrefix(target.Package, gomod.Name) {
+	if gomod.Name != "" && (target.Package == gomod.Name || strings.HasPrefix(target.Package, gomod.Name+"/")) {
 		relative := strings.TrimPrefix(target.Package, gomod.Name)
 		return path.Join(gomod.Path, relative)
 	} else {
diff --git a/gotsrpc.go b/gotsrpc.go
index d10ef6c..a384b95 100644
--- a/gotsrpc.go
+++ b/gotsrpc.go
@@ -144,7 +144,7 @@ func parserExcludeFiles(info os.FileInfo) bool {
 }
 
 func parseDir(goPaths []string, gomod config.Namespace, packageName string) (map[string]*ast.Package, *token.FileSet, error) {
-	if gomod.Name != "" && strings.HasPrefix(packageName, gomod.Name) {
+	if gomod.Name != "" && (packageName == gomod.Name || strings.HasPrefix(packageName, gomod.Name+"/")) {
 		fset := token.NewFileSet()
 		dir := strings.Replace(packageName, gomod.Name, gomod.Path, 1)
 		pkgs, err := parser.ParseDir(fset, dir, parserExcludeFiles, parser.DeclarationErrors|parser.AllErrors)
-- 
2.43.0


From c911ec61c944f5385fb7d20688f58fe1be6cd05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:03 +0000
Subject: [PATCH 08/22] fix: a module replaced by an absolute directory is read
 from there

---
 gotsrpc.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gotsrpc.go b/gotsrpc.go
index a384b95..438f665 100644
--- a/gotsrpc.go
+++ b/gotsrpc.go
@@ -160,7 +160,11 @@ func parseDir(goPaths []string, gomod config.Namespace, packageName string) (map
 				if packageName == rep.Old.Path || strings.HasPrefix(packageName, rep.Old.Path+"/") {
 					if strings.HasPrefix(rep.New.String(), ".") || strings.HasPrefix(rep.New.Path, "/") {
 						trace("replacing package with local dir", packageName, rep.Old.String(), rep.New.String())
-						dir = strings.Replace(packageName, rep.Old.Path, filepath.Join(gomod.Path, rep.New.Path), 1)
+						newDir := rep.New.Path
+						if !filepath.IsAbs(newDir) {
+							newDir = filepath.Join(gomod.Path, newDir)
+						}
+						dir = strings.Replace(packageName, rep.Old.Path, newDir, 1)
 					} else {
 						trace("replacing package", packageName, rep.Old.String(), rep.New.String())
 						dir = strings.TrimSuffix(path.Join(goPath, "pkg", "mod", rep.New.String(), strings.TrimPrefix(packageName, rep.Old.Path)), "/")
-- 
2.43.0


From a3ddd83d9f6b2f4402f5e4de34a5579855f2a39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:07 +0000
Subject: [PATCH 09/22] fix: distinct imported packages get distinct aliases

---
 go.go | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/go.go b/go.go
index c5949fd..6d5ed61 100644
--- a/go.go
+++ b/go.go
@@ -73,21 +73,25 @@ func extractImport(packageName string, fullPackageName string, aliases map[strin
 	r := strings.NewReplacer(".", "_", "/", "_", "-", "_")
 	if packageName != fullPackageName {
 		if _, ok := aliases[packageName]; !ok {
-			packageParts := strings.Split(packageName, "/")
-			beautifulAlias := packageParts[len(packageParts)-1]
-			uglyAlias := r.Replace(packageName)
-			alias := uglyAlias // beautifulAlias
-			for _, otherAlias := range aliases {
-				if otherAlias == beautifulAlias {
-					alias = uglyAlias
-					break
-				}
+			alias := r.Replace(packageName)
+			// different packages may be replaced by the same name
+			for isAlias(alias, aliases) {
+				alias += "_"
 			}
 			aliases[packageName] = alias
 		}
 	}
 }
 
+func isAlias(name string, aliases map[string]string) bool {
+	for _, alias := range aliases {
+		if alias == name {
+			return true
+		}
+	}
+	return false
+}
+
 func extractImports(fields []*Field, fullPackageName string, aliases map[string]string) {
 	for _, f := range fields {
 		extractImportValue(f.Value, fullPackageName, aliases)
-- 
2.43.0


From 7b8f83da7cc385a3ac3adcad3208d335e7c6e131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:48 +0000
Subject: [PATCH 10/22] fix: only exported methods are exposed

---
 servicereader.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/servicereader.go b/servicereader.go
index 0349c07..b14df98 100644
--- a/servicereader.go
+++ b/servicereader.go
@@ -37,8 +37,7 @@ func readServiceFile(file *ast.File, packageName string, services ServiceList) e
 					if starExpr, ok := firstReceiverField.Type.(*ast.StarExpr); ok {
 						if ident, ok := starExpr.X.(*ast.Ident); ok {
 							service, ok := findService(ident.Name)
-							firstCharOfMethodName := funcDecl.Name.Name[0:1]
-							if !ok || strings.ToLower(firstCharOfMethodName) == firstCharOfMethodName {
+							if !ok || !funcDecl.Name.IsExported() {
 								// skip this method
 								continue
 							}
@@ -73,6 +72,9 @@ func readServiceFile(file *ast.File, packageName string, services ServiceList) e
 										continue
 									}
 									mname := fieldDecl.Names[0]
+									if !mname.IsExported() {
+										continue
+									}
 									trace(" on sth:", mname.Name)
 									// fmt.Println("interface:", ident.Name, "method:", mname.Name)
 									service.Methods = append(service.Methods, &Method{
-- 
2.43.0


From 8fe319aadc5d66c9fad2f5f5fa71294c7a0dcbc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:23 +0000
Subject: [PATCH 11/22] fix: unexported fields are not rendered, whatever
 letter they start with

---
 typereader.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/typereader.go b/typereader.go
index 04c34a4..ee9a49f 100644
--- a/typereader.go
+++ b/typereader.go
@@ -344,8 +344,7 @@ func readFieldList(fieldList []*ast.Field, fileImports fileImportSpecMap) (field
 						})
 						continue
 					}
-				} else if strings.Compare(strings.ToLower(name[:1]), name[:1]) == 0 {
-					// this is not unicode proof
+				} else if !ast.IsExported(name) {
 					continue
 				} else if jsonInfo != nil && jsonInfo.Union {
 					unionFields = append(unionFields, &Field{
-- 
2.43.0


From c41aead56643fc15f5d7f21edcc3fb2ec8174e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:19 +0000
Subject: [PATCH 12/22] fix: named scalars are recognised whatever letter their
 name starts with

---
 typereader.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/typereader.go b/typereader.go
index ee9a49f..99726de 100644
--- a/typereader.go
+++ b/typereader.go
@@ -3,6 +3,7 @@ package gotsrpc
 import (
 	"fmt"
 	"go/ast"
+	"go/types"
 	"os"
 	"reflect"
 	"strings"
@@ -165,7 +166,8 @@ func readAstType(v *Value, fieldIdent *ast.Ident, fileImports fileImportSpecMap,
 			Name:    structType,
 			Package: fileImports.getPackagePath(packageName),
 		}
-	} else if fieldIdent.Name[:1] == strings.ToUpper(fieldIdent.Name[:1]) {
+	} else if types.Universe.Lookup(fieldIdent.Name) == nil {
+		// neither a struct nor predeclared: a named scalar
 		v.Scalar = &Scalar{
 			Package: fileImports.getPackagePath(packageName),
 			Name:    fieldIdent.Name,
-- 
2.43.0


From 8488783fc44dbcf6ee1e6a36db1a2fa201cbc8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:31 +0000
Subject: [PATCH 13/22] fix: named slices and maps of other packages are
 nullable in TypeScript

---
 typescript.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/typescript.go b/typescript.go
index affc3d4..68165d4 100644
--- a/typescript.go
+++ b/typescript.go
@@ -63,7 +63,10 @@ func (v *Value) tsType(mappings config.TypeScriptMappings, scalars map[string]*S
 				tsType = value
 			}
 			ts.app(tsType)
-			if v.IsPtr && (jsonInfo == nil || !jsonInfo.OmitEmpty) {
+			// a named type of another file or package may be a slice or a map
+			hiddenStruct, isHiddenStruct := structs[v.Scalar.FullName()]
+			isNil := isHiddenStruct && (hiddenStruct.Array != nil || hiddenStruct.Map != nil)
+			if (isNil || v.IsPtr) && (jsonInfo == nil || !jsonInfo.OmitEmpty) {
 				ts.app("|null")
 			}
 			return
-- 
2.43.0


From 5be4cdc98bfdaaffc4ad7fbcaf504a7098a855ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:45 +0000
Subject: [PATCH 14/22] fix: a json tag of "-," names a field, it does not
 ignore it

---
 typereader.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/typereader.go b/typereader.go
index 99726de..e1d9cae 100644
--- a/typereader.go
+++ b/typereader.go
@@ -85,7 +85,12 @@ func extractJSONInfo(tag string) *JSONInfo {
 		case "":
 			// do nothing
 		case "-":
-			ignore = true
+			// "-," is a field named "-"
+			if len(jsonTags) == 1 {
+				ignore = true
+			} else {
+				name = jsonTags[0]
+			}
 		default:
 			name = jsonTags[0]
 		}
-- 
2.43.0


From 96a7c4cabb826b9028d732a897b39acd7a499370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:57 +0000
Subject: [PATCH 15/22] fix: quote member names that are no TypeScript
 identifiers

---
 typescript.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/typescript.go b/typescript.go
index 68165d4..759d285 100644
--- a/typescript.go
+++ b/typescript.go
@@ -4,7 +4,9 @@ import (
 	"errors"
 	"go/ast"
 	"sort"
+	"strconv"
 	"strings"
+	"unicode"
 
 	"github.com/iancoleman/strcase"
 
@@ -117,6 +119,16 @@ func tsTypeFromScalarType(scalarType ScalarType) string {
 	return string(scalarType)
 }
 
+// tsMember quotes a member's name where TypeScript needs it
+func tsMember(name string) string {
+	for i, char := range name {
+		if char != '_' && char != '$' && !unicode.IsLetter(char) && (i == 0 || !unicode.IsDigit(char)) {
+			return strconv.Quote(name)
+		}
+	}
+	return name
+}
+
 func renderStructFields(fields []*Field, mappings config.TypeScriptMappings, scalars map[string]*Scalar, structs map[string]*Struct, ts *code) {
 	for _, f := range fields {
 		if len(f.Name) == 0 {
@@ -124,7 +136,7 @@ func renderStructFields(fields []*Field, mappings config.TypeScriptMappings, sca
 		} else if f.JSONInfo != nil && f.JSONInfo.Ignore {
 			continue
 		}
-		ts.app(f.tsName())
+		ts.app(tsMember(f.tsName()))
 		if f.JSONInfo != nil && f.JSONInfo.OmitEmpty {
 			ts.app("?")
 		}
-- 
2.43.0


From 48eebfcd5746c02b9e06af5d5851da3e704f714b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:09 +0000
Subject: [PATCH 16/22] fix: collect the types anonymous structs refer to

---
 servicereader.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/servicereader.go b/servicereader.go
index b14df98..94c6ba1 100644
--- a/servicereader.go
+++ b/servicereader.go
@@ -561,6 +561,15 @@ func needsWorkValue(value *Value, needsWork func(fullName string) bool) bool {
 		if needsWorkValue(value.Map.Key, needsWork) || needsWorkValue(value.Map.Value, needsWork) {
 			return true
 		}
+	case value.Struct != nil:
+		// anonymous struct
+		for _, fields := range [][]*Field{value.Struct.Fields, value.Struct.InlineFields, value.Struct.UnionFields} {
+			for _, field := range fields {
+				if needsWorkValue(field.Value, needsWork) {
+					return true
+				}
+			}
+		}
 	}
 	return false
 }
-- 
2.43.0


From 545f09529018be4b6987261afeb801f55d59f3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:11 +0000
Subject: [PATCH 17/22] fix: bytes, runes and errors render to the TypeScript
 type of their JSON value

---
 typereader.go |  6 +++---
 typescript.go | 28 +++++++++++++++++-----------
 2 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/typereader.go b/typereader.go
index e1d9cae..19515f8 100644
--- a/typereader.go
+++ b/typereader.go
@@ -134,11 +134,11 @@ func getScalarFromAstIdent(ident *ast.Ident) ScalarType {
 		return ScalarTypeString
 	case "bool":
 		return ScalarTypeBool
-	case "byte":
+	case "byte", "uint8":
 		return ScalarTypeByte
-	case "float", "float32", "float64",
+	case "float", "float32", "float64", "rune", "uintptr",
 		"int", "int8", "int16", "int32", "int64",
-		"uint", "uint8", "uint16", "uint32", "uint64":
+		"uint", "uint16", "uint32", "uint64":
 		return ScalarTypeNumber
 	default:
 		if ident.Obj != nil && ident.Obj.Decl != nil && reflect.ValueOf(ident.Obj.Decl).Type().String() == "*ast.TypeSpec" {
diff --git a/typescript.go b/typescript.go
index 759d285..85ec979 100644
--- a/typescript.go
+++ b/typescript.go
@@ -43,13 +43,7 @@ func (v *Value) tsType(mappings config.TypeScriptMappings, scalars map[string]*S
 			ts.app("|null")
 		}
 	case v.Array != nil:
-		if v.Array.Value.ScalarType != ScalarTypeByte {
-			ts.app("Array<")
-		}
-		v.Array.Value.tsType(mappings, scalars, structs, ts, nil)
-		if v.Array.Value.ScalarType != ScalarTypeByte {
-			ts.app(">")
-		}
+		v.Array.tsType(mappings, scalars, structs, ts)
 		if jsonInfo == nil || !jsonInfo.OmitEmpty {
 			ts.app("|null")
 		}
@@ -109,12 +103,25 @@ func (v *Value) tsType(mappings config.TypeScriptMappings, scalars map[string]*S
 	}
 }
 
+func (a *Array) tsType(mappings config.TypeScriptMappings, scalars map[string]*Scalar, structs map[string]*Struct, ts *code) {
+	if a.Value.ScalarType == ScalarTypeByte && !a.Value.IsPtr {
+		// bytes are sent as a base64 string
+		ts.app("string")
+		return
+	}
+	ts.app("Array<")
+	a.Value.tsType(mappings, scalars, structs, ts, nil)
+	ts.app(">")
+}
+
 func tsTypeFromScalarType(scalarType ScalarType) string {
 	switch scalarType { //nolint:exhaustive
 	case ScalarTypeByte:
-		return "string"
+		return "number"
 	case ScalarTypeBool:
 		return "boolean"
+	case "error":
+		return "any"
 	}
 	return string(scalarType)
 }
@@ -151,9 +158,8 @@ func renderTypescriptStruct(str *Struct, mappings config.TypeScriptMappings, sca
 	ts.l("// " + str.FullName())
 	switch {
 	case str.Array != nil:
-		ts.app("export type " + str.Name + " = Array<")
-		str.Array.Value.tsType(mappings, scalars, structs, ts, nil)
-		ts.app(">")
+		ts.app("export type " + str.Name + " = ")
+		str.Array.tsType(mappings, scalars, structs, ts)
 		ts.nl()
 	case str.Map != nil:
 		ts.app("export type " + str.Name + " = Record<")
-- 
2.43.0


From 51f34612b4b6247c89fb6bf1bc60f11dff64f3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:41 +0000
Subject: [PATCH 18/22] fix: pointers to slices, maps and interfaces are
 understood

---
 typereader.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/typereader.go b/typereader.go
index 19515f8..4acd16f 100644
--- a/typereader.go
+++ b/typereader.go
@@ -196,6 +196,8 @@ func readAstStarExpr(v *Value, starExpr *ast.StarExpr, fileImports fileImportSpe
 		readAstStructType(v, starExprType, fileImports)
 	case *ast.SelectorExpr:
 		readAstSelectorExpr(v, starExprType, fileImports)
+	case *ast.ArrayType, *ast.MapType, *ast.InterfaceType:
+		v.loadExpr(starExprType, fileImports)
 	default:
 		trace("a pointer on what", reflect.ValueOf(starExpr.X).Type().String())
 	}
-- 
2.43.0


From 65626d5cae55ad98ddcac00ace1e3fc7a2064935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:06 +0000
Subject: [PATCH 19/22] fix: arguments of a named interface type keep their
 name

---
 servicereader.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/servicereader.go b/servicereader.go
index 94c6ba1..5c7d83b 100644
--- a/servicereader.go
+++ b/servicereader.go
@@ -422,8 +422,13 @@ func fixFieldStructs(fields []*Field, structs map[string]*Struct, scalars map[st
 			}
 			scalar, scalarExists := scalars[name]
 			if scalarExists {
+				f.Value.Scalar = &Scalar{
+					Name:    f.Value.StructType.Name,
+					Package: f.Value.StructType.Package,
+					Type:    scalar.Type,
+				}
+				f.Value.ScalarType = ScalarType(f.Value.StructType.Name)
 				f.Value.StructType = nil
-				f.Value.Scalar = scalar
 			}
 		}
 	}
-- 
2.43.0


From 09aa6303e669783b1feb06a9eb88450faf4e1087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:24 +0000
Subject: [PATCH 20/22] fix: render all constants of a group and every kind of
 named number

---
 servicereader.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/servicereader.go b/servicereader.go
index 5c7d83b..5ee4320 100644
--- a/servicereader.go
+++ b/servicereader.go
@@ -211,13 +211,11 @@ func loadConstantTypes(pkg *ast.Package) map[string]interface{} {
 								constantTypes[spec.Name.Name] = "any"
 							case *ast.Ident:
 								switch specType.Name {
-								case "byte":
-									constantTypes[spec.Name.Name] = "any"
 								case "string":
 									constantTypes[spec.Name.Name] = "string"
 								case "bool":
 									constantTypes[spec.Name.Name] = "boolean"
-								case "float", "float32", "float64",
+								case "float", "float32", "float64", "byte", "rune", "uintptr",
 									"int", "int8", "int16", "int32", "int64",
 									"uint", "uint8", "uint16", "uint32", "uint64":
 									constantTypes[spec.Name.Name] = "number"
@@ -234,14 +232,14 @@ func loadConstantTypes(pkg *ast.Package) map[string]interface{} {
 					for _, spec := range genDecl.Specs {
 						if spec, ok := spec.(*ast.ValueSpec); ok {
 							if specType, ok := spec.Type.(*ast.Ident); ok {
-								for _, val := range spec.Values {
+								for i, val := range spec.Values {
 									if valType, ok := val.(*ast.BasicLit); ok {
 										if _, ok := constantTypes[specType.Name]; !ok {
 											constantTypes[specType.Name] = map[string]*ast.BasicLit{}
 										} else if _, ok := constantTypes[specType.Name].(map[string]*ast.BasicLit); !ok {
 											constantTypes[specType.Name] = map[string]*ast.BasicLit{}
 										}
-										constantTypes[specType.Name].(map[string]*ast.BasicLit)[spec.Names[0].Name] = valType //nolint:forcetypeassert
+										constantTypes[specType.Name].(map[string]*ast.BasicLit)[spec.Names[i].Name] = valType //nolint:forcetypeassert
 									}
 								}
 							}
-- 
2.43.0


From 24947b4e6a81b549f109759c46ca6a2889794a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:45 +0000
Subject: [PATCH 21/22] fix: an embedded field with a json name is a member of
 that name

---
 typescript.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typescript.go b/typescript.go
index 85ec979..8b5f055 100644
--- a/typescript.go
+++ b/typescript.go
@@ -138,7 +138,7 @@ func tsMember(name string) string {
 
 func renderStructFields(fields []*Field, mappings config.TypeScriptMappings, scalars map[string]*Scalar, structs map[string]*Struct, ts *code) {
 	for _, f := range fields {
-		if len(f.Name) == 0 {
+		if len(f.tsName()) == 0 {
 			continue
 		} else if f.JSONInfo != nil && f.JSONInfo.Ignore {
 			continue
-- 
2.43.0


From 8b5e50e329d5aa4685ca5a2094a31abe2dcb8322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:13 +0000
Subject: [PATCH 22/22] fix: a union of structs of another file or package
 renders as a union type

---
 typescript.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/typescript.go b/typescript.go
index 8b5f055..3f80544 100644
--- a/typescript.go
+++ b/typescript.go
@@ -178,7 +178,8 @@ func renderTypescriptStruct(str *Struct, mappings config.TypeScriptMappings, sca
 			return errors.New("no fields or inline fields are supported when using union")
 		}
 		switch {
-		case str.UnionFields[0].Value.StructType != nil:
+		case str.UnionFields[0].Value.StructType != nil,
+			str.UnionFields[0].Value.Scalar != nil && structs[str.UnionFields[0].Value.Scalar.FullName()] != nil:
 			ts.app("export type " + str.Name + " = ")
 			var isUndefined bool
 			for i, unionField := range str.UnionFields {
-- 
2.43.0

