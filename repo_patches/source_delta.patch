From 53ca6dcd641a10f908aa792c778c33cc4b71e0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:28 +0000
Subject: [PATCH 01/78] fix: time json ext overflowed for instants outside
 1678..2262

---
 timeext.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeext.go b/timeext.go
index 7326ae5..5b10679 100644
--- a/timeext.go
+++ b/timeext.go
@@ -15,5 +15,5 @@ func (x *TimeExt) ConvertExt(v interface{}) interface{} {
 func (x *TimeExt) UpdateExt(dest interface{}, src interface{}) {
 	tt := dest.(*time.Time) //nolint:forcetypeassert
 
-	*tt = time.Unix(0, src.(int64)*int64(time.Millisecond)).Local() //nolint:forcetypeassert
+	*tt = time.UnixMilli(src.(int64)).Local() //nolint:forcetypeassert
 }
-- 
2.43.0


From 639f89d1a5346349b72f3bfe63dc685626e86c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:28 +0000
Subject: [PATCH 02/78] fix: HTTPError.Body was never set

---
 httperror.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/httperror.go b/httperror.go
index b5b059a..c3ce8ab 100644
--- a/httperror.go
+++ b/httperror.go
@@ -15,6 +15,7 @@ func NewHTTPError(msg string, code int) *HTTPError {
 	return &HTTPError{
 		error:      errors.New(msg),
 		StatusCode: code,
+		Body:       msg,
 	}
 }
 
-- 
2.43.0


From 51f39a1bbc3c1ffdd9a6ffa343ed631e69d9be4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:28 +0000
Subject: [PATCH 03/78] fix: zero valued non pointer errors lost their message
 on msgpack

---
 transport.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/transport.go b/transport.go
index 8ea7d95..8ed4d22 100644
--- a/transport.go
+++ b/transport.go
@@ -33,7 +33,8 @@ var msgpackClientHandle = &clientHandle{
 	beforeEncodeReply: func(resp *[]interface{}) error {
 		for k, v := range *resp {
 			if e, ok := v.(error); ok {
-				if r := reflect.ValueOf(e); !r.IsZero() {
+				// a typed nil pointer is no error, while the zero value of any other type is one
+				if r := reflect.ValueOf(e); r.Kind() != reflect.Ptr || !r.IsNil() {
 					(*resp)[k] = NewError(e)
 				}
 			}
-- 
2.43.0


From d2788a4e2fb67ad700d6f0d102dd67c9892131fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:00 +0000
Subject: [PATCH 04/78] fix: stats and monitor saw the transport error instead
 of the service's on msgpack

---
 gotsrpc.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gotsrpc.go b/gotsrpc.go
index 01345a7..1d7fa81 100644
--- a/gotsrpc.go
+++ b/gotsrpc.go
@@ -95,15 +95,17 @@ func Reply(response []interface{}, stats *CallStats, r *http.Request, w http.Res
 
 	w.Header().Set("Content-Type", clientHandle.contentType)
 
+	// encode a copy: stats and monitor get to see what the service returned
+	encoded := append([]interface{}{}, response...)
 	if clientHandle.beforeEncodeReply != nil {
-		if err := clientHandle.beforeEncodeReply(&response); err != nil {
+		if err := clientHandle.beforeEncodeReply(&encoded); err != nil {
 			_, _ = fmt.Fprintln(os.Stderr, err.Error())
 			return errors.Wrap(err, "error during before encoder reply")
 		}
 	}
 
 	buf := new(bytes.Buffer)
-	if err := codec.NewEncoder(buf, clientHandle.handle).Encode(response); err != nil {
+	if err := codec.NewEncoder(buf, clientHandle.handle).Encode(encoded); err != nil {
 		_, _ = fmt.Fprintln(os.Stderr, err.Error())
 		return errors.Wrap(err, "could not encode data to accepted format")
 	}
-- 
2.43.0


From dbd40d8293c9a10e1e249b72bb258539bd7103d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:45 +0000
Subject: [PATCH 05/78] fix: time.Time arguments and results were not encoded
 with the time json ext

---
 client.go    |  3 +++
 transport.go | 29 +++++++++++++++++++++++++++--
 2 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/client.go b/client.go
index 67ee8bf..86f51a7 100644
--- a/client.go
+++ b/client.go
@@ -82,6 +82,9 @@ func (c *bufferedClient) Call(ctx context.Context, url string, endpoint string,
 
 	// If no arguments are set, remove
 	if len(args) > 0 {
+		if c.handle.beforeEncodeArgs != nil {
+			args = c.handle.beforeEncodeArgs(args)
+		}
 		if err := codec.NewEncoder(b, c.handle.handle).Encode(args); err != nil {
 			return NewClientError(errors.Wrap(err, "failed to encode arguments"))
 		}
diff --git a/transport.go b/transport.go
index 8ed4d22..614641f 100644
--- a/transport.go
+++ b/transport.go
@@ -21,6 +21,7 @@ var errorType = reflect.TypeOf((*error)(nil)).Elem()
 type clientHandle struct {
 	handle            codec.Handle
 	contentType       string
+	beforeEncodeArgs  func([]interface{}) []interface{}
 	beforeEncodeReply func(*[]interface{}) error
 	beforeDecodeReply func([]interface{}) ([]interface{}, error)
 	afterDecodeReply  func(*[]interface{}, []interface{}) error
@@ -93,8 +94,32 @@ func init() {
 }
 
 var jsonClientHandle = &clientHandle{
-	handle:      &codec.JsonHandle{},
-	contentType: "application/json; charset=utf-8",
+	handle:           &codec.JsonHandle{},
+	contentType:      "application/json; charset=utf-8",
+	beforeEncodeArgs: withTimeExt,
+	beforeEncodeReply: func(resp *[]interface{}) error {
+		*resp = withTimeExt(*resp)
+		return nil
+	},
+}
+
+// withTimeExt lets the encoder apply the time extension to the given values: it
+// treats a bare time.Time or *time.Time in an interface as builtin regardless
+// of its handle, but not when there is a further pointer.
+func withTimeExt(values []interface{}) []interface{} {
+	ret := make([]interface{}, len(values))
+	for k, v := range values {
+		switch t := v.(type) {
+		case time.Time:
+			p := &t
+			ret[k] = &p
+		case *time.Time:
+			ret[k] = &t
+		default:
+			ret[k] = v
+		}
+	}
+	return ret
 }
 
 func NewMSGPackEncoderBytes(b *[]byte) *codec.Encoder {
-- 
2.43.0


From 19832472c8ec809545f17c542906360412fcdc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:02 +0000
Subject: [PATCH 06/78] fix: error data was lost when its json names differ
 from the field names

---
 error.go     | 11 ++++++++++-
 transport.go |  3 +--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/error.go b/error.go
index 3e7b33a..17ef607 100644
--- a/error.go
+++ b/error.go
@@ -61,7 +61,7 @@ func (e *Error) As(err interface{}) bool {
 		return false
 	}
 	if reflect.TypeOf(err).Elem().String() == e.Type {
-		if decodeErr := mapstructure.Decode(e.Data, &err); decodeErr != nil {
+		if decodeErr := decodeErrorData(e.Data, &err); decodeErr != nil {
 			fmt.Printf("ERROR: failed to decode error data\n%+v", decodeErr)
 			return false
 		} else {
@@ -71,6 +71,15 @@ func (e *Error) As(err interface{}) bool {
 	return false
 }
 
+// decodeErrorData decodes the data of a transported error, whose keys are the json names
+func decodeErrorData(data, result interface{}) error {
+	decoder, err := mapstructure.NewDecoder(&mapstructure.DecoderConfig{TagName: "json", Squash: true, Result: result})
+	if err != nil {
+		return err
+	}
+	return decoder.Decode(data)
+}
+
 // Cause interface
 func (e *Error) Cause() error {
 	if e.ErrCause != nil {
diff --git a/transport.go b/transport.go
index 614641f..f0121ca 100644
--- a/transport.go
+++ b/transport.go
@@ -4,7 +4,6 @@ import (
 	"reflect"
 	"time"
 
-	"github.com/mitchellh/mapstructure"
 	"github.com/pkg/errors"
 	"github.com/ugorji/go/codec"
 )
@@ -63,7 +62,7 @@ var msgpackClientHandle = &clientHandle{
 			if e, ok := v.(*Error); ok && e != nil {
 				if y, ok := (*reply)[k].(*error); ok {
 					*y = e
-				} else if err := mapstructure.Decode(e.Data, (*reply)[k]); err != nil {
+				} else if err := decodeErrorData(e.Data, (*reply)[k]); err != nil {
 					return errors.Wrap(err, "failed to decode wrapped error")
 				}
 			}
-- 
2.43.0


From 4ce5fcb54512a123767b15a0e0800afb7c7c830a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:03 +0000
Subject: [PATCH 07/78] fix: the message of a wrapping error that does not end
 with its cause's was garbled

---
 error.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/error.go b/error.go
index 17ef607..6db1cd4 100644
--- a/error.go
+++ b/error.go
@@ -16,6 +16,8 @@ type Error struct {
 	Type     string      `json:"t"`
 	Data     interface{} `json:"d,omitempty"`
 	ErrCause *Error      `json:"c,omitempty"`
+	// Verbatim tells that Msg already includes the cause's message
+	Verbatim bool `json:"v,omitempty"`
 }
 
 // NewError returns a new instance
@@ -49,7 +51,11 @@ func NewError(err error) *Error {
 	// unwrap error
 	if unwrappedErr := errors.Unwrap(err); unwrappedErr != nil {
 		inst.ErrCause = NewError(unwrappedErr)
-		inst.Msg = strings.TrimSuffix(inst.Msg, ": "+unwrappedErr.Error())
+		if suffix := ": " + unwrappedErr.Error(); strings.HasSuffix(inst.Msg, suffix) {
+			inst.Msg = strings.TrimSuffix(inst.Msg, suffix)
+		} else {
+			inst.Verbatim = true
+		}
 	}
 
 	return inst
@@ -136,7 +142,7 @@ func (e *Error) Is(err error) bool {
 // Error interface
 func (e *Error) Error() string {
 	msg := e.Msg
-	if e.ErrCause != nil {
+	if e.ErrCause != nil && !e.Verbatim {
 		msg += ": " + e.ErrCause.Error()
 	}
 	return msg
-- 
2.43.0


From 87cf53903895a464b6e48d6dff089d3955fc7c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:23 +0000
Subject: [PATCH 08/78] fix: packages sharing the module's name as a prefix
 were looked up inside the module

---
 build.go         | 2 +-
 config/config.go | 6 ++++++
 gotsrpc.go       | 2 +-
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/build.go b/build.go
index efcf0f7..6879e96 100644
--- a/build.go
+++ b/build.go
@@ -55,7 +55,7 @@ func commonJSImports(conf *config.Config, c *code, tsFilename string, code strin
 }
 
 func getPathForTarget(gomod config.Namespace, goPath string, target *config.Target) (outputPath string) {
-	if gomod.Name != "" && strings.HasPrefix(target.Package, gomod.Name) {
+	if gomod.Contains(target.Package) {
 		relative := strings.TrimPrefix(target.Package, gomod.Name)
 		return path.Join(gomod.Path, relative)
 	} else {
diff --git a/config/config.go b/config/config.go
index d84cec9..da9c0d9 100644
--- a/config/config.go
+++ b/config/config.go
@@ -5,6 +5,7 @@ import (
 	"os"
 	"path"
 	"path/filepath"
+	"strings"
 
 	"golang.org/x/mod/modfile"
 	"gopkg.in/yaml.v2"
@@ -57,6 +58,11 @@ type Namespace struct {
 	ModFile *modfile.File `yaml:"-"`
 }
 
+// Contains tells if the given package belongs to the module
+func (n Namespace) Contains(packageName string) bool {
+	return n.Name != "" && (packageName == n.Name || strings.HasPrefix(packageName, n.Name+"/"))
+}
+
 type Config struct {
 	Module   Namespace
 	Targets  map[string]*Target
diff --git a/gotsrpc.go b/gotsrpc.go
index 1d7fa81..4b97a3b 100644
--- a/gotsrpc.go
+++ b/gotsrpc.go
@@ -143,7 +143,7 @@ func parserExcludeFiles(info os.FileInfo) bool {
 }
 
 func parseDir(goPaths []string, gomod config.Namespace, packageName string) (map[string]*ast.Package, *token.FileSet, error) {
-	if gomod.Name != "" && strings.HasPrefix(packageName, gomod.Name) {
+	if gomod.Contains(packageName) {
 		fset := token.NewFileSet()
 		dir := strings.Replace(packageName, gomod.Name, gomod.Path, 1)
 		pkgs, err := parser.ParseDir(fset, dir, parserExcludeFiles, parser.DeclarationErrors|parser.AllErrors)
-- 
2.43.0


From d93b84756b83b5ca4b88009dce7555bcc09e6bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:44 +0000
Subject: [PATCH 09/78] fix: slice and map types of other packages were not
 nullable in typescript

---
 typescript.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/typescript.go b/typescript.go
index affc3d4..1302758 100644
--- a/typescript.go
+++ b/typescript.go
@@ -63,7 +63,9 @@ func (v *Value) tsType(mappings config.TypeScriptMappings, scalars map[string]*S
 				tsType = value
 			}
 			ts.app(tsType)
-			if v.IsPtr && (jsonInfo == nil || !jsonInfo.OmitEmpty) {
+			hiddenStruct, isHiddenStruct := structs[v.Scalar.FullName()]
+			isNilable := isHiddenStruct && (hiddenStruct.Array != nil || hiddenStruct.Map != nil)
+			if (v.IsPtr || isNilable) && (jsonInfo == nil || !jsonInfo.OmitEmpty) {
 				ts.app("|null")
 			}
 			return
-- 
2.43.0


From bcdbe82fb0037790b73f548f094381834947c40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:47 +0000
Subject: [PATCH 10/78] fix: typescript types of byte slices and single bytes
 did not match the json

---
 typescript.go | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/typescript.go b/typescript.go
index 1302758..cd4c005 100644
--- a/typescript.go
+++ b/typescript.go
@@ -41,13 +41,7 @@ func (v *Value) tsType(mappings config.TypeScriptMappings, scalars map[string]*S
 			ts.app("|null")
 		}
 	case v.Array != nil:
-		if v.Array.Value.ScalarType != ScalarTypeByte {
-			ts.app("Array<")
-		}
-		v.Array.Value.tsType(mappings, scalars, structs, ts, nil)
-		if v.Array.Value.ScalarType != ScalarTypeByte {
-			ts.app(">")
-		}
+		v.Array.tsType(mappings, scalars, structs, ts)
 		if jsonInfo == nil || !jsonInfo.OmitEmpty {
 			ts.app("|null")
 		}
@@ -106,10 +100,21 @@ func (v *Value) tsType(mappings config.TypeScriptMappings, scalars map[string]*S
 	}
 }
 
+func (a *Array) tsType(mappings config.TypeScriptMappings, scalars map[string]*Scalar, structs map[string]*Struct, ts *code) {
+	// bytes are base64 encoded
+	if goType := a.Value.GoScalarType; !a.Value.IsPtr && (goType == "byte" || goType == "uint8") {
+		ts.app("string")
+		return
+	}
+	ts.app("Array<")
+	a.Value.tsType(mappings, scalars, structs, ts, nil)
+	ts.app(">")
+}
+
 func tsTypeFromScalarType(scalarType ScalarType) string {
 	switch scalarType { //nolint:exhaustive
 	case ScalarTypeByte:
-		return "string"
+		return "number"
 	case ScalarTypeBool:
 		return "boolean"
 	}
@@ -138,9 +143,8 @@ func renderTypescriptStruct(str *Struct, mappings config.TypeScriptMappings, sca
 	ts.l("// " + str.FullName())
 	switch {
 	case str.Array != nil:
-		ts.app("export type " + str.Name + " = Array<")
-		str.Array.Value.tsType(mappings, scalars, structs, ts, nil)
-		ts.app(">")
+		ts.app("export type " + str.Name + " = ")
+		str.Array.tsType(mappings, scalars, structs, ts)
 		ts.nl()
 	case str.Map != nil:
 		ts.app("export type " + str.Name + " = Record<")
-- 
2.43.0


From 993f1fc47424d145a1b72e2444a380c3686c12dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:47 +0000
Subject: [PATCH 11/78] fix: rune had no typescript type

---
 servicereader.go | 2 +-
 typereader.go    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/servicereader.go b/servicereader.go
index 0349c07..088255a 100644
--- a/servicereader.go
+++ b/servicereader.go
@@ -216,7 +216,7 @@ func loadConstantTypes(pkg *ast.Package) map[string]interface{} {
 								case "bool":
 									constantTypes[spec.Name.Name] = "boolean"
 								case "float", "float32", "float64",
-									"int", "int8", "int16", "int32", "int64",
+									"rune", "int", "int8", "int16", "int32", "int64",
 									"uint", "uint8", "uint16", "uint32", "uint64":
 									constantTypes[spec.Name.Name] = "number"
 								default:
diff --git a/typereader.go b/typereader.go
index 04c34a4..f38f9ae 100644
--- a/typereader.go
+++ b/typereader.go
@@ -131,7 +131,7 @@ func getScalarFromAstIdent(ident *ast.Ident) ScalarType {
 	case "byte":
 		return ScalarTypeByte
 	case "float", "float32", "float64",
-		"int", "int8", "int16", "int32", "int64",
+		"rune", "int", "int8", "int16", "int32", "int64",
 		"uint", "uint8", "uint16", "uint32", "uint64":
 		return ScalarTypeNumber
 	default:
-- 
2.43.0


From fdb526f0e89472e98a68d057dd71ff05db3b99a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:07 +0000
Subject: [PATCH 12/78] fix: constants of several names, negative, char, octal
 and escaped literals were wrong or missing in enums

---
 servicereader.go | 43 ++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 40 insertions(+), 3 deletions(-)

diff --git a/servicereader.go b/servicereader.go
index 088255a..4da6b56 100644
--- a/servicereader.go
+++ b/servicereader.go
@@ -1,12 +1,14 @@
 package gotsrpc
 
 import (
+	"encoding/json"
 	"errors"
 	"fmt"
 	"go/ast"
 	"go/token"
 	"reflect"
 	"sort"
+	"strconv"
 	"strings"
 
 	"github.com/foomo/gotsrpc/v2/config"
@@ -191,6 +193,41 @@ func readServicesInPackage(pkg *ast.Package, packageName string, serviceMap map[
 	return
 }
 
+// readConstantLiteral returns a possibly negative literal as typescript understands it
+func readConstantLiteral(expr ast.Expr) (*ast.BasicLit, bool) {
+	switch e := expr.(type) {
+	case *ast.BasicLit:
+		lit := *e
+		switch e.Kind { //nolint:exhaustive
+		case token.CHAR:
+			if char, _, _, err := strconv.UnquoteChar(e.Value[1:], '\''); err == nil {
+				lit.Value = strconv.Itoa(int(char))
+			}
+		case token.INT:
+			// octals like 0755
+			if digits := strings.TrimLeft(e.Value, "0_"); len(digits) > 0 && len(digits) < len(e.Value) && digits[0] >= '1' && digits[0] <= '7' {
+				lit.Value = "0o" + digits
+			}
+		case token.STRING:
+			// typescript does not know all of go's escapes and interprets some in raw strings
+			if str, err := strconv.Unquote(e.Value); err == nil && (e.Value[0] == '`' || strings.Contains(e.Value, "\\")) {
+				if quoted, err := json.Marshal(str); err == nil {
+					lit.Value = string(quoted)
+				}
+			}
+		}
+		return &lit, true
+	case *ast.UnaryExpr:
+		if e.Op == token.SUB {
+			if lit, ok := readConstantLiteral(e.X); ok {
+				lit.Value = "-" + lit.Value
+				return lit, true
+			}
+		}
+	}
+	return nil, false
+}
+
 func loadConstantTypes(pkg *ast.Package) map[string]interface{} {
 	constantTypes := map[string]interface{}{}
 	for _, file := range pkg.Files {
@@ -232,14 +269,14 @@ func loadConstantTypes(pkg *ast.Package) map[string]interface{} {
 					for _, spec := range genDecl.Specs {
 						if spec, ok := spec.(*ast.ValueSpec); ok {
 							if specType, ok := spec.Type.(*ast.Ident); ok {
-								for _, val := range spec.Values {
-									if valType, ok := val.(*ast.BasicLit); ok {
+								for i, val := range spec.Values {
+									if valType, ok := readConstantLiteral(val); ok {
 										if _, ok := constantTypes[specType.Name]; !ok {
 											constantTypes[specType.Name] = map[string]*ast.BasicLit{}
 										} else if _, ok := constantTypes[specType.Name].(map[string]*ast.BasicLit); !ok {
 											constantTypes[specType.Name] = map[string]*ast.BasicLit{}
 										}
-										constantTypes[specType.Name].(map[string]*ast.BasicLit)[spec.Names[0].Name] = valType //nolint:forcetypeassert
+										constantTypes[specType.Name].(map[string]*ast.BasicLit)[spec.Names[i].Name] = valType //nolint:forcetypeassert
 									}
 								}
 							}
-- 
2.43.0


From 8ecfc63495b66e2bf219a9cee96fff4b51764b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:24 +0000
Subject: [PATCH 13/78] fix: json names and enum members that are no
 identifiers made the typescript invalid

---
 typescript.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/typescript.go b/typescript.go
index cd4c005..755401c 100644
--- a/typescript.go
+++ b/typescript.go
@@ -3,7 +3,9 @@ package gotsrpc
 import (
 	"errors"
 	"go/ast"
+	"regexp"
 	"sort"
+	"strconv"
 	"strings"
 
 	"github.com/iancoleman/strcase"
@@ -19,6 +21,8 @@ func (f *Field) tsName() string {
 	return n
 }
 
+var tsIdentifier = regexp.MustCompile(`^[\pL_$][\pL\p{Nd}_$]*$`)
+
 var tsTypeAliases = map[string]string{
 	"time.Time": "number",
 }
@@ -128,7 +132,11 @@ func renderStructFields(fields []*Field, mappings config.TypeScriptMappings, sca
 		} else if f.JSONInfo != nil && f.JSONInfo.Ignore {
 			continue
 		}
-		ts.app(f.tsName())
+		if name := f.tsName(); tsIdentifier.MatchString(name) {
+			ts.app(name)
+		} else {
+			ts.app(strconv.Quote(name))
+		}
 		if f.JSONInfo != nil && f.JSONInfo.OmitEmpty {
 			ts.app("?")
 		}
@@ -272,6 +280,9 @@ func renderTypescriptStructsToPackages(
 					packageCodeMap[packageConstantTypeName].l("export enum " + packageConstantTypeName + " {").ind(1)
 					for _, k := range keys {
 						enum := strings.TrimPrefix(strcase.ToCamel(k), packageConstantTypeName)
+						if !tsIdentifier.MatchString(enum) {
+							enum = k // e.g. nothing or a number is left
+						}
 						packageCodeMap[packageConstantTypeName].l(enum + " = " + packageConstantTypeValuesList[k].Value + ",")
 					}
 					packageCodeMap[packageConstantTypeName].ind(-1).l("}")
-- 
2.43.0


From 842252ce871bed97bc679023d2396d93046bd20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:26 +0000
Subject: [PATCH 14/78] fix: arguments named like typescript keywords made the
 client invalid

---
 typscriptclient.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/typscriptclient.go b/typscriptclient.go
index 78b171f..976a6c9 100644
--- a/typscriptclient.go
+++ b/typscriptclient.go
@@ -8,6 +8,19 @@ import (
 	"github.com/foomo/gotsrpc/v2/config"
 )
 
+// tsReserved are names a typescript argument must not have, including locals of the client's methods
+var tsReserved = func() map[string]bool {
+	ret := map[string]bool{}
+	for _, name := range strings.Fields(`
+		arguments await break case catch class const continue debugger default delete do else enum eval export extends
+		false finally for function if implements import in instanceof interface let new null package private protected
+		public response return static super switch this throw true try typeof var void while with yield
+	`) {
+		ret[name] = true
+	}
+	return ret
+}()
+
 func renderTypescriptClient(service *Service, mappings config.TypeScriptMappings, scalars map[string]*Scalar, structs map[string]*Struct, ts *code) error {
 	clientName := service.Name + "Client"
 
@@ -47,10 +60,14 @@ func renderTypescriptClient(service *Service, mappings config.TypeScriptMappings
 			if index > argOffset {
 				ts.app(", ")
 			}
-			ts.app(arg.tsName())
+			argName := arg.Name
+			if tsReserved[argName] {
+				argName += "_"
+			}
+			ts.app(argName)
 			ts.app(":")
 			arg.Value.tsType(mappings, scalars, structs, ts, arg.JSONInfo)
-			callArgs = append(callArgs, arg.Name)
+			callArgs = append(callArgs, argName)
 			argCount++
 		}
 		ts.app("):")
-- 
2.43.0


From 67a48d0bd7332c37351ffc1c0b44e93fdbc7e177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:38 +0000
Subject: [PATCH 15/78] fix: arguments without a name made the generated code
 invalid

---
 servicereader.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/servicereader.go b/servicereader.go
index 4da6b56..97b1453 100644
--- a/servicereader.go
+++ b/servicereader.go
@@ -49,7 +49,7 @@ func readServiceFile(file *ast.File, packageName string, services ServiceList) e
 
 							service.Methods = append(service.Methods, &Method{
 								Name:   funcDecl.Name.Name,
-								Args:   readFields(funcDecl.Type.Params, fileImports),
+								Args:   readArguments(funcDecl.Type.Params, fileImports),
 								Return: readFields(funcDecl.Type.Results, fileImports),
 							})
 						}
@@ -79,7 +79,7 @@ func readServiceFile(file *ast.File, packageName string, services ServiceList) e
 									// fmt.Println("interface:", ident.Name, "method:", mname.Name)
 									service.Methods = append(service.Methods, &Method{
 										Name:   mname.Name,
-										Args:   readFields(funcDecl.Params, fileImports),
+										Args:   readArguments(funcDecl.Params, fileImports),
 										Return: readFields(funcDecl.Results, fileImports),
 									})
 								}
@@ -154,6 +154,9 @@ func readFields(fieldList *ast.FieldList, fileImports fileImportSpecMap) (fields
 	for _, param := range fieldList.List {
 		names, value, _ := readField(param, fileImports)
 		for _, name := range names {
+			if name == "_" {
+				name = "" // the same as no name
+			}
 			fields = append(fields, &Field{
 				Name:  name,
 				Value: value,
@@ -164,6 +167,17 @@ func readFields(fieldList *ast.FieldList, fileImports fileImportSpecMap) (fields
 	return
 }
 
+// readArguments names the arguments that have no name of their own
+func readArguments(fieldList *ast.FieldList, fileImports fileImportSpecMap) []*Field {
+	fields := readFields(fieldList, fileImports)
+	for i, field := range fields {
+		if field.Name == "" {
+			field.Name = fmt.Sprintf("arg%d", i)
+		}
+	}
+	return fields
+}
+
 func readServicesInPackage(pkg *ast.Package, packageName string, serviceMap map[string]string) (services ServiceList, err error) {
 	if pkg == nil {
 		return nil, errors.New("package cannot be nil")
-- 
2.43.0


From 9eefb9df64e5ea252d6cbd8b5a1be3a2aea6ce8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:03 +0000
Subject: [PATCH 16/78] fix: arguments and results named like locals of the
 generated go clients made them invalid

---
 go.go | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/go.go b/go.go
index c5949fd..8f764fb 100644
--- a/go.go
+++ b/go.go
@@ -285,6 +285,15 @@ func renderTSRPCServiceProxies(services ServiceList, fullPackageName string, pac
 	return nil
 }
 
+// goLocal returns a name for an argument or result that is none of the generated code's own
+func goLocal(name string) string {
+	switch name {
+	case "ctx", "args", "reply", "tsc", "clientErr", "req", "response", "rpcCallRes", "rpcCallErr":
+		return name + "_"
+	}
+	return name
+}
+
 type goMethod struct {
 	name    string
 	params  []string
@@ -298,8 +307,9 @@ func newMethodSignature(method *Method, aliases map[string]string, fullPackageNa
 	var params []string
 	params = append(params, "ctx go_context.Context")
 	for _, a := range goMethodArgsWithoutHTTPContextRelatedArgs(method) {
-		args = append(args, a.Name)
-		params = append(params, a.Name+" "+a.Value.goType(aliases, fullPackageName))
+		name := goLocal(a.Name)
+		args = append(args, name)
+		params = append(params, name+" "+a.Value.goType(aliases, fullPackageName))
 	}
 	var rets []string
 	var returns []string
@@ -308,6 +318,7 @@ func newMethodSignature(method *Method, aliases map[string]string, fullPackageNa
 		if len(name) == 0 {
 			name = fmt.Sprintf("ret%s_%d", method.Name, i)
 		}
+		name = goLocal(name)
 		rets = append(rets, "&"+name)
 		returns = append(returns, name+" "+r.Value.goType(aliases, fullPackageName))
 	}
@@ -542,8 +553,8 @@ func renderGoRPCServiceProxies(services ServiceList, fullPackageName string, pac
 				if len(name) == 0 {
 					name = fmt.Sprintf("ret%s_%d", method.Name, i)
 				}
-				rets = append(rets, name)
-				retParams = append(retParams, ucfirst(name)+`: `+name)
+				rets = append(rets, goLocal(name))
+				retParams = append(retParams, ucfirst(name)+`: `+goLocal(name))
 			}
 			g.l(`case "` + service.Name + method.Name + `Request":`)
 			if len(nonHTTPRelatedMethodArgs) > 0 {
@@ -636,8 +647,8 @@ func renderGoRPCServiceClients(services ServiceList, fullPackageName string, pac
 			args := []string{}
 			params := []string{}
 			for _, a := range goMethodArgsWithoutHTTPContextRelatedArgs(method) {
-				args = append(args, ucfirst(a.Name)+`: `+a.Name)
-				params = append(params, a.Name+" "+a.Value.goType(aliases, fullPackageName))
+				args = append(args, ucfirst(a.Name)+`: `+goLocal(a.Name))
+				params = append(params, goLocal(a.Name)+" "+a.Value.goType(aliases, fullPackageName))
 			}
 			rets := []string{}
 			returns := []string{}
@@ -647,7 +658,7 @@ func renderGoRPCServiceClients(services ServiceList, fullPackageName string, pac
 					name = fmt.Sprintf("ret%s_%d", method.Name, i)
 				}
 				rets = append(rets, "response."+ucfirst(name))
-				returns = append(returns, name+" "+r.Value.goType(aliases, fullPackageName))
+				returns = append(returns, goLocal(name)+" "+r.Value.goType(aliases, fullPackageName))
 			}
 			returns = append(returns, "clientErr error")
 			g.l(`func (tsc *` + clientName + `) ` + method.Name + `(` + strings.Join(params, ", ") + `) (` + strings.Join(returns, ", ") + `) {`)
-- 
2.43.0


From 5ba4932b09c26b723cb7ed3228186760cfdf8d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:03 +0000
Subject: [PATCH 17/78] fix: types only used in anonymous structs were missing
 in typescript

---
 servicereader.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/servicereader.go b/servicereader.go
index 97b1453..4c5501a 100644
--- a/servicereader.go
+++ b/servicereader.go
@@ -602,6 +602,12 @@ func needsWorkValue(value *Value, needsWork func(fullName string) bool) bool {
 		if needsWork(value.StructType.FullName()) {
 			return true
 		}
+	case value.Struct != nil:
+		for _, field := range value.Struct.Fields {
+			if needsWorkValue(field.Value, needsWork) {
+				return true
+			}
+		}
 	case value.Array != nil:
 		if needsWorkValue(value.Array.Value, needsWork) {
 			return true
-- 
2.43.0


From 198b6ccf815ee8e4612c4d510cd072f4733a55fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:07 +0000
Subject: [PATCH 18/78] fix: informational and repeated statuses were taken for
 the response's status

---
 responsewriter.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/responsewriter.go b/responsewriter.go
index 2fca722..46a1d6d 100644
--- a/responsewriter.go
+++ b/responsewriter.go
@@ -11,8 +11,11 @@ type ResponseWriter struct {
 }
 
 func (r *ResponseWriter) WriteHeader(status int) {
-	r.status = status
-	r.wroteHeader = true
+	// neither an informational nor a repeated status is the response's
+	if informational := status >= 100 && status <= 199 && status != http.StatusSwitchingProtocols; !informational && !r.wroteHeader {
+		r.status = status
+		r.wroteHeader = true
+	}
 	r.ResponseWriter.WriteHeader(status)
 }
 
-- 
2.43.0


From 56e2d3de510caabf054bda7f60f4c3da2f53cc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:45 +0000
Subject: [PATCH 19/78] fix: an explicit status 200 sent the results without
 their content type

---
 responsewriter.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/responsewriter.go b/responsewriter.go
index 46a1d6d..48b3d48 100644
--- a/responsewriter.go
+++ b/responsewriter.go
@@ -11,12 +11,18 @@ type ResponseWriter struct {
 }
 
 func (r *ResponseWriter) WriteHeader(status int) {
-	// neither an informational nor a repeated status is the response's
-	if informational := status >= 100 && status <= 199 && status != http.StatusSwitchingProtocols; !informational && !r.wroteHeader {
+	// only the first status counts, informational ones aside
+	if r.wroteHeader {
+		return
+	}
+	if status < 100 || status > 199 || status == http.StatusSwitchingProtocols {
 		r.status = status
 		r.wroteHeader = true
 	}
-	r.ResponseWriter.WriteHeader(status)
+	// a 200 is sent with the results, for whose headers it would be too early
+	if status != http.StatusOK {
+		r.ResponseWriter.WriteHeader(status)
+	}
 }
 
 func (r *ResponseWriter) Status() int {
-- 
2.43.0


From e12d60b63a51b70ec5d8b16e75c906ad1d1ac852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:26 +0000
Subject: [PATCH 20/78] fix: errors.Is missed transported sentinels that wrap
 others

---
 error.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/error.go b/error.go
index 6db1cd4..78fdf82 100644
--- a/error.go
+++ b/error.go
@@ -27,12 +27,7 @@ func NewError(err error) *Error {
 		return v
 	}
 
-	// skip *withStack error type
-	if _, ok := err.(interface {
-		StackTrace() errors.StackTrace
-	}); ok && errors.Unwrap(err) != nil {
-		err = errors.Unwrap(err)
-	}
+	err = skipWithStack(err)
 
 	// retrieve error details
 	errType := reflect.TypeOf(err)
@@ -61,6 +56,16 @@ func NewError(err error) *Error {
 	return inst
 }
 
+// skipWithStack skips the *withStack error type
+func skipWithStack(err error) error {
+	if _, ok := err.(interface {
+		StackTrace() errors.StackTrace
+	}); ok && errors.Unwrap(err) != nil {
+		return errors.Unwrap(err)
+	}
+	return err
+}
+
 // As interface
 func (e *Error) As(err interface{}) bool {
 	if e == nil || err == nil {
@@ -124,13 +129,15 @@ func (e *Error) Is(err error) bool {
 		return false
 	}
 
+	err = skipWithStack(err)
+
 	errType := reflect.TypeOf(err)
 	errElem := errType
 	if errType.Kind() == reflect.Ptr {
 		errElem = errType.Elem()
 	}
 
-	if e.Msg == err.Error() &&
+	if e.Error() == err.Error() &&
 		errType.String() == e.Type &&
 		errElem.PkgPath() == e.Pkg {
 		return true
-- 
2.43.0


From 322b0d9deba3b164e57bff827db0ca3fca2cce94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:40 +0000
Subject: [PATCH 21/78] fix: errors.Cause never ended on transported errors

---
 error.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/error.go b/error.go
index 78fdf82..9fc1906 100644
--- a/error.go
+++ b/error.go
@@ -96,9 +96,17 @@ func (e *Error) Cause() error {
 	if e.ErrCause != nil {
 		return e.ErrCause
 	}
-	return e
+	return rootError{e}
 }
 
+// rootError is an error without a cause: were it a causer, as Error is,
+// errors.Cause would look for the cause of it forever
+type rootError struct{ err *Error }
+
+func (e rootError) Error() string                 { return e.err.Error() }
+func (e rootError) Unwrap() error                 { return e.err }
+func (e rootError) Format(s fmt.State, verb rune) { e.err.Format(s, verb) }
+
 // Format interface
 func (e *Error) Format(s fmt.State, verb rune) {
 	switch verb {
-- 
2.43.0


From 0cc530e53a7c3401e24b7e8a13f9333db041cf4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:14 +0000
Subject: [PATCH 22/78] fix: errors.As took transported errors for types of the
 same name in other packages

---
 error.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/error.go b/error.go
index 9fc1906..67cb68a 100644
--- a/error.go
+++ b/error.go
@@ -71,7 +71,12 @@ func (e *Error) As(err interface{}) bool {
 	if e == nil || err == nil {
 		return false
 	}
-	if reflect.TypeOf(err).Elem().String() == e.Type {
+	errType := reflect.TypeOf(err).Elem()
+	errElem := errType
+	if errType.Kind() == reflect.Ptr {
+		errElem = errType.Elem()
+	}
+	if errType.String() == e.Type && errElem.PkgPath() == e.Pkg {
 		if decodeErr := decodeErrorData(e.Data, &err); decodeErr != nil {
 			fmt.Printf("ERROR: failed to decode error data\n%+v", decodeErr)
 			return false
-- 
2.43.0


From 69423bb40b949647f4046c6234cef0f518774db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:35 +0000
Subject: [PATCH 23/78] fix: relaying a transported error with a stack lost its
 identity

---
 error.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/error.go b/error.go
index 67cb68a..df26b57 100644
--- a/error.go
+++ b/error.go
@@ -22,13 +22,13 @@ type Error struct {
 
 // NewError returns a new instance
 func NewError(err error) *Error {
+	err = skipWithStack(err)
+
 	// check if already transformed
 	if v, ok := err.(*Error); ok { //nolint:errorlint
 		return v
 	}
 
-	err = skipWithStack(err)
-
 	// retrieve error details
 	errType := reflect.TypeOf(err)
 	errElem := errType
-- 
2.43.0


From eac904a3c27ae317a9a90a230c1e9dd27399327a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:20 +0000
Subject: [PATCH 24/78] fix: instrumenting a second service with prometheus
 panicked

---
 prometheus/prometheus.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/prometheus/prometheus.go b/prometheus/prometheus.go
index 6cb2862..a5968f2 100644
--- a/prometheus/prometheus.go
+++ b/prometheus/prometheus.go
@@ -8,6 +8,20 @@ import (
 	"github.com/foomo/gotsrpc/v2"
 )
 
+// register returns the collector registered before, if there is one, so that
+// any number of services can be instrumented
+func register(c *p.SummaryVec) *p.SummaryVec {
+	if err := p.Register(c); err != nil {
+		if existing, ok := err.(p.AlreadyRegisteredError); ok { //nolint:errorlint
+			if v, ok := existing.ExistingCollector.(*p.SummaryVec); ok {
+				return v
+			}
+		}
+		panic(err)
+	}
+	return c
+}
+
 func InstrumentService(s http.HandlerFunc) (handler http.HandlerFunc) {
 	requestDuration := p.NewSummaryVec(p.SummaryOpts{ //nolint:promlinter
 		Namespace:  "gotsrpc",
@@ -24,8 +38,8 @@ func InstrumentService(s http.HandlerFunc) (handler http.HandlerFunc) {
 		Objectives: map[float64]float64{0.5: 0.05, 0.9: 0.01, 0.99: 0.001},
 	}, []string{"package", "service", "func", "type"})
 
-	p.MustRegister(requestSize)
-	p.MustRegister(requestDuration)
+	requestSize = register(requestSize)
+	requestDuration = register(requestDuration)
 
 	return gotsrpc.InstrumentedService(s.ServeHTTP, func(stats *gotsrpc.CallStats) {
 		requestSize.WithLabelValues(stats.Package, stats.Service, stats.Func, "request").Observe(float64(stats.RequestSize))
@@ -43,7 +57,7 @@ func InstrumentGoRPCService() gotsrpc.GoRPCCallStatsHandlerFun {
 		Name:      "time_seconds",
 		Help:      "seconds to execute a service method",
 	}, []string{"package", "service", "func", "type"})
-	p.MustRegister(callsCounter)
+	callsCounter = register(callsCounter)
 
 	return func(stats *gotsrpc.CallStats) {
 		callsCounter.WithLabelValues(stats.Package, stats.Service, stats.Func, "execution").Observe(float64(stats.Execution))
-- 
2.43.0


From b450ac542783de5f01046836ee088773af9d4edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:34 +0000
Subject: [PATCH 25/78] fix: the gorpc metric in seconds was given nanoseconds

---
 prometheus/prometheus.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prometheus/prometheus.go b/prometheus/prometheus.go
index a5968f2..a1ebc84 100644
--- a/prometheus/prometheus.go
+++ b/prometheus/prometheus.go
@@ -60,6 +60,6 @@ func InstrumentGoRPCService() gotsrpc.GoRPCCallStatsHandlerFun {
 	callsCounter = register(callsCounter)
 
 	return func(stats *gotsrpc.CallStats) {
-		callsCounter.WithLabelValues(stats.Package, stats.Service, stats.Func, "execution").Observe(float64(stats.Execution))
+		callsCounter.WithLabelValues(stats.Package, stats.Service, stats.Func, "execution").Observe(stats.Execution.Seconds())
 	}
 }
-- 
2.43.0


From ee9829462aee38fbe9c504ebd88a7c05a1f58c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:42 +0000
Subject: [PATCH 26/78] fix: gorpc lost arguments and results whose names have
 no upper case

---
 go.go | 53 ++++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 40 insertions(+), 13 deletions(-)

diff --git a/go.go b/go.go
index 8f764fb..1796837 100644
--- a/go.go
+++ b/go.go
@@ -2,6 +2,7 @@ package gotsrpc
 
 import (
 	"fmt"
+	"go/ast"
 	"sort"
 	"strings"
 
@@ -419,6 +420,29 @@ func renderTSRPCServiceClients(services ServiceList, fullPackageName string, pac
 	return nil
 }
 
+// goRPCFields returns the names of the request's or response's struct fields for
+// the given arguments or results: exported, as gob leaves out all others, and unique
+func goRPCFields(fields []*Field, unnamed string) []string {
+	names := make([]string, len(fields))
+	taken := map[string]bool{}
+	for i, field := range fields {
+		name := field.Name
+		if len(name) == 0 {
+			name = fmt.Sprintf("%s_%d", unnamed, i)
+		}
+		name = ucfirst(name)
+		if !ast.IsExported(name) {
+			name = "X" + name
+		}
+		for taken[name] {
+			name += "_"
+		}
+		taken[name] = true
+		names[i] = name
+	}
+	return names
+}
+
 func renderGoRPCServiceProxies(services ServiceList, fullPackageName string, packageName string, config *config.Target, g *code) error {
 	aliases := map[string]string{
 		"fmt":                         "fmt",
@@ -469,18 +493,17 @@ func renderGoRPCServiceProxies(services ServiceList, fullPackageName string, pac
 		for _, method := range service.Methods {
 			// Request type
 			g.l(ucfirst(service.Name+method.Name) + `Request struct {`)
-			for _, a := range goMethodArgsWithoutHTTPContextRelatedArgs(method) {
-				g.l(ucfirst(a.Name) + ` ` + a.Value.goType(aliases, fullPackageName))
+			requestArgs := goMethodArgsWithoutHTTPContextRelatedArgs(method)
+			requestFields := goRPCFields(requestArgs, "")
+			for i, a := range requestArgs {
+				g.l(requestFields[i] + ` ` + a.Value.goType(aliases, fullPackageName))
 			}
 			g.l(`}`)
 			// Response type
 			g.l(ucfirst(service.Name+method.Name) + `Response struct {`)
+			responseFields := goRPCFields(method.Return, "ret"+method.Name)
 			for i, r := range method.Return {
-				name := r.Name
-				if len(name) == 0 {
-					name = fmt.Sprintf("ret%s_%d", method.Name, i)
-				}
-				g.l(ucfirst(name) + ` ` + r.Value.goType(aliases, fullPackageName))
+				g.l(responseFields[i] + ` ` + r.Value.goType(aliases, fullPackageName))
 			}
 			g.l(`}`)
 			g.nl()
@@ -543,18 +566,19 @@ func renderGoRPCServiceProxies(services ServiceList, fullPackageName string, pac
 			for i := 0; i < diffNONHTTPRelatedMethodArgs; i++ {
 				argParams = append(argParams, "nil")
 			}
-			for _, a := range nonHTTPRelatedMethodArgs {
-				argParams = append(argParams, "req."+ucfirst(a.Name))
+			for _, field := range goRPCFields(nonHTTPRelatedMethodArgs, "") {
+				argParams = append(argParams, "req."+field)
 			}
 			rets := []string{}
 			retParams := []string{}
+			responseFields := goRPCFields(method.Return, "ret"+method.Name)
 			for i, r := range method.Return {
 				name := r.Name
 				if len(name) == 0 {
 					name = fmt.Sprintf("ret%s_%d", method.Name, i)
 				}
 				rets = append(rets, goLocal(name))
-				retParams = append(retParams, ucfirst(name)+`: `+goLocal(name))
+				retParams = append(retParams, responseFields[i]+`: `+goLocal(name))
 			}
 			g.l(`case "` + service.Name + method.Name + `Request":`)
 			if len(nonHTTPRelatedMethodArgs) > 0 {
@@ -646,18 +670,21 @@ func renderGoRPCServiceClients(services ServiceList, fullPackageName string, pac
 		for _, method := range service.Methods {
 			args := []string{}
 			params := []string{}
-			for _, a := range goMethodArgsWithoutHTTPContextRelatedArgs(method) {
-				args = append(args, ucfirst(a.Name)+`: `+goLocal(a.Name))
+			requestArgs := goMethodArgsWithoutHTTPContextRelatedArgs(method)
+			requestFields := goRPCFields(requestArgs, "")
+			for i, a := range requestArgs {
+				args = append(args, requestFields[i]+`: `+goLocal(a.Name))
 				params = append(params, goLocal(a.Name)+" "+a.Value.goType(aliases, fullPackageName))
 			}
 			rets := []string{}
 			returns := []string{}
+			responseFields := goRPCFields(method.Return, "ret"+method.Name)
 			for i, r := range method.Return {
 				name := r.Name
 				if len(name) == 0 {
 					name = fmt.Sprintf("ret%s_%d", method.Name, i)
 				}
-				rets = append(rets, "response."+ucfirst(name))
+				rets = append(rets, "response."+responseFields[i])
 				returns = append(returns, goLocal(name)+" "+r.Value.goType(aliases, fullPackageName))
 			}
 			returns = append(returns, "clientErr error")
-- 
2.43.0


From 9f2ada48bcae6461925dbf9364891e2ea34060c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:15 +0000
Subject: [PATCH 27/78] fix: results named alike up to case or like locals made
 the generated proxies invalid

---
 go.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/go.go b/go.go
index 1796837..98958f1 100644
--- a/go.go
+++ b/go.go
@@ -239,6 +239,7 @@ func renderTSRPCServiceProxies(services ServiceList, fullPackageName string, pac
 				}
 			}
 			var returnValueNames []string
+			taken := map[string]bool{"callStats": true, "executionStart": true}
 			for retI, retField := range method.Return {
 				retArgName := retField.Name
 				if len(retArgName) == 0 {
@@ -247,7 +248,12 @@ func renderTSRPCServiceProxies(services ServiceList, fullPackageName string, pac
 						retArgName += "_" + fmt.Sprint(retI)
 					}
 				}
-				returnValueNames = append(returnValueNames, lcfirst(method.Name)+ucfirst(retArgName))
+				name := lcfirst(method.Name) + ucfirst(retArgName)
+				for taken[name] {
+					name += "_"
+				}
+				taken[name] = true
+				returnValueNames = append(returnValueNames, name)
 			}
 			g.l("executionStart := time.Now()")
 			if isSessionRequest {
-- 
2.43.0


From 09ebe7940ade1ebcedf319f7657377efe0335e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:34 +0000
Subject: [PATCH 28/78] fix: fixed size arrays as arguments and results made
 the generated go code invalid

---
 go.go         | 2 +-
 model.go      | 1 +
 typereader.go | 4 ++++
 3 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/go.go b/go.go
index 98958f1..a4c61c2 100644
--- a/go.go
+++ b/go.go
@@ -25,7 +25,7 @@ func (v *Value) goType(aliases map[string]string, packageName string) (t string)
 	}
 	switch {
 	case v.Array != nil:
-		t += "[]" + v.Array.Value.goType(aliases, packageName)
+		t += "[" + v.Array.Len + "]" + v.Array.Value.goType(aliases, packageName)
 	case len(v.GoScalarType) > 0:
 		t += v.GoScalarType
 	case v.StructType != nil:
diff --git a/model.go b/model.go
index 0d51681..ff71771 100644
--- a/model.go
+++ b/model.go
@@ -41,6 +41,7 @@ type Value struct {
 
 type Array struct {
 	Value *Value
+	Len   string `json:",omitempty"` // of a fixed size array
 }
 
 type Map struct {
diff --git a/typereader.go b/typereader.go
index f38f9ae..3563a15 100644
--- a/typereader.go
+++ b/typereader.go
@@ -3,6 +3,7 @@ package gotsrpc
 import (
 	"fmt"
 	"go/ast"
+	"go/types"
 	"os"
 	"reflect"
 	"strings"
@@ -264,6 +265,9 @@ func (v *Value) loadExpr(expr ast.Expr, fileImports fileImportSpecMap) {
 	switch exprType := expr.(type) {
 	case *ast.ArrayType:
 		v.Array = &Array{Value: &Value{}}
+		if exprType.Len != nil {
+			v.Array.Len = types.ExprString(exprType.Len)
+		}
 
 		switch exprEltType := exprType.Elt.(type) {
 		case *ast.ArrayType:
-- 
2.43.0


From f53b7ad83f1c7bbf92c473b5f5f0363d5308ea0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:10 +0000
Subject: [PATCH 29/78] fix: packages named alike up to separators collided in
 the generated code

---
 build.go | 16 +++++++++++++---
 go.go    | 31 ++++++++++++++++++++++---------
 2 files changed, 35 insertions(+), 12 deletions(-)

diff --git a/build.go b/build.go
index 6879e96..0b304dd 100644
--- a/build.go
+++ b/build.go
@@ -17,9 +17,19 @@ import (
 )
 
 func deriveCommonJSMapping(conf *config.Config) {
-	replacer := strings.NewReplacer(".", "_", "/", "_", "-", "_")
-	for _, mapping := range conf.Mappings {
-		mapping.TypeScriptModule = replacer.Replace(mapping.GoPackage)
+	packageNames := make([]string, 0, len(conf.Mappings))
+	for packageName := range conf.Mappings {
+		packageNames = append(packageNames, packageName)
+	}
+	sort.Strings(packageNames)
+	taken := map[string]bool{}
+	for _, packageName := range packageNames {
+		module := packageIdentifier(packageName)
+		for taken[module] {
+			module += "_"
+		}
+		taken[module] = true
+		conf.Mappings[packageName].TypeScriptModule = module
 	}
 }
 
diff --git a/go.go b/go.go
index a4c61c2..20e7941 100644
--- a/go.go
+++ b/go.go
@@ -3,6 +3,7 @@ package gotsrpc
 import (
 	"fmt"
 	"go/ast"
+	"regexp"
 	"sort"
 	"strings"
 
@@ -70,18 +71,30 @@ func strfirst(str string, strfunc func(string) string) string {
 	return res
 }
 
+var noIdentifier = regexp.MustCompile(`^[0-9]|[^\pL\p{Nd}_]`)
+
+// packageIdentifier makes a name for a package in generated code
+func packageIdentifier(packageName string) string {
+	return noIdentifier.ReplaceAllStringFunc(packageName, func(s string) string {
+		if s >= "0" && s <= "9" {
+			return "_" + s
+		}
+		return "_"
+	})
+}
+
 func extractImport(packageName string, fullPackageName string, aliases map[string]string) {
-	r := strings.NewReplacer(".", "_", "/", "_", "-", "_")
 	if packageName != fullPackageName {
 		if _, ok := aliases[packageName]; !ok {
-			packageParts := strings.Split(packageName, "/")
-			beautifulAlias := packageParts[len(packageParts)-1]
-			uglyAlias := r.Replace(packageName)
-			alias := uglyAlias // beautifulAlias
-			for _, otherAlias := range aliases {
-				if otherAlias == beautifulAlias {
-					alias = uglyAlias
-					break
+			alias := packageIdentifier(packageName)
+			for taken := true; taken; {
+				taken = false
+				for _, otherAlias := range aliases {
+					if otherAlias == alias {
+						taken = true
+						alias += "_"
+						break
+					}
 				}
 			}
 			aliases[packageName] = alias
-- 
2.43.0


From 145a2a0b82e1741029593c8a4bfd0005d14c00eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:10 +0000
Subject: [PATCH 30/78] fix: unsupported types of arguments and results
 silently became other types in the generated go clients

---
 go.go | 42 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/go.go b/go.go
index 20e7941..0854dd6 100644
--- a/go.go
+++ b/go.go
@@ -51,6 +51,27 @@ func (v *Value) goType(aliases map[string]string, packageName string) (t string)
 	return
 }
 
+func (v *Value) hasGoType() bool {
+	switch {
+	case v.Array != nil:
+		return v.Array.Value.hasGoType()
+	case v.Map != nil:
+		return v.Map.Key != nil && v.Map.Key.hasGoType() && v.Map.Value.hasGoType()
+	default:
+		return len(v.GoScalarType) > 0 || v.StructType != nil || v.Scalar != nil || v.IsInterface
+	}
+}
+
+// checkGoTypes tells which argument or result can not be declared in generated code
+func checkGoTypes(service *Service, method *Method, fields []*Field) error {
+	for i, field := range fields {
+		if !field.Value.hasGoType() {
+			return fmt.Errorf("unsupported type of argument or result %d %q of %s.%s", i, field.Name, service.Name, method.Name)
+		}
+	}
+	return nil
+}
+
 func lcfirst(str string) string {
 	return strfirst(str, strings.ToLower)
 }
@@ -136,6 +157,9 @@ func renderTSRPCServiceProxies(services ServiceList, fullPackageName string, pac
 			continue
 		}
 		for _, m := range service.Methods {
+			if err := checkGoTypes(service, m, m.Args); err != nil {
+				return err
+			}
 			extractImports(m.Args, fullPackageName, aliases)
 		}
 	}
@@ -372,6 +396,12 @@ func renderTSRPCServiceClients(services ServiceList, fullPackageName string, pac
 			continue
 		}
 		for _, m := range service.Methods {
+			if err := checkGoTypes(service, m, m.Args); err != nil {
+				return err
+			}
+			if err := checkGoTypes(service, m, m.Return); err != nil {
+				return err
+			}
 			extractImports(m.Args, fullPackageName, aliases)
 			extractImports(m.Return, fullPackageName, aliases)
 		}
@@ -480,6 +510,12 @@ func renderGoRPCServiceProxies(services ServiceList, fullPackageName string, pac
 		}
 
 		for _, m := range service.Methods {
+			if err := checkGoTypes(service, m, m.Args); err != nil {
+				return err
+			}
+			if err := checkGoTypes(service, m, m.Return); err != nil {
+				return err
+			}
 			extractImports(m.Args, fullPackageName, aliases)
 			extractImports(m.Return, fullPackageName, aliases)
 		}
@@ -640,6 +676,12 @@ func renderGoRPCServiceClients(services ServiceList, fullPackageName string, pac
 			continue
 		}
 		for _, m := range service.Methods {
+			if err := checkGoTypes(service, m, m.Args); err != nil {
+				return err
+			}
+			if err := checkGoTypes(service, m, m.Return); err != nil {
+				return err
+			}
 			extractImports(m.Args, fullPackageName, aliases)
 			extractImports(m.Return, fullPackageName, aliases)
 		}
-- 
2.43.0


From 94aa83cbf979f799e2d50609c436c333ad090529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:50 +0000
Subject: [PATCH 31/78] fix: maps with keys of unsupported types crashed the
 generator

---
 servicereader.go   |  2 +-
 typescript.go      | 29 +++++++++++++++++++++++++++++
 typscriptclient.go |  4 ++++
 3 files changed, 34 insertions(+), 1 deletion(-)

diff --git a/servicereader.go b/servicereader.go
index 4c5501a..8fa2741 100644
--- a/servicereader.go
+++ b/servicereader.go
@@ -613,7 +613,7 @@ func needsWorkValue(value *Value, needsWork func(fullName string) bool) bool {
 			return true
 		}
 	case value.Map != nil:
-		if needsWorkValue(value.Map.Key, needsWork) || needsWorkValue(value.Map.Value, needsWork) {
+		if (value.Map.Key != nil && needsWorkValue(value.Map.Key, needsWork)) || needsWorkValue(value.Map.Value, needsWork) {
 			return true
 		}
 	}
diff --git a/typescript.go b/typescript.go
index 755401c..3af038c 100644
--- a/typescript.go
+++ b/typescript.go
@@ -104,6 +104,28 @@ func (v *Value) tsType(mappings config.TypeScriptMappings, scalars map[string]*S
 	}
 }
 
+// hasUnsupportedKey tells if there is a map with keys that are neither scalars nor named types
+func (v *Value) hasUnsupportedKey() bool {
+	switch {
+	case v.Map != nil:
+		return v.Map.Key == nil || v.Map.Value.hasUnsupportedKey()
+	case v.Array != nil:
+		return v.Array.Value.hasUnsupportedKey()
+	case v.Struct != nil:
+		return len(fieldsWithUnsupportedKeys(v.Struct.Fields)) > 0
+	}
+	return false
+}
+
+func fieldsWithUnsupportedKeys(fields []*Field) (names []string) {
+	for _, f := range fields {
+		if (f.JSONInfo == nil || !f.JSONInfo.Ignore && len(f.JSONInfo.Type) == 0) && f.Value.hasUnsupportedKey() {
+			names = append(names, f.Name)
+		}
+	}
+	return names
+}
+
 func (a *Array) tsType(mappings config.TypeScriptMappings, scalars map[string]*Scalar, structs map[string]*Struct, ts *code) {
 	// bytes are base64 encoded
 	if goType := a.Value.GoScalarType; !a.Value.IsPtr && (goType == "byte" || goType == "uint8") {
@@ -148,6 +170,13 @@ func renderStructFields(fields []*Field, mappings config.TypeScriptMappings, sca
 }
 
 func renderTypescriptStruct(str *Struct, mappings config.TypeScriptMappings, scalars map[string]*Scalar, structs map[string]*Struct, ts *code) error {
+	names := fieldsWithUnsupportedKeys(str.Fields)
+	if (&Value{Array: str.Array, Map: str.Map}).hasUnsupportedKey() {
+		names = append(names, str.Name)
+	}
+	if len(names) > 0 {
+		return errors.New("unsupported map keys in " + str.FullName() + ": " + strings.Join(names, ", "))
+	}
 	ts.l("// " + str.FullName())
 	switch {
 	case str.Array != nil:
diff --git a/typscriptclient.go b/typscriptclient.go
index 976a6c9..b3d640a 100644
--- a/typscriptclient.go
+++ b/typscriptclient.go
@@ -1,6 +1,7 @@
 package gotsrpc
 
 import (
+	"errors"
 	"fmt"
 	"strconv"
 	"strings"
@@ -37,6 +38,9 @@ func renderTypescriptClient(service *Service, mappings config.TypeScriptMappings
 	ts.l(") {}")
 
 	for _, method := range service.Methods {
+		if names := fieldsWithUnsupportedKeys(append(append([]*Field{}, method.Args...), method.Return...)); len(names) > 0 {
+			return errors.New("unsupported map keys in " + service.Name + "." + method.Name + ": " + strings.Join(names, ", "))
+		}
 		ts.app("async " + lcfirst(method.Name) + "(")
 		var callArgs []string
 		argOffset := 0
-- 
2.43.0


From 7b94abafacc1b811674922205ab89d0d23ce33c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:32 +0000
Subject: [PATCH 32/78] fix: maps with bool keys made the typescript invalid

---
 typescript.go | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/typescript.go b/typescript.go
index 3af038c..fbb0f54 100644
--- a/typescript.go
+++ b/typescript.go
@@ -33,11 +33,7 @@ func (v *Value) tsType(mappings config.TypeScriptMappings, scalars map[string]*S
 		ts.app(jsonInfo.Type)
 	case v.Map != nil:
 		ts.app("Record<")
-		if v.Map.Key != nil {
-			v.Map.Key.tsType(mappings, scalars, structs, ts, nil)
-		} else {
-			ts.app(v.Map.KeyType)
-		}
+		v.Map.tsKeyType(mappings, scalars, structs, ts)
 		ts.app(",")
 		v.Map.Value.tsType(mappings, scalars, structs, ts, nil)
 		ts.app(">")
@@ -126,6 +122,23 @@ func fieldsWithUnsupportedKeys(fields []*Field) (names []string) {
 	return names
 }
 
+func (m *Map) tsKeyType(mappings config.TypeScriptMappings, scalars map[string]*Scalar, structs map[string]*Struct, ts *code) {
+	if m.Key == nil {
+		ts.app(m.KeyType)
+		return
+	}
+	isBool := m.Key.ScalarType == ScalarTypeBool
+	if m.Key.Scalar != nil {
+		scalar, ok := scalars[m.Key.Scalar.FullName()]
+		isBool = ok && scalar.Type == ScalarTypeBool
+	}
+	if isBool {
+		ts.app("string") // there are no boolean keys
+		return
+	}
+	m.Key.tsType(mappings, scalars, structs, ts, nil)
+}
+
 func (a *Array) tsType(mappings config.TypeScriptMappings, scalars map[string]*Scalar, structs map[string]*Struct, ts *code) {
 	// bytes are base64 encoded
 	if goType := a.Value.GoScalarType; !a.Value.IsPtr && (goType == "byte" || goType == "uint8") {
@@ -185,11 +198,7 @@ func renderTypescriptStruct(str *Struct, mappings config.TypeScriptMappings, sca
 		ts.nl()
 	case str.Map != nil:
 		ts.app("export type " + str.Name + " = Record<")
-		if str.Map.Key != nil {
-			str.Map.Key.tsType(mappings, scalars, structs, ts, nil)
-		} else {
-			ts.app(str.Map.KeyType)
-		}
+		str.Map.tsKeyType(mappings, scalars, structs, ts)
 		ts.app(",")
 		str.Map.Value.tsType(mappings, scalars, structs, ts, nil)
 		ts.app(">")
-- 
2.43.0


From 440da5d8fc781314aa0bc2a48c9b80a6e4d4d07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:47 +0000
Subject: [PATCH 33/78] fix: methods named like members of the typescript
 client made it invalid

---
 typscriptclient.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/typscriptclient.go b/typscriptclient.go
index b3d640a..75b98fa 100644
--- a/typscriptclient.go
+++ b/typscriptclient.go
@@ -41,7 +41,11 @@ func renderTypescriptClient(service *Service, mappings config.TypeScriptMappings
 		if names := fieldsWithUnsupportedKeys(append(append([]*Field{}, method.Args...), method.Return...)); len(names) > 0 {
 			return errors.New("unsupported map keys in " + service.Name + "." + method.Name + ": " + strings.Join(names, ", "))
 		}
-		ts.app("async " + lcfirst(method.Name) + "(")
+		methodName := lcfirst(method.Name)
+		if methodName == "constructor" || methodName == "transport" {
+			methodName += "_" // the client has these itself
+		}
+		ts.app("async " + methodName + "(")
 		var callArgs []string
 		argOffset := 0
 		for index, arg := range method.Args {
-- 
2.43.0


From 6dd8bf6bc8efd69b855d1205d224465403b4118d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:02 +0000
Subject: [PATCH 34/78] fix: uintptr had no typescript type

---
 servicereader.go | 2 +-
 typereader.go    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/servicereader.go b/servicereader.go
index 8fa2741..732034e 100644
--- a/servicereader.go
+++ b/servicereader.go
@@ -268,7 +268,7 @@ func loadConstantTypes(pkg *ast.Package) map[string]interface{} {
 									constantTypes[spec.Name.Name] = "boolean"
 								case "float", "float32", "float64",
 									"rune", "int", "int8", "int16", "int32", "int64",
-									"uint", "uint8", "uint16", "uint32", "uint64":
+									"uint", "uint8", "uint16", "uint32", "uint64", "uintptr":
 									constantTypes[spec.Name.Name] = "number"
 								default:
 									trace("unhandled type", reflect.ValueOf(spec.Type).Type().String())
diff --git a/typereader.go b/typereader.go
index 3563a15..bc45d03 100644
--- a/typereader.go
+++ b/typereader.go
@@ -133,7 +133,7 @@ func getScalarFromAstIdent(ident *ast.Ident) ScalarType {
 		return ScalarTypeByte
 	case "float", "float32", "float64",
 		"rune", "int", "int8", "int16", "int32", "int64",
-		"uint", "uint8", "uint16", "uint32", "uint64":
+		"uint", "uint8", "uint16", "uint32", "uint64", "uintptr":
 		return ScalarTypeNumber
 	default:
 		if ident.Obj != nil && ident.Obj.Decl != nil && reflect.ValueOf(ident.Obj.Decl).Type().String() == "*ast.TypeSpec" {
-- 
2.43.0


From 6d43f1a8ba5c1cca2c92bf8183487a6d62075c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:40 +0000
Subject: [PATCH 35/78] fix: types defined by other types of their package were
 missing in typescript

---
 model.go         |  1 +
 servicereader.go |  6 ++++++
 typereader.go    | 11 +++++++++++
 typescript.go    | 27 ++++++++++++++++++++++-----
 4 files changed, 40 insertions(+), 5 deletions(-)

diff --git a/model.go b/model.go
index ff71771..eede3d2 100644
--- a/model.go
+++ b/model.go
@@ -87,6 +87,7 @@ type Struct struct {
 	InlineFields []*Field
 	Map          *Map
 	Array        *Array
+	Definition   *Value // of types defined by another one of their package
 }
 
 type Scalar struct {
diff --git a/servicereader.go b/servicereader.go
index 732034e..b951698 100644
--- a/servicereader.go
+++ b/servicereader.go
@@ -435,6 +435,9 @@ func loadFlatStructs(s *Struct, flatStructs map[string]bool) {
 			loadFlatStructsValue(s.Map.Value, flatStructs)
 		}
 	}
+	if s.Definition != nil {
+		loadFlatStructsValue(s.Definition, flatStructs)
+	}
 	if s.Fields != nil {
 		for _, field := range s.Fields {
 			loadFlatStructsValue(field.Value, flatStructs)
@@ -693,6 +696,9 @@ func (s *Struct) DepsSatisfied(missingTypes map[string]bool, structs map[string]
 			return false
 		}
 	}
+	if s.Definition != nil && needsWorkValue(s.Definition, needsWork) {
+		return false
+	}
 	if s.Map != nil {
 		if s.Map.Key != nil && needsWorkValue(s.Map.Key, needsWork) {
 			return false
diff --git a/typereader.go b/typereader.go
index bc45d03..04e824e 100644
--- a/typereader.go
+++ b/typereader.go
@@ -421,6 +421,17 @@ func extractTypes(file *ast.File, packageName string, structs map[string]*Struct
 						Type:    ScalarTypeAny,
 					}
 				case *ast.Ident:
+					if typeSpecType.Obj != nil {
+						trace("Definition", obj.Name)
+						definition := &Value{}
+						definition.loadExpr(typeSpecType, fileImports)
+						structs[structName] = &Struct{
+							Name:       name,
+							Package:    packageName,
+							Definition: definition,
+						}
+						break
+					}
 					trace("Scalar", obj.Name)
 					scalars[structName] = &Scalar{
 						Name:    structName,
diff --git a/typescript.go b/typescript.go
index fbb0f54..d1ff5ba 100644
--- a/typescript.go
+++ b/typescript.go
@@ -57,9 +57,7 @@ func (v *Value) tsType(mappings config.TypeScriptMappings, scalars map[string]*S
 				tsType = value
 			}
 			ts.app(tsType)
-			hiddenStruct, isHiddenStruct := structs[v.Scalar.FullName()]
-			isNilable := isHiddenStruct && (hiddenStruct.Array != nil || hiddenStruct.Map != nil)
-			if (v.IsPtr || isNilable) && (jsonInfo == nil || !jsonInfo.OmitEmpty) {
+			if (v.IsPtr || isNilable(v.Scalar.FullName(), structs)) && (jsonInfo == nil || !jsonInfo.OmitEmpty) {
 				ts.app("|null")
 			}
 			return
@@ -73,8 +71,7 @@ func (v *Value) tsType(mappings config.TypeScriptMappings, scalars map[string]*S
 				tsModule = mapping.TypeScriptModule
 			}
 			ts.app(tsModule + "." + v.StructType.Name)
-			hiddenStruct, isHiddenStruct := structs[v.StructType.FullName()]
-			if isHiddenStruct && (hiddenStruct.Array != nil || hiddenStruct.Map != nil) && (jsonInfo == nil || !jsonInfo.OmitEmpty) {
+			if isNilable(v.StructType.FullName(), structs) && (jsonInfo == nil || !jsonInfo.OmitEmpty) {
 				ts.app("|null")
 			} else if v.IsPtr && (jsonInfo == nil || !jsonInfo.OmitEmpty) {
 				ts.app("|null")
@@ -100,6 +97,22 @@ func (v *Value) tsType(mappings config.TypeScriptMappings, scalars map[string]*S
 	}
 }
 
+// isNilable tells if the named type is a slice or map
+func isNilable(fullName string, structs map[string]*Struct) bool {
+	str, ok := structs[fullName]
+	for ok && str.Definition != nil {
+		switch {
+		case str.Definition.Scalar != nil:
+			str, ok = structs[str.Definition.Scalar.FullName()]
+		case str.Definition.StructType != nil:
+			str, ok = structs[str.Definition.StructType.FullName()]
+		default:
+			ok = false
+		}
+	}
+	return ok && (str.Array != nil || str.Map != nil)
+}
+
 // hasUnsupportedKey tells if there is a map with keys that are neither scalars nor named types
 func (v *Value) hasUnsupportedKey() bool {
 	switch {
@@ -203,6 +216,10 @@ func renderTypescriptStruct(str *Struct, mappings config.TypeScriptMappings, sca
 		str.Map.Value.tsType(mappings, scalars, structs, ts, nil)
 		ts.app(">")
 		ts.nl()
+	case str.Definition != nil:
+		ts.app("export type " + str.Name + " = ")
+		str.Definition.tsType(mappings, scalars, structs, ts, &JSONInfo{OmitEmpty: true})
+		ts.nl()
 	// special handling of inline only structs
 	case len(str.UnionFields) > 0:
 		if len(str.Fields) > 0 || len(str.InlineFields) > 0 {
-- 
2.43.0


From 45d86c02fc528e6efdcdcfb4d5e7d665659619d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:05 +0000
Subject: [PATCH 36/78] fix: unexported scalar types had no typescript type

---
 typereader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typereader.go b/typereader.go
index 04e824e..61bfebf 100644
--- a/typereader.go
+++ b/typereader.go
@@ -166,7 +166,7 @@ func readAstType(v *Value, fieldIdent *ast.Ident, fileImports fileImportSpecMap,
 			Name:    structType,
 			Package: fileImports.getPackagePath(packageName),
 		}
-	} else if fieldIdent.Name[:1] == strings.ToUpper(fieldIdent.Name[:1]) {
+	} else if fieldIdent.Obj != nil || fieldIdent.Name[:1] == strings.ToUpper(fieldIdent.Name[:1]) {
 		v.Scalar = &Scalar{
 			Package: fileImports.getPackagePath(packageName),
 			Name:    fieldIdent.Name,
-- 
2.43.0


From f1088749a49bc5fd1c9fb7e3c8e38bb65a22d2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:05 +0000
Subject: [PATCH 37/78] fix: unions of types of other packages were taken for
 unions of constants in typescript

---
 typescript.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/typescript.go b/typescript.go
index d1ff5ba..7fdf0d1 100644
--- a/typescript.go
+++ b/typescript.go
@@ -99,18 +99,24 @@ func (v *Value) tsType(mappings config.TypeScriptMappings, scalars map[string]*S
 
 // isNilable tells if the named type is a slice or map
 func isNilable(fullName string, structs map[string]*Struct) bool {
-	str, ok := structs[fullName]
-	for ok && str.Definition != nil {
+	str := underlyingStruct(fullName, structs)
+	return str != nil && (str.Array != nil || str.Map != nil)
+}
+
+// underlyingStruct returns the struct, slice or map a named type is defined as, if it is one
+func underlyingStruct(fullName string, structs map[string]*Struct) *Struct {
+	str := structs[fullName]
+	for str != nil && str.Definition != nil {
 		switch {
 		case str.Definition.Scalar != nil:
-			str, ok = structs[str.Definition.Scalar.FullName()]
+			str = structs[str.Definition.Scalar.FullName()]
 		case str.Definition.StructType != nil:
-			str, ok = structs[str.Definition.StructType.FullName()]
+			str = structs[str.Definition.StructType.FullName()]
 		default:
-			ok = false
+			str = nil
 		}
 	}
-	return ok && (str.Array != nil || str.Map != nil)
+	return str
 }
 
 // hasUnsupportedKey tells if there is a map with keys that are neither scalars nor named types
@@ -225,8 +231,10 @@ func renderTypescriptStruct(str *Struct, mappings config.TypeScriptMappings, sca
 		if len(str.Fields) > 0 || len(str.InlineFields) > 0 {
 			return errors.New("no fields or inline fields are supported when using union")
 		}
+		first := str.UnionFields[0].Value
 		switch {
-		case str.UnionFields[0].Value.StructType != nil:
+		// types of other packages are only known to be structs by now
+		case first.StructType != nil, first.Scalar != nil && underlyingStruct(first.Scalar.FullName(), structs) != nil:
 			ts.app("export type " + str.Name + " = ")
 			var isUndefined bool
 			for i, unionField := range str.UnionFields {
@@ -242,7 +250,7 @@ func renderTypescriptStruct(str *Struct, mappings config.TypeScriptMappings, sca
 				ts.app(" | undefined")
 			}
 			ts.nl()
-		case str.UnionFields[0].Value.Scalar != nil:
+		case first.Scalar != nil:
 			ts.app("export const " + str.Name + " = ")
 			ts.app("{ ")
 			for i, field := range str.UnionFields {
-- 
2.43.0


From 60bc8246f1b75801e3988d9018d882204d07fae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:44 +0000
Subject: [PATCH 38/78] fix: types named like typescript's generics made the
 modules using them invalid

---
 build.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/build.go b/build.go
index 0b304dd..95793c7 100644
--- a/build.go
+++ b/build.go
@@ -7,6 +7,7 @@ import (
 	"os"
 	"path"
 	"path/filepath"
+	"regexp"
 	"runtime"
 	"sort"
 	"strings"
@@ -269,12 +270,19 @@ func Build(conf *config.Config, goPath string) { //nolint:maintidx
 		}
 
 		moduleCode.l("// end of common js")
+		module := moduleCode.string()
+		for _, name := range []string{"Array", "Record", "Partial"} {
+			if _, ok := mappedStructsMap[name]; ok {
+				// the module's own type hides the one meant
+				module = regexp.MustCompile(`\b`+name+`<`).ReplaceAllString(module, "globalThis."+name+"<")
+			}
+		}
 
 		// workaround to remove unneeded imports
 		importsCode := newCode("	")
-		commonJSImports(conf, importsCode, mapping.Out, moduleCode.string())
+		commonJSImports(conf, importsCode, mapping.Out, module)
 		importsCode.l("").l("")
-		ts := importsCode.string() + moduleCode.string()
+		ts := importsCode.string() + module
 
 		updateErr := updateCode(mapping.Out, getTSHeaderComment()+ts)
 		if updateErr != nil {
-- 
2.43.0


From e389353689b365d3c63349bad5abc735f6e63c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:56 +0000
Subject: [PATCH 39/78] fix: interface types of the service's package as
 arguments made the generated go code invalid

---
 servicereader.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/servicereader.go b/servicereader.go
index b951698..0ef8a30 100644
--- a/servicereader.go
+++ b/servicereader.go
@@ -474,8 +474,13 @@ func fixFieldStructs(fields []*Field, structs map[string]*Struct, scalars map[st
 			}
 			scalar, scalarExists := scalars[name]
 			if scalarExists {
+				f.Value.Scalar = &Scalar{
+					Name:    f.Value.StructType.Name,
+					Package: f.Value.StructType.Package,
+					Type:    scalar.Type,
+				}
+				f.Value.ScalarType = ScalarType(f.Value.StructType.Name)
 				f.Value.StructType = nil
-				f.Value.Scalar = scalar
 			}
 		}
 	}
-- 
2.43.0


From 89d347a78e9fefc2fdcb8fd41e2eb36a58c60a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:44 +0000
Subject: [PATCH 40/78] fix: embedded types without inline tag were missing in
 typescript

---
 servicereader.go |  8 ++++---
 typereader.go    | 23 ++++++++++++++-----
 typescript.go    | 58 ++++++++++++++++++++++++++++++++++++++----------
 3 files changed, 68 insertions(+), 21 deletions(-)

diff --git a/servicereader.go b/servicereader.go
index 0ef8a30..e1401d3 100644
--- a/servicereader.go
+++ b/servicereader.go
@@ -611,9 +611,11 @@ func needsWorkValue(value *Value, needsWork func(fullName string) bool) bool {
 			return true
 		}
 	case value.Struct != nil:
-		for _, field := range value.Struct.Fields {
-			if needsWorkValue(field.Value, needsWork) {
-				return true
+		for _, fields := range [][]*Field{value.Struct.Fields, value.Struct.InlineFields} {
+			for _, field := range fields {
+				if needsWorkValue(field.Value, needsWork) {
+					return true
+				}
 			}
 		}
 	case value.Array != nil:
diff --git a/typereader.go b/typereader.go
index 61bfebf..845cf02 100644
--- a/typereader.go
+++ b/typereader.go
@@ -334,13 +334,10 @@ func readFieldList(fieldList []*ast.Field, fileImports fileImportSpecMap) (field
 		if names, value, jsonInfo := readField(field, fileImports); value != nil {
 			for _, name := range names {
 				if len(name) == 0 {
-					if jsonInfo == nil {
-						trace("i do not understand this one", field, names, value, jsonInfo)
-						continue
-					} else if jsonInfo.Ignore {
+					if jsonInfo != nil && jsonInfo.Ignore {
 						trace("ignoring this one", field, names, value, jsonInfo)
 						continue
-					} else if jsonInfo.Inline {
+					} else if jsonInfo == nil || len(jsonInfo.Name) == 0 {
 						inlineFields = append(inlineFields, &Field{
 							Name:     name,
 							Value:    value,
@@ -348,7 +345,9 @@ func readFieldList(fieldList []*ast.Field, fileImports fileImportSpecMap) (field
 						})
 						continue
 					}
-				} else if strings.Compare(strings.ToLower(name[:1]), name[:1]) == 0 {
+					name = value.typeName()
+				}
+				if strings.Compare(strings.ToLower(name[:1]), name[:1]) == 0 {
 					// this is not unicode proof
 					continue
 				} else if jsonInfo != nil && jsonInfo.Union {
@@ -370,6 +369,18 @@ func readFieldList(fieldList []*ast.Field, fileImports fileImportSpecMap) (field
 	return
 }
 
+// typeName returns the name of a named type without its package
+func (v *Value) typeName() string {
+	switch {
+	case v.Scalar != nil:
+		return v.Scalar.Name
+	case v.StructType != nil:
+		return v.StructType.Name
+	default:
+		return v.GoScalarType
+	}
+}
+
 func extractErrorTypes(file *ast.File, packageName string, errorTypes map[string]bool) (err error) {
 	for _, d := range file.Decls {
 		if funcDecl, ok := d.(*ast.FuncDecl); ok {
diff --git a/typescript.go b/typescript.go
index 7fdf0d1..35a2da2 100644
--- a/typescript.go
+++ b/typescript.go
@@ -82,8 +82,13 @@ func (v *Value) tsType(mappings config.TypeScriptMappings, scalars map[string]*S
 	case v.Struct != nil:
 		// v.Struct.Value.tsType(mappings, ts)
 		ts.l("{").ind(1)
-		renderStructFields(v.Struct.Fields, mappings, scalars, structs, ts)
+		inlineStructs, inlineFields := splitInlineFields(v.Struct.InlineFields, structs)
+		renderStructFields(append(inlineFields, v.Struct.Fields...), mappings, scalars, structs, ts)
 		ts.ind(-1).app("}")
+		for _, inlineStruct := range inlineStructs {
+			ts.app(" & ")
+			renderInlineStruct(inlineStruct, mappings, scalars, structs, ts)
+		}
 		if v.IsPtr && (jsonInfo == nil || !jsonInfo.OmitEmpty) {
 			ts.app("|null")
 		}
@@ -179,6 +184,38 @@ func tsTypeFromScalarType(scalarType ScalarType) string {
 	return string(scalarType)
 }
 
+// splitInlineFields tells embedded structs, which are inlined, from other embedded types, which are fields
+func splitInlineFields(embedded []*Field, structs map[string]*Struct) (inlineStructs []*Field, fields []*Field) {
+	for _, f := range embedded {
+		var fullName string
+		switch {
+		case f.Value.Scalar != nil:
+			fullName = f.Value.Scalar.FullName()
+		case f.Value.StructType != nil:
+			fullName = f.Value.StructType.FullName()
+		}
+		name := f.Value.typeName()
+		if str := underlyingStruct(fullName, structs); str != nil && str.Array == nil && str.Map == nil {
+			if fullName != "time.Time" { // nothing of it is exported
+				inlineStructs = append(inlineStructs, f)
+			}
+		} else if ast.IsExported(name) {
+			fields = append(fields, &Field{Name: name, Value: f.Value, JSONInfo: f.JSONInfo})
+		}
+	}
+	return inlineStructs, fields
+}
+
+func renderInlineStruct(f *Field, mappings config.TypeScriptMappings, scalars map[string]*Scalar, structs map[string]*Struct, ts *code) {
+	if f.Value.IsPtr {
+		ts.app("Partial<")
+	}
+	f.Value.tsType(mappings, scalars, structs, ts, &JSONInfo{OmitEmpty: true})
+	if f.Value.IsPtr {
+		ts.app(">")
+	}
+}
+
 func renderStructFields(fields []*Field, mappings config.TypeScriptMappings, scalars map[string]*Scalar, structs map[string]*Struct, ts *code) {
 	for _, f := range fields {
 		if len(f.Name) == 0 {
@@ -268,24 +305,21 @@ func renderTypescriptStruct(str *Struct, mappings config.TypeScriptMappings, sca
 			return errors.New("could not resolve this union type")
 		}
 	case len(str.InlineFields) > 0:
-		ts.app("export interface " + str.Name + " extends ")
-		for i, inlineField := range str.InlineFields {
-			if i > 0 {
+		inlineStructs, inlineFields := splitInlineFields(str.InlineFields, structs)
+		ts.app("export interface " + str.Name + " ")
+		for i, inlineStruct := range inlineStructs {
+			if i == 0 {
+				ts.app("extends ")
+			} else {
 				ts.app(", ")
 			}
-			if inlineField.Value.IsPtr {
-				ts.app("Partial<")
-			}
-			inlineField.Value.tsType(mappings, scalars, structs, ts, &JSONInfo{OmitEmpty: true})
-			if inlineField.Value.IsPtr {
-				ts.app(">")
-			}
+			renderInlineStruct(inlineStruct, mappings, scalars, structs, ts)
 			ts.app(" ")
 		}
 		ts.app("{")
 		ts.nl()
 		ts.ind(1)
-		renderStructFields(str.Fields, mappings, scalars, structs, ts)
+		renderStructFields(append(inlineFields, str.Fields...), mappings, scalars, structs, ts)
 		ts.ind(-1).l("}")
 	default:
 		ts.l("export interface " + str.Name + " {").ind(1)
-- 
2.43.0


From f69f7d232765927c390ef2e5e664c96b7bb31972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:17 +0000
Subject: [PATCH 41/78] fix: codec tags, quoted tags and fields named - had
 other names in typescript than in json

---
 typereader.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/typereader.go b/typereader.go
index 845cf02..7432551 100644
--- a/typereader.go
+++ b/typereader.go
@@ -6,6 +6,7 @@ import (
 	"go/types"
 	"os"
 	"reflect"
+	"strconv"
 	"strings"
 
 	"gopkg.in/yaml.v2"
@@ -60,7 +61,11 @@ func traceData(args ...interface{}) {
 func extractJSONInfo(tag string) *JSONInfo {
 	structTag := reflect.StructTag(tag)
 
-	jsonTags := strings.Split(structTag.Get("json"), ",")
+	jsonTag := structTag.Get("codec")
+	if len(jsonTag) == 0 {
+		jsonTag = structTag.Get("json")
+	}
+	jsonTags := strings.Split(jsonTag, ",")
 	gotsrpcTags := strings.Split(structTag.Get("gotsrpc"), ",")
 	if len(jsonTags) == 0 && len(gotsrpcTags) == 0 {
 		return nil
@@ -85,7 +90,11 @@ func extractJSONInfo(tag string) *JSONInfo {
 		case "":
 			// do nothing
 		case "-":
-			ignore = true
+			if len(jsonTags) == 1 {
+				ignore = true
+			} else {
+				name = "-" // as in encoding/json
+			}
 		default:
 			name = jsonTags[0]
 		}
@@ -323,7 +332,9 @@ func readField(astField *ast.Field, fileImports fileImportSpecMap) (names []stri
 	v = &Value{}
 	v.loadExpr(astField.Type, fileImports)
 	if astField.Tag != nil {
-		jsonInfo = extractJSONInfo(astField.Tag.Value[1 : len(astField.Tag.Value)-1])
+		if tag, err := strconv.Unquote(astField.Tag.Value); err == nil {
+			jsonInfo = extractJSONInfo(tag)
+		}
 	}
 	return
 }
-- 
2.43.0


From 45c1674d11d53f948d4becc46f761d26ce84ed95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:47 +0000
Subject: [PATCH 42/78] fix: pointers to slices and maps were any in typescript
 and not supported as arguments

---
 typereader.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/typereader.go b/typereader.go
index 7432551..43d2f63 100644
--- a/typereader.go
+++ b/typereader.go
@@ -199,6 +199,8 @@ func readAstStarExpr(v *Value, starExpr *ast.StarExpr, fileImports fileImportSpe
 		readAstStructType(v, starExprType, fileImports)
 	case *ast.SelectorExpr:
 		readAstSelectorExpr(v, starExprType, fileImports)
+	case *ast.ArrayType, *ast.MapType:
+		v.loadExpr(starExprType, fileImports)
 	default:
 		trace("a pointer on what", reflect.ValueOf(starExpr.X).Type().String())
 	}
-- 
2.43.0


From f7acc62c98630d9b8ae3b62c24f4cd952fd0b21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:47 +0000
Subject: [PATCH 43/78] fix: fixed size arrays were declared nullable in
 typescript

---
 typescript.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/typescript.go b/typescript.go
index 35a2da2..ab7047d 100644
--- a/typescript.go
+++ b/typescript.go
@@ -42,7 +42,7 @@ func (v *Value) tsType(mappings config.TypeScriptMappings, scalars map[string]*S
 		}
 	case v.Array != nil:
 		v.Array.tsType(mappings, scalars, structs, ts)
-		if jsonInfo == nil || !jsonInfo.OmitEmpty {
+		if (v.IsPtr || len(v.Array.Len) == 0) && (jsonInfo == nil || !jsonInfo.OmitEmpty) {
 			ts.app("|null")
 		}
 	case v.Scalar != nil:
@@ -105,7 +105,7 @@ func (v *Value) tsType(mappings config.TypeScriptMappings, scalars map[string]*S
 // isNilable tells if the named type is a slice or map
 func isNilable(fullName string, structs map[string]*Struct) bool {
 	str := underlyingStruct(fullName, structs)
-	return str != nil && (str.Array != nil || str.Map != nil)
+	return str != nil && (str.Array != nil && len(str.Array.Len) == 0 || str.Map != nil)
 }
 
 // underlyingStruct returns the struct, slice or map a named type is defined as, if it is one
-- 
2.43.0


From 31b94210621fc5dfb55809d4dd7b88ee7bc532a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:23 +0000
Subject: [PATCH 44/78] fix: structs and arrays of nothing but a nil pointer or
 map were sent as null to typescript clients

---
 transport.go | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/transport.go b/transport.go
index f0121ca..7be51f8 100644
--- a/transport.go
+++ b/transport.go
@@ -95,17 +95,17 @@ func init() {
 var jsonClientHandle = &clientHandle{
 	handle:           &codec.JsonHandle{},
 	contentType:      "application/json; charset=utf-8",
-	beforeEncodeArgs: withTimeExt,
+	beforeEncodeArgs: withPointers,
 	beforeEncodeReply: func(resp *[]interface{}) error {
-		*resp = withTimeExt(*resp)
+		*resp = withPointers(*resp)
 		return nil
 	},
 }
 
-// withTimeExt lets the encoder apply the time extension to the given values: it
+// withPointers lets the encoder apply the time extension to the given values: it
 // treats a bare time.Time or *time.Time in an interface as builtin regardless
 // of its handle, but not when there is a further pointer.
-func withTimeExt(values []interface{}) []interface{} {
+func withPointers(values []interface{}) []interface{} {
 	ret := make([]interface{}, len(values))
 	for k, v := range values {
 		switch t := v.(type) {
@@ -116,11 +116,30 @@ func withTimeExt(values []interface{}) []interface{} {
 			ret[k] = &t
 		default:
 			ret[k] = v
+			if rv := reflect.ValueOf(v); v != nil && isPointerShaped(rv.Type()) {
+				p := reflect.New(rv.Type())
+				p.Elem().Set(rv)
+				ret[k] = p.Interface()
+			}
 		}
 	}
 	return ret
 }
 
+// isPointerShaped tells structs and arrays of nothing but a pointer or map: the
+// encoder takes them for nil if the latter is and they are in an interface.
+func isPointerShaped(t reflect.Type) bool {
+	switch {
+	case t.Kind() == reflect.Struct && t.NumField() == 1:
+		t = t.Field(0).Type
+	case t.Kind() == reflect.Array && t.Len() == 1:
+		t = t.Elem()
+	default:
+		return false
+	}
+	return t.Kind() == reflect.Ptr || t.Kind() == reflect.Map || isPointerShaped(t)
+}
+
 func NewMSGPackEncoderBytes(b *[]byte) *codec.Encoder {
 	return codec.NewEncoderBytes(b, msgpackClientHandle.handle)
 }
-- 
2.43.0


From 67e6bd38e3739f1c1096185863e922057e56436e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:30 +0000
Subject: [PATCH 45/78] fix: numbers written in go's ways, blank constants and
 same names of enum members made invalid typescript, byte types were any

---
 servicereader.go | 26 +++++++++++++++++---------
 typescript.go    | 31 ++++++++++++++++++++++++++-----
 2 files changed, 43 insertions(+), 14 deletions(-)

diff --git a/servicereader.go b/servicereader.go
index e1401d3..059b939 100644
--- a/servicereader.go
+++ b/servicereader.go
@@ -5,8 +5,10 @@ import (
 	"errors"
 	"fmt"
 	"go/ast"
+	"go/constant"
 	"go/token"
 	"reflect"
+	"regexp"
 	"sort"
 	"strconv"
 	"strings"
@@ -207,6 +209,9 @@ func readServicesInPackage(pkg *ast.Package, packageName string, serviceMap map[
 	return
 }
 
+// tsNumber is a number literal that means the same in go and in typescript
+var tsNumber = regexp.MustCompile(`^(0[xX][0-9a-fA-F](_?[0-9a-fA-F])*|0[oO][0-7](_?[0-7])*|0[bB][01](_?[01])*|(0|[1-9](_?[0-9])*)?(\.([0-9](_?[0-9])*)?)?([eE][+-]?[0-9](_?[0-9])*)?)$`)
+
 // readConstantLiteral returns a possibly negative literal as typescript understands it
 func readConstantLiteral(expr ast.Expr) (*ast.BasicLit, bool) {
 	switch e := expr.(type) {
@@ -217,10 +222,15 @@ func readConstantLiteral(expr ast.Expr) (*ast.BasicLit, bool) {
 			if char, _, _, err := strconv.UnquoteChar(e.Value[1:], '\''); err == nil {
 				lit.Value = strconv.Itoa(int(char))
 			}
-		case token.INT:
-			// octals like 0755
-			if digits := strings.TrimLeft(e.Value, "0_"); len(digits) > 0 && len(digits) < len(e.Value) && digits[0] >= '1' && digits[0] <= '7' {
-				lit.Value = "0o" + digits
+		case token.INT, token.FLOAT:
+			// e.g. octals like 0755, 0x_ff, hexadecimal floats and 00.5
+			if !tsNumber.MatchString(e.Value) {
+				value := constant.MakeFromLiteral(e.Value, e.Kind, 0)
+				if e.Kind == token.INT {
+					lit.Value = value.ExactString()
+				} else if float, _ := constant.Float64Val(value); value.Kind() != constant.Unknown {
+					lit.Value = strconv.FormatFloat(float, 'g', -1, 64)
+				}
 			}
 		case token.STRING:
 			// typescript does not know all of go's escapes and interprets some in raw strings
@@ -234,7 +244,7 @@ func readConstantLiteral(expr ast.Expr) (*ast.BasicLit, bool) {
 	case *ast.UnaryExpr:
 		if e.Op == token.SUB {
 			if lit, ok := readConstantLiteral(e.X); ok {
-				lit.Value = "-" + lit.Value
+				lit.Value = strings.TrimPrefix("-"+lit.Value, "--")
 				return lit, true
 			}
 		}
@@ -260,15 +270,13 @@ func loadConstantTypes(pkg *ast.Package) map[string]interface{} {
 								constantTypes[spec.Name.Name] = "any"
 							case *ast.Ident:
 								switch specType.Name {
-								case "byte":
-									constantTypes[spec.Name.Name] = "any"
 								case "string":
 									constantTypes[spec.Name.Name] = "string"
 								case "bool":
 									constantTypes[spec.Name.Name] = "boolean"
 								case "float", "float32", "float64",
 									"rune", "int", "int8", "int16", "int32", "int64",
-									"uint", "uint8", "uint16", "uint32", "uint64", "uintptr":
+									"uint", "uint8", "uint16", "uint32", "uint64", "uintptr", "byte":
 									constantTypes[spec.Name.Name] = "number"
 								default:
 									trace("unhandled type", reflect.ValueOf(spec.Type).Type().String())
@@ -284,7 +292,7 @@ func loadConstantTypes(pkg *ast.Package) map[string]interface{} {
 						if spec, ok := spec.(*ast.ValueSpec); ok {
 							if specType, ok := spec.Type.(*ast.Ident); ok {
 								for i, val := range spec.Values {
-									if valType, ok := readConstantLiteral(val); ok {
+									if valType, ok := readConstantLiteral(val); ok && spec.Names[i].Name != "_" {
 										if _, ok := constantTypes[specType.Name]; !ok {
 											constantTypes[specType.Name] = map[string]*ast.BasicLit{}
 										} else if _, ok := constantTypes[specType.Name].(map[string]*ast.BasicLit); !ok {
diff --git a/typescript.go b/typescript.go
index ab7047d..3bdb266 100644
--- a/typescript.go
+++ b/typescript.go
@@ -374,13 +374,10 @@ func renderTypescriptStructsToPackages(
 						keys = append(keys, k)
 					}
 					sort.Strings(keys)
+					enums := enumNames(packageConstantTypeName, keys)
 					packageCodeMap[packageConstantTypeName].l("export enum " + packageConstantTypeName + " {").ind(1)
 					for _, k := range keys {
-						enum := strings.TrimPrefix(strcase.ToCamel(k), packageConstantTypeName)
-						if !tsIdentifier.MatchString(enum) {
-							enum = k // e.g. nothing or a number is left
-						}
-						packageCodeMap[packageConstantTypeName].l(enum + " = " + packageConstantTypeValuesList[k].Value + ",")
+						packageCodeMap[packageConstantTypeName].l(enums[k] + " = " + packageConstantTypeValuesList[k].Value + ",")
 					}
 					packageCodeMap[packageConstantTypeName].ind(-1).l("}")
 				} else if packageConstantTypeValuesString, ok := packageConstantTypeValues.(string); ok {
@@ -404,6 +401,30 @@ func renderTypescriptStructsToPackages(
 	return nil
 }
 
+// enumNames returns the names of an enums members by the names of their constants
+func enumNames(typeName string, constants []string) map[string]string {
+	names := make(map[string]string, len(constants))
+	for _, k := range constants {
+		names[k] = strings.TrimPrefix(strcase.ToCamel(k), typeName)
+		if !tsIdentifier.MatchString(names[k]) {
+			names[k] = k // e.g. nothing or a number is left
+		}
+	}
+	for unique := false; !unique; {
+		unique = true
+		count := map[string]int{}
+		for _, name := range names {
+			count[name]++
+		}
+		for k, name := range names {
+			if name != k && count[name] > 1 {
+				names[k], unique = k, false
+			}
+		}
+	}
+	return names
+}
+
 func split(str string, seps []string) []string {
 	var res []string
 	strs := []string{str}
-- 
2.43.0


From 11e92f17c1240f6790522069527183e9bd24f0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:53 +0000
Subject: [PATCH 46/78] fix: go.mod was not read when the module's path is
 absolute

---
 config/config.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/config/config.go b/config/config.go
index da9c0d9..e8c5db0 100644
--- a/config/config.go
+++ b/config/config.go
@@ -79,12 +79,15 @@ func LoadConfigFile(file string) (conf *Config, err error) {
 		return nil, err
 	}
 
-	if conf.Module.Path != "" && !path.IsAbs(conf.Module.Path) {
-		absPath, err := filepath.Abs(filepath.Join(filepath.Dir(file), conf.Module.Path))
-		if err != nil {
-			return nil, err
+	if conf.Module.Path != "" {
+		absPath := conf.Module.Path
+		if !path.IsAbs(absPath) {
+			absPath, err = filepath.Abs(filepath.Join(filepath.Dir(file), conf.Module.Path))
+			if err != nil {
+				return nil, err
+			}
+			conf.Module.Path = absPath
 		}
-		conf.Module.Path = absPath
 
 		if data, err := os.ReadFile(path.Join(absPath, "go.mod")); err != nil && !os.IsNotExist(err) {
 			return nil, err
-- 
2.43.0


From 3d0710bb9178f40e428c31f95201e5f7396bc0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:09 +0000
Subject: [PATCH 47/78] fix: files that are not part of the build were read, so
 that their types replaced others at random

---
 gotsrpc.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/gotsrpc.go b/gotsrpc.go
index 4b97a3b..9dd48fb 100644
--- a/gotsrpc.go
+++ b/gotsrpc.go
@@ -6,6 +6,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"go/ast"
+	"go/build"
 	"go/parser"
 	"go/token"
 	"net/http"
@@ -138,15 +139,22 @@ func Reply(response []interface{}, stats *CallStats, r *http.Request, w http.Res
 	return nil
 }
 
-func parserExcludeFiles(info os.FileInfo) bool {
-	return !strings.HasSuffix(info.Name(), "_test.go")
+// parserIncludeFiles excludes tests and what is meant for other systems
+func parserIncludeFiles(dir string) func(info os.FileInfo) bool {
+	return func(info os.FileInfo) bool {
+		if strings.HasSuffix(info.Name(), "_test.go") {
+			return false
+		}
+		match, err := build.Default.MatchFile(dir, info.Name())
+		return match || err != nil // leave it to the parser to complain
+	}
 }
 
 func parseDir(goPaths []string, gomod config.Namespace, packageName string) (map[string]*ast.Package, *token.FileSet, error) {
 	if gomod.Contains(packageName) {
 		fset := token.NewFileSet()
 		dir := strings.Replace(packageName, gomod.Name, gomod.Path, 1)
-		pkgs, err := parser.ParseDir(fset, dir, parserExcludeFiles, parser.DeclarationErrors|parser.AllErrors)
+		pkgs, err := parser.ParseDir(fset, dir, parserIncludeFiles(dir), parser.DeclarationErrors|parser.AllErrors)
 		return pkgs, fset, err
 	}
 
@@ -184,7 +192,7 @@ func parseDir(goPaths []string, gomod config.Namespace, packageName string) (map
 				dir = path.Join(goPath, "src", packageName)
 			}
 		}
-		pkgs, err := parser.ParseDir(fset, dir, parserExcludeFiles, parser.AllErrors)
+		pkgs, err := parser.ParseDir(fset, dir, parserIncludeFiles(dir), parser.AllErrors)
 		if err == nil {
 			return pkgs, fset, nil
 		}
-- 
2.43.0


From 460d1a4c420d9dc276fe444a88942eed2cd0bfd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:17 +0000
Subject: [PATCH 48/78] fix: modules were not looked up where go finds them:
 longest paths first, replacements of versions and by absolute paths, escaped
 paths, GOMODCACHE

---
 gotsrpc.go | 130 +++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 92 insertions(+), 38 deletions(-)

diff --git a/gotsrpc.go b/gotsrpc.go
index 9dd48fb..c0393d5 100644
--- a/gotsrpc.go
+++ b/gotsrpc.go
@@ -21,6 +21,8 @@ import (
 
 	"github.com/pkg/errors"
 	"github.com/ugorji/go/codec"
+	"golang.org/x/mod/modfile"
+	"golang.org/x/mod/module"
 
 	"github.com/foomo/gotsrpc/v2/config"
 )
@@ -150,51 +152,103 @@ func parserIncludeFiles(dir string) func(info os.FileInfo) bool {
 	}
 }
 
-func parseDir(goPaths []string, gomod config.Namespace, packageName string) (map[string]*ast.Package, *token.FileSet, error) {
-	if gomod.Contains(packageName) {
-		fset := token.NewFileSet()
-		dir := strings.Replace(packageName, gomod.Name, gomod.Path, 1)
-		pkgs, err := parser.ParseDir(fset, dir, parserIncludeFiles(dir), parser.DeclarationErrors|parser.AllErrors)
-		return pkgs, fset, err
+// moduleVersion returns what is used instead of a version of a module
+func moduleVersion(modFile *modfile.File, modulePath, version string) module.Version {
+	used := module.Version{Path: modulePath, Version: version}
+	for _, rep := range modFile.Replace {
+		if rep.Old.Path == modulePath {
+			if rep.Old.Version == version {
+				return rep.New
+			} else if rep.Old.Version == "" {
+				used = rep.New
+			}
+		}
 	}
+	return used
+}
 
-	errorStrings := map[string]string{}
+// moduleDirs returns the directories a module may be in
+func moduleDirs(goPaths []string, gomod config.Namespace, mod module.Version) (dirs []string) {
+	if mod.Version == "" {
+		if filepath.IsAbs(mod.Path) {
+			return []string{mod.Path}
+		}
+		return []string{filepath.Join(gomod.Path, mod.Path)}
+	}
+	escapedPath, err := module.EscapePath(mod.Path)
+	if err != nil {
+		return nil
+	}
+	escapedVersion, err := module.EscapeVersion(mod.Version)
+	if err != nil {
+		return nil
+	}
+	if modCache := os.Getenv("GOMODCACHE"); modCache != "" {
+		return []string{filepath.Join(modCache, escapedPath+"@"+escapedVersion)}
+	}
 	for _, goPath := range goPaths {
-		var dir string
-		fset := token.NewFileSet()
-		if gomod.ModFile != nil {
-			for _, rep := range gomod.ModFile.Replace {
-				if packageName == rep.Old.Path || strings.HasPrefix(packageName, rep.Old.Path+"/") {
-					if strings.HasPrefix(rep.New.String(), ".") || strings.HasPrefix(rep.New.Path, "/") {
-						trace("replacing package with local dir", packageName, rep.Old.String(), rep.New.String())
-						dir = strings.Replace(packageName, rep.Old.Path, filepath.Join(gomod.Path, rep.New.Path), 1)
-					} else {
-						trace("replacing package", packageName, rep.Old.String(), rep.New.String())
-						dir = strings.TrimSuffix(path.Join(goPath, "pkg", "mod", rep.New.String(), strings.TrimPrefix(packageName, rep.Old.Path)), "/")
-					}
-					break
-				}
-			}
-			if dir == "" {
-				for _, req := range gomod.ModFile.Require {
-					if packageName == req.Mod.Path || strings.HasPrefix(packageName, req.Mod.Path+"/") {
-						trace("resolving mod package", packageName, req.Mod.String())
-						dir = strings.TrimSuffix(path.Join(goPath, "pkg", "mod", req.Mod.String(), strings.TrimPrefix(packageName, req.Mod.Path)), "/")
-						break
-					}
-				}
-			}
+		dirs = append(dirs, filepath.Join(goPath, "pkg", "mod", escapedPath+"@"+escapedVersion))
+	}
+	return dirs
+}
+
+// packageDirs returns the directories a package may be in in the order they are to be tried
+func packageDirs(goPaths []string, gomod config.Namespace, packageName string) (dirs []string) {
+	modules := map[string][]string{}
+	if gomod.Contains(packageName) {
+		modules[gomod.Name] = []string{gomod.Path}
+	}
+	if gomod.ModFile != nil {
+		versions := map[string]string{}
+		for _, rep := range gomod.ModFile.Replace {
+			versions[rep.Old.Path] = rep.Old.Version
 		}
-		if dir == "" {
-			if strings.HasSuffix(goPath, "vendor") {
-				dir = path.Join(goPath, packageName)
-			} else {
-				dir = path.Join(goPath, "src", packageName)
+		for _, req := range gomod.ModFile.Require {
+			versions[req.Mod.Path] = req.Mod.Version
+		}
+		for modulePath, version := range versions {
+			if modulePath != gomod.Name && (config.Namespace{Name: modulePath}).Contains(packageName) {
+				mod := moduleVersion(gomod.ModFile, modulePath, version)
+				trace("resolving mod package", packageName, modulePath, mod.String())
+				modules[modulePath] = moduleDirs(goPaths, gomod, mod)
 			}
 		}
-		pkgs, err := parser.ParseDir(fset, dir, parserIncludeFiles(dir), parser.AllErrors)
-		if err == nil {
+	}
+	for _, goPath := range goPaths {
+		if strings.HasSuffix(goPath, "vendor") {
+			dirs = append(dirs, path.Join(goPath, packageName))
+		} else if len(modules) == 0 {
+			dirs = append(dirs, path.Join(goPath, "src", packageName))
+		}
+	}
+	modulePaths := make([]string, 0, len(modules))
+	for modulePath := range modules {
+		modulePaths = append(modulePaths, modulePath)
+	}
+	sort.Sort(byLen(modulePaths))
+	for _, modulePath := range modulePaths {
+		for _, moduleDir := range modules[modulePath] {
+			dirs = append(dirs, filepath.Join(moduleDir, strings.TrimPrefix(packageName, modulePath)))
+		}
+	}
+	return dirs
+}
+
+func parseDir(goPaths []string, gomod config.Namespace, packageName string) (map[string]*ast.Package, *token.FileSet, error) {
+	mode := parser.AllErrors
+	if gomod.Contains(packageName) {
+		mode |= parser.DeclarationErrors
+	}
+	errorStrings := map[string]string{}
+	for _, dir := range packageDirs(goPaths, gomod, packageName) {
+		fset := token.NewFileSet()
+		pkgs, err := parser.ParseDir(fset, dir, parserIncludeFiles(dir), mode)
+		if err == nil && len(pkgs) > 0 {
 			return pkgs, fset, nil
+		} else if err == nil {
+			err = errors.New("no go files")
+		} else if !os.IsNotExist(err) {
+			return nil, nil, err
 		}
 		errorStrings[dir] = err.Error()
 	}
-- 
2.43.0


From c7361355c8fd6b0922d8d960debead25fbec98b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:17 +0000
Subject: [PATCH 49/78] fix: several GOPATHs and a module's vendor directory
 were not searched, GOROOT not before them

---
 build.go | 41 ++++++++++++++++++++++++++++++++---------
 1 file changed, 32 insertions(+), 9 deletions(-)

diff --git a/build.go b/build.go
index 95793c7..f6d18be 100644
--- a/build.go
+++ b/build.go
@@ -70,10 +70,40 @@ func getPathForTarget(gomod config.Namespace, goPath string, target *config.Targ
 		relative := strings.TrimPrefix(target.Package, gomod.Name)
 		return path.Join(gomod.Path, relative)
 	} else {
-		return path.Join(goPath, "src", target.Package)
+		for i, dir := range filepath.SplitList(goPath) {
+			srcPath := path.Join(dir, "src", target.Package)
+			_, err := os.Stat(srcPath)
+			if i == 0 || err == nil {
+				outputPath = srcPath
+			}
+			if err == nil {
+				break
+			}
+		}
+		return outputPath
 	}
 }
 
+// packagePaths returns where packages are looked up in go's order
+func packagePaths(gomod config.Namespace, goPath string) (goPaths []string, err error) {
+	workDirectory, err := os.Getwd()
+	if err != nil {
+		return nil, err
+	}
+	directories := []string{workDirectory}
+	if gomod.Path != "" && gomod.Path != workDirectory {
+		directories = append(directories, gomod.Path)
+	}
+	for _, directory := range directories {
+		vendorDirectory := path.Join(directory, "vendor")
+		if _, err := os.Stat(vendorDirectory); !os.IsNotExist(err) {
+			goPaths = append(goPaths, vendorDirectory)
+		}
+	}
+	goPaths = append(goPaths, runtime.GOROOT())
+	return append(goPaths, filepath.SplitList(goPath)...), nil
+}
+
 func Build(conf *config.Config, goPath string) { //nolint:maintidx
 	deriveCommonJSMapping(conf)
 
@@ -124,18 +154,11 @@ func Build(conf *config.Config, goPath string) { //nolint:maintidx
 		remove(goTSRPCProxiesFilename)
 		remove(goTSRPCClientsFilename)
 
-		workDirectory, err := os.Getwd()
+		goPaths, err := packagePaths(conf.Module, goPath)
 		if err != nil {
 			_, _ = fmt.Fprintln(os.Stderr, err)
 			os.Exit(1)
 		}
-		vendorDirectory := path.Join(workDirectory, "vendor")
-
-		goPaths := []string{goPath, runtime.GOROOT()}
-
-		if _, err := os.Stat(vendorDirectory); !os.IsNotExist(err) {
-			goPaths = append(goPaths, vendorDirectory)
-		}
 
 		pkgName, services, structs, scalars, constantTypes, err := Read(goPaths, conf.Module, packageName, target.Services, missingTypes, missingConstants)
 		if err != nil {
-- 
2.43.0


From 2f6c470211a6ede9a607f72ab5a1e293d12ef546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:27 +0000
Subject: [PATCH 50/78] fix: packages with other names than their directories
 were not found when imported without an alias

---
 gotsrpc.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/gotsrpc.go b/gotsrpc.go
index c0393d5..0d0d76a 100644
--- a/gotsrpc.go
+++ b/gotsrpc.go
@@ -255,6 +255,23 @@ func parseDir(goPaths []string, gomod config.Namespace, packageName string) (map
 	return nil, nil, errors.New("could not parse dir for package name: " + packageName + " in goPaths " + strings.Join(goPaths, ", ") + " : " + fmt.Sprint(errorStrings))
 }
 
+// readPackageName returns the name in a package's clause or nothing if there is no such package
+func readPackageName(goPaths []string, gomod config.Namespace, packageName string) string {
+	for _, dir := range packageDirs(goPaths, gomod, packageName) {
+		include := parserIncludeFiles(dir)
+		entries, _ := os.ReadDir(dir)
+		for _, entry := range entries {
+			if info, err := entry.Info(); err == nil && strings.HasSuffix(entry.Name(), ".go") && include(info) {
+				file, err := parser.ParseFile(token.NewFileSet(), filepath.Join(dir, entry.Name()), nil, parser.PackageClauseOnly)
+				if err == nil {
+					return file.Name.Name
+				}
+			}
+		}
+	}
+	return ""
+}
+
 type byLen []string
 
 func (a byLen) Len() int {
@@ -335,6 +352,17 @@ Loop:
 		return nil, errors.New("package \"" + packageName + "\" not found in " + strings.Join(foundPackages, ", ") + " looking in go paths" + strings.Join(goPaths, ", "))
 	}
 
+	// packages may have other names than their directories
+	for _, file := range parsedPkg.Files {
+		for _, spec := range file.Imports {
+			if importPath, err := strconv.Unquote(spec.Path.Value); err == nil && spec.Name == nil {
+				if name := readPackageName(goPaths, gomod, importPath); name != "" && name != standardImportName(importPath) {
+					spec.Name = ast.NewIdent(name)
+				}
+			}
+		}
+	}
+
 	// create new package with resolved objects
 	resolvedPkg, _ := ast.NewPackage(fset, parsedPkg.Files, nil, nil) // ignore error
 	return resolvedPkg, nil
-- 
2.43.0


From 866ac3512031daa162f33e41765592c71e20f06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:29 +0000
Subject: [PATCH 51/78] fix: unexported methods of interfaces became endpoints

---
 servicereader.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/servicereader.go b/servicereader.go
index 059b939..56bf3f6 100644
--- a/servicereader.go
+++ b/servicereader.go
@@ -77,6 +77,10 @@ func readServiceFile(file *ast.File, packageName string, services ServiceList) e
 										continue
 									}
 									mname := fieldDecl.Names[0]
+									if !mname.IsExported() {
+										// skip this method
+										continue
+									}
 									trace(" on sth:", mname.Name)
 									// fmt.Println("interface:", ident.Name, "method:", mname.Name)
 									service.Methods = append(service.Methods, &Method{
-- 
2.43.0


From b3d501aa0c4040bfbc9c0245dfeeb3097021fdb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:29 +0000
Subject: [PATCH 52/78] fix: scalars listed in mappings of packages with no
 other types in use were not found

---
 servicereader.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/servicereader.go b/servicereader.go
index 56bf3f6..970c793 100644
--- a/servicereader.go
+++ b/servicereader.go
@@ -397,6 +397,18 @@ func Read(
 		}
 	}
 
+	for fullName := range missingConstants {
+		constantPackage := fullName[:max(strings.LastIndex(fullName, "."), 0)]
+		if _, ok := allConstantTypes[constantPackage]; !ok {
+			if pkg, constPkgErr := parsePackage(goPaths, gomod, constantPackage); constPkgErr != nil {
+				err = constPkgErr
+				return
+			} else {
+				allConstantTypes[constantPackage] = loadConstantTypes(pkg)
+			}
+		}
+	}
+
 	flatStructs := map[string]bool{}
 	for _, s := range structs {
 		loadFlatStructs(s, flatStructs)
-- 
2.43.0


From 8bf20b95fa4f8079368819caa6216f58fc7d5fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:29 +0000
Subject: [PATCH 53/78] fix: types listed in mappings and those of other
 targets were lost when an earlier target has no typescript

---
 build.go | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/build.go b/build.go
index f6d18be..3eb10c6 100644
--- a/build.go
+++ b/build.go
@@ -116,20 +116,6 @@ func Build(conf *config.Config, goPath string) { //nolint:maintidx
 	}
 	sort.Strings(names)
 
-	missingTypes := map[string]bool{}
-	for _, mapping := range conf.Mappings {
-		for _, include := range mapping.Structs {
-			missingTypes[include] = true
-		}
-	}
-
-	missingConstants := map[string]bool{}
-	for _, mapping := range conf.Mappings {
-		for _, include := range mapping.Scalars {
-			missingConstants[include] = true
-		}
-	}
-
 	for _, name := range names {
 		target := conf.Targets[name]
 
@@ -154,6 +140,20 @@ func Build(conf *config.Config, goPath string) { //nolint:maintidx
 		remove(goTSRPCProxiesFilename)
 		remove(goTSRPCClientsFilename)
 
+		missingTypes := map[string]bool{}
+		for _, mapping := range conf.Mappings {
+			for _, include := range mapping.Structs {
+				missingTypes[include] = true
+			}
+		}
+
+		missingConstants := map[string]bool{}
+		for _, mapping := range conf.Mappings {
+			for _, include := range mapping.Scalars {
+				missingConstants[include] = true
+			}
+		}
+
 		goPaths, err := packagePaths(conf.Module, goPath)
 		if err != nil {
 			_, _ = fmt.Fprintln(os.Stderr, err)
-- 
2.43.0


From e630b474e940a6b72cba51be3320f26d1a64b95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:34 +0000
Subject: [PATCH 54/78] fix: a target removed what an earlier target of the
 same package generated

---
 build.go | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/build.go b/build.go
index 3eb10c6..dca0a63 100644
--- a/build.go
+++ b/build.go
@@ -116,6 +116,22 @@ func Build(conf *config.Config, goPath string) { //nolint:maintidx
 	}
 	sort.Strings(names)
 
+	// remove all generated code first, because targets may be of the same package
+	remove := func(filename string) {
+		_, err := os.Stat(filename)
+		if err == nil {
+			_, _ = fmt.Fprintln(os.Stderr, "	removing existing", filename)
+			os.Remove(filename)
+		}
+	}
+	for _, name := range names {
+		outputPath := getPathForTarget(conf.Module, goPath, conf.Targets[name])
+		remove(path.Join(outputPath, "gorpc_gen.go"))
+		remove(path.Join(outputPath, "gorpcclient_gen.go"))
+		remove(path.Join(outputPath, "gotsrpc_gen.go"))
+		remove(path.Join(outputPath, "gotsrpcclient_gen.go"))
+	}
+
 	for _, name := range names {
 		target := conf.Targets[name]
 
@@ -128,18 +144,6 @@ func Build(conf *config.Config, goPath string) { //nolint:maintidx
 		goTSRPCProxiesFilename := path.Join(outputPath, "gotsrpc_gen.go")
 		goTSRPCClientsFilename := path.Join(outputPath, "gotsrpcclient_gen.go")
 
-		remove := func(filename string) {
-			_, err := os.Stat(filename)
-			if err == nil {
-				_, _ = fmt.Fprintln(os.Stderr, "	removing existing", filename)
-				os.Remove(filename)
-			}
-		}
-		remove(goRPCProxiesFilename)
-		remove(goRPCClientsFilename)
-		remove(goTSRPCProxiesFilename)
-		remove(goTSRPCClientsFilename)
-
 		missingTypes := map[string]bool{}
 		for _, mapping := range conf.Mappings {
 			for _, include := range mapping.Structs {
-- 
2.43.0


From d478165ec86fdf917ca3faf9a2df561691f99832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:19 +0000
Subject: [PATCH 55/78] fix: no or wrong imports between typescript files of
 relative, absolute and home paths

---
 build.go | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/build.go b/build.go
index dca0a63..02e82f1 100644
--- a/build.go
+++ b/build.go
@@ -35,6 +35,12 @@ func deriveCommonJSMapping(conf *config.Config) {
 }
 
 func relativeFilePath(a, b string) (r string, e error) {
+	if a, e = absoluteFilePath(a); e != nil {
+		return
+	}
+	if b, e = absoluteFilePath(b); e != nil {
+		return
+	}
 	r, e = filepath.Rel(path.Dir(a), b)
 	if e != nil {
 		return
@@ -43,6 +49,25 @@ func relativeFilePath(a, b string) (r string, e error) {
 	return
 }
 
+func expandHome(file string) (string, error) {
+	if len(file) > 0 && file[0] == '~' {
+		home := os.Getenv("HOME")
+		if len(home) == 0 {
+			return "", errors.New("could not resolve home dir")
+		}
+		file = path.Join(home, file[1:])
+	}
+	return file, nil
+}
+
+func absoluteFilePath(file string) (string, error) {
+	file, err := expandHome(file)
+	if err != nil {
+		return "", err
+	}
+	return filepath.Abs(file)
+}
+
 func commonJSImports(conf *config.Config, c *code, tsFilename string, code string) {
 	packageNames := make([]string, 0, len(conf.Mappings))
 	for packageName := range conf.Mappings {
@@ -319,14 +344,9 @@ func Build(conf *config.Config, goPath string) { //nolint:maintidx
 }
 
 func updateCode(file string, code string) error {
-	if len(file) > 0 {
-		if file[0] == '~' {
-			home := os.Getenv("HOME")
-			if len(home) == 0 {
-				return errors.New("could not resolve home dir")
-			}
-			file = path.Join(home, file[1:])
-		}
+	file, errHome := expandHome(file)
+	if errHome != nil {
+		return errHome
 	}
 	errMkdirAll := os.MkdirAll(path.Dir(file), 0755)
 	if errMkdirAll != nil {
-- 
2.43.0


From af4e9423358ad0c25c47661ba51f53bcd53a22cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:52 +0000
Subject: [PATCH 56/78] fix: unexported methods and fields with names that are
 not ascii were taken for exported ones

---
 servicereader.go | 3 +--
 typereader.go    | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/servicereader.go b/servicereader.go
index 970c793..5c27b68 100644
--- a/servicereader.go
+++ b/servicereader.go
@@ -41,8 +41,7 @@ func readServiceFile(file *ast.File, packageName string, services ServiceList) e
 					if starExpr, ok := firstReceiverField.Type.(*ast.StarExpr); ok {
 						if ident, ok := starExpr.X.(*ast.Ident); ok {
 							service, ok := findService(ident.Name)
-							firstCharOfMethodName := funcDecl.Name.Name[0:1]
-							if !ok || strings.ToLower(firstCharOfMethodName) == firstCharOfMethodName {
+							if !ok || !funcDecl.Name.IsExported() {
 								// skip this method
 								continue
 							}
diff --git a/typereader.go b/typereader.go
index 43d2f63..917be34 100644
--- a/typereader.go
+++ b/typereader.go
@@ -360,8 +360,7 @@ func readFieldList(fieldList []*ast.Field, fileImports fileImportSpecMap) (field
 					}
 					name = value.typeName()
 				}
-				if strings.Compare(strings.ToLower(name[:1]), name[:1]) == 0 {
-					// this is not unicode proof
+				if !ast.IsExported(name) {
 					continue
 				} else if jsonInfo != nil && jsonInfo.Union {
 					unionFields = append(unionFields, &Field{
-- 
2.43.0


From f2586178b9fd8a1926e596beeb7aa75bf98345c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:53 +0000
Subject: [PATCH 57/78] fix: empty targets and mappings in the configuration
 crashed the generator

---
 config/config.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/config/config.go b/config/config.go
index e8c5db0..4625c7a 100644
--- a/config/config.go
+++ b/config/config.go
@@ -109,7 +109,15 @@ func loadConfig(yamlBytes []byte) (conf *Config, err error) {
 		err = errors.New("could not parse yaml: " + yamlErr.Error())
 		return
 	}
+	for name, target := range conf.Targets {
+		if target == nil {
+			return nil, errors.New("target " + name + " is empty")
+		}
+	}
 	for goPackage, mapping := range conf.Mappings {
+		if mapping == nil {
+			return nil, errors.New("mapping " + goPackage + " is empty")
+		}
 		mapping.GoPackage = goPackage
 	}
 	return
-- 
2.43.0


From 386b1b51b99d5daa13c44018c95049bb3d6eb692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:55 +0000
Subject: [PATCH 58/78] fix: messages did not name unions that are not
 supported

---
 typescript.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/typescript.go b/typescript.go
index 3bdb266..649300f 100644
--- a/typescript.go
+++ b/typescript.go
@@ -266,7 +266,7 @@ func renderTypescriptStruct(str *Struct, mappings config.TypeScriptMappings, sca
 	// special handling of inline only structs
 	case len(str.UnionFields) > 0:
 		if len(str.Fields) > 0 || len(str.InlineFields) > 0 {
-			return errors.New("no fields or inline fields are supported when using union")
+			return errors.New("no fields or inline fields are supported when using union: " + str.FullName())
 		}
 		first := str.UnionFields[0].Value
 		switch {
@@ -302,7 +302,7 @@ func renderTypescriptStruct(str *Struct, mappings config.TypeScriptMappings, sca
 			ts.app("export type " + str.Name + " = typeof " + str.Name)
 			ts.nl()
 		default:
-			return errors.New("could not resolve this union type")
+			return errors.New("could not resolve this union type: " + str.FullName())
 		}
 	case len(str.InlineFields) > 0:
 		inlineStructs, inlineFields := splitInlineFields(str.InlineFields, structs)
-- 
2.43.0


From e2a6faf008f9e1df20e182c22d77d228db48af81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:57 +0000
Subject: [PATCH 59/78] fix: the generator succeeded without writing the types
 of a mapping

---
 build.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/build.go b/build.go
index 02e82f1..1214a61 100644
--- a/build.go
+++ b/build.go
@@ -297,7 +297,13 @@ func Build(conf *config.Config, goPath string) { //nolint:maintidx
 		}
 	}
 
-	for goPackage, mappedStructsMap := range mappedTypeScript {
+	goPackages := make([]string, 0, len(mappedTypeScript))
+	for goPackage := range mappedTypeScript {
+		goPackages = append(goPackages, goPackage)
+	}
+	sort.Strings(goPackages)
+	for _, goPackage := range goPackages {
+		mappedStructsMap := mappedTypeScript[goPackage]
 		mapping, ok := conf.Mappings[goPackage]
 		if !ok {
 			_, _ = fmt.Fprintln(os.Stderr, "reverse mapping error in struct generation for package", goPackage)
@@ -338,7 +344,8 @@ func Build(conf *config.Config, goPath string) { //nolint:maintidx
 
 		updateErr := updateCode(mapping.Out, getTSHeaderComment()+ts)
 		if updateErr != nil {
-			_, _ = fmt.Fprintln(os.Stderr, "	failed to update code in", mapping.Out, updateErr)
+			_, _ = fmt.Fprintln(os.Stderr, "	failed to update code for go package", goPackage, "in", mapping.Out, updateErr)
+			os.Exit(6)
 		}
 	}
 }
-- 
2.43.0


From ae103fed3c975546aecf19cb5b9b718268cac3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:59 +0000
Subject: [PATCH 60/78] fix: targets and mappings overwrote each other's files
 without a message

---
 build.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/build.go b/build.go
index 1214a61..cb058b1 100644
--- a/build.go
+++ b/build.go
@@ -134,6 +134,21 @@ func Build(conf *config.Config, goPath string) { //nolint:maintidx
 
 	mappedTypeScript := map[string]map[string]*code{}
 
+	// nothing must be written twice
+	written := map[string]string{}
+	claim := func(filename, owner string) {
+		absolute, err := absoluteFilePath(filename)
+		if err != nil {
+			_, _ = fmt.Fprintln(os.Stderr, err)
+			os.Exit(1)
+		}
+		if other, ok := written[absolute]; ok {
+			_, _ = fmt.Fprintln(os.Stderr, "	", owner, "would overwrite", absolute, "of", other)
+			os.Exit(1)
+		}
+		written[absolute] = owner
+	}
+
 	// preserve alphabetic order
 	var names []string
 	for name := range conf.Targets {
@@ -217,6 +232,7 @@ func Build(conf *config.Config, goPath string) { //nolint:maintidx
 			ts = importsCode.string() + ts
 
 			// _, _ = fmt.Fprintln(os.Stdout, ts)
+			claim(target.Out, "target "+name)
 			updateErr := updateCode(target.Out, getTSHeaderComment()+ts)
 			if updateErr != nil {
 				_, _ = fmt.Fprintln(os.Stderr, "	could not write service file", target.Out, updateErr)
@@ -231,6 +247,7 @@ func Build(conf *config.Config, goPath string) { //nolint:maintidx
 		}
 
 		formatAndWrite := func(code string, filename string) {
+			claim(filename, "target "+name+" of package "+packageName)
 			formattedGoBytes, formattingError := format.Source([]byte(code))
 			if formattingError == nil {
 				code = string(formattedGoBytes)
@@ -342,6 +359,7 @@ func Build(conf *config.Config, goPath string) { //nolint:maintidx
 		importsCode.l("").l("")
 		ts := importsCode.string() + module
 
+		claim(mapping.Out, "mapping "+goPackage)
 		updateErr := updateCode(mapping.Out, getTSHeaderComment()+ts)
 		if updateErr != nil {
 			_, _ = fmt.Fprintln(os.Stderr, "	failed to update code for go package", goPackage, "in", mapping.Out, updateErr)
-- 
2.43.0


From 11a31b126d590720f82af7e76b417f3aa7b0dd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:39 +0000
Subject: [PATCH 61/78] fix: services that do not exist or have several
 endpoints were accepted, their generated code did not compile

---
 servicereader.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/servicereader.go b/servicereader.go
index 5c27b68..fe0455e 100644
--- a/servicereader.go
+++ b/servicereader.go
@@ -188,7 +188,12 @@ func readServicesInPackage(pkg *ast.Package, packageName string, serviceMap map[
 		return nil, errors.New("package cannot be nil")
 	}
 	services = ServiceList{}
+	endpoints := map[string]string{}
 	for endpoint, serviceName := range serviceMap {
+		if other, ok := endpoints[serviceName]; ok {
+			return nil, errors.New("service " + serviceName + " has more than one endpoint: " + endpoint + " " + other)
+		}
+		endpoints[serviceName] = endpoint
 		services = append(services, &Service{
 			Name:     serviceName,
 			Methods:  []*Method{},
@@ -207,6 +212,18 @@ func readServicesInPackage(pkg *ast.Package, packageName string, serviceMap map[
 		if err != nil {
 			return
 		}
+		for _, decl := range file.Decls {
+			if genDecl, ok := decl.(*ast.GenDecl); ok && genDecl.Tok == token.TYPE {
+				for _, spec := range genDecl.Specs {
+					if typeSpec, ok := spec.(*ast.TypeSpec); ok {
+						delete(endpoints, typeSpec.Name.Name)
+					}
+				}
+			}
+		}
+	}
+	for serviceName := range endpoints {
+		return nil, errors.New("service " + serviceName + " not found in package " + packageName)
 	}
 	sort.Sort(services)
 	return
-- 
2.43.0


From 94c4636ad34be8c5eff541100bdb4863649cc9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:53 +0000
Subject: [PATCH 62/78] fix: messages did not name types without a package

---
 servicereader.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/servicereader.go b/servicereader.go
index fe0455e..93c8b34 100644
--- a/servicereader.go
+++ b/servicereader.go
@@ -417,7 +417,7 @@ func Read(
 		constantPackage := fullName[:max(strings.LastIndex(fullName, "."), 0)]
 		if _, ok := allConstantTypes[constantPackage]; !ok {
 			if pkg, constPkgErr := parsePackage(goPaths, gomod, constantPackage); constPkgErr != nil {
-				err = constPkgErr
+				err = errors.New("could not resolve constant: " + fullName + ": " + constPkgErr.Error())
 				return
 			} else {
 				allConstantTypes[constantPackage] = loadConstantTypes(pkg)
@@ -561,7 +561,7 @@ func collectTypes(goPaths []string, gomod config.Namespace, missingTypes map[str
 			if !structOK || !scalarOK {
 				parsedPackageStructs, parsedPackageScalars, err := getTypesInPackage(goPaths, gomod, packageName)
 				if err != nil {
-					return err
+					return errors.New("could not resolve " + fullName + ": " + err.Error())
 				}
 
 				trace("found structs in", goPaths, packageName)
-- 
2.43.0


From a0b310636818b972e0dea19a6bc131f241cabcf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:39 +0000
Subject: [PATCH 63/78] fix: types defined as themselves hung the generator

---
 servicereader.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/servicereader.go b/servicereader.go
index 93c8b34..af49059 100644
--- a/servicereader.go
+++ b/servicereader.go
@@ -623,9 +623,34 @@ func collectTypes(goPaths []string, gomod config.Namespace, missingTypes map[str
 		}
 		lastNumMissing = newNumMissingTypes
 	}
+	for fullName := range structs {
+		if isRecursiveDefinition(fullName, structs) {
+			return errors.New("invalid recursive type " + fullName)
+		}
+	}
 	return nil
 }
 
+// isRecursiveDefinition tells if a type is defined as itself
+func isRecursiveDefinition(fullName string, structs map[string]*Struct) bool {
+	seen := map[string]bool{}
+	for str := structs[fullName]; str != nil && str.Definition != nil; str = structs[fullName] {
+		if seen[fullName] {
+			return true
+		}
+		seen[fullName] = true
+		switch {
+		case str.Definition.Scalar != nil:
+			fullName = str.Definition.Scalar.FullName()
+		case str.Definition.StructType != nil:
+			fullName = str.Definition.StructType.FullName()
+		default:
+			return false
+		}
+	}
+	return false
+}
+
 func typesPending(structs map[string]*Struct, scalars map[string]*Scalar, missingTypes map[string]bool) bool {
 	for _, missing := range missingTypes {
 		if missing {
-- 
2.43.0


From fc54b0cf692c3066eb63e68d81a06b451bc2d10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:25 +0000
Subject: [PATCH 64/78] fix: names of imported packages of unions do not depend
 on the order of a map

---
 go.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/go.go b/go.go
index 0854dd6..ed2c37d 100644
--- a/go.go
+++ b/go.go
@@ -164,7 +164,12 @@ func renderTSRPCServiceProxies(services ServiceList, fullPackageName string, pac
 		}
 	}
 
+	unionPackages := make([]string, 0, len(unions))
 	for pkg := range unions {
+		unionPackages = append(unionPackages, pkg)
+	}
+	sort.Strings(unionPackages)
+	for _, pkg := range unionPackages {
 		extractImport(pkg, fullPackageName, aliases)
 	}
 
-- 
2.43.0


From 2586d38faa536f5f8a4df948f8809b47b7b31a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:25 +0000
Subject: [PATCH 65/78] fix: a TypeScript module is imported if it is used, not
 if its name is a part of another

---
 build.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/build.go b/build.go
index cb058b1..d4f655c 100644
--- a/build.go
+++ b/build.go
@@ -68,6 +68,18 @@ func absoluteFilePath(file string) (string, error) {
 	return filepath.Abs(file)
 }
 
+// typeScriptNames matches strings, qualified names and those of packages
+var typeScriptNames = regexp.MustCompile(`"(?:[^"\\\n]|\\.)*"|[\pL_$/][\pL\pN_$/.~+-]*`)
+
+func usesTypeScriptModule(code string, module string) bool {
+	for _, name := range typeScriptNames.FindAllString(code, -1) {
+		if strings.HasPrefix(name, module+".") {
+			return true
+		}
+	}
+	return false
+}
+
 func commonJSImports(conf *config.Config, c *code, tsFilename string, code string) {
 	packageNames := make([]string, 0, len(conf.Mappings))
 	for packageName := range conf.Mappings {
@@ -77,7 +89,7 @@ func commonJSImports(conf *config.Config, c *code, tsFilename string, code strin
 	for _, packageName := range packageNames {
 		importMapping := conf.Mappings[packageName]
 
-		if len(code) > 0 && !strings.Contains(code, importMapping.TypeScriptModule+".") {
+		if len(code) > 0 && !usesTypeScriptModule(code, importMapping.TypeScriptModule) {
 			continue
 		}
 
-- 
2.43.0


From 90b83d424ab6b1e6cf5b85de13947a923aa9eda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:35 +0000
Subject: [PATCH 66/78] fix: services defined as another type got a client
 without methods, without a message

---
 servicereader.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/servicereader.go b/servicereader.go
index af49059..e59a576 100644
--- a/servicereader.go
+++ b/servicereader.go
@@ -189,6 +189,7 @@ func readServicesInPackage(pkg *ast.Package, packageName string, serviceMap map[
 	}
 	services = ServiceList{}
 	endpoints := map[string]string{}
+	definedByOther := map[string]bool{}
 	for endpoint, serviceName := range serviceMap {
 		if other, ok := endpoints[serviceName]; ok {
 			return nil, errors.New("service " + serviceName + " has more than one endpoint: " + endpoint + " " + other)
@@ -217,6 +218,10 @@ func readServicesInPackage(pkg *ast.Package, packageName string, serviceMap map[
 				for _, spec := range genDecl.Specs {
 					if typeSpec, ok := spec.(*ast.TypeSpec); ok {
 						delete(endpoints, typeSpec.Name.Name)
+						switch typeSpec.Type.(type) {
+						case *ast.Ident, *ast.SelectorExpr:
+							definedByOther[typeSpec.Name.Name] = true
+						}
 					}
 				}
 			}
@@ -225,6 +230,11 @@ func readServicesInPackage(pkg *ast.Package, packageName string, serviceMap map[
 	for serviceName := range endpoints {
 		return nil, errors.New("service " + serviceName + " not found in package " + packageName)
 	}
+	for _, service := range services {
+		if len(service.Methods) == 0 && definedByOther[service.Name] {
+			return nil, errors.New("service " + service.Name + " has no methods of its own, it is defined as another type: name that one instead")
+		}
+	}
 	sort.Sort(services)
 	return
 }
-- 
2.43.0


From 05a11300d8da3b7ceeb7a4867adefb0eefe429f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:09 +0000
Subject: [PATCH 67/78] fix: types and constants in parentheses became any or
 were missing

---
 gotsrpc.go       | 31 +++++++++++++++++++++++++++++++
 servicereader.go |  2 ++
 2 files changed, 33 insertions(+)

diff --git a/gotsrpc.go b/gotsrpc.go
index 0d0d76a..b0b19c9 100644
--- a/gotsrpc.go
+++ b/gotsrpc.go
@@ -23,6 +23,7 @@ import (
 	"github.com/ugorji/go/codec"
 	"golang.org/x/mod/modfile"
 	"golang.org/x/mod/module"
+	"golang.org/x/tools/go/ast/astutil"
 
 	"github.com/foomo/gotsrpc/v2/config"
 )
@@ -363,7 +364,37 @@ Loop:
 		}
 	}
 
+	withoutParens(parsedPkg)
+
 	// create new package with resolved objects
 	resolvedPkg, _ := ast.NewPackage(fset, parsedPkg.Files, nil, nil) // ignore error
 	return resolvedPkg, nil
 }
+
+// withoutParens removes the parentheses around types
+func withoutParens(pkg *ast.Package) {
+	astutil.Apply(pkg, func(c *astutil.Cursor) bool {
+		paren, ok := c.Node().(*ast.ParenExpr)
+		if !ok {
+			return true
+		}
+		switch c.Parent().(type) {
+		case *ast.Field, *ast.TypeSpec, *ast.ValueSpec, *ast.MapType, *ast.StarExpr:
+		case *ast.ArrayType:
+			if c.Name() == "Len" {
+				return true
+			}
+		default:
+			return true
+		}
+		if c.Name() == "Values" {
+			return true
+		}
+		x := paren.X
+		for inner, ok := x.(*ast.ParenExpr); ok; inner, ok = x.(*ast.ParenExpr) {
+			x = inner.X
+		}
+		c.Replace(x)
+		return true
+	}, nil)
+}
diff --git a/servicereader.go b/servicereader.go
index e59a576..d6ee148 100644
--- a/servicereader.go
+++ b/servicereader.go
@@ -271,6 +271,8 @@ func readConstantLiteral(expr ast.Expr) (*ast.BasicLit, bool) {
 			}
 		}
 		return &lit, true
+	case *ast.ParenExpr:
+		return readConstantLiteral(e.X)
 	case *ast.UnaryExpr:
 		if e.Op == token.SUB {
 			if lit, ok := readConstantLiteral(e.X); ok {
-- 
2.43.0


From 207627aea732f4fe8bec3b5e7732b8223dd03d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:26 +0000
Subject: [PATCH 68/78] fix: types whose names are reserved in TypeScript were
 generated under them

---
 typescript.go | 38 +++++++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/typescript.go b/typescript.go
index 649300f..7776035 100644
--- a/typescript.go
+++ b/typescript.go
@@ -23,6 +23,18 @@ func (f *Field) tsName() string {
 
 var tsIdentifier = regexp.MustCompile(`^[\pL_$][\pL\p{Nd}_$]*$`)
 
+// tsTypeName returns the name of a go type's typescript type
+func tsTypeName(name string) string {
+	switch name {
+	case "any", "as", "bigint", "boolean", "never", "number", "object", "string", "symbol", "undefined", "unknown":
+		return name + "_"
+	}
+	if tsReserved[name] {
+		return name + "_"
+	}
+	return name
+}
+
 var tsTypeAliases = map[string]string{
 	"time.Time": "number",
 }
@@ -52,7 +64,7 @@ func (v *Value) tsType(mappings config.TypeScriptMappings, scalars map[string]*S
 			if ok {
 				tsModule = mapping.TypeScriptModule
 			}
-			tsType := tsModule + "." + tsTypeFromScalarType(v.ScalarType)
+			tsType := tsModule + "." + tsTypeName(v.Scalar.Name)
 			if value, ok := tsTypeAliases[tsType]; ok {
 				tsType = value
 			}
@@ -70,7 +82,7 @@ func (v *Value) tsType(mappings config.TypeScriptMappings, scalars map[string]*S
 			if ok {
 				tsModule = mapping.TypeScriptModule
 			}
-			ts.app(tsModule + "." + v.StructType.Name)
+			ts.app(tsModule + "." + tsTypeName(v.StructType.Name))
 			if isNilable(v.StructType.FullName(), structs) && (jsonInfo == nil || !jsonInfo.OmitEmpty) {
 				ts.app("|null")
 			} else if v.IsPtr && (jsonInfo == nil || !jsonInfo.OmitEmpty) {
@@ -78,7 +90,7 @@ func (v *Value) tsType(mappings config.TypeScriptMappings, scalars map[string]*S
 			}
 			return
 		}
-		ts.app(v.StructType.Name)
+		ts.app(tsTypeName(v.StructType.Name))
 	case v.Struct != nil:
 		// v.Struct.Value.tsType(mappings, ts)
 		ts.l("{").ind(1)
@@ -249,18 +261,18 @@ func renderTypescriptStruct(str *Struct, mappings config.TypeScriptMappings, sca
 	ts.l("// " + str.FullName())
 	switch {
 	case str.Array != nil:
-		ts.app("export type " + str.Name + " = ")
+		ts.app("export type " + tsTypeName(str.Name) + " = ")
 		str.Array.tsType(mappings, scalars, structs, ts)
 		ts.nl()
 	case str.Map != nil:
-		ts.app("export type " + str.Name + " = Record<")
+		ts.app("export type " + tsTypeName(str.Name) + " = Record<")
 		str.Map.tsKeyType(mappings, scalars, structs, ts)
 		ts.app(",")
 		str.Map.Value.tsType(mappings, scalars, structs, ts, nil)
 		ts.app(">")
 		ts.nl()
 	case str.Definition != nil:
-		ts.app("export type " + str.Name + " = ")
+		ts.app("export type " + tsTypeName(str.Name) + " = ")
 		str.Definition.tsType(mappings, scalars, structs, ts, &JSONInfo{OmitEmpty: true})
 		ts.nl()
 	// special handling of inline only structs
@@ -272,7 +284,7 @@ func renderTypescriptStruct(str *Struct, mappings config.TypeScriptMappings, sca
 		switch {
 		// types of other packages are only known to be structs by now
 		case first.StructType != nil, first.Scalar != nil && underlyingStruct(first.Scalar.FullName(), structs) != nil:
-			ts.app("export type " + str.Name + " = ")
+			ts.app("export type " + tsTypeName(str.Name) + " = ")
 			var isUndefined bool
 			for i, unionField := range str.UnionFields {
 				if i > 0 {
@@ -288,7 +300,7 @@ func renderTypescriptStruct(str *Struct, mappings config.TypeScriptMappings, sca
 			}
 			ts.nl()
 		case first.Scalar != nil:
-			ts.app("export const " + str.Name + " = ")
+			ts.app("export const " + tsTypeName(str.Name) + " = ")
 			ts.app("{ ")
 			for i, field := range str.UnionFields {
 				if i > 0 {
@@ -299,14 +311,14 @@ func renderTypescriptStruct(str *Struct, mappings config.TypeScriptMappings, sca
 			}
 			ts.app(" }")
 			ts.nl()
-			ts.app("export type " + str.Name + " = typeof " + str.Name)
+			ts.app("export type " + tsTypeName(str.Name) + " = typeof " + tsTypeName(str.Name))
 			ts.nl()
 		default:
 			return errors.New("could not resolve this union type: " + str.FullName())
 		}
 	case len(str.InlineFields) > 0:
 		inlineStructs, inlineFields := splitInlineFields(str.InlineFields, structs)
-		ts.app("export interface " + str.Name + " ")
+		ts.app("export interface " + tsTypeName(str.Name) + " ")
 		for i, inlineStruct := range inlineStructs {
 			if i == 0 {
 				ts.app("extends ")
@@ -322,7 +334,7 @@ func renderTypescriptStruct(str *Struct, mappings config.TypeScriptMappings, sca
 		renderStructFields(append(inlineFields, str.Fields...), mappings, scalars, structs, ts)
 		ts.ind(-1).l("}")
 	default:
-		ts.l("export interface " + str.Name + " {").ind(1)
+		ts.l("export interface " + tsTypeName(str.Name) + " {").ind(1)
 		renderStructFields(str.Fields, mappings, scalars, structs, ts)
 		ts.ind(-1).l("}")
 	}
@@ -375,13 +387,13 @@ func renderTypescriptStructsToPackages(
 					}
 					sort.Strings(keys)
 					enums := enumNames(packageConstantTypeName, keys)
-					packageCodeMap[packageConstantTypeName].l("export enum " + packageConstantTypeName + " {").ind(1)
+					packageCodeMap[packageConstantTypeName].l("export enum " + tsTypeName(packageConstantTypeName) + " {").ind(1)
 					for _, k := range keys {
 						packageCodeMap[packageConstantTypeName].l(enums[k] + " = " + packageConstantTypeValuesList[k].Value + ",")
 					}
 					packageCodeMap[packageConstantTypeName].ind(-1).l("}")
 				} else if packageConstantTypeValuesString, ok := packageConstantTypeValues.(string); ok {
-					packageCodeMap[packageConstantTypeName].l("export type " + packageConstantTypeName + " = " + packageConstantTypeValuesString)
+					packageCodeMap[packageConstantTypeName].l("export type " + tsTypeName(packageConstantTypeName) + " = " + packageConstantTypeValuesString)
 				}
 			}
 		}
-- 
2.43.0


From 2228bcc4c682594fa25e5b03030abe151066f121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:40 +0000
Subject: [PATCH 69/78] fix: unexported unions of other packages led to code
 that does not compile, without a message

---
 go.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/go.go b/go.go
index ed2c37d..4278d00 100644
--- a/go.go
+++ b/go.go
@@ -170,6 +170,11 @@ func renderTSRPCServiceProxies(services ServiceList, fullPackageName string, pac
 	}
 	sort.Strings(unionPackages)
 	for _, pkg := range unionPackages {
+		for _, union := range unions[pkg] {
+			if pkg != fullPackageName && !ast.IsExported(union) {
+				return fmt.Errorf("can not register union %s.%s in package %s as it is not exported", pkg, union, fullPackageName)
+			}
+		}
 		extractImport(pkg, fullPackageName, aliases)
 	}
 
-- 
2.43.0


From 50f553459a5428a3a7674f225757174bd674c6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:58 +0000
Subject: [PATCH 70/78] fix: generic services and constraints led to code that
 does not compile, without a message

---
 servicereader.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/servicereader.go b/servicereader.go
index d6ee148..9c49c91 100644
--- a/servicereader.go
+++ b/servicereader.go
@@ -217,6 +217,9 @@ func readServicesInPackage(pkg *ast.Package, packageName string, serviceMap map[
 			if genDecl, ok := decl.(*ast.GenDecl); ok && genDecl.Tok == token.TYPE {
 				for _, spec := range genDecl.Specs {
 					if typeSpec, ok := spec.(*ast.TypeSpec); ok {
+						if _, ok := endpoints[typeSpec.Name.Name]; ok && !isServiceType(typeSpec) {
+							return nil, errors.New("service " + typeSpec.Name.Name + " has type parameters or constraints, there are no values of it")
+						}
 						delete(endpoints, typeSpec.Name.Name)
 						switch typeSpec.Type.(type) {
 						case *ast.Ident, *ast.SelectorExpr:
@@ -239,6 +242,22 @@ func readServicesInPackage(pkg *ast.Package, packageName string, serviceMap map[
 	return
 }
 
+// isServiceType tells if there are values of a type: generic types and constraints have none
+func isServiceType(typeSpec *ast.TypeSpec) bool {
+	if typeSpec.TypeParams != nil {
+		return false
+	}
+	if interfaceType, ok := typeSpec.Type.(*ast.InterfaceType); ok {
+		for _, element := range interfaceType.Methods.List {
+			switch element.Type.(type) {
+			case *ast.UnaryExpr, *ast.BinaryExpr:
+				return false
+			}
+		}
+	}
+	return true
+}
+
 // tsNumber is a number literal that means the same in go and in typescript
 var tsNumber = regexp.MustCompile(`^(0[xX][0-9a-fA-F](_?[0-9a-fA-F])*|0[oO][0-7](_?[0-7])*|0[bB][01](_?[01])*|(0|[1-9](_?[0-9])*)?(\.([0-9](_?[0-9])*)?)?([eE][+-]?[0-9](_?[0-9])*)?)$`)
 
-- 
2.43.0


From 75f37ce4b1a36fbf7172fcff4a3ef69352a10397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:15 +0000
Subject: [PATCH 71/78] fix: structs of nothing but a pointer or map that may
 be omitted arrived empty over msgpack

---
 transport.go | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/transport.go b/transport.go
index 7be51f8..4c9211b 100644
--- a/transport.go
+++ b/transport.go
@@ -29,6 +29,13 @@ type clientHandle struct {
 var msgpackClientHandle = &clientHandle{
 	contentType: "application/msgpack; charset=utf-8",
 	handle:      &codec.MsgpackHandle{},
+	beforeEncodeArgs: func(args []interface{}) []interface{} {
+		ret := make([]interface{}, len(args))
+		for k, v := range args {
+			ret[k] = addressable(v)
+		}
+		return ret
+	},
 	// transform error type to sth that is transportable
 	beforeEncodeReply: func(resp *[]interface{}) error {
 		for k, v := range *resp {
@@ -37,6 +44,8 @@ var msgpackClientHandle = &clientHandle{
 				if r := reflect.ValueOf(e); r.Kind() != reflect.Ptr || !r.IsNil() {
 					(*resp)[k] = NewError(e)
 				}
+			} else {
+				(*resp)[k] = addressable(v)
 			}
 		}
 		return nil
@@ -115,19 +124,25 @@ func withPointers(values []interface{}) []interface{} {
 		case *time.Time:
 			ret[k] = &t
 		default:
-			ret[k] = v
-			if rv := reflect.ValueOf(v); v != nil && isPointerShaped(rv.Type()) {
-				p := reflect.New(rv.Type())
-				p.Elem().Set(rv)
-				ret[k] = p.Interface()
-			}
+			ret[k] = addressable(v)
 		}
 	}
 	return ret
 }
 
-// isPointerShaped tells structs and arrays of nothing but a pointer or map: the
-// encoder takes them for nil if the latter is and they are in an interface.
+// addressable returns a pointer to a copy of what the encoder does not read
+// correctly in an interface: structs and arrays of nothing but a pointer or map
+// are taken for nil if the latter is, and for empty if it may be omitted.
+func addressable(v interface{}) interface{} {
+	if rv := reflect.ValueOf(v); v != nil && isPointerShaped(rv.Type()) {
+		p := reflect.New(rv.Type())
+		p.Elem().Set(rv)
+		return p.Interface()
+	}
+	return v
+}
+
+// isPointerShaped tells structs and arrays of nothing but a pointer or map
 func isPointerShaped(t reflect.Type) bool {
 	switch {
 	case t.Kind() == reflect.Struct && t.NumField() == 1:
-- 
2.43.0


From 45e1a44824343ab0927dd644618a75ea16cd44ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:56 +0000
Subject: [PATCH 72/78] fix: data of errors of nothing but a pointer or map
 that may be omitted got lost over msgpack

---
 error.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/error.go b/error.go
index df26b57..28ab264 100644
--- a/error.go
+++ b/error.go
@@ -40,7 +40,7 @@ func NewError(err error) *Error {
 		Msg:  err.Error(),
 		Type: errType.String(),
 		Pkg:  errElem.PkgPath(),
-		Data: err,
+		Data: addressable(err),
 	}
 
 	// unwrap error
-- 
2.43.0


From b2950e02cf07b9d6f6755a9253e31375768c5e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:15 +0000
Subject: [PATCH 73/78] fix: union members of nothing but a pointer or map that
 may be omitted were sent empty

---
 unionext.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unionext.go b/unionext.go
index 3f39bb5..4f045a1 100644
--- a/unionext.go
+++ b/unionext.go
@@ -31,7 +31,7 @@ func (x *UnionExt) ConvertExt(v interface{}) interface{} {
 	}
 	for i := 0; i < val.NumField(); i++ {
 		if field := val.Field(i); !field.IsZero() {
-			return field.Interface()
+			return addressable(field.Interface())
 		}
 	}
 	return nil
-- 
2.43.0


From ee5227d9372d46a61da3aa938daf4f7eec138441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:17 +0000
Subject: [PATCH 74/78] fix: times in unions were sent as strings to typescript
 clients

---
 unionext.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unionext.go b/unionext.go
index 4f045a1..d22613d 100644
--- a/unionext.go
+++ b/unionext.go
@@ -31,7 +31,7 @@ func (x *UnionExt) ConvertExt(v interface{}) interface{} {
 	}
 	for i := 0; i < val.NumField(); i++ {
 		if field := val.Field(i); !field.IsZero() {
-			return addressable(field.Interface())
+			return withPointers([]interface{}{field.Interface()})[0]
 		}
 	}
 	return nil
-- 
2.43.0


From b68735c66d9492bfcce417abd615d215451e2687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:53 +0000
Subject: [PATCH 75/78] fix: white space in json tags is significant, as for
 the codec

---
 typereader.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/typereader.go b/typereader.go
index 917be34..47664ef 100644
--- a/typereader.go
+++ b/typereader.go
@@ -71,9 +71,6 @@ func extractJSONInfo(tag string) *JSONInfo {
 		return nil
 	}
 
-	for k, value := range jsonTags {
-		jsonTags[k] = strings.TrimSpace(value)
-	}
 	for k, value := range gotsrpcTags {
 		gotsrpcTags[k] = strings.TrimSpace(value)
 	}
-- 
2.43.0


From 07b82d932617b46b7a2b8c6d3ee63d0a34dbcb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:24 +0000
Subject: [PATCH 76/78] fix: types of a package whose path is the name of the
 service's were taken for its own

---
 go.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go.go b/go.go
index 4278d00..3426a79 100644
--- a/go.go
+++ b/go.go
@@ -265,7 +265,7 @@ func renderTSRPCServiceProxies(services ServiceList, fullPackageName string, pac
 
 				for _, arg := range nonHTTPRelatedArgs {
 					argName := "arg_" + arg.Name
-					argsDecls = append(argsDecls, argName+"  "+arg.Value.goType(aliases, packageName))
+					argsDecls = append(argsDecls, argName+"  "+arg.Value.goType(aliases, fullPackageName))
 					args = append(args, "&"+argName)
 					callArgs = append(callArgs, argName)
 					skipArgI++
-- 
2.43.0


From c9120ce3fa6d740b95b994d5e023ea9b343e3e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:08 +0000
Subject: [PATCH 77/78] fix: unions defined as another union were sent as
 structs to typescript clients

---
 build.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/build.go b/build.go
index d4f655c..3642f1c 100644
--- a/build.go
+++ b/build.go
@@ -225,7 +225,7 @@ func Build(conf *config.Config, goPath string) { //nolint:maintidx
 		// collect all union structs
 		unions := map[string][]string{}
 		for _, s := range structs {
-			if len(s.Fields) == 0 && len(s.UnionFields) > 0 {
+			if str := underlyingStruct(s.FullName(), structs); str != nil && len(str.Fields) == 0 && len(str.UnionFields) > 0 {
 				unions[s.Package] = append(unions[s.Package], s.Name)
 			}
 		}
-- 
2.43.0


From 0aa2bf50ccd76f85501146b3467c81910a144124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:47 +0000
Subject: [PATCH 78/78] fix: types defined as one of another package became
 empty interfaces in typescript

---
 typereader.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/typereader.go b/typereader.go
index 47664ef..23501bc 100644
--- a/typereader.go
+++ b/typereader.go
@@ -460,9 +460,15 @@ func extractTypes(file *ast.File, packageName string, structs map[string]*Struct
 					}
 				case *ast.SelectorExpr:
 					trace("SelectorExpr", obj.Name)
+					definition := &Value{}
+					definition.loadExpr(typeSpecType, fileImports)
+					if !typeSpec.Assign.IsValid() && definition.Scalar != nil && definition.Scalar.FullName() == "time.Time" {
+						definition = nil // it has neither the methods nor exported fields
+					}
 					structs[structName] = &Struct{
-						Name:    name,
-						Package: packageName,
+						Name:       name,
+						Package:    packageName,
+						Definition: definition,
 					}
 				case *ast.ArrayType:
 					arrayValue := &Value{}
-- 
2.43.0

