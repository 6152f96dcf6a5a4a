From ed565d23cecc0d31e4d60ebfefad7b4bea9236d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:11 +0000
Subject: [PATCH 01/41] fix: do not emit macros that cannot be resolved as the
 address of a Go function

---
 translator/translator.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/translator/translator.go b/translator/translator.go
index d916d46..3714399 100644
--- a/translator/translator.go
+++ b/translator/translator.go
@@ -479,12 +479,12 @@ func (t *Translator) collectDefines(declares []*CDecl, defines map[string]*cc.Ma
 			typecastValue = false
 		}
 		if !valid {
-			if macro.Type().Kind() == cc.InvalidKind {
-				// fallback to the evaluated value
+			// fallback to the evaluated value, if there is one
+			if value := macro.Value(); macro.Type().Kind() == cc.InvalidKind && value != cc.Unknown {
 				t.defines = append(t.defines, &CDecl{
 					IsDefine: true,
 					Name:     name,
-					Value:    Value(macro.Value),
+					Value:    Value(value),
 					Position: macro.Position(),
 				})
 			}
-- 
2.43.0


From 191734893ee393adec1e04645a365e3f52108e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:05 +0000
Subject: [PATCH 02/41] fix: emit the value of const declarations instead of
 the address of a Go method

---
 translator/ast_walker.go | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/translator/ast_walker.go b/translator/ast_walker.go
index d826c16..2ad9c75 100644
--- a/translator/ast_walker.go
+++ b/translator/ast_walker.go
@@ -58,7 +58,7 @@ func (t *Translator) walkDeclaration(d *cc.Declaration) (declared []*CDecl) {
 			decl := t.declarator(declr.Type(), identifierOf(declr.DirectDeclarator), declr.IsTypename(), declr.IsStatic(), declr.IsConst(), declr.Position())
 			init := list.InitDeclarator.Initializer
 			if init != nil && init.AssignmentExpression != nil {
-				decl.Value = init.AssignmentExpression.Value
+				decl.Value = constantValue(init.AssignmentExpression.Value(), declr.Type())
 				decl.Expression = blessName(init.Token.SrcStr())
 			}
 			t.registerTagsOf(decl)
@@ -90,6 +90,31 @@ func (t *Translator) walkDeclaration(d *cc.Declaration) (declared []*CDecl) {
 	return
 }
 
+// constantValue returns the value v converted to typ as a Go constant,
+// or nil if there is no such constant.
+func constantValue(v cc.Value, typ cc.Type) Value {
+	switch {
+	case typ.Kind() == cc.Bool:
+		switch v := v.(type) {
+		case cc.Int64Value:
+			return v != 0
+		case cc.UInt64Value:
+			return v != 0
+		}
+	case cc.IsIntegerType(typ):
+		switch v := v.Convert(typ).(type) {
+		case cc.Int64Value, cc.UInt64Value:
+			return v
+		}
+	case cc.IsFloatingPointType(typ):
+		switch v.(type) {
+		case cc.Int64Value, cc.UInt64Value, cc.Float64Value:
+			return v
+		}
+	}
+	return nil
+}
+
 func (t *Translator) declarator(typ cc.Type, name string, isTypedef bool, isStatic bool, isConst bool, position token.Position) *CDecl {
 	decl := &CDecl{
 		Spec:      t.typeSpec(typ, name, 0, isConst, false),
-- 
2.43.0


From e8441d3920211acc1c53f608ac5d8ad6b2f0a7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:52 +0000
Subject: [PATCH 03/41] fix: report an absolute source path that does not exist
 instead of skipping it

---
 parser/parser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 0c6748d..fe18c4b 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -119,7 +119,9 @@ func checkConfig(cfg *Config) (*Config, error) {
 				path = hPath
 			}
 		}
-		if info, err := os.Stat(path); err != nil || info.IsDir() {
+		if info, err := os.Stat(path); err != nil {
+			return nil, fmt.Errorf("parser: file specified but not found: %s", path)
+		} else if info.IsDir() {
 			continue
 		}
 		if absPath, err := filepath.Abs(path); err != nil {
-- 
2.43.0


From 5beb811a4f0ee34a6cd91508741fe6526c0738f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:56 +0000
Subject: [PATCH 04/41] fix: read upper-case prefixes and exponents, long
 floats and large unsigned literals of macros

---
 translator/helpers.go | 71 ++++++++++++++++++++-----------------------
 1 file changed, 33 insertions(+), 38 deletions(-)

diff --git a/translator/helpers.go b/translator/helpers.go
index 0989742..a81c6e6 100644
--- a/translator/helpers.go
+++ b/translator/helpers.go
@@ -3,8 +3,10 @@ package translator
 import (
 	"bytes"
 	"fmt"
+	"math"
 	"path/filepath"
 	"regexp"
+	"strconv"
 	"strings"
 	"sync"
 
@@ -263,49 +265,42 @@ func isNumeric(v []rune) bool {
 	return false
 }
 
+var (
+	floatRx = regexp.MustCompile(`^[+-]*(?:0[xX][0-9a-fA-F]*\.?[0-9a-fA-F]*[pP][+-]?[0-9]+|[0-9]*\.[0-9]*(?:[eE][+-]?[0-9]+)?|[0-9]+[eE][+-]?[0-9]+)`)
+	intRx   = regexp.MustCompile(`^[+-]*(0[xX][0-9a-fA-F]+|0[bB][01]+|[0-9]+)`)
+)
+
 // readNumeric reads numeric part of the value, ex: -1000.f being read as -1000.
+// Integers that have an unsigned or a long suffix are converted to the matching Go type.
 func readNumeric(v []rune) string {
-	long := false
-	unsigned := false
-	result := make([]rune, 0, len(v))
-
-	wrap := func() string {
-		switch {
-		case unsigned && long:
-			return "uint64(" + string(result) + ")"
-		case unsigned:
-			return "uint32(" + string(result) + ")"
-		case long:
-			return "int64(" + string(result) + ")"
-		default:
-			return string(result)
-		}
+	src := string(v)
+	if num := floatRx.FindString(src); len(num) > 0 {
+		return num
 	}
-
-	var isHex bool
-	for _, r := range v {
-		switch r {
-		case '0', '1', '2', '3', '4', '5', '6', '7', '8', '9':
-			result = append(result, r)
-		case 'x':
-			isHex = true
-			result = append(result, r)
-		case '-', '+', '.', 'e', 'b':
-			result = append(result, r)
-		case 'A', 'B', 'C', 'D', 'E', 'F', 'a', 'c', 'd', 'f':
-			if isHex {
-				result = append(result, r)
-			}
-		// c'mon, get some roman numerals here
-		case 'L', 'l':
+	m := intRx.FindStringSubmatch(src)
+	if m == nil {
+		return src
+	}
+	num, suffix := m[0], strings.ToLower(src[len(m[0]):])
+	unsigned := strings.Contains(suffix, "u")
+	long := strings.Contains(suffix, "l")
+	if value, err := strconv.ParseUint(m[1], 0, 64); err == nil {
+		// the first C type that is able to hold the value
+		if unsigned && value > math.MaxUint32 {
 			long = true
-			continue
-		case 'U', 'u':
+		}
+		if long && value > math.MaxInt64 {
 			unsigned = true
-			continue
-		default:
-			return wrap()
 		}
 	}
-	return wrap()
+	switch {
+	case unsigned && long:
+		return "uint64(" + num + ")"
+	case unsigned:
+		return "uint32(" + num + ")"
+	case long:
+		return "int64(" + num + ")"
+	default:
+		return num
+	}
 }
-- 
2.43.0


From 35a9380ebc66503364276b1d3b4127dfbc55ba11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:07 +0000
Subject: [PATCH 05/41] fix: pass the defines to the preprocessor in a stable
 order

---
 parser/parser.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index fe18c4b..1134be7 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -8,6 +8,7 @@ import (
 	"os/exec"
 	"path/filepath"
 	"runtime"
+	"sort"
 	"strings"
 
 	"modernc.org/cc/v4"
@@ -36,9 +37,13 @@ func ParseWith(cfg *Config) (*cc.AST, error) {
 	}
 
 	var predefined string
-	// user-provided defines take precedence
-	for name, value := range cfg.Defines {
-		switch v := value.(type) {
+	names := make([]string, 0, len(cfg.Defines))
+	for name := range cfg.Defines {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	for _, name := range names {
+		switch v := cfg.Defines[name].(type) {
 		case string:
 			predefined += fmt.Sprintf("\n#define %s \"%s\"", name, v)
 		case int, int16, int32, int64, uint, uint16, uint32, uint64:
-- 
2.43.0


From fe208291c2d402d510434fb7217bb42c6967b393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:08 +0000
Subject: [PATCH 06/41] fix: keep the value of float defines

---
 parser/parser.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 1134be7..752a96a 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -9,6 +9,7 @@ import (
 	"path/filepath"
 	"runtime"
 	"sort"
+	"strconv"
 	"strings"
 
 	"modernc.org/cc/v4"
@@ -48,8 +49,12 @@ func ParseWith(cfg *Config) (*cc.AST, error) {
 			predefined += fmt.Sprintf("\n#define %s \"%s\"", name, v)
 		case int, int16, int32, int64, uint, uint16, uint32, uint64:
 			predefined += fmt.Sprintf("\n#define %s %d", name, v)
-		case float32, float64:
-			predefined += fmt.Sprintf("\n#define %s %ff", name, v)
+		case float64:
+			num := strconv.FormatFloat(v, 'g', -1, 64)
+			if !strings.ContainsAny(num, ".e") {
+				num += ".0"
+			}
+			predefined += fmt.Sprintf("\n#define %s %sf", name, num)
 		case map[interface{}]interface{}:
 			if len(v) == 0 { // the special case for override a definition beforehand
 				predefined += fmt.Sprintf("\n#define %s", name)
-- 
2.43.0


From f209ac12bb796ab8929265396e922c412707ab44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:08 +0000
Subject: [PATCH 07/41] fix: user-provided defines take precedence over those
 of the host compiler

---
 parser/parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 752a96a..0e4e56b 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -92,7 +92,8 @@ func ParseWith(cfg *Config) (*cc.AST, error) {
 		}
 	}
 	if cfg.CCDefs && ccDefsOK {
-		predefined += fmt.Sprintf("\n%s", ccDefs)
+		// user-provided defines take precedence, the last definition is in effect
+		predefined = fmt.Sprintf("\n%s%s", ccDefs, predefined)
 	}
 	ccConfig, _ := cc.NewConfig(runtime.GOOS, cfg.Arch)
 	// Let cc provide all predefines and builtins. Only append custom definitions.
-- 
2.43.0


From dcf1d09c17cc8873f947c7b6235ff806dc0339ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:05 +0000
Subject: [PATCH 08/41] fix: report an unknown Arch instead of crashing

---
 parser/parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 0e4e56b..47d58de 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -95,7 +95,10 @@ func ParseWith(cfg *Config) (*cc.AST, error) {
 		// user-provided defines take precedence, the last definition is in effect
 		predefined = fmt.Sprintf("\n%s%s", ccDefs, predefined)
 	}
-	ccConfig, _ := cc.NewConfig(runtime.GOOS, cfg.Arch)
+	ccConfig, err := cc.NewConfig(runtime.GOOS, cfg.Arch)
+	if err != nil {
+		return nil, err
+	}
 	// Let cc provide all predefines and builtins. Only append custom definitions.
 	ccConfig.Predefined += predefined
 	ccConfig.IncludePaths = append(ccConfig.IncludePaths, cfg.IncludePaths...)
-- 
2.43.0


From dc07e0c06b13634b4d4aada78777803169eea362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:26 +0000
Subject: [PATCH 09/41] fix: report a failed write of a file that cannot be
 formatted

---
 process.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/process.go b/process.go
index 219b611..44cac71 100644
--- a/process.go
+++ b/process.go
@@ -261,8 +261,8 @@ func flushBufferToFile(buf []byte, f *os.File, fmt bool) error {
 			return err
 		} else {
 			log.Printf("[WARN] cannot gofmt %s: %s\n", f.Name(), err.Error())
-			f.Write(buf)
-			return nil
+			_, err = f.Write(buf)
+			return err
 		}
 	}
 	_, err := f.Write(buf)
-- 
2.43.0


From 66088aa4a18d5b475a714cd220b90f72c704af10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:26 +0000
Subject: [PATCH 10/41] fix: keep the functions of a package that is named like
 one of its files

---
 process.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/process.go b/process.go
index 44cac71..2072534 100644
--- a/process.go
+++ b/process.go
@@ -228,8 +228,15 @@ func (c *Process) Flush(noCGO bool) error {
 	}
 
 	if !noCGO {
-		pkg := filepath.Base(c.cfg.Generator.PackageName)
-		if err := writeGoFile(BufMain, pkg); err != nil {
+		name := filepath.Base(c.cfg.Generator.PackageName)
+		for _, reserved := range goBufferNames {
+			if name == reserved {
+				// do not share a file with the other buffers
+				name += "_pkg"
+				break
+			}
+		}
+		if err := writeGoFile(BufMain, name); err != nil {
 			return err
 		}
 	}
-- 
2.43.0


From 4e9429defe47d6302dfc5b83ee029fef994b8fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:27 +0000
Subject: [PATCH 11/41] fix: keep a package description that contains the end
 of a comment valid

---
 generator/gen_files.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/generator/gen_files.go b/generator/gen_files.go
index 209da88..9326dae 100644
--- a/generator/gen_files.go
+++ b/generator/gen_files.go
@@ -185,7 +185,8 @@ func writeLongTextBlock(wr io.Writer, text string) {
 		return
 	}
 	writeStartComment(wr)
-	fmt.Fprint(wr, text)
+	// the text must not end the comment
+	fmt.Fprint(wr, strings.ReplaceAll(text, "*/", "* /"))
 	writeSpace(wr, 1)
 	writeEndComment(wr)
 }
-- 
2.43.0


From 804a64db8c1ea3b2730610b89c94686f878e9deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:35 +0000
Subject: [PATCH 12/41] fix: consider the tips of struct and type scopes in a
 stable order

---
 translator/translator.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/translator/translator.go b/translator/translator.go
index 3714399..5ceb4a6 100644
--- a/translator/translator.go
+++ b/translator/translator.go
@@ -222,8 +222,15 @@ func getRuleActionRxs(rules Rules, action RuleAction) (RxMap, error) {
 
 func getPtrTipRxs(tips PtrTips) (PtrTipRxMap, error) {
 	rxMap := make(PtrTipRxMap, len(tips))
-	for scope, specs := range tips {
-		for _, spec := range specs {
+	// struct tips are also type tips, so the order of the scopes matters
+	scopes := make([]string, 0, len(tips))
+	for scope := range tips {
+		scopes = append(scopes, string(scope))
+	}
+	sort.Strings(scopes)
+	for _, name := range scopes {
+		scope := TipScope(name)
+		for _, spec := range tips[scope] {
 			if len(spec.Target) == 0 {
 				continue
 			}
@@ -249,8 +256,15 @@ func getPtrTipRxs(tips PtrTips) (PtrTipRxMap, error) {
 
 func getTypeTipRxs(tips TypeTips) (TypeTipRxMap, error) {
 	rxMap := make(TypeTipRxMap, len(tips))
-	for scope, specs := range tips {
-		for _, spec := range specs {
+	// struct tips are also type tips, so the order of the scopes matters
+	scopes := make([]string, 0, len(tips))
+	for scope := range tips {
+		scopes = append(scopes, string(scope))
+	}
+	sort.Strings(scopes)
+	for _, name := range scopes {
+		scope := TipScope(name)
+		for _, spec := range tips[scope] {
 			if len(spec.Target) == 0 {
 				continue
 			}
-- 
2.43.0


From 82c9b7e5dd9d0c7d9211df0f62097735ee0d1b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:17 +0000
Subject: [PATCH 13/41] fix: keep the strings of a string slice allocated while
 C uses the slice

---
 generator/gen_bindings.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/generator/gen_bindings.go b/generator/gen_bindings.go
index aa16b97..b730fd4 100644
--- a/generator/gen_bindings.go
+++ b/generator/gen_bindings.go
@@ -174,8 +174,11 @@ func (gen *Generator) unpackObj(buf io.Writer, goSpec tl.GoTypeSpec, cgoSpec tl.
 	indices := genIndices("i", level)
 	if getHelper, ok := fromGoHelperMap[goSpec]; ok {
 		helper := getHelper(gen, cgoSpec)
-		fmt.Fprintf(buf, "v%d[i%d], _ = %s(%sx%s)\n",
-			uplevel, uplevel, helper.Name, ptrs(goSpec.Pointers), indices)
+		// the outer map keeps the memory of the element alive
+		fmt.Fprintf(buf, "var allocs%d *cgoAllocMap\n", uplevel)
+		fmt.Fprintf(buf, "v%d[i%d], allocs%d = %s(%sx%s)\n",
+			uplevel, uplevel, uplevel, helper.Name, ptrs(goSpec.Pointers), indices)
+		fmt.Fprintf(buf, "allocs.Borrow(allocs%d)\n", uplevel)
 		return helper
 	}
 	if goSpec.Pointers == 0 {
-- 
2.43.0


From fb4edb0985be4496e3f3c7189e6f36b0be008adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:36 +0000
Subject: [PATCH 14/41] fix: do not leave the strings of a passed slice
 referring to freed memory

---
 generator/gen_bindings.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/generator/gen_bindings.go b/generator/gen_bindings.go
index b730fd4..5909840 100644
--- a/generator/gen_bindings.go
+++ b/generator/gen_bindings.go
@@ -611,7 +611,8 @@ func (gen *Generator) packPlainSlice(buf io.Writer, base string, pointers uint8,
 func (gen *Generator) packObj(buf io.Writer, goSpec tl.GoTypeSpec, cgoSpec tl.CGoSpec, level uint8) *Helper {
 	if getHelper, ok := toGoHelperMap[goSpec]; ok {
 		helper := getHelper(gen, cgoSpec)
-		fmt.Fprintf(buf, "v%s = %s(%sptr%d)\n",
+		// the C memory may belong to the call and be freed after it
+		fmt.Fprintf(buf, "v%s = RawString(%s(%sptr%d)).Copy()\n",
 			genIndices("i", level), helper.Name, ptrs(goSpec.Pointers), level)
 		return helper
 	}
-- 
2.43.0


From 552463372d4567257826361bec90e8211d83827d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:27 +0000
Subject: [PATCH 15/41] fix: keep the inner array in the C type of a
 multi-dimensional array argument

---
 translator/model_go_type.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/translator/model_go_type.go b/translator/model_go_type.go
index 7845645..c7e77c9 100644
--- a/translator/model_go_type.go
+++ b/translator/model_go_type.go
@@ -188,8 +188,7 @@ func (spec *CGoSpec) AtLevel(level uint8) string {
 	} else {
 		buf.WriteString(ptrs(spec.Pointers))
 	}
-	// drop inner arrays at levels
-	// buf.WriteString(arrs(spec.InnerArr))
+	buf.WriteString(arrs(spec.InnerArr))
 	buf.WriteString(spec.Base)
 
 	return buf.String()
@@ -197,9 +196,8 @@ func (spec *CGoSpec) AtLevel(level uint8) string {
 
 func (spec *CGoSpec) SpecAtLevel(level uint8) CGoSpec {
 	buf := CGoSpec{
-		// drop inner arrays at levels
-		// InnerArr: spec.InnerArr,
-		Base: spec.Base,
+		InnerArr: spec.InnerArr,
+		Base:     spec.Base,
 	}
 	for i, size := range spec.OuterArr.Sizes() {
 		if i < int(level) {
-- 
2.43.0


From 238f7426cff671662617fbd03cf34e74775bd701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:36 +0000
Subject: [PATCH 16/41] fix: tell helpers of different C types apart by name

---
 generator/gen_bindings.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/generator/gen_bindings.go b/generator/gen_bindings.go
index 5909840..975714b 100644
--- a/generator/gen_bindings.go
+++ b/generator/gen_bindings.go
@@ -47,8 +47,9 @@ type proxyDecl struct {
 }
 
 // getHelperName transforms signatures like [4][4][]*[4]string into A4A4SPA4String
-// suitable for the generated proxy helper methods.
-func getHelperName(goSpec tl.GoTypeSpec) string {
+// suitable for the generated proxy helper methods. Since several C types could be
+// represented by the same Go type, the name of an untyped spec includes the C base.
+func getHelperName(goSpec tl.GoTypeSpec, cgoSpec tl.CGoSpec) string {
 	buf := new(bytes.Buffer)
 	for _, size := range goSpec.OuterArr.Sizes() {
 		if len(size.Str) > 0 {
@@ -68,7 +69,10 @@ func getHelperName(goSpec tl.GoTypeSpec) string {
 		buf.WriteRune('U')
 	}
 	buf.WriteString(strings.Title(goSpec.PlainType()))
-	return buf.String()
+	if len(goSpec.Raw) == 0 {
+		buf.WriteString(strings.Title(strings.TrimPrefix(cgoSpec.Base, "C.")))
+	}
+	return strings.Replace(buf.String(), ".", "", -1)
 }
 
 func (gen *Generator) getTypedHelperName(goBase string, spec tl.CGoSpec) string {
@@ -417,9 +421,9 @@ func goSpecArg(goSpec tl.GoTypeSpec, isArg bool) string {
 func (gen *Generator) getUnpackHelper(goSpec tl.GoTypeSpec, cgoSpec tl.CGoSpec, isArg bool) *Helper {
 	name := "unpack"
 	if isArg {
-		name += "Arg" + getHelperName(goSpec)
+		name += "Arg" + getHelperName(goSpec, cgoSpec)
 	} else {
-		name += getHelperName(goSpec)
+		name += getHelperName(goSpec, cgoSpec)
 	}
 	code := new(bytes.Buffer)
 	fmt.Fprintf(code, "func %s(x %s) (unpacked %s, allocs *cgoAllocMap) {\n",
@@ -679,7 +683,7 @@ func (gen *Generator) getPackStringHelper(cgoSpec tl.CGoSpec) *Helper {
 }
 
 func (gen *Generator) getPackHelper(memTip tl.Tip, goSpec tl.GoTypeSpec, cgoSpec tl.CGoSpec) *Helper {
-	name := "pack" + getHelperName(goSpec)
+	name := "pack" + getHelperName(goSpec, cgoSpec)
 	code := new(bytes.Buffer)
 	var ref string
 	if len(goSpec.OuterArr) > 0 {
-- 
2.43.0


From 875dc54fccb281be67b590eafdbce6ad17f14e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:25 +0000
Subject: [PATCH 17/41] fix: keep the tag of an enum without typedef

---
 translator/ast_walker.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/translator/ast_walker.go b/translator/ast_walker.go
index 2ad9c75..3dd51ab 100644
--- a/translator/ast_walker.go
+++ b/translator/ast_walker.go
@@ -138,6 +138,10 @@ func (t *Translator) getStructTag(typ cc.Type) (tag string) {
 
 func (t *Translator) enumSpec(base *CTypeSpec, typ cc.Type) *CEnumSpec {
 	tag := blessName(typ.Typedef().Name())
+	if enumType, ok := typ.(*cc.EnumType); ok && len(tag) == 0 {
+		tagToken := enumType.Tag()
+		tag = blessName(tagToken.SrcStr())
+	}
 	spec := &CEnumSpec{
 		Tag:      tag,
 		Pointers: base.Pointers,
-- 
2.43.0


From 32e7b64f67281cd5b832c209ba12409181104fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:54 +0000
Subject: [PATCH 18/41] fix: order array dimensions as declared, also in front
 of slices

---
 translator/array_spec.go    | 8 ++++----
 translator/model_go_type.go | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/translator/array_spec.go b/translator/array_spec.go
index dd215b1..a70f125 100644
--- a/translator/array_spec.go
+++ b/translator/array_spec.go
@@ -31,9 +31,9 @@ func (a ArraySpec) Sizes() (sizes []ArraySizeSpec) {
 	}
 	arr := string(a)
 	for len(arr) > 0 {
-		// get "n" from "[k][l][m][n]"
-		p1 := strings.LastIndexByte(arr, '[')
-		p2 := strings.LastIndexByte(arr, ']')
+		// get "k" from "[k][l][m][n]"
+		p1 := strings.IndexByte(arr, '[')
+		p2 := strings.IndexByte(arr, ']')
 		part := arr[p1+1 : p2]
 		// and try to convert uint64
 		if u, err := strconv.ParseUint(part, 10, 64); err != nil || u == 0 {
@@ -42,7 +42,7 @@ func (a ArraySpec) Sizes() (sizes []ArraySizeSpec) {
 		} else {
 			sizes = append(sizes, ArraySizeSpec{N: u})
 		}
-		arr = arr[:p1]
+		arr = arr[p2+1:]
 	}
 	return sizes
 }
diff --git a/translator/model_go_type.go b/translator/model_go_type.go
index c7e77c9..836e23e 100644
--- a/translator/model_go_type.go
+++ b/translator/model_go_type.go
@@ -83,8 +83,8 @@ func (spec *GoTypeSpec) PlainType() string {
 
 func (spec GoTypeSpec) String() string {
 	buf := new(bytes.Buffer)
-	buf.WriteString(slcs(spec.Slices))
 	buf.WriteString(arrs(spec.OuterArr))
+	buf.WriteString(slcs(spec.Slices))
 
 	var unsafePointer uint8
 	if spec.Base == "unsafe.Pointer" && len(spec.Raw) == 0 {
@@ -114,8 +114,8 @@ func (spec GoTypeSpec) String() string {
 
 func (spec GoTypeSpec) UnderlyingString() string {
 	buf := new(bytes.Buffer)
-	buf.WriteString(slcs(spec.Slices))
 	buf.WriteString(arrs(spec.OuterArr))
+	buf.WriteString(slcs(spec.Slices))
 
 	var unsafePointer uint8
 	if spec.Base == "unsafe.Pointer" {
@@ -154,7 +154,7 @@ func (spec CGoSpec) String() string {
 }
 
 func (spec *CGoSpec) PointersAtLevel(level uint8) uint8 {
-	if int(level) > len(spec.OuterArr) {
+	if int(level) > len(spec.OuterArr.Sizes()) {
 		if delta := int(spec.Pointers) + len(spec.OuterArr.Sizes()) - int(level); delta > 0 {
 			return uint8(delta)
 		}
@@ -208,7 +208,7 @@ func (spec *CGoSpec) SpecAtLevel(level uint8) CGoSpec {
 		}
 		buf.OuterArr.AddSized(size.N)
 	}
-	if int(level) > len(spec.OuterArr) {
+	if int(level) > len(spec.OuterArr.Sizes()) {
 		if delta := int(spec.Pointers) + len(spec.OuterArr.Sizes()) - int(level); delta > 0 {
 			buf.Pointers += uint8(delta)
 		}
-- 
2.43.0


From 2fa56a746e1954f1526d783f652f99b01c7c2c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:28 +0000
Subject: [PATCH 19/41] fix: refer to a tagged type by the name of its typedef

---
 translator/ast_walker.go |  6 ++++--
 translator/translator.go | 11 +++++++++++
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/translator/ast_walker.go b/translator/ast_walker.go
index 3dd51ab..3350a06 100644
--- a/translator/ast_walker.go
+++ b/translator/ast_walker.go
@@ -138,9 +138,11 @@ func (t *Translator) getStructTag(typ cc.Type) (tag string) {
 
 func (t *Translator) enumSpec(base *CTypeSpec, typ cc.Type) *CEnumSpec {
 	tag := blessName(typ.Typedef().Name())
-	if enumType, ok := typ.(*cc.EnumType); ok && len(tag) == 0 {
+	if enumType, ok := typ.(*cc.EnumType); ok {
 		tagToken := enumType.Tag()
-		tag = blessName(tagToken.SrcStr())
+		if name := blessName(tagToken.SrcStr()); len(name) > 0 {
+			tag = name
+		}
 	}
 	spec := &CEnumSpec{
 		Tag:      tag,
diff --git a/translator/translator.go b/translator/translator.go
index 5ceb4a6..f357d36 100644
--- a/translator/translator.go
+++ b/translator/translator.go
@@ -913,6 +913,10 @@ func (t *Translator) TranslateSpec(spec CType, tips ...Tip) GoTypeSpec {
 			wrapper.splitPointers(ptrTip, spec.GetPointers())
 		}
 		if base := spec.GetBase(); len(base) > 0 {
+			if decl, ok := t.tagMap[spec.GetTag()]; ok && base == spec.GetTag() && isPlainTypedef(decl) {
+				// the type is declared by the name of its typedef
+				base = decl.Name
+			}
 			wrapper.Raw = string(t.TransformName(TargetType, base))
 		} else if cgoName := spec.CGoName(); len(cgoName) > 0 {
 			wrapper.Raw = "C." + cgoName
@@ -921,6 +925,13 @@ func (t *Translator) TranslateSpec(spec CType, tips ...Tip) GoTypeSpec {
 	}
 }
 
+// isPlainTypedef tells whether decl is a typedef of a struct, union or enum itself,
+// i.e. not of a pointer to it or an array of it.
+func isPlainTypedef(decl *CDecl) bool {
+	return decl.IsTypedef && len(decl.Name) > 0 && decl.Spec.GetPointers() == 0 &&
+		len(decl.Spec.OuterArrays()) == 0 && len(decl.Spec.InnerArrays()) == 0
+}
+
 func (t *Translator) NormalizeSpecPointers(spec CType) CType {
 	if spec.Kind() == OpaqueStructKind {
 		decl, tagKnown := t.tagMap[spec.GetTag()]
-- 
2.43.0


From d1531d22ec00199c7a4c3e4f34d508ed15c29df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:55 +0000
Subject: [PATCH 20/41] fix: leave out struct fields that cgo cannot reach

---
 translator/ast_walker.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/translator/ast_walker.go b/translator/ast_walker.go
index 3350a06..39bfedc 100644
--- a/translator/ast_walker.go
+++ b/translator/ast_walker.go
@@ -257,6 +257,10 @@ func (t *Translator) structSpec(base *CTypeSpec, typ cc.Type, deep int) *CStruct
 	if structType, ok := typ.(*cc.StructType); ok {
 		for i := 0; i < structType.NumFields(); i++ {
 			m := structType.FieldByIndex(i)
+			if m.IsBitfield() || m.IsFlexibleArrayMember() {
+				// there is no way to reach such a field through cgo
+				continue
+			}
 			var position token.Position
 			var name string
 			var isConst bool
-- 
2.43.0


From d983382cec056b6994a4582e53d032cb0f404a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:24 +0000
Subject: [PATCH 21/41] fix: order array dimensions where they are used,
 leaving ArraySpec as it was

---
 translator/array_spec.go         |  8 ++++----
 translator/model_enum.go         |  2 +-
 translator/model_go_type.go      | 13 +++++++++++--
 translator/model_struct_union.go |  2 +-
 translator/model_type.go         |  2 +-
 5 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/translator/array_spec.go b/translator/array_spec.go
index a70f125..dd215b1 100644
--- a/translator/array_spec.go
+++ b/translator/array_spec.go
@@ -31,9 +31,9 @@ func (a ArraySpec) Sizes() (sizes []ArraySizeSpec) {
 	}
 	arr := string(a)
 	for len(arr) > 0 {
-		// get "k" from "[k][l][m][n]"
-		p1 := strings.IndexByte(arr, '[')
-		p2 := strings.IndexByte(arr, ']')
+		// get "n" from "[k][l][m][n]"
+		p1 := strings.LastIndexByte(arr, '[')
+		p2 := strings.LastIndexByte(arr, ']')
 		part := arr[p1+1 : p2]
 		// and try to convert uint64
 		if u, err := strconv.ParseUint(part, 10, 64); err != nil || u == 0 {
@@ -42,7 +42,7 @@ func (a ArraySpec) Sizes() (sizes []ArraySizeSpec) {
 		} else {
 			sizes = append(sizes, ArraySizeSpec{N: u})
 		}
-		arr = arr[p2+1:]
+		arr = arr[:p1]
 	}
 	return sizes
 }
diff --git a/translator/model_enum.go b/translator/model_enum.go
index 9b6467f..cdca58c 100644
--- a/translator/model_enum.go
+++ b/translator/model_enum.go
@@ -130,7 +130,7 @@ func (c *CEnumSpec) IsConst() bool {
 func (c CEnumSpec) AtLevel(level int) CType {
 	spec := c
 	var outerArrSpec ArraySpec
-	for i, size := range spec.OuterArr.Sizes() {
+	for i, size := range spec.OuterArr.Dims() {
 		if i < int(level) {
 			continue
 		} else if i == 0 {
diff --git a/translator/model_go_type.go b/translator/model_go_type.go
index 836e23e..195a29a 100644
--- a/translator/model_go_type.go
+++ b/translator/model_go_type.go
@@ -167,7 +167,7 @@ func (spec *CGoSpec) PointersAtLevel(level uint8) uint8 {
 
 func (spec *CGoSpec) AtLevel(level uint8) string {
 	buf := new(bytes.Buffer)
-	outerArrSizes := spec.OuterArr.Sizes()
+	outerArrSizes := spec.OuterArr.Dims()
 	for i, size := range outerArrSizes {
 		if i < int(level) {
 			continue
@@ -199,7 +199,7 @@ func (spec *CGoSpec) SpecAtLevel(level uint8) CGoSpec {
 		InnerArr: spec.InnerArr,
 		Base:     spec.Base,
 	}
-	for i, size := range spec.OuterArr.Sizes() {
+	for i, size := range spec.OuterArr.Dims() {
 		if i < int(level) {
 			continue
 		} else if i == 0 {
@@ -218,6 +218,15 @@ func (spec *CGoSpec) SpecAtLevel(level uint8) CGoSpec {
 	return buf
 }
 
+// Dims returns the sizes in the order of the declaration, the outermost one first.
+func (a ArraySpec) Dims() []ArraySizeSpec {
+	sizes := a.Sizes()
+	for i, j := 0, len(sizes)-1; i < j; i, j = i+1, j-1 {
+		sizes[i], sizes[j] = sizes[j], sizes[i]
+	}
+	return sizes
+}
+
 func ptrs(n uint8) string {
 	return strings.Repeat("*", int(n))
 }
diff --git a/translator/model_struct_union.go b/translator/model_struct_union.go
index 930c15f..b7e65b1 100644
--- a/translator/model_struct_union.go
+++ b/translator/model_struct_union.go
@@ -137,7 +137,7 @@ func (c *CStructSpec) IsConst() bool {
 func (c CStructSpec) AtLevel(level int) CType {
 	spec := c
 	var outerArrSpec ArraySpec
-	for i, size := range spec.OuterArr.Sizes() {
+	for i, size := range spec.OuterArr.Dims() {
 		if i < int(level) {
 			continue
 		} else if i == 0 {
diff --git a/translator/model_type.go b/translator/model_type.go
index 347894e..7018f50 100644
--- a/translator/model_type.go
+++ b/translator/model_type.go
@@ -143,7 +143,7 @@ func (c *CTypeSpec) IsConst() bool {
 func (c CTypeSpec) AtLevel(level int) CType {
 	spec := c
 	var outerArrSpec ArraySpec
-	for i, size := range spec.OuterArr.Sizes() {
+	for i, size := range spec.OuterArr.Dims() {
 		if i < int(level) {
 			continue
 		} else if i == 0 {
-- 
2.43.0


From dbbfa5c006bdfdef5e4954d4a32a560bb32d4495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:09 +0000
Subject: [PATCH 22/41] fix: do not count the pointers and arrays of a typedef
 twice

---
 translator/ast_walker.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/translator/ast_walker.go b/translator/ast_walker.go
index 39bfedc..ccfebbb 100644
--- a/translator/ast_walker.go
+++ b/translator/ast_walker.go
@@ -360,6 +360,10 @@ func (t *Translator) typeSpec(typ cc.Type, name string, deep int, isConst bool,
 	if isVoidPtr {
 		return spec
 	}
+	if !isRet && typ.Kind() != cc.Function {
+		// the pointers and arrays are counted in the spec, a typedef of them is not its name
+		spec.Raw = typedefNameOf(typ)
+	}
 
 	switch typ.Kind() {
 	case cc.Void:
-- 
2.43.0


From e9c164e5f349c4de63d2cc22bffb0ef2bb81349d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:10 +0000
Subject: [PATCH 23/41] fix: keep the name of a handle, a typedef of a pointer
 to an opaque struct

---
 translator/ast_walker.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/translator/ast_walker.go b/translator/ast_walker.go
index ccfebbb..4a6da54 100644
--- a/translator/ast_walker.go
+++ b/translator/ast_walker.go
@@ -333,6 +333,8 @@ func (t *Translator) typeSpec(typ cc.Type, name string, deep int, isConst bool,
 		spec.Raw = typedefNameOf(typ)
 	}
 
+	handle := typedefNameOf(typ)
+
 	for outerArrayType, ok := typ.(*cc.ArrayType); ok; outerArrayType, ok = typ.(*cc.ArrayType) {
 		size := outerArrayType.Len()
 		typ = outerArrayType.Elem()
@@ -448,6 +450,10 @@ func (t *Translator) typeSpec(typ cc.Type, name string, deep int, isConst bool,
 		s := t.structSpec(spec, typ, deep+1)
 		if !isRet {
 			s.Typedef = typedefNameOf(typ)
+			if len(s.Typedef) == 0 && s.IsOpaque() {
+				// a handle, e.g. typedef struct a_T* a;
+				s.Typedef = handle
+			}
 		}
 		return s
 	case cc.Function:
-- 
2.43.0


From 650141997e88ffc18615a21ee3c6e80079e3b769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:43 +0000
Subject: [PATCH 24/41] fix: do not count the pointers and arrays of a typedef
 twice in function results

---
 translator/ast_walker.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/translator/ast_walker.go b/translator/ast_walker.go
index 4a6da54..720eda4 100644
--- a/translator/ast_walker.go
+++ b/translator/ast_walker.go
@@ -468,6 +468,9 @@ func (t *Translator) typeSpec(typ cc.Type, name string, deep int, isConst bool,
 					s.Typedef = retTypedef
 				}
 				if s.Return != nil {
+					if ret, ok := s.Return.(*CTypeSpec); ok && ret.Base != "void*" {
+						retTypedef = typedefNameOf(pointee(funcType.Result()))
+					}
 					s.Return.SetRaw(retTypedef)
 				}
 			}
@@ -516,6 +519,20 @@ func typedefNameOf(typ cc.Type) string {
 	return name
 }
 
+// pointee returns what is left of a type without its pointers and arrays.
+func pointee(typ cc.Type) cc.Type {
+	for {
+		switch t := typ.(type) {
+		case *cc.PointerType:
+			typ = t.Elem()
+		case *cc.ArrayType:
+			typ = t.Elem()
+		default:
+			return typ
+		}
+	}
+}
+
 func identifierOf(dd *cc.DirectDeclarator) string {
 	if dd == nil {
 		return ""
-- 
2.43.0


From cbdf8b85944fe0c7a99f1b7637109d19ce81d979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:23 +0000
Subject: [PATCH 25/41] fix: declare further typedefs of an enum, pointers to
 arrays of characters are no strings

---
 generator/gen_const.go   | 15 +++++++++++++++
 generator/generator.go   | 13 +++++++++----
 translator/ast_walker.go |  7 ++++++-
 translator/translator.go |  3 +++
 4 files changed, 33 insertions(+), 5 deletions(-)

diff --git a/generator/gen_const.go b/generator/gen_const.go
index ff1bd7f..a5ca349 100644
--- a/generator/gen_const.go
+++ b/generator/gen_const.go
@@ -188,6 +188,21 @@ func (gen *Generator) expandEnum(wr io.Writer, decl *tl.CDecl, namesSeen map[str
 	writeSpace(wr, 1)
 }
 
+// writeEnumAlias declares one more name of an enum that has been expanded already.
+func (gen *Generator) writeEnumAlias(wr io.Writer, decl *tl.CDecl, enumName []byte) bool {
+	spec := decl.Spec.(*tl.CEnumSpec)
+	declName := gen.tr.TransformName(tl.TargetType, decl.Name)
+	if !decl.IsTypedef || spec.Pointers > 0 || len(spec.OuterArr) > 0 || len(spec.InnerArr) > 0 ||
+		len(declName) == 0 || bytes.Equal(declName, enumName) {
+		return false
+	}
+	fmt.Fprintf(wr, "// %s as declared in %s\n", declName,
+		filepath.ToSlash(gen.tr.SrcLocation(tl.TargetConst, decl.Name, decl.Position)))
+	fmt.Fprintf(wr, "type %s %s", declName, enumName)
+	writeSpace(wr, 1)
+	return true
+}
+
 func iotaOnZero(i int, v interface{}) string {
 	result := fmt.Sprintf("%v", v)
 	if i == 0 {
diff --git a/generator/generator.go b/generator/generator.go
index 4025cc4..af446fa 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -90,20 +90,25 @@ func (gen *Generator) WriteConst(wr io.Writer) int {
 		count = count + n
 	}
 	writeSpace(wr, 1)
-	tagsSeen := make(map[string]bool)
+	tagsSeen := make(map[string]*tl.CDecl)
 	namesSeen := make(map[string]bool)
+	aliasesSeen := make(map[string]bool)
 
 	gen.submitHelper(cgoGenTag)
 	expandEnum := func(decl *tl.CDecl) bool {
 		if tag := decl.Spec.GetTag(); len(tag) == 0 {
 			gen.expandEnumAnonymous(wr, decl, namesSeen)
 			return true
-		} else if tagsSeen[tag] {
-			return false
+		} else if seen, ok := tagsSeen[tag]; ok {
+			if decl.Name == seen.Name || aliasesSeen[decl.Name] {
+				return false
+			}
+			aliasesSeen[decl.Name] = true
+			return gen.writeEnumAlias(wr, decl, gen.tr.TransformName(tl.TargetType, seen.Spec.GetBase()))
 		} else {
 			gen.expandEnum(wr, decl, namesSeen)
 			if decl.Spec.IsComplete() {
-				tagsSeen[tag] = true
+				tagsSeen[tag] = decl
 			}
 			return true
 		}
diff --git a/translator/ast_walker.go b/translator/ast_walker.go
index 720eda4..a654df5 100644
--- a/translator/ast_walker.go
+++ b/translator/ast_walker.go
@@ -468,7 +468,12 @@ func (t *Translator) typeSpec(typ cc.Type, name string, deep int, isConst bool,
 					s.Typedef = retTypedef
 				}
 				if s.Return != nil {
-					if ret, ok := s.Return.(*CTypeSpec); ok && ret.Base != "void*" {
+					switch ret := s.Return.(type) {
+					case *CTypeSpec:
+						if ret.Base != "void*" {
+							retTypedef = typedefNameOf(pointee(funcType.Result()))
+						}
+					case *CEnumSpec:
 						retTypedef = typedefNameOf(pointee(funcType.Result()))
 					}
 					s.Return.SetRaw(retTypedef)
diff --git a/translator/translator.go b/translator/translator.go
index f357d36..a3a311c 100644
--- a/translator/translator.go
+++ b/translator/translator.go
@@ -746,6 +746,9 @@ func (t *Translator) TranslateSpec(spec CType, tips ...Tip) GoTypeSpec {
 			lookupSpec.Unsigned = typeSpec.Unsigned
 			lookupSpec.Signed = typeSpec.Signed
 		}
+		if len(typeSpec.InnerArr) > 0 {
+			lookupSpec.Const = false // a pointer to an array of characters is not a string
+		}
 
 		if gospec, ok := t.lookupSpec(lookupSpec, typeTip == TipTypeString); ok {
 			tag := typeSpec.CGoName()
-- 
2.43.0


From 95c540e87a655d7af61ea8bebd9bcab656542ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:02 +0000
Subject: [PATCH 26/41] fix: keep all pointers in typedefs of void**, spell
 typedefs of strings as string

---
 generator/gen_typedef.go    | 2 +-
 translator/model_go_type.go | 2 +-
 translator/translator.go    | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/generator/gen_typedef.go b/generator/gen_typedef.go
index 4722d6b..b387814 100644
--- a/generator/gen_typedef.go
+++ b/generator/gen_typedef.go
@@ -9,7 +9,7 @@ import (
 )
 
 func (gen *Generator) writeTypeTypedef(wr io.Writer, decl *tl.CDecl, seenNames map[string]bool) {
-	goSpec := gen.tr.TranslateSpec(decl.Spec)
+	goSpec := gen.tr.TranslateSpec(decl.Spec, tl.TipTypePlain)
 	goTypeName := gen.tr.TransformName(tl.TargetType, decl.Name)
 	if seenNames[string(goTypeName)] {
 		return
diff --git a/translator/model_go_type.go b/translator/model_go_type.go
index 195a29a..c74b8a9 100644
--- a/translator/model_go_type.go
+++ b/translator/model_go_type.go
@@ -126,7 +126,7 @@ func (spec GoTypeSpec) UnderlyingString() string {
 	}
 	buf.WriteString(arrs(spec.InnerArr))
 
-	if spec.Unsigned {
+	if spec.Unsigned && spec.Base != "string" {
 		buf.WriteString("u")
 	}
 	buf.WriteString(spec.Base)
diff --git a/translator/translator.go b/translator/translator.go
index a3a311c..3becace 100644
--- a/translator/translator.go
+++ b/translator/translator.go
@@ -752,7 +752,7 @@ func (t *Translator) TranslateSpec(spec CType, tips ...Tip) GoTypeSpec {
 
 		if gospec, ok := t.lookupSpec(lookupSpec, typeTip == TipTypeString); ok {
 			tag := typeSpec.CGoName()
-			if gospec == UnsafePointerSpec && len(tag) > 0 {
+			if gospec == UnsafePointerSpec && len(tag) > 0 && typeTip != TipTypePlain {
 				if decl, ok := t.tagMap[tag]; ok {
 					if decl.Spec.GetPointers() <= gospec.Pointers {
 						gospec.Pointers = gospec.Pointers - decl.Spec.GetPointers()
@@ -813,7 +813,7 @@ func (t *Translator) TranslateSpec(spec CType, tips ...Tip) GoTypeSpec {
 				lookupSpec.Pointers--
 				if gospec, ok := t.lookupSpec(lookupSpec, typeTip == TipTypeString); ok {
 					tag := typeSpec.CGoName()
-					if gospec == UnsafePointerSpec && len(tag) > 0 {
+					if gospec == UnsafePointerSpec && len(tag) > 0 && typeTip != TipTypePlain {
 						if decl, ok := t.tagMap[tag]; ok {
 							if decl.Spec.GetPointers() <= gospec.Pointers {
 								gospec.Pointers = gospec.Pointers - decl.Spec.GetPointers()
-- 
2.43.0


From 4fb3ff1b500286354e969995311ef18627e3968b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:54 +0000
Subject: [PATCH 27/41] fix: nil slices inside slices and structs become NULL,
 a NULL result with an arr tip becomes nil

---
 generator/gen_bindings.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/generator/gen_bindings.go b/generator/gen_bindings.go
index 975714b..d47864a 100644
--- a/generator/gen_bindings.go
+++ b/generator/gen_bindings.go
@@ -288,6 +288,7 @@ func (gen *Generator) unpackSlice(buf1 io.Writer, buf2 *reverseBuffer, cgoSpec t
 	h := gen.getAllocMemoryHelper(levelSpec)
 	gen.submitHelper(h)
 	gen.submitHelper(sizeOfPtr)
+	fmt.Fprintf(buf1, "if x%s == nil {\ncontinue // the pointer stays NULL\n}\n", indices)
 	fmt.Fprintf(buf1, "len%d := len(x%s)\n", level, indices)
 	fmt.Fprintf(buf1, "mem%d := %s(len%d)\n", level, h.Name, level)
 	fmt.Fprintf(buf1, "allocs.Add(mem%d)\n", level)
@@ -384,6 +385,9 @@ func (gen *Generator) getCopyBytesHelper(cgoSpec tl.CGoSpec) *Helper {
 		Name:        name,
 		Description: fmt.Sprintf("%s copies the data from Go slice as %s.", name, cgoSpec),
 		Source: fmt.Sprintf(`func %s(slice *sliceHeader) (%s, *cgoAllocMap) {
+			if slice.Data == nil {
+				return nil, nil
+			}
 			allocs := new(cgoAllocMap)
 			defer runtime.SetFinalizer(allocs, func(a *cgoAllocMap) {
 				go a.Free()
@@ -908,7 +912,7 @@ func (gen *Generator) proxyRetToGo(memTip tl.Tip, varName, ptrName string,
 		return proxy, helper.Nillable
 	case isPlain && goSpec.Slices != 0: // ex: []byte
 		specStr := ptrs(goSpec.Pointers) + goSpec.PlainType()
-		proxy = fmt.Sprintf("%s := (*(*[%s]%s)(unsafe.Pointer(%s)))[:0]",
+		proxy = fmt.Sprintf("var %[1]s []%[3]s\nif %[4]s != nil {\n%[1]s = (*(*[%[2]s]%[3]s)(unsafe.Pointer(%[4]s)))[:0]\n}",
 			varName, gen.maxMem, specStr, ptrName)
 		return
 	case isPlain: // ex: byte, [4]byte
-- 
2.43.0


From 21fa44727738678000581a1e072e81e166d1c0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:06 +0000
Subject: [PATCH 28/41] fix: a slice handed to C keeps its capacity when it
 comes back with its own memory

---
 generator/gen_bindings.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/generator/gen_bindings.go b/generator/gen_bindings.go
index d47864a..1ae0a45 100644
--- a/generator/gen_bindings.go
+++ b/generator/gen_bindings.go
@@ -611,9 +611,11 @@ func packPlain(buf io.Writer, cgoSpec tl.CGoSpec, base string, pointers uint8, l
 func (gen *Generator) packPlainSlice(buf io.Writer, base string, pointers uint8, level uint8) {
 	postfix := gen.randPostfix()
 	fmt.Fprintf(buf, "hx%2x := (*sliceHeader)(unsafe.Pointer(&v%s))\n", postfix, genIndices("i", level))
+	// a slice that still has its own memory keeps its capacity
+	fmt.Fprintf(buf, "if hx%2x.Data != unsafe.Pointer(ptr%d) {\n", postfix, level)
 	fmt.Fprintf(buf, "hx%2x.Data = unsafe.Pointer(ptr%d)\n", postfix, level)
 	fmt.Fprintf(buf, "hx%2x.Cap = %s\n", postfix, gen.maxMem)
-	fmt.Fprintf(buf, "// hx%2x.Len = ?\n", postfix)
+	fmt.Fprintf(buf, "// hx%2x.Len = ?\n}\n", postfix)
 }
 
 func (gen *Generator) packObj(buf io.Writer, goSpec tl.GoTypeSpec, cgoSpec tl.CGoSpec, level uint8) *Helper {
-- 
2.43.0


From df086475c46025d05d4b002a5a5c0a17e8e1475e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:35 +0000
Subject: [PATCH 29/41] fix: an opaque pointer in a struct reaches C as it is
 instead of as a copy of nothing

---
 generator/gen_bindings.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/generator/gen_bindings.go b/generator/gen_bindings.go
index 1ae0a45..b0d89a0 100644
--- a/generator/gen_bindings.go
+++ b/generator/gen_bindings.go
@@ -501,6 +501,10 @@ func (gen *Generator) proxyValueFromGo(memTip tl.Tip, name string,
 		gen.submitHelper(helper)
 		proxy = fmt.Sprintf("%s(%s)", helper.Name, name)
 		return proxy, helper.Nillable
+	case isPlain && goSpec.Slices == 1 && goSpec.Kind == tl.OpaqueStructKind: // a handle, there is nothing to copy
+		gen.submitHelper(sliceHeader)
+		proxy = fmt.Sprintf("(%s)(unsafe.Pointer((*sliceHeader)(unsafe.Pointer(&%s)).Data)), cgoAllocsUnknown", cgoSpec, name)
+		return
 	case isPlain && goSpec.Slices != 0: // ex: []byte
 		helper := gen.getCopyBytesHelper(cgoSpec)
 		gen.submitHelper(helper)
-- 
2.43.0


From edea68b6ffae5bcd233700b950ccc655d3428856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:31 +0000
Subject: [PATCH 30/41] fix: copy inner slices into the C memory of a struct
 instead of referring to Go memory

---
 generator/gen_bindings.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/generator/gen_bindings.go b/generator/gen_bindings.go
index b0d89a0..f0c3081 100644
--- a/generator/gen_bindings.go
+++ b/generator/gen_bindings.go
@@ -173,6 +173,17 @@ func unpackPlainSlice(buf io.Writer, cgoSpec tl.CGoSpec, level uint8) {
 		uplevel, uplevel, cgoSpec.AtLevel(level))
 }
 
+func (gen *Generator) copyPlainSlice(buf io.Writer, cgoSpec tl.CGoSpec, level uint8) *Helper {
+	uplevel := level - 1
+	helper := gen.getCopyBytesHelper(cgoSpec)
+	fmt.Fprintf(buf, "c%d, allocs%d := %s((*sliceHeader)(unsafe.Pointer(&x%s)))\n",
+		uplevel, uplevel, helper.Name, genIndices("i", level))
+	fmt.Fprintf(buf, "v%d[i%d] = (%s)(unsafe.Pointer(c%d))\n",
+		uplevel, uplevel, cgoSpec.AtLevel(level), uplevel)
+	fmt.Fprintf(buf, "allocs.Borrow(allocs%d)\n", uplevel)
+	return helper
+}
+
 func (gen *Generator) unpackObj(buf io.Writer, goSpec tl.GoTypeSpec, cgoSpec tl.CGoSpec, level uint8) *Helper {
 	uplevel := level - 1
 	indices := genIndices("i", level)
@@ -456,6 +467,10 @@ func (gen *Generator) getUnpackHelper(goSpec tl.GoTypeSpec, cgoSpec tl.CGoSpec,
 	isPlain := goSpec.IsPlain() || goSpec.IsPlainKind()
 
 	switch {
+	case isPlain && isSlice && !isArg && goSpec.Kind != tl.OpaqueStructKind && len(cgoSpec.InnerArr) == 0:
+		// a struct in C memory must not refer to Go memory
+		gen.submitHelper(sliceHeader)
+		h.Requires = append(h.Requires, gen.copyPlainSlice(buf1, cgoSpec, level))
 	case isPlain && isSlice:
 		gen.submitHelper(sliceHeader)
 		unpackPlainSlice(buf1, cgoSpec, level)
-- 
2.43.0


From f5943caca89584c57b792a3a65881db8338355a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:34 +0000
Subject: [PATCH 31/41] fix: struct accessors of array members take the address
 once

---
 generator/gen_bindings.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/generator/gen_bindings.go b/generator/gen_bindings.go
index f0c3081..3a42580 100644
--- a/generator/gen_bindings.go
+++ b/generator/gen_bindings.go
@@ -846,7 +846,8 @@ func (gen *Generator) proxyValueToGo(memTip tl.Tip, varName, ptrName string,
 		gen.submitHelper(sliceHeader)
 		gen.submitHelper(helper)
 		if len(goSpec.OuterArr) > 0 {
-			ptrName = fmt.Sprintf("(*%s)(unsafe.Pointer(&%s))", cgoSpec, ptrName)
+			// struct accessors pass the address already
+			ptrName = fmt.Sprintf("(*%s)(unsafe.Pointer(&%s))", cgoSpec, strings.TrimPrefix(ptrName, "&"))
 		}
 		var ref string
 		switch {
-- 
2.43.0


From afd85b49a8cc5c7cbc84006cbf4e3dfa1886eafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:25 +0000
Subject: [PATCH 32/41] fix: raw memory tips apply to structs found by their
 tag wherever they are used

---
 generator/generator.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/generator/generator.go b/generator/generator.go
index af446fa..3cc3653 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -184,6 +184,15 @@ func (gen *Generator) WriteConst(wr io.Writer) int {
 
 func (gen *Generator) MemTipOf(decl *tl.CDecl) tl.Tip {
 	var memTip tl.Tip
+	switch decl.Spec.Kind() {
+	case tl.StructKind, tl.OpaqueStructKind, tl.UnionKind:
+		// the tag decides first, as it does where the type is declared
+		if tag := decl.Spec.GetBase(); len(tag) > 0 {
+			if memTipRx, ok := gen.tr.MemTipRx(tag); ok {
+				return memTipRx.Self()
+			}
+		}
+	}
 	if name := decl.Spec.CGoName(); len(name) > 0 {
 		if memTipRx, ok := gen.tr.MemTipRx(name); ok {
 			memTip = memTipRx.Self()
-- 
2.43.0


From ff8d96e36a8af7f25d28e57311ffee86576b8a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:38 +0000
Subject: [PATCH 33/41] fix: struct accessors do not take the length of another
 member

---
 generator/gen_struct_helpers.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/generator/gen_struct_helpers.go b/generator/gen_struct_helpers.go
index 85dfa91..0d55840 100644
--- a/generator/gen_struct_helpers.go
+++ b/generator/gen_struct_helpers.go
@@ -209,8 +209,8 @@ func (gen *Generator) getRawStructHelpers(goStructName []byte, cStructName strin
 			cgoSpec.Pointers += 1
 		}
 		fmt.Fprintf(buf, "func (s *%s) Get%s() %s {\n", goStructName, goName, goSpec)
-		lenField := getLenField(gen, structSpec, m)
-		toProxy, _ := gen.proxyValueToGo(memTip, "ret", "&s."+m.Name, goSpec, cgoSpec, lenField)
+		// the slices of accessors lie over the member itself, no length member applies
+		toProxy, _ := gen.proxyValueToGo(memTip, "ret", "&s."+m.Name, goSpec, cgoSpec, "")
 		fmt.Fprintf(buf, "\tvar ret %s\n", goSpec)
 		fmt.Fprintf(buf, "\t%s\n", toProxy)
 		fmt.Fprintf(buf, "\treturn ret\n")
-- 
2.43.0


From c108f8df96c3e5d6fe5e7b8feab10bb8d6bc74fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:29 +0000
Subject: [PATCH 34/41] fix: parameters on both sides of an instance parameter
 were not separated by a comma

---
 generator/gen_common.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/generator/gen_common.go b/generator/gen_common.go
index d744360..931a797 100644
--- a/generator/gen_common.go
+++ b/generator/gen_common.go
@@ -136,12 +136,17 @@ func (gen *Generator) writeFunctionParams(wr io.Writer, funcName string, funcSpe
 	typeTipSpecRx, _ := gen.tr.TypeTipRx(tl.TipScopeFunction, funcName)
 
 	writeStartParams(wr)
+	var written int
 	for i, param := range spec.Params {
 		ptrTip := ptrTipSpecRx.TipAt(i)
 
 		if ptrTip == tl.TipPtrInst {
 			continue
 		}
+		if written > 0 {
+			fmt.Fprintf(wr, ", ")
+		}
+		written++
 
 		if !ptrTip.IsValid() {
 			ptrTip = tl.TipPtrArr
@@ -158,10 +163,6 @@ func (gen *Generator) writeFunctionParams(wr io.Writer, funcName string, funcSpe
 		}
 
 		gen.writeFunctionParam(wr, param, ptrTip, typeTip)
-
-		if i < len(spec.Params)-1 && ptrTipSpecRx.TipAt(i+1) != tl.TipPtrInst {
-			fmt.Fprintf(wr, ", ")
-		}
 	}
 	writeEndParams(wr)
 }
-- 
2.43.0


From 3b7a4f117e43d9a639214ae1f3d826c3e13bac32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:30 +0000
Subject: [PATCH 35/41] fix: wrappers of callbacks used other tips than the
 types of the callbacks

---
 generator/gen_bindings.go  |  2 +-
 generator/gen_callbacks.go |  9 +++++++--
 generator/gen_common.go    | 34 ++++++++++++++++------------------
 3 files changed, 24 insertions(+), 21 deletions(-)

diff --git a/generator/gen_bindings.go b/generator/gen_bindings.go
index 3a42580..80eb2ae 100644
--- a/generator/gen_bindings.go
+++ b/generator/gen_bindings.go
@@ -975,7 +975,7 @@ func (gen *Generator) createProxies(funcName string, funcSpec tl.CType) (from, t
 	for i, param := range spec.Params {
 		var goSpec tl.GoTypeSpec
 		ptrTip := ptrTipRx.TipAt(i)
-		typeTip := typeTipRx.TipAt(i)
+		typeTip := gen.paramTypeTip(typeTipRx, i, param.Spec)
 		goSpec = gen.tr.TranslateSpec(param.Spec, ptrTip, typeTip)
 		cgoSpec := gen.tr.CGoSpec(param.Spec, true)
 		const public = false
diff --git a/generator/gen_callbacks.go b/generator/gen_callbacks.go
index 658ff53..1fc11f5 100644
--- a/generator/gen_callbacks.go
+++ b/generator/gen_callbacks.go
@@ -134,7 +134,12 @@ func (gen *Generator) getCallbackHelpers(goFuncName, cFuncName string, spec tl.C
 		ret := fmt.Sprintf("ret%2x", crc)
 		fmt.Fprintf(buf, "%s := %sFunc(%s)\n", ret, cbGoName, paramNamesGoList)
 		ptrTipRx, typeTipRx, memTipRx := gen.tr.TipRxsForSpec(tl.TipScopeFunction, cFuncName, funcSpec)
-		retGoSpec := gen.tr.TranslateSpec(funcSpec.Return, ptrTipRx.Self(), typeTipRx.Self())
+		ptrTip := ptrTipRx.Self()
+		if !ptrTip.IsValid() {
+			// defaults to ref for the return values
+			ptrTip = tl.TipPtrRef
+		}
+		retGoSpec := gen.tr.TranslateSpec(funcSpec.Return, ptrTip, typeTipRx.Self())
 		retCGoSpec := gen.tr.CGoSpec(funcSpec.Return, true) // asArg?
 		retProxy, _ := gen.proxyArgFromGo(memTipRx.Self(), ret, retGoSpec, retCGoSpec)
 		fmt.Fprintf(buf, "ret, _ := %s\n", retProxy)
@@ -205,7 +210,7 @@ func (gen *Generator) createCallbackProxies(funcName string, funcSpec tl.CType)
 	for i, param := range spec.Params {
 		var goSpec tl.GoTypeSpec
 		ptrTip := ptrTipRx.TipAt(i)
-		typeTip := typeTipRx.TipAt(i)
+		typeTip := gen.paramTypeTip(typeTipRx, i, param.Spec)
 		goSpec = gen.tr.TranslateSpec(param.Spec, ptrTip, typeTip)
 		cgoSpec := gen.tr.CGoSpec(param.Spec, true)
 		const public = false
diff --git a/generator/gen_common.go b/generator/gen_common.go
index 931a797..2012528 100644
--- a/generator/gen_common.go
+++ b/generator/gen_common.go
@@ -71,6 +71,20 @@ func (gen *Generator) writeStructMembers(wr io.Writer, structName string, spec t
 	fmt.Fprintf(wr, "allocs%2x interface{}\n", crc)
 }
 
+// paramTypeTip is the type tip of a parameter of a function or callback.
+func (gen *Generator) paramTypeTip(typeTipSpecRx tl.TipSpecRx, i int, spec tl.CType) tl.Tip {
+	typeTip := typeTipSpecRx.TipAt(i)
+	if !typeTip.IsValid() {
+		// try to use type tip for the type itself
+		if tip, ok := gen.tr.TypeTipRx(tl.TipScopeType, spec.CGoName()); ok {
+			if tip := tip.Self(); tip.IsValid() {
+				typeTip = tip
+			}
+		}
+	}
+	return typeTip
+}
+
 func (gen *Generator) writeInstanceObjectParam(wr io.Writer, funcName string, funcSpec tl.CType) {
 	spec := funcSpec.(*tl.CFunctionSpec)
 	ptrTipSpecRx, _ := gen.tr.PtrTipRx(tl.TipScopeFunction, funcName)
@@ -84,15 +98,7 @@ func (gen *Generator) writeInstanceObjectParam(wr io.Writer, funcName string, fu
 		}
 
 		ptrTip = tl.TipPtrRef
-		typeTip := typeTipSpecRx.TipAt(i)
-		if !typeTip.IsValid() {
-			// try to use type tip for the type itself
-			if tip, ok := gen.tr.TypeTipRx(tl.TipScopeType, param.Spec.CGoName()); ok {
-				if tip := tip.Self(); tip.IsValid() {
-					typeTip = tip
-				}
-			}
-		}
+		typeTip := gen.paramTypeTip(typeTipSpecRx, i, param.Spec)
 
 		writeSpace(wr, 1)
 		writeStartParams(wr)
@@ -152,15 +158,7 @@ func (gen *Generator) writeFunctionParams(wr io.Writer, funcName string, funcSpe
 			ptrTip = tl.TipPtrArr
 		}
 
-		typeTip := typeTipSpecRx.TipAt(i)
-		if !typeTip.IsValid() {
-			// try to use type tip for the type itself
-			if tip, ok := gen.tr.TypeTipRx(tl.TipScopeType, param.Spec.CGoName()); ok {
-				if tip := tip.Self(); tip.IsValid() {
-					typeTip = tip
-				}
-			}
-		}
+		typeTip := gen.paramTypeTip(typeTipSpecRx, i, param.Spec)
 
 		gen.writeFunctionParam(wr, param, ptrTip, typeTip)
 	}
-- 
2.43.0


From 89eb487ad04c0d36e56ac87fcb3a2b837d79d246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:31 +0000
Subject: [PATCH 36/41] fix: struct members that are slices of pointers were
 copied with the wrong type

---
 generator/gen_bindings.go | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/generator/gen_bindings.go b/generator/gen_bindings.go
index 80eb2ae..0043b87 100644
--- a/generator/gen_bindings.go
+++ b/generator/gen_bindings.go
@@ -173,9 +173,9 @@ func unpackPlainSlice(buf io.Writer, cgoSpec tl.CGoSpec, level uint8) {
 		uplevel, uplevel, cgoSpec.AtLevel(level))
 }
 
-func (gen *Generator) copyPlainSlice(buf io.Writer, cgoSpec tl.CGoSpec, level uint8) *Helper {
+func (gen *Generator) copyPlainSlice(buf io.Writer, goSpec tl.GoTypeSpec, cgoSpec tl.CGoSpec, level uint8) *Helper {
 	uplevel := level - 1
-	helper := gen.getCopyBytesHelper(cgoSpec)
+	helper := gen.getCopyBytesHelper(goSpec, cgoSpec)
 	fmt.Fprintf(buf, "c%d, allocs%d := %s((*sliceHeader)(unsafe.Pointer(&x%s)))\n",
 		uplevel, uplevel, helper.Name, genIndices("i", level))
 	fmt.Fprintf(buf, "v%d[i%d] = (%s)(unsafe.Pointer(c%d))\n",
@@ -383,15 +383,21 @@ func (gen *Generator) getUnpackStringHelper(cgoSpec tl.CGoSpec) *Helper {
 	}
 }
 
-func (gen *Generator) getCopyBytesHelper(cgoSpec tl.CGoSpec) *Helper {
+func (gen *Generator) getCopyBytesHelper(goSpec tl.GoTypeSpec, cgoSpec tl.CGoSpec) *Helper {
+	pointers := goSpec.Pointers // the elements of the slice may be pointers
+	if goSpec.Base == "unsafe.Pointer" && pointers > 0 {
+		pointers-- // which is a pointer itself
+	}
+	elemSpec := tl.CGoSpec{
+		Pointers: pointers,
+		Base:     cgoSpec.Base,
+	}
 	cgoSpec = tl.CGoSpec{
-		Pointers: 1,
+		Pointers: pointers + 1,
 		Base:     cgoSpec.Base,
 	}
 	name := "copy" + gen.getTypedHelperName("bytes", cgoSpec)
-	sizeofConst := "sizeOf" + gen.getTypedHelperName("value", tl.CGoSpec{
-		Base: cgoSpec.Base,
-	})
+	sizeofConst := "sizeOf" + gen.getTypedHelperName("value", elemSpec)
 	return &Helper{
 		Name:        name,
 		Description: fmt.Sprintf("%s copies the data from Go slice as %s.", name, cgoSpec),
@@ -416,9 +422,7 @@ func (gen *Generator) getCopyBytesHelper(cgoSpec tl.CGoSpec) *Helper {
 		Requires: []*Helper{
 			sliceHeader,
 			cgoAllocMap,
-			gen.getAllocMemoryHelper(tl.CGoSpec{
-				Base: cgoSpec.Base,
-			}),
+			gen.getAllocMemoryHelper(elemSpec),
 		},
 	}
 }
@@ -470,7 +474,7 @@ func (gen *Generator) getUnpackHelper(goSpec tl.GoTypeSpec, cgoSpec tl.CGoSpec,
 	case isPlain && isSlice && !isArg && goSpec.Kind != tl.OpaqueStructKind && len(cgoSpec.InnerArr) == 0:
 		// a struct in C memory must not refer to Go memory
 		gen.submitHelper(sliceHeader)
-		h.Requires = append(h.Requires, gen.copyPlainSlice(buf1, cgoSpec, level))
+		h.Requires = append(h.Requires, gen.copyPlainSlice(buf1, goSpec, cgoSpec, level))
 	case isPlain && isSlice:
 		gen.submitHelper(sliceHeader)
 		unpackPlainSlice(buf1, cgoSpec, level)
@@ -521,7 +525,7 @@ func (gen *Generator) proxyValueFromGo(memTip tl.Tip, name string,
 		proxy = fmt.Sprintf("(%s)(unsafe.Pointer((*sliceHeader)(unsafe.Pointer(&%s)).Data)), cgoAllocsUnknown", cgoSpec, name)
 		return
 	case isPlain && goSpec.Slices != 0: // ex: []byte
-		helper := gen.getCopyBytesHelper(cgoSpec)
+		helper := gen.getCopyBytesHelper(goSpec, cgoSpec)
 		gen.submitHelper(helper)
 		proxy = fmt.Sprintf("%s((*sliceHeader)(unsafe.Pointer(&%s)))", helper.Name, name)
 		return proxy, helper.Nillable
@@ -582,7 +586,7 @@ func (gen *Generator) proxyArgFromGo(memTip tl.Tip, name string,
 			// Go 1.8+
 			cgoSpec.Base = "unsafe.Pointer"
 		}
-		helper := gen.getCopyBytesHelper(cgoSpec)
+		helper := gen.getCopyBytesHelper(goSpec, cgoSpec)
 		gen.submitHelper(helper)
 		proxy = fmt.Sprintf("(%s)(unsafe.Pointer((*sliceHeader)(unsafe.Pointer(&%s)).Data)), cgoAllocsUnknown", cgoSpec.AtLevel(0), name)
 		return proxy, helper.Nillable
-- 
2.43.0


From 16833e22d4812661fec1c5b674a73e16c0ef8e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:56 +0000
Subject: [PATCH 37/41] fix: a struct was lost if a function of the same name
 was declared before it

---
 translator/translator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/translator/translator.go b/translator/translator.go
index 3becace..4c6807d 100644
--- a/translator/translator.go
+++ b/translator/translator.go
@@ -984,6 +984,9 @@ func (t *Translator) registerTagsOf(decl *CDecl) {
 			case !hasPrev:
 				// first time seen -> store the tag
 				t.tagMap[tag] = decl
+			case prev.Spec.Kind() == FunctionKind && !prev.IsTypedef:
+				// a function may have the name of a tag, but it does not declare it
+				t.tagMap[tag] = decl
 			case decl.IsTypedef && !prev.IsTypedef:
 				// a typedef for tag prevails simple tag declarations
 				t.tagMap[tag] = decl
-- 
2.43.0


From cdd37c812641018aa8646b16ff40337c26cf8096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:27 +0000
Subject: [PATCH 38/41] fix: a callback with parameters a and ca did not
 compile

The proxy function names its parameters c<name>; the code inside looked for another name when c<name> is also the name of a parameter.
---
 generator/gen_callbacks.go | 14 +-------------
 1 file changed, 1 insertion(+), 13 deletions(-)

diff --git a/generator/gen_callbacks.go b/generator/gen_callbacks.go
index 1fc11f5..f9bb394 100644
--- a/generator/gen_callbacks.go
+++ b/generator/gen_callbacks.go
@@ -198,13 +198,6 @@ func (gen *Generator) createCallbackProxies(funcName string, funcSpec tl.CType)
 	spec := funcSpec.(*tl.CFunctionSpec)
 	to = make([]proxyDecl, 0, len(spec.Params))
 
-	cNamesSeen := make(map[string]struct{}, len(spec.Params))
-	for _, param := range spec.Params {
-		if len(param.Name) > 0 {
-			cNamesSeen[param.Name] = struct{}{}
-		}
-	}
-
 	crc := getRefCRC(funcSpec)
 	ptrTipRx, typeTipRx, memTipRx := gen.tr.TipRxsForSpec(tl.TipScopeFunction, funcName, funcSpec)
 	for i, param := range spec.Params {
@@ -220,13 +213,8 @@ func (gen *Generator) createCallbackProxies(funcName string, funcSpec tl.CType)
 		}
 		toBuf := new(bytes.Buffer)
 
+		// the name that writeCallbackProxyFuncParams gives to the parameter
 		cname := "c" + refName
-		_, seen := cNamesSeen[cname]
-		for seen {
-			cname = "c" + cname
-			_, seen = cNamesSeen[cname]
-		}
-		cNamesSeen[cname] = struct{}{}
 
 		refName = fmt.Sprintf("%s%2x", refName, crc)
 		toProxy, _ := gen.proxyCallbackArgToGo(memTipRx.TipAt(i), refName, cname, goSpec, cgoSpec)
-- 
2.43.0


From 181b92eb00756be6106fc7472f6031b3012898d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:46 +0000
Subject: [PATCH 39/41] fix: a panic of the C parser was a crash

---
 parser/parser.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 47d58de..d8d3203 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -111,7 +111,17 @@ func ParseWith(cfg *Config) (*cc.AST, error) {
 			Name: sourceEntry,
 		})
 	}
-	return cc.Translate(ccConfig, sources)
+	return translate(ccConfig, sources)
+}
+
+// translate reports what makes cc panic, such as a lone #define, as an error.
+func translate(cfg *cc.Config, sources []cc.Source) (ast *cc.AST, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			ast, err = nil, fmt.Errorf("parser: cannot parse the sources: %v", r)
+		}
+	}()
+	return cc.Translate(cfg, sources)
 }
 
 func checkConfig(cfg *Config) (*Config, error) {
-- 
2.43.0


From 6ac15bc7ab2d9da24f86637ce9b22fbbf8f6c594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:46 +0000
Subject: [PATCH 40/41] fix: an unsupported type was a crash

---
 process.go               |  4 +++-
 translator/ast_walker.go |  2 +-
 translator/translator.go | 15 ++++++++++++++-
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/process.go b/process.go
index 2072534..50edc51 100644
--- a/process.go
+++ b/process.go
@@ -93,7 +93,9 @@ func NewProcess(configPath, outputPath string) (*Process, error) {
 	if err != nil {
 		return nil, err
 	}
-	tl.Learn(unit)
+	if err := tl.Learn(unit); err != nil {
+		return nil, err
+	}
 
 	// begin generation
 	pkg := filepath.Base(cfg.Generator.PackageName)
diff --git a/translator/ast_walker.go b/translator/ast_walker.go
index a654df5..39b88ed 100644
--- a/translator/ast_walker.go
+++ b/translator/ast_walker.go
@@ -482,7 +482,7 @@ func (t *Translator) typeSpec(typ cc.Type, name string, deep int, isConst bool,
 		}
 		return s
 	default:
-		panic("unknown type " + typ.String())
+		panic(unsupportedType(typ.String()))
 	}
 
 	return spec
diff --git a/translator/translator.go b/translator/translator.go
index 4c6807d..13fc2be 100644
--- a/translator/translator.go
+++ b/translator/translator.go
@@ -323,13 +323,26 @@ func (s declList) Less(i, j int) bool {
 	}
 }
 
-func (t *Translator) Learn(ast *cc.AST) {
+// unsupportedType is the description of a C type that cannot be translated.
+type unsupportedType string
+
+func (t *Translator) Learn(ast *cc.AST) (err error) {
+	defer func() {
+		switch r := recover().(type) {
+		case nil:
+		case unsupportedType:
+			err = fmt.Errorf("translator: unsupported type: %s", string(r))
+		default:
+			panic(r)
+		}
+	}()
 	t.walkTranslationUnit(ast.TranslationUnit)
 	t.resolveTypedefs(t.typedefs)
 	sort.Sort(declList(t.declares))
 	sort.Sort(declList(t.typedefs))
 	t.collectDefines(t.declares, ast.Macros)
 	sort.Sort(declList(t.defines))
+	return nil
 }
 
 // This has been left intentionally.
-- 
2.43.0


From 065763a52b404c7ca51f974e5b0b94bea63d00b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:04 +0000
Subject: [PATCH 41/41] fix: types whose names begin like the marks in helper
 names shared helpers of other types

---
 generator/gen_bindings.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/generator/gen_bindings.go b/generator/gen_bindings.go
index 0043b87..d830b01 100644
--- a/generator/gen_bindings.go
+++ b/generator/gen_bindings.go
@@ -68,7 +68,11 @@ func getHelperName(goSpec tl.GoTypeSpec, cgoSpec tl.CGoSpec) string {
 	if goSpec.Unsigned {
 		buf.WriteRune('U')
 	}
-	buf.WriteString(strings.Title(goSpec.PlainType()))
+	name := strings.Title(goSpec.PlainType())
+	if len(goSpec.Raw) > 0 {
+		name = separateName(name)
+	}
+	buf.WriteString(name)
 	if len(goSpec.Raw) == 0 {
 		buf.WriteString(strings.Title(strings.TrimPrefix(cgoSpec.Base, "C.")))
 	}
@@ -97,11 +101,20 @@ func (gen *Generator) getTypedHelperName(goBase string, spec tl.CGoSpec) string
 		}
 		fmt.Fprintf(buf, "A%d", size.N)
 	}
-	buf.Write(bytes.Title(specName))
+	buf.WriteString(separateName(string(bytes.Title(specName))))
 	buf.WriteString(strings.Title(goBase))
 	return buf.String()
 }
 
+// separateName keeps the name of a type apart from the marks of arrays, slices, pointers
+// and unsigned types before it in the name of a helper: *Info is PInfo, but PInfo is _PInfo.
+func separateName(name string) string {
+	if len(name) > 0 && strings.IndexByte("ASPU", name[0]) >= 0 {
+		return "_" + name
+	}
+	return name
+}
+
 type level struct {
 	Array bool
 	Slice bool
-- 
2.43.0

