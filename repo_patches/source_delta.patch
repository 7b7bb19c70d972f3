From a78acb533f80d7fedac38c3b3c9553d56a640c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:26 +0000
Subject: [PATCH 01/81] fix: codegen: Register must not hand out a blank import

Register(p) after RegisterAliased(p, "_") returned the blank import, whose
package name cannot be used by identifiers.
---
 codegen/codegen_imports.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/codegen/codegen_imports.go b/codegen/codegen_imports.go
index 5a2700b..8005438 100644
--- a/codegen/codegen_imports.go
+++ b/codegen/codegen_imports.go
@@ -120,7 +120,7 @@ func (i *Imports) Register(importPath string) *Import {
 		locked, unlock := i.lockedVersion()
 		defer unlock()
 
-		return locked.findByImportPath(importPath).asImport()
+		return locked.findUsableByImportPath(importPath).asImport()
 	}(); got != nil {
 		return got
 	}
@@ -231,6 +231,17 @@ func (i lockedImports) findByImportPath(importPath string) *importDef {
 	return nil
 }
 
+// findUsableByImportPath is like findByImportPath, but skips blank imports,
+// which provide no package name to refer to.
+func (i lockedImports) findUsableByImportPath(importPath string) *importDef {
+	for _, def := range i.i.defs {
+		if def.path == importPath && def.packageName != blankAlias {
+			return def
+		}
+	}
+	return nil
+}
+
 // findByPackageName returns the definition by package name, the name used in
 // the source code identifiers.
 func (i lockedImports) findByPackageName(packageName string) *importDef {
-- 
2.43.0


From 4b1ea517592cb8187c382e1ba2f1d63a7c1476b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:27 +0000
Subject: [PATCH 02/81] fix: codegen: make Imports registrations atomic

Register looked for an existing import and added a new one in two separate
critical sections. A RegisterAliased of the same path in between left the path
with two imports, and Register with a result that no order of the two calls
explains.
---
 codegen/codegen_imports.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/codegen/codegen_imports.go b/codegen/codegen_imports.go
index 8005438..a7e9f1f 100644
--- a/codegen/codegen_imports.go
+++ b/codegen/codegen_imports.go
@@ -16,6 +16,10 @@ const blankAlias = "_"
 // Imports maintains a set of imports. The imports are safe for concurrent
 // access.
 type Imports struct {
+	// registering is held for the whole of a registration, which may take
+	// several steps under lock. It is acquired before lock.
+	registering sync.Mutex
+
 	lock sync.Mutex
 	defs []*importDef
 
@@ -115,6 +119,9 @@ func (i *Imports) suggestAliases(importPath string, callback func(alias string)
 
 // Register registers an import path so that it will be included in the output.
 func (i *Imports) Register(importPath string) *Import {
+	i.registering.Lock()
+	defer i.registering.Unlock()
+
 	// First check to see if we already have an entry.
 	if got := func() *Import {
 		locked, unlock := i.lockedVersion()
@@ -139,7 +146,7 @@ func (i *Imports) Register(importPath string) *Import {
 			result, lastErr = i.registerUnaliased(importPath)
 			return lastErr != nil
 		}
-		result, lastErr = i.RegisterAliased(importPath, alias)
+		result, lastErr = i.registerAliased(importPath, alias)
 		return lastErr != nil
 	})
 	return result
@@ -150,6 +157,14 @@ func (i *Imports) Register(importPath string) *Import {
 // If there is already an import for the given alias, an error will be returned
 // if it has a different import path.
 func (i *Imports) RegisterAliased(importPath, alias string) (*Import, error) {
+	i.registering.Lock()
+	defer i.registering.Unlock()
+
+	return i.registerAliased(importPath, alias)
+}
+
+// registerAliased is RegisterAliased for callers that hold i.registering.
+func (i *Imports) registerAliased(importPath, alias string) (*Import, error) {
 	if alias == "" {
 		return nil, fmt.Errorf("alias must not be empty")
 	}
-- 
2.43.0


From 02adfdde74d14e3b5e262062380412e15bcae035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:14 +0000
Subject: [PATCH 03/81] fix: csvcoder: do not parse unexported struct fields

Each public field is documented to be parsed. An unexported field was treated
as a required column and made the parser panic when a row had that column.
---
 csvcoder/csvcoder_row.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/csvcoder/csvcoder_row.go b/csvcoder/csvcoder_row.go
index f7b1ba9..660f554 100644
--- a/csvcoder/csvcoder_row.go
+++ b/csvcoder/csvcoder_row.go
@@ -266,6 +266,9 @@ func inferRegisteredType(t reflect.Type, opt ...RegisterOption) (*registeredType
 	var valueExtractors []func(row *Row, dst reflect.Value) error
 	for i := 0; i < t.Elem().NumField(); i++ {
 		f := t.Elem().FieldByIndex([]int{i})
+		if f.PkgPath != "" {
+			continue // Only public fields are parsed.
+		}
 		if _, ok := f.Tag.Lookup("csv-skip"); ok {
 			continue
 		}
-- 
2.43.0


From 4d8f77df285b33013414f83bbce01cb2bc371699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:29 +0000
Subject: [PATCH 04/81] fix: csvcoder: count rows the reader fails on

Reading can go on after an error like csv.ErrFieldCount, but every later row
was then reported at the position of the row before it.
---
 csvcoder/csvcoder_file.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/csvcoder/csvcoder_file.go b/csvcoder/csvcoder_file.go
index 9e25c17..a0a4e9d 100644
--- a/csvcoder/csvcoder_file.go
+++ b/csvcoder/csvcoder_file.go
@@ -106,6 +106,7 @@ func (fp *FileParser) Read() (interface{}, error) {
 	}
 	row := NewRow(rowVals, fp.hdr, fp.rowNum, fp.filePath)
 	if err != nil {
+		fp.rowNum++ // The reader goes on with the next row.
 		return nil, row.errorf("csv.Reader error: %w", err)
 	}
 	fp.rowNum++
-- 
2.43.0


From 71a25e97dec5e775664405021a7e1cc39e753610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:12 +0000
Subject: [PATCH 05/81] fix: csvcoder: data races between concurrent parses

ParseCell wrote the decoder of a shared parser without the lock, two first
uses of a type could leave two parsers behind, and the error for an
unregistered row type iterated over the registry without the lock.
---
 csvcoder/csvcoder_cell.go | 12 ++++++++++--
 csvcoder/csvcoder_row.go  |  2 ++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/csvcoder/csvcoder_cell.go b/csvcoder/csvcoder_cell.go
index 1b15a1e..73cccaa 100644
--- a/csvcoder/csvcoder_cell.go
+++ b/csvcoder/csvcoder_cell.go
@@ -71,8 +71,11 @@ func (cp *registeredCellParser) ParseCSVCell(ctx *CellContext, value string, fie
 	if cp.impl != nil {
 		return cp.impl.ParseCSVCell(ctx, value, field)
 	}
-	if cp.decoder != nil {
-		return cp.decoder.DecodeText(textcoder.NewContext().WithValue("csvcoder.CellContext", ctx), value, field.Interface())
+	defaultRegistryMapMutex.RLock()
+	decoder := cp.decoder
+	defaultRegistryMapMutex.RUnlock()
+	if decoder != nil {
+		return decoder.DecodeText(textcoder.NewContext().WithValue("csvcoder.CellContext", ctx), value, field.Interface())
 	}
 	panic("internal error in csvcoder: registeredCellParser has no implementation")
 }
@@ -92,6 +95,9 @@ func getOrCreateCellParserForType(t reflect.Type) (cellParser, error) {
 	if parser == nil {
 		parser = &registeredCellParser{}
 		defaultRegistryMapMutex.Lock()
+		if existing := defaultRegistry.cellParsers[t]; existing != nil {
+			parser = existing // Another goroutine was faster.
+		}
 		defaultRegistry.cellParsers[t] = parser
 		defaultRegistryMapMutex.Unlock()
 	}
@@ -99,7 +105,9 @@ func getOrCreateCellParserForType(t reflect.Type) (cellParser, error) {
 		return parser, nil
 	}
 	if dec := textcoder.DefaultRegistry().GetDecoder(t.Elem()); dec != nil {
+		defaultRegistryMapMutex.Lock()
 		parser.decoder = dec
+		defaultRegistryMapMutex.Unlock()
 		return parser, nil
 	}
 
diff --git a/csvcoder/csvcoder_row.go b/csvcoder/csvcoder_row.go
index 660f554..a8a6726 100644
--- a/csvcoder/csvcoder_row.go
+++ b/csvcoder/csvcoder_row.go
@@ -235,6 +235,8 @@ func getRegisteredTypeOrErr(t reflect.Type) (*registeredType, error) {
 	rt := getRegisteredType(t)
 	if rt == nil {
 		var typeStrings []string
+		defaultRegistry.registeredRowTypesLock.RLock()
+		defer defaultRegistry.registeredRowTypesLock.RUnlock()
 		for _, rt := range defaultRegistry.registeredRowTypes {
 			typeStrings = append(typeStrings, fmt.Sprintf("%v", rt))
 		}
-- 
2.43.0


From 537e63d5f8f77466b8f6ae709970cd9cb427017a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:43 +0000
Subject: [PATCH 06/81] fix: textcoder: UnmarshalContext must pass its context
 on

The decoder was called with a new context, so the caller's values were lost.
---
 textcoder/textcoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/textcoder/textcoder.go b/textcoder/textcoder.go
index 7514295..dcd1691 100644
--- a/textcoder/textcoder.go
+++ b/textcoder/textcoder.go
@@ -381,7 +381,7 @@ func UnmarshalContext(ctx *Context, value string, dst T) error {
 	if dec == nil {
 		return fmt.Errorf("no registered decoder for type %v", t)
 	}
-	return dec.DecodeText(NewContext(), value, dst)
+	return dec.DecodeText(ctx, value, dst)
 }
 
 // MarshalContext attempts to encode the value into a string using one of the
-- 
2.43.0


From 1a6bf87108294c72b7a57ea97e889d0474b21c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:43 +0000
Subject: [PATCH 07/81] fix: textcoder: encode values whose pointer type is a
 TextMarshaler

GetEncoder(T) returns a coder when *T implements encoding.TextMarshaler, but
that coder refused every value of type T.
---
 textcoder/textcoder.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/textcoder/textcoder.go b/textcoder/textcoder.go
index dcd1691..f27acc9 100644
--- a/textcoder/textcoder.go
+++ b/textcoder/textcoder.go
@@ -584,6 +584,12 @@ func (c *textEncodingCoder) DecodeText(_ *Context, text string, dst T) error {
 
 func (c *textEncodingCoder) EncodeText(_ *Context, value T) (string, error) {
 	m, ok := value.(encoding.TextMarshaler)
+	if !ok && value != nil {
+		// MarshalText may be defined on the pointer type.
+		ptr := reflect.New(reflect.TypeOf(value))
+		ptr.Elem().Set(reflect.ValueOf(value))
+		m, ok = ptr.Interface().(encoding.TextMarshaler)
+	}
 	if !ok {
 		return "", fmt.Errorf("value does not implement encoding.TextMarshaler: %v of type %v", value, reflect.TypeOf(value))
 	}
-- 
2.43.0


From a4950ab1fce4c00bdb7efb06317cf8c7a066821b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:39 +0000
Subject: [PATCH 08/81] fix: csvtoproto: generated code for Duration fields
 must compile and use the unit suffix

---
 csvtoproto/csvtoproto_go_codegen.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/csvtoproto/csvtoproto_go_codegen.go b/csvtoproto/csvtoproto_go_codegen.go
index 5d806fa..31ac6b1 100644
--- a/csvtoproto/csvtoproto_go_codegen.go
+++ b/csvtoproto/csvtoproto_go_codegen.go
@@ -301,7 +301,7 @@ func getFieldTypeCode(c2f *pb.ColumnToFieldMapping) (*fieldTypeCode, error) {
 		typeName := strcase.LowerCamelCase(c2f.GetProtoName() + "Duration")
 		code, err := templateExecString(durationTypeTemplate, map[string]string{
 			"T":    typeName,
-			"unit": c2f.GetTimeFormat().GetGoLayout(),
+			"unit": c2f.GetDurationFormat().GetGoUnitSuffix(),
 		})
 		if err != nil {
 			return nil, err
@@ -351,12 +351,12 @@ func (d {{.T}}) duration() time.Duration {
 
 func init() {
 	textcoder.Register(
-		reflect.TypeOf({{.T}}{}),
+		reflect.TypeOf({{.T}}(0)),
 		func(d {{.T}}) (string, error) {
-			return d.Duration().String(), nil
+			return d.duration().String(), nil
 		},
 		func(s string, dst *{{.T}}) error {
-			d, err := csvtoprotoparse.ParseDuration(s, unit)
+			d, err := time.ParseDuration(s + {{.unit | printf "%q"}})
 			if err != nil {
 				return fmt.Errorf("error parsing {{.T}}: %w", err)
 			}
-- 
2.43.0


From aff969a91bbccdd0690eb1d6ba5c78c545a13a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:04 +0000
Subject: [PATCH 09/81] fix: csvtoproto: refer to proto fields and messages by
 the names protoc-gen-go gives them

---
 csvtoproto/csvtoproto_go_codegen.go | 70 +++++++++++++++++++++++++++--
 1 file changed, 67 insertions(+), 3 deletions(-)

diff --git a/csvtoproto/csvtoproto_go_codegen.go b/csvtoproto/csvtoproto_go_codegen.go
index 31ac6b1..9613742 100644
--- a/csvtoproto/csvtoproto_go_codegen.go
+++ b/csvtoproto/csvtoproto_go_codegen.go
@@ -184,7 +184,7 @@ func (cg *codeGenerator) sharedTemplateParams() (map[string]string, error) {
 	return map[string]string{
 		"package":      cg.mapping.GoOptions.GoPackageName,
 		"proto_import": cg.mapping.GoOptions.ProtoImport,
-		"message_type": fmt.Sprintf("pb.%s", cg.mapping.MessageName),
+		"message_type": fmt.Sprintf("pb.%s", goCamelCase(cg.mapping.MessageName)),
 		"struct_name":  cg.recordStructTypeName(),
 	}, nil
 }
@@ -204,12 +204,18 @@ func (cg *codeGenerator) makeStructCode() (*structCode, error) {
 	fieldLines := []string{""}
 	var toProtoInitStatements, protoFieldLiterals []string
 
+	protoGoNames := protoFieldGoNames(cg.mapping)
+
 	for i, c2f := range cg.mapping.ColumnToFieldMappings {
 		if c2f.Ignored {
 			continue
 		}
 
-		fieldName := strcase.UpperCamelCase(c2f.ProtoName)
+		protoGoName := protoGoNames[i]
+		fieldName := protoGoName
+		if fieldName == "Proto" {
+			fieldName += "_" // The record type has a method of that name.
+		}
 		fieldType, err := getFieldTypeCode(c2f)
 		if err != nil {
 			return nil, fmt.Errorf("failed to generate code for mapping[%d] = %v: %w", i, c2f, err)
@@ -230,7 +236,7 @@ func (cg *codeGenerator) makeStructCode() (*structCode, error) {
 			toProtoInitStatements = append(toProtoInitStatements, expr.parseStatements)
 		}
 
-		protoFieldLiterals = append(protoFieldLiterals, fmt.Sprintf("%s: %s,", strcase.UpperCamelCase(c2f.ProtoName), expr.valueExpr))
+		protoFieldLiterals = append(protoFieldLiterals, fmt.Sprintf("%s: %s,", protoGoName, expr.valueExpr))
 	}
 
 	structDef := fmt.Sprintf("type %s struct{%s\n}", structName, strings.Join(fieldLines, "\n  "))
@@ -247,6 +253,64 @@ func (cg *codeGenerator) makeStructCode() (*structCode, error) {
 	return &structCode{structDef + b.String()}, nil
 }
 
+// protoFieldGoNames returns the names protoc-gen-go gives to the fields of the
+// mapping's message, by index in the column mappings.
+func protoFieldGoNames(mapping *pb.RecordProtoMapping) map[int]string {
+	// These names are taken by methods of generated messages. See makeNameUnique
+	// in google.golang.org/protobuf/compiler/protogen.
+	used := map[string]bool{
+		"Reset":               true,
+		"String":              true,
+		"ProtoMessage":        true,
+		"Marshal":             true,
+		"Unmarshal":           true,
+		"ExtensionRangeArray": true,
+		"ExtensionMap":        true,
+		"Descriptor":          true,
+	}
+	names := make(map[int]string)
+	for i, c2f := range mapping.GetColumnToFieldMappings() {
+		if c2f.GetIgnored() {
+			continue
+		}
+		name := goCamelCase(c2f.GetProtoName())
+		for used[name] || used["Get"+name] {
+			name += "_"
+		}
+		used[name] = true
+		used["Get"+name] = true
+		names[i] = name
+	}
+	return names
+}
+
+// goCamelCase camel-cases a proto name the way protoc-gen-go does, which differs
+// from strcase.UpperCamelCase for digits and upper case letters.
+func goCamelCase(s string) string {
+	isLower := func(i int) bool { return i < len(s) && 'a' <= s[i] && s[i] <= 'z' }
+	var out []byte
+	for i := 0; i < len(s); i++ {
+		c := s[i]
+		switch {
+		case c == '_' && i == 0:
+			out = append(out, 'X')
+		case c == '_' && isLower(i+1):
+			// The underscore is dropped and the next letter capitalized.
+		case '0' <= c && c <= '9':
+			out = append(out, c)
+		default:
+			if isLower(i) {
+				c -= 'a' - 'A'
+			}
+			out = append(out, c)
+			for ; isLower(i + 1); i++ {
+				out = append(out, s[i+1])
+			}
+		}
+	}
+	return string(out)
+}
+
 var toProtoTemplate = template.Must(template.New("toProtoTemplate").Parse(
 	`
 func (r *{{.struct_name}}) Proto() (*{{.message_type}}, error) {
-- 
2.43.0


From 040390eb853b96ddd30bbda5deb5c2c0ba34f283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:05 +0000
Subject: [PATCH 10/81] fix: csvtoproto: column names with a backquote must
 give valid Go

---
 csvtoproto/csvtoproto_go_codegen.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/csvtoproto/csvtoproto_go_codegen.go b/csvtoproto/csvtoproto_go_codegen.go
index 9613742..859a517 100644
--- a/csvtoproto/csvtoproto_go_codegen.go
+++ b/csvtoproto/csvtoproto_go_codegen.go
@@ -223,7 +223,7 @@ func (cg *codeGenerator) makeStructCode() (*structCode, error) {
 		if fieldType.topLevelCode != "" {
 			topLevelLines = append(topLevelLines, fieldType.topLevelCode)
 		}
-		fieldLines = append(fieldLines, fmt.Sprintf("%s %s `csv:%q`", fieldName, fieldType.typeName, c2f.GetColName()))
+		fieldLines = append(fieldLines, fmt.Sprintf("%s %s %s", fieldName, fieldType.typeName, structTag(c2f.GetColName())))
 
 		expr, err := getGoToProtoFieldExpression(
 			fmt.Sprintf("r.%s", fieldName),
@@ -253,6 +253,15 @@ func (cg *codeGenerator) makeStructCode() (*structCode, error) {
 	return &structCode{structDef + b.String()}, nil
 }
 
+// structTag returns the code of the struct tag for the given column.
+func structTag(colName string) string {
+	tag := fmt.Sprintf("csv:%q", colName)
+	if strings.Contains(tag, "`") {
+		return fmt.Sprintf("%q", tag)
+	}
+	return "`" + tag + "`"
+}
+
 // protoFieldGoNames returns the names protoc-gen-go gives to the fields of the
 // mapping's message, by index in the column mappings.
 func protoFieldGoNames(mapping *pb.RecordProtoMapping) map[int]string {
-- 
2.43.0


From 72dc94c6e92439740010ce14dfcce0007a7fa124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:33 +0000
Subject: [PATCH 11/81] fix: recordinfer: give every column a valid and
 distinct field name

---
 recordinfer/recordinfer.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/recordinfer/recordinfer.go b/recordinfer/recordinfer.go
index 97a8057..e1c81ce 100644
--- a/recordinfer/recordinfer.go
+++ b/recordinfer/recordinfer.go
@@ -140,6 +140,7 @@ func (b *RecordBasedInferrer) Build() (*InferredProto, error) {
 		goOpts:      gOpts,
 	}
 
+	usedFieldNames := make(map[string]bool)
 	for i := 0; i < numCols; i++ {
 		cv := &columnValues{i, b.rows}
 		comment := cv.statisticalComment()
@@ -149,7 +150,7 @@ func (b *RecordBasedInferrer) Build() (*InferredProto, error) {
 		}
 		result.columns = append(result.columns, &inferredColumn{
 			csvColumnName: cv.columnName(),
-			fieldName:     columnNameToFieldName(cv.columnName()),
+			fieldName:     uniqueFieldName(columnNameToFieldName(cv.columnName()), i+1, usedFieldNames),
 			columnType:    colType,
 			tag:           i + 1,
 			comment:       comment,
@@ -310,3 +311,22 @@ func columnNameToFieldName(colName string) string {
 	s = strings.TrimSuffix(s, "_")
 	return strcase.SnakeCase(s)
 }
+
+// uniqueFieldName returns a valid field name based on the given one that does not
+// conflict with any used before, and marks it used.
+func uniqueFieldName(name string, columnNumber int, used map[string]bool) string {
+	if name == "" {
+		name = fmt.Sprintf("column_%d", columnNumber)
+	} else if name[0] >= '0' && name[0] <= '9' {
+		name = "column_" + name
+	}
+	// Names that differ only in underscores conflict because their JSON names are
+	// the same.
+	key := func(s string) string { return strings.ReplaceAll(s, "_", "") }
+	out := name
+	for i := 2; used[key(out)]; i++ {
+		out = fmt.Sprintf("%s_%d", name, i)
+	}
+	used[key(out)] = true
+	return out
+}
-- 
2.43.0


From 33231034c71e0b5df3574a88bcc9d24fa7c664fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:34 +0000
Subject: [PATCH 12/81] fix: recordinfer: Code must print import statements

---
 recordinfer/recordinfer.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/recordinfer/recordinfer.go b/recordinfer/recordinfer.go
index e1c81ce..c58ec77 100644
--- a/recordinfer/recordinfer.go
+++ b/recordinfer/recordinfer.go
@@ -43,10 +43,16 @@ type InferredProto struct {
 // Code returns the source for a .proto file.
 func (ip *InferredProto) Code() string {
 	var imports []string
+	imported := make(map[string]bool)
 	body := ""
 	for _, col := range ip.columns {
 		body += fmt.Sprintf("%s\n", col.protoFieldCode())
-		imports = append(imports, col.columnType.protoImports()...)
+		for _, path := range col.columnType.protoImports() {
+			if !imported[path] {
+				imported[path] = true
+				imports = append(imports, fmt.Sprintf("import %q;", path))
+			}
+		}
 	}
 
 	return fmt.Sprintf(`syntax = "proto3";
-- 
2.43.0


From f9bf9f3eb9a89dcd2def331ca8ca80c512bd6507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:54 +0000
Subject: [PATCH 13/81] fix: service: refuse bad output paths before writing
 any file

---
 service/service_generate_code.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/service/service_generate_code.go b/service/service_generate_code.go
index 15c4f00..69c4fff 100644
--- a/service/service_generate_code.go
+++ b/service/service_generate_code.go
@@ -47,6 +47,18 @@ func (s *service) GenerateCode(ctx context.Context, req *spb.GenerateCodeRequest
 		return nil, grpc.Errorf(codes.InvalidArgument, "failed to generate code: %v", err)
 	}
 
+	// Refuse bad output paths before any file is written.
+	if genProto {
+		if _, _, err := s.protoPath(req); err != nil {
+			return nil, grpc.Errorf(codes.InvalidArgument, "invalid output specification for .proto file: %v", err)
+		}
+	}
+	if genGo {
+		if _, _, err := s.converterGoPath(req); err != nil {
+			return nil, grpc.Errorf(codes.InvalidArgument, "invalid output specification for .go file: %v", err)
+		}
+	}
+
 	var outputProtoFile *spb.GenerateCodeResponse_File
 	if genProto {
 		codePath, codePathWSRelative, err := s.protoPath(req)
-- 
2.43.0


From 00febc3e8561d1218febaf284e2b9979765df859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:52 +0000
Subject: [PATCH 14/81] fix: wirepath: parse sfixed32 map keys as sfixed32

---
 wirepath/wirepath_from_string.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wirepath/wirepath_from_string.go b/wirepath/wirepath_from_string.go
index 8d296ba..74cb037 100644
--- a/wirepath/wirepath_from_string.go
+++ b/wirepath/wirepath_from_string.go
@@ -203,7 +203,7 @@ func setSlotBasedOnMapKeyLiteral(out *pb.WirePath, literal, typeName string) err
 		case "sint32":
 			out.Slot = &pb.WirePath_MapKeySint32{MapKeySint32: int32(number)}
 		case "sfixed32":
-			out.Slot = &pb.WirePath_MapKeySfixed64{MapKeySfixed64: int64(number)}
+			out.Slot = &pb.WirePath_MapKeySfixed32{MapKeySfixed32: int32(number)}
 		default:
 			panic("bug")
 		}
-- 
2.43.0


From a366f41dc632fc82473a5f3a980e340717bd4e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:52 +0000
Subject: [PATCH 15/81] fix: wirepath: keep every element of a parsed path

---
 wirepath/wirepath_from_string.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wirepath/wirepath_from_string.go b/wirepath/wirepath_from_string.go
index 74cb037..70b6c64 100644
--- a/wirepath/wirepath_from_string.go
+++ b/wirepath/wirepath_from_string.go
@@ -74,11 +74,11 @@ func ParseString(wirePathLiteral string) (*WirePath, error) {
 		}
 		elems = append(elems, elem)
 		if parent == nil {
-			parent = elem
 			topLevel = elem
 		} else {
 			parent.Child = elem
 		}
+		parent = elem
 	}
 	return FromProto(topLevel)
 }
-- 
2.43.0


From 057610d4c94369737f84aca7a9d18edea8ba550e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:16 +0000
Subject: [PATCH 16/81] fix: wirepath: string map keys must survive printing
 and parsing

---
 wirepath/wirepath.go              |  2 +-
 wirepath/wirepath_protostrings.go | 28 +++++++++++++++++++++++++++-
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/wirepath/wirepath.go b/wirepath/wirepath.go
index 4e10f07..0728ffb 100644
--- a/wirepath/wirepath.go
+++ b/wirepath/wirepath.go
@@ -288,7 +288,7 @@ func extractPrettyPathElem(path *WirePath, value protoreflect.Value) (*pathElemP
 			}
 
 		case *pb.WirePath_MapKeyString:
-			out.formattedSlot = strconv.Quote(slot.MapKeyString)
+			out.formattedSlot = quoteProtobufString(slot.MapKeyString)
 			mapKey = protoreflect.ValueOf(slot.MapKeyString).MapKey()
 
 		case *pb.WirePath_MapKeyInt32:
diff --git a/wirepath/wirepath_protostrings.go b/wirepath/wirepath_protostrings.go
index e17ef14..c6a8bf9 100644
--- a/wirepath/wirepath_protostrings.go
+++ b/wirepath/wirepath_protostrings.go
@@ -5,6 +5,7 @@ import (
 	"regexp"
 	"strconv"
 	"strings"
+	"unicode/utf8"
 )
 
 // const (
@@ -29,7 +30,7 @@ const (
 		`\\[xX](` + hexDigit + hexDigit + `)|` + // hex
 		`\\0(` + octalDigit + octalDigit + octalDigit + `)|` + // octal
 		`\\([abfnrtv\\'"])` + "|" + // charEscape
-		`([^\0\n\\])` + // regular character
+		`([^\0\n\\"])` + // regular character
 		`)`
 	protobufStringLiteralDoubleQuoted = `(?:"` + protobufStringLiteralChar + `*")`
 )
@@ -118,6 +119,31 @@ func parseProtobufStringLiteral(literal string) (string, error) {
 	return out.String(), nil
 }
 
+// quoteProtobufString returns a literal that parseProtobufStringLiteral parses
+// as s.
+func quoteProtobufString(s string) string {
+	out := &strings.Builder{}
+	out.WriteByte('"')
+	for i := 0; i < len(s); {
+		r, size := utf8.DecodeRuneInString(s[i:])
+		switch c := s[i : i+size]; {
+		case r == '"' || r == '\\':
+			out.WriteString(`\` + c)
+		case r == '\n':
+			out.WriteString(`\n`)
+		case strconv.IsPrint(r) && !(r == utf8.RuneError && size == 1):
+			out.WriteString(c)
+		default:
+			for j := 0; j < size; j++ {
+				fmt.Fprintf(out, `\x%02x`, c[j])
+			}
+		}
+		i += size
+	}
+	out.WriteByte('"')
+	return out.String()
+}
+
 // 	bytePos := 0
 // 	read := func() (rune, error) {
 // 		r, count, err := reader.ReadRune()
-- 
2.43.0


From deffb54d5790f2ca62ed260c71f52d73cdf081e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:17 +0000
Subject: [PATCH 17/81] fix: wirepath: print bool map keys in the form that
 parses

---
 wirepath/wirepath.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/wirepath/wirepath.go b/wirepath/wirepath.go
index 0728ffb..b19684d 100644
--- a/wirepath/wirepath.go
+++ b/wirepath/wirepath.go
@@ -332,7 +332,11 @@ func extractPrettyPathElem(path *WirePath, value protoreflect.Value) (*pathElemP
 			mapKey = protoreflect.ValueOf(slot.MapKeySfixed64).MapKey()
 
 		case *pb.WirePath_MapKeyBool:
-			out.formattedSlot = formattedSlotForMapKey(fmt.Sprintf("%v", slot.MapKeyBool), protoreflect.BoolKind)
+			literal := "0"
+			if slot.MapKeyBool {
+				literal = "1"
+			}
+			out.formattedSlot = formattedSlotForMapKey(literal, protoreflect.BoolKind)
 			mapKey = protoreflect.ValueOf(slot.MapKeyBool).MapKey()
 
 		default:
-- 
2.43.0


From becda32a7029be8041f601dcbc428b63112fd02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:17 +0000
Subject: [PATCH 18/81] fix: wirepath: print long paths in full

---
 wirepath/wirepath.go | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/wirepath/wirepath.go b/wirepath/wirepath.go
index b19684d..f82270e 100644
--- a/wirepath/wirepath.go
+++ b/wirepath/wirepath.go
@@ -185,15 +185,10 @@ func debugString(path *WirePath, evaluatedAgainstValue protoreflect.Value, forma
 		formatOpts = &pathFormatOptions{}
 	}
 	var strs []string
-	i := 0
 	for ; path != nil && path.proto != nil; path = path.child() {
 		elem, childValue := extractPrettyPathElem(path, evaluatedAgainstValue)
 		strs = append(strs, elem.string(formatOpts))
 		evaluatedAgainstValue = childValue
-		i++
-		if i > 10 {
-			break
-		}
 	}
 	return strings.Join(strs, "/")
 }
-- 
2.43.0


From 9c1b8f9778900badc27f6a223e691b6ae5c341a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:18 +0000
Subject: [PATCH 19/81] fix: wirepath: an element with neither field nor
 special path means SELF

---
 wirepath/wirepath.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/wirepath/wirepath.go b/wirepath/wirepath.go
index f82270e..d11cd50 100644
--- a/wirepath/wirepath.go
+++ b/wirepath/wirepath.go
@@ -81,7 +81,7 @@ func getValue(ctx *getValueContext) (protoreflect.Value, error) {
 	}
 
 	var immediateValue protoreflect.Value
-	if p.proto.GetSpecialPath() == pb.WirePath_SELF {
+	if isSelf(p.proto) {
 		immediateValue = protoreflect.ValueOfMessage(within.ProtoReflect())
 	} else {
 		m := within.ProtoReflect()
@@ -137,6 +137,12 @@ func getValue(ctx *getValueContext) (protoreflect.Value, error) {
 	return getValue(newCtx)
 }
 
+// isSelf reports whether the path element refers to the value it is evaluated
+// against. SELF is implied if neither a field nor a special path is set.
+func isSelf(p *pb.WirePath) bool {
+	return p.GetElement() == nil || p.GetSpecialPath() == pb.WirePath_SELF
+}
+
 func slotMapKeyValue(p *WirePath) protoreflect.MapKey {
 	switch slot := p.proto.GetSlot().(type) {
 	case *pb.WirePath_MapKeyString:
@@ -232,7 +238,7 @@ func extractPrettyPathElem(path *WirePath, value protoreflect.Value) (*pathElemP
 	out := &pathElemPretty{}
 	var immediateValue protoreflect.Value
 	var fieldDescriptor protoreflect.FieldDescriptor
-	if path == nil || path.proto == nil || path.proto.GetSpecialPath() == pb.WirePath_SELF {
+	if path == nil || path.proto == nil || isSelf(path.proto) {
 		out.self = true
 		immediateValue = value
 	} else {
-- 
2.43.0


From 5b67ea50d20d116fba484f6c4d077f6906114e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:18 +0000
Subject: [PATCH 20/81] fix: wirepath: report an error for unknown fields
 instead of panicking

---
 wirepath/wirepath.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wirepath/wirepath.go b/wirepath/wirepath.go
index d11cd50..67c7fae 100644
--- a/wirepath/wirepath.go
+++ b/wirepath/wirepath.go
@@ -87,6 +87,9 @@ func getValue(ctx *getValueContext) (protoreflect.Value, error) {
 		m := within.ProtoReflect()
 
 		fieldDescriptor := m.Descriptor().Fields().ByNumber(protoreflect.FieldNumber(p.proto.GetFieldNumber()))
+		if fieldDescriptor == nil {
+			return protoreflect.Value{}, ctx.errorf("%s has no field number %d", m.Descriptor().FullName(), p.proto.GetFieldNumber())
+		}
 		immediateValue = m.Get(fieldDescriptor)
 	}
 	if p.proto.GetSlot() != nil {
-- 
2.43.0


From e5c92904c6cc928e90f749d44a31cceee081358a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:19 +0000
Subject: [PATCH 21/81] fix: wirepath: report an error for negative list
 offsets instead of panicking

---
 wirepath/wirepath.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wirepath/wirepath.go b/wirepath/wirepath.go
index 67c7fae..d15627f 100644
--- a/wirepath/wirepath.go
+++ b/wirepath/wirepath.go
@@ -98,7 +98,7 @@ func getValue(ctx *getValueContext) (protoreflect.Value, error) {
 			if !ok {
 				return protoreflect.Value{}, ctx.errorf("path references element %d of a non-repeated field", slot)
 			}
-			if int(slot.RepeatedFieldOffset) >= list.Len() {
+			if slot.RepeatedFieldOffset < 0 || slot.RepeatedFieldOffset >= int64(list.Len()) {
 				return protoreflect.Value{}, ctx.errorf("%d is out of range (repeated field length = %d)", slot, list.Len())
 			}
 			immediateValue = list.Get(int(slot.RepeatedFieldOffset))
@@ -280,11 +280,11 @@ func extractPrettyPathElem(path *WirePath, value protoreflect.Value) (*pathElemP
 		var mapKey protoreflect.MapKey
 		switch slot := path.proto.GetSlot().(type) {
 		case *pb.WirePath_RepeatedFieldOffset:
-			out.formattedSlot = strconv.Itoa(int(slot.RepeatedFieldOffset))
+			out.formattedSlot = strconv.FormatInt(slot.RepeatedFieldOffset, 10)
 
 			list, isList := immediateValue.Interface().(protoreflect.List)
 			if isList {
-				if int(slot.RepeatedFieldOffset) < list.Len() {
+				if slot.RepeatedFieldOffset >= 0 && slot.RepeatedFieldOffset < int64(list.Len()) {
 					childValue = list.Get(int(slot.RepeatedFieldOffset))
 				} else {
 					childValue = list.NewElement()
-- 
2.43.0


From de526fd3396ffb7b741e9ca49b04d0ece1b54c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:40 +0000
Subject: [PATCH 22/81] fix: wirepath: report an error for map keys of another
 type instead of panicking

---
 wirepath/wirepath.go | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/wirepath/wirepath.go b/wirepath/wirepath.go
index d15627f..008a248 100644
--- a/wirepath/wirepath.go
+++ b/wirepath/wirepath.go
@@ -81,12 +81,13 @@ func getValue(ctx *getValueContext) (protoreflect.Value, error) {
 	}
 
 	var immediateValue protoreflect.Value
+	var fieldDescriptor protoreflect.FieldDescriptor
 	if isSelf(p.proto) {
 		immediateValue = protoreflect.ValueOfMessage(within.ProtoReflect())
 	} else {
 		m := within.ProtoReflect()
 
-		fieldDescriptor := m.Descriptor().Fields().ByNumber(protoreflect.FieldNumber(p.proto.GetFieldNumber()))
+		fieldDescriptor = m.Descriptor().Fields().ByNumber(protoreflect.FieldNumber(p.proto.GetFieldNumber()))
 		if fieldDescriptor == nil {
 			return protoreflect.Value{}, ctx.errorf("%s has no field number %d", m.Descriptor().FullName(), p.proto.GetFieldNumber())
 		}
@@ -112,6 +113,9 @@ func getValue(ctx *getValueContext) (protoreflect.Value, error) {
 			if mapKey.IsValid() && !valueIsMap() {
 				return protoreflect.Value{}, ctx.errorf("tried to get value of map key %v of value that is not a Map", mapKey.Interface())
 			}
+			if kind := fieldDescriptor.MapKey().Kind(); !mapKeyFits(mapKey, kind) {
+				return protoreflect.Value{}, ctx.errorf("map key %v does not have the type %s of the map's keys", mapKey.Interface(), kind)
+			}
 			immediateValue = immediateValue.Map().Get(mapKey)
 
 		} else {
@@ -146,6 +150,25 @@ func isSelf(p *pb.WirePath) bool {
 	return p.GetElement() == nil || p.GetSpecialPath() == pb.WirePath_SELF
 }
 
+// mapKeyFits reports whether maps with keys of the given kind can have the key.
+func mapKeyFits(key protoreflect.MapKey, kind protoreflect.Kind) bool {
+	switch key.Interface().(type) {
+	case string:
+		return kind == protoreflect.StringKind
+	case bool:
+		return kind == protoreflect.BoolKind
+	case int32:
+		return kind == protoreflect.Int32Kind || kind == protoreflect.Sint32Kind || kind == protoreflect.Sfixed32Kind
+	case int64:
+		return kind == protoreflect.Int64Kind || kind == protoreflect.Sint64Kind || kind == protoreflect.Sfixed64Kind
+	case uint32:
+		return kind == protoreflect.Uint32Kind || kind == protoreflect.Fixed32Kind
+	case uint64:
+		return kind == protoreflect.Uint64Kind || kind == protoreflect.Fixed64Kind
+	}
+	return false
+}
+
 func slotMapKeyValue(p *WirePath) protoreflect.MapKey {
 	switch slot := p.proto.GetSlot().(type) {
 	case *pb.WirePath_MapKeyString:
-- 
2.43.0


From 3d13bdbc6a14a9e74687980c284a31d5ea78a5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:02 +0000
Subject: [PATCH 23/81] fix: wirepath: map key on SELF of a map must not panic

---
 wirepath/wirepath.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/wirepath/wirepath.go b/wirepath/wirepath.go
index 008a248..4a61ef7 100644
--- a/wirepath/wirepath.go
+++ b/wirepath/wirepath.go
@@ -375,10 +375,9 @@ func extractPrettyPathElem(path *WirePath, value protoreflect.Value) (*pathElemP
 
 			if !isMap {
 				out.error = fmt.Errorf("specified map key for non-map value")
+			} else if fieldDescriptor == nil {
+				out.error = fmt.Errorf("specified map key without a map field")
 			} else {
-				if fieldDescriptor == nil {
-					panic("internal assumption is incorrect - field descriptor should be available")
-				}
 				if got, want := fieldDescriptor.MapKey().Kind(), mapKeyKind; got != want {
 					out.error = fmt.Errorf("wirepath specifies map key %v of kind %s, %s key type is %s", mapKey.Interface(), want, fieldDescriptor.FullName(), got)
 				} else {
-- 
2.43.0


From de0db8cf8a03e23e3dc0b5275ec0ec48085a8a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:07 +0000
Subject: [PATCH 24/81] fix: sexpr: keep slashes that are part of a symbol

---
 sexpr/sexpr.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sexpr/sexpr.go b/sexpr/sexpr.go
index fc143fe..02824ab 100644
--- a/sexpr/sexpr.go
+++ b/sexpr/sexpr.go
@@ -317,6 +317,7 @@ loop:
 			// is in the middle of the symbol.
 			r2, err := fr.src.readRune()
 			if err == io.EOF {
+				literal.WriteRune(r)
 				break loop
 			}
 			if err := fr.src.unreadRune(); err != nil {
@@ -330,6 +331,7 @@ loop:
 				}
 				break loop
 			}
+			literal.WriteRune(r)
 		default:
 			literal.WriteRune(r)
 		}
@@ -363,6 +365,9 @@ func (fr *FormReader) readPossibleComment(start cursorOffset) (CommentForm, bool
 	contents := strings.Builder{}
 	contents.WriteRune('/')
 	secondCommentRune, err := fr.src.readRune()
+	if err == io.EOF {
+		return nil, false, nil
+	}
 	if err != nil {
 		return nil, false, err
 	}
-- 
2.43.0


From 7c3c0575b4b4e8c339866ad498e70e2753ac31ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:07 +0000
Subject: [PATCH 25/81] fix: sexpr: an escaped backslash does not escape the
 character after it

---
 sexpr/sexpr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sexpr/sexpr.go b/sexpr/sexpr.go
index 02824ab..c0a38e9 100644
--- a/sexpr/sexpr.go
+++ b/sexpr/sexpr.go
@@ -233,7 +233,7 @@ loop:
 		default:
 			value.WriteRune(r)
 		}
-		prevCharWasEscape = (r == '\\')
+		prevCharWasEscape = (r == '\\') && !prevCharWasEscape
 	}
 	parsedValue, err := strconv.Unquote(value.String())
 	if err != nil {
-- 
2.43.0


From e4a355874dc2e7e74d8a66c4948d04f67f75909a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:08 +0000
Subject: [PATCH 26/81] fix: sexpr: end block comments at */ even after another
 *

---
 sexpr/sexpr.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sexpr/sexpr.go b/sexpr/sexpr.go
index c0a38e9..ca2b532 100644
--- a/sexpr/sexpr.go
+++ b/sexpr/sexpr.go
@@ -387,8 +387,7 @@ func (fr *FormReader) readPossibleComment(start cursorOffset) (CommentForm, bool
 			if r != '*' {
 				continue
 			}
-			r2, err := fr.src.readRune()
-			contents.WriteRune(r2)
+			r2, err := fr.src.peekRune()
 			if err == io.EOF {
 				break
 			}
@@ -396,6 +395,10 @@ func (fr *FormReader) readPossibleComment(start cursorOffset) (CommentForm, bool
 				return nil, false, err
 			}
 			if r2 == '/' {
+				if _, err := fr.src.readRune(); err != nil {
+					return nil, false, err
+				}
+				contents.WriteRune(r2)
 				break
 			}
 		}
-- 
2.43.0


From f2e62ec7261c411cbfb80eef05ccfb9e4b734e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:23 +0000
Subject: [PATCH 27/81] fix: sexpr: read inf and nan as symbols

---
 sexpr/sexpr_util.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sexpr/sexpr_util.go b/sexpr/sexpr_util.go
index 5a72ce1..b9a21c7 100644
--- a/sexpr/sexpr_util.go
+++ b/sexpr/sexpr_util.go
@@ -3,6 +3,7 @@ package sexpr
 import (
 	"fmt"
 	"go/constant"
+	"math"
 	"regexp"
 	"strconv"
 )
@@ -52,7 +53,7 @@ func parseNumber(s string) (*number, error) {
 		return &number{int64: &i}, nil
 	}
 	f, err := strconv.ParseFloat(s, 64)
-	if err == nil {
+	if err == nil && !math.IsInf(f, 0) && !math.IsNaN(f) {
 		return &number{float64: &f}, nil
 	}
 	// TODO: IF the token is a possible number, return error.
-- 
2.43.0


From 31773b027a65415c263232f05b7824bf471abf93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:24 +0000
Subject: [PATCH 28/81] fix: sexpr: ReadForm must skip comments and whitespace
 of custom factories

---
 sexpr/sexpr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sexpr/sexpr.go b/sexpr/sexpr.go
index ca2b532..a0573fc 100644
--- a/sexpr/sexpr.go
+++ b/sexpr/sexpr.go
@@ -113,7 +113,7 @@ func (fr *FormReader) ReadForm() (Form, error) {
 		if err != nil {
 			return nil, err
 		}
-		if _, ok := form.(nonSubstantiveForm); ok {
+		if _, ok := form.(ValuelessForm); ok {
 			continue
 		}
 		return form, nil
-- 
2.43.0


From 838ddacb544a87d522eaf680cd0389098b63627a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:26 +0000
Subject: [PATCH 29/81] fix: textpos: PosForLineColumn must not run into the
 next line

---
 textpos/textpos_from_go_token.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/textpos/textpos_from_go_token.go b/textpos/textpos_from_go_token.go
index b79aaa8..3f9c462 100644
--- a/textpos/textpos_from_go_token.go
+++ b/textpos/textpos_from_go_token.go
@@ -485,6 +485,10 @@ func (f *File) PosForLineColumn(lc LineColumn) Pos {
 	if lineStartPos == NoPos {
 		return NoPos
 	}
+	// Columns at or past the start of the next line are out of bounds.
+	if next := lc.Line().Ordinal(); next < len(f.lines) && lc.Column().Offset() >= f.lines[next]-f.lines[next-1] {
+		return NoPos
+	}
 	finalPos := lineStartPos + Pos(lc.Column().Offset())
 	if f.checkPos(finalPos) != nil {
 		return NoPos
-- 
2.43.0


From 67e409f4f0154e4424efe34e719c5f5052f8c18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:26 +0000
Subject: [PATCH 30/81] fix: textpos: print an invalid column of a LineColumn
 as -

---
 textpos/textpos.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/textpos/textpos.go b/textpos/textpos.go
index ee9e605..183b060 100644
--- a/textpos/textpos.go
+++ b/textpos/textpos.go
@@ -83,7 +83,7 @@ func (p LineColumn) String() string {
 	if p.Line().IsValid() {
 		l = fmt.Sprintf("%d", p.Line().Ordinal())
 	}
-	if p.Line().IsValid() {
+	if p.Column().IsValid() {
 		c = fmt.Sprintf("%d", p.Column().Ordinal())
 	}
 	return fmt.Sprintf("%s:%s", l, c)
-- 
2.43.0


From 7ee401a8e3f064d8c64c916982ed15f20a71a39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:35 +0000
Subject: [PATCH 31/81] fix: wirepath: reject unescaped quotes in string keys,
 keeping the character expression

---
 wirepath/wirepath_protostrings.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/wirepath/wirepath_protostrings.go b/wirepath/wirepath_protostrings.go
index c6a8bf9..40642b8 100644
--- a/wirepath/wirepath_protostrings.go
+++ b/wirepath/wirepath_protostrings.go
@@ -30,9 +30,10 @@ const (
 		`\\[xX](` + hexDigit + hexDigit + `)|` + // hex
 		`\\0(` + octalDigit + octalDigit + octalDigit + `)|` + // octal
 		`\\([abfnrtv\\'"])` + "|" + // charEscape
-		`([^\0\n\\"])` + // regular character
+		`([^\0\n\\])` + // regular character
 		`)`
-	protobufStringLiteralDoubleQuoted = `(?:"` + protobufStringLiteralChar + `*")`
+	// A double quote must be escaped within a double-quoted literal.
+	protobufStringLiteralDoubleQuoted = `(?:"(?:[^\0\n\\"]|\\[^\0\n])*")`
 )
 
 var protobufStringElemRegexp = regexp.MustCompile("^" + protobufStringLiteralChar)
@@ -66,6 +67,9 @@ func parseProtobufStringLiteral(literal string) (string, error) {
 		unparsed = unparsed[len(groups[0]):]
 
 		if g := groups[regularCharGroup]; g != "" {
+			if g == `"` {
+				return "", fmt.Errorf("invalid string literal %s; contains an unescaped quote", literal)
+			}
 			out.WriteString(g)
 			continue
 		}
-- 
2.43.0


From 8bd5fecab34093c9ac6619c61d48ea475419654a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:49 +0000
Subject: [PATCH 32/81] fix: iri: check the whole fragment, not only its first
 line

---
 rdf/iri/iri.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdf/iri/iri.go b/rdf/iri/iri.go
index fc08224..dfd58ff 100644
--- a/rdf/iri/iri.go
+++ b/rdf/iri/iri.go
@@ -286,7 +286,7 @@ var (
 	}()
 
 	// re from RFC 3986 page 50.
-	uriRE                            = mustCompileNamed("uriRE", `^(([^:/?#]+):)?(//([^/?#]*))?([^?#]*)(\?([^#]*))?(#(.*))?`)
+	uriRE                            = mustCompileNamed("uriRE", `^(([^:/?#]+):)?(//([^/?#]*))?([^?#]*)(\?([^#]*))?(#((?s:.*)))?$`)
 	uriRESchemeGroup                 = 2
 	uriREAuthorityWithSlashSlahGroup = 3
 	uriREAuthorityGroup              = 4
-- 
2.43.0


From 8f45a09644e37765934c1723f0eda9468fce7746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:49 +0000
Subject: [PATCH 33/81] fix: iri: check the query against the query grammar

---
 rdf/iri/iri.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rdf/iri/iri.go b/rdf/iri/iri.go
index dfd58ff..66ec3b4 100644
--- a/rdf/iri/iri.go
+++ b/rdf/iri/iri.go
@@ -209,11 +209,11 @@ const (
 	// non-zero-length segment without any colon ":"
 	isegmentnznc = `(?:` + iunreserved + `|` + pctEncoded + `|` + subDelims + `|` + `[@])`
 
-	iquery = `(?:(?:` + ipchar + `|` + iprivate + `|` + `\/\?` + `)*)`
+	iquery = `(?:(?:` + ipchar + `|` + iprivate + `|` + `[\/\?]` + `)*)`
 
 	ifragment = `(?:(?:` + ipchar + `|` + `[\/\?]` + `)*)`
 
-	iprivate = `[\x{E000}-\x{F8FF}` + `\x{F0000]-\x{FFFFD}` + `\x{100000}-\x{10FFFD}]`
+	iprivate = `[\x{E000}-\x{F8FF}` + `\x{F0000}-\x{FFFFD}` + `\x{100000}-\x{10FFFD}]`
 )
 
 // IP Address related
@@ -256,7 +256,7 @@ var (
 	iauthorityRE        = mustCompileNamed("iauthorityRE", "^"+iauthority+"$")
 	iauthorityCaptureRE = mustCompileNamed("iauthorityCaptureRE", "^"+iauthorityCapture+"$")
 	ipathRE             = mustCompileNamed("ipath", "^"+ipath+"$")
-	iqueryRE            = mustCompileNamed("iquery", "^"+ipath+"$")
+	iqueryRE            = mustCompileNamed("iquery", "^"+iquery+"$")
 	ifragmentRE         = mustCompileNamed("ifragment", "^"+ifragment+"$")
 
 	percentEncodedChar      = mustCompileNamed("percentEncodedChar", pctEncoded)
-- 
2.43.0


From 472c1fabf0ef95e0946c5dddb449ece2dc65f63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:50 +0000
Subject: [PATCH 34/81] fix: iri: user information may contain colons

---
 rdf/iri/iri.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdf/iri/iri.go b/rdf/iri/iri.go
index 66ec3b4..0ace30e 100644
--- a/rdf/iri/iri.go
+++ b/rdf/iri/iri.go
@@ -187,7 +187,7 @@ const (
 	iauthorityUserInfoGroup = 1
 	iauthorityHostGroup     = 2
 	iauthorityPortGroup     = 3
-	iuserinfo               = `(?:(?:` + iunreserved + `|` + pctEncoded + `|` + subDelims + `)*)`
+	iuserinfo               = `(?:(?:` + iunreserved + `|` + pctEncoded + `|` + subDelims + `|\:)*)`
 	port                    = `(?:\d*)`
 	ihost                   = `(?:` + ipLiteral + `|` + ipV4Address + `|` + iregName + `)`
 	iregName                = "(?:(?:" + iunreserved + "|" + pctEncoded + "|" + subDelims + ")*)" // *( iunreserved / pctEncoded / subDelims )
-- 
2.43.0


From 9ac7466868e18e5a389b6a6f0d1e80ee735f771a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:51 +0000
Subject: [PATCH 35/81] fix: iri: a percent-encoded U+FFFD is valid UTF-8

---
 rdf/iri/iri.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdf/iri/iri.go b/rdf/iri/iri.go
index 0ace30e..14e4e54 100644
--- a/rdf/iri/iri.go
+++ b/rdf/iri/iri.go
@@ -330,7 +330,7 @@ func (iri IRI) normalizePercentEncoding() (IRI, error) {
 		octetsOffset := 0
 		for len(unconsumedOctets) > 0 {
 			codePoint, size := utf8.DecodeRune(unconsumedOctets)
-			if codePoint == utf8.RuneError {
+			if codePoint == utf8.RuneError && size <= 1 {
 				errs = append(errs, fmt.Errorf("percent-encoded sequence %q  contains invalid UTF-8 code point at start of byte sequence %+v", pctEscaped[octetsOffset*3:], unconsumedOctets))
 				return pctEscaped
 			}
-- 
2.43.0


From 5385cac4c31599d661c4bd15c68a75fbcd05b708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:51 +0000
Subject: [PATCH 36/81] fix: iri: refuse a relative path that starts with a
 colon

---
 rdf/iri/iri.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rdf/iri/iri.go b/rdf/iri/iri.go
index 14e4e54..73a150c 100644
--- a/rdf/iri/iri.go
+++ b/rdf/iri/iri.go
@@ -35,6 +35,9 @@ func Parse(s string) (IRI, error) {
 	if auth != "" && !iauthorityRE.MatchString(auth) {
 		return "", fmt.Errorf("%q is not a valid IRI: invalid auth %q does not match regexp %s", s, auth, iauthorityRE)
 	}
+	if scheme == "" && strings.HasPrefix(path, ":") {
+		return "", fmt.Errorf("%q is not a valid IRI: the first segment of a relative path may not contain a colon", s)
+	}
 	if path != "" && !ipathRE.MatchString(path) {
 		return "", fmt.Errorf("%q is not a valid IRI: invalid path %q does not match regexp %s", s, path, ipathRE)
 	}
-- 
2.43.0


From 3fa0affbe74ffa0ad6fca62954a0e576a5da7874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:52 +0000
Subject: [PATCH 37/81] fix: iri: accept every IPv6 and IPvFuture address of
 RFC 3986

---
 rdf/iri/iri.go | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/rdf/iri/iri.go b/rdf/iri/iri.go
index 73a150c..488be71 100644
--- a/rdf/iri/iri.go
+++ b/rdf/iri/iri.go
@@ -223,25 +223,24 @@ const (
 const (
 	ipLiteral = `\[(?:` + ipV6Address + `|` + ipVFuture + `)\]`
 
-	ipVFuture = `v` + hex + `\.(?:` + unreserved + `|` + subDelims + `|\:)*`
+	ipVFuture = `v` + hex + `+\.(?:` + unreserved + `|` + subDelims + `|\:)+`
 
 	// see https://stackoverflow.com/questions/3032593/using-explicitly-numbered-repetition-instead-of-question-mark-star-and-plus
 	ipV6Address = (`(?:` +
 		`(?:(?:` + h16 + `\:){6}` + ls32 + `)` + //          6( h16 `:` ) ls32
-		// TODO(reddaly): below lines
-		//  + `|` +                       `::` 5( h16 `:` ) ls32
-		//  + `|` + [               h16 ] `::` 4( h16 `:` ) ls32
-		//  + `|` + [ *1( h16 `:` ) h16 ] `::` 3( h16 `:` ) ls32
-		//  + `|` + [ *2( h16 `:` ) h16 ] `::` 2( h16 `:` ) ls32
-		//  + `|` + [ *3( h16 `:` ) h16 ] `::`    h16 `:`   ls32
-		//  + `|` + [ *4( h16 `:` ) h16 ] `::`              ls32
-		//  + `|` + [ *5( h16 `:` ) h16 ] `::`              h16
-		//  + `|` + [ *6( h16 `:` ) h16 ] `::`
+		`|\:\:(?:` + h16 + `\:){5}` + ls32 + //                           `::` 5( h16 `:` ) ls32
+		`|` + h16 + `?\:\:(?:` + h16 + `\:){4}` + ls32 + // [               h16 ] `::` 4( h16 `:` ) ls32
+		`|(?:(?:` + h16 + `\:){0,1}` + h16 + `)?\:\:(?:` + h16 + `\:){3}` + ls32 + // [ *1( h16 `:` ) h16 ] `::` 3( h16 `:` ) ls32
+		`|(?:(?:` + h16 + `\:){0,2}` + h16 + `)?\:\:(?:` + h16 + `\:){2}` + ls32 + // [ *2( h16 `:` ) h16 ] `::` 2( h16 `:` ) ls32
+		`|(?:(?:` + h16 + `\:){0,3}` + h16 + `)?\:\:` + h16 + `\:` + ls32 + // [ *3( h16 `:` ) h16 ] `::`    h16 `:`   ls32
+		`|(?:(?:` + h16 + `\:){0,4}` + h16 + `)?\:\:` + ls32 + // [ *4( h16 `:` ) h16 ] `::`              ls32
+		`|(?:(?:` + h16 + `\:){0,5}` + h16 + `)?\:\:` + h16 + // [ *5( h16 `:` ) h16 ] `::`              h16
+		`|(?:(?:` + h16 + `\:){0,6}` + h16 + `)?\:\:` + // [ *6( h16 `:` ) h16 ] `::`
 		`)`)
 
-	h16         = `(?:` + hex + hex + hex + hex + `)`
+	h16         = `(?:` + hex + `{1,4})`
 	ls32        = `(?:` + h16 + `\:` + h16 + `|` + ipV4Address + `)`
-	ipV4Address = `(?:` + decOctet + `.` + decOctet + `.` + decOctet + `.` + decOctet + `)`
+	ipV4Address = `(?:` + decOctet + `\.` + decOctet + `\.` + decOctet + `\.` + decOctet + `)`
 
 	decOctet = (`(?:\d` + `|` + // 0-9
 		`[1-9]\d` + `|` + // 10-99
-- 
2.43.0


From 38527e6393eed35e690a1fbb41e350c569100799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:27 +0000
Subject: [PATCH 38/81] fix: iri: keep an empty port when resolving references

---
 rdf/iri/iri.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rdf/iri/iri.go b/rdf/iri/iri.go
index 488be71..bf760d9 100644
--- a/rdf/iri/iri.go
+++ b/rdf/iri/iri.go
@@ -106,7 +106,7 @@ type parts struct {
 	emptyAuth     bool // true if the iri is something like `///path` but if iri is `//hostname/path`
 	userInfo      string
 	host          string
-	port          string
+	port          string // with the :
 	path          string
 	query         string // with the ?
 	emptyFragment bool
@@ -128,8 +128,8 @@ func (p *parts) toIRI() IRI {
 		s += p.host
 	}
 
-	if p.port != "" { // TODO(reddaly): Deal with blank
-		s += ":" + p.port
+	if p.port != "" {
+		s += p.port
 	}
 	if p.path != "" { // TODO(reddaly): Deal with blank
 		s += p.path
@@ -186,7 +186,7 @@ const (
 	scheme = "(?:" + alphaChars + "(?:" + alphaChars + "|" + digitChars + `|[\+\-\.])*)`
 
 	iauthority              = `(?:` + iuserinfo + "@)?" + ihost + `(?:\:` + port + `)?`
-	iauthorityCapture       = `(?:(` + iuserinfo + "@)?(" + ihost + `)(?:\:(` + port + `))?)`
+	iauthorityCapture       = `(?:(` + iuserinfo + "@)?(" + ihost + `)(\:` + port + `)?)`
 	iauthorityUserInfoGroup = 1
 	iauthorityHostGroup     = 2
 	iauthorityPortGroup     = 3
-- 
2.43.0


From 44fd25bc5f73d0993bc2104198cb19ccd12e91ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:27 +0000
Subject: [PATCH 39/81] fix: iri: a relative reference keeps the whole
 authority of its base

---
 rdf/iri/iri_resolve.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rdf/iri/iri_resolve.go b/rdf/iri/iri_resolve.go
index 3a0cfa2..b3412af 100644
--- a/rdf/iri/iri_resolve.go
+++ b/rdf/iri/iri_resolve.go
@@ -106,7 +106,7 @@ func resolveReference(base, ref resolveRefArg) *parts {
 	if ref.Scheme() == "" {
 		url.scheme = base.Scheme()
 	}
-	if ref.Scheme() != "" || ref.Host() != "" || ref.User() != "" {
+	if ref.Scheme() != "" || ref.HasAuthority() {
 		// The "absoluteURI" or "net_path" cases.
 		// We can ignore the error from setPath since we know we provided a
 		// validly-escaped path.
@@ -130,8 +130,10 @@ func resolveReference(base, ref resolveRefArg) *parts {
 		}
 	}
 	// The "abs_path" or "rel_path" cases.
+	url.emptyAuth = base.HasAuthority() && base.Host() == "" && base.Port() == "" && base.User() == ""
 	url.host = base.Host()
 	url.userInfo = base.User()
+	url.port = base.Port()
 	url.path = resolvePath(base.Path(), ref.Path())
 	return url
 }
-- 
2.43.0


From d98b8b089e47668fa5a8543edf724f8c098502b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:42 +0000
Subject: [PATCH 40/81] fix: iri: resolve paths as RFC 3986 says, also those
 without a leading slash

---
 rdf/iri/iri_resolve.go | 90 ++++++++++++++++++++----------------------
 1 file changed, 42 insertions(+), 48 deletions(-)

diff --git a/rdf/iri/iri_resolve.go b/rdf/iri/iri_resolve.go
index b3412af..f405db8 100644
--- a/rdf/iri/iri_resolve.go
+++ b/rdf/iri/iri_resolve.go
@@ -110,7 +110,7 @@ func resolveReference(base, ref resolveRefArg) *parts {
 		// The "absoluteURI" or "net_path" cases.
 		// We can ignore the error from setPath since we know we provided a
 		// validly-escaped path.
-		url.path = resolvePath(ref.Path(), "")
+		url.path = removeDotSegments(ref.Path())
 		return url
 	}
 	// TODO(reddaly): Deal with opaque.
@@ -134,7 +134,7 @@ func resolveReference(base, ref resolveRefArg) *parts {
 	url.host = base.Host()
 	url.userInfo = base.User()
 	url.port = base.Port()
-	url.path = resolvePath(base.Path(), ref.Path())
+	url.path = resolvePath(base.Path(), ref.Path(), base.HasAuthority())
 	return url
 }
 
@@ -147,63 +147,57 @@ func formattedQuery(q *string) string {
 
 // resolvePath applies special path segments from refs and applies
 // them to base, per RFC 3986.
-func resolvePath(base, ref string) string {
+func resolvePath(base, ref string, baseHasAuthority bool) string {
 	var full string
 	if ref == "" {
-		full = base
+		return base
 	} else if ref[0] != '/' {
 		i := strings.LastIndex(base, "/")
-		full = base[:i+1] + ref
+		if base == "" && baseHasAuthority {
+			full = "/" + ref
+		} else {
+			full = base[:i+1] + ref
+		}
 	} else {
 		full = ref
 	}
-	if full == "" {
-		return ""
-	}
+	return removeDotSegments(full)
+}
 
-	var (
-		last string
-		elem string
-		i    int
-		dst  strings.Builder
-	)
-	first := true
-	remaining := full
-	for i >= 0 {
-		i = strings.IndexByte(remaining, '/')
+// removeDotSegments implements RFC 3986 Section 5.2.4.
+func removeDotSegments(in string) string {
+	out := ""
+	removeLast := func() {
+		i := strings.LastIndex(out, "/")
 		if i < 0 {
-			last, elem, remaining = remaining, remaining, ""
-		} else {
-			elem, remaining = remaining[:i], remaining[i+1:]
+			i = 0
 		}
-		if elem == "." {
-			first = false
-			// drop
-			continue
-		}
-
-		if elem == ".." {
-			str := dst.String()
-			index := strings.LastIndexByte(str, '/')
-
-			dst.Reset()
-			if index == -1 {
-				first = true
-			} else {
-				dst.WriteString(str[:index])
-			}
-		} else {
-			if !first {
-				dst.WriteByte('/')
+		out = out[:i]
+	}
+	for in != "" {
+		switch {
+		case strings.HasPrefix(in, "../"):
+			in = in[3:]
+		case strings.HasPrefix(in, "./"), strings.HasPrefix(in, "/./"):
+			in = in[2:]
+		case in == "/.":
+			in = "/"
+		case strings.HasPrefix(in, "/../"):
+			in = in[3:]
+			removeLast()
+		case in == "/..":
+			in = "/"
+			removeLast()
+		case in == "." || in == "..":
+			in = ""
+		default:
+			i := strings.Index(in[1:], "/") + 1
+			if i == 0 {
+				i = len(in)
 			}
-			dst.WriteString(elem)
-			first = false
+			out += in[:i]
+			in = in[i:]
 		}
 	}
-
-	if last == "." || last == ".." {
-		dst.WriteByte('/')
-	}
-
-	return "/" + strings.TrimPrefix(dst.String(), "/")
+	return out
 }
-- 
2.43.0


From 3c7442b4a7d115bb682e755946f5f014cdc1fde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:21 +0000
Subject: [PATCH 41/81] fix: ntriples: no blank in the langString datatype

---
 rdf/ntriples/ntriples.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdf/ntriples/ntriples.go b/rdf/ntriples/ntriples.go
index 741f1d9..7742334 100644
--- a/rdf/ntriples/ntriples.go
+++ b/rdf/ntriples/ntriples.go
@@ -23,7 +23,7 @@ type IRI = iri.IRI
 const (
 	// LangString is the type of a literal string that has a language annotation.
 	// https://www.w3.org/TR/2014/REC-rdf11-concepts-20140225/#dfn-literal.
-	LangString IRI = " http://www.w3.org/1999/02/22-rdf-syntax-ns#langString"
+	LangString IRI = "http://www.w3.org/1999/02/22-rdf-syntax-ns#langString"
 
 	// XMLSchemaString is the type of a literal string with no language
 	// annotation.
-- 
2.43.0


From 9d45afd3971198cf1d216055d9e3b539bf0d7031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:21 +0000
Subject: [PATCH 42/81] fix: ntriples: language tags may have any number of
 subtags

---
 rdf/ntriples/ntriples.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdf/ntriples/ntriples.go b/rdf/ntriples/ntriples.go
index 7742334..5d26568 100644
--- a/rdf/ntriples/ntriples.go
+++ b/rdf/ntriples/ntriples.go
@@ -393,7 +393,7 @@ const (
 
 	stringLiteralQuote = `"((?:[^\x22\x5C\x{A}\x{D}]|` + echar + `|` + uchar + `)*)"`
 	iriref             = `<((?:[^\x00-\x20<>"{}|^` + "`" + `\\]|` + uchar + `)*)>`
-	langTag            = `@([a-zA-Z]+(?:\-[a-zA-Z0-9]+)?)`
+	langTag            = `@([a-zA-Z]+(?:\-[a-zA-Z0-9]+)*)`
 )
 
 var (
-- 
2.43.0


From 8345336077ed76ddfa9e956f48aabed8b65e0f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:22 +0000
Subject: [PATCH 43/81] fix: ntriples: correct the last range of blank node
 label characters

---
 rdf/ntriples/ntriples.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdf/ntriples/ntriples.go b/rdf/ntriples/ntriples.go
index 5d26568..4c6d437 100644
--- a/rdf/ntriples/ntriples.go
+++ b/rdf/ntriples/ntriples.go
@@ -387,7 +387,7 @@ const (
 	hex         = `[0-9A-Fa-f]`
 	uchar       = `(?:\\u` + hex + hex + hex + hex + `|\\U` + hex + hex + hex + hex + hex + hex + hex + hex + `)`
 	echar       = `\\[\\tbnrf"']`
-	pnCharsBase = `A-Za-z\x{00C0}-\x{00D6}\x{00D8}-\x{00F6}\x{00F8}-\x{02FF}\x{0370}-\x{037D}\x{037F}-\x{1FFF}\x{200C}-\x{200D}\x{2070}-\x{218F}\x{2C00}-\x{2FEF}\x{3001}-\x{D7FF}\x{F900}-\x{FDCF}\x{FDF0}-\x{FFFD}\x{1000}0\#xEFFFF`
+	pnCharsBase = `A-Za-z\x{00C0}-\x{00D6}\x{00D8}-\x{00F6}\x{00F8}-\x{02FF}\x{0370}-\x{037D}\x{037F}-\x{1FFF}\x{200C}-\x{200D}\x{2070}-\x{218F}\x{2C00}-\x{2FEF}\x{3001}-\x{D7FF}\x{F900}-\x{FDCF}\x{FDF0}-\x{FFFD}\x{10000}-\x{EFFFF}`
 	pnCharsU    = pnCharsBase + `_\:`
 	pnChars     = pnCharsU + `\-0-9\x{00B7}\x{0300}-\x{036F}\x{203F}-\x{2040}`
 
-- 
2.43.0


From 4435be6b56e494dcf51e588b96a630feed00bad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:23 +0000
Subject: [PATCH 44/81] fix: ntriples: a blank node label does not end with a
 dot

---
 rdf/ntriples/ntriples.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdf/ntriples/ntriples.go b/rdf/ntriples/ntriples.go
index 4c6d437..10204b4 100644
--- a/rdf/ntriples/ntriples.go
+++ b/rdf/ntriples/ntriples.go
@@ -400,7 +400,7 @@ var (
 	irirefRegexp = regexp.MustCompile("^" + iriref)
 
 	// 	BLANK_NODE_LABEL	::=	'_:' (PN_CHARS_U | [0-9]) ((PN_CHARS | '.')* PN_CHARS)?
-	blankNodeLabel = regexp.MustCompile(`^_\:[` + pnCharsU + `0-9][` + pnChars + `\.]*[` + pnChars + `]?`)
+	blankNodeLabel = regexp.MustCompile(`^_\:[` + pnCharsU + `0-9](?:[` + pnChars + `\.]*[` + pnChars + `])?`)
 	literalRegexp  = regexp.MustCompile(`^` + stringLiteralQuote + `(?:(?:\^\^` + iriref + `)|` + langTag + `)?`)
 )
 
-- 
2.43.0


From 1e25915ea8178da7d9d05a39737edf6d1d5a1754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:23 +0000
Subject: [PATCH 45/81] fix: ntriples: read the datatype as any other IRI

---
 rdf/ntriples/ntriples.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rdf/ntriples/ntriples.go b/rdf/ntriples/ntriples.go
index 10204b4..fb985be 100644
--- a/rdf/ntriples/ntriples.go
+++ b/rdf/ntriples/ntriples.go
@@ -452,7 +452,11 @@ func ParseLiteral(input string) (Literal, string, error) {
 	} else if lang != "" {
 		return NewLiteral(lexicalForm, LangString, lang), rest, nil
 	}
-	return NewLiteral(lexicalForm, IRI(iri), lang), rest, nil
+	datatype, _, err := parseIRIRef("<" + iri + ">")
+	if err != nil {
+		return nil, "", fmt.Errorf("invalid datatype: %w", err)
+	}
+	return NewLiteral(lexicalForm, datatype, lang), rest, nil
 }
 
 // Comment is a line comment in an N-Tuples file.
-- 
2.43.0


From 0bd74b818afba1c15fdab5fbd2e22b6bcaa7c14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:24 +0000
Subject: [PATCH 46/81] fix: ntriples: refuse escapes that are no character, or
 none an IRI may hold

---
 rdf/ntriples/ntriples.go | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/rdf/ntriples/ntriples.go b/rdf/ntriples/ntriples.go
index fb985be..7ae8c1b 100644
--- a/rdf/ntriples/ntriples.go
+++ b/rdf/ntriples/ntriples.go
@@ -9,6 +9,7 @@ import (
 	"regexp"
 	"strconv"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/google/xtoproto/rdf/iri"
 )
@@ -500,11 +501,11 @@ func parseStringLiteral(in string) (string, error) {
 			continue
 		}
 		if c := charMatch[stringLiteralUCharGroup]; len(c) != 0 {
-			code, err := strconv.ParseInt(c[2:], 16, 64)
+			code, err := parseUChar(c)
 			if err != nil {
-				return "", fmt.Errorf("internal error: bad hex sequence %q: %w", c, err)
+				return "", err
 			}
-			builder.WriteRune(rune(code))
+			builder.WriteRune(code)
 		} else {
 			return "", fmt.Errorf("internal error with string %q - charmatch %+v", in, charMatch)
 		}
@@ -578,12 +579,15 @@ func canonicalizeIRILiteral(in string) (string, error) {
 		if c := charMatch[1]; len(c) != 0 {
 			canonical.WriteString(c)
 		} else if c := charMatch[2]; len(c) != 0 {
-			code, err := strconv.ParseInt(c[2:], 16, 64)
+			code, err := parseUChar(c)
 			if err != nil {
 				return "", err
 			}
+			if code <= ' ' || strings.ContainsRune("<>\"{}|^`\\", code) {
+				return "", fmt.Errorf("character %q is not allowed in an IRI", code)
+			}
 			// TODO(reddaly): Check if the character needs to be percent-encoded?
-			canonical.WriteRune(rune(code))
+			canonical.WriteRune(code)
 		} else {
 			return "", fmt.Errorf("internal error with string %q - charmatch[%d] = %s", in, i, mustJSONStr(charMatch))
 		}
@@ -591,6 +595,18 @@ func canonicalizeIRILiteral(in string) (string, error) {
 	return string(iri.IRI(canonical.String()).NormalizePercentEncoding()), nil
 }
 
+// parseUChar returns the character of a \uXXXX or \UXXXXXXXX escape.
+func parseUChar(escape string) (rune, error) {
+	code, err := strconv.ParseInt(escape[2:], 16, 64)
+	if err != nil {
+		return 0, fmt.Errorf("internal error: bad hex sequence %q: %w", escape, err)
+	}
+	if code > utf8.MaxRune || !utf8.ValidRune(rune(code)) {
+		return 0, fmt.Errorf("escape %s is not a Unicode character", escape)
+	}
+	return rune(code), nil
+}
+
 func mustJSONStr(thing interface{}) string {
 	bytes, err := json.Marshal(thing)
 	if err != nil {
-- 
2.43.0


From 4fec24f7ac9d3c28bd3ae3ace88d2b4b78e5b006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:24 +0000
Subject: [PATCH 47/81] fix: ntriples: refuse empty IRIs, which printed as
 literals or not at all

---
 rdf/ntriples/ntriples.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rdf/ntriples/ntriples.go b/rdf/ntriples/ntriples.go
index 7ae8c1b..590489f 100644
--- a/rdf/ntriples/ntriples.go
+++ b/rdf/ntriples/ntriples.go
@@ -411,6 +411,9 @@ func parseIRIRef(input string) (IRI, string, error) {
 		return "", "", fmt.Errorf("invalid IRIREF: %q", input)
 	}
 	unnormalized := input[1 : match[1]-1]
+	if unnormalized == "" {
+		return "", "", fmt.Errorf("invalid empty IRIREF: %q", input)
+	}
 	normalized, err := canonicalizeIRILiteral(unnormalized)
 	if err != nil {
 		return "", "", fmt.Errorf("failed to normalize IRI string %q: %w", unnormalized, err)
@@ -444,6 +447,9 @@ func ParseLiteral(input string) (Literal, string, error) {
 	}
 	rest := input[len(parts[0]):]
 	quotedLexicalForm, iri, lang := parts[1], parts[2], parts[3]
+	if strings.HasPrefix(input[len(quotedLexicalForm)+2:], "^^<>") {
+		return nil, "", fmt.Errorf("invalid empty datatype: %s", input)
+	}
 	lexicalForm, err := parseStringLiteral(quotedLexicalForm)
 	if err != nil {
 		return nil, "", err
-- 
2.43.0


From 0a5749485964fa513db5a04da16a3e85015d9741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:25 +0000
Subject: [PATCH 48/81] fix: ntriples: allow leading whitespace, blank lines
 and comments after triples

---
 rdf/ntriples/ntriples.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/rdf/ntriples/ntriples.go b/rdf/ntriples/ntriples.go
index 590489f..683dc19 100644
--- a/rdf/ntriples/ntriples.go
+++ b/rdf/ntriples/ntriples.go
@@ -294,7 +294,8 @@ func ParseLine(line string) (*Triple, *Comment, error) {
 	if len(line) == 0 {
 		return nil, nil, fmt.Errorf("invalid zero-length line")
 	}
-	if line[0] == '#' {
+	line = strings.TrimLeft(line, " \t")
+	if strings.HasPrefix(line, "#") {
 		return nil, &Comment{line[1:]}, nil
 	}
 	sub, rest, err := parseSubject(line)
@@ -310,6 +311,9 @@ func ParseLine(line string) (*Triple, *Comment, error) {
 		return nil, nil, fmt.Errorf("failed to parse object of line: %w", err)
 	}
 	rest = strings.Trim(rest, " \t")
+	if afterDot := strings.TrimLeft(strings.TrimPrefix(rest, "."), " \t"); strings.HasPrefix(rest, ".") && strings.HasPrefix(afterDot, "#") {
+		rest = "." // The triple is followed by a comment.
+	}
 	if rest != "." {
 		return nil, nil, fmt.Errorf("last term must be `.`, got %q", rest)
 	}
@@ -322,6 +326,9 @@ func ParseLine(line string) (*Triple, *Comment, error) {
 func ParseLines(lines []string) ([]*Triple, error) {
 	var triples []*Triple
 	for i, line := range lines {
+		if strings.Trim(line, " \t") == "" {
+			continue
+		}
 		t, _, err := ParseLine(line)
 		if err != nil {
 			return nil, fmt.Errorf("%d: %w", i+1, err)
-- 
2.43.0


From e0146dc64d57c30e6608a635bfb0cb5af45fb6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:44 +0000
Subject: [PATCH 49/81] fix: connect the first element of an RDF/XML collection
 to the property

---
 rdf/rdfxml/rdfxml.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/rdf/rdfxml/rdfxml.go b/rdf/rdfxml/rdfxml.go
index 307cd56..b24f4dc 100644
--- a/rdf/rdfxml/rdfxml.go
+++ b/rdf/rdfxml/rdfxml.go
@@ -846,18 +846,16 @@ func readSequencePropertyElem(p *Parser, subject *ntriples.Subject, propElem xml
 		}
 	}
 
-	isFirst := true
 	for i, emittedSub := range emittedSubjects {
-		nextSeqID := p.generateBlankNodeIDWithHint(fmt.Sprintf("cons-%d", i))
-		if !isFirst {
+		if i > 0 {
+			nextSeqID := p.generateBlankNodeIDWithHint(fmt.Sprintf("cons-%d", i))
 			triple := ntriples.NewTriple(ntriples.NewSubjectBlankNodeID(seqID), RDFRest, ntriples.NewObjectBlankNodeID(nextSeqID))
 			ind, err := p.tripleCallback(triple)
 			if err != nil || ind == Stop {
 				return err
 			}
+			seqID = nextSeqID
 		}
-		isFirst = false
-		seqID = nextSeqID
 		triple := ntriples.NewTriple(ntriples.NewSubjectBlankNodeID(seqID), RDFFirst, ntriples.NewObjectFromSubject(emittedSub))
 		ind, err := p.tripleCallback(triple)
 		if err != nil || ind == Stop {
-- 
2.43.0


From 89081cbfaf56bec79ed45580b9b4a952e5cdf6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:45 +0000
Subject: [PATCH 50/81] fix: refuse extra attributes of property elements that
 hold a node element

---
 rdf/rdfxml/rdfxml.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rdf/rdfxml/rdfxml.go b/rdf/rdfxml/rdfxml.go
index b24f4dc..2ed8a85 100644
--- a/rdf/rdfxml/rdfxml.go
+++ b/rdf/rdfxml/rdfxml.go
@@ -619,6 +619,11 @@ func readPropertyElemInternal(p *Parser, liCounter *int, subject *ntriples.Subje
 	}
 	if childInfo.nodeElemStart != nil {
 		// 7.2.15: Production resourcePropertyElt
+		for _, attr := range rdfAttributes(propElem.Attr) {
+			if xmlNameToIRI(attr.Name) != RDFID {
+				return p.errorf("bad resourcePropertyElt %s: unexpected attribute %s", elemURI, attr.Name.Local)
+			}
+		}
 		valueSubject, err := readNodeElem(p, *childInfo.nodeElemStart)
 		if err != nil {
 			return p.errorf("failed to parse resourcePropertyElt %s property of %s: %w", xmlNameToIRI(childInfo.nodeElemStart.Name), subject, err)
-- 
2.43.0


From 5b2f56b1f3583b3cbcc8fe767098d3b968ab7091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:46 +0000
Subject: [PATCH 51/81] fix: refuse text between RDF/XML property elements

---
 rdf/rdfxml/rdfxml.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rdf/rdfxml/rdfxml.go b/rdf/rdfxml/rdfxml.go
index 2ed8a85..9ea44b9 100644
--- a/rdf/rdfxml/rdfxml.go
+++ b/rdf/rdfxml/rdfxml.go
@@ -507,6 +507,9 @@ func readPropertyElems(p *Parser, startElemName xml.Name, subject *ntriples.Subj
 			}
 			return nil
 		case xml.CharData:
+			if str := string(t); strings.TrimSpace(str) != "" {
+				return p.errorf("unexpected non-whitespace element text %q between the property elements of %s", str, subject)
+			}
 		case xml.Comment: // ignore
 		case xml.ProcInst: // ignore
 		case xml.Directive: // ignore aside from the usual handling
-- 
2.43.0


From 3c2a9fa3dbd62e736b8bffa517ff10766a0a8e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:27 +0000
Subject: [PATCH 52/81] fix: read an RDF/XML document to its end and refuse
 attributes of rdf:RDF

---
 rdf/rdfxml/rdfxml.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/rdf/rdfxml/rdfxml.go b/rdf/rdfxml/rdfxml.go
index 9ea44b9..4d57849 100644
--- a/rdf/rdfxml/rdfxml.go
+++ b/rdf/rdfxml/rdfxml.go
@@ -93,16 +93,22 @@ func readRootOrNodeElem(p *Parser) error {
 			started = true
 
 			if xmlNameToIRI(t.Name) == RDFRoot {
+				if extra := rdfAttributes(t.Attr); len(extra) != 0 {
+					return p.errorf("unexpected attribute %s of rdf:RDF", extra[0].Name.Local)
+				}
 				_, err := p.handleGenericStartElem(t)
 				if err != nil {
 					return err
 				}
-				return readNodeElemsAndEndRootElement(p)
+				if err := readNodeElemsAndEndRootElement(p); err != nil {
+					return err
+				}
+			} else if _, err := readNodeElem(p, t); err != nil {
+				// Otherwise, treat this like reading a regular node element.
+				// See https://www.w3.org/TR/rdf-syntax-grammar/#nodeElement.
+				return err
 			}
-			// Otherwise, treat this like reading a regular node element.
-			// See https://www.w3.org/TR/rdf-syntax-grammar/#nodeElement.
-			_, err := readNodeElem(p, t)
-			return err
+			finished = true
 		case xml.EndElement:
 			if xmlNameToIRI(t.Name) != RDFRoot {
 				return p.errorf("internal parsing error - only expect an end element when handlng rdf:Root; probably forgot to consume an EndElement elsewhere: %+v", t)
-- 
2.43.0


From 7485e760705e046e4bc800b5de56c7c7dac8dbe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:27 +0000
Subject: [PATCH 53/81] fix: refuse an rdf:ID used twice with the same base

---
 rdf/rdfxml/rdfxml.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/rdf/rdfxml/rdfxml.go b/rdf/rdfxml/rdfxml.go
index 4d57849..9ec8d47 100644
--- a/rdf/rdfxml/rdfxml.go
+++ b/rdf/rdfxml/rdfxml.go
@@ -175,8 +175,7 @@ type ParserOptions struct {
 }
 
 type baseStackEntry struct {
-	iri         ntriples.IRI
-	declaredIDs map[ntriples.IRI]bool
+	iri ntriples.IRI
 }
 
 // Parser is an RDF/XML document parser.
@@ -196,12 +195,15 @@ type Parser struct {
 	langStack          []string
 	nextBlankNodeID    int
 	observedBlankNodes map[ntriples.BlankNodeID]bool
+	// declaredIDs holds the IRIs of all rdf:ID values, which are distinct for
+	// distinct values and base IRIs.
+	declaredIDs map[ntriples.IRI]bool
 }
 
 // NewParser returns a new RDF/XML parser that reads from the given xml document
 // tr.
 func NewParser(tr xml.TokenReader, opts *ParserOptions) *Parser {
-	p := &Parser{tr, nil, nil, nil, 0, map[ntriples.BlankNodeID]bool{}}
+	p := &Parser{tr, nil, nil, nil, 0, map[ntriples.BlankNodeID]bool{}, map[ntriples.IRI]bool{}}
 	if opts != nil && opts.BaseURL != "" {
 		p.pushBaseURI(opts.BaseURL)
 	}
@@ -231,8 +233,7 @@ func (p *Parser) pushBaseURI(baseURI ntriples.IRI) {
 	// part of the base URI; any fragment part is ignored. See Uniform Resource
 	// Identifiers (URI) [RFC3986].
 	entry := &baseStackEntry{
-		iri:         removeFragment(baseURI),
-		declaredIDs: map[ntriples.IRI]bool{},
+		iri: removeFragment(baseURI),
 	}
 	p.xmlBaseStack = append(p.xmlBaseStack, entry)
 }
@@ -271,10 +272,10 @@ func (p *Parser) declareID(id ntriples.IRI) error {
 	if len(p.xmlBaseStack) == 0 {
 		return p.errorf("internal error - empty base stack")
 	}
-	entry := p.xmlBaseStack[len(p.xmlBaseStack)-1]
-	if entry.declaredIDs[id] {
+	if p.declaredIDs[id] {
 		return p.errorf("duplicate node element id within same xml:base scope; see section 2.14 of the RDF/XML spec <https://www.w3.org/TR/rdf-syntax-grammar/#nodeElementURIs>; offending id = %s", id)
 	}
+	p.declaredIDs[id] = true
 	return nil
 }
 
-- 
2.43.0


From 05eabd7240e97db09a9f125c33b3e2d0d6eef336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:58 +0000
Subject: [PATCH 54/81] fix: allow names that start with an underscore in
 RDF/XML

---
 rdf/rdfxml/rdfxml_xmlname.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdf/rdfxml/rdfxml_xmlname.go b/rdf/rdfxml/rdfxml_xmlname.go
index f5295df..dc9484e 100644
--- a/rdf/rdfxml/rdfxml_xmlname.go
+++ b/rdf/rdfxml/rdfxml_xmlname.go
@@ -30,7 +30,7 @@ func checkXMLNCName(candidate string) error {
 
 const (
 	// See https://www.w3.org/TR/xml/ 2.3
-	xmlNameStartChar = (`[\:A-Za-z` +
+	xmlNameStartChar = (`[\:A-Z_a-z` +
 		`\xC0-\xD6` +
 		`\xD8-\xF6` +
 		`\xF8-\x{2FF}` +
-- 
2.43.0


From 622b161fce03a3ce4d61f4ed07fe8810ce5e234a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:59 +0000
Subject: [PATCH 55/81] fix: check rdf:ID values of nodes and properties

---
 rdf/rdfxml/rdfxml.go | 37 +++++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/rdf/rdfxml/rdfxml.go b/rdf/rdfxml/rdfxml.go
index 9ec8d47..b25d42a 100644
--- a/rdf/rdfxml/rdfxml.go
+++ b/rdf/rdfxml/rdfxml.go
@@ -386,13 +386,10 @@ func readNodeElemUsingSubject(p *Parser, start xml.StartElement, forcedSubject *
 	for _, attr := range idAttrs {
 		switch xmlNameToIRI(attr.Name) {
 		case RDFID:
-			subIRI, err := resolve(p, "#"+attr.Value)
+			subIRI, err := resolveID(p, attr.Value)
 			if err != nil {
 				return nil, p.errorf("bad IRI for rdf:Description's rdf:ID attribute: %w", err)
 			}
-			if err := p.declareID(subIRI); err != nil {
-				return nil, err
-			}
 			newSubject := ntriples.NewSubjectIRI(subIRI)
 			if subject != nil {
 				return nil, p.errorf("ambiguous subject: %s and %s", subject, newSubject)
@@ -557,7 +554,7 @@ func readPropertyElemInternal(p *Parser, liCounter *int, subject *ntriples.Subje
 				return nil
 			}
 			if attr := findAttr(propElem, RDFID); attr != nil {
-				i, err := resolve(p, "#"+attr.Value)
+				i, err := resolveID(p, attr.Value)
 				if err != nil {
 					return err
 				}
@@ -608,7 +605,7 @@ func readPropertyElemInternal(p *Parser, liCounter *int, subject *ntriples.Subje
 				return nil
 			}
 			if attr := findAttr(propElem, RDFID); attr != nil {
-				i, err := resolve(p, "#"+attr.Value)
+				i, err := resolveID(p, attr.Value)
 				if err != nil {
 					return err
 				}
@@ -657,7 +654,7 @@ func readPropertyElemInternal(p *Parser, liCounter *int, subject *ntriples.Subje
 		// a.string-value))) using the reification rules in section 7.3 and
 		// e.subject := i.
 		if attr := findAttr(propElem, RDFID); attr != nil {
-			i, err := resolve(p, "#"+attr.Value)
+			i, err := resolveID(p, attr.Value)
 			if err != nil {
 				return err
 			}
@@ -700,7 +697,7 @@ func readPropertyElemInternal(p *Parser, liCounter *int, subject *ntriples.Subje
 			// with uri(identifier := resolve(e, concat("#", i.string-value))) using
 			// the reification rules in section 7.3.
 			if idAttr != nil {
-				i, err := resolve(p, "#"+idAttr.Value)
+				i, err := resolveID(p, idAttr.Value)
 				if err != nil {
 					return err
 				}
@@ -760,7 +757,7 @@ func readPropertyElemInternal(p *Parser, liCounter *int, subject *ntriples.Subje
 			// 7.3.
 
 			if idAttr != nil {
-				i, err := resolve(p, "#"+idAttr.Value)
+				i, err := resolveID(p, idAttr.Value)
 				if err != nil {
 					return err
 				}
@@ -803,7 +800,7 @@ func readPropertyElemInternal(p *Parser, liCounter *int, subject *ntriples.Subje
 		return nil
 	}
 	if idAttr != nil {
-		i, err := resolve(p, "#"+idAttr.Value)
+		i, err := resolveID(p, idAttr.Value)
 		if err != nil {
 			return err
 		}
@@ -833,7 +830,7 @@ func readSequencePropertyElem(p *Parser, subject *ntriples.Subject, propElem xml
 			return err
 		}
 		if attr := findAttr(propElem, RDFID); attr != nil {
-			i, err := resolve(p, "#"+attr.Value)
+			i, err := resolveID(p, attr.Value)
 			if err != nil {
 				return err
 			}
@@ -851,7 +848,7 @@ func readSequencePropertyElem(p *Parser, subject *ntriples.Subject, propElem xml
 			return err
 		}
 		if attr := findAttr(propElem, RDFID); attr != nil {
-			i, err := resolve(p, "#"+attr.Value)
+			i, err := resolveID(p, attr.Value)
 			if err != nil {
 				return err
 			}
@@ -1038,6 +1035,22 @@ func resolve(p *Parser, s string) (ntriples.IRI, error) {
 	return p.baseURI().ResolveReference(sIRI).NormalizePercentEncoding(), nil
 }
 
+// resolveID returns the IRI of an rdf:ID value, which must be an XML name
+// without colon and must not have occurred before with the same base IRI.
+func resolveID(p *Parser, id string) (ntriples.IRI, error) {
+	if err := checkXMLNCName(id); err != nil {
+		return "", p.errorf("invalid rdf:ID attribute: %w", err)
+	}
+	idIRI, err := resolve(p, "#"+id)
+	if err != nil {
+		return "", err
+	}
+	if err := p.declareID(idIRI); err != nil {
+		return "", err
+	}
+	return idIRI, nil
+}
+
 func parseLiteral(p *Parser, s string) (ntriples.Literal, error) {
 	lang := p.language()
 	if lang == "" {
-- 
2.43.0


From 09040ace43a8e3738ea69169f8e7ddf2b92714f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:59 +0000
Subject: [PATCH 56/81] fix: resolve xml:base against the base of the enclosing
 element

---
 rdf/rdfxml/rdfxml.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rdf/rdfxml/rdfxml.go b/rdf/rdfxml/rdfxml.go
index b25d42a..ffbf49a 100644
--- a/rdf/rdfxml/rdfxml.go
+++ b/rdf/rdfxml/rdfxml.go
@@ -324,7 +324,8 @@ func (p *Parser) handleGenericStartElem(elem xml.StartElement) (func() error, er
 		}
 	}
 	if base != nil {
-		baseIRI, err := parseIRI(*base)
+		// A relative base is relative to the base of the enclosing element.
+		baseIRI, err := resolve(p, *base)
 		if err != nil {
 			return nil, p.errorf("xml:base value invalid: %w", err)
 		}
-- 
2.43.0


From a9befa2c55912f4947adddad4108202ca425b8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:00 +0000
Subject: [PATCH 57/81] fix: resolve a relative rdf:datatype

---
 rdf/rdfxml/rdfxml.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdf/rdfxml/rdfxml.go b/rdf/rdfxml/rdfxml.go
index ffbf49a..e8aeab8 100644
--- a/rdf/rdfxml/rdfxml.go
+++ b/rdf/rdfxml/rdfxml.go
@@ -781,7 +781,7 @@ func readPropertyElemInternal(p *Parser, liCounter *int, subject *ntriples.Subje
 		return p.errorf("bad literalPropertyElt: %w", err)
 	}
 	if dtAttr != nil {
-		datatype, err := parseIRI(dtAttr.Value)
+		datatype, err := resolve(p, dtAttr.Value)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From ce227b88896c8d9c56127a211a153002a99a3329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:01 +0000
Subject: [PATCH 58/81] fix: give RDF/XML literals with a language the datatype
 rdf:langString

---
 rdf/rdfxml/rdfxml.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdf/rdfxml/rdfxml.go b/rdf/rdfxml/rdfxml.go
index e8aeab8..9715a16 100644
--- a/rdf/rdfxml/rdfxml.go
+++ b/rdf/rdfxml/rdfxml.go
@@ -1057,7 +1057,7 @@ func parseLiteral(p *Parser, s string) (ntriples.Literal, error) {
 	if lang == "" {
 		return ntriples.NewLiteral(s, ntriples.XMLSchemaString, ""), nil
 	}
-	return ntriples.NewLiteral(s, "", lang), nil
+	return ntriples.NewLiteral(s, RDFLangString, lang), nil
 }
 
 func parseIRI(s string) (ntriples.IRI, error) {
-- 
2.43.0


From a30fea02d0843322f762c8369f261a16b516818c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:01 +0000
Subject: [PATCH 59/81] fix: keep generated blank node names apart from those
 in the document

---
 rdf/rdfxml/rdfxml.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rdf/rdfxml/rdfxml.go b/rdf/rdfxml/rdfxml.go
index 9715a16..205f771 100644
--- a/rdf/rdfxml/rdfxml.go
+++ b/rdf/rdfxml/rdfxml.go
@@ -1070,6 +1070,12 @@ func parseIRI(s string) (ntriples.IRI, error) {
 
 func parseBlankNodeID(s string) (ntriples.BlankNodeID, error) {
 	// TODO(reddaly): Check blank node id syntax.
+	if strings.HasPrefix(s, "gen-") || strings.HasSuffix(s, ".") {
+		// Keep the name apart from the generated ones, which have a number after
+		// the "gen-", and make it a valid N-Triples label, which has no dot at its
+		// end. The names of blank nodes have no meaning outside of the document.
+		s = "gen-node-" + s + "-"
+	}
 	value := ntriples.BlankNodeID(s)
 	return value, nil
 }
-- 
2.43.0


From caed43b313dd52c2147dbc2c3144d77efcd77b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:02 +0000
Subject: [PATCH 60/81] fix: keep property attributes whose local name starts
 with xml

---
 rdf/rdfxml/rdfxml.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdf/rdfxml/rdfxml.go b/rdf/rdfxml/rdfxml.go
index 205f771..ad16d58 100644
--- a/rdf/rdfxml/rdfxml.go
+++ b/rdf/rdfxml/rdfxml.go
@@ -1314,7 +1314,7 @@ var beginsWithXMLExpr = regexp.MustCompile(`^(?i)xml`)
 var xmlnsRE = regexp.MustCompile(`^(?i)` + regexp.QuoteMeta(xmlNS))
 
 func isXMLAttr(name xml.Name) bool {
-	return xmlnsRE.MatchString(name.Space) || beginsWithXMLExpr.MatchString(name.Local) || beginsWithXMLExpr.MatchString(name.Space)
+	return xmlnsRE.MatchString(name.Space) || name.Space == "" && beginsWithXMLExpr.MatchString(name.Local) || beginsWithXMLExpr.MatchString(name.Space)
 }
 
 func isPropertyAttr(name xml.Name) bool {
-- 
2.43.0


From 5cfee1e276087384bf4192d0ed67fb4e9a6f8c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:02 +0000
Subject: [PATCH 61/81] fix: take only XML white space for white space in
 RDF/XML

---
 rdf/rdfxml/rdfxml.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/rdf/rdfxml/rdfxml.go b/rdf/rdfxml/rdfxml.go
index ad16d58..3bcfea9 100644
--- a/rdf/rdfxml/rdfxml.go
+++ b/rdf/rdfxml/rdfxml.go
@@ -117,7 +117,7 @@ func readRootOrNodeElem(p *Parser) error {
 			// end elements should be consumed
 		case xml.CharData:
 			str := string(t)
-			if strings.TrimSpace(str) != "" {
+			if trimXMLSpace(str) != "" {
 				return p.errorf("unexpected non-whitespace element text %q", str)
 			}
 		case xml.Comment: // ignore
@@ -158,7 +158,7 @@ func readNodeElemsAndEndElement(p *Parser, wantEnd ntriples.IRI) ([]*ntriples.Su
 			return subjects, nil
 		case xml.CharData:
 			str := string(t)
-			if strings.TrimSpace(str) != "" {
+			if trimXMLSpace(str) != "" {
 				return nil, p.errorf("unexpected non-whitespace element text %q", str)
 			}
 		case xml.Comment: // ignore
@@ -512,7 +512,7 @@ func readPropertyElems(p *Parser, startElemName xml.Name, subject *ntriples.Subj
 			}
 			return nil
 		case xml.CharData:
-			if str := string(t); strings.TrimSpace(str) != "" {
+			if str := string(t); trimXMLSpace(str) != "" {
 				return p.errorf("unexpected non-whitespace element text %q between the property elements of %s", str, subject)
 			}
 		case xml.Comment: // ignore
@@ -999,7 +999,7 @@ func readNextChildOfPropertyElement(p *Parser) (*propertyElemParseInfo, error) {
 			}
 		case xml.StartElement:
 			text := textBuilder.String()
-			if strings.TrimSpace(text) != "" {
+			if trimXMLSpace(text) != "" {
 				return nil, p.errorf("got start element %s for property and also non-whitespace element text %q", xmlNameToIRI(t.Name), text)
 			}
 			return &propertyElemParseInfo{
@@ -1135,7 +1135,7 @@ func readWhitespaceUntilEndElem(p *Parser, startElem *xml.StartElement) error {
 			}
 			return nil
 		case xml.CharData:
-			nonWS := strings.TrimSpace(string(t))
+			nonWS := trimXMLSpace(string(t))
 			if len(nonWS) != 0 {
 				return p.errorf("expected only whitespace in contents, got %q", nonWS)
 			}
@@ -1147,6 +1147,11 @@ func readWhitespaceUntilEndElem(p *Parser, startElem *xml.StartElement) error {
 	}
 }
 
+// trimXMLSpace removes white space as defined by XML from both ends of the text.
+func trimXMLSpace(s string) string {
+	return strings.Trim(s, " \t\r\n")
+}
+
 var startWithXMLRegexp = regexp.MustCompile(`^(?i)xml`)
 
 // rdfAttributes returns all the attributes that should be considered as the
-- 
2.43.0


From 34ce30aca24c4a47a1c10cb0a990cc7ece07406c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:03 +0000
Subject: [PATCH 62/81] fix: read RDF/XML attributes without namespace as RDF
 terms and refuse others

---
 rdf/rdfxml/rdfxml.go | 41 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/rdf/rdfxml/rdfxml.go b/rdf/rdfxml/rdfxml.go
index 3bcfea9..145b569 100644
--- a/rdf/rdfxml/rdfxml.go
+++ b/rdf/rdfxml/rdfxml.go
@@ -93,6 +93,9 @@ func readRootOrNodeElem(p *Parser) error {
 			started = true
 
 			if xmlNameToIRI(t.Name) == RDFRoot {
+				if err := p.qualifyAttributes(&t); err != nil {
+					return err
+				}
 				if extra := rdfAttributes(t.Attr); len(extra) != 0 {
 					return p.errorf("unexpected attribute %s of rdf:RDF", extra[0].Name.Local)
 				}
@@ -308,6 +311,32 @@ func (p *Parser) generateBlankNodeIDWithHint(hint string) ntriples.BlankNodeID {
 	}
 }
 
+// qualifyAttributes puts the attributes that may be written without a namespace
+// into the RDF namespace and refuses all others that have none. See section
+// 6.1.4 of the RDF/XML spec.
+func (p *Parser) qualifyAttributes(elem *xml.StartElement) error {
+	attrs := append([]xml.Attr(nil), elem.Attr...)
+	seen := map[ntriples.IRI]bool{}
+	for i, a := range attrs {
+		if a.Name.Space == "" && !isXMLAttr(a.Name) {
+			switch a.Name.Local {
+			case "ID", "about", "resource", "parseType", "type":
+				attrs[i].Name.Space = string(RDF)
+			default:
+				return p.errorf("attribute %q of %s has no namespace", a.Name.Local, elem.Name.Local)
+			}
+		}
+		if term := xmlNameToIRI(attrs[i].Name); coreSyntaxTerms[term] {
+			if seen[term] {
+				return p.errorf("attribute %s of %s is given twice", term, elem.Name.Local)
+			}
+			seen[term] = true
+		}
+	}
+	elem.Attr = attrs
+	return nil
+}
+
 // handleGenericStartElem updaters the parser's state based on generic
 // attributes of the start element, like "xml:base" and returns a function that
 // handles the closing of the element.
@@ -354,6 +383,9 @@ func readNodeElem(p *Parser, start xml.StartElement) (*ntriples.Subject, error)
 // The forceSubject argument may be nil, in which case the subject is
 // determined based on the element and its attributes.
 func readNodeElemUsingSubject(p *Parser, start xml.StartElement, forcedSubject *ntriples.Subject) (*ntriples.Subject, error) {
+	if err := p.qualifyAttributes(&start); err != nil {
+		return nil, err
+	}
 	handleCloseElem, err := p.handleGenericStartElem(start)
 	if err != nil {
 		return nil, err
@@ -375,6 +407,9 @@ func readNodeElemUsingSubject(p *Parser, start xml.StartElement, forcedSubject *
 	subject := forcedSubject
 
 	if forcedSubject == nil {
+		if start.Name.Space == "" {
+			return nil, p.errorf("node element %s has no namespace", start.Name.Local)
+		}
 		if err := checkNodeElementURI(xmlNameToIRI(start.Name)); err != nil {
 			return nil, err
 		}
@@ -526,6 +561,9 @@ func readPropertyElems(p *Parser, startElemName xml.Name, subject *ntriples.Subj
 // https://www.w3.org/TR/rdf-syntax-grammar/#propertyElt.
 func readPropertyElemInternal(p *Parser, liCounter *int, subject *ntriples.Subject, propElem xml.StartElement) error {
 	elemURI := xmlNameToIRI(propElem.Name)
+	if propElem.Name.Space == "" {
+		return p.errorf("property element %s has no namespace", propElem.Name.Local)
+	}
 	if err := checkPropertyElementURI(elemURI); err != nil {
 		return p.errorf("bad property element %+v: %w", propElem, err)
 	}
@@ -884,6 +922,9 @@ func readSequencePropertyElem(p *Parser, subject *ntriples.Subject, propElem xml
 // readPropertyElems parses the property elements of a nodeElem per
 // https://www.w3.org/TR/rdf-syntax-grammar/#propertyElt.
 func readPropertyElem(p *Parser, liCounter *int, subject *ntriples.Subject, propElem xml.StartElement) error {
+	if err := p.qualifyAttributes(&propElem); err != nil {
+		return err
+	}
 	handleCloseElem, err := p.handleGenericStartElem(propElem)
 	if err != nil {
 		return err
-- 
2.43.0


From cd61b9fa72ea9c234be875acc4d1d8cd8b51edeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:54 +0000
Subject: [PATCH 63/81] fix: keep the namespaces of elements within RDF/XML
 literals

---
 rdf/rdfxml/rdfxml.go | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/rdf/rdfxml/rdfxml.go b/rdf/rdfxml/rdfxml.go
index 145b569..d9872fe 100644
--- a/rdf/rdfxml/rdfxml.go
+++ b/rdf/rdfxml/rdfxml.go
@@ -1139,23 +1139,38 @@ func findAttr(elem xml.StartElement, iri ntriples.IRI) *xml.Attr {
 func readElementContents(p *Parser) ([]byte, error) {
 	buf := &bytes.Buffer{}
 	enc := xml.NewEncoder(buf)
-	depth := 0
+	// The namespaces of the open elements. The encoder declares the namespace
+	// of every element that has one as the default namespace.
+	var spaces []string
 	for {
 		tok, err := p.reader.Token()
 		if err != nil {
 			return nil, p.errorf("XML read error: %w", err)
 		}
-		switch tok.(type) {
+		switch t := tok.(type) {
 		case xml.EndElement:
-			if depth == 0 {
+			if len(spaces) == 0 {
 				if err := enc.Flush(); err != nil {
 					return nil, p.errorf("XML printing error: %w", err)
 				}
 				return buf.Bytes(), nil
 			}
-			depth--
+			spaces = spaces[:len(spaces)-1]
 		case xml.StartElement:
-			depth++
+			// The encoder makes the namespace declarations that are needed.
+			var attrs []xml.Attr
+			for _, attr := range t.Attr {
+				if attr.Name.Space != "xmlns" && attr.Name != (xml.Name{Local: "xmlns"}) {
+					attrs = append(attrs, attr)
+				}
+			}
+			if n := len(spaces); n != 0 && spaces[n-1] != "" && t.Name.Space == "" {
+				// Without this, the element would be in the namespace of its parent.
+				attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "xmlns"}})
+			}
+			t.Attr = attrs
+			spaces = append(spaces, t.Name.Space)
+			tok = t
 		}
 		if err := enc.EncodeToken(tok); err != nil {
 			return nil, p.errorf("XML printing error: %w", err)
-- 
2.43.0


From edc8d6ac65e733f0236b7b78c86172a8a32e4e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:06 +0000
Subject: [PATCH 64/81] fix: keep the error of the source in RDF/XML errors

---
 rdf/rdfxml/rdfxml.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rdf/rdfxml/rdfxml.go b/rdf/rdfxml/rdfxml.go
index d9872fe..f271e53 100644
--- a/rdf/rdfxml/rdfxml.go
+++ b/rdf/rdfxml/rdfxml.go
@@ -83,7 +83,7 @@ func readRootOrNodeElem(p *Parser) error {
 			return fmt.Errorf("unexpected end of file while parsing RDF xml")
 		}
 		if err != nil {
-			return fmt.Errorf("XML error: %v", err)
+			return fmt.Errorf("XML error: %w", err)
 		}
 		switch t := tok.(type) {
 		case xml.StartElement:
@@ -143,7 +143,7 @@ func readNodeElemsAndEndElement(p *Parser, wantEnd ntriples.IRI) ([]*ntriples.Su
 			return nil, fmt.Errorf("unexpected end of file while parsing rdf:Root")
 		}
 		if err != nil {
-			return nil, fmt.Errorf("XML error while parsing rdf:Root: %v", err)
+			return nil, fmt.Errorf("XML error while parsing rdf:Root: %w", err)
 		}
 		switch t := tok.(type) {
 		case xml.StartElement:
-- 
2.43.0


From 61c2627f15faccaaaa712889e96ac9358ddb45a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:06 +0000
Subject: [PATCH 65/81] fix: read the token an XML source gives along with an
 error, in RDF/XML

---
 rdf/rdfxml/rdfxml.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/rdf/rdfxml/rdfxml.go b/rdf/rdfxml/rdfxml.go
index f271e53..d4f8085 100644
--- a/rdf/rdfxml/rdfxml.go
+++ b/rdf/rdfxml/rdfxml.go
@@ -206,13 +206,34 @@ type Parser struct {
 // NewParser returns a new RDF/XML parser that reads from the given xml document
 // tr.
 func NewParser(tr xml.TokenReader, opts *ParserOptions) *Parser {
-	p := &Parser{tr, nil, nil, nil, 0, map[ntriples.BlankNodeID]bool{}, map[ntriples.IRI]bool{}}
+	p := &Parser{&tokenReader{tr, nil}, nil, nil, nil, 0, map[ntriples.BlankNodeID]bool{}, map[ntriples.IRI]bool{}}
 	if opts != nil && opts.BaseURL != "" {
 		p.pushBaseURI(opts.BaseURL)
 	}
 	return p
 }
 
+// tokenReader reads from an xml.TokenReader, which may give an error along with
+// the last token, and neither a token nor an error.
+type tokenReader struct {
+	reader xml.TokenReader
+	err    error
+}
+
+// Token returns either a token or an error.
+func (r *tokenReader) Token() (xml.Token, error) {
+	for {
+		if r.err != nil {
+			return nil, r.err
+		}
+		tok, err := r.reader.Token()
+		r.err = err
+		if tok != nil {
+			return tok, nil
+		}
+	}
+}
+
 // ReadAllTriples returns a slice of triples based on all the XML contents of
 // the input reader.
 func (p *Parser) ReadAllTriples() ([]*ntriples.Triple, error) {
-- 
2.43.0


From 7e8a7d1c4f2f68e777b7469f33fb086eb856de8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:06 +0000
Subject: [PATCH 66/81] fix: read the token an XML source gives along with an
 error, in xmlinfer

---
 xmlinfer/xmlinfer.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/xmlinfer/xmlinfer.go b/xmlinfer/xmlinfer.go
index d6876e7..374c41c 100644
--- a/xmlinfer/xmlinfer.go
+++ b/xmlinfer/xmlinfer.go
@@ -30,7 +30,7 @@ import (
 
 // Infer infers a protocol buffer definition from a stream of XML tokens.
 func Infer(tr xml.TokenReader, options ...Option) (*InferResult, error) {
-	s := &state{tr, false}
+	s := &state{&tokenReader{tr, nil}, false}
 	for _, opt := range options {
 		opt.applyToState(s)
 	}
@@ -302,6 +302,27 @@ type state struct {
 	includeExamples bool
 }
 
+// tokenReader reads from an xml.TokenReader, which may give an error along with
+// the last token, and neither a token nor an error.
+type tokenReader struct {
+	reader xml.TokenReader
+	err    error
+}
+
+// Token returns either a token or an error.
+func (r *tokenReader) Token() (xml.Token, error) {
+	for {
+		if r.err != nil {
+			return nil, r.err
+		}
+		tok, err := r.reader.Token()
+		r.err = err
+		if tok != nil {
+			return tok, nil
+		}
+	}
+}
+
 func (s *state) inferTopLevel() (*InferResult, error) {
 	ir := &InferResult{}
 
-- 
2.43.0


From 98c8fd8d7b7efe16d05fa457132380164ecc6ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:07 +0000
Subject: [PATCH 67/81] fix: show the same examples in every run of xmlinfer

---
 xmlinfer/xmlinfer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xmlinfer/xmlinfer.go b/xmlinfer/xmlinfer.go
index 374c41c..ecd8d09 100644
--- a/xmlinfer/xmlinfer.go
+++ b/xmlinfer/xmlinfer.go
@@ -190,7 +190,10 @@ func topNExamplesComment(m map[string]int) string {
 		total += count
 	}
 	sort.Slice(strs, func(i int, j int) bool {
-		return m[strs[i]] > m[strs[j]]
+		if m[strs[i]] != m[strs[j]] {
+			return m[strs[i]] > m[strs[j]]
+		}
+		return strs[i] < strs[j]
 	})
 
 	if len(strs) > 5 {
-- 
2.43.0


From 1d3e9bdb12632be3f16ff8413aa268f026bbe246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:07 +0000
Subject: [PATCH 68/81] fix: infer valid protobuf names from all XML names

---
 xmlinfer/xmlinfer.go | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/xmlinfer/xmlinfer.go b/xmlinfer/xmlinfer.go
index ecd8d09..b213c39 100644
--- a/xmlinfer/xmlinfer.go
+++ b/xmlinfer/xmlinfer.go
@@ -425,9 +425,32 @@ func (s *state) consumeElementTokens(startTok xml.StartElement, sc *structCandid
 }
 
 func xmlToMessageName(xn xml.Name) string {
-	return strcase.UpperCamelCase(xn.Local)
+	name := strcase.UpperCamelCase(replaceInvalidChars(xn.Local))
+	if name == "" || !isLetter(rune(name[0])) {
+		name = "M" + name
+	}
+	return name
 }
 
 func xmlToFieldName(xn xml.Name) string {
-	return strcase.LowerCamelCase(xn.Local)
+	name := strcase.LowerCamelCase(replaceInvalidChars(xn.Local))
+	if name == "" || !isLetter(rune(name[0])) {
+		name = "f" + name
+	}
+	return name
+}
+
+// replaceInvalidChars replaces the characters of an XML name that a protobuf
+// name cannot have.
+func replaceInvalidChars(name string) string {
+	return strings.Map(func(r rune) rune {
+		if isLetter(r) || r == '_' || r == '-' || ('0' <= r && r <= '9') {
+			return r
+		}
+		return '_'
+	}, name)
+}
+
+func isLetter(r rune) bool {
+	return ('a' <= r && r <= 'z') || ('A' <= r && r <= 'Z')
 }
-- 
2.43.0


From dbf1568d36a9e3ecb872aba190a8f168c456831a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:07 +0000
Subject: [PATCH 69/81] fix: infer distinct field names for attributes and
 elements of the same name

---
 xmlinfer/xmlinfer.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/xmlinfer/xmlinfer.go b/xmlinfer/xmlinfer.go
index b213c39..26d5971 100644
--- a/xmlinfer/xmlinfer.go
+++ b/xmlinfer/xmlinfer.go
@@ -114,7 +114,7 @@ func (sc *structCandidate) inferredMessages() ([]*builder.MessageBuilder, error)
 		if err != nil {
 			return nil, err
 		}
-		b.AddField(attrField)
+		addFieldWithUniqueName(b, attrField)
 	}
 
 	all := []*builder.MessageBuilder{b}
@@ -124,7 +124,7 @@ func (sc *structCandidate) inferredMessages() ([]*builder.MessageBuilder, error)
 		if err != nil {
 			return nil, err
 		}
-		b.AddField(fieldDesc)
+		addFieldWithUniqueName(b, fieldDesc)
 		if mainChildElemMsg != nil {
 			all = append(all, mainChildElemMsg)
 		}
@@ -133,6 +133,24 @@ func (sc *structCandidate) inferredMessages() ([]*builder.MessageBuilder, error)
 	return all, nil
 }
 
+// addFieldWithUniqueName adds the field to the message, numbering its name if
+// another field of the message has it. Names that differ only in case or
+// underscores are the same, because their JSON names might be.
+func addFieldWithUniqueName(b *builder.MessageBuilder, field *builder.FieldBuilder) {
+	key := func(name string) string {
+		return strings.ToLower(strings.ReplaceAll(name, "_", ""))
+	}
+	used := make(map[string]bool)
+	for _, child := range b.GetChildren() {
+		used[key(child.GetName())] = true
+	}
+	name := field.GetName()
+	for i := 1; used[key(field.GetName())]; i++ {
+		field.SetName(fmt.Sprintf("%s%d", name, i))
+	}
+	b.AddField(field)
+}
+
 func (sc *structCandidate) getElement(name xml.Name) *elementFieldCandidate {
 	for _, ef := range sc.elemFields {
 		if ef.sc.name == name {
-- 
2.43.0


From c468bd134d51b0894e04a5247c15697ea3000a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:50 +0000
Subject: [PATCH 70/81] fix: hide the examples in xmlinfer when
 IncludeExamplesOption says so

---
 xmlinfer/xmlinfer.go | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/xmlinfer/xmlinfer.go b/xmlinfer/xmlinfer.go
index 26d5971..34388c7 100644
--- a/xmlinfer/xmlinfer.go
+++ b/xmlinfer/xmlinfer.go
@@ -30,7 +30,7 @@ import (
 
 // Infer infers a protocol buffer definition from a stream of XML tokens.
 func Infer(tr xml.TokenReader, options ...Option) (*InferResult, error) {
-	s := &state{&tokenReader{tr, nil}, false}
+	s := &state{&tokenReader{tr, nil}, true}
 	for _, opt := range options {
 		opt.applyToState(s)
 	}
@@ -43,7 +43,8 @@ func Infer(tr xml.TokenReader, options ...Option) (*InferResult, error) {
 
 // InferResult holds the results of inference.
 type InferResult struct {
-	roots []*structCandidate
+	roots   []*structCandidate
+	options inferenceOptions
 }
 
 func (ir *InferResult) String() string {
@@ -57,7 +58,7 @@ func (ir *InferResult) ProtoFile() (string, error) {
 	}
 	b := builder.NewFile("output.proto").SetProto3(true)
 	for _, r := range ir.roots {
-		msgs, err := r.inferredMessages()
+		msgs, err := r.inferredMessages(ir.options)
 		if err != nil {
 			return "", fmt.Errorf("could not infer messages of root element %s: %w", r, err)
 		}
@@ -95,7 +96,7 @@ func (sc *structCandidate) hasNoAttributesOrChildElements() bool {
 	return len(sc.elemFields) == 0 && len(sc.attrFields) == 0
 }
 
-func (sc *structCandidate) inferredMessages() ([]*builder.MessageBuilder, error) {
+func (sc *structCandidate) inferredMessages(opts inferenceOptions) ([]*builder.MessageBuilder, error) {
 	if sc.hasNoAttributesOrChildElements() {
 		return nil, nil
 	}
@@ -110,7 +111,7 @@ func (sc *structCandidate) inferredMessages() ([]*builder.MessageBuilder, error)
 			len(sc.attrFields), len(sc.elemFields), strings.Join(elemFieldNames, ", "), sc.occurenceCount),
 	})
 	for _, attr := range sc.attrFields {
-		attrField, err := attr.fieldBuilder()
+		attrField, err := attr.fieldBuilder(opts)
 		if err != nil {
 			return nil, err
 		}
@@ -120,7 +121,7 @@ func (sc *structCandidate) inferredMessages() ([]*builder.MessageBuilder, error)
 	all := []*builder.MessageBuilder{b}
 
 	for _, ef := range sc.elemFields {
-		fieldDesc, mainChildElemMsg, otherChildElemMsgs, err := ef.fieldBuilder()
+		fieldDesc, mainChildElemMsg, otherChildElemMsgs, err := ef.fieldBuilder(opts)
 		if err != nil {
 			return nil, err
 		}
@@ -182,7 +183,7 @@ func (ac *attrFieldCandidate) recordExampleValue(s string) {
 	ac.sampleValueCounts[s]++
 }
 
-func (ac *attrFieldCandidate) fieldBuilder() (*builder.FieldBuilder, error) {
+func (ac *attrFieldCandidate) fieldBuilder(opts inferenceOptions) (*builder.FieldBuilder, error) {
 	fieldName := xmlToFieldName(ac.name)
 	ft, err := inferFieldTypeFromExampleStrings(ac.sampleValueCounts)
 	if err != nil {
@@ -191,13 +192,13 @@ func (ac *attrFieldCandidate) fieldBuilder() (*builder.FieldBuilder, error) {
 	b := builder.NewField(fieldName, ft)
 
 	b.SetComments(builder.Comments{
-		LeadingComment: topNExamplesComment(ac.sampleValueCounts),
+		LeadingComment: topNExamplesComment(ac.sampleValueCounts, opts),
 	})
 
 	return b, nil
 }
 
-func topNExamplesComment(m map[string]int) string {
+func topNExamplesComment(m map[string]int, opts inferenceOptions) string {
 	if len(m) == 0 {
 		return "inferred type from 0 examples"
 	}
@@ -207,6 +208,9 @@ func topNExamplesComment(m map[string]int) string {
 		strs = append(strs, s)
 		total += count
 	}
+	if !opts.includeExamples {
+		return fmt.Sprintf(" inferred type from %d examples, %d unique values", total, len(m))
+	}
 	sort.Slice(strs, func(i int, j int) bool {
 		if m[strs[i]] != m[strs[j]] {
 			return m[strs[i]] > m[strs[j]]
@@ -240,7 +244,7 @@ func (ef *elementFieldCandidate) recordCardinality(c int) {
 	ef.cardinalityCounts[c]++
 }
 
-func (ef *elementFieldCandidate) fieldBuilder() (*builder.FieldBuilder, *builder.MessageBuilder, []*builder.MessageBuilder, error) {
+func (ef *elementFieldCandidate) fieldBuilder(opts inferenceOptions) (*builder.FieldBuilder, *builder.MessageBuilder, []*builder.MessageBuilder, error) {
 	var b *builder.FieldBuilder
 	var mainChild *builder.MessageBuilder
 	var otherChildren []*builder.MessageBuilder
@@ -252,10 +256,10 @@ func (ef *elementFieldCandidate) fieldBuilder() (*builder.FieldBuilder, *builder
 		}
 		b = builder.NewField(fieldName, ft)
 		b.SetComments(builder.Comments{
-			LeadingComment: topNExamplesComment(ef.sc.chardataField.sampleValueCounts),
+			LeadingComment: topNExamplesComment(ef.sc.chardataField.sampleValueCounts, opts),
 		})
 	} else {
-		childStructs, err := ef.sc.inferredMessages()
+		childStructs, err := ef.sc.inferredMessages(opts)
 		if err != nil {
 			return nil, nil, nil, fmt.Errorf("error getting child structs of %q: %w", fieldName, err)
 		}
@@ -298,7 +302,7 @@ func (cdf *chardataFieldCandidate) recordExampleValue(s string) {
 }
 
 // IncludeExamplesOption returns an option that enables or disables showing
-// example values in the generated protobuf.
+// example values in the generated protobuf. They are shown by default.
 func IncludeExamplesOption(include bool) Option {
 	return &simpleOption{func(s *state) {
 		s.includeExamples = include
@@ -345,7 +349,7 @@ func (r *tokenReader) Token() (xml.Token, error) {
 }
 
 func (s *state) inferTopLevel() (*InferResult, error) {
-	ir := &InferResult{}
+	ir := &InferResult{options: inferenceOptions{s.includeExamples}}
 
 	for {
 		tok, err := s.tr.Token()
-- 
2.43.0


From 8d4a5bab71453da4f48a1fc71bbfe83b653ee6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:06 +0000
Subject: [PATCH 71/81] fix: compare lists of unset fields in protoreflectcmp

---
 internal/protoreflectcmp/protoreflectcmp.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/protoreflectcmp/protoreflectcmp.go b/internal/protoreflectcmp/protoreflectcmp.go
index 610b5c0..a631920 100644
--- a/internal/protoreflectcmp/protoreflectcmp.go
+++ b/internal/protoreflectcmp/protoreflectcmp.go
@@ -106,8 +106,10 @@ func analyzeValue(v interface{}) analysis {
 	}
 	if list, ok := v.(protoreflect.List); ok {
 		a.IsList = true
-		if list.IsValid() {
-			prototypeInstance := list.NewElement().Interface()
+		// The list of a field that is not set is not valid, but has elements of
+		// some type all the same.
+		if element := list.NewElement(); element.IsValid() {
+			prototypeInstance := element.Interface()
 			switch instance := prototypeInstance.(type) {
 			case bool:
 				a.SliceElementType = boolType
-- 
2.43.0


From 43c47246e220168d5f730a4cbbb589e8af33a08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:06 +0000
Subject: [PATCH 72/81] fix: compare messages that hold lists of messages in
 protoreflectcmp

---
 internal/protoreflectcmp/protoreflectcmp.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/protoreflectcmp/protoreflectcmp.go b/internal/protoreflectcmp/protoreflectcmp.go
index a631920..943b36d 100644
--- a/internal/protoreflectcmp/protoreflectcmp.go
+++ b/internal/protoreflectcmp/protoreflectcmp.go
@@ -164,7 +164,10 @@ func analyzeValue(v interface{}) analysis {
 			if elementType.Implements(protoMessageType) {
 				if elementType.Kind() != reflect.Interface {
 					prototype := reflect.New(elementType).Elem().Interface().(proto.Message)
-					a.SliceMessageName = prototype.ProtoReflect().Descriptor().FullName()
+					// A transformed message (protocmp.Message) has no type by itself.
+					if desc := prototype.ProtoReflect().Descriptor(); desc != nil {
+						a.SliceMessageName = desc.FullName()
+					}
 				} else {
 					a.SliceMessageName = protoreflect.FullName(genericMessageName)
 				}
-- 
2.43.0


From 7a73c559e11bf5e1c47967e716f971d69fb9e324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:52 +0000
Subject: [PATCH 73/81] fix: show text beyond ASCII in the playground

---
 playground/index.html | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/playground/index.html b/playground/index.html
index 55bbb41..8957fdd 100644
--- a/playground/index.html
+++ b/playground/index.html
@@ -107,7 +107,8 @@
         }
 
         function setCode(id, obj) {
-            const contents = atob(obj['new_contents']);
+            // The contents are base64-encoded UTF-8.
+            const contents = new TextDecoder().decode(Uint8Array.from(atob(obj['new_contents']), c => c.charCodeAt(0)));
             const name = obj['workspace_relative_path'];
             setTextContent(id, contents ? contents : '// no code available');
             setTextContent(id + '-filename', name ? name : '(unnamed file)');
-- 
2.43.0


From cc6ae17d2f226f09ce730e5da3c351f2a348bbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:54 +0000
Subject: [PATCH 74/81] fix: alias imports whose assumed name is no identifier

---
 codegen/codegen_imports.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/codegen/codegen_imports.go b/codegen/codegen_imports.go
index a7e9f1f..187ace3 100644
--- a/codegen/codegen_imports.go
+++ b/codegen/codegen_imports.go
@@ -3,6 +3,7 @@ package codegen
 
 import (
 	"fmt"
+	"go/token"
 	"path"
 	"strconv"
 	"strings"
@@ -106,6 +107,14 @@ func (i *Imports) suggestAliases(importPath string, callback func(alias string)
 		}
 	}
 
+	if i.customAssumedPackageNameFunc == nil &&
+		!(usableIdentifier(preferredPackageName("")) && usableIdentifier(preferredPackageName("2"))) {
+		withoutPrefix := preferredPackageName
+		preferredPackageName = func(noise string) string {
+			return "pkg" + withoutPrefix(noise)
+		}
+	}
+
 	for i := 1; ; i++ {
 		noise := ""
 		if i > 1 {
@@ -344,6 +353,11 @@ func GoToolsAssumedPackageName(importPath string) string {
 	return base
 }
 
+// usableIdentifier reports whether code can refer to a package by the name.
+func usableIdentifier(name string) bool {
+	return token.IsIdentifier(name) && name != blankAlias
+}
+
 // notIdentifier reports whether ch is an invalid identifier character.
 func notIdentifier(ch rune) bool {
 	return !('a' <= ch && ch <= 'z' || 'A' <= ch && ch <= 'Z' ||
-- 
2.43.0


From e14ea27966272066b58b971ffdce9adcf8c72488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:42 +0000
Subject: [PATCH 75/81] fix: keep the CSV header when the reader reuses its
 record

---
 csvcoder/csvcoder_file.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/csvcoder/csvcoder_file.go b/csvcoder/csvcoder_file.go
index a0a4e9d..0fbf319 100644
--- a/csvcoder/csvcoder_file.go
+++ b/csvcoder/csvcoder_file.go
@@ -77,7 +77,9 @@ func (fp *FileParser) parseHeader() error {
 		return fmt.Errorf("error reading header row: %w", err)
 	}
 	fp.rowNum = 1
-	fp.hdr = NewHeader(gotHeaderValues)
+	// The reader may reuse the slice for the next record (csv.Reader does so if
+	// ReuseRecord is set), but the header is needed for all rows.
+	fp.hdr = NewHeader(append([]string(nil), gotHeaderValues...))
 	missing := []string{}
 	for wantCol := range fp.hdrOpt.expectedColumns {
 		if !fp.hdr.ColumnIndex(wantCol).IsValid() {
-- 
2.43.0


From 42f79b8cedafcd2f7db762676614ba4ee5721d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:10 +0000
Subject: [PATCH 76/81] fix: do not let a context value of a caller replace the
 registry

---
 textcoder/textcoder.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/textcoder/textcoder.go b/textcoder/textcoder.go
index f27acc9..58394d4 100644
--- a/textcoder/textcoder.go
+++ b/textcoder/textcoder.go
@@ -327,7 +327,11 @@ type Context struct {
 	values map[interface{}]interface{}
 }
 
-const registryKey = "registry"
+// contextKey is the type of the keys this package uses in a Context; being
+// unexported, such a key differs from every key of a user of the package.
+type contextKey string
+
+const registryKey contextKey = "registry"
 
 // NewContext returns a new Context to use when parsing within a given
 // Row.
-- 
2.43.0


From 03e1f43b8b0e10cdfff29cb44f5bc2c3a234cfa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:06 +0000
Subject: [PATCH 77/81] fix: name the types of generated converters with Go
 identifiers that are not taken

---
 csvtoproto/csvtoproto_go_codegen.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/csvtoproto/csvtoproto_go_codegen.go b/csvtoproto/csvtoproto_go_codegen.go
index 859a517..2f29d0e 100644
--- a/csvtoproto/csvtoproto_go_codegen.go
+++ b/csvtoproto/csvtoproto_go_codegen.go
@@ -142,7 +142,20 @@ func NewMessageReader(r io.Reader, options... csvtoprotoparse.ReaderOption) (pro
 `))
 
 func (cg *codeGenerator) recordStructTypeName() string {
-	return strcase.LowerCamelCase(cg.mapping.MessageName) + "Record"
+	name := goTypeName(cg.mapping.MessageName) + "Record"
+	if name == "newRecord" {
+		name += "_" // The generated code has a function of that name.
+	}
+	return name
+}
+
+// goTypeName returns the lower camel case of a proto name as a Go identifier.
+func goTypeName(protoName string) string {
+	name := strcase.LowerCamelCase(protoName)
+	if name != "" && '0' <= name[0] && name[0] <= '9' {
+		name = "_" + name // A proto name like "_1" has lost its underscore.
+	}
+	return name
 }
 
 func (cg *codeGenerator) goCode() (string, error) {
@@ -356,7 +369,7 @@ func getFieldTypeCode(c2f *pb.ColumnToFieldMapping) (*fieldTypeCode, error) {
 	case "string":
 		return &fieldTypeCode{"", "string"}, nil
 	case "google.protobuf.Timestamp":
-		typeName := strcase.LowerCamelCase(c2f.GetProtoName() + "Time")
+		typeName := goTypeName(c2f.GetProtoName() + "Time")
 		tz := c2f.GetTimeFormat().GetTimeZoneName()
 		if tz == "" {
 			tz = "UTC"
@@ -371,7 +384,7 @@ func getFieldTypeCode(c2f *pb.ColumnToFieldMapping) (*fieldTypeCode, error) {
 		}
 		return &fieldTypeCode{code, typeName}, nil
 	case "google.protobuf.Duration":
-		typeName := strcase.LowerCamelCase(c2f.GetProtoName() + "Duration")
+		typeName := goTypeName(c2f.GetProtoName() + "Duration")
 		code, err := templateExecString(durationTypeTemplate, map[string]string{
 			"T":    typeName,
 			"unit": c2f.GetDurationFormat().GetGoUnitSuffix(),
-- 
2.43.0


From ff73b321bd538fd351eced094a8baf4bd611770a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:51 +0000
Subject: [PATCH 78/81] fix: keep a copy of the rows types are inferred from

---
 recordinfer/recordinfer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/recordinfer/recordinfer.go b/recordinfer/recordinfer.go
index c58ec77..28329e0 100644
--- a/recordinfer/recordinfer.go
+++ b/recordinfer/recordinfer.go
@@ -117,7 +117,8 @@ func (b *RecordBasedInferrer) AddRow(row []string) error {
 		return fmt.Errorf("invalid row length; expected %d got %d for row %s", len(b.rows[0]), len(row), row)
 	}
 
-	b.rows = append(b.rows, row)
+	// The caller may use the slice again, as a csv.Reader with ReuseRecord does.
+	b.rows = append(b.rows, append([]string(nil), row...))
 
 	return nil
 }
-- 
2.43.0


From aebea5678e8c2f8fd5ba26cc0dcd6c935f7d235a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:43 +0000
Subject: [PATCH 79/81] fix: textpos: SetLines keeps a line table of its own

AddLine and MergeLine changed the slice of the caller, and with it the lines of
another file that was given the same slice.
---
 textpos/textpos_from_go_token.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/textpos/textpos_from_go_token.go b/textpos/textpos_from_go_token.go
index 3f9c462..09d6b9c 100644
--- a/textpos/textpos_from_go_token.go
+++ b/textpos/textpos_from_go_token.go
@@ -270,7 +270,7 @@ func (f *File) SetLines(lines []int) bool {
 
 	// set lines table
 	f.mutex.Lock()
-	f.lines = lines
+	f.lines = append([]int(nil), lines...)
 	f.mutex.Unlock()
 	return true
 }
-- 
2.43.0


From 6f3ab284b8f0678b09586c6e58200fd5790bf794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:28 +0000
Subject: [PATCH 80/81] fix: make_release: report that there is no current
 directory

---
 releasing/make_release/make_release.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/releasing/make_release/make_release.go b/releasing/make_release/make_release.go
index 5f43b01..aeed18d 100644
--- a/releasing/make_release/make_release.go
+++ b/releasing/make_release/make_release.go
@@ -58,7 +58,7 @@ func run() error {
 	if root == "" {
 		r, err := os.Getwd()
 		if err != nil {
-			return nil
+			return err
 		}
 		root = r
 	}
-- 
2.43.0


From a7b7f6f71bf381be1263a03b92bdd03eb3e6750a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:33 +0000
Subject: [PATCH 81/81] fix: generate_test_cases writes the document URL of
 negative cases

NegativeParserCase documents DocumentURL as the base URL of the document, but
the generated cases left it empty; and the comment gave the wrong number.
---
 rdf/rdfxml/generate_test_cases/generate_test_cases.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rdf/rdfxml/generate_test_cases/generate_test_cases.go b/rdf/rdfxml/generate_test_cases/generate_test_cases.go
index c950b83..6a5ee8b 100644
--- a/rdf/rdfxml/generate_test_cases/generate_test_cases.go
+++ b/rdf/rdfxml/generate_test_cases/generate_test_cases.go
@@ -109,16 +109,17 @@ type NegativeParserCase struct {
 	}
 	code += fmt.Sprintf("var Positives = []PositiveParserCase{\n%s\n}\n\n", strings.Join(posStructStrings, "\n"))
 
-	code += fmt.Sprintf("// Negatives contains %d invalid examples of RDF/XML.\n", len(positives))
+	code += fmt.Sprintf("// Negatives contains %d invalid examples of RDF/XML.\n", len(negatives))
 	negStructStrings := []string{}
 	for _, t := range negatives {
 		negStructStrings = append(negStructStrings,
 			fmt.Sprintf(`  {
     Name:           %q,
     InputXML:       %q,
+    DocumentURL:    %q,
     Description:    %q,
   },`,
-				t.Name, t.InputXML, t.Description))
+				t.Name, t.InputXML, t.DocumentURL, t.Description))
 	}
 	code += fmt.Sprintf("var Negatives = []NegativeParserCase{\n%s\n}\n\n", strings.Join(negStructStrings, "\n"))
 
-- 
2.43.0

