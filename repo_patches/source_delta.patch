From a1a3a6bdebbe96aec48a0b8457b1b585a78bab55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:56 +0000
Subject: [PATCH 01/20] fix: NewWriterLoader must capture the bytes of a
 partially failed write

io.MultiWriter stops at the first writer that fails, so the bytes the
underlying writer did accept never reached the loader's buffer. When the caller
went on with the rest, the loader decoded a document with a hole in it.
---
 jsonLoader.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/jsonLoader.go b/jsonLoader.go
index 5d88af2..fd7a812 100644
--- a/jsonLoader.go
+++ b/jsonLoader.go
@@ -325,7 +325,25 @@ func NewReaderLoader(source io.Reader) (JSONLoader, io.Reader) {
 // NewWriterLoader creates a new JSON loader using the provided io.Writer
 func NewWriterLoader(source io.Writer) (JSONLoader, io.Writer) {
 	buf := &bytes.Buffer{}
-	return &jsonIOLoader{buf: buf}, io.MultiWriter(source, buf)
+	return &jsonIOLoader{buf: buf}, &teeWriter{source: source, buf: buf}
+}
+
+// teeWriter keeps a copy of exactly those bytes that its source accepted, like
+// io.TeeReader does for readers
+type teeWriter struct {
+	source io.Writer
+	buf    *bytes.Buffer
+}
+
+func (t *teeWriter) Write(p []byte) (int, error) {
+	n, err := t.source.Write(p)
+	if n > 0 {
+		t.buf.Write(p[:n])
+	}
+	if err == nil && n != len(p) {
+		err = io.ErrShortWrite
+	}
+	return n, err
 }
 
 func (l *jsonIOLoader) JsonSource() interface{} {
-- 
2.43.0


From 75c2bf31df840be157c91b7e7a493fb985316b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:46 +0000
Subject: [PATCH 02/20] fix: close the response body of every schema fetched
 over HTTP

---
 go.mod        | 10 +++++++++-
 jsonLoader.go |  1 +
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/go.mod b/go.mod
index b709d7f..ebe83e7 100644
--- a/go.mod
+++ b/go.mod
@@ -1,7 +1,15 @@
 module github.com/xeipuuv/gojsonschema
 
+go 1.27.3
+
 require (
 	github.com/stretchr/testify v1.3.0
-	github.com/xeipuuv/gojsonpointer v0.0.0-20180127040702-4e3ac2762d5f // indirect
 	github.com/xeipuuv/gojsonreference v0.0.0-20180127040603-bd5ef7bd5415
 )
+
+require (
+	github.com/davecgh/go-spew v1.1.0 // indirect
+	github.com/pmezard/go-difflib v1.0.0 // indirect
+	github.com/stretchr/objx v0.1.0 // indirect
+	github.com/xeipuuv/gojsonpointer v0.0.0-20180127040702-4e3ac2762d5f // indirect
+)
diff --git a/jsonLoader.go b/jsonLoader.go
index fd7a812..0d7decc 100644
--- a/jsonLoader.go
+++ b/jsonLoader.go
@@ -189,6 +189,7 @@ func (l *jsonReferenceLoader) loadFromHTTP(address string) (interface{}, error)
 	if err != nil {
 		return nil, err
 	}
+	defer resp.Body.Close()
 
 	// must return HTTP Status 200 OK
 	if resp.StatusCode != http.StatusOK {
-- 
2.43.0


From 2833cb76fd740825acc77c365b7b1e4292fe0d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:46 +0000
Subject: [PATCH 03/20] fix: keep meta-schema validation enabled after a
 meta-schema failed to load

---
 schemaLoader.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/schemaLoader.go b/schemaLoader.go
index 20db0c1..43d82a1 100644
--- a/schemaLoader.go
+++ b/schemaLoader.go
@@ -68,6 +68,7 @@ func (sl *SchemaLoader) validateMetaschema(documentNode interface{}) error {
 
 	//Disable validation when loading the metaschema to prevent an infinite recursive loop
 	sl.Validate = false
+	defer func() { sl.Validate = true }()
 
 	metaSchema, err := sl.Compile(NewReferenceLoader(schema))
 
@@ -75,8 +76,6 @@ func (sl *SchemaLoader) validateMetaschema(documentNode interface{}) error {
 		return err
 	}
 
-	sl.Validate = true
-
 	result := metaSchema.validateDocument(documentNode)
 
 	if !result.Valid() {
-- 
2.43.0


From dfb1ace9f3d6b8788afc80cc4756757284102b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:47 +0000
Subject: [PATCH 04/20] fix: meta-schema validation must not replace the loader
 factory of the schema being compiled

---
 schemaLoader.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/schemaLoader.go b/schemaLoader.go
index 43d82a1..a40cb77 100644
--- a/schemaLoader.go
+++ b/schemaLoader.go
@@ -70,6 +70,9 @@ func (sl *SchemaLoader) validateMetaschema(documentNode interface{}) error {
 	sl.Validate = false
 	defer func() { sl.Validate = true }()
 
+	// Compiling the metaschema must not change where the schema that is being compiled gets its references from
+	defer func(factory JSONLoaderFactory) { sl.pool.jsonLoaderFactory = factory }(sl.pool.jsonLoaderFactory)
+
 	metaSchema, err := sl.Compile(NewReferenceLoader(schema))
 
 	if err != nil {
-- 
2.43.0


From 52d41a87b269aa78a4b4a7296c9385399754c0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:47 +0000
Subject: [PATCH 05/20] fix: ignore $schema of freshly fetched documents when
 AutoDetect is off

---
 schemaPool.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/schemaPool.go b/schemaPool.go
index 35b1cc6..f098506 100644
--- a/schemaPool.go
+++ b/schemaPool.go
@@ -202,7 +202,9 @@ func (p *schemaPool) GetDocument(reference gojsonreference.JsonReference) (*sche
 	// add the whole document to the pool for potential re-use
 	p.parseReferences(document, refToURL, true)
 
-	_, draft, _ = parseSchemaURL(document)
+	if *p.autoDetect {
+		_, draft, _ = parseSchemaURL(document)
+	}
 
 	// resolve the potential fragment and also cache it
 	document, _, err = reference.GetPointer().Get(document)
-- 
2.43.0


From 61981eb2d6c5e5975dea01fc4528880d4b525651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:48 +0000
Subject: [PATCH 06/20] fix: ignore the siblings of $ref also when the
 reference is already known

---
 schema.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/schema.go b/schema.go
index 9e93cd7..24b5ee5 100644
--- a/schema.go
+++ b/schema.go
@@ -241,9 +241,10 @@ func (d *Schema) parseSchema(documentNode interface{}, currentSchema *subSchema)
 			if err != nil {
 				return err
 			}
-
-			return nil
 		}
+
+		// Siblings of $ref are ignored
+		return nil
 	}
 
 	// type
-- 
2.43.0


From 06456aef268767bb1a0866c6cbbf0816251c555c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:48 +0000
Subject: [PATCH 07/20] fix: do not turn + into a space in the path of a file
 reference

---
 jsonLoader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonLoader.go b/jsonLoader.go
index 0d7decc..15a3ba6 100644
--- a/jsonLoader.go
+++ b/jsonLoader.go
@@ -146,7 +146,7 @@ func (l *jsonReferenceLoader) LoadJSON() (interface{}, error) {
 	if reference.HasFileScheme {
 
 		filename := strings.TrimPrefix(refToURL.String(), "file://")
-		filename, err = url.QueryUnescape(filename)
+		filename, err = url.PathUnescape(filename)
 
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 412966b6d0422ea17b9a5e574ef570b5449613c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:49 +0000
Subject: [PATCH 08/20] fix: resolve references inside definitions named like a
 keyword

---
 schemaPool.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schemaPool.go b/schemaPool.go
index f098506..8b6c1cc 100644
--- a/schemaPool.go
+++ b/schemaPool.go
@@ -122,7 +122,7 @@ func (p *schemaPool) parseReferencesRecursive(document interface{}, ref gojsonre
 			}
 			// Something like a property or a dependency is not a valid schema, as it might describe properties named "$ref", "$id" or "const", etc
 			// Therefore don't treat it like a schema.
-			if k == KEY_PROPERTIES || k == KEY_DEPENDENCIES || k == KEY_PATTERN_PROPERTIES {
+			if k == KEY_PROPERTIES || k == KEY_DEPENDENCIES || k == KEY_PATTERN_PROPERTIES || k == KEY_DEFINITIONS {
 				if child, ok := v.(map[string]interface{}); ok {
 					for _, v := range child {
 						p.parseReferencesRecursive(v, *localRef, draft)
-- 
2.43.0


From 8c42e5a7710d0da11431c9cd465f4defa21353d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:50 +0000
Subject: [PATCH 09/20] fix: a duplicate $id within a document must not be
 resolved by map iteration order

---
 schemaPool.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/schemaPool.go b/schemaPool.go
index 8b6c1cc..8a1dae0 100644
--- a/schemaPool.go
+++ b/schemaPool.go
@@ -30,6 +30,7 @@ import (
 	"errors"
 	"fmt"
 	"reflect"
+	"sort"
 
 	"github.com/xeipuuv/gojsonreference"
 )
@@ -115,7 +116,9 @@ func (p *schemaPool) parseReferencesRecursive(document interface{}, ref gojsonre
 			}
 		}
 
-		for k, v := range m {
+		// Visit the keys in a fixed order, so that it is always the same subschema that gets a duplicate $id
+		for _, k := range sortedKeys(m) {
+			v := m[k]
 			// const and enums should be interpreted literally, so ignore them
 			if k == KEY_CONST || k == KEY_ENUM {
 				continue
@@ -124,8 +127,8 @@ func (p *schemaPool) parseReferencesRecursive(document interface{}, ref gojsonre
 			// Therefore don't treat it like a schema.
 			if k == KEY_PROPERTIES || k == KEY_DEPENDENCIES || k == KEY_PATTERN_PROPERTIES || k == KEY_DEFINITIONS {
 				if child, ok := v.(map[string]interface{}); ok {
-					for _, v := range child {
-						p.parseReferencesRecursive(v, *localRef, draft)
+					for _, k := range sortedKeys(child) {
+						p.parseReferencesRecursive(child[k], *localRef, draft)
 					}
 				}
 			} else {
@@ -136,6 +139,15 @@ func (p *schemaPool) parseReferencesRecursive(document interface{}, ref gojsonre
 	return nil
 }
 
+func sortedKeys(m map[string]interface{}) []string {
+	keys := make([]string, 0, len(m))
+	for k := range m {
+		keys = append(keys, k)
+	}
+	sort.Strings(keys)
+	return keys
+}
+
 func (p *schemaPool) GetDocument(reference gojsonreference.JsonReference) (*schemaPoolDocument, error) {
 
 	var (
-- 
2.43.0


From 918e3d911fb5958d34dc8a393d95fae38ce0c533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:50 +0000
Subject: [PATCH 10/20] fix: a refused AddSchema must not leave its document in
 the pool

---
 schemaPool.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/schemaPool.go b/schemaPool.go
index 8a1dae0..7cc5066 100644
--- a/schemaPool.go
+++ b/schemaPool.go
@@ -67,7 +67,7 @@ func (p *schemaPool) parseReferences(document interface{}, ref gojsonreference.J
 
 	err = p.parseReferencesRecursive(document, ref, draft)
 
-	if pooled {
+	if pooled && err == nil {
 		p.schemaPoolDocuments[reference] = &schemaPoolDocument{Document: document, Draft: draft}
 	}
 
@@ -212,7 +212,9 @@ func (p *schemaPool) GetDocument(reference gojsonreference.JsonReference) (*sche
 	}
 
 	// add the whole document to the pool for potential re-use
-	p.parseReferences(document, refToURL, true)
+	if err = p.parseReferences(document, refToURL, true); err != nil {
+		p.schemaPoolDocuments[refToURL.String()] = &schemaPoolDocument{Document: document}
+	}
 
 	if *p.autoDetect {
 		_, draft, _ = parseSchemaURL(document)
-- 
2.43.0


From b37eaafa2e203f5515938f2711f553bc6c8bda0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:24 +0000
Subject: [PATCH 11/20] fix: do not rewrite the references in schema documents
 owned by the caller

---
 schemaLoader.go |  6 ++++++
 schemaPool.go   |  2 ++
 utils.go        | 22 ++++++++++++++++++++++
 3 files changed, 30 insertions(+)

diff --git a/schemaLoader.go b/schemaLoader.go
index a40cb77..164e210 100644
--- a/schemaLoader.go
+++ b/schemaLoader.go
@@ -105,6 +105,8 @@ func (sl *SchemaLoader) AddSchemas(loaders ...JSONLoader) error {
 			return err
 		}
 
+		doc = copyDocument(doc)
+
 		if sl.Validate {
 			if err := sl.validateMetaschema(doc); err != nil {
 				return err
@@ -136,6 +138,8 @@ func (sl *SchemaLoader) AddSchema(url string, loader JSONLoader) error {
 		return err
 	}
 
+	doc = copyDocument(doc)
+
 	if sl.Validate {
 		if err := sl.validateMetaschema(doc); err != nil {
 			return err
@@ -174,6 +178,8 @@ func (sl *SchemaLoader) Compile(rootSchema JSONLoader) (*Schema, error) {
 		if err != nil {
 			return nil, err
 		}
+		doc = copyDocument(doc)
+
 		// References need only be parsed if loading JSON directly
 		//  as pool.GetDocument already does this for us if loading by reference
 		err = sl.pool.parseReferences(doc, ref, true)
diff --git a/schemaPool.go b/schemaPool.go
index 7cc5066..bc83cf0 100644
--- a/schemaPool.go
+++ b/schemaPool.go
@@ -211,6 +211,8 @@ func (p *schemaPool) GetDocument(reference gojsonreference.JsonReference) (*sche
 		return nil, err
 	}
 
+	document = copyDocument(document)
+
 	// add the whole document to the pool for potential re-use
 	if err = p.parseReferences(document, refToURL, true); err != nil {
 		p.schemaPoolDocuments[refToURL.String()] = &schemaPoolDocument{Document: document}
diff --git a/utils.go b/utils.go
index a17d22e..84ae6e9 100644
--- a/utils.go
+++ b/utils.go
@@ -168,6 +168,28 @@ func mustBeNumber(what interface{}) *big.Rat {
 
 }
 
+// copyDocument creates a deep copy of a schema document, as the references in a document are
+// rewritten and the value a loader returns may still be in use by the caller.
+func copyDocument(val interface{}) interface{} {
+
+	switch v := val.(type) {
+	case []interface{}:
+		res := make([]interface{}, len(v))
+		for i := range v {
+			res[i] = copyDocument(v[i])
+		}
+		return res
+	case map[string]interface{}:
+		res := make(map[string]interface{}, len(v))
+		for k := range v {
+			res[k] = copyDocument(v[k])
+		}
+		return res
+	}
+
+	return val
+}
+
 func convertDocumentNode(val interface{}) interface{} {
 
 	if lval, ok := val.([]interface{}); ok {
-- 
2.43.0


From 2abbf8119f8a819cd09e443dd2f967a84f38c715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:25 +0000
Subject: [PATCH 12/20] fix: report boolean definitions as an error instead of
 panicking

---
 schema.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema.go b/schema.go
index 24b5ee5..5dda1b4 100644
--- a/schema.go
+++ b/schema.go
@@ -152,7 +152,7 @@ func (d *Schema) parseSchema(documentNode interface{}, currentSchema *subSchema)
 
 	// definitions
 	if existsMapKey(m, KEY_DEFINITIONS) {
-		if isKind(m[KEY_DEFINITIONS], reflect.Map, reflect.Bool) {
+		if isKind(m[KEY_DEFINITIONS], reflect.Map) {
 			for _, dv := range m[KEY_DEFINITIONS].(map[string]interface{}) {
 				if isKind(dv, reflect.Map, reflect.Bool) {
 
-- 
2.43.0


From 61716aa03c084ebef3da140925d92a52655e0dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:25 +0000
Subject: [PATCH 13/20] fix: do not panic on numbers with an extreme exponent

---
 utils.go      |  2 +-
 validation.go | 12 +++++++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/utils.go b/utils.go
index 84ae6e9..8ed8d16 100644
--- a/utils.go
+++ b/utils.go
@@ -35,7 +35,7 @@ func isKind(what interface{}, kinds ...reflect.Kind) bool {
 	target := what
 	if isJSONNumber(what) {
 		// JSON Numbers are strings!
-		target = *mustBeNumber(what)
+		target = big.Rat{}
 	}
 	targetKind := reflect.ValueOf(target).Kind()
 	for _, kind := range kinds {
diff --git a/validation.go b/validation.go
index 9081bd9..6e34e3b 100644
--- a/validation.go
+++ b/validation.go
@@ -774,7 +774,17 @@ func (v *subSchema) validateNumber(currentSubSchema *subSchema, value interface{
 	}
 
 	number := value.(json.Number)
-	float64Value, _ := new(big.Rat).SetString(string(number))
+	float64Value, ok := new(big.Rat).SetString(string(number))
+	if !ok {
+		// Numbers with an extreme exponent can't be represented, so they can't be compared to anything either
+		if currentSubSchema.multipleOf != nil ||
+			currentSubSchema.maximum != nil || currentSubSchema.exclusiveMaximum != nil ||
+			currentSubSchema.minimum != nil || currentSubSchema.exclusiveMinimum != nil {
+			result.addInternalError(new(InternalError), context, number, ErrorDetails{"error": "number out of range"})
+		}
+		result.incrementScore()
+		return
+	}
 
 	// multipleOf:
 	if currentSubSchema.multipleOf != nil {
-- 
2.43.0


From 008e032238b06024f5c1e703bef48fabe78852f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:26 +0000
Subject: [PATCH 14/20] fix: do not panic when a value can not be compared by
 const, enum or uniqueItems

---
 validation.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/validation.go b/validation.go
index 6e34e3b..74789d7 100644
--- a/validation.go
+++ b/validation.go
@@ -410,8 +410,7 @@ func (v *subSchema) validateCommon(currentSubSchema *subSchema, value interface{
 		vString, err := marshalWithoutNumber(value)
 		if err != nil {
 			result.addInternalError(new(InternalError), context, value, ErrorDetails{"error": err})
-		}
-		if *vString != *currentSubSchema._const {
+		} else if *vString != *currentSubSchema._const {
 			result.addInternalError(new(ConstError),
 				context,
 				value,
@@ -427,8 +426,7 @@ func (v *subSchema) validateCommon(currentSubSchema *subSchema, value interface{
 		vString, err := marshalWithoutNumber(value)
 		if err != nil {
 			result.addInternalError(new(InternalError), context, value, ErrorDetails{"error": err})
-		}
-		if !isStringInSlice(currentSubSchema.enum, *vString) {
+		} else if !isStringInSlice(currentSubSchema.enum, *vString) {
 			result.addInternalError(
 				new(EnumError),
 				context,
@@ -532,7 +530,8 @@ func (v *subSchema) validateArray(currentSubSchema *subSchema, value []interface
 		for j, v := range value {
 			vString, err := marshalWithoutNumber(v)
 			if err != nil {
-				result.addInternalError(new(InternalError), context, value, ErrorDetails{"err": err})
+				result.addInternalError(new(InternalError), context, value, ErrorDetails{"error": err})
+				continue
 			}
 			if i, ok := stringifiedItems[*vString]; ok {
 				result.addInternalError(
-- 
2.43.0


From 4f4b0d709445fba2a99119c4591cb5469b73b361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:27 +0000
Subject: [PATCH 15/20] fix: report $refs that lead back to themselves instead
 of recursing forever

---
 jsonContext.go | 15 ++++++++++++++-
 validation.go  | 11 ++++++++++-
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/jsonContext.go b/jsonContext.go
index 0e97970..5d3a4f7 100644
--- a/jsonContext.go
+++ b/jsonContext.go
@@ -30,11 +30,24 @@ import "bytes"
 type JsonContext struct {
 	head string
 	tail *JsonContext
+
+	// references that are currently being followed to validate the value at this context
+	refs []*subSchema
 }
 
 // NewJsonContext creates a new JsonContext
 func NewJsonContext(head string, tail *JsonContext) *JsonContext {
-	return &JsonContext{head, tail}
+	return &JsonContext{head: head, tail: tail}
+}
+
+// isFollowing returns whether ref is already being followed for the value at this context
+func (c *JsonContext) isFollowing(ref *subSchema) bool {
+	for _, r := range c.refs {
+		if r == ref {
+			return true
+		}
+	}
+	return false
 }
 
 // String displays the context in reverse.
diff --git a/validation.go b/validation.go
index 74789d7..e4444a4 100644
--- a/validation.go
+++ b/validation.go
@@ -90,7 +90,14 @@ func (v *subSchema) validateRecursive(currentSubSchema *subSchema, currentNode i
 
 	// Handle referenced schemas, returns directly when a $ref is found
 	if currentSubSchema.refSchema != nil {
+		// A reference that leads back to itself for the very same value would be followed forever
+		if context.isFollowing(currentSubSchema.refSchema) {
+			result.addInternalError(new(InternalError), context, currentNode, ErrorDetails{"error": "infinite recursion of $ref"})
+			return
+		}
+		context.refs = append(context.refs, currentSubSchema.refSchema)
 		v.validateRecursive(currentSubSchema.refSchema, currentNode, result, context)
+		context.refs = context.refs[:len(context.refs)-1]
 		return
 	}
 
@@ -662,7 +669,9 @@ func (v *subSchema) validateObject(currentSubSchema *subSchema, value map[string
 	// propertyNames:
 	if currentSubSchema.propertyNames != nil {
 		for pk := range value {
-			validationResult := currentSubSchema.propertyNames.subValidateWithContext(pk, context)
+			// The name is another value than the object, although it's reported at the same place
+			nameContext := NewJsonContext(context.head, context.tail)
+			validationResult := currentSubSchema.propertyNames.subValidateWithContext(pk, nameContext)
 			if !validationResult.Valid() {
 				result.addInternalError(new(InvalidPropertyNameError),
 					context,
-- 
2.43.0


From 60e9fe24b6f35b2b15f30b72dab96efd2b4bad10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:05 +0000
Subject: [PATCH 16/20] fix: the first reference into a document may be a
 location independent identifier

---
 schemaPool.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/schemaPool.go b/schemaPool.go
index bc83cf0..9ddf02d 100644
--- a/schemaPool.go
+++ b/schemaPool.go
@@ -218,6 +218,11 @@ func (p *schemaPool) GetDocument(reference gojsonreference.JsonReference) (*sche
 		p.schemaPoolDocuments[refToURL.String()] = &schemaPoolDocument{Document: document}
 	}
 
+	// the fragment might be a location independent identifier inside the document that was just added
+	if spd, ok = p.schemaPoolDocuments[reference.String()]; ok {
+		return spd, nil
+	}
+
 	if *p.autoDetect {
 		_, draft, _ = parseSchemaURL(document)
 	}
-- 
2.43.0


From e8326eb3a0c07b62a9173984e577de76943224ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:17 +0000
Subject: [PATCH 17/20] fix: do not panic on numbers in a type array

A number inside "type": [...] is a json.Number, whose kind is string, so it
passed the check and the following type assertion panicked.
---
 schema.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema.go b/schema.go
index 5dda1b4..e2ac9c0 100644
--- a/schema.go
+++ b/schema.go
@@ -260,7 +260,7 @@ func (d *Schema) parseSchema(documentNode interface{}, currentSchema *subSchema)
 			if isKind(m[KEY_TYPE], reflect.Slice) {
 				arrayOfTypes := m[KEY_TYPE].([]interface{})
 				for _, typeInArray := range arrayOfTypes {
-					if reflect.ValueOf(typeInArray).Kind() != reflect.String {
+					if !isKind(typeInArray, reflect.String) {
 						return errors.New(formatErrorDescription(
 							Locale.InvalidType(),
 							ErrorDetails{
-- 
2.43.0


From 6a5240d1eda23eead62baef19306a7b5f8f91b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:06 +0000
Subject: [PATCH 18/20] fix: parse subschemas in a fixed order, so that what
 references reach does not depend on map iteration order

---
 schema.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/schema.go b/schema.go
index e2ac9c0..d5b68b3 100644
--- a/schema.go
+++ b/schema.go
@@ -153,7 +153,9 @@ func (d *Schema) parseSchema(documentNode interface{}, currentSchema *subSchema)
 	// definitions
 	if existsMapKey(m, KEY_DEFINITIONS) {
 		if isKind(m[KEY_DEFINITIONS], reflect.Map) {
-			for _, dv := range m[KEY_DEFINITIONS].(map[string]interface{}) {
+			definitions := m[KEY_DEFINITIONS].(map[string]interface{})
+			for _, k := range sortedKeys(definitions) {
+				dv := definitions[k]
 				if isKind(dv, reflect.Map, reflect.Bool) {
 
 					newSchema := &subSchema{property: KEY_DEFINITIONS, parent: currentSchema}
@@ -322,7 +324,8 @@ func (d *Schema) parseSchema(documentNode interface{}, currentSchema *subSchema)
 			patternPropertiesMap := m[KEY_PATTERN_PROPERTIES].(map[string]interface{})
 			if len(patternPropertiesMap) > 0 {
 				currentSchema.patternProperties = make(map[string]*subSchema)
-				for k, v := range patternPropertiesMap {
+				for _, k := range sortedKeys(patternPropertiesMap) {
+					v := patternPropertiesMap[k]
 					_, err := regexp.MatchString(k, "")
 					if err != nil {
 						return errors.New(formatErrorDescription(
@@ -1018,7 +1021,8 @@ func (d *Schema) parseProperties(documentNode interface{}, currentSchema *subSch
 	}
 
 	m := documentNode.(map[string]interface{})
-	for k := range m {
+	// In a fixed order, as the documents loaded so far determine what the next reference reaches
+	for _, k := range sortedKeys(m) {
 		schemaProperty := k
 		newSchema := &subSchema{property: schemaProperty, parent: currentSchema, ref: currentSchema.ref}
 		currentSchema.propertiesChildren = append(currentSchema.propertiesChildren, newSchema)
@@ -1043,7 +1047,7 @@ func (d *Schema) parseDependencies(documentNode interface{}, currentSchema *subS
 	m := documentNode.(map[string]interface{})
 	currentSchema.dependencies = make(map[string]interface{})
 
-	for k := range m {
+	for _, k := range sortedKeys(m) {
 		switch reflect.ValueOf(m[k]).Kind() {
 
 		case reflect.Slice:
-- 
2.43.0


From 860f89000c8f22025ba23fc195b61d86c0d752cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:51 +0000
Subject: [PATCH 19/20] Restore go.mod: an earlier commit took along what go
 build -mod=mod had written to it

---
 go.mod | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/go.mod b/go.mod
index ebe83e7..b709d7f 100644
--- a/go.mod
+++ b/go.mod
@@ -1,15 +1,7 @@
 module github.com/xeipuuv/gojsonschema
 
-go 1.27.3
-
 require (
 	github.com/stretchr/testify v1.3.0
-	github.com/xeipuuv/gojsonreference v0.0.0-20180127040603-bd5ef7bd5415
-)
-
-require (
-	github.com/davecgh/go-spew v1.1.0 // indirect
-	github.com/pmezard/go-difflib v1.0.0 // indirect
-	github.com/stretchr/objx v0.1.0 // indirect
 	github.com/xeipuuv/gojsonpointer v0.0.0-20180127040702-4e3ac2762d5f // indirect
+	github.com/xeipuuv/gojsonreference v0.0.0-20180127040603-bd5ef7bd5415
 )
-- 
2.43.0


From 18b0b5ba9d41316be6ae5f4e3ead2fbfb0b8e93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:04 +0000
Subject: [PATCH 20/20] fix: a part of a document compiled as root is read
 under the draft its document declares

Compile looked for $schema in the part a fragment selects only, so that
NewReferenceLoader("doc.json#/definitions/x") was compiled under the loader's
draft although doc.json declares one.
---
 schemaLoader.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/schemaLoader.go b/schemaLoader.go
index 164e210..e61695c 100644
--- a/schemaLoader.go
+++ b/schemaLoader.go
@@ -165,6 +165,7 @@ func (sl *SchemaLoader) Compile(rootSchema JSONLoader) (*Schema, error) {
 	d.referencePool = newSchemaReferencePool()
 
 	var doc interface{}
+	var documentDraft *Draft
 	if ref.String() != "" {
 		// Get document from schema pool
 		spd, err := d.pool.GetDocument(d.documentReference)
@@ -172,6 +173,7 @@ func (sl *SchemaLoader) Compile(rootSchema JSONLoader) (*Schema, error) {
 			return nil, err
 		}
 		doc = spd.Document
+		documentDraft = spd.Draft
 	} else {
 		// Load JSON directly
 		doc, err = rootSchema.LoadJSON()
@@ -200,6 +202,10 @@ func (sl *SchemaLoader) Compile(rootSchema JSONLoader) (*Schema, error) {
 		if err != nil {
 			return nil, err
 		}
+		if detectedDraft == nil {
+			// A part of a document is read under the draft its document declares
+			detectedDraft = documentDraft
+		}
 		if detectedDraft != nil {
 			draft = *detectedDraft
 		}
-- 
2.43.0

