From c9bd3e168c233b73666638122ee31aed0eec1b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:46 +0000
Subject: [PATCH 01/34] fix: delete only the named field, not its top-level
 ancestor

Delete("a.b") removed the whole object "a".
---
 pkg/event/event.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/event/event.go b/pkg/event/event.go
index ffebbee..444b6f0 100644
--- a/pkg/event/event.go
+++ b/pkg/event/event.go
@@ -131,7 +131,11 @@ func (e *Event) delete(path []string) (deleted *Value) {
 
 	v := e.get(path)
 	if v != nil {
-		delete(e.fields, path[0])
+		m := e.fields
+		for _, key := range path[:len(path)-1] {
+			m = m[key].Object
+		}
+		delete(m, path[len(path)-1])
 	}
 
 	return v
-- 
2.43.0


From 57a1abe845f383648f8bad822abacd56b14d64a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:46 +0000
Subject: [PATCH 02/34] fix: do not panic on nil objects and nil values below
 the target key

Put("a.b", v) panicked if "a" was Object(nil) or a nil value, and
Get("a.b") panicked if "a" was a nil value, which is what decoding the
JSON document {"a":null} produced.
---
 pkg/event/event.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/event/event.go b/pkg/event/event.go
index 444b6f0..39d93c7 100644
--- a/pkg/event/event.go
+++ b/pkg/event/event.go
@@ -77,10 +77,13 @@ func (e *Event) put(path []string, val *Value, overwrite bool) (old *Value, err
 	m := e.fields
 	for _, key := range path[:len(path)-1] {
 		inner, found := m[key]
-		if found {
+		if found && inner != nil {
 			if inner.Type != ObjectType {
 				return nil, fmt.Errorf("event put failed for path <%s>: %w", pathString(path), ErrTargetKeyNotObject)
 			}
+			if inner.Object == nil {
+				inner.Object = map[string]*Value{}
+			}
 			m = inner.Object
 			continue
 		}
@@ -110,7 +113,7 @@ func (e *Event) get(path []string) *Value {
 	m := e.fields
 	for _, key := range path[:len(path)-1] {
 		inner, found := m[key]
-		if !found || len(inner.Object) == 0 {
+		if !found || inner == nil || len(inner.Object) == 0 {
 			return nil
 		}
 		m = inner.Object
-- 
2.43.0


From c7cfda4e0fb1afebc7bf9e2db8318929cc87003c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:46 +0000
Subject: [PATCH 03/34] fix: decode JSON null as a null value instead of a nil
 pointer

A field holding null could not be deleted, was overwritten by TryPut and
made the protobuf encoder and decoder panic. The processors keep treating
a null field like a missing one, as ignore_missing documents.
---
 pkg/event/event.go                 |  5 +++++
 pkg/event/value.go                 | 10 ++++++++++
 pkg/processor/append/process.go    |  2 +-
 pkg/processor/lowercase/process.go |  2 +-
 pkg/processor/set/process.go       |  2 +-
 pkg/processor/uppercase/process.go |  2 +-
 6 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/pkg/event/event.go b/pkg/event/event.go
index 39d93c7..a645541 100644
--- a/pkg/event/event.go
+++ b/pkg/event/event.go
@@ -153,6 +153,11 @@ func (e *Event) UnmarshalJSON(data []byte) error {
 	if err := json.Unmarshal(data, &fields); err != nil {
 		return err
 	}
+	for key, value := range fields {
+		if value == nil {
+			fields[key] = NullValue
+		}
+	}
 	e.fields = fields
 	return nil
 }
diff --git a/pkg/event/value.go b/pkg/event/value.go
index fd695a8..cbe43c7 100644
--- a/pkg/event/value.go
+++ b/pkg/event/value.go
@@ -121,11 +121,21 @@ func (v *Value) UnmarshalJSON(data []byte) error {
 		if err = json.Unmarshal(data, &v.Array); err != nil {
 			return err
 		}
+		for i, elem := range v.Array {
+			if elem == nil {
+				v.Array[i] = NullValue
+			}
+		}
 		v.Type = ArrayType
 	case json.Delim('{'):
 		if err = json.Unmarshal(data, &v.Object); err != nil {
 			return err
 		}
+		for key, elem := range v.Object {
+			if elem == nil {
+				v.Object[key] = NullValue
+			}
+		}
 		v.Type = ObjectType
 	default:
 		var value interface{}
diff --git a/pkg/processor/append/process.go b/pkg/processor/append/process.go
index 6186b54..c868ffc 100644
--- a/pkg/processor/append/process.go
+++ b/pkg/processor/append/process.go
@@ -26,7 +26,7 @@ import (
 
 func (p *Append) Process(evt processor.Event) error {
 	v := evt.Get(p.config.Field)
-	if v == nil {
+	if v == nil || v.Type == event.NullType {
 		v = event.Array()
 		evt.Put(p.config.Field, v)
 	} else if v.Type == event.StringType {
diff --git a/pkg/processor/lowercase/process.go b/pkg/processor/lowercase/process.go
index 2281c89..96bd8ee 100644
--- a/pkg/processor/lowercase/process.go
+++ b/pkg/processor/lowercase/process.go
@@ -27,7 +27,7 @@ import (
 
 func (p *Lowercase) Process(evt processor.Event) error {
 	v := evt.Get(p.config.Field)
-	if v == nil {
+	if v == nil || v.Type == event.NullType {
 		return processor.ErrorKeyMissing{Key: p.config.Field}
 	}
 
diff --git a/pkg/processor/set/process.go b/pkg/processor/set/process.go
index 8275dc9..5ca467a 100644
--- a/pkg/processor/set/process.go
+++ b/pkg/processor/set/process.go
@@ -28,7 +28,7 @@ func (p *Set) Process(evt processor.Event) error {
 		v = (*event.Value)(&p.config.Value)
 	} else if p.config.CopyFrom != "" {
 		v = evt.Get(p.config.CopyFrom)
-		if v == nil {
+		if v == nil || v.Type == event.NullType {
 			return processor.ErrorKeyMissing{Key: p.config.CopyFrom}
 		}
 	}
diff --git a/pkg/processor/uppercase/process.go b/pkg/processor/uppercase/process.go
index 49e87f4..948a70c 100644
--- a/pkg/processor/uppercase/process.go
+++ b/pkg/processor/uppercase/process.go
@@ -27,7 +27,7 @@ import (
 
 func (p *Uppercase) Process(evt processor.Event) error {
 	v := evt.Get(p.config.Field)
-	if v == nil {
+	if v == nil || v.Type == event.NullType {
 		return processor.ErrorKeyMissing{Key: p.config.Field}
 	}
 
-- 
2.43.0


From a4271c9f2f8440b5ad99bc8800f4c742c70ee443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:46 +0000
Subject: [PATCH 04/34] fix: decode JSON integers exactly

Every JSON number was decoded to a float64, so an integer beyond 2^53 such
as 9007199254740993 came out changed.
---
 pkg/event/value.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/pkg/event/value.go b/pkg/event/value.go
index cbe43c7..2497e93 100644
--- a/pkg/event/value.go
+++ b/pkg/event/value.go
@@ -21,6 +21,7 @@ import (
 	"bytes"
 	"encoding/json"
 	"fmt"
+	"strconv"
 )
 
 var NullValue = &Value{Type: NullType}
@@ -111,6 +112,7 @@ func (v *Value) MarshalJSON() ([]byte, error) {
 
 func (v *Value) UnmarshalJSON(data []byte) error {
 	dec := json.NewDecoder(bytes.NewReader(data))
+	dec.UseNumber()
 	tok, err := dec.Token()
 	if err != nil {
 		return err
@@ -143,6 +145,20 @@ func (v *Value) UnmarshalJSON(data []byte) error {
 			return err
 		}
 
+		// Keep integers exact instead of rounding them to a float64.
+		if num, ok := tok.(json.Number); ok {
+			if i, err := strconv.ParseInt(num.String(), 10, 64); err == nil {
+				v.Type = IntegerType
+				v.Integer = i
+				return nil
+			}
+			if u, err := strconv.ParseUint(num.String(), 10, 64); err == nil {
+				v.Type = UnsignedIntegerType
+				v.UnsignedInteger = u
+				return nil
+			}
+		}
+
 		switch x := value.(type) {
 		case string:
 			v.Type = StringType
-- 
2.43.0


From 685fc79485060ab846044eef398537b0908ad261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:46 +0000
Subject: [PATCH 05/34] fix: encode empty arrays, objects and events as empty,
 not as null

Array(), Object(nil) and New() were encoded as null and did not decode to
what was encoded.
---
 pkg/event/event.go | 3 +++
 pkg/event/value.go | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/pkg/event/event.go b/pkg/event/event.go
index a645541..66aac9e 100644
--- a/pkg/event/event.go
+++ b/pkg/event/event.go
@@ -145,6 +145,9 @@ func (e *Event) delete(path []string) (deleted *Value) {
 }
 
 func (e *Event) MarshalJSON() ([]byte, error) {
+	if e.fields == nil {
+		return []byte("{}"), nil
+	}
 	return json.Marshal(e.fields)
 }
 
diff --git a/pkg/event/value.go b/pkg/event/value.go
index 2497e93..dd9a410 100644
--- a/pkg/event/value.go
+++ b/pkg/event/value.go
@@ -75,6 +75,9 @@ type Value struct {
 func (v *Value) value() interface{} {
 	switch v.Type {
 	case ArrayType:
+		if v.Array == nil {
+			return []*Value{}
+		}
 		return v.Array
 	case BoolType:
 		return v.Bool
@@ -83,6 +86,9 @@ func (v *Value) value() interface{} {
 	case IntegerType:
 		return v.Integer
 	case ObjectType:
+		if v.Object == nil {
+			return map[string]*Value{}
+		}
 		return v.Object
 	case StringType:
 		return v.String
-- 
2.43.0


From 09669dd8d4d470bca66d49f06421fa8bb8adb6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:25 +0000
Subject: [PATCH 06/34] fix: count a recovered failure as sent, not as an error

The error counter is documented as not including recovered errors.
---
 pkg/pipeline/processor.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/pipeline/processor.go b/pkg/pipeline/processor.go
index 31c601f..c42af93 100644
--- a/pkg/pipeline/processor.go
+++ b/pkg/pipeline/processor.go
@@ -68,6 +68,11 @@ func (p *pipelineProcessor) Process(event *pipelineEvent) error {
 					break
 				}
 			}
+			if err == nil {
+				// Recovered from the error.
+				p.metricEventsOutTotal.Inc()
+				return nil
+			}
 		}
 
 		// Ignore Failure
-- 
2.43.0


From 7e10ce8334b6ec7a63531096d69c7dc5e657169d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:25 +0000
Subject: [PATCH 07/34] fix: expose the metrics of the pipeline's on_failure
 processors

---
 pkg/pipeline/pipeline.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/pipeline/pipeline.go b/pkg/pipeline/pipeline.go
index 32b138a..f75717c 100644
--- a/pkg/pipeline/pipeline.go
+++ b/pkg/pipeline/pipeline.go
@@ -124,6 +124,9 @@ func (pipe *Pipeline) visitProcessors(visit func(processor *pipelineProcessor))
 	for _, proc := range pipe.processors {
 		visitProcessor(visit, proc)
 	}
+	for _, proc := range pipe.onFailure {
+		visitProcessor(visit, proc)
+	}
 }
 
 func visitProcessor(visit func(processor *pipelineProcessor), proc *pipelineProcessor) {
-- 
2.43.0


From 1d7f2a68baea6f1272329b61730838893ed12185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:25 +0000
Subject: [PATCH 08/34] fix: stop processing when a processor drops or cancels
 the event

Drop had a value receiver and so did nothing, and neither flag was ever
looked at after a processor returned without an error.
---
 pkg/pipeline/event.go     |  7 ++++++-
 pkg/pipeline/pipeline.go  |  6 ++++++
 pkg/pipeline/processor.go | 12 ++++++++++++
 3 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/pkg/pipeline/event.go b/pkg/pipeline/event.go
index 0a7c740..911915d 100644
--- a/pkg/pipeline/event.go
+++ b/pkg/pipeline/event.go
@@ -52,6 +52,11 @@ func (e *pipelineEvent) Cancel() {
 	e.cancelled = true
 }
 
-func (e pipelineEvent) Drop() {
+func (e *pipelineEvent) Drop() {
 	e.dropped = true
 }
+
+// done reports whether no further processing must happen for this event.
+func (e *pipelineEvent) done() bool {
+	return e.cancelled || e.dropped
+}
diff --git a/pkg/pipeline/pipeline.go b/pkg/pipeline/pipeline.go
index f75717c..b2d6d1e 100644
--- a/pkg/pipeline/pipeline.go
+++ b/pkg/pipeline/pipeline.go
@@ -85,6 +85,9 @@ func (pipe *Pipeline) process(evt *pipelineEvent) error {
 			// Go to global on_failure handler.
 			break
 		}
+		if evt.done() {
+			return nil
+		}
 	}
 
 	if err != nil && len(pipe.onFailure) > 0 {
@@ -93,6 +96,9 @@ func (pipe *Pipeline) process(evt *pipelineEvent) error {
 				// Failure in global on_failure.
 				return err
 			}
+			if evt.done() {
+				return nil
+			}
 		}
 	}
 
diff --git a/pkg/pipeline/processor.go b/pkg/pipeline/processor.go
index c42af93..6b2c214 100644
--- a/pkg/pipeline/processor.go
+++ b/pkg/pipeline/processor.go
@@ -67,6 +67,13 @@ func (p *pipelineProcessor) Process(event *pipelineEvent) error {
 				if err = proc.Process(event); err != nil {
 					break
 				}
+				if event.done() {
+					break
+				}
+			}
+			if event.dropped {
+				p.metricDiscardedEventsTotal.Inc()
+				return nil
 			}
 			if err == nil {
 				// Recovered from the error.
@@ -86,6 +93,11 @@ func (p *pipelineProcessor) Process(event *pipelineEvent) error {
 		return err
 	}
 
+	if event.dropped {
+		p.metricDiscardedEventsTotal.Inc()
+		return nil
+	}
+
 	p.metricEventsOutTotal.Inc()
 	return nil
 }
-- 
2.43.0


From a5f448a215f5e55024d243cb97bd0e38e008129c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:25 +0000
Subject: [PATCH 09/34] fix: report an error for a nil pipeline config, a nil
 event and a bad Config method

Each of them panicked; a pipeline file or event holding just null is enough
to reach the first two.
---
 pkg/pipeline/pipeline.go  | 6 +++++-
 pkg/pipeline/processor.go | 6 ++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/pkg/pipeline/pipeline.go b/pkg/pipeline/pipeline.go
index b2d6d1e..f62e2d9 100644
--- a/pkg/pipeline/pipeline.go
+++ b/pkg/pipeline/pipeline.go
@@ -32,7 +32,7 @@ type Pipeline struct {
 }
 
 func New(config *Config) (*Pipeline, error) {
-	if config.ID == "" {
+	if config == nil || config.ID == "" {
 		return nil, errors.New("pipeline must have a non-empty id")
 	}
 
@@ -61,6 +61,10 @@ func New(config *Config) (*Pipeline, error) {
 //	Processing error - Empty slice and non-nil error.
 //	Event split - Slice length is greater than 1 and non-nil error.
 func (pipe *Pipeline) Process(evt *event.Event) (*event.Event, error) {
+	if evt == nil {
+		return nil, errors.New("event must not be nil")
+	}
+
 	pipeEvt := &pipelineEvent{data: evt}
 
 	if err := pipe.process(pipeEvt); err != nil {
diff --git a/pkg/pipeline/processor.go b/pkg/pipeline/processor.go
index 6b2c214..d033d4d 100644
--- a/pkg/pipeline/processor.go
+++ b/pkg/pipeline/processor.go
@@ -199,10 +199,16 @@ func ignores(proc interface{}) (ignoreMissing, ignoreFailure *bool, err error) {
 		return nil, nil, fmt.Errorf("error Config() method not found")
 	}
 
+	if m.Type().NumIn() != 0 {
+		return nil, nil, fmt.Errorf("error Config() must not accept arguments")
+	}
 	if m.Type().NumOut() != 1 {
 		return nil, nil, fmt.Errorf("error Config() must return one value")
 	}
 	out := m.Call(nil)[0]
+	if out.Kind() != reflect.Struct {
+		return nil, nil, fmt.Errorf("error Config() must return a struct")
+	}
 
 	if v := out.FieldByName("IgnoreMissing"); v != zeroValue && v.Kind() == reflect.Bool {
 		boolValue := v.Bool()
-- 
2.43.0


From 0592041692a38e979a09a70c0eefed4c8af218c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:58 +0000
Subject: [PATCH 10/34] fix: make the set processor store a copy of the value

It stored the configured value (or the copy_from field) itself, so changing
the target changed the configuration and with it all later events, and
copying an object to a field below itself made an infinitely deep event.
---
 pkg/event/value.go           | 22 ++++++++++++++++++++++
 pkg/processor/set/process.go |  2 +-
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/pkg/event/value.go b/pkg/event/value.go
index dd9a410..09d69ae 100644
--- a/pkg/event/value.go
+++ b/pkg/event/value.go
@@ -110,6 +110,28 @@ func (v *Value) Format(f fmt.State, verb rune) {
 	fmt.Fprintf(f, "%v", v.value())
 }
 
+// Clone returns a deep copy of the value.
+func (v *Value) Clone() *Value {
+	if v == nil {
+		return nil
+	}
+
+	clone := *v
+	if v.Array != nil {
+		clone.Array = make([]*Value, 0, len(v.Array))
+		for _, elem := range v.Array {
+			clone.Array = append(clone.Array, elem.Clone())
+		}
+	}
+	if v.Object != nil {
+		clone.Object = make(map[string]*Value, len(v.Object))
+		for key, elem := range v.Object {
+			clone.Object[key] = elem.Clone()
+		}
+	}
+	return &clone
+}
+
 func (v *Value) MarshalJSON() ([]byte, error) {
 	// TODO: Replace this with an optimized version. There are a finite
 	// set of types so we can optimize this to avoid reflection.
diff --git a/pkg/processor/set/process.go b/pkg/processor/set/process.go
index 5ca467a..d9fc2bf 100644
--- a/pkg/processor/set/process.go
+++ b/pkg/processor/set/process.go
@@ -33,6 +33,6 @@ func (p *Set) Process(evt processor.Event) error {
 		}
 	}
 
-	_, err := evt.Put(p.config.TargetField, v)
+	_, err := evt.Put(p.config.TargetField, v.Clone())
 	return err
 }
-- 
2.43.0


From 19175f0714304385bae87de3e92cf445385325ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:58 +0000
Subject: [PATCH 11/34] fix: make the append processor do what it documents

Appending to a string was silently lost, other scalars were refused instead
of converted, a field that could not be created went unreported, and
allow_duplicates was ignored.
---
 pkg/processor/append/process.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/pkg/processor/append/process.go b/pkg/processor/append/process.go
index c868ffc..dffb2bf 100644
--- a/pkg/processor/append/process.go
+++ b/pkg/processor/append/process.go
@@ -28,13 +28,24 @@ func (p *Append) Process(evt processor.Event) error {
 	v := evt.Get(p.config.Field)
 	if v == nil || v.Type == event.NullType {
 		v = event.Array()
-		evt.Put(p.config.Field, v)
-	} else if v.Type == event.StringType {
-		v = event.Array(v)
-	} else if v.Type != event.ArrayType {
+	} else if v.Type == event.ObjectType {
 		return errors.New("value to append to is not array")
+	} else if v.Type != event.ArrayType {
+		v = event.Array(v)
 	}
 
-	v.Array = append(v.Array, event.String(p.config.Value))
-	return nil
+	if !p.config.AllowDuplicates {
+		for _, elem := range v.Array {
+			if elem != nil && elem.Type == event.StringType && elem.String == p.config.Value {
+				return nil
+			}
+		}
+	}
+
+	items := make([]*event.Value, 0, len(v.Array)+1)
+	items = append(items, v.Array...)
+	items = append(items, event.String(p.config.Value))
+
+	_, err := evt.Put(p.config.Field, event.Array(items...))
+	return err
 }
-- 
2.43.0


From 83896dbb4f89338abf429f2ed37775acc58932d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:58 +0000
Subject: [PATCH 12/34] fix: make the remove processor remove its fields

It reported success and left the event as it was.
---
 pkg/processor/remove/process.go | 31 +++++++++++++++++++++++++++++++
 pkg/processor/remove/remove.go  |  5 -----
 2 files changed, 31 insertions(+), 5 deletions(-)
 create mode 100644 pkg/processor/remove/process.go

diff --git a/pkg/processor/remove/process.go b/pkg/processor/remove/process.go
new file mode 100644
index 0000000..f13a313
--- /dev/null
+++ b/pkg/processor/remove/process.go
@@ -0,0 +1,31 @@
+// Licensed to Elasticsearch B.V. under one or more contributor
+// license agreements. See the NOTICE file distributed with
+// this work for additional information regarding copyright
+// ownership. Elasticsearch B.V. licenses this file to you under
+// the Apache License, Version 2.0 (the "License"); you may
+// not use this file except in compliance with the License.
+// You may obtain a copy of the License at
+//
+//     http://www.apache.org/licenses/LICENSE-2.0
+//
+// Unless required by applicable law or agreed to in writing,
+// software distributed under the License is distributed on an
+// "AS IS" BASIS, WITHOUT WARRANTIES OR CONDITIONS OF ANY
+// KIND, either express or implied.  See the License for the
+// specific language governing permissions and limitations
+// under the License.
+
+package remove
+
+import (
+	"github.com/andrewkroh/go-sawmill/pkg/processor"
+)
+
+func (p *Remove) Process(evt processor.Event) error {
+	for _, field := range p.config.Fields {
+		if evt.Delete(field) == nil && !p.config.IgnoreMissing {
+			return processor.ErrorKeyMissing{Key: field}
+		}
+	}
+	return nil
+}
diff --git a/pkg/processor/remove/remove.go b/pkg/processor/remove/remove.go
index 4d3965d..2b88a7a 100644
--- a/pkg/processor/remove/remove.go
+++ b/pkg/processor/remove/remove.go
@@ -65,8 +65,3 @@ func (p *Remove) Config() Config {
 func (p *Remove) String() string {
 	return processor.ConfigString(processorName, p.config)
 }
-
-func (p *Remove) Process(event processor.Event) error {
-	// TODO: Implement this in process.go.
-	return nil
-}
-- 
2.43.0


From 1d60bf16f6790a6ebc013f0b7e901d3d497e1c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:58 +0000
Subject: [PATCH 13/34] fix: do not put escape characters into nested field
 names

The names in a nested object are not keys, so a nested field "a.b" became
"a\\.b" when converted from a map or from protobuf.
---
 pkg/eventutil/reflect.go               | 2 +-
 pkg/serialization/protobuf/protobuf.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/eventutil/reflect.go b/pkg/eventutil/reflect.go
index b0b6d5b..274f5d2 100644
--- a/pkg/eventutil/reflect.go
+++ b/pkg/eventutil/reflect.go
@@ -87,7 +87,7 @@ func interfaceToValue(ifc interface{}) (*event.Value, error) {
 				return nil, fmt.Errorf("failed on key %q: %w", k, err)
 			}
 
-			obj[EscapeKey(k)] = v
+			obj[k] = v
 		}
 		return event.Object(obj), nil
 	case nil:
diff --git a/pkg/serialization/protobuf/protobuf.go b/pkg/serialization/protobuf/protobuf.go
index e41c310..fac93c9 100644
--- a/pkg/serialization/protobuf/protobuf.go
+++ b/pkg/serialization/protobuf/protobuf.go
@@ -158,7 +158,7 @@ func toEventValue(v *Value) *event.Value {
 	case *Value_Object:
 		fields := make(map[string]*event.Value, len(t.Object.Fields))
 		for k, v := range t.Object.Fields {
-			fields[eventutil.EscapeKey(k)] = toEventValue(v)
+			fields[k] = toEventValue(v)
 		}
 		return event.Object(fields)
 	case *Value_String_:
-- 
2.43.0


From 578a52a92365d0b970671b5a38983e7d2ad0ed28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:58 +0000
Subject: [PATCH 14/34] fix: convert interface, nil error and uintptr struct
 fields

A struct field of interface type was refused as unsupported, a nil error
field or a nil pointer to an error or to a Stringer panicked, and a uintptr
field was refused although a plain uintptr is converted.
---
 pkg/eventutil/reflect.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pkg/eventutil/reflect.go b/pkg/eventutil/reflect.go
index 274f5d2..f3565f1 100644
--- a/pkg/eventutil/reflect.go
+++ b/pkg/eventutil/reflect.go
@@ -100,6 +100,13 @@ func interfaceToValue(ifc interface{}) (*event.Value, error) {
 func reflectToValue(rv reflect.Value) (*event.Value, error) {
 	typ := rv.Type()
 
+	switch typ.Kind() {
+	case reflect.Interface, reflect.Ptr:
+		if rv.IsNil() {
+			return event.NullValue, nil
+		}
+	}
+
 	switch {
 	case typ.Implements(errorInterface):
 		err := rv.Interface().(error)
@@ -112,11 +119,13 @@ func reflectToValue(rv reflect.Value) (*event.Value, error) {
 			return event.NullValue, nil
 		}
 		return reflectToValue(rv.Elem())
+	case reflect.Interface:
+		return interfaceToValue(rv.Elem().Interface())
 	case reflect.Bool:
 		return event.Bool(rv.Bool()), nil
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
 		return event.Integer(rv.Int()), nil
-	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
 		return event.UnsignedInteger(rv.Uint()), nil
 	case reflect.Float32, reflect.Float64:
 		return event.Float(rv.Float()), nil
@@ -198,7 +207,7 @@ func reflectStructToObject(rv reflect.Value) (*event.Value, error) {
 			return nil, err
 		}
 
-		if tagOpts.Has("string") {
+		if tagOpts.Has("string") && finalVal.Type != event.NullType {
 			s, ok := val.Interface().(fmt.Stringer)
 			if ok {
 				obj[name] = event.String(s.String())
-- 
2.43.0


From 057fc2abf5ce82c2b56349901a3c54d690965609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:35 +0000
Subject: [PATCH 15/34] fix: report a map key that cannot be a field name

ToEvent silently left out such a field (the empty name).
---
 pkg/serialization/mapinterface/mapinterface.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/serialization/mapinterface/mapinterface.go b/pkg/serialization/mapinterface/mapinterface.go
index 99c769e..452ace6 100644
--- a/pkg/serialization/mapinterface/mapinterface.go
+++ b/pkg/serialization/mapinterface/mapinterface.go
@@ -46,7 +46,9 @@ func ToEvent(m map[string]interface{}) (*event.Event, error) {
 
 	evt := event.New()
 	for k, v := range fields.Object {
-		evt.Put(eventutil.EscapeKey(k), v)
+		if _, err = evt.Put(eventutil.EscapeKey(k), v); err != nil {
+			return nil, err
+		}
 	}
 
 	return evt, nil
-- 
2.43.0


From 40e2a730977f0ad6d138ac95fa9915b1662d0381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:35 +0000
Subject: [PATCH 16/34] fix: keep an empty event in its protobuf message

The message had no object, so an empty event was decoded as a nil event.
---
 pkg/serialization/protobuf/protobuf.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/serialization/protobuf/protobuf.go b/pkg/serialization/protobuf/protobuf.go
index fac93c9..86aaee4 100644
--- a/pkg/serialization/protobuf/protobuf.go
+++ b/pkg/serialization/protobuf/protobuf.go
@@ -27,10 +27,15 @@ import (
 // FromEvent returns a protocol buffer message containing the log
 // event.
 func FromEvent(evt *event.Event) *MessageWrapper {
+	object := fromEventValueObject(evt.Get("."))
+	if object == nil {
+		object = &ValueObject{}
+	}
+
 	return &MessageWrapper{
 		Message: &MessageWrapper_Log{
 			Log: &Log{
-				Object: fromEventValueObject(evt.Get(".")),
+				Object: object,
 			},
 		},
 	}
-- 
2.43.0


From 2db605c37fd830c1cbaf3a5aa8dc357073106965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:35 +0000
Subject: [PATCH 17/34] fix: do not panic on a protobuf value of no kind

Such a value is valid on the wire, and a nil event value was encoded as one
or made the encoder panic.
---
 pkg/serialization/protobuf/protobuf.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/serialization/protobuf/protobuf.go b/pkg/serialization/protobuf/protobuf.go
index 86aaee4..f1d97ef 100644
--- a/pkg/serialization/protobuf/protobuf.go
+++ b/pkg/serialization/protobuf/protobuf.go
@@ -43,7 +43,7 @@ func FromEvent(evt *event.Event) *MessageWrapper {
 
 func fromEventValue(v *event.Value) *Value {
 	if v == nil {
-		return nil
+		v = event.NullValue
 	}
 
 	switch v.Type {
@@ -146,7 +146,7 @@ func ToLogEvent(l *Log) *event.Event {
 
 func toEventValue(v *Value) *event.Value {
 	switch t := v.GetKind().(type) {
-	case *Value_Null:
+	case *Value_Null, nil:
 		return event.NullValue
 	case *Value_Array:
 		items := make([]*event.Value, 0, len(t.Array.Items))
-- 
2.43.0


From 646d8d461fbae7fae6fd8f4bccfa6667caffc820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:35 +0000
Subject: [PATCH 18/34] fix: keep every top-level field name when decoding
 protobuf

An empty name was left out and backslashes were removed from a name.
---
 pkg/event/event.go                     | 6 ++++++
 pkg/serialization/protobuf/protobuf.go | 7 +++----
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/pkg/event/event.go b/pkg/event/event.go
index 66aac9e..bee4b04 100644
--- a/pkg/event/event.go
+++ b/pkg/event/event.go
@@ -39,6 +39,12 @@ func New() *Event {
 	return &Event{}
 }
 
+// FromObject returns a new Event with the given fields. The names are used as
+// they are, they are not keys.
+func FromObject(fields map[string]*Value) *Event {
+	return &Event{fields: fields}
+}
+
 func (e *Event) init() {
 	e.fields = map[string]*Value{}
 }
diff --git a/pkg/serialization/protobuf/protobuf.go b/pkg/serialization/protobuf/protobuf.go
index f1d97ef..94d0455 100644
--- a/pkg/serialization/protobuf/protobuf.go
+++ b/pkg/serialization/protobuf/protobuf.go
@@ -21,7 +21,6 @@ import (
 	"fmt"
 
 	"github.com/andrewkroh/go-sawmill/pkg/event"
-	"github.com/andrewkroh/go-sawmill/pkg/eventutil"
 )
 
 // FromEvent returns a protocol buffer message containing the log
@@ -137,11 +136,11 @@ func ToLogEvent(l *Log) *event.Event {
 		return nil
 	}
 
-	evt := event.New()
+	fields := make(map[string]*event.Value, len(l.Object.Fields))
 	for k, v := range l.Object.Fields {
-		evt.Put(eventutil.EscapeKey(k), toEventValue(v))
+		fields[k] = toEventValue(v)
 	}
-	return evt
+	return event.FromObject(fields)
 }
 
 func toEventValue(v *Value) *event.Value {
-- 
2.43.0


From eeaa1e74734a013898536497e2e7a0ed23b63342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:35 +0000
Subject: [PATCH 19/34] fix: write nothing for an event dropped by the pipeline

The tool wrote a null line.
---
 cmd/sawmill/sawmill.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmd/sawmill/sawmill.go b/cmd/sawmill/sawmill.go
index 11a8742..dc535f6 100644
--- a/cmd/sawmill/sawmill.go
+++ b/cmd/sawmill/sawmill.go
@@ -143,6 +143,11 @@ func processInput(in io.Reader, out io.Writer, pipe *pipeline.Pipeline) error {
 			continue
 		}
 
+		if evt == nil {
+			// Dropped by the pipeline.
+			continue
+		}
+
 		if err := enc.Encode(evt); err != nil {
 			log.Printf("Unexpected error marshaling event from line %d to JSON: %v", lineNumber, err)
 			continue
-- 
2.43.0


From 72183784a7c7d20a6dc24de40819544f7ae8f63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:35 +0000
Subject: [PATCH 20/34] fix: report a docs template failure

The error was dropped and an incomplete README written.
---
 docs/generate/generate.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/docs/generate/generate.go b/docs/generate/generate.go
index d2111a6..821c0e2 100644
--- a/docs/generate/generate.go
+++ b/docs/generate/generate.go
@@ -88,7 +88,7 @@ func main() {
 
 	// Render template.
 	buf := new(bytes.Buffer)
-	if templates.ExecuteTemplate(buf, "README.md.gotmpl", templateData); err != nil {
+	if err = templates.ExecuteTemplate(buf, "README.md.gotmpl", templateData); err != nil {
 		log.Fatal(err)
 	}
 
-- 
2.43.0


From 6a03418bf18ca1f2e68586ad763f65bcb3ecb3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:35 +0000
Subject: [PATCH 21/34] fix: decode integers in JSON pipeline definitions
 exactly

Option values beyond 2^53 were rounded, unlike in YAML definitions.
---
 pkg/pipeline/config.go | 36 +++++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/pkg/pipeline/config.go b/pkg/pipeline/config.go
index daa5fe2..2f8523e 100644
--- a/pkg/pipeline/config.go
+++ b/pkg/pipeline/config.go
@@ -18,8 +18,10 @@
 package pipeline
 
 import (
+	"bytes"
 	"encoding/json"
 	"errors"
+	"strconv"
 )
 
 type Config struct {
@@ -71,6 +73,13 @@ func (c *ProcessorOptionConfig) UnmarshalJSON(data []byte) error {
 	if err := json.Unmarshal(data, &raw); err != nil {
 		return err
 	}
+
+	// Decode again to keep integers exact.
+	dec := json.NewDecoder(bytes.NewReader(data))
+	dec.UseNumber()
+	if err := dec.Decode(&raw); err != nil {
+		return err
+	}
 	delete(raw, "id")
 	delete(raw, "if")
 	delete(raw, "on_failure")
@@ -79,11 +88,36 @@ func (c *ProcessorOptionConfig) UnmarshalJSON(data []byte) error {
 		c.Config = make(map[string]interface{}, len(raw))
 	}
 	for k, v := range raw {
-		c.Config[k] = v
+		c.Config[k] = convertNumbers(v)
 	}
 	return nil
 }
 
+// convertNumbers replaces each json.Number by an int64 or uint64 if it is an
+// integer in range, and by a float64 otherwise.
+func convertNumbers(v interface{}) interface{} {
+	switch v := v.(type) {
+	case json.Number:
+		if i, err := strconv.ParseInt(v.String(), 10, 64); err == nil {
+			return i
+		}
+		if u, err := strconv.ParseUint(v.String(), 10, 64); err == nil {
+			return u
+		}
+		f, _ := v.Float64()
+		return f
+	case []interface{}:
+		for i := range v {
+			v[i] = convertNumbers(v[i])
+		}
+	case map[string]interface{}:
+		for k := range v {
+			v[k] = convertNumbers(v[k])
+		}
+	}
+	return v
+}
+
 // MarshalJSON contains a workaround for the lack of inline tag support in
 // encoding/json.
 func (c ProcessorOptionConfig) MarshalJSON() ([]byte, error) {
-- 
2.43.0


From bfef1d833cc1bf3da2d800350ece46429c705057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:35 +0000
Subject: [PATCH 22/34] fix: refuse a nil processor constructor with an error

Register panicked.
---
 pkg/processor/registry/registry.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/processor/registry/registry.go b/pkg/processor/registry/registry.go
index e641d2a..4a0c9e3 100644
--- a/pkg/processor/registry/registry.go
+++ b/pkg/processor/registry/registry.go
@@ -96,12 +96,19 @@ func (r *Registry) clear() {
 
 func validateConfig(i interface{}) (*processorConstructor, error) {
 	v := reflect.ValueOf(i)
+	if !v.IsValid() {
+		return nil, fmt.Errorf("value must be a function, but got nil")
+	}
 	t := v.Type()
 
 	if t.Kind() != reflect.Func {
 		return nil, fmt.Errorf("value must be a function, but got %v", t.Kind())
 	}
 
+	if v.IsNil() {
+		return nil, fmt.Errorf("function must not be nil")
+	}
+
 	// Check config.
 	if t.NumIn() != 1 {
 		return nil, fmt.Errorf("function must accept one arg")
-- 
2.43.0


From f35d43defce28c75b353e2d54a7dc0c0f79abf41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:52 +0000
Subject: [PATCH 23/34] fix: accept the whole documented range of the
 community_id seed

Seeds are documented as 0 to 65535, but the option was an int16.
---
 docs/README.md                             | 2 +-
 pkg/processor/community_id/community_id.go | 2 +-
 pkg/processor/processors.yml               | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/docs/README.md b/docs/README.md
index 43d7884..07f45ff 100644
--- a/docs/README.md
+++ b/docs/README.md
@@ -83,7 +83,7 @@ configuration is required.
 | icmp_code |  | x | string | icmp.code | Field containing the ICMP code. |
 | icmp_type |  | x | string | icmp.type | Field containing the ICMP type. |
 | ignore_failure |  | x | bool |  | Ignore failures for the processor. |
-| seed |  | x | int16 |  | Seed for the community ID hash. Must be between 0 and 65535 (inclusive). The seed can prevent hash collisions between network domains, such as a staging and production network that use the same addressing scheme. |
+| seed |  | x | uint16 |  | Seed for the community ID hash. Must be between 0 and 65535 (inclusive). The seed can prevent hash collisions between network domains, such as a staging and production network that use the same addressing scheme. |
 | source_ip |  | x | string | source.ip | Field containing the source IP address. |
 | source_port |  | x | string | source.port | Field containing the source port. |
 | target_field |  | x | string | network.community_id | The field to assign the output value to, by default field is updated in-place. |
diff --git a/pkg/processor/community_id/community_id.go b/pkg/processor/community_id/community_id.go
index 1101b1b..a0d2d28 100644
--- a/pkg/processor/community_id/community_id.go
+++ b/pkg/processor/community_id/community_id.go
@@ -55,7 +55,7 @@ type Config struct {
 	// (inclusive). The seed can prevent hash collisions between network
 	// domains, such as a staging and production network that use the same
 	// addressing scheme.
-	Seed int16 `config:"seed"`
+	Seed uint16 `config:"seed"`
 
 	// Field containing the source IP address.
 	SourceIP string `config:"source_ip"`
diff --git a/pkg/processor/processors.yml b/pkg/processor/processors.yml
index 9667927..98d7037 100644
--- a/pkg/processor/processors.yml
+++ b/pkg/processor/processors.yml
@@ -118,7 +118,7 @@ processors:
             Field containing the transport protocol. Used only when the
             iana_number field is not present.
         - name: seed
-          type: int16
+          type: uint16
           optional: true
           default: 0
           description: |-
-- 
2.43.0


From 8b546e54efb9ef704e2e4ea83d80ab3b4804af4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:42 +0000
Subject: [PATCH 24/34] fix: do not write into an array shared with another
 field when appending

---
 pkg/eventutil/event.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pkg/eventutil/event.go b/pkg/eventutil/event.go
index 6521d55..32952e0 100644
--- a/pkg/eventutil/event.go
+++ b/pkg/eventutil/event.go
@@ -39,17 +39,17 @@ func Append(evt *event.Event, key string, item *event.Value) error {
 		targetValue = event.Array(targetValue)
 	}
 
-	// Append the new item to the array.
+	// Append the new item to a copy of the array. Spare capacity may be
+	// shared with other values.
+	items := append(make([]*event.Value, 0, len(targetValue.Array)+1), targetValue.Array...)
 	if item.Type == event.ArrayType {
-		for _, v := range item.Array {
-			targetValue.Array = append(targetValue.Array, v)
-		}
+		items = append(items, item.Array...)
 	} else {
-		targetValue.Array = append(targetValue.Array, item)
+		items = append(items, item)
 	}
 
 	// Overwrite the existing value.
-	_, err := evt.Put(key, targetValue)
+	_, err := evt.Put(key, event.Array(items...))
 	return err
 }
 
-- 
2.43.0


From fdb79c624c74fe1427295f47c5b6ad03f6981164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:57 +0000
Subject: [PATCH 25/34] fix: match the option names id, if and on_failure
 exactly in JSON definitions

---
 pkg/pipeline/config.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pkg/pipeline/config.go b/pkg/pipeline/config.go
index 2f8523e..8779b9f 100644
--- a/pkg/pipeline/config.go
+++ b/pkg/pipeline/config.go
@@ -63,11 +63,18 @@ func (c ProcessorConfig) getProcessor() (name string, opts *ProcessorOptionConfi
 // UnmarshalJSON contains a workaround for the lack of inline tag support in
 // encoding/json.
 func (c *ProcessorOptionConfig) UnmarshalJSON(data []byte) error {
-	// Prevent another call in this UnmarshalJSON.
-	type opts ProcessorOptionConfig
-	if err := json.Unmarshal(data, (*opts)(c)); err != nil {
+	// Match names exactly, unlike encoding/json does for struct fields.
+	var fields map[string]json.RawMessage
+	if err := json.Unmarshal(data, &fields); err != nil {
 		return err
 	}
+	for name, dst := range map[string]interface{}{"id": &c.ID, "if": &c.If, "on_failure": &c.OnFailure} {
+		if value, found := fields[name]; found {
+			if err := json.Unmarshal(value, dst); err != nil {
+				return err
+			}
+		}
+	}
 
 	var raw map[string]interface{}
 	if err := json.Unmarshal(data, &raw); err != nil {
-- 
2.43.0


From bd8de9b5d3428e91a429cd14d5d2533b7d61df19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:14 +0000
Subject: [PATCH 26/34] fix: accept input lines longer than 64 KiB in the
 command line tool

---
 cmd/sawmill/sawmill.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmd/sawmill/sawmill.go b/cmd/sawmill/sawmill.go
index dc535f6..954000f 100644
--- a/cmd/sawmill/sawmill.go
+++ b/cmd/sawmill/sawmill.go
@@ -24,6 +24,7 @@ import (
 	"fmt"
 	"io"
 	"log"
+	"math"
 	"os"
 	"runtime"
 	"runtime/pprof"
@@ -117,6 +118,7 @@ func loadPipeline(path string) (*pipeline.Config, error) {
 
 func processInput(in io.Reader, out io.Writer, pipe *pipeline.Pipeline) error {
 	s := bufio.NewScanner(in)
+	s.Buffer(nil, math.MaxInt) // Do not limit the length of a line.
 	var lineNumber uint64
 
 	enc := json.NewEncoder(out)
-- 
2.43.0


From bf7e07e5ee2fd0f1505a9a5b643526d202d728d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:27 +0000
Subject: [PATCH 27/34] fix: document every processor of a schema entry

---
 docs/generate/generate.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/docs/generate/generate.go b/docs/generate/generate.go
index 821c0e2..4eeb4bd 100644
--- a/docs/generate/generate.go
+++ b/docs/generate/generate.go
@@ -79,7 +79,6 @@ func main() {
 				Name:      name,
 				Processor: proc,
 			})
-			break
 		}
 	}
 	sort.Slice(templateData.Processors, func(i, j int) bool {
-- 
2.43.0


From a629d6ba969bfbb75c1d4da46ae4091ee0276460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:28 +0000
Subject: [PATCH 28/34] fix: escape the column separator in the documentation
 tables

---
 docs/generate/assets/processor.md.gotmpl | 2 +-
 internal/proctemplate/funcs.go           | 6 ++++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/docs/generate/assets/processor.md.gotmpl b/docs/generate/assets/processor.md.gotmpl
index d3ea3e3..923094c 100644
--- a/docs/generate/assets/processor.md.gotmpl
+++ b/docs/generate/assets/processor.md.gotmpl
@@ -5,5 +5,5 @@
 | Option | Required | Optional | Type | Default | Description |
 |--------|----------|----------|------|---------|-------------|
 {{ range $o := .Configuration -}}
-| {{$o.Name}} | {{bool_to_x $o.Required}} | {{bool_to_x $o.Optional}} | {{$o.Type}} | {{if $o.Default}}{{$o.Default}}{{end}} | {{replace $o.Description "\n" " " }} |
+| {{$o.Name}} | {{bool_to_x $o.Required}} | {{bool_to_x $o.Optional}} | {{$o.Type}} | {{if $o.Default}}{{table_cell $o.Default}}{{end}} | {{table_cell $o.Description}} |
 {{ end }}
diff --git a/internal/proctemplate/funcs.go b/internal/proctemplate/funcs.go
index 2581b13..b03b482 100644
--- a/internal/proctemplate/funcs.go
+++ b/internal/proctemplate/funcs.go
@@ -40,6 +40,7 @@ var TemplateFuncs = template.FuncMap{
 	"trim_import":         trimImportPrefix,
 	"bool_to_x":           boolToX,
 	"replace":             strings.ReplaceAll,
+	"table_cell":          tableCell,
 }
 
 // descriptionToComment builds a comment string that is wrapped at 80 chars.
@@ -159,3 +160,8 @@ func boolToX(b bool) string {
 	}
 	return ""
 }
+
+// tableCell formats a value as the text of a Markdown table cell.
+func tableCell(v interface{}) string {
+	return strings.NewReplacer("\n", " ", "|", "\\|").Replace(fmt.Sprint(v))
+}
-- 
2.43.0


From 70dddc3d6a8bde0f02c852d73e60a653d8d0915f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:02 +0000
Subject: [PATCH 29/34] fix: keep a hand-written process function when its
 package is generated

---
 internal/proctemplate/funcs.go     |  6 +--
 pkg/processor/generate/generate.go | 81 +++++++++++++++++++++++-------
 2 files changed, 65 insertions(+), 22 deletions(-)

diff --git a/internal/proctemplate/funcs.go b/internal/proctemplate/funcs.go
index b03b482..4032cee 100644
--- a/internal/proctemplate/funcs.go
+++ b/internal/proctemplate/funcs.go
@@ -31,7 +31,7 @@ import (
 
 var TemplateFuncs = template.FuncMap{
 	"to_lower":            strings.ToLower,
-	"to_exported_go_type": goTypeName,
+	"to_exported_go_type": GoTypeName,
 	"to_title":            strings.Title,
 	"description":         descriptionToComment,
 	"select_defaults":     selectDefaults,
@@ -74,9 +74,9 @@ func trimTrailingWhitespace(text string) (string, error) {
 	return string(bytes.Join(lines, []byte("\n"))), nil
 }
 
-// goTypeName removes special characters ('_', '.', '@') and returns a
+// GoTypeName removes special characters ('_', '.', '@') and returns a
 // camel-cased name.
-func goTypeName(name string) string {
+func GoTypeName(name string) string {
 	var b strings.Builder
 	for _, w := range strings.FieldsFunc(name, isSeparator) {
 		b.WriteString(strings.Title(abbreviations(w)))
diff --git a/pkg/processor/generate/generate.go b/pkg/processor/generate/generate.go
index 834da8c..00022de 100644
--- a/pkg/processor/generate/generate.go
+++ b/pkg/processor/generate/generate.go
@@ -30,6 +30,7 @@ import (
 	"os"
 	"path/filepath"
 	"sort"
+	"strings"
 	"text/template"
 
 	"github.com/andrewkroh/go-sawmill/internal/proctemplate"
@@ -91,12 +92,12 @@ func main() {
 
 			outputGoFile := filepath.Join(outputDir, name, name+".go")
 
-			// Check if the existing file has been modified and keep that
-			// modification.
-			hasProcess, err := hasProcessFunc(outputGoFile)
-			if err == nil && !hasProcess {
-				templateData.IncludeProcessFunc = false
+			// Keep a Process method that is written in another file.
+			written, err := hasProcessMethodElsewhere(outputGoFile, proctemplate.GoTypeName(name))
+			if err != nil {
+				log.Fatal(err)
 			}
+			templateData.IncludeProcessFunc = !written
 
 			// Render template.
 			buf := new(bytes.Buffer)
@@ -122,25 +123,67 @@ func main() {
 }
 
 // hasProcessFunc returns true if the file contains a Process function.
-func hasProcessFunc(goFile string) (bool, error) {
-	fileSet := token.NewFileSet()
-
-	f, err := parser.ParseFile(fileSet, goFile, nil, parser.ParseComments)
+// hasProcessMethodElsewhere returns true if a file of the package other than
+// the generated one declares the Process method of the type.
+func hasProcessMethodElsewhere(outputGoFile, typeName string) (bool, error) {
+	dir := filepath.Dir(outputGoFile)
+	entries, err := os.ReadDir(dir)
+	if os.IsNotExist(err) {
+		return false, nil
+	}
 	if err != nil {
 		return false, err
 	}
 
-	var found bool
-	ast.Inspect(f, func(n ast.Node) bool {
-		switch x := n.(type) {
-		case *ast.FuncDecl:
-			if x.Name.Name == "Process" {
-				found = true
-				return false
+	for _, entry := range entries {
+		goFile := filepath.Join(dir, entry.Name())
+		if goFile == outputGoFile || !strings.HasSuffix(goFile, ".go") || strings.HasSuffix(goFile, "_test.go") {
+			continue
+		}
+		types, err := processFuncs(goFile)
+		if err != nil {
+			return false, err
+		}
+		for _, t := range types {
+			if t == typeName {
+				return true, nil
 			}
 		}
-		return true
-	})
+	}
 
-	return found, nil
+	return false, nil
+}
+
+func hasProcessFunc(goFile string) (bool, error) {
+	found, err := processFuncs(goFile)
+	return len(found) > 0, err
+}
+
+// processFuncs returns the receiver types of all functions named Process (empty
+// for one without a receiver).
+func processFuncs(goFile string) ([]string, error) {
+	f, err := parser.ParseFile(token.NewFileSet(), goFile, nil, parser.ParseComments)
+	if err != nil {
+		return nil, err
+	}
+
+	var types []string
+	for _, decl := range f.Decls {
+		x, ok := decl.(*ast.FuncDecl)
+		if !ok || x.Name.Name != "Process" {
+			continue
+		}
+		name := ""
+		if x.Recv != nil && len(x.Recv.List) > 0 {
+			t := x.Recv.List[0].Type
+			if star, ok := t.(*ast.StarExpr); ok {
+				t = star.X
+			}
+			if ident, ok := t.(*ast.Ident); ok {
+				name = ident.Name
+			}
+		}
+		types = append(types, name)
+	}
+	return types, nil
 }
-- 
2.43.0


From bc86b6b928c6f2bea313468b9817d7d525069cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:14 +0000
Subject: [PATCH 30/34] fix: do not garble long descriptions in generated
 comments

---
 internal/proctemplate/funcs.go | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/internal/proctemplate/funcs.go b/internal/proctemplate/funcs.go
index 4032cee..dffe94e 100644
--- a/internal/proctemplate/funcs.go
+++ b/internal/proctemplate/funcs.go
@@ -18,8 +18,6 @@
 package proctemplate
 
 import (
-	"bufio"
-	"bytes"
 	"fmt"
 	"strconv"
 	"strings"
@@ -63,15 +61,11 @@ func descriptionToComment(indent, desc string) (string, error) {
 }
 
 func trimTrailingWhitespace(text string) (string, error) {
-	var lines [][]byte
-	s := bufio.NewScanner(bytes.NewBufferString(text))
-	for s.Scan() {
-		lines = append(lines, bytes.TrimRightFunc(s.Bytes(), unicode.IsSpace))
+	lines := strings.Split(text, "\n")
+	for i, line := range lines {
+		lines[i] = strings.TrimRightFunc(line, unicode.IsSpace)
 	}
-	if err := s.Err(); err != nil {
-		return "", err
-	}
-	return string(bytes.Join(lines, []byte("\n"))), nil
+	return strings.Join(lines, "\n"), nil
 }
 
 // GoTypeName removes special characters ('_', '.', '@') and returns a
-- 
2.43.0


From 635006c0d697ea45c36855a49f8b498e6a20e9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:31 +0000
Subject: [PATCH 31/34] fix: refuse a config that go-ucfg cannot represent
 instead of panicking

---
 pkg/processor/registry/registry.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pkg/processor/registry/registry.go b/pkg/processor/registry/registry.go
index 4a0c9e3..2ab809b 100644
--- a/pkg/processor/registry/registry.go
+++ b/pkg/processor/registry/registry.go
@@ -78,7 +78,7 @@ func (r *Registry) NewProcessor(name string, config map[string]interface{}) (pro
 
 	procConfigValue := pc.newConfig()
 
-	uConf, err := ucfg.NewFrom(config)
+	uConf, err := newConfig(config)
 	if err != nil {
 		return nil, err
 	}
@@ -90,6 +90,17 @@ func (r *Registry) NewProcessor(name string, config map[string]interface{}) (pro
 	return pc.newProc(procConfigValue)
 }
 
+// newConfig returns the ucfg form of config. Names that are negative integers
+// make ucfg panic because it takes them for list indexes.
+func newConfig(config map[string]interface{}) (c *ucfg.Config, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("invalid config: %v", r)
+		}
+	}()
+	return ucfg.NewFrom(config)
+}
+
 func (r *Registry) clear() {
 	r.procs = map[string]processorConstructor{}
 }
-- 
2.43.0


From 3524f0d5e440f0ea8a5eeed3f0a0a116c9b861c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:04 +0000
Subject: [PATCH 32/34] fix: refuse to register a constructor whose error can
 never be nil

NewProcessor panicked when it tested such an error for nil.
---
 pkg/processor/registry/registry.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/processor/registry/registry.go b/pkg/processor/registry/registry.go
index 2ab809b..d52335f 100644
--- a/pkg/processor/registry/registry.go
+++ b/pkg/processor/registry/registry.go
@@ -144,6 +144,11 @@ func validateConfig(i interface{}) (*processorConstructor, error) {
 	if !errorType.Implements(errorInterface) {
 		return nil, fmt.Errorf("function should return an error")
 	}
+	switch errorType.Kind() {
+	case reflect.Chan, reflect.Func, reflect.Interface, reflect.Map, reflect.Ptr, reflect.Slice:
+	default:
+		return nil, fmt.Errorf("function should return an error that can be nil, but got %v", errorType)
+	}
 
 	pc := &processorConstructor{
 		newConfig: func() reflect.Value {
-- 
2.43.0


From f9fd8b4034b615e0d369b33087b9d0ac5fa8a267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:49 +0000
Subject: [PATCH 33/34] fix: decode JSON into a value without reusing its old
 content

UnmarshalJSON decoded into the slice, map and element pointers that the
value already held. Decoding [null,1] and then [5] into one Value wrote 5
into the shared NullValue, and members of an old object stayed.
---
 pkg/event/value.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/event/value.go b/pkg/event/value.go
index 09d69ae..aa2ab65 100644
--- a/pkg/event/value.go
+++ b/pkg/event/value.go
@@ -146,6 +146,10 @@ func (v *Value) UnmarshalJSON(data []byte) error {
 		return err
 	}
 
+	// Keep nothing of an old value. Its elements may be in use elsewhere (e.g.
+	// NullValue) and must not be decoded into.
+	*v = Value{}
+
 	switch tok {
 	case json.Delim('['):
 		if err = json.Unmarshal(data, &v.Array); err != nil {
-- 
2.43.0


From dc442237b9820b8150d8c43d8a0bb810a27a63a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:44 +0000
Subject: [PATCH 34/34] fix: name the set processor's target_field in the
 example definition

The example used the option field, which set does not have, so every event
failed and ended up in on_failure.
---
 docs/README.md                        | 2 +-
 docs/generate/assets/README.md.gotmpl | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/docs/README.md b/docs/README.md
index 07f45ff..9a9c11c 100644
--- a/docs/README.md
+++ b/docs/README.md
@@ -33,7 +33,7 @@ description: >
   Summarize the purpose of the pipeline.
 processors:
   - set:
-      field: label.app
+      target_field: label.app
       value: some-app
 on_failure:
   - set:
diff --git a/docs/generate/assets/README.md.gotmpl b/docs/generate/assets/README.md.gotmpl
index 57d0739..8c14b8d 100644
--- a/docs/generate/assets/README.md.gotmpl
+++ b/docs/generate/assets/README.md.gotmpl
@@ -33,7 +33,7 @@ description: >
   Summarize the purpose of the pipeline.
 processors:
   - set:
-      field: label.app
+      target_field: label.app
       value: some-app
 on_failure:
   - set:
-- 
2.43.0

