From 29b64ccb74f318d16f5a0d52b5e58eb3304a4893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:47 +0000
Subject: [PATCH 01/66] fix: report read errors and oversized lines instead of
 truncating the stream

---
 yaml/parse.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/yaml/parse.go b/yaml/parse.go
index 522ff79..eb0cdf1 100644
--- a/yaml/parse.go
+++ b/yaml/parse.go
@@ -130,6 +130,12 @@ func ParseRaw(r io.Reader) ([]*RawResource, error) {
 			newline,
 		)
 	}
+	// a read error, or a line that exceeds the scanner
+	// limits, ends the loop early. The resources are not
+	// complete and should not be returned to the caller.
+	if err := scanner.Err(); err != nil {
+		return nil, err
+	}
 	for _, resource := range resources {
 		err := yaml.Unmarshal(resource.Data, resource)
 		if err != nil {
-- 
2.43.0


From 8eeb63ef1d7a4d457ba122f3e7271912abbcb445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:57 +0000
Subject: [PATCH 02/66] fix: format null and empty list and map entries instead
 of crashing or dropping their parent

---
 yaml/pretty/container.go | 44 +++++++++++++++++++++++++++++++++++-----
 yaml/pretty/pipeline.go  | 19 ++++++++++++++---
 yaml/pretty/writer.go    | 20 ++++++++++++++++++
 3 files changed, 75 insertions(+), 8 deletions(-)

diff --git a/yaml/pretty/container.go b/yaml/pretty/container.go
index afcfd17..dc31295 100644
--- a/yaml/pretty/container.go
+++ b/yaml/pretty/container.go
@@ -62,7 +62,7 @@ func printContainer(w writer, v *yaml.Container) {
 	if len(v.Ports) > 0 {
 		printPorts(w, v.Ports)
 	}
-	if v.Resources != nil {
+	if !isResourcesEmpty(v.Resources) {
 		printResources(w, v.Resources)
 	}
 	if len(v.Volumes) > 0 {
@@ -103,11 +103,16 @@ func printDependsOn(w writer, v []string) {
 func printDeviceMounts(w writer, v []*yaml.VolumeDevice) {
 	w.WriteTag("devices")
 	for _, v := range v {
+		if v == nil {
+			writeItem(w, "~")
+			continue
+		}
 		s := new(indexWriter)
 		s.writer = w
 		s.IndentIncrease()
 		s.WriteTagValue("name", v.Name)
 		s.WriteTagValue("path", v.DevicePath)
+		s.WriteEmpty()
 		s.IndentDecrease()
 	}
 }
@@ -124,7 +129,10 @@ func printEnviron(w writer, v map[string]*yaml.Variable) {
 	w.IndentIncrease()
 	for _, k := range keys {
 		v := v[k]
-		if v.Secret == "" {
+		if v == nil {
+			w.WriteTag(k)
+			w.WriteString(" ~")
+		} else if v.Secret == "" {
 			w.WriteTagValue(k, v.Value)
 		} else {
 			w.WriteTag(k)
@@ -140,6 +148,10 @@ func printEnviron(w writer, v map[string]*yaml.Variable) {
 func printPorts(w writer, v []*yaml.Port) {
 	w.WriteTag("ports")
 	for _, v := range v {
+		if v == nil {
+			writeItem(w, "~")
+			continue
+		}
 		if shortPort(v) {
 			w.WriteByte('\n')
 			w.Indent()
@@ -164,14 +176,14 @@ func printResources(w writer, v *yaml.Resources) {
 	w.WriteTag("resources")
 	w.IndentIncrease()
 
-	if v.Limits != nil {
+	if !isResourceObjectEmpty(v.Limits) {
 		w.WriteTag("limits")
 		w.IndentIncrease()
 		w.WriteTagValue("cpu", v.Limits.CPU)
 		w.WriteTagValue("memory", v.Limits.Memory)
 		w.IndentDecrease()
 	}
-	if v.Requests != nil {
+	if !isResourceObjectEmpty(v.Requests) {
 		w.WriteTag("requests")
 		w.IndentIncrease()
 		w.WriteTagValue("cpu", v.Requests.CPU)
@@ -193,7 +205,10 @@ func printSettings(w writer, v map[string]*yaml.Parameter) {
 	w.IndentIncrease()
 	for _, k := range keys {
 		v := v[k]
-		if v.Secret == "" {
+		if v == nil || (v.Secret == "" && v.Value == nil) {
+			w.WriteTag(k)
+			w.WriteString(" ~")
+		} else if v.Secret == "" {
 			w.IncludeZero()
 			w.WriteTagValue(k, v.Value)
 			w.ExcludeZero()
@@ -211,15 +226,34 @@ func printSettings(w writer, v map[string]*yaml.Parameter) {
 func printVolumeMounts(w writer, v []*yaml.VolumeMount) {
 	w.WriteTag("volumes")
 	for _, v := range v {
+		if v == nil {
+			writeItem(w, "~")
+			continue
+		}
 		s := new(indexWriter)
 		s.writer = w
 		s.IndentIncrease()
 		s.WriteTagValue("name", v.Name)
 		s.WriteTagValue("path", v.MountPath)
+		s.WriteEmpty()
 		s.IndentDecrease()
 	}
 }
 
+// helper function returns true if the resources
+// object is empty.
+func isResourcesEmpty(v *yaml.Resources) bool {
+	return v == nil ||
+		isResourceObjectEmpty(v.Limits) &&
+			isResourceObjectEmpty(v.Requests)
+}
+
+// helper function returns true if the resource requests
+// or limits object is empty.
+func isResourceObjectEmpty(v *yaml.ResourceObject) bool {
+	return v == nil || v.CPU == 0 && v.Memory == 0
+}
+
 // helper function returns true if the Build block should
 // be printed in short form.
 func shortBuild(b *yaml.Build) bool {
diff --git a/yaml/pretty/pipeline.go b/yaml/pretty/pipeline.go
index e6cafdb..d1c332b 100644
--- a/yaml/pretty/pipeline.go
+++ b/yaml/pretty/pipeline.go
@@ -46,12 +46,14 @@ func printPipeline(w writer, v *yaml.Pipeline) {
 		w.WriteTag("steps")
 		for _, step := range v.Steps {
 			if step == nil {
+				writeItem(w, "~")
 				continue
 			}
 			seq := new(indexWriter)
 			seq.writer = w
 			seq.IndentIncrease()
 			printContainer(seq, step)
+			seq.WriteEmpty()
 			seq.IndentDecrease()
 		}
 	}
@@ -60,12 +62,14 @@ func printPipeline(w writer, v *yaml.Pipeline) {
 		w.WriteTag("services")
 		for _, step := range v.Services {
 			if step == nil {
+				writeItem(w, "~")
 				continue
 			}
 			seq := new(indexWriter)
 			seq.writer = w
 			seq.IndentIncrease()
 			printContainer(seq, step)
+			seq.WriteEmpty()
 			seq.IndentDecrease()
 		}
 	}
@@ -207,6 +211,10 @@ func printPlatformDefault(w writer) {
 func printVolumes(w writer, v []*yaml.Volume) {
 	w.WriteTag("volumes")
 	for _, v := range v {
+		if v == nil {
+			writeItem(w, "~")
+			continue
+		}
 		s := new(indexWriter)
 		s.writer = w
 		s.IndentIncrease()
@@ -228,11 +236,16 @@ func printVolumes(w writer, v []*yaml.Volume) {
 
 		if v := v.HostPath; v != nil {
 			s.WriteTag("host")
-			s.IndentIncrease()
-			s.WriteTagValue("path", v.Path)
-			s.IndentDecrease()
+			if v.Path == "" {
+				w.WriteString(" {}")
+			} else {
+				s.IndentIncrease()
+				s.WriteTagValue("path", v.Path)
+				s.IndentDecrease()
+			}
 		}
 
+		s.WriteEmpty()
 		s.IndentDecrease()
 	}
 }
diff --git a/yaml/pretty/writer.go b/yaml/pretty/writer.go
index 3b38362..dd1ef97 100644
--- a/yaml/pretty/writer.go
+++ b/yaml/pretty/writer.go
@@ -185,10 +185,30 @@ func (w *indexWriter) WriteTagValue(k, v interface{}) {
 	}
 }
 
+// WriteEmpty appends an empty mapping if no key was
+// written for this sequence item.
+func (w *indexWriter) WriteEmpty() {
+	if w.index == 0 {
+		w.IndentDecrease()
+		writeItem(w, "{}")
+		w.IndentIncrease()
+		w.index++
+	}
+}
+
 //
 // helper functions
 //
 
+// writeItem appends a sequence item to the buffer.
+func writeItem(w writer, s string) {
+	w.WriteByte('\n')
+	w.Indent()
+	w.WriteByte('-')
+	w.WriteByte(' ')
+	w.WriteString(s)
+}
+
 func writeBool(w writer, v bool) {
 	w.WriteString(
 		strconv.FormatBool(v),
-- 
2.43.0


From 9b8e7962a29dd30a668f0d5e40867276dad80ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:16 +0000
Subject: [PATCH 03/66] fix: print the name of a secret exactly once

---
 yaml/pretty/secret.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/yaml/pretty/secret.go b/yaml/pretty/secret.go
index 5a6b63f..930c649 100644
--- a/yaml/pretty/secret.go
+++ b/yaml/pretty/secret.go
@@ -29,13 +29,12 @@ func printSecret(w writer, v *yaml.Secret) {
 	w.WriteTagValue("version", v.Version)
 	w.WriteTagValue("kind", v.Kind)
 	w.WriteTagValue("type", v.Type)
+	w.WriteTagValue("name", v.Name)
 
 	if len(v.Data) > 0 {
-		w.WriteTagValue("name", v.Name)
 		printData(w, v.Data)
 	}
 	if isSecretGetEmpty(v.Get) == false {
-		w.WriteTagValue("name", v.Name)
 		w.WriteByte('\n')
 		printGet(w, v.Get)
 	}
-- 
2.43.0


From e9dfc5c870eb675d14e3d161da12aac49c71af2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:18 +0000
Subject: [PATCH 04/66] fix: print registry resources instead of dropping them

---
 yaml/pretty/pretty.go   |  2 ++
 yaml/pretty/registry.go | 51 +++++++++++++++++++++++++++++++++++++++++
 yaml/pretty/secret.go   |  6 ++---
 3 files changed, 56 insertions(+), 3 deletions(-)
 create mode 100644 yaml/pretty/registry.go

diff --git a/yaml/pretty/pretty.go b/yaml/pretty/pretty.go
index 1080c46..ff2390f 100644
--- a/yaml/pretty/pretty.go
+++ b/yaml/pretty/pretty.go
@@ -29,6 +29,8 @@ func Print(w io.Writer, v *yaml.Manifest) {
 			printCron(state, t)
 		case *yaml.Secret:
 			printSecret(state, t)
+		case *yaml.Registry:
+			printRegistry(state, t)
 		case *yaml.Signature:
 			printSignature(state, t)
 		case *yaml.Pipeline:
diff --git a/yaml/pretty/registry.go b/yaml/pretty/registry.go
new file mode 100644
index 0000000..b348861
--- /dev/null
+++ b/yaml/pretty/registry.go
@@ -0,0 +1,51 @@
+// Copyright 2019 Drone IO, Inc.
+//
+// Licensed under the Apache License, Version 2.0 (the "License");
+// you may not use this file except in compliance with the License.
+// You may obtain a copy of the License at
+//
+//      http://www.apache.org/licenses/LICENSE-2.0
+//
+// Unless required by applicable law or agreed to in writing, software
+// distributed under the License is distributed on an "AS IS" BASIS,
+// WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+// See the License for the specific language governing permissions and
+// limitations under the License.
+
+package pretty
+
+import (
+	"sort"
+
+	"github.com/drone/drone-yaml/yaml"
+)
+
+// helper function pretty prints the registry resource.
+func printRegistry(w writer, v *yaml.Registry) {
+	w.WriteString("---")
+	w.WriteTagValue("version", v.Version)
+	w.WriteTagValue("kind", v.Kind)
+	w.WriteTagValue("type", v.Type)
+
+	if len(v.Data) > 0 {
+		printRegistryData(w, v.Data)
+	}
+	w.WriteByte('\n')
+	w.WriteByte('\n')
+}
+
+// helper function prints the registry credentials.
+func printRegistryData(w writer, d map[string]string) {
+	var keys []string
+	for k := range d {
+		keys = append(keys, k)
+	}
+	sort.Strings(keys)
+
+	w.WriteTag("data")
+	w.IndentIncrease()
+	for _, k := range keys {
+		printData(w, k, d[k])
+	}
+	w.IndentDecrease()
+}
diff --git a/yaml/pretty/secret.go b/yaml/pretty/secret.go
index 930c649..5075b3d 100644
--- a/yaml/pretty/secret.go
+++ b/yaml/pretty/secret.go
@@ -32,7 +32,7 @@ func printSecret(w writer, v *yaml.Secret) {
 	w.WriteTagValue("name", v.Name)
 
 	if len(v.Data) > 0 {
-		printData(w, v.Data)
+		printData(w, "data", v.Data)
 	}
 	if isSecretGetEmpty(v.Get) == false {
 		w.WriteByte('\n')
@@ -73,8 +73,8 @@ func printExternalData(w writer, d map[string]yaml.ExternalData) {
 	w.IndentDecrease()
 }
 
-func printData(w writer, d string) {
-	w.WriteTag("data")
+func printData(w writer, k, d string) {
+	w.WriteTag(k)
 	w.WriteByte(' ')
 	w.WriteByte('>')
 	w.IndentIncrease()
-- 
2.43.0


From a8f9049637ffc9f9ff1bc4900cbd20decc95f260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:32 +0000
Subject: [PATCH 05/66] fix: keep environment variables with an empty value
 when formatting

---
 yaml/pretty/container.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yaml/pretty/container.go b/yaml/pretty/container.go
index dc31295..c9968b5 100644
--- a/yaml/pretty/container.go
+++ b/yaml/pretty/container.go
@@ -133,7 +133,9 @@ func printEnviron(w writer, v map[string]*yaml.Variable) {
 			w.WriteTag(k)
 			w.WriteString(" ~")
 		} else if v.Secret == "" {
+			w.IncludeZero()
 			w.WriteTagValue(k, v.Value)
+			w.ExcludeZero()
 		} else {
 			w.WriteTag(k)
 			w.IndentIncrease()
-- 
2.43.0


From 5a36cd5ff56598be80e6ca856dd30eb8eee48021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:33 +0000
Subject: [PATCH 06/66] fix: print byte sizes exactly when the short form would
 round them

---
 yaml/pretty/writer.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/yaml/pretty/writer.go b/yaml/pretty/writer.go
index dd1ef97..4a1c601 100644
--- a/yaml/pretty/writer.go
+++ b/yaml/pretty/writer.go
@@ -20,6 +20,7 @@ import (
 	"sort"
 	"strconv"
 
+	"github.com/docker/go-units"
 	"github.com/drone/drone-yaml/yaml"
 )
 
@@ -233,6 +234,17 @@ func writeInt64(w writer, v int64) {
 	)
 }
 
+// writeBytesSize writes the human readable size, unless it
+// is rounded, in which case the exact size is written.
+func writeBytesSize(w writer, v yaml.BytesSize) {
+	s := v.String()
+	if n, err := units.RAMInBytes(s); err == nil && n == int64(v) {
+		writeEncode(w, s)
+	} else {
+		writeInt64(w, int64(v))
+	}
+}
+
 func writeEncode(w writer, v string) {
 	if len(v) == 0 {
 		w.WriteByte('"')
@@ -263,7 +275,7 @@ func writeValue(w writer, v interface{}) {
 	case map[string]string:
 		writeMappingStr(w, v)
 	case yaml.BytesSize:
-		writeValue(w, v.String())
+		writeBytesSize(w, v)
 	}
 }
 
-- 
2.43.0


From 96b11b5a08f4f6d03674a01e656a36753a5be207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:56 +0000
Subject: [PATCH 07/66] fix: format settings with non-string keys, large
 integers and non-finite numbers

---
 yaml/pretty/util.go   |  2 +-
 yaml/pretty/writer.go | 51 +++++++++++++++++++++++++++++++++----------
 2 files changed, 40 insertions(+), 13 deletions(-)

diff --git a/yaml/pretty/util.go b/yaml/pretty/util.go
index 749543b..632fac9 100644
--- a/yaml/pretty/util.go
+++ b/yaml/pretty/util.go
@@ -22,7 +22,7 @@ import (
 
 func isPrimative(v interface{}) bool {
 	switch v.(type) {
-	case bool, string, int, int64, float64:
+	case bool, string, int, int64, uint64, float64:
 		return true
 	case yaml.BytesSize:
 		return true
diff --git a/yaml/pretty/writer.go b/yaml/pretty/writer.go
index 4a1c601..2834e1a 100644
--- a/yaml/pretty/writer.go
+++ b/yaml/pretty/writer.go
@@ -17,6 +17,7 @@ package pretty
 import (
 	"bytes"
 	"fmt"
+	"math"
 	"sort"
 	"strconv"
 
@@ -217,9 +218,18 @@ func writeBool(w writer, v bool) {
 }
 
 func writeFloat(w writer, v float64) {
-	w.WriteString(
-		strconv.FormatFloat(v, 'g', -1, 64),
-	)
+	switch {
+	case math.IsNaN(v):
+		w.WriteString(".nan")
+	case math.IsInf(v, +1):
+		w.WriteString(".inf")
+	case math.IsInf(v, -1):
+		w.WriteString("-.inf")
+	default:
+		w.WriteString(
+			strconv.FormatFloat(v, 'g', -1, 64),
+		)
+	}
 }
 
 func writeInt(w writer, v int) {
@@ -245,6 +255,12 @@ func writeBytesSize(w writer, v yaml.BytesSize) {
 	}
 }
 
+func writeUint64(w writer, v uint64) {
+	w.WriteString(
+		strconv.FormatUint(v, 10),
+	)
+}
+
 func writeEncode(w writer, v string) {
 	if len(v) == 0 {
 		w.WriteByte('"')
@@ -264,7 +280,7 @@ func writeValue(w writer, v interface{}) {
 		return
 	}
 	switch v := v.(type) {
-	case bool, int, int64, float64, string:
+	case bool, int, int64, uint64, float64, string:
 		writeScalar(w, v)
 	case []interface{}:
 		writeSequence(w, v)
@@ -287,6 +303,8 @@ func writeScalar(w writer, v interface{}) {
 		writeInt(w, v)
 	case int64:
 		writeInt64(w, v)
+	case uint64:
+		writeUint64(w, v)
 	case float64:
 		writeFloat(w, v)
 	case string:
@@ -336,19 +354,28 @@ func writeMapping(w writer, v map[interface{}]interface{}) {
 		w.WriteByte('}')
 		return
 	}
-	var keys []string
-	for k := range v {
-		s := fmt.Sprint(k)
-		keys = append(keys, s)
+	type entry struct {
+		name string
+		k, v interface{}
 	}
-	sort.Strings(keys)
-	for i, k := range keys {
-		v := v[k]
+	var entries []entry
+	for k, v := range v {
+		entries = append(entries, entry{fmt.Sprint(k), k, v})
+	}
+	sort.Slice(entries, func(i, j int) bool {
+		a, b := entries[i], entries[j]
+		if a.name != b.name {
+			return a.name < b.name
+		}
+		return fmt.Sprintf("%T", a.k) < fmt.Sprintf("%T", b.k)
+	})
+	for i, e := range entries {
+		v := e.v
 		if i != 0 {
 			w.WriteByte('\n')
 			w.Indent()
 		}
-		writeEncode(w, k)
+		writeValue(w, e.k)
 		w.WriteByte(':')
 		if v == nil || isPrimative(v) || isZero(v) {
 			w.WriteByte(' ')
-- 
2.43.0


From cb2558eb33a93236c1e679ab141c246ae0cfbe06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:55 +0000
Subject: [PATCH 08/66] fix: quote strings with unprintable characters, lone
 indicators and the merge key

---
 yaml/pretty/util.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/yaml/pretty/util.go b/yaml/pretty/util.go
index 632fac9..49be76e 100644
--- a/yaml/pretty/util.go
+++ b/yaml/pretty/util.go
@@ -16,6 +16,7 @@ package pretty
 
 import (
 	"strings"
+	"unicode"
 
 	"github.com/drone/drone-yaml/yaml"
 )
@@ -107,16 +108,22 @@ func isQuoted(s string) bool {
 
 	case '&', '!', '-', ':', '?':
 		// if the yaml starts with any of these characters,
-		// followed by whitespace, the string should be quoted.
-		if r1 == ' ' {
+		// followed by whitespace or the end of the string,
+		// the string should be quoted.
+		if r1 == ' ' || len(t) == 1 {
 			return true
 		}
 	}
 
+	// if the string is the yaml merge key it should be quoted.
+	if s == "<<" {
+		return true
+	}
+
 	var prev rune
 	for _, b := range s {
 		switch {
-		case isEscapeCode(b):
+		case isEscapeCode(b) || !unicode.IsPrint(b):
 			return true
 		case b == ' ' && prev == ':':
 			return true
-- 
2.43.0


From 66754f1f64214a4e9744e4a6ae6c466a74cbf765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:57 +0000
Subject: [PATCH 09/66] fix: format the strings null and ~ so that they are not
 read as null

---
 yaml/pretty/writer.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/yaml/pretty/writer.go b/yaml/pretty/writer.go
index 2834e1a..20c188c 100644
--- a/yaml/pretty/writer.go
+++ b/yaml/pretty/writer.go
@@ -267,7 +267,12 @@ func writeEncode(w writer, v string) {
 		w.WriteByte('"')
 		return
 	}
-	if isQuoted(v) {
+	if v == "null" || v == "~" {
+		// quotes do not prevent the parser from decoding
+		// these values to a nil pointer, the tag does.
+		w.WriteString("!!str ")
+		w.WriteString(v)
+	} else if isQuoted(v) {
 		fmt.Fprintf(w, "%q", v)
 	} else {
 		w.WriteString(v)
-- 
2.43.0


From 1ff27d5cd910a89df9acf76fd0175f650354488c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:58 +0000
Subject: [PATCH 10/66] fix: quote strings in settings that would be read as
 another type

---
 yaml/pretty/container.go |  4 ++++
 yaml/pretty/util.go      | 16 ++++++++++++++++
 yaml/pretty/writer.go    | 19 +++++++++++++++----
 3 files changed, 35 insertions(+), 4 deletions(-)

diff --git a/yaml/pretty/container.go b/yaml/pretty/container.go
index c9968b5..3e0a009 100644
--- a/yaml/pretty/container.go
+++ b/yaml/pretty/container.go
@@ -210,6 +210,10 @@ func printSettings(w writer, v map[string]*yaml.Parameter) {
 		if v == nil || (v.Secret == "" && v.Value == nil) {
 			w.WriteTag(k)
 			w.WriteString(" ~")
+		} else if s, ok := v.Value.(string); ok && v.Secret == "" {
+			w.WriteTag(k)
+			w.WriteByte(' ')
+			writeUntyped(w, s)
 		} else if v.Secret == "" {
 			w.IncludeZero()
 			w.WriteTagValue(k, v.Value)
diff --git a/yaml/pretty/util.go b/yaml/pretty/util.go
index 49be76e..d0e4cf6 100644
--- a/yaml/pretty/util.go
+++ b/yaml/pretty/util.go
@@ -18,6 +18,7 @@ import (
 	"strings"
 	"unicode"
 
+	goyaml "github.com/buildkite/yaml"
 	"github.com/drone/drone-yaml/yaml"
 )
 
@@ -138,6 +139,21 @@ func isQuoted(s string) bool {
 	return strings.HasSuffix(t, ":")
 }
 
+// helper function returns true if the parser decodes the
+// string to a nil pointer, even if it is quoted.
+func isNull(s string) bool {
+	return s == "null" || s == "~"
+}
+
+// helper function returns true if the plain, unquoted string
+// is not decoded to a string.
+func isAmbiguous(s string) bool {
+	var v interface{}
+	err := goyaml.Unmarshal([]byte(s), &v)
+	_, ok := v.(string)
+	return err != nil || !ok
+}
+
 func chunk(s string, chunkSize int) []string {
 	if len(s) == 0 {
 		return []string{s}
diff --git a/yaml/pretty/writer.go b/yaml/pretty/writer.go
index 20c188c..e11c274 100644
--- a/yaml/pretty/writer.go
+++ b/yaml/pretty/writer.go
@@ -267,7 +267,7 @@ func writeEncode(w writer, v string) {
 		w.WriteByte('"')
 		return
 	}
-	if v == "null" || v == "~" {
+	if isNull(v) {
 		// quotes do not prevent the parser from decoding
 		// these values to a nil pointer, the tag does.
 		w.WriteString("!!str ")
@@ -279,6 +279,17 @@ func writeEncode(w writer, v string) {
 	}
 }
 
+// writeUntyped writes a value that is decoded without a type.
+// Strings are quoted if they would be decoded to another type.
+func writeUntyped(w writer, v interface{}) {
+	s, ok := v.(string)
+	if ok && !isNull(s) && !isQuoted(s) && isAmbiguous(s) {
+		fmt.Fprintf(w, "%q", s)
+	} else {
+		writeValue(w, v)
+	}
+}
+
 func writeValue(w writer, v interface{}) {
 	if v == nil {
 		w.WriteByte('~')
@@ -331,7 +342,7 @@ func writeSequence(w writer, v []interface{}) {
 		w.WriteByte('-')
 		w.WriteByte(' ')
 		w.IndentIncrease()
-		writeValue(w, v)
+		writeUntyped(w, v)
 		w.IndentDecrease()
 	}
 }
@@ -380,11 +391,11 @@ func writeMapping(w writer, v map[interface{}]interface{}) {
 			w.WriteByte('\n')
 			w.Indent()
 		}
-		writeValue(w, e.k)
+		writeUntyped(w, e.k)
 		w.WriteByte(':')
 		if v == nil || isPrimative(v) || isZero(v) {
 			w.WriteByte(' ')
-			writeValue(w, v)
+			writeUntyped(w, v)
 		} else {
 			slice := isSlice(v)
 			if !slice {
-- 
2.43.0


From 332ad9afa4401ab5347cdf4aa5100325925d8cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:20 +0000
Subject: [PATCH 11/66] fix: print empty lists and mappings in settings next to
 their key

---
 yaml/pretty/writer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yaml/pretty/writer.go b/yaml/pretty/writer.go
index e11c274..43757e3 100644
--- a/yaml/pretty/writer.go
+++ b/yaml/pretty/writer.go
@@ -116,7 +116,7 @@ func (w *baseWriter) WriteTagValue(k, v interface{}) {
 		return
 	}
 	w.WriteTag(k)
-	if isPrimative(v) {
+	if isPrimative(v) || isZero(v) {
 		w.WriteByte(' ')
 		writeValue(w, v)
 	} else if isSlice(v) {
@@ -171,7 +171,7 @@ func (w *indexWriter) WriteTagValue(k, v interface{}) {
 		return
 	}
 	w.WriteTag(k)
-	if isPrimative(v) {
+	if isPrimative(v) || isZero(v) {
 		w.WriteByte(' ')
 		writeValue(w, v)
 	} else if isSlice(v) {
-- 
2.43.0


From 753c92287b9f5afe7db3883705404fe31cab0d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:21 +0000
Subject: [PATCH 12/66] fix: encode empty variables and parameters as empty
 strings instead of null

---
 yaml/env.go   | 5 +----
 yaml/param.go | 5 +----
 2 files changed, 2 insertions(+), 8 deletions(-)

diff --git a/yaml/env.go b/yaml/env.go
index 9b8e002..c397786 100644
--- a/yaml/env.go
+++ b/yaml/env.go
@@ -50,8 +50,5 @@ func (v *Variable) MarshalYAML() (interface{}, error) {
 		m["from_secret"] = v.Secret
 		return m, nil
 	}
-	if v.Value != "" {
-		return v.Value, nil
-	}
-	return nil, nil
+	return v.Value, nil
 }
diff --git a/yaml/param.go b/yaml/param.go
index 33cfbdb..9167d6a 100644
--- a/yaml/param.go
+++ b/yaml/param.go
@@ -51,8 +51,5 @@ func (p *Parameter) MarshalYAML() (interface{}, error) {
 		m["from_secret"] = p.Secret
 		return m, nil
 	}
-	if p.Value != "" {
-		return p.Value, nil
-	}
-	return nil, nil
+	return p.Value, nil
 }
-- 
2.43.0


From b3b6316de2dd17e39ac571873937ecbc917e4b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:59 +0000
Subject: [PATCH 13/66] fix: do not read the end of an empty stream as a
 document without a kind

---
 yaml/parse.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/yaml/parse.go b/yaml/parse.go
index eb0cdf1..4fa9d18 100644
--- a/yaml/parse.go
+++ b/yaml/parse.go
@@ -105,6 +105,9 @@ func ParseRaw(r io.Reader) ([]*RawResource, error) {
 	scanner := bufio.NewScanner(r)
 	for scanner.Scan() {
 		line := scanner.Text()
+		if isTerminator(line) {
+			break
+		}
 		if isSeparator(line) {
 			resource = nil
 		}
@@ -115,9 +118,6 @@ func ParseRaw(r io.Reader) ([]*RawResource, error) {
 		if isSeparator(line) {
 			continue
 		}
-		if isTerminator(line) {
-			break
-		}
 		if scanner.Err() == io.EOF {
 			break
 		}
-- 
2.43.0


From 26fe3e981e2f9216d0869c78b64d343abf38ff06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:00 +0000
Subject: [PATCH 14/66] fix: quote the other spellings of null when formatting
 strings

---
 yaml/pretty/util.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/yaml/pretty/util.go b/yaml/pretty/util.go
index d0e4cf6..1875fc6 100644
--- a/yaml/pretty/util.go
+++ b/yaml/pretty/util.go
@@ -116,8 +116,10 @@ func isQuoted(s string) bool {
 		}
 	}
 
-	// if the string is the yaml merge key it should be quoted.
-	if s == "<<" {
+	// if the string is the yaml merge key or a spelling of
+	// null it should be quoted.
+	switch s {
+	case "<<", "Null", "NULL":
 		return true
 	}
 
-- 
2.43.0


From a19f66cff83acd227a73cbfa13b89783ea76a297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:19 +0000
Subject: [PATCH 15/66] fix: quote strings in settings that would be read as a
 tag

---
 yaml/pretty/util.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/yaml/pretty/util.go b/yaml/pretty/util.go
index 1875fc6..0fa47f4 100644
--- a/yaml/pretty/util.go
+++ b/yaml/pretty/util.go
@@ -148,12 +148,11 @@ func isNull(s string) bool {
 }
 
 // helper function returns true if the plain, unquoted string
-// is not decoded to a string.
+// is not decoded to the same string.
 func isAmbiguous(s string) bool {
 	var v interface{}
 	err := goyaml.Unmarshal([]byte(s), &v)
-	_, ok := v.(string)
-	return err != nil || !ok
+	return err != nil || v != interface{}(s)
 }
 
 func chunk(s string, chunkSize int) []string {
-- 
2.43.0


From 8dfcf3e8b89d3c7aae9ed37c8b7bd0a1e36c16fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:55 +0000
Subject: [PATCH 16/66] fix: report null steps, services, ports and volumes as
 lint errors instead of crashing

---
 yaml/linter/linter.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/yaml/linter/linter.go b/yaml/linter/linter.go
index 27b35cb..f0d4a3b 100644
--- a/yaml/linter/linter.go
+++ b/yaml/linter/linter.go
@@ -79,6 +79,9 @@ func checkPipeline(pipeline *yaml.Pipeline, trusted bool) error {
 		names["clone"] = struct{}{}
 	}
 	for _, container := range pipeline.Steps {
+		if container == nil {
+			return errors.New("linter: invalid or missing step")
+		}
 		_, ok := names[container.Name]
 		if ok {
 			return ErrDuplicateStepName
@@ -96,6 +99,9 @@ func checkPipeline(pipeline *yaml.Pipeline, trusted bool) error {
 		}
 	}
 	for _, container := range pipeline.Services {
+		if container == nil {
+			return errors.New("linter: invalid or missing service")
+		}
 		_, ok := names[container.Name]
 		if ok {
 			return ErrDuplicateStepName
@@ -159,6 +165,9 @@ func checkContainer(container *yaml.Container, trusted bool) error {
 		return errors.New("linter: untrusted repositories cannot configure network_mode")
 	}
 	for _, mount := range container.Volumes {
+		if mount == nil {
+			return errors.New("linter: invalid or missing volume mount")
+		}
 		switch mount.Name {
 		case "workspace", "_workspace", "_docker_socket":
 			return fmt.Errorf("linter: invalid volume name: %s", mount.Name)
@@ -169,6 +178,9 @@ func checkContainer(container *yaml.Container, trusted bool) error {
 
 func checkPorts(ports []*yaml.Port, trusted bool) error {
 	for _, port := range ports {
+		if port == nil {
+			return errors.New("linter: invalid or missing port")
+		}
 		err := checkPort(port, trusted)
 		if err != nil {
 			return err
@@ -186,6 +198,9 @@ func checkPort(port *yaml.Port, trusted bool) error {
 
 func checkVolumes(pipeline *yaml.Pipeline, trusted bool) error {
 	for _, volume := range pipeline.Volumes {
+		if volume == nil {
+			return errors.New("linter: invalid or missing volume")
+		}
 		if volume.EmptyDir != nil {
 			err := checkEmptyDirVolume(volume.EmptyDir, trusted)
 			if err != nil {
-- 
2.43.0


From 27b3e86b43424a8ba7f11a632367a42005d5cebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:56 +0000
Subject: [PATCH 17/66] fix: give images built twice under equivalent names one
 well-defined alias

---
 yaml/compiler/compiler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaml/compiler/compiler.go b/yaml/compiler/compiler.go
index b5884db..f5f0421 100644
--- a/yaml/compiler/compiler.go
+++ b/yaml/compiler/compiler.go
@@ -195,7 +195,7 @@ func (c *Compiler) Compile(from *yaml.Pipeline) *engine.Spec {
 		switch {
 		case container.Build != nil:
 			step = createBuildStep(spec, container)
-			rename[container.Build.Image] = step.Metadata.UID
+			rename[image.Expand(container.Build.Image)] = step.Metadata.UID
 		default:
 			step = createStep(spec, container)
 		}
-- 
2.43.0


From efe8b4efed6eff43a1a65b8eae59c80b86096fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:57 +0000
Subject: [PATCH 18/66] fix: give the host workspace volume the metadata of the
 other volumes

---
 yaml/compiler/workspace.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/yaml/compiler/workspace.go b/yaml/compiler/workspace.go
index 600f4af..41d87d4 100644
--- a/yaml/compiler/workspace.go
+++ b/yaml/compiler/workspace.go
@@ -118,8 +118,10 @@ func CreateHostWorkspace(workdir string) func(*engine.Spec) {
 			spec.Docker.Volumes,
 			&engine.Volume{
 				Metadata: engine.Metadata{
-					UID:  rand.String(),
-					Name: workspaceHostName,
+					UID:       rand.String(),
+					Name:      workspaceHostName,
+					Namespace: spec.Metadata.Namespace,
+					Labels:    map[string]string{},
 				},
 				HostPath: &engine.VolumeHostPath{
 					Path: workdir,
-- 
2.43.0


From 02ffe5e4d652615a0a5287ec087b10dbbdc89775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:59 +0000
Subject: [PATCH 19/66] fix: escape backticks when announcing a command in the
 shell script

---
 yaml/compiler/script_posix.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yaml/compiler/script_posix.go b/yaml/compiler/script_posix.go
index ea5b2ed..1628326 100644
--- a/yaml/compiler/script_posix.go
+++ b/yaml/compiler/script_posix.go
@@ -29,6 +29,7 @@ func setupScript(spec *engine.Spec, dst *engine.Step, src *yaml.Container) {
 	for _, command := range src.Commands {
 		escaped := fmt.Sprintf("%q", command)
 		escaped = strings.Replace(escaped, "$", `\$`, -1)
+		escaped = strings.Replace(escaped, "`", "\\`", -1)
 		buf.WriteString(fmt.Sprintf(
 			traceScript,
 			escaped,
-- 
2.43.0


From 7c49c74c506d15101720773d791b586642794d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:22 +0000
Subject: [PATCH 20/66] fix: escape single quotes when announcing a command in
 the powershell script

---
 yaml/compiler/script_win.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/yaml/compiler/script_win.go b/yaml/compiler/script_win.go
index b69496c..88f5b13 100644
--- a/yaml/compiler/script_win.go
+++ b/yaml/compiler/script_win.go
@@ -29,6 +29,7 @@ func setupScriptWin(spec *engine.Spec, dst *engine.Step, src *yaml.Container) {
 	for _, command := range src.Commands {
 		escaped := fmt.Sprintf("%q", command)
 		escaped = strings.Replace(escaped, "$", `\$`, -1)
+		escaped = quoteReplacerWin.Replace(escaped)
 		buf.WriteString(fmt.Sprintf(
 			traceScriptWin,
 			escaped,
@@ -45,6 +46,16 @@ func setupScriptWin(spec *engine.Spec, dst *engine.Step, src *yaml.Container) {
 	dst.Envs["SHELL"] = "powershell.exe"
 }
 
+// powershell accepts typographic quotes in place of the
+// single quote, all of them are escaped by doubling.
+var quoteReplacerWin = strings.NewReplacer(
+	"'", "''",
+	"\u2018", "\u2018\u2018",
+	"\u2019", "\u2019\u2019",
+	"\u201a", "\u201a\u201a",
+	"\u201b", "\u201b\u201b",
+)
+
 // buildScriptWin is a helper script this is added to the build
 // to prepare the environment and execute the build commands.
 const buildScriptWin = `
-- 
2.43.0


From 75b05e6d04a7a5a7913fb76b966838c5a5d41d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:56 +0000
Subject: [PATCH 21/66] fix: round cpu limits to the nearest millicore instead
 of truncating

---
 yaml/compiler/convert.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yaml/compiler/convert.go b/yaml/compiler/convert.go
index 245c81e..3568b7c 100644
--- a/yaml/compiler/convert.go
+++ b/yaml/compiler/convert.go
@@ -15,6 +15,7 @@
 package compiler
 
 import (
+	"math"
 	"strings"
 
 	"github.com/drone/drone-runtime/engine"
@@ -93,5 +94,5 @@ func toCPUMillis(f float64) int64 {
 	if f > 0 {
 		f *= 1000
 	}
-	return int64(f)
+	return int64(math.Round(f))
 }
-- 
2.43.0


From 5e7899a347f0e25616b2472b6ffc6ac17ee673cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:57 +0000
Subject: [PATCH 22/66] fix: start services without commands in their declared
 working directory

---
 yaml/compiler/compiler.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/yaml/compiler/compiler.go b/yaml/compiler/compiler.go
index f5f0421..6ca8ddb 100644
--- a/yaml/compiler/compiler.go
+++ b/yaml/compiler/compiler.go
@@ -161,6 +161,11 @@ func (c *Compiler) Compile(from *yaml.Pipeline) *engine.Spec {
 		// note that all services are automatically
 		// set to run in detached mode.
 		step.Detach = true
+		// a service with no custom commands uses the
+		// user-defined working directory, if any.
+		if len(service.Commands) == 0 {
+			step.WorkingDir = service.WorkingDir
+		}
 		setupWorkingDir(service, step, workspace)
 		setupWorkspaceEnv(step, base, dir, workspace)
 		c.setupWorkspaceMount(step, base, dir, workspace)
-- 
2.43.0


From 7feba336c099f701a8a0d3ea650bb41180012682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:58 +0000
Subject: [PATCH 23/66] fix: do not share lists between the compiled plan and
 the configuration

---
 yaml/compiler/step.go | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/yaml/compiler/step.go b/yaml/compiler/step.go
index e454540..ec13a70 100644
--- a/yaml/compiler/step.go
+++ b/yaml/compiler/step.go
@@ -34,14 +34,14 @@ func createStep(spec *engine.Spec, src *yaml.Container) *engine.Step {
 			},
 		},
 		Detach:    src.Detach,
-		DependsOn: src.DependsOn,
+		DependsOn: copyStrings(src.DependsOn),
 		Devices:   nil,
 		Docker: &engine.DockerStep{
-			Args:       src.Command,
-			Command:    src.Entrypoint,
-			DNS:        src.DNS,
-			DNSSearch:  src.DNSSearch,
-			ExtraHosts: src.ExtraHosts,
+			Args:       copyStrings(src.Command),
+			Command:    copyStrings(src.Entrypoint),
+			DNS:        copyStrings(src.DNS),
+			DNSSearch:  copyStrings(src.DNSSearch),
+			ExtraHosts: copyStrings(src.ExtraHosts),
 			Image:      image.Expand(src.Image),
 			Network:    src.Network,
 			Networks:   nil, // set in compiler.go
@@ -157,11 +157,11 @@ func createBuildStep(spec *engine.Spec, src *yaml.Container) *engine.Step {
 			},
 		},
 		Detach:    src.Detach,
-		DependsOn: src.DependsOn,
+		DependsOn: copyStrings(src.DependsOn),
 		Devices:   nil,
 		Docker: &engine.DockerStep{
 			Args:       []string{"--build"},
-			DNS:        src.DNS,
+			DNS:        copyStrings(src.DNS),
 			Image:      "drone/docker",
 			PullPolicy: engine.PullIfNotExists,
 		},
@@ -202,3 +202,12 @@ func createBuildStep(spec *engine.Spec, src *yaml.Container) *engine.Step {
 
 	return dst
 }
+
+// helper function returns a copy of the list, so that the
+// compiled step does not share it with the configuration.
+func copyStrings(in []string) []string {
+	if in == nil {
+		return nil
+	}
+	return append(make([]string, 0, len(in)), in...)
+}
-- 
2.43.0


From 13b9b373de9b7391640e9577244078b8c03e367d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:00 +0000
Subject: [PATCH 24/66] fix: compile environment and settings in a fixed order

---
 yaml/compiler/step.go | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/yaml/compiler/step.go b/yaml/compiler/step.go
index ec13a70..4532e96 100644
--- a/yaml/compiler/step.go
+++ b/yaml/compiler/step.go
@@ -15,6 +15,7 @@
 package compiler
 
 import (
+	"sort"
 	"strings"
 
 	"github.com/drone/drone-runtime/engine"
@@ -87,7 +88,8 @@ func createStep(spec *engine.Spec, src *yaml.Container) *engine.Step {
 
 	// appends the environment variables to the
 	// container definition.
-	for key, value := range src.Environment {
+	for _, key := range sortedVariables(src.Environment) {
+		value := src.Environment[key]
 		// fix https://github.com/drone/drone-yaml/issues/13
 		if value == nil {
 			continue
@@ -105,7 +107,8 @@ func createStep(spec *engine.Spec, src *yaml.Container) *engine.Step {
 
 	// appends the settings variables to the
 	// container definition.
-	for key, value := range src.Settings {
+	for _, key := range sortedParams(src.Settings) {
+		value := src.Settings[key]
 		// fix https://github.com/drone/drone-yaml/issues/13
 		if value == nil {
 			continue
@@ -211,3 +214,25 @@ func copyStrings(in []string) []string {
 	}
 	return append(make([]string, 0, len(in)), in...)
 }
+
+// helper function returns the names of the environment
+// variables in a fixed order.
+func sortedVariables(in map[string]*yaml.Variable) []string {
+	var keys []string
+	for key := range in {
+		keys = append(keys, key)
+	}
+	sort.Strings(keys)
+	return keys
+}
+
+// helper function returns the names of the settings in
+// a fixed order.
+func sortedParams(in map[string]*yaml.Parameter) []string {
+	var keys []string
+	for key := range in {
+		keys = append(keys, key)
+	}
+	sort.Strings(keys)
+	return keys
+}
-- 
2.43.0


From 71e8707f524535111239ec81575fdbccc973d8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:18 +0000
Subject: [PATCH 25/66] fix: ignore null volumes and secrets in legacy
 configurations instead of crashing

---
 yaml/converter/legacy/internal/config.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/yaml/converter/legacy/internal/config.go b/yaml/converter/legacy/internal/config.go
index 0eed413..d290615 100644
--- a/yaml/converter/legacy/internal/config.go
+++ b/yaml/converter/legacy/internal/config.go
@@ -342,6 +342,9 @@ func toEnvironment(from *Container) map[string]*droneyaml.Variable {
 		}
 	}
 	for _, val := range from.Secrets.Secrets {
+		if val == nil {
+			continue
+		}
 		name := strings.ToUpper(val.Target)
 		envs[name] = &droneyaml.Variable{
 			Secret: val.Source,
@@ -412,6 +415,9 @@ func toSettings(from map[string]interface{}) map[string]*droneyaml.Parameter {
 func toVolumeMounts(from []*Volume) []*droneyaml.VolumeMount {
 	to := []*droneyaml.VolumeMount{}
 	for _, v := range from {
+		if v == nil {
+			continue
+		}
 		to = append(to, &droneyaml.VolumeMount{
 			Name:      fmt.Sprintf("%x", v.Source),
 			MountPath: v.Destination,
@@ -432,6 +438,9 @@ func toVolumes(from *Config) []*droneyaml.Volume {
 
 	for _, container := range containers {
 		for _, v := range container.Volumes {
+			if v == nil {
+				continue
+			}
 			name := fmt.Sprintf("%x", v.Source)
 			if _, ok := set[name]; ok {
 				continue
-- 
2.43.0


From 069e8c38c38a8327c7a3d86cc44774825b7b55f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:19 +0000
Subject: [PATCH 26/66] fix: declare the volumes mounted by a legacy clone step

---
 yaml/converter/legacy/internal/config.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yaml/converter/legacy/internal/config.go b/yaml/converter/legacy/internal/config.go
index d290615..9f8dbe1 100644
--- a/yaml/converter/legacy/internal/config.go
+++ b/yaml/converter/legacy/internal/config.go
@@ -433,6 +433,7 @@ func toVolumes(from *Config) []*droneyaml.Volume {
 	to := []*droneyaml.Volume{}
 
 	containers := []*Container{}
+	containers = append(containers, from.Clone.Containers...)
 	containers = append(containers, from.Pipeline.Containers...)
 	containers = append(containers, from.Services.Containers...)
 
-- 
2.43.0


From 18a1819dc4125db1e12d4ce2636616875ccef461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:33 +0000
Subject: [PATCH 27/66] fix: expand a legacy matrix in a fixed order and ignore
 keys without values

---
 yaml/converter/legacy/internal/config.go | 5 ++++-
 yaml/converter/legacy/matrix/matrix.go   | 8 ++++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/yaml/converter/legacy/internal/config.go b/yaml/converter/legacy/internal/config.go
index 9f8dbe1..b64d7a0 100644
--- a/yaml/converter/legacy/internal/config.go
+++ b/yaml/converter/legacy/internal/config.go
@@ -182,13 +182,16 @@ func Convert(d []byte, remote string) ([]byte, error) {
 		pipeline.PullSecrets = []string{".dockerconfigjson"}
 	}
 
+	var axes []matrix.Axis
 	if from.Matrix != nil {
-		axes, err := matrix.Parse(d)
+		axes, err = matrix.Parse(d)
 
 		if err != nil {
 			return nil, err
 		}
+	}
 
+	if len(axes) != 0 {
 		for index, environ := range axes {
 			current := pipeline
 			current.Name = fmt.Sprintf("matrix-%d", index+1)
diff --git a/yaml/converter/legacy/matrix/matrix.go b/yaml/converter/legacy/matrix/matrix.go
index 112dd1b..4d0b082 100644
--- a/yaml/converter/legacy/matrix/matrix.go
+++ b/yaml/converter/legacy/matrix/matrix.go
@@ -5,6 +5,7 @@
 package matrix
 
 import (
+	"sort"
 	"strings"
 
 	"github.com/buildkite/yaml"
@@ -28,6 +29,7 @@ func (a Axis) String() string {
 	for k, v := range a {
 		envs = append(envs, k+"="+v)
 	}
+	sort.Strings(envs)
 	return strings.Join(envs, " ")
 }
 
@@ -63,12 +65,18 @@ func calc(matrix Matrix) []Axis {
 	var perm int
 	var tags []string
 	for k, v := range matrix {
+		// a tag without values does not contribute.
+		if len(v) == 0 {
+			continue
+		}
 		perm *= len(v)
 		if perm == 0 {
 			perm = len(v)
 		}
 		tags = append(tags, k)
 	}
+	// the order of the axis must not depend on the map.
+	sort.Strings(tags)
 
 	// structure to hold the transformed result set
 	axisList := []Axis{}
-- 
2.43.0


From cb62929a552f74436266b8559c4892bf214a5d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:16 +0000
Subject: [PATCH 28/66] fix: keep a legacy step with several matrix conditions
 once, when all of them match

---
 yaml/converter/legacy/internal/config.go | 33 ++++++++++--------------
 1 file changed, 13 insertions(+), 20 deletions(-)

diff --git a/yaml/converter/legacy/internal/config.go b/yaml/converter/legacy/internal/config.go
index b64d7a0..e83d29e 100644
--- a/yaml/converter/legacy/internal/config.go
+++ b/yaml/converter/legacy/internal/config.go
@@ -198,34 +198,16 @@ func Convert(d []byte, remote string) ([]byte, error) {
 
 			services := make([]*droneyaml.Container, 0)
 			for _, service := range current.Services {
-				if len(service.When.Matrix) == 0 {
+				if matchMatrix(service.When.Matrix, environ) {
 					services = append(services, service)
-					continue
-				}
-
-				for whenKey, whenValue := range service.When.Matrix {
-					for envKey, envValue := range environ {
-						if whenKey == envKey && whenValue == envValue {
-							services = append(services, service)
-						}
-					}
 				}
 			}
 			current.Services = services
 
 			steps := make([]*droneyaml.Container, 0)
 			for _, step := range current.Steps {
-				if len(step.When.Matrix) == 0 {
+				if matchMatrix(step.When.Matrix, environ) {
 					steps = append(steps, step)
-					continue
-				}
-
-				for whenKey, whenValue := range step.When.Matrix {
-					for envKey, envValue := range environ {
-						if whenKey == envKey && whenValue == envValue {
-							steps = append(steps, step)
-						}
-					}
 				}
 			}
 			current.Steps = steps
@@ -479,6 +461,17 @@ func toWorkspacePath(link string) string {
 }
 
 // helper function returns true if the slice the string.
+// helper function returns true if the axis has the values of
+// all matrix conditions.
+func matchMatrix(when map[string]string, axis matrix.Axis) bool {
+	for key, value := range when {
+		if got, ok := axis[key]; !ok || got != value {
+			return false
+		}
+	}
+	return true
+}
+
 func sliceContains(match string, items []string) bool {
 	for _, item := range items {
 		if item == match {
-- 
2.43.0


From fb19e50f9a8e5964dfa309ddca40667ba9a9e796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:32 +0000
Subject: [PATCH 29/66] fix: substitute legacy matrix values so that they
 cannot alter the document

---
 yaml/converter/legacy/internal/config.go | 54 +++++++++++++++++++++---
 1 file changed, 47 insertions(+), 7 deletions(-)

diff --git a/yaml/converter/legacy/internal/config.go b/yaml/converter/legacy/internal/config.go
index e83d29e..d89f2a5 100644
--- a/yaml/converter/legacy/internal/config.go
+++ b/yaml/converter/legacy/internal/config.go
@@ -218,17 +218,21 @@ func Convert(d []byte, remote string) ([]byte, error) {
 				return nil, err
 			}
 
-			transformed := string(marshaled)
+			// the values are replaced in the decoded document, so
+			// that they cannot alter its structure.
+			var document interface{}
 
-			for key, value := range environ {
-				if strings.Contains(value, "\n") {
-					value = fmt.Sprintf("%q", value)
-				}
+			if err := yaml.Unmarshal(marshaled, &document); err != nil {
+				return nil, err
+			}
 
-				transformed = strings.Replace(transformed, fmt.Sprintf("${%s}", key), value, -1)
+			marshaled, err = yaml.Marshal(substitute(document, axisReplacer(environ)))
+
+			if err != nil {
+				return nil, err
 			}
 
-			if err := yaml.Unmarshal([]byte(transformed), &current); err != nil {
+			if err := yaml.Unmarshal(marshaled, &current); err != nil {
 				return nil, err
 			}
 
@@ -472,6 +476,42 @@ func matchMatrix(when map[string]string, axis matrix.Axis) bool {
 	return true
 }
 
+// helper function returns a replacer that replaces each
+// reference to a matrix key with its value.
+func axisReplacer(axis matrix.Axis) *strings.Replacer {
+	var keys []string
+	for key := range axis {
+		keys = append(keys, key)
+	}
+	sort.Strings(keys)
+
+	var oldnew []string
+	for _, key := range keys {
+		oldnew = append(oldnew, fmt.Sprintf("${%s}", key), axis[key])
+	}
+	return strings.NewReplacer(oldnew...)
+}
+
+// helper function applies the replacer to every string in
+// the decoded yaml document.
+func substitute(v interface{}, r *strings.Replacer) interface{} {
+	switch v := v.(type) {
+	case string:
+		return r.Replace(v)
+	case []interface{}:
+		for i, item := range v {
+			v[i] = substitute(item, r)
+		}
+	case map[interface{}]interface{}:
+		out := map[interface{}]interface{}{}
+		for key, item := range v {
+			out[substitute(key, r)] = substitute(item, r)
+		}
+		return out
+	}
+	return v
+}
+
 func sliceContains(match string, items []string) bool {
 	for _, item := range items {
 		if item == match {
-- 
2.43.0


From f1413531b8a95e4577ac8900a37f6bebc43d84ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:33 +0000
Subject: [PATCH 30/66] fix: rename duplicate legacy steps until their names
 are unique

---
 yaml/converter/legacy/internal/config.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/yaml/converter/legacy/internal/config.go b/yaml/converter/legacy/internal/config.go
index d89f2a5..94df88a 100644
--- a/yaml/converter/legacy/internal/config.go
+++ b/yaml/converter/legacy/internal/config.go
@@ -137,7 +137,10 @@ func Convert(d []byte, remote string) ([]byte, error) {
 
 	names := map[string]struct{}{}
 	for i, step := range pipeline.Steps {
-		if _, ok := names[step.Name]; ok {
+		for {
+			if _, ok := names[step.Name]; !ok {
+				break
+			}
 			step.Name = fmt.Sprintf("%s_%d", step.Name, i)
 		}
 		names[step.Name] = struct{}{}
-- 
2.43.0


From 749062c93ab06438949b414fdfa145452d293333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:57 +0000
Subject: [PATCH 31/66] fix: keep the order of legacy services and clone steps
 when expanding merge keys

---
 yaml/converter/legacy/internal/yaml.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yaml/converter/legacy/internal/yaml.go b/yaml/converter/legacy/internal/yaml.go
index 0b1d33f..82a4faf 100644
--- a/yaml/converter/legacy/internal/yaml.go
+++ b/yaml/converter/legacy/internal/yaml.go
@@ -12,7 +12,9 @@ import (
 
 type temporary struct {
 	Attributes map[string]interface{} `yaml:",inline"`
+	Clone      yaml.MapSlice          `yaml:"clone,omitempty"`
 	Pipeline   yaml.MapSlice          `yaml:"pipeline"`
+	Services   yaml.MapSlice          `yaml:"services,omitempty"`
 }
 
 // this is a helper function that expands merge keys
-- 
2.43.0


From 7f61bec557322de9b225b4ebb8d8eba85e9bb54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:58 +0000
Subject: [PATCH 32/66] fix: keep the spelling of legacy matrix values when
 expanding merge keys

---
 yaml/converter/legacy/internal/config.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/yaml/converter/legacy/internal/config.go b/yaml/converter/legacy/internal/config.go
index 94df88a..9e539bc 100644
--- a/yaml/converter/legacy/internal/config.go
+++ b/yaml/converter/legacy/internal/config.go
@@ -45,6 +45,7 @@ func Convert(d []byte, remote string) ([]byte, error) {
 	// hack: this is a hack to support teams migrating
 	// from 0.8 to 1.0 that are using yaml merge keys.
 	// it can be removed in a future version.
+	source := d
 	if hasMergeKeys(d) {
 		d, _ = expandMergeKeys(d)
 	}
@@ -187,7 +188,9 @@ func Convert(d []byte, remote string) ([]byte, error) {
 
 	var axes []matrix.Axis
 	if from.Matrix != nil {
-		axes, err = matrix.Parse(d)
+		// the expanded document does not keep the spelling
+		// of numbers (e.g. 1.10).
+		axes, err = matrix.Parse(source)
 
 		if err != nil {
 			return nil, err
-- 
2.43.0


From d2d8355ae1390da73fd5ca363636ce16d39e0c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:00 +0000
Subject: [PATCH 33/66] fix: convert gitlab jobs in a fixed order and ignore
 null jobs and services

---
 yaml/converter/gitlab/convert.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/yaml/converter/gitlab/convert.go b/yaml/converter/gitlab/convert.go
index 7a19938..9019dec 100644
--- a/yaml/converter/gitlab/convert.go
+++ b/yaml/converter/gitlab/convert.go
@@ -6,6 +6,7 @@ package gitlab
 
 import (
 	"bytes"
+	"sort"
 	"strings"
 
 	droneyaml "github.com/drone/drone-yaml/yaml"
@@ -25,12 +26,21 @@ func Convert(b []byte) ([]byte, error) {
 	}
 	manifest := &droneyaml.Manifest{}
 
+	// jobs are converted in the order of their names.
+	var names []string
+	for name, job := range config.Jobs {
+		if job != nil {
+			names = append(names, name)
+		}
+	}
+	sort.Strings(names)
+
 	// if no stages are defined, we create a single,
 	// default stage that will be used for all jobs.
 	if len(config.Stages) == 0 {
-		for name, job := range config.Jobs {
+		for _, name := range names {
 			config.Stages = append(config.Stages, name)
-			job.Stage = name
+			config.Jobs[name].Stage = name
 		}
 	}
 
@@ -41,7 +51,8 @@ func Convert(b []byte) ([]byte, error) {
 		pipeline.Name = stage
 		pipeline.Kind = droneyaml.KindPipeline
 		manifest.Resources = append(manifest.Resources, pipeline)
-		for name, job := range config.Jobs {
+		for _, name := range names {
+			job := config.Jobs[name]
 			if job.Stage != stage {
 				continue
 			}
@@ -76,6 +87,9 @@ func Convert(b []byte) ([]byte, error) {
 		}
 
 		for _, step := range config.Services {
+			if step == nil {
+				continue
+			}
 			step := &droneyaml.Container{
 				Name:       step.Alias,
 				Image:      step.Name,
-- 
2.43.0


From a271e2fa4ea35e55a53c0fccd8ac67fc34ed12db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:02 +0000
Subject: [PATCH 34/66] fix: read allow_failure of gitlab jobs

---
 yaml/converter/gitlab/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaml/converter/gitlab/config.go b/yaml/converter/gitlab/config.go
index bab4c04..f97db3b 100644
--- a/yaml/converter/gitlab/config.go
+++ b/yaml/converter/gitlab/config.go
@@ -87,7 +87,7 @@ type (
 
 		// Allow job to fail. Failed job doesn’t contribute
 		// to commit status
-		AllowFailure bool
+		AllowFailure bool `yaml:"allow_failure"`
 
 		// Define when to run job. Can be on_success, on_failure,
 		// always or manual
-- 
2.43.0


From 68c6c184b9600794974ce23af7c640a2545500a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:26 +0000
Subject: [PATCH 35/66] fix: convert bitbucket services in a fixed order and
 ignore null steps and services

---
 yaml/converter/bitbucket/config.go  |  4 ++++
 yaml/converter/bitbucket/convert.go | 11 ++++++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/yaml/converter/bitbucket/config.go b/yaml/converter/bitbucket/config.go
index a27c25b..90228c7 100644
--- a/yaml/converter/bitbucket/config.go
+++ b/yaml/converter/bitbucket/config.go
@@ -102,6 +102,10 @@ func (s *Stage) UnmarshalYAML(unmarshal func(interface{}) error) error {
 		return err
 	}
 	for _, step := range in {
+		// ignore entries that are not steps (e.g. parallel).
+		if step.Step == nil {
+			continue
+		}
 		s.Steps = append(s.Steps, step.Step)
 	}
 	return nil
diff --git a/yaml/converter/bitbucket/convert.go b/yaml/converter/bitbucket/convert.go
index a365ce1..efebc1d 100644
--- a/yaml/converter/bitbucket/convert.go
+++ b/yaml/converter/bitbucket/convert.go
@@ -7,6 +7,7 @@ package bitbucket
 import (
 	"bytes"
 	"fmt"
+	"sort"
 
 	droneyaml "github.com/drone/drone-yaml/yaml"
 	"github.com/drone/drone-yaml/yaml/pretty"
@@ -59,8 +60,16 @@ func Convert(b []byte, ref string) ([]byte, error) {
 	// services
 	//
 
+	var names []string
 	for name, from := range config.Definitions.Services {
-		to := toContainer(from)
+		if from != nil {
+			names = append(names, name)
+		}
+	}
+	sort.Strings(names)
+
+	for _, name := range names {
+		to := toContainer(config.Definitions.Services[name])
 		to.Name = name
 		pipeline.Services = append(pipeline.Services, to)
 	}
-- 
2.43.0


From 7f6f12425086f9d67bfe0fa7f78e86a9a476d31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:27 +0000
Subject: [PATCH 36/66] fix: select the bitbucket pipeline in a fixed order and
 by the kind of the ref

---
 yaml/converter/bitbucket/config.go | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/yaml/converter/bitbucket/config.go b/yaml/converter/bitbucket/config.go
index 90228c7..5088da6 100644
--- a/yaml/converter/bitbucket/config.go
+++ b/yaml/converter/bitbucket/config.go
@@ -6,6 +6,7 @@ package bitbucket
 
 import (
 	"path"
+	"sort"
 	"strings"
 )
 
@@ -74,16 +75,16 @@ type (
 // or tag, the default pipeline is returned.
 func (c *Config) Pipeline(ref string) Stage {
 	// match pipeline by tag name
-	tag := strings.TrimPrefix(ref, "refs/tags/")
-	for pattern, pipeline := range c.Pipelines.Tags {
-		if ok, _ := path.Match(pattern, tag); ok {
+	if !strings.HasPrefix(ref, "refs/heads/") {
+		tag := strings.TrimPrefix(ref, "refs/tags/")
+		if pipeline, ok := match(c.Pipelines.Tags, tag); ok {
 			return pipeline
 		}
 	}
 	// match pipeline by branch name
-	branch := strings.TrimPrefix(ref, "refs/heads/")
-	for pattern, pipeline := range c.Pipelines.Branches {
-		if ok, _ := path.Match(pattern, branch); ok {
+	if !strings.HasPrefix(ref, "refs/tags/") {
+		branch := strings.TrimPrefix(ref, "refs/heads/")
+		if pipeline, ok := match(c.Pipelines.Branches, branch); ok {
 			return pipeline
 		}
 	}
@@ -91,6 +92,23 @@ func (c *Config) Pipeline(ref string) Stage {
 	return c.Pipelines.Default
 }
 
+// helper function returns the stage whose pattern matches
+// the name. If several patterns match, the first one in
+// alphabetical order is used.
+func match(stages map[string]Stage, name string) (Stage, bool) {
+	var patterns []string
+	for pattern := range stages {
+		patterns = append(patterns, pattern)
+	}
+	sort.Strings(patterns)
+	for _, pattern := range patterns {
+		if ok, _ := path.Match(pattern, name); ok {
+			return stages[pattern], true
+		}
+	}
+	return Stage{}, false
+}
+
 // UnmarshalYAML implements custom parsing for the stage section of the yaml
 // to cleanup the structure a bit.
 func (s *Stage) UnmarshalYAML(unmarshal func(interface{}) error) error {
-- 
2.43.0


From c7b844a2e0175816ff407c11c25846ecd35b9163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:37 +0000
Subject: [PATCH 37/66] fix: let convert --save save the converted
 configuration

---
 main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.go b/main.go
index 9dd0627..3baad89 100644
--- a/main.go
+++ b/main.go
@@ -114,7 +114,7 @@ func runConvert() error {
 	if err != nil {
 		return err
 	}
-	if *formatSave {
+	if *convertSave {
 		return ioutil.WriteFile(f.Name(), b, 0644)
 	}
 	_, err = io.Copy(os.Stderr, bytes.NewReader(b))
-- 
2.43.0


From 6761520304d143d227aa752b639aba57abcffef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:38 +0000
Subject: [PATCH 38/66] fix: report an error if the signature cannot be written
 to the output

---
 main.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/main.go b/main.go
index 3baad89..414e69c 100644
--- a/main.go
+++ b/main.go
@@ -157,8 +157,8 @@ func runSign() error {
 	if err != nil {
 		return err
 	}
-	fmt.Println(hmac)
-	return nil
+	_, err = fmt.Println(hmac)
+	return err
 }
 
 func runVerify() error {
@@ -176,8 +176,8 @@ func runVerify() error {
 		return errors.New("cannot verify yaml signature")
 	}
 
-	fmt.Println("success: yaml signature verified")
-	return nil
+	_, err = fmt.Println("success: yaml signature verified")
+	return err
 }
 
 var (
-- 
2.43.0


From d36dd2d38814f6e037a0e0c238a0ed3e844be259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:32 +0000
Subject: [PATCH 39/66] fix: service dependencies no longer let steps run
 before the clone step

---
 yaml/compiler/compiler.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/yaml/compiler/compiler.go b/yaml/compiler/compiler.go
index 6ca8ddb..8ca2fa1 100644
--- a/yaml/compiler/compiler.go
+++ b/yaml/compiler/compiler.go
@@ -78,6 +78,14 @@ func (c *Compiler) Compile(from *yaml.Pipeline) *engine.Spec {
 			break
 		}
 	}
+	// a service with dependencies turns the plan into a
+	// graph just the same.
+	for _, service := range from.Services {
+		if len(service.DependsOn) != 0 {
+			isSerial = false
+			break
+		}
+	}
 
 	spec := &engine.Spec{
 		Metadata: engine.Metadata{
-- 
2.43.0


From 72517e4e2ec969469c27d2d2433a9d7da3c550c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:34 +0000
Subject: [PATCH 40/66] fix: script files have unique names and never resolve
 to the credentials file

---
 yaml/compiler/script_posix.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/yaml/compiler/script_posix.go b/yaml/compiler/script_posix.go
index 1628326..cc93f2d 100644
--- a/yaml/compiler/script_posix.go
+++ b/yaml/compiler/script_posix.go
@@ -40,16 +40,18 @@ func setupScript(spec *engine.Spec, dst *engine.Step, src *yaml.Container) {
 		buildScript,
 		buf.String(),
 	)
+	// the file is looked up by name, which must therefore
+	// be unique across all files of the specification.
 	spec.Files = append(spec.Files, &engine.File{
 		Metadata: engine.Metadata{
 			UID:       rand.String(),
 			Namespace: spec.Metadata.Namespace,
-			Name:      src.Name,
+			Name:      dst.Metadata.UID,
 		},
 		Data: []byte(script),
 	})
 	dst.Files = append(dst.Files, &engine.FileMount{
-		Name: src.Name,
+		Name: dst.Metadata.UID,
 		Path: "/usr/drone/bin/init",
 		Mode: 0777,
 	})
-- 
2.43.0


From 4b8304768500510a849fe4390f6e61fdda77989d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:28 +0000
Subject: [PATCH 41/66] fix: the short image name always stands for the same
 repository

---
 yaml/compiler/image/image.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/yaml/compiler/image/image.go b/yaml/compiler/image/image.go
index 52dc3e4..048e5d7 100644
--- a/yaml/compiler/image/image.go
+++ b/yaml/compiler/image/image.go
@@ -27,7 +27,13 @@ func Trim(name string) string {
 		return name
 	}
 	named = reference.TrimNamed(named)
-	return reference.FamiliarName(named)
+	// the familiar name must stand for the same repository,
+	// else (e.g. docker.io/gcr.io/image) use the full name.
+	short := reference.FamiliarName(named)
+	if back, err := reference.ParseNormalizedNamed(short); err != nil || back.String() != named.String() {
+		return named.String()
+	}
+	return short
 }
 
 // Expand returns the fully qualified image name.
-- 
2.43.0


From 640d443a0530b1d6e75460c0c4a32cda2016b972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:39 +0000
Subject: [PATCH 42/66] fix: resolving secrets does not change the secrets of
 other pipelines

---
 yaml/compiler/transform/secret.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/yaml/compiler/transform/secret.go b/yaml/compiler/transform/secret.go
index 439dfb3..5b9503a 100644
--- a/yaml/compiler/transform/secret.go
+++ b/yaml/compiler/transform/secret.go
@@ -65,11 +65,13 @@ func WithSecretFunc(f SecretFunc) func(*engine.Spec) {
 		// get the value for each secret, and append
 		// to the specification.
 		for name := range set {
-			secret := f(name)
-			if secret != nil {
+			if from := f(name); from != nil {
+				// the secret is copied because the callback may
+				// return the same secret for other pipelines.
+				secret := *from
 				secret.Metadata.UID = rand.String()
 				secret.Metadata.Namespace = spec.Metadata.Namespace
-				spec.Secrets = append(spec.Secrets, secret)
+				spec.Secrets = append(spec.Secrets, &secret)
 			}
 		}
 	}
-- 
2.43.0


From e6090b6b3f24c2abc782433fe42d94fde2f56ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:04 +0000
Subject: [PATCH 43/66] fix: a host path can be mounted at more than one path

---
 yaml/compiler/transform/volume.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/yaml/compiler/transform/volume.go b/yaml/compiler/transform/volume.go
index 8268310..f009311 100644
--- a/yaml/compiler/transform/volume.go
+++ b/yaml/compiler/transform/volume.go
@@ -53,15 +53,22 @@ func WithVolumes(volumes map[string]string) func(*engine.Spec) {
 // of global volumes to the container that are defined in
 // --volume=host:container format.
 func WithVolumeSlice(volumes []string) func(*engine.Spec) {
-	to := map[string]string{}
+	// one transform per volume, because the same host path
+	// may be mounted at more than one path.
+	var fns []func(*engine.Spec)
+	set := map[string]struct{}{}
 	for _, s := range volumes {
 		parts := strings.Split(s, ":")
 		if len(parts) != 2 {
 			continue
 		}
+		if _, ok := set[s]; ok {
+			continue
+		}
+		set[s] = struct{}{}
 		key := parts[0]
 		val := parts[1]
-		to[key] = val
+		fns = append(fns, WithVolumes(map[string]string{key: val}))
 	}
-	return WithVolumes(to)
+	return Combine(fns...)
 }
-- 
2.43.0


From db370dfc103ecda5195857e168d3c1eff0813458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:44 +0000
Subject: [PATCH 44/66] fix: hidden gitlab jobs and the gitlab cache are not
 converted to steps

---
 yaml/converter/gitlab/config.go  | 4 ++++
 yaml/converter/gitlab/convert.go | 5 +++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/yaml/converter/gitlab/config.go b/yaml/converter/gitlab/config.go
index f97db3b..472315b 100644
--- a/yaml/converter/gitlab/config.go
+++ b/yaml/converter/gitlab/config.go
@@ -38,6 +38,10 @@ type (
 		// last job.
 		After internal.StringSlice `yaml:"after_script"`
 
+		// Cache defines the files that are cached between
+		// jobs. It is not used, and is not a job.
+		Cache interface{}
+
 		// Jobs is used to define individual units
 		// of execution that make up a stage.
 		Jobs map[string]*Job `yaml:",inline"`
diff --git a/yaml/converter/gitlab/convert.go b/yaml/converter/gitlab/convert.go
index 9019dec..04ffbea 100644
--- a/yaml/converter/gitlab/convert.go
+++ b/yaml/converter/gitlab/convert.go
@@ -26,10 +26,11 @@ func Convert(b []byte) ([]byte, error) {
 	}
 	manifest := &droneyaml.Manifest{}
 
-	// jobs are converted in the order of their names.
+	// jobs are converted in the order of their names. Jobs
+	// that start with a dot are hidden (e.g. templates).
 	var names []string
 	for name, job := range config.Jobs {
-		if job != nil {
+		if job != nil && !strings.HasPrefix(name, ".") {
 			names = append(names, name)
 		}
 	}
-- 
2.43.0


From 77d59c1b6e7ef62eeef145882f27bf3c8dc7c008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:50 +0000
Subject: [PATCH 45/66] fix: a legacy configuration whose merge keys cannot be
 expanded is refused

---
 yaml/converter/legacy/internal/config.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/yaml/converter/legacy/internal/config.go b/yaml/converter/legacy/internal/config.go
index 9e539bc..58a5a42 100644
--- a/yaml/converter/legacy/internal/config.go
+++ b/yaml/converter/legacy/internal/config.go
@@ -47,7 +47,14 @@ func Convert(d []byte, remote string) ([]byte, error) {
 	// it can be removed in a future version.
 	source := d
 	if hasMergeKeys(d) {
-		d, _ = expandMergeKeys(d)
+		expanded, err := expandMergeKeys(d)
+
+		// without the expansion, the merged keys would be
+		// missing from the converted configuration.
+		if err != nil {
+			return nil, err
+		}
+		d = expanded
 	}
 
 	from := new(Config)
-- 
2.43.0


From 1cc2f62ac7f0b821ee0cdf4b76ea2a0336b7f44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:17 +0000
Subject: [PATCH 46/66] fix: a legacy configuration that merges a mapping into
 itself is refused instead of crashing

---
 yaml/converter/legacy/internal/yaml.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/yaml/converter/legacy/internal/yaml.go b/yaml/converter/legacy/internal/yaml.go
index 82a4faf..c8b6a9c 100644
--- a/yaml/converter/legacy/internal/yaml.go
+++ b/yaml/converter/legacy/internal/yaml.go
@@ -6,6 +6,7 @@ package yaml
 
 import (
 	"bytes"
+	"fmt"
 
 	"github.com/vinzenz/yaml"
 )
@@ -18,7 +19,14 @@ type temporary struct {
 }
 
 // this is a helper function that expands merge keys
-func expandMergeKeys(b []byte) ([]byte, error) {
+func expandMergeKeys(b []byte) (out []byte, err error) {
+	// the yaml library panics if a mapping merges itself.
+	defer func() {
+		if r := recover(); r != nil {
+			out, err = b, fmt.Errorf("yaml: cannot expand merge keys: %v", r)
+		}
+	}()
+
 	v := new(temporary)
 	if err := yaml.Unmarshal(b, v); err != nil {
 		return b, err
-- 
2.43.0


From 88c23c6eb4f8089567f5177c781cb0ad0a8b369d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:39 +0000
Subject: [PATCH 47/66] fix: a comment at the end of a windows command no
 longer hides its exit-code check

---
 yaml/compiler/script_win.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yaml/compiler/script_win.go b/yaml/compiler/script_win.go
index 88f5b13..43b01ad 100644
--- a/yaml/compiler/script_win.go
+++ b/yaml/compiler/script_win.go
@@ -79,5 +79,6 @@ $ErrorActionPreference = 'Stop';
 // the build script to trace a command.
 const traceScriptWin = `
 Write-Output ('+ %s');
-& %s; if ($LASTEXITCODE -ne 0) {exit $LASTEXITCODE}
+& %s
+if ($LASTEXITCODE -ne 0) {exit $LASTEXITCODE}
 `
-- 
2.43.0


From 2f07b8648d0ecb7e604308107201aab6c7b776e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:53 +0000
Subject: [PATCH 48/66] fix: matrix values that make two keys equal no longer
 leave the choice to map order

---
 yaml/converter/legacy/internal/config.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/yaml/converter/legacy/internal/config.go b/yaml/converter/legacy/internal/config.go
index 58a5a42..6c7c5b1 100644
--- a/yaml/converter/legacy/internal/config.go
+++ b/yaml/converter/legacy/internal/config.go
@@ -516,9 +516,18 @@ func substitute(v interface{}, r *strings.Replacer) interface{} {
 			v[i] = substitute(item, r)
 		}
 	case map[interface{}]interface{}:
+		// the keys are replaced in order, because two of them
+		// may become the same.
+		var keys []interface{}
+		for key := range v {
+			keys = append(keys, key)
+		}
+		sort.Slice(keys, func(i, j int) bool {
+			return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j])
+		})
 		out := map[interface{}]interface{}{}
-		for key, item := range v {
-			out[substitute(key, r)] = substitute(item, r)
+		for _, key := range keys {
+			out[substitute(key, r)] = substitute(v[key], r)
 		}
 		return out
 	}
-- 
2.43.0


From 7529743a6263f3452631d18de1b975157f0d3c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:54 +0000
Subject: [PATCH 49/66] fix: settings with nested values survive the json
 encoding of a manifest

---
 yaml/param.go | 88 +++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 88 insertions(+)

diff --git a/yaml/param.go b/yaml/param.go
index 9167d6a..9a1e376 100644
--- a/yaml/param.go
+++ b/yaml/param.go
@@ -14,6 +14,14 @@
 
 package yaml
 
+import (
+	"bytes"
+	"encoding/json"
+	"fmt"
+	"sort"
+	"strconv"
+)
+
 type (
 	// Parameter represents an configuration parameter that
 	// can be defined as a literal or as a reference
@@ -53,3 +61,83 @@ func (p *Parameter) MarshalYAML() (interface{}, error) {
 	}
 	return p.Value, nil
 }
+
+// MarshalJSON implements json marshalling.
+func (p *Parameter) MarshalJSON() ([]byte, error) {
+	type plain Parameter
+	return json.Marshal(&plain{
+		Value:  toJSON(p.Value),
+		Secret: p.Secret,
+	})
+}
+
+// UnmarshalJSON implements json unmarshalling.
+func (p *Parameter) UnmarshalJSON(b []byte) error {
+	type plain Parameter
+	d := json.NewDecoder(bytes.NewReader(b))
+	d.UseNumber()
+	if err := d.Decode((*plain)(p)); err != nil {
+		return err
+	}
+	p.Value = fromJSON(p.Value)
+	return nil
+}
+
+// helper function returns the value with string keys only,
+// because the json encoder does not support other keys.
+func toJSON(v interface{}) interface{} {
+	switch v := v.(type) {
+	case []interface{}:
+		out := make([]interface{}, len(v))
+		for i, item := range v {
+			out[i] = toJSON(item)
+		}
+		return out
+	case map[interface{}]interface{}:
+		// keys may have the same text (e.g. 1 and "1").
+		var keys []interface{}
+		for key := range v {
+			keys = append(keys, key)
+		}
+		sort.Slice(keys, func(i, j int) bool {
+			return fmt.Sprintf("%T", keys[i]) < fmt.Sprintf("%T", keys[j])
+		})
+		out := make(map[string]interface{}, len(v))
+		for _, key := range keys {
+			name := "null"
+			if key != nil {
+				name = fmt.Sprint(key)
+			}
+			out[name] = toJSON(v[key])
+		}
+		return out
+	default:
+		return v
+	}
+}
+
+// helper function returns the decoded json value with the
+// types of a decoded yaml value.
+func fromJSON(v interface{}) interface{} {
+	switch v := v.(type) {
+	case json.Number:
+		if i, err := strconv.Atoi(v.String()); err == nil {
+			return i
+		}
+		f, _ := v.Float64()
+		return f
+	case []interface{}:
+		for i, item := range v {
+			v[i] = fromJSON(item)
+		}
+		return v
+	case map[string]interface{}:
+		out := make(map[interface{}]interface{}, len(v))
+		for key, item := range v {
+			out[key] = fromJSON(item)
+		}
+		return out
+	default:
+		return v
+	}
+}
-- 
2.43.0


From 3a093a61d336124f8a2c44ca45fe14f0bfe1b936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:56 +0000
Subject: [PATCH 50/66] fix: legacy: matrix configurations with the text null
 in a variable or setting are converted

---
 yaml/converter/legacy/internal/config.go | 80 +++++++++++-------------
 1 file changed, 38 insertions(+), 42 deletions(-)

diff --git a/yaml/converter/legacy/internal/config.go b/yaml/converter/legacy/internal/config.go
index 6c7c5b1..6d74a1b 100644
--- a/yaml/converter/legacy/internal/config.go
+++ b/yaml/converter/legacy/internal/config.go
@@ -10,6 +10,7 @@ import (
 	"net/url"
 	"os"
 	"path/filepath"
+	"reflect"
 	"sort"
 	"strings"
 
@@ -225,31 +226,11 @@ func Convert(d []byte, remote string) ([]byte, error) {
 			}
 			current.Steps = steps
 
-			marshaled, err := yaml.Marshal(&current)
+			// the values are replaced in a copy of the pipeline,
+			// so that they cannot alter its structure.
+			replaced := substitute(reflect.ValueOf(&current), axisReplacer(environ))
 
-			if err != nil {
-				return nil, err
-			}
-
-			// the values are replaced in the decoded document, so
-			// that they cannot alter its structure.
-			var document interface{}
-
-			if err := yaml.Unmarshal(marshaled, &document); err != nil {
-				return nil, err
-			}
-
-			marshaled, err = yaml.Marshal(substitute(document, axisReplacer(environ)))
-
-			if err != nil {
-				return nil, err
-			}
-
-			if err := yaml.Unmarshal(marshaled, &current); err != nil {
-				return nil, err
-			}
-
-			manifest.Resources = append(manifest.Resources, &current)
+			manifest.Resources = append(manifest.Resources, replaced.Interface().(*droneyaml.Pipeline))
 		}
 	} else {
 		manifest.Resources = append(manifest.Resources, &pipeline)
@@ -505,33 +486,48 @@ func axisReplacer(axis matrix.Axis) *strings.Replacer {
 	return strings.NewReplacer(oldnew...)
 }
 
-// helper function applies the replacer to every string in
-// the decoded yaml document.
-func substitute(v interface{}, r *strings.Replacer) interface{} {
-	switch v := v.(type) {
-	case string:
-		return r.Replace(v)
-	case []interface{}:
-		for i, item := range v {
-			v[i] = substitute(item, r)
+// helper function returns a deep copy of the value, with
+// the replacer applied to every string, including map keys.
+func substitute(v reflect.Value, r *strings.Replacer) reflect.Value {
+	out := reflect.New(v.Type()).Elem()
+	switch v.Kind() {
+	case reflect.String:
+		out.SetString(r.Replace(v.String()))
+	case reflect.Ptr:
+		if !v.IsNil() {
+			out.Set(reflect.New(v.Type().Elem()))
+			out.Elem().Set(substitute(v.Elem(), r))
+		}
+	case reflect.Interface:
+		if !v.IsNil() {
+			out.Set(substitute(v.Elem(), r))
+		}
+	case reflect.Struct:
+		out.Set(v)
+		for i := 0; i < v.NumField(); i++ {
+			if field := out.Field(i); field.CanSet() {
+				field.Set(substitute(v.Field(i), r))
+			}
+		}
+	case reflect.Slice:
+		for i := 0; i < v.Len(); i++ {
+			out = reflect.Append(out, substitute(v.Index(i), r))
 		}
-	case map[interface{}]interface{}:
+	case reflect.Map:
 		// the keys are replaced in order, because two of them
 		// may become the same.
-		var keys []interface{}
-		for key := range v {
-			keys = append(keys, key)
-		}
+		keys := v.MapKeys()
 		sort.Slice(keys, func(i, j int) bool {
 			return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j])
 		})
-		out := map[interface{}]interface{}{}
+		out.Set(reflect.MakeMap(v.Type()))
 		for _, key := range keys {
-			out[substitute(key, r)] = substitute(v[key], r)
+			out.SetMapIndex(substitute(key, r), substitute(v.MapIndex(key), r))
 		}
-		return out
+	default:
+		out.Set(v)
 	}
-	return v
+	return out
 }
 
 func sliceContains(match string, items []string) bool {
-- 
2.43.0


From b332ec7a3bf9cda8cc87a0cfb359dbd8cc153f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:58 +0000
Subject: [PATCH 51/66] fix: variables with the text null survive the yaml
 encoding of a manifest

---
 yaml/env.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/yaml/env.go b/yaml/env.go
index c397786..cbc5010 100644
--- a/yaml/env.go
+++ b/yaml/env.go
@@ -50,5 +50,12 @@ func (v *Variable) MarshalYAML() (interface{}, error) {
 		m["from_secret"] = v.Secret
 		return m, nil
 	}
+	// quotes do not prevent the parser from decoding these
+	// values to a nil pointer, the long form does.
+	if v.Value == "null" || v.Value == "~" {
+		m := map[string]interface{}{}
+		m["value"] = v.Value
+		return m, nil
+	}
 	return v.Value, nil
 }
-- 
2.43.0


From 7c0236a2fd80d5218ff2effcf76b2b6ecc534f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:59 +0000
Subject: [PATCH 52/66] fix: compiler: nested settings are encoded in a fixed
 order, whatever their keys

---
 yaml/compiler/encode.go | 49 ++++++++++++++++++++++++++++++++++++-----
 1 file changed, 44 insertions(+), 5 deletions(-)

diff --git a/yaml/compiler/encode.go b/yaml/compiler/encode.go
index 8029656..b1ff188 100644
--- a/yaml/compiler/encode.go
+++ b/yaml/compiler/encode.go
@@ -16,11 +16,13 @@ package compiler
 
 import (
 	"encoding/base64"
+	"encoding/json"
+	"fmt"
+	"sort"
 	"strconv"
 	"strings"
 
 	"github.com/buildkite/yaml"
-	json "github.com/ghodss/yaml"
 )
 
 // helper funciton encodes an interface value as a string.
@@ -48,8 +50,7 @@ func encode(v interface{}) string {
 
 // helper function encodes a parameter in map format.
 func encodeMap(v interface{}) string {
-	yml, _ := yaml.Marshal(v)
-	out, _ := json.YAMLToJSON(yml)
+	out, _ := json.Marshal(stringKeys(v))
 	return string(out)
 }
 
@@ -62,6 +63,44 @@ func encodeSlice(v interface{}) string {
 	if err == nil {
 		return strings.Join(in, ",")
 	}
-	out, _ = json.YAMLToJSON(out)
-	return string(out)
+	return encodeMap(v)
+}
+
+// helper function returns the value with string keys only,
+// because keys with the same text (e.g. 1 and "1") are
+// otherwise encoded to json in a random order.
+func stringKeys(v interface{}) interface{} {
+	switch v := v.(type) {
+	case []interface{}:
+		out := make([]interface{}, len(v))
+		for i, item := range v {
+			out[i] = stringKeys(item)
+		}
+		return out
+	case map[interface{}]interface{}:
+		var keys []interface{}
+		for key := range v {
+			keys = append(keys, key)
+		}
+		sort.Slice(keys, func(i, j int) bool {
+			return fmt.Sprintf("%T", keys[i]) < fmt.Sprintf("%T", keys[j])
+		})
+		out := make(map[string]interface{}, len(v))
+		for _, key := range keys {
+			name := "null"
+			if key != nil {
+				name = fmt.Sprint(key)
+			}
+			out[name] = stringKeys(v[key])
+		}
+		return out
+	case map[string]interface{}:
+		out := make(map[string]interface{}, len(v))
+		for key, item := range v {
+			out[key] = stringKeys(item)
+		}
+		return out
+	default:
+		return v
+	}
 }
-- 
2.43.0


From b8ffc098579360474bf4abfcac5ce7c0fa45b6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:05 +0000
Subject: [PATCH 53/66] fix: legacy: converted steps do not share names with
 services or the clone step

---
 yaml/converter/legacy/internal/config.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/yaml/converter/legacy/internal/config.go b/yaml/converter/legacy/internal/config.go
index 6d74a1b..b59ca96 100644
--- a/yaml/converter/legacy/internal/config.go
+++ b/yaml/converter/legacy/internal/config.go
@@ -144,7 +144,15 @@ func Convert(d []byte, remote string) ([]byte, error) {
 		)
 	}
 
+	// the names of the steps must also be different from those
+	// of the services and of the default clone step.
 	names := map[string]struct{}{}
+	for _, service := range pipeline.Services {
+		names[service.Name] = struct{}{}
+	}
+	if !pipeline.Clone.Disable {
+		names["clone"] = struct{}{}
+	}
 	for i, step := range pipeline.Steps {
 		for {
 			if _, ok := names[step.Name]; !ok {
-- 
2.43.0


From d1e7d1d75702c2e1dfa8b3c659f5a6fdb5ffe9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:06 +0000
Subject: [PATCH 54/66] fix: bitbucket: converted steps have unique names

---
 yaml/converter/bitbucket/convert.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/yaml/converter/bitbucket/convert.go b/yaml/converter/bitbucket/convert.go
index efebc1d..a14efe8 100644
--- a/yaml/converter/bitbucket/convert.go
+++ b/yaml/converter/bitbucket/convert.go
@@ -74,6 +74,24 @@ func Convert(b []byte, ref string) ([]byte, error) {
 		pipeline.Services = append(pipeline.Services, to)
 	}
 
+	//
+	// unique names, which bitbucket does not require
+	//
+
+	used := map[string]struct{}{"clone": struct{}{}}
+	for _, service := range pipeline.Services {
+		used[service.Name] = struct{}{}
+	}
+	for i, step := range pipeline.Steps {
+		for {
+			if _, ok := used[step.Name]; !ok {
+				break
+			}
+			step.Name = fmt.Sprintf("%s_%d", step.Name, i)
+		}
+		used[step.Name] = struct{}{}
+	}
+
 	//
 	// wrap the pipeline in the manifest
 	//
-- 
2.43.0


From a6de58a52aa1a48d822748553dbf5cd6bec04dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:08 +0000
Subject: [PATCH 55/66] fix: gitlab: converted jobs and services have unique
 names

---
 yaml/converter/gitlab/convert.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/yaml/converter/gitlab/convert.go b/yaml/converter/gitlab/convert.go
index 04ffbea..356f6d0 100644
--- a/yaml/converter/gitlab/convert.go
+++ b/yaml/converter/gitlab/convert.go
@@ -6,6 +6,7 @@ package gitlab
 
 import (
 	"bytes"
+	"fmt"
 	"sort"
 	"strings"
 
@@ -103,6 +104,17 @@ func Convert(b []byte) ([]byte, error) {
 			pipeline.Services = append(pipeline.Services, step)
 		}
 
+		// the names of a pipeline must be unique, and must not
+		// be that of the clone step.
+		used := map[string]struct{}{}
+		for i, service := range pipeline.Services {
+			service.Name = uniqueName(used, service.Name, i)
+		}
+		used["clone"] = struct{}{}
+		for i, step := range pipeline.Steps {
+			step.Name = uniqueName(used, step.Name, i)
+		}
+
 		if prevstage != "" {
 			pipeline.DependsOn = []string{prevstage}
 		}
@@ -114,6 +126,17 @@ func Convert(b []byte) ([]byte, error) {
 	return buf.Bytes(), nil
 }
 
+func uniqueName(used map[string]struct{}, name string, i int) string {
+	for {
+		if _, ok := used[name]; !ok {
+			break
+		}
+		name = fmt.Sprintf("%s_%d", name, i)
+	}
+	used[name] = struct{}{}
+	return name
+}
+
 func serviceSlug(s string) string {
 	s = image.Trim(s)
 	s = strings.Replace(s, "/", "__", -1)
-- 
2.43.0


From 9561ba099f486656695a0fdd6df1a79161adf048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:09 +0000
Subject: [PATCH 56/66] fix: gitlab: jobs without a stage belong to the test
 stage

---
 yaml/converter/gitlab/convert.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/yaml/converter/gitlab/convert.go b/yaml/converter/gitlab/convert.go
index 356f6d0..b2d0937 100644
--- a/yaml/converter/gitlab/convert.go
+++ b/yaml/converter/gitlab/convert.go
@@ -44,6 +44,13 @@ func Convert(b []byte) ([]byte, error) {
 			config.Stages = append(config.Stages, name)
 			config.Jobs[name].Stage = name
 		}
+	} else {
+		// jobs without a stage belong to the test stage.
+		for _, name := range names {
+			if job := config.Jobs[name]; job.Stage == "" {
+				job.Stage = "test"
+			}
+		}
 	}
 
 	// create a new pipeline for each stage.
-- 
2.43.0


From 55c9300ab051146311f7dabeaa9213c758de891b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:11 +0000
Subject: [PATCH 57/66] fix: bitbucket: steps of parallel groups are converted

---
 yaml/converter/bitbucket/config.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/yaml/converter/bitbucket/config.go b/yaml/converter/bitbucket/config.go
index 5088da6..39389a7 100644
--- a/yaml/converter/bitbucket/config.go
+++ b/yaml/converter/bitbucket/config.go
@@ -113,18 +113,26 @@ func match(stages map[string]Stage, name string) (Stage, bool) {
 // to cleanup the structure a bit.
 func (s *Stage) UnmarshalYAML(unmarshal func(interface{}) error) error {
 	in := []struct {
-		Step *Step
+		Step     *Step
+		Parallel []struct {
+			Step *Step
+		}
 	}{}
 	err := unmarshal(&in)
 	if err != nil {
 		return err
 	}
-	for _, step := range in {
-		// ignore entries that are not steps (e.g. parallel).
-		if step.Step == nil {
-			continue
+	for _, item := range in {
+		// ignore entries that are not steps.
+		if item.Step != nil {
+			s.Steps = append(s.Steps, item.Step)
+		}
+		// steps that may run in parallel run in sequence.
+		for _, step := range item.Parallel {
+			if step.Step != nil {
+				s.Steps = append(s.Steps, step.Step)
+			}
 		}
-		s.Steps = append(s.Steps, step.Step)
 	}
 	return nil
 }
-- 
2.43.0


From cec6d6ab5e063dc5c822f2c123bdb85eb8377f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:12 +0000
Subject: [PATCH 58/66] fix: bitbucket: variables of services are converted

---
 yaml/converter/bitbucket/convert.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/yaml/converter/bitbucket/convert.go b/yaml/converter/bitbucket/convert.go
index a14efe8..a69435c 100644
--- a/yaml/converter/bitbucket/convert.go
+++ b/yaml/converter/bitbucket/convert.go
@@ -105,9 +105,16 @@ func Convert(b []byte, ref string) ([]byte, error) {
 }
 
 func toContainer(from *Step) *droneyaml.Container {
-	return &droneyaml.Container{
+	to := &droneyaml.Container{
 		Name:     from.Name,
 		Image:    from.Image,
 		Commands: from.Script,
 	}
+	for key, val := range from.Variables {
+		if to.Environment == nil {
+			to.Environment = map[string]*droneyaml.Variable{}
+		}
+		to.Environment[key] = &droneyaml.Variable{Value: val}
+	}
+	return to
 }
-- 
2.43.0


From 8ff4a220697b866603d5b7c3593df04fa81cf012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:13 +0000
Subject: [PATCH 59/66] fix: refuse conditions that are neither a value, a list
 nor include and exclude lists

---
 yaml/cond.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/yaml/cond.go b/yaml/cond.go
index f6716ed..66eebde 100644
--- a/yaml/cond.go
+++ b/yaml/cond.go
@@ -89,8 +89,15 @@ func (c *Condition) UnmarshalYAML(unmarshal func(interface{}) error) error {
 		return nil
 	}
 
-	unmarshal(&out2)
-	unmarshal(&out3)
+	err = unmarshal(&out2)
+	if err != nil {
+		// a value that is neither a list nor a mapping of
+		// lists is invalid, it must not match everything.
+		err = unmarshal(&out3)
+	}
+	if err != nil {
+		return err
+	}
 
 	c.Exclude = out3.Exclude
 	c.Include = append(
-- 
2.43.0


From 28f5bb523a8ef09f69f636c1c94ddf438de2f9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:29 +0000
Subject: [PATCH 60/66] fix: add environment variables to steps that have none

---
 yaml/compiler/transform/env.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/yaml/compiler/transform/env.go b/yaml/compiler/transform/env.go
index c892e75..23e5e24 100644
--- a/yaml/compiler/transform/env.go
+++ b/yaml/compiler/transform/env.go
@@ -22,6 +22,9 @@ func WithEnviron(envs map[string]string) func(*engine.Spec) {
 	return func(spec *engine.Spec) {
 		for key, value := range envs {
 			for _, step := range spec.Steps {
+				if step.Envs == nil {
+					step.Envs = map[string]string{}
+				}
 				step.Envs[key] = value
 			}
 		}
-- 
2.43.0


From cdef784cd4eb9858449c877b34df176c9038b4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:20 +0000
Subject: [PATCH 61/66] fix: refuse lists of containers in legacy
 configurations

---
 yaml/converter/legacy/internal/container.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/yaml/converter/legacy/internal/container.go b/yaml/converter/legacy/internal/container.go
index 460bf82..e4cc4ac 100644
--- a/yaml/converter/legacy/internal/container.go
+++ b/yaml/converter/legacy/internal/container.go
@@ -43,6 +43,13 @@ type (
 
 // UnmarshalYAML implements the Unmarshaller interface.
 func (c *Containers) UnmarshalYAML(unmarshal func(interface{}) error) error {
+	// a list of containers has no names and is not supported,
+	// but it could be decoded to a map slice.
+	var names map[interface{}]interface{}
+	if err := unmarshal(&names); err != nil {
+		return err
+	}
+
 	slice := yaml.MapSlice{}
 	if err := unmarshal(&slice); err != nil {
 		return err
-- 
2.43.0


From 7ec2eb553ca5080bf353d764f73e4861023af475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:14 +0000
Subject: [PATCH 62/66] fix: limit the build matrix before its size overflows

---
 yaml/converter/legacy/matrix/matrix.go | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/yaml/converter/legacy/matrix/matrix.go b/yaml/converter/legacy/matrix/matrix.go
index 4d0b082..e4cc2e8 100644
--- a/yaml/converter/legacy/matrix/matrix.go
+++ b/yaml/converter/legacy/matrix/matrix.go
@@ -69,11 +69,16 @@ func calc(matrix Matrix) []Axis {
 		if len(v) == 0 {
 			continue
 		}
+		tags = append(tags, k)
+		// the number of axis is limited below, the exact
+		// number is not required and could overflow.
+		if perm > limitAxis+1 {
+			continue
+		}
 		perm *= len(v)
 		if perm == 0 {
 			perm = len(v)
 		}
-		tags = append(tags, k)
 	}
 	// the order of the axis must not depend on the map.
 	sort.Strings(tags)
@@ -84,17 +89,17 @@ func calc(matrix Matrix) []Axis {
 	// for each axis calculate the uniqe set of values that should be used.
 	for p := 0; p < perm; p++ {
 		axis := map[string]string{}
-		decr := perm
-		for i, tag := range tags {
-			elems := matrix[tag]
-			decr = decr / len(elems)
-			elem := p / decr % len(elems)
-			axis[tag] = elems[elem]
+		rest := p
+		for i := len(tags) - 1; i >= 0; i-- {
+			elems := matrix[tags[i]]
+			elem := rest % len(elems)
+			rest = rest / len(elems)
 
 			// enforce a maximum number of tags in the build matrix.
-			if i > limitTags {
-				break
+			if i > limitTags+1 {
+				continue
 			}
+			axis[tags[i]] = elems[elem]
 		}
 
 		// append to the list of axis.
-- 
2.43.0


From 6c3ffead5a65e1d47f8cdbaa7b7d5aebbeb5a160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:03 +0000
Subject: [PATCH 63/66] fix: read configuration lines of any length

---
 yaml/parse.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/yaml/parse.go b/yaml/parse.go
index 4fa9d18..229d058 100644
--- a/yaml/parse.go
+++ b/yaml/parse.go
@@ -19,6 +19,7 @@ import (
 	"bytes"
 	"errors"
 	"io"
+	"math"
 	"os"
 	"strings"
 
@@ -103,6 +104,7 @@ func ParseRaw(r io.Reader) ([]*RawResource, error) {
 	var resource *RawResource
 
 	scanner := bufio.NewScanner(r)
+	scanner.Buffer(nil, math.MaxInt32)
 	for scanner.Scan() {
 		line := scanner.Text()
 		if isTerminator(line) {
@@ -130,9 +132,8 @@ func ParseRaw(r io.Reader) ([]*RawResource, error) {
 			newline,
 		)
 	}
-	// a read error, or a line that exceeds the scanner
-	// limits, ends the loop early. The resources are not
-	// complete and should not be returned to the caller.
+	// a read error ends the loop early. The resources are
+	// not complete and should not be returned to the caller.
 	if err := scanner.Err(); err != nil {
 		return nil, err
 	}
-- 
2.43.0


From b1f84f76404e8904d1aa7c45178298a8d29b9d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:53 +0000
Subject: [PATCH 64/66] fix: report malformed documents that crash the yaml
 library

---
 yaml/converter/bitbucket/convert.go      |  5 ++---
 yaml/converter/gitlab/convert.go         |  5 ++---
 yaml/converter/legacy/internal/config.go |  5 ++---
 yaml/converter/legacy/matrix/matrix.go   |  6 +++---
 yaml/internal/decode/decode.go           | 25 ++++++++++++++++++++++++
 yaml/parse.go                            |  6 +++---
 yaml/pretty/util.go                      |  4 ++--
 7 files changed, 39 insertions(+), 17 deletions(-)
 create mode 100644 yaml/internal/decode/decode.go

diff --git a/yaml/converter/bitbucket/convert.go b/yaml/converter/bitbucket/convert.go
index a69435c..efc8fcf 100644
--- a/yaml/converter/bitbucket/convert.go
+++ b/yaml/converter/bitbucket/convert.go
@@ -10,16 +10,15 @@ import (
 	"sort"
 
 	droneyaml "github.com/drone/drone-yaml/yaml"
+	"github.com/drone/drone-yaml/yaml/internal/decode"
 	"github.com/drone/drone-yaml/yaml/pretty"
-
-	"github.com/buildkite/yaml"
 )
 
 // Convert converts the yaml configuration file from
 // the legacy format to the 1.0+ format.
 func Convert(b []byte, ref string) ([]byte, error) {
 	config := new(Config)
-	err := yaml.Unmarshal(b, config)
+	err := decode.Unmarshal(b, config)
 	if err != nil {
 		return nil, err
 	}
diff --git a/yaml/converter/gitlab/convert.go b/yaml/converter/gitlab/convert.go
index b2d0937..2532594 100644
--- a/yaml/converter/gitlab/convert.go
+++ b/yaml/converter/gitlab/convert.go
@@ -12,16 +12,15 @@ import (
 
 	droneyaml "github.com/drone/drone-yaml/yaml"
 	"github.com/drone/drone-yaml/yaml/compiler/image"
+	"github.com/drone/drone-yaml/yaml/internal/decode"
 	"github.com/drone/drone-yaml/yaml/pretty"
-
-	"github.com/buildkite/yaml"
 )
 
 // Convert converts the yaml configuration file from
 // the legacy format to the 1.0+ format.
 func Convert(b []byte) ([]byte, error) {
 	config := new(Config)
-	err := yaml.Unmarshal(b, config)
+	err := decode.Unmarshal(b, config)
 	if err != nil {
 		return nil, err
 	}
diff --git a/yaml/converter/legacy/internal/config.go b/yaml/converter/legacy/internal/config.go
index b59ca96..f9855b7 100644
--- a/yaml/converter/legacy/internal/config.go
+++ b/yaml/converter/legacy/internal/config.go
@@ -16,9 +16,8 @@ import (
 
 	droneyaml "github.com/drone/drone-yaml/yaml"
 	"github.com/drone/drone-yaml/yaml/converter/legacy/matrix"
+	"github.com/drone/drone-yaml/yaml/internal/decode"
 	"github.com/drone/drone-yaml/yaml/pretty"
-
-	"github.com/buildkite/yaml"
 )
 
 // Config provides the high-level configuration.
@@ -59,7 +58,7 @@ func Convert(d []byte, remote string) ([]byte, error) {
 	}
 
 	from := new(Config)
-	err := yaml.Unmarshal(d, from)
+	err := decode.Unmarshal(d, from)
 
 	if err != nil {
 		return nil, err
diff --git a/yaml/converter/legacy/matrix/matrix.go b/yaml/converter/legacy/matrix/matrix.go
index e4cc2e8..7e6b3f0 100644
--- a/yaml/converter/legacy/matrix/matrix.go
+++ b/yaml/converter/legacy/matrix/matrix.go
@@ -8,7 +8,7 @@ import (
 	"sort"
 	"strings"
 
-	"github.com/buildkite/yaml"
+	"github.com/drone/drone-yaml/yaml/internal/decode"
 )
 
 const (
@@ -118,7 +118,7 @@ func parse(raw []byte) (Matrix, error) {
 	data := struct {
 		Matrix map[string][]string
 	}{}
-	err := yaml.Unmarshal(raw, &data)
+	err := decode.Unmarshal(raw, &data)
 	return data.Matrix, err
 }
 
@@ -129,6 +129,6 @@ func parseList(raw []byte) ([]Axis, error) {
 		}
 	}{}
 
-	err := yaml.Unmarshal(raw, &data)
+	err := decode.Unmarshal(raw, &data)
 	return data.Matrix.Include, err
 }
diff --git a/yaml/internal/decode/decode.go b/yaml/internal/decode/decode.go
new file mode 100644
index 0000000..d306ecb
--- /dev/null
+++ b/yaml/internal/decode/decode.go
@@ -0,0 +1,25 @@
+// Copyright 2019 Drone.IO Inc. All rights reserved.
+// Use of this source code is governed by the Drone Non-Commercial License
+// that can be found in the LICENSE file.
+
+// Package decode decodes yaml documents.
+package decode
+
+import (
+	"fmt"
+
+	"github.com/buildkite/yaml"
+)
+
+// Unmarshal decodes the first document found within the
+// byte slice and assigns the decoded values to out.
+func Unmarshal(in []byte, out interface{}) (err error) {
+	// the yaml library panics on malformed documents, for
+	// example if a collection has a byte order mark.
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("yaml: cannot decode the document: %v", r)
+		}
+	}()
+	return yaml.Unmarshal(in, out)
+}
diff --git a/yaml/parse.go b/yaml/parse.go
index 229d058..379a650 100644
--- a/yaml/parse.go
+++ b/yaml/parse.go
@@ -23,7 +23,7 @@ import (
 	"os"
 	"strings"
 
-	"github.com/buildkite/yaml"
+	"github.com/drone/drone-yaml/yaml/internal/decode"
 )
 
 var errorMissingKind = errors.New("yaml: missing kind attribute")
@@ -92,7 +92,7 @@ func parseRaw(r *RawResource) (Resource, error) {
 	default:
 		obj = new(Pipeline)
 	}
-	err := yaml.Unmarshal(r.Data, obj)
+	err := decode.Unmarshal(r.Data, obj)
 	return obj, err
 }
 
@@ -138,7 +138,7 @@ func ParseRaw(r io.Reader) ([]*RawResource, error) {
 		return nil, err
 	}
 	for _, resource := range resources {
-		err := yaml.Unmarshal(resource.Data, resource)
+		err := decode.Unmarshal(resource.Data, resource)
 		if err != nil {
 			return nil, err
 		}
diff --git a/yaml/pretty/util.go b/yaml/pretty/util.go
index 0fa47f4..d1fcd34 100644
--- a/yaml/pretty/util.go
+++ b/yaml/pretty/util.go
@@ -18,8 +18,8 @@ import (
 	"strings"
 	"unicode"
 
-	goyaml "github.com/buildkite/yaml"
 	"github.com/drone/drone-yaml/yaml"
+	"github.com/drone/drone-yaml/yaml/internal/decode"
 )
 
 func isPrimative(v interface{}) bool {
@@ -151,7 +151,7 @@ func isNull(s string) bool {
 // is not decoded to the same string.
 func isAmbiguous(s string) bool {
 	var v interface{}
-	err := goyaml.Unmarshal([]byte(s), &v)
+	err := decode.Unmarshal([]byte(s), &v)
 	return err != nil || v != interface{}(s)
 }
 
-- 
2.43.0


From c0f28e5a48c6525ee2ca100ee63f74d55a8cf700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:00 +0000
Subject: [PATCH 65/66] fix: keep the text of documents that are null

---
 yaml/parse.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/yaml/parse.go b/yaml/parse.go
index 379a650..e29bc9e 100644
--- a/yaml/parse.go
+++ b/yaml/parse.go
@@ -138,10 +138,14 @@ func ParseRaw(r io.Reader) ([]*RawResource, error) {
 		return nil, err
 	}
 	for _, resource := range resources {
-		err := decode.Unmarshal(resource.Data, resource)
+		data := resource.Data
+		err := decode.Unmarshal(data, resource)
 		if err != nil {
 			return nil, err
 		}
+		// the decoder clears the resource if the document
+		// is null. The text must not be lost.
+		resource.Data = data
 	}
 	return resources, nil
 }
-- 
2.43.0


From 62d9c54f14c4c51d2cd4c6b5f92cda140bee8aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:58 +0000
Subject: [PATCH 66/66] fix: mark long mapping keys

---
 yaml/pretty/writer.go | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/yaml/pretty/writer.go b/yaml/pretty/writer.go
index 43757e3..334c44c 100644
--- a/yaml/pretty/writer.go
+++ b/yaml/pretty/writer.go
@@ -107,8 +107,7 @@ func (w *baseWriter) ExcludeZero() {
 func (w *baseWriter) WriteTag(v interface{}) {
 	w.WriteByte('\n')
 	w.Indent()
-	writeValue(w, v)
-	w.WriteByte(':')
+	writeKey(w, v, writeValue)
 }
 
 func (w *baseWriter) WriteTagValue(k, v interface{}) {
@@ -161,8 +160,7 @@ func (w *indexWriter) WriteTag(v interface{}) {
 	} else {
 		w.Indent()
 	}
-	writeValue(w, v)
-	w.WriteByte(':')
+	writeKey(w, v, writeValue)
 	w.index++
 }
 
@@ -279,6 +277,27 @@ func writeEncode(w writer, v string) {
 	}
 }
 
+// maxKeySize is the size up to which a key is recognized by
+// the parser without being marked.
+const maxKeySize = 1024
+
+// writeKey writes the key with the given function, followed
+// by a colon. A long key is marked, because it would be read
+// as a plain value otherwise.
+func writeKey(w writer, k interface{}, write func(writer, interface{})) {
+	s, ok := k.(string)
+	if !ok || len(strconv.Quote(s)) < maxKeySize {
+		write(w, k)
+		w.WriteByte(':')
+		return
+	}
+	w.WriteString("? ")
+	write(w, k)
+	w.WriteByte('\n')
+	w.Indent()
+	w.WriteByte(':')
+}
+
 // writeUntyped writes a value that is decoded without a type.
 // Strings are quoted if they would be decoded to another type.
 func writeUntyped(w writer, v interface{}) {
@@ -391,8 +410,7 @@ func writeMapping(w writer, v map[interface{}]interface{}) {
 			w.WriteByte('\n')
 			w.Indent()
 		}
-		writeUntyped(w, e.k)
-		w.WriteByte(':')
+		writeKey(w, e.k, writeUntyped)
 		if v == nil || isPrimative(v) || isZero(v) {
 			w.WriteByte(' ')
 			writeUntyped(w, v)
@@ -428,8 +446,7 @@ func writeMappingStr(w writer, v map[string]string) {
 			w.WriteByte('\n')
 			w.Indent()
 		}
-		writeEncode(w, k)
-		w.WriteByte(':')
+		writeKey(w, k, writeValue)
 		w.WriteByte(' ')
 		writeEncode(w, v)
 	}
-- 
2.43.0

