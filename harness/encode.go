package main

import (
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"strings"

	goyaml "github.com/buildkite/yaml"
	"github.com/drone/drone-yaml/yaml"
	"github.com/drone/drone-yaml/yaml/compiler"
	"github.com/drone/drone-yaml/yaml/linter"
)

func init() { register("C40", runC40) }

// ---------------------------------------------------------------------
// C40: a manifest survives its own encodings.
// ---------------------------------------------------------------------

// settingTraits describes which settings of the manifest have no exact JSON
// form: numbers JSON lacks, keys that become their text, and numbers whose
// spelling JSON does not keep.
type settingTraits struct {
	noJSON    bool // infinities, NaN, null keys, keys with the same text
	textKeys  bool // keys that are not strings
	fractions bool // values or keys decoded as floating point or huge numbers
	nothing   bool // settings declared as Null, which count as absent
}

func (t *settingTraits) visit(v interface{}) {
	switch v := v.(type) {
	case float64:
		t.fractions = true
		if math.IsInf(v, 0) || math.IsNaN(v) {
			t.noJSON = true
		}
	case uint64:
		t.fractions = true
	case []interface{}:
		for _, x := range v {
			t.visit(x)
		}
	case map[interface{}]interface{}:
		seen := map[string]bool{}
		for k, x := range v {
			if _, ok := k.(string); !ok {
				t.textKeys = true
			}
			if _, ok := k.(float64); ok {
				t.fractions = true
			}
			s := fmt.Sprint(k)
			if _, ok := k.(uint64); ok || seen[s] || k == nil {
				t.noJSON = true
			}
			seen[s] = true
			t.visit(x)
		}
	}
}

func traitsOf(rs []yaml.Resource) (t settingTraits) {
	for _, r := range rs {
		if p, ok := r.(*yaml.Pipeline); ok {
			for _, l := range [][]*yaml.Container{p.Steps, p.Services} {
				for _, c := range l {
					if c != nil {
						for _, s := range c.Settings {
							if s != nil {
								t.nothing = t.nothing || s.Value == nil && s.Secret == ""
								t.visit(s.Value)
							}
						}
					}
				}
			}
		}
	}
	return
}

// textKeys replaces the keys of normalised setting values by their text.
func textKeys(v interface{}) interface{} {
	switch v := v.(type) {
	case []interface{}:
		for i := range v {
			v[i] = textKeys(v[i])
		}
	case map[string]interface{}:
		out := map[string]interface{}{}
		for k, x := range v {
			_, t, _ := strings.Cut(k, ":")
			out[t] = textKeys(x)
		}
		return out
	}
	return v
}

func normJSON(rs []yaml.Resource) []yaml.Resource {
	out := normResources(rs, false)
	for _, r := range out {
		if p, ok := r.(*yaml.Pipeline); ok {
			for _, l := range [][]*yaml.Container{p.Steps, p.Services} {
				for _, c := range l {
					for _, s := range c.Settings {
						s.Value = textKeys(s.Value)
					}
				}
			}
		}
	}
	return out
}

// lints lists the lint results of the resources.
func lints(rs []yaml.Resource) string {
	var b strings.Builder
	for _, t := range []bool{false, true} {
		for _, r := range rs {
			fmt.Fprintf(&b, "%v\n", linter.Lint(r, t))
		}
	}
	return b.String()
}

// plans compiles the pipelines that lint accepts.
func plans(rs []yaml.Resource) (out []string) {
	for _, r := range rs {
		if p, ok := r.(*yaml.Pipeline); ok && linter.Lint(p, true) == nil {
			out = append(out, canonPlan(new(compiler.Compiler).Compile(p)))
		}
	}
	return
}

func checkEncodings(k *K, text string) {
	m, err := yaml.ParseString(text)
	if err != nil {
		k.Fail("input", "does not parse: %v\n%s", err, text)
		return
	}
	before := clone(m.Resources)
	lint, plan := lints(m.Resources), plans(m.Resources)
	t := traitsOf(m.Resources)

	same := func(form string, got *yaml.Manifest, norm func([]yaml.Resource) []yaml.Resource, values bool) {
		if d := diffResources(norm(got.Resources), norm(m.Resources)); d != "" {
			k.Fail(form, "%s: %s", form, d)
			return
		}
		if l := lints(got.Resources); l != lint {
			k.Fail(form+"-lint", "lint results differ: %s", textDiff(lint, l))
		}
		if values {
			if p := plans(got.Resources); !reflect.DeepEqual(p, plan) {
				k.Fail(form+"-plan", "compiled plans differ: %s", textDiff(strings.Join(plan, "\n"), strings.Join(p, "\n")))
			}
			if a, b := printText(m.Resources...), printText(got.Resources...); !t.textKeys && a != b {
				k.Fail(form+"-format", "formatted texts differ: %s", textDiff(a, b))
			}
		}
	}

	// yaml
	out, err := m.Encode()
	k.Step(1)
	if err != nil {
		k.Fail("encode", "Encode: %v", err)
		return
	}
	again, _ := m.Encode()
	if string(again) != string(out) {
		class := "encode"
		if manyKeys(reflect.ValueOf(m.Resources)) && len(again) == len(out) {
			class = "encode-order"
		}
		k.Fail(class, "two encodings differ: %s", textDiff(string(out), string(again)))
	}
	got, err := yaml.ParseString(string(out))
	switch {
	case nullSetting(m.Resources) && err != nil && strings.Contains(err.Error(), "into *yaml.Parameter"):
		k.Fail("encode-null", "the encoding does not parse: %v\n%s", err, out)
	case mergeKey(reflect.ValueOf(m.Resources)) && (err != nil && strings.Contains(err.Error(), "map merge") ||
		err == nil && diffResources(normResources(got.Resources, false), normResources(m.Resources, false)) != ""):
		k.Fail("encode-merge-key", "the encoding loses a key: %v\n%s", err, out)
	case err != nil:
		k.Fail("encode", "the encoding does not parse: %v\n%s", err, out)
		return
	default:
		k.Agree(1)
		same("yaml", got, func(rs []yaml.Resource) []yaml.Resource { return normResources(rs, false) }, !t.nothing)
	}

	// json
	js, err := json.Marshal(m)
	k.Step(1)
	if t.noJSON {
		if err == nil && !json.Valid(js) {
			k.Fail("json", "invalid JSON: %s", js)
		}
	} else {
		if err != nil {
			k.Fail("json", "MarshalJSON: %v", err)
			return
		}
		if j2, _ := json.Marshal(m); string(j2) != string(js) {
			k.Fail("json", "two encodings differ: %s", textDiff(string(js), string(j2)))
		}
		got := new(yaml.Manifest)
		if err := json.Unmarshal(js, got); err != nil {
			k.Fail("json", "the encoding does not decode: %v\n%s", err, js)
			return
		}
		k.Agree(1)
		same("json", got, normJSON, !t.fractions && !t.nothing)
		// each resource on its own
		for i, r := range m.Resources {
			b, err := json.Marshal(r)
			one := reflect.New(reflect.TypeOf(r).Elem()).Interface().(yaml.Resource)
			if err == nil {
				err = json.Unmarshal(b, one)
			}
			if err != nil {
				k.Fail("json-one", "resource %d: %v", i, err)
			} else if d := diffResources(normJSON([]yaml.Resource{one}), normJSON([]yaml.Resource{r})); d != "" {
				k.Fail("json-one", "resource %d: %s", i, d)
			}
		}
	}
	if _, err := goyaml.Marshal(m); err == nil {
		k.Fail("single", "a manifest is marshalled as a single document")
	}
	if d := diffResources(normResources(m.Resources, false), normResources(before, false)); d != "" {
		k.Fail("mutated", "encoding changed the manifest: %s", d)
	}
}

// The two kinds of manifest whose encoding as YAML is known to be lost (see
// known_findings.json): the YAML decoder refuses a quoted null behind a
// pointer, and the YAML encoder writes the key << without quotes.
func nullSetting(rs []yaml.Resource) bool {
	for _, r := range rs {
		if p, ok := r.(*yaml.Pipeline); ok {
			for _, l := range [][]*yaml.Container{p.Steps, p.Services} {
				for _, c := range l {
					if c == nil {
						continue
					}
					for _, v := range c.Settings {
						if v == nil {
							continue
						}
						if s, ok := v.Value.(string); ok && (s == "null" || s == "~") {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// manyKeys reports whether a mapping has a hundred keys or more.
func manyKeys(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		return !v.IsNil() && manyKeys(v.Elem())
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if manyKeys(v.Field(i)) {
				return true
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			if manyKeys(v.Index(i)) {
				return true
			}
		}
	case reflect.Map:
		if v.Len() >= 100 {
			return true
		}
		for _, key := range v.MapKeys() {
			if manyKeys(v.MapIndex(key)) {
				return true
			}
		}
	}
	return false
}

// mergeKey reports whether some mapping of the value has the key <<.
func mergeKey(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		return !v.IsNil() && mergeKey(v.Elem())
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if mergeKey(v.Field(i)) {
				return true
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			if mergeKey(v.Index(i)) {
				return true
			}
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			if k.Kind() == reflect.Interface {
				if k.Elem().Kind() == reflect.String && k.Elem().String() == "<<" {
					return true
				}
			} else if k.Kind() == reflect.String && k.String() == "<<" {
				return true
			}
			if mergeKey(v.MapIndex(k)) {
				return true
			}
		}
	}
	return false
}

// renameKeys replaces the word in the keys of all mappings.
func renameKeys(v reflect.Value, word string) {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			renameKeys(v.Elem(), word)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			renameKeys(v.Field(i), word)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			renameKeys(v.Index(i), word)
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			if k.Kind() == reflect.String && k.String() == word {
				v.SetMapIndex(reflect.ValueOf("key").Convert(k.Type()), v.MapIndex(k))
				v.SetMapIndex(k, reflect.Value{})
			}
		}
	}
}

func runC40(c *Ctx) {
	eachManifest(c, func(k *K, rs []yaml.Resource, text string) { checkEncodings(k, text) })
	words := stringWords()
	c.Range("words", "every special word in every string position of every kind", len(words), func(k *K, i int) {
		k.In(func() string { return fmt.Sprintf("%q", words[i]) })
		k.State(words[i])
		for _, r := range manifestWith(words[i]) {
			checkEncodings(k, manifestText(r))
		}
	})
	dw := encodeWords(c)
	c.Range("literals", "every literal of the code and fixed words in every string position of every kind", len(dw), func(k *K, i int) {
		k.In(func() string { return fmt.Sprintf("%q", dw[i]) })
		k.State(dw[i])
		for _, r := range manifestWith(dw[i]) {
			checkEncodings(k, manifestText(r))
		}
	})
	// the words with known findings, everywhere but where these are
	known := []string{"null", "~", "<<"}
	c.Range("values", fmt.Sprintf("%q in every string position except settings and mapping keys", known), len(known), func(k *K, i int) {
		k.In(func() string { return fmt.Sprintf("%q", known[i]) })
		k.State("value" + known[i])
		for _, r := range manifestWith(known[i]) {
			renameKeys(reflect.ValueOf(r), known[i])
			if p, ok := r.(*yaml.Pipeline); ok {
				for _, x := range append(append([]*yaml.Container{}, p.Steps...), p.Services...) {
					x.Settings = nil
				}
			}
			if nullSetting([]yaml.Resource{r}) || mergeKey(reflect.ValueOf(r)) {
				k.Fail("harness", "the word is still there")
			}
			checkEncodings(k, manifestText(r))
		}
	})
	// json that does not fit is refused, not decoded in part
	var rs []yaml.Resource
	for _, r := range manifestWith("w") {
		rs = append(rs, r)
	}
	enc, err := json.Marshal(&yaml.Manifest{Resources: rs})
	if err != nil {
		fatalf("%v", err)
	}
	var doc interface{}
	if err := json.Unmarshal(enc, &doc); err != nil {
		fatalf("%v", err)
	}
	type edit struct {
		path string
		text []byte
	}
	var edits []edit
	var walk func(path string, v interface{}, set func(interface{}))
	put := func(path string, v interface{}, set func(interface{}), bad ...interface{}) {
		for _, b := range bad {
			set(b)
			text, err := json.Marshal(doc)
			if err != nil {
				fatalf("%v", err)
			}
			edits = append(edits, edit{fmt.Sprintf("%s = %T", path, b), text})
		}
		set(v)
	}
	walk = func(path string, v interface{}, set func(interface{})) {
		object, list := map[string]interface{}{"x": 1}, []interface{}{1}
		switch v := v.(type) {
		case map[string]interface{}:
			if path != "" {
				put(path, v, set, "x", 5, true, list)
			}
			for _, key := range sortedKeys(v) {
				if key != "settings" {
					key := key
					walk(path+"."+key, v[key], func(x interface{}) { v[key] = x })
				}
			}
		case []interface{}:
			put(path, v, set, "x", 5, true, object)
			for i := range v {
				i := i
				walk(fmt.Sprintf("%s[%d]", path, i), v[i], func(x interface{}) { v[i] = x })
			}
		case string:
			put(path, v, set, 5, true, object, list)
		case bool:
			put(path, v, set, 5, "true", object, list)
		default:
			put(path, v, set, "5", true, object, list)
		}
	}
	walk("", doc, func(x interface{}) { doc = x })
	c.Range("json-shapes", "every value of the JSON encoding of every kind replaced by a value of every other type", len(edits), func(k *K, i int) {
		e := edits[i]
		k.In(func() string { return e.path })
		k.State(e.path)
		k.Step(1)
		k.Agree(1)
		if err := json.Unmarshal(e.text, new(yaml.Manifest)); err == nil {
			k.Fail("json-accepted", "a value that does not fit is accepted")
		}
	})
	c.Range("json-prefixes", "every proper prefix of the JSON encoding", len(enc), func(k *K, i int) {
		k.State(fmt.Sprint("prefix", i))
		k.Step(2)
		k.Agree(1)
		if err := new(yaml.Manifest).UnmarshalJSON(enc[:i]); err == nil {
			k.Fail("json-accepted", "the first %d bytes are accepted", i)
		}
	})
	// kinds that are not one of the known ones, however similar
	var kinds []string
	for _, kd := range []string{"cron", "secret", "signature", "registry", "pipeline"} {
		kinds = append(kinds, kd, strings.ToUpper(kd), strings.Title(kd), kd+" ", " "+kd, kd+"s", kd[:len(kd)-1], kd+"\n", kd+"/v1")
	}
	kinds = append(kinds, words...)
	c.Range("kinds", "documents with fields of every kind whose kind is one of the known ones, similar to one, or any special word", len(kinds), func(k *K, i int) {
		text := fmt.Sprintf("kind: %s\nversion: '1'\ntype: docker\nname: n\nhmac: abc\ndata: d\nspec: {schedule: '@daily', branch: b}\nget: {path: p, name: q}\nsteps:\n- name: a\n  image: b\nclone: {depth: 3}\n", goyamlText(kinds[i]))
		k.In(func() string { return text })
		k.State(text)
		if _, err := yaml.ParseString(text); err != nil {
			return
		}
		checkEncodings(k, text)
	})
	settingTrees(c, func(k *K, v interface{}) {
		p := basePipeline()
		p.Steps[0].Settings = map[string]*yaml.Parameter{"a": {Value: "before"}, "k": {Value: v}, "z": {Secret: "after"}}
		text := manifestText(p)
		k.In(func() string { return text })
		k.State(text)
		checkEncodings(k, text)
	})
}

// goyamlText is a double quoted scalar.
func goyamlText(s string) string {
	b, _ := json.Marshal(s)
	return string(b)
}
