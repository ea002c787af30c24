package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"strings"

	"github.com/drone/drone-yaml/yaml"
	"github.com/drone/drone-yaml/yaml/pretty"
)

func init() {
	register("C03", runC03)
	register("C06", runC06)
	register("C07", runC07)
	register("C08", runC08)
}

func printText(rs ...yaml.Resource) string {
	var b bytes.Buffer
	pretty.Print(&b, &yaml.Manifest{Resources: rs})
	return b.String()
}

func noSpace(s string) string { return strings.Join(strings.Fields(s), "") }

// normResource canonicalises a resource; forPrint additionally applies what
// formatting may change or does not cover.
func normResource(r yaml.Resource, forPrint bool) yaml.Resource {
	switch r := r.(type) {
	case *yaml.Pipeline:
		n := normPipeline(r)
		if forPrint {
			if n.Platform == (yaml.Platform{}) {
				n.Platform = yaml.Platform{OS: "linux", Arch: "amd64"}
			}
			n.Trigger.Matrix = nil
			for _, c := range append(append([]*yaml.Container{}, n.Steps...), n.Services...) {
				c.When.Matrix = nil
				if c.Build != nil && reflect.DeepEqual(*c.Build, yaml.Build{}) {
					c.Build = nil
				}
				if c.Push != nil && *c.Push == (yaml.Push{}) {
					c.Push = nil
				}
			}
		}
		return n
	case *yaml.Cron:
		n := *r
		if forPrint {
			n.Type = ""
		}
		return &n
	case *yaml.Secret:
		n := *r
		if forPrint {
			n.Data = noSpace(n.Data)
		}
		return &n
	case *yaml.Registry:
		n := *r
		n.Data = normMap(n.Data)
		if forPrint {
			for k, v := range n.Data {
				if n2 := noSpace(v); n2 != v {
					c := map[string]string{}
					for k, v := range n.Data {
						c[k] = noSpace(v)
					}
					n.Data = c
					_ = k
					break
				}
			}
		}
		return &n
	case *yaml.Signature:
		n := *r
		return &n
	}
	return r
}

func normResources(rs []yaml.Resource, forPrint bool) (out []yaml.Resource) {
	for _, r := range rs {
		out = append(out, normResource(r, forPrint))
	}
	return
}

// diffResources reports the first difference between two resource lists.
func diffResources(a, b []yaml.Resource) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%d resources instead of %d", len(a), len(b))
	}
	for i := range a {
		if reflect.TypeOf(a[i]) != reflect.TypeOf(b[i]) {
			return fmt.Sprintf("resource %d is a %T instead of a %T", i, a[i], b[i])
		}
		if !reflect.DeepEqual(a[i], b[i]) {
			return fmt.Sprintf("resource %d differs: %s", i, firstDiff("", reflect.ValueOf(a[i]), reflect.ValueOf(b[i])))
		}
	}
	return ""
}

// firstDiff names the first differing component of two equal-typed values.
func firstDiff(path string, a, b reflect.Value) string {
	if !a.IsValid() || !b.IsValid() || a.Type() != b.Type() {
		return fmt.Sprintf("%s: got %v, want %v", path, show(a), show(b))
	}
	switch a.Kind() {
	case reflect.Ptr, reflect.Interface:
		if a.IsNil() || b.IsNil() {
			break
		}
		return firstDiff(path, a.Elem(), b.Elem())
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if a.Type().Field(i).PkgPath != "" {
				continue
			}
			if !reflect.DeepEqual(a.Field(i).Interface(), b.Field(i).Interface()) {
				return firstDiff(path+"."+a.Type().Field(i).Name, a.Field(i), b.Field(i))
			}
		}
	case reflect.Slice:
		if a.Len() == b.Len() {
			for i := 0; i < a.Len(); i++ {
				if !reflect.DeepEqual(a.Index(i).Interface(), b.Index(i).Interface()) {
					return firstDiff(fmt.Sprintf("%s[%d]", path, i), a.Index(i), b.Index(i))
				}
			}
		}
	case reflect.Map:
		for _, k := range a.MapKeys() {
			x, y := a.MapIndex(k), b.MapIndex(k)
			if !y.IsValid() {
				return fmt.Sprintf("%s[%v]: got %v, want no entry", path, show(k), show(x))
			}
			if !reflect.DeepEqual(x.Interface(), y.Interface()) {
				return firstDiff(fmt.Sprintf("%s[%v]", path, show(k)), x, y)
			}
		}
		for _, k := range b.MapKeys() {
			if !a.MapIndex(k).IsValid() {
				return fmt.Sprintf("%s[%v]: entry missing, want %v", path, show(k), show(b.MapIndex(k)))
			}
		}
	}
	return fmt.Sprintf("%s: got %v, want %v", path, show(a), show(b))
}

func show(v reflect.Value) string {
	if !v.IsValid() {
		return "nothing"
	}
	for v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface {
		if v.IsNil() {
			return "nil"
		}
		v = v.Elem()
	}
	return fmt.Sprintf("%#v", v.Interface())
}

func mustParse(k *K, class, text string) []yaml.Resource {
	m, err := yaml.ParseString(text)
	k.Step(1)
	if err != nil {
		k.Fail(class, "does not parse: %v\n%s", err, text)
		return nil
	}
	return m.Resources
}

// ---------------------------------------------------------------------
// Small resource space: the non-pipeline kinds, all presence patterns.
// ---------------------------------------------------------------------

const b64 = "N2NmYjA3ODQwNTY1ODFlY2E5MGJmOWI1NDk0NDFhMTEK"

func otherResources() []yaml.Resource {
	var out []yaml.Resource
	opt := func(bit int, s string, mask int) string {
		if mask&(1<<uint(bit)) != 0 {
			return s
		}
		return ""
	}
	for m := 0; m < 64; m++ {
		out = append(out, &yaml.Cron{Kind: "cron", Version: opt(0, "1", m), Name: opt(1, "nightly build", m),
			Type: opt(5, "t", m),
			Spec: yaml.CronSpec{Schedule: opt(2, "1 * * * *", m), Branch: opt(3, "master", m), Deploy: yaml.CronDeployment{Target: opt(4, "prod", m)}}})
	}
	for m := 0; m < 128; m++ {
		out = append(out, &yaml.Secret{Kind: "secret", Version: opt(0, "1", m), Type: opt(1, "encrypted", m), Name: opt(2, "my secret", m),
			Data: opt(3, b64, m),
			Get:  yaml.SecretGet{Path: opt(4, "secret/data/x", m), Name: opt(5, "n", m), Key: opt(6, "k v", m)}})
	}
	for _, d := range []string{b64[:1], strings.Repeat(b64, 3)[:59], strings.Repeat(b64, 3)[:60], strings.Repeat(b64, 3)[:61], strings.Repeat(b64, 3)[:120], strings.Repeat(b64, 3)[:121], strings.Repeat(b64, 30), b64[:10] + "\n" + b64[:7] + "\n", b64[:10] + " " + b64, "+/=="} {
		out = append(out, &yaml.Secret{Kind: "secret", Name: "n", Data: d}, &yaml.Registry{Kind: "registry", Data: map[string]string{"index.docker.io": d, "gcr.io": b64}})
	}
	for m := 0; m < 16; m++ {
		r := &yaml.Registry{Kind: "registry", Version: opt(0, "1", m), Type: opt(1, "encrypted", m)}
		switch m >> 2 {
		case 1:
			r.Data = map[string]string{"index.docker.io": b64}
		case 2:
			r.Data = map[string]string{"index.docker.io": b64, "gcr.io": b64 + b64, "a b: c": b64}
		case 3:
			r.Data = map[string]string{"localhost:5000": ""}
		}
		out = append(out, r)
	}
	for m := 0; m < 4; m++ {
		out = append(out, &yaml.Signature{Kind: "signature", Version: opt(0, "1", m), Hmac: opt(1, strings.Repeat("0123456789abcdef", 4), m)})
	}
	return out
}

// sequenceAlphabet are the resources used to build document sequences.
func sequenceAlphabet() []yaml.Resource {
	full := basePipeline()
	full.DependsOn = []string{"x"}
	full.Node = map[string]string{"a": "b"}
	full.Trigger.Branch.Include = []string{"m"}
	full.PullSecrets = []string{"s"}
	return []yaml.Resource{
		basePipeline(), full, &yaml.Pipeline{Kind: "pipeline"}, &yaml.Pipeline{Kind: "other", Name: "x"},
		&yaml.Cron{Kind: "cron", Name: "n", Spec: yaml.CronSpec{Branch: "b"}},
		&yaml.Secret{Kind: "secret", Name: "s", Data: b64},
		&yaml.Secret{Kind: "secret", Name: "s", Get: yaml.SecretGet{Path: "p", Name: "n"}},
		&yaml.Registry{Kind: "registry", Data: map[string]string{"index.docker.io": b64}},
		&yaml.Registry{Kind: "registry"},
		&yaml.Signature{Kind: "signature", Hmac: strings.Repeat("00", 32)},
		&yaml.Pipeline{Kind: "pipeline", Name: "svc", Services: []*yaml.Container{{Name: "a", Image: "b"}}, Platform: yaml.Platform{OS: "windows"}},
		&yaml.Pipeline{Kind: "pipeline", Name: "vol", Volumes: []*yaml.Volume{{Name: "v", EmptyDir: &yaml.VolumeEmptyDir{}}}},
	}
}

// eachManifest explores the manifest space shared by C03, C06 and C07.
func eachManifest(c *Ctx, f func(k *K, rs []yaml.Resource, text string)) {
	ds := universe(0)
	t := 2
	sz := sizes(ds)
	c.Deviate("fields", fmt.Sprintf("all choices of <=%d of %d pipeline and container fields deviating, every value", t, len(ds)), sz, t, func(k *K, ix []int) {
		p := basePipeline()
		apply(ds, ix, p)
		text := manifestText(p)
		k.In(func() string { return names(ds, ix) + "\n" + text })
		k.State(text)
		f(k, []yaml.Resource{p}, text)
	})
	if !c.Quick {
		cd := containerDims()
		var one []Dim[pipe]
		one = append(one, pipelineDims()...)
		one = append(one, prefixDims("step0.", func(p pipe) ctr { return p.Steps[0] }, cd)...)
		one = limitOpts(one, 2)
		c.Deviate("fields-3", "all choices of <=3 fields of the pipeline and its first step, two values each", sizes(one), 3, func(k *K, ix []int) {
			p := basePipeline()
			apply(one, ix, p)
			text := manifestText(p)
			k.In(func() string { return names(one, ix) + "\n" + text })
			k.State(text)
			f(k, []yaml.Resource{p}, text)
		})
		full := containerDims()
		c.Product("fields-full", "every field set at once but one", []int{3, len(full) + 1, 2}, func(k *K, ix []int) {
			p := basePipeline()
			for i, d := range full {
				if i == ix[1]-1 {
					continue
				}
				o := ix[0]
				if o >= len(d.Opts) {
					o = len(d.Opts) - 1
				}
				tgt := p.Steps[0]
				if ix[2] == 1 {
					tgt = p.Services[0]
				}
				d.Opts[o].Apply(tgt)
			}
			text := manifestText(p)
			k.In(func() string { return text })
			k.State(text)
			f(k, []yaml.Resource{p}, text)
		})
	}
	manifestDict(c, plainWords(c.Quick), f)
	others := otherResources()
	c.Range("other-kinds", "all presence patterns of the cron, secret, registry and signature fields", len(others), func(k *K, i int) {
		text := manifestText(others[i])
		k.In(func() string { return text })
		k.State(text)
		f(k, []yaml.Resource{others[i]}, text)
	})
	seq := sequenceAlphabet()
	d := 3
	if !c.Quick {
		d = 4
	}
	c.Words("sequences", fmt.Sprintf("all sequences of up to %d of %d resources", d, len(seq)), len(seq), 0, d, func(k *K, w []int) {
		var rs []yaml.Resource
		for _, x := range w {
			rs = append(rs, seq[x])
		}
		text := manifestText(rs...)
		k.In(func() string { return text })
		k.State(text)
		f(k, rs, text)
	})
	// container shapes that only raw text can express
	raws := rawEntryTexts()
	c.Range("raw-entries", "null, empty and partially empty entries of every list and map", len(raws), func(k *K, i int) {
		k.In(func() string { return raws[i] })
		k.State(raws[i])
		f(k, nil, raws[i])
	})
}

// rawEntryTexts: every list and map field with every list of <=3 entries
// out of null, {}, a full entry.
func rawEntryTexts() []string {
	type field struct{ ctx, full string }
	var out []string
	pre := "kind: pipeline\nname: a\n"
	list := map[string]string{
		"steps":    "{name: x, image: y}",
		"services": "{name: x, image: y}",
		"volumes":  "{name: v, temp: {}}",
	}
	words := func(alpha []string, emitw func(w []string)) {
		emitw(nil)
		for _, a := range alpha {
			emitw([]string{a})
			for _, b := range alpha {
				emitw([]string{a, b})
				for _, c := range alpha {
					emitw([]string{a, b, c})
				}
			}
		}
	}
	for _, k := range sortedKeys(list) {
		alpha := []string{"~", "{}", list[k]}
		if k == "volumes" {
			alpha = append(alpha, "{temp: ~, name: q}", "{host: {}}", "{temp: {}, host: {path: /x}}", "{host: ~}")
		}
		words(alpha, func(w []string) {
			out = append(out, pre+k+": ["+strings.Join(w, ", ")+"]\nplatform: {os: linux}\nnode: {a: b}\n")
		})
	}
	cl := map[string][]string{
		"devices":      {"~", "{}", "{name: a, path: b}", "{path: c}"},
		"ports":        {"~", "{}", "80", "{port: 1, host: 2}"},
		"volumes":      {"~", "{}", "{name: a, path: b}", "{path: c}"},
		"commands":     {"~", `""`, "x"},
		"depends_on":   {"~", `""`, "x"},
		"when.branch":  {"~", `""`, "x"},
		"dns":          {"~", `""`, "x"},
		"build.cache":  {"~", `""`, "x"},
		"settings.seq": {"~", "{}", "[]", "[[], {a: ~}]", "{a: [1, {b: c}]}"},
	}
	for _, k := range sortedKeys(cl) {
		for _, where := range []string{"steps", "services"} {
			words(cl[k], func(w []string) {
				l := "[" + strings.Join(w, ", ") + "]"
				f := k + ": " + l
				switch k {
				case "when.branch":
					f = "when: {branch: " + l + "}"
				case "build.cache":
					f = "build: {image: q, cache_from: " + l + "}"
				case "settings.seq":
					f = "settings: {k: " + l + ", l: v}"
				}
				out = append(out, pre+where+":\n- {name: x, image: y, "+f+"}\n- {name: z, image: y}\n")
			})
		}
	}
	maps := map[string][]string{
		"environment": {"~", `""`, "x", "{from_secret: s}"},
		"settings":    {"~", "Null", `""`, "x", "{from_secret: s}", "{}", "[]", "{from_secret: ~}", `{from_secret: ""}`},
	}
	for _, k := range sortedKeys(maps) {
		vs := maps[k]
		for _, a := range vs {
			out = append(out, pre+"steps:\n- {name: x, image: y, "+k+": {A: "+a+"}}\n- {name: z, image: y}\n")
			for _, b := range vs {
				out = append(out, pre+"steps:\n- {name: x, image: y, "+k+": {A: "+a+", B: "+b+"}, user: u}\n- {name: z, image: y}\n")
			}
		}
	}
	for _, r := range []string{"~", "{}", "{limits: ~}", "{limits: {}}", "{limits: {}, requests: {cpu: 1}}", "{limits: {memory: 0}, requests: {}}", "{limits: {cpu: 1}, requests: ~}"} {
		out = append(out, pre+"steps:\n- {name: x, image: y, resources: "+r+", user: q}\n")
	}
	for _, r := range []string{"~", "{}", `""`, "{image: ~}", "{image: x}", "{context: y}", "{args: {}}", "{args: {A: ~}}"} {
		out = append(out, pre+"steps:\n- {name: x, image: y, build: "+r+", user: q}\n", pre+"steps:\n- {name: x, build: "+r+"}\n")
	}
	for _, r := range []string{"~", "{}", `""`, "{image: ~}", "{image: x}"} {
		out = append(out, pre+"steps:\n- {name: x, image: y, push: "+r+", user: q}\n")
	}
	for _, r := range []string{"clone: ~", "clone: {}", "platform: {}", "workspace: {}", "concurrency: {}", "trigger: {}", "trigger: {branch: []}", "trigger: {branch: {}}", "trigger: {branch: {include: []}}", "node: {}", "node: {a: ~}", "volumes: ~", "depends_on: []", "depends_on: [~]", "image_pull_secrets: [~, a]"} {
		out = append(out, pre+r+"\n", pre+r+"\nsteps:\n- {name: x, image: y}\n")
	}
	for _, r := range []string{"kind: cron\nspec: ~\n", "kind: cron\n", "kind: cron\nspec: {deployment: {}}\n", "kind: secret\n", "kind: secret\nget: {}\n", "kind: secret\ndata: ''\n", "kind: registry\n", "kind: registry\ndata: {}\n", "kind: registry\ndata: {a: ~}\n", "kind: signature\n", "kind: cron\nname: ~\n", "kind: pipeline\n"} {
		out = append(out, r)
	}
	return out
}

// ---------------------------------------------------------------------

func hasMapSetting(rs []yaml.Resource) bool {
	var rec func(v interface{}) bool
	rec = func(v interface{}) bool {
		switch v := v.(type) {
		case map[interface{}]interface{}:
			return true
		case []interface{}:
			for _, x := range v {
				if rec(x) {
					return true
				}
			}
		}
		return false
	}
	for _, r := range rs {
		if p, ok := r.(*yaml.Pipeline); ok {
			for _, c := range append(append([]*yaml.Container{}, p.Steps...), p.Services...) {
				if c == nil {
					continue
				}
				for _, s := range c.Settings {
					if s != nil && rec(s.Value) {
						return true
					}
				}
			}
		}
	}
	return false
}

func runC03(c *Ctx) {
	eachManifest(c, func(k *K, want []yaml.Resource, text string) {
		m, err := yaml.ParseString(text)
		k.Step(1)
		k.Agree(1)
		if err != nil {
			k.Fail("parse", "well-formed configuration does not parse: %v", err)
			return
		}
		if want != nil {
			if d := diffResources(normResources(m.Resources, false), normResources(want, false)); d != "" {
				k.Fail("parse", "parsed manifest differs from what was written: %s", d)
				return
			}
		}
		n := normResources(m.Resources, false)
		// JSON
		b, err := json.Marshal(m)
		k.Step(1)
		if err != nil {
			if !hasMapSetting(m.Resources) {
				k.Fail("json", "cannot be encoded to JSON: %v", err)
			}
		} else {
			m2 := new(yaml.Manifest)
			if err := json.Unmarshal(b, m2); err != nil {
				k.Fail("json", "JSON cannot be decoded: %v\n%s", err, b)
			} else if d := diffResources(normResources(m2.Resources, false), n); d != "" {
				k.Fail("json", "JSON round trip: %s", d)
			}
			k.Step(1)
			k.Agree(1)
		}
		// YAML
		y, err := m.Encode()
		k.Step(1)
		if err != nil {
			if len(m.Resources) > 0 {
				k.Fail("encode", "cannot be encoded to YAML: %v", err)
			}
			return
		}
		m3, err := yaml.ParseBytes(y)
		k.Step(1)
		k.Agree(1)
		if err != nil && nullSetting(m.Resources) && strings.Contains(err.Error(), "into *yaml.Parameter") {
			return // see C40: known finding
		}
		if err != nil {
			k.Fail("encode", "encoded YAML does not parse: %v\n%s", err, y)
		} else if d := diffResources(normResources(m3.Resources, false), n); d != "" {
			k.Fail("encode", "YAML round trip: %s\n%s", d, y)
		}
	})
	// kind dispatch
	type kd struct {
		text string
		kind string // "" means: parsing must fail
		typ  string
	}
	kinds := []kd{
		{"kind: pipeline\n", "pipeline", "*yaml.Pipeline"}, {"kind: cron\n", "cron", "*yaml.Cron"}, {"kind: secret\n", "secret", "*yaml.Secret"},
		{"kind: signature\n", "signature", "*yaml.Signature"}, {"kind: registry\n", "registry", "*yaml.Registry"},
		{"kind: Cron\n", "Cron", "*yaml.Pipeline"}, {"kind: SECRET\n", "SECRET", "*yaml.Pipeline"}, {"kind: custom\n", "custom", "*yaml.Pipeline"},
		{"kind: 'cron'\n", "cron", "*yaml.Cron"}, {"\"kind\": secret\n", "secret", "*yaml.Secret"}, {"kind: crons\n", "crons", "*yaml.Pipeline"},
		{"kind: \"secret \"\n", "secret ", "*yaml.Pipeline"}, {"{kind: registry}\n", "registry", "*yaml.Registry"},
		{"kind: 1\n", "1", "*yaml.Pipeline"}, {"kind: true\n", "true", "*yaml.Pipeline"},
		{"name: x\n", "", ""}, {"kind: ''\n", "", ""}, {"kind: ~\n", "", ""}, {"kind: [cron]\n", "", ""}, {"kind: {a: b}\n", "", ""}, {"Kind: cron\n", "", ""},
		{"type: cron\n", "", ""}, {"- kind: cron\n", "", ""}, {"# comment\n", "", ""}, {"kind\n", "", ""},
	}
	kk := append([]kd(nil), kinds...)
	for _, extra := range []string{"name: n\n", "version: '1'\nname: n\ntype: t\n"} {
		for _, x := range kinds[:8] {
			kk = append(kk, kd{x.text + extra, x.kind, x.typ})
		}
	}
	d := 2
	if !c.Quick {
		d = 3
	}
	c.Words("kinds", fmt.Sprintf("all sequences of up to %d documents over %d kind spellings", d, len(kk)), len(kk), 1, d, func(k *K, w []int) {
		var text string
		var want []kd
		ok := true
		for i, x := range w {
			if i > 0 {
				text += "---\n"
			}
			text += kk[x].text
			want = append(want, kk[x])
			ok = ok && kk[x].kind != ""
		}
		k.In(func() string { return text })
		k.State(text)
		m, err := yaml.ParseString(text)
		k.Step(1)
		k.Agree(1)
		if (err == nil) != ok {
			k.Fail("kind", "parse error = %v, expected success = %v", err, ok)
			return
		}
		if err != nil {
			return
		}
		if len(m.Resources) != len(want) {
			k.Fail("kind", "%d resources from %d documents", len(m.Resources), len(want))
			return
		}
		for i, r := range m.Resources {
			if t := fmt.Sprintf("%T", r); t != want[i].typ || r.GetKind() != want[i].kind {
				k.Fail("kind", "document %d became a %s of kind %q, want %s of kind %q", i, t, r.GetKind(), want[i].typ, want[i].kind)
			}
			if strings.Contains(kk[w[i]].text, "version:") && r.GetVersion() != "1" {
				k.Fail("kind", "document %d lost its version", i)
			}
		}
		b, err := json.Marshal(m)
		m2 := new(yaml.Manifest)
		if err == nil {
			err = json.Unmarshal(b, m2)
		}
		k.Step(2)
		k.Agree(1)
		if err != nil {
			k.Fail("json", "JSON round trip fails: %v", err)
		} else if d := diffResources(normResources(m2.Resources, false), normResources(m.Resources, false)); d != "" {
			k.Fail("json", "JSON round trip: %s", d)
		}
	})
}

func runC06(c *Ctx) {
	c.Assume("when.matrix and the type of cron resources are outside the formatter's supported fields; null entries count as absent")
	eachManifest(c, func(k *K, _ []yaml.Resource, text string) {
		rs := mustParse(k, "input", text)
		if k.Failed() {
			return
		}
		out := printText(rs...)
		k.Step(1)
		re := mustParse(k, "reparse", out)
		k.Agree(1)
		if k.Failed() {
			return
		}
		if d := diffResources(normResources(re, true), normResources(rs, true)); d != "" {
			k.Fail("meaning", "formatting changed the configuration: %s\n%s", d, out)
		}
	})
}

// frame checks the document framing of formatted text.
func frame(out string, n int) string {
	if strings.Contains(out, "\r") {
		return "output contains a carriage return"
	}
	if !strings.HasSuffix(out, "\n...\n") && out != "...\n" {
		return "output does not end with a '...' line"
	}
	seps, terms := 0, 0
	for i, l := range strings.Split(out, "\n") {
		if strings.HasPrefix(l, "---") {
			if l != "---" {
				return fmt.Sprintf("line %d is not a plain separator: %q", i, l)
			}
			seps++
		}
		if strings.HasPrefix(l, "...") {
			if l != "..." {
				return fmt.Sprintf("line %d is not a plain terminator: %q", i, l)
			}
			terms++
		}
	}
	if terms != 1 {
		return fmt.Sprintf("%d terminators", terms)
	}
	if seps != n {
		return fmt.Sprintf("%d separators for %d resources", seps, n)
	}
	if n > 0 && !strings.HasPrefix(out, "---\n") {
		return "output does not start with a separator"
	}
	return ""
}

func checkStable(k *K, rs []yaml.Resource) {
	out := printText(rs...)
	out2 := printText(rs...)
	k.Step(2)
	k.Agree(2)
	if out != out2 {
		k.Fail("unstable", "printing twice differs:\n%s\n%s", out, out2)
		return
	}
	if f := frame(out, len(rs)); f != "" {
		k.Fail("framing", "%s\n%s", f, out)
		return
	}
	re := mustParse(k, "reparse", out)
	if k.Failed() {
		return
	}
	out3 := printText(re...)
	k.Step(1)
	k.Agree(1)
	if out3 != out {
		k.Fail("idempotent", "formatting the formatted text changes it:\n%s\n=== becomes\n%s", out, out3)
	}
}

func runC07(c *Ctx) {
	eachManifest(c, func(k *K, _ []yaml.Resource, text string) {
		rs := mustParse(k, "input", text)
		if k.Failed() {
			return
		}
		checkStable(k, rs)
	})
	// maps whose names resemble each other, in every order
	if mapControl {
		var slots []nameSlot
		for _, s := range nameSlots() {
			if s.meta.Filename == "" {
				slots = append(slots, s)
			}
		}
		orders := append([]uint64{globalOrders()[0]}, ordersOf(3)...)
		c.Product("similar", fmt.Sprintf("every pair of %d similar names (with a third one) in %d maps, printed with the maps in every order", len(similarNames), len(slots)), []int{len(slots), len(similarNames), len(similarNames)}, func(k *K, ix []int) {
			a, b := similarNames[ix[1]], similarNames[ix[2]]
			if a == b {
				return
			}
			text := strings.NewReplacer("@1", "\""+a+"\"", "@2", "\""+b+"\"", "@3", "\"A.b \"").Replace(slots[ix[0]].text)
			k.In(func() string { return text })
			m, err := yaml.ParseString(text)
			if err != nil {
				return
			}
			checkStable(k, m.Resources)
			mapChoice(func(ctl *mapCtl) {
				op := mapOp{"print", func() string { return printText(m.Resources...) }}
				want := ctl.same(op, orders[0])
				for _, o := range orders[1:] {
					k.State(fmt.Sprint(text, o))
					k.Step(1)
					k.Agree(1)
					if got := ctl.same(op, o); got != want {
						k.Fail("repeat", "printing again, with maps in order %x, differs:\n%s", o, textDiff(want, got))
						return
					}
				}
			})
		})
	}
	// framing must survive separator-like contents
	words := stringWords()
	c.Range("strings", "every special string in every string position", len(words), func(k *K, i int) {
		k.In(func() string { return fmt.Sprintf("%q", words[i]) })
		k.State(words[i])
		if ampBang(words[i]) {
			return // see C08: known finding
		}
		rs := manifestWith(words[i])
		checkStable(k, rs)
	})
}

// ---------------------------------------------------------------------

// ampBang: strings for which the formatter's quoting is pinned by an
// existing test although they do not read back (known finding of C08).
func ampBang(s string) bool {
	return len(s) > 1 && (s[0] == '&' || s[0] == '!') && s[1] != ' '
}

func stringWords() []string {
	ws := strings.Split("true|True|TRUE|false|yes|Yes|YES|no|on|On|off|OFF|y|n|Y|N|null|Null|NULL|~|nil|none|123|0|-1|+1|0x1F|0o17|017|0b11|1_000|1e3|1E+3|1.5|.5|-.5|1.|.|..|+.inf|.inf|-.inf|.Inf|.nan|.NaN|.NAN|2001-01-01|2001-12-14t21:59:43.10-05:00|12:30:45|190:20:30.15|12e03|0.1.2|<<|=|-|--|---|...|....|--- a|... a|- a|-a|- - a|?|? a|?a|a: b|a:|a: |:a|: a|:|::|a:b|a :b|a : b|#a|# a|a #b|a# b|a#b|[a]|[|]|{a}|{|}|{}|[]|,|a,b|a, b|,a|*a|*|&|& a|! a|!|%a|@a|`a`|\\|a|> a|>-|>+|'|''|'a'|\"|\"\"|\"a\"|a'b|a\"b|\\\\|\\\\n|a\\\\|key: [x|${X}|$(x)|$X|a||b|a|b|日本|é|😀| a|a | |  |a  b|a]|a}|http://x:80/y?z#w|C:\\\\x|git@github.com:a/b.git|v1.0|1.0.0|08|0.|1-2|0x|1e|e1|--- |!!|!!str|a!b|a&b|a*b|x-y|x.y|x_y|*.go|**|!a|&a|!!str a|&a b|!master", "|")
	ws = append(ws, "a\nb", "a\n", "\na", "\n", "\n\n", "a\n\nb", "\ta", "a\tb", "a\t", "\t", "a:\tb", "a\t#b", "\r", "a\r\nb", "a\rb", "\x00", "\x01", "\a", "\b", "\f", "\v", "\x1b", "\x7f", "\u0080", "\u0085", "a\u0085b", "\u00a0", "a\u00a0b", "\u2028", "\u2029", "\ufeff", "\ufeffa", "\ufffd", "\ufffe", "\U0001f600", "\U0010ffff", "\u200b", "\ue000",
		"\n---\n", "\n...\n", "---\n", "a\n---\nb", "a\n...", "", strings.Repeat("x", 200), strings.Repeat("ab c ", 60)+"d", strings.Repeat("y", 1000), strings.Repeat("long: text # ", 40)+"e", "|", "||", "|-", "|+", "|2", "\\", "\"\\\"", "%", "%YAML 1.2", "%TAG", "\\x41", "\\u0041", "a\\nb", "\"a\nb\"", "'\n'")
	seen := map[string]bool{}
	var out []string
	for _, w := range ws {
		if !seen[w] {
			seen[w] = true
			out = append(out, w)
		}
	}
	return out
}

// manifestWith puts s into every string position of every kind. Secret and
// registry data (base64 by contract) and kinds are not included.
func manifestWith(s string) []yaml.Resource {
	l := func() []string { return []string{"first", s, "last"} }
	cond := func() yaml.Condition { return yaml.Condition{Include: []string{s, "z"}, Exclude: []string{"q", s}} }
	mk := func() *yaml.Container {
		return &yaml.Container{
			Name: s, Image: s, Pull: s, User: s, Shell: s, Network: s, Failure: s, WorkingDir: s,
			Build:   &yaml.Build{Image: s, Args: map[string]string{s: s, "other": s}, CacheFrom: l(), Context: s, Dockerfile: s, Labels: map[string]string{s: "v", "k": s}},
			Command: l(), Commands: l(), Entrypoint: l(), DNS: l(), DNSSearch: l(), ExtraHosts: l(), DependsOn: l(),
			Environment: map[string]*yaml.Variable{s: {Value: s}, "k1": {Value: s}, "k2": {Value: "x"}},
			Settings:    map[string]*yaml.Parameter{s: {Value: s}, "k1": {Value: s}, "k2": {Value: []interface{}{s, "b", s}}, "k3": {Value: map[interface{}]interface{}{s: s, "in": []interface{}{s}, "m": map[interface{}]interface{}{"n": s}}}},
			Devices:     []*yaml.VolumeDevice{{Name: s, DevicePath: s}},
			Ports:       []*yaml.Port{{Port: 1, Host: 2, Protocol: s}},
			Volumes:     []*yaml.VolumeMount{{Name: s, MountPath: s}, {Name: "x", MountPath: s}},
			When:        yaml.Conditions{Action: cond(), Cron: cond(), Ref: cond(), Repo: cond(), Instance: cond(), Target: cond(), Event: cond(), Branch: cond(), Status: cond(), Paths: cond()},
		}
	}
	c1, c2 := mk(), mk()
	if s != "" {
		c2.Build = &yaml.Build{Image: s}
		c2.Push = &yaml.Push{Image: s}
		c2.Environment = map[string]*yaml.Variable{"k": {Secret: s}, s: {Secret: "x"}}
		c2.Settings = map[string]*yaml.Parameter{"k": {Secret: s}, s: {Secret: "x"}}
	}
	c2.When = yaml.Conditions{Branch: yaml.Condition{Include: []string{s}}, Event: yaml.Condition{Exclude: []string{s}}, Status: yaml.Condition{Include: []string{"a", s}}}
	p := &yaml.Pipeline{
		Version: s, Kind: "pipeline", Type: s, Name: s, DependsOn: l(), Node: map[string]string{s: s, "k": s}, PullSecrets: l(),
		Platform:  yaml.Platform{OS: s, Arch: s, Variant: s, Version: s},
		Steps:     []*yaml.Container{c1, {Name: "mid", Image: "x"}},
		Services:  []*yaml.Container{c2},
		Trigger:   yaml.Conditions{Branch: cond(), Event: yaml.Condition{Include: []string{s}}},
		Volumes:   []*yaml.Volume{{Name: s, EmptyDir: &yaml.VolumeEmptyDir{Medium: s, SizeLimit: 1}}, {Name: "x", HostPath: &yaml.VolumeHostPath{Path: s}}},
		Workspace: yaml.Workspace{Base: s, Path: s},
	}
	return []yaml.Resource{p,
		&yaml.Cron{Version: s, Kind: "cron", Name: s, Spec: yaml.CronSpec{Schedule: s, Branch: s, Deploy: yaml.CronDeployment{Target: s}}},
		&yaml.Secret{Version: s, Kind: "secret", Type: s, Name: s, Data: b64},
		&yaml.Secret{Version: s, Kind: "secret", Type: s, Name: s, Get: yaml.SecretGet{Path: s, Name: s, Key: s}},
		&yaml.Registry{Version: s, Kind: "registry", Type: s, Data: map[string]string{s: b64, "other": b64}},
		&yaml.Signature{Version: s, Kind: "signature", Hmac: s},
	}
}

func checkStrings(k *K, s string) {
	k.In(func() string { return fmt.Sprintf("string %q", s) })
	k.State(s)
	class := func(c string) string {
		if ampBang(s) {
			return "unquoted-&!"
		}
		return c
	}
	for _, r := range manifestWith(s) {
		out := printText(r)
		k.Step(2)
		k.Agree(1)
		m, err := yaml.ParseString(out)
		if err != nil {
			k.Fail(class("reparse"), "formatted text does not parse: %v\n%s", err, clip(out, 2500))
			return
		}
		if d := diffResources(normResources(m.Resources, true), normResources([]yaml.Resource{r}, true)); d != "" {
			k.Fail(class("string"), "string %q is not preserved: %s", s, d)
			return
		}
	}
}

func runC08(c *Ctx) {
	words := stringWords()
	c.Range("words", "every special word in every string position of every kind", len(words), func(k *K, i int) { checkStrings(k, words[i]) })
	var dw []string
	for _, w := range dictWords(c.Quick) {
		if w != "from_secret" { // a setting with this key is a secret
			dw = append(dw, w)
		}
	}
	c.Range("dictionary", "every literal of the code, its neighbours and fixed words in every string position of every kind", len(dw), func(k *K, i int) { checkStrings(k, dw[i]) })
	long := longStrings()
	c.Range("long-strings", "strings of many lengths around those of buffers, in every string position of every kind", len(long), func(k *K, i int) { checkStrings(k, long[i]) })
	lim, joins := 3, []string{""}
	if !c.Quick {
		lim, joins = 30, []string{"", " ", ": "}
	}
	var short []string
	for _, w := range words {
		if len(w) <= lim {
			short = append(short, w)
		}
	}
	c.Product("word-pairs", fmt.Sprintf("every ordered pair of special words of up to %d bytes, joined by %q", lim, joins), []int{len(short), len(short), len(joins)}, func(k *K, ix []int) {
		checkStrings(k, short[ix[0]]+joins[ix[2]]+short[ix[1]])
	})
	alpha := []string{"a", " ", ":", "#", "-", "?", "'", "\"", "\\", "[", "]", "{", "}", ",", "&", "*", "!", "|", ">", "%", "@", "`", "~", "=", "<", ".", "0", "\n", "\t", "é", "\u0085", "e", "_", "/"}
	d := 2
	if !c.Quick {
		d = 3
	}
	c.Words("short-strings", fmt.Sprintf("all strings up to length %d over %d characters, in every string position", d, len(alpha)), len(alpha), 0, d, func(k *K, w []int) {
		var s string
		for _, x := range w {
			s += alpha[x]
		}
		checkStrings(k, s)
	})
	// quick: length 3 over the structurally significant characters
	sig := []string{"a", " ", ":", "#", "-", "?", "\"", "&", "!", "0", "\n", "."}
	if c.Quick {
		c.Words("short-strings-3", "all strings of length 3 over 12 characters", len(sig), 3, 3, func(k *K, w []int) {
			var s string
			for _, x := range w {
				s += sig[x]
			}
			checkStrings(k, s)
		})
	} else {
		c.Words("short-strings-4", "all strings of length 4 over 12 characters", len(sig), 4, 4, func(k *K, w []int) {
			var s string
			for _, x := range w {
				s += sig[x]
			}
			checkStrings(k, s)
		})
	}
	// settings trees
	checkV := func(k *K, v interface{}) {
		p := basePipeline()
		p.Steps[0].Settings = map[string]*yaml.Parameter{"a": {Value: "before"}, "k": {Value: v}, "z": {Value: "after"}}
		p.Steps[0].Failure = "ignore"
		text := manifestText(p)
		k.In(func() string { return text })
		k.State(text)
		rs := mustParse(k, "input", text)
		if k.Failed() {
			return
		}
		out := printText(rs...)
		k.Step(1)
		re := mustParse(k, "reparse", out)
		k.Agree(1)
		if k.Failed() {
			return
		}
		if d := diffResources(normResources(re, true), normResources(rs, true)); d != "" {
			k.Fail("setting", "setting value is not preserved: %s\n%s", d, out)
		}
		// and as it was written
		if d := diffResources(normResources(re, true), normResources([]yaml.Resource{p}, true)); d != "" && !k.Failed() {
			k.Fail("setting", "setting value is not the one written: %s\n%s", d, out)
		}
	}
	settingTrees(c, checkV)
}

// settingTrees explores the nested values of a plugin setting.
func settingTrees(c *Ctx, checkV func(k *K, v interface{})) {
	leaves := []interface{}{
		"a", "", "true", "123", "null", "1e3", " a", "# x", "a: b", "- a", "~", "&a", "!b", "multi\nline\n",
		0, 1, -5, 1 << 40, uint64(18446744073709551615), 1.5, 1e100, 1e21, 1e-7, 0.30000000000000004, 123456789.12345679, 5e-324, -0.001, 1e6, inf(1), inf(-1), nan(), true, false, nil,
		[]interface{}{}, map[interface{}]interface{}{},
	}
	keys := []interface{}{"k", "true", "123", "", "a: b", "- x", "null", "~", "<<", 5, true, 1.5, nil, uint64(18446744073709551615), "&k", "?", "-"}
	type mp = map[interface{}]interface{}
	type sq = []interface{}
	nl, nk := len(leaves), len(keys)
	c.Range("settings-1", "every leaf", nl, func(k *K, i int) { checkV(k, leaves[i]) })
	c.Product("settings-seq", "sequences of 1 and 2 leaves", []int{nl, nl + 1}, func(k *K, ix []int) {
		s := sq{leaves[ix[0]]}
		if ix[1] < nl {
			s = append(s, leaves[ix[1]])
		}
		checkV(k, s)
	})
	c.Product("settings-map", "mappings of one key x leaf and of two keys", []int{nk, nl, nk}, func(k *K, ix []int) {
		m := mp{keys[ix[0]]: leaves[ix[1]]}
		if ix[2] != ix[0] {
			m[keys[ix[2]]] = "second"
		}
		checkV(k, m)
	})
	// depth 3: inner values over a reduced leaf set
	small := []interface{}{"a", "12", 3, nil, false, sq{}, mp{}, ""}
	var d2 []interface{}
	for _, x := range small {
		d2 = append(d2, x, sq{x}, mp{"x": x})
		for _, y := range small[:4] {
			d2 = append(d2, sq{x, y}, mp{"x": x, "y": y})
		}
	}
	var d3 []interface{}
	for _, x := range d2 {
		d3 = append(d3, x, sq{x}, mp{"p": x})
	}
	n2, n3 := len(d2), len(d3)
	c.Product("settings-depth3", "sequences and mappings over all two-level values", []int{n2, n2, 3}, func(k *K, ix []int) {
		switch ix[2] {
		case 0:
			checkV(k, sq{d2[ix[0]], d2[ix[1]]})
		case 1:
			checkV(k, mp{"p": d2[ix[0]], "q": d2[ix[1]]})
		case 2:
			if ix[0] == 0 {
				checkV(k, mp{"p": sq{d2[ix[1]], "t"}, "q": mp{"r": d2[ix[1]]}})
			}
		}
	})
	if !c.Quick {
		c.Product("settings-depth4", "sequences and mappings over all pairs of three-level values", []int{n3, n3, 2}, func(k *K, ix []int) {
			if ix[2] == 0 {
				checkV(k, sq{d3[ix[0]], d3[ix[1]]})
			} else {
				checkV(k, mp{"p": d3[ix[0]], "q": d3[ix[1]]})
			}
		})
	} else {
		c.Product("settings-depth4", "one-element sequences and mappings over all three-level values", []int{n3, 3}, func(k *K, ix []int) {
			switch ix[1] {
			case 0:
				checkV(k, sq{d3[ix[0]], "t"})
			case 1:
				checkV(k, mp{"p": d3[ix[0]], "q": 1})
			case 2:
				checkV(k, sq{"h", sq{d3[ix[0]]}})
			}
		})
	}
}
