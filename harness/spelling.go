package main

import (
	"fmt"
	"math"
	"reflect"
	"strings"

	"github.com/drone/drone-yaml/yaml"
)

func init() { register("C04", runC04) }

// ---------------------------------------------------------------------
// C04: spellings
// ---------------------------------------------------------------------

// spelling is one way to write the value of a field: the text after
// "field: ", and its meaning, or that it fits no accepted spelling.
type spelling struct {
	text string
	set  func(c ctr)
	bad  bool
}

type field struct {
	name string // also the top key
	pre  string // text before the value
	post string
	sp   []spelling
}

// scalar spellings of a string, with what they mean.
var scalars = []struct{ text, val string }{
	{"word", "word"}, {"5", "5"}, {"1.10", "1.10"}, {"true", "true"}, {"Yes", "Yes"}, {"0x1F", "0x1F"}, {"010", "010"}, {"2020-01-01", "2020-01-01"},
	{`"quoted: # x"`, "quoted: # x"}, {`'single ''q'''`, "single 'q'"}, {`"5"`, "5"}, {"!!str 5", "5"}, {"!!str null", "null"}, {"a b", "a b"}, {`""`, ""},
	{"1e3", "1e3"}, {"plain/path:1.2", "plain/path:1.2"}, {`"tab\tnl\n"`, "tab\tnl\n"}, {"&anch val", "val"}, {".5", ".5"}, {"-1", "-1"}, {"http://x/y", "http://x/y"},
}

func buildSpellings() []spelling {
	var out []spelling
	b := func(b yaml.Build) func(ctr) { return func(c ctr) { x := b; c.Build = &x } }
	for _, s := range scalars {
		out = append(out, spelling{text: s.text, set: b(yaml.Build{Image: s.val})})
		out = append(out, spelling{text: "{image: " + s.text + "}", set: b(yaml.Build{Image: s.val})})
	}
	keys := []struct {
		text string
		f    func(*yaml.Build)
	}{
		{"image: i", func(b *yaml.Build) { b.Image = "i" }}, {"args: {A: 1, B: two}", func(b *yaml.Build) { b.Args = strMap{"A": "1", "B": "two"} }},
		{"cache_from: [x, y]", func(b *yaml.Build) { b.CacheFrom = []string{"x", "y"} }}, {"context: ctx", func(b *yaml.Build) { b.Context = "ctx" }},
		{"dockerfile: D", func(b *yaml.Build) { b.Dockerfile = "D" }}, {"labels: {l: m}", func(b *yaml.Build) { b.Labels = strMap{"l": "m"} }}, {"unknown: [1]", func(*yaml.Build) {}},
	}
	for m := 0; m < 1<<len(keys); m++ {
		var t []string
		v := yaml.Build{}
		for i, k := range keys {
			if m>>i&1 == 1 {
				t = append(t, k.text)
				k.f(&v)
			}
		}
		out = append(out, spelling{text: "{" + strings.Join(t, ", ") + "}", set: b(v)})
	}
	out = append(out, spelling{text: "~", set: func(ctr) {}}, spelling{text: "[a]", bad: true}, spelling{text: "[]", bad: true}, spelling{text: "{image: [a]}", bad: true}, spelling{text: "{image: {a: b}}", bad: true},
		spelling{text: "{args: [A=1]}", bad: true}, spelling{text: "{args: x}", bad: true}, spelling{text: "{image: i, cache_from: x}", bad: true}, spelling{text: "{image: i, labels: {a: [b]}}", bad: true}, spelling{text: "[image: i]", bad: true},
		spelling{text: "{<<: {image: m, context: c}, image: i}", set: b(yaml.Build{Image: "i", Context: "c"})})
	return out
}

func pushSpellings() []spelling {
	var out []spelling
	p := func(s string) func(ctr) { return func(c ctr) { c.Push = &yaml.Push{Image: s} } }
	for _, s := range scalars {
		out = append(out, spelling{text: s.text, set: p(s.val)}, spelling{text: "{image: " + s.text + "}", set: p(s.val)})
	}
	return append(out, spelling{text: "~", set: func(ctr) {}}, spelling{text: "{}", set: p("")}, spelling{text: "{other: x}", set: p("")}, spelling{text: "[a]", bad: true}, spelling{text: "{image: [a]}", bad: true}, spelling{text: "[{image: a}]", bad: true})
}

func portSpellings() []spelling {
	var out []spelling
	p := func(l ...*yaml.Port) func(ctr) { return func(c ctr) { c.Ports = l } }
	ints := []struct {
		text string
		v    int
	}{{"80", 80}, {"0x50", 80}, {"0", 0}, {"65535", 65535}, {"+8", 8}, {"8_0", 80}}
	for _, a := range ints {
		out = append(out, spelling{text: "[" + a.text + "]", set: p(&yaml.Port{Port: a.v})}, spelling{text: "[{port: " + a.text + "}]", set: p(&yaml.Port{Port: a.v})},
			spelling{text: "[{host: " + a.text + "}]", set: p(&yaml.Port{Host: a.v})})
	}
	for m := 0; m < 16; m++ {
		var t []string
		v := &yaml.Port{}
		if m&1 != 0 {
			t, v.Port = append(t, "port: 80"), 80
		}
		if m&2 != 0 {
			t, v.Host = append(t, "host: 8080"), 8080
		}
		if m&4 != 0 {
			t, v.Protocol = append(t, "protocol: udp"), "udp"
		}
		if m&8 != 0 {
			t = append(t, "unknown: {x: y}")
		}
		out = append(out, spelling{text: "[{" + strings.Join(t, ", ") + "}]", set: p(v)})
		out = append(out, spelling{text: "[22, {" + strings.Join(t, ", ") + "}, 44]", set: p(&yaml.Port{Port: 22}, v, &yaml.Port{Port: 44})})
	}
	for _, s := range []string{"80", "{port: 80}", `["80"]`, "[80:8080]", "[80/tcp]", "[true]", "[word]", "[[80]]", "[{port: x}]", `[{port: "80"}]`, "[{host: [1]}]", "[{protocol: [tcp]}]", "[{protocol: {a: b}}]", "[22, x]", "[x, 22]", "[99999999999999999999]", "word"} {
		out = append(out, spelling{text: s, bad: true})
	}
	return append(out, spelling{text: "[]", set: p()}, spelling{text: "~", set: p()})
}

func envSpellings() []spelling {
	var out []spelling
	e := func(m map[string]*yaml.Variable) func(ctr) { return func(c ctr) { c.Environment = m } }
	one := func(v yaml.Variable) func(ctr) { return e(map[string]*yaml.Variable{"A": &v}) }
	for _, s := range scalars {
		out = append(out, spelling{text: "{A: " + s.text + "}", set: one(yaml.Variable{Value: s.val})}, spelling{text: "{A: {value: " + s.text + "}}", set: one(yaml.Variable{Value: s.val})},
			spelling{text: "{" + strings.Replace(s.text, "&anch ", "", 1) + ": x}", set: e(map[string]*yaml.Variable{s.val: {Value: "x"}})})
		if s.val != "" {
			out = append(out, spelling{text: "{A: {from_secret: " + s.text + "}}", set: one(yaml.Variable{Secret: s.val})},
				spelling{text: "{A: x, B: {from_secret: " + s.text + "}, C: y}", set: e(map[string]*yaml.Variable{"A": {Value: "x"}, "B": {Secret: s.val}, "C": {Value: "y"}})})
		}
	}
	for _, s := range []string{"[A=1]", "[{A: 1}]", "word", "5", "{A: [x]}", "{A: []}", "{A: {value: [x]}}", "{A: {from_secret: [x]}}", "{A: {from_secret: {a: b}}}", "{A: x, B: [y]}", "{A: [y], B: x}", "{A: {from_secret: s}, B: [y]}", "{A: [{from_secret: s}]}"} {
		out = append(out, spelling{text: s, bad: true})
	}
	return append(out, spelling{text: "{}", set: e(nil)}, spelling{text: "~", set: e(nil)}, spelling{text: "{A: ~}", set: e(map[string]*yaml.Variable{"A": nil})},
		spelling{text: "{A: &r {from_secret: s}, B: *r}", set: e(map[string]*yaml.Variable{"A": {Secret: "s"}, "B": {Secret: "s"}})},
		spelling{text: "{A: {<<: {from_secret: s}}}", set: one(yaml.Variable{Secret: "s"})},
		spelling{text: "{A: {from_secret: s, other: [x]}}", set: one(yaml.Variable{Secret: "s"})},
		spelling{text: "{A: {other: {y: z}, from_secret: s}}", set: one(yaml.Variable{Secret: "s"})},
		spelling{text: "{<<: {A: x, B: y}, B: {from_secret: s}}", set: e(map[string]*yaml.Variable{"A": {Value: "x"}, "B": {Secret: "s"}})})
}

func settingSpellings() []spelling {
	var out []spelling
	e := func(m map[string]*yaml.Parameter) func(ctr) { return func(c ctr) { c.Settings = m } }
	one := func(v yaml.Parameter) func(ctr) { return e(map[string]*yaml.Parameter{"A": &v}) }
	mp := func(kv ...interface{}) map[interface{}]interface{} {
		m := map[interface{}]interface{}{}
		for i := 0; i < len(kv); i += 2 {
			m[kv[i]] = kv[i+1]
		}
		return m
	}
	for _, s := range scalars {
		if s.val != "" {
			out = append(out, spelling{text: "{A: {from_secret: " + s.text + "}}", set: one(yaml.Parameter{Secret: s.val})},
				spelling{text: "{A: x, B: {from_secret: " + s.text + "}, C: [z]}", set: e(map[string]*yaml.Parameter{"A": {Value: "x"}, "B": {Secret: s.val}, "C": {Value: []interface{}{"z"}}})})
		}
	}
	for _, v := range []struct {
		text string
		val  interface{}
	}{{"word", "word"}, {"5", 5}, {"1.5", 1.5}, {"true", true}, {"no", false}, {`"5"`, "5"}, {`"true"`, "true"}, {`""`, ""}, {"[a, 1, true, ~, 1.5, [b], {c: d}]", []interface{}{"a", 1, true, nil, 1.5, []interface{}{"b"}, mp("c", "d")}},
		{"{a: b, c: {d: [e]}}", mp("a", "b", "c", mp("d", []interface{}{"e"}))}, {"[]", []interface{}{}}, {"{}", mp()}, {"{secret: x}", mp("secret", "x")}, {"{value: x}", mp("value", "x")},
		{"[{from_secret: s}]", []interface{}{mp("from_secret", "s")}}, {"{a: {from_secret: s}}", mp("a", mp("from_secret", "s"))}, {"from_secret", "from_secret"}, {"[from_secret, s]", []interface{}{"from_secret", "s"}},
		{"{1: 2}", mp(1, 2)}, {"0x1F", 31}, {"!!str 5", "5"}} {
		out = append(out, spelling{text: "{A: " + v.text + "}", set: one(yaml.Parameter{Value: v.val})}, spelling{text: "{B: {from_secret: s}, A: " + v.text + "}", set: e(map[string]*yaml.Parameter{"A": {Value: v.val}, "B": {Secret: "s"}})})
	}
	for _, s := range []string{"[A]", "[{A: 1}]", "word", "5", "[]"} {
		out = append(out, spelling{text: s, bad: true})
	}
	return append(out, spelling{text: "{}", set: e(nil)}, spelling{text: "~", set: e(nil)}, spelling{text: "{A: ~}", set: e(map[string]*yaml.Parameter{"A": nil})},
		spelling{text: "{A: &r {from_secret: s}, B: *r}", set: e(map[string]*yaml.Parameter{"A": {Secret: "s"}, "B": {Secret: "s"}})},
		spelling{text: "{A: {<<: {from_secret: s}}}", set: one(yaml.Parameter{Secret: "s"})},
		spelling{text: "{A: {from_secret: s, other: [x]}}", set: one(yaml.Parameter{Secret: "s"})},
		spelling{text: "{A: {other: {y: z}, from_secret: s}}", set: one(yaml.Parameter{Secret: "s"})},
		spelling{text: "{<<: {A: x, B: y}, B: {from_secret: s}}", set: e(map[string]*yaml.Parameter{"A": {Value: "x"}, "B": {Secret: "s"}})})
}

type condSpelling struct {
	text string
	c    yaml.Condition
}

func condSpellings() []condSpelling {
	var out []condSpelling
	for _, s := range scalars {
		out = append(out, condSpelling{s.text, yaml.Condition{Include: []string{s.val}}}, condSpelling{"[" + s.text + "]", yaml.Condition{Include: []string{s.val}}},
			condSpelling{"{include: [" + s.text + "]}", yaml.Condition{Include: []string{s.val}}}, condSpelling{"{exclude: [" + s.text + "]}", yaml.Condition{Exclude: []string{s.val}}})
	}
	l := []struct {
		text string
		v    []string
	}{{"", nil}, {"[]", nil}, {"~", nil}, {"[a]", []string{"a"}}, {"[a, b/*, '!c']", []string{"a", "b/*", "!c"}}, {"[1, true]", []string{"1", "true"}}, {"[b, a, b]", []string{"b", "a", "b"}}}
	for _, i := range l {
		if i.text != "" {
			out = append(out, condSpelling{i.text, yaml.Condition{Include: i.v}})
		}
		for _, e := range l {
			var t []string
			if i.text != "" {
				t = append(t, "include: "+i.text)
			}
			if e.text != "" {
				t = append(t, "exclude: "+e.text)
			}
			out = append(out, condSpelling{"{" + strings.Join(t, ", ") + "}", yaml.Condition{Include: i.v, Exclude: e.v}})
			for a, b := 0, len(t)-1; a < b; a, b = a+1, b-1 {
				t[a], t[b] = t[b], t[a]
			}
			out = append(out, condSpelling{"{" + strings.Join(append(t, "unknown: x"), ", ") + "}", yaml.Condition{Include: i.v, Exclude: e.v}})
		}
	}
	return append(out, condSpelling{"{<<: {include: [a]}, exclude: [b]}", yaml.Condition{Include: []string{"a"}, Exclude: []string{"b"}}})
}

var condNames = []string{"action", "branch", "cron", "event", "instance", "paths", "ref", "repo", "status", "target"}

func condOf(c *yaml.Conditions, name string) *yaml.Condition {
	switch name {
	case "action":
		return &c.Action
	case "branch":
		return &c.Branch
	case "cron":
		return &c.Cron
	case "event":
		return &c.Event
	case "instance":
		return &c.Instance
	case "paths":
		return &c.Paths
	case "ref":
		return &c.Ref
	case "repo":
		return &c.Repo
	case "status":
		return &c.Status
	}
	return &c.Target
}

// sizeSpellings: plain numbers and numbers with a binary unit.
func sizeSpellings() []struct {
	text string
	v    int64
	bad  bool
} {
	type S = struct {
		text string
		v    int64
		bad  bool
	}
	var out []S
	for _, n := range []struct {
		t string
		v float64
	}{{"1", 1}, {"44", 44}, {"0", 0}, {"1.5", 1.5}, {"100", 100}, {"0.25", 0.25}} {
		for p, u := range []string{"", "k", "m", "g", "t", "p"} {
			f := n.v
			for i := 0; i < p; i++ {
				f *= 1024
			}
			for _, suffix := range []string{"", "b", "ib"} {
				if u == "" && suffix == "ib" {
					continue
				}
				for _, sp := range []string{"", " "} {
					for _, up := range []bool{false, true} {
						w := u + suffix
						if up {
							w = strings.ToUpper(w)
						}
						t := n.t + sp + w
						if w == "" && (sp != "" || up || n.v != math.Trunc(n.v)) {
							continue
						}
						v := int64(f)
						out = append(out, S{t, v, false}, S{"'" + t + "'", v, false})
					}
				}
			}
		}
	}
	for _, s := range []string{"word", "5x", "5kk", "''", "GiB", "true", "[1]", "[]", "{a: b}", "1.2.3g", "'- 5'", "5 5", "x5m"} {
		out = append(out, S{s, 0, true})
	}
	return append(out, S{"~", 0, false}, S{"0x10", 16, false}, S{"1_000", 1000, false}, S{"9223372036854775807", math.MaxInt64, false})
}

// fields of a container and their spellings.
func spelledFields() []field {
	fs := []field{
		{name: "build", sp: buildSpellings()},
		{name: "push", sp: pushSpellings()},
		{name: "ports", sp: portSpellings()},
		{name: "environment", sp: envSpellings()},
		{name: "settings", sp: settingSpellings()},
	}
	var when, limits, requests []spelling
	for _, n := range condNames {
		n := n
		for _, s := range condSpellings() {
			s := s
			when = append(when, spelling{text: "{" + n + ": " + s.text + "}", set: func(c ctr) { *condOf(&c.When, n) = s.c }})
		}
	}
	when = append(when, spelling{text: "~", set: func(ctr) {}}, spelling{text: "{matrix: {A: 1, B: x}}", set: func(c ctr) { c.When.Matrix = strMap{"A": "1", "B": "x"} }}, spelling{text: "word", bad: true}, spelling{text: "[branch]", bad: true}, spelling{text: "{matrix: [A]}", bad: true},
		spelling{text: "{branch: a, event: [b], ref: {exclude: [c]}}", set: func(c ctr) {
			c.When.Branch.Include, c.When.Event.Include, c.When.Ref.Exclude = []string{"a"}, []string{"b"}, []string{"c"}
		}})
	for _, s := range sizeSpellings() {
		s := s
		l := spelling{text: "{limits: {memory: " + s.text + ", cpu: 2}}", bad: s.bad, set: func(c ctr) {
			c.Resources = &yaml.Resources{Limits: &yaml.ResourceObject{CPU: 2, Memory: yaml.BytesSize(s.v)}}
		}}
		r := spelling{text: "{requests: {memory: " + s.text + "}}", bad: s.bad, set: func(c ctr) {
			c.Resources = &yaml.Resources{Requests: &yaml.ResourceObject{Memory: yaml.BytesSize(s.v)}}
		}}
		limits, requests = append(limits, l), append(requests, r)
	}
	return append(fs, field{name: "when", sp: when}, field{name: "resources", sp: append(limits, requests...)})
}

func runC04(c *Ctx) {
	fs := spelledFields()
	type unit struct{ f, s int }
	var all []unit
	for i, f := range fs {
		for j := range f.sp {
			all = append(all, unit{i, j})
		}
	}
	// text and value of a pipeline: entries[container][field] = spelling
	render := func(fields [3]map[int]int) (string, pipe, bool) {
		p := basePipeline()
		cs := []ctr{p.Steps[0], p.Steps[1], p.Services[0]}
		var b strings.Builder
		b.WriteString("kind: pipeline\nname: default\nsteps:\n")
		bad := false
		for i, x := range cs {
			if i == 2 {
				b.WriteString("services:\n")
			}
			fmt.Fprintf(&b, "- name: %s\n  image: %s\n", x.Name, x.Image)
			for fi, f := range fs {
				if si, ok := fields[i][fi]; ok {
					s := f.sp[si]
					fmt.Fprintf(&b, "  %s: %s\n", f.name, s.text)
					if s.bad {
						bad = true
					} else {
						s.set(x)
					}
				}
			}
		}
		return b.String(), p, bad
	}
	check := func(k *K, text string, want pipe, bad bool) {
		k.In(func() string { return text })
		k.State(text)
		k.Step(1)
		k.Agree(1)
		m, err := yaml.ParseString(text)
		if bad {
			if err == nil {
				k.Fail("accepted", "a value that fits no spelling of its field is accepted: %s", js(m.Resources))
			}
			return
		}
		if err != nil {
			k.Fail("refused", "an accepted spelling is refused: %v", err)
			return
		}
		if len(m.Resources) != 1 {
			k.Fail("shape", "%d resources", len(m.Resources))
			return
		}
		got, ok := m.Resources[0].(*yaml.Pipeline)
		if !ok {
			k.Fail("shape", "a %T", m.Resources[0])
			return
		}
		w := normSpelled(want)
		g := normSpelled(got)
		if !reflect.DeepEqual(g, w) {
			k.Fail("value", "decoded differently: %s", firstDiff("pipeline", reflect.ValueOf(g), reflect.ValueOf(w)))
		}
	}
	c.Product("single", fmt.Sprintf("every one of %d spellings of a container field, in the first and last step and in a service", len(all)), []int{3, len(all)}, func(k *K, ix []int) {
		u := all[ix[1]]
		var e [3]map[int]int
		e[ix[0]] = map[int]int{u.f: u.s}
		t, p, bad := render(e)
		check(k, t, p, bad)
	})
	// pairs in one container and in two containers, over a choice of the
	// spellings of each field
	limit := 24
	if !c.Quick {
		limit = 250
	}
	var sub []unit
	n := map[int]int{}
	for _, u := range all {
		n[u.f]++
		step := len(fs[u.f].sp)/limit + 1
		if n[u.f]%step == 0 || fs[u.f].sp[u.s].bad {
			sub = append(sub, u)
		}
	}
	c.Product("pairs", fmt.Sprintf("all pairs of %d spellings, in one container or two", len(sub)), []int{2, len(sub), len(sub)}, func(k *K, ix []int) {
		a, b := sub[ix[1]], sub[ix[2]]
		var e [3]map[int]int
		if ix[0] == 0 {
			if a.f >= b.f {
				return // the same field twice, or the same pair
			}
			e[0] = map[int]int{a.f: a.s, b.f: b.s}
		} else {
			e[0] = map[int]int{a.f: a.s}
			e[2] = map[int]int{b.f: b.s}
		}
		t, p, bad := render(e)
		check(k, t, p, bad)
	})
	// pipeline level: trigger conditions and volume sizes
	cs := condSpellings()
	c.Product("trigger", "every spelling of every trigger condition", []int{len(condNames), len(cs)}, func(k *K, ix []int) {
		p := basePipeline()
		*condOf(&p.Trigger, condNames[ix[0]]) = cs[ix[1]].c
		t, _, _ := render([3]map[int]int{})
		check(k, t+"trigger: {"+condNames[ix[0]]+": "+cs[ix[1]].text+"}\n", p, false)
	})
	c.Product("trigger-pairs", "pairs of conditions in their short spellings", []int{len(condNames), len(condNames), 8, 8}, func(k *K, ix []int) {
		if ix[0] == ix[1] {
			return
		}
		a, b := cs[ix[2]*11%len(cs)], cs[ix[3]*13%len(cs)]
		p := basePipeline()
		*condOf(&p.Trigger, condNames[ix[0]]) = a.c
		*condOf(&p.Trigger, condNames[ix[1]]) = b.c
		t, _, _ := render([3]map[int]int{})
		check(k, t+"trigger: {"+condNames[ix[0]]+": "+a.text+", "+condNames[ix[1]]+": "+b.text+"}\n", p, false)
	})
	ss := sizeSpellings()
	c.Range("size_limit", "every spelling of a volume size", len(ss), func(k *K, i int) {
		p := basePipeline()
		p.Volumes = []*yaml.Volume{{Name: "v", EmptyDir: &yaml.VolumeEmptyDir{Medium: "memory", SizeLimit: yaml.BytesSize(ss[i].v)}}, {Name: "w"}}
		t, _, _ := render([3]map[int]int{})
		check(k, t+"volumes: [{name: v, temp: {size_limit: "+ss[i].text+", medium: memory}}, {name: w}]\n", p, ss[i].bad)
	})
	// every field, every shape of value
	fields, shapes := fieldShapes()
	c.Product("shapes", fmt.Sprintf("each of %d fields of all kinds of resources with each of %d shapes of value", len(fields), len(shapes)), []int{len(fields), len(shapes)}, func(k *K, ix []int) {
		f, s := fields[ix[0]], shapes[ix[1]]
		text := strings.Replace(f.text, "%%", s.text, 1)
		k.In(func() string { return text })
		k.State(text)
		ok, known := s.ok[f.kind]
		if !known {
			return
		}
		k.Step(1)
		k.Agree(1)
		_, err := yaml.ParseString(text)
		if ok && err != nil {
			k.Fail("refused", "an accepted spelling is refused: %v", err)
		}
		if !ok && err == nil {
			k.Fail("accepted", "a value that fits no spelling of its field is accepted")
		}
	})
	c.Assume("left out: numbers with a fraction where an integer is expected, and mappings with from_secret that name no secret")
}

// normSpelled removes distinctions without meaning, but keeps null entries.
func normSpelled(p pipe) pipe {
	q := clone(p)
	fix := func(x ctr) {
		if x.Environment != nil && len(x.Environment) == 0 {
			x.Environment = nil
		}
		if len(x.Settings) == 0 {
			x.Settings = nil
		}
		for _, v := range x.Settings {
			if v != nil {
				v.Value = normValue(v.Value)
			}
		}
		x.Ports = append([]*yaml.Port(nil), x.Ports...)
		x.When = normConds(x.When)
		if x.Build != nil {
			x.Build.Args, x.Build.Labels, x.Build.CacheFrom = normMap(x.Build.Args), normMap(x.Build.Labels), normStrs(x.Build.CacheFrom)
		}
	}
	for _, x := range append(append([]ctr{}, q.Steps...), q.Services...) {
		fix(x)
	}
	q.Trigger = normConds(q.Trigger)
	return q
}

type shapeField struct{ text, kind string }
type shape struct {
	text string
	ok   map[string]bool
}

// fieldShapes lists every field with its kind of value, and shapes of
// values with the kinds they fit (absent: not specified).
func fieldShapes() ([]shapeField, []shape) {
	var fs []shapeField
	add := func(pre, post string, kind string, names ...string) {
		for _, n := range names {
			fs = append(fs, shapeField{pre + n + ": %%" + post, kind})
		}
	}
	pl := "kind: pipeline\n"
	add(pl, "\n", "str", "version", "type", "name")
	add(pl, "\n", "strs", "depends_on", "image_pull_secrets")
	add(pl, "\n", "map", "node")
	add(pl, "\n", "struct", "clone", "concurrency", "platform", "trigger", "workspace")
	add(pl, "\n", "structs", "steps", "services", "volumes")
	add(pl+"clone: {", "}\n", "bool", "disable", "skip_verify")
	add(pl+"clone: {", "}\n", "int", "depth")
	add(pl+"concurrency: {", "}\n", "int", "limit")
	add(pl+"platform: {", "}\n", "str", "os", "arch", "variant", "version")
	add(pl+"workspace: {", "}\n", "str", "base", "path")
	add(pl+"trigger: {", "}\n", "map", "matrix")
	add(pl+"trigger: {", "}\n", "cond", condNames...)
	for _, n := range condNames {
		add(pl+"trigger: {"+n+": {", "}}\n", "strs", "include", "exclude")
		add(pl+"steps: [{name: a, when: {"+n+": {", "}}}]\n", "strs", "include", "exclude")
	}
	add(pl+"volumes: [{", "}]\n", "str", "name")
	add(pl+"volumes: [{", "}]\n", "struct", "temp", "host")
	add(pl+"volumes: [{temp: {", "}}]\n", "str", "medium")
	add(pl+"volumes: [{temp: {", "}}]\n", "size", "size_limit")
	add(pl+"volumes: [{host: {", "}}]\n", "str", "path")
	for _, l := range []string{"steps: [{name: a, image: b}, {", "services: [{"} {
		add(pl+l, "}]\n", "str", "failure", "image", "network_mode", "name", "pull", "shell", "user", "working_dir")
		add(pl+l, "}]\n", "strs", "command", "commands", "depends_on", "dns", "dns_search", "entrypoint", "extra_hosts")
		add(pl+l, "}]\n", "bool", "detach", "privileged")
		add(pl+l, "}]\n", "structs", "devices", "volumes")
		add(pl+l, "}]\n", "struct", "resources", "when")
		add(pl+l, "}]\n", "short", "build", "push")
		add(pl+l+"resources: {", "}}]\n", "struct", "limits", "requests")
		add(pl+l+"resources: {limits: {", "}}}]\n", "float", "cpu")
		add(pl+l+"resources: {requests: {", "}}}]\n", "size", "memory")
		add(pl+l+"volumes: [{", "}]}]\n", "str", "name", "path")
		add(pl+l+"devices: [{", "}]}]\n", "str", "name", "path")
		add(pl+l+"environment: {", "}}]\n", "short", "X")
		add(pl+l+"settings: {", "}}]\n", "any", "X")
		add(pl+l+"when: {", "}}]\n", "cond", condNames...)
		add(pl+l+"build: {", "}}]\n", "str", "context", "dockerfile", "image")
		add(pl+l+"build: {", "}}]\n", "strs", "cache_from")
		add(pl+l+"build: {", "}}]\n", "map", "args", "labels")
		add(pl+l+"push: {", "}}]\n", "str", "image")
		fs = append(fs, shapeField{pl + l + "ports: [%%]}]\n", "port"})
		add(pl+l+"ports: [{", "}]}]\n", "int", "port", "host")
		add(pl+l+"ports: [{", "}]}]\n", "str", "protocol")
	}
	add("kind: cron\n", "\n", "str", "version", "type", "name")
	add("kind: cron\n", "\n", "struct", "spec")
	add("kind: cron\nspec: {", "}\n", "str", "schedule", "branch")
	add("kind: cron\nspec: {", "}\n", "struct", "deployment")
	add("kind: cron\nspec: {deployment: {", "}}\n", "str", "target")
	add("kind: secret\n", "\n", "str", "version", "type", "name", "data")
	add("kind: secret\n", "\n", "struct", "get")
	add("kind: secret\nget: {", "}\n", "str", "path", "name", "key")
	add("kind: registry\n", "\n", "str", "version", "type")
	add("kind: registry\n", "\n", "map", "data")
	add("kind: signature\n", "\n", "str", "version", "hmac")
	kinds := []string{"str", "strs", "map", "struct", "structs", "bool", "int", "float", "size", "cond", "short", "any", "port"}
	mk := func(text string, ok string, unspecified string) shape {
		s := shape{text, map[string]bool{}}
		for _, k := range kinds {
			s.ok[k] = contains(strings.Fields(ok), k) || k == "any"
		}
		for _, k := range strings.Fields(unspecified) {
			delete(s.ok, k)
		}
		return s
	}
	return fs, []shape{
		mk("word", "str short cond", ""),
		mk(`"5"`, "str short size cond", ""),
		mk("5", "str short size int float port cond", ""),
		mk("1.5", "str short float cond", "int size port"),
		mk("true", "str short bool cond", ""),
		mk(`"true"`, "str short cond", ""),
		mk("~", strings.Join(kinds, " "), ""),
		mk("2020-01-01", "str short cond", ""),
		mk("[a]", "strs cond", ""),
		mk("[5, true]", "strs cond", ""),
		mk("[]", "strs structs cond", ""),
		mk("[[a]]", "", ""),
		mk("[a, [b]]", "", ""),
		mk("[{unknown: b}]", "structs", ""),
		mk("[~]", "strs structs cond", ""),
		mk("{unknown: b}", "map struct short port cond", ""),
		mk("{unknown: 5}", "map struct short port cond", ""),
		mk("{unknown: [b]}", "struct short port cond", ""),
		mk("{unknown: {c: d}}", "struct short port cond", ""),
		mk("{}", "map struct short port cond", ""),
	}
}
