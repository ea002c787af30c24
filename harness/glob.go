package main

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/drone/drone-yaml/yaml"
)

func init() { register("C28", runC28) }

// ---------------------------------------------------------------------
// Reference glob matcher: a pattern is parsed into tokens per path
// component; a set-of-positions automaton decides the match.
// ---------------------------------------------------------------------

type globTok struct {
	kind byte // 'c' literal, '?' any, '*' star, '[' class, '{' alternatives
	r    rune
	not  bool
	rng  [][2]rune
	alts [][]globTok
}

// parseGlobPart parses one path component.
func parseGlobPart(p []rune) (out []globTok, ok bool) {
	for i := 0; i < len(p); i++ {
		switch p[i] {
		case '\\':
			i++
			if i == len(p) {
				return nil, false
			}
			out = append(out, globTok{kind: 'c', r: p[i]})
		case '*':
			out = append(out, globTok{kind: '*'})
		case '?':
			out = append(out, globTok{kind: '?'})
		case '[':
			end := -1
			for j := i + 1; j < len(p); j++ {
				if p[j] == '\\' {
					j++
				} else if p[j] == ']' {
					end = j
					break
				}
			}
			if end < 0 {
				return nil, false
			}
			body := p[i+1 : end]
			t := globTok{kind: '['}
			if len(body) == 0 {
				return nil, false
			}
			if body[0] == '^' {
				t.not = true
				body = body[1:]
			}
			one := func() (rune, bool) {
				if len(body) == 0 || body[0] == '-' {
					return 0, false
				}
				if body[0] == '\\' {
					if len(body) < 2 {
						return 0, false
					}
					r := body[1]
					body = body[2:]
					return r, true
				}
				r := body[0]
				body = body[1:]
				return r, true
			}
			for len(body) > 0 {
				lo, good := one()
				if !good {
					return nil, false
				}
				hi := lo
				if len(body) > 0 && body[0] == '-' {
					body = body[1:]
					if hi, good = one(); !good {
						return nil, false
					}
				}
				t.rng = append(t.rng, [2]rune{lo, hi})
			}
			out = append(out, t)
			i = end
		case '{':
			end := -1
			for j := i + 1; j < len(p); j++ {
				if p[j] == '\\' {
					j++
				} else if p[j] == '}' {
					end = j
					break
				}
			}
			if end < 0 {
				return nil, false
			}
			t := globTok{kind: '{'}
			start := i + 1
			for j := i + 1; j <= end; j++ {
				if p[j] == '\\' && j < end {
					j++
					continue
				}
				if j == end || p[j] == ',' {
					alt, good := parseGlobPart(p[start:j])
					if !good {
						return nil, false
					}
					t.alts = append(t.alts, alt)
					start = j + 1
				}
			}
			out = append(out, t)
			i = end
		default:
			out = append(out, globTok{kind: 'c', r: p[i]})
		}
	}
	return out, true
}

// globEnds returns the set of positions reachable in s from position at.
func globEnds(ts []globTok, s []rune, at map[int]bool) map[int]bool {
	for _, t := range ts {
		next := map[int]bool{}
		for i := range at {
			switch t.kind {
			case '*':
				for j := i; j <= len(s); j++ {
					next[j] = true
				}
			case '{':
				for _, a := range t.alts {
					for j := range globEnds(a, s, map[int]bool{i: true}) {
						next[j] = true
					}
				}
			default:
				if i == len(s) {
					continue
				}
				hit := t.kind == '?' || t.kind == 'c' && s[i] == t.r
				if t.kind == '[' {
					in := false
					for _, r := range t.rng {
						in = in || r[0] <= s[i] && s[i] <= r[1]
					}
					hit = in != t.not
				}
				if hit {
					next[i+1] = true
				}
			}
		}
		at = next
	}
	return at
}

func refGlob(pattern, value string) bool {
	// split the pattern at unescaped slashes
	var parts [][]rune
	var cur []rune
	rs := []rune(pattern)
	for i, r := range rs {
		if r == '/' && (i == 0 || rs[i-1] != '\\') {
			parts = append(parts, cur)
			cur = nil
			continue
		}
		cur = append(cur, r)
	}
	parts = append(parts, cur)
	var toks [][]globTok
	for _, p := range parts {
		if string(p) == "**" {
			toks = append(toks, nil)
			continue
		}
		t, ok := parseGlobPart(p)
		if !ok {
			return false
		}
		if t == nil {
			t = []globTok{}
		}
		toks = append(toks, t)
	}
	names := strings.Split(value, "/")
	var rec func(i, j int) bool
	rec = func(i, j int) bool {
		if i == len(toks) {
			return j == len(names)
		}
		if toks[i] == nil { // ** stands for whole components
			if i == len(toks)-1 {
				return j < len(names)
			}
			for k := j; k < len(names); k++ {
				if rec(i+1, k) {
					return true
				}
			}
			return false
		}
		if j == len(names) {
			return false
		}
		s := []rune(names[j])
		return globEnds(toks[i], s, map[int]bool{0: true})[len(s)] && rec(i+1, j+1)
	}
	return rec(0, 0)
}

func refCondition(c yaml.Condition, v string) bool {
	for _, p := range c.Exclude {
		if refGlob(p, v) {
			return false
		}
	}
	if len(c.Include) == 0 {
		return true
	}
	for _, p := range c.Include {
		if refGlob(p, v) {
			return true
		}
	}
	return false
}

// globDomain leaves out texts whose meaning the documentation leaves open:
// trailing slashes, runs of three stars, empty components against
// alternatives.
func globDomain(p, v string) bool {
	if strings.HasSuffix(p, "/") || strings.HasSuffix(v, "/") || strings.Contains(strings.NewReplacer("}", "", "{", "", ",", "").Replace(p), "***") || strings.Contains(p, `\/`) {
		return false
	}
	if strings.ContainsAny(p, "{") && (v == "" || strings.Contains(v, "//") || strings.HasPrefix(v, "/")) {
		return false
	}
	// malformed alternatives next to well-formed ones
	if i := strings.IndexByte(p, '{'); i >= 0 {
		if _, ok := parseGlobPart([]rune(p[i:])); !ok {
			if strings.ContainsRune(p[i:], '}') {
				return false
			}
		}
	}
	return true
}

func checkCondition(k *K, c yaml.Condition, v string) {
	inc, exc := append([]string(nil), c.Include...), append([]string(nil), c.Exclude...)
	got := c.Match(v)
	k.Step(1)
	k.Agree(1)
	if want := refCondition(c, v); got != want {
		k.Fail("match", "include %q exclude %q: Match(%q) = %v, want %v", inc, exc, v, got, want)
	}
	some := func(l []string) bool {
		for _, p := range l {
			if refGlob(p, v) {
				return true
			}
		}
		return false
	}
	if got, want := c.Includes(v), some(inc); got != want {
		k.Fail("includes", "include %q: Includes(%q) = %v, want %v", inc, v, got, want)
	}
	if got, want := c.Excludes(v), some(exc); got != want {
		k.Fail("excludes", "exclude %q: Excludes(%q) = %v, want %v", exc, v, got, want)
	}
	if !reflect.DeepEqual(append([]string(nil), c.Include...), inc) || !reflect.DeepEqual(append([]string(nil), c.Exclude...), exc) {
		k.Fail("mutated", "matching %q changed the condition to %q %q", v, c.Include, c.Exclude)
	}
}

func runC28(c *Ctx) {
	conditionDict(c)
	atoms := []string{"a", "b", "/", "*", "**", "?", "[ab]", "[^a]", "[a-b]", "{a,b}", "{ab,b*}", `\*`, "[", "{", `\`, "é", "A", ".", "refs"}
	var values []string
	var rec func(p string, d int)
	vals := []string{"a", "b", "/"}
	depth := 3
	if !c.Quick {
		depth = 4
	}
	rec = func(p string, d int) {
		values = append(values, p)
		if d > 0 {
			for _, x := range vals {
				rec(p+x, d-1)
			}
		}
	}
	rec("", depth)
	values = append(values, "é", "aé", "*", "a*", "A", "Ab", "ab/ab", "a/b/a/b", "refs", "refs/a", "refs/a/b", "a.b", "abab", "xa", "ax", `\`, "[", "{")
	n := 3
	if !c.Quick {
		n = 4
	}
	c.Words("patterns", fmt.Sprintf("all patterns of up to %d atoms over %q x %d values, as include, exclude and both", n, atoms, len(values)), len(atoms), 0, n, func(k *K, w []int) {
		var b strings.Builder
		for _, i := range w {
			b.WriteString(atoms[i])
		}
		p := b.String()
		k.In(func() string { return fmt.Sprintf("pattern %q", p) })
		for _, v := range values {
			if !globDomain(p, v) {
				continue
			}
			k.State(p + "\x00" + v)
			checkCondition(k, yaml.Condition{Include: []string{p}}, v)
			checkCondition(k, yaml.Condition{Exclude: []string{p}}, v)
		}
	})
	// include and exclude lists
	pats := []string{"master", "mast*", "*", "**", "feature/*", "feature/**", "refs/tags/v*", "[", "{master,develop}", "pull_request", ""}
	vs := []string{"master", "mast", "develop", "feature/a", "feature/a/b", "refs/tags/v1", "refs/heads/master", "pull_request", "", "Master", "xmaster", "masters"}
	var lists [][]string
	lists = append(lists, nil, []string{})
	for _, p := range pats {
		lists = append(lists, []string{p})
	}
	for _, p := range pats {
		for _, q := range pats {
			lists = append(lists, []string{p, q})
		}
	}
	if !c.Quick {
		for _, p := range pats {
			for _, q := range pats {
				for _, r := range pats[:6] {
					lists = append(lists, []string{p, q, r})
				}
			}
		}
	}
	c.Product("lists", "all include x exclude lists of up to two (thorough: three) patterns x values", []int{len(lists), len(lists)}, func(k *K, ix []int) {
		in, ex := lists[ix[0]], lists[ix[1]]
		k.In(func() string { return fmt.Sprintf("include %q exclude %q", in, ex) })
		for _, v := range vs {
			skip := false
			for _, p := range append(append([]string{}, in...), ex...) {
				skip = skip || !globDomain(p, v)
			}
			if skip {
				continue
			}
			k.State(fmt.Sprintf("%q %q %q", in, ex, v))
			checkCondition(k, yaml.Condition{Include: in, Exclude: ex}, v)
		}
	})
	// conditions as they are written
	forms := []struct {
		f   string
		def func(a, b string) yaml.Condition
	}{
		{"%[1]s", func(a, b string) yaml.Condition { return yaml.Condition{Include: []string{a}} }},
		{"[%[1]s, %[2]s]", func(a, b string) yaml.Condition { return yaml.Condition{Include: []string{a, b}} }},
		{"{include: %[1]s}", func(a, b string) yaml.Condition { return yaml.Condition{Include: []string{a}} }},
		{"{include: [%[1]s], exclude: [%[2]s]}", func(a, b string) yaml.Condition {
			return yaml.Condition{Include: []string{a}, Exclude: []string{b}}
		}},
		{"{exclude: [%[1]s, %[2]s]}", func(a, b string) yaml.Condition { return yaml.Condition{Exclude: []string{a, b}} }},
	}
	keys := []string{"action", "cron", "ref", "repo", "instance", "target", "event", "branch", "status", "paths"}
	get := func(cs *yaml.Conditions, i int) *yaml.Condition {
		return []*yaml.Condition{&cs.Action, &cs.Cron, &cs.Ref, &cs.Repo, &cs.Instance, &cs.Target, &cs.Event, &cs.Branch, &cs.Status, &cs.Paths}[i]
	}
	c.Product("written", "condition field x spelling x patterns, in trigger and when", []int{2, len(keys), len(forms), len(pats), len(pats)}, func(k *K, ix []int) {
		f := forms[ix[2]]
		a, b := pats[ix[3]], pats[ix[4]]
		if ix[2] == 2 && a == "" {
			return // a scalar inside include is read as a list only if it is one
		}
		body := keys[ix[1]] + ": " + fmt.Sprintf(f.f, yq(a), yq(b))
		text := "kind: pipeline\nname: x\n"
		if ix[0] == 0 {
			text += "trigger: {" + body + "}\n"
		} else {
			text += "steps:\n- {name: s, image: i, when: {" + body + "}}\n"
		}
		if ix[2] == 2 {
			return
		}
		k.In(func() string { return text })
		k.State(text)
		rs := mustParse(k, "parse", text)
		if len(rs) != 1 {
			return
		}
		p := rs[0].(*yaml.Pipeline)
		cs := &p.Trigger
		if ix[0] == 1 {
			cs = &p.Steps[0].When
		}
		want := f.def(a, b)
		for i := range keys {
			w := yaml.Condition{}
			if i == ix[1] {
				w = want
			}
			for _, v := range vs {
				if !globDomain(a, v) || !globDomain(b, v) {
					continue
				}
				k.Agree(1)
				k.Step(1)
				if got := get(cs, i).Match(v); got != refCondition(w, v) {
					k.Fail("written", "%s: condition %s on %q = %v, want %v", body, keys[i], v, got, !got)
				}
			}
		}
	})
	c.Assume("patterns with a trailing or escaped slash, three adjacent stars or malformed alternatives next to well-formed ones are left out: their meaning is not documented")
}
