package main

import (
	"fmt"
	"strings"

	"github.com/drone/drone-yaml/yaml/converter"
)

// foreignShapes: shapes of values with the kinds of fields of other formats
// they fit; what is in neither list is not specified.
func foreignShapes() []shape {
	kinds := strings.Fields("str strs slice map maps struct structs short shorts bool int env secrets mapstruct mapstructs ctrs any")
	mk := func(text, ok, unspecified string) shape {
		s := shape{text, map[string]bool{}}
		for _, k := range kinds {
			s.ok[k] = contains(strings.Fields(ok), k) || k == "any"
		}
		for _, k := range strings.Fields(unspecified) {
			delete(s.ok, k)
		}
		return s
	}
	return []shape{
		mk("word", "str slice short", ""),
		mk(`"5"`, "str slice short", ""),
		mk("5", "str slice short int", ""),
		mk("1.5", "str slice short", "int"),
		mk("true", "str slice short bool", ""),
		mk(`"true"`, "str slice short", ""),
		mk("~", strings.Join(kinds, " "), ""),
		mk("2020-01-01", "str slice short", ""),
		mk("[a]", "strs slice env secrets shorts", ""),
		mk("[5, true]", "strs slice env secrets shorts", ""),
		mk("[]", "strs slice structs shorts env secrets", ""),
		mk("[[a]]", "", ""),
		mk("[a, [b]]", "", ""),
		mk("[[b], a]", "", ""),
		mk("[{unknown: b}]", "structs secrets shorts", ""),
		mk("[{unknown: b}, a]", "shorts", ""),
		mk("{unknown: b}", "map struct short env", ""),
		mk("{unknown: 5}", "map struct short env", ""),
		mk("{unknown: [b]}", "struct short", ""),
		mk("{unknown: {c: d}}", "struct short mapstruct ctrs", ""),
		mk("{unknown: {c: d}, other: b}", "struct short", ""),
		mk("{other: b, unknown: {c: d}}", "struct short", ""),
		mk("{}", "map struct short env mapstruct mapstructs ctrs", ""),
	}
}

// refusals checks that a configuration of another format is converted only if
// every value fits its field: what cannot be read is not left out.
func refusals(c *Ctx, file, ref string, fields []shapeField) {
	shapes := foreignShapes()
	lenv{}.set()
	c.Product("shapes", fmt.Sprintf("each of %d fields with each of %d shapes of value", len(fields), len(shapes)), []int{len(fields), len(shapes)}, func(k *K, ix []int) {
		f, s := fields[ix[0]], shapes[ix[1]]
		text := strings.Replace(f.text, "%%", s.text, 1)
		k.In(func() string { return text })
		k.State(text)
		ok, known := s.ok[f.kind]
		if !known {
			return
		}
		k.Step(1)
		k.Agree(1)
		out, err := converter.Convert([]byte(text), converter.Metadata{Filename: file, Ref: ref})
		if ok && err != nil {
			k.Fail("shape", "an accepted value is refused: %v", err)
		}
		if !ok && err == nil {
			k.Fail("shape", "a value that cannot be read is left out, the result is\n%s", out)
		}
	})
}

type fieldList struct{ fs []shapeField }

func (l *fieldList) add(pre, post, kind string, names ...string) {
	for _, n := range names {
		l.fs = append(l.fs, shapeField{pre + n + ": %%" + post, kind})
	}
}

func legacyFields() []shapeField {
	var l fieldList
	p := "pipeline:\n  build: {image: golang}\n"
	l.fs = append(l.fs, shapeField{"pipeline:\n  %%\n", "ctrs"})
	l.add(p, "\n", "struct", "workspace")
	l.add(p, "\n", "ctrs", "services", "clone")
	l.add(p, "\n", "mapstruct", "secrets")
	l.add(p+"workspace: {", "}\n", "str", "base", "path")
	l.add(p+"secrets: {a: {", "}}\n", "str", "driver", "path", "vault")
	l.add(p+"secrets: {a: {", "}}\n", "map", "driver_opts")
	for _, b := range []string{"pipeline:\n  first: {image: a}\n  build: {", "pipeline:\n  build: {", p + "services:\n  db: {", p + "clone:\n  git: {"} {
		end := "}\n"
		if b == "pipeline:\n  build: {" {
			end = "}\n  last: {image: b}\n"
		}
		l.add(b, end, "slice", "command", "commands", "dns", "dns_search", "entrypoint")
		l.add(b, end, "strs", "devices", "tmpfs", "extra_hosts", "volumes")
		l.add(b, end, "bool", "detach", "allow_failure", "privileged", "pull")
		l.add(b, end, "str", "image", "name", "shell")
		l.add(b, end, "env", "environment")
		l.add(b, end, "secrets", "secrets")
		l.add(b, end, "struct", "when")
		l.add(b, end, "any", "setting")
		l.add(b+"secrets: [{", "}]"+end, "str", "source", "target")
		l.add(b+"when: {", "}"+end, "map", "matrix")
	}
	return l.fs
}

func gitlabFields() []shapeField {
	var l fieldList
	j := "job: {script: [a]}\n"
	l.add(j, "", "short", "image")
	l.add(j, "", "strs", "stages")
	l.add(j, "", "shorts", "services")
	l.add(j, "", "map", "variables")
	l.add(j, "", "slice", "before_script", "after_script")
	l.add(j, "", "any", "cache")
	l.add(j, "", "struct", "another")
	for _, b := range []string{"job: {", "a: {script: [x]}\njob: {", "stages: [test]\nz: {script: [x]}\njob: {"} {
		l.add(b, "}\n", "str", "name", "stage")
		l.add(b, "}\n", "short", "image")
		l.add(b, "}\n", "slice", "script", "before_script", "after_script", "only", "except", "when")
		l.add(b, "}\n", "shorts", "services")
		l.add(b, "}\n", "map", "variables")
		l.add(b, "}\n", "bool", "allow_failure")
		l.add(b+"image: {", "}}\n", "str", "name", "alias")
		l.add(b+"image: {", "}}\n", "slice", "entrypoint", "command")
		l.add(b+"services: [{", "}]}\n", "str", "name")
		l.add(b+"services: [{", "}]}\n", "slice", "command")
	}
	l.add(j+"services: [a, {", "}]\n", "slice", "entrypoint", "command")
	return l.fs
}

func bitbucketFields() []shapeField {
	var l fieldList
	d := "pipelines: {default: [{step: {script: [a]}}]}\n"
	l.add(d, "", "str", "image")
	l.add(d, "", "struct", "clone", "definitions")
	l.add(d+"clone: {", "}\n", "int", "depth")
	l.add("", "", "struct", "pipelines")
	l.add("pipelines: {", "}\n", "structs", "default")
	l.add("pipelines: {default: [{step: {script: [a]}}], ", "}\n", "mapstructs", "tags", "branches")
	l.add("pipelines: {branches: {", "}}\n", "structs", "master", "other")
	l.add("pipelines: {tags: {", "}}\n", "structs", "master", "other")
	for _, b := range []string{"pipelines: {default: [{step: {script: [a]}}, {", "pipelines: {branches: {master: [{", "pipelines: {tags: {x: [{"} {
		end := "}]}\n"
		if !strings.Contains(b, "default") {
			end = "}]}}\n"
		}
		l.add(b, end, "struct", "step")
		l.add(b, end, "structs", "parallel")
		for _, s := range []string{"step: {", "parallel: [{step: {script: [z]}}, {step: {"} {
			e := "}" + end
			if s != "step: {" {
				e = "}}]" + end
			}
			l.add(b+s, e, "str", "name", "image")
			l.add(b+s, e, "strs", "script", "artifacts")
			l.add(b+s, e, "map", "variables")
		}
	}
	l.add(d+"definitions: {", "}\n", "mapstruct", "services")
	l.add(d+"definitions: {", "}\n", "map", "caches")
	l.add(d+"definitions: {services: {a: {", "}}}\n", "str", "name", "image")
	l.add(d+"definitions: {services: {a: {", "}}}\n", "map", "variables")
	return l.fs
}
