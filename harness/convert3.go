package main

import (
	"fmt"
	"strings"

	"github.com/drone/drone-runtime/engine"
	"github.com/drone/drone-yaml/yaml"
	"github.com/drone/drone-yaml/yaml/compiler"
	"github.com/drone/drone-yaml/yaml/converter"
	"github.com/drone/drone-yaml/yaml/linter"
)

func init() { register("C41", runC41) }

// ---------------------------------------------------------------------
// C41: a converted configuration can be used.
// ---------------------------------------------------------------------

// checkUsable converts a configuration; the result has to pass the linter and
// every pipeline has to compile with all its steps and services.
func checkUsable(k *K, text string, m converter.Metadata) {
	k.In(func() string { return fmt.Sprintf("file %q, ref %q, remote %q\n%s", m.Filename, m.Ref, m.URL, text) })
	k.State(fmt.Sprint(m, text))
	out, err := converter.ConvertString(text, m)
	k.Step(1)
	if err != nil {
		k.Fail("refused", "conversion fails: %v", err)
		return
	}
	rs := mustParse(k, "result", out)
	if k.Failed() {
		return
	}
	k.Agree(1)
	if err := linter.Manifest(&yaml.Manifest{Resources: rs}, true); err != nil {
		k.Fail("lint", "the linter rejects the converted configuration: %v\n%s", err, out)
		return
	}
	for _, r := range rs {
		k.Agree(1)
		if err := linter.Lint(r, true); err != nil {
			k.Fail("lint", "the linter rejects a converted resource: %v\n%s", err, out)
			return
		}
		p, ok := r.(*yaml.Pipeline)
		if !ok {
			continue
		}
		spec := new(compiler.Compiler).Compile(clone(p))
		k.Step(1)
		k.Agree(1)
		want := len(p.Services) + len(p.Steps)
		if !p.Clone.Disable {
			want++
		}
		seen := map[string]*engine.Step{}
		for _, s := range spec.Steps {
			seen[s.Metadata.Name] = s
		}
		if len(spec.Steps) != want || len(seen) != want {
			k.Fail("compile", "%d steps with %d names are compiled from %d steps, services and clones\n%s", len(spec.Steps), len(seen), want, out)
			return
		}
		for _, l := range [][]*yaml.Container{p.Services, p.Steps} {
			for _, c := range l {
				if seen[c.Name] == nil {
					k.Fail("compile", "the compiled plan has no step %q\n%s", c.Name, out)
					return
				}
			}
		}
	}
}

// usable tells whether a legacy configuration is one release 0.8 would run:
// containers have images, and what the linter has to reject is not asked for.
func (d *ldoc) usable() bool {
	for _, l := range [][]*lctr{d.clone, d.services, d.steps} {
		for _, c := range l {
			if c.want.Image == "" {
				return false
			}
		}
	}
	for _, c := range d.services {
		if c.key == "clone" {
			return false
		}
	}
	for _, s := range d.secrets {
		if s.Get.Path == "" {
			return false
		}
	}
	return true
}

func runC41(c *Ctx) {
	c.prefix = "legacy-"
	legacySpaces(c, func(k *K, d *ldoc, e lenv) {
		if d.usable() {
			checkUsable(k, d.text(), converter.Metadata{Filename: ".drone.yml", URL: d.remote})
		}
	})
	c.prefix = "matrix-"
	matrixSpaces(c, func(k *K, m *mdoc, combos []axis, ordered bool) {
		if m.d.usable() {
			checkUsable(k, m.d.text(), converter.Metadata{Filename: ".drone.yml"})
		}
	})
	c.prefix = "gitlab-"
	glSpaces(c, 1, func(k *K, d *glDoc) {
		for _, s := range d.services {
			if s.Name == "clone" {
				return
			}
		}
		for _, j := range d.jobs {
			if !j.null && !strings.HasPrefix(j.name, ".") && j.image == "" && d.image == "" {
				// every configuration gets a global image
				d.head = append(append([]string{}, d.head...), "image: fallback")
				d.image = "fallback"
			}
		}
		checkUsable(k, d.text(), converter.Metadata{Filename: ".gitlab-ci.yml"})
	})
	c.prefix = "bitbucket-"
	bbSpaces(c, func(k *K, d *bbDoc) {
		if d.image == "" {
			d.image = "fallback"
		}
		if d.services["clone"] != "" {
			return
		}
		checkUsable(k, d.text(), converter.Metadata{Filename: "bitbucket-pipelines.yml", Ref: d.ref})
	})
	c.prefix = ""
	c.Assume("sources are well formed: every container has an image (of its own or the global one), stages are not repeated, external secrets name their path, and no service is called clone, the name of the clone step")
}
