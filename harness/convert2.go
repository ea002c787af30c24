package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strings"

	"github.com/drone/drone-yaml/yaml"
	"github.com/drone/drone-yaml/yaml/converter"
)

func init() {
	register("C33", runC33)
	register("C34", runC34)
	register("C35", runC35)
}

// ---------------------------------------------------------------------
// C33 GitLab
// ---------------------------------------------------------------------

type glJob struct {
	name  string
	lines []string
	stage string

	image                 string
	entrypoint, command   []string
	before, script, after []string
	allow                 bool
	null                  bool
}

type glDoc struct {
	head   []string
	jobs   []*glJob
	stages []string
	image  string

	before, after []string
	services      []yaml.Container
	order         int
}

func (d *glDoc) text() string {
	var b strings.Builder
	writeHead := func() {
		if len(d.stages) > 0 {
			b.WriteString("stages: [" + strings.Join(quoted(d.stages), ", ") + "]\n")
		}
		for _, h := range d.head {
			b.WriteString(h + "\n")
		}
	}
	jobs := append([]*glJob(nil), d.jobs...)
	if d.order == 1 {
		for i, j := 0, len(jobs)-1; i < j; i, j = i+1, j-1 {
			jobs[i], jobs[j] = jobs[j], jobs[i]
		}
	} else {
		writeHead()
	}
	for _, j := range jobs {
		fmt.Fprintf(&b, "%q:\n", j.name)
		if j.null {
			continue
		}
		if j.stage != "" {
			fmt.Fprintf(&b, "  stage: %q\n", j.stage)
		}
		for _, l := range j.lines {
			b.WriteString("  " + strings.Replace(l, "\n", "\n  ", -1) + "\n")
		}
	}
	if d.order == 1 {
		writeHead()
	}
	return b.String()
}

func quoted(l []string) (out []string) {
	for _, s := range l {
		out = append(out, fmt.Sprintf("%q", s))
	}
	return
}

func (d *glDoc) step(j *glJob) *yaml.Container {
	c := &yaml.Container{Name: j.name, Image: j.image, Entrypoint: j.entrypoint, Command: j.command}
	if c.Image == "" {
		c.Image = d.image
	}
	for _, l := range [][]string{d.before, j.before, j.script, j.after, d.after} {
		c.Commands = append(c.Commands, l...)
	}
	if j.allow {
		c.Failure = "ignore"
	}
	return c
}

func sortContainers(l []*yaml.Container) {
	sort.SliceStable(l, func(i, j int) bool { return js(l[i]) < js(l[j]) })
}

// sameNames gives the containers of a conversion the names they have in the
// reference: a container keeps its name, unless another one of the pipeline
// (or the clone step) has it; then its name begins with that name. It reports
// names used twice. Services, and steps unless they are ordered, get the order
// of the reference.
func sameNames(got, want *yaml.Pipeline, ordered bool) string {
	count := map[string]int{"clone": 1}
	for _, s := range got.Services {
		if s.Name != "clone" {
			count[s.Name]++
		}
	}
	for _, s := range got.Steps {
		count[s.Name]++
	}
	for _, l := range [][]*yaml.Container{got.Services, got.Steps} {
		for _, s := range l {
			if count[s.Name] > 1 {
				return fmt.Sprintf("two steps or services are named %q", s.Name)
			}
			if s.Name == "" {
				return "a step or service without a name"
			}
		}
	}
	body := func(c *yaml.Container) string {
		x := *c
		x.Name = ""
		return js(&x)
	}
	match := func(got, want []*yaml.Container, ordered bool) []*yaml.Container {
		out := make([]*yaml.Container, len(want))
		used := map[*yaml.Container]bool{}
		for _, exact := range []bool{true, false} {
			for i, w := range want {
				for j, g := range got {
					if ordered && i != j || out[i] != nil || used[g] || body(g) != body(w) {
						continue
					}
					if g.Name == w.Name || !exact && (w.Name == "" || count[w.Name] > 0 && strings.HasPrefix(g.Name, w.Name)) {
						out[i], used[g] = g, true
					}
				}
			}
		}
		var l []*yaml.Container
		for i, g := range out {
			if g != nil {
				g.Name = want[i].Name
				l = append(l, g)
			}
		}
		if ordered {
			return got
		}
		for _, g := range got {
			if !used[g] {
				l = append(l, g)
			}
		}
		return l
	}
	got.Services = match(got.Services, want.Services, false)
	got.Steps = match(got.Steps, want.Steps, ordered)
	return ""
}

func (d *glDoc) check(k *K) {
	text := d.text()
	k.In(func() string { return text })
	k.State(text)
	out, err := converter.Convert([]byte(text), converter.Metadata{Filename: ".gitlab-ci.yml"})
	k.Step(1)
	if err != nil {
		k.Fail("refused", "conversion fails: %v", err)
		return
	}
	rs := mustParse(k, "result", string(out))
	if k.Failed() {
		return
	}
	var got []*yaml.Pipeline
	for _, r := range rs {
		p, ok := r.(*yaml.Pipeline)
		if !ok {
			k.Fail("resources", "unexpected %T", r)
			return
		}
		got = append(got, p)
	}
	var services []*yaml.Container
	for i := range d.services {
		c := d.services[i]
		services = append(services, &c)
	}
	// stage -> jobs
	stages := d.stages
	jobsOf := func(stage string) (out []*yaml.Container) {
		for _, j := range d.jobs {
			in := j.stage
			if in == "" {
				in = "test"
			}
			if !j.null && !strings.HasPrefix(j.name, ".") && in == stage {
				out = append(out, d.step(j))
			}
		}
		return
	}
	if len(stages) == 0 {
		// each job has its own pipeline; their order is not determined
		byName := map[string]*yaml.Container{}
		for _, j := range d.jobs {
			if !j.null && !strings.HasPrefix(j.name, ".") {
				byName[j.name] = d.step(j)
			}
		}
		k.Agree(1)
		if len(got) != len(byName) {
			k.Fail("pipelines", "%d pipelines for %d jobs", len(got), len(byName))
			return
		}
		for _, p := range got {
			if byName[p.Name] == nil {
				k.Fail("pipelines", "unexpected or repeated pipeline %q", p.Name)
				return
			}
			stages = append(stages, p.Name)
			s := byName[p.Name]
			delete(byName, p.Name)
			k.Agree(1)
			jobsOfName := s
			prev := jobsOf
			name := p.Name
			jobsOf = func(stage string) []*yaml.Container {
				if stage == name {
					return []*yaml.Container{jobsOfName}
				}
				return prev(stage)
			}
		}
	}
	if len(got) != len(stages) {
		k.Fail("pipelines", "%d pipelines for %d stages", len(got), len(stages))
		return
	}
	for i, p := range got {
		want := &yaml.Pipeline{Kind: "pipeline", Name: stages[i], Steps: jobsOf(stages[i])}
		for _, s := range services {
			c := *s
			want.Services = append(want.Services, &c)
		}
		if i > 0 {
			want.DependsOn = []string{stages[i-1]}
		}
		g := normResource(p, true).(*yaml.Pipeline)
		w := normResource(want, true).(*yaml.Pipeline)
		// jobs of a stage run side by side, services are a set
		sortContainers(w.Steps)
		sortContainers(w.Services)
		k.Agree(1)
		if bad := sameNames(g, w, false); bad != "" {
			k.Fail("names", "pipeline %d: %s", i, bad)
			return
		}
		if diff := diffResources([]yaml.Resource{g}, []yaml.Resource{w}); diff != "" {
			k.Fail("pipeline", "pipeline %d: %s", i, diff)
			return
		}
	}
}

// scriptOpts are spellings of a list of commands.
var scriptOpts = []lstr{
	{"make", []string{"make"}},
	{"[make, test]", []string{"make", "test"}},
	{"\n- 'echo \"a: b\"'\n- |\n  multi\n  line", []string{"echo \"a: b\"", "multi\nline\n"}},
	{"[]", nil},
}

func runC33(c *Ctx) {
	refusals(c, ".gitlab-ci.yml", "", gitlabFields())
	gitlabDict(c, func(k *K, d *glDoc) { d.check(k) })
	glSpaces(c, 0, func(k *K, d *glDoc) { d.check(k) })
	c.Assume("the order of the jobs of one stage, of services, and of the pipelines without stages is not part of the property; stages are not repeated; what the conversion documents as unsupported (variables, and only, except, when and services of a job) is ignored")
}

// glSpaces enumerates GitLab configurations; shallower reduces the thorough
// bounds.
func glSpaces(c *Ctx, shallower int, visit func(*K, *glDoc)) {
	type G = *glDoc
	jobDims := func(i int) []Dim[G] {
		var ds []Dim[G]
		j := func(d G) *glJob { return d.jobs[i] }
		strs := func(key string, set func(*glJob, []string)) {
			dim := Dim[G]{Name: fmt.Sprintf("job%d.%s", i, key)}
			for n, o := range scriptOpts {
				o := o
				suffix := fmt.Sprintf(" %s%d", key, i)
				_ = n
				if key == "script" {
					suffix = ""
				}
				dim.Opts = append(dim.Opts, Opt[G]{o.yaml, func(d G) {
					y, w := o.yaml, append([]string(nil), o.want...)
					if suffix != "" && len(w) > 0 {
						// distinct commands, so that their order shows
						y = "[" + strings.Join(quoted(w), ", ") + "]"
						for x := range w {
							w[x] += suffix
						}
						y = "[" + strings.Join(quoted(w), ", ") + "]"
						if len(w) == 1 {
							y = fmt.Sprintf("%q", w[0])
						}
					}
					// replaces the key
					var l []string
					for _, s := range j(d).lines {
						if !strings.HasPrefix(s, key+":") {
							l = append(l, s)
						}
					}
					j(d).lines = append(l, key+": "+y)
					set(j(d), w)
				}})
			}
			ds = append(ds, dim)
		}
		strs("script", func(g *glJob, v []string) { g.script = v })
		strs("before_script", func(g *glJob, v []string) { g.before = v })
		strs("after_script", func(g *glJob, v []string) { g.after = v })
		add := func(line string, f func(*glJob)) func(G) {
			return func(d G) { j(d).lines = append(j(d).lines, line); f(j(d)) }
		}
		ds = append(ds,
			D(fmt.Sprintf("job%d.image", i),
				add("image: golang:1.12", func(g *glJob) { g.image = "golang:1.12" }),
				add("image: {name: a/b, entrypoint: [x, y], command: [z]}", func(g *glJob) { g.image, g.entrypoint, g.command = "a/b", []string{"x", "y"}, []string{"z"} }),
				add("image:\n  name: c\n  entrypoint: sh", func(g *glJob) { g.image, g.entrypoint = "c", []string{"sh"} }),
				add("image: ''", func(g *glJob) {}),
				add("image: {entrypoint: [''], command: run}", func(g *glJob) { g.entrypoint, g.command = []string{""}, []string{"run"} }),
			),
			D(fmt.Sprintf("job%d.allow", i), add("allow_failure: true", func(g *glJob) { g.allow = true }), add("allow_failure: false", func(g *glJob) {})),
			D(fmt.Sprintf("job%d.ignored", i), add("variables: {A: b}", func(g *glJob) {}), add("only: [master]", func(g *glJob) {}), add("except: tags", func(g *glJob) {}),
				add("when: on_success", func(g *glJob) {}), add("artifacts: {paths: [x]}", func(g *glJob) {}), add("services: [redis]", func(g *glJob) {})),
			D(fmt.Sprintf("job%d.name", i), func(d G) { j(d).name = "job 1" }, func(d G) { j(d).name = "test2.1" }, func(d G) { j(d).name = "a:b" }, func(d G) { j(d).name = "z" }, func(d G) { j(d).name = ".hidden" }, func(d G) { j(d).null = true },
				func(d G) { j(d).name = "clone" }, func(d G) { j(d).name = "redis" }, func(d G) { j(d).name = "db" }),
			D(fmt.Sprintf("job%d.stage", i), func(d G) { j(d).stage = "" }, func(d G) { j(d).stage = "three" }, func(d G) { j(d).stage = "test" }),
		)
		return ds
	}
	head := func(s string, f func(G)) func(G) {
		return func(d G) { d.head = append(d.head, s); f(d) }
	}
	svc := func(cs ...yaml.Container) func(G) { return func(d G) { d.services = append(d.services, cs...) } }
	docDims := []Dim[G]{
		D("image",
			head("image: ruby:2.2", func(d G) { d.image = "ruby:2.2" }),
			head("image: {name: 'ruby:2.3', entrypoint: [/bin/bash]}", func(d G) { d.image = "ruby:2.3" }),
			head("image:\n  name: x/y", func(d G) { d.image = "x/y" })),
		D("before", head("before_script: [bundle, install]", func(d G) { d.before = []string{"bundle", "install"} }), head("before_script: one", func(d G) { d.before = []string{"one"} }),
			head("before_script: []", func(d G) {})),
		D("after", head("after_script:\n- clean\n- done", func(d G) { d.after = []string{"clean", "done"} }), head("after_script: last", func(d G) { d.after = []string{"last"} })),
		D("services",
			head("services: [redis]", svc(yaml.Container{Name: "redis", Image: "redis"})),
			head("services:\n- postgres:9.4\n- name: org/mysql:5\n  alias: db\n  entrypoint: [/x]\n  command: [start]", svc(yaml.Container{Name: "postgres", Image: "postgres:9.4"},
				yaml.Container{Name: "db", Image: "org/mysql:5", Entrypoint: []string{"/x"}, Command: []string{"start"}})),
			head("services: ['tutum/wordpress:latest', {name: 'a/b/c'}]", svc(yaml.Container{Name: "tutum__wordpress", Image: "tutum/wordpress:latest"}, yaml.Container{Name: "a__b__c", Image: "a/b/c"})),
			head("services: []", svc()),
		),
		D("variables", head("variables: {A: b, C: d}", func(d G) {})),
		D("cache", head("cache: {paths: [x]}", func(d G) {}), head("cache:\n- key: a", func(d G) {})),
		D("order", func(d G) { d.order = 1 }),
		D("stages", func(d G) { d.stages = nil }, func(d G) { d.stages = []string{"three", "one", "two"} }, func(d G) { d.stages = []string{"one"} }, func(d G) { d.stages = []string{"two", "one", "a b"} }, func(d G) { d.stages = []string{"two", "test"} }),
		D("templates", head(".template: &t\n  script: no\n  image: wrong", func(d G) {}), head(".template:\n  stage: one\n  script: no", func(d G) {})),
	}
	base := func() *glDoc {
		d := &glDoc{stages: []string{"one", "two", "three"}}
		for i, s := range []string{"one", "two", "one"} {
			d.jobs = append(d.jobs, &glJob{name: fmt.Sprint("job", i), stage: s, lines: []string{fmt.Sprint("script: run", i)}, script: []string{fmt.Sprint("run", i)}})
		}
		return d
	}
	var dims []Dim[G]
	for i := 0; i < 3; i++ {
		dims = append(dims, jobDims(i)...)
	}
	dims = append(dims, docDims...)
	valid := func(d *glDoc) bool {
		seen := map[string]bool{}
		for _, j := range d.jobs {
			if seen[j.name] {
				return false
			}
			seen[j.name] = true
		}
		return true
	}
	t := 2
	if !c.Quick {
		t = 3 - shallower
	}
	c.Deviate("fields", fmt.Sprintf("all choices of <=%d of %d job and global fields and spellings, three jobs in two of three stages", t, len(dims)), sizes(dims), t, func(k *K, ix []int) {
		d := base()
		apply(dims, ix, d)
		if !valid(d) {
			return
		}
		visit(k, d)
	})
	// all assignments of jobs to stages
	stageSets := [][]string{{"one"}, {"one", "two"}, {"two", "one"}, {"b", "a", "c"}, {"c", "b", "a"}, nil, {"build", "test"}, {"test", "one"}}
	names := []string{"one", "two", "a", "b", "c", "", "test"}
	nj := 3
	if !c.Quick {
		nj = 5 - shallower
	}
	sz := []int{len(stageSets), 2, 2}
	for i := 0; i < nj; i++ {
		sz = append(sz, len(names)+1)
	}
	c.Product("stages", fmt.Sprintf("%d lists of stages x every assignment of <=%d jobs to stages, listed or not, x global scripts x order in the file", len(stageSets), nj), sz, func(k *K, ix []int) {
		d := &glDoc{stages: stageSets[ix[0]], order: ix[1]}
		if ix[2] == 1 {
			d.head = []string{"before_script: [b]", "after_script: [a]", "image: img", "services: [{name: 's:1', alias: x}]"}
			d.before, d.after, d.image = []string{"b"}, []string{"a"}, "img"
			d.services = []yaml.Container{{Name: "x", Image: "s:1"}}
		}
		for i := 0; i < nj; i++ {
			s := ix[3+i]
			if s == len(names) {
				continue
			}
			d.jobs = append(d.jobs, &glJob{name: []string{"j", "b", "one", "zz", "test"}[i], stage: names[s], lines: []string{fmt.Sprint("script: r", i)}, script: []string{fmt.Sprint("r", i)}})
		}
		visit(k, d)
	})
	// names: jobs, services and the clone step share one set of names
	jn := []string{"a", "clone", "redis", "a_1", "redis_1", "clone_0", "db"}
	sv := []struct{ text, name, image string }{{"redis", "redis", "redis"}, {"redis:5", "redis", "redis:5"}, {"{name: mysql, alias: db}", "db", "mysql"}, {"{name: 'a:1'}", "a", "a:1"}, {"{name: x, alias: redis_1}", "redis_1", "x"}}
	ms := 2
	if !c.Quick {
		ms = 3
	}
	sz = []int{1 << uint(len(jn)), 2}
	for i := 0; i < ms; i++ {
		sz = append(sz, len(sv)+1)
	}
	c.Product("names", fmt.Sprintf("every set of %d job names in one stage or without stages x every list of <=%d of %d services", len(jn), ms, len(sv)), sz, func(k *K, ix []int) {
		d := &glDoc{}
		if ix[1] == 1 {
			d.stages = []string{"s"}
		}
		for i, n := range jn {
			if ix[0]&(1<<uint(i)) != 0 {
				d.jobs = append(d.jobs, &glJob{name: n, stage: "s", lines: []string{"script: x" + n}, script: []string{"x" + n}})
			}
		}
		var l []string
		end := false
		for i := 0; i < ms; i++ {
			x := ix[2+i]
			if x == 0 {
				end = true
				continue
			}
			if end {
				return
			}
			l = append(l, sv[x-1].text)
			d.services = append(d.services, yaml.Container{Name: sv[x-1].name, Image: sv[x-1].image})
		}
		if len(l) > 0 {
			d.head = []string{"services: [" + strings.Join(l, ", ") + "]"}
		}
		if len(d.jobs) == 0 {
			return
		}
		visit(k, d)
	})
}

// ---------------------------------------------------------------------
// C34 Bitbucket
// ---------------------------------------------------------------------

type bbStep struct {
	name, image string
	script      []string
	kind        int // 0 step, 1 null step, 2 group of steps, 3 something else, 4 step and group
	group       []bbStep
}

type bbDoc struct {
	image    string
	depth    int
	def      []bbStep
	branches map[string][]bbStep
	tags     map[string][]bbStep
	services map[string]string // name -> image
	svcVars  int
	extra    []string
	ref      string
	reverse  bool
}

func bbSteps(b *strings.Builder, indent string, steps []bbStep) {
	if len(steps) == 0 {
		b.WriteString(" []\n")
		return
	}
	b.WriteString("\n")
	for _, s := range steps {
		switch s.kind {
		case 1:
			b.WriteString(indent + "- step:\n")
			continue
		case 2:
			b.WriteString(indent + "- parallel:")
			bbSteps(b, indent+"  ", s.group)
			continue
		case 3:
			b.WriteString(indent + "- variables: [{name: x}]\n")
			continue
		}
		b.WriteString(indent + "- step:\n")
		if s.name != "" {
			fmt.Fprintf(b, "%s    name: %q\n", indent, s.name)
		}
		if s.image != "" {
			fmt.Fprintf(b, "%s    image: %q\n", indent, s.image)
		}
		fmt.Fprintf(b, "%s    script: [%s]\n", indent, strings.Join(quoted(s.script), ", "))
		if s.kind == 4 {
			b.WriteString(indent + "  parallel:")
			bbSteps(b, indent+"  ", s.group)
		}
	}
}

// flat lists the steps of a pipeline, those of groups in sequence.
func flat(steps []bbStep) (out []bbStep) {
	for _, s := range steps {
		switch s.kind {
		case 0:
			out = append(out, s)
		case 2:
			out = append(out, flat(s.group)...)
		case 4:
			out = append(append(out, s), flat(s.group)...)
		}
	}
	return
}

func (d *bbDoc) text() string {
	var b strings.Builder
	if d.image != "" {
		fmt.Fprintf(&b, "image: %q\n", d.image)
	}
	if d.depth != 0 {
		fmt.Fprintf(&b, "clone:\n  depth: %d\n", d.depth)
	}
	for _, e := range d.extra {
		b.WriteString(e + "\n")
	}
	b.WriteString("pipelines:\n")
	if d.def != nil {
		b.WriteString("  default:")
		bbSteps(&b, "  ", d.def)
	}
	for _, m := range []struct {
		name string
		m    map[string][]bbStep
	}{{"branches", d.branches}, {"tags", d.tags}} {
		if m.m == nil {
			continue
		}
		b.WriteString("  " + m.name + ":\n")
		keys := sortedKeys(m.m)
		if d.reverse {
			sort.Sort(sort.Reverse(sort.StringSlice(keys)))
		}
		for _, key := range keys {
			fmt.Fprintf(&b, "    %q:", key)
			bbSteps(&b, "    ", m.m[key])
		}
	}
	if d.services != nil {
		b.WriteString("definitions:\n  services:\n")
		for _, n := range sortedKeys(d.services) {
			fmt.Fprintf(&b, "    %q:\n", n)
			if d.services[n] != "~" {
				fmt.Fprintf(&b, "      image: %q\n", d.services[n])
				b.WriteString([]string{"", "      variables: {A: b, C_D: 'x: y', E: '', N: 'null', V: 1}\n", "      variables: {}\n", "      variables:\n        NAME: " + n + "\n", "      name: other\n"}[d.svcVars])
			}
		}
	}
	return b.String()
}

// candidates lists the pipelines the reference may select.
func (d *bbDoc) candidates() [][]bbStep {
	pick := func(m map[string][]bbStep, name string) (out [][]bbStep) {
		for _, p := range sortedKeys(m) {
			if refGlob(p, name) {
				out = append(out, m[p])
			}
		}
		return
	}
	var l [][]bbStep
	if strings.HasPrefix(d.ref, "refs/tags/") {
		l = pick(d.tags, strings.TrimPrefix(d.ref, "refs/tags/"))
	} else if strings.HasPrefix(d.ref, "refs/heads/") {
		l = pick(d.branches, strings.TrimPrefix(d.ref, "refs/heads/"))
	} else if !strings.HasPrefix(d.ref, "refs/") {
		// a bare name may be either
		if l = pick(d.tags, d.ref); len(l) == 0 {
			l = pick(d.branches, d.ref)
		}
	}
	if len(l) == 0 {
		l = [][]bbStep{d.def}
	}
	return l
}

func (d *bbDoc) pipeline(steps []bbStep) *yaml.Pipeline {
	p := &yaml.Pipeline{Kind: "pipeline", Name: "default"}
	p.Clone.Depth = d.depth
	for _, s := range flat(steps) {
		c := &yaml.Container{Name: s.name, Image: s.image, Commands: s.script}
		if c.Image == "" {
			c.Image = d.image
		}
		p.Steps = append(p.Steps, c)
	}
	for n, img := range d.services {
		if img == "~" {
			continue
		}
		c := &yaml.Container{Name: n, Image: img}
		switch d.svcVars {
		case 1:
			c.Environment = map[string]*yaml.Variable{"A": {Value: "b"}, "C_D": {Value: "x: y"}, "E": {Value: ""}, "N": {Value: "null"}, "V": {Value: "1"}}
		case 3:
			c.Environment = map[string]*yaml.Variable{"NAME": {Value: n}}
		}
		p.Services = append(p.Services, c)
	}
	return p
}

func (d *bbDoc) check(k *K) {
	text := d.text()
	k.In(func() string { return "ref " + d.ref + "\n" + text })
	k.State(d.ref + text)
	out, err := converter.Convert([]byte(text), converter.Metadata{Filename: "bitbucket-pipelines.yml", Ref: d.ref})
	k.Step(1)
	if err != nil {
		k.Fail("refused", "conversion fails: %v", err)
		return
	}
	rs := mustParse(k, "result", string(out))
	if k.Failed() {
		return
	}
	if len(rs) != 1 {
		k.Fail("single", "%d resources", len(rs))
		return
	}
	g, ok := normResource(rs[0], true).(*yaml.Pipeline)
	if !ok {
		k.Fail("single", "result is a %T", rs[0])
		return
	}
	sortContainers(g.Services)
	var diff string
	k.Agree(1)
	for _, cand := range d.candidates() {
		w := normResource(d.pipeline(cand), true).(*yaml.Pipeline)
		sortContainers(w.Services)
		x := clone(g)
		// steps run in their order; generated names are only not empty
		// and different from all others
		d := sameNames(x, w, true)
		if d == "" {
			d = diffResources([]yaml.Resource{x}, []yaml.Resource{w})
		}
		if d == "" {
			return
		}
		if diff == "" {
			diff = d
		}
	}
	k.Fail("pipeline", "%s", diff)
}

func runC34(c *Ctx) {
	refusals(c, "bitbucket-pipelines.yml", "refs/heads/master", bitbucketFields())
	bitbucketDict(c, func(k *K, d *bbDoc) { d.check(k) })
	bbSpaces(c, func(k *K, d *bbDoc) { d.check(k) })
	c.Assume("a ref under refs/ that is neither a branch nor a tag selects the default pipeline and is used only with patterns of fewer than four components; when several patterns of one kind match, any of them may be selected")
}

// bbSpaces enumerates Bitbucket configurations.
func bbSpaces(c *Ctx, visit func(*K, *bbDoc)) {
	one := func(s string) []bbStep { return []bbStep{{script: []string{s}}} }
	patterns := []string{"master", "feature/*", "*", "v*", "v1.?", "release-[0-9]", "a\\*", "[", "*/*", "{x,y}"}
	refs := []string{"refs/heads/master", "refs/heads/feature/a", "refs/heads/v1.0", "refs/heads/release-1", "refs/tags/v1.0", "refs/tags/v1.0.1", "refs/tags/master", "refs/tags/feature/a",
		"refs/heads/a*", "refs/heads/x", "refs/tags/release-1", "refs/pull/1/head", "", "master", "v1.0", "refs/heads/a/b/c", "refs/heads/refs/tags/v1.0", "refs/tags/refs/heads/master", "refs/tags/"}
	if c.Quick {
		patterns = patterns[:8]
	}
	np := len(patterns)
	skip := func(p string) bool { return strings.Contains(p, "{") } // not a glob of every dialect
	subsetOf := func(prefix string, a, b int) map[string][]bbStep {
		m := map[string][]bbStep{}
		for _, i := range []int{a, b} {
			if i < np && !skip(patterns[i]) {
				m[patterns[i]] = one(prefix + " " + patterns[i])
			}
		}
		if len(m) == 0 {
			return nil
		}
		return m
	}
	c.Product("selection", fmt.Sprintf("all pairs of %d branch patterns x all pairs of tag patterns x default present x %d refs", np, len(refs)), []int{np + 1, np + 1, np + 1, np + 1, 2, len(refs)}, func(k *K, ix []int) {
		if ix[0] > ix[1] || ix[2] > ix[3] {
			return
		}
		d := &bbDoc{ref: refs[ix[5]], image: "img"}
		d.branches = subsetOf("branch", ix[0], ix[1])
		d.tags = subsetOf("tag", ix[2], ix[3])
		if ix[4] == 1 {
			d.def = one("default")
		}
		d.reverse = ix[0]%2 == 1
		visit(k, d)
	})
	stepOpts := []bbStep{
		{script: []string{"make"}},
		{name: "build", script: []string{"make", "test"}},
		{image: "golang:1.12", script: []string{"go test"}},
		{name: "b", image: "x/y", script: []string{"echo \"a: b\"", "line\nbreak"}},
		{kind: 1},
		{kind: 2, group: []bbStep{{script: []string{"p"}}, {name: "build", image: "q", script: []string{"q", "r"}}, {kind: 1}}},
		{kind: 3},
		{kind: 4, script: []string{"both"}, group: []bbStep{{image: "i"}, {script: []string{"b"}}}},
		{name: "step_1", script: nil},
		{name: "two words", image: "img", script: []string{"# c"}},
	}
	ns := len(stepOpts)
	maxSteps := 3
	if !c.Quick {
		maxSteps = 4
	}
	c.Words("steps", fmt.Sprintf("all lists of <=%d of %d kinds of steps, in the default, a branch or a tag pipeline, with and without a global image", maxSteps, ns), ns, 0, maxSteps, func(k *K, w []int) {
		var steps []bbStep
		for _, i := range w {
			steps = append(steps, stepOpts[i])
		}
		if steps == nil {
			steps = []bbStep{}
		}
		for v := 0; v < 6; v++ {
			d := &bbDoc{def: steps, ref: "refs/heads/master"}
			if v%2 == 1 {
				d.image = "global:1"
			}
			switch v / 2 {
			case 1:
				d.branches = map[string][]bbStep{"m*": steps}
				d.def = one("no")
			case 2:
				d.tags = map[string][]bbStep{"v1": steps}
				d.ref = "refs/tags/v1"
				d.def = one("no")
			}
			visit(k, d)
			if k.Failed() {
				return
			}
		}
	})
	// names: steps, services and the clone step share one set of names
	bn := []string{"", "a", "clone", "db", "step_0", "step_1", "a_1", "clone_0"}
	nn := 3
	if !c.Quick {
		nn = 4
	}
	sz := []int{8, 2}
	for i := 0; i < nn; i++ {
		sz = append(sz, len(bn)+1)
	}
	c.Product("names", fmt.Sprintf("every list of <=%d steps with %d names, given or not, repeated or not, all or the last two in a group x sets of services", nn, len(bn)), sz, func(k *K, ix []int) {
		d := &bbDoc{image: "img", ref: "refs/heads/master"}
		end := false
		for i := 0; i < nn; i++ {
			x := ix[2+i]
			if x == 0 {
				end = true
				continue
			}
			if end {
				return
			}
			d.def = append(d.def, bbStep{name: bn[x-1], script: []string{fmt.Sprint("s", i)}})
		}
		if len(d.def) == 0 {
			return
		}
		if n := len(d.def); ix[1] == 1 && n >= 2 {
			d.def = append(append([]bbStep{}, d.def[:n-2]...), bbStep{kind: 2, group: d.def[n-2:]})
		}
		for i, n := range []string{"db", "a", "step_1"} {
			if ix[0]&(1<<uint(i)) != 0 {
				if d.services == nil {
					d.services = map[string]string{}
				}
				d.services[n] = "i" + n
			}
		}
		visit(k, d)
	})
	extras := []string{"", "options: {docker: true}", "x: 1"}
	c.Product("global", "clone depth x services and their variables x global image x unrelated keys x step image", []int{6, 7, 3, len(extras), 2, 2, 5}, func(k *K, ix []int) {
		d := &bbDoc{depth: []int{0, 1, 50, 1000, 2, -1}[ix[0]], image: []string{"", "img", "reg:5000/a"}[ix[2]], ref: "refs/heads/master"}
		switch ix[1] {
		case 1:
			d.services = map[string]string{"redis": "redis:3"}
		case 2:
			d.services = map[string]string{"zdb": "mysql", "adb": "postgres:9"}
		case 3:
			d.services = map[string]string{"null": "~", "b": "c"}
		case 4:
			d.services = map[string]string{"null": "~"}
		case 5:
			d.services = map[string]string{"a b": "x", "c": "y", "B": "z"}
		case 6:
			d.services = map[string]string{"1": "x"}
		}
		d.svcVars = ix[6]
		if extras[ix[3]] != "" {
			d.extra = []string{extras[ix[3]]}
		}
		s := bbStep{script: []string{"x"}}
		if ix[4] == 1 {
			s.image = "own"
		}
		d.def = []bbStep{s, {name: "two", script: []string{"y"}}}
		if ix[5] == 1 {
			d.branches = map[string][]bbStep{"master": d.def}
			d.def = nil
		}
		visit(k, d)
	})
}

// ---------------------------------------------------------------------
// C35 dispatch
// ---------------------------------------------------------------------

type convIn struct{ Data, File, Ref, URL string }
type convOut struct{ Out, Err, StrOut, StrErr string }

// convertServer is run in the oss build: it converts a list of inputs.
func convertServer() {
	var in []convIn
	if err := json.NewDecoder(os.Stdin).Decode(&in); err != nil {
		fatalf("convert: %v", err)
	}
	var out []convOut
	for _, x := range in {
		m := converter.Metadata{Filename: x.File, Ref: x.Ref, URL: x.URL}
		b, err := converter.Convert([]byte(x.Data), m)
		s, serr := converter.ConvertString(x.Data, m)
		out = append(out, convOut{string(b), errS(err), s, errS(serr)})
	}
	json.NewEncoder(os.Stdout).Encode(out)
}

func runC35(c *Ctx) {
	lenv{}.set()
	files := []string{"", ".drone.yml", "drone.yml", ".gitlab-ci.yml", "bitbucket-pipelines.yml", ".travis.yml", "circle.yml", ".circleci/config.yml", "x/.gitlab-ci.yml", ".gitlab-ci.yaml", "Bitbucket-pipelines.yml", ".drone.jsonnet", ".drone.legacy.yml", "bitbucket-pipelines.yml "}
	type cont struct {
		text string
		kind string // format: current, legacy, gitlab, bitbucket, other
	}
	conts := []cont{
		{"kind: pipeline\nname: default\n\nsteps:\n- name: a\n  image: b\n", "current"},
		{"---\nkind: pipeline\nname: a\n---\nkind: secret\nname: b\ndata: c\n...\n", "current"},
		{"# comment\nkind:   pipeline\r\nname: x\r\n", "current"},
		{"kind: cron\nname: n\nspec: {schedule: '@daily', branch: b}\n", "current"},
		{"kind: pipeline\nname: pipeline\nsteps:\n- name: pipeline\n  image: pipeline\n  environment:\n    pipeline: x\n  commands:\n  - echo pipeline:\n", "current"},
		{"kind: pipeline\nname: x\nsteps:\n- name: y\n  settings:\n    pipeline:\n      a: b\n", "current"},
		{"kind: pipeline\nname: x\n # pipeline:\n#pipeline:\n", "current"},
		{"", "current"},
		{"pipeline:\n  build:\n    image: golang\n    commands: [go test]\n", "legacy"},
		{"workspace: {base: /a}\n\npipeline:   \n  build:\n    image: golang\nservices:\n  db: {image: mysql}\n", "legacy"},
		{"pipeline:\r\n  build:\r\n    image: golang\r\n", "legacy"},
		{"matrix: {A: [1, 2]}\npipeline:\n  build:\n    image: golang:${A}\nsecrets: {s: {vault: x}}\n", "legacy"},
		{"pipeline:\n\n  build:\n    image: golang\nkind: other\n", "legacy"},
		{"clone:\n  git: {image: plugins/git}\npipeline:\t\n  a: {image: b}\n", "legacy"},
		{"image: ruby\nstages: [a, b]\nx: {stage: a, script: make}\ny: {stage: b, script: [t]}\n", "gitlab"},
		{"test:\n  script: [x]\n", "gitlab"},
		{"image: node\npipelines:\n  default:\n  - step: {script: [npm test]}\n  tags:\n    v*: [{step: {name: t, script: [x]}}]\n", "bitbucket"},
		{"pipelines: {default: []}\n", "bitbucket"},
		{"kind: [\n", "bad"},
		{"\tx", "bad"},
		{"pipeline:\n  - [\n", "badlegacy"},
		{"- a\n- b\n", "other"},
		{"plain text", "other"},
		{"pipeline: {build: {image: golang}}\n", "other"},
		{"  pipeline:\n    build: {image: golang}\n", "other"},
		{"pipeline: \n", "legacy"},
		{"\"pipeline\":\n  build: {image: golang}\n", "other"},
		{"version: '2'\njobs: {build: {docker: [{image: x}]}}\n", "other"},
		{"language: go\nscript: [x]\n", "other"},
	}
	refs := []string{"", "refs/heads/master", "refs/tags/v1"}
	// the reference dispatch, on the inputs whose format is known
	convertCase := func(k *K, ct cont, file, ref, url string) {
		k.In(func() string { return fmt.Sprintf("file %q ref %q url %q\n%s", file, ref, url, ct.text) })
		k.State(fmt.Sprint(ct.text, file, ref, url))
		m := converter.Metadata{Filename: file, Ref: ref, URL: url}
		in := []byte(ct.text)
		out, err := converter.Convert(in, m)
		s, serr := converter.ConvertString(ct.text, m)
		k.Step(2)
		k.Agree(2)
		if string(in) != ct.text {
			k.Fail("mutates", "the input is changed")
		}
		if s != string(out) || errS(err) != errS(serr) {
			k.Fail("entry-point", "ConvertString gives %q, %v and Convert %q, %v", s, serr, out, err)
		}
		var expect string // identity, convert, error or any
		switch file {
		case ".gitlab-ci.yml":
			expect = map[string]string{"gitlab": "gitlab", "bad": "error"}[ct.kind]
		case "bitbucket-pipelines.yml":
			expect = map[string]string{"bitbucket": "bitbucket", "bad": "error"}[ct.kind]
		default:
			expect = map[string]string{"current": "identity", "gitlab": "identity", "bitbucket": "identity", "other": "identity", "legacy": "legacy", "bad": "identity", "badlegacy": "error"}[ct.kind]
		}
		switch expect {
		case "identity":
			if err != nil || string(out) != ct.text {
				k.Fail("identity", "expected the same bytes, got %q (%v)", out, err)
			}
			return
		case "error":
			if err == nil {
				k.Fail("accepted", "expected an error, got %q", out)
			}
			return
		case "":
			// the content is not of the format the file name announces:
			// an error or a configuration, but never a crash
			if err != nil {
				return
			}
		default:
			if err != nil {
				k.Fail("refused", "conversion of a %s configuration fails: %v", expect, err)
				return
			}
			// the result is the one of that converter
			alt, aerr := converter.Convert([]byte(ct.text), converter.Metadata{Filename: map[string]string{"gitlab": ".gitlab-ci.yml", "bitbucket": "bitbucket-pipelines.yml", "legacy": ".drone.yml"}[expect], Ref: ref, URL: url})
			k.Step(1)
			k.Agree(1)
			if aerr != nil || !bytes.Equal(alt, out) {
				k.Fail("dispatch", "expected the %s conversion\n%s\ngot\n%s", expect, alt, out)
			}
		}
		rs := mustParse(k, "result", string(out))
		if k.Failed() {
			return
		}
		if expect != "" {
			n := 0
			for _, r := range rs {
				if _, ok := r.(*yaml.Pipeline); ok {
					n++
				}
			}
			if n == 0 {
				k.Fail("result", "the conversion yields no pipeline:\n%s", out)
			}
			// the formats are recognisable by their image
			if want := map[string]string{"legacy": "golang", "gitlab": "", "bitbucket": ""}[expect]; want != "" && strings.Contains(ct.text, want) && !strings.Contains(string(out), want) {
				k.Fail("result", "the conversion loses the image:\n%s", out)
			}
		}
		// converting again changes nothing
		for _, f := range []string{".drone.yml", ""} {
			again, err := converter.Convert(out, converter.Metadata{Filename: f, Ref: ref, URL: url})
			k.Step(1)
			k.Agree(1)
			if err != nil || !bytes.Equal(again, out) {
				k.Fail("again", "converting the result again gives (%v)\n%s\nafter\n%s", err, again, out)
			}
		}
	}
	urls := []string{"", "https://github.com/a/b"}
	c.Product("dispatch", fmt.Sprintf("%d contents x %d file names x refs x remotes", len(conts), len(files)), []int{len(conts), len(files), len(refs), len(urls)}, func(k *K, ix []int) {
		convertCase(k, conts[ix[0]], files[ix[1]], refs[ix[2]], urls[ix[3]])
	})
	fw := dictWords(c.Quick)
	c.Product("names", fmt.Sprintf("%d contents x every one of %d words (the literals of the code, their neighbours and fixed words) as file name, ref and remote", len(conts), len(fw)), []int{len(conts), len(fw)}, func(k *K, ix []int) {
		w := fw[ix[1]]
		convertCase(k, conts[ix[0]], w, "", "")
		if ix[0]%4 == 0 || !c.Quick {
			convertCase(k, conts[ix[0]], ".drone.yml", "refs/heads/"+w, "")
			if !strings.Contains(w, "%") { // which may escape what is no text
				convertCase(k, conts[ix[0]], ".drone.yml", w, "https://"+w+"/a/b")
			}
		}
	})
	pw := plainWords(c.Quick)
	texts := []string{"kind: pipeline\nname: %q\nsteps: []\n", "kind: %q\nname: x\n", "%q:\n  a: b\n", "kind: pipeline\n%q: x\n", "# %q\nkind: pipeline\n", "kind: secret\nname: x\ndata: |\n  %q:\n  pipeline:\n"}
	c.Product("contents", fmt.Sprintf("%d configurations that are not legacy, with %d words", len(texts), len(pw)), []int{len(texts), len(pw), len(files)}, func(k *K, ix []int) {
		if f := files[ix[2]]; f == ".gitlab-ci.yml" || f == "bitbucket-pipelines.yml" {
			return
		}
		convertCase(k, cont{fmt.Sprintf(texts[ix[0]], pw[ix[1]]), "current"}, files[ix[2]], "", "")
	})
	// legacy detection: every spelling of the line
	pre := []string{"", "a: b\n", "\n", "#\n", "---\n", "a: b\r\n", "a:\n  x"}
	key := []string{"pipeline:", "pipeline :", " pipeline:", "Pipeline:", "pipelines:", "xpipeline:", "pipeline", "pipeline:x", "-pipeline:", "pipeline:{}"}
	post := []string{"", " ", "\t ", " #", " {}", " ~", "\r", " build:"}
	end := []string{"\n", "", "\n  build: {image: golang}\n", "\n\n\n  build:\n    image: golang\n", "\n  build: {image: golang}\n---\npipeline:\n  b: {image: c}\n"}
	c.Product("detection", "everything around the line that marks a legacy configuration", []int{len(pre), len(key), len(post), len(end), 4}, func(k *K, ix []int) {
		text := pre[ix[0]] + key[ix[1]] + post[ix[2]] + end[ix[3]]
		marked := strings.TrimSpace(post[ix[2]]) == "" && ix[1] == 0 && (ix[0] == 0 || strings.HasSuffix(pre[ix[0]], "\n")) || ix[3] == 4
		k.In(func() string { return fmt.Sprintf("%q", text) })
		k.State(text)
		out, err := converter.Convert([]byte(text), converter.Metadata{Filename: []string{"", ".drone.yml", ".travis.yml", "x"}[ix[4]]})
		k.Step(1)
		k.Agree(1)
		if !marked {
			if err != nil || string(out) != text {
				k.Fail("identity", "a configuration that is not legacy is converted to %q (%v)", out, err)
			}
			return
		}
		if err == nil && string(out) == text {
			k.Fail("not-converted", "a legacy configuration is not converted")
		}
	})
	// results of the other checks' conversions are fixpoints
	dims := legacyDims("step0")
	c.Deviate("again-legacy", "results of converting legacy configurations (pairs of fields) are not converted again", sizes(limitOpts(dims, 3)), 2, func(k *K, ix []int) {
		d := legacyBase()
		if !d.sane(dims, ix) {
			return
		}
		apply(dims, ix, d)
		convertCase(k, cont{d.text(), "legacy"}, ".drone.yml", "", d.remote)
	})
	// every manifest of the current format is returned unchanged
	ds := universe(2)
	t := 1
	if !c.Quick {
		t = 2
	}
	c.Deviate("current", "every field of the current format; the configuration and its formatted form are returned unchanged", sizes(ds), t, func(k *K, ix []int) {
		p := basePipeline()
		apply(ds, ix, p)
		convertCase(k, cont{manifestText(p), "current"}, ".drone.yml", "", "")
		convertCase(k, cont{printText(p), "current"}, "", "refs/heads/x", "")
	})
	// conversion compiled out
	if c.Only == "" {
		oss := filepath.Join(os.Getenv("VERIF_BUILD"), "h.oss")
		if _, err := os.Stat(oss); err != nil {
			fatalf("oss build missing: %v", err)
		}
		var ins []convIn
		for _, ct := range conts {
			for _, f := range files {
				for _, r := range refs {
					for _, u := range urls {
						ins = append(ins, convIn{ct.text, f, r, u})
					}
				}
			}
		}
		b, _ := json.Marshal(ins)
		cmd := exec.Command(oss, "convert-server", "-")
		cmd.Stdin = bytes.NewReader(b)
		cmd.Stderr = os.Stderr
		res, err := cmd.Output()
		var outs []convOut
		if err == nil {
			err = json.Unmarshal(res, &outs)
		}
		if err != nil || len(outs) != len(ins) {
			c.Case(0, "oss:0", false, func(k *K) {
				k.Fail("panic", "the conversion of the oss build fails: %v %s", err, clip(string(res), 300))
			})
			return
		}
		c.Range("oss", "the oss build returns every content unchanged for every file name", len(ins), func(k *K, i int) {
			k.In(func() string { return fmt.Sprintf("%+v", ins[i]) })
			k.State("oss" + js(ins[i]))
			k.Step(2)
			k.Agree(2)
			o := outs[i]
			if o != (convOut{Out: ins[i].Data, StrOut: ins[i].Data}) {
				k.Fail("oss", "expected the same bytes, got %+v", o)
			}
		})
	}
	_, _ = ioutil.Discard, reflect.DeepEqual
}
