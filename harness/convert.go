package main

import (
	"fmt"
	"net/url"
	"os"
	"path"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/drone/drone-yaml/yaml"
	"github.com/drone/drone-yaml/yaml/converter"
	"github.com/drone/drone-yaml/yaml/converter/legacy"
)

func init() {
	register("C31", runC31)
	register("C32", runC32)
}

// ---------------------------------------------------------------------
// Legacy configurations: a document is assembled from lines, next to the
// current configuration it stands for.
// ---------------------------------------------------------------------

// lvol is a legacy volume.
type lvol struct{ src, dst string }

// lctr is a legacy container: its text and its meaning.
type lctr struct {
	key   string // mapping key as written
	lines []string
	want  yaml.Container
	vols  []lvol
}

func newLctr(key, image string) *lctr {
	c := &lctr{key: key}
	c.want.Name = key
	c.want.Pull = "if-not-exists"
	if image != "" {
		c.set("image", image)
		c.want.Image = image
	}
	return c
}

// set replaces or adds a key of the container.
func (c *lctr) set(key, value string) {
	for i, l := range c.lines {
		if strings.HasPrefix(l, key+":") {
			c.lines[i] = key + ": " + value
			return
		}
	}
	c.lines = append(c.lines, key+": "+value)
}

func (c *lctr) env(k, v string) {
	if c.want.Environment == nil {
		c.want.Environment = map[string]*yaml.Variable{}
	}
	c.want.Environment[k] = &yaml.Variable{Value: v}
}

func (c *lctr) secret(k, v string) {
	if c.want.Environment == nil {
		c.want.Environment = map[string]*yaml.Variable{}
	}
	c.want.Environment[k] = &yaml.Variable{Secret: v}
}

func (c *lctr) setting(k string, v interface{}) {
	if c.want.Settings == nil {
		c.want.Settings = map[string]*yaml.Parameter{}
	}
	c.want.Settings[k] = &yaml.Parameter{Value: v}
}

func (c *lctr) volume(src, dst string) {
	c.vols = append(c.vols, lvol{src, dst})
	c.want.Volumes = append(c.want.Volumes, &yaml.VolumeMount{Name: fmt.Sprintf("%x", src), MountPath: dst})
}

func (c *lctr) text(b *strings.Builder, indent string) {
	fmt.Fprintf(b, "%s%s:\n", indent, c.key)
	for _, l := range c.lines {
		for _, s := range strings.Split(l, "\n") {
			if s == "" {
				b.WriteString("\n")
				continue
			}
			fmt.Fprintf(b, "%s  %s\n", indent, s)
		}
	}
}

// ldoc is a legacy document.
type ldoc struct {
	head     []string // top level lines, each possibly a block
	clone    []*lctr
	services []*lctr
	steps    []*lctr
	noSvc    bool
	style    int

	base, path string
	remote     string
	branchInc  []string
	branchExc  []string
	secrets    []*yaml.Secret
	matrix     string // text of the matrix section
}

func (d *ldoc) text() string {
	var b strings.Builder
	write := func(name string, cs []*lctr) {
		if len(cs) == 0 {
			return
		}
		b.WriteString(name + ":\n")
		for _, c := range cs {
			c.text(&b, "  ")
			if d.style == 5 {
				b.WriteString("\n  # comment\n")
			}
		}
	}
	steps := d.steps
	style := d.style
	if style == 1 && len(steps[0].lines) == 0 {
		style = 4
	}
	switch style {
	case 1: // the first step is merged from a shared mapping
		b.WriteString("defaults:\n")
		c := *d.steps[0]
		c.key = "shared: &shared"
		var t strings.Builder
		c.text(&t, "  ")
		b.WriteString(strings.Replace(t.String(), "&shared:", "&shared", 1))
		m := *d.steps[0]
		m.lines = []string{"<<: *shared"}
		steps = append([]*lctr{&m}, d.steps[1:]...)
	case 2: // the step overrides every key of the mapping it merges
		b.WriteString("defaults: &defaults\n  image: wrong\n")
		m := *d.steps[0]
		m.lines = append([]string{"<<: *defaults"}, m.lines...)
		steps = append([]*lctr{&m}, d.steps[1:]...)
		hasImage := false
		for _, l := range m.lines {
			hasImage = hasImage || strings.HasPrefix(l, "image:")
		}
		if !hasImage {
			m.lines = m.lines[1:]
		}
	case 3: // an anchor and an alias without merging
		b.WriteString("defaults: &defaults [1]\nother: *defaults\n")
	case 4: // a merge key in an unrelated place
		b.WriteString("defaults: &defaults {a: 1}\nother:\n  <<: *defaults\n")
	}
	for _, h := range d.head {
		b.WriteString(h + "\n")
	}
	write("clone", d.clone)
	if d.style == 6 {
		write("services", d.services)
		if len(steps) == 0 {
			b.WriteString("pipeline:\n")
		}
		write("pipeline", steps)
	} else {
		if len(steps) == 0 {
			b.WriteString("pipeline:\n")
		}
		write("pipeline", steps)
		write("services", d.services)
	}
	if d.matrix != "" {
		b.WriteString(d.matrix)
	}
	if d.style == 7 {
		return strings.Replace(b.String(), "\n", "\r\n", -1)
	}
	return b.String()
}

type lenv struct{ kube, clone, pull bool }

func (e lenv) set() {
	v := func(b bool) string {
		if b {
			return "true"
		}
		return ""
	}
	os.Setenv("DRONE_CONVERT_YAML_LEGACY_TO_KUBERNETES", v(e.kube))
	os.Setenv("DRONE_CONVERT_YAML_LEGACY_CLONE", v(e.clone))
	os.Setenv("DRONE_CONVERT_YAML_DEFAULT_PULL_SECRETS", v(e.pull))
}

func refWorkspacePath(remote string) string {
	u, err := url.Parse(remote)
	if err != nil || u.Hostname() == "" {
		return "src"
	}
	return "src/" + u.Hostname() + "/" + strings.TrimSuffix(strings.TrimPrefix(u.Path, "/"), "/")
}

// want is the reference conversion, without a matrix.
func (d *ldoc) want(e lenv) *yaml.Pipeline {
	p := &yaml.Pipeline{Kind: "pipeline", Name: "default"}
	base, pth := d.base, d.path
	if !e.kube {
		if pth == "." {
			pth = ""
		}
		if d.remote != "" {
			if base == "" {
				base = "/drone"
			}
			if pth == "" {
				pth = refWorkspacePath(d.remote)
			}
		}
		p.Workspace.Base, p.Workspace.Path = base, pth
	} else {
		p.Type = "kubernetes"
		if base == "" {
			base = "/drone"
		}
		if pth == "" {
			pth = refWorkspacePath(d.remote)
		}
		p.Workspace.Path = path.Join(base, pth)
	}
	add := func(l *lctr) *yaml.Container {
		c := l.want
		if _, ok := c.Environment[""]; ok {
			delete(c.Environment, "")
		}
		return &c
	}
	if len(d.clone) > 0 {
		p.Clone.Disable = true
		for _, c := range d.clone {
			p.Steps = append(p.Steps, add(c))
		}
	} else if e.clone {
		p.Clone.Disable = true
		p.Steps = append(p.Steps, &yaml.Container{Name: "clone", Image: "plugins/git", Pull: "if-not-exists"})
	}
	for _, c := range d.services {
		p.Services = append(p.Services, add(c))
	}
	for _, c := range d.steps {
		p.Steps = append(p.Steps, add(c))
	}
	seen := map[string]bool{}
	for _, cs := range [][]*lctr{d.clone, d.steps, d.services} {
		for _, c := range cs {
			for _, v := range c.vols {
				name := fmt.Sprintf("%x", v.src)
				if !seen[name] {
					seen[name] = true
					p.Volumes = append(p.Volumes, &yaml.Volume{Name: name, HostPath: &yaml.VolumeHostPath{Path: v.src}})
				}
			}
		}
	}
	if len(d.branchInc) > 0 && len(d.branchExc) == 0 {
		p.Trigger.Ref.Include = []string{"refs/pull/**", "refs/pull-requests/**", "refs/merge-requests/**"}
		for _, b := range d.branchInc {
			p.Trigger.Ref.Include = append(p.Trigger.Ref.Include, "refs/heads/"+b)
		}
		for _, s := range p.Steps {
			if contains(s.When.Event.Include, "tag") {
				p.Trigger.Ref.Include = append(p.Trigger.Ref.Include, "refs/tags/**")
				break
			}
		}
	} else {
		p.Trigger.Branch = yaml.Condition{Include: d.branchInc, Exclude: d.branchExc}
	}
	if e.pull {
		p.PullSecrets = []string{".dockerconfigjson"}
	}
	return p
}

// checkNames compares step names: unique names are kept, and of several
// equal names all become different without losing the original name. Steps,
// services and the implicit clone step share one set of names.
func checkNames(k *K, want, got *yaml.Pipeline) {
	count := map[string]int{}
	for _, s := range want.Steps {
		count[s.Name]++
	}
	seen := map[string]bool{}
	take := func(name string) {
		count[name]++
		seen[name] = true
	}
	for _, s := range got.Services {
		take(s.Name)
	}
	if !want.Clone.Disable {
		take("clone")
	}
	// (a name that one of the renamed steps took over counts as equal)
	for i, s := range got.Steps {
		if i < len(want.Steps) && seen[want.Steps[i].Name] {
			count[want.Steps[i].Name]++
		}
		if seen[s.Name] {
			k.Fail("names", "two steps or services are named %q", s.Name)
			return
		}
		seen[s.Name] = true
		if i >= len(want.Steps) {
			continue
		}
		w := want.Steps[i].Name
		if s.Name != w && (count[w] < 2 || !strings.HasPrefix(s.Name, w)) {
			k.Fail("names", "step %q is named %q", w, s.Name)
			return
		}
		// the remaining comparison is by position
		s.Name = w
	}
}

// convertLegacy converts a document and returns the resources of the result.
func convertLegacy(k *K, text, remote string) []yaml.Resource {
	in := []byte(text)
	out, err := converter.Convert(in, converter.Metadata{Filename: ".drone.yml", URL: remote})
	k.Step(1)
	k.Agree(1)
	if string(in) != text {
		k.Fail("mutates", "the conversion changes its input")
	}
	if err != nil {
		k.Fail("refused", "conversion fails: %v", err)
		return nil
	}
	if string(out) == text {
		k.Fail("not-converted", "the configuration is not converted")
		return nil
	}
	return mustParse(k, "result", string(out))
}

// canonVolumes names the volumes of a pipeline after their host paths: how
// they are named is open, as long as the names are different.
func canonVolumes(k *K, p *yaml.Pipeline) {
	to := map[string]string{}
	for _, v := range p.Volumes {
		if v.HostPath == nil {
			continue
		}
		if _, dup := to[v.Name]; dup || v.Name == "" {
			k.Fail("volumes", "two volumes are named %q", v.Name)
		}
		to[v.Name] = "host " + v.HostPath.Path
	}
	for _, v := range p.Volumes {
		if n, ok := to[v.Name]; ok {
			v.Name = n
		}
	}
	for _, s := range append(append([]*yaml.Container{}, p.Steps...), p.Services...) {
		for _, m := range s.Volumes {
			if n, ok := to[m.Name]; ok {
				m.Name = n
			}
		}
	}
	sort.SliceStable(p.Volumes, func(i, j int) bool { return p.Volumes[i].Name < p.Volumes[j].Name })
}

func (d *ldoc) check(k *K, e lenv) {
	text := d.text()
	k.In(func() string { return fmt.Sprintf("remote %q, options %+v\n%s", d.remote, e, text) })
	k.State(fmt.Sprint(d.remote, e, text))
	rs := convertLegacy(k, text, d.remote)
	if k.Failed() {
		return
	}
	want := []yaml.Resource{d.want(e)}
	for _, s := range d.secrets {
		want = append(want, s)
	}
	if len(rs) != len(want) {
		k.Fail("resources", "%d resources instead of %d", len(rs), len(want))
		return
	}
	got, ok := rs[0].(*yaml.Pipeline)
	if !ok {
		k.Fail("resources", "the first resource is a %T", rs[0])
		return
	}
	checkNames(k, want[0].(*yaml.Pipeline), got)
	want[0] = clone(want[0].(*yaml.Pipeline))
	canonVolumes(k, want[0].(*yaml.Pipeline))
	canonVolumes(k, got)
	// the order of the secret resources carries no meaning
	sort.SliceStable(rs[1:], func(i, j int) bool { return js(rs[1+i]) < js(rs[1+j]) })
	sort.SliceStable(want[1:], func(i, j int) bool { return js(want[1+i]) < js(want[1+j]) })
	k.Agree(1)
	if diff := diffResources(normResources(rs, true), normResources(want, true)); diff != "" {
		k.Fail("meaning", "%s", diff)
	}
}

type lstr struct {
	yaml string
	want []string
}

func lstrDim(name string, set func(*lctr, []string), extra ...lstr) Dim[*lctr] {
	vs := append([]lstr{
		{"[" + name + "1]", []string{name + "1"}},
		{name + "2", []string{name + "2"}},
		{"\n  - " + name + "3\n  - b c", []string{name + "3", "b c"}},
	}, extra...)
	d := Dim[*lctr]{Name: name}
	for _, v := range vs {
		v := v
		d.Opts = append(d.Opts, Opt[*lctr]{v.yaml, func(c *lctr) { c.set(name, v.yaml); set(c, v.want) }})
	}
	return d
}

// constraint spellings
type lcond struct {
	yaml string
	want yaml.Condition
}

func lconds(a, b string) []lcond {
	return []lcond{
		{a, yaml.Condition{Include: []string{a}}},
		{"[" + a + ", " + b + "]", yaml.Condition{Include: []string{a, b}}},
		{"{include: " + a + "}", yaml.Condition{Include: []string{a}}},
		{"{exclude: [" + b + ", " + a + "]}", yaml.Condition{Exclude: []string{b, a}}},
		{"{include: [" + a + "], exclude: " + b + "}", yaml.Condition{Include: []string{a}, Exclude: []string{b}}},
	}
}

func whenDim(field string, a, b string, conv func(yaml.Condition) yaml.Condition, get func(*yaml.Conditions) *yaml.Condition) Dim[*lctr] {
	d := Dim[*lctr]{Name: "when." + field}
	for _, v := range lconds(a, b) {
		v := v
		d.Opts = append(d.Opts, Opt[*lctr]{v.yaml, func(c *lctr) {
			c.when(field + ": " + v.yaml)
			w := v.want
			if conv != nil {
				w = conv(w)
			}
			*get(&c.want.When) = w
		}})
	}
	return d
}

func (c *lctr) when(line string) {
	for i, l := range c.lines {
		if strings.HasPrefix(l, "when:") {
			c.lines[i] = l + "\n  " + line
			return
		}
	}
	c.lines = append(c.lines, "when:\n  "+line)
}

func toPromoteRef(c yaml.Condition) yaml.Condition {
	f := func(l []string) (out []string) {
		for _, s := range l {
			if s == "deploy" || s == "deployment" {
				s = "promote"
			}
			out = append(out, s)
		}
		return
	}
	return yaml.Condition{Include: f(c.Include), Exclude: f(c.Exclude)}
}

func legacyContainerDims() []Dim[*lctr] {
	type C = *lctr
	field := func(key, val string, f func(c C)) func(C) {
		return func(c C) { c.set(key, val); f(c) }
	}
	ds := []Dim[C]{
		D("image",
			field("image", "octocat/hello-world:1.2", func(c C) { c.want.Image = "octocat/hello-world:1.2" }),
			field("image", `"registry:5000/a/b"`, func(c C) { c.want.Image = "registry:5000/a/b" }),
			field("image", "a@sha256:0123", func(c C) { c.want.Image = "a@sha256:0123" }),
			func(c C) {
				c.want.Image = ""
				var l []string
				for _, s := range c.lines {
					if !strings.HasPrefix(s, "image:") {
						l = append(l, s)
					}
				}
				c.lines = l
			},
		),
		lstrDim("commands", func(c C, v []string) { c.want.Commands = v },
			lstr{"\n  - 'echo \"a: b\" # not a comment'\n  - |\n    multi\n    line\n  - 'echo ${FOO} $${BAR}'", []string{"echo \"a: b\" # not a comment", "multi\nline\n", "echo ${FOO} $${BAR}"}},
			lstr{"[]", nil}),
		lstrDim("command", func(c C, v []string) { c.want.Command = v }),
		lstrDim("entrypoint", func(c C, v []string) { c.want.Entrypoint = v }),
		lstrDim("dns", func(c C, v []string) { c.want.DNS = v }, lstr{"8.8.8.8", []string{"8.8.8.8"}}),
		lstrDim("dns_search", func(c C, v []string) { c.want.DNSSearch = v }),
		D("extra_hosts", field("extra_hosts", `["a:1.2.3.4", b]`, func(c C) { c.want.ExtraHosts = []string{"a:1.2.3.4", "b"} })),
		D("name", field("name", "other", func(c C) {}), field("name", "''", func(c C) {})),
		D("detach", field("detach", "true", func(c C) { c.want.Detach = true }), field("detach", "false", func(c C) {})),
		D("privileged", field("privileged", "true", func(c C) { c.want.Privileged = true }), field("privileged", "false", func(c C) {})),
		D("pull", field("pull", "true", func(c C) { c.want.Pull = "always" }), field("pull", "false", func(c C) {})),
		D("environment",
			field("environment", "\n  FOO: bar\n  EMPTY: ''\n  quoted: \"1.10\"", func(c C) { c.env("FOO", "bar"); c.env("EMPTY", ""); c.env("quoted", "1.10") }),
			field("environment", "\n  - FOO=bar\n  - B=c=d\n  - E=", func(c C) { c.env("FOO", "bar"); c.env("B", "c=d"); c.env("E", "") }),
			field("environment", "{NUM: 42, T: true}", func(c C) { c.env("NUM", "42"); c.env("T", "true") }),
			field("environment", "['K=a b', 'L=x: y # z']", func(c C) { c.env("K", "a b"); c.env("L", "x: y # z") }),
			field("environment", "{NUL: 'null', TILDE: '~', no_value: \"Null\"}", func(c C) { c.env("NUL", "null"); c.env("TILDE", "~"); c.env("no_value", "Null") }),
			field("environment", "{}", func(c C) {}),
		),
		D("secrets",
			field("secrets", "[docker_password, Second]", func(c C) { c.secret("DOCKER_PASSWORD", "docker_password"); c.secret("SECOND", "Second") }),
			field("secrets", "\n  - source: from\n    target: to_this\n  - source: b\n    target: FOO", func(c C) { c.secret("TO_THIS", "from"); c.secret("FOO", "b") }),
			field("secrets", "[]", func(c C) {}),
		),
		D("volumes",
			field("volumes", "['/a:/b']", func(c C) { c.volume("/a", "/b") }),
			field("volumes", "\n  - /var/run/docker.sock:/var/run/docker.sock\n  - /a:/c:ro", func(c C) {
				c.volume("/var/run/docker.sock", "/var/run/docker.sock")
				c.volume("/a", "/c")
			}),
			field("volumes", "['/a:/x', '/a:/y', '/with space:/z:rw']", func(c C) { c.volume("/a", "/x"); c.volume("/a", "/y"); c.volume("/with space", "/z") }),
			field("volumes", "['/a:/b:ro:z']", func(c C) { c.volume("/a", "/b") }),
			field("volumes", "['/a:/b', ~, '/c:/d']", func(c C) { c.volume("/a", "/b"); c.volume("/c", "/d") }),
		),
		whenDim("ref", "refs/heads/a", "refs/tags/*", nil, func(c *yaml.Conditions) *yaml.Condition { return &c.Ref }),
		whenDim("repo", "a/b", "a/*", nil, func(c *yaml.Conditions) *yaml.Condition { return &c.Repo }),
		whenDim("instance", "i1", "i2", nil, func(c *yaml.Conditions) *yaml.Condition { return &c.Instance }),
		whenDim("environment", "production", "test", nil, func(c *yaml.Conditions) *yaml.Condition { return &c.Target }),
		whenDim("event", "deployment", "tag", toPromoteRef, func(c *yaml.Conditions) *yaml.Condition { return &c.Event }),
		whenDim("event", "tag", "deploy", toPromoteRef, func(c *yaml.Conditions) *yaml.Condition { return &c.Event }),
		whenDim("branch", "master", "feature/*", nil, func(c *yaml.Conditions) *yaml.Condition { return &c.Branch }),
		whenDim("status", "failure", "success", nil, func(c *yaml.Conditions) *yaml.Condition { return &c.Status }),
		D("settings",
			field("repo", "octocat/hello", func(c C) { c.setting("repo", "octocat/hello") }),
			field("tags", "[latest, \"1.10\"]", func(c C) { c.setting("tags", []interface{}{"latest", "1.10"}) }),
			field("count", "3", func(c C) { c.setting("count", 3) }),
			field("word", "'null'", func(c C) { c.setting("word", "null") }),
			field("tilde", "\"~\"", func(c C) { c.setting("tilde", "~") }),
			field("dry_run", "true", func(c C) { c.setting("dry_run", true) }),
			field("nested", "\n  a:\n    b: [1, {c: d}]\n  e: 'no'", func(c C) {
				c.setting("nested", map[interface{}]interface{}{"a": map[interface{}]interface{}{"b": []interface{}{1, map[interface{}]interface{}{"c": "d"}}}, "e": "no"})
			}),
			field("template", "|\n  line: one\n\n  line two  # x", func(c C) { c.setting("template", "line: one\n\nline two  # x\n") }),
			field("ratio", "1.5", func(c C) { c.setting("ratio", 1.5) }),
		),
		D("settings2", field("build_args", "[A=b, 'C=${D}']", func(c C) { c.setting("build_args", []interface{}{"A=b", "C=${D}"}) }),
			field("when_not", "{include: x}", func(c C) { c.setting("when_not", map[interface{}]interface{}{"include": "x"}) })),
	}
	return ds
}

func legacyBase() *ldoc {
	d := &ldoc{}
	d.steps = []*lctr{newLctr("build", "golang"), newLctr("test", "golang:1.12")}
	d.services = []*lctr{newLctr("redis", "redis")}
	return d
}

func (d *ldoc) cloneStep() *lctr {
	if len(d.clone) == 0 {
		d.clone = []*lctr{newLctr("git", "plugins/git")}
	}
	return d.clone[0]
}

func legacyDocDims() []Dim[*ldoc] {
	type L = *ldoc
	rename := func(get func(L) *lctr, names ...string) (fs []func(L)) {
		for _, n := range names {
			n := n
			fs = append(fs, func(d L) { c := get(d); c.key, c.want.Name = n, n })
		}
		return
	}
	head := func(s string, f func(L)) func(L) {
		return func(d L) { d.head = append(d.head, s); f(d) }
	}
	secret := func(name, pth, key string) *yaml.Secret {
		return &yaml.Secret{Kind: "secret", Name: name, Get: yaml.SecretGet{Path: pth, Name: key}}
	}
	ds := []Dim[L]{
		D("step0.name", rename(func(d L) *lctr { return d.steps[0] }, "test", "clone", "git", "1", "a/b", "test_1", "redis")...),
		D("step1.name", rename(func(d L) *lctr { return d.steps[1] }, "build", "git", "build_1", "test_2")...),
		D("steps",
			func(d L) { d.steps = append(d.steps, newLctr("third", "alpine")) },
			func(d L) { d.steps = append(d.steps, newLctr("build", "alpine")) },
			func(d L) {
				d.steps = append(d.steps, newLctr("build", "alpine"), newLctr("build", "busybox"), newLctr("build_2", "a"))
			},
			func(d L) { d.steps = append([]*lctr{newLctr("build_1", "x"), newLctr("build", "yy")}, d.steps...) },
		),
		D("services", func(d L) { d.services = nil }, func(d L) { d.services = append(d.services, newLctr("database", "mysql")) },
			func(d L) { d.services = append([]*lctr{newLctr("z", "z"), newLctr("a", "a")}, d.services...) }),
		D("clone", func(d L) { d.cloneStep() }, func(d L) { d.cloneStep(); d.clone = append(d.clone, newLctr("second", "plugins/hg")) },
			func(d L) { d.cloneStep(); d.clone = append([]*lctr{newLctr("clone", "x")}, d.clone...) }),
		D("workspace",
			head("workspace: {base: /go}", func(d L) { d.base = "/go" }),
			head("workspace:\n  path: src/a", func(d L) { d.path = "src/a" }),
			head("workspace: {base: /go, path: src/github.com/x/y}", func(d L) { d.base, d.path = "/go", "src/github.com/x/y" }),
			head("workspace: {path: '.'}", func(d L) { d.path = "." }),
			head("workspace: {base: /go/, path: ./x/../y/}", func(d L) { d.base, d.path = "/go/", "./x/../y/" }),
		),
		D("remote",
			func(d L) { d.remote = "https://github.com/octocat/hello-world" },
			func(d L) { d.remote = "https://git.example.com:8080/a/b/" },
			func(d L) { d.remote = "git@github.com:octocat/hello-world.git" },
			func(d L) { d.remote = "https://GitHub.example.com/Octo/Hello-World.git" },
			func(d L) { d.remote = "octocat/hello-world" },
			func(d L) { d.remote = "ssh://git@host:22/a/b.git" },
		),
		D("branches",
			head("branches: master", func(d L) { d.branchInc = []string{"master"} }),
			head("branches: [master, feature/*]", func(d L) { d.branchInc = []string{"master", "feature/*"} }),
			head("branches: {include: [master]}", func(d L) { d.branchInc = []string{"master"} }),
			head("branches: {exclude: develop}", func(d L) { d.branchExc = []string{"develop"} }),
			head("branches:\n  include: [a, b]\n  exclude: [c]", func(d L) { d.branchInc, d.branchExc = []string{"a", "b"}, []string{"c"} }),
		),
		D("secrets",
			head("secrets:\n  one:\n    driver: vault\n    driver_opts: {path: secret/a, key: password}", func(d L) { d.secrets = append(d.secrets, secret("one", "secret/a", "password")) }),
			head("secrets:\n  two: {path: secret/b}", func(d L) { d.secrets = append(d.secrets, secret("two", "secret/b", "")) }),
			head("secrets:\n  three: {vault: secret/c}\n  four: {path: d, vault: e}", func(d L) {
				d.secrets = append(d.secrets, secret("three", "secret/c", ""), secret("four", "d", ""))
			}),
			head("secrets: {six: {driver: Vault, driver_opts: {path: p, key: k}, path: q}}", func(d L) { d.secrets = append(d.secrets, secret("six", "q", "")) }),
			head("secrets: {five: {driver: vault}}", func(d L) { d.secrets = append(d.secrets, secret("five", "", "")) }),
		),
		D("style", func(d L) { d.style = 1 }, func(d L) { d.style = 2 }, func(d L) { d.style = 3 }, func(d L) { d.style = 4 }, func(d L) { d.style = 5 }, func(d L) { d.style = 6 }, func(d L) { d.style = 7 }),
	}
	return ds
}

func legacyDims(positions ...string) []Dim[*ldoc] {
	var ds []Dim[*ldoc]
	for _, p := range positions {
		var get func(d *ldoc) *lctr
		switch p {
		case "step0":
			get = func(d *ldoc) *lctr { return d.steps[0] }
		case "step1":
			get = func(d *ldoc) *lctr { return d.steps[1] }
		case "service":
			get = func(d *ldoc) *lctr { return d.services[0] }
		case "clone":
			get = func(d *ldoc) *lctr { return d.cloneStep() }
		}
		ds = append(ds, prefixDims(p+".", get, legacyContainerDims())...)
	}
	return append(ds, legacyDocDims()...)
}

// sane reports whether the deviations do not make the text ambiguous.
func (d *ldoc) sane(dims []Dim[*ldoc], ix []int) bool {
	for i, dd := range dims {
		// the two variants of the event condition exclude each other
		if ix[i] > 0 && strings.HasSuffix(dd.Name, "when.event") && i+1 < len(dims) && dims[i+1].Name == dd.Name && ix[i+1] > 0 {
			return false
		}
	}
	return true
}

func runC31(c *Ctx) {
	refusals(c, ".drone.yml", "", legacyFields())
	legacySpaces(c, func(k *K, d *ldoc, e lenv) { d.check(k, e) })
	lenv{}.set()
	legacyDict(c, func(k *K, d *ldoc, e lenv) { d.check(k, e) })
	// merge keys that the conversion cannot expand are not ignored
	lenv{}.set()
	hard := []string{
		"  image: golang\n  volumes: [/a:/b]\n", "  image: golang\n  commands: [a:b]\n", "  image: golang\n  x: {a: b:c}\n",
		"  image: golang\n  x: [a?]\n", "  image: golang\n  x: \"\\/\"\n", "  image: golang\n  x: y#z\n", "  image: golang\n  x: &y-1 [*y-1 ]\n", "  image: golang\n  x: {a, b}\n",
	}
	c.Product("merge", "merge keys next to spellings that YAML parsers disagree about", []int{len(hard), 2, 4}, func(k *K, ix []int) {
		text := "defaults: &d\n" + hard[ix[0]] + "pipeline:\n  build:\n    <<: *d\n"
		if ix[1] == 1 {
			text = "defaults: &d\n  image: golang\nother:\n" + hard[ix[0]] + "pipeline:\n  build:\n    <<: *d\n"
		}
		text = strings.Replace(text, "<<: *d", []string{"<<: *d", "<<:   *d", "<<: [*d]", "<<:\n      *d"}[ix[2]], 1)
		k.In(func() string { return text })
		k.State(text)
		out, err := converter.ConvertString(text, converter.Metadata{Filename: ".drone.yml"})
		k.Step(1)
		k.Agree(1)
		if err != nil {
			return
		}
		rs := mustParse(k, "result", out)
		if k.Failed() {
			return
		}
		p, ok := rs[0].(*yaml.Pipeline)
		if !ok || len(p.Steps) != 1 || p.Steps[0].Image != "golang" {
			k.Fail("merge", "the merged keys are missing:\n%s", out)
		}
	})
	// branch filter and tags: every choice of event conditions
	evs := []struct {
		yaml string
		tag  bool
	}{{"", false}, {"push", false}, {"tag", true}, {"[push, tag]", true}, {"[tag, push]", true}, {"{include: tag}", true}, {"{exclude: tag}", false}, {"{include: push, exclude: tag}", false}, {"Tag", false}, {"deployment", false}, {"[]", false}}
	brs := []string{"branches: master\n", "branches: [a, b]\n", "branches: {include: [a]}\n", "branches: {include: a, exclude: b}\n", "branches: {exclude: b}\n", ""}
	for o := 0; o < 2; o++ {
		o := o
		lenv{clone: o == 1}.set()
		c.Product("tags"+[]string{"", "-clone"}[o], "every branch filter x event conditions of one clone step, three steps and a service", []int{len(brs), len(evs), len(evs), len(evs), 4, 4}, func(k *K, ix []int) {
			text := brs[ix[0]]
			tag := false
			put := func(e int, steps bool) {
				text += "    image: b\n"
				if evs[e].yaml != "" {
					text += "    when: {event: " + evs[e].yaml + "}\n"
				}
				tag = tag || steps && evs[e].tag
			}
			if ix[4] > 0 {
				text += "clone:\n  git:\n"
				put(ix[4]-1, true)
			}
			text += "pipeline:\n"
			for i := 1; i <= 3; i++ {
				text += fmt.Sprintf("  s%d:\n", i)
				put(ix[i], true)
			}
			if ix[5] > 0 {
				text += "services:\n  db:\n"
				put(ix[5]-1, false)
			}
			k.In(func() string { return text })
			k.State(fmt.Sprint(o, text))
			rs := convertLegacy(k, text, "")
			if k.Failed() {
				return
			}
			p := rs[0].(*yaml.Pipeline)
			var want yaml.Conditions
			refs := []string{"refs/pull/**", "refs/pull-requests/**", "refs/merge-requests/**"}
			switch ix[0] {
			case 0:
				want.Ref.Include = append(refs, "refs/heads/master")
			case 1:
				want.Ref.Include = append(refs, "refs/heads/a", "refs/heads/b")
			case 2:
				want.Ref.Include = append(refs, "refs/heads/a")
			case 3:
				want.Branch = yaml.Condition{Include: []string{"a"}, Exclude: []string{"b"}}
			case 4:
				want.Branch = yaml.Condition{Exclude: []string{"b"}}
			}
			if tag && want.Ref.Include != nil {
				want.Ref.Include = append(want.Ref.Include, "refs/tags/**")
			}
			k.Agree(1)
			if got := js(p.Trigger); got != js(want) {
				k.Fail("trigger", "the trigger is %s instead of %s", got, js(want))
			}
		})
	}
	lenv{}.set()
	c.Assume("fields that release 0.8 accepted but ignored, or that have no current equivalent (devices, tmpfs, shell, allow_failure, read-only mounts, list environment entries without a value), are outside the domain; unquoted numbers are used in their canonical spelling")
}

// legacySpaces enumerates legacy configurations.
func legacySpaces(c *Ctx, visit func(*K, *ldoc, lenv)) {
	defer lenv{}.set()
	run := func(name string, e lenv, t, opts int, dims []Dim[*ldoc]) {
		if opts > 0 {
			dims = limitOpts(dims, opts)
		}
		e.set()
		c.Deviate(name, fmt.Sprintf("conversion options %+v, all choices of <=%d of %d fields and spellings", e, t, len(dims)), sizes(dims), t, func(k *K, ix []int) {
			d := legacyBase()
			if !d.sane(dims, ix) {
				return
			}
			// document level first, so that positions exist
			apply(dims, ix, d)
			visit(k, d, e)
		})
	}
	all := legacyDims("step0", "step1", "service", "clone")
	run("fields", lenv{}, 2, 0, all)
	n := 0
	for _, kube := range []bool{false, true} {
		for _, cl := range []bool{false, true} {
			for _, pull := range []bool{false, true} {
				e := lenv{kube, cl, pull}
				if e == (lenv{}) {
					continue
				}
				n++
				if c.Quick {
					run(fmt.Sprintf("options%d", n), e, 2, 2, legacyDims("step1"))
				} else {
					run(fmt.Sprintf("options%d", n), e, 2, 0, all)
				}
			}
		}
	}
	lenv{}.set()
	// names that resemble each other stay apart
	sim := []string{"a", "A", "a_b", "a-b", "A_B", "a.b", "aB", "á", "a b", "1", "01", "1.0", "true", "PLUGIN_A", "Plugin_a", "a/b"}
	c.Product("similar", "every pair of similar names as environment variables (mapping and list), secrets (of a step and external), settings, and one of each", []int{len(sim), len(sim), 7}, func(k *K, ix []int) {
		a, b := sim[ix[0]], sim[ix[1]]
		if ix[0] == ix[1] {
			return
		}
		d := legacyBase()
		s := d.steps[0]
		q := func(t string) string { return "'" + t + "'" }
		switch ix[2] {
		case 0:
			s.set("environment", fmt.Sprintf("{%s: one, %s: two}", q(a), q(b)))
			s.env(a, "one")
			s.env(b, "two")
		case 1:
			s.set("environment", fmt.Sprintf("[%s, %s]", q(a+"=one"), q(b+"=two")))
			s.env(a, "one")
			s.env(b, "two")
		case 2:
			if strings.ToUpper(a) == strings.ToUpper(b) {
				return
			}
			s.set("secrets", fmt.Sprintf("[%s, %s]", q(a), q(b)))
			s.secret(strings.ToUpper(a), a)
			s.secret(strings.ToUpper(b), b)
		case 3:
			d.head = append(d.head, fmt.Sprintf("secrets: {%s: {vault: one}, %s: {path: two}}", q(a), q(b)))
			d.secrets = append(d.secrets, &yaml.Secret{Kind: "secret", Name: a, Get: yaml.SecretGet{Path: "one"}}, &yaml.Secret{Kind: "secret", Name: b, Get: yaml.SecretGet{Path: "two"}})
		case 4:
			s.set(q(a), "one")
			s.set(q(b), "two")
			s.setting(a, "one")
			s.setting(b, "two")
		case 5, 6:
			// a variable next to a secret of almost the same name
			if strings.ToUpper(b) == a {
				return
			}
			if s.set("environment", "{"+q(a)+": one}"); ix[2] == 6 {
				s.set("environment", "["+q(a+"=one")+"]")
			}
			s.set("secrets", "["+q(b)+"]")
			s.env(a, "one")
			s.secret(strings.ToUpper(b), b)
		}
		visit(k, d, lenv{})
	})
	// host paths that resemble each other are different volumes
	long := strings.Repeat("/directory", 30)
	hosts := []string{"/", "/a", "/A", "/a/", "//a", "/a/b", "/a-b", "/a_b", "/ab", "a", "./a", "name", "/é", "/e", "/a b", "/b", "/var/run/docker.sock", "/run/docker.sock", long, long + "x", long + "y", "x" + long, long[:31], long[:32], long[:33], long[:62] + "1", long[:62] + "2"}
	c.Product("paths", "every pair of host paths, mounted into two of a clone step, two steps and a service, or into one", []int{len(hosts), len(hosts), 5, 5}, func(k *K, ix []int) {
		d := legacyBase()
		clones := []*lctr{newLctr("git", "plugins/git")}
		at := func(i int) *lctr {
			switch i {
			case 0:
				d.clone = clones
				return clones[0]
			case 1, 2:
				return d.steps[i-1]
			default:
				return d.services[0]
			}
		}
		a, b := hosts[ix[0]], hosts[ix[1]]
		if ix[2] == 4 || ix[3] == 4 {
			if ix[2] != 4 {
				return
			}
			s := at(ix[3] % 4)
			s.set("volumes", fmt.Sprintf("['%s:/one', '%s:/two']", a, b))
			s.volume(a, "/one")
			s.volume(b, "/two")
		} else {
			if ix[2] == ix[3] {
				return
			}
			s := at(ix[2])
			s.set("volumes", fmt.Sprintf("['%s:/one:ro']", a))
			s.volume(a, "/one")
			s = at(ix[3])
			s.set("volumes", fmt.Sprintf("['%s:/one']", b))
			s.volume(b, "/one")
		}
		visit(k, d, lenv{})
	})
	// names made unique
	un := []string{"a", "a_1", "a_2", "a_3", "a_2_3", "clone", "A", "clone_0"}
	for o := 0; o < 2; o++ {
		o := o
		e := lenv{clone: o == 1}
		e.set()
		names := func(k *K, secs [3][]int) {
			d := &ldoc{}
			for sec, to := range []*[]*lctr{&d.clone, &d.services, &d.steps} {
				end, seen := false, map[int]bool{}
				for q, x := range secs[sec] {
					if x == 0 {
						end = true
						continue
					}
					if end || seen[x] {
						return
					}
					seen[x] = true
					*to = append(*to, newLctr(un[x-1], fmt.Sprintf("image%d%d", sec, q)))
				}
			}
			if len(d.steps) > 0 {
				visit(k, d, e)
			}
		}
		n := len(un) + 1
		sfx := []string{"", "-clone"}[o]
		c.Product("names"+sfx, fmt.Sprintf("every choice of up to three clone steps and up to three pipeline steps with names out of %d", len(un)), []int{n, n, n, n, n, n}, func(k *K, ix []int) {
			if c.Quick && (ix[2] > 0 || o > 0) {
				return
			}
			names(k, [3][]int{ix[:3], nil, ix[3:]})
		})
		c.Product("names-services"+sfx, fmt.Sprintf("every choice of a clone step, up to two services and up to three pipeline steps with names out of %d", len(un)), []int{n, n, n, n, n, n}, func(k *K, ix []int) {
			if c.Quick && (ix[5] > 0 || o > 0) {
				return
			}
			// (a service called clone would be the clone step's namesake)
			if un[(ix[1]+n-2)%(n-1)] == "clone" && ix[1] > 0 || un[(ix[2]+n-2)%(n-1)] == "clone" && ix[2] > 0 {
				return
			}
			names(k, [3][]int{ix[:1], ix[1:3], ix[3:]})
		})
	}
	lenv{}.set()
	if !c.Quick {
		run("fields-3", lenv{}, 3, 2, legacyDims("step0", "clone"))
		run("document-4", lenv{}, 4, 0, legacyDocDims())
		run("document-4k", lenv{kube: true}, 4, 0, legacyDocDims())
	}
}

// ---------------------------------------------------------------------
// C32 matrix expansion
// ---------------------------------------------------------------------

// substRef replaces ${KEY} in every string of a value.
func substRef(v reflect.Value, axis map[string]string) {
	rep := func(s string) string {
		var b strings.Builder
		for i := 0; i < len(s); {
			if strings.HasPrefix(s[i:], "${") {
				if j := strings.IndexByte(s[i:], '}'); j > 0 {
					if val, ok := axis[s[i+2:i+j]]; ok {
						b.WriteString(val)
						i += j + 1
						continue
					}
				}
			}
			b.WriteByte(s[i])
			i++
		}
		return b.String()
	}
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			substRef(v.Elem(), axis)
		}
	case reflect.Interface:
		if !v.IsNil() {
			n := reflect.New(v.Elem().Type()).Elem()
			n.Set(v.Elem())
			substRef(n, axis)
			v.Set(n)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			substRef(v.Field(i), axis)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			substRef(v.Index(i), axis)
		}
	case reflect.Map:
		if v.IsNil() {
			return
		}
		out := reflect.MakeMap(v.Type())
		for _, key := range v.MapKeys() {
			nk := reflect.New(key.Type()).Elem()
			nk.Set(key)
			substRef(nk, axis)
			nv := reflect.New(v.Type().Elem()).Elem()
			nv.Set(v.MapIndex(key))
			substRef(nv, axis)
			out.SetMapIndex(nk, nv)
		}
		v.Set(out)
	case reflect.String:
		v.SetString(rep(v.String()))
	}
}

type axis = map[string]string

// matrixVal is a value as written and as meant.
type matrixVal struct{ yaml, want string }

// restricted lists the restriction of containers by name.
type mdoc struct {
	d        *ldoc
	restrict map[*lctr]axis
}

func (m *mdoc) wantFor(a axis, n int) *yaml.Pipeline {
	d := *m.d
	keep := func(cs []*lctr) (out []*lctr) {
		for _, c := range cs {
			ok := true
			for key, v := range m.restrict[c] {
				if got, has := a[key]; !has || got != v {
					ok = false
				}
			}
			if ok {
				out = append(out, c)
			}
		}
		return
	}
	full := d.want(lenv{})
	d.steps, d.services = keep(d.steps), keep(d.services)
	p := d.want(lenv{})
	// volumes, triggers and clone belong to the configuration, not to the
	// combination
	p.Volumes, p.Trigger = full.Volumes, full.Trigger
	p = clone(p)
	p.Name = fmt.Sprintf("matrix-%d", n)
	substRef(reflect.ValueOf(p), a)
	return p
}

func axisText(a axis) string {
	var out []string
	for _, k := range sortedKeys(a) {
		out = append(out, fmt.Sprintf("%q=%q", k, a[k]))
	}
	return strings.Join(out, ",")
}

// check compares the expansion with the combinations; ordered tells whether
// their order is determined.
func (m *mdoc) check(k *K, combos []axis, ordered bool) {
	text := m.d.text()
	k.In(func() string { return text })
	k.State(text)
	rs := convertLegacy(k, text, "")
	if k.Failed() {
		return
	}
	var got []*yaml.Pipeline
	for _, r := range rs {
		p, ok := r.(*yaml.Pipeline)
		if !ok {
			k.Fail("resources", "unexpected %T", r)
			return
		}
		canonVolumes(k, p)
		got = append(got, p)
	}
	if len(combos) == 0 {
		// not a matrix build
		k.Agree(1)
		if len(got) != 1 {
			k.Fail("count", "%d pipelines without a combination", len(got))
			return
		}
		w := clone(m.d.want(lenv{}))
		canonVolumes(k, w)
		if diff := diffResources(normResources([]yaml.Resource{got[0]}, true), normResources([]yaml.Resource{w}, true)); diff != "" {
			k.Fail("pipeline", "%s", diff)
		}
		return
	}
	// up to the limit every combination appears; beyond it at least that many
	const limit = 25
	min := len(combos)
	if min > limit {
		min = limit
	}
	if len(got) < min || len(got) > len(combos) {
		k.Fail("count", "%d pipelines for %d combinations", len(got), len(combos))
		return
	}
	// the limit is enforced; the code stops two combinations behind it
	if !ordered && len(got) > limit+2 {
		k.Fail("limit", "%d pipelines, more than the limit of %d", len(got), limit)
		return
	}
	for i, p := range got {
		if w := fmt.Sprintf("matrix-%d", i+1); p.Name != w {
			k.Fail("numbering", "pipeline %d is named %q", i+1, p.Name)
			return
		}
	}
	k.Agree(len(got))
	// match every pipeline with a combination
	used := make([]bool, len(combos))
	var wants []*yaml.Pipeline
	for _, a := range combos {
		w := clone(m.wantFor(a, 0))
		canonVolumes(k, w)
		wants = append(wants, normResource(w, true).(*yaml.Pipeline))
	}
	for i, p := range got {
		g := normResource(p, true)
		found := false
		var diff string
		for j, a := range combos {
			if used[j] || (ordered && j != i) {
				continue
			}
			w := wants[j]
			w.Name = p.Name
			if reflect.DeepEqual(g, yaml.Resource(w)) {
				used[j] = true
				found = true
				break
			}
			if diff == "" {
				diff = axisText(a) + ": " + diffResources([]yaml.Resource{g}, []yaml.Resource{w})
			}
		}
		if !found {
			k.Fail("combination", "pipeline %d is none of the remaining combinations, e.g. %s", i+1, diff)
			return
		}
	}
}

// product returns all combinations.
func product(keys []string, vals [][]string) []axis {
	out := []axis{{}}
	any := false
	for i, k := range keys {
		if len(vals[i]) == 0 {
			continue
		}
		any = true
		var next []axis
		for _, a := range out {
			for _, v := range vals[i] {
				n := axis{}
				for x, y := range a {
					n[x] = y
				}
				n[k] = v
				next = append(next, n)
			}
		}
		out = next
	}
	if !any {
		return nil
	}
	return out
}

// refDocument is a legacy configuration with references in every position.
func refDocument(keys []string) *mdoc {
	a, b := keys[0], keys[len(keys)-1]
	m := &mdoc{d: &ldoc{}, restrict: map[*lctr]axis{}}
	s := newLctr("build", "")
	s.set("image", "golang:${"+a+"}")
	s.want.Image = "golang:${" + a + "}"
	s.set("commands", "['echo ${"+a+"}${"+b+"}', 'go test $"+a+" ${OTHER} ${ "+a+" }']")
	s.want.Commands = []string{"echo ${" + a + "}${" + b + "}", "go test $" + a + " ${OTHER} ${ " + a + " }"}
	s.set("environment", "{V: '${"+b+"}', '${"+a+"}': x, NUL: '~', NULL2: \"null\"}")
	s.env("V", "${"+b+"}")
	s.env("NUL", "~")
	s.env("NULL2", "null")
	s.set("nil", "'null'")
	s.setting("nil", "null")
	s.env("${"+a+"}", "x")
	s.set("list", "['${"+a+"}', {k: 'a ${"+b+"} c'}, 3]")
	s.setting("list", []interface{}{"${" + a + "}", map[interface{}]interface{}{"k": "a ${" + b + "} c"}, 3})
	s.set("volumes", "['/x:/y/${"+a+"}']")
	s.volume("/x", "/y/${"+a+"}")
	s.when("branch: 'b-${" + a + "}'")
	s.want.When.Branch.Include = []string{"b-${" + a + "}"}
	v := newLctr("db", "")
	v.set("image", "'db:${"+b+"}'")
	v.want.Image = "db:${" + b + "}"
	m.d.steps = []*lctr{s, newLctr("plain", "alpine")}
	m.d.services = []*lctr{v}
	m.d.head = []string{"workspace: {base: '/w/${" + a + "}', path: p}"}
	m.d.base, m.d.path = "/w/${"+a+"}", "p"
	return m
}

func runC32(c *Ctx) {
	matrixSpaces(c, func(k *K, m *mdoc, combos []axis, ordered bool) { m.check(k, combos, ordered) })
	c.Assume("a key does not list the same value twice; beyond 25 combinations at least 25 and at most 27 distinct combinations are required")
}

// matrixSpaces enumerates matrix configurations.
func matrixSpaces(c *Ctx, visit func(k *K, m *mdoc, combos []axis, ordered bool)) {
	lenv{}.set()
	// 1. matrices of lists
	keyNames := []string{"GO", "A", "DB_VERSION", "GO_2"}
	valueSets := [][]matrixVal{
		{{"1", "1"}, {"2", "2"}, {"3", "3"}, {"4", "4"}},
		{{"1.10", "1.10"}, {"1.1", "1.1"}, {"'1.10 '", "1.10 "}, {"true", "true"}},
		{{"'a: b'", "a: b"}, {"'x # y'", "x # y"}, {"'- z'", "- z"}, {`"q\"uote"`, `q"uote`}},
		{{"'${A}'", "${A}"}, {"'${GO}'", "${GO}"}, {"'$'", "$"}, {"'{}'", "{}"}},
		{{"golang:1.11", "golang:1.11"}, {"latest", "latest"}, {`"line\nbreak"`, "line\nbreak"}, {"''", ""}},
		{{"'[1, 2]'", "[1, 2]"}, {"'nul'", "nul"}, {"'{a: b}'", "{a: b}"}, {"'*x'", "*x"}},
		{{"'null'", "null"}, {"'~'", "~"}, {"'<<'", "<<"}, {"'yes'", "yes"}},
	}
	vlist := func(set []matrixVal, n int) (text string, vals []string) {
		var t []string
		for _, v := range set[:n] {
			t = append(t, v.yaml)
			vals = append(vals, v.want)
		}
		return "[" + strings.Join(t, ", ") + "]", vals
	}
	max, max3 := 3, 2
	if !c.Quick {
		max, max3 = 4, 4
	}
	ns := len(valueSets)
	ns2 := ns
	if c.Quick {
		ns2 = 3
	}
	// number of keys, and per key: number of values and value set
	c.Product("lists", fmt.Sprintf("matrices of 1..3 keys with 0..%d values each out of %d value sets, references in every kind of position", max, ns), []int{3, max + 1, ns, max + 1, ns2, max3 + 1, 2}, func(k *K, ix []int) {
		nk := ix[0] + 1
		if (nk < 2 && (ix[3] > 0 || ix[4] > 0)) || (nk < 3 && (ix[5] > 0 || ix[6] > 0)) {
			return
		}
		keys := keyNames[:nk]
		m := refDocument(keys)
		text := "matrix:\n"
		var vals [][]string
		for i, key := range keys {
			set := valueSets[ix[2]]
			n := ix[1]
			switch i {
			case 1:
				set, n = valueSets[ix[4]], ix[3]
			case 2:
				set, n = valueSets[ix[6]*3], ix[5]
			}
			t, v := vlist(set, n)
			text += "  " + key + ": " + t + "\n"
			vals = append(vals, v)
		}
		m.d.matrix = text
		visit(k, m, product(keys, vals), false)
	})
	// values that hold whatever might separate them
	seps := []string{" ", ",", "=", ";", "\n", "|", "/", ":", "-", "x", "\t", "+"}
	c.Product("separators", "two keys with every two out of twelve values that hold a separator, for twelve separators", []int{len(seps), 12, 12, 12, 12}, func(k *K, ix []int) {
		if ix[1] >= ix[2] || ix[3] >= ix[4] {
			return
		}
		s := seps[ix[0]]
		words := []string{"1", s, "1" + s, s + "1", "1" + s + "1", "1" + s + "GO=1", "1" + s + "GO:1", "1" + s + "B" + s + "1", s + "GO=1", "=1", "", "11"}
		for _, pair := range [][]int{ix[1:3], ix[3:5]} {
			if words[pair[0]] == words[pair[1]] {
				return
			}
		}
		m := refDocument([]string{"A", "GO"})
		q := func(i int) string { return js(words[i]) }
		m.d.matrix = fmt.Sprintf("matrix:\n  A: [%s, %s]\n  GO: [%s, %s]\n", q(ix[1]), q(ix[2]), q(ix[3]), q(ix[4]))
		visit(k, m, product([]string{"A", "GO"}, [][]string{{words[ix[1]], words[ix[2]]}, {words[ix[3]], words[ix[4]]}}), false)
	})
	// many keys and many values, around the limits
	c.Product("limits", "1..10 keys with two values or 1..30 values of one key, two of another", []int{2, 30}, func(k *K, ix []int) {
		var keys []string
		var vals [][]string
		text := "matrix:\n"
		if ix[0] == 0 {
			if ix[1] >= 10 {
				return
			}
			for i := 0; i <= ix[1]; i++ {
				keys = append(keys, fmt.Sprintf("K%d", i))
				v := []string{"x"}
				if i < 4 {
					v = append(v, "y")
				}
				vals = append(vals, v)
				text += "  " + keys[i] + ": [" + strings.Join(v, ", ") + "]\n"
			}
		} else {
			keys = []string{"N", "M"}
			var v []string
			for i := 0; i <= ix[1]; i++ {
				v = append(v, fmt.Sprint("v", i))
			}
			vals = [][]string{v, {"1", "2"}}
			if ix[1]%2 == 1 {
				vals[1] = vals[1][:1]
			}
			text += "  N: [" + strings.Join(v, ", ") + "]\n  M: [" + strings.Join(vals[1], ", ") + "]\n"
		}
		m := refDocument(keys)
		m.d.matrix = text
		visit(k, m, product(keys, vals), false)
	})
	// so many keys and values that their product exceeds every integer
	sizes := []int{1, 2, 3, 5, 16, 64, 256, 1024, 4096}
	c.Product("huge", "1..70 keys with n and m values in turn, n and m out of nine sizes up to 4096", []int{70, len(sizes), len(sizes)}, func(k *K, ix []int) {
		nkeys := ix[0] + 1
		n := []int{sizes[ix[1]], sizes[ix[2]]}
		if nkeys > 12 && (n[0] > 64 || n[1] > 64) {
			return
		}
		count := 1
		var b, ref strings.Builder
		b.WriteString("matrix:\n")
		for i := 0; i < nkeys; i++ {
			size := n[i%2]
			if count < 1<<20 {
				count *= size
			}
			fmt.Fprintf(&b, "  K%d: [v0", i)
			for j := 1; j < size; j++ {
				fmt.Fprintf(&b, ", v%d", j)
			}
			b.WriteString("]\n")
			fmt.Fprintf(&ref, "${K%d}.", i)
		}
		text := "pipeline:\n  s:\n    image: a\n    environment:\n      V: " + ref.String() + "\n" + b.String()
		in := fmt.Sprintf("%d keys with %d and %d values in turn, and a step with the environment V: %s", nkeys, n[0], n[1], ref.String())
		k.In(func() string { return in })
		k.State(in)
		rs := convertLegacy(k, text, "")
		if k.Failed() {
			return
		}
		k.Agree(len(rs))
		min, max := 25, 27
		if count < min {
			min = count
		}
		if count < max {
			max = count
		}
		if len(rs) < min || len(rs) > max {
			k.Fail("count", "%d pipelines for %d (or more) combinations", len(rs), count)
			return
		}
		// the number of keys is limited to ten; the code stops two behind it
		if nkeys > 10 {
			return
		}
		seen := map[string]bool{}
		for i, r := range rs {
			v := r.(*yaml.Pipeline).Steps[0].Environment["V"].Value
			parts := strings.Split(strings.TrimSuffix(v, "."), ".")
			ok := len(parts) == nkeys && !seen[v]
			seen[v] = true
			for j, part := range parts {
				x, err := strconv.Atoi(strings.TrimPrefix(part, "v"))
				ok = ok && err == nil && x < n[j%2]
			}
			if !ok {
				k.Fail("combination", "pipeline %d has the combination %q", i+1, v)
				return
			}
		}
	})
	// 2. include lists, optionally next to lists
	entries := []struct {
		yaml string
		want axis
	}{
		{"{GO: 1.10, A: x}", axis{"GO": "1.10", "A": "x"}},
		{"{GO: '2', A: 'y: z'}", axis{"GO": "2", "A": "y: z"}},
		{"{GO: 3}", axis{"GO": "3"}},
		{"{A: '${GO}'}", axis{"A": "${GO}"}},
		{"{GO: '${A}', A: '${GO}'}", axis{"GO": "${A}", "A": "${GO}"}},
		{"{B: b}", axis{"B": "b"}},
	}
	maxInc := 3
	if !c.Quick {
		maxInc = 4
	}
	c.Words("include", fmt.Sprintf("include lists of 0..%d of %d entries, without and with lists beside them", maxInc, len(entries)), len(entries), 0, maxInc, func(k *K, w []int) {
		for variant := 0; variant < 3; variant++ {
			m := refDocument([]string{"GO", "A"})
			text := "matrix:\n  include:\n"
			if len(w) == 0 {
				text = "matrix:\n  include: []\n"
			}
			var combos []axis
			for _, i := range w {
				text += "  - " + entries[i].yaml + "\n"
				combos = append(combos, entries[i].want)
			}
			if variant > 0 && len(w) == 0 {
				return
			}
			if variant == 1 {
				text += "  extra: [1, 2]\n"
			}
			if variant == 2 {
				// a merge key anywhere in the file
				m.d.head = append(m.d.head, "defaults: &d {x: y}\nother:\n  <<: *d")
			}
			m.d.matrix = text
			visit(k, m, combos, true)
			if k.Failed() {
				return
			}
		}
	})
	// 3. restrictions
	restr := []axis{nil, {"A": "x"}, {"A": "y"}, {"A": "z"}, {"B": "1"}, {"A": "x", "B": "1"}, {"A": "x", "B": "2"}, {"C": "x"}, {"A": "x", "C": "1"}, {"A": ""}, {"A": "x", "B": "1", "C": "1"}}
	if c.Quick {
		restr = []axis{nil, {"A": "x"}, {"A": "z"}, {"A": "x", "B": "1"}, {"C": "x"}, {"A": ""}}
	}
	c.Product("restrictions", fmt.Sprintf("%d matrix restrictions on two steps, a service and a clone step; list and include matrices", len(restr)), []int{len(restr), len(restr), len(restr), 3, 2}, func(k *K, ix []int) {
		m := &mdoc{d: legacyBase(), restrict: map[*lctr]axis{}}
		put := func(l *lctr, r axis) {
			if r == nil {
				return
			}
			m.restrict[l] = r
			var t []string
			for _, key := range sortedKeys(r) {
				t = append(t, fmt.Sprintf("%s: %q", key, r[key]))
			}
			l.when("matrix: {" + strings.Join(t, ", ") + "}")
		}
		put(m.d.steps[0], restr[ix[0]])
		put(m.d.steps[1], restr[ix[1]])
		put(m.d.services[0], restr[ix[2]])
		var combos []axis
		ordered := false
		switch ix[3] {
		case 0:
			m.d.matrix = "matrix: {A: [x, y], B: [1, 2]}\n"
			combos = product([]string{"A", "B"}, [][]string{{"x", "y"}, {"1", "2"}})
		case 1:
			m.d.matrix = "matrix:\n  include:\n  - {A: x, B: 2}\n  - {A: y}\n  - {B: 1, C: x}\n"
			combos = []axis{{"A": "x", "B": "2"}, {"A": "y"}, {"B": "1", "C": "x"}}
			ordered = true
		case 2:
			m.d.matrix = "matrix: {A: [x, '']}\n"
			combos = product([]string{"A"}, [][]string{{"x", ""}})
		}
		if ix[4] == 1 {
			m.d.style = 4
		}
		visit(k, m, combos, ordered)
	})
	_ = legacy.Match
}
