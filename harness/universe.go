package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/drone/drone-yaml/yaml"
)

// ---------------------------------------------------------------------
// The configuration universe: named dimensions over resources.
// Option 0 of every dimension is "leave the default".
// ---------------------------------------------------------------------

type Opt[T any] struct {
	Name  string
	Apply func(T)
}

type Dim[T any] struct {
	Name string
	Opts []Opt[T]
}

func D[T any](name string, fs ...func(T)) Dim[T] {
	d := Dim[T]{Name: name}
	for i, f := range fs {
		d.Opts = append(d.Opts, Opt[T]{strconv.Itoa(i + 1), f})
	}
	return d
}

func sizes[T any](ds []Dim[T]) []int {
	out := make([]int, len(ds))
	for i, d := range ds {
		out[i] = len(d.Opts) + 1
	}
	return out
}

func apply[T any](ds []Dim[T], ix []int, v T) {
	for i, d := range ds {
		if ix[i] > 0 {
			d.Opts[ix[i]-1].Apply(v)
		}
	}
}

func names[T any](ds []Dim[T], ix []int) string {
	var out []string
	for i, d := range ds {
		if ix[i] > 0 {
			out = append(out, d.Name+"="+d.Opts[ix[i]-1].Name)
		}
	}
	return strings.Join(out, " ")
}

func prefixDims[T, U any](prefix string, get func(U) T, ds []Dim[T]) []Dim[U] {
	var out []Dim[U]
	for _, d := range ds {
		n := Dim[U]{Name: prefix + d.Name}
		for _, o := range d.Opts {
			o := o
			n.Opts = append(n.Opts, Opt[U]{o.Name, func(u U) { o.Apply(get(u)) }})
		}
		out = append(out, n)
	}
	return out
}

// limitOpts keeps at most n options per dimension.
func limitOpts[T any](ds []Dim[T], n int) []Dim[T] {
	var out []Dim[T]
	for _, d := range ds {
		if len(d.Opts) > n {
			d.Opts = d.Opts[:n]
		}
		out = append(out, d)
	}
	return out
}

type ctr = *yaml.Container
type pipe = *yaml.Pipeline

func strsDim(name string, set func(ctr, []string)) Dim[ctr] {
	return D(name, func(c ctr) { set(c, []string{name + "1"}) }, func(c ctr) { set(c, []string{name + "2", "b c"}) })
}

func condDims[T any](prefix string, get func(T) *yaml.Conditions) []Dim[T] {
	var out []Dim[T]
	for _, n := range []struct {
		name string
		f    func(*yaml.Conditions) *yaml.Condition
	}{
		{"action", func(c *yaml.Conditions) *yaml.Condition { return &c.Action }},
		{"branch", func(c *yaml.Conditions) *yaml.Condition { return &c.Branch }},
		{"cron", func(c *yaml.Conditions) *yaml.Condition { return &c.Cron }},
		{"event", func(c *yaml.Conditions) *yaml.Condition { return &c.Event }},
		{"instance", func(c *yaml.Conditions) *yaml.Condition { return &c.Instance }},
		{"paths", func(c *yaml.Conditions) *yaml.Condition { return &c.Paths }},
		{"ref", func(c *yaml.Conditions) *yaml.Condition { return &c.Ref }},
		{"repo", func(c *yaml.Conditions) *yaml.Condition { return &c.Repo }},
		{"status", func(c *yaml.Conditions) *yaml.Condition { return &c.Status }},
		{"target", func(c *yaml.Conditions) *yaml.Condition { return &c.Target }},
	} {
		n := n
		out = append(out, D(prefix+n.name,
			func(t T) { n.f(get(t)).Include = []string{"v1"} },
			func(t T) { n.f(get(t)).Exclude = []string{"v1", "x/*"} },
			func(t T) {
				n.f(get(t)).Include = []string{"a*", "b"}
				n.f(get(t)).Exclude = []string{"ab"}
			}))
	}
	return out
}

// containerDims enumerates every container field.
func containerDims() []Dim[ctr] {
	ds := []Dim[ctr]{
		D("image", func(c ctr) { c.Image = "plugins/docker" }, func(c ctr) { c.Image = "gcr.io/p/i@sha256:" + strings.Repeat("0a", 32) }, func(c ctr) { c.Image = "" }),
		D("build", func(c ctr) { c.Build = &yaml.Build{Image: "octo/app"} },
			func(c ctr) {
				c.Build = &yaml.Build{Image: "octo/app:1.2", Args: map[string]string{"A": "1", "B": "two words"}, CacheFrom: []string{"x", "y:1"}, Context: "./sub", Dockerfile: "Dockerfile.x", Labels: map[string]string{"l": "m"}}
			},
			func(c ctr) { c.Build = &yaml.Build{Image: "octo/app", CacheFrom: []string{"x"}} },
			func(c ctr) { c.Build = &yaml.Build{Image: "octo/app", Labels: map[string]string{"l": "m"}} },
			func(c ctr) { c.Build = &yaml.Build{Image: "octo/app", Args: map[string]string{"l": ""}} },
			func(c ctr) { c.Build = &yaml.Build{Image: "octo/app", Dockerfile: "D"} },
			func(c ctr) { c.Build = &yaml.Build{Context: "only"} }),
		D("push", func(c ctr) { c.Push = &yaml.Push{Image: "octo/app:2"} }),
		D("name", func(c ctr) { c.Name = "re named" }, func(c ctr) { c.Name = "" }),
		D("pull", func(c ctr) { c.Pull = "always" }, func(c ctr) { c.Pull = "if-not-exists" }, func(c ctr) { c.Pull = "never" }, func(c ctr) { c.Pull = "Always" }, func(c ctr) { c.Pull = "sometimes" }),
		D("detach", func(c ctr) { c.Detach = true }),
		D("user", func(c ctr) { c.User = "root" }, func(c ctr) { c.User = "1000:1000" }),
		D("shell", func(c ctr) { c.Shell = "bash" }),
		strsDim("entrypoint", func(c ctr, v []string) { c.Entrypoint = v }),
		strsDim("command", func(c ctr, v []string) { c.Command = v }),
		D("commands", func(c ctr) { c.Commands = []string{"go build"} }, func(c ctr) { c.Commands = []string{"echo a: b", "x | y\nz", `say "$HOME" \ 'q'`} }),
		strsDim("dns", func(c ctr, v []string) { c.DNS = v }),
		strsDim("dns_search", func(c ctr, v []string) { c.DNSSearch = v }),
		strsDim("extra_hosts", func(c ctr, v []string) { c.ExtraHosts = v }),
		D("network_mode", func(c ctr) { c.Network = "host" }),
		D("privileged", func(c ctr) { c.Privileged = true }),
		D("failure", func(c ctr) { c.Failure = "ignore" }, func(c ctr) { c.Failure = "Ignore" }, func(c ctr) { c.Failure = "always" }),
		D("working_dir", func(c ctr) { c.WorkingDir = "/work" }),
		D("environment",
			func(c ctr) { c.Environment = map[string]*yaml.Variable{"A": {Value: "1"}} },
			func(c ctr) { c.Environment = map[string]*yaml.Variable{"A": {Value: ""}, "B": {Secret: "sec"}} },
			func(c ctr) {
				c.Environment = map[string]*yaml.Variable{"Z": {Secret: "a b"}, "a": {Value: "x: y"}, "M": nil}
			},
			func(c ctr) { c.Environment = map[string]*yaml.Variable{"E": {Value: ""}} }),
		D("settings",
			func(c ctr) { c.Settings = map[string]*yaml.Parameter{"k": {Value: "v"}} },
			func(c ctr) {
				c.Settings = map[string]*yaml.Parameter{"tok": {Secret: "sec"}, "list": {Value: []interface{}{"a", 1, true}}, "n": nil}
			},
			func(c ctr) {
				c.Settings = map[string]*yaml.Parameter{"m": {Value: map[interface{}]interface{}{"a": "b", "c": []interface{}{map[interface{}]interface{}{"d": 1.5, "e": nil}, "f"}}}, "b": {Value: false}, "z": {Value: ""}}
			},
			func(c ctr) {
				c.Settings = map[string]*yaml.Parameter{"l": {Value: []interface{}{}}, "m": {Value: map[interface{}]interface{}{}}, "i": {Value: 0}}
			}),
		D("devices", func(c ctr) { c.Devices = []*yaml.VolumeDevice{{Name: "d", DevicePath: "/dev/x"}} },
			func(c ctr) {
				c.Devices = []*yaml.VolumeDevice{{Name: "d"}, {DevicePath: "/dev/x"}}
			}),
		D("ports", func(c ctr) { c.Ports = []*yaml.Port{{Port: 80}} },
			func(c ctr) {
				c.Ports = []*yaml.Port{{Port: 80, Host: 8080, Protocol: "tcp"}, {Port: 443}, {Port: 53, Protocol: "udp"}}
			},
			func(c ctr) { c.Ports = []*yaml.Port{{Host: 9}, {Protocol: "tcp"}} }),
		D("resources",
			func(c ctr) {
				c.Resources = &yaml.Resources{Limits: &yaml.ResourceObject{CPU: 1.5, Memory: 1 << 30}, Requests: &yaml.ResourceObject{CPU: 0.25, Memory: 100 << 20}}
			},
			func(c ctr) { c.Resources = &yaml.Resources{Limits: &yaml.ResourceObject{Memory: 1000001}} },
			func(c ctr) { c.Resources = &yaml.Resources{Requests: &yaml.ResourceObject{CPU: 2}} },
			func(c ctr) { c.Resources = &yaml.Resources{Limits: &yaml.ResourceObject{CPU: 0.001}} },
			func(c ctr) { c.Resources = &yaml.Resources{Limits: &yaml.ResourceObject{Memory: -1}} },
			func(c ctr) {
				c.Resources = &yaml.Resources{Requests: &yaml.ResourceObject{CPU: 0.30000000000000004, Memory: 1}}
			}),
		D("volumes", func(c ctr) { c.Volumes = []*yaml.VolumeMount{{Name: "vol", MountPath: "/v"}} },
			func(c ctr) {
				c.Volumes = []*yaml.VolumeMount{{Name: "vol", MountPath: "/v"}, {Name: "vol2", MountPath: "/w x"}}
			},
			func(c ctr) {
				c.Volumes = []*yaml.VolumeMount{{Name: "_docker_socket", MountPath: "/s"}, {MountPath: "/z"}}
			}),
		D("depends_on", func(c ctr) { c.DependsOn = []string{"clone"} }, func(c ctr) { c.DependsOn = []string{"a", "b c"} }),
	}
	return append(ds, condDims("when.", func(c ctr) *yaml.Conditions { return &c.When })...)
}

func pipelineDims() []Dim[pipe] {
	ds := []Dim[pipe]{
		D("version", func(p pipe) { p.Version = "1" }),
		D("kind", func(p pipe) { p.Kind = "custom" }),
		D("type", func(p pipe) { p.Type = "docker" }, func(p pipe) { p.Type = "kubernetes" }),
		D("name", func(p pipe) { p.Name = "a pipeline" }, func(p pipe) { p.Name = "" }),
		D("clone.disable", func(p pipe) { p.Clone.Disable = true }),
		D("clone.depth", func(p pipe) { p.Clone.Depth = 50 }),
		D("clone.skip_verify", func(p pipe) { p.Clone.SkipVerify = true }),
		D("concurrency", func(p pipe) { p.Concurrency.Limit = 2 }),
		D("depends_on", func(p pipe) { p.DependsOn = []string{"x"} }, func(p pipe) { p.DependsOn = []string{"x", "y z"} }),
		D("node", func(p pipe) { p.Node = map[string]string{"a": "b"} }, func(p pipe) { p.Node = map[string]string{"a": "", "c d": "e: f"} }),
		D("os", func(p pipe) { p.Platform.OS = "windows" }, func(p pipe) { p.Platform.OS = "linux" }),
		D("arch", func(p pipe) { p.Platform.Arch = "arm64" }, func(p pipe) { p.Platform.Arch = "arm" }, func(p pipe) { p.Platform.Arch = "amd64" }),
		D("variant", func(p pipe) { p.Platform.Variant = "7" }),
		D("osversion", func(p pipe) { p.Platform.Version = "1809" }, func(p pipe) { p.Platform.Version = "1903" }),
		D("pullsecrets", func(p pipe) { p.PullSecrets = []string{"s"} }, func(p pipe) { p.PullSecrets = []string{"s", "t"} }),
		D("vols",
			func(p pipe) { p.Volumes = []*yaml.Volume{{Name: "vol", EmptyDir: &yaml.VolumeEmptyDir{}}} },
			func(p pipe) {
				p.Volumes = []*yaml.Volume{{Name: "vol", EmptyDir: &yaml.VolumeEmptyDir{Medium: "memory", SizeLimit: 5 << 20}}, {Name: "h", HostPath: &yaml.VolumeHostPath{Path: "/tmp/a"}}}
			},
			func(p pipe) {
				p.Volumes = []*yaml.Volume{{Name: "only"}, {HostPath: &yaml.VolumeHostPath{Path: "/x"}}}
			},
			func(p pipe) {
				p.Volumes = []*yaml.Volume{{Name: "vol", EmptyDir: &yaml.VolumeEmptyDir{SizeLimit: 1234567}, HostPath: &yaml.VolumeHostPath{Path: "/both"}}}
			}),
		D("base", func(p pipe) { p.Workspace.Base = "/go" }, func(p pipe) { p.Workspace.Base = "/go/" }),
		D("path", func(p pipe) { p.Workspace.Path = "src/x" }, func(p pipe) { p.Workspace.Path = "../up" }),
	}
	return append(ds, condDims("trigger.", func(p pipe) *yaml.Conditions { return &p.Trigger })...)
}

// basePipeline has two steps and one service so that every container
// position (first, last, service) can deviate.
func basePipeline() pipe {
	return &yaml.Pipeline{
		Kind: "pipeline",
		Name: "default",
		Steps: []*yaml.Container{
			{Name: "one", Image: "golang"},
			{Name: "two", Image: "node:8"},
		},
		Services: []*yaml.Container{{Name: "db", Image: "redis:4"}},
	}
}

func universe(optLimit int) []Dim[pipe] {
	cd := containerDims()
	if optLimit > 0 {
		cd = limitOpts(cd, optLimit)
	}
	var ds []Dim[pipe]
	ds = append(ds, pipelineDims()...)
	ds = append(ds, prefixDims("step0.", func(p pipe) ctr { return p.Steps[0] }, cd)...)
	ds = append(ds, prefixDims("step1.", func(p pipe) ctr { return p.Steps[1] }, cd)...)
	ds = append(ds, prefixDims("svc.", func(p pipe) ctr { return p.Services[0] }, cd)...)
	return ds
}

// ---------------------------------------------------------------------
// Independent YAML emitter (flow style, every string double quoted).
// ---------------------------------------------------------------------

type kv struct {
	k string
	v interface{}
}
type obj []kv

func (o *obj) add(k string, v interface{}) { *o = append(*o, kv{k, v}) }
func (o *obj) str(k, v string) {
	if v != "" {
		o.add(k, v)
	}
}
func (o *obj) num(k string, v int) {
	if v != 0 {
		o.add(k, v)
	}
}
func (o *obj) boolean(k string, v bool) {
	if v {
		o.add(k, v)
	}
}
func (o *obj) strs(k string, v []string) {
	if len(v) > 0 {
		o.add(k, v)
	}
}
func (o *obj) smap(k string, v map[string]string) {
	if len(v) > 0 {
		o.add(k, v)
	}
}

// yq double-quotes a string for YAML.
func yq(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, r := range s {
		switch {
		case r == '"' || r == '\\':
			b.WriteByte('\\')
			b.WriteRune(r)
		case r == '\n':
			b.WriteString(`\n`)
		case r == '\t':
			b.WriteString(`\t`)
		case r == utf8.RuneError:
			b.WriteString(`\ufffd`)
		case r < 0x20 || r == 0x7f || (r > 0x7f && !unicode.IsPrint(r)):
			if r > 0xffff {
				fmt.Fprintf(&b, `\U%08x`, r)
			} else {
				fmt.Fprintf(&b, `\u%04x`, r)
			}
		default:
			b.WriteRune(r)
		}
	}
	b.WriteByte('"')
	return b.String()
}

// quoteScalar writes a string so that it reads back as that string in any
// position (null and ~ need an explicit tag behind pointers).
func quoteScalar(s string) string {
	if s == "null" || s == "~" {
		return "!!str " + s
	}
	return yq(s)
}

func emit(v interface{}) string {
	var b strings.Builder
	emitTo(&b, v)
	return b.String()
}

func emitTo(b *strings.Builder, v interface{}) {
	switch v := v.(type) {
	case nil:
		b.WriteString("~")
	case string:
		b.WriteString(quoteScalar(v))
	case int:
		b.WriteString(strconv.Itoa(v))
	case int64:
		b.WriteString(strconv.FormatInt(v, 10))
	case uint64:
		b.WriteString(strconv.FormatUint(v, 10))
	case float64:
		b.WriteString(fmtFloat(v))
	case bool:
		b.WriteString(strconv.FormatBool(v))
	case []string:
		b.WriteByte('[')
		for i, s := range v {
			if i > 0 {
				b.WriteString(", ")
			}
			b.WriteString(quoteScalar(s))
		}
		b.WriteByte(']')
	case []interface{}:
		b.WriteByte('[')
		for i, s := range v {
			if i > 0 {
				b.WriteString(", ")
			}
			emitTo(b, s)
		}
		b.WriteByte(']')
	case map[string]string:
		b.WriteByte('{')
		for i, k := range sortedKeys(v) {
			if i > 0 {
				b.WriteString(", ")
			}
			b.WriteString(quoteScalar(k) + ": " + quoteScalar(v[k]))
		}
		b.WriteByte('}')
	case map[interface{}]interface{}:
		var ks []string
		m := map[string]interface{}{}
		for k, x := range v {
			e := emit(k)
			ks = append(ks, e)
			m[e] = x
		}
		sort.Strings(ks)
		b.WriteByte('{')
		for i, k := range ks {
			if i > 0 {
				b.WriteString(", ")
			}
			b.WriteString(k + ": ")
			emitTo(b, m[k])
		}
		b.WriteByte('}')
	case obj:
		b.WriteByte('{')
		for i, e := range v {
			if i > 0 {
				b.WriteString(", ")
			}
			b.WriteString(quoteScalar(e.k) + ": ")
			emitTo(b, e.v)
		}
		b.WriteByte('}')
	case []obj:
		b.WriteByte('[')
		for i, e := range v {
			if i > 0 {
				b.WriteString(", ")
			}
			emitTo(b, e)
		}
		b.WriteByte(']')
	case raw:
		b.WriteString(string(v))
	default:
		panic(fmt.Sprintf("emit: %T", v))
	}
}

// raw is literal YAML flow text.
type raw string

func fmtFloat(v float64) string {
	s := strconv.FormatFloat(v, 'g', -1, 64)
	switch s {
	case "+Inf":
		return ".inf"
	case "-Inf":
		return "-.inf"
	case "NaN":
		return ".nan"
	}
	if !strings.ContainsAny(s, ".e") {
		s += ".0"
	}
	return s
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func condObj(c yaml.Condition) (obj, bool) {
	var o obj
	o.strs("include", c.Include)
	o.strs("exclude", c.Exclude)
	return o, len(o) > 0
}

func condsObj(c yaml.Conditions) obj {
	var o obj
	for _, e := range []struct {
		k string
		c yaml.Condition
	}{{"action", c.Action}, {"branch", c.Branch}, {"cron", c.Cron}, {"event", c.Event}, {"instance", c.Instance}, {"paths", c.Paths},
		{"ref", c.Ref}, {"repo", c.Repo}, {"status", c.Status}, {"target", c.Target}} {
		if x, ok := condObj(e.c); ok {
			o.add(e.k, x)
		}
	}
	if len(c.Matrix) > 0 {
		o.add("matrix", c.Matrix)
	}
	return o
}

func varObj(v *yaml.Variable) interface{} {
	if v == nil {
		return nil
	}
	if v.Secret != "" {
		return obj{{"from_secret", v.Secret}}
	}
	return v.Value
}

func paramObj(v *yaml.Parameter) interface{} {
	if v == nil {
		return nil
	}
	if v.Secret != "" {
		return obj{{"from_secret", v.Secret}}
	}
	return v.Value
}

func resObj(r *yaml.ResourceObject) obj {
	o := obj{}
	if r.CPU != 0 {
		o.add("cpu", r.CPU)
	}
	if r.Memory != 0 {
		o.add("memory", int64(r.Memory))
	}
	return o
}

func containerObj(c ctr) obj {
	o := obj{}
	o.str("name", c.Name)
	o.str("image", c.Image)
	if b := c.Build; b != nil {
		bo := obj{}
		bo.str("image", b.Image)
		bo.smap("args", b.Args)
		bo.strs("cache_from", b.CacheFrom)
		bo.str("context", b.Context)
		bo.str("dockerfile", b.Dockerfile)
		bo.smap("labels", b.Labels)
		o.add("build", bo)
	}
	if c.Push != nil {
		o.add("push", obj{{"image", c.Push.Image}})
	}
	o.strs("command", c.Command)
	o.strs("commands", c.Commands)
	o.boolean("detach", c.Detach)
	o.strs("depends_on", c.DependsOn)
	if len(c.Devices) > 0 {
		var l []obj
		for _, d := range c.Devices {
			x := obj{}
			x.str("name", d.Name)
			x.str("path", d.DevicePath)
			l = append(l, x)
		}
		o.add("devices", l)
	}
	o.strs("dns", c.DNS)
	o.strs("dns_search", c.DNSSearch)
	o.strs("entrypoint", c.Entrypoint)
	if len(c.Environment) > 0 {
		var x obj
		for _, k := range sortedKeys(c.Environment) {
			x.add(k, varObj(c.Environment[k]))
		}
		o.add("environment", x)
	}
	o.strs("extra_hosts", c.ExtraHosts)
	o.str("failure", c.Failure)
	o.str("network_mode", c.Network)
	if len(c.Ports) > 0 {
		var l []obj
		for _, d := range c.Ports {
			x := obj{}
			x.num("port", d.Port)
			x.num("host", d.Host)
			x.str("protocol", d.Protocol)
			l = append(l, x)
		}
		o.add("ports", l)
	}
	o.boolean("privileged", c.Privileged)
	o.str("pull", c.Pull)
	if r := c.Resources; r != nil {
		x := obj{}
		if r.Limits != nil {
			x.add("limits", resObj(r.Limits))
		}
		if r.Requests != nil {
			x.add("requests", resObj(r.Requests))
		}
		o.add("resources", x)
	}
	if len(c.Settings) > 0 {
		var x obj
		for _, k := range sortedKeys(c.Settings) {
			x.add(k, paramObj(c.Settings[k]))
		}
		o.add("settings", x)
	}
	o.str("shell", c.Shell)
	o.str("user", c.User)
	if len(c.Volumes) > 0 {
		var l []obj
		for _, d := range c.Volumes {
			x := obj{}
			x.str("name", d.Name)
			x.str("path", d.MountPath)
			l = append(l, x)
		}
		o.add("volumes", l)
	}
	if w := condsObj(c.When); len(w) > 0 {
		o.add("when", w)
	}
	o.str("working_dir", c.WorkingDir)
	return o
}

func pipelineObj(p pipe) obj {
	o := obj{}
	o.str("version", p.Version)
	o.str("kind", p.Kind)
	o.str("type", p.Type)
	o.str("name", p.Name)
	cl := obj{}
	cl.boolean("disable", p.Clone.Disable)
	cl.num("depth", p.Clone.Depth)
	cl.boolean("skip_verify", p.Clone.SkipVerify)
	if len(cl) > 0 {
		o.add("clone", cl)
	}
	if p.Concurrency.Limit != 0 {
		o.add("concurrency", obj{{"limit", p.Concurrency.Limit}})
	}
	o.strs("depends_on", p.DependsOn)
	o.smap("node", p.Node)
	pl := obj{}
	pl.str("os", p.Platform.OS)
	pl.str("arch", p.Platform.Arch)
	pl.str("variant", p.Platform.Variant)
	pl.str("version", p.Platform.Version)
	if len(pl) > 0 {
		o.add("platform", pl)
	}
	o.strs("image_pull_secrets", p.PullSecrets)
	for _, e := range []struct {
		k string
		l []*yaml.Container
	}{{"services", p.Services}, {"steps", p.Steps}} {
		if len(e.l) > 0 {
			var l []obj
			for _, c := range e.l {
				l = append(l, containerObj(c))
			}
			o.add(e.k, l)
		}
	}
	if w := condsObj(p.Trigger); len(w) > 0 {
		o.add("trigger", w)
	}
	if len(p.Volumes) > 0 {
		var l []obj
		for _, v := range p.Volumes {
			x := obj{}
			x.str("name", v.Name)
			if v.EmptyDir != nil {
				e := obj{}
				e.str("medium", v.EmptyDir.Medium)
				if v.EmptyDir.SizeLimit != 0 {
					e.add("size_limit", int64(v.EmptyDir.SizeLimit))
				}
				x.add("temp", e)
			}
			if v.HostPath != nil {
				e := obj{}
				e.str("path", v.HostPath.Path)
				x.add("host", e)
			}
			l = append(l, x)
		}
		o.add("volumes", l)
	}
	ws := obj{}
	ws.str("base", p.Workspace.Base)
	ws.str("path", p.Workspace.Path)
	if len(ws) > 0 {
		o.add("workspace", ws)
	}
	return o
}

func resourceObj(r yaml.Resource) obj {
	o := obj{}
	switch r := r.(type) {
	case *yaml.Pipeline:
		return pipelineObj(r)
	case *yaml.Cron:
		o.str("version", r.Version)
		o.str("kind", r.Kind)
		o.str("type", r.Type)
		o.str("name", r.Name)
		s := obj{}
		s.str("schedule", r.Spec.Schedule)
		s.str("branch", r.Spec.Branch)
		if r.Spec.Deploy.Target != "" {
			s.add("deployment", obj{{"target", r.Spec.Deploy.Target}})
		}
		if len(s) > 0 {
			o.add("spec", s)
		}
	case *yaml.Secret:
		o.str("version", r.Version)
		o.str("kind", r.Kind)
		o.str("type", r.Type)
		o.str("name", r.Name)
		o.str("data", r.Data)
		g := obj{}
		g.str("path", r.Get.Path)
		g.str("name", r.Get.Name)
		g.str("key", r.Get.Key)
		if len(g) > 0 {
			o.add("get", g)
		}
	case *yaml.Registry:
		o.str("version", r.Version)
		o.str("kind", r.Kind)
		o.str("type", r.Type)
		o.smap("data", r.Data)
	case *yaml.Signature:
		o.str("version", r.Version)
		o.str("kind", r.Kind)
		o.str("hmac", r.Hmac)
	}
	return o
}

// block renders the top level of a resource as block YAML lines, the rest
// in flow style.
func block(o obj) string {
	var b strings.Builder
	for _, e := range o {
		b.WriteString(e.k + ": " + emit(e.v) + "\n")
	}
	return b.String()
}

func manifestText(rs ...yaml.Resource) string {
	var b strings.Builder
	for i, r := range rs {
		if i > 0 {
			b.WriteString("---\n")
		}
		b.WriteString(block(resourceObj(r)))
	}
	return b.String()
}

// ---------------------------------------------------------------------
// Normalisation: remove distinctions without meaning (nil vs empty).
// ---------------------------------------------------------------------

func normStrs(s []string) []string {
	if len(s) == 0 {
		return nil
	}
	return s
}

func normMap(m map[string]string) map[string]string {
	if len(m) == 0 {
		return nil
	}
	return m
}

func normCond(c yaml.Condition) yaml.Condition {
	return yaml.Condition{Include: normStrs(c.Include), Exclude: normStrs(c.Exclude)}
}

func normConds(c yaml.Conditions) yaml.Conditions {
	return yaml.Conditions{
		Action: normCond(c.Action), Cron: normCond(c.Cron), Ref: normCond(c.Ref), Repo: normCond(c.Repo), Instance: normCond(c.Instance),
		Target: normCond(c.Target), Event: normCond(c.Event), Branch: normCond(c.Branch), Status: normCond(c.Status), Paths: normCond(c.Paths),
		Matrix: normMap(c.Matrix),
	}
}

func normContainer(c ctr) ctr {
	n := *c
	if c.Build != nil {
		b := *c.Build
		b.Args, b.Labels, b.CacheFrom = normMap(b.Args), normMap(b.Labels), normStrs(b.CacheFrom)
		n.Build = &b
	}
	n.Command, n.Commands, n.DependsOn = normStrs(c.Command), normStrs(c.Commands), normStrs(c.DependsOn)
	n.DNS, n.DNSSearch, n.Entrypoint, n.ExtraHosts = normStrs(c.DNS), normStrs(c.DNSSearch), normStrs(c.Entrypoint), normStrs(c.ExtraHosts)
	n.Devices = nil
	for _, d := range c.Devices {
		if d != nil {
			n.Devices = append(n.Devices, d)
		}
	}
	n.Ports = nil
	for _, d := range c.Ports {
		if d != nil {
			n.Ports = append(n.Ports, d)
		}
	}
	n.Volumes = nil
	for _, d := range c.Volumes {
		if d != nil {
			n.Volumes = append(n.Volumes, d)
		}
	}
	n.Environment = nil
	for k, v := range c.Environment {
		if v != nil {
			if n.Environment == nil {
				n.Environment = map[string]*yaml.Variable{}
			}
			n.Environment[k] = v
		}
	}
	n.Settings = nil
	for k, v := range c.Settings {
		if v != nil && !(v.Secret == "" && v.Value == nil) {
			if n.Settings == nil {
				n.Settings = map[string]*yaml.Parameter{}
			}
			n.Settings[k] = &yaml.Parameter{Secret: v.Secret, Value: normValue(v.Value)}
		}
	}
	if r := c.Resources; r != nil {
		x := &yaml.Resources{}
		if r.Limits != nil && *r.Limits != (yaml.ResourceObject{}) {
			x.Limits = r.Limits
		}
		if r.Requests != nil && *r.Requests != (yaml.ResourceObject{}) {
			x.Requests = r.Requests
		}
		n.Resources = x
		if x.Limits == nil && x.Requests == nil {
			n.Resources = nil
		}
	}
	n.When = normConds(c.When)
	return &n
}

// normValue maps a setting value to a canonical form: numbers compare by
// value, keys by their YAML rendering, empty and nil collections alike.
func normValue(v interface{}) interface{} {
	switch v := v.(type) {
	case float64:
		if v != v {
			return "NaN"
		}
		return v
	case int:
		return float64(v)
	case int64:
		return float64(v)
	case uint64:
		return float64(v)
	case []interface{}:
		out := make([]interface{}, 0, len(v))
		for _, x := range v {
			out = append(out, normValue(x))
		}
		return out
	case map[string]interface{}:
		out := map[string]interface{}{}
		for k, x := range v {
			out["string:"+k] = normValue(x)
		}
		return out
	case map[interface{}]interface{}:
		out := map[string]interface{}{}
		for k, x := range v {
			out[fmt.Sprintf("%T:%v", normValue(k), normValue(k))] = normValue(x)
		}
		return out
	}
	return v
}

func normPipeline(p pipe) pipe {
	n := *p
	n.DependsOn, n.PullSecrets, n.Node = normStrs(p.DependsOn), normStrs(p.PullSecrets), normMap(p.Node)
	n.Trigger = normConds(p.Trigger)
	n.Steps, n.Services, n.Volumes = nil, nil, nil
	for _, c := range p.Steps {
		if c != nil {
			n.Steps = append(n.Steps, normContainer(c))
		}
	}
	for _, c := range p.Services {
		if c != nil {
			n.Services = append(n.Services, normContainer(c))
		}
	}
	for _, v := range p.Volumes {
		if v != nil {
			n.Volumes = append(n.Volumes, v)
		}
	}
	return &n
}

func js(v interface{}) string {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		return fmt.Sprintf("%+v (%v)", v, err)
	}
	return string(b)
}
