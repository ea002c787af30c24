package main

import (
	"encoding/json"
	"fmt"
	"path"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/drone/drone-runtime/engine"
	"github.com/drone/drone-yaml/yaml"
	"github.com/drone/drone-yaml/yaml/compiler"
)

func init() {
	register("C14", runC14)
	register("C15", runC15)
	register("C16", runC16)
	register("C17", runC17)
	register("C18", runC18)
	register("C19", runC19)
}

// ---------------------------------------------------------------------
// Compile cases: a pipeline and the compiler's options.
// ---------------------------------------------------------------------

type copts struct {
	creds     []byte
	skip      *compiler.SkipData
	whitelist []string
	host      string // host workspace directory
}

type cc struct {
	p      pipe
	o      copts
	before pipe // a copy of p, made before the first compilation (C23)
}

func (o copts) compiler() *compiler.Compiler {
	c := &compiler.Compiler{}
	if o.creds != nil {
		c.GitCredentialsFunc = func() []byte { return append([]byte{}, o.creds...) }
	}
	if o.skip != nil {
		c.SkipFunc = compiler.SkipFunc(*o.skip)
	}
	if o.whitelist != nil {
		c.PrivilegedFunc = compiler.DindFunc(o.whitelist)
	}
	if o.host != "" {
		c.WorkspaceFunc = compiler.CreateHostWorkspace(o.host)
		c.WorkspaceMountFunc = compiler.MountHostWorkspace
	}
	return c
}

func (x *cc) compile() *engine.Spec { return x.o.compiler().Compile(x.p) }

func (x *cc) text() string { return fmt.Sprintf("%s# options: %+v\n", manifestText(x.p), x.o) }

func compileBase() *cc {
	return &cc{p: &yaml.Pipeline{Kind: "pipeline", Name: "default",
		Steps: []*yaml.Container{
			{Name: "one", Image: "golang:1", Commands: []string{"go build"}},
			{Name: "two", Image: "plugins/slack", Settings: map[string]*yaml.Parameter{"chan": {Value: "dev"}}},
			{Name: "img", Build: &yaml.Build{Image: "octo/app"}},
		},
		Services: []*yaml.Container{{Name: "db", Image: "redis:4"}},
		Volumes:  []*yaml.Volume{{Name: "vol", EmptyDir: &yaml.VolumeEmptyDir{}}},
	}}
}

func optDims() []Dim[*cc] {
	return []Dim[*cc]{
		D("creds", func(x *cc) { x.o.creds = []byte("https://u:p@h") }, func(x *cc) { x.o.creds = []byte{} }),
		D("skip", func(x *cc) { x.o.skip = &compiler.SkipData{Branch: "v1", Event: "v1"} },
			func(x *cc) {
				x.o.skip = &compiler.SkipData{Branch: "ab", Cron: "v1", Event: "a", Instance: "b", Ref: "v1", Repo: "x/1", Target: "v1", Action: "v1"}
			}),
		D("whitelist", func(x *cc) {
			x.o.whitelist = []string{"plugins/slack", "docker.io/library/redis", "drone/git", "drone/docker"}
		}),
		D("host", func(x *cc) { x.o.host = "/home/u" }),
	}
}

func compileDims() []Dim[*cc] {
	ds := optDims()
	ds = append(ds, prefixDims("", func(x *cc) pipe { return x.p }, pipelineDims())...)
	cd := containerDims()
	ds = append(ds, prefixDims("one.", func(x *cc) ctr { return x.p.Steps[0] }, cd)...)
	ds = append(ds, prefixDims("two.", func(x *cc) ctr { return x.p.Steps[1] }, cd)...)
	ds = append(ds, prefixDims("img.", func(x *cc) ctr { return x.p.Steps[2] }, cd)...)
	ds = append(ds, prefixDims("db.", func(x *cc) ctr { return x.p.Services[0] }, cd)...)
	return ds
}

// compileSpace explores every compile case with at most t deviations (one
// more in the thorough tier).
func compileSpace(c *Ctx, keep func(name string) bool, quick, thorough int, f func(k *K, x *cc, spec *engine.Spec)) {
	var ds []Dim[*cc]
	for _, d := range compileDims() {
		if keep == nil || keep(d.Name) {
			ds = append(ds, d)
		}
	}
	t := quick
	if !c.Quick {
		t = thorough
	}
	c.Deviate("pipelines", fmt.Sprintf("at most %d deviations over %d dimensions", t, len(ds)), sizes(ds), t, func(k *K, ix []int) {
		x := compileBase()
		apply(ds, ix, x)
		runCompile(k, x, names(ds, ix), f)
	})
}

func runCompile(k *K, x *cc, label string, f func(k *K, x *cc, spec *engine.Spec)) {
	k.In(func() string { return label + "\n" + x.text() })
	k.State(label + "|" + x.text())
	if k.c.ID == "C23" {
		x.before = clone(x.p)
	}
	spec := x.compile()
	k.Step(1)
	f(k, x, spec)
}

// row pairs a compiled step with the container it comes from.
type row struct {
	src     ctr // nil for clone
	service bool
	step    *engine.Step
}

func (r row) clone() bool { return r.src == nil }
func (r row) build() bool { return r.src != nil && !r.service && r.src.Build != nil }
func (r row) at() string {
	if r.clone() {
		return "clone"
	}
	if r.service {
		return "service " + r.src.Name
	}
	return "step " + r.src.Name
}

// rows aligns the plan with the pipeline: clone, services, steps.
func rows(k *K, p pipe, spec *engine.Spec) []row {
	var out []row
	if !p.Clone.Disable {
		out = append(out, row{})
	}
	for _, s := range p.Services {
		out = append(out, row{src: s, service: true})
	}
	for _, s := range p.Steps {
		out = append(out, row{src: s})
	}
	if len(spec.Steps) != len(out) {
		k.Fail("shape", "the plan has %d steps, want %d (clone, services, steps)", len(spec.Steps), len(out))
		return nil
	}
	for i := range out {
		out[i].step = spec.Steps[i]
		want := "clone"
		if out[i].src != nil {
			want = out[i].src.Name
		}
		if out[i].step == nil || out[i].step.Docker == nil || out[i].step.Metadata.Name != want {
			k.Fail("shape", "entry %d of the plan is not %q", i, want)
			return nil
		}
	}
	return out
}

func (k *K) eq(class, what string, got, want interface{}) {
	k.Agree(1)
	if !reflect.DeepEqual(got, want) {
		k.Fail(class, "%s = %s, want %s", what, short(got), short(want))
	}
}

func short(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("%#v", v)
	}
	return string(b)
}

func norm0(l []string) []string {
	if len(l) == 0 {
		return nil
	}
	return l
}

// ---------------------------------------------------------------------
// C14: run conditions
// ---------------------------------------------------------------------

func refSkip(d compiler.SkipData, w yaml.Conditions) bool {
	for _, e := range []struct {
		c yaml.Condition
		v string
	}{{w.Branch, d.Branch}, {w.Cron, d.Cron}, {w.Event, d.Event}, {w.Instance, d.Instance}, {w.Ref, d.Ref}, {w.Repo, d.Repo}, {w.Target, d.Target}, {w.Action, d.Action}} {
		if !refCondition(e.c, e.v) {
			return true
		}
	}
	return false
}

func refPolicy(src ctr, skip bool) engine.RunPolicy {
	failure := len(src.When.Status.Include) > 0 && refCondition(src.When.Status, "failure")
	success := refCondition(src.When.Status, "success")
	switch {
	case skip || !failure && !success:
		return engine.RunNever
	case failure && success:
		return engine.RunAlways
	case failure:
		return engine.RunOnFailure
	}
	return engine.RunOnSuccess
}

func checkPolicies(k *K, x *cc, spec *engine.Spec) {
	for _, r := range rows(k, x.p, spec) {
		want := engine.RunOnSuccess
		if r.src != nil {
			want = refPolicy(r.src, x.o.skip != nil && refSkip(*x.o.skip, r.src.When))
		}
		k.Agree(1)
		if r.step.RunPolicy != want {
			k.Fail("policy", "%s: run policy %v, want %v", r.at(), r.step.RunPolicy, want)
		}
	}
}

func whenField(w *yaml.Conditions, i int) *yaml.Condition {
	return []*yaml.Condition{&w.Branch, &w.Cron, &w.Event, &w.Instance, &w.Ref, &w.Repo, &w.Target, &w.Action, &w.Paths, &w.Status}[i]
}

func runC14(c *Ctx) {
	isWhen := func(n string) bool {
		return strings.Contains(n, "when.") || n == "skip" || n == "clone.disable" || strings.HasSuffix(n, "build")
	}
	compileSpace(c, isWhen, 2, 3, checkPolicies)
	compileDict(c, onlyWhen, globsClear, checkPolicies)

	// every field absent, matching, not matching or excluded; a different
	// value for every field, so that mixed up fields show
	data := compiler.SkipData{Branch: "br", Cron: "cr", Event: "ev", Instance: "in", Ref: "refs/x", Repo: "o/r", Target: "ta", Action: "ac"}
	vals := []string{"br", "cr", "ev", "in", "refs/x", "o/r", "ta", "ac"}
	dims := make([]int, 8)
	for i := range dims {
		dims[i] = 3
		if !c.Quick {
			dims[i] = 4
		}
	}
	c.Product("fields", "every condition field absent, matching, not matching (thorough: or excluded)", dims, func(k *K, ix []int) {
		x := &cc{p: &yaml.Pipeline{Name: "p"}}
		x.o.skip = &data
		var w yaml.Conditions
		for i, v := range ix {
			f := whenField(&w, i)
			switch v {
			case 1:
				f.Include = []string{"zz", vals[i]}
			case 2:
				f.Include = []string{vals[(i+1)%8]}
			case 3:
				f.Exclude = []string{vals[i]}
			}
		}
		x.p.Steps = []*yaml.Container{{Name: "s", Image: "i", When: w}, {Name: "b", Build: &yaml.Build{Image: "i"}, When: w}}
		x.p.Services = []*yaml.Container{{Name: "d", Image: "i", When: w}}
		runCompile(k, x, fmt.Sprint(ix), checkPolicies)
		for _, s := range x.p.Steps {
			k.Step(1)
			k.Agree(1)
			if got, want := compiler.SkipFunc(data)(s), refSkip(data, w); got != want {
				k.Fail("skip", "SkipFunc on %s = %v, want %v", short(w), got, want)
			}
		}
	})
	// one field, every combination of include and exclude and of values,
	// next to another field
	pats := []string{"v", "v*", "w", "*", "[", "a/**"}
	values := []string{"", "v", "vv", "w", "a/b", "a/b/c"}
	var lists [][]string
	lists = append(lists, nil)
	for _, p := range pats {
		lists = append(lists, []string{p})
	}
	for _, p := range pats {
		for _, q := range pats {
			lists = append(lists, []string{p, q})
		}
	}
	c.Product("values", "field x include list x exclude list x value", []int{10, len(lists), len(lists), len(values)}, func(k *K, ix []int) {
		var w yaml.Conditions
		*whenField(&w, ix[0]) = yaml.Condition{Include: lists[ix[1]], Exclude: lists[ix[2]]}
		v := values[ix[3]]
		d := compiler.SkipData{}
		switch ix[0] {
		case 0:
			d.Branch = v
		case 1:
			d.Cron = v
		case 2:
			d.Event = v
		case 3:
			d.Instance = v
		case 4:
			d.Ref = v
		case 5:
			d.Repo = v
		case 6:
			d.Target = v
		case 7:
			d.Action = v
		}
		for _, p := range append(append([]string{}, lists[ix[1]]...), lists[ix[2]]...) {
			if !globDomain(p, v) {
				return
			}
		}
		x := &cc{p: &yaml.Pipeline{Name: "p", Steps: []*yaml.Container{{Name: "s", Image: "i", When: w}}}}
		x.o.skip = &d
		runCompile(k, x, fmt.Sprint(ix), checkPolicies)
	})
	// status conditions
	st := []string{"success", "failure", "*", "s*", "{success,failure}", "changed", "Success", "["}
	var sl [][]string
	sl = append(sl, nil, []string{})
	for _, p := range st {
		sl = append(sl, []string{p})
	}
	for _, p := range st {
		for _, q := range st {
			sl = append(sl, []string{p, q})
		}
	}
	c.Product("status", "status include list x exclude list x skip policy", []int{len(sl), len(sl), 3}, func(k *K, ix []int) {
		w := yaml.Conditions{Status: yaml.Condition{Include: sl[ix[0]], Exclude: sl[ix[1]]}}
		x := &cc{p: &yaml.Pipeline{Name: "p", Steps: []*yaml.Container{{Name: "s", Image: "i", When: w}, {Name: "b", Build: &yaml.Build{Image: "i"}, When: w}, {Name: "plain", Image: "i"}},
			Services: []*yaml.Container{{Name: "d", Image: "i", When: w}}}}
		comp := &compiler.Compiler{}
		if ix[2] > 0 {
			comp.SkipFunc = func(s ctr) bool { return (ix[2] == 1) == (s.Name == "plain") }
		}
		k.In(func() string { return x.text() })
		k.State(fmt.Sprint(ix))
		spec := comp.Compile(x.p)
		k.Step(1)
		for _, r := range rows(k, x.p, spec) {
			want := engine.RunOnSuccess
			if r.src != nil {
				want = refPolicy(r.src, comp.SkipFunc != nil && comp.SkipFunc(r.src))
			}
			k.Agree(1)
			if r.step.RunPolicy != want {
				k.Fail("policy", "%s: run policy %v, want %v (status %s)", r.at(), r.step.RunPolicy, want, short(r.src))
			}
		}
	})
}

// ---------------------------------------------------------------------
// C15: privileged mode
// ---------------------------------------------------------------------

func refDind(list []string, src ctr) bool {
	if len(src.Commands)+len(src.Command)+len(src.Entrypoint) > 0 {
		return false
	}
	for _, w := range list {
		if refRepo(w) == refRepo(src.Image) {
			return true
		}
	}
	return false
}

func checkPrivileged(k *K, x *cc, spec *engine.Spec) {
	for _, r := range rows(k, x.p, spec) {
		want := false
		if r.src != nil {
			want = r.src.Privileged && !r.build() || x.o.whitelist != nil && refDind(x.o.whitelist, r.src)
		}
		k.Agree(1)
		if r.step.Docker.Privileged != want {
			k.Fail("privileged", "%s: privileged %v, want %v", r.at(), r.step.Docker.Privileged, want)
		}
	}
}

func runC15(c *Ctx) {
	compileSpace(c, nil, 2, 3, checkPrivileged)
	compileDict(c, notWhen, nil, checkPrivileged)
	wl := [][]string{nil, {}, {"plugins/docker"}, {"plugins/ecr", "plugins/docker"}, {"docker.io/plugins/docker:latest"}, {"docker"}, {"gcr.io/x/y"}, {"drone/git", "drone/docker"}, {"*"}, {""}, {"plugins/docker@sha256:" + strings.Repeat("0a", 32)}, {"localhost/docker"}}
	imgs := []string{"plugins/docker", "plugins/docker:18", "docker.io/plugins/docker", "index.docker.io/plugins/docker:1", "plugins/docker-x", "xplugins/docker", "docker", "library/docker", "docker:dind", "gcr.io/x/y:1", "gcr.io/x/z", "gcr.io/plugins/docker", "drone/git", "", "plugins/ecr@sha256:" + strings.Repeat("0a", 32), "docker.io/localhost/docker", "docker.io/gcr.io/y", "Plugins/Docker", "plugins/docker:", "*"}
	kinds := []func(s ctr){
		func(s ctr) {}, func(s ctr) { s.Commands = []string{"x"} }, func(s ctr) { s.Command = []string{"x"} }, func(s ctr) { s.Entrypoint = []string{"x"} },
		func(s ctr) { s.Commands = []string{} }, func(s ctr) { s.Commands = []string{""} }, func(s ctr) { s.Entrypoint = []string{""} }, func(s ctr) { s.Shell = "sh" },
		func(s ctr) { s.Settings = map[string]*yaml.Parameter{"commands": {Value: "x"}} }, func(s ctr) { s.Detach = true }, func(s ctr) { s.Push = &yaml.Push{Image: "plugins/docker"} },
		func(s ctr) { s.Build = &yaml.Build{Image: "plugins/docker"} },
	}
	c.Product("whitelist", "whitelist x image x what the container sets x declared privileged x step or service", []int{len(wl), len(imgs), len(kinds), 2, 2}, func(k *K, ix []int) {
		s := &yaml.Container{Name: "s", Image: imgs[ix[1]], Privileged: ix[3] == 1}
		kinds[ix[2]](s)
		x := &cc{p: &yaml.Pipeline{Name: "p"}}
		x.o.whitelist = wl[ix[0]]
		o := &yaml.Container{Name: "o", Image: "other"}
		if ix[4] == 0 {
			x.p.Steps = []*yaml.Container{o, s}
		} else {
			x.p.Services = []*yaml.Container{s, o}
			if s.Build != nil {
				return // services do not build
			}
		}
		runCompile(k, x, fmt.Sprint(ix), checkPrivileged)
		k.Step(1)
		k.Agree(1)
		if got, want := compiler.DindFunc(wl[ix[0]])(s), refDind(wl[ix[0]], s); got != want {
			k.Fail("policy", "DindFunc(%q) on %s = %v, want %v", wl[ix[0]], short(s), got, want)
		}
	})
	// one policy over several containers
	pairs := []string{"plugins/docker", "plugins/docker:18", "docker.io/plugins/docker", "plugins/slack", "gcr.io/plugins/docker"}
	if c.Quick {
		pairs = []string{"plugins/docker", "docker.io/plugins/docker:18", "plugins/slack"}
	}
	c.Product("shared", "one policy over three containers: image x what each sets x whitelist x who comes first", []int{len(pairs), len(pairs), len(pairs), len(kinds), len(kinds), len(kinds), 3}, func(k *K, ix []int) {
		list := []string{"plugins/docker"}
		x := &cc{p: &yaml.Pipeline{Name: "p"}}
		x.o.whitelist = list
		for i := 0; i < 3; i++ {
			s := &yaml.Container{Name: fmt.Sprint("s", i), Image: pairs[ix[i]]}
			kinds[ix[3+i]](s)
			if i == 0 && ix[6] == 1 || i == 2 && ix[6] == 2 {
				if s.Build != nil {
					return
				}
				x.p.Services = append(x.p.Services, s)
			} else {
				x.p.Steps = append(x.p.Steps, s)
			}
		}
		comp := x.o.compiler()
		k.In(func() string { return x.text() })
		k.State(fmt.Sprint(ix))
		for i := 0; i < 2; i++ { // the second time round the policy has seen all of them
			checkPrivileged(k, x, comp.Compile(x.p))
			k.Step(1)
		}
	})
	// policies of the caller
	pol := []func(ctr) bool{nil, func(ctr) bool { return true }, func(ctr) bool { return false }, func(s ctr) bool { return s.Name == "a" }, func(s ctr) bool { return s.Name == "clone" || s.Name == "d" }}
	c.Product("policies", "policy x declared flags of two steps, a build step and a service x clone enabled", []int{len(pol), 2, 2, 2, 2, 2}, func(k *K, ix []int) {
		p := &yaml.Pipeline{Name: "p", Steps: []*yaml.Container{{Name: "a", Image: "i", Privileged: ix[1] == 1}, {Name: "b", Image: "i", Privileged: ix[2] == 1, Commands: []string{"x"}}, {Name: "m", Build: &yaml.Build{Image: "i"}, Privileged: ix[3] == 1}},
			Services: []*yaml.Container{{Name: "d", Image: "i", Privileged: ix[4] == 1}}}
		p.Clone.Disable = ix[5] == 1
		k.In(func() string { return manifestText(p) })
		k.State(fmt.Sprint(ix))
		spec := (&compiler.Compiler{PrivilegedFunc: pol[ix[0]]}).Compile(p)
		k.Step(1)
		for _, r := range rows(k, p, spec) {
			want := r.src != nil && (r.src.Privileged && !r.build() || pol[ix[0]] != nil && pol[ix[0]](r.src))
			k.Agree(1)
			if r.step.Docker.Privileged != want {
				k.Fail("privileged", "%s: privileged %v, want %v", r.at(), r.step.Docker.Privileged, want)
			}
		}
	})
}

// ---------------------------------------------------------------------
// C16: variables and secrets
// ---------------------------------------------------------------------

// encodeScalar is the text of a scalar setting.
func encodeScalar(v interface{}) (string, bool) {
	switch v := v.(type) {
	case string:
		return v, true
	case bool:
		if v {
			return "true", true
		}
		return "false", true
	case int:
		return strconv.Itoa(v), true
	case int64:
		return strconv.FormatInt(v, 10), true
	case uint64:
		return strconv.FormatUint(v, 10), true
	case float64:
		return strconv.FormatFloat(v, 'g', -1, 64), true
	case nil:
		return "", true
	}
	return "", false
}

func jsonValue(v interface{}) interface{} {
	switch v := v.(type) {
	case []interface{}:
		out := []interface{}{}
		for _, x := range v {
			out = append(out, jsonValue(x))
		}
		return out
	case map[interface{}]interface{}:
		out := map[string]interface{}{}
		for k, x := range v {
			s, _ := encodeScalar(k)
			if k == nil {
				s = "null"
			}
			out[s] = jsonValue(x)
		}
		return out
	case int:
		return float64(v)
	case int64:
		return float64(v)
	case uint64:
		return float64(v)
	}
	return v
}

// sameSetting compares the text of a setting with its value.
func sameSetting(got string, v interface{}) (string, bool) {
	if s, ok := encodeScalar(v); ok {
		return s, got == s
	}
	if l, ok := v.([]interface{}); ok {
		var parts []string
		scalars := true
		for _, x := range l {
			s, ok := encodeScalar(x)
			scalars = scalars && ok
			parts = append(parts, s)
		}
		if scalars {
			s := strings.Join(parts, ",")
			return s, got == s
		}
	}
	want, _ := json.Marshal(jsonValue(v))
	var g interface{}
	if err := json.Unmarshal([]byte(got), &g); err != nil {
		return string(want), false
	}
	return string(want), reflect.DeepEqual(g, jsonValue(v))
}

var workspaceVars = []string{"DRONE_WORKSPACE_BASE", "DRONE_WORKSPACE_PATH", "DRONE_WORKSPACE", "CI_WORKSPACE_BASE", "CI_WORKSPACE_PATH", "CI_WORKSPACE"}

// settingNamed tells whether a setting with a value becomes the variable.
func settingNamed(c ctr, name string) bool {
	for n, v := range c.Settings {
		if v != nil && v.Secret == "" && v.Value != nil && "PLUGIN_"+strings.ToUpper(n) == name {
			return true
		}
	}
	return false
}

func checkVariables(k *K, x *cc, spec *engine.Spec) {
	win := x.p.Platform.OS == "windows"
	for _, r := range rows(k, x.p, spec) {
		allowed := map[string]bool{}
		for _, v := range workspaceVars {
			allowed[v] = true
		}
		var wantSecrets []string
		literal := func(name, want string, ok bool) {
			got, has := r.step.Envs[name]
			k.Agree(1)
			if !has {
				k.Fail("missing", "%s: variable %s is missing, want %q", r.at(), name, want)
			} else if !ok {
				k.Fail("value", "%s: variable %s = %q, want %q", r.at(), name, got, want)
			}
			allowed[name] = true
		}
		switch {
		case r.clone():
			for _, v := range []string{"PLUGIN_DEPTH", "GIT_SSL_NO_VERIFY", "PLUGIN_SKIP_VERIFY"} {
				allowed[v] = true
			}
		default:
			if r.build() {
				for _, v := range []string{"DOCKER_BUILD_CACHE_FROM", "DOCKER_BUILD_DOCKERFILE", "DOCKER_BUILD_CONTEXT", "DOCKER_BUILD_IMAGE", "DOCKER_BUILD_IMAGE_ALIAS", "DOCKER_BUILD_ARGS", "DOCKER_BUILD_LABELS"} {
					allowed[v] = true
				}
			}
			if win && len(r.src.Commands) > 0 {
				allowed["CI_SCRIPT"], allowed["SHELL"] = true, true
			}
			for _, n := range sortedKeys(r.src.Environment) {
				v := r.src.Environment[n]
				switch {
				case v == nil:
				case v.Secret != "":
					wantSecrets = append(wantSecrets, n+" from "+v.Secret)
				case settingNamed(r.src, n):
					// the setting decides
					allowed[n] = true
				case r.build():
					allowed[n] = true
					if got, ok := r.step.Envs[n]; ok && got != v.Value {
						k.Fail("value", "%s: variable %s = %q, want %q", r.at(), n, got, v.Value)
					}
				default:
					literal(n, v.Value, r.step.Envs[n] == v.Value)
				}
			}
			for _, n := range sortedKeys(r.src.Settings) {
				v := r.src.Settings[n]
				name := "PLUGIN_" + strings.ToUpper(n)
				switch {
				case v == nil:
				case v.Secret != "":
					wantSecrets = append(wantSecrets, name+" from "+v.Secret)
				case v.Value == nil:
					allowed[name] = true
				case r.build():
					allowed[name] = true
				default:
					want, ok := sameSetting(r.step.Envs[name], v.Value)
					literal(name, want, ok)
				}
			}
		}
		for n := range r.step.Envs {
			if !allowed[n] {
				k.Fail("extra", "%s: unexpected variable %s=%q", r.at(), n, r.step.Envs[n])
			}
		}
		var got []string
		for _, s := range r.step.Secrets {
			got = append(got, s.Env+" from "+s.Name)
		}
		sort.Strings(got)
		sort.Strings(wantSecrets)
		if r.build() && len(got) == 0 {
			wantSecrets = nil
		}
		k.eq("secrets", r.at()+": secret variables", got, wantSecrets)
	}
	if len(spec.Secrets) != 0 {
		k.Fail("secrets", "the plan carries secret values: %s", short(spec.Secrets))
	}
}

func settingValues() []interface{} {
	var out []interface{}
	sc := []interface{}{"", "s", "a,b", "1", "true", "null", "x: y", "é\n", 0, -7, 1 << 40, int64(5000000000), uint64(1) << 63, 1.5, 1e21, 0.1, 100000.0, 123456789.0, true, false, "- a", "{", "~", "0x10", "1_000", " lead", "# c", "yes", "2001-01-01", ".5", "1e3", "!x", "&x", "*x", "01", "\t"}
	out = append(out, sc...)
	out = append(out, []interface{}{}, map[interface{}]interface{}{})
	for _, a := range sc {
		out = append(out, []interface{}{a}, map[interface{}]interface{}{"k": a}, []interface{}{[]interface{}{a}}, []interface{}{map[interface{}]interface{}{"k": a}}, map[interface{}]interface{}{"k": []interface{}{a, "z"}})
		for _, b := range sc {
			out = append(out, []interface{}{a, b})
		}
	}
	out = append(out, []interface{}{"a", nil, "b"}, []interface{}{nil}, map[interface{}]interface{}{"a": nil}, map[interface{}]interface{}{1: "int", true: "bool"}, []interface{}{"a", map[interface{}]interface{}{"b": nil}},
		map[interface{}]interface{}{"a": map[interface{}]interface{}{"b": map[interface{}]interface{}{"c": []interface{}{1, "2", true}}}}, []interface{}{"a", []interface{}{"b", []interface{}{"c"}}})
	// every kind of key, at every depth
	for _, key := range []interface{}{nil, 0, -1, uint64(1) << 63, 1.5, 1e21, true, "", "a: b", "null", "1", "true", "<<", "é"} {
		for _, a := range []interface{}{"s", 1, 1.5, nil, true, "1"} {
			m := map[interface{}]interface{}{key: a, "other": "o"}
			out = append(out, m, map[interface{}]interface{}{"k": m}, []interface{}{m, "x"}, map[interface{}]interface{}{key: []interface{}{a, m}})
		}
	}
	return out
}

func runC16(c *Ctx) {
	keep := func(n string) bool {
		return !strings.Contains(n, "when.") && !strings.HasPrefix(n, "trigger")
	}
	compileSpace(c, keep, 2, 3, checkVariables)
	compileDict(c, notWhen, variablesClear, checkVariables)
	vals := settingValues()
	c.Product("settings", "setting value x (in memory, parsed)", []int{len(vals), 2}, func(k *K, ix []int) {
		x := &cc{p: &yaml.Pipeline{Kind: "pipeline", Name: "p", Steps: []*yaml.Container{{Name: "s", Image: "i", Settings: map[string]*yaml.Parameter{"key": {Value: vals[ix[0]]}, "z": {Value: "other"}}}, {Name: "t", Image: "i"}}}}
		want := x.p
		if ix[1] == 1 {
			rs := mustParse(k, "parse", manifestText(x.p))
			if len(rs) != 1 {
				return
			}
			x.p = rs[0].(*yaml.Pipeline)
		}
		runCompile(k, x, fmt.Sprint(ix), func(k *K, x *cc, spec *engine.Spec) {
			checkVariables(k, &cc{p: want, o: x.o}, spec)
		})
	})
	// variables: every assignment of three names in two containers
	kinds := []func(m map[string]*yaml.Variable, n string){
		func(m map[string]*yaml.Variable, n string) {},
		func(m map[string]*yaml.Variable, n string) { m[n] = nil },
		func(m map[string]*yaml.Variable, n string) { m[n] = &yaml.Variable{Value: ""} },
		func(m map[string]*yaml.Variable, n string) { m[n] = &yaml.Variable{Value: "v$" + n} },
		func(m map[string]*yaml.Variable, n string) { m[n] = &yaml.Variable{Secret: "sec_" + n} },
		func(m map[string]*yaml.Variable, n string) { m[n] = &yaml.Variable{Secret: "shared"} },
	}
	skinds := []func(m map[string]*yaml.Parameter, n string){
		func(m map[string]*yaml.Parameter, n string) {},
		func(m map[string]*yaml.Parameter, n string) { m[n] = nil },
		func(m map[string]*yaml.Parameter, n string) { m[n] = &yaml.Parameter{Value: "w" + n} },
		func(m map[string]*yaml.Parameter, n string) { m[n] = &yaml.Parameter{Secret: "sec_" + n} },
	}
	where := []string{"step+step", "step+service", "service+step", "step+build", "win"}
	c.Product("leaks", "environment and settings entries of two neighbouring containers", []int{len(where), 6, 6, 6, 4, 4, 6, 4}, func(k *K, ix []int) {
		a := &yaml.Container{Name: "a", Image: "i", Environment: map[string]*yaml.Variable{}, Settings: map[string]*yaml.Parameter{}}
		b := &yaml.Container{Name: "b", Image: "i", Environment: map[string]*yaml.Variable{}, Settings: map[string]*yaml.Parameter{}}
		kinds[ix[1]](a.Environment, "X")
		kinds[ix[2]](a.Environment, "y_z")
		kinds[ix[3]](b.Environment, "X")
		skinds[ix[4]](a.Settings, "m_n")
		skinds[ix[5]](a.Settings, "Ok.2")
		kinds[ix[6]](a.Environment, "plugin_m_n")
		skinds[ix[7]](b.Settings, "m_n")
		x := &cc{p: &yaml.Pipeline{Name: "p"}}
		switch ix[0] {
		case 0:
			x.p.Steps = []*yaml.Container{a, b}
		case 1:
			x.p.Steps, x.p.Services = []*yaml.Container{a}, []*yaml.Container{b}
		case 2:
			x.p.Steps, x.p.Services = []*yaml.Container{b}, []*yaml.Container{a}
		case 3:
			x.p.Steps = []*yaml.Container{a, {Name: "img", Build: &yaml.Build{Image: "i"}}, b}
		case 4:
			a.Commands = []string{"x"}
			x.p.Steps = []*yaml.Container{a, b}
			x.p.Platform.OS = "windows"
		}
		runCompile(k, x, fmt.Sprint(ix), checkVariables)
	})
	// one variable named by the environment and by a setting
	same := append(append([]func(m map[string]*yaml.Variable, n string){}, kinds...), func(m map[string]*yaml.Variable, n string) { m[n] = &yaml.Variable{Value: "wm_n"} })
	also := append(append([]func(m map[string]*yaml.Parameter, n string){}, skinds...), func(m map[string]*yaml.Parameter, n string) { m[n] = &yaml.Parameter{Value: ""} },
		func(m map[string]*yaml.Parameter, n string) { m[n] = &yaml.Parameter{Value: []interface{}{1, "a"}} }, func(m map[string]*yaml.Parameter, n string) { m[n] = &yaml.Parameter{Value: false} })
	c.Product("same", "a variable that the environment and a setting both name x another setting and variable x step, service or step with commands", []int{len(same), len(also), len(same), len(also), 3}, func(k *K, ix []int) {
		a := &yaml.Container{Name: "a", Image: "i", Environment: map[string]*yaml.Variable{}, Settings: map[string]*yaml.Parameter{}}
		same[ix[0]](a.Environment, "PLUGIN_M_N")
		also[ix[1]](a.Settings, "m_n")
		same[ix[2]](a.Environment, "PLUGIN_AA")
		also[ix[3]](a.Settings, "Aa")
		x := &cc{p: &yaml.Pipeline{Name: "p", Steps: []*yaml.Container{{Name: "t", Image: "i", Settings: map[string]*yaml.Parameter{"m_n": {Value: "t"}}, Environment: map[string]*yaml.Variable{"PLUGIN_AA": {Value: "t"}}}}}}
		switch ix[4] {
		case 1:
			x.p.Services = []*yaml.Container{a}
		case 2:
			a.Commands = []string{"x"}
			fallthrough
		default:
			x.p.Steps = append(x.p.Steps, a)
		}
		runCompile(k, x, fmt.Sprint(ix), checkVariables)
	})
	// names: every name over an alphabet that rewriting would show
	alpha := []string{"a", "B", "9", "-", "_", ".", " ", "é", "ß", "$", "/"}
	depth := 2
	if !c.Quick {
		depth = 4
	}
	c.Words("names", fmt.Sprintf("every name of <=%d letters out of %d, as environment variable and setting, literal and secret", depth, len(alpha)), len(alpha), 1, depth, func(k *K, w []int) {
		name := ""
		for _, i := range w {
			name += alpha[i]
		}
		k.In(func() string { return fmt.Sprintf("%q", name) })
		for v := 0; v < 4; v++ {
			s := &yaml.Container{Name: "s", Image: "i"}
			switch v {
			case 0:
				s.Environment = map[string]*yaml.Variable{name: {Value: "v"}, "other": {Value: "w"}}
			case 1:
				s.Environment = map[string]*yaml.Variable{name: {Secret: "v"}, "other": {Secret: name}}
			case 2:
				s.Settings = map[string]*yaml.Parameter{name: {Value: "v"}, "other": {Value: name}}
			case 3:
				s.Settings = map[string]*yaml.Parameter{name: {Secret: "v"}, "other": {Secret: name}}
			}
			x := &cc{p: &yaml.Pipeline{Name: "p", Steps: []*yaml.Container{s, {Name: "t", Image: "i"}}}}
			runCompile(k, x, fmt.Sprint(name, v), checkVariables)
		}
	})
	c.Assume("a setting wins over an environment variable of its PLUGIN_ name; variables named twice otherwise (by case, as secret and value, or with a workspace or script name) are left out: which entry wins is not documented")
	c.Assume("environment and settings of steps that build an image may or may not be passed on")
}

// ---------------------------------------------------------------------
// C17: volumes
// ---------------------------------------------------------------------

func checkVolumes(k *K, x *cc, spec *engine.Spec) {
	rs := rows(k, x.p, spec)
	builds := false
	for _, r := range rs {
		builds = builds || r.build()
	}
	// the plan
	var got, want []string
	describe := func(name string, e *engine.VolumeEmptyDir, h *engine.VolumeHostPath) string {
		s := name + ":"
		if e != nil {
			s += fmt.Sprintf(" temp(%s,%d)", e.Medium, e.SizeLimit)
		}
		if h != nil {
			s += " host(" + h.Path + ")"
		}
		return s
	}
	sockets := 0
	if spec.Docker == nil {
		k.Fail("plan", "no docker configuration")
		return
	}
	for _, v := range spec.Docker.Volumes {
		if v.HostPath != nil && v.HostPath.Path == "/var/run/docker.sock" && v.Metadata.Name == "_docker_socket" {
			sockets++
			continue
		}
		got = append(got, describe(v.Metadata.Name, v.EmptyDir, v.HostPath))
	}
	want = append(want, describe("workspace", &engine.VolumeEmptyDir{}, nil))
	if x.o.host != "" {
		want = append(want, describe("host", nil, &engine.VolumeHostPath{Path: x.o.host}))
	}
	for i, v := range x.p.Volumes {
		var e *engine.VolumeEmptyDir
		var h *engine.VolumeHostPath
		if v.EmptyDir != nil {
			e = &engine.VolumeEmptyDir{Medium: v.EmptyDir.Medium, SizeLimit: int64(v.EmptyDir.SizeLimit)}
		}
		if v.HostPath != nil {
			h = &engine.VolumeHostPath{Path: v.HostPath.Path}
		}
		w := describe(v.Name, e, h)
		if e != nil && h != nil { // both: either is fine
			if at := len(want); at < len(got) && got[at] == describe(v.Name, nil, h) {
				w = got[at]
			} else {
				w = describe(v.Name, e, nil)
			}
		}
		_ = i
		want = append(want, w)
	}
	k.eq("plan", "volumes of the plan", got, want)
	k.Agree(1)
	if builds != (sockets == 1) || sockets > 1 {
		k.Fail("socket", "the plan has %d docker socket volumes, pipeline builds images: %v", sockets, builds)
	}
	for _, r := range rs {
		var ws []string
		base, pth, full := refWorkspace(x.p)
		if x.o.host == "" {
			ws = []string{"workspace at " + base}
		} else {
			ws = []string{"host at " + full}
			if pth != "" {
				ws = append(ws, "workspace at "+base)
			}
		}
		var own, got []string
		if r.src != nil {
			for _, m := range r.src.Volumes {
				if m.Name != "_docker_socket" {
					own = append(own, m.Name+" at "+m.MountPath)
				}
			}
		}
		socket := 0
		for _, m := range r.step.Volumes {
			if m.Name == "_docker_socket" {
				socket++
				if m.Path != "/var/run/docker.sock" {
					k.Fail("socket", "%s mounts the docker socket at %s", r.at(), m.Path)
				}
				continue
			}
			got = append(got, m.Name+" at "+m.Path)
		}
		k.Agree(1)
		if (socket == 1) != r.build() || socket > 1 {
			k.Fail("socket", "%s mounts the docker socket %d times", r.at(), socket)
		}
		want := append(append([]string{}, own...), ws...)
		if r.build() && reflect.DeepEqual(got, ws) {
			want = ws
		}
		k.eq("mounts", r.at()+": mounts", got, want)
	}
}

func runC17(c *Ctx) {
	keep := func(n string) bool { return !strings.Contains(n, "when.") && !strings.HasPrefix(n, "trigger") }
	compileSpace(c, keep, 2, 3, checkVolumes)
	compileDict(c, notWhen, nil, checkVolumes)
	vols := []*yaml.Volume{
		nil,
		{Name: "a"},
		{Name: "a", EmptyDir: &yaml.VolumeEmptyDir{}},
		{Name: "b", EmptyDir: &yaml.VolumeEmptyDir{Medium: "memory"}},
		{Name: "b", EmptyDir: &yaml.VolumeEmptyDir{SizeLimit: 1 << 40}},
		{Name: "c", EmptyDir: &yaml.VolumeEmptyDir{Medium: "memory", SizeLimit: 7}},
		{Name: "c", HostPath: &yaml.VolumeHostPath{Path: "/var/run"}},
		{Name: "", HostPath: &yaml.VolumeHostPath{}},
		{Name: "host2", HostPath: &yaml.VolumeHostPath{Path: "/var/run/docker.sock"}},
	}
	mounts := []*yaml.VolumeMount{nil, {Name: "a", MountPath: "/a"}, {Name: "b", MountPath: "/a"}, {Name: "_docker_socket", MountPath: "/var/run/docker.sock"}, {Name: "_docker_socket", MountPath: "/x"}, {Name: "host2", MountPath: "/var/run/docker.sock"}, {Name: "", MountPath: ""}}
	kinds := []func(s ctr){func(s ctr) {}, func(s ctr) { s.Commands = []string{"x"} }, func(s ctr) { s.Build = &yaml.Build{Image: "x/y"} }, func(s ctr) { s.Detach = true }}
	c.Product("mounts", "two declared volumes x two mounts x kind of container x neighbour builds x workspace", []int{len(vols), len(vols), len(mounts), len(mounts), len(kinds) + 1, 2, 3}, func(k *K, ix []int) {
		x := &cc{p: &yaml.Pipeline{Name: "p"}}
		for _, i := range ix[:2] {
			if vols[i] != nil {
				x.p.Volumes = append(x.p.Volumes, vols[i])
			}
		}
		s := &yaml.Container{Name: "s", Image: "i"}
		for _, i := range ix[2:4] {
			if mounts[i] != nil {
				s.Volumes = append(s.Volumes, mounts[i])
			}
		}
		if ix[4] < len(kinds) {
			kinds[ix[4]](s)
			x.p.Steps = []*yaml.Container{s, {Name: "t", Image: "x/y"}}
		} else {
			x.p.Services = []*yaml.Container{s}
			x.p.Steps = []*yaml.Container{{Name: "t", Image: "i", Volumes: []*yaml.VolumeMount{{Name: "a", MountPath: "/t"}}}}
		}
		if ix[5] == 1 {
			x.p.Steps = append(x.p.Steps, &yaml.Container{Name: "img", Build: &yaml.Build{Image: "octo/app"}})
		}
		switch ix[6] {
		case 1:
			x.o.host = "/home/u"
		case 2:
			x.o.host = "/home/u"
			x.p.Workspace.Path = "src"
		}
		runCompile(k, x, fmt.Sprint(ix), checkVolumes)
	})
	c.Assume("the position of the docker socket among the plan's volumes and among a build step's mounts carries no meaning; a volume declared with both a medium and a host path may become either")
}

// ---------------------------------------------------------------------
// C18: workspace
// ---------------------------------------------------------------------

func refWorkspace(p pipe) (base, pth, full string) {
	base, pth = p.Workspace.Base, p.Workspace.Path
	if base == "" {
		base = "/drone/src"
	}
	full = path.Clean(base + "/" + pth)
	if p.Platform.OS == "windows" {
		bs := func(s string) string { return strings.ReplaceAll(s, "/", `\`) }
		base, pth, full = "c:"+bs(base), bs(pth), "c:"+bs(full)
	}
	return
}

func checkWorkspace(k *K, x *cc, spec *engine.Spec) {
	base, pth, full := refWorkspace(x.p)
	rs := rows(k, x.p, spec)
	for _, r := range rs {
		for n, v := range map[string]string{"DRONE_WORKSPACE_BASE": base, "DRONE_WORKSPACE_PATH": pth, "DRONE_WORKSPACE": full, "CI_WORKSPACE_BASE": base, "CI_WORKSPACE_PATH": pth, "CI_WORKSPACE": full} {
			k.Agree(1)
			if got, ok := r.step.Envs[n]; got != v || !ok {
				k.Fail("variable", "%s: %s = %q, want %q", r.at(), n, got, v)
			}
		}
		var ws []string
		for _, m := range r.step.Volumes {
			if m.Name == "workspace" || m.Name == "host" {
				ws = append(ws, m.Name+" at "+m.Path)
			}
		}
		want := []string{"workspace at " + base}
		if x.o.host != "" {
			want = []string{"host at " + full}
			if pth != "" {
				want = append(want, "workspace at "+base)
			}
		}
		sort.Strings(ws)
		// volumes of the configuration may have such a name, too
		own := append([]string{}, want...)
		if r.src != nil {
			for _, m := range r.src.Volumes {
				if m.Name == "workspace" || m.Name == "host" {
					own = append(own, m.Name+" at "+m.MountPath)
				}
			}
		}
		sort.Strings(want)
		sort.Strings(own)
		if !r.build() || !reflect.DeepEqual(ws, want) {
			want = own
		}
		k.eq("mount", r.at()+": workspace mounts", ws, want)
		got := r.step.WorkingDir
		ok := got == full
		if r.src != nil && len(r.src.Commands) == 0 && (r.service || r.src.Detach) {
			ok = got == r.src.WorkingDir || r.build() && got == ""
		}
		k.Agree(1)
		if !ok {
			k.Fail("workdir", "%s: working directory %q, workspace is %q", r.at(), got, full)
		}
	}
	hosts := 0
	for _, v := range spec.Docker.Volumes {
		if v.Metadata.Name == "host" && v.HostPath != nil && v.HostPath.Path == x.o.host {
			hosts++
		}
	}
	k.Agree(1)
	if x.o.host != "" && hosts != 1 {
		k.Fail("host", "the plan does not hold the host workspace %q", x.o.host)
	}
}

func runC18(c *Ctx) {
	keep := func(n string) bool { return !strings.Contains(n, "when.") && !strings.HasPrefix(n, "trigger") }
	compileSpace(c, keep, 2, 3, checkWorkspace)
	compileDict(c, notWhen, nil, checkWorkspace)
	bases := []string{"", "/drone", "/drone/src", "/", "/go/", "/a//b", "/a/./b/../c", "rel", "/a b", "/é"}
	paths := []string{"", "src", "src/github.com/o/r", "/abs", "../up", "../../..", ".", "a//b/", "a b", "a/./b"}
	oses := []string{"", "linux", "windows", "Windows", "darwin"}
	kinds := []func(s ctr){
		func(s ctr) {}, func(s ctr) { s.Commands = []string{"x"} }, func(s ctr) { s.Detach = true }, func(s ctr) { s.Detach, s.Commands = true, []string{"x"} },
		func(s ctr) { s.WorkingDir = "/own" }, func(s ctr) { s.WorkingDir, s.Commands = "/own", []string{"x"} }, func(s ctr) { s.WorkingDir, s.Detach = "/own", true },
		func(s ctr) { s.WorkingDir, s.Detach, s.Commands = "/own", true, []string{"x"} }, func(s ctr) { s.Build = &yaml.Build{Image: "x"} }, func(s ctr) { s.Entrypoint = []string{"e"} },
	}
	c.Product("workspaces", "base x path x os x step x service x host workspace x clone enabled", []int{len(bases), len(paths), len(oses), len(kinds), len(kinds) - 2, 2, 2}, func(k *K, ix []int) {
		s, d := &yaml.Container{Name: "s", Image: "i"}, &yaml.Container{Name: "d", Image: "i"}
		kinds[ix[3]](s)
		kinds[ix[4]](d)
		x := &cc{p: &yaml.Pipeline{Name: "p", Steps: []*yaml.Container{s, {Name: "t", Image: "i", Commands: []string{"y"}}}, Services: []*yaml.Container{d}}}
		x.p.Workspace.Base, x.p.Workspace.Path, x.p.Platform.OS = bases[ix[0]], paths[ix[1]], oses[ix[2]]
		if ix[5] == 1 {
			x.o.host = "/home/u"
		}
		x.p.Clone.Disable = ix[6] == 1
		runCompile(k, x, fmt.Sprint(ix), checkWorkspace)
	})
	c.Product("hooks", "custom workspace functions see the plan and the same three paths for every container", []int{len(bases), len(paths), 3, 2}, func(k *K, ix []int) {
		x := compileBase()
		x.p.Workspace.Base, x.p.Workspace.Path, x.p.Platform.OS = bases[ix[0]], paths[ix[1]], oses[ix[2]]
		x.p.Clone.Disable = ix[3] == 1
		base, pth, full := refWorkspace(x.p)
		k.In(func() string { return x.text() })
		k.State(fmt.Sprint(ix))
		comp := &compiler.Compiler{}
		var seen []*engine.Step
		made := 0
		comp.WorkspaceFunc = func(s *engine.Spec) { made++ }
		comp.WorkspaceMountFunc = func(s *engine.Step, b, p, f string) {
			seen = append(seen, s)
			if b != base || p != pth || f != full {
				k.Fail("hook", "mount function of %s called with %q %q %q, want %q %q %q", s.Metadata.Name, b, p, f, base, pth, full)
			}
		}
		spec := comp.Compile(x.p)
		k.Step(1)
		k.Agree(2)
		if made != 1 {
			k.Fail("hook", "workspace function called %d times", made)
		}
		if !reflect.DeepEqual(seen, spec.Steps) {
			k.Fail("hook", "mount function not called once per container: %d calls for %d steps", len(seen), len(spec.Steps))
		}
		for _, s := range spec.Steps {
			for _, m := range s.Volumes {
				if m.Name == "workspace" {
					k.Fail("hook", "%s mounts the default workspace in spite of the mount function", s.Metadata.Name)
				}
			}
		}
	})
}

// ---------------------------------------------------------------------
// C19: container settings
// ---------------------------------------------------------------------

func refCloneImage(p yaml.Platform) string {
	switch {
	case p.OS == "linux" && (p.Arch == "arm" || p.Arch == "arm64"):
		return "docker.io/drone/git:linux-" + p.Arch
	case p.OS == "windows":
		v := "1809"
		if contains([]string{"1903", "1803", "1709"}, p.Version) {
			v = p.Version
		}
		return "docker.io/drone/git:windows-" + v + "-amd64"
	}
	return "docker.io/drone/git:latest"
}

func refPull(s string) engine.PullPolicy {
	switch strings.ToLower(s) {
	case "always":
		return engine.PullAlways
	case "if-not-exists":
		return engine.PullIfNotExists
	case "never":
		return engine.PullNever
	}
	return engine.PullDefault
}

func resText(o *engine.ResourceObject) string {
	if o == nil {
		return "0/0"
	}
	return fmt.Sprintf("%d/%d", o.CPU, o.Memory)
}

func refResText(o *yaml.ResourceObject) string {
	if o == nil {
		return "0/0"
	}
	// millicores are the number of thousandths nearest to the value
	cpu, _ := strconv.ParseFloat(strconv.FormatFloat(o.CPU, 'f', 3, 64), 64)
	n, _ := strconv.ParseInt(strings.Replace(strconv.FormatFloat(cpu, 'f', 3, 64), ".", "", 1), 10, 64)
	return fmt.Sprintf("%d/%d", n, int64(o.Memory))
}

func checkSettings(k *K, x *cc, spec *engine.Spec) {
	p := x.p
	k.eq("metadata", "pipeline labels", spec.Metadata.Labels, map[string]string{"io.drone.pipeline.name": p.Name, "io.drone.pipeline.kind": p.Kind, "io.drone.pipeline.type": p.Type})
	k.eq("platform", "platform", spec.Platform, engine.Platform{OS: p.Platform.OS, Arch: p.Platform.Arch, Version: p.Platform.Version, Variant: p.Platform.Variant})
	rs := rows(k, p, spec)
	built := map[string]bool{}
	for _, r := range rs {
		if r.build() {
			built[refExpand(r.src.Build.Image)] = true
		}
	}
	for _, r := range rs {
		d := r.step.Docker
		at := r.at()
		image := func(want string) {
			if !built[want] {
				k.eq("image", at+": image", refExpand(d.Image), want)
				if !r.build() {
					k.eq("image", at+": image", d.Image, want)
				}
			}
		}
		creds := 0
		for _, f := range r.step.Files {
			if file, ok := engine.LookupFile(spec, f.Name); !ok {
				k.Fail("file", "%s mounts the unknown file %q", at, f.Name)
			} else if file.Metadata.Name == ".git-credentials" {
				creds++
				if f.Path != "/root/.git-credentials" {
					k.Fail("credentials", "%s mounts the credentials at %s", at, f.Path)
				}
				if string(file.Data) != string(x.o.creds) {
					k.Fail("credentials", "credentials file holds %q, want %q", file.Data, x.o.creds)
				}
			}
		}
		wantCreds := 0
		if r.clone() && len(x.o.creds) > 0 {
			wantCreds = 1
		}
		k.Agree(1)
		if creds != wantCreds {
			k.Fail("credentials", "%s mounts the credentials file %d times, want %d", at, creds, wantCreds)
		}
		k.eq("devices", at+": devices", len(r.step.Devices), 0)
		k.eq("streams", at+": ignored streams", [2]bool{r.step.IgnoreStdout, r.step.IgnoreStderr}, [2]bool{})
		if r.clone() {
			image(refCloneImage(p.Platform))
			k.eq("pull", "clone: pull policy", d.PullPolicy, engine.PullIfNotExists)
			want := map[string]string{}
			if p.Clone.Depth > 0 {
				want["PLUGIN_DEPTH"] = strconv.Itoa(p.Clone.Depth)
			}
			if p.Clone.SkipVerify {
				want["GIT_SSL_NO_VERIFY"], want["PLUGIN_SKIP_VERIFY"] = "true", "true"
			}
			got := map[string]string{}
			for _, n := range []string{"PLUGIN_DEPTH", "GIT_SSL_NO_VERIFY", "PLUGIN_SKIP_VERIFY"} {
				if v, ok := r.step.Envs[n]; ok {
					got[n] = v
				}
			}
			k.eq("clone", "clone: settings", got, want)
			k.eq("clone", "clone: flags", []interface{}{r.step.Detach, r.step.IgnoreErr, norm0(d.Args), norm0(d.Command), d.User, d.Network, len(d.Ports), norm0(d.DNS), norm0(d.DNSSearch), norm0(d.ExtraHosts), r.step.Resources == nil},
				[]interface{}{false, false, []string(nil), []string(nil), "", "", 0, []string(nil), []string(nil), []string(nil), true})
			continue
		}
		s := r.src
		k.eq("label", at+": label", r.step.Metadata.Labels, map[string]string{"io.drone.step.name": s.Name})
		k.eq("detach", at+": detach", r.step.Detach, s.Detach || r.service)
		k.eq("failure", at+": ignore failure", r.step.IgnoreErr, strings.ToLower(s.Failure) == "ignore")
		var lim, req string
		if s.Resources != nil {
			lim, req = refResText(s.Resources.Limits), refResText(s.Resources.Requests)
		} else {
			lim, req = "0/0", "0/0"
		}
		gl, gr := "0/0", "0/0"
		if r.step.Resources != nil {
			gl, gr = resText(r.step.Resources.Limits), resText(r.step.Resources.Requests)
		}
		k.eq("resources", at+": resource limits (millicores/bytes)", gl, lim)
		k.eq("resources", at+": resource requests (millicores/bytes)", gr, req)
		k.eq("dns", at+": dns", norm0(d.DNS), norm0(s.DNS))
		if r.build() {
			image("docker.io/drone/docker:latest")
			k.eq("build", at+": arguments", norm0(d.Args), []string{"--build"})
			k.eq("build", at+": entrypoint", norm0(d.Command), []string(nil))
			want := map[string]string{}
			if v := s.Build.CacheFrom; len(v) > 0 {
				want["DOCKER_BUILD_CACHE_FROM"] = strings.Join(v, ",")
			}
			if v := s.Build.Dockerfile; v != "" {
				want["DOCKER_BUILD_DOCKERFILE"] = v
			}
			if v := s.Build.Context; v != "" {
				want["DOCKER_BUILD_CONTEXT"] = v
			}
			if v := s.Build.Image; v != "" {
				want["DOCKER_BUILD_IMAGE"] = refExpand(v)
			}
			got := map[string]string{}
			for _, n := range []string{"DOCKER_BUILD_CACHE_FROM", "DOCKER_BUILD_DOCKERFILE", "DOCKER_BUILD_CONTEXT", "DOCKER_BUILD_IMAGE"} {
				if v, ok := r.step.Envs[n]; ok {
					got[n] = v
				}
			}
			k.eq("build", at+": build options", got, want)
			continue
		}
		image(refExpand(s.Image))
		if len(s.Commands) == 0 {
			k.eq("entrypoint", at+": entrypoint", norm0(d.Command), norm0(s.Entrypoint))
			k.eq("command", at+": command", norm0(d.Args), norm0(s.Command))
		}
		k.eq("dns", at+": dns_search", norm0(d.DNSSearch), norm0(s.DNSSearch))
		k.eq("hosts", at+": extra_hosts", norm0(d.ExtraHosts), norm0(s.ExtraHosts))
		k.eq("network", at+": network_mode", d.Network, s.Network)
		k.eq("network", at+": networks", len(d.Networks), 0)
		var gp, wp []string
		for _, o := range d.Ports {
			gp = append(gp, fmt.Sprint(o.Port, o.Host, o.Protocol))
		}
		for _, o := range s.Ports {
			wp = append(wp, fmt.Sprint(o.Port, o.Host, o.Protocol))
		}
		k.eq("ports", at+": ports", gp, wp)
		k.eq("user", at+": user", d.User, s.User)
		k.eq("pull", at+": pull policy", d.PullPolicy, refPull(s.Pull))
	}
	k.eq("auths", "registry credentials", len(spec.Docker.Auths), 0)
}

func runC19(c *Ctx) {
	compileSpace(c, nil, 2, 3, checkSettings)
	compileDict(c, notWhen, cpuClear, checkSettings)
	// images
	imgs := []string{"golang", "golang:1", "octo/app", "gcr.io/a/b", "gcr.io/a/b:2", "localhost:5000/x", "x@sha256:" + strings.Repeat("0a", 32), "Bad Image", "", "docker.io/library/x", "index.docker.io/x:1", "a/b/c/d"}
	c.Product("images", "image x position", []int{len(imgs), 3}, func(k *K, ix []int) {
		x := &cc{p: &yaml.Pipeline{Name: "p", Steps: []*yaml.Container{{Name: "a", Image: "i"}, {Name: "b", Image: "j", Commands: []string{"x"}}}, Services: []*yaml.Container{{Name: "c", Image: "k"}}}}
		[]ctr{x.p.Steps[0], x.p.Steps[1], x.p.Services[0]}[ix[1]].Image = imgs[ix[0]]
		runCompile(k, x, fmt.Sprint(ix), checkSettings)
	})
	// platforms and clone settings
	oses := []string{"", "linux", "windows", "darwin", "Linux"}
	archs := []string{"", "amd64", "arm", "arm64", "386", "ARM"}
	vers := []string{"", "1709", "1803", "1809", "1903", "1909", "2004"}
	vars := []string{"", "v6", "7"}
	c.Product("clone", "os x arch x version x variant x depth x skip_verify x credentials x disabled", []int{len(oses), len(archs), len(vers), len(vars), 3, 2, 3, 2}, func(k *K, ix []int) {
		x := &cc{p: &yaml.Pipeline{Kind: "pipeline", Name: "p", Platform: yaml.Platform{OS: oses[ix[0]], Arch: archs[ix[1]], Version: vers[ix[2]], Variant: vars[ix[3]]}, Steps: []*yaml.Container{{Name: ".git-credentials", Image: "i", Commands: []string{"cat"}}, {Name: "t", Image: "drone/git", Commands: []string{"ls"}}}}}
		x.p.Clone.Depth = []int{0, 1, 500}[ix[4]]
		x.p.Clone.SkipVerify = ix[5] == 1
		x.o.creds = [][]byte{nil, {}, []byte("https://u:p@h\n\xff")}[ix[6]]
		x.p.Clone.Disable = ix[7] == 1
		runCompile(k, x, fmt.Sprint(ix), checkSettings)
	})
	// resources: every thousandth
	n := 3000
	if !c.Quick {
		n = 100000
	}
	c.Product("cpu", "every cpu amount in thousandths and tenths of thousandths", []int{n, 2}, func(k *K, ix []int) {
		f := float64(ix[0]) / 1000
		if ix[1] == 1 {
			f = float64(ix[0]) * 0.001
		}
		x := &cc{p: &yaml.Pipeline{Name: "p", Steps: []*yaml.Container{{Name: "a", Image: "i", Resources: &yaml.Resources{Limits: &yaml.ResourceObject{CPU: f, Memory: yaml.BytesSize(ix[0])}, Requests: &yaml.ResourceObject{CPU: f}}}}}}
		spec := x.compile()
		k.In(func() string { return x.text() })
		k.State(fmt.Sprint(ix))
		k.Step(1)
		if rs := rows(k, x.p, spec); len(rs) == 2 && rs[1].step.Resources != nil {
			k.eq("resources", fmt.Sprintf("limits of cpu %v", f), resText(rs[1].step.Resources.Limits), fmt.Sprintf("%d/%d", ix[0], ix[0]))
			k.eq("resources", fmt.Sprintf("requests of cpu %v", f), resText(rs[1].step.Resources.Requests), fmt.Sprintf("%d/0", ix[0]))
		} else {
			k.Fail("resources", "no resources compiled")
		}
	})
	// short lists and option words
	words := []string{"", "always", "Always", "ALWAYS", "never", "Never", "if-not-exists", "If-Not-Exists", "missing", "if-not-exist", "always "}
	fails := []string{"", "ignore", "Ignore", "IGNORE", "ignored", "fail", "always", " ignore"}
	c.Product("words", "pull x failure x container", []int{len(words), len(fails), 3}, func(k *K, ix []int) {
		x := compileBase()
		s := []ctr{x.p.Steps[0], x.p.Steps[1], x.p.Services[0]}[ix[2]]
		s.Pull, s.Failure = words[ix[0]], fails[ix[1]]
		runCompile(k, x, fmt.Sprint(ix), checkSettings)
	})
	c.Assume("a negative amount of cpu means nothing and is left out")
	c.Assume("images that a step of the same pipeline builds are left to C22; entrypoint and command of steps with commands to C20 and C21")
}
