package main

import (
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"sort"
	"strings"

	"github.com/drone/drone-runtime/engine"
	"github.com/drone/drone-yaml/yaml"
	"github.com/drone/drone-yaml/yaml/compiler/transform"
)

func init() {
	register("C24", runC24).serial = false
	register("C25", runC25)
	register("C26", runC26)
}

// ---------------------------------------------------------------------
// C24: transforms against a reference interpreter
// ---------------------------------------------------------------------

type specFn = func(*engine.Spec)

// top is one transform: the real function value (shared by all plans it is
// applied to) and its documented effect on a model plan.
type top struct {
	name string
	fn   specFn
	ref  specFn
}

func refEnv(m map[string]string) specFn {
	return func(s *engine.Spec) {
		for _, x := range s.Steps {
			if x.Envs == nil {
				x.Envs = map[string]string{}
			}
			for k, v := range m {
				x.Envs[k] = v
			}
		}
	}
}

func refLabels(m map[string]string) specFn {
	return func(s *engine.Spec) {
		all := []map[string]string{s.Metadata.Labels}
		for _, v := range s.Docker.Volumes {
			all = append(all, v.Metadata.Labels)
		}
		for _, x := range s.Steps {
			all = append(all, x.Metadata.Labels)
		}
		for _, l := range all {
			for k, v := range m {
				l[k] = v
			}
		}
	}
}

func refLimits(mem, cpu int64) specFn {
	return func(s *engine.Spec) {
		if mem == 0 && cpu == 0 {
			return
		}
		for _, x := range s.Steps {
			r := engine.Resources{}
			if x.Resources != nil {
				r = *x.Resources
			}
			r.Limits = &engine.ResourceObject{Memory: mem, CPU: cpu}
			x.Resources = &r
		}
	}
}

func refNetrc(m, u, p string) specFn {
	if u == "" || p == "" {
		return func(*engine.Spec) {}
	}
	return refEnv(map[string]string{
		"CI_NETRC_MACHINE": m, "CI_NETRC_USERNAME": u, "CI_NETRC_PASSWORD": p,
		"DRONE_NETRC_MACHINE": m, "DRONE_NETRC_USERNAME": u, "DRONE_NETRC_PASSWORD": p})
}

func refNetworks(l []string) specFn {
	return func(s *engine.Spec) {
		for _, x := range s.Steps {
			x.Docker.Networks = append(append([]string{}, x.Docker.Networks...), l...)
		}
	}
}

func refAuths(l []engine.DockerAuth) specFn {
	return func(s *engine.Spec) {
		for i := range l {
			a := l[i]
			s.Docker.Auths = append(s.Docker.Auths, &a)
		}
	}
}

func refSecrets(m map[string]string) specFn {
	return func(s *engine.Spec) {
		for k, v := range m {
			s.Secrets = append(s.Secrets, &engine.Secret{Metadata: engine.Metadata{Name: k, Namespace: s.Metadata.Namespace, UID: "new"}, Data: v})
		}
	}
}

func refSecretFunc(known map[string]string) specFn {
	return func(s *engine.Spec) {
		want := map[string]string{}
		for _, x := range s.Steps {
			if x.RunPolicy == engine.RunNever {
				continue
			}
			for _, v := range x.Secrets {
				if data, ok := known[v.Name]; ok {
					want[v.Name] = data
				}
			}
		}
		refSecrets(want)(s)
	}
}

// refVolumes mounts host paths; pairs are host, container path.
func refVolumes(pairs ...string) specFn {
	return func(s *engine.Spec) {
		for i := 0; i < len(pairs); i += 2 {
			name := fmt.Sprintf("model-volume-%d", len(s.Docker.Volumes))
			s.Docker.Volumes = append(s.Docker.Volumes, &engine.Volume{
				Metadata: engine.Metadata{UID: "new", Name: name, Namespace: s.Metadata.Namespace, Labels: map[string]string{}},
				HostPath: &engine.VolumeHostPath{Path: pairs[i]},
			})
			for _, x := range s.Steps {
				x.Volumes = append(x.Volumes, &engine.VolumeMount{Name: name, Path: pairs[i+1]})
			}
		}
	}
}

func refFilter(disable func(name string) bool) specFn {
	return func(s *engine.Spec) {
		for _, x := range s.Steps {
			if x.Metadata.Name != "clone" && disable(x.Metadata.Name) {
				x.RunPolicy = engine.RunNever
			}
		}
	}
}

func refResume(name string) specFn {
	return func(s *engine.Spec) {
		if name == "" {
			return
		}
		for _, x := range s.Steps {
			if x.Metadata.Name == name {
				return
			}
			if x.Metadata.Name != "clone" {
				x.RunPolicy = engine.RunNever
			}
		}
	}
}

func setFrom(l []string) map[string]bool {
	m := map[string]bool{}
	for _, x := range l {
		m[x] = true
	}
	return m
}

func refInclude(l []string) specFn {
	if len(l) == 0 {
		return func(*engine.Spec) {}
	}
	m := setFrom(l)
	return refFilter(func(n string) bool { return !m[n] })
}

func refExclude(l []string) specFn {
	m := setFrom(l)
	return refFilter(func(n string) bool { return m[n] })
}

func seq(fns ...specFn) specFn {
	return func(s *engine.Spec) {
		for _, f := range fns {
			f(s)
		}
	}
}

type strMap = map[string]string

// transforms lists the alphabet: every transform with several arguments.
func transforms() []top {
	env := func(m strMap) top { return top{fmt.Sprint("env", m), transform.WithEnviron(m), refEnv(m)} }
	lab := func(m strMap) top { return top{fmt.Sprint("labels", m), transform.WithLables(m), refLabels(m)} }
	lim := func(m, c int64) top {
		return top{fmt.Sprint("limits ", m, c), transform.WithLimits(m, c), refLimits(m, c)}
	}
	net := func(l ...string) top {
		return top{fmt.Sprint("networks", l), transform.WithNetworks(l), refNetworks(l)}
	}
	rc := func(m, u, p string) top {
		return top{fmt.Sprintf("netrc %q %q %q", m, u, p), transform.WithNetrc(m, u, p), refNetrc(m, u, p)}
	}
	sec := func(m strMap) top { return top{fmt.Sprint("secrets", m), transform.WithSecrets(m), refSecrets(m)} }
	vol := func(m strMap, pairs ...string) top {
		return top{fmt.Sprint("volumes", m), transform.WithVolumes(m), refVolumes(pairs...)}
	}
	vsl := func(l []string, pairs ...string) top {
		return top{fmt.Sprint("volumeslice", l), transform.WithVolumeSlice(l), refVolumes(pairs...)}
	}
	auth := func(l ...engine.DockerAuth) []*engine.DockerAuth {
		var out []*engine.DockerAuth
		for i := range l {
			a := l[i]
			out = append(out, &a)
		}
		return out
	}
	a1 := engine.DockerAuth{Address: "docker.io", Username: "u", Password: "p"}
	a2 := engine.DockerAuth{Address: "gcr.io", Username: "v", Password: "q"}
	cached := map[string]*engine.Secret{}
	known := strMap{"pw": "s3cret\n", "tok": ""}
	for k, v := range known {
		cached[k] = &engine.Secret{Metadata: engine.Metadata{Name: k}, Data: v}
	}
	list := []top{
		env(strMap{"A": "1"}),
		env(strMap{"A": "2", "GO": "x", "DRONE_WORKSPACE": "/else"}),
		env(strMap{"A": ""}), env(nil), env(strMap{}),
		lab(strMap{"l": "1"}),
		lab(strMap{"l": "2", "io.drone.pipeline.name": "mine"}),
		lab(strMap{"l": ""}), lab(nil),
		lim(0, 0), lim(1000, 500), lim(7, 9), lim(0, 3), lim(5, 0),
		rc("h", "u", "p"), rc("h2", "u2", "p2"), rc("h", "", "p"), rc("h", "u", ""), rc("", "u", "p"),
		net(), net("n1"), net("n1", "n2"),
		{"auths", transform.WithAuths(auth(a1)), refAuths([]engine.DockerAuth{a1})},
		{"auths none", transform.WithAuths(nil), refAuths(nil)},
		{"authsfunc", transform.WithAuthsFunc(func() []*engine.DockerAuth { return auth(a2, a1) }), refAuths([]engine.DockerAuth{a2, a1})},
		{"authsfunc none", transform.WithAuthsFunc(func() []*engine.DockerAuth { return nil }), refAuths(nil)},
		sec(strMap{"pw": "x"}), sec(strMap{"pw": "y", "other": ""}), sec(nil),
		{"secretfunc", transform.WithSecretFunc(func(n string) *engine.Secret {
			if v, ok := known[n]; ok {
				return &engine.Secret{Metadata: engine.Metadata{Name: n}, Data: v}
			}
			return nil
		}), refSecretFunc(known)},
		{"secretfunc cached", transform.WithSecretFunc(func(n string) *engine.Secret { return cached[n] }), refSecretFunc(known)},
		vol(nil),
		vol(strMap{"/h": "/c"}, "/h", "/c"),
		vol(strMap{"/h": "/d", "/g": "/e"}, "/h", "/d", "/g", "/e"),
		vsl(nil),
		vsl([]string{"/h:/x", "/h:/y"}, "/h", "/x", "/h", "/y"),
		vsl([]string{"nothing", "/k:/m", "/a:/b:ro", "/k:/m", "/q:/r"}, "/k", "/m", "/q", "/r"),
		{"include one", transform.Include([]string{"one", "db"}), refInclude([]string{"one", "db"})},
		{"exclude two", transform.Exclude([]string{"two", "clone"}), refExclude([]string{"two", "clone"})},
		{"resume two", transform.ResumeAt("two"), refResume("two")},
		{"proxy", transform.WithProxy(), refEnv(refProxy(os.Getenv))},
	}
	// a list with room at its end, and transforms of the user's own that
	// change a single step: what one step has is not shared with another
	roomy := append(make([]string, 0, 8), "r1", "r2")
	own := func(name string, f func(i int, x *engine.Step)) {
		fn := func(s *engine.Spec) {
			for i, x := range s.Steps {
				f(i, x)
			}
		}
		list = append(list, top{name, fn, fn})
	}
	list = append(list, top{"networks roomy", transform.WithNetworks(roomy), refNetworks([]string{"r1", "r2"})})
	own("own networks", func(i int, x *engine.Step) {
		x.Docker.Networks = append(x.Docker.Networks, fmt.Sprint("own", i))
	})
	own("own settings", func(i int, x *engine.Step) {
		if x.Envs == nil {
			x.Envs = map[string]string{}
		}
		x.Envs["OWN"], x.Metadata.Labels["own"] = fmt.Sprint(i), fmt.Sprint(i)
		if x.Resources != nil && x.Resources.Limits != nil {
			x.Resources.Limits.CPU, x.Resources.Limits.Memory = int64(i), int64(i)
		}
		for _, v := range x.Volumes {
			v.Path += fmt.Sprint(i)
		}
		x.Volumes = append(x.Volumes, &engine.VolumeMount{Name: "own", Path: fmt.Sprint(i)})
	})
	return list
}

// refProxy is the documented effect of the proxy settings of the process.
func refProxy(get func(string) string) strMap {
	m := strMap{}
	for _, n := range []string{"no_proxy", "http_proxy", "https_proxy"} {
		v := get(strings.ToUpper(n))
		if v == "" {
			v = get(n)
		}
		if v != "" {
			m[n], m[strings.ToUpper(n)] = v, v
		}
	}
	return m
}

// basePlans compiles the plans the transforms are applied to.
func basePlans() []*engine.Spec {
	var out []*engine.Spec
	add := func(f func(x *cc)) {
		x := compileBase()
		f(x)
		out = append(out, x.compile())
	}
	add(func(x *cc) {
		x.p.Steps[0].Environment = map[string]*yaml.Variable{"A": {Value: "0"}, "PW": {Secret: "pw"}, "HTTP_PROXY": {Value: "own"}}
		x.p.Steps[1].Environment = map[string]*yaml.Variable{"T": {Secret: "tok"}, "U": {Secret: "unknown"}, "P2": {Secret: "pw"}}
		x.p.Steps[0].Volumes = []*yaml.VolumeMount{{Name: "vol", MountPath: "/v"}}
		x.p.Volumes = append(x.p.Volumes, &yaml.Volume{Name: "h", HostPath: &yaml.VolumeHostPath{Path: "/h"}})
		x.o.creds = []byte("c")
	})
	add(func(x *cc) {
		x.p.Clone.Disable = true
		x.p.Steps = x.p.Steps[:2]
		x.p.Steps[0].Resources = &yaml.Resources{Limits: &yaml.ResourceObject{CPU: 2, Memory: 1 << 20}, Requests: &yaml.ResourceObject{CPU: 1, Memory: 1 << 10}}
		x.p.Steps[1].Resources = &yaml.Resources{Requests: &yaml.ResourceObject{Memory: 3}}
		x.p.Steps[1].When.Status.Include = []string{"failure"}
		x.p.Services[0].Network = "host"
	})
	add(func(x *cc) {
		x.p.Platform.OS = "windows"
		x.p.Services = nil
		x.p.Steps[1].DependsOn = []string{"one"}
		x.p.Steps[1].When.Status.Include = []string{"unknown"}
		x.p.Steps[1].Environment = map[string]*yaml.Variable{"P": {Secret: "pw"}}
	})
	add(func(x *cc) { x.o.host = "/home/u"; x.p.Steps[1].Name = "other" })
	add(func(x *cc) { x.p = &yaml.Pipeline{Name: "nothing", Clone: yaml.Clone{Disable: true}} })
	// a plan made by hand: steps without environment, limits or files
	add(func(x *cc) {})
	for _, x := range out[len(out)-1].Steps {
		x.Envs, x.Resources, x.Files, x.Secrets, x.Volumes, x.DependsOn = nil, nil, nil, nil, nil, nil
	}
	return out
}

// canonOver renders a plan derived from base: generated identifiers are
// masked, lists without meaningful order sorted beyond the base's entries.
func canonOver(k *K, s, base *engine.Spec, real bool) string {
	s = clone(s)
	ids := map[string]bool{}
	fresh := func(id *string) {
		if real {
			if len(*id) != 32 || !all(*id, isLowerAlnum) || ids[*id] {
				k.Fail("identifier", "generated identifier %q is not a fresh one", *id)
			}
			ids[*id] = true
		}
		*id = "<new>"
	}
	if n := len(base.Docker.Volumes); len(s.Docker.Volumes) > n {
		for _, v := range s.Docker.Volumes[n:] {
			name := v.Metadata.Name
			fresh(&v.Metadata.UID)
			at := map[string]bool{}
			for _, x := range s.Steps {
				for _, m := range x.Volumes {
					if m.Name == name {
						at[m.Path] = true
					}
				}
			}
			host := ""
			if v.HostPath != nil {
				host = v.HostPath.Path
			}
			label := fmt.Sprint("volume ", host, " at ", sortedKeys(at))
			for _, x := range s.Steps {
				for _, m := range x.Volumes {
					if m.Name == name {
						m.Name = label
					}
				}
			}
			fresh(&v.Metadata.Name)
			v.Metadata.Name = label
		}
		added := s.Docker.Volumes[n:]
		sort.SliceStable(added, func(i, j int) bool { return js(added[i]) < js(added[j]) })
	}
	for i, x := range s.Steps {
		if i < len(base.Steps) && len(x.Volumes) > len(base.Steps[i].Volumes) {
			m := x.Volumes[len(base.Steps[i].Volumes):]
			sort.SliceStable(m, func(i, j int) bool { return m[i].Name+"|"+m[i].Path < m[j].Name+"|"+m[j].Path })
		}
	}
	if n := len(base.Secrets); len(s.Secrets) > n {
		added := s.Secrets[n:]
		for _, v := range added {
			if v == nil {
				k.Fail("secret", "a nil secret is in the plan")
				return ""
			}
			fresh(&v.Metadata.UID)
		}
		sort.SliceStable(added, func(i, j int) bool { return js(added[i]) < js(added[j]) })
	}
	b, err := json.Marshal(s)
	if err != nil {
		k.Fail("json", "%v", err)
	}
	return string(b)
}

func runC24(c *Ctx) {
	for _, n := range []string{"no_proxy", "http_proxy", "https_proxy"} {
		os.Unsetenv(n)
		os.Unsetenv(strings.ToUpper(n))
	}
	os.Setenv("NO_PROXY", "localhost")
	os.Setenv("http_proxy", "proxy:1")
	ops := transforms()
	bases := basePlans()
	run := func(k *K, base, second *engine.Spec, w []int, combine bool) {
		var fns, refs []specFn
		var label []string
		for _, i := range w {
			fns, refs = append(fns, ops[i].fn), append(refs, ops[i].ref)
			label = append(label, ops[i].name)
		}
		k.In(func() string { return strings.Join(label, "; ") + "\non " + js(base) })
		real, model := clone(base), clone(base)
		if combine {
			transform.Combine(fns...)(real)
		} else {
			seq(fns...)(real)
		}
		seq(refs...)(model)
		k.Step(len(w))
		k.Agree(1)
		got, want := canonOver(k, real, base, true), canonOver(k, model, base, false)
		k.State(want)
		if got != want {
			k.Fail("effect", "%s: the plan differs from the documented effect:\nwant/got\n%s", strings.Join(label, "; "), textDiff(want, got))
			return
		}
		if second == nil {
			return
		}
		// the same function values on another plan
		before := js(real)
		other, model2 := clone(second), clone(second)
		seq(fns...)(other)
		seq(refs...)(model2)
		k.Step(len(w))
		k.Agree(2)
		if got, want := canonOver(k, other, second, true), canonOver(k, model2, second, false); got != want {
			k.Fail("reuse", "%s: the second plan differs from the documented effect:\nwant/got\n%s", strings.Join(label, "; "), textDiff(want, got))
		}
		if got := js(real); got != before {
			k.Fail("shared", "%s: transforming a second plan changes the first:\n%s", strings.Join(label, "; "), textDiff(before, got))
		}
	}
	pair := func(i int) (*engine.Spec, *engine.Spec) { return bases[i], bases[(i+1)%len(bases)] }
	c.Product("pairs", fmt.Sprintf("all sequences of two of %d transforms on %d plans, applied to a second plan afterwards, and combined", len(ops), len(bases)), []int{len(bases), 2, len(ops), len(ops)}, func(k *K, ix []int) {
		a, b := pair(ix[0])
		run(k, a, b, ix[2:], ix[1] == 1)
	})
	n := len(bases)
	if c.Quick {
		n = 1
	}
	c.Product("triples", fmt.Sprintf("all sequences of three of %d transforms on %d plans", len(ops), n), []int{n, len(ops), len(ops), len(ops)}, func(k *K, ix []int) {
		a, b := pair(ix[0])
		if c.Quick {
			b = nil
		}
		run(k, a, b, ix[1:], false)
	})
	if !c.Quick {
		c.Product("quadruples", "all sequences of four transforms on one plan", []int{len(ops), len(ops), len(ops), len(ops)}, func(k *K, ix []int) {
			run(k, bases[0], nil, ix, false)
		})
	}
	c.Words("combine", "Combine of 0..2 transforms, nested", 6, 0, 2, func(k *K, w []int) {
		run(k, bases[0], bases[1], w, true)
		x := clone(bases[0])
		var fns []specFn
		var refs []specFn
		for _, i := range w {
			fns, refs = append(fns, transform.Combine(ops[i*5].fn)), append(refs, ops[i*5].ref)
		}
		transform.Combine(transform.Combine(fns...), transform.Combine())(x)
		m := clone(bases[0])
		seq(refs...)(m)
		k.Step(1)
		k.Agree(1)
		if got, want := canonOver(k, x, bases[0], true), canonOver(k, m, bases[0], false); got != want {
			k.Fail("combine", "nested: %s", textDiff(want, got))
		}
	})
	transformDict(c)
	limitPartial := []int64{0, 3, 1 << 40}
	c.Product("limits", "memory and cpu limits, each absent or present, twice", []int{len(bases), 3, 3, 3, 3}, func(k *K, ix []int) {
		b := bases[ix[0]]
		k.In(func() string { return fmt.Sprint("limits ", ix[1:]) })
		k.State(fmt.Sprint(ix))
		x, m := clone(b), clone(b)
		for i := 1; i < 5; i += 2 {
			mem, cpu := limitPartial[ix[i]], limitPartial[ix[i+1]]
			transform.WithLimits(mem, cpu)(x)
			k.Step(1)
			for j, s := range m.Steps {
				r := x.Steps[j].Resources
				if mem == 0 && cpu == 0 {
					continue
				}
				if r == nil || r.Limits == nil || mem != 0 && r.Limits.Memory != mem || cpu != 0 && r.Limits.CPU != cpu {
					k.Fail("limits", "limits %d, %d give %s", mem, cpu, js(r))
					return
				}
				old := engine.ResourceObject{}
				if s.Resources != nil && s.Resources.Limits != nil {
					old = *s.Resources.Limits
				}
				// a limit that is not given is left alone or lifted
				if mem == 0 && r.Limits.Memory != 0 && r.Limits.Memory != old.Memory || cpu == 0 && r.Limits.CPU != 0 && r.Limits.CPU != old.CPU {
					k.Fail("limits", "limits %d, %d change %s to %s", mem, cpu, js(old), js(r.Limits))
				}
				refLimits(r.Limits.Memory, r.Limits.CPU)(&engine.Spec{Steps: []*engine.Step{s}})
			}
		}
		k.Agree(1)
		if got, want := js(x), js(m); got != want {
			k.Fail("limits", "something else changed: %s", textDiff(want, got))
		}
	})
	// every setting of the proxy environment; the process environment is
	// global, so this space is explored by one worker.
	w := c.Workers
	c.Workers = 1
	vars := []string{"no_proxy", "NO_PROXY", "http_proxy", "HTTP_PROXY", "https_proxy", "HTTPS_PROXY"}
	c.Product("proxy", "every proxy variable in both spellings unset, empty or set", []int{3, 3, 3, 3, 3, 3}, func(k *K, ix []int) {
		k.In(func() string { return fmt.Sprint(vars, ix) })
		k.State(fmt.Sprint("proxy", ix))
		env := strMap{}
		for i, v := range vars {
			os.Unsetenv(v)
			if ix[i] == 1 {
				os.Setenv(v, "")
			} else if ix[i] == 2 {
				env[v] = "value of " + v
				os.Setenv(v, env[v])
			}
		}
		x, m := clone(bases[0]), clone(bases[0])
		transform.WithProxy()(x)
		refEnv(refProxy(func(n string) string { return env[n] }))(m)
		k.Step(1)
		k.Agree(1)
		if got, want := js(x), js(m); got != want {
			k.Fail("proxy", "want/got %s", textDiff(want, got))
		}
	})
	c.Workers = w
	c.Assume("plans are compiled plans: every step has a docker section and variable and label maps")
	c.Assume("if only one of the memory and cpu limits is given, the other one may be left alone or lifted; several host paths at one container path are left out")
}

// ---------------------------------------------------------------------
// C25: filters
// ---------------------------------------------------------------------

type filterOp struct {
	name string
	fn   specFn
	ref  specFn
}

func filterOps(names []string, resume []string) []filterOp {
	var out []filterOp
	for mask := 0; mask < 1<<len(names); mask++ {
		l := subset(mask, names)
		out = append(out, filterOp{fmt.Sprintf("include %q", l), transform.Include(l), refInclude(l)})
		out = append(out, filterOp{fmt.Sprintf("exclude %q", l), transform.Exclude(l), refExclude(l)})
	}
	out = append(out, filterOp{"include nil", transform.Include(nil), refInclude(nil)}, filterOp{"exclude nil", transform.Exclude(nil), refExclude(nil)},
		filterOp{"include a,a", transform.Include([]string{"a", "a"}), refInclude([]string{"a"})})
	for _, r := range resume {
		out = append(out, filterOp{fmt.Sprintf("resume at %q", r), transform.ResumeAt(r), refResume(r)})
	}
	return out
}

var policies = []engine.RunPolicy{engine.RunOnSuccess, engine.RunOnFailure, engine.RunAlways, engine.RunNever}

// filterPlan builds a plan with n steps a, b, ... with the given policies
// and the clone step at position at (n+1: none).
func filterPlan(pol []int, at int) *engine.Spec {
	s := &engine.Spec{Docker: &engine.DockerConfig{}}
	add := func(name string, p engine.RunPolicy) {
		s.Steps = append(s.Steps, &engine.Step{Metadata: engine.Metadata{Name: name, UID: "uid " + name, Labels: strMap{"a": name}}, RunPolicy: p,
			Docker: &engine.DockerStep{Image: name}, Envs: strMap{"A": name}, DependsOn: []string{"a"}, Detach: name == "b", IgnoreErr: name == "c",
			Secrets: []*engine.SecretVar{{Name: "s", Env: "S"}}})
	}
	for i, p := range pol {
		if i == at {
			add("clone", engine.RunOnSuccess)
		}
		add(string(rune('a'+i)), policies[p])
	}
	if at == len(pol) {
		add("clone", engine.RunAlways)
	}
	return s
}

func runC25(c *Ctx) {
	check := func(k *K, s *engine.Spec, ops ...filterOp) {
		var label []string
		for _, o := range ops {
			label = append(label, o.name)
		}
		k.In(func() string { return strings.Join(label, "; ") + " on " + js(s) })
		real, model := clone(s), clone(s)
		for _, o := range ops {
			o.fn(real)
			o.ref(model)
		}
		k.Step(len(ops))
		k.Agree(len(s.Steps) + 1)
		if !reflect.DeepEqual(real, model) {
			k.Fail("filter", "%s: want/got\n%s", strings.Join(label, "; "), textDiff(js(model), js(real)))
		}
		for i, x := range s.Steps {
			if i < len(real.Steps) && x.RunPolicy == engine.RunNever && real.Steps[i].RunPolicy != engine.RunNever {
				k.Fail("enabled", "%s enables %s, which was not going to run", strings.Join(label, "; "), x.Metadata.Name)
			}
		}
	}
	// every policy assignment, one filter
	stepNames := []string{"a", "b", "c", "d"}
	for n := 0; n <= 4; n++ {
		n := n
		at := append(append([]string{}, stepNames[:n]...), "clone", "unknown")
		dims := []int{n + 2}
		for i := 0; i < n; i++ {
			dims = append(dims, 4)
		}
		for _, withClone := range []bool{true, false} {
			withClone := withClone
			resume := append([]string{""}, stepNames[:n]...)
			if withClone {
				resume = append(resume, "clone")
			}
			ops := filterOps(at, resume)
			d := append(append([]int{}, dims...), len(ops))
			d[0] = 1
			if withClone {
				d[0] = n + 1
			}
			if c.Quick && n == 4 {
				d[0] = 1
			}
			c.Product(fmt.Sprintf("single-%d-%v", n, withClone), fmt.Sprintf("every filter on every plan with %d steps, every run policy, clone at %d positions", n, d[0]), d, func(k *K, ix []int) {
				pos := ix[0]
				if !withClone {
					pos = n + 1
				}
				s := filterPlan(ix[1:len(ix)-1], pos)
				k.State(js(s) + ops[ix[len(ix)-1]].name)
				check(k, s, ops[ix[len(ix)-1]])
			})
		}
	}
	// histories
	ops := filterOps([]string{"a", "b", "c", "clone"}, []string{"", "a", "b", "c", "clone"})
	pols := [][]int{{0, 0, 0}, {0, 1, 2}, {2, 3, 1}, {3, 0, 3}, {1, 2, 0}, {3, 3, 3}}
	c.Product("pairs", "all pairs of filters on plans with three steps", []int{len(pols), 4, len(ops), len(ops)}, func(k *K, ix []int) {
		s := filterPlan(pols[ix[0]], ix[1])
		k.State(fmt.Sprint(ix))
		check(k, s, ops[ix[2]], ops[ix[3]])
	})
	// names that differ only a little are different names
	tn := trickyNames
	kinds := []func(n string) filterOp{
		func(n string) filterOp {
			return filterOp{fmt.Sprintf("include %q", n), transform.Include([]string{n}), refInclude([]string{n})}
		},
		func(n string) filterOp {
			return filterOp{fmt.Sprintf("exclude %q", n), transform.Exclude([]string{n}), refExclude([]string{n})}
		},
		func(n string) filterOp {
			return filterOp{fmt.Sprintf("resume at %q", n), transform.ResumeAt(n), refResume(n)}
		},
	}
	c.Product("names", "every three of the tricky names: two steps and a filter by name", []int{len(tn), len(tn), len(tn), len(kinds)}, func(k *K, ix []int) {
		x, y, z := tn[ix[0]], tn[ix[1]], tn[ix[2]]
		if ix[3] == 2 && z != x && z != y && z != "clone" {
			return // no resume point
		}
		s := filterPlan([]int{0, 2, 0}, 0)
		s.Steps[1].Metadata.Name, s.Steps[2].Metadata.Name = x, y
		k.State(fmt.Sprint("n", ix))
		check(k, s, kinds[ix[3]](z))
	})
	m := ops
	np := 2
	if c.Quick {
		m = filterOps([]string{"a", "b", "clone"}, []string{"", "a", "b", "c", "clone"})
		np = 1
	}
	c.Product("triples", fmt.Sprintf("all sequences of three of %d filters", len(m)), []int{np, 2, len(m), len(m), len(m)}, func(k *K, ix []int) {
		s := filterPlan(pols[ix[0]+1], ix[1])
		k.State(fmt.Sprint(ix))
		check(k, s, m[ix[2]], m[ix[3]], m[ix[4]])
	})
	// filters on compiled plans, reused for several plans
	bases := basePlans()
	names := []string{"one", "two", "img", "db", "clone"}
	cops := filterOps(names, append([]string{""}, "two"))
	c.Product("compiled", "every filter on compiled plans, the same filter value on each", []int{len(cops)}, func(k *K, ix []int) {
		for i, b := range bases {
			k.State(fmt.Sprint(ix, i))
			check(k, b, cops[ix[0]])
		}
	})
	filterDict(c, check)
	c.Assume("resuming at a name the plan does not contain is left out: the property names no resume point then")
}

// ---------------------------------------------------------------------
// C26: secrets
// ---------------------------------------------------------------------

func runC26(c *Ctx) {
	// names that are equal up to letter case and white space are different
	names := []string{"s1", "S1", "s 1"}
	// secret lists of a step: variables naming secrets, with repetition
	lists := [][]string{nil, {"s1"}, {"S1"}, {"s1", "S1"}, {"S1", "s1"}, {"s1", "s1"}, {"s 1", "s1"}, {"s 1"}}
	data := strMap{"s1": "one\nline", "S1": "", "s 1": "\xff${s1}"}
	check := func(k *K, s *engine.Spec, fl []filterOp, known int, provider int) {
		label := ""
		for _, f := range fl {
			label += f.name + "; "
		}
		k.In(func() string {
			return fmt.Sprintf("%sthen secrets with provider %d knowing %v on %s", label, provider, subset(known, names), js(s))
		})
		real, model := clone(s), clone(s)
		for _, f := range fl {
			f.fn(real)
			f.ref(model)
		}
		have := strMap{}
		for _, n := range subset(known, names) {
			have[n] = data[n]
		}
		want := map[string]bool{}
		for _, x := range model.Steps {
			if x.RunPolicy != engine.RunNever {
				for _, v := range x.Secrets {
					want[v.Name] = true
				}
			}
		}
		asked := map[string]int{}
		cache := map[string]*engine.Secret{}
		fn := transform.WithSecretFunc(func(n string) *engine.Secret {
			asked[n]++
			if v, ok := have[n]; ok {
				sec := &engine.Secret{Metadata: engine.Metadata{Name: n, Labels: strMap{"x": "y"}}, Data: v}
				if provider == 1 {
					if cache[n] == nil {
						cache[n] = sec
					}
					return cache[n]
				}
				return sec
			}
			return nil
		})
		fn(real)
		k.Step(1)
		k.Agree(len(names) + 1)
		for n, m := range asked {
			if m != 1 || !want[n] {
				k.Fail("asked", "%sthe provider is asked %d times for %q; steps that can run reference %q", label, m, n, sortedKeys(want))
			}
		}
		for n := range want {
			if asked[n] != 1 {
				k.Fail("asked", "%sthe provider is asked %d times for %q, which a step that can run references", label, asked[n], n)
			}
		}
		refSecretFunc(have)(model)
		for _, x := range model.Secrets[len(s.Secrets):] {
			x.Metadata.Labels = strMap{"x": "y"}
		}
		got, exp := canonOver(k, real, s, true), canonOver(k, model, s, false)
		if got != exp {
			k.Fail("secrets", "%swant/got\n%s", label, textDiff(exp, got))
			return
		}
		// a second plan, resolved by the same function
		before := js(real)
		s2 := clone(s)
		s2.Metadata.Namespace, s2.Metadata.UID = "second", "second"
		m2 := clone(s2)
		fn(s2)
		refSecretFunc(have)(m2)
		for _, x := range m2.Secrets[len(s.Secrets):] {
			x.Metadata.Labels = strMap{"x": "y"}
		}
		k.Step(1)
		k.Agree(2)
		if got, exp := canonOver(k, s2, s, true), canonOver(k, m2, s, false); got != exp {
			k.Fail("second", "%sthe second plan: want/got\n%s", label, textDiff(exp, got))
		}
		if got := js(real); got != before {
			k.Fail("shared", "%sresolving the secrets of a second plan changes the first:\n%s", label, textDiff(before, got))
		}
	}
	plan := func(pol, sec []int, clonePos int) *engine.Spec {
		s := filterPlan(pol, clonePos)
		s.Metadata = engine.Metadata{UID: "ns", Name: "ns", Namespace: "ns"}
		s.Secrets = []*engine.Secret{{Metadata: engine.Metadata{Name: "earlier", Namespace: "ns", UID: "u"}, Data: "d"}}
		i := 0
		for _, x := range s.Steps {
			x.Secrets = nil
			if x.Metadata.Name == "clone" {
				continue
			}
			for j, n := range lists[sec[i]] {
				x.Secrets = append(x.Secrets, &engine.SecretVar{Name: n, Env: fmt.Sprintf("V%d", j)})
			}
			i++
		}
		return s
	}
	// plans
	for n := 0; n <= 3; n++ {
		n := n
		dims := []int{8, 2}
		for i := 0; i < n; i++ {
			dims = append(dims, 4, len(lists))
		}
		np := 4
		if n == 3 && c.Quick {
			np = 2 // on success, never
			dims[0], dims[1] = 2, 1
			for i := range lists[:3] {
				_ = i
			}
			dims[2], dims[4], dims[6] = np, np, np
		}
		c.Product(fmt.Sprintf("plans-%d", n), fmt.Sprintf("every plan of %d steps over run policies and %d secret lists, providers knowing every subset", n, len(lists)), dims, func(k *K, ix []int) {
			known, prov := ix[0], ix[1]
			var pol, sec []int
			for i := 2; i < len(ix); i += 2 {
				p := ix[i]
				if dims[i] == 2 {
					p = []int{0, 3}[p]
				}
				pol, sec = append(pol, p), append(sec, ix[i+1])
			}
			if len(dims) > 2 && dims[0] == 2 {
				known = []int{7, 2}[known]
				prov = ix[2+1] % 2
			}
			k.State(fmt.Sprint(known, prov, pol, sec))
			check(k, plan(pol, sec, 0), nil, known, prov)
		})
	}
	// histories of filters before resolution
	ops := filterOps([]string{"a", "b", "c"}, []string{"", "a", "b", "c"})
	secs := [][]int{{1, 2, 3}, {1, 1, 2}, {3, 0, 7}, {6, 5, 4}}
	pols := [][]int{{0, 0, 0}, {2, 3, 1}, {3, 1, 0}}
	c.Product("filters", "all sequences of up to two filters before the secrets are resolved", []int{len(secs), len(pols), 2, len(ops), len(ops)}, func(k *K, ix []int) {
		k.State(fmt.Sprint(ix))
		check(k, plan(pols[ix[1]], secs[ix[0]], 0), []filterOp{ops[ix[3]], ops[ix[4]]}, []int{7, 5}[ix[2]], ix[2])
	})
	// skip conditions decide before resolution as well
	c.Product("conditions", "compiled plans whose steps are skipped by their conditions", []int{3, 3, 3, 8}, func(k *K, ix []int) {
		x := compileBase()
		x.p.Steps = nil
		for i := 0; i < 3; i++ {
			st := &yaml.Container{Name: string(rune('a' + i)), Image: "i", Environment: map[string]*yaml.Variable{"X": {Secret: names[i]}, "Y": {Secret: names[(i+1)%3]}}}
			switch ix[i] {
			case 1:
				st.When.Branch.Include = []string{"other"}
			case 2:
				st.When.Status.Exclude = []string{"success"}
			}
			x.p.Steps = append(x.p.Steps, st)
		}
		d := optDims()[1]
		d.Opts[0].Apply(x)
		s := x.compile()
		k.State(fmt.Sprint(ix))
		for i, r := range s.Steps[2:] {
			k.Agree(1)
			if (r.RunPolicy == engine.RunNever) != (ix[i] != 0) {
				k.Fail("policy", "step %d has policy %v", i, r.RunPolicy)
			}
		}
		check(k, s, nil, ix[3], 0)
	})
	c.Assume("the provider returns the same value for the same name")
}
