package main

import (
	"fmt"
	"strings"

	"github.com/drone/drone-runtime/engine"
	"github.com/drone/drone-yaml/yaml"
	"github.com/drone/drone-yaml/yaml/compiler/transform"
)

// Dictionary spaces of the checks whose cases are not configurations alone:
// transforms, image references, conditions, and foreign configurations.

// ---------------------------------------------------------------------
// Transforms
// ---------------------------------------------------------------------

type transformT struct {
	Env, Labels             strMap
	Mem, CPU                int64
	Machine, User, Password string
	Networks                []string
	Auths                   []engine.DockerAuth
	Secrets                 strMap
	Known                   strMap
	Hosts                   strMap
	Pairs                   []struct{ Host, Path string }
	Plan                    *engine.Spec
}

func transformBase() *transformT {
	x := compileBase()
	x.p.Steps[0].Environment = map[string]*yaml.Variable{"A": {Value: "0"}, "PW": {Secret: "pw"}}
	x.p.Steps[1].Environment = map[string]*yaml.Variable{"T": {Secret: "tok"}}
	x.p.Steps[0].Resources = &yaml.Resources{Limits: &yaml.ResourceObject{CPU: 2, Memory: 1 << 20}, Requests: &yaml.ResourceObject{CPU: 1, Memory: 1 << 10}}
	x.p.Steps[0].Volumes = []*yaml.VolumeMount{{Name: "vol", MountPath: "/v"}}
	x.p.Volumes = append(x.p.Volumes, &yaml.Volume{Name: "h", HostPath: &yaml.VolumeHostPath{Path: "/h"}})
	return &transformT{
		Env: strMap{"ENV_a": "Value 1", "B": "2"}, Labels: strMap{"lab": "Value", "l2": "v"}, Mem: 1 << 20, CPU: 500,
		Machine: "git.Example.com", User: "Octo", Password: "Pass",
		Networks: []string{"net1", "Net2"},
		Auths:    []engine.DockerAuth{{Address: "gcr.io", Username: "U", Password: "P"}, {Address: "docker.io", Username: "u2", Password: "p2"}},
		Secrets:  strMap{"plain": "Data", "Other": "d2"},
		Known:    strMap{"pw": "Secret data", "tok": "t"},
		Hosts:    strMap{"/host/A": "/mnt/A"},
		Pairs:    []struct{ Host, Path string }{{"/h1", "/p1"}, {"/h2", "/P2"}},
		Plan:     x.compile(),
	}
}

func transformDict(c *Ctx) {
	skip := func(_ int, p string) bool {
		// the plan keeps its identity, and file contents are bytes
		return strings.HasPrefix(p, ".Plan.Metadata.") && !strings.Contains(p, "Labels") || strings.HasSuffix(p, ".Data") && strings.Contains(p, ".Files")
	}
	base := transformBase()
	dictSpacesFor(c, []func() *transformT{func() *transformT { return clone(base) }}, func(x *transformT) interface{} { return x }, skip, plainWords(c.Quick), func(k *K, x *transformT, label string) {
		if x.Mem < 0 || x.CPU < 0 || (x.Mem == 0) != (x.CPU == 0) {
			return
		}
		k.In(func() string { return label })
		k.State(label)
		var slice, pairs, hosts []string
		seen := map[string]bool{}
		for i, v := range x.Pairs {
			if v.Path == "" {
				v.Path = fmt.Sprint("/p", i) // a list that grew
			}
			s := v.Host + ":" + v.Path
			slice = append(slice, s)
			if strings.Count(s, ":") == 1 && !seen[s] {
				seen[s] = true
				pairs = append(pairs, v.Host, v.Path)
			}
		}
		paths := map[string]bool{}
		for _, h := range sortedKeys(x.Hosts) {
			if paths[x.Hosts[h]] {
				return
			}
			paths[x.Hosts[h]] = true
			hosts = append(hosts, h, x.Hosts[h])
		}
		var auths []*engine.DockerAuth
		for i := range x.Auths {
			a := x.Auths[i]
			auths = append(auths, &a)
		}
		asked := transform.WithSecretFunc(func(n string) *engine.Secret {
			if v, ok := x.Known[n]; ok {
				return &engine.Secret{Metadata: engine.Metadata{Name: n}, Data: v}
			}
			return nil
		})
		real, model := clone(x.Plan), clone(x.Plan)
		transform.Combine(transform.WithEnviron(x.Env), transform.WithLables(x.Labels), transform.WithLimits(x.Mem, x.CPU),
			transform.WithNetrc(x.Machine, x.User, x.Password), transform.WithNetworks(x.Networks), transform.WithAuths(auths),
			transform.WithSecrets(x.Secrets), asked, transform.WithVolumes(x.Hosts), transform.WithVolumeSlice(slice))(real)
		seq(refEnv(x.Env), refLabels(x.Labels), refLimits(x.Mem, x.CPU),
			refNetrc(x.Machine, x.User, x.Password), refNetworks(x.Networks), refAuths(x.Auths),
			refSecrets(x.Secrets), refSecretFunc(x.Known), refVolumes(hosts...), refVolumes(pairs...))(model)
		k.Step(10)
		k.Agree(1)
		if got, want := canonOver(k, real, x.Plan, true), canonOver(k, model, x.Plan, false); got != want {
			k.Fail("effect", "%s: the plan differs from the documented effect:\nwant/got\n%s", label, textDiff(want, got))
		}
	})
}

type filterT struct {
	Names []string
	From  string
	Plan  *engine.Spec
}

// filterDict filters plans whose texts are words, by names that are words.
func filterDict(c *Ctx, check func(k *K, s *engine.Spec, ops ...filterOp)) {
	base := &filterT{Names: []string{"one", "Db", "none"}, From: "two", Plan: transformBase().Plan}
	skip := func(_ int, p string) bool {
		return strings.HasPrefix(p, ".Plan.Metadata.") || strings.HasPrefix(p, ".Plan.Files")
	}
	dictSpacesFor(c, []func() *filterT{func() *filterT { return clone(base) }}, func(x *filterT) interface{} { return x }, skip, dictWords(c.Quick), func(k *K, x *filterT, label string) {
		k.State(label)
		check(k, x.Plan, filterOp{"include", transform.Include(x.Names), refInclude(x.Names)})
		check(k, x.Plan, filterOp{"exclude", transform.Exclude(x.Names), refExclude(x.Names)})
		for _, s := range x.Plan.Steps {
			if s.Metadata.Name == x.From || x.From == "" {
				check(k, x.Plan, filterOp{"resume at " + x.From, transform.ResumeAt(x.From), refResume(x.From)})
				break
			}
		}
	})
	// a step and a filter by its name
	ws := dictWords(c.Quick)
	c.Range("words", "a plan with every one of the words as the name of a step, filtered by that name", len(ws), func(k *K, i int) {
		w := ws[i]
		k.State("w" + w)
		for at := 1; at < 4; at++ {
			s := filterPlan([]int{0, 2, 1}, 0)
			s.Steps[at].Metadata.Name = w
			check(k, s, filterOp{"include " + w, transform.Include([]string{w}), refInclude([]string{w})})
			check(k, s, filterOp{"exclude " + w, transform.Exclude([]string{w}), refExclude([]string{w})})
			check(k, s, filterOp{"include a, " + w, transform.Include([]string{"a", w}), refInclude([]string{"a", w})})
			check(k, s, filterOp{"exclude a, " + w, transform.Exclude([]string{"a", w}), refExclude([]string{"a", w})})
			check(k, s, filterOp{"resume at " + w, transform.ResumeAt(w), refResume(w)})
			if w != "clone" {
				check(k, s, filterOp{"exclude c", transform.Exclude([]string{"c"}), refExclude([]string{"c"})},
					filterOp{"resume at " + w, transform.ResumeAt(w), refResume(w)}, filterOp{"include b", transform.Include([]string{"b"}), refInclude([]string{"b"})})
			}
		}
	})
	top := 130
	if !c.Quick {
		top = 1030
	}
	c.Range("many", "plans with 0..n steps, filtered by all, all but the first, the last and every other name", top, func(k *K, n int) {
		s := filterPlan(nil, 0)
		s.Steps = s.Steps[:0]
		var all, even []string
		for i := 0; i < n; i++ {
			nm := fmt.Sprint("s", i)
			all = append(all, nm)
			if i%2 == 0 {
				even = append(even, nm)
			}
			s.Steps = append(s.Steps, &engine.Step{Metadata: engine.Metadata{Name: nm}, RunPolicy: policies[i%4], Docker: &engine.DockerStep{}})
		}
		k.State(fmt.Sprint("many", n))
		lists := [][]string{all, even}
		if n > 0 {
			lists = append(lists, all[1:], all[n-1:])
		}
		for _, l := range lists {
			check(k, s, filterOp{"include", transform.Include(l), refInclude(l)})
			check(k, s, filterOp{"exclude", transform.Exclude(l), refExclude(l)})
		}
		if n > 0 {
			for _, r := range []string{all[0], all[n/2], all[n-1]} {
				check(k, s, filterOp{"resume", transform.ResumeAt(r), refResume(r)})
			}
		}
	})
}

// ---------------------------------------------------------------------
// Image references
// ---------------------------------------------------------------------

func imageDict(c *Ctx) {
	ws := dictWords(c.Quick)
	frames := []string{"%s", "%s/x", "x/%s", "x:%s", "%s:1", "gcr.io/%s", "%s/x/y", "docker.io/%s/y", "index.docker.io/x:%s", "gcr.io/a/%s:%[1]s", "localhost/%s", "%s:5000/x", "%s@sha256:" + strings.Repeat("0a", 32), "%s.io/x/y:2"}
	c.Product("dictionary", fmt.Sprintf("every one of %d words (the literals of the code, their neighbours and fixed words) in %d positions of a reference, compared with hosts and references", len(ws), len(frames)), []int{len(frames), len(ws)}, func(k *K, ix []int) {
		w := ws[ix[1]]
		s := fmt.Sprintf(frames[ix[0]], w)
		k.In(func() string { return fmt.Sprintf("%q", s) })
		checkImage(k, s)
		if oddHost(s) {
			return
		}
		checkHosts(k, s)
		checkHost(k, s, w)
		for _, o := range []string{"x", "gcr.io/x", s + ":1", s + "/x", "library/" + s, "docker.io/" + s, "index.docker.io/" + s, "docker.io/library/" + s, s + ":latest", "a" + s, strings.ToUpper(s), strings.ToLower(s)} {
			if !oddHost(o) {
				checkImagePair(k, s, o)
				checkImagePair(k, o, s)
			}
		}
	})
	pw := plainWords(c.Quick)
	c.Product("words", fmt.Sprintf("all pairs of %d words, as references and as reference and host", len(pw)), []int{len(pw), len(pw)}, func(k *K, ix []int) {
		a, b := pw[ix[0]], pw[ix[1]]
		k.In(func() string { return fmt.Sprintf("%q %q", a, b) })
		k.State(a + "\x00" + b)
		if oddHost(a) || oddHost(b) {
			return
		}
		checkImagePair(k, a, b)
		checkHost(k, a+"/x", b)
	})
}

// ---------------------------------------------------------------------
// Conditions
// ---------------------------------------------------------------------

func conditionDict(c *Ctx) {
	ws := dictWords(c.Quick)
	pw := plainWords(c.Quick)
	try := func(k *K, p, v string) {
		if !globDomain(p, v) || strings.Contains(p, "{}") { // the empty alternative
			return
		}
		checkCondition(k, yaml.Condition{Include: []string{p}}, v)
		checkCondition(k, yaml.Condition{Exclude: []string{p}}, v)
		checkCondition(k, yaml.Condition{Include: []string{"x", p}, Exclude: []string{"y"}}, v)
		checkCondition(k, yaml.Condition{Include: []string{"**"}, Exclude: []string{"zz", p}}, v)
	}
	c.Product("words", fmt.Sprintf("all pairs of %d words (the literals of the code and fixed words) as pattern and value", len(pw)), []int{len(pw), len(pw)}, func(k *K, ix []int) {
		p, v := pw[ix[0]], pw[ix[1]]
		k.In(func() string { return fmt.Sprintf("%q %q", p, v) })
		k.State(p + "\x00" + v)
		try(k, p, v)
	})
	frames := []string{"%s", "%s*", "*%s", "%s/*", "*/%s", "%s/**", "**/%s", "x%s", "%s/x", "?%s", "refs/heads/%s", "%s-[a-z]", "{%s,x}"}
	vals := []string{"%s", "%s1", "a%s", "%s/x", "x/%s", "%s/x/y", "y/x/%s", "refs/heads/%s", "%s-a", "x", ""}
	c.Product("dictionary", fmt.Sprintf("every one of %d words in %d patterns and %d values", len(ws), len(frames), len(vals)), []int{len(ws), len(frames), len(vals)}, func(k *K, ix []int) {
		w := ws[ix[0]]
		p, v := fmt.Sprintf(frames[ix[1]], w), vals[ix[2]]
		if strings.Contains(v, "%") {
			v = fmt.Sprintf(v, w)
		}
		k.In(func() string { return fmt.Sprintf("%q %q", p, v) })
		k.State(p + "\x00" + v)
		try(k, p, v)
	})
	sz := dictSizes(c.Quick)
	c.Product("lengths", "include and exclude lists of every length with the value at every tenth place, or nowhere", []int{len(sz), 12, 2}, func(k *K, ix []int) {
		n := sz[ix[0]]
		var l []string
		for i := 0; i < n; i++ {
			l = append(l, fmt.Sprintf("p%d/*", i))
		}
		v := "none"
		if ix[1] < 11 && n > 0 {
			v = fmt.Sprintf("p%d/x", (n-1)*ix[1]/10)
		}
		k.In(func() string { return fmt.Sprintf("%d patterns, value %q", n, v) })
		k.State(fmt.Sprint("len", ix))
		if ix[2] == 0 {
			checkCondition(k, yaml.Condition{Include: l}, v)
		} else {
			checkCondition(k, yaml.Condition{Exclude: l, Include: []string{"p*/*", "none"}}, v)
		}
	})
}

// ---------------------------------------------------------------------
// Foreign configurations
// ---------------------------------------------------------------------

// foreignWords are words that a conversion keeps as they are.
func foreignWords(c *Ctx) (out []string) {
	for _, w := range plainWords(c.Quick) {
		if !ampBang(w) {
			out = append(out, w)
		}
	}
	return
}

type gitlabT struct {
	Stages         []string
	Image          string
	Before, After  []string
	Jobs           []gitlabJobT
	Services       []string
	ServiceImage   string
	ServiceAlias   string
	ServiceCommand []string
	ServiceEntry   []string
}

type gitlabJobT struct {
	Name, Image           string
	Entry                 []string
	Before, Script, After []string
}

func lineOf(key string, l []string) string { return key + ": [" + strings.Join(quoted(l), ", ") + "]" }

func gitlabDict(c *Ctx, visit func(*K, *glDoc)) {
	reserved := setFrom([]string{"image", "services", "stages", "types", "before_script", "after_script", "variables", "cache", "include", "default", "workflow", "pages", "spec"})
	base := &gitlabT{Stages: []string{"Build", "deploy"}, Image: "golang:1.2", Before: []string{"echo Before"}, After: []string{"echo After"},
		Jobs: []gitlabJobT{{Name: "compile", Image: "octo/Tool:1", Entry: []string{"/bin/Sh", "-x"}, Before: []string{"one"}, Script: []string{"make All", "make Test"}, After: []string{"three"}}, {Name: "Second", Script: []string{"./run"}}}}
	noStages := clone(base)
	noStages.Stages = nil
	mk := func(b *gitlabT) func() *gitlabT { return func() *gitlabT { return clone(b) } }
	dictSpacesFor(c, []func() *gitlabT{mk(base), mk(noStages)}, func(x *gitlabT) interface{} { return x }, nil, foreignWords(c), func(k *K, x *gitlabT, label string) {
		for _, img := range append([]string{x.Image}, jobImages(x.Jobs)...) {
			if img == "null" || img == "~" {
				return // the yaml library does not decode these
			}
		}
		d := &glDoc{stages: x.Stages, image: x.Image, before: x.Before, after: x.After}
		seen := map[string]bool{}
		for _, s := range x.Stages {
			if seen[s] || s == "" {
				return // repeated or nameless stages
			}
			seen[s] = true
		}
		if x.Image != "" {
			d.head = append(d.head, fmt.Sprintf("image: %q", x.Image))
		}
		d.head = append(d.head, lineOf("before_script", x.Before), lineOf("after_script", x.After))
		names := map[string]bool{}
		for i, j := range x.Jobs {
			if j.Name == "" || names[j.Name] || reserved[j.Name] || strings.HasPrefix(j.Name, ".") || j.Name == "<<" {
				return
			}
			names[j.Name] = true
			g := &glJob{name: j.Name, image: j.Image, before: j.Before, script: j.Script, after: j.After}
			if len(x.Stages) > 0 {
				g.stage = x.Stages[i%len(x.Stages)]
			}
			if j.Image != "" {
				if len(j.Entry) > 0 {
					g.entrypoint = j.Entry
					g.lines = append(g.lines, fmt.Sprintf("image: {name: %q, entrypoint: [%s]}", j.Image, strings.Join(quoted(j.Entry), ", ")))
				} else {
					g.lines = append(g.lines, fmt.Sprintf("image: %q", j.Image))
				}
			}
			g.lines = append(g.lines, lineOf("before_script", j.Before), lineOf("script", j.Script), lineOf("after_script", j.After))
			d.jobs = append(d.jobs, g)
		}
		visit(k, d)
	})
}

type bitbucketT struct {
	Image, Branch, Tag, Service, ServiceImage string
	Ref                                       string
	Steps                                     []bitbucketStepT
	Default                                   []string
	Depth                                     int
}

type bitbucketStepT struct {
	Name, Image string
	Script      []string
}

func bitbucketDict(c *Ctx, visit func(*K, *bbDoc)) {
	step := []bitbucketStepT{{"compile", "octo/Tool:1", []string{"make All", "make Test"}}, {"Second", "", []string{"./run"}}}
	base := &bitbucketT{Image: "golang:1.2", Branch: "Feature", Tag: "v1", Service: "Cache", ServiceImage: "redis", Ref: "Feature", Steps: step, Default: []string{"echo Default"}, Depth: 3}
	var bases []func() *bitbucketT
	for _, ref := range []string{"refs/heads/Feature", "refs/tags/v1", "refs/heads/None"} {
		b := clone(base)
		b.Ref = ref
		bases = append(bases, func() *bitbucketT { return clone(b) })
	}
	dictSpacesFor(c, bases, func(x *bitbucketT) interface{} { return x }, nil, foreignWords(c), func(k *K, x *bitbucketT, label string) {
		if strings.HasPrefix(x.Ref, "refs/") && !strings.HasPrefix(x.Ref, "refs/heads/") && !strings.HasPrefix(x.Ref, "refs/tags/") {
			return
		}
		if x.Service == "" || x.Branch == "<<" || x.Tag == "<<" || x.Service == "<<" || x.Depth < 0 {
			return
		}
		for _, p := range []string{x.Branch, x.Tag} {
			if !globDomain(p, strings.TrimPrefix(strings.TrimPrefix(x.Ref, "refs/heads/"), "refs/tags/")) || strings.ContainsAny(p, "{[") {
				return
			}
		}
		conv := func(steps []bitbucketStepT) (out []bbStep) {
			for _, s := range steps {
				out = append(out, bbStep{name: s.Name, image: s.Image, script: s.Script})
			}
			return
		}
		visit(k, &bbDoc{image: x.Image, depth: x.Depth, ref: x.Ref, def: []bbStep{{script: x.Default}},
			branches: map[string][]bbStep{x.Branch: conv(x.Steps)}, tags: map[string][]bbStep{x.Tag: conv(x.Steps[:len(x.Steps)/2])},
			services: map[string]string{x.Service: x.ServiceImage}, svcVars: 1})
	})
}

type legacyT struct {
	Base, Path           string
	BranchInc, BranchExc []string
	Clone, Step, Second  legacyCtrT
	Service              legacyCtrT
	SecretName           string
	SecretPath           string
	SecretKey            string
}

type legacyCtrT struct {
	Name, Image                                             string
	Commands, Command, Entrypoint, DNS, DNSSearch, Hosts    []string
	Env, Settings                                           strMap
	Secrets                                                 []string
	Source, Target                                          string
	Mounts                                                  []string
	Ref, Repo, Instance, Environment, Event, Branch, Status []string
	Not                                                     []string
}

func legacyFull(name string) legacyCtrT {
	return legacyCtrT{Name: name, Image: "octo/Tool:1", Commands: []string{"make All", "./b"}, Command: []string{"Cmd"}, Entrypoint: []string{"/bin/Sh", "-x"},
		DNS: []string{"8.8.8.8"}, DNSSearch: []string{"example.Com"}, Hosts: []string{"Host:1.2.3.4"}, Env: strMap{"ENV_a": "Value 1", "B": "c"}, Settings: strMap{"set_a": "Va", "other": "v"},
		Secrets: []string{"Sec_a", "sec_b"}, Source: "from", Target: "TO_THIS", Mounts: []string{"/host/A", "/b"},
		Ref: []string{"refs/heads/A"}, Repo: []string{"octo/Hello"}, Instance: []string{"I1"}, Environment: []string{"Prod"}, Event: []string{"push", "deployment"}, Branch: []string{"Master", "dev"}, Status: []string{"failure"}, Not: []string{"No"}}
}

// legacyKeys are the keys of a legacy container with a meaning of their own;
// every other key is a setting of a plugin.
var legacyKeys = setFrom([]string{"name", "image", "build", "commands", "command", "entrypoint", "dns", "dns_search", "environment", "extra_hosts", "labels", "name", "network_mode", "networks", "privileged", "pull", "ports", "ulimits", "volumes", "secrets", "when", "detach", "auth_config", "devices", "group", "mem_limit", "memswap_limit", "mem_swap_limit", "cpu_quota", "cpu_shares", "cpuset", "shm_size", "tmpfs", "sysctls", "isolation", "disabled", "shell", "<<"})

// lctr writes the container; nil if its text is not what the words say.
func (x legacyCtrT) lctr() *lctr {
	if x.Name == "" || x.Image == "" || x.Name == "<<" {
		return nil
	}
	l := newLctr(fmt.Sprintf("%q", x.Name), "")
	l.want.Name = x.Name
	l.want.Image = x.Image
	l.set("image", fmt.Sprintf("%q", x.Image))
	list := func(key string, v []string, to *[]string) {
		l.set(key, "["+strings.Join(quoted(v), ", ")+"]")
		*to = v
	}
	list("commands", x.Commands, &l.want.Commands)
	list("command", x.Command, &l.want.Command)
	list("entrypoint", x.Entrypoint, &l.want.Entrypoint)
	list("dns", x.DNS, &l.want.DNS)
	list("dns_search", x.DNSSearch, &l.want.DNSSearch)
	list("extra_hosts", x.Hosts, &l.want.ExtraHosts)
	var env []string
	for _, key := range sortedKeys(x.Env) {
		if key == "" || key == "<<" {
			return nil
		}
		env = append(env, fmt.Sprintf("%q: %q", key, x.Env[key]))
		l.env(key, x.Env[key])
	}
	l.set("environment", "{"+strings.Join(env, ", ")+"}")
	if len(x.Secrets) > 0 {
		l.set("secrets", "["+strings.Join(quoted(x.Secrets), ", ")+"]")
		for _, s := range x.Secrets {
			up := strings.ToUpper(s)
			if s == "" || l.want.Environment[up] != nil {
				return nil
			}
			l.secret(up, s)
		}
	} else {
		if x.Source == "" || x.Target == "" || l.want.Environment[strings.ToUpper(x.Target)] != nil {
			return nil
		}
		l.set("secrets", fmt.Sprintf("[{source: %q, target: %q}]", x.Source, x.Target))
		l.secret(strings.ToUpper(x.Target), x.Source)
	}
	for _, key := range sortedKeys(x.Settings) {
		if key == "" || legacyKeys[key] {
			return nil
		}
		if key == "from_secret" {
			return nil
		}
		l.lines = append(l.lines, fmt.Sprintf("%q: %q", key, x.Settings[key]))
		l.setting(key, x.Settings[key])
	}
	if len(x.Mounts) > 1 {
		for _, m := range x.Mounts {
			if m == "" || strings.Contains(m, ":") {
				return nil
			}
		}
		l.set("volumes", fmt.Sprintf("[%q]", x.Mounts[0]+":"+x.Mounts[1]))
		l.volume(x.Mounts[0], x.Mounts[1])
	}
	when := func(key string, v []string, to *yaml.Condition) {
		if len(v) == 0 {
			return
		}
		l.when(key + ": [" + strings.Join(quoted(v), ", ") + "]")
		to.Include = v
	}
	w := &l.want.When
	when("ref", x.Ref, &w.Ref)
	when("repo", x.Repo, &w.Repo)
	when("instance", x.Instance, &w.Instance)
	when("environment", x.Environment, &w.Target)
	when("event", x.Event, &w.Event)
	w.Event = toPromoteRef(w.Event)
	when("status", x.Status, &w.Status)
	if len(x.Branch)+len(x.Not) > 0 {
		l.when(fmt.Sprintf("branch: {include: [%s], exclude: [%s]}", strings.Join(quoted(x.Branch), ", "), strings.Join(quoted(x.Not), ", ")))
		w.Branch = yaml.Condition{Include: x.Branch, Exclude: x.Not}
	}
	return l
}

func legacyDict(c *Ctx, visit func(*K, *ldoc, lenv)) {
	second := func(n string) legacyCtrT {
		return legacyCtrT{Name: n, Image: "golang", Commands: []string{"x"}, Source: "s", Target: "T"}
	}
	base := &legacyT{Base: "/go", Path: "src/Sub", BranchInc: []string{"Master", "dev"}, Clone: second("git"), Step: legacyFull("Build"), Second: second("test"), Service: second("Db"),
		SecretName: "Ext", SecretPath: "secret/Data", SecretKey: "Key"}
	svc := clone(base)
	svc.BranchInc, svc.BranchExc = nil, []string{"Tmp"}
	svc.Step, svc.Service, svc.Clone = second("Build"), legacyFull("Db"), legacyCtrT{}
	svc.Path = ""
	cl := clone(base)
	cl.Clone, cl.Step = legacyFull("git"), second("Build")
	cl.Clone.Secrets = nil
	cl.BranchExc = []string{"Tmp"}
	var bases []func() *legacyT
	for _, b := range []*legacyT{base, svc, cl} {
		b := b
		bases = append(bases, func() *legacyT { return clone(b) })
	}
	skip := func(b int, p string) bool { return b == 1 && strings.HasPrefix(p, ".Clone") }
	dictSpacesFor(c, bases, func(x *legacyT) interface{} { return x }, skip, foreignWords(c), func(k *K, x *legacyT, label string) {
		d := &ldoc{base: x.Base, path: x.Path, branchInc: x.BranchInc, branchExc: x.BranchExc}
		d.head = append(d.head, fmt.Sprintf("workspace: {base: %q, path: %q}", x.Base, x.Path),
			fmt.Sprintf("branches: {include: [%s], exclude: [%s]}", strings.Join(quoted(x.BranchInc), ", "), strings.Join(quoted(x.BranchExc), ", ")),
			fmt.Sprintf("secrets: {%q: {path: %q, driver: vault, driver_opts: {path: %q, key: %q}}}", x.SecretName, "", x.SecretPath, x.SecretKey))
		if x.SecretName == "" || x.SecretName == "<<" || x.SecretPath == "" {
			return
		}
		d.secrets = []*yaml.Secret{{Kind: "secret", Name: x.SecretName, Get: yaml.SecretGet{Path: x.SecretPath, Name: x.SecretKey}}}
		names := map[string]bool{}
		for i, v := range []legacyCtrT{x.Clone, x.Step, x.Second, x.Service} {
			if i == 0 && v.Name == "" && x.Clone.Image == "" {
				continue
			}
			l := v.lctr()
			if l == nil || names[v.Name] {
				return
			}
			names[v.Name] = true
			switch i {
			case 0:
				d.clone = append(d.clone, l)
			case 3:
				d.services = append(d.services, l)
			default:
				d.steps = append(d.steps, l)
			}
		}
		visit(k, d, lenv{})
	})
}

func jobImages(jobs []gitlabJobT) (out []string) {
	for _, j := range jobs {
		out = append(out, j.Image)
	}
	return
}
