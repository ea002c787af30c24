package main

import (
	"fmt"
	"strings"

	"github.com/drone/drone-runtime/engine"
	"github.com/drone/drone-yaml/yaml"
	"github.com/drone/drone-yaml/yaml/compiler"
)

func init() { register("C42", runC42) }

// ---------------------------------------------------------------------
// C42: the compiler's callbacks
// ---------------------------------------------------------------------

// finishers are transformations of a plan that anything the compiler did
// to the plan afterwards would show through, on top of the library's own.
func finishers() []top {
	var out []top
	for _, t := range transforms() {
		out = append(out, t)
	}
	own := func(name string, f specFn) { out = append(out, top{name, f, f}) }
	own("images", func(s *engine.Spec) {
		for i, x := range s.Steps {
			x.Docker.Image = []string{"octo/app", "docker.io/octo/app:latest", "octo/app:v", "golang"}[i%4]
		}
	})
	own("forget", func(s *engine.Spec) { *s = engine.Spec{} })
	own("no volumes", func(s *engine.Spec) {
		s.Docker.Volumes = nil
		for _, x := range s.Steps {
			x.Volumes, x.Envs, x.Files, x.DependsOn, x.WorkingDir = nil, nil, nil, nil, ""
		}
		s.Files = nil
	})
	own("flip", func(s *engine.Spec) {
		for _, x := range s.Steps {
			x.Docker.Privileged, x.Detach = !x.Docker.Privileged, !x.Detach
			x.RunPolicy = engine.RunPolicy((int(x.RunPolicy) + 1) % 4)
			x.Docker.PullPolicy = engine.PullPolicy((int(x.Docker.PullPolicy) + 1) % 4)
		}
	})
	own("reverse", func(s *engine.Spec) {
		for i, j := 0, len(s.Steps)-1; i < j; i, j = i+1, j-1 {
			s.Steps[i], s.Steps[j] = s.Steps[j], s.Steps[i]
		}
	})
	own("new step", func(s *engine.Spec) {
		s.Steps = append([]*engine.Step{{Metadata: engine.Metadata{Name: "mine"}, Docker: &engine.DockerStep{Image: "octo/app"}}}, s.Steps...)
	})
	own("rename all", func(s *engine.Spec) {
		s.Metadata = engine.Metadata{Name: "mine", Labels: map[string]string{"a": "b"}}
		s.Platform = engine.Platform{OS: "plan9"}
		for i, x := range s.Steps {
			x.Metadata.Name, x.Metadata.UID = fmt.Sprint("s", i), ""
		}
	})
	own("no docker", func(s *engine.Spec) {
		s.Docker = nil
		for _, x := range s.Steps {
			x.Docker = nil
		}
	})
	return out
}

// checkTransform compiles with a transformation: it gets the plan that is
// compiled without it, once, and what it makes of it is the result.
func checkTransform(k *K, x *cc, plain string, t top) {
	var before, given *engine.Spec
	calls := 0
	comp := x.o.compiler()
	comp.TransformFunc = func(s *engine.Spec) {
		calls++
		before, given = clone(s), s
		t.fn(s)
	}
	spec := comp.Compile(x.p)
	k.Step(1)
	k.Agree(3)
	if calls != 1 {
		k.Fail("calls", "transform %s: called %d times", t.name, calls)
		return
	}
	if given != spec {
		k.Fail("given", "transform %s is given another plan than the one returned", t.name)
	}
	if got := canonPlan(before); got != plain {
		k.Fail("unfinished", "transform %s is given an unfinished plan:\nwant/got\n%s", t.name, textDiff(plain, got))
		return
	}
	model := clone(before)
	t.ref(model)
	if model.Docker == nil || spec.Docker == nil || len(model.Steps) != len(before.Steps) {
		if want, got := js(model), js(spec); want != got {
			k.Fail("undone", "transform %s: what it makes is changed afterwards:\nwant/got\n%s", t.name, textDiff(want, got))
		}
		return
	}
	if want, got := canonOver(k, model, before, false), canonOver(k, spec, before, true); want != got {
		k.Fail("undone", "transform %s: what it makes is changed afterwards:\nwant/got\n%s", t.name, textDiff(want, got))
	}
}

// answers is what the caller's policies say about each container of a
// pipeline, steps before services, by its name; about any other container
// (the clone step is none of the user's) they say yes.
type answers struct{ skip, priv map[string]bool }

func (a answers) get(k *K, x *cc, m map[string]bool, what string) func(*yaml.Container) bool {
	return func(c *yaml.Container) bool {
		if c == nil {
			k.Fail("asked", "%s is asked about no container", what)
			return false
		}
		v, ok := m[c.Name]
		if !ok {
			return true
		}
		for _, s := range append(append([]*yaml.Container{}, x.p.Steps...), x.p.Services...) {
			if s.Name == c.Name && js(s) != js(c) {
				k.Fail("asked", "%s is asked about %s, which is declared as %s", what, short(c), short(s))
			}
		}
		return v
	}
}

// checkAnswers compiles with the policies: exactly the containers they
// choose are never run, or privileged, and nothing else changes.
func checkAnswers(k *K, x *cc, base *engine.Spec, a answers) {
	comp := x.o.compiler()
	if a.skip != nil {
		comp.SkipFunc = a.get(k, x, a.skip, "the skip policy")
	}
	if a.priv != nil {
		comp.PrivilegedFunc = a.get(k, x, a.priv, "the privilege policy")
	}
	want := clone(base)
	for _, r := range rows(k, x.p, want) {
		if r.clone() {
			continue
		}
		// the policy in force otherwise is replaced
		if a.skip != nil {
			r.step.RunPolicy = refPolicy(r.src, a.skip[r.src.Name])
		}
		if a.priv != nil {
			r.step.Docker.Privileged = r.src.Privileged && !r.build() || a.priv[r.src.Name]
		}
	}
	spec := comp.Compile(x.p)
	k.Step(1)
	k.Agree(1)
	if w, g := canonPlan(want), canonPlan(spec); w != g {
		k.Fail("answers", "policies %v: the plan is not the chosen one:\nwant/got\n%s", a, textDiff(w, g))
	}
}

// giveCredentials adds credentials to the clone step of a plan.
func giveCredentials(want *engine.Spec, p pipe, data []byte) {
	if len(data) > 0 && !p.Clone.Disable && len(want.Steps) > 0 {
		want.Files = append(want.Files, &engine.File{Metadata: engine.Metadata{Namespace: want.Metadata.Namespace, Name: ".git-credentials"}, Data: data})
		want.Steps[0].Files = append(want.Steps[0].Files, &engine.FileMount{Name: ".git-credentials", Path: "/root/.git-credentials"})
	}
}

// checkCredentials compiles with and without credentials: the clone step
// alone is given them.
func checkCredentials(k *K, x *cc, data []byte) {
	y := &cc{p: x.p, o: x.o}
	y.o.creds = nil
	want := y.compile()
	comp := y.o.compiler()
	comp.GitCredentialsFunc = func() []byte { return data }
	got := comp.Compile(x.p)
	k.Step(2)
	k.Agree(1)
	giveCredentials(want, x.p, data)
	if w, g := canonPlan(want), canonPlan(got); w != g {
		k.Fail("credentials", "credentials %q: the plan differs from the one without in more than the clone step's file:\nwant/got\n%s", data, textDiff(w, g))
	}
}

func runC42(c *Ctx) {
	c.Assume("policies answer by the container they are asked about; how often each is asked is left open")
	fin := finishers()
	compileSpace(c, nil, 1, 2, func(k *K, x *cc, spec *engine.Spec) {
		plain := canonPlan(spec)
		for _, t := range fin {
			checkTransform(k, x, plain, t)
		}
		var all []string
		for _, s := range append(append([]*yaml.Container{}, x.p.Steps...), x.p.Services...) {
			all = append(all, s.Name)
		}
		if len(setNames(all)) == len(all) {
			only := func(names ...string) map[string]bool {
				m := map[string]bool{}
				for _, n := range all {
					m[n] = false
				}
				for _, n := range names {
					m[n] = true
				}
				return m
			}
			for _, n := range all {
				checkAnswers(k, x, spec, answers{skip: only(n)})
				checkAnswers(k, x, spec, answers{priv: only(n)})
			}
			checkAnswers(k, x, spec, answers{skip: only(), priv: only()})
			checkAnswers(k, x, spec, answers{skip: only(all...), priv: only(all...)})
		}
		checkCredentials(k, x, []byte("https://u:p@h\n"))
		checkCredentials(k, x, []byte{})
		checkCredentials(k, x, []byte{0})
	})
	decl := []func(s ctr){
		func(s ctr) {}, func(s ctr) { s.Privileged = true }, func(s ctr) { s.When.Status.Include = []string{"failure"} },
		func(s ctr) { s.Detach = true }, func(s ctr) { s.When.Event.Include = []string{"push"}; s.Failure = "ignore" },
		func(s ctr) { s.When.Status.Include = []string{"success", "failure"}; s.Privileged = true },
	}
	c.Product("policies", "every set of skipped and of privileged containers of three steps, one of them a build, and two services x what they declare x clone enabled x serial or graph", []int{32, 32, len(decl), 2, 2}, func(k *K, ix []int) {
		x := compileBase()
		x.p.Services = append(x.p.Services, &yaml.Container{Name: "cache", Image: "plugins/cache", Settings: map[string]*yaml.Parameter{"a": {Value: "b"}}})
		cs := append(append([]*yaml.Container{}, x.p.Steps...), x.p.Services...)
		a := answers{map[string]bool{}, map[string]bool{}}
		for i, s := range cs {
			decl[ix[2]](s)
			a.skip[s.Name], a.priv[s.Name] = ix[0]>>i&1 == 1, ix[1]>>i&1 == 1
		}
		x.p.Clone.Disable = ix[3] == 1
		if ix[4] == 1 {
			x.p.Steps[2].DependsOn = []string{"one"}
		}
		k.In(func() string { return fmt.Sprintf("%s# %v\n", x.text(), a) })
		k.State(fmt.Sprint(ix))
		base := x.compile()
		k.Step(1)
		checkAnswers(k, x, base, a)
	})
	// the callbacks do not get in each other's way: every combination of them
	ops := []int{}
	for i, t := range fin {
		switch t.name {
		case "images", "own settings", "new step", "secretfunc", "reverse":
			ops = append(ops, i)
		}
	}
	shapes := []func(x *cc){
		func(x *cc) {}, func(x *cc) { x.p.Steps = nil }, func(x *cc) { x.p.Services = nil }, func(x *cc) { x.p.Steps, x.p.Services = nil, nil },
		func(x *cc) { x.p.Volumes = nil }, func(x *cc) { x.p.Steps[1].DependsOn = []string{"one"} }, func(x *cc) { x.p.Steps = x.p.Steps[2:] }, func(x *cc) { x.p.Platform.OS = "windows" },
	}
	c.Product("together", "workspace functions (default, host, the caller's own that do nothing) x skip policy x privilege policy x credentials x transformation x shape of the pipeline x clone enabled", []int{3, 3, 3, 4, len(ops) + 1, len(shapes), 2}, func(k *K, ix []int) {
		x := compileBase()
		shapes[ix[5]](x)
		x.p.Clone.Disable = ix[6] == 1
		k.In(func() string { return fmt.Sprintf("%s# callbacks %v\n", x.text(), ix) })
		k.State(fmt.Sprint(ix))
		// the plan with the workspace functions only ...
		mk := func() *compiler.Compiler {
			o := copts{}
			if ix[0] == 1 {
				o.host = "/home/u"
			}
			comp := o.compiler()
			if ix[0] == 2 {
				comp.WorkspaceFunc = func(*engine.Spec) {}
				comp.WorkspaceMountFunc = func(*engine.Step, string, string, string) {}
			}
			return comp
		}
		want := mk().Compile(x.p)
		// ... changed by each of the other callbacks in turn
		policy := func(kind int) func(*yaml.Container) bool {
			switch kind {
			case 1:
				return func(*yaml.Container) bool { return true }
			case 2:
				return func(s *yaml.Container) bool { return s.Name == "img" || s.Name == "db" }
			}
			return nil
		}
		skip, priv := policy(ix[1]), policy(ix[2])
		for _, r := range rows(k, x.p, want) {
			if r.clone() {
				continue
			}
			if skip != nil {
				r.step.RunPolicy = refPolicy(r.src, skip(r.src))
			}
			if priv != nil {
				r.step.Docker.Privileged = r.src.Privileged && !r.build() || priv(r.src)
			}
		}
		comp := mk()
		comp.SkipFunc, comp.PrivilegedFunc = skip, priv
		if ix[3] > 0 {
			data := [][]byte{nil, {}, []byte("https://u:p@h\n")}[ix[3]-1]
			comp.GitCredentialsFunc = func() []byte { return data }
			giveCredentials(want, x.p, data)
		}
		var before *engine.Spec
		var t top
		if ix[4] > 0 {
			t = fin[ops[ix[4]-1]]
			comp.TransformFunc = func(s *engine.Spec) {
				before = clone(s)
				t.fn(s)
			}
		}
		spec := comp.Compile(x.p)
		k.Step(2)
		k.Agree(2)
		if t.fn == nil {
			before = spec
		} else if before == nil {
			k.Fail("calls", "transform %s is not called", t.name)
			return
		} else {
			model := clone(before)
			t.ref(model)
			if w, g := canonOver(k, model, before, false), canonOver(k, spec, before, true); w != g {
				k.Fail("undone", "transform %s: what it makes is changed afterwards:\nwant/got\n%s", t.name, textDiff(w, g))
			}
		}
		if w, g := canonPlan(want), canonPlan(before); w != g {
			k.Fail("together", "callbacks %v: the plan is not the one without them, changed by each:\nwant/got\n%s", ix, textDiff(w, g))
		}
	})
	// what images the plan renames and what it mounts is settled before the
	// transformation, whatever is built
	imgs := []string{"", "octo/app", "octo/app:1", "golang"}
	n := len(imgs)
	c.Product("builds", "two build steps x images of a step and a service x clone enabled x windows x every transformation", []int{n, n, n, n, 2, 2, len(fin)}, func(k *K, ix []int) {
		x := compileBase()
		x.p.Steps[0].Image, x.p.Services[0].Image = imgs[ix[2]], imgs[ix[3]]
		x.p.Steps[2].Build = nil
		for i, at := range ix[:2] {
			if at > 0 {
				x.p.Steps[1+i].Image = ""
				x.p.Steps[1+i].Build = &yaml.Build{Image: imgs[at]}
			}
		}
		x.p.Clone.Disable = ix[4] == 1
		if ix[5] == 1 {
			x.p.Platform.OS = "windows"
		}
		t := fin[ix[6]]
		k.In(func() string { return x.text() + "# " + t.name + "\n" })
		k.State(fmt.Sprint(ix))
		if strings.TrimSuffix(imgs[ix[0]], ":1") == strings.TrimSuffix(imgs[ix[1]], ":1") && ix[0] > 0 {
			return // two builds of one image: either alias will do
		}
		checkTransform(k, x, canonPlan(x.compile()), t)
		k.Step(1)
	})
}

func setNames(l []string) map[string]bool {
	m := map[string]bool{}
	for _, x := range l {
		m[x] = true
	}
	return m
}
