package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"sync/atomic"

	"github.com/drone/drone-runtime/engine"
	"github.com/drone/drone-yaml/yaml"
	"github.com/drone/drone-yaml/yaml/compiler"
)

func init() {
	register("C13", runC13)
	register("C22", runC22)
	register("C23", runC23)
}

// ---------------------------------------------------------------------
// C13: order, dependencies and schedules
// ---------------------------------------------------------------------

func declares(p pipe) bool {
	for _, s := range append(append([]*yaml.Container{}, p.Steps...), p.Services...) {
		if len(s.DependsOn) > 0 {
			return true
		}
	}
	return false
}

func setOf(l []string) string {
	m := map[string]bool{}
	for _, x := range l {
		m[x] = true
	}
	return strings.Join(sortedKeys(m), " | ")
}

// checkPlanDeps compares the dependencies of the plan with the declared ones.
func checkPlanDeps(k *K, x *cc, spec *engine.Spec) {
	graph := declares(x.p)
	for _, r := range rows(k, x.p, spec) {
		var want []string
		if r.src != nil && graph {
			want = append(want, r.src.DependsOn...)
			if !x.p.Clone.Disable && (r.service || len(want) == 0) {
				want = append(want, "clone")
			}
		}
		k.Agree(1)
		if setOf(r.step.DependsOn) != setOf(want) {
			k.Fail("dependencies", "%s: depends on %q, want %q", r.at(), r.step.DependsOn, want)
		}
		k.Agree(1)
		if r.service && !r.step.Detach {
			k.Fail("detach", "%s is not detached", r.at())
		}
		if !r.service && r.src != nil && r.step.Detach != r.src.Detach || r.clone() && r.step.Detach {
			k.Fail("detach", "%s: detach %v", r.at(), r.step.Detach)
		}
	}
}

// schedule explores every schedule of the plan under the runtime's rules
// and monitors what each step must wait for.
func schedule(k *K, x *cc, spec *engine.Spec) {
	n := len(spec.Steps)
	at := map[string]int{}
	for i, s := range spec.Steps {
		at[s.Metadata.Name] = i
	}
	serial := true
	for _, s := range spec.Steps {
		serial = serial && len(s.DependsOn) == 0
	}
	deps := make([]uint32, n) // what the runtime waits for
	must := make([]uint32, n) // what the property demands
	for i, s := range spec.Steps {
		for _, d := range s.DependsOn {
			j, ok := at[d]
			if !ok {
				k.Fail("stuck", "%s depends on %q, which is not in the plan: the runtime refuses the graph", s.Metadata.Name, d)
				return
			}
			deps[i] |= 1 << j
		}
		if serial && i > 0 {
			deps[i] = 1 << (i - 1)
		}
	}
	for i, r := range rows(k, x.p, spec) {
		if r.clone() {
			continue
		}
		for _, d := range r.src.DependsOn {
			must[i] |= 1 << at[d]
		}
		if !x.p.Clone.Disable {
			must[i] |= 1 // clone comes first
		}
		if serial && i > 0 {
			must[i] |= 1<<i - 1
		}
	}
	instant := func(i int) bool {
		return spec.Steps[i].Detach || spec.Steps[i].RunPolicy == engine.RunNever
	}
	type state struct{ started, done uint32 }
	seen := map[state]bool{}
	stack := []state{{}}
	var steps int
	for len(stack) > 0 {
		s := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if seen[s] {
			continue
		}
		seen[s] = true
		moved := false
		for i := 0; i < n; i++ {
			b := uint32(1) << i
			switch {
			case s.started&b == 0 && deps[i]&^s.done == 0:
				moved = true
				steps++
				if spec.Steps[i].RunPolicy != engine.RunNever && must[i]&^s.done != 0 {
					var w []string
					for j := 0; j < n; j++ {
						if must[i]&^s.done&(1<<j) != 0 {
							w = append(w, spec.Steps[j].Metadata.Name)
						}
					}
					k.Fail("order", "a schedule starts %s before %q finished", spec.Steps[i].Metadata.Name, w)
					return
				}
				t := state{s.started | b, s.done}
				if instant(i) {
					t.done |= b
				}
				stack = append(stack, t)
			case s.started&b != 0 && s.done&b == 0:
				moved = true
				steps++
				stack = append(stack, state{s.started, s.done | b})
			}
		}
		if !moved && s.started != 1<<n-1 {
			k.Fail("stuck", "a schedule ends without starting every step (started %b of %d)", s.started, n)
			return
		}
	}
	k.Step(steps)
	k.Agree(len(seen))
}

func checkPlan(k *K, x *cc, spec *engine.Spec) {
	checkPlanDeps(k, x, spec)
	if !k.Failed() && len(graphReasons(x.p)) == 0 {
		schedule(k, x, spec)
	}
}

func runC13(c *Ctx) {
	compileSpace(c, nil, 2, 3, checkPlanDeps)
	compileDict(c, notWhen, nil, checkPlanDeps)

	// all well-formed graphs
	maxSteps, maxBits := 3, 8
	if !c.Quick {
		maxSteps = 4
	}
	nm := []string{"s0", "s1", "s2", "s3"}
	for n := 0; n <= maxSteps; n++ {
		rel := 1
		for i := 0; i < n; i++ {
			rel <<= uint(i + 1) // earlier steps and clone
		}
		masks := 1 << uint(n)
		if n == 4 {
			masks = 5 // none or a single one
		}
		bits := func(v int) int {
			if n == 4 {
				if v == 0 {
					return 0
				}
				return 1 << uint(v-1)
			}
			return v
		}
		// services: number and what they declare
		svc := [][][]string{{}, {nil}, {nil, nil}, {{"clone"}}, {{"s0"}, nil}, {nil, {"d0"}}}
		c.Product(fmt.Sprintf("graphs%d", n), fmt.Sprintf("all dependency relations of %d steps on earlier steps and clone x clone enabled x services x never-run steps x detached steps; every schedule of each plan", n),
			[]int{rel, 2, len(svc), masks, masks}, func(k *K, ix []int) {
				x := &cc{p: &yaml.Pipeline{Name: "p"}}
				x.p.Clone.Disable = ix[1] == 1
				v := ix[0]
				for i := 0; i < n; i++ {
					s := &yaml.Container{Name: nm[i], Image: "i"}
					if bits(ix[3])&(1<<uint(i)) != 0 {
						s.When.Status.Exclude = []string{"success", "failure"}
					}
					s.Detach = bits(ix[4])&(1<<uint(i)) != 0
					for j := i - 1; j >= -1; j-- {
						if v&1 != 0 {
							if j >= 0 {
								s.DependsOn = append(s.DependsOn, nm[j])
							} else if ix[1] == 0 {
								s.DependsOn = append(s.DependsOn, "clone")
							}
						}
						v >>= 1
					}
					x.p.Steps = append(x.p.Steps, s)
				}
				for i, d := range svc[ix[2]] {
					for _, e := range d {
						if e == "clone" && ix[1] == 1 || e == "s0" && n == 0 {
							return
						}
					}
					x.p.Services = append(x.p.Services, &yaml.Container{Name: fmt.Sprint("d", i), Image: "i", DependsOn: d})
				}
				runCompile(k, x, fmt.Sprint(n, ix), checkPlan)
			})
	}
	_ = maxBits
	// relations that lint rejects are still compiled as declared
	words := []string{"a", "b", "c", "clone", "x"}
	c.Product("relations", "all dependency relations of three steps over three steps, clone and an unknown name x clone enabled", []int{32, 32, 32, 2}, func(k *K, ix []int) {
		x := &cc{p: &yaml.Pipeline{Name: "p", Services: []*yaml.Container{{Name: "d", Image: "i"}}}}
		x.p.Clone.Disable = ix[3] == 1
		for i := 0; i < 3; i++ {
			x.p.Steps = append(x.p.Steps, &yaml.Container{Name: words[i], Image: "i", DependsOn: subset(ix[i], words)})
		}
		runCompile(k, x, fmt.Sprint(ix), checkPlan)
	})
	// kinds of steps: build steps, commands, services between
	kinds := []func(s ctr){func(s ctr) {}, func(s ctr) { s.Build = &yaml.Build{Image: "x"} }, func(s ctr) { s.Commands = []string{"x"} }, func(s ctr) { s.Detach = true }, func(s ctr) { s.When.Status.Exclude = []string{"*"} }}
	deps := [][][]string{{nil, nil, nil}, {nil, {"a"}, {"b"}}, {nil, nil, {"a", "b"}}, {{"clone"}, nil, nil}, {nil, {"a", "a"}, {"clone", "a"}}, {nil, nil, {"b"}}}
	c.Product("kinds", "kinds of three steps x dependencies x number of services x clone enabled", []int{len(kinds), len(kinds), len(kinds), len(deps), 3, 2}, func(k *K, ix []int) {
		x := &cc{p: &yaml.Pipeline{Name: "p"}}
		x.p.Clone.Disable = ix[5] == 1
		for i := 0; i < 3; i++ {
			s := &yaml.Container{Name: words[i], Image: "i", DependsOn: deps[ix[3]][i]}
			kinds[ix[i]](s)
			x.p.Steps = append(x.p.Steps, s)
		}
		for i := 0; i < ix[4]; i++ {
			x.p.Services = append(x.p.Services, &yaml.Container{Name: fmt.Sprint("d", i), Image: "i"})
		}
		runCompile(k, x, fmt.Sprint(ix), checkPlan)
	})
	c.Assume("schedules follow the rules of drone-runtime at the pinned version: serial if no step of the plan has dependencies, else a step starts when its dependencies have returned; detached and never-run steps return at once; the order and multiplicity of names inside depends_on carries no meaning")
	c.Assume("services declare only dependencies that exist (lint does not check services)")
}

// ---------------------------------------------------------------------
// C22: images built in the pipeline
// ---------------------------------------------------------------------

func checkAliases(k *K, x *cc, spec *engine.Spec) map[string]bool {
	rs := rows(k, x.p, spec)
	aliases := map[string][]string{} // full name -> aliases announced for it
	allAlias := map[string]bool{}
	unnamed := map[string]bool{} // built under a text that is no reference
	for _, r := range rs {
		if !r.build() || r.src.Build.Image == "" {
			continue
		}
		full := refExpand(r.src.Build.Image)
		if _, ok := parseImage(full); !ok {
			unnamed[r.src.Build.Image] = true
			continue
		}
		a := r.step.Envs["DOCKER_BUILD_IMAGE_ALIAS"]
		ref, ok := parseImage(a)
		k.Agree(1)
		if !ok || ref.repo() != refRepo(full) || refExpand(a) != a || a == full {
			k.Fail("alias", "%s builds %s under the alias %q, want another tag of the same repository", r.at(), full, a)
			continue
		}
		if allAlias[a] {
			k.Fail("alias", "%s: alias %s is used by another build step", r.at(), a)
		}
		allAlias[a] = true
		aliases[full] = append(aliases[full], a)
	}
	used := map[string]string{}
	for _, r := range rs {
		declared := "docker.io/drone/docker:latest"
		if r.clone() {
			declared = refCloneImage(x.p.Platform)
		} else if !r.build() {
			declared = r.src.Image
			if _, ok := parseImage(declared); ok {
				declared = refExpand(declared)
			}
		}
		got := r.step.Docker.Image
		if declared == "" || unnamed[declared] {
			continue // lint demands an image
		}
		k.Agree(1)
		if as := aliases[declared]; as != nil {
			if !contains(as, got) {
				k.Fail("stale", "%s uses %s, but the pipeline builds %s as %q", r.at(), got, declared, as)
			} else if u, ok := used[declared]; ok && u != got {
				k.Fail("mixed", "%s uses %s, another container %s for the same image", r.at(), got, u)
			}
			used[declared] = got
		} else if got != declared && !(r.build() && refExpand(got) == declared) {
			k.Fail("rewritten", "%s uses %s, declared is %s, which the pipeline does not build", r.at(), got, declared)
		}
	}
	return allAlias
}

func runC22(c *Ctx) {
	keep := func(n string) bool {
		return strings.HasSuffix(n, "image") || strings.HasSuffix(n, "build") || strings.HasSuffix(n, "push") || strings.HasSuffix(n, "commands") || n == "clone.disable" || n == "os" || n == "arch" || n == "osversion" || strings.HasSuffix(n, "detach") || n == "skip"
	}
	both := func(k *K, x *cc, spec *engine.Spec) {
		a := checkAliases(k, x, spec)
		again := x.compile()
		k.Step(1)
		for n := range checkAliases(k, x, again) {
			if a[n] {
				k.Fail("reused", "two runs share the alias %s", n)
			}
		}
	}
	compileSpace(c, keep, 3, 4, both)
	compileDict(c, notWhen, nil, both)
	hex := strings.Repeat("0a", 32)
	built := []string{"", "octo/app", "octo/app:1", "docker.io/octo/app:latest", "golang", "gcr.io/x/y", "gcr.io/x/y:2", "localhost:5000/z", "drone/git", "drone/docker", "docker.io/gcr.io/x"}
	used := []string{"octo/app", "octo/app:latest", "index.docker.io/octo/app", "octo/app:1", "octo/app:2", "octo/apps", "gcr.io/octo/app", "golang", "library/golang:latest", "golang:1.11", "gcr.io/x/y", "gcr.io/x/y:2", "localhost:5000/z:latest", "drone/git", "octo/app@sha256:" + hex, "drone/docker:latest", "gcr.io/x", "not an image"}
	oses := []yaml.Platform{{}, {OS: "linux", Arch: "arm"}}
	first := []int{len(built), len(built), len(used), len(used), len(used)}
	if c.Quick {
		first[3], first[4] = 10, 2
	}
	c.Product("images", "two built images x images of a step before, a step after and a service x platform", append(first, len(oses)), func(k *K, ix []int) {
		x := &cc{p: &yaml.Pipeline{Name: "p", Platform: oses[ix[5]]}}
		x.p.Services = []*yaml.Container{{Name: "d", Image: used[ix[4]]}}
		add := func(s ctr) { x.p.Steps = append(x.p.Steps, s) }
		if b := built[ix[0]]; b != "" {
			add(&yaml.Container{Name: "b1", Build: &yaml.Build{Image: b}})
		}
		add(&yaml.Container{Name: "u1", Image: used[ix[2]]})
		if b := built[ix[1]]; b != "" {
			add(&yaml.Container{Name: "b2", Build: &yaml.Build{Image: b}})
		}
		add(&yaml.Container{Name: "u2", Image: used[ix[3]], Commands: []string{"x"}})
		runCompile(k, x, fmt.Sprint(ix), both)
	})
	c.Assume("if several steps build the same image, any one of their aliases is accepted, but the same one for every container; built images named by digest or by text that is no reference are left out")
}

// ---------------------------------------------------------------------
// C23: purity and identities
// ---------------------------------------------------------------------

func deepCopy(v reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return v
		}
		n := reflect.New(v.Type().Elem())
		n.Elem().Set(deepCopy(v.Elem()))
		return n
	case reflect.Interface:
		if v.IsNil() {
			return v
		}
		n := reflect.New(v.Type()).Elem()
		n.Set(deepCopy(v.Elem()))
		return n
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		n := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			n.Index(i).Set(deepCopy(v.Index(i)))
		}
		return n
	case reflect.Map:
		if v.IsNil() {
			return v
		}
		n := reflect.MakeMap(v.Type())
		for _, k := range v.MapKeys() {
			n.SetMapIndex(k, deepCopy(v.MapIndex(k)))
		}
		return n
	case reflect.Struct:
		n := reflect.New(v.Type()).Elem()
		n.Set(v)
		for i := 0; i < v.NumField(); i++ {
			if n.Field(i).CanSet() {
				n.Field(i).Set(deepCopy(v.Field(i)))
			}
		}
		return n
	}
	return v
}

func clone[T any](v T) T { return deepCopy(reflect.ValueOf(v)).Interface().(T) }

// scramble changes everything reachable from v, including the spare room
// of slices.
func scramble(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			if v.Kind() == reflect.Interface && v.CanSet() && v.Elem().Kind() != reflect.Ptr {
				e := reflect.New(v.Elem().Type()).Elem()
				e.Set(v.Elem())
				scramble(e)
				v.Set(e)
				return
			}
			scramble(v.Elem())
		}
	case reflect.Slice:
		if v.IsNil() {
			return
		}
		for i := 0; i < v.Len(); i++ {
			scramble(v.Index(i))
		}
		if v.Cap() > v.Len() {
			w := v.Slice(0, v.Cap())
			for i := v.Len(); i < v.Cap(); i++ {
				if w.Index(i).Kind() == reflect.String {
					w.Index(i).SetString("spare")
				}
			}
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			e := reflect.New(v.Type().Elem()).Elem()
			e.Set(v.MapIndex(k))
			scramble(e)
			v.SetMapIndex(k, e)
		}
		if !v.IsNil() && v.Type().Key().Kind() == reflect.String {
			v.SetMapIndex(reflect.ValueOf("scrambled"), reflect.Zero(v.Type().Elem()))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				scramble(v.Field(i))
			}
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString(v.String() + "!")
		}
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
		}
	case reflect.Int, reflect.Int64:
		if v.CanSet() {
			v.SetInt(v.Int() + 1)
		}
	case reflect.Uint8:
		if v.CanSet() {
			v.SetUint(v.Uint() ^ 1)
		}
	case reflect.Float64:
		if v.CanSet() {
			v.SetFloat(v.Float() + 1)
		}
	}
}

// planIDs lists all identifiers of a plan.
func planIDs(s *engine.Spec) []string {
	out := []string{s.Metadata.UID}
	for _, x := range s.Steps {
		out = append(out, x.Metadata.UID)
	}
	if s.Docker != nil {
		for _, x := range s.Docker.Volumes {
			out = append(out, x.Metadata.UID)
		}
	}
	for _, x := range s.Files {
		out = append(out, x.Metadata.UID)
	}
	return out
}

func planNamespaces(s *engine.Spec) []string {
	out := []string{s.Metadata.Namespace}
	for _, x := range s.Steps {
		out = append(out, x.Metadata.Namespace)
	}
	if s.Docker != nil {
		for _, x := range s.Docker.Volumes {
			out = append(out, x.Metadata.Namespace)
		}
	}
	for _, x := range s.Files {
		out = append(out, x.Metadata.Namespace)
	}
	for _, x := range s.Secrets {
		out = append(out, x.Metadata.Namespace)
	}
	return out
}

// canonPlan renders a plan with its identifiers replaced by their role and
// the lists without meaningful order sorted.
func canonPlan(s *engine.Spec) string {
	s = clone(s)
	var pairs []string
	pairs = append(pairs, s.Metadata.UID, "<plan>")
	for i, x := range s.Steps {
		pairs = append(pairs, x.Metadata.UID, fmt.Sprintf("<step %d>", i))
		sort.SliceStable(x.Secrets, func(i, j int) bool {
			return x.Secrets[i].Env+"\x00"+x.Secrets[i].Name < x.Secrets[j].Env+"\x00"+x.Secrets[j].Name
		})
	}
	rep := strings.NewReplacer(pairs...)
	var vols, files []string
	if s.Docker != nil {
		for _, x := range s.Docker.Volumes {
			x.Metadata.UID = "<volume>"
			b, _ := json.Marshal(x)
			vols = append(vols, string(b))
		}
		s.Docker.Volumes = nil
	}
	for _, x := range s.Files {
		x.Metadata.UID = "<file>"
		b, _ := json.Marshal(x)
		files = append(files, rep.Replace(string(b))+string(x.Data))
	}
	s.Files = nil
	sort.Strings(vols)
	sort.Strings(files)
	b, err := json.Marshal(s)
	return rep.Replace(string(b) + strings.Join(vols, "\n") + strings.Join(files, "\n") + fmt.Sprint(err))
}

type idMonitor struct {
	seen [32][256]int32
	n    int64
}

func (m *idMonitor) check(k *K, id string) {
	if len(id) != 32 || !all(id, isLowerAlnum) {
		k.Fail("identifier", "identifier %q is not 32 lower-case letters and digits", id)
		return
	}
	atomic.AddInt64(&m.n, 1)
	for i := 0; i < 32; i++ {
		if atomic.LoadInt32(&m.seen[i][id[i]]) == 0 {
			atomic.StoreInt32(&m.seen[i][id[i]], 1)
		}
	}
}

func runC23(c *Ctx) {
	var mon idMonitor
	other := compileBase()
	other.p.Name = "other"
	other.p.Steps[0].Environment = map[string]*yaml.Variable{"OTHER": {Value: "1"}}
	pure := func(k *K, x *cc, s1 *engine.Spec) {
		before := x.before
		comp := x.o.compiler()
		s2 := comp.Compile(x.p)
		ox := clone(other.p)
		s3 := comp.Compile(ox)
		s4 := comp.Compile(x.p)
		k.Step(4)
		if !reflect.DeepEqual(before, x.p) {
			k.Fail("changed", "compiling changed the pipeline:\n%s", textDiff(js(before), js(x.p)))
			return
		}
		c1 := canonPlan(s1)
		for i, s := range []*engine.Spec{s2, s4} {
			k.Agree(1)
			if got := canonPlan(s); got != c1 {
				k.Fail("differs", "compilation %d of the same pipeline gives another plan:\n%s", i+2, textDiff(c1, got))
				return
			}
		}
		// identifiers
		ids := map[string]string{}
		for i, s := range []*engine.Spec{s1, s2, s3, s4} {
			for j, id := range planIDs(s) {
				mon.check(k, id)
				at := fmt.Sprintf("object %d of plan %d", j, i)
				if o, dup := ids[id]; dup {
					k.Fail("identifier", "%s and %s share the identifier %q", o, at, id)
				}
				ids[id] = at
			}
			for j, n := range planNamespaces(s) {
				if n != s.Metadata.Namespace || n == "" {
					k.Fail("namespace", "object %d of plan %d has the namespace %q, want %q", j, i, n, s.Metadata.Namespace)
				}
			}
			k.Agree(2)
		}
		// aliasing: scramble one plan, then another pipeline's, then the
		// pipeline itself
		j2, j3, j4 := js(s2), js(s3), js(s4)
		scramble(reflect.ValueOf(s1))
		if !reflect.DeepEqual(before, x.p) {
			k.Fail("shared", "changing a plan changes the pipeline it came from:\n%s", textDiff(js(before), js(x.p)))
		}
		if got := js(s2); got != j2 {
			k.Fail("shared", "changing a plan changes another plan of the same pipeline:\n%s", textDiff(j2, got))
		}
		scramble(reflect.ValueOf(s2))
		if got := js(s3); got != j3 {
			k.Fail("shared", "changing a plan changes the plan of another pipeline:\n%s", textDiff(j3, got))
		}
		scramble(reflect.ValueOf(s3))
		scramble(reflect.ValueOf(clone(ox)))
		if got := js(s4); got != j4 {
			k.Fail("shared", "changing a plan changes another plan:\n%s", textDiff(j4, got))
		}
		k.Agree(4)
		p := x.p
		scramble(reflect.ValueOf(p))
		if got := js(s4); got != j4 {
			k.Fail("shared", "changing the pipeline changes its plan:\n%s", textDiff(j4, got))
		}
		s5 := comp.Compile(before)
		if got := canonPlan(s5); got != c1 {
			k.Fail("differs", "after other plans were changed the same pipeline compiles differently:\n%s", textDiff(c1, got))
		}
		k.Step(1)
		k.Agree(2)
	}
	compileSpace(c, nil, 1, 2, pure)
	compileDictFor(c, notWhen, nil, plainWords(c.Quick), func(k *K, x *cc, spec *engine.Spec) {
		if !c.Quick {
			pure(k, x, spec)
			return
		}
		before := x.before
		again := x.compile()
		k.Step(1)
		k.Agree(2)
		if !reflect.DeepEqual(before, x.p) {
			k.Fail("changed", "compiling changed the pipeline:\n%s", textDiff(js(before), js(x.p)))
		} else if a, b := canonPlan(spec), canonPlan(again); a != b {
			k.Fail("differs", "compiling again gives another plan:\n%s", textDiff(a, b))
		}
	})
	if c.Quick {
		ds := limitOpts(compileDims(), 1)
		c.Deviate("pairs", "all pairs of dimensions, first option of each", sizes(ds), 2, func(k *K, ix []int) {
			x := compileBase()
			apply(ds, ix, x)
			runCompile(k, x, names(ds, ix), pure)
		})
	}
	// many containers: histories of compilations of pipelines of different
	// shape with one compiler
	mk := []func() pipe{
		func() pipe { return compileBase().p },
		func() pipe {
			return &yaml.Pipeline{Name: "w", Platform: yaml.Platform{OS: "windows"}, Steps: []*yaml.Container{{Name: "s", Image: "i", Commands: []string{"x"}}}}
		},
		func() pipe { return &yaml.Pipeline{Name: "empty", Clone: yaml.Clone{Disable: true}} },
		func() pipe {
			return &yaml.Pipeline{Name: "g", Steps: []*yaml.Container{{Name: "a", Build: &yaml.Build{Image: "octo/app:1"}, DependsOn: []string{"clone"}}, {Name: "b", Image: "octo/app:1", DependsOn: []string{"a"}, Environment: map[string]*yaml.Variable{"X": {Secret: "s"}}}}}
		},
		func() pipe {
			return &yaml.Pipeline{Name: "p", Services: []*yaml.Container{{Name: "d", Image: "octo/app", Settings: map[string]*yaml.Parameter{"a": {Value: []interface{}{"x"}}}}}, Volumes: []*yaml.Volume{{Name: "v", HostPath: &yaml.VolumeHostPath{Path: "/h"}}}}
		},
	}
	var alone []string
	for _, f := range mk {
		alone = append(alone, canonPlan((&compiler.Compiler{GitCredentialsFunc: func() []byte { return []byte("c") }}).Compile(f())))
	}
	l := 5
	if !c.Quick {
		l = 7
	}
	c.Words("histories", fmt.Sprintf("all sequences of up to %d compilations of %d pipelines with one compiler; plans changed between", l, len(mk)), len(mk), 1, l, func(k *K, w []int) {
		k.In(func() string { return fmt.Sprint("pipelines ", w) })
		k.State(fmt.Sprint(w))
		comp := &compiler.Compiler{GitCredentialsFunc: func() []byte { return []byte("c") }}
		ids := map[string]bool{}
		for i, n := range w {
			s := comp.Compile(mk[n]())
			k.Step(1)
			k.Agree(1)
			if got := canonPlan(s); got != alone[n] {
				k.Fail("history", "compilation %d (pipeline %d) differs from compiling it alone:\n%s", i, n, textDiff(alone[n], got))
			}
			for _, id := range planIDs(s) {
				mon.check(k, id)
				if ids[id] {
					k.Fail("identifier", "identifier %q appears twice", id)
				}
				ids[id] = true
			}
			scramble(reflect.ValueOf(s))
		}
	})
	if c.Only == "" && mon.n > 100000 {
		c.Range("alphabet", "every position of the identifiers takes every character over all identifiers of this run", 32, func(k *K, i int) {
			k.State(fmt.Sprint(i))
			k.Agree(1)
			for _, ch := range "abcdefghijklmnopqrstuvwxyz0123456789" {
				if mon.seen[i][ch] == 0 {
					k.Fail("identifier", "character %d of %d identifiers was never %q: identifiers are not random over their whole length", i, mon.n, ch)
				}
			}
		})
	}
	c.Assume("functions supplied by the caller (credentials) return a fresh value on every call")
}

// textDiff shows where two texts part.
func textDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo := i - 60
	if lo < 0 {
		lo = 0
	}
	cut := func(s string) string {
		hi := i + 100
		if hi > len(s) {
			hi = len(s)
		}
		if lo > hi {
			return ""
		}
		return s[lo:hi]
	}
	return fmt.Sprintf("...%s\n...%s", cut(a), cut(b))
}
