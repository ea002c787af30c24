package main

import (
	"fmt"
	"strings"

	"github.com/drone/drone-yaml/yaml"
	"github.com/drone/drone-yaml/yaml/linter"
)

func init() {
	register("C09", runC09)
	register("C10", runC10)
	register("C11", runC11)
	register("C12", runC12)
}

// ---------------------------------------------------------------------
// Reference: every reason to reject a pipeline.
// ---------------------------------------------------------------------

var (
	okOS   = []string{"linux", "windows"}
	okArch = []string{"arm", "arm64", "amd64", "ppc64le", "s390x"}
)

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func reservedVolume(n string) bool {
	return contains([]string{"workspace", "_workspace", "_docker_socket"}, n)
}

func platformReasons(p yaml.Platform) (r []string) {
	if p.OS != "" && !contains(okOS, p.OS) {
		r = append(r, "os "+p.OS)
	}
	if p.Arch != "" && !contains(okArch, p.Arch) {
		r = append(r, "arch "+p.Arch)
	}
	return
}

// privilegeReasons lists the privileged features a pipeline uses.
func privilegeReasons(p pipe) (r []string) {
	for i, c := range append(append([]*yaml.Container{}, p.Steps...), p.Services...) {
		at := fmt.Sprintf(" of container %d", i)
		if c.Privileged {
			r = append(r, "privileged"+at)
		}
		if len(c.Devices) > 0 {
			r = append(r, "devices"+at)
		}
		if len(c.DNS) > 0 {
			r = append(r, "dns"+at)
		}
		if len(c.DNSSearch) > 0 {
			r = append(r, "dns_search"+at)
		}
		if len(c.ExtraHosts) > 0 {
			r = append(r, "extra_hosts"+at)
		}
		if c.Network != "" {
			r = append(r, "network_mode"+at)
		}
		for _, x := range c.Ports {
			if x.Host != 0 {
				r = append(r, "host port"+at)
			}
		}
	}
	for _, v := range p.Volumes {
		if v.HostPath != nil {
			r = append(r, "host volume")
		}
		if v.EmptyDir != nil && v.EmptyDir.Medium == "memory" {
			r = append(r, "in-memory volume")
		}
	}
	return
}

func validityReasons(p pipe) (r []string) {
	r = platformReasons(p.Platform)
	for i, c := range append(append([]*yaml.Container{}, p.Steps...), p.Services...) {
		at := fmt.Sprintf(" of container %d", i)
		if c.Name == "" {
			r = append(r, "no name"+at)
		}
		if c.Build == nil && c.Image == "" {
			r = append(r, "no image"+at)
		}
		if c.Build != nil && c.Build.Image == "" {
			r = append(r, "no build image"+at)
		}
		for _, v := range c.Volumes {
			if reservedVolume(v.Name) {
				r = append(r, "reserved mount"+at)
			}
		}
	}
	for _, v := range p.Volumes {
		if reservedVolume(v.Name) {
			r = append(r, "reserved volume")
		}
	}
	return
}

// graphReasons judges names and dependencies.
func graphReasons(p pipe) (r []string) {
	clone := !p.Clone.Disable
	pos := map[string]int{}
	for i, c := range append(append([]*yaml.Container{}, p.Steps...), p.Services...) {
		if _, dup := pos[c.Name]; dup || clone && c.Name == "clone" {
			r = append(r, "name "+c.Name+" twice")
		}
		if _, dup := pos[c.Name]; !dup {
			pos[c.Name] = i
		}
	}
	for i, c := range p.Steps {
		for _, d := range c.DependsOn {
			at, ok := pos[d]
			switch {
			case d == c.Name:
				r = append(r, "self dependency "+d)
			case clone && d == "clone":
			case !ok || at >= i:
				r = append(r, "dependency on "+d)
			}
		}
	}
	return
}

func lintReasons(p pipe, trusted bool) []string {
	r := append(validityReasons(p), graphReasons(p)...)
	if !trusted {
		r = append(r, privilegeReasons(p)...)
	}
	return r
}

func lintAgainst(k *K, r yaml.Resource, trusted bool, reasons []string) {
	err := linter.Lint(r, trusted)
	k.Step(1)
	k.Agree(1)
	if err == nil && len(reasons) > 0 {
		k.Fail("accepted", "lint (trusted=%v) accepts a resource that must be rejected: %s", trusted, strings.Join(reasons, ", "))
	}
	if err != nil && len(reasons) == 0 {
		k.Fail("rejected", "lint (trusted=%v) rejects a well-formed resource: %v", trusted, err)
	}
}

// lintBoth lints untrusted and trusted, in memory and after a parse.
func lintBoth(k *K, p pipe, reparse bool) {
	for _, trusted := range []bool{false, true} {
		lintAgainst(k, p, trusted, lintReasons(p, trusted))
	}
	if reparse {
		if rs := mustParse(k, "parse", manifestText(p)); len(rs) == 1 {
			for _, trusted := range []bool{false, true} {
				lintAgainst(k, rs[0], trusted, lintReasons(p, trusted))
			}
		}
	}
}

// ---------------------------------------------------------------------

func lintBase() pipe {
	return &yaml.Pipeline{Kind: "pipeline", Name: "default",
		Steps: []*yaml.Container{
			{Name: "one", Image: "golang"},
			{Name: "two", Image: "node:8", Commands: []string{"x"}, DependsOn: []string{"one"}},
			{Name: "img", Build: &yaml.Build{Image: "octo/app"}},
		},
		Services: []*yaml.Container{{Name: "db", Image: "redis:4"}, {Name: "cache", Image: "memcached"}},
		Volumes:  []*yaml.Volume{{Name: "vol", EmptyDir: &yaml.VolumeEmptyDir{}}},
	}
}

func privDims() []Dim[ctr] {
	return []Dim[ctr]{
		D("privileged", func(c ctr) { c.Privileged = true }),
		D("devices", func(c ctr) { c.Devices = []*yaml.VolumeDevice{{Name: "vol", DevicePath: "/dev/x"}} }, func(c ctr) { c.Devices = []*yaml.VolumeDevice{{}} }),
		D("dns", func(c ctr) { c.DNS = []string{"1.1.1.1"} }, func(c ctr) { c.DNS = []string{""} }),
		D("dns_search", func(c ctr) { c.DNSSearch = []string{"x.com"} }),
		D("extra_hosts", func(c ctr) { c.ExtraHosts = []string{"a:1"} }),
		D("network_mode", func(c ctr) { c.Network = "host" }, func(c ctr) { c.Network = "none" }),
		D("ports", func(c ctr) { c.Ports = []*yaml.Port{{Port: 80, Host: 80}} }, func(c ctr) { c.Ports = []*yaml.Port{{Port: 80}, {Host: 1}} }, func(c ctr) { c.Ports = []*yaml.Port{{Port: 80}} }, func(c ctr) { c.Ports = []*yaml.Port{{Port: 80, Host: 8080, Protocol: "udp"}, {Port: 1}} }),
		D("harmless", func(c ctr) { c.Detach = true }, func(c ctr) { c.Commands = []string{"y"} }, func(c ctr) { c.Failure = "ignore" }, func(c ctr) { c.Pull = "never" },
			func(c ctr) { c.Settings = map[string]*yaml.Parameter{"privileged": {Value: true}} }, func(c ctr) { c.User = "root" }, func(c ctr) { c.When.Event.Include = []string{"x"} }, func(c ctr) { c.Entrypoint = []string{"x"} },
			func(c ctr) { c.Image = "plugins/docker" }, func(c ctr) { c.Volumes = []*yaml.VolumeMount{{Name: "vol", MountPath: "/x"}} }),
	}
}

func positions(ds []Dim[ctr]) []Dim[pipe] {
	var out []Dim[pipe]
	for i := 0; i < 3; i++ {
		i := i
		out = append(out, prefixDims(fmt.Sprintf("step%d.", i), func(p pipe) ctr { return p.Steps[i] }, ds)...)
	}
	for i := 0; i < 2; i++ {
		i := i
		out = append(out, prefixDims(fmt.Sprintf("svc%d.", i), func(p pipe) ctr { return p.Services[i] }, ds)...)
	}
	return out
}

func volDims() []Dim[pipe] {
	host := func() *yaml.Volume { return &yaml.Volume{Name: "h", HostPath: &yaml.VolumeHostPath{Path: "/x"}} }
	mem := func() *yaml.Volume {
		return &yaml.Volume{Name: "m", EmptyDir: &yaml.VolumeEmptyDir{Medium: "memory", SizeLimit: 1}}
	}
	tmp := func() *yaml.Volume { return &yaml.Volume{Name: "t", EmptyDir: &yaml.VolumeEmptyDir{}} }
	set := func(f ...func() *yaml.Volume) func(pipe) {
		return func(p pipe) {
			p.Volumes = nil
			for _, x := range f {
				p.Volumes = append(p.Volumes, x())
			}
		}
	}
	return []Dim[pipe]{
		D("volumes", set(host), set(mem), set(tmp, host), set(host, tmp), set(tmp, mem), set(mem, tmp), set(mem, host), set(host, mem), set(tmp, tmp), set(tmp, tmp, host), set(),
			func(p pipe) {
				p.Volumes = []*yaml.Volume{{Name: "b", EmptyDir: &yaml.VolumeEmptyDir{}, HostPath: &yaml.VolumeHostPath{Path: "/x"}}}
			},
			func(p pipe) { p.Volumes = []*yaml.Volume{{Name: "b", EmptyDir: &yaml.VolumeEmptyDir{Medium: "disk"}}} },
			func(p pipe) { p.Volumes = []*yaml.Volume{{Name: "b", HostPath: &yaml.VolumeHostPath{}}} },
			func(p pipe) { p.Volumes = []*yaml.Volume{{Name: "b"}} }),
		D("clone", func(p pipe) { p.Clone.Disable = true }),
		D("type", func(p pipe) { p.Type = "docker" }, func(p pipe) { p.Type = "kubernetes" }),
		D("kind", func(p pipe) { p.Kind = "" }, func(p pipe) { p.Kind = "other" }),
		D("os", func(p pipe) { p.Platform.OS = "windows" }),
		D("nosvc", func(p pipe) {
			p.Services = append(p.Services[:0:0], p.Services[:1]...)
			p.Services = append(p.Services, &yaml.Container{Name: "z", Image: "z"})
		}),
	}
}

// lintFields: the whole configuration universe, two-way.
func lintFields(c *Ctx) {
	ds := universe(0)
	c.Deviate("fields", fmt.Sprintf("all choices of <=2 of %d pipeline and container fields deviating, every value, untrusted and trusted", len(ds)), sizes(ds), 2, func(k *K, ix []int) {
		p := basePipeline()
		apply(ds, ix, p)
		k.In(func() string { return names(ds, ix) + "\n" + manifestText(p) })
		k.State(names(ds, ix))
		lintBoth(k, p, false)
	})
}

func runC09(c *Ctx) {
	ds := append(volDims(), positions(privDims())...)
	t := 3
	if !c.Quick {
		t = 4
	}
	c.Deviate("features", fmt.Sprintf("all choices of <=%d privileged or harmless features over three steps, two services and the volumes, every value, untrusted and trusted", t), sizes(ds), t, func(k *K, ix []int) {
		p := lintBase()
		apply(ds, ix, p)
		k.In(func() string { return names(ds, ix) + "\n" + manifestText(p) })
		k.State(names(ds, ix))
		lintBoth(k, p, false)
	})
	c.Deviate("parsed", "the same with <=2 deviations through the parser", sizes(ds), 2, func(k *K, ix []int) {
		p := lintBase()
		apply(ds, ix, p)
		if p.Kind == "" {
			p.Kind = "pipeline"
		}
		k.In(func() string { return names(ds, ix) + "\n" + manifestText(p) })
		k.State("p:" + names(ds, ix))
		lintBoth(k, p, true)
	})
	lintFields(c)
	lintDict(c, true)
	lintBlanks(c)
	words, vals := privilegeWords(), privilegeValues()
	c.Product("words", "every privileged feature x every value out of a list of words it may have x position, in memory and parsed, untrusted and trusted", []int{len(vals), len(words), 5}, func(k *K, ix []int) {
		p := lintBase()
		at := p.Steps[ix[2]%3]
		if ix[2] >= 3 {
			at = p.Services[ix[2]-3]
		}
		vals[ix[0]].set(p, at, words[ix[1]])
		k.In(func() string { return vals[ix[0]].name + "\n" + manifestText(p) })
		k.State(fmt.Sprint(ix))
		lintBoth(k, p, !strings.Contains(words[ix[1]], "\n"))
	})
	ports := []int{-1, 1, 2, 22, 79, 80, 443, 1023, 1024, 1025, 2375, 3000, 5432, 6379, 8000, 8080, 8443, 9999, 10000, 30000, 32767, 32768, 49151, 49152, 65535, 65536, 1 << 31, 0}
	c.Product("ports", "host port x container port x protocol x position of the entry x container, untrusted and trusted", []int{len(ports), len(ports), 4, 3, 5}, func(k *K, ix []int) {
		p := lintBase()
		at := p.Steps[ix[4]%3]
		if ix[4] >= 3 {
			at = p.Services[ix[4]-3]
		}
		x := &yaml.Port{Host: ports[ix[0]], Port: ports[ix[1]], Protocol: []string{"", "tcp", "udp", "x"}[ix[2]]}
		at.Ports = [][]*yaml.Port{{x}, {x, {Port: 1}}, {{Port: 1}, x}}[ix[3]]
		k.In(func() string { return manifestText(p) })
		k.State(fmt.Sprint(ix))
		lintBoth(k, p, false)
	})
}

// privilegeWords are values that a rule might make an exception for.
func privilegeWords() []string {
	out := []string{"bridge", "default", "host", "none", "container:db", "service:db", "container:", "db", "one", "vol", "clone", "workspace-net",
		"Host", "HOST", "host ", " host", "null", "true", "false", "0", "1", "-", "~x",
		"1.1.1.1", "8.8.8.8", "127.0.0.1", "127.0.0.11", "0.0.0.0", "::1", "169.254.169.254", "10.0.0.1", "192.168.0.1", "localhost", "example.com", "local", "svc.cluster.local", ".",
		"db:127.0.0.1", "localhost:127.0.0.1", "a:1", "a:10.0.0.1", "host.docker.internal:host-gateway",
		"/", "/tmp", "/tmp/x", "/var/run/docker.sock", "/run/docker.sock", "/dev/null", "/dev/zero", "/dev/fuse", "/dev/kvm", "/dev/shm", "/cache", "/drone", "/drone/src", "/home", "/home/u", "/etc/localtime", "/etc/ssl", "/etc/ssl/certs", "/proc", "/usr/share/zoneinfo", "./x", "..", "x", "~/.cache", "C:\\x", "//", "/a/../b", "$HOME", "${DRONE_WORKSPACE}", "%TEMP%",
		"memory", "Memory", "MEMORY", "memory ", "ram", "tmpfs", "disk", "hugepages", "memoryx",
		"tcp", "udp", "é", "a b", "a,b", "a\nb"}
	for _, a := range "ab/.:*" {
		out = append(out, string(a)+"x", "x"+string(a))
	}
	return append(out, strings.Repeat("x", 300))
}

type privilegeValue struct {
	name string
	set  func(p pipe, c ctr, w string)
}

func privilegeValues() []privilegeValue {
	return []privilegeValue{
		{"network_mode", func(p pipe, c ctr, w string) { c.Network = w }},
		{"network_mode of a build or detached step", func(p pipe, c ctr, w string) { c.Network, c.Detach, c.Push = w, true, &yaml.Push{Image: "x"} }},
		{"dns", func(p pipe, c ctr, w string) { c.DNS = []string{w} }},
		{"dns twice", func(p pipe, c ctr, w string) { c.DNS = []string{w, w} }},
		{"dns_search", func(p pipe, c ctr, w string) { c.DNSSearch = []string{w} }},
		{"extra_hosts", func(p pipe, c ctr, w string) { c.ExtraHosts = []string{w} }},
		{"extra_hosts twice", func(p pipe, c ctr, w string) { c.ExtraHosts = []string{"", w} }},
		{"device", func(p pipe, c ctr, w string) { c.Devices = []*yaml.VolumeDevice{{Name: w, DevicePath: w}} }},
		{"device of a volume", func(p pipe, c ctr, w string) { c.Devices = []*yaml.VolumeDevice{{Name: "vol", DevicePath: w}} }},
		{"device name", func(p pipe, c ctr, w string) { c.Devices = []*yaml.VolumeDevice{{Name: w}} }},
		{"host path", func(p pipe, c ctr, w string) {
			p.Volumes = append(p.Volumes, &yaml.Volume{Name: "h", HostPath: &yaml.VolumeHostPath{Path: w}})
		}},
		{"mounted host path", func(p pipe, c ctr, w string) {
			p.Volumes = append(p.Volumes, &yaml.Volume{Name: "h", HostPath: &yaml.VolumeHostPath{Path: w}})
			c.Volumes = []*yaml.VolumeMount{{Name: "h", MountPath: w}}
		}},
		{"name of a host volume", func(p pipe, c ctr, w string) {
			p.Volumes = append([]*yaml.Volume{{Name: w, HostPath: &yaml.VolumeHostPath{Path: "/x"}}}, p.Volumes...)
		}},
		{"medium", func(p pipe, c ctr, w string) { p.Volumes[0].EmptyDir.Medium = w }},
		{"name of an in-memory volume", func(p pipe, c ctr, w string) {
			p.Volumes = append(p.Volumes, &yaml.Volume{Name: w, EmptyDir: &yaml.VolumeEmptyDir{Medium: "memory"}})
		}},
		{"image of a privileged container", func(p pipe, c ctr, w string) { c.Privileged, c.Image = true, w }},
		{"name of a privileged container", func(p pipe, c ctr, w string) { c.Privileged, c.Name = true, w+"!" }},
		{"user of a privileged container", func(p pipe, c ctr, w string) { c.Privileged, c.User = true, w }},
		{"type of a privileged pipeline", func(p pipe, c ctr, w string) { c.Privileged, p.Type = true, w }},
		{"kind of a privileged pipeline", func(p pipe, c ctr, w string) { c.Privileged, p.Kind = true, w }},
		{"name of a privileged pipeline", func(p pipe, c ctr, w string) { c.Privileged, p.Name = true, w }},
		{"protocol of a host port", func(p pipe, c ctr, w string) { c.Ports = []*yaml.Port{{Port: 1, Host: 2, Protocol: w}} }},
	}
}

// ---------------------------------------------------------------------

func subset(mask int, l []string) (out []string) {
	for i, s := range l {
		if mask&(1<<uint(i)) != 0 {
			out = append(out, s)
		}
	}
	return
}

// acyclicClosed verifies the consequence stated by the property.
func acyclicClosed(p pipe) string {
	g := map[string][]string{}
	for _, s := range p.Steps {
		g[s.Name] = s.DependsOn
	}
	if !p.Clone.Disable {
		g["clone"] = nil
	}
	col := map[string]int{}
	var visit func(n string) string
	visit = func(n string) string {
		col[n] = 1
		for _, d := range g[n] {
			if _, ok := g[d]; !ok {
				return "dangling dependency " + d
			}
			if col[d] == 1 {
				return "cycle through " + d
			}
			if col[d] == 0 {
				if s := visit(d); s != "" {
					return s
				}
			}
		}
		col[n] = 2
		return ""
	}
	for n := range g {
		if col[n] == 0 {
			if s := visit(n); s != "" {
				return s
			}
		}
	}
	return ""
}

func lintGraph(k *K, p pipe) {
	k.In(func() string { return manifestText(p) })
	reasons := graphReasons(p)
	for _, c := range append(append([]*yaml.Container{}, p.Steps...), p.Services...) {
		if c.Name == "" {
			reasons = append(reasons, "no name")
		}
	}
	lintAgainst(k, p, false, reasons)
	if len(reasons) == 0 {
		if s := acyclicClosed(p); s != "" {
			k.Fail("model", "an accepted graph has a %s", s)
		}
	}
}

// trickyNames are names that careless comparisons confuse.
var trickyNames = []string{"a", "A", " a", "a ", "aa", "a.b", "a/b", "a_b", "a-b", "a b", "a*", "*", "a,b", "a:b", "é", "e\u0301", "É", "1", "01", "null", "", "clone", "Clone", "CLONE", " clone", "clone ", "clone_1", "a\nb", "\u212a", "k"}

func runC10(c *Ctx) {
	lintDict(c, false)
	nm := []string{"a", "b", "clone", ""}
	dp := []string{"a", "b", "clone", "x"}
	svcs := [][]string{nil, {"s"}, {"a"}, {"clone"}, {"s", "s"}, {"x", "b"}}
	step := func(names, deps []string, x int) *yaml.Container {
		return &yaml.Container{Name: names[x>>uint(len(deps))], Image: "i", DependsOn: subset(x&(1<<uint(len(deps))-1), deps)}
	}
	per := len(nm) << uint(len(dp))
	for n := 0; n <= 3; n++ {
		dims := []int{2, len(svcs)}
		for i := 0; i < n; i++ {
			dims = append(dims, per)
		}
		c.Product(fmt.Sprintf("steps-%d", n), "every name out of a, b, clone, empty and every dependency set over a, b, clone, unknown for each step; clone on/off; service names", dims, func(k *K, ix []int) {
			p := &yaml.Pipeline{Kind: "pipeline"}
			p.Clone.Disable = ix[0] == 1
			for _, x := range ix[2:] {
				p.Steps = append(p.Steps, step(nm, dp, x))
			}
			for _, s := range svcs[ix[1]] {
				p.Services = append(p.Services, &yaml.Container{Name: s, Image: "i", DependsOn: []string{"a"}})
			}
			lintGraph(k, p)
			k.State(fmt.Sprint(ix))
		})
	}
	// four steps, distinct names, every dependency relation
	four := []string{"a", "b", "c", "d"}
	deps := []string{"a", "b", "c", "d", "clone"}
	c.Product("relations-4", "four distinctly named steps, every dependency relation over them and clone, clone on/off", []int{2, 32, 32, 32, 32}, func(k *K, ix []int) {
		p := &yaml.Pipeline{Kind: "pipeline"}
		p.Clone.Disable = ix[0] == 1
		for i, x := range ix[1:] {
			p.Steps = append(p.Steps, &yaml.Container{Name: four[i], Image: "i", DependsOn: subset(x, deps)})
		}
		lintGraph(k, p)
		k.State(fmt.Sprint(ix))
	})
	// order of entries inside depends_on and repeated entries
	c.Words("lists", "third step with every dependency list of up to four entries over a, b, own name, later, unknown, clone", 6, 0, 4, func(k *K, w []int) {
		al := []string{"a", "b", "me", "later", "nope", "clone"}
		for _, dis := range []bool{false, true} {
			p := &yaml.Pipeline{Kind: "pipeline", Steps: []*yaml.Container{{Name: "a", Image: "i"}, {Name: "b", Image: "i"}, {Name: "me", Image: "i"}, {Name: "later", Image: "i"}}, Services: []*yaml.Container{{Name: "nope", Image: "i"}}}
			p.Clone.Disable = dis
			for _, x := range w {
				p.Steps[2].DependsOn = append(p.Steps[2].DependsOn, al[x])
			}
			lintGraph(k, p)
			k.State(fmt.Sprint("l", dis, w))
		}
	})
	// names that differ only a little are different names
	tn := trickyNames
	// step kinds do not matter to names and dependencies
	sk := []func(s ctr){func(s ctr) {}, func(s ctr) { s.Image, s.Build = "", &yaml.Build{Image: "b"} }, func(s ctr) { s.Detach = true }, func(s ctr) { s.Commands = []string{"x"} }, func(s ctr) { s.Push = &yaml.Push{Image: "b"} }, func(s ctr) { s.When.Event.Include = []string{"push"} }, func(s ctr) { s.Failure = "ignore" }, func(s ctr) { s.Privileged = true }}
	kn := []string{"a", "b", "clone"}
	c.Product("kinds", "kinds, names and dependencies of two steps and a third or a service x clone on/off", []int{len(sk), len(sk), len(sk), 3, 3, 3, 4, 2, 2}, func(k *K, ix []int) {
		p := &yaml.Pipeline{Kind: "pipeline"}
		for i := 0; i < 3; i++ {
			s := &yaml.Container{Name: kn[ix[3+i]], Image: "i"}
			sk[ix[i]](s)
			if i == 2 && ix[7] == 1 {
				p.Services = append(p.Services, s)
				continue
			}
			if i == 1 {
				s.DependsOn = [][]string{nil, {"a"}, {"b"}, {"clone"}}[ix[6]]
			}
			p.Steps = append(p.Steps, s)
		}
		p.Clone.Disable = ix[8] == 1
		k.In(func() string { return manifestText(p) })
		k.State(fmt.Sprint("k", ix))
		lintBoth(k, p, false)
	})
	c.Product("names", "every three of the tricky names as two step names and a dependency (of the second step, or of a third), clone on/off", []int{len(tn), len(tn), len(tn), 4}, func(k *K, ix []int) {
		x, y, z := tn[ix[0]], tn[ix[1]], tn[ix[2]]
		p := &yaml.Pipeline{Kind: "pipeline", Steps: []*yaml.Container{{Name: x, Image: "i"}, {Name: y, Image: "i"}}}
		p.Clone.Disable = ix[3]&1 == 1
		if ix[3]&2 == 0 {
			p.Steps[1].DependsOn = []string{z}
		} else {
			p.Steps = append(p.Steps, &yaml.Container{Name: "third", Image: "i", DependsOn: []string{z}})
		}
		lintGraph(k, p)
		k.State(fmt.Sprint("n", ix))
	})
	ml := 20
	if !c.Quick {
		ml = 60
	}
	c.Product("long", fmt.Sprintf("chains of up to %d steps with one more dependency between any two of them", ml), []int{ml, ml, ml}, func(k *K, ix []int) {
		n, i, j := ix[0]+1, ix[1], ix[2]
		if i >= n || j >= n {
			return
		}
		p := &yaml.Pipeline{Kind: "pipeline"}
		for q := 0; q < n; q++ {
			s := &yaml.Container{Name: fmt.Sprintf("s%d", q), Image: "i"}
			if q > 0 {
				s.DependsOn = []string{fmt.Sprintf("s%d", q-1)}
			}
			p.Steps = append(p.Steps, s)
		}
		p.Steps[i].DependsOn = append(p.Steps[i].DependsOn, p.Steps[j].Name)
		lintGraph(k, p)
		k.State(fmt.Sprint("long", ix))
	})
	if !c.Quick {
		nm4 := []string{"a", "b", "c", "clone"}
		dp4 := []string{"a", "b", "c", "clone"}
		c.Product("steps-4", "four steps, every name out of a, b, c, clone and every dependency set over them, clone on/off", []int{2, 64, 64, 64, 64}, func(k *K, ix []int) {
			p := &yaml.Pipeline{Kind: "pipeline"}
			p.Clone.Disable = ix[0] == 1
			for _, x := range ix[1:] {
				p.Steps = append(p.Steps, step(nm4, dp4, x))
			}
			lintGraph(k, p)
		})
		five := []string{"a", "b", "c", "d", "e"}
		c.Product("relations-5", "five distinctly named steps, every dependency relation over them", []int{32, 32, 32, 32, 32}, func(k *K, ix []int) {
			p := &yaml.Pipeline{Kind: "pipeline"}
			for i, x := range ix {
				p.Steps = append(p.Steps, &yaml.Container{Name: five[i], Image: "i", DependsOn: subset(x, five)})
			}
			lintGraph(k, p)
		})
	}
}

// ---------------------------------------------------------------------

func manifestReasons(rs []yaml.Resource) (r []string) {
	pos := map[string]int{}
	for i, x := range rs {
		p, ok := x.(*yaml.Pipeline)
		if !ok {
			continue
		}
		if _, dup := pos[p.Name]; dup {
			r = append(r, "pipeline "+p.Name+" twice")
		}
		for _, d := range p.DependsOn {
			if at, ok := pos[d]; !ok || at >= i || d == p.Name {
				r = append(r, "dependency on "+d)
			}
		}
		if _, dup := pos[p.Name]; !dup {
			pos[p.Name] = i
		}
		if (p.Kind == "" || p.Kind == "pipeline") && (p.Type == "" || p.Type == "docker") {
			r = append(r, platformReasons(p.Platform)...)
		}
	}
	return
}

func lintManifest(k *K, rs []yaml.Resource) {
	k.In(func() string { return manifestText(rs...) })
	reasons := manifestReasons(rs)
	for _, trusted := range []bool{false, true} {
		err := linter.Manifest(&yaml.Manifest{Resources: rs}, trusted)
		k.Step(1)
		k.Agree(1)
		if err == nil && len(reasons) > 0 {
			k.Fail("accepted", "manifest lint accepts: %s", strings.Join(reasons, ", "))
		}
		if err != nil && len(reasons) == 0 {
			k.Fail("rejected", "manifest lint rejects a well-formed manifest: %v", err)
		}
	}
}

func runC11(c *Ctx) {
	lintManifestDict(c)
	type plat struct {
		kind, typ string
		p         yaml.Platform
	}
	plats := []plat{
		{"pipeline", "", yaml.Platform{}},
		{"pipeline", "docker", yaml.Platform{OS: "darwin"}},
		{"pipeline", "", yaml.Platform{Arch: "mips"}},
		{"pipeline", "kubernetes", yaml.Platform{OS: "darwin", Arch: "mips"}},
		{"other", "", yaml.Platform{OS: "darwin"}},
		{"", "", yaml.Platform{OS: "windows", Arch: "riscv"}},
		{"", "docker", yaml.Platform{OS: "linux", Arch: "arm64"}},
	}
	others := []yaml.Resource{
		&yaml.Secret{Kind: "secret", Name: "a"}, &yaml.Cron{Kind: "cron", Name: "a"}, &yaml.Registry{Kind: "registry"}, &yaml.Signature{Kind: "signature"},
	}
	build := func(nm, dp []string, pl []plat) []yaml.Resource {
		var out []yaml.Resource
		for _, n := range nm {
			for m := 0; m < 1<<uint(len(dp)); m++ {
				for _, x := range pl {
					out = append(out, &yaml.Pipeline{Kind: x.kind, Type: x.typ, Platform: x.p, Name: n, DependsOn: subset(m, dp)})
				}
			}
		}
		return append(out, others...)
	}
	run := func(name, bound string, al []yaml.Resource, lo, hi int) {
		c.Words(name, bound, len(al), lo, hi, func(k *K, w []int) {
			var rs []yaml.Resource
			for _, x := range w {
				rs = append(rs, al[x])
			}
			lintManifest(k, rs)
			k.State(name + fmt.Sprint(w))
		})
	}
	run("manifests-2", "all manifests of <=2 resources: names a, b, empty; dependency sets over a, b, empty, unknown; seven kind/type/platform classes; the other kinds", build([]string{"a", "b", ""}, []string{"a", "b", "", "x"}, plats), 0, 2)
	run("manifests-3", "all manifests of 3 resources over names a, b; dependency sets over a, b, unknown; four platform classes", build([]string{"a", "b"}, []string{"a", "b", "x"}, plats[:4]), 3, 3)
	run("manifests-4", "all manifests of 4 resources over names a, b, c; dependency sets over them", build([]string{"a", "b", "c"}, []string{"a", "b", "c"}, plats[:1]), 4, 4)
	nm := []string{"a", "b", "c", "d"}
	c.Product("relations-4", "four distinctly named pipelines, every dependency relation, with and without other resources between them", []int{2, 16, 16, 16, 16}, func(k *K, ix []int) {
		var rs []yaml.Resource
		for i, x := range ix[1:] {
			if ix[0] == 1 {
				rs = append(rs, others[i])
			}
			rs = append(rs, &yaml.Pipeline{Kind: "pipeline", Name: nm[i], DependsOn: subset(x, nm)})
		}
		lintManifest(k, rs)
		k.State(fmt.Sprint("r", ix))
	})
	tn := trickyNames
	c.Product("names", "every three of the tricky names as two pipeline names and a dependency of the second", []int{len(tn), len(tn), len(tn), 2}, func(k *K, ix []int) {
		x, y, z := tn[ix[0]], tn[ix[1]], tn[ix[2]]
		rs := []yaml.Resource{&yaml.Pipeline{Kind: "pipeline", Name: x}}
		if ix[3] == 1 {
			rs = append(rs, &yaml.Secret{Kind: "secret", Name: z})
		}
		rs = append(rs, &yaml.Pipeline{Kind: "pipeline", Name: y, DependsOn: []string{z}})
		lintManifest(k, rs)
		k.State(fmt.Sprint("n", ix))
	})
	ml := 20
	if !c.Quick {
		ml = 60
	}
	c.Product("long", fmt.Sprintf("chains of up to %d pipelines with one more dependency between any two of them", ml), []int{ml, ml, ml}, func(k *K, ix []int) {
		n, i, j := ix[0]+1, ix[1], ix[2]
		if i >= n || j >= n {
			return
		}
		var rs []yaml.Resource
		for q := 0; q < n; q++ {
			s := &yaml.Pipeline{Kind: "pipeline", Name: fmt.Sprintf("s%d", q)}
			if q > 0 {
				s.DependsOn = []string{fmt.Sprintf("s%d", q-1)}
			}
			if q == i {
				s.DependsOn = append(s.DependsOn, fmt.Sprintf("s%d", j))
			}
			rs = append(rs, s)
		}
		lintManifest(k, rs)
		k.State(fmt.Sprint("long", ix))
	})
	osn := []string{"", "linux", "windows", "darwin", "Linux", "freebsd", "linux ", "solaris"}
	arn := []string{"", "arm", "arm64", "amd64", "ppc64le", "s390x", "386", "x86_64", "AMD64", "mips", "ppc64", "armhf"}
	typ := []string{"", "docker", "kubernetes", "exec", "ssh", "Docker"}
	knd := []string{"", "pipeline", "Pipeline", "other"}
	c.Product("platforms", "every os x arch x type x kind, as first and second pipeline", []int{len(osn), len(arn), len(typ), len(knd), 2}, func(k *K, ix []int) {
		p := &yaml.Pipeline{Name: "p", Kind: knd[ix[3]], Type: typ[ix[2]], Platform: yaml.Platform{OS: osn[ix[0]], Arch: arn[ix[1]]}}
		rs := []yaml.Resource{p}
		if ix[4] == 1 {
			rs = []yaml.Resource{&yaml.Pipeline{Name: "q", Kind: "pipeline"}, p}
		}
		lintManifest(k, rs)
		k.State(fmt.Sprint("p", ix))
	})
	if !c.Quick {
		run("manifests-3-wide", "all manifests of 3 resources: names a, b, empty; dependency sets over a, b, empty, unknown; seven classes", build([]string{"a", "b", ""}, []string{"a", "b", "", "x"}, plats), 3, 3)
	}
}

// ---------------------------------------------------------------------

func runC12(c *Ctx) {
	bad := []Dim[ctr]{
		D("name", func(c ctr) { c.Name = "" }, func(c ctr) { c.Name = "other name" }, func(c ctr) { c.Name = " " }),
		D("image", func(c ctr) { c.Image = "" }, func(c ctr) { c.Image = "x" }),
		D("build", func(c ctr) { c.Build = &yaml.Build{} }, func(c ctr) { c.Build = &yaml.Build{Context: "x"} }, func(c ctr) { c.Build = &yaml.Build{Image: "y"} }, func(c ctr) { c.Build = nil }),
		D("volumes", func(c ctr) { c.Volumes = []*yaml.VolumeMount{{Name: "workspace", MountPath: "/x"}} },
			func(c ctr) { c.Volumes = []*yaml.VolumeMount{{Name: "vol"}, {Name: "_workspace", MountPath: "/x"}} },
			func(c ctr) { c.Volumes = []*yaml.VolumeMount{{Name: "_docker_socket", MountPath: "/x"}, {Name: "vol"}} },
			func(c ctr) { c.Volumes = []*yaml.VolumeMount{{Name: "vol"}, {Name: "v"}, {Name: "_docker_socket"}} },
			func(c ctr) {
				c.Volumes = []*yaml.VolumeMount{{Name: "Workspace"}, {Name: "undeclared"}, {Name: ""}, {Name: "docker_socket"}}
			}),
		D("push", func(c ctr) { c.Push = &yaml.Push{} }),
		D("mode", func(c ctr) { c.Detach = true }, func(c ctr) { c.Commands = []string{"x"} }, func(c ctr) { c.Privileged = true }),
	}
	pd := []Dim[pipe]{
		D("volumes", func(p pipe) { p.Volumes[0].Name = "workspace" }, func(p pipe) { p.Volumes[0].Name = "_workspace" }, func(p pipe) { p.Volumes[0].Name = "_docker_socket" },
			func(p pipe) { p.Volumes = append(p.Volumes, &yaml.Volume{Name: "_docker_socket"}) },
			func(p pipe) {
				p.Volumes = append(p.Volumes, &yaml.Volume{Name: "workspace", HostPath: &yaml.VolumeHostPath{Path: "/"}})
			},
			func(p pipe) { p.Volumes = append(p.Volumes, &yaml.Volume{Name: "_workspace"}, &yaml.Volume{Name: "z"}) },
			func(p pipe) {
				p.Volumes = []*yaml.Volume{{Name: "work_space"}, {}, {Name: "docker_socket"}, {Name: "vol"}, {Name: "vol"}}
			},
			func(p pipe) {
				p.Volumes[0] = &yaml.Volume{Name: "_docker_socket", HostPath: &yaml.VolumeHostPath{Path: "/var/run/docker.sock"}}
			}),
		D("os", func(p pipe) { p.Platform.OS = "linux" }, func(p pipe) { p.Platform.OS = "windows" }, func(p pipe) { p.Platform.OS = "darwin" }, func(p pipe) { p.Platform.OS = "Linux" }),
		D("arch", func(p pipe) { p.Platform.Arch = "amd64" }, func(p pipe) { p.Platform.Arch = "mips" }, func(p pipe) { p.Platform.Arch = "386" }),
		D("variant", func(p pipe) { p.Platform.Variant = "bogus" }, func(p pipe) { p.Platform.Version = "0" }),
		D("type", func(p pipe) { p.Type = "docker" }, func(p pipe) { p.Type = "kubernetes" }),
		D("kind", func(p pipe) { p.Kind = "" }, func(p pipe) { p.Kind = "other" }),
		D("name", func(p pipe) { p.Name = "" }),
		D("clone", func(p pipe) { p.Clone.Disable = true }),
		D("steps", func(p pipe) { p.Clone.Depth = 1 }),
	}
	ds := append(pd, positions(bad)...)
	t := 3
	if !c.Quick {
		t = 4
	}
	c.Deviate("rules", fmt.Sprintf("all choices of <=%d rule violations or near-violations over three steps, two services, volumes and platform, untrusted and trusted", t), sizes(ds), t, func(k *K, ix []int) {
		p := lintBase()
		apply(ds, ix, p)
		k.In(func() string { return names(ds, ix) + "\n" + manifestText(p) })
		k.State(names(ds, ix))
		lintBoth(k, p, false)
	})
	tn := trickyNames
	c.Product("names", "every three of the tricky names as two pipeline names and a dependency of the second", []int{len(tn), len(tn), len(tn), 2}, func(k *K, ix []int) {
		x, y, z := tn[ix[0]], tn[ix[1]], tn[ix[2]]
		rs := []yaml.Resource{&yaml.Pipeline{Kind: "pipeline", Name: x}}
		if ix[3] == 1 {
			rs = append(rs, &yaml.Secret{Kind: "secret", Name: z})
		}
		rs = append(rs, &yaml.Pipeline{Kind: "pipeline", Name: y, DependsOn: []string{z}})
		lintManifest(k, rs)
		k.State(fmt.Sprint("n", ix))
	})
	ml := 20
	if !c.Quick {
		ml = 60
	}
	c.Product("long", fmt.Sprintf("chains of up to %d pipelines with one more dependency between any two of them", ml), []int{ml, ml, ml}, func(k *K, ix []int) {
		n, i, j := ix[0]+1, ix[1], ix[2]
		if i >= n || j >= n {
			return
		}
		var rs []yaml.Resource
		for q := 0; q < n; q++ {
			s := &yaml.Pipeline{Kind: "pipeline", Name: fmt.Sprintf("s%d", q)}
			if q > 0 {
				s.DependsOn = []string{fmt.Sprintf("s%d", q-1)}
			}
			if q == i {
				s.DependsOn = append(s.DependsOn, fmt.Sprintf("s%d", j))
			}
			rs = append(rs, s)
		}
		lintManifest(k, rs)
		k.State(fmt.Sprint("long", ix))
	})
	osn := []string{"", "linux", "windows", "darwin", "Linux", "freebsd", "linux ", "solaris", "netbsd", "openbsd", "plan9", "android", "win"}
	arn := []string{"", "arm", "arm64", "amd64", "ppc64le", "s390x", "386", "x86_64", "AMD64", "mips", "ppc64", "armhf", "arm ", "aarch64", "riscv64"}
	c.Product("platforms", "every os x arch x trust", []int{len(osn), len(arn), 2}, func(k *K, ix []int) {
		p := lintBase()
		p.Platform = yaml.Platform{OS: osn[ix[0]], Arch: arn[ix[1]]}
		k.In(func() string { return manifestText(p) })
		k.State(fmt.Sprint("p", ix))
		lintAgainst(k, p, ix[2] == 1, lintReasons(p, ix[2] == 1))
	})
	others := otherResources()
	others = append(others, &yaml.Registry{Kind: "registry", Data: map[string]string{}}, &yaml.Registry{Kind: "registry", Data: map[string]string{"": ""}})
	c.Range("other-kinds", "all presence patterns of the cron, secret, registry and signature fields, untrusted and trusted, also through the parser", len(others), func(k *K, i int) {
		r := others[i]
		text := manifestText(r)
		k.In(func() string { return text })
		k.State(text)
		var reasons []string
		switch r := r.(type) {
		case *yaml.Cron:
			if r.Spec.Branch == "" {
				reasons = append(reasons, "no branch")
			}
		case *yaml.Secret:
			if r.Data == "" && r.Get.Path == "" && r.Get.Name == "" {
				reasons = append(reasons, "no data and no external path or name")
			}
		case *yaml.Registry:
			if len(r.Data) == 0 {
				reasons = append(reasons, "no credentials")
			}
		case *yaml.Signature:
			if r.Hmac == "" {
				reasons = append(reasons, "no hmac")
			}
		}
		for _, trusted := range []bool{false, true} {
			lintAgainst(k, r, trusted, reasons)
			if rs := mustParse(k, "parse", text); len(rs) == 1 {
				lintAgainst(k, rs[0], trusted, reasons)
			}
		}
	})
	lintFields(c)
	lintDict(c, false)
	if !c.Quick {
		full := universe(2)
		c.Deviate("fields-3", "all choices of <=3 fields of the configuration universe, two values each", sizes(full), 3, func(k *K, ix []int) {
			p := basePipeline()
			apply(full, ix, p)
			k.In(func() string { return names(full, ix) + "\n" + manifestText(p) })
			lintBoth(k, p, false)
		})
	}
}
