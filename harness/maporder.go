package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/drone/drone-runtime/engine"
	"github.com/drone/drone-yaml/yaml"
	"github.com/drone/drone-yaml/yaml/compiler"
	"github.com/drone/drone-yaml/yaml/compiler/transform"
	"github.com/drone/drone-yaml/yaml/converter"
	"github.com/drone/drone-yaml/yaml/linter"
	"github.com/drone/drone-yaml/yaml/pretty"
	"github.com/drone/drone-yaml/yaml/signer"
)

func init() { register("C36", runC36) }

// ---------------------------------------------------------------------
// C36: every choice of map iteration order
// ---------------------------------------------------------------------

// mapOrder packs the order in which the eight slots of a small map are
// visited.
func mapOrder(perm [8]int) uint64 {
	v := uint64(1) << 63
	for i, s := range perm {
		v |= uint64(s) << (3 * uint(i))
	}
	return v
}

// permutations of 0..n-1, identity first
func permutations(n int) [][]int {
	if n == 0 {
		return [][]int{nil}
	}
	var out [][]int
	var rec func(cur []int, used int)
	rec = func(cur []int, used int) {
		if len(cur) == n {
			out = append(out, append([]int(nil), cur...))
			return
		}
		for i := 0; i < n; i++ {
			if used&(1<<uint(i)) == 0 {
				rec(append(cur, i), used|1<<uint(i))
			}
		}
	}
	rec(nil, 0)
	return out
}

// ordersOf lists the orders explored for a map with n entries: all of them
// up to four entries, above that rotations, reversal and swaps of neighbours.
func ordersOf(n int) []uint64 {
	full := func(p []int) uint64 {
		var a [8]int
		for i := range a {
			a[i] = i
			if i < len(p) {
				a[i] = p[i]
			}
		}
		return mapOrder(a)
	}
	var out []uint64
	if n <= 4 {
		for _, p := range permutations(n)[1:] {
			out = append(out, full(p))
		}
		return out
	}
	if n > 8 {
		for i := uint64(1); i < 12; i++ {
			out = append(out, i*7)
		}
		return out
	}
	for r := 1; r < n; r++ {
		p := make([]int, n)
		for i := range p {
			p[i] = (i + r) % n
		}
		out = append(out, full(p))
	}
	p := make([]int, n)
	for i := range p {
		p[i] = n - 1 - i
	}
	out = append(out, full(p))
	for s := 0; s+1 < n; s++ {
		p := make([]int, n)
		for i := range p {
			p[i] = i
		}
		p[s], p[s+1] = s+1, s
		out = append(out, full(p))
	}
	return out
}

// globalOrders are the orders imposed on all maps at once.
func globalOrders() []uint64 {
	out := []uint64{mapOrder([8]int{0, 1, 2, 3, 4, 5, 6, 7})}
	out = append(out, ordersOf(4)...)
	return append(out, ordersOf(8)...)
}

type mapOp struct {
	name string
	run  func() string
}

var orderOpts = copts{creds: []byte("https://a:b@c\n"), skip: &compiler.SkipData{Branch: "master", Event: "push"}, whitelist: []string{"plugins/docker"}, host: "/tmp/x"}

func orderTransforms() []func(*engine.Spec) {
	return []func(*engine.Spec){
		transform.WithEnviron(map[string]string{"A": "1", "B": "2", "C": "3", "D": "4"}),
		transform.WithEnviron(map[string]string{"D": "5", "E": "6", "A": "7"}),
		transform.WithLables(map[string]string{"l1": "1", "l2": "2", "l3": "3"}),
		transform.WithSecrets(map[string]string{"s1": "1", "s2": "2", "s3": "3"}),
		transform.WithSecretFunc(func(n string) *engine.Secret {
			return &engine.Secret{Metadata: engine.Metadata{Name: n}, Data: "v" + n}
		}),
		transform.WithVolumes(map[string]string{"/h1": "/c1", "/h2": "/c2", "/h3": "/c3"}),
		transform.WithVolumeSlice([]string{"/h1:/d1", "/h2:/d2", "/h1:/d3", "/h2:/d2"}),
		transform.WithNetworks([]string{"n1", "n2"}),
		transform.WithNetrc("m", "u", "p"),
		transform.WithLimits(1, 2),
		transform.WithProxy(),
		transform.Include([]string{"one", "two", "three", "build", "a", "b"}),
	}
}

// stablePlan renders a plan without the freedom the property grants.
func stablePlan(s *engine.Spec, fns ...func(*engine.Spec)) string {
	base := clone(s)
	transform.Combine(fns...)(s)
	out := canonOver(nil, s, base, false)
	for i, id := range planIDs(base) {
		out = strings.ReplaceAll(out, id, fmt.Sprintf("<id%d>", i))
	}
	return out
}

// mapOps lists the operations on one input.
func mapOps(text string, meta converter.Metadata, compile bool) []mapOp {
	data := []byte(text)
	manifest := func(f func(m *yaml.Manifest) string) func() string {
		return func() string {
			m, err := yaml.ParseString(text)
			if err != nil {
				return err.Error()
			}
			return f(m)
		}
	}
	plans := func(o copts, fns ...func(*engine.Spec)) func() string {
		return manifest(func(m *yaml.Manifest) string {
			var b strings.Builder
			for _, r := range m.Resources {
				if p, ok := r.(*yaml.Pipeline); ok && linter.Lint(p, true) == nil {
					b.WriteString(stablePlan(o.compiler().Compile(p), fns...) + "\n")
				}
			}
			return b.String()
		})
	}
	signed := func() string {
		out, err := signer.SignUpdate(data, signer.KeyString(keyA))
		ok, verr := signer.Verify(out, signer.KeyString(keyA))
		mac, serr := signer.Sign(data, signer.KeyString(keyA))
		return fmt.Sprint(string(out), errS(err), ok, errS(verr), mac, errS(serr))
	}
	ops := []mapOp{
		{"parse", manifest(func(m *yaml.Manifest) string {
			var out []yaml.Resource
			for _, r := range m.Resources {
				out = append(out, normResource(r, false))
			}
			return js(out)
		})},
		{"lint", manifest(func(m *yaml.Manifest) string {
			var b strings.Builder
			for _, trusted := range []bool{true, false} {
				for _, r := range m.Resources {
					b.WriteString(errS(linter.Lint(r, trusted)) + "\n")
				}
				b.WriteString(errS(linter.Manifest(m, trusted)) + "\n")
			}
			return b.String()
		})},
		{"print", manifest(func(m *yaml.Manifest) string {
			var b bytes.Buffer
			pretty.Print(&b, m)
			return b.String()
		})},
		{"encode", manifest(func(m *yaml.Manifest) string {
			out, err := m.Encode()
			return string(out) + errS(err)
		})},
		{"sign", signed},
		{"convert", func() string {
			out, err := converter.Convert(data, meta)
			return string(out) + errS(err)
		}},
	}
	if compile {
		ops = append(ops, mapOp{"compile", plans(copts{})}, mapOp{"compile-options", plans(orderOpts)}, mapOp{"transform", plans(orderOpts, orderTransforms()...)})
	}
	return ops
}

type orderDoc struct {
	name, text string
	meta       converter.Metadata
}

func orderDocs() []orderDoc {
	var out []orderDoc
	url := "https://github.com/octocat/hello"
	for _, d := range robustDocs {
		f := ".drone.yml"
		if len(d.files) > 0 {
			f = d.files[0]
		}
		out = append(out, orderDoc{d.name, d.text, converter.Metadata{Filename: f, URL: url, Ref: "refs/heads/master"}})
	}
	for i, t := range orderTexts {
		f, ref := ".drone.yml", "refs/heads/release"
		switch {
		case strings.Contains(t, "script"):
			f = ".gitlab-ci.yml"
			if strings.Contains(t, "pipelines") {
				f = "bitbucket-pipelines.yml"
			}
		}
		out = append(out, orderDoc{fmt.Sprint("multi", i), t, converter.Metadata{Filename: f, URL: url, Ref: ref}})
		if f == "bitbucket-pipelines.yml" {
			out = append(out, orderDoc{fmt.Sprint("multi-tag", i), t, converter.Metadata{Filename: f, URL: url, Ref: "refs/tags/v1.2"}})
		}
	}
	return out
}

// orderTexts have several entries in every map, with entries that interact:
// names that differ in case only, patterns that match the same ref, values
// that contain each other's names.
var orderTexts = []string{
	`kind: pipeline
name: maps
node: {c: 1, a: 2, b: 3, d: 4}
trigger: {matrix: {z: 1, a: 2, m: 3}}
steps:
- name: one
  image: golang
  commands: [a]
  environment: {Z: 1, A: 2, m: 3, a: {from_secret: x}, B: {from_secret: y}}
  settings: {Zed: 1, zED: 2, alpha: {from_secret: x}, ALPHA: {from_secret: z}, nested: {z: 1, a: {q: 1, b: 2, r: [{y: 1, x: 2}]}, m: 3}}
  when: {matrix: {z: 1, a: 2}}
- name: two
  image: plugins/docker
  settings: {b: 1, a: {from_secret: x}, c: [1, {z: 1, y: 2}]}
- name: three
  build: {image: x, args: {z: 1, a: 2, m: 3}, labels: {q: 1, b: 2, r: 3}, cache_from: [a, b]}
services:
- {name: db, image: redis, environment: {b: {from_secret: q}, a: {from_secret: r}, c: 1}}
volumes:
- {name: v1, temp: {}}
- {name: v2, host: {path: /x}}
- {name: v3, temp: {}}
---
kind: registry
data: {z: 1, a: 2, m: 3, b: 4}
---
kind: secret
name: s
data: x
`,
	// keys of equal text
	`kind: pipeline
name: keys
steps:
- name: one
  image: plugins/x
  settings: {n: {"1": a, 1: b, "true": x, true: y, "null": z, ~: w}, l: [{"1": a, 1: b}], m: {x: {"1.5": a, 1.5: b, c: 1}}}
`,
	`kind: pipeline
name: large
node: {a1: 1, a2: 1, a3: 1, a4: 1, a5: 1, a6: 1, a7: 1, a8: 1, a9: 1, a10: 1, a11: 1}
steps:
- name: one
  image: golang
  environment: {A1: 1, A2: 1, A3: 1, A4: {from_secret: q}, A5: 1, A6: 1, A7: 1, A8: 1, A9: 1, A10: {from_secret: x}, A11: 1, a10: 2}
  settings: {a1: 1, a2: {b9: 1, b8: 1, b7: 1, b6: 1, b5: 1, b4: 1, b3: 1, b2: 1, b1: 1, b0: 1}, a3: 1, A3: 2, a4: {from_secret: u}, a5: 1, a6: 1, a7: {from_secret: v}, a8: 1, a9: 1, a10: 1}
`,
	"pipeline:\n" + `  build:
    image: golang:${VER}-${OS}
    environment: {Z: "${VER}", A: "${OS}", M: 3, "${VER}": x, "${OS}": y}
    secrets: [z, a, m]
    commands: ["${A}", "${B}", "${VER}${OS}"]
    settings: {z: 1, a: {y: 1, b: 2}}
    zeta: 1
    alpha: "${A}"
    when: {matrix: {VER: 1, OS: a}, branch: {include: [a, b], exclude: [c]}, event: [push, tag]}
  publish:
    image: plugins/docker
    secrets: [{source: b, target: c}, {source: a, target: d}]
    volumes: ['/v2:/w2', '/v1:/w1', '/v1:/w3', 'x:y']
    when: {matrix: {OS: "b", VER: 2}}
services:
  zdb: {image: "redis:${VER}", environment: {B: 1, A: 2}}
  adb: {image: "mysql:${OS}"}
clone:
  git: {image: plugins/git, volumes: ['/v1:/c1'], depth: "${VER}"}
branches: [master, dev]
matrix:
  VER: ["1", "${OS}", "2"]
  OS: [a, "b", "${A}"]
  A: ["${B}"]
  B: ["x", "${VER}"]
secrets:
  zeta: {vault: secret/z}
  alpha: {driver: vault, driver_opts: {path: secret/x, key: y}}
  mid: {path: a}
  beta: {vault: a.b}
`,
	`x: &b1 {image: golang, environment: {B: 1, A: 2}}
y: &b2 {image: node, commands: [b], zeta: 1, alpha: 2}
pipeline:
` + `  two: {<<: [*b1, *b2], group: g}
  one: {<<: *b2, image: c, when: {matrix: {A: 1, B: 2}}}
services:
  z: {<<: *b1}
  a: {<<: *b2}
matrix:
  include:
  - {B: 2, A: 1, C: 3}
  - {C: 3, A: 2}
  - {A: 1}
secrets: {b: {vault: x}, a: {vault: y}, c: {path: z}}
`,
	"pipeline:\n  a: {image: b, when: {matrix: {Z: 1, Y: 2, X: 3}}}\n  c: {image: '${X}${Y}${Z}'}\nmatrix: {X: [1, 2], Y: [2, 1], Z: [1, 3]}\n",
	"pipeline:\n  a: {image: b, environment: {'${A}': x, '${B}': y, '${A}}': z, k: '${A}} ${A} ${B}'}, settings: {'${B}': 1, '${A}': 2, '1': 3}}\nmatrix: {A: [1, 2], B: [1, 2], 'A}': [3]}\n",
	`image: ruby
variables: {Z: 1, A: 2, M: 3}
services: [postgres, mysql]
zeta: {stage: test, script: [z], variables: {B: 1, A: 2}}
alpha: {stage: build, script: a}
mid: {stage: test, script: [m], image: {name: x, entrypoint: [y]}}
beta: {stage: build, script: [b], allow_failure: true}
.hidden: {script: h}
stages: [build, test]
`,
	"zeta: {script: z}\nalpha: {script: a}\nmid: {script: [m]}\nbeta: {script: b}\nomega: {script: o}\n",
	`image: node
definitions:
  services:
    zdb: {image: redis, variables: {B: 1, A: 2}}
    adb: {image: mysql}
    mdb: {image: mongo, variables: {C: 1, A: 2, B: 3}}
  caches: {z: 1, a: 2, m: 3}
pipelines:
  default: [{step: {script: [d]}}]
  branches:
    'r*': [{step: {script: [r], variables: {B: 1, A: 2}}}]
    'rel*': [{step: {script: [rel]}}]
    'release': [{step: {script: [release]}}]
    '*': [{step: {script: [any]}}]
    'm*': [{step: {script: [m]}}]
  tags:
    'v*': [{step: {script: [v]}}]
    'v1*': [{step: {script: [v1]}}]
    '*': [{step: {script: [anytag]}}]
`,
}

// similarNames differ in ways that normalization would remove.
var similarNames = []string{"a", "A", "a_b", "a-b", "A_B", "A_b", "a.b", "aB", "ab", "a b", "a ", "", "1", "01", "1.0", "true", "True", "~", "${A}", "${X}", "1a", "ä", "Ä", "a/b", "a*", "*", "PLUGIN_a", "plugin_A"}

type nameSlot struct {
	text    string
	meta    converter.Metadata
	compile bool
}

// nameSlots are configurations with a map of names @1, @2 and @3.
func nameSlots() []nameSlot {
	var out []nameSlot
	add := func(text, file, ref string) {
		out = append(out, nameSlot{text, converter.Metadata{Filename: file, URL: "https://github.com/a/b", Ref: ref}, file == ""})
	}
	for _, m := range []string{
		"environment: {@1: x, @2: y, @3: z}", "environment: {@1: {from_secret: x}, @2: {from_secret: y}, @3: z}",
		"settings: {@1: x, @2: y, @3: z}", "settings: {@1: {from_secret: x}, @2: {from_secret: y}, @3: {from_secret: z}}",
		"settings: {n: {@1: x, @2: [y], @3: z}}", "settings: {n: [{@1: {@1: u, @2: v}, @2: y, @3: z}]}",
		"environment: {@1: x}\n  settings: {@2: y, @1: z}",
		"when: {matrix: {@1: x, @2: y, @3: z}}",
	} {
		for _, sec := range []string{"steps", "services"} {
			add("kind: pipeline\nname: p\n"+sec+":\n- name: one\n  image: plugins/x\n  "+m+"\n", "", "")
		}
	}
	add("kind: pipeline\nname: p\nsteps:\n- name: one\n  build: {image: x, args: {@1: x, @2: y, @3: z}, labels: {@2: x, @1: y, @3: z}}\n", "", "")
	add("kind: pipeline\nname: p\nnode: {@1: x, @2: y, @3: z}\nsteps:\n- {name: a, image: b}\n", "", "")
	add("kind: pipeline\nname: p\nsteps:\n- {name: @1, image: b}\n- {name: @2, image: b}\n- {name: @3, image: b, depends_on: [@1, @2]}\nservices:\n- {name: @2, image: c}\n", "", "")
	add("kind: registry\ndata: {@1: x, @2: y, @3: z}\n", "", "")
	add("kind: pipeline\nname: p\nsteps:\n- {name: a, build: @1}\n- {name: b, build: @2}\n- {name: c, image: @1}\n- {name: d, image: @2}\n", "", "")
	for _, m := range []string{
		"environment: {@1: x, @2: y, @3: z}", "environment: ['@', @1, @2]", "secrets: [@1, @2, @3]", "secrets: [{source: @1, target: @2}, {source: @2, target: @1}]",
		"{@1: x, @2: y, @3: z}", "n: {@1: x, @2: y, @3: z}", "environment: {@1: x, @2: y}\n    secrets: [@1, @3]",
		"when: {matrix: {@1: x, @2: y, @3: z}}",
	} {
		if strings.HasPrefix(m, "{") {
			m = "@1: x\n    @2: y\n    @3: z"
		}
		for _, mx := range []string{"", "matrix: {A: [x, '${X}'], X: ['${A}', y]}\n", "matrix: {@1: [x, y], @2: [y, '${a}'], A: [q]}\n"} {
			if strings.Contains(mx, "@1") && strings.Contains(m, "secrets") {
				continue
			}
			add("pipeline:\n  one:\n    image: b\n    "+m+"\n"+mx, ".drone.yml", "")
		}
	}
	add("pipeline:\n  @1: {image: x}\n  @2: {image: y}\nservices:\n  @2: {image: z}\n  @3: {image: z}\nclone:\n  @1: {image: q}\n", ".drone.yml", "")
	add("pipeline:\n  a: {image: x}\nsecrets:\n  @1: {vault: x}\n  @2: {path: y}\n  @3: {driver: vault, driver_opts: {path: z, key: w}}\n", ".drone.yml", "")
	add("pipeline:\n  a: {image: x, volumes: [@1, @2]}\n  b: {image: x, volumes: ['/a:/b', '/A:/b', '/a:/B']}\n", ".drone.yml", "")
	add("pipeline:\n  a: {image: '${@}'}\nmatrix:\n  include:\n  - {@1: x, @2: y}\n  - {@2: x, @3: z}\n", ".drone.yml", "")
	for _, t := range []string{
		"@1: {script: x}\n@2: {script: y}\n@3: {script: z}\n",
		"@1: {stage: build, script: x}\n@2: {stage: test, script: y}\n@3: {stage: test, script: z}\nstages: [build, test]\n",
		"image: a\nvariables: {@1: x, @2: y, @3: z}\njob: {script: x, variables: {@1: u, @2: v}}\n",
	} {
		add(t, ".gitlab-ci.yml", "")
	}
	for _, ref := range []string{"refs/heads/a", "refs/heads/A", "refs/heads/a_b", "refs/tags/a", "refs/tags/a b"} {
		add("image: a\npipelines:\n  default: [{step: {script: [d]}}]\n  branches:\n    @1: [{step: {script: [x]}}]\n    @2: [{step: {script: [y]}}]\n    @3: [{step: {script: [z]}}]\n  tags:\n    @1: [{step: {script: [t]}}]\n    @2: [{step: {script: [u]}}]\n", "bitbucket-pipelines.yml", ref)
	}
	add("image: a\ndefinitions:\n  services:\n    @1: {image: x}\n    @2: {image: y}\n    @3: {image: z}\npipelines:\n  default: [{step: {script: [d], variables: {@1: x, @2: y}}}]\n", "bitbucket-pipelines.yml", "")
	return out
}

var mapFree = make(chan *mapCtl, len(mapCtls))

func init() {
	for i := range mapCtls {
		mapFree <- &mapCtls[i]
	}
}

// mapChoice runs f on this goroutine with control over the map orders.
func mapChoice(f func(m *mapCtl)) {
	m := <-mapFree
	m.reset()
	m.all = globalOrders()[0]
	m.g = goroutineID()
	defer func() {
		m.g = 0
		mapFree <- m
	}()
	f(m)
}

func (m *mapCtl) reset() {
	for i := range m.at {
		m.at[i] = -1
	}
	m.n = 0
	m.mode = 2
}

// same runs an operation with all maps in one order.
func (m *mapCtl) same(op mapOp, order uint64) string {
	m.reset()
	m.mode, m.all = 1, order
	defer func() { m.mode, m.all = 1, globalOrders()[0] }()
	return op.run()
}

// but runs an operation with the given iterations in another order; it
// returns the number of iterations over two or more entries.
func (m *mapCtl) but(op mapOp, at []int, order []uint64) (string, int) {
	m.reset()
	for i := range at {
		m.at[i], m.dev[i] = int64(at[i]), order[i]
	}
	s := op.run()
	m.mode = 1
	return s, int(m.n)
}

func runC36(c *Ctx) {
	if !mapControl {
		fatalf("C36 needs the map order overlay")
	}
	lenv{}.set()
	orders := globalOrders()
	docs := orderDocs()
	// the overlay is in force: the orders are the ones asked for
	c.Range("control", "the explored orders are the ones that the program sees", len(orders), func(k *K, i int) {
		mapChoice(func(ctl *mapCtl) {
			m := map[int]int{}
			for j := 0; j < 8; j++ {
				m[j] = j
			}
			var got [8]int
			ctl.same(mapOp{"", func() string {
				n := 0
				for j := range m {
					got[n] = j
					n++
				}
				return ""
			}}, orders[i])
			k.In(func() string { return fmt.Sprint(got) })
			k.State(fmt.Sprint(got))
			k.Step(1)
			k.Agree(1)
			if mapOrder(got) != orders[i] {
				fatalf("the map order is not controlled: %v", got)
			}
		})
	})
	ops := func(d orderDoc) []mapOp { return mapOps(d.text, d.meta, true) }
	compare := func(k *K, op mapOp, want, got, how string) bool {
		k.Step(1)
		k.Agree(1)
		if want != got {
			k.Fail("order", "%s: %s, the result differs:\n%s", op.name, how, textDiff(want, got))
			return false
		}
		return true
	}
	// the iterations of every operation, found by running it once
	type site struct {
		doc  orderDoc
		op   mapOp
		i, n int
		lens []uint32
		want string
	}
	var sites []*site
	mapChoice(func(m *mapCtl) {
		for _, d := range docs {
			for _, op := range ops(d) {
				want, n := m.but(op, nil, nil)
				if n > len(m.lens) {
					fatalf("too many iterations: %d", n)
				}
				lens := append([]uint32(nil), m.lens[:n]...)
				for i := 0; i < n; i++ {
					sites = append(sites, &site{d, op, i, n, lens, want})
				}
			}
		}
	})
	c.extra["map_iterations"] = len(sites)
	c.Range("single", "every map iteration of every operation on every document, in every order (up to four entries; rotations, reversal and neighbour swaps above)", len(sites), func(k *K, q int) {
		x := sites[q]
		k.In(func() string { return x.op.name + "\n" + x.doc.text })
		mapChoice(func(m *mapCtl) {
			for _, o := range ordersOf(int(x.lens[x.i])) {
				k.State(fmt.Sprint(q, o))
				got, _ := m.but(x.op, []int{x.i}, []uint64{o})
				if !compare(k, x.op, x.want, got, fmt.Sprintf("when iteration %d of %d (over %d entries) is in order %x", x.i, x.n, x.lens[x.i], o)) {
					return
				}
			}
		})
	})
	// all iterations deviate
	global := func(k *K, orders []uint64, ops []mapOp) {
		mapChoice(func(m *mapCtl) {
			for q, op := range ops {
				want := ""
				for g, o := range orders {
					k.State(fmt.Sprint(k.Key, q, g))
					s := m.same(op, o)
					if g == 0 {
						k.Step(1)
						want = s
					} else if !compare(k, op, want, s, fmt.Sprintf("with all maps in order %x", o)) {
						return
					}
				}
			}
		})
	}
	c.Range("documents", "every document under every order of all maps", len(docs), func(k *K, i int) {
		k.In(func() string { return docs[i].text })
		global(k, orders, ops(docs[i]))
	})
	// names that resemble each other, next to each other in a map
	slots := nameSlots()
	c.Product("similar", fmt.Sprintf("every pair of %d similar names (with a third one) in %d maps, under every order (quick: three orders) of all maps with three entries", len(similarNames), len(slots)), []int{len(slots), len(similarNames), len(similarNames)}, func(k *K, ix []int) {
		a, b := similarNames[ix[1]], similarNames[ix[2]]
		if a == b || c.Quick && ix[1] > ix[2] {
			return
		}
		s := slots[ix[0]]
		text := strings.NewReplacer("@1", "\""+a+"\"", "@2", "\""+b+"\"", "@3", "\"A.b \"").Replace(s.text)
		k.In(func() string { return text })
		ops := mapOps(text, s.meta, s.compile)
		if s.meta.Filename != "" {
			ops = ops[5:]
		}
		three := ordersOf(3)
		if c.Quick { // one rotation and the reversal
			three = []uint64{three[2], three[4]}
		}
		global(k, append([]uint64{orders[0]}, three...), ops)
	})
	// manifests and legacy configurations with one (thorough: two) deviating
	// fields
	t := 1
	some := []uint64{orders[0], orders[1], orders[5], orders[len(orders)/2], orders[23], orders[31]}
	if !c.Quick {
		t = 2
	}
	ds := universe(0)
	c.Deviate("manifests", fmt.Sprintf("all manifests with <=%d deviating fields under %d orders of all maps", t, len(some)), sizes(ds), t, func(k *K, ix []int) {
		p := basePipeline()
		apply(ds, ix, p)
		text := manifestText(p)
		k.In(func() string { return text })
		global(k, some, mapOps(text, converter.Metadata{}, true))
	})
	ld := legacyDims("step0", "step1", "service", "clone")
	c.Deviate("legacy", fmt.Sprintf("all legacy configurations with <=%d deviating fields under %d orders of all maps", t, len(some)), sizes(ld), t, func(k *K, ix []int) {
		d := legacyBase()
		if !d.sane(ld, ix) {
			return
		}
		apply(ld, ix, d)
		text := d.text() + "matrix: {A: [1, 2], B: [x, '${A}'], C: [y]}\n"
		k.In(func() string { return text })
		global(k, some, mapOps(text, converter.Metadata{Filename: ".drone.yml", URL: "https://a/b/c"}, false)[5:])
	})
	// two iterations deviate
	reach := 4
	if !c.Quick {
		reach = 24
	}
	c.Range("pairs", fmt.Sprintf("every pair of map iterations at most %d apart, both reversed (thorough: or rotated)", reach), len(sites), func(k *K, q int) {
		x := sites[q]
		k.In(func() string { return x.op.name + "\n" + x.doc.text })
		rev := func(l uint32) uint64 { o := ordersOf(int(l)); return o[len(o)-1] }
		rot := func(l uint32) uint64 { return ordersOf(int(l))[0] }
		mapChoice(func(m *mapCtl) {
			for j := x.i + 1; j < x.n && j <= x.i+reach; j++ {
				k.State(fmt.Sprint(q, "-", j))
				for r, f := range []func(uint32) uint64{rev, rot} {
					if r == 1 && c.Quick {
						break
					}
					got, _ := m.but(x.op, []int{x.i, j}, []uint64{f(x.lens[x.i]), f(x.lens[j])})
					if !compare(k, x.op, x.want, got, fmt.Sprintf("when iterations %d and %d are reordered", x.i, j)) {
						return
					}
				}
			}
		})
	})
}
