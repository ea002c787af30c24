package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/drone/drone-runtime/engine"
	"github.com/drone/drone-yaml/yaml"
	"github.com/drone/drone-yaml/yaml/compiler"
	"github.com/drone/drone-yaml/yaml/compiler/image"
	"github.com/drone/drone-yaml/yaml/compiler/transform"
	"github.com/drone/drone-yaml/yaml/converter"
	"github.com/drone/drone-yaml/yaml/linter"
	"github.com/drone/drone-yaml/yaml/pretty"
	"github.com/drone/drone-yaml/yaml/signer"
)

func init() { register("C37", runC37) }

// ---------------------------------------------------------------------
// C37: histories and interleavings of operations
// ---------------------------------------------------------------------

// yieldAt is called before every statement of the instrumented packages.
//
//go:norace
func yieldAt(site int) {
	t := curTask()
	if t == nil {
		return
	}
	t.n++
	if t.rec {
		t.sites = append(t.sites, int32(site))
	}
	if t.n == t.stop {
		t.handOver()
	}
}

// task is one of two operations executed under the control of the scheduler:
// it runs until it reaches its next stop, where the other one continues.
type task struct {
	_     [3]uintptr // an empty label set, should the runtime look at it
	n     int64
	stop  int64
	stops []int64
	rec   bool
	sites []int32
	other *task
	wake  chan struct{}
	turn  *int32 // race build: which task runs
	me    int32
	done  bool
	late  *int32
	out   func() string
	err   string
}

// in the race detector's build the hand-over must not order the memory
// accesses of the tasks: it is a plain variable in functions that are not
// instrumented.
//
//go:norace
func (t *task) handOver() {
	t.stop = -1
	if len(t.stops) > 0 {
		t.stop, t.stops = t.stops[0], t.stops[1:]
	}
	if t.other.done {
		return
	}
	t.give()
	t.await()
}

//go:norace
func (t *task) give() {
	if raceBuild {
		*t.turn = t.other.me
		return
	}
	select {
	case t.other.wake <- struct{}{}:
	default:
	}
}

// lateTotal counts hand-overs to a blocked task (approximately: it only
// decides how long to wait for the next one)
var lateTotal int64

// await blocks until it is this task's turn. The other task may be blocked
// on something this one holds (a lock); it goes on alone then.
//
//go:norace
func (t *task) await() {
	patience := 100 * time.Millisecond
	if lateTotal > 20 {
		patience = 10 * time.Millisecond
	}
	if raceBuild {
		start := time.Now()
		for i := 0; *t.turn != t.me; i++ {
			runtime.Gosched()
			if i%256 == 255 && time.Since(start) > patience {
				*t.late++
				lateTotal++
				*t.turn = t.me
			}
		}
		return
	}
	tm := time.NewTimer(patience)
	select {
	case <-t.wake:
		tm.Stop()
	case <-tm.C:
		atomic.AddInt32(t.late, 1)
		lateTotal++
	}
}

//go:norace
func (t *task) finish() {
	t.done = true
	t.stop = -1
	t.give()
}

func (t *task) run(f func() func() string, fin chan<- struct{}) {
	defer func() { fin <- struct{}{} }()
	body := func() {
		t.await()
		setTask(t)
		defer func() {
			setTask(nil)
			if r := recover(); r != nil {
				t.err = fmt.Sprintf("panic: %v\n%s", r, trimStack(string(debug.Stack())))
			}
			t.finish()
		}()
		t.out = f()
	}
	if mapControl {
		mapChoice(func(m *mapCtl) {
			m.mode = 1
			body()
		})
		return
	}
	body()
}

// duel runs two prepared operations; a starts, and plan lists the yields at
// which a, b, a, ... hand over.
func duel(a, b func() func() string, plan []int64) (x, y *task) {
	late, turn := new(int32), new(int32)
	x = &task{wake: make(chan struct{}, 1), turn: turn, me: 0, late: late, stop: -1}
	y = &task{wake: make(chan struct{}, 1), turn: turn, me: 1, late: late, stop: -1}
	x.other, y.other = y, x
	for i, p := range plan {
		t := x
		if i%2 == 1 {
			t = y
		}
		if t.stop < 0 {
			t.stop = p
		} else {
			t.stops = append(t.stops, p)
		}
	}
	fin := make(chan struct{}, 2)
	if !raceBuild {
		x.wake <- struct{}{}
	}
	go x.run(a, fin)
	go y.run(b, fin)
	<-fin
	<-fin
	return x, y
}

// alone records the yields of one operation.
func alone(f func() func() string) *task {
	fin := make(chan struct{}, 1)
	t := &task{wake: make(chan struct{}, 1), turn: new(int32), late: new(int32), stop: -1, rec: true}
	t.other = &task{done: true, turn: t.turn, wake: make(chan struct{}, 1)}
	t.wake <- struct{}{}
	go t.run(f, fin)
	<-fin
	return t
}

// ---------------------------------------------------------------------
// Operations
// ---------------------------------------------------------------------

// parOp is one operation: prep builds its own arguments, the function it
// returns is the operation, and what that returns renders the result (also
// later, when other operations have run).
type parOp struct {
	kind, name string
	prep       func() func() func() string
}

// values of two variants of every document
var parWords = [2][]string{
	{"alpha", "golang:1.10", "redis:4", "plugins/docker", "go build", "go test", "/srv/a", "k1", "secretA", "refs/heads/master", "master", "hostA", "mysql", "amd64", "3", "push"},
	{"bravo", "node:11", "mongo:3", "octo/notify", "npm install", "npm test", "/opt/bb", "q2", "tokenB", "refs/tags/v1.0", "dev", "hostB", "postgres", "arm", "7", "tag"},
}

const parManifest = `---
kind: pipeline
name: {0}
platform: {os: linux, arch: {13}}
clone: {depth: {14}}
workspace: {base: {6}, path: src}
labels: {{7}: {8}}
trigger: {branch: [{10}, x], event: {exclude: [{15}]}}
concurrency: {limit: {14}}
steps:
- name: build-{0}
  image: {1}
  commands: ['{4}', '{5} "$X"']
  environment: {A: {11}, {7}: v, TOK: {from_secret: {8}}}
  volumes: [{name: vol, path: {6}}]
  when: {branch: {10}}
- name: pub-{0}
  image: {3}
  settings: {repo: {0}, tags: [{14}, {7}], auth: {from_secret: {8}}, deep: {{7}: {x: [{14}]}}}
  depends_on: [build-{0}]
  when: {status: [success, failure]}
- name: img
  build: {image: {0}/{7}, args: {{7}: {14}}}
- {name: same, image: {3}, environment: {N: {7}}, volumes: [{name: vol, path: {6}}], settings: {s: {14}}, when: {branch: {10}}, depends_on: [build-{0}]}
- {name: cmd, image: {3}, commands: ['{5}'], when: {event: {15}}}
services:
- {name: same-db, image: {2}, when: {branch: {10}}}
- {name: db-{12}, image: {2}, ports: [80, {port: {14}, host: 90}], environment: {{7}: {8}}}
volumes:
- {name: vol, temp: {}}
- {name: h, host: {path: {6}}}
---
kind: secret
name: s-{0}
data: {8}
get: {path: a/{7}, name: {0}}
---
kind: registry
data: {{11}: {8}, z: {7}}
---
kind: cron
name: c-{0}
spec: {branch: {10}, schedule: '@hourly'}
`

const parWindows = `---
kind: pipeline
name: {0}
platform: {os: windows, arch: {13}}
steps:
- {name: w-{0}, image: {1}, commands: ['{4}', 'echo {8}'], environment: {{7}: {11}}}
- {name: x-{0}, image: {3}, settings: {{7}: {11}}}
- {name: same, image: {1}, commands: ['{5}'], when: {branch: {10}}}
`

const parBad = `---
kind: pipeline
name: {0}
steps:
- {name: {7}, image: {1}, privileged: true}
- {name: {7}, image: {1}, depends_on: [{0}]}
`

const parLegacy = `workspace: {base: {6}, path: src}
clone:
  git: {image: plugins/git, depth: {14}}
pipeline:
  build-{0}:
    image: {1}
    environment: {A: {11}, {7}: v}
    commands: ['{4}', '{5}']
    secrets: [{source: {8}, target: t}, {source: a, target: {7}}]
    volumes: ['{6}:/x']
    when: {branch: {10}, event: [{15}]}
  pub-{0}: {image: {3}, repo: {0}, tags: [{14}]}
services:
  db: {image: {2}, environment: ['{7}={8}']}
branches: [{10}, x]
secrets: {{8}: {vault: a/{7}}}
`

const parMatrix = `pipeline:
  build-{0}:
    image: '{1}-${VER}'
    commands: ['{4} ${OS}', '{5}']
    when: {matrix: {VER: {14}}}
matrix:
  VER: [{14}, {7}]
  OS: [{11}, x]
`

const parGitlab = `image: {1}
variables: {{7}: {11}}
stages: [build, test]
before_script: ['{4}']
{0}: {stage: test, script: ['{5}'], only: [{10}]}
zz: {stage: build, script: ['{4}'], services: [{2}], variables: {{7}: {14}}}
`

const parBucket = `image: {1}
pipelines:
  default: [{step: {name: {0}, script: ['{4}'], image: {1}}}]
  branches:
    {10}: [{step: {name: b-{0}, script: ['{5}']}}]
definitions:
  services:
    db: {image: {2}, environment: {{7}: {11}}}
`

func parText(tmpl string, v int) string {
	var args []string
	for i, w := range parWords[v] {
		args = append(args, fmt.Sprintf("{%d}", i), w)
	}
	return strings.NewReplacer(args...).Replace(tmpl)
}

// what operations may share: one compiler, one set of transforms, policies
var (
	sharedCreds    = []byte("https://u:p@host\n")
	sharedDind     = compiler.DindFunc([]string{"plugins/docker", "octo/notify"})
	sharedSkip     = compiler.SkipFunc(compiler.SkipData{Branch: "master", Event: "push"})
	sharedSecret   = &engine.Secret{Metadata: engine.Metadata{Name: "any"}, Data: "value"}
	sharedProvider = transform.WithSecretFunc(func(name string) *engine.Secret { return sharedSecret })
	sharedAuths    = append(make([]*engine.DockerAuth, 0, 8), &engine.DockerAuth{Address: "a", Username: "b", Password: "c"})
	sharedMarks    = transform.Combine(
		transform.WithAuths(sharedAuths),
		transform.WithAuthsFunc(func() []*engine.DockerAuth { return sharedAuths }),
		transform.WithAuths([]*engine.DockerAuth{{Address: "d", Username: "e", Password: "f"}}),
		transform.WithEnviron(map[string]string{"E1": "1", "E2": "2"}),
		transform.WithLables(map[string]string{"l1": "1"}),
		transform.WithLimits(1<<20, 500),
		transform.WithNetrc("m", "u", "p"),
		transform.WithNetworks([]string{"n1", "n2"}),
		transform.WithProxy(),
		transform.WithSecrets(map[string]string{"s1": "v1", "s2": "v2"}),
		transform.WithVolumes(map[string]string{"/h1": "/c1"}),
		transform.WithVolumeSlice([]string{"/h2:/c2"}),
	)
	sharedInclude = transform.Include([]string{"build-alpha", "build-bravo", "clone"})
	sharedExclude = transform.Exclude([]string{"build-alpha", "pub-bravo"})
	sharedResume  = transform.ResumeAt("pub-alpha")
	sharedFull    = &compiler.Compiler{
		GitCredentialsFunc: func() []byte { return sharedCreds },
		PrivilegedFunc:     sharedDind,
		SkipFunc:           sharedSkip,
		TransformFunc:      transform.Combine(sharedMarks, sharedProvider),
		WorkspaceFunc:      compiler.CreateHostWorkspace("/host/ws"),
		WorkspaceMountFunc: compiler.MountHostWorkspace,
	}
	sharedPlain = &compiler.Compiler{}
)

func mustManifest(text string) *yaml.Manifest {
	m, err := yaml.ParseString(text)
	if err != nil {
		fatalf("C37 document: %v\n%s", err, text)
	}
	return m
}

func constant(s string) func() string { return func() string { return s } }

func parOps() []parOp {
	var ops []parOp
	for v := 0; v < 2; v++ {
		add := func(kind string, prep func() func() func() string) {
			ops = append(ops, parOp{kind, fmt.Sprintf("%s/%d", kind, v), prep})
		}
		text, win, bad := parText(parManifest, v), parText(parWindows, v), parText(parBad, v)
		key := []string{keyA, keyB}[v]
		dump := func(m *yaml.Manifest) string {
			var out []yaml.Resource
			for _, r := range m.Resources {
				out = append(out, normResource(r, false))
			}
			return js(out)
		}
		add("parse", func() func() func() string {
			return func() func() string {
				m, err := yaml.ParseString(text)
				return func() string {
					if err != nil {
						return err.Error()
					}
					return dump(m)
				}
			}
		})
		add("parse-bytes", func() func() func() string {
			data := []byte(win)
			return func() func() string {
				m, err := yaml.ParseBytes(data)
				return func() string { return dump(m) + errS(err) + string(data) }
			}
		})
		add("parse-error", func() func() func() string {
			return func() func() string {
				_, err := yaml.ParseString(text + "---\nkind: pipeline\nsteps: " + parWords[v][0] + "\n")
				return func() string { return errS(err) }
			}
		})
		add("parse-raw", func() func() func() string {
			return func() func() string {
				raw, err := yaml.ParseRawString(text)
				return func() string {
					var b strings.Builder
					for _, r := range raw {
						fmt.Fprintf(&b, "%s %s %s\n%s\n", r.Kind, r.Type, r.Version, r.Data)
					}
					return b.String() + errS(err)
				}
			}
		})
		add("encode", func() func() func() string {
			m := mustManifest(text)
			return func() func() string {
				out, err := m.Encode()
				return func() string { return string(out) + errS(err) }
			}
		})
		add("decode", func() func() func() string {
			data := []byte(js(mustManifest(text)))
			return func() func() string {
				m := new(yaml.Manifest)
				err := json.Unmarshal(data, m)
				return func() string { return dump(m) + errS(err) }
			}
		})
		add("print", func() func() func() string {
			m := mustManifest(text)
			return func() func() string {
				var b bytes.Buffer
				pretty.Print(&b, m)
				return func() string { return b.String() }
			}
		})
		add("lint", func() func() func() string {
			m := mustManifest(text + []string{"", bad}[v])
			return func() func() string {
				return constant(errS(linter.Manifest(m, true)) + "|" + errS(linter.Manifest(m, false)))
			}
		})
		add("lint-bad", func() func() func() string {
			m := mustManifest(strings.Replace(bad, "name: "+parWords[1][7]+", image: "+parWords[1][1]+", dep", "name: other, image: x, dep", 1))
			return func() func() string {
				e, f := linter.Lint(m.Resources[0], false), linter.Lint(m.Resources[0], true)
				return func() string { return errS(e) + "|" + errS(f) }
			}
		})
		add("sign", func() func() func() string {
			data := []byte(text)
			return func() func() string {
				s, err := signer.Sign(data, signer.KeyString(key))
				return func() string { return s + errS(err) + string(data) }
			}
		})
		add("sign-update", func() func() func() string {
			data := []byte(text)
			return func() func() string {
				s, err := signer.SignUpdate(data, signer.KeyString(key))
				return func() string { return string(s) + errS(err) + string(data) }
			}
		})
		add("write-to", func() func() func() string {
			data := []byte(win)
			return func() func() string {
				s, err := signer.WriteTo(data, "0123456789abcdef"+key)
				return func() string { return string(s) + errS(err) + string(data) }
			}
		})
		add("verify", func() func() func() string {
			data, err := signer.SignUpdate([]byte(text), signer.KeyString(key))
			if err != nil {
				fatalf("sign: %v", err)
			}
			return func() func() string {
				ok, err := signer.Verify(data, signer.KeyString(key))
				no, err2 := signer.Verify(data, signer.KeyString("x"+key))
				return func() string { return fmt.Sprint(ok, err, no, err2) + string(data) }
			}
		})
		conv := func(kind, tmpl, file string) {
			t := parText(tmpl, v)
			add(kind, func() func() func() string {
				data := []byte(t)
				meta := converter.Metadata{Filename: file, URL: "https://x/" + parWords[v][0], Ref: parWords[v][9]}
				return func() func() string {
					out, err := converter.Convert(data, meta)
					return func() string { return string(out) + errS(err) + string(data) }
				}
			})
		}
		conv("convert-legacy", parLegacy, ".drone.yml")
		conv("convert-matrix", parMatrix, ".drone.yml")
		conv("convert-gitlab", parGitlab, ".gitlab-ci.yml")
		conv("convert-bitbucket", parBucket, "bitbucket-pipelines.yml")
		conv("convert-none", parManifest, ".drone.yml")
		comp := func(kind, text string, c *compiler.Compiler) {
			add(kind, func() func() func() string {
				p := mustManifest(text).Resources[0].(*yaml.Pipeline)
				return func() func() string {
					s := c.Compile(p)
					return func() string { return parPlan(s) }
				}
			})
		}
		comp("compile", text, sharedPlain)
		comp("compile-full", text, sharedFull)
		comp("compile-windows", win, sharedFull)
		tr := func(kind string, f func(*engine.Spec)) {
			add(kind, func() func() func() string {
				s := (&compiler.Compiler{SkipFunc: sharedSkip}).Compile(mustManifest(text).Resources[0].(*yaml.Pipeline))
				return func() func() string {
					f(s)
					return func() string { return parPlan(s) }
				}
			})
		}
		tr("transform", sharedMarks)
		tr("provider", sharedProvider)
		tr("include", sharedInclude)
		tr("exclude", sharedExclude)
		tr("resume", sharedResume)
		add("image", func() func() func() string {
			w := parWords[v]
			return func() func() string {
				return constant(fmt.Sprint(image.Expand(w[1]), image.Trim(w[2]), image.Match(w[3], "plugins/docker", w[2]), image.MatchTag(w[1], "x:1"), image.MatchHostname(w[1], "docker.io")))
			}
		})
	}
	return ops
}

// parPlan renders a plan up to generated identifiers.
func parPlan(s *engine.Spec) string {
	text := js(s)
	for _, x := range s.Files {
		text += string(x.Data)
	}
	ids := map[string]string{}
	return generated.ReplaceAllStringFunc(text, func(id string) string {
		if ids[id] == "" {
			ids[id] = fmt.Sprintf("<id%d>", len(ids))
		}
		return ids[id]
	})
}

var generated = regexp.MustCompile(`\b[a-z0-9]{32}\b`)

// callbacks: what the functions of a compiler or transform return may change
// from one use to the next.
func (c *Ctx) callbacks() {
	const values = 3
	text := parText(parManifest, 0)
	type state struct{ now int }
	build := func(st *state) func() string {
		v := func(s string) string { return fmt.Sprint(s, st.now) }
		comp := &compiler.Compiler{
			GitCredentialsFunc: func() []byte { return []byte("https://" + v("u")) },
			NetrcFunc:          func() []byte { return []byte("machine " + v("m")) },
			PrivilegedFunc:     func(x *yaml.Container) bool { return st.now == 1 },
			SkipFunc:           func(x *yaml.Container) bool { return st.now == 2 },
			WorkspaceFunc: func(s *engine.Spec) {
				compiler.CreateHostWorkspace("/" + v("w"))(s)
			},
			WorkspaceMountFunc: func(step *engine.Step, base, path, full string) {
				compiler.MountHostWorkspace(step, base, path, v(full))
			},
			TransformFunc: transform.Combine(
				transform.WithAuthsFunc(func() []*engine.DockerAuth { return []*engine.DockerAuth{{Address: v("a")}} }),
				transform.WithNetworks([]string{"n"}),
				transform.WithSecretFunc(func(n string) *engine.Secret {
					return &engine.Secret{Metadata: engine.Metadata{Name: n}, Data: v(n)}
				}),
				func(s *engine.Spec) { s.Metadata.Labels["v"] = v("l") },
			),
		}
		return func() string {
			p := mustManifest(text).Resources[0].(*yaml.Pipeline)
			return parPlan(comp.Compile(p))
		}
	}
	c.Words("callbacks", "every sequence of up to four compilations with one compiler whose callbacks return one of three values, compared with a new compiler", values, 2, 4, func(k *K, w []int) {
		k.In(func() string { return fmt.Sprint("callback values ", w) })
		k.State(fmt.Sprint("c", w))
		mapChoice(func(m *mapCtl) {
			m.mode = 1
			st := &state{}
			f := build(st)
			for i, v := range w {
				st.now = v
				k.Step(2)
				k.Agree(1)
				if got, want := f(), build(&state{v})(); got != want {
					k.Fail("callback", "compilation %d with callback values %v does not use the current values:\n%s", i+1, w[:i+1], textDiff(want, got))
					return
				}
			}
		})
	})
}

// render runs an operation alone.
func (o parOp) render() string {
	return o.prep()()()
}

// opMain prints the results of the listed operations in a fresh process; the
// first argument is the operation to run first.
func opMain(arg string) {
	lenv{}.set()
	i, err := strconv.Atoi(arg)
	ops := parOps()
	if err != nil || i < 0 || i >= len(ops) {
		fatalf("bad operation %q", arg)
	}
	mapChoice(func(m *mapCtl) {
		m.mode = 1
		os.Stdout.WriteString(ops[i].render())
	})
	os.Exit(0)
}

func runC37(c *Ctx) {
	if !yieldControl || !mapControl {
		fatalf("C37 needs the instrumented build")
	}
	lenv{}.set()
	ops := parOps()
	bin := filepath.Join(os.Getenv("VERIF_BUILD"), "h")
	want := make([]string, len(ops))
	// the reference: every operation as the first one of a process
	var wg sync.WaitGroup
	for i := range ops {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			out, err := exec.Command(bin, "parallel-op", strconv.Itoa(i)).Output()
			if err != nil {
				want[i] = "\x00" + err.Error()
				return
			}
			want[i] = string(out)
		}(i)
	}
	wg.Wait()
	for i := range want {
		if strings.HasPrefix(want[i], "\x00") || want[i] == "" {
			fatalf("operation %s failed in a fresh process: %q", ops[i].name, want[i])
		}
		for j := 0; j < i; j++ {
			if ops[i].kind == ops[j].kind && want[i] == want[j] {
				fatalf("the variants of %s have the same result", ops[i].kind)
			}
		}
	}
	same := func(k *K, i int, got, when string) bool {
		k.Agree(1)
		if got != want[i] {
			k.Fail("result", "%s %s gives another result than alone in a fresh process:\n%s", ops[i].name, when, textDiff(want[i], got))
			return false
		}
		return true
	}
	n := len(ops)
	depth := 2
	if !c.Quick {
		depth = 3
	}
	// histories: results are rendered at once and again at the end
	c.Words("histories", fmt.Sprintf("every sequence of %d of %d operations", depth+0, n), n, depth, depth, func(k *K, w []int) {
		k.In(func() string {
			var s []string
			for _, i := range w {
				s = append(s, ops[i].name)
			}
			return strings.Join(s, ", ")
		})
		k.State(fmt.Sprint("h", w))
		var outs []func() string
		for j, i := range w {
			k.Step(1)
			mapChoice(func(m *mapCtl) {
				m.mode = 1
				outs = append(outs, ops[i].prep()())
			})
			if !same(k, i, outs[j](), fmt.Sprintf("as operation %d of the sequence", j+1)) {
				return
			}
		}
		for j, i := range w {
			if !same(k, i, outs[j](), fmt.Sprintf("as operation %d of the sequence, looked at after the others,", j+1)) {
				return
			}
		}
	})
	c.callbacks()
	// interleavings
	yields := make([][]int32, n)
	var total int
	for i, o := range ops {
		t := alone(o.prep())
		yields[i] = t.sites
		total += len(t.sites)
		// deterministic under a fixed map order
		if u := alone(o.prep()); len(u.sites) != len(t.sites) {
			c.Assume(fmt.Sprintf("the number of statements executed by %s varies (%d, %d)", o.name, len(t.sites), len(u.sites)))
		}
	}
	c.extra["operations"] = n
	c.extra["yield_points"] = total
	var late int32
	check := func(k *K, i, j int, plan []int64) bool {
		k.Step(2)
		x, y := duel(ops[i].prep(), ops[j].prep(), plan)
		atomic.AddInt32(&late, *x.late)
		if x.err != "" || y.err != "" {
			k.Fail("panic", "%s and %s interleaved at %v: %s%s", ops[i].name, ops[j].name, plan, x.err, y.err)
			return false
		}
		when := func(o int) string {
			return fmt.Sprintf("interleaved with %s, handing over at statements %v,", ops[o].name, plan)
		}
		return same(k, i, x.out(), when(j)) && same(k, j, y.out(), when(i))
	}
	pairName := func(i, j int) func() string {
		return func() string { return ops[i].name + " || " + ops[j].name }
	}
	// hand-over points: every executed statement, the first execution of every
	// statement, or the first execution of every function
	var where []string
	if b, err := ioutil.ReadFile(filepath.Join(filepath.Dir(bin), "y", "sites.json")); err != nil || json.Unmarshal(b, &where) != nil {
		fatalf("sites.json: %v", err)
	}
	const (
		functions = iota
		statements
		all
	)
	points := func(i, level int) []int64 {
		var out []int64
		seen := map[int32]bool{}
		for p, s := range yields[i] {
			if level == all || !seen[s] && (level == statements || strings.HasSuffix(where[s], " entry")) {
				out = append(out, int64(p+1))
			}
			seen[s] = true
		}
		return out
	}
	siteOf := func(i int, p int64) string {
		if p < 1 || int(p) > len(yields[i]) {
			return "?"
		}
		return where[yields[i][p-1]]
	}
	var pairs, kin, mixed [][2]int
	for i := range ops {
		for j := range ops {
			q := [2]int{i, j}
			pairs = append(pairs, q)
			switch {
			case ops[i].kind == ops[j].kind:
				kin = append(kin, q)
			case !c.Quick || i < n/2 && j >= n/2:
				mixed = append(mixed, q)
			}
		}
	}
	one := func(k *K, i, j, level int) {
		k.In(pairName(i, j))
		for _, p := range points(i, level) {
			k.State(fmt.Sprint(i, "/", p, "/", j))
			if !check(k, i, j, []int64{p}) {
				k.fails[len(k.fails)-1].Msg = "interrupted before " + siteOf(i, p) + ": " + k.fails[len(k.fails)-1].Msg
				return
			}
		}
	}
	level, name := statements, "statement (first execution)"
	if !c.Quick {
		level, name = all, "executed statement"
	}
	c.Range("one-kind", "every ordered pair of operations of one kind, the first interrupted once at every "+name+" while the second runs to its end", len(kin), func(k *K, q int) {
		one(k, kin[q][0], kin[q][1], level)
	})
	level, name = functions, "function (first execution)"
	if !c.Quick {
		level, name = statements, "statement (first execution)"
	}
	c.Range("two-kinds", "every ordered pair of operations of different kinds (quick: on different inputs), the first interrupted once at every "+name+" while the second runs to its end", len(mixed), func(k *K, q int) {
		one(k, mixed[q][0], mixed[q][1], level)
	})
	c.extra["blocked_handovers"] = atomic.LoadInt32(&late)
	c.races(ops, pairs, pairName)
	// two preemptions of operations of the same kind
	level = statements
	if c.Quick {
		level = functions
	}
	type chunk struct {
		i, j int
		p    int64
	}
	var work []chunk
	for _, q := range kin {
		if q[0] >= q[1] {
			continue
		}
		for _, p := range points(q[0], level) {
			work = append(work, chunk{q[0], q[1], p})
		}
	}
	sort.SliceStable(work, func(a, b int) bool { return len(yields[work[a].i]) < len(yields[work[b].i]) })
	c.Range("two-preemptions", "every pair of operations of one kind on different inputs, each interrupted once, at every pair of statements (quick: functions)", len(work), func(k *K, q int) {
		x := work[q]
		k.In(pairName(x.i, x.j))
		for _, r := range points(x.j, level) {
			k.State(fmt.Sprint("2", q, r))
			if !check(k, x.i, x.j, []int64{x.p, r}) {
				return
			}
		}
	})
	c.extra["blocked_handovers"] = atomic.LoadInt32(&late)
}

// ---------------------------------------------------------------------
// The race detector's build: the same schedules, in which the scheduler adds
// no ordering between the memory accesses of the two operations.
// ---------------------------------------------------------------------

type raceResult struct {
	Pair      int
	Schedules int
	Errors    int
	Report    string
	Panic     string
}

func (c *Ctx) races(ops []parOp, pairs [][2]int, name func(i, j int) func() string) {
	want, only := c.wantSpace("races")
	if !want {
		return
	}
	start := time.Now()
	dir := os.Getenv("VERIF_BUILD")
	bin := filepath.Join(dir, "h.race")
	var space []int
	for q, p := range pairs {
		if p[0] <= p[1] || ops[p[0]].kind == ops[p[1]].kind {
			space = append(space, q)
		}
	}
	todo := space
	if only != "" {
		if q, err := strconv.Atoi(only); err == nil && q >= 0 && q < len(space) {
			todo = space[q : q+1]
		}
	}
	results := make([]*raceResult, len(pairs))
	var mu sync.Mutex
	var problem string
	var wg sync.WaitGroup
	for w := 0; w < c.Workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			var list []string
			for x, q := range todo {
				if x%c.Workers == w {
					list = append(list, strconv.Itoa(q))
				}
			}
			if len(list) == 0 {
				return
			}
			log := filepath.Join(dir, fmt.Sprintf("race%d", w))
			cmd := exec.Command(bin, "parallel-race", c.Tier, log)
			cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 history_size=3 log_path="+log, "GOMAXPROCS=2")
			cmd.Stdin = strings.NewReader(strings.Join(list, "\n"))
			var errb bytes.Buffer
			cmd.Stderr = &errb
			pipe, err := cmd.StdoutPipe()
			if err == nil {
				err = cmd.Start()
			}
			if err == nil {
				sc := bufio.NewScanner(pipe)
				sc.Buffer(nil, 16<<20)
				for sc.Scan() {
					r := new(raceResult)
					if json.Unmarshal(sc.Bytes(), r) == nil {
						mu.Lock()
						results[r.Pair] = r
						mu.Unlock()
					}
				}
				err = cmd.Wait()
			}
			if err != nil {
				mu.Lock()
				problem = err.Error() + "\n" + clip(errb.String(), 6000)
				mu.Unlock()
			}
		}(w)
	}
	wg.Wait()
	crashed := ""
	if strings.Contains(problem, "fatal error:") || strings.Contains(problem, "panic:") {
		crashed = problem
	} else if problem != "" {
		c.Assume("the race detector's build does not run here; the race pass was skipped: " + clip(problem, 400))
		c.extra["race_pass"] = "skipped"
		return
	}
	schedules := 0
	c.extra["race_pass_s"] = time.Since(start).Seconds()
	c.Range("races", "pairs of operations under the race detector: one after the other without synchronisation, and (one kind; thorough: all) the first interrupted once at every function (thorough, one kind: statement)", len(space), func(k *K, q int) {
		q = space[q]
		i, j := pairs[q][0], pairs[q][1]
		k.In(name(i, j))
		r := results[q]
		if r == nil {
			if crashed != "" {
				k.Fail("crash", "the process crashed: %s", crashed)
			}
			return
		}
		k.Step(2 * r.Schedules)
		k.State(fmt.Sprint("race", q))
		if r.Panic != "" {
			k.Fail("panic", "%s", r.Panic)
		}
		if r.Errors > 0 {
			k.Fail("race", "%d data races, e.g.\n%s", r.Errors, clip(r.Report, 6000))
		}
	})
	done := 0
	for _, r := range results {
		if r != nil {
			done++
			schedules += r.Schedules
		}
	}
	if done < len(todo) {
		c.exhaustive = false
	}
	c.extra["race_checked_schedules"] = schedules
	c.extra["race_checked_pairs"] = done
}

// raceMain is the part that runs in the race detector's build.
func raceMain(tier, log string) {
	if !raceBuild || !yieldControl {
		fatalf("not the race detector's build")
	}
	lenv{}.set()
	ops := parOps()
	deadline := time.Now().Add(60 * time.Second)
	if tier == "thorough" {
		deadline = time.Now().Add(300 * time.Second)
	}
	var where []string
	if b, err := ioutil.ReadFile(filepath.Join(filepath.Dir(log), "y", "sites.json")); err != nil || json.Unmarshal(b, &where) != nil {
		fatalf("sites.json: %v", err)
	}
	var yields []([]int32)
	for _, o := range ops {
		yields = append(yields, alone(o.prep()).sites)
	}
	sc := bufio.NewScanner(os.Stdin)
	enc := json.NewEncoder(os.Stdout)
	path := fmt.Sprintf("%s.%d", log, os.Getpid())
	read := 0
	for sc.Scan() {
		q, err := strconv.Atoi(sc.Text())
		if err != nil {
			continue
		}
		if time.Now().After(deadline) {
			break
		}
		i, j := q/len(ops), q%len(ops)
		plans := [][]int64{nil}
		kin := ops[i].kind == ops[j].kind
		if kin || tier == "thorough" {
			seen := map[int32]bool{}
			for p, s := range yields[i] {
				if !seen[s] && (kin && tier == "thorough" || strings.HasSuffix(where[s], " entry")) {
					seen[s] = true
					plans = append(plans, []int64{int64(p + 1)})
				}
			}
		}
		r := &raceResult{Pair: q}
		before := raceErrors()
		for _, plan := range plans {
			x, y := duel(ops[i].prep(), ops[j].prep(), plan)
			r.Schedules++
			if x.err+y.err != "" {
				r.Panic = x.err + y.err
			}
			if raceErrors() != before {
				break
			}
		}
		r.Errors = raceErrors() - before
		if r.Errors > 0 {
			b, _ := ioutil.ReadFile(path)
			if read < len(b) {
				r.Report = clip(string(b[read:]), 8000)
				read = len(b)
			}
		}
		enc.Encode(r)
	}
	os.Exit(0)
}
