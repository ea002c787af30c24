package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"strings"

	goyaml "github.com/buildkite/yaml"
	"github.com/drone/drone-yaml/yaml"
	"github.com/drone/drone-yaml/yaml/compiler"
	"github.com/drone/drone-yaml/yaml/converter"
	"github.com/drone/drone-yaml/yaml/linter"
	"github.com/drone/drone-yaml/yaml/pretty"
	"github.com/drone/drone-yaml/yaml/signer"
)

func init() { register("C05", runC05) }

// ---------------------------------------------------------------------
// C05: structural mutations of configurations
// ---------------------------------------------------------------------

// ynode is a node of a document.
type ynode struct {
	kind byte // 's' scalar, 'l' sequence, 'm' mapping, 'r' raw
	text string
	keys []string
	vals []*ynode
}

func toNode(v interface{}) *ynode {
	switch v := v.(type) {
	case goyaml.MapSlice:
		n := &ynode{kind: 'm'}
		for _, it := range v {
			n.keys = append(n.keys, toNode(it.Key).text)
			n.vals = append(n.vals, toNode(it.Value))
		}
		return n
	case []interface{}:
		n := &ynode{kind: 'l'}
		for _, it := range v {
			n.vals = append(n.vals, toNode(it))
		}
		return n
	case string:
		plain := v != ""
		for _, r := range v {
			if !(r >= 'a' && r <= 'z' || r == '_' || r == '/' || r == '-') {
				plain = false
			}
		}
		switch v {
		case "true", "false", "on", "off", "yes", "no", "y", "n", "null", "-":
			plain = false
		}
		if plain {
			return &ynode{kind: 's', text: v}
		}
		b, _ := json.Marshal(v)
		return &ynode{kind: 's', text: string(b)}
	case nil:
		return &ynode{kind: 's', text: "~"}
	}
	return &ynode{kind: 's', text: fmt.Sprint(v)}
}

func parseNode(text string) *ynode {
	var v goyaml.MapSlice
	if err := goyaml.Unmarshal([]byte(text), &v); err != nil {
		fatalf("C05 document: %v\n%s", err, text)
	}
	return toNode(v)
}

// nodes lists the nodes of a document (parents before children); entry n
// of the result is addressed by n.
func (n *ynode) nodes() []*ynode {
	out := []*ynode{n}
	for _, v := range n.vals {
		out = append(out, v.nodes()...)
	}
	return out
}

// edit describes what happens to a node: the text that takes its place, or
// the node is deleted, or its key is repeated or replaced.
type edit struct {
	text string // replacement, written as flow
	del  bool
	dup  bool   // the entry appears twice
	key  string // replaces the key
}

func (n *ynode) block(b *strings.Builder, indent string, at *int, edits map[int]edit) {
	me := *at
	*at++
	if e, ok := edits[me]; ok && e.text != "" {
		b.WriteString(" " + e.text + "\n")
		*at += len(n.nodes()) - 1
		return
	}
	switch {
	case n.kind == 's':
		b.WriteString(" " + n.text + "\n")
		return
	case len(n.vals) == 0:
		b.WriteString(map[byte]string{'l': " []\n", 'm': " {}\n"}[n.kind])
		return
	}
	if indent != "" || me != 0 {
		b.WriteString("\n")
	}
	for i, v := range n.vals {
		e := edits[*at]
		if e.del {
			*at += len(v.nodes())
			continue
		}
		head := indent + "-"
		if n.kind == 'm' {
			head = indent + n.keys[i] + ":"
			if e.key != "" {
				head = indent + e.key + " :"
			}
		}
		b.WriteString(head)
		start := *at
		v.block(b, indent+"  ", at, edits)
		if e.dup {
			b.WriteString(head)
			again := start
			v.block(b, indent+"  ", &again, edits)
		}
	}
}

func (n *ynode) textWith(edits map[int]edit) string {
	var b strings.Builder
	at := 0
	n.block(&b, "", &at, edits)
	return strings.TrimPrefix(b.String(), " ")
}

// edits applicable everywhere.
var robustEdits = []edit{
	{del: true}, {text: "~"}, {text: "''"}, {text: "a"}, {dup: true}, {key: "~"}, {key: "? [a]"}, {key: "? {a: b}"}, {key: "1"}, {key: "''"}, {key: "<<"}, {key: "? [~]"},
	{text: "[]"}, {text: "{}"}, {text: "[~]"}, {text: "[~, ~]"}, {text: "[a, b]"}, {text: "[a, ~]"}, {text: "{~: ~}"}, {text: "{a: ~}"}, {text: "{a: b}"}, {text: "{a: [b]}"}, {text: "{a: {b: c}}"},
	{text: "[[]]"}, {text: "[[a]]"}, {text: "[{}]"}, {text: "[{a: b}]"}, {text: "[{a: ~}]"}, {text: "[[[a], ~], {a: [~]}]"},
	{text: "0"}, {text: "-1"}, {text: "1.5"}, {text: "true"}, {text: "99999999999999999999"}, {text: "0x7fffffffffffffff"}, {text: "-9223372036854775808"}, {text: ".inf"}, {text: ".nan"}, {text: "1e400"},
	{text: "{1: 2, 1.5: 3, true: false}"}, {text: "{[a]: b}"}, {text: "{{a: b}: c}"}, {text: "{<<: {a: b}}"}, {text: "{<<: ~}"}, {text: "{<<: [{a: b}, {c: d}]}"}, {text: "{<<: a}"}, {text: "{[a]: b, {a: b}: c, ~: d}"},
	{text: "[{[a]: b}]"}, {text: "{a: {[b]: c}}"}, {text: "{a: [{{b: c}: d}]}"},
	{text: "*nope"}, {text: "&s [*s]"}, {text: "&s {a: *s}"}, {text: "[&t a, *t]"}, {text: "[&u {a: b}, *u, {<<: *u}]"}, {text: "&v {<<: *v}"},
	{text: "!!binary aGk="}, {text: "!!binary '%%'"}, {text: "!!str 1"}, {text: "!!int a"}, {text: "!!float 1"}, {text: "!!timestamp 2001-01-01"}, {text: "2001-01-01T00:00:00Z"}, {text: "!!set {a}"}, {text: "!foo a"}, {text: "!foo {a: b}"}, {text: "!<tag:yaml.org,2002:map> a"}, {text: "!!null a"}, {text: "!!bool maybe"}, {text: "! a"}, {text: "!!map [a]"}, {text: "!!seq {a: b}"},
	{text: "':'"}, {text: "'::'"}, {text: "'a:b:c'"}, {text: "'/'"}, {text: "'..'"}, {text: "'='"}, {text: "'a=b'"}, {text: "'['"}, {text: "'[]a'"}, {text: "'\\'"}, {text: "'*'"}, {text: "'${'"}, {text: "'${A}'"}, {text: "'@'"}, {text: "' '"}, {text: "\"\\0\""}, {text: "\"\\n\""}, {text: "\"\\xff\\ud800\""}, {text: "'\u2028'"}, {text: "9999999999999GB"}, {text: "-1MB"}, {text: "65536:1/x"}, {text: "a:a"}, {text: "1:"}, {text: "'%'"}, {text: "'%zz'"}, {text: "'http://[::1'"},
	{text: "[\ufeff]"}, {text: "\ufeff"}, {text: "{\ufeffa: b}"}, {text: "'\ufeff'"}, {text: "[a, \u0085]"}, {key: "\ufeffa"}, {key: "from_secret"}, {text: "{from_secret: [a]}"}, {text: "{from_secret: {a: b}}"},
}

// smallEdits are the ones combined pairwise.
var smallEdits = []edit{{text: "~"}, {del: true}, {text: "[~]"}, {text: "{}"}, {text: "{a: ~}"}, {text: "''"}, {text: "[]"}, {text: "a"}, {text: "[{a: b}]"}, {text: "1"}}

type robustDoc struct {
	name, text string
	files      []string // file names it is converted under
	node       *ynode
	n          int
}

var robustDocs = []*robustDoc{
	{name: "pipeline", text: robustPipeline},
	{name: "pipeline2", text: robustPipeline2},
	{name: "cron", text: "version: a\nkind: cron\ntype: docker\nname: nightly\nspec:\n  schedule: '@daily'\n  branch: master\n  deployment:\n    target: prod\n"},
	{name: "secret", text: "kind: secret\ntype: docker\nname: s\ndata: abc\nget:\n  path: a\n  name: b\n  key: c\n"},
	{name: "registry", text: "kind: registry\ntype: docker\nname: x\ndata:\n  index.docker.io: abc\n  other: def\n"},
	{name: "signature", text: "kind: signature\nversion: a\nhmac: N2NmYjA5\n"},
	{name: "legacy", text: robustLegacy, files: []string{".drone.yml"}},
	{name: "legacy2", text: robustLegacy2, files: []string{".drone.yml"}},
	{name: "gitlab", text: robustGitlab, files: []string{".gitlab-ci.yml"}},
	{name: "bitbucket", text: robustBitbucket, files: []string{"bitbucket-pipelines.yml"}},
	{name: "circle", text: "version: 2\njobs:\n  build:\n    docker:\n    - image: golang\n      environment:\n        a: b\n    steps:\n    - checkout\n    - run: make\n    - run:\n        name: test\n        command: make test\n", files: []string{".circleci/config.yml", "circle.yml"}},
}

const robustPipeline = `
version: v1
kind: pipeline
type: docker
name: main
clone: {disable: false, depth: 50, skip_verify: true}
concurrency: {limit: 2}
depends_on: [other]
node: {os: linux, disk: ssd}
platform: {os: linux, arch: amd64, variant: a, version: b}
image_pull_secrets: [dockerconfig, other]
workspace: {base: /go, path: src/app}
trigger:
  action: [opened]
  branch: {include: [master, 'a/*'], exclude: [b]}
  event: push
  matrix: {a: b, c: d}
volumes:
- name: vol
  temp: {medium: memory, size_limit: 1GB}
- name: hst
  host: {path: /tmp/x}
services:
- name: db
  image: redis:4
  environment: {A: b}
  ports: [6379, {port: 1, host: 2, protocol: tcp}]
steps:
- name: one
  image: golang:1
  command: [a]
  commands: [go build, "go test\n"]
  detach: true
  devices: [{name: vol, path: /dev/a}]
  dns: [a]
  dns_search: [a]
  entrypoint: [/bin/sh]
  environment: {A: b, B: {from_secret: c}, C: 1}
  extra_hosts: ['a:1']
  failure: ignore
  network_mode: host
  privileged: true
  pull: always
  push: {image: x}
  resources: {limits: {cpu: 1.5, memory: 1GB}, requests: {cpu: 1, memory: 1MB}}
  settings: {a: b, c: [d, {e: f}], g: {h: i, j: [k]}, l: {from_secret: m}, n: 1.5}
  shell: bash
  user: root
  volumes: [{name: vol, path: /a}, {name: hst, path: /b}]
  working_dir: /x
  when:
    action: a
    cron: [a]
    ref: {include: [a]}
    repo: {exclude: [a]}
    instance: a
    target: a
    event: [push, tag]
    branch: master
    status: [success, failure]
    paths: [a]
    matrix: {a: b}
- name: two
  image: b
  depends_on: [one]
- name: three
  build: {args: {A: b}, cache_from: [c], context: ., dockerfile: d, image: e, labels: {f: g}}
`

const robustPipeline2 = `
kind: pipeline
name: win
platform: {os: windows, arch: amd64}
clone: {disable: true}
steps:
- name: a
  image: plugins/docker:1
  build: .
  push: x
  commands: [x]
  settings: {a: {b: c}, d: ~}
  environment: {a: ~, b: ''}
  detach: true
- ~
services:
- {name: s, image: plugins/docker, ports: [1], when: {status: [failure]}}
- ~
volumes:
- ~
- {name: e}
`

const robustLegacy = `
workspace: {base: /go, path: .}
clone:
  git: {image: plugins/git, depth: 5}
pipeline:
  build:
    image: golang:${VER}
    command: a
    commands: [go build, go test]
    detach: true
    devices: [a]
    allow_failure: true
    tmpfs: [b]
    dns: [a]
    dns_search: b
    entrypoint: [a]
    environment: [A=b, C=d]
    extra_hosts: ['a:1']
    privileged: true
    pull: true
    shell: bash
    volumes: ['/a:/b', 'c:/d:ro', '/e']
    secrets: [{source: b, target: c}]
    settings: {a: b}
    repo: octocat/x
    tags: [a, ~]
    when: {event: [push, tag], branch: {include: a, exclude: b}, status: [failure], repo: a, ref: a, instance: a, environment: prod, matrix: {VER: 1}}
  publish: {image: plugins/docker, environment: {A: b}}
services:
  db: {image: 'redis:${VER}', environment: {A: b}}
branches: {include: [master], exclude: [b]}
matrix: {VER: [1, 2], OS: ['b c']}
secrets:
  vault_token: {vault: secret/data}
  other: {driver: vault, driver_opts: {path: secret/x, key: z}}
  third: {path: a}
`

const robustLegacy2 = `
x: &base {image: golang, commands: [a]}
clone: {git: {image: plugins/git}}
pipeline:
  build:
    <<: *base
    group: a
    secrets: [a, b]
    volumes: [a]
  deploy:
    <<: [*base, {image: b}]
    when: {matrix: {A: b}}
branches: master
matrix:
  include:
  - {A: b, C: d}
  - {A: c}
secrets: {s: {vault: a}}
`

const robustGitlab = `
image: {name: ruby, entrypoint: [a], command: [b], alias: c}
stages: [build, test]
services: [postgres, {name: redis, alias: r}]
variables: {A: b}
before_script: [a, b]
after_script: c
cache: {paths: [a]}
.hidden: {script: a}
one:
  stage: build
  image: golang
  script: [a, b]
  before_script: [c]
  after_script: [d]
  services: [mysql]
  only: [master]
  except: [tags]
  variables: {C: d}
  allow_failure: true
  when: manual
two:
  stage: test
  image: {name: x, entrypoint: [y]}
  script: make
`

const robustBitbucket = `
image: node
clone: {depth: 5}
definitions:
  services:
    db: {image: mysql, variables: {A: b}}
  caches: {a: b}
pipelines:
  default:
  - step: {name: a, image: b, script: [npm install, npm test], artifacts: ['x/**'], variables: {A: b}}
  - step: {script: [c]}
  - parallel: [{step: {script: [d]}}]
  branches:
    master: [{step: {name: d, script: [e]}}]
    'feature/*': [{step: {script: [f]}}]
  tags:
    'v*': [{step: {script: [g]}}]
`

var robustRefs = []string{"", "refs/heads/master", "refs/tags/v1"}

// exercise runs every entry point on one input; it fails only by crashing
// (caught by the caller) or not returning (watchdog), or when an operation
// returns neither result nor error.
func exercise(k *K, text string, files []string) {
	data := []byte(text)
	manifest := func(m *yaml.Manifest) {
		for _, trusted := range []bool{true, false} {
			for _, r := range m.Resources {
				linter.Lint(r, trusted)
				k.Step(1)
			}
			linter.Manifest(m, trusted)
			k.Step(1)
		}
		pretty.Print(ioutil.Discard, m)
		m.Encode()
		m.MarshalJSON()
		k.Step(3)
		for _, r := range m.Resources {
			p, isPipe := r.(*yaml.Pipeline)
			if !isPipe || linter.Lint(r, true) != nil {
				continue
			}
			for _, o := range robustCompilers {
				if spec := o.compiler().Compile(p); spec == nil {
					k.Fail("no-result", "compiling yields no plan")
				}
				k.Step(1)
			}
		}
	}
	m, err := yaml.ParseString(text)
	if m == nil && err == nil {
		k.Fail("no-result", "parsing yields neither a result nor an error")
	}
	if err == nil && m != nil {
		manifest(m)
	}
	if mac, err := signer.Sign(data, signer.KeyString(keyA)); err == nil {
		signer.Verify(append([]byte("---\nkind: signature\nhmac: "+mac+"\n---\n"), data...), signer.KeyString(keyA))
		signer.WriteTo(data, mac)
		k.Step(3)
	}
	if out, err := signer.SignUpdate(data, signer.KeyString(keyA)); err == nil && len(out) == 0 {
		k.Fail("no-result", "signing yields neither a result nor an error")
	}
	signer.Verify(data, signer.KeyString(keyB))
	k.Step(2)
	for _, f := range append([]string{""}, files...) {
		for _, ref := range robustRefs {
			if ref != "" && f != "bitbucket-pipelines.yml" {
				continue
			}
			out, err := converter.Convert(data, converter.Metadata{Filename: f, Ref: ref, URL: "https://github.com/octocat/hello"})
			k.Step(1)
			if err != nil || bytes.Equal(out, data) {
				continue
			}
			if m, err := yaml.ParseBytes(out); err == nil {
				manifest(m)
			}
		}
	}
	k.Agree(1)
}

var robustCompilers = []copts{
	{},
	{creds: []byte("a\n"), skip: &compiler.SkipData{Branch: "master", Event: "push", Ref: "refs/heads/master", Repo: "a/b", Instance: "a", Cron: "a", Target: "a"}, whitelist: []string{"plugins/docker", "", "a:b@c"}, host: "/tmp/x"},
}

func runC05(c *Ctx) {
	lenv{}.set()
	for _, d := range robustDocs {
		d.node = parseNode(d.text)
		d.n = len(d.node.nodes())
	}
	c.Assume("the YAML decoder itself is a dependency; inputs whose aliases expand to more than 10^4 nodes, or nested deeper than 10^4 levels, are outside the explored space")
	run := func(k *K, d *robustDoc, text string) {
		k.In(func() string { return clip(text, 6000) })
		k.State(text)
		exercise(k, text, d.files)
	}
	// the documents themselves must be accepted, so that the mutations start
	// from configurations that reach the code behind the parser
	c.Range("documents", "the unchanged documents", len(robustDocs), func(k *K, i int) {
		d := robustDocs[i]
		text := d.node.textWith(nil)
		run(k, d, text)
		f := ""
		if len(d.files) > 0 {
			f = d.files[0]
		}
		out, err := converter.ConvertString(text, converter.Metadata{Filename: f})
		if err == nil && d.name != "circle" {
			_, err = yaml.ParseString(out)
		}
		if err != nil {
			k.Fail("refused", "a valid document is refused: %v", err)
		}
	})
	for _, d := range robustDocs {
		d := d
		c.Product("edit-"+d.name, fmt.Sprintf("every node (%d) x every change (%d)", d.n, len(robustEdits)), []int{d.n, len(robustEdits)}, func(k *K, ix []int) {
			run(k, d, d.node.textWith(map[int]edit{ix[0]: robustEdits[ix[1]]}))
		})
	}
	pairs := 3
	for _, d := range robustDocs {
		d := d
		if c.Quick {
			break
		}
		c.Product("edit2-"+d.name, fmt.Sprintf("every pair of nodes x %d x %d changes", pairs, pairs), []int{d.n, d.n, pairs, pairs}, func(k *K, ix []int) {
			if ix[0] >= ix[1] {
				return
			}
			run(k, d, d.node.textWith(map[int]edit{ix[0]: smallEdits[ix[2]], ix[1]: smallEdits[ix[3]]}))
		})
	}
	// sibling and nested changes: a node and another one within the same
	// container, all small changes
	small := smallEdits
	if c.Quick {
		small = small[:3]
	}
	for _, d := range robustDocs {
		d := d
		var near [][2]int
		all := d.node.nodes()
		idx := map[*ynode]int{}
		for i, n := range all {
			idx[n] = i
		}
		for _, n := range all {
			for i, a := range n.vals {
				for _, b := range n.vals[i+1:] {
					near = append(near, [2]int{idx[a], idx[b]})
				}
			}
		}
		c.Product("siblings-"+d.name, fmt.Sprintf("every pair of siblings (%d) x %d x %d changes", len(near), len(small), len(small)), []int{len(near), len(small), len(small)}, func(k *K, ix []int) {
			p := near[ix[0]]
			run(k, d, d.node.textWith(map[int]edit{p[0]: small[ix[1]], p[1]: small[ix[2]]}))
		})
	}
	// text mutations
	bytesIn := []string{"", "\n", " ", "\t", ":", "-", "\x00", "\xff", "&", "*", "!", "\"", "'", "{", "}", "[", "]", "|", ">", "#", "%", "?", ",", "~", "\r", "---\n", "\n...\n", "\u2028", "<<: *", "\ufeff", "\u0085"}
	if c.Quick {
		bytesIn = []string{"", "\n", ":", "\x00", "\ufeff"}
	}
	for _, d := range robustDocs {
		d := d
		text := strings.TrimPrefix(d.text, "\n")
		n := len(bytesIn)
		c.Product("bytes-"+d.name, fmt.Sprintf("every position x %d bytes, replacing or inserted, and every prefix", n), []int{len(text), n, 2}, func(k *K, ix []int) {
			i := ix[0]
			if ix[2] == 1 && ix[1] == 0 {
				run(k, d, text[:i])
				return
			}
			run(k, d, text[:i]+bytesIn[ix[1]]+text[i+1-ix[2]:])
		})
	}
	// word space of raw text
	tokens := []string{"kind: pipeline\n", "pipeline:\n", "---\n", "...\n", "- ", "a", ": ", "[", "]", "{", "}", "&a ", "*a", "!", "\"", "'", "|\n", "#", "\t", "\x00", "\xff", "\n", "%", "? ", "<<: ", "steps: ", "kind: signature\n", "\r\n", "  ", "\ufeff"}
	depth := 3
	if !c.Quick {
		depth = 4
	}
	c.Words("text", fmt.Sprintf("every text of up to %d of %d tokens", depth, len(tokens)), len(tokens), 0, depth, func(k *K, w []int) {
		var b strings.Builder
		for _, i := range w {
			b.WriteString(tokens[i])
		}
		run(k, &robustDoc{files: []string{".gitlab-ci.yml", "bitbucket-pipelines.yml"}}, b.String())
	})
	// combinations of documents
	roots := robustEdits
	if c.Quick {
		roots = smallEdits
	}
	c.Product("streams", "every sequence of two documents, one of them changed at its root", []int{len(robustDocs), len(robustDocs), len(roots), 2}, func(k *K, ix []int) {
		a, b := robustDocs[ix[0]], robustDocs[ix[1]]
		ta, tb := a.node.textWith(nil), b.node.textWith(nil)
		e := map[int]edit{0: roots[ix[2]]}
		if ix[3] == 0 {
			ta = a.node.textWith(e)
		} else {
			tb = b.node.textWith(e)
		}
		run(k, a, ta+"---\n"+tb)
	})
	// size: nesting, long lists, aliases
	deep := []int{10, 100, 1000, 10000}
	if c.Quick {
		deep = deep[:3]
	}
	shapes := []func(n int) string{
		func(n int) string { return strings.Repeat("[", n) + strings.Repeat("]", n) },
		func(n int) string { return strings.Repeat("{a: ", n) + "b" + strings.Repeat("}", n) },
		func(n int) string { return strings.Repeat("[", n) },
		func(n int) string { return strings.Repeat("- ", n) + "a" },
		func(n int) string { return "[" + strings.Repeat("~, ", n) + "~]" },
		func(n int) string { return "[" + strings.Repeat("a, ", n) + "a]" },
		func(n int) string { return "\"" + strings.Repeat("a", n*8) + "\"" },
		func(n int) string { return strings.Repeat("a", n*8) },
		func(n int) string { return "{" + strings.Repeat("[a]: b, ", n) + "}" },
		func(n int) string { return strings.Repeat("&a ", n) + "b" },
		func(n int) string {
			var b strings.Builder
			b.WriteString("{a0: &a0 [x, x], ")
			levels := 1
			for m := n; m > 10; m /= 10 {
				levels++
			}
			for i := 1; i <= levels; i++ {
				fmt.Fprintf(&b, "a%d: &a%d [%s*a%d], ", i, i, strings.Repeat(fmt.Sprintf("*a%d, ", i-1), 9), i-1)
			}
			return b.String() + "}"
		},
	}
	hosts := []string{"%s\n", "kind: pipeline\nname: x\nsteps: %s\n", "kind: pipeline\nsteps:\n- name: x\n  image: y\n  settings: {a: %s}\n", "kind: pipeline\nsteps:\n- name: x\n  image: y\n  commands: %s\n", "pipeline:\n  a: {image: b, c: %s}\n", "pipeline:\n  a: %s\nmatrix: {A: [1]}\n", "pipelines: {default: %s}\n", "x: %s\n", "kind: %s\n"}
	c.Product("size", "deep nesting, long lists and shared nodes in several positions", []int{len(shapes), len(deep), len(hosts)}, func(k *K, ix []int) {
		run(k, &robustDoc{files: []string{".gitlab-ci.yml", "bitbucket-pipelines.yml"}}, fmt.Sprintf(hosts[ix[2]], shapes[ix[0]](deep[ix[1]])))
	})
}
