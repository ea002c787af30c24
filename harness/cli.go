package main

import (
	"bytes"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"github.com/drone/drone-yaml/yaml"
	"github.com/drone/drone-yaml/yaml/converter"
	"github.com/drone/drone-yaml/yaml/linter"
	"github.com/drone/drone-yaml/yaml/pretty"
	"github.com/drone/drone-yaml/yaml/signer"
)

func init() { register("C38", runC38) }

// ---------------------------------------------------------------------
// The command line tool, executed as an unprivileged user
// ---------------------------------------------------------------------

// tool holds a copy of the binary which the unprivileged user can execute.
type tool struct {
	*sandbox
	bin string
}

func newTool() *tool {
	t := &tool{sandbox: newSandbox()}
	t.bin = filepath.Join(t.dir, "drone-yaml")
	b, err := ioutil.ReadFile(filepath.Join(os.Getenv("VERIF_BUILD"), "h.cli"))
	if err == nil {
		err = ioutil.WriteFile(t.bin, b, 0755)
	}
	if err != nil {
		fatalf("tool: %v", err)
	}
	return t
}

// home is a scratch directory for one history.
func (t *tool) home() string {
	home, err := os.MkdirTemp(t.dir, "h")
	if err != nil {
		fatalf("scratch: %v", err)
	}
	os.Chmod(home, 0755)
	if t.cred != nil {
		os.Chown(home, int(t.cred.Uid), int(t.cred.Gid))
	}
	return home
}

func (t *tool) write(home, name string, data []byte, mode os.FileMode) {
	path := filepath.Join(home, name)
	os.Remove(path)
	if err := ioutil.WriteFile(path, data, mode); err != nil {
		fatalf("scratch: %v", err)
	}
	os.Chmod(path, mode)
	if t.cred != nil {
		os.Chown(path, int(t.cred.Uid), int(t.cred.Gid))
	}
}

// where the output of a command goes
const (
	toBuffer = iota
	toFull   // a full device
	toBroken // a pipe that nobody reads
)

type toolResult struct {
	code     int // -1: ended by a signal
	out, err string
}

func (r toolResult) String() string {
	return fmt.Sprintf("exit %d\nstdout: %q\nstderr: %q", r.code, clip(r.out, 1500), clip(r.err, 1500))
}

func (t *tool) exec(home string, args, env []string, stdout, stderr int, limit string) (r toolResult) {
	bin := t.bin
	if limit != "" {
		args = append([]string{"-c", limit + ` && exec "$0" "$@"`, bin}, args...)
		bin = "/bin/sh"
	}
	cmd := exec.Command(bin, args...)
	cmd.Dir = home
	cmd.Env = append([]string{"PATH=/usr/bin:/bin", "HOME=" + home}, env...)
	var out, errb bytes.Buffer
	var closers []*os.File
	open := func(how int, b *bytes.Buffer) interface{ Write([]byte) (int, error) } {
		switch how {
		case toFull:
			f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
			if err != nil {
				fatalf("full device: %v", err)
			}
			closers = append(closers, f)
			return f
		case toBroken:
			r, w, err := os.Pipe()
			if err != nil {
				fatalf("pipe: %v", err)
			}
			r.Close()
			closers = append(closers, w)
			return w
		}
		return b
	}
	cmd.Stdout, cmd.Stderr = open(stdout, &out), open(stderr, &errb)
	cmd.SysProcAttr = &syscall.SysProcAttr{Credential: t.cred, Setpgid: true}
	if err := cmd.Start(); err != nil {
		fatalf("tool: %v", err)
	}
	for _, f := range closers {
		f.Close()
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		<-done
	}
	r.out, r.err, r.code = out.String(), errb.String(), cmd.ProcessState.ExitCode()
	return
}

// ---------------------------------------------------------------------
// C38
// ---------------------------------------------------------------------

// toolCmd is one command with the prediction of its effect.
type toolCmd struct {
	name string
	args []string // without the file
	// effect predicts the exit (0: success, 1: failure, -1: either), the
	// printed result ("": none) and the content of the file afterwards.
	effect func(name string, data []byte) (exit int, printed string, after []byte)
	edit   func(data []byte) []byte // an edit of the user instead
	onOut  bool                     // the result goes to the standard output
	save   bool
}

const shortKey = "tooshort"

func toolCmds() []toolCmd {
	addr := "https://github.com/octocat/hello"
	format := func(data []byte) ([]byte, error) {
		m, err := yaml.ParseBytes(data)
		if err != nil {
			return nil, err
		}
		var b bytes.Buffer
		pretty.Print(&b, m)
		return b.Bytes(), nil
	}
	convert := func(url string) func(string, []byte) ([]byte, error) {
		return func(name string, data []byte) ([]byte, error) {
			return converter.Convert(append([]byte{}, data...), converter.Metadata{Filename: name, URL: url})
		}
	}
	produce := func(f func(string, []byte) ([]byte, error), save bool) func(string, []byte) (int, string, []byte) {
		return func(name string, data []byte) (int, string, []byte) {
			out, err := f(name, data)
			switch {
			case err != nil:
				return 1, "", data
			case save:
				return 0, "", out
			}
			return 0, string(out), data
		}
	}
	fm := func(name string, data []byte) ([]byte, error) { return format(data) }
	sign := func(key string) func(string, []byte) (int, string, []byte) {
		return func(name string, data []byte) (int, string, []byte) {
			mac, err := signer.Sign(data, signer.KeyString(key))
			if err != nil {
				return 1, "", data
			}
			return 0, mac + "\n", data
		}
	}
	signSave := func(key string) func(string, []byte) (int, string, []byte) {
		return produce(func(name string, data []byte) ([]byte, error) {
			return signer.SignUpdate(data, signer.KeyString(key))
		}, true)
	}
	verify := func(key string) func(string, []byte) (int, string, []byte) {
		return func(name string, data []byte) (int, string, []byte) {
			ok, err := signer.Verify(data, signer.KeyString(key))
			if err != nil || !ok {
				return 1, "", data
			}
			return 0, "\x00", data // some message
		}
	}
	lint := func(priv bool) func(string, []byte) (int, string, []byte) {
		return func(name string, data []byte) (int, string, []byte) {
			m, err := yaml.ParseBytes(data)
			if err != nil {
				return 1, "", data
			}
			for _, r := range m.Resources {
				if linter.Lint(r, priv) != nil {
					return 1, "", data
				}
			}
			if linter.Manifest(m, priv) != nil {
				return -1, "", data
			}
			return 0, "", data
		}
	}
	return []toolCmd{
		{name: "fmt", args: []string{"fmt"}, effect: produce(fm, false)},
		{name: "fmt --save", args: []string{"fmt", "--save"}, effect: produce(fm, true), save: true},
		{name: "fmt -p -s", args: []string{"fmt", "-p", "-s"}, effect: produce(fm, true), save: true},
		{name: "convert", args: []string{"convert"}, effect: produce(convert(""), false)},
		{name: "convert --addr", args: []string{"convert", "--addr=" + addr}, effect: produce(convert(addr), false)},
		{name: "convert --save", args: []string{"convert", "--save"}, effect: produce(convert(""), true), save: true},
		{name: "convert --save --addr", args: []string{"convert", "-s", "--addr", addr}, effect: produce(convert(addr), true), save: true},
		{name: "sign A", args: []string{"sign", keyA}, effect: sign(keyA), onOut: true},
		{name: "sign A --save", args: []string{"sign", "--save", keyA}, effect: signSave(keyA), save: true},
		{name: "sign B -s", args: []string{"sign", "-s", keyB}, effect: signSave(keyB), save: true},
		{name: "sign short", args: []string{"sign", shortKey}, effect: sign(shortKey), onOut: true},
		{name: "sign short --save", args: []string{"sign", "-s", shortKey}, effect: signSave(shortKey), save: true},
		{name: "verify A", args: []string{"verify", keyA}, effect: verify(keyA), onOut: true},
		{name: "verify B", args: []string{"verify", keyB}, effect: verify(keyB), onOut: true},
		{name: "verify short", args: []string{"verify", shortKey}, effect: verify(shortKey), onOut: true},
		{name: "lint", args: []string{"lint"}, effect: lint(false)},
		{name: "lint -p", args: []string{"lint", "-p"}, effect: lint(true)},
		{name: "edit: append a document", edit: func(d []byte) []byte {
			return append(append([]byte{}, d...), "---\nkind: secret\nname: added\ndata: x\n"...)
		}},
		{name: "edit: drop the last line", edit: func(d []byte) []byte {
			s := strings.TrimSuffix(string(d), "\n")
			return []byte(s[:strings.LastIndex(s, "\n")+1])
		}},
		{name: "edit: change a value", edit: func(d []byte) []byte {
			return bytes.Replace(d, []byte("golang"), []byte("golang:1.2"), 1)
		}},
		{name: "edit: prepend an unfinished line", edit: func(d []byte) []byte { return append([]byte("key: [\n"), d...) }},
		{name: "edit: windows line ends", edit: func(d []byte) []byte {
			return bytes.Replace(bytes.Replace(d, []byte("\r\n"), []byte("\n"), -1), []byte("\n"), []byte("\r\n"), -1)
		}},
		{name: "edit: no final newline", edit: func(d []byte) []byte { return bytes.TrimRight(d, "\n") }},
	}
}

type toolState struct {
	file string
	data string
	path string // how it was reached
}

func toolStart() []toolState {
	pipe := "kind: pipeline\nname: default\nsteps:\n- name: build\n  image: golang\n  commands: [go build]\n"
	return []toolState{
		{".drone.yml", pipe, "a pipeline"},
		{".drone.yml", "---\n" + pipe + "---\nkind: secret\nname: s\ndata: d\n...\n", "two documents"},
		{".drone.yml", pipe + "  privileged: true\n", "a privileged step"},
		{".drone.yml", pipe + "---\n" + pipe, "a repeated name"},
		{".drone.yml", pipe + "---\nkind: signature\nhmac: 00ff\n", "a wrong signature"},
		{".drone.yml", "", "an empty file"},
		{".drone.yml", "# only a comment\n", "a comment"},
		{".drone.yml", "kind: pipeline\nsteps: [\n", "broken yaml"},
		{".drone.yml", "\x00\x01binary\xff\n", "binary data"},
		{".drone.yml", "pipeline:\n  build:\n    image: golang\n    commands: [go build]\n", "a legacy configuration"},
		{".drone.yml", "pipeline:\n  build:\n    image: golang:${V}\nmatrix: {V: [1, 2]}\n", "a legacy matrix"},
		{".drone.yml", "pipeline: [\n", "a broken legacy configuration"},
		{".gitlab-ci.yml", "image: golang\nbuild: {script: go build}\n", "a gitlab configuration"},
		{".gitlab-ci.yml", "build: [\n", "a broken gitlab configuration"},
		{"bitbucket-pipelines.yml", "image: golang\npipelines:\n  default: [{step: {script: [go build]}}]\n", "a bitbucket configuration"},
		{"a file", pipe, "a name with a space"},
		{"-s", pipe, "a name like an option"},
	}
}

func runC38(c *Ctx) {
	t := newTool()
	defer t.close()
	cmds := toolCmds()
	depth := 2
	if !c.Quick {
		depth = 4
	}
	// the states that the commands and edits reach, by the model
	start := toolStart()
	seen := map[string]bool{}
	var states []toolState
	frontier := start
	for _, s := range start {
		seen[s.file+"\x00"+s.data] = true
	}
	levels := []int{}
	for d := 0; ; d++ {
		states = append(states, frontier...)
		levels = append(levels, len(frontier))
		if d == depth || len(states) > 60000 {
			break
		}
		var next []toolState
		for _, s := range frontier {
			for _, x := range cmds {
				var after []byte
				if x.edit != nil {
					after = x.edit([]byte(s.data))
				} else {
					_, _, after = x.effect(s.file, []byte(s.data))
				}
				key := s.file + "\x00" + string(after)
				if len(after) < 4096 && !seen[key] {
					seen[key] = true
					next = append(next, toolState{s.file, string(after), s.path + "; " + x.name})
				}
			}
		}
		frontier = next
	}
	c.extra["states_per_depth"] = levels
	var run []toolCmd
	for _, x := range cmds {
		if x.edit == nil {
			run = append(run, x)
		}
	}
	argv := func(x toolCmd, file string) []string {
		a := append([]string{}, x.args...)
		if strings.HasPrefix(file, "-") {
			a = append(a, "--")
		}
		return append(a, file)
	}
	read := func(home, file string) string {
		b, err := ioutil.ReadFile(filepath.Join(home, file))
		if err != nil {
			return "(" + err.Error() + ")"
		}
		return string(b)
	}
	// judge compares one execution with its prediction
	judge := func(k *K, x toolCmd, file, before string, r toolResult, after string) {
		exit, printed, want := x.effect(file, []byte(before))
		k.Step(1)
		k.Agree(1)
		if exit >= 0 && (r.code == 0) != (exit == 0) {
			k.Fail("status", "%s: the command should %s\n%s", x.name, []string{"succeed", "fail"}[exit], r)
		}
		if r.code != 0 && after != before {
			k.Fail("changed-on-failure", "%s failed and left another file behind:\n%s\n%s", x.name, textDiff(before, after), r)
		}
		if r.code != 0 {
			return
		}
		if after != string(want) {
			k.Fail("content", "%s: the file afterwards is not as predicted:\n%s", x.name, textDiff(string(want), after))
		}
		switch {
		case printed == "\x00":
			if r.out == "" {
				k.Fail("silent", "%s does not report its success\n%s", x.name, r)
			}
		case printed != "":
			if r.out != printed && r.err != printed {
				k.Fail("printed", "%s does not print its result:\n%s\n%s", x.name, textDiff(printed, r.out+r.err), r)
			}
		case x.save && (strings.TrimSpace(r.err) != "" && !strings.Contains(r.err, "warn")):
			k.Fail("noise", "%s succeeds with an error message\n%s", x.name, r)
		}
	}
	c.Product("commands", fmt.Sprintf("every command on every file content reachable by at most %d commands and edits", depth), []int{len(states), len(run)}, func(k *K, ix []int) {
		s, x := states[ix[0]], run[ix[1]]
		k.In(func() string { return s.path + "; " + x.name + "\n" + s.data })
		k.State(s.file + "\x00" + s.data)
		home := t.home()
		defer os.RemoveAll(home)
		t.write(home, s.file, []byte(s.data), 0644)
		r := t.exec(home, argv(x, s.file), nil, toBuffer, toBuffer, "")
		judge(k, x, s.file, s.data, r, read(home, s.file))
	})
	// uninterrupted histories in one directory, with another file beside
	few := []int{}
	for i, x := range cmds {
		switch x.name {
		case "fmt --save", "convert --save", "sign A --save", "sign B -s", "verify A", "sign short --save", "edit: append a document", "edit: drop the last line", "lint", "fmt":
			few = append(few, i)
		}
	}
	hist := 3
	if !c.Quick {
		hist = 4
	}
	var words [][]int
	for _, i := range []int{0, 1, 9, 12} {
		words = append(words, []int{i})
	}
	dims := []int{len(words)}
	for i := 0; i < hist; i++ {
		dims = append(dims, len(few))
	}
	c.Product("histories", fmt.Sprintf("every history of %d commands and edits on four files, in one directory, with the default file name", hist), dims, func(k *K, ix []int) {
		s := start[words[ix[0]][0]]
		var names []string
		k.In(func() string { return s.path + "; " + strings.Join(names, "; ") + "\n" + s.data })
		home := t.home()
		defer os.RemoveAll(home)
		t.write(home, s.file, []byte(s.data), 0644)
		t.write(home, "other.yml", []byte(s.data), 0644)
		now := s.data
		for _, i := range ix[1:] {
			x := cmds[few[i]]
			names = append(names, x.name)
			if x.edit != nil {
				now = string(x.edit([]byte(now)))
				t.write(home, s.file, []byte(now), 0644)
				continue
			}
			args := argv(x, s.file)
			if s.file == ".drone.yml" {
				args = x.args
			}
			r := t.exec(home, args, nil, toBuffer, toBuffer, "")
			_, _, want := x.effect(s.file, []byte(now))
			got := read(home, s.file)
			judge(k, x, s.file, now, r, got)
			k.State(s.file + "\x00" + got)
			if o := read(home, "other.yml"); o != s.data {
				k.Fail("other-file", "%s changed another file:\n%s", x.name, textDiff(s.data, o))
			}
			if k.Failed() {
				return
			}
			now = string(want)
		}
	})
	// faults of the output and of the file
	type fault struct {
		name     string
		out, err int
		mode     os.FileMode
		limit    string
		kind     string
	}
	faults := []fault{
		{name: "stdout full", out: toFull, mode: 0644},
		{name: "stderr full", err: toFull, mode: 0644},
		{name: "both full", out: toFull, err: toFull, mode: 0644},
		{name: "stdout broken", out: toBroken, mode: 0644},
		{name: "stderr broken", err: toBroken, mode: 0644},
		{name: "both broken", out: toBroken, err: toBroken, mode: 0644},
		{name: "read-only file", mode: 0444},
		{name: "unreadable file", mode: 0000},
		{name: "write-only file", mode: 0200},
		{name: "no file space", mode: 0644, limit: "ulimit -f 0"},
		{name: "missing file", kind: "missing"},
		{name: "directory", kind: "directory"},
	}
	bases := states[:levels[0]]
	if !c.Quick && len(levels) > 1 {
		bases = states[:levels[0]+levels[1]]
	}
	asRoot := t.cred == nil
	c.Product("faults", "every command on every initial content (thorough: and those one step away), with every fault of the output or the file", []int{len(bases), len(run), len(faults)}, func(k *K, ix []int) {
		s, x, f := bases[ix[0]], run[ix[1]], faults[ix[2]]
		if asRoot && f.mode != 0644 && f.kind == "" {
			return
		}
		k.In(func() string { return s.path + "; " + x.name + " with " + f.name + "\n" + s.data })
		k.State(s.file + "\x00" + s.data + "\x00" + f.name)
		home := t.home()
		defer os.RemoveAll(home)
		switch f.kind {
		case "missing":
		case "directory":
			os.Mkdir(filepath.Join(home, s.file), 0777)
			os.Chmod(filepath.Join(home, s.file), 0777)
		default:
			t.write(home, s.file, []byte(s.data), f.mode)
		}
		r := t.exec(home, argv(x, s.file), nil, f.out, f.err, f.limit)
		k.Step(1)
		k.Agree(1)
		if f.kind != "" {
			if r.code == 0 {
				k.Fail("fault-status", "%s succeeds with a %s", x.name, f.name)
			}
			return
		}
		after := read(home, s.file)
		exit, printed, want := x.effect(s.file, []byte(s.data))
		// can the command do its work?
		lost := false
		switch {
		case f.mode&0400 == 0:
			lost = true
		case x.save && exit == 0:
			lost = f.mode&0200 == 0 || f.limit != "" && len(want) > 0
		case printed != "":
			lost = f.out != toBuffer && f.err != toBuffer ||
				f.out != toBuffer && x.onOut || f.err != toBuffer && !x.onOut
		}
		switch {
		case lost && r.code == 0:
			// the result may have been printed elsewhere
			if printed != "" && printed != "\x00" && (r.out == printed || r.err == printed) {
				return
			}
			if x.save && after == string(want) {
				return // replaced in another way than by writing into it
			}
			k.Fail("fault-success", "%s reports success with %s, but its result was not written\n%s", x.name, f.name, r)
		case !lost && exit == 0 && r.code != 0:
			if f.out == toBuffer && f.err == toBuffer {
				k.Fail("fault-status", "%s fails with %s\n%s", x.name, f.name, r)
			}
		case exit == 1 && r.code == 0:
			k.Fail("fault-status", "%s succeeds with %s\n%s", x.name, f.name, r)
		}
		writing := x.save && exit == 0 && lost
		if r.code != 0 && after != s.data && !writing {
			k.Fail("changed-on-failure", "%s failed with %s and left another file behind:\n%s\n%s", x.name, f.name, textDiff(s.data, after), r)
		}
		if r.code == 0 && after != string(want) {
			k.Fail("content", "%s with %s: the file afterwards is not as predicted:\n%s", x.name, f.name, textDiff(string(want), after))
		}
	})
}
