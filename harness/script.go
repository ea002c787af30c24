package main

import (
	"bytes"
	"encoding/base64"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/drone/drone-runtime/engine"
	"github.com/drone/drone-yaml/yaml"
)

func init() {
	register("C20", runC20)
	register("C21", runC21)
}

// ---------------------------------------------------------------------
// C20: the shell script, executed by the real shell
// ---------------------------------------------------------------------

// sandbox runs scripts as an unprivileged user in a scratch directory.
type sandbox struct {
	dir  string
	cred *syscall.Credential
}

func newSandbox() *sandbox {
	dir, err := os.MkdirTemp("/tmp", "verif-sh-")
	if err != nil {
		fatalf("scratch: %v", err)
	}
	os.Chmod(dir, 0755)
	s := &sandbox{dir: dir}
	if os.Getuid() == 0 {
		s.cred = &syscall.Credential{Uid: 65534, Gid: 65534}
		cmd := exec.Command("/bin/sh", "-c", "exit 0")
		cmd.SysProcAttr = &syscall.SysProcAttr{Credential: s.cred}
		if cmd.Run() != nil {
			s.cred = nil
		}
	}
	return s
}

func (s *sandbox) close() { os.RemoveAll(s.dir) }

type shResult struct {
	out    string
	err    string
	status int
	home   string
}

// run executes a script file the way the plan says; the home directory is
// kept until the caller removes it.
func (s *sandbox) run(data []byte, command, args []string, mount string, env []string, sub bool) (r shResult) {
	home, err := os.MkdirTemp(s.dir, "h")
	if err != nil {
		fatalf("scratch: %v", err)
	}
	os.Chmod(home, 0755)
	if sub {
		os.Mkdir(filepath.Join(home, "sub"), 0777)
		os.Chmod(filepath.Join(home, "sub"), 0777)
	}
	file := filepath.Join(home, "..", filepath.Base(home)+".sh")
	file = filepath.Clean(file)
	if err := os.WriteFile(file, data, 0755); err != nil {
		fatalf("scratch: %v", err)
	}
	defer os.Remove(file)
	if s.cred != nil {
		os.Chown(home, int(s.cred.Uid), int(s.cred.Gid))
	}
	r.home = home
	var a []string
	for _, x := range append(append([]string{}, command[1:]...), args...) {
		a = append(a, strings.ReplaceAll(x, mount, file))
	}
	cmd := exec.Command(command[0], a...)
	cmd.Dir = home
	cmd.Env = append([]string{"PATH=/usr/bin:/bin", "HOME=" + home}, env...)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	cmd.SysProcAttr = &syscall.SysProcAttr{Credential: s.cred, Setpgid: true}
	if err := cmd.Start(); err != nil {
		r.err, r.status = err.Error(), -1
		return
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		<-done
		r.status = -2
	}
	if r.status == 0 {
		r.status = cmd.ProcessState.ExitCode()
	}
	r.out, r.err = out.String(), errb.String()
	return
}

// scriptOf extracts the script of a step with commands and checks how it is
// started.
func scriptOf(k *K, spec *engine.Spec, s *engine.Step) (data []byte, path string, ok bool) {
	k.Agree(1)
	if len(s.Files) != 1 {
		k.Fail("file", "%s mounts %d files, want one script", s.Metadata.Name, len(s.Files))
		return nil, "", false
	}
	f, found := engine.LookupFile(spec, s.Files[0].Name)
	if !found {
		k.Fail("file", "%s mounts the unknown file %q", s.Metadata.Name, s.Files[0].Name)
		return nil, "", false
	}
	path = s.Files[0].Path
	if len(s.Docker.Command) == 0 || s.Docker.Command[0] != "/bin/sh" || path == "" {
		k.Fail("start", "%s starts %q %q with the script at %q, want /bin/sh on the script", s.Metadata.Name, s.Docker.Command, s.Docker.Args, path)
		return nil, "", false
	}
	all := append(append([]string{}, s.Docker.Command...), s.Docker.Args...)
	if all[len(all)-1] != path || len(all) != 2 {
		k.Fail("start", "%s starts %q, want /bin/sh %s", s.Metadata.Name, all, path)
		return nil, "", false
	}
	return f.Data, path, true
}

// shState is the model of a shell running the commands of the domain.
type shState struct {
	x, y    string
	down    bool // in sub
	fn      bool
	noErr   bool // set +e
	out     strings.Builder
	stopped bool
	status  int
}

type shCmd struct {
	text string
	run  func(s *shState)
}

func (s *shState) fail(code int) {
	s.status = code
	if !s.noErr {
		s.stopped = true
	}
}

func shCommands() []shCmd {
	say := func(t string) func(s *shState) {
		return func(s *shState) { s.out.WriteString(t); s.status = 0 }
	}
	return []shCmd{
		{"echo A", say("A\n")},
		{"X=1", func(s *shState) { s.x = "1"; s.status = 0 }},
		{`echo "x=$X"`, func(s *shState) { s.out.WriteString("x=" + s.x + "\n"); s.status = 0 }},
		{"cd sub", func(s *shState) {
			if s.down {
				s.fail(2)
			} else {
				s.down = true
				s.status = 0
			}
		}},
		{"test -d sub && echo top || echo below", func(s *shState) {
			if s.down {
				say("below\n")(s)
			} else {
				say("top\n")(s)
			}
		}},
		{"false", func(s *shState) { s.fail(1) }},
		{"exit 3", func(s *shState) { s.status, s.stopped = 3, true }},
		{"exit 0", func(s *shState) { s.status, s.stopped = 0, true }},
		{"false || true", say("")},
		{"cat <<E\nhere $X\nE", func(s *shState) { s.out.WriteString("here " + s.x + "\n"); s.status = 0 }},
		{"cat", say("")},
		{"echo a\necho b", say("a\nb\n")},
		{"# a comment", func(s *shState) { s.status = 0 }},
		{"", func(s *shState) { s.status = 0 }},
		{"false\necho after", func(s *shState) {
			s.fail(1)
			if !s.stopped {
				say("after\n")(s)
			}
		}},
		{"export Y=2", func(s *shState) { s.y = "2"; s.status = 0 }},
		{"sh -c 'echo y=$Y'", func(s *shState) { s.out.WriteString("y=" + s.y + "\n"); s.status = 0 }},
		{"f() { echo fn; }", func(s *shState) { s.fn = true; s.status = 0 }},
		{"f", func(s *shState) {
			if s.fn {
				say("fn\n")(s)
			} else {
				s.fail(127)
			}
		}},
		{"set +e", func(s *shState) { s.noErr = true; s.status = 0 }},
		{"false | true", say("")},
		{"(exit 4)", func(s *shState) { s.fail(4) }},
		{"printf '%s|%d\\n' '$X' 7 100%", nil},
		{`echo "q" 'r' "it's" $((1+1))`, say("q r it's 2\n")},
		{"echo one; echo two", say("one\ntwo\n")},
		{"if true; then\n  echo yes\nfi", say("yes\n")},
		{"echo $0 | sed 's#.*/##; s#^h.*##'", say("\n")},
	}
}

// unbreak writes the two-character sequence \n as a line break: announced
// commands may show line breaks either way.
func unbreak(s string) string { return strings.ReplaceAll(s, `\n`, "\n") }

func shQuote(s string) string { return "'" + strings.ReplaceAll(s, "'", `'\''`) + "'" }

func compileCommands(cmds []string) *cc {
	return &cc{p: &yaml.Pipeline{Name: "p", Steps: []*yaml.Container{{Name: "s", Image: "i", Commands: cmds}, {Name: "other", Image: "i", Commands: []string{"echo OTHER"}}}}}
}

func runC20(c *Ctx) {
	sb := newSandbox()
	defer sb.close()
	// the shape of every step
	keep := func(n string) bool {
		return !strings.Contains(n, "when.") && !strings.HasPrefix(n, "trigger")
	}
	compileSpace(c, keep, 2, 3, func(k *K, x *cc, spec *engine.Spec) {
		if x.p.Platform.OS == "windows" {
			return
		}
		var owned int
		for _, r := range rows(k, x.p, spec) {
			switch {
			case r.clone() || r.build():
			case len(r.src.Commands) > 0:
				if data, _, ok := scriptOf(k, spec, r.step); ok {
					owned++
					for _, l := range r.src.Commands {
						if !bytes.Contains(data, []byte(l)) {
							k.Fail("command", "%s: the script does not contain the command %q", r.at(), l)
						}
					}
				}
			default:
				k.eq("alone", r.at()+": entrypoint", norm0(r.step.Docker.Command), norm0(r.src.Entrypoint))
				k.eq("alone", r.at()+": command", norm0(r.step.Docker.Args), norm0(r.src.Command))
				k.eq("alone", r.at()+": files", len(r.step.Files), 0)
			}
		}
		creds := 0
		if len(x.o.creds) > 0 && !x.p.Clone.Disable {
			creds = 1
		}
		k.eq("file", "files of the plan", len(spec.Files), owned+creds)
	})

	// all command sequences
	cmds := shCommands()
	var use []shCmd
	for _, m := range cmds {
		if m.run != nil {
			use = append(use, m)
		}
	}
	l := 2
	if !c.Quick {
		l = 3
	}
	c.Words("sequences", fmt.Sprintf("all sequences of up to %d of %d commands, executed by /bin/sh", l, len(use)), len(use), 1, l, func(k *K, w []int) {
		var texts []string
		for _, i := range w {
			texts = append(texts, use[i].text)
		}
		k.In(func() string { return fmt.Sprintf("commands %q", texts) })
		k.State(fmt.Sprint(w))
		x := compileCommands(texts)
		spec := x.compile()
		k.Step(2)
		rs := rows(k, x.p, spec)
		if rs == nil {
			return
		}
		data, path, ok := scriptOf(k, spec, rs[1].step)
		if !ok {
			return
		}
		r := sb.run(data, rs[1].step.Docker.Command, rs[1].step.Docker.Args, path, nil, true)
		defer os.RemoveAll(r.home)
		m := &shState{}
		for _, i := range w {
			m.out.WriteString("+ " + use[i].text + "\n")
			use[i].run(m)
			if m.stopped {
				break
			}
		}
		k.Agree(2)
		if unbreak(r.out) != unbreak(m.out.String()) {
			k.Fail("output", "the script prints\n%s\nwant\n%s\nstderr %s", r.out, m.out.String(), clip(r.err, 300))
		}
		if (r.status == 0) != (m.status == 0) {
			k.Fail("status", "the script ends with status %d, want %d", r.status, m.status)
		}
	})

	// any text of a command: the script behaves like the bare command
	syms := []string{"a", " ", "\\", "'", "\"", "\n", "#", "$X", "%s", "\t", ";", "$", "\r", "<<E\n", "E", "\\\n", "(", ")"}
	tl := 3
	if !c.Quick {
		tl = 4
	}
	behaves := func(k *K, text string) {
		if n := len(text) - len(strings.TrimRight(text, "\\")); n%2 == 1 {
			return // an unfinished continuation
		}
		const first, last = "X=LEAK", "echo end"
		k.In(func() string { return fmt.Sprintf("commands %q", []string{first, text, last}) })
		k.State(text)
		x := compileCommands([]string{first, text, last})
		spec := x.compile()
		k.Step(2)
		rs := rows(k, x.p, spec)
		if rs == nil {
			return
		}
		data, path, ok := scriptOf(k, spec, rs[1].step)
		if !ok {
			return
		}
		ref := func(between string) shResult {
			return sb.run([]byte("set -e\n"+first+"\n"+between+text+"\n"+between+last+"\n"), []string{"/bin/sh"}, []string{path}, path, nil, false)
		}
		bare := ref("")
		os.RemoveAll(bare.home)
		// a text that is no command of its own (an unfinished quote, here
		// document or continuation) has no meaning to compare with
		if marked := ref("echo MARK\n"); true {
			os.RemoveAll(marked.home)
			if strings.Count(marked.out, "MARK\n") != 2 && bare.status == 0 || strings.ReplaceAll(marked.out, "MARK\n", "") != bare.out || marked.status != bare.status {
				return
			}
			if bare.status != 0 && strings.Count(marked.out, "MARK\n") != 1 {
				return
			}
		}
		r := sb.run(data, rs[1].step.Docker.Command, rs[1].step.Docker.Args, path, nil, false)
		defer os.RemoveAll(r.home)
		// what is left after the announcements
		out := r.out
		for _, l := range []string{first, text, last} {
			// characters that cannot be seen may be announced as escapes
			q := strconv.Quote(l)
			for _, a := range []string{"+ " + l + "\n", "+ " + strings.ReplaceAll(q[1:len(q)-1], `\"`, `"`) + "\n"} {
				if i := strings.Index(unbreak(out), unbreak(a)); i >= 0 {
					u := unbreak(out)
					out = u[:i] + u[i+len(unbreak(a)):]
					break
				}
			}
		}
		k.Agree(2)
		if (r.status == 0) != (bare.status == 0) {
			k.Fail("status", "%q: the script ends with status %d, the bare commands with %d; stderr %s", text, r.status, bare.status, clip(r.err, 300))
		} else if !strings.Contains(text, "\\") && bare.status == 0 && unbreak(out) != unbreak(bare.out) {
			k.Fail("text", "%q: the script prints %q, the bare commands %q", text, out, bare.out)
		} else if bare.status == 0 {
			// backslashes may be lost in the announcement, never in the output
			if want := strings.TrimSuffix(bare.out, "end\n"); want != "" && !strings.Contains(r.out, want) {
				k.Fail("text", "%q: the script prints %q, the bare commands %q", text, r.out, bare.out)
			}
		}
	}
	c.Words("texts", fmt.Sprintf("printf with all texts of up to %d symbols over %q, between two other commands: same output and status as the bare commands", tl, syms), len(syms), 0, tl, func(k *K, w []int) {
		text := "printf '<%s>' "
		if len(w) == tl {
			text = "" // long texts stand alone
		}
		for _, i := range w {
			text += syms[i]
		}
		behaves(k, text)
	})
	long := shellTexts(c)
	c.Range("words", "every literal of the code and fixed words, and long words, printed: same output and status as the bare commands", len(long), func(k *K, i int) { behaves(k, long[i]) })

	// announcements
	alpha := []string{"$", "`", `"`, "'", "(", ")", "a", " ", "*", "#", "%", "!", "&", ";", "|", "<", ">", "{", "}", "~", "$X", "$(touch canary)", "`touch canary`", "${X:=canary}", "\n", "é", "%s", "$$", "$((1+1))", "<<EOF", "=", "[", "]", "^", "?", "-n", "\\ "}
	d := 2
	if !c.Quick {
		d = 3
	}
	c.Words("announcements", fmt.Sprintf("all texts of up to %d symbols over %q announced by /bin/sh (one script per text and last symbol)", d+1, alpha), len(alpha), 0, d, func(k *K, w []int) {
		if c.Quick && len(w) == d && w[0] > w[1] {
			return // quick: unordered pairs before the last symbol
		}
		pre := ""
		for _, i := range w {
			pre += alpha[i]
		}
		var texts []string
		for _, a := range alpha {
			texts = append(texts, ": "+shQuote(pre+a))
		}
		k.In(func() string { return fmt.Sprintf("commands %q", texts) })
		k.State(pre)
		x := compileCommands(texts)
		spec := x.compile()
		k.Step(1 + len(texts))
		rs := rows(k, x.p, spec)
		if rs == nil {
			return
		}
		data, path, ok := scriptOf(k, spec, rs[1].step)
		if !ok {
			return
		}
		r := sb.run(data, rs[1].step.Docker.Command, rs[1].step.Docker.Args, path, []string{"X=LEAK"}, false)
		defer os.RemoveAll(r.home)
		want := "+ " + strings.Join(texts, "\n+ ") + "\n"
		k.Agree(len(texts))
		if unbreak(r.out) != want || r.status != 0 {
			k.Fail("announce", "the script announces (status %d)\n%s\nwant\n%s\nstderr %s", r.status, clip(textDiff(unbreak(r.out), want), 600), "", clip(r.err, 300))
		}
		es, _ := os.ReadDir(r.home)
		if len(es) != 0 {
			k.Fail("evaluated", "announcing a command evaluated a part of it: %s was created", es[0].Name())
		}
	})

	// credentials
	vals := []string{"\x00", "", "h.io", "a b", "$X", "`id`", "$(touch canary)", `a\b"'`, "é"}
	vars := []string{"CI_NETRC_MACHINE", "CI_NETRC_USERNAME", "CI_NETRC_PASSWORD"}
	show := `env | grep -c -e 'NETRC_USERNAME' -e 'NETRC_PASSWORD' || true`
	c.Product("credentials", "values of the three credential variables x DRONE_ variables set; two commands inspect the environment and the saved file", []int{len(vals), len(vals), len(vals), 2}, func(k *K, ix []int) {
		env := []string{"X=LEAK"}
		get := func(i int) string {
			if vals[ix[i]] == "\x00" {
				return ""
			}
			return vals[ix[i]]
		}
		for i, n := range vars {
			if vals[ix[i]] != "\x00" {
				env = append(env, n+"="+vals[ix[i]])
			}
		}
		if ix[3] == 1 {
			env = append(env, "DRONE_NETRC_MACHINE=m", "DRONE_NETRC_USERNAME=u", "DRONE_NETRC_PASSWORD=p")
		}
		k.In(func() string { return fmt.Sprintf("environment %q", env) })
		k.State(fmt.Sprint(ix))
		x := compileCommands([]string{show, "cat \"$HOME/.netrc\" 2>/dev/null || echo none", `stat -c %a "$HOME/.netrc" 2>/dev/null || true`, `echo "[$CI_NETRC_USERNAME$CI_NETRC_PASSWORD$DRONE_NETRC_USERNAME$DRONE_NETRC_PASSWORD]"`})
		spec := x.compile()
		k.Step(2)
		rs := rows(k, x.p, spec)
		if rs == nil {
			return
		}
		data, path, ok := scriptOf(k, spec, rs[1].step)
		if !ok {
			return
		}
		r := sb.run(data, rs[1].step.Docker.Command, rs[1].step.Docker.Args, path, env, false)
		defer os.RemoveAll(r.home)
		// drop the announcements
		var out []string
		for _, line := range strings.Split(r.out, "\n") {
			if !strings.HasPrefix(line, "+ ") {
				out = append(out, line)
			}
		}
		want := "0\nnone\n[]\n"
		if get(0) != "" {
			want = fmt.Sprintf("0\nmachine %s\nlogin %s\npassword %s\n600\n[]\n", get(0), get(1), get(2))
		}
		k.Agree(1)
		if got := strings.Join(out, "\n"); got != want || r.status != 0 {
			k.Fail("credentials", "status %d, the commands see\n%s\nwant\n%s\nstderr %s", r.status, got, want, clip(r.err, 300))
		}
		es, _ := os.ReadDir(r.home)
		for _, e := range es {
			if e.Name() != ".netrc" {
				k.Fail("evaluated", "saving the credentials evaluated a part of them: %s was created", e.Name())
			}
		}
	})
	c.Assume("/bin/sh of this sandbox stands for the shells of the images; line breaks inside an announced command may be shown as \\n, and backslashes followed by a letter are left out of the announcements (shells differ in what echo makes of them)")
}

// ---------------------------------------------------------------------
// C21: the PowerShell script, read with the lexical rules of PowerShell
// ---------------------------------------------------------------------

// psQuote reports the characters PowerShell takes for a single quote.
func psQuote(r rune) bool { return r == '\'' || r >= 0x2018 && r <= 0x201b }

// psLiteral reads a single-quoted literal at the start of s: its value and
// what follows it.
func psLiteral(s string) (val, rest string, ok bool) {
	rs := []rune(s)
	if len(rs) == 0 || !psQuote(rs[0]) {
		return "", s, false
	}
	var out []rune
	for i := 1; i < len(rs); i++ {
		if psQuote(rs[i]) {
			if i+1 < len(rs) && psQuote(rs[i+1]) {
				out = append(out, rs[i])
				i++
				continue
			}
			return string(out), string(rs[i+1:]), true
		}
		out = append(out, rs[i])
	}
	return "", "", false
}

// psAnnounces reports whether the announced text shows the command, as it
// is or in the notation of a Go string.
func psAnnounces(text, cmd string) bool {
	if !strings.HasPrefix(text, "+ ") {
		return false
	}
	text = text[2:]
	if text == cmd {
		return true
	}
	u, err := strconv.Unquote(strings.ReplaceAll(text, `\$`, "$"))
	return err == nil && u == cmd
}

var psCheck = regexp.MustCompile(`^[ \t]*(;|\r?\n)\s*if\s*\(\s*\$LASTEXITCODE\s+-ne\s+0\s*\)\s*\{\s*exit\s+\$LASTEXITCODE\s*\}[ \t]*(\r?\n|$)`)
var psOpen = regexp.MustCompile(`^\s*Write-Output\s*\(\s*$`)
var psClose = regexp.MustCompile(`^\s*\)\s*;?[ \t]*\r?\n\s*&[ \t]`)

// checkPS reads the script of a step.
func checkPS(k *K, at string, s *engine.Step, cmds []string) {
	if !strings.HasPrefix(strings.ToLower(s.Envs["SHELL"]), "powershell") {
		k.Fail("shell", "%s: SHELL is %q", at, s.Envs["SHELL"])
	}
	all := strings.Join(append(append([]string{}, s.Docker.Command...), s.Docker.Args...), " ")
	k.Agree(1)
	if len(s.Docker.Command) == 0 || s.Docker.Command[0] != "powershell" || !strings.Contains(all, "FromBase64String($Env:CI_SCRIPT)") || !strings.Contains(all, "iex") {
		k.Fail("start", "%s starts %q %q, want powershell on the decoded CI_SCRIPT", at, s.Docker.Command, s.Docker.Args)
	}
	if len(s.Files) != 0 {
		k.Fail("start", "%s mounts files", at)
	}
	raw, err := base64.StdEncoding.DecodeString(s.Envs["CI_SCRIPT"])
	if err != nil {
		k.Fail("script", "%s: CI_SCRIPT is not base64: %v", at, err)
		return
	}
	script := string(raw)
	i := strings.Index(script, "Write-Output")
	if i < 0 {
		k.Fail("script", "%s: the script announces nothing", at)
		return
	}
	head, rest := script[:i], script[i:]
	for _, n := range []string{"CI_NETRC_USERNAME", "CI_NETRC_PASSWORD", "DRONE_NETRC_USERNAME", "DRONE_NETRC_PASSWORD", "CI_SCRIPT"} {
		k.Agree(1)
		if !regexp.MustCompile(`SetEnvironmentVariable\(\s*["']` + n + `["']\s*,\s*\$null\s*\)`).MatchString(head) {
			k.Fail("environment", "%s: %s is not cleared before the first command", at, n)
		}
	}
	for n, cmd := range cmds {
		k.Agree(1)
		q := strings.IndexFunc(rest, psQuote)
		if q < 0 || !psOpen.MatchString(rest[:q]) {
			k.Fail("announce", "%s: command %d is not announced by Write-Output: %q", at, n, clip(rest, 120))
			return
		}
		val, after, ok := psLiteral(rest[q:])
		if !ok {
			k.Fail("announce", "%s: the announcement of command %d does not end", at, n)
			return
		}
		if !psAnnounces(val, cmd) {
			k.Fail("announce", "%s: command %d (%q) is announced as %q", at, n, cmd, val)
			return
		}
		m := psClose.FindString(after)
		if m == "" {
			k.Fail("announce", "%s: the announcement of command %d ends early: %q follows", at, n, clip(after, 120))
			return
		}
		after = after[len(m):]
		if !strings.HasPrefix(after, cmd) {
			k.Fail("command", "%s: %q follows the announcement of command %d, want %q", at, clip(after, 120), n, cmd)
			return
		}
		after = after[len(cmd):]
		m = psCheck.FindString(after)
		if m == "" {
			k.Fail("check", "%s: no exit-code check after command %d: %q", at, n, clip(after, 120))
			return
		}
		// a comment at the end of the command goes on to the end of the line
		if strings.Contains(cmd, "#") && strings.HasPrefix(strings.TrimLeft(m, " \t"), ";") {
			k.Fail("check", "%s: the exit-code check after command %d (%q) is on the line of a comment", at, n, cmd)
			return
		}
		rest = after[len(m):]
	}
	if strings.TrimSpace(rest) != "" {
		k.Fail("extra", "%s: after the last command the script goes on with %q", at, clip(rest, 200))
	}
}

func runC21(c *Ctx) {
	keep := func(n string) bool { return !strings.Contains(n, "when.") && !strings.HasPrefix(n, "trigger") }
	win := func(k *K, x *cc, spec *engine.Spec) {
		for _, r := range rows(k, x.p, spec) {
			switch {
			case r.clone() || r.build():
			case len(r.src.Commands) > 0:
				checkPS(k, r.at(), r.step, r.src.Commands)
			default:
				k.eq("alone", r.at()+": entrypoint", norm0(r.step.Docker.Command), norm0(r.src.Entrypoint))
				k.eq("alone", r.at()+": command", norm0(r.step.Docker.Args), norm0(r.src.Command))
				k.eq("alone", r.at()+": files", len(r.step.Files), 0)
			}
		}
	}
	compileSpace(c, keep, 1, 2, func(k *K, x *cc, spec *engine.Spec) {
		x.p.Platform.OS = "windows"
		win(k, x, x.compile())
		k.Step(1)
	})
	alpha := []string{"'", "\u2018", "\u2019", "\u201a", "\u201b", `"`, "$", "`", "(", ")", ";", "a", " ", "\n", "\r", "\\", "%", "é", "\u201c", "\x00", "$(iex x)", "%s", "#", "&", "\U0001f600", "\x7f"}
	d := 3
	if !c.Quick {
		d = 5
	}
	c.Words("announcements", fmt.Sprintf("all commands of up to %d symbols over %q", d, alpha), len(alpha), 0, d, func(k *K, w []int) {
		var b strings.Builder
		for _, i := range w {
			b.WriteString(alpha[i])
		}
		cmd := b.String()
		x := compileCommands([]string{cmd})
		x.p.Platform.OS = "windows"
		k.In(func() string { return fmt.Sprintf("command %q", cmd) })
		k.State(cmd)
		spec := x.compile()
		k.Step(1)
		win(k, x, spec)
	})
	words := []string{"go build", "", "echo 'a'", "'", "\u2019; iex x; \u2018", `say "$x"`, "a\nb", "exit 1", "go build", "'); iex('x", "%d", "Write-Output ('+ x');"}
	l := 3
	if !c.Quick {
		l = 4
	}
	c.Words("sequences", fmt.Sprintf("all sequences of up to %d of %d commands in a step and a service", l, len(words)), len(words), 1, l, func(k *K, w []int) {
		var cmds []string
		for _, i := range w {
			cmds = append(cmds, words[i])
		}
		x := compileCommands(cmds)
		x.p.Services = []*yaml.Container{{Name: "d", Image: "i", Commands: cmds, Entrypoint: []string{"x"}, Command: []string{"y"}}}
		x.p.Platform.OS = "windows"
		k.In(func() string { return fmt.Sprintf("commands %q", cmds) })
		k.State(fmt.Sprint(w))
		spec := x.compile()
		k.Step(1)
		win(k, x, spec)
	})
	powershellDict(c, win)
	c.Assume("there is no PowerShell in the sandbox: the script is read with PowerShell's lexical rule for single-quoted literals (any of ' U+2018 U+2019 U+201A U+201B delimits, doubled it is one character)")
}
