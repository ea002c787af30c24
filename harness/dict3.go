package main

import (
	"fmt"
	"strings"

	"github.com/drone/drone-runtime/engine"
	"github.com/drone/drone-yaml/yaml"
)

// Dictionary spaces of the checks of commands, texts and streams.

// powershellDict gives every word and every number of commands to a step.
func powershellDict(c *Ctx, win func(k *K, x *cc, spec *engine.Spec)) {
	ws := dictWords(c.Quick)
	try := func(k *K, cmds []string) {
		x := compileCommands(cmds)
		x.p.Platform.OS = "windows"
		k.In(func() string { return fmt.Sprintf("commands %q", cmds) })
		k.Step(1)
		win(k, x, x.compile())
	}
	c.Range("words", fmt.Sprintf("every one of %d words (the literals of the code, their neighbours and fixed words) as a command, alone, quoted and between other commands", len(ws)), len(ws), func(k *K, i int) {
		k.State(ws[i])
		try(k, []string{ws[i]})
		try(k, []string{"first", ws[i], "last"})
		try(k, []string{"echo '" + ws[i] + "'", ws[i] + " x", "x " + ws[i], ws[i]})
	})
	sz := dictSizes(c.Quick)
	c.Range("lengths", "lists of commands and commands of every size", len(sz), func(k *K, i int) {
		if sz[i] == 0 {
			return
		}
		k.State(fmt.Sprint("len", sz[i]))
		var cmds []string
		for j := 0; j < sz[i]; j++ {
			cmds = append(cmds, fmt.Sprintf("echo %d", j))
		}
		try(k, cmds)
		try(k, []string{"a", strings.Repeat("w", sz[i]), strings.Repeat("echo 'x' ", sz[i]*16), "b"})
	})
}

// shellTexts are commands that contain the words, quoted.
func shellTexts(c *Ctx) (out []string) {
	for _, w := range plainWords(c.Quick) {
		if !strings.Contains(w, "\x00") {
			out = append(out, "printf '<%s>' "+shQuote(w), "V="+shQuote(w)+"; printf '%s' \"$V\"")
		}
	}
	for _, n := range dictSizes(c.Quick) {
		out = append(out, "printf '<%s>' "+strings.Repeat("w", n*16+1))
	}
	return
}

// streamTexts are documents whose texts are words.
func streamTexts(c *Ctx) (out []string) {
	for _, w := range plainWords(c.Quick) {
		q := fmt.Sprintf("%q", w)
		if strings.Contains(q, `\x`) || strings.Contains(q, `\U`) {
			continue
		}
		out = append(out, "kind: "+q+"\nname: x\n", "kind: secret\nname: "+q+"\ndata: x\n", "kind: pipeline\n"+q+": a\n", q+"\n")
		if !strings.ContainsAny(w, "\r\n\x00\x85\u2028\u2029\ufeff") && w != "---" && w != "..." {
			out = append(out, "# "+w+"\nkind: pipeline\n", "kind: pipeline # "+w+"\n", "kind: pipeline\ndata: |\n  "+w+"\n")
		}
	}
	return
}

// longTexts are documents of many sizes.
func longTexts(c *Ctx) (out []string) {
	sizes := []int{1000, 4090, 4096, 8192, 65530, 65536, 70000, 200000}
	if !c.Quick {
		sizes = append(sizes, 1<<20, 1<<22)
	}
	for _, n := range sizes {
		for _, d := range []int{-1, 0, 1} {
			out = append(out, "kind: pipeline\nname: "+strings.Repeat("w", n+d)+"\n", "kind: pipeline\ndata:\n"+strings.Repeat("- abcdef\n", (n+d)/9)+strings.Repeat("#", (n+d)%9)+"\n")
		}
	}
	return
}

// longStrings are strings of many sizes.
func longStrings() (out []string) {
	for _, n := range []int{79, 80, 81, 127, 128, 1023, 1024, 1025, 1500, 4095, 4096, 4097, 65535, 65536, 70000} {
		for _, u := range []string{"w", "ab ", "a: ", "é", "x\n", "# ", "\"", " \n\t"} {
			s := strings.Repeat(u, n/len(u)+1)[:n-n%len(u)]
			out = append(out, s, s+"z")
		}
	}
	return
}

// encodeWords are the words without known findings.
func encodeWords(c *Ctx) (out []string) {
	for _, w := range plainWords(c.Quick) {
		if w != "null" && w != "~" && w != "<<" && w != "from_secret" && !ampBang(w) {
			out = append(out, w)
		}
	}
	return
}

var _ = yaml.KindPipeline
