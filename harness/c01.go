package main

import (
	"bytes"
	"fmt"
	"io"
	"io/ioutil"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"testing/iotest"

	goyaml "github.com/buildkite/yaml"
	"github.com/drone/drone-yaml/yaml"
	"github.com/drone/drone-yaml/yaml/signer"
)

func init() {
	register("C01", runC01)
	register("C02", runC02)
}

// refSplit is the reference splitter: an automaton over lines.
func refSplit(text string) (docs []string) {
	open := false
	for len(text) > 0 {
		var line string
		if i := strings.IndexByte(text, '\n'); i >= 0 {
			line, text = text[:i], text[i+1:]
		} else {
			line, text = text, ""
		}
		line = strings.TrimSuffix(line, "\r")
		switch {
		case strings.HasPrefix(line, "---"):
			docs = append(docs, "")
			open = true
		case strings.HasPrefix(line, "..."):
			return docs
		default:
			if !open {
				docs = append(docs, "")
				open = true
			}
			docs[len(docs)-1] += line + "\n"
		}
	}
	return docs
}

type refRaw struct {
	Version, Kind, Type string
	Data                string
}

func refRawDocs(docs []string) (out []refRaw, err error) {
	for _, d := range docs {
		var h struct{ Version, Kind, Type string }
		if err := refUnmarshal([]byte(d), &h); err != nil {
			return nil, err
		}
		out = append(out, refRaw{h.Version, h.Kind, h.Type, d})
	}
	return out, nil
}

// refUnmarshal is the yaml library without its panics.
func refUnmarshal(b []byte, v interface{}) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("yaml library: %v", r)
		}
	}()
	return goyaml.Unmarshal(b, v)
}

// rawDocs converts the implementation's result to the reference form.
func rawDocs(in []*yaml.RawResource) (out []refRaw) {
	for _, r := range in {
		out = append(out, refRaw{r.Version, r.Kind, r.Type, string(r.Data)})
	}
	return out
}

func eqRaw(a, b []refRaw) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func errS(err error) string {
	if err == nil {
		return ""
	}
	return err.Error()
}

func runC01(c *Ctx) {
	lines := []string{
		"kind: pipeline", "---", "...", "name: b", "", "--- # sep", "----", "....", " ---", "--", "... # end",
		"kind: secret", "  ...", "# ---", "---foo", "type: docker", "..", "x: '---'",
	}
	depth := 4
	alpha := 16
	if !c.Quick {
		depth, alpha = 5, len(lines)
	}
	tmp := os.Getenv("VERIF_BUILD")
	if tmp == "" {
		tmp = os.TempDir()
	}
	check := func(k *K, text string, withFile bool) {
		k.In(func() string { return fmt.Sprintf("%q", text) })
		k.State(text)
		docs := refSplit(text)
		want, werr := refRawDocs(docs)
		got, gerr := yaml.ParseRaw(strings.NewReader(text))
		k.Step(1)
		k.Agree(1)
		g := rawDocs(got)
		if (werr != nil) != (gerr != nil) {
			k.Fail("split-error", "raw parse error = %v, expected %v", gerr, werr)
			return
		}
		if gerr == nil && !eqRaw(g, want) {
			k.Fail("split", "raw documents differ:\n got  %q\n want %q", g, want)
			return
		}
		for _, alt := range []struct {
			name string
			f    func() ([]*yaml.RawResource, error)
		}{
			{"string", func() ([]*yaml.RawResource, error) { return yaml.ParseRawString(text) }},
			{"bytes", func() ([]*yaml.RawResource, error) { return yaml.ParseRawBytes([]byte(text)) }},
		} {
			o, oerr := alt.f()
			k.Step(1)
			k.Agree(1)
			if errS(oerr) != errS(gerr) || !eqRaw(rawDocs(o), g) {
				k.Fail("entry-point", "ParseRaw via %s differs: %q (%v), reader: %q (%v)", alt.name, rawDocs(o), oerr, g, gerr)
			}
		}
		m, merr := yaml.Parse(strings.NewReader(text))
		k.Step(1)
		// manifest: one resource per document or an error
		if merr == nil {
			if gerr != nil {
				k.Fail("manifest", "manifest parsed although the raw stream is in error: %v", gerr)
			} else if len(m.Resources) != len(g) {
				k.Fail("manifest", "%d resources from %d documents", len(m.Resources), len(g))
			} else {
				for i, r := range m.Resources {
					if r.GetKind() != g[i].Kind || r.GetVersion() != g[i].Version {
						k.Fail("manifest", "resource %d has kind %q version %q, document says %q %q", i, r.GetKind(), r.GetVersion(), g[i].Kind, g[i].Version)
					}
				}
			}
			k.Agree(1)
		}
		type mf struct {
			name string
			f    func() (*yaml.Manifest, error)
		}
		alts := []mf{
			{"string", func() (*yaml.Manifest, error) { return yaml.ParseString(text) }},
			{"bytes", func() (*yaml.Manifest, error) { return yaml.ParseBytes([]byte(text)) }},
		}
		if withFile {
			f, err := ioutil.TempFile(tmp, "c01")
			if err != nil {
				fatalf("%v", err)
			}
			name := f.Name()
			f.WriteString(text)
			f.Close()
			defer os.Remove(name)
			alts = append(alts, mf{"file", func() (*yaml.Manifest, error) { return yaml.ParseFile(name) }})
			o, oerr := yaml.ParseRawFile(name)
			k.Step(1)
			k.Agree(1)
			if errS(oerr) != errS(gerr) || !eqRaw(rawDocs(o), g) {
				k.Fail("entry-point", "ParseRaw via file differs: %q (%v), reader: %q (%v)", rawDocs(o), oerr, g, gerr)
			}
		}
		for _, alt := range alts {
			o, oerr := alt.f()
			k.Step(1)
			k.Agree(1)
			if errS(oerr) != errS(merr) || !reflect.DeepEqual(o, m) {
				k.Fail("entry-point", "Parse via %s differs (%v vs %v)", alt.name, oerr, merr)
			}
		}
	}
	endings := []string{"LF", "CRLF", "no-final-newline", "mixed"}
	for e, ename := range endings {
		d := depth
		if e > 0 && c.Quick {
			d = 3
		}
		c.Words("lines-"+ename, fmt.Sprintf("all line sequences up to length %d over %d lines, %s", d, alpha, ename), alpha, 0, d, func(k *K, w []int) {
			var b strings.Builder
			for i, x := range w {
				b.WriteString(lines[x])
				switch e {
				case 0:
					b.WriteString("\n")
				case 1:
					b.WriteString("\r\n")
				case 2:
					if i < len(w)-1 {
						b.WriteString("\n")
					}
				case 3:
					if i%2 == 0 {
						b.WriteString("\r\n")
					} else {
						b.WriteString("\n")
					}
				}
			}
			check(k, b.String(), len(w) <= 2)
		})
	}
	// lines with blanks, tabs and carriage returns in odd places
	odd := []string{"kind: pipeline", "---", "name: b ", "name: b\t", "# c\rd", "# trailing  ", " ", "\t", "--- ", "---\t# x", "... ", "...\t", "\r", "---\r", "\ufeff", "# \x01", "\u0085", "name: é\u2028x", "  # indented", "\f", "\v---", "# x\x00y"}
	d3 := 3
	if !c.Quick {
		d3 = 4
	}
	for e, ename := range []string{"LF", "CRLF"} {
		nl := []string{"\n", "\r\n"}[e]
		c.Words("odd-lines-"+ename, fmt.Sprintf("all line sequences up to length %d over %d lines with blanks, tabs, carriage returns and other odd characters, %s", d3, len(odd), ename), len(odd), 1, d3, func(k *K, w []int) {
			var b strings.Builder
			for _, x := range w {
				b.WriteString(odd[x] + nl)
			}
			check(k, b.String(), len(w) <= 1)
		})
	}
	// every word of the dictionary as a line and within one
	words := dictWords(c.Quick)
	frames := []string{"@", "@\nkind: pipeline\n---\nkind: secret\n", "kind: pipeline\n@\n---\n# b\nkind: secret\n@", "kind: pipeline\n# @\n", "kind: @\n", "kind: pipeline\nname: \"@\"\n---\nkind: cron\n", "kind: pipeline\nx: '@'\n  @\n", "---@\nkind: pipeline\n", "kind: pipeline\n...@\nkind: secret\n", "kind: pipeline\nsteps:\n- commands:\n  - |\n    @\n    --- @\n     @ \n---\nkind: secret\n", "kind: pipeline\n@: {\nx: y}\n", "version: \"@\"\nkind: \"@\"\ntype: \"@\"\n"}
	c.Product("dictionary", fmt.Sprintf("%d streams with every one of %d words: the literals of the code, their neighbours and fixed words", len(frames), len(words)), []int{len(frames), len(words)}, func(k *K, ix []int) {
		check(k, strings.ReplaceAll(frames[ix[0]], "@", words[ix[1]]), false)
	})
	sz := dictSizes(c.Quick)
	c.Product("lengths", "streams of n documents of m lines of l bytes", []int{len(sz), len(sz), 5}, func(k *K, ix []int) {
		n, m := sz[ix[0]], sz[ix[1]]
		if n*m > 20000 {
			return
		}
		fill := strings.Repeat("x", []int{0, 1, 60, 255, 1024}[ix[2]])
		var b strings.Builder
		for i := 0; i < n; i++ {
			fmt.Fprintf(&b, "---\nkind: k%d\n", i)
			for j := 0; j < m; j++ {
				fmt.Fprintf(&b, "# %d %s\n", j, fill)
			}
		}
		check(k, b.String(), false)
	})
	// a line may be of any length
	lens := []int{100, 4095, 4096, 4097, 30000, 65520, 65534, 65535, 65536, 65537, 65538, 131071, 131072, 131073, 300000, 1 << 20, 3 << 20}
	c.Product("long-lines", "line lengths around buffer sizes x shape of the line x position", []int{len(lens), 4, 3}, func(k *K, ix []int) {
		val := strings.Repeat("x", lens[ix[0]])
		line := []string{"name: " + val, "# " + val, "x: {a: " + val + "}", "x: \"" + strings.Repeat("ab ", len(val)/3) + "\""}[ix[1]] + "\n"
		check(k, []string{"kind: pipeline\n" + line + "---\nkind: secret\nname: after\n", "kind: secret\n---\nkind: pipeline\n" + line, "kind: secret\n---\nkind: pipeline\n" + strings.TrimSuffix(line, "\n")}[ix[2]], ix[2] == 0)
	})
	// longer, realistic streams: whole documents as letters
	blocks := []string{
		"kind: pipeline\nname: a\nsteps:\n- name: x\n  image: y\n  commands:\n  - echo ---\n  - |\n    a\n    ...\n     ---\n",
		"---\n", "--- # next\n", "...\n", "kind: secret\nname: s\ndata: abc\n", "kind: signature\nhmac: 00\n", "# comment\n", "\n",
		"kind: cron\nname: n\nspec:\n  branch: b\n", "kind: registry\ndata:\n  a: b\n", "name: nokind\n",
	}
	d := 4
	if !c.Quick {
		d = 5
	}
	c.Words("blocks", fmt.Sprintf("all sequences of up to %d blocks (documents, separators, comments)", d), len(blocks), 1, d, func(k *K, w []int) {
		var b strings.Builder
		for _, x := range w {
			b.WriteString(blocks[x])
		}
		check(k, b.String(), len(w) <= 2)
	})
}

// ---------------------------------------------------------------------

type chunkReader struct {
	data  []byte
	cuts  []int // ascending offsets where a Read ends
	pos   int
	err   error // returned at the end (io.EOF or a fault)
	joint bool  // return the error together with the last bytes
	zero  int   // number of (0, nil) reads before each chunk
	z     int
}

func (r *chunkReader) Read(p []byte) (int, error) {
	if r.z < r.zero {
		r.z++
		return 0, nil
	}
	r.z = 0
	if r.pos >= len(r.data) {
		return 0, r.err
	}
	end := len(r.data)
	for _, c := range r.cuts {
		if c > r.pos {
			end = c
			break
		}
	}
	n := copy(p, r.data[r.pos:end])
	r.pos += n
	if r.pos >= len(r.data) && r.joint {
		return n, r.err
	}
	return n, nil
}

func runC02(c *Ctx) {
	errBoom := fmt.Errorf("injected read fault")
	streams := []string{
		"kind: pipeline\nname: a\n---\nkind: secret\nname: b\ndata: c\n...\n",
		"---\nkind: cron\r\nname: a\r\nspec:\r\n  branch: m\r\n--- # x\r\nkind: signature\r\nhmac: 00\r\n",
		"kind: registry\ndata:\n  a: b\n---\nkind: pipeline\nsteps:\n- name: a\n  image: b\n  commands: [ x, y ]",
		"kind: pipeline\n\n\n---\n\nkind: pipeline\nname: b\n\n...\nkind: ignored\n",
		"# only a comment\n---\nkind: pipeline\nname: z\n\r\n",
	}
	big := "kind: pipeline\nname: a\nnode:\n"
	for i := 0; len(big) < 9000; i++ {
		big += fmt.Sprintf("  key%d: value number %d\n", i, i)
	}
	big += "---\nkind: secret\nname: t\ndata: u\n"

	check := func(k *K, text string, r io.Reader, desc string) {
		k.In(func() string { return desc + " of " + fmt.Sprintf("%q", clip(text, 300)) })
		k.State(desc + text)
		want, werr := yaml.ParseRawString(text)
		got, gerr := yaml.ParseRaw(r)
		k.Step(1)
		k.Agree(1)
		if errS(werr) != errS(gerr) || !eqRaw(rawDocs(got), rawDocs(want)) {
			k.Fail("chunking", "result depends on how the reader delivers the bytes (%s):\n got  %q %v\n want %q %v", desc, rawDocs(got), gerr, rawDocs(want), werr)
		}
	}
	checkM := func(k *K, text string, r io.Reader, desc string) {
		want, werr := yaml.ParseString(text)
		got, gerr := yaml.Parse(r)
		k.Step(1)
		k.Agree(1)
		if errS(werr) != errS(gerr) || !reflect.DeepEqual(got, want) {
			k.Fail("chunking", "manifest depends on how the reader delivers the bytes (%s): %v / %v", desc, gerr, werr)
		}
	}
	for si, s := range streams {
		s := s
		n := len(s) + 1
		c.Product(fmt.Sprintf("chunks-%d", si), "every two cut points, data-with-EOF or not, interleaved empty reads", []int{n, n, 3}, func(k *K, ix []int) {
			if ix[0] > ix[1] {
				return
			}
			mk := func() io.Reader {
				r := &chunkReader{data: []byte(s), cuts: []int{ix[0], ix[1]}, err: io.EOF, joint: ix[2] == 1}
				if ix[2] == 2 {
					r.zero = 1
				}
				return r
			}
			d := fmt.Sprintf("cuts %d,%d mode %d", ix[0], ix[1], ix[2])
			check(k, s, mk(), d)
			checkM(k, s, mk(), d)
		})
	}
	bigCuts := []int{0, 1, 4095, 4096, 4097, 8191, 8192, 8193}
	c.Product("chunks-big", "cut points around the scanner's buffer sizes", []int{len(bigCuts), len(bigCuts), 2}, func(k *K, ix []int) {
		a, b := bigCuts[ix[0]], bigCuts[ix[1]]
		if a > b {
			return
		}
		check(k, big, &chunkReader{data: []byte(big), cuts: []int{a, b}, err: io.EOF, joint: ix[2] == 1}, fmt.Sprintf("big cuts %d,%d", a, b))
	})
	// one byte at a time
	c.Range("bytewise", "one byte per read", len(streams)+1, func(k *K, i int) {
		s := big
		if i < len(streams) {
			s = streams[i]
		}
		var cuts []int
		for j := 1; j < len(s); j++ {
			cuts = append(cuts, j)
		}
		check(k, s, &chunkReader{data: []byte(s), cuts: cuts, err: io.EOF}, "bytewise")
	})
	// read faults at every offset
	term := func(s string) int { // offset just after the terminator line, or len+1
		off := 0
		for off < len(s) {
			e := strings.IndexByte(s[off:], '\n')
			l := s[off:]
			next := len(s)
			if e >= 0 {
				l, next = s[off:off+e], off+e+1
			}
			if strings.HasPrefix(l, "...") {
				return off + 3
			}
			off = next
		}
		return len(s) + 1
	}
	for si, s := range append(append([]string{}, streams...), big) {
		s := s
		t := term(s)
		kinds := []error{errBoom, io.ErrUnexpectedEOF, io.ErrClosedPipe, os.ErrClosed}
		c.Product(fmt.Sprintf("faults-%d", si), "a read error at every byte offset, alone or with the last bytes, with chunked delivery", []int{len(s) + 1, 2, 3, len(kinds)}, func(k *K, ix []int) {
			off := ix[0]
			var cuts []int
			switch ix[2] {
			case 1:
				cuts = []int{off / 2}
			case 2:
				for j := 1; j < off; j++ {
					cuts = append(cuts, j)
				}
			}
			if len(s) > 2000 && ix[2] == 2 {
				return
			}
			mk := func() io.Reader {
				return &chunkReader{data: []byte(s[:off]), cuts: cuts, err: kinds[ix[3]], joint: ix[1] == 1}
			}
			k.In(func() string { return fmt.Sprintf("fault %v after %d of %q", kinds[ix[3]], off, clip(s, 300)) })
			k.State(fmt.Sprint("fault", si, ix))
			if off >= t {
				return // everything up to the end of the stream was delivered
			}
			k.Step(2)
			k.Agree(2)
			if r, err := yaml.ParseRaw(mk()); err == nil {
				k.Fail("read-fault", "ParseRaw returned %d documents and no error although the reader failed after %d of %d bytes", len(r), off, len(s))
			}
			if m, err := yaml.Parse(mk()); err == nil {
				k.Fail("read-fault", "Parse returned %d resources and no error although the reader failed after %d of %d bytes", len(m.Resources), off, len(s))
			}
		})
	}
	// a directory opens but cannot be read
	c.Range("unreadable-file", "ParseFile/ParseRawFile of a missing file and of a directory", 2, func(k *K, i int) {
		p := []string{filepath.Join(os.Getenv("VERIF_BUILD"), "does-not-exist"), os.TempDir()}[i]
		k.In(func() string { return p })
		k.State(p)
		k.Step(2)
		k.Agree(2)
		if _, err := yaml.ParseRawFile(p); err == nil {
			k.Fail("read-fault", "ParseRawFile(%s) reports no error", p)
		}
		if _, err := yaml.ParseFile(p); err == nil {
			k.Fail("read-fault", "ParseFile(%s) reports no error", p)
		}
	})
	// long streams
	unit := "---\nkind: secret\nname: a\ndata: " + strings.Repeat("x", 1000) + "\n"
	counts := []int{1, 15, 16, 17, 63, 64, 65, 127, 255, 256, 500, 1000, 1023, 1024, 1025, 2048, 4096, 9000}
	if !c.Quick {
		counts = append(counts, 16400, 33000, 70000)
	}
	c.Product("long-streams", "streams of many documents, up to tens of megabytes, alone or followed by comment lines, from strings and readers", []int{len(counts), 2, 2}, func(k *K, ix []int) {
		n := counts[ix[0]]
		text := strings.Repeat(unit, n)
		if ix[1] == 1 {
			text += strings.Repeat("# "+strings.Repeat("c", 97)+"\n", n) + "---\nkind: cron\nname: last\n"
		}
		k.In(func() string { return fmt.Sprintf("%d documents, %d bytes", n, len(text)) })
		k.State(fmt.Sprint("stream", ix))
		var r io.Reader = strings.NewReader(text)
		if ix[2] == 1 {
			r = iotest.HalfReader(r)
		}
		want := n + ix[1]
		raw, err := yaml.ParseRaw(r)
		k.Step(3)
		k.Agree(3)
		if err == nil && len(raw) != want {
			k.Fail("truncated", "%d of %d documents are returned and no error", len(raw), want)
		}
		total := 0
		for _, x := range raw {
			total += len(x.Data)
		}
		if err == nil && total != len(text)-4*want {
			k.Fail("truncated", "%d of %d bytes of the documents are returned and no error", total, len(text)-4*want)
		}
		if n <= 4096 {
			m, err := yaml.ParseString(text)
			if err == nil && len(m.Resources) != want {
				k.Fail("truncated", "%d of %d resources are returned and no error", len(m.Resources), want)
			}
			key := signer.KeyString(strings.Repeat("k", 32))
			out, err := signer.SignUpdate([]byte(text), key)
			if err == nil && bytes.Count(out, []byte("---\n")) != want+1 {
				k.Fail("truncated", "SignUpdate keeps %d of %d documents", bytes.Count(out, []byte("---\n"))-1, want)
			}
		}
	})
	// long lines
	lens := []int{100, 4000, 4095, 4096, 4097, 8192, 30000, 65520, 65530, 65533, 65534, 65535, 65536, 65537, 65538, 65540, 66000, 131071, 131072, 131073, 300000, 1 << 20, 3 << 20}
	c.Product("long-lines", "line lengths around the scanner limits x position in the stream x operation", []int{len(lens), 3, 2}, func(k *K, ix []int) {
		l, pos, nl := lens[ix[0]], ix[1], ix[2]
		val := strings.Repeat("x", l-len("name: "))
		long := "name: " + val + "\n"
		var text string
		switch pos {
		case 0:
			text = "kind: pipeline\n" + long + "---\nkind: secret\nname: after\ndata: d\n"
		case 1:
			text = "kind: secret\nname: before\ndata: d\n---\nkind: pipeline\n" + long + "type: docker\n"
		case 2:
			text = "kind: secret\nname: before\ndata: d\n---\nkind: pipeline\n" + long
			if nl == 1 {
				text = strings.TrimSuffix(text, "\n")
			}
		}
		k.In(func() string { return fmt.Sprintf("line of %d bytes, position %d", l, pos) })
		k.State(fmt.Sprint("long", l, pos, nl))
		want := refSplit(text)
		raw, err := yaml.ParseRawString(text)
		k.Step(5)
		k.Agree(5)
		if err == nil {
			var got []string
			for _, r := range raw {
				got = append(got, string(r.Data))
			}
			if !reflect.DeepEqual(got, want) {
				k.Fail("truncated", "documents after a line of %d bytes were dropped without an error (%d documents instead of %d)", l, len(got), len(want))
			}
		}
		m, err := yaml.ParseString(text)
		if err == nil && len(m.Resources) != 2 {
			k.Fail("truncated", "manifest has %d resources instead of 2 after a line of %d bytes, no error", len(m.Resources), l)
		}
		key := signer.KeyString(strings.Repeat("k", 32))
		out, err := signer.SignUpdate([]byte(text), key)
		if err == nil && !bytes.Contains(out, []byte(val)) {
			k.Fail("truncated", "SignUpdate silently dropped a line of %d bytes", l)
		}
		h1, err1 := signer.Sign([]byte(text), key)
		// change a byte behind the long line: the signature must not stay the same
		t2 := strings.Replace(text, "x\n", "y\n", 1)
		if t2 != text {
			h2, err2 := signer.Sign([]byte(t2), key)
			if err1 == nil && err2 == nil && h1 == h2 {
				k.Fail("truncated", "Sign ignores the end of a line of %d bytes", l)
			}
		}
		out, err = signer.WriteTo([]byte(text), "00")
		if err == nil && !bytes.Contains(out, []byte(val)) {
			k.Fail("truncated", "WriteTo silently dropped a line of %d bytes", l)
		}
	})
}
