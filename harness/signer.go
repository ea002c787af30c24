package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"strings"
	"sync"

	goyaml "github.com/buildkite/yaml"
	"github.com/drone/drone-yaml/yaml"
	"github.com/drone/drone-yaml/yaml/signer"
)

func init() {
	register("C29", runC29)
	register("C30", runC30)
}

const (
	keyA = "589396227fff5a93ba934965e8735f88"
	keyB = "589396227fff5a93ba934965e8735f89"
)

// signed is the reference view of a stream: the documents that are covered
// by a signature, and the values of the signature documents.
type signed struct {
	docs []string // documents other than signatures, in order, as written
	sigs []string // raw text of the signature documents
	pos  []int    // index of each signature document in the stream
	n    int
}

func refSigned(text string) (s signed, err error) {
	raw, err := refRawDocs(refSplit(text))
	if err != nil {
		return s, err
	}
	s.n = len(raw)
	for i, r := range raw {
		if r.Kind == "signature" {
			s.sigs = append(s.sigs, r.Data)
			s.pos = append(s.pos, i)
		} else {
			s.docs = append(s.docs, r.Data)
		}
	}
	return s, nil
}

// content is the identity of the signed content: the list of documents that
// have any.
func (s signed) content() string {
	var b strings.Builder
	for _, d := range s.docs {
		if d != "" {
			fmt.Fprintf(&b, "%d:%s", len(d), d)
		}
	}
	return b.String()
}

func (s signed) flat() string { return strings.Join(s.docs, "") }

// hmacOf reads the value of a signature document; ok is false if it has none.
func hmacOf(doc string) (mac []byte, ok bool) {
	var v struct{ Hmac string }
	if goyaml.Unmarshal([]byte(doc), &v) != nil || v.Hmac == "" {
		return nil, false
	}
	b, err := hex.DecodeString(v.Hmac)
	return b, err == nil
}

// expectVerify: 1 must verify, 0 must not, -1 not determined by the property
// (several signature documents of which some are right and some are wrong).
func (s signed) expectVerify(mac string) int {
	want, _ := hex.DecodeString(mac)
	good := 0
	for _, d := range s.sigs {
		if b, ok := hmacOf(d); ok && bytes.Equal(b, want) {
			good++
		}
	}
	switch {
	case good == 0:
		return 0
	case good == len(s.sigs):
		return 1
	}
	return -1
}

var signDocs = []string{
	"kind: pipeline\nname: default\n",
	"kind: pipeline\nname: other\nsteps:\n- name: b\n  image: c\n",
	"kind: secret\ndata:\n  a: b\n",
	"",
	"kind: cron\nspec:\n  schedule: '@daily'\n\n",
	"# only a comment\n",
	"kind: pipeline\nname: default\n\n",
	"kind: registry\ndata:\n  c: |\n    line\n\n    last  \n",
	"type: docker\nname: x\n",
	"kind: Signature\nhmac: ab\n",
	"kind: pipeline\nname: \"\\u2028 signature\"\nhmac: kind\n",
}

// kindDocs have kinds that resemble a signature, some are one.
var kindDocs = []string{
	"kind: Signature\nhmac: ab\n",
	"kind: SIGNATURE\nname: b\n",
	"kind: ' signature'\nname: c\n",
	"kind: signatures\nname: d\n",
	"kind: \u017fignature\nname: e\n",
	"Kind: signature\nname: f\n",
	"kind: \"signature\"\nhmac: cd\n",
	"name: signature\ntype: signature\n",
	"kind: [signature]\nname: g\n",
	"kind: ~\nname: h\n",
	"kind: pipeline\nname: signature\nhmac: ab\n",
	"{\"kind\": \"signature\", hmac: ab}\n",
	"kind: sign\nature: a\n",
	"kind: >\n  signature\nname: i\n",
	"kind: signature # comment\nhmac: ef\n",
	"? kind\n: signature\n",
}

func sigDoc(mac string) string { return "kind: signature\nhmac: " + mac + "\n" }

// streamStyles writes documents as a stream in several equivalent ways.
var streamStyles = []func(docs []string) string{
	func(docs []string) string { return "---\n" + strings.Join(docs, "---\n") },
	func(docs []string) string { return "---\n" + strings.Join(docs, "---\n") + "...\n" },
	func(docs []string) string {
		if len(docs) == 0 || docs[0] == "" {
			return "---\n" + strings.Join(docs, "---\n")
		}
		return strings.Join(docs, "---\n")
	},
	func(docs []string) string {
		return strings.Replace("---\n"+strings.Join(docs, "---\n"), "\n", "\r\n", -1)
	},
	func(docs []string) string {
		return strings.TrimSuffix("--- # one\n"+strings.Join(docs, "--- # next\n"), "\n")
	},
	func(docs []string) string {
		return "---\n" + strings.Join(docs, "---\n") + "...\nkind: [ignored\n---\nkind: pipeline\n"
	},
}

func insertAt(l []string, i int, s ...string) []string {
	out := append([]string(nil), l[:i]...)
	out = append(out, s...)
	return append(out, l[i:]...)
}

// sigMap checks that signatures are a one-to-one image of (key, content).
type sigMap struct {
	sync.Mutex
	byMac     map[string]string // mac -> key + content
	byContent map[string]string
	flat      map[string]string
}

func (m *sigMap) add(k *K, key, mac string, s signed) {
	id := fmt.Sprintf("%q %s", key, s.content())
	m.Lock()
	defer m.Unlock()
	k.Agree(2)
	if old, ok := m.byContent[id]; ok && old != mac {
		k.Fail("unstable", "two signatures for the same key and content: %s and %s", old, mac)
	}
	m.byContent[id] = mac
	if old, ok := m.byMac[mac]; ok && old != id {
		if m.flat[mac] == fmt.Sprintf("%q %s", key, s.flat()) {
			k.Fail("document-boundary", "content that differs only in where documents begin has the same signature %s:\n%s\n%s", mac, old, id)
		} else {
			k.Fail("collision", "different content has the same signature %s:\n%s\n%s", mac, old, id)
		}
		return
	}
	m.byMac[mac] = id
	m.flat[mac] = fmt.Sprintf("%q %s", key, s.flat())
}

// verifyAs checks the verdict of the verifier against the reference.
func verifyAs(k *K, text, key, mac string, class string) {
	s, serr := refSigned(text)
	ok, err := signer.Verify([]byte(text), signer.KeyString(key))
	k.Step(1)
	k.Agree(1)
	if serr != nil {
		if ok || err == nil {
			k.Fail("unparseable", "verification of a configuration that cannot be parsed: %v, %v", ok, err)
		}
		return
	}
	want := s.expectVerify(mac)
	if want < 0 {
		return
	}
	if want == 1 && err != nil {
		k.Fail(class, "verification fails with %v", err)
		return
	}
	if ok != (want == 1) {
		k.Fail(class, "verification reports %v, expected %v", ok, want == 1)
	}
}

func runC29(c *Ctx) {
	m := &sigMap{byMac: map[string]string{}, byContent: map[string]string{}, flat: map[string]string{}}
	sign := func(k *K, text, key string) (string, signed, bool) {
		s, serr := refSigned(text)
		mac, err := signer.Sign([]byte(text), signer.KeyString(key))
		k.Step(1)
		k.Agree(1)
		if (serr != nil) != (err != nil) {
			k.Fail("sign-error", "signing fails with %v, expected error: %v", err, serr)
			return "", s, false
		}
		if err != nil {
			return "", s, false
		}
		if len(mac) != 64 || strings.ToLower(mac) != mac {
			k.Fail("format", "signature %q", mac)
		}
		m.add(k, key, mac, s)
		return mac, s, true
	}

	// 1. every stream of documents, signature documents at every position
	nd := len(signDocs)
	if c.Quick {
		nd = 8
	}
	sigPos := 12 // position code: none, one at 0..3, two at pairs
	streams := func(k *K, docs []string) {
		for st, style := range streamStyles {
			text := style(docs)
			k.In(func() string { return fmt.Sprintf("%q", text) })
			k.State(text)
			mac, s, ok := sign(k, text, keyA)
			if !ok {
				continue
			}
			macB, _, _ := sign(k, text, keyB)
			// without a signature nothing verifies
			verifyAs(k, text, keyA, mac, "verify")
			for p := 0; p < sigPos; p++ {
				var with []string
				switch {
				case p <= len(s.docs):
					with = insertAt(s.docs, p, sigDoc(mac))
				case p-6 >= 0 && p-6 <= len(s.docs):
					// two copies, the second one last
					with = append(insertAt(s.docs, p-6, sigDoc(mac)), sigDoc(mac))
				default:
					continue
				}
				t := style(with)
				before := text
				text = t
				k.State(t)
				mac2, _, ok2 := sign(k, t, keyA)
				if ok2 && mac2 != mac {
					k.Fail("signature-matters", "the signature document changes the signature from %s to %s", mac, mac2)
				}
				verifyAs(k, t, keyA, mac, "verify")
				verifyAs(k, t, keyB, macB, "other-key")
				text = before
				if k.Failed() {
					text = t
					return
				}
			}
			_ = st
			if k.Failed() {
				return
			}
		}
	}
	c.Words("streams", fmt.Sprintf("all sequences of <=3 of %d documents, in %d spellings, signature at every position, two keys", nd, len(streamStyles)), nd, 0, 3, func(k *K, w []int) {
		var docs []string
		for _, i := range w {
			docs = append(docs, signDocs[i])
		}
		streams(k, docs)
	})
	dt := append(streamTexts(c), longTexts(c)...)
	c.Product("dictionary", fmt.Sprintf("%d documents with every literal of the code and fixed words in several positions, and long documents, alone and after another", len(dt)), []int{len(dt), 2}, func(k *K, ix []int) {
		docs := []string{dt[ix[0]]}
		if ix[1] == 1 {
			docs = []string{signDocs[0], dt[ix[0]]}
		}
		text := streamStyles[0](docs)
		k.In(func() string { return clip(text, 2000) })
		k.State(text)
		mac, s, ok := sign(k, text, keyA)
		if !ok {
			return
		}
		for p := 0; p <= len(s.docs); p++ {
			t := streamStyles[0](insertAt(s.docs, p, sigDoc(mac)))
			if mac2, _, ok := sign(k, t, keyA); ok && mac2 != mac {
				k.Fail("signature-matters", "the signature document changes the signature from %s to %s", mac, mac2)
			}
			verifyAs(k, t, keyA, mac, "verify")
		}
	})
	kd := append([]string{signDocs[0]}, kindDocs...)
	top := 2
	if !c.Quick {
		top = 3
	}
	c.Words("kinds", fmt.Sprintf("all sequences of <=%d of %d documents whose kind resembles a signature, signature at every position", top, len(kd)), len(kd), 1, top, func(k *K, w []int) {
		var docs []string
		for _, i := range w {
			docs = append(docs, kd[i])
		}
		streams(k, docs)
	})

	// 2. all one-step tamperings of signed streams
	var bases []string
	nsd := len(signDocs)
	for _, sel := range [][]int{{0}, {1, 2}, {4, 0, 7}, {1, 6, 2}, {7}, {2, 3, 0}, {5, 1}, {9, 0}, {nsd + 1, nsd + 4, nsd + 5}} {
		var docs []string
		for _, i := range sel {
			docs = append(docs, append(append([]string(nil), signDocs...), kindDocs...)[i])
		}
		t := streamStyles[0](docs)
		mac, err := signer.Sign([]byte(t), signer.KeyString(keyA))
		if err != nil {
			fatalf("base stream: %v", err)
		}
		for p := 0; p <= len(docs); p++ {
			bases = append(bases, streamStyles[0](insertAt(docs, p, sigDoc(mac))))
		}
	}
	baseMac := func(text string) string {
		mac, _ := signer.Sign([]byte(text), signer.KeyString(keyA))
		return mac
	}
	// tamper checks a changed stream: it verifies only if the content is the
	// same and the signature is still there.
	tamper := func(k *K, base, text string) {
		k.In(func() string { return fmt.Sprintf("signed:\n%s\ntampered:\n%s", base, text) })
		k.State(text)
		b, err := refSigned(base)
		if err != nil {
			fatalf("base: %v", err)
		}
		mac := baseMac(base)
		s, serr := refSigned(text)
		ok, err := signer.Verify([]byte(text), signer.KeyString(keyA))
		k.Step(1)
		k.Agree(1)
		if serr != nil {
			if ok || err == nil {
				k.Fail("unparseable", "verification of a configuration that cannot be parsed: %v, %v", ok, err)
			}
			return
		}
		if s.content() == b.content() {
			verifyAs(k, text, keyA, mac, "unchanged")
			return
		}
		if ok && s.expectVerify(mac) != 0 && s.flat() == b.flat() {
			k.Fail("document-boundary", "the stream still verifies although the documents are cut differently")
			return
		}
		if ok {
			k.Fail("tampered", "a changed configuration verifies")
		}
	}
	insert := []string{"", "---", "...", "kind: signature", "hmac: " + strings.Repeat("ab", 32), "a: b", "# c", " ", "kind: pipeline", "  x: y", "- z", "--- ", "..", "kind: secret"}
	type edit struct {
		base string
		text func() string
	}
	var edits []edit
	for _, base := range bases {
		lines := strings.SplitAfter(base, "\n")
		lines = lines[:len(lines)-1]
		n := len(lines)
		base := base
		join := func(l []string) string { return strings.Join(l, "") }
		for i := 0; i < n; i++ {
			i := i
			edits = append(edits, edit{base, func() string { return join(append(append([]string(nil), lines[:i]...), lines[i+1:]...)) }})
			for j := 0; j <= n; j++ {
				j := j
				// copy a line elsewhere
				edits = append(edits, edit{base, func() string { return join(insertAt(lines, j, lines[i])) }})
				// move it
				edits = append(edits, edit{base, func() string {
					l := append(append([]string(nil), lines[:i]...), lines[i+1:]...)
					if j > len(l) {
						return join(insertAt(l, 0, lines[i]))
					}
					return join(insertAt(l, j, lines[i]))
				}})
			}
			// every character of the line replaced, removed, doubled
			for j := 0; j < len(lines[i])-1; j++ {
				for _, r := range []string{"", "x", " ", "-", "0", "#", ":", "\t", "\n", lines[i][j:j+1] + lines[i][j:j+1]} {
					j, r := j, r
					edits = append(edits, edit{base, func() string {
						l := append([]string(nil), lines...)
						l[i] = l[i][:j] + r + l[i][j+1:]
						return join(l)
					}})
				}
			}
			// trailing white space
			for _, r := range []string{" \n", "\t\n", "\r\n", "\n\n", "\r\r\n", ""} {
				r := r
				edits = append(edits, edit{base, func() string {
					l := append([]string(nil), lines...)
					l[i] = strings.TrimSuffix(l[i], "\n") + r
					return join(l)
				}})
			}
		}
		for i := 0; i <= n; i++ {
			for _, s := range insert {
				i, s := i, s
				edits = append(edits, edit{base, func() string { return join(insertAt(lines, i, s+"\n")) }})
			}
		}
		// truncations
		for i := 0; i < len(base); i++ {
			i := i
			edits = append(edits, edit{base, func() string { return base[:i] }})
		}
		// document level: delete, duplicate and swap documents
		docs := strings.Split(base, "---\n")[1:]
		for i := range docs {
			for j := range docs {
				i, j := i, j
				edits = append(edits, edit{base, func() string { return "---\n" + strings.Join(insertAt(docs, j, docs[i]), "---\n") }})
				edits = append(edits, edit{base, func() string {
					d := append([]string(nil), docs...)
					d[i], d[j] = d[j], d[i]
					return "---\n" + strings.Join(d, "---\n")
				}})
				edits = append(edits, edit{base, func() string {
					d := append([]string(nil), docs...)
					d[i] = docs[j]
					return "---\n" + strings.Join(d, "---\n")
				}})
			}
		}
	}
	c.Range("tamper", fmt.Sprintf("every one-step change (line deleted, copied, moved, inserted; every character; truncation; documents copied, swapped, replaced) of %d signed streams", len(bases)), len(edits), func(k *K, i int) {
		tamper(k, edits[i].base, edits[i].text())
	})
	if !c.Quick {
		// two-step changes, built from line edits of the smaller streams
		var small []string
		for _, b := range bases {
			if strings.Count(b, "\n") <= 9 {
				small = append(small, b)
			}
		}
		type two struct {
			base       string
			a, i, b, j int
		}
		var ops []two
		apply := func(lines []string, op, i int) []string {
			if i >= len(lines) {
				return lines
			}
			switch {
			case op == 0:
				return append(append([]string(nil), lines[:i]...), lines[i+1:]...)
			case op == 1:
				return insertAt(lines, i, lines[i])
			case op == 2 && i > 0:
				l := append([]string(nil), lines...)
				l[i-1], l[i] = l[i], l[i-1]
				return l
			case op > 2 && op-3 < len(insert):
				return insertAt(lines, i, insert[op-3]+"\n")
			}
			return lines
		}
		for _, b := range small {
			n := strings.Count(b, "\n")
			for a := 0; a < 3+len(insert); a++ {
				for i := 0; i < n; i++ {
					for bb := 0; bb < 3+len(insert); bb++ {
						for j := 0; j < n+1; j++ {
							ops = append(ops, two{b, a, i, bb, j})
						}
					}
				}
			}
		}
		c.Range("tamper-2", fmt.Sprintf("every two-step line change of %d signed streams", len(small)), len(ops), func(k *K, i int) {
			o := ops[i]
			lines := strings.SplitAfter(o.base, "\n")
			lines = lines[:len(lines)-1]
			tamper(k, o.base, strings.Join(apply(apply(lines, o.a, o.i), o.b, o.j), ""))
		})
	}

	// 3. the signature itself
	var sigs []func(mac string) (text string, good int)
	plain := func(s string, good int) func(string) (string, int) {
		return func(string) (string, int) { return s, good }
	}
	for i := 0; i < 64; i++ {
		i := i
		sigs = append(sigs, func(m string) (string, int) { return "hmac: \"" + m[:i] + "\"\n", 0 })
		for _, r := range "0123456789abcdefg -" {
			r := r
			sigs = append(sigs, func(m string) (string, int) {
				if m[i] == byte(r) {
					return "hmac: \"" + m + "\"\n", 1
				}
				return "hmac: \"" + m[:i] + string(r) + m[i+1:] + "\"\n", 0
			})
		}
		sigs = append(sigs, func(m string) (string, int) { return "hmac: \"" + m[:i] + m[i+1:] + "\"\n", 0 })
		sigs = append(sigs, func(m string) (string, int) { return "hmac: \"" + m[i:] + m[:i] + "\"\n", -1 })
	}
	for _, s := range []string{"", "00", "0", strings.Repeat("0", 64), strings.Repeat("0", 63), strings.Repeat("0", 66)} {
		s := s
		sigs = append(sigs, func(m string) (string, int) { return "hmac: \"" + m + s + "\"\n", b2i(s == "") }, plain("hmac: \""+s+"\"\n", 0))
	}
	sigs = append(sigs, plain("", 0), plain("hmac:\n", 0), plain("hmac: ~\n", 0), plain("hmac: []\n", 0), plain("hmac: {}\n", 0), plain("hmac: ''\n", 0), plain("hmac: true\n", 0),
		func(m string) (string, int) { return "hmac: [\"" + m + "\"]\n", 0 },
		func(m string) (string, int) { return "hmac: {a: \"" + m + "\"}\n", 0 },
		func(m string) (string, int) { return "HMAC: \"" + m + "\"\n", 0 },
		func(m string) (string, int) { return "signature: \"" + m + "\"\n", 0 },
		func(m string) (string, int) { return "hmac: '" + m + "'\n# comment\n", 1 },
		func(m string) (string, int) { return "name: a\nextra: [1]\nhmac: \"" + m + "\"\n", 1 },
		func(m string) (string, int) { return "\n\nhmac: \"" + m + "\"\n\n", 1 })
	targets := [][]string{{signDocs[0]}, {signDocs[1], signDocs[2]}, {""}, {}}
	c.Product("signature", fmt.Sprintf("%d variations of the signature document (every truncation, character change, deletion, rotation and extension) on %d configurations, first or last", len(sigs), len(targets)), []int{len(sigs), len(targets), 2}, func(k *K, ix []int) {
		docs := targets[ix[1]]
		plainText := streamStyles[0](docs)
		mac, _, ok := sign(k, plainText, keyA)
		if !ok {
			return
		}
		body, good := sigs[ix[0]](mac)
		p := 0
		if ix[2] == 1 {
			p = len(docs)
		}
		text := streamStyles[0](insertAt(docs, p, "kind: signature\n"+body))
		k.In(func() string { return text })
		k.State(text)
		mac2, err := signer.Sign([]byte(text), signer.KeyString(keyA))
		v, verr := signer.Verify([]byte(text), signer.KeyString(keyA))
		k.Step(2)
		k.Agree(2)
		if err != nil || mac2 != mac {
			k.Fail("signature-matters", "signature document %q changes the computed signature from %s to %s (%v)", body, mac, mac2, err)
		}
		if good == -1 {
			// a rotation is only right if it is the identity
			good = b2i(strings.Contains(body, mac))
		}
		if v != (good == 1) || (good == 1 && verr != nil) {
			k.Fail("signature", "verification with %q reports %v (%v), expected %v", body, v, verr, good == 1)
		}
	})

	// 4. keys
	type keyCase struct {
		key   string
		valid bool
	}
	var keys []keyCase
	long := strings.Repeat("0123456789abcdef", 9)
	for n := 0; n <= 130; n++ {
		keys = append(keys, keyCase{long[:n], n >= 32})
	}
	for i := 0; i < 32; i++ {
		for bit := uint(0); bit < 8; bit++ {
			b := []byte(keyA)
			b[i] ^= 1 << bit
			keys = append(keys, keyCase{string(b), true})
		}
	}
	c.Product("keys", fmt.Sprintf("%d keys: every length up to 130, every single bit of one key; verified with every other", len(keys)), []int{len(keys), len(targets)}, func(k *K, ix []int) {
		kc := keys[ix[0]]
		docs := targets[ix[1]]
		text := streamStyles[0](docs)
		k.In(func() string { return fmt.Sprintf("key %q\n%s", kc.key, text) })
		k.State(kc.key + text)
		mac, err := signer.Sign([]byte(text), signer.KeyString(kc.key))
		up, uerr := signer.SignUpdate([]byte(text), signer.KeyString(kc.key))
		k.Step(2)
		k.Agree(2)
		if !kc.valid {
			good := streamStyles[0](append(append([]string(nil), docs...), sigDoc(mac)))
			v, verr := signer.Verify([]byte(good), signer.KeyString(kc.key))
			if err == nil || uerr == nil || v || verr == nil {
				k.Fail("short-key", "a key of %d bytes is accepted: sign %q, %v; update %q, %v; verify %v, %v", len(kc.key), mac, err, up, uerr, v, verr)
			}
			if len(up) != 0 {
				k.Fail("short-key", "a refused signature still yields %q", up)
			}
			return
		}
		if err != nil || uerr != nil {
			k.Fail("key", "key of %d bytes refused: %v, %v", len(kc.key), err, uerr)
			return
		}
		s, _ := refSigned(text)
		m.add(k, kc.key, mac, s)
		for _, other := range keys {
			if !other.valid {
				continue
			}
			v, verr := signer.Verify(up, signer.KeyString(other.key))
			k.Step(1)
			k.Agree(1)
			if v != (other.key == kc.key) || verr != nil {
				k.Fail("other-key", "verification with key %q reports %v, %v", other.key, v, verr)
				return
			}
		}
	})
	c.Assume("keys that HMAC itself identifies (zero padding to the block size, a long key and its hash) are not in the domain; documents without any content carry nothing to sign")
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// signState is a node of the history graph of C30.
type signOp struct {
	name string
	do   func(k *K, text string) (string, bool)
}

func runC30(c *Ctx) {
	// checkSigned checks the result of adding a signature to a stream.
	checkSigned := func(k *K, op, before, after, mac string) {
		b, err := refSigned(before)
		if err != nil {
			k.Fail("unparseable", "%s accepts a configuration that cannot be parsed: %q", op, after)
			return
		}
		a, err := refSigned(after)
		k.Agree(4)
		if err != nil {
			k.Fail("broken", "the result of %s cannot be parsed: %v\n%s", op, err, after)
			return
		}
		if len(a.docs) != len(b.docs) {
			k.Fail("documents", "%s leaves %d of %d documents:\n%s", op, len(a.docs), len(b.docs), after)
			return
		}
		for i := range a.docs {
			if a.docs[i] != b.docs[i] {
				k.Fail("documents", "%s changes document %d from %q to %q", op, i, b.docs[i], a.docs[i])
				return
			}
		}
		if len(a.sigs) != 1 || a.pos[0] != a.n-1 {
			k.Fail("one-signature", "%s leaves signature documents at %v of %d documents:\n%s", op, a.pos, a.n, after)
			return
		}
		want, _ := hex.DecodeString(mac)
		if got, ok := hmacOf(a.sigs[0]); !ok || !bytes.Equal(got, want) {
			k.Fail("value", "%s writes signature %q, expected %q", op, a.sigs[0], mac)
		}
	}
	signOpF := func(key string) func(k *K, text string) (string, bool) {
		return func(k *K, text string) (string, bool) {
			_, serr := refSigned(text)
			in := []byte(text)
			out, err := signer.SignUpdate(in, signer.KeyString(key))
			k.Step(1)
			k.Agree(1)
			if string(in) != text {
				k.Fail("mutates", "the input is changed to %q", in)
			}
			if (serr != nil) != (err != nil) {
				k.Fail("error", "signing fails with %v, expected %v", err, serr)
				return text, false
			}
			if err != nil {
				if len(out) != 0 {
					k.Fail("error", "a failed signature yields %q", out)
				}
				return text, false
			}
			mac, err := signer.Sign([]byte(text), signer.KeyString(key))
			if err != nil {
				k.Fail("error", "Sign: %v", err)
				return text, false
			}
			checkSigned(k, "sign", text, string(out), mac)
			if v, err := signer.Verify(out, signer.KeyString(key)); !v || err != nil {
				k.Fail("verify", "the signed configuration does not verify: %v, %v\n%s", v, err, out)
			}
			again, err := signer.SignUpdate(out, signer.KeyString(key))
			k.Step(2)
			k.Agree(3)
			if err != nil || !bytes.Equal(again, out) {
				k.Fail("idempotent", "signing again gives (%v)\n%s\nafter\n%s", err, again, out)
			}
			// writing the computed signature has the same effect
			w, err := signer.WriteTo([]byte(text), mac)
			k.Step(1)
			if err != nil || !bytes.Equal(w, out) {
				k.Fail("write", "writing the computed signature gives (%v)\n%s\ninstead of\n%s", err, w, out)
			}
			return string(out), true
		}
	}
	writeOpF := func(mac string) func(k *K, text string) (string, bool) {
		return func(k *K, text string) (string, bool) {
			_, serr := refSigned(text)
			out, err := signer.WriteTo([]byte(text), mac)
			k.Step(1)
			k.Agree(1)
			if (serr != nil) != (err != nil) {
				k.Fail("error", "writing a signature fails with %v, expected %v", err, serr)
				return text, false
			}
			if err != nil {
				return text, false
			}
			checkSigned(k, "write", text, string(out), mac)
			again, err := signer.WriteTo(out, mac)
			k.Step(1)
			k.Agree(1)
			if err != nil || !bytes.Equal(again, out) {
				k.Fail("idempotent", "writing again gives (%v)\n%s\nafter\n%s", err, again, out)
			}
			// the history does not matter: signing gives the same bytes
			a, err1 := signer.SignUpdate([]byte(text), signer.KeyString(keyA))
			b, err2 := signer.SignUpdate(out, signer.KeyString(keyA))
			k.Step(2)
			k.Agree(1)
			if err1 != nil || err2 != nil || !bytes.Equal(a, b) {
				k.Fail("history", "signing after writing a signature gives (%v, %v)\n%s\ninstead of\n%s", err1, err2, b, a)
			}
			return string(out), true
		}
	}
	edit := func(f func(text string) string) func(k *K, text string) (string, bool) {
		return func(k *K, text string) (string, bool) { return f(text), true }
	}
	ops := []signOp{
		{"sign A", signOpF(keyA)},
		{"sign B", signOpF(keyB)},
		{"write 1", writeOpF(strings.Repeat("0123456789abcdef", 4))},
		{"write 2", writeOpF("00")},
		{"verify", func(k *K, text string) (string, bool) {
			in := []byte(text)
			signer.Verify(in, signer.KeyString(keyA))
			k.Step(1)
			k.Agree(1)
			if string(in) != text {
				k.Fail("mutates", "verification changes its input to %q", in)
			}
			return text, false
		}},
		{"append document", edit(func(t string) string {
			if i := strings.Index(t, "\n...\n"); i >= 0 {
				t = t[:i+1]
			}
			if t != "" && !strings.HasSuffix(t, "\n") {
				t += "\n"
			}
			return t + "---\nkind: secret\nname: new\n"
		})},
		{"prepend document", edit(func(t string) string {
			if !strings.HasPrefix(t, "---") {
				t = "---\n" + t
			}
			return "kind: cron\nname: first\n" + t
		})},
		{"append line", edit(func(t string) string {
			if i := strings.Index(t, "\n...\n"); i >= 0 {
				t = t[:i+1]
			}
			return t + "# edited"
		})},
		{"terminate", edit(func(t string) string {
			if t != "" && !strings.HasSuffix(t, "\n") {
				t += "\n"
			}
			return t + "...\nkind: pipeline\n"
		})},
		{"break", edit(func(t string) string { return "kind: [\n---\n" + t })},
		{"prepend signature", edit(func(t string) string {
			if !strings.HasPrefix(t, "---") {
				t = "---\n" + t
			}
			return "kind: signature\nhmac: ff\n" + t
		})},
		{"remove first document", edit(func(t string) string {
			if i := strings.Index(t, "\n---"); i >= 0 {
				return t[i+1:]
			}
			return ""
		})},
	}
	// initial streams: every sequence of documents with 0..2 signature
	// documents at any position
	nd := len(signDocs)
	maxLen := 2
	depth := 3
	if !c.Quick {
		nd, maxLen, depth = len(signDocs), 3, 3
	}
	sig1 := "kind: signature\nhmac: " + strings.Repeat("ab", 32) + "\n"
	sig2 := "kind: signature\nhmac: old\n\n"
	var inits []string
	seen := map[string]bool{}
	add := func(t string) {
		if !seen[t] {
			seen[t] = true
			inits = append(inits, t)
		}
	}
	var rec func(docs []string)
	rec = func(docs []string) {
		lists := [][]string{docs}
		for i := 0; i <= len(docs); i++ {
			l := insertAt(docs, i, sig1)
			lists = append(lists, l)
			for j := 0; j <= len(l); j++ {
				lists = append(lists, insertAt(l, j, sig2))
			}
		}
		for _, l := range lists {
			for st := range streamStyles {
				if c.Quick && st > 0 && len(docs) > 1 && (len(l)+st)%3 != 0 {
					continue
				}
				add(streamStyles[st](l))
			}
		}
		if len(docs) < maxLen {
			for i := 0; i < nd; i++ {
				rec(append(append([]string(nil), docs...), signDocs[i]))
			}
		}
	}
	rec(nil)
	c.Range("streams", fmt.Sprintf("every stream of <=%d of %d documents with 0..2 signature documents anywhere, in several spellings; each operation", maxLen, nd), len(inits), func(k *K, i int) {
		for _, op := range ops {
			text, name := inits[i], op.name
			k.In(func() string { return fmt.Sprintf("%s on\n%s", name, text) })
			k.State(text)
			op.do(k, text)
			if k.Failed() {
				return
			}
		}
	})
	dt := append(streamTexts(c), longTexts(c)...)
	c.Product("dictionary", fmt.Sprintf("%d documents with every literal of the code and fixed words in several positions, and long documents, after another; each operation", len(dt)), []int{len(dt), 2}, func(k *K, ix []int) {
		text := streamStyles[0]([]string{dt[ix[0]]})
		if ix[1] == 1 {
			text = streamStyles[0]([]string{signDocs[0], sig1, dt[ix[0]]})
		}
		for _, op := range ops {
			name := op.name
			k.In(func() string { return fmt.Sprintf("%s on\n%s", name, clip(text, 2000)) })
			k.State(text)
			op.do(k, text)
			if k.Failed() {
				return
			}
		}
	})
	kd := append([]string{signDocs[0], sig1}, kindDocs...)
	top := 2
	if !c.Quick {
		top = 3
	}
	c.Words("kinds", fmt.Sprintf("all sequences of <=%d of %d documents whose kind resembles a signature; each operation", top, len(kd)), len(kd), 1, top, func(k *K, w []int) {
		var docs []string
		for _, i := range w {
			docs = append(docs, kd[i])
		}
		text := streamStyles[0](docs)
		for _, op := range ops {
			name := op.name
			k.In(func() string { return fmt.Sprintf("%s on\n%s", name, text) })
			k.State(text)
			op.do(k, text)
			if k.Failed() {
				return
			}
		}
	})
	// breadth-first over the reachable stream states
	roots := []string{"", "kind: pipeline\nname: a\n", "---\nkind: pipeline\n---\n" + sig1 + "---\nkind: secret\n", "kind: pipeline\r\nname: a\r\n---\r\n---\r\nkind: x",
		"---\n" + sig1 + "---\n" + sig2 + "...\nrest: [\n", "# nothing\n", "---\nkind: secret\ndata: |\n  x\n\n\n"}
	if c.Quick {
		depth = 5
	} else {
		depth = 6
	}
	c.Range("histories", fmt.Sprintf("all histories of <=%d operations out of %d (sign with two keys, write two signatures, verify, seven edits) from %d streams; states merged by content", depth, len(ops), len(roots)), len(roots), func(k *K, ri int) {
		type node struct {
			text string
			path string
		}
		cur := []node{{roots[ri], ""}}
		seen := map[string]bool{roots[ri]: true}
		for d := 0; d < depth; d++ {
			var next []node
			for _, n := range cur {
				for _, op := range ops {
					path := n.path + " > " + op.name
					text := n.text
					k.In(func() string { return fmt.Sprintf("%q%s; last state:\n%s", roots[ri], path, text) })
					out, changed := op.do(k, text)
					if k.Failed() {
						return
					}
					k.State(out)
					if changed && !seen[out] && len(out) < 1500 {
						seen[out] = true
						next = append(next, node{out, path})
					}
				}
			}
			cur = next
		}
	})

	// nothing that cannot be parsed is accepted
	bad := []string{"kind: [", "\t", "a: b: c", "kind: 'x", "kind: {a: 1}\n", "- a\n", "kind: [a]\n", "a\n", "kind: pipeline\n---\n- x\n", "kind: pipeline\n---\nkind: [\n", "a: *x\n", "kind: pipeline\nx: \x00\n", "%TAG\n"}
	long := "kind: pipeline\nname: " + strings.Repeat("x", 70000) + "\n"
	bad = append(bad, long)
	c.Range("refused", "configurations that cannot be parsed", len(bad), func(k *K, i int) {
		text := bad[i]
		k.In(func() string { return clip(fmt.Sprintf("%q", text), 300) })
		k.State(text)
		if _, err := yaml.ParseRawBytes([]byte(text)); err == nil {
			return
		}
		a, e1 := signer.SignUpdate([]byte(text), signer.KeyString(keyA))
		_, e2 := signer.WriteTo([]byte(text), "ab")
		_, e3 := signer.Sign([]byte(text), signer.KeyString(keyA))
		v, e4 := signer.Verify([]byte(text), signer.KeyString(keyA))
		k.Step(4)
		k.Agree(4)
		if e1 == nil || e2 == nil || e3 == nil || e4 == nil || v || len(a) != 0 {
			k.Fail("error", "accepted: update %v, write %v, sign %v, verify %v %v", e1, e2, e3, v, e4)
		}
	})
}
