package main

import (
	"fmt"
	"strings"

	"github.com/drone/drone-yaml/yaml/compiler/image"
)

func init() { register("C27", runC27) }

// ---------------------------------------------------------------------
// Reference grammar of image references, written as a recogniser:
//   [domain "/"] component *("/" component) [":" tag] ["@" digest]
// ---------------------------------------------------------------------

type imgRef struct {
	domain, path, tag, digest string
}

func isLowerAlnum(b byte) bool { return b >= 'a' && b <= 'z' || b >= '0' && b <= '9' }
func isAlnum(b byte) bool      { return isLowerAlnum(b) || b >= 'A' && b <= 'Z' }

func all(s string, f func(byte) bool) bool {
	for i := 0; i < len(s); i++ {
		if !f(s[i]) {
			return false
		}
	}
	return true
}

// okComponent: lower-case alphanumerics joined by one of ".", "_", "__" or
// any number of "-".
func okComponent(s string) bool {
	i := 0
	run := func() bool {
		j := i
		for i < len(s) && isLowerAlnum(s[i]) {
			i++
		}
		return i > j
	}
	if !run() {
		return false
	}
	for i < len(s) {
		j := i
		for i < len(s) && !isLowerAlnum(s[i]) {
			i++
		}
		sep := s[j:i]
		if !(sep == "." || sep == "_" || sep == "__" || strings.Trim(sep, "-") == "") || !run() {
			return false
		}
	}
	return true
}

func okDomain(s string) bool {
	if i := strings.IndexByte(s, ':'); i >= 0 {
		port := s[i+1:]
		if port == "" || !all(port, func(b byte) bool { return b >= '0' && b <= '9' }) {
			return false
		}
		s = s[:i]
	}
	for _, l := range strings.Split(s, ".") {
		if l == "" || !all(l, func(b byte) bool { return isAlnum(b) || b == '-' }) || l[0] == '-' || l[len(l)-1] == '-' {
			return false
		}
	}
	return true
}

func isHex64(s string) bool {
	return len(s) == 64 && all(s, func(b byte) bool { return b >= '0' && b <= '9' || b >= 'a' && b <= 'f' })
}

// okDigest knows the one algorithm of the domain.
func okDigest(s string) bool { return strings.HasPrefix(s, "sha256:") && isHex64(s[7:]) }

func parseImage(s string) (r imgRef, ok bool) {
	if isHex64(s) || okDigest(s) {
		return r, false
	}
	rest := s
	if i := strings.IndexByte(rest, '@'); i >= 0 {
		r.digest = rest[i+1:]
		rest = rest[:i]
		if !okDigest(r.digest) {
			return r, false
		}
	}
	// the first component is a registry if it looks like a host
	r.domain = "docker.io"
	if i := strings.IndexByte(rest, '/'); i >= 0 && (strings.ContainsAny(rest[:i], ".:") || rest[:i] == "localhost") {
		r.domain, rest = rest[:i], rest[i+1:]
		if !okDomain(r.domain) {
			return r, false
		}
	}
	if r.domain == "index.docker.io" {
		r.domain = "docker.io"
	}
	if i := strings.IndexByte(rest, ':'); i >= 0 {
		r.tag = rest[i+1:]
		rest = rest[:i]
		if len(r.tag) == 0 || len(r.tag) > 128 || r.tag[0] == '.' || r.tag[0] == '-' ||
			!all(r.tag, func(b byte) bool { return isAlnum(b) || b == '_' || b == '.' || b == '-' }) {
			return r, false
		}
	}
	for _, c := range strings.Split(rest, "/") {
		if !okComponent(c) {
			return r, false
		}
	}
	if r.domain == "docker.io" && !strings.Contains(rest, "/") {
		rest = "library/" + rest
	}
	r.path = rest
	return r, len(r.domain)+1+len(r.path) <= 255
}

func (r imgRef) repo() string { return r.domain + "/" + r.path }

func (r imgRef) full() string {
	s := r.repo()
	if r.tag == "" && r.digest == "" {
		return s + ":latest"
	}
	if r.tag != "" {
		s += ":" + r.tag
	}
	if r.digest != "" {
		s += "@" + r.digest
	}
	return s
}

// familiar is the shortest text that still names the repository.
func (r imgRef) familiar() string {
	s := r.repo()
	if r.domain == "docker.io" {
		s = r.path
		if p := strings.Split(s, "/"); len(p) == 2 && p[0] == "library" {
			s = p[1]
		}
		if b, ok := parseImage(s); !ok || b.repo() != r.repo() || b.tag != "" {
			s = r.repo()
		}
	}
	return s
}

func refExpand(s string) string {
	if r, ok := parseImage(s); ok {
		return r.full()
	}
	return s
}

func refRepo(s string) string {
	if r, ok := parseImage(s); ok {
		return r.repo()
	}
	return s
}

// ---------------------------------------------------------------------

// oddHost: the first component looks like a host but has an underscore, which
// is no host name; the grammar leaves open what such a text means.
func oddHost(s string) bool {
	i := strings.IndexByte(s, '/')
	return i >= 0 && strings.Contains(s[:i], ".") && !okDomain(s[:i]) && okComponent(s[:i])
}

func checkImage(k *K, s string) {
	if oddHost(s) {
		return
	}
	k.State(s)
	r, ok := parseImage(s)
	trim, exp := image.Trim(s), image.Expand(s)
	k.Step(4)
	wantTrim, wantExp := s, s
	if ok {
		wantTrim, wantExp = r.familiar(), r.full()
	}
	if trim != wantTrim {
		k.Fail("trim", "Trim(%q) = %q, want %q", s, trim, wantTrim)
	}
	if exp != wantExp {
		k.Fail("expand", "Expand(%q) = %q, want %q", s, exp, wantExp)
	}
	if t := image.Trim(trim); t != trim {
		k.Fail("idempotent", "Trim(%q) = %q but trimming again gives %q", s, trim, t)
	}
	if t := image.Expand(exp); t != exp {
		k.Fail("idempotent", "Expand(%q) = %q but expanding again gives %q", s, exp, t)
	}
	k.Agree(4)
}

func imageHosts() []string {
	return []string{"docker.io", "index.docker.io", "gcr.io", "localhost", "localhost:5000", "GCR.io", "", "docker", "gcr.io:443"}
}

func checkHosts(k *K, s string) { checkHost(k, s, imageHosts()...) }

func checkHost(k *K, s string, hosts ...string) {
	r, ok := parseImage(s)
	for _, h := range hosts {
		want := ok && (r.domain == h || r.domain == "docker.io" && h == "index.docker.io")
		k.Step(1)
		k.Agree(1)
		if got := image.MatchHostname(s, h); got != want {
			k.Fail("hostname", "MatchHostname(%q, %q) = %v, want %v", s, h, got, want)
		}
	}
}

func checkImagePair(k *K, a, b string) {
	ra, oka := parseImage(a)
	rb, okb := parseImage(b)
	sameRepo, sameFull := a == b, a == b
	if oka && okb {
		sameRepo, sameFull = ra.repo() == rb.repo(), ra.full() == rb.full()
	}
	k.Step(3)
	k.Agree(3)
	if got := image.Match(a, b); got != sameRepo {
		k.Fail("match", "Match(%q, %q) = %v, want %v", a, b, got, sameRepo)
	}
	if got := image.Match(a, "no-such/image", b, "other"); got != sameRepo {
		k.Fail("match", "Match(%q, [no-such/image %q other]) = %v, want %v", a, b, got, sameRepo)
	}
	if got := image.MatchTag(a, b); got != sameFull {
		k.Fail("matchtag", "MatchTag(%q, %q) = %v, want %v", a, b, got, sameFull)
	}
}

// imageTexts is the structured reference space.
func imageTexts() []string {
	hex := strings.Repeat("0a", 32)
	var out []string
	for _, d := range []string{"", "docker.io/", "index.docker.io/", "gcr.io/", "localhost/", "localhost:5000/", "GCR.io/", "a-b.c:1/", "quay/", "-a.b/", "a.b:/"} {
		for _, p := range []string{"golang", "library/golang", "octo/app", "a/b/c", "gcr.io/app", "index.docker.io/app", "localhost/app", "lib__a.b-c--d", "a..b", "a___b", "A", "x:", hex, "library", "library/library", "a//b"} {
			for _, t := range []string{"", ":latest", ":1.0", ":V_1", ":-x", ":" + strings.Repeat("t", 129)} {
				for _, g := range []string{"", "@sha256:" + hex, "@sha256:" + hex[2:], "@md5:1"} {
					out = append(out, d+p+t+g)
				}
			}
		}
	}
	out = append(out, hex, "sha256:"+hex, strings.Repeat("a", 237), strings.Repeat("a", 238), "gcr.io/"+strings.Repeat("a", 248), "gcr.io/"+strings.Repeat("a", 249), "", " ", "golang ", "foo/bar?baz:boo")
	return out
}

func runC27(c *Ctx) {
	texts := imageTexts()
	c.Range("structured", "domain x path x tag x digest", len(texts), func(k *K, i int) {
		k.In(func() string { return fmt.Sprintf("%q", texts[i]) })
		checkImage(k, texts[i])
		checkHosts(k, texts[i])
	})
	// all pairs of a representative set
	var reps []string
	for _, d := range []string{"", "docker.io/", "index.docker.io/", "gcr.io/", "localhost/"} {
		for _, p := range []string{"golang", "library/golang", "octo/app", "gcr.io/app", "golang2", "A"} {
			for _, t := range []string{"", ":latest", ":1", "@sha256:" + strings.Repeat("0a", 32), ":1@sha256:" + strings.Repeat("0a", 32)} {
				reps = append(reps, d+p+t)
			}
		}
	}
	reps = append(reps, "", "foo/bar?baz", strings.Repeat("0a", 32), "golang:latest:latest", "GOLANG", "x")
	c.Product("pairs", "all ordered pairs of representatives", []int{len(reps), len(reps)}, func(k *K, ix []int) {
		a, b := reps[ix[0]], reps[ix[1]]
		k.In(func() string { return fmt.Sprintf("%q %q", a, b) })
		k.State(a + "\x00" + b)
		checkImagePair(k, a, b)
	})
	// every text over a small alphabet
	alpha := []string{"a", "/", ":", ".", "-", "_", "@", "A", "1", "docker.io", "localhost"}
	n := 5
	if !c.Quick {
		n = 7
	}
	c.Words("texts", fmt.Sprintf("all texts of up to %d symbols over %q", n, alpha), len(alpha), 0, n, func(k *K, w []int) {
		var b strings.Builder
		for _, i := range w {
			b.WriteString(alpha[i])
		}
		s := b.String()
		k.In(func() string { return fmt.Sprintf("%q", s) })
		checkImage(k, s)
		if len(w) <= 4 {
			checkHosts(k, s)
		}
	})
	imageDict(c)
	m := 3
	small := []string{"a", "/", ":", ".", "docker.io/", "library/"}
	var ws []string
	var rec func(p string, d int)
	rec = func(p string, d int) {
		ws = append(ws, p)
		if d == 0 {
			return
		}
		for _, x := range small {
			rec(p+x, d-1)
		}
	}
	if !c.Quick {
		m = 4
	}
	rec("", m)
	c.Product("textpairs", fmt.Sprintf("all pairs of texts of up to %d symbols over %q", m, small), []int{len(ws), len(ws)}, func(k *K, ix []int) {
		a, b := ws[ix[0]], ws[ix[1]]
		k.In(func() string { return fmt.Sprintf("%q %q", a, b) })
		checkImagePair(k, a, b)
	})
	c.Assume("texts whose first component has both a dot and an underscore (neither a host name nor a plain component) are left out")
	c.Assume("sha256 is the only digest algorithm in the explored references; pairs of texts that are not references match only when equal")
}
