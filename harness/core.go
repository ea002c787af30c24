package main

import (
	"encoding/json"
	"fmt"
	"hash/maphash"
	"io/ioutil"
	"math"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// ---------------------------------------------------------------------
// Enumeration framework: finite spaces, executed completely.
// ---------------------------------------------------------------------

type violation struct {
	Key   string `json:"key"`
	Class string `json:"class"`
	Msg   string `json:"message"`
	Input string `json:"input,omitempty"`
	ord   int64
}

type spaceStat struct {
	Name     string `json:"name"`
	Size     int64  `json:"size"`
	Visited  int64  `json:"visited"`
	Bound    string `json:"bound,omitempty"`
	Complete bool   `json:"complete"`
}

const nShard = 64

type shard struct {
	sync.Mutex
	m map[uint64]struct{}
}

type Ctx struct {
	prefix  string // of the names of the spaces
	ID      string
	Tier    string
	Quick   bool
	Only    string // replay key
	Root    string
	Seed    int64
	Workers int

	start    time.Time
	deadline time.Time
	shards   [nShard]shard
	seed     maphash.Seed

	trans, valid int64
	mu           sync.Mutex
	viols        []violation
	known        map[string]*violation // class -> first
	knownN       map[string]int64
	knownDef     map[string]string
	samples      []string
	spaces       []*spaceStat
	assume       []string
	exhaustive   bool
	extra        map[string]interface{}
	active       []activeCase
	ord          int64
}

type activeCase struct {
	mu    sync.Mutex
	key   string
	since time.Time
}

// K is one explored point.
type K struct {
	c     *Ctx
	Key   string
	in    func() string
	fails []violation
}

// In registers a lazily evaluated description of the point.
func (k *K) In(f func() string) { k.in = f }

// Step counts n operations executed on the implementation.
func (k *K) Step(n int) { atomic.AddInt64(&k.c.trans, int64(n)) }

// Agree counts n comparisons of a model prediction with the implementation.
func (k *K) Agree(n int) { atomic.AddInt64(&k.c.valid, int64(n)) }

// State records a distinct model state / canonical input.
func (k *K) State(s string) { k.c.addState(s) }

func (c *Ctx) addState(s string) {
	h := maphash.String(c.seed, s)
	sh := &c.shards[h%nShard]
	sh.Lock()
	sh.m[h] = struct{}{}
	sh.Unlock()
}

// Fail records a property violation at this point. The class identifies the
// narrow kind of failure and is what known_findings.json matches on.
func (k *K) Fail(class, format string, args ...interface{}) {
	k.fails = append(k.fails, violation{Key: k.Key, Class: class, Msg: fmt.Sprintf(format, args...)})
}

func (k *K) Failed() bool { return len(k.fails) > 0 }

func (c *Ctx) States() int64 {
	var n int64
	for i := range c.shards {
		c.shards[i].Lock()
		n += int64(len(c.shards[i].m))
		c.shards[i].Unlock()
	}
	return n
}

func (c *Ctx) Assume(s string) {
	c.mu.Lock()
	c.assume = append(c.assume, s)
	c.mu.Unlock()
}

func (c *Ctx) timeUp() bool { return time.Now().After(c.deadline) }

// runCase executes f on one point, catching panics.
func (c *Ctx) runCase(w int, key string, ord int64, sample bool, f func(k *K)) {
	k := &K{c: c, Key: key}
	a := &c.active[w]
	a.mu.Lock()
	a.key, a.since = key, time.Now()
	a.mu.Unlock()
	c.guard(k, f)
	a.mu.Lock()
	a.key = ""
	a.mu.Unlock()
	if sample && k.in != nil {
		c.mu.Lock()
		if len(c.samples) < 24 {
			c.samples = append(c.samples, key+" "+clip(safeStr(k.in), 600))
		}
		c.mu.Unlock()
	}
	if len(k.fails) > 0 {
		c.report(k, ord)
	}
}

func safeStr(f func() string) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = fmt.Sprint("(description failed: ", r, ")")
		}
	}()
	return f()
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + fmt.Sprintf("...(%d bytes)", len(s))
	}
	return s
}

func (c *Ctx) guard(k *K, f func(k *K)) {
	defer func() {
		if r := recover(); r != nil {
			k.Fail("panic", "panic: %v\n%s", r, trimStack(string(debug.Stack())))
		}
	}()
	f(k)
}

func trimStack(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		out = append(out, l)
		if len(out) > 40 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func (c *Ctx) report(k *K, ord int64) {
	in := ""
	if k.in != nil {
		in = safeStr(k.in)
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, v := range k.fails {
		v.Input = in
		v.ord = ord
		if _, ok := c.knownDef[v.Class]; ok {
			c.knownN[v.Class]++
			if old := c.known[v.Class]; old == nil || ord < old.ord {
				vv := v
				c.known[v.Class] = &vv
			}
			continue
		}
		c.viols = append(c.viols, v)
	}
}

func (c *Ctx) tooMany() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.viols) >= 40
}

func (c *Ctx) newSpace(name, bound string, size int64) *spaceStat {
	s := &spaceStat{Name: name, Bound: bound, Size: size}
	c.mu.Lock()
	c.spaces = append(c.spaces, s)
	c.mu.Unlock()
	return s
}

// wantSpace reports whether the space takes part in this run, and for a
// replay which point of it.
func (c *Ctx) wantSpace(name string) (bool, string) {
	if c.Only == "" {
		return true, ""
	}
	i := strings.Index(c.Only, ":")
	if i < 0 || c.Only[:i] != name {
		return false, ""
	}
	return true, c.Only[i+1:]
}

// Range enumerates n points.
func (c *Ctx) Range(name, bound string, n int, f func(k *K, i int)) {
	c.Product(name, bound, []int{n}, func(k *K, ix []int) { f(k, ix[0]) })
}

// Product enumerates the full cartesian product.
func (c *Ctx) Product(name, bound string, dims []int, f func(k *K, ix []int)) {
	total := int64(1)
	for _, d := range dims {
		total *= int64(d)
	}
	decode := func(n int64) []int {
		ix := make([]int, len(dims))
		for i := len(dims) - 1; i >= 0; i-- {
			ix[i] = int(n % int64(dims[i]))
			n /= int64(dims[i])
		}
		return ix
	}
	c.explore(name, bound, total, decode, f)
}

// Words enumerates every word over an alphabet of size a, lengths lo..hi.
func (c *Ctx) Words(name, bound string, a, lo, hi int, f func(k *K, w []int)) {
	var total int64
	var counts []int64
	for l := lo; l <= hi; l++ {
		n := int64(1)
		for i := 0; i < l; i++ {
			n *= int64(a)
		}
		counts = append(counts, n)
		total += n
	}
	decode := func(n int64) []int {
		for i, cnt := range counts {
			if n < cnt {
				l := lo + i
				w := make([]int, l)
				for j := l - 1; j >= 0; j-- {
					w[j] = int(n % int64(a))
					n /= int64(a)
				}
				return w
			}
			n -= cnt
		}
		return nil
	}
	c.explore(name, bound, total, decode, f)
}

// Deviate enumerates all assignments in which at most t dimensions are
// different from 0.
func (c *Ctx) Deviate(name, bound string, dims []int, t int, f func(k *K, ix []int)) {
	// blocks: one per subset of dimensions of size <= t
	type block struct {
		sub   []int
		count int64
	}
	var blocks []block
	var total int64
	var rec func(start int, sub []int, cnt int64)
	rec = func(start int, sub []int, cnt int64) {
		blocks = append(blocks, block{append([]int(nil), sub...), cnt})
		total += cnt
		if len(sub) == t {
			return
		}
		for i := start; i < len(dims); i++ {
			if dims[i] <= 1 {
				continue
			}
			rec(i+1, append(sub, i), cnt*int64(dims[i]-1))
		}
	}
	rec(0, nil, 1)
	sort.SliceStable(blocks, func(i, j int) bool { return len(blocks[i].sub) < len(blocks[j].sub) })
	starts := make([]int64, len(blocks))
	var acc int64
	for i := range blocks {
		starts[i] = acc
		acc += blocks[i].count
	}
	decode := func(n int64) []int {
		b := sort.Search(len(starts), func(i int) bool { return starts[i] > n }) - 1
		n -= starts[b]
		ix := make([]int, len(dims))
		sub := blocks[b].sub
		for j := len(sub) - 1; j >= 0; j-- {
			d := int64(dims[sub[j]] - 1)
			ix[sub[j]] = int(n%d) + 1
			n /= d
		}
		return ix
	}
	c.explore(name, bound, total, decode, f)
}

func (c *Ctx) explore(name, bound string, total int64, decode func(int64) []int, f func(k *K, ix []int)) {
	name = c.prefix + name
	want, only := c.wantSpace(name)
	if !want {
		return
	}
	s := c.newSpace(name, bound, total)
	if only != "" {
		n, err := strconv.ParseInt(only, 10, 64)
		if err != nil || n < 0 || n >= total {
			fatalf("bad replay key %q", c.Only)
		}
		c.runCase(0, c.Only, n, true, func(k *K) { f(k, decode(n)) })
		s.Visited = 1
		return
	}
	workers := c.Workers
	chunk := total/int64(workers*16) + 1
	if chunk > 512 {
		chunk = 512
	}
	var next int64
	var visited int64
	var wg sync.WaitGroup
	base := atomic.AddInt64(&c.ord, 1) << 40
	var stop int32
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for {
				lo := atomic.AddInt64(&next, chunk) - chunk
				if lo >= total || atomic.LoadInt32(&stop) != 0 {
					return
				}
				if c.timeUp() || c.tooMany() {
					atomic.StoreInt32(&stop, 1)
					return
				}
				hi := lo + chunk
				if hi > total {
					hi = total
				}
				for n := lo; n < hi; n++ {
					ix := decode(n)
					c.runCase(w, name+":"+strconv.FormatInt(n, 10), base+n, n == 0 || n == total/2 || n == total-1,
						func(k *K) { f(k, ix) })
					atomic.AddInt64(&visited, 1)
				}
			}
		}(w)
	}
	wg.Wait()
	s.Visited = visited
	s.Complete = visited == total
	if !s.Complete {
		c.exhaustive = false
	}
}

// Case runs a single, custom enumerated point (for BFS style exploration).
func (c *Ctx) Case(w int, key string, sample bool, f func(k *K)) {
	c.runCase(w, key, atomic.AddInt64(&c.ord, 1)<<40, sample, f)
}

// ---------------------------------------------------------------------
// Driver
// ---------------------------------------------------------------------

type checkDef struct {
	id     string
	run    func(c *Ctx)
	budget time.Duration // quick budget
	serial bool
}

var checks = map[string]*checkDef{}

func register(id string, run func(c *Ctx)) *checkDef {
	d := &checkDef{id: id, run: run}
	checks[id] = d
	return d
}

func fatalf(format string, args ...interface{}) {
	fmt.Fprintf(os.Stderr, "harness error: "+format+"\n", args...)
	os.Exit(3)
}

func main() {
	if len(os.Args) < 3 {
		fatalf("usage: harness <ID> <tier> [-only key]")
	}
	id, tier := os.Args[1], os.Args[2]
	if id == "convert-server" {
		convertServer()
		return
	}
	if id == "parallel-op" {
		opMain(tier)
	}
	if id == "parallel-race" {
		raceMain(tier, os.Args[3])
	}
	only := ""
	for i := 3; i+1 < len(os.Args); i++ {
		if os.Args[i] == "-only" {
			only = os.Args[i+1]
		}
	}
	d := checks[id]
	if d == nil {
		fatalf("unknown property %s", id)
	}
	debug.SetMaxStack(256 << 20)
	debug.SetMemoryLimit(12 << 30)
	debug.SetGCPercent(400)
	root := os.Getenv("VERIF_ROOT")
	if root == "" {
		root = "/verif"
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	c := &Ctx{ID: id, Tier: tier, Quick: tier != "thorough", Only: only, Root: root, Seed: seed,
		start: time.Now(), seed: maphash.MakeSeed(), known: map[string]*violation{}, knownN: map[string]int64{},
		knownDef: map[string]string{}, exhaustive: true, extra: map[string]interface{}{}}
	c.Workers = runtime.NumCPU()
	if d.serial {
		c.Workers = 1
	}
	for i := range c.shards {
		c.shards[i].m = map[uint64]struct{}{}
	}
	c.active = make([]activeCase, c.Workers+1)
	// Internal deadlines keep well below the 900 s limit of a check; a run
	// cut short says exhaustive: false.
	if c.Quick {
		c.deadline = c.start.Add(200 * time.Second)
	} else {
		c.deadline = c.start.Add(780 * time.Second)
	}
	c.loadKnown()
	go c.watchdog()
	d.run(c)
	os.Exit(c.finish())
}

func (c *Ctx) watchdog() {
	for {
		time.Sleep(time.Second)
		for i := range c.active {
			a := &c.active[i]
			a.mu.Lock()
			key, since := a.key, a.since
			a.mu.Unlock()
			if key != "" && time.Since(since) > 120*time.Second {
				buf := make([]byte, 1<<16)
				buf = buf[:runtime.Stack(buf, true)]
				c.mu.Lock()
				c.viols = append(c.viols, violation{Key: key, Class: "hang", Msg: "no result after 120 s\n" + clip(string(buf), 6000)})
				c.mu.Unlock()
				os.Exit(c.finish())
			}
		}
	}
}

type knownFile struct {
	Findings []struct {
		Property string `json:"property"`
		Class    string `json:"class"`
		What     string `json:"what"`
	} `json:"findings"`
}

func (c *Ctx) loadKnown() {
	b, err := ioutil.ReadFile(filepath.Join(c.Root, "known_findings.json"))
	if err != nil {
		return
	}
	var k knownFile
	if err := json.Unmarshal(b, &k); err != nil {
		fatalf("known_findings.json: %v", err)
	}
	for _, f := range k.Findings {
		if f.Property == c.ID {
			c.knownDef[f.Class] = f.What
		}
	}
}

func (c *Ctx) finish() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	sort.SliceStable(c.viols, func(i, j int) bool { return c.viols[i].ord < c.viols[j].ord })
	wall := time.Since(c.start).Seconds()
	cov := map[string]interface{}{
		"states":                        c.States(),
		"transitions":                   atomic.LoadInt64(&c.trans),
		"traces_validated_against_impl": atomic.LoadInt64(&c.valid),
		"samples":                       c.samples,
		"exhaustive":                    c.exhaustive && c.Only == "",
		"spaces":                        c.spaces,
	}
	for k, v := range c.extra {
		cov[k] = v
	}
	if len(c.knownN) > 0 {
		cov["known_findings_hit"] = c.knownN
	}
	ev := map[string]interface{}{
		"property": c.ID, "tier": c.Tier, "seed": c.Seed, "level": "model_checking",
		"coverage": cov, "wall_s": wall, "violations": len(c.viols),
	}
	if len(c.assume) > 0 {
		ev["assumptions"] = c.assume
	}
	if ev["tier"] != "thorough" {
		ev["tier"] = "quick"
	}
	if c.Only == "" {
		os.MkdirAll(filepath.Join(c.Root, "evidence"), 0755)
		b, _ := json.MarshalIndent(ev, "", " ")
		if err := ioutil.WriteFile(filepath.Join(c.Root, "evidence", c.ID+".json"), append(b, '\n'), 0644); err != nil {
			fmt.Fprintln(os.Stderr, "evidence:", err)
		}
	}
	var cls []string
	for k := range c.known {
		cls = append(cls, k)
	}
	sort.Strings(cls)
	for _, k := range cls {
		fmt.Printf("KNOWN-FINDING: property=%s %s (%d points, e.g. %s)\n", c.ID, c.knownDef[k], c.knownN[k], c.known[k].Key)
		if c.Only != "" {
			fmt.Printf("  %s\n  input: %s\n", clip(c.known[k].Msg, 3000), clip(c.known[k].Input, 3000))
		}
	}
	fmt.Printf("%s %s: %d states, %d transitions, %d comparisons, exhaustive=%v, %.1fs\n", c.ID, c.Tier,
		cov["states"], cov["transitions"], cov["traces_validated_against_impl"], cov["exhaustive"], wall)
	for _, s := range c.spaces {
		fmt.Printf("  %-28s %d/%d  %s\n", s.Name, s.Visited, s.Size, s.Bound)
	}
	if len(c.viols) == 0 {
		return 0
	}
	seen := map[string]int{}
	for _, v := range c.viols {
		seen[v.Class]++
		if seen[v.Class] <= 2 {
			fmt.Printf("-- %s [%s]\n%s\n", v.Key, v.Class, indent(clip(v.Msg, 4000)))
			if v.Input != "" {
				fmt.Printf("   input:\n%s\n", indent(clip(v.Input, 3000)))
			}
		}
	}
	dir := filepath.Join(c.Root, "replay")
	os.MkdirAll(dir, 0755)
	path := filepath.Join(dir, c.ID+".json")
	b, _ := json.MarshalIndent(map[string]interface{}{
		"property": c.ID, "tier": c.Tier, "command": fmt.Sprintf("./run.sh %s %s -only %s", c.ID, c.Tier, c.viols[0].Key),
		"violations": c.viols,
	}, "", " ")
	ioutil.WriteFile(path, b, 0644)
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, path)
	return 1
}

func indent(s string) string {
	return "   " + strings.Replace(strings.TrimRight(s, "\n"), "\n", "\n   ", -1)
}

func inf(s int) float64 { return math.Inf(s) }
func nan() float64      { return math.NaN() }
