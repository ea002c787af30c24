package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	"unicode/utf8"

	"github.com/drone/drone-runtime/engine"
	"github.com/drone/drone-yaml/yaml"
	"github.com/drone/drone-yaml/yaml/compiler"
	"github.com/drone/drone-yaml/yaml/linter"
)

// ---------------------------------------------------------------------
// The dictionary: every value that the code under test compares, matches
// or measures its input with is a literal in its source. The literals of
// the current tree are part of the input alphabets, so that a special case
// for a value that no fixed list holds is explored as well. The words are
// inputs only; what is expected of them is computed by the same references.
// ---------------------------------------------------------------------

type dictT struct {
	Words []string // literals of the source, and fixed ones
	Ints  []int
}

var (
	dictOnce sync.Once
	dictVal  dictT
)

func dict() *dictT {
	dictOnce.Do(func() { dictVal = loadDict(os.Getenv("VERIF_REPO")) })
	return &dictVal
}

func loadDict(root string) (d dictT) {
	if root == "" {
		root = "/repo"
	}
	words := map[string]bool{}
	ints := map[int]bool{}
	files := 0
	err := filepath.Walk(root, func(p string, i os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if i.IsDir() {
			switch i.Name() {
			case "testdata", "vendor", ".git", "samples", "node_modules":
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		f, err := parser.ParseFile(token.NewFileSet(), p, nil, 0)
		if err != nil {
			return err
		}
		files++
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.Field:
				return n.Tag == nil
			case *ast.BasicLit:
				switch n.Kind {
				case token.STRING, token.CHAR:
					if s, err := strconv.Unquote(n.Value); err == nil && utf8.ValidString(s) && len(s) <= 64 && strings.Count(s, " ") < 4 {
						words[s] = true
					}
				case token.INT:
					if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil {
						ints[int(v)] = true
					}
				case token.FLOAT:
					if v, err := strconv.ParseFloat(n.Value, 64); err == nil && v == float64(int(v)) {
						ints[int(v)] = true
					}
				}
			}
			return true
		})
		return nil
	})
	if err != nil || files == 0 {
		fatalf("cannot read the literals of %s: %v (%d files)", root, err, files)
	}
	for _, w := range strings.Split(os.Getenv("VERIF_DICT"), "\x1f") { // development: more words
		words[w] = true
	}
	for w := range words {
		d.Words = append(d.Words, w)
	}
	for i := range ints {
		d.Ints = append(d.Ints, i)
	}
	sort.Strings(d.Words)
	sort.Ints(d.Ints)
	return d
}

// dictWords are the words of the dictionary with their neighbours: what
// starts or ends with a word, and how else it may be written.
func dictWords(quick bool) []string {
	seen := map[string]bool{}
	var out []string
	add := func(s string) {
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	ws := append([]string{"x", "Ab", "aB_c-D.e", "0", "1", "true", "null", "clone", "plugins/docker", "a b", " a", "a ", "é"}, dict().Words...)
	for _, w := range ws {
		add(w)
	}
	for _, w := range ws {
		add(w + "1")
		add("a" + w)
	}
	if !quick {
		for _, w := range ws {
			add(strings.ToUpper(w))
			add(strings.ToLower(w))
			add(w + "x/y")
			add("x/" + w)
			add(w + ".b")
			add("b-" + w)
		}
	}
	for _, n := range dict().Ints {
		if n >= 2 && n <= 4096 {
			add(strings.Repeat("w", n))
			add(strings.Repeat("w", n+1))
		}
	}
	return out
}

// dictInts are the integers of the source, their neighbours and the usual
// edges.
func dictInts() []int {
	seen := map[int]bool{}
	var out []int
	add := func(n int) {
		if !seen[n] {
			seen[n] = true
			out = append(out, n)
		}
	}
	for _, n := range []int{0, 1, -1, 2, 3, 7, 10, 80, 100, 255, 256, 443, 500, 1000, 1023, 1024, 4096, 8080, 32767, 65535, 65536, 1 << 20, 1 << 30, 1<<31 - 1, 1 << 31, 1 << 32, 1 << 40, -1 << 31} {
		add(n)
	}
	for _, n := range dict().Ints {
		if n > -1<<40 && n < 1<<40 {
			add(n - 1)
			add(n)
			add(n + 1)
			add(-n)
		}
	}
	return out
}

// dictSizes are the sizes to which lists and maps grow.
func dictSizes(quick bool) []int {
	max, top := 12, 130
	if !quick {
		max, top = 70, 1100
	}
	seen := map[int]bool{}
	var out []int
	add := func(n int) {
		if n >= 0 && !seen[n] {
			seen[n] = true
			out = append(out, n)
		}
	}
	for i := 0; i <= max; i++ {
		add(i)
	}
	for _, n := range append([]int{16, 32, 64, 100, 128, 256, 512, 1000, 1024}, dict().Ints...) {
		if n > 0 && n < top {
			add(n - 1)
			add(n)
			add(n + 1)
		}
	}
	return out
}

// ---------------------------------------------------------------------
// Leaves of configuration values
// ---------------------------------------------------------------------

// leaf is a place of a configuration value: a scalar, a key of a map, or a
// collection.
type leaf struct {
	path string
	key  bool          // a key of a map of strings
	v    reflect.Value // settable, except for keys
	set  func(v reflect.Value)
}

func (l leaf) setString(s string) {
	if l.key {
		l.set(reflect.ValueOf(s))
		return
	}
	if l.v.Kind() == reflect.Interface {
		l.set(reflect.ValueOf(s))
		return
	}
	n := reflect.New(l.v.Type()).Elem()
	n.SetString(s)
	l.set(n)
}

func (l leaf) setInt(n int) {
	switch {
	case l.v.Kind() == reflect.Interface:
		l.set(reflect.ValueOf(n))
	case l.v.Kind() == reflect.Float64:
		l.set(reflect.ValueOf(float64(n)))
	default:
		x := reflect.New(l.v.Type()).Elem()
		x.SetInt(int64(n))
		l.set(x)
	}
}

// eachPlace visits every place below v, in a fixed order. A visitor that
// changes a place ends the visit by returning false.
func eachPlace(v reflect.Value, path string, set func(reflect.Value), visit func(l leaf) bool) bool {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return true
		}
		return eachPlace(v.Elem(), path, func(x reflect.Value) { v.Elem().Set(x) }, visit)
	case reflect.Interface:
		if v.IsNil() {
			return true
		}
		e := v.Elem()
		switch e.Kind() {
		case reflect.Map, reflect.Slice, reflect.Ptr:
			return eachPlace(e, path, set, visit)
		}
		return visit(leaf{path: path, v: v, set: set})
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if f.PkgPath != "" {
				continue
			}
			fv := v.Field(i)
			if !eachPlace(fv, path+"."+f.Name, func(x reflect.Value) { fv.Set(x) }, visit) {
				return false
			}
		}
	case reflect.Slice:
		if !visit(leaf{path: path, v: v, set: set}) {
			return false
		}
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return true
		}
		for i := 0; i < v.Len(); i++ {
			e := v.Index(i)
			if !eachPlace(e, fmt.Sprintf("%s[%d]", path, i), func(x reflect.Value) { e.Set(x) }, visit) {
				return false
			}
		}
	case reflect.Map:
		if !visit(leaf{path: path, v: v, set: set}) {
			return false
		}
		keys := v.MapKeys()
		sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i].Interface()) < fmt.Sprint(keys[j].Interface()) })
		for _, key := range keys {
			key := key
			at := fmt.Sprintf("%s[%v]", path, key.Interface())
			rename := func(x reflect.Value) {
				old := v.MapIndex(key)
				v.SetMapIndex(key, reflect.Value{})
				v.SetMapIndex(x, old)
			}
			ks := key
			if ks.Kind() == reflect.Interface {
				ks = ks.Elem()
			}
			if ks.Kind() == reflect.String && !visit(leaf{path: at + "(key)", key: true, v: key, set: rename}) {
				return false
			}
			val := v.MapIndex(key)
			if !eachPlace(val, at, func(x reflect.Value) { v.SetMapIndex(key, x) }, visit) {
				return false
			}
		}
	default:
		return visit(leaf{path: path, v: v, set: set})
	}
	return true
}

func isText(l leaf) bool {
	if l.key {
		return true
	}
	v := l.v
	if v.Kind() == reflect.Interface {
		v = v.Elem()
	}
	return v.Kind() == reflect.String
}

func isNumber(l leaf) bool {
	v := l.v
	if v.Kind() == reflect.Interface {
		v = v.Elem()
	}
	switch v.Kind() {
	case reflect.Int, reflect.Int64, reflect.Float64:
		return !l.key
	}
	return false
}

func isList(l leaf) bool {
	return !l.key && (l.v.Kind() == reflect.Slice && l.v.Type().Elem().Kind() != reflect.Uint8 || l.v.Kind() == reflect.Map && l.v.Type().Key().Kind() == reflect.String)
}

// places lists the places of a value that are of a kind.
func places(v interface{}, kind func(leaf) bool) (out []string) {
	eachPlace(reflect.ValueOf(v), "", nil, func(l leaf) bool {
		if kind(l) {
			out = append(out, l.path)
		}
		return true
	})
	return
}

// change applies f to one place of a value.
func change(v interface{}, kind func(leaf) bool, i int, f func(l leaf)) {
	eachPlace(reflect.ValueOf(v), "", nil, func(l leaf) bool {
		if !kind(l) {
			return true
		}
		if i > 0 {
			i--
			return true
		}
		f(l)
		return false
	})
}

// grow gives a collection n entries.
func grow(l leaf, n int) {
	if l.v.Kind() == reflect.Map {
		m := reflect.MakeMap(l.v.Type())
		keys := l.v.MapKeys()
		sort.Slice(keys, func(i, j int) bool { return keys[i].String() < keys[j].String() })
		for i := 0; i < n; i++ {
			if i < len(keys) {
				m.SetMapIndex(keys[i], deepCopy(l.v.MapIndex(keys[i])))
			} else if len(keys) > 0 {
				m.SetMapIndex(reflect.ValueOf(fmt.Sprintf("Gk%d", i)).Convert(l.v.Type().Key()), deepCopy(l.v.MapIndex(keys[0])))
			}
		}
		l.set(m)
		return
	}
	s := reflect.MakeSlice(l.v.Type(), 0, n)
	for i := 0; i < n && l.v.Len() > 0; i++ {
		if i < l.v.Len() {
			s = reflect.Append(s, deepCopy(l.v.Index(i)))
			continue
		}
		e := deepCopy(l.v.Index(0))
		if e.Kind() == reflect.String {
			x := reflect.New(e.Type()).Elem()
			x.SetString(fmt.Sprintf("g%d", i))
			e = x
		}
		if e.Kind() == reflect.Ptr && !e.IsNil() && e.Elem().Kind() == reflect.Struct {
			if f := e.Elem().FieldByName("Name"); f.IsValid() {
				f.SetString(fmt.Sprintf("g%d", i))
			}
			if f := e.Elem().FieldByName("DependsOn"); f.IsValid() {
				f.Set(reflect.Zero(f.Type()))
			}
		}
		s = reflect.Append(s, e)
	}
	l.set(s)
}

// blank puts an empty entry (nil, or the empty string) into a list.
func blank(l leaf, at int) bool {
	if l.v.Kind() != reflect.Slice {
		return false
	}
	zero := reflect.Zero(l.v.Type().Elem())
	if at > l.v.Len() {
		return false
	}
	s := reflect.MakeSlice(l.v.Type(), 0, l.v.Len()+1)
	for i := 0; i <= l.v.Len(); i++ {
		if i == at {
			s = reflect.Append(s, zero)
		}
		if i < l.v.Len() {
			s = reflect.Append(s, l.v.Index(i))
		}
	}
	l.set(s)
	return true
}

// dictSpaces explores every base value with one place changed: every text
// to every word of the dictionary, every number to every integer, every
// list and map to every size.
func dictSpaces[T any](c *Ctx, bases []func() T, get func(T) interface{}, skip func(base int, path string) bool, f func(k *K, x T, label string)) {
	dictSpacesFor(c, bases, get, skip, dictWords(c.Quick), f)
}

func dictSpacesFor[T any](c *Ctx, bases []func() T, get func(T) interface{}, skip func(base int, path string) bool, words []string, f func(k *K, x T, label string)) {
	type spot struct{ base, i int }
	collect := func(kind func(leaf) bool) (out []spot) {
		for b, mk := range bases {
			for i, p := range places(get(mk()), kind) {
				if skip == nil || !skip(b, p) {
					out = append(out, spot{b, i})
				}
			}
		}
		return
	}
	text, nums, lists := collect(isText), collect(isNumber), collect(isList)
	if len(text) > 0 {
		c.Product("dictionary", fmt.Sprintf("every one of %d texts of %d full configurations replaced by every one of %d words: the literals of the code, their neighbours and fixed words", len(text), len(bases), len(words)), []int{len(text), len(words)}, func(k *K, ix []int) {
			s := text[ix[0]]
			x := bases[s.base]()
			label := ""
			change(get(x), isText, s.i, func(l leaf) {
				l.setString(words[ix[1]])
				label = fmt.Sprintf("%s = %q", l.path, words[ix[1]])
			})
			f(k, x, label)
		})
	}
	// two places with the same text: what one names may be what the other
	// one is.
	type twin struct {
		spot
		word string
	}
	var twins []twin
	for b, mk := range bases {
		same := map[string]bool{}
		eachPlace(reflect.ValueOf(get(mk())), "", nil, func(l leaf) bool {
			if isText(l) {
				v := l.v
				if v.Kind() == reflect.Interface {
					v = v.Elem()
				}
				same[v.String()] = true
			}
			return true
		})
		var ws []string
		for w := range same {
			ws = append(ws, w)
		}
		sort.Strings(ws)
		for _, s := range text {
			if s.base == b {
				for _, w := range ws {
					twins = append(twins, twin{s, w})
				}
			}
		}
	}
	if len(twins) > 0 {
		c.Product("twins", fmt.Sprintf("every one of %d texts of %d full configurations replaced by every other text of the same configuration", len(text), len(bases)), []int{len(twins)}, func(k *K, ix []int) {
			s := twins[ix[0]]
			x := bases[s.base]()
			label := ""
			change(get(x), isText, s.i, func(l leaf) {
				l.setString(s.word)
				label = fmt.Sprintf("%s = %q", l.path, s.word)
			})
			f(k, x, label)
		})
	}
	if ints := dictInts(); len(nums) > 0 {
		c.Product("numbers", fmt.Sprintf("every one of %d numbers of %d full configurations replaced by every one of %d integers", len(nums), len(bases), len(ints)), []int{len(nums), len(ints)}, func(k *K, ix []int) {
			s := nums[ix[0]]
			x := bases[s.base]()
			label := ""
			change(get(x), isNumber, s.i, func(l leaf) {
				l.setInt(ints[ix[1]])
				label = fmt.Sprintf("%s = %d", l.path, ints[ix[1]])
			})
			f(k, x, label)
		})
	}
	if sz := dictSizes(c.Quick); len(lists) > 0 {
		c.Product("lengths", fmt.Sprintf("every one of %d lists and maps of %d full configurations with each of %d numbers of entries", len(lists), len(bases), len(sz)), []int{len(lists), len(sz)}, func(k *K, ix []int) {
			s := lists[ix[0]]
			x := bases[s.base]()
			label := ""
			change(get(x), isList, s.i, func(l leaf) {
				label = fmt.Sprintf("%s with %d entries", l.path, sz[ix[1]])
				grow(l, sz[ix[1]])
			})
			f(k, x, label)
		})
	}
}

// ---------------------------------------------------------------------
// Full configurations
// ---------------------------------------------------------------------

func fullContainer(name string) *yaml.Container {
	cond := func(v string) yaml.Condition {
		return yaml.Condition{Include: []string{v, "Other"}, Exclude: []string{"No-" + v}}
	}
	return &yaml.Container{
		Name: name, Image: "octo/Tool:1.2", Pull: "always", User: "Usr", Shell: "bash", Network: "net", Failure: "ignore", WorkingDir: "/work/Dir",
		Command: []string{"cmd", "Arg"}, Entrypoint: []string{"/bin/Entry", "-x"},
		DNS: []string{"1.2.3.4", "5.6.7.8"}, DNSSearch: []string{"example.com", "b.org"}, ExtraHosts: []string{"h1:10.0.0.1", "h2:10.0.0.2"},
		Environment: map[string]*yaml.Variable{"ENV_one": {Value: "Value one"}, "env2": {Value: "v2"}, "ESEC": {Secret: "Secret_a"}},
		Settings: map[string]*yaml.Parameter{"str": {Value: "Str"}, "Two": {Value: "2nd"}, "list": {Value: []interface{}{"a", "B", 3}}, "num": {Value: 42},
			"tree": {Value: map[interface{}]interface{}{"ka": "va", "kb": []interface{}{"x", map[interface{}]interface{}{"kc": "Vc"}}}}, "sec": {Secret: "Secret_b"}},
		Devices:   []*yaml.VolumeDevice{{Name: "vol", DevicePath: "/dev/Xvd"}, {Name: "vol2", DevicePath: "/dev/y"}},
		Ports:     []*yaml.Port{{Port: 80, Host: 8080, Protocol: "tcp"}, {Port: 53, Host: 53, Protocol: "udp"}},
		Volumes:   []*yaml.VolumeMount{{Name: "vol", MountPath: "/mnt/A"}, {Name: "vol2", MountPath: "/mnt/b"}},
		Resources: &yaml.Resources{Limits: &yaml.ResourceObject{CPU: 2, Memory: 1 << 20}, Requests: &yaml.ResourceObject{CPU: 1, Memory: 1 << 10}},
		When: yaml.Conditions{Action: cond("action"), Cron: cond("cron"), Ref: cond("refs/heads/Main"), Repo: cond("octo/Repo"), Instance: cond("inst.Example.com"),
			Target: cond("prod"), Event: cond("push"), Branch: cond("Main"), Status: yaml.Condition{Include: []string{"success", "failure"}, Exclude: []string{"x"}}},
	}
}

func fullSkip() *compiler.SkipData {
	return &compiler.SkipData{Action: "action", Cron: "cron", Ref: "refs/heads/Main", Repo: "octo/Repo", Instance: "inst.Example.com", Target: "prod", Event: "push", Branch: "Main"}
}

// fullPipeline sets every field of the configuration.
func fullPipeline() pipe {
	run := fullContainer("run-A")
	run.Commands = []string{"echo one", "make Test"}
	run.Entrypoint, run.Command = nil, nil
	plug := fullContainer("plug")
	plug.DependsOn = []string{"run-A", "clone"}
	img := fullContainer("img")
	img.Image, img.Commands, img.Command, img.Entrypoint, img.Shell = "", nil, nil, nil, ""
	img.Build = &yaml.Build{Image: "octo/Built:tag", Args: map[string]string{"ARG_a": "Val", "b": "w"}, CacheFrom: []string{"octo/cache:1", "octo/c2"}, Context: "./Ctx", Dockerfile: "Docker.file", Labels: map[string]string{"lab": "Lv", "l2": "m"}}
	img.Push = &yaml.Push{Image: "octo/Pushed"}
	img.DependsOn = []string{"plug"}
	bg := fullContainer("bg")
	bg.Detach = true
	bg.DependsOn = []string{"run-A"}
	last := fullContainer("last_B")
	last.Image = "octo/other"
	last.When.Status = yaml.Condition{Exclude: []string{"failure"}}
	last.DependsOn = []string{"plug", "img"}
	db := fullContainer("db-1")
	db2 := fullContainer("db2")
	db2.Command, db2.Entrypoint = nil, nil
	return &yaml.Pipeline{
		Version: "1", Kind: "pipeline", Type: "docker", Name: "Full-pipe", DependsOn: []string{"before", "Other"}, Node: map[string]string{"disk": "Ssd", "zone": "b"}, PullSecrets: []string{"dockerconfig", "b"},
		Clone: yaml.Clone{Depth: 50}, Concurrency: yaml.Concurrency{Limit: 3},
		Platform: yaml.Platform{OS: "linux", Arch: "amd64", Variant: "v8", Version: "1903"},
		Steps:    []*yaml.Container{run, plug, img, bg, last}, Services: []*yaml.Container{db, db2},
		Trigger:   yaml.Conditions{Branch: yaml.Condition{Include: []string{"Main", "dev"}, Exclude: []string{"tmp"}}, Event: yaml.Condition{Include: []string{"push", "tag"}}, Ref: yaml.Condition{Exclude: []string{"refs/x"}}},
		Volumes:   []*yaml.Volume{{Name: "vol", EmptyDir: &yaml.VolumeEmptyDir{Medium: "disk", SizeLimit: 5}}, {Name: "vol2", HostPath: &yaml.VolumeHostPath{Path: "/host/Path"}}, {Name: "vol3", EmptyDir: &yaml.VolumeEmptyDir{}}},
		Workspace: yaml.Workspace{Base: "/base/Dir", Path: "src/Sub"},
	}
}

// fullCases are the compile cases of the dictionary spaces.
func fullCases() []func() *cc {
	mk := func(f func(x *cc)) func() *cc {
		return func() *cc {
			x := &cc{p: fullPipeline(), o: copts{creds: []byte("https://u:p@h"), skip: fullSkip(), whitelist: []string{"octo/other", "plugins/docker"}}}
			f(x)
			return x
		}
	}
	return []func() *cc{
		mk(func(x *cc) {}),
		mk(func(x *cc) { // as little as possible: everything a default
			x.p = &yaml.Pipeline{Kind: "pipeline", Name: "small", Steps: []*yaml.Container{{Name: "s1", Image: "golang"}, {Name: "s2", Image: "octo/b", Commands: []string{"c1"}}}, Services: []*yaml.Container{{Name: "d1", Image: "redis"}}}
			x.o = copts{}
		}),
		mk(func(x *cc) { // windows, in a host workspace, without dependencies
			x.p.Platform.OS = "windows"
			x.o.host = "/home/u"
			for _, s := range x.p.Steps {
				s.DependsOn = nil
			}
		}),
	}
}

// compileDict explores the full compile cases with one place changed.
func compileDict(c *Ctx, skip func(path string) bool, domain func(x *cc) bool, f func(k *K, x *cc, spec *engine.Spec)) {
	compileDictFor(c, skip, domain, dictWords(c.Quick), f)
}

func compileDictFor(c *Ctx, skip func(path string) bool, domain func(x *cc) bool, words []string, f func(k *K, x *cc, spec *engine.Spec)) {
	at := func(x *cc) interface{} {
		return &struct {
			P pipe
			S *compiler.SkipData
			W *[]string
		}{x.p, x.o.skip, &x.o.whitelist}
	}
	again := func(base int, p string) bool {
		// one container of each sort is enough for most fields
		for _, s := range []string{".P.Steps[3]", ".P.Steps[4]", ".P.Services[1]"} {
			if strings.HasPrefix(p, s) && !strings.HasSuffix(p, ".Name") && !strings.HasSuffix(p, ".Image") && !strings.Contains(p, ".DependsOn") {
				return true
			}
		}
		if base == 2 && (strings.Contains(p, ".Steps[1].") || strings.Contains(p, ".When") || strings.Contains(p, ".Settings")) {
			return true
		}
		return skip != nil && skip(p)
	}
	dictSpacesFor(c, fullCases(), at, again, words, func(k *K, x *cc, label string) {
		if domain != nil && !domain(x) {
			return
		}
		k.In(func() string { return label + "\n" + x.text() })
		k.State(label)
		if c.ID == "C23" {
			x.before = clone(x.p)
		}
		spec := x.compile()
		k.Step(1)
		f(k, x, spec)
	})
}

func onlyWhen(p string) bool {
	return !strings.Contains(p, ".When") && !strings.HasPrefix(p, ".S.") && !strings.HasSuffix(p, ".Name") && !strings.HasSuffix(p, ".Image") && !strings.Contains(p, ".Type")
}

func notWhen(p string) bool { return strings.Contains(p, ".When") || strings.Contains(p, ".Trigger") }

// globsClear tells whether the reference decides every condition.
func globsClear(x *cc) bool {
	if x.o.skip == nil {
		return true
	}
	d := x.o.skip
	vals := []string{d.Branch, d.Cron, d.Event, d.Instance, d.Ref, d.Repo, d.Target, d.Action}
	for _, s := range append(append([]*yaml.Container{}, x.p.Steps...), x.p.Services...) {
		for i := 0; i < 10; i++ {
			f := whenField(&s.When, i)
			for _, p := range append(append([]string{}, f.Include...), f.Exclude...) {
				v := []string{"success", "failure"}
				if i < len(vals) {
					v = vals[i : i+1]
				} else if i == 8 {
					continue
				}
				for _, v := range v {
					if !globDomain(p, v) {
						return false
					}
				}
			}
		}
	}
	return true
}

// variablesClear tells whether no variable is named twice in ways whose
// outcome is not documented, or by a name that the compiler sets.
func variablesClear(x *cc) bool {
	for _, s := range append(append([]*yaml.Container{}, x.p.Steps...), x.p.Services...) {
		seen := map[string]bool{}
		for _, v := range append([]string{"PLUGIN_DEPTH", "GIT_SSL_NO_VERIFY", "PLUGIN_SKIP_VERIFY", "CI_SCRIPT", "SHELL", "DOCKER_BUILD_CACHE_FROM", "DOCKER_BUILD_DOCKERFILE", "DOCKER_BUILD_CONTEXT", "DOCKER_BUILD_IMAGE", "DOCKER_BUILD_IMAGE_ALIAS", "DOCKER_BUILD_ARGS", "DOCKER_BUILD_LABELS"}, workspaceVars...) {
			seen[v] = true
		}
		for n := range s.Environment {
			u := strings.ToUpper(n)
			if seen[u] {
				return false
			}
			seen[u] = true
		}
		for n := range s.Settings {
			u := "PLUGIN_" + strings.ToUpper(n)
			if seen[u] && u != "PLUGIN_DEPTH" && u != "PLUGIN_SKIP_VERIFY" {
				return false
			}
			seen[u] = true
		}
	}
	return true
}

// cpuClear tells whether no amount of cpu is negative.
func cpuClear(x *cc) bool {
	for _, s := range append(append([]*yaml.Container{}, x.p.Steps...), x.p.Services...) {
		if r := s.Resources; r != nil && (r.Limits != nil && r.Limits.CPU < 0 || r.Requests != nil && r.Requests.CPU < 0) {
			return false
		}
	}
	return true
}

// plainWords are the words of the dictionary alone (in the thorough tier
// with their neighbours), for the more costly checks.
func plainWords(quick bool) []string {
	if !quick {
		return dictWords(true)
	}
	return append([]string{"Ab", "a b"}, dict().Words...)
}

// ---------------------------------------------------------------------
// Lint
// ---------------------------------------------------------------------

// harmlessPipeline sets every field that needs no privilege.
func harmlessPipeline() pipe {
	p := fullPipeline()
	for _, s := range append(append([]*yaml.Container{}, p.Steps...), p.Services...) {
		s.Network, s.DNS, s.DNSSearch, s.ExtraHosts, s.Devices = "", nil, nil, nil, nil
		for _, x := range s.Ports {
			x.Host = 0
		}
	}
	p.Volumes[1].HostPath, p.Volumes[1].EmptyDir = nil, &yaml.VolumeEmptyDir{Medium: "ssd"}
	return p
}

// lintBases are a full pipeline without privileges, and the same with one
// privileged feature in one place.
func lintBases(features bool) (out []func() pipe) {
	out = append(out, harmlessPipeline)
	if !features {
		return
	}
	with := func(f func(p pipe)) {
		out = append(out, func() pipe {
			p := harmlessPipeline()
			f(p)
			return p
		})
	}
	for _, at := range []func(p pipe) ctr{func(p pipe) ctr { return p.Steps[1] }, func(p pipe) ctr { return p.Services[0] }} {
		at := at
		for _, f := range []func(c ctr){
			func(c ctr) { c.Privileged = true },
			func(c ctr) { c.Devices = []*yaml.VolumeDevice{{Name: "dev", DevicePath: "/dev/Xvd"}} },
			func(c ctr) { c.DNS = []string{"1.2.3.4"} },
			func(c ctr) { c.DNSSearch = []string{"example.com"} },
			func(c ctr) { c.ExtraHosts = []string{"h:10.0.0.1"} },
			func(c ctr) { c.Network = "net" },
			func(c ctr) { c.Ports[1].Host = 53 },
		} {
			f := f
			with(func(p pipe) { f(at(p)) })
		}
	}
	with(func(p pipe) { p.Volumes[2].EmptyDir, p.Volumes[2].HostPath = nil, &yaml.VolumeHostPath{Path: "/h"} })
	with(func(p pipe) { p.Volumes[2].EmptyDir.Medium = "memory" })
	return
}

// lintDict lints full pipelines with one place changed.
func lintDict(c *Ctx, features bool) {
	again := func(base int, p string) bool {
		for _, s := range []string{".Steps[3]", ".Steps[4]", ".Services[1]"} {
			if strings.HasPrefix(p, s) && !strings.HasSuffix(p, ".Name") && !strings.HasSuffix(p, ".Image") && !strings.Contains(p, ".DependsOn") {
				return true
			}
		}
		return base > 0 && (notWhen(p) || strings.Contains(p, ".Settings[tree"))
	}
	words := dictWords(c.Quick)
	if features {
		words = plainWords(c.Quick)
	}
	dictSpacesFor(c, lintBases(features), func(p pipe) interface{} { return p }, again, words, func(k *K, p pipe, label string) {
		k.In(func() string { return label + "\n" + manifestText(p) })
		k.State(label)
		lintBoth(k, p, false)
	})
}

// lintBlanks: an empty entry anywhere in any list does not hide a
// privileged feature.
func lintBlanks(c *Ctx) {
	type spot struct{ base, i, at int }
	var spots []spot
	bases := lintBases(true)
	for _, b := range []func() pipe{func() pipe {
		p := harmlessPipeline()
		p.Steps[0].DNS = []string{}
		p.Steps[1].DNSSearch = []string{}
		p.Steps[2].ExtraHosts = []string{}
		p.Services[0].Devices = []*yaml.VolumeDevice{}
		return p
	}} {
		bases = append(bases, b)
	}
	for b, mk := range bases {
		p := mk()
		for i := range places(p, isList) {
			n := 0
			change(mk(), isList, i, func(l leaf) { n = l.v.Len() })
			for at := 0; at <= n; at++ {
				spots = append(spots, spot{b, i, at})
			}
		}
	}
	c.Range("blanks", fmt.Sprintf("an empty entry at every place of every list of %d full pipelines: it neither hides nor lifts what is privileged", len(bases)), len(spots), func(k *K, n int) {
		s := spots[n]
		p := bases[s.base]()
		ok := false
		change(p, isList, s.i, func(l leaf) {
			ok = blank(l, s.at)
			k.In(func() string { return fmt.Sprintf("base %d: empty entry %d of %s", s.base, s.at, l.path) })
		})
		if !ok {
			return
		}
		k.State(fmt.Sprint(s))
		r := privilegeReasons(withoutNil(p))
		for _, x := range append(append([]*yaml.Container{}, p.Steps...), p.Services...) {
			if x != nil && len(x.Devices) > 0 {
				r = append(r, "devices")
			}
		}
		trusted, untrusted := linter.Lint(p, true), linter.Lint(p, false)
		k.Step(2)
		k.Agree(2)
		if len(r) > 0 && untrusted == nil {
			k.Fail("accepted", "lint accepts a resource that must be rejected: %s", strings.Join(r, ", "))
		}
		if trusted != nil && untrusted == nil {
			k.Fail("accepted", "lint rejects for a trusted repository what it accepts for an untrusted one: %v", trusted)
		}
		if len(r) > 0 && len(lintReasons(withoutNil(p), true)) == 0 && reflect.DeepEqual(p, withoutNil(p)) && trusted != nil {
			k.Fail("rejected", "lint rejects a well-formed resource of a trusted repository: %v", trusted)
		}
	})
}

// withoutNil leaves out the nil entries of the lists of a pipeline.
func withoutNil(p pipe) pipe {
	p = clone(p)
	var out []*yaml.Volume
	for _, v := range p.Volumes {
		if v != nil {
			out = append(out, v)
		}
	}
	p.Volumes = out
	each := func(l []*yaml.Container) (out []*yaml.Container) {
		for _, s := range l {
			if s == nil {
				continue
			}
			var ports []*yaml.Port
			for _, x := range s.Ports {
				if x != nil {
					ports = append(ports, x)
				}
			}
			var vols []*yaml.VolumeMount
			for _, x := range s.Volumes {
				if x != nil {
					vols = append(vols, x)
				}
			}
			s.Ports, s.Volumes = ports, vols
			out = append(out, s)
		}
		return
	}
	p.Steps, p.Services = each(p.Steps), each(p.Services)
	return p
}

// lintManifestDict lints manifests of full pipelines with one place changed.
func lintManifestDict(c *Ctx) {
	type mf struct{ Rs []yaml.Resource }
	mk := func() *mf {
		first := &yaml.Pipeline{Kind: "pipeline", Name: "First-p", Platform: yaml.Platform{OS: "linux", Arch: "arm64", Variant: "v8", Version: "2"}}
		second := harmlessPipeline()
		second.Name, second.DependsOn = "second", []string{"First-p"}
		second.Steps, second.Services = second.Steps[:2], second.Services[:1]
		third := &yaml.Pipeline{Kind: "pipeline", Type: "docker", Name: "third", DependsOn: []string{"First-p", "second"}}
		return &mf{[]yaml.Resource{first, &yaml.Secret{Kind: "secret", Name: "Sec", Data: b64}, second, &yaml.Cron{Kind: "cron", Name: "cr", Spec: yaml.CronSpec{Branch: "b"}}, third}}
	}
	dictSpaces(c, []func() *mf{mk}, func(m *mf) interface{} { return m }, func(_ int, p string) bool { return notWhen(p) || p == ".Rs" }, func(k *K, m *mf, label string) {
		k.State(label)
		lintManifest(k, m.Rs)
	})
}

// ---------------------------------------------------------------------
// Manifests as text
// ---------------------------------------------------------------------

type manifestT struct{ Rs []yaml.Resource }

// textBases are configurations that together set every field of every kind.
func textBases() []func() *manifestT {
	return []func() *manifestT{
		func() *manifestT {
			p := fullPipeline()
			p.Steps, p.Services = p.Steps[1:2], nil
			p.Steps[0].Commands = []string{"echo one", "make Test"}
			p.Steps[0].Detach, p.Steps[0].Privileged = true, true
			p.Clone.SkipVerify = true
			return &manifestT{[]yaml.Resource{p}}
		},
		func() *manifestT {
			p := fullPipeline()
			img := p.Steps[2]
			img.When, img.Settings, img.Ports, img.Volumes, img.Devices, img.DNS, img.DNSSearch, img.ExtraHosts, img.Resources, img.Environment = yaml.Conditions{}, nil, nil, nil, nil, nil, nil, nil, nil, nil
			db := &yaml.Container{Name: "Db", Image: "redis", Environment: map[string]*yaml.Variable{"E": {Value: "V"}}, When: yaml.Conditions{Branch: yaml.Condition{Include: []string{"Main"}}, Event: yaml.Condition{Exclude: []string{"Push"}}}, Settings: map[string]*yaml.Parameter{"l": {Value: []interface{}{"only"}}}, Ports: []*yaml.Port{{Port: 80}}}
			return &manifestT{[]yaml.Resource{&yaml.Pipeline{Kind: "pipeline", Name: "Small", Steps: []*yaml.Container{img}, Services: []*yaml.Container{db}, Trigger: yaml.Conditions{Branch: yaml.Condition{Include: []string{"Main"}}}}}}
		},
		func() *manifestT {
			return &manifestT{[]yaml.Resource{
				&yaml.Cron{Version: "1", Kind: "cron", Name: "Nightly", Spec: yaml.CronSpec{Schedule: "1 * * * *", Branch: "Main", Deploy: yaml.CronDeployment{Target: "Prod"}}},
				&yaml.Secret{Version: "1", Kind: "secret", Type: "encrypted", Name: "Sec_1", Data: "Abc0"},
				&yaml.Secret{Kind: "secret", Type: "ext", Name: "Sec_2", Get: yaml.SecretGet{Path: "secret/Data", Name: "Nm", Key: "Ky"}},
				&yaml.Registry{Version: "1", Kind: "registry", Type: "encrypted", Data: map[string]string{"index.docker.io": "Abc0", "gcr.io": "Def1"}},
				&yaml.Signature{Version: "1", Kind: "signature", Hmac: "0123abcd"},
			}}
		},
	}
}

// manifestDict explores the full configurations as text, with one place
// changed.
func manifestDict(c *Ctx, words []string, f func(k *K, rs []yaml.Resource, text string)) {
	var ws []string
	for _, w := range words {
		if !ampBang(w) {
			ws = append(ws, w)
		}
	}
	skip := func(base int, p string) bool {
		if strings.HasSuffix(p, ".Kind") || p == ".Rs" || strings.HasSuffix(p, ".Data") || strings.Contains(p, ".Data[") && !strings.HasSuffix(p, "(key)") {
			return true // the kind decides about the fields, the data is base64
		}
		// either a value or a secret
		secret := strings.Contains(p, "[ESEC]") || strings.Contains(p, "[sec]")
		return strings.Contains(p, "].Secret") && !secret || strings.Contains(p, "].Value") && secret
	}
	dictSpacesFor(c, textBases(), func(m *manifestT) interface{} { return m }, skip, ws, func(k *K, m *manifestT, label string) {
		if strings.HasSuffix(label, `(key) = "<<"`) {
			return // see C40: known finding
		}
		if strings.HasSuffix(label, `(key) = "from_secret"`) {
			return // the setting is a secret
		}
		text := manifestText(m.Rs...)
		k.In(func() string { return label + "\n" + text })
		k.State(label)
		f(k, m.Rs, text)
	})
}
