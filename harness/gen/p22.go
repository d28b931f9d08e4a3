//go:build verifos

package main

import (
	"fmt"
	"hash/fnv"
	"net/http"
	"os"
	"path/filepath"
	"slices"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/posener/gitfs"
	"github.com/webrpc/webrpc/gen"
	"github.com/webrpc/webrpc/schema"
	engine "verifengine"
)

func init() {
	register(&engine.Prop{
		ID:   "P22",
		Rule: "An execution is one history of publish, outage, passing of time and gen.Generate on a fresh cache directory; below it, every file operation of the last load is made to fail, or is the last before the process dies, in turn (counted as transitions), and every follow-up load is run from what is left on disk. The clock and the file system calls are those of the Go standard library with hooks put in (tools/stdoverlay.py). A state is a distinct content of the cache directory with what is published.",
		Assumptions: []string{
			"one webrpc-gen at a time uses the cache directory",
			"a crash ends the process, not the machine: what was written stays written",
			"once gitfs.New with prefetch has succeeded, its files can be read (the stand-in for gitfs fails reads without prefetch)",
			"when the published set is empty or broken, an error is right whether or not a cached set exists",
		},
		Quick: 450 * time.Second,
		Families: func(w *engine.W) []*engine.Family {
			return []*engine.Family{p22Histories(w), p22Faults(w), p22Crashes(w), p22Targets(), p22Variants(w), p22Sizes(w), p22Contents(w)}
		},
	})
}

// A set is what is published for a target: file name to content.
type set map[string]string

func mkset(v string, names ...string) set {
	s := set{"m.go.tmpl": `{{define "main"}}m` + v + `{{block "x" .}}-{{end}}{{block "y" .}}-{{end}}{{block "z" .}}-{{end}} {{.CodeGen}} {{.WebrpcTarget}}{{end}}`}
	for _, n := range names {
		s[n+".go.tmpl"] = `{{define "` + n + `"}}` + n + v + `{{end}}`
	}
	s["README.md"] = v
	return s
}

var p22Sets = map[string]set{
	"A": mkset("A", "x", "y"),
	"B": mkset("B", "x"),
	"C": mkset("C", "x", "y", "z"),
	"D": mkset("D", "z"),
	"M": mkset("M"),
	"E": {"README.md": "no templates"},
	"F": {"m.go.tmpl": `{{define "main"}}`, "x.go.tmpl": "x"},
}

// output is what the set generates for a target; "" when it cannot.
func (s set) output(target, asked string) string {
	m, ok := s["m.go.tmpl"]
	if !ok || !strings.HasSuffix(m, "{{end}}") {
		return ""
	}
	part := func(n string) string {
		if t, ok := s[n+".go.tmpl"]; ok {
			_, t, _ = strings.Cut(t, "}}")
			t, _, _ = strings.Cut(t, "{{")
			return t
		}
		return "-"
	}
	v, _, _ := strings.Cut(strings.TrimPrefix(m, `{{define "main"}}`), "{{")
	return v + part("x") + part("y") + part("z") + " " + target[strings.LastIndex(target, "/")+1:] + " " + asked
}

// The world: what is published, whether there is a network, what time it is.
type p22World struct {
	tmp    string
	remote map[string]string // target: name of the set
	down   bool
	now    int64
	// the reference cache
	cache map[string]cached
}

type cached struct {
	set string
	at  int64
}

const p22Start = 2_200_000_000 // past what 32 bits hold

func newWorld(w *engine.W) *p22World {
	p := &p22World{tmp: filepath.Join(w.Dir, "cache"), remote: map[string]string{}, now: p22Start, cache: map[string]cached{}}
	p.restore(nil)
	if err := os.Setenv("TMPDIR", p.tmp); err != nil {
		panic(err)
	}
	gitfs.Remote = p.fetch
	syscall.VerifHook = osHook
	return p
}

type lazyFS struct {
	http.FileSystem
}

func (lazyFS) Open(string) (http.File, error) { return nil, syscall.ECONNRESET }

// setFS is a published set; listings are in order.
type setFS set

func (m setFS) Open(name string) (http.File, error) {
	name = strings.TrimPrefix(name, "/")
	if name == "" {
		return &setFile{fs: m, dir: true}, nil
	}
	t, ok := m[name]
	if !ok {
		return nil, os.ErrNotExist
	}
	return &setFile{name: name, Reader: strings.NewReader(t), size: int64(len(t))}, nil
}

type setFile struct {
	*strings.Reader
	fs   setFS
	name string
	size int64
	dir  bool
	at   int
}

func (f *setFile) Close() error { return nil }
func (f *setFile) Read(b []byte) (int, error) {
	if f.dir {
		return 0, syscall.EISDIR
	}
	return f.Reader.Read(b)
}
func (f *setFile) Seek(o int64, wh int) (int64, error) {
	if f.dir {
		f.at = 0
		return 0, nil
	}
	return f.Reader.Seek(o, wh)
}
func (f *setFile) Stat() (os.FileInfo, error) { return f, nil }
func (f *setFile) Readdir(n int) ([]os.FileInfo, error) {
	if !f.dir {
		return nil, syscall.ENOTDIR
	}
	var names []string
	for k := range f.fs {
		names = append(names, k)
	}
	sort.Strings(names)
	var l []os.FileInfo
	for _, k := range names[f.at:] {
		l = append(l, &setFile{name: k, size: int64(len(f.fs[k]))})
	}
	f.at = len(names)
	return l, nil
}
func (f *setFile) Name() string {
	if f.dir {
		return "/"
	}
	return f.name
}
func (f *setFile) Size() int64 { return f.size }
func (f *setFile) Mode() os.FileMode {
	if f.dir {
		return os.ModeDir | 0o755
	}
	return 0o644
}
func (f *setFile) ModTime() time.Time { return time.Unix(p22Start, 0) }
func (f *setFile) IsDir() bool        { return f.dir }
func (f *setFile) Sys() any           { return nil }

func (p *p22World) fetch(project string, prefetch bool, patterns []string) (http.FileSystem, error) {
	if p.down {
		return nil, fmt.Errorf("no network")
	}
	name, ok := p.remote[project]
	if !ok {
		return nil, fmt.Errorf("nothing published as %s", project)
	}
	if !prefetch {
		return lazyFS{}, nil
	}
	m := setFS{}
	for n, t := range p22Sets[name] {
		keep := len(patterns) == 0
		for _, g := range patterns {
			if ok, _ := filepath.Match(g, n); ok {
				keep = true
			}
		}
		if keep {
			m[n] = t
		}
	}
	return m, nil
}

// snapshot and restore of everything below the temporary directory.
type disk map[string]string

func (p *p22World) snapshot() disk {
	d := disk{}
	_ = filepath.Walk(p.tmp, func(path string, info os.FileInfo, err error) error {
		if err != nil || path == p.tmp {
			return nil
		}
		rel := path[len(p.tmp)+1:]
		if info.IsDir() {
			d[rel+"/"] = ""
			return nil
		}
		b, err := os.ReadFile(path)
		if err != nil {
			panic(err)
		}
		d[rel] = string(b)
		return nil
	})
	return d
}

func (p *p22World) restore(d disk) {
	if err := os.RemoveAll(p.tmp); err != nil {
		panic(err)
	}
	if err := os.MkdirAll(p.tmp, 0o755); err != nil {
		panic(err)
	}
	var names []string
	for n := range d {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		path := filepath.Join(p.tmp, n)
		var err error
		if strings.HasSuffix(n, "/") {
			err = os.Mkdir(path, 0o755)
		} else {
			err = os.WriteFile(path, []byte(d[n]), 0o755)
		}
		if err != nil {
			panic(err)
		}
	}
}

func (d disk) String() string {
	var l []string
	for n, t := range d {
		l = append(l, fmt.Sprintf("%s=%q", n, t))
	}
	sort.Strings(l)
	return strings.Join(l, "\n")
}

// An op is a system call on files below the temporary directory.
type op struct {
	name, path string
	change     bool // changes the disk
	size       int  // of a write
}

func (o op) String() string { return o.name + " " + o.path }

// The fault injector behind the hook in package syscall.
var inj struct {
	on   bool
	root string
	ops  []op
	// fault decides the outcome of operation i: nil to go on, else stand in for it.
	fault func(i int, o op) (stop bool, torn int, err syscall.Errno)
}

func osHook(name string, fd int, path string, fd2 int, path2 string, flags int, data []byte) (int, error, bool) {
	if !inj.on {
		return 0, nil, false
	}
	inj.on = false
	defer func() { inj.on = true }()
	full := path
	if !strings.HasPrefix(path, "/") {
		switch {
		case path == "" || fd != -100:
			dir, err := os.Readlink("/proc/self/fd/" + strconv.Itoa(fd))
			if err != nil {
				return 0, nil, false
			}
			full = filepath.Join(dir, path)
		default:
			return 0, nil, false
		}
	}
	if full != inj.root && !strings.HasPrefix(full, inj.root+"/") {
		return 0, nil, false
	}
	o := op{name: name, path: strings.TrimPrefix(full, inj.root)}
	switch name {
	case "read", "getdents":
	case "openat":
		o.change = flags&(syscall.O_WRONLY|syscall.O_RDWR|syscall.O_CREAT|syscall.O_TRUNC) != 0
	default:
		o.change = true
	}
	if name == "write" || name == "pwrite" {
		o.size = len(data)
	}
	inj.ops = append(inj.ops, o)
	if inj.fault == nil {
		return 0, nil, false
	}
	stop, torn, e := inj.fault(len(inj.ops)-1, o)
	if !stop {
		return 0, nil, false
	}
	n := 0
	if torn > 0 && name == "write" {
		n, _ = syscall.Write(fd, data[:min(torn, len(data))])
	}
	if name == "openat" {
		n = -1
	}
	return n, e, true
}

// loaded is what one gen.Generate did.
type loaded struct {
	code       string
	err        error
	age        time.Duration
	refreshErr error
	local      bool
	ops        []op
}

func (l loaded) String() string {
	if l.err != nil {
		return fmt.Sprintf("error %v", l.err)
	}
	return fmt.Sprintf("%q (age %v, refresh error %v)", l.code, l.age, l.refreshErr)
}

func (p *p22World) load(w *engine.W, target string, refresh bool, fault func(i int, o op) (bool, int, syscall.Errno)) loaded {
	var l loaded
	inj.root, inj.ops, inj.fault = p.tmp, nil, fault
	time.VerifNow, inj.on = p.now, true
	out, err := gen.Generate(&schema.WebRPCSchema{}, target, &gen.Config{RefreshCache: refresh})
	inj.on, time.VerifNow = false, 0
	l.ops = inj.ops
	w.Step(1)
	if err != nil {
		l.err = err
		return l
	}
	l.code, l.age, l.refreshErr, l.local = out.Code, out.CacheAge, out.CacheRefreshErr, out.IsLocal
	return l
}

// resolve is the target that a name stands for.
func resolve(target string) string {
	if !strings.Contains(target, "/") {
		return "github.com/webrpc/gen-" + strings.ToLower(target)
	}
	return target
}

// expect is what the load must give, and what the cache is afterwards, without faults.
func (p *p22World) expect(target string, refresh bool) (code string, fromCache bool, age int64, refreshErr bool) {
	t := resolve(target)
	c, have := p.cache[t]
	age = p.now - c.at
	if have && !refresh && age <= 3600 {
		return p22Sets[c.set].output(t, target), true, age, false
	}
	name, published := p.remote[t]
	if p.down || !published {
		if !have {
			return "", false, 0, true
		}
		return p22Sets[c.set].output(t, target), true, age, true
	}
	if name != "E" {
		p.cache[t] = cached{name, p.now}
	}
	return p22Sets[name].output(t, target), false, 0, false
}

func (p *p22World) check(w *engine.W, hist, target string, refresh bool) {
	before := fmt.Sprint(p.cache)
	l := p.load(w, target, refresh, nil)
	code, fromCache, age, refreshErr := p.expect(target, refresh)
	switch {
	case code == "":
		if l.err == nil {
			w.Fail("error", "%s: gives %v, expected an error", hist, l)
		}
	case l.err != nil || l.code != code || l.local:
		w.Fail("set", "%s: gives %v, expected %q (cached before: %s)", hist, l, code, before)
	case (l.refreshErr != nil) != refreshErr:
		w.Fail("refresh error", "%s: gives %v, expected a report of a failure: %v", hist, l, refreshErr)
	case fromCache && l.age != time.Duration(age)*time.Second || !fromCache && l.age != 0:
		w.Fail("age", "%s: gives %v, expected age %d s, from the cache: %v", hist, l, age, fromCache)
	}
}

// p22Histories: sequences of operations without faults.
func p22Histories(w *engine.W) *engine.Family {
	depth := engine.Pick(w, 5, 6)
	ops := []string{"publish A", "publish B", "publish C", "publish E", "publish F", "network", "+1800", "+1801", "-7200", "load", "refresh", "load other"}
	return &engine.Family{
		Name: "histories", Bound: fmt.Sprintf("all sequences of up to %d out of %d operations (publish one of 5 sets, network down or up, half an hour and a second more passes, the clock is set back two hours, load with and without refresh, load of another target) that end in a load, every load checked, set A published at first", depth, len(ops)),
		Run: func(x *engine.X, w *engine.W) {
			n := 1 + x.Choose(depth)
			hist := make([]string, n)
			for i := range hist {
				if i == n-1 {
					hist[i] = ops[9+x.Choose(3)]
				} else {
					hist[i] = ops[x.Choose(len(ops))]
				}
			}
			if !w.Mine(func() string { return strings.Join(hist, ", ") }) {
				return
			}
			p := newWorld(w)
			const target, other = "plain", "github.com/me/gen-plain"
			p.remote[resolve(target)], p.remote[other] = "A", "D"
			for i, o := range hist {
				h := strings.Join(hist[:i+1], ", ")
				switch o {
				case "network":
					p.down = !p.down
				case "+1800":
					p.now += 1800
				case "+1801":
					p.now += 1801
				case "-7200":
					p.now -= 7200
				case "load":
					p.check(w, h, target, false)
				case "refresh":
					p.check(w, h, target, true)
				case "load other":
					p.check(w, h, other, false)
				default:
					p.remote[resolve(target)] = strings.TrimPrefix(o, "publish ")
				}
			}
			w.State(fmt.Sprint(p.cache, p.remote, p.down))
		},
	}
}

// A start is a state of the cache before the load that goes wrong.
type p22Case struct {
	name    string
	cached  string // set cached at first, "" for none
	age     int64
	remote  string
	down    bool
	refresh bool
}

func p22Starts(w *engine.W) []p22Case {
	var l []p22Case
	for _, pair := range engine.Pick(w, []string{"AB", "BC", "-C", "AM"}, []string{"AB", "BC", "BA", "CD", "AM", "MA", "MM", "-A", "-B", "-C", "-F", "AF", "AE"}) {
		for _, age := range []int64{10, 3601} {
			for _, refresh := range []bool{false, true} {
				for _, down := range []bool{false, true} {
					s := p22Case{cached: strings.Trim(pair[:1], "-"), remote: pair[1:], age: age, down: down, refresh: refresh}
					if s.cached == "" && age != 10 {
						continue
					}
					s.name = fmt.Sprintf("cached %q %d s ago, published %q, network down %v, load with refresh %v", s.cached, s.age, s.remote, s.down, s.refresh)
					l = append(l, s)
				}
			}
		}
	}
	return l
}

func (s p22Case) fetches() bool {
	return !s.down && (s.cached == "" || s.refresh || s.age > 3600)
}

const p22Target = "github.com/me/gen-it"

func (s p22Case) set(w *engine.W) *p22World {
	p := newWorld(w)
	if s.cached != "" {
		p.remote[p22Target] = s.cached
		p.check(w, "first load", p22Target, false)
		p.now += s.age
	}
	p.remote[p22Target] = s.remote
	p.down = s.down
	return p
}

// after runs every follow-up load on what a failed or killed load left behind.
// hold tells which set the cache must still or already hold, "" when unknown.
func (p *p22World) after(w *engine.W, what string, s p22Case, hold string, recover bool) {
	d := p.snapshot()
	w.State(d.String() + s.remote)
	now, down, asOf := p.now, p.down, int64(p22Start)
	defer func() { p.now, p.down = now, down }()
	oldOut := p22Sets[s.cached].output(p22Target, p22Target)
	newOut := p22Sets[s.remote].output(p22Target, p22Target)
	for _, f := range []struct {
		name    string
		wait    int64
		down    bool
		refresh bool
	}{
		{"a load without network", 5, true, false},
		{"a refresh without network", 5, true, true},
		{"a load without network a day later", 86400, true, false},
		{"a load", 5, false, false},
		{"a load an hour later", 3606, false, false},
		{"a refresh", 5, false, true},
	} {
		p.restore(d)
		p.now, p.down = now+f.wait, f.down
		l := p.load(w, p22Target, f.refresh, nil)
		w.Heartbeat()
		ok := false
		current := !f.down && (f.refresh || s.cached == "" || p.now-asOf > 3600) // a fetch is due, or there is nothing else
		switch {
		case l.err != nil:
			ok = newOut == "" && (!f.down || hold != "old") || f.down && hold == ""
		case l.code == newOut:
			ok = newOut != "" && (!f.down && (current || hold != "old") || f.down && hold != "old")
		case l.code == oldOut:
			ok = !current && hold != "new" && s.cached != ""
		}
		if !ok {
			w.Fail("afterwards", "%s; then %s gives %v (published %q, cached at first %q, cached after the failure: %q)", what, f.name, l, newOut, oldOut, hold)
			return
		}
		if !recover {
			continue
		}
		// whatever happened, one good refresh puts everything right
		p.down = false
		l = p.load(w, p22Target, true, nil)
		if newOut != "" && (l.err != nil || l.code != newOut || l.refreshErr != nil) {
			w.Fail("recovery", "%s; then %s; then a refresh gives %v, expected %q", what, f.name, l, newOut)
			return
		}
		p.down = true
		p.now += 5
		l = p.load(w, p22Target, false, nil)
		if newOut != "" && (l.err != nil || l.code != newOut) {
			w.Fail("recovery", "%s; then %s; then a refresh; then a load without network gives %v, expected %q", what, f.name, l, newOut)
			return
		}
	}
	p.restore(d)
}

// checkFaulty checks a load during which file operations failed.
func (p *p22World) checkFaulty(w *engine.W, what string, s p22Case, l loaded, read bool) {
	oldOut := p22Sets[s.cached].output(p22Target, p22Target)
	newOut := p22Sets[s.remote].output(p22Target, p22Target)
	fetch := s.cached == "" || s.refresh || s.age > 3600
	ok := false
	switch {
	case l.err != nil:
		// nothing to serve, or the cached files themselves cannot be read
		ok = fetch && s.down && (s.cached == "" || read) || !fetch && read || newOut == "" && !s.down && (fetch || read)
	case l.code == newOut && newOut != "":
		ok = !s.down && (fetch || read)
	case l.code == oldOut && s.cached != "":
		ok = !fetch || s.down
		if s.down && fetch && l.refreshErr == nil {
			ok = false
		}
	}
	if !ok {
		w.Fail("faulty", "%s: gives %v (published %q, cached %q)", what, l, newOut, oldOut)
	}
}

// p22Faults: every file operation of a load fails in turn.
func p22Faults(w *engine.W) *engine.Family {
	starts := p22Starts(w)
	pairs := engine.Pick(w, false, true)
	errs := []syscall.Errno{syscall.EIO, syscall.EACCES, syscall.ENOSPC}
	kinds := []string{"once", "from there on", "changes from there on", "writes from there on"}
	return &engine.Family{
		Name: "faults", Bound: fmt.Sprintf("%d states of cache, published set and network; every file operation of a load fails (with each of %d errors; once, for good, for all changes or for all writes from there on; writes also half done)%s; after each, 6 follow-up loads and a recovery", len(starts), len(errs), map[bool]string{true: ", and every pair of operations", false: ", and every pair of changes with the first error"}[pairs]),
		Run: func(x *engine.X, w *engine.W) {
			s := starts[x.Choose(len(starts))]
			errno := errs[x.Choose(len(errs))]
			kind := kinds[x.Choose(len(kinds))]
			if !w.Mine(func() string { return fmt.Sprint(s.name, "; ", errno, " ", kind) }) {
				return
			}
			p := s.set(w)
			d := p.snapshot()
			run := func(first, second int, torn bool) (l loaded, more bool) {
				p.restore(d)
				read := false
				where := ""
				l = p.load(w, p22Target, s.refresh, func(i int, o op) (bool, int, syscall.Errno) {
					hit := i == first || i == second
					switch {
					case i <= first:
					case kind == "from there on":
						hit = true
					case kind == "changes from there on":
						hit = hit || o.change
					case kind == "writes from there on":
						hit = hit || o.size > 0
					}
					if !hit {
						return false, 0, 0
					}
					if i == first || i == second {
						more = true
						where += " " + o.String()
					}
					read = read || !o.change
					t := 0
					if torn {
						t = o.size / 2
					}
					return true, t, errno
				})
				if first >= len(l.ops) {
					return l, false
				}
				w.Heartbeat()
				what := fmt.Sprintf("%s; %v %s at operation %d, %d:%s, half done %v", s.name, errno, kind, first, second, where, torn)
				p.checkFaulty(w, what, s, l, read)
				hold := ""
				switch {
				case s.fetches() && l.err == nil && l.refreshErr == nil && s.remote != "E":
					hold = "new"
				case s.cached != "" && (s.down || !s.fetches() && !read):
					hold = "old"
				}
				p.after(w, what, s, hold, true)
				return l, more
			}
			var last []op
			at := func(j int) (op, bool) {
				if j < len(last) {
					return last[j], true
				}
				return op{}, false
			}
			for i := 0; ; i++ {
				l, more := run(i, -1, false)
				if !more {
					break
				}
				last = slices.Clone(l.ops)
				if l.ops[i].size > 1 {
					run(i, -1, true)
				}
				if kind == "once" && (pairs || l.ops[i].change && errno == errs[0]) {
					for j := i + 1; ; j++ {
						// a second fault among the changes only, which may be others after the first fault
						if o, ok := at(j); !pairs && ok && !o.change {
							continue
						}
						if l, _ := run(i, j, false); j >= len(l.ops) {
							break
						}
					}
				}
			}
			p.restore(d)
		},
	}
}

// sizes are the changes that a load makes, with the sizes of the writes.
func (p *p22World) sizes(w *engine.W, d disk, refresh bool) (l []int) {
	p.restore(d)
	for _, o := range p.load(w, p22Target, refresh, nil).ops {
		if o.change {
			l = append(l, o.size)
		}
	}
	return l
}

// p22Crashes: the process dies at every change of the disk.
func p22Crashes(w *engine.W) *engine.Family {
	starts := p22Starts(w)
	return &engine.Family{
		Name: "crashes", Bound: fmt.Sprintf("%d states of cache, published set and network; the process dies before, in the middle of (writes: after no, one, half, all but one byte) and after every change that a load makes to the disk; then again at every change of a second load (there, writes after%s); after each, 6 follow-up loads%s", len(starts), engine.Pick(w, " no byte or half", " no, one, half, all but one byte, all"), engine.Pick(w, " (and after one death, a recovery)", " and a recovery")),
		Run: func(x *engine.X, w *engine.W) {
			s := starts[x.Choose(len(starts))]
			second := x.Choose(4) // none; plain; after an hour; refresh
			tear := x.Choose(5)
			if !w.Mine(func() string { return fmt.Sprint(s.name, "; second load ", second, "; torn ", tear) }) {
				return
			}
			p := s.set(w)
			die := func(d disk, what string, refresh bool, tears []int, then func(what string)) {
				sizes := p.sizes(w, d, refresh)
				for i, size := range sizes {
					for _, k := range tears {
						if k > 0 && size < 2 {
							continue
						}
						torn := []int{0, 1, size / 2, size - 1, size}[k]
						p.restore(d)
						dead := false
						n := -1
						where := ""
						p.load(w, p22Target, refresh, func(_ int, o op) (bool, int, syscall.Errno) {
							if dead {
								return true, 0, syscall.EIO
							}
							if !o.change {
								return false, 0, 0
							}
							if n++; n < i {
								return false, 0, 0
							}
							dead, where = true, o.String()
							return true, torn, syscall.EIO
						})
						w.Heartbeat()
						if !dead {
							continue
						}
						then(fmt.Sprintf("%s; dies at change %d: %s (%d of %d bytes written)", what, i, where, torn, size))
					}
				}
			}
			d := p.snapshot()
			now := p.now
			die(d, s.name, s.refresh, []int{tear}, func(what string) {
				if second == 0 {
					hold := ""
					if s.cached != "" && !s.fetches() {
						hold = "old"
					}
					p.after(w, what, s, hold, true)
					return
				}
				p.now = now + []int64{0, 5, 3605, 5}[second]
				p.down = false
				die(p.snapshot(), what+"; a load "+fmt.Sprint(p.now-now)+" s later", second == 3, engine.Pick(w, []int{0, 2}, []int{0, 1, 2, 3, 4}), func(what string) {
					p.down = s.down
					p.after(w, what, s, "", w.Thorough())
				})
				p.now, p.down = now, s.down
			})
			p.restore(d)
		},
	}
}

// p22Collision finds two targets with the same name and 32-bit FNV hash.
func p22Collision() []string {
	seen := map[uint32]string{}
	for i := 0; ; i++ {
		t := fmt.Sprintf("github.com/u%d/gen-c", i)
		h := fnv.New32a()
		h.Write([]byte(t))
		if o, ok := seen[h.Sum32()]; ok {
			return []string{o, t}
		}
		seen[h.Sum32()] = t
	}
}

// p22Targets: caches of different targets.
func p22Targets() *engine.Family {
	targets := []string{"a", "A", "b", "a-b", "a@v1", "a@v2", "github.com/webrpc/gen-a", "github.com/webrpc/gen-A", "github.com/Webrpc/gen-a", "github.com/me/gen-a", "github.com/me/gen-a@v1", "github.com/me/gen-a/", "github.com/me/a", "github.com/me//gen-a", "github.com/me/gen-a/b", "github.com/me/b", "gitlab.com/me/gen-a", "é", "github.com/a/..", "github.com/b/..", "github.com/a/.", "a b", "x\\y", "github.com/%2e%2e/a", "github.com/me/gen-a#b"}
	targets = append(targets, p22Collision()...)
	return &engine.Family{
		Name: "targets", Bound: fmt.Sprintf("all pairs of %d targets that are alike, two of them with the same 32-bit hash: loaded one after the other, then again young and old with and without network, in both orders", len(targets)),
		Run: func(x *engine.X, w *engine.W) {
			ts := []string{targets[x.Choose(len(targets))], targets[x.Choose(len(targets))]}
			down := x.Bool()
			rev := x.Bool()
			age := []int64{5, 3605}[x.Choose(2)]
			if !w.Mine(func() string { return fmt.Sprintf("%q, network down then %v, reversed %v, age %d", ts, down, rev, age) }) {
				return
			}
			p := newWorld(w)
			p.remote[resolve(ts[0])] = "A"
			p.remote[resolve(ts[1])] = "B"
			for _, t := range ts {
				p.check(w, "load "+t, t, false)
			}
			if rev {
				slices.Reverse(ts)
			}
			p.down = down
			p.now += age
			for _, t := range ts {
				p.check(w, "load again "+t, t, false)
			}
			w.State(fmt.Sprint(p.cache))
		},
	}
}

// p22Variants: caches of targets that differ by one character.
func p22Variants(w *engine.W) *engine.Family {
	bases := engine.Pick(w, []string{"github.com/me/gen-a.b@v1.2.3", "it@v1.10.0"}, []string{"github.com/me/gen-a.b@v1.2.3", "it@v1.10.0", "git.io/A_b/sub/gen~c@branch-1", "GitHub.com/x/y@refs/heads/z"})
	chars := engine.Pick(w, []string{"", "x", "A", "0", "1", ".", "-", "@", "_"}, []string{"", "x", "A", "0", "1", ".", "-", "@", "_", " ", "%", "é", "#", "?", "=", ":", "~", "+"})
	seen := map[string]bool{}
	var pairs [][2]string
	add := func(a, b string) {
		if resolve(a) != resolve(b) && !seen[a+" "+b] && !strings.HasPrefix(b, ".") && b != "" {
			seen[a+" "+b] = true
			pairs = append(pairs, [2]string{a, b}, [2]string{b, a})
		}
	}
	for _, b := range bases {
		for i := 0; i <= len(b); i++ {
			for _, c := range chars {
				add(b, b[:i]+c+b[i:])
				if i < len(b) {
					add(b, b[:i]+c+b[i+1:])
				}
			}
			if i < len(b) {
				add(b, b[:i]+strings.ToUpper(b[i:i+1])+b[i+1:])
				add(b, b[:i]+strings.ToLower(b[i:i+1])+b[i+1:])
				add(b, b[:i])
				add(b, b+b[i:])
			}
		}
	}
	return &engine.Family{
		Name: "variants", Bound: fmt.Sprintf("%d pairs of targets, one a single edit of the other (of %d targets): both loaded, then again without network", len(pairs), len(bases)),
		Run: func(x *engine.X, w *engine.W) {
			ts := pairs[x.Choose(len(pairs))]
			if !w.Mine(func() string { return fmt.Sprintf("%q", ts) }) {
				return
			}
			p := newWorld(w)
			p.remote[resolve(ts[0])], p.remote[resolve(ts[1])] = "A", "B"
			p.check(w, "load "+ts[0], ts[0], false)
			p.check(w, "load "+ts[1], ts[1], false)
			p.down = true
			p.now += 3605
			p.check(w, "load again "+ts[0], ts[0], false)
			p.check(w, "load again "+ts[1], ts[1], false)
			w.State(fmt.Sprint(p.cache))
		},
	}
}

// p22Sizes: sets of few and many, small and large templates, with unusual names.
func p22Sizes(w *engine.W) *engine.Family {
	counts := engine.Pick(w, []int{1, 2, 8, 9, 33, 130}, []int{1, 2, 3, 7, 8, 9, 16, 17, 33, 64, 65, 130, 300})
	sizes := engine.Pick(w, []int{0, 4097, 70000}, []int{0, 1, 511, 513, 4095, 4096, 4097, 32769, 70000, 1 << 20})
	names := []string{"t%d", "T%d.x", "%d é", "a-%d_b", "%d'q", "_%d"}
	mk := func(v string, count, size int, name string) set {
		s := set{}
		body := ""
		for i := 1; i < count; i++ {
			n := fmt.Sprintf(name, i)
			s[n+".go.tmpl"] = fmt.Sprintf("{{define %q}}%d%s%s{{end}}", n, i, v, strings.Repeat("x", size/count))
			body += fmt.Sprintf("{{template %q .}},", n)
		}
		s["m.go.tmpl"] = `{{define "main"}}` + v + strings.Repeat("é", size/count/2) + body + `{{end}}`
		return s
	}
	want := func(v string, count, size int) string {
		t := v + strings.Repeat("é", size/count/2)
		for i := 1; i < count; i++ {
			t += fmt.Sprintf("%d%s%s,", i, v, strings.Repeat("x", size/count))
		}
		return t
	}
	return &engine.Family{
		Name: "sizes", Bound: fmt.Sprintf("all pairs of sets of %v templates, %v bytes together, under %d kinds of names: one loaded, loaded from the cache, replaced by the other, refreshed, loaded from the cache with and without network", counts, sizes, len(names)),
		Run: func(x *engine.X, w *engine.W) {
			c := []int{counts[x.Choose(len(counts))], counts[x.Choose(len(counts))]}
			z := []int{sizes[x.Choose(len(sizes))], sizes[x.Choose(len(sizes))]}
			name := names[x.Choose(len(names))]
			if !w.Mine(func() string { return fmt.Sprintf("%v templates named %s, %v bytes", c, name, z) }) {
				return
			}
			p := newWorld(w)
			for i, l := range []struct {
				set           int
				down, refresh bool
				wait          int64
				cached        bool
			}{{0, false, false, 0, false}, {0, false, false, 5, true}, {0, true, false, 3700, true}, {1, false, true, 5, false}, {1, false, false, 5, true}, {1, true, false, 3700, true}} {
				p22Sets["V"] = mk(string(rune('V'+l.set)), c[l.set], z[l.set], name)
				p.remote[p22Target], p.down = "V", l.down
				p.now += l.wait
				got := p.load(w, p22Target, l.refresh, nil)
				if exp := want(string(rune('V'+l.set)), c[l.set], z[l.set]); got.err != nil || got.code != exp || (got.age > 0) != l.cached {
					w.Fail("size", "load %d: gives %s (%d bytes), expected %s (%d bytes)", i, clip(got.String()), len(got.code), clip(exp), len(exp))
				}
			}
			w.State(fmt.Sprint(c, z, name))
		},
	}
}

// p22Contents: what templates contain comes out of the cache as it was put in.
func p22Contents(w *engine.W) *engine.Family {
	texts := []string{"", " ", "\n", "\t", "\r\n", "\r", "x", "x\n", "x\r\ny\r\n", "\nx", " x ", "x\n\n\n", "\x00", "x\x00y", "\xff\xfe", "\xef\xbb\xbfx", "é", "\u2028", "}}", "{ ", "%s%d", "\\n", "$x ${x}", "`", "<&>", "a\vb\fc", "\x1a", "\x1b[0m", strings.Repeat("x", 4095), strings.Repeat("x", 4096), strings.Repeat("é", 2048) + "x", strings.Repeat("x\n", 40000)}
	forms := []string{"%s", "%s{{/* c */}}", "{{/* c */}}%s", "{{define \"d\"}}d{{end}}%s", "%s{{define \"d\"}}d{{end}}\n"}
	names := []string{"c.go.tmpl", "z.go.tmpl", "C c.go.tmpl", "é.go.tmpl", ".c.go.tmpl", "_c.go.tmpl", "c.go.tmpl.go.tmpl", "main.go.tmpl", "-.go.tmpl"}
	return &engine.Family{
		Name: "contents", Bound: fmt.Sprintf("a template file of %d texts in %d forms under %d names beside the main one: loaded, loaded from the cache, without network, refreshed, from the cache again", len(texts), len(forms), len(names)),
		Run: func(x *engine.X, w *engine.W) {
			text := texts[x.Choose(len(texts))]
			form := forms[x.Choose(len(forms))]
			name := names[x.Choose(len(names))]
			if !w.Mine(func() string { return fmt.Sprintf("%s: form %q of %.50q", name, form, text) }) {
				return
			}
			p := newWorld(w)
			suffix := ""
			if strings.HasSuffix(form, "\n") {
				suffix = "\n"
			}
			for i, l := range []struct {
				down, refresh bool
				wait          int64
			}{{false, false, 0}, {false, false, 5}, {true, false, 3700}, {false, true, 5}, {true, false, 5}} {
				p22Sets["V"] = set{name: strings.Replace(form, "%s", text, 1), "m.go.tmpl": fmt.Sprintf("{{define \"main\"}}<{{template %q .}}>{{end}}", name)}
				p.remote[p22Target], p.down = "V", l.down
				p.now += l.wait
				got := p.load(w, p22Target, l.refresh, nil)
				if exp := "<" + text + suffix + ">"; got.err != nil || got.code != exp {
					w.Fail("content", "load %d: gives %s, expected %q", i, clip(got.String()), clip(exp))
				}
			}
			w.State(text + form + name)
		},
	}
}
