package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/webrpc/webrpc"
	"github.com/webrpc/webrpc/tests/server"
	engine "verifengine"
)

func init() {
	register(&engine.Prop{
		ID:   "P29",
		Rule: "An execution runs the real webrpc-test binary once, as client, server or waiter, against a peer whose exchanges fail as the execution's choices say, and compares exit status, output and the exchanges made with what the suite asks for. A state is a distinct set of tests that have to fail, or a distinct history of a server.",
		Assumptions: []string{
			"a deviation counts when the suite compares what it alters: contents of the two enum answers beyond their length, the cause of an error when it is left out, and bodies of answers without results are not compared",
			"loopback TCP on 127.0.0.1; deadlines are checked with wide margins above and none below",
		},
		Families: func(w *engine.W) []*engine.Family {
			return []*engine.Family{p29Single(w), p29Pairs(w), p29Outage(w), p29Usage(), p29Print(), p29Wait(w), p29Serve()}
		},
	})
}

// The exchanges of one run of the suite, and what is compared of each.
type exchange struct {
	name string
	code int // of GetSchemaError
	kind int
}

const (
	exEmpty  = iota // succeeds on any answer 200
	exError         // has to fail
	exValue         // the value goes to the next exchange
	exCount         // two items
	exSchema        // a certain error
)

func p29Exchanges() []exchange {
	l := []exchange{
		{"GetEmpty", 0, exEmpty}, {"GetError", 0, exError}, {"GetOne", 0, exValue}, {"SendOne", 0, exEmpty}, {"GetMulti", 0, exValue}, {"SendMulti", 0, exEmpty},
		{"GetComplex", 0, exValue}, {"SendComplex", 0, exEmpty}, {"GetEnumList", 0, exCount}, {"GetEnumMap", 0, exCount},
	}
	for _, c := range []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 100, 101, 102, 103, 200, 201, 202, 300, 301, 302} {
		l = append(l, exchange{"GetSchemaError", c, exSchema})
	}
	return l
}

func (e exchange) String() string {
	if e.kind == exSchema {
		return fmt.Sprintf("GetSchemaError(%d)", e.code)
	}
	return e.name
}

// answer is what goes back to the client.
type answer struct {
	status int
	body   []byte
	cut    bool // the connection ends before the body does
	drop   bool // no answer at all
	slow   bool
}

// fault changes an answer; fails says whether the exchange itself fails then,
// and passes on whether the next exchange does.
type fault struct {
	name  string
	do    func(a *answer)
	fails bool
	next  bool
}

func edit(f func(m map[string]any)) func(a *answer) {
	return func(a *answer) {
		var m map[string]any
		d := json.NewDecoder(bytes.NewReader(a.body))
		d.UseNumber()
		if err := d.Decode(&m); err != nil {
			panic(fmt.Sprintf("the reference server answers %q: %v", a.body, err))
		}
		f(m)
		a.body, _ = json.Marshal(m)
	}
}

func p29Faults(e exchange) []fault {
	val := e.kind == exValue || e.kind == exCount
	bad := e.kind != exError // an error is what GetError asks for
	fs := []fault{
		{"no answer", func(a *answer) { a.drop = true }, bad, true},
		{"500 without a body", func(a *answer) { a.status, a.body = 500, nil }, bad, true},
		{"404 page", func(a *answer) { a.status, a.body = 404, []byte("<html>not found</html>") }, bad, true},
		{"503 with an error of another kind", func(a *answer) {
			a.status, a.body = 503, []byte(`{"error":"Other","code":777,"msg":"other","status":503}`)
		}, bad, true},
		{"slow", func(a *answer) { a.slow = true }, false, false},
		{"200 {}", func(a *answer) { a.status, a.body = 200, []byte("{}") }, e.kind != exEmpty && e.kind != exValue, true},
		{"200 null", func(a *answer) { a.status, a.body = 200, []byte("null") }, e.kind != exEmpty && e.kind != exValue, true},
		{"200 without a body", func(a *answer) { a.status, a.body = 200, nil }, e.kind != exEmpty, true},
		{"200 text", func(a *answer) { a.status, a.body = 200, []byte("ready") }, e.kind != exEmpty, true},
	}
	if e.kind != exEmpty {
		// An answer with no result is done when its head is there.
		fs = append(fs, fault{"cut in the middle", func(a *answer) { a.cut = true }, bad, true})
	}
	if val {
		fs = append(fs, fault{"one more key", edit(func(m map[string]any) { m["verif"] = 1 }), false, false})
	}
	mapOf := func(v any) map[string]any { return v.(map[string]any) }
	switch e.name {
	case "GetOne":
		fs = append(fs,
			fault{"another id", edit(func(m map[string]any) { mapOf(m["one"])["id"] = 2 }), false, true},
			fault{"another name", edit(func(m map[string]any) { mapOf(m["one"])["name"] = "One" }), false, true},
			fault{"an id that is a string", edit(func(m map[string]any) { mapOf(m["one"])["id"] = "1" }), true, true},
			fault{"null", edit(func(m map[string]any) { m["one"] = nil }), false, true})
	case "GetMulti":
		for _, k := range []string{"one", "two", "three"} {
			fs = append(fs,
				fault{"another id of " + k, edit(func(m map[string]any) { mapOf(m[k])["id"] = 7 }), false, true},
				fault{"no " + k, edit(func(m map[string]any) { delete(m, k) }), false, true})
		}
		fs = append(fs, fault{"swapped", edit(func(m map[string]any) { m["one"], m["two"] = m["two"], m["one"] }), false, true})
	case "GetComplex":
		for _, k := range []string{"meta", "metaNestedExample", "namesList", "numsList", "doubleArray", "listOfMaps", "listOfUsers", "mapOfUsers", "user"} {
			fs = append(fs, fault{"no " + k, edit(func(m map[string]any) {
				c := mapOf(m["complex"])
				if _, ok := c[k]; !ok {
					panic("no " + k)
				}
				delete(c, k)
			}), false, true})
		}
		fs = append(fs,
			fault{"another status", edit(func(m map[string]any) { mapOf(m["complex"])["status"] = "NOT_AVAILABLE" }), false, true},
			fault{"another number", edit(func(m map[string]any) { mapOf(m["complex"])["numsList"].([]any)[3] = 4534643542 }), false, true},
			fault{"a name more", edit(func(m map[string]any) {
				c := mapOf(m["complex"])
				c["namesList"] = append(c["namesList"].([]any), "X")
			}), false, true},
			fault{"another nested name", edit(func(m map[string]any) { mapOf(mapOf(m["complex"])["user"])["USERNAME"] = "x" }), false, true})
	case "GetEnumList":
		fs = append(fs,
			fault{"one item", edit(func(m map[string]any) { m["list"] = m["list"].([]any)[:1] }), true, false},
			fault{"three items", edit(func(m map[string]any) { l := m["list"].([]any); m["list"] = append(l, l[0]) }), true, false},
			fault{"no item", edit(func(m map[string]any) { m["list"] = []any{} }), true, false})
	case "GetEnumMap":
		fs = append(fs,
			fault{"one item", edit(func(m map[string]any) { delete(mapOf(m["map"]), "READ") }), true, false},
			fault{"three items", edit(func(m map[string]any) { mapOf(m["map"])["OWNER"] = 5 }), true, false},
			fault{"no item", edit(func(m map[string]any) { m["map"] = map[string]any{} }), true, false})
	case "GetSchemaError":
		fs = append(fs,
			fault{"another code", edit(func(m map[string]any) { m["code"] = 999 }), true, false},
			fault{"another name", edit(func(m map[string]any) { m["error"] = "Some" }), true, false},
			fault{"another message", edit(func(m map[string]any) { m["msg"] = "some" }), true, false},
			fault{"another status", edit(func(m map[string]any) { m["status"] = 418 }), true, false},
			fault{"another cause", edit(func(m map[string]any) { m["cause"] = "some" }), true, false})
	}
	return fs
}

// peer is a test server with faults in front.
type peer struct {
	*httptest.Server
	mu    sync.Mutex
	seen  []string
	fault map[string]*fault
	wrong []string // requests that are not of the suite
}

// loopback listens on a port outside the range that connections take theirs from.
var p29Port = 0

func loopback() net.Listener {
	for range 2000 {
		p29Port++
		l, err := net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", 20000+(os.Getpid()*37+p29Port)%10000))
		if err == nil {
			return l
		}
		if !errors.Is(err, syscall.EADDRINUSE) {
			panic(err)
		}
	}
	panic("no free port")
}

func reply(w http.ResponseWriter, a *answer) {
	if a.slow {
		time.Sleep(30 * time.Millisecond)
	}
	if a.drop || a.cut {
		c, _, err := w.(http.Hijacker).Hijack()
		if err != nil {
			panic(err)
		}
		if a.cut {
			fmt.Fprintf(c, "HTTP/1.1 %d X\r\nContent-Type: application/json\r\nContent-Length: %d\r\n\r\n%s", a.status, len(a.body), a.body[:len(a.body)/2])
		}
		c.Close()
		return
	}
	w.Header().Set("Content-Type", "application/json")
	w.WriteHeader(a.status)
	w.Write(a.body)
}

func newPeer(faults map[string]*fault) *peer {
	p := &peer{fault: faults}
	ref := server.NewTestApiServer(&server.TestServer{})
	h := http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		body, _ := io.ReadAll(r.Body)
		key, ok := strings.CutPrefix(r.URL.Path, "/rpc/TestApi/")
		if key == "GetSchemaError" {
			var in struct{ Code int }
			_ = json.Unmarshal(body, &in)
			key = exchange{key, in.Code, exSchema}.String()
		}
		p.mu.Lock()
		p.seen = append(p.seen, key)
		if !ok || r.Method != "POST" {
			p.wrong = append(p.wrong, r.Method+" "+r.URL.Path)
		}
		f := p.fault[key]
		p.mu.Unlock()
		rec := httptest.NewRecorder()
		r.Body = io.NopCloser(bytes.NewReader(body))
		ref.ServeHTTP(rec, r)
		a := &answer{status: rec.Code, body: rec.Body.Bytes()}
		if f != nil {
			f.do(a)
		}
		reply(w, a)
	})
	p.Server = httptest.NewUnstartedServer(h)
	p.Server.Listener.Close()
	p.Server.Listener = loopback()
	p.Start()
	return p
}

func (p *peer) close() []string {
	p.CloseClientConnections()
	p.Close()
	return p.seen
}

type toolRun struct {
	code     int
	out, err string
	took     time.Duration
}

func toolCmd(args ...string) *exec.Cmd {
	bin := os.Getenv("VERIF_BIN")
	if bin == "" {
		bin = "/tmp"
	}
	cmd := exec.Command(filepath.Join(bin, "webrpc-test"), args...)
	cmd.Env = []string{"PATH=" + os.Getenv("PATH"), "NO_PROXY=*"}
	return cmd
}

func tool(w *engine.W, args ...string) toolRun {
	cmd := toolCmd(args...)
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	start := time.Now()
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	t := time.AfterFunc(30*time.Second, func() { _ = cmd.Process.Kill() })
	_ = cmd.Wait()
	if !t.Stop() {
		w.Fail("hangs", "webrpc-test %q runs for 30 s", args)
	}
	return toolRun{cmd.ProcessState.ExitCode(), so.String(), se.String(), time.Since(start)}
}

// verdict runs the suite with faults on some exchanges. next: the argument of a
// Send is what the Get before it gave.
func verdict(w *engine.W, at map[int]fault, args ...string) {
	ex := p29Exchanges()
	m := map[string]*fault{}
	var names []string
	fail := map[string]bool{}
	for i, e := range ex {
		f, ok := at[i]
		if ok {
			m[e.String()] = &f
			names = append(names, e.String()+": "+f.name)
			if f.fails {
				fail[e.String()] = true
			}
		}
		if i > 0 && e.kind == exEmpty && ex[i-1].kind == exValue {
			if g, bad := at[i-1]; bad && g.next {
				// What the server says of another argument; a fault that makes
				// the answer 200 hides it.
				if !ok || f.name == "slow" {
					fail[e.String()] = true
				}
			}
		}
	}
	p := newPeer(m)
	if len(args) == 0 {
		args = []string{"-client", "-url=%s"}
	}
	for i := range args {
		args[i] = strings.ReplaceAll(args[i], "%s", p.URL)
	}
	r := tool(w, args...)
	seen := p.close()
	w.Step(len(seen) + 1)
	var want []string
	for _, e := range ex {
		if fail[e.String()] {
			want = append(want, e.String())
		}
	}
	w.State(strings.Join(want, " "))
	wantCode := 0
	if len(want) > 0 {
		wantCode = 1
	}
	what := fmt.Sprintf("webrpc-test %q with faults %q", args, names)
	if r.code != wantCode {
		w.Fail("verdict", "%s: exit status %d, want %d (tests that have to fail: %q)\nstderr: %s", what, r.code, wantCode, want, r.err)
		return
	}
	if r.out != "" {
		w.Fail("stdout", "%s: standard output %q", what, r.out)
	}
	if wantCode == 0 && r.err != "" {
		w.Fail("stderr", "%s: passes, standard error %q", what, r.err)
	}
	for _, e := range ex {
		has := strings.Contains(r.err, e.name+"():")
		if e.kind == exSchema {
			continue
		}
		if has != fail[e.String()] {
			w.Fail("report", "%s: reports %s: %v, want %v\nstderr: %s", what, e, has, fail[e.String()], r.err)
		}
	}
	if wantCode == 1 && strings.TrimSpace(r.err) == "" {
		w.Fail("report", "%s: fails without a message", what)
	}
	count := map[string]int{}
	for _, s := range seen {
		count[s]++
	}
	for _, e := range ex {
		if count[e.String()] != 1 {
			w.Fail("exchanges", "%s: %s is asked %d times", what, e, count[e.String()])
		}
	}
	if len(seen) != len(ex) || len(p.wrong) > 0 {
		w.Fail("exchanges", "%s: asks %q, wrong %q", what, seen, p.wrong)
	}
}

func p29Single(w *engine.W) *engine.Family {
	ex := p29Exchanges()
	return &engine.Family{
		Name: "single fault", Bound: fmt.Sprintf("no fault, and every fault on every one of the %d exchanges of the suite", len(ex)),
		Run: func(x *engine.X, w *engine.W) {
			i := x.Choose(len(ex)+1) - 1
			at := map[int]fault{}
			if i >= 0 {
				fs := p29Faults(ex[i])
				at[i] = fs[x.Choose(len(fs))]
			}
			if !w.Mine(func() string { return fmt.Sprint(i, at) }) {
				return
			}
			verdict(w, at)
		},
	}
}

// Pairs: faults on two exchanges; in the quick tier one of the first two and a
// last one of each exchange.
func p29Pairs(w *engine.W) *engine.Family {
	ex := p29Exchanges()
	return &engine.Family{
		Name: "pairs of faults", Bound: engine.Pick(w, "two faults, each one of two of its exchange, on every two of the ten exchanges before the schema errors", "every two faults on every two exchanges"),
		Run: func(x *engine.X, w *engine.W) {
			n := engine.Pick(w, 10, len(ex))
			i := x.Choose(n - 1)
			j := i + 1 + x.Choose(n-1-i)
			pick := func(e exchange) fault {
				fs := p29Faults(e)
				if !w.Thorough() {
					fs = []fault{fs[0], fs[len(fs)-1]}
				}
				return fs[x.Choose(len(fs))]
			}
			at := map[int]fault{i: pick(ex[i]), j: pick(ex[j])}
			if !w.Mine(func() string { return fmt.Sprint(i, j, at[i].name, at[j].name) }) {
				return
			}
			verdict(w, at)
		},
	}
}

// Outage: the server is away from one exchange to another.
func p29Outage(w *engine.W) *engine.Family {
	ex := p29Exchanges()
	return &engine.Family{
		Name: "outage", Bound: engine.Pick(w, "from every exchange to the end, and up to every exchange", "from every exchange to every other"),
		Run: func(x *engine.X, w *engine.W) {
			i := x.Choose(len(ex))
			j := i + x.Choose(len(ex)-i)
			if !w.Thorough() && i > 0 && j < len(ex)-1 {
				return
			}
			k := x.Choose(3)
			if !w.Mine(func() string { return fmt.Sprint(i, j, k) }) {
				return
			}
			at := map[int]fault{}
			for n := i; n <= j; n++ {
				at[n] = p29Faults(ex[n])[k]
			}
			verdict(w, at)
		},
	}
}

// Usage: how the command line is written.
func p29Usage() *engine.Family {
	return &engine.Family{
		Name: "usage", Bound: "spellings of the flags, missing and unknown commands and options",
		Run: func(x *engine.X, w *engine.W) {
			good := [][]string{
				{"-client", "-url=%s"}, {"-client", "-url", "%s"}, {"--client", "--url=%s"}, {"-client=true", "-url=%s"}, {"-client", "-url=%s", "more"},
				{"-client", "-url=%s/"}, {"-client", "-url=http://127.0.0.1:1", "-url=%s"},
			}
			bad := [][]string{
				{}, {"-verif"}, {"client"}, {"-client=false", "-url=%s"}, {"-client", "-verif"}, {"-client", "-url"}, {"-client", "-timeout=1s", "-url=%s"}, {"-url=%s", "-client"},
				{"-server", "-port=x"}, {"-server", "-timeout=x"}, {"-server", "-url=%s"}, {"-waitForServer", "-timeout=x", "-url=%s"}, {"-waitForServer", "-port=1", "-url=%s"}, {""}, {"-"}, {"--"},
				{"-client", "-url=http://127.0.0.1:1"}, {"-client", "-url=:"}, {"-client", "-url="}, {"-client", "%s"},
			}
			i := x.Choose(len(good) + len(bad))
			if !w.Mine(func() string { return fmt.Sprint(i) }) {
				return
			}
			if i < len(good) {
				verdict(w, nil, append([]string{}, good[i]...)...)
				return
			}
			args := append([]string{}, bad[i-len(good)]...)
			p := newPeer(nil)
			for n := range args {
				args[n] = strings.ReplaceAll(args[n], "%s", p.URL)
			}
			if len(args) == 2 && args[0] == "-client" && args[1] == p.URL {
				// The default address is asked; whether anything is there is open.
				p.close()
				return
			}
			r := tool(w, args...)
			seen := p.close()
			w.Step(1)
			w.State("usage")
			if r.code == 0 {
				w.Fail("usage", "webrpc-test %q: exit status 0\nstdout: %s", args, r.out)
			}
			if r.err == "" {
				w.Fail("usage", "webrpc-test %q: fails without a message", args)
			}
			if r.out != "" || len(seen) > 0 {
				w.Fail("usage", "webrpc-test %q: standard output %q, requests %q", args, r.out, seen)
			}
		},
	}
}

func p29Print() *engine.Family {
	return &engine.Family{
		Name: "print", Bound: "-version, -printRIDL, -print-schema, -printJSON in every spelling",
		Run: func(x *engine.X, w *engine.W) {
			f := []string{"version", "printRIDL", "print-schema", "printJSON"}[x.Choose(4)]
			arg := []string{"-", "--"}[x.Choose(2)] + f + []string{"", "=true"}[x.Choose(2)]
			if !w.Mine(func() string { return arg }) {
				return
			}
			r := tool(w, arg)
			w.Step(1)
			w.State(f)
			if r.code != 0 || r.err != "" {
				w.Fail("print", "webrpc-test %s: exit status %d, standard error %q", arg, r.code, r.err)
				return
			}
			text, err := os.ReadFile("/repo/tests/schema/test.ridl")
			if err != nil {
				panic(err)
			}
			s, err := webrpc.ParseSchemaFile("/repo/tests/schema/test.ridl")
			if err != nil {
				panic(err)
			}
			js, err := s.ToJSON()
			if err != nil {
				panic(err)
			}
			want := map[string]string{"version": "webrpc-test " + webrpc.VERSION, "printRIDL": string(text), "print-schema": string(text), "printJSON": js}[f]
			if strings.TrimSpace(r.out) != strings.TrimSpace(want) {
				w.Fail("print", "webrpc-test %s prints\n%s\nwant\n%s", arg, r.out, want)
			}
		},
	}
}

// Wait: a server that fails some times before it is ready, or never is.
func p29Wait(w *engine.W) *engine.Family {
	depth := engine.Pick(w, 3, 4)
	kinds := []string{"no answer", "500", "404", "error", "ready", "hangs", "nobody listens"}
	return &engine.Family{
		Name: "wait for the server", Bound: fmt.Sprintf("every history of up to %d failures of four kinds before the server is ready; never ready in six ways under three deadlines; a server that starts listening late", depth),
		Run: func(x *engine.X, w *engine.W) {
			var hist []string
			end := ""
			for len(hist) < depth {
				k := x.Choose(5)
				if k == 4 {
					break
				}
				hist = append(hist, kinds[k])
			}
			end = "ready"
			ms := 20000
			late := false
			if len(hist) == 0 {
				switch k := x.Choose(9); {
				case k == 1:
					late = true
				case k >= 2 && k < 8:
					end = []string{"no answer", "500", "404", "error", "hangs", "nobody listens"}[k-2]
					ms = []int{0, 50, 450}[x.Choose(3)]
				case k == 8: // ready at once under a short deadline
					ms = 5000
				}
			}
			if !w.Mine(func() string { return fmt.Sprint(hist, end, ms, late) }) {
				return
			}
			var mu sync.Mutex
			n := 0
			var paths []string
			gone := make(chan struct{})
			h := http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
				io.ReadAll(r.Body)
				mu.Lock()
				k := end
				if n < len(hist) {
					k = hist[n]
				}
				n++
				paths = append(paths, r.URL.Path)
				mu.Unlock()
				switch k {
				case "ready":
					reply(rw, &answer{status: 200, body: []byte("{}")})
				case "no answer":
					reply(rw, &answer{drop: true})
				case "500":
					reply(rw, &answer{status: 500})
				case "404":
					reply(rw, &answer{status: 404, body: []byte("404 page not found")})
				case "error":
					reply(rw, &answer{status: 400, body: []byte(`{"error":"WebrpcEndpoint","code":0,"msg":"endpoint error","status":400}`)})
				case "hangs":
					select {
					case <-gone:
					case <-r.Context().Done():
					}
				}
			})
			l := loopback()
			addr := l.Addr().String()
			srv := &http.Server{Handler: h}
			var t *time.Timer
			switch {
			case end == "nobody listens":
				l.Close()
			case late:
				l.Close()
				t = time.AfterFunc(250*time.Millisecond, func() {
					l, err := net.Listen("tcp", addr)
					if err == nil {
						srv.Serve(l)
					}
				})
			default:
				go srv.Serve(l)
			}
			args := []string{"-waitForServer", "-url=http://" + addr, fmt.Sprintf("-timeout=%dms", ms)}
			r := tool(w, args...)
			close(gone)
			if t != nil {
				t.Stop()
			}
			srv.Close()
			mu.Lock()
			defer mu.Unlock()
			w.Step(n + 1)
			w.State(fmt.Sprint(hist, end, late))
			what := fmt.Sprintf("webrpc-test %q, server: %q then %s (late: %v)", args, hist, end, late)
			if end != "ready" {
				if r.code == 0 || r.err == "" || r.out != "" {
					w.Fail("wait", "%s: exit status %d, standard output %q, standard error %q, want a failure", what, r.code, r.out, r.err)
				}
				if d := time.Duration(ms) * time.Millisecond; r.took < d {
					w.Fail("wait", "%s: gives up after %v", what, r.took)
				} else if r.took > d+20*time.Second {
					w.Fail("wait", "%s: gives up only after %v", what, r.took)
				}
			} else {
				if r.code != 0 || !strings.Contains(r.out, "ready") {
					w.Fail("wait", "%s: exit status %d, standard output %q, standard error %q", what, r.code, r.out, r.err)
				}
				if n != len(hist)+1 {
					w.Fail("wait", "%s: %d requests, want %d", what, n, len(hist)+1)
				}
			}
			for _, p := range paths {
				if p != "/rpc/TestApi/GetEmpty" {
					w.Fail("wait", "%s: asks %s", what, p)
				}
			}
		},
	}
}

// Serve: the reference server, with its address taken or not.
func p29Serve() *engine.Family {
	return &engine.Family{
		Name: "serve", Bound: "the port free or taken, spellings of the flags, two lifetimes; every exchange of the suite against the real server, during its lifetime and after it",
		Run: func(x *engine.X, w *engine.W) {
			taken := x.Bool()
			spell := x.Choose(3)
			life := []int{1500, 2500}[x.Choose(2)]
			if !w.Mine(func() string { return fmt.Sprint(taken, spell, life) }) {
				return
			}
			l := loopback()
			port := l.Addr().(*net.TCPAddr).Port
			if !taken {
				l.Close()
			}
			d := time.Duration(life) * time.Millisecond
			args := [][]string{
				{"-server", "-port=" + strconv.Itoa(port), "-timeout=" + d.String()},
				{"--server", "--timeout", d.String(), "--port", strconv.Itoa(port)},
				{"-server=true", "-timeout=" + strconv.Itoa(life) + "ms", "-port", strconv.Itoa(port)},
			}[spell]
			w.State(fmt.Sprint(taken, life))
			if taken {
				r := tool(w, args...)
				l.Close()
				w.Step(1)
				if r.code == 0 || r.err == "" {
					w.Fail("serve", "webrpc-test %q with the port taken: exit status %d, standard error %q", args, r.code, r.err)
				}
				return
			}
			cmd := toolCmd(args...)
			var so, se bytes.Buffer
			cmd.Stdout, cmd.Stderr = &so, &se
			start := time.Now()
			if err := cmd.Start(); err != nil {
				panic(err)
			}
			done := make(chan struct{})
			var lived time.Duration
			go func() { cmd.Wait(); lived = time.Since(start); close(done) }()
			defer func() { cmd.Process.Kill(); <-done }()
			url := fmt.Sprintf("http://127.0.0.1:%d", port)
			r := tool(w, "-waitForServer", "-url="+url, "-timeout="+d.String())
			if r.code != 0 {
				select {
				case <-done:
					if lived < d {
						w.Fail("serve", "webrpc-test %q: over after %v, exit status %d: %s", args, lived, cmd.ProcessState.ExitCode(), se.String())
					}
				case <-time.After(20 * time.Second):
					w.Fail("serve", "webrpc-test %q still runs after %v", args, time.Since(start))
				}
				return
			}
			w.Step(2)
			// The client passes whenever it is done before the server's time is over.
			for n := 0; ; n++ {
				r := tool(w, "-client", "-url="+url)
				if time.Since(start) >= d {
					break
				}
				w.Step(29)
				if r.code != 0 {
					w.Fail("serve", "webrpc-test %q, run %d of the client after %v: exit status %d: %s", args, n, time.Since(start), r.code, r.err)
					return
				}
				time.Sleep(60 * time.Millisecond)
			}
			select {
			case <-done:
			case <-time.After(20 * time.Second):
				w.Fail("serve", "webrpc-test %q still runs after %v", args, time.Since(start))
				return
			}
			if lived < d {
				w.Fail("serve", "webrpc-test %q: over after %v", args, lived)
			}
			if c := cmd.ProcessState.ExitCode(); c != 0 || se.Len() > 0 || so.Len() > 0 {
				w.Fail("serve", "webrpc-test %q: exit status %d, standard output %q, standard error %q", args, c, so.String(), se.String())
			}
			if r := tool(w, "-client", "-url="+url); r.code == 0 {
				w.Fail("serve", "webrpc-test %q is over and the client passes", args)
			}
		},
	}
}
