package main

import (
	"encoding/json"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strings"
	"time"

	"github.com/webrpc/webrpc/schema"
	engine "verifengine"
	sched "verifsched"
)

func init() {
	register(&engine.Prop{
		ID:   "P24",
		Rule: "Histories: an execution is a sequence of parses in one process; every result is compared with that of a fresh process. Schedules: an execution takes one group of parses through every schedule within the delay bound (counted as transitions): goroutines run one at a time and are switched before channel operations, locks, the start of goroutines and file reads; every result is compared with that of a fresh process, and the Go race detector, which sees only the synchronisation of the code itself, must stay silent. A state is a distinct result.",
		Assumptions: []string{
			"accesses to memory that the race detector does not object to are not interleaved any finer than at synchronising operations",
			"the race detector remembers the last accesses to each word only",
		},
		Quick: 450 * time.Second,
		Families: func(w *engine.W) []*engine.Family {
			return []*engine.Family{p24Histories(w), p24Scribbled(w),
				p24Schedules(w, 1, 1, p24Sources(), "sources"),
				p24Schedules(w, 1, engine.Pick(w, 2, 3), p24Tiny, "tiny sources"),
				p24Schedules(w, 2, engine.Pick(w, 1, 2), p24Tiny, "tiny sources"),
				p24Schedules(w, 3, 1, p24Tiny[:engine.Pick(w, 4, 8)], "tiny sources"),
			}
		},
	})
}

// yieldFS lets others go on before every operation.
type yieldFS struct{ memFS }

type yieldFile struct{ fs.File }

func (f yieldFile) Read(b []byte) (int, error) {
	sched.Point()
	return f.File.Read(b)
}

func (y yieldFS) Open(name string) (fs.File, error) {
	sched.Point()
	f, err := y.memFS.Open(name)
	if err != nil {
		return nil, err
	}
	return yieldFile{f}, nil
}

// A source is something to parse.
type source struct {
	name  string
	files memFS  // RIDL: parsed from a.ridl
	json  string // or JSON
}

const p24Head = "webrpc = v1\nname = n\nversion = v1\n"

// p24Tiny are small, for many schedules.
var p24Tiny = []source{
	{name: "struct", files: memFS{"a.ridl": "webrpc = v1\nstruct A\n  - x: int\n"}},
	{name: "other struct", files: memFS{"a.ridl": "webrpc = v1\nstruct A # c\n  - y?: A\n"}},
	{name: "stray", files: memFS{"a.ridl": "webrpc = v1\n~\n"}},
	{name: "unknown", files: memFS{"a.ridl": "webrpc = v1\nstruct A\n  - x: B\n"}},
	{name: "import", files: memFS{"a.ridl": "webrpc = v1\nimport b.ridl\n", "b.ridl": "webrpc = v1\nenum E: int\n  - X\n"}},
	{name: "bad import", files: memFS{"a.ridl": "webrpc = v1\nimport b.ridl\n", "b.ridl": "webrpc = v1\nenum\n"}},
	{name: "json", json: `{"webrpc":"v1","types":[{"kind":"struct","name":"A","fields":[{"name":"x","type":"map<string,[]A>"}]}]}`},
	{name: "comments", files: memFS{"a.ridl": "# a\nwebrpc = v1\n# b\nstruct A # c\n  # d\n  - x: int # e"}},
	{name: "service", files: memFS{"a.ridl": "webrpc = v1\nservice S\n  @a:b\n  - M(x: int)\n"}},
}

// p24Sources are all.
func p24Sources() []source {
	l := append([]source{}, p24Tiny...)
	for k := 0; k < menuSize; k++ {
		d := smallDoc(k)
		l = append(l, source{name: fmt.Sprint("menu ", k), files: memFS{"a.ridl": d.RIDL()}})
		if k%3 == 0 {
			l = append(l, source{name: fmt.Sprint("menu json ", k), json: d.JSON(false)})
		}
	}
	r := rich().RIDL()
	l = append(l,
		source{name: "rich", files: memFS{"a.ridl": r}},
		source{name: "rich json", json: rich().JSON(false)},
		source{name: "rich cut", files: memFS{"a.ridl": r[:len(r)/2] + "\n- ("}},
		source{name: "empty", files: memFS{"a.ridl": ""}},
		source{name: "missing", files: memFS{}},
		source{name: "cycle", files: memFS{"a.ridl": p24Head + "import b.ridl\n", "b.ridl": p24Head + "import a.ridl\n"}},
		source{name: "diamond", files: memFS{
			"a.ridl": p24Head + "import\n  - b.ridl\n  - c.ridl\nstruct A\n  - d: D\n  - b: map<string,B>\n",
			"b.ridl": p24Head + "import d.ridl\nstruct B\n  - d: D\n", "c.ridl": p24Head + "import d.ridl\nstruct C\n  - d: D\nerror 7 Seven \"7\"\n", "d.ridl": p24Head + "type D: int\n"}},
		source{name: "clash", files: memFS{"a.ridl": p24Head + "struct A\n  - x: int\nstruct a\n  - x: int\n"}},
		source{name: "bad json", json: `{"webrpc":"v1","types":[{"kind":"struct","name":"A","fields":[{"name":"x","type":"map<string"}]}]}`},
		source{name: "no json", json: `{`},
	)
	return l
}

func (s source) parse() (*schema.WebRPCSchema, error) {
	if s.files == nil {
		return parseJSON(s.json)
	}
	return parseFS(yieldFS{s.files}, "a.ridl")
}

// text is a result in comparable form.
func text(s *schema.WebRPCSchema, err error) string {
	if err != nil {
		return "error: " + err.Error()
	}
	if s == nil {
		return "neither schema nor error"
	}
	j, err := s.ToJSON()
	if err != nil {
		j = err.Error()
	}
	h, _ := s.SchemaHash()
	return Real(s).String() + "\n" + j + "\n" + h
}

// soloMain parses one source and prints the result.
func soloMain(name string) {
	for _, s := range p24Sources() {
		if s.name == name {
			b, _ := json.Marshal(text(s.parse()))
			os.Stdout.Write(b)
		}
	}
}

var solos = map[string]string{}

// solo is the result in a fresh process.
func solo(name string) string {
	if t, ok := solos[name]; ok {
		return t
	}
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	b, err := exec.Command(self, "-solo", name).Output()
	if err != nil {
		panic(err)
	}
	t := ""
	if err := json.Unmarshal(b, &t); err != nil {
		panic(err)
	}
	solos[name] = t
	return t
}

// A job is what a fresh process carries out.
type job struct {
	Kind   string // history, scribble or schedules
	Names  []string
	Wants  []string // results in fresh processes
	Delays int
	Chunk  int
	Chunks int
	Free   bool
}

type failure struct{ Sig, Msg string }

// jobResult is what comes of a job.
type jobResult struct {
	Fails []failure
	Steps int
}

func (o *jobResult) fail(sig, format string, args ...any) {
	if len(o.Fails) < 20 {
		o.Fails = append(o.Fails, failure{sig, fmt.Sprintf(format, args...)})
	}
}

// childMain carries out the job given on standard input.
func childMain() {
	var j job
	if err := json.NewDecoder(os.Stdin).Decode(&j); err != nil {
		panic(err)
	}
	byName := map[string]source{}
	for _, s := range p24Sources() {
		byName[s.name] = s
	}
	l := make([]source, len(j.Names))
	for i, n := range j.Names {
		l[i] = byName[n]
	}
	o := &jobResult{}
	switch j.Kind {
	case "history":
		for i, s := range l {
			o.Steps++
			if got := text(s.parse()); got != j.Wants[i] {
				o.fail("history", "parse %d (%s) after %s differs from that in a fresh process:\n%s", i+1, s.name, strings.Join(j.Names[:i], ", "), diff(j.Wants[i], got))
				break
			}
		}
	case "scribble":
		a, b := l[0], l[1]
		first, err := a.parse()
		second, err2 := b.parse()
		if err == nil {
			scribble(reflect.ValueOf(first), map[uintptr]bool{})
		}
		o.Steps += 3
		if got := text(second, err2); got != j.Wants[1] {
			o.fail("shared", "%s, parsed before the schema of %s was overwritten, changes:\n%s", b.name, a.name, diff(j.Wants[1], got))
		}
		if got := text(b.parse()); got != j.Wants[1] {
			o.fail("history", "%s, parsed after the schema of %s was overwritten, differs:\n%s", b.name, a.name, diff(j.Wants[1], got))
		}
	case "schedules":
		e := &explorer{o: o, group: l, job: j}
		e.cold()
		e.explore(nil)
		if os.Getenv("P24_STATS") != "" {
			fmt.Fprintln(os.Stderr, j.Names, e.runs, e.points)
		}
	}
	b, _ := json.Marshal(o)
	os.Stdout.Write(b)
}

// child carries out a job in a fresh process.
func child(w *engine.W, j job) {
	for _, n := range j.Names {
		j.Wants = append(j.Wants, solo(n))
	}
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	cmd := exec.Command(self, "-child")
	b, _ := json.Marshal(j)
	cmd.Stdin = strings.NewReader(string(b))
	var so, se strings.Builder
	cmd.Stdout, cmd.Stderr = &so, &se
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	ended := make(chan error, 1)
	go func() { ended <- cmd.Wait() }()
	for since := time.Now(); ; {
		select {
		case err = <-ended:
		case <-time.After(2 * time.Second):
			w.Heartbeat()
			if time.Since(since) < 200*time.Second {
				continue
			}
			_ = cmd.Process.Kill()
			<-ended
			w.Fail("hangs", "%s of %s goes on for 200 s", j.Kind, strings.Join(j.Names, ", "))
			return
		}
		break
	}
	if os.Getenv("P24_STATS") != "" {
		fmt.Fprint(os.Stderr, se.String())
	}
	if err != nil {
		t := se.String()
		if len(t) > 4000 {
			t = t[:4000]
		}
		w.Fail("crash", "%s of %s: %v\n%s", j.Kind, strings.Join(j.Names, ", "), err, t)
		return
	}
	var o jobResult
	if err := json.Unmarshal([]byte(so.String()), &o); err != nil {
		panic(fmt.Sprintf("%v: %q", err, so.String()))
	}
	w.Step(o.Steps)
	w.Heartbeat()
	for _, f := range o.Fails {
		w.Fail(f.Sig, "%s", f.Msg)
	}
}

func p24Histories(w *engine.W) *engine.Family {
	l := p24Sources()
	depth := engine.Pick(w, 2, 3)
	return &engine.Family{
		Name: "histories", Bound: fmt.Sprintf("all sequences of %d parses out of %d sources (every construct, imports, every kind of failure, RIDL and JSON), each source 40 times, and all sources twice from each one on, forwards and backwards; every history in a process of its own", depth, len(l)),
		Run: func(x *engine.X, w *engine.W) {
			var names []string
			switch x.Choose(4) {
			case 0:
				for len(names) < depth {
					names = append(names, l[x.Choose(len(l))].name)
				}
			case 1:
				n := l[x.Choose(len(l))].name
				for len(names) < 40 {
					names = append(names, n)
				}
			case 2:
				for i := x.Choose(len(l)); len(names) < 2*len(l); i++ {
					names = append(names, l[i%len(l)].name)
				}
			case 3:
				for i := x.Choose(len(l)); len(names) < 2*len(l); i += len(l) - 1 {
					names = append(names, l[i%len(l)].name)
				}
			}
			if !w.Mine(func() string { return strings.Join(names, ", ") }) {
				return
			}
			child(w, job{Kind: "history", Names: names})
			for _, n := range names {
				w.State(solo(n))
			}
		},
	}
}

// p24Scribbled: what callers do with a schema does not show in later ones.
func p24Scribbled(w *engine.W) *engine.Family {
	l := p24Sources()
	return &engine.Family{
		Name: "scribbled", Bound: fmt.Sprintf("all pairs of %d sources, with everything that can be reached from the first schema overwritten before the second is parsed; every pair in a process of its own", len(l)),
		Run: func(x *engine.X, w *engine.W) {
			a, b := l[x.Choose(len(l))].name, l[x.Choose(len(l))].name
			if !w.Mine(func() string { return a + ", " + b }) {
				return
			}
			child(w, job{Kind: "scribble", Names: []string{a, b}})
			w.State(a + b)
		},
	}
}

// scribble overwrites all data that can be reached from v.
func scribble(v reflect.Value, seen map[uintptr]bool) {
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() || seen[v.Pointer()] {
			return
		}
		seen[v.Pointer()] = true
		scribble(v.Elem(), seen)
	case reflect.Interface:
		if !v.IsNil() {
			scribble(v.Elem(), seen)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			scribble(v.Field(i), seen)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			scribble(v.Index(i), seen)
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			scribble(v.MapIndex(k), seen)
			if v.CanInterface() {
				v.SetMapIndex(k, reflect.Zero(v.Type().Elem()))
			}
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString("scribble")
		}
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if v.CanSet() {
			v.SetInt(v.Int() + 1)
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if v.CanSet() {
			v.SetUint(v.Uint() + 1)
		}
	}
}

// uncontrolled tells that the code synchronises in ways that cannot be controlled.
func uncontrolled() string {
	b, _ := os.ReadFile(os.Getenv("VERIF_NOTES"))
	return string(b)
}

// p24Schedules takes groups of n parses through all schedules with up to delays delays.
func p24Schedules(w *engine.W, n, delays int, l []source, which string) *engine.Family {
	note := uncontrolled()
	bound := fmt.Sprintf("all schedules with up to %d delays of all groups of %d concurrent parses out of %d %s", delays, n, len(l), which)
	if note != "" {
		bound = fmt.Sprintf("%d runs of each group of %d parses out of %d %s, without control of the schedule, for the code now has: %s", 50, n, len(l), which, note)
	}
	return &engine.Family{
		Name: fmt.Sprintf("schedules of %d, %d delays", n, delays), Bound: bound,
		Run: func(x *engine.X, w *engine.W) {
			names := make([]string, n)
			at := 0
			for i := range names {
				at += x.Choose(len(l) - at)
				names[i] = l[at].name
			}
			const chunks = 8
			chunk := x.Choose(chunks) // of the positions of the first delay
			if !w.Mine(func() string { return fmt.Sprint(strings.Join(names, " | "), ", part ", chunk) }) {
				return
			}
			child(w, job{Kind: "schedules", Names: names, Delays: delays, Chunk: chunk, Chunks: chunks, Free: note != ""})
			w.State(strings.Join(names, " | "))
		},
	}
}

type explorer struct {
	job
	o      *jobResult
	group  []source
	runs   int
	points int
	failed bool
}

// cold begins with another schedule in every part, for what happens only once
// in a process.
func (e *explorer) cold() {
	if !e.Free && e.Chunk > 0 {
		e.run([][2]int{{e.Chunk*e.Chunk + e.Chunk%3, 1}})
	}
}

func (e *explorer) run(choices [][2]int) sched.Result {
	n := len(e.group)
	got := make([]string, n)
	finished := make([]bool, n)
	roots := make([]func(), n)
	for i := range roots {
		roots[i] = func() {
			s, err := e.group[i].parse()
			got[i] = text(s, err)
			if err == nil { // everything else that users do with a schema
				_ = schema.MatchServices(s, []string{"S"})
				_ = schema.MethodTreeShake(s, []string{"S"})
			}
			finished[i] = true
		}
	}
	races := raceErrors()
	var r sched.Result
	if e.Free {
		r = freeRun(roots)
	} else {
		r = sched.Run(choices, roots...)
	}
	e.runs++
	e.o.Steps++
	fail := func(sig, format string, args ...any) {
		e.failed = true
		e.o.fail(sig, "parses of %s at once, delays %v: %s", strings.Join(e.Names, " | "), choices, fmt.Sprintf(format, args...))
	}
	if raceErrors() > races {
		fail("race", "data race:\n%s", raceReport())
	}
	if r.Limited {
		return r // too long for the bounds
	}
	for i := range roots {
		if !finished[i] {
			fail("blocked", "%s does not come to an end", e.Names[i])
			return r
		}
		if got[i] != e.Wants[i] {
			fail("differs", "%s differs from the result alone:\n%s", e.Names[i], diff(e.Wants[i], got[i]))
		}
	}
	if r.Left > 0 {
		fail("left", "%d goroutines are left behind, blocked", r.Left)
	}
	return r
}

func (e *explorer) explore(choices [][2]int) {
	r := e.run(choices)
	e.points = max(e.points, len(r.Counts))
	if e.failed || len(choices) >= e.Delays {
		if e.Free {
			for i := 0; i < 49 && !e.failed; i++ {
				e.run(nil)
			}
		}
		return
	}
	from := 0
	if len(choices) > 0 {
		from = choices[len(choices)-1][0] + 1
	}
	for p := from; p < len(r.Counts); p++ {
		if len(choices) == 0 && p%e.Chunks != e.Chunk {
			continue
		}
		for c := 1; c < int(r.Counts[p]); c++ {
			e.explore(append(choices[:len(choices):len(choices)], [2]int{p, c}))
			if e.failed {
				return
			}
		}
	}
}

// freeRun runs the roots without control.
func freeRun(roots []func()) sched.Result {
	done := make(chan bool, len(roots))
	for _, f := range roots {
		go func() {
			f()
			done <- true
		}()
	}
	timeout := time.After(20 * time.Second)
	for range roots {
		select {
		case <-done:
		case <-timeout:
			return sched.Result{Stuck: true}
		}
	}
	return sched.Result{}
}

// raceReport is the end of what the race detector has written.
func raceReport() string {
	for _, o := range strings.Fields(os.Getenv("GORACE")) {
		if p, ok := strings.CutPrefix(o, "log_path="); ok {
			names, _ := filepath.Glob(fmt.Sprintf("%s.%d", p, os.Getpid()))
			for _, n := range names {
				b, _ := os.ReadFile(n)
				s := string(b)
				if i := strings.LastIndex(s, "WARNING: DATA RACE"); i >= 0 {
					s = s[i:]
				}
				return s
			}
		}
	}
	return ""
}
