package fw

import (
	"bytes"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Leg is one generated check of a property
type Leg struct {
	Prop, Name      string
	Quick, Thorough int // cases in all
	Rule            string
	run             func(t *rapid.T, r *runner)
	replay          func(r *runner, data []byte) error
	one             func(r *runner, t *rapid.T, raw []byte, trace func([]byte)) ([]byte, error) // a case drawn from t or made of raw
	raw             bool
}

// ID names the leg
func (l *Leg) ID() string { return l.Prop + "/" + l.Name }

var legs []*Leg

// Register adds a leg. gen draws a case, which must survive JSON; check
// decides it.
func Register[C any](prop, name string, quick, thorough int, rule string, gen func(*rapid.T) C, check func(*Ctx, *C) error) {
	l := &Leg{Prop: prop, Name: name, Quick: quick, Thorough: thorough, Rule: rule}
	l.run = func(t *rapid.T, r *runner) {
		if r.fails == 0 && !r.deadline.IsZero() && time.Now().After(r.deadline) {
			r.st.Cut = true
			return
		}
		c := gen(t)
		data, err := json.Marshal(c)
		if err != nil {
			Harness("case does not marshal: %v", err)
		}
		// check what a replay would read, so that both see the same case
		var c2 C
		if err := json.Unmarshal(data, &c2); err != nil {
			Harness("case does not unmarshal: %v", err)
		}
		r.ctx.zone = zoneOf(data)
		r.before(l, data)
		if r.isolate {
			err = r.isolated(l, data)
		} else {
			err = r.guard(func() error { return check(r.ctx, &c2) })
		}
		r.after(l, data, err)
		if err != nil {
			t.Fatalf("%v", err)
		}
	}
	l.replay = func(r *runner, data []byte) error {
		var c C
		if err := json.Unmarshal(data, &c); err != nil {
			Harness("bad replay: %v", err)
		}
		r.ctx.zone = zoneOf(data)
		return r.guard(func() error { return check(r.ctx, &c) })
	}
	l.one = func(r *runner, t *rapid.T, raw []byte, trace func([]byte)) ([]byte, error) {
		var c C
		if t != nil {
			c = gen(t)
		} else {
			x, ok := any(&c).(interface{ SetRaw([]byte) })
			if !ok {
				Harness("no raw cases of %s", l.ID())
			}
			x.SetRaw(raw)
		}
		data, err := json.Marshal(c)
		if err != nil {
			Harness("case does not marshal: %v", err)
		}
		trace(data)
		return data, l.replay(r, data)
	}
	var c C
	_, l.raw = any(&c).(interface{ SetRaw([]byte) })
	legs = append(legs, l)
}

// zoneOf chooses a time zone for the case; where nothing depends on it, none
// may matter
func zoneOf(data []byte) string {
	var b bytes.Buffer
	if err := json.Compact(&b, data); err != nil {
		Harness("%v", err)
	}
	h := fnv.New32a()
	h.Write(b.Bytes())
	switch n := h.Sum32() % 8; n {
	case 0:
		return "America/Los_Angeles"
	case 1:
		return "Pacific/Kiritimati"
	case 2:
		return "Europe/London"
	default:
		return "UTC"
	}
}

// Stats of one shard
type stats struct {
	Leg         string         `json:"leg"`
	Rule        string         `json:"rule"`
	Evaluations int            `json:"evaluations"`
	Nontrivial  []uint64       `json:"nontrivial"`
	Execs       int            `json:"execs"`
	Labels      map[string]int `json:"labels"`
	Samples     []any          `json:"samples"`
	Failed      bool           `json:"failed"`
	Cut         bool           `json:"cut"` // out of time before all cases were run
	Error       string         `json:"error,omitempty"`
	Wall        float64        `json:"wall"`
}

type runner struct {
	ctx      *Ctx
	out      string
	shard    string
	st       stats
	seen     map[uint64]bool
	fails    int
	lib      bool
	isolate  bool
	deadline time.Time
	beat     atomic.Int64 // processor time used when the present case began
}

func cpuTime() int64 {
	var u syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &u)
	return u.Utime.Nano() + u.Stime.Nano()
}

// watch ends a process whose code under test uses much processor time on a
// case; in-process cases take milliseconds
func (r *runner) watch(seconds int64) {
	r.beat.Store(cpuTime())
	for {
		time.Sleep(time.Second)
		if cpuTime()-r.beat.Load() > seconds*int64(time.Second) {
			fmt.Fprintf(os.Stderr, "no end: over %d s of processor time on one case\n", seconds)
			os.Exit(exitStuck)
		}
	}
}

const (
	exitHarness = 3
	exitStuck   = 4  // the code under test does not return
	exitFailed  = 10 // a case failed; in-process code under test may itself exit with 1
)

func (r *runner) file(kind string) string {
	return filepath.Join(r.out, kind+"-"+strings.ReplaceAll(r.st.Leg, "/", "_")+"-"+r.shard+".json")
}

// guard turns a panic of the code under test (in-process legs) into a failure
func (r *runner) guard(f func() error) (err error) {
	defer func() {
		if p := recover(); p != nil {
			if !r.lib {
				Harness("panic in the harness: %v\n%s", p, debug.Stack())
			}
			err = fmt.Errorf("panic: %v\n%s", p, trunc(string(debug.Stack())))
		}
	}()
	return f()
}

// isolated decides a case in a process of its own, for code under test that
// keeps something from one case to the next
func (r *runner) isolated(l *Leg, data []byte) error {
	r.save("isolated", l, data, "")
	cmd := exec.Command(os.Args[0], "-mode", "replay", "-file", r.file("isolated"), "-scratch", r.ctx.Dir, "-bin", r.ctx.Bin)
	var b bytes.Buffer
	cmd.Stdout, cmd.Stderr = &b, &b
	err := cmd.Run()
	r.ctx.execs.Add(1)
	var x *exec.ExitError
	switch {
	case err == nil:
		for _, line := range strings.Split(b.String(), "\n") {
			if strings.HasPrefix(line, classesPrefix) {
				var k classes
				if err := json.Unmarshal([]byte(line[len(classesPrefix):]), &k); err != nil {
					Harness("%v", err)
				}
				r.ctx.Labels, r.ctx.Nontrivial, r.ctx.Summary = k.Labels, k.Nontrivial, k.Summary
			}
		}
		return nil
	case !errors.As(err, &x) || x.ExitCode() == exitHarness:
		Harness("isolated case: %v\n%s", err, trunc(b.String()))
	}
	return fmt.Errorf("%s", trunc(b.String()))
}

// what an isolated case says of itself
type classes struct {
	Labels     []string
	Nontrivial bool
	Summary    string
}

const classesPrefix = "classes: "

func (r *runner) before(l *Leg, data []byte) {
	r.ctx.clean()
	r.ctx.Labels, r.ctx.Nontrivial, r.ctx.Summary = nil, false, ""
	r.ctx.Env = nil
	if r.lib {
		// a fatal error of the runtime cannot be recovered: leave a trace
		r.save("current", l, data, "the code under test did not return from this case (fatal error, or no end)")
		r.beat.Store(cpuTime())
	}
}

func (r *runner) save(kind string, l *Leg, data []byte, msg string) {
	b, err := json.MarshalIndent(map[string]any{
		"property": l.Prop, "leg": l.ID(), "error": msg, "case": json.RawMessage(data),
	}, "", " ")
	if err != nil {
		Harness("%v", err)
	}
	if err := os.WriteFile(r.file(kind), b, 0o644); err != nil {
		Harness("%v", err)
	}
}

func (r *runner) after(l *Leg, data []byte, err error) {
	if err != nil {
		if r.fails++; r.fails == 1 {
			r.save("first", l, data, err.Error())
		}
		r.save("fail", l, data, err.Error())
	}
	if r.fails > 0 {
		return // shrinking: no longer counted
	}
	h := fnv.New64a()
	h.Write(data)
	k := h.Sum64()
	r.st.Evaluations++
	for _, x := range dedup(r.ctx.Labels) {
		r.st.Labels[x]++
	}
	if r.ctx.Nontrivial && !r.seen[k] {
		r.seen[k] = true
		if n := len(r.seen); n <= 2 || n == 40 || n == 400 {
			if len(data) < 6000 && len(r.st.Samples) < 3 {
				s := map[string]any{"leg": l.ID(), "case": json.RawMessage(append([]byte{}, data...))}
				if r.ctx.Summary != "" {
					s["note"] = r.ctx.Summary
				}
				r.st.Samples = append(r.st.Samples, s)
			}
		}
	}
}

func dedup(s []string) []string {
	s = append([]string{}, s...)
	sort.Strings(s)
	var r []string
	for i, x := range s {
		if i == 0 || s[i-1] != x {
			r = append(r, x)
		}
	}
	return r
}

type tb struct {
	failed bool
	msg    string
}

type tbStop struct{}

func (*tb) Helper()                         {}
func (*tb) Name() string                    { return "leg" }
func (*tb) Logf(format string, args ...any) {}
func (*tb) Log(args ...any)                 {}
func (*tb) Skipf(format string, args ...any) {
	panic(tbStop{})
}
func (*tb) Skip(args ...any) { panic(tbStop{}) }
func (*tb) SkipNow()         { panic(tbStop{}) }
func (b *tb) Errorf(format string, args ...any) {
	b.failed = true
	b.msg = fmt.Sprintf(format, args...)
}
func (b *tb) Error(args ...any) {
	b.failed = true
	b.msg = fmt.Sprint(args...)
}
func (b *tb) Fatalf(format string, args ...any) { b.Errorf(format, args...); panic(tbStop{}) }
func (b *tb) Fatal(args ...any)                 { b.Error(args...); panic(tbStop{}) }
func (b *tb) FailNow()                          { b.failed = true; panic(tbStop{}) }
func (b *tb) Fail()                             { b.failed = true }
func (b *tb) Failed() bool                      { return b.failed }

// Main runs the program of a set of legs
func Main(lib bool) {
	testing.Init()
	mode := flag.String("mode", "run", "run, list or replay")
	legID := flag.String("leg", "", "leg")
	bin := flag.String("bin", "", "gledger under test")
	out := flag.String("out", "", "output directory")
	shard := flag.String("shard", "0", "shard")
	scratch := flag.String("scratch", "", "scratch directory")
	file := flag.String("file", "", "case to replay")
	limit := flag.Int("limit", 0, "seconds after which no new case is begun")
	isolate := flag.Bool("isolate", false, "decide each case in a process of its own")
	flag.Parse()

	if *mode == "list" {
		var ls []map[string]any
		for _, l := range legs {
			ls = append(ls, map[string]any{"id": l.ID(), "prop": l.Prop, "quick": l.Quick, "thorough": l.Thorough, "rule": l.Rule, "raw": l.raw})
		}
		b, _ := json.Marshal(ls)
		fmt.Println(string(b))
		return
	}

	find := func(id string) *Leg {
		for _, l := range legs {
			if l.ID() == id {
				return l
			}
		}
		Harness("no leg %q", id)
		return nil
	}

	dir, err := os.MkdirTemp(*scratch, "case")
	if err != nil {
		Harness("%v", err)
	}
	defer os.RemoveAll(dir)
	r := &runner{ctx: &Ctx{Bin: *bin, Dir: dir}, out: *out, shard: *shard, seen: map[uint64]bool{}, lib: lib, isolate: *isolate}
	r.st.Labels = map[string]int{}
	if lib {
		prlimit(0, rlimitAS, 12<<30)
		go r.watch(20)
	}

	if *mode == "replay" {
		b, err := os.ReadFile(*file)
		if err != nil {
			Harness("%v", err)
		}
		var f struct {
			Leg  string          `json:"leg"`
			Case json.RawMessage `json:"case"`
		}
		if err := json.Unmarshal(b, &f); err != nil {
			Harness("%s: %v", *file, err)
		}
		l := find(f.Leg)
		if err := l.replay(r, f.Case); err != nil {
			fmt.Printf("%s fails:\n%v\n", l.ID(), err)
			os.RemoveAll(dir)
			os.Exit(exitFailed)
		}
		js, err := json.Marshal(classes{r.ctx.Labels, r.ctx.Nontrivial, r.ctx.Summary})
		if err != nil {
			Harness("%v", err)
		}
		fmt.Printf("%s%s\n%s holds\n", classesPrefix, js, l.ID())
		return
	}

	l := find(*legID)
	r.st.Leg, r.st.Rule = l.ID(), l.Rule
	start := time.Now()
	if *limit > 0 {
		r.deadline = start.Add(time.Duration(*limit) * time.Second)
	}
	b := &tb{}
	func() {
		defer func() {
			if p := recover(); p != nil {
				if _, ok := p.(tbStop); !ok {
					Harness("panic in the harness: %v\n%s", p, debug.Stack())
				}
			}
		}()
		rapid.Check(b, func(t *rapid.T) { l.run(t, r) })
	}()
	r.st.Wall = time.Since(start).Seconds()
	r.st.Execs = int(r.ctx.execs.Load())
	r.st.Failed = b.failed
	r.st.Error = b.msg
	for k := range r.seen {
		r.st.Nontrivial = append(r.st.Nontrivial, k)
	}
	js, err := json.Marshal(r.st)
	if err != nil {
		Harness("%v", err)
	}
	if err := os.WriteFile(r.file("stats"), js, 0o644); err != nil {
		Harness("%v", err)
	}
	os.Remove(r.file("current"))
	os.RemoveAll(dir)
	if b.failed {
		if r.fails == 0 {
			Harness("rapid failed without a failing case: %s", b.msg)
		}
		os.Exit(exitFailed)
	}
}
