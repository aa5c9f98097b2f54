package fw

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

// Result is what one run of gledger did
type Result struct {
	Args     []string
	Out, Err string
	Exit     int
	Signal   string
	CPU      time.Duration
	TimedOut bool
	Cut      bool // the output was too long to keep
}

// All returns both streams
func (r *Result) All() string { return r.Out + r.Err }

// HarnessError is a failure of the harness itself, never of gledger
type HarnessError string

// Harness aborts the check with an error that is not a violation. It leaves the
// process at once because rapid would take a panic for a failing case.
func Harness(format string, args ...any) {
	fmt.Fprintf(os.Stderr, "HARNESS-ERROR: "+format+"\n", args...)
	os.Exit(exitHarness)
}

type limited struct {
	b   bytes.Buffer
	max int
	cut bool
}

func (l *limited) Write(p []byte) (int, error) {
	if room := l.max - l.b.Len(); room < len(p) {
		l.cut = true
		if room > 0 {
			l.b.Write(p[:room])
		}
	} else {
		l.b.Write(p)
	}
	return len(p), nil
}

type rlimit struct{ cur, max uint64 }

func prlimit(pid int, res int, lim uint64) {
	r := rlimit{lim, lim}
	syscall.RawSyscall6(syscall.SYS_PRLIMIT64, uintptr(pid), uintptr(res), uintptr(unsafe.Pointer(&r)), 0, 0, 0)
}

const (
	rlimitCPU    = 0
	rlimitNoFile = 7
	rlimitAS     = 9
	cpuLimit     = 20 // seconds of processor time; a normal run takes milliseconds
)

// Ctx is what a case has to work with
type Ctx struct {
	Bin string // the gledger under test
	Dir string // an empty scratch directory, cleaned after each case
	// Env of the runs, apart from PATH and HOME
	Env []string

	Labels     []string
	Nontrivial bool
	execs      atomic.Int64
	Summary    string
	seq        int
	zone       string // the time zone of the runs
}

// Class counts the case under the label
func (c *Ctx) Class(labels ...string) { c.Labels = append(c.Labels, labels...) }

// Write writes a file below the scratch directory and returns its path
func (c *Ctx) Write(name, content string) string {
	p := filepath.Join(c.Dir, name)
	if strings.Contains(name, "/") {
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			Harness("%v", err)
		}
	}
	if err := os.WriteFile(p, []byte(content), 0o644); err != nil {
		Harness("%v", err)
	}
	return p
}

// Decoys writes other journals where a program would look that takes the name
// of a file for another one
func (c *Ctx) Decoys(dir, name string) (made []string) {
	for _, n := range append(Misreadings(name), filepath.Join("..", filepath.Base(name))) {
		p := filepath.Join(c.Dir, dir, n)
		if rel, err := filepath.Rel(c.Dir, p); err != nil || strings.HasPrefix(rel, "..") {
			continue
		}
		if _, err := os.Lstat(p); err == nil {
			continue
		}
		if fi, err := os.Stat(filepath.Dir(p)); err != nil || !fi.IsDir() {
			continue
		}
		if os.WriteFile(p, []byte(Decoy), 0o644) == nil {
			made = append(made, p)
		}
	}
	return made
}

// DirDecoys writes journals with names that a program might look for in a
// directory it is given
func (c *Ctx) DirDecoys(dir string) (made []string) {
	for _, n := range []string{"main.journal", "index.journal", "journal", "ledger.journal", "ledger", ".ledger", ".journal", "all.journal", "root.journal", "default.journal", "main.ledger", "main", "index", ".hledger.journal", "hledger.journal", "gledger.journal", ".gledger.journal", "current.journal", "ledger.dat", "main.ldg", "journal.txt", "main.j", filepath.Base(filepath.Join(c.Dir, dir)) + ".journal", "README", "a.journal", "2020.journal"} {
		p := filepath.Join(c.Dir, dir, n)
		if _, err := os.Lstat(p); err == nil {
			continue
		}
		if os.WriteFile(p, []byte(Decoy), 0o644) == nil {
			made = append(made, p)
		}
	}
	return made
}

// Decoy is a journal that is not to be read
const Decoy = "2020-01-01 decoy\n    Decoy:A    5.00\n    Decoy:B\n\n"

// Mkdir makes a directory below the scratch directory
func (c *Ctx) Mkdir(name string) {
	if err := os.MkdirAll(filepath.Join(c.Dir, name), 0o755); err != nil {
		Harness("%v", err)
	}
}

func (c *Ctx) clean() {
	es, err := os.ReadDir(c.Dir)
	if err != nil {
		Harness("%v", err)
	}
	for _, e := range es {
		os.RemoveAll(filepath.Join(c.Dir, e.Name()))
	}
}

// Gl runs gledger in the scratch directory
func (c *Ctx) Gl(args ...string) *Result { return c.GlEnv(nil, args...) }

// GlStdin runs gledger with the texts, one after the other, on its standard
// input
func (c *Ctx) GlStdin(texts []string, args ...string) *Result {
	return c.run(texts, nil, args)
}

// slow hands out one text at a time
type slow struct {
	texts []string
	wait  bool
}

func (s *slow) Read(p []byte) (int, error) {
	for len(s.texts) > 0 && s.texts[0] == "" {
		s.texts = s.texts[1:]
	}
	if len(s.texts) == 0 {
		return 0, io.EOF
	}
	if s.wait {
		time.Sleep(time.Millisecond)
	}
	s.wait = true
	n := copy(p, s.texts[0])
	s.texts[0] = s.texts[0][n:]
	return n, nil
}

// GlEnv runs gledger with additions to the environment
func (c *Ctx) GlEnv(env []string, args ...string) *Result { return c.run(nil, env, args) }

func (c *Ctx) run(stdin, env, args []string) *Result {
	return c.Run(RunOpt{Stdin: stdin, Env: append(c.PlainEnv(), env...)}, args...)
}

// PlainEnv is the environment of a run
func (c *Ctx) PlainEnv() []string {
	return append([]string{"PATH=/usr/bin:/bin", "HOME=" + c.Dir, "GOMAXPROCS=2", "TZ=" + c.zone}, c.Env...)
}

// RunOpt says how to run gledger
type RunOpt struct {
	Bin    string   // another name of the program
	Argv0  string   // what it is told that it is called
	Dir    string   // the working directory, else the scratch directory
	Env    []string // all of the environment, else PlainEnv
	Stdin  []string // texts for the standard input
	Input  *os.File // or a file to use
	Stdout string   // "file" or "pty", else a pipe
	NoFile int      // how many files it may have open
	Kill   time.Duration
	Plain  bool // without the privileges of the superuser, if that can be done
}

// unprivileged has a process run as the owner of the files and no more
func unprivileged(a *syscall.SysProcAttr) {
	if os.Getuid() == 0 {
		a.Cloneflags = syscall.CLONE_NEWUSER
		a.UidMappings = []syscall.SysProcIDMap{{ContainerID: 1000, HostID: 0, Size: 1}}
		a.GidMappings = []syscall.SysProcIDMap{{ContainerID: 1000, HostID: 0, Size: 1}}
	}
}

// Unprivileged says if a process that may not read a file without permission
// can be had here
var Unprivileged = sync.OnceValue(func() bool {
	f, err := os.CreateTemp("", "verif-forbidden-")
	if err != nil {
		return false
	}
	defer os.Remove(f.Name())
	f.Close()
	if os.Chmod(f.Name(), 0) != nil {
		return false
	}
	cat := func(file string) error {
		cmd := exec.Command("cat", file)
		cmd.SysProcAttr = &syscall.SysProcAttr{}
		unprivileged(cmd.SysProcAttr)
		return cmd.Run()
	}
	return cat("/dev/null") == nil && cat(f.Name()) != nil
})

// Run runs gledger
func (c *Ctx) Run(o RunOpt, args ...string) *Result {
	for _, a := range args {
		if strings.ContainsRune(a, 0) {
			Harness("argument with NUL: %q", args)
		}
	}
	for attempt := 0; ; attempt++ {
		c.execs.Add(1)
		cmd := exec.Command(c.Bin, args...)
		if o.Bin != "" {
			cmd = exec.Command(o.Bin, args...)
		}
		if o.Argv0 != "" {
			cmd.Args[0] = o.Argv0
		}
		cmd.Dir = c.Dir
		if o.Dir != "" {
			cmd.Dir = o.Dir
		}
		if o.Stdin != nil {
			cmd.Stdin = &slow{texts: append([]string{}, o.Stdin...)}
		} else if o.Input != nil {
			cmd.Stdin = o.Input
		}
		cmd.Env = o.Env
		if cmd.Env == nil {
			cmd.Env = c.PlainEnv()
		}
		out, errb := &limited{max: 32 << 20}, &limited{max: 1 << 20}
		cmd.Stdout, cmd.Stderr = out, errb
		var master, slave *os.File
		var file string
		read := make(chan struct{})
		switch o.Stdout {
		case "file":
			file = filepath.Join(filepath.Dir(c.Dir), fmt.Sprintf("out-%s-%d", filepath.Base(c.Dir), c.execs.Load()))
			f, err := os.Create(file)
			if err != nil {
				Harness("%v", err)
			}
			slave, cmd.Stdout = f, f
		case "pty":
			var err error
			if master, slave, err = Pty(); err == nil {
				cmd.Stdout = slave
			}
		}
		cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
		if o.Plain && Unprivileged() {
			unprivileged(cmd.SysProcAttr)
		}
		err := cmd.Start()
		if slave != nil {
			slave.Close()
		}
		if master != nil {
			go func() {
				io.Copy(out, master) // until the slave is closed
				master.Close()
				close(read)
			}()
		}
		if err != nil {
			if file != "" {
				os.Remove(file)
			}
			if attempt < 3 && (errors.Is(err, syscall.EAGAIN) || errors.Is(err, syscall.ENOMEM) || errors.Is(err, syscall.ETXTBSY)) {
				time.Sleep(200 * time.Millisecond)
				continue
			}
			Harness("cannot run gledger: %v", err)
		}
		prlimit(cmd.Process.Pid, rlimitCPU, cpuLimit)
		prlimit(cmd.Process.Pid, rlimitAS, 3<<30)
		if o.NoFile > 0 {
			prlimit(cmd.Process.Pid, rlimitNoFile, uint64(o.NoFile))
		}
		if o.Kill > 0 {
			k := time.AfterFunc(o.Kill, func() { cmd.Process.Kill() })
			defer k.Stop()
		}
		timedOut := false
		timer := time.AfterFunc(120*time.Second, func() {
			timedOut = true
			cmd.Process.Kill()
		})
		err = cmd.Wait()
		timer.Stop()
		if master != nil {
			<-read
		}
		if file != "" {
			if b, err := os.ReadFile(file); err == nil {
				out.Write(b)
			}
			os.Remove(file)
		}
		r := &Result{Args: args, Out: out.b.String(), Err: errb.b.String(), Cut: out.cut || errb.cut, TimedOut: timedOut}
		if cmd.ProcessState == nil {
			Harness("cannot wait for gledger: %v", err)
		}
		r.CPU = cmd.ProcessState.UserTime() + cmd.ProcessState.SystemTime()
		ws, _ := cmd.ProcessState.Sys().(syscall.WaitStatus)
		if ws.Signaled() {
			r.Signal = ws.Signal().String()
			r.Exit = -1
			if o.Kill == 0 && ws.Signal() == syscall.SIGKILL && r.CPU < (cpuLimit-2)*time.Second {
				// not our processor time limit: the machine ended it
				if attempt < 2 {
					time.Sleep(time.Second)
					continue
				}
				if !timedOut {
					Harness("gledger was killed from outside (%v, %v of processor time)", args, r.CPU)
				}
			}
		} else {
			r.Exit = ws.ExitStatus()
		}
		return r
	}
}

// Crash reports a crash, a hang or endless output
func (r *Result) Crash() error {
	cmd := fmt.Sprintf("gledger %q", r.Args)
	short := func(s string) string {
		if len(s) > 600 {
			return s[:600] + "..."
		}
		return s
	}
	if r.TimedOut && r.CPU < 10*time.Second {
		Harness("%s took over 120 s but used only %v of processor time", cmd, r.CPU)
	}
	if r.TimedOut || r.CPU >= (cpuLimit-2)*time.Second {
		return fmt.Errorf("%s does not end: %v of processor time used", cmd, r.CPU)
	}
	if r.Signal != "" {
		return fmt.Errorf("%s died from a signal: %s\n%s", cmd, r.Signal, short(r.Err))
	}
	for _, s := range []string{"panic: ", "fatal error: ", "runtime: goroutine stack exceeds"} {
		if i := strings.Index(r.Err, s); i >= 0 && (strings.Contains(r.Err, "goroutine ") || strings.Contains(r.Err, "runtime")) {
			return fmt.Errorf("%s crashed: %s", cmd, short(r.Err[i:]))
		}
	}
	if r.Cut {
		return fmt.Errorf("%s printed without end", cmd)
	}
	return nil
}

// OK runs gledger where a report is due and returns the report
func (c *Ctx) OK(args ...string) (string, error) {
	r := c.Gl(args...)
	return r.OK()
}

// OK returns the report, or an error if there was none
func (r *Result) OK() (string, error) {
	if err := r.Crash(); err != nil {
		return "", err
	}
	if r.Exit != 0 || r.Err != "" {
		return "", fmt.Errorf("gledger %q failed on a good journal (exit %d): %s%s", r.Args, r.Exit, r.Err, r.Out)
	}
	if strings.HasPrefix(r.Out, "error at ") {
		return "", fmt.Errorf("gledger %q rejected a good journal: %s", r.Args, r.Out)
	}
	return r.Out, nil
}

// reportMarks say how to see a (part of a) report of each command
func reportIn(command, out string) string {
	for _, l := range strings.Split(out, "\n") {
		switch command {
		case "print":
			if len(l) > 11 && printHeader.MatchString(l) {
				return l
			}
		case "balance":
			if dashesRE.MatchString(l) || balanceish(l) {
				return l
			}
		case "statistics":
			if strings.HasPrefix(l, "Transactions") || strings.HasPrefix(l, "No transactions matched") || strings.HasPrefix(l, "Age of money") {
				return l
			}
		case "budget":
			if strings.Contains(l, "Funds |") || strings.HasPrefix(l, "Category") {
				return l
			}
		}
	}
	return ""
}

func balanceish(l string) bool {
	return len(l) > 22 && l[0] == ' ' && totalRE.MatchString(strings.TrimRight(l[:20], " ")) && l[20:22] == "  "
}

// Refused checks that a run printed an error and no part of a report. The
// names are those the accounts and payees reports could list.
func (r *Result) Refused(command string, names []string) error {
	if err := r.Crash(); err != nil {
		return err
	}
	cmd := fmt.Sprintf("gledger %q", r.Args)
	if strings.TrimSpace(r.All()) == "" {
		return fmt.Errorf("%s printed no error", cmd)
	}
	if s := reportIn(command, r.Out); s != "" {
		return fmt.Errorf("%s printed (part of) a report: %q\n%s", cmd, s, trunc(r.All()))
	}
	if command == "accounts" || command == "payees" {
		for _, l := range strings.Split(r.Out, "\n") {
			for _, n := range names {
				if l == n && n != "" && !inDict(n) {
					return fmt.Errorf("%s printed (part of) a report: %q\n%s", cmd, l, trunc(r.All()))
				}
			}
		}
	}
	return nil
}

func trunc(s string) string {
	if len(s) > 1500 {
		return s[:1500] + "..."
	}
	return s
}

// Trunc shortens a text for a message
func Trunc(s string) string { return trunc(s) }
