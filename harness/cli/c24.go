package main

import (
	"fmt"
	"io/fs"
	"os"
	"path"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"pgregory.net/rapid"
	"verifharness/fw"
)

// histStep is a step of a history of one directory
type histStep struct {
	Op   string    `json:"op"` // run, together, killed or edit
	Runs []histRun `json:"runs,omitempty"`
	To   int       `json:"to,omitempty"` // the version to put there
	Wait int       `json:"wait,omitempty"`
}

type histRun struct {
	Args  []string `json:"args"`
	ByEnv bool     `json:"byEnv,omitempty"`
	Stdin bool     `json:"stdin,omitempty"`
}

type histVersion struct {
	Root   *fw.FileNode `json:"root"`
	Layout []byte       `json:"layout,omitempty"`
	Bad    bool         `json:"bad,omitempty"`
}

type histCase struct {
	Versions []histVersion `json:"versions"`
	Same     bool          `json:"same,omitempty"` // the versions' files have one size and time
	Steps    []histStep    `json:"steps"`
}

func drawRun(t *rapid.T, es []fw.Entry) histRun {
	v := rapid.SampledFrom(variants).Draw(t, "variant")
	r := histRun{Args: args(v)}
	switch fw.Int(t, 0, 9, "arguments") {
	case 0, 1, 2:
		r.Args = append(r.Args, fw.DrawSel(t, es, 2).Args()...)
	case 3:
		r.Args = append(r.Args, fw.OneOf(t, "bad", "--no-such-flag", "--begin=never", "-F=x", "(", "--help"))
	case 4:
		r.Args = fw.OneOf(t, "other", []string{"help"}, []string{"--version"}, []string{"nonsense"}, []string{}, []string{"help", "print"})
	case 5:
		r.Args = append(r.Args, "--no-pager-x")
	}
	switch fw.Int(t, 0, 5, "by") {
	case 0:
		r.ByEnv = true
	case 1:
		r.Args = append(r.Args, "-f", "no-such-file")
	case 2:
		r.Args, r.Stdin = append(r.Args, "-f", "/dev/stdin"), true
	default:
		r.Args = append(r.Args, "-f", rootFile)
	}
	return r
}

// amounts changes some amounts and payees of the entries to others as long
func changed(t *rapid.T, f *fw.FileNode, seen map[*fw.FileNode]bool) *fw.FileNode {
	g := &fw.FileNode{Path: f.Path}
	for _, it := range f.Items {
		if it.Inc != nil {
			it.Inc = changed(t, it.Inc, seen)
		} else if it.E.T != nil {
			e := *it.E.T
			e.Postings = append([]fw.Posting{}, e.Postings...)
			if fw.Chance(t, 2, "payee") {
				r := []rune(e.Payee)
				if c := r[len(r)-1]; c >= 'a' && c <= 'y' {
					r[len(r)-1] = c + 1
					e.Payee = string(r)
				}
			}
			if fw.Chance(t, 2, "amounts") {
				for i := range e.Postings {
					e.Postings[i].Q = -e.Postings[i].Q
				}
			}
			it.E = &fw.Entry{T: &e}
		}
		g.Items = append(g.Items, it)
	}
	return g
}

func init() {
	fw.Register("C24", "history", 1500, 30000,
		"a directory with a journal of 1-8 entries in a tree of files, and one or two other versions of it, alike or not, sometimes with files of the same sizes and times, sometimes bad; 2-8 steps that run a command there (with filters, bad arguments, a missing file or the journal on standard input), run two to four at once, kill one, or put another version in place; each output must be that of the same run in a fresh copy of what the directory is to hold, and no run may create, change or remove a file; non-trivial if a run follows an edit",
		func(t *rapid.T) histCase {
			o := fw.Opt{Min: 1, Max: 8, Rich: true, Commodity: true, Allocs: true}
			v := fw.NewVocab(t, o)
			es := fw.Entries(t, v, o)
			b := fw.NewTree(t)
			k := histCase{Same: rapid.Bool().Draw(t, "same")}
			first := histVersion{Root: b.Grow(rootFile, es, fw.Int(t, 0, 3, "depth")), Layout: fw.DrawLayout(t)}
			k.Versions = append(k.Versions, first)
			all := es
			for n := fw.Int(t, 1, 2, "versions"); n > 0; n-- {
				x := histVersion{Layout: first.Layout}
				switch fw.Int(t, 0, 3, "kind") {
				case 0, 1:
					x.Root = changed(t, first.Root, nil)
				case 2:
					es := fw.Entries(t, v, o)
					all = append(all[:len(all):len(all)], es...)
					x.Root = fw.NewTree(t).Grow(rootFile, es, fw.Int(t, 0, 3, "depth"))
				case 3:
					x.Root, x.Bad = first.Root, true
				}
				k.Versions = append(k.Versions, x)
			}
			for n := fw.Int(t, 2, 8, "steps"); n > 0; n-- {
				switch fw.Int(t, 0, 6, "op") {
				case 0, 1, 2:
					k.Steps = append(k.Steps, histStep{Op: "run", Runs: []histRun{drawRun(t, all)}})
				case 3:
					s := histStep{Op: "together"}
					for m := fw.Int(t, 2, 4, "runs"); m > 0; m-- {
						s.Runs = append(s.Runs, drawRun(t, all))
					}
					k.Steps = append(k.Steps, s)
				case 4:
					k.Steps = append(k.Steps, histStep{Op: "killed", Runs: []histRun{drawRun(t, all)}, Wait: fw.Int(t, 1, 4000, "wait")})
				default:
					k.Steps = append(k.Steps, histStep{Op: "edit", To: fw.Int(t, 0, len(k.Versions)-1, "to")})
					if n == 1 {
						n++ // look at it
					}
				}
			}
			return k
		}, checkHistory)
}

// snapshot says what is below a directory
func snapshot(dir string) map[string]string {
	m := map[string]string{}
	filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			m[p] = err.Error()
			return nil
		}
		i, err := d.Info()
		if err != nil {
			m[p] = err.Error()
			return nil
		}
		s := fmt.Sprintf("%v %v", i.Mode(), i.ModTime())
		if i.Mode().IsRegular() {
			b, _ := os.ReadFile(p)
			s += "\n" + string(b)
		}
		m[strings.TrimPrefix(p, dir)] = s
		return nil
	})
	return m
}

func diffSnapshot(a, b map[string]string) error {
	for _, p := range fw.SortedKeys(a) {
		if x, ok := b[p]; !ok {
			return fmt.Errorf("%q is gone", p)
		} else if x != a[p] {
			return fmt.Errorf("%q has changed from\n%s\nto\n%s", p, fw.Trunc(a[p]), fw.Trunc(x))
		}
	}
	for _, p := range fw.SortedKeys(b) {
		if _, ok := a[p]; !ok {
			return fmt.Errorf("%q was made: %s", p, fw.Trunc(b[p]))
		}
	}
	return nil
}

func checkHistory(c *fw.Ctx, k *histCase) error {
	texts := make([]map[string]string, len(k.Versions))
	size := map[string]int{}
	for i, v := range k.Versions {
		m := fw.RenderTree(v.Root, v.Layout, false)
		if v.Bad {
			m[rootFile] += "\n\nno line of a journal\n"
		}
		texts[i] = m
		for p, s := range m {
			size[p] = max(size[p], len(s)+3)
		}
	}
	if k.Same {
		for _, m := range texts {
			for p, s := range m {
				m[p] = s + "\n;" + strings.Repeat("x", size[p]-len(s)-3) + "\n"
			}
		}
	}
	when := time.Now().Add(-48 * time.Hour).Truncate(time.Second)
	lay := func(dir string, i int, fresh bool) {
		for _, p := range fw.SortedKeys(texts[i]) {
			full := c.Write(path.Join(dir, p), texts[i][p])
			if k.Same && !fresh {
				os.Chtimes(full, when, when)
			}
		}
		for _, n := range k.Versions[i].Root.Files() {
			for _, it := range n.Items {
				if it.Inc != nil {
					throughDirs(c, path.Join(dir, n.Path), it.Ref)
				}
			}
		}
		c.Mkdir(path.Join(dir, "home"))
		c.Mkdir(path.Join(dir, "tmp"))
	}
	run := func(dir string, i int, r histRun, kill time.Duration) *fw.Result {
		d := filepath.Join(c.Dir, dir)
		o := fw.RunOpt{Dir: d, Kill: kill, Env: []string{"PATH=/usr/bin:/bin", "GOMAXPROCS=2", "TZ=UTC", "HOME=" + d + "/home", "TMPDIR=" + d + "/tmp"}}
		if r.ByEnv {
			o.Env = append(o.Env, "LEDGER_FILE="+rootFile)
		}
		if r.Stdin {
			o.Stdin = []string{texts[i][rootFile]}
		}
		return c.Run(o, r.Args...)
	}
	out := func(r *fw.Result, dir string) string {
		s := strings.ReplaceAll(r.Out+"\n--- errors\n"+r.Err, filepath.Join(c.Dir, dir)+"/", "@/")
		return fw.NoRelTime(s)
	}
	now, made, edits := 0, 0, 0
	lay("h", 0, false)
	before := snapshot(filepath.Join(c.Dir, "h"))
	var did []string
	bad := func(err error) error {
		var s string
		for i, m := range texts {
			for _, p := range fw.SortedKeys(m) {
				s += fmt.Sprintf(" version %d, file %s:\n%s", i, p, fw.Show(m[p]))
			}
		}
		return fmt.Errorf("%w\nafter %q\n%s", err, did, s)
	}
	// the runs in fresh copies, made once for each
	wanted := map[string]string{}
	fresh := func(r histRun) string {
		key := fmt.Sprint(now, r)
		if s, ok := wanted[key]; ok {
			return s
		}
		made++
		d := fmt.Sprintf("f%d", made)
		lay(d, now, true)
		wanted[key] = out(run(d, now, r, 0), d)
		os.RemoveAll(filepath.Join(c.Dir, d))
		return wanted[key]
	}
	for _, s := range k.Steps {
		c.Class(s.Op)
		if s.Op == "edit" {
			// the files of the last version go
			for p := range texts[now] {
				if _, ok := texts[s.To][p]; !ok {
					os.Remove(filepath.Join(c.Dir, "h", p))
				}
			}
			if s.To != now {
				edits++
			}
			now = s.To
			lay("h", now, false)
			before = snapshot(filepath.Join(c.Dir, "h"))
			did = append(did, fmt.Sprintf("edit to version %d", now))
			continue
		}
		if edits > 0 {
			c.Nontrivial = true
		}
		rs := make([]*fw.Result, len(s.Runs))
		var wg sync.WaitGroup
		for i, r := range s.Runs {
			did = append(did, fmt.Sprintf("%s %q", s.Op, r.Args))
			wg.Add(1)
			go func() {
				defer wg.Done()
				rs[i] = run("h", now, r, time.Duration(s.Wait)*time.Microsecond)
			}()
		}
		wg.Wait()
		if s.Op != "killed" {
			for i, r := range s.Runs {
				if err := rs[i].Crash(); err != nil {
					return bad(err)
				}
				if err := diffText(fmt.Sprintf("gledger %q in a fresh copy and in the directory with this history", r.Args), fresh(r), out(rs[i], "h")); err != nil {
					return bad(err)
				}
			}
		}
		if err := diffSnapshot(before, snapshot(filepath.Join(c.Dir, "h"))); err != nil {
			return bad(err)
		}
	}
	return nil
}
