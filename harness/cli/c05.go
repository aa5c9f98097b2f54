package main

import (
	"fmt"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"

	"pgregory.net/rapid"
	"verifharness/fw"
)

const rootFile = fw.RootFile

var (
	drawTree    = fw.DrawTree
	putTree     = fw.PutTree
	throughDirs = fw.ThroughDirs
)

type treeCase struct {
	Root     *fw.FileNode `json:"root"`
	Layout   []byte       `json:"layout,omitempty"`
	Sel      fw.Sel       `json:"sel"`
	Commands []string     `json:"commands"`
	Abs      bool         `json:"abs"`
}

func filesPart(out string) (files, rest string) {
	for _, l := range strings.SplitAfter(out, "\n") {
		if strings.HasPrefix(l, "Transactions found in") || strings.HasPrefix(l, "  ") {
			files += l
		} else {
			rest += l
		}
	}
	return
}

func init() {
	fw.Register("C05", "inline", 6000, 70000,
		"a journal of 1-10 entries spread over a tree of up to 12 files and 5 levels (sometimes a chain of 70 files or a fan of 200; names with spaces, sub-directories, .. and ./, empty files, files included twice), whose reports must equal those of the same journal in one file and whose statistics must list the right files; non-trivial if three files or more hold entries or there are three levels",
		func(t *rapid.T) treeCase {
			o := fw.Opt{Min: 1, Max: 10, Rich: true, Commodity: true, Allocs: true, Money: rapid.Bool().Draw(t, "money"), Far: fw.Chance(t, 4, "far")}
			v := fw.NewVocab(t, o)
			es := fw.Entries(t, v, o)
			k := treeCase{Root: drawTree(t, es), Layout: fw.DrawLayout(t), Commands: drawVariants(t, 3), Abs: rapid.Bool().Draw(t, "abs")}
			if fw.Chance(t, 3, "select") {
				k.Sel = fw.DrawSel(t, es, 2)
			}
			return k
		},
		func(c *fw.Ctx, k *treeCase) error {
			es, files := k.Root.Flatten()
			shown := putTree(c, k.Root, k.Layout)
			flat := fw.Render(es, nil, false)
			c.Write("flat.journal", flat)
			held := len(fw.Distinct(files))
			c.Nontrivial = held >= 3 || (held >= 2 && k.Root.Depth() >= 3)
			if d := k.Root.Depth(); d > 5 {
				c.Class("levels:6+")
			} else {
				c.Class(fmt.Sprintf("levels:%d", d))
			}
			if held > 9 {
				held = 10
			}
			c.Class(fmt.Sprintf("files with entries:%d", held))
			root := rootFile
			if k.Abs {
				root = filepath.Join(c.Dir, rootFile)
			}
			bad := func(err error) error {
				return fmt.Errorf("%w\n%s", err, shown)
			}
			cmds := append([]string{}, k.Commands...)
			cmds = append(cmds, "[statistics]")
			for _, name := range cmds {
				v := variant(name)
				a, err := c.OK(args(v, "-f", "flat.journal", k.Sel.Args())...)
				if err != nil {
					return with("one file", err, flat)
				}
				b, err := c.OK(args(v, "-f", root, k.Sel.Args())...)
				if err != nil {
					return bad(err)
				}
				if v[0] == "statistics" {
					_, a = filesPart(a)
					s, err := fw.ParseStats(b)
					if err != nil {
						return bad(err)
					}
					_, b = filesPart(b)
					if err := wantFiles(c, s, es, files, k.Sel); err != nil {
						return bad(err)
					}
				}
				if err := diffText(fmt.Sprintf("%v of one file and of the tree", v), a, b); err != nil {
					return bad(err)
				}
			}
			return nil
		})

	fw.Register("C05", "refuse", 5000, 50000,
		"a tree of files with an include directive, somewhere, of a missing file, a directory, or (through up to four files and differently written paths) a file that is being read, given to one of the report commands; every case is non-trivial",
		func(t *rapid.T) badTreeCase {
			o := fw.Opt{Min: 1, Max: 6, Commodity: true}
			v := fw.NewVocab(t, o)
			es := fw.Entries(t, v, o)
			k := badTreeCase{Root: drawTree(t, es), Layout: fw.DrawLayout(t), Command: fw.OneOf(t, "command", reports...)}
			fs := k.Root.Files()
			k.At = fw.Int(t, 0, len(fs)-1, "file")
			k.Pos = fw.Int(t, 0, len(fs[k.At].Items), "position")
			k.Kind = fw.OneOf(t, "kind", "missing", "missing directory", "directory", "itself", "parent", "ancestor", "root")
			k.Via = fw.OneOf(t, "via", "", "./", "sub/../", "sub/./../")
			if k.Kind == "missing" {
				k.Name = fw.OneOf(t, "missing", "", "", "no-such.journal", "no such", "No.Such", "*.jou*", "no?.j", "~/main.journal", "$HOME/main.journal", "file:main.journal", "\"main.journal\"", "'main.journal'", "main.journal#", "main.journal:1", "ma\\in.journal", "%6dain.journal", "[m]ain.journal", "{main,x}.journal", "MAIN.JOURNAL", "main", "main.", "main.journal.gz", "-", "main.journal,main.journal")
			}
			return k
		},
		checkBadTree)
}

func wantFiles(c *fw.Ctx, s fw.Stats, es []fw.Entry, files []string, sel fw.Sel) error {
	var ts []*fw.Txn
	var tf []string
	for i, e := range es {
		if e.T != nil {
			ts = append(ts, e.T)
			tf = append(tf, files[i])
		}
	}
	var want []string
	for _, p := range fw.Select(ts, sel) {
		want = append(want, tf[p.Index])
	}
	want = fw.Distinct(want)
	if s.Empty {
		if len(want) > 0 {
			return fmt.Errorf("statistics say that no transactions matched")
		}
		return nil
	}
	var got []string
	for _, f := range s.Files {
		f = filepath.Clean(f)
		if filepath.IsAbs(f) {
			r, err := filepath.Rel(c.Dir, f)
			if err != nil {
				return err
			}
			f = r
		}
		got = append(got, f)
	}
	sort.Strings(got)
	if s.NFiles != len(want) || strings.Join(got, "\n") != strings.Join(want, "\n") {
		return fmt.Errorf("statistics list %d files %q, want %q", s.NFiles, got, want)
	}
	return nil
}

type badTreeCase struct {
	Root    *fw.FileNode `json:"root"`
	Layout  []byte       `json:"layout,omitempty"`
	At      int          `json:"at"`
	Pos     int          `json:"pos"`
	Kind    string       `json:"kind"`
	Via     string       `json:"via"`
	Name    string       `json:"name,omitempty"` // of the missing file
	Command string       `json:"command"`
}

func parents(f *fw.FileNode, above []*fw.FileNode, m map[string][]*fw.FileNode) {
	if m[f.Path] == nil {
		m[f.Path] = append([]*fw.FileNode{}, above...)
	}
	for _, it := range f.Items {
		if it.Inc != nil {
			parents(it.Inc, append(above, f), m)
		}
	}
}

func checkBadTree(c *fw.Ctx, k *badTreeCase) error {
	f := k.Root.Files()[k.At]
	m := map[string][]*fw.FileNode{}
	parents(k.Root, nil, m)
	above := m[f.Path]
	rel := func(n *fw.FileNode) string {
		r, err := filepath.Rel(path.Dir(f.Path), n.Path)
		if err != nil {
			fw.Harness("%v", err)
		}
		return r
	}
	var ref string
	switch k.Kind {
	case "missing":
		ref = "no such file.journal"
		if k.Name != "" {
			ref = k.Name
		}
		for _, n := range k.Root.Files() {
			if path.Join(path.Dir(f.Path), ref) == n.Path {
				ref = "no such file.journal"
			}
		}
	case "missing directory":
		ref = "no/such/dir/x.journal"
	case "directory":
		ref = "sub"
	case "itself":
		ref = rel(f)
	case "parent":
		ref = rel(f)
		if len(above) > 0 {
			ref = rel(above[len(above)-1])
		}
	case "ancestor":
		ref = rel(f)
		if len(above) > 0 {
			ref = rel(above[len(above)/2])
		}
	case "root":
		ref = rel(k.Root)
	}
	c.Class("kind:"+k.Kind, "command:"+k.Command, fmt.Sprintf("below:%d", len(above)))
	c.Nontrivial = true
	es, _ := k.Root.Flatten()
	pos := k.Pos
	// the same file may be in the tree twice
	for _, n := range k.Root.Files() {
		if n.Path == f.Path {
			n.Items = append(n.Items[:pos:pos], append([]fw.Item{{Inc: &fw.FileNode{Path: "\x00"}, Ref: k.Via + ref}}, n.Items[pos:]...)...)
		}
	}
	mm := map[string]string{}
	l := fw.NewLayout(k.Layout)
	shown := ""
	for _, n := range k.Root.Files() {
		if n.Path == "\x00" || mm[n.Path] != "" {
			continue
		}
		mm[n.Path] = l.Text(l.Lines(n))
		c.Write(n.Path, mm[n.Path])
		c.Mkdir(path.Join(path.Dir(n.Path), "sub"))
		shown += fmt.Sprintf(" file %s:\n%s", n.Path, fw.Show(mm[n.Path]))
		for _, it := range n.Items {
			if it.Inc != nil && it.Inc.Path != "\x00" {
				throughDirs(c, n.Path, it.Ref)
			}
		}
	}
	// what the directive does not name
	switch k.Kind {
	case "missing", "missing directory":
		c.Decoys(path.Dir(f.Path), ref)
		if path.Dir(f.Path) != "." {
			c.Decoys(".", ref)
			if _, err := os.Lstat(filepath.Join(c.Dir, ref)); err != nil {
				os.WriteFile(filepath.Join(c.Dir, ref), []byte(fw.Decoy), 0o644)
			}
		}
	case "directory":
		c.DirDecoys(path.Join(path.Dir(f.Path), ref))
	}
	r := c.Gl(k.Command, "-f", rootFile)
	if err := r.Refused(k.Command, append(names(es), "Decoy:A", "decoy")); err != nil {
		return fmt.Errorf("include of %s (%s) in %s: %w\n%s", k.Via+ref, k.Kind, f.Path, err, shown)
	}
	return nil
}
