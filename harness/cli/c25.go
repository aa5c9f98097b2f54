package main

import (
	"fmt"
	"os"
	"path"
	"path/filepath"
	"strings"
	"syscall"

	"pgregory.net/rapid"
	"verifharness/fw"
)

// unreadableCase is a journal one file of which cannot be read
type unreadableCase struct {
	Root    *fw.FileNode `json:"root"`
	Layout  []byte       `json:"layout,omitempty"`
	At      int          `json:"at"`  // the file that includes it, -1 if it is the first one
	Pos     int          `json:"pos"` // where
	Kind    string       `json:"kind"`
	Command string       `json:"command"`
	Sel     fw.Sel       `json:"sel"`
	ByEnv   bool         `json:"byEnv"`
	Abs     bool         `json:"abs"`
	// Name of what cannot be read, if not the usual one
	Name string `json:"name,omitempty"`
}

func init() {
	fw.Register("C25", "unreadable", 5000, 80000,
		"a journal of 1-6 entries in a tree of files, the first of which or a further one, included anywhere, cannot be read: its name leads to something that opens but fails to read, a directory, nothing, itself, a socket, through a file, is too long, or there is no permission to read it; given to any report command, with filters and dates or none; an error and no part of a report are due; every case is non-trivial",
		func(t *rapid.T) unreadableCase {
			o := fw.Opt{Min: 1, Max: 6, Commodity: true, Rich: true, Allocs: true}
			v := fw.NewVocab(t, o)
			es := fw.Entries(t, v, o)
			k := unreadableCase{Root: drawTree(t, es), Layout: fw.DrawLayout(t), Command: fmt.Sprint(rapid.SampledFrom(variants).Draw(t, "command")), ByEnv: rapid.Bool().Draw(t, "byEnv"), Abs: rapid.Bool().Draw(t, "abs")}
			k.Kind = fw.OneOf(t, "kind", "fails", "fails", "fails", "directory", "linked directory", "dangling", "loop", "socket", "through a file", "too long", "fails otherwise", "forbidden", "forbidden directory")
			if fw.Chance(t, 2, "another name") {
				k.Name = fw.OneOf(t, "name", "u/main.journal.d", "u/x.d", "2020", "u/a", "inc", ".j", "u/x.journal", "u/old.dat", "données", "u/x y", "u/x.gz", "u/x~", "u/x.bak", "u/Main.Journal", "u/x.txt", "u/include", "u/..x", "u/budget.ledger", "u.d/x")
			}
			k.At = -1
			if fw.Chance(t, 4, "included") == false {
				fs := k.Root.Files()
				k.At = fw.Int(t, 0, len(fs)-1, "file")
				k.Pos = fw.Int(t, 0, len(fs[k.At].Items), "position")
			}
			if fw.Chance(t, 2, "select") {
				k.Sel = fw.DrawSel(t, es, 2)
			}
			return k
		}, checkUnreadable)
}

// unreadable makes something that cannot be read and returns its name
func unreadable(c *fw.Ctx, p, kind string) string {
	full := filepath.Join(c.Dir, p)
	must := func(err error) {
		if err != nil {
			fw.Harness("%v", err)
		}
	}
	must(os.MkdirAll(filepath.Dir(full), 0o755))
	os.Remove(full)
	switch kind {
	case "fails":
		// this opens but reading it is an error
		must(os.Symlink("/proc/self/clear_refs", full))
	case "fails otherwise":
		// so does this
		must(os.Symlink("/proc/thread-self/clear_refs", full))
	case "directory", "linked directory":
		must(os.MkdirAll(full+".dir", 0o755))
		c.DirDecoys(p + ".dir")
		if kind == "directory" {
			must(os.Rename(full+".dir", full))
		} else {
			must(os.Symlink(filepath.Base(full)+".dir", full))
		}
	case "dangling":
		must(os.Symlink("gone", full))
	case "loop":
		must(os.Symlink(filepath.Base(full), full))
	case "socket":
		fd, err := syscall.Socket(syscall.AF_UNIX, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
		must(err)
		defer syscall.Close(fd)
		// by a short name, as the length of a socket's is limited
		if syscall.Bind(fd, &syscall.SockaddrUnix{Name: filepath.Join(c.Dir, "sock")}) != nil {
			must(os.Symlink("gone", full))
		} else {
			must(os.Rename(filepath.Join(c.Dir, "sock"), full))
		}
	case "forbidden", "forbidden directory":
		if !fw.Unprivileged() {
			must(os.Symlink("gone", full))
			break
		}
		if kind == "forbidden" {
			c.Write(p, fw.Decoy)
			must(os.Chmod(full, 0))
			break
		}
		c.Write(p+".d/x.journal", fw.Decoy)
		must(os.Chmod(full+".d", 0))
		return p + ".d/x.journal"
	case "through a file":
		c.Write(p, fw.Decoy)
		return p + "/x.journal"
	case "too long":
		c.Write(p, fw.Decoy)
		return path.Join(path.Dir(p), strings.Repeat("long", 100))
	}
	return p
}

func checkUnreadable(c *fw.Ctx, k *unreadableCase) error {
	c.Nontrivial = true
	v := variant(k.Command)
	c.Class("kind:"+k.Kind, "command:"+v[0])
	fs := k.Root.Files()
	es, _ := k.Root.Flatten()
	where := "the first file"
	root := rootFile
	const bad = "\x00"
	if k.At >= 0 {
		f := fs[k.At]
		where = f.Path
		// the same file may be in the tree twice
		for _, n := range fs {
			if n.Path == f.Path {
				pos := min(k.Pos, len(n.Items))
				n.Items = append(n.Items[:pos:pos], append([]fw.Item{{Inc: &fw.FileNode{Path: bad}, Ref: bad}}, n.Items[pos:]...)...)
			}
		}
		c.Class("included")
	} else {
		c.Class("first")
	}
	name, base := "", "unreadable.journal"
	if k.Name != "" {
		// beside the files of the tree, which may be called this
		base = path.Join("unread", k.Name)
	}
	if k.At >= 0 {
		p := unreadable(c, path.Join(path.Dir(fs[k.At].Path), base), k.Kind)
		r, err := filepath.Rel(path.Dir(fs[k.At].Path), p)
		if err != nil {
			fw.Harness("%v", err)
		}
		name = r
	}
	l := fw.NewLayout(k.Layout)
	mm := map[string]string{}
	shown := ""
	for _, n := range k.Root.Files() {
		if n.Path == bad || mm[n.Path] != "" {
			continue
		}
		for i := range n.Items {
			if n.Items[i].Ref == bad {
				n.Items[i].Ref = name
			}
		}
		mm[n.Path] = l.Text(l.Lines(n))
		c.Write(n.Path, mm[n.Path])
		shown += fmt.Sprintf(" file %s:\n%s", n.Path, fw.Show(mm[n.Path]))
		for _, it := range n.Items {
			if it.Inc != nil && it.Inc.Path != bad {
				throughDirs(c, n.Path, it.Ref)
			}
		}
	}
	if k.At < 0 {
		root = unreadable(c, path.Join("top", base), k.Kind)
	}
	if k.Abs {
		root = filepath.Join(c.Dir, root)
	}
	as, env := args(v, "-f", root, k.Sel.Args()), []string(nil)
	if k.ByEnv {
		as, env = args(v, k.Sel.Args()), []string{"LEDGER_FILE=" + root}
	}
	r := c.Run(fw.RunOpt{Env: append(c.PlainEnv(), env...), Plain: strings.HasPrefix(k.Kind, "forbidden")}, as...)
	if err := r.Refused(v[0], append(names(es), "Decoy:A", "decoy")); err != nil {
		return fmt.Errorf("%s (%s) in %s: %w\n%s", name, k.Kind, where, err, shown)
	}
	return nil
}
