package fw

import (
	"fmt"
	"path"
	"strings"

	"pgregory.net/rapid"
)

// RootFile is the first file of a tree
const RootFile = "top/main.journal"

// Tree makes trees of files
type Tree struct {
	t     *rapid.T
	n     int
	nodes []*FileNode
	used  map[string]bool
}

// dirNames are names of the directories that files are put into
var dirNames = map[string]bool{"x": true, "y": true, "z": true, "sub": true, "deep": true, "a b": true, "main.journal.d": true, "2019": true, "1999": true, "12": true}

// ref draws a path for a new file and how the including file refers to it
func (b *Tree) ref(from string) (ref, clean string) {
	b.n++
	name := fmt.Sprintf("inc%d.journal", b.n)
	if Chance(b.t, 4, "oddname") {
		name = OneOf(b.t, "name", fmt.Sprintf("jour nal %d", b.n), fmt.Sprintf("é%d.dat", b.n), fmt.Sprintf("inc-%d", b.n), fmt.Sprintf("n%d.2020.journal", b.n), fmt.Sprintf("include %d", b.n), fmt.Sprintf("main%d.journal", b.n), fmt.Sprintf("$HOME%d", b.n), fmt.Sprintf("~%d", b.n), fmt.Sprintf("*%d.j", b.n), fmt.Sprintf("%%41%d", b.n), fmt.Sprintf("[a]{b}%d?", b.n), fmt.Sprintf("in[%d].j", b.n), fmt.Sprintf("in?%d", b.n), fmt.Sprintf("{x,y}%d", b.n), fmt.Sprintf("Upper%d.Journal", b.n), fmt.Sprintf("in%d", b.n), fmt.Sprintf("\\t%d", b.n), fmt.Sprintf("'q%d'", b.n), fmt.Sprintf("\"q%d\"", b.n), fmt.Sprintf("-n%d", b.n), fmt.Sprintf("2020-01-%02d x%d", b.n%28+1, b.n))
	}
	dir := OneOf(b.t, "dir", "", "", "sub/", "sub/deep/", "./", "a b/", "../", "sub/../", "main.journal.d/", "x/y/z/", "2019/", "1999/12/", "../../", "../../../", "./../", "x/../y/./")
	if strings.HasPrefix(path.Join(path.Dir(from), dir), "..") {
		dir = ""
	}
	if Chance(b.t, 10, "twin") {
		// a name next to that of the including file
		base := path.Base(from)
		n := OneOf(b.t, "twin", strings.ToUpper(base), strings.ToLower(base), strings.Title(base), base+"~", base+"2", "x"+base, strings.TrimSuffix(base, path.Ext(base)), strings.Replace(base, ".", "_", -1))
		clean = path.Join(path.Dir(from), n)
		if !dirNames[path.Base(clean)] && strings.Trim(n, ".") != "" && !b.used[clean] {
			b.used[clean] = true
			return n, clean
		}
	}
	if Chance(b.t, 12, "of an extreme length") {
		n := dir + OneOf(b.t, "extreme", "a", "b", "z", "é", "1", "aa", "q.", ".j", "..a", "...", "ab", strings.Repeat("long", 50), strings.Repeat("a b", 60)+"c")
		clean = path.Join(path.Dir(from), n)
		if !dirNames[path.Base(clean)] && strings.Trim(n, ".") != "" && !b.used[clean] {
			b.used[clean] = true
			return n, clean
		}
	}
	if Chance(b.t, 6, "samename") {
		// the name of a file that is being read, in another directory
		dir, name = fmt.Sprintf("d%d/", b.n), path.Base(from)
	}
	ref = dir + name
	clean = path.Join(path.Dir(from), ref)
	b.used[clean] = true
	return ref, clean
}

// Grow distributes the entries over a file and files it includes
func (b *Tree) Grow(file string, es []Entry, depth int) *FileNode {
	f := &FileNode{Path: file}
	b.nodes = append(b.nodes, f)
	for i := 0; i < len(es); {
		if depth > 0 && Chance(b.t, 3, "include") {
			n := Int(b.t, 0, len(es)-i, "moved")
			ref, clean := b.ref(file)
			child := b.Grow(clean, es[i:i+n], depth-1)
			f.Items = append(f.Items, Item{Inc: child, Ref: ref})
			i += n
			if n > 0 || len(f.Items) < 12 {
				continue
			}
		}
		e := es[i]
		f.Items = append(f.Items, Item{E: &e})
		i++
	}
	if len(f.Items) > 0 && Chance(b.t, 12, "again") {
		// a file may be included again once it is finished
		for _, it := range f.Items {
			if it.Inc != nil {
				f.Items = append(f.Items, it)
				break
			}
		}
	}
	return f
}

// Chain puts the entries into a long chain of files that each include the
// next, before or after their own entries
func (b *Tree) Chain(es []Entry, levels int) *FileNode {
	root := &FileNode{Path: RootFile}
	f := root
	for i := 0; i < levels; i++ {
		ref, clean := b.ref(f.Path)
		child := &FileNode{Path: clean}
		inc := Item{Inc: child, Ref: ref}
		k := 0
		if len(es) > 0 && Chance(b.t, 3, "own") {
			k = Int(b.t, 1, len(es), "owned")
		}
		if k > 0 && Chance(b.t, 2, "last") {
			for j := len(es) - k; j < len(es); j++ {
				f.Items = append(f.Items, Item{E: &es[j]})
			}
			f.Items = append([]Item{inc}, f.Items...)
			es = es[:len(es)-k]
		} else {
			for j := 0; j < k; j++ {
				f.Items = append(f.Items, Item{E: &es[j]})
			}
			f.Items = append(f.Items, inc)
			es = es[k:]
		}
		f = child
	}
	for j := range es {
		f.Items = append(f.Items, Item{E: &es[j]})
	}
	return root
}

// Fan puts the entries into many files that the first includes
func (b *Tree) Fan(es []Entry, files int) *FileNode {
	root := &FileNode{Path: RootFile}
	for i := 0; i < files; i++ {
		ref, clean := b.ref(RootFile)
		child := &FileNode{Path: clean}
		if len(es) > 0 && Chance(b.t, 3, "own") {
			child.Items = append(child.Items, Item{E: &es[0]})
			es = es[1:]
		}
		root.Items = append(root.Items, Item{Inc: child, Ref: ref})
	}
	for j := range es {
		root.Items = append(root.Items, Item{E: &es[j]})
	}
	return root
}

// NewTree starts a tree
func NewTree(t *rapid.T) *Tree { return &Tree{t: t, used: map[string]bool{RootFile: true}} }

// DrawTree distributes entries over a tree of files
func DrawTree(t *rapid.T, es []Entry) *FileNode {
	b := NewTree(t)
	switch Int(t, 0, 39, "shape") {
	case 38:
		return b.Chain(es, Int(t, 5, 70, "levels"))
	case 39:
		return b.Fan(es, Int(t, 13, 200, "fan"))
	}
	return b.Grow(RootFile, es, Int(t, 1, 4, "depth"))
}

// Refill makes a tree of the same files with other entries
func Refill(f *FileNode, es []Entry) *FileNode {
	seen := map[string]*FileNode{}
	var fill func(f *FileNode, last bool) *FileNode
	fill = func(f *FileNode, last bool) *FileNode {
		if g := seen[f.Path]; g != nil {
			return g
		}
		g := &FileNode{Path: f.Path}
		seen[f.Path] = g
		for _, it := range f.Items {
			if it.Inc != nil {
				g.Items = append(g.Items, Item{Inc: fill(it.Inc, false), Ref: it.Ref})
			} else if len(es) > 0 {
				e := es[0]
				es = es[1:]
				g.Items = append(g.Items, Item{E: &e})
			}
		}
		for last && len(es) > 0 {
			e := es[0]
			es = es[1:]
			g.Items = append(g.Items, Item{E: &e})
		}
		return g
	}
	return fill(f, true)
}

// PutTree writes the files, and others beside them, and shows them
func PutTree(c *Ctx, f *FileNode, layout []byte) string {
	m := RenderTree(f, layout, false)
	var all string
	for _, k := range SortedKeys(m) {
		c.Write(k, m[k])
		all += fmt.Sprintf(" file %s:\n%s", k, Show(m[k]))
	}
	// make the directories that paths like sub/../x go through
	for _, n := range f.Files() {
		for _, it := range n.Items {
			if it.Inc != nil {
				ThroughDirs(c, n.Path, it.Ref)
			}
		}
	}
	// and other files that no directive names
	for i, n := range f.Files() {
		for j, it := range n.Items {
			if it.Inc != nil && i+j < 40 {
				c.Decoys(path.Dir(n.Path), it.Ref)
				c.Decoys(".", path.Base(it.Ref))
			}
		}
	}
	return all
}

// ThroughDirs makes the directories that a path like sub/../x goes through
func ThroughDirs(c *Ctx, file, ref string) {
	parts := strings.Split(ref, "/")
	for i, p := range parts {
		if p == ".." && i > 0 {
			c.Mkdir(path.Join(path.Dir(file), strings.Join(parts[:i], "/")))
		}
	}
}
