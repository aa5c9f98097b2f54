package main

import (
	"bufio"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"syscall"

	"github.com/rikchilvers/gledger/journal"
	"github.com/rikchilvers/gledger/parser"
	"pgregory.net/rapid"
	"verifharness/fw"
)

// brokenCase is a text whose reader fails
type brokenCase struct {
	Entries []fw.Entry `json:"entries"`
	Layout  []byte     `json:"layout,omitempty"`
	Sizes   []int      `json:"sizes,omitempty"` // of the pieces, in turn; 0 is a read that gives nothing
	At      int        `json:"at"`              // where it fails, in thousandths of the text, -1 if it does not
	Kind    string     `json:"kind"`
	With    bool       `json:"with"`   // the error comes with the last piece
	Resume  bool       `json:"resume"` // the reads after the failing one go on
}

var errOdd = errors.New("the disc is on fire")

var readErrors = map[string]error{"EIO": syscall.EIO, "unexpected EOF": io.ErrUnexpectedEOF, "closed pipe": io.ErrClosedPipe, "odd": errOdd, "EISDIR": syscall.EISDIR, "short buffer": io.ErrShortBuffer, "no progress": io.ErrNoProgress, "stalls": errStalls}

// errStalls is a reader that gives nothing, without an error, for ever
var errStalls = errors.New("nothing is read")

// faulty is the reader
type faulty struct {
	text   string
	fail   int // -1 never
	sizes  []int
	err    error
	with   bool
	resume bool
	pos, n int
	failed bool
	empty  int
}

func (f *faulty) error() error {
	if f.err == errStalls {
		return nil
	}
	return f.err
}

func (f *faulty) Read(p []byte) (int, error) {
	if f.failed && (!f.resume || f.err == errStalls) {
		return 0, f.error()
	}
	if len(p) == 0 {
		return 0, nil
	}
	size := len(p)
	if len(f.sizes) > 0 {
		s := f.sizes[f.n%len(f.sizes)]
		f.n++
		if s == 0 && f.empty < 3 {
			f.empty++
			return 0, nil
		}
		if s > 0 {
			size = min(size, s)
		}
	}
	f.empty = 0
	end := len(f.text)
	if f.fail >= 0 && !f.failed {
		end = f.fail
	}
	n := copy(p[:size], f.text[f.pos:end])
	f.pos += n
	if f.pos < end {
		return n, nil
	}
	if f.fail >= 0 && !f.failed {
		if n == 0 || f.with {
			f.failed = true
			return n, f.error()
		}
		return n, nil
	}
	if n == 0 || f.with {
		return n, io.EOF
	}
	return n, nil
}

// putFiles writes a tree of files and opens the first, which is at path
func putFiles(c *fw.Ctx, root *fw.FileNode, layout []byte) (shown, path string, open func() io.ReadCloser) {
	shown = fw.PutTree(c, root, layout)
	path = filepath.Join(c.Dir, fw.RootFile)
	return shown, path, func() io.ReadCloser {
		f, err := os.Open(path)
		if err != nil {
			fw.Harness("%v", err)
		}
		return f
	}
}

// refusals are errors that a handler may return
var refusals = map[string]error{"odd": errOdd, "EOF": io.EOF, "unexpected EOF": io.ErrUnexpectedEOF, "text EOF": errors.New("EOF"), "wrapped EOF": fmt.Errorf("refused: %w", io.EOF), "no file": os.ErrNotExist, "skip": filepath.SkipDir, "too long": bufio.ErrTooLong, "empty": errors.New("")}

var refusalNames = fw.SortedKeys(refusals)

// handlersCase is a journal whose handlers refuse something
type handlersCase struct {
	Root    *fw.FileNode `json:"root,omitempty"` // a tree of files instead of one text
	Kind    string       `json:"kind,omitempty"` // of the error
	Entries []fw.Entry   `json:"entries"`
	Layout  []byte       `json:"layout,omitempty"`
	At      int          `json:"at"` // the entry refused
	Chunk   int          `json:"chunk"`
}

// filesCase is a tree of files, read again and again
type filesCase []filesVersion

type filesVersion struct {
	Same   bool         `json:"same,omitempty"` // as the one before
	Root   *fw.FileNode `json:"root,omitempty"`
	Layout []byte       `json:"layout,omitempty"`
}

// severalCase is some texts read one after the other
type severalCase []oneOfSeveral

type oneOfSeveral struct {
	Entries []fw.Entry `json:"entries,omitempty"`
	Layout  []byte     `json:"layout,omitempty"`
	Data    []byte     `json:"data,omitempty"`
}

func init() {
	fw.Register("C25", "readers", 40000, 800000,
		"a journal of 2-8 entries given to the parser by a reader that delivers pieces of any sizes (or nothing, or the last piece with the end) and, mostly, fails at any place, with any error, or by giving nothing any more, for good or once; where it fails an error is due, and what the handlers were given must be the first entries of the journal; else all of them are; non-trivial if it fails after the first entry",
		func(t *rapid.T) brokenCase {
			o := fw.Opt{Min: 2, Max: 8, Rich: true, Commodity: true, Allocs: true, Long: true}
			v := fw.NewVocab(t, o)
			k := brokenCase{Entries: fw.Entries(t, v, o), Layout: fw.DrawLayout(t), At: -1, With: rapid.Bool().Draw(t, "with")}
			if fw.Chance(t, 2, "sizes") {
				k.Sizes = rapid.SliceOfN(rapid.SampledFrom([]int{0, 1, 2, 3, 10, 100, 511, 4096}), 1, 5).Draw(t, "sizes")
			}
			if !fw.Chance(t, 5, "whole") {
				k.At = fw.Int(t, 0, 1000, "at")
				k.Kind = fw.OneOf(t, "kind", "EIO", "unexpected EOF", "closed pipe", "odd", "EISDIR", "short buffer", "no progress", "stalls")
				k.Resume = rapid.Bool().Draw(t, "resume")
			}
			return k
		},
		func(c *fw.Ctx, k *brokenCase) error {
			text := fw.Render(k.Entries, k.Layout, true)
			r := &faulty{text: text, fail: -1, sizes: k.Sizes, with: k.With, resume: k.Resume}
			if k.At >= 0 {
				r.fail, r.err = len(text)*k.At/1000, readErrors[k.Kind]
				c.Class("fails: " + k.Kind)
			} else {
				c.Class("whole")
			}
			got, _, err := read(r, "the file")
			bad := func(err error) error {
				return fmt.Errorf("%w\njournal:\n%s", err, fw.Show(text))
			}
			if k.At < 0 {
				if err == nil {
					err = diffEntries(got, k.Entries)
				}
				if err != nil {
					return bad(err)
				}
				return nil
			}
			c.Nontrivial = len(got) > 0
			if err == nil {
				return bad(fmt.Errorf("the reader failed with %q after %d of %d bytes; the parser gave %d entries and no error", r.err, r.fail, len(text), len(got)))
			}
			if len(got) > len(k.Entries) {
				return bad(fmt.Errorf("the reader failed after %d of %d bytes; the parser gave %d of %d entries", r.fail, len(text), len(got), len(k.Entries)))
			}
			if err := diffEntries(got, k.Entries[:len(got)]); err != nil {
				return bad(fmt.Errorf("the reader failed after %d of %d bytes; before its error the parser gave what the journal has not: %w", r.fail, len(text), err))
			}
			return nil
		})

	fw.Register("C25", "handlers", 40000, 800000,
		"a journal of 1-10 transactions and allocations, as one text or a tree of files, read by the parser, one of whose handlers returns an error for one of them; the parser must return that error and hand out nothing further; non-trivial if the entry is not the last",
		func(t *rapid.T) handlersCase {
			o := fw.Opt{Min: 1, Max: 10, Rich: true, Commodity: true, Allocs: true}
			v := fw.NewVocab(t, o)
			k := handlersCase{Entries: fw.Entries(t, v, o), Layout: fw.DrawLayout(t), Chunk: fw.OneOf(t, "chunk", 0, 1, 7)}
			if fw.Chance(t, 8, "tree") {
				k.Root = fw.DrawTree(t, k.Entries)
				k.Entries, _ = k.Root.Flatten()
			}
			k.At = fw.Int(t, 0, max(0, len(k.Entries)-1), "at")
			k.Kind = rapid.SampledFrom(refusalNames).Draw(t, "kind")
			return k
		},
		func(c *fw.Ctx, k *handlersCase) error {
			if len(k.Entries) == 0 {
				return nil
			}
			var text string
			src := func() (io.ReadCloser, string) {
				return io.NopCloser(reader(text, k.Chunk)), "the file"
			}
			if k.Root != nil {
				shown, path, open := putFiles(c, k.Root, k.Layout)
				text = shown
				src = func() (io.ReadCloser, string) { return open(), path }
				c.Class("tree of files")
			} else {
				text = fw.Render(k.Entries, k.Layout, true)
			}
			odd := refusals[k.Kind]
			if odd == nil {
				odd = errOdd
			}
			calls := 0
			handle := func() error {
				calls++
				if calls == k.At+1 {
					return odd
				}
				return nil
			}
			p := parser.NewParser(
				func(*journal.Transaction, string) error { return handle() },
				func(*journal.PeriodicTransaction, string) error { return handle() })
			r, name := src()
			err := p.Parse(r, name)
			r.Close()
			c.Nontrivial = k.At < len(k.Entries)-1
			if k.Entries[k.At].T != nil {
				c.Class("transaction refused")
			} else {
				c.Class("allocation refused")
			}
			if err == nil {
				err = fmt.Errorf("the handler refused entry %d of %d; the parser returned no error", k.At+1, len(k.Entries))
			} else if !errors.Is(err, odd) && !strings.Contains(err.Error(), odd.Error()) {
				err = fmt.Errorf("the handler refused entry %d of %d with %q; the parser returned %q", k.At+1, len(k.Entries), odd, err)
			} else if calls != k.At+1 {
				err = fmt.Errorf("the handler refused entry %d of %d; the handlers were called %d times", k.At+1, len(k.Entries), calls)
			} else {
				err = nil
			}
			if err != nil {
				if k.Root == nil {
					text = fw.Show(text)
				}
				return fmt.Errorf("%w\njournal:\n%s", err, text)
			}
			return nil
		})

	fw.Register("C24", "files", 6000, 120000,
		"two to five readings, by parsers of their own in one process, of the first file of a tree of files, which between the readings is left as it is, gets other contents, or is another tree with files in common; what each gave, looked at after all are read, must be the entries of the files as they were; non-trivial if the files include others and there is a change",
		func(t *rapid.T) filesCase {
			o := fw.Opt{Min: 1, Max: 6, Rich: true, Commodity: true, Allocs: true}
			v := fw.NewVocab(t, o)
			var k filesCase
			for n := fw.Int(t, 2, 5, "readings"); n > 0; n-- {
				switch how := fw.Int(t, 0, 3, "how"); {
				case len(k) == 0 || how == 3:
					k = append(k, filesVersion{Root: fw.NewTree(t).Grow(fw.RootFile, fw.Entries(t, v, o), fw.Int(t, 0, 3, "depth")), Layout: fw.DrawLayout(t)})
				case how == 0:
					k = append(k, filesVersion{Same: true})
				default:
					// the same files with other entries in them
					last := k[len(k)-1]
					for i := len(k) - 1; last.Same; i-- {
						last = k[i]
					}
					x := filesVersion{Root: last.Root, Layout: fw.DrawLayout(t)}
					if how == 1 {
						x.Root = fw.Refill(last.Root, fw.Entries(t, v, o))
					}
					k = append(k, x)
				}
			}
			return k
		},
		func(c *fw.Ctx, k *filesCase) error {
			var looks []func() []fw.Entry
			var wants [][]fw.Entry
			var shown []string
			var now filesVersion
			changed, inc := false, false
			for i, x := range *k {
				if !x.Same {
					changed = changed || i > 0
					now = x
				}
				es, _ := now.Root.Flatten()
				text, path, open := putFiles(c, now.Root, now.Layout)
				shown = append(shown, text)
				inc = inc || now.Root.Depth() > 1
				f := open()
				look, _, err := gather(f, path)
				f.Close()
				if err != nil {
					return fmt.Errorf("reading %d is refused: %w\n%s", i+1, err, text)
				}
				looks, wants = append(looks, look), append(wants, es)
			}
			for i, look := range looks {
				if err := diffEntries(look(), wants[i]); err != nil {
					s := ""
					for j, t := range shown {
						s += fmt.Sprintf("reading %d\n%s", j+1, t)
					}
					return fmt.Errorf("reading %d: %w\n%s", i+1, err, s)
				}
			}
			c.Nontrivial = changed && inc
			return nil
		})

	fw.Register("C24", "parsers", 20000, 400000,
		"two to four journals, well-formed ones and such with changes, read one after the other by parsers of their own, and then in the other order; what the well-formed ones gave, looked at after all are read, must be as written, and the others must give the same both times; non-trivial if there are two well-formed ones",
		func(t *rapid.T) severalCase {
			var k severalCase
			for n := fw.Int(t, 2, 4, "texts"); n > 0; n-- {
				if fw.Chance(t, 3, "changed") {
					if b := fw.MutatedJournal(t); !includes(b) {
						k = append(k, oneOfSeveral{Data: b})
						continue
					}
				}
				o := fw.Opt{Min: 1, Max: 5, Rich: true, Commodity: true, Allocs: true}
				v := fw.NewVocab(t, o)
				k = append(k, oneOfSeveral{Entries: fw.Entries(t, v, o), Layout: fw.DrawLayout(t)})
			}
			return k
		},
		func(c *fw.Ctx, k *severalCase) error {
			type result struct {
				look func() []fw.Entry
				err  error
			}
			var texts []string
			results := make([][2]result, len(*k))
			for _, x := range *k {
				if x.Data != nil {
					texts = append(texts, string(x.Data))
				} else {
					texts = append(texts, fw.Render(x.Entries, x.Layout, true))
				}
			}
			bad := func(err error) error {
				s := ""
				for _, b := range texts {
					s += "text:\n" + fw.Show(b)
				}
				return fmt.Errorf("%w\n%s", err, s)
			}
			for n := 0; n < 2*len(texts); n++ {
				i, turn := n, 0
				if n >= len(texts) {
					i, turn = 2*len(texts)-1-n, 1
				}
				look, _, err := gather(strings.NewReader(texts[i]), "f")
				results[i][turn] = result{look, err}
			}
			good := 0
			for i, x := range *k {
				a, b := results[i][0], results[i][1]
				if x.Data == nil {
					good++
					for _, r := range []result{a, b} {
						if r.err != nil {
							return bad(fmt.Errorf("text %d, read among others, is refused: %w", i+1, r.err))
						}
						if err := diffEntries(r.look(), x.Entries); err != nil {
							return bad(fmt.Errorf("text %d, read among others: %w", i+1, err))
						}
					}
					continue
				}
				c.Class("changed text")
				if (a.err == nil) != (b.err == nil) || (a.err != nil && a.err.Error() != b.err.Error()) {
					return bad(fmt.Errorf("text %d, read among others: %v, read again: %v", i+1, a.err, b.err))
				}
				if err := diffEntries(b.look(), a.look()); err != nil {
					return bad(fmt.Errorf("text %d, read twice among others: %w", i+1, err))
				}
			}
			c.Nontrivial = good > 1
			return nil
		})
}
