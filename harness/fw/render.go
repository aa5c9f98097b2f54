package fw

import (
	"fmt"
	"strings"
)

// Layout is a stream of choices that decides how a journal is written down.
// An empty stream, or a stream of zeros, gives the canonical layout.
type Layout struct {
	Bytes []byte
	i     int
	// Spelling lets amounts be written in their other spellings (5, 5.0, +5.00)
	Spelling bool
	// NoTail keeps the final newline and the last line's end as they are
	NoTail bool
}

// NewLayout makes a layout from a stream
func NewLayout(b []byte) *Layout { return &Layout{Bytes: b} }

// Pick chooses one of n
func (l *Layout) Pick(n int) int {
	if len(l.Bytes) == 0 {
		return 0
	}
	v := int(l.Bytes[l.i%len(l.Bytes)])
	// Vary the choice when the stream is used again
	v += (l.i / len(l.Bytes)) * v
	l.i++
	return v % n
}

// pickS chooses a string, the first being the canonical one
func (l *Layout) pickS(ss ...string) string { return ss[l.Pick(len(ss))] }

// Kind says what a rendered line is
type Kind int

// Kinds of lines
const (
	BlankLine Kind = iota
	CommentLine
	HeaderLine
	AllocLine
	NoteLine
	PostingLine
	IncludeLine
	RawLine
)

// Line is one rendered line
type Line struct {
	S string
	K Kind
	E int // the entry it belongs to, -1 if none
}

var indents = []string{"    ", "  ", "\t", "   ", "\t\t", "  \t", "        "}
var seps = []string{"    ", "  ", "\t", "   ", " \t", "\t ", "          "}
var blanks = []string{"  ", "\t", "    ", "\t\t", "     ", "  \t", "          "}
var tails = []string{"", "", " ", "  ", "\t", "   ", " \t"}

// notedTails may end a line that has no comment of its own
var notedTails = append(append([]string{}, tails...), "  ; note", " # x", "\t; t", " ;", "    # ~ 2020-01", " ; a ; b", "  #", "  ; see x/", "\t; ../x.journal")
var col0 = []string{"; a comment", "# a comment", ";", "#", ";; 2020-01-01 * Not a transaction",
	"#include nothing.journal", ";    Assets:Nothing  £5.00", "# ~ 2020-01", ";\ttab", "; \"é\" 日本"}

var moreCol0 = []string{"#word", ";word", "#!/usr/bin/gledger", ";;;;;;;;", "#1", "#\u00a0x", "; a ; b # c", ";\x00", "#" + strings.Repeat("=", 300)}

// freeComment chooses a comment that is not indented
func (l *Layout) freeComment() string {
	i := l.Pick(len(col0))
	if i == len(col0)-1 && l.Pick(2) == 1 {
		return moreCol0[l.Pick(len(moreCol0))]
	}
	return col0[i]
}

// outsideComment chooses a comment outside any transaction
func (l *Layout) outsideComment() string {
	c := l.freeComment()
	if l.Pick(3) == 2 {
		c = l.space(indents) + c
	}
	return c
}

// space chooses white space, the last choice being any length of it
func (l *Layout) space(ss []string) string {
	i := l.Pick(len(ss))
	if i == len(ss)-1 && l.Pick(3) == 2 {
		if n := l.Pick(256); n%4 == 3 {
			return strings.Repeat("\t", n/4+1)
		} else {
			return strings.Repeat(" ", n+2)
		}
	}
	return ss[i]
}

// AmountText writes an amount
func (l *Layout) AmountText(p Posting) string {
	s := FormatQ(p.Q)
	if l.Spelling {
		if strings.HasSuffix(s, "0") && l.Pick(3) == 1 {
			s = s[:len(s)-1]
		}
		if strings.HasSuffix(s, ".0") || strings.HasSuffix(s, ".00") {
			if l.Pick(3) == 1 {
				s = s[:strings.IndexByte(s, '.')]
			}
		}
		if p.Q >= 0 && l.Pick(6) == 5 {
			s = "+" + s
		}
	}
	return p.C + s
}

func (l *Layout) comment(text string) string {
	return l.pickS("; ", ";", "# ", "#", ";  ", ";\t", "# \t") + text
}

func (l *Layout) filler(ls []Line, e int) []Line {
	switch l.Pick(12) {
	case 11:
		ls = append(ls, Line{l.freeComment(), CommentLine, e})
	case 10:
		ls = append(ls, Line{l.space(blanks), BlankLine, e})
	}
	return ls
}

func (l *Layout) postings(ls []Line, ps []Posting, e int) []Line {
	for _, p := range ps {
		s := l.space(indents) + p.Account
		if !p.Elided {
			s += l.space(seps) + l.AmountText(p)
		}
		ls = append(ls, Line{s + l.pickS(tails...), PostingLine, e})
		ls = l.filler(ls, e)
		for _, c := range p.Comments {
			ls = append(ls, Line{l.space(indents) + l.comment(c), NoteLine, e})
			ls = l.filler(ls, e)
		}
	}
	return ls
}

// Entry renders one entry
func (l *Layout) Entry(ls []Line, en Entry, e int) []Line {
	if en.A != nil {
		ls = append(ls, Line{"~" + l.pickS(" ", "  ", "\t", "    ") + en.A.Month + l.pickS(notedTails...), AllocLine, e})
		ls = l.filler(ls, e)
		for _, n := range en.A.Notes {
			ls = append(ls, Line{l.space(indents) + l.comment(n), NoteLine, e})
			ls = l.filler(ls, e)
		}
		return l.postings(ls, en.A.Postings, e)
	}
	t := en.T
	s := t.Date
	if c := l.Pick(6); c == 4 {
		s = strings.ReplaceAll(s, "-", "/")
	} else if c == 5 {
		s = strings.ReplaceAll(s, "-", ".")
	}
	bare := true
	if t.State != "" {
		s += l.pickS(" ", "  ", " \t", "    ") + t.State
		bare = false
		if t.Payee != "" {
			s += l.pickS(" ", "  ", "\t", "")
		}
	} else if t.Payee != "" {
		s += l.pickS(" ", "  ", " \t", "    ")
	}
	if t.Payee != "" {
		s += t.Payee
		bare = false
	}
	if t.Note != "" {
		sep := l.pickS("    ", "  ", " ", "\t", "")
		if bare && (sep == "" || sep == "\t") {
			sep = " "
		}
		s += sep + l.comment(t.Note)
	} else {
		tail := l.pickS(tails...)
		if bare && strings.HasPrefix(tail, "\t") {
			tail = " "
		}
		s += tail
	}
	ls = append(ls, Line{s, HeaderLine, e})
	ls = l.filler(ls, e)
	for _, n := range t.Notes {
		ls = append(ls, Line{l.space(indents) + l.comment(n), NoteLine, e})
		ls = l.filler(ls, e)
	}
	return l.postings(ls, t.Postings, e)
}

// Gap renders what stands between two entries. Only if mayTouch may there be
// no blank line.
func (l *Layout) Gap(ls []Line) []Line {
	switch l.Pick(8) {
	case 0, 1, 2:
		ls = append(ls, Line{"", BlankLine, -1})
	case 3:
		// the next header ends the transaction
	case 4:
		ls = append(ls, Line{"", BlankLine, -1}, Line{"", BlankLine, -1})
	case 5:
		ls = append(ls, Line{"  ", BlankLine, -1})
	case 6:
		ls = append(ls, Line{"\t", BlankLine, -1}, Line{"", BlankLine, -1}, Line{"    \t", BlankLine, -1})
	case 7:
		ls = append(ls, Line{"", BlankLine, -1}, Line{l.outsideComment(), CommentLine, -1}, Line{"", BlankLine, -1})
	}
	return ls
}

// Entries renders a run of entries
func (l *Layout) Entries(es []Entry) []Line {
	var ls []Line
	switch l.Pick(6) {
	case 4:
		ls = append(ls, Line{"", BlankLine, -1})
	case 5:
		ls = append(ls, Line{l.freeComment(), CommentLine, -1})
	}
	for i, e := range es {
		ls = l.Entry(ls, e, i)
		if i < len(es)-1 || l.Pick(3) == 2 {
			ls = l.Gap(ls)
		}
	}
	return ls
}

// padding sometimes chooses an indented line to be made as long as a usual
// buffer, or a little more or less, and whether it ends in CRLF. It depends on
// the whole stream and takes nothing of it.
func (l *Layout) padding(ls []Line) (at, to int, crlf bool) {
	h := uint32(2166136261)
	for _, b := range l.Bytes {
		h = (h ^ uint32(b)) * 16777619
	}
	h >>= 3
	if len(l.Bytes) == 0 || h%25 != 7 {
		return -1, 0, false
	}
	h /= 25
	var in []int
	for i, x := range ls {
		if (x.K == PostingLine || x.K == NoteLine) && len(x.S) > 0 && (x.S[0] == ' ' || x.S[0] == '\t') {
			in = append(in, i)
		}
	}
	if len(in) == 0 {
		return -1, 0, false
	}
	at = in[int(h)%len(in)]
	h /= 7
	to = []int{4096, 4096, 4096, 4096, 1024, 2048, 8192, 16384, 32768, 65536}[h%10] + int(h/10%5) - 3
	return at, to, h/50%3 != 0
}

// Text joins the lines of a file
func (l *Layout) Text(ls []Line) string {
	var b strings.Builder
	mode := l.Pick(6) // 4: CRLF throughout, 5: mixed
	padded, to, crlf := l.padding(ls)
	for i, x := range ls {
		if i == padded && len(x.S) < to {
			b.WriteString(strings.Repeat(" ", to-len(x.S)))
		}
		b.WriteString(x.S)
		if i == padded && crlf {
			b.WriteString("\r\n")
			continue
		}
		if i == len(ls)-1 && l.Pick(4) == 3 && !l.NoTail {
			break
		}
		if mode == 4 || (mode == 5 && l.Pick(2) == 1) {
			b.WriteString("\r\n")
		} else {
			b.WriteString("\n")
		}
	}
	return b.String()
}

// Render writes a journal of one file
func Render(es []Entry, layout []byte, spelling bool) string {
	l := NewLayout(layout)
	l.Spelling = spelling
	return l.Text(l.Entries(es))
}

// FileNode is a journal file with the entries and include directives it has
type FileNode struct {
	Path  string `json:"path"` // relative to the directory of the root file
	Items []Item `json:"items"`
}

// Item is an entry or an include directive
type Item struct {
	E   *Entry    `json:"e,omitempty"`
	Inc *FileNode `json:"inc,omitempty"`
	Ref string    `json:"ref,omitempty"` // the path as the directive gives it
}

// Flatten returns the entries in the order they are read with their files
func (f *FileNode) Flatten() (es []Entry, files []string) {
	for _, it := range f.Items {
		if it.E != nil {
			es = append(es, *it.E)
			files = append(files, f.Path)
		} else if it.Inc != nil {
			a, b := it.Inc.Flatten()
			es = append(es, a...)
			files = append(files, b...)
		}
	}
	return
}

// Depth returns the number of levels of files
func (f *FileNode) Depth() int {
	d := 0
	for _, it := range f.Items {
		if it.Inc != nil {
			if x := it.Inc.Depth(); x > d {
				d = x
			}
		}
	}
	return d + 1
}

// Files lists the nodes of the tree
func (f *FileNode) Files() []*FileNode {
	r := []*FileNode{f}
	for _, it := range f.Items {
		if it.Inc != nil {
			r = append(r, it.Inc.Files()...)
		}
	}
	return r
}

// Lines renders the lines of one file (not of those it includes). Line.E is
// the index of the item.
func (l *Layout) Lines(f *FileNode) []Line {
	var ls []Line
	for i, it := range f.Items {
		if it.E != nil {
			ls = l.Entry(ls, *it.E, i)
			if i < len(f.Items)-1 {
				ls = l.Gap(ls)
			}
		} else {
			ls = append(ls, Line{"include" + l.pickS(" ", " ", "  ", " \t", "   ") + it.Ref + l.pickS(notedTails...), IncludeLine, i})
			if l.Pick(2) == 1 {
				ls = l.Gap(ls)
			}
		}
	}
	return ls
}

// RenderTree renders all files of a tree
func RenderTree(f *FileNode, layout []byte, spelling bool) map[string]string {
	out := map[string]string{}
	l := NewLayout(layout)
	l.Spelling = spelling
	for _, n := range f.Files() {
		if _, done := out[n.Path]; !done {
			out[n.Path] = l.Text(l.Lines(n))
		}
	}
	return out
}

// Show writes lines with numbers, for messages
func Show(text string) string {
	var b strings.Builder
	for i, s := range strings.SplitAfter(text, "\n") {
		if s == "" {
			continue
		}
		if i > 60 {
			b.WriteString("  ...\n")
			break
		}
		fmt.Fprintf(&b, "  %3d %q\n", i+1, s)
	}
	return b.String()
}
