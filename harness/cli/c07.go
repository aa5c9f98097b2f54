package main

import (
	"fmt"
	"path"
	"path/filepath"
	"regexp"
	"strings"
	"time"

	"pgregory.net/rapid"
	"verifharness/fw"
)

type faultCase struct {
	Root    *fw.FileNode `json:"root"`
	Layout  []byte       `json:"layout,omitempty"`
	File    int          `json:"file"`
	At      int          `json:"at"`
	Kind    string       `json:"kind"`
	Text    string       `json:"text"`
	Command string       `json:"command"`
	Extra   []string     `json:"extra,omitempty"`
	Abs     bool         `json:"abs"`
	// Above is a number of lines of comments or blank lines at the start of
	// the file with the fault
	Above int  `json:"above,omitempty"`
	Blank bool `json:"blank,omitempty"`
}

var badDates = []string{"2020-13-01", "2020-00-10", "2020-02-30", "2019-02-29", "2100-02-29", "2020-04-31", "2020-01-32", "2020-01-00", "2020/13/01", "2020.02.30", "2020-01/01", "2020/01-01", "2020.01-01", "2020-01", "2020", "20200101", "01-01-2020", "2020-1a-01", "2020-01-01x", "202O-01-01", "2020--01-01", "2020-01-01-01", "1-2-3", "0", "2020-01-", "2020-01-011", "12020-01-01", "٢020-01-01"}

var unknownLines = []string{"account Assets", "P 2020-01-01 £ $1.20", "commodity £", "Assets:Cash  £5", "= expenses", "* 2020-01-01", "foo", "includes x.journal", "inc x.journal", "inclode x.journal", "includ x.journal", "i x.journal", "Include  x.journal", "INCLUDE x.journal", "!include x.journal", "include: x.journal", "import x.journal", "insert  x.journal", "inc\u0131ude x.journal", "i 2020-01-01", "Include x.journal", "include", "-2020-01-01 p", "é", "@payee", "comment", "%tag", " 2020-01-01 p", " Assets:Cash  5", "£5", "(2020-01-01) p", "\u00a0\u00a0Assets  5", "!", "D £1000.00", "bucket A", "\"x\""}

var oddIndented = []string{"(Assets:Cash)  5", "[Assets:Cash]  5", "1Assets  5", "* Assets  5", "! Assets  5", "-5", "£5", "@ 5", ":Assets  5", "_x  5", "\"Assets\"  5", "2020-01-01 p", "= x", "~ 2020-01", "/ comment", "% c", "٣ A  5", "--", "."}

var badPeriods = []string{"~ monthly", "~ 2020-13", "~ 2020-00", "~ 2020-1", "~ 2020/01", "~ 2020", "~ 2020-01-01", "~ every 2 weeks", "~", "~2020-01", "~ ", "~ 20-01", "~ 2020-01x", "~ yearly", "~ January", "~ 2020-01 to 2020-03"}

func init() {
	fw.Register("C07", "line", 14000, 200000,
		"a valid journal in a tree of 1-4 files with one malformed line put in (bad date, bad amount, bad period, unknown kind of line, posting outside a transaction, indented line that is neither posting nor comment, unknown directive), given to a report command with or without date range and filters; the error must name that file and line; non-trivial if the line is in an included file or not first in its file",
		func(t *rapid.T) faultCase { return drawFault(t, false) }, checkFault)
	fw.Register("C07", "transaction", 8000, 120000,
		"a valid journal in a tree of 1-4 files with one invalid transaction or allocation put in (does not balance, two amounts omitted), which is ended by a blank line, a header, an allocation, an include directive or the end of the file; the error must name the file and a line from its header to where it ends; non-trivial as above",
		func(t *rapid.T) faultCase { return drawFault(t, true) }, checkFault)
	fw.Register("C07", "accounted", 14000, 200000,
		"a well-formed journal changed at one to three places (lines dropped, repeated, cut, joined, indented or replaced; bytes changed) and printed; an independent reader, which keeps to what is beyond doubt, says which line makes it invalid, or else what every line contributes: it must be rejected naming that line, or print must show every transaction, posting, note and comment of the text; non-trivial if it is rejected for a line the reader found or accepted",
		func(t *rapid.T) textCase { return textCase{fw.MutatedJournal(t)} },
		func(c *fw.Ctx, k *textCase) error {
			text := string(k.Text)
			j := fw.Judge(text)
			if j.Skip {
				c.Class("cannot be judged")
				return nil
			}
			c.Write(jfile, text)
			r := c.Gl("print", "-f", jfile)
			if err := r.Crash(); err != nil {
				return fmt.Errorf("%w\n%s", err, fw.Show(text))
			}
			if strings.HasPrefix(r.Out, "error at ") {
				c.Class("rejected")
				c.Nontrivial = j.Why != ""
				if err := r.Refused("print", nil); err != nil {
					return fmt.Errorf("%w\n%s", err, fw.Show(text))
				}
				if err := j.Rejected(r.All(), jfile); err != nil {
					return fmt.Errorf("%w\n%s", err, fw.Show(text))
				}
				return nil
			}
			c.Class("accepted")
			c.Nontrivial = true
			ts, err := fw.ParsePrint(r.All())
			if err != nil && j.Why == "" && !j.Sure {
				return nil
			}
			if j.Why == "" && err != nil {
				return fmt.Errorf("%w\n%s", err, fw.Show(text))
			}
			var es []fw.Entry
			for _, x := range ts {
				es = append(es, fw.Entry{T: x})
			}
			if err := j.ByDate().Accepted(es); err != nil {
				return fmt.Errorf("%w\njournal:\n%sprinted:\n%s", err, fw.Show(text), fw.Trunc(r.Out))
			}
			return nil
		})
}

type textCase struct {
	Text []byte `json:"text"` // base64
}

// badDate draws a date that does not exist or is not written as one
func badDate(t *rapid.T) string {
	if rapid.Bool().Draw(t, "listed") {
		return rapid.SampledFrom(badDates).Draw(t, "date")
	}
	sep := fw.OneOf(t, "datesep", "-", "/", ".")
	y, m, d := fw.Int(t, 1900, 2110, "year"), fw.Int(t, 0, 13, "month"), fw.Int(t, 0, 32, "day")
	if _, err := time.Parse("2006-1-2", fmt.Sprintf("%d-%d-%d", y, m, d)); err == nil {
		d = 32
		if m > 0 && m < 13 {
			// the first day the month does not have
			d = time.Date(y, time.Month(m)+1, 0, 0, 0, 0, 0, time.UTC).Day() + 1
		}
	}
	return fmt.Sprintf("%04d%s%02d%s%02d", y, sep, m, sep, d)
}

func drawFault(t *rapid.T, txn bool) faultCase {
	o := fw.Opt{Min: 1, Max: 5, Rich: true, Long: true, Commodity: true, Allocs: true}
	v := fw.NewVocab(t, o)
	es := fw.Entries(t, v, o)
	k := faultCase{Layout: fw.DrawLayout(t), Command: fw.OneOf(t, "command", reports...), Abs: rapid.Bool().Draw(t, "abs")}
	if fw.Chance(t, 2, "tree") {
		k.Root = drawTree(t, es)
	} else {
		k.Root = &fw.FileNode{Path: rootFile}
		for i := range es {
			k.Root.Items = append(k.Root.Items, fw.Item{E: &es[i]})
		}
	}
	k.File = fw.Int(t, 0, 100, "file")
	k.At = fw.Int(t, 0, 200, "at")
	if txn {
		k.Kind = fw.OneOf(t, "kind", "unbalanced", "two omitted", "alloc two omitted")
		end := fw.OneOf(t, "end", "\n", "\n", "", "\n; c\n\n", "    ; c\n")
		switch k.Kind {
		case "unbalanced":
			k.Text = "2020-03-03 * bad one\n    Assets:X  " + v.C + "5.00\n    Assets:Y  " + v.C + "-4.99\n" + end
		case "two omitted":
			k.Text = fw.OneOf(t, "twotext", "2020-03-03 bad one ; x\n    Assets:X\n    Assets:Y\n", "2020-03-03 bad one\n    Assets:X\n    ; c\n    Assets:Y  5\n    Assets:Z\n", "2020-03-03 bad one\n    Assets:X\n    Assets:Y\n    Assets:Z  1\n    Assets:Q  -1\n") + end
		case "alloc two omitted":
			k.Text = "~ 2020-03\n    Food\n    Rent\n    Car  " + v.C + "5\n" + end
		}
	} else {
		k.Kind = fw.OneOf(t, "kind", "bad date", "bad amount", "bad period", "unknown line", "outside", "indented", "bad amount", "outside odd")
		switch k.Kind {
		case "bad date":
			date := badDate(t)
			k.Text = date + fw.OneOf(t, "rest", "", " payee", " * payee ; n", "  p")
		case "bad amount":
			k.Text = fw.OneOf(t, "indent", "    ", "\t", "  ") + "Assets:X" + fw.OneOf(t, "sep", "  ", "\t", "    ")
			if b := BadAmount(t); strings.HasPrefix(b, ".") && fw.EndsInLetter(v.C) {
				k.Text += "£" + b // "kr" and ".50" could be "kr." and "50"
			} else {
				k.Text += v.C + b
			}
		case "bad period":
			k.Text = rapid.SampledFrom(badPeriods).Draw(t, "period")
		case "unknown line":
			k.Text = rapid.SampledFrom(unknownLines).Draw(t, "unknown")
		case "outside":
			k.Text = fw.OneOf(t, "posting", "    Assets:X  5", "\tAssets:X", "    Assets:X  £5", "  A\t-5", "    Assets:X    0")
		case "indented", "outside odd":
			k.Text = fw.OneOf(t, "indent", "    ", "\t", "  ") + rapid.SampledFrom(oddIndented).Draw(t, "odd")
		}
	}
	if fw.Chance(t, 4, "extra") {
		k.Extra = fw.OneOf(t, "extra", []string{"-e", "1995-01-01"}, []string{"-b", "2050"}, []string{"zzz"}, []string{"@zzz"}, []string{"=zzz"}, []string{"-c"}, []string{"."})
	}
	if fw.Chance(t, 60, "far down") {
		k.Above = fw.OneOf(t, "above", 250, 1000, 32760, 65530, 65530, 65530, 70000, 100000, 131070) + fw.Int(t, 0, 10, "above")
		k.Blank = rapid.Bool().Draw(t, "blank")
	}
	return k
}

func checkFault(c *fw.Ctx, k *faultCase) error {
	// the files, each once
	var nodes []*fw.FileNode
	seen := map[string]bool{}
	for _, n := range k.Root.Files() {
		if !seen[n.Path] {
			seen[n.Path] = true
			nodes = append(nodes, n)
		}
	}
	l := fw.NewLayout(k.Layout)
	l.Spelling = true
	target := nodes[k.File%len(nodes)]
	shown := ""
	lo, hi := 0, 0
	for _, n := range nodes {
		ls := l.Lines(n)
		if n == target {
			var err error
			ls, lo, hi, err = insertFault(ls, k)
			if err != nil {
				fw.Harness("%v", err)
			}
		}
		text := l.Text(ls)
		if n == target && k.Above > 0 {
			x := ";\n"
			if k.Blank {
				x = "\n"
			}
			lo, hi = lo+k.Above, hi+k.Above
			c.Class("far down")
			c.Write(n.Path, strings.Repeat(x, k.Above)+text)
			shown += fmt.Sprintf(" (%d lines %q above this)\n", k.Above, x)
		} else {
			c.Write(n.Path, text)
		}
		shown += fmt.Sprintf(" file %s:\n%s", n.Path, fw.Show(text))
		for _, it := range n.Items {
			if it.Inc != nil {
				throughDirs(c, n.Path, it.Ref)
			}
		}
	}
	c.Nontrivial = target != nodes[0] || lo > 1
	c.Class("fault:"+k.Kind, "command:"+k.Command)
	if target != nodes[0] {
		c.Class("in an included file")
	}
	if strings.Contains(k.Text, "x.journal") {
		// what the line would include if it were a directive
		c.Write(path.Join(path.Dir(target.Path), "x.journal"), fw.Decoy)
	}
	root := rootFile
	if k.Abs {
		root = filepath.Join(c.Dir, rootFile)
	}
	bad := func(err error) error {
		return fmt.Errorf("%s %q in %s, line %d: %w\n%s", k.Kind, k.Text, target.Path, lo, err, shown)
	}
	es, _ := k.Root.Flatten()
	r := c.Gl(args(k.Command, "-f", root, k.Extra)...)
	if err := r.Refused(k.Command, append(names(es), "Assets:X", "bad one", "Decoy:A")); err != nil {
		return bad(err)
	}
	re := regexp.MustCompile(`(?m)(?:^|[^\pL\pN])` + regexp.QuoteMeta(path.Base(target.Path)) + `:([0-9]+)`)
	for _, m := range re.FindAllStringSubmatch(r.All(), -1) {
		for i := lo; i <= hi; i++ {
			if m[1] == fmt.Sprint(i) {
				return nil
			}
		}
	}
	return bad(fmt.Errorf("the error does not name %s and a line from %d to %d:\n%s", target.Path, lo, hi, r.All()))
}

func rawLines(s string) []fw.Line {
	var r []fw.Line
	for _, x := range strings.Split(strings.TrimSuffix(s, "\n"), "\n") {
		k := fw.RawLine
		if x == "" {
			k = fw.BlankLine
		}
		r = append(r, fw.Line{S: x, K: k, E: -2})
	}
	return r
}

// insertFault puts the fault among the lines and returns the range of line
// numbers the error may name
func insertFault(ls []fw.Line, k *faultCase) ([]fw.Line, int, int, error) {
	var at []int               // where it may go: before line at[i]
	ends := func(i int) bool { // no entry is open before line i
		for j := i - 1; j >= 0; j-- {
			switch ls[j].K {
			case fw.IncludeLine:
				return true
			case fw.BlankLine:
				if ls[j].S == "" {
					return true
				}
			case fw.CommentLine:
			default:
				return false
			}
		}
		return true
	}
	starts := func(i int) bool { // what follows does not continue an entry
		for ; i < len(ls); i++ {
			switch ls[i].K {
			case fw.HeaderLine, fw.AllocLine, fw.IncludeLine:
				return true
			case fw.BlankLine:
				if ls[i].S == "" {
					return true
				}
				// other white space does not end an entry
			default:
				return false
			}
		}
		return true
	}
	inside := func(i int) bool { // after a complete line of an entry
		return i > 0 && !ends(i) && ls[i-1].K != fw.AllocLine
	}
	for i := 0; i <= len(ls); i++ {
		ok := false
		boundary := starts(i)
		switch k.Kind {
		case "unknown line", "bad period", "bad date":
			// an entry that would be invalid without the rest of it must not
			// be ended early by the line
			ok = boundary || k.Kind == "unknown line"
		case "bad amount", "indented":
			ok = inside(i)
		case "outside", "outside odd":
			ok = ends(i)
		default:
			ok = boundary
		}
		if ok {
			at = append(at, i)
		}
	}
	fault := rawLines(k.Text)
	first := 0
	if len(at) == 0 {
		// no entry to put it in
		fault = append(rawLines("2020-03-03 p\n    Assets:Z  5\n    Assets:W  -5"), fault...)
		first = 3
		at = []int{len(ls)}
	}
	i := at[k.At%len(at)]
	ls = append(ls[:i:i], append(append([]fw.Line{}, fault...), ls[i:]...)...)
	lo := i + first + 1
	hi := lo
	switch k.Kind {
	case "unbalanced", "two omitted", "alloc two omitted":
		hi = len(ls) + 1
		for j := i + 1; j < len(ls); j++ {
			x := ls[j]
			if x.S == "" || (x.E != -2 && (x.K == fw.HeaderLine || x.K == fw.AllocLine || x.K == fw.IncludeLine)) {
				hi = j + 1
				break
			}
		}
	}
	return ls, lo, hi, nil
}
