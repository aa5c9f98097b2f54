// The in-process checks of the parser
package main

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"math/big"
	"path/filepath"
	"regexp"
	"strings"
	"time"

	"github.com/rikchilvers/gledger/journal"
	"github.com/rikchilvers/gledger/parser"
	"pgregory.net/rapid"
	"verifharness/fw"
)

func main() { fw.Main(true) }

type readCase struct {
	Entries []fw.Entry `json:"entries"`
	Layout  []byte     `json:"layout,omitempty"`
	Chunk   int        `json:"chunk"` // how the reader delivers the text
}

// chunked delivers a text in small pieces
type chunked struct {
	r io.Reader
	n int
}

func (c chunked) Read(p []byte) (int, error) {
	if c.n > 0 && len(p) > c.n {
		p = p[:c.n]
	}
	return c.r.Read(p)
}

func reader(text string, chunk int) io.Reader { return chunked{strings.NewReader(text), chunk} }

// read parses a text and returns what the handlers were given, in order. The
// transactions are looked at only after the end so that shared memory shows.
func read(r io.Reader, file string) (es []fw.Entry, paths []string, err error) {
	look, paths, err := gather(r, file)
	return look(), paths, err
}

// gather is read, but the transactions are looked at when look is called
func gather(r io.Reader, file string) (look func() []fw.Entry, paths []string, err error) {
	type got struct {
		t *journal.Transaction
		p *journal.PeriodicTransaction
	}
	var gs []got
	p := parser.NewParser(
		func(t *journal.Transaction, path string) error {
			gs = append(gs, got{t: t})
			paths = append(paths, path)
			return nil
		},
		func(p *journal.PeriodicTransaction, path string) error {
			gs = append(gs, got{p: p})
			paths = append(paths, path)
			return nil
		})
	err = p.Parse(r, file)
	postings := func(ps []*journal.Posting) (r []fw.Posting) {
		for _, p := range ps {
			x := fw.Posting{Account: p.AccountPath, Comments: p.Comments}
			if p.Amount != nil {
				x.Q, x.C = p.Amount.Quantity, p.Amount.Commodity
			}
			r = append(r, x)
		}
		return
	}
	look = func() (es []fw.Entry) {
		for _, g := range gs {
			if g.t != nil {
				s := ""
				switch g.t.State {
				case journal.ClearedState:
					s = "*"
				case journal.UnclearedState:
					s = "!"
				}
				es = append(es, fw.Entry{T: &fw.Txn{Date: g.t.Date.Format("2006-01-02"), State: s, Payee: g.t.Payee, Note: g.t.HeaderNote, Notes: g.t.Notes, Postings: postings(g.t.Postings)}})
			} else {
				// the counterpart the parser gives every allocation is not the
				// journal's
				var own []*journal.Posting
				for _, p := range g.p.Transaction.Postings {
					if p.AccountPath != journal.BudgetRootID {
						own = append(own, p)
					}
				}
				es = append(es, fw.Entry{A: &fw.Alloc{Month: g.p.Period.StartDate.Format("2006-01"), Notes: g.p.Transaction.Notes, Postings: postings(own)}})
			}
		}
		return es
	}
	return
}

func diffEntries(got, want []fw.Entry) error {
	for i, w := range want {
		if i >= len(got) {
			return fmt.Errorf("entry %d was not read", i+1)
		}
		g := got[i]
		if (g.T == nil) != (w.T == nil) {
			return fmt.Errorf("entry %d is of the other kind", i+1)
		}
		if w.T != nil {
			if err := fw.DiffTxn(g.T, w.T); err != nil {
				return fmt.Errorf("entry %d: %w", i+1, err)
			}
			continue
		}
		if g.A.Month != w.A.Month {
			return fmt.Errorf("entry %d is for %s, want %s", i+1, g.A.Month, w.A.Month)
		}
		if err := fw.DiffTxn(&fw.Txn{Postings: g.A.Postings, Notes: g.A.Notes}, &fw.Txn{Postings: w.A.Postings, Notes: w.A.Notes}); err != nil {
			return fmt.Errorf("entry %d, the allocation for %s: %w", i+1, w.A.Month, err)
		}
	}
	if len(got) > len(want) {
		return fmt.Errorf("%d entries were read, want %d", len(got), len(want))
	}
	return nil
}

type amountCase struct {
	C    string `json:"commodity"`
	Text string `json:"text"`
}

type smartCase struct {
	Text string `json:"text"`
}

type bytesCase struct {
	Data  []byte `json:"data"`
	Chunk int    `json:"chunk"`
}

// SetRaw makes a case of a text
func (k *bytesCase) SetRaw(b []byte) { k.Data, k.Chunk = b, 7 }

func init() {
	fw.Register("C03", "handlers", 60000, 1200000,
		"a journal of 0-10 entries with arbitrary Unicode texts in any layout, read in pieces of any size, the transactions and allocations given to the handlers compared in file order with those written, after the whole file is read; non-trivial if there are two transactions or more and one has notes and comments",
		func(t *rapid.T) readCase {
			o := fw.Opt{Min: 0, Max: 10, Rich: true, Long: true, Odd: true, Commodity: true, PerTxn: true, Allocs: true}
			v := fw.NewVocab(t, o)
			return readCase{fw.Entries(t, v, o), fw.DrawLayout(t), fw.OneOf(t, "chunk", 0, 1, 2, 3, 7, 100, 4095)}
		},
		func(c *fw.Ctx, k *readCase) error {
			text := fw.Render(k.Entries, k.Layout, true)
			c.Class(fw.Describe(k.Entries)...)
			rich := false
			for _, x := range fw.Txns(k.Entries) {
				for _, p := range x.Postings {
					rich = rich || (len(p.Comments) > 0 && (len(x.Notes) > 0 || x.Note != ""))
				}
			}
			c.Nontrivial = rich && len(fw.Txns(k.Entries)) > 1
			got, paths, err := read(reader(text, k.Chunk), "dir/the file")
			if err == nil {
				err = diffEntries(got, k.Entries)
			}
			for _, p := range paths {
				if err == nil && filepath.Clean(p) != "dir/the file" {
					err = fmt.Errorf("an entry is said to be in %q", p)
				}
			}
			if err != nil {
				return fmt.Errorf("%w\njournal:\n%s", err, fw.Show(text))
			}
			return nil
		})

	fw.Register("C07", "lines", 200000, 1500000,
		"a well-formed journal changed at one to three places, or pieces of journals put together, read by the parser; an independent reader, which keeps to what is beyond doubt, says which line makes it invalid, or else what every line contributes; non-trivial if it is rejected for a line the reader found or accepted",
		func(t *rapid.T) bytesCase {
			if fw.Chance(t, 3, "pieces") {
				return drawBytes(t)
			}
			return bytesCase{Data: fw.MutatedJournal(t), Chunk: 0}
		},
		func(c *fw.Ctx, k *bytesCase) error {
			j := fw.Judge(string(k.Data))
			if j.Skip || includes(k.Data) {
				c.Class("cannot be judged")
				return nil
			}
			got, _, err := read(reader(string(k.Data), k.Chunk), "the.journal")
			c.Nontrivial = j.Why != "" || err == nil
			switch {
			case j.Why != "":
				c.Class("bad")
			case j.Sure:
				c.Class("good")
			default:
				c.Class("unsure")
			}
			if err != nil {
				err = j.Rejected(err.Error(), "the.journal")
			} else {
				err = j.Accepted(got)
			}
			if err != nil {
				return fmt.Errorf("%w\njournal:\n%s", err, fw.Show(string(k.Data)))
			}
			return nil
		})

	fw.Register("C02", "amounts", 150000, 2500000,
		"the text of an amount, well-formed or not (digits, points, signs, commodities, Unicode digits, exponents, spaces in odd places), as one posting of a transaction whose other posting has no amount; it must be read as the exact number or rejected; non-trivial if it has a point or is rejected",
		drawAmount, checkAmount)

	fw.Register("C11", "dates", 750000, 2500000,
		"a date argument in one of the short forms, or nearly one, read by the parser of dates; must be the day the model gives or be refused; non-trivial if it is a short form or is refused",
		func(t *rapid.T) smartCase { return smartCase{fw.SmartText(t)} },
		func(c *fw.Ctx, k *smartCase) error {
			for {
				y := time.Now().Year()
				want, ok := fw.SmartDate(k.Text, y)
				d, err := parser.ParseSmartDate(k.Text)
				if time.Now().Year() != y {
					continue
				}
				c.Nontrivial = !ok || len(k.Text) < 10
				if ok {
					c.Class(fmt.Sprintf("form of %d bytes", len(k.Text)))
				} else {
					c.Class("refused")
				}
				if ok && err != nil {
					return fmt.Errorf("%q, which is %s, is refused: %v", k.Text, want, err)
				}
				if !ok && err == nil {
					return fmt.Errorf("%q is read as %s", k.Text, d.Format("2006-01-02"))
				}
				if ok && d.Format("2006-01-02") != want {
					return fmt.Errorf("%q is read as %s, want %s", k.Text, d.Format("2006-01-02"), want)
				}
				return nil
			}
		})

	fw.Register("C06", "parser", 120000, 3000000,
		"any bytes, or pieces of journals put together, read by the parser in pieces of any size; it must end without a panic, and give the same result however the text is delivered; non-trivial if it has three lines or more",
		drawBytes,
		func(c *fw.Ctx, k *bytesCase) error {
			c.Nontrivial = bytes.Count(k.Data, []byte("\n")) >= 3
			if includes(k.Data) {
				c.Class("include")
				return nil
			}
			a, _, e1 := read(bytes.NewReader(k.Data), "f")
			b, _, e2 := read(chunked{bytes.NewReader(k.Data), k.Chunk}, "f")
			if (e1 == nil) != (e2 == nil) {
				return fmt.Errorf("delivered whole: %v, in pieces: %v", e1, e2)
			}
			if e1 == nil {
				c.Class("accepted")
			} else {
				c.Class("rejected")
			}
			return diffEntries(b, a)
		})
}

// includes tells whether the text may open other files, which only the checks
// of the program do
func includes(b []byte) bool { return bytes.Contains(bytes.ToLower(b), []byte("include")) }

var pieces = []string{"2020-01-01", "2020/02/30", "2020.1.1", " ", "  ", "    ", "\t", "\n", "\r\n", "\r", ";", "#", "; note", "*", "!", "~", "~ 2020-01", "~ 2020-13", "~ every", "A", "Assets:Cash", ":", "£", "$5", "1.00", "-1.00", "+.5", "1e9", "9223372036854775807", "92233720368547758.07", "\x00", "\xff\xfe", "é", "日", "\u00a0", "\u2028", "\ufeff", "-", "--", "~ monthly", "2020-01-01 * x\n    A    1\n    B\n", "2020-01-01 x\n  A  1.00\n  B  -1.00\n\n", "~ 2020-01\n    Food    £5.00\n", "    ; c\n", "p\n"}

func drawBytes(t *rapid.T) bytesCase {
	k := bytesCase{Chunk: fw.OneOf(t, "chunk", 1, 2, 3, 5, 64)}
	switch fw.Int(t, 0, 3, "kind") {
	case 3:
		k.Data = fw.MutatedJournal(t)
	case 0:
		k.Data = rapid.SliceOfN(rapid.Byte(), 0, 200).Draw(t, "bytes")
	case 1:
		n := fw.Int(t, 0, 40, "pieces")
		for i := 0; i < n; i++ {
			k.Data = append(k.Data, rapid.SampledFrom(pieces).Draw(t, "piece")...)
		}
	case 2:
		o := fw.Opt{Min: 1, Max: 4, Rich: true, Odd: true, Commodity: true, Allocs: true}
		v := fw.NewVocab(t, o)
		k.Data = []byte(fw.Render(fw.Entries(t, v, o), fw.DrawLayout(t), true))
		for n := fw.Int(t, 0, 4, "edits"); n > 0 && len(k.Data) > 0; n-- {
			i := fw.Int(t, 0, len(k.Data)-1, "at")
			j := i + fw.Int(t, 0, 8, "length")
			if j > len(k.Data) {
				j = len(k.Data)
			}
			k.Data = append(append(append([]byte{}, k.Data[:i]...), rapid.SampledFrom(pieces).Draw(t, "piece")...), k.Data[j:]...)
		}
	}
	return k
}

func drawAmount(t *rapid.T) amountCase {
	com := rapid.SampledFrom(fw.Commodities).Draw(t, "commodity")
	sign := fw.OneOf(t, "sign", "", "", "-", "+")
	digits := func(label string, max int) string {
		return rapid.StringMatching(fmt.Sprintf("[0-9]{1,%d}", max)).Draw(t, label)
	}
	u := digits("units", fw.OneOf(t, "size", 1, 3, 9, 17, 21))
	if fw.Chance(t, 10, "edge") {
		u = fw.OneOf(t, "edge", "92233720368547758", "92233720368547759", "9223372036854775807", "9223372036854775808", "18446744073709551616", "184467440737095516", "000000000000000000000000000005", "0")
	}
	if fw.Chance(t, 12, "nounits") {
		u = ""
	}
	f := ""
	switch fw.Int(t, 0, 5, "fraction") {
	case 0:
	case 1:
		f = "." + digits("fraction", 1)
	case 2, 3:
		f = "." + rapid.StringMatching("[0-9][0-9]").Draw(t, "fraction")
	case 4:
		f = fw.OneOf(t, "fraction", ".07", ".08", ".10", ".00", ".99", ".50")
	case 5:
		f = fw.OneOf(t, "fraction", ".", ".000", ".123", ".5.5", "..5", ",5", ".-5", ".+5", ".5-", ". 5", ".٥", ".5e1", ".05 ", ".1_0")
	}
	s := sign + u + f
	if s != "" && fw.Chance(t, 6, "mutation") {
		r := []rune(s)
		i := fw.Int(t, 1, len(r), "at")
		ins := fw.OneOf(t, "inserted", "-", "+", ".", ",", "e", "x", "_", "0x", "٣", "5", "'", "%", "(", "½")
		s = string(r[:i]) + ins + string(r[i:])
	}
	if s != "" && fw.Chance(t, 12, "suffix") {
		s = strings.TrimRight(s, " ") + fw.OneOf(t, "suffix", " @ 2.00", " @2", "@2", " @@ 3", " = 5.00", " =5", "=", " {1.00}", " [2020]", " USD", "USD", "%", ")", " 000", "'000", ",000.00", "/2", "*2", " -", " (x)", "d", "h", "L", "k", "M")
	}
	return amountCase{C: com, Text: s}
}

var goodAmount = regexp.MustCompile(`^([+-]?)([0-9]+)(?:\.([0-9]{1,2}))?$`)

var pointFirst = regexp.MustCompile(`^\.[0-9]+$`)

// meaning is the model: the hundredths a number denotes, if it does
func meaning(s string) (q int64, ok, unsure bool) {
	m := goodAmount.FindStringSubmatch(strings.TrimRight(s, " "))
	if m == nil {
		return 0, false, false
	}
	n, _ := new(big.Int).SetString(m[2]+(m[3] + "00")[:2], 10)
	if m[1] == "-" {
		n.Neg(n)
	}
	return n.Int64(), n.IsInt64(), n.IsInt64() && n.Int64() == math.MinInt64
}

func checkAmount(c *fw.Ctx, k *amountCase) error {
	com := k.C
	q, ok, unsure := meaning(k.Text)
	// "kr" and ".50" could be "kr." and "50", and ",5" is five in commodity ","
	if k.Text != "" && !strings.Contains("+-0123456789", k.Text[:1]) && !pointFirst.MatchString(k.Text) {
		unsure = true
	}
	if unsure || (strings.HasPrefix(k.Text, ".") && fw.EndsInLetter(k.C)) {
		c.Class("not in the domain")
		return nil
	}
	text := "2020-01-01 p\n    A    " + k.C + k.Text + "\n    B\n"
	got, _, err := read(strings.NewReader(text), "f")
	c.Nontrivial = !ok || strings.Contains(k.Text, ".")
	if !ok {
		c.Class("rejected")
		if err == nil {
			g := got[0].T.Postings[0]
			return fmt.Errorf("amount %q is read as %q %s", k.C+k.Text, g.C, fw.FormatQ(g.Q))
		}
		return nil
	}
	c.Class("accepted")
	if err != nil {
		return fmt.Errorf("amount %q is rejected: %v", k.C+k.Text, err)
	}
	want := []fw.Entry{{T: &fw.Txn{Date: "2020-01-01", Payee: "p", Postings: []fw.Posting{{Account: "A", Q: q, C: com}, {Account: "B", Q: -q, C: com}}}}}
	if err := diffEntries(got, want); err != nil {
		return fmt.Errorf("amount %q: %w", k.C+k.Text, err)
	}
	return nil
}
