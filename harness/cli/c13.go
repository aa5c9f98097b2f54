package main

import (
	"fmt"

	"pgregory.net/rapid"
	"verifharness/fw"
)

// printedCase is a journal of one file, or else of a tree of files
type printedCase struct {
	selCase
	Root *fw.FileNode `json:"root,omitempty"`
}

func init() {
	fw.Register("C13", "order", 24000, 120000,
		"a journal of 2-60 (sometimes up to 12000) transactions, each with its own payee (or all with one payee, and own notes and states), on one to six days, not in order, sometimes in a tree of files, sometimes with a date range, filters and budget allocations; print must show the model's transactions in the model's order; non-trivial if some are out of order and more than twelve are on the same day as another",
		func(t *rapid.T) printedCase {
			o := fw.Opt{Min: 2, Max: 60, Commodity: true, Far: true, MaxAcc: 4, Allocs: fw.Chance(t, 4, "allocs")}
			copies := 1
			if fw.Chance(t, 60, "huge") {
				o.Min, o.Max = 100, 300
				copies = fw.OneOf(t, "copies", 1, 1, 3, 10, 40)
			}
			v := fw.NewVocab(t, o)
			if len(v.Dates) > 3 && rapid.Bool().Draw(t, "few") {
				v.Dates = v.Dates[:2]
			}
			var k printedCase
			n := fw.Int(t, o.Min, o.Max, "n")
			// the same payee on all, which then differ in state and note
			same := fw.Chance(t, 3, "same payee")
			// many transactions from few draws: templates that differ in date and payee
			tmpl := fw.Entries(t, v, fw.Opt{Min: 1, Max: 4, Allocs: o.Allocs})
			for i := 0; i < n; i++ {
				e := tmpl[i%len(tmpl)]
				if e.T != nil {
					x := *e.T
					x.Date = v.Dates[fw.Int(t, 0, len(v.Dates)-1, "date")]
					if same {
						x.State = fw.OneOf(t, "state", "", "*", "!")
						x.Payee = fw.PayeeFor(x.State, v.Payees[0])
						x.Note = fmt.Sprint(fw.OneOf(t, "first", 9, 5, 1), "-", i)
					} else {
						x.Payee = fmt.Sprintf("%s %d", x.Payee, i)
					}
					e = fw.Entry{T: &x}
				}
				k.Entries = append(k.Entries, e)
			}
			for base := k.Entries; copies > 1; copies-- {
				for _, e := range base {
					if e.T != nil {
						x := *e.T
						if same {
							x.Note = fmt.Sprintf("%s/%d", x.Note, copies)
						} else {
							x.Payee = fmt.Sprintf("%s/%d", x.Payee, copies)
						}
						k.Entries = append(k.Entries, fw.Entry{T: &x})
					}
				}
			}
			k.Layout = fw.DrawLayout(t)
			if fw.Chance(t, 3, "select") {
				k.Sel = fw.DrawSel(t, k.Entries, 1)
			}
			if len(k.Entries) < 80 && fw.Chance(t, 4, "files") {
				k.Root = drawTree(t, k.Entries)
				k.Entries = nil
			}
			return k
		},
		func(c *fw.Ctx, k *printedCase) error {
			file := jfile
			var text string
			if k.Root != nil {
				file = k.Root.Path
				text = putTree(c, k.Root, k.Layout)
				k.Entries, _ = k.Root.Flatten()
				c.Class("several files")
			} else {
				text = fw.Render(k.Entries, k.Layout, true)
				c.Write(jfile, text)
			}
			ps := fw.Select(fw.Txns(k.Entries), k.Sel)
			describeSel(c, &k.selCase, ps)
			same := map[string]int{}
			sorted := true
			for i, p := range ps {
				same[p.T.Date]++
				sorted = sorted && (i == 0 || ps[i-1].T.Date <= p.T.Date)
			}
			shared := 0
			for _, n := range same {
				if n > 1 {
					shared += n
				}
			}
			c.Nontrivial = !sorted && shared > 12
			a := args("print", "-f", file, k.Sel.Args())
			out, err := c.OK(a...)
			if err != nil {
				return with(fmt.Sprintf("%q", a), err, text)
			}
			return with(fmt.Sprintf("%q", a), fw.DiffPrinted(out, ptxns(fw.ByDate(ps))), text)
		})

	fw.Register("C14", "reread", 8000, 110000,
		"a journal of 0-10 entries with everything a journal can hold in any layout, sometimes restricted by a date range, printed; the output must be read back as the model's transactions, print byte for byte the same again, and give the same balance, accounts and payees; non-trivial if there are two transactions or more with notes and posting comments",
		func(t *rapid.T) selCase {
			o := fw.Opt{Min: 0, Max: 10, Rich: true, Odd: true, Long: true, Commodity: true, Zeros: true, Allocs: fw.Chance(t, 4, "allocs")}
			v := fw.NewVocab(t, o)
			var k selCase
			k.Entries = fw.Entries(t, v, o)
			if fw.Chance(t, 6, "huge") {
				k.Entries = append(k.Entries, fw.Huge(t, v))
			}
			k.Layout = fw.DrawLayout(t)
			k.C = v.C
			if fw.Chance(t, 4, "range") {
				k.Sel = fw.DrawSel(t, k.Entries, 0)
			}
			return k
		},
		func(c *fw.Ctx, k *selCase) error {
			text := fw.Render(k.Entries, k.Layout, true)
			c.Write(jfile, text)
			ps := fw.Select(fw.Txns(k.Entries), k.Sel)
			describeSel(c, k, ps)
			c.Nontrivial = len(ps) > 1 && richText(k.Entries)
			p1, err := c.OK(args("print", "-f", jfile, k.Sel.Args())...)
			if err != nil {
				return with("print", err, text)
			}
			if len(ps) == 0 {
				return nil
			}
			c.Write("printed.journal", p1)
			p2, err := c.OK("print", "-f", "printed.journal")
			if err != nil {
				return with("print of the printed journal", err, p1)
			}
			if err := diffText("print and print of the printed journal", p1, p2); err != nil {
				return with("original", err, text)
			}
			if err := fw.DiffPrinted(p2, ptxns(fw.ByDate(ps))); err != nil {
				return with("print of the printed journal", err, text)
			}
			for _, v := range [][]string{{"balance", "-Z"}, {"balance", "-F"}, {"accounts"}, {"payees"}} {
				a, err := c.OK(args(v, "-f", jfile, k.Sel.Args())...)
				if err != nil {
					return with(fmt.Sprint(v), err, text)
				}
				b, err := c.OK(args(v, "-f", "printed.journal")...)
				if err != nil {
					return with(fmt.Sprint(v), err, p1)
				}
				if err := diffText(fmt.Sprintf("%v of the journal and of its print", v), a, b); err != nil {
					return with("original", err, text)
				}
			}
			return nil
		})
}
