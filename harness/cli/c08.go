package main

import (
	"fmt"
	"math"

	"pgregory.net/rapid"
	"verifharness/fw"
)

type selCase struct {
	JCase
	C   string `json:"commodity"`
	Sel fw.Sel `json:"sel"`
}

func drawSelCase(t *rapid.T, o fw.Opt, maxFilters int) selCase {
	o.Commodity = true
	v := fw.NewVocab(t, o)
	var k selCase
	k.Entries = fits(t, func() []fw.Entry { return fw.Entries(t, v, o) })
	k.Layout = fw.DrawLayout(t)
	k.C = v.C
	k.Sel = fw.DrawSel(t, k.Entries, maxFilters)
	return k
}

// drawPassing draws a journal whose sums fit in 64 bits when all is read but,
// in between, pass the limit and come back
func drawPassing(t *rapid.T) selCase {
	o := fw.Opt{Min: 1, Max: 4, Zeros: true, MaxAcc: 6, Commodity: true}
	v := fw.NewVocab(t, o)
	k := selCase{C: v.C}
	k.Entries = fw.Entries(t, v, o)
	ts := fw.Txns(k.Entries)
	if len(ts) == 0 {
		return k
	}
	var accs []string
	for _, x := range ts {
		for _, p := range x.Postings {
			accs = append(accs, p.Account)
		}
	}
	date := ts[0].Date
	for i := fw.Int(t, 1, 4, "moves"); i > 0; i-- {
		q := math.MaxInt64 - int64(fw.Int(t, 0, 1<<40, "below"))
		a, b := rapid.SampledFrom(accs).Draw(t, "from"), rapid.SampledFrom(accs).Draw(t, "to")
		for n := fw.Int(t, 1, 3, "times"); n > 0; n-- {
			for _, s := range []int64{q, -q} {
				k.Entries = append(k.Entries, fw.Entry{T: &fw.Txn{Date: date, Payee: "moves", Postings: []fw.Posting{{Account: a, C: v.C, Q: s}, {Account: b, C: v.C, Q: -s}}}})
			}
		}
	}
	var es []fw.Entry
	for _, i := range fw.Perm(t, len(k.Entries)) {
		es = append(es, k.Entries[i])
	}
	k.Entries = es
	k.Layout = fw.DrawLayout(t)
	return k
}

func describeSel(c *fw.Ctx, k *selCase, ps []fw.Picked) {
	c.Class(fw.Describe(k.Entries)...)
	if len(k.Sel.Filters) > 0 {
		c.Class("filters")
	}
	if k.Sel.Begin != "" || k.Sel.End != "" {
		c.Class("date range")
	}
	switch n := len(fw.Txns(k.Entries)); {
	case len(ps) == 0:
		c.Class("selects nothing")
	case len(ps) < n:
		c.Class("selects some")
	default:
		c.Class("selects all")
	}
}

func init() {
	fw.Register("C08", "rollup", 12000, 160000,
		"a journal of 1-12 transactions over up to 14 accounts sharing ancestors, with amounts that often cancel, sometimes with huge ones whose running sums pass the limit of 64 bits and come back, reported by balance with or without --show-zero and a random date range and filters; non-trivial if an account with postings also has sub-accounts with postings, or a zero account stands above a non-zero one, or an account is hidden",
		func(t *rapid.T) selCase {
			if fw.Chance(t, 25, "passing") {
				return drawPassing(t)
			}
			return drawSelCase(t, fw.Opt{Min: 1, Max: 12, Zeros: true, Big: true, MaxAcc: 14}, 2)
		},
		checkRollup)

	fw.Register("C08", "many", 600, 6000,
		"a journal of a few transactions repeated to thousands of postings, often in accounts of their own and with many zeros, reported and compared as above; non-trivial as above",
		func(t *rapid.T) selCase {
			o := fw.Opt{Min: 1, Max: 6, Zeros: true, MaxAcc: 6, Commodity: true}
			v := fw.NewVocab(t, o)
			var k selCase
			k.Entries = fw.Multiply(t, fw.Entries(t, v, o))
			k.Layout = fw.DrawLayout(t)
			k.C = v.C
			if fw.Chance(t, 3, "select") {
				k.Sel = fw.DrawSel(t, k.Entries, 1)
			}
			return k
		},
		checkRollup)

	fw.Register("C09", "layouts", 20000, 130000,
		"a journal of 1-12 transactions over up to 14 accounts, reported by balance in the default, --flatten and --collapse layouts, with or without --show-zero, date range and filters, compared line by line with the model's layouts and with each other; non-trivial if the tree has a chain to collapse and siblings",
		func(t *rapid.T) selCase {
			return drawSelCase(t, fw.Opt{Min: 1, Max: 12, Zeros: true, MaxAcc: 14}, 1)
		},
		func(c *fw.Ctx, k *selCase) error {
			text := fw.Render(k.Entries, k.Layout, true)
			c.Write(jfile, text)
			ps := fw.Select(fw.Txns(k.Entries), k.Sel)
			describeSel(c, k, ps)
			want := fw.Balance(ps, len(k.Layout)%2 == 1)
			var zero []string
			if len(k.Layout)%2 == 1 {
				zero = []string{"-Z"}
			}
			var totals []int64
			chain, sib := false, false
			for kind, flag := range [][]string{nil, {"--flatten"}, {"--collapse"}} {
				a := args("balance", flag, zero, "-f", jfile, k.Sel.Args())
				out, err := c.OK(a...)
				if err != nil {
					return with(fmt.Sprint(a), err, text)
				}
				lines, total, err := fw.ParseBalance(out, k.C)
				if err != nil {
					return with(fmt.Sprint(a), err, text)
				}
				totals = append(totals, total)
				if total != totals[0] {
					return with(fmt.Sprint(a), fmt.Errorf("total is %s but %s in the default layout", fw.FormatQ(total), fw.FormatQ(totals[0])), text)
				}
				wl := want.Lines(kind)
				err = fw.DiffLines(lines, wl)
				if err == nil {
					err = fw.Aligned(out, k.C)
				}
				if err != nil {
					return with(fmt.Sprint(a), fmt.Errorf("%w\n%s", err, out), text)
				}
				if kind == fw.TreeLayout {
					for i, l := range wl {
						sib = sib || (i > 0 && l.Indent <= wl[i-1].Indent)
					}
				}
				if kind == fw.CollapsedLayout && len(wl) < len(want.Shown) {
					chain = true
				}
			}
			if chain {
				c.Class("collapsed chain")
			}
			c.Nontrivial = chain && sib
			return nil
		})
}

func checkRollup(c *fw.Ctx, k *selCase) error {
	text := fw.Render(k.Entries, k.Layout, true)
	c.Write(jfile, text)
	ps := fw.Select(fw.Txns(k.Entries), k.Sel)
	describeSel(c, k, ps)
	for _, zero := range []bool{false, true} {
		a := args("balance", "-f", jfile, k.Sel.Args())
		if zero {
			a = append(a, "--show-zero")
		}
		out, err := c.OK(a...)
		if err != nil {
			return with(fmt.Sprint(a), err, text)
		}
		lines, total, err := fw.ParseBalance(out, k.C)
		if err != nil {
			return with(fmt.Sprint(a), err, text)
		}
		got, err := fw.Paths(lines)
		if err != nil {
			return with(fmt.Sprint(a), err, text)
		}
		want := fw.Balance(ps, zero)
		for _, p := range fw.SortedKeys(want.Shown) {
			q, ok := got[p]
			if !ok {
				return with(fmt.Sprint(a), fmt.Errorf("%q (%s) is not shown:\n%s", p, fw.FormatQ(want.Amount[p]), out), text)
			}
			if q != want.Amount[p] {
				return with(fmt.Sprint(a), fmt.Errorf("%q is %s, want %s:\n%s", p, fw.FormatQ(q), fw.FormatQ(want.Amount[p]), out), text)
			}
		}
		for _, p := range fw.SortedKeys(got) {
			if !want.Shown[p] {
				return with(fmt.Sprint(a), fmt.Errorf("%q should not be shown:\n%s", p, out), text)
			}
		}
		if total != want.Total {
			return with(fmt.Sprint(a), fmt.Errorf("total is %s, want %s:\n%s", fw.FormatQ(total), fw.FormatQ(want.Total), out), text)
		}
		if !zero && len(want.Shown) < len(want.Amount) {
			c.Nontrivial = true
			c.Class("hidden accounts")
		}
		for p, q := range want.Amount {
			if q == 0 && want.Shown[p] && !zero {
				c.Nontrivial = true
				c.Class("zero above non-zero")
			}
		}
	}
	used := map[string]bool{}
	for _, p := range ps {
		for _, i := range p.Posts {
			used[p.T.Postings[i].Account] = true
		}
	}
	for u := range used {
		as := fw.Ancestors(u)
		for _, x := range as[:len(as)-1] {
			if used[x] {
				c.Nontrivial = true
				c.Class("postings at two levels")
			}
		}
	}
	return nil
}
