package main

import (
	"fmt"

	"pgregory.net/rapid"
	"verifharness/fw"
)

// budgetOf reads the budget report of a journal
func budgetOf(c *fw.Ctx, a []string) ([]fw.BudgetMonth, error) {
	out, err := c.OK(a...)
	if err != nil {
		return nil, err
	}
	ms, err := fw.ParseBudget(out)
	if err != nil {
		return nil, fmt.Errorf("%w\n%s", err, out)
	}
	return ms, nil
}

func describeBudget(c *fw.Ctx, ms []fw.BudgetMonth) (rich bool) {
	for _, m := range ms {
		both := false
		for _, r := range m.Rows {
			switch {
			case r.Budgeted != 0 && r.Activity != 0:
				c.Class("budgeted and spent")
				both = true
			case r.Budgeted != 0:
				c.Class("only budgeted")
			case r.Activity != 0:
				c.Class("only spent")
			default:
				c.Class("zero row")
			}
			if r.Available < 0 {
				c.Class("overspent")
			}
		}
		if m.Funds != 0 {
			c.Class("funds")
		}
		if len(m.Rows) == 0 {
			c.Class("month without categories")
		}
		rich = rich || (both && len(m.Rows) > 1)
	}
	if len(ms) > 1 {
		c.Class("several months")
	}
	return rich
}

func init() {
	fw.Register("C18", "budget", 24000, 240000,
		"a journal of 1-12 transactions over Income, Expenses, their sub-accounts and accounts of similar names, with budget allocations in between, in one to six months; every month, row and figure of the budget report must be the model's; non-trivial if a month has two categories or more, one of them both budgeted and spent on",
		func(t *rapid.T) JCase {
			o := fw.Opt{Min: 1, Max: 12, Money: true, Far: true, Commodity: true, Allocs: !fw.Chance(t, 8, "noallocs"), Zeros: true, Big: fw.Chance(t, 5, "big"), Rich: fw.Chance(t, 3, "rich")}
			v := fw.NewVocab(t, o)
			if fw.Chance(t, 3, "months") {
				v.Dates = []string{"2020-01-31", "2020-02-01", "2020-02-29", "2020-01-01"}
			}
			return JCase{fits(t, func() []fw.Entry { return fw.Entries(t, v, o) }), fw.DrawLayout(t)}
		},
		func(c *fw.Ctx, k *JCase) error {
			text := fw.Render(k.Entries, k.Layout, true)
			c.Write(jfile, text)
			got, err := budgetOf(c, []string{"budget", "-f", jfile})
			if err != nil {
				return with("budget", err, text)
			}
			want := fw.Budget(fw.Select(fw.Txns(k.Entries), fw.Sel{}), fw.Allocs(k.Entries))
			c.Nontrivial = describeBudget(c, want)
			if err := fw.DiffBudget(got, want); err != nil {
				return with("budget", err, text)
			}
			return with("budget", oneCommodity(got, k.Entries), text)
		})

	fw.Register("C18", "selected", 12000, 100000,
		"such a journal with a date range, filters or both; the funds of every month and the activity of every category must be those of the selected postings; non-trivial if some postings to Income or Expenses are selected and some are not",
		func(t *rapid.T) budgetSelCase {
			o := fw.Opt{Min: 1, Max: 10, Money: true, Commodity: true, Rich: true, Allocs: fw.Chance(t, 2, "allocs")}
			v := fw.NewVocab(t, o)
			if fw.Chance(t, 3, "months") {
				v.Dates = []string{"2020-01-31", "2020-02-01", "2020-02-29", "2020-01-01"}
			}
			var k budgetSelCase
			k.Entries = fw.Entries(t, v, o)
			k.Layout = fw.DrawLayout(t)
			if fw.Chance(t, 2, "range") {
				k.Sel = fw.DrawSel(t, k.Entries, 0)
			}
			k.Sel.Filters = fw.Filters(t, k.Entries, 0, 3)
			return k
		},
		func(c *fw.Ctx, k *budgetSelCase) error {
			text := fw.Render(k.Entries, k.Layout, true)
			c.Write(jfile, text)
			a := args("budget", "-f", jfile, k.Sel.Args())
			got, err := budgetOf(c, a)
			if err != nil {
				return with(fmt.Sprintf("%q", a), err, text)
			}
			all := flatBudget(fw.Budget(fw.Select(fw.Txns(k.Entries), fw.Sel{}), nil))
			want := flatBudget(fw.Budget(fw.Select(fw.Txns(k.Entries), k.Sel), nil))
			c.Nontrivial = len(want) > 0 && fmt.Sprint(want) != fmt.Sprint(all)
			switch {
			case len(want) == 0:
				c.Class("nothing selected")
			case c.Nontrivial:
				c.Class("part selected")
			default:
				c.Class("all selected")
			}
			return with(fmt.Sprintf("%q", a), diffFlat(flatBudget(got), want), text)
		})

	fw.Register("C21", "files", 2250, 30000,
		"a journal of 1-10 entries, transactions and allocations, spread over a tree of files of which some may hold allocations only, and the same files without the allocations; the five other reports (with a random selection), the list of files of the statistics included, must be the same, and the budget's funds and activity too; non-trivial if a file holds allocations only",
		func(t *rapid.T) allocFilesCase {
			o := fw.Opt{Min: 1, Max: 8, Commodity: true, Rich: true, Odd: true, Money: !fw.Chance(t, 3, "anyaccounts")}
			v := fw.NewVocab(t, o)
			var es []fw.Entry
			for _, e := range fw.Entries(t, v, o) {
				for n := fw.OneOf(t, "allocations", 0, 1, 0, 2, 4); n > 0; n-- {
					es = append(es, fw.Entry{A: fw.Allocation(t, v, o)})
				}
				es = append(es, e)
			}
			k := allocFilesCase{Root: drawTree(t, es), Layout: fw.DrawLayout(t), Commands: drawVariants(t, 3)}
			k.Sel = fw.DrawSel(t, es, 1)
			return k
		},
		func(c *fw.Ctx, k *allocFilesCase) error {
			for _, f := range k.Root.Files() {
				ts, as := 0, 0
				for _, it := range f.Items {
					if it.E != nil && it.E.T != nil {
						ts++
					} else if it.E != nil {
						as++
					}
				}
				c.Nontrivial = c.Nontrivial || ts == 0 && as > 0
			}
			report := func(root *fw.FileNode) (string, []string, []fw.BudgetMonth, error) {
				shown := putTree(c, root, k.Layout)
				var outs []string
				for _, cmd := range append([]string{"[statistics]", "[print]"}, k.Commands...) {
					v := variant(cmd)
					if v[0] == "budget" {
						v = []string{"balance"}
					}
					sel := k.Sel
					if v[0] == "accounts" || v[0] == "payees" {
						sel.Filters = nil
					}
					a := args(v, "-f", rootFile, sel.Args())
					out, err := c.OK(a...)
					if err != nil {
						return shown, nil, nil, fmt.Errorf("%q: %w", a, err)
					}
					if v[0] == "statistics" {
						out = fw.NoRelTime(out)
					}
					outs = append(outs, fmt.Sprintf("%q\n%s", a, out))
				}
				b, err := budgetOf(c, []string{"budget", "-f", rootFile})
				return shown, outs, b, err
			}
			shown, a, ab, err := report(withoutAllocs(k.Root))
			if err != nil {
				return fmt.Errorf("without allocations: %w\n%s", err, shown)
			}
			shown, b, bb, err := report(k.Root)
			if err != nil {
				return fmt.Errorf("with allocations: %w\n%s", err, shown)
			}
			for i := range a {
				if err := diffText("the reports without and with allocations", a[i], b[i]); err != nil {
					return fmt.Errorf("%w\n%s", err, shown)
				}
			}
			if err := diffFlat(flatBudget(bb), flatBudget(ab)); err != nil {
				return fmt.Errorf("budget with allocations: %w\n%s", err, shown)
			}
			return nil
		})

	fw.Register("C21", "allocations", 5250, 90000,
		"a journal of 1-10 transactions and the same with one to eight budget allocations inserted between its entries; the five other reports (with a random selection) must be the same, and the budget's funds and activity too; non-trivial if an allocation stands between transactions, or two are adjacent",
		func(t *rapid.T) allocCase {
			o := fw.Opt{Min: 1, Max: 10, Commodity: true, Rich: true, Far: true, Odd: true, Money: !fw.Chance(t, 3, "anyaccounts")}
			v := fw.NewVocab(t, o)
			var k allocCase
			k.Entries = fw.Entries(t, v, o)
			k.Layout = fw.DrawLayout(t)
			n := fw.Int(t, 1, 8, "allocations")
			if fw.Chance(t, 50, "many") {
				n = fw.Int(t, 20, 200, "allocations")
			}
			for i := 0; i < n; i++ {
				k.Allocs = append(k.Allocs, *fw.Allocation(t, v, o))
				k.At = append(k.At, fw.Int(t, 0, len(k.Entries), "at"))
			}
			k.Sel = fw.DrawSel(t, k.Entries, 1)
			k.Command = fmt.Sprint(rapid.SampledFrom(variants[1:7]).Draw(t, "variant"))
			return k
		},
		func(c *fw.Ctx, k *allocCase) error {
			base := fw.Render(k.Entries, nil, false)
			var es []fw.Entry
			for i := 0; i <= len(k.Entries); i++ {
				run := 0
				for j := range k.Allocs {
					if k.At[j] == i {
						es = append(es, fw.Entry{A: &k.Allocs[j]})
						run++
					}
				}
				c.Nontrivial = c.Nontrivial || run > 1 || (run > 0 && i > 0 && i < len(k.Entries))
				if i < len(k.Entries) {
					es = append(es, k.Entries[i])
				}
			}
			text := fw.Render(es, k.Layout, false)
			c.Write("base.journal", base)
			c.Write(jfile, text)
			c.Class("variant:" + k.Command)
			for _, v := range [][]string{{"print"}, variant(k.Command)} {
				sel := k.Sel
				if v[0] == "accounts" || v[0] == "payees" {
					sel.Filters = nil
				}
				a, err := c.OK(args(v, "-f", "base.journal", sel.Args())...)
				if err != nil {
					return with(fmt.Sprint(v), err, base)
				}
				b, err := c.OK(args(v, "-f", jfile, sel.Args())...)
				if err != nil {
					return with(fmt.Sprint(v), err, text)
				}
				if v[0] == "statistics" {
					// the file has another name
					_, a = filesPart(a)
					_, b = filesPart(b)
				}
				if err := diffText(fmt.Sprintf("%v %q without and with allocations", v, sel.Args()), a, b); err != nil {
					return with("with allocations", err, text)
				}
			}
			a, err := budgetOf(c, []string{"budget", "-f", "base.journal"})
			if err != nil {
				return with("budget", err, base)
			}
			b, err := budgetOf(c, []string{"budget", "-f", jfile})
			if err != nil {
				return with("budget", err, text)
			}
			return with("budget with allocations", diffFlat(flatBudget(b), flatBudget(a)), text)
		})
}

type allocFilesCase struct {
	Root     *fw.FileNode `json:"root"`
	Layout   []byte       `json:"layout,omitempty"`
	Sel      fw.Sel       `json:"sel"`
	Commands []string     `json:"commands"`
}

// withoutAllocs copies a tree of files but for their allocations
func withoutAllocs(f *fw.FileNode) *fw.FileNode {
	r := &fw.FileNode{Path: f.Path}
	for _, it := range f.Items {
		if it.Inc != nil {
			it.Inc = withoutAllocs(it.Inc)
		} else if it.E.T == nil {
			continue
		}
		r.Items = append(r.Items, it)
	}
	return r
}

type allocCase struct {
	JCase
	Allocs  []fw.Alloc `json:"allocs"`
	At      []int      `json:"at"`
	Sel     fw.Sel     `json:"sel"`
	Command string     `json:"command"`
}

type budgetSelCase struct {
	JCase
	Sel fw.Sel `json:"sel"`
}

type budgetKey struct{ month, cat string }

// flatBudget gives the funds and activities other than zero
func flatBudget(ms []fw.BudgetMonth) map[budgetKey]int64 {
	m := map[budgetKey]int64{}
	add := func(k budgetKey, q int64) {
		if q != 0 {
			m[k] += q
		}
	}
	for _, x := range ms {
		add(budgetKey{x.Month, ""}, x.Funds)
		for _, r := range x.Rows {
			add(budgetKey{x.Month, "category " + r.Name}, r.Activity)
		}
	}
	return m
}

func diffFlat(got, want map[budgetKey]int64) error {
	for _, m := range []map[budgetKey]int64{want, got} {
		for k := range m {
			if got[k] != want[k] {
				what := "funds"
				if k.cat != "" {
					what = "activity of " + k.cat
				}
				return fmt.Errorf("%s: %s are %s, want %s", k.month, what, fw.FormatQ(got[k]), fw.FormatQ(want[k]))
			}
		}
	}
	return nil
}

// oneCommodity checks that amounts are shown in the journal's only commodity
func oneCommodity(ms []fw.BudgetMonth, es []fw.Entry) error {
	var cs []string
	for _, e := range es {
		for _, p := range fw.PostingsOf(e) {
			if !p.Elided {
				cs = append(cs, p.C)
			}
		}
	}
	if cs = fw.Distinct(cs); len(cs) != 1 {
		return nil
	}
	for _, m := range ms {
		for c, what := range m.Commodities {
			if c != cs[0] {
				return fmt.Errorf("%s: %s shown in commodity %q, want %q", m.Month, what[0], c, cs[0])
			}
		}
	}
	return nil
}
