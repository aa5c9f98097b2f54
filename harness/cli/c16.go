package main

import (
	"fmt"
	"math"
	"sort"
	"time"

	"pgregory.net/rapid"
	"verifharness/fw"
)

type statsCase struct {
	Root   *fw.FileNode `json:"root"`
	Layout []byte       `json:"layout,omitempty"`
	Sel    fw.Sel       `json:"sel"`
}

type ageDay struct {
	Offset int     `json:"offset"` // days from 2015-01-01
	Spend  bool    `json:"spend"`
	Parts  []int64 `json:"parts"` // in hundredths; all but the last may be negative
}

type ageCase struct {
	Days   []ageDay `json:"days"`
	Order  []int    `json:"order"`
	Sel    fw.Sel   `json:"sel"`
	Layout []byte   `json:"layout,omitempty"`
	Noise  int      `json:"noise"`
	Payees int      `json:"payees"` // how many there are, 0 for one per day
}

func init() {
	fw.Register("C16", "statistics", 25000, 130000,
		"a journal of 0-14 transactions in one file or a tree of files, reported by statistics with a random date range and filters, every figure compared with the model; non-trivial if some but not all transactions are selected, or they span several files or days",
		func(t *rapid.T) statsCase {
			o := fw.Opt{Min: 0, Max: 14, Rich: true, Commodity: true, Far: true}
			v := fw.NewVocab(t, o)
			if fw.Chance(t, 3, "lately") {
				today := time.Now().UTC().Format("2006-01-02")
				for n := fw.Int(t, 1, 4, "dates"); n > 0; n-- {
					v.Dates = append(v.Dates, fw.AddDays(today, fw.OneOf(t, "sign", -1, -1, 1)*fw.OneOf(t, "days", 0, 1, 2, 5, 9, 13, 20, 40, 100, 300, 400, 600, 900, 5000, 13000)))
				}
			}
			es := fw.Entries(t, v, o)
			k := statsCase{Layout: fw.DrawLayout(t)}
			if fw.Chance(t, 2, "tree") {
				k.Root = drawTree(t, es)
			} else {
				k.Root = &fw.FileNode{Path: rootFile}
				for i := range es {
					k.Root.Items = append(k.Root.Items, fw.Item{E: &es[i]})
				}
			}
			k.Sel = fw.DrawSel(t, es, 2)
			return k
		},
		func(c *fw.Ctx, k *statsCase) error {
			es, files := k.Root.Flatten()
			shown := putTree(c, k.Root, k.Layout)
			ps := fw.Select(fw.Txns(es), k.Sel)
			days := map[string]bool{}
			for _, p := range ps {
				days[p.T.Date] = true
			}
			c.Nontrivial = len(ps) > 0 && (len(ps) < len(fw.Txns(es)) || len(days) > 1 || len(k.Root.Files()) > 1)
			switch {
			case len(ps) == 0:
				c.Class("selects nothing")
			case len(days) == 1:
				c.Class("one day")
			default:
				c.Class("several days")
			}
			a := args("statistics", "-f", rootFile, k.Sel.Args())
			bad := func(err error) error { return fmt.Errorf("%q: %w\n%s", a, err, shown) }
			today := time.Now().UTC().Format("2006-01-02")
			out, err := c.OK(a...)
			if err != nil {
				return bad(err)
			}
			s, err := fw.ParseStats(out)
			if err != nil {
				return bad(err)
			}
			if err := diffStats(s, ps); err != nil {
				return bad(fmt.Errorf("%w\n%s", err, out))
			}
			if !s.Empty {
				for _, x := range [][2]string{{s.First, s.FirstAgo}, {s.Last, s.LastAgo}} {
					if err := fw.Ago(x[0], x[1], today); err != nil {
						return bad(fmt.Errorf("%w\n%s", err, out))
					}
				}
			}
			if err := wantFiles(c, s, es, files, k.Sel); err != nil {
				return bad(err)
			}
			return nil
		})

	fw.Register("C17", "age", 48000, 250000,
		"days of income and spending (up to 40, sometimes 500, with totals that are positive, in several postings and sub-accounts, sometimes using income up exactly, days in any order, before or after each other) among other postings, sometimes with a date range; the age of money must be the model's; non-trivial if there are more than ten pairings, or a spending day uses several income days",
		func(t *rapid.T) ageCase {
			var k ageCase
			n := fw.Int(t, 1, fw.OneOf(t, "size", 6, 14, 40), "days")
			if fw.Chance(t, 60, "large") {
				n = fw.Int(t, 100, 500, "days")
			}
			span := fw.OneOf(t, "span", 30, 400, 4000, 30000, 400, 4000, 2500000)
			equal := fw.Chance(t, 3, "equal")
			// amounts too large for a float64, nearly equal
			huge := n <= 40 && fw.Chance(t, 8, "huge")
			for i := 0; i < n; i++ {
				d := ageDay{Offset: fw.Int(t, 0, span, "offset"), Spend: rapid.Bool().Draw(t, "spend")}
				if i > 0 && fw.Chance(t, 5, "again") {
					d = ageDay{Offset: k.Days[i-1].Offset, Spend: k.Days[i-1].Spend}
				}
				if huge {
					d.Parts = []int64{5e16 + int64(fw.Int(t, -2, 2, "amount"))}
				} else if equal {
					d.Parts = []int64{int64(fw.OneOf(t, "amount", 100, 200, 300, 50))}
				} else {
					for m := fw.Int(t, 1, 3, "parts"); m > 0; m-- {
						d.Parts = append(d.Parts, int64(fw.Int(t, 1, 100000, "amount")))
					}
					if len(d.Parts) > 1 && fw.Chance(t, 4, "refund") {
						// money back on the same day, less than was paid
						d.Parts[0] = -fw.Min(d.Parts[0], d.Parts[len(d.Parts)-1]-1)
					}
				}
				k.Days = append(k.Days, d)
			}
			k.Order = fw.Perm(t, n)
			if fw.Chance(t, 4, "inorder") {
				for i := range k.Order {
					k.Order[i] = i
				}
			}
			k.Layout = fw.DrawLayout(t)
			k.Noise = fw.Int(t, 0, 5, "noise")
			if fw.Chance(t, 3, "few payees") {
				k.Payees = fw.Int(t, 1, 3, "payees")
			}
			if fw.Chance(t, 4, "range") {
				k.Sel.Begin = fw.AddDays("2015-01-01", fw.Int(t, 0, span, "begin"))
			}
			if fw.Chance(t, 4, "rangeend") {
				k.Sel.End = fw.AddDays("2015-01-01", fw.Int(t, 0, span, "end"))
			}
			if fw.Chance(t, 6, "filters") {
				k.Sel.Filters = fw.OneOf(t, "filters", []string{"^Expenses", "^Income"}, []string{"Food", "Income$"}, []string{"e"}, []string{"@p[0-9]$"})
			}
			return k
		},
		checkAge)
}

func checkAge(c *fw.Ctx, k *ageCase) error {
	var es []fw.Entry
	for j, i := range k.Order {
		d := k.Days[i]
		x := &fw.Txn{Date: fw.AddDays("2015-01-01", d.Offset), Payee: fmt.Sprintf("p%d", i)}
		if k.Payees > 0 {
			x.Payee = fmt.Sprintf("p%d", i%k.Payees)
		}
		accs, sign := []string{"Income", "Income:Work", "Income:Work:B"}, int64(-1)
		if d.Spend {
			accs, sign = []string{"Expenses:Food", "Expenses", "Expenses:Food:Out"}, 1
		}
		for m, q := range d.Parts {
			x.Postings = append(x.Postings, fw.Posting{Account: accs[(i+m)%len(accs)], Q: q * sign})
		}
		if k.Noise > 0 && (i+j)%(k.Noise+1) == 0 {
			x.Postings = append(x.Postings, fw.Posting{Account: []string{"Incomes", "expenses:x", "Assets:Income", "Assets:Expenses", "Incomes:A", "Expense", "income"}[(i+j+k.Noise)%7], Q: 123457})
		}
		x.Postings = append(x.Postings, fw.Posting{Account: "Assets:Cash", Elided: true})
		fw.Infer(x.Postings)
		es = append(es, fw.Entry{T: x})
	}
	ps := fw.Select(fw.Txns(es), k.Sel)
	mean, pairs, multi, ok := ageOfMoney(ps)
	text := fw.Render(es, k.Layout, true)
	c.Write(jfile, text)
	a := args("statistics", "-f", jfile, k.Sel.Args())
	out, err := c.OK(a...)
	if err != nil {
		return with(fmt.Sprint(a), err, text)
	}
	s, err := fw.ParseStats(out)
	if err != nil {
		return with(fmt.Sprint(a), err, text)
	}
	if len(ps) == 0 || !ok {
		c.Class("not in the domain")
		return nil
	}
	c.Nontrivial = pairs > 10 || multi
	switch {
	case pairs == 0:
		c.Class("no pairing")
	case pairs <= 10:
		c.Class("up to ten pairings")
	default:
		c.Class("more than ten pairings")
	}
	if mean < 0 {
		c.Class("negative mean")
		mean = 0
	}
	if math.Abs(float64(s.AgeOfMoney)-mean) > 0.5+1e-6 {
		return with(fmt.Sprint(a), fmt.Errorf("age of money is %d days, want %v (%d pairings)", s.AgeOfMoney, mean, pairs), text)
	}
	return nil
}

// ageOfMoney is the model of the age of money; ok tells whether every day's
// totals are positive
func ageOfMoney(ps []fw.Picked) (mean float64, pairs int, multi, ok bool) {
	in, sp := map[int]int64{}, map[int]int64{}
	for _, p := range ps {
		d := fw.DayNumber(p.T.Date)
		for _, i := range p.Posts {
			x := p.T.Postings[i]
			switch fw.Ancestors(x.Account)[0] {
			case "Income":
				in[d] -= x.Q
			case "Expenses":
				sp[d] += x.Q
			}
		}
	}
	keys := func(m map[int]int64) (r []int) {
		for d, q := range m {
			if q <= 0 {
				return nil
			}
			r = append(r, d)
		}
		sort.Ints(r)
		return
	}
	ik, sk := keys(in), keys(sp)
	if len(ik) != len(in) || len(sk) != len(sp) {
		return 0, 0, false, false
	}
	var ages []int
	for _, s := range sk {
		need := sp[s]
		used := 0
		for need > 0 && len(ik) > 0 {
			ages = append(ages, s-ik[0])
			used++
			if in[ik[0]] > need {
				in[ik[0]] -= need
				need = 0
			} else {
				need -= in[ik[0]]
				ik = ik[1:]
			}
		}
		multi = multi || used > 1
	}
	pairs = len(ages)
	if len(ages) > 10 {
		ages = ages[len(ages)-10:]
	}
	for _, a := range ages {
		mean += float64(a)
	}
	if len(ages) > 0 {
		mean /= float64(len(ages))
	}
	return mean, pairs, multi, true
}
