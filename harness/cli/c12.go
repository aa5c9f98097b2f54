package main

import (
	"fmt"
	"math"
	"strconv"

	"pgregory.net/rapid"
	"verifharness/fw"
)

type refuseCase struct {
	JCase
	Args    []string `json:"args"`
	Bad     string   `json:"bad"`
	Command string   `json:"command"`
}

var badPatterns = []string{"", "(", ")", "[", "[b-a]", "*", "+a", "?", "\\", "a{2,1}", "x{1001}", "(?z)", "(?P<", "(?<n", "a**", "[[:foo:]]", "\\q", "(a", "a)", "[z", "\\pX", "(?i", "a|*", "A(", "B[", "(?=a)", "\\8", "x{2}{3}"}

func isBad(arg string) bool {
	if arg == "" {
		return true
	}
	if arg[0] == '@' || arg[0] == '=' {
		if arg = arg[1:]; arg == "" {
			return false
		}
	}
	_, err := fw.Pattern(arg)
	return err != nil
}

func init() {
	fw.Register("C12", "select", 10000, 140000,
		"a journal of 1-10 transactions with states, notes and comments and one to four (sometimes forty) account, '@' and '=' patterns made from pieces of its texts in either case, sometimes with a date range; print, balance and statistics must show what the model selects; non-trivial if the filters select something but not everything",
		func(t *rapid.T) selCase {
			o := fw.Opt{Min: 1, Max: 10, Rich: true, Commodity: true, Far: true, MaxAcc: 8}
			v := fw.NewVocab(t, o)
			var k selCase
			k.Entries = fw.Entries(t, v, o)
			k.Layout = fw.DrawLayout(t)
			k.C = v.C
			if fw.Chance(t, 3, "range") {
				k.Sel = fw.DrawSel(t, k.Entries, 0)
			}
			k.Sel.Filters = fw.Filters(t, k.Entries, 1, 4)
			return k
		},
		func(c *fw.Ctx, k *selCase) error {
			text := fw.Render(k.Entries, k.Layout, true)
			c.Write(jfile, text)
			ts := fw.Txns(k.Entries)
			ps := fw.Select(ts, k.Sel)
			posts, chosen := 0, 0
			for _, x := range ts {
				posts += len(x.Postings)
			}
			partly := false
			for _, p := range ps {
				chosen += len(p.Posts)
				partly = partly || len(p.Posts) < len(p.T.Postings)
			}
			c.Nontrivial = chosen > 0 && chosen < posts
			switch {
			case len(ps) == 0:
				c.Class("selects nothing")
			case partly:
				c.Class("selects part of a transaction")
			case chosen < posts:
				c.Class("selects whole transactions")
			default:
				c.Class("selects everything")
			}
			for _, f := range k.Sel.Filters {
				switch f[0] {
				case '@':
					c.Class("payee pattern")
				case '=':
					c.Class("note pattern")
				default:
					c.Class("account pattern")
				}
				if fw.ContainsUpper(f) {
					c.Class("case-sensitive")
				} else {
					c.Class("case-insensitive")
				}
			}
			a := args("print", "-f", jfile, k.Sel.Args())
			out, err := c.OK(a...)
			if err != nil {
				return with(fmt.Sprintf("%q", a), err, text)
			}
			if err := fw.DiffPrinted(out, ptxns(fw.ByDate(ps))); err != nil {
				return with(fmt.Sprintf("%q", a), err, text)
			}
			a = args("balance", "-Z", "-f", jfile, k.Sel.Args())
			if out, err = c.OK(a...); err != nil {
				return with(fmt.Sprintf("%q", a), err, text)
			}
			lines, total, err := fw.ParseBalance(out, k.C)
			if err != nil {
				return with(fmt.Sprintf("%q", a), err, text)
			}
			want := fw.Balance(ps, true)
			if err := fw.DiffLines(lines, want.Lines(fw.TreeLayout)); err != nil {
				return with(fmt.Sprintf("%q", a), fmt.Errorf("%w\n%s", err, out), text)
			}
			if total != want.Total {
				return with(fmt.Sprintf("%q", a), fmt.Errorf("total is %s, want %s", fw.FormatQ(total), fw.FormatQ(want.Total)), text)
			}
			a = args("statistics", "-f", jfile, k.Sel.Args())
			if out, err = c.OK(a...); err != nil {
				return with(fmt.Sprintf("%q", a), err, text)
			}
			s, err := fw.ParseStats(out)
			if err != nil {
				return with(fmt.Sprintf("%q", a), err, text)
			}
			return with(fmt.Sprintf("%q", a), diffStats(s, ps), text)
		})

	fw.Register("C12", "refuse", 4000, 40000,
		"an empty or invalid pattern, plain or after '@' or '=', alone or among valid ones, given to any of the report commands; every case is non-trivial",
		func(t *rapid.T) refuseCase {
			o := fw.Opt{Min: 1, Max: 4, Commodity: true}
			v := fw.NewVocab(t, o)
			var k refuseCase
			k.Entries = fw.Entries(t, v, o)
			k.Layout = fw.DrawLayout(t)
			k.Command = fw.OneOf(t, "command", reports...)
			bad := rapid.SampledFrom(badPatterns).Draw(t, "bad")
			if bad != "" {
				bad = fw.OneOf(t, "prefix", "", "", "@", "=") + bad
			}
			if !isBad(bad) {
				bad = "("
			}
			k.Bad = bad
			k.Args = []string{bad}
			if fw.Chance(t, 2, "others") {
				good := fw.Filters(t, k.Entries, 1, 2)
				at := fw.Int(t, 0, len(good), "at")
				k.Args = append(append(append([]string{}, good[:at]...), bad), good[at:]...)
			}
			return k
		},
		func(c *fw.Ctx, k *refuseCase) error {
			f := put(c, k.Entries, k.Layout)
			c.Nontrivial = true
			c.Class("command:"+k.Command, fmt.Sprintf("bad:%q", k.Bad))
			r := c.Gl(args(k.Command, f, "--", k.Args)...)
			if err := r.Refused(k.Command, names(k.Entries)); err != nil {
				return fmt.Errorf("bad pattern %q: %w", k.Bad, err)
			}
			return nil
		})
}

// diffStats compares the statistics (but for files and age of money) with the model
func diffStats(s fw.Stats, ps []fw.Picked) error {
	if s.Empty != (len(ps) == 0) {
		return fmt.Errorf("statistics say nothing matched: %v, but %d transactions are selected", s.Empty, len(ps))
	}
	if s.Empty {
		return nil
	}
	if s.N != len(ps) {
		return fmt.Errorf("statistics count %d transactions, want %d", s.N, len(ps))
	}
	var accs, payees []string
	first, last := ps[0].T.Date, ps[0].T.Date
	for _, p := range ps {
		payees = append(payees, p.T.Payee)
		for _, i := range p.Posts {
			accs = append(accs, p.T.Postings[i].Account)
		}
		if p.T.Date < first {
			first = p.T.Date
		}
		if p.T.Date > last {
			last = p.T.Date
		}
	}
	if n := len(fw.Distinct(accs)); s.Accounts != n {
		return fmt.Errorf("statistics count %d accounts, want %d", s.Accounts, n)
	}
	if n := len(fw.Distinct(payees)); s.Payees != n {
		return fmt.Errorf("statistics count %d payees, want %d", s.Payees, n)
	}
	if s.First != first || s.Last != last {
		return fmt.Errorf("statistics go from %s to %s, want %s to %s", s.First, s.Last, first, last)
	}
	days := fw.DayNumber(last) - fw.DayNumber(first)
	if s.Days != days {
		return fmt.Errorf("statistics give %d days, want %d", s.Days, days)
	}
	rate, err := strconv.ParseFloat(s.PerDay, 64)
	if err != nil {
		return fmt.Errorf("bad rate %q", s.PerDay)
	}
	want := float64(len(ps)) / math.Max(1, float64(days))
	if math.Abs(rate-want) > 0.05+1e-9 {
		return fmt.Errorf("statistics give %s transactions per day, want %v", s.PerDay, want)
	}
	return nil
}
