package main

import (
	"fmt"
	"math"
	"regexp"
	"strconv"
	"strings"

	"pgregory.net/rapid"
	"verifharness/fw"
)

// amountSpec is an amount as written
type amountSpec struct {
	Sign  string `json:"sign"`
	Whole string `json:"whole"`
	Dec   string `json:"dec"` // with the point, or empty
}

func (a amountSpec) q() int64 {
	d := strings.TrimPrefix(a.Dec, ".")
	for len(d) < 2 {
		d += "0"
	}
	s := a.Whole + d
	if a.Sign == "-" {
		s = "-" + s
	}
	q, err := strconv.ParseInt(s, 10, 64)
	if err != nil {
		fw.Harness("amount %v: %v", a, err)
	}
	return q
}

func drawSpec(t *rapid.T) amountSpec {
	var a amountSpec
	a.Sign = fw.OneOf(t, "sign", "", "-", "+", "-", "")
	switch fw.Int(t, 0, 7, "wholekind") {
	case 7:
		q := fw.RoundNumber(t, 15)
		if q < 0 {
			q = -q
		}
		a.Whole = strconv.FormatInt(q, 10)
	case 0:
		a.Whole = "0"
	case 1, 2:
		a.Whole = strconv.Itoa(fw.Int(t, 0, 1000, "whole"))
	case 3:
		a.Whole = strconv.FormatInt(rapid.Int64Range(0, 92233720368547757).Draw(t, "whole"), 10)
	case 4:
		a.Whole = strconv.FormatInt(92233720368547757-int64(fw.Int(t, 0, 2, "edge")), 10)
	case 5: // beyond what a float64 holds exactly
		a.Whole = strconv.FormatInt(90071992547409+rapid.Int64Range(-3, 1e15).Draw(t, "whole"), 10)
	case 6:
		a.Whole = strings.Repeat("0", fw.OneOf(t, "zeros", 1, 2, 3, 3, 18, fw.Int(t, 4, 40, "many zeros"))) + strconv.Itoa(fw.Int(t, 0, 100, "whole"))
	}
	switch fw.Int(t, 0, 3, "deckind") {
	case 1:
		a.Dec = fmt.Sprintf(".%d", fw.Int(t, 0, 9, "dec"))
	case 2, 3:
		a.Dec = fmt.Sprintf(".%02d", fw.Int(t, 0, 99, "dec"))
	}
	if a.Whole == "92233720368547757" && fw.Chance(t, 3, "max") {
		a.Whole, a.Dec = "92233720368547758", fw.OneOf(t, "maxdec", ".07", ".0", ".00", "", ".06")
	}
	return a
}

type amountsCase struct {
	C       string       `json:"commodity"`
	Amounts []amountSpec `json:"amounts"`
	First   bool         `json:"first"` // the elided posting comes first
	// Cs are commodities for another journal of the amounts, which is printed
	Cs []string `json:"commodities,omitempty"`
}

func init() {
	fw.Register("C02", "roundtrip", 10000, 100000,
		"1-6 amounts in all spellings (optional commodity, sign, leading zeros, none to two decimals, up to 92233720368547758.07), each with its negation inferred, shown by print, balance and budget; non-trivial if some amount is not whole or is negative or beyond 2^53 hundredths",
		func(t *rapid.T) amountsCase {
			k := amountsCase{C: rapid.SampledFrom(append([]string{"Rs. ", "£ ", "é", "A$", "№ "}, fw.Commodities...)).Draw(t, "commodity"), First: rapid.Bool().Draw(t, "first")}
			n := fw.Int(t, 1, 6, "n")
			for i := 0; i < n; i++ {
				k.Amounts = append(k.Amounts, drawSpec(t))
			}
			if n > 1 && fw.Chance(t, 2, "commodities") {
				// one by one, or much alike
				other := rapid.SampledFrom(fw.Commodities).Draw(t, "other")
				alike := []string{k.C, fw.Twin(k.C), other, fw.Twin(other)}
				for range k.Amounts {
					k.Cs = append(k.Cs, rapid.SampledFrom(alike).Draw(t, "commodity"))
				}
			}
			return k
		},
		checkAmounts)

	fw.Register("C02", "sums", 6250, 60000,
		"2-30 transactions between four accounts with amounts of all sizes whose sums fit 64-bit hundredths, shown by balance -Z and budget; non-trivial if a shown sum exceeds 2^53 hundredths or has a fractional part",
		func(t *rapid.T) sumsCase {
			k := sumsCase{C: rapid.SampledFrom(fw.Commodities).Draw(t, "commodity")}
			n := fw.Int(t, 2, 30, "n")
			big := fw.Chance(t, 2, "big")
			for i := 0; i < n; i++ {
				q := int64(fw.Int(t, -100000, 100000, "q"))
				if fw.Chance(t, 5, "round") {
					q = fw.RoundNumber(t, 15)
				} else if big {
					lim := math.MaxInt64/int64(n) - 1
					q = rapid.Int64Range(-lim, lim).Draw(t, "q")
				}
				k.Q = append(k.Q, q)
				k.To = append(k.To, fw.Int(t, 0, 3, "to"))
			}
			return k
		},
		checkSums)

	fw.Register("C02", "reject", 12500, 120000,
		"a posting or allocation whose amount is not a number, is more precise than hundredths or does not fit 64-bit hundredths, given to one of the report commands; every case is non-trivial",
		func(t *rapid.T) badAmountCase {
			k := badAmountCase{Before: fw.Int(t, 0, 2, "before"), After: fw.Int(t, 0, 2, "after"), Command: fw.OneOf(t, "command", reports...)}
			k.Amount = BadAmount(t)
			k.Other = fw.OneOf(t, "other", "elided", "first", "single", "alloc")
			k.Tail = fw.OneOf(t, "tail", "", "", "  ", " ", "\t")
			k.C = rapid.SampledFrom(fw.Commodities).Draw(t, "commodity")
			if strings.HasPrefix(k.Amount, ".") && fw.EndsInLetter(k.C) {
				k.C = "£" // "kr" and ".50" could be "kr." and "50"
			}
			return k
		},
		func(c *fw.Ctx, k *badAmountCase) error {
			var b strings.Builder
			for i := 0; i < k.Before; i++ {
				fmt.Fprintf(&b, "2020-01-0%d pay%d\n    Good:A  %s5\n    Good:B\n\n", i+1, i, k.C)
			}
			a := k.C + k.Amount + k.Tail
			switch k.Other {
			case "elided":
				fmt.Fprintf(&b, "2020-01-03 bad\n    Bad:A    %s\n    Bad:B\n\n", a)
			case "first":
				fmt.Fprintf(&b, "2020-01-03 bad\n    Bad:B\n    Bad:A    %s\n\n", a)
			case "single":
				fmt.Fprintf(&b, "2020-01-03 bad\n    Bad:A    %s\n\n", a)
			case "alloc":
				fmt.Fprintf(&b, "~ 2020-01\n    Bad:A    %s\n\n", a)
			}
			for i := 0; i < k.After; i++ {
				fmt.Fprintf(&b, "2020-01-0%d pay%d\n    Good:A  %s5\n    Good:B\n\n", i+4, i, k.C)
			}
			c.Write(jfile, b.String())
			c.Nontrivial = true
			c.Class("in:"+k.Other, "command:"+k.Command)
			r := c.Gl(k.Command, "-f", jfile)
			return with(fmt.Sprintf("amount %q", k.C+k.Amount), r.Refused(k.Command, []string{"Good:A", "Good:B", "Bad:A", "Bad:B", "bad", "pay0", "pay1"}), b.String())
		})
}

type badAmountCase struct {
	C       string `json:"commodity"`
	Amount  string `json:"amount"`
	Other   string `json:"other"`
	Tail    string `json:"tail"`
	Before  int    `json:"before"`
	After   int    `json:"after"`
	Command string `json:"command"`
}

var goodAmount = regexp.MustCompile(`^[+-]?[0-9]+(\.[0-9]{1,2})?$`)

// BadAmount draws the text after the commodity of an amount that must be rejected
func BadAmount(t *rapid.T) string {
	if fw.Chance(t, 4, "listed") {
		return fw.OneOf(t, "listed", "1.234", ".50", ".5", "-.50", "+.5", ".500", "-.", "1.", "1..2", "1,000.00", "12a", "1e5", "0x10", "--5", "-+5", "5-", "1 000",
			"92233720368547758.08", "-92233720368547758.09", "99999999999999999999", "184467440737095516.16", "184467440737095517", "-", "+", "1_000", "٣", "1/2", "5£", "1.2a", "1.a2", "1.+2", "1.-2",
			"0.001", "-0.005", "1.999", "2³", "½", "12.5%", "1.2.3", "1'000", "1-2", "- 5", "+ 5", "1 .50", "1. 50", "0b1", "1.0e1", "12 GBP", "0.1234567891", "9223372036854775808", "922337203685477580.8")
	}
	switch fw.Int(t, 0, 5, "badkind") {
	case 5: // with something around it that other programs know
		s := fw.OneOf(t, "sign", "", "-", "+") + strconv.Itoa(fw.Int(t, 0, 100000, "whole")) + fw.OneOf(t, "dec", "", ".5", ".25")
		w := fw.OneOf(t, "around", "(x)", "[x]", "{x}", "<x>", "\"x\"", "'x'", "|x|", "$(x)", "(x", "x)", "x CR", "xCR", "x DR", "xDr", "x-", "x+", "x -", "x%", "x €", "x€", "x EUR", "x @ 2.00", "x @@ 2.00", "x = 5.00", "x == 5", "x =", "x {2.00}", "x [2020-01-01]", "x (note)", "x*2", "x * 2", "x/2", "x + 1", "x - 1", "xk", "xM", "x.", "x,", "x!", "x?", "x*", "x:", "x~", "x,-", "x.-", "x:1", "-(x)", "x USD ; y"[:5])
		s = strings.Replace(w, "x", s, 1)
		if w[0] == '(' && w[len(w)-1] != ')' {
			// a sign for the commodity
			s += ")"
		}
		return s
	case 4: // no whole units
		return fw.OneOf(t, "sign", "", "-", "+") + "." + strconv.Itoa(fw.Int(t, 0, 1000, "decimals"))
	case 0: // too precise
		d := fmt.Sprintf("%0*d", fw.Int(t, 2, 12, "decimals"), fw.Int(t, 0, 99, "decimal")) + strconv.Itoa(fw.Int(t, 1, 9, "last"))
		return fw.OneOf(t, "sign", "", "-", "+") + strconv.Itoa(fw.Int(t, 0, 1000, "whole")) + "." + d
	case 1: // does not fit
		n := fw.Int(t, 18, 40, "digits")
		s := strconv.Itoa(fw.Int(t, 1, 9, "first"))
		for len(s) < n {
			s += strconv.Itoa(fw.Int(t, 0, 9, "digit"))
		}
		return fw.OneOf(t, "sign", "", "-", "+") + s + fw.OneOf(t, "dec", "", ".00", ".5")
	default: // something inserted into a good amount
		s := fw.OneOf(t, "sign", "", "-", "+") + strconv.Itoa(fw.Int(t, 0, 100000, "whole")) + fw.OneOf(t, "dec", "", ".5", ".25")
		at := fw.Int(t, 1, len(s), "at")
		x := fw.OneOf(t, "x", ",", "_", "e", "x", " ", ".", "-", "+", "'", "a", "O", "٣", "²", ":", "/", "£", "\u00a0", "\x00", "–", "F", "p1", "0x")
		s = s[:at] + x + s[at:]
		if goodAmount.MatchString(strings.TrimSpace(s)) {
			s = strings.TrimSpace(s) + "x"
		}
		return s
	}
}

func checkAmounts(c *fw.Ctx, k *amountsCase) error {
	var b strings.Builder
	c.Class(fmt.Sprintf("commodity:%q", k.C))
	if len(k.Cs) > 0 {
		c.Class("several commodities")
		for i, a := range k.Amounts {
			w := k.Cs[i%len(k.Cs)] + a.Sign + a.Whole + a.Dec
			fmt.Fprintf(&b, "2020-01-01 p%d\n    A    %s\n    B\n\n", i, w)
		}
		text := b.String()
		b.Reset()
		c.Write(jfile, text)
		out, err := c.OK("print", "-f", jfile)
		if err != nil {
			return with("print", err, text)
		}
		got, err := fw.ParsePrint(out)
		if err != nil {
			return with("print", err, text)
		}
		if len(got) != len(k.Amounts) {
			return with("print", fmt.Errorf("%d transactions, want %d", len(got), len(k.Amounts)), text)
		}
		for i, a := range k.Amounts {
			for _, p := range got[i].Postings {
				w := a.q()
				if p.Account == "B" {
					w = -w
				}
				if p.Q != w || p.C != k.Cs[i%len(k.Cs)] {
					return with("print", fmt.Errorf("%s of p%d: amount %q%s, want %q%s", p.Account, i, p.C, fw.FormatQ(p.Q), k.Cs[i%len(k.Cs)], fw.FormatQ(w)), text)
				}
			}
		}
	}
	for i, a := range k.Amounts {
		w := k.C + a.Sign + a.Whole + a.Dec
		m := i%12 + 1
		if k.First {
			fmt.Fprintf(&b, "2020-%02d-01 p%d\n    Expenses:E%d\n    Income:I%d    %s\n\n", m, i, i, i, w)
		} else {
			fmt.Fprintf(&b, "2020-%02d-01 p%d\n    Income:I%d    %s\n    Expenses:E%d\n\n", m, i, i, w, i)
		}
		if q := a.q(); q < 0 || q%100 != 0 || q > 1<<53 {
			c.Nontrivial = true
		}
	}
	text := b.String()
	c.Write(jfile, text)
	out, err := c.OK("print", "-f", jfile)
	if err != nil {
		return with("print", err, text)
	}
	got, err := fw.ParsePrint(out)
	if err != nil {
		return with("print", err, text)
	}
	if len(got) != len(k.Amounts) {
		return with("print", fmt.Errorf("%d transactions, want %d", len(got), len(k.Amounts)), text)
	}
	for i, a := range k.Amounts {
		want := a.q()
		for _, p := range got[i].Postings {
			w := want
			if strings.HasPrefix(p.Account, "Expenses") {
				w = -want
			}
			if p.Q != w || p.C != k.C {
				return with("print", fmt.Errorf("%s: amount %q%s, want %q%s", p.Account, p.C, fw.FormatQ(p.Q), k.C, fw.FormatQ(w)), text)
			}
		}
	}
	out, err = c.OK("balance", "-F", "-Z", "-f", jfile)
	if err != nil {
		return with("balance", err, text)
	}
	lines, total, err := fw.ParseBalance(out, k.C)
	if err != nil {
		return with("balance", err, text)
	}
	if total != 0 {
		return with("balance", fmt.Errorf("total %s, want 0", fw.FormatQ(total)), text)
	}
	seen := map[string]int64{}
	for _, l := range lines {
		seen[l.Name] = l.Q
	}
	for i, a := range k.Amounts {
		if q, ok := seen[fmt.Sprintf("Income:I%d", i)]; !ok || q != a.q() {
			return with("balance", fmt.Errorf("Income:I%d is %s, want %s", i, fw.FormatQ(q), fw.FormatQ(a.q())), text)
		}
	}
	out, err = c.OK("budget", "-f", jfile)
	if err != nil {
		return with("budget", err, text)
	}
	ms, err := fw.ParseBudget(out)
	if err != nil {
		return with("budget", err, text)
	}
	for i, a := range k.Amounts {
		if i >= len(ms) {
			return with("budget", fmt.Errorf("only %d months", len(ms)), text)
		}
		m := ms[i]
		if m.Funds != -a.q() {
			return with("budget", fmt.Errorf("month %d: funds %s, want %s", i+1, fw.FormatQ(m.Funds), fw.FormatQ(-a.q())), text)
		}
		if len(m.Rows) != 1 || m.Rows[0].Activity != a.q() || m.Rows[0].Available != a.q() {
			return with("budget", fmt.Errorf("month %d: rows %v, want activity and available %s", i+1, m.Rows, fw.FormatQ(a.q())), text)
		}
		for _, l := range strings.Split(out, "\n") {
			if strings.Contains(l, "Funds |") && k.C != "" && !strings.Contains(l, " "+k.C) {
				return with("budget", fmt.Errorf("funds without the commodity %q: %q", k.C, l), text)
			}
		}
	}
	return nil
}

type sumsCase struct {
	C  string  `json:"commodity"`
	Q  []int64 `json:"q"`
	To []int   `json:"to"`
}

func checkSums(c *fw.Ctx, k *sumsCase) error {
	accs := []string{"Expenses:A", "Expenses:A:B", "Expenses:C", "Assets"}
	var es []fw.Entry
	var al []fw.Posting
	for i, q := range k.Q {
		es = append(es, fw.Entry{T: &fw.Txn{Date: "2020-01-01", Payee: "p", Postings: []fw.Posting{
			{Account: accs[k.To[i]], C: k.C, Q: q}, {Account: "Income", C: k.C, Q: -q}}}})
		if i%3 == 0 {
			al = append(al, fw.Posting{Account: []string{"A", "A:B", "C", "D"}[k.To[i]], C: k.C, Q: q / 4})
		}
	}
	all := append(es, fw.Entry{A: &fw.Alloc{Month: "2020-01", Postings: al}})
	text := fw.Render(all, nil, false)
	c.Write(jfile, text)
	ps := fw.Select(fw.Txns(es), fw.Sel{})
	want := fw.Balance(ps, true)
	out, err := c.OK("balance", "-Z", "-f", jfile)
	if err != nil {
		return with("balance", err, text)
	}
	lines, total, err := fw.ParseBalance(out, k.C)
	if err != nil {
		return with("balance", err, text)
	}
	if err := fw.DiffLines(lines, want.Lines(fw.TreeLayout)); err != nil {
		return with("balance", err, text)
	}
	if total != 0 {
		return with("balance", fmt.Errorf("total %s, want 0", fw.FormatQ(total)), text)
	}
	for _, q := range want.Amount {
		if q > 1<<53 || q < -(1<<53) || q%100 != 0 {
			c.Nontrivial = true
		}
		if q > 1<<53 {
			c.Class("beyond 2^53")
		}
	}
	out, err = c.OK("budget", "-f", jfile)
	if err != nil {
		return with("budget", err, text)
	}
	ms, err := fw.ParseBudget(out)
	if err != nil {
		return with("budget", err, text)
	}
	wantB := fw.Budget(ps, fw.Allocs(all))
	return with("budget", fw.DiffBudget(ms, wantB), text)
}
