package main

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"
	"verifharness/fw"
)

func richText(es []fw.Entry) bool {
	for _, x := range fw.Txns(es) {
		for _, p := range x.Postings {
			if len(p.Comments) > 0 && (x.Note != "" || len(x.Notes) > 0) {
				return true
			}
		}
	}
	return false
}

func init() {
	check := func(c *fw.Ctx, k *JCase) error {
		text := fw.Render(k.Entries, k.Layout, true)
		c.Write(jfile, text)
		c.Class(fw.Describe(k.Entries)...)
		c.Nontrivial = len(fw.Txns(k.Entries)) > 1 && richText(k.Entries)
		out, err := c.OK("print", "-f", jfile)
		if err != nil {
			return with("print", err, text)
		}
		want := ptxns(fw.ByDate(fw.Select(fw.Txns(k.Entries), fw.Sel{})))
		return with("print", fw.DiffPrinted(out, want), text)
	}
	fw.Register("C03", "read", 12000, 250000,
		"a journal of 0-10 transactions (sometimes 100) with arbitrary Unicode payees, accounts, notes and comments in any layout, printed and read back by an independent reader; non-trivial if a transaction has notes and a posting with comments and there are two transactions or more",
		func(t *rapid.T) JCase {
			o := fw.Opt{Min: 0, Max: 10, Rich: true, Long: true, Odd: true, Commodity: true, PerTxn: true}
			if fw.Chance(t, 100, "large") {
				o.Min, o.Max = 60, 120
			}
			v := fw.NewVocab(t, o)
			return JCase{fw.Entries(t, v, o), fw.DrawLayout(t)}
		}, check)

	fw.Register("C03", "long", 600, 8000,
		"a transaction one of whose lines has a length within a few bytes of a power of two from 256 to 262144, with LF or CRLF; non-trivial if the line is longer than 4000 bytes",
		func(t *rapid.T) longCase {
			k := longCase{Where: fw.OneOf(t, "where", "payee", "note", "txnnote", "account", "comment", "col0", "amount", "blank"),
				Len:  1<<fw.Int(t, 8, 18, "log") + fw.Int(t, -6, 6, "off"),
				CRLF: rapid.Bool().Draw(t, "crlf"), NoEnd: fw.Chance(t, 4, "noend"), Unit: fw.OneOf(t, "unit", "x", "é", "ab ", "日")}
			return k
		},
		func(c *fw.Ctx, k *longCase) error {
			x, text := k.build()
			c.Write(jfile, text)
			c.Nontrivial = k.Len > 4000
			c.Class("long:" + k.Where)
			out, err := c.OK("print", "-f", jfile)
			if err != nil {
				return fmt.Errorf("a long %s: %.500s", k.Where, err)
			}
			if err := fw.DiffPrinted(out, x); err != nil {
				return fmt.Errorf("a %s line of %d bytes: %.500s", k.Where, k.Len, err)
			}
			return nil
		})
}

type longCase struct {
	Where string `json:"where"`
	Len   int    `json:"len"` // of the long line in bytes
	CRLF  bool   `json:"crlf"`
	NoEnd bool   `json:"noend"`
	Unit  string `json:"unit"`
}

// build returns the expected transactions and the journal
func (k *longCase) build() ([]*fw.Txn, string) {
	x := &fw.Txn{Date: "2020-01-01", Payee: "payee", Note: "note", Notes: []string{"n"}, Postings: []fw.Posting{
		{Account: "Assets:A", Q: 500, C: "£", Comments: []string{"c"}}, {Account: "B", Q: -500, C: "£", Elided: true}}}
	y := &fw.Txn{Date: "2020-01-02", Payee: "next", Postings: []fw.Posting{{Account: "A", Q: 100}, {Account: "B", Q: -100}}}
	pad := func(prefix, suffix int) string {
		n := k.Len - prefix - suffix
		if n < 4 {
			n = 4
		}
		s := strings.Repeat(k.Unit, n/len(k.Unit)+1)
		for len(s) > n {
			r := []rune(s)
			s = string(r[:len(r)-1])
		}
		s = strings.TrimRight(s, " ")
		for len(s) < n {
			s += "z"
		}
		return s
	}
	col0, blank := "", ""
	amount := "£5"
	switch k.Where {
	case "payee":
		x.Payee = pad(len("2020-01-01 "), len("    ; note"))
	case "note":
		x.Note = pad(len("2020-01-01 payee    ; "), 0)
	case "txnnote":
		x.Notes[0] = pad(len("    ; "), 0)
	case "account":
		x.Postings[0].Account = "A" + pad(5, len("    £5.00"))
	case "comment":
		x.Postings[0].Comments[0] = pad(len("    ; "), 0)
	case "col0":
		col0 = "; " + pad(2, 0) + "\n"
	case "blank":
		blank = strings.Repeat(" ", k.Len) + "\n"
	case "amount":
		amount = "£" + strings.Repeat("0", k.Len) + "5.00"
	}
	b := "2020-01-01 " + x.Payee + "    ; " + x.Note + "\n" + col0 + "    ; " + x.Notes[0] + "\n    " + x.Postings[0].Account + "    " + amount +
		"\n    ; " + x.Postings[0].Comments[0] + "\n    B\n" + blank + "\n2020-01-02 next\n    A    1.00\n    B    -1.00"
	if !k.NoEnd {
		b += "\n"
	}
	if k.CRLF {
		b = strings.ReplaceAll(b, "\n", "\r\n")
	}
	return []*fw.Txn{x, y}, b
}
