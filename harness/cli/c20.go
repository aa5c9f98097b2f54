package main

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"
	"verifharness/fw"
)

// drawForest draws up to max accounts whose components repeat at many places
// and levels
func drawForest(t *rapid.T, max int) []string {
	deep := fw.OneOf(t, "depth", 3, 6, 12, 40)
	var r []string
	for n := fw.Int(t, 2, max, "accounts"); n > 0; n-- {
		var comps []string
		if len(r) > 0 && fw.Chance(t, 2, "beneath") {
			// next to, above or beneath an account there is
			as := fw.Ancestors(r[fw.Int(t, 0, len(r)-1, "which")])
			comps = strings.Split(as[fw.Int(t, 0, len(as)-1, "level")], ":")
		}
		for k := fw.Int(t, 0, fw.OneOf(t, "long", 4, 4, deep), "more"); k > 0 || len(comps) == 0; k-- {
			if len(comps) >= deep {
				break
			}
			if fw.Chance(t, 12, "other") {
				comps = append(comps, fw.Component(t, len(comps) == 0))
			} else {
				comps = append(comps, fw.OneOf(t, "name", "A", "B", "C", "a", "A B", "Expenses"))
			}
		}
		r = append(r, strings.Join(comps, ":"))
	}
	return r
}

type forestCase struct {
	Accounts []string `json:"accounts"` // a posting to each
	Q        []int64  `json:"q"`
	Each     int      `json:"each"` // postings of a transaction
	Pattern  string   `json:"pattern,omitempty"`
}

func init() {
	fw.Register("C20", "report", 2500, 60000,
		"postings to 2-90 accounts up to 40 levels deep whose names repeat at many places and levels, in any order and each any number of times; the balance report with and without the zero accounts, in the default layout and flattened, must show exactly the model's tree, before and after the selection of a part of it; non-trivial if some name occurs beneath two different accounts and some account is created before its sibling and used again after it",
		func(t *rapid.T) forestCase {
			max := fw.OneOf(t, "size", 8, 20, 90)
			as := drawForest(t, max)
			k := forestCase{Each: fw.Int(t, 1, 6, "each")}
			n := len(as)
			for i := fw.Int(t, 0, n, "again"); i > 0; i-- {
				as = append(as, as[fw.Int(t, 0, n-1, "which")])
			}
			k.Accounts = as
			for range as {
				k.Q = append(k.Q, int64(fw.OneOf(t, "q", 0, 0, 100, -100, 1, 12345)))
			}
			if fw.Chance(t, 2, "select") {
				k.Pattern = fw.OneOf(t, "pattern", "A", "^A", "B$", "a", ":A:", "^B:|C$", "A B")
			}
			return k
		},
		func(c *fw.Ctx, k *forestCase) error {
			var es []fw.Entry
			var tx *fw.Txn
			for i, a := range k.Accounts {
				if tx == nil || len(tx.Postings) == k.Each {
					tx = &fw.Txn{Date: "2020-01-01", Payee: "x"}
					es = append(es, fw.Entry{T: tx})
				}
				tx.Postings = append(tx.Postings, fw.Posting{Account: a, Q: k.Q[i]})
			}
			for _, x := range fw.Txns(es) {
				x.Postings = append(x.Postings, fw.Posting{Account: "Z", Elided: true})
				fw.Infer(x.Postings)
			}
			text := fw.Render(es, nil, true)
			c.Write(jfile, text)
			var sel fw.Sel
			if k.Pattern != "" {
				sel.Filters = []string{k.Pattern}
			}
			ps := fw.Select(fw.Txns(es), sel)
			for _, zero := range []bool{true, false} {
				want := fw.Balance(ps, zero)
				for kind, flag := range [][]string{nil, {"--flatten"}} {
					a := args("balance", flag, "-f", jfile, sel.Args())
					if zero {
						a = append(a, "--show-zero")
					}
					out, err := c.OK(a...)
					if err != nil {
						return with(fmt.Sprint(a), err, text)
					}
					lines, total, err := fw.ParseBalance(out, "")
					if err != nil {
						return with(fmt.Sprint(a), err, text)
					}
					if err := fw.DiffLines(lines, want.Lines(kind)); err != nil {
						return with(fmt.Sprint(a), fmt.Errorf("%w\n%s", err, out), text)
					}
					if total != want.Total {
						return with(fmt.Sprint(a), fmt.Errorf("total is %s, want %s", fw.FormatQ(total), fw.FormatQ(want.Total)), text)
					}
				}
			}
			parents := map[string]map[string]bool{}
			first, last := map[string]int{}, map[string]int{}
			h := 0
			for i, a := range k.Accounts {
				as := fw.Ancestors(a)
				h = max(h, len(as))
				for _, x := range as {
					if _, ok := first[x]; !ok {
						first[x] = i
					}
					last[x] = i
					up, name := "", x
					if j := strings.LastIndex(x, ":"); j >= 0 {
						up, name = x[:j], x[j+1:]
					}
					if parents[name] == nil {
						parents[name] = map[string]bool{}
					}
					parents[name][up] = true
				}
			}
			twice, around := false, false
			for _, p := range parents {
				twice = twice || len(p) > 1
			}
			for x := range first {
				for y := range first {
					i, j := strings.LastIndex(x, ":"), strings.LastIndex(y, ":")
					if i == j && i > 0 && x[:i] == y[:i] && first[x] < first[y] && last[x] > first[y] {
						around = true
					}
				}
			}
			c.Nontrivial = twice && around
			c.Class(fmt.Sprintf("levels:%d", (h+9)/10*10))
			if len(first) > 60 {
				c.Class("over 60 accounts")
			}
			return nil
		})
}
