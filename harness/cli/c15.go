package main

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"
	"verifharness/fw"
)

type listCase struct {
	JCase
	Sel     fw.Sel `json:"sel"` // Filters hold the arguments
	Command string `json:"command"`
}

func init() {
	fw.Register("C15", "lists", 35000, 200000,
		"accounts or payees of a journal of 0-14 transactions with shared and nearly equal names, with up to three (sometimes sixty) patterns made from pieces of the names and sometimes a date range, compared with the model's list; non-trivial if a name occurs twice and the arguments select some but not all names or there are three names or more",
		func(t *rapid.T) listCase {
			o := fw.Opt{Min: 0, Max: 14, Rich: true, Commodity: true, Far: true, MaxAcc: 12}
			v := fw.NewVocab(t, o)
			var k listCase
			k.Entries = fw.Entries(t, v, o)
			k.Layout = fw.DrawLayout(t)
			k.Sel = fw.DrawSel(t, k.Entries, 0)
			k.Command = fw.OneOf(t, "command", "accounts", "payees")
			n := fw.Int(t, 0, 3, "args")
			many := fw.Chance(t, 40, "many")
			if many {
				n = fw.Int(t, 5, 60, "args")
			}
			for i := 0; i < n; i++ {
				if many && !fw.Chance(t, 4, "telling") {
					k.Sel.Filters = append(k.Sel.Filters, fmt.Sprintf("zz%dq", i))
					continue
				}
				k.Sel.Filters = append(k.Sel.Filters, fw.PatternFor(t, k.names(k.Sel)))
			}
			return k
		},
		func(c *fw.Ctx, k *listCase) error {
			text := fw.Render(k.Entries, k.Layout, true)
			c.Write(jfile, text)
			all := k.names(fw.Sel{Begin: k.Sel.Begin, End: k.Sel.End})
			var want []string
			for _, n := range fw.Distinct(all) {
				ok := len(k.Sel.Filters) == 0
				for _, a := range k.Sel.Filters {
					re, err := fw.Pattern(a)
					if err != nil {
						fw.Harness("%v", err)
					}
					ok = ok || re.MatchString(n)
				}
				if ok {
					want = append(want, n)
				}
			}
			c.Class("command:" + k.Command)
			if n := len(k.Sel.Filters); n < 4 {
				c.Class(fmt.Sprintf("arguments:%d", n))
			} else {
				c.Class("arguments:4+")
			}
			c.Nontrivial = len(fw.Distinct(all)) < len(all) && (len(k.Sel.Filters) == 0 && len(want) > 2 || len(want) > 0 && len(want) < len(fw.Distinct(all)))
			a := args(k.Command, "-f", jfile, k.Sel.Args())
			out, err := c.OK(a...)
			if err != nil {
				return with(fmt.Sprintf("%q", a), err, text)
			}
			w := ""
			if len(want) > 0 {
				w = strings.Join(want, "\n") + "\n"
			}
			return with(fmt.Sprintf("%q", a), diffText("the list and the names in use", out, w), text)
		})
}

func (k *listCase) names(s fw.Sel) []string {
	var r []string
	for _, x := range fw.Txns(k.Entries) {
		if !s.InRange(x.Date) {
			continue
		}
		if k.Command == "payees" {
			r = append(r, x.Payee)
			continue
		}
		for _, p := range x.Postings {
			r = append(r, p.Account)
		}
	}
	return r
}
