package main

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"
	"verifharness/fw"
)

type repeatCase struct {
	Root    *fw.FileNode `json:"root"`
	Layout  []byte       `json:"layout,omitempty"`
	Sel     fw.Sel       `json:"sel"`
	Command string       `json:"command"`
}

type orderCase struct {
	JCase
	Perm    []int  `json:"perm"`
	Sel     fw.Sel `json:"sel"`
	Command string `json:"command"`
}

type filterCase struct {
	JCase
	Sel     fw.Sel `json:"sel"`
	Other   []int  `json:"other"` // the same filters in another order, some repeated
	Command string `json:"command"`
}

func init() {
	fw.Register("C19", "repeat", 3600, 45000,
		"a journal of 3-20 entries in one or several files, in one commodity or several, reported five times by the same command with the same selection; the bytes must be the same; non-trivial if the report has at least four lines",
		func(t *rapid.T) repeatCase {
			o := fw.Opt{Min: 3, Max: 20, Rich: true, Commodity: true, Allocs: true, Money: rapid.Bool().Draw(t, "money"), MaxAcc: 14}
			v := fw.NewVocab(t, o)
			es := fw.Entries(t, v, o)
			if fw.Chance(t, 3, "mixed") {
				for _, e := range es {
					ps := fw.PostingsOf(e)
					for i := range ps {
						if !ps[i].Elided {
							ps[i].C = fw.OneOf(t, "owncommodity", "", "£", "$", "€")
						}
					}
				}
			}
			k := repeatCase{Layout: fw.DrawLayout(t), Command: fmt.Sprint(rapid.SampledFrom(variants).Draw(t, "variant"))}
			if fw.Chance(t, 2, "tree") {
				k.Root = drawTree(t, es)
			} else {
				k.Root = &fw.FileNode{Path: rootFile}
				for i := range es {
					k.Root.Items = append(k.Root.Items, fw.Item{E: &es[i]})
				}
			}
			k.Sel.Filters = fw.Filters(t, es, 0, 3)
			return k
		},
		func(c *fw.Ctx, k *repeatCase) error {
			shown := putTree(c, k.Root, k.Layout)
			a := args(variant(k.Command), "-f", rootFile, k.Sel.Args())
			c.Class("variant:" + k.Command)
			first := ""
			for i := 0; i < 5; i++ {
				out, err := c.OK(a...)
				if err != nil {
					return fmt.Errorf("%w\n%s", err, shown)
				}
				if strings.HasPrefix(k.Command, "[statistics") {
					out = fw.NoRelTime(out)
				}
				if i == 0 {
					first = out
				} else if err := diffText(fmt.Sprintf("%q run twice", a), first, out); err != nil {
					return fmt.Errorf("%w\n%s", err, shown)
				}
			}
			c.Nontrivial = strings.Count(first, "\n") >= 4
			return nil
		})

	fw.Register("C19", "order", 7000, 90000,
		"a journal of 2-16 entries and the same with its entries in another order; balance, accounts, payees, budget and statistics, with a random selection, must be the same; non-trivial if the order differs and there are at least three transactions on two days or more",
		func(t *rapid.T) orderCase {
			o := fw.Opt{Min: 2, Max: 16, Rich: true, Commodity: true, Allocs: true, Zeros: true, Money: rapid.Bool().Draw(t, "money"), MaxAcc: 14}
			v := fw.NewVocab(t, o)
			var k orderCase
			k.Entries = fw.Entries(t, v, o)
			k.Layout = fw.DrawLayout(t)
			k.Perm = fw.Perm(t, len(k.Entries))
			k.Sel = fw.DrawSel(t, k.Entries, 2)
			k.Command = fmt.Sprint(rapid.SampledFrom(variants[1:]).Draw(t, "variant"))
			return k
		},
		func(c *fw.Ctx, k *orderCase) error {
			var es []fw.Entry
			moved := false
			for i, j := range k.Perm {
				es = append(es, k.Entries[j])
				moved = moved || i != j
			}
			days := map[string]bool{}
			for _, x := range fw.Txns(es) {
				days[x.Date] = true
			}
			c.Nontrivial = moved && len(days) > 1 && len(fw.Txns(es)) > 2
			c.Class("variant:" + k.Command)
			a := args(variant(k.Command), "-f", jfile, k.Sel.Args())
			text := fw.Render(k.Entries, k.Layout, false)
			c.Write(jfile, text)
			x, err := c.OK(a...)
			if err != nil {
				return with(fmt.Sprint(a), err, text)
			}
			text2 := fw.Render(es, k.Layout, false)
			c.Write(jfile, text2)
			y, err := c.OK(a...)
			if err != nil {
				return with(fmt.Sprint(a), err, text2)
			}
			if strings.HasPrefix(k.Command, "[statistics") {
				x, y = fw.NoRelTime(x), fw.NoRelTime(y)
			}
			if err := diffText(fmt.Sprintf("%q of two orders", a), x, y); err != nil {
				return fmt.Errorf("%w\nfirst:\n%ssecond:\n%s", err, fw.Show(text), fw.Show(text2))
			}
			return nil
		})

	fw.Register("C19", "filters", 6000, 80000,
		"a command with two to four filter arguments and the same in another order with some repeated; the bytes must be the same; non-trivial if the report has at least three lines",
		func(t *rapid.T) filterCase {
			o := fw.Opt{Min: 1, Max: 10, Rich: true, Commodity: true, Money: rapid.Bool().Draw(t, "money")}
			v := fw.NewVocab(t, o)
			var k filterCase
			k.Entries = fw.Entries(t, v, o)
			k.Layout = fw.DrawLayout(t)
			k.Sel.Filters = fw.Filters(t, k.Entries, 2, 4)
			k.Other = fw.Perm(t, len(k.Sel.Filters))
			for n := fw.Int(t, 0, 2, "repeats"); n > 0; n-- {
				at := fw.Int(t, 0, len(k.Other), "at")
				x := fw.Int(t, 0, len(k.Sel.Filters)-1, "repeated")
				k.Other = append(k.Other[:at:at], append([]int{x}, k.Other[at:]...)...)
			}
			k.Command = fmt.Sprint(rapid.SampledFrom(variants).Draw(t, "variant"))
			return k
		},
		func(c *fw.Ctx, k *filterCase) error {
			text := fw.Render(k.Entries, k.Layout, false)
			c.Write(jfile, text)
			c.Class("variant:" + k.Command)
			var other []string
			for _, i := range k.Other {
				other = append(other, k.Sel.Filters[i])
			}
			x, err := c.OK(args(variant(k.Command), "-f", jfile, k.Sel.Filters)...)
			if err != nil {
				return with(k.Command, err, text)
			}
			y, err := c.OK(args(variant(k.Command), "-f", jfile, other)...)
			if err != nil {
				return with(k.Command, err, text)
			}
			c.Nontrivial = strings.Count(x, "\n") >= 3
			if strings.HasPrefix(k.Command, "[statistics") {
				x, y = fw.NoRelTime(x), fw.NoRelTime(y)
			}
			return with("filters", diffText(fmt.Sprintf("%s with filters %q and with %q", k.Command, k.Sel.Filters, other), x, y), text)
		})
}
