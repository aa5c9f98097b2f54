package main

import (
	"fmt"

	"pgregory.net/rapid"
	"verifharness/fw"
)

type layoutCase struct {
	JCase
	Layout2  []byte   `json:"layout2,omitempty"`
	Commands []string `json:"commands"`
}

var variants = [][]string{{"print"}, {"balance"}, {"balance", "-F", "-Z"}, {"balance", "-C"}, {"accounts"}, {"payees"}, {"statistics"}, {"budget"}}

func variant(name string) []string {
	for _, v := range variants {
		if fmt.Sprint(v) == name {
			return v
		}
	}
	fw.Harness("no variant %q", name)
	return nil
}

func drawVariants(t *rapid.T, n int) []string {
	r := []string{fmt.Sprint(variants[0])}
	for i := 1; i < n; i++ {
		r = append(r, fmt.Sprint(rapid.SampledFrom(variants[1:]).Draw(t, "variant")))
	}
	return r
}

func init() {
	fw.Register("C04", "layout", 6000, 100000,
		"a journal of 1-8 entries (with allocations, notes, comments) written in two layouts, one often canonical, whose reports (print and two others) must be the same; non-trivial if the two files differ and hold at least two entries",
		func(t *rapid.T) layoutCase {
			o := fw.Opt{Min: 1, Max: 8, Rich: true, Odd: true, Commodity: true, Allocs: true, Money: rapid.Bool().Draw(t, "money")}
			v := fw.NewVocab(t, o)
			var k layoutCase
			k.Entries = fw.Entries(t, v, o)
			k.Layout = rapid.SliceOfN(rapid.Byte(), 1, 60).Draw(t, "layout")
			if fw.Chance(t, 3, "second") {
				k.Layout2 = fw.DrawLayout(t)
			}
			k.Commands = drawVariants(t, 3)
			return k
		},
		func(c *fw.Ctx, k *layoutCase) error {
			a := fw.Render(k.Entries, k.Layout2, false)
			b := fw.Render(k.Entries, k.Layout, false)
			c.Nontrivial = a != b && len(k.Entries) > 1
			c.Class(fw.Describe(k.Entries)...)
			for _, v := range k.Commands {
				v := variant(v)
				c.Write(jfile, a)
				ra, err := c.OK(args(v, "-f", jfile)...)
				if err != nil {
					return with("first layout", err, a)
				}
				c.Write(jfile, b)
				rb, err := c.OK(args(v, "-f", jfile)...)
				if err != nil {
					return with("second layout", err, b)
				}
				if err := diffText(fmt.Sprintf("%v reports of two layouts", v), ra, rb); err != nil {
					return fmt.Errorf("%w\nfirst:\n%ssecond:\n%s", err, fw.Show(a), fw.Show(b))
				}
			}
			return nil
		})

	fw.Register("C04", "single", 6000, 100000,
		"a journal written canonically and with one kind of layout change at one line (blank lines, comment line, indent, separator, trailing whitespace, line end, final newline, date separator, comment spacing, missing blank line), print compared; every case is non-trivial",
		func(t *rapid.T) singleCase {
			o := fw.Opt{Min: 1, Max: 4, Rich: true, Commodity: true, Allocs: true}
			v := fw.NewVocab(t, o)
			k := singleCase{Entries: fw.Entries(t, v, o)}
			n := fw.Int(t, 0, 110, "position")
			k.Layout = make([]byte, 4096)
			k.Layout[n] = byte(fw.Int(t, 1, 11, "choice"))
			if fw.Chance(t, 3, "two") {
				k.Layout[n+fw.Int(t, 1, 10, "second")] = byte(fw.Int(t, 1, 11, "choice2"))
			}
			k.Pos, k.Choice = nil, nil
			for i, b := range k.Layout {
				if b != 0 {
					k.Pos, k.Choice = append(k.Pos, i), append(k.Choice, int(b))
				}
			}
			k.Layout = nil
			k.Command = fmt.Sprint(rapid.SampledFrom(variants).Draw(t, "variant"))
			return k
		},
		func(c *fw.Ctx, k *singleCase) error {
			l := make([]byte, 8192)
			for i, p := range k.Pos {
				l[p] = byte(k.Choice[i])
			}
			a := fw.Render(k.Entries, nil, false)
			b := fw.Render(k.Entries, l, false)
			c.Nontrivial = a != b
			v := variant(k.Command)
			c.Write(jfile, a)
			ra, err := c.OK(args(v, "-f", jfile)...)
			if err != nil {
				return with("canonical layout", err, a)
			}
			c.Write(jfile, b)
			rb, err := c.OK(args(v, "-f", jfile)...)
			if err != nil {
				return with("changed layout", err, b)
			}
			if err := diffText(fmt.Sprintf("%v reports of two layouts", v), ra, rb); err != nil {
				return fmt.Errorf("%w\nfirst:\n%ssecond:\n%s", err, fw.Show(a), fw.Show(b))
			}
			return nil
		})
}

type singleCase struct {
	Entries []fw.Entry `json:"entries"`
	Layout  []byte     `json:"-"`
	Pos     []int      `json:"pos"`
	Choice  []int      `json:"choice"`
	Command string     `json:"command"`
}
