package main

import (
	"fmt"
	"math"

	"pgregory.net/rapid"
	"verifharness/fw"
)

func init() {
	fw.Register("C01", "accept", 16000, 120000,
		"a journal of 1-8 transactions with 0-40 postings, at most one of them without an amount (and sometimes a 0 without the commodity of the others), printed; non-trivial if some amount is elided and some transaction has three or more postings or sums of mixed signs",
		func(t *rapid.T) JCase {
			o := fw.Opt{Min: 1, Max: 8, Big: true, Odd: true, Commodity: true, PerTxn: true, Zeros: true, Rich: fw.Chance(t, 3, "rich")}
			v := fw.NewVocab(t, o)
			es := fw.Entries(t, v, o)
			if fw.Chance(t, 4, "extreme") {
				for _, x := range fw.Txns(es) {
					extreme(t, x)
				}
			}
			if fw.Chance(t, 3, "bare") {
				// zeros that are written without the commodity
				for _, x := range fw.Txns(es) {
					if len(x.Postings) > 1 && fw.Chance(t, 2, "here") {
						i := fw.Int(t, 0, len(x.Postings), "at")
						z := fw.Posting{Account: x.Postings[0].Account}
						x.Postings = append(x.Postings[:i:i], append([]fw.Posting{z}, x.Postings[i:]...)...)
					}
				}
			}
			return JCase{es, fw.DrawLayout(t)}
		},
		func(c *fw.Ctx, k *JCase) error {
			f := put(c, k.Entries, k.Layout)
			out, err := c.OK(args("print", f)...)
			if err != nil {
				return with("print", err, fw.Render(k.Entries, k.Layout, true))
			}
			got, err := fw.ParsePrint(out)
			if err != nil {
				return err
			}
			want := ptxns(fw.ByDate(fw.Select(fw.Txns(k.Entries), fw.Sel{})))
			c.Class(fw.Describe(k.Entries)...)
			elided, rich := false, false
			if len(got) != len(want) {
				return fmt.Errorf("%d transactions printed, want %d", len(got), len(want))
			}
			for i, w := range want {
				g := got[i]
				if len(g.Postings) != len(w.Postings) {
					return fmt.Errorf("transaction %d has %d postings, want %d:\n%s", i+1, len(g.Postings), len(w.Postings), out)
				}
				rich = rich || len(w.Postings) > 2
				for j, wp := range w.Postings {
					gp := g.Postings[j]
					if gp.Q != wp.Q || (gp.C != wp.C) {
						kind := "written"
						if wp.Elided {
							kind = "omitted"
						}
						return with("print", fmt.Errorf("transaction %d, posting %d (%s): amount %s%s, want %s%s", i+1, j+1, kind, gp.C, fw.FormatQ(gp.Q), wp.C, fw.FormatQ(wp.Q)), fw.Render(k.Entries, k.Layout, true))
					}
					elided = elided || wp.Elided
				}
			}
			c.Nontrivial = elided && rich
			return nil
		})

	fw.Register("C01", "reject", 20000, 120000,
		"a journal with one transaction that does not balance (by one hundredth up to amounts that wrap around 64 bits), or omits two or more amounts, or an allocation that does, given to one of the report commands; every case is non-trivial",
		func(t *rapid.T) rejectCase {
			o := fw.Opt{Min: 1, Max: 5, Commodity: true, Rich: fw.Chance(t, 3, "rich")}
			v := fw.NewVocab(t, o)
			es := fw.Entries(t, v, o)
			k := rejectCase{Layout: fw.DrawLayout(t)}
			at := fw.Int(t, 0, len(es), "at")
			bad, kind := unbalanced(t, v)
			entry := fw.Entry{T: bad}
			if fw.Chance(t, 10, "allocation") {
				// of which more than one amount is omitted
				kind = "allocation"
				entry = fw.Entry{A: &fw.Alloc{Month: fw.OneOf(t, "month", "2020-01", "1999-12", "2024-02"), Postings: bad.Postings}}
				for len(bad.Postings) < 2 {
					bad.Postings = append(bad.Postings, bad.Postings[0])
				}
				i := fw.Int(t, 0, len(bad.Postings)-1, "one")
				j := fw.OneOf(t, "other", fw.Int(t, 0, len(bad.Postings)-1, "another"), len(bad.Postings)-1)
				if i == j {
					j = (i + 1) % len(bad.Postings)
				}
				bad.Postings[i].Elided, bad.Postings[j].Elided = true, true
				entry.A.Postings = bad.Postings
			}
			k.Kind = kind
			es = append(es[:at:at], append([]fw.Entry{entry}, es[at:]...)...)
			k.Entries = es
			k.Command = fw.OneOf(t, "command", reports...)
			return k
		},
		func(c *fw.Ctx, k *rejectCase) error {
			f := put(c, k.Entries, k.Layout)
			c.Nontrivial = true
			c.Class("fault:"+k.Kind, "command:"+k.Command)
			r := c.Gl(args(k.Command, f)...)
			return with(k.Kind, r.Refused(k.Command, names(k.Entries)), fw.Render(k.Entries, k.Layout, true))
		})
}

type rejectCase struct {
	JCase
	Kind    string `json:"kind"`
	Command string `json:"command"`
}

// extreme gives a transaction amounts at the edge of what fits, which balance
func extreme(t *rapid.T, x *fw.Txn) {
	if len(x.Postings) < 2 {
		return
	}
	q := math.MaxInt64 - int64(fw.Int(t, 0, 3, "edge"))
	c := x.Postings[0].C
	x.Postings = x.Postings[:2]
	x.Postings[0] = fw.Posting{Account: x.Postings[0].Account, C: c, Q: q}
	x.Postings[1] = fw.Posting{Account: x.Postings[1].Account, C: c, Q: -q}
	switch fw.Int(t, 0, 3, "edgekind") {
	case 1:
		x.Postings[1].Elided = true
	case 2:
		x.Postings[0], x.Postings[1] = x.Postings[1], x.Postings[0]
	case 3:
		// the running sum leaves the range and returns
		x.Postings = []fw.Posting{x.Postings[0], x.Postings[0], x.Postings[1], x.Postings[1]}
	}
}

// unbalanced draws a transaction that must be rejected for its amounts
func unbalanced(t *rapid.T, v fw.Vocab) (*fw.Txn, string) {
	o := fw.Opt{NoElided: true, Rich: len(v.Notes) > 0}
	x := fw.Transaction(t, v, o)
	x.State = fw.OneOf(t, "badstate", "", "", "*", "!")
	x.Payee = fw.PayeeFor(x.State, x.Payee)
	if fw.Chance(t, 12, "long") {
		// further postings that balance
		for i := fw.Int(t, 5, 120, "pairs"); i > 0; i-- {
			q := fw.Quantity(t, o)
			p := rapid.SampledFrom(x.Postings).Draw(t, "paired")
			x.Postings = append(x.Postings, fw.Posting{Account: p.Account, C: p.C, Q: q}, fw.Posting{Account: x.Postings[0].Account, C: p.C, Q: -q})
		}
	}
	pick := func() int { return fw.Int(t, 0, len(x.Postings)-1, "which") }
	switch fw.Int(t, 0, 5, "fault") {
	case 0, 1:
		d := int64(fw.OneOf(t, "delta", 1, -1, 10, -100, 3, 12345, 1000000))
		x.Postings[pick()].Q += d
		return x, "does not balance"
	case 2:
		i := pick()
		j := pick()
		if i == j {
			j = (i + 1) % len(x.Postings)
		}
		x.Postings[i].Elided, x.Postings[j].Elided = true, true
		return x, "two amounts omitted"
	case 3:
		for i := range x.Postings {
			x.Postings[i].Elided = true
		}
		return x, "all amounts omitted"
	case 4:
		x.Postings = x.Postings[:1]
		x.Postings[0].Q = int64(fw.OneOf(t, "alone", 1, -1, 500, -12345))
		return x, "single posting"
	default:
		a := x.Postings[0]
		s := int64(fw.OneOf(t, "sign", 1, -1))
		mk := func(q int64) fw.Posting { return fw.Posting{Account: a.Account, C: a.C, Q: q * s} }
		switch fw.Int(t, 0, 2, "wrap") {
		case 0:
			// twice 2^63-1 and 2 make 2^64
			x.Postings = []fw.Posting{mk(math.MaxInt64), mk(math.MaxInt64), mk(2)}
		case 1:
			// many, none of them near the limit
			log := fw.Int(t, 2, 7, "log")
			x.Postings = nil
			for i := 0; i < 1<<log; i++ {
				x.Postings = append(x.Postings, mk(1<<(64-log)))
			}
			for i := fw.Int(t, 0, 3, "moves"); i > 0; i-- {
				d := int64(fw.Int(t, 1, 1000, "move"))
				x.Postings[i].Q += d
				x.Postings[0].Q -= d
			}
		default:
			x.Postings = []fw.Posting{mk(math.MaxInt64), mk(1), mk(math.MaxInt64), mk(1)}
		}
		return x, "wraps around"
	}
}
