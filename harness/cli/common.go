package main

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"
	"verifharness/fw"
)

// JCase is a journal of one file in some layout
type JCase struct {
	Entries []fw.Entry `json:"entries"`
	Layout  []byte     `json:"layout,omitempty"`
}

const jfile = "j.journal"

// put writes the journal and returns the arguments that name it
func put(c *fw.Ctx, es []fw.Entry, layout []byte) []string {
	c.Write(jfile, fw.Render(es, layout, true))
	return []string{"-f", jfile}
}

func args(parts ...any) []string {
	var r []string
	for _, p := range parts {
		switch x := p.(type) {
		case string:
			r = append(r, x)
		case []string:
			r = append(r, x...)
		default:
			panic(fmt.Sprintf("%T", p))
		}
	}
	return r
}

var reports = []string{"print", "balance", "accounts", "payees", "statistics", "budget"}

// names lists what accounts and payees reports could contain
func names(es []fw.Entry) []string {
	var r []string
	for _, t := range fw.Txns(es) {
		r = append(r, t.Payee)
		for _, p := range t.Postings {
			r = append(r, p.Account)
		}
	}
	return fw.Distinct(r)
}

func ptxns(ps []fw.Picked) []*fw.Txn {
	var r []*fw.Txn
	for _, p := range ps {
		r = append(r, p.T)
	}
	return r
}

// fits draws until the sums of the journal fit
func fits(t *rapid.T, gen func() []fw.Entry) []fw.Entry {
	es := gen()
	if !fw.CheckFits(es) {
		// scale down instead of drawing again
		for _, x := range fw.Txns(es) {
			for i := range x.Postings {
				if !x.Postings[i].Elided {
					x.Postings[i].Q = 0
				}
			}
			fw.Infer(x.Postings)
		}
	}
	return es
}

func with(context string, err error, text string) error {
	if err == nil {
		return nil
	}
	return fmt.Errorf("%s: %w\njournal:\n%s", context, err, fw.Show(text))
}

func diffText(what, a, b string) error {
	if a == b {
		return nil
	}
	la, lb := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range la {
		if i >= len(lb) {
			return fmt.Errorf("%s: line %d %q is missing in the second", what, i+1, la[i])
		}
		if la[i] != lb[i] {
			return fmt.Errorf("%s: line %d is %q in the first and %q in the second", what, i+1, la[i], lb[i])
		}
	}
	return fmt.Errorf("%s: the second has the further line %q", what, lb[len(la)])
}

func small(n, thousandth int) int { return n }
