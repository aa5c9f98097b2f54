// The in-process checks of filters
package main

import (
	"fmt"

	"github.com/rikchilvers/gledger/journal"
	"github.com/rikchilvers/gledger/reporting"
	"pgregory.net/rapid"
	"verifharness/fw"
)

func main() { fw.Main(true) }

type filterCase struct {
	T    fw.Txn   `json:"t"`
	Args []string `json:"args"`
	// Invalid is put before argument At
	Invalid string `json:"invalid,omitempty"`
	At      int    `json:"at,omitempty"`
}

func init() {
	fw.Register("C12", "matching", 80000, 1500000,
		"a transaction with notes and comments and one to three filter arguments made from pieces of its texts or another's; the ways of matching it (by filter, how, and by arguments) must all say what the model says; non-trivial if it matches one argument and not another, or some but not all postings match",
		func(t *rapid.T) filterCase {
			o := fw.Opt{Min: 2, Max: 2, Rich: true, Commodity: true, MaxAcc: 5}
			v := fw.NewVocab(t, o)
			es := fw.Entries(t, v, o)
			k := filterCase{T: *fw.Txns(es)[0], Args: fw.Filters(t, es, 1, 3)}
			if fw.Chance(t, 12, "none") {
				k.Args = nil
			}
			if fw.Chance(t, 12, "invalid") {
				k.Invalid = fw.OneOf(t, "sort", "", "@", "=") + fw.OneOf(t, "pattern", "(", "[", "a(b", "*", "[z-a]", "a**", "(?<", "x{2,1}", ")", "\\")
				k.At = fw.Int(t, 0, len(k.Args), "at")
			}
			return k
		},
		func(c *fw.Ctx, k *filterCase) error {
			x := journal.NewTransaction()
			x.Payee, x.HeaderNote = k.T.Payee, k.T.Note
			for _, n := range k.T.Notes {
				x.AddNote(n)
			}
			index := map[*journal.Posting]int{}
			for i, p := range k.T.Postings {
				jp := journal.NewPosting()
				jp.Transaction = &x
				jp.AccountPath = p.Account
				jp.Amount = journal.NewAmount(p.C, p.Q)
				for _, s := range p.Comments {
					jp.AddComment(s)
				}
				index[jp] = i
				if err := x.AddPosting(jp); err != nil {
					return err
				}
			}
			if k.Invalid != "" {
				c.Class("invalid pattern")
				if _, err := reporting.NewFilter(k.Invalid); err == nil {
					return fmt.Errorf("the pattern %q is accepted", k.Invalid)
				}
				as := append(append(append([]string{}, k.Args[:k.At]...), k.Invalid), k.Args[k.At:]...)
				// arguments behind one that matches need not be looked at
				if got, err := reporting.MatchesRegex(&x, as); err == nil && (k.At == 0 || !got) {
					return fmt.Errorf("MatchesRegex accepts %q", as)
				}
			}
			if len(k.Args) == 0 {
				c.Class("no arguments")
				if got, err := reporting.MatchesRegex(&x, nil); err != nil || !got {
					return fmt.Errorf("MatchesRegex by nothing is %v (%v)", got, err)
				}
				return nil
			}
			any, all := false, true
			for _, a := range k.Args {
				f, err := reporting.NewFilter(a)
				if err != nil {
					return fmt.Errorf("filter %q: %v", a, err)
				}
				ps := fw.Select([]*fw.Txn{&k.T}, fw.Sel{Filters: []string{a}})
				want := len(ps) == 1
				if got := f.MatchesTransaction(x); got != want {
					return fmt.Errorf("MatchesTransaction by %q is %v, want %v", a, got, want)
				}
				payee, note, posts := f.MatchesTransactionHow(x)
				if got := payee || note || len(posts) > 0; got != want {
					return fmt.Errorf("MatchesTransactionHow by %q is %v, want %v", a, got, want)
				}
				if payee && a[0] != '@' || note && a[0] != '=' || len(posts) > 0 && a[0] == '@' {
					return fmt.Errorf("filter %q matches the wrong thing (payee %v, note %v, %d postings)", a, payee, note, len(posts))
				}
				if !payee && !note && want {
					hit := map[int]bool{}
					for _, p := range posts {
						i, ok := index[p]
						if !ok || hit[i] {
							return fmt.Errorf("filter %q returns a posting twice or not of the transaction", a)
						}
						hit[i] = true
					}
					for _, i := range ps[0].Posts {
						if !hit[i] {
							return fmt.Errorf("filter %q does not return posting %d", a, i+1)
						}
						delete(hit, i)
					}
					if len(hit) > 0 {
						return fmt.Errorf("filter %q returns postings that do not match", a)
					}
					if len(ps[0].Posts) < len(k.T.Postings) {
						c.Nontrivial = true
						c.Class("part of the postings")
					}
				}
				any, all = any || want, all && want
			}
			c.Nontrivial = c.Nontrivial || (any && !all)
			if any {
				c.Class("matches")
			} else {
				c.Class("does not match")
			}
			got, err := reporting.MatchesRegex(&x, k.Args)
			if err != nil {
				return fmt.Errorf("MatchesRegex %q: %v", k.Args, err)
			}
			if got != any {
				return fmt.Errorf("MatchesRegex by %q is %v, want %v", k.Args, got, any)
			}
			return nil
		})
}
