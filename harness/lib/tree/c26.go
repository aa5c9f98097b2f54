package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/rikchilvers/gledger/journal"
	"github.com/rikchilvers/gledger/reporting"
	"pgregory.net/rapid"
	"verifharness/fw"
)

// entry is a posting of a generated transaction, or of a month's budget
type entry struct {
	Path   []string `json:"path"`
	Q      int64    `json:"q"`
	Elided bool     `json:"elided,omitempty"`
	// of a budget
	Kind string `json:"kind,omitempty"`
	Date string `json:"date,omitempty"`
}

type posted struct {
	Journal int     `json:"journal,omitempty"`
	Entries []entry `json:"entries"`
	// Repeat makes as many more transactions like it
	Repeat int `json:"repeat,omitempty"`
	// Late posts it only when all transactions have been added
	Late bool `json:"late,omitempty"`
}

type journalCase struct {
	C     []string `json:"c"`
	Txs   []posted `json:"txs"`
	Asked bool     `json:"asked,omitempty"` // look after each transaction
}

type budgetCase struct {
	C       string  `json:"c"`
	Entries []entry `json:"entries"`
	Asked   bool    `json:"asked,omitempty"`
}

// pool draws paths, many of which are, contain or extend an earlier one
type pool [][]string

func (p *pool) draw(t *rapid.T) []string {
	var r []string
	if len(*p) > 0 {
		old := rapid.SampledFrom(*p).Draw(t, "earlier")
		switch fw.Int(t, 0, 7, "path") {
		case 0, 1, 2:
			r = append(r, old...)
		case 3:
			r = append(r, old[:fw.Int(t, 1, len(old), "up to")]...)
		case 4:
			r = append(append(r, old...), drawPath(t, 2)...)
		case 5:
			r = append(append(r, old[:len(old)-1]...), drawPath(t, 1)...)
		}
	}
	if r == nil {
		r = drawPath(t, fw.OneOf(t, "longest", 3, 3, 3, 6, 12))
	}
	*p = append(*p, r)
	return r
}

func drawHundredths(t *rapid.T) int64 {
	switch fw.Int(t, 0, 3, "size") {
	case 0:
		return int64(fw.Int(t, -3, 3, "q"))
	case 1:
		return int64(fw.Int(t, -100000, 100000, "q"))
	case 2:
		return (int64(1)<<uint(fw.Int(t, 0, 48, "log")) + int64(fw.Int(t, -2, 2, "off"))) * int64(fw.OneOf(t, "sign", 1, -1))
	}
	return fw.RoundNumber(t, 12)
}

func init() {
	fw.Register("C26", "journal", 12000, 160000,
		"1-25 transactions of 1-6 postings, built and closed through the package, posted to one to three journals in turn or at the end; each journal's tree compared with the postings made to it; non-trivial if an account has two postings and one beneath it",
		func(t *rapid.T) journalCase {
			k := journalCase{Asked: fw.Chance(t, 3, "asked")}
			n := fw.OneOf(t, "journals", 1, 1, 2, 3)
			for i := 0; i < n; i++ {
				k.C = append(k.C, fw.OneOf(t, "commodity", "£", "GBP ", "", "$"))
			}
			var p pool
			late := fw.Chance(t, 4, "late")
			for i, n := 0, fw.Int(t, 1, 25, "transactions"); i < n; i++ {
				x := posted{Late: late && fw.Chance(t, 2, "this one")}
				if len(k.C) > 1 {
					x.Journal = fw.Int(t, 0, len(k.C)-1, "journal")
				}
				m := fw.OneOf(t, "postings", 1, 2, 2, 2, 2, 3, 4, 6)
				elided := -1
				if fw.Chance(t, 3, "omitted") {
					elided = fw.Int(t, 0, m-1, "which")
				}
				sum := int64(0)
				for j := 0; j < m; j++ {
					e := entry{Path: p.draw(t)}
					if j == elided {
						e.Elided = true
					} else if j == m-1 && elided < 0 {
						e.Q = -sum
					} else {
						e.Q = drawHundredths(t)
						sum += e.Q
					}
					x.Entries = append(x.Entries, e)
				}
				k.Txs = append(k.Txs, x)
			}
			if fw.Chance(t, 100, "many") {
				i := fw.Int(t, 0, len(k.Txs)-1, "which")
				k.Txs[i].Repeat = fw.OneOf(t, "times", 10, 100, 1100, 2100, fw.Int(t, 10, 3000, "repeated"))
				k.Asked = false
			}
			return k
		}, checkJournal)

	fw.Register("C26", "budget", 12000, 160000,
		"1-40 allocations, expenses and receipts of income, each a posting of a transaction on a day in one of a few months, added to a budget in any order; each month's trees compared with the postings made in it; non-trivial if two months have both allocations and spending",
		func(t *rapid.T) budgetCase {
			k := budgetCase{C: fw.OneOf(t, "commodity", "£", "GBP ", "", "$"), Asked: fw.Chance(t, 3, "asked")}
			p := pool{}
			var months []time.Time
			for i, n := 0, fw.Int(t, 1, 4, "months"); i < n; i++ {
				y := fw.OneOf(t, "year", 2020, 2020, 2021, 2024, 1999, 1900, 2400)
				months = append(months, time.Date(y, time.Month(fw.Int(t, 1, 12, "month")), 1, 0, 0, 0, 0, time.UTC))
				if fw.Chance(t, 2, "next") {
					months = append(months, months[len(months)-1].AddDate(0, 1, 0))
				}
			}
			for i, n := 0, fw.Int(t, 1, 40, "postings"); i < n; i++ {
				m := rapid.SampledFrom(months).Draw(t, "month")
				last := m.AddDate(0, 1, -1).Day()
				day := fw.Int(t, 1, last, "day")
				switch fw.Int(t, 0, 4, "edge") {
				case 0:
					day = 1
				case 1:
					day = last
				}
				e := entry{Kind: fw.OneOf(t, "kind", "allocation", "allocation", "expense", "expense", "income"), Q: drawHundredths(t), Path: p.draw(t)}
				e.Date = m.AddDate(0, 0, day-1).Format("2006-01-02")
				switch e.Kind {
				case "expense":
					if fw.Chance(t, 12, "bare") {
						e.Path = nil
					}
					e.Path = append([]string{journal.ExpensesID}, e.Path...)
				case "income":
					e.Path = append([]string{journal.IncomeID}, e.Path...)
					if fw.Chance(t, 3, "bare") {
						e.Path = e.Path[:1]
					}
				}
				k.Entries = append(k.Entries, e)
			}
			return k
		}, checkBudget)
}

// sums is what the accounts of a tree should hold
type sums struct {
	paths    [][]string // of all accounts, by first use
	total    map[string]int64
	postings map[string][]*journal.Posting
}

func newSums() *sums {
	return &sums{total: map[string]int64{}, postings: map[string][]*journal.Posting{}}
}

func key(path []string) string { return strings.Join(path, ":") }

// open makes sure that the accounts of a path are there
func (s *sums) open(path []string) {
	for i := range path {
		if _, ok := s.total[key(path[:i+1])]; !ok {
			s.total[key(path[:i+1])] = 0
			s.paths = append(s.paths, path[:i+1])
		}
	}
}

func (s *sums) add(path []string, q int64, p *journal.Posting) {
	s.open(path)
	for i := 0; i <= len(path); i++ {
		s.total[key(path[:i])] += q
	}
	s.postings[key(path)] = append(s.postings[key(path)], p)
}

// compare verifies the accounts beneath a root, and the root if told to
func (s *sums) compare(root *journal.Account, c string, withRoot, transactions bool, paths bool) error {
	seen := 0
	var walk func(a *journal.Account, path []string) error
	walk = func(a *journal.Account, path []string) error {
		k := key(path)
		want, ok := s.total[k]
		if len(path) > 0 && !ok {
			return fmt.Errorf("there should be no account %q", k)
		}
		if len(path) > 0 || withRoot {
			if a.Amount.Quantity != want {
				return fmt.Errorf("%q holds %s hundredths, want %s", k, fmt.Sprint(a.Amount.Quantity), fmt.Sprint(want))
			}
			if a.Amount.Commodity != c && len(s.paths) > 0 {
				return fmt.Errorf("%q is in %q, want %q", k, a.Amount.Commodity, c)
			}
			ps := s.postings[k]
			if len(a.Postings) != len(ps) {
				return fmt.Errorf("%q has %d postings, want %d", k, len(a.Postings), len(ps))
			}
			for i, p := range ps {
				if a.Postings[i] != p {
					return fmt.Errorf("posting %d of %q is not the one made", i+1, k)
				}
				if p.Account != a {
					return fmt.Errorf("posting %d of %q does not have it as its account", i+1, k)
				}
			}
			if transactions {
				if len(a.Transactions) != len(ps) {
					return fmt.Errorf("%q has %d transactions, want that of each of %d postings", k, len(a.Transactions), len(ps))
				}
				for i, p := range ps {
					if a.Transactions[i] != p.Transaction {
						return fmt.Errorf("transaction %d of %q is not that of its posting", i+1, k)
					}
				}
			}
		}
		if paths && len(path) > 0 && (a.Path != k || strings.Join(a.PathComponents, "\x00") != strings.Join(path, "\x00")) {
			return fmt.Errorf("%q has the path %q of the components %q", k, a.Path, a.PathComponents)
		}
		if len(path) > 0 {
			seen++
		}
		for _, n := range fw.SortedKeys(a.Children) {
			x := a.Children[n]
			if x.Name != n {
				return fmt.Errorf("child %q of %q is named %q", n, k, x.Name)
			}
			if x.Parent != a {
				return fmt.Errorf("child %q of %q has another parent", n, k)
			}
			if err := walk(x, append(path[:len(path):len(path)], n)); err != nil {
				return err
			}
		}
		return nil
	}
	if err := walk(root, nil); err != nil {
		return err
	}
	if seen != len(s.paths) {
		return fmt.Errorf("there are %d accounts, want %d", seen, len(s.paths))
	}
	return nil
}

// drawn is what the accounts look like as a tree
func (s *sums) drawn(collapse bool, before func(path string) string) string {
	kids := map[string][]string{}
	names := map[string]string{}
	for _, p := range s.paths {
		up := key(p[:len(p)-1])
		kids[up] = append(kids[up], key(p))
		names[key(p)] = p[len(p)-1]
	}
	var lines []string
	var walk func(at string, depth int)
	walk = func(at string, depth int) {
		byName := map[string]string{}
		for _, k := range kids[at] {
			byName[names[k]] = k
		}
		for _, n := range fw.SortedKeys(byName) {
			k := byName[n]
			for collapse && len(kids[k]) == 1 {
				k = kids[k][0]
				n += ":" + names[k]
			}
			lines = append(lines, before(k)+strings.Repeat("  ", depth)+n)
			walk(k, depth+1)
		}
	}
	walk("", 0)
	return strings.Join(lines, "\n")
}

// flat is what they look like as a flattened tree
func (s *sums) flat(before func(path string) string) string {
	inner := map[string]bool{}
	byPath := map[string][]string{}
	for _, p := range s.paths {
		inner[key(p[:len(p)-1])] = true
		byPath[strings.Join(p, "\x00")] = p
	}
	var lines []string
	for _, k := range fw.SortedKeys(byPath) {
		if p := key(byPath[k]); !inner[p] {
			lines = append(lines, before(p)+p)
		}
	}
	return strings.Join(lines, "\n")
}

// shown verifies how the tree beneath a root is drawn
func (s *sums) shown(root *journal.Account) error {
	if len(s.paths) == 0 {
		return nil
	}
	before := func(p string) string { return fmt.Sprintf("%d %s|", s.total[p], p) }
	prepend := func(a journal.Account) string { return fmt.Sprintf("%d %s|", a.Amount.Quantity, a.Path) }
	nothing := func(string) string { return "" }
	for _, collapse := range []bool{false, true} {
		if got, want := reporting.Tree(*root, prepend, collapse), s.drawn(collapse, before); got != want {
			return fmt.Errorf("the tree (collapsed: %v) with a text before each account is\n%s\nwant\n%s", collapse, got, want)
		}
		if got, want := reporting.Tree(*root, nil, collapse), s.drawn(collapse, nothing); got != want {
			return fmt.Errorf("the tree (collapsed: %v) is\n%s\nwant\n%s", collapse, got, want)
		}
	}
	if got, want := reporting.FlattenedTree(*root, prepend), s.flat(before); got != want {
		return fmt.Errorf("the flattened tree with a text before each account is\n%s\nwant\n%s", got, want)
	}
	if got, want := reporting.FlattenedTree(*root, nil), s.flat(nothing); got != want {
		return fmt.Errorf("the flattened tree is\n%s\nwant\n%s", got, want)
	}
	return nil
}

// twice tells if an account has two postings and one beneath it
func (s *sums) twice() bool {
	for k, ps := range s.postings {
		if len(ps) > 1 {
			for l := range s.postings {
				if strings.HasPrefix(l, k+":") {
					return true
				}
			}
		}
	}
	return false
}

func checkJournal(c *fw.Ctx, k *journalCase) error {
	var js []*journal.Journal
	var models []*sums
	for range k.C {
		j := journal.NewJournal()
		js, models = append(js, &j), append(models, newSums())
	}
	verify := func() error {
		for i, j := range js {
			err := models[i].compare(j.Root, k.C[i], true, true, true)
			if err == nil {
				err = models[i].shown(j.Root)
			}
			if err != nil {
				return fmt.Errorf("journal %d: %w", i+1, err)
			}
		}
		return nil
	}
	post := func(i int, t *journal.Transaction) error {
		x := k.Txs[i]
		for n, p := range t.Postings {
			if err := js[x.Journal].AddPosting(p); err != nil {
				return fmt.Errorf("posting %d of transaction %d is refused: %w", n+1, i+1, err)
			}
			models[x.Journal].add(x.Entries[n].Path, x.Entries[n].Q, p)
		}
		return nil
	}
	late := map[int]*journal.Transaction{}
	one := func(i int) error {
		x := k.Txs[i]
		t := journal.NewTransaction()
		sum, at := int64(0), -1
		for n, e := range x.Entries {
			p := journal.NewPosting()
			p.Transaction = &t
			p.AccountPath = key(e.Path)
			if e.Elided {
				at = n
				c.Class("amount omitted")
			} else {
				sum += e.Q
				p.Amount = journal.NewAmount(k.C[x.Journal], e.Q)
			}
			if err := t.AddPosting(p); err != nil {
				return fmt.Errorf("transaction %d: %w", i+1, err)
			}
		}
		if at >= 0 {
			x.Entries[at].Q = -sum
			// without another posting there is no commodity to take
			if len(x.Entries) == 1 && k.C[x.Journal] != "" {
				return nil
			}
		}
		if err := t.Close(); err != nil {
			return fmt.Errorf("transaction %d: %w", i+1, err)
		}
		js[x.Journal].AddTransaction(&t, "a file")
		if x.Late {
			late[i] = &t
			c.Class("late")
			return nil
		}
		if err := post(i, &t); err != nil {
			return err
		}
		if k.Asked {
			if err := verify(); err != nil {
				return fmt.Errorf("after transaction %d: %w", i+1, err)
			}
		}
		return nil
	}
	for i, x := range k.Txs {
		if err := one(i); err != nil {
			return err
		}
		for n := 0; n < x.Repeat && !x.Late; n++ {
			if err := one(i); err != nil {
				return err
			}
			c.Class("repeated")
		}
	}
	for i := range k.Txs {
		if t := late[i]; t != nil {
			if err := post(i, t); err != nil {
				return err
			}
		}
	}
	for _, m := range models {
		if m.twice() {
			c.Nontrivial = true
		}
	}
	c.Class(fmt.Sprintf("journals:%d", len(js)))
	return verify()
}

func checkBudget(c *fw.Ctx, k *budgetCase) error {
	b := journal.NewBudget()
	type month struct {
		envelopes, expenses *sums
		income              int64
		receipts            []*journal.Posting
		allocated, spent    bool
	}
	months := map[string]*month{}
	verify := func() error {
		seen := 0
		for at, bm := range b.Months {
			name := at.Format("2006-01")
			m := months[name]
			if m == nil {
				return fmt.Errorf("there should be no month %s", name)
			}
			if at.Day() != 1 {
				return fmt.Errorf("the month %s begins on day %d", name, at.Day())
			}
			seen++
			if err := m.envelopes.compare(bm.EnvelopeRoot, k.C, false, false, true); err != nil {
				return fmt.Errorf("%s: of the envelopes, %w", name, err)
			}
			if err := m.expenses.compare(bm.ExpenseRoot, k.C, true, false, false); err != nil {
				return fmt.Errorf("%s: of the spending, %w", name, err)
			}
			if bm.Income.Amount.Quantity != m.income {
				return fmt.Errorf("%s: the funds are %d hundredths, want %d", name, bm.Income.Amount.Quantity, m.income)
			}
			if len(bm.Income.Postings) != len(m.receipts) {
				return fmt.Errorf("%s: the funds have %d postings, want %d", name, len(bm.Income.Postings), len(m.receipts))
			}
			for i, p := range m.receipts {
				if bm.Income.Postings[i] != p {
					return fmt.Errorf("%s: posting %d of the funds is not the one made", name, i+1)
				}
			}
			if len(m.receipts) > 0 && bm.Income.Amount.Commodity != k.C {
				return fmt.Errorf("%s: the funds are in %q, want %q", name, bm.Income.Amount.Commodity, k.C)
			}
		}
		if seen != len(months) {
			return fmt.Errorf("there are %d months, want %d", seen, len(months))
		}
		return nil
	}
	for i, e := range k.Entries {
		date, err := time.Parse("2006-01-02", e.Date)
		if err != nil {
			fw.Harness("bad date %q", e.Date)
		}
		m := months[e.Date[:7]]
		if m == nil {
			m = &month{envelopes: newSums(), expenses: newSums()}
			months[e.Date[:7]] = m
		}
		t := journal.NewTransaction()
		t.Date = date
		p := journal.NewPosting()
		p.Transaction = &t
		p.AccountPath = key(e.Path)
		p.Amount = journal.NewAmount(k.C, e.Q)
		if err := t.AddPosting(p); err != nil {
			return err
		}
		var kind journal.PostingType
		switch e.Kind {
		case "allocation":
			kind = journal.EnvelopePosting
			m.envelopes.add(e.Path, e.Q, p)
			m.expenses.open(e.Path)
			m.allocated = true
		case "expense":
			kind = journal.ExpensePosting
			m.expenses.add(e.Path[1:], -e.Q, p)
			m.envelopes.open(e.Path[1:])
			m.spent = true
		case "income":
			kind = journal.IncomePosting
			m.income -= e.Q
			m.receipts = append(m.receipts, p)
		}
		if err := b.AddPosting(p, kind); err != nil {
			return fmt.Errorf("posting %d is refused: %w", i+1, err)
		}
		if *p.Amount != *journal.NewAmount(k.C, e.Q) {
			return fmt.Errorf("the amount of posting %d becomes %s", i+1, p.Amount.DisplayableQuantity(true))
		}
		c.Class(e.Kind)
		if k.Asked {
			if err := verify(); err != nil {
				return fmt.Errorf("after posting %d: %w", i+1, err)
			}
		}
	}
	both := 0
	for _, m := range months {
		if m.allocated && m.spent {
			both++
		}
	}
	c.Nontrivial = both > 1
	c.Class(fmt.Sprintf("months:%d", len(months)))
	return verify()
}
