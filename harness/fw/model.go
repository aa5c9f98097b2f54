// Package fw is the framework of the checks: the reference model of a journal
// and of what gledger reports about it, generators, the renderer, readers of
// gledger's output, and the runner. It does not depend on gledger's code.
package fw

import (
	"fmt"
	"regexp"
	"sort"
	"strings"
	"unicode"
)

// Posting is one posting of a transaction or allocation. Q is in hundredths and
// is always filled in, also for an elided amount (see Infer).
type Posting struct {
	Account  string   `json:"acc"`
	C        string   `json:"com,omitempty"` // commodity as written, including a following space
	Q        int64    `json:"q"`
	Elided   bool     `json:"elided,omitempty"`
	Comments []string `json:"comments,omitempty"`
}

// Txn is a transaction
type Txn struct {
	Date     string    `json:"date"` // YYYY-MM-DD
	State    string    `json:"state,omitempty"`
	Payee    string    `json:"payee"`
	Note     string    `json:"note,omitempty"`
	Notes    []string  `json:"notes,omitempty"`
	Postings []Posting `json:"postings"`
}

// Alloc is a budget allocation entry
type Alloc struct {
	Month    string    `json:"month"` // YYYY-MM
	Notes    []string  `json:"notes,omitempty"`
	Postings []Posting `json:"postings"`
}

// Entry is a transaction or an allocation
type Entry struct {
	T *Txn   `json:"t,omitempty"`
	A *Alloc `json:"a,omitempty"`
}

// Txns returns the transactions among the entries
func Txns(es []Entry) []*Txn {
	var r []*Txn
	for _, e := range es {
		if e.T != nil {
			r = append(r, e.T)
		}
	}
	return r
}

// Allocs returns the allocations among the entries
func Allocs(es []Entry) []*Alloc {
	var r []*Alloc
	for _, e := range es {
		if e.A != nil {
			r = append(r, e.A)
		}
	}
	return r
}

// FormatQ writes hundredths as gledger should
func FormatQ(q int64) string {
	s := ""
	u := uint64(q)
	if q < 0 {
		s = "-"
		u = -u
	}
	return fmt.Sprintf("%s%d.%02d", s, u/100, u%100)
}

// Infer fills in the quantity and commodity of an elided posting
func Infer(ps []Posting) {
	var sum int64
	c := ""
	at := -1
	for i, p := range ps {
		if p.Elided {
			at = i
			continue
		}
		sum += p.Q
		if p.C != "" {
			c = p.C
		}
	}
	if at >= 0 {
		ps[at].Q = -sum
		ps[at].C = c
	}
}

// ContainsUpper tells whether a pattern has an upper-case letter
func ContainsUpper(s string) bool {
	for _, r := range s {
		if unicode.IsUpper(r) {
			return true
		}
	}
	return false
}

// Pattern compiles a pattern the way the properties say
func Pattern(p string) (*regexp.Regexp, error) {
	if _, err := regexp.Compile(p); err != nil {
		return nil, err
	}
	if !ContainsUpper(p) {
		return regexp.Compile("(?i:" + p + ")")
	}
	return regexp.Compile(p)
}

// Sel says which transactions a command considers
type Sel struct {
	Begin   string   `json:"begin,omitempty"` // YYYY-MM-DD, inclusive
	End     string   `json:"end,omitempty"`   // YYYY-MM-DD, exclusive
	Filters []string `json:"filters,omitempty"`
}

// Args returns the command line arguments of the selection
func (s Sel) Args() []string {
	var a []string
	if s.Begin != "" {
		a = append(a, "--begin", s.Begin)
	}
	if s.End != "" {
		a = append(a, "--end", s.End)
	}
	return append(a, s.Filters...)
}

// InRange tells whether the date is selected
func (s Sel) InRange(date string) bool {
	return (s.Begin == "" || date >= s.Begin) && (s.End == "" || date < s.End)
}

// Picked is a selected transaction with its selected postings
type Picked struct {
	T     *Txn
	Index int // among the transactions
	Posts []int
}

// Select is the model of the date range and the filters
func Select(ts []*Txn, s Sel) []Picked {
	var out []Picked
	type flt struct {
		kind byte
		re   *regexp.Regexp
	}
	var fs []flt
	for _, a := range s.Filters {
		k := byte(0)
		p := a
		if a[0] == '@' || a[0] == '=' {
			k = a[0]
			p = a[1:]
		}
		re, err := Pattern(p)
		if err != nil {
			Harness("bad generated pattern %q: %v", a, err)
		}
		fs = append(fs, flt{k, re})
	}
	for i, t := range ts {
		if !s.InRange(t.Date) {
			continue
		}
		whole := len(fs) == 0
		hit := map[int]bool{}
		for _, f := range fs {
			switch f.kind {
			case '@':
				whole = whole || f.re.MatchString(t.Payee)
			case '=':
				whole = whole || (t.Note != "" && f.re.MatchString(t.Note))
				for _, n := range t.Notes {
					whole = whole || f.re.MatchString(n)
				}
				for pi, p := range t.Postings {
					for _, c := range p.Comments {
						if f.re.MatchString(c) {
							hit[pi] = true
						}
					}
				}
			default:
				for pi, p := range t.Postings {
					if f.re.MatchString(p.Account) {
						hit[pi] = true
					}
				}
			}
		}
		if !whole && len(hit) == 0 {
			continue
		}
		pk := Picked{T: t, Index: i}
		for pi := range t.Postings {
			if whole || hit[pi] {
				pk.Posts = append(pk.Posts, pi)
			}
		}
		out = append(out, pk)
	}
	return out
}

// ByDate orders the selected transactions as print should
func ByDate(ps []Picked) []Picked {
	r := append([]Picked{}, ps...)
	sort.SliceStable(r, func(i, j int) bool { return r[i].T.Date < r[j].T.Date })
	return r
}

// Bal is the model of the balance report
type Bal struct {
	Amount map[string]int64 // of each used account and of its ancestors
	Total  int64
	Shown  map[string]bool
}

// Ancestors returns the path and those of its ancestors, outermost first
func Ancestors(path string) []string {
	cs := strings.Split(path, ":")
	var r []string
	for i := range cs {
		r = append(r, strings.Join(cs[:i+1], ":"))
	}
	return r
}

// Balance computes the model of the balance report
func Balance(ps []Picked, showZero bool) Bal {
	b := Bal{Amount: map[string]int64{}, Shown: map[string]bool{}}
	for _, p := range ps {
		for _, i := range p.Posts {
			x := p.T.Postings[i]
			b.Total += x.Q
			for _, a := range Ancestors(x.Account) {
				b.Amount[a] += x.Q
			}
		}
	}
	for a, q := range b.Amount {
		if showZero {
			b.Shown[a] = true
		} else if q != 0 {
			for _, x := range Ancestors(a) {
				b.Shown[x] = true
			}
		}
	}
	return b
}

// BalLine is one line of a balance report
type BalLine struct {
	Indent int
	Name   string
	Q      int64
}

func (l BalLine) String() string {
	return fmt.Sprintf("%s%s %s", strings.Repeat("  ", l.Indent), l.Name, FormatQ(l.Q))
}

// Layout kinds of the balance report
const (
	TreeLayout = iota
	FlatLayout
	CollapsedLayout
)

// Lines lays the shown accounts out
func (b Bal) Lines(kind int) []BalLine {
	kids := map[string][]string{}
	for a := range b.Shown {
		parent := ""
		if i := strings.LastIndexByte(a, ':'); i >= 0 {
			parent = a[:i]
		}
		kids[parent] = append(kids[parent], a)
	}
	leaf := func(a string) string { return a[strings.LastIndexByte(a, ':')+1:] }
	for k := range kids {
		s := kids[k]
		sort.Slice(s, func(i, j int) bool { return leaf(s[i]) < leaf(s[j]) })
	}
	var out []BalLine
	var walk func(a string, depth int)
	walk = func(a string, depth int) {
		for _, k := range kids[a] {
			switch kind {
			case TreeLayout:
				out = append(out, BalLine{depth, leaf(k), b.Amount[k]})
				walk(k, depth+1)
			case FlatLayout:
				if len(kids[k]) == 0 {
					out = append(out, BalLine{0, k, b.Amount[k]})
				}
				walk(k, depth+1)
			case CollapsedLayout:
				name := leaf(k)
				for len(kids[k]) == 1 {
					k = kids[k][0]
					name += ":" + leaf(k)
				}
				out = append(out, BalLine{depth, name, b.Amount[k]})
				walk(k, depth+1)
			}
		}
	}
	walk("", 0)
	return out
}

// BudgetRow is one category of one month of the budget report
type BudgetRow struct {
	Name                          string
	Budgeted, Activity, Available int64
}

// BudgetMonth is one section of the budget report
type BudgetMonth struct {
	Month string // YYYY-MM
	Funds int64
	Rows  []BudgetRow
	// the commodities in which amounts other than zero were shown, for what
	Commodities map[string][]string
}

// Budget computes the model of the budget report
func Budget(ps []Picked, as []*Alloc) []BudgetMonth {
	type acc struct{ bud, act int64 }
	funds := map[string]int64{}
	cats := map[string]map[string]*acc{}
	touch := func(m string) {
		if cats[m] == nil {
			cats[m] = map[string]*acc{}
		}
	}
	cat := func(m, c string) *acc {
		touch(m)
		if cats[m][c] == nil {
			cats[m][c] = &acc{}
		}
		return cats[m][c]
	}
	for _, a := range as {
		touch(a.Month)
		for _, p := range a.Postings {
			cat(a.Month, strings.Split(p.Account, ":")[0]).bud += p.Q
		}
	}
	for _, p := range ps {
		m := p.T.Date[:7]
		for _, i := range p.Posts {
			x := p.T.Postings[i]
			cs := strings.Split(x.Account, ":")
			switch cs[0] {
			case "Income":
				touch(m)
				funds[m] -= x.Q
			case "Expenses":
				touch(m)
				if len(cs) > 1 {
					cat(m, cs[1]).act -= x.Q
				}
			}
		}
	}
	var out []BudgetMonth
	for m, cs := range cats {
		bm := BudgetMonth{Month: m, Funds: funds[m]}
		for c, a := range cs {
			bm.Rows = append(bm.Rows, BudgetRow{c, a.bud, a.act, a.bud + a.act})
		}
		sort.Slice(bm.Rows, func(i, j int) bool { return bm.Rows[i].Name < bm.Rows[j].Name })
		out = append(out, bm)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Month < out[j].Month })
	return out
}

// Distinct returns the sorted distinct strings
func Distinct(ss []string) []string {
	m := map[string]bool{}
	for _, s := range ss {
		m[s] = true
	}
	r := make([]string, 0, len(m))
	for s := range m {
		r = append(r, s)
	}
	sort.Strings(r)
	return r
}
