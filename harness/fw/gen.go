package fw

import (
	"fmt"
	"net/url"
	"regexp"
	"sort"
	"strings"
	"time"
	"unicode"
	"unicode/utf8"

	"pgregory.net/rapid"
)

// Int draws an integer in [lo, hi]
func Int(t *rapid.T, lo, hi int, label string) int { return rapid.IntRange(lo, hi).Draw(t, label) }

// Chance is true in about one of n draws; it shrinks to false
func Chance(t *rapid.T, n int, label string) bool { return Int(t, 0, n-1, label) == n-1 }

// OneOf draws one of the values
func OneOf[V any](t *rapid.T, label string, vs ...V) V {
	return rapid.SampledFrom(vs).Draw(t, label)
}

var words = []string{"shop", "Rent", "a", "Café", "food", "Foo", "FOO", "日本", "Müller & Co", "x-1", "2020-01-01", "100",
	"£5.00", "O'Neil", "(b)", "[c]", "a.b", "50%", "@home", "=eq", "~til", "\"q\"", "Straße", "naïve", "🍣", "e\u0301", "*", "!", "a:b", "A|B", "$x", "\\d", "include", "--", "+1", "ı", "İ", "ǅ", "K", "ſ", "a\u00a0b", "\u3000x", "\u200b", "x\u0085y", "\ufeff", "\x01", "a\u2028b", "\v", "x\u202e", "https://x.org/?q=1", "%d", "%!s", "{}", "\x1b[0m", "\x7f", "\ufffd", "a\ufffdb",
	":work:home:", ":b:a:", "[2020-01-15]", "[=2020-01-15]", "[2019-12-31=2020-01-15]", "key: value", "b: 2, a: 1", "date:2021-02-03", "date: 2021-02-03", "Payee: x", "= -1.00", "=", "@ 5.00", "{5.00}", "=> x", "Value:: 5", "A  1.00", "(100)", "x | y", "end", "comment", "end comment", "2020", "12", "1.00", "-1.00", "TODO", "account A", "Y2020", "<x@y.org>", "&amp;", "x--", "a,b", "null", "true", "Unknown", "Opening Balances", "Transfer", "Equity:Opening", "UPPER lower Title", "x  y"}

// sanitize makes any string a text that a journal line can hold
func sanitize(s string, banned string) string {
	var b strings.Builder
	prev := rune(0)
	for i, r := range s {
		if r == utf8.RuneError && !strings.HasPrefix(s[i:], "\ufffd") {
			r = '_'
		}
		if r == '\n' || r == '\r' || (banned != "" && strings.ContainsRune(banned, r)) {
			r = '_'
		}
		if banned != "" && r == ' ' && prev == ' ' {
			continue
		}
		b.WriteRune(r)
		prev = r
	}
	return strings.TrimFunc(b.String(), unicode.IsSpace)
}

// Text draws the text of a payee or comment. Texts for payees may not have
// tabs, two spaces in a row or comment signs.
func Text(t *rapid.T, payee bool, long bool, label string) string {
	banned := ""
	if payee {
		banned = "\t;#"
	}
	var s string
	switch k := Int(t, 0, 19, label+"kind"); {
	case k == 15:
		n := Int(t, 1, 2, label+"words")
		if d, ok := fromDict(t, 2, dictTexts, label); ok {
			s = d
			if n == 2 {
				s = OneOf(t, label+"joined", s+" ", s, " "+s) + rapid.SampledFrom(words).Draw(t, label)
			}
			break
		}
		if size, ok := dictSize(t, 2, 2, 5000); ok {
			s = strings.Repeat(OneOf(t, label, "x", "é", "a b "), size)
			s = string([]rune(s)[:size])
			break
		}
		s = rapid.SampledFrom(words).Draw(t, label)
	case k < 16:
		n := Int(t, 1, 4, label+"words")
		var ws []string
		for i := 0; i < n; i++ {
			ws = append(ws, rapid.SampledFrom(words).Draw(t, label))
		}
		s = strings.Join(ws, " ")
	case k < 19 || !long:
		s = rapid.StringN(1, 30, -1).Draw(t, label)
		if !payee && Chance(t, 3, "sign") {
			s += " ; x  # y\tz"
		}
	default:
		w := rapid.SampledFrom(words).Draw(t, label)
		n := Int(t, 1, 3000, label+"repeat")
		if Chance(t, 6, label+"verylong") {
			n = Int(t, 3000, 70000, label+"repeat")
		}
		s = strings.Repeat(w+" ", n/len(w)+1)
	}
	s = sanitize(s, banned)
	if s == "" {
		s = "x"
	}
	return s
}

// PayeeFor makes a payee legal after the state
func PayeeFor(state, p string) string {
	if state == "" {
		p = strings.TrimLeftFunc(p, func(r rune) bool { return r == '*' || r == '!' || unicode.IsSpace(r) })
		if p == "" {
			p = "y"
		}
	}
	return p
}

var topNames = []string{"Assets", "Expenses", "Income", "Liabilities", "assets", "Asset", "A", "B", "Équité", "日本", "Expense", "Incomes", "b", "Zed", "Z1 x", "Assets of the household", "Assets of the house", "Equity", "Assets of the house 2", "Assets of the house 10"}
var subNames = []string{"Cash", "Bank", "A", "B", "a", "Food", "Food Out", "Fo", "Rent", "1st", "(x)", "Z-y", "é", "Bank2", "cash", "日", "x.y", "100", "&", "=", "@", "_", "Assets", "Expenses", "Income", "*star", "!x", "~m", "a;b", "n#1", "Subscriptions monthly", "Subscriptions monthly A", "Subscriptions monthly B", "Subscriptions yearly", "No. 9", "No. 10", " Cash", " a", "%d", "50%", "Opening", "Opening Balances", "Unknown", "Savings", "Tax", "Misc"}

// Component draws a component of an account
func Component(t *rapid.T, top bool) string {
	if s, ok := fromDict(t, 25, dictParts, "part"); ok {
		return s
	}
	if top {
		if Chance(t, 15, "oddtop") {
			s := sanitize(rapid.StringMatching(`[\p{L}][\pL\pN\pP ]{0,9}`).Draw(t, "top"), "\t:;#")
			return s
		}
		return rapid.SampledFrom(topNames).Draw(t, "top")
	}
	if size, ok := dictSize(t, 120, 2, 400); ok {
		return strings.Repeat("x", size)
	}
	if Chance(t, 60, "longsub") {
		return strings.Repeat(rapid.SampledFrom(subNames).Draw(t, "sub"), Int(t, 5, 60, "times"))
	}
	if Chance(t, 15, "oddsub") {
		s := sanitize(rapid.StringMatching(`[\pL\pN\pP\pS][\pL\pN\pP\pS ]{0,9}`).Draw(t, "sub"), "\t:;#")
		if s == "" || s == "_root_" || s == "_budget_root_" {
			s = "x"
		}
		return s
	}
	return rapid.SampledFrom(subNames).Draw(t, "sub")
}

// Accounts draws a pool of account paths with much shared structure
func Accounts(t *rapid.T, max int) []string {
	n := Int(t, 1, max, "accounts")
	var as []string
	for i := 0; i < n; i++ {
		var p string
		k := 0
		if i > 0 {
			k = Int(t, 0, 3, "accountkind")
		}
		switch k {
		case 0: // new
			if s, ok := fromDict(t, 25, dictPaths, "path"); ok {
				p = s
				break
			}
			p = Component(t, true)
			d := Int(t, 0, 3, "depth")
			if Chance(t, 80, "deep") {
				d = Int(t, 4, 40, "depth")
			}
			for ; d > 0; d-- {
				p += ":" + Component(t, false)
			}
		case 1: // beneath another
			p = rapid.SampledFrom(as).Draw(t, "base") + ":" + Component(t, false)
		case 2: // sibling
			p = rapid.SampledFrom(as).Draw(t, "base")
			if j := strings.LastIndexByte(p, ':'); j >= 0 {
				p = p[:j+1] + Component(t, false)
			} else {
				p = Component(t, true)
			}
		case 3: // ancestor
			p = rapid.SampledFrom(as).Draw(t, "base")
			if j := strings.LastIndexByte(p, ':'); j >= 0 {
				p = p[:j]
			}
		}
		as = append(as, p)
	}
	return as
}

// Opt says what journals to generate
type Opt struct {
	Min, Max   int  // transactions
	Rich       bool // notes, comments, states, odd texts
	Long       bool // some very long texts
	Commodity  bool // any single commodity
	PerTxn     bool // each transaction may have its own commodity
	Allocs     bool // budget allocation entries in between
	Money      bool // mostly Income and Expenses
	Big        bool // some large amounts
	Odd        bool // transactions with no or a single posting, years far away
	MaxAcc     int
	Zeros      bool // many amounts cancel out
	NoElided   bool
	FixedDates []string
	Far        bool // some years far away
	Narrow     bool // never a journal of many names
}

// Commodities are the commodities journals are generated in
var Commodities = []string{"", "£", "$", "€", "GBP ", "Kč ", "US$", "₿", "Rs.", "£ ", "kr. ", "'x' ", "%", "%d ", "%s", "\\", "{} ", "日本円", "e\u0301 ", "Hours_of_work_in_the_garden ", "(x)", "~", "*", "!", "Ft ", "&"}

// Twin is the same commodity with a space more or less
func Twin(c string) string {
	if c == "" {
		return c
	}
	if t := strings.TrimSuffix(c, " "); t != c {
		return t
	}
	return c + " "
}

// Vocab is what a generated journal is made of
type Vocab struct {
	Accounts, Payees, Notes, Dates []string
	C                              string
	Wide                           bool // made of many names, which are all to be used
}

// DateString formats a date
func DateString(d time.Time) string { return d.Format("2006-01-02") }

// AddDays adds days to a date
func AddDays(d string, n int) string {
	t, err := time.Parse("2006-01-02", d)
	if err != nil {
		Harness("bad date %q", d)
	}
	return DateString(t.AddDate(0, 0, n))
}

// DayNumber counts days
func DayNumber(d string) int {
	t, err := time.Parse("2006-01-02", d)
	if err != nil {
		Harness("bad date %q", d)
	}
	return int(t.Unix() / 86400)
}

var specialDates = []string{"2020-02-29", "2019-12-31", "2020-01-01", "2020-03-01", "2000-02-29", "2021-02-28", "2018-11-04", "1999-12-31", "1970-01-01", "2024-12-31"}

// Date draws a date
func Date(t *rapid.T, odd bool) string {
	if d, ok := dictDate(t, odd); ok {
		return d
	}
	switch Int(t, 0, 5, "datekind") {
	case 0:
		return rapid.SampledFrom(specialDates).Draw(t, "date")
	case 1:
		if odd {
			return AddDays("1001-01-01", Int(t, 0, 3285000, "day"))
		}
		return AddDays("1990-01-01", Int(t, 0, 15000, "day"))
	default:
		return AddDays("2020-01-01", Int(t, 0, 400, "day"))
	}
}

// NewVocab draws a vocabulary
func NewVocab(t *rapid.T, o Opt) Vocab {
	var v Vocab
	max := o.MaxAcc
	if max == 0 {
		max = 10
	}
	if o.Money {
		v.Accounts = []string{"Income", "Expenses:Food", "Assets:Cash"}
		n := Int(t, 0, max, "moneyaccounts")
		for i := 0; i < n; i++ {
			top := OneOf(t, "moneytop", "Expenses", "Expenses", "Expenses", "Income", "Assets", "Expensesx", "Incomes", "expenses", "Expenses")
			p := top
			for d := Int(t, 0, 2, "depth"); d > 0; d-- {
				p += ":" + Component(t, false)
			}
			v.Accounts = append(v.Accounts, p)
		}
	} else {
		v.Accounts = Accounts(t, max)
	}
	n := Int(t, 1, 6, "payees")
	for i := 0; i < n; i++ {
		if i > 0 && Chance(t, 4, "payeecase") {
			v.Payees = append(v.Payees, strings.ToUpper(v.Payees[i-1]))
			continue
		}
		v.Payees = append(v.Payees, Text(t, true, o.Long, "payee"))
	}
	if o.Rich {
		n := Int(t, 1, 5, "notes")
		for i := 0; i < n; i++ {
			v.Notes = append(v.Notes, Text(t, false, o.Long, "note"))
		}
	}
	if Chance(t, 6, "coincidence") {
		// texts that are the same in different places
		a := rapid.SampledFrom(v.Accounts).Draw(t, "same account")
		if !strings.ContainsAny(a, ";#\t") && !strings.Contains(a, "  ") {
			v.Payees = append(v.Payees, a)
		}
		if o.Rich {
			v.Notes = append(v.Notes, OneOf(t, "same text", a, rapid.SampledFrom(v.Payees).Draw(t, "same payee")))
		}
	}
	if o.FixedDates != nil {
		v.Dates = o.FixedDates
	} else {
		n := Int(t, 1, 6, "dates")
		for i := 0; i < n; i++ {
			if i > 0 && Chance(t, 3, "near") {
				v.Dates = append(v.Dates, AddDays(v.Dates[i-1], OneOf(t, "offset", 1, -1, 7, 30, -31, 365)))
			} else {
				v.Dates = append(v.Dates, Date(t, o.Odd || o.Far))
			}
		}
	}
	if o.Commodity {
		v.C = rapid.SampledFrom(Commodities).Draw(t, "commodity")
		if s, ok := fromDict(t, 25, dictSigns, "commodity"); ok {
			v.C = s
		}
	}
	if !o.Narrow && Chance(t, 50, "wide") {
		v.Wide = true
		base := rapid.SampledFrom(v.Accounts).Draw(t, "widebase")
		stem := OneOf(t, "stem", "N", "N", "a long common beginning ")
		for n := Int(t, 10, 120, "siblings"); n > 0; n-- {
			v.Accounts = append(v.Accounts, fmt.Sprintf("%s:%s%d", base, stem, n))
		}
		for n := Int(t, 10, 100, "names"); n > 0; n-- {
			v.Payees = append(v.Payees, fmt.Sprintf("name %d", n))
		}
		if o.FixedDates == nil {
			d := v.Dates[0]
			step := OneOf(t, "step", 1, 10, 31)
			for n := Int(t, 0, 40, "moredates"); n > 0; n-- {
				d = AddDays(d, step)
				v.Dates = append(v.Dates, d)
			}
		}
	}
	return v
}

// RoundNumber draws a digit, of either sign, followed by zeros
func RoundNumber(t *rapid.T, zeros int) int64 {
	q := int64(Int(t, 1, 9, "digit")) * OneOf[int64](t, "sign", 1, -1)
	for i := Int(t, 0, zeros, "zeros"); i > 0; i-- {
		q *= 10
	}
	return q
}

// Quantity draws an amount
func Quantity(t *rapid.T, o Opt) int64 {
	k := Int(t, 0, 11, "quantitykind")
	switch {
	case k == 8 && len(dictNumbers) > 0 && Chance(t, 3, "from dictionary"):
		q := rapid.SampledFrom(dictNumbers).Draw(t, "quantity")
		if q < 1e12 {
			q *= OneOf[int64](t, "of", 1, -1, 100, -100)
		}
		q += int64(OneOf(t, "off", 0, 0, 1, -1))
		if max := int64(10000000); q <= max && q >= -max || o.Big && q < 1e15 && q > -1e15 {
			return q
		}
		return 0
	case k < 7:
		return int64(Int(t, -2000, 2000, "quantity"))
	case k == 7 && Chance(t, 3, "round"):
		e := 6
		if o.Big {
			e = 14
		}
		return RoundNumber(t, e)
	case k == 7:
		return int64(Int(t, -99, 99, "cents"))
	case k == 8:
		return int64(Int(t, -50, 50, "whole")) * 100
	case k == 9 && o.Zeros:
		return 0
	case k == 10 && o.Big:
		return rapid.Int64Range(-1e15, 1e15).Draw(t, "big")
	default:
		return int64(Int(t, -10000000, 10000000, "quantity"))
	}
}

func comments(t *rapid.T, v Vocab, max int, label string) []string {
	var r []string
	if len(v.Notes) == 0 || !Chance(t, 3, label) {
		return nil
	}
	n := Int(t, 1, max, label+"n")
	if Chance(t, 100, label+"many") {
		n = Int(t, 4, 40, label+"n")
		if size, ok := dictSize(t, 4, 2, 300); ok {
			n = size
		}
		if Chance(t, 8, label+"verymany") {
			n = Int(t, 40, 300, label+"n")
		}
	}
	for i := 0; i < n; i++ {
		if Chance(t, 12, "emptycomment") {
			r = append(r, "")
		} else {
			r = append(r, rapid.SampledFrom(v.Notes).Draw(t, label))
		}
	}
	return r
}

// Postings draws postings that balance
func Postings(t *rapid.T, v Vocab, o Opt, c string) []Posting {
	n := Int(t, 2, 3, "postings")
	if Chance(t, 6, "morepostings") {
		n = Int(t, 4, 9, "postings")
	}
	if Chance(t, 100, "many") {
		n = Int(t, 10, 40, "postings")
		if size, ok := dictSize(t, 2, 2, 300); ok {
			n = size
		}
	}
	at := -1
	if v.Wide {
		n = Int(t, 2, 15, "postings")
		if Chance(t, 10, "verymany") {
			n = Int(t, 15, 300, "postings")
		}
		at = Int(t, 0, len(v.Accounts)-1, "firstaccount")
	}
	if o.Odd && Chance(t, 10, "few") {
		n = Int(t, 0, 1, "postings")
	}
	var ps []Posting
	var sum int64
	elided := -1
	if !o.NoElided && n > 0 && Chance(t, 2, "elide") {
		elided = Int(t, 0, n-1, "elided")
		if n == 1 && c != "" {
			elided = -1
		}
	}
	for i := 0; i < n; i++ {
		p := Posting{C: c}
		if at >= 0 {
			// use them all
			p.Account = v.Accounts[(at+i)%len(v.Accounts)]
		} else {
			p.Account = rapid.SampledFrom(v.Accounts).Draw(t, "account")
		}
		switch {
		case i == elided:
			p.Elided = true
		case elided < 0 && i == n-1, elided >= 0 && i == n-2 && Chance(t, 5, "zerorest"):
			p.Q = -sum
		default:
			p.Q = Quantity(t, o)
		}
		if !p.Elided {
			sum += p.Q
		}
		if o.Rich {
			p.Comments = comments(t, v, 3, "postingcomment")
		}
		ps = append(ps, p)
	}
	Infer(ps)
	return ps
}

// Transaction draws a transaction
func Transaction(t *rapid.T, v Vocab, o Opt) *Txn {
	x := &Txn{Date: rapid.SampledFrom(v.Dates).Draw(t, "date")}
	if o.Rich {
		x.State = OneOf(t, "state", "", "", "*", "!")
	}
	x.Payee = PayeeFor(x.State, rapid.SampledFrom(v.Payees).Draw(t, "payee"))
	if o.Odd && Chance(t, 25, "nopayee") {
		x.Payee = ""
	}
	if len(v.Notes) > 0 && Chance(t, 3, "headernote") {
		x.Note = rapid.SampledFrom(v.Notes).Draw(t, "note")
	}
	if o.Rich {
		x.Notes = comments(t, v, 3, "txnnote")
	}
	c := v.C
	if o.PerTxn && Chance(t, 3, "owncommodity") {
		c = rapid.SampledFrom(Commodities).Draw(t, "commodity")
		if v.C != "" && Chance(t, 3, "twin") {
			c = Twin(v.C)
		}
	}
	x.Postings = Postings(t, v, o, c)
	return x
}

// Allocation draws a budget allocation
func Allocation(t *rapid.T, v Vocab, o Opt) *Alloc {
	a := &Alloc{Month: rapid.SampledFrom(v.Dates).Draw(t, "month")[:7]}
	if Chance(t, 4, "othermonth") {
		a.Month = OneOf(t, "month", "2020-01", "2020-02", "2019-12", "2021-03")
	}
	if o.Rich {
		a.Notes = comments(t, v, 2, "allocnote")
	}
	n := Int(t, 1, 4, "allocations")
	for i := 0; i < n; i++ {
		acc := rapid.SampledFrom(v.Accounts).Draw(t, "allocaccount")
		if Chance(t, 2, "category") {
			// the categories of spending are named without Expenses
			acc = strings.TrimPrefix(acc, "Expenses:")
		}
		if r, _ := utf8.DecodeRuneInString(acc); !unicode.IsLetter(r) {
			acc = "Food"
		}
		p := Posting{Account: acc, C: v.C, Q: Quantity(t, o)}
		if o.Rich {
			p.Comments = comments(t, v, 2, "alloccomment")
		}
		a.Postings = append(a.Postings, p)
	}
	if n > 1 && Chance(t, 12, "allocelided") {
		k := Int(t, 0, n-1, "elided")
		a.Postings[k].Elided = true
		Infer(a.Postings)
	}
	return a
}

// Entries draws the entries of a journal
func Entries(t *rapid.T, v Vocab, o Opt) []Entry {
	n := Int(t, o.Min, o.Max, "transactions")
	if v.Wide && o.Max > 4 {
		n = Int(t, o.Min, 8*o.Max, "transactions")
	}
	if o.Max > 4 {
		if size, ok := dictSize(t, 60, o.Min, 130); ok {
			n = size
		}
	}
	var es []Entry
	for i := 0; i < n; i++ {
		if o.Allocs && Chance(t, 3, "alloc") {
			es = append(es, Entry{A: Allocation(t, v, o)})
		}
		if o.Zeros && len(es) > 0 && Chance(t, 4, "reverse") {
			// undo an earlier transaction so that accounts return to zero
			if src := Txns(es); len(src) > 0 {
				s := rapid.SampledFrom(src).Draw(t, "reversed")
				x := *s
				x.Postings = append([]Posting{}, s.Postings...)
				for k := range x.Postings {
					x.Postings[k].Q = -x.Postings[k].Q
				}
				es = append(es, Entry{T: &x})
				continue
			}
		}
		es = append(es, Entry{T: Transaction(t, v, o)})
	}
	if o.Allocs && Chance(t, 3, "lastalloc") {
		es = append(es, Entry{A: Allocation(t, v, o)})
	}
	if !o.Narrow && o.Max > 4 && len(es) > 0 && Chance(t, 150, "multiplied") {
		es = Multiply(t, es)
	}
	return es
}

// Multiply makes a long journal of a short one
func Multiply(t *rapid.T, es []Entry) []Entry {
	size := OneOf(t, "size", 30, 300, 1100, 2500)
	how := Int(t, 0, 31, "varied")
	if len(Txns(es)) == 0 {
		how = 0
	}
	r := append([]Entry{}, es...)
	bytes := 0
	for i := 0; len(r) < size && bytes < 600000; i++ {
		e := es[i%len(es)]
		bytes += textSize(e)
		k := i/len(es) + 1
		if e.T == nil {
			if how&16 != 0 {
				continue
			}
			r = append(r, e)
			continue
		}
		x := *e.T
		if how&1 != 0 && x.Payee != "" {
			x.Payee = fmt.Sprintf("%s %d", x.Payee, k)
		}
		if how&2 != 0 {
			x.Date = AddDays(x.Date, k%400)
		}
		if how&4 != 0 {
			x.Postings = append([]Posting{}, x.Postings...)
			for j := range x.Postings {
				if how&8 != 0 || j == 0 {
					x.Postings[j].Account = fmt.Sprintf("%s:K%d", x.Postings[j].Account, k)
				}
			}
		}
		r = append(r, Entry{T: &x})
	}
	return r
}

// Huge draws a transaction of amounts with many digits; it may be added to
// other entries once without any sum growing too large
func Huge(t *rapid.T, v Vocab) Entry {
	q := rapid.Int64Range(1e15, 4e18).Draw(t, "huge")
	if rapid.Bool().Draw(t, "negative") {
		q = -q
	}
	x := &Txn{Date: rapid.SampledFrom(v.Dates).Draw(t, "date"), Payee: "huge", Postings: []Posting{
		{Account: rapid.SampledFrom(v.Accounts).Draw(t, "account"), C: v.C, Q: q},
		{Account: rapid.SampledFrom(v.Accounts).Draw(t, "account"), C: v.C, Q: -q},
	}}
	return Entry{T: x}
}

// textSize is about the number of bytes of an entry
func textSize(e Entry) int {
	n := 30
	var ps []Posting
	if e.T != nil {
		n += len(e.T.Payee) + len(e.T.Note) + len(strings.Join(e.T.Notes, "----"))
		ps = e.T.Postings
	} else {
		n += len(strings.Join(e.A.Notes, "----"))
		ps = e.A.Postings
	}
	for _, p := range ps {
		n += 20 + len(p.Account) + len(strings.Join(p.Comments, "----"))
	}
	return n
}

// DrawLayout draws a layout stream
func DrawLayout(t *rapid.T) []byte {
	return rapid.SliceOfN(rapid.Byte(), 0, 48).Draw(t, "layout")
}

// PatternFor draws a regular expression with some chance to match one of the
// texts. It never matches the empty string.
func PatternFor(t *rapid.T, texts []string) string { return patternFor(t, texts, true) }

// patternFor escapes what would mean something at the front of an argument
func patternFor(t *rapid.T, texts []string, first bool) string {
	p := "zzz"
	if len(texts) > 0 {
		s := []rune(rapid.SampledFrom(texts).Draw(t, "patterntext"))
		if len(s) > 0 {
			a := Int(t, 0, len(s)-1, "from")
			b := a + Int(t, 1, 6, "len")
			if Chance(t, 3, "toend") || b > len(s) {
				b = len(s)
				// matching takes time in proportion to both lengths
				most := 500
				if len(s) > 5000 {
					most = 60
				}
				if a < b-most {
					a = b - most
				}
			}
			p = string(s[a:b])
		}
	}
	switch Int(t, 0, 5, "patterncase") {
	case 3:
		p = strings.ToLower(p)
	case 4:
		p = strings.ToUpper(p)
	case 5:
		p = strings.ToTitle(strings.ToLower(p))
	}
	q := regexp.QuoteMeta(p)
	switch Int(t, 0, 12, "patternshape") {
	case 12:
		switch Int(t, 0, 6, "patterngroup") {
		case 0:
			q = OneOf(t, "flags", "(?i)", "(?s)", "(?m)", "(?-i)", "(?U)", "(?is)") + q
		case 1:
			q = OneOf(t, "flags", "(?:", "(?i:", "(?s:", "(?-i:", "(?P<n>", "(?im:", "(") + q + ")"
		case 2:
			q = `\b` + q
		case 3:
			q = `(` + q + `){1}`
		case 4:
			q = "zz9|" + q
		case 5:
			q = ".*" + q
		case 6:
			q = q + ".+"
		}
	case 6:
		q = "^" + q
	case 7:
		q = q + "$"
	case 8:
		q = "^" + q + "$"
	case 9:
		q = q + "|zz9"
	case 10:
		q = "(" + q + ")+"
	case 11:
		q = q + OneOf(t, "class", ".", `\w`, `[a-z]`, `[A-Z]`, `\S`)
	}
	if first && (q[0] == '-' || q[0] == '@' || q[0] == '=') {
		q = "[" + q[:1] + "]" + q[1:]
	}
	re, err := Pattern(q)
	if err != nil || re.MatchString("") || strings.ContainsRune(q, 0) {
		return "zzz"
	}
	return q
}

// Filters draws filter arguments for the journal
func Filters(t *rapid.T, es []Entry, min, max int) []string {
	var accs, payees, notes []string
	for _, x := range Txns(es) {
		payees = append(payees, x.Payee)
		if x.Note != "" {
			notes = append(notes, x.Note)
		}
		notes = append(notes, x.Notes...)
		for _, p := range x.Postings {
			accs = append(accs, p.Account)
			notes = append(notes, p.Comments...)
		}
	}
	n := Int(t, min, max, "filters")
	many := max > 1 && Chance(t, 40, "many filters")
	if many {
		n = Int(t, 5, 40, "filters")
	}
	var r []string
	for i := 0; i < n; i++ {
		k := Int(t, 0, 3, "filterkind")
		if i > 0 && Chance(t, 8, "same pattern") {
			// for something else
			q := strings.TrimLeft(rapid.SampledFrom(r).Draw(t, "pattern"), "@=")
			if re, err := Pattern(q); err != nil || re.MatchString("") {
				q = "zzz"
			} else if q[0] == '-' {
				q = "[-]" + q[1:]
			}
			r = append(r, []string{"", "", "@", "="}[k]+q)
			continue
		}
		if many && !Chance(t, 4, "telling") {
			r = append(r, []string{"", "", "@", "="}[k]+fmt.Sprintf("zz%dq", i))
			continue
		}
		switch {
		case k == 2:
			r = append(r, "@"+patternFor(t, payees, false))
		case k == 3 && len(notes) > 0:
			r = append(r, "="+patternFor(t, notes, false))
		default:
			r = append(r, PatternFor(t, accs))
		}
	}
	return r
}

// DrawSel draws a selection. Dates are taken around those of the journal.
func DrawSel(t *rapid.T, es []Entry, maxFilters int) Sel {
	var s Sel
	if maxFilters > 0 {
		s.Filters = Filters(t, es, 0, maxFilters)
	}
	var ds []string
	for _, x := range Txns(es) {
		ds = append(ds, x.Date)
	}
	if len(ds) > 0 {
		near := func(label string) string {
			return AddDays(rapid.SampledFrom(ds).Draw(t, label), OneOf(t, label+"off", 0, 1, -1, 10, -10))
		}
		if Chance(t, 3, "begin") {
			s.Begin = near("begin")
		}
		if Chance(t, 3, "end") {
			s.End = near("end")
		}
	}
	return s
}

// CheckFits reports whether all sums a report could make fit comfortably
func CheckFits(es []Entry) bool {
	var sum uint64
	for _, x := range Txns(es) {
		for _, p := range x.Postings {
			q := p.Q
			if q < 0 {
				q = -q
			}
			if q < 0 {
				return false
			}
			sum += uint64(q)
			if sum > 1<<62 {
				return false
			}
		}
	}
	return true
}

// SortedKeys returns the keys of a map in order
func SortedKeys[V any](m map[string]V) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// Describe counts what the journal has, for the class counts in the evidence
func Describe(es []Entry) (labels []string) {
	ts := Txns(es)
	switch n := len(ts); {
	case n == 0:
		labels = append(labels, "txns:0")
	case n == 1:
		labels = append(labels, "txns:1")
	case n <= 12:
		labels = append(labels, "txns:2-12")
	case n <= 40:
		labels = append(labels, "txns:13-40")
	default:
		labels = append(labels, "txns:41+")
	}
	seen := map[string]bool{}
	add := func(s string) {
		if !seen[s] {
			seen[s] = true
			labels = append(labels, s)
		}
	}
	dates := map[string]bool{}
	if as := map[string]bool{}; true {
		for _, x := range ts {
			for _, p := range x.Postings {
				as[p.Account] = true
				if strings.Count(p.Account, ":") > 8 {
					add("account of over nine levels")
				}
			}
		}
		if len(as) > 50 {
			add("over 50 accounts")
		}
	}
	for _, x := range ts {
		if dates[x.Date] {
			add("same-day transactions")
		}
		dates[x.Date] = true
		if x.Note != "" {
			add("header note")
		}
		if len(x.Notes) > 0 {
			add("transaction notes")
		}
		if len(x.Postings) < 2 {
			add("fewer than two postings")
		}
		accs := map[string]bool{}
		for _, p := range x.Postings {
			if p.Elided {
				add("elided amount")
			}
			if len(p.Comments) > 0 {
				add("posting comments")
			}
			if accs[p.Account] {
				add("account twice in a transaction")
			}
			accs[p.Account] = true
			if p.C != "" {
				add("commodity")
			}
		}
	}
	if len(Allocs(es)) > 0 {
		add("allocations")
	}
	return
}

// FmtList renders a list of strings for a message
func FmtList(ss []string) string { return fmt.Sprintf("%q", ss) }

// Min returns the smaller
func Min(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}

// Perm draws a permutation of the first n numbers; it shrinks to the identity
func Perm(t *rapid.T, n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := 0; i < n-1; i++ {
		j := i + Int(t, 0, n-1-i, "swap")
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// PostingsOf returns the postings of an entry, which share its memory
func PostingsOf(e Entry) []Posting {
	if e.T != nil {
		return e.T.Postings
	}
	return e.A.Postings
}

// EndsInLetter tells whether a point after the commodity could be part of it
func EndsInLetter(c string) bool {
	r, _ := utf8.DecodeLastRuneInString(c)
	return unicode.IsLetter(r)
}

// Misreadings are names that a program could take a file's name for which
// does too much to it: patterns, escapes, quotes, spaces, case, extensions
func Misreadings(name string) []string {
	var r []string
	add := func(s string) {
		if s != "" && s != name && !strings.ContainsRune(s, 0) && len(s) < 200 {
			r = append(r, s)
		}
	}
	dir, base := "", name
	if i := strings.LastIndexByte(name, '/'); i >= 0 {
		dir, base = name[:i+1], name[i+1:]
	}
	put := func(s string) {
		if s != "" && s != "." && s != ".." {
			add(dir + s)
		}
	}
	g := regexp.MustCompile(`\[(.)[^\]]*\]`).ReplaceAllString(base, "$1")
	put(strings.NewReplacer("*", "Q", "?", "q").Replace(g))
	put(regexp.MustCompile(`\{([^,}]*)[^}]*\}`).ReplaceAllString(base, "$1"))
	if u, err := url.PathUnescape(base); err == nil {
		put(strings.NewReplacer("/", "", "\x00", "").Replace(u))
	}
	put(strings.TrimSpace(base))
	put(strings.Trim(base, `"'`))
	put(strings.Replace(base, `\`, "", -1))
	put(strings.ToLower(base))
	put(strings.ToUpper(base))
	if i := strings.LastIndexByte(base, '.'); i > 0 {
		put(base[:i])
	}
	put(base + ".journal")
	put(base + "~")
	for _, e := range dictExts {
		put(base + e)
		if i := strings.LastIndexByte(base, '.'); i > 0 {
			put(base[:i] + e)
		}
	}
	add(strings.Replace(name, " ", "", -1))
	add(base)
	return r
}
