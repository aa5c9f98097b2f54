package fw

import (
	"fmt"
	"math"
	"regexp"
	"strconv"
	"strings"
)

var printHeader = regexp.MustCompile(`^(\d{4}-\d\d-\d\d) ([ *!])(?: (.*))?$`)

// ParsePrint reads the output of print. Amounts are left as C and Q.
func ParsePrint(out string) ([]*Txn, error) {
	var ts []*Txn
	var cur *Txn
	for n, line := range strings.Split(out, "\n") {
		fail := func(why string) ([]*Txn, error) {
			return nil, fmt.Errorf("line %d of the printed output %q: %s", n+1, line, why)
		}
		if line == "" {
			cur = nil
			continue
		}
		if line[0] != ' ' && line[0] != '\t' {
			m := printHeader.FindStringSubmatch(line)
			if m == nil {
				return fail("not a transaction header")
			}
			cur = &Txn{Date: m[1], State: strings.TrimSpace(m[2])}
			rest := m[3]
			if i := strings.IndexByte(rest, ';'); i >= 0 {
				cur.Note = strings.TrimPrefix(rest[i+1:], " ")
				rest = rest[:i]
			}
			cur.Payee = strings.TrimRight(rest, " ")
			ts = append(ts, cur)
			continue
		}
		if cur == nil {
			return fail("indented line outside a transaction")
		}
		body := strings.TrimLeft(line, " \t")
		if strings.HasPrefix(body, ";") {
			text := strings.TrimPrefix(body[1:], " ")
			if k := len(cur.Postings); k > 0 {
				cur.Postings[k-1].Comments = append(cur.Postings[k-1].Comments, text)
			} else {
				cur.Notes = append(cur.Notes, text)
			}
			continue
		}
		i := strings.Index(body, "  ")
		if i < 0 {
			return fail("posting without an amount")
		}
		p := Posting{Account: body[:i]}
		c, q, err := ParseAmount(strings.TrimLeft(body[i:], " "))
		if err != nil {
			return fail(err.Error())
		}
		p.C, p.Q = c, q
		cur.Postings = append(cur.Postings, p)
	}
	return ts, nil
}

var amountRE = regexp.MustCompile(`^([^0-9+-]*)(-?)([0-9]+)\.([0-9][0-9])$`)

// ParseAmount reads a reported amount
func ParseAmount(s string) (string, int64, error) {
	m := amountRE.FindStringSubmatch(s)
	if m == nil {
		return "", 0, fmt.Errorf("%q is not an amount with two decimals", s)
	}
	q, err := strconv.ParseInt(m[2]+m[3]+m[4], 10, 64)
	if err != nil {
		return "", 0, fmt.Errorf("%q: %v", s, err)
	}
	return m[1], q, nil
}

// DiffTxn compares a printed transaction with the expected one
func DiffTxn(got, want *Txn) error {
	bad := func(what string, g, w any) error {
		return fmt.Errorf("%s is %#v, want %#v (transaction %s %q)", what, g, w, want.Date, want.Payee)
	}
	if got.Date != want.Date {
		return bad("date", got.Date, want.Date)
	}
	if got.State != want.State {
		return bad("state", got.State, want.State)
	}
	if got.Payee != want.Payee {
		return bad("payee", got.Payee, want.Payee)
	}
	if got.Note != want.Note {
		return bad("header note", got.Note, want.Note)
	}
	if !eqS(got.Notes, want.Notes) {
		return bad("notes", got.Notes, want.Notes)
	}
	if len(got.Postings) != len(want.Postings) {
		return bad("number of postings", len(got.Postings), len(want.Postings))
	}
	for i := range got.Postings {
		g, w := got.Postings[i], want.Postings[i]
		at := fmt.Sprintf("posting %d: ", i+1)
		if g.Account != w.Account {
			return bad(at+"account", g.Account, w.Account)
		}
		if g.Q != w.Q {
			return bad(at+"amount", FormatQ(g.Q), FormatQ(w.Q))
		}
		if g.C != w.C {
			return bad(at+"commodity", g.C, w.C)
		}
		if !eqS(g.Comments, w.Comments) {
			return bad(at+"comments", g.Comments, w.Comments)
		}
	}
	return nil
}

// DiffPrinted compares printed output with the expected transactions
func DiffPrinted(out string, want []*Txn) error {
	got, err := ParsePrint(out)
	if err != nil {
		return err
	}
	for i := range got {
		if i >= len(want) {
			return fmt.Errorf("an unexpected transaction was printed: %s %q (%d expected)", got[i].Date, got[i].Payee, len(want))
		}
		if err := DiffTxn(got[i], want[i]); err != nil {
			return fmt.Errorf("printed transaction %d: %w", i+1, err)
		}
	}
	if len(got) < len(want) {
		w := want[len(got)]
		return fmt.Errorf("transaction %d (%s %q) was not printed", len(got)+1, w.Date, w.Payee)
	}
	return nil
}

func eqS(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

var totalRE = regexp.MustCompile(`^ *(.*[^0-9-])?(-?[0-9]+\.[0-9][0-9])$`)
var dashesRE = regexp.MustCompile(`^-{5,}$`)

// ParseBalance reads a balance report in a single known commodity
func ParseBalance(out, commodity string) ([]BalLine, int64, error) {
	lines := strings.Split(strings.TrimSuffix(out, "\n"), "\n")
	if len(lines) < 2 || !dashesRE.MatchString(lines[len(lines)-2]) {
		return nil, 0, fmt.Errorf("no balance report with a total: %q", out)
	}
	m := totalRE.FindStringSubmatch(lines[len(lines)-1])
	if m == nil {
		return nil, 0, fmt.Errorf("no total in %q", lines[len(lines)-1])
	}
	total, err := strconv.ParseInt(strings.Replace(m[2], ".", "", 1), 10, 64)
	if err != nil {
		return nil, 0, err
	}
	re := regexp.MustCompile(`^ *` + regexp.QuoteMeta(commodity) + `(-?[0-9]+\.[0-9][0-9])  ( *)(.*)$`)
	var out2 []BalLine
	lines = lines[:len(lines)-2]
	for _, l := range lines {
		m := re.FindStringSubmatch(l)
		if m == nil {
			// nothing to show gives an empty line or one without a name
			if len(lines) == 1 && (strings.TrimSpace(l) == "" || strings.TrimSpace(l) == "0.00") {
				break
			}
			return nil, 0, fmt.Errorf("not a balance line in commodity %q: %q", commodity, l)
		}
		if m[3] == "" && len(lines) == 1 {
			break
		}
		q, err := strconv.ParseInt(strings.Replace(m[1], ".", "", 1), 10, 64)
		if err != nil {
			return nil, 0, err
		}
		name := m[3]
		if len(m[2])%2 != 0 {
			// the name itself starts with a space
			name = " " + name
		}
		out2 = append(out2, BalLine{len(m[2]) / 2, name, q})
	}
	return out2, total, nil
}

// Aligned tells whether the amounts of a balance report end in its twentieth
// column and names start two further on
func Aligned(out, commodity string) error {
	lines := strings.Split(strings.TrimSuffix(out, "\n"), "\n")
	re := regexp.MustCompile(`^( *(?:` + regexp.QuoteMeta(commodity) + `)?-?[0-9]+\.[0-9][0-9])(  .*)?$`)
	if d := lines[len(lines)-2]; d != strings.Repeat("-", 20) {
		return fmt.Errorf("the line above the total is not as wide as the column of amounts: %q", d)
	}
	for _, l := range lines {
		if m := re.FindStringSubmatch(l); m != nil && m[1] != fmt.Sprintf("%20s", strings.TrimLeft(m[1], " ")) {
			return fmt.Errorf("the amount does not end in column 20: %q", l)
		}
	}
	return nil
}

// DiffLines compares balance lines
func DiffLines(got, want []BalLine) error {
	for i := range got {
		if i >= len(want) {
			return fmt.Errorf("unexpected line %d: %v", i+1, got[i])
		}
		if got[i] != want[i] {
			return fmt.Errorf("line %d is %v, want %v", i+1, got[i], want[i])
		}
	}
	if len(got) < len(want) {
		return fmt.Errorf("line %d is missing: %v", len(got)+1, want[len(got)])
	}
	return nil
}

// Paths turns the lines of the default layout into account paths with amounts
func Paths(ls []BalLine) (map[string]int64, error) {
	out := map[string]int64{}
	var stack []string
	for _, l := range ls {
		if l.Indent > len(stack) {
			return nil, fmt.Errorf("%v is indented too far", l)
		}
		stack = append(stack[:l.Indent], l.Name)
		p := strings.Join(stack, ":")
		if _, dup := out[p]; dup {
			return nil, fmt.Errorf("%q is shown twice", p)
		}
		out[p] = l.Q
	}
	return out, nil
}

var monthRE = regexp.MustCompile(`^(\d{4}-\d\d)-01\b`)

// ParseBudget reads a budget report
func ParseBudget(out string) ([]BudgetMonth, error) {
	var ms []BudgetMonth
	lines := strings.Split(out, "\n")
	for i := 0; i < len(lines); {
		if lines[i] == "" {
			i++
			continue
		}
		m := monthRE.FindStringSubmatch(lines[i])
		if m == nil {
			return nil, fmt.Errorf("line %d of the budget report is not the start of a month: %q", i+1, lines[i])
		}
		bm := BudgetMonth{Month: m[1], Commodities: map[string][]string{}}
		i++
		sawFunds := false
		for i < len(lines) && !strings.HasPrefix(lines[i], "Category") {
			if f := strings.Split(lines[i], "|"); len(f) == 2 && strings.TrimSpace(f[0]) == "Funds" {
				com, q, err := ParseAmount(strings.TrimLeft(f[1], " "))
				if err != nil {
					return nil, fmt.Errorf("funds of %s: %v", bm.Month, err)
				}
				bm.Funds = q
				if q != 0 {
					bm.Commodities[com] = append(bm.Commodities[com], "Funds")
				}
				sawFunds = true
			} else if monthRE.MatchString(lines[i]) {
				return nil, fmt.Errorf("%s has no categories table", bm.Month)
			}
			i++
		}
		if !sawFunds || i >= len(lines) {
			return nil, fmt.Errorf("%s has no funds or no categories table", bm.Month)
		}
		cols := map[string]int{}
		head := strings.Split(strings.TrimRight(strings.TrimRight(lines[i], " "), "|"), "|")
		for k, h := range head {
			cols[strings.TrimSpace(h)] = len(head) - 1 - k // from the right
		}
		for _, h := range []string{"Budgeted", "Activity", "Available"} {
			if _, ok := cols[h]; !ok {
				return nil, fmt.Errorf("no column %s in %q", h, lines[i])
			}
		}
		i++
		if i < len(lines) && strings.HasPrefix(lines[i], "-----") {
			i++
		}
		for i < len(lines) && lines[i] != "" {
			f := strings.Split(strings.TrimSuffix(strings.TrimRight(lines[i], " "), "|"), "|")
			if len(f) < len(head) {
				return nil, fmt.Errorf("not a category row: %q", lines[i])
			}
			row := BudgetRow{Name: strings.TrimRight(strings.Join(f[:len(f)-3], "|"), " ")}
			get := func(col string) (int64, error) {
				com, q, err := ParseAmount(strings.TrimSpace(f[len(f)-1-cols[col]]))
				if col == "Available" && q != 0 {
					bm.Commodities[com] = append(bm.Commodities[com], col+" of "+row.Name)
				}
				return q, err
			}
			var err error
			if row.Budgeted, err = get("Budgeted"); err != nil {
				return nil, fmt.Errorf("row %q: %v", lines[i], err)
			}
			if row.Activity, err = get("Activity"); err != nil {
				return nil, fmt.Errorf("row %q: %v", lines[i], err)
			}
			if row.Available, err = get("Available"); err != nil {
				return nil, fmt.Errorf("row %q: %v", lines[i], err)
			}
			bm.Rows = append(bm.Rows, row)
			i++
		}
		ms = append(ms, bm)
	}
	return ms, nil
}

// DiffBudget compares budget reports
func DiffBudget(got, want []BudgetMonth) error {
	for i := range got {
		if i >= len(want) {
			return fmt.Errorf("unexpected month %s", got[i].Month)
		}
		g, w := got[i], want[i]
		if g.Month != w.Month {
			return fmt.Errorf("month %d is %s, want %s", i+1, g.Month, w.Month)
		}
		if g.Funds != w.Funds {
			return fmt.Errorf("%s: funds are %s, want %s", w.Month, FormatQ(g.Funds), FormatQ(w.Funds))
		}
		for j := range g.Rows {
			if j >= len(w.Rows) {
				return fmt.Errorf("%s: unexpected row %v", w.Month, g.Rows[j])
			}
			if g.Rows[j] != w.Rows[j] {
				return fmt.Errorf("%s: row %d is %v, want %v (budgeted, activity, available in hundredths)", w.Month, j+1, g.Rows[j], w.Rows[j])
			}
		}
		if len(g.Rows) < len(w.Rows) {
			return fmt.Errorf("%s: no row %v", w.Month, w.Rows[len(g.Rows)])
		}
	}
	if len(got) < len(want) {
		return fmt.Errorf("no section for %s", want[len(got)].Month)
	}
	return nil
}

// Stats is a statistics report
type Stats struct {
	Empty      bool
	NFiles     int
	Files      []string
	First      string
	Last       string
	FirstAgo   string // what is beside them
	LastAgo    string
	Days       int
	N          int
	PerDay     string
	Accounts   int
	Payees     int
	AgeOfMoney int
}

// ParseStats reads a statistics report
func ParseStats(out string) (Stats, error) {
	var s Stats
	if strings.TrimSpace(out) == "No transactions matched arguments." {
		s.Empty = true
		return s, nil
	}
	seen := map[string]bool{}
	inFiles := false
	for _, l := range strings.Split(strings.TrimSuffix(out, "\n"), "\n") {
		if inFiles && strings.HasPrefix(l, "  ") {
			s.Files = append(s.Files, l[2:])
			continue
		}
		inFiles = false
		var err error
		num := func(v string) int {
			var n int
			if n, err = strconv.Atoi(v); err != nil {
				err = fmt.Errorf("line %q: %v", l, err)
			}
			return n
		}
		f := strings.Fields(l)
		label := ""
		value := func(prefix string) []string {
			return strings.Fields(strings.TrimPrefix(l, prefix))
		}
		for _, p := range []string{"Transactions found in", "First transaction:", "Last transaction:", "Time period:", "Transactions:", "Unique accounts:", "Unique payees:", "Age of money:"} {
			if strings.HasPrefix(l, p) {
				label = p
				f = value(p)
				break
			}
		}
		if label == "" || len(f) == 0 {
			return s, fmt.Errorf("unexpected line %q in the statistics", l)
		}
		if seen[label] {
			return s, fmt.Errorf("two lines %q in the statistics", label)
		}
		seen[label] = true
		switch label {
		case "Transactions found in":
			s.NFiles = num(f[0])
			inFiles = true
		case "First transaction:":
			s.First, s.FirstAgo = f[0], strings.Join(f[1:], " ")
		case "Last transaction:":
			s.Last, s.LastAgo = f[0], strings.Join(f[1:], " ")
		case "Time period:":
			s.Days = num(f[0])
		case "Transactions:":
			s.N = num(f[0])
			if len(f) < 2 || !strings.HasPrefix(f[1], "(") {
				return s, fmt.Errorf("no rate in %q", l)
			}
			s.PerDay = f[1][1:]
		case "Unique accounts:":
			s.Accounts = num(f[0])
		case "Unique payees:":
			s.Payees = num(f[0])
		case "Age of money:":
			s.AgeOfMoney = num(f[0])
		}
		if err != nil {
			return s, err
		}
	}
	if len(seen) != 8 {
		return s, fmt.Errorf("the statistics have %d of 8 parts: %q", len(seen), out)
	}
	return s, nil
}

var agoRE = regexp.MustCompile(`^\((?:(now|a long while|\d+) ?(second|minute|hour|day|week|month|year)?s? ?(ago|from now)?)\)$`)

// Ago checks how long ago (or from now) a date is said to be, given what the
// day is. Units that are not over are not counted, months have thirty days,
// years twelve such months, but one year lasts for half a year more.
func Ago(date, said, today string) error {
	const slack = 1.5 // for the time of the day and its zone
	d := float64(DayNumber(today) - DayNumber(date))
	m := agoRE.FindStringSubmatch(said)
	if m == nil {
		return fmt.Errorf("%s is said to be %q", date, said)
	}
	if d > slack && m[3] == "from now" || d < -slack && m[3] == "ago" {
		return fmt.Errorf("%s is said to be %q but today is %s", date, said, today)
	}
	d = math.Abs(d)
	lo, hi := 0.0, 1.0
	n, _ := strconv.ParseFloat(m[1], 64)
	switch unit := m[2]; {
	case m[1] == "a long while":
		lo, hi = 37*360, math.Inf(1)
	case unit == "day":
		lo, hi = n, n+1
	case unit == "week":
		lo, hi = 7*n, 7*n+7
	case unit == "month":
		lo, hi = 30*n, 30*n+30
	case unit == "year":
		lo, hi = 360*n, 360*n+360
		if n == 1 {
			hi = 540
		} else if n == 2 {
			lo = 540
		}
	}
	if d < lo-slack || d > hi+slack {
		return fmt.Errorf("%s is said to be %q but today is %s", date, said, today)
	}
	return nil
}

var relTime = regexp.MustCompile(`(?m)^((?:First|Last) transaction:\s*\S+).*$`)

// NoRelTime removes the relative times ("2 years ago") from a statistics report
func NoRelTime(out string) string { return relTime.ReplaceAllString(out, "$1") }
