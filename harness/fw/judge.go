package fw

import (
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
)

// JPosting is a posting of an arbitrary text
type JPosting struct {
	Account  string
	Named    bool // the account is beyond doubt
	Elided   bool
	Known    bool // the amount is beyond doubt
	C        string
	Q        int64
	Comments int
}

// JEntry is an entry of an arbitrary text
type JEntry struct {
	Alloc        bool
	Date         string // or month
	State, Payee string
	Known        bool // state and payee are beyond doubt
	Notes        int
	Postings     []JPosting
	line         int
}

// Judged is what can be said about an arbitrary text as a journal. It is an
// independent reading of the journal's grammar that keeps to what is beyond
// doubt.
type Judged struct {
	Skip    bool     // nothing
	Sure    bool     // it must be accepted, if nothing is bad
	Lo, Hi  int      // if not 0: it must be rejected, for a fault in these lines
	Exact   bool     // and all before is good
	Why     string   // it is bad
	Entries []JEntry // what accepting it must give
	Lines   int
}

var (
	judgeDate   = regexp.MustCompile(`^([0-9]{4})([/.-])([0-9]{2})([/.-])([0-9]{2})$`)
	judgePeriod = regexp.MustCompile(`^[0-9]{4}-(0[1-9]|1[0-2])$`)
	judgeAmount = regexp.MustCompile(`^([^\s0-9+\-;#.,]*)( ?)([+-]?)([0-9]{1,16})(?:\.([0-9]{1,2}))? *$`)
)

func oddSpace(s string) bool {
	for _, r := range s {
		if r != ' ' && r != '\t' && unicode.IsSpace(r) {
			return true
		}
	}
	return false
}

// Judge reads a text
func Judge(text string) (j Judged) {
	if !utf8.ValidString(text) || strings.ContainsRune(text, utf8.RuneError) {
		j.Skip = true
		return
	}
	j.Sure = true
	lines := strings.Split(text, "\n")
	if lines[len(lines)-1] == "" {
		lines = lines[:len(lines)-1]
	} else if strings.HasSuffix(text, "\r") {
		j.Skip = true
		return
	}
	j.Lines = len(lines)
	var cur *JEntry
	// the fault in the open entry, if it ended now
	fault := func() string {
		if cur == nil {
			return ""
		}
		elided, known := 0, true
		var sum int64
		coms := map[string]bool{}
		for _, p := range cur.Postings {
			if p.Elided {
				elided++
				continue
			}
			known = known && p.Known
			sum += p.Q
			coms[p.C] = true
		}
		switch {
		case elided > 1:
			return "two amounts are omitted"
		case !cur.Alloc && elided == 0 && known && len(coms) < 2 && sum != 0:
			return "the transaction does not balance"
		}
		return ""
	}
	end := func(n int) bool {
		if cur == nil {
			return true
		}
		if why := fault(); why != "" {
			j.Why, j.Lo, j.Hi = why, cur.line, n
			return false
		}
		e := cur
		cur = nil
		known := true
		var sum int64
		c, at := "", -1
		coms := map[string]bool{}
		for i, p := range e.Postings {
			if p.Elided {
				at = i
				continue
			}
			known = known && p.Known
			sum += p.Q
			coms[p.C] = true
			if p.C != "" {
				c = p.C
			}
		}
		if at >= 0 && known {
			e.Postings[at].Known, e.Postings[at].Q, e.Postings[at].C = true, -sum, c
		}
		if !known || len(coms) > 1 || len(e.Postings) == 0 || (e.Alloc && at >= 0) || (!e.Alloc && e.Payee == "") || (at >= 0 && len(e.Postings) == 1) {
			j.Sure = false
		}
		if len(coms) > 1 && at >= 0 {
			// which commodity it has is not said
			e.Postings[at].Known = false
		}
		j.Entries = append(j.Entries, *e)
		return true
	}
	for i, l := range lines {
		n := i + 1
		l = strings.TrimSuffix(l, "\r")
		if strings.ContainsRune(l, '\r') {
			j.Skip = true
			return
		}
		exact := j.Sure
		bad := func(why string) Judged {
			j.Why, j.Lo, j.Hi, j.Exact = fmt.Sprintf("line %d, %q: %s", n, l, why), n, n, exact
			if fault() != "" {
				j.Lo = cur.line
			}
			return j
		}
		if l == "" {
			if !end(n) {
				j.Exact = exact
				return
			}
			continue
		}
		first, _ := utf8.DecodeRuneInString(l)
		switch {
		case first == ';' || first == '#':
		case first == 'i':
			if strings.HasPrefix(l, "include") {
				j.Skip = true
				return
			}
			return bad("an unknown directive")
		case first == '~':
			rest := strings.TrimLeft(l[1:], " \t")
			if oddSpace(rest) {
				j.Skip = true
				return
			}
			token := rest
			if k := strings.IndexAny(rest, " \t;#"); k >= 0 {
				token = rest[:k]
			}
			if len(rest) == len(l)-1 || !judgePeriod.MatchString(token) {
				return bad("not a period")
			}
			if strings.TrimRight(rest, " ") != token || token < "1000" {
				j.Sure = false
			}
			if tail := strings.TrimRight(rest[len(token):], " "); len(tail) > 1 && tail[0] == ' ' && tail[1] != ' ' && !strings.ContainsAny(tail[1:2], "\t;#") {
				// a month and another word
				return bad("not a period")
			}
			if !end(n) {
				j.Exact = exact
				return
			}
			cur = &JEntry{Alloc: true, Date: token, line: n}
		case unicode.IsNumber(first):
			token := l
			if k := strings.IndexByte(l, ' '); k >= 0 {
				token = l[:k]
			}
			m := judgeDate.FindStringSubmatch(token)
			date := ""
			if m != nil && m[2] == m[4] {
				if d, ok := SmartDate(token, 2020); ok {
					date = d
				}
			}
			if strings.ContainsRune(token, '\t') {
				j.Skip = true
				return
			}
			if date == "" {
				return bad("not a date")
			}
			if !end(n) {
				j.Exact = exact
				return
			}
			if date < "1000" {
				j.Skip = true
				return
			}
			cur = &JEntry{Date: date, Known: true, line: n}
			rest := strings.TrimLeft(l[len(token):], " \t")
			if rest != "" && (rest[0] == '*' || rest[0] == '!') {
				cur.State = rest[:1]
				rest = rest[1:]
				if rest != "" && rest[0] != ' ' {
					cur.Known = false
				}
				rest = strings.TrimLeft(rest, " \t")
			}
			payee := rest
			if k := strings.IndexAny(rest, ";#"); k >= 0 {
				payee = rest[:k]
				if payee == strings.TrimRight(payee, " \t") || payee == "" {
					cur.Known = false
				}
			}
			payee = strings.TrimRight(payee, " ")
			if strings.Contains(payee, "  ") || strings.Contains(payee, "\t") || payee != strings.TrimSpace(payee) {
				cur.Known = false
			}
			cur.Payee = payee
			if !cur.Known {
				j.Sure = false
			}
		case first == '\t' || strings.HasPrefix(l, "  "):
			rest := strings.TrimLeft(l, " \t")
			if rest == "" {
				j.Sure = false
				continue
			}
			r, _ := utf8.DecodeRuneInString(rest)
			switch {
			case unicode.IsSpace(r):
				j.Skip = true
				return
			case r == ';' || r == '#':
				if cur == nil {
					continue
				}
				if k := len(cur.Postings); k > 0 {
					cur.Postings[k-1].Comments++
				} else {
					cur.Notes++
				}
			case unicode.IsLetter(r):
				if cur == nil {
					return bad("a posting outside a transaction")
				}
				account, amount := rest, ""
				k := len(rest)
				for _, sep := range []string{"\t", "  "} {
					if x := strings.Index(rest, sep); x >= 0 && x < k {
						k = x
					}
				}
				account, amount = strings.TrimSuffix(rest[:k], " "), strings.TrimLeft(rest[k:], " \t")
				p := JPosting{Account: account, Named: !strings.ContainsAny(account, ";#")}
				for _, c := range strings.Split(account, ":") {
					if strings.TrimSpace(c) != c || c == "" || c == "_root_" || c == "_budget_root_" {
						j.Sure = false
					}
				}
				if oddSpace(amount) {
					j.Skip = true
					return
				}
				m := judgeAmount.FindStringSubmatch(amount)
				switch {
				case amount == "":
					p.Elided = true
				case m != nil && strings.IndexFunc(m[1], unicode.IsNumber) < 0:
					p.Known = true
					p.C = m[1] + m[2]
					p.Q, _ = strconv.ParseInt(m[4]+(m[5] + "00")[:2], 10, 64)
					if m[3] == "-" {
						p.Q = -p.Q
					}
				case strings.IndexAny(amount, ";#") >= 0:
					j.Sure = false
				case strings.IndexFunc(amount, func(r rune) bool { return r >= '0' && r <= '9' }) < 0:
					return bad("no number in the place of the amount")
				default:
					j.Sure = false
				}
				if !p.Named {
					j.Sure = false
				}
				cur.Postings = append(cur.Postings, p)
			default:
				return bad("indented, but neither a posting nor a comment")
			}
		case first == ' ':
			j.Skip = true
			return
		default:
			return bad("an unknown kind of line")
		}
	}
	exact := j.Sure
	if !end(len(lines) + 1) {
		j.Exact = exact
	}
	return
}

// Accepted checks what was made of a text that was accepted
func (j Judged) Accepted(got []Entry) error {
	if j.Why != "" {
		return fmt.Errorf("the journal was accepted although %s", j.Why)
	}
	for i, w := range j.Entries {
		if i >= len(got) {
			return fmt.Errorf("the entry of line %d is missing", w.line)
		}
		bad := func(what string, g, w2 any) error {
			return fmt.Errorf("the entry of line %d: %s %v, want %v", w.line, what, g, w2)
		}
		g := got[i]
		if (g.A != nil) != w.Alloc {
			return bad("allocation", g.A != nil, w.Alloc)
		}
		var ps []Posting
		var notes int
		if w.Alloc {
			if g.A.Month != w.Date {
				return bad("month", g.A.Month, w.Date)
			}
			ps, notes = g.A.Postings, len(g.A.Notes)
		} else {
			ps, notes = g.T.Postings, len(g.T.Notes)
			if g.T.Date != w.Date {
				return bad("date", g.T.Date, w.Date)
			}
			if w.Known && g.T.State != w.State {
				return bad("state", g.T.State, w.State)
			}
			if w.Known && g.T.Payee != w.Payee {
				return bad("payee", g.T.Payee, w.Payee)
			}
		}
		if notes != w.Notes {
			return bad("number of notes", notes, w.Notes)
		}
		if len(ps) != len(w.Postings) {
			return bad("number of postings", len(ps), len(w.Postings))
		}
		for k, p := range w.Postings {
			at := fmt.Sprintf("posting %d: ", k+1)
			if p.Named && ps[k].Account != p.Account {
				return bad(at+"account", ps[k].Account, p.Account)
			}
			if p.Known && (ps[k].Q != p.Q || ps[k].C != p.C) {
				return bad(at+"amount", ps[k].C+FormatQ(ps[k].Q), p.C+FormatQ(p.Q))
			}
			if len(ps[k].Comments) != p.Comments {
				return bad(at+"number of comments", len(ps[k].Comments), p.Comments)
			}
		}
	}
	if len(got) > len(j.Entries) {
		return fmt.Errorf("%d entries, want %d", len(got), len(j.Entries))
	}
	return nil
}

// ByDate keeps the transactions, in the order of print
func (j Judged) ByDate() Judged {
	var es []JEntry
	for _, e := range j.Entries {
		if !e.Alloc {
			es = append(es, e)
		}
	}
	sort.SliceStable(es, func(a, b int) bool { return es[a].Date < es[b].Date })
	j.Entries = es
	return j
}

// Rejected checks the error for a text, in the named file, that was rejected
func (j Judged) Rejected(msg, file string) error {
	if j.Why == "" {
		if j.Sure {
			return fmt.Errorf("a good journal was rejected: %s", Trunc(msg))
		}
		return nil
	}
	re := regexp.MustCompile(`(?m)(?:^|[^\pL\pN])` + regexp.QuoteMeta(file) + `:([0-9]+)`)
	lo := 1
	if j.Exact {
		lo = j.Lo
	}
	for _, m := range re.FindAllStringSubmatch(msg, -1) {
		if n, err := strconv.Atoi(m[1]); err == nil && n >= lo && n <= j.Hi {
			return nil
		}
	}
	return fmt.Errorf("%s; the error does not name %s and a line from %d to %d: %s", j.Why, file, lo, j.Hi, Trunc(msg))
}
