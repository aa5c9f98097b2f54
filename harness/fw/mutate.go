package fw

import (
	"strings"

	"pgregory.net/rapid"
)

// Tokens are pieces of journals
var Tokens = []string{"\n", "\n", "\n", "    ", "  ", "\t", " ", "2020-01-01", "2020/01/02", "2020.01.03", "2020-1-1", "2020", "20200101", "1", "~", "~ 2020-01", "~ monthly", "~ every 2 weeks", "~ 2020-01-01",
	"include ", "include f0.journal", "include f1.journal", "include f2.journal", "include j.journal", "include .", "include", "i", "include ../j.journal", "*", "!", "; ", ";", "#", "Payee", "Assets:Cash", "Expenses:Food", "Expenses", "Income", "Income:Job", ":", "::", "A:", ":A", "A::B",
	"£", "$5", "-5", "+5.50", ".5", "5.", "£-", "1e9", "99999999999999999999", "92233720368547758.07", "-92233720368547758.07", "0", "0.00", "-0", "..", "--", "@", "=", "|", "(", ")", "日本", "é", "\xff", "\xc3", "\xe2\x82", "\x00", "\r", "\r\n", "\u00a0", "\u2028", "\ufeff", "٣", "½", "²", "P 2020-01-01", "account Foo", "_root_", "_budget_root_", "_budget_root_  5", "A:_root_:B", "\"", "'", "[", "{", "<", "\\", "%", "&", "    A    \"", "    A    (5 + 1)", "    A    5 {2} @ 3", "    A    5\n", "    A\n", "\tA\t-5\n", "    ; c\n", "2020-01-01 p\n"}

// Mutate changes a text at one place
func Mutate(t *rapid.T, s string) string {
	lines := strings.SplitAfter(s, "\n")
	li := func(l string) int { return Int(t, 0, len(lines)-1, l) }
	at := func(l string) int { return Int(t, 0, len(s), l) }
	switch Int(t, 0, 17, "mutation") {
	case 0: // drop a line
		i := li("line")
		lines = append(lines[:i:i], lines[i+1:]...)
	case 1: // repeat a line
		i := li("line")
		lines = append(lines[:i:i], append([]string{lines[i]}, lines[i:]...)...)
	case 2: // swap lines
		i, j := li("line"), li("line")
		lines[i], lines[j] = lines[j], lines[i]
	case 3: // cut a line
		i := li("line")
		n := Int(t, 0, len(lines[i]), "cut")
		lines[i] = lines[i][:n] + "\n"
	case 4: // join
		i := li("line")
		lines[i] = strings.TrimRight(lines[i], "\r\n")
	case 5: // indent
		i := li("line")
		lines[i] = OneOf(t, "indent", " ", "  ", "\t") + lines[i]
	case 6: // unindent
		i := li("line")
		lines[i] = strings.TrimLeft(lines[i], " \t")
	case 7: // replace or insert a line
		i := li("line")
		lines[i] = strings.Join(rapid.SliceOfN(rapid.SampledFrom(Tokens), 0, 5).Draw(t, "tokens"), "") + "\n"
	case 8:
		i := li("line")
		x := strings.Join(rapid.SliceOfN(rapid.SampledFrom(Tokens), 0, 5).Draw(t, "tokens"), "") + "\n"
		lines = append(lines[:i:i], append([]string{x}, lines[i:]...)...)
	case 9: // end the file early
		return s[:at("end")]
	case 10: // insert a token
		i := at("at")
		return s[:i] + rapid.SampledFrom(Tokens).Draw(t, "token") + s[i:]
	case 11: // change a byte
		if len(s) > 0 {
			i := Int(t, 0, len(s)-1, "at")
			return s[:i] + string([]byte{rapid.Byte().Draw(t, "byte")}) + s[i+1:]
		}
	case 12: // remove a piece
		i := at("at")
		j := i + Int(t, 1, 5, "len")
		if j > len(s) {
			j = len(s)
		}
		return s[:i] + s[j:]
	case 14, 15, 16, 17: // put a character before or after a word
		if b := boundaries(s); len(b) > 0 {
			i := b[Int(t, 0, len(b)-1, "boundary")]
			x := string(rune(Int(t, 0x21, 0x7e, "character")))
			if Chance(t, 6, "other") {
				x = OneOf(t, "inserted", "\u00a0", "é", "٣", "½", "€", "\x01", "\xe2", "\u200b", "\u0301")
			}
			if Chance(t, 4, "replace") && i < len(s) {
				return s[:i] + x + s[i+1:]
			}
			return s[:i] + x + s[i:]
		}
	case 13: // squeeze or tab the spaces
		i := li("line")
		lines[i] = strings.Replace(lines[i], "  ", OneOf(t, "space", " ", "\t", ""), 1)
	}
	return strings.Join(lines, "")
}

// MutateStructure changes one or two places with a sign that has a meaning,
// which text drawn at random seldom meets
func MutateStructure(t *rapid.T, s string) string {
	for n := Int(t, 1, 2, "signs"); n > 0; n-- {
		sign := OneOf(t, "sign", ":", ":", ":", "  ", ";", "~", "-", ".", "\n", "£", "*", "include")
		var at []int
		for i := 0; i+len(sign) <= len(s); i++ {
			if s[i:i+len(sign)] == sign {
				at = append(at, i)
			}
		}
		if len(at) == 0 {
			continue
		}
		i := at[Int(t, 0, len(at)-1, "which")]
		to := OneOf(t, "to", sign+sign, sign+sign, "", sign+" ", " "+sign, sign+sign+sign, sign+"\n", " "+sign+" ", sign+"\t")
		s = s[:i] + to + s[i+len(sign):]
	}
	return s
}

// MutatedJournal draws a well-formed journal changed at one to three places
func MutatedJournal(t *rapid.T) []byte {
	o := Opt{Min: 1, Max: 4, Rich: true, Odd: true, Commodity: true, Allocs: true, Narrow: true}
	v := NewVocab(t, o)
	text := Render(Entries(t, v, o), DrawLayout(t), true)
	for i := Int(t, 1, 3, "mutations"); i > 0; i-- {
		text = Mutate(t, text)
	}
	return []byte(text)
}

// boundaries are where words begin and end
func boundaries(s string) (r []int) {
	space := func(i int) bool { return i < 0 || i >= len(s) || strings.IndexByte(" \t\n", s[i]) >= 0 }
	for i := 0; i <= len(s); i++ {
		if space(i-1) != space(i) {
			r = append(r, i)
		}
	}
	return r
}
