package fw

import (
	"fmt"
	"go/scanner"
	"go/token"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"pgregory.net/rapid"
)

// The dictionary: the texts and numbers that occur in the source of the
// program under test, which generators use now and then, as those of
// coverage-guided fuzzers do. What is generated stays within the domain of each
// check, so that it makes no difference to what a check demands.
var (
	dictTexts   []string // any
	dictPaths   []string // of accounts
	dictParts   []string // of accounts
	dictVars    []string // could name environment variables
	dictFiles   []string // could name files
	dictExts    []string // could end names of files
	dictSigns   []string // could be commodities
	dictNumbers []int64
	dictDates   []string
)

// inDict says if a name is from the dictionary, so that a line of an error
// could be the same
func inDict(n string) bool {
	for _, l := range [][]string{dictTexts, dictPaths, dictParts} {
		for _, s := range l {
			if strings.EqualFold(s, n) {
				return true
			}
		}
	}
	return false
}

func init() {
	root := os.Getenv("VERIF_SOURCE")
	if root == "" {
		return
	}
	texts := map[string]bool{}
	numbers := map[int64]bool{}
	filepath.Walk(root, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if info.IsDir() {
			if n := info.Name(); p != root && (n == "vendor" || n == "testdata" || strings.HasPrefix(n, ".")) {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") || strings.HasSuffix(p, "_string.go") {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return nil
		}
		var s scanner.Scanner
		fset := token.NewFileSet()
		s.Init(fset.AddFile(p, -1, len(b)), b, func(token.Position, string) {}, 0)
		for {
			_, tok, lit := s.Scan()
			switch tok {
			case token.EOF:
				return nil
			case token.STRING:
				if v, err := strconv.Unquote(lit); err == nil && len(v) < 200 {
					texts[v] = true
				}
			case token.CHAR:
				if v, _, _, err := strconv.UnquoteChar(strings.Trim(lit, "'"), '\''); err == nil {
					texts[string(v)] = true
				}
			case token.INT:
				if v, err := strconv.ParseInt(lit, 0, 64); err == nil && v > 1 {
					numbers[v] = true
				}
			}
		}
	})
	isVar := regexp.MustCompile(`^[A-Za-z_][A-Za-z0-9_]{1,40}$`)
	for _, s := range SortedKeys(texts) {
		if strings.HasPrefix(strings.ToLower(s), "error") {
			continue // these are how gledger says that it failed
		}
		if isVar.MatchString(s) && strings.ToUpper(s) == s && s != "LEDGER_FILE" {
			dictVars = append(dictVars, s)
		}
		if n := strings.TrimLeft(s, "/~"); len(n) > 1 && len(n) < 60 && !strings.ContainsAny(n, " \n\t\x00%\\:*") && !strings.Contains(n, "..") && !strings.HasSuffix(n, "/") && !strings.Contains(n, "github.com") && strings.ContainsAny(n, "._/ABCDEFGHIJKLMNOPQRSTUVWXYZ") {
			dictFiles = append(dictFiles, n)
			if n[0] == '.' || n[0] == '~' || n[0] == '-' || n[0] == '_' {
				dictExts = append(dictExts, n)
			}
		}
		if t := sanitize(s, ""); t != "" && !strings.ContainsRune(t, 0) {
			dictTexts = append(dictTexts, t)
		}
		var parts []string
		for i, p := range strings.Split(s, ":") {
			p = sanitize(p, "\t;#")
			r, _ := utf8.DecodeRuneInString(p)
			if p == "" || i == 0 && !unicode.IsLetter(r) || p == "_root_" || p == "_budget_root_" || p != strings.TrimSpace(p) {
				parts = nil
				break
			}
			parts = append(parts, p)
		}
		if len(parts) == 1 {
			dictParts = append(dictParts, parts[0])
		} else if len(parts) > 1 {
			dictPaths = append(dictPaths, strings.Join(parts, ":"))
		}
		if sign := strings.TrimSpace(s); sign != "" && utf8.RuneCountInString(sign) < 6 && !strings.ContainsAny(sign, " \t\n\r;#+-.\x00") && strings.IndexFunc(sign, unicode.IsNumber) < 0 && strings.IndexFunc(sign, unicode.IsControl) < 0 && utf8.ValidString(sign) {
			dictSigns = append(dictSigns, sign)
		}
		if regexp.MustCompile(`^(1[0-9]|20)\d\d-(0[1-9]|1[0-2])-(0[1-9]|[12]\d)$`).MatchString(s) && s[8:] != "29" && s[:4] > "1000" {
			dictDates = append(dictDates, s)
		}
	}
	if os.Getenv("VERIF_SOURCE_SHOW") != "" {
		fmt.Fprintf(os.Stderr, "%q\n%q\n%q\n%q\n%q\n%q\n%v\n%q\n%d\n", dictPaths, dictParts, dictVars, dictFiles, dictExts, dictSigns, numbers, dictDates, len(dictTexts))
	}
	for n := range numbers {
		dictNumbers = append(dictNumbers, n)
	}
	sort.Slice(dictNumbers, func(i, j int) bool { return dictNumbers[i] < dictNumbers[j] })
}

// DictVars and the like give what the dictionary has of a kind
func DictVars() []string  { return dictVars }
func DictFiles() []string { return dictFiles }
func DictExts() []string  { return dictExts }

// fromDict draws one of the texts in about one of n draws
func fromDict(t *rapid.T, n int, from []string, label string) (string, bool) {
	if len(from) == 0 || !Chance(t, n, "from dictionary") {
		return "", false
	}
	return rapid.SampledFrom(from).Draw(t, label), true
}

// dictSize draws a number around one of the dictionary's within the limits
func dictSize(t *rapid.T, n, lo, hi int) (int, bool) {
	var in []int
	for _, v := range dictNumbers {
		for d := int64(-1); d <= 2; d++ {
			if x := v + d; x >= int64(lo) && x <= int64(hi) {
				in = append(in, int(x))
			}
		}
	}
	if len(in) == 0 || !Chance(t, n, "size from dictionary") {
		return 0, false
	}
	return rapid.SampledFrom(in).Draw(t, "size"), true
}

// dictDate draws a date of a year in the dictionary, or one of its dates
func dictDate(t *rapid.T, far bool) (string, bool) {
	lo, hi := 1990, 2030
	if far {
		lo, hi = 1001, 9990
	}
	var in []string
	for _, d := range dictDates {
		if far || d > "1990" && d < "2030" {
			in = append(in, d)
		}
	}
	for _, v := range dictNumbers {
		if v >= int64(lo) && v <= int64(hi) {
			in = append(in, fmt.Sprintf("%04d-01-01", v))
		}
	}
	d, ok := fromDict(t, 25, in, "date")
	if ok {
		d = AddDays(d, OneOf(t, "off", 0, 0, -1, 1, 100, 364, 365))
	}
	return d, ok
}
