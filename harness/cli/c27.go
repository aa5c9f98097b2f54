package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"unicode/utf8"

	"pgregory.net/rapid"
	"verifharness/fw"
)

// Command lines: those to be refused, those that are alike, those for help

var commandWords = map[string]bool{"version": true, "help": true, "p": true, "completion": true, "__complete": true, "__completeNoDesc": true}

var allNames []string

func init() {
	for _, c := range reports {
		for _, a := range aliases[c] {
			commandWords[a] = true
			allNames = append(allNames, a)
		}
	}
	allNames = append(allNames, "version", "help")
}

var commonFlags = []string{"file", "begin", "end", "current", "help"}
var treeFlags = []string{"flatten", "show-zero", "collapse"}

func hasTree(command string) bool { return command == "balance" || command == "budget" }

func flagsOf(command string) []string {
	if hasTree(command) {
		return append(append([]string{}, commonFlags...), treeFlags...)
	}
	return commonFlags
}

const commonShort, treeShort = "fbech", "FZC"

// otherCommands and otherFlags are those of alike programs
var otherCommands = []string{"register", "reg", "r", "bs", "is", "cf", "balancesheet", "incomestatement", "cashflow", "aregister", "areg", "activity", "add", "check", "close", "codes", "commodities", "descriptions", "desc", "diff", "files", "import", "notes", "prices", "rewrite", "roi", "tags", "test", "accts", "ls", "show", "list", "report", "total", "sum", "cleared", "pending", "xact", "entry", "csv", "xml", "json", "lisp", "emacs", "convert", "select", "source", "echo", "reload", "pricemap", "equity", "period", "account", "payee", "bals", "transactions", "edit", "init", "new", "2020", "Assets", "Expenses", "Income:Salary", "@shop", "=note", ".", "*", "j.journal", "true", "-"}
var otherFlags = []string{"depth", "monthly", "daily", "weekly", "yearly", "quarterly", "period", "sort", "real", "cleared", "uncleared", "pending", "actual", "flat", "tree", "empty", "no-total", "no-elide", "budget", "forecast", "today", "now", "date", "from", "to", "until", "since", "start", "finish", "month", "year", "invert", "average", "related", "limit", "amount", "payee", "account", "market", "cost", "exchange", "price-db", "strict", "pedantic", "permissive", "verbose", "debug", "quiet", "color", "no-color", "output", "output-file", "format", "pager", "version", "input", "journal", "files", "begins", "ends", "zero", "show", "show-zeros", "hide-zero", "show_zero", "showzero", "Flatten", "FILE", "no-flatten", "flattened", "collapsed", "unflatten", "head", "tail", "first", "last", "reverse", "config", "rules-file", "ignore-case", "dry-run", "args-only", "init-file", "no-pager"}

// misspelt changes a word a little
func misspelt(t *rapid.T, w string) string {
	r := []rune(w)
	i := fw.Int(t, 0, len(r)-1, "at")
	switch fw.Int(t, 0, 8, "change") {
	case 0:
		return string(r[:i]) + string(r[i+1:])
	case 1:
		return string(r[:i]) + string(r[i]) + string(r[i:])
	case 2:
		if i+1 < len(r) {
			r[i], r[i+1] = r[i+1], r[i]
		}
		return string(r)
	case 3:
		return string(r[:i]) + fw.OneOf(t, "letter", "a", "e", "s", "x", "-", "_", "é", "1", ".") + string(r[i:])
	case 4:
		return strings.ToUpper(w[:1]) + w[1:]
	case 5:
		return strings.ToUpper(w)
	case 6:
		return string(r[:i])
	case 7:
		return w + fw.OneOf(t, "more", "s", "ed", "x", "!", " ", ":", "y", "1")
	}
	return string(r[:i]) + fw.OneOf(t, "letter", "a", "e", "s", "x", "l", "n") + string(r[i+1:])
}

type lineCase struct {
	JCase
	Command string     `json:"command"`
	Name    string     `json:"name"` // what is written for it
	Pre     [][]string `json:"pre,omitempty"`
	Post    [][]string `json:"post,omitempty"` // flags with their values, and arguments
	Last    []string   `json:"last,omitempty"` // what has to be at the end
	Env     bool       `json:"env"`
	Kind    string     `json:"kind"`
}

func (k *lineCase) words() []string {
	var r []string
	for _, a := range k.Pre {
		r = append(r, a...)
	}
	if k.Name != "" {
		r = append(r, k.Name)
	}
	for _, a := range k.Post {
		r = append(r, a...)
	}
	return append(r, k.Last...)
}

// insert puts words at some place
func (k *lineCase) insert(t *rapid.T, words []string, pre bool) {
	if pre && fw.Chance(t, 4, "before the command") {
		i := fw.Int(t, 0, len(k.Pre), "place")
		k.Pre = append(k.Pre[:i:i], append([][]string{words}, k.Pre[i:]...)...)
		return
	}
	i := fw.Int(t, 0, len(k.Post), "place")
	k.Post = append(k.Post[:i:i], append([][]string{words}, k.Post[i:]...)...)
}

// drawLine draws a command line that gives a report
func drawLine(t *rapid.T) lineCase {
	o := fw.Opt{Min: 1, Max: 5, Commodity: true, Allocs: true, Money: rapid.Bool().Draw(t, "money")}
	v := fw.NewVocab(t, o)
	var k lineCase
	k.Entries = fw.Entries(t, v, o)
	k.Layout = fw.DrawLayout(t)
	k.Command = fw.OneOf(t, "command", reports...)
	k.Name = rapid.SampledFrom(aliases[k.Command]).Draw(t, "alias")
	for _, a := range fw.Filters(t, k.Entries, 0, 2) {
		if commandWords[a] {
			// it would be the command, were the real one taken for the value of an unknown flag
			continue
		}
		k.Post = append(k.Post, []string{a})
	}
	flag := func(long, short, value string, common bool) {
		f := flagUse{Long: long, Short: short, Value: value, Spelling: fw.Int(t, 0, 3, "spelling")}
		k.insert(t, f.words(), common)
	}
	if fw.Chance(t, 3, "begin") {
		flag("begin", "b", fw.OneOf(t, "date", "2019", "2020/02", "2021-01-01", "01/01"), true)
	}
	if fw.Chance(t, 3, "end") {
		flag("end", "e", fw.OneOf(t, "date", "2019", "2022/02", "2021-01-01", "12/31"), true)
	}
	if fw.Chance(t, 4, "current") {
		flag("current", "c", "", true)
	}
	if hasTree(k.Command) {
		if fw.Chance(t, 3, "flatten") {
			flag("flatten", "F", "", false)
		}
		if fw.Chance(t, 3, "zero") {
			flag("show-zero", "Z", "", false)
		}
		if fw.Chance(t, 3, "collapse") {
			flag("collapse", "C", "", false)
		}
	}
	k.Env = rapid.Bool().Draw(t, "env")
	if !k.Env {
		flag("file", "f", jfile, true)
	}
	return k
}

// marker is in each journal and nowhere else
const marker = "Zqmark"

func (k *lineCase) write(c *fw.Ctx) (env []string) {
	c.Write(jfile, fw.Render(k.Entries, k.Layout, true)+"\n\n2020-06-15 "+marker+"\n    Expenses:"+marker+"  1.00\n    Income:"+marker+"\n")
	if k.Env {
		env = []string{"LEDGER_FILE=" + jfile}
	}
	return env
}

func drawRefused(t *rapid.T) lineCase {
	k := drawLine(t)
	k.Kind = fw.OneOf(t, "kind", "command", "command", "argument before the command", "flag", "flag", "flag", "letter", "letter", "cluster", "of another command", "no value", "no value", "switch value", "switch value", "syntax")
	value := func(f string) []string {
		switch fw.Int(t, 0, 2, "value") {
		case 0:
			return []string{f + "=" + fw.OneOf(t, "v", "1", "true", "2020", "A", jfile, "")}
		case 1:
			return []string{f, fw.OneOf(t, "v", "1", "true", "2020", "A", "Assets")}
		}
		return []string{f}
	}
	switch k.Kind {
	case "command":
		for k.Name = ""; k.Name == "" || k.Name[0] == '-' && k.Name != "-" || commandWords[k.Name]; {
			if fw.Chance(t, 2, "of others") {
				k.Name = rapid.SampledFrom(otherCommands).Draw(t, "word")
			} else {
				k.Name = misspelt(t, rapid.SampledFrom(allNames).Draw(t, "name"))
			}
		}
		if k.Name == "-" {
			k.Name = "blance"
		}
	case "argument before the command":
		w := fw.OneOf(t, "word", "Assets", "@shop", "=note", "2020-01-01", "Expenses:Food", "accts", "gledger", "the", "J")
		k.Pre = append([][]string{{w}}, k.Pre...)
	case "flag":
		valid := map[string]bool{}
		for _, f := range flagsOf(k.Command) {
			valid[f] = true
		}
		f := ""
		for f == "" || valid[f] || strings.ContainsAny(f, "=") || f[0] == '-' {
			if fw.Chance(t, 2, "of others") {
				f = rapid.SampledFrom(otherFlags).Draw(t, "word")
			} else {
				f = misspelt(t, rapid.SampledFrom(append(append([]string{}, commonFlags...), treeFlags...)).Draw(t, "name"))
			}
		}
		k.insert(t, value("--"+f), true)
	case "letter", "cluster":
		valid := commonShort
		if hasTree(k.Command) {
			valid += treeShort
		}
		l := "f"
		for strings.Contains(valid, l) {
			l = rapid.StringMatching(`[a-zA-Z0-9]|[!?.:@%+~é]`).Draw(t, "letter")
		}
		if k.Kind == "cluster" {
			n := fw.Int(t, 1, 2, "known")
			for s := "c" + valid[5:]; n > 0; n-- {
				l = string(s[fw.Int(t, 0, len(s)-1, "switch")]) + l
			}
			k.insert(t, []string{"-" + l}, false)
		} else {
			k.insert(t, value("-"+l), true)
		}
	case "of another command":
		if hasTree(k.Command) {
			k.Command = fw.OneOf(t, "command", "print", "accounts", "payees", "statistics")
			k.Name = rapid.SampledFrom(aliases[k.Command]).Draw(t, "alias")
			var post [][]string
			for _, a := range k.Post {
				if !strings.HasPrefix(a[0], "-F") && !strings.HasPrefix(a[0], "-Z") && !strings.HasPrefix(a[0], "-C") && !strings.HasPrefix(a[0], "--flatten") && !strings.HasPrefix(a[0], "--show-zero") && !strings.HasPrefix(a[0], "--collapse") {
					post = append(post, a)
				}
			}
			k.Post = post
		}
		k.insert(t, []string{fw.OneOf(t, "flag", "-F", "-Z", "-C", "--flatten", "--show-zero", "--collapse", "--flatten=true", "--collapse=false", "-Z=1")}, true)
	case "no value":
		k.Last = []string{fw.OneOf(t, "flag", "-f", "-b", "-e", "--file", "--begin", "--end", "-cf", "-cb", "-ce")}
	case "switch value":
		s := []string{"--current", "-c"}
		if hasTree(k.Command) {
			s = append(s, "--flatten", "-F", "--show-zero", "-Z", "--collapse", "-C")
		}
		v := fw.OneOf(t, "v", "maybe", "yes", "no", "on", "off", "2", "-1", "", "TRUe", "tRUE", "y", "n", "none", "null", " true", "true ", "01", "00", "T1", "2020-01-01", "enabled", "Yes", "ok")
		k.insert(t, []string{rapid.SampledFrom(s).Draw(t, "switch") + "=" + v}, true)
	case "syntax":
		k.insert(t, []string{fw.OneOf(t, "word", "---flatten", "---", "--=", "--=x", "---file="+jfile, "---c", "-=", "-=x", "--=true")}, true)
	}
	return k
}

var errorWord = regexp.MustCompile(`(?i)\b(error|unknown|invalid|unexpected|bad|missing|cannot|not)\b`)

func checkRefused(c *fw.Ctx, k *lineCase) error {
	env := k.write(c)
	c.Nontrivial = len(k.Pre)+len(k.Post) > 1
	c.Class("kind:"+k.Kind, "command:"+k.Command)
	w := k.words()
	r := c.GlEnv(env, w...)
	if err := r.Crash(); err != nil {
		return err
	}
	if strings.TrimSpace(r.All()) == "" {
		return fmt.Errorf("%q (%s) printed no error", w, k.Kind)
	}
	if strings.TrimSpace(r.Err) == "" && !errorWord.MatchString(r.Out) {
		return fmt.Errorf("%q (%s) printed no error but\n%s", w, k.Kind, fw.Trunc(r.All()))
	}
	if strings.Contains(r.Out, marker) || reportIn(k, r.Out) {
		return fmt.Errorf("%q (%s) was not refused but printed a report:\n%s", w, k.Kind, fw.Trunc(r.All()))
	}
	return nil
}

func reportIn(k *lineCase, out string) bool {
	for _, l := range strings.Split(out, "\n") {
		if strings.HasPrefix(l, "Transactions found in") || strings.HasPrefix(l, "No transactions matched") || l == "--------------------" {
			return true
		}
	}
	return false
}

// formsCase is a command line and another for the same
type formsCase struct {
	JCase
	Command string     `json:"command"`
	Canon   []string   `json:"canon"`
	Name    string     `json:"name"`
	Pre     [][]string `json:"pre,omitempty"`
	Post    [][]string `json:"post,omitempty"`
	Dashes  bool       `json:"dashes,omitempty"` // "--" before the arguments
	Args    []string   `json:"args,omitempty"`
	Env     bool       `json:"env"`
	Forms   []string   `json:"forms,omitempty"`
}

func drawForms(t *rapid.T) formsCase {
	o := fw.Opt{Min: 2, Max: 8, Commodity: true, Allocs: true, Money: rapid.Bool().Draw(t, "money")}
	v := fw.NewVocab(t, o)
	var k formsCase
	k.Entries = fw.Entries(t, v, o)
	k.Layout = fw.DrawLayout(t)
	k.Command = fw.OneOf(t, "command", "balance", "balance", "budget", "print", "accounts", "payees", "statistics")
	k.Name = rapid.SampledFrom(aliases[k.Command]).Draw(t, "alias")
	k.Env = fw.Chance(t, 3, "env")
	s := fw.DrawSel(t, k.Entries, 0)
	form := func(f string) { k.Forms = append(k.Forms, f) }
	// the flags in the order of the line; those with a cluster stand after the command
	var atoms [][]string
	put := func(after int, words []string) int {
		i := fw.Int(t, after, len(atoms), "place")
		atoms = append(atoms[:i:i], append([][]string{words}, atoms[i:]...)...)
		return i + 1
	}
	value := func(long, short, v string, wrong ...string) {
		set := v != ""
		at := 0
		for n := fw.OneOf(t, "times", 0, 0, 0, 1, 2); n > 0; n-- {
			// overridden
			at = put(at, flagUse{Long: long, Short: short, Value: rapid.SampledFrom(wrong).Draw(t, "overridden"), Spelling: fw.Int(t, 0, 3, "spelling")}.words())
			form("again")
			if !set {
				v = "none"
			}
		}
		if set {
			put(at, flagUse{Long: long, Short: short, Value: v, Spelling: fw.Int(t, 0, 3, "spelling")}.words())
		} else if v != "" || fw.Chance(t, 6, "empty") {
			form("empty")
			put(at, [][]string{{"--" + long, ""}, {"-" + short, ""}, {"--" + long + "="}}[fw.Int(t, 0, 2, "spelling")])
		}
	}
	k.Canon = []string{k.Command, "--file", jfile}
	file := jfile
	if k.Env {
		file = ""
	}
	value("file", "f", file, "missing.journal", "decoy.journal", ".")
	value("begin", "b", s.Begin, "nonsense", "2030-01-01", "2001", "13/13", "2020-02-30")
	if s.Begin != "" {
		k.Canon = append(k.Canon, "--begin", s.Begin)
	}
	value("end", "e", s.End, "nonsense", "2030-01-01", "2001", "13/13", "2020-02-30")
	if s.End != "" {
		k.Canon = append(k.Canon, "--end", s.End)
	}
	cluster := ""
	toggle := func(long, short string, on bool) {
		at := 0
		yes := func() []string {
			return []string{fw.OneOf(t, "on", "--"+long, "-"+short, "--"+long+"=true", "-"+short+"=1", "--"+long+"=T", "--"+long+"=TRUE", "-"+short+"=t", "--"+long+"=True", "--"+long+"=1")}
		}
		no := func() []string {
			return []string{fw.OneOf(t, "off", "--"+long+"=false", "-"+short+"=0", "--"+long+"=F", "--"+long+"=FALSE", "-"+short+"=f", "--"+long+"=False", "--"+long+"=0")}
		}
		if on {
			k.Canon = append(k.Canon, "--"+long)
			for n := fw.OneOf(t, "times", 0, 0, 1, 2); n > 0; n-- {
				form("switched")
				if rapid.Bool().Draw(t, "which") {
					at = put(at, yes())
				} else {
					at = put(at, no())
				}
			}
			if at == 0 && fw.Chance(t, 2, "cluster") {
				cluster += short
			} else {
				put(at, yes())
			}
			return
		}
		if fw.Chance(t, 3, "switched off") {
			form("switched off")
			if rapid.Bool().Draw(t, "on before") {
				at = put(at, yes())
			}
			put(at, no())
		}
	}
	toggle("current", "c", fw.Chance(t, 6, "current"))
	if hasTree(k.Command) {
		toggle("flatten", "F", fw.Chance(t, 2, "flatten"))
		toggle("show-zero", "Z", fw.Chance(t, 2, "zero"))
		toggle("collapse", "C", fw.Chance(t, 2, "collapse"))
	}
	if cluster != "" {
		if len(cluster) > 1 {
			form("cluster")
		}
		// sometimes with a flag that takes a value at its end
		i := fw.Int(t, 0, len(atoms), "place")
		if i < len(atoms) && len(atoms[i][0]) > 2 && atoms[i][0][0] == '-' && atoms[i][0][1] != '-' && strings.Contains("bef", atoms[i][0][1:2]) && fw.Chance(t, 2, "join") {
			form("cluster with value")
			atoms[i] = append([]string{"-" + cluster + atoms[i][0][1:]}, atoms[i][1:]...)
		} else {
			put(i, []string{"-" + cluster})
		}
	}
	// the first ones may stand before the command, if they are common flags in plain spelling
	pre := 0
	for pre < len(atoms) && plainCommon(atoms[pre]) {
		pre++
	}
	pre = fw.Int(t, 0, pre, "before")
	k.Pre, k.Post = atoms[:pre], atoms[pre:]
	if pre > 0 {
		form("before the command")
	}
	k.Dashes = fw.Chance(t, 3, "dashes")
	if k.Dashes {
		form("--")
		k.Canon = append(k.Canon, "--")
	}
	for _, a := range fw.Filters(t, k.Entries, 0, 3) {
		k.Args = append(k.Args, a)
		k.Canon = append(k.Canon, a)
	}
	if k.Dashes && fw.Chance(t, 2, "dash argument") {
		// what looks like a flag is an argument here
		form("-argument")
		a := fw.OneOf(t, "a", "-F", "-x", "--flatten", "--bogus", "-f", "--help", "-h", "-b=2030", "--end=2001", "-", "--", "-1.00", "---")
		i := fw.Int(t, 0, len(k.Args), "place")
		k.Args = append(k.Args[:i:i], append([]string{a}, k.Args[i:]...)...)
		k.Canon = append(k.Canon, "["+a[:1]+"]"+a[1:])
	}
	return k
}

func plainCommon(a []string) bool {
	w := a[0]
	for _, f := range []string{"file", "begin", "end", "current"} {
		if w == "--"+f || strings.HasPrefix(w, "--"+f+"=") {
			return true
		}
	}
	return w == "-f" || w == "-b" || w == "-e" || w == "-c"
}

func checkForms(c *fw.Ctx, k *formsCase) error {
	text := fw.Render(k.Entries, k.Layout, true)
	c.Write(jfile, text)
	c.Write("decoy.journal", fw.Decoy)
	c.Nontrivial = len(k.Forms) >= 2
	c.Class(fw.Distinct(k.Forms)...)
	c.Class("command:" + k.Command)
	want, err := c.OK(k.Canon...)
	if err != nil {
		return with(fmt.Sprintf("%q", k.Canon), err, text)
	}
	var w []string
	for _, a := range k.Pre {
		w = append(w, a...)
	}
	w = append(w, k.Name)
	for _, a := range k.Post {
		w = append(w, a...)
	}
	if k.Dashes {
		w = append(w, "--")
	}
	w = append(w, k.Args...)
	var env []string
	if k.Env {
		env = []string{"LEDGER_FILE=" + jfile}
	}
	got, err := c.GlEnv(env, w...).OK()
	if err != nil {
		return with(fmt.Sprintf("%q (LEDGER_FILE %q)", w, env), err, text)
	}
	if k.Command == "statistics" {
		want, got = fw.NoRelTime(want), fw.NoRelTime(got)
	}
	return with("forms", diffText(fmt.Sprintf("%q and %q", k.Canon, w), want, got), text)
}

// helpCase is a command line that asks for help or the version
type helpCase struct {
	lineCase
	Journal string `json:"journal"` // good, bad, missing or none
}

func drawHelp(t *rapid.T) helpCase {
	k := helpCase{lineCase: drawLine(t)}
	k.Kind = fw.OneOf(t, "kind", "flag", "flag", "flag", "help command", "help", "bare", "version")
	k.Journal = fw.OneOf(t, "journal", "good", "good", "bad", "missing", "directory", "none")
	switch k.Kind {
	case "flag":
		k.insert(t, []string{fw.OneOf(t, "help", "-h", "--help", "--help=true", "-ch")}, false)
	case "help command":
		k.Pre, k.Post = [][]string{{"help"}}, nil
	case "help":
		k.Pre, k.Name, k.Post = nil, fw.OneOf(t, "help", "help", "-h", "--help"), nil
	default:
		// of the flags, those all commands have
		var fs [][]string
		for _, a := range append(k.Pre, k.Post...) {
			if plainCommon(a) {
				fs = append(fs, a)
			}
		}
		k.Pre, k.Post, k.Name = fs, nil, ""
		if k.Kind == "version" {
			k.Name = "version"
		}
	}
	return k
}

func checkHelp(c *fw.Ctx, k *helpCase) error {
	w := k.words()
	canon := map[string][]string{"flag": {k.Command, "--help"}, "help command": {"help", k.Command}, "help": {"--help"}, "bare": nil, "version": {"version"}}[k.Kind]
	if k.Kind == "help" {
		canon = []string{k.Name}
	}
	// what is printed where there is no journal at all
	want, err := c.OK(canon...)
	if err != nil {
		return err
	}
	var env []string
	if k.Env {
		env = []string{"LEDGER_FILE=" + jfile}
	}
	switch k.Journal {
	case "good":
		k.write(c)
	case "bad":
		k.write(c)
		c.Write(jfile, "2020-01-01 "+marker+"\n    A:"+marker+"  1.00\n    B:"+marker+"  1.00\nnonsense\n")
	case "directory":
		c.Mkdir(jfile)
	}
	c.Nontrivial = len(w) > len(canon) || k.Env && k.Journal != "none"
	c.Class("kind:"+k.Kind, "journal:"+k.Journal)
	got, err := c.GlEnv(env, w...).OK()
	if err != nil {
		return fmt.Errorf("%q (LEDGER_FILE %q): %w", w, env, err)
	}
	if err := diffText(fmt.Sprintf("%q without a journal and %q with a %s one", canon, w, k.Journal), want, got); err != nil {
		return err
	}
	if !utf8.ValidString(got) || strings.TrimSpace(got) == "" {
		return fmt.Errorf("%q printed %q", w, got)
	}
	has := func(s string) error {
		if !strings.Contains(got, s) {
			return fmt.Errorf("%q does not name %q:\n%s", w, s, got)
		}
		return nil
	}
	switch k.Kind {
	case "version":
		if strings.Count(strings.TrimSuffix(got, "\n"), "\n") != 0 || !strings.Contains(got, "gledger") {
			return fmt.Errorf("%q printed %q", w, got)
		}
	case "flag", "help command":
		for _, a := range append([]string{}, aliases[k.Command]...) {
			if err := has(a); err != nil {
				return err
			}
		}
		for _, f := range flagsOf(k.Command) {
			if err := has("--" + f); err != nil {
				return err
			}
		}
	default:
		for _, n := range reports {
			if err := has(n); err != nil {
				return err
			}
		}
		for _, f := range commonFlags {
			if err := has("--" + f); err != nil {
				return err
			}
		}
	}
	es, err := os.ReadDir(c.Dir)
	if err != nil {
		fw.Harness("%v", err)
	}
	for _, e := range es {
		if n := filepath.Base(e.Name()); n != jfile {
			return fmt.Errorf("%q made a file %q", w, n)
		}
	}
	return nil
}

func init() {
	fw.Register("C27", "refused", 10000, 120000,
		"a command line that gives a report, with one fault: a command or flag that does not exist (misspelt, shortened, in other case, or of another program), a flag of another command, a missing value, a switch with what is neither true nor false, an argument before the command; it must print an error and no report; non-trivial if there are two other flags or arguments",
		drawRefused, checkRefused)
	fw.Register("C27", "forms", 8000, 100000,
		"a command line in canonical spelling and another for the same: flags given several times (the last counts), switched on and off in any spelling of true and false, joined letters, empty values, '--' before the arguments (which then may begin with a dash), flags before the command; the bytes must be the same; non-trivial if two of these are used",
		drawForms, checkForms)
	fw.Register("C27", "help", 5000, 50000,
		"a command line asking for help or the version, with any journal, faulty, missing or none; it must print the same as without a journal, naming the commands, or the command's aliases and flags; non-trivial if there is more on the line or a journal",
		drawHelp, checkHelp)
}
