package main

import (
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"pgregory.net/rapid"
	"verifharness/fw"
)

var aliases = map[string][]string{
	"accounts":   {"accounts", "acc", "a"},
	"balance":    {"balance", "bal", "b"},
	"budget":     {"budget", "bud", "B"},
	"payees":     {"payees", "pay"},
	"statistics": {"statistics", "stats", "s"},
	"print":      {"print"},
}

// flagUse is one flag in one of its spellings
type flagUse struct {
	Long, Short, Value string
	Spelling           int
	After              int // the number of arguments before it
}

func (f flagUse) words() []string {
	if f.Value == "" { // a switch
		return []string{[]string{"--" + f.Long, "-" + f.Short, "--" + f.Long + "=true", "-" + f.Short + "=true"}[f.Spelling%4]}
	}
	switch f.Spelling % 4 {
	case 0:
		return []string{"--" + f.Long, f.Value}
	case 1:
		return []string{"-" + f.Short, f.Value}
	case 2:
		return []string{"--" + f.Long + "=" + f.Value}
	}
	return []string{"-" + f.Short + f.Value}
}

type spellCase struct {
	JCase
	Command string    `json:"command"`
	Alias   int       `json:"alias"`
	Flags   []flagUse `json:"flags"`
	Args    []string  `json:"args"`
	Env     bool      `json:"env"`    // the journal comes from LEDGER_FILE
	Decoy   int       `json:"decoy"`  // what else LEDGER_FILE names when -f is given
	Before  bool      `json:"before"` // common flags stand before the command
	Name    string    `json:"name"`   // of the journal
	Pad     int       `json:"pad"`    // kB of comments at its end
}

// fileNames are names that a shell, a library or a careless program could
// take for something else
var fileNames = []string{jfile, "a$HOME.j", "$HOME", "~", "~root", "my journal", " j", "j ", "j\t", " ", "-j", "--", "j:k", "J.JOURNAL", "j%", "j\"", "j\r", "%41.journal", "*.journal", "[a].j", "{a,b}", "a\\tb", "'j'", "\"j\"", "file:j", "é.journal", "e\u0301", "日本.ledger", "j", ".j", "j.", "..j", "a,b", "a;b", "a#b", "a=b", "a&b", "a|b", "<j", "2020-01-01", "true", "print", "dir with space/j", "sub/j", "./j", "sub/../j", "j.journal.bak", "link/../j.journal", "link/../../j.journal", "link/../j", "linked.journal", "Journal", "in?.j", "-", "j.gz", "j.journal.gz", "j.bz2", "j.xz", "j.zst", "j.zip", "j.json", "j.csv", "j.txt", "j.yaml", "j.toml", "j.md", "j.gpg", "j.age", "j.enc", "j~", "#j#", "j.swp", "j.timeclock", "j.dat", "j.ledger", "stdin", "+j", "@j", "!j", "^j", "j@host", "j,v", "CON", "null", "false", "0", "1", ".ledgerrc", "j.journal.journal", "long" + "0123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789"}

type pipeCase struct {
	JCase
	Command string `json:"command"`
	Sel     fw.Sel `json:"sel"`
	Cuts    []int  `json:"cuts,omitempty"`
	Env     bool   `json:"env"`
}

type sourceCase struct {
	JCase
	Kind    string `json:"kind"`
	Command string `json:"command"`
	Alias   int    `json:"alias"`
}

func init() {
	fw.Register("C22", "spelling", 8000, 100000,
		"a command with a date range, filters and report flags in canonical spelling, and the same with an alias of the command, other spellings of the flags, other places for them and the journal named by -f or LEDGER_FILE (with another file or nonsense in LEDGER_FILE if -f is given); the bytes must be the same and the journal unchanged; non-trivial if two of these differ",
		func(t *rapid.T) spellCase {
			o := fw.Opt{Min: 1, Max: 8, Rich: true, Commodity: true, Allocs: true, Money: rapid.Bool().Draw(t, "money")}
			v := fw.NewVocab(t, o)
			var k spellCase
			k.Entries = fw.Entries(t, v, o)
			k.Layout = fw.DrawLayout(t)
			k.Command = fw.OneOf(t, "command", reports...)
			k.Alias = fw.Int(t, 0, len(aliases[k.Command])-1, "alias")
			k.Args = fw.Filters(t, k.Entries, 0, 3)
			if fw.Chance(t, 50, "padded") {
				k.Pad = fw.OneOf(t, "pad", 60, 130, 1100, 5000)
			}
			k.Env = rapid.Bool().Draw(t, "env")
			k.Decoy = fw.Int(t, 0, 7, "decoy")
			k.Before = rapid.Bool().Draw(t, "before")
			add := func(long, short, value string) {
				k.Flags = append(k.Flags, flagUse{Long: long, Short: short, Value: value, Spelling: fw.Int(t, 0, 3, "spelling"), After: fw.Int(t, 0, 3, "after")})
			}
			s := fw.DrawSel(t, k.Entries, 0)
			if s.Begin != "" {
				add("begin", "b", s.Begin)
			}
			if s.End != "" {
				add("end", "e", s.End)
			}
			if fw.Chance(t, 5, "current") {
				add("current", "c", "")
			}
			if k.Command == "balance" || k.Command == "budget" {
				if fw.Chance(t, 2, "flatten") {
					add("flatten", "F", "")
				}
				if fw.Chance(t, 2, "zero") {
					add("show-zero", "Z", "")
				}
				if fw.Chance(t, 2, "collapse") {
					add("collapse", "C", "")
				}
			}
			k.Name = jfile
			if fw.Chance(t, 2, "oddname") {
				k.Name = fw.OneOf(t, "name", fileNames...)
			}
			if !k.Env {
				add("file", "f", k.Name)
			}
			return k
		},
		checkSpelling)

	fw.Register("C22", "pipe", 3000, 30000,
		"a journal in a file and the same text arriving in 1-6 pieces through a pipe that -f or LEDGER_FILE names, for a report command with filters and a date range; the bytes must be the same (but for the statistics' list of files); non-trivial if it arrives in pieces",
		func(t *rapid.T) pipeCase {
			o := fw.Opt{Min: 0, Max: 12, Rich: true, Long: true, Commodity: true, Allocs: true, Money: rapid.Bool().Draw(t, "money")}
			v := fw.NewVocab(t, o)
			var k pipeCase
			k.Entries = fw.Entries(t, v, o)
			k.Layout = fw.DrawLayout(t)
			k.Command = fw.OneOf(t, "command", reports...)
			k.Sel = fw.DrawSel(t, k.Entries, 2)
			for n := fw.Int(t, 0, 5, "cuts"); n > 0; n-- {
				k.Cuts = append(k.Cuts, fw.Int(t, 0, 1000, "cut"))
			}
			k.Env = rapid.Bool().Draw(t, "env")
			return k
		},
		func(c *fw.Ctx, k *pipeCase) error {
			text := fw.Render(k.Entries, k.Layout, true)
			c.Write(jfile, text)
			a := args(k.Command, k.Sel.Args())
			want, err := c.OK(args("-f", jfile, a)...)
			if err != nil {
				return with(fmt.Sprintf("%q", a), err, text)
			}
			cuts := []int{0, len(text)}
			for _, x := range k.Cuts {
				cuts = append(cuts, len(text)*x/1001)
			}
			sort.Ints(cuts)
			var pieces []string
			for i := 1; i < len(cuts); i++ {
				pieces = append(pieces, text[cuts[i-1]:cuts[i]])
			}
			c.Nontrivial = len(k.Cuts) > 0 && len(text) > 10
			c.Class("command:" + k.Command)
			if k.Env {
				c.Env = []string{"LEDGER_FILE=/dev/stdin"}
			} else {
				a = args("-f", "/dev/stdin", a)
			}
			got, err := c.GlStdin(pieces, a...).OK()
			c.Env = nil
			if err != nil {
				return with(fmt.Sprintf("%q from a pipe", a), err, text)
			}
			if k.Command == "statistics" {
				want, got = fw.NoRelTime(want), fw.NoRelTime(got)
				want, got, err = statFiles(c, want, got, jfile, "/dev/stdin")
				if err != nil {
					return with(fmt.Sprintf("%q from a pipe", a), err, text)
				}
			}
			return with("pipe", diffText(fmt.Sprintf("a file and a pipe with %q", a), want, got), text)
		})

	fw.Register("C22", "source", 5000, 50000,
		"no journal named at all, or -f and/or LEDGER_FILE naming a missing or unreadable one (or one that only exists if the name is changed), given to a report command or an alias; every case is non-trivial",
		func(t *rapid.T) sourceCase {
			o := fw.Opt{Min: 1, Max: 4, Commodity: true}
			v := fw.NewVocab(t, o)
			var k sourceCase
			k.Entries = fw.Entries(t, v, o)
			k.Layout = fw.DrawLayout(t)
			k.Kind = fw.OneOf(t, "kind", "neither", "missing flag", "missing env", "missing flag, good env", "directory", "directory env", "empty env", "not a directory", "dangling link", "link loop", "empty flag", "list env", "list flag", "spaced env", "spaced flag", "other case")
			k.Command = fw.OneOf(t, "command", reports...)
			k.Alias = fw.Int(t, 0, 5, "alias")
			return k
		},
		func(c *fw.Ctx, k *sourceCase) error {
			text := fw.Render(k.Entries, k.Layout, true)
			c.Write(jfile, text)
			c.Nontrivial = true
			c.Class("kind:" + k.Kind)
			var a, env []string
			switch k.Kind {
			case "neither":
				c.DirDecoys(".")
			case "missing flag":
				c.DirDecoys(".")
				c.Decoys(".", "no.journal")
				a = []string{"-f", "no.journal"}
			case "missing env":
				c.DirDecoys(".")
				c.Decoys(".", "no.journal")
				env = []string{"LEDGER_FILE=no.journal"}
			case "missing flag, good env":
				a = []string{"--file", "no.journal"}
				env = []string{"LEDGER_FILE=" + jfile}
			case "directory":
				c.DirDecoys(".")
				a = []string{"-f", []string{".", "./", "../" + filepath.Base(c.Dir), c.Dir}[k.Alias%4]}
			case "directory env":
				c.DirDecoys(".")
				env = []string{"LEDGER_FILE=" + c.Dir}
			case "empty env":
				env = []string{"LEDGER_FILE="}
			case "not a directory":
				a = []string{"-f", jfile + "/x"}
			case "dangling link":
				os.Symlink("nowhere", filepath.Join(c.Dir, "link"))
				a = []string{"-f", "link"}
			case "link loop":
				os.Symlink("link", filepath.Join(c.Dir, "link"))
				a = []string{"-f", "link"}
			case "empty flag":
				a = []string{"-f", ""}
			case "list env":
				env = []string{"LEDGER_FILE=" + []string{jfile + ":no.journal", "no.journal:" + jfile, jfile + "," + jfile, jfile + ";" + jfile, jfile + " " + jfile, jfile + ":"}[k.Alias%6]}
			case "list flag":
				a = []string{"-f", []string{jfile + ":no.journal", "no.journal:" + jfile, jfile + "," + jfile, jfile + ";" + jfile, jfile + " " + jfile, jfile + ","}[k.Alias%6]}
			case "spaced env":
				env = []string{"LEDGER_FILE=" + []string{jfile + " ", " " + jfile, jfile + "\n", "\"" + jfile + "\"", "file://" + jfile, "'" + jfile + "'"}[k.Alias%6]}
			case "spaced flag":
				a = []string{"-f", []string{jfile + " ", " " + jfile, jfile + "\n", "\"" + jfile + "\"", "file:" + jfile, "'" + jfile + "'"}[k.Alias%6]}
			case "other case":
				a = []string{"-f", []string{"J.journal", "j.JOURNAL", "j", "j.", "journal", ".journal"}[k.Alias%6]}
			}
			name := aliases[k.Command][k.Alias%len(aliases[k.Command])]
			r := c.GlEnv(env, args(name, a)...)
			if err := r.Refused(k.Command, append(names(k.Entries), "Decoy:A")); err != nil {
				return fmt.Errorf("%s, %q with LEDGER_FILE %q: %w", k.Kind, a, env, err)
			}
			return nil
		})
}

// statFiles takes the lists of files out of two statistics of one file each
func statFiles(c *fw.Ctx, a, b, aname, bname string) (string, string, error) {
	var rest [2]string
	for i, out := range []string{a, b} {
		var files string
		files, rest[i] = filesPart(out)
		want := []string{aname, bname}[i]
		if s, err := fw.ParseStats(out); err != nil {
			return "", "", err
		} else if s.Empty {
			continue
		} else if s.NFiles != 1 || len(s.Files) != 1 || filepath.Clean(s.Files[0]) != filepath.Clean(want) {
			return "", "", fmt.Errorf("statistics list the files %q, want %q", files, want)
		}
	}
	return rest[0], rest[1], nil
}

func checkSpelling(c *fw.Ctx, k *spellCase) error {
	text := fw.Render(k.Entries, k.Layout, true)
	if k.Pad > 0 {
		text += "\n" + strings.Repeat("; "+strings.Repeat("comment ", 12)+"\n", k.Pad*10)
		c.Class("large file")
	}
	if k.Name == "" {
		k.Name = jfile
	}
	if k.Name != jfile {
		c.Class("odd name")
	}
	at := filepath.Clean(k.Name) // where the file is
	switch {
	case strings.HasPrefix(k.Name, "link/"):
		// the system follows the link before the dots
		c.Mkdir("d/e/f")
		at = filepath.Join("d/e", strings.TrimPrefix(k.Name, "link/../"))
		if err := os.Symlink("d/e/f", filepath.Join(c.Dir, "link")); err != nil {
			fw.Harness("%v", err)
		}
	case k.Name == "linked.journal":
		at = "d/other name"
		c.Mkdir("d")
		if err := os.Symlink(at, filepath.Join(c.Dir, k.Name)); err != nil {
			fw.Harness("%v", err)
		}
	default:
		throughDirs(c, jfile, k.Name)
	}
	c.Write(at, text)
	c.Write("canonical.journal", text)
	mine := map[string]bool{at: true, "canonical.journal": true, "decoy.journal": true, "link": true, "linked.journal": true}
	for _, p := range c.Decoys(".", k.Name) {
		n, _ := filepath.Rel(c.Dir, p)
		mine[n] = true
	}
	canon := []string{k.Command, "--file", "canonical.journal"}
	for _, f := range k.Flags {
		if f.Long == "file" {
			continue
		}
		f.Spelling = 0
		canon = append(canon, f.words()...)
	}
	canon = append(canon, k.Args...)
	want, err := c.OK(canon...)
	if err != nil {
		return with(fmt.Sprintf("%q", canon), err, text)
	}

	name := aliases[k.Command][k.Alias%len(aliases[k.Command])]
	var pre, other []string
	differs := 0
	if name != k.Command {
		differs++
		c.Class("alias")
	}
	place := func(i int) {
		for _, f := range k.Flags {
			common := f.Long == "begin" || f.Long == "end" || f.Long == "current" || f.Long == "file"
			if k.Before && common {
				if i == 0 {
					pre = append(pre, f.words()...)
				}
				continue
			}
			if at := f.After; at == i || (i == len(k.Args) && at > i) {
				other = append(other, f.words()...)
			}
		}
	}
	for i, x := range k.Args {
		place(i)
		other = append(other, x)
	}
	place(len(k.Args))
	for _, f := range k.Flags {
		if f.Spelling%4 != 0 {
			differs++
			c.Class("spelling")
			break
		}
	}
	if k.Before && len(pre) > 0 {
		differs++
		c.Class("flags before the command")
	}
	all := append(append(pre, name), other...)
	var env []string
	if k.Env {
		differs++
		c.Class("LEDGER_FILE")
		env = []string{"LEDGER_FILE=" + k.Name}
	} else if k.Decoy > 0 {
		differs++
		c.Class("flag over LEDGER_FILE")
		c.Write("decoy.journal", fw.Decoy)
		if k.Decoy > 3 {
			// a name of the same kind, in another directory
			if n := filepath.Join("elsewhere", k.Name); strings.HasPrefix(n, "elsewhere/") {
				c.Write(n, fw.Decoy)
				mine[n] = true
			}
			c.Write("elsewhere/decoy.journal", fw.Decoy)
			mine["elsewhere/decoy.journal"] = true
		}
		env = []string{"LEDGER_FILE=" + []string{"", "decoy.journal", "missing.journal", "", c.Dir + "/elsewhere/missing.journal", "elsewhere/decoy.journal", c.Dir + "/elsewhere", c.Dir + "/elsewhere/decoy.journal"}[k.Decoy%8]}
	}
	c.Nontrivial = differs >= 2
	c.Class("command:" + k.Command)
	got, err := c.GlEnv(env, all...).OK()
	if err != nil {
		return with(fmt.Sprintf("%q (LEDGER_FILE %q)", all, env), err, text)
	}
	if k.Command == "statistics" {
		want, got = fw.NoRelTime(want), fw.NoRelTime(got)
		// all but the name of the journal
		a, b, err := statFiles(c, want, got, "canonical.journal", k.Name)
		if err != nil {
			return with(fmt.Sprintf("%q (LEDGER_FILE %q)", all, env), err, text)
		}
		want, got = a, b
	}
	if err := diffText(fmt.Sprintf("%q and %q with %q", canon, all, env), want, got); err != nil {
		return with("spelling", err, text)
	}
	// nothing may have been written
	for _, n := range []string{at, "canonical.journal"} {
		b, err := os.ReadFile(filepath.Join(c.Dir, n))
		if err != nil || string(b) != text {
			return fmt.Errorf("%q changed the journal (%v)", all, err)
		}
	}
	return filepath.WalkDir(c.Dir, func(p string, e fs.DirEntry, err error) error {
		if err != nil {
			fw.Harness("%v", err)
		}
		if n, _ := filepath.Rel(c.Dir, p); !e.IsDir() && !mine[n] {
			return fmt.Errorf("%q wrote a file %q", all, n)
		}
		return nil
	})
}
