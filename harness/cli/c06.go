package main

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"
	"verifharness/fw"
)

type bytesCase struct {
	Journal []byte   `json:"journal"` // base64
	Files   [][]byte `json:"files,omitempty"`
	Args    []string `json:"args"`
}

func drawArgs(t *rapid.T) []string {
	var a []string
	cmd := fw.OneOf(t, "cmd", "print", "balance", "accounts", "payees", "statistics", "budget", "b", "B", "bal", "a", "p", "s", "stats", "bud", "pay", "acc")
	a = append(a, cmd, "-f", jfile)
	n := fw.Int(t, 0, 3, "nargs")
	if !fw.Chance(t, 3, "anyargs") {
		n = 0
	}
	if fw.Chance(t, 60, "manyargs") {
		// more than anyone types
		a = append(a, "--")
		for i := fw.Int(t, 4, 400, "many"); i > 0; i-- {
			a = append(a, fw.OneOf(t, "pattern", "zzz", "@zzz", "=zzz", "a", "Expenses", "@p", "=c", "."))
		}
		return a
	}
	dates := []string{"2020", "2020/01", "2020-01-01", "01/02", "1", "12", "20201", "2020-13", "abcd", "////", "2020/01/01/01", "-2020", "+999", "0000", "0001", "0001/01/01", "9999/12/31", "/", "-", "é", "2020.01.01", "02-30", "99999/1"}
	if (strings.HasPrefix(cmd, "b") || cmd == "B") && fw.Chance(t, 3, "layout") {
		a = append(a, fw.OneOf(t, "layoutflag", "-F", "-C", "-Z", "-FC", "-CZ", "-FCZ", "-FZ", "-C"))
	}
	for i := 0; i < n; i++ {
		switch fw.Int(t, 0, 9, "arg") {
		case 0:
			a = append(a, fw.OneOf(t, "bflag", "-b", "--begin"), rapid.SampledFrom(dates).Draw(t, "date"))
		case 1:
			a = append(a, fw.OneOf(t, "eflag", "-e", "--end"), rapid.SampledFrom(dates).Draw(t, "date"))
		case 2:
			a = append(a, "-c")
		case 3:
			if strings.HasPrefix(cmd, "b") || cmd == "B" {
				a = append(a, fw.OneOf(t, "layoutflag", "-F", "-C", "-Z", "-FC", "-CZ", "-FCZ", "-FZ"))
			}
		case 4:
			a = append(a, strings.ReplaceAll(rapid.String().Draw(t, "anyarg"), "\x00", ""))
		case 5:
			a = append(a, fw.OneOf(t, "flag", "--", "-", "--nope", "-x", "--file", "-f", "--help", "-h", "--begin", "-b", "--begin=", "--current=x", "--current=false", "help", "version"))
		default:
			a = append(a, fw.OneOf(t, "pattern", "", "@", "=", "@@", "==", "(", "[", "@(", "=[", "a", "A", ".", ".*", "@.*", "=.*", "$^", "(?i)", "(?P<", "\\", "a{2,1}", "a{1001}", "((((a*)*)*)*)*$", "^", "@^", "é", "\xff", "a|", "[[:alpha:]]", "Expenses", "Income", "=c", "@p"))
		}
	}
	return a
}

func checkAny(c *fw.Ctx, k *bytesCase) error {
	c.Write(jfile, string(k.Journal))
	for i, f := range k.Files {
		c.Write(fmt.Sprintf("f%d.journal", i), string(f))
	}
	r := c.Gl(k.Args...)
	if err := r.Crash(); err != nil {
		return fmt.Errorf("%.3000s\njournal:\n%s", err, fw.Show(string(k.Journal)))
	}
	return nil
}

func classify(c *fw.Ctx, k *bytesCase) {
	c.Class("command:" + k.Args[0])
	if len(k.Args) > 3 {
		c.Class("with arguments")
	}
	if len(k.Files) > 0 {
		c.Class("with includes")
	}
}

func init() {
	fw.Register("C06", "bytes", 8000, 200000,
		"random bytes or strings as the journal, with a random command; non-trivial if the journal has two lines or more",
		func(t *rapid.T) bytesCase {
			k := bytesCase{Args: drawArgs(t)}
			if rapid.Bool().Draw(t, "bytes") {
				k.Journal = rapid.SliceOfN(rapid.Byte(), 0, 200).Draw(t, "journal")
			} else {
				k.Journal = []byte(rapid.StringN(0, 120, -1).Draw(t, "journal"))
			}
			return k
		},
		func(c *fw.Ctx, k *bytesCase) error {
			classify(c, k)
			c.Nontrivial = strings.Count(string(k.Journal), "\n") > 0 && len(k.Journal) > 3
			return checkAny(c, k)
		})

	fw.Register("C06", "tokens", 28000, 600000,
		"journals and up to three includable files put together from pieces of journals, with random commands, flags and arguments; non-trivial if the journal has three lines or more",
		func(t *rapid.T) bytesCase {
			k := bytesCase{Args: drawArgs(t)}
			gen := func(max int) []byte {
				return []byte(strings.Join(rapid.SliceOfN(rapid.SampledFrom(fw.Tokens), 0, max).Draw(t, "tokens"), ""))
			}
			k.Journal = gen(40)
			if fw.Chance(t, 3, "files") {
				for i := fw.Int(t, 1, 3, "nfiles"); i > 0; i-- {
					k.Files = append(k.Files, gen(15))
				}
			}
			return k
		},
		func(c *fw.Ctx, k *bytesCase) error {
			classify(c, k)
			c.Nontrivial = strings.Count(string(k.Journal), "\n") >= 3
			return checkAny(c, k)
		})

	fw.Register("C06", "mutated", 20000, 500000,
		"well-formed journals (with allocations, notes, every layout) changed at up to seven places (signs with a meaning doubled or dropped, lines dropped, repeated, swapped, cut, joined, indented or replaced; bytes changed, inserted or removed), with random commands, flags and arguments; every case is non-trivial",
		func(t *rapid.T) bytesCase {
			o := fw.Opt{Min: 1, Max: 5, Rich: true, Odd: true, Commodity: true, PerTxn: true, Allocs: true, Money: rapid.Bool().Draw(t, "money")}
			v := fw.NewVocab(t, o)
			es := fw.Entries(t, v, o)
			text := fw.Render(es, fw.DrawLayout(t), true)
			n := fw.Int(t, 1, 6, "mutations")
			a := drawArgs(t)
			if fw.Chance(t, 3, "structure") {
				text = fw.MutateStructure(t, text)
				n = fw.OneOf(t, "further", 0, 0, 0, 1, 3)
				if fw.Chance(t, 3, "layouts") {
					a = []string{fw.OneOf(t, "report", "balance", "budget", "balance"), "-f", jfile, fw.OneOf(t, "layoutflag", "-C", "-CZ", "-F", "-FZ", "-Z", "-C")}
				}
			}
			for i := n; i > 0; i-- {
				text = fw.Mutate(t, text)
			}
			return bytesCase{Journal: []byte(text), Args: a}
		},
		func(c *fw.Ctx, k *bytesCase) error {
			classify(c, k)
			c.Nontrivial = true
			return checkAny(c, k)
		})

	fw.Register("C06", "large", 320, 4000,
		"journals that are large in one respect (lines up to 1 MB, thousands of transactions, postings, accounts or comments, accounts thousands of levels deep, hundreds of nested includes), with each command; where there are no further arguments the report must appear; every case is non-trivial",
		func(t *rapid.T) largeCase {
			return largeCase{Kind: fw.OneOf(t, "kind", "payee", "account", "deep", "wide", "txns", "postings", "comments", "include", "noeol", "collapsed", "many includes"),
				N: fw.Int(t, 1, 1000, "n"), Args: drawArgs(t)}
		},
		func(c *fw.Ctx, k *largeCase) error {
			c.Nontrivial = true
			c.Class("large:"+k.Kind, "command:"+k.Args[0])
			return k.check(c)
		})
}

type largeCase struct {
	Kind string   `json:"kind"`
	N    int      `json:"n"`
	Args []string `json:"args"`
}

func (k *largeCase) check(c *fw.Ctx) error {
	var b strings.Builder
	switch k.Kind {
	case "payee":
		fmt.Fprintf(&b, "2020-01-01 %s\n    A  5\n    B\n", strings.Repeat("pä", k.N*300))
	case "account":
		fmt.Fprintf(&b, "2020-01-01 p\n    A%s  5\n    B\n", strings.Repeat("x", k.N*1000))
	case "deep":
		fmt.Fprintf(&b, "2020-01-01 p\n    Expenses%s  5\n    Income\n", strings.Repeat(":x", k.N*2))
	case "collapsed":
		fmt.Fprintf(&b, "2020-01-01 p\n    Expenses%s  5\n    Income%s\n", strings.Repeat(":x", k.N), strings.Repeat(":y", k.N))
	case "wide":
		b.WriteString("2020-01-01 p\n")
		for i := 0; i < k.N; i++ {
			fmt.Fprintf(&b, "    Expenses:E%d  5\n", i)
		}
		b.WriteString("    Income\n")
	case "txns":
		for i := 0; i < k.N*5; i++ {
			fmt.Fprintf(&b, "2020-01-%02d p%d\n    Expenses:E%d  5\n    Income\n\n", i%28+1, i, i%50)
		}
	case "postings":
		b.WriteString("2020-01-01 p\n    Income\n")
		for i := 0; i < k.N*5; i++ {
			b.WriteString("    Expenses:E  5\n")
		}
	case "comments":
		b.WriteString("2020-01-01 p\n    Income\n    Expenses:E  5\n")
		for i := 0; i < k.N; i++ {
			b.WriteString("    ; c\n")
		}
	case "include":
		b.WriteString("include f0.journal\n")
		n := k.N/4 + 1
		for i := 0; i < n; i++ {
			next := fmt.Sprintf("include f%d.journal\n", i+1)
			if i == n-1 {
				next = ""
			}
			c.Write(fmt.Sprintf("f%d.journal", i), fmt.Sprintf("2020-01-01 p%d\n    A  5\n    B\n%s", i, next))
		}
	case "many includes":
		c.Write("f.journal", "2020-01-01 p\n    A  5\n    B\n")
		b.WriteString(strings.Repeat("include f.journal\n", k.N))
	case "noeol":
		fmt.Fprintf(&b, "2020-01-01 p\n    A  5\n    B\n    ; %s", strings.Repeat("x", k.N*1000))
	}
	c.Write(jfile, b.String())
	r := c.Gl(k.Args...)
	if err := r.Crash(); err != nil {
		return fmt.Errorf("large %s (%d): %.2000s", k.Kind, k.N, err)
	}
	if len(k.Args) == 3 {
		// these journals are all good, so size alone must not end the program
		if _, err := r.OK(); err != nil {
			return fmt.Errorf("large %s (%d): %.2000s", k.Kind, k.N, err)
		}
	}
	return nil
}
