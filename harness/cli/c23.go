package main

import (
	"fmt"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"pgregory.net/rapid"
	"verifharness/fw"
)

// surroundCase is a run of gledger in two different surroundings
type surroundCase struct {
	Root    *fw.FileNode `json:"root"`
	Layout  []byte       `json:"layout,omitempty"`
	Sel     fw.Sel       `json:"sel"`
	Command string       `json:"command"`
	Bad     int          `json:"bad,omitempty"`  // the file, counted from one, that ends with a bad line
	ByEnv   bool         `json:"byEnv"`          // the journal is named by LEDGER_FILE
	Env     []string     `json:"env,omitempty"`  // "@" stands for the place of the journal
	Bare    bool         `json:"bare,omitempty"` // no other variables at all
	Year    string       `json:"year,omitempty"` // "range" or "current": the journal is of this year, with dates to match
	Home    bool         `json:"home,omitempty"` // the home directory has configuration files
	Conf    []string     `json:"conf,omitempty"` // where else there are some
	Cwd     string       `json:"cwd,omitempty"`
	Argv0   string       `json:"argv0,omitempty"`
	Stdin   string       `json:"stdin,omitempty"`
	Stdout  string       `json:"stdout,omitempty"`
	NoFile  bool         `json:"noFile,omitempty"` // few files may be open
	Touch   int          `json:"touch,omitempty"`  // the files' times
	Mode    uint32       `json:"mode,omitempty"`   // the files' permissions
	Move    string       `json:"move,omitempty"`   // how the journal gets to another place
}

var envNames = []string{"LANG", "LC_ALL", "LC_NUMERIC", "LC_TIME", "LC_COLLATE", "LC_MONETARY", "LANGUAGE", "COLUMNS", "LINES", "TERM", "COLORTERM", "NO_COLOR", "CLICOLOR", "CLICOLOR_FORCE", "FORCE_COLOR", "PAGER", "EDITOR",
	"LEDGER", "LEDGER_BEGIN", "LEDGER_END", "LEDGER_DATE_FORMAT", "LEDGER_SORT", "LEDGER_REAL", "LEDGER_FLAT", "LEDGER_STRICT", "LEDGER_PATH", "LEDGER_INIT", "LEDGER_PRICE_DB", "LEDGER_BUDGET", "LEDGER_YEAR", "LEDGER_COLUMNS", "LEDGER_FILES", "LEDGERFILE",
	"GLEDGER_FILE", "GLEDGER", "GLEDGER_BEGIN", "GLEDGER_END", "GLEDGER_FLAT", "GLEDGER_SHOW_ZERO", "GLEDGER_OPTS", "GLEDGER_ARGS", "GLEDGER_CONFIG", "GLEDGER_DEBUG", "HLEDGER_FILE", "BEANCOUNT_FILE",
	"BEGIN", "END", "FLAT", "TREE", "DEPTH", "COLLAPSE", "FILE", "JOURNAL", "CONFIG", "DEBUG", "VERBOSE", "CI", "USER", "LOGNAME", "SHELL", "PWD", "OLDPWD", "TMPDIR", "XDG_CONFIG_HOME", "XDG_DATA_HOME", "XDG_CACHE_HOME", "TZ", "ZONEINFO", "GOMAXPROCS", "GOGC", "GOTRACEBACK", "SOURCE_DATE_EPOCH", "NOW", "TODAY", "DATE", "YEAR", "FAKETIME", "ACTIVE_HELP", "GLEDGER_ACTIVE_HELP", "COBRA_ACTIVE_HELP", "CURRENCY", "COMMODITY", "ACCOUNT", "PAYEE", "FILTER", "PATH"}

var envValues = map[string][]string{
	"LANG": {"de_DE.UTF-8", "tr_TR.UTF-8", "C", "ja_JP.eucJP", "ar_EG", "POSIX"}, "TERM": {"dumb", "xterm-256color", ""},
	"COLUMNS": {"10", "0", "-1", "200"}, "LINES": {"1", "5"}, "TZ": {"Pacific/Kiritimati", "America/Los_Angeles", "UTC+23", ":/nowhere", "XXX-14"}, "ZONEINFO": {"/nowhere"},
	"GOMAXPROCS": {"1", "2", "8"}, "GOGC": {"1", "off", "50"}, "GOTRACEBACK": {"all", "none"}, "PWD": {"/nowhere", "/", "@"}, "OLDPWD": {"@"}, "PATH": {"", "/nowhere", "@"},
	"LEDGER_BEGIN": {"2020-01-01", "2030-01-01", "1/1"}, "LEDGER_END": {"2020-01-01", "2001-01-01"}, "BEGIN": {"2030-01-01"}, "END": {"2001-01-01"}, "GLEDGER_BEGIN": {"2030-01-01"}, "GLEDGER_END": {"2001-01-01"},
	"SOURCE_DATE_EPOCH": {"0", "1577836800"}, "NOW": {"2001-01-01"}, "TODAY": {"2001-01-01"}, "DATE": {"2001-01-01"}, "YEAR": {"2001"}, "FAKETIME": {"2001-01-01"},
}

func init() {
	for _, n := range []string{"LC_ALL", "LC_NUMERIC", "LC_TIME", "LC_COLLATE", "LC_MONETARY", "LANGUAGE"} {
		envValues[n] = envValues["LANG"]
	}
	for _, n := range envNames {
		if strings.Contains(n, "FILE") || n == "LEDGER" || n == "JOURNAL" || n == "LEDGER_PATH" || strings.Contains(n, "CONFIG") || strings.HasPrefix(n, "XDG") || n == "TMPDIR" {
			envValues[n] = append(envValues[n], "@/decoy.journal", "@/conf", "@")
		}
		if envValues[n] == nil {
			envValues[n] = []string{"1", "0", "true", "", "x", "2020-01-01", "A", "£", "@/decoy.journal"}
		}
	}

	fw.Register("C23", "surroundings", 8000, 80000,
		"a journal of 1-10 entries spread over a tree of files (sometimes 100-200 of them), sometimes with a bad line, reported on by one command in plain surroundings and in others: environment variables, locale, time zone, home and configuration files, working directory, name of the program, standard input and output (pipe, file, terminal), number of files that may be open, times and permissions of the files, place of the journal; the outputs must be the same; non-trivial if there are two differences or more",
		func(t *rapid.T) surroundCase {
			o := fw.Opt{Min: 1, Max: 10, Rich: true, Commodity: true, Allocs: true, Long: fw.Chance(t, 3, "long")}
			v := fw.NewVocab(t, o)
			es := fw.Entries(t, v, o)
			k := surroundCase{Layout: fw.DrawLayout(t), Command: drawVariants(t, 2)[fw.Int(t, 0, 1, "which")], ByEnv: rapid.Bool().Draw(t, "byEnv")}
			k.NoFile = fw.Chance(t, 5, "noFile")
			if k.NoFile {
				k.Root = fw.NewTree(t).Fan(es, fw.Int(t, 90, 200, "fan"))
			} else {
				k.Root = drawTree(t, es)
			}
			if fw.Chance(t, 3, "select") {
				k.Sel = fw.DrawSel(t, es, 2)
			}
			if fw.Chance(t, 5, "year") {
				k.Year = fw.OneOf(t, "year", "range", "current")
			}
			if fw.Chance(t, 8, "bad") {
				k.Bad = fw.Int(t, 1, len(k.Root.Files()), "file")
			}
			seen := map[string]bool{}
			for n := fw.OneOf(t, "variables", 0, 0, 3, 10, 40); n > 0; n-- {
				name := rapid.SampledFrom(envNames).Draw(t, "name")
				if !seen[name] {
					seen[name] = true
					k.Env = append(k.Env, name+"="+rapid.SampledFrom(envValues[name]).Draw(t, "value"))
				}
			}
			if vars := fw.DictVars(); len(vars) > 0 && len(k.Env) > 0 {
				// those the program's source names
				for n := fw.Int(t, 0, 3, "own variables"); n > 0; n-- {
					name := rapid.SampledFrom(vars).Draw(t, "name")
					if !seen[name] {
						seen[name] = true
						k.Env = append(k.Env, name+"="+fw.OneOf(t, "value", "1", "0", "true", "", "x", "2020-01-01", "10", "A", "£", "@/decoy.journal", "@", "@/conf", "de_DE.UTF-8", "--flatten", "-Z -F"))
					}
				}
			}
			if !k.ByEnv && fw.Chance(t, 2, "ledgerFile") {
				k.Env = append(k.Env, "LEDGER_FILE="+fw.OneOf(t, "value", "@/decoy.journal", "/nowhere", "@", ""))
			}
			k.Home = fw.Chance(t, 3, "home")
			if fw.Chance(t, 8, "bare") {
				k.Bare = true
				if fw.Chance(t, 2, "none") {
					k.Env, k.Home = nil, false
				}
			}
			if fw.Chance(t, 3, "conf") {
				k.Conf = []string{fw.OneOf(t, "conf", ".", "top", "cwd", "up")}
			}
			k.Cwd = fw.OneOf(t, "cwd", "", "", "cwd", "cwd", "top", ".", "/")
			k.Argv0 = fw.OneOf(t, "argv0", "", "", "", "ledger", "gledger-budget", "-gledger", "print", "")
			k.Stdin = fw.OneOf(t, "stdin", "", "", "decoy", "journal", "pty", "closed", "directory")
			k.Stdout = fw.OneOf(t, "stdout", "", "", "file", "pty")
			k.Touch = fw.OneOf(t, "touch", 0, 0, 0, 1, 2, 3)
			k.Mode = fw.OneOf[uint32](t, "mode", 0, 0, 0, 0o444, 0o777, 0o400)
			k.Move = fw.OneOf(t, "move", "", "", "", "renamed", "link", "file link", "hard links")
			return k
		}, checkSurroundings)
}

const place = "place"

var confFiles = []string{".ledgerrc", ".gledgerrc", ".gledger", ".gledger.yaml", ".gledger.toml", ".gledger.json", "gledger.yaml", "gledger.toml", "gledger.conf", ".config/gledger/config.yaml", ".config/gledger/config.toml", ".config/gledger/config", ".config/gledger.conf", ".gledger/config", ".hledgerrc", ".env", ".hledger.conf", "hledger.conf", ".ledger", ".hledger.journal", ".ledger.journal", ".gledger.journal"}

// conf writes configuration files that are nobody's business
func conf(dir string) {
	for i, n := range append(append([]string{}, confFiles...), fw.DictFiles()...) {
		p := filepath.Join(dir, n)
		if os.MkdirAll(filepath.Dir(p), 0o755) != nil {
			continue
		}
		text := []string{"--flat\n--show-zero\n--begin 2001-01-01\n--file decoy.journal\n", "begin: 2030-01-01\nflat: true\nfile: decoy.journal\nshow-zero: true\n", "LEDGER_FILE=decoy.journal\nBEGIN=2030-01-01\n", "{\"file\": \"decoy.journal\", \"flat\": true}\n", fw.Decoy}[i%5]
		if strings.HasSuffix(n, ".journal") {
			text = fw.Decoy
		}
		if _, err := os.Lstat(p); err != nil {
			os.WriteFile(p, []byte(text), 0o644)
		}
	}
}

func checkSurroundings(c *fw.Ctx, k *surroundCase) error {
	fs := k.Root.Files()
	today := time.Now().UTC()
	selArgs := k.Sel.Args()
	if k.Year != "" {
		// the same days of this year
		seen := map[*fw.Txn]bool{}
		for _, f := range fs {
			for _, it := range f.Items {
				if it.E != nil && it.E.T != nil && !seen[it.E.T] && it.E.T.Date[4:] != "-02-29" {
					seen[it.E.T] = true
					d := today.Format("2006") + it.E.T.Date[4:]
					if n := fw.DayNumber(d) - fw.DayNumber(fw.DateString(today)); n > -2 && n < 2 {
						d = fw.AddDays(d, -7) // today is not the same day everywhere
					}
					it.E.T.Date = d
				}
			}
		}
		selArgs = k.Sel.Filters
		short := func(d string) string {
			if d[5:] == "02-29" {
				return "03/01"
			}
			return strings.Replace(d[5:], "-", "/", 1)
		}
		if k.Sel.Begin != "" {
			selArgs = append([]string{"-b", short(k.Sel.Begin)}, selArgs...)
		} else if k.Sel.End == "" && k.Year == "range" {
			selArgs = append([]string{"-b", "01/02"}, selArgs...)
		}
		if k.Sel.End != "" {
			selArgs = append([]string{"-e", short(k.Sel.End)}, selArgs...)
		}
		if k.Year == "current" {
			selArgs = append([]string{"--current"}, selArgs...)
		}
		c.Class("dates of this year")
	}
	m := fw.RenderTree(k.Root, k.Layout, false)
	if k.Bad > 0 {
		p := fs[(k.Bad-1)%len(fs)].Path
		m[p] += "\n\nno line of a journal\n"
		c.Class("bad journal")
	}
	var shown string
	for _, p := range fw.SortedKeys(m) {
		c.Write(path.Join(place, p), m[p])
		if len(fs) < 20 {
			shown += fmt.Sprintf(" file %s:\n%s", p, fw.Show(m[p]))
		}
	}
	for _, n := range fs {
		for _, it := range n.Items {
			if it.Inc != nil {
				throughDirs(c, path.Join(place, n.Path), it.Ref)
			}
		}
	}
	c.Write(path.Join(place, "decoy.journal"), fw.Decoy)
	c.Mkdir(path.Join(place, "top"))
	c.Mkdir("cwd")
	at := filepath.Join(c.Dir, place)
	v := variant(k.Command)
	command := func(at string) ([]string, []string) {
		if k.ByEnv {
			return args(v, selArgs), []string{"LEDGER_FILE=" + filepath.Join(at, rootFile)}
		}
		return args(v, "-f", filepath.Join(at, rootFile), selArgs), nil
	}
	out := func(r *fw.Result, at string) string {
		s := strings.ReplaceAll(r.Out+"\n--- errors\n"+r.Err, at+"/", "@/")
		if v[0] == "statistics" {
			s = fw.NoRelTime(s)
		}
		return s
	}
	as, env := command(at)
	r := c.Run(fw.RunOpt{Env: append(c.PlainEnv(), env...)}, as...)
	if k.Bad == 0 {
		if _, err := r.OK(); err != nil {
			return fmt.Errorf("%w\n%s", err, shown)
		}
	} else if err := r.Crash(); err != nil {
		return err
	}
	want := out(r, at)

	// the other surroundings
	var differ []string
	say := func(f string, a ...any) { differ = append(differ, fmt.Sprintf(f, a...)) }
	root := rootFile
	switch k.Move {
	case "renamed":
		to := filepath.Join(c.Dir, "another place", strings.Repeat("long ", 30))
		os.MkdirAll(filepath.Dir(to), 0o755)
		if err := os.Rename(at, to); err != nil {
			fw.Harness("%v", err)
		}
		at = to
	case "link":
		to := filepath.Join(c.Dir, "l")
		if err := os.Symlink(at, to); err != nil {
			fw.Harness("%v", err)
		}
		at = to
	case "file link":
		// the first file through a link beside it
		if err := os.Rename(filepath.Join(at, root), filepath.Join(at, "real")); err != nil {
			fw.Harness("%v", err)
		}
		if err := os.Symlink(filepath.Join(at, "real"), filepath.Join(at, root)); err != nil {
			fw.Harness("%v", err)
		}
	case "hard links":
		for i, p := range fw.SortedKeys(m) {
			os.Link(filepath.Join(at, p), filepath.Join(c.Dir, fmt.Sprintf("link%d", i)))
		}
	}
	if k.Move != "" {
		say("move: %s", k.Move)
	}
	for i, p := range fw.SortedKeys(m) {
		p := filepath.Join(at, p)
		if k.Touch > 0 {
			d := time.Duration(i) * time.Hour
			os.Chtimes(p, time.Now(), []time.Time{{}, time.Unix(0, 0).Add(d), time.Now().Add(-d), time.Now().AddDate(5, 0, 0).Add(d)}[k.Touch])
		}
		if k.Mode > 0 {
			os.Chmod(p, os.FileMode(k.Mode))
		}
	}
	if k.Touch > 0 {
		say("times: %d", k.Touch)
	}
	if k.Mode > 0 {
		say("mode: %o", k.Mode)
	}
	as, env = command(at)
	o := fw.RunOpt{Dir: at, Stdout: k.Stdout, Env: []string{}}
	// later settings replace earlier ones
	set := map[string]string{}
	plain := c.PlainEnv()
	if k.Bare {
		plain = nil
		say("no variables")
	}
	for _, e := range append(plain, k.Env...) {
		i := strings.Index(e, "=")
		set[e[:i]] = strings.ReplaceAll(e[i+1:], "@", at)
	}
	for _, e := range env {
		i := strings.Index(e, "=")
		set[e[:i]] = e[i+1:]
	}
	if len(k.Env) > 0 {
		say("variables: %q", k.Env)
	}
	if k.Home {
		set["HOME"] = filepath.Join(c.Dir, "home")
		conf(set["HOME"])
		os.WriteFile(filepath.Join(set["HOME"], "decoy.journal"), []byte(fw.Decoy), 0o644)
		say("configuration in HOME")
	}
	switch k.Cwd {
	case "":
		o.Dir = c.Dir
	case "/":
		o.Dir = "/"
	case "cwd":
		o.Dir = filepath.Join(c.Dir, "cwd")
		c.Write("cwd/"+rootFile, fw.Decoy)
		c.Write("cwd/decoy.journal", fw.Decoy)
	default:
		o.Dir = filepath.Join(at, k.Cwd)
	}
	if k.Cwd != "" {
		say("directory: %s", k.Cwd)
	}
	for _, w := range k.Conf {
		switch w {
		case ".", "top":
			conf(filepath.Join(at, w))
		case "cwd":
			if k.Cwd != "/" {
				conf(o.Dir)
			}
		case "up":
			conf(c.Dir)
		}
		say("configuration in %s", w)
	}
	if k.Argv0 != "" {
		o.Argv0 = k.Argv0
		if k.Argv0[0] != '-' {
			o.Bin = filepath.Join(c.Dir, k.Argv0)
			if os.Symlink(c.Bin, o.Bin) != nil {
				o.Bin = ""
			}
		}
		say("called: %s", k.Argv0)
	}
	switch k.Stdin {
	case "decoy":
		o.Stdin = []string{fw.Decoy}
	case "journal":
		o.Stdin = []string{m[rootFile]}
	case "directory":
		f, err := os.Open(c.Dir)
		if err != nil {
			fw.Harness("%v", err)
		}
		defer f.Close()
		o.Input = f
	case "closed":
		pr, pw, err := os.Pipe()
		if err != nil {
			fw.Harness("%v", err)
		}
		pr.Close()
		defer pw.Close()
		o.Input = pw
	case "pty":
		if master, slave, err := fw.Pty(); err == nil {
			defer master.Close()
			defer slave.Close()
			o.Input = slave
		}
	}
	if k.Stdin != "" {
		say("standard input: %s", k.Stdin)
	}
	if k.Stdout != "" {
		say("standard output: %s", k.Stdout)
	}
	if k.NoFile {
		o.NoFile = 40 + 2*k.Root.Depth()
		say("open files: %d", o.NoFile)
	}
	for _, n := range fw.SortedKeys(set) {
		o.Env = append(o.Env, n+"="+set[n])
	}
	sort.Strings(o.Env)
	for _, d := range differ {
		c.Class(strings.SplitN(d, ":", 2)[0])
	}
	c.Class("command:" + v[0])
	c.Nontrivial = len(differ) > 1
	r = c.Run(o, as...)
	if err := r.Crash(); err != nil {
		return err
	}
	if k.Year != "" && (time.Now().UTC().YearDay() != today.YearDay() || today.YearDay() == 1 || today.YearDay() > 363) {
		return nil // the day is another one now, or not the same everywhere
	}
	if err := diffText(fmt.Sprintf("gledger %q in plain surroundings and with %q", as, differ), want, out(r, at)); err != nil {
		return fmt.Errorf("%w\n%s", err, shown)
	}
	return nil
}
