package main

import (
	"fmt"
	"strings"
	"time"

	"pgregory.net/rapid"
	"verifharness/fw"
)

var zones = []string{"UTC", "Etc/GMT+12", "Etc/GMT-14", "Pacific/Kiritimati", "Pacific/Pago_Pago", "America/New_York", "Europe/London", "Asia/Kolkata", "Asia/Tokyo", "Australia/Sydney", "America/Sao_Paulo", "America/Havana", "America/Santiago", "Asia/Beirut", "Africa/Cairo", "Pacific/Apia", "Asia/Tehran", "Atlantic/Azores"}

// days around which some zone skips midnight or a whole day
var gapDays = []string{"2018-11-04", "2017-10-15", "2020-03-08", "2021-03-14", "2019-09-08", "2020-09-06", "2021-03-28", "2011-12-30", "2020-03-29", "2020-10-25", "2020-03-21"}

type rangeCase struct {
	JCase
	Sel     fw.Sel   `json:"sel"`
	Zone    string   `json:"zone"`
	Command []string `json:"command"`
	Sep     string   `json:"sep"`
	Short   bool     `json:"short,omitempty"` // bounds on a first of the month or year are written without it
}

func onlyIn(es []fw.Entry, keep func(date string) bool) []fw.Entry {
	var r []fw.Entry
	for _, e := range es {
		if e.T == nil || keep(e.T.Date) {
			r = append(r, e)
		}
	}
	return r
}

func rangeArgs(s fw.Sel, sep string, short bool) []string {
	var a []string
	f := func(d string) string {
		if short {
			d = strings.TrimSuffix(strings.TrimSuffix(d, "-01"), "-01")
		}
		return strings.ReplaceAll(d, "-", sep)
	}
	if s.Begin != "" {
		a = append(a, "-b", f(s.Begin))
	}
	if s.End != "" {
		a = append(a, "-e", f(s.End))
	}
	return append(a, s.Filters...)
}

func zoneNow(zone string) time.Time {
	loc, err := time.LoadLocation(zone)
	if err != nil {
		fw.Harness("%v", err)
	}
	return time.Now().In(loc)
}

type currentCase struct {
	Offsets []int    `json:"offsets"` // days from today, UTC
	Sel     fw.Sel   `json:"sel"`
	Zone    string   `json:"zone"`
	Command []string `json:"command"`
	Flag    string   `json:"flag"`
}

func init() {
	fw.Register("C10", "range", 15000, 130000,
		"a journal of 1-10 transactions on a few neighbouring days and a range with --begin and/or --end on or near them (sometimes as a month or a year), in one of 18 time zones (some without a midnight on such days); every report command must report as on the journal with just the transactions in range, and print must show those of the model; non-trivial if some transactions are in range and some are not",
		func(t *rapid.T) rangeCase {
			var k rangeCase
			o := fw.Opt{Min: 1, Max: 10, Commodity: true, Far: true, Money: rapid.Bool().Draw(t, "money")}
			if fw.Chance(t, 2, "gap") {
				d := rapid.SampledFrom(gapDays).Draw(t, "gapday")
				o.FixedDates = []string{d, fw.AddDays(d, -1), fw.AddDays(d, 1)}
			}
			v := fw.NewVocab(t, o)
			k.Entries = fw.Entries(t, v, o)
			k.Layout = fw.DrawLayout(t)
			near := func(l string) string {
				d := fw.AddDays(rapid.SampledFrom(fw.Txns(k.Entries)).Draw(t, l).Date, fw.OneOf(t, l+"off", 0, 1, -1, 0, 30))
				if k.Short {
					// on the first of its month or of its year
					d = d[:8] + "01"
					if fw.Chance(t, 4, "year") {
						d = d[:5] + "01-01"
					}
				}
				return d
			}
			k.Short = fw.Chance(t, 4, "short")
			w := fw.Int(t, 0, 2, "which")
			if w != 1 {
				k.Sel.Begin = near("begin")
			}
			if w != 0 {
				k.Sel.End = near("end")
			}
			if fw.Chance(t, 4, "filter") {
				k.Sel.Filters = fw.Filters(t, k.Entries, 1, 2)
			}
			k.Zone = rapid.SampledFrom(zones).Draw(t, "zone")
			k.Command = rapid.SampledFrom(variants).Draw(t, "command")
			k.Sep = fw.OneOf(t, "sep", "-", "/", ".")
			return k
		},
		func(c *fw.Ctx, k *rangeCase) error {
			text := fw.Render(k.Entries, k.Layout, true)
			fargs := k.Sel.Filters
			if (k.Command[0] == "accounts" || k.Command[0] == "payees") && len(fargs) > 0 {
				fargs = nil
			}
			sel := fw.Sel{Begin: k.Sel.Begin, End: k.Sel.End, Filters: fargs}
			in := onlyIn(k.Entries, sel.InRange)
			n, m := len(fw.Txns(k.Entries)), len(fw.Txns(in))
			c.Nontrivial = m > 0 && m < n
			c.Class("zone:"+k.Zone, "command:"+k.Command[0])
			switch m {
			case 0:
				c.Class("selects none")
			case n:
				c.Class("selects all")
			default:
				c.Class("selects some")
			}
			tz := []string{"TZ=" + k.Zone}
			c.Write(jfile, text)
			ctxt := fmt.Sprintf("%v %v in %s", k.Command, rangeArgs(sel, k.Sep, k.Short), k.Zone)
			a, err := c.GlEnv(tz, args(k.Command, "-f", jfile, rangeArgs(sel, k.Sep, k.Short))...).OK()
			if err != nil {
				return with(ctxt, err, text)
			}
			p, err := c.GlEnv(tz, args("print", "-f", jfile, rangeArgs(fw.Sel{Begin: sel.Begin, End: sel.End}, k.Sep, k.Short))...).OK()
			if err != nil {
				return with(ctxt, err, text)
			}
			got, err := fw.ParsePrint(p)
			if err != nil {
				return with(ctxt, err, text)
			}
			want := ptxns(fw.ByDate(fw.Select(fw.Txns(k.Entries), fw.Sel{Begin: sel.Begin, End: sel.End})))
			if err := sameDates(got, want); err != nil {
				return with(ctxt, err, text)
			}
			c.Write(jfile, fw.Render(in, k.Layout, true))
			b, err := c.Gl(args(k.Command, "-f", jfile, fargs)...).OK()
			if err != nil {
				return with(ctxt, err, text)
			}
			return with(ctxt, diffText("the report of the range and of the journal cut down to it", a, b), text)
		})

	fw.Register("C10", "current", 6000, 40000,
		"transactions from three days before to three days after today, with --current (and often --begin and --end, which it overrides), in one of 18 time zones; every report command must report as on the journal with just the transactions dated today or earlier by the zone's calendar; non-trivial if some are and some are not",
		func(t *rapid.T) currentCase {
			k := currentCase{Offsets: rapid.SliceOfN(rapid.IntRange(-3, 3), 1, 6).Draw(t, "offsets"), Flag: fw.OneOf(t, "flag", "-c", "--current")}
			if fw.Chance(t, 3, "far") {
				k.Offsets = append(k.Offsets, fw.Int(t, -400, 400, "far"))
			}
			if rapid.Bool().Draw(t, "begin") {
				k.Sel.Begin = fw.OneOf(t, "begin", "2000-01-01", "2090-01-01", "2020-02-29")
			}
			if rapid.Bool().Draw(t, "end") {
				k.Sel.End = fw.OneOf(t, "end", "2000-01-01", "2090-01-01", "2020-02-29")
			}
			k.Zone = rapid.SampledFrom(zones).Draw(t, "zone")
			k.Command = rapid.SampledFrom(variants).Draw(t, "command")
			return k
		},
		func(c *fw.Ctx, k *currentCase) error {
			for {
				now := zoneNow(k.Zone)
				err := k.check(c, now)
				if zoneNow(k.Zone).Format("2006-01-02") == now.Format("2006-01-02") {
					return err
				}
			}
		})
}

func (k *currentCase) check(c *fw.Ctx, now time.Time) error {
	today := now.Format("2006-01-02")
	utc := now.UTC().Format("2006-01-02")
	var es []fw.Entry
	for i, o := range k.Offsets {
		es = append(es, fw.Entry{T: &fw.Txn{Date: fw.AddDays(utc, o), Payee: fmt.Sprintf("p%d", i), Postings: []fw.Posting{
			{Account: fmt.Sprintf("Expenses:E%d", i), Q: int64(i+1) * 100}, {Account: "Income", Q: int64(i+1) * -100}}}})
	}
	in := onlyIn(es, func(d string) bool { return d <= today })
	c.Nontrivial = len(in) > 0 && len(in) < len(es)
	c.Class("zone:"+k.Zone, "command:"+k.Command[0])
	if today != utc {
		c.Class("local date differs from UTC")
	}
	text := fw.Render(es, nil, false)
	c.Write(jfile, text)
	a, err := c.GlEnv([]string{"TZ=" + k.Zone}, args(k.Command, "-f", jfile, k.Flag, k.Sel.Args())...).OK()
	if err != nil {
		return with("current", err, text)
	}
	c.Write(jfile, fw.Render(in, nil, false))
	b, err := c.Gl(args(k.Command, "-f", jfile)...).OK()
	if err != nil {
		return with("current", err, text)
	}
	if k.Command[0] == "statistics" {
		a, b = fw.NoRelTime(a), fw.NoRelTime(b)
	}
	return with(fmt.Sprintf("%v %v in %s (today is %s)", k.Command, k.Flag, k.Zone, today), diffText("the report with --current and of the journal up to today", a, b), text)
}

func sameDates(got, want []*fw.Txn) error {
	g, w := []string{}, []string{}
	for _, x := range got {
		g = append(g, x.Date+" "+x.Payee)
	}
	for _, x := range want {
		w = append(w, x.Date+" "+x.Payee)
	}
	if strings.Join(g, "\n") != strings.Join(w, "\n") {
		return fmt.Errorf("selected %q, want %q", g, w)
	}
	return nil
}
