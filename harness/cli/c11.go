package main

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"
	"verifharness/fw"
)

type smartCase struct {
	Text    string `json:"text"`
	Begin   bool   `json:"begin"`
	Zone    string `json:"zone"`
	Command string `json:"command"`
	Only    bool   `json:"only"` // give the other flag too
}

func init() {
	fw.Register("C11", "flags", 22500, 120000,
		"a date argument in one of the short forms, or nearly one, given to --begin or --end with a journal that has transactions the day before, on and after the day it denotes; non-trivial if it is a short form or is refused",
		func(t *rapid.T) smartCase {
			return smartCase{Text: fw.SmartText(t), Begin: rapid.Bool().Draw(t, "begin"), Zone: fw.OneOf(t, "zone", "UTC", "America/New_York", "Pacific/Kiritimati"), Command: fw.OneOf(t, "command", reports...)}
		},
		func(c *fw.Ctx, k *smartCase) error {
			if k.Text == "" || strings.ContainsRune(k.Text, 0) {
				k.Text = "x"
			}
			for {
				year := zoneNow(k.Zone).Year()
				err := k.check(c, year)
				if zoneNow(k.Zone).Year() == year {
					return err
				}
			}
		})
}

func (k *smartCase) check(c *fw.Ctx, year int) error {
	d, ok := fw.SmartDate(k.Text, year)
	flag := "--end=" + k.Text
	if k.Begin {
		flag = "--begin=" + k.Text
	}
	tz := []string{"TZ=" + k.Zone}
	if !ok {
		c.Class("refused")
		c.Nontrivial = true
		es := []fw.Entry{{T: &fw.Txn{Date: "2020-01-01", Payee: "p1", Postings: []fw.Posting{{Account: "A", Q: 100}, {Account: "B", Q: -100}}}},
			{T: &fw.Txn{Date: fmt.Sprintf("%d-06-15", year), Payee: "p2", Postings: []fw.Posting{{Account: "A", Q: 100}, {Account: "B", Q: -100}}}}}
		c.Write(jfile, fw.Render(es, nil, false))
		r := c.GlEnv(tz, k.Command, "-f", jfile, flag)
		if err := r.Refused(k.Command, names(es)); err != nil {
			return fmt.Errorf("%s: %w", flag, err)
		}
		return nil
	}
	c.Class(fmt.Sprintf("form of %d bytes", len(k.Text)))
	c.Nontrivial = len(k.Text) < 10
	var es []fw.Entry
	for _, o := range []int{1, -1, 0, 31, -31, 366, -366} {
		x := fw.AddDays(d, o)
		if len(x) != 10 || x < "0002" {
			continue
		}
		es = append(es, fw.Entry{T: &fw.Txn{Date: x, Payee: fmt.Sprintf("p%d", o), Postings: []fw.Posting{{Account: "A", Q: 100}, {Account: "B", Q: -100}}}})
	}
	c.Write(jfile, fw.Render(es, nil, false))
	out, err := c.GlEnv(tz, "print", "-f", jfile, flag).OK()
	if err != nil {
		return fmt.Errorf("%s (%s): %w", flag, d, err)
	}
	got, err := fw.ParsePrint(out)
	if err != nil {
		return err
	}
	s := fw.Sel{End: d}
	if k.Begin {
		s = fw.Sel{Begin: d}
	}
	if err := sameDates(got, ptxns(fw.ByDate(fw.Select(fw.Txns(es), s)))); err != nil {
		return fmt.Errorf("%s, which is %s: %w", flag, d, err)
	}
	return nil
}
