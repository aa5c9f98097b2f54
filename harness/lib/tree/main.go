// The in-process checks of the account tree and of transactions and amounts
package main

import (
	"errors"
	"fmt"
	"math"
	"math/big"
	"strings"

	"github.com/rikchilvers/gledger/journal"
	"pgregory.net/rapid"
	"verifharness/fw"
)

func main() { fw.Main(true) }

// op is one operation on the tree. Accounts are chosen among those reachable
// from the root in the order of their paths.
type op struct {
	Kind  string   `json:"kind"`
	Node  int      `json:"node"`
	Path  []string `json:"path,omitempty"`
	N     int      `json:"n,omitempty"`
	Names []string `json:"names,omitempty"`
	Q     int64    `json:"q,omitempty"`
	Tree  int      `json:"tree,omitempty"` // which of the trees
	// Quiet leaves the methods of the accounts uncalled after the operation
	Quiet bool `json:"quiet,omitempty"`
}

type treeCase struct {
	Budget bool `json:"budget"`
	Ops    []op `json:"ops"`
}

// node is the model of an account
type node struct {
	name   string
	path   []string
	parent *node
	kids   map[string]*node
	acc    *journal.Account
	q      int64
}

func (n *node) all(r []*node) []*node {
	r = append(r, n)
	for _, k := range fw.SortedKeys(n.kids) {
		r = n.kids[k].all(r)
	}
	return r
}

func (n *node) height() int {
	h := 0
	for _, k := range n.kids {
		if x := k.height() + 1; x > h {
			h = x
		}
	}
	return h
}

// component names; the roots' names are not for accounts
var compNames = []string{"A", "B", "C", "a", "Expenses", "Income", "Food", "x y", "日本", "Assets", "é", "1", "A B", "Z", "root", "_root", "b", "Funds", "A ", " A", "Food ", "a b", "expenses", "e\u0301", "AA", "A\u00a0", "Root", "-", "*"}

func drawPath(t *rapid.T, max int) []string {
	n := fw.Int(t, 1, max, "length")
	var p []string
	for i := 0; i < n; i++ {
		if fw.Chance(t, 4, "more names") {
			p = append(p, rapid.SampledFrom(compNames).Draw(t, "name"))
		} else {
			p = append(p, fw.OneOf(t, "name", "A", "B", "C"))
		}
	}
	return p
}

func init() {
	fw.Register("C20", "tree", 60000, 1500000,
		"a sequence of 1-40 operations on one to three account trees (look-ups that create, from the root or an inner account, unlinking, unlinking again, pruning to a depth, removing by name or by amount, searches), every whole tree compared with its model after each (and in half the cases the methods of the accounts called only now and then), and what earlier searches returned with what it was; non-trivial if accounts are removed and created again",
		func(t *rapid.T) treeCase {
			k := treeCase{Budget: fw.Chance(t, 4, "budget")}
			n := fw.Int(t, 1, 40, "operations")
			trees := fw.OneOf(t, "trees", 1, 1, 1, 2, 3)
			quiet := fw.Chance(t, 2, "quiet")
			for i := 0; i < n; i++ {
				o := op{Kind: fw.OneOf(t, "kind", "find", "find", "find", "find", "unlink", "amount", "amount", "remove", "empty", "prune", "search", "leaves", "inner", "again"), Node: fw.Int(t, 0, 60, "node")}
				if trees > 1 {
					o.Tree = fw.Int(t, 0, trees-1, "tree")
				}
				if quiet {
					o.Quiet = !fw.Chance(t, 3, "asked")
				}
				switch o.Kind {
				case "find", "inner":
					o.Path = drawPath(t, 6)
					if fw.Chance(t, 200, "deep") {
						o.Path = drawPath(t, fw.OneOf(t, "deeper", 20, 20, 20, 60, 60, 60, 60, 200))
					}
				case "amount":
					o.Q = int64(fw.OneOf(t, "amount", 1, -1, 0, 5, -5, 100))
				case "prune":
					o.N = fw.Int(t, 0, 6, "depth")
					o.Q = int64(fw.Int(t, 0, 3, "current"))
				case "remove", "search":
					o.Names = drawPath(t, 3)
					o.N = fw.Int(t, 0, 3, "condition")
				}
				if o.Kind == "inner" && fw.Chance(t, 60, "many") {
					// many look-ups that create siblings
					o.Kind, o.N = "many", fw.Int(t, 10, 150, "children")
				}
				k.Ops = append(k.Ops, o)
			}
			return k
		}, checkTree)

	fw.Register("C01", "close", 80000, 600000,
		"a transaction of 0-8 postings with amounts up to the edges of 64 bits, some omitted, added one by one and closed; it must be accepted exactly if the model says so and hold the model's amounts; non-trivial if an amount is omitted or the sums leave 64 bits",
		drawClose, checkClose)

	fw.Register("C02", "display", 50000, 400000,
		"an amount of any 64-bit number of hundredths and a commodity, shown; must be the exact decimal; non-trivial if it is negative, below one unit or above 2^53",
		func(t *rapid.T) amountCase {
			k := amountCase{C: rapid.SampledFrom(fw.Commodities).Draw(t, "commodity")}
			switch fw.Int(t, 0, 4, "kind") {
			case 4:
				k.Q = fw.RoundNumber(t, 17)
			case 0:
				k.Q = rapid.Int64().Draw(t, "q")
			case 1:
				k.Q = int64(fw.Int(t, -200, 200, "q"))
			case 2:
				k.Q = int64(1)<<uint(fw.Int(t, 0, 62, "log")) + int64(fw.Int(t, -2, 2, "off"))
				if rapid.Bool().Draw(t, "negative") {
					k.Q = -k.Q
				}
			case 3:
				k.Q = math.MaxInt64 - int64(fw.Int(t, 0, 200, "off"))
				if rapid.Bool().Draw(t, "negative") {
					k.Q = -k.Q
				}
			}
			if k.Q == math.MinInt64 {
				k.Q++
			}
			return k
		},
		func(c *fw.Ctx, k *amountCase) error {
			a := journal.NewAmount(k.C, k.Q)
			c.Nontrivial = k.Q < 0 || k.Q < 100 || k.Q > 1<<53
			if s, want := a.DisplayableQuantity(false), fw.FormatQ(k.Q); s != want {
				return fmt.Errorf("%d hundredths are shown as %q, want %q", k.Q, s, want)
			}
			if s, want := a.DisplayableQuantity(true), k.C+fw.FormatQ(k.Q); s != want {
				return fmt.Errorf("%d hundredths in %q are shown as %q, want %q", k.Q, k.C, s, want)
			}
			return nil
		})
}

type amountCase struct {
	C string `json:"c"`
	Q int64  `json:"q"`
}

var errStop = errors.New("stop")

// verify compares a tree with its model. If quiet it only looks at the fields.
func verify(root *journal.Account, m *node, quiet bool) error {
	var walk func(a *journal.Account, n *node) error
	walk = func(a *journal.Account, n *node) error {
		at := strings.Join(n.path, ":")
		if n.acc == nil {
			n.acc = a
		} else if n.acc != a {
			return fmt.Errorf("%q is another account than before", at)
		}
		if n.parent != nil {
			if a.Name != n.name {
				return fmt.Errorf("%q is named %q", at, a.Name)
			}
			if a.Parent != n.parent.acc {
				return fmt.Errorf("%q does not have its parent as Parent", at)
			}
			if a.Path != at {
				return fmt.Errorf("%q has the path %q", at, a.Path)
			}
			if !quiet {
				if p := a.CreatePath(); p != at {
					return fmt.Errorf("%q creates the path %q", at, p)
				}
				up := n
				for up.parent.parent != nil {
					up = up.parent
				}
				if head := a.Head(); head != up.acc {
					return fmt.Errorf("the head of %q is %q", at, head.Name)
				}
			}
			if strings.Join(a.PathComponents, "\x00") != strings.Join(n.path, "\x00") {
				return fmt.Errorf("%q has the path components %q", at, a.PathComponents)
			}
		}
		if !quiet {
			up := n
			if err := a.WalkAncestors(func(x *journal.Account) error {
				if up == nil || up.acc != x {
					return fmt.Errorf("walking the ancestors of %q meets %q", at, x.Name)
				}
				up = up.parent
				return nil
			}); err != nil {
				return err
			}
			if up != nil {
				return fmt.Errorf("walking the ancestors of %q ends before the root", at)
			}
			// an action that fails at one of them
			calls, last := 0, 1+len(at)%(len(n.path)+1)
			err := a.WalkAncestors(func(x *journal.Account) error {
				if calls++; calls >= last {
					return errStop
				}
				return nil
			})
			if err != errStop {
				return fmt.Errorf("walking the ancestors of %q returns %v in place of the action's error", at, err)
			}
			if calls != last {
				return fmt.Errorf("walking the ancestors of %q calls an action that fails on call %d %d times", at, last, calls)
			}
		}
		if a.Amount.Quantity != n.q {
			return fmt.Errorf("the amount of %q changed to %d from %d", at, a.Amount.Quantity, n.q)
		}
		for _, k := range fw.SortedKeys(a.Children) {
			if n.kids[k] == nil {
				return fmt.Errorf("%q should not have a child %q", at, k)
			}
		}
		names := fw.SortedKeys(n.kids)
		for _, k := range names {
			if a.Children[k] == nil {
				return fmt.Errorf("%q should have a child %q", at, k)
			}
			if err := walk(a.Children[k], n.kids[k]); err != nil {
				return err
			}
		}
		if quiet {
			return nil
		}
		if got := a.SortedChildNames(); strings.Join(got, "\x00") != strings.Join(names, "\x00") {
			return fmt.Errorf("%q has the sorted child names %q, want %q", at, got, names)
		}
		return nil
	}
	return walk(root, m)
}

// condition of a search or removal
func (o op) matches(name, path string, depth int, q int64) bool {
	for _, n := range o.Names {
		switch o.N {
		case 0:
			if name == n {
				return true
			}
		case 1:
			if strings.Contains(path, n) {
				return true
			}
		case 2:
			if name == n && q != 0 {
				return true
			}
		case 3:
			if depth == len(o.Names) {
				return true
			}
		}
	}
	return false
}

// tree is a tree under test and its model
type tree struct {
	root     *journal.Account
	m        *node
	unlinked []*journal.Account
	removed  map[string]bool
	found    []found
}

// found is what a search returned
type found struct {
	op        int
	got, copy []*journal.Account
}

func (x *tree) keep(op int, got []*journal.Account) []*journal.Account {
	x.found = append(x.found, found{op, got, append([]*journal.Account{}, got...)})
	return got
}

// unchanged verifies that later operations leave the results of searches alone
func (x *tree) unchanged() error {
	for _, f := range x.found {
		for i, a := range f.copy {
			if f.got[i] != a {
				return fmt.Errorf("the result of operation %d now has %q in place of %q", f.op+1, f.got[i].Path, a.Path)
			}
		}
	}
	return nil
}

func checkTree(c *fw.Ctx, k *treeCase) error {
	id := journal.RootID
	if k.Budget {
		id = journal.BudgetRootID
	}
	var trees []*tree
	for _, o := range k.Ops {
		for len(trees) <= o.Tree {
			trees = append(trees, &tree{root: journal.NewAccount(id), m: &node{name: id, kids: map[string]*node{}}, removed: map[string]bool{}})
			// the trees are of both kinds
			if id == journal.RootID {
				id = journal.BudgetRootID
			} else {
				id = journal.RootID
			}
		}
	}
	verifyAll := func(quiet bool) error {
		for i, x := range trees {
			err := verify(x.root, x.m, quiet)
			if err == nil {
				err = x.unchanged()
			}
			if err != nil {
				if len(trees) > 1 {
					err = fmt.Errorf("tree %d: %w", i, err)
				}
				return err
			}
		}
		return nil
	}
	if err := verifyAll(false); err != nil {
		return err
	}
	again := false
	var removed map[string]bool
	drop := func(n *node) {
		for _, x := range n.all(nil) {
			removed[strings.Join(x.path, ":")] = true
		}
		delete(n.parent.kids, n.name)
	}
	for i, o := range k.Ops {
		tr := trees[o.Tree]
		m := tr.m
		removed = tr.removed
		nodes := m.all(nil)
		n := nodes[o.Node%len(nodes)]
		fail := func(err error) error {
			if err == nil {
				return nil
			}
			return fmt.Errorf("operation %d, %+v at %q: %w", i+1, o, strings.Join(n.path, ":"), err)
		}
		match := func(a journal.Account) bool {
			path := a.Path
			depth := 0
			for p := a.Parent; p != nil; p = p.Parent {
				depth++
			}
			if depth == 0 {
				path = ""
			}
			return o.matches(a.Name, path, depth, a.Amount.Quantity)
		}
		matchN := func(x *node) bool { return o.matches(x.name, strings.Join(x.path, ":"), len(x.path), x.q) }
		sameSet := func(got []*journal.Account, want func(*node) bool) error {
			w := map[*journal.Account]string{}
			for _, x := range n.all(nil) {
				if want(x) {
					w[x.acc] = strings.Join(x.path, ":")
				}
			}
			for _, a := range got {
				if _, ok := w[a]; !ok {
					return fmt.Errorf("%q was found twice or should not be", a.Path)
				}
				delete(w, a)
			}
			for _, p := range w {
				return fmt.Errorf("%q was not found", p)
			}
			return nil
		}
		var remove func(x *node, keep func(*node) bool) bool
		remove = func(x *node, keep func(*node) bool) bool {
			kept := keep(x)
			for _, name := range fw.SortedKeys(x.kids) {
				kid := x.kids[name]
				if remove(kid, keep) {
					kept = true
				} else {
					drop(kid)
				}
			}
			return kept
		}
		switch o.Kind {
		case "find", "inner":
			if o.Kind == "find" {
				n = m
			}
			x := n
			for _, p := range o.Path {
				if x.kids[p] == nil {
					y := &node{name: p, path: append(append([]string{}, x.path...), p), parent: x, kids: map[string]*node{}}
					x.kids[p] = y
					again = again || removed[strings.Join(y.path, ":")]
				}
				x = x.kids[p]
			}
			comps := append(make([]string, 0, 12), o.Path...)
			a := n.acc.FindOrCreateAccount(comps)
			// the caller may use its slice again
			for j := range comps {
				comps[j] = "used again"
			}
			if err := verifyAll(o.Quiet); err != nil {
				return fail(err)
			}
			if a != x.acc {
				return fail(fmt.Errorf("did not return the account at the path"))
			}
		case "many":
			x := n
			for _, p := range o.Path {
				if x.kids[p] == nil {
					x.kids[p] = &node{name: p, path: append(append([]string{}, x.path...), p), parent: x, kids: map[string]*node{}}
				}
				x = x.kids[p]
			}
			for j := 0; j < o.N; j++ {
				name := fmt.Sprintf("N%d", j)
				if x.kids[name] == nil {
					x.kids[name] = &node{name: name, path: append(append([]string{}, x.path...), name), parent: x, kids: map[string]*node{}}
				}
				n.acc.FindOrCreateAccount(append(append([]string{}, o.Path...), name))
			}
		case "amount":
			n.q += o.Q
			n.acc.Amount.Quantity += o.Q
		case "unlink":
			if n.parent == nil {
				continue
			}
			drop(n)
			n.acc.Unlink()
			tr.unlinked = append(tr.unlinked, n.acc)
		case "again":
			// an account that is no longer in the tree
			if len(tr.unlinked) == 0 {
				continue
			}
			tr.unlinked[o.Node%len(tr.unlinked)].Unlink()
		case "prune":
			target := o.N
			var walk func(x *node, d int)
			walk = func(x *node, d int) {
				if d == target {
					for _, name := range fw.SortedKeys(x.kids) {
						drop(x.kids[name])
					}
					return
				}
				for _, name := range fw.SortedKeys(x.kids) {
					walk(x.kids[name], d+1)
				}
			}
			walk(n, 0)
			n.acc.PruneChildren(target+int(o.Q), int(o.Q))
		case "remove":
			remove(n, matchN)
			n.acc.RemoveChildren(match)
		case "empty":
			remove(n, func(x *node) bool { return x.q != 0 })
			n.acc.RemoveEmptyChildren()
		case "search":
			if err := sameSet(tr.keep(i, n.acc.FindAccounts(match)), matchN); err != nil {
				return fail(err)
			}
		case "leaves":
			if err := sameSet(tr.keep(i, n.acc.Leaves()), func(x *node) bool { return len(x.kids) == 0 }); err != nil {
				return fail(err)
			}
		}
		if err := verifyAll(o.Quiet); err != nil {
			return fail(err)
		}
		c.Class("operation:" + o.Kind)
	}
	if err := verifyAll(false); err != nil {
		return err
	}
	c.Nontrivial = again
	if again {
		c.Class("created again")
	}
	if len(trees) > 1 {
		c.Class("several trees")
	}
	h := 0
	for _, x := range trees {
		if y := x.m.height(); y > h {
			h = y
		}
	}
	if h > 9 {
		c.Class("height:10+")
	} else {
		c.Class(fmt.Sprintf("height:%d", h))
	}
	return nil
}

type closeCase struct {
	Q      []int64 `json:"q"`
	Elided []bool  `json:"elided"`
	C      string  `json:"c"`
}

func drawClose(t *rapid.T) closeCase {
	k := closeCase{C: fw.OneOf(t, "commodity", "", "£", "GBP ")}
	if fw.Chance(t, 10, "wrap") {
		// amounts far from the limits whose sum is a multiple of 2^64
		log := fw.Int(t, 2, 7, "log")
		q := int64(fw.OneOf(t, "sign", 1, -1)) << (64 - log)
		for i := 0; i < 1<<log; i++ {
			k.Q, k.Elided = append(k.Q, q), append(k.Elided, false)
		}
		d := int64(fw.Int(t, -1000, 1000, "move"))
		k.Q[0] += d
		k.Q[1] -= d
		return k
	}
	n := fw.Int(t, 0, 8, "postings")
	sum := new(big.Int)
	for i := 0; i < n; i++ {
		var q int64
		switch fw.Int(t, 0, 4, "kind") {
		case 0:
			q = int64(fw.Int(t, -3, 3, "q"))
		case 1:
			q = int64(fw.Int(t, -100000, 100000, "q"))
		case 2:
			q = math.MaxInt64 - int64(fw.Int(t, 0, 3, "off"))
		case 3:
			q = -math.MaxInt64 + int64(fw.Int(t, 0, 3, "off"))
		case 4:
			q = int64(1) << uint(fw.Int(t, 0, 62, "log"))
		}
		e := fw.Chance(t, 6, "elided")
		if i == n-1 && !e && fw.Chance(t, 3, "settle") {
			if s := new(big.Int).Neg(sum); s.IsInt64() && s.Int64() != math.MinInt64 {
				q = s.Int64()
			}
		}
		if !e {
			sum.Add(sum, big.NewInt(q))
		} else {
			q = 0
		}
		k.Q, k.Elided = append(k.Q, q), append(k.Elided, e)
	}
	return k
}

func checkClose(c *fw.Ctx, k *closeCase) error {
	sum := new(big.Int)
	elided, at := 0, -1
	for i, q := range k.Q {
		if k.Elided[i] {
			elided++
			at = i
		} else {
			sum.Add(sum, big.NewInt(q))
		}
	}
	need := new(big.Int).Neg(sum)
	accept := elided == 1 && need.IsInt64() || elided == 0 && sum.Sign() == 0
	if elided == 1 && (!need.IsInt64() || need.Int64() == math.MinInt64) {
		c.Class("does not fit")
		if need.IsInt64() {
			return nil
		}
	}
	c.Nontrivial = elided > 0 || !sum.IsInt64()
	t := journal.NewTransaction()
	var ps []*journal.Posting
	var err error
	for i, q := range k.Q {
		p := journal.NewPosting()
		p.Transaction = &t
		p.AccountPath = fmt.Sprintf("A%d", i)
		if !k.Elided[i] {
			p.Amount = journal.NewAmount(k.C, q)
		} else {
			p.Amount = nil
		}
		ps = append(ps, p)
		if err = t.AddPosting(p); err != nil {
			break
		}
	}
	if err == nil {
		err = t.Close()
	}
	if !accept {
		c.Class("rejected")
		if err == nil {
			return fmt.Errorf("accepted with a sum of %v hundredths and %d amounts omitted", sum, elided)
		}
		return nil
	}
	c.Class("accepted")
	if err != nil {
		return fmt.Errorf("rejected: %w", err)
	}
	for i, p := range ps {
		want := k.Q[i]
		if i == at {
			want = need.Int64()
		}
		if p.Amount == nil || p.Amount.Quantity != want {
			return fmt.Errorf("posting %d has the amount %v, want %d hundredths", i+1, p.Amount, want)
		}
	}
	if len(t.Postings) != len(ps) {
		return fmt.Errorf("%d postings, want %d", len(t.Postings), len(ps))
	}
	return nil
}
