package fw

import (
	"encoding/json"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"sync"
	"testing"

	"pgregory.net/rapid"
)

// FuzzLeg is the coverage-guided search for a failing case of the leg named
// by VERIF_FUZZ_LEG, whose draws, or with VERIF_FUZZ_RAW whose text, are what
// the fuzzer changes. The smallest failing case is left in VERIF_FUZZ_OUT.
func FuzzLeg(f *testing.F) {
	var l *Leg
	for _, x := range legs {
		if x.ID() == os.Getenv("VERIF_FUZZ_LEG") {
			l = x
		}
	}
	if l == nil {
		f.Skip("no leg")
	}
	r := &runner{ctx: &Ctx{}, out: os.Getenv("VERIF_FUZZ_OUT"), shard: "fuzz", lib: true}
	r.st.Leg = l.ID()
	var started sync.Once
	check := func(t *rapid.T, raw []byte) error {
		r.ctx.Labels, r.ctx.Nontrivial = nil, false
		started.Do(func() { go r.watch(10) })
		r.beat.Store(cpuTime())
		data, err := l.one(r, t, raw, func(data []byte) {
			if os.Getenv("VERIF_FUZZ_CURRENT") != "" {
				r.save("current", l, data, "the code under test did not return from this case")
			}
		})
		if err != nil {
			if old, e := os.ReadFile(r.file("fail")); e == nil {
				var o struct {
					Case json.RawMessage `json:"case"`
				}
				if json.Unmarshal(old, &o) == nil && len(o.Case) > 0 && len(o.Case) <= len(data) {
					return err
				}
			}
			tmp := filepath.Join(r.out, filepath.Base(os.Args[0])+".tmp")
			b, _ := json.MarshalIndent(map[string]any{"property": l.Prop, "leg": l.ID(), "error": err.Error(), "case": json.RawMessage(data)}, "", " ")
			os.WriteFile(tmp, b, 0o644)
			os.Rename(tmp, r.file("fail"))
		}
		return err
	}
	rnd := rand.New(rand.NewSource(1))
	if os.Getenv("VERIF_FUZZ_RAW") != "" {
		gen := rapid.Custom(MutatedJournal)
		for i := 0; i < 200; i++ {
			f.Add(gen.Example(i))
		}
		f.Fuzz(func(t *testing.T, raw []byte) {
			if err := check(nil, raw); err != nil {
				t.Fatal(err)
			}
		})
		return
	}
	for i := 0; i < 100; i++ {
		b := make([]byte, 200<<uint(i%7))
		rnd.Read(b)
		if i%3 == 0 {
			// the draws of few different values
			for j := range b {
				if rnd.Intn(3) > 0 {
					b[j] = 0
				}
			}
		}
		f.Add(b)
	}
	prop := rapid.MakeFuzz(func(t *rapid.T) {
		if err := check(t, nil); err != nil {
			t.Fatalf("%v", err)
		}
	})
	f.Fuzz(func(t *testing.T, input []byte) {
		// draws beyond the input are of the simplest values or arbitrary, so
		// that no input is too short
		pad := make([]byte, 64<<10)
		if len(input) > 0 && input[0]&1 == 1 {
			h := fnv.New64a()
			h.Write(input)
			rand.New(rand.NewSource(int64(h.Sum64()))).Read(pad)
		}
		prop(t, append(append([]byte{}, input...), pad...))
	})
}
