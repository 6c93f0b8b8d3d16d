package main

import (
	"fmt"

	"github.com/clipperhouse/uax29/v2/verifmon/gen"
	. "github.com/clipperhouse/uax29/v2/verifmon/harness"
	"github.com/clipperhouse/uax29/v2/verifmon/ref"
	"github.com/clipperhouse/uax29/v2/verifmon/sut"
	"github.com/clipperhouse/uax29/v2/verifmon/ucd"
)

// A probe is a context for one code point: what is put before and after it.
type probe struct {
	pre, post       string
	preCls, postCls []ucd.Set
}

func (p probe) pattern(k ref.Kind, s ucd.Set) []int {
	c := append(append(append([]ucd.Set{}, p.preCls...), s), p.postCls...)
	return ref.Boundaries(k, c, nil, nil)
}

// probes picks contexts that tell apart, at least twice where possible, every
// two property sets that any context of the candidate space tells apart.
func probes(k ref.Kind, maxSide int) (chosen []probe, merged int) {
	a := gen.For(k)
	t := k.Table()
	type side struct {
		s string
		c []ucd.Set
	}
	sides := []side{{"", nil}}
	var one []side
	for _, r := range a.Reps {
		one = append(one, side{string(r), []ucd.Set{t[r]}})
	}
	sides = append(sides, one...)
	if maxSide > 1 {
		for _, x := range one {
			for _, y := range one {
				sides = append(sides, side{x.s + y.s, []ucd.Set{x.c[0], y.c[0]}})
			}
		}
	}
	n := len(a.Pools)
	var cands []probe
	for i, p := range sides {
		for j, q := range sides {
			if i > n && j > n {
				continue
			}
			cands = append(cands, probe{p.s, q.s, p.c, q.c})
		}
	}
	// Partition of the classes each candidate induces.
	part := make([][]string, len(cands))
	for i, c := range cands {
		part[i] = make([]string, n)
		for j, p := range a.Pools {
			part[i][j] = fmt.Sprint(c.pattern(k, p.Set))
		}
	}
	need := map[[2]int]int{}
	for i := 0; i < n; i++ {
		for j := i + 1; j < n; j++ {
			cnt := 0
			for c := range cands {
				if part[c][i] != part[c][j] {
					if cnt++; cnt == 2 {
						break
					}
				}
			}
			if cnt == 0 {
				merged++
				continue
			}
			need[[2]int{i, j}] = cnt
		}
	}
	used := make([]bool, len(cands))
	for len(need) > 0 {
		best, gain := -1, 0
		for c := range cands {
			if used[c] {
				continue
			}
			g := 0
			for pr := range need {
				if part[c][pr[0]] != part[c][pr[1]] {
					g++
				}
			}
			if g > gain {
				best, gain = c, g
			}
		}
		if best < 0 {
			break
		}
		used[best] = true
		chosen = append(chosen, cands[best])
		for pr := range need {
			if part[best][pr[0]] != part[best][pr[1]] {
				if need[pr]--; need[pr] == 0 {
					delete(need, pr)
				}
			}
		}
	}
	return chosen, merged
}

// classed: one code point in a context; the boundaries must be those of its
// Unicode 17 property set.
func init() {
	RegisterOracle("classed", func(c *Case) error {
		if err := conform(c); err != nil {
			return fmt.Errorf("U+%04X in context: %w", c.Args[0], err)
		}
		return nil
	})
	Register(&Check{
		ID:    "C05",
		Title: "every code point has its Unicode 17 property in all four tokenizers",
		Rule: "Every scalar value (all 1,112,064) is put into contexts chosen so that any two property sets that can be told apart through the API are told apart by at least two of them; string and byte iterators and split functions, in turn, must break exactly as the embedded Unicode 17 property of that code point says. " +
			"Non-trivial: one (code point, context, tokenizer) triple, distinct by construction.",
		Assumptions: []string{"the embedded Unicode 17 tables (mon/ucd/data) are right; DESIGN.md tells how they were derived and cross-checked"},
		Run: func(x *Ctx) {
			for k := ref.Kind(0); k < 4; k++ {
				k := k
				ps, merged := probes(k, 2)
				x.Set(k.String()+"_contexts", len(ps))
				x.Set(k.String()+"_class_pairs_no_context_separates", merged)
				// Plain contexts as well: alone, doubled, amid ASCII.
				extra := []string{"", "a", "1", " ", "."}
				t := k.Table()
				for _, s := range extra {
					for _, u := range extra {
						p := probe{pre: s, post: u}
						for _, r := range s {
							p.preCls = append(p.preCls, t[r])
						}
						for _, r := range u {
							p.postCls = append(p.postCls, t[r])
						}
						ps = append(ps, p)
					}
				}
				if x.Thorough {
					a := gen.For(k)
					for _, r := range a.Reps {
						for _, q := range a.Reps {
							ps = append(ps, probe{string(r), string(q), []ucd.Set{t[r]}, []ucd.Set{t[q]}})
						}
					}
				}
				// Expected patterns per (probe, class).
				want := make([]map[ucd.Set][]int, len(ps))
				for i, p := range ps {
					want[i] = map[ucd.Set][]int{}
					for _, pool := range gen.For(k).Pools {
						want[i][pool.Set] = p.pattern(k, pool.Set)
					}
				}
				const per = 2048
				x.Parallel("codepoints-"+k.String(), (ucd.MaxRune+1)/per, func(w *W, idx int) {
					var text []byte
					var offs, got []int
					cs := &Case{Oracle: "classed", Kind: k}
					w.Guard(cs, func() error {
						for r := rune(idx * per); r < rune((idx+1)*per); r++ {
							if r >= 0xD800 && r <= 0xDFFF {
								continue
							}
							cls := t[r]
							for i := range ps {
								p := &ps[i]
								text, offs = text[:0], offs[:0]
								for _, q := range p.pre {
									text = append(text, string(q)...)
									offs = append(offs, len(text))
								}
								text = append(text, string(r)...)
								offs = append(offs, len(text))
								for _, q := range p.post {
									text = append(text, string(q)...)
									offs = append(offs, len(text))
								}
								cs.Text = text
								var err error
								switch (int(r) + i) % 3 {
								case 0:
									got, err = sut.Drain(sut.Bytes(k, text), len(text), got)
								case 1:
									got, err = sut.Drain(sut.String(k, string(text)), len(text), got)
								default:
									got, err = sut.SplitEnds(sut.SplitFunc(k), text, got)
								}
								exp := want[i][cls]
								bad := err != nil || len(got) != len(exp)
								for j := 0; !bad && j < len(exp); j++ {
									bad = got[j] != offs[exp[j]-1]
								}
								if bad {
									if w.Judge(&Case{Oracle: "classed", Kind: k, Text: append([]byte{}, text...), Args: []int64{int64(r)}, Fixed: true}) {
										return fmt.Errorf("a mismatch did not repeat: U+%04X got %v want %v", r, got, exp)
									}
									break
								}
							}
							w.Eval(len(ps))
							w.DistinctN(int64(len(ps)))
							w.Count("code points in "+k.String(), 1)
						}
						return nil
					})
					if idx%128 == 0 {
						w.Sample("%v: U+%04X in %d contexts, e.g. after %+q before %+q", k, idx*per, len(ps), ps[0].pre, ps[0].post)
					}
				})
			}
			x.Exhausted("all scalar values in all four tokenizers")
			for k := ref.Kind(0); k < 4; k++ {
				x.Require(x.Counted("code points in "+k.String()) == 1112064, "all scalar values in "+k.String())
			}
		},
	})
}
