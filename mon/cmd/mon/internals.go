//go:build internals

package main

import (
	"fmt"
	"hash/fnv"

	"github.com/clipperhouse/uax29/v2/internal/iterators"
	"github.com/clipperhouse/uax29/v2/internal/iterators/filter"
	"github.com/clipperhouse/uax29/v2/verifmon/ref"
	"github.com/clipperhouse/uax29/v2/verifmon/sut"
	"github.com/clipperhouse/uax29/v2/words"
)

func init() {
	failing = append(failing,
		func(how int, first bool) {
			it := iterators.New(failingSplit[string](how), "ab cd")
			it.Next()
			failNow[string](it, first)
		},
		func(how int, first bool) {
			it := iterators.New(failingSplit[[]byte](how), []byte("ab cd"))
			it.Next()
			failNow[[]byte](it, first)
		})
	extraTasks = append(extraTasks,
		func(s string, b []byte) task {
			return task{"filter", func(step func()) uint64 {
				h := fnv.New64a()
				w := words.FromBytes(b)
				for w.Next() {
					fmt.Fprint(h, filter.AlphaNumeric(w.Value()))
					step()
				}
				return h.Sum64()
			}}
		},
		func(s string, b []byte) task {
			return task{"generic iterator", func(step func()) uint64 {
				k := ref.Kind(len(b) % 4)
				return digestIter[[]byte](iterators.New(iterators.SplitFunc[[]byte](sut.SplitFunc(k)), b), step)
			}}
		})
	extraRetention = append(extraRetention,
		func(p *watches, text, other []byte) any {
			memory := p.text("what the split function of a generic iterator that is gone holds", []byte("split"))
			split := func(d []byte, eof bool) (int, []byte, error) {
				memory[0]++
				return words.SplitFunc(d, eof)
			}
			dropped[[]byte](iterators.New(iterators.SplitFunc[[]byte](split), p.text("the bytes of a generic iterator that is gone", text)), len(text)%7)
			it := iterators.New(iterators.SplitFunc[[]byte](sut.SplitFunc(ref.Graphemes)), p.text("the bytes of a generic iterator before SetText", text))
			it.First()
			partly[[]byte](it, len(text)%5)
			it.SetText(other)
			return it
		},
		func(p *watches, text, other []byte) any {
			filter.AlphaNumeric(p.text("the argument of the filter", text))
			return nil
		})
}
