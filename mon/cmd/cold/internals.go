//go:build internals

package main

import (
	"fmt"
	"hash/fnv"

	"github.com/clipperhouse/uax29/v2/internal/iterators"
	"github.com/clipperhouse/uax29/v2/internal/iterators/filter"
	"github.com/clipperhouse/uax29/v2/words"
)

func init() {
	internals = append(internals,
		func(data []byte) uint64 {
			h := fnv.New64a()
			for i := range data {
				fmt.Fprint(h, filter.AlphaNumeric(data[i:min(i+6, len(data))]))
			}
			return h.Sum64()
		},
		func(data []byte) uint64 {
			return drain[[]byte](iterators.New(iterators.SplitFunc[[]byte](words.SplitFunc), data))
		})
}
