package ref_test

import (
	"reflect"
	"testing"

	"github.com/clipperhouse/uax29/v2/verifmon/gen"
	"github.com/clipperhouse/uax29/v2/verifmon/ref"
)

func TestLinear(t *testing.T) {
	for k := ref.Kind(0); k < 4; k++ {
		for i := 0; i < 300000; i++ {
			r := gen.NewRng(7, uint64(i))
			s, m := gen.Text(r, k, gen.Medium)
			cls, _ := ref.Classes(k.Table(), []byte(s), nil, nil)
			if len(cls) > 400 {
				continue
			}
			a := ref.Boundaries(k, cls, nil, nil)
			b := ref.BoundariesLinear(k, cls, nil)
			if !reflect.DeepEqual(a, b) {
				t.Fatalf("%v %s %+q: naive %v linear %v", k, gen.ModeNames[m], s, a, b)
			}
		}
	}
}
