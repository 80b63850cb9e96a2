// Package c03: int-range.
package c03

import (
	"strconv"

	"github.com/square/finch/data"
	"github.com/square/finch/zzverif/verif"
)

//verif:opt * rand=1
//verif:assume math/rand functions return any value their documentation allows
//verif:bound min, max, size: any 64-bit values; 2 pairs

func i64(n int64) string { return strconv.FormatInt(n, 10) }

func H_pairs() {
	min := verif.Int64("min", -1<<63, 1<<63-1)
	max := verif.Int64("max", -1<<63, 1<<63-1)
	size := verif.Int64("size", -1<<63, 1<<63-1)
	m := map[string]string{"min": i64(min), "max": i64(max), "size": i64(size)}
	switch verif.Choose("keys", 4) {
	case 1:
		delete(m, "min")
		min = 1
	case 2:
		delete(m, "max")
		max = 100000
	case 3:
		delete(m, "size")
		size = 100
	}
	g, err := data.Make("int-range", "@d", m)
	if err != nil {
		verif.Reach("rejected")
		verif.Assert(min >= max || size < 1 || max-min < 0 || size > max-min, "a valid configuration is accepted")
		return
	}
	verif.Assert(min < max, "an empty range is rejected")
	n, f := g.Format()
	verif.Assert(n == 2 && f == "%d", "format")
	for k := 0; k < 2; k++ {
		if k == 1 {
			g = g.Copy()
		}
		var v []interface{}
		verif.Assert(!verif.Try(func() { v = g.Values(data.RunCount{}) }), "no crash")
		verif.Assert(len(v) == 2, "a pair")
		lo, ok := v[0].(int64)
		up, ok2 := v[1].(int64)
		verif.Assert(ok && ok2, "int64 values")
		verif.Observe("lower", lo)
		verif.Observe("upper", up)
		verif.Assert(min <= lo && lo <= max, "lower in range")
		verif.Assert(min <= up && up <= max, "upper in range")
		verif.Assert(lo <= up, "ordered")
		d := uint64(up) - uint64(lo) // size-1, without wrapping
		verif.Assert(d <= uint64(size)-1, "at most size values")
		verif.Assert(d == uint64(size)-1 || up == max, "exactly size values unless cut short at max")
		verif.Reach("pair")
	}
}
