// Package c02: int-gaps.
package c02

import (
	"fmt"
	"strconv"

	"github.com/square/finch/data"
	"github.com/square/finch/zzverif/verif"
)

//verif:opt * rand=1
//verif:assume math/rand functions return any value their documentation allows
//verif:bound min, max: any 64-bit values, p any integer; 2 values; spread: 4 (quick) or 8 (thorough) concrete configurations of up to 20 values

func i64(n int64) string { return strconv.FormatInt(n, 10) }

// H_range: values stay in [min,max], no crash.
func H_range() {
	min := verif.Int64("min", -1<<63, 1<<63-1)
	max := verif.Int64("max", -1<<63, 1<<63-1)
	p := verif.Int64("p", -1<<63, 1<<63-1)
	m := map[string]string{"min": i64(min), "max": i64(max), "p": i64(p)}
	switch verif.Choose("keys", 4) {
	case 1:
		delete(m, "min")
		min = 1
	case 2:
		delete(m, "max")
		max = 100000
	case 3:
		delete(m, "p")
		p = 20
	}
	g, err := data.Make("int-gaps", "@d", m)
	if err != nil {
		verif.Reach("rejected")
		verif.Assert(p < 1 || p > 100 || min > max || max-min+1 <= 0, "a valid configuration is accepted")
		return
	}
	verif.Assert(p >= 1 && p <= 100 && min <= max, "an invalid configuration is rejected")
	n, f := g.Format()
	verif.Assert(n == 1 && f == "%d", "format")
	for k := 0; k < 2; k++ {
		if k == 1 {
			g = g.Copy()
		}
		var v []interface{}
		verif.Assert(!verif.Try(func() { v = g.Values(data.RunCount{}) }), "no crash")
		i, ok := v[0].(int64)
		verif.Assert(ok && len(v) == 1, "one int64")
		verif.Assert(i >= min && i <= max, "in range")
		verif.Reach("value")
	}
}

type conf struct{ min, max, p, n int64 }

var confs = []conf{{0, 9, 50, 5}, {5, 14, 20, 2}, {7, 16, 10, 1}, {1, 4, 1, 1}, {-10, 9, 25, 5}, {1000001, 1000100, 3, 3}, {1, 10, 100, 10}, {1, 100, 20, 20}}

func (c conf) m() map[string]string {
	return map[string]string{"min": i64(c.min), "max": i64(c.max), "p": i64(c.p)}
}

func (c conf) label(k int64) string {
	return fmt.Sprintf("int-gaps [%d,%d] p=%d returns its position %d of %d", c.min, c.max, c.p, k, c.n)
}

// at: v is the k-th of n evenly spread positions (within rounding).
func (c conf) at(v, k int64) bool {
	if c.n == 1 {
		return v >= c.min && v <= c.max
	}
	d := (v-c.min)*(c.n-1) - k*(c.max-c.min)
	return d > -(c.n-1) && d < c.n-1
}

// H_spread: p percent of the range is used, evenly spread from min to max.
func H_spread() {
	c := confs[verif.Choose("conf", verif.Bound(4, len(confs)))]
	if l := verif.Covering(); l != "" {
		for _, c = range confs {
			for k := int64(0); k < c.n; k++ {
				if c.label(k) != l {
					continue
				}
				g, _ := data.Make("int-gaps", "@d", c.m())
				for i := 0; i < 100000; i++ {
					if c.at(g.Values(data.RunCount{})[0].(int64), k) {
						return
					}
				}
				verif.Fail(l)
			}
		}
	}
	g, err := data.Make("int-gaps", "@d", c.m())
	verif.Assert(err == nil, "accepted")
	for k := int64(0); k < c.n; k++ {
		verif.Cover(c.label(k))
	}
	var v []interface{}
	verif.Assert(!verif.Try(func() { v = g.Values(data.RunCount{}) }), "no crash")
	x := v[0].(int64)
	for k := int64(0); k < c.n; k++ {
		if c.at(x, k) {
			verif.Reach(c.label(k))
			return
		}
	}
	verif.Fail("values are the evenly spread positions")
}
