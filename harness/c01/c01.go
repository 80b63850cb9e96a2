// Package c01: int.
package c01

import (
	"fmt"
	"strconv"

	"github.com/square/finch/data"
	"github.com/square/finch/zzverif/verif"
)

//verif:opt * rand=1
//verif:assume math/rand functions return any value their documentation allows (NormFloat64: any finite value in [-1024,1024])
//verif:bound min, max, mean: any 64-bit values with min<=max; stddev: any non-negative float64 up to 2^63; 2 uniform values or 1 normal value per key
//verif:bound H_shape: 2 configurations of mean and standard deviation, keys and copies of keys, every outcome of the source

func i64(n int64) string { return strconv.FormatInt(n, 10) }

func check(p map[string]string, min, max int64, values int) {
	g, err := data.Make("int", "@d", p)
	verif.Assert(err == nil, "a valid range is accepted")
	n, f := g.Format()
	verif.Assert(n == 1 && f == "%d", "format")
	copied := verif.Choose("copy", 2) == 1
	if copied {
		g = g.Copy()
	}
	for k := 0; k < values; k++ {
		var v []interface{}
		verif.Assert(!verif.Try(func() { v = g.Values(data.RunCount{}) }), "no crash")
		verif.Assert(len(v) == 1, "one value")
		i, ok := v[0].(int64)
		verif.Assert(ok, "int64")
		verif.Observe("v", i)
		verif.Assert(i >= min && i <= max, "in range")
		verif.Reach("value")
	}
}

// H_uniform: uniform values stay in [min,max].
func H_uniform() {
	min := verif.Int64("min", -1<<63, 1<<63-1)
	max := verif.Int64("max", -1<<63, 1<<63-1)
	p := map[string]string{"min": i64(min), "max": i64(max)}
	switch verif.Choose("keys", 5) {
	case 1:
		delete(p, "min")
		min = 1
	case 2:
		delete(p, "max")
		max = 100000
	case 3:
		p["dist"] = "uniform"
	case 4:
		p["dist"] = "Uniform"
	}
	verif.Assume(min <= max)
	check(p, min, max, 2)
}

// H_normal: normally distributed values stay in [min,max].
func H_normal() {
	min := verif.Int64("min", -1<<63, 1<<63-1)
	max := verif.Int64("max", -1<<63, 1<<63-1)
	p := map[string]string{"min": i64(min), "max": i64(max), "dist": "normal"}
	switch verif.Choose("keys", 4) {
	case 1:
		delete(p, "min")
		min = 1
	case 2:
		delete(p, "max")
		max = 100000
	case 3:
		p["dist"] = "NORMAL"
	}
	if verif.Choose("mean", 2) == 1 {
		p["mean"] = i64(verif.Int64("meanval", -1<<63, 1<<63-1))
	}
	if verif.Choose("stddev", 2) == 1 {
		p["stddev"] = i64(verif.Int64("stddevval", 0, 1<<62))
	}
	verif.Assume(min <= max)
	check(p, min, max, 1)
}

// H_all: every value of a range is returned for some outcome of the source.
func H_all() {
	rs := [][2]int64{{1, 1}, {1, 4}, {0, 2}, {3, 6}, {-3, -1}, {-1, 1}, {1<<63 - 2, 1<<63 - 1}}
	r := rs[verif.Choose("range", len(rs))]
	g, err := data.Make("int", "@d", map[string]string{"min": i64(r[0]), "max": i64(r[1])})
	verif.Assert(err == nil, "a valid range is accepted")
	label := func(i int64) string { return fmt.Sprintf("int [%d,%d] returns %d", r[0], r[1], i) }
	if l := verif.Covering(); l != "" {
		for _, r = range rs {
			for i := r[0]; ; i++ {
				if label(i) == l {
					g, _ = data.Make("int", "@d", map[string]string{"min": i64(r[0]), "max": i64(r[1])})
					for k := 0; k < 100000; k++ {
						if g.Values(data.RunCount{})[0].(int64) == i {
							return
						}
					}
					verif.Fail(l)
				}
				if i == r[1] {
					break
				}
			}
		}
	}
	for i := r[0]; ; i++ {
		verif.Cover(label(i))
		if i == r[1] {
			break
		}
	}
	var v []interface{}
	verif.Assert(!verif.Try(func() { v = g.Values(data.RunCount{}) }), "no crash")
	x := v[0].(int64)
	for i := r[0]; ; i++ {
		if x == i {
			verif.Reach(label(i))
			return
		}
		if i == r[1] {
			break
		}
	}
	verif.Fail("in range")
}

// H_shape: values within a standard deviation of the mean are returned, also by a copy of the key.
func H_shape() {
	type shape struct {
		min, max, from, to int64 // from, to: values within a standard deviation of the mean
		mean, stddev       string
	}
	ss := []shape{{-1 << 63, 1<<63 - 1, 6, 9, "8", "2"}, {-1 << 63, 1<<63 - 1, -4, -1, "-2", "2.5"}}
	label := func(s shape, cp bool, i int64) string {
		return fmt.Sprintf("int normal(%s,%s), copy %v, returns %d", s.mean, s.stddev, cp, i)
	}
	mk := func(s shape, cp bool) data.Generator {
		p := map[string]string{"min": i64(s.min), "max": i64(s.max), "dist": "normal"}
		if s.mean != "" {
			p["mean"], p["stddev"] = s.mean, s.stddev
		}
		g, err := data.Make("int", "@d", p)
		verif.Assert(err == nil, "a valid range is accepted")
		if cp {
			g = g.Copy()
		}
		return g
	}
	s, cp := ss[verif.Choose("shape", len(ss))], verif.Choose("copy", 2) == 1
	if l := verif.Covering(); l != "" {
		for k := 0; k < 2*len(ss); k++ {
			s, cp := ss[k/2], k%2 == 1
			for i := s.from; i <= s.to; i++ {
				if label(s, cp, i) == l {
					g := mk(s, cp)
					for k := 0; k < 100000; k++ {
						if g.Values(data.RunCount{})[0].(int64) == i {
							return
						}
					}
					verif.Fail(l)
				}
			}
		}
	}
	for i := s.from; i <= s.to; i++ {
		verif.Cover(label(s, cp, i))
	}
	x := mk(s, cp).Values(data.RunCount{})[0].(int64)
	verif.Reach("value")
	if i := s.from + int64(verif.Choose("value", 4)); x == i {
		verif.Reach(label(s, cp, i))
	}
}
