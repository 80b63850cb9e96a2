// Package c33: percentiles.
package c33

import (
	"math"
	"strconv"

	"github.com/square/finch/stats"
	"github.com/square/finch/zzverif/verif"
)

//verif:opt H_percentiles fp=mono
//verif:opt H_alone fp=mono
//verif:bound H_percentiles: 10 (quick) or 40 (thorough) numbers of events from 1 to 10^9, distributed in any way over 3 of 6 buckets (neighbours, first and last), of an event type; 7 ascending lists of 1..7 percentiles
//verif:bound H_alone: 7 or 100 (thorough: also 60, 10) events (symbolic counts) in 3 buckets, 4 lists of 1-7 percentiles
//verif:bound H_parse: lists of 1..3 percentiles, each any integer from -200 to 200 with or without P
//verif:assume a cumulative fraction exactly equal to a percentile may count as less, as floating point division rounds

const (
	base   = 10.0
	factor = 1.0471285480508996
)

var positions = []int{0, 1, 2, 150, 151, 449}

// lists of percentiles in thousandths of a percent
var lists = [][]int64{
	{50000},
	{99000, 99900},
	{100000},
	{10000, 20000, 30000, 40000},
	{95000, 95100, 95200, 99000, 99900, 99990, 99999},
	{1, 50000, 100000},
	{33333, 66667},
}

func H_percentiles() {
	ns := []int64{1, 2, 3, 7, 10, 99, 100, 1000, 12345, 1000000000}
	if verif.Thorough() {
		for i := int64(4); i < 40; i++ {
			ns = append(ns, i)
		}
	}
	n := ns[verif.Choose("events", len(ns))]
	list := lists[verif.Choose("percentiles", len(lists))]
	t := len(list) % 2
	var pos [3]int
	pos[0] = verif.Choose("first bucket", 4)
	pos[1] = pos[0] + 1
	pos[2] = pos[1] + 1 + verif.Choose("third bucket", 2)
	verif.Assume(pos[2] < len(positions))
	s := stats.NewStats()
	var cum [3]int64
	sum := int64(0)
	for k := range pos {
		c := verif.Int64("count", 0, n)
		s.Buckets[t][positions[pos[k]]] = uint64(c)
		sum += c
		cum[k] = sum
	}
	verif.Assume(sum == n)
	s.N[t] = uint64(n)
	var p []float64
	for _, x := range list {
		p = append(p, float64(x)/1000)
	}
	q := s.Percentiles(byte(t), p)
	verif.Reach("percentiles")
	verif.Assert(len(q) == len(list), "a value for each percentile")
	for i, x := range list {
		verif.Assert(i == 0 || q[i-1] <= q[i], "percentiles in increasing order")
		ok := false
		for k := range pos {
			if cum[k] < (x*n+99999)/100000 {
				continue // not reached
			}
			if in(q[i], positions[pos[k]]) {
				ok = true
			}
			if x*n%100000 != 0 || cum[k] != x*n/100000 {
				break
			}
		}
		verif.Assert(ok, "the percentile is in the lowest bucket at which the cumulative fraction reaches it")
	}
	none := s.Percentiles(byte(2), p)
	for i := range none {
		verif.Assert(none[i] == 0, "no percentile without events")
	}
}

// H_alone: percentiles do not depend on those reported with them.
func H_alone() {
	list := lists[len(lists)-4+verif.Choose("percentiles", 4)]
	n := []int64{7, 100, 60, 10}[verif.Choose("events", verif.Bound(2, 4))]
	t := 1
	s := stats.NewStats()
	sum := int64(0)
	at := verif.Choose("first bucket", 2) * 3
	for _, b := range []int{at, at + 1, 50} {
		c := verif.Int64("count", 0, n)
		s.Buckets[t][b] = uint64(c)
		sum += c
	}
	verif.Assume(sum == n)
	s.N[t] = uint64(n)
	var p []float64
	for _, x := range list {
		p = append(p, float64(x)/1000)
	}
	q := s.Percentiles(byte(t), p)
	i := verif.Choose("i", len(p))
	verif.Reach("alone")
	verif.Assert(s.Percentiles(byte(t), p[i:i+1])[0] == q[i], "percentiles do not depend on each other")
}

// in reports if a value is within the bounds of a bucket.
func in(q uint64, b int) bool {
	lo := 0.0
	if b > 0 {
		lo = base * math.Pow(factor, float64(b-1))
	}
	hi := base * math.Pow(factor, float64(b))
	return q >= uint64(lo) && q <= uint64(hi)+1
}

// H_parse: percentiles as configured.
func H_parse() {
	n := 1 + verif.Choose("number", 3)
	s := ""
	bad := false
	var want []int64
	for i := 0; i < n; i++ {
		x := verif.Int64("percentile", -200, 200)
		if i > 0 {
			s += ","
		}
		s += []string{"", "P", " p"}[verif.Choose("prefix", 3)] + strconv.FormatInt(x, 10)
		bad = bad || x < 0 || x > 100
		want = append(want, x)
	}
	names, vals, err := stats.ParsePercentiles(s)
	verif.Reach("parsed")
	verif.Assert((err != nil) == bad, "percentiles from 0 to 100 are accepted and others rejected")
	if err != nil {
		return
	}
	verif.Assert(len(names) == n && len(vals) == n, "every percentile")
	for i := range want {
		verif.Assert(names[i] == "P"+strconv.FormatInt(want[i], 10) && vals[i] == float64(want[i]), "name and value of the percentile")
	}
}
