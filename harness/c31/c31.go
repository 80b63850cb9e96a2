// Package c31: recording response times.
package c31

import (
	"math"

	"github.com/square/finch/stats"
	"github.com/square/finch/zzverif/verif"
)

//verif:opt * fp=mono
//verif:bound H_bucket: every response time from 0 to 2^53 microseconds (all 450 buckets) of each event type; H_seq: 3 events of any types with any response times from 8 to 10 or from 2^52 to 2^52+2^40 (thorough also from 997 to 1100) microseconds, with a reset after any of them
//verif:assume math.Log does not decrease; a response time within 1e-9 of a bound of two buckets may be in either

const (
	base   = 10.0
	factor = 1.0471285480508996
	last   = 449
	eps    = 1e-9
)

// bounds are the least and the greatest integer that may be in the bucket.
func bounds(n int) (int64, int64) {
	lo, hi := int64(0), int64(math.MaxInt64)
	if n > 0 {
		lo = int64(math.Ceil(base * math.Pow(factor, float64(n-1)) * (1 - eps)))
	}
	if n < last {
		hi = int64(math.Floor(base * math.Pow(factor, float64(n)) * (1 + eps)))
	}
	return lo, hi
}

// H_bucket: the bucket of a response time.
func H_bucket() {
	t := verif.Choose("type", 4)
	d := verif.Int64("d", 0, 1<<53)
	s := stats.NewStats()
	s.Record(byte(t), d)
	verif.Reach("recorded")
	for i := range s.Buckets {
		n := 0
		for b, c := range s.Buckets[i] {
			if c == 0 {
				continue
			}
			verif.Assert(c == 1, "one event in one bucket")
			lo, hi := bounds(b)
			verif.Assert(d >= lo && d <= hi, "the bucket's bounds contain the response time")
			n++
		}
		want := 0
		if i == t || i == int(stats.TOTAL) {
			want = 1
		}
		verif.Assert(n == want, "one bucket of the event type and of the total")
		verif.Assert(s.N[i] == uint64(want), "one event of the type and of the total")
		verif.Assert(s.Min[i] == d*int64(want) && s.Max[i] == d*int64(want), "min and max are the response time")
	}
}

// H_seq: several events and resets.
func H_seq() {
	lo, hi := int64(8), int64(10)
	switch verif.Choose("range", verif.Bound(2, 3)) {
	case 1:
		lo, hi = 1<<52, 1<<52+1<<40
	case 2:
		lo, hi = 997, 1100
	}
	s := stats.NewStats()
	var min, max [4]int64
	var n [4]uint64
	const k = 3
	reset := verif.Choose("reset after", k) // or never
	for i := 0; i < k; i++ {
		t := verif.Choose("type", 4)
		d := verif.Int64("d", lo, hi)
		before := make([]uint64, 4)
		var b [4][450]uint64
		for j := range before {
			before[j] = s.N[j]
			copy(b[j][:], s.Buckets[j])
		}
		s.Record(byte(t), d)
		for j := 0; j < 4; j++ {
			changed := 0
			for x := range b[j] {
				if b[j][x] != s.Buckets[j][x] {
					changed++
					verif.Assert(s.Buckets[j][x] == b[j][x]+1, "a bucket is incremented by one")
					lo, hi := bounds(x)
					verif.Assert(d >= lo && d <= hi, "the bucket's bounds contain the response time")
				}
			}
			want := 0
			if j == t || j == int(stats.TOTAL) {
				want = 1
				if n[j] == 0 || d < min[j] {
					min[j] = d
				}
				if n[j] == 0 || d > max[j] {
					max[j] = d
				}
				n[j]++
			}
			verif.Assert(changed == want, "one bucket of the event type and of the total")
			verif.Assert(s.N[j] == n[j], "number of events")
			if n[j] > 0 {
				verif.Assert(s.Min[j] == min[j], "least response time since the reset")
				verif.Assert(s.Max[j] == max[j], "greatest response time since the reset")
			}
		}
		if reset == i && i < k-1 {
			s.Reset()
			n = [4]uint64{}
			for j := range s.Buckets {
				verif.Assert(s.N[j] == 0, "no events after a reset")
				for x := range s.Buckets[j] {
					verif.Assert(s.Buckets[j][x] == 0, "empty buckets after a reset")
				}
			}
		}
	}
	verif.Reach("done")
}
