// Package c32: combining statistics.
package c32

import (
	"github.com/square/finch/stats"
	"github.com/square/finch/zzverif/verif"
)

//verif:bound H_combine: 2..3 statistics (one may be empty of each type) with any counts in 3 of the buckets (first, middle, last), any min and max and any counts of 2 error codes, up to 2^40; H_record: 2 clients' 0..2 and 0..1 events of 2 types (thorough: 4 types) with any response time from 8 to 10 or 2^52 to 2^52+2^40 microseconds and errors; H_instance: 1..3 instances combined after an earlier interval
//verif:opt H_record fp=mono
//verif:assume counts do not overflow

const big = 1 << 40

var at = []int{0, 200, 449}

// some returns statistics with any content that recording can make.
func some(types int) *stats.Stats {
	s := stats.NewStats()
	for i := 0; i < types; i++ {
		n := uint64(0)
		for _, b := range at {
			c := verif.Uint64("count", 0, big)
			s.Buckets[i][b] = c
			n += c
		}
		s.N[i] = n
		min, max := verif.Int64("min", 0, big), verif.Int64("max", 0, big)
		verif.Assume(min <= max)
		verif.Assume(n > 0 || min == 0 && max == 0)
		s.Min[i], s.Max[i] = min, max
	}
	errors(s)
	return s
}

var codes = []uint16{0, 1213}

func errors(s *stats.Stats) {
	have := verif.Choose("errors", 1<<uint(len(codes)))
	for k, c := range codes {
		if have&(1<<uint(k)) != 0 {
			s.Errors[c] = verif.Uint64("errors", 0, big)
		}
	}
}

// check compares got with everything in from.
func check(got *stats.Stats, from []*stats.Stats) {
	for i := range got.N {
		n, min, max := uint64(0), int64(-1), int64(0)
		for _, s := range from {
			n += s.N[i]
			if s.N[i] > 0 && (min < 0 || s.Min[i] < min) {
				min = s.Min[i]
			}
			if s.N[i] > 0 && s.Max[i] > max {
				max = s.Max[i]
			}
		}
		verif.Assert(got.N[i] == n, "number of events")
		verif.Assert(n == 0 || got.Min[i] == min, "min of all events")
		verif.Assert(got.Max[i] == max, "max of all events")
		for b := range got.Buckets[i] {
			c := uint64(0)
			for _, s := range from {
				c += s.Buckets[i][b]
			}
			verif.Assert(got.Buckets[i][b] == c, "bucket count of all events")
		}
	}
	for _, code := range codes {
		n := uint64(0)
		for _, s := range from {
			n += s.Errors[code]
		}
		verif.Assert(got.Errors[code] == n, "errors of all")
	}
	verif.Assert(len(got.Errors) <= len(codes), "no other errors")
}

// clone copies statistics without the code under test.
func clone(s *stats.Stats) *stats.Stats {
	c := stats.NewStats()
	for i := range s.N {
		c.N[i], c.Min[i], c.Max[i] = s.N[i], s.Min[i], s.Max[i]
		copy(c.Buckets[i], s.Buckets[i])
	}
	for k, v := range s.Errors {
		c.Errors[k] = v
	}
	return c
}

// H_combine: Combine after nothing, after Copy or after Reset.
func H_combine() {
	k := 2 + verif.Choose("number", 2)
	types := 1
	var from, orig []*stats.Stats
	for i := 0; i < k; i++ {
		if k == 3 && i == 2 {
			from = append(from, stats.NewStats()) // nothing recorded
		} else {
			from = append(from, some(types))
		}
		orig = append(orig, clone(from[i]))
	}
	var s *stats.Stats
	start := 0
	switch verif.Choose("start", 3) {
	case 0:
		s = stats.NewStats()
	case 1:
		s = some(types)
		s.Errors[codes[0]] = 7
		s.Copy(from[0])
		start = 1
	case 2:
		s = some(types)
		s.Reset()
	}
	for _, f := range from[start:] {
		s.Combine(f)
	}
	verif.Reach("combined")
	check(s, from)
	for i := range from {
		check(from[i], orig[i:i+1])
	}
}

// H_record: the same as recording everything in one place.
func H_record() {
	lo, hi := int64(8), int64(10)
	if verif.Choose("range", 2) == 1 {
		lo, hi = 1<<52, 1<<52+1<<40
	}
	one := stats.NewStats()
	sum := stats.NewStats()
	for c := 0; c < 2; c++ {
		s := stats.NewStats()
		for k := verif.Choose("events", 3-c); k > 0; k-- {
			t := []byte{stats.READ, stats.TOTAL, stats.WRITE, stats.COMMIT}[verif.Choose("type", verif.Bound(2, 4))]
			d := verif.Int64("d", lo, hi)
			s.Record(t, d)
			one.Record(t, d)
		}
		sum.Combine(s)
	}
	verif.Reach("combined")
	check(sum, []*stats.Stats{one})
}

// H_instance: instances of an interval, after an earlier interval.
func H_instance() {
	all := stats.NewInstance("all")
	for interval := 1; interval <= 2; interval++ {
		k := 1 + verif.Choose("instances", 3)
		var from []stats.Instance
		var st []*stats.Stats
		clients := uint(0)
		for i := 0; i < k; i++ {
			in := stats.NewInstance("h")
			in.Clients = uint(verif.Int("clients", 0, 1000))
			in.Interval = uint(interval)
			in.Seconds = 1.5
			in.Runtime = 2.5
			clients += in.Clients
			if verif.Choose("nothing recorded", 2) == 0 {
				in.Total.Buckets[1][5] = verif.Uint64("count", 1, big)
				in.Total.N[1] = in.Total.Buckets[1][5]
				in.Total.Min[1] = verif.Int64("min", 0, 100)
				in.Total.Max[1] = verif.Int64("max", 100, 200)
				in.Total.Errors[codes[interval-1]] = verif.Uint64("errors", 0, big)
			}
			from = append(from, in)
			st = append(st, clone(in.Total))
		}
		all.Combine(from)
		verif.Assert(all.Clients == clients, "clients of all instances")
		verif.Assert(all.Interval == uint(interval) && all.Seconds == 1.5 && all.Runtime == 2.5, "interval of the instances")
		check(all.Total, st)
		for i := range from {
			check(from[i].Total, st[i:i+1])
		}
	}
	verif.Reach("combined")
}
