// Package c04: int-range-seq.
package c04

import (
	"strconv"
	"sync"

	"github.com/square/finch/data"
	"github.com/square/finch/zzverif/verif"
)

//verif:bound begin, end, size: any 64-bit values; 4 (quick) or 6 (thorough) chunks
//verif:bound concurrent: 2 clients, 2 chunks each, 2 (quick) or 3 (thorough) preemptions

func i64(n int64) string { return strconv.FormatInt(n, 10) }

func pair(g data.Generator) (int64, int64) {
	v := g.Values(data.RunCount{})
	verif.Assert(len(v) == 2, "a pair")
	lo, ok := v[0].(int64)
	up, ok2 := v[1].(int64)
	verif.Assert(ok && ok2, "int64 values")
	return lo, up
}

// H_tile: the chunks tile [begin,end].
func H_tile() {
	begin := verif.Int64("begin", -1<<63, 1<<63-1)
	end := verif.Int64("end", -1<<63, 1<<63-1)
	size := verif.Int64("size", -1<<63, 1<<63-1)
	m := map[string]string{"begin": i64(begin), "end": i64(end), "size": i64(size)}
	switch verif.Choose("keys", 4) {
	case 1:
		delete(m, "begin")
		begin = 1
	case 2:
		delete(m, "end")
		end = 100000
	case 3:
		delete(m, "size")
		size = 100
	}
	g, err := data.Make("int-range-seq", "@d", m)
	if err != nil {
		verif.Reach("rejected")
		verif.Assert(begin > end || size < 1 || end-begin < 0 || size > end-begin, "a valid configuration is accepted")
		return
	}
	verif.Assert(begin <= end, "an empty range is rejected")
	g2 := g.Copy()
	next := begin
	for k := verif.Bound(4, 6); k > 0; k-- {
		lo, up := pair(g)
		verif.Observe("lower", lo)
		verif.Observe("upper", up)
		verif.Assert(lo == next, "starts where the previous chunk ended")
		verif.Assert(lo <= up && up <= end, "ordered and in range")
		d := uint64(up) - uint64(lo)
		verif.Assert(d <= uint64(size)-1, "at most size values")
		verif.Assert(d == uint64(size)-1 || up == end, "full chunks except the last")
		if up == end {
			next = begin
			verif.Reach("restart")
		} else {
			next = up + 1
			verif.Reach("next")
		}
	}
	lo, _ := pair(g2)
	verif.Assert(lo == begin, "a copy starts at begin")
}

// H_shared: concurrent callers get disjoint chunks that tile the range.
//
//verif:opt H_shared native=sched
func H_shared() {
	g, err := data.Make("int-range-seq", "@d", map[string]string{"begin": "1", "end": "10", "size": "3"})
	verif.Assert(err == nil, "accepted")
	const nc, per = 2, 2
	var got [nc][]int64
	verif.Sched(verif.Bound(2, 3))
	verif.Race()
	var wg sync.WaitGroup
	for c := 0; c < nc; c++ {
		c := c
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < per; i++ {
				lo, up := pair(g)
				got[c] = append(got[c], lo, up)
			}
		}()
	}
	wg.Wait()
	want := map[int64]int64{1: 3, 4: 6, 7: 9, 10: 10}
	for c := range got {
		for i := 0; i < len(got[c]); i += 2 {
			up, ok := want[got[c][i]]
			verif.Assert(ok && up == got[c][i+1], "each chunk handed out exactly once")
			delete(want, got[c][i])
		}
	}
	verif.Assert(len(want) == 0, "every chunk handed out")
	verif.Reach("shared")
}
