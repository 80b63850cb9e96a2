// Package c05: auto-inc.
package c05

import (
	"strconv"
	"sync"

	"github.com/square/finch/data"
	"github.com/square/finch/zzverif/verif"
)

//verif:bound up to 4 (quick) or 6 (thorough) sequential values; start and step any 64-bit values

// H_sequence: the k-th value is start+k*step.
func H_sequence() {
	start := verif.Uint64("start", 0, 1<<64-1)
	step := verif.Uint64("step", 0, 1<<64-1)
	params := map[string]string{}
	haveStart := verif.Choose("haveStart", 2) == 1
	haveStep := verif.Choose("haveStep", 2) == 1
	if haveStart {
		params["start"] = strconv.FormatUint(start, 10)
	} else {
		start = 0
	}
	if haveStep {
		params["step"] = strconv.FormatUint(step, 10)
	} else {
		step = 1
	}
	g, err := data.Make("auto-inc", "@d", params)
	verif.Assert(err == nil, "accepted")
	n := verif.Bound(4, 6)
	c := g.Copy()
	for k := 1; k <= n; k++ {
		v := g.Values(data.RunCount{})
		verif.Assert(len(v) == 1, "one value")
		u, ok := v[0].(uint64)
		verif.Assert(ok, "type")
		verif.Observe("v", u)
		verif.Assert(u == start+uint64(k)*step, "k-th value is start+k*step")
		verif.Reach("values")
	}
	v := c.Values(data.RunCount{})
	verif.Assert(v[0].(uint64) == start+step, "a copy starts from start")
}

// H_shared: concurrent callers receive each of the first n values once.
//
//verif:opt H_shared native=sched
func H_shared() {
	g, err := data.Make("auto-inc", "@d", map[string]string{"start": "10", "step": "3"})
	verif.Assert(err == nil, "accepted")
	nc, per := 2, verif.Bound(2, 3)
	got := make([][]uint64, nc)
	verif.Sched(verif.Bound(2, 3))
	verif.Race()
	var wg sync.WaitGroup
	for c := 0; c < nc; c++ {
		c := c
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < per; i++ {
				got[c] = append(got[c], g.Values(data.RunCount{})[0].(uint64))
			}
		}()
	}
	wg.Wait()
	seen := map[uint64]int{}
	for c := range got {
		for _, v := range got[c] {
			seen[v]++
		}
	}
	for k := 1; k <= nc*per; k++ {
		verif.Assert(seen[uint64(10+3*k)] == 1, "each value handed out exactly once")
	}
	verif.Reach("shared")
}
