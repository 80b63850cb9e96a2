// Package c06: str-fill-az.
package c06

import (
	"strconv"
	"sync"

	"github.com/square/finch/data"
	"github.com/square/finch/zzverif/verif"
)

//verif:opt * rand=1
//verif:assume the random source returns any 63-bit value
//verif:bound every outcome of one source call for len up to 2 (quick) or 3 (thorough)
//verif:bound len 4..22 (quick: 6 of them, thorough: all): outcomes in which at most one 6-bit group of all source calls is not a letter
//verif:bound concurrent: 2 clients sharing a key, or one with a copy of it

func letters(s string, n int) {
	verif.Assert(len(s) == n, "exactly len characters")
	for i := 0; i < len(s); i++ {
		c := s[i]
		verif.Assert(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z', "letters only")
	}
}

func fill(n int) {
	g, err := data.Make("str-fill-az", "@d", map[string]string{"len": strconv.Itoa(n)})
	verif.Assert(err == nil, "accepted")
	nv, f := g.Format()
	verif.Assert(nv == 1 && f == "'%s'", "format")
	if n%2 == 1 {
		g = g.Copy()
	}
	v := g.Values(data.RunCount{})
	s, ok := v[0].(string)
	verif.Assert(ok && len(v) == 1, "one string")
	letters(s, n)
	verif.Observe("s", s)
	verif.Reach("filled")
}

// H_fill: len letters for every outcome of one call of the source.
func H_fill() {
	n := verif.Pick("len", 1, verif.Bound(2, 3))
	verif.OnRand(func(i int, v uint64) { verif.Assume(i < 1) })
	fill(n)
}

// H_long: longer strings, at most one rejected group at any place.
func H_long() {
	n := 4
	if verif.Thorough() {
		n = verif.Pick("len", 4, 22)
	} else {
		n = []int{4, 9, 10, 11, 20, 21}[verif.Choose("lenx", 6)]
	}
	rej := verif.Choose("rejected", n+1)
	verif.OnRand(func(i int, v uint64) {
		for k := 0; k < 10; k++ {
			x := v >> uint(6*k) & 63
			if i*10+k == rej {
				verif.Assume(x >= 52)
			} else {
				verif.Assume(x < 52)
			}
		}
	})
	fill(n)
}

// H_len: the default length, and invalid lengths.
func H_len() {
	n := verif.Int64("len", -1<<63, 0)
	_, err := data.Make("str-fill-az", "@d", map[string]string{"len": strconv.FormatInt(n, 10)})
	verif.Assert(err != nil, "len < 1 is rejected")
	verif.Reach("rejected")
}

// H_shared: concurrent clients can use a shared key, and copies of it.
//
//verif:opt H_shared native=sched
func H_shared() {
	g, err := data.Make("str-fill-az", "@d", map[string]string{"len": "2"})
	verif.Assert(err == nil, "accepted")
	verif.OnRand(func(i int, v uint64) {
		for k := 0; k < 10; k++ {
			verif.Assume(v>>uint(6*k)&63 < 52)
		}
	})
	verif.Sched(1)
	verif.Race()
	var wg sync.WaitGroup
	copied := verif.Choose("own copy", 2) == 1
	for c := 0; c < 2; c++ {
		wg.Add(1)
		g := g
		if copied && c == 1 {
			g = g.Copy()
		}
		go func() {
			defer wg.Done()
			v := g.Values(data.RunCount{})
			letters(v[0].(string), 2)
		}()
	}
	wg.Wait()
	verif.Reach("shared")
}
