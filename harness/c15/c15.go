// Package c15: rate limiters.
//
//verif:opt H_rate validate=no
//verif:opt H_clients validate=no
//verif:opt H_andrate validate=no
package c15

import (
	"sync"
	"time"

	"github.com/square/finch/limit"
	"github.com/square/finch/zzverif/verif"
)

//verif:bound H_rate: rates 1, 3, 50 and 3000 per second, 4 (quick) or 5 (thorough) permits taken by one client that waits any of 0..9 quarters of the period before each; H_clients: 2 clients, 2 permits each, waits of 0..5 quarters; H_and: 2 or 3 limits combined in any nesting with or without absent ones, 6 (quick) or 7 (thorough) permits of the limits in every order, taken at every point; H_andsched: 2 limits, 4 permits, every interleaving with up to 1 (quick) or 2 (thorough) preemptions; H_andrate: two real limiters
//verif:assume golang.org/x/time/rate runs under virtual time

const second = int64(time.Second)

var rates = []int64{1, 3, 50, 3000}

// within checks that permits taken at the given times do not exceed the rate: at most
// burst more than rate*t in any period t.
func within(at []int64, rate, burst int64) {
	for i := range at {
		for j := i; j < len(at); j++ {
			n := int64(j - i + 1)
			// each permit may be early by the rounding of a duration
			verif.Assert((n-burst)*second <= rate*(at[j]-at[i]+2*n), "at most rate*t permits and a small burst in any period")
		}
	}
}

// H_rate: one client.
func H_rate() {
	rate := rates[verif.Choose("rate", len(rates))]
	q := second / rate / 4
	l := limit.NewRate(uint(rate))
	verif.Reach("limit")
	var at []int64
	for k := 0; k < verif.Bound(4, 5); k++ {
		time.Sleep(time.Duration(verif.Int64("wait", 0, 9) * q))
		timeout := time.Duration(4*q + 4 + 10)
		if verif.Native() {
			timeout += 5 * time.Second
		}
		select {
		case ok := <-l.Allow():
			verif.Assert(ok, "permit")
		case <-time.After(timeout):
			verif.Fail("a client that waits gets the next permit")
			return
		}
		at = append(at, time.Now().UnixNano())
	}
	// one permit of the limiter and one that waits to be taken
	within(at, rate, 2)
}

// H_clients: two clients of one limiter.
func H_clients() {
	rate := rates[verif.Choose("rate", 2)*2]
	q := second / rate / 4
	l := limit.NewRate(uint(rate))
	verif.Reach("limit")
	var at []int64
	var mu sync.Mutex
	var wg sync.WaitGroup
	for c := 0; c < 2; c++ {
		var wait [2]int64
		for k := range wait {
			wait[k] = verif.Int64("wait", 0, 5)
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := range wait {
				time.Sleep(time.Duration(wait[k] * q))
				<-l.Allow()
				mu.Lock()
				at = append(at, time.Now().UnixNano())
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	verif.Assert(len(at) == 4, "every client gets its permits")
	within(at, rate, 2)
}

// fake is a limiter that a harness gives permits.
type fake struct {
	c chan bool
	n int // permits given
}

func (f *fake) Adjust(byte)             {}
func (f *fake) Current() (byte, string) { return 0, "" }
func (f *fake) Allow() <-chan bool      { return f.c }
func (f *fake) Stop()                   {}
func (f *fake) give() {
	select {
	case f.c <- true:
		f.n++
	default:
	}
}

// H_and: combined limiters allow no more than each of them.
func H_and() {
	verif.Assert(limit.NewRate(0) == nil, "no limiter for rate 0")
	verif.Assert(limit.And(nil, nil) == nil, "no limits is no limiter")
	n := 2 + verif.Choose("limits", 2)
	var f []*fake
	for i := 0; i < n; i++ {
		f = append(f, &fake{c: make(chan bool, 1)})
	}
	none := verif.Choose("absent limit", 3)
	and := func(a, b limit.Rate) limit.Rate {
		if none == 1 {
			a = limit.And(nil, a)
		}
		if none == 2 {
			b = limit.And(b, nil)
		}
		return limit.And(a, b)
	}
	l := and(f[0], f[1])
	if n == 3 {
		if verif.Choose("nesting", 2) == 1 {
			l = and(f[2], l)
		} else {
			l = and(l, f[2])
		}
	}
	verif.Reach("limit")
	verif.Assert(l != nil, "limiter")
	out := 0
	take := func() {
		verif.Quiesce()
		select {
		case <-l.Allow():
			out++
		default:
		}
		for i := range f {
			verif.Assert(out <= f[i].n, "no more permits than of each limit")
		}
	}
	for k := 0; k < verif.Bound(6, 7); k++ {
		x := verif.Int("event", 0, n)
		took := true
		for i := range f {
			if x == i {
				f[i].give()
				took = false
			}
		}
		if took {
			take()
		}
	}
	take()
	all := true
	for i := range f {
		all = all && f[i].n > 0
	}
	verif.Assert(!all || out > 0, "a permit when every limit gave one")
}

// H_andsched: every interleaving of limits, combination and client.
func H_andsched() {
	a, b := &fake{c: make(chan bool, 1)}, &fake{c: make(chan bool, 1)}
	l := limit.And(a, b)
	x := verif.Byte("permits")
	verif.Sched(verif.Bound(1, 2))
	var mu sync.Mutex
	na, nb, out := 0, 0, 0
	go func() {
		for k := uint(0); k < 4; k++ {
			mu.Lock()
			if x&(1<<k) != 0 {
				na++
				mu.Unlock()
				a.give()
			} else {
				nb++
				mu.Unlock()
				b.give()
			}
		}
	}()
	done := make(chan bool)
	go func() {
		for {
			select {
			case <-l.Allow():
			case <-done:
				done <- true
				return
			}
			mu.Lock()
			out++
			verif.Assert(out <= na && out <= nb, "a permit only after every limit gave one")
			mu.Unlock()
		}
	}()
	verif.Quiesce()
	done <- true
	<-done
	verif.SchedOff()
	verif.Reach("done")
	verif.Assert(out <= a.n && out <= b.n, "no more permits than of each limit")
	verif.Assert(out > 0 || a.n == 0 || b.n == 0, "a permit when every limit gave one")
}

// H_andrate: two real limiters.
func H_andrate() {
	r1, r2 := int64(50), []int64{7, 50, 400}[verif.Choose("second rate", 3)]
	a, b := limit.NewRate(uint(r1)), limit.NewRate(uint(r2))
	if verif.Choose("order", 2) == 1 {
		a, b = b, a
	}
	l := limit.And(a, b)
	verif.Reach("limit")
	if r2 < r1 {
		r1 = r2
	}
	q := second / r1 / 4
	var at []int64
	for k := 0; k < 5; k++ {
		if k < 3 {
			time.Sleep(time.Duration(verif.Int64("wait", 0, 9) * q))
		}
		<-l.Allow()
		at = append(at, time.Now().UnixNano())
	}
	// a permit of the slower limiter, one waiting in it, one held by and one waiting in the combination
	within(at, r1, 4)
}
