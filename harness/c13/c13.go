// Package c13: row limits.
//
//verif:opt * fp=nd
package c13

import (
	"database/sql/driver"
	"strconv"
	"strings"
	"sync"

	"github.com/square/finch/config"
	"github.com/square/finch/limit"
	"github.com/square/finch/zzverif/fakedb"
	"github.com/square/finch/zzverif/tf"
	"github.com/square/finch/zzverif/verif"
)

//verif:bound H_rows: any limit up to 2^40, any offset up to 2^40, 2 (quick) or 3 (thorough) writes of up to 2^40 rows each; H_or: 2 limits, 2 writes; H_shared: 2 clients with 1..2 writes each, every interleaving with up to 2 preemptions; H_client: a client's run of a loaded trx file with limits up to 14 rows, alone or with another row limit or a size limit
//verif:assume rows affected are not negative and their sum does not overflow; the server is a scripted driver under the real database/sql

const big = 1 << 40

// H_rows: More is exact, whatever the progress report does.
func H_rows() {
	max := verif.Int64("max", 0, big)
	offset := verif.Int64("offset", 0, big)
	l := limit.Or(nil, limit.NewRows(max, offset))
	verif.Reach("limit")
	verif.Assert((l == nil) == (max == 0), "a limit of zero means no limit")
	if l == nil {
		return
	}
	n := offset
	first := verif.Choose("more first", 2) == 1
	if first {
		verif.Assert(l.More(nil) == (n < max), "more data exactly while offset plus rows affected is less than max")
	}
	for k := 0; k < verif.Bound(2, 3); k++ {
		a := verif.Int64("affected", 0, big)
		l.Affected(a)
		n += a
		verif.Assert(l.More(nil) == (n < max), "more data exactly while offset plus rows affected is less than max")
	}
}

// H_or: combined limits.
func H_or() {
	var max, n [3]int64
	var l limit.Data
	k := 2 + verif.Choose("limits", 2)
	for i := 0; i < k; i++ {
		max[i] = verif.Int64("max", 0, 1000)
		n[i] = verif.Int64("offset", 0, 1000)
		l = limit.Or(l, limit.NewRows(max[i], n[i]))
	}
	verif.Reach("limit")
	verif.Assert((l == nil) == (max[0] == 0 && max[1] == 0 && max[2] == 0), "a limit of zero means no limit")
	if l == nil {
		return
	}
	for j := 0; j < 2; j++ {
		more := true
		for i := range n {
			if max[i] != 0 && n[i] >= max[i] {
				more = false
			}
		}
		verif.Assert(l.More(nil) == more, "more data only while every limit allows it")
		a := verif.Int64("affected", 0, 1000)
		l.Affected(a)
		for i := range n {
			n[i] += a
		}
	}
}

// H_shared: clients that share a limit.
func H_shared() {
	max := verif.Int64("max", 1, 1000)
	l := limit.NewRows(max, 0)
	var a [2][2]int64
	var cnt [2]int
	for c := range a {
		cnt[c] = 1 + verif.Choose("writes", 2)
		for k := 0; k < cnt[c]; k++ {
			a[c][k] = verif.Int64("affected", 0, 1000)
		}
	}
	var done, stopped [2]int64 // rows written by each client, -1 or rows it had written when stopped
	var wg sync.WaitGroup
	verif.Race()
	verif.Sched(2)
	for c := range a {
		c := c
		stopped[c] = -1
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < cnt[c]; k++ {
				if !l.More(nil) {
					stopped[c] = done[c]
					return
				}
				l.Affected(a[c][k])
				done[c] += a[c][k]
			}
		}()
	}
	wg.Wait()
	verif.SchedOff()
	verif.Reach("done")
	total := done[0] + done[1]
	verif.Assert(l.More(nil) == (total < max), "rows of every client count")
	for c := range a {
		if stopped[c] >= 0 {
			verif.Assert(stopped[c]+done[1-c] >= max, "a client stops only when the limit is reached")
		}
	}
}

// H_client: a client writes until the limit is reached.
func H_client() {
	max := verif.Int64("max", 0, 6)
	offset := verif.Int64("offset", 0, 6)
	aff := verif.Int64("affected", 1, 3)
	mod := "-- rows: " + strconv.FormatInt(max, 10)
	switch verif.Choose("offset", 3) {
	case 0:
		offset = 0
	case 1:
		mod += " " + strconv.FormatInt(offset, 10)
	case 2: // numbers are decimal
		max, offset = 14, 10
		mod = "-- rows: 014 010"
	}
	max2, size := int64(0), int64(-1)
	switch verif.Choose("second limit", 4) {
	case 1:
		max2 = verif.Int64("max2", 1, 6)
		mod += "\n-- rows: " + strconv.FormatInt(max2, 10)
	case 2:
		size = int64(999 + verif.Choose("size", 2))
		mod += "\n-- table-size: db.t 1kB"
	case 3:
		size = int64(999 + verif.Choose("size", 2))
		mod = "-- database-size: db 1kB\n" + mod
	}
	word := []string{"INSERT", "CALL"}[verif.Choose("word", 2)]
	if word == "CALL" {
		mod += "\n-- prepare"
	}
	set, err := tf.Load(mod+"\n"+word+" x", map[string]config.Data{}, nil)
	verif.Assert(err == nil, "loaded")
	d := &fakedb.DB{Answer: func(e fakedb.Event) fakedb.Answer {
		switch {
		case strings.HasPrefix(e.SQL, "SHOW"):
			return fakedb.Answer{Rows: [][]driver.Value{{"t", "BASE TABLE"}}}
		case strings.HasPrefix(e.SQL, "SELECT"):
			return fakedb.Answer{Rows: [][]driver.Value{{size}}}
		}
		return fakedb.Answer{Affected: aff}
	}}
	c := tf.Run(set, d, "8")
	verif.Reach("done")
	verif.Assert(c.Error.Err == nil, "no error")
	n := int64(0)
	for _, q := range d.Queries() {
		if q.SQL == word+" x" {
			n++
		}
	}
	limit := int64(8)
	if size >= 1000 {
		limit = 2 // measured before each third write
	}
	want := int64(0)
	for want < limit && (max == 0 || offset+want*aff < max) && (max2 == 0 || want*aff < max2) {
		want++
	}
	verif.Assert(n == want, "writes stop exactly when the limit is reached")
}
