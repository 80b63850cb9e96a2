// Package c16: permits of a rate-limited client.
package c16

import (
	"context"
	"time"

	"github.com/square/finch/zzverif/ck"
	"github.com/square/finch/zzverif/fakedb"
	"github.com/square/finch/zzverif/verif"
)

//verif:bound H_permits: 2..3 (quick) or 2..4 (thorough) statements of 8 kinds (transactions, prepared, idle) in 1..2 trx files, 1..3 iterations (symbolic), every combination of QPS and TPS limit, 0..8 permits of each (symbolic); H_error: 2 statements of 5 kinds, 1..2 iterations, 0..5 permits, one execution fails with any MySQL error code (symbolic) or a lost connection
//verif:assume the server is a scripted database/sql driver under the real database/sql; permits arrive through the client's limiter channels

var menu = []ck.Spec{
	{Kind: ck.Begin},
	{Kind: ck.Read},
	{Kind: ck.Write, In: 1, Prepare: true},
	{Kind: ck.Commit},
	{Kind: ck.Idle},
	{Kind: ck.DDL},
	{Kind: ck.Read, In: 1, Prepare: true, Multi: 2},
	{Kind: ck.Begin, Prepare: true},
}

func H_permits() { run(false) }
func H_error()   { run(true) }

func run(faults bool) {
	var all []ck.Spec
	n, kinds := 2, 5
	if !faults {
		n, kinds = 2+verif.Choose("statements", verif.Bound(2, 3)), len(menu)
	}
	for i := 0; i < n; i++ {
		s := menu[verif.Choose("kind", kinds)]
		all = append(all, s)
		if s.Multi > 0 {
			s.Multi = 0
			all = append(all, s)
		}
	}
	trxs := [][]ck.Spec{all}
	if !faults && verif.Choose("trx files", 2) == 1 {
		trxs = [][]ck.Spec{all[:1], all[1:]}
	}
	r := ck.New(trxs, false)
	limits := verif.Choose("limits", 4)
	hasQPS, hasTPS := limits&1 != 0, limits&2 != 0
	qps, tps := make(chan bool, 8), make(chan bool, 8)
	nq, nt := 0, 0 // permits
	mq, mt, mi := 8, 3, 3
	if faults {
		mq, mt, mi = 5, 2, 2
	}
	if hasQPS {
		nq = verif.Int("qps permits", 0, mq)
		for i := 0; i < nq; i++ {
			qps <- true
		}
		r.C.QPS = qps
	}
	if hasTPS {
		nt = verif.Int("tps permits", 0, mt)
		for i := 0; i < nt; i++ {
			tps <- true
		}
		r.C.TPS = tps
	}
	iter := verif.Int("iter", 1, mi)
	r.C.Iter = uint(iter)
	nErr, code := 100, uint16(0)
	if faults {
		nErr = verif.Int("failing execution", 0, 3)
		code = uint16(verif.Int("code", 1, 65535))
	}
	lost := faults && verif.Choose("lost connection", 2) == 1

	execs, begins := 0, 0
	r.D.Answer = func(e fakedb.Event) fakedb.Answer {
		switch e.Kind {
		case "exec", "query", "stmtexec", "stmtquery":
		default:
			return fakedb.Answer{}
		}
		if e.SQL == "ROLLBACK" {
			return fakedb.Answer{}
		}
		execs++
		for i := range all {
			if r.SQL(i) == e.SQL && all[i].Kind == ck.Begin {
				begins++
				break
			}
		}
		if hasQPS {
			verif.Assert(nq-len(qps) == execs, "one QPS permit was taken for each query executed")
		}
		if hasTPS {
			verif.Assert(nt-len(tps) == begins, "one TPS permit was taken for each BEGIN executed")
		}
		if execs-1 == nErr {
			if lost {
				return fakedb.Answer{Err: ck.BadConn}
			}
			return fakedb.Answer{Err: ck.MySQLError(code)}
		}
		return fakedb.Answer{}
	}
	done := false
	end := make(chan bool, 1)
	go func() {
		r.Run(context.Background())
		end <- true
	}()
	select {
	case <-end:
		done = true
	case <-time.After(300 * time.Millisecond):
	}
	verif.Reach("run")
	tq, tt := nq-len(qps), nt-len(tps)
	if done {
		verif.Assert(!hasQPS || tq == execs, "one QPS permit for each query")
		verif.Assert(!hasTPS || tt == begins, "one TPS permit for each BEGIN")
	} else {
		verif.Assert(hasQPS && tq == nq || hasTPS && tt == nt, "a client waits only when it has no permit")
		verif.Assert(!hasQPS || tq == execs, "no QPS permit without a query")
		verif.Assert(!hasTPS || tt == begins || tt == begins+1 && hasQPS && tq == nq, "no TPS permit without a BEGIN")
	}
	if faults {
		return
	}
	// what permits allow is executed
	e, q, t := 0, nq, nt
	blocked := false
	for k := 0; k < iter && !blocked; k++ {
		for i := range all {
			if all[i].Kind == ck.Idle {
				continue
			}
			if hasTPS && all[i].Kind == ck.Begin {
				if t == 0 {
					blocked = true
					break
				}
				t--
			}
			if hasQPS {
				if q == 0 {
					blocked = true
					break
				}
				q--
			}
			e++
		}
	}
	verif.Assert(execs == e && blocked == !done, "every query is executed for which there are permits")
}
