// Package wl builds workloads.
package wl

import (
	"github.com/square/finch"
	"github.com/square/finch/client"
	"github.com/square/finch/config"
	"github.com/square/finch/data"
	"github.com/square/finch/dbconn"
	"github.com/square/finch/trx"
	"github.com/square/finch/workload"
)

// Set makes trx A, B, ... with the given numbers of statements and DDL flags.
func Set(stmts []int, ddl []bool) *trx.Set {
	s := &trx.Set{Statements: map[string][]*trx.Statement{}, Meta: map[string]trx.Meta{}, Data: data.NewScope()}
	for i := range stmts {
		name := string(rune('A' + i))
		s.Order = append(s.Order, name)
		s.Meta[name] = trx.Meta{DDL: ddl[i]}
		for k := 0; k < stmts[i]; k++ {
			s.Statements[name] = append(s.Statements[name], &trx.Statement{Trx: name, Query: "q", DDL: ddl[i]})
		}
	}
	return s
}

// Allocator makes an allocator for stage 1.
func Allocator(s *trx.Set, cg []config.ClientGroup) *workload.Allocator {
	finch.ModifyDB = nil
	dbconn.SetConfig(config.MySQL{DSN: "u:p@tcp(127.0.0.1)/"})
	return &workload.Allocator{Stage: 1, StageName: "s", TrxSet: s, Workload: cg, DoneChan: make(chan *client.Client, 1)}
}
