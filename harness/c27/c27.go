// Package c27: execution groups of a workload.
package c27

import (
	"strconv"
	"strings"

	"github.com/square/finch/config"
	"github.com/square/finch/zzverif/verif"
	"github.com/square/finch/zzverif/wl"
)

//verif:bound H_groups: 1..3 (quick) or 1..4 (thorough) client groups, each unnamed or with one of 2 names, each with one of 2 trx, both or none given, any DDL flags (symbolic), no or any iteration limit up to 2^31; H_auto: no workload and 1..6 trx with any DDL flags (symbolic)
//verif:assume names given by the user are not like the automatic ones (ddlN, dmlN)

// check checks groups for client groups with the given names (as configured) and DDL.
func check(groups [][]int, cg []config.ClientGroup, given []string, ddl []bool) {
	next := 0
	for _, g := range groups {
		verif.Assert(len(g) > 0, "an execution group has a client group")
		for k, i := range g {
			verif.Assert(i == next && i < len(given), "client groups in configured order")
			next++
			if k == 0 {
				continue
			}
			ok := false
			if given[i] != "" {
				ok = given[i-1] == given[i]
			} else {
				ok = given[i-1] == "" && !ddl[i] && !ddl[i-1]
			}
			verif.Assert(ok, "client groups of one execution group have the same name or are unnamed without DDL")
		}
		if last := g[len(g)-1]; last+1 < len(given) {
			var same bool
			if given[last] != "" {
				same = given[last+1] == given[last]
			} else {
				same = given[last+1] == "" && !ddl[last] && !ddl[last+1]
			}
			verif.Assert(!same, "consecutive client groups with the same name, or unnamed without DDL, are one execution group")
		}
		for _, i := range g {
			verif.Assert(cg[i].Group == cg[g[0]].Group && cg[i].Group != "", "an execution group has a name")
			if given[i] != "" {
				verif.Assert(cg[i].Group == given[i], "a given name is kept")
			} else if ddl[i] {
				verif.Assert(strings.HasPrefix(cg[i].Group, "ddl"), "automatic name of a group with DDL")
			} else {
				verif.Assert(strings.HasPrefix(cg[i].Group, "dml"), "automatic name of a group without DDL")
			}
		}
	}
	verif.Assert(next == len(given), "every client group is in an execution group")
}

// H_groups: a configured workload.
func H_groups() {
	flags := []bool{verif.Bool("A has ddl"), verif.Bool("B has ddl")}
	set := wl.Set([]int{1, 2}, flags)
	n := 1 + verif.Choose("client groups", verif.Bound(3, 4))
	var cg []config.ClientGroup
	var given []string
	var ddl []bool
	var trxs [][]string
	var iter []int64
	for i := 0; i < n; i++ {
		g := config.ClientGroup{Clients: "1"}
		given = append(given, []string{"", "x", "y"}[verif.Choose("name", 3)])
		g.Group = given[i]
		switch verif.Choose("trx", 4) {
		case 0: // all
			ddl = append(ddl, flags[0] || flags[1])
			trxs = append(trxs, []string{"A", "B"})
		case 1:
			g.Trx = []string{"A"}
			ddl = append(ddl, flags[0])
			trxs = append(trxs, g.Trx)
		case 2:
			g.Trx = []string{"B"}
			ddl = append(ddl, flags[1])
			trxs = append(trxs, g.Trx)
		case 3:
			g.Trx = []string{"B", "A"}
			ddl = append(ddl, flags[0] || flags[1])
			trxs = append(trxs, g.Trx)
		}
		it := int64(0)
		if i == 0 {
			it = verif.Int64("iter", 0, 1<<31)
			g.Iter = strconv.FormatInt(it, 10)
		} else if verif.Choose("iter", 2) == 1 {
			it = 2
			g.Iter = "2"
		}
		iter = append(iter, it)
		cg = append(cg, g)
	}
	a := wl.Allocator(set, cg)
	groups, err := a.Groups()
	verif.Reach("groups")
	verif.Assert(err == nil, "no error")
	verif.Assert(len(a.Workload) == n, "client groups as configured")
	check(groups, a.Workload, given, ddl)
	for i := range a.Workload {
		g := a.Workload[i]
		verif.Assert(strings.Join(g.Trx, " ") == strings.Join(trxs[i], " "), "given trx or all in order")
		got, _ := strconv.ParseInt(g.Iter, 10, 64)
		want := iter[i]
		if want == 0 && ddl[i] {
			want = 1
		}
		verif.Assert(got == want, "iterations as given, else one with DDL")
		verif.Assert(g.Clients == "1", "clients as given")
	}
	// only unnamed groups: names as documented
	for i := range given {
		if given[i] != "" {
			return
		}
	}
	nd, nm := 0, 0
	for i := range given {
		if ddl[i] {
			nd++
			verif.Assert(a.Workload[i].Group == "ddl"+strconv.Itoa(nd), "automatic name of a group with DDL")
			continue
		}
		if i == 0 || ddl[i-1] {
			nm++
		}
		verif.Assert(a.Workload[i].Group == "dml"+strconv.Itoa(nm), "automatic name of a group without DDL")
	}
}

// H_auto: no workload.
func H_auto() {
	n := 1 + verif.Choose("trx", 6)
	stmts := make([]int, n)
	flags := make([]bool, n)
	for i := range flags {
		stmts[i] = 1
		flags[i] = verif.Bool("ddl")
	}
	a := wl.Allocator(wl.Set(stmts, flags), nil)
	groups, err := a.Groups()
	verif.Reach("groups")
	verif.Assert(err == nil, "no error")
	next := 0
	for e, g := range groups {
		verif.Assert(len(g) == 1, "one client group in each execution group")
		cg := a.Workload[g[0]]
		verif.Assert(cg.Clients == "1", "one client")
		verif.Assert(len(cg.Trx) > 0, "a client group has trx")
		for k, name := range cg.Trx {
			verif.Assert(next < n && name == string(rune('A'+next)), "trx in order")
			if flags[next] {
				verif.Assert(len(cg.Trx) == 1, "a trx with DDL runs alone")
				verif.Assert(cg.Iter == "1", "a trx with DDL runs once")
			} else {
				verif.Assert(cg.Iter == "" || cg.Iter == "0", "no iteration limit without DDL")
				if k == len(cg.Trx)-1 && next+1 < n {
					verif.Assert(flags[next+1], "consecutive trx without DDL run together")
				}
			}
			next++
		}
		verif.Assert(e == 0 || a.Workload[groups[e-1][0]].Group != cg.Group, "different execution groups have different names")
	}
	verif.Assert(next == n, "every trx is assigned")
}
