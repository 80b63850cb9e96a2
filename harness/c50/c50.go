// Package c50: the example benchmarks.
package c50

//verif:bound *: the benchmarks of /repo/benchmarks (tools/gen_bench.py), with 2 rows instead of 1000 or 5000 per INSERT; fewer rows, tables, instances and clients; strings of 1 letter; no normal distribution; random draws are all different and known, but the first two of each run (5 values each)
//verif:assume MySQL answers every query after 1 s or more of virtual time, with the rows the harness chooses; rows of tables are not simulated; xids are numbers
//verif:opt * maxsteps=200000000
//verif:opt * native=no
//verif:opt * digits=yes
//verif:opt H_xfer fp=fork
//verif:opt * validate=no
import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/square/finch/boot"
	"github.com/square/finch/zzverif/sys"
	"github.com/square/finch/zzverif/verif"
)

// run runs a stage file of the benchmarks.
func run(my *sys.MySQL, file string, params ...string) {
	dir, err := os.MkdirTemp("", "c50")
	verif.Assert(err == nil, "temp dir")
	defer os.RemoveAll(dir)
	for f, s := range files {
		os.MkdirAll(filepath.Dir(dir+"/"+f), 0700)
		os.WriteFile(dir+"/"+f, []byte(s), 0600)
	}
	my.ListenAt("fake")
	args := []string{"finch", "--dsn", "u@fake(x)/", "-D", "finch"}
	for _, p := range params {
		args = append(args, "-p", p)
	}
	err = boot.Up(boot.Env{Args: append(args, dir+"/"+file)})
	verif.Reach("end")
	verif.Assert(err == nil, "no error")
}

// small makes random draws few: only the first two are unknown.
func small() {
	verif.OnRand(func(n int, v uint64) {
		verif.Assume(v >= 10)
		verif.Assume(v <= 14 || n >= 2)
		verif.Assume(n < 2 || v == uint64(10+n%41))
	})
}

type query struct {
	q   string
	seq int      // number of the query on the server
	row []string // its result
}

// byConn returns the queries of every connection, without the USE of its start.
func byConn(my *sys.MySQL, rows map[int][][]string) [][]query {
	qs := make([][]query, my.Conns+1)
	for i, q := range my.Queries {
		c := my.Conn[i]
		if q == "USE `finch`" {
			verif.Assert(len(qs[c]) == 0, "the default database is set first")
			continue
		}
		x := query{q: q, seq: i + 1}
		if strings.HasPrefix(q, "SELECT ") && len(rows[c]) > 0 {
			x.row, rows[c] = rows[c][0], rows[c][1:]
		}
		qs[c] = append(qs[c], x)
	}
	var all [][]query
	for _, q := range qs {
		if len(q) > 0 {
			all = append(all, q)
		}
	}
	return all
}

// match returns what is between the parts of a query; * matches anything.
func match(q, pattern string) []string {
	var vals []string
	for i, lit := range strings.Split(pattern, "*") {
		if i == 0 {
			ok := strings.HasPrefix(q, lit)
			verif.Assert(ok, pattern)
			q = q[len(lit):]
			continue
		}
		if lit == "" {
			return append(vals, q)
		}
		k := 0
		for k+len(lit) <= len(q) && q[k:k+len(lit)] != lit {
			k++
		}
		verif.Assert(k+len(lit) <= len(q), pattern)
		vals = append(vals, q[:k])
		q = q[k+len(lit):]
	}
	verif.Assert(q == "", pattern)
	return vals
}

var xferQueries = []string{"BEGIN", "SELECT c_token, country FROM customers WHERE id=", "SELECT b_token FROM balances WHERE c_token=", "SELECT c_token FROM customers WHERE id BETWEEN ",
	"SELECT b_token FROM balances WHERE c_token=", "INSERT INTO xfers VALUES (NULL, ", "SELECT id, version FROM balances WHERE b_token=", "UPDATE balances SET cents=cents-100, version=version+1 WHERE id=",
	"SELECT id, version FROM balances WHERE b_token=", "UPDATE balances SET cents=cents+100, version=version+1 WHERE id=", "UPDATE xfers SET t2=NOW(), c3='DONE' WHERE id=", "COMMIT"}

// H_xfer: a transfer uses the sender, receiver, balances and transfer it selected, however clients interleave.
func H_xfer() {
	small()
	clients := verif.Choose("clients", verif.Bound(2, 3)) + 1
	d := 3 - verif.Choose("delay", verif.Bound(1, 2))
	my := &sys.MySQL{Ids: true, Delay: time.Duration(d) * time.Second}
	n := 0
	rows := map[int][][]string{}
	my.RowsOf = func(conn int, q string) (int, [][]string) {
		if !strings.HasPrefix(q, "SELECT ") {
			return 0, nil
		}
		n++
		r := []string{fmt.Sprintf("tok%03d", n)}
		switch {
		case strings.HasPrefix(q, "SELECT id, "):
			r = []string{fmt.Sprint(1000 + n), "1"}
		case strings.HasPrefix(q, "SELECT c_token, "):
			r = append(r, fmt.Sprintf("C%02d", n))
		}
		rows[conn] = append(rows[conn], r)
		return len(r), [][]string{r}
	}
	run(my, "xfer/xfer.yaml", fmt.Sprintf("clients=%d", clients), "lower=1,000", "upper=2k")
	all, tokens := byConn(my, rows), map[string]bool{}
	verif.Assert(len(all) == clients, "every client has a connection")
	for _, qs := range all {
		verif.Assert(len(qs)*d >= 60-3*d && len(qs)*d <= 60+d, "runs for 60 s")
		for i, q := range qs {
			pre := xferQueries[i%12]
			verif.Assert(strings.HasPrefix(q.q, pre), "the statements of the trx in order")
			if i%12 == 11 {
				checkXfer(qs[i-11:i+1], tokens)
			}
		}
	}
}

func checkXfer(t []query, tokens map[string]bool) {
	id := func(s string) {
		verif.Assert(len(s) == 4, "customers from lower to upper")
		verif.Assert(s >= "1000" && s <= "2000", "customers from lower to upper")
	}
	quote := func(s string) string { return "'" + s + "'" }
	m := match(t[1].q, "SELECT c_token, country FROM customers WHERE id=* -- 2")
	id(m[0])
	m = match(t[2].q, "SELECT b_token FROM balances WHERE c_token=* LIMIT 1 -- 3")
	verif.Assert(m[0] == quote(t[1].row[0]), "balance of the sender")
	m = match(t[3].q, "SELECT c_token FROM customers WHERE id BETWEEN * AND *+100 AND country=* LIMIT 1 -- 4")
	id(m[0])
	verif.Assert(m[0] == m[1], "the receiver is one of the 100 after the random one")
	verif.Assert(m[2] == quote(t[1].row[1]), "the receiver is of the country of the sender")
	m = match(t[4].q, "SELECT b_token FROM balances WHERE c_token=* LIMIT 1 -- 5")
	verif.Assert(m[0] == quote(t[3].row[0]), "balance of the receiver")
	s, r := quote(t[2].row[0]), quote(t[4].row[0])
	m = match(t[5].q, "INSERT INTO xfers VALUES (NULL, '*', 100, 'USD', *, *, 1, '*', '*', '*', NOW(), NULL, NULL, 1, 0, NOW(), NOW()) -- 6")
	verif.Assert(len(m[0]) > 0 && !tokens[m[0]], "the token of the transfer is new")
	tokens[m[0]] = true
	verif.Assert(m[1] == s && m[2] == r, "the transfer is between the balances")
	verif.Assert(len(m[3]) == 1 && len(m[4]) == 1 && len(m[5]) == 1, "strings of the length configured")
	m = match(t[6].q, "SELECT id, version FROM balances WHERE b_token=* FOR UPDATE -- 7")
	verif.Assert(m[0] == s, "the balance of the sender is locked")
	m = match(t[7].q, "UPDATE balances SET cents=cents-100, version=version+1 WHERE id=* -- 8")
	verif.Assert(m[0] == t[6].row[0], "the balance of the sender is updated")
	m = match(t[8].q, "SELECT id, version FROM balances WHERE b_token=* FOR UPDATE -- 9")
	verif.Assert(m[0] == r, "the balance of the receiver is locked")
	m = match(t[9].q, "UPDATE balances SET cents=cents+100, version=version+1 WHERE id=* -- 10")
	verif.Assert(m[0] == t[8].row[0], "the balance of the receiver is updated")
	m = match(t[10].q, "UPDATE xfers SET t2=NOW(), c3='DONE' WHERE id=* -- 11")
	verif.Assert(m[0] == fmt.Sprint(t[5].seq), "the transfer inserted is updated")
}

// H_xferSetup: the tables are made first, then all customers and transfers are inserted.
func H_xferSetup() {
	zero()
	n := verif.Choose("customers", verif.Bound(3, 4)) + 1
	size := verif.Choose("size", 2) + 1
	my := &sys.MySQL{Delay: time.Second}
	affect(my)
	rows := map[int][][]string{}
	asked, xfers := 0, 0
	my.RowsOf = func(conn int, q string) (int, [][]string) {
		r := []string{"finch"}
		switch {
		case strings.HasPrefix(q, "SELECT COALESCE("):
			asked++
			r = []string{"1000"}
			if asked > size {
				r = []string{"2000000"}
			}
		case q == "SELECT DATABASE()":
		default:
			return 0, nil
		}
		rows[conn] = append(rows[conn], r)
		return 1, [][]string{r}
	}
	run(my, "xfer/setup.yaml", fmt.Sprintf("customers=%d", n), "xfers-size=1M")
	made, customers, tokens := 0, 0, map[string]bool{}
	fresh := func(s string) string {
		verif.Assert(len(s) > 0 && !tokens[s], "tokens are unique")
		tokens[s] = true
		return s
	}
	for _, q := range my.Queries {
		switch {
		case strings.HasPrefix(q, "CREATE TABLE "):
			verif.Assert(strings.HasPrefix(q[13:], []string{"customers (", "balances (", "xfers ("}[made]), "tables are made in order")
			made++
		case strings.HasPrefix(q, "INSERT "):
			verif.Assert(made == 3, "rows are inserted after tables are made")
		}
	}
	for _, t := range byConn(my, rows) {
		last := ""
		for _, x := range t {
			q := x.q
			switch {
			case strings.HasPrefix(q, "INSERT INTO customers"):
				verif.Assert(last == "BEGIN", "customers are inserted in a trx")
				m := match(q, "INSERT INTO customers VALUES (NULL, '*', 'USA', '*', '*', '*', 1, NOW(), NOW())")
				customers++
				fresh(m[0])
				last = m[0]
			case strings.HasPrefix(q, "INSERT INTO balances"):
				m := match(q, "INSERT INTO balances VALUES*(NULL, '*', '*', 1, 100, 'USD', '*', '*', 1, NOW(), NOW()),*(NULL, '*', '*', 1, 200, 'USD', '*', '*', 1, NOW(), NOW()),*(NULL, '*', '*', 1, 300, 'USD', '*', '*', 1, NOW(), NOW())")
				for i := 0; i < 15; i += 5 {
					fresh(m[i+1])
					verif.Assert(m[i+2] == last, "the 3 balances are of the customer")
				}
				last = "balances"
			case q == "COMMIT":
				verif.Assert(last == "balances", "a customer is committed with its balances")
				last = q
			case strings.HasPrefix(q, "INSERT INTO xfers"):
				m := match(q, "INSERT INTO xfers VALUES (NULL, '*', 0, 'USD', '*', '*', 1, '*', '*', '*', NULL, NULL, NULL, 0, 0, NOW(), NOW()), (NULL, '*', 0, 'USD', '*', '*', 1, '*', '*', '*', NULL, NULL, NULL, 0, 0, NOW(), NOW())")
				for i := 0; i < 12; i += 6 {
					fresh(m[i])
					fresh(m[i+1])
					fresh(m[i+2])
				}
				xfers++
			default:
				last = q
			}
		}
	}
	verif.Assert(made == 3, "all tables are made")
	verif.Assert(customers >= n && customers <= n+1, "as many customers as configured, but one client might insert another")
	verif.Assert(asked > size && asked <= size+2, "transfers are inserted until their table has the size")
	verif.Assert(xfers >= size*3 && xfers <= size*3+4, "the size is checked every third time")
}

// zero makes random draws known, all different.
func zero() {
	verif.OnRand(func(n int, v uint64) { verif.Assume(v == uint64(10+n%41)) })
}

// affect has an INSERT affect its rows.
func affect(my *sys.MySQL) {
	my.Affected = func(q string) int {
		if !strings.HasPrefix(q, "INSERT ") {
			return 0
		}
		n := 0
		for i := 0; i+5 < len(q); i++ {
			if q[i] == '(' && q[i:i+5] == "(NULL" {
				n++
			}
		}
		return n
	}
}

// H_setup: the setup stages of the other benchmarks.
func H_setup() {
	zero()
	my := &sys.MySQL{Delay: time.Second}
	affect(my)
	a, n := verif.Choose("tables", 2)+1, verif.Choose("rows", verif.Bound(4, 6))+1
	inserts := (n + 1) / 2 // 2 rows each
	var want []string
	switch verif.Choose("benchmark", 4) {
	case 0:
		run(my, "aurora/setup.yaml", fmt.Sprintf("tables=%d", a), fmt.Sprintf("rows=%d", n))
		for i := 1; i <= a; i++ {
			want = append(want, fmt.Sprintf("CREATE TABLE sbtest%d (*", i))
		}
		// ANALYZE is not DDL: it is executed with the INSERT, every time
		for j := 0; j < inserts; j++ {
			for i := 1; i <= a; i++ {
				want = append(want, fmt.Sprintf("INSERT INTO sbtest%d VALUES (NULL, *, '*', '*'), (NULL, *, '*', '*')", i))
			}
			for i := 1; i <= a; i++ {
				want = append(want, fmt.Sprintf("ANALYZE TABLE sbtest%d", i))
			}
		}
	case 1:
		run(my, "sysbench/setup.yaml", fmt.Sprintf("rows=%d", n))
		want = append(want, "CREATE TABLE sbtest1 (*")
		for j := 0; j < inserts; j++ {
			want = append(want, "INSERT INTO sbtest1 VALUES (NULL, *, '*', '*'), (NULL, *, '*', '*')")
		}
		want = append(want, "ALTER TABLE sbtest1 ADD INDEX `k_1` (`k`)", "ANALYZE TABLE sbtest1")
	case 2:
		my.Affected = func(q string) int {
			if q[0] == 'I' {
				return 250
			}
			return 0
		}
		files["intro/insert-rows.sql"] = strings.Replace(files["intro/insert-rows.sql"], "100,000", fmt.Sprint(250*n), 1)
		run(my, "intro/setup.yaml")
		want = append(want, "CREATE TABLE t1 (*")
		for j := 1; j <= n; j++ {
			want = append(want, fmt.Sprintf("INSERT INTO finch.t1 (id, n, c) VALUES (%d, *, '*')", j))
		}
	case 3:
		files["jcole-bug-97001/setup.yaml"] = strings.Replace(files["jcole-bug-97001/setup.yaml"], "iter-clients: 200", fmt.Sprintf("iter-clients: %d", 2+n), 1)
		run(my, "jcole-bug-97001/setup.yaml")
		seen := map[string]bool{}
		want = append(want, "CREATE TABLE t (*")
		for j := 0; j < 2+n; j++ {
			want = append(want, "INSERT INTO t (id, other_id, covered_column, non_covered_column) VALUES (*, * % 1000, *, *), (*, * % 1000, *, *)")
		}
		for _, q := range my.Queries {
			if q[0] != 'I' {
				continue
			}
			m := match(q, want[1])
			for k := 0; k < 8; k += 4 {
				verif.Assert(!seen[m[k]], "every row has its own number")
				seen[m[k]] = true
				verif.Assert(m[k+1] == m[k] && m[k+2] == m[k] && m[k+3] == m[k], "a row has one number")
			}
		}
		for k := 1; k <= 2*(2+n); k++ {
			verif.Assert(seen[fmt.Sprint(k)], "the rows are numbered from 1")
		}
	}
	var got []string
	for _, q := range my.Queries {
		if q != "USE `finch`" {
			got = append(got, q)
		}
	}
	verif.Assert(len(got) == len(want), "as many queries as configured")
	for i := range got {
		match(got[i], want[i])
	}
}

// H_run: the other stages of the benchmarks.
func H_run() {
	small()
	clients := verif.Choose("clients", 2) + 1
	my := &sys.MySQL{}
	my.Rows = func(q string) (int, [][]string) {
		if strings.HasPrefix(q, "SELECT ") {
			return 1, [][]string{{"1"}}
		}
		return 0, nil
	}
	secs, d := 60, 6
	var trx []string
	k := verif.Choose("benchmark", 5)
	files["sysbench/_all.yaml"] = strings.Replace(files["sysbench/_all.yaml"], "10,000", "500", 1)
	for _, f := range []string{"sysbench/read-only.yaml", "sysbench/write-only.yaml", "intro/row-lock.yaml", "intro/read-only.yaml"} {
		for _, n := range []string{"1", "4"} {
			files[f] = strings.Replace(files[f], "- clients: "+n+"\n", fmt.Sprintf("- clients: %d\n", clients), 1)
		}
	}
	switch k {
	case 0:
		secs, d = 600, 60
		my.Delay = time.Duration(d) * time.Second
		run(my, "aurora/write-only.yaml", "instances=1", fmt.Sprintf("clients=%d", clients), "tables=90", "rows=200")
		trx = []string{"BEGIN", "UPDATE sbtest* SET k=k+1 WHERE id=*", "UPDATE sbtest* SET c='*' WHERE id=*", "DELETE FROM sbtest* WHERE id=*", "INSERT INTO sbtest* (id, k, c, pad) VALUES (*, *, '*', '*')", "COMMIT"}
	case 1:
		my.Delay = time.Duration(d) * time.Second
		run(my, "sysbench/write-only.yaml", "rows=500")
		trx = []string{"BEGIN", "UPDATE sbtest1 SET k=k+1 WHERE id=*", "UPDATE sbtest1 SET c='*' WHERE id=*", "DELETE FROM sbtest1 WHERE id=*", "INSERT INTO sbtest1 (id, k, c, pad) VALUES (*, *, '*', '*')", "COMMIT"}
	case 2:
		d = 3
		my.Delay = time.Duration(d) * time.Second
		run(my, "sysbench/read-only.yaml", "rows=500")
		trx = []string{"BEGIN"}
		for i := 0; i < 10; i++ {
			trx = append(trx, "SELECT c FROM sbtest1 WHERE id=*")
		}
		trx = append(trx, "SELECT c FROM sbtest1 WHERE id BETWEEN * AND *", "SELECT SUM(k) FROM sbtest1 WHERE id BETWEEN * AND *", "SELECT c FROM sbtest1 WHERE id BETWEEN * AND * ORDER BY c", "SELECT DISTINCT c FROM sbtest1 WHERE id BETWEEN * AND * ORDER BY c", "COMMIT")
	case 3:
		secs, d = 20, 3
		my.Delay = time.Duration(d) * time.Second
		run(my, "intro/row-lock.yaml")
		trx = []string{"BEGIN", "SELECT c FROM finch.t1 WHERE id = * FOR UPDATE", "UPDATE finch.t1 SET n = n + 1 WHERE id = *", "COMMIT"}
	case 4:
		secs, d = 10, 3
		my.Delay = time.Duration(d) * time.Second
		run(my, "intro/read-only.yaml")
		trx = []string{"SELECT n, c FROM finch.t1 WHERE id = *"}
	}
	all := byConn(my, map[int][][]string{})
	verif.Assert(len(all) == clients, "every client has a connection")
	for _, qs := range all {
		verif.Assert(len(qs)*d >= secs-3*d && len(qs)*d <= secs+d, "runs as long as configured")
		var m [][]string
		for i, q := range qs {
			if i%len(trx) == 0 {
				m = nil
			}
			m = append(m, match(q.q, trx[i%len(trx)]))
			if i%len(trx) < len(trx)-1 {
				continue
			}
			switch k {
			case 0:
				verif.Assert(m[1][0] == m[2][0] && m[2][0] == m[3][0] && m[3][0] == m[4][0], "one table per trx")
				verif.Assert(m[3][1] == m[4][1], "the row deleted is inserted")
			case 1:
				verif.Assert(m[3][0] == m[4][0], "the row deleted is inserted")
			case 2:
				for _, r := range m[11:15] {
					verif.Assert(len(r[0]) < len(r[1]) || len(r[0]) == len(r[1]) && r[0] <= r[1], "ranges")
				}
			case 3:
				verif.Assert(m[1][0] == m[2][0], "the row locked is updated")
			}
		}
	}
}
