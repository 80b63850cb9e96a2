// Package c14: database and table size limits.
//
//verif:opt * fp=nd
package c14

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"regexp"
	"strconv"
	"strings"

	"github.com/square/finch/config"
	"github.com/square/finch/limit"
	"github.com/square/finch/zzverif/fakedb"
	"github.com/square/finch/zzverif/tf"
	"github.com/square/finch/zzverif/verif"
)

//verif:bound H_size: database, table and qualified table limits; any max up to 2^46 bytes (limits of 100 GiB or more, checked every 1000 calls: thorough); 0..2 base tables and a view in the database and one in another database; any sizes up to 2^44 bytes each; 2 measurements; H_error: an error at any one query of the first two measurements; H_client: a client's run of a loaded trx file with any sizes, 7 iterations
//verif:assume the server answers SHOW FULL TABLES, SELECT DATABASE(), ANALYZE TABLE and queries of information_schema.TABLES as MySQL documents (sizes are those at the last ANALYZE TABLE); floating point in progress reports is any value

// table is a table of the server; real is its size, known its size at the last ANALYZE.
type table struct {
	db, name, typ string
	data, index   int64
	kd, ki        int64
}

type server struct {
	tables   []*table
	current  string // current database of the connection
	show     int
	analyzed [][]string
	sized    int
	fail     int // fail the fail'th query (1 is the first)
	n        int
}

var errFail = errors.New("fails")

var (
	schemaRE = regexp.MustCompile("(?i)table_schema\\s*=\\s*('[^']*'|\"[^\"]*\"|database\\(\\)|schema\\(\\)|\\?)")
	tableRE  = regexp.MustCompile("(?i)table_name\\s*=\\s*('[^']*'|\"[^\"]*\"|\\?)")
	showRE   = regexp.MustCompile("(?i)^show\\s+full\\s+tables(\\s+(from|in)\\s+`?([^`\\s;]+)`?)?")
)

func (s *server) find(name string) *table {
	name = strings.ReplaceAll(strings.TrimSpace(name), "`", "")
	db := s.current
	if i := strings.Index(name, "."); i >= 0 {
		db, name = name[:i], name[i+1:]
	}
	for _, t := range s.tables {
		if t.db == db && t.name == name {
			return t
		}
	}
	return nil
}

// filter returns the value that a condition compares with.
func (s *server) filter(re *regexp.Regexp, q string, args *[]interface{}) (string, bool) {
	m := re.FindStringSubmatch(q)
	if m == nil {
		return "", false
	}
	switch {
	case m[1] == "?":
		v := (*args)[0].(string)
		*args = (*args)[1:]
		return v, true
	case strings.HasSuffix(m[1], "()"):
		return s.current, true
	}
	return m[1][1 : len(m[1])-1], true
}

func (s *server) answer(e fakedb.Event) fakedb.Answer {
	if e.Kind != "query" && e.Kind != "exec" {
		return fakedb.Answer{}
	}
	s.n++
	if s.n == s.fail {
		return fakedb.Answer{Err: errFail}
	}
	up := strings.ToUpper(strings.TrimSpace(e.SQL))
	if strings.HasPrefix(up, "SHOW FULL TABLES") {
		s.show++
		m := showRE.FindStringSubmatch(strings.TrimSpace(e.SQL))
		db := m[3]
		if db == "" {
			db = s.current
		}
		if db == "" {
			return fakedb.Answer{Err: errFail}
		}
		a := fakedb.Answer{}
		for _, t := range s.tables {
			if t.db == db {
				a.Rows = append(a.Rows, []driver.Value{t.name, t.typ})
			}
		}
		return a
	}
	if strings.HasPrefix(up, "SELECT DATABASE()") {
		if s.current == "" {
			return fakedb.Answer{Rows: [][]driver.Value{{nil}}}
		}
		return fakedb.Answer{Rows: [][]driver.Value{{s.current}}}
	}
	if strings.HasPrefix(up, "ANALYZE TABLE") {
		var names []string
		for _, n := range strings.Split(strings.TrimSpace(e.SQL)[len("ANALYZE TABLE"):], ",") {
			t := s.find(n)
			if t == nil || t.typ != "BASE TABLE" {
				names = append(names, "?"+n)
				continue
			}
			names = append(names, t.db+"."+t.name)
			t.kd, t.ki = t.data, t.index
		}
		s.analyzed = append(s.analyzed, names)
		return fakedb.Answer{}
	}
	if strings.Contains(up, "INFORMATION_SCHEMA.TABLES") {
		s.sized++
		args := append([]interface{}{}, e.Args...)
		db, byDB := s.filter(schemaRE, e.SQL, &args)
		name, byName := s.filter(tableRE, e.SQL, &args)
		a := fakedb.Answer{}
		sum := int64(0)
		for _, t := range s.tables {
			if byDB && t.db != db || byName && t.name != name {
				continue
			}
			n := int64(0)
			if strings.Contains(up, "DATA_LENGTH") {
				n += t.kd
			}
			if strings.Contains(up, "INDEX_LENGTH") {
				n += t.ki
			}
			sum += n
			a.Rows = append(a.Rows, []driver.Value{n})
		}
		if strings.Contains(up, "SUM(") {
			a.Rows = [][]driver.Value{{sum}}
		}
		return a
	}
	verif.Fail("a query the server does not know: " + e.SQL)
	return fakedb.Answer{}
}

const gib = 1 << 30

// setup makes a server and a limit; it returns the tables that the limit measures.
func setup(max int64) (*server, limit.Data, *sql.Conn, []*table) {
	s := &server{}
	base := verif.Choose("base tables", 3)
	s.tables = append(s.tables, &table{db: "d2", name: "t1", typ: "BASE TABLE"})
	for i := 0; i < base; i++ {
		s.tables = append(s.tables, &table{db: "d1", name: "t" + strconv.Itoa(i+1), typ: "BASE TABLE"})
	}
	s.tables = append(s.tables, &table{db: "d1", name: "v", typ: "VIEW"}, &table{db: "d1", name: "w", typ: "SYSTEM VIEW"})
	s.current = []string{"d1", "d2", ""}[verif.Choose("current database", 3)]
	var l limit.Data
	var of []*table
	kind := verif.Choose("limit of", 3)
	if base == 0 {
		verif.Assume(kind == 1 && s.current == "d2")
	}
	switch kind {
	case 0: // database
		l = limit.NewSize(uint64(max), "max", "d1", "")
		of = s.tables[1 : 1+base]
	case 1: // table of the current database
		verif.Assume(s.current != "")
		l = limit.NewSize(uint64(max), "max", "", "t1")
		of = s.tables[:1]
		if s.current == "d1" {
			of = s.tables[1:2]
		}
	case 2: // table of a database
		l = limit.NewSize(uint64(max), "max", "", "d1.t1")
		of = s.tables[1:2]
	}
	d := &fakedb.DB{Answer: s.answer}
	conn, err := d.SQL().Conn(context.Background())
	verif.Assert(err == nil, "connected")
	return s, limit.Or(nil, l), conn, of
}

// grow sets new sizes and returns the size of the tables that the limit measures.
func (s *server) grow(of []*table) int64 {
	for _, t := range s.tables {
		if t.typ == "BASE TABLE" {
			t.data = verif.Int64("data", 0, 1<<44)
			t.index = verif.Int64("index", 0, 1<<44)
		}
	}
	n := int64(0)
	for _, t := range of {
		n += t.data + t.index
	}
	return n
}

func same(a []string, of []*table) bool {
	if len(a) != len(of) {
		return false
	}
	for _, t := range of {
		ok := false
		for _, n := range a {
			if n == t.db+"."+t.name {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

// H_size: writes are allowed until the measured size reaches the limit.
func H_size() {
	var max int64
	calls := 12
	switch verif.Choose("max", verif.Bound(2, 3)) {
	case 0:
		max = verif.Int64("max", 1, gib)
	case 1:
		max = verif.Int64("max", gib+1, 100*gib-1)
	case 2:
		max = verif.Int64("max", 100*gib, 1<<46)
		calls = 2000
	}
	s, l, conn, of := setup(max)
	verif.Reach("limit")
	period := 0
	for k := 1; k <= calls && s.sized < 2; k++ {
		if period == 0 || k%period == 0 || k%period == 1 {
			was := s.sized
			n := s.grow(of)
			an := len(s.analyzed)
			more := l.More(conn)
			l.Affected(verif.Int64("affected", 0, 10))
			if s.sized == was {
				verif.Assert(more, "more data is allowed between measurements")
				verif.Assert(period == 0 || k%period != 0, "size is measured every so many calls")
				continue
			}
			if period == 0 {
				period = k
			}
			verif.Assert(k%period == 0, "size is measured every so many calls")
			verif.Assert(len(s.analyzed) == an+1 && same(s.analyzed[an], of), "exactly the measured tables are analyzed before")
			verif.Assert(more == (n < max), "more data exactly while the size is less than the limit")
			continue
		}
		was := s.sized
		verif.Assert(l.More(conn) && s.sized == was, "more data is allowed between measurements")
	}
	verif.Assert(s.sized == 2, "size is measured")
	verif.Assert(period <= 1000, "size is measured at least every 1000 calls")
}

// H_error: writes stop when the size cannot be measured.
func H_error() {
	max := verif.Int64("max", 1, 100*gib-1)
	s, l, conn, of := setup(max)
	s.fail = 1 + verif.Choose("failed query", 6)
	verif.Reach("limit")
	failed := false
	for k := 0; k < 12 && !failed; k++ {
		was := s.sized
		n := s.grow(of)
		more := l.More(conn)
		if s.n >= s.fail {
			failed = true
			verif.Assert(!more, "no more data when the size cannot be measured")
			break
		}
		verif.Assert(more == (s.sized == was || n < max), "more data exactly while the size is less than the limit")
	}
	verif.Assert(failed || s.sized >= 2, "size is measured")
}

// H_client: a client stops at the measured limit.
func H_client() {
	s := &server{current: "d2", tables: []*table{{db: "d1", name: "t1", typ: "BASE TABLE"}, {db: "d1", name: "v", typ: "VIEW"}, {db: "d2", name: "t1", typ: "BASE TABLE"}}}
	mod, max := "-- database-size: d1 ", int64(0)
	of := s.tables[:1]
	if verif.Choose("table size", 2) == 1 {
		mod = "-- table-size: t1 "
		of = s.tables[2:3]
	}
	if verif.Choose("max", 2) == 0 {
		mod, max = mod+"2MB", 2000000
	} else {
		mod, max = mod+"5.5GB", 5500000000
	}
	rows := int64(0)
	if verif.Choose("rows", 2) == 1 {
		rows = verif.Int64("rows", 1, 8)
		mod += "\n-- rows: " + strconv.FormatInt(rows, 10)
	}
	set, err := tf.Load(mod+"\nINSERT x", map[string]config.Data{}, nil)
	verif.Assert(err == nil, "loaded")
	writes, atLimit := int64(0), int64(0)
	d := &fakedb.DB{Answer: func(e fakedb.Event) fakedb.Answer {
		if e.Kind == "exec" && e.SQL == "INSERT x" {
			verif.Assert(atLimit == 0, "no write after the size was measured to be at the limit")
			writes++
			return fakedb.Answer{Affected: 1}
		}
		was := s.sized
		n := int64(0)
		if strings.HasPrefix(e.SQL, "ANALYZE") {
			n = s.grow(of)
		}
		a := s.answer(e)
		for _, t := range of {
			n = t.kd + t.ki
		}
		if s.sized > was && n >= max {
			atLimit = writes + 1
		}
		return a
	}}
	c := tf.Run(set, d, "7")
	verif.Reach("done")
	verif.Assert(c.Error.Err == nil, "no error")
	want := int64(7)
	if rows > 0 && rows < want {
		want = rows
	}
	verif.Assert(writes <= want, "writes stop at every limit")
	verif.Assert(atLimit > 0 || writes == want, "writes stop only at a limit")
}
