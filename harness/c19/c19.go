// Package c19: csv templates.
package c19

import (
	"database/sql/driver"
	"fmt"
	"strconv"

	"github.com/square/finch"
	"github.com/square/finch/config"
	"github.com/square/finch/trx"
	"github.com/square/finch/zzverif/fakedb"
	"github.com/square/finch/zzverif/tf"
	"github.com/square/finch/zzverif/verif"
)

//verif:bound templates with 3 items (quick) or 4 (thorough): uses of 3 data keys (default, explicit row or wider scope; one name a prefix of the other, with any next character), implicit or explicit, @PREV, a saved column, text; 0..3 (quick) or 0..4 (thorough) rows (symbolic)
//verif:bound H_text: 2 (quick) or 3 (thorough) printable characters in quotes, except @, % and the end of the template; 0-3 rows
//verif:bound H_many: 3 (quick) or 4 (thorough) keys with any scopes, 3 rows; H_rows: a client executes the statement twice with any values; H_scope: trx.RowScope with any subset of row-scoped keys

func name(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '-'
}

type item struct {
	key      string // "" for text
	text     string
	explicit bool
}

// template is a list of n items. Keys: r (row scope), w (wider scope), c (saved column).
func template(n int, r, w string) (items []item) {
	for i := 0; i < n; i++ {
		it := item{}
		switch verif.Choose("item", 5) {
		case 0:
			it.key = r
			it.explicit = verif.Choose("explicit", 2) == 1
		case 1:
			it.key = w
			it.explicit = verif.Choose("explicit", 2) == 1
		case 2:
			verif.Assume(i > 0 && items[i-1].key == w)
			it.key = "PREV"
		case 3:
			it.key = "c"
		case 4:
			it.text = "NULL"
		}
		items = append(items, it)
	}
	return
}

// H_rows: the statement that is loaded and executed.
func H_rows() {
	c := verif.Bytes("name", 1)
	verif.Assume(name(c[0]))
	r, w := "r"+c, "r"
	if verif.Choose("prefix", 2) == 1 {
		r, w = "r", "r"+c
	}
	items := template(verif.Bound(3, 4), r, w)
	sep := ", "
	rows := verif.Int64("rows", 0, int64(verif.Bound(3, 4)))
	wscope := []string{finch.SCOPE_STATEMENT, finch.SCOPE_TRX, finch.SCOPE_ROW}[verif.Choose("scope", 3)]
	rscope := []string{"", finch.SCOPE_ROW}[verif.Choose("row scope", 2)]

	tmpl, usesCol, two := "(", false, false
	for i, it := range items {
		if i > 0 {
			tmpl += sep
		}
		if it.key == "" {
			tmpl += it.text
			continue
		}
		tmpl += "@" + it.key
		if it.explicit {
			tmpl += "()"
		}
		usesCol = usesCol || it.key == "c"
		two = two || it.key == "PREV"
	}
	tmpl += ")"
	if two { // every use of w is followed by @PREV
		for i, it := range items {
			verif.Assume(it.key != w || i+1 < len(items) && items[i+1].key == "PREV")
		}
	}
	verif.Assume(!usesCol || rows > 0) // else the column isn't used
	width := "1"
	if two {
		width = "2"
	}
	text := "INSERT INTO t VALUES /*!csv " + strconv.FormatInt(rows, 10) + " " + tmpl + "*/ x"
	if usesCol {
		text = "-- save-columns: @c\nSELECT c FROM u\n\n" + text
	}
	cfg := map[string]config.Data{r: tf.Key(rscope, "'%d'", "1"), w: tf.Key(wscope, "%d", width)}
	tf.Base = verif.Int64("base", -1<<62, 1<<62)
	set, err := tf.Load(text, cfg, nil)
	verif.Reach("loaded")
	verif.Assert(err == nil, "loaded")
	st := set.Statements["t"]
	s := st[len(st)-1]

	// the query
	row := "("
	for i, it := range items {
		if i > 0 {
			row += sep
		}
		switch it.key {
		case "":
			row += it.text
		case r:
			row += "'%d'"
		case "c":
			row += "%v"
		default:
			row += "%d"
		}
	}
	row += ")"
	want := "INSERT INTO t VALUES "
	for i := int64(0); i < rows; i++ {
		if i > 0 {
			want += ", "
		}
		want += row
	}
	want += " x"
	verif.Assert(s.Query == want, "N copies of the template joined by commas")

	// what a client executes
	db := &fakedb.DB{}
	db.Answer = func(e fakedb.Event) fakedb.Answer {
		if e.Kind == "query" {
			return fakedb.Answer{Rows: [][]driver.Value{{"col"}}}
		}
		return fakedb.Answer{}
	}
	cl := tf.Run(set, db, "2")
	verif.Assert(cl.Error.Err == nil, "executed")
	var q []fakedb.Event
	for _, e := range db.Queries() {
		if e.Kind == "exec" {
			q = append(q, e)
		}
	}
	verif.Assert(len(q) == 2, "executed twice")
	calls := int64(0)
	var wv int64
	for it := 0; it < 2; it++ {
		seenW := false
		var vals []interface{}
		for k := int64(0); k < rows; k++ {
			seenR := false
			if wscope == finch.SCOPE_ROW {
				seenW = false
			}
			var rv int64
			for _, x := range items {
				switch x.key {
				case "":
				case "c":
					vals = append(vals, "col")
				case "PREV":
					vals = append(vals, wv+1000)
				case r: // first use in the row is a new value
					if !seenR || x.explicit {
						calls++
						rv, seenR = tf.Base+calls, true
					}
					vals = append(vals, rv)
				default: // first use in the statement is a new value
					if !seenW || x.explicit {
						calls++
						wv, seenW = tf.Base+calls, true
					}
					vals = append(vals, wv)
				}
			}
		}
		verif.Assert(q[it].SQL == fmt.Sprintf(want, vals...), "row-scoped keys are called once per row, wider ones are not")
	}
}

// H_many: several keys with scopes of their own in one row.
func H_many() {
	n := verif.Bound(3, 4)
	names := []string{"a", "b", "c", "d"}[:n]
	scopes := []string{"", finch.SCOPE_ROW, finch.SCOPE_STATEMENT}
	cfg := map[string]config.Data{}
	var row [4]bool
	tmpl := "("
	for i, k := range names {
		s := scopes[verif.Choose("scope", 3)]
		row[i] = s != finch.SCOPE_STATEMENT
		cfg[k] = tf.Key(s, "%d", "1")
		if i > 0 {
			tmpl += ", "
		}
		tmpl += "@" + k
	}
	tf.Base = verif.Int64("base", -1<<62, 1<<62)
	set, err := tf.Load("INSERT INTO t VALUES /*!csv 3 "+tmpl+")*/", cfg, nil)
	verif.Assert(err == nil, "loaded")
	db := &fakedb.DB{}
	cl := tf.Run(set, db, "2")
	verif.Reach("done")
	verif.Assert(cl.Error.Err == nil, "executed")
	q := db.Queries()
	verif.Assert(len(q) == 2, "executed twice")
	v := tf.Base
	for it := range q {
		want := "INSERT INTO t VALUES "
		var cur [4]int64
		for r := 0; r < 3; r++ {
			if r > 0 {
				want += ", "
			}
			want += "("
			for i := range names {
				if r == 0 || row[i] {
					v++
					cur[i] = v
				}
				if i > 0 {
					want += ", "
				}
				want += strconv.FormatInt(cur[i], 10)
			}
			want += ")"
		}
		verif.Assert(q[it].SQL == want, "each row-scoped key has its own value per row")
	}
}

// H_scope: RowScope makes the first use of every row-scoped key explicit and nothing else.
func H_scope() {
	c := verif.Bytes("name", 1)
	verif.Assume(name(c[0]))
	names := []string{"@a", "@a" + c, "@b"}
	keys := map[string]bool{}
	for _, n := range names {
		switch verif.Choose("row", 3) {
		case 0:
			keys[n] = true
		case 1:
			keys[n] = false
		}
	}
	n := verif.Bound(3, 4)
	in, want := "", ""
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		k := names[verif.Choose("use", len(names))]
		call := verif.Choose("explicit", 2) == 1
		in += k
		want += k
		if call {
			in += "()"
			want += "()"
		} else if keys[k] && !seen[k] {
			want += "()"
		}
		seen[k] = true
		in += ", "
		want += ", "
	}
	got := trx.RowScope(keys, in)
	verif.Reach("scoped")
	verif.Assert(got == want, "the first use of every row-scoped key is an explicit call")
}

// H_text: the rest of the template is the same text in every row.
func H_text() {
	n := verif.Bound(2, 3)
	x := verif.Bytes("text", n)
	for i := 0; i < n; i++ {
		verif.Assume(x[i] >= ' ')
		verif.Assume(x[i] <= '~')
		verif.Assume(x[i] != '@')
		verif.Assume(x[i] != '%')
		verif.Assume(x[i] != '*' || i < n-1 && x[i+1] != '/') // end of the template
	}
	rows := verif.Choose("rows", 4)
	row := "('" + x + "')"
	set, err := tf.Load("INSERT INTO t VALUES /*!csv "+strconv.Itoa(rows)+" "+row+"*/\n", nil, nil)
	verif.Reach("loaded")
	verif.Assert(err == nil, "loaded")
	want := "INSERT INTO t VALUES "
	for i := 0; i < rows; i++ {
		if i > 0 {
			want += ", "
		}
		want += row
	}
	st := set.Statements["t"]
	verif.Assert(len(st) == 1, "one statement")
	verif.Observe("query", st[0].Query)
	verif.Assert(st[0].Query == want, "the template, repeated")
}
