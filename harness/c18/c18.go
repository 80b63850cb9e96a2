// Package c18: data keys in a query.
package c18

import (
	"fmt"

	"github.com/square/finch"
	"github.com/square/finch/config"
	"github.com/square/finch/data"
	"github.com/square/finch/trx"
	"github.com/square/finch/zzverif/fakedb"
	"github.com/square/finch/zzverif/tf"
	"github.com/square/finch/zzverif/verif"
)

//verif:bound H_keys: 3 uses (quick) or 4 (thorough) of 2 data keys (one name is a prefix of the other, with any next character) or @PREV, implicit or explicit, any separating character, prepared or not; H_names: data key names of 1..2 (quick) or 1..3 (thorough) arbitrary characters; H_sent: the same with a client executing the statement twice, any values
//verif:assume the file system is a model of os.Open and bufio.Scanner over the file's lines; the server is a scripted driver under the real database/sql

// anyNames are two data keys: the first one's name is a prefix of the second one's or the other
// way around.
func anyNames() [2]string {
	c := verif.Bytes("name", 1)
	verif.Assume(name(c[0]))
	if verif.Choose("prefix", 2) == 1 {
		return [2]string{"a" + c, "a"}
	}
	return [2]string{"a", "a" + c}
}

func name(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '-'
}

type use struct {
	key      string // without @
	explicit bool
}

// query is a random query with n uses; want is its text with formats.
func query(n int, percent bool, nm [2]string, format map[string]string, prepared bool) (text, want string, uses []use) {
	text, want = "SELECT", "SELECT"
	last := -1
	for i := 0; i < n; i++ {
		k := 2
		if i > 0 {
			k = 3
		}
		sep := " "
		if i == 1 {
			sep = verif.Bytes("sep", 1)
		}
		verif.Assume(sep[0] >= ' ' && sep[0] <= '~' && !name(sep[0]) && sep[0] != '@' && (percent || sep[0] != '%'))
		j := verif.Choose("use", k)
		u := use{}
		f := ""
		switch j {
		case 2:
			u.key = "PREV"
			f = format[nm[last]]
		default:
			last = j
			u.key = nm[j]
			u.explicit = verif.Choose("explicit", 2) == 1
			f = format[u.key]
		}
		if prepared {
			f = "?"
		}
		text += sep + "@" + u.key
		if u.explicit {
			text += "()"
		}
		want += sep + f
		uses = append(uses, u)
	}
	return text + ", b", want + ", b", uses
}

// H_keys: query text, inputs and keys of a statement.
func H_keys() {
	nm := anyNames()
	fs := [2]string{"%d", "'%d'"}
	format := map[string]string{nm[0]: fs[0], nm[1]: fs[1]}
	prepared := verif.Choose("prepared", 2) == 1
	text, want, uses := query(verif.Bound(3, 4), true, nm, format, prepared)
	scope := []string{"", finch.SCOPE_GLOBAL}[verif.Choose("scope", 2)]
	mod := ""
	if prepared {
		mod = "-- prepare\n"
	}
	cfg := map[string]config.Data{nm[0]: tf.Key(scope, fs[0], "1"), nm[1]: tf.Key("client", fs[1], "2")}
	set, err := tf.Load(mod+text+"\n\nSELECT @"+nm[0], cfg, nil)
	verif.Reach("loaded")
	verif.Assert(err == nil, "loaded")
	st := set.Statements["t"]
	verif.Assert(len(st) == 2, "statements")
	check(st[0], want, uses)
	check(st[1], "SELECT "+fs[0], []use{{nm[0], false}})
	used := map[string]bool{nm[0]: true}
	for _, u := range uses {
		if u.key != "PREV" {
			used[u.key] = true
		}
	}
	verif.Assert(len(set.Data.Keys) == len(used) && len(tf.Made) == len(used), "one generator per data key")
	for k := range used {
		d, ok := set.Data.Keys["@"+k]
		verif.Assert(ok && d.Name == "@"+k && d.Column == -1, "data key")
		g, _ := d.Generator.(*tf.Gen)
		verif.Assert(g != nil && g.Key == "@"+k && g.Params["format"] == format[k], "each key has its own generator with its own params")
		want := "client"
		if k == nm[0] {
			want = scope
			if scope == "" {
				want = finch.SCOPE_STATEMENT
			}
		}
		verif.Assert(d.Scope == want, "each key has its own scope")
	}
}

func check(s *trx.Statement, want string, uses []use) {
	verif.Assert(s.Query == want, "placeholders are each key's format and nothing else changes")
	verif.Assert(len(s.Inputs) == len(uses) && len(s.Calls) == len(uses), "one input per data key")
	for i, u := range uses {
		verif.Assert(s.Inputs[i] == "@"+u.key, "inputs in order of appearance")
		verif.Assert((s.Calls[i] == 1) == u.explicit, "explicit calls")
	}
}

// H_names: keys of any name.
func H_names() {
	n := verif.Pick("length", 1, verif.Bound(2, 3))
	b := verif.Bytes("name", n)
	for i := 0; i < n; i++ {
		verif.Assume(name(b[i]))
	}
	d := tf.Key("", "'%d'", "1")
	cfg := map[string]config.Data{"d": tf.Key("", "%d", "1")}
	cfg[b] = d
	set, err := tf.Load("SELECT @d, @"+b+", @d()", cfg, nil)
	verif.Reach("loaded")
	verif.Assert(err == nil, "loaded")
	want := "SELECT %d, '%d', %d"
	if b == "d" {
		want = "SELECT '%d', '%d', '%d'"
	}
	check(set.Statements["t"][0], want, []use{{"d", false}, {b, false}, {"d", true}})

	// without configuration
	_, err = tf.Load("SELECT @d, @"+b+", @d()", map[string]config.Data{"d": tf.Key("", "%d", "1")}, nil)
	verif.Assert((err != nil) == (b != "d" && b != "PREV"), "a data key that is not configured is an error")
}

// H_sent: what the server gets.
func H_sent() {
	nm := anyNames()
	fs := [2]string{"%d", "'%d'"}
	format := map[string]string{nm[0]: fs[0], nm[1]: fs[1]}
	prepared := verif.Choose("prepared", 2) == 1
	text, want, uses := query(verif.Bound(3, 4), false, nm, format, prepared)
	// @PREV is the second value of the key with two values, which must come right before it
	two := -1
	for i, u := range uses {
		if u.key == "PREV" {
			verif.Assume(i > 0 && two != 0 && uses[i-1].key != "PREV")
			if uses[i-1].key == nm[0] {
				two = 1
			} else {
				verif.Assume(false)
			}
		}
	}
	for i, u := range uses {
		if u.key == nm[0] && two == 1 {
			verif.Assume(i+1 < len(uses) && uses[i+1].key == "PREV")
		}
	}
	w := "1"
	if two == 1 {
		w = "2"
	}
	tf.Base = verif.Int64("base", -1<<62, 1<<62)
	mod := ""
	if prepared {
		mod = "-- prepare\n"
	}
	cfg := map[string]config.Data{nm[0]: tf.Key("", fs[0], w), nm[1]: tf.Key("client", fs[1], "1")}
	set, err := tf.Load(mod+text, cfg, nil)
	verif.Assert(err == nil, "loaded")
	db := &fakedb.DB{}
	c := tf.Run(set, db, "2")
	verif.Assert(c.Error.Err == nil, "executed")
	q := db.Queries()
	verif.Assert(len(q) == 2, "executed twice")
	// oracle: nm[0] has statement scope, nm[1] client scope
	calls := int64(0)
	cur := map[string]int64{}
	for it := 0; it < 2; it++ {
		delete(cur, nm[0])
		var vals []interface{}
		for _, u := range uses {
			if u.key == "PREV" {
				vals = append(vals, cur[nm[0]]+1000)
				continue
			}
			v, ok := cur[u.key]
			if !ok || u.explicit {
				calls++
				v = tf.Base + calls
				cur[u.key] = v
			}
			vals = append(vals, v)
		}
		if prepared {
			verif.Assert(q[it].SQL == want && len(q[it].Args) == len(vals), "prepared query")
			for i := range vals {
				verif.Assert(q[it].Args[i] == vals[i], "the query has the values of each key's generator")
			}
		} else {
			verif.Assert(len(q[it].Args) == 0 && q[it].SQL == fmt.Sprintf(want, vals...), "the query has the values of each key's generator")
		}
	}
	verif.Reach("sent")
	for _, k := range tf.Calls {
		verif.Assert(k.RC[data.CLIENT] == 1, "called for the client")
	}
}
