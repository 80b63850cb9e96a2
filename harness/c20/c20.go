// Package c20: copies of a statement.
package c20

import (
	"fmt"
	"strconv"
	"strings"
	"time"

	"github.com/square/finch/config"
	"github.com/square/finch/zzverif/fakedb"
	"github.com/square/finch/zzverif/tf"
	"github.com/square/finch/zzverif/verif"
)

//verif:bound 0..4 (quick) or 0..8 (thorough) copies (symbolic), 0..2 uses of the copy number, 0..1 data key, with or without prepare (before or after copies), idle time or rows limit (any numbers); any character in the text; a statement before and after; one client executes it twice
//verif:assume the file system is a model of os.Open and bufio.Scanner over the file's lines; the server is a scripted driver under the real database/sql

const copyNumber = "/*!copy-number*/"

// H_copies: the loaded statements, and what a client executes.
func H_copies() {
	n := verif.Int64("copies", 0, int64(verif.Bound(4, 8)))
	nums := verif.Choose("copy numbers", 3)
	key := verif.Choose("key", 2)
	prep := verif.Choose("prepare", 3)
	other := verif.Choose("other modifier", 3)
	b := verif.Bytes("text", 1)
	verif.Assume(b[0] >= ' ' && b[0] <= '~' && b[0] != '@' && b[0] != '%')
	num := verif.Int64("n", 1, 1<<30)

	mods := ""
	if prep == 1 {
		mods += "-- prepare\n"
	}
	switch other {
	case 1:
		mods += "-- rows: " + strconv.FormatInt(num, 10) + "\n"
	case 2:
		mods += "-- idle: " + strconv.FormatInt(num, 10) + "ns\n"
	}
	mods += "-- copies: " + strconv.FormatInt(n, 10) + "\n"
	if prep == 2 {
		mods += "-- prepare\n"
	}
	q := "INSERT t" + []string{"", copyNumber, copyNumber + " a" + copyNumber}[nums] + " " + b + "x"
	format := "%d"
	if prep > 0 {
		format = "?"
	}
	inputs := 0
	want := func(i int64) string {
		w := strings.Replace(q, copyNumber, strconv.FormatInt(i, 10), -1)
		return w
	}
	text := q
	if key == 1 {
		text += " @d"
		inputs = 1
	}
	cfg := map[string]config.Data{"d": tf.Key("", "%d", "1"), "e": tf.Key("", "%d", "1")}
	set, err := tf.Load("BEGIN\n\n"+mods+text+"\n\nUPDATE u @e", cfg, nil)
	verif.Reach("loaded")
	verif.Assert(err == nil, "loaded")
	st := set.Statements["t"]
	verif.Assert(int64(len(st)) == 2+n, "exactly N copies")
	verif.Assert(st[0].Query == "BEGIN" && st[0].Begin && !st[0].Prepare, "the statement before is unaffected")
	last := st[len(st)-1]
	verif.Assert(last.Query == "UPDATE u %d" && last.Write && !last.Prepare && last.Idle == 0 && last.Limit == nil && last.PrepareMulti == 0 && len(last.Inputs) == 1, "the statement that follows is unaffected")
	for i := int64(1); i <= n; i++ {
		s := st[i]
		w := want(i)
		if inputs == 1 {
			w += " " + format
		}
		verif.Assert(s.Query == w, "copy numbers 1 to N are substituted")
		verif.Assert(s.Write && s.Prepare == (prep > 0), "all other modifiers apply to every copy (prepare)")
		verif.Assert((s.Limit != nil) == (other == 1), "all other modifiers apply to every copy (rows)")
		if other == 2 {
			verif.Assert(s.Idle == time.Duration(num), "all other modifiers apply to every copy (idle)")
		} else {
			verif.Assert(s.Idle == 0, "no idle time")
		}
		verif.Assert(len(s.Inputs) == inputs && len(s.Calls) == inputs, "inputs of every copy")
	}
	if other == 2 {
		return
	}

	// executed
	tf.Base = verif.Int64("base", -1<<62, 1<<62)
	db := &fakedb.DB{}
	cl := tf.Run(set, db, "2")
	verif.Assert(cl.Error.Err == nil, "executed")
	prepares, execs, ps := 0, []fakedb.Event{}, map[int]string{}
	for _, e := range db.Log {
		switch e.Kind {
		case "prepare":
			prepares++
			ps[e.Stmt] = e.SQL
		case "exec", "stmtexec":
			execs = append(execs, e)
		}
	}
	wantPrep := 0
	if prep > 0 {
		wantPrep = int(n)
		if nums == 0 && n > 1 {
			wantPrep = 1
		}
	}
	verif.Assert(prepares == wantPrep, "identical copies are prepared once, other copies each")
	verif.Assert(int64(len(execs)) == 2*(2+n), "every copy is executed in every iteration")
	e, calls := 0, int64(0)
	for it := 0; it < 2; it++ {
		verif.Assert(execs[e].SQL == "BEGIN", "the statement before is unaffected")
		e++
		for i := int64(1); i <= n; i++ {
			x := execs[e]
			e++
			w := want(i)
			var args []interface{}
			if inputs == 1 {
				calls++
				args = append(args, tf.Base+calls)
			}
			if prep > 0 {
				if inputs == 1 {
					w += " ?"
				}
				verif.Assert(x.Kind == "stmtexec" && x.SQL == w && ps[x.Stmt] == w && len(x.Args) == inputs, "each copy is executed with its own prepared statement")
				if inputs == 1 {
					verif.Assert(x.Args[0] == args[0], "each copy has its own value")
				}
			} else {
				if inputs == 1 {
					w = fmt.Sprintf(w+" %d", args...)
				}
				verif.Assert(x.Kind == "exec" && x.SQL == w, "each copy is executed")
			}
		}
		calls++
		verif.Assert(execs[e].SQL == fmt.Sprintf("UPDATE u %d", tf.Base+calls), "the statement that follows is unaffected")
		e++
	}
}

// H_after: statements after copies are what they are without copies before them.
func H_after() {
	n := int(verif.Int64("copies", 0, 3))
	m := int(verif.Int64("copies of the next", 0, 3))
	prep := []string{"", "-- prepare\n"}[verif.Choose("prepare", 2)]
	num := []string{"", copyNumber}[verif.Choose("copy number", 2)]
	next := ""
	if m > 0 {
		next = "-- copies: " + strconv.Itoa(m-1) + "\n"
	}
	next += "UPDATE " + copyNumber + "\n\nDELETE " + copyNumber + "\n"
	alone, err := tf.Load("BEGIN\n\n"+next, nil, nil)
	verif.Assert(err == nil, "loaded")
	set, err := tf.Load("BEGIN\n\n"+prep+"-- copies: "+strconv.Itoa(n)+"\nINSERT "+num+"\n\n"+next, nil, nil)
	verif.Assert(err == nil, "loaded")
	verif.Reach("after")
	a, b := alone.Statements["t"], set.Statements["t"]
	verif.Assert(len(b) == len(a)+n, "number of statements")
	for i := 1; i < len(a); i++ {
		verif.Assert(a[i].Query == b[n+i].Query, "the statements that follow are unaffected")
		verif.Assert(a[i].Prepare == b[n+i].Prepare && a[i].PrepareMulti == b[n+i].PrepareMulti, "the statements that follow are unaffected")
	}
	verif.Assert(a[len(a)-1].Query == b[len(b)-1].Query, "the statements that follow are unaffected")
}
