// Package c17: splitting a trx file into statements.
package c17

import (
	"os"
	"strconv"
	"strings"
	"time"

	"github.com/square/finch/config"
	"github.com/square/finch/data"
	"github.com/square/finch/trx"
	"github.com/square/finch/zzverif/verif"
)

//verif:bound H_split: files of 4 (quick) or 5 (thorough) lines of any kind (blank, text, modifiers, EOF, a comment); H_text: a statement of 2 lines with 3 (quick) or 4 (thorough) arbitrary printable characters; H_class: first words of up to 8 letters in any letter case; H_mods: each modifier with 0..3 fields, any number up to 63 bits, any 3-character field
//verif:assume the file system is a model of os.Open and bufio.Scanner over the file's lines

const file = "/tmp/verif-t.sql"

func load(text string, params map[string]string) ([]*trx.Statement, trx.Meta, error) {
	if err := os.WriteFile(file, []byte(text), 0644); err != nil {
		panic(err)
	}
	cfg := []config.Trx{{Name: "t", File: file, Data: map[string]config.Data{}}}
	s, err := trx.Load(cfg, data.NewScope(), params)
	os.Remove(file)
	if err != nil {
		return nil, trx.Meta{}, err
	}
	verif.Assert(len(s.Order) == 1 && s.Order[0] == "t", "one trx")
	return s.Statements["t"], s.Meta["t"], nil
}

// want is a statement that a file should have.
type want struct {
	query    string
	prepared bool
	idle     time.Duration
	read     bool
	write    bool
	ddl      bool
}

// H_split: the statements of a file of any lines.
func H_split() {
	idle := verif.Int64("idle", 1, 1<<31)
	n := verif.Bound(4, 5)
	text := ""
	var ws []want
	cur := want{}
	eof, ddl := false, false
	end := func() {
		if cur.query != "" {
			ws = append(ws, cur)
			cur = want{}
		}
	}
	for i := 0; i < n; i++ {
		line := ""
		switch k := verif.Choose("line", 9); k {
		case 0, 1:
			line = [2]string{"", " \t"}[k]
			if !eof {
				end()
			}
		case 2, 3, 4, 5:
			line = [...]string{"SELECT a", "  insert b ", "drop c", "--x"}[k-2]
			if !eof {
				if cur.query == "" {
					cur.read, cur.write, cur.ddl = k == 2, k == 3, k == 4
				} else {
					cur.query += " "
				}
				cur.query += strings.TrimSpace(line)
			}
		case 6:
			line = "-- prepare"
			cur.prepared = true
		case 7:
			line = "-- idle: " + itoa(idle) + "ns"
			cur.idle = time.Duration(idle)
		case 8:
			line = " -- EOF"
			eof = true
			end()
		}
		if i > 0 {
			text += "\n"
		}
		text += line
		if eof {
			cur = want{}
		}
	}
	end()
	got, meta, err := load(text, nil)
	verif.Reach("loaded")
	verif.Assert((err != nil) == (len(ws) == 0), "a file without statements is an error")
	if err != nil {
		return
	}
	verif.Assert(len(got) == len(ws), "one statement per block of lines")
	for i, w := range ws {
		g := got[i]
		verif.Assert(g.Trx == "t", "trx of the statement")
		verif.Assert(g.Query == w.query, "lines joined by a space, in order")
		verif.Assert(g.Prepare == w.prepared, "modifiers apply to the statement that follows them (prepare)")
		verif.Assert(g.Idle == w.idle, "modifiers apply to the statement that follows them (idle)")
		verif.Assert(g.ResultSet == w.read && g.Write == w.write && g.DDL == w.ddl, "classified by its own first word")
		verif.Assert(!g.Begin && !g.Commit && g.Limit == nil && len(g.Inputs) == 0 && len(g.Outputs) == 0 && g.InsertId == "" && g.PrepareMulti == 0, "nothing else is set")
		ddl = ddl || w.ddl
	}
	verif.Assert(meta.DDL == ddl, "trx has DDL exactly when a statement is DDL")
}

func itoa(n int64) string {
	if n < 0 {
		return "-" + utoa(uint64(-n))
	}
	return utoa(uint64(n))
}

// H_text: the text of a statement is kept.
func H_text() {
	b := verif.Bytes("text", verif.Bound(3, 4))
	for i := 0; i < len(b); i++ {
		verif.Assume(b[i] >= ' ' && b[i] <= '~' && b[i] != '@')
	}
	got, _, err := load("SELECT x"+b+"x\ny"+b+"y\n\nSELECT 1", nil)
	verif.Reach("loaded")
	verif.Assert(err == nil && len(got) == 2, "two statements")
	verif.Assert(got[0].Query == "SELECT x"+b+"x y"+b+"y", "the text of a statement is kept")
	verif.Assert(got[1].Query == "SELECT 1", "second statement")
}

var words = []string{
	"SELECT", "BEGIN", "START", "COMMIT", "INSERT", "UPDATE", "DELETE", "REPLACE",
	"ALTER", "CREATE", "DROP", "RENAME", "TRUNCATE", "SET", "CALL",
}

// H_class: classification by the first word, in any letter case.
func H_class() {
	w := words[verif.Choose("word", len(words))]
	c := verif.Bytes("word", len(w))
	for i := range w {
		verif.Assume(c[i] == w[i] || c[i] == w[i]+32)
	}
	extra := []string{"", " x", ";", "s", "_", "(1)"}[verif.Choose("after", 6)]
	got, meta, err := load("SET x\n\n"+c+extra+"\nSELECT\n\nSET y", nil)
	verif.Reach("loaded")
	verif.Assert(err == nil && len(got) == 3, "loaded")
	if extra == "s" || extra == "_" {
		w = ""
	}
	g := got[1]
	verif.Assert(g.ResultSet == (w == "SELECT"), "read")
	verif.Assert(g.Begin == (w == "BEGIN" || w == "START"), "begin")
	verif.Assert(g.Commit == (w == "COMMIT"), "commit")
	verif.Assert(g.Write == (w == "INSERT" || w == "UPDATE" || w == "DELETE" || w == "REPLACE"), "write")
	ddl := w == "ALTER" || w == "CREATE" || w == "DROP" || w == "RENAME" || w == "TRUNCATE"
	verif.Assert(g.DDL == ddl && meta.DDL == ddl, "DDL")
	for _, o := range []*trx.Statement{got[0], got[2]} {
		verif.Assert(!o.ResultSet && !o.Begin && !o.Commit && !o.Write && !o.DDL, "other statements are not affected")
	}
}

// H_mods: modifiers with any fields are accepted or an error, never a crash.
func H_mods() {
	name := []string{"prepare", "prepared", "idle", "idle:", "rows:", "table-size:", "database-size:",
		"save-insert-id:", "save-columns:", "copies:", "unknown", ""}[verif.Choose("modifier", 12)]
	nf := verif.Choose("fields", 4)
	verif.Assume(name != "" || nf > 0) // "--" alone is a comment
	n := verif.Uint64("n", 0, 1<<63-1)
	if name == "copies:" {
		verif.Assume(n <= 3 || n >= 1<<63-2)
		if n > 3 {
			n = 1<<63 - 1 // more than memory: rejected by the number's text below
		}
	}
	if strings.HasSuffix(name, "-size:") {
		n = []uint64{0, 1000, 1<<63 - 1}[verif.Choose("size", 3)]
	}
	line := "-- " + name
	fs := []string{}
	for i := 0; i < nf; i++ {
		f := ""
		switch verif.Choose("field", 5) {
		case 0:
			if name == "copies:" && n > 3 {
				f = "9223372036854775808"
			} else {
				f = utoa(n)
			}
		case 1:
			f = "@d"
		case 2:
			f = "_"
		case 3:
			f = "-1"
		case 4:
			f = "1ms,"
		}
		fs = append(fs, f)
		line += " " + f
	}
	text := "BEGIN\n\n" + line + "\nINSERT x\n\nCOMMIT @d"
	if verif.Choose("used", 2) == 0 {
		text = "BEGIN\n\n" + line + "\nINSERT x\n\nCOMMIT"
	}
	if err := os.WriteFile(file, []byte(text), 0644); err != nil {
		panic(err)
	}
	cfg := []config.Trx{{Name: "t", File: file, Data: map[string]config.Data{}}}
	sc := data.NewScope()
	var s *trx.Set
	var err error
	panicked := verif.Try(func() { s, err = trx.Load(cfg, sc, nil) })
	os.Remove(file)
	verif.Reach("loaded")
	verif.Assert(!panicked, "never a crash")
	if err != nil {
		return
	}
	st := s.Statements["t"]
	num := func(i int) bool {
		return len(fs) > i && fs[i] != "" && fs[i] != "@d" && fs[i] != "_" && fs[i] != "-1" && fs[i] != "1ms,"
	}
	switch name {
	case "unknown", "":
		verif.Fail("unknown modifiers are rejected")
	case "idle", "idle:":
		verif.Assert(nf > 0, "idle without time is rejected")
		verif.Assert(!num(0) || fs[0] == "0", "idle without unit is rejected")
	case "rows:":
		verif.Assert(nf > 0 && num(0), "rows without number is rejected")
		verif.Assert(nf != 2 || num(1), "rows with an invalid offset is rejected")
	case "copies:":
		verif.Assert(nf > 0 && num(0) && n <= 3, "copies without number is rejected")
		verif.Assert(uint64(len(st)) == 2+n, "as many copies")
		return
	case "table-size:", "database-size:":
		verif.Assert(nf == 2 && num(1), "size without a size is rejected")
	case "save-insert-id:":
		verif.Assert(nf > 0, "save-insert-id without data key is rejected")
	}
	verif.Assert(len(st) == 3, "three statements")
	verif.Assert(st[0].Begin && st[2].Commit && st[1].Write, "classified")
	for _, i := range []int{0, 2} {
		verif.Assert(!st[i].Prepare && st[i].Idle == 0 && st[i].Limit == nil && len(st[i].Outputs) == 0, "modifiers apply only to the statement that follows them")
	}
	verif.Assert(st[1].Prepare == (name == "prepare" || name == "prepared"), "prepare")
	verif.Assert((st[1].Limit != nil) == (name == "rows:" && n != 0 || name == "table-size:" || name == "database-size:"), "limit")
	verif.Assert(len(st[1].Outputs) == 0 || name == "save-columns:" || name == "save-insert-id:", "outputs")
}

func utoa(n uint64) string { return strconv.FormatUint(n, 10) }

// H_eof: only "-- EOF" ends the file.
func H_eof() {
	c := verif.Bytes("character", 1)
	verif.Assume(c[0] > ' ')
	verif.Assume(c[0] <= '~')
	verif.Assume(c[0] != '@' && c[0] != '$')
	before := verif.Choose("before", 2) == 1
	line := "-- EOF" + c
	if before {
		line = "-- " + c + "EOF"
	}
	got, _, err := load("SELECT 1\n\n"+line+"\nSELECT 2\n", nil)
	verif.Reach("loaded")
	verif.Assert(err != nil || len(got) == 2, "the file does not end before its last statement")
}
