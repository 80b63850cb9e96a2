// Package c12: saved columns.
package c12

import (
	"database/sql/driver"
	"fmt"

	"github.com/square/finch/config"
	"github.com/square/finch/data"
	"github.com/square/finch/zzverif/fakedb"
	"github.com/square/finch/zzverif/tf"
	"github.com/square/finch/zzverif/verif"
)

//verif:bound H_client: a client with 2 iterations, any insert ID, 0..2 rows of 3 columns with NULL, any integer and text
//verif:bound 3 (quick) or 4 (thorough) scans of byte slices (2 bytes, any content), integers, strings, nil; buffers reused and overwritten between scans; 2 copies of the key

func H_latest() {
	params := map[string]string{}
	q := verif.Choose("quote", 4)
	switch q {
	case 1:
		params["quote-value"] = "yes"
	case 2:
		params["quote-value"] = "no"
	case 3:
		params["quote-value"] = "true"
	}
	c0, err := data.Make("column", "@d", params)
	verif.Assert(err == nil, "accepted")
	a := c0.Copy()
	b := c0.Copy()
	if verif.Choose("direct", 2) == 1 {
		a = c0
	}
	n, f := a.Format()
	if q == 1 || q == 3 {
		verif.Assert(n == 1 && f == "'%v'", "quoted format")
	} else {
		verif.Assert(n == 1 && f == "%v", "plain format")
	}
	var want, other interface{}
	buf := make([]byte, 4) // the driver's buffer
	for i := 0; i < verif.Bound(3, 4); i++ {
		g, w := a, &want
		if verif.Choose("other", 2) == 1 {
			g, w = b, &other
		}
		switch verif.Choose("kind", 5) {
		case 0, 1:
			s := verif.Bytes(fmt.Sprintf("b%d", i), verif.Pick("len", 0, 3))
			k := copy(buf, s)
			verif.Assert(g.Scan(buf[:k]) == nil, "scan")
			*w = s
		case 2:
			x := verif.Int64(fmt.Sprintf("i%d", i), -1<<63, 1<<63-1)
			verif.Assert(g.Scan(x) == nil, "scan")
			*w = x
		case 3:
			s := verif.Str(fmt.Sprintf("s%d", i))
			verif.Assert(g.Scan(s) == nil, "scan")
			*w = s
		case 4:
			verif.Assert(g.Scan(nil) == nil, "scan")
			*w = nil
		}
		// the driver reuses its buffer
		for j := range buf {
			buf[j] = '#'
		}
		va := a.Values(data.RunCount{})
		vb := b.Values(data.RunCount{})
		verif.Assert(len(va) == 1 && len(vb) == 1, "one value")
		verif.Observe("a", va[0])
		verif.Assert(va[0] == want, "the value most recently scanned")
		verif.Assert(vb[0] == other, "copies are independent")
		verif.Reach("scanned")
	}
}

// H_kept: a returned value does not change when the next one is scanned.
func H_kept() {
	g, _ := data.Make("column", "@d", nil)
	s1 := verif.Bytes("first", verif.Pick("len1", 0, 3))
	s2 := verif.Bytes("second", verif.Pick("len2", 0, 3))
	verif.Assert(g.Scan([]byte(s1)) == nil, "scan")
	v1 := g.Values(data.RunCount{})
	verif.Assert(g.Scan([]byte(s2)) == nil, "scan")
	v2 := g.Values(data.RunCount{})
	verif.Assert(v1[0] == s1, "the first value is kept")
	verif.Assert(v2[0] == s2, "the second value is returned")
	verif.Reach("kept")
}

// H_client: a client saves what the server returns and uses it in its next queries.
func H_client() {
	set, err := tf.Load("-- save-insert-id: @id\n-- prepare\nINSERT x\n\n-- save-columns: @a, _, @b\n-- prepare\nSELECT 1\n\n-- prepare\nUPDATE @id @a @b @id\n", map[string]config.Data{}, nil)
	verif.Assert(err == nil, "loaded")
	d := &fakedb.DB{}
	var id int64
	var a, b driver.Value
	n := 0
	d.Answer = func(e fakedb.Event) fakedb.Answer {
		switch e.Kind {
		case "stmtexec":
			if e.SQL == "INSERT x" {
				n++
				id = verif.Int64(fmt.Sprintf("id%d", n), -1<<63, 1<<63-1)
				return fakedb.Answer{InsertId: id, Affected: 1}
			}
			verif.Assert(len(e.Args) == 4, "inputs")
			verif.Assert(e.Args[0] == id && e.Args[3] == id, "the insert ID most recently saved")
			verif.Assert(e.Args[1] == a && e.Args[2] == b, "the columns most recently saved")
			verif.Reach("used")
		case "stmtquery":
			var ans fakedb.Answer
			for k := verif.Choose("rows", 3); k > 0; k-- {
				a, b = nil, nil
				if verif.Choose("null", 2) == 0 {
					a = verif.Int64(fmt.Sprintf("a%d.%d", n, k), -1<<63, 1<<63-1)
				}
				if k == 1 {
					b = verif.Bytes(fmt.Sprintf("b%d", n), 2)
				}
				ans.Rows = append(ans.Rows, []driver.Value{a, "other", b})
			}
			return ans
		}
		return fakedb.Answer{}
	}
	c := tf.Run(set, d, "2")
	verif.Assert(c.Error.Err == nil && n == 2, "no error")
}
