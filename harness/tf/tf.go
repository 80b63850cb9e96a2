// Package tf loads trx files and allocates clients for them.
package tf

import (
	"context"
	"os"

	"github.com/square/finch"
	"github.com/square/finch/client"
	"github.com/square/finch/config"
	"github.com/square/finch/data"
	"github.com/square/finch/dbconn"
	"github.com/square/finch/trx"
	"github.com/square/finch/workload"
	"github.com/square/finch/zzverif/fakedb"
)

const file = "/tmp/verif-t.sql"

// Made is every data generator that was made.
var Made []*Gen

// Gen returns Base+1, Base+2, ... in Width values per call; it is made by the factory "zz"
// with params format and width. Copies share the count of the original.
type Gen struct {
	Key    string
	Params map[string]string
	Calls  *[]Call
	Orig   *Gen
	Copies int
}

// Call is a call of a generator.
type Call struct {
	Key string
	RC  data.RunCount
	V   int64
}

// Base is added to every value.
var Base int64

// Calls are all calls of generators.
var Calls []Call

func (g *Gen) Format() (uint, string) {
	n := uint(1)
	if g.Params["width"] == "2" {
		n = 2
	}
	if f := g.Params["format"]; f != "" {
		return n, f
	}
	return n, "%d"
}
func (g *Gen) Copy() data.Generator {
	g.Copies++
	return &Gen{Key: g.Key, Params: g.Params, Orig: g}
}
func (g *Gen) Values(rc data.RunCount) []interface{} {
	v := Base + int64(len(Calls)) + 1
	Calls = append(Calls, Call{g.Key, rc, v})
	if g.Params["width"] == "2" {
		return []interface{}{v, v + 1000}
	}
	return []interface{}{v}
}
func (g *Gen) Scan(any interface{}) error { return nil }
func (g *Gen) Name() string               { return "zz" }

type factory struct{}

func (factory) Make(name, dataKey string, params map[string]string) (data.Generator, error) {
	g := &Gen{Key: dataKey, Params: params}
	Made = append(Made, g)
	return g, nil
}

// Load loads one trx file with the given text.
func Load(text string, d map[string]config.Data, params map[string]string) (*trx.Set, error) {
	data.Register("zz", factory{})
	if err := os.WriteFile(file, []byte(text), 0644); err != nil {
		panic(err)
	}
	defer os.Remove(file)
	return trx.Load([]config.Trx{{Name: "t", File: file, Data: d}}, data.NewScope(), params)
}

// Key configures a data key.
func Key(scope, format, width string) config.Data {
	return config.Data{Generator: "zz", Scope: scope, Params: map[string]string{"format": format, "width": width}}
}

// Run allocates one client for the set and runs it on d for iter iterations.
func Run(set *trx.Set, d *fakedb.DB, iter string) *client.Client {
	c := Alloc(set, iter)
	c.DB = d.SQL()
	if err := c.Init(); err != nil {
		panic(err)
	}
	c.Run(context.Background())
	return <-c.DoneChan
}

// Alloc allocates one client for the set.
func Alloc(set *trx.Set, iter string) *client.Client {
	finch.ModifyDB = nil
	dbconn.SetConfig(config.MySQL{DSN: "u:p@tcp(127.0.0.1)/"})
	a := workload.Allocator{
		Stage: 1, StageName: "s", TrxSet: set,
		Workload: []config.ClientGroup{{Group: "g", Clients: "1", Trx: []string{"t"}, Iter: iter}},
		DoneChan: make(chan *client.Client, 1),
	}
	cl, err := a.Clients([][]int{{0}}, false)
	if err != nil {
		panic(err)
	}
	return cl[0][0].Clients[0]
}

// Load2 loads two trx files, t and u.
func Load2(text, text2 string) (*trx.Set, error) {
	data.Register("zz", factory{})
	const file2 = "/tmp/verif-u.sql"
	for i, f := range []string{file, file2} {
		if err := os.WriteFile(f, []byte([]string{text, text2}[i]), 0644); err != nil {
			panic(err)
		}
		defer os.Remove(f)
	}
	return trx.Load([]config.Trx{{Name: "t", File: file, Data: map[string]config.Data{}}, {Name: "u", File: file2, Data: map[string]config.Data{}}}, data.NewScope(), nil)
}
