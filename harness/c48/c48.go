// Package c48: data keys across the stages of a run.
package c48

//verif:bound H_scopes: 2 (thorough 3) stages, in each of which 1 client executes 1-2 iterations of a trx with 2 statements that use @d (perhaps the second one as @d()); @d is auto-inc from 10-19 (symbolic digit; another range per stage), of any scope, the same in each stage or different unless a previous one is global; the same or another trx file per stage
//verif:bound H_saved: 2 stages, each saving the insert ID of its first statement as @d in any of 5 scopes and using it in the second one, 1-2 iterations
//verif:bound H_instances: 2 stages on the server and a remote instance, 1 (thorough 2) iterations of a statement that uses @d, auto-inc from 10-16 (symbolic digit) and from 40, of any two scopes, the first global only if both are
//verif:assume MySQL answers every command with OK at once; one execution group with one client per stage
//verif:opt * maxsteps=100000000 digits=yes
import (
	"context"
	"os"
	"strconv"
	"strings"
	"time"

	"github.com/square/finch/compute"
	"github.com/square/finch/config"
	"github.com/square/finch/zzverif/sys"
	"github.com/square/finch/zzverif/verif"
)

var yes = true

var scopes = []string{"", "value", "statement", "trx", "iter", "client", "client-group", "exec-group", "workload", "stage", "global"}

type world struct {
	dir    string
	my     *sys.MySQL
	stages []config.Stage
}

func start() *world {
	w := &world{my: &sys.MySQL{}}
	var err error
	w.dir, err = os.MkdirTemp("", "c48")
	verif.Assert(err == nil, "temp dir")
	w.my.Listen()
	return w
}

func (w *world) stage(file, text, iter string, d map[string]config.Data) {
	os.WriteFile(w.dir+"/"+file, []byte(text), 0600)
	w.stages = append(w.stages, config.Stage{Name: "s", File: w.dir + "/s.yaml", N: uint(len(w.stages) + 1),
		Compute:  config.Compute{Instances: "1"},
		Stats:    config.Stats{Disable: &yes},
		MySQL:    config.MySQL{DSN: "u@fake(x)/"},
		Trx:      []config.Trx{{Name: file, File: w.dir + "/" + file, Data: d}},
		Workload: []config.ClientGroup{{Clients: "1", Iter: iter, Trx: []string{file}}},
	})
}

func (w *world) run() {
	ret := make(chan error, 1)
	go func() { ret <- compute.NewServer("local", "", false).Run(context.Background(), w.stages) }()
	select {
	case err := <-ret:
		verif.Assert(err == nil, "no error")
	case <-time.After(time.Minute):
		verif.Fail("the stages end")
	}
}

func H_scopes() {
	w := start()
	defer os.RemoveAll(w.dir)
	scope := verif.Pick("scope", 0, len(scopes)-1)
	other := verif.Choose("trx files", 2) == 1
	var want []string
	var global *int
	var call bool
	var t string
	for i := 0; i < verif.Bound(2, 3); i++ {
		if i > 0 && scope < len(scopes)-1 {
			switch verif.Choose("another scope", 3) {
			case 1:
				scope = (scope + 3) % (len(scopes) - 1)
			case 2:
				scope = len(scopes) - 1
			}
		}
		// first values of the stages differ
		d := verif.Bytes("start", 1)
		verif.Assume(d[0] >= '0')
		verif.Assume(d[0] <= '9')
		s := string(rune('1'+i)) + d
		n0, err := strconv.Atoi(s)
		verif.Assert(err == nil, "number")
		iter := 1 + verif.Choose("iter", 2)
		if i == 0 || other {
			call = verif.Choose("call", 2) == 1
			t = string(rune('a' + i))
		}
		text := "insert " + t + " @d\n\ninsert " + t + " @d\n"
		if call {
			text = text[:len(text)-1] + "()\n"
		}
		w.stage(t, text, string(rune('0'+iter)), map[string]config.Data{"d": {Generator: "auto-inc", Scope: scopes[scope], Params: map[string]string{"start": s}}})

		// what this stage executes
		cur, cnt := &n0, [2]int{n0, n0}
		if scopes[scope] == "global" {
			if global == nil {
				global = cur
				*cur++
			}
			cur = global
		}
		for k := 0; k < iter; k++ {
			for q := 0; q < 2; q++ {
				v := 0
				switch sc := scopes[scope]; sc {
				case "", "statement", "value":
					cnt[q]++
					v = cnt[q]
				case "global", "stage", "client":
					if call && q == 1 || sc != "global" && k == 0 && q == 0 {
						*cur++
					}
					v = *cur
				default: // trx, iter, and those of several clients: every iteration
					if call || q == 0 {
						*cur++
					}
					v = *cur
				}
				want = append(want, "insert "+t+" "+strconv.Itoa(v))
			}
		}
	}
	w.run()
	verif.Reach("end")
	verif.Assert(len(w.my.Queries) == len(want), "number of queries")
	verif.Log(strings.Join(w.my.Queries, ",") + " want " + strings.Join(want, ","))
	for i, q := range w.my.Queries {
		verif.Assert(q == want[i], "values follow the scope and the stage's configuration, global data keys keep their value over all stages")
	}
}

func H_saved() {
	w := start()
	defer os.RemoveAll(w.dir)
	w.my.Ids = true
	other := verif.Choose("trx files", 2) == 1
	var want []string
	t := ""
	for i := 0; i < 2; i++ {
		if i == 0 || other {
			t = string(rune('a' + i))
		}
		scope := []string{"", "trx", "iter", "client", "stage"}[verif.Choose("scope", 5)]
		d := map[string]config.Data{"d": {Generator: "column", Scope: scope}}
		iter := 1 + verif.Choose("iter", 2)
		w.stage(t, "-- save-insert-id: @d\ninsert "+t+"\n\ndelete @d\n", string(rune('0'+iter)), d)
		id := 0
		for k := 0; k < iter; k++ {
			want = append(want, "insert "+t)
			if k == 0 || scope != "stage" && scope != "client" { // those keep their first value
				id = len(want)
			}
			want = append(want, "delete "+strconv.Itoa(id))
		}
	}
	w.run()
	verif.Reach("end")
	verif.Assert(len(w.my.Queries) == len(want), "number of queries")
	for i, q := range w.my.Queries {
		verif.Assert(q == want[i], "insert IDs saved in this stage")
	}
}

// H_instances: as H_scopes, with a remote instance.
func H_instances() {
	w := start()
	defer os.RemoveAll(w.dir)
	scope := verif.Pick("scope", 0, len(scopes)-1)
	last := scope
	if scopes[scope] != "global" && verif.Choose("another scope", 2) == 1 {
		last = (scope + 3) % len(scopes)
	}
	iter := verif.Bound(1, 2)
	for i, sc := range []int{scope, last} {
		d := "0"
		if i == 0 {
			d = verif.Bytes("start", 1)
			verif.Assume(d[0] >= '0')
			verif.Assume(d[0] <= '6')
		}
		w.stage("t", "insert @d\n", string(rune('0'+iter)), map[string]config.Data{"d": {Generator: "auto-inc", Scope: scopes[sc], Params: map[string]string{"start": string(rune('1'+3*i)) + d}}})
		w.stages[i].Compute = config.Compute{Instances: "2"}
	}
	s, api := sys.Server(false)
	net := &sys.Net{API: api}
	net.Use()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ret := make(chan error, 1)
	end := make(chan bool)
	go func() { ret <- s.Run(ctx, w.stages) }()
	go func() {
		for range w.stages {
			compute.NewClient("r", "server").Run(ctx)
		}
		close(end)
	}()
	select {
	case err := <-ret:
		verif.Assert(err == nil, "no error")
	case <-time.After(time.Minute):
		verif.Fail("the stages end")
	}
	<-end
	verif.Reach("end")
	c := map[byte]int{}
	for _, q := range w.my.Queries {
		c[q[7]]++
	}
	// tens: 1 in the first stage, 4 in the second, unless the value of the first is kept for the run
	one, two := c['1'], c['4']
	if scopes[scope] == "global" && scope == last {
		verif.Assert(one >= 3*iter && one <= 4*iter && one+two == 4*iter, "the value of a global key is kept by the server")
		return
	}
	verif.Assert(one == 2*iter && two == 2*iter, "every instance uses the values of the stage")
}
