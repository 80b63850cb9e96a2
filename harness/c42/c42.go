// Package c42: requests of remote instances.
package c42

//verif:bound H_send, H_get: retry policies of 1 to 3 tries and unlimited, up to 3 tries (thorough 4); every try ends in one of: 200, 205, any other status, connection error before, in the middle of or after sending the data, no answer, the body breaking off or hanging; data of 3 kinds with 2 symbolic bytes; a long and a short timeout, with and without wait; any status code
//verif:bound H_cancel: unlimited tries that all fail, cancelled at any ms up to 40
//verif:bound H_url: name, stage ID and parameters with 1-2 symbolic printable bytes (thorough 3), server address in 6 forms
//verif:assume an http.RoundTripper in the place of the network, which like the real one stops reading bodies when the context of the request ends; no redirects
import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"io"
	"net/http"
	"net/url"
	"strings"
	"time"

	"github.com/square/finch"
	"github.com/square/finch/compute"
	"github.com/square/finch/proto"
	"github.com/square/finch/zzverif/verif"
)

const (
	ok = iota
	reset
	status
	refused
	part
	lost
	silent
	broken
	hanging
	outcomes
)

// wire is the network and the server.
type wire struct {
	outcome func(n int) int
	tries   []*try
	answer  string
	url     string
	method  string
	header  string
}

type try struct {
	data  string
	all   bool // all data reached the server
	begin time.Time
	end   time.Time
	what  int
}

// body of an answer
type body struct {
	ctx  context.Context
	rest string
	what int
	once bool
	shut bool
}

func (b *body) Read(p []byte) (int, error) {
	if b.ctx.Err() != nil {
		return 0, b.ctx.Err()
	}
	if len(b.rest) > 0 {
		n := copy(p, b.rest[:1])
		b.rest = b.rest[n:]
		return n, nil
	}
	switch b.what {
	case broken:
		return 0, io.ErrUnexpectedEOF
	case hanging:
		<-b.ctx.Done()
		return 0, b.ctx.Err()
	}
	return 0, io.EOF
}
func (b *body) Close() error { b.shut = true; return nil }

func (w *wire) RoundTrip(r *http.Request) (*http.Response, error) {
	t := &try{begin: time.Now()}
	w.tries = append(w.tries, t)
	defer func() { t.end = time.Now() }()
	t.what = w.outcome(len(w.tries))
	w.url, w.method = r.URL.String(), r.Method
	if t.what == refused {
		return nil, errors.New("connection refused")
	}
	if r.Body != nil {
		if t.what == part {
			var b [1]byte
			r.Body.Read(b[:])
		} else {
			data, err := io.ReadAll(r.Body)
			verif.Assert(err == nil, "body can be read")
			t.data, t.all = string(data), true
		}
		r.Body.Close()
	}
	code := 200
	switch t.what {
	case part, lost:
		return nil, errors.New("connection reset")
	case silent:
		<-r.Context().Done()
		return nil, r.Context().Err()
	case reset:
		code = 205
	case status:
		code = verif.Int("status", 206, 599)
		for _, c := range []int{301, 302, 303, 307, 308} {
			verif.Assume(code != c)
		}
	}
	return &http.Response{StatusCode: code, Header: http.Header{}, Body: &body{ctx: r.Context(), rest: w.answer, what: t.what}, Request: r}, nil
}

func client(w *wire) *proto.Client {
	finch.MakeHTTPClient = func() *http.Client { return &http.Client{Transport: w} }
	c := proto.NewClient("n", "http://h")
	c.StageId = "id"
	return c
}

type pair struct {
	A string
	B []int
}

func (w *wire) play(c *proto.Client, get bool) {
	tries := []int{1, 2, 3, -1}[verif.Choose("tries", 4)]
	max := verif.Bound(3, 4)
	w.outcome = func(n int) int {
		if n == max {
			return ok
		}
		return verif.Choose("outcome", outcomes)
	}
	r := proto.R{Tries: tries, Timeout: 50 * time.Millisecond, Wait: 20 * time.Millisecond}
	if verif.Bool("short") {
		r = proto.R{Tries: tries, Timeout: time.Millisecond}
	}
	text := text("text", 2)
	var data interface{}
	want := ""
	if !get {
		switch verif.Choose("data", 3) {
		case 0:
		case 1:
			data = "some text that is longer"
			want = "\"some text that is longer\""
		case 2:
			data = pair{A: text, B: []int{1, 2}}
		}
		if data != nil && want == "" {
			b, err := json.Marshal(data)
			verif.Assert(err == nil, "(harness)")
			want = string(b)
		}
	}
	w.answer = "an answer"
	if get && verif.Bool("empty") {
		w.answer = ""
	}
	var err error
	var resp *http.Response
	var got []byte
	if get {
		resp, got, err = c.Get(context.Background(), "/p", [][]string{{"k", "v"}}, r)
		verif.Assert(w.method == "GET", "method")
		verif.Assert(w.url == "http://h/p?name=n&k=v&stage-id=id", "URL")
	} else {
		err = c.Send(context.Background(), "/p", data, r)
		verif.Assert(w.method == "POST", "method")
		verif.Assert(w.url == "http://h/p?name=n&stage-id=id", "URL")
	}
	verif.Reach("played")
	n := len(w.tries)
	verif.Assert(n > 0 && (tries < 0 || n <= tries), "tries")
	for i, t := range w.tries {
		good := t.what == ok || t.what == reset
		verif.Assert(!good || i == n-1, "nothing is sent after success")
		if t.all {
			verif.Assert(strings.TrimSuffix(t.data, "\n") == want, "every try sends all data")
		}
		verif.Assert(t.end.Sub(t.begin) <= r.Timeout, "timeout of a try")
		if i > 0 {
			verif.Assert(t.begin.Sub(w.tries[i-1].end) >= r.Wait, "wait between tries")
		}
	}
	last := w.tries[n-1].what
	verif.Assert((err == nil) == (last == ok || last == reset), "an error exactly if no try succeeded")
	if err != nil {
		verif.Assert(n == tries, "all tries are used")
	} else if get {
		if last == reset {
			verif.Assert(resp.StatusCode == 205, "reset")
		} else {
			verif.Assert(resp.StatusCode == 200 && bytes.Equal(got, []byte(w.answer)), "answer")
		}
	}
}

func H_send() {
	w := &wire{}
	w.play(client(w), false)
}

func H_get() {
	w := &wire{}
	w.play(client(w), true)
}

func H_cancel() {
	w := &wire{}
	c := client(w)
	at := time.Duration(verif.Pick("at", 0, 40)) * time.Millisecond
	what := []int{status, refused, lost, silent, hanging, broken}[verif.Choose("outcome", 6)]
	w.outcome = func(int) int { return what }
	ctx, cancel := context.WithCancel(context.Background())
	begin := time.Now()
	go func() {
		time.Sleep(at)
		cancel()
	}()
	r := proto.R{Timeout: 7 * time.Millisecond, Wait: 5 * time.Millisecond, Tries: -1}
	if verif.Choose("limited", 2) == 1 {
		r.Tries = 20 // more than possible until then
	}
	var err error
	if verif.Choose("send", 2) == 1 {
		err = c.Send(ctx, "/p", "x", r)
	} else {
		_, _, err = c.Get(ctx, "/p", nil, r)
	}
	verif.Reach("cancel")
	verif.Assert(err == context.Canceled, "cancelled")
	t := time.Since(begin)
	verif.Assert(verif.Native() || t >= at && t <= at+r.Wait+r.Timeout, "at once")
}

func text(k string, n int) string {
	b := verif.Bytes(k, n)
	for i := 0; i < n; i++ {
		verif.Assume(b[i] >= ' ')
		verif.Assume(b[i] <= '~')
	}
	return b
}

func H_url() {
	n := 1 + verif.Choose("len", verif.Bound(2, 3))
	which := verif.Choose("which", 2)
	name, v := "n", "v"
	if which == 0 {
		name = text("c", n)
	} else {
		v = text("c", n)
	}
	c := proto.NewClient(name, "http://h:1")
	c.StageId = "id"
	u, err := url.Parse(c.URL("/p", [][]string{{"k", v}}))
	verif.Reach("url")
	verif.Assert(err == nil && u.Host == "h:1" && u.Path == "/p", "address and path")
	q := u.Query()
	verif.Assert(len(q) == 3 && len(q["name"]) == 1 && len(q["k"]) == 1 && len(q["stage-id"]) == 1, "parameters")
	verif.Assert(q["name"][0] == name && q["k"][0] == v && q["stage-id"][0] == "id", "values")
}

func H_addr() {
	w := &wire{}
	finch.MakeHTTPClient = func() *http.Client { return &http.Client{Transport: w} }
	addr := []string{"h", "h:1", "http://h", "http://h:1", "http://h/", "h:1/"}[verif.Choose("addr", 6)]
	w.outcome = func(int) int { return ok }
	w.answer = "not a stage"
	c := compute.NewClient("n", addr)
	verif.Assert(c.Run(context.Background()) == nil, "run")
	verif.Reach("addr")
	host := "h"
	if strings.Contains(addr, ":1") {
		host = "h:1"
	}
	verif.Assert(len(w.tries) == 1 && w.url == "http://"+host+"/boot?name=n&stage-id=", "boots from the server")
}
