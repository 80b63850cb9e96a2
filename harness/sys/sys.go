// Package sys runs a Finch server, remote instances and a MySQL server that only records queries, all in
// one process: HTTP requests go to the handler of the real compute API, connections to MySQL speak
// the real protocol with the real driver.
package sys

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"io"
	"net"
	"net/http"
	"os"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/go-sql-driver/mysql"

	"github.com/square/finch"
	"github.com/square/finch/compute"
)

// Server makes a server and returns its API.
func Server(test bool) (*compute.Server, *compute.API) {
	s := compute.NewServer("local", "127.0.0.1:0", test)
	v := reflect.ValueOf(s).Elem()
	for i := 0; i < v.NumField(); i++ {
		if f := v.Field(i); f.Type() == reflect.TypeOf(&compute.API{}) {
			return s, (*compute.API)(f.UnsafePointer())
		}
	}
	panic("no API")
}

// Resp is a response as it is written.
type Resp struct {
	Code  int
	Body  []byte
	hdr   http.Header
	Ended bool // the handler has returned
}

func (r *Resp) Header() http.Header { return r.hdr }
func (r *Resp) WriteHeader(code int) {
	if r.Code == 0 {
		r.Code = code
	}
}
func (r *Resp) Write(b []byte) (int, error) {
	r.WriteHeader(200)
	r.Body = append(r.Body, b...)
	return len(b), nil
}

// Serve has the API answer a request.
func Serve(a *compute.API, req *http.Request, into *Resp) {
	into.hdr = http.Header{}
	a.ServeHTTP(into, req)
	into.WriteHeader(200)
	into.Ended = true
}

// Start sends a request, and returns its response, which is complete once it Ended.
func Start(a *compute.API, ctx context.Context, method, path, query, body string) *Resp {
	req, err := http.NewRequestWithContext(ctx, method, "http://server"+path+"?"+query, strings.NewReader(body))
	if err != nil {
		panic(err)
	}
	r := &Resp{}
	go Serve(a, req, r)
	return r
}

// Net is the network between remote instances and a server.
type Net struct {
	mu  sync.Mutex
	API *compute.API
	Log []string // METHOD path of every request that reached the server
	// Fault decides about a request: "", "lost" (does not reach the server), or "answer lost"
	Fault func(n int, r *http.Request) string
	// Files exist on the server only: they are there while it handles a request
	Files map[string]string
	n     int
	files sync.Mutex
}

func (n *Net) Use() {
	finch.MakeHTTPClient = func() *http.Client { return &http.Client{Transport: n} }
}

func (n *Net) RoundTrip(r *http.Request) (*http.Response, error) {
	fault := ""
	n.mu.Lock()
	n.n++
	k := n.n
	n.mu.Unlock()
	if n.Fault != nil {
		fault = n.Fault(k, r)
	}
	if fault == "lost" {
		<-r.Context().Done()
		return nil, r.Context().Err()
	}
	var body []byte
	if r.Body != nil {
		body, _ = io.ReadAll(r.Body)
		r.Body.Close()
	}
	n.mu.Lock()
	n.Log = append(n.Log, r.Method+" "+r.URL.Path)
	n.mu.Unlock()
	// the server gets its own request
	req, err := http.NewRequestWithContext(r.Context(), r.Method, r.URL.String(), bytes.NewReader(body))
	if err != nil {
		return nil, err
	}
	res := &Resp{}
	done := make(chan struct{})
	go func() {
		if r.URL.Path == "/file" {
			n.files.Lock()
			for f, c := range n.Files {
				os.WriteFile(f, []byte(c), 0600)
			}
		}
		Serve(n.API, req, res)
		if r.URL.Path == "/file" {
			for f := range n.Files {
				os.Remove(f)
			}
			n.files.Unlock()
		}
		close(done)
	}()
	select {
	case <-done:
	case <-r.Context().Done():
		return nil, r.Context().Err()
	}
	if fault == "answer lost" {
		return nil, errors.New("connection reset")
	}
	return &http.Response{StatusCode: res.Code, Header: res.hdr, Body: io.NopCloser(bytes.NewReader(res.Body)), Request: r, ProtoMajor: 1, ProtoMinor: 1}, nil
}

// MySQL is a server that answers everything with OK.
type MySQL struct {
	mu      sync.Mutex
	Conns   int
	Queries []string // of all connections; prepared ones with their values
	Conn    []int    // the connection of every query
	Delay   time.Duration
	Ids     bool // the insert ID of every query is its number
	Refuse  int  // refuses that many connections first
	// Rows are the columns and the rows of the result set of a query, 0 if it has none
	Rows func(query string) (cols int, rows [][]string)
	// RowsOf are these, by the connection of the query
	RowsOf func(conn int, query string) (cols int, rows [][]string)
	// Affected is the number of rows affected by a query
	Affected func(query string) int
}

// Listen makes the server reachable as DSN u@fake(x)/.
func (m *MySQL) Listen() { m.ListenAt("fake") }

// ListenAt makes the server reachable as DSN u@net(x)/.
func (m *MySQL) ListenAt(net_ string) {
	mysql.RegisterDialContext(net_, func(ctx context.Context, addr string) (net.Conn, error) {
		m.mu.Lock()
		if m.Refuse > 0 {
			m.Refuse--
			m.mu.Unlock()
			return nil, errors.New("connection refused")
		}
		m.Conns++
		c := &mconn{m: m, state: 1, id: m.Conns}
		m.mu.Unlock()
		c.send(0, append([]byte("\x0a8.0.0\x00\x01\x00\x00\x00abcdefgh\x00\x01\x8a\x2d\x02\x00\x0b\x00\x15"), []byte("\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00abcdefghijkl\x00mysql_native_password\x00")...))
		return c, nil
	})
}

// mconn is a connection to MySQL, from the side of the driver: a packet written is answered at once.
type mconn struct {
	m     *MySQL
	id    int
	state int // 1: waiting for the handshake response
	out   []byte
	in    []byte
	ps    []string // prepared statements
}

func (c *mconn) send(seq byte, p []byte) {
	c.out = append(c.out, byte(len(p)), byte(len(p)>>8), byte(len(p)>>16), seq)
	c.out = append(c.out, p...)
}

var ok = []byte{0, 0, 0, 2, 0, 0, 0}

func (c *mconn) Write(b []byte) (int, error) {
	c.in = append(c.in, b...)
	for len(c.in) >= 4 {
		n := int(c.in[0]) + int(c.in[1])<<8 + int(c.in[2])<<16
		if len(c.in) < 4+n {
			break
		}
		seq, p := c.in[3]+1, c.in[4:4+n]
		c.in = c.in[4+n:]
		if c.state == 1 {
			c.state = 2
			c.send(seq, ok)
			continue
		}
		switch p[0] {
		case 1: // quit
		case 3: // query
			c.query(seq, string(p[1:]), false)
		case 0x16: // prepare
			q := string(p[1:])
			c.ps = append(c.ps, q)
			id, params := len(c.ps), strings.Count(q, "?")
			c.send(seq, []byte{0, byte(id), byte(id >> 8), 0, 0, 0, 0, byte(params), byte(params >> 8), 0, 0, 0})
			for i := 0; i < params; i++ {
				seq++
				c.send(seq, column)
			}
			if params > 0 {
				c.send(seq+1, eof)
			}
		case 0x17: // execute
			c.query(seq, c.execute(p), true)
		case 0x19: // close statement
		default:
			c.send(seq, ok)
		}
	}
	return len(b), nil
}

// query executes a query and sends its result.
func (c *mconn) query(seq byte, q string, binary bool) {
	c.m.mu.Lock()
	c.m.Queries = append(c.m.Queries, q)
	c.m.Conn = append(c.m.Conn, c.id)
	res := []byte{0, 0, 0, 2, 0, 0, 0}
	if c.m.Ids {
		res[1], res[2] = 1, byte(len(c.m.Queries))
	}
	if c.m.Affected != nil {
		res[1] = byte(c.m.Affected(q))
	}
	c.m.mu.Unlock()
	time.Sleep(c.m.Delay)
	if c.m.Rows != nil {
		if n, rows := c.m.Rows(q); n > 0 {
			c.result(seq, n, rows, binary)
			return
		}
	}
	if c.m.RowsOf != nil {
		if n, rows := c.m.RowsOf(c.id, q); n > 0 {
			c.result(seq, n, rows, binary)
			return
		}
	}
	c.send(seq, res)
}

// execute returns the prepared query with its values.
func (c *mconn) execute(p []byte) string {
	q := c.ps[int(p[1])+int(p[2])<<8-1]
	n := strings.Count(q, "?")
	if n == 0 {
		return q
	}
	p = p[10:]
	null := p[:(n+7)/8]
	types := p[(n+7)/8+1:]
	p = types[2*n:]
	vals := make([]string, n)
	for i := range vals {
		switch {
		case null[i/8]>>(i%8)&1 == 1:
			vals[i] = "NULL"
		case types[2*i] == 8:
			vals[i] = strconv.FormatInt(int64(binary.LittleEndian.Uint64(p)), 10)
			p = p[8:]
		default: // string
			k := int(p[0])
			p = p[1:]
			if k == 0xfc {
				k = int(p[0]) + int(p[1])<<8
				p = p[2:]
			}
			vals[i] = "'" + string(p[:k]) + "'"
			p = p[k:]
		}
	}
	var b strings.Builder
	for i, s := range strings.Split(q, "?") {
		b.WriteString(s)
		if i < n {
			b.WriteString(vals[i])
		}
	}
	return b.String()
}

var eof = []byte{0xfe, 0, 0, 2, 0}
var column = []byte("\x03def\x00\x00\x00\x01c\x00\x0c\x2d\x00\x40\x00\x00\x00\xfd\x00\x00\x00\x00\x00")

// result sends a result set.
func (c *mconn) result(seq byte, cols int, rows [][]string, binary bool) {
	next := func(p []byte) {
		c.send(seq, p)
		seq++
	}
	next([]byte{byte(cols)})
	for i := 0; i < cols; i++ {
		next(column)
	}
	next(eof)
	for _, r := range rows {
		var p []byte
		if binary {
			p = make([]byte, 1+(cols+9)/8)
		}
		for _, v := range r {
			p = append(p, byte(len(v)))
			p = append(p, v...)
		}
		next(p)
	}
	next(eof)
}

func (c *mconn) Read(b []byte) (int, error) {
	if len(c.out) == 0 {
		return 0, io.EOF
	}
	n := copy(b, c.out)
	c.out = c.out[n:]
	return n, nil
}
func (c *mconn) Close() error                       { return nil }
func (c *mconn) LocalAddr() net.Addr                { return nil }
func (c *mconn) RemoteAddr() net.Addr               { return nil }
func (c *mconn) SetDeadline(t time.Time) error      { return nil }
func (c *mconn) SetReadDeadline(t time.Time) error  { return nil }
func (c *mconn) SetWriteDeadline(t time.Time) error { return nil }
