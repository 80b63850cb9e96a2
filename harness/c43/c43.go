// Package c43: the settings the connection is made with.
package c43

//verif:bound H_chars: one of user, password, password file, host, port, socket and database with 1-3 symbolic printable bytes (4 thorough)
//verif:bound H_precedence: user, password, password file, host, port and socket each given or not in the configuration and in my.cnf; H_tls: CA, ssl-mode, skip-verify, disable and host or socket (also of my.cnf) in both, Amazon RDS hosts
//verif:bound H_dsn: a DSN with a symbolic password, other settings given; H_again: two configurations in a row
//verif:assume the connection settings are those of the connector of the *sql.DB, which the real MySQL driver parsed; connecting itself is outside, and so is the content of certificates
//verif:assume a DSN can express the settings: no colon in user names, no / and ? in database names, no @ in socket paths; host and port are one setting
//verif:assume my.cnf values have no comment characters, quotes or % references
import (
	"os"
	"reflect"

	"github.com/square/finch/config"
	"github.com/square/finch/dbconn"
	"github.com/square/finch/zzverif/verif"
)

type conn struct {
	user, pass, net, addr, db string
	parseTime, tls, skip, ca  bool
	server                    string
}

// open makes a connection pool from the configuration; the settings are those its connector has.
func open(c config.MySQL) (conn, error) {
	dbconn.SetConfig(c)
	db, _, err := dbconn.Make()
	if err != nil {
		return conn{}, err
	}
	defer db.Close()
	v := reflect.ValueOf(db).Elem().FieldByName("connector").Elem().Elem().FieldByName("cfg").Elem()
	s := func(n string) string { return v.FieldByName(n).String() }
	r := conn{user: s("User"), pass: s("Passwd"), net: s("Net"), addr: s("Addr"), db: s("DBName"), parseTime: v.FieldByName("ParseTime").Bool()}
	t := v.FieldByName("TLS")
	if !t.IsNil() {
		t = t.Elem()
		r.tls = true
		r.skip = t.FieldByName("InsecureSkipVerify").Bool()
		r.ca = !t.FieldByName("RootCAs").IsNil()
		r.server = t.FieldByName("ServerName").String()
	}
	return r, nil
}

var full = config.MySQL{Username: "u", Password: "p", Hostname: "h", Db: "d"}
var fullConn = conn{user: "u", pass: "p", net: "tcp", addr: "h:3306", db: "d", parseTime: true}

// text is 1 to 3 printable bytes, all of only if given, none of not.
func text(not string, only string) string {
	n := 1 + verif.Choose("len", verif.Bound(3, 4))
	b := verif.Bytes("c", n)
	for i := 0; i < n; i++ {
		verif.Assume(b[i] >= ' ')
		verif.Assume(b[i] <= '~')
		for k := 0; k < len(not); k++ {
			verif.Assume(b[i] != not[k])
		}
		if only != "" {
			in := false
			for k := 0; k < len(only); k++ {
				if b[i] == only[k] {
					in = true
				}
			}
			verif.Assume(in)
		}
	}
	return b
}

func H_chars() {
	dir, err := os.MkdirTemp("", "c43")
	verif.Assert(err == nil, "temp dir")
	defer os.RemoveAll(dir)
	c, want := full, fullConn
	switch verif.Choose("which", 7) {
	case 0:
		c.Username = text(":", "")
		want.user = c.Username
	case 1:
		c.Password = text("", "")
		want.pass = c.Password
	case 2:
		c.PasswordFile = dir + "/pw"
		want.pass = text("", "")
		nl := []string{"", "\n", "\r\n"}[verif.Choose("newline", 3)]
		os.WriteFile(c.PasswordFile, []byte(want.pass+nl), 0600)
	case 3:
		c.Hostname = text("", "aZ09.-")
		want.addr = c.Hostname + ":3306"
	case 4:
		c.Hostname = "db1:" + text("", "0159")
		want.addr = c.Hostname
	case 5:
		c.Socket = "/" + text("@", "")
		want.net, want.addr = "unix", c.Socket
	case 6:
		c.Db = text("/?", "")
		want.db = c.Db
	}
	got, err := open(c)
	verif.Reach("chars")
	verif.Assert(err == nil, "no error")
	verif.Assert(got.user == want.user, "user")
	verif.Assert(got.pass == want.pass, "password")
	verif.Assert(got.net == want.net && got.addr == want.addr, "host and port or socket")
	verif.Assert(got.db == want.db, "database")
	verif.Assert(got.parseTime && !got.tls, "no TLS")
}

func H_precedence() {
	dir, err := os.MkdirTemp("", "c43")
	verif.Assert(err == nil, "temp dir")
	defer os.RemoveAll(dir)
	var c config.MySQL
	cnf := "[mysqld]\nuser=server\nport=1\n[client]\n"
	// one of two: v given in the configuration, w in my.cnf
	two := func(n, key, v, w string, set *string) (string, string) {
		a, b := "", ""
		if verif.Bool("config-" + n) {
			a = v
			*set = v
		}
		if key != "" && verif.Bool("mycnf-"+n) {
			b = w
			cnf += key + " = " + w + "\n"
		}
		return a, b
	}
	first := func(v ...string) string {
		for _, x := range v {
			if x != "" {
				return x
			}
		}
		return ""
	}
	want := conn{net: "tcp", parseTime: true}
	u1, u2 := two("user", "user", "cu", "mu", &c.Username)
	p1, p2 := two("password", "password", "cp", "mp", &c.Password)
	pf := ""
	if verif.Bool("password-file") {
		pf = "fp"
		c.PasswordFile = dir + "/pw"
		os.WriteFile(c.PasswordFile, []byte("fp\n"), 0600)
	}
	h1, h2 := two("host", "host", "ch", "mh", &c.Hostname)
	if h1 != "" && verif.Bool("config-port") {
		c.Hostname = "ch:11"
		h1 = "ch:11"
	}
	if verif.Bool("mycnf-port") {
		cnf += "port=22\n"
		if h2 == "" {
			h2 = "127.0.0.1"
		}
		h2 += ":22"
	}
	s1, s2 := two("socket", "socket", "/c.sock", "/m.sock", &c.Socket)
	want.db, _ = two("db", "", "cd", "", &c.Db)
	want.user = first(u1, u2, "finch")
	want.pass = first(pf, p1, p2)
	if u1 == "" && u2 == "" && want.pass == "" {
		want.pass = "amazing"
	}
	want.addr = first(h1, h2, "127.0.0.1")
	if n := len(want.addr); n < 3 || want.addr[n-3] != ':' {
		want.addr += ":3306"
	}
	if s1 != "" {
		want.net, want.addr = "unix", s1
	} else if h1 == "" && s2 != "" {
		want.net, want.addr = "unix", s2
	}
	c.MyCnf = dir + "/my.cnf"
	os.WriteFile(c.MyCnf, []byte(cnf), 0600)
	got, err := open(c)
	verif.Reach("precedence")
	verif.Assert(err == nil, "no error")
	verif.Assert(got.user == want.user, "user: configuration, my.cnf, default")
	verif.Assert(got.pass == want.pass, "password: file, configuration, my.cnf, default with the default user")
	verif.Assert(got.net == want.net && got.addr == want.addr, "socket or host: configuration, my.cnf, default")
	verif.Assert(got.db == want.db, "database")
	verif.Assert(got.parseTime && !got.tls, "no TLS")
}

func H_tls() {
	dir, err := os.MkdirTemp("", "c43")
	verif.Assert(err == nil, "temp dir")
	defer os.RemoveAll(dir)
	ca := dir + "/ca"
	os.WriteFile(ca, []byte("no certificate"), 0600)
	c := config.MySQL{Username: "u"}
	cnf := "[client]\n"
	host := []string{"", "h", "h:1", "x.rds.amazonaws.com", "x.rds.amazonaws.com:1", "x.rds.amazonaws.com.h"}[verif.Choose("host", 6)]
	rds := host == "x.rds.amazonaws.com" || host == "x.rds.amazonaws.com:1"
	where := verif.Choose("socket", 3) // none, configuration, my.cnf
	socket := where > 0
	c.Hostname = host
	if where == 1 {
		c.Socket = "/s"
	} else if where == 2 {
		verif.Assume(host == "")
		cnf += "socket=/s\n"
	}
	c1, c2 := verif.Bool("config-ca"), verif.Bool("mycnf-ca")
	if c1 {
		c.TLS.CA = ca
	}
	if c2 {
		cnf += "ssl-ca=" + ca + "\n"
	}
	mode := verif.Choose("ssl-mode", 4)
	if mode > 0 {
		cnf += "ssl-mode=" + []string{"", "DISABLED", "disabled", "REQUIRED"}[mode] + "\n"
	}
	skip, dis, auto := verif.Bool("skip"), verif.Choose("disable", 3), verif.Bool("disable-auto")
	if skip {
		t := true
		c.TLS.SkipVerify = &t
	}
	if dis > 0 {
		d := dis == 2
		c.TLS.Disable = &d
	}
	if auto {
		t := true
		c.DisableAutoTLS = &t
	}
	if verif.Bool("mycnf") {
		c.MyCnf = dir + "/my.cnf"
		os.WriteFile(c.MyCnf, []byte(cnf), 0600)
	} else {
		verif.Assume(!c2 && mode == 0 && where < 2)
	}
	if where == 2 && mode == 0 { // PREFERRED is no TLS on a socket
		c2 = false
	}
	off := dis == 2 || (mode == 1 || mode == 2) && !c1
	want := conn{user: "u", net: "tcp", parseTime: true}
	server := host
	if n := len(host); n > 2 && host[n-2] == ':' {
		server = host[:n-2]
		want.addr = host
	} else {
		if host == "" {
			host, server = "127.0.0.1", "127.0.0.1"
		}
		want.addr = host + ":3306"
	}
	if socket {
		want.net, want.addr = "unix", "/s"
	}
	if !off && (c1 || c2) {
		want.tls, want.ca, want.skip, want.server = true, true, skip, server
		if socket && c.Hostname == "" { // there is no name to verify
			want.skip, want.server = true, ""
		}
	} else if !off && rds && !socket && !auto {
		want.tls, want.ca, want.server = true, true, server
	}
	got, err := open(c)
	verif.Reach("tls")
	verif.Assert(err == nil, "no error")
	verif.Assert(got.net == want.net && got.addr == want.addr && got.user == "u", "host and user")
	verif.Assert(got.tls == want.tls, "TLS exactly when configured, or on Amazon RDS")
	verif.Assert(got.ca == want.ca, "CA")
	verif.Assert(got.skip == want.skip, "skip-verify")
	verif.Assert(got.server == want.server || want.skip, "name to verify")
}

// H_bad: missing and incomplete files are errors.
func H_bad() {
	dir, err := os.MkdirTemp("", "c43")
	verif.Assert(err == nil, "temp dir")
	defer os.RemoveAll(dir)
	os.WriteFile(dir+"/f", []byte("x"), 0600)
	c := full
	switch verif.Choose("bad", 5) {
	case 0:
		c.MyCnf = dir + "/missing"
	case 1:
		c.PasswordFile = dir + "/missing"
	case 2:
		c.TLS.CA = dir + "/missing"
	case 3:
		c.MyCnf = dir + "/my.cnf"
		os.WriteFile(c.MyCnf, []byte("[client]\nssl-cert="+dir+"/f\n"), 0600)
	case 4:
		c.DSN = "u:p@tcp(h"
	}
	_, err = open(c)
	verif.Reach("bad")
	verif.Assert(err != nil, "an error, and no connection with other settings")
}

// H_dsn: an explicit DSN is used as it is.
func H_dsn() {
	dir, err := os.MkdirTemp("", "c43")
	verif.Assert(err == nil, "temp dir")
	defer os.RemoveAll(dir)
	os.WriteFile(dir+"/my.cnf", []byte("[client]\nuser=mu\nhost=mh\n"), 0600)
	c := full
	c.Hostname = "x.rds.amazonaws.com"
	c.MyCnf = dir + "/my.cnf"
	c.TLS.CA = dir + "/my.cnf"
	pw := text("", "")
	user := []string{"", "du"}[verif.Choose("user", 2)]
	want := conn{user: user, pass: pw, net: "tcp", addr: "dh:1", db: "dd"}
	cred := user + ":" + pw + "@"
	if verif.Bool("no-password") {
		cred, want.pass = user+"@", ""
	}
	if verif.Bool("params") {
		c.DSN = cred + "tcp(dh:1)/dd?parseTime=true"
		want.parseTime = true
	} else if verif.Bool("socket") {
		c.DSN = cred + "unix(/d/s)/"
		want.net, want.addr, want.db = "unix", "/d/s", ""
	} else {
		c.DSN = cred + "tcp(dh:1)/dd"
	}
	got, err := open(c)
	verif.Reach("dsn")
	verif.Assert(err == nil, "no error")
	verif.Assert(got == want, "a DSN is used as it is")
}

// H_again: the configuration of the next stage replaces the one before.
func H_again() {
	a, b := full, config.MySQL{Username: "u2"}
	if verif.Bool("dsn-first") {
		a.DSN = "x:y@tcp(z:1)/w"
	}
	wb := conn{user: "u2", net: "tcp", addr: "127.0.0.1:3306", parseTime: true}
	if verif.Bool("dsn") {
		b.DSN = "x2:y2@tcp(z2:1)/w2"
		wb = conn{user: "x2", pass: "y2", net: "tcp", addr: "z2:1", db: "w2"}
	}
	_, err := open(a)
	verif.Assert(err == nil, "first")
	got, err := open(b)
	verif.Reach("again")
	verif.Assert(err == nil && got == wb, "the settings of the second configuration")
}
