// Package c44: redacted DSNs.
package c44

//verif:bound H_exact: password of 0-3 symbolic printable bytes (4 thorough), user given or not, TCP and socket addresses, 4 sets of parameters
//verif:bound H_fields: one of user, host, socket and database with 1-2 symbolic printable bytes (3 thorough), 3 sets of parameters
//verif:bound H_any: a DSN with one or two arbitrary bytes replaced at any position by any printable byte except [ and ], or cut after any byte; H_raw: any DSN of 0-4 bytes (5 thorough)
//verif:bound H_config: password of 1-3 symbolic printable bytes (5 thorough), user and password file given or not
//verif:bound H_make: password from the configuration, a file, my.cnf, the default or a DSN, 1-2 symbolic printable bytes (3 thorough)
//verif:assume what the password of a DSN is, is what the real MySQL driver takes it to be
import (
	"os"
	"strings"

	"github.com/go-sql-driver/mysql"

	"github.com/square/finch/config"
	"github.com/square/finch/dbconn"
	"github.com/square/finch/zzverif/verif"
)

func text(n int, not string) string {
	b := verif.Bytes("c", n)
	for i := 0; i < n; i++ {
		verif.Assume(b[i] >= ' ')
		verif.Assume(b[i] <= '~')
		for k := 0; k < len(not); k++ {
			verif.Assume(b[i] != not[k])
		}
	}
	return b
}

var addrs = []string{"tcp(h:33)", "unix(/tmp/s.sock)", "tcp([::1]:3306)"}
var params = []string{"", "?parseTime=true", "?collation=utf8mb4_bin&parseTime=true&timeout=5s&tls=skip-verify", "?charset=utf8mb4&sql_mode=%27ANSI%27"}

func H_exact() {
	pw := text(verif.Choose("len", verif.Bound(4, 5)), "")
	user := []string{"", "user"}[verif.Choose("user", 2)]
	rest := addrs[verif.Choose("addr", 3)] + "/db" + params[verif.Choose("params", 4)]
	got := dbconn.RedactedDSN(user + ":" + pw + "@" + rest)
	want := rest
	if user != "" {
		want = user + ":...@" + rest
	}
	verif.Reach("exact")
	verif.Assert(got == want, "only the password is replaced")
}

func H_fields() {
	f := []string{"user", "h:1", "/s", "db"}
	which := verif.Choose("which", 4)
	not := []string{":", "()", "@()", "?/"}[which]
	if which == 1 {
		not = "@()/:[]"
	}
	s := text(1+verif.Choose("len", verif.Bound(2, 3)), not)
	if which == 0 {
		verif.Assume(s[0] != '@')
	}
	f[which] = s
	addr := "tcp(" + f[1] + ")"
	if which == 1 {
		addr = "tcp(" + f[1] + ":1)"
	}
	if which == 2 {
		addr = "unix(" + f[2] + ")"
	}
	rest := addr + "/" + f[3] + params[verif.Choose("params", 3)]
	got := dbconn.RedactedDSN(f[0] + ":Q1@Q:/@" + rest)
	verif.Reach("fields")
	verif.Assert(got == f[0]+":...@"+rest, "the other settings stay")
}

func check(dsn string, secret byte) {
	got := dbconn.RedactedDSN(dsn)
	cfg, err := mysql.ParseDSN(dsn)
	if err != nil {
		verif.Reach("invalid")
		verif.Assert(strings.IndexByte(got, secret) < 0, "nothing of the password in the redacted form of an invalid DSN")
		return
	}
	verif.Reach("valid")
	if strings.IndexByte(cfg.Passwd, secret) < 0 {
		return
	}
	verif.Assert(strings.IndexByte(got, secret) < 0, "nothing of the password in the redacted DSN")
	cfg2, err := mysql.ParseDSN(got)
	verif.Assert(err == nil, "the redacted DSN is a DSN")
	verif.Assert(cfg2.Net == cfg.Net && cfg2.Addr == cfg.Addr && cfg2.DBName == cfg.DBName && cfg2.ParseTime == cfg.ParseTime, "settings are kept")
	verif.Assert(cfg.User == "" || cfg2.User == cfg.User, "user is kept")
	verif.Assert(cfg2.Passwd != cfg.Passwd || cfg.User == "", "password is not")
}

// H_any: a DSN with typing errors.
func H_any() {
	d := "u:Q@tcp(h:1)/d?parseTime=true"
	n := len(d)
	if verif.Bool("cut") {
		check(d[:verif.Choose("at", n)], 'Q')
		return
	}
	i := verif.Choose("i", n)
	b := []byte(d)
	j := i
	if verif.Bool("two") {
		j = verif.Choose("j", verif.Bound(14, n))
		verif.Assume(j > i)
	}
	verif.Assume(i != 2 && j != 2)
	set := func(k int, s string) { b[k] = s[0] }
	set(i, text(1, "Q[]"))
	if j != i {
		// the other one is one of those which have a meaning
		set(j, []string{":", "@", "(", ")", "/", "?", "&", "=", "x", "%"}[verif.Choose("b", 10)])
	}
	check(string(b), 'Q')
}

func H_raw() {
	d := text(verif.Choose("len", verif.Bound(5, 6)), "")
	got := dbconn.RedactedDSN(d)
	cfg, err := mysql.ParseDSN(d)
	verif.Reach("raw")
	verif.Assert(err != nil || got != d || cfg.Passwd == "" || cfg.Passwd == "...", "a DSN with a password is not returned as it is")
}

// H_config: a configuration in a debug message.
func H_config() {
	c := config.MySQL{MyCnf: "f", Hostname: "h:1", Socket: "/s", Db: "db"}
	c.Password = text(1+verif.Choose("len", verif.Bound(3, 5)), "")
	if verif.Bool("user") {
		c.Username = "user"
	}
	if verif.Bool("file") {
		c.PasswordFile = "p"
	}
	a := c.Redacted()
	before := c.Password
	c.Password += "x"
	verif.Reach("config")
	verif.Assert(a == c.Redacted() && c.Password == before+"x", "the text does not depend on the password")
	verif.Assert(strings.Contains(a, "h:1") && strings.Contains(a, c.Username), "settings are kept")
}

func H_make() {
	dir, err := os.MkdirTemp("", "c44")
	verif.Assert(err == nil, "temp dir")
	defer os.RemoveAll(dir)
	not := ".-:=/@(afhimnoprtuT13678?;#\"'` %\\$[]"
	c := config.MySQL{Username: "u", Hostname: "h", Db: "d"}
	pw := "Q"
	from := verif.Choose("from", 5)
	if from < 4 {
		pw = text(1+verif.Choose("len", verif.Bound(2, 3)), not)
	}
	want := "u:...@tcp(h:3306)/d?parseTime=true"
	switch from {
	case 0:
		c.Password = pw
	case 1:
		c.PasswordFile = dir + "/p"
		os.WriteFile(c.PasswordFile, []byte(pw), 0600)
	case 2:
		c.MyCnf = dir + "/c"
		os.WriteFile(c.MyCnf, []byte("[client]\npassword="+pw+"\n"), 0600)
	case 3:
		c.DSN = "u:" + pw + "@tcp(h:3306)/d?parseTime=true"
	case 4:
		c.Username = ""
		pw = "amazing"
		want = "finch:...@tcp(h:3306)/d?parseTime=true"
	}
	dbconn.SetConfig(c)
	for i := 0; i < 2; i++ {
		db, got, err := dbconn.Make()
		verif.Reach("make")
		verif.Assert(err == nil, "no error")
		db.Close()
		verif.Assert(got == want, "the DSN returned is redacted")
	}
}
