// Package c39: references to parameters in settings and modifiers.
package c39

import (
	"fmt"
	"os"
	"reflect"
	"strings"

	"github.com/square/finch"
	"github.com/square/finch/config"
	"github.com/square/finch/zzverif/tf"
	"github.com/square/finch/zzverif/verif"
)

//verif:bound H_vars: texts of up to 3 parts (4 thorough), each a reference (bare or in braces, to one of 5 params whose names are prefixes of each other, a built-in or an environment variable) or one of 7 pieces of text, values any string
//verif:bound H_text: texts of up to 6 symbolic printable bytes without $
//verif:bound H_numbers: a table of human-readable and other numbers in 6 surroundings
//verif:bound H_fields: every string setting of config.Stage (found by reflection), a reference to a defined and to an undefined param, or 1k, each at a time
//verif:bound H_chain: params that reference each other, in every map order
//verif:bound H_modifier: the modifiers rows, idle and table-size of a trx file
//verif:assume a bare reference ends at a space, a quote, a $ or the end; a reference inside text needs braces

type ref struct {
	name, val string
	ok        bool
}

func refs() ([]ref, map[string]string) {
	v := func(n string) string { return "<" + verif.Str(n) }
	rs := []ref{
		{"params.a", v("a"), true},
		{"params.ab", v("ab"), true},
		{"params.abc", v("abc"), true},
		{"params.a-b", v("a-b"), true},
		{"params.A", v("A"), true},
		{"sys.CPU_CORES", finch.SystemParams["CPU_CORES"], true},
		{"ZZENV", v("env"), true},
		{"params.b", "", false},
		{"params.", "", false},
		{"sys.a", "", false},
		{"a", "", false},
		{"ZZENVX", "", false},
	}
	p := map[string]string{}
	for _, r := range rs {
		if r.ok && strings.HasPrefix(r.name, "params.") {
			p[strings.TrimPrefix(r.name, "params.")] = r.val
		}
	}
	os.Setenv("ZZENV", rs[6].val)
	return rs, p
}

func H_vars() {
	rs, params := refs()
	defer os.Unsetenv("ZZENV")
	text := []string{" ", "x", "'", "\"", "a b", "params.a", "{}"}
	n := 1 + verif.Choose("n", verif.Bound(3, 4))
	s, want, ok, open := "", "", true, false
	for i := 0; i < n; i++ {
		if verif.Bool("ref") {
			r := rs[verif.Choose("name", len(rs))]
			if i == 2 {
				verif.Assume(r.name == "params.ab" || r.name == "sys.CPU_CORES" || r.name == "a")
			}
			if verif.Bool("braces") {
				s += "${" + r.name + "}"
				open = false
			} else {
				s += "$" + r.name
				open = true
			}
			want += r.val
			ok = ok && r.ok
			continue
		}
		t := text[verif.Choose("text", len(text))]
		verif.Assume(!open || t[0] == ' ' || t[0] == '\'' || t[0] == '"')
		open = false
		s += t
		want += t
	}
	got, err := config.Vars(s, params, false)
	verif.Reach("vars")
	verif.Assert((err == nil) == ok, "an error exactly for an undefined reference")
	if err == nil {
		verif.Assert(got == want, "every reference is replaced by its value, the rest is kept")
	}
}

// H_text: text without references, numbers included, when numbers are not read.
func H_text() {
	n := verif.Choose("n", 7)
	b := verif.Bytes("t", n)
	for i := 0; i < n; i++ {
		verif.Assume(b[i] >= ' ')
		verif.Assume(b[i] <= '~')
		verif.Assume(b[i] != '$')
	}
	got, err := config.Vars(b, map[string]string{"a": "1"}, false)
	verif.Reach("text")
	verif.Assert(err == nil, "no error")
	verif.Assert(got == b, "text without references is unchanged")
}

func H_numbers() {
	num := [][2]string{
		{"1", "1"}, {"0", "0"}, {"007", "007"}, {"1000", "1000"}, {"1.5", "1.5"}, {"4294967296", "4294967296"},
		{"1k", "1000"}, {"1K", "1000"}, {"1KB", "1000"}, {"1KiB", "1024"}, {"2M", "2000000"}, {"3MiB", "3145728"}, {"1G", "1000000000"}, {"1GB", "1000000000"},
		{"1.5k", "1500"}, {"1,000", "1000"}, {"1,000,000", "1000000"}, {"10,000k", "10000000"},
		{"5ms", "5ms"}, {"10s", "10s"}, {"t1M", "t1M"}, {"1Mx", "1Mx"}, {"abc", "abc"}, {"", ""}, {"a1k", "a1k"}, {"1d", "1d"},
	}
	i := verif.Choose("num", len(num))
	pre := []string{"", "rows: ", "-", "x ", "'", "="}[verif.Choose("pre", 6)]
	post := []string{"", " ", " rows", "'", ";"}[verif.Choose("post", 5)]
	kind := verif.Choose("kind", 3)
	src, params := num[i][0], map[string]string{}
	switch kind {
	case 1:
		params["n"] = src
		src = "${params.n}"
	case 2: // a number that is resolved already
		params["n"] = num[i][1]
		src = "${params.n}"
	}
	got, err := config.Vars(pre+src+post, params, true)
	verif.Reach("numbers")
	verif.Assert(err == nil, "no error")
	verif.Assert(got == pre+num[i][1]+post, "human-readable numbers become integers, nothing else changes")
}

// ---- settings ----

// fields calls f for every string of v, except those that are not settings.
func fields(path string, v reflect.Value, f func(path string, get func() string, set func(string))) {
	switch v.Kind() {
	case reflect.String:
		f(path, func() string { return v.String() }, func(s string) { v.SetString(s) })
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			sf := v.Type().Field(i)
			if sf.Tag.Get("yaml") == "-" {
				continue
			}
			fields(path+"."+sf.Name, v.Field(i), f)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			fields(fmt.Sprintf("%s[%d]", path, i), v.Index(i), f)
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			k := k
			p := path + "[" + k.String() + "]"
			e := v.MapIndex(k)
			switch e.Kind() {
			case reflect.String:
				f(p, func() string { return v.MapIndex(k).String() }, func(s string) { v.SetMapIndex(k, reflect.ValueOf(s)) })
			case reflect.Map:
				fields(p, e, f)
			case reflect.Struct:
				n := reflect.New(e.Type()).Elem()
				n.Set(e)
				fields(p, n, func(path string, get func() string, set func(string)) {
					f(path, get, func(s string) { set(s); v.SetMapIndex(k, n) })
				})
			}
		}
	}
}

func stage() *config.Stage {
	return &config.Stage{
		Params: map[string]string{"a": "7", "ab": "8"},
		Stats:  config.Stats{Report: map[string]map[string]string{"csv": {"file": "f", "percentiles": "p"}}},
		Trx: []config.Trx{{Name: "t", File: "f"}, {Name: "u", Data: map[string]config.Data{
			"d": {Generator: "int", Params: map[string]string{"max": "1", "min": "0"}}}}},
		Workload: []config.ClientGroup{{Clients: "1"}, {Clients: "2", Trx: []string{"t", "u"}}},
	}
}

func values(s *config.Stage) map[string]string {
	m := map[string]string{}
	fields("stage", reflect.ValueOf(s).Elem(), func(p string, get func() string, set func(string)) { m[p] = get() })
	return m
}

func H_fields() {
	n := 0
	fields("stage", reflect.ValueOf(stage()).Elem(), func(string, func() string, func(string)) { n++ })
	verif.Assert(n > 50, "settings of a stage")
	i := verif.Choose("field", n)
	kind := verif.Choose("kind", 4)
	s := stage()
	k, path := 0, ""
	fields("stage", reflect.ValueOf(s).Elem(), func(p string, get func() string, set func(string)) {
		if k == i {
			path = p
			switch kind {
			case 0:
				set("$params.ab")
			case 1:
				set("${params.ab}0")
			case 2:
				set("$params.b")
			case 3:
				set("1k")
			}
		}
		k++
	})
	verif.Assume(path != "stage.Params[ab]") // would reference itself
	before := values(s)
	err := s.Vars()
	verif.Reach("fields")
	verif.Assert((err != nil) == (kind == 2), "an undefined param is rejected in every setting: "+path)
	if err != nil {
		return
	}
	want := []string{"8", "80", "", "1k"}[kind]
	if kind == 3 && (path == "stage.Compute.Instances" || strings.Contains(path, "QPS") || strings.Contains(path, "TPS") || strings.Contains(path, "Clients") || strings.Contains(path, "Iter") || strings.Contains(path, ".Data[") && strings.Contains(path, ".Params[")) {
		want = "1000" // a number
	}
	for p, v := range values(s) {
		if p == path && kind == 3 && strings.HasPrefix(path, "stage.Params[") {
			verif.Assert(v == "1k" || v == "1000", "param unchanged")
		} else if p == path {
			verif.Assert(v == want, "reference replaced in "+path)
		} else {
			verif.Assert(v == before[p], "other settings unchanged")
		}
	}
}

// H_chain: params of params.
func H_chain() {
	verif.MapOrder()
	os.Setenv("ZZENV", "$params.a")
	defer os.Unsetenv("ZZENV")
	s := stage()
	var want map[string]string
	ok := true
	switch verif.Choose("case", 5) {
	case 0:
		s.Params = map[string]string{"a": "$params.b", "b": "${params.c}0", "c": "1k", "d": "5"}
		want = map[string]string{"a": "10000", "b": "10000", "c": "1000", "d": "5"}
	case 1:
		s.Params = map[string]string{"a": "${params.b}-${params.c}", "b": "x$params.c", "c": "$sys.CPU_CORES"}
		c := finch.SystemParams["CPU_CORES"]
		want = map[string]string{"a": "x" + c + "-" + c, "b": "x" + c, "c": c}
	case 2: // exactly once: the value of an environment variable is not read again
		s.Params = map[string]string{"a": "1", "b": "$ZZENV", "c": "${params.b}"}
		want = map[string]string{"a": "1", "b": "$params.a", "c": "$params.a"}
	case 3:
		s.Params = map[string]string{"a": "$params.b", "b": "${params.c}", "c": "$params.a"}
		ok = false
	case 4:
		s.Params = map[string]string{"a": "$params.b", "b": "${params.x}", "c": "1"}
		ok = false
	}
	s.Name = "$params.a"
	err := s.Vars()
	verif.Reach("chain")
	verif.MapOrderOff()
	verif.Assert((err == nil) == ok, "undefined params and cycles are rejected, whatever the order")
	if ok {
		for k, v := range want {
			verif.Assert(s.Params[k] == v, "params of params, whatever the order")
		}
		verif.Assert(s.Name == want["a"], "the setting has the value of the param")
	}
}

// H_modifier: modifiers of a trx file.
func H_modifier() {
	params := map[string]string{"n": "5", "nn": "50", "t": "5ms", "d": "@d"}
	name := []string{"n", "nn", "m"}[verif.Choose("name", 3)]
	ref := "$params." + name
	if verif.Bool("braces") {
		ref = "${params." + name + "}"
	}
	set, err := tf.Load("-- rows: "+ref+"\nINSERT INTO t VALUES (1)\n\n-- idle: $params.t\n-- prepare\nSELECT 1\n", nil, params)
	verif.Reach("modifier")
	verif.Assert((err == nil) == (name != "m"), "an undefined param is rejected")
	if err != nil {
		return
	}
	st := set.Statements[set.Order[0]]
	want := int64(5)
	if name == "nn" {
		want = 50
	}
	verif.Assert(len(st) == 2 && st[0].Limit != nil && st[1].Idle.Milliseconds() == 5, "statements")
	st[0].Limit.Affected(want - 1)
	verif.Assert(st[0].Limit.More(nil), "rows has the value of the param: more")
	st[0].Limit.Affected(1)
	verif.Assert(!st[0].Limit.More(nil), "rows has the value of the param: done")
}
