// Package c36: report lines.
package c36

import (
	"fmt"
	"os"
	"strings"

	"github.com/square/finch/stats"
	"github.com/square/finch/zzverif/verif"
)

//verif:bound H_csv: 1..3 instances, up to 2 intervals, percentile lists of 0..3; any interval number, number of clients, minimum, maximum, errors of 2 codes (symbolic, up to 2^40) and, for one type at a time, 0, 1000003 or 2000006 events (symbolic), of any of the types; interval lengths 0.3, 1, 2.5 and 10 s; H_stdout: 1..3 instances, each/combined options, percentile lists, values of up to 7 digits
//verif:opt H_csv fp=fork
//verif:assume an interval has a positive length; the percentile values themselves are C33

type col struct{ name, val string }

var lists = []struct {
	opt   string
	names []string
	p     []float64
}{
	{"", []string{"P999"}, []float64{99.9}},
	{"P50", []string{"P50"}, []float64{50}},
	{"p95, P99.9,100", []string{"P95", "P99.9", "P100"}, []float64{95, 99.9, 100}},
}

var types = []byte{stats.TOTAL, stats.READ, stats.WRITE, stats.COMMIT}

// columns are the names of the columns and their values for total statistics s.
func columns(in stats.Instance, clients uint, s *stats.Stats, compute string, list int, f func(int64) string) []col {
	c := []col{
		{"interval", fmt.Sprintf("%d", in.Interval)},
		{"duration", fmt.Sprintf("%.1f", in.Seconds)},
		{"runtime", fmt.Sprintf("%.1f", in.Runtime)},
		{"clients", fmt.Sprintf("%d", clients)},
	}
	for i, t := range types {
		prefix := []string{"", "r_", "w_", "c_"}[i]
		rate := []string{"QPS", "r_QPS", "w_QPS", "TPS"}[i]
		c = append(c, col{rate, f(int64(float64(s.N[t]) / in.Seconds))}, col{prefix + "min", f(s.Min[t])})
		for k, v := range s.Percentiles(t, lists[list].p) {
			c = append(c, col{prefix + lists[list].names[k], f(int64(v))})
		}
		name := prefix + "max"
		c = append(c, col{name, f(s.Max[t])})
	}
	var errs uint64
	for _, v := range s.Errors {
		errs += v
	}
	return append(c, col{"errors", f(int64(errs))}, col{"compute", compute})
}

func plain(n int64) string { return fmt.Sprintf("%d", n) }

func lines(file string) []string {
	b, err := os.ReadFile(file)
	verif.Assert(err == nil, "file")
	s := string(b)
	verif.Assert(strings.HasSuffix(s, "\n"), "whole lines")
	return strings.Split(strings.TrimSuffix(s, "\n"), "\n")
}

const big = 1 << 40

func instances(n int, sym int) []stats.Instance {
	secs := []float64{1, 0.3, 2.5, 10}[verif.Choose("seconds", 4)]
	no := uint(verif.Uint64("interval", 1, big))
	var from []stats.Instance
	for i := 0; i < n; i++ {
		in := stats.NewInstance([]string{"local", "h1", "h2"}[i])
		in.Interval, in.Seconds, in.Runtime = no, secs, secs+12.26
		in.Clients = uint(verif.Uint64("clients", 0, big))
		for k, t := range []byte{stats.READ, stats.WRITE, stats.COMMIT} {
			cnt := uint64(10*(k+1) + i)
			if sym == k && i == 0 {
				cnt = verif.Uint64("events", 0, 2) * 1000003
			}
			b := 20*k + 7*i
			in.Total.N[t] = cnt
			in.Total.Buckets[t][b] = cnt
			in.Total.Min[t], in.Total.Max[t] = verif.Int64("min", 0, big), verif.Int64("max", 0, big)
			in.Total.N[stats.TOTAL] += cnt
			in.Total.Buckets[stats.TOTAL][b] += cnt
		}
		in.Total.Min[stats.TOTAL], in.Total.Max[stats.TOTAL] = verif.Int64("min", 0, big), verif.Int64("max", 0, big)
		if verif.Choose("errors", 2) == 1 {
			in.Total.Errors[1205], in.Total.Errors[1213] = verif.Uint64("errors", 0, big), verif.Uint64("errors", 0, big)
		}
		from = append(from, in)
	}
	return from
}

// H_csv: the CSV file.
func H_csv() {
	list := verif.Choose("percentiles", len(lists))
	dir, err := os.MkdirTemp("", "c36")
	verif.Assert(err == nil, "temp dir")
	defer os.RemoveAll(dir)
	file := dir + "/out.csv"
	r, err := stats.NewCSV(map[string]string{"file": file, "percentiles": lists[list].opt})
	verif.Assert(err == nil, "reporter")
	n := 1 + verif.Choose("instances", verif.Bound(2, 3))
	var want [][]col
	for k := 0; k < verif.Bound(1, 2); k++ {
		from := instances(n, verif.Choose("type", 3))
		all, clients, compute := stats.NewStats(), uint(0), "local"
		if n > 1 {
			compute = fmt.Sprintf("%d combined", n)
		}
		for i := range from {
			if i == 0 {
				all.Copy(from[0].Total)
			} else {
				all.Combine(from[i].Total)
			}
			clients += from[i].Clients
		}
		want = append(want, columns(from[0], clients, all, compute, list, plain))
		r.Report(from)
	}
	r.Stop()
	verif.Reach("reported")
	got := lines(file)
	verif.Assert(len(got) == 1+len(want), "a header and a line per interval")
	head := strings.Split(got[0], ",")
	for k, w := range want {
		line := strings.Split(got[1+k], ",")
		verif.Assert(len(head) == len(w) && len(line) == len(w), "a line has as many columns as the header")
		for i := range w {
			verif.Assert(head[i] == w[i].name, "columns in documented order")
			verif.Assert(line[i] == w[i].val, "a column has the value that its header says")
		}
	}
}

//verif:opt H_stdout fp=fork

// comma writes n in groups of three digits.
func comma(n int64) string {
	s := fmt.Sprintf("%d", n)
	out := ""
	for i := range s {
		if i > 0 && (len(s)-i)%3 == 0 {
			out += ","
		}
		out += string(s[i])
	}
	return out
}

// value is one of a few values that become different text.
func value(name string) int64 { return int64(verif.Pick(name, 0, verif.Bound(1, 2))) * 4005 }

// H_stdout: the table on stdout.
func H_stdout() {
	list := verif.Choose("percentiles", len(lists))
	dir, err := os.MkdirTemp("", "c36")
	verif.Assert(err == nil, "temp dir")
	defer os.RemoveAll(dir)
	out, err := os.Create(dir + "/out")
	verif.Assert(err == nil, "file")
	opts := map[string]string{"percentiles": lists[list].opt}
	each, combined := true, true
	if x := verif.Choose("options", 9); x > 0 {
		if x%3 > 0 {
			each = x%3 == 1
			opts["each-instance"] = fmt.Sprint(each)
		} else {
			each = false
		}
		if x/3 > 0 {
			combined = x/3 == 1
			opts["combined"] = fmt.Sprint(combined)
		} else {
			combined = false
		}
	}
	n := 1 + verif.Choose("instances", 2)
	secs := []float64{0.3, 2.5}[verif.Choose("seconds", 2)]
	sym := verif.Choose("type", 4)
	names := []string{[]string{"local", "100%d"}[verif.Choose("name", 2)], "h1", "h2"}
	var from []stats.Instance
	for i := 0; i < n; i++ {
		in := stats.NewInstance(names[i])
		in.Interval, in.Seconds, in.Runtime, in.Clients = 7, secs, secs+12.26, uint(3+i)
		for k, t := range types {
			v := func(name string, c int64) int64 {
				if sym == k && i == 0 {
					return value(name) + c
				}
				return c
			}
			b := 20*k + 7*i
			cnt := uint64(v("events", int64(1000000*(k+1)+i)))
			in.Total.N[t], in.Total.Buckets[t][b] = cnt, cnt
			in.Total.Min[t] = int64(100*(k+1) + i)
			in.Total.Max[t] = v("max", int64(1111000*(k+1)+i))
		}
		in.Total.Errors[1205], in.Total.Errors[1213] = uint64(i), uint64(1001)
		from = append(from, in)
	}
	old := os.Stdout
	os.Stdout = out
	r, err := stats.NewStdout(opts)
	verif.Assert(err == nil, "reporter")
	r.Report(from)
	r.Stop()
	os.Stdout = old
	out.Close()
	verif.Reach("reported")
	var want [][]col
	all, clients := stats.NewStats(), uint(0)
	for i := range from {
		if each {
			want = append(want, columns(from[i], from[i].Clients, from[i].Total, from[i].Hostname, list, comma))
		}
		if i == 0 {
			all.Copy(from[0].Total)
		} else {
			all.Combine(from[i].Total)
		}
		clients += from[i].Clients
	}
	if combined && n > 1 {
		want = append(want, columns(from[0], clients, all, fmt.Sprintf("(%d combined)", n), list, comma))
	}
	got := lines(out.Name())
	for len(got) > 0 && got[len(got)-1] == "" {
		got = got[:len(got)-1]
	}
	verif.Assert(len(got) == 1+len(want), "a header and a line per reported instance")
	head := strings.Split(got[0], "|")
	for k, w := range want {
		line := strings.Split(got[1+k], "|")
		verif.Assert(len(head) == len(w) && len(line) == len(w), "a line has as many columns as the header")
		for i := range w {
			verif.Assert(strings.TrimSpace(head[i]) == w[i].name, "columns in documented order")
			verif.Assert(strings.TrimSpace(line[i]) == w[i].val, "a column has the value that its header says")
		}
	}
}
