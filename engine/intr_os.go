package main

import (
	"fmt"
	"go/types"
	"path/filepath"
	"sort"
	"strings"
)

// vfile is a file of the per-path virtual file system.
type vfile struct {
	cells []value // content, one cell per byte (or opaque)
	dir   bool
	mode  uint64
}

type openFile struct {
	name   string
	f      *vfile
	pos    int
	append bool
	closed bool
}

func (w *Worker) vpath(s string) string {
	if !filepath.IsAbs(s) {
		s = filepath.Join(w.cwd(), s)
	}
	return filepath.Clean(s)
}

func (w *Worker) cwd() string {
	if w.wd == "" {
		return "/cwd"
	}
	return w.wd
}

func (w *Worker) notExist(fr *frame, op, name string) value {
	// *fs.PathError wrapping fs.ErrNotExist
	p := w.e.prog.ImportedPackage("io/fs")
	ip := w.e.prog.ImportedPackage("internal/oserror")
	g := ip.Var("ErrNotExist")
	e := w.load(fr, w.globalAddr(g), deref(g.Type()))
	c := new(value)
	*c = structV{op, name, e}
	return iface{types.NewPointer(p.Type("PathError").Type()), c}
}

func registerOS() {
	file := func(w *Worker, o *openFile) value {
		p := new(value)
		*p = &hostObj{o}
		return p
	}
	of := func(fr *frame, v value) *openFile {
		q, _ := v.(*value)
		if q == nil {
			return nil
		}
		h, ok := (*q).(*hostObj)
		if !ok {
			return nil
		}
		o, _ := h.v.(*openFile)
		return o
	}
	name := func(fr *frame, v value) string { return fr.w.vpath(fr.w.concName(v)) }
	reg("os.ReadFile", func(fr *frame, a []value) value {
		n := name(fr, a[0])
		f := fr.w.fs[n]
		if f == nil || f.dir {
			return tupleV{[]value(nil), fr.w.notExist(fr, "open", n)}
		}
		return tupleV{append([]value{}, f.cells...), nilErr()}
	})
	intrinsics["io/ioutil.ReadFile"] = intrinsics["os.ReadFile"]
	reg("os.WriteFile", func(fr *frame, a []value) value {
		n := name(fr, a[0])
		fr.w.fs[n] = &vfile{cells: append([]value{}, a[1].([]value)...)}
		return nilErr()
	})
	reg("os.Open", func(fr *frame, a []value) value {
		n := name(fr, a[0])
		f := fr.w.fs[n]
		if f == nil {
			return tupleV{(*value)(nil), fr.w.notExist(fr, "open", n)}
		}
		return tupleV{file(fr.w, &openFile{name: n, f: f}), nilErr()}
	})
	reg("os.Create", func(fr *frame, a []value) value {
		n := name(fr, a[0])
		f := &vfile{}
		fr.w.fs[n] = f
		return tupleV{file(fr.w, &openFile{name: n, f: f}), nilErr()}
	})
	reg("os.OpenFile", func(fr *frame, a []value) value {
		n := name(fr, a[0])
		fl := cint(fr.w, a[1])
		f := fr.w.fs[n]
		if f == nil {
			if fl&0x40 == 0 {
				return tupleV{(*value)(nil), fr.w.notExist(fr, "open", n)}
			}
			f = &vfile{}
			fr.w.fs[n] = f
		} else if fl&0x40 != 0 && fl&0x80 != 0 {
			return tupleV{(*value)(nil), fr.w.goError("open " + n + ": file exists")}
		}
		if fl&0x200 != 0 {
			f.cells = nil
		}
		return tupleV{file(fr.w, &openFile{name: n, f: f, append: fl&0x400 != 0}), nilErr()}
	})
	mkTemp := func(fr *frame, dir, pat string, isDir bool) (string, *vfile) {
		if dir == "" {
			dir = "/tmp"
		}
		fr.w.tmpN++
		rs := fmt.Sprint(1000 + fr.w.tmpN)
		b := pat + rs
		if i := strings.LastIndex(pat, "*"); i >= 0 {
			b = pat[:i] + rs + pat[i+1:]
		}
		n := fr.w.vpath(filepath.Join(dir, b))
		f := &vfile{dir: isDir}
		fr.w.fs[n] = f
		return n, f
	}
	reg("os.MkdirTemp", func(fr *frame, a []value) value {
		n, _ := mkTemp(fr, fr.w.concName(a[0]), fr.w.concName(a[1]), true)
		return tupleV{n, nilErr()}
	})
	reg("os.CreateTemp", func(fr *frame, a []value) value {
		n, f := mkTemp(fr, fr.w.concName(a[0]), fr.w.concName(a[1]), false)
		return tupleV{file(fr.w, &openFile{name: n, f: f}), nilErr()}
	})
	mk := func(fr *frame, a []value) value {
		n := name(fr, a[0])
		fr.w.fs[n] = &vfile{dir: true}
		return nilErr()
	}
	reg("os.Mkdir", mk)
	reg("os.MkdirAll", func(fr *frame, a []value) value {
		for n := name(fr, a[0]); n != "/" && fr.w.fs[n] == nil; n = filepath.Dir(n) {
			fr.w.fs[n] = &vfile{dir: true}
		}
		return nilErr()
	})
	reg("os.Remove", func(fr *frame, a []value) value {
		n := name(fr, a[0])
		if fr.w.fs[n] == nil {
			return fr.w.notExist(fr, "remove", n)
		}
		delete(fr.w.fs, n)
		return nilErr()
	})
	reg("os.RemoveAll", func(fr *frame, a []value) value {
		n := name(fr, a[0])
		for _, k := range sortedKeys(fr.w.fs) {
			if k == n || strings.HasPrefix(k, n+"/") {
				delete(fr.w.fs, k)
			}
		}
		return nilErr()
	})
	reg("os.Rename", func(fr *frame, a []value) value {
		n, m := name(fr, a[0]), name(fr, a[1])
		f := fr.w.fs[n]
		if f == nil {
			return fr.w.notExist(fr, "rename", n)
		}
		delete(fr.w.fs, n)
		fr.w.fs[m] = f
		return nilErr()
	})
	reg("os.Stat", func(fr *frame, a []value) value {
		n := name(fr, a[0])
		if _, ok := fr.w.fs[n]; !ok {
			return tupleV{iface{}, fr.w.notExist(fr, "stat", n)}
		}
		t := fr.w.e.prog.ImportedPackage("os").Type("fileStat").Type()
		p := new(value)
		*p = zero(t)
		return tupleV{iface{types.NewPointer(t), p}, nilErr()}
	})
	reg("os.Getwd", func(fr *frame, a []value) value { return tupleV{fr.w.cwd(), nilErr()} })
	reg("os.Chdir", func(fr *frame, a []value) value {
		n := name(fr, a[0])
		if f := fr.w.fs[n]; n != "/cwd" && (f == nil || !f.dir) {
			return fr.w.notExist(fr, "chdir", n)
		}
		fr.w.wd = n
		return nilErr()
	})
	reg("os.Hostname", func(fr *frame, a []value) value { return tupleV{"testhost", nilErr()} })
	reg("os.TempDir", func(fr *frame, a []value) value { return "/tmp" })
	reg("os.Getpid", func(fr *frame, a []value) value { return uint64(4242) })
	reg("os.Getenv", func(fr *frame, a []value) value {
		if v, ok := fr.w.env[cstr(fr.w, a[0])]; ok {
			return v
		}
		return ""
	})
	reg("os.LookupEnv", func(fr *frame, a []value) value {
		v, ok := fr.w.env[cstr(fr.w, a[0])]
		if !ok {
			return tupleV{"", false}
		}
		return tupleV{v, true}
	})
	reg("os.Setenv", func(fr *frame, a []value) value {
		fr.w.env[cstr(fr.w, a[0])] = a[1]
		return nilErr()
	})
	reg("os.Unsetenv", func(fr *frame, a []value) value {
		delete(fr.w.env, cstr(fr.w, a[0]))
		return nilErr()
	})
	reg("os.Environ", func(fr *frame, a []value) value {
		var ks []string
		for k := range fr.w.env {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		out := []value{}
		for _, k := range ks {
			out = append(out, concatStr(k+"=", fr.w.env[k]))
		}
		return out
	})
	reg("os.Exit", func(fr *frame, a []value) value { fr.w.exitHook(fr, int(cint(fr.w, a[0]))); return nil })
	reg("(*os.File).Close", func(fr *frame, a []value) value {
		if o := of(fr, a[0]); o != nil {
			if o.closed {
				return fr.w.goError("close " + o.name + ": file already closed")
			}
			o.closed = true
		}
		return nilErr()
	})
	reg("(*os.File).Name", func(fr *frame, a []value) value {
		if o := of(fr, a[0]); o != nil {
			return o.name
		}
		return "/dev/stdout"
	})
	reg("(*os.File).Sync", func(fr *frame, a []value) value { return nilErr() })
	reg("(*os.File).Write", func(fr *frame, a []value) value {
		cells := a[1].([]value)
		o := of(fr, a[0])
		if o == nil {
			fr.w.stdout = concatStr(fr.w.stdout, ropeFromCells(cells))
			return tupleV{uint64(len(cells)), nilErr()}
		}
		if o.closed {
			return tupleV{uint64(0), fr.w.goError("write " + o.name + ": file already closed")}
		}
		if o.append {
			o.pos = len(o.f.cells)
		}
		o.f.cells = append(append([]value{}, o.f.cells[:o.pos]...), append(append([]value{}, cells...), tail(o.f.cells, o.pos+len(cells))...)...)
		o.pos += len(cells)
		return tupleV{uint64(len(cells)), nilErr()}
	})
	reg("(*os.File).WriteString", func(fr *frame, a []value) value {
		cells, ok := byteCells(a[1])
		if !ok {
			fr.w.opaque = true
			cells = []value{opaqueBytes{segsOf(a[1])}}
		}
		return intrinsics["(*os.File).Write"](fr, []value{a[0], cells})
	})
	reg("(*os.File).Read", func(fr *frame, a []value) value {
		o := of(fr, a[0])
		buf := a[1].([]value)
		if o == nil || o.closed {
			return tupleV{uint64(0), fr.w.goError("read: bad file")}
		}
		if len(buf) == 0 {
			return tupleV{uint64(0), nilErr()}
		}
		if o.pos >= len(o.f.cells) {
			g := fr.w.e.prog.ImportedPackage("io").Var("EOF")
			return tupleV{uint64(0), fr.w.load(fr, fr.w.globalAddr(g), deref(g.Type()))}
		}
		n := copy(buf, o.f.cells[o.pos:])
		o.pos += n
		return tupleV{uint64(n), nilErr()}
	})
	reg("os.IsNotExist", func(fr *frame, a []value) value {
		g := fr.w.e.prog.ImportedPackage("internal/oserror").Var("ErrNotExist")
		return fr.w.errorsIs(fr, a[0].(iface), fr.w.load(fr, fr.w.globalAddr(g), deref(g.Type())).(iface))
	})
	reg("os/user.Current", func(fr *frame, a []value) value {
		t := fr.w.e.prog.ImportedPackage("os/user").Type("User").Type()
		p := new(value)
		s := zero(t).(structV)
		s[0], s[1], s[2], s[3], s[4] = "1000", "1000", "tester", "Tester", "/home/tester"
		*p = s
		return tupleV{p, nilErr()}
	})
	// Certificates are not parsed: a pool only matters as present or not.
	reg("(*crypto/x509.CertPool).AppendCertsFromPEM", func(fr *frame, a []value) value {
		var sb strings.Builder
		for _, c := range a[1].([]value) {
			if b, ok := c.(uint64); ok {
				sb.WriteByte(byte(b))
			}
		}
		return strings.Contains(sb.String(), "-----BEGIN CERTIFICATE-----")
	})
	reg("os.UserHomeDir", func(fr *frame, a []value) value { return tupleV{"/home/tester", nilErr()} })
}

func tail(s []value, n int) []value {
	if n >= len(s) {
		return nil
	}
	return s[n:]
}

// concName: a file name; opaque parts are rendered by term identity.
func (w *Worker) concName(v value) string {
	switch x := v.(type) {
	case string:
		return x
	case *Rope:
		var sb strings.Builder
		for _, s := range x.segs {
			if s.k == kLit {
				sb.WriteString(s.s)
			} else {
				fmt.Fprintf(&sb, "\x01%d.%d\x01", s.k, s.t.id)
			}
		}
		return sb.String()
	}
	w.unsupported("file name %T", v)
	return ""
}

// The compute API listens on a port; requests reach its handler another way.
func init() {
	reg("net.Listen", func(fr *frame, a []value) value {
		t := fr.w.e.prog.ImportedPackage("net").Type("TCPListener").Type()
		p := new(value)
		*p = zero(t)
		return tupleV{iface{types.NewPointer(t), p}, iface{}}
	})
	// only for errors.errorType; errors.As is an intrinsic
	rlt := func(fr *frame, a []value) value {
		t := fr.w.e.prog.ImportedPackage("internal/reflectlite").Type("rtype").Type()
		return iface{t, zero(t)}
	}
	reg("internal/reflectlite.TypeOf", rlt)
	reg("(internal/reflectlite.rtype).Elem", rlt)
	reg("runtime.Caller", func(fr *frame, a []value) value { return tupleV{uint64(0), "", uint64(0), false} })
	reg("(*net.TCPListener).Close", func(fr *frame, a []value) value { return iface{} })
	reg("(*net/http.Server).ListenAndServe", func(fr *frame, a []value) value {
		fr.w.block("ListenAndServe")
		return iface{}
	})
}
