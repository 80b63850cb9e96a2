package main

import (
	"go/types"
	"regexp"
	"regexp/syntax"
	"strings"
	"sync"
	"unicode"
)

// hostRe is a compiled pattern and the classes of ASCII characters that it can
// tell apart: two bytes of one class are interchangeable in any text.
type hostRe struct {
	re      *regexp.Regexp
	classes []reClass
}

var strT = types.Typ[types.String]

type reClass struct {
	rep  byte
	rng  [][2]byte
	bits [2]uint64
}

func (c reClass) has(b byte) bool { return c.bits[b>>6]>>(b&63)&1 == 1 }

func newHostRe(re *regexp.Regexp) *hostRe {
	h := &hostRe{re: re}
	p, err := syntax.Parse(re.String(), syntax.Perl)
	if err != nil {
		return h
	}
	prog, err := syntax.Compile(p.Simplify())
	if err != nil {
		return h
	}
	sig := map[string]int{}
	for b := 0; b < 128; b++ {
		var sb strings.Builder
		for i := range prog.Inst {
			in := &prog.Inst[i]
			switch in.Op {
			case syntax.InstRune, syntax.InstRune1, syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
				if in.MatchRune(rune(b)) {
					sb.WriteByte('1')
				} else {
					sb.WriteByte('0')
				}
			case syntax.InstEmptyWidth:
				if syntax.IsWordChar(rune(b)) {
					sb.WriteByte('w')
				}
				if b == '\n' {
					sb.WriteByte('n')
				}
			}
		}
		k, ok := sig[sb.String()]
		if !ok {
			k = len(h.classes)
			sig[sb.String()] = k
			h.classes = append(h.classes, reClass{rep: byte(b)})
		}
		c := &h.classes[k]
		if b > ' ' && (c.rep <= ' ' || !unicode.IsLetter(rune(c.rep)) && unicode.IsLetter(rune(b))) {
			c.rep = byte(b)
		}
		c.bits[b>>6] |= 1 << (b & 63)
		if n := len(c.rng); n > 0 && int(c.rng[n-1][1]) == b-1 {
			c.rng[n-1][1] = byte(b)
		} else {
			c.rng = append(c.rng, [2]byte{byte(b), byte(b)})
		}
	}
	return h
}

// tmplRe tells apart the characters that matter in a replacement template; it matches a reference or a plain $.
var tmplRe = newHostRe(regexp.MustCompile(`\$(?:\$|(?:0|1|2|3|4|5|6|7|8|9|[A-Za-z_])+|\{(?:0|1|2|3|4|5|6|7|8|9|[A-Za-z_])+\})?`))

const (
	refNone   = -1 // a reference to a group that does not exist
	refDollar = -2
)

// expandRef returns the number of the group that the reference at text[i] names, and its end.
func expandRef(text string, i int) (int, int) {
	m := tmplRe.re.FindString(text[i:])
	end := i + len(m)
	name := strings.Trim(m[1:], "{}")
	if m == "$" || m == "$$" {
		return refDollar, end
	}
	if name[0] == '0' && len(name) > 1 {
		return refNone, end
	}
	n := 0
	for _, c := range name {
		if c < '0' || c > '9' || n >= 1e8 {
			return refNone, end
		}
		n = n*10 + int(c-'0')
	}
	return n, end
}

// reText is concrete text that the pattern cannot tell from the symbolic string.
type reText struct {
	text string
	at   []int // byte of text -> unit; -1 inside a unit
	us   []unit
	conc bool
}

func (w *Worker) reText(h *hostRe, v value) reText {
	if s, ok := v.(string); ok {
		return reText{text: s, conc: true}
	}
	t := reText{us: units(v)}
	var sb strings.Builder
	put := func(i int, s string) {
		for k := 0; k < len(s); k++ {
			if k == 0 {
				t.at = append(t.at, i)
			} else {
				t.at = append(t.at, -1)
			}
		}
		sb.WriteString(s)
	}
	pu := rune(puBase)
	for i, u := range t.us {
		switch c := u.c.(type) {
		case uint64:
			put(i, string([]byte{byte(c)}))
		case *Term:
			if len(h.classes) == 0 {
				w.unsupported("pattern over a symbolic byte: %s", h.re)
			}
			done := false
			for k, cl := range h.classes {
				f := w.tt.F
				for _, r := range cl.rng {
					f = w.tt.Or(f, w.tt.And(w.tt.Cmp(oULe, w.tt.Const(8, uint64(r[0])), c), w.tt.Cmp(oULe, c, w.tt.Const(8, uint64(r[1])))))
				}
				_ = k
				if w.branch(f) {
					put(i, string([]byte{cl.rep}))
					done = true
					break
				}
			}
			if !done {
				w.unsupported("pattern over a non-ASCII symbolic byte")
			}
		case nil:
			if u.seg.k == kDec {
				put(i, w.digitsOf(u.seg))
			} else {
				put(i, string(pu))
				pu++
			}
		}
	}
	t.text = sb.String()
	return t
}

const puBase = 0xE000

// digitsOf fixes the sign and the number of digits of a symbolic number.
func (w *Worker) digitsOf(s seg) string {
	t := s.t
	sign := ""
	if !s.uns && w.branch(w.tt.Cmp(oSLt, t, w.tt.Const(64, 0))) {
		sign = "-"
		t = w.tt.Bin(oSub, w.tt.Const(64, 0), t)
	}
	p := uint64(10)
	for n := 1; n < 20; n++ {
		if w.branch(w.tt.Cmp(oULt, t, w.tt.Const(64, p))) {
			return sign + strings.Repeat("7", n)
		}
		if n < 19 {
			p *= 10
		}
	}
	return sign + strings.Repeat("7", 20)
}

func (w *Worker) cut(t reText, i, j int) value {
	if t.conc {
		return t.text[i:j]
	}
	if i == j {
		return ""
	}
	if t.at[i] < 0 || j < len(t.at) && t.at[j] < 0 {
		w.unsupported("pattern splits a symbolic number: %s", t.text)
	}
	lo := t.at[i]
	hi := len(t.us)
	if j < len(t.at) {
		hi = t.at[j]
	}
	return fromUnits(t.us[lo:hi])
}

func registerRegexp() {
	obj := func(h *hostRe) value {
		p := new(value)
		*p = &hostObj{h}
		return p
	}
	var cache sync.Map // pattern -> *hostRe (immutable)
	compile := func(pat string) (*hostRe, error) {
		if h, ok := cache.Load(pat); ok {
			return h.(*hostRe), nil
		}
		re, err := regexp.Compile(pat)
		if err != nil {
			return nil, err
		}
		h := newHostRe(re)
		cache.Store(pat, h)
		return h, nil
	}
	reg("regexp.MustCompile", func(fr *frame, a []value) value {
		h, err := compile(cstr(fr.w, a[0]))
		if err != nil {
			panic(targetPanic{v: fr.w.goError(err.Error())})
		}
		return obj(h)
	})
	reg("regexp.Compile", func(fr *frame, a []value) value {
		h, err := compile(cstr(fr.w, a[0]))
		if err != nil {
			return tupleV{(*value)(nil), fr.w.goError(err.Error())}
		}
		return tupleV{obj(h), nilErr()}
	})
	getRe := func(v value) *hostRe { return (*v.(*value)).(*hostObj).v.(*hostRe) }
	regP("regexp.QuoteMeta", func(fr *frame, a []value) value { return regexp.QuoteMeta(cstr(fr.w, a[0])) })
	type fnT func(fr *frame, h *hostRe, t reText, a []value) value
	m := func(name string, f fnT) {
		reg("(*regexp.Regexp)."+name, func(fr *frame, a []value) value {
			h := getRe(a[0])
			return f(fr, h, fr.w.reText(h, a[1]), a)
		})
	}
	subs := func(w *Worker, t reText, ix []int) value {
		if ix == nil {
			return []value(nil)
		}
		out := make([]value, len(ix)/2)
		for k := range out {
			if ix[2*k] < 0 {
				out[k] = ""
			} else {
				out[k] = w.cut(t, ix[2*k], ix[2*k+1])
			}
		}
		return out
	}
	m("MatchString", func(fr *frame, h *hostRe, t reText, a []value) value { return h.re.MatchString(t.text) })
	m("FindStringSubmatch", func(fr *frame, h *hostRe, t reText, a []value) value {
		return subs(fr.w, t, h.re.FindStringSubmatchIndex(t.text))
	})
	m("FindAllStringSubmatch", func(fr *frame, h *hostRe, t reText, a []value) value {
		mm := h.re.FindAllStringSubmatchIndex(t.text, int(cint(fr.w, a[2])))
		if mm == nil {
			return []value(nil)
		}
		out := make([]value, len(mm))
		for i := range mm {
			out[i] = subs(fr.w, t, mm[i])
		}
		return out
	})
	m("FindAllString", func(fr *frame, h *hostRe, t reText, a []value) value {
		mm := h.re.FindAllStringIndex(t.text, int(cint(fr.w, a[2])))
		if mm == nil {
			return []value(nil)
		}
		out := make([]value, len(mm))
		for i, x := range mm {
			out[i] = fr.w.cut(t, x[0], x[1])
		}
		return out
	})
	m("FindString", func(fr *frame, h *hostRe, t reText, a []value) value {
		x := h.re.FindStringIndex(t.text)
		if x == nil {
			return ""
		}
		return fr.w.cut(t, x[0], x[1])
	})
	pos := func(fr *frame, t reText, x []int) value {
		if x == nil {
			return []value(nil)
		}
		var o []value
		for _, k := range x {
			if k >= 0 && !t.conc {
				for _, u := range t.us {
					if u.c == nil {
						fr.w.unsupported("index in opaque string")
					}
				}
			}
			o = append(o, uint64(int64(k)))
		}
		return o
	}
	poss := func(fr *frame, t reText, xx [][]int) value {
		if xx == nil {
			return []value(nil)
		}
		var o []value
		for _, x := range xx {
			o = append(o, pos(fr, t, x))
		}
		return o
	}
	m("FindStringIndex", func(fr *frame, h *hostRe, t reText, a []value) value {
		return pos(fr, t, h.re.FindStringIndex(t.text))
	})
	m("FindStringSubmatchIndex", func(fr *frame, h *hostRe, t reText, a []value) value {
		return pos(fr, t, h.re.FindStringSubmatchIndex(t.text))
	})
	m("FindAllStringIndex", func(fr *frame, h *hostRe, t reText, a []value) value {
		return poss(fr, t, h.re.FindAllStringIndex(t.text, int(cint(fr.w, a[2]))))
	})
	m("FindAllStringSubmatchIndex", func(fr *frame, h *hostRe, t reText, a []value) value {
		return poss(fr, t, h.re.FindAllStringSubmatchIndex(t.text, int(cint(fr.w, a[2]))))
	})
	replace := func(fr *frame, h *hostRe, t reText, f func(v value) value) value {
		var out value = ""
		p := 0
		for _, x := range h.re.FindAllStringIndex(t.text, -1) {
			out = concatStr(out, fr.w.cut(t, p, x[0]))
			out = concatStr(out, f(fr.w.cut(t, x[0], x[1])))
			p = x[1]
		}
		return concatStr(out, fr.w.cut(t, p, len(t.text)))
	}
	m("ReplaceAllString", func(fr *frame, h *hostRe, t reText, a []value) value {
		if rp, ok := a[2].(string); ok && t.conc {
			return h.re.ReplaceAllString(t.text, rp)
		}
		for _, n := range h.re.SubexpNames() {
			if n != "" {
				fr.w.unsupported("ReplaceAllString with named groups")
			}
		}
		tm := fr.w.reText(tmplRe, a[2])
		var out value = ""
		p := 0
		for _, x := range h.re.FindAllStringSubmatchIndex(t.text, -1) {
			out = concatStr(out, fr.w.cut(t, p, x[0]))
			p = x[1]
			q := 0
			for _, y := range tmplRe.re.FindAllStringIndex(tm.text, -1) {
				if y[0] > q {
					out = concatStr(out, fr.w.cut(tm, q, y[0]))
				}
				k, end := expandRef(tm.text, y[0])
				q = end
				switch {
				case k == refDollar:
					out = concatStr(out, "$")
				case k >= 0 && 2*k+1 < len(x) && x[2*k] >= 0:
					out = concatStr(out, fr.w.cut(t, x[2*k], x[2*k+1]))
				}
			}
			if q < len(tm.text) {
				out = concatStr(out, fr.w.cut(tm, q, len(tm.text)))
			}
		}
		return concatStr(out, fr.w.cut(t, p, len(t.text)))
	})
	m("ReplaceAllLiteralString", func(fr *frame, h *hostRe, t reText, a []value) value {
		return replace(fr, h, t, func(value) value { return a[2] })
	})
	m("ReplaceAllStringFunc", func(fr *frame, h *hostRe, t reText, a []value) value {
		return replace(fr, h, t, func(v value) value { return fr.w.callValue(fr, a[2], []value{v}) })
	})
	reg("(*regexp.Regexp).String", func(fr *frame, a []value) value { return getRe(a[0]).re.String() })
	reg("(*regexp.Regexp).NumSubexp", func(fr *frame, a []value) value { return uint64(getRe(a[0]).re.NumSubexp()) })
	reg("(*regexp.Regexp).SubexpNames", func(fr *frame, a []value) value {
		var o []value
		for _, s := range getRe(a[0]).re.SubexpNames() {
			o = append(o, s)
		}
		return o
	})

	// strings.Replacer: at each position the pairs are compared in argument order
	reg("strings.NewReplacer", func(fr *frame, a []value) value {
		p := new(value)
		*p = &hostObj{append([]value{}, vargs(a[0])...)}
		return p
	})
	reg("(*strings.Replacer).Replace", func(fr *frame, a []value) value {
		w := fr.w
		prs := (*a[0].(*value)).(*hostObj).v.([]value)
		if len(prs)%2 == 1 {
			w.panicVal(fr, iface{strT, "strings.NewReplacer: odd argument count"})
		}
		us := units(a[1])
		var out value = ""
		st := 0
		for i := 0; i < len(us); {
			hit := false
			for k := 0; k+1 < len(prs); k += 2 {
				n := len(units(prs[k]))
				if n == 0 {
					w.unsupported("empty replacer key")
				}
				if w.matchAtV(fr, us, i, prs[k]) {
					out = concatStr(concatStr(out, fromUnits(us[st:i])), prs[k+1])
					i += n
					st = i
					hit = true
					break
				}
			}
			if !hit {
				i++
			}
		}
		return concatStr(out, fromUnits(us[st:]))
	})

	// bufio.Scanner on a file: lines
	type lines struct {
		us   []unit
		line value
	}
	reg("bufio.NewScanner", func(fr *frame, a []value) value {
		r, _ := a[0].(iface)
		q, _ := r.v.(*value)
		if q == nil {
			return fallthru
		}
		h, ok := (*q).(*hostObj)
		if !ok {
			return fallthru
		}
		o, ok := h.v.(*openFile)
		if !ok {
			return fallthru
		}
		p := new(value)
		*p = &hostObj{&lines{us: units(ropeFromCells(o.f.cells[o.pos:]))}}
		return p
	})
	sc := func(v value) *lines {
		h, ok := (*v.(*value)).(*hostObj)
		if !ok {
			return nil
		}
		return h.v.(*lines)
	}
	reg("(*bufio.Scanner).Scan", func(fr *frame, a []value) value {
		l := sc(a[0])
		if l == nil {
			return fallthru
		}
		if len(l.us) == 0 {
			l.line = ""
			return false
		}
		n := 0
		for n < len(l.us) && !fr.w.unitIn(fr, l.us[n], "\n") {
			n++
		}
		end := n
		if end > 0 && fr.w.unitIn(fr, l.us[end-1], "\r") {
			end--
		}
		l.line = fromUnits(l.us[:end])
		if n < len(l.us) {
			n++
		}
		l.us = l.us[n:]
		return true
	})
	reg("(*bufio.Scanner).Text", func(fr *frame, a []value) value {
		l := sc(a[0])
		if l == nil {
			return fallthru
		}
		return l.line
	})
	reg("(*bufio.Scanner).Err", func(fr *frame, a []value) value {
		if sc(a[0]) == nil {
			return fallthru
		}
		return nilErr()
	})
}

// matchAtV reports whether the units at i are the (possibly symbolic) string n.
func (w *Worker) matchAtV(fr *frame, us []unit, i int, n value) bool {
	if s, ok := n.(string); ok {
		return w.matchAt(fr, us, i, s)
	}
	nu := units(n)
	if i+len(nu) > len(us) {
		return false
	}
	for k := range nu {
		a, b := us[i+k], nu[k]
		x, ok1 := a.c.(uint64)
		y, ok2 := b.c.(uint64)
		if ok1 && ok2 && x != y {
			return false
		}
		if (a.c == nil) != (b.c == nil) {
			return false
		}
	}
	return w.truth(w.simpB(w.equal(fr, fromUnits(us[i:i+len(nu)]), n, strT)))
}
