//go:build go1.22

package main

import (
	"bytes"
	"compress/gzip"
	"fmt"
	"regexp"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"
)

// LSpan is a span as the workload means it, independent of any wire format.
type LSpan struct {
	T     uint64      `json:"t"`
	I     uint64      `json:"i"`
	P     uint64      `json:"p,omitempty"` // 0: no parent given
	N     string      `json:"n,omitempty"`
	Svc   string      `json:"svc,omitempty"`
	TS    uint64      `json:"ts,omitempty"` // microseconds
	D     uint64      `json:"d,omitempty"`  // microseconds
	Kind  string      `json:"kind,omitempty"`
	Tags  [][2]string `json:"tags,omitempty"`
	Ann   []LAnn      `json:"ann,omitempty"`    // v1 annotations
	LongN int         `json:"long_n,omitempty"` // pads the name to this many bytes
	LongV int         `json:"long_v,omitempty"` // adds a tag "long" with this many bytes
}

type LAnn struct {
	V   string `json:"v"`
	TS  uint64 `json:"ts"`
	Svc string `json:"svc,omitempty"`
}

func (s *LSpan) name() string {
	if s.LongN > len(s.N) {
		return s.N + longText(s.I, s.LongN-len(s.N))
	}
	return s.N
}

func (s *LSpan) tags() [][2]string {
	if s.LongV > 0 {
		return append(append([][2]string(nil), s.Tags...), [2]string{"long", longText(s.I+1, s.LongV)})
	}
	return s.Tags
}

func longText(seed uint64, n int) string {
	r := NewRng(seed)
	b := make([]byte, n)
	for i := range b {
		b[i] = "abcdefghijklmnopqrstuvwxyz0123456789 _-."[r.N(40)]
	}
	return string(b)
}

// Expect is what the span means to the proxy, written from the documented
// zipkin/jaeger formats and not from the code's parsers.
func (s *LSpan) Expect(format string) proxy.Span {
	out := proxy.Span{Id: proxy.Id(s.I), Trace: proxy.Id(s.T), Parent: proxy.Id(s.P), Name: s.name()}
	tags := map[string]string{}
	us := func(v uint64) proxy.Timestamp { return proxy.Timestamp(int64(v) * 1000) }
	out.Timestamp = us(s.TS)
	out.Duration = time.Duration(s.D) * time.Microsecond
	kind := strings.ToLower(s.Kind)
	switch format {
	case "v1":
		for _, a := range s.Ann {
			if a.TS == 0 {
				continue
			}
			switch a.V {
			case "cs":
				out.Timings.CS = us(a.TS)
			case "cr":
				out.Timings.CR = us(a.TS)
			case "sr":
				out.Timings.SR = us(a.TS)
			case "ss":
				out.Timings.SS = us(a.TS)
			}
			if out.Service == "" {
				out.Service = a.Svc
			}
		}
		for _, kv := range s.tags() {
			tags[kv[0]] = kv[1]
			if out.Service == "" {
				out.Service = s.Svc
			}
		}
		if out.Timings.CS > 0 && out.Timings.CR > 0 {
			out.Timestamp = out.Timings.CS
			out.Duration = time.Duration(out.Timings.CR - out.Timings.CS)
		} else if out.Timings.SR > 0 && out.Timings.SS > 0 {
			out.Timestamp = out.Timings.SR
			out.Duration = time.Duration(out.Timings.SS - out.Timings.SR)
		}
		tags["protocolVersion"] = "json v1"
	case "v2":
		out.Service = s.Svc
		for _, kv := range s.tags() {
			tags[kv[0]] = kv[1]
		}
		tags["protocolVersion"] = "json v2"
	case "jaeger":
		out.Service = s.Svc
		if s.P == 0 {
			out.Parent = out.Id
		}
		for _, kv := range s.tags() {
			k := kv[0]
			if k == "component" {
				k = "lc"
			}
			tags[k] = kv[1]
		}
		tags["protocolVersion"] = "jaeger"
	}
	if out.Duration == 0 {
		out.Duration = time.Millisecond
	}
	if format != "v1" {
		if kind == "client" {
			out.Timings.CS = out.Timestamp
			out.Timings.CR = out.Timestamp + proxy.Timestamp(out.Duration)
		}
		if kind == "server" {
			out.Timings.SR = out.Timestamp
			out.Timings.SS = out.Timestamp + proxy.Timestamp(out.Duration)
		}
	}
	out.Tags = tags
	return out
}

// ------------------------------------------------------------------ encoding

type jw struct {
	b bytes.Buffer
	r *Rng
	// styles
	pretty  int // percent of separators followed by white space
	escape  int // percent of characters written as \uXXXX
	unknown int // percent of objects with unknown fields
	shuf    bool
	dup     bool // repeated fields
	strict  bool // stay inside what encoding/json accepts
}

func newJW(style uint64) *jw {
	r := NewRng(style ^ 0x77)
	w := &jw{r: r}
	switch r.N(4) {
	case 0:
	case 1:
		w.pretty = 30
	case 2:
		w.pretty, w.escape, w.unknown = 5, 3, 20
	case 3:
		w.pretty, w.escape, w.unknown = 40, 40, 50
	}
	w.shuf = r.P(60)
	return w
}

func (w *jw) ws() {
	for w.pretty > 0 && w.r.P(w.pretty) {
		w.b.WriteString(pick(w.r, " ", "\n", "\t", "\r\n", "  "))
	}
}

func (w *jw) str(s string) {
	w.b.WriteByte('"')
	for i := 0; i < len(s); {
		c, n := utf8.DecodeRuneInString(s[i:])
		switch {
		case c == '"' || c == '\\':
			if w.r.P(80) {
				w.b.WriteByte('\\')
				w.b.WriteByte(byte(c))
			} else {
				fmt.Fprintf(&w.b, `\u%04x`, c)
			}
		case c == '/' && w.r.P(w.escape):
			w.b.WriteString(`\/`)
		case c == '\n' || c == '\t' || c == '\r' || c == '\b' || c == '\f':
			if w.r.P(70) {
				w.b.WriteByte('\\')
				w.b.WriteByte(map[rune]byte{'\n': 'n', '\t': 't', '\r': 'r', '\b': 'b', '\f': 'f'}[c])
			} else {
				fmt.Fprintf(&w.b, `\u%04X`, c)
			}
		case c < 0x20:
			fmt.Fprintf(&w.b, `\u%04x`, c)
		case w.r.P(w.escape):
			if c > 0xffff {
				v := c - 0x10000
				fmt.Fprintf(&w.b, `\u%04x\u%04X`, 0xd800+(v>>10), 0xdc00+(v&0x3ff))
			} else {
				fmt.Fprintf(&w.b, pick(w.r, `\u%04x`, `\u%04X`), c)
			}
		default:
			w.b.WriteString(s[i : i+n])
		}
		i += n
	}
	w.b.WriteByte('"')
}

type field struct {
	k string
	f func()
}

// twice repeats some fields of a span, with the content they have in another
// one (only in documents for which nothing is expected but that they do no harm).
func (w *jw) twice(fs []field, mk func(i int) []field, n int) []field {
	for w.dup && w.r.P(50) {
		other := mk(w.r.N(n))
		fs = append(fs, other[w.r.N(len(other))])
	}
	return fs
}

func (w *jw) obj(fields []field) {
	if w.unknown > 0 && w.r.P(w.unknown) {
		for n := w.r.Range(1, 3); n > 0; n-- {
			fields = append(fields, field{pick(w.r, "shared", "debug", "remoteEndpoint", "extra", "x", "flags", "logs"), w.junk(0)})
		}
	}
	if w.shuf {
		shuffle(w.r, fields)
	}
	w.b.WriteByte('{')
	for i, f := range fields {
		if i > 0 {
			w.b.WriteByte(',')
		}
		w.ws()
		w.str(f.k)
		w.ws()
		w.b.WriteByte(':')
		w.ws()
		f.f()
		w.ws()
	}
	w.b.WriteByte('}')
}

// junk produces an arbitrary JSON value for fields no parser should look at.
func (w *jw) junk(depth int) func() {
	return func() {
		k := w.r.N(9)
		if depth > 3 && k >= 7 {
			k = w.r.N(7)
		}
		switch k {
		case 0:
			w.b.WriteString("null")
		case 1:
			w.b.WriteString("true")
		case 2:
			w.b.WriteString("false")
		case 3:
			w.b.WriteString(strconv.Itoa(w.r.N(100000)))
		case 4:
			w.b.WriteString(pick(w.r, "-1", "0", "-0.5", "1.25", "1e5", "1.5e3", "12345678901234567890", "1E5", "2e+3", "1.0E-7"))
		case 5:
			w.str(pick(w.r, "", "x", "é\"\\", "a b c", "{[", "\n\t", "\U0001F600", "]}", longText(w.r.U64(), 300)))
		case 6:
			w.b.WriteString(pick(w.r, "[]", "{}"))
		case 7:
			w.b.WriteByte('[')
			n := w.r.N(4)
			for i := 0; i < n; i++ {
				if i > 0 {
					w.b.WriteByte(',')
				}
				w.ws()
				w.junk(depth + 1)()
			}
			w.ws()
			w.b.WriteByte(']')
		case 8:
			var fs []field
			n := w.r.N(4)
			for i := 0; i < n; i++ {
				fs = append(fs, field{pick(w.r, "id", "name", "tags", "k", "value"), w.junk(depth + 1)})
			}
			save := w.unknown
			w.unknown = 0
			w.obj(fs)
			w.unknown = save
		}
	}
}

func (w *jw) id(v uint64) func() {
	return func() {
		s := strconv.FormatUint(v, 16)
		if w.r.P(60) {
			s = strings.Repeat("0", 16-len(s)) + s
		}
		if w.r.P(20) {
			s = strings.ToUpper(s)
		}
		w.str(s)
	}
}

func (w *jw) text(s string) func() { return func() { w.str(s) } }
func (w *jw) num(v uint64) func() {
	return func() { w.b.WriteString(strconv.FormatUint(v, 10)) }
}

func encodeSpans(format string, spans []LSpan, style uint64, bad string) []byte {
	w := newJW(style)
	if bad == "dup" {
		bad, w.dup = "", true
	}
	badAt := -1
	if bad != "" && bad != "toplevel" {
		badAt = w.r.N(len(spans))
	}
	list := func(n int, f func(i int)) {
		w.b.WriteByte('[')
		for i := 0; i < n; i++ {
			if i > 0 {
				w.b.WriteByte(',')
			}
			w.ws()
			f(i)
			w.ws()
		}
		w.b.WriteByte(']')
	}
	badField := func(idKey string) (string, func()) {
		switch bad {
		case "longid":
			return idKey, w.text("00112233445566778")
		case "hexid":
			return idKey, w.text("12g4")
		case "syntax":
			return "name", func() { w.b.WriteByte('}') }
		case "numname":
			return "name", func() { w.b.WriteString("[1]") }
		case "garbage":
			return "zz", func() { w.b.WriteString("@@") }
		case "tsfrac", "tsneg", "tsstr", "tsbool":
			k := pick(w.r, "timestamp", "duration")
			if format == "jaeger" && k == "timestamp" {
				k = "startTime"
			}
			v := map[string][]string{"tsfrac": {"12.5", "1e5", "1600000000.25", "0.5"}, "tsneg": {"-1", "-1600000000000000"},
				"tsstr": {`"12"`, `""`, `"x"`}, "tsbool": {"true", "{}", "[]", "[12]"}}[bad]
			return k, func() { w.b.WriteString(pick(w.r, v...)) }
		case "idtype":
			return pick(w.r, idKey, map[string]string{"v1": "parentId", "v2": "parentId", "jaeger": "traceID"}[format]), func() {
				w.b.WriteString(pick(w.r, "12", "true", "[]", "{}", `["12"]`))
			}
		case "tagtype":
			switch format {
			case "v2":
				return "tags", func() {
					w.b.WriteString(pick(w.r, `{"a":1}`, `{"a":{}}`, `{"a":["b"]}`, `["a"]`, `"a"`, `[{"a":"b"}]`))
				}
			case "v1":
				return "binaryAnnotations", func() {
					w.b.WriteString(pick(w.r, `[{"key":1,"value":"a"}]`, `{"a":"b"}`, `["a"]`, `"a"`, `[{"key":"a","value":"b"},3]`))
				}
			}
			return "tags", func() {
				w.b.WriteString(pick(w.r, `[{"key":1,"value":"a"}]`, `{"a":"b"}`, `["a"]`, `"a"`, `[{"key":"a","value":"b"},3]`))
			}
		}
		panic("bad " + bad)
	}
	w.ws()
	switch format {
	case "v2":
		mk := func(i int) []field {
			s := &spans[i]
			fs := []field{{"traceId", w.id(s.T)}, {"id", w.id(s.I)}}
			if s.P != 0 {
				fs = append(fs, field{"parentId", w.id(s.P)})
			} else if w.r.P(30) {
				fs = append(fs, field{"parentId", func() { w.b.WriteString("null") }})
			}
			if n := s.name(); n != "" || w.r.P(30) {
				fs = append(fs, field{"name", w.text(n)})
			}
			if s.Svc != "" || w.r.P(30) {
				fs = append(fs, field{"localEndpoint", func() {
					w.obj([]field{{"serviceName", w.text(s.Svc)}, {"ipv4", w.text("10.1.2.3")}, {"port", w.num(8080)}})
				}})
			}
			if s.Kind != "" {
				fs = append(fs, field{"kind", w.text(s.Kind)})
			}
			fs = append(fs, field{"timestamp", w.num(s.TS)})
			if s.D != 0 || w.r.P(30) {
				fs = append(fs, field{"duration", w.num(s.D)})
			}
			if t := s.tags(); len(t) > 0 || w.r.P(20) {
				fs = append(fs, field{"tags", func() {
					var tf []field
					for _, kv := range t {
						kv := kv
						tf = append(tf, field{kv[0], w.text(kv[1])})
					}
					sh, un := w.shuf, w.unknown
					w.shuf, w.unknown = false, 0
					w.obj(tf)
					w.shuf, w.unknown = sh, un
				}})
			}
			if i == badAt {
				k, f := badField("id")
				fs = append(fs, field{k, f})
			}
			return fs
		}
		list(len(spans), func(i int) { w.obj(w.twice(mk(i), mk, len(spans))) })
	case "v1":
		mk := func(i int) []field {
			s := &spans[i]
			fs := []field{{"traceId", w.id(s.T)}, {"id", w.id(s.I)}}
			if s.P != 0 {
				fs = append(fs, field{"parentId", w.id(s.P)})
			} else if w.r.P(30) {
				fs = append(fs, field{"parentId", func() { w.b.WriteString("null") }})
			}
			if n := s.name(); n != "" || w.r.P(30) {
				fs = append(fs, field{"name", w.text(n)})
			}
			ep := func(svc string) field {
				return field{"endpoint", func() {
					w.obj([]field{{"serviceName", w.text(svc)}, {"ipv4", w.text("10.0.0.9")}, {"port", w.num(1)}})
				}}
			}
			if len(s.Ann) > 0 || w.r.P(30) {
				fs = append(fs, field{"annotations", func() {
					list(len(s.Ann), func(j int) {
						a := s.Ann[j]
						af := []field{{"timestamp", w.num(a.TS)}, {"value", w.text(a.V)}}
						if a.Svc != "" {
							af = append(af, ep(a.Svc))
						}
						w.obj(af)
					})
				}})
			}
			if t := s.tags(); len(t) > 0 || w.r.P(30) {
				fs = append(fs, field{"binaryAnnotations", func() {
					seen := false
					list(len(t), func(j int) {
						v := t[j][1]
						af := []field{{"key", w.text(t[j][0])}}
						if v != "" || w.r.P(60) {
							af = append(af, field{"value", func() {
								// the value may be any literal
								if (v == "true" || v == "false" || v == "null" || isNumber(v)) && w.r.P(50) {
									w.b.WriteString(v)
								} else {
									w.str(v)
								}
							}})
						}
						// not every one needs to have an endpoint
						switch {
						case s.Svc == "":
						case w.r.P(70) || j == len(t)-1 && !seen:
							af = append(af, ep(s.Svc))
							seen = true
						case w.r.P(30):
							af = append(af, ep(""))
						}
						w.obj(af)
					})
				}})
			}
			if s.TS != 0 || w.r.P(30) {
				fs = append(fs, field{"timestamp", w.num(s.TS)})
			}
			if s.D != 0 || w.r.P(30) {
				fs = append(fs, field{"duration", w.num(s.D)})
			}
			if i == badAt {
				k, f := badField("id")
				fs = append(fs, field{k, f})
			}
			return fs
		}
		list(len(spans), func(i int) { w.obj(w.twice(mk(i), mk, len(spans))) })
	case "jaeger":
		// spans are spread over data objects; every object has its own processes
		var objs [][]int
		for i := range spans {
			if len(objs) == 0 || w.r.P(20) {
				objs = append(objs, nil)
			}
			objs[len(objs)-1] = append(objs[len(objs)-1], i)
		}
		w.obj([]field{{"data", func() {
			list(len(objs), func(k int) {
				procs := map[string]string{}
				var names []string
				for _, i := range objs[k] {
					if _, ok := procs[spans[i].Svc]; !ok {
						procs[spans[i].Svc] = "p" + itoa(len(names)+1)
						names = append(names, spans[i].Svc)
					}
				}
				w.obj([]field{
					{"spans", func() {
						list(len(objs[k]), func(j int) {
							i := objs[k][j]
							s := &spans[i]
							fs := []field{{"traceID", w.id(s.T)}, {"spanID", w.id(s.I)},
								{"operationName", w.text(s.name())}, {"startTime", w.num(s.TS)}, {"duration", w.num(s.D)},
								{"processID", w.text(procs[s.Svc])}}
							fs = append(fs, field{"references", func() {
								var refs []func()
								if s.P != 0 {
									refs = append(refs, func() {
										w.obj([]field{{"refType", w.text("CHILD_OF")}, {"spanID", w.id(s.P)}, {"traceID", w.id(s.T)}})
									})
								}
								if w.r.P(20) {
									refs = append(refs, func() {
										w.obj([]field{{"refType", w.text("FOLLOWS_FROM")}, {"spanID", w.id(77)}, {"traceID", w.id(s.T)}})
									})
								}
								shuffle(w.r, refs)
								list(len(refs), func(j int) { refs[j]() })
							}})
							fs = append(fs, field{"tags", func() {
								var tf []func()
								tag := func(k, typ string, v func()) {
									tf = append(tf, func() { w.obj([]field{{"key", w.text(k)}, {"type", w.text(typ)}, {"value", v}}) })
								}
								for _, kv := range s.tags() {
									v := kv[1]
									lit := func() { w.b.WriteString(v) }
									switch {
									case (v == "true" || v == "false") && w.r.P(60):
										tag(kv[0], "bool", lit)
									case isNumber(v) && w.r.P(60):
										tag(kv[0], pick(w.r, "int64", "float64"), lit)
									default:
										tag(kv[0], "string", w.text(v))
									}
								}
								if s.Kind != "" {
									tag("span.kind", "string", w.text(s.Kind))
								}
								if w.r.P(30) {
									tag("internal.span.format", "string", w.text("proto"))
								}
								if w.r.P(20) { // no value
									tag("nothing", "string", func() { w.b.WriteString("null") })
								}
								list(len(tf), func(j int) { tf[j]() })
							}})
							if i == badAt {
								k, f := badField("spanID")
								if k == "name" {
									k = "operationName"
								}
								fs = append(fs, field{k, f})
							}
							save := w.unknown
							w.unknown = 0
							w.obj(fs)
							w.unknown = save
						})
					}},
					{"processes", func() {
						var pf []field
						for _, n := range names {
							n := n
							pf = append(pf, field{procs[n], func() { w.obj([]field{{"serviceName", w.text(n)}}) }})
						}
						save := w.unknown
						w.unknown = 0
						w.obj(pf)
						w.unknown = save
					}}})
			})
		}}})
	}
	w.ws()
	if bad == "toplevel" {
		if format == "jaeger" {
			return []byte("[" + w.b.String() + "]")
		}
		return []byte(pick(w.r, `{"spans":`, `{"data":`, `{"":`) + w.b.String() + "}")
	}
	return w.b.Bytes()
}

var jsonNumber = regexp.MustCompile(`^-?(0|[1-9][0-9]*)([.][0-9]+)?([eE][+-]?[0-9]+)?$`)

func isNumber(s string) bool { return len(s) < 40 && jsonNumber.MatchString(s) }

func gzipBytes(b []byte, level int) []byte {
	var out bytes.Buffer
	w, _ := gzip.NewWriterLevel(&out, level)
	w.Write(b)
	w.Close()
	return out.Bytes()
}
