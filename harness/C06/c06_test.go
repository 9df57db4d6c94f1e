package tracecontext

import (
	"fmt"
	"net/http"
	"strings"
	"testing"

	"go.opencensus.io/trace"
)

// parse is the check's own reading of the property: fields split at dashes.
func verifParse(tp string) (sc trace.SpanContext, ok bool) {
	var fs []string
	last := 0
	for i := 0; i <= len(tp); i++ {
		if i == len(tp) || tp[i] == '-' {
			fs = append(fs, tp[last:i])
			last = i + 1
		}
	}
	hex := func(s string) ([]byte, bool) {
		if len(s)%2 != 0 {
			return nil, false
		}
		var b []byte
		for i := 0; i < len(s); i++ {
			k := 0
			switch c := s[i]; {
			case c >= '0' && c <= '9':
				k = int(c - '0')
			case c >= 'a' && c <= 'f':
				k = int(c-'a') + 10
			case c >= 'A' && c <= 'F':
				k = int(c-'A') + 10
			default:
				return nil, false
			}
			if i%2 == 0 {
				b = append(b, byte(k<<4))
			} else {
				b[len(b)-1] |= byte(k)
			}
		}
		return b, true
	}
	if len(fs) < 4 {
		return sc, false
	}
	v, ok0 := hex(fs[0])
	t, ok1 := hex(fs[1])
	s, ok2 := hex(fs[2])
	o, ok3 := hex(fs[3])
	if !ok0 || !ok1 || !ok2 || !ok3 || len(v) != 1 || len(t) != 16 || len(s) != 8 || len(o) < 1 || v[0] == 255 || v[0] == 0 && len(fs) != 4 {
		return sc, false
	}
	copy(sc.TraceID[:], t)
	copy(sc.SpanID[:], s)
	sc.TraceOptions = trace.TraceOptions(o[0])
	if sc.TraceID == (trace.TraceID{}) || sc.SpanID == (trace.SpanID{}) {
		return trace.SpanContext{}, false
	}
	return sc, true
}

func TestVerifC06(t *testing.T) {
	h := newVH(t, "C06")
	defer h.done()
	f := &HTTPFormat{}
	digits := "0123456789abcdef"
	field := func(n int) string {
		b := make([]byte, n)
		for i := range b {
			b[i] = digits[h.Intn(16)]
		}
		switch h.Intn(24) {
		case 0:
			for i := range b {
				b[i] = '0'
			}
		case 1:
			for i := range b {
				b[i] = '0'
			}
			if n > 0 {
				b[h.Intn(n)] = digits[1+h.Intn(15)]
			}
		case 2:
			for i := range b {
				b[i] = 'f'
			}
		case 3:
			return strings.ToUpper(string(b))
		case 4:
			if n > 0 {
				b[h.Intn(n)] = "gG-/@`:\xc3\x00 "[h.Intn(10)]
			}
		case 5:
			return string(b) + digits[:1+h.Intn(3)]
		case 6:
			return string(b[:n-h.Intn(n+1)])
		}
		return string(b)
	}
	for h.more() {
		v := "00"
		switch h.Intn(4) {
		case 0:
			v = field(2)
		case 1:
			v = []string{"ff", "FF", "fe", "01", "0", "000", ""}[h.Intn(7)]
		}
		tp := v + "-" + field(32) + "-" + field(16) + "-" + field(2)
		switch h.Intn(12) {
		case 0:
			tp += "-" + field(h.Intn(5))
		case 1:
			tp += "-"
		case 2:
			tp = "-" + tp
		case 3:
			tp = tp[:h.Intn(len(tp)+1)]
		case 4:
			b := []byte(tp)
			b[h.Intn(len(b))] = byte(h.Intn(256))
			tp = string(b)
		case 5:
			tp += field(2)
		case 6:
			if len(h.strs) > 0 {
				tp = h.strs[h.Intn(len(h.strs))]
			}
		}
		h.count(tp)
		h.guard(fmt.Sprintf("traceparent %q", tp), func() {
			want, wok := verifParse(tp)
			sc, ok := f.SpanContextFromHeaders(tp, "")
			if ok != wok || ok && sc != want {
				h.cex("traceparent %q: extracted %+v %v, want %+v %v", tp, sc, ok, want, wok)
			}
			req, _ := http.NewRequest("GET", "http://example.com", nil)
			req.Header["Traceparent"] = []string{tp}
			sc, ok = f.SpanContextFromRequest(req)
			if ok != wok || ok && sc != want {
				h.cex("request with traceparent %q: extracted %+v %v, want %+v %v", tp, sc, ok, want, wok)
			}
			if _, ok = f.SpanContextFromHeaders(tp, h.str("abk=,;: ", 20)); ok != wok {
				h.cex("traceparent %q with a tracestate: accepted %v", tp, ok)
			}
		})
		if h.failed {
			return
		}
		var sc trace.SpanContext
		h.Read(sc.TraceID[:])
		h.Read(sc.SpanID[:])
		switch h.Intn(4) {
		case 0:
			sc.TraceID = trace.TraceID{15: 1 + byte(h.Intn(255))}
		case 1:
			sc.SpanID = trace.SpanID{}
			sc.SpanID[h.Intn(8)] = byte(1 + h.Intn(255))
		}
		if sc.SpanID == (trace.SpanID{}) || sc.TraceID == (trace.TraceID{}) {
			continue
		}
		sc.TraceOptions = trace.TraceOptions(h.Intn(256))
		if h.Intn(4) == 0 {
			sc.TraceOptions = trace.TraceOptions(h.Uint32())
		}
		h.guard(fmt.Sprintf("injecting %+v", sc), func() {
			req, _ := http.NewRequest("GET", "http://example.com", nil)
			if h.Intn(2) == 0 {
				req.Header["Traceparent"] = []string{"x", "y"}
			}
			f.SpanContextToRequest(sc, req)
			tp := req.Header["Traceparent"]
			want := fmt.Sprintf("00-%032x-%016x-%02x", sc.TraceID[:], sc.SpanID[:], byte(sc.TraceOptions))
			if len(tp) != 1 || tp[0] != want {
				h.cex("injecting %+v wrote %q, want %q", sc, tp, want)
			}
			got, ok := f.SpanContextFromRequest(req)
			if !ok || got.TraceID != sc.TraceID || got.SpanID != sc.SpanID || got.TraceOptions != sc.TraceOptions&255 {
				h.cex("injecting %+v and extracting gives %+v %v", sc, got, ok)
			}
			if a, _ := f.SpanContextToHeaders(sc); a != want {
				h.cex("injecting %+v gave %q, want %q", sc, a, want)
			}
		})
	}
}
