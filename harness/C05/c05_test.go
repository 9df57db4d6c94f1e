package b3

import (
	"fmt"
	"net/http"
	"strings"
	"testing"

	"go.opencensus.io/trace"
)

func TestVerifC05(t *testing.T) {
	h := newVH(t, "C05")
	defer h.done()
	hexval := func(s string) ([]byte, bool) {
		if len(s)%2 != 0 {
			return nil, false
		}
		var b []byte
		for i := 0; i < len(s); i += 2 {
			x := 0
			for _, c := range []byte(s[i : i+2]) {
				k := strings.IndexByte("0123456789abcdef", c|0x20)
				if c >= '0' && c <= '9' {
					k = int(c - '0')
				} else if k < 10 || !(c >= 'A' && c <= 'F' || c >= 'a' && c <= 'f') {
					return nil, false
				}
				x = x*16 + k
			}
			b = append(b, byte(x))
		}
		return b, true
	}
	text := func(max int) string {
		n := h.Intn(max*2 + 6)
		if h.Intn(3) == 0 {
			n = max * 2
		}
		if h.Intn(3) > 0 {
			n &^= 1
		}
		al := "0123456789abcdefABCDEF"
		if h.Intn(5) == 0 {
			al += "gG-/@`:\xc3\x00 "
		}
		b := make([]byte, n)
		for i := range b {
			b[i] = al[h.Intn(len(al))]
		}
		if h.Intn(6) == 0 {
			for i := range b {
				b[i] = '0'
			}
		}
		return string(b)
	}
	flags := append([]string{"true", "1", "0", "false", "", "TRUE", "True", "t", "11", " 1", "1 ", "01", "d", "2", "yes"}, h.strs...)
	f := &HTTPFormat{}
	for h.more() {
		req, _ := http.NewRequest("GET", "http://example.com", nil)
		var sc trace.SpanContext
		tid, sid, fl := text(16), text(8), flags[h.Intn(len(flags))]
		in := fmt.Sprintf("trace %q span %q sampled %q", tid, sid, fl)
		h.count(in)
		req.Header.Set(TraceIDHeader, tid)
		req.Header.Set(SpanIDHeader, sid)
		req.Header.Set(SampledHeader, fl)
		switch h.Intn(12) {
		case 0:
			req.Header.Del(TraceIDHeader)
			tid = ""
		case 1:
			req.Header.Del(SpanIDHeader)
			sid = ""
		case 2:
			req.Header.Del(SampledHeader)
			fl = ""
		}
		h.guard(in, func() {
			tb, tok := hexval(tid)
			sb, sok := hexval(sid)
			want := tok && sok && tid != "" && sid != "" && len(tb) <= 16 && len(sb) <= 8
			var wsc trace.SpanContext
			if want {
				copy(wsc.TraceID[16-len(tb):], tb)
				copy(wsc.SpanID[8-len(sb):], sb)
				if fl == "true" || fl == "1" {
					wsc.TraceOptions = 1
				}
			}
			var ok bool
			sc, ok = f.SpanContextFromRequest(req)
			if ok != want || sc != wsc {
				h.cex("%s: extracted %+v %v, want %+v %v", in, sc, ok, wsc, want)
			}
			if gt, gok := ParseTraceID(tid); gok != (tok && tid != "" && len(tb) <= 16) || want && gt != wsc.TraceID {
				h.cex("ParseTraceID(%q) = %v %v", tid, gt, gok)
			}
			if gs, gok := ParseSpanID(sid); gok != (sok && sid != "" && len(sb) <= 8) || want && gs != wsc.SpanID {
				h.cex("ParseSpanID(%q) = %v %v", sid, gs, gok)
			}
			if o, gok := ParseSampled(fl); gok != (fl == "true" || fl == "1") || (o == 1) != gok || o > 1 {
				h.cex("ParseSampled(%q) = %v %v", fl, o, gok)
			}
		})
		if h.failed {
			return
		}
		h.Read(sc.TraceID[:])
		h.Read(sc.SpanID[:])
		switch h.Intn(6) {
		case 0:
			sc.TraceID = trace.TraceID{15: byte(h.Intn(256))}
		case 1:
			sc.SpanID = trace.SpanID{0: byte(h.Intn(256))}
		}
		sc.TraceOptions = trace.TraceOptions(h.Intn(256))
		if h.Intn(2) == 0 {
			req.Header = http.Header{"X-Other": {"kept"}, "X-B3-Sampled": {"7", "8"}}
		}
		h.guard(fmt.Sprintf("injecting %+v", sc), func() {
			f.SpanContextToRequest(sc, req)
			fl := "0"
			if sc.TraceOptions&1 == 1 {
				fl = "1"
			}
			if a, b, c := req.Header.Get(TraceIDHeader), req.Header.Get(SpanIDHeader), req.Header.Get(SampledHeader); a != fmt.Sprintf("%x", sc.TraceID[:]) || b != fmt.Sprintf("%x", sc.SpanID[:]) || c != fl {
				h.cex("injecting %+v wrote %q %q %q", sc, a, b, c)
			}
			got, ok := f.SpanContextFromRequest(req)
			if !ok || got.TraceID != sc.TraceID || got.SpanID != sc.SpanID || got.IsSampled() != (sc.TraceOptions&1 == 1) {
				h.cex("injecting %+v and extracting gives %+v %v", sc, got, ok)
			}
		})
	}
}
