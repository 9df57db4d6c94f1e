package propagation

import (
	"encoding/hex"
	"fmt"
	"math/big"
	"net/http"
	"strings"
	"testing"

	"go.opencensus.io/trace"
)

func verifNum(s string) (uint64, bool) {
	if s == "" {
		return 0, false
	}
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return 0, false
		}
	}
	n, ok := new(big.Int).SetString(s, 10)
	if !ok || !n.IsUint64() {
		return 0, false
	}
	return n.Uint64(), true
}

// verifParse is the check's own reading of the property.
func verifParse(v string) (sc trace.SpanContext, ok bool) {
	if v == "" || len(v) > 200 {
		return sc, false
	}
	p := strings.SplitN(v, "/", 2)
	if len(p) != 2 {
		return sc, false
	}
	id, err := hex.DecodeString(p[0])
	if err != nil {
		return sc, false
	}
	q := strings.SplitN(p[1], ";", 2)
	n, nok := verifNum(q[0])
	if !nok {
		return sc, false
	}
	var o uint64
	if len(q) == 2 && len(q[1]) >= 2 && q[1][:2] == "o=" {
		if o, nok = verifNum(q[1][2:]); !nok {
			return sc, false
		}
	}
	copy(sc.TraceID[:], id)
	for i := range sc.SpanID {
		sc.SpanID[i] = byte(n >> uint(56-8*i))
	}
	sc.TraceOptions = trace.TraceOptions(uint32(o))
	return sc, true
}

func TestVerifC08(t *testing.T) {
	h := newVH(t, "C08")
	defer h.done()
	f := &HTTPFormat{}
	num := func() string {
		switch h.Intn(12) {
		case 0:
			return "18446744073709551615"
		case 1:
			return "18446744073709551616"
		case 2:
			return []string{"", "-1", "+1", "0x1", "1_0", " 1", "1 ", "9223372036854775808", "00000000000000000000000000000000000000001"}[h.Intn(9)]
		case 3:
			return h.str("0123456789", 24)
		case 4:
			return fmt.Sprint(h.Intn(5))
		case 5:
			return h.str("0123456789abc;/=o", 6)
		}
		return fmt.Sprint(h.Uint64() >> uint(h.Intn(64)))
	}
	for h.more() {
		id := make([]byte, 16)
		h.Read(id)
		hx := fmt.Sprintf("%x", id)
		switch h.Intn(10) {
		case 0:
			hx = hx[:h.Intn(33)]
		case 1:
			hx += hx[:h.Intn(33)]
		case 2:
			hx = strings.ToUpper(hx)
		case 3:
			hx = h.str("0123456789abcdefABCDEFg", 34)
		case 4:
			hx = hx + hx + hx + hx + hx
		}
		v := hx + "/" + num()
		switch h.Intn(6) {
		case 0:
		case 1:
			v += ";" + h.str("o=;0123456789", 5)
		case 2:
			v += "/" + num()
		case 3:
			v = v[:h.Intn(len(v)+1)]
		default:
			v += ";o=" + num()
		}
		if h.Intn(12) == 0 && len(v) > 0 {
			b := []byte(v)
			b[h.Intn(len(b))] = byte(h.Intn(256))
			v = string(b)
		}
		if h.Intn(20) == 0 {
			for len(v) < 196+h.Intn(8) {
				v = "00" + v
			}
		}
		if len(h.strs) > 0 && h.Intn(20) == 0 {
			v = h.strs[h.Intn(len(h.strs))]
		}
		h.count(v)
		h.guard(fmt.Sprintf("header %q", v), func() {
			want, wok := verifParse(v)
			req, _ := http.NewRequest("GET", "http://example.com", nil)
			req.Header["X-Cloud-Trace-Context"] = []string{v}
			sc, ok := f.SpanContextFromRequest(req)
			if ok != wok || ok && sc != want {
				h.cex("header %q: extracted %+v %v, want %+v %v", v, sc, ok, want, wok)
			}
		})
		if h.failed {
			return
		}
		var sc trace.SpanContext
		h.Read(sc.TraceID[:])
		h.Read(sc.SpanID[:])
		if h.Intn(4) == 0 {
			sc.SpanID = trace.SpanID{7: byte(h.Intn(256))}
		}
		if h.Intn(4) == 0 {
			sc.TraceID = trace.TraceID{15: byte(h.Intn(256))}
		}
		sc.TraceOptions = trace.TraceOptions(h.Intn(3))
		if h.Intn(3) == 0 {
			sc.TraceOptions = trace.TraceOptions(h.Uint32())
		}
		h.guard(fmt.Sprintf("injecting %+v", sc), func() {
			req, _ := http.NewRequest("GET", "http://example.com", nil)
			if h.Intn(2) == 0 {
				req.Header.Set("X-Cloud-Trace-Context", "old")
				req.Header.Add("X-Cloud-Trace-Context", "older")
			}
			req.Header.Set("X-Other", "kept")
			f.SpanContextToRequest(sc, req)
			got, ok := f.SpanContextFromRequest(req)
			if !ok || got != sc {
				h.cex("injecting %+v and extracting gives %+v %v (header %q)", sc, got, ok, req.Header["X-Cloud-Trace-Context"])
			}
			if req.Header.Get("X-Other") != "kept" {
				h.cex("injecting changed another header")
			}
		})
	}
}
