package propagation_test

import (
	"bytes"
	"fmt"
	"testing"

	"go.opencensus.io/trace"
	"go.opencensus.io/trace/propagation"
	"go.opencensus.io/trace/tracestate"
)

func refFromBinary(b []byte) (sc trace.SpanContext, ok bool) {
	if len(b) < 18 || b[0] != 0 || b[1] != 0 {
		return sc, false
	}
	copy(sc.TraceID[:], b[2:18])
	b = b[18:]
	if len(b) >= 9 && b[0] == 1 {
		copy(sc.SpanID[:], b[1:9])
		b = b[9:]
	}
	if len(b) >= 2 && b[0] == 2 {
		sc.TraceOptions = trace.TraceOptions(b[1])
	}
	return sc, true
}

func TestVerifC04(t *testing.T) {
	h := newVH(t, "C04")
	defer h.done()
	ts, _ := tracestate.New(nil, tracestate.Entry{Key: "a", Value: "b"})
	for h.more() {
		var sc trace.SpanContext
		copy(sc.TraceID[:], h.bytes(16))
		copy(sc.SpanID[:], h.bytes(8))
		sc.TraceOptions = trace.TraceOptions(uint32(h.int64v()))
		switch h.Intn(8) {
		case 0:
			sc.TraceID = trace.TraceID{}
		case 1:
			sc.SpanID = trace.SpanID{}
		case 2:
			sc.TraceOptions = 0
		case 3:
			sc.Tracestate = ts
		case 4:
			sc = trace.SpanContext{TraceOptions: sc.TraceOptions}
		case 5:
			sc = trace.SpanContext{SpanID: sc.SpanID}
		}
		h.count(sc)
		h.guard(fmt.Sprintf("Binary(%+v)", sc), func() {
			b := propagation.Binary(sc)
			if sc == (trace.SpanContext{}) {
				if b != nil {
					h.cex("Binary(zero) = %v, want nil", b)
				}
				return
			}
			want := append([]byte{0, 0}, sc.TraceID[:]...)
			want = append(append(want, 1), sc.SpanID[:]...)
			want = append(want, 2, byte(sc.TraceOptions))
			if !bytes.Equal(b, want) {
				h.cex("Binary(%+v) = %v, want %v", sc, b, want)
			}
			got, ok := propagation.FromBinary(b)
			if !ok || got.TraceID != sc.TraceID || got.SpanID != sc.SpanID || got.TraceOptions != sc.TraceOptions&0xff {
				h.cex("FromBinary(Binary(%+v)) = %+v, %v", sc, got, ok)
			}
		})
		in := h.bytes(h.small(40))
		if h.Intn(2) == 0 {
			in = propagation.Binary(sc)
			if h.Intn(2) == 0 && len(in) > 0 {
				in = in[:h.small(len(in)+1)]
			}
			for k := h.Intn(3); k > 0 && len(in) > 0; k-- {
				in[h.Intn(len(in))] = byte(h.int64v())
			}
			if h.Intn(4) == 0 {
				in = append(in, h.bytes(h.small(5))...)
			}
		}
		h.count(in)
		h.guard(fmt.Sprintf("FromBinary(%v)", in), func() {
			cp := append([]byte{}, in...)
			got, ok := propagation.FromBinary(in)
			w, wok := refFromBinary(cp)
			if got != w || ok != wok || !bytes.Equal(in, cp) {
				h.cex("FromBinary(%v) = %+v,%v want %+v,%v", in, got, ok, w, wok)
			}
		})
	}
}
