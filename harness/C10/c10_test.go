package trace

import (
	"context"
	"encoding/binary"
	"fmt"
	"math"
	"testing"

	"go.opencensus.io/trace/tracestate"
)

func TestVerifC10(t *testing.T) {
	h := newVH(t, "C10")
	defer h.done()
	ts, err := tracestate.New(nil, tracestate.Entry{Key: "k", Value: "v"})
	if err != nil {
		t.Fatal(err)
	}
	type call struct {
		id int
		p  SamplingParameters
		r  bool
	}
	var calls []call
	mk := func(id int) Sampler {
		return func(p SamplingParameters) SamplingDecision {
			r := h.Intn(2) == 0
			calls = append(calls, call{id, p, r})
			return SamplingDecision{Sample: r}
		}
	}
	rsc := func() SpanContext {
		var sc SpanContext
		if h.Intn(6) == 0 {
			return sc
		}
		h.Read(sc.TraceID[:])
		h.Read(sc.SpanID[:])
		sc.TraceOptions = TraceOptions(h.Intn(256))
		if h.Intn(2) == 0 {
			sc.Tracestate = ts
		}
		switch h.Intn(8) {
		case 0:
			sc.TraceID = TraceID{}
		case 1:
			sc.SpanID = SpanID{}
		case 2:
			sc = SpanContext{TraceOptions: 1}
		}
		return sc
	}
	seq := h.part(2)
	for seq.more() && !h.failed {
		h.guard("span start", func() {
			ApplyConfig(Config{DefaultSampler: mk(1)})
			ctx, log := context.Background(), ""
			var psc SpanContext
			for d := 0; d < 1+h.Intn(4); d++ {
				calls = nil
				var o []StartOption
				opt := 0
				for h.Intn(2) == 0 {
					if h.Intn(3) == 0 {
						o = append(o, WithSpanKind(1))
						continue
					}
					opt = 2 + h.Intn(2)
					o = append(o, WithSampler(mk(opt)))
				}
				remote := h.Intn(2) == 0
				name := fmt.Sprint("n", h.Intn(3))
				var sp *Span
				if remote {
					psc = rsc()
					ctx, sp = StartSpanWithRemoteParent(ctx, name, psc, o...)
				} else {
					ctx, sp = StartSpan(ctx, name, o...)
				}
				sc := sp.SpanContext()
				log += fmt.Sprintf(" start(remote=%v parent=%+v sampler=%d)=%+v", remote, psc, opt, sc)
				h.count(log)
				if sc.TraceOptions&^1 != psc.TraceOptions&^1 {
					h.cex("%s: option bits %08b from parent %08b", log, sc.TraceOptions, psc.TraceOptions)
					return
				}
				ask := remote || psc == SpanContext{} || opt != 0
				if !ask {
					if len(calls) != 0 {
						h.cex("%s: a sampler was consulted for a local child", log)
						return
					}
					if sc.TraceOptions != psc.TraceOptions {
						h.cex("%s: a local child does not keep the parent's bit", log)
						return
					}
				} else {
					want := opt
					if want == 0 {
						want = 1
					}
					if len(calls) == 0 || calls[len(calls)-1].id != want {
						h.cex("%s: consulted %v, want sampler %d", log, calls, want)
						return
					}
					c := calls[len(calls)-1]
					if sc.IsSampled() != c.r {
						h.cex("%s: sampler %d decided %v", log, c.id, c.r)
						return
					}
					if c.p != (SamplingParameters{ParentContext: psc, TraceID: sc.TraceID, SpanID: sc.SpanID, Name: name, HasRemoteParent: remote}) {
						h.cex("%s: sampler was told %+v", log, c.p)
						return
					}
				}
				psc = sc
			}
		})
	}
	for h.more() {
		f := h.Rand.Float64()
		switch h.Intn(8) {
		case 0:
			f = h.float()
		case 1:
			f = 1
		case 2:
			f = 0
		case 3:
			f = math.NaN()
		case 4:
			f = math.Ldexp(1, -h.Intn(70))
		case 5:
			f = math.Nextafter(1, 0)
		}
		s := ProbabilitySampler(f)
		for i := 0; i < 8; i++ {
			p := SamplingParameters{ParentContext: rsc(), HasRemoteParent: h.Intn(2) == 0, Name: "x"}
			h.Read(p.TraceID[:])
			h.Read(p.SpanID[:])
			b := uint64(0)
			if f > 0 && f < 1 {
				b = uint64(f * (1 << 63))
			}
			switch h.Intn(6) {
			case 0:
				binary.BigEndian.PutUint64(p.TraceID[:], math.MaxUint64)
			case 1:
				binary.BigEndian.PutUint64(p.TraceID[:], 0)
			case 2:
				binary.BigEndian.PutUint64(p.TraceID[:], (b<<1)+uint64(h.Intn(5))-2)
			}
			x := binary.BigEndian.Uint64(p.TraceID[:]) >> 1
			want := p.ParentContext.TraceOptions&1 == 1 || f >= 1 || f > 0 && x < b
			h.count(f, p)
			if got := s(p).Sample; got != want {
				h.cex("ProbabilitySampler(%v) on trace %v with parent options %d: %v, want %v", f, p.TraceID, p.ParentContext.TraceOptions, got, want)
				return
			}
			q := p
			h.Read(q.SpanID[:])
			h.Read(q.TraceID[8:])
			q.Name, q.HasRemoteParent = "y", !p.HasRemoteParent
			if got := s(q).Sample; got != want {
				h.cex("ProbabilitySampler(%v): the decision depends on more than the first eight trace bytes: %+v %v, %+v %v", f, p, want, q, got)
				return
			}
		}
		if !AlwaysSample()(SamplingParameters{}).Sample || NeverSample()(SamplingParameters{ParentContext: SpanContext{TraceOptions: 1}}).Sample {
			h.cex("AlwaysSample or NeverSample does not")
		}
	}
}
