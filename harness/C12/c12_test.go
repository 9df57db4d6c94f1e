package trace

import (
	"context"
	"fmt"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"go.opencensus.io/internal"
)

type c12exp struct {
	mu sync.Mutex
	m  map[SpanID][]*SpanData
}

func (e *c12exp) ExportSpan(sd *SpanData) {
	e.mu.Lock()
	e.m[sd.SpanContext.SpanID] = append(e.m[sd.SpanContext.SpanID], sd)
	e.mu.Unlock()
}

type c12val struct {
	id int
	p  *c12exp
}

func (e c12val) ExportSpan(sd *SpanData) { e.p.ExportSpan(sd) }

func TestVerifC12(t *testing.T) {
	h := newVH(t, "C12")
	defer h.done()
	defer func(b bool) { internal.LocalSpanStoreEnabled = b }(internal.LocalSpanStoreEnabled)
	var exps []Exporter
	var recs []*c12exp
	for i := 0; i < 4; i++ {
		e := &c12exp{m: map[SpanID][]*SpanData{}}
		recs = append(recs, e)
		if i%2 == 0 {
			exps = append(exps, e)
		} else {
			exps = append(exps, c12val{i, e})
		}
	}
	defer func() {
		for _, e := range exps {
			UnregisterExporter(e)
		}
	}()
	reset := func() {
		for _, r := range recs {
			r.m = map[SpanID][]*SpanData{}
		}
	}
	ops := func(s *Span) {
		s.SetName("changed")
		s.SetStatus(Status{Code: 3, Message: "x"})
		s.AddAttributes(StringAttribute("a", "b"), BoolAttribute("c", true))
		s.Annotate([]Attribute{Int64Attribute("i", 1)}, "m")
		s.Annotatef(nil, "%d", 1)
		s.AddMessageSendEvent(1, 2, 3)
		s.AddMessageReceiveEvent(1, 2, 3)
		s.AddLink(Link{})
		_ = s.String()
		s.IsRecordingEvents()
		s.SpanContext()
	}
	for h.more() {
		h.guard("span endings", func() {
			reset()
			internal.LocalSpanStoreEnabled = h.Intn(3) == 0
			on := map[int]bool{}
			for i, e := range exps {
				UnregisterExporter(e)
				if h.Intn(2) == 0 {
					RegisterExporter(e)
					on[i] = true
				}
			}
			log := fmt.Sprintf("exporters %v store=%v:", on, internal.LocalSpanStoreEnabled)
			type live struct {
				s     *Span
				begin time.Time
				want  map[int]bool
				ended bool
				name  string
				code  int32
			}
			var ss []*live
			for i, n := 0, 2+h.Intn(10); i < n; i++ {
				switch k := h.Intn(7); {
				case k < 2 || len(ss) == 0:
					sm := AlwaysSample()
					if h.Intn(3) == 0 {
						sm = NeverSample()
					}
					b := time.Now()
					_, s := StartSpan(context.Background(), fmt.Sprint("c12-", i), WithSampler(sm))
					ss = append(ss, &live{s: s, begin: b, name: fmt.Sprint("c12-", i)})
					log += fmt.Sprintf(" start#%d(sampled=%v)", len(ss)-1, s.SpanContext().IsSampled())
				case k == 2:
					j := h.Intn(len(exps))
					if on[j] {
						UnregisterExporter(exps[j])
						delete(on, j)
					} else {
						RegisterExporter(exps[j])
						on[j] = true
					}
					log += fmt.Sprint(" toggle", j)
				case k == 3:
					l := ss[h.Intn(len(ss))]
					if !l.ended {
						l.name, l.code = fmt.Sprint("renamed", i), int32(i)
						l.s.SetName(l.name)
						l.s.SetStatus(Status{Code: l.code})
					}
				default:
					j := h.Intn(len(ss))
					l := ss[j]
					par := 1 + h.Intn(3)
					log += fmt.Sprintf(" end#%d x%d", j, par)
					if par == 1 {
						l.s.End()
					} else {
						var wg sync.WaitGroup
						start := make(chan bool)
						for g := 0; g < par; g++ {
							wg.Add(1)
							go func() { defer wg.Done(); <-start; l.s.End() }()
						}
						close(start)
						wg.Wait()
					}
					if !l.ended {
						l.ended = true
						l.want = map[int]bool{}
						if l.s.SpanContext().IsSampled() {
							for x := range on {
								l.want[x] = true
							}
						}
					}
				}
			}
			h.count(log)
			for i, l := range ss {
				for j, r := range recs {
					got := r.m[l.s.SpanContext().SpanID]
					n := 0
					if l.want[j] {
						n = 1
					}
					if len(got) != n {
						h.cex("%s: exporter %d received span #%d %d times, want %d", log, j, i, len(got), n)
						return
					}
					if n == 1 {
						sd := got[0]
						if sd.EndTime.Before(sd.StartTime) || sd.StartTime.Before(l.begin) || sd.EndTime.After(time.Now()) {
							h.cex("%s: span #%d runs from %v to %v", log, i, sd.StartTime, sd.EndTime)
							return
						}
						if sd.Name != l.name || sd.Status.Code != l.code || sd.SpanContext != l.s.SpanContext() {
							h.cex("%s: span #%d is delivered as %q code %d, want %q code %d", log, i, sd.Name, sd.Status.Code, l.name, l.code)
							return
						}
					}
				}
			}
			if h.failed {
				return
			}
			// spans that record nothing
			internal.LocalSpanStoreEnabled = false
			reset()
			_, ns := StartSpan(context.Background(), "never", WithSampler(NeverSample()))
			sc := ns.SpanContext()
			sp, _ := ns.internal.(*span)
			for name, s := range map[string]*Span{"a nil span": nil, "an unsampled span": ns, "the span of an empty context": FromContext(context.Background())} {
				func() {
					defer func() {
						if r := recover(); r != nil {
							h.cex("an operation on %s panics: %v", name, r)
						}
					}()
					ops(s)
					s.End()
					s.End()
				}()
			}
			func() {
				defer func() {
					if r := recover(); r != nil {
						h.cex("an operation on a nil internal span panics: %v", r)
					}
				}()
				var n *span
				for _, s := range []*span{n, sp} {
					if s == sp && sp == nil {
						continue
					}
					s.SetName("a")
					s.SetStatus(Status{})
					s.AddAttributes(StringAttribute("a", "b"))
					s.Annotate(nil, "m")
					s.Annotatef([]Attribute{BoolAttribute("a", true)}, "%d", 1)
					s.AddMessageSendEvent(1, 2, 3)
					s.AddMessageReceiveEvent(1, 2, 3)
					s.AddLink(Link{})
					s.addChild()
					s.End()
					_ = s.String()
				}
			}()
			if ns.SpanContext() != sc || ns.IsRecordingEvents() {
				h.cex("an unsampled span changed from %v to %v recording=%v", sc, ns.SpanContext(), ns.IsRecordingEvents())
			}
			for j, r := range recs {
				if len(r.m) > 0 {
					h.cex("exporter %d received an unsampled span", j)
				}
			}
		})
		// many goroutines racing to end one span
		if h.Intn(4) == 0 && !h.failed {
			reset()
			RegisterExporter(exps[0])
			_, s := StartSpan(context.Background(), "race", WithSampler(AlwaysSample()))
			var wg sync.WaitGroup
			var gate int32
			for g := 0; g < 8; g++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for atomic.LoadInt32(&gate) == 0 {
					}
					s.End()
				}()
			}
			atomic.StoreInt32(&gate, 1)
			wg.Wait()
			if n := len(recs[0].m[s.SpanContext().SpanID]); n != 1 {
				h.cex("eight goroutines ended one sampled span: exported %d times", n)
			}
		}
	}
}
