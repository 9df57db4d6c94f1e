package trace

import (
	"context"
	"encoding/binary"
	"fmt"
	"sync"
	"testing"
	"time"

	"go.opencensus.io/trace/tracestate"
)

type c09gen struct {
	mu sync.Mutex
	n  uint64
}

func (g *c09gen) next() uint64 {
	g.mu.Lock()
	defer g.mu.Unlock()
	g.n++
	return g.n
}
func (g *c09gen) NewTraceID() (t [16]byte) {
	binary.BigEndian.PutUint64(t[4:], g.next())
	t[0] = 0xaa
	return
}
func (g *c09gen) NewSpanID() (s [8]byte) {
	binary.BigEndian.PutUint64(s[:], g.next())
	s[0] = 0xbb
	return
}

type c09exp struct {
	mu sync.Mutex
	m  map[SpanID][]*SpanData
}

func (e *c09exp) ExportSpan(sd *SpanData) {
	e.mu.Lock()
	e.m[sd.SpanID] = append(e.m[sd.SpanID], sd)
	e.mu.Unlock()
}

type c09want struct {
	sp       *Span
	ctx      context.Context
	sc       SpanContext
	parent   SpanID
	name     string
	kind     int
	remote   bool
	children int
	ended    bool
}

func TestVerifC09(t *testing.T) {
	h := newVH(t, "C09")
	defer h.done()
	exp := &c09exp{m: map[SpanID][]*SpanData{}}
	RegisterExporter(exp)
	defer UnregisterExporter(exp)
	var states []*tracestate.Tracestate
	for i := 0; i < 3; i++ {
		ts, err := tracestate.New(nil, tracestate.Entry{Key: "k" + fmt.Sprint(i), Value: "v"})
		if err != nil {
			t.Fatal(err)
		}
		states = append(states, ts)
	}
	states = append(states, nil)
	seq := h.part(2)
	for seq.more() && !h.failed {
		gen := &c09gen{n: uint64(h.Intn(1000))}
		ApplyConfig(Config{IDGenerator: gen, DefaultSampler: AlwaysSample()})
		exp.m = map[SpanID][]*SpanData{}
		h.guard("span history", func() {
			var all []*c09want
			log := ""
			for i, n := 0, 1+h.Intn(8); i < n; i++ {
				var o []StartOption
				w := &c09want{name: fmt.Sprint("s", h.Intn(5)), remote: h.Intn(3) == 0}
				sampled := h.Intn(4) > 0
				for h.Intn(2) == 0 {
					w.kind = h.Intn(3)
					o = append(o, WithSpanKind(w.kind))
				}
				if h.Intn(2) == 0 || !sampled {
					if sampled {
						o = append(o, WithSampler(AlwaysSample()))
					} else {
						o = append(o, WithSampler(NeverSample()))
					}
				}
				ctx := context.Background()
				var pw *c09want
				if len(all) > 0 && h.Intn(4) > 0 {
					pw = all[h.Intn(len(all))]
					ctx = pw.ctx
				}
				has := pw != nil
				var psc SpanContext
				if w.remote {
					has = false
					if h.Intn(4) > 0 {
						h.Read(psc.TraceID[:])
						psc.SpanID = SpanID{1, byte(h.Intn(256)), 0, 0, 0, 0, 0, byte(h.Intn(3))}
						psc.TraceOptions = TraceOptions(h.Intn(256))
						psc.Tracestate = states[h.Intn(len(states))]
						switch h.Intn(6) {
						case 0:
							psc.TraceID = TraceID{}
						case 1:
							psc.SpanID = SpanID{}
						}
						has = psc != SpanContext{}
					}
				} else if has {
					psc = pw.sc
				}
				before := gen.n
				if w.remote {
					w.ctx, w.sp = StartSpanWithRemoteParent(ctx, w.name, psc, o...)
					log += fmt.Sprintf(" start(%s kind=%d remote parent=%v)", w.name, w.kind, psc)
				} else {
					w.ctx, w.sp = StartSpan(ctx, w.name, o...)
					log += fmt.Sprintf(" start(%s kind=%d parent=%v)", w.name, w.kind, psc.SpanID)
				}
				h.count(log)
				w.sc = w.sp.SpanContext()
				var tid TraceID
				var sid SpanID
				g2 := &c09gen{n: before}
				if has {
					tid = psc.TraceID
				} else {
					tid = g2.NewTraceID()
				}
				sid = g2.NewSpanID()
				if w.sc.TraceID != tid || w.sc.SpanID != sid {
					h.cex("%s: trace %v span %v, want trace %v span %v", log, w.sc.TraceID, w.sc.SpanID, tid, sid)
					return
				}
				if w.sc.Tracestate != psc.Tracestate {
					h.cex("%s: tracestate %v, want the parent's %v", log, w.sc.Tracestate, psc.Tracestate)
					return
				}
				if FromContext(w.ctx) != w.sp {
					h.cex("%s: the returned context does not carry the span", log)
					return
				}
				if has {
					w.parent = psc.SpanID
				}
				if pw != nil && !w.remote && !pw.ended {
					pw.children++
				}
				all = append(all, w)
				if h.Intn(6) == 0 {
					e := all[h.Intn(len(all))]
					e.sp.End()
					e.ended = true
				}
			}
			for _, w := range all {
				w.sp.End()
			}
			for i, w := range all {
				got := exp.m[w.sc.SpanID]
				if !w.sc.IsSampled() {
					continue
				}
				if len(got) != 1 {
					continue // C12
				}
				sd := got[0]
				if sd.SpanContext != w.sc || sd.ParentSpanID != w.parent || sd.HasRemoteParent != w.remote || sd.Name != w.name || sd.SpanKind != w.kind || sd.ChildSpanCount != w.children {
					h.cex("%s: span %d is recorded as %v parent=%v remote=%v name=%s kind=%d children=%d, want %v parent=%v remote=%v name=%s kind=%d children=%d", log, i, sd.SpanContext, sd.ParentSpanID, sd.HasRemoteParent, sd.Name, sd.SpanKind, sd.ChildSpanCount, w.sc, w.parent, w.remote, w.name, w.kind, w.children)
					return
				}
			}
		})
	}
	// the default generator and concurrent children
	ApplyConfig(Config{IDGenerator: &defaultIDGenerator{}, DefaultSampler: AlwaysSample()})
	ids := map[SpanID]bool{}
	for h.more() {
		exp.m = map[SpanID][]*SpanData{}
		ctx, root := StartSpan(context.Background(), "root", WithSampler(AlwaysSample()))
		var wg sync.WaitGroup
		var mu sync.Mutex
		k := 20 + h.Intn(50)
		dup := ""
		for g := 0; g < 4; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < k; i++ {
					_, s := StartSpan(ctx, "c")
					id := s.SpanContext().SpanID
					mu.Lock()
					if ids[id] || id == (SpanID{}) {
						dup = fmt.Sprint(id)
					}
					ids[id] = true
					mu.Unlock()
				}
			}()
		}
		wg.Wait()
		root.End()
		h.count("concurrent", k, time.Now().UnixNano())
		if dup != "" {
			h.cex("span ID %s given twice", dup)
		}
		if l := exp.m[root.SpanContext().SpanID]; len(l) == 1 && l[0].ChildSpanCount != 4*k {
			h.cex("%d children started from 4 goroutines, counted %d", 4*k, l[0].ChildSpanCount)
		}
		if len(ids) > 1<<18 {
			ids = map[SpanID]bool{}
		}
	}
}
