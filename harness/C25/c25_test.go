package metricexport

import (
	"context"
	"fmt"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"go.opencensus.io/metric/metricdata"
	"go.opencensus.io/metric/metricproducer"
)

type c25p struct {
	ms    []*metricdata.Metric
	reads int32
}

func (p *c25p) Read() []*metricdata.Metric { atomic.AddInt32(&p.reads, 1); return p.ms }

type c25e struct {
	mu    sync.Mutex
	calls int
	last  []*metricdata.Metric
}

func (e *c25e) ExportMetrics(ctx context.Context, d []*metricdata.Metric) error {
	e.mu.Lock()
	defer e.mu.Unlock()
	e.calls++
	e.last = append([]*metricdata.Metric(nil), d...)
	return nil
}

func (e *c25e) n() int { e.mu.Lock(); defer e.mu.Unlock(); return e.calls }

// what the export holds, compared with the registered producers
func c25same(got []*metricdata.Metric, ps []*c25p) string {
	want := map[*metricdata.Metric]int{}
	n := 0
	for _, p := range ps {
		for _, m := range p.ms {
			want[m]++
			n++
		}
	}
	if len(got) != n {
		return fmt.Sprintf("%d metrics exported, the producers have %d", len(got), n)
	}
	for _, m := range got {
		want[m]--
		if want[m] < 0 {
			return fmt.Sprintf("metric %p exported too often or not produced", m)
		}
	}
	return ""
}

func c25cex(h *vh, where, f string, args ...interface{}) {
	h.cex("%s: %s", where, fmt.Sprintf(f, args...))
}

func TestVerifC25(t *testing.T) {
	h := newVH(t, "C25")
	defer h.done()
	for _, p := range metricproducer.GlobalManager().GetAll() {
		metricproducer.GlobalManager().DeleteProducer(p)
	}
	// one reader that ticks
	h.guard("ticking", func() {
		p := &c25p{ms: []*metricdata.Metric{{}, {}}}
		metricproducer.GlobalManager().AddProducer(p)
		defer metricproducer.GlobalManager().DeleteProducer(p)
		e := &c25e{}
		ir, err := NewIntervalReader(NewReader(), e)
		if err != nil {
			c25cex(h, "NewIntervalReader(reader, exporter)", "%v", err)
			return
		}
		ir.ReportingInterval = time.Second
		if err := ir.Start(); err != nil {
			c25cex(h, "Start with an interval of one second", "%v", err)
			return
		}
		deadline := time.Now().Add(8 * time.Second)
		for e.n() == 0 && time.Now().Before(deadline) {
			time.Sleep(10 * time.Millisecond)
			ir.Flush()
		}
		if e.n() == 0 {
			c25cex(h, "Start with an interval of one second", "nothing exported in 8 s")
		}
		var wg sync.WaitGroup
		for i := 0; i < 3; i++ {
			wg.Add(1)
			go func() { defer wg.Done(); ir.Stop() }()
		}
		wg.Wait()
		n := e.n()
		if int32(n) != atomic.LoadInt32(&p.reads) {
			c25cex(h, "Start, wait, Stop", "%d exports but the producer was read %d times", n, p.reads)
		}
		if s := c25same(e.last, []*c25p{p}); s != "" {
			c25cex(h, "Start, wait, Stop", "%s", s)
		}
		time.Sleep(1200 * time.Millisecond)
		if e.n() != n {
			c25cex(h, "Start, wait, Stop, wait", "%d exports after Stop returned", e.n()-n)
		}
		h.count(1)
	})
	var nilr *IntervalReader
	h.guard("nil reader", func() {
		if nilr.Start() == nil {
			c25cex(h, "Start of a nil reader", "no error")
		}
		nilr.Stop()
	})
	for h.more() && !h.failed {
		h.guard("lifecycle", func() {
			e := &c25e{}
			var ps, reg []*c25p
			for i := h.Intn(4); i > 0; i-- {
				p := &c25p{}
				for j := h.Intn(4); j > 0; j-- {
					p.ms = append(p.ms, &metricdata.Metric{})
				}
				ps = append(ps, p)
			}
			for _, p := range ps {
				if h.Intn(3) > 0 {
					metricproducer.GlobalManager().AddProducer(p)
					reg = append(reg, p)
				}
			}
			defer func() {
				for _, p := range reg {
					metricproducer.GlobalManager().DeleteProducer(p)
				}
			}()
			rd := NewReader(WithSpanName(h.str("ab", 2)))
			if h.Intn(8) == 0 {
				if r, err := NewIntervalReader(nil, e); err == nil || r != nil {
					c25cex(h, "NewIntervalReader(nil, exporter)", "%v, %v", r, err)
				}
				if r, err := NewIntervalReader(rd, nil); err == nil || r != nil {
					c25cex(h, "NewIntervalReader(reader, nil)", "%v, %v", r, err)
				}
				if r, err := NewIntervalReader(nil, nil); err == nil || r != nil {
					c25cex(h, "NewIntervalReader(nil, nil)", "%v, %v", r, err)
				}
			}
			ir, err := NewIntervalReader(rd, e)
			if err != nil || ir == nil {
				c25cex(h, "NewIntervalReader(reader, exporter)", "%v, %v", ir, err)
				return
			}
			running, calls := false, 0
			log := fmt.Sprintf("%d producers;", len(reg))
			defer ir.Stop()
			for k := 1 + h.Intn(10); k > 0 && !h.failed; k-- {
				switch h.Intn(5) {
				case 0:
					d := []time.Duration{0, time.Second, time.Second - 1, time.Second + 1, time.Hour, -1, 1, -time.Hour, time.Duration(h.int64v()), time.Duration(h.Intn(int(time.Second)))}[h.Intn(10)]
					if d >= time.Second && d < time.Hour {
						d = time.Hour // no tick while the history runs
						if h.Intn(2) == 0 && !running {
							d = time.Second
						}
					}
					ir.ReportingInterval = d
					log += fmt.Sprintf(" interval %d;", d)
				case 1, 2:
					bad := running || (ir.ReportingInterval != 0 && ir.ReportingInterval < time.Second)
					err := ir.Start()
					log += fmt.Sprintf(" start: %v;", err)
					if (err != nil) != bad {
						c25cex(h, log, "Start returned %v (running %v, interval %v)", err, running, ir.ReportingInterval)
						return
					}
					if err == nil {
						running = true
					}
				case 3:
					fin := make(chan bool)
					go func() { ir.Stop(); close(fin) }()
					select {
					case <-fin:
					case <-time.After(10 * time.Second):
						c25cex(h, log+" stop", "Stop does not return")
						return
					}
					log += " stop;"
					running = false
				case 4:
					ir.Flush()
					log += " flush;"
					if !running {
						calls++
						if s := c25same(e.last, reg); s != "" {
							c25cex(h, log, "%s", s)
							return
						}
					}
				}
				if e.n() != calls {
					c25cex(h, log, "%d exports, expected %d", e.n(), calls)
					return
				}
			}
			for _, p := range ps {
				want := 0
				for _, q := range reg {
					if p == q {
						want = calls
					}
				}
				if int(p.reads) != want {
					c25cex(h, log, "a producer was read %d times, expected %d", p.reads, want)
				}
			}
			h.count(1)
		})
	}
}
