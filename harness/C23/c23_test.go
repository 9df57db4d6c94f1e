package metric

import (
	"fmt"
	"math"
	"sync"
	"testing"
)

func TestVerifC23(t *testing.T) {
	h := newVH(t, "C23")
	defer h.done()
	only := func(r *Registry) interface{} {
		ms := r.Read()
		if len(ms) != 1 || len(ms[0].TimeSeries) != 1 || len(ms[0].TimeSeries[0].Points) != 1 {
			h.cex("reading a registry with one entry gives %+v", ms)
			return nil
		}
		return ms[0].TimeSeries[0].Points[0].Value
	}
	clampF := func(f float64) float64 {
		if f < 0 {
			return 0
		}
		return f
	}
	clampI := func(i int64) int64 {
		if i < 0 {
			return 0
		}
		return i
	}
	sameF := func(v interface{}, w float64) bool {
		f, ok := v.(float64)
		return ok && (math.Float64bits(f) == math.Float64bits(w) || f == w || f != f && w != w)
	}
	seq := h.part(2)
	for seq.more() && !h.failed {
		h.guard("sequential history", func() {
			rf, ri, rcf, rci := NewRegistry(), NewRegistry(), NewRegistry(), NewRegistry()
			gf, _ := rf.AddFloat64Gauge("m")
			gi, _ := ri.AddInt64Gauge("m")
			cf, _ := rcf.AddFloat64Cumulative("m")
			ci, _ := rci.AddInt64Cumulative("m")
			ef, _ := gf.GetEntry()
			ei, _ := gi.GetEntry()
			xf, _ := cf.GetEntry()
			xi, _ := ci.GetEntry()
			var wf, wcf float64
			var wi, wci int64
			log := ""
			for k := 0; k < 1+h.Intn(8); k++ {
				f, i := h.float(), h.int64v()
				if h.Intn(2) == 0 {
					f, i = float64(h.Intn(7)-3)/2, int64(h.Intn(9)-4)
				}
				if h.Intn(3) == 0 {
					log += fmt.Sprintf("Set(%v,%v) ", f, i)
					ef.Set(f)
					ei.Set(i)
					wf, wi = f, i
				} else {
					log += fmt.Sprintf("Add(%v,%v) ", f, i)
					ef.Add(f)
					ei.Add(i)
					wf += f
					wi += i
				}
				if f != f {
					f = 1
				}
				log += fmt.Sprintf("Inc(%v,%v) ", f, i)
				pcf, pci := only(rcf), only(rci)
				xf.Inc(f)
				if f > 0 {
					wcf += f
				}
				if i > 0 && wci > math.MaxInt64-i {
					i = 0 // an overflowing counter is left out
				}
				xi.Inc(i)
				if i > 0 {
					wci += i
				}
				a, b, c, d := only(rf), only(ri), only(rcf), only(rci)
				if h.failed {
					return
				}
				if !sameF(a, clampF(wf)) {
					h.cex("after %s the float gauge reads %v, not %v", log, a, clampF(wf))
				}
				if b != interface{}(clampI(wi)) {
					h.cex("after %s the integer gauge reads %v, not %v", log, b, clampI(wi))
				}
				if !sameF(c, wcf) {
					h.cex("after %s the float cumulative reads %v, not %v", log, c, wcf)
				}
				if d != interface{}(wci) {
					h.cex("after %s the integer cumulative reads %v, not %v", log, d, wci)
				}
				if pf, ok := pcf.(float64); ok && !h.failed && c.(float64) < pf {
					h.cex("after %s the float cumulative fell from %v to %v", log, pf, c)
				}
				if pi, ok := pci.(int64); ok && !h.failed && d.(int64) < pi {
					h.cex("after %s the integer cumulative fell from %v to %v", log, pi, d)
				}
			}
			h.count(log)
		})
	}
	for h.more() {
		h.guard("concurrent updates", func() {
			rf, ri, rcf, rci := NewRegistry(), NewRegistry(), NewRegistry(), NewRegistry()
			gf, _ := rf.AddFloat64Gauge("m")
			gi, _ := ri.AddInt64Gauge("m")
			cf, _ := rcf.AddFloat64Cumulative("m")
			ci, _ := rci.AddInt64Cumulative("m")
			ef, _ := gf.GetEntry()
			ei, _ := gi.GetEntry()
			xf, _ := cf.GetEntry()
			xi, _ := ci.GetEntry()
			base := int64(h.Intn(1000))
			ef.Set(float64(base))
			ei.Set(base)
			n, each := 2+h.Intn(6), 200+h.Intn(3000)
			var up, start sync.WaitGroup
			start.Add(1)
			var total, pos int64
			for g := 0; g < n; g++ {
				d := int64(h.Intn(9) - 2)
				total += d * int64(each)
				if d > 0 {
					pos += d * int64(each)
				}
				up.Add(1)
				go func() {
					defer up.Done()
					start.Wait()
					for k := 0; k < each; k++ {
						ef.Add(float64(d))
						ei.Add(d)
						xf.Inc(float64(d))
						xi.Inc(d)
					}
				}()
			}
			stop := make(chan bool)
			bad := make(chan string, 1)
			var rd sync.WaitGroup
			rd.Add(1)
			go func() {
				defer rd.Done()
				var lf float64
				var li int64
				for {
					f, i := rcf.Read()[0].TimeSeries[0].Points[0].Value.(float64), rci.Read()[0].TimeSeries[0].Points[0].Value.(int64)
					if f < lf || i < li {
						select {
						case bad <- fmt.Sprintf("a cumulative fell from %v,%v to %v,%v", lf, li, f, i):
						default:
						}
					}
					lf, li = f, i
					select {
					case <-stop:
						return
					default:
					}
				}
			}()
			start.Done()
			up.Wait()
			close(stop)
			rd.Wait()
			h.count("concurrent", n, each, base, total, pos)
			select {
			case s := <-bad:
				h.cex("%d goroutines incrementing %d times each: %s", n, each, s)
				return
			default:
			}
			a, b, c, d := only(rf), only(ri), only(rcf), only(rci)
			if h.failed {
				return
			}
			if !sameF(a, clampF(float64(base+total))) || b != interface{}(clampI(base+total)) {
				h.cex("gauges set to %d and concurrently added %d in all (%d goroutines, %d additions each) read %v and %v", base, total, n, each, a, b)
			}
			if !sameF(c, float64(pos)) || d != interface{}(pos) {
				h.cex("cumulatives concurrently incremented by %d in all (%d goroutines, %d increments each) read %v and %v", pos, n, each, c, d)
			}
		})
	}
}
