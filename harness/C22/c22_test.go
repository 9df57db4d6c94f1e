package metric

import (
	"fmt"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"

	"go.opencensus.io/metric/metricdata"
)

func TestVerifC22(t *testing.T) {
	h := newVH(t, "C22")
	defer h.done()
	seq := h.part(2)
	show := func(l []metricdata.LabelValue) string {
		s := ""
		for _, v := range l {
			x := v.Value
			if len(x) > 20 {
				x = fmt.Sprintf("%s…(%d bytes)", x[:8], len(x))
			}
			s += fmt.Sprintf("(%v %q)", v.Present, x)
		}
		return s
	}
	ident := func(l []metricdata.LabelValue) string {
		s := ""
		for _, v := range l {
			if v.Present {
				s += fmt.Sprintf("%d:%s", len(v.Value), v.Value)
			} else {
				s += "-"
			}
		}
		return s
	}
	value := func() metricdata.LabelValue {
		switch h.Intn(8) {
		case 0:
			return metricdata.LabelValue{}
		case 1:
			return metricdata.NewLabelValue("")
		case 2:
			return metricdata.NewLabelValue(strings.Repeat(string(rune('a'+h.Intn(2))), []int{253, 254, 255, 256, 257, 511, 512, 70000}[h.Intn(8)]))
		case 3:
			return metricdata.NewLabelValue(h.str("\x00\x01\x02a", 4))
		case 4:
			return metricdata.NewLabelValue(h.str("ab", 2))
		}
		return metricdata.NewLabelValue(h.str("abcd\x00\xff,;-", 6))
	}
	for seq.more() && !h.failed {
		h.guard("entry history", func() {
			nk, nc := h.Intn(4), h.Intn(4)
			var keys []metricdata.LabelKey
			for i := 0; i < nk; i++ {
				keys = append(keys, metricdata.LabelKey{Key: fmt.Sprint("k", i)})
			}
			consts := map[metricdata.LabelKey]metricdata.LabelValue{}
			var cn []string
			for i := 0; i < nc; i++ {
				n := fmt.Sprint("c", h.Intn(9))
				if _, ok := consts[metricdata.LabelKey{Key: n}]; !ok {
					cn = append(cn, n)
				}
				consts[metricdata.LabelKey{Key: n}] = value()
			}
			sort.Strings(cn)
			var cv []metricdata.LabelValue
			for _, n := range cn {
				cv = append(cv, consts[metricdata.LabelKey{Key: n}])
			}
			r := NewRegistry()
			opts := []Options{WithLabelKeysAndDescription(keys...), WithConstLabel(consts)}
			kind := h.Intn(6)
			var get func(lv []metricdata.LabelValue) (interface{}, error)
			var mark func(e interface{}, v int64)
			derived := false
			want := map[string]int64{}
			switch kind {
			case 0:
				g, _ := r.AddInt64Gauge("m", opts...)
				get = func(lv []metricdata.LabelValue) (interface{}, error) { e, err := g.GetEntry(lv...); return e, err }
				mark = func(e interface{}, v int64) { e.(*Int64GaugeEntry).Set(v) }
			case 1:
				g, _ := r.AddFloat64Gauge("m", opts...)
				get = func(lv []metricdata.LabelValue) (interface{}, error) { e, err := g.GetEntry(lv...); return e, err }
				mark = func(e interface{}, v int64) { e.(*Float64Entry).Set(float64(v)) }
			case 2:
				g, _ := r.AddInt64Cumulative("m", opts...)
				get = func(lv []metricdata.LabelValue) (interface{}, error) { e, err := g.GetEntry(lv...); return e, err }
				mark = func(e interface{}, v int64) { e.(*Int64CumulativeEntry).Inc(v) }
			case 3:
				g, _ := r.AddFloat64Cumulative("m", opts...)
				get = func(lv []metricdata.LabelValue) (interface{}, error) { e, err := g.GetEntry(lv...); return e, err }
				mark = func(e interface{}, v int64) { e.(*Float64CumulativeEntry).Inc(float64(v)) }
			case 4:
				g, _ := r.AddInt64DerivedGauge("m", opts...)
				derived = true
				get = func(lv []metricdata.LabelValue) (interface{}, error) {
					n := int64(len(want) + 1)
					return n, g.UpsertEntry(func() int64 { return n }, lv...)
				}
			case 5:
				g, _ := r.AddFloat64DerivedCumulative("m", opts...)
				derived = true
				get = func(lv []metricdata.LabelValue) (interface{}, error) {
					n := int64(len(want) + 1)
					return n, g.UpsertEntry(func() float64 { return float64(n) }, lv...)
				}
			}
			entries := map[string]interface{}{}
			full := map[string][]metricdata.LabelValue{}
			log := fmt.Sprintf("kind %d keys %d const %s:", kind, nk, show(cv))
			for k := 0; k < 1+h.Intn(8); k++ {
				n := nk
				if h.Intn(5) == 0 {
					n = h.Intn(nk + 3)
				}
				var lv []metricdata.LabelValue
				for i := 0; i < n; i++ {
					lv = append(lv, value())
				}
				if n == nk && len(full) > 0 && h.Intn(3) == 0 {
					for _, f := range full {
						lv = append([]metricdata.LabelValue{}, f[len(cv):]...)
						break
					}
				}
				log += " " + show(lv)
				e, err := get(lv)
				if n != nk {
					if err == nil {
						h.cex("%s: %d values for %d keys are accepted", log, n, nk)
						return
					}
				} else if err != nil {
					h.cex("%s: %v", log, err)
					return
				} else {
					id := ident(lv)
					old, had := entries[id]
					switch {
					case derived:
						want[id] = e.(int64)
					case had && old != e:
						h.cex("%s: asking again gives another entry", log)
						return
					case !had:
						for _, o := range entries {
							if o == e {
								h.cex("%s: the entry of different values is returned", log)
								return
							}
						}
						want[id] = int64(len(want) + 1)
						mark(e, want[id])
					}
					entries[id] = e
					full[id] = append(append([]metricdata.LabelValue{}, cv...), lv...)
				}
				ts := r.Read()[0].TimeSeries
				if len(ts) != len(entries) {
					h.cex("%s: %d entries are read, %d were asked for", log, len(ts), len(entries))
					return
				}
				for _, s := range ts {
					if len(s.LabelValues) != nk+len(cv) {
						h.cex("%s: a series carries the label values %s", log, show(s.LabelValues))
						return
					}
					id := ident(s.LabelValues[len(cv):])
					f, ok := full[id]
					if !ok || ident(f) != ident(s.LabelValues) {
						h.cex("%s: a series carries the label values %s", log, show(s.LabelValues))
						return
					}
					if got := fmt.Sprint(s.Points[0].Value); got != fmt.Sprint(want[id]) {
						h.cex("%s: the series %s reads %s, not %d", log, show(s.LabelValues), got, want[id])
						return
					}
				}
			}
			h.count(log)
		})
	}
	for h.more() {
		h.guard("concurrent lookups", func() {
			{ // the same fresh value asked for by several goroutines at once
				r := NewRegistry()
				g, _ := r.AddInt64Gauge("s", WithLabelKeys("k"))
				const rounds, n = 400, 6
				got := make([][n]*Int64GaugeEntry, rounds)
				var turn int64 = -1
				var wg sync.WaitGroup
				for i := 0; i < n; i++ {
					i := i
					wg.Add(1)
					go func() {
						defer wg.Done()
						for k := 0; k < rounds; k++ {
							if i == 0 {
								atomic.StoreInt64(&turn, int64(k))
							} else {
								for y := 0; atomic.LoadInt64(&turn) < int64(k); y++ {
									if y%100 == 99 {
										runtime.Gosched()
									}
								}
							}
							got[k][i], _ = g.GetEntry(metricdata.NewLabelValue(fmt.Sprint(k)))
						}
					}()
				}
				wg.Wait()
				h.count("one value, many goroutines", rounds, n)
				for k := range got {
					for i := range got[k] {
						if got[k][i] != got[k][0] {
							h.cex("%d goroutines asking at once for the new value %d got different entries", n, k)
							return
						}
					}
				}
			}
			consts := map[metricdata.LabelKey]metricdata.LabelValue{}
			nc := h.Intn(6)
			for i := 0; i < nc; i++ {
				consts[metricdata.LabelKey{Key: fmt.Sprint("c", i)}] = metricdata.NewLabelValue(fmt.Sprint("v", i))
			}
			r := NewRegistry()
			g, _ := r.AddInt64Gauge("m", WithLabelKeys("k"), WithConstLabel(consts))
			n := 2 + h.Intn(6)
			var wg sync.WaitGroup
			for i := 0; i < n; i++ {
				i := i
				wg.Add(1)
				go func() {
					defer wg.Done()
					for k := 0; k < 2000; k++ {
						if e, err := g.GetEntry(metricdata.NewLabelValue(fmt.Sprint(i))); err == nil {
							e.Set(int64(i + 1))
						}
					}
				}()
			}
			wg.Wait()
			h.count("concurrent", nc, n)
			ts := r.Read()[0].TimeSeries
			if len(ts) != n {
				h.cex("%d goroutines asking for %d values (%d constant labels) made %d entries", n, n, nc, len(ts))
				return
			}
			for _, s := range ts {
				if v := s.Points[0].Value.(int64); fmt.Sprint(v-1) != s.LabelValues[nc].Value {
					h.cex("with %d constant labels and %d goroutines, the entry for %s was set to %d", nc, n, s.LabelValues[nc].Value, v)
					return
				}
			}
		})
	}
}
