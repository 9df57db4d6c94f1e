package metric

import (
	"fmt"
	"sort"
	"sync"
	"testing"

	"go.opencensus.io/metric/metricdata"
	"go.opencensus.io/metric/metricproducer"
)

type c24p struct{ id int }

func (p *c24p) Read() []*metricdata.Metric { return nil }

func TestVerifC24(t *testing.T) {
	h := newVH(t, "C24")
	defer h.done()
	reg := h.part(2)
	for reg.more() && !h.failed {
		h.guard("registry history", func() {
			type m struct {
				kind    int
				desc    metricdata.Descriptor
				entries int
				v       int64
				get     func(v int64) error
			}
			r := NewRegistry()
			model := map[string]*m{}
			log := ""
			for k := 0; k < 1+h.Intn(10); k++ {
				name := h.str("ab", 1)
				kind := h.Intn(8)
				var opts []Options
				desc, unit := "", metricdata.Unit("")
				var keys []metricdata.LabelKey
				consts := map[metricdata.LabelKey]metricdata.LabelValue{}
				for i := 0; i < h.Intn(5); i++ {
					switch h.Intn(5) {
					case 0:
						desc = h.str("xyz", 3)
						opts = append(opts, WithDescription(desc))
					case 1:
						unit = metricdata.Unit(h.str("xyz", 3))
						opts = append(opts, WithUnit(unit))
					case 2:
						keys = nil
						var ks []string
						for j := h.Intn(3); j > 0; j-- {
							s := h.str("klm", 2)
							ks = append(ks, s)
							keys = append(keys, metricdata.LabelKey{Key: s})
						}
						opts = append(opts, WithLabelKeys(ks...))
					case 3:
						keys = nil
						for j := h.Intn(3); j > 0; j-- {
							keys = append(keys, metricdata.LabelKey{Key: h.str("klm", 2), Description: h.str("d", 1)})
						}
						opts = append(opts, WithLabelKeysAndDescription(keys...))
					case 4:
						consts = map[metricdata.LabelKey]metricdata.LabelValue{}
						for j := h.Intn(4); j > 0; j-- {
							consts[metricdata.LabelKey{Key: fmt.Sprint("c", h.Intn(20))}] = metricdata.NewLabelValue(h.str("v", 2))
						}
						opts = append(opts, WithConstLabel(consts))
					}
				}
				var ck []metricdata.LabelKey
				for c := range consts {
					ck = append(ck, c)
				}
				sort.Slice(ck, func(i, j int) bool { return ck[i].Key < ck[j].Key })
				all := append(append([]metricdata.LabelKey{}, ck...), keys...)
				var lv []metricdata.LabelValue
				for range keys {
					lv = append(lv, metricdata.NewLabelValue("v"))
				}
				d := metricdata.Descriptor{Name: name, Description: desc, Unit: unit, LabelKeys: all}
				var get func(int64) error
				var err error
				var got interface{}
				isNil := false
				switch kind {
				case 0:
					g, e := r.AddInt64Gauge(name, opts...)
					d.Type, err, got, isNil = metricdata.TypeGaugeInt64, e, g, g == nil
					get = func(v int64) error {
						x, e := g.GetEntry(lv...)
						if e == nil {
							x.Set(v)
						}
						return e
					}
				case 1:
					g, e := r.AddFloat64Gauge(name, opts...)
					d.Type, err, got, isNil = metricdata.TypeGaugeFloat64, e, g, g == nil
					get = func(v int64) error {
						x, e := g.GetEntry(lv...)
						if e == nil {
							x.Set(float64(v))
						}
						return e
					}
				case 2:
					g, e := r.AddInt64DerivedGauge(name, opts...)
					d.Type, err, got, isNil = metricdata.TypeGaugeInt64, e, g, g == nil
					get = func(v int64) error { return g.UpsertEntry(func() int64 { return v }, lv...) }
				case 3:
					g, e := r.AddFloat64DerivedGauge(name, opts...)
					d.Type, err, got, isNil = metricdata.TypeGaugeFloat64, e, g, g == nil
					get = func(v int64) error { return g.UpsertEntry(func() float64 { return float64(v) }, lv...) }
				case 4:
					g, e := r.AddInt64Cumulative(name, opts...)
					d.Type, err, got, isNil = metricdata.TypeCumulativeInt64, e, g, g == nil
					get = func(v int64) error {
						x, e := g.GetEntry(lv...)
						if e == nil {
							x.Inc(v)
						}
						return e
					}
				case 5:
					g, e := r.AddFloat64Cumulative(name, opts...)
					d.Type, err, got, isNil = metricdata.TypeCumulativeFloat64, e, g, g == nil
					get = func(v int64) error {
						x, e := g.GetEntry(lv...)
						if e == nil {
							x.Inc(float64(v))
						}
						return e
					}
				case 6:
					g, e := r.AddInt64DerivedCumulative(name, opts...)
					d.Type, err, got, isNil = metricdata.TypeCumulativeInt64, e, g, g == nil
					get = func(v int64) error { return g.UpsertEntry(func() int64 { return v }, lv...) }
				case 7:
					g, e := r.AddFloat64DerivedCumulative(name, opts...)
					d.Type, err, got, isNil = metricdata.TypeCumulativeFloat64, e, g, g == nil
					get = func(v int64) error { return g.UpsertEntry(func() float64 { return float64(v) }, lv...) }
				}
				_ = got
				log += fmt.Sprintf("add kind %d %q desc %q unit %q keys %v const %v; ", kind, name, desc, unit, keys, consts)
				old := model[name]
				if clash := old != nil && old.kind != kind; clash != (err != nil) || clash != isNil {
					h.cex("%s: error %v, nil metric %v (the name is taken by another type: %v)", log, err, isNil, clash)
					return
				}
				if err == nil {
					model[name] = &m{kind: kind, desc: d, get: get}
				}
				if x := model[name]; h.Intn(2) == 0 {
					v := int64(1 + h.Intn(9))
					was := x.entries
					if e := x.get(v); e != nil {
						h.cex("%s: the entry of %q cannot be had: %v", log, name, e)
						return
					}
					if (x.kind == 4 || x.kind == 5) && was > 0 {
						v += x.v
					}
					x.v, x.entries = v, 1
					log += fmt.Sprintf("update %q by %d; ", name, v)
				}
				ms := r.Read()
				if len(ms) != len(model) {
					h.cex("%s: %d metrics are read, %d were added", log, len(ms), len(model))
					return
				}
				seen := map[string]bool{}
				for _, g := range ms {
					x := model[g.Descriptor.Name]
					if x == nil || seen[g.Descriptor.Name] {
						h.cex("%s: the metric %q is read twice or was never added", log, g.Descriptor.Name)
						return
					}
					seen[g.Descriptor.Name] = true
					if fmt.Sprintf("%+v", g.Descriptor) != fmt.Sprintf("%+v", x.desc) {
						h.cex("%s: the descriptor read is %+v, not %+v", log, g.Descriptor, x.desc)
						return
					}
					if len(g.TimeSeries) != x.entries {
						h.cex("%s: %q has %d series for %d entries", log, g.Descriptor.Name, len(g.TimeSeries), x.entries)
						return
					}
					if x.entries == 1 && fmt.Sprint(g.TimeSeries[0].Points[0].Value) != fmt.Sprint(x.v) {
						h.cex("%s: %q reads %v, not %d", log, g.Descriptor.Name, g.TimeSeries[0].Points[0].Value, x.v)
						return
					}
				}
			}
			h.count(log)
		})
	}
	pool := make([]*c24p, 5)
	for i := range pool {
		pool[i] = &c24p{i}
	}
	pm := metricproducer.GlobalManager()
	check := func(log string, want map[int]bool, base int) {
		l := pm.GetAll()
		got := map[int]bool{}
		n := 0
		for _, p := range l {
			if q, ok := p.(*c24p); ok {
				if got[q.id] {
					h.cex("%s: producer %d is returned twice", log, q.id)
					return
				}
				got[q.id] = true
			} else {
				n++
			}
		}
		if n != base || fmt.Sprint(got) != fmt.Sprint(want) {
			h.cex("%s: the producers are %v and %d others, not %v and %d others", log, got, n, want, base)
			return
		}
		for i := range l {
			l[i] = nil
		}
	}
	base := len(pm.GetAll())
	for h.more() {
		h.guard("producer history", func() {
			log := ""
			want := map[int]bool{}
			for k := 0; k < 1+h.Intn(10); k++ {
				i := h.Intn(len(pool))
				switch h.Intn(5) {
				case 0, 1:
					pm.AddProducer(pool[i])
					want[i] = true
					log += fmt.Sprint("add ", i, "; ")
				case 2:
					pm.DeleteProducer(pool[i])
					delete(want, i)
					log += fmt.Sprint("delete ", i, "; ")
				case 3:
					pm.AddProducer(nil)
					pm.DeleteProducer(nil)
				case 4:
					var wg sync.WaitGroup
					for j := range pool {
						j := j
						wg.Add(2)
						go func() { pm.GetAll(); wg.Done() }()
						go func() {
							if want[j] {
								pm.AddProducer(pool[j])
								pm.DeleteProducer(pool[j])
							} else {
								pm.AddProducer(pool[j])
							}
							wg.Done()
						}()
					}
					wg.Wait()
					for j := range pool {
						if want[j] {
							delete(want, j)
						} else {
							want[j] = true
						}
					}
					log += "flip all concurrently; "
				}
				check(log, want, base)
				if h.failed {
					break
				}
			}
			h.count(log)
			for _, p := range pool {
				pm.DeleteProducer(p)
			}
		})
	}
}
