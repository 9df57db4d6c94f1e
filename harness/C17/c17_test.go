package stats

import (
	"context"
	"fmt"
	"reflect"
	"testing"

	"go.opencensus.io/metric/metricdata"
	"go.opencensus.io/stats/internal"
	"go.opencensus.io/tag"
)

type c17call struct {
	who  string
	tags *tag.Map
	ms   interface{}
	at   map[string]interface{}
}

type c17rec struct {
	name string
	got  *[]c17call
}

func (r c17rec) Record(t *tag.Map, ms interface{}, at map[string]interface{}) {
	*r.got = append(*r.got, c17call{r.name, t, ms, at})
}

func c17tags(m *tag.Map) string {
	if m == nil {
		return "{}"
	}
	s := m.String()
	if s == "{  }" {
		return "{}"
	}
	return s
}

func TestVerifC17(t *testing.T) {
	h := newVH(t, "C17")
	defer h.done()
	od, om := internal.DefaultRecorder, internal.MeasurementRecorder
	defer func() { internal.DefaultRecorder, internal.MeasurementRecorder = od, om }()
	var got []c17call
	def := func(t *tag.Map, ms interface{}, at map[string]interface{}) {
		got = append(got, c17call{"default", t, ms, at})
	}
	mr := func(t *tag.Map, ms []Measurement, at map[string]interface{}) {
		got = append(got, c17call{"default", t, ms, at})
	}
	keys := []tag.Key{tag.MustNewKey("k1"), tag.MustNewKey("k2"), tag.MustNewKey("k3")}
	pool := 0
	for h.more() {
		h.guard("recording", func() {
			internal.DefaultRecorder, internal.MeasurementRecorder = def, mr
			if h.Intn(20) == 0 {
				internal.DefaultRecorder, internal.MeasurementRecorder = nil, nil
			}
			got = nil
			// measures under fresh names, so that their use by views is known
			pool++
			var ms []Measurement
			log := ""
			any := false
			for i := h.Intn(5); i > 0; i-- {
				name := fmt.Sprintf("c17.%d.%d", pool, h.Intn(3))
				sub := h.Intn(4) == 0
				var m Measurement
				if h.Intn(2) == 0 {
					v := h.int64v()
					a, b := Int64(name, "d", "u"), Int64(name, "e", "w")
					if a.desc != b.desc || a.Name() != name {
						h.cex("Int64(%q) twice: different measures", name)
						return
					}
					m = a.M(v)
					if m.Value() != float64(v) || m.Measure() != Measure(a) {
						h.cex("measure %q: M(%d) has value %v", name, v, m.Value())
						return
					}
				} else {
					v := h.float()
					a, b := Float64(name, "d", "u"), Float64(name, "e", "w")
					if a.desc != b.desc || a.Name() != name {
						h.cex("Float64(%q) twice: different measures", name)
						return
					}
					m = a.M(v)
					if m.Value() != v && !(v != v && m.Value() != m.Value()) || m.Measure() != Measure(a) {
						h.cex("measure %q: M(%v) has value %v", name, v, m.Value())
						return
					}
				}
				if sub {
					internal.SubscriptionReporter(name)
				}
				ms = append(ms, m)
				log += fmt.Sprintf(" %s(used %v)=%v", name, sub, m.Value())
			}
			for _, m := range ms {
				any = any || m.desc.subscribed()
			}
			ctx := context.Background()
			muts := func() (r []tag.Mutator) {
				for i := h.Intn(4); i > 0; i-- {
					k := keys[h.Intn(3)]
					v := h.str("ab", 2)
					switch h.Intn(4) {
					case 0:
						r = append(r, tag.Insert(k, v))
						log += fmt.Sprintf(" insert %s=%q", k.Name(), v)
					case 1:
						r = append(r, tag.Update(k, v))
						log += fmt.Sprintf(" update %s=%q", k.Name(), v)
					case 2:
						if h.Intn(12) == 0 {
							v = "\x01" // refused
						}
						r = append(r, tag.Upsert(k, v))
						log += fmt.Sprintf(" upsert %s=%q", k.Name(), v)
					case 3:
						r = append(r, tag.Delete(k))
						log += fmt.Sprintf(" delete %s", k.Name())
					}
				}
				return
			}
			if h.Intn(3) > 0 {
				log += "; context:"
				if c, err := tag.New(ctx, muts()...); err == nil {
					ctx = c
				}
			}
			orig := append([]Measurement(nil), ms...)
			if h.Intn(3) == 0 { // plain Record
				Record(ctx, ms...)
				want := any && internal.MeasurementRecorder != nil
				if (len(got) == 1) != want || len(got) > 1 {
					h.cex("Record%s: %d records, expected %v", log, len(got), want)
					return
				}
				if want {
					g := got[0]
					if !reflect.DeepEqual(fmt.Sprint(g.ms), fmt.Sprint(orig)) || len(g.at) != 0 || c17tags(g.tags) != c17tags(tag.FromContext(ctx)) {
						h.cex("Record%s: recorded %v with %s %v", log, g.ms, c17tags(g.tags), g.at)
					}
				}
				h.count(log)
				return
			}
			log += "; options:"
			mu := muts()
			at := metricdata.Attachments{"x": h.Intn(10)}
			var opts []Options
			withM, withT, withA, withR := false, false, false, false
			for i := 2 + h.Intn(5); i > 0; i-- {
				switch h.Intn(4) {
				case 0:
					opts = append(opts, WithMeasurements(ms...))
					withM = true
				case 1:
					opts = append(opts, WithTags(mu...))
					withT = true
				case 2:
					opts = append(opts, WithAttachments(at))
					withA = true
				case 3:
					if h.Intn(3) == 0 {
						opts = append(opts, WithRecorder(c17rec{"given", &got}))
						withR = true
					}
				}
			}
			log += fmt.Sprintf(" measurements %v tags %v attachments %v recorder %v", withM, withT, withA, withR)
			wctx, werr := ctx, error(nil)
			if withT && len(mu) > 0 {
				wctx, werr = tag.New(ctx, mu...)
			}
			var err error
			if withT && withM && !withA && !withR && h.Intn(2) == 0 {
				log += " (RecordWithTags)"
				err = RecordWithTags(ctx, mu, ms...)
			} else {
				err = RecordWithOptions(ctx, opts...)
			}
			want := withM && any && werr == nil && (withR || internal.DefaultRecorder != nil)
			if (len(got) == 1) != want || len(got) > 1 {
				h.cex("RecordWithOptions%s: %d records (error %v), expected %v", log, len(got), err, want)
				return
			}
			if !want {
				h.count(log)
				return
			}
			g := got[0]
			who := "default"
			if withR {
				who = "given"
			}
			wat := map[string]interface{}(nil)
			if withA {
				wat = at
			}
			if err != nil || g.who != who || fmt.Sprint(g.ms) != fmt.Sprint(orig) || !reflect.DeepEqual(g.at, wat) || c17tags(g.tags) != c17tags(tag.FromContext(wctx)) {
				h.cex("RecordWithOptions%s: error %v, %s got %v with %s %v, expected %s %v with %s %v", log, err, g.who, g.ms, c17tags(g.tags), g.at, who, orig, c17tags(tag.FromContext(wctx)), wat)
				return
			}
			h.count(log)
		})
	}
}
