package view

import (
	"context"
	"fmt"
	"math"
	"reflect"
	"sort"
	"testing"
	"time"

	"go.opencensus.io/metric/metricdata"
	"go.opencensus.io/stats"
	"go.opencensus.io/tag"
)

func TestVerifC20(t *testing.T) {
	h := newVH(t, "C20")
	defer h.done()
	mi := stats.Int64("verif/c20/i", "", "ms")
	mf := stats.Float64("verif/c20/f", "", "By")
	m1 := stats.Float64("verif/c20/1", "", "1")
	keys := []tag.Key{tag.MustNewKey("a"), tag.MustNewKey("b"), tag.MustNewKey("c")}
	for h.more() {
		bounds := []float64{}
		for i, n := 0, h.Intn(4); i < n; i++ {
			bounds = append(bounds, math.Abs(h.float())+1e-3)
		}
		sort.Float64s(bounds)
		aggs := []*Aggregation{Count(), Sum(), LastValue(), Distribution(bounds...)}
		agg := aggs[h.Intn(4)]
		var m stats.Measure = []stats.Measure{mi, mf, m1}[h.Intn(3)]
		v := &View{Name: "v", Description: "d", Measure: m, Aggregation: agg, TagKeys: keys[:h.Intn(4)]}
		vi, err := newViewInternal(v)
		if err != nil {
			h.cex("newViewInternal: %v", err)
			return
		}
		vi.subscribe()
		start := time.Unix(int64(1+h.Intn(1000)), 0)
		type ref struct {
			tags map[string]string
			xs   []float64
			ts   []time.Time
			at   []map[string]interface{}
		}
		refs := map[string]*ref{}
		var log []string
		rec := func(k int) {
			var ms []tag.Mutator
			tags := map[string]string{}
			for i, key := range v.TagKeys {
				if h.Intn(3) > 0 {
					val := fmt.Sprintf("v%d", h.Intn(2))
					ms = append(ms, tag.Upsert(key, val))
					tags[keys[i].Name()] = val
				}
			}
			ctx, _ := tag.New(context.Background(), ms...)
			x := h.float()
			if m == stats.Measure(mi) {
				x = float64(int64(h.Intn(1000) - 500))
			}
			var att map[string]interface{}
			if h.Intn(2) == 0 {
				att = map[string]interface{}{"n": k}
			}
			ts := start.Add(time.Duration(k) * time.Second)
			vi.addSample(tag.FromContext(ctx), x, att, ts)
			id := fmt.Sprint(tags)
			if refs[id] == nil {
				refs[id] = &ref{tags: tags}
			}
			r := refs[id]
			r.xs, r.ts, r.at = append(r.xs, x), append(r.ts, ts), append(r.at, att)
			log = append(log, fmt.Sprint(tags, x, att))
		}
		check := func(rows []*Row, mt *metricdata.Metric, now time.Time, refs map[string]*ref, when string) {
			in := fmt.Sprintf("%s: view %v of %T keys %d bounds %v recordings %v", when, agg.Type, m, len(v.TagKeys), bounds, log)
			if len(rows) != len(refs) {
				h.cex("%s: %d rows want %d", in, len(rows), len(refs))
				return
			}
			for _, row := range rows {
				tags := map[string]string{}
				for _, tg := range row.Tags {
					tags[tg.Key.Name()] = tg.Value
				}
				r := refs[fmt.Sprint(tags)]
				if r == nil {
					h.cex("%s: unexpected row %v", in, row.Tags)
					return
				}
				n := len(r.xs)
				var sum, mean, m2 float64
				buckets := make([]int64, len(bounds)+1)
				ex := make([]*metricdata.Exemplar, len(bounds)+1)
				for i, x := range r.xs {
					sum += x
					om := mean
					if i == 0 {
						mean = x
					} else {
						mean = mean + (x-mean)/float64(i+1)
						m2 = m2 + (x-om)*(x-mean)
					}
					b := len(bounds)
					for j, y := range bounds {
						if x < y {
							b = j
							break
						}
					}
					buckets[b]++
					if len(r.at[i]) > 0 {
						ex[b] = &metricdata.Exemplar{Value: x, Timestamp: r.ts[i], Attachments: r.at[i]}
					}
				}
				switch d := row.Data.(type) {
				case *CountData:
					if d.Value != int64(n) {
						h.cex("%s: row %v count %d want %d", in, tags, d.Value, n)
					}
				case *SumData:
					if d.Value != sum {
						h.cex("%s: row %v sum %v want %v", in, tags, d.Value, sum)
					}
				case *LastValueData:
					if d.Value != r.xs[n-1] {
						h.cex("%s: row %v last %v want %v", in, tags, d.Value, r.xs[n-1])
					}
				case *DistributionData:
					if d.Count != int64(n) || d.Mean != mean || d.SumOfSquaredDev != m2 || !reflect.DeepEqual(d.CountPerBucket, buckets) || !reflect.DeepEqual(d.ExemplarsPerBucket, ex) {
						h.cex("%s: row %v distribution %+v want count %d mean %v m2 %v buckets %v", in, tags, *d, n, mean, m2, buckets)
					}
				}
				if mt == nil {
					continue
				}
				var got *metricdata.TimeSeries
				for _, s := range mt.TimeSeries {
					same := len(s.LabelValues) == len(v.TagKeys)
					for i, k := range v.TagKeys {
						w, has := tags[k.Name()]
						same = same && s.LabelValues[i] == metricdata.LabelValue{Value: w, Present: has}
					}
					if same {
						got = s
					}
				}
				if got == nil || len(mt.TimeSeries) != len(rows) || len(got.Points) != 1 || !got.Points[0].Time.Equal(now) {
					h.cex("%s: no single point series for row %v in %d series", in, tags, len(mt.TimeSeries))
					return
				}
				isInt := m == stats.Measure(mi)
				var want interface{}
				ty := metricdata.TypeCumulativeInt64
				switch agg.Type {
				case AggTypeCount:
					want = int64(n)
				case AggTypeSum:
					want = sum
					if isInt {
						want = int64(sum)
					} else {
						ty = metricdata.TypeCumulativeFloat64
					}
				case AggTypeLastValue:
					want, ty = r.xs[n-1], metricdata.TypeGaugeFloat64
					if isInt {
						want, ty = int64(r.xs[n-1]), metricdata.TypeGaugeInt64
					}
				default:
					ty = metricdata.TypeCumulativeDistribution
					var bs []metricdata.Bucket
					for i := range buckets {
						bs = append(bs, metricdata.Bucket{Count: buckets[i], Exemplar: ex[i]})
					}
					want = &metricdata.Distribution{Count: int64(n), Sum: mean * float64(n), SumOfSquaredDeviation: m2, BucketOptions: &metricdata.BucketOptions{Bounds: bounds}, Buckets: bs}
				}
				p := got.Points[0].Value
				if mt.Descriptor.Type != ty || !reflect.DeepEqual(p, want) {
					h.cex("%s: row %v metric type %v point %#v want %v %#v", in, tags, mt.Descriptor.Type, p, ty, want)
				}
				if st := row.Data.StartTime(); !got.StartTime.Equal(st) {
					h.cex("%s: row %v start %v want %v", in, tags, got.StartTime, st)
				}
			}
		}
		h.guard(fmt.Sprint("view ", agg.Type, " of ", m.Name(), " recordings ", log), func() {
			for k, n := 0, 1+h.Intn(6); k < n; k++ {
				rec(k)
			}
			h.count(agg.Type, m.Name(), bounds, log)
			rows := vi.collectedRows()
			now := start.Add(time.Hour)
			mt := viewToMetric(vi, nil, now)
			snap := map[string]*ref{}
			for k, r := range refs {
				c := *r
				snap[k] = &c
			}
			if mt == nil {
				h.cex("no metric for %v", log)
				return
			}
			check(rows, mt, now, snap, "at collection")
			for k, n := 10, 10+1+h.Intn(6); k < n; k++ {
				rec(k)
			}
			if !h.failed {
				check(rows, mt, now, snap, "after later recordings")
			}
			if !h.failed {
				check(vi.collectedRows(), nil, now, refs, "second collection")
			}
		})
	}
}
