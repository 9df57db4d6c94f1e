package view

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"testing"
	"time"
)

func TestVerifC19(t *testing.T) {
	h := newVH(t, "C19")
	defer h.done()
	for h.more() {
		n := h.Intn(5)
		set := map[float64]bool{}
		for i := 0; i < n; i++ {
			set[math.Abs(h.float())+1e-3] = true
		}
		var bounds []float64
		for b := range set {
			bounds = append(bounds, b)
		}
		sort.Float64s(bounds)
		start := time.Unix(int64(h.Intn(1000)), 0)
		agg := Distribution(bounds...)
		d, _ := agg.newData(start).(*DistributionData)
		cn, _ := Count().newData(start).(*CountData)
		sm, _ := Sum().newData(start).(*SumData)
		lv, _ := LastValue().newData(start).(*LastValueData)
		if d == nil || cn == nil || sm == nil || lv == nil {
			h.cex("an aggregation makes data of another type: %T %T %T %T", agg.newData(start), Count().newData(start), Sum().newData(start), LastValue().newData(start))
			return
		}
		var xs []float64
		want := make([]int64, len(bounds)+1)
		ex := make([]interface{}, len(bounds)+1)
		var mean, m2, sum float64
		mn, mx := math.Inf(1), math.Inf(-1)
		for k := 1 + h.Intn(8); k > 0 && !h.failed; k-- {
			x := h.float()
			if len(bounds) > 0 && h.Intn(3) == 0 {
				x = bounds[h.Intn(len(bounds))]
			}
			var att map[string]interface{}
			switch h.Intn(3) {
			case 0:
				att = map[string]interface{}{"k": k}
			case 1:
				att = map[string]interface{}{}
			}
			xs = append(xs, x)
			in := fmt.Sprintf("bounds %v samples %v (last with attachments %v)", bounds, xs, att)
			h.count(in)
			ts := start.Add(time.Duration(k) * time.Second)
			h.guard(in, func() {
				d.addSample(x, att, ts)
				cn.addSample(x, att, ts)
				sm.addSample(x, att, ts)
				lv.addSample(x, att, ts)
			})
			sum += x
			mn, mx = math.Min(mn, x), math.Max(mx, x)
			if len(xs) == 1 {
				mean = x
			} else {
				om := mean
				mean = mean + (x-mean)/float64(len(xs))
				m2 = m2 + (x-om)*(x-mean)
			}
			b := len(bounds)
			for i, y := range bounds {
				if x < y {
					b = i
					break
				}
			}
			want[b]++
			if len(att) > 0 {
				ex[b] = []interface{}{x, ts, att}
			}
			if cn.Value != int64(len(xs)) || sm.Value != sum || lv.Value != x {
				h.cex("%s: count %v sum %v last %v", in, cn.Value, sm.Value, lv.Value)
			}
			if d.Count != int64(len(xs)) || d.Min != mn || d.Max != mx || d.Mean != mean || d.SumOfSquaredDev != m2 {
				h.cex("%s: distribution %+v want count %d min %v max %v mean %v m2 %v", in, *d, len(xs), mn, mx, mean, m2)
			}
			if !reflect.DeepEqual(d.CountPerBucket, want) || len(d.ExemplarsPerBucket) != len(want) {
				h.cex("%s: buckets %v (exemplar slots %d) want %v", in, d.CountPerBucket, len(d.ExemplarsPerBucket), want)
				return
			}
			for i := range ex {
				e := d.ExemplarsPerBucket[i]
				switch {
				case (e == nil) != (ex[i] == nil):
					h.cex("%s: exemplar of bucket %d is %v want %v", in, i, e, ex[i])
				case e != nil && !reflect.DeepEqual([]interface{}{e.Value, e.Timestamp, map[string]interface{}(e.Attachments)}, ex[i]):
					h.cex("%s: exemplar of bucket %d is %+v want %v", in, i, *e, ex[i])
				}
			}
			if !d.Start.Equal(start) || !cn.Start.Equal(start) || !sm.Start.Equal(start) {
				h.cex("%s: start time changed", in)
			}
		}
	}
}
