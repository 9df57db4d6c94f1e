// C19: aggregations compute their mathematical definition; C20: copies and points
package stats/view
import time
import go.opencensus.io/metric/metricdata

func (*stats/view.CountData).addSample(a, v, att, t) ()
  props C19
  requires [nonnil] a != nil
  ensures [count] a.Value == int64(old(a.Value) + 1)
  modifies a.Value

func (*stats/view.SumData).addSample(a, v, att, t) ()
  props C19
  requires [nonnil] a != nil
  ensures [sum] same(a.Value, old(a.Value) + v)
  modifies a.Value

func (*stats/view.LastValueData).addSample(a, v, att, t) ()
  props C19
  requires [nonnil] a != nil
  ensures [last] same(a.Value, v)
  modifies a.Value

def inBucket(a *DistributionData, i int, v float64) = (i == len(a.bounds) || v < a.bounds[i]) && (forall j int :: 0 <= j < i ==> !(v < a.bounds[j]))
func (*stats/view.DistributionData).addToBucket(a, v, att, t) ()
  props C19
  requires [shape] distOK(a)
  requires [apart] arrof(a.CountPerBucket) != 0
  ensures [bucket] forall i int :: 0 <= i <= len(a.bounds) && inBucket(a, i, v) ==> a.CountPerBucket[i] == int64(old(a.CountPerBucket[i]) + 1)
  ensures [otherbuckets] forall i int :: 0 <= i <= len(a.bounds) && !inBucket(a, i, v) ==> a.CountPerBucket[i] == old(a.CountPerBucket[i])
  ensures [onebucket] exists i int :: 0 <= i <= len(a.bounds) && inBucket(a, i, v)
  ensures [exemplar] forall i int :: 0 <= i <= len(a.bounds) && inBucket(a, i, v) && len(att) > 0 ==> a.ExemplarsPerBucket[i] != nil && fresh(a.ExemplarsPerBucket[i]) && same(a.ExemplarsPerBucket[i].Value, v) && a.ExemplarsPerBucket[i].Timestamp == t && a.ExemplarsPerBucket[i].Attachments == att
  ensures [exemplars] forall i int :: 0 <= i <= len(a.bounds) && (!inBucket(a, i, v) || len(att) == 0) ==> a.ExemplarsPerBucket[i] == old(a.ExemplarsPerBucket[i])
  loop [i int] forall j int :: 0 <= j < i ==> !(v < a.bounds[j])
  modifies elems(a.CountPerBucket), elems(a.ExemplarsPerBucket)

func (*stats/view.DistributionData).addSample(a, v, att, t) ()
  props C19
  requires [shape] distOK(a)
  ensures [count] a.Count == int64(old(a.Count) + 1)
  ensures [min] same(a.Min, ite(v < old(a.Min), v, old(a.Min)))
  ensures [max] same(a.Max, ite(v > old(a.Max), v, old(a.Max)))
  ensures [mean] same(a.Mean, ite(a.Count == 1, v, old(a.Mean) + (v-old(a.Mean))/i2f(a.Count)))
  ensures [dev] same(a.SumOfSquaredDev, ite(a.Count == 1, old(a.SumOfSquaredDev), old(a.SumOfSquaredDev) + (v-old(a.Mean))*(v-a.Mean)))
  ensures [bucket] forall i int :: 0 <= i <= len(a.bounds) && inBucket(a, i, v) ==> a.CountPerBucket[i] == int64(old(a.CountPerBucket[i]) + 1)
  ensures [otherbuckets] forall i int :: 0 <= i <= len(a.bounds) && !inBucket(a, i, v) ==> a.CountPerBucket[i] == old(a.CountPerBucket[i])
  ensures [onebucket] exists i int :: 0 <= i <= len(a.bounds) && inBucket(a, i, v)
  ensures [exemplar] forall i int :: 0 <= i <= len(a.bounds) && inBucket(a, i, v) && len(att) > 0 ==> a.ExemplarsPerBucket[i] != nil && same(a.ExemplarsPerBucket[i].Value, v) && a.ExemplarsPerBucket[i].Timestamp == t && a.ExemplarsPerBucket[i].Attachments == att
  ensures [exemplars] forall i int :: 0 <= i <= len(a.bounds) && (!inBucket(a, i, v) || len(att) == 0) ==> a.ExemplarsPerBucket[i] == old(a.ExemplarsPerBucket[i])
  modifies a.Min, a.Max, a.Count, a.Mean, a.SumOfSquaredDev, elems(a.CountPerBucket), elems(a.ExemplarsPerBucket)

func stats/view.newDistributionData(agg, t) (r)
  props C19
  requires [nonnil] agg != nil && len(agg.Buckets) < 100000000
  ensures [shape] distOK(r) && fresh(r) && fresh(r.CountPerBucket) && fresh(r.ExemplarsPerBucket) && r.bounds == agg.Buckets && r.Start == t
  ensures [zero] r.Count == 0 && (forall i int :: 0 <= i <= len(r.bounds) ==> r.CountPerBucket[i] == 0 && r.ExemplarsPerBucket[i] == nil) && feq(r.SumOfSquaredDev, 0.0)
  ensures [extremes] r.Min == 1.79769313486231570814527423731704356798070e308 && r.Max == -1.79769313486231570814527423731704356798070e308

func (*stats/view.CountData).clone(a) (r)
  props C20
  requires [nonnil] a != nil
  ensures [copy] typeis(r, *CountData) && fresh(as(r, *CountData)) && as(r, *CountData).Value == a.Value && as(r, *CountData).Start == a.Start
func (*stats/view.SumData).clone(a) (r)
  props C20
  requires [nonnil] a != nil
  ensures [copy] typeis(r, *SumData) && fresh(as(r, *SumData)) && same(as(r, *SumData).Value, a.Value) && as(r, *SumData).Start == a.Start
func (*stats/view.LastValueData).clone(l) (r)
  props C20
  requires [nonnil] l != nil
  ensures [copy] typeis(r, *LastValueData) && fresh(as(r, *LastValueData)) && same(as(r, *LastValueData).Value, l.Value)
def cl(r AggregationData) = as(r, *DistributionData)
func (*stats/view.DistributionData).clone(a) (r)
  props C20
  requires [nonnil] a != nil
  ensures [fresh] typeis(r, *DistributionData) && fresh(cl(r)) && (cl(r).CountPerBucket != nil ==> fresh(cl(r).CountPerBucket)) && (cl(r).ExemplarsPerBucket != nil ==> fresh(cl(r).ExemplarsPerBucket))
  ensures [values] cl(r).Count == a.Count && same(cl(r).Min, a.Min) && same(cl(r).Max, a.Max) && same(cl(r).Mean, a.Mean) && same(cl(r).SumOfSquaredDev, a.SumOfSquaredDev) && cl(r).bounds == a.bounds && cl(r).Start == a.Start
  ensures [buckets] len(cl(r).CountPerBucket) == len(a.CountPerBucket) && (forall i int :: 0 <= i < len(a.CountPerBucket) ==> cl(r).CountPerBucket[i] == a.CountPerBucket[i])
  ensures [exemplars] len(cl(r).ExemplarsPerBucket) == len(a.ExemplarsPerBucket) && (forall i int :: 0 <= i < len(a.ExemplarsPerBucket) ==> cl(r).ExemplarsPerBucket[i] == a.ExemplarsPerBucket[i])

// points
func (*stats/view.CountData).toPoint(a, mt, t) (p)
  props C20
  requires [nonnil] a != nil
  panics mt != metricdata.TypeCumulativeInt64
  ensures [point] p.Time == t && typeis(p.Value, int64) && as(p.Value, int64) == a.Value
func (*stats/view.SumData).toPoint(a, mt, t) (p)
  props C20
  requires [nonnil] a != nil
  panics mt != metricdata.TypeCumulativeInt64 && mt != metricdata.TypeCumulativeFloat64
  ensures [int] mt == metricdata.TypeCumulativeInt64 ==> p.Time == t && typeis(p.Value, int64) && as(p.Value, int64) == int64(a.Value)
  ensures [float] mt == metricdata.TypeCumulativeFloat64 ==> p.Time == t && typeis(p.Value, float64) && same(as(p.Value, float64), a.Value)
func (*stats/view.LastValueData).toPoint(a, mt, t) (p)
  props C20
  requires [nonnil] a != nil
  panics mt != metricdata.TypeGaugeInt64 && mt != metricdata.TypeGaugeFloat64
  ensures [int] mt == metricdata.TypeGaugeInt64 ==> p.Time == t && typeis(p.Value, int64) && as(p.Value, int64) == int64(a.Value)
  ensures [float] mt == metricdata.TypeGaugeFloat64 ==> p.Time == t && typeis(p.Value, float64) && same(as(p.Value, float64), a.Value)
def dp(p metricdata.Point) = as(p.Value, *metricdata.Distribution)
func (*stats/view.DistributionData).toPoint(a, mt, t) (p)
  props C20
  requires [shape] distOK(a)
  panics mt != metricdata.TypeCumulativeDistribution
  ensures [point] p.Time == t && typeis(p.Value, *metricdata.Distribution) && fresh(dp(p)) && dp(p).BucketOptions != nil && fresh(dp(p).BucketOptions) && fresh(dp(p).Buckets)
  ensures [values] dp(p).Count == a.Count && same(dp(p).Sum, a.Mean * i2f(a.Count)) && same(dp(p).SumOfSquaredDeviation, a.SumOfSquaredDev) && dp(p).BucketOptions.Bounds == a.bounds
  ensures [buckets] len(dp(p).Buckets) == len(a.CountPerBucket) && (forall i int :: 0 <= i < len(a.CountPerBucket) ==> dp(p).Buckets[i].Count == a.CountPerBucket[i] && dp(p).Buckets[i].Exemplar == a.ExemplarsPerBucket[i])
  loop [i int, buckets []metricdata.Bucket] len(buckets) == i && 0 <= i <= len(a.CountPerBucket) && fresh(buckets)
  loop [i int, buckets []metricdata.Bucket] forall j int :: 0 <= j < i ==> buckets[j].Count == a.CountPerBucket[j] && buckets[j].Exemplar == a.ExemplarsPerBucket[j]

import go.opencensus.io/stats
func stats/view.getType(v) (r)
  props C20
  requires [nonnil] v != nil && v.Aggregation != nil && v.Measure != nil
  let isint = typeis(v.Measure, *stats.Int64Measure)
  let isfloat = typeis(v.Measure, *stats.Float64Measure)
  let at = v.Aggregation.Type
  panics !(AggTypeCount <= at <= AggTypeLastValue) || (at != AggTypeDistribution && !isint && !isfloat)
  ensures [dist] at == AggTypeDistribution ==> r == metricdata.TypeCumulativeDistribution
  ensures [count] at == AggTypeCount ==> r == metricdata.TypeCumulativeInt64
  ensures [sum] at == AggTypeSum ==> r == ite(isint, metricdata.TypeCumulativeInt64, metricdata.TypeCumulativeFloat64)
  ensures [last] at == AggTypeLastValue ==> r == ite(isint, metricdata.TypeGaugeInt64, metricdata.TypeGaugeFloat64)

func stats/view.toLabelValues(row, keys) (r)
  props C20
  requires [nonnil] row != nil
  ensures [len] len(r) == len(keys) && fresh(r)
  ensures [present] forall i int, j int { r[i], row.Tags[j] } :: 0 <= i < len(keys) && 0 <= j < len(row.Tags) && row.Tags[j].Key.name == keys[i].Key && (forall k int :: j < k < len(row.Tags) ==> row.Tags[k].Key.name != keys[i].Key) ==>
     r[i].Present && r[i].Value == row.Tags[j].Value
  ensures [absent] forall i int :: 0 <= i < len(keys) && (forall j int :: 0 <= j < len(row.Tags) ==> row.Tags[j].Key.name != keys[i].Key) ==> !r[i].Present && r[i].Value == ""
  loop [i int, tagMap map[string]string] forall k string { has(tagMap, k) } :: has(tagMap, k) ==> exists j int :: 0 <= j < i && row.Tags[j].Key.name == k
  loop [i int, tagMap map[string]string] forall j int :: 0 <= j < i && (forall k int :: j < k < i ==> row.Tags[k].Key.name != row.Tags[j].Key.name) ==> has(tagMap, row.Tags[j].Key.name) && tagMap[row.Tags[j].Key.name] == row.Tags[j].Value
  loop [i int, l []metricdata.LabelValue] len(l) == i && fresh(l)
  loop [i int, l []metricdata.LabelValue, m map[string]string] forall j int :: 0 <= j < i ==> l[j].Present == has(m, keys[j].Key) && l[j].Value == ite(has(m, keys[j].Key), m[keys[j].Key], "")

def sameData(x AggregationData, y AggregationData) = dyntag(x) == dyntag(y) &&
  (typeis(y, *CountData) ==> as(x, *CountData).Value == as(y, *CountData).Value && as(x, *CountData).Start == as(y, *CountData).Start) &&
  (typeis(y, *SumData) ==> same(as(x, *SumData).Value, as(y, *SumData).Value) && as(x, *SumData).Start == as(y, *SumData).Start) &&
  (typeis(y, *LastValueData) ==> same(as(x, *LastValueData).Value, as(y, *LastValueData).Value)) &&
  (typeis(y, *DistributionData) ==> cl(x).Count == cl(y).Count && same(cl(x).Mean, cl(y).Mean) && same(cl(x).SumOfSquaredDev, cl(y).SumOfSquaredDev))
func (*stats/view.collector).collectedRows(c, keys) (rows)
  hide dposS cntS dposMono dposCat srcDef
  props C18 C20
  requires [nonnil] c != nil
  requires [data] forall s string { has(c.signatures, s) } :: has(c.signatures, s) ==> dataOK(c.signatures[s]) && dynval(c.signatures[s]) != 0
  requires [wellformed] forall s string { has(c.signatures, s) } :: has(c.signatures, s) ==> dpos(s, len(keys)) <= len(s)
  ensures [len] len(rows) == len(c.signatures)
  ensures [copies] forall i int { rows[i] } :: 0 <= i < len(rows) ==> rows[i] != nil && fresh(rows[i]) && dynval(rows[i].Data) != 0 && fresh(rows[i].Data)
  ensures [faithful] forall i int { rows[i] } :: 0 <= i < len(rows) ==> exists s string { has(c.signatures, s) } :: has(c.signatures, s) && sameData(rows[i].Data, c.signatures[s]) && len(rows[i].Tags) == cntv(s, len(keys))
  loop [rows []*Row] fresh(rows) && len(rows) == iterN()
  loop [rows []*Row] forall i int { rows[i] } :: 0 <= i < len(rows) ==> rows[i] != nil && fresh(rows[i]) && dynval(rows[i].Data) != 0 && fresh(rows[i].Data)
  loop [rows []*Row] forall i int { rows[i] } :: 0 <= i < len(rows) ==> exists s string { has(c.signatures, s) } :: has(c.signatures, s) && sameData(rows[i].Data, c.signatures[s]) && len(rows[i].Tags) == cntv(s, len(keys))
