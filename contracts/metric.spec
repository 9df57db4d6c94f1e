package metric
import metricdata go.opencensus.io/metric/metricdata

// C23: every update of an entry is one atomic step on its cell, computed from the value the
// cell had at that very step; nothing else writes the cell.
atomic metric.Float64Entry.val
atomic metric.Float64CumulativeEntry.val
atomic metric.Int64GaugeEntry.val
atomic metric.Int64CumulativeEntry.val

def wrap64(x int) = (x + 9223372036854775808) % 18446744073709551616 - 9223372036854775808
def faddbits(b int, v float64) = f64bits(f64frombits(b) + v)

func (*metric.Float64Entry).Set(e, val) ()
  props C23
  requires [nonnil] e != nil
  ensures [once] commits(e.val) == old(commits(e.val)) + 1
  ensures [stored] cafter(e.val) == f64bits(val) && e.val == f64bits(val)
  modifies e.val
func (*metric.Float64Entry).Add(e, val) ()
  props C23
  requires [nonnil] e != nil
  ensures [once] commits(e.val) == old(commits(e.val)) + 1
  ensures [sum] cafter(e.val) == faddbits(cbefore(e.val), val)
  loop [s_ bool] s_ ==> commits(e.val) == old(commits(e.val)) + 1 && cafter(e.val) == faddbits(cbefore(e.val), val)
  loop [s_ bool] !s_ ==> commits(e.val) == old(commits(e.val))
  loop [] commits(e.val) == old(commits(e.val))
  modifies e.val
func (*metric.Float64Entry).read(e, t) (r)
  props C23
  requires [nonnil] e != nil
  ensures [nowrite] commits(e.val) == old(commits(e.val))
  ensures [when] r.Time == t
  ensures [value] typeis(r.Value, float64) && (same(as(r.Value, float64), f64frombits(e.val)) || f64frombits(e.val) < 0.0 && same(as(r.Value, float64), 0.0))
  modifies e.val
func (*metric.Float64CumulativeEntry).Inc(e, val) ()
  props C23
  requires [nonnil] e != nil
  ensures [ignored] val <= 0.0 ==> commits(e.val) == old(commits(e.val))
  ensures [once] val > 0.0 ==> commits(e.val) == old(commits(e.val)) + 1
  ensures [sum] commits(e.val) != old(commits(e.val)) ==> cafter(e.val) == faddbits(cbefore(e.val), val)
  loop [s_ bool] s_ ==> commits(e.val) == old(commits(e.val)) + 1 && cafter(e.val) == faddbits(cbefore(e.val), val)
  loop [s_ bool] !s_ ==> commits(e.val) == old(commits(e.val))
  loop [] commits(e.val) == old(commits(e.val))
  modifies e.val
func (*metric.Float64CumulativeEntry).read(e, t) (r)
  props C23
  requires [nonnil] e != nil
  ensures [nowrite] commits(e.val) == old(commits(e.val))
  ensures [when] r.Time == t
  ensures [value] typeis(r.Value, float64) && (same(as(r.Value, float64), f64frombits(e.val)) || f64frombits(e.val) < 0.0 && same(as(r.Value, float64), 0.0))
  modifies e.val
func (*metric.Int64GaugeEntry).Set(e, val) ()
  props C23
  requires [nonnil] e != nil
  ensures [once] commits(e.val) == old(commits(e.val)) + 1
  ensures [stored] cafter(e.val) == val && e.val == val
  modifies e.val
func (*metric.Int64GaugeEntry).Add(e, val) ()
  props C23
  requires [nonnil] e != nil
  ensures [once] commits(e.val) == old(commits(e.val)) + 1
  ensures [sum] cafter(e.val) == wrap64(cbefore(e.val) + val)
  loop [s_ bool] s_ ==> commits(e.val) == old(commits(e.val)) + 1 && cafter(e.val) == wrap64(cbefore(e.val) + val)
  loop [s_ bool] !s_ ==> commits(e.val) == old(commits(e.val))
  loop [] commits(e.val) == old(commits(e.val))
  modifies e.val
func (*metric.Int64GaugeEntry).read(e, t) (r)
  props C23
  requires [nonnil] e != nil
  ensures [nowrite] commits(e.val) == old(commits(e.val))
  ensures [when] r.Time == t
  ensures [value] typeis(r.Value, int64) && as(r.Value, int64) == ite(e.val < 0, 0, e.val)
  modifies e.val
func (*metric.Int64CumulativeEntry).Inc(e, val) ()
  props C23
  requires [nonnil] e != nil
  ensures [ignored] val <= 0 ==> commits(e.val) == old(commits(e.val))
  ensures [once] val > 0 ==> commits(e.val) == old(commits(e.val)) + 1
  ensures [sum] val > 0 ==> cafter(e.val) == wrap64(cbefore(e.val) + val)
  ensures [grows] val > 0 && cbefore(e.val) + val <= 9223372036854775807 ==> cafter(e.val) > cbefore(e.val)
  loop [s_ bool] s_ ==> commits(e.val) == old(commits(e.val)) + 1 && cafter(e.val) == wrap64(cbefore(e.val) + val)
  loop [s_ bool] !s_ ==> commits(e.val) == old(commits(e.val))
  loop [] commits(e.val) == old(commits(e.val))
  modifies e.val
func (*metric.Int64CumulativeEntry).read(e, t) (r)
  props C23
  requires [nonnil] e != nil
  ensures [nowrite] commits(e.val) == old(commits(e.val))
  ensures [when] r.Time == t
  ensures [value] typeis(r.Value, int64) && as(r.Value, int64) == ite(e.val < 0, 0, e.val)
  modifies e.val

// C22: the key of an entry is a sequence of records, one per label value; what a record holds
// is written by encodeLabelVals and read by decodeLabelVals (both assumed here; the harness
// compares them on sampled values)
fun lpos(s string, i int) int
fun lpresent(s string, i int) bool
fun ltext(s string, i int) string
axiom lkeyUnique : forall s string, t string, n int { lpos(s, n), lpos(t, n) } :: lpos(s, n) == len(s) && lpos(t, n) == len(t) && (forall j int { ltext(s, j) } { ltext(t, j) } :: 0 <= j < n ==> lpresent(s, j) == lpresent(t, j) && ltext(s, j) == ltext(t, j)) ==> s == t
def recIs(s string, i int, present bool, val string) = lpresent(s, i) == present && ltext(s, i) == ite(present, val, "")
def lval(bm *baseMetric, lv []metricdata.LabelValue, i int) = ite(i < len(bm.constLabelValues), bm.constLabelValues[i], lv[i-len(bm.constLabelValues)])
def isKey(k string, bm *baseMetric, lv []metricdata.LabelValue) = lpos(k, len(bm.keys)) == len(k) && (forall j int { ltext(k, j) } :: 0 <= j < len(bm.constLabelValues) ==> recIs(k, j, bm.constLabelValues[j].Present, bm.constLabelValues[j].Value)) && (forall j int { lv[j] } :: 0 <= j < len(lv) ==> recIs(k, len(bm.constLabelValues)+j, lv[j].Present, lv[j].Value))

func (*metric.baseMetric).encodeLabelVals(bm, labelVals) (r)
  props C22
  trusted
  ensures [whole] lpos(r, len(labelVals)) == len(r)
  ensures [records] forall j int { ltext(r, j) } { labelVals[j] } :: 0 <= j < len(labelVals) ==> recIs(r, j, labelVals[j].Present, labelVals[j].Value)
func (*metric.baseMetric).decodeLabelVals(bm, s) (r)
  props C22
  trusted
  requires [nonnil] bm != nil
  ensures [count] len(r) == len(bm.keys)
  ensures [values] lpos(s, len(bm.keys)) == len(s) ==> forall j int { r[j] } :: 0 <= j < len(r) ==> r[j].Present == lpresent(s, j) && r[j].Value == ltext(s, j)
func (*metric.Float64Gauge).GetEntry(g, labelVals) (e, err)
  props C22
  requires [nonnil] g != nil
  requires [entries] forall k string { smget(g.bm.vals, k) } :: smhas(g.bm.vals, k) ==> typeis(smget(g.bm.vals, k), *Float64Entry)
  let n = len(g.bm.constLabelValues) + len(labelVals)
  // an entry another goroutine put there meanwhile is kept: no blind Store or Delete
  ensures [keep] commits(g.bm.vals) == old(commits(g.bm.vals))
  ensures [count] n != len(g.bm.keys) ==> err != nil && e == nil && (forall k string { smhas(g.bm.vals, k) } :: smhas(g.bm.vals, k) == old(smhas(g.bm.vals, k)))
  ensures [ok] n == len(g.bm.keys) ==> err == nil
  ensures [found] n == len(g.bm.keys) ==> exists k string { lpos(k, n) } :: isKey(k, &g.bm, labelVals) && smhas(g.bm.vals, k) && as(smget(g.bm.vals, k), *Float64Entry) == e
  ensures [same] n == len(g.bm.keys) ==> forall k string { smget(g.bm.vals, k) } :: old(smhas(g.bm.vals, k)) && isKey(k, &g.bm, labelVals) ==> e == old(as(smget(g.bm.vals, k), *Float64Entry))
  ensures [different] n == len(g.bm.keys) && (forall k string { smhas(g.bm.vals, k) } :: isKey(k, &g.bm, labelVals) ==> !old(smhas(g.bm.vals, k))) ==> fresh(e)
  ensures [others] forall k string { smget(g.bm.vals, k) } :: old(smhas(g.bm.vals, k)) ==> smhas(g.bm.vals, k) && smget(g.bm.vals, k) == old(smget(g.bm.vals, k))
  ensures [noextra] forall k string { smhas(g.bm.vals, k) } :: smhas(g.bm.vals, k) ==> old(smhas(g.bm.vals, k)) || isKey(k, &g.bm, labelVals)
  ensures [entries] forall k string { smget(g.bm.vals, k) } :: smhas(g.bm.vals, k) ==> typeis(smget(g.bm.vals, k), *Float64Entry)
  modifies syncmap(g.bm.vals)
func (*metric.Int64Gauge).GetEntry(g, labelVals) (e, err)
  props C22
  requires [nonnil] g != nil
  requires [entries] forall k string { smget(g.bm.vals, k) } :: smhas(g.bm.vals, k) ==> typeis(smget(g.bm.vals, k), *Int64GaugeEntry)
  let n = len(g.bm.constLabelValues) + len(labelVals)
  // an entry another goroutine put there meanwhile is kept: no blind Store or Delete
  ensures [keep] commits(g.bm.vals) == old(commits(g.bm.vals))
  ensures [count] n != len(g.bm.keys) ==> err != nil && e == nil && (forall k string { smhas(g.bm.vals, k) } :: smhas(g.bm.vals, k) == old(smhas(g.bm.vals, k)))
  ensures [ok] n == len(g.bm.keys) ==> err == nil
  ensures [found] n == len(g.bm.keys) ==> exists k string { lpos(k, n) } :: isKey(k, &g.bm, labelVals) && smhas(g.bm.vals, k) && as(smget(g.bm.vals, k), *Int64GaugeEntry) == e
  ensures [same] n == len(g.bm.keys) ==> forall k string { smget(g.bm.vals, k) } :: old(smhas(g.bm.vals, k)) && isKey(k, &g.bm, labelVals) ==> e == old(as(smget(g.bm.vals, k), *Int64GaugeEntry))
  ensures [different] n == len(g.bm.keys) && (forall k string { smhas(g.bm.vals, k) } :: isKey(k, &g.bm, labelVals) ==> !old(smhas(g.bm.vals, k))) ==> fresh(e)
  ensures [others] forall k string { smget(g.bm.vals, k) } :: old(smhas(g.bm.vals, k)) ==> smhas(g.bm.vals, k) && smget(g.bm.vals, k) == old(smget(g.bm.vals, k))
  ensures [noextra] forall k string { smhas(g.bm.vals, k) } :: smhas(g.bm.vals, k) ==> old(smhas(g.bm.vals, k)) || isKey(k, &g.bm, labelVals)
  ensures [entries] forall k string { smget(g.bm.vals, k) } :: smhas(g.bm.vals, k) ==> typeis(smget(g.bm.vals, k), *Int64GaugeEntry)
  modifies syncmap(g.bm.vals)
func (*metric.Float64Cumulative).GetEntry(g, labelVals) (e, err)
  props C22
  requires [nonnil] g != nil
  requires [entries] forall k string { smget(g.bm.vals, k) } :: smhas(g.bm.vals, k) ==> typeis(smget(g.bm.vals, k), *Float64CumulativeEntry)
  let n = len(g.bm.constLabelValues) + len(labelVals)
  // an entry another goroutine put there meanwhile is kept: no blind Store or Delete
  ensures [keep] commits(g.bm.vals) == old(commits(g.bm.vals))
  ensures [count] n != len(g.bm.keys) ==> err != nil && e == nil && (forall k string { smhas(g.bm.vals, k) } :: smhas(g.bm.vals, k) == old(smhas(g.bm.vals, k)))
  ensures [ok] n == len(g.bm.keys) ==> err == nil
  ensures [found] n == len(g.bm.keys) ==> exists k string { lpos(k, n) } :: isKey(k, &g.bm, labelVals) && smhas(g.bm.vals, k) && as(smget(g.bm.vals, k), *Float64CumulativeEntry) == e
  ensures [same] n == len(g.bm.keys) ==> forall k string { smget(g.bm.vals, k) } :: old(smhas(g.bm.vals, k)) && isKey(k, &g.bm, labelVals) ==> e == old(as(smget(g.bm.vals, k), *Float64CumulativeEntry))
  ensures [different] n == len(g.bm.keys) && (forall k string { smhas(g.bm.vals, k) } :: isKey(k, &g.bm, labelVals) ==> !old(smhas(g.bm.vals, k))) ==> fresh(e)
  ensures [others] forall k string { smget(g.bm.vals, k) } :: old(smhas(g.bm.vals, k)) ==> smhas(g.bm.vals, k) && smget(g.bm.vals, k) == old(smget(g.bm.vals, k))
  ensures [noextra] forall k string { smhas(g.bm.vals, k) } :: smhas(g.bm.vals, k) ==> old(smhas(g.bm.vals, k)) || isKey(k, &g.bm, labelVals)
  ensures [entries] forall k string { smget(g.bm.vals, k) } :: smhas(g.bm.vals, k) ==> typeis(smget(g.bm.vals, k), *Float64CumulativeEntry)
  modifies syncmap(g.bm.vals)
func (*metric.Int64Cumulative).GetEntry(g, labelVals) (e, err)
  props C22
  requires [nonnil] g != nil
  requires [entries] forall k string { smget(g.bm.vals, k) } :: smhas(g.bm.vals, k) ==> typeis(smget(g.bm.vals, k), *Int64CumulativeEntry)
  let n = len(g.bm.constLabelValues) + len(labelVals)
  // an entry another goroutine put there meanwhile is kept: no blind Store or Delete
  ensures [keep] commits(g.bm.vals) == old(commits(g.bm.vals))
  ensures [count] n != len(g.bm.keys) ==> err != nil && e == nil && (forall k string { smhas(g.bm.vals, k) } :: smhas(g.bm.vals, k) == old(smhas(g.bm.vals, k)))
  ensures [ok] n == len(g.bm.keys) ==> err == nil
  ensures [found] n == len(g.bm.keys) ==> exists k string { lpos(k, n) } :: isKey(k, &g.bm, labelVals) && smhas(g.bm.vals, k) && as(smget(g.bm.vals, k), *Int64CumulativeEntry) == e
  ensures [same] n == len(g.bm.keys) ==> forall k string { smget(g.bm.vals, k) } :: old(smhas(g.bm.vals, k)) && isKey(k, &g.bm, labelVals) ==> e == old(as(smget(g.bm.vals, k), *Int64CumulativeEntry))
  ensures [different] n == len(g.bm.keys) && (forall k string { smhas(g.bm.vals, k) } :: isKey(k, &g.bm, labelVals) ==> !old(smhas(g.bm.vals, k))) ==> fresh(e)
  ensures [others] forall k string { smget(g.bm.vals, k) } :: old(smhas(g.bm.vals, k)) ==> smhas(g.bm.vals, k) && smget(g.bm.vals, k) == old(smget(g.bm.vals, k))
  ensures [noextra] forall k string { smhas(g.bm.vals, k) } :: smhas(g.bm.vals, k) ==> old(smhas(g.bm.vals, k)) || isKey(k, &g.bm, labelVals)
  ensures [entries] forall k string { smget(g.bm.vals, k) } :: smhas(g.bm.vals, k) ==> typeis(smget(g.bm.vals, k), *Int64CumulativeEntry)
  modifies syncmap(g.bm.vals)
func (*metric.Float64DerivedGauge).UpsertEntry(g, fn, labelVals) (err)
  props C22
  requires [nonnil] g != nil
  let n = len(g.bm.constLabelValues) + len(labelVals)
  ensures [rejected] (err != nil) == (fn == nil || n != len(g.bm.keys))
  ensures [unchanged] err != nil ==> forall k string { smget(g.bm.vals, k) } :: smhas(g.bm.vals, k) == old(smhas(g.bm.vals, k)) && smget(g.bm.vals, k) == old(smget(g.bm.vals, k))
  ensures [stored] err == nil ==> exists k string { lpos(k, n) } :: isKey(k, &g.bm, labelVals) && smhas(g.bm.vals, k) && typeis(smget(g.bm.vals, k), *float64DerivedGaugeEntry) && as(smget(g.bm.vals, k), *float64DerivedGaugeEntry).fn == fn
  ensures [others] forall k string { smget(g.bm.vals, k) } :: !isKey(k, &g.bm, labelVals) ==> smhas(g.bm.vals, k) == old(smhas(g.bm.vals, k)) && smget(g.bm.vals, k) == old(smget(g.bm.vals, k))
  modifies syncmap(g.bm.vals)
func (*metric.Int64DerivedGauge).UpsertEntry(g, fn, labelVals) (err)
  props C22
  requires [nonnil] g != nil
  let n = len(g.bm.constLabelValues) + len(labelVals)
  ensures [rejected] (err != nil) == (fn == nil || n != len(g.bm.keys))
  ensures [unchanged] err != nil ==> forall k string { smget(g.bm.vals, k) } :: smhas(g.bm.vals, k) == old(smhas(g.bm.vals, k)) && smget(g.bm.vals, k) == old(smget(g.bm.vals, k))
  ensures [stored] err == nil ==> exists k string { lpos(k, n) } :: isKey(k, &g.bm, labelVals) && smhas(g.bm.vals, k) && typeis(smget(g.bm.vals, k), *int64DerivedGaugeEntry) && as(smget(g.bm.vals, k), *int64DerivedGaugeEntry).fn == fn
  ensures [others] forall k string { smget(g.bm.vals, k) } :: !isKey(k, &g.bm, labelVals) ==> smhas(g.bm.vals, k) == old(smhas(g.bm.vals, k)) && smget(g.bm.vals, k) == old(smget(g.bm.vals, k))
  modifies syncmap(g.bm.vals)
func (*metric.Float64DerivedCumulative).UpsertEntry(g, fn, labelVals) (err)
  props C22
  requires [nonnil] g != nil
  let n = len(g.bm.constLabelValues) + len(labelVals)
  ensures [rejected] (err != nil) == (fn == nil || n != len(g.bm.keys))
  ensures [unchanged] err != nil ==> forall k string { smget(g.bm.vals, k) } :: smhas(g.bm.vals, k) == old(smhas(g.bm.vals, k)) && smget(g.bm.vals, k) == old(smget(g.bm.vals, k))
  ensures [stored] err == nil ==> exists k string { lpos(k, n) } :: isKey(k, &g.bm, labelVals) && smhas(g.bm.vals, k) && typeis(smget(g.bm.vals, k), *float64DerivedCumulativeEntry) && as(smget(g.bm.vals, k), *float64DerivedCumulativeEntry).fn == fn
  ensures [others] forall k string { smget(g.bm.vals, k) } :: !isKey(k, &g.bm, labelVals) ==> smhas(g.bm.vals, k) == old(smhas(g.bm.vals, k)) && smget(g.bm.vals, k) == old(smget(g.bm.vals, k))
  modifies syncmap(g.bm.vals)
func (*metric.Int64DerivedCumulative).UpsertEntry(g, fn, labelVals) (err)
  props C22
  requires [nonnil] g != nil
  let n = len(g.bm.constLabelValues) + len(labelVals)
  ensures [rejected] (err != nil) == (fn == nil || n != len(g.bm.keys))
  ensures [unchanged] err != nil ==> forall k string { smget(g.bm.vals, k) } :: smhas(g.bm.vals, k) == old(smhas(g.bm.vals, k)) && smget(g.bm.vals, k) == old(smget(g.bm.vals, k))
  ensures [stored] err == nil ==> exists k string { lpos(k, n) } :: isKey(k, &g.bm, labelVals) && smhas(g.bm.vals, k) && typeis(smget(g.bm.vals, k), *int64DerivedCumulativeEntry) && as(smget(g.bm.vals, k), *int64DerivedCumulativeEntry).fn == fn
  ensures [others] forall k string { smget(g.bm.vals, k) } :: !isKey(k, &g.bm, labelVals) ==> smhas(g.bm.vals, k) == old(smhas(g.bm.vals, k)) && smget(g.bm.vals, k) == old(smget(g.bm.vals, k))
  modifies syncmap(g.bm.vals)

// C24: MoX are what the last option applied left in the options, MoN counts applications
ghost MoDesc int string
ghost MoUnit int metricdata.Unit
ghost MoConst int map[metricdata.LabelKey]metricdata.LabelValue
ghost MoKeys int []metricdata.LabelKey
ghost MoN int int
iface metric.Options(f, mo) ()
  requires [opts] mo != nil
  ensures [left] mo.desc == MoDesc(0) && mo.unit == MoUnit(0) && mo.labelkeys == MoKeys(0) && mo.constLabels == MoConst(0) && MoN(0) == old(MoN(0)) + 1
  ensures [made] mo.labelkeys == nil || allocated(mo.labelkeys)
  modifies mo.desc, mo.unit, mo.labelkeys, mo.constLabels, ghost(MoDesc, 0), ghost(MoUnit, 0), ghost(MoKeys, 0), ghost(MoConst, 0), ghost(MoN, 0)
func metric.WithDescription$1(mo, desc) ()
  props C24
  requires [opts] mo != nil
  ensures [set] mo.desc == *desc
  modifies mo.desc
func metric.WithUnit$1(mo, unit) ()
  props C24
  requires [opts] mo != nil
  ensures [set] mo.unit == *unit
  modifies mo.unit
func metric.WithConstLabel$1(mo, constLabels) ()
  props C24
  requires [opts] mo != nil
  ensures [set] mo.constLabels == *constLabels
  modifies mo.constLabels
func metric.WithLabelKeysAndDescription$1(mo, labelKeys) ()
  props C24
  requires [opts] mo != nil
  ensures [set] mo.labelkeys == *labelKeys
  modifies mo.labelkeys
func metric.WithLabelKeys$1(mo, keys) ()
  props C24
  requires [opts] mo != nil
  ensures [count] len(mo.labelkeys) == len(*keys)
  ensures [set] forall i int { mo.labelkeys[i] } :: 0 <= i < len(mo.labelkeys) ==> mo.labelkeys[i].Key == (*keys)[i]
  loop [l_ []metricdata.LabelKey, i_ int] len(l_) == i_ + 1 && fresh(l_)
  loop [l_ []metricdata.LabelKey, i_ int] forall j int { l_[j] } :: 0 <= j <= i_ ==> l_[j].Key == (*keys)[j]
  modifies mo.labelkeys
func metric.createMetricOption(mos) (o)
  props C24
  requires [options] forall i int { mos[i] } :: 0 <= i < len(mos) ==> mos[i] != nil
  ensures [each] MoN(0) == old(MoN(0)) + len(mos)
  ensures [none] len(mos) == 0 ==> *o == zero(metricOptions)
  ensures [left] len(mos) > 0 ==> o.desc == MoDesc(0) && o.unit == MoUnit(0) && o.labelkeys == MoKeys(0) && o.constLabels == MoConst(0)
  ensures [fresh] o != nil && fresh(o)
  ensures [made] o.labelkeys == nil || allocated(o.labelkeys)
  loop [o *metricOptions] o.labelkeys == nil || allocated(o.labelkeys)
  loop [i_ int] MoN(0) == old(MoN(0)) + i_ + 1
  loop [o *metricOptions, i_ int] ite(i_ >= 0, o.desc == MoDesc(0) && o.unit == MoUnit(0) && o.labelkeys == MoKeys(0) && o.constLabels == MoConst(0), *o == zero(metricOptions))
  modifies ghost(MoDesc, 0), ghost(MoUnit, 0), ghost(MoKeys, 0), ghost(MoConst, 0), ghost(MoN, 0)
def mtype(t int) = ite(t == gaugeInt64 || t == derivedGaugeInt64, metricdata.TypeGaugeInt64, ite(t == gaugeFloat64 || t == derivedGaugeFloat64, metricdata.TypeGaugeFloat64, ite(t == cumulativeInt64 || t == derivedCumulativeInt64, metricdata.TypeCumulativeInt64, metricdata.TypeCumulativeFloat64)))
func metric.bmTypeToMetricType(bm) (r)
  props C24
  requires [nonnil] bm != nil && 0 <= bm.bmType <= 7
  ensures [type] r == mtype(bm.bmType)
func (*metric.Registry).initBaseMetric(r, bm, name, mos) (res, err)
  props C24
  requires [nonnil] r != nil && bm != nil && 0 <= bm.bmType <= 7
  requires [options] forall i int { mos[i] } :: 0 <= i < len(mos) ==> mos[i] != nil
  requires [metrics] forall k string { smget(r.baseMetrics, k) } :: smhas(r.baseMetrics, k) ==> typeis(smget(r.baseMetrics, k), *baseMetric) && as(smget(r.baseMetrics, k), *baseMetric) != nil
  let taken = smhas(r.baseMetrics, name) && as(smget(r.baseMetrics, name), *baseMetric).bmType != bm.bmType
  ensures [refused] (err != nil) == old(taken)
  ensures [nothing] err != nil ==> res == nil && bm.desc == old(bm.desc) && bm.keys == old(bm.keys) && bm.constLabelValues == old(bm.constLabelValues) && MoN(0) == old(MoN(0))
  ensures [unchanged] forall k string { smget(r.baseMetrics, k) } :: k != name || err != nil ==> smhas(r.baseMetrics, k) == old(smhas(r.baseMetrics, k)) && smget(r.baseMetrics, k) == old(smget(r.baseMetrics, k))
  ensures [stored] err == nil ==> res == bm && smhas(r.baseMetrics, name) && as(smget(r.baseMetrics, name), *baseMetric) == bm && typeis(smget(r.baseMetrics, name), *baseMetric)
  ensures [descriptor] err == nil ==> bm.desc.Name == name && bm.desc.Type == mtype(bm.bmType) && bm.desc.LabelKeys == bm.keys && bm.desc.Description == ite(len(mos) > 0, MoDesc(0), "") && bm.desc.Unit == ite(len(mos) > 0, MoUnit(0), "")
  ensures [type] bm.bmType == old(bm.bmType)
  ensures [keycount] err == nil && len(mos) > 0 ==> len(bm.keys) == len(bm.constLabelValues) + len(MoKeys(0)) && len(bm.constLabelValues) == len(MoConst(0))
  ensures [nokeys] err == nil && len(mos) == 0 ==> len(bm.keys) == 0 && len(bm.constLabelValues) == 0
  ensures [sorted] err == nil ==> forall i int, j int { bm.keys[i], bm.keys[j] } :: 0 <= i < j < len(bm.constLabelValues) ==> !(bm.keys[j].Key < bm.keys[i].Key)
  loop [l_ []metricdata.LabelKey] len(l_) == iterN() && (l_ == nil || fresh(l_))
  loop [l_ []metricdata.LabelKey] forall i int { l_[i] } :: 0 <= i < iterN() ==> has(MoConst(0), l_[i])
  loop [v_ []metricdata.LabelValue, i_ int] len(v_) == i_ + 1 && (v_ == nil || fresh(v_))
  modifies bm.start, bm.desc, bm.keys, bm.constLabelValues, syncmap(r.baseMetrics), ghost(MoDesc, 0), ghost(MoUnit, 0), ghost(MoKeys, 0), ghost(MoConst, 0), ghost(MoN, 0)
