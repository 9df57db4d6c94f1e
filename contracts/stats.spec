package stats
import internal go.opencensus.io/stats/internal
import tag go.opencensus.io/tag
import metricdata go.opencensus.io/metric/metricdata

// C17: RcN(0) counts the calls of any recorder, RcTag/RcMs/RcAt are what the last one was given
ghost RcN int int
ghost RcTag int *tag.Map
ghost RcMs int []Measurement
ghost RcAt int map[string]interface{}
ghost RcTo int int
iface stats/internal.DefaultRecorder(f, tags, ms, at) ()
  ensures [got] RcN(0) == old(RcN(0)) + 1 && RcTag(0) == tags && typeis(ms, []Measurement) && same(RcMs(0), as(ms, []Measurement)) && RcAt(0) == at && RcTo(0) == 0
  modifies ghost(RcN, 0), ghost(RcTag, 0), ghost(RcMs, 0), ghost(RcAt, 0), ghost(RcTo, 0)
iface stats.measurementRecorder(f, tags, ms, at) ()
  ensures [got] RcN(0) == old(RcN(0)) + 1 && RcTag(0) == tags && same(RcMs(0), ms) && RcAt(0) == at && RcTo(0) == 0
  modifies ghost(RcN, 0), ghost(RcTag, 0), ghost(RcMs, 0), ghost(RcAt, 0), ghost(RcTo, 0)
iface (stats.Recorder).Record(r, tags, ms, at) ()
  ensures [got] RcN(0) == old(RcN(0)) + 1 && RcTag(0) == tags && typeis(ms, []Measurement) && same(RcMs(0), as(ms, []Measurement)) && RcAt(0) == at && RcTo(0) == ifkey(r)
  modifies ghost(RcN, 0), ghost(RcTag, 0), ghost(RcMs, 0), ghost(RcAt, 0), ghost(RcTo, 0)
def wanted(ms []Measurement) = exists i int :: 0 <= i < len(ms) && ms[i].desc.subs == 1
def msOK(ms []Measurement) = forall i int { ms[i] } :: 0 <= i < len(ms) ==> ms[i].desc != nil
func stats.Record(ctx, ms) ()
  props C17
  requires [ctx] ctx != nil
  requires [descs] msOK(ms)
  requires [recorder] typeis(internal.MeasurementRecorder, measurementRecorder) ==> as(internal.MeasurementRecorder, measurementRecorder) != nil
  let go = typeis(internal.MeasurementRecorder, measurementRecorder) && wanted(ms)
  ensures [once] RcN(0) == old(RcN(0)) + ite(go, 1, 0)
  ensures [what] go ==> same(RcMs(0), ms) && RcTag(0) == tagsOf(ctx) && RcAt(0) == nil
  loop [i_ int] forall j int { ms[j] } :: 0 <= j <= i_ ==> ms[j].desc.subs != 1
  modifies ghost(RcN, 0), ghost(RcTag, 0), ghost(RcMs, 0), ghost(RcAt, 0), ghost(RcTo, 0)

// options: RoX are what the last option applied left in the options
ghost RoAt int metricdata.Attachments
ghost RoMut int []tag.Mutator
ghost RoMs int []Measurement
ghost RoRec int Recorder
ghost RoN int int
iface stats.Options(f, ro) ()
  requires [opts] ro != nil
  ensures [left] ro.attachments == RoAt(0) && same(ro.mutators, RoMut(0)) && same(ro.measurements, RoMs(0)) && same(ro.recorder, RoRec(0)) && RoN(0) == old(RoN(0)) + 1
  ensures [made] allocated(ro.measurements) && allocated(ro.mutators)
  ensures [valid] msOK(RoMs(0)) && forall i int { RoMut(0)[i] } :: 0 <= i < len(RoMut(0)) ==> RoMut(0)[i] != nil
  modifies ro.attachments, ro.mutators, ro.measurements, ro.recorder, ghost(RoAt, 0), ghost(RoMut, 0), ghost(RoMs, 0), ghost(RoRec, 0), ghost(RoN, 0)
func stats.WithAttachments$1(ro, attachments) ()
  props C17
  requires [opts] ro != nil
  ensures [set] ro.attachments == *attachments
  modifies ro.attachments
func stats.WithTags$1(ro, mutators) ()
  props C17
  requires [opts] ro != nil
  ensures [set] same(ro.mutators, *mutators)
  modifies ro.mutators
func stats.WithMeasurements$1(ro, measurements) ()
  props C17
  requires [opts] ro != nil
  ensures [set] same(ro.measurements, *measurements)
  modifies ro.measurements
func stats.WithRecorder$1(ro, meter) ()
  props C17
  requires [opts] ro != nil
  ensures [set] same(ro.recorder, *meter)
  modifies ro.recorder
func stats.createRecordOption(ros) (o)
  props C17
  requires [options] forall i int { ros[i] } :: 0 <= i < len(ros) ==> ros[i] != nil
  ensures [new] o != nil && fresh(o)
  ensures [all] RoN(0) == old(RoN(0)) + len(ros)
  ensures [none] len(ros) == 0 ==> len(o.measurements) == 0 && o.recorder == nil && len(o.mutators) == 0
  ensures [last] len(ros) > 0 ==> o.attachments == RoAt(0) && same(o.mutators, RoMut(0)) && same(o.measurements, RoMs(0)) && same(o.recorder, RoRec(0))
  ensures [valid] msOK(o.measurements) && forall i int { o.mutators[i] } :: 0 <= i < len(o.mutators) ==> o.mutators[i] != nil
  loop [o *recordOptions, i_ int] RoN(0) == old(RoN(0)) + i_ + 1
  loop [o *recordOptions, i_ int] i_ == -1 ==> len(o.measurements) == 0 && o.recorder == nil && len(o.mutators) == 0
  loop [o *recordOptions, i_ int] i_ >= 0 ==> o.attachments == RoAt(0) && same(o.mutators, RoMut(0)) && same(o.measurements, RoMs(0)) && same(o.recorder, RoRec(0))
  loop [o *recordOptions] msOK(o.measurements)
  loop [o *recordOptions] forall i int { o.mutators[i] } :: 0 <= i < len(o.mutators) ==> o.mutators[i] != nil
  modifies ghost(RoAt, 0), ghost(RoMut, 0), ghost(RoMs, 0), ghost(RoRec, 0), ghost(RoN, 0)
func stats.RecordWithTags(ctx, mutators, ms) (err)
  props C17
  requires [ctx] ctx != nil
  requires [descs] msOK(ms)
  requires [mutators] forall i int { mutators[i] } :: 0 <= i < len(mutators) ==> mutators[i] != nil
  inlineof stats.RecordWithOptions
  inlineof stats.createRecordOption
  let n = MutN(0)
  let o = tagsOf(ctx)
  ensures [once] RcN(0) == old(RcN(0)) + ite(err == nil && wanted(ms) && internal.DefaultRecorder != nil, 1, 0)
  ensures [what] RcN(0) > old(RcN(0)) ==> same(RcMs(0), ms) && len(RcAt(0)) == 0
  ensures [plain] RcN(0) > old(RcN(0)) && len(mutators) == 0 ==> RcTag(0) == o
  ensures [order] RcN(0) > old(RcN(0)) ==> MutN(0) == n + len(mutators) && forall i int { MutLog(n+i) } :: 0 <= i < len(mutators) ==> MutLog(n+i) == mutators[i] && MutArg(n+i) == RcTag(0)
  ensures [first] RcN(0) > old(RcN(0)) && len(mutators) > 0 ==> HasB(n) == (o != nil && old(akHas(o))) && (HasB(n) ==> ValB(n) == old(akVal(o)))
  loop [q []Measurement, i_ int] forall j int { q[j] } :: 0 <= j <= i_ ==> q[j].desc.subs != 1
  anyframe
func stats.RecordWithOptions(ctx, ros) (err)
  props C17
  requires [ctx] ctx != nil
  requires [options] forall i int { ros[i] } :: 0 <= i < len(ros) ==> ros[i] != nil
  let n = MutN(0)
  let o = tagsOf(ctx)
  ensures [all] RoN(0) == old(RoN(0)) + len(ros)
  ensures [once] RcN(0) == old(RcN(0)) + ite(err == nil && len(ros) > 0 && wanted(RoMs(0)) && (internal.DefaultRecorder != nil || RoRec(0) != nil), 1, 0)
  ensures [what] RcN(0) > old(RcN(0)) ==> same(RcMs(0), RoMs(0)) && RcAt(0) == RoAt(0)
  ensures [to] RcN(0) > old(RcN(0)) && RoRec(0) != nil ==> RcTo(0) == ifkey(RoRec(0))
  ensures [plain] RcN(0) > old(RcN(0)) && len(RoMut(0)) == 0 ==> RcTag(0) == o
  ensures [order] RcN(0) > old(RcN(0)) ==> MutN(0) == n + len(RoMut(0)) && forall i int { MutLog(n+i) } :: 0 <= i < len(RoMut(0)) ==> MutLog(n+i) == RoMut(0)[i] && MutArg(n+i) == RcTag(0)
  ensures [first] RcN(0) > old(RcN(0)) && len(RoMut(0)) > 0 ==> HasB(n) == (o != nil && old(akHas(o))) && (HasB(n) ==> ValB(n) == old(akVal(o)))
  ensures [last] RcN(0) > old(RcN(0)) && len(RoMut(0)) > 0 ==> akHas(RcTag(0)) == HasA(n+len(RoMut(0))-1) && (akHas(RcTag(0)) ==> akVal(RcTag(0)) == ValA(n+len(RoMut(0))-1))
  loop [ms_ []Measurement, i_ int] forall j int { ms_[j] } :: 0 <= j <= i_ ==> ms_[j].desc.subs != 1
  loop [ms []Measurement, i_ int] forall j int { ms[j] } :: 0 <= j <= i_ ==> ms[j].desc.subs != 1
  modifies ghost(MutN), ghost(MutLog), ghost(MutArg), ghost(HasB), ghost(HasA), ghost(ValB), ghost(ValA), ghost(RcN), ghost(RcTag), ghost(RcMs), ghost(RcAt), ghost(RcTo), ghost(RoAt), ghost(RoMut), ghost(RoMs), ghost(RoRec), ghost(RoN)
func (*stats.Int64Measure).M(m, v) (r)
  props C17
  requires [nonnil] m != nil
  ensures [value] same(r.v, i2f(v)) && typeis(r.m, *Int64Measure) && as(r.m, *Int64Measure) == m && r.desc == m.desc
func (*stats.Float64Measure).M(m, v) (r)
  props C17
  requires [nonnil] m != nil
  ensures [value] same(r.v, v) && typeis(r.m, *Float64Measure) && as(r.m, *Float64Measure) == m && r.desc == m.desc
func (stats.Measurement).Value(m) (v)
  props C17
  ensures [value] same(v, m.v)
func (stats.Measurement).Measure(m) (r)
  props C17
  ensures [measure] same(r, m.m)
func stats.registerMeasureHandle(name, desc, unit) (d)
  props C17
  requires [made] measures != nil && forall k string { has(measures, k) } :: has(measures, k) ==> measures[k] != nil
  ensures [there] has(measures, name) && measures[name] == d && d != nil
  ensures [same] old(has(measures, name)) ==> d == old(measures[name]) && mapunchanged(measures)
  ensures [new] !old(has(measures, name)) ==> fresh(d) && d.name == name && d.description == desc && d.unit == unit && d.subs == 0
  ensures [others] forall k string { has(measures, k) } :: k != name ==> has(measures, k) == old(has(measures, k)) && (has(measures, k) ==> measures[k] == old(measures[k]))
  modifies mapof(measures)
def measOK() = measures != nil && forall k string { has(measures, k) } :: has(measures, k) ==> measures[k] != nil
func stats.Int64(name, description, unit) (m)
  props C17
  requires [made] measOK()
  ensures [same] m != nil && fresh(m) && has(measures, name) && m.desc == measures[name] && (old(has(measures, name)) ==> m.desc == old(measures[name]))
  modifies mapof(measures)
func stats.Float64(name, description, unit) (m)
  props C17
  requires [made] measOK()
  ensures [same] m != nil && fresh(m) && has(measures, name) && m.desc == measures[name] && (old(has(measures, name)) ==> m.desc == old(measures[name]))
  modifies mapof(measures)
func stats.init#1$1(measure) ()
  props C17
  requires [known] measOK() && has(measures, measure)
  ensures [used] measures[measure].subs == 1
  modifies measures[measure].subs
