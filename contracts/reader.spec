package metric/metricexport
// C25: reading is once per producer, in some order; the export is what was read.
// PrN(p) counts the reads of producer p; RdE(j) is the j-th metric read from any producer so far, RdN(0) their number;
// ExN(e) counts the exports of exporter e, ExA(e) is what it was given last
ghost PrN metricproducer.Producer int
ghost RdN int int
ghost RdE int *metricdata.Metric
ghost ExN Exporter int
ghost ExA Exporter []*metricdata.Metric
iface (metric/metricproducer.Producer).Read(p) (r)
  ensures [once] PrN(p) == old(PrN(p)) + 1
  ensures [log] RdN(0) == old(RdN(0)) + len(r)
  ensures [data] forall j int { RdE(j) } :: RdE(j) == ite(old(RdN(0)) <= j && j < RdN(0), r[j-old(RdN(0))], old(RdE(j)))
  modifies ghost(PrN, p), ghost(RdN, 0), ghost(RdE)
iface (metric/metricexport.Exporter).ExportMetrics(e, ctx, data) (err)
  ensures [once] ExN(e) == old(ExN(e)) + 1 && ExA(e) == data
  modifies ghost(ExN, e), ghost(ExA, e)
iface (trace.Tracer).StartSpan(t, ctx, name, o) (c, s)
  ensures [span] s != nil && allocated(s)
func (*metric/metricexport.Reader).ReadAndExport(r, exporter) ()
  props C25
  requires [nonnil] r != nil && exporter != nil && trace.DefaultTracer != nil
  requires [mgr] mgrOK()
  requires [config] cfgOK()
  requires [stores] storesOK()
  ensures [one] ExN(exporter) == old(ExN(exporter)) + 1
  ensures [count] len(ExA(exporter)) == RdN(0) - old(RdN(0))
  ensures [data] forall j int { ExA(exporter)[j] } :: 0 <= j < len(ExA(exporter)) ==> ExA(exporter)[j] == RdE(old(RdN(0)) + j)
  ensures [each] forall p metricproducer.Producer { PrN(p) } :: PrN(p) == old(PrN(p)) + ite(has(metricproducer.prodMgr.producers, p), 1, 0)
  loop [d_ []*metricdata.Metric] len(d_) == RdN(0) - old(RdN(0)) && fresh(d_)
  loop [d_ []*metricdata.Metric] forall j int { d_[j] } { RdE(old(RdN(0)) + j) } :: 0 <= j < len(d_) ==> d_[j] == RdE(old(RdN(0)) + j)
  loop [ps []metricproducer.Producer, i_ int] forall k int { ps[k] } :: 0 <= k < len(ps) ==> PrN(ps[k]) == old(PrN(ps[k])) + ite(k <= i_, 1, 0)
  loop [ps []metricproducer.Producer] forall p metricproducer.Producer { PrN(p) } :: !has(metricproducer.prodMgr.producers, p) ==> PrN(p) == old(PrN(p))
  ensures [mgr] mgrOK()
  ensures [stores] storesOK()
  modifies ghost(PrN), ghost(RdN, 0), ghost(RdE), ghost(ExN, exporter), ghost(ExA, exporter), once(metricproducer.once), metricproducer.prodMgr, ghost(OptS, 0), ghost(OptK, 0), ghost(OptN, 0), ghost(GenN, 0), ghost(SpOps), ghost(SpOp), all(as(trace.DefaultTracer, *trace.span).data.ChildSpanCount), mapof(trace.spanStores), ite(typeis(as(avalue(trace.config), *trace.Config).IDGenerator, *trace.defaultIDGenerator), as(as(avalue(trace.config), *trace.Config).IDGenerator, *trace.defaultIDGenerator).traceIDAdd), ite(typeis(as(avalue(trace.config), *trace.Config).IDGenerator, *trace.defaultIDGenerator), as(as(avalue(trace.config), *trace.Config).IDGenerator, *trace.defaultIDGenerator).nextSpanID), ite(typeis(as(avalue(trace.config), *trace.Config).IDGenerator, *trace.defaultIDGenerator), as(as(avalue(trace.config), *trace.Config).IDGenerator, *trace.defaultIDGenerator).spanIDInc), ite(typeis(as(avalue(trace.config), *trace.Config).IDGenerator, *trace.defaultIDGenerator), as(as(avalue(trace.config), *trace.Config).IDGenerator, *trace.defaultIDGenerator).traceIDRand), ite(typeis(as(avalue(trace.config), *trace.Config).IDGenerator, *trace.defaultIDGenerator), once(as(as(avalue(trace.config), *trace.Config).IDGenerator, *trace.defaultIDGenerator).initOnce)), ite(has(trace.spanStores, r.spanName) && trace.spanStores[r.spanName] != nil, mapof(trace.spanStores[r.spanName].active))
func metric/metricexport.NewIntervalReader(reader, exporter) (r, err)
  props C25
  ensures [needs] (reader == nil || exporter == nil) == (err != nil)
  ensures [none] err != nil ==> r == nil
  ensures [new] err == nil ==> r != nil && fresh(r) && r.exporter == exporter && r.reader == reader && r.quit == nil && r.ReportingInterval == 0
extern time.NewTicker(d) (t)
  requires [positive] d > 0
  ensures [new] t != nil && fresh(t) && TkD(ref(t)) == d
  modifies ghost(TkD)
ghost TkD int int
extern (*time.Ticker).Stop(t) ()
  pure
// a reader is running exactly while quit is set
func (*metric/metricexport.IntervalReader).Start(ir) (err)
  props C25
  let bad = ir == nil || (ir.ReportingInterval != 0 && ir.ReportingInterval < 1000000000) || ir.quit != nil
  ensures [refused] bad == (err != nil)
  ensures [same] bad && ir != nil ==> ir.quit == old(ir.quit) && ir.done == old(ir.done) && ir.timer == old(ir.timer) && spawned("(*metric/metricexport.IntervalReader).startInternal") == old(spawned("(*metric/metricexport.IntervalReader).startInternal"))
  ensures [started0] !bad ==> ir.quit != nil
  ensures [started1] !bad ==> ir.done != nil
  ensures [started2] !bad ==> ir.quit != ir.done
  ensures [started3] !bad ==> fresh(ir.quit)
  ensures [started4] !bad ==> fresh(ir.done)
  ensures [started5] !bad ==> !chclosed(ir.quit)
  ensures [started6] !bad ==> !chclosed(ir.done)
  ensures [started7] !bad ==> ir.timer != nil
  ensures [started8] !bad ==> fresh(ir.timer)
  ensures [started9] !bad ==> TkD(ref(ir.timer)) == ite(ir.ReportingInterval != 0, ir.ReportingInterval, 60000000000)
  ensures [once] !bad ==> spawned("(*metric/metricexport.IntervalReader).startInternal") == old(spawned("(*metric/metricexport.IntervalReader).startInternal")) + 1
  ensures [wiring] ir != nil ==> ir.exporter == old(ir.exporter) && ir.reader == old(ir.reader) && ir.ReportingInterval == old(ir.ReportingInterval)
  modifies ite(ir != nil, ir.quit), ite(ir != nil, ir.done), ite(ir != nil, ir.timer), ghost(TkD)
func (*metric/metricexport.IntervalReader).Stop(ir) ()
  props C25
  requires [running] ir != nil && ir.quit != nil ==> ir.done != nil && ir.quit != ir.done && !chclosed(ir.quit) && !chclosed(ir.done)
  ensures [stopped] ir != nil ==> ir.quit == nil
  ensures [handshake] ir != nil && old(ir.quit) != nil ==> chsent(old(ir.quit)) == old(chsent(ir.quit)) + 1 && chrecvd(old(ir.done)) == old(chrecvd(ir.done)) + 1 && chclosed(old(ir.quit)) && chclosed(old(ir.done))
  modifies ite(ir != nil, ir.quit)
func (*metric/metricexport.IntervalReader).Flush(ir) ()
  props C25
  requires [nonnil] ir != nil && ir.reader != nil && ir.exporter != nil && trace.DefaultTracer != nil
  requires [mgr] mgrOK()
  requires [config] cfgOK()
  requires [stores] storesOK()
  ensures [running] old(ir.quit) != nil ==> ExN(ir.exporter) == old(ExN(ir.exporter)) && RdN(0) == old(RdN(0))
  ensures [one] old(ir.quit) == nil ==> ExN(ir.exporter) == old(ExN(ir.exporter)) + 1
  ensures [data] old(ir.quit) == nil ==> len(ExA(ir.exporter)) == RdN(0) - old(RdN(0)) && forall j int { ExA(ir.exporter)[j] } :: 0 <= j < len(ExA(ir.exporter)) ==> ExA(ir.exporter)[j] == RdE(old(RdN(0)) + j)
  ensures [each] old(ir.quit) == nil ==> forall p metricproducer.Producer { PrN(p) } :: PrN(p) == old(PrN(p)) + ite(has(metricproducer.prodMgr.producers, p), 1, 0)
  ensures [wiring] ir.quit == old(ir.quit) && ir.exporter == old(ir.exporter)
  anyframe
// the background loop exports once per tick and ends only when told to, acknowledging once
func (*metric/metricexport.IntervalReader).startInternal(ir) ()
  props C25
  requires [nonnil] ir != nil && ir.timer != nil && ir.quit != nil && ir.done != nil && ir.quit != ir.done && ref(ir.timer.C) != ref(ir.quit) && ref(ir.timer.C) != ref(ir.done) && !chclosed(ir.done) && ir.reader != nil && ir.exporter != nil && trace.DefaultTracer != nil
  requires [mgr] mgrOK()
  requires [config] cfgOK()
  requires [stores] storesOK()
  ensures [ticks] ExN(ir.exporter) - old(ExN(ir.exporter)) == chrecvd(ir.timer.C) - old(chrecvd(ir.timer.C))
  ensures [acked] chsent(ir.done) == old(chsent(ir.done)) + 1
  ensures [told] chrecvd(ir.quit) == old(chrecvd(ir.quit)) + 1
  loop ExN(ir.exporter) - old(ExN(ir.exporter)) == chrecvd(ir.timer.C) - old(chrecvd(ir.timer.C)) && chsent(ir.done) == old(chsent(ir.done)) && chrecvd(ir.quit) == old(chrecvd(ir.quit))
  loop mgrOK() 
  loop cfgOK()
  loop storesOK()
  anyframe
