package trace
import internal go.opencensus.io/internal
// C09, C10: starting a span. genT(g, n), genS(g, n): what generator g returns at the n-th call of any generator
ghost GenN int int
fun genT(g int, n int) [16]byte
fun genS(g int, n int) [8]byte
iface (trace/internal.IDGenerator).NewTraceID(g) (id)
  ensures [id] id == genT(ifkey(g), old(GenN(0))) && GenN(0) == old(GenN(0)) + 1
  modifies ghost(GenN, 0)
iface (trace/internal.IDGenerator).NewSpanID(g) (id)
  ensures [id] id == genS(ifkey(g), old(GenN(0))) && GenN(0) == old(GenN(0)) + 1
  modifies ghost(GenN, 0)
// assumed: seeding the default generator reads crypto/rand and touches only the generator
func (*trace.defaultIDGenerator).init(gen) ()
  props C09
  trusted
  modifies gen.traceIDAdd, gen.nextSpanID, gen.spanIDInc, gen.traceIDRand, once(gen.initOnce)
// assumed: the default generator's identifiers are the ones it returns (their randomness is not stated)
func (*trace.defaultIDGenerator).NewTraceID(gen) (id)
  props C09
  trusted
  ensures [id] id == genT(ifkey(box(gen)), old(GenN(0))) && GenN(0) == old(GenN(0)) + 1
  modifies ghost(GenN, 0)
func (*trace.defaultIDGenerator).NewSpanID(gen) (id)
  props C09
  trusted
  ensures [id] id == genS(ifkey(box(gen)), old(GenN(0))) && GenN(0) == old(GenN(0)) + 1
  modifies ghost(GenN, 0)
func (*trace.SpanContext).setIsSampled(sc, sampled) ()
  props C10
  requires [nonnil] sc != nil
  ensures [bit] (sc.TraceOptions % 2 == 1) == sampled
  ensures [rest] sc.TraceOptions / 2 == old(sc.TraceOptions) / 2
  modifies sc.TraceOptions
func (trace.TraceOptions).IsSampled(t) (r)
  props C10
  ensures [iff] r == (t % 2 == 1)
  pure
func trace.startSpanInternal(name, hasParent, parent, remoteParent, o) (s)
  props C09 C10
  let c = as(avalue(config), *Config)
  let g = ifkey(c.IDGenerator)
  let n = GenN(0)
  let tid = ite(hasParent, parent.TraceID, genT(g, n))
  let sid = genS(g, ite(hasParent, n, n+1))
  let smp = ite(o.Sampler != nil, o.Sampler, c.DefaultSampler)
  let asked = !hasParent || remoteParent || o.Sampler != nil
  requires [config] typeis(avalue(config), *Config) && c != nil && c.IDGenerator != nil && c.DefaultSampler != nil
  requires [limits] 0 < c.MaxAttributesPerSpan && 0 < c.MaxAnnotationEventsPerSpan && 0 < c.MaxMessageEventsPerSpan && 0 < c.MaxLinksPerSpan
  requires [gen] typeis(c.IDGenerator, *defaultIDGenerator) ==> as(c.IDGenerator, *defaultIDGenerator) != nil
  requires [stores] storesOK()
  ensures [new] s != nil && fresh(s) && !oncedone(s.endOnce)
  ensures [trace] s.spanContext.TraceID == tid
  ensures [id] s.spanContext.SpanID == sid && GenN(0) == n + ite(hasParent, 1, 2)
  ensures [state] s.spanContext.Tracestate == parent.Tracestate
  ensures [bits] s.spanContext.TraceOptions / 2 == parent.TraceOptions / 2
  ensures [sampled] asked ==> (s.spanContext.TraceOptions % 2 == 1) == apply(smp, mk(SamplingParameters, parent, tid, sid, name, remoteParent)).Sample
  ensures [kept] !asked ==> s.spanContext.TraceOptions == parent.TraceOptions
  ensures [recording] rec(s) == (internal.LocalSpanStoreEnabled || s.spanContext.TraceOptions % 2 == 1)
  ensures [data] rec(s) ==> fresh(s.data) && s.data.SpanContext == s.spanContext && s.data.Name == name && s.data.SpanKind == o.SpanKind && s.data.HasRemoteParent == remoteParent && s.data.ChildSpanCount == 0 && s.data.Status == zero(Status) && s.data.Annotations == nil && s.data.MessageEvents == nil && s.data.Links == nil && s.data.Attributes == nil
  ensures [parent] rec(s) ==> ite(hasParent, s.data.ParentSpanID == parent.SpanID, s.data.ParentSpanID == zero(SpanID))
  ensures [buffers] rec(s) ==> spanOK(s) && s.annotations.capacity == c.MaxAnnotationEventsPerSpan && s.messageEvents.capacity == c.MaxMessageEventsPerSpan && s.links.capacity == c.MaxLinksPerSpan && s.lruAttributes.cache.MaxEntries == c.MaxAttributesPerSpan && len(s.annotations.queue) == 0 && len(s.messageEvents.queue) == 0 && len(s.links.queue) == 0 && len(s.lruAttributes.cacheValues) == 0
  ensures [stores] storesOK()
  ensures [store] ite(internal.LocalSpanStoreEnabled, has(spanStores, name) && s.spanStore == spanStores[name], s.spanStore == nil)
  modifies ghost(GenN, 0), mapof(spanStores), ite(typeis(avalue(config), *Config) && typeis(c.IDGenerator, *defaultIDGenerator), as(c.IDGenerator, *defaultIDGenerator).traceIDAdd), ite(typeis(c.IDGenerator, *defaultIDGenerator), as(c.IDGenerator, *defaultIDGenerator).nextSpanID), ite(typeis(c.IDGenerator, *defaultIDGenerator), as(c.IDGenerator, *defaultIDGenerator).spanIDInc), ite(typeis(c.IDGenerator, *defaultIDGenerator), as(c.IDGenerator, *defaultIDGenerator).traceIDRand), ite(typeis(c.IDGenerator, *defaultIDGenerator), once(as(c.IDGenerator, *defaultIDGenerator).initOnce)), ite(has(spanStores, name) && spanStores[name] != nil, mapof(spanStores[name].active))

// start options: OptS/OptK are what the last option applied left in the options, OptN counts applications
ghost OptS int Sampler
ghost OptK int int
ghost OptN int int
iface trace.StartOption(f, o) ()
  requires [opts] o != nil
  ensures [left] o.Sampler == OptS(0) && o.SpanKind == OptK(0) && OptN(0) == old(OptN(0)) + 1
  modifies o.Sampler, o.SpanKind, ghost(OptS, 0), ghost(OptK, 0), ghost(OptN, 0)
func trace.WithSampler$1(o, s) ()
  props C10
  requires [opts] o != nil
  ensures [set] o.Sampler == *s
  modifies o.Sampler
func trace.WithSpanKind$1(o, k) ()
  props C09
  requires [opts] o != nil
  ensures [set] o.SpanKind == *k
  modifies o.SpanKind
// assumed: the execution tracer's task context keeps every value of the context it is made from
func trace.startExecutionTracerTask(ctx, name) (c, end)
  props C09
  trusted
  requires [ctx] ctx != nil
  ensures [kept] c != nil && ctxval(c, zero(contextKey)) == ctxval(ctx, zero(contextKey))
  pure
axiom spanKeyType : forall c context.Context { ctxval(c, zero(contextKey)) } :: ctxval(c, zero(contextKey)) == nil || typeis(ctxval(c, zero(contextKey)), *Span)
def spanIn(c context.Context) = ite(typeis(ctxval(c, zero(contextKey)), *Span), as(ctxval(c, zero(contextKey)), *Span), nil)
func (*trace.tracer).FromContext(t, ctx) (s)
  props C09
  requires [ctx] ctx != nil
  ensures [span] s == spanIn(ctx)
  pure
func (*trace.tracer).NewContext(t, parent, s) (c)
  props C09
  requires [ctx] parent != nil
  ensures [span] c != nil && typeis(ctxval(c, zero(contextKey)), *Span) && as(ctxval(c, zero(contextKey)), *Span) == s
func trace.NewSpan(s) (r)
  props C09
  ensures [wraps] r != nil && fresh(r) && same(r.internal, s)
def cfgOK() = typeis(avalue(config), *Config) && let c = as(avalue(config), *Config) in c != nil && c.IDGenerator != nil && c.DefaultSampler != nil && 0 < c.MaxAttributesPerSpan && 0 < c.MaxAnnotationEventsPerSpan && 0 < c.MaxMessageEventsPerSpan && 0 < c.MaxLinksPerSpan && (typeis(c.IDGenerator, *defaultIDGenerator) ==> as(c.IDGenerator, *defaultIDGenerator) != nil)
def storesOK() = spanStores != nil && forall x string { has(spanStores, x) } :: has(spanStores, x) ==> (spanStores[x] == nil || spanStores[x].active != nil)
func (*trace.tracer).StartSpan(t, ctx, name, o) (c, es)
  props C09 C10
  let p = spanIn(ctx)
  let ps = as(p.internal, *span)
  let isp = p != nil && typeis(p.internal, *span) && rec(ps)
  let parent = ite(p == nil, zero(SpanContext), spCtx(ifkey(p.internal)))
  requires [ctx] ctx != nil && (p != nil ==> p.internal != nil)
  let hasParent = parent != zero(SpanContext)
  let k = as(avalue(config), *Config)
  let g = ifkey(k.IDGenerator)
  let n = GenN(0)
  let tid = ite(hasParent, parent.TraceID, genT(g, n))
  let sid = genS(g, ite(hasParent, n, n+1))
  requires [config] cfgOK()
  requires [options] forall i int { o[i] } :: 0 <= i < len(o) ==> o[i] != nil
  requires [stores] storesOK()
  ensures [stores] storesOK()
  ensures [span] es != nil && fresh(es) && typeis(es.internal, *span) && as(es.internal, *span) != nil && fresh(as(es.internal, *span))
  ensures [context] c != nil && spanIn(c) == es
  ensures [options] OptN(0) == old(OptN(0)) + len(o)
  ensures [trace] let s = as(es.internal, *span) in s.spanContext.TraceID == tid && s.spanContext.SpanID == sid && s.spanContext.Tracestate == parent.Tracestate && s.spanContext.TraceOptions / 2 == parent.TraceOptions / 2
  ensures [sampled] let s = as(es.internal, *span) in let os = ite(len(o) > 0, OptS(0), nil) in (!hasParent || false || os != nil) ==> (s.spanContext.TraceOptions % 2 == 1) == apply(ite(os != nil, os, k.DefaultSampler), mk(SamplingParameters, parent, tid, sid, name, false)).Sample
  ensures [kept] let s = as(es.internal, *span) in let os = ite(len(o) > 0, OptS(0), nil) in !(!hasParent || false || os != nil) ==> s.spanContext.TraceOptions == parent.TraceOptions
  ensures [recording] let s = as(es.internal, *span) in rec(s) == (internal.LocalSpanStoreEnabled || s.spanContext.TraceOptions % 2 == 1)
  ensures [data] let s = as(es.internal, *span) in rec(s) ==> s.data.SpanContext == s.spanContext && s.data.Name == name && s.data.SpanKind == ite(len(o) > 0, OptK(0), 0) && s.data.HasRemoteParent == false && s.data.ChildSpanCount == 0 && ite(hasParent, s.data.ParentSpanID == parent.SpanID, s.data.ParentSpanID == zero(SpanID))
  loop [q StartOptions, j int] OptN(0) == old(OptN(0)) + j && q.Sampler == ite(j > 0, OptS(0), nil) && q.SpanKind == ite(j > 0, OptK(0), 0)
  ensures [children] isp ==> ps.data.ChildSpanCount == old(ps.data.ChildSpanCount) + 1 || old(ps.data.ChildSpanCount) == 9223372036854775807
  modifies ite(isp, ps.data.ChildSpanCount), ghost(OptS, 0), ghost(OptK, 0), ghost(OptN, 0), ghost(GenN, 0), mapof(spanStores), ite(typeis(k.IDGenerator, *defaultIDGenerator), as(k.IDGenerator, *defaultIDGenerator).traceIDAdd), ite(typeis(k.IDGenerator, *defaultIDGenerator), as(k.IDGenerator, *defaultIDGenerator).nextSpanID), ite(typeis(k.IDGenerator, *defaultIDGenerator), as(k.IDGenerator, *defaultIDGenerator).spanIDInc), ite(typeis(k.IDGenerator, *defaultIDGenerator), as(k.IDGenerator, *defaultIDGenerator).traceIDRand), ite(typeis(k.IDGenerator, *defaultIDGenerator), once(as(k.IDGenerator, *defaultIDGenerator).initOnce)), ite(has(spanStores, name) && spanStores[name] != nil, mapof(spanStores[name].active))
func (*trace.tracer).StartSpanWithRemoteParent(t, ctx, name, parent, o) (c, es)
  props C09 C10
  requires [ctx] ctx != nil
  let hasParent = parent != zero(SpanContext)
  let k = as(avalue(config), *Config)
  let g = ifkey(k.IDGenerator)
  let n = GenN(0)
  let tid = ite(hasParent, parent.TraceID, genT(g, n))
  let sid = genS(g, ite(hasParent, n, n+1))
  requires [config] cfgOK()
  requires [options] forall i int { o[i] } :: 0 <= i < len(o) ==> o[i] != nil
  requires [stores] storesOK()
  ensures [span] es != nil && fresh(es) && typeis(es.internal, *span) && as(es.internal, *span) != nil && fresh(as(es.internal, *span))
  ensures [context] c != nil && spanIn(c) == es
  ensures [options] OptN(0) == old(OptN(0)) + len(o)
  ensures [trace] let s = as(es.internal, *span) in s.spanContext.TraceID == tid && s.spanContext.SpanID == sid && s.spanContext.Tracestate == parent.Tracestate && s.spanContext.TraceOptions / 2 == parent.TraceOptions / 2
  ensures [sampled] let s = as(es.internal, *span) in let os = ite(len(o) > 0, OptS(0), nil) in (!hasParent || true || os != nil) ==> (s.spanContext.TraceOptions % 2 == 1) == apply(ite(os != nil, os, k.DefaultSampler), mk(SamplingParameters, parent, tid, sid, name, true)).Sample
  ensures [kept] let s = as(es.internal, *span) in let os = ite(len(o) > 0, OptS(0), nil) in !(!hasParent || true || os != nil) ==> s.spanContext.TraceOptions == parent.TraceOptions
  ensures [recording] let s = as(es.internal, *span) in rec(s) == (internal.LocalSpanStoreEnabled || s.spanContext.TraceOptions % 2 == 1)
  ensures [data] let s = as(es.internal, *span) in rec(s) ==> s.data.SpanContext == s.spanContext && s.data.Name == name && s.data.SpanKind == ite(len(o) > 0, OptK(0), 0) && s.data.HasRemoteParent == true && s.data.ChildSpanCount == 0 && ite(hasParent, s.data.ParentSpanID == parent.SpanID, s.data.ParentSpanID == zero(SpanID))
  loop [q StartOptions, j int] OptN(0) == old(OptN(0)) + j && q.Sampler == ite(j > 0, OptS(0), nil) && q.SpanKind == ite(j > 0, OptK(0), 0)
  modifies ghost(OptS, 0), ghost(OptK, 0), ghost(OptN, 0), ghost(GenN, 0), mapof(spanStores), ite(typeis(k.IDGenerator, *defaultIDGenerator), as(k.IDGenerator, *defaultIDGenerator).traceIDAdd), ite(typeis(k.IDGenerator, *defaultIDGenerator), as(k.IDGenerator, *defaultIDGenerator).nextSpanID), ite(typeis(k.IDGenerator, *defaultIDGenerator), as(k.IDGenerator, *defaultIDGenerator).spanIDInc), ite(typeis(k.IDGenerator, *defaultIDGenerator), as(k.IDGenerator, *defaultIDGenerator).traceIDRand), ite(typeis(k.IDGenerator, *defaultIDGenerator), once(as(k.IDGenerator, *defaultIDGenerator).initOnce)), ite(has(spanStores, name) && spanStores[name] != nil, mapof(spanStores[name].active))

// samplers
func trace.AlwaysSample$1(p) (d)
  props C10
  ensures [always] d.Sample
  pure
func trace.NeverSample$1(p) (d)
  props C10
  ensures [never] !d.Sample
  pure
func (trace.SpanContext).IsSampled(sc) (r)
  props C10
  ensures [bit] r == (sc.TraceOptions % 2 == 1)
  pure
def be8(b [16]byte) = ((((((b[0]*256 + b[1])*256 + b[2])*256 + b[3])*256 + b[4])*256 + b[5])*256 + b[6])*256 + b[7]
func trace.ProbabilitySampler$1(p, bound) (d)
  props C10
  ensures [rule] d.Sample == ((p.ParentContext.TraceOptions % 2 == 1) || be8(p.TraceID) / 2 < *bound)
  pure
