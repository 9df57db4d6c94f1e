package trace
import lru github.com/golang/groupcache/lru
// C11: bounded queues
def qOK(q *evictedQueue) = q != nil && 0 < q.capacity && len(q.queue) <= q.capacity && 0 <= q.droppedCount
func trace.newEvictedQueue(capacity) (q)
  props C11
  ensures [new] q != nil && fresh(q) && q.capacity == capacity && q.droppedCount == 0 && len(q.queue) == 0 && fresh(q.queue)
func (*trace.evictedQueue).add(q, v) ()
  props C11
  requires [ok] qOK(q)
  requires [count] q.droppedCount < 9223372036854775807
  let n = len(q.queue)
  ensures [count] len(q.queue) == ite(n < q.capacity, n+1, n)
  ensures [own] fresh(q.queue) || arrof(q.queue) == old(arrof(q.queue))
  ensures [dropped] q.droppedCount == old(q.droppedCount) + ite(n < q.capacity, 0, 1)
  ensures [newest] same(q.queue[len(q.queue)-1], v)
  ensures [kept] forall i int :: 0 <= i < len(q.queue)-1 ==> same(q.queue[i], old(q.queue[i + n+1 - ite(n < q.capacity, n+1, n)]))
  modifies q.queue, q.droppedCount, elems(q.queue)

def rec(s *span) = s != nil && s.data != nil
def annOK(s *span) = qOK(s.annotations) && forall i int { s.annotations.queue[i] } :: 0 <= i < len(s.annotations.queue) ==> typeis(s.annotations.queue[i], Annotation)
def msgOK(s *span) = qOK(s.messageEvents) && forall i int { s.messageEvents.queue[i] } :: 0 <= i < len(s.messageEvents.queue) ==> typeis(s.messageEvents.queue[i], MessageEvent)
def linksOK(s *span) = qOK(s.links) && forall i int { s.links.queue[i] } :: 0 <= i < len(s.links.queue) ==> typeis(s.links.queue[i], Link)
func (*trace.span).interfaceArrayToAnnotationArray(s) (r)
  props C11
  requires [nonnil] s != nil && annOK(s)
  ensures [len] len(r) == len(s.annotations.queue) && fresh(r)
  ensures [items] forall i int { r[i] } :: 0 <= i < len(r) ==> r[i] == as(s.annotations.queue[i], Annotation)
  loop [r_ []Annotation, i int] len(r_) == i
  loop [r_ []Annotation] forall i int { r_[i] } :: 0 <= i < len(r_) ==> r_[i] == as(s.annotations.queue[i], Annotation)
func (*trace.span).interfaceArrayToMessageEventArray(s) (r)
  props C11
  requires [nonnil] s != nil && msgOK(s)
  ensures [len] len(r) == len(s.messageEvents.queue) && fresh(r)
  ensures [items] forall i int { r[i] } :: 0 <= i < len(r) ==> r[i] == as(s.messageEvents.queue[i], MessageEvent)
  loop [r_ []MessageEvent, i int] len(r_) == i
  loop [r_ []MessageEvent] forall i int { r_[i] } :: 0 <= i < len(r_) ==> r_[i] == as(s.messageEvents.queue[i], MessageEvent)
func (*trace.span).interfaceArrayToLinksArray(s) (r)
  props C11
  requires [nonnil] s != nil && linksOK(s)
  ensures [len] len(r) == len(s.links.queue) && fresh(r)
  ensures [items] forall i int { r[i] } :: 0 <= i < len(r) ==> r[i] == as(s.links.queue[i], Link)
  loop [r_ []Link, i int] len(r_) == i
  loop [r_ []Link] forall i int { r_[i] } :: 0 <= i < len(r_) ==> r_[i] == as(s.links.queue[i], Link)
// attributes: the least-recently-used cache is a dependency; LruN(c) is the number of its entries
ghost LruN int int
extern (*github.com/golang/groupcache/lru.Cache).Len(c) (n)
  ensures [n] n == LruN(c) && 0 <= n
  pure
def lruOK(m *lruMap) = m != nil && m.cache != nil && m.cacheValues != nil && LruN(m.cache) == len(m.cacheValues) && 0 <= m.droppedCount && (forall k any { has(m.cacheValues, k) } :: has(m.cacheValues, k) ==> typeis(k, string))
func (*trace.lruMap).get(lm, key) (v, ok)
  props C11
  requires [nonnil] lm != nil
  ensures [iff] ok == has(lm.cacheValues, key)
  ensures [value] ok ==> same(v, lm.cacheValues[key])
  pure
func (trace.lruMap).keys(lm) (ks)
  props C11
  requires [ok] lm.cache != nil && lm.cacheValues != nil
  ensures [in] fresh(ks) && forall i int { ks[i] } :: 0 <= i < len(ks) ==> has(lm.cacheValues, ks[i])
  ensures [all] forall k any { has(lm.cacheValues, k) } :: has(lm.cacheValues, k) ==> exists i int :: 0 <= i < len(ks) && same(ks[i], k)
  loop [s_ []interface{}] fresh(s_) && forall i int { s_[i] } :: 0 <= i < len(s_) ==> has(lm.cacheValues, s_[i])
  loop [s_ []interface{}] forall k any { visited(k) } :: visited(k) ==> exists i int :: 0 <= i < len(s_) && same(s_[i], k)
func (*trace.span).lruAttributesToAttributeMap(s) (r)
  props C11
  requires [nonnil] s != nil && lruOK(s.lruAttributes)
  ensures [fresh] fresh(r)
  ensures [only] forall k string { has(r, k) } :: has(r, k) ==> has(s.lruAttributes.cacheValues, box(k)) && same(r[k], s.lruAttributes.cacheValues[box(k)])
  ensures [all] forall k string { has(s.lruAttributes.cacheValues, box(k)) } :: has(s.lruAttributes.cacheValues, box(k)) ==> has(r, k)
  loop [m map[string]interface{}] forall k string { has(m, k) } :: has(m, k) ==> has(s.lruAttributes.cacheValues, box(k)) && same(m[k], s.lruAttributes.cacheValues[box(k)])
  loop [m map[string]interface{}, ks_ []interface{}, n int] forall i int { ks_[i] } :: 0 <= i < n ==> has(m, as(ks_[i], string))
def spanOK(s *span) = annOK(s) && msgOK(s) && linksOK(s) && lruOK(s.lruAttributes) && s.annotations != s.messageEvents && s.annotations != s.links && s.messageEvents != s.links && sepBuf(s.annotations, s.messageEvents) && sepBuf(s.annotations, s.links) && sepBuf(s.messageEvents, s.links)
def sepBuf(a *evictedQueue, b *evictedQueue) = arrof(a.queue) != arrof(b.queue)
func (*trace.span).makeSpanData(s) (sd)
  props C11 C12
  requires [rec] rec(s)
  requires [ok] spanOK(s)
  ensures [fresh] sd != nil && fresh(sd)
  ensures [base] sd.SpanContext == s.data.SpanContext && sd.ParentSpanID == s.data.ParentSpanID && sd.SpanKind == s.data.SpanKind && sd.Name == s.data.Name && sd.StartTime == s.data.StartTime && sd.Status == s.data.Status && sd.HasRemoteParent == s.data.HasRemoteParent && sd.ChildSpanCount == s.data.ChildSpanCount
  ensures [annotations] len(s.annotations.queue) > 0 ==> len(sd.Annotations) == len(s.annotations.queue) && fresh(sd.Annotations) && sd.DroppedAnnotationCount == s.annotations.droppedCount && forall i int { sd.Annotations[i] } :: 0 <= i < len(sd.Annotations) ==> sd.Annotations[i] == as(s.annotations.queue[i], Annotation)
  ensures [messages] len(s.messageEvents.queue) > 0 ==> len(sd.MessageEvents) == len(s.messageEvents.queue) && fresh(sd.MessageEvents) && sd.DroppedMessageEventCount == s.messageEvents.droppedCount && forall i int { sd.MessageEvents[i] } :: 0 <= i < len(sd.MessageEvents) ==> sd.MessageEvents[i] == as(s.messageEvents.queue[i], MessageEvent)
  ensures [links] len(s.links.queue) > 0 ==> len(sd.Links) == len(s.links.queue) && fresh(sd.Links) && sd.DroppedLinkCount == s.links.droppedCount && forall i int { sd.Links[i] } :: 0 <= i < len(sd.Links) ==> sd.Links[i] == as(s.links.queue[i], Link)
  ensures [attributes] len(s.lruAttributes.cacheValues) > 0 ==> fresh(sd.Attributes) && sd.DroppedAttributeCount == s.lruAttributes.droppedCount && (forall k string { has(sd.Attributes, k) } :: has(sd.Attributes, k) ==> has(s.lruAttributes.cacheValues, box(k)) && same(sd.Attributes[k], s.lruAttributes.cacheValues[box(k)])) && (forall k string { has(s.lruAttributes.cacheValues, box(k)) } :: has(s.lruAttributes.cacheValues, box(k)) ==> has(sd.Attributes, k))
  ensures [none] (len(s.annotations.queue) == 0 ==> sd.Annotations == s.data.Annotations && sd.DroppedAnnotationCount == s.data.DroppedAnnotationCount) && (len(s.messageEvents.queue) == 0 ==> sd.MessageEvents == s.data.MessageEvents && sd.DroppedMessageEventCount == s.data.DroppedMessageEventCount) && (len(s.links.queue) == 0 ==> sd.Links == s.data.Links && sd.DroppedLinkCount == s.data.DroppedLinkCount) && (len(s.lruAttributes.cacheValues) == 0 ==> sd.Attributes == s.data.Attributes && sd.DroppedAttributeCount == s.data.DroppedAttributeCount)

// span operations: on a nil or non-recording span nothing changes
func (*trace.span).IsRecordingEvents(s) (r)
  props C12
  ensures [iff] r == rec(s)
  pure
func (*trace.span).SpanContext(s) (r)
  props C12
  ensures [ctx] s != nil ==> r == s.spanContext
  ensures [nil] s == nil ==> r == zero(SpanContext)
  pure
func (*trace.span).SetName(s, name) ()
  props C12
  ensures [set] rec(s) ==> s.data.Name == name
  modifies ite(rec(s), s.data.Name)
func (*trace.span).SetStatus(s, status) ()
  props C12
  ensures [set] rec(s) ==> s.data.Status == status
  modifies ite(rec(s), s.data.Status)
func (*trace.span).addChild(s) ()
  props C09 C12
  ensures [count] rec(s) ==> s.data.ChildSpanCount == old(s.data.ChildSpanCount) + 1 || old(s.data.ChildSpanCount) == 9223372036854775807
  modifies ite(rec(s), s.data.ChildSpanCount)
def qAdded(q *evictedQueue) = len(q.queue) == ite(old(len(q.queue)) < q.capacity, old(len(q.queue))+1, old(len(q.queue))) && q.droppedCount == old(q.droppedCount) + ite(old(len(q.queue)) < q.capacity, 0, 1)
def qKept(q *evictedQueue) = forall i int :: 0 <= i < len(q.queue)-1 ==> same(q.queue[i], old(q.queue[i + ite(len(q.queue) < q.capacity, 0, 1)]))
def ownBuf(q *evictedQueue) = fresh(q.queue) || arrof(q.queue) == old(arrof(q.queue))
func (*trace.span).AddLink(s, l) ()
  props C11 C12
  requires [ok] rec(s) ==> spanOK(s)
  requires [room] rec(s) ==> s.links.droppedCount < 9223372036854775807
  ensures [ok] rec(s) ==> spanOK(s)
  ensures [count] rec(s) ==> qAdded(s.links)
  ensures [newest] rec(s) ==> typeis(s.links.queue[len(s.links.queue)-1], Link) && as(s.links.queue[len(s.links.queue)-1], Link) == l
  modifies ite(rec(s), s.links.queue), ite(rec(s), s.links.droppedCount), ite(rec(s), elems(s.links.queue))
func (*trace.span).AddMessageSendEvent(s, messageID, uncompressedByteSize, compressedByteSize) ()
  props C11 C12
  requires [ok] rec(s) ==> spanOK(s)
  requires [room] rec(s) ==> s.messageEvents.droppedCount < 9223372036854775807
  ensures [ok] rec(s) ==> spanOK(s)
  let n = len(s.messageEvents.queue)
  ensures [count] rec(s) ==> qAdded(s.messageEvents)
  ensures [newest] rec(s) ==> typeis(s.messageEvents.queue[len(s.messageEvents.queue)-1], MessageEvent) && let m = as(s.messageEvents.queue[len(s.messageEvents.queue)-1], MessageEvent) in m.EventType == MessageEventTypeSent && m.MessageID == messageID && m.UncompressedByteSize == uncompressedByteSize && m.CompressedByteSize == compressedByteSize
  modifies ite(rec(s), s.messageEvents.queue), ite(rec(s), s.messageEvents.droppedCount), ite(rec(s), elems(s.messageEvents.queue))
func (*trace.span).AddMessageReceiveEvent(s, messageID, uncompressedByteSize, compressedByteSize) ()
  props C11 C12
  requires [ok] rec(s) ==> spanOK(s)
  requires [room] rec(s) ==> s.messageEvents.droppedCount < 9223372036854775807
  ensures [ok] rec(s) ==> spanOK(s)
  ensures [count] rec(s) ==> qAdded(s.messageEvents)
  ensures [newest] rec(s) ==> typeis(s.messageEvents.queue[len(s.messageEvents.queue)-1], MessageEvent) && let m = as(s.messageEvents.queue[len(s.messageEvents.queue)-1], MessageEvent) in m.EventType == MessageEventTypeRecv && m.MessageID == messageID && m.UncompressedByteSize == uncompressedByteSize && m.CompressedByteSize == compressedByteSize
  modifies ite(rec(s), s.messageEvents.queue), ite(rec(s), s.messageEvents.droppedCount), ite(rec(s), elems(s.messageEvents.queue))
func (*trace.span).printStringInternal(s, attributes, str) ()
  props C11 C12
  requires [rec] rec(s)
  requires [ok] spanOK(s)
  requires [room] s.annotations.droppedCount < 9223372036854775807
  ensures [ok] spanOK(s)
  ensures [count] qAdded(s.annotations) && ownBuf(s.annotations)
  ensures [newest] typeis(s.annotations.queue[len(s.annotations.queue)-1], Annotation) && as(s.annotations.queue[len(s.annotations.queue)-1], Annotation).Message == str
  ensures [copy] let m = as(s.annotations.queue[len(s.annotations.queue)-1], Annotation).Attributes in ite(len(attributes) == 0, m == nil, fresh(m) && (forall i int { attributes[i].key } :: 0 <= i < len(attributes) ==> has(m, attributes[i].key)) && forall k string { has(m, k) } :: has(m, k) ==> exists i int :: 0 <= i < len(attributes) && attributes[i].key == k && same(m[k], attributes[i].value))
  loop [m map[string]interface{}, n int] forall i int { attributes[i].key } :: 0 <= i < n ==> has(m, attributes[i].key)
  loop [m map[string]interface{}, n int] forall k string { has(m, k) } :: has(m, k) ==> exists i int :: 0 <= i < n && attributes[i].key == k && same(m[k], attributes[i].value)
  modifies s.annotations.queue, s.annotations.droppedCount, elems(s.annotations.queue)
func (*trace.span).Annotate(s, attributes, str) ()
  props C11 C12
  requires [ok] rec(s) ==> spanOK(s)
  requires [room] rec(s) ==> s.annotations.droppedCount < 9223372036854775807
  ensures [ok] rec(s) ==> spanOK(s)
  ensures [count] rec(s) ==> qAdded(s.annotations)
  ensures [newest] rec(s) ==> as(s.annotations.queue[len(s.annotations.queue)-1], Annotation).Message == str
  modifies ite(rec(s), s.annotations.queue), ite(rec(s), s.annotations.droppedCount), ite(rec(s), elems(s.annotations.queue))
func (*trace.span).Annotatef(s, attributes, format, a) ()
  props C11 C12
  requires [ok] rec(s) ==> spanOK(s)
  requires [room] rec(s) ==> s.annotations.droppedCount < 9223372036854775807
  ensures [ok] rec(s) ==> spanOK(s)
  ensures [count] rec(s) ==> qAdded(s.annotations)
  modifies ite(rec(s), s.annotations.queue), ite(rec(s), s.annotations.droppedCount), ite(rec(s), elems(s.annotations.queue))

func trace.newLruMap$1(key, value, lmp) ()
  props C11
  let lm = *lmp
  requires [nonnil] lm != nil && lm.cacheValues != nil
  ensures [gone] !has(lm.cacheValues, key)
  ensures [others] forall k any { has(lm.cacheValues, k) } :: k != key ==> has(lm.cacheValues, k) == old(has(lm.cacheValues, k)) && (has(lm.cacheValues, k) ==> same(lm.cacheValues[k], old(lm.cacheValues[k])))
  ensures [counted] lm.droppedCount == old(lm.droppedCount) + 1 || old(lm.droppedCount) == 9223372036854775807
  modifies mapof(lm.cacheValues), lm.droppedCount
func trace.newLruMap(size) (lm)
  props C11
  ensures [new] lm != nil && fresh(lm) && lm.cache != nil && lm.cacheValues != nil && fresh(lm.cacheValues) && len(lm.cacheValues) == 0 && lm.droppedCount == 0 && LruN(lm.cache) == 0 && lm.cache.MaxEntries == size
extern github.com/golang/groupcache/lru.New(max) (c)
  ensures [new] c != nil && fresh(c) && LruN(c) == 0 && c.MaxEntries == max
// assumed: the dependency's cache evicts its least recently added entry through OnEvicted when it holds more than MaxEntries
func (*trace.lruMap).add(lm, key, value) ()
  props C11
  trusted
  requires [ok] lruOK(lm) && typeis(key, string)
  ensures [ok] lruOK(lm)
  ensures [set] has(lm.cacheValues, key) && same(lm.cacheValues[key], value)
  ensures [others] forall k any { has(lm.cacheValues, k) } :: has(lm.cacheValues, k) && k != key ==> old(has(lm.cacheValues, k)) && same(lm.cacheValues[k], old(lm.cacheValues[k]))
  ensures [counted] lm.droppedCount == old(lm.droppedCount) + old(len(lm.cacheValues)) + ite(old(has(lm.cacheValues, key)), 0, 1) - len(lm.cacheValues)
  modifies mapof(lm.cacheValues), lm.droppedCount, ghost(LruN, lm.cache)
func (*trace.span).AddAttributes(s, attributes) ()
  props C11 C12
  requires [ok] rec(s) ==> spanOK(s)
  ensures [ok] rec(s) ==> spanOK(s)
  ensures [last] rec(s) && len(attributes) > 0 ==> let a = attributes[len(attributes)-1] in has(s.lruAttributes.cacheValues, box(a.key)) && same(s.lruAttributes.cacheValues[box(a.key)], a.value)
  loop lruOK(s.lruAttributes)
  loop [n int] 0 < n ==> has(s.lruAttributes.cacheValues, box(attributes[n-1].key)) && same(s.lruAttributes.cacheValues[box(attributes[n-1].key)], attributes[n-1].value)
  modifies ite(rec(s), mapof(s.lruAttributes.cacheValues)), ite(rec(s), s.lruAttributes.droppedCount), ite(rec(s), ghost(LruN, s.lruAttributes.cache))

// C12: ending a span. ExpN(x) counts the deliveries to exporter x, ExpSD(x) is what it got last
ghost ExpN int int
ghost ExpSD int *SpanData
iface (trace.Exporter).ExportSpan(e, sd) ()
  requires [data] sd != nil
  ensures [counted] ExpN(ifkey(e)) == old(ExpN(ifkey(e))) + 1 && ExpSD(ifkey(e)) == sd
  modifies ghost(ExpN, ifkey(e)), ghost(ExpSD, ifkey(e))
def ending(s *span) = rec(s) && !oncedone(s.endOnce)
func (*trace.span).End(s) ()
  props C12
  let exps = avalue(exporters)
  let todo = rec(s) && !oncedone(s.endOnce)
  let send = s.spanContext.TraceOptions % 2 == 1 && typeis(exps, exportersMap) && len(as(exps, exportersMap)) > 0
  requires [ok] rec(s) ==> spanOK(s)
  requires [set] expSet(exps) && (typeis(exps, exportersMap) ==> forall e Exporter { has(as(exps, exportersMap), e) } :: has(as(exps, exportersMap), e) ==> e != nil)
  requires [store] todo && s.spanStore != nil ==> s.spanStore.active != nil && latsOK(s.spanStore.latency) && errsOK(s.spanStore) && 0 <= s.spanStore.maxSpansPerErrorBucket <= 100000
  ensures [ended] rec(s) ==> oncedone(s.endOnce)
  ensures [once] forall e Exporter { ExpN(ifkey(e)) } :: ExpN(ifkey(e)) == old(ExpN(ifkey(e))) + ite(todo && send && has(as(exps, exportersMap), e), 1, 0)
  ensures [data] forall e Exporter { has(as(exps, exportersMap), e) } :: todo && send && has(as(exps, exportersMap), e) ==> let sd = ExpSD(ifkey(e)) in sd != nil && sd.Name == s.data.Name && sd.SpanContext == s.data.SpanContext && sd.ParentSpanID == s.data.ParentSpanID && sd.Status == s.data.Status && sd.StartTime == s.data.StartTime && sd.SpanKind == s.data.SpanKind && sd.HasRemoteParent == s.data.HasRemoteParent && sd.ChildSpanCount == s.data.ChildSpanCount && (len(s.annotations.queue) > 0 ==> len(sd.Annotations) == len(s.annotations.queue))
  loop [d *SpanData] forall e Exporter { visited(e) } :: visited(e) ==> ExpSD(ifkey(e)) == d
  loop forall e Exporter { ExpN(ifkey(e)) } :: ExpN(ifkey(e)) == old(ExpN(ifkey(e))) + ite(visited(e), 1, 0)
  modifies ite(rec(s), once(s.endOnce)), ghost(ExpN), ghost(ExpSD), ite(rec(s) && s.spanStore != nil, mapof(s.spanStore.active)), ite(rec(s) && s.spanStore != nil, mapof(s.spanStore.errors)), ite(rec(s) && s.spanStore != nil, s.spanStore.errors), all(s.spanStore.latency[0].buffer), all(s.spanStore.latency[0].nextIndex), all(s.spanStore.latency[0].overflow), all(s.spanStore.latency[0].nextTime), all(s.spanStore.latency[0].buffer[0])

// the exported Span passes each operation to the span it wraps, and does nothing without one.
// SpOps(i) counts the operations performed on the implementation i, SpOp(i) is the last one, SpArg its argument
ghost SpOps int int
ghost SpOp int int
ghost SpStr int string
ghost SpA int int
ghost SpB int int
ghost SpC int int
fun spRec(i int) bool
fun spCtx(i int) SpanContext
iface (trace.SpanInterface).IsRecordingEvents(i) (r)
  ensures [rec] r == spRec(ifkey(i))
  pure
iface (trace.SpanInterface).SpanContext(i) (r)
  ensures [ctx] r == spCtx(ifkey(i))
  pure
iface (trace.SpanInterface).End(i) ()
  ensures [op] SpOps(ifkey(i)) == old(SpOps(ifkey(i))) + 1 && SpOp(ifkey(i)) == 1
  modifies ghost(SpOps, ifkey(i)), ghost(SpOp, ifkey(i))
iface (trace.SpanInterface).SetName(i, name) ()
  ensures [op] SpOps(ifkey(i)) == old(SpOps(ifkey(i))) + 1 && SpOp(ifkey(i)) == 2 && SpStr(ifkey(i)) == name
  modifies ghost(SpOps, ifkey(i)), ghost(SpOp, ifkey(i)), ghost(SpStr, ifkey(i))
iface (trace.SpanInterface).SetStatus(i, st) ()
  ensures [op] SpOps(ifkey(i)) == old(SpOps(ifkey(i))) + 1 && SpOp(ifkey(i)) == 3 && SpStr(ifkey(i)) == st.Message && SpA(ifkey(i)) == st.Code
  modifies ghost(SpOps, ifkey(i)), ghost(SpOp, ifkey(i)), ghost(SpStr, ifkey(i)), ghost(SpA, ifkey(i))
iface (trace.SpanInterface).AddAttributes(i, at) ()
  ensures [op] SpOps(ifkey(i)) == old(SpOps(ifkey(i))) + 1 && SpOp(ifkey(i)) == 4 && SpA(ifkey(i)) == arrof(at) && SpB(ifkey(i)) == len(at)
  modifies ghost(SpOps, ifkey(i)), ghost(SpOp, ifkey(i)), ghost(SpA, ifkey(i)), ghost(SpB, ifkey(i))
iface (trace.SpanInterface).Annotate(i, at, str) ()
  ensures [op] SpOps(ifkey(i)) == old(SpOps(ifkey(i))) + 1 && SpOp(ifkey(i)) == 5 && SpA(ifkey(i)) == arrof(at) && SpB(ifkey(i)) == len(at) && SpStr(ifkey(i)) == str
  modifies ghost(SpOps, ifkey(i)), ghost(SpOp, ifkey(i)), ghost(SpA, ifkey(i)), ghost(SpB, ifkey(i)), ghost(SpStr, ifkey(i))
iface (trace.SpanInterface).Annotatef(i, at, str, a) ()
  ensures [op] SpOps(ifkey(i)) == old(SpOps(ifkey(i))) + 1 && SpOp(ifkey(i)) == 6 && SpA(ifkey(i)) == arrof(at) && SpB(ifkey(i)) == len(at) && SpStr(ifkey(i)) == str && SpC(ifkey(i)) == arrof(a)
  modifies ghost(SpOps, ifkey(i)), ghost(SpOp, ifkey(i)), ghost(SpA, ifkey(i)), ghost(SpB, ifkey(i)), ghost(SpC, ifkey(i)), ghost(SpStr, ifkey(i))
iface (trace.SpanInterface).AddMessageSendEvent(i, a, b, c) ()
  ensures [op] SpOps(ifkey(i)) == old(SpOps(ifkey(i))) + 1 && SpOp(ifkey(i)) == 7 && SpA(ifkey(i)) == a && SpB(ifkey(i)) == b && SpC(ifkey(i)) == c
  modifies ghost(SpOps, ifkey(i)), ghost(SpOp, ifkey(i)), ghost(SpA, ifkey(i)), ghost(SpB, ifkey(i)), ghost(SpC, ifkey(i))
iface (trace.SpanInterface).AddMessageReceiveEvent(i, a, b, c) ()
  ensures [op] SpOps(ifkey(i)) == old(SpOps(ifkey(i))) + 1 && SpOp(ifkey(i)) == 8 && SpA(ifkey(i)) == a && SpB(ifkey(i)) == b && SpC(ifkey(i)) == c
  modifies ghost(SpOps, ifkey(i)), ghost(SpOp, ifkey(i)), ghost(SpA, ifkey(i)), ghost(SpB, ifkey(i)), ghost(SpC, ifkey(i))
iface (trace.SpanInterface).AddLink(i, l) ()
  ensures [op] SpOps(ifkey(i)) == old(SpOps(ifkey(i))) + 1 && SpOp(ifkey(i)) == 9 && SpA(ifkey(i)) == l.Type
  modifies ghost(SpOps, ifkey(i)), ghost(SpOp, ifkey(i)), ghost(SpA, ifkey(i))
def spLive(s *Span) = s != nil && spRec(ifkey(s.internal))
func (*trace.Span).End(s) ()
  props C12
  requires [inner] s != nil ==> s.internal != nil
  let k = ifkey(s.internal)
  ensures [passed] s != nil ==> SpOps(k) == old(SpOps(k)) + 1 && SpOp(k) == 1
  modifies ite(s != nil, ghost(SpOps, ifkey(s.internal))), ite(s != nil, ghost(SpOp, ifkey(s.internal)))
func (*trace.Span).SetName(s, name) ()
  props C12
  requires [inner] s != nil ==> s.internal != nil
  let k = ifkey(s.internal)
  ensures [passed] spLive(s) ==> SpOps(k) == old(SpOps(k)) + 1 && SpOp(k) == 2 && SpStr(k) == name
  modifies ite(spLive(s), ghost(SpOps, ifkey(s.internal))), ite(spLive(s), ghost(SpOp, ifkey(s.internal))), ite(spLive(s), ghost(SpStr, ifkey(s.internal)))
func (*trace.Span).SetStatus(s, status) ()
  props C12
  requires [inner] s != nil ==> s.internal != nil
  let k = ifkey(s.internal)
  ensures [passed] spLive(s) ==> SpOps(k) == old(SpOps(k)) + 1 && SpOp(k) == 3 && SpStr(k) == status.Message && SpA(k) == status.Code
  modifies ite(spLive(s), ghost(SpOps, ifkey(s.internal))), ite(spLive(s), ghost(SpOp, ifkey(s.internal))), ite(spLive(s), ghost(SpStr, ifkey(s.internal))), ite(spLive(s), ghost(SpA, ifkey(s.internal)))
func (*trace.Span).AddAttributes(s, attributes) ()
  props C12
  requires [inner] s != nil ==> s.internal != nil
  let k = ifkey(s.internal)
  ensures [passed] spLive(s) ==> SpOps(k) == old(SpOps(k)) + 1 && SpOp(k) == 4 && SpA(k) == arrof(attributes) && SpB(k) == len(attributes)
  modifies ite(spLive(s), ghost(SpOps, ifkey(s.internal))), ite(spLive(s), ghost(SpOp, ifkey(s.internal))), ite(spLive(s), ghost(SpA, ifkey(s.internal))), ite(spLive(s), ghost(SpB, ifkey(s.internal)))
func (*trace.Span).Annotate(s, attributes, str) ()
  props C12
  requires [inner] s != nil ==> s.internal != nil
  let k = ifkey(s.internal)
  ensures [passed] spLive(s) ==> SpOps(k) == old(SpOps(k)) + 1 && SpOp(k) == 5 && SpA(k) == arrof(attributes) && SpB(k) == len(attributes) && SpStr(k) == str
  modifies ite(spLive(s), ghost(SpOps, ifkey(s.internal))), ite(spLive(s), ghost(SpOp, ifkey(s.internal))), ite(spLive(s), ghost(SpStr, ifkey(s.internal))), ite(spLive(s), ghost(SpA, ifkey(s.internal))), ite(spLive(s), ghost(SpB, ifkey(s.internal)))
func (*trace.Span).Annotatef(s, attributes, format, a) ()
  props C12
  requires [inner] s != nil ==> s.internal != nil
  let k = ifkey(s.internal)
  ensures [passed] spLive(s) ==> SpOps(k) == old(SpOps(k)) + 1 && SpOp(k) == 6 && SpA(k) == arrof(attributes) && SpB(k) == len(attributes) && SpStr(k) == format && SpC(k) == arrof(a)
  modifies ite(spLive(s), ghost(SpOps, ifkey(s.internal))), ite(spLive(s), ghost(SpOp, ifkey(s.internal))), ite(spLive(s), ghost(SpStr, ifkey(s.internal))), ite(spLive(s), ghost(SpA, ifkey(s.internal))), ite(spLive(s), ghost(SpB, ifkey(s.internal))), ite(spLive(s), ghost(SpC, ifkey(s.internal)))
func (*trace.Span).AddMessageSendEvent(s, messageID, uncompressedByteSize, compressedByteSize) ()
  props C12
  requires [inner] s != nil ==> s.internal != nil
  let k = ifkey(s.internal)
  ensures [passed] spLive(s) ==> SpOps(k) == old(SpOps(k)) + 1 && SpOp(k) == 7 && SpA(k) == messageID && SpB(k) == uncompressedByteSize && SpC(k) == compressedByteSize
  modifies ite(spLive(s), ghost(SpOps, ifkey(s.internal))), ite(spLive(s), ghost(SpOp, ifkey(s.internal))), ite(spLive(s), ghost(SpA, ifkey(s.internal))), ite(spLive(s), ghost(SpB, ifkey(s.internal))), ite(spLive(s), ghost(SpC, ifkey(s.internal)))
func (*trace.Span).AddMessageReceiveEvent(s, messageID, uncompressedByteSize, compressedByteSize) ()
  props C12
  requires [inner] s != nil ==> s.internal != nil
  let k = ifkey(s.internal)
  ensures [passed] spLive(s) ==> SpOps(k) == old(SpOps(k)) + 1 && SpOp(k) == 8 && SpA(k) == messageID && SpB(k) == uncompressedByteSize && SpC(k) == compressedByteSize
  modifies ite(spLive(s), ghost(SpOps, ifkey(s.internal))), ite(spLive(s), ghost(SpOp, ifkey(s.internal))), ite(spLive(s), ghost(SpA, ifkey(s.internal))), ite(spLive(s), ghost(SpB, ifkey(s.internal))), ite(spLive(s), ghost(SpC, ifkey(s.internal)))
func (*trace.Span).AddLink(s, l) ()
  props C12
  requires [inner] s != nil ==> s.internal != nil
  let k = ifkey(s.internal)
  ensures [passed] spLive(s) ==> SpOps(k) == old(SpOps(k)) + 1 && SpOp(k) == 9 && SpA(k) == l.Type
  modifies ite(spLive(s), ghost(SpOps, ifkey(s.internal))), ite(spLive(s), ghost(SpOp, ifkey(s.internal))), ite(spLive(s), ghost(SpA, ifkey(s.internal)))
func (*trace.Span).IsRecordingEvents(s) (r)
  props C12
  requires [inner] s != nil ==> s.internal != nil
  ensures [iff] r == spLive(s)
  pure
func (*trace.Span).SpanContext(s) (r)
  props C12
  requires [inner] s != nil ==> s.internal != nil
  ensures [ctx] s != nil ==> r == spCtx(ifkey(s.internal))
  ensures [nil] s == nil ==> r == zero(SpanContext)
  pure
