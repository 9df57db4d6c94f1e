package trace
// C15: latency buckets partition the durations
def lbound(i int) = ite(i <= 0, 0, ite(i == 1, 10000, ite(i == 2, 100000, ite(i == 3, 1000000, ite(i == 4, 10000000, ite(i == 5, 100000000, ite(i == 6, 1000000000, ite(i == 7, 10000000000, 60000000000))))))))
func trace.latencyBucket(latency) (r)
  props C15
  ensures [range] 0 <= r <= 8
  ensures [lower] 0 < r ==> lbound(r) <= latency
  ensures [upper] r < 8 ==> latency < lbound(r+1)
  loop [i int] 0 < i ==> lbound(i) <= latency
  loop [i int] 0 <= i <= 8
  pure
func trace.latencyBucketBounds(index) (lower, upper)
  props C15
  requires [index] 0 <= index <= 8
  ensures [lower] lower == lbound(index)
  ensures [upper] upper == ite(index == 8, 9223372036854775807, lbound(index+1))
  pure

// a bucket is a ring: bitem(b, i) is the i-th span it holds, oldest first
def bOK(b *bucket) = 0 <= b.nextIndex && (b.nextIndex < len(b.buffer) || b.nextIndex == 0) && (len(b.buffer) == 0 ==> b.nextIndex == 0)
def bsize(b *bucket) = ite(b.overflow, len(b.buffer), b.nextIndex)
def bitem(b *bucket, i int) = ite(!b.overflow, b.buffer[i], ite(i < len(b.buffer) - b.nextIndex, b.buffer[b.nextIndex+i], b.buffer[b.nextIndex+i-len(b.buffer)]))
func trace.makeBucket(bufferSize) (b)
  props C15
  requires [size] 0 <= bufferSize <= 100000
  ensures [empty] len(b.buffer) == bufferSize && b.nextIndex == 0 && !b.overflow && b.nextTime == zero(bucket).nextTime && fresh(b.buffer)
  ensures [nils] forall i int { b.buffer[i] } :: 0 <= i < bufferSize ==> b.buffer[i] == nil
func (*trace.bucket).size(b) (r)
  props C15
  requires [nonnil] b != nil
  ensures [size] r == bsize(b)
  pure
func (*trace.bucket).span(b, i) (r)
  props C15
  requires [nonnil] b != nil && bOK(b)
  requires [index] 0 <= i < bsize(b)
  ensures [item] r == bitem(b, i)
  pure
func (*trace.bucket).add(b, s) ()
  props C15
  requires [nonnil] b != nil && s != nil
  requires [ok] bOK(b)
  let keep = s.EndTime >= b.nextTime && len(b.buffer) > 0
  let n = bsize(b)
  ensures [ok] bOK(b) && len(b.buffer) == old(len(b.buffer))
  ensures [skip] !keep ==> b.nextTime == old(b.nextTime) && bsize(b) == n && forall i int :: 0 <= i < n ==> bitem(b, i) == old(bitem(b, i))
  ensures [time] keep ==> b.nextTime == s.EndTime + 1000000000
  ensures [newest] keep ==> bsize(b) == ite(n < len(b.buffer), n+1, n) && bitem(b, bsize(b)-1) == s
  ensures [room] keep && n < len(b.buffer) ==> forall i int :: 0 <= i < n ==> bitem(b, i) == old(bitem(b, i))
  ensures [full] keep && n == len(b.buffer) ==> forall i int :: 0 <= i < n-1 ==> bitem(b, i) == old(bitem(b, i+1))
  modifies b.nextTime, b.nextIndex, b.overflow, elems(b.buffer)
func (*trace.bucket).resize(b, n) ()
  props C15
  requires [nonnil] b != nil && bOK(b)
  requires [size] 0 <= n <= 100000
  let c = bsize(b)
  ensures [ok] bOK(b) && len(b.buffer) == n && fresh(b.buffer)
  ensures [size] bsize(b) == ite(c < n, c, n)
  ensures [newest] forall i int :: 0 <= i < bsize(b) ==> bitem(b, i) == old(bitem(b, i + c - ite(c < n, c, n)))
  loop [i int, nb []*SpanData] c < n ==> forall j int { nb[j] } :: 0 <= j < i ==> nb[j] == old(bitem(b, j))
  loop [i int, nb []*SpanData] c >= n ==> forall j int { nb[j] } :: 0 <= j < i ==> nb[j] == old(bitem(b, j + c - n))
  loop b.buffer == old(b.buffer) && b.nextIndex == old(b.nextIndex) && b.overflow == old(b.overflow)
  modifies b.buffer, b.nextIndex, b.overflow

// a store: nine latency buckets with buffers of their own, and error buckets by code
def latsOK(l []bucket) = len(l) == 9 && (forall i int { l[i].nextIndex } { l[i].buffer } :: 0 <= i < 9 ==> bOK(&l[i]))
def latsSep(l []bucket) = forall i int, j int { l[i].buffer, l[j].buffer } :: 0 <= i < j < 9 ==> arrof(l[i].buffer) != arrof(l[j].buffer) || l[i].buffer == nil
def errsOK(s *spanStore) = forall c int32 { has(s.errors, c) } :: has(s.errors, c) ==> s.errors[c] != nil && bOK(s.errors[c]) && rootof(s.errors[c]) != rootof(&s.latency[0])
func trace.newSpanStore(name, latencyBucketSize, errorBucketSize) (s)
  props C15
  requires [size] 0 <= latencyBucketSize <= 100000 && 0 <= errorBucketSize <= 100000
  ensures [new] s != nil && fresh(s) && s.active != nil && fresh(s.active) && len(s.active) == 0 && s.maxSpansPerErrorBucket == errorBucketSize && s.errors == nil
  ensures [lats] latsOK(s.latency) && fresh(s.latency)
  ensures [empty] forall i int { s.latency[i].buffer } :: 0 <= i < 9 ==> bsize(&s.latency[i]) == 0 && len(s.latency[i].buffer) == latencyBucketSize
  loop [i int, s *spanStore] forall j int { s.latency[j].nextIndex } { s.latency[j].buffer } :: 0 <= j < i ==> s.latency[j].nextIndex == 0 && !s.latency[j].overflow && len(s.latency[j].buffer) == latencyBucketSize
def spanLat(sd *SpanData) = let d = sd.EndTime - sd.StartTime in ite(d < 0, 0, ite(d > 9223372036854775807, 9223372036854775807, d))
def latIn(i int, d int) = (0 < i ==> lbound(i) <= d) && (i < 8 ==> d < lbound(i+1))
def keeps(b *bucket, sd *SpanData) = sd.EndTime >= b.nextTime && len(b.buffer) > 0
func (*trace.spanStore).finished(s, span, sd) ()
  props C15
  requires [nonnil] s != nil && sd != nil && s.active != nil
  requires [lats] latsOK(s.latency)
  requires [errs] errsOK(s)
  requires [max] 0 <= s.maxSpansPerErrorBucket <= 100000
  ensures [own] s.errors == old(s.errors) || fresh(s.errors)
  ensures [inactive] !has(s.active, span)
  ensures [latency] sd.Status.Code == 0 ==> forall i int { s.latency[i].nextIndex } :: 0 <= i < 9 && latIn(i, spanLat(sd)) && old(keeps(&s.latency[i], sd)) ==> bitem(&s.latency[i], bsize(&s.latency[i])-1) == sd
  ensures [one] forall i int { s.latency[i].nextIndex } :: 0 <= i < 9 && !(sd.Status.Code == 0 && latIn(i, spanLat(sd))) ==> s.latency[i].nextIndex == old(s.latency[i].nextIndex) && s.latency[i].overflow == old(s.latency[i].overflow) && s.latency[i].nextTime == old(s.latency[i].nextTime) && s.latency[i].buffer == old(s.latency[i].buffer)
  ensures [error] sd.Status.Code != 0 && old(has(s.errors, sd.Status.Code) && keeps(s.errors[sd.Status.Code], sd)) ==> s.errors[sd.Status.Code] == old(s.errors[sd.Status.Code]) && bitem(s.errors[sd.Status.Code], bsize(s.errors[sd.Status.Code])-1) == sd
  ensures [newerror] sd.Status.Code != 0 && old(!has(s.errors, sd.Status.Code)) && 0 < s.maxSpansPerErrorBucket && sd.EndTime >= zero(bucket).nextTime ==> has(s.errors, sd.Status.Code) && bsize(s.errors[sd.Status.Code]) == 1 && s.errors[sd.Status.Code].buffer[0] == sd && len(s.errors[sd.Status.Code].buffer) == s.maxSpansPerErrorBucket
  ensures [codes] forall c int32 { has(s.errors, c) } :: c != sd.Status.Code || sd.Status.Code == 0 ==> has(s.errors, c) == old(has(s.errors, c)) && (has(s.errors, c) ==> s.errors[c] == old(s.errors[c]))
  ensures [ok] latsOK(s.latency) && errsOK(s)
  modifies mapof(s.active), s.errors, mapof(s.errors), all(s.latency[0].buffer), all(s.latency[0].nextIndex), all(s.latency[0].overflow), all(s.latency[0].nextTime), all(s.latency[0].buffer[0])
func (*trace.spanStore).resize(s, latencyBucketSize, errorBucketSize) ()
  props C15
  requires [nonnil] s != nil
  requires [size] 0 <= latencyBucketSize <= 100000 && 0 <= errorBucketSize <= 100000
  requires [lats] latsOK(s.latency) && errsOK(s)
  ensures [lats] latsOK(s.latency) && forall i int { s.latency[i].buffer } :: 0 <= i < 9 ==> len(s.latency[i].buffer) == latencyBucketSize
  ensures [errs] errsOK(s) && forall c int32 { has(s.errors, c) } :: has(s.errors, c) ==> len(s.errors[c].buffer) == errorBucketSize
  ensures [max] s.maxSpansPerErrorBucket == errorBucketSize
  loop [i int] forall j int { s.latency[j].buffer } :: 0 <= j < i ==> len(s.latency[j].buffer) == latencyBucketSize
  loop [i int] latsOK(s.latency)
  loop forall i int { s.latency[i].buffer } :: 0 <= i < 9 ==> len(s.latency[i].buffer) == latencyBucketSize
  loop latsOK(s.latency) && errsOK(s)
  loop forall c int32 { visited(c) } :: visited(c) ==> len(s.errors[c].buffer) == errorBucketSize
  modifies s.maxSpansPerErrorBucket, elems(s.latency), all(s.latency[0].buffer), all(s.latency[0].nextIndex), all(s.latency[0].overflow)
func (*trace.spanStore).add(s, span) ()
  props C15
  requires [nonnil] s != nil && s.active != nil
  ensures [active] has(s.active, span)
  ensures [others] forall x SpanInterface { has(s.active, x) } :: x != span ==> has(s.active, x) == old(has(s.active, x))
  modifies mapof(s.active)
def spanLat0(sd *SpanData) = let d = sd.EndTime - sd.StartTime in ite(d < -9223372036854775808, -9223372036854775808, ite(d > 9223372036854775807, 9223372036854775807, d))
def durIn(sd *SpanData, lo int, hi int) = let d = spanLat0(sd) in lo <= d && (hi == 0 || d <= hi)
func (trace.internalOnly).ReportSpansByLatency(i, name, minLatency, maxLatency) (out)
  props C15
  requires [store] has(spanStores, name) && spanStores[name] != nil ==> len(spanStores[name].latency) == 9
  ensures [within] forall k int { out[k] } :: 0 <= k < len(out) && (minLatency != 0 || maxLatency != 0) ==> durIn(out[k], minLatency, maxLatency)
  ensures [none] !has(spanStores, name) ==> len(out) == 0
  loop [o_ []*SpanData] forall k int { o_[k] } :: 0 <= k < len(o_) ==> (minLatency != 0 || maxLatency != 0 ==> durIn(o_[k], minLatency, maxLatency))
func (trace.internalOnly).ReportSpansByError(i, name, code) (out)
  props C15
  let st = spanStores[name]
  requires [store] has(spanStores, name) && st != nil ==> errBuf(st) && errsOK(st)
  ensures [code] code != 0 ==> forall k int { out[k] } :: 0 <= k < len(out) ==> out[k].Status.Code == code
  ensures [none] !has(spanStores, name) ==> len(out) == 0
  loop [o_ []*SpanData] code != 0 ==> forall k int { o_[k] } :: 0 <= k < len(o_) ==> o_[k].Status.Code == code
  loop [o_ []*SpanData] o_ != nil ==> fresh(o_)
def errBuf(s *spanStore) = forall c int32, j int { s.errors[c].buffer[j] } :: has(s.errors, c) && 0 <= j < len(s.errors[c].buffer) && s.errors[c].buffer[j] != nil ==> s.errors[c].buffer[j].Status.Code == c
func trace.spanStoreForNameCreateIfNew(name) (s)
  props C15
  requires [stores] spanStores != nil
  ensures [there] has(spanStores, name) && spanStores[name] == s
  ensures [kept] old(has(spanStores, name)) ==> s == old(spanStores[name]) && mapunchanged(spanStores)
  ensures [new] !old(has(spanStores, name)) ==> s != nil && fresh(s) && latsOK(s.latency) && s.errors == nil && s.maxSpansPerErrorBucket == defaultBucketSize && len(s.active) == 0 && s.active != nil && fresh(s.active)
  ensures [others] forall x string { has(spanStores, x) } :: x != name ==> has(spanStores, x) == old(has(spanStores, x)) && (has(spanStores, x) ==> spanStores[x] == old(spanStores[x]))
  modifies mapof(spanStores)
func trace.spanStoreSetSize(name, latencyBucketSize, errorBucketSize) ()
  props C15
  requires [stores] spanStores != nil
  requires [size] 0 <= latencyBucketSize <= 100000 && 0 <= errorBucketSize <= 100000
  requires [store] has(spanStores, name) ==> spanStores[name] != nil && latsOK(spanStores[name].latency) && errsOK(spanStores[name])
  ensures [there] has(spanStores, name)
  ensures [kept] old(has(spanStores, name)) ==> spanStores[name] == old(spanStores[name])
  ensures [max] spanStores[name].maxSpansPerErrorBucket == errorBucketSize
  let s = spanStores[name]
  modifies s.maxSpansPerErrorBucket, elems(s.latency), all(s.latency[0].buffer), all(s.latency[0].nextIndex), all(s.latency[0].overflow), mapof(spanStores)
