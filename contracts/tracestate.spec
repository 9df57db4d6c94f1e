package trace/tracestate
import regexp regexp
fun reMatch(re *regexp.Regexp, s string) bool
extern (*regexp.Regexp).MatchString(re, s) (r)
  ensures [match] r == reMatch(re, s)
  pure
def okEntry(e Entry) = reMatch(keyValidationRegExp, e.Key) && reMatch(valueValidationRegExp, e.Value)
def uniq(e []Entry) = forall i int, j int { e[i].Key, e[j].Key } :: 0 <= i < j && j < len(e) ==> e[i].Key != e[j].Key
func trace/tracestate.isValid(entry) (r)
  props C07
  ensures [both] r == okEntry(entry)
func trace/tracestate.areEntriesValid(entries) (bad, ok)
  props C07
  ensures [valid] ok ==> forall i int { entries[i].Key } :: 0 <= i < len(entries) ==> okEntry(entries[i])
  ensures [invalid] !ok ==> bad != nil && exists i int :: 0 <= i < len(entries) && !okEntry(entries[i])
  loop [i_ int] forall j int { entries[j].Key } :: 0 <= j <= i_ && j < len(entries) ==> okEntry(entries[j])
func trace/tracestate.containsDuplicateKey(entries) (k, dup)
  props C07
  ensures [unique] !dup ==> uniq(entries)
  ensures [dup] dup ==> exists i int, j int :: 0 <= i < j && j < len(entries) && entries[i].Key == entries[j].Key
  loop [m map[string]int] m != nil && fresh(m)
  loop [i_ int, m map[string]int] forall j int { entries[j].Key } :: 0 <= j <= i_ && j < len(entries) ==> has(m, entries[j].Key)
  loop [i_ int, m map[string]int] forall k string { has(m, k) } :: has(m, k) ==> exists j int :: 0 <= j <= i_ && j < len(entries) && entries[j].Key == k
  loop [i_ int] forall a int, b int { entries[a].Key, entries[b].Key } :: 0 <= a < b && b <= i_ && b < len(entries) ==> entries[a].Key != entries[b].Key
func (*trace/tracestate.Tracestate).remove(ts, key) (r)
  props C07
  requires [ts] ts != nil && uniq(ts.entries)
  let n = len(ts.entries)
  ensures [array] arrof(ts.entries) == old(arrof(ts.entries)) && base(ts.entries) == old(base(ts.entries)) && cap(ts.entries) == old(cap(ts.entries))
  ensures [gone] forall i int { ts.entries[i].Key } :: 0 <= i < len(ts.entries) ==> ts.entries[i].Key != key
  ensures [absent] (forall i int { old(ts.entries[i].Key) } :: 0 <= i < n ==> old(ts.entries[i].Key) != key) ==> len(ts.entries) == n && forall i int { ts.entries[i] } :: 0 <= i < n ==> same(ts.entries[i], old(ts.entries[i]))
  ensures [present] (exists p int :: 0 <= p < n && old(ts.entries[p].Key) == key) ==> len(ts.entries) == n-1 && exists p int :: 0 <= p < n && old(ts.entries[p].Key) == key && (forall i int { ts.entries[i] } :: 0 <= i < p ==> same(ts.entries[i], old(ts.entries[i]))) && (forall i int { ts.entries[i] } :: p <= i < n-1 ==> same(ts.entries[i], old(ts.entries[i+1])))
  ensures [from] forall i int { ts.entries[i].Key } :: 0 <= i < len(ts.entries) ==> same(ts.entries[i], old(ts.entries[i])) || (i+1 < n && same(ts.entries[i], old(ts.entries[i+1])))
  ensures [kept] forall i int { old(ts.entries[i].Key) } :: 0 <= i < n && old(ts.entries[i].Key) != key ==> (i < len(ts.entries) && same(ts.entries[i], old(ts.entries[i]))) || (0 < i && i <= len(ts.entries) && same(ts.entries[i-1], old(ts.entries[i])))
  ensures [unique] uniq(ts.entries)
  modifies ts.entries, ite(len(ts.entries) > 0, elems(ts.entries))
  loop [i_ int] forall j int { ts.entries[j].Key } :: 0 <= j <= i_ && j < len(ts.entries) ==> ts.entries[j].Key != key
func (*trace/tracestate.Tracestate).add(ts, entries) (err)
  props C07
  requires [ts] ts != nil && uniq(ts.entries) && uniq(entries)
  requires [apart] len(ts.entries) == 0 || len(entries) == 0 || rootof(ts.entries) != rootof(entries)
  let n = len(ts.entries)
  let m = len(entries)
  ensures [bound] err == nil ==> m <= len(ts.entries) && len(ts.entries) <= 32 && len(ts.entries) <= n + m
  ensures [copied] err == nil && len(ts.entries) > 0 ==> fresh(ts.entries)
  ensures [front] err == nil ==> forall i int { ts.entries[i] } :: 0 <= i < m ==> same(ts.entries[i], old(entries[i]))
  ensures [gone] err == nil ==> forall i int, j int { ts.entries[i].Key, old(entries[j].Key) } :: m <= i < len(ts.entries) && 0 <= j < m ==> ts.entries[i].Key != old(entries[j].Key)
  ensures [from] err == nil ==> forall i int { ts.entries[i].Key } :: m <= i < len(ts.entries) ==> exists j int :: 0 <= j < n && same(ts.entries[i], old(ts.entries[j]))
  ensures [kept] err == nil ==> forall j int { old(ts.entries[j].Key) } :: 0 <= j < n && (forall e int { old(entries[e].Key) } :: 0 <= e < m ==> old(entries[e].Key) != old(ts.entries[j].Key)) ==> exists i int :: 0 <= i < len(ts.entries) - m && same(ts.entries[m+i], old(ts.entries[j]))
  ensures [unique] err == nil ==> uniq(ts.entries)
  ensures [caller] forall i int { entries[i] } :: 0 <= i < m ==> same(entries[i], old(entries[i]))
  modifies ts.entries, ite(len(ts.entries) > 0, elems(ts.entries))
  loop [] forall i int { entries[i] } :: 0 <= i < m ==> same(entries[i], old(entries[i]))
  loop [] len(ts.entries) <= n && arrof(ts.entries) == old(arrof(ts.entries)) && base(ts.entries) == old(base(ts.entries))
  loop [] uniq(ts.entries)
  loop [i_ int] forall i int, j int { ts.entries[i].Key, old(entries[j].Key) } :: 0 <= i < len(ts.entries) && 0 <= j <= i_ && j < m ==> ts.entries[i].Key != old(entries[j].Key)
  loop [] forall i int { ts.entries[i].Key } :: 0 <= i < len(ts.entries) ==> exists j int :: 0 <= j < n && same(ts.entries[i], old(ts.entries[j]))
  loop [i_ int] forall j int { old(ts.entries[j].Key) } :: 0 <= j < n && (forall e int { old(entries[e].Key) } :: 0 <= e <= i_ && e < m ==> old(entries[e].Key) != old(ts.entries[j].Key)) ==> exists i int :: 0 <= i < len(ts.entries) && same(ts.entries[i], old(ts.entries[j]))
func trace/tracestate.New(parent, entries) (r, err)
  props C07
  requires [parent] parent != nil ==> uniq(parent.entries) && len(parent.entries) <= 32
  let n = ite(parent == nil, 0, len(parent.entries))
  let m = len(entries)
  ensures [failed] err != nil ==> r == nil
  ensures [valid] err == nil ==> forall i int { entries[i].Key } :: 0 <= i < m ==> okEntry(entries[i])
  ensures [nodup] err == nil ==> uniq(entries)
  ensures [empty] err == nil ==> (r == nil) == (parent == nil && m == 0)
  ensures [bound] r != nil ==> m <= len(r.entries) && len(r.entries) <= 32 && len(r.entries) <= n + m
  ensures [copied] r != nil && len(r.entries) > 0 ==> fresh(r.entries) && fresh(r)
  ensures [front] r != nil ==> forall i int { r.entries[i] } :: 0 <= i < m ==> same(r.entries[i], entries[i])
  ensures [gone] r != nil ==> forall i int, j int { r.entries[i].Key, entries[j].Key } :: m <= i < len(r.entries) && 0 <= j < m ==> r.entries[i].Key != entries[j].Key
  ensures [from] r != nil ==> forall i int { r.entries[i].Key } :: m <= i < len(r.entries) ==> exists j int :: 0 <= j < n && same(r.entries[i], parent.entries[j])
  ensures [kept] r != nil ==> forall j int { parent.entries[j].Key } :: 0 <= j < n && (forall e int { entries[e].Key } :: 0 <= e < m ==> entries[e].Key != parent.entries[j].Key) ==> exists i int :: 0 <= i < len(r.entries) - m && same(r.entries[m+i], parent.entries[j])
  ensures [unique] r != nil ==> uniq(r.entries)
func (*trace/tracestate.Tracestate).Entries(ts) (r)
  props C07
  ensures [none] ts == nil ==> r == nil
  ensures [all] ts != nil ==> same(r, ts.entries)
