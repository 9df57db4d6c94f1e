package resource
import context context
func resource.merge(a, b) (r)
  props C26
  requires [made] (a != nil ==> a.Labels == nil || allocated(a.Labels)) && (b != nil ==> b.Labels == nil || allocated(b.Labels))
  ensures [onlyb] a == nil ==> r == b
  ensures [onlya] a != nil && b == nil ==> r == a
  ensures [type] a != nil && b != nil ==> r.Type == ite(old(a.Type) == "", old(b.Type), old(a.Type))
  ensures [fresh] a != nil && b != nil ==> r != nil && fresh(r) && r.Labels != nil && fresh(r.Labels)
  ensures [keys] a != nil && b != nil ==> forall k string { has(r.Labels, k) } :: has(r.Labels, k) == (has(a.Labels, k) || has(b.Labels, k))
  ensures [first] a != nil && b != nil ==> forall k string { r.Labels[k] } :: has(a.Labels, k) ==> r.Labels[k] == a.Labels[k]
  ensures [second] a != nil && b != nil ==> forall k string { r.Labels[k] } :: !has(a.Labels, k) && has(b.Labels, k) ==> r.Labels[k] == b.Labels[k]
  loop [m *Resource] forall k string { visited(k) } { has(m.Labels, k) } :: has(m.Labels, k) == visited(k)
  loop [m *Resource] forall k string { m.Labels[k] } { visited(k) } :: visited(k) ==> m.Labels[k] == b.Labels[k]
  loop [m *Resource] forall k string { visited(k) } { has(m.Labels, k) } :: has(m.Labels, k) == (visited(k) || has(b.Labels, k))
  loop [m *Resource] forall k string { m.Labels[k] } { visited(k) } :: visited(k) ==> m.Labels[k] == a.Labels[k]
  loop [m *Resource] forall k string { m.Labels[k] } :: !visited(k) && has(b.Labels, k) ==> m.Labels[k] == b.Labels[k]
// what detector f answers in context ctx (assumed: it leaves the program's own state alone and answers the same when asked again)
fun detR(f Detector, ctx context.Context) *Resource
fun detE(f Detector, ctx context.Context) error
def hasL(r *Resource, k string) = r != nil && has(r.Labels, k)
iface resource.Detector(f, ctx) (r, err)
  ensures [answer] r == detR(f, ctx) && same(err, detE(f, ctx))
  ensures [made] r != nil ==> r.Labels == nil || allocated(r.Labels)
func resource.detectAll(ctx, ds) (r, err)
  props C26
  requires [funcs] forall i int { ds[i] } :: 0 <= i < len(ds) ==> ds[i] != nil
  ensures [error] err != nil ==> r == nil && exists i int :: 0 <= i < len(ds) && same(err, detE(ds[i], ctx))
  ensures [ok] err == nil ==> forall i int { ds[i] } :: 0 <= i < len(ds) ==> detE(ds[i], ctx) == nil
  ensures [some] err == nil ==> forall i int { ds[i] } :: 0 <= i < len(ds) && detR(ds[i], ctx) != nil ==> r != nil
  ensures [first] err == nil ==> forall i int, k string { ds[i], has(r.Labels, k) } :: 0 <= i < len(ds) && hasL(detR(ds[i], ctx), k) && (forall j int { ds[j] } :: 0 <= j < i ==> !hasL(detR(ds[j], ctx), k)) ==> has(r.Labels, k) && r.Labels[k] == detR(ds[i], ctx).Labels[k]
  ensures [type] err == nil ==> forall i int { ds[i] } :: 0 <= i < len(ds) && detR(ds[i], ctx) != nil && detR(ds[i], ctx).Type != "" && (forall j int { ds[j] } :: 0 <= j < i ==> detR(ds[j], ctx) == nil || detR(ds[j], ctx).Type == "") ==> r.Type == detR(ds[i], ctx).Type
  ensures [only] err == nil ==> forall k string { has(r.Labels, k) } :: hasL(r, k) ==> exists i int :: 0 <= i < len(ds) && hasL(detR(ds[i], ctx), k)
  loop [i_ int] forall i int { ds[i] } :: 0 <= i <= i_ && i < len(ds) ==> detE(ds[i], ctx) == nil
  loop [i_ int, r_ *Resource] forall i int { ds[i] } :: 0 <= i <= i_ && i < len(ds) && detR(ds[i], ctx) != nil ==> r_ != nil
  loop [r_ *Resource] r_ != nil ==> r_.Labels == nil || allocated(r_.Labels)
  loop [i_ int, r_ *Resource] forall i int, k string { ds[i], has(r_.Labels, k) } :: 0 <= i <= i_ && i < len(ds) && hasL(detR(ds[i], ctx), k) && (forall j int { ds[j] } :: 0 <= j < i ==> !hasL(detR(ds[j], ctx), k)) ==> has(r_.Labels, k) && r_.Labels[k] == detR(ds[i], ctx).Labels[k]
  loop [i_ int, r_ *Resource] forall i int { ds[i] } :: 0 <= i <= i_ && i < len(ds) && detR(ds[i], ctx) != nil && detR(ds[i], ctx).Type != "" && (forall j int { ds[j] } :: 0 <= j < i ==> detR(ds[j], ctx) == nil || detR(ds[j], ctx).Type == "") ==> r_.Type == detR(ds[i], ctx).Type
  loop [i_ int, r_ *Resource] forall k string { has(r_.Labels, k) } :: hasL(r_, k) ==> exists i int :: 0 <= i <= i_ && i < len(ds) && hasL(detR(ds[i], ctx), k)
  loop [i_ int, r_ *Resource] r_ != nil && r_.Type != "" ==> exists i int :: 0 <= i <= i_ && i < len(ds) && detR(ds[i], ctx) != nil && detR(ds[i], ctx).Type != ""
