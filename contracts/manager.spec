package metric/metricproducer

def noNilP(m map[Producer]struct{}) = forall x Producer { has(m, x) } :: has(m, x) ==> x != nil

// C24: the manager's set of producers
func (*metric/metricproducer.Manager).AddProducer(pm, producer) ()
  props C24
  requires [nonnil] pm != nil && pm.producers != nil && noNilP(pm.producers)
  ensures [in] producer != nil ==> has(pm.producers, producer)
  ensures [others] forall x Producer { has(pm.producers, x) } :: x != producer || producer == nil ==> has(pm.producers, x) == old(has(pm.producers, x))
  ensures [noNil] noNilP(pm.producers)
  modifies mapof(pm.producers)
func (*metric/metricproducer.Manager).DeleteProducer(pm, producer) ()
  props C24
  requires [nonnil] pm != nil && pm.producers != nil && noNilP(pm.producers)
  ensures [out] producer != nil ==> !has(pm.producers, producer)
  ensures [others] forall x Producer { has(pm.producers, x) } :: x != producer || producer == nil ==> has(pm.producers, x) == old(has(pm.producers, x))
  ensures [noNil] noNilP(pm.producers)
  modifies mapof(pm.producers)
func (*metric/metricproducer.Manager).GetAll(pm) (r)
  props C24
  requires [nonnil] pm != nil && pm.producers != nil && noNilP(pm.producers)
  ensures [count] len(r) == len(pm.producers)
  ensures [members] forall i int { r[i] } :: 0 <= i < len(r) ==> has(pm.producers, r[i])
  ensures [noNil] forall i int { r[i] } :: 0 <= i < len(r) ==> r[i] != nil
  ensures [once] forall i int, j int { r[i], r[j] } :: 0 <= i < j < len(r) ==> r[i] != r[j]
  ensures [every] forall x Producer { has(pm.producers, x) } :: has(pm.producers, x) ==> exists i int :: 0 <= i < len(r) && same(r[i], x)
  ensures [copy] len(r) > 0 ==> fresh(r)
  loop [r_ []Producer, i_ int] i_ == iterN() && len(r_) == len(pm.producers)
  loop [r_ []Producer] fresh(r_)
  loop [r_ []Producer] len(r_) == iterN()
  loop [r_ []Producer] forall i int { r_[i] } :: 0 <= i < iterN() ==> visited(r_[i])
  loop [r_ []Producer] forall i int, j int { r_[i], r_[j] } :: 0 <= i < j < iterN() ==> r_[i] != r_[j]
  loop [r_ []Producer] forall x Producer { visited(x) } :: visited(x) ==> exists i int :: 0 <= i < iterN() && same(r_[i], x)
// C24, C25: the global manager is made once
def mgrOK() = oncedone(once) ==> prodMgr != nil && prodMgr.producers != nil && allocated(prodMgr) && noNilP(prodMgr.producers)
func metric/metricproducer.GlobalManager() (m)
  props C24
  requires [made] mgrOK()
  ensures [one] m != nil && m.producers != nil && m == prodMgr && oncedone(once)
  ensures [kept] old(oncedone(once)) ==> m == old(prodMgr) && unchanged(m.producers)
  ensures [empty] !old(oncedone(once)) ==> len(m.producers) == 0 && fresh(m)
  modifies once(once), prodMgr
