package tag
import context
// C02: valid names and values
def asciiN(s string, n int) = forall i int { s[i] } :: 0 <= i < n ==> 32 <= s[i] <= 126
func tag.isASCII(s) (r)
  props C02
  ensures [iff] r ==> asciiN(s, len(s))
  ensures [iff2] !r ==> exists i int { s[i] } :: 0 <= i < len(s) && !(32 <= s[i] <= 126)
  loop forall i int { s[i] } :: 0 <= i < iterN() ==> 32 <= s[i] <= 126
  loop [n int] forall i int { s[i] } :: 0 <= i < n ==> 32 <= s[i] <= 126

def okKey(s string) = 0 < len(s) <= 255 && asciiN(s, len(s))
def okVal(s string) = len(s) <= 255 && asciiN(s, len(s))
func tag.checkKeyName(name) (r)
  props C02
  ensures [iff] r == okKey(name)
func tag.checkValue(v) (r)
  props C02
  ensures [iff] r == okVal(v)
func tag.NewKey(name) (k, err)
  props C02
  ensures [ok] okKey(name) ==> err == nil && k.name == name
  ensures [bad] !okKey(name) ==> err != nil && k.name == ""
func tag.MustNewKey(name) (k)
  props C02
  panics !okKey(name)
  ensures [ok] k.name == name

// C01: one tag
func (*tag.Map).Value(m, k) (v, ok)
  props C01
  ensures [value] v == ite(m == nil, "", ite(has(m.m, k), m.m[k].value, ""))
  ensures [ok] ok == (m != nil && has(m.m, k))
  pure
def others(m *Map, k Key) = forall o Key { has(m.m, o) } :: o != k ==> has(m.m, o) == old(has(m.m, o)) && (has(m.m, o) ==> m.m[o] == old(m.m[o]))
func (*tag.Map).insert(m, k, v, md) ()
  props C01
  requires [nonnil] m != nil && m.m != nil
  ensures [set] has(m.m, k) && ite(old(has(m.m, k)), m.m[k] == old(m.m[k]), m.m[k].value == v && m.m[k].m == md)
  ensures [others] others(m, k)
  modifies mapof(m.m)
func (*tag.Map).update(m, k, v, md) ()
  props C01
  requires [nonnil] m != nil && m.m != nil
  ensures [set] has(m.m, k) == old(has(m.m, k)) && (has(m.m, k) ==> m.m[k].value == v && m.m[k].m == md)
  ensures [others] others(m, k)
  modifies mapof(m.m)
func (*tag.Map).upsert(m, k, v, md) ()
  props C01
  requires [nonnil] m != nil && m.m != nil
  ensures [set] has(m.m, k) && m.m[k].value == v && m.m[k].m == md
  ensures [others] others(m, k)
  modifies mapof(m.m)
func (*tag.Map).delete(m, k) ()
  props C01
  requires [nonnil] m != nil
  ensures [set] !has(m.m, k)
  ensures [others] others(m, k)
  modifies mapof(m.m)
func tag.newMap() (m)
  props C01
  ensures [fresh] m != nil && fresh(m) && m.m != nil && fresh(m.m)
  ensures [empty] forall o Key { has(m.m, o) } :: !has(m.m, o)

// metadata: a caller-supplied Metadata is some function of the previous metadata; WithTTL's are known
fun mdttl(f Metadata, t int) int
def mdsIs(t int, mds []Metadata) = (len(mds) == 0 ==> t == -1) && (len(mds) == 1 && mds[0] != nil ==> t == mdttl(mds[0], 0))
iface tag.Metadata(f, p) ()
  requires [nonnil] p != nil
  ensures [fn] p.ttl.ttl == mdttl(f, old(p.ttl.ttl))
  modifies p.ttl
func tag.createMetadatas(mds) (r)
  props C01
  ensures [default] len(mds) == 0 ==> r.ttl.ttl == -1
  ensures [one] len(mds) == 1 && mds[0] != nil ==> r.ttl.ttl == mdttl(mds[0], 0)
  loop [i int, p *metadatas] i <= 0 ==> p.ttl.ttl == 0
  loop [i int, p *metadatas] i == 1 && mds[0] != nil ==> p.ttl.ttl == mdttl(mds[0], 0)

func tag.govcWithTTL(t, m) ()
  inlineof tag.WithTTL
  props C01
  requires [nonnil] m != nil
  ensures [ttl] m.ttl.ttl == t.ttl
  modifies m.ttl

// the four mutators, as seen through Mutate (C01, C02)
func tag.govcInsert(m, k, v, mds) (r, err)
  props C01 C02
  requires [nonnil] m != nil && m.m != nil
  ensures [ok] (err == nil) == okVal(v)
  ensures [same] err == nil ==> r == m
  ensures [set] err == nil ==> has(m.m, k) && ite(old(has(m.m, k)), m.m[k] == old(m.m[k]), m.m[k].value == v && mdsIs(m.m[k].m.ttl.ttl, mds))
  ensures [others] others(m, k)
  ensures [invalid] err != nil ==> r == nil && mapunchanged(m.m)
  modifies mapof(m.m)
func tag.govcUpdate(m, k, v, mds) (r, err)
  props C01 C02
  requires [nonnil] m != nil && m.m != nil
  ensures [ok] (err == nil) == okVal(v)
  ensures [same] err == nil ==> r == m
  ensures [set] err == nil ==> has(m.m, k) == old(has(m.m, k)) && (has(m.m, k) ==> m.m[k].value == v && mdsIs(m.m[k].m.ttl.ttl, mds))
  ensures [others] others(m, k)
  ensures [invalid] err != nil ==> r == nil && mapunchanged(m.m)
  modifies mapof(m.m)
func tag.govcUpsert(m, k, v, mds) (r, err)
  props C01 C02
  requires [nonnil] m != nil && m.m != nil
  ensures [ok] (err == nil) == okVal(v)
  ensures [same] err == nil ==> r == m
  ensures [set] err == nil ==> has(m.m, k) && m.m[k].value == v && mdsIs(m.m[k].m.ttl.ttl, mds)
  ensures [others] others(m, k)
  ensures [invalid] err != nil ==> r == nil && mapunchanged(m.m)
  modifies mapof(m.m)
func tag.govcDelete(m, k) (r, err)
  props C01
  requires [nonnil] m != nil
  ensures [ok] err == nil && r == m
  ensures [set] !has(m.m, k)
  ensures [others] others(m, k)
  modifies mapof(m.m)
func tag.govcRoundTrip(ctx, m) (r)
  props C01
  requires [ctx] ctx != nil
  ensures [same] r == m

// only this package can use the key, and it only stores *Map under it
axiom tagKeyType : forall c context.Context { ctxval(c, mapCtxKey) } :: ctxval(c, mapCtxKey) == nil || typeis(ctxval(c, mapCtxKey), *Map)
def tagsOf(c context.Context) = ite(ctxval(c, mapCtxKey) == nil, nil, as(ctxval(c, mapCtxKey), *Map))
func tag.FromContext(ctx) (m)
  props C01
  requires [ctx] ctx != nil
  ensures [map] m == tagsOf(ctx)
func tag.NewContext(ctx, m) (r)
  props C01
  requires [ctx] ctx != nil
  ensures [map] r != nil && tagsOf(r) == m

// deriving: the n-th Mutate call is recorded with its mutator, its map, and the entry of one arbitrary
// key before and after it
ghost MutN int int
ghost MutLog int Mutator
ghost MutArg int *Map
ghost AnyKey int Key
ghost HasB int bool
ghost HasA int bool
ghost ValB int tagContent
ghost ValA int tagContent
def akHas(m *Map) = has(m.m, AnyKey(0))
def akVal(m *Map) = m.m[AnyKey(0)]
iface (tag.Mutator).Mutate(mu, t) (r, err)
  requires [nonnil] t != nil && t.m != nil
  let n = MutN(0)
  ensures [log] MutN(0) == n + 1 && MutLog(n) == mu && MutArg(n) == t
  ensures [before] HasB(n) == old(akHas(t)) && (HasB(n) ==> ValB(n) == old(akVal(t)))
  ensures [after] HasA(n) == akHas(t) && (HasA(n) ==> ValA(n) == akVal(t))
  ensures [same] err == nil ==> r == t
  modifies mapof(t.m), ghost(MutN, 0), ghost(MutLog, MutN(0)), ghost(MutArg, MutN(0)), ghost(HasB, MutN(0)), ghost(HasA, MutN(0)), ghost(ValB, MutN(0)), ghost(ValA, MutN(0))

func tag.New(ctx, mutator) (c, err)
  props C01
  requires [ctx] ctx != nil
  requires [nonnil] forall i int { mutator[i] } :: 0 <= i < len(mutator) ==> mutator[i] != nil
  let o = tagsOf(ctx)
  let n = MutN(0)
  ensures [parent] err != nil ==> c == ctx
  ensures [new] err == nil ==> c != nil && tagsOf(c) != nil && fresh(tagsOf(c)) && fresh(tagsOf(c).m)
  ensures [count] err == nil ==> MutN(0) == n + len(mutator)
  ensures [order] err == nil ==> forall i int { MutLog(n+i) } :: 0 <= i < len(mutator) ==> MutLog(n+i) == old(mutator[i]) && MutArg(n+i) == tagsOf(c)
  ensures [copy] err == nil && len(mutator) == 0 ==> akHas(tagsOf(c)) == (o != nil && old(akHas(o))) && (akHas(tagsOf(c)) ==> akVal(tagsOf(c)) == old(akVal(o)))
  ensures [first] err == nil && len(mutator) > 0 ==> HasB(n) == (o != nil && old(akHas(o))) && (HasB(n) ==> ValB(n) == old(akVal(o)))
  ensures [chain] err == nil ==> forall i int { HasB(n+i) } :: 0 < i < len(mutator) ==> HasB(n+i) == HasA(n+i-1) && (HasB(n+i) ==> ValB(n+i) == ValA(n+i-1))
  ensures [last] err == nil && len(mutator) > 0 ==> akHas(tagsOf(c)) == HasA(n+len(mutator)-1) && (akHas(tagsOf(c)) ==> akVal(tagsOf(c)) == ValA(n+len(mutator)-1))
  modifies ghost(MutN), ghost(MutLog), ghost(MutArg), ghost(HasB), ghost(HasA), ghost(ValB), ghost(ValA)
  loop [m *Map] m != nil && fresh(m) && m.m != nil && fresh(m.m)
  loop [i int] MutN(0) == n + i
  loop MutN(0) == n
  loop [i int, m *Map] forall j int { MutLog(n+j) } :: 0 <= j < i ==> MutLog(n+j) == old(mutator[j]) && MutArg(n+j) == m
  loop [i int] i > 0 ==> HasB(n) == (o != nil && old(akHas(o))) && (HasB(n) ==> ValB(n) == old(akVal(o)))
  loop [i int] forall j int { HasB(n+j) } :: 0 < j < i ==> HasB(n+j) == HasA(n+j-1) && (HasB(n+j) ==> ValB(n+j) == ValA(n+j-1))
  loop [i int, m *Map] i > 0 ==> akHas(m) == HasA(n+i-1) && (akHas(m) ==> akVal(m) == ValA(n+i-1))
  loop [i int, m *Map] i == 0 ==> akHas(m) == (o != nil && old(akHas(o))) && (akHas(m) ==> akVal(m) == old(akVal(o)))
  loop [m *Map] forall k Key { visited(k) } :: visited(k) ==> has(m.m, k) && m.m[k] == old(o.m[k])
  loop [m *Map] forall k Key { has(m.m, k) } :: has(m.m, k) ==> visited(k)
