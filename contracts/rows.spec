// C18: the row signature is a sequence of length-prefixed tag values
package internal/tagencoding
fun dpos(s string, i int) int
axiom dpos0 : forall s string { dpos(s, 0) } :: dpos(s, 0) == 0
axiom dposS : forall s string, i int { dpos(s, i+1) } :: 0 <= i ==> dpos(s, i+1) == dpos(s, i) + 1 + s[dpos(s, i)]
def dval(s string, i int) = s[dpos(s, i)+1 : dpos(s, i)+1+s[dpos(s, i)]]
lemma dposMono induct j : forall s string, i int, j int { dpos(s, i), dpos(s, j) } :: 0 <= i <= j ==> dpos(s, i) + (j-i) <= dpos(s, j)
lemma dposCat induct i : forall s string, t string, i int { dpos(s+t, i) } :: 0 <= i && dpos(s, i) <= len(s) ==> dpos(s+t, i) == dpos(s, i)
// two well-formed encodings with the same values are the same string
lemma dposSame induct i final props C18 : forall s string, t string, i int { dpos(s, i), dpos(t, i) } :: 0 <= i && dpos(s, i) <= len(s) && dpos(t, i) <= len(t) &&
   (forall j int :: 0 <= j < i ==> dval(s, j) == dval(t, j)) ==> dpos(s, i) == dpos(t, i)

func (*internal/tagencoding.Values).WriteValue(vb, v) ()
  props C18 C22
  requires [nonnil] vb != nil
  requires [index] 0 <= vb.WriteIndex <= len(vb.Buffer)
  requires [short] len(v) < 256
  requires [noalias] arrof(v) != arrof(vb.Buffer)
  ensures [index] vb.WriteIndex == old(vb.WriteIndex) + 1 + len(v) && vb.WriteIndex <= len(vb.Buffer)
  ensures [bytes] str(vb.Buffer[:vb.WriteIndex]) == old(str(vb.Buffer[:vb.WriteIndex])) + chr(len(v)) + old(str(v))
  ensures [buffer] arrof(vb.Buffer) == old(arrof(vb.Buffer)) || fresh(vb.Buffer)
  modifies vb.Buffer, vb.WriteIndex, elems(vb.Buffer)

func (*internal/tagencoding.Values).ReadValue(vb) (v)
  props C18 C22
  requires [nonnil] vb != nil
  requires [index] 0 <= vb.ReadIndex < len(vb.Buffer)
  requires [record] vb.ReadIndex + 1 + vb.Buffer[vb.ReadIndex] <= len(vb.Buffer)
  let n = vb.Buffer[vb.ReadIndex]
  let p = vb.ReadIndex
  ensures [next] vb.ReadIndex == p + 1 + n
  ensures [nil] (v == nil) == (n == 0)
  ensures [bytes] str(v) == old(str(vb.Buffer[p+1:p+1+n]))
  ensures [fresh] v != nil ==> fresh(v)
  modifies vb.ReadIndex

package stats/view
import go.opencensus.io/tag
import go.opencensus.io/internal/tagencoding
def mval(m *tag.Map, k tag.Key) = ite(m == nil, "", ite(has(m.m, k), m.m[k].value, ""))
func stats/view.encodeWithKeys(m, keys) (b)
  props C18
  requires [valid] forall k tag.Key :: m != nil && has(m.m, k) ==> len(m.m[k].value) < 256
  ensures [count] dpos(str(b), len(keys)) == len(b)
  ensures [values] forall i int { dpos(str(b), i) } :: 0 <= i < len(keys) ==> dval(str(b), i) == mval(m, keys[i])
  loop [r int, i int] 0 <= r <= 256*i
  loop [vb *tagencoding.Values] fresh(vb.Buffer)
  loop [i int, vb *tagencoding.Values] 0 <= vb.WriteIndex <= len(vb.Buffer)
  loop [i int, vb *tagencoding.Values] vb.WriteIndex == dpos(str(vb.Buffer[:vb.WriteIndex]), i)
  loop [i int, vb *tagencoding.Values] forall j int { dpos(str(vb.Buffer[:vb.WriteIndex]), j) } :: 0 <= j < i ==> dval(str(vb.Buffer[:vb.WriteIndex]), j) == mval(m, keys[j])
// decoding: cntv(s,i) counts the present values among the first i, srcv(s,j) is the index of the j-th
fun cntv(s string, i int) int
fun srcv(s string, j int) int
axiom cnt0 : forall s string { cntv(s, 0) } :: cntv(s, 0) == 0
axiom cntS : forall s string, i int { cntv(s, i+1) } :: 0 <= i ==> cntv(s, i+1) == cntv(s, i) + ite(s[dpos(s, i)] == 0, 0, 1)
axiom srcDef : forall s string, i int { cntv(s, i) } :: 0 <= i && s[dpos(s, i)] != 0 ==> srcv(s, cntv(s, i)) == i
func stats/view.decodeTags(buf, keys) (tags)
  props C18
  hide [ensures#from] dposMono dposCat
  let s = str(buf)
  requires [wellformed] dpos(s, len(keys)) <= len(buf)
  ensures [count] len(tags) == cntv(s, len(keys))
  ensures [from] forall j int :: 0 <= j < len(tags) ==> exists i int { dpos(s, i) } :: 0 <= i < len(keys) && s[dpos(s, i)] != 0 && tags[j].Key == keys[i] && tags[j].Value == dval(s, i)
  ensures [order] forall i int, j int :: 0 <= i < j < len(tags) ==> !(tags[j].Key.name < tags[i].Key.name)
  ensures [fresh] tags != nil ==> fresh(tags)
  loop [i int, vb *tagencoding.Values] vb.ReadIndex == dpos(s, i)
  loop [i int, vb *tagencoding.Values] vb.Buffer == buf
  loop [i int, tags []tag.Tag] len(tags) == cntv(s, i)
  loop [i int, tags []tag.Tag] forall j int { srcv(s, j) } { tags[j].Value } :: 0 <= j < len(tags) ==> 0 <= srcv(s, j) < i && s[dpos(s, srcv(s, j))] != 0 && tags[j].Key == keys[srcv(s, j)] && tags[j].Value == dval(s, srcv(s, j))
  loop [tags []tag.Tag] tags != nil ==> fresh(tags)
  loop str(buf) == s

// the row a signature names: the existing one or a new one made by the aggregation
def distOK(d *DistributionData) = d != nil && len(d.CountPerBucket) == len(d.bounds)+1 && len(d.ExemplarsPerBucket) == len(d.bounds)+1
def dataOK(d AggregationData) = typeis(d, *CountData) || typeis(d, *SumData) || typeis(d, *LastValueData) || (typeis(d, *DistributionData) && distOK(as(d, *DistributionData)))
func (*stats/view.collector).addSample(c, s, v, att, t) ()
  props C18
  requires [nonnil] c != nil && c.signatures != nil && c.a != nil && c.a.newData != nil
  let row = ite(has(c.signatures, s), c.signatures[s], apply(c.a.newData, t))
  requires [data] dataOK(row) && dynval(row) != 0
  ensures [row] has(c.signatures, s) && c.signatures[s] == row
  ensures [others] forall k string :: k != s ==> has(c.signatures, k) == old(has(c.signatures, k)) && c.signatures[k] == old(c.signatures[k])
  ensures [countrow] typeis(row, *CountData) ==> as(row, *CountData).Value == int64(old(as(row, *CountData).Value) + 1)
  ensures [otherrows] forall d *CountData, x *SumData, y *LastValueData :: (d != as(row, *CountData) || !typeis(row, *CountData) ==> d.Value == old(d.Value)) &&
     (x != as(row, *SumData) || !typeis(row, *SumData) ==> same(x.Value, old(x.Value))) && (y != as(row, *LastValueData) || !typeis(row, *LastValueData) ==> same(y.Value, old(y.Value)))
  ensures [otherdists] forall d *DistributionData :: d != as(row, *DistributionData) || !typeis(row, *DistributionData) ==> d.Count == old(d.Count)
  anyframe
