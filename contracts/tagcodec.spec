package tag
// varints (encoding/binary): exact for the one- and two-byte forms, which is all a valid tag needs
extern encoding/binary.Uvarint(buf) (v, n)
  ensures [bounds] -10 <= n && n <= len(buf) && n <= 10
  ensures [one] len(buf) > 0 && buf[0] < 128 ==> n == 1 && v == buf[0]
  ensures [two] len(buf) > 1 && buf[0] >= 128 && buf[1] < 128 ==> n == 2 && v == buf[0] - 128 + 128*buf[1]
  pure
extern encoding/binary.PutUvarint(buf, x) (n)
  requires [room] len(buf) >= 10
  ensures [bounds] 1 <= n && n <= 10
  ensures [one] x < 128 ==> n == 1 && buf[0] == x
  ensures [two] 128 <= x < 16384 ==> n == 2 && buf[0] == 128 + x % 128 && buf[1] == x / 128
  ensures [rest] forall i int { buf[i] } :: !(0 <= i < n) ==> buf[i] == old(buf[i])
  modifies elems(buf)

func tag.WithTTL(t) (r)
  trusted
  note defines the specification function mdttl for this closure; its effect is proved as govcWithTTL
  ensures [nonnil] r != nil
  ensures [fn] forall x int { mdttl(r, x) } :: mdttl(r, x) == t.ttl

// C03
func (*tag.encoderGRPC).readByte(eg) (b)
  props C03
  requires [nonnil] eg != nil
  requires [inside] 0 <= eg.readIdx < len(eg.buf)
  ensures [byte] b == old(eg.buf[eg.readIdx]) && eg.readIdx == old(eg.readIdx) + 1
  modifies eg.readIdx
func (*tag.encoderGRPC).readEnded(eg) (r)
  props C03
  requires [nonnil] eg != nil
  ensures [r] r == (eg.readIdx >= len(eg.buf))
func (*tag.encoderGRPC).readBytesWithVarintLen(eg) (b, err)
  props C03
  requires [nonnil] eg != nil
  requires [inside] 0 <= eg.readIdx <= len(eg.buf)
  ensures [inside] 0 <= eg.readIdx <= len(eg.buf)
  ensures [slice] err == nil ==> arrof(b) == arrof(eg.buf) && eg.readIdx >= old(eg.readIdx) + 1 + len(b)
  ensures [nil] err != nil ==> b == nil
  let p = eg.readIdx
  let l = ite(eg.buf[p] < 128, 1, 2)
  let n = ite(eg.buf[p] < 128, eg.buf[p], eg.buf[p] - 128 + 128*eg.buf[p+1])
  ensures [short] p + l <= len(eg.buf) && eg.buf[p+l-1] < 128 && p + l + n <= len(eg.buf) ==> err == nil && str(b) == old(str(eg.buf[p+l : p+l+n])) && eg.readIdx == p + l + n
  modifies eg.readIdx

def tagsValid(m *Map) = forall k Key { has(m.m, k) } :: has(m.m, k) ==> okKey(k.name) && okVal(m.m[k].value) && m.m[k].m.ttl.ttl == -1
func tag.DecodeEach(bytes, fn) (err)
  props C03
  inline
  requires [fn] fn != nil
  loop [eg *encoderGRPC] 0 <= eg.readIdx <= len(eg.buf) && eg.buf == bytes
  loop [m *Map] m != nil && m.m != nil && fresh(m) && fresh(m.m)
  loop [m *Map] tagsValid(m)
func tag.Decode(bytes) (m, err)
  props C03
  ensures [nopartial] err != nil ==> m == nil
  ensures [valid] err == nil ==> m != nil && fresh(m) && m.m != nil && tagsValid(m)
  loop [eg *encoderGRPC] 0 <= eg.readIdx <= len(eg.buf) && eg.buf == bytes
  loop [m *Map] m != nil && m.m != nil && fresh(m) && fresh(m.m)
  loop [m *Map] tagsValid(m)

// the encoded form: version byte, then one record per tag; tpos(s, i) is where record i starts
def vlen(s string, p int) = ite(s[p] < 128, 1, 2)
def vnum(s string, p int) = ite(s[p] < 128, s[p], s[p] - 128 + 128*s[p+1])
fun fend(s string, p int) int
fun ftext(s string, p int) string
axiom fendDef : forall s string, p int { fend(s, p) } :: fend(s, p) == p + vlen(s, p) + vnum(s, p)
axiom ftextDef : forall s string, p int { ftext(s, p) } :: ftext(s, p) == s[p+vlen(s, p) : p+vlen(s, p)+vnum(s, p)]
fun tpos(s string, i int) int
fun trec(s string, p int) int
axiom tpos0 : forall s string { tpos(s, 0) } :: tpos(s, 0) == 1
axiom tposS : forall s string, i int { tpos(s, i+1) } :: 0 <= i ==> tpos(s, i+1) == fend(s, fend(s, tpos(s, i)+1))
axiom trecDef : forall s string, i int { tpos(s, i) } :: 0 <= i ==> trec(s, tpos(s, i)) == i
lemma trec0 : forall s string { trec(s, 1) } :: tpos(s, 0) == 1 && trec(s, 1) == 0
lemma tposMono induct j : forall s string, i int, j int { tpos(s, i), tpos(s, j) } :: 0 <= i <= j ==> tpos(s, i) + 3*(j-i) <= tpos(s, j)
lemma fendCat : forall s string, t string, p int { fend(s+t, p) } :: 0 <= p && fend(s, p) <= len(s) ==> fend(s+t, p) == fend(s, p) && ftext(s+t, p) == ftext(s, p)
lemma tposCat induct i : forall s string, t string, i int { tpos(s+t, i) } :: 0 <= i && tpos(s, i) <= len(s) ==> tpos(s+t, i) == tpos(s, i)
def vint(n int) = ite(n < 128, chr(n), chr(128 + n%128) + chr(n/128))

func (*tag.encoderGRPC).growIfRequired(eg, expected) ()
  props C03
  requires [nonnil] eg != nil
  requires [index] 0 <= eg.writeIdx <= len(eg.buf) && 0 <= expected < 100000
  ensures [room] len(eg.buf) - eg.writeIdx >= expected
  ensures [kept] str(eg.buf[:eg.writeIdx]) == old(str(eg.buf[:eg.writeIdx]))
  ensures [buffer] arrof(eg.buf) == old(arrof(eg.buf)) || fresh(eg.buf)
  modifies eg.buf
func (*tag.encoderGRPC).writeByte(eg, v) ()
  props C03
  requires [nonnil] eg != nil
  requires [index] 0 <= eg.writeIdx <= len(eg.buf)
  ensures [index] eg.writeIdx == old(eg.writeIdx) + 1 && eg.writeIdx <= len(eg.buf)
  ensures [bytes] str(eg.buf[:eg.writeIdx]) == old(str(eg.buf[:eg.writeIdx])) + chr(v)
  ensures [buffer] arrof(eg.buf) == old(arrof(eg.buf)) || fresh(eg.buf)
  modifies eg.buf, eg.writeIdx, elems(eg.buf)
func (*tag.encoderGRPC).writeStringWithVarintLen(eg, s) ()
  props C03
  requires [nonnil] eg != nil
  requires [index] 0 <= eg.writeIdx <= len(eg.buf)
  requires [short] len(s) < 256
  ensures [index] 0 <= eg.writeIdx <= len(eg.buf)
  ensures [bytes] str(eg.buf[:eg.writeIdx]) == old(str(eg.buf[:eg.writeIdx])) + vint(len(s)) + s
  ensures [buffer] arrof(eg.buf) == old(arrof(eg.buf)) || fresh(eg.buf)
  modifies eg.buf, eg.writeIdx, elems(eg.buf)
func (*tag.encoderGRPC).writeBytesWithVarintLen(eg, bytes) ()
  props C03
  requires [nonnil] eg != nil
  requires [index] 0 <= eg.writeIdx <= len(eg.buf)
  requires [short] len(bytes) < 256
  requires [noalias] arrof(bytes) != arrof(eg.buf)
  ensures [index] 0 <= eg.writeIdx <= len(eg.buf)
  ensures [bytes] str(eg.buf[:eg.writeIdx]) == old(str(eg.buf[:eg.writeIdx])) + vint(len(bytes)) + old(str(bytes))
  ensures [buffer] arrof(eg.buf) == old(arrof(eg.buf)) || fresh(eg.buf)
  modifies eg.buf, eg.writeIdx, elems(eg.buf)
def unlimited(m *Map, k Key) = has(m.m, k) && m.m[k].m.ttl.ttl == -1
def rkey(s string, i int) = ftext(s, tpos(s, i)+1)
def rval(s string, i int) = ftext(s, fend(s, tpos(s, i)+1))
def rk(s string, i int) = mk(Key, rkey(s, i))
def recOK(s string, m *Map, i int) = s[tpos(s, i)] == 0 && unlimited(m, rk(s, i)) && m.m[rk(s, i)].value == rval(s, i)
lemma tposField : forall s string, a string, k string { fend(s+a+k, len(s)) } :: a == vint(len(k)) && len(k) < 256 ==> fend(s+a+k, len(s)) == len(s+a+k) && ftext(s+a+k, len(s)) == k
lemma tposStep : forall s string, s1 string, a string, k string, s2 string, b string, v string, i int { s + chr(0), s1 + a + k, s2 + b + v, tpos(s, i) } :: 0 <= i && tpos(s, i) == len(s) && len(k) < 256 && len(v) < 256 && a == vint(len(k)) && b == vint(len(v)) && s1 == s + chr(0) && s2 == s1 + a + k ==> let t = s2 + b + v in tpos(t, i) == len(s) && tpos(t, i+1) == len(t) && t[len(s)] == 0 && rkey(t, i) == k && rval(t, i) == v
lemma fendMono : forall s string, p int { fend(s, p) } :: 0 <= s[p] && 0 <= s[p+1] ==> p < fend(s, p)
lemma recCatA : forall s string, x string, n int, i int { tpos(s+x, i), tpos(s, n) } :: 0 <= i < n && tpos(s, n) <= len(s) ==> tpos(s, i+1) <= tpos(s, n) && tpos(s+x, i) == tpos(s, i) && 1 <= tpos(s, i) < len(s) && (s+x)[tpos(s, i)] == s[tpos(s, i)] && fend(s, fend(s, tpos(s, i)+1)) <= len(s)
lemma recCat : forall s string, x string, n int, i int { tpos(s+x, i), tpos(s, n) } :: 0 <= i < n && tpos(s, n) <= len(s) ==> fend(s, tpos(s, i)+1) <= len(s) && rkey(s+x, i) == rkey(s, i) && rval(s+x, i) == rval(s, i)
lemma tposKeep : forall s string, s1 string, a string, k string, s2 string, b string, v string, n int, i int { s + chr(0), s1 + a + k, s2 + b + v, tpos(s, n), tpos(s2 + b + v, i) } :: 0 <= i < n && tpos(s, n) == len(s) && s1 == s + chr(0) && s2 == s1 + a + k ==> let t = s2 + b + v in tpos(t, i) == tpos(s, i) && t[tpos(t, i)] == s[tpos(s, i)] && rkey(t, i) == rkey(s, i) && rval(t, i) == rval(s, i)
ghost AnyTag int Key
func tag.Encode(m) (r)
  hide recCat recCatA fendCat fendMono tposCat fendDef ftextDef tposS tposMono
  props C03
  requires [valid] m != nil ==> forall k Key { has(m.m, k) } :: has(m.m, k) ==> len(k.name) < 256 && len(m.m[k].value) < 256
  ensures [nil] m == nil ==> r == nil
  ensures [version] m != nil ==> len(r) >= 1 && str(r)[0] == 0
  ensures [whole] m != nil ==> tpos(str(r), trec(str(r), len(r))) == len(r)
  ensures [records] m != nil ==> forall i int { tpos(str(r), i) } :: 0 <= i < trec(str(r), len(r)) ==> recOK(str(r), m, i)
  ensures [distinct] m != nil ==> forall i int, j int { tpos(str(r), i), tpos(str(r), j) } :: 0 <= i < j < trec(str(r), len(r)) ==> rkey(str(r), i) != rkey(str(r), j)
  ensures [every] m != nil && unlimited(m, AnyTag(0)) ==> exists i int { tpos(str(r), i) } :: 0 <= i < trec(str(r), len(r)) && rk(str(r), i) == AnyTag(0)
  loop [eg *encoderGRPC] 0 <= eg.writeIdx <= len(eg.buf) && fresh(eg.buf)
  loop [eg *encoderGRPC] 1 <= eg.writeIdx && str(eg.buf[:eg.writeIdx])[0] == 0
  loop [eg *encoderGRPC] 0 <= trec(str(eg.buf[:eg.writeIdx]), eg.writeIdx) && tpos(str(eg.buf[:eg.writeIdx]), trec(str(eg.buf[:eg.writeIdx]), eg.writeIdx)) == eg.writeIdx
  loop [eg *encoderGRPC] forall i int { tpos(str(eg.buf[:eg.writeIdx]), i) } :: 0 <= i < trec(str(eg.buf[:eg.writeIdx]), eg.writeIdx) ==> recOK(str(eg.buf[:eg.writeIdx]), m, i) && visited(rk(str(eg.buf[:eg.writeIdx]), i))
  loop [eg *encoderGRPC] forall i int, j int { tpos(str(eg.buf[:eg.writeIdx]), i), tpos(str(eg.buf[:eg.writeIdx]), j) } :: 0 <= i < j < trec(str(eg.buf[:eg.writeIdx]), eg.writeIdx) ==> rkey(str(eg.buf[:eg.writeIdx]), i) != rkey(str(eg.buf[:eg.writeIdx]), j)
  loop [eg *encoderGRPC] visited(AnyTag(0)) && unlimited(m, AnyTag(0)) ==> exists i int { tpos(str(eg.buf[:eg.writeIdx]), i) } :: 0 <= i < trec(str(eg.buf[:eg.writeIdx]), eg.writeIdx) && rk(str(eg.buf[:eg.writeIdx]), i) == AnyTag(0)
