package plugin/ochttp/propagation/b3
import http net/http
// assumed: the text functions of the standard library
fun hexstr(s string) string
axiom hexLen : forall s string { hexstr(s) } :: len(hexstr(s)) == 2 * len(s)
axiom hexChars : forall s string, j int { hexstr(s)[j] } :: 0 <= j < 2 * len(s) ==> hexstr(s)[j] == hexdig(ite(j % 2 == 0, s[j/2] / 16, s[j/2] % 16))
fun stridx(s string, sub string) int
// decimal text: decv is the number a string of digits spells
fun itoa(n int) string
fun decv(s string) int
def digit(c int) = 48 <= c <= 57
def decOK(s string) = s != "" && forall i int { s[i] } :: 0 <= i < len(s) ==> digit(s[i])
axiom itoaDigits : forall n int { itoa(n) } :: 0 <= n < 18446744073709551616 ==> 1 <= len(itoa(n)) <= 20 && decv(itoa(n)) == n
axiom itoaChars : forall n int, i int { itoa(n)[i] } :: 0 <= n && 0 <= i < len(itoa(n)) ==> digit(itoa(n)[i])
extern strconv.ParseUint(s, base, bits) (v, err)
  requires [decimal] base == 10 && bits == 64
  ensures [ok] err == nil ==> decOK(s) && v == decv(s)
  ensures [fail] err != nil ==> !decOK(s) || decv(s) >= 18446744073709551616
// strings.Split for a one-character separator: the fields, in order, without the separators between them
fun fieldN(s string, sep string) int
fun field(s string, sep string, i int) string
fun fpos(s string, sep string, i int) int
extern strings.Split(s, sep) (r)
  requires [one] len(sep) == 1
  ensures [n] len(r) == fieldN(s, sep) && 1 <= len(r) && len(r) <= len(s) + 1 && fresh(r)
  ensures [fields] forall i int { r[i] } :: 0 <= i < len(r) ==> r[i] == field(s, sep, i)
axiom fieldEnds : forall s string, sep string { fieldN(s, sep) } :: 1 <= fieldN(s, sep) && fpos(s, sep, 0) == 0 && fpos(s, sep, fieldN(s, sep)) == len(s) + 1
axiom fieldPos : forall s string, sep string, i int { field(s, sep, i) } :: 0 <= i < fieldN(s, sep) ==> 0 <= fpos(s, sep, i) && fpos(s, sep, i) < fpos(s, sep, i+1) && fpos(s, sep, i+1) <= len(s) + 1 && field(s, sep, i) == s[fpos(s, sep, i):fpos(s, sep, i+1)-1] && (i < fieldN(s, sep)-1 ==> fpos(s, sep, i+1) <= len(s) && s[fpos(s, sep, i+1)-1] == sep[0])
axiom fieldFree : forall s string, sep string, i int, j int { fpos(s, sep, i), s[j] } :: 0 <= i < fieldN(s, sep) && fpos(s, sep, i) <= j < fpos(s, sep, i+1)-1 && j < len(s) ==> s[j] != sep[0]
// hexadecimal text (encoding/hex)
def hexd(c int) = 48 <= c <= 57 || 97 <= c <= 102 || 65 <= c <= 70
def hexv(c int) = ite(c <= 57, c - 48, ite(c <= 70, c - 55, c - 87))
def hexdig(v int) = ite(v < 10, 48 + v, 87 + v)
def hexOK(s string) = len(s) % 2 == 0 && forall i int { s[i] } :: 0 <= i < len(s) ==> hexd(s[i])
def hexb(s string, i int) = hexv(s[2*i])*16 + hexv(s[2*i+1])
extern encoding/hex.DecodeString(s) (b, err)
  ensures [ok] err == nil ==> hexOK(s)
  ensures [fail] err != nil ==> !hexOK(s)
  ensures [len] err == nil ==> len(b) == len(s) / 2 && fresh(b)
  ensures [bytes] err == nil ==> forall i int { b[i] } :: 0 <= i < len(b) ==> b[i] == hexb(s, i)
extern encoding/hex.EncodeToString(src) (s)
  ensures [text] s == hexstr(str(src))
  ensures [len] len(s) == 2 * len(src)
  ensures [digits] forall j int { s[j] } :: 0 <= j < len(s) ==> s[j] == hexdig(ite(j % 2 == 0, src[j/2] / 16, src[j/2] % 16))
  pure
// header maps (net/http): canon(k) is the canonical spelling of a header name
fun canon(k string) string
def hget(h http.Header, k string) = ite(has(h, canon(k)) && len(h[canon(k)]) > 0, h[canon(k)][0], "")
extern (net/http.Header).Get(h, k) (v)
  ensures [first] has(h, canon(k)) && len(h[canon(k)]) > 0 ==> v == h[canon(k)][0]
  ensures [none] !(has(h, canon(k)) && len(h[canon(k)]) > 0) ==> v == ""
  pure
extern (net/http.Header).Set(h, k, v) ()
  requires [map] h != nil
  ensures [set] has(h, canon(k)) && len(h[canon(k)]) == 1 && fresh(h[canon(k)]) && h[canon(k)][0] == v
  ensures [others] forall x string { has(h, x) } :: x != canon(k) ==> has(h, x) == old(has(h, x)) && (has(h, x) ==> same(h[x], old(h[x])))
  modifies mapof(h)
def dashes(s string, sep string) = len(sep) == 1 && len(s) == 55 && s[2] == sep[0] && s[35] == sep[0] && s[52] == sep[0] && (forall j int { s[j] } :: 0 <= j < 55 && j != 2 && j != 35 && j != 52 ==> s[j] != sep[0])
lemma split0 : forall s string, sep string { fieldN(s, sep), len(s) } :: dashes(s, sep) ==> field(s, sep, 0) == s[0:2] && fpos(s, sep, 1) == 3 && fieldN(s, sep) >= 2
lemma split1 : forall s string, sep string { fieldN(s, sep), len(s) } :: dashes(s, sep) ==> field(s, sep, 1) == s[3:35] && fpos(s, sep, 2) == 36 && fieldN(s, sep) >= 3
lemma split2 : forall s string, sep string { fieldN(s, sep), len(s) } :: dashes(s, sep) ==> field(s, sep, 2) == s[36:52] && fpos(s, sep, 3) == 53 && fieldN(s, sep) >= 4
lemma split3 : forall s string, sep string { fieldN(s, sep), len(s) } :: dashes(s, sep) ==> field(s, sep, 3) == s[53:55] && fpos(s, sep, 4) == 56 && fieldN(s, sep) == 4
