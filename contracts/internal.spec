package internal
// C27: sanitised names
def snRune(r int) = ite(isletter(r) || isdigit(r), r, '_')
func internal.sanitizeRune(r) (o)
  ensures [rune] o == snRune(r)

func internal.Sanitize(s) (r)
  props C27
  let t = ite(len(s) > 100, s[:100], s)
  let k = ite(t[0] >= 128, ite(snRune(runeat(t, 0)) == '_', 3, 0), ite(isdigit(t[0]), 4, ite(isletter(t[0]), 0, 3)))
  ensures [empty] len(s) == 0 ==> r == s
  ensures [key] len(s) > 0 && k >= 3 ==> len(r) > k && r[0] == 'k' && r[1] == 'e' && r[2] == 'y' && (k == 4 ==> r[3] == '_')
  ensures [length] len(s) > 0 ==> runes(r[k:]) == runes(t)
  ensures [runes] len(s) > 0 ==> forall i int { runeat(r[k:], i) } :: 0 <= i < runes(t) ==> runeat(r[k:], i) == snRune(runeat(t, i))
  ensures [first] len(s) > 0 ==> len(r) > 0 && r[0] != '_' && !('0' <= r[0] && r[0] <= '9')
