package tag

import (
	"context"
	"strings"
	"testing"
)

func TestVerifC02(t *testing.T) {
	h := newVH(t, "C02")
	defer h.done()
	valid := func(s string) bool {
		for i := 0; i < len(s); i++ {
			if s[i] < 0x20 || s[i] > 0x7e {
				return false
			}
		}
		return len(s) <= 255
	}
	edge := []string{"\x00", "\x1f", " ", "!", "}", "~", "\x7f", "\x80", "\xff", "é", "世", "\u00a0", "\u2028", "\xc0\xa0", "\ufffd", "\U00010041", "\u0141", "\u2042"}
	gen := func() string {
		switch h.Intn(6) {
		case 0:
			n := []int{0, 1, 2, 253, 254, 255, 256, 257, 300, 510, 511, 512, 1000}[h.Intn(13)]
			s := strings.Repeat("x", n)
			if n > 0 && h.Intn(3) == 0 {
				p := []int{0, n / 2, n - 1}[h.Intn(3)]
				s = s[:p] + edge[h.Intn(len(edge))] + s[p+1:]
			}
			return s
		case 1:
			return edge[h.Intn(len(edge))]
		case 2:
			return h.str("ab", 4) + edge[h.Intn(len(edge))] + h.str("z~ ", 3)
		case 3:
			return string(h.bytes(h.Intn(6)))
		case 4:
			if len(h.strs) > 0 {
				return h.strs[h.Intn(len(h.strs))]
			}
			return string([]byte{byte(h.Intn(256))})
		}
		return h.str("abc ~", 12)
	}
	k := MustNewKey("k")
	for h.more() {
		s := gen()
		h.count(s)
		h.guard("NewKey/Insert "+s, func() {
			key, err := NewKey(s)
			if ok := s != "" && valid(s); ok != (err == nil) {
				h.cex("NewKey(%q) (len %d) error %v, want accepted=%v", s, len(s), err, ok)
			} else if ok && key.Name() != s || !ok && key.Name() != "" {
				h.cex("NewKey(%q) gives key named %q", s, key.Name())
			}
			func() {
				p := true
				defer func() {
					recover()
					if p == (s != "" && valid(s)) {
						h.cex("MustNewKey(%q) panicked=%v", s, p)
					}
				}()
				MustNewKey(s)
				p = false
			}()
			for i, mu := range []Mutator{Insert(k, s), Update(k, s), Upsert(k, s)} {
				for _, present := range []bool{false, true} {
					m := newMap()
					if present {
						m.m[k] = tagContent{"old", metadatas{TTLNoPropagation}}
					}
					ctx := NewContext(context.Background(), m)
					c2, err := New(ctx, mu)
					if valid(s) != (err == nil) {
						h.cex("mutator %d with value %q (len %d): error %v, want accepted=%v", i, s, len(s), err, valid(s))
					}
					if err != nil && c2 != ctx {
						h.cex("mutator %d with value %q fails but hands back another context", i, s)
					}
					if v, ok := m.Value(k); ok != present || ok && v != "old" {
						h.cex("mutator %d with value %q changed the parent's tags", i, s)
					}
				}
			}
		})
	}
}
