package internal_test

import (
	"fmt"
	"strings"
	"testing"
	"unicode"

	"go.opencensus.io/internal"
)

func refSanitize(s string) string {
	if s == "" {
		return s
	}
	if len(s) > 100 {
		s = s[:100]
	}
	var b strings.Builder
	first := true
	for _, r := range s {
		o := r
		if !unicode.IsLetter(r) && !unicode.IsDigit(r) {
			o = '_'
		}
		if first {
			if '0' <= o && o <= '9' {
				b.WriteString("key_")
			} else if o == '_' {
				b.WriteString("key")
			}
			first = false
		}
		b.WriteRune(o)
	}
	return b.String()
}

func TestVerifC27(t *testing.T) {
	h := newVH(t, "C27")
	defer h.done()
	parts := []string{"a", "Z", "0", "9", "_", "-", ".", "/", " ", "é", "世", "\xff", "\xc3", "key", "٣", "²", "\x00", "~", "0x", "ab1"}
	for h.more() {
		var s string
		n := h.Intn(6)
		if h.Intn(3) == 0 {
			n = 90 + h.Intn(25)
		}
		for i := 0; i < n; i++ {
			s += parts[h.Intn(len(parts))]
		}
		if h.Intn(4) == 0 {
			s = strings.Repeat("a", 95+h.Intn(10)) + s
		}
		if h.Intn(6) == 0 {
			s = h.str("ab0_-", 10)
		}
		h.count(s)
		h.guard(fmt.Sprintf("Sanitize(%q)", s), func() {
			if g, w := internal.Sanitize(s), refSanitize(s); g != w {
				h.cex("Sanitize(%q) = %q, want %q", s, g, w)
			}
		})
	}
}
