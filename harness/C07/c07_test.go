package tracestate

import (
	"fmt"
	"reflect"
	"strings"
	"testing"
)

func verifKey(k string) bool {
	part := func(s string, max int) bool {
		if len(s) < 1 || len(s) > max || s[0] < 'a' || s[0] > 'z' {
			return false
		}
		for i := 1; i < len(s); i++ {
			c := s[i]
			if !(c >= 'a' && c <= 'z' || c >= '0' && c <= '9' || c == '_' || c == '-' || c == '*' || c == '/') {
				return false
			}
		}
		return true
	}
	if i := strings.IndexByte(k, '@'); i >= 0 {
		return part(k[:i], 241) && part(k[i+1:], 14)
	}
	return part(k, 256)
}

func verifValue(v string) bool {
	if len(v) < 1 || len(v) > 256 || v[len(v)-1] == ' ' {
		return false
	}
	for i := 0; i < len(v); i++ {
		if v[i] < 0x20 || v[i] > 0x7e || v[i] == ',' || v[i] == '=' {
			return false
		}
	}
	return true
}

func TestVerifC07(t *testing.T) {
	h := newVH(t, "C07")
	defer h.done()
	pad := func(s string, n int) string {
		for len(s) < n {
			s += "abcz09_-*/"[h.Intn(10):][:1]
		}
		return s
	}
	key := func() string {
		switch h.Intn(60) {
		case 0:
			return pad("k", 254+h.Intn(4))
		case 1:
			return pad("k", 239+h.Intn(4)) + "@" + pad("v", 1+h.Intn(15))
		case 2:
			return pad("k", 3) + "@" + pad("v", 12+h.Intn(4))
		case 3:
			return h.str("az09_-*/@A .\n\x7f", 6)
		case 4:
			return "a" + string(rune(h.Intn(256)))
		case 5:
			return string([]byte{byte(h.Intn(256))}) + "b"
		case 6:
			return string([]byte{'a', '@', byte(h.Intn(256))})
		}
		return fmt.Sprintf("k%d", h.Intn(45))
	}
	val := func() string {
		switch h.Intn(60) {
		case 0:
			return pad("v", 254+h.Intn(4))
		case 1:
			return h.str("ab =,~! \x1f\x7f\x80\n", 6)
		case 2:
			return string([]byte{byte(h.Intn(256))})
		case 3:
			return string([]byte{'x', byte(h.Intn(256)), 'y'})
		case 4:
			return string([]byte{'x', byte(h.Intn(256))})
		}
		return fmt.Sprintf("v%d", h.Intn(1000))
	}
	type known struct {
		ts   *Tracestate
		want []Entry
	}
	for h.more() {
		var all []known
		var log []string
		h.guard("tracestate history", func() {
			for step := 0; step < 12; step++ {
				p := known{}
				if len(all) > 0 && h.Intn(5) > 0 {
					p = all[h.Intn(len(all))]
				}
				n := h.Intn(5)
				if h.Intn(8) == 0 {
					n = h.Intn(36)
				}
				es := make([]Entry, 0, n+h.Intn(3)*h.Intn(40))
				for i := 0; i < n; i++ {
					e := Entry{key(), val()}
					if i > 0 && h.Intn(40) == 0 {
						e.Key = es[h.Intn(i)].Key
					} else if n > 8 && h.Intn(50) > 0 {
						e.Key = fmt.Sprintf("k%d", i)
					}
					es = append(es, e)
				}
				tail := es[:cap(es)]
				for i := n; i < len(tail); i++ {
					tail[i] = Entry{"spare", fmt.Sprint(i)}
				}
				keep := append([]Entry(nil), tail...)
				in := fmt.Sprintf("parent of %d entries %.300v, new entries %.300v", len(p.want), p.want, es)
				log = append(log, in)
				h.count(in)
				ts, err := New(p.ts, es...)
				// the property's own account of the result
				ok := true
				set := map[string]bool{}
				want := append([]Entry(nil), es...)
				for _, e := range es {
					ok = ok && verifKey(e.Key) && verifValue(e.Value) && !set[e.Key]
					set[e.Key] = true
				}
				for _, e := range p.want {
					if !set[e.Key] {
						want = append(want, e)
					}
				}
				ok = ok && len(want) <= 32
				if (err == nil) != ok {
					h.cex("%s: error %v, want success %v", in, err, ok)
					return
				}
				if !reflect.DeepEqual(keep, append([]Entry(nil), tail...)) {
					h.cex("%s: the caller's slice changed from %v to %v", in, keep, tail)
					return
				}
				if ok {
					if len(want) > 0 && ts == nil || len(ts.Entries()) != len(want) || len(want) > 0 && !reflect.DeepEqual(ts.Entries(), want) {
						h.cex("%s: entries are %v, want %v", in, ts.Entries(), want)
						return
					}
					all = append(all, known{ts, want})
				} else if ts != nil {
					h.cex("%s: a tracestate came with error %v", in, err)
					return
				}
				switch h.Intn(3) { // the caller goes on using its slice
				case 0:
					for i := range tail {
						tail[i] = Entry{"mine", "changed"}
					}
				case 1:
					es = append(es, Entry{"more", "1"})
					if cap(es) > len(es) {
						New(p.ts, es[:len(es)+1]...)
					}
				}
				for i, k := range all {
					if len(k.ts.Entries()) != len(k.want) || len(k.want) > 0 && !reflect.DeepEqual(k.ts.Entries(), k.want) {
						h.cex("history %q: the tracestate made by step %d changed from %v to %v", log, i, k.want, k.ts.Entries())
						return
					}
				}
			}
		})
	}
}
