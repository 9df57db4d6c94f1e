package tag

import (
	"bytes"
	"encoding/binary"
	"strings"
	"testing"
)

// refDecode: the wire format by its definition. ok=false: must fail.
func vRefDecode(b []byte) (map[string]string, bool) {
	out := map[string]string{}
	if len(b) == 0 {
		return out, true
	}
	if b[0] != 0 {
		return nil, false
	}
	p := 1
	field := func() (string, bool) {
		n, w := binary.Uvarint(b[p:])
		if w <= 0 || n > uint64(len(b)-p-w) {
			return "", false
		}
		s := string(b[p+w : p+w+int(n)])
		p += w + int(n)
		return s, true
	}
	good := func(s string) bool {
		for i := 0; i < len(s); i++ {
			if s[i] < 0x20 || s[i] > 0x7e {
				return false
			}
		}
		return len(s) <= 255
	}
	for p < len(b) {
		if b[p] != 0 {
			return nil, false
		}
		p++
		if p >= len(b) {
			return nil, false
		}
		k, ok := field()
		if !ok || p >= len(b) {
			return nil, false
		}
		v, ok := field()
		if !ok || k == "" || !good(k) || !good(v) {
			return nil, false
		}
		out[k] = v
	}
	return out, true
}

func TestVerifC03(t *testing.T) {
	h := newVH(t, "C03")
	defer h.done()
	lens := []uint64{0, 1, 2, 3, 126, 127, 128, 129, 254, 255, 256, 1 << 14, 1 << 31, 1<<63 - 1, 1 << 63, 1<<64 - 1, 1<<64 - 2, 1<<64 - 5}
	uv := func(n uint64) []byte {
		var t [10]byte
		return append([]byte{}, t[:binary.PutUvarint(t[:], n)]...)
	}
	text := func() string {
		switch h.Intn(8) {
		case 0:
			return strings.Repeat("y", []int{126, 127, 128, 129, 200, 254, 255, 256, 300}[h.Intn(9)])
		case 1:
			return string(h.bytes(h.Intn(4)))
		case 2:
			if len(h.strs) > 0 {
				return h.strs[h.Intn(len(h.strs))]
			}
		case 3:
			return strings.Repeat(string([]byte{byte(32 + h.Intn(95))}), h.Intn(260))
		}
		return h.str("ab~ ", 3)
	}
	gen := func() []byte {
		if h.Intn(6) == 0 {
			return h.bytes(h.Intn(12))
		}
		b := []byte{0}
		if h.Intn(12) == 0 {
			b[0] = byte(h.Intn(256))
		}
		for i := h.Intn(5); i > 0; i-- {
			b = append(b, 0)
			if h.Intn(15) == 0 {
				b[len(b)-1] = byte(h.Intn(5))
			}
			for j := 0; j < 2; j++ {
				s := text()
				n := uint64(len(s))
				switch h.Intn(20) {
				case 0:
					n = lens[h.Intn(len(lens))]
				case 1:
					n += uint64(h.Intn(3)) - 1
				}
				b = append(b, uv(n)...)
				if h.Intn(20) == 0 { // over-long varint
					b = append(b, bytes.Repeat([]byte{0x80}, h.Intn(12))...)
				}
				b = append(b, s...)
			}
		}
		switch h.Intn(6) {
		case 0:
			b = b[:h.Intn(len(b)+1)]
		case 1:
			b = append(b, h.bytes(h.Intn(3))...)
		}
		return b[:len(b):len(b)]
	}
	check := func(b []byte) {
		in := append([]byte{}, b...)
		m, err := Decode(b)
		want, ok := vRefDecode(b)
		if !bytes.Equal(in, b) {
			h.cex("Decode(% x) changed its input", in)
		}
		if ok != (err == nil) {
			h.cex("Decode(% x): error %v, want accepted=%v", in, err, ok)
			return
		}
		if err != nil {
			if m != nil {
				h.cex("Decode(% x) fails but returns a map %v", in, m)
			}
			return
		}
		if m == nil || len(m.m) != len(want) {
			h.cex("Decode(% x) = %v, want %q", in, m, want)
			return
		}
		for k, v := range want {
			c, has := m.m[Key{k}]
			if !has || c.value != v || c.m.ttl.ttl != valueTTLUnlimitedPropagation {
				h.cex("Decode(% x): tag %q is %+v (present %v), want %q with unlimited propagation", in, k, c, has, v)
			}
		}
		// DecodeEach sees the records in order, and no more than the map does
		n := 0
		if e2 := DecodeEach(b, func(k Key, v string, md metadatas) { n++ }); e2 != nil || n < len(want) {
			h.cex("DecodeEach(% x): %d records, error %v", in, n, e2)
		}
	}
	for h.more() {
		b := gen()
		h.count(string(b))
		h.guard("Decode "+string(b), func() { check(b) })
		// encoding
		m := newMap()
		want := map[string]string{}
		for i := h.Intn(7); i > 0; i-- {
			k, v := text(), text()
			if !checkKeyName(k) || k == "" || !checkValue(v) || len(k) > 255 || len(v) > 255 {
				continue
			}
			ttl := []TTL{TTLUnlimitedPropagation, TTLNoPropagation, {1}, {5}, {-2}}[[]int{0, 0, 0, 1, 2, 3, 4}[h.Intn(7)]]
			m.m[Key{k}] = tagContent{v, metadatas{ttl}}
			delete(want, k)
			if ttl == TTLUnlimitedPropagation {
				want[k] = v
			}
		}
		h.guard("Encode "+m.String(), func() {
			e := Encode(m)
			if len(e) == 0 || e[0] != 0 {
				h.cex("Encode(%v) = % x has no version byte 0", m, e)
				return
			}
			got, n, p := map[string]string{}, 0, 1
			for p < len(e) { // walk the records
				if e[p] != 0 {
					break
				}
				p++
				var f [2]string
				for j := range f {
					l, w := binary.Uvarint(e[p:])
					if w <= 0 || l > uint64(len(e)-p-w) {
						h.cex("Encode(%v) = % x: malformed record", m, e)
						return
					}
					f[j] = string(e[p+w : p+w+int(l)])
					p += w + int(l)
				}
				got[f[0]] = f[1]
				n++
			}
			same := p == len(e) && n == len(want)
			for k, v := range want {
				if g, ok := got[k]; !ok || g != v {
					same = false
				}
			}
			if !same {
				h.cex("Encode of %+v = % x: %d records %q, want %q", m.m, e, n, got, want)
			}
			check(e)
		})
		if Encode(nil) != nil {
			h.cex("Encode(nil) is not nil")
		}
	}
}
