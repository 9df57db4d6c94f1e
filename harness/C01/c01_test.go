package tag

import (
	"context"
	"fmt"
	"reflect"
	"strings"
	"testing"
)

func TestVerifC01(t *testing.T) {
	h := newVH(t, "C01")
	defer h.done()
	var keys []Key
	for _, n := range []string{"a", "b", "c", "d e", "~", "k1", "k2", "k3"} {
		keys = append(keys, MustNewKey(n))
	}
	type ent struct {
		v   string
		ttl int
	}
	type st struct {
		ctx   context.Context
		want  map[Key]ent
		noMap bool
	}
	same := func(ctx context.Context, want map[Key]ent, noMap bool) string {
		m := FromContext(ctx)
		if noMap {
			if m != nil {
				return "a map where there was none"
			}
			return ""
		}
		if m == nil {
			return "no map"
		}
		got := map[Key]ent{}
		for k, c := range m.m {
			got[k] = ent{c.value, c.m.ttl.ttl}
		}
		if !reflect.DeepEqual(got, want) {
			return fmt.Sprintf("tags %v want %v", got, want)
		}
		for _, k := range keys {
			v, ok := m.Value(k)
			if e, in := want[k]; in != ok || v != e.v {
				return fmt.Sprintf("Value(%v)=%q,%v want %v", k, v, ok, e)
			}
		}
		return ""
	}
	for h.more() {
		all := []st{{context.Background(), map[Key]ent{}, true}}
		if h.Intn(3) == 0 {
			c := NewContext(context.Background(), nil)
			all = append(all, st{c, map[Key]ent{}, true})
		}
		var hist []string
		for step := 0; step < 1+h.Intn(5) && !h.failed; step++ {
			p := all[h.Intn(len(all))]
			want := map[Key]ent{}
			for k, e := range p.want {
				want[k] = e
			}
			var ms []Mutator
			var desc []string
			bad := false
			for n := h.Intn(6); n > 0; n-- {
				k := keys[h.Intn(len(keys))]
				v := h.str("xyz", 3)
				if len(v) > 200 || strings.ContainsAny(v, "\x00\x7f") {
					v = "q"
				}
				for i := 0; i < len(v); i++ {
					if v[i] < 0x20 || v[i] > 0x7e {
						v = "r"
					}
				}
				invalid := h.Intn(9) == 0
				if invalid {
					v = []string{"\n", strings.Repeat("x", 256), "é"}[h.Intn(3)]
				}
				ttl := -1
				var mds []Metadata
				switch h.Intn(4) {
				case 0:
					mds = []Metadata{WithTTL(TTLNoPropagation)}
					ttl = 0
				case 1:
					mds = []Metadata{WithTTL(TTLNoPropagation), nil, WithTTL(TTLUnlimitedPropagation)}
				case 2:
					mds = []Metadata{WithTTL(TTLUnlimitedPropagation), WithTTL(TTLNoPropagation)}
					ttl = 0
				}
				_, in := want[k]
				switch op := h.Intn(4); op {
				case 0:
					ms = append(ms, Insert(k, v, mds...))
					if !in && !bad && !invalid {
						want[k] = ent{v, ttl}
					}
				case 1:
					ms = append(ms, Update(k, v, mds...))
					if in && !bad && !invalid {
						want[k] = ent{v, ttl}
					}
				case 2:
					ms = append(ms, Upsert(k, v, mds...))
					if !bad && !invalid {
						want[k] = ent{v, ttl}
					}
				default:
					ms = append(ms, Delete(k))
					invalid = false
					if !bad {
						delete(want, k)
					}
					desc = append(desc, fmt.Sprintf("delete %v", k))
					continue
				}
				bad = bad || invalid
				desc = append(desc, fmt.Sprintf("op %v=%q ttl %d", k, v, ttl))
			}
			hist = append(hist, fmt.Sprint(desc))
			in := fmt.Sprintf("derivations %v from parent %v", hist, p.want)
			h.count(in)
			h.guard(in, func() {
				c, err := New(p.ctx, ms...)
				if (err != nil) != bad {
					h.cex("%s: error %v, want failure=%v", in, err, bad)
					return
				}
				if bad {
					if c != p.ctx {
						h.cex("%s: failed but did not hand back the parent", in)
					}
				} else {
					all = append(all, st{c, want, false})
				}
				for i, s := range all {
					if d := same(s.ctx, s.want, s.noMap); d != "" {
						h.cex("%s: context %d of %d: %s", in, i, len(all), d)
						return
					}
				}
			})
		}
	}
}
