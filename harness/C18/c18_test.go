package view

import (
	"context"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"testing"
	"time"

	"go.opencensus.io/tag"
)

func TestVerifC18(t *testing.T) {
	h := newVH(t, "C18")
	defer h.done()
	names := []string{"a", "b", "c", "k1", "k10", "k2", "zz", "A", "~", " "}
	var all []tag.Key
	for _, n := range names {
		all = append(all, tag.MustNewKey(n))
	}
	val := func() string {
		switch h.Intn(6) {
		case 0:
			return ""
		case 1:
			return strings.Repeat("x", []int{1, 2, 127, 128, 253, 254, 255}[h.Intn(7)])
		case 2:
			return h.str("ab", 3)
		case 3:
			return h.str("\x20\x01"[:1]+"a~", 40)
		}
		s := h.str("abc ", 3)
		if len(s) > 255 {
			s = s[:255]
		}
		for i := 0; i < len(s); i++ {
			if s[i] < 0x20 || s[i] > 0x7e {
				return "q"
			}
		}
		return s
	}
	for h.more() {
		perm := h.Perm(len(all))
		var keys []tag.Key
		for _, i := range perm[:h.Intn(5)] {
			keys = append(keys, all[i])
		}
		if h.Intn(3) > 0 {
			sort.Slice(keys, func(i, j int) bool { return keys[i].Name() < keys[j].Name() })
		}
		c := &collector{signatures: map[string]AggregationData{}, a: Sum()}
		want := map[string]float64{}
		wantTags := map[string][]tag.Tag{}
		var trace []string
		ok := true
		for n := 1 + h.Intn(6); n > 0 && ok; n-- {
			var ms []tag.Mutator
			m := map[tag.Key]string{}
			for _, k := range all {
				if h.Intn(3) == 0 {
					v := val()
					ms = append(ms, tag.Upsert(k, v))
					m[k] = v
				}
			}
			ctx, err := tag.New(context.Background(), ms...)
			if err != nil {
				h.cex("tag.New with valid tags %v: %v", m, err)
				return
			}
			in := fmt.Sprintf("keys %v tags %v (len %d) after %v", keys, m, len(m), trace)
			x := float64(h.Intn(100))
			h.count(in, x)
			h.guard(in, func() {
				sig := encodeWithKeys(tag.FromContext(ctx), keys)
				c.addSample(string(sig), x, nil, time.Time{})
				var row []tag.Tag
				for _, k := range keys {
					if v, has := m[k]; has && v != "" {
						row = append(row, tag.Tag{Key: k, Value: v})
					}
				}
				sort.Slice(row, func(i, j int) bool { return row[i].Key.Name() < row[j].Key.Name() })
				got := decodeTags(append([]byte(nil), sig...), keys)
				if !(len(got) == 0 && len(row) == 0) && !reflect.DeepEqual(got, row) {
					h.cex("%s: row tags %v want %v", in, got, row)
				}
				id := fmt.Sprintf("%q", row)
				want[id] += x
				wantTags[id] = row
			})
			trace = append(trace, fmt.Sprint(m))
			ok = !h.failed
		}
		if h.failed {
			return
		}
		h.guard(fmt.Sprint("collectedRows ", trace), func() {
			rows := c.collectedRows(keys)
			if len(rows) != len(want) {
				h.cex("keys %v recordings %v: %d rows want %d", keys, trace, len(rows), len(want))
				return
			}
			for _, r := range rows {
				id := fmt.Sprintf("%q", r.Tags)
				w, has := want[id]
				if !has || r.Data.(*SumData).Value != w {
					h.cex("keys %v recordings %v: row %v value %v want %v (known row %v)", keys, trace, r.Tags, r.Data.(*SumData).Value, w, has)
					return
				}
			}
		})
	}
}
