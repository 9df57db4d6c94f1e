package resource

import (
	"context"
	"errors"
	"fmt"
	"os"
	"reflect"
	"testing"
)

func TestVerifC26(t *testing.T) {
	h := newVH(t, "C26")
	defer h.done()
	word := func() string { return fmt.Sprint([]string{"a", "b", "k8s.io/", "x_", ""}[h.Intn(5)], h.Intn(4)) }
	res := func() *Resource {
		if h.Intn(6) == 0 {
			return nil
		}
		r := &Resource{}
		if h.Intn(2) == 0 {
			r.Type = word()
		}
		switch h.Intn(4) {
		case 0:
		default:
			r.Labels = map[string]string{}
			for n := h.Intn(5); n > 0; n-- {
				v := word()
				if h.Intn(4) == 0 {
					v = ""
				}
				r.Labels[word()] = v
			}
		}
		return r
	}
	cp := func(r *Resource) *Resource {
		if r == nil {
			return nil
		}
		c := &Resource{Type: r.Type}
		if r.Labels != nil {
			c.Labels = map[string]string{}
			for k, v := range r.Labels {
				c.Labels[k] = v
			}
		}
		return c
	}
	show := func(rs []*Resource) string {
		s := ""
		for _, r := range rs {
			s += fmt.Sprintf("%+v ", r)
		}
		return s
	}
	for h.more() {
		n := h.Intn(6)
		rs, was := make([]*Resource, n), make([]*Resource, n)
		fail := -1
		if h.Intn(4) == 0 && n > 0 {
			fail = h.Intn(n)
		}
		called := make([]int, n)
		order := 0
		boom := errors.New("boom")
		var ds []Detector
		ctx := context.WithValue(context.Background(), "k", n)
		for i := 0; i < n; i++ {
			i := i
			rs[i] = res()
			was[i] = cp(rs[i])
			ds = append(ds, func(c context.Context) (*Resource, error) {
				order++
				called[i] = order
				if c != ctx {
					h.cex("detector %d got another context", i)
				}
				if i == fail {
					return rs[i], boom
				}
				return rs[i], nil
			})
		}
		in := fmt.Sprintf("detectors return %s; number %d fails", show(was), fail)
		h.count(in)
		h.guard(in, func() {
			got, err := MultiDetector(ds...)(ctx)
			last := n
			if fail >= 0 {
				last = fail + 1
			}
			for i := range called {
				if i < last && called[i] != i+1 || i >= last && called[i] != 0 {
					h.cex("%s: calls in order %v", in, called)
				}
			}
			if fail >= 0 {
				if got != nil || err != boom {
					h.cex("%s: got %+v, %v", in, got, err)
				}
				return
			}
			var want *Resource
			for _, r := range was {
				if r == nil {
					continue
				}
				if want == nil {
					want = &Resource{Labels: map[string]string{}}
				}
				if want.Type == "" {
					want.Type = r.Type
				}
				for k, v := range r.Labels {
					if _, ok := want.Labels[k]; !ok {
						want.Labels[k] = v
					}
				}
			}
			if err != nil || (got == nil) != (want == nil) {
				h.cex("%s: got %+v, %v, want %+v", in, got, err, want)
				return
			}
			if got != nil && (got.Type != want.Type || len(got.Labels) != len(want.Labels) || len(want.Labels) > 0 && !reflect.DeepEqual(got.Labels, want.Labels)) {
				h.cex("%s: got %+v, want %+v", in, got, want)
			}
			for i := range rs {
				if !reflect.DeepEqual(rs[i], was[i]) {
					h.cex("%s: the result of detector %d was changed to %+v", in, i, rs[i])
				}
			}
		})
		// label texts
		s := h.str("ab=\",\\ x1", 24)
		h.guard(fmt.Sprintf("label text %q", s), func() {
			if m, err := DecodeLabels(s); (m == nil) != (err != nil) {
				h.cex("DecodeLabels(%q) = %v, %v", s, m, err)
			}
		})
		l := map[string]string{}
		al := "abcXYZ019_./-:;!~ \t\x00\x7f"
		for k := h.Intn(5); k > 0; k-- {
			l["k"+h.str("abz09_./-", 8)] = h.str(al, 10)
		}
		h.guard(fmt.Sprintf("labels %q", l), func() {
			if len(l) == 0 {
				return
			}
			e := EncodeLabels(l)
			m, err := DecodeLabels(e)
			if err != nil || !reflect.DeepEqual(m, l) {
				h.cex("labels %q encode as %q and decode as %q, %v", l, e, m, err)
			}
			os.Setenv(EnvVarLabels, e)
			os.Setenv(EnvVarType, " typ ")
			r, err := FromEnv(ctx)
			if err == nil && (r.Type != "typ" || !reflect.DeepEqual(r.Labels, l)) || err != nil && !hasNUL(e) {
				h.cex("environment labels %q read as %+v, %v", e, r, err)
			}
			for _, bad := range []string{"x", e + ",z", "=\"a\"", e + ",k=\"v", "k=\"\\z\"," + e} {
				if m, err := DecodeLabels(bad); err == nil {
					h.cex("malformed label text %q accepted as %q", bad, m)
				}
			}
		})
	}
}

func hasNUL(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] == 0 {
			return true
		}
	}
	return false
}
