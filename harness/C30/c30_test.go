package ochttp_test

import (
	"fmt"
	"math"
	"testing"

	"go.opencensus.io/plugin/ochttp"
)

func refStatus(s int) (int32, string) {
	switch s {
	case 499:
		return 1, "CANCELLED"
	case 400, 422:
		return 3, "INVALID_ARGUMENT"
	case 504:
		return 4, "DEADLINE_EXCEEDED"
	case 404:
		return 5, "NOT_FOUND"
	case 409:
		return 6, "ALREADY_EXISTS"
	case 403:
		return 7, "PERMISSION_DENIED"
	case 401:
		return 16, "UNAUTHENTICATED"
	case 429:
		return 8, "RESOURCE_EXHAUSTED"
	case 501:
		return 12, "UNIMPLEMENTED"
	case 503:
		return 14, "UNAVAILABLE"
	}
	if 200 <= s && s < 400 {
		return 0, "OK"
	}
	return 2, "UNKNOWN"
}

func TestVerifC30(t *testing.T) {
	h := newVH(t, "C30")
	defer h.done()
	lines := []string{"", "200 OK", "404 Not Found", "weird"}
	try := func(s int) {
		for _, l := range lines {
			h.count(s, l)
			h.guard(fmt.Sprintf("TraceStatus(%d, %q)", s, l), func() {
				st := ochttp.TraceStatus(s, l)
				c, m := refStatus(s)
				if st.Code != c || st.Message != m {
					h.cex("TraceStatus(%d, %q) = %+v, want code %d message %q", s, l, st, c, m)
				}
			})
		}
	}
	for s := -10; s < 1101 && !h.failed; s++ {
		try(s)
	}
	for _, s := range []int{math.MinInt64, math.MaxInt64, 1 << 32, 1<<32 + 200} {
		if !h.failed {
			try(s)
		}
	}
}
