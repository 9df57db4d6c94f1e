package trace

import (
	"fmt"
	"sort"
	"testing"
	"time"

	"go.opencensus.io/internal"
)

func TestVerifC15(t *testing.T) {
	h := newVH(t, "C15")
	defer h.done()
	lats := []time.Duration{10 * time.Microsecond, 100 * time.Microsecond, time.Millisecond, 10 * time.Millisecond, 100 * time.Millisecond, time.Second, 10 * time.Second, time.Minute}
	bucketOf := func(d time.Duration) int {
		for i, l := range lats {
			if d < l {
				return i
			}
		}
		return len(lats)
	}
	base := time.Date(2020, 1, 1, 0, 0, 0, 0, time.UTC)
	dur := func() time.Duration {
		switch h.Intn(4) {
		case 0:
			return lats[h.Intn(len(lats))] + time.Duration(h.Intn(3)-1)
		case 1:
			return time.Duration(h.int64v())
		case 2:
			return time.Duration(h.Int63n(int64(2 * time.Minute)))
		}
		return lats[h.Intn(len(lats))] / 2
	}
	type ring struct {
		cap  int
		next time.Time
		l    []*SpanData
	}
	radd := func(r *ring, sd *SpanData) {
		if sd.EndTime.Before(r.next) || r.cap == 0 {
			return
		}
		r.next = sd.EndTime.Add(time.Second)
		r.l = append(r.l, sd)
		if len(r.l) > r.cap {
			r.l = r.l[1:]
		}
	}
	rsize := func(r *ring, n int) {
		r.cap = n
		if len(r.l) > n {
			r.l = append([]*SpanData(nil), r.l[len(r.l)-n:]...)
		}
	}
	check := func(what string, b *bucket, r *ring) {
		if b.size() != len(r.l) {
			h.cex("%s: bucket holds %d spans, want %d", what, b.size(), len(r.l))
			return
		}
		for i, w := range r.l {
			if b.span(i) != w {
				h.cex("%s: entry %d of the bucket (oldest first) is %q, want %q", what, i, b.span(i).Name, w.Name)
				return
			}
		}
	}
	same := func(what string, got []*SpanData, want map[*SpanData]bool) {
		seen := map[*SpanData]bool{}
		for _, g := range got {
			if g == nil || seen[g] || !want[g] {
				h.cex("%s lists a span it should not: %+v", what, g)
				return
			}
			seen[g] = true
		}
		if len(seen) != len(want) {
			h.cex("%s lists %d spans, want %d", what, len(seen), len(want))
		}
	}
	for h.more() {
		h.guard("span store history", func() {
			name := fmt.Sprint("c15-", h.n)
			io := internalOnly{}
			lsz, esz := h.Intn(5), h.Intn(4)
			var ls [9]*ring
			for i := range ls {
				ls[i] = &ring{}
			}
			es := map[int32]*ring{}
			clamp := func(n int) int {
				if n < 0 {
					return 0
				}
				if n > maxBucketSize {
					return maxBucketSize
				}
				return n
			}
			resize := func(a, b int) {
				io.ConfigureBucketSizes([]internal.BucketConfiguration{{Name: name, MaxRequestsSucceeded: a, MaxRequestsErrors: b}})
				lsz, esz = clamp(a), clamp(b)
				for _, r := range ls {
					rsize(r, lsz)
				}
				for _, r := range es {
					rsize(r, esz)
				}
			}
			if h.Intn(4) == 0 {
				spanStoreForNameCreateIfNew(name)
				for _, r := range ls {
					r.cap = defaultBucketSize
				}
				lsz, esz = defaultBucketSize, defaultBucketSize
			} else {
				resize(lsz, esz)
			}
			defer func() { ssmu.Lock(); delete(spanStores, name); ssmu.Unlock() }()
			s := spanStoreForName(name)
			log := fmt.Sprintf("sizes %d/%d", lsz, esz)
			now := base
			active := map[SpanInterface]bool{}
			for i, n := 0, 1+h.Intn(25); i < n && h.more(); i++ {
				switch k := h.Intn(12); {
				case k == 0:
					a, b := h.Intn(6)-1, h.Intn(6)-1
					if h.Intn(20) == 0 {
						a, b = maxBucketSize+1, maxBucketSize
					}
					resize(a, b)
					log += fmt.Sprintf("; resize %d/%d", a, b)
				default:
					if h.Intn(5) > 0 {
						now = now.Add([]time.Duration{time.Second, time.Second - 1, 2 * time.Second, time.Second / 2, 0}[h.Intn(5)])
					}
					d := dur()
					sd := &SpanData{Name: fmt.Sprint(i), EndTime: now, StartTime: now.Add(-d)}
					if h.Intn(3) == 0 {
						sd.Status.Code = []int32{1, 2, 16, -1, 1 << 20}[h.Intn(5)]
					}
					sp := &span{data: &SpanData{}, lruAttributes: newLruMap(1), annotations: newEvictedQueue(1), messageEvents: newEvictedQueue(1), links: newEvictedQueue(1)}
					s.add(sp)
					active[sp] = true
					if !spActive(s, sp) {
						h.cex("%s: an added span is not active", log)
					}
					if h.Intn(8) == 0 {
						continue
					}
					s.finished(sp, sd)
					delete(active, sp)
					log += fmt.Sprintf("; finish %d d=%v at +%v code=%d", i, d, now.Sub(base), sd.Status.Code)
					eff := sd.EndTime.Sub(sd.StartTime)
					if sd.Status.Code == 0 {
						radd(ls[bucketOf(eff)], sd)
					} else {
						if es[sd.Status.Code] == nil {
							es[sd.Status.Code] = &ring{cap: esz}
						}
						radd(es[sd.Status.Code], sd)
					}
				}
				h.count(log)
				if len(s.active) != len(active) {
					h.cex("%s: %d active spans, want %d", log, len(s.active), len(active))
				}
				for j := range ls {
					check(fmt.Sprintf("%s: latency bucket %d", log, j), &s.latency[j], ls[j])
				}
				if len(s.errors) != len(es) {
					h.cex("%s: %d error buckets, want %d", log, len(s.errors), len(es))
				}
				for c, r := range es {
					if b := s.errors[c]; b == nil {
						h.cex("%s: no bucket for code %d", log, c)
					} else {
						check(fmt.Sprintf("%s: bucket of code %d", log, c), b, r)
					}
				}
			}
			// reports
			for q := 0; q < 6 && h.more(); q++ {
				lo, hi := time.Duration(0), time.Duration(0)
				if j := h.Intn(10); j < 9 {
					a, b := latencyBucketBounds(j)
					lo = a
					if j < 8 {
						hi = b
					}
				}
				if h.Intn(3) == 0 {
					lo, hi = dur(), dur()
				}
				if h.Intn(4) == 0 {
					hi = 0
				}
				if h.Intn(4) == 0 {
					lo = 0
				}
				want := map[*SpanData]bool{}
				for _, r := range ls {
					for _, sd := range r.l {
						d := sd.EndTime.Sub(sd.StartTime)
						if d < 0 {
							continue
						}
						if (lo == 0 && hi == 0) || d >= lo && (hi == 0 || d <= hi) {
							want[sd] = true
						}
					}
				}
				neg := false
				for _, r := range ls {
					for _, sd := range r.l {
						neg = neg || sd.EndTime.Before(sd.StartTime)
					}
				}
				if !neg && lo >= 0 && hi >= 0 {
					same(fmt.Sprintf("%s: report of latencies %v..%v", log, lo, hi), io.ReportSpansByLatency(name, lo, hi), want)
				}
				code := []int32{0, 1, 2, 16, -1, 7}[h.Intn(6)]
				want = map[*SpanData]bool{}
				for c, r := range es {
					for _, sd := range r.l {
						if code == 0 || c == code {
							want[sd] = true
						}
					}
				}
				same(fmt.Sprintf("%s: report of code %d", log, code), io.ReportSpansByError(name, code), want)
			}
			sum := io.ReportSpansPerMethod()[name]
			if sum.Active != len(active) || len(sum.LatencyBuckets) != 9 || len(sum.ErrorBuckets) != len(es) {
				h.cex("%s: summary counts %d active, %d latency and %d error buckets", log, sum.Active, len(sum.LatencyBuckets), len(sum.ErrorBuckets))
				return
			}
			for j, b := range sum.LatencyBuckets {
				if b.Size != len(ls[j].l) || j > 0 && b.MinLatency != lats[j-1] || j == 0 && b.MinLatency != 0 || j < 8 && b.MaxLatency != lats[j] || j == 8 && b.MaxLatency < 1<<62 {
					h.cex("%s: summary of latency bucket %d is %+v, want size %d", log, j, b, len(ls[j].l))
				}
			}
			sort.Slice(sum.ErrorBuckets, func(a, b int) bool { return sum.ErrorBuckets[a].ErrorCode < sum.ErrorBuckets[b].ErrorCode })
			for _, b := range sum.ErrorBuckets {
				if es[b.ErrorCode] == nil || len(es[b.ErrorCode].l) != b.Size {
					h.cex("%s: summary of code %d has size %d", log, b.ErrorCode, b.Size)
				}
			}
			if len(io.ReportActiveSpans(name)) != len(active) {
				h.cex("%s: the wrong number of active spans is reported", log)
			}
		})
	}
}

func spActive(s *spanStore, sp SpanInterface) bool { _, ok := s.active[sp]; return ok }
