package trace

import (
	"fmt"
	"sync"
	"testing"
	"time"
)

type c16exp struct{ id int }

func (e *c16exp) ExportSpan(*SpanData) {}

type c16val struct{ a, b int }

func (e c16val) ExportSpan(*SpanData) {}

func TestVerifC16(t *testing.T) {
	h := newVH(t, "C16")
	defer h.done()
	cur := func() exportersMap { m, _ := exporters.Load().(exportersMap); return m }
	defer func() { exporters.Store(make(exportersMap)) }()
	var all []Exporter
	for i := 0; i < 5; i++ {
		all = append(all, &c16exp{i}, c16val{i, i / 2})
	}
	cp := func(m exportersMap) map[Exporter]bool {
		r := map[Exporter]bool{}
		for e := range m {
			r[e] = true
		}
		return r
	}
	eq := func(a map[Exporter]bool, b exportersMap) bool {
		if len(a) != len(b) {
			return false
		}
		for e := range a {
			if _, ok := b[e]; !ok {
				return false
			}
		}
		return true
	}
	seq := h.part(2)
	for seq.more() && !h.failed {
		h.guard("exporter history", func() {
			if h.Intn(2) == 0 {
				exporters.Store(make(exportersMap))
			}
			want := cp(cur())
			log := fmt.Sprint("from ", len(want), " exporters")
			var olds []exportersMap
			var oldv []map[Exporter]bool
			for i, n := 0, 1+h.Intn(10); i < n; i++ {
				k := h.Intn(len(all))
				m := cur()
				olds, oldv = append(olds, m), append(oldv, cp(m))
				if h.Intn(2) == 0 {
					RegisterExporter(all[k])
					want[all[k]] = true
					log += fmt.Sprint(" +", k)
				} else {
					UnregisterExporter(all[k])
					delete(want, all[k])
					log += fmt.Sprint(" -", k)
				}
				h.count(log)
				if !eq(want, cur()) {
					h.cex("%s: %d exporters are registered, want %d", log, len(cur()), len(want))
					return
				}
				for j := range olds {
					if !eq(oldv[j], olds[j]) {
						h.cex("%s: a set published %d steps earlier was modified", log, len(olds)-j)
						return
					}
				}
			}
		})
	}
	for h.more() {
		exporters.Store(make(exportersMap))
		var wg sync.WaitGroup
		start := make(chan bool)
		var mu sync.Mutex
		fail := ""
		n := 100 + h.Intn(200)
		for g := 0; g < 4; g++ {
			g := g
			wg.Add(1)
			go func() {
				defer wg.Done()
				mine := []Exporter{&c16exp{g}, c16val{g, 7}}
				<-start
				for i := 0; i < n; i++ {
					e := mine[i%2]
					RegisterExporter(e)
					_, in := cur()[e]
					UnregisterExporter(e)
					_, still := cur()[e]
					if !in || still {
						mu.Lock()
						fail = fmt.Sprintf("four goroutines registering their own exporters: in=%v after registering, in=%v after unregistering", in, still)
						mu.Unlock()
						return
					}
				}
			}()
		}
		close(start)
		wg.Wait()
		h.count("concurrent", n, time.Now().UnixNano())
		if fail != "" {
			h.cex("%s", fail)
		}
	}
}
