package runmetrics

import (
	"fmt"
	"runtime"
	"testing"
	"time"

	"go.opencensus.io/metric/metricdata"
	"go.opencensus.io/metric/metricproducer"
)

func TestVerifC31(t *testing.T) {
	h := newVH(t, "C31")
	defer h.done()
	Disable()
	for _, p := range metricproducer.GlobalManager().GetAll() {
		metricproducer.GlobalManager().DeleteProducer(p)
	}
	ms := int64(time.Millisecond)
	want := map[string]func(m *runtime.MemStats) int64{
		"process/memory_alloc":               func(m *runtime.MemStats) int64 { return int64(m.Alloc) },
		"process/total_memory_alloc":         func(m *runtime.MemStats) int64 { return int64(m.TotalAlloc) },
		"process/sys_memory_alloc":           func(m *runtime.MemStats) int64 { return int64(m.Sys) },
		"process/memory_lookups":             func(m *runtime.MemStats) int64 { return int64(m.Lookups) },
		"process/memory_malloc":              func(m *runtime.MemStats) int64 { return int64(m.Mallocs) },
		"process/memory_frees":               func(m *runtime.MemStats) int64 { return int64(m.Frees) },
		"process/heap_alloc":                 func(m *runtime.MemStats) int64 { return int64(m.HeapAlloc) },
		"process/sys_heap":                   func(m *runtime.MemStats) int64 { return int64(m.HeapSys) },
		"process/heap_idle":                  func(m *runtime.MemStats) int64 { return int64(m.HeapIdle) },
		"process/heap_inuse":                 func(m *runtime.MemStats) int64 { return int64(m.HeapInuse) },
		"process/heap_objects":               func(m *runtime.MemStats) int64 { return int64(m.HeapObjects) },
		"process/heap_release":               func(m *runtime.MemStats) int64 { return int64(m.HeapReleased) },
		"process/stack_inuse":                func(m *runtime.MemStats) int64 { return int64(m.StackInuse) },
		"process/sys_stack":                  func(m *runtime.MemStats) int64 { return int64(m.StackSys) },
		"process/stack_mspan_inuse":          func(m *runtime.MemStats) int64 { return int64(m.MSpanInuse) },
		"process/sys_stack_mspan":            func(m *runtime.MemStats) int64 { return int64(m.MSpanSys) },
		"process/stack_mcache_inuse":         func(m *runtime.MemStats) int64 { return int64(m.MCacheInuse) },
		"process/sys_stack_mcache":           func(m *runtime.MemStats) int64 { return int64(m.MCacheSys) },
		"process/gc_sys":                     func(m *runtime.MemStats) int64 { return int64(m.GCSys) },
		"process/other_sys":                  func(m *runtime.MemStats) int64 { return int64(m.OtherSys) },
		"process/num_gc":                     func(m *runtime.MemStats) int64 { return int64(m.NumGC) },
		"process/num_forced_gc":              func(m *runtime.MemStats) int64 { return int64(m.NumForcedGC) },
		"process/next_gc_heap_size":          func(m *runtime.MemStats) int64 { return int64(m.NextGC) },
		"process/last_gc_finished_timestamp": func(m *runtime.MemStats) int64 { return int64(m.LastGC) / ms },
		"process/pause_total":                func(m *runtime.MemStats) int64 { return int64(m.PauseTotalNs) / ms },
	}
	cumulative := map[string]bool{"process/total_memory_alloc": true, "process/memory_lookups": true, "process/memory_malloc": true, "process/memory_frees": true, "process/heap_release": true, "process/num_gc": true, "process/num_forced_gc": true, "process/pause_total": true}
	var junk [][]byte
	for h.more() {
		h.guard("history", func() {
			log := ""
			Disable()
			on, o := false, RunMetricOptions{}
			for k := 1 + h.Intn(4); k > 0 && !h.failed; k-- {
				switch h.Intn(4) {
				case 0:
					Disable()
					on = false
					log += " disable;"
				case 1, 2:
					o = RunMetricOptions{EnableCPU: h.Intn(2) == 0, EnableMemory: h.Intn(3) > 0, UseDerivedCumulative: h.Intn(2) == 0}
					if h.Intn(2) == 0 {
						o.Prefix = h.str("p/x_", 3)
					}
					log += fmt.Sprintf(" enable %+v;", o)
					if err := Enable(o); err != nil {
						h.cex("%s: %v", log, err)
						return
					}
					on = true
				}
				if h.Intn(2) == 0 {
					junk = append(junk, make([]byte, 1+h.Intn(100000)))
					if len(junk) > 40 {
						junk = nil
					}
				}
				if h.Intn(30) == 0 {
					runtime.GC()
				}
				ps := metricproducer.GlobalManager().GetAll()
				if len(ps) > 1 || (len(ps) == 1) != on {
					h.cex("%s: %d producers registered, enabled: %v", log, len(ps), on)
					return
				}
				if !on {
					h.count(log)
					continue
				}
				var before, after runtime.MemStats
				g0 := runtime.NumGoroutine()
				runtime.ReadMemStats(&before)
				got := ps[0].Read()
				runtime.ReadMemStats(&after)
				n := 0
				if o.EnableMemory {
					n += len(want) + 1
				}
				if o.EnableCPU {
					n += 2
				}
				if len(got) != n {
					h.cex("%s: %d metrics exported, expected %d", log, len(got), n)
					return
				}
				seen := map[string]bool{}
				var held *runtime.MemStats
				p := ps[0].(*producer)
				if p.memStats != nil {
					held = &p.memStats.memStats
				}
				if p.deprecatedMemStats != nil {
					held = &p.deprecatedMemStats.memStats
				}
				if o.EnableMemory && (held == nil || held.TotalAlloc < before.TotalAlloc || held.TotalAlloc > after.TotalAlloc || held.Sys < 1) {
					h.cex("%s: the runtime's numbers were not taken during the read", log)
					return
				}
				for _, m := range got {
					nm := m.Descriptor.Name
					if len(nm) < len(o.Prefix) || nm[:len(o.Prefix)] != o.Prefix || seen[nm] {
						h.cex("%s: metric %q exported twice or without the prefix", log, nm)
						return
					}
					seen[nm] = true
					if len(m.TimeSeries) != 1 || len(m.TimeSeries[0].Points) != 1 {
						h.cex("%s: metric %q has no single point", log, nm)
						return
					}
					v := m.TimeSeries[0].Points[0].Value
					base := nm[len(o.Prefix):]
					typ := metricdata.TypeGaugeInt64
					var w interface{}
					switch {
					case base == "process/cpu_goroutines" && o.EnableCPU:
						w = int64(g0)
						if g1 := runtime.NumGoroutine(); g1 != g0 {
							w = v
						}
					case base == "process/cpu_cgo_calls" && o.EnableCPU:
						w = runtime.NumCgoCall()
					case base == "process/gc_cpu_fraction" && o.EnableMemory:
						w, typ = held.GCCPUFraction, metricdata.TypeGaugeFloat64
						if held.GCCPUFraction < 0 {
							w = 0.0
						}
					case want[base] != nil && o.EnableMemory:
						w = want[base](held)
						if cumulative[base] && o.UseDerivedCumulative {
							typ = metricdata.TypeCumulativeInt64
						}
					default:
						h.cex("%s: unexpected metric %q", log, nm)
						return
					}
					if v != w || m.Descriptor.Type != typ {
						h.cex("%s: metric %q has type %v, value %v; the runtime reported %v (type %v)", log, nm, m.Descriptor.Type, v, w, typ)
						return
					}
				}
				h.count(log)
			}
		})
	}
}
