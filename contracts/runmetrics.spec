package plugin/runmetrics
import runtime runtime
import metric go.opencensus.io/metric
import metricproducer go.opencensus.io/metric/metricproducer
import metricdata go.opencensus.io/metric/metricdata
// C31: the values set are the runtime's. MsN counts the times a MemStats was filled in by the runtime
ghost MsN int int
ghost RtG int int
ghost RtC int int
extern runtime.ReadMemStats(m) ()
  ensures [read] MsN(ref(m)) == old(MsN(ref(m))) + 1
  modifies *m, ghost(MsN, ref(m))
extern runtime.NumGoroutine() (n)
  ensures [n] n == RtG(0)
  pure
extern runtime.NumCgoCall() (n)
  ensures [n] n == RtC(0)
  pure
def tquot(a int, b int) = ite(a >= 0, a / b, -((-a) / b))
fun gOrd(e *metric.Int64GaugeEntry) int
def depOK(m *deprecatedMemStats) = m != nil && m.gcCPUFraction != nil && m.memAlloc != nil && gOrd(m.memAlloc) == 0 && m.memTotal != nil && gOrd(m.memTotal) == 1 && m.memSys != nil && gOrd(m.memSys) == 2 && m.memLookups != nil && gOrd(m.memLookups) == 3 && m.memMalloc != nil && gOrd(m.memMalloc) == 4 && m.memFrees != nil && gOrd(m.memFrees) == 5 && m.heapAlloc != nil && gOrd(m.heapAlloc) == 6 && m.heapSys != nil && gOrd(m.heapSys) == 7 && m.heapIdle != nil && gOrd(m.heapIdle) == 8 && m.heapInuse != nil && gOrd(m.heapInuse) == 9 && m.heapReleased != nil && gOrd(m.heapReleased) == 10 && m.heapObjects != nil && gOrd(m.heapObjects) == 11 && m.stackInuse != nil && gOrd(m.stackInuse) == 12 && m.stackSys != nil && gOrd(m.stackSys) == 13 && m.stackMSpanInuse != nil && gOrd(m.stackMSpanInuse) == 14 && m.stackMSpanSys != nil && gOrd(m.stackMSpanSys) == 15 && m.stackMCacheInuse != nil && gOrd(m.stackMCacheInuse) == 16 && m.stackMCacheSys != nil && gOrd(m.stackMCacheSys) == 17 && m.gcSys != nil && gOrd(m.gcSys) == 18 && m.otherSys != nil && gOrd(m.otherSys) == 19 && m.numGC != nil && gOrd(m.numGC) == 20 && m.numForcedGC != nil && gOrd(m.numForcedGC) == 21 && m.nextGC != nil && gOrd(m.nextGC) == 22 && m.lastGC != nil && gOrd(m.lastGC) == 23 && m.pauseTotalNs != nil && gOrd(m.pauseTotalNs) == 24
def depShows(m *deprecatedMemStats) = m.memAlloc.val == wrap64(m.memStats.Alloc) && m.memTotal.val == wrap64(m.memStats.TotalAlloc) && m.memSys.val == wrap64(m.memStats.Sys) && m.memLookups.val == wrap64(m.memStats.Lookups) && m.memMalloc.val == wrap64(m.memStats.Mallocs) && m.memFrees.val == wrap64(m.memStats.Frees) && m.heapAlloc.val == wrap64(m.memStats.HeapAlloc) && m.heapSys.val == wrap64(m.memStats.HeapSys) && m.heapIdle.val == wrap64(m.memStats.HeapIdle) && m.heapInuse.val == wrap64(m.memStats.HeapInuse) && m.heapReleased.val == wrap64(m.memStats.HeapReleased) && m.heapObjects.val == wrap64(m.memStats.HeapObjects) && m.stackInuse.val == wrap64(m.memStats.StackInuse) && m.stackSys.val == wrap64(m.memStats.StackSys) && m.stackMSpanInuse.val == wrap64(m.memStats.MSpanInuse) && m.stackMSpanSys.val == wrap64(m.memStats.MSpanSys) && m.stackMCacheInuse.val == wrap64(m.memStats.MCacheInuse) && m.stackMCacheSys.val == wrap64(m.memStats.MCacheSys) && m.gcSys.val == wrap64(m.memStats.GCSys) && m.otherSys.val == wrap64(m.memStats.OtherSys) && m.numGC.val == wrap64(m.memStats.NumGC) && m.numForcedGC.val == wrap64(m.memStats.NumForcedGC) && m.nextGC.val == wrap64(m.memStats.NextGC) && m.lastGC.val == tquot(wrap64(m.memStats.LastGC), 1000000) && m.pauseTotalNs.val == tquot(wrap64(m.memStats.PauseTotalNs), 1000000)
func (*plugin/runmetrics.deprecatedMemStats).read(m) ()
  props C31
  requires [entries] depOK(m)
  ensures [memAlloc] m.memAlloc.val == wrap64(m.memStats.Alloc)
  ensures [memTotal] m.memTotal.val == wrap64(m.memStats.TotalAlloc)
  ensures [memSys] m.memSys.val == wrap64(m.memStats.Sys)
  ensures [memLookups] m.memLookups.val == wrap64(m.memStats.Lookups)
  ensures [memMalloc] m.memMalloc.val == wrap64(m.memStats.Mallocs)
  ensures [memFrees] m.memFrees.val == wrap64(m.memStats.Frees)
  ensures [heapAlloc] m.heapAlloc.val == wrap64(m.memStats.HeapAlloc)
  ensures [heapSys] m.heapSys.val == wrap64(m.memStats.HeapSys)
  ensures [heapIdle] m.heapIdle.val == wrap64(m.memStats.HeapIdle)
  ensures [heapInuse] m.heapInuse.val == wrap64(m.memStats.HeapInuse)
  ensures [heapReleased] m.heapReleased.val == wrap64(m.memStats.HeapReleased)
  ensures [heapObjects] m.heapObjects.val == wrap64(m.memStats.HeapObjects)
  ensures [stackInuse] m.stackInuse.val == wrap64(m.memStats.StackInuse)
  ensures [stackSys] m.stackSys.val == wrap64(m.memStats.StackSys)
  ensures [stackMSpanInuse] m.stackMSpanInuse.val == wrap64(m.memStats.MSpanInuse)
  ensures [stackMSpanSys] m.stackMSpanSys.val == wrap64(m.memStats.MSpanSys)
  ensures [stackMCacheInuse] m.stackMCacheInuse.val == wrap64(m.memStats.MCacheInuse)
  ensures [stackMCacheSys] m.stackMCacheSys.val == wrap64(m.memStats.MCacheSys)
  ensures [gcSys] m.gcSys.val == wrap64(m.memStats.GCSys)
  ensures [otherSys] m.otherSys.val == wrap64(m.memStats.OtherSys)
  ensures [numGC] m.numGC.val == wrap64(m.memStats.NumGC)
  ensures [numForcedGC] m.numForcedGC.val == wrap64(m.memStats.NumForcedGC)
  ensures [nextGC] m.nextGC.val == wrap64(m.memStats.NextGC)
  ensures [lastGC] m.lastGC.val == tquot(wrap64(m.memStats.LastGC), 1000000)
  ensures [pauseTotalNs] m.pauseTotalNs.val == tquot(wrap64(m.memStats.PauseTotalNs), 1000000)
  ensures [gcCPUFraction] m.gcCPUFraction.val == f64bits(m.memStats.GCCPUFraction)
  ensures [read] MsN(ref(&m.memStats)) == old(MsN(ref(&m.memStats))) + 1
  modifies m.memStats, ghost(MsN, ref(&m.memStats)), m.gcCPUFraction.val, m.memAlloc.val, m.memTotal.val, m.memSys.val, m.memLookups.val, m.memMalloc.val, m.memFrees.val, m.heapAlloc.val, m.heapSys.val, m.heapIdle.val, m.heapInuse.val, m.heapReleased.val, m.heapObjects.val, m.stackInuse.val, m.stackSys.val, m.stackMSpanInuse.val, m.stackMSpanSys.val, m.stackMCacheInuse.val, m.stackMCacheSys.val, m.gcSys.val, m.otherSys.val, m.numGC.val, m.numForcedGC.val, m.nextGC.val, m.lastGC.val, m.pauseTotalNs.val
def memOK(m *memStats) = m != nil && m.memTotal != nil && m.memLookups != nil && m.memMalloc != nil && m.memFrees != nil && m.heapReleased != nil && m.numGC != nil && m.numForcedGC != nil && m.pauseTotalNs != nil && m.gcCPUFraction != nil && m.memAlloc != nil && gOrd(m.memAlloc) == 0 && m.memSys != nil && gOrd(m.memSys) == 1 && m.heapAlloc != nil && gOrd(m.heapAlloc) == 2 && m.heapSys != nil && gOrd(m.heapSys) == 3 && m.heapIdle != nil && gOrd(m.heapIdle) == 4 && m.heapInuse != nil && gOrd(m.heapInuse) == 5 && m.heapObjects != nil && gOrd(m.heapObjects) == 6 && m.stackInuse != nil && gOrd(m.stackInuse) == 7 && m.stackSys != nil && gOrd(m.stackSys) == 8 && m.stackMSpanInuse != nil && gOrd(m.stackMSpanInuse) == 9 && m.stackMSpanSys != nil && gOrd(m.stackMSpanSys) == 10 && m.stackMCacheInuse != nil && gOrd(m.stackMCacheInuse) == 11 && m.stackMCacheSys != nil && gOrd(m.stackMCacheSys) == 12 && m.gcSys != nil && gOrd(m.gcSys) == 13 && m.otherSys != nil && gOrd(m.otherSys) == 14 && m.nextGC != nil && gOrd(m.nextGC) == 15 && m.lastGC != nil && gOrd(m.lastGC) == 16
def memShows(m *memStats) = m.memAlloc.val == wrap64(m.memStats.Alloc) && m.memSys.val == wrap64(m.memStats.Sys) && m.heapAlloc.val == wrap64(m.memStats.HeapAlloc) && m.heapSys.val == wrap64(m.memStats.HeapSys) && m.heapIdle.val == wrap64(m.memStats.HeapIdle) && m.heapInuse.val == wrap64(m.memStats.HeapInuse) && m.heapObjects.val == wrap64(m.memStats.HeapObjects) && m.stackInuse.val == wrap64(m.memStats.StackInuse) && m.stackSys.val == wrap64(m.memStats.StackSys) && m.stackMSpanInuse.val == wrap64(m.memStats.MSpanInuse) && m.stackMSpanSys.val == wrap64(m.memStats.MSpanSys) && m.stackMCacheInuse.val == wrap64(m.memStats.MCacheInuse) && m.stackMCacheSys.val == wrap64(m.memStats.MCacheSys) && m.gcSys.val == wrap64(m.memStats.GCSys) && m.otherSys.val == wrap64(m.memStats.OtherSys) && m.nextGC.val == wrap64(m.memStats.NextGC) && m.lastGC.val == tquot(wrap64(m.memStats.LastGC), 1000000)
func (*plugin/runmetrics.memStats).read(m) ()
  props C31
  requires [entries] memOK(m)
  ensures [memAlloc] m.memAlloc.val == wrap64(m.memStats.Alloc)
  ensures [memSys] m.memSys.val == wrap64(m.memStats.Sys)
  ensures [heapAlloc] m.heapAlloc.val == wrap64(m.memStats.HeapAlloc)
  ensures [heapSys] m.heapSys.val == wrap64(m.memStats.HeapSys)
  ensures [heapIdle] m.heapIdle.val == wrap64(m.memStats.HeapIdle)
  ensures [heapInuse] m.heapInuse.val == wrap64(m.memStats.HeapInuse)
  ensures [heapObjects] m.heapObjects.val == wrap64(m.memStats.HeapObjects)
  ensures [stackInuse] m.stackInuse.val == wrap64(m.memStats.StackInuse)
  ensures [stackSys] m.stackSys.val == wrap64(m.memStats.StackSys)
  ensures [stackMSpanInuse] m.stackMSpanInuse.val == wrap64(m.memStats.MSpanInuse)
  ensures [stackMSpanSys] m.stackMSpanSys.val == wrap64(m.memStats.MSpanSys)
  ensures [stackMCacheInuse] m.stackMCacheInuse.val == wrap64(m.memStats.MCacheInuse)
  ensures [stackMCacheSys] m.stackMCacheSys.val == wrap64(m.memStats.MCacheSys)
  ensures [gcSys] m.gcSys.val == wrap64(m.memStats.GCSys)
  ensures [otherSys] m.otherSys.val == wrap64(m.memStats.OtherSys)
  ensures [nextGC] m.nextGC.val == wrap64(m.memStats.NextGC)
  ensures [lastGC] m.lastGC.val == tquot(wrap64(m.memStats.LastGC), 1000000)
  ensures [gcCPUFraction] m.gcCPUFraction.val == f64bits(m.memStats.GCCPUFraction)
  ensures [read] MsN(ref(&m.memStats)) == old(MsN(ref(&m.memStats))) + 1
  modifies syncmap(m.memTotal.bm.vals), syncmap(m.memLookups.bm.vals), syncmap(m.memMalloc.bm.vals), syncmap(m.memFrees.bm.vals), syncmap(m.heapReleased.bm.vals), syncmap(m.numGC.bm.vals), syncmap(m.numForcedGC.bm.vals), syncmap(m.pauseTotalNs.bm.vals), m.memStats, ghost(MsN, ref(&m.memStats)), m.gcCPUFraction.val, m.memAlloc.val, m.memSys.val, m.heapAlloc.val, m.heapSys.val, m.heapIdle.val, m.heapInuse.val, m.heapObjects.val, m.stackInuse.val, m.stackSys.val, m.stackMSpanInuse.val, m.stackMSpanSys.val, m.stackMCacheInuse.val, m.stackMCacheSys.val, m.gcSys.val, m.otherSys.val, m.nextGC.val, m.lastGC.val
func (*plugin/runmetrics.cpuStats).read(c) ()
  props C31
  requires [entries] c != nil && c.numGoroutines != nil && c.numCgoCalls != nil && c.numGoroutines != c.numCgoCalls
  ensures [goroutines] c.numGoroutines.val == RtG(0)
  ensures [cgo] c.numCgoCalls.val == RtC(0)
  modifies c.numGoroutines.val, c.numCgoCalls.val
func (*metric.Registry).Read(r) (ms)
  note walks a sync.Map with Range, which is outside the modelled library; the harness compares what it returns
  requires [nonnil] r != nil
  ensures [mem] ms == nil || allocated(ms)
  trusted
def cpuOK(c *cpuStats) = c != nil && c.numGoroutines != nil && c.numCgoCalls != nil && c.numGoroutines != c.numCgoCalls
func (*plugin/runmetrics.producer).Read(p) (ms)
  props C31
  requires [nonnil] p != nil && p.reg != nil
  requires [parts] (p.memStats != nil ==> memOK(p.memStats)) && (p.deprecatedMemStats != nil ==> depOK(p.deprecatedMemStats)) && (p.cpuStats != nil ==> cpuOK(p.cpuStats))
  requires [one] p.memStats == nil || p.deprecatedMemStats == nil
  requires [apart] p.cpuStats != nil ==> gOrd(p.cpuStats.numGoroutines) < 0 && gOrd(p.cpuStats.numCgoCalls) < 0
  ensures [mem] p.memStats != nil ==> memShows(p.memStats) && MsN(ref(&p.memStats.memStats)) == old(MsN(ref(&p.memStats.memStats))) + 1
  ensures [dep] p.deprecatedMemStats != nil ==> depShows(p.deprecatedMemStats) && MsN(ref(&p.deprecatedMemStats.memStats)) == old(MsN(ref(&p.deprecatedMemStats.memStats))) + 1
  ensures [cpu] p.cpuStats != nil ==> p.cpuStats.numGoroutines.val == RtG(0) && p.cpuStats.numCgoCalls.val == RtC(0)
  anyframe
func plugin/runmetrics.Disable() ()
  props C31
  requires [mgr] mgrOK()
  ensures [off] enabledProducer == nil
  ensures [removed] old(enabledProducer) != nil ==> !has(metricproducer.prodMgr.producers, metricproducer.Producer(old(enabledProducer)))
  anyframe
