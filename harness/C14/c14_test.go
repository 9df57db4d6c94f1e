package trace

import (
	"fmt"
	"sync"
	"testing"
	"time"
)

type c14gen struct{ id byte }

func (g *c14gen) NewTraceID() [16]byte { return [16]byte{g.id, 1} }
func (g *c14gen) NewSpanID() [8]byte   { return [8]byte{g.id, 1} }

func TestVerifC14(t *testing.T) {
	h := newVH(t, "C14")
	defer h.done()
	orig := *config.Load().(*Config)
	defer func() { c := orig; config.Store(&c) }()
	probe := func(s Sampler) int {
		if s == nil {
			return -1
		}
		id := 0
		for i := 0; i < 8; i++ {
			if s(SamplingParameters{Name: fmt.Sprint(i)}).Sample {
				id |= 1 << i
			}
		}
		return id
	}
	mk := func(id int) Sampler {
		return func(p SamplingParameters) SamplingDecision {
			return SamplingDecision{Sample: len(p.Name) > 0 && id>>uint(p.Name[0]-'0')&1 == 1}
		}
	}
	type view struct {
		s              int
		g              interface{}
		an, me, at, li int
	}
	of := func(c *Config) view {
		return view{probe(c.DefaultSampler), c.IDGenerator, c.MaxAnnotationEventsPerSpan, c.MaxMessageEventsPerSpan, c.MaxAttributesPerSpan, c.MaxLinksPerSpan}
	}
	seq := h.part(2)
	num := func() int {
		switch h.Intn(3) {
		case 0:
			return 0
		case 1:
			return int(h.int64v())
		}
		return h.Intn(6) - 1
	}
	for seq.more() && !h.failed {
		h.guard("ApplyConfig history", func() {
			c0 := orig
			config.Store(&c0)
			want := of(&c0)
			log := ""
			var olds []*Config
			var oldv []view
			for i, n := 0, 1+h.Intn(6); i < n; i++ {
				var c Config
				if h.Intn(3) == 0 {
					id := 1 + h.Intn(255)
					c.DefaultSampler = mk(id)
					want.s = id
				}
				if h.Intn(3) == 0 {
					g := &c14gen{byte(i)}
					c.IDGenerator = g
					want.g = g
				}
				set := func(f *int, w *int) {
					*f = num()
					if *f > 0 {
						*w = *f
					}
				}
				set(&c.MaxAnnotationEventsPerSpan, &want.an)
				set(&c.MaxMessageEventsPerSpan, &want.me)
				set(&c.MaxAttributesPerSpan, &want.at)
				set(&c.MaxLinksPerSpan, &want.li)
				log += fmt.Sprintf("{sampler:%d gen:%v an:%d me:%d at:%d li:%d}", probe(c.DefaultSampler), c.IDGenerator != nil, c.MaxAnnotationEventsPerSpan, c.MaxMessageEventsPerSpan, c.MaxAttributesPerSpan, c.MaxLinksPerSpan)
				cur := config.Load().(*Config)
				olds, oldv = append(olds, cur), append(oldv, of(cur))
				ApplyConfig(c)
				h.count(log)
				if got := of(config.Load().(*Config)); got != want {
					h.cex("after applying %s the configuration is %+v, want %+v", log, got, want)
					return
				}
				for j := range olds {
					if of(olds[j]) != oldv[j] {
						h.cex("applying %s modified a configuration published before", log)
						return
					}
				}
			}
		})
	}
	// concurrent updates of different fields are all kept
	for h.more() {
		c0 := orig
		config.Store(&c0)
		var wg sync.WaitGroup
		start := make(chan bool)
		n := 300 + h.Intn(500)
		for f := 0; f < 4; f++ {
			f := f
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for i := 1; i <= n; i++ {
					var c Config
					p := []*int{&c.MaxAnnotationEventsPerSpan, &c.MaxMessageEventsPerSpan, &c.MaxAttributesPerSpan, &c.MaxLinksPerSpan}[f]
					*p = i
					ApplyConfig(c)
					g := of(config.Load().(*Config))
					if v := []int{g.an, g.me, g.at, g.li}[f]; v != i {
						h.t.Errorf("lost update: field %d is %d right after applying %d", f, v, i)
						fmt.Printf("\nVERIF-COUNTEREXAMPLE: C14: four goroutines each applying one limit: field %d is %d right after its only writer applied %d\n", f, v, i)
						h.failed = true
						return
					}
				}
			}()
		}
		close(start)
		wg.Wait()
		h.count("concurrent", n, time.Now().UnixNano())
	}
}
