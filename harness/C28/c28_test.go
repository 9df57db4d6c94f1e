package ocgrpc

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	ocstats "go.opencensus.io/stats"
	"go.opencensus.io/stats/view"
	"go.opencensus.io/tag"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/stats"
	"google.golang.org/grpc/status"
)

type c28row struct {
	n   int64
	sum float64
}

var c28names = []string{"OK", "CANCELLED", "UNKNOWN", "INVALID_ARGUMENT", "DEADLINE_EXCEEDED", "NOT_FOUND", "ALREADY_EXISTS", "PERMISSION_DENIED", "RESOURCE_EXHAUSTED", "FAILED_PRECONDITION", "ABORTED", "OUT_OF_RANGE", "UNIMPLEMENTED", "INTERNAL", "UNAVAILABLE", "DATA_LOSS", "UNAUTHENTICATED"}

func c28show(m map[string]c28row) string {
	var l []string
	for k, v := range m {
		l = append(l, fmt.Sprintf("%s: %d records, sum %v", k, v.n, v.sum))
	}
	sort.Strings(l)
	return strings.Join(l, ", ")
}

func TestVerifC28(t *testing.T) {
	h := newVH(t, "C28")
	defer h.done()
	for c, n := range c28names {
		if s := statusCodeToString(status.New(codes.Code(c), "x")); s != n {
			h.cex("code %d is named %q, expected %q", c, s, n)
		}
	}
	h.guard("code 0..300", func() {
		for c := len(c28names); c < 300; c++ {
			if s := statusCodeToString(status.New(codes.Code(c), "x")); s != fmt.Sprintf("CODE_%d", c) {
				h.cex("code %d is named %q", c, s)
			}
		}
	})
	agg := view.Distribution(1, 10, 100)
	ck, sk := []tag.Key{KeyClientMethod, KeyClientStatus}, []tag.Key{KeyServerMethod, KeyServerStatus}
	views := []*view.View{}
	for i, m := range []ocstats.Measure{ClientSentMessagesPerRPC, ClientSentBytesPerRPC, ClientReceivedMessagesPerRPC, ClientReceivedBytesPerRPC, ClientRoundtripLatency} {
		views = append(views, &view.View{Name: fmt.Sprintf("c28c%d", i), Measure: m, Aggregation: agg, TagKeys: ck})
	}
	for i, m := range []ocstats.Measure{ServerSentMessagesPerRPC, ServerSentBytesPerRPC, ServerReceivedMessagesPerRPC, ServerReceivedBytesPerRPC, ServerLatency} {
		views = append(views, &view.View{Name: fmt.Sprintf("c28s%d", i), Measure: m, Aggregation: agg, TagKeys: sk})
	}
	views = append(views, &view.View{Name: "c28c5", Measure: ClientStartedRPCs, Aggregation: agg, TagKeys: ck[:1]})
	views = append(views, &view.View{Name: "c28s5", Measure: ServerStartedRPCs, Aggregation: agg, TagKeys: sk[:1]})
	type rpc struct {
		client       bool
		ctx          context.Context
		method       string
		data         bool
		ended, begun bool
		c            [4]int64 // sent messages and bytes, received messages and bytes
		start        time.Time
	}
	for h.more() {
		h.guard("history", func() {
			if err := view.Register(views...); err != nil {
				h.cex("registering the views: %v", err)
				return
			}
			defer view.Unregister(views...)
			log := ""
			model := map[string]map[string]c28row{}
			for _, v := range views {
				model[v.Name] = map[string]c28row{}
			}
			rowKey := func(kv ...string) string { // a tag with an empty value is not shown
				var l []string
				for i := 0; i < len(kv); i += 2 {
					if kv[i+1] != "" {
						l = append(l, kv[i]+"="+kv[i+1])
					}
				}
				return strings.Join(l, ",")
			}
			add := func(v, key string, x float64) {
				r := model[v][key]
				r.n++
				r.sum += x
				model[v][key] = r
			}
			ch, sh := &ClientHandler{}, &ServerHandler{}
			handle := func(r *rpc, s stats.RPCStats) {
				if r.client {
					ch.HandleRPC(r.ctx, s)
				} else {
					sh.HandleRPC(r.ctx, s)
				}
			}
			var rpcs []*rpc
			maxLat := map[string]float64{}
			for k := 1 + h.Intn(25); k > 0; k-- {
				if len(rpcs) == 0 || h.Intn(5) == 0 {
					r := &rpc{client: h.Intn(2) == 0, method: "/" + h.str("ab./", 4), data: h.Intn(6) > 0, start: time.Now()}
					r.ctx = context.Background()
					if h.Intn(2) == 0 {
						r.ctx, _ = tag.New(r.ctx, tag.Upsert(tag.MustNewKey("k1"), h.str("xy", 2)))
					}
					info := &stats.RPCTagInfo{FullMethodName: r.method}
					if r.data {
						if r.client {
							r.ctx = ch.TagRPC(r.ctx, info)
						} else {
							r.ctx = sh.TagRPC(r.ctx, info)
						}
					}
					rpcs = append(rpcs, r)
					log += fmt.Sprintf(" rpc%d(client %v, %q, data %v);", len(rpcs)-1, r.client, r.method, r.data)
				}
				i := h.Intn(len(rpcs))
				r := rpcs[i]
				if r.ended {
					continue
				}
				side, mk, st := "c28c", "grpc_client_method", "grpc_client_status"
				if !r.client {
					side, mk, st = "c28s", "grpc_server_method", "grpc_server_status"
				}
				name := strings.TrimLeft(r.method, "/")
				switch ev := h.Intn(7); {
				case ev == 0 && !r.begun:
					r.begun = true
					log += fmt.Sprintf(" begin%d", i)
					handle(r, &stats.Begin{Client: r.client})
					if r.data {
						add(side+"5", rowKey(mk, name), 1)
					}
				case ev <= 1:
					handle(r, []stats.RPCStats{&stats.OutHeader{}, &stats.InHeader{}, &stats.InTrailer{}, &stats.OutTrailer{}}[h.Intn(4)])
				case ev <= 3:
					n := 1
					if h.Intn(5) == 0 {
						n = 2 + h.Intn(6)
					}
					sizes := make([]int, n)
					out := h.Intn(2) == 0
					for j := range sizes {
						sizes[j] = h.Intn(1000)
						if out {
							r.c[0]++
							r.c[1] += int64(sizes[j])
						} else {
							r.c[2]++
							r.c[3] += int64(sizes[j])
						}
					}
					log += fmt.Sprintf(" payload%d(out %v, %v)", i, out, sizes)
					var wg sync.WaitGroup
					for _, z := range sizes {
						wg.Add(1)
						f := func(z int) {
							defer wg.Done()
							if out {
								handle(r, &stats.OutPayload{Client: r.client, Length: z, WireLength: z + 5})
							} else {
								handle(r, &stats.InPayload{Client: r.client, Length: z, WireLength: z + 5})
							}
						}
						if n > 1 {
							go f(z)
						} else {
							f(z)
						}
					}
					wg.Wait()
				case ev == 6 || k < 4:
					r.ended = true
					code := h.Intn(len(c28names) + 1)
					if h.Intn(3) == 0 {
						code = 0
					}
					e := &stats.End{Client: r.client}
					key := "OK"
					if code == len(c28names) {
						code = 17 + h.Intn(100)
						key = fmt.Sprintf("CODE_%d", code)
					} else {
						key = c28names[code]
					}
					if code != 0 {
						e.Error = status.Error(codes.Code(code), "boom")
						if h.Intn(10) == 0 {
							e.Error = errors.New("no status")
							key = ""
						}
					}
					log += fmt.Sprintf(" end%d(%s)", i, key)
					handle(r, e)
					if r.data {
						lat := float64(time.Since(r.start)) / float64(time.Millisecond)
						row := rowKey(mk, name, st, key)
						for j, x := range r.c {
							add(fmt.Sprintf("%s%d", side, j), row, float64(x))
						}
						add(side+"4", row, 0)
						maxLat[side+row] += lat
					}
				}
			}
			for _, v := range views {
				rows, err := view.RetrieveData(v.Name)
				if err != nil {
					h.cex("%s: %v", log, err)
					return
				}
				got := map[string]c28row{}
				for _, r := range rows {
					var l []string
					for _, t := range r.Tags {
						l = append(l, t.Key.Name()+"="+t.Value)
					}
					sort.Strings(l)
					d := r.Data.(*view.DistributionData)
					key := strings.Join(l, ",")
					row := c28row{d.Count, d.Mean * float64(d.Count)}
					if strings.HasSuffix(v.Name, "4") {
						lim := maxLat[v.Name[:4]+key]
						if row.sum < 0 || row.sum > lim+1e-6*(1+lim) {
							h.cex("%s: latency %v ms recorded for %s, at most %v ms passed", log, row.sum, key, lim)
							return
						}
						row.sum = 0
					}
					got[key] = row
				}
				want := model[v.Name]
				ok := len(got) == len(want)
				for k, w := range want {
					g := got[k]
					d := g.sum - w.sum
					if g.n != w.n || d > 1e-6*(1+w.sum) || -d > 1e-6*(1+w.sum) {
						ok = false
					}
				}
				if !ok {
					h.cex("%s: measure %s recorded %s; expected %s", log, v.Measure.Name(), c28show(got), c28show(want))
					return
				}
			}
			h.count(log)
		})
	}
}
