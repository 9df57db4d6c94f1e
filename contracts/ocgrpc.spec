package plugin/ocgrpc
import stats google.golang.org/grpc/stats
import status google.golang.org/grpc/status
import codes google.golang.org/grpc/codes
import ocstats go.opencensus.io/stats
import tag go.opencensus.io/tag
import trace go.opencensus.io/trace
import internal go.opencensus.io/stats/internal
// C28
fun stCode(s int) int
extern (*google.golang.org/grpc/internal/status.Status).Code(s) (c)
  ensures [code] s != nil ==> c == stCode(ref(s))
  ensures [nil] s == nil ==> c == 0
  pure
extern (*google.golang.org/grpc/internal/status.Status).Message(s) (m)
  pure
extern google.golang.org/grpc/grpclog.V(l) (b)
  pure
extern google.golang.org/grpc/grpclog.Infoln(args) ()
  pure
extern google.golang.org/grpc/grpclog.Infof(f, args) ()
  pure
def stName(c int) = ite(c == 0, "OK", ite(c == 1, "CANCELLED", ite(c == 2, "UNKNOWN", ite(c == 3, "INVALID_ARGUMENT", ite(c == 4, "DEADLINE_EXCEEDED", ite(c == 5, "NOT_FOUND", ite(c == 6, "ALREADY_EXISTS", ite(c == 7, "PERMISSION_DENIED", ite(c == 8, "RESOURCE_EXHAUSTED", ite(c == 9, "FAILED_PRECONDITION", ite(c == 10, "ABORTED", ite(c == 11, "OUT_OF_RANGE", ite(c == 12, "UNIMPLEMENTED", ite(c == 13, "INTERNAL", ite(c == 14, "UNAVAILABLE", ite(c == 15, "DATA_LOSS", "UNAUTHENTICATED"))))))))))))))))
func plugin/ocgrpc.statusCodeToString(s) (r)
  props C28
  requires [nonnil] s != nil
  ensures [name] 0 <= stCode(ref(s)) <= 16 ==> r == stName(stCode(ref(s)))
def rpcOf(ctx context.Context) = ite(typeis(ctxval(ctx, rpcDataKey), *rpcData), as(ctxval(ctx, rpcDataKey), *rpcData), nil)
def rpcCtx(ctx context.Context) = ctx != nil && (typeis(ctxval(ctx, rpcDataKey), *rpcData) ==> as(ctxval(ctx, rpcDataKey), *rpcData) != nil)
// the four counters of an RPC are shared by the goroutines of its stream: only atomic steps, one per event
atomic plugin/ocgrpc.rpcData.sentCount
atomic plugin/ocgrpc.rpcData.sentBytes
atomic plugin/ocgrpc.rpcData.recvCount
atomic plugin/ocgrpc.rpcData.recvBytes
func plugin/ocgrpc.handleRPCOutPayload(ctx, s) ()
  props C28
  requires [nonnil] rpcCtx(ctx) && s != nil
  let d = rpcOf(ctx)
  ensures [once] d != nil ==> commits(d.sentCount) == old(commits(d.sentCount)) + 1 && commits(d.sentBytes) == old(commits(d.sentBytes)) + 1
  ensures [count] d != nil ==> cafter(d.sentCount) == wrap64(cbefore(d.sentCount) + 1) && cafter(d.sentBytes) == wrap64(cbefore(d.sentBytes) + s.Length)
  modifies ite(d != nil, d.sentCount), ite(d != nil, d.sentBytes)
func plugin/ocgrpc.handleRPCInPayload(ctx, s) ()
  props C28
  requires [nonnil] rpcCtx(ctx) && s != nil
  let d = rpcOf(ctx)
  ensures [once] d != nil ==> commits(d.recvCount) == old(commits(d.recvCount)) + 1 && commits(d.recvBytes) == old(commits(d.recvBytes)) + 1
  ensures [count] d != nil ==> cafter(d.recvCount) == wrap64(cbefore(d.recvCount) + 1) && cafter(d.recvBytes) == wrap64(cbefore(d.recvBytes) + s.Length)
  modifies ite(d != nil, d.recvCount), ite(d != nil, d.recvBytes)
extern google.golang.org/grpc/status.FromError(e) (st, ok)
  ensures [some] st != nil
  pure
def measuresOK() = ClientSentBytesPerRPC != nil && ClientSentBytesPerRPC.desc != nil && ClientSentMessagesPerRPC != nil && ClientSentMessagesPerRPC.desc != nil && ClientReceivedMessagesPerRPC != nil && ClientReceivedMessagesPerRPC.desc != nil && ClientReceivedBytesPerRPC != nil && ClientReceivedBytesPerRPC.desc != nil && ClientRoundtripLatency != nil && ClientRoundtripLatency.desc != nil && ServerSentBytesPerRPC != nil && ServerSentBytesPerRPC.desc != nil && ServerSentMessagesPerRPC != nil && ServerSentMessagesPerRPC.desc != nil && ServerReceivedMessagesPerRPC != nil && ServerReceivedMessagesPerRPC.desc != nil && ServerReceivedBytesPerRPC != nil && ServerReceivedBytesPerRPC.desc != nil && ServerLatency != nil && ServerLatency.desc != nil && ClientStartedRPCs != nil && ClientStartedRPCs.desc != nil && ServerStartedRPCs != nil && ServerStartedRPCs.desc != nil
func plugin/ocgrpc.handleRPCEnd(ctx, s) ()
  props C28
  requires [nonnil] rpcCtx(ctx) && s != nil && measuresOK()
  requires [tracer] trace.DefaultTracer != nil
  requires [span] spanIn(ctx) != nil ==> spanIn(ctx).internal != nil
  inlineof stats.RecordWithOptions
  inlineof stats.createRecordOption
  let d = rpcOf(ctx)
  let n = RcN(0)
  ensures [none] d == nil ==> RcN(0) == n
  ensures [once] RcN(0) == n || RcN(0) == n + 1
  ensures [client] RcN(0) > n && s.Client ==> len(RcMs(0)) == 5 && RcMs(0)[0].desc == ClientSentBytesPerRPC.desc && RcMs(0)[1].desc == ClientSentMessagesPerRPC.desc && RcMs(0)[2].desc == ClientReceivedMessagesPerRPC.desc && RcMs(0)[3].desc == ClientReceivedBytesPerRPC.desc && RcMs(0)[4].desc == ClientRoundtripLatency.desc
  ensures [clientValues] RcN(0) > n && s.Client ==> same(RcMs(0)[0].v, i2f(d.sentBytes)) && same(RcMs(0)[1].v, i2f(d.sentCount)) && same(RcMs(0)[2].v, i2f(d.recvCount)) && same(RcMs(0)[3].v, i2f(d.recvBytes))
  ensures [server] RcN(0) > n && !s.Client ==> len(RcMs(0)) == 5 && RcMs(0)[0].desc == ServerSentBytesPerRPC.desc && RcMs(0)[1].desc == ServerSentMessagesPerRPC.desc && RcMs(0)[2].desc == ServerReceivedMessagesPerRPC.desc && RcMs(0)[3].desc == ServerReceivedBytesPerRPC.desc && RcMs(0)[4].desc == ServerLatency.desc
  ensures [serverValues] RcN(0) > n && !s.Client ==> same(RcMs(0)[0].v, i2f(d.sentBytes)) && same(RcMs(0)[1].v, i2f(d.sentCount)) && same(RcMs(0)[2].v, i2f(d.recvCount)) && same(RcMs(0)[3].v, i2f(d.recvBytes))
  ensures [tags] RcN(0) > n ==> MutN(0) == old(MutN(0)) + ite(s.Client, 2, 1)
  anyframe
extern (*google.golang.org/grpc/stats.Begin).IsClient(s) (b)
  requires [nonnil] s != nil
  ensures [client] b == s.Client
  pure
func plugin/ocgrpc.handleRPCBegin(ctx, s) ()
  props C28
  requires [nonnil] rpcCtx(ctx) && s != nil && measuresOK()
  inlineof stats.RecordWithOptions
  inlineof stats.createRecordOption
  let d = rpcOf(ctx)
  let n = RcN(0)
  ensures [none] d == nil ==> RcN(0) == n
  ensures [once] RcN(0) == n || RcN(0) == n + 1
  ensures [what] RcN(0) > n ==> len(RcMs(0)) == 1 && RcMs(0)[0].desc == ite(s.Client, ClientStartedRPCs.desc, ServerStartedRPCs.desc) && same(RcMs(0)[0].v, i2f(1))
  anyframe
extern google.golang.org/grpc/stats.SetTags(ctx, b) (c)
  ensures [ctx] c != nil
func (*plugin/ocgrpc.ClientHandler).statsTagRPC(h, ctx, info) (c)
  props C28
  requires [ctx] ctx != nil
  requires [tags] tagsOf(ctx) != nil ==> tagsOf(ctx).m != nil
  requires [valid] tagsOf(ctx) != nil ==> forall k tag.Key { has(tagsOf(ctx).m, k) } :: has(tagsOf(ctx).m, k) ==> len(k.name) < 256 && len(tagsOf(ctx).m[k].value) < 256
  ensures [none] info == nil ==> c == ctx
  ensures [data] info != nil ==> let d = rpcOf(c) in d != nil && fresh(d) && d.method == info.FullMethodName && d.sentCount == 0 && d.sentBytes == 0 && d.recvCount == 0 && d.recvBytes == 0
  anyframe
func plugin/ocgrpc.traceHandleRPC(ctx, rs) ()
  props C28
  requires [ctx] ctx != nil && trace.DefaultTracer != nil
  requires [span] spanIn(ctx) != nil ==> spanIn(ctx).internal != nil
  requires [event] (typeis(rs, *stats.End) ==> as(rs, *stats.End) != nil) && (typeis(rs, *stats.Begin) ==> as(rs, *stats.Begin) != nil) && (typeis(rs, *stats.InPayload) ==> as(rs, *stats.InPayload) != nil) && (typeis(rs, *stats.OutPayload) ==> as(rs, *stats.OutPayload) != nil)
  let sp = spanIn(ctx)
  let k = ifkey(sp.internal)
  ensures [ended] sp != nil && typeis(rs, *stats.End) ==> SpOp(k) == 1
  ensures [endOps] sp != nil && ifkey(sp.internal) > 0 && typeis(rs, *stats.End) ==> SpOps(k) == old(SpOps(k)) + ite(spLive(sp) && as(rs, *stats.End).Error != nil, 2, 1)
  ensures [received] spLive(sp) && typeis(rs, *stats.InPayload) ==> SpOp(k) == 8 && SpOps(k) == old(SpOps(k)) + 1
  ensures [sent] spLive(sp) && typeis(rs, *stats.OutPayload) ==> SpOp(k) == 7 && SpOps(k) == old(SpOps(k)) + 1
  anyframe

extern google.golang.org/grpc/stats.Tags(ctx) (b)
  requires [nonnil] ctx != nil
  pure
func (*plugin/ocgrpc.ServerHandler).statsTagRPC(h, ctx, info) (c)
  props C28
  requires [ctx] ctx != nil
  ensures [none] info == nil ==> c == ctx
  ensures [data] info != nil ==> let d = rpcOf(c) in d != nil && fresh(d) && d.method == info.FullMethodName && d.sentCount == 0 && d.sentBytes == 0 && d.recvCount == 0 && d.recvBytes == 0
  anyframe
