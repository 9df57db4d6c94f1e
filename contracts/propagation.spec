package trace/propagation
import go.opencensus.io/trace
func trace/propagation.Binary(sc) (b)
  props C04
  ensures [empty] sc == zero(trace.SpanContext) ==> b == nil
  ensures [len] sc != zero(trace.SpanContext) ==> len(b) == 29
  ensures [hdr] sc != zero(trace.SpanContext) ==> b[0] == 0 && b[1] == 0 && b[18] == 1 && b[27] == 2 && b[28] == sc.TraceOptions % 256
  ensures [traceid] sc != zero(trace.SpanContext) ==> forall i int :: 0 <= i < 16 ==> b[2+i] == sc.TraceID[i]
  ensures [spanid] sc != zero(trace.SpanContext) ==> forall i int :: 0 <= i < 8 ==> b[19+i] == sc.SpanID[i]

func trace/propagation.FromBinary(b) (sc, ok)
  props C04
  let good = len(b) >= 18 && b[0] == 0 && b[1] == 0
  let hasS = good && len(b) >= 27 && b[18] == 1
  let p = ite(hasS, 27, 18)
  let hasO = good && len(b) >= p+2 && b[p] == 2
  ensures [ok] ok == good
  ensures [bad] !good ==> sc == zero(trace.SpanContext)
  ensures [traceid] good ==> forall i int :: 0 <= i < 16 ==> sc.TraceID[i] == b[2+i]
  ensures [spanid] forall i int :: 0 <= i < 8 ==> sc.SpanID[i] == ite(hasS, b[19+i], 0)
  ensures [options] sc.TraceOptions == ite(hasO, b[p+1], 0)
  ensures [tracestate] sc.Tracestate == nil
