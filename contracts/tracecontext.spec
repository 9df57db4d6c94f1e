package plugin/ochttp/propagation/tracecontext
import trace go.opencensus.io/trace
import http net/http
import tracestate go.opencensus.io/trace/tracestate
extern net/textproto.CanonicalMIMEHeaderKey(k) (c)
  ensures [canon] c == canon(k)
  pure
axiom canonTC : canon("traceparent") == "Traceparent" && canon("tracestate") == "Tracestate"
fun joined(a []string, sep string) string
extern strings.Join(a, sep) (s)
  ensures [joined] s == joined(a, sep)
  ensures [one] len(a) == 1 ==> s == a[0]
  ensures [two] len(a) == 2 ==> s == a[0] + sep + a[1]
  pure
func plugin/ochttp/propagation/tracecontext.getRequestHeader(req, name, commaSeparated) (hdr, ok)
  props C06
  requires [req] req != nil
  let v = req.Header[canon(name)]
  let n = ite(has(req.Header, canon(name)), len(req.Header[canon(name)]), 0)
  ensures [none] n == 0 ==> hdr == "" && !ok
  ensures [one] n == 1 ==> hdr == v[0] && ok
  ensures [many] n > 1 ==> ok == commaSeparated
// the bytes of hexadecimal text are all zero
def hexZero8(s string, k int) = hexb(s, k) == 0 && hexb(s, k+1) == 0 && hexb(s, k+2) == 0 && hexb(s, k+3) == 0 && hexb(s, k+4) == 0 && hexb(s, k+5) == 0 && hexb(s, k+6) == 0 && hexb(s, k+7) == 0
def tpOK(tp string) = tp != "" && fieldN(tp, "-") >= 4 && len(field(tp, "-", 0)) == 2 && hexOK(field(tp, "-", 0)) && hexb(field(tp, "-", 0), 0) <= 254 && (hexb(field(tp, "-", 0), 0) == 0 ==> fieldN(tp, "-") == 4) && len(field(tp, "-", 1)) == 32 && hexOK(field(tp, "-", 1)) && len(field(tp, "-", 2)) == 16 && hexOK(field(tp, "-", 2)) && len(field(tp, "-", 3)) >= 2 && hexOK(field(tp, "-", 3))
func (*plugin/ochttp/propagation/tracecontext.HTTPFormat).SpanContextFromHeaders(f, tp, ts) (sc, ok)
  props C06
  ensures [accepts] ok ==> tpOK(tp)
  ensures [nonzero] ok ==> sc.TraceID != zero(trace.TraceID) && sc.SpanID != zero(trace.SpanID)
  ensures [trace] ok ==> forall i int { sc.TraceID[i] } :: 0 <= i < 16 ==> sc.TraceID[i] == hexb(field(tp, "-", 1), i)
  ensures [span] ok ==> forall i int { sc.SpanID[i] } :: 0 <= i < 8 ==> sc.SpanID[i] == hexb(field(tp, "-", 2), i)
  ensures [options] ok ==> sc.TraceOptions == hexb(field(tp, "-", 3), 0)
  ensures [rejects] !ok && tpOK(tp) ==> (hexZero8(field(tp, "-", 1), 0) && hexZero8(field(tp, "-", 1), 8)) || hexZero8(field(tp, "-", 2), 0)
  ensures [state] ok && ts == "" ==> sc.Tracestate == nil
func plugin/ochttp/propagation/tracecontext.tracestateFromHeader(ts) (r)
  props C06
  trusted
  ensures [none] ts == "" ==> r == nil
func (*plugin/ochttp/propagation/tracecontext.HTTPFormat).SpanContextFromRequest(f, req) (sc, ok)
  props C06
  requires [req] req != nil
  let n = ite(has(req.Header, "Traceparent"), len(req.Header["Traceparent"]), 0)
  let tp = req.Header["Traceparent"][0]
  ensures [absent] n == 0 ==> !ok
  ensures [accepts] n == 1 && ok ==> tpOK(tp)
  ensures [nonzero] ok ==> sc.TraceID != zero(trace.TraceID) && sc.SpanID != zero(trace.SpanID)
  ensures [trace] n == 1 && ok ==> forall i int { sc.TraceID[i] } :: 0 <= i < 16 ==> sc.TraceID[i] == hexb(field(tp, "-", 1), i)
  ensures [span] n == 1 && ok ==> forall i int { sc.SpanID[i] } :: 0 <= i < 8 ==> sc.SpanID[i] == hexb(field(tp, "-", 2), i)
  ensures [options] n == 1 && ok ==> sc.TraceOptions == hexb(field(tp, "-", 3), 0)
  ensures [rejects] n == 1 && !ok && tpOK(tp) ==> (hexZero8(field(tp, "-", 1), 0) && hexZero8(field(tp, "-", 1), 8)) || hexZero8(field(tp, "-", 2), 0)
func plugin/ochttp/propagation/tracecontext.tracestateToHeader(sc) (h)
  props C06
  trusted
  ensures [none] sc.Tracestate == nil ==> h == ""
  ensures [short] len(h) <= 512
func (*plugin/ochttp/propagation/tracecontext.HTTPFormat).SpanContextToHeaders(f, sc) (tp, ts)
  props C06
  ensures [len] len(tp) == 55
  ensures [version] tp[0] == 48 && tp[1] == 48 && tp[2] == 45 && tp[35] == 45 && tp[52] == 45
  ensures [trace] forall j int { tp[j] } :: 3 <= j < 35 ==> tp[j] == hexdig(ite((j-3) % 2 == 0, sc.TraceID[(j-3)/2] / 16, sc.TraceID[(j-3)/2] % 16))
  ensures [span] forall j int { tp[j] } :: 36 <= j < 52 ==> tp[j] == hexdig(ite((j-36) % 2 == 0, sc.SpanID[(j-36)/2] / 16, sc.SpanID[(j-36)/2] % 16))
  ensures [options] tp[53] == hexdig(sc.TraceOptions % 256 / 16) && tp[54] == hexdig(sc.TraceOptions % 16)
func (*plugin/ochttp/propagation/tracecontext.HTTPFormat).SpanContextToRequest(f, sc, req) ()
  props C06
  requires [req] req != nil && req.Header != nil
  ensures [set] has(req.Header, "Traceparent") && len(req.Header["Traceparent"]) == 1
  ensures [text] let tp = req.Header["Traceparent"][0] in len(tp) == 55 && tp[0] == 48 && tp[1] == 48 && tp[2] == 45 && tp[35] == 45 && tp[52] == 45 && tp[53] == hexdig(sc.TraceOptions % 256 / 16) && tp[54] == hexdig(sc.TraceOptions % 16) && (forall j int { tp[j] } :: 3 <= j < 35 ==> tp[j] == hexdig(ite((j-3) % 2 == 0, sc.TraceID[(j-3)/2] / 16, sc.TraceID[(j-3)/2] % 16))) && forall j int { tp[j] } :: 36 <= j < 52 ==> tp[j] == hexdig(ite((j-36) % 2 == 0, sc.SpanID[(j-36)/2] / 16, sc.SpanID[(j-36)/2] % 16))
  modifies mapof(req.Header)
func plugin/ochttp/propagation/tracecontext.govcRoundTrip(f, sc, req) (r, ok)
  props C06
  requires [req] req != nil && req.Header != nil
  // every byte is between 0 and 255 (stated because the verifier knows it only for elements it has named)
  requires [bytes] (forall i int { sc.TraceID[i] } :: 0 <= sc.TraceID[i] <= 255) && forall i int { sc.SpanID[i] } :: 0 <= sc.SpanID[i] <= 255
  requires [valid] (exists i int :: 0 <= i < 16 && sc.TraceID[i] != 0) && exists i int :: 0 <= i < 8 && sc.SpanID[i] != 0
  ensures [ok] ok
  ensures [trace] forall i int { r.TraceID[i] } :: 0 <= i < 16 ==> r.TraceID[i] == sc.TraceID[i]
  ensures [span] forall i int { r.SpanID[i] } :: 0 <= i < 8 ==> r.SpanID[i] == sc.SpanID[i]
  ensures [options] r.TraceOptions == sc.TraceOptions % 256
  modifies mapof(req.Header)
