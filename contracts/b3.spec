package plugin/ochttp/propagation/b3
import trace go.opencensus.io/trace
import http net/http
axiom canonB3 : canon("X-B3-TraceId") == "X-B3-Traceid" && canon("X-B3-SpanId") == "X-B3-Spanid" && canon("X-B3-Sampled") == "X-B3-Sampled"

// C05
func plugin/ochttp/propagation/b3.ParseTraceID(tid) (r, ok)
  props C05
  ensures [accepts] ok ==> tid != "" && hexOK(tid) && len(tid) <= 32
  ensures [rejects] !ok ==> tid == "" || !hexOK(tid) || len(tid) > 32
  ensures [id] ok ==> forall i int { r[i] } :: 0 <= i < 16 ==> r[i] == ite(i < 16 - len(tid)/2, 0, hexb(tid, i - (16 - len(tid)/2)))
func plugin/ochttp/propagation/b3.ParseSpanID(sid) (r, ok)
  props C05
  ensures [accepts] ok ==> sid != "" && hexOK(sid) && len(sid) <= 16
  ensures [rejects] !ok ==> sid == "" || !hexOK(sid) || len(sid) > 16
  ensures [id] ok ==> forall i int { r[i] } :: 0 <= i < 8 ==> r[i] == ite(i < 8 - len(sid)/2, 0, hexb(sid, i - (8 - len(sid)/2)))
func plugin/ochttp/propagation/b3.ParseSampled(s) (o, ok)
  props C05
  ensures [iff] ok == (s == "true" || s == "1")
  ensures [bit] o == ite(ok, 1, 0)
func (*plugin/ochttp/propagation/b3.HTTPFormat).SpanContextFromRequest(f, req) (sc, ok)
  props C05
  requires [req] req != nil
  let t = hget(req.Header, "X-B3-TraceId")
  let s = hget(req.Header, "X-B3-SpanId")
  let d = hget(req.Header, "X-B3-Sampled")
  ensures [accepts] ok ==> t != "" && hexOK(t) && len(t) <= 32 && s != "" && hexOK(s) && len(s) <= 16
  ensures [rejects] !ok ==> t == "" || !hexOK(t) || len(t) > 32 || s == "" || !hexOK(s) || len(s) > 16
  ensures [trace] ok ==> forall i int { sc.TraceID[i] } :: 0 <= i < 16 ==> sc.TraceID[i] == ite(i < 16 - len(t)/2, 0, hexb(t, i - (16 - len(t)/2)))
  ensures [span] ok ==> forall i int { sc.SpanID[i] } :: 0 <= i < 8 ==> sc.SpanID[i] == ite(i < 8 - len(s)/2, 0, hexb(s, i - (8 - len(s)/2)))
  ensures [sampled] ok ==> sc.TraceOptions == ite(d == "true" || d == "1", 1, 0) && sc.Tracestate == nil
func (*plugin/ochttp/propagation/b3.HTTPFormat).SpanContextToRequest(f, sc, req) ()
  props C05
  requires [req] req != nil && req.Header != nil
  ensures [trace] has(req.Header, "X-B3-Traceid") && len(req.Header["X-B3-Traceid"]) > 0 && let v = req.Header["X-B3-Traceid"][0] in len(v) == 32 && forall j int { v[j] } :: 0 <= j < 32 ==> v[j] == hexdig(ite(j % 2 == 0, sc.TraceID[j/2] / 16, sc.TraceID[j/2] % 16))
  ensures [span] has(req.Header, "X-B3-Spanid") && len(req.Header["X-B3-Spanid"]) > 0 && let v = req.Header["X-B3-Spanid"][0] in len(v) == 16 && forall j int { v[j] } :: 0 <= j < 16 ==> v[j] == hexdig(ite(j % 2 == 0, sc.SpanID[j/2] / 16, sc.SpanID[j/2] % 16))
  ensures [sampled] hget(req.Header, "X-B3-Sampled") == ite(sc.TraceOptions % 2 == 1, "1", "0")
  ensures [others] forall x string { has(req.Header, x) } :: x != "X-B3-Traceid" && x != "X-B3-Spanid" && x != "X-B3-Sampled" ==> has(req.Header, x) == old(has(req.Header, x)) && (has(req.Header, x) ==> same(req.Header[x], old(req.Header[x])))
  modifies mapof(req.Header)
func plugin/ochttp/propagation/b3.govcRoundTrip(f, sc, req) (r, ok)
  props C05
  requires [req] req != nil && req.Header != nil
  // every byte is between 0 and 255 (stated because the verifier knows it only for elements it has named)
  requires [bytes] (forall i int { sc.TraceID[i] } :: 0 <= sc.TraceID[i] <= 255) && forall i int { sc.SpanID[i] } :: 0 <= sc.SpanID[i] <= 255
  ensures [ok] ok
  ensures [trace] forall i int { r.TraceID[i] } :: 0 <= i < 16 ==> r.TraceID[i] == sc.TraceID[i]
  ensures [span] forall i int { r.SpanID[i] } :: 0 <= i < 8 ==> r.SpanID[i] == sc.SpanID[i]
  ensures [bit] r.TraceOptions == sc.TraceOptions % 2
  modifies mapof(req.Header)
