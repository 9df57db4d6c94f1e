package exporter/stackdriver/propagation
import trace go.opencensus.io/trace
import http net/http
axiom canonCT : canon("X-Cloud-Trace-Context") == "X-Cloud-Trace-Context"
def be64(a trace.SpanID) = ((((((a[0]*256 + a[1])*256 + a[2])*256 + a[3])*256 + a[4])*256 + a[5])*256 + a[6])*256 + a[7]
// the parts of a header: before the first slash, between it and the first semicolon (or the end), after the semicolon
def ctID(h string) = h[0:stridx(h, "/")]
def ctRest(h string) = h[stridx(h, "/")+1:len(h)]
def ctSpan(h string) = let r = ctRest(h) in ite(stridx(r, ";") < 0, r, r[0:stridx(r, ";")])
def ctTail(h string) = let r = ctRest(h) in ite(stridx(r, ";") < 0, r, r[stridx(r, ";")+1:len(r)])
def num64(s string) = decOK(s) && decv(s) < 18446744073709551616
def ctOK(h string) = h != "" && len(h) <= 200 && stridx(h, "/") >= 0 && hexOK(ctID(h)) && num64(ctSpan(h))
def ctOpt(h string) = len(ctTail(h)) >= 2 && ctTail(h)[0] == 111 && ctTail(h)[1] == 61
def bebytes(a trace.SpanID, v int) = a[0] == v / 72057594037927936 && a[1] == v / 281474976710656 % 256 && a[2] == v / 1099511627776 % 256 && a[3] == v / 4294967296 % 256 && a[4] == v / 16777216 % 256 && a[5] == v / 65536 % 256 && a[6] == v / 256 % 256 && a[7] == v % 256
func (*exporter/stackdriver/propagation.HTTPFormat).SpanContextFromRequest(f, req) (sc, ok)
  props C08
  requires [req] req != nil
  let h = hget(req.Header, "X-Cloud-Trace-Context")
  ensures [accepts] ok ==> ctOK(h)
  ensures [options] ok && ctOpt(h) ==> num64(ctTail(h)[2:len(ctTail(h))]) && sc.TraceOptions == decv(ctTail(h)[2:len(ctTail(h))]) % 4294967296
  ensures [nooptions] ok && !ctOpt(h) ==> sc.TraceOptions == 0
  ensures [rejects] !ok ==> !ctOK(h) || (ctOpt(h) && !num64(ctTail(h)[2:len(ctTail(h))]))
  ensures [trace] ok ==> forall i int { sc.TraceID[i] } :: 0 <= i < 16 ==> sc.TraceID[i] == ite(2*i+1 < len(ctID(h)), hexb(ctID(h), i), 0)
  ensures [span] ok ==> bebytes(sc.SpanID, decv(ctSpan(h)))
  ensures [state] ok ==> sc.Tracestate == nil
func (*exporter/stackdriver/propagation.HTTPFormat).SpanContextToRequest(f, sc, req) ()
  props C08
  requires [req] req != nil && req.Header != nil
  ensures [set] has(req.Header, "X-Cloud-Trace-Context") && len(req.Header["X-Cloud-Trace-Context"]) > 0
  ensures [id] let v = req.Header["X-Cloud-Trace-Context"][0] in len(v) >= 32 && forall j int { v[j] } :: 0 <= j < 32 ==> v[j] == hexdig(ite(j % 2 == 0, sc.TraceID[j/2] / 16, sc.TraceID[j/2] % 16))
  ensures [text] let v = req.Header["X-Cloud-Trace-Context"][0] in v == v[0:32] + "/" + itoa(be64(sc.SpanID)) + ";o=" + itoa(sc.TraceOptions)
  ensures [others] forall x string { has(req.Header, x) } :: x != "X-Cloud-Trace-Context" ==> has(req.Header, x) == old(has(req.Header, x)) && (has(req.Header, x) ==> same(req.Header[x], old(req.Header[x])))
  modifies mapof(req.Header)
