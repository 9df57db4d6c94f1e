package tracecontext

import (
	"net/http"

	"go.opencensus.io/trace"
)

// Lemma function: what is injected is extracted again (contract in contracts/tracecontext.spec).
func govcRoundTrip(f *HTTPFormat, sc trace.SpanContext, req *http.Request) (trace.SpanContext, bool) {
	f.SpanContextToRequest(sc, req)
	return f.SpanContextFromRequest(req)
}
