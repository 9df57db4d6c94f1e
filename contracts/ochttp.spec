package plugin/ochttp
import go.opencensus.io/trace

// canonical trace code of an HTTP status
def httpCode(s int) = ite(s == 499, 1, ite(s == 400 || s == 422, 3, ite(s == 504, 4, ite(s == 404, 5, ite(s == 403, 7, ite(s == 401, 16,
   ite(s == 429, 8, ite(s == 501, 12, ite(s == 503, 14, ite(s == 409, 6, ite(200 <= s && s < 400, 0, 2)))))))))))
def codeName(c int) = ite(c == 0, "OK", ite(c == 1, "CANCELLED", ite(c == 2, "UNKNOWN", ite(c == 3, "INVALID_ARGUMENT", ite(c == 4, "DEADLINE_EXCEEDED", ite(c == 5, "NOT_FOUND",
  ite(c == 6, "ALREADY_EXISTS", ite(c == 7, "PERMISSION_DENIED", ite(c == 8, "RESOURCE_EXHAUSTED", ite(c == 12, "UNIMPLEMENTED", ite(c == 14, "UNAVAILABLE", ite(c == 16, "UNAUTHENTICATED", ""))))))))))))

func plugin/ochttp.TraceStatus(httpStatusCode, statusLine) (st)
  props C30
  ensures [code] st.Code == httpCode(httpStatusCode)
  ensures [message] st.Message == codeName(httpCode(httpStatusCode))
