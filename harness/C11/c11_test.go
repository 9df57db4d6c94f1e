package trace

import (
	"context"
	"fmt"
	"reflect"
	"testing"

	"go.opencensus.io/internal"
)

type c11exp struct{ last *SpanData }

func (e *c11exp) ExportSpan(sd *SpanData) { e.last = sd }

type c11model struct {
	ann  []Annotation
	msg  []MessageEvent
	link []Link
	keys []string
	vals map[string]interface{}
	nAnn, nMsg, nLink,
	dropAttr int
}

func (m *c11model) set(k string, v interface{}, max int) {
	for i, x := range m.keys {
		if x == k {
			m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
			break
		}
	}
	m.keys = append(m.keys, k)
	m.vals[k] = v
	if len(m.keys) > max {
		delete(m.vals, m.keys[0])
		m.keys = m.keys[1:]
		m.dropAttr++
	}
}

func c11cp(sd *SpanData) SpanData {
	c := *sd
	c.Attributes = map[string]interface{}{}
	for k, v := range sd.Attributes {
		c.Attributes[k] = v
	}
	c.Annotations = append([]Annotation(nil), sd.Annotations...)
	for i := range c.Annotations {
		m := map[string]interface{}{}
		for k, v := range c.Annotations[i].Attributes {
			m[k] = v
		}
		c.Annotations[i].Attributes = m
	}
	c.MessageEvents = append([]MessageEvent(nil), sd.MessageEvents...)
	c.Links = append([]Link(nil), sd.Links...)
	return c
}

func TestVerifC11(t *testing.T) {
	h := newVH(t, "C11")
	defer h.done()
	exp := &c11exp{}
	RegisterExporter(exp)
	defer UnregisterExporter(exp)
	defer func(b bool) { internal.LocalSpanStoreEnabled = b }(internal.LocalSpanStoreEnabled)
	for h.more() {
		h.guard("span operations", func() {
			internal.LocalSpanStoreEnabled = true
			ma, mm, ml, mt := 1+h.Intn(5), 1+h.Intn(5), 1+h.Intn(5), 1+h.Intn(5)
			ApplyConfig(Config{MaxAnnotationEventsPerSpan: ma, MaxMessageEventsPerSpan: mm, MaxLinksPerSpan: ml, MaxAttributesPerSpan: mt})
			name := fmt.Sprint("c11-", h.Intn(3))
			_, s := StartSpan(context.Background(), name, WithSampler(AlwaysSample()))
			m := &c11model{vals: map[string]interface{}{}}
			log := fmt.Sprintf("limits %d %d %d %d:", ma, mm, ml, mt)
			var snaps []*SpanData
			var was []SpanData
			attrs := func() ([]Attribute, map[string]interface{}) {
				var a []Attribute
				am := map[string]interface{}{}
				for i := h.Intn(4); i > 0; i-- {
					k := fmt.Sprint("k", h.Intn(mt+3))
					switch h.Intn(4) {
					case 0:
						v := h.int64v()
						a, am[k] = append(a, Int64Attribute(k, v)), v
					case 1:
						v := fmt.Sprint(h.Intn(100))
						a, am[k] = append(a, StringAttribute(k, v)), v
					case 2:
						a, am[k] = append(a, BoolAttribute(k, true)), true
					default:
						a, am[k] = append(a, Float64Attribute(k, 1.5)), 1.5
					}
				}
				return a, am
			}
			verify := func(sd *SpanData, what string) bool {
				if len(sd.Annotations) != len(m.ann) || sd.DroppedAnnotationCount != m.nAnn-len(m.ann) {
					h.cex("%s: %s has %d annotations and %d dropped, want %d and %d", log, what, len(sd.Annotations), sd.DroppedAnnotationCount, len(m.ann), m.nAnn-len(m.ann))
					return false
				}
				for i, a := range sd.Annotations {
					w := m.ann[i]
					if a.Message != w.Message || len(a.Attributes) != len(w.Attributes) || len(w.Attributes) > 0 && !reflect.DeepEqual(a.Attributes, w.Attributes) {
						h.cex("%s: %s annotation %d is %q %v, want %q %v", log, what, i, a.Message, a.Attributes, w.Message, w.Attributes)
						return false
					}
				}
				if len(sd.MessageEvents) != len(m.msg) || sd.DroppedMessageEventCount != m.nMsg-len(m.msg) {
					h.cex("%s: %s has %d message events and %d dropped, want %d and %d", log, what, len(sd.MessageEvents), sd.DroppedMessageEventCount, len(m.msg), m.nMsg-len(m.msg))
					return false
				}
				for i, a := range sd.MessageEvents {
					w := m.msg[i]
					a.Time = w.Time
					if a != w {
						h.cex("%s: %s message event %d is %+v, want %+v", log, what, i, a, w)
						return false
					}
				}
				if len(sd.Links) != len(m.link) || sd.DroppedLinkCount != m.nLink-len(m.link) || len(m.link) > 0 && !reflect.DeepEqual(sd.Links, m.link) {
					h.cex("%s: %s has links %v and %d dropped, want %v and %d", log, what, sd.Links, sd.DroppedLinkCount, m.link, m.nLink-len(m.link))
					return false
				}
				if len(sd.Attributes) != len(m.vals) || len(m.vals) > 0 && !reflect.DeepEqual(sd.Attributes, m.vals) || sd.DroppedAttributeCount != m.dropAttr {
					h.cex("%s: %s has attributes %v and %d dropped, want %v and %d", log, what, sd.Attributes, sd.DroppedAttributeCount, m.vals, m.dropAttr)
					return false
				}
				return true
			}
			n, only := h.Intn(25), -1
			if h.Intn(15) == 0 {
				n, only = 60+h.Intn(300), h.Intn(7)
			}
			for i := 0; i < n; i++ {
				op := h.Intn(7)
				if only >= 0 && h.Intn(10) > 0 {
					op = only
				}
				switch op {
				case 0:
					a, _ := attrs()
					log += fmt.Sprint(" attrs", a)
					s.AddAttributes(a...)
					for _, x := range a {
						m.set(x.Key(), x.Value(), mt)
					}
					for i := range a {
						a[i] = StringAttribute("overwritten", "later")
					}
				case 1:
					a, am := attrs()
					msg := fmt.Sprint("m", i)
					log += " annotate " + msg
					if h.Intn(2) == 0 {
						s.Annotate(a, msg)
					} else {
						s.Annotatef(a, "m%d", i)
					}
					for i := range a {
						a[i] = StringAttribute("overwritten", "later")
					}
					m.ann, m.nAnn = append(m.ann, Annotation{Message: msg, Attributes: am}), m.nAnn+1
					if len(m.ann) > ma {
						m.ann = m.ann[1:]
					}
				case 2, 3:
					e := MessageEvent{EventType: MessageEventTypeSent, MessageID: h.int64v(), UncompressedByteSize: h.int64v(), CompressedByteSize: h.int64v()}
					if h.Intn(2) == 0 {
						s.AddMessageSendEvent(e.MessageID, e.UncompressedByteSize, e.CompressedByteSize)
					} else {
						e.EventType = MessageEventTypeRecv
						s.AddMessageReceiveEvent(e.MessageID, e.UncompressedByteSize, e.CompressedByteSize)
					}
					log += " message"
					m.msg, m.nMsg = append(m.msg, e), m.nMsg+1
					if len(m.msg) > mm {
						m.msg = m.msg[1:]
					}
				case 4:
					l := Link{Type: LinkType(h.Intn(3)), SpanID: SpanID{byte(i)}}
					s.AddLink(l)
					log += " link"
					m.link, m.nLink = append(m.link, l), m.nLink+1
					if len(m.link) > ml {
						m.link = m.link[1:]
					}
				default:
					log += " report"
					for _, sd := range (internalOnly{}).ReportActiveSpans(name) {
						if sd.SpanContext.SpanID == s.SpanContext().SpanID {
							if !verify(sd, "an active-span report") {
								return
							}
							snaps, was = append(snaps, sd), append(was, c11cp(sd))
						}
					}
				}
			}
			h.count(log)
			s.End()
			if exp.last == nil || exp.last.SpanContext != s.SpanContext() {
				return // C12
			}
			if !verify(exp.last, "the export") {
				return
			}
			snaps, was = append(snaps, exp.last), append(was, c11cp(exp.last))
			for i := 0; i < 6; i++ {
				s.AddAttributes(Int64Attribute(fmt.Sprint("k", i), 99))
				s.Annotate([]Attribute{BoolAttribute("z", false)}, "late")
				s.AddMessageSendEvent(9, 9, 9)
				s.AddLink(Link{Type: 1})
			}
			for i, sd := range snaps {
				if now := c11cp(sd); !reflect.DeepEqual(now, was[i]) {
					h.cex("%s: snapshot %d changed after it was taken: %+v, was %+v", log, i, now, was[i])
					return
				}
			}
		})
	}
}
