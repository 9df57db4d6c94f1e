package trace
published config by configWriteMu inv typeis(avalue(config), *Config) && as(avalue(config), *Config) != nil
func trace.ApplyConfig(cfg) ()
  props C14
  requires [set] typeis(avalue(config), *Config) && as(avalue(config), *Config) != nil
  ensures [new] typeis(avalue(config), *Config) && fresh(as(avalue(config), *Config))
  ensures [sampler] as(avalue(config), *Config).DefaultSampler == ite(cfg.DefaultSampler == nil, as(lockavalue(config), *Config).DefaultSampler, cfg.DefaultSampler)
  ensures [ids] same(as(avalue(config), *Config).IDGenerator, ite(cfg.IDGenerator == nil, as(lockavalue(config), *Config).IDGenerator, cfg.IDGenerator))
  ensures [annotations] as(avalue(config), *Config).MaxAnnotationEventsPerSpan == ite(cfg.MaxAnnotationEventsPerSpan <= 0, as(lockavalue(config), *Config).MaxAnnotationEventsPerSpan, cfg.MaxAnnotationEventsPerSpan)
  ensures [messages] as(avalue(config), *Config).MaxMessageEventsPerSpan == ite(cfg.MaxMessageEventsPerSpan <= 0, as(lockavalue(config), *Config).MaxMessageEventsPerSpan, cfg.MaxMessageEventsPerSpan)
  ensures [attributes] as(avalue(config), *Config).MaxAttributesPerSpan == ite(cfg.MaxAttributesPerSpan <= 0, as(lockavalue(config), *Config).MaxAttributesPerSpan, cfg.MaxAttributesPerSpan)
  ensures [links] as(avalue(config), *Config).MaxLinksPerSpan == ite(cfg.MaxLinksPerSpan <= 0, as(lockavalue(config), *Config).MaxLinksPerSpan, cfg.MaxLinksPerSpan)
  modifies avalue(config)

// C16: the registered exporters
def expSet(v any) = v == nil || typeis(v, exportersMap)
published exporters by exporterMu inv avalue(exporters) == nil || typeis(avalue(exporters), exportersMap)
def expIn(v any, e Exporter) = typeis(v, exportersMap) && has(as(v, exportersMap), e)
func trace.RegisterExporter(e) ()
  props C16
  requires [set] expSet(avalue(exporters))
  ensures [published] typeis(avalue(exporters), exportersMap) && fresh(as(avalue(exporters), exportersMap))
  ensures [in] expIn(avalue(exporters), e)
  ensures [others] forall x Exporter { has(as(avalue(exporters), exportersMap), x) } { has(as(lockavalue(exporters), exportersMap), x) } :: x != e ==> expIn(avalue(exporters), x) == expIn(lockavalue(exporters), x)
  loop [m exportersMap] forall x Exporter { visited(x) } { has(m, x) } :: has(m, x) == visited(x)
  loop [m exportersMap] forall x Exporter { visited(x) } { has(m, x) } :: x != e ==> has(m, x) == visited(x)
  modifies avalue(exporters)
func trace.UnregisterExporter(e) ()
  props C16
  requires [set] expSet(avalue(exporters))
  ensures [published] typeis(avalue(exporters), exportersMap) && fresh(as(avalue(exporters), exportersMap))
  ensures [out] !expIn(avalue(exporters), e)
  ensures [others] forall x Exporter { has(as(avalue(exporters), exportersMap), x) } { has(as(lockavalue(exporters), exportersMap), x) } :: x != e ==> expIn(avalue(exporters), x) == expIn(lockavalue(exporters), x)
  loop [m exportersMap] forall x Exporter { visited(x) } { has(m, x) } :: has(m, x) == visited(x)
  loop [m exportersMap] forall x Exporter { visited(x) } { has(m, x) } :: x != e ==> has(m, x) == visited(x)
  modifies avalue(exporters)
