TECH, NOTE = {}, {}
def n(i, tech, note):
    TECH[i], NOTE[i] = tech, note
BAND = " Trusts the harness's own f64 geometry and gives no verdict inside a narrow floating point contact band."
n("C01", "runtime monitor: every collision verdict compared online with an independent exact-geometry oracle",
  "Exploration: real engine under generated hostile scenes in single and double precision with debug assertions on." + BAND)
n("C02", "runtime monitor: every collected collision set compared online with an independent exact-geometry oracle",
  "Exploration of collecting queries with prior buffer contents and ignored sets." + BAND)
n("C03", "runtime monitor: surrogate elements checked for containment in the shape and for verdict agreement with the plain polygon query",
  "Exploration over generated polygons and surrogate configurations." + BAND)
n("C04", "runtime monitor: definite three-valued answers compared online with exact distances and intersections",
  "Exploration over generated scenes and probes." + BAND)
n("C06", "runtime monitor: grid state recomputed from the hazards after every operation; refusals attacked with feasible placements",
  "Exploration of operation histories; refusals are probed with sampled placements, not enumerated." + BAND)
n("C16", "runtime monitor: polygon measures compared with f64 recomputations", "Exploration over generated polygons." + BAND)
n("C17", "runtime monitor: transformation chains mirrored by an f64 model", "Exploration over generated chains; tolerance relative to coordinate magnitude.")
n("C20", "runtime monitor: primitive predicates and measures compared with f64 recomputations", "Exploration over generated pairs." + BAND)
n("C05", "runtime monitor: differential check of the engine after every operation against a freshly built one",
  "Exploration of operation histories." + BAND)
n("C07", "runtime monitor: problem state after every restore compared with a model of the recorded state",
  "Exploration of histories over several problems of one instance; engine answers sampled.")
n("C08", "runtime monitor: conservation of quantities checked after every operation against an independent count",
  "Exploration of histories including over-placement and exhausted stock.")
n("C09", "runtime monitor: strip, kept and dropped items compared with a model after every resize or fit",
  "Exploration of histories; no verdict for items within a floating point band of the new border.")
n("C10", "runtime monitor: parsed instance compared field by field with the generated input",
  "Exploration over generated valid instance files.")
n("C11", "runtime monitor: simplified polygons compared with the originals in f64",
  "Exploration over generated polygons and tolerances up to 0.3." + BAND)
n("C12", "runtime monitor: exported placements applied to the input file's shapes in f64 and compared; export, import, export compared",
  "Exploration over generated instances, histories and strips; tolerance relative to coordinate magnitude.")
n("C13", "runtime monitor: every layout of the real solver checked against the input polygons by an independent f64 geometry oracle",
  "Exploration over bundled and generated instances, seeds and configurations." + BAND)
n("C14", "runtime monitor: digests of repeated, concurrent, differently pooled and separate-process runs compared bit for bit",
  "Exploration of schedules by stress (pool sizes, concurrent runs, processes); no schedule enumeration.")
n("C15", "runtime monitor: filters and admissions compared online with a direct reading of hazards and f64 overlap",
  "Exploration over generated containers with zones." + BAND)
n("C18", "runtime monitor: files written by the real command line tool parsed and compared with the input, with the same computation in process and with the f64 geometry oracle; faults injected in input and output",
  "Exploration over bundled and generated instances, options and faults." + BAND)
n("C19", "runtime monitor: differential comparison of clones and snapshots before and after operations on others; multi-threaded stress with injected delays compared with sequential runs, repeated under ThreadSanitizer",
  "Exploration over sampled histories and schedules.")
n("C21", "runtime monitor: draws, discards and results of the placement search compared with exact costs and geometry, with independently drawn placements and with runs on the same random numbers",
  "Exploration over partial layouts, items and budgets; what is drawn is judged statistically." + BAND)
