"""Which steps decide which property, per tier."""
import json, os
from core import *
from steps import Gen, Trace, Findings, Builds, Everywhere, Alike
import gen_strict as gs
import gen_query as gq
import gen_xml as gx
import gen_html as gh
import gen_total as gt
import gen_features as gf

STRICT_INV = ["Inv", "ErrAbsorbing", "Emit"]


def strict(family, n, facet):
    return Gen("GenStrict", f"GenStrict-{family}", {"Family": family, "MaxLen": n}, STRICT_INV, facet)


def render(family, n, facet, depth=3):
    return Gen("GenRender", f"GenRender-{family}", {"Family": family, "MaxSteps": n, "MaxDepth": depth},
               ["ReadBack", "Rejects", "Emit"], facet)


def tstrict(profile, n, facet, damaged=0.0, **k):
    return Trace("TraceStrict", f"TraceStrict-{profile}", gs.docs(profile, n, damaged, **k), {"Facet": facet})


def corruptions(n, facet, size=8, maxlen=160, inserts=("<", ">", "/", "=", "'", "\"", "!", "-", " ", "a", "&")):
    def setup(ctx, step):
        path = os.path.join(ctx.work, "bases.ndjson")
        with open(path, "w") as f:
            for s in gs.bases(ctx.rng_for("bases"), n, size, maxlen=maxlen):
                f.write(json.dumps(gs.rec(s)) + "\n")
        return {"BaseFile": path}
    return Gen("GenCorrupt", "GenCorrupt", {"Inserts": set(inserts)}, ["Inv", "BaseOK", "PrefixOK", "Emit"], facet, setup=setup)


def sweep(family, facet, lo=0, hi=0, stride=1):
    return Gen("GenSweep", f"GenSweep-{family}", {"Family": family, "From": lo, "To": hi, "Stride": stride},
               ["Emit", "DecodeAgrees"], facet, workers=1 if family == "points" else 8)


def points(facet, quick, of=sweep):
    """Every code point as itself: the first planes closely, the rest by samples (all of them in thorough)."""
    per = 128 if of is sweep else 64
    return [of("points", facet, 0, 0x3400 // per - 1), of("points", facet, 0x3400 // per, 0x110000 // per - 1, (61 if of is sweep else 211) if quick else 1),
            of("points", facet, 0xF800 // per, 0x10400 // per)]


PLANS = {}


def prop(pid, assumptions=(), level="model_checking"):
    def deco(f):
        PLANS[pid] = (f, level, list(assumptions))
        return f
    return deco


BASE = ["Behaviour outside the enumerated bounds is covered only by the seeded recorded traces."]


EDGES = {1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 20, 31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025}


def scale(family, quick, facet="full", module="GenScale", damage=False, top=65537):
    sizes = EDGES | ({4096, 4097} if quick else {2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 32768, 65535, 65536, 65537})
    if damage:
        return Gen(module, f"{module}-{family}-damage", {"Family": family, "Sizes": {1, 2, 9, 64, 257, 1025} if quick else {n for n in sizes if n < 9000}}, ["DamageConfirmed", "EmitDamage"], facet, workers=1)
    return Gen(module, f"{module}-{family}", {"Family": family, "Sizes": {n for n in sizes if n <= top}}, ["Confirmed", "Emit"], facet, workers=1)


def giant(fmt, quick):
    """Beside the small sizes the machines confirm, sizes around the powers of two up to millions."""
    sizes = {1, 2, 3, 7, 9, 65537, 262145, 1048577} if quick else {1, 2, 3, 5, 7, 9, 65535, 65536, 65537, 131073, 262145, 524289, 1048575, 1048576, 1048577, 2097153}
    return Gen("GenGiant", f"GenGiant-{fmt}", {"Format": fmt, "Sizes": sizes}, ["Confirmed", "Emit"], limit=240)


@prop("H01", BASE)
def h01(quick):
    return [render("shape", 5 if quick else 6, "okfull"), render("page", 5 if quick else 6, "okfull"),
            strict("tags", 5 if quick else 6, "okfull"), sweep("closers", "okfull"),
            scale("structure", quick, "okfull"), giant("strict", quick),
            Trace("TraceStrict", "TraceStrict-vocabulary", gh.strict_vocabulary(gs.rec, False), {"Facet": "okfull"}),
            tstrict("structure", 1500 if quick else 20000, "okfull", big=4, deep=2)]


@prop("H02", BASE)
def h02(quick):
    fams = {"tags": 5, "chars": 6, "tokens": 4, "attrs": 4, "attrlist": 2, "raw": 3, "comment": 4, "doctype": 3, "text": 3} if quick else \
        {"tags": 7, "chars": 7, "tokens": 5, "attrs": 6, "attrs2": 4, "attrlist": 3, "raw": 4, "comment": 6, "doctype": 4, "text": 5}
    return [strict(f, n, "status") for f, n in fams.items()] + [
        sweep("chars", "status"), sweep("closers", "status")] + [scale(f, quick, "status", damage=True) for f in ("structure", "attrs", "raw", "content")] + [
        corruptions(8 if quick else 60, "status", size=8 if quick else 12, maxlen=120 if quick else 200),
        tstrict("mixed", 3000 if quick else 30000, "status", damaged=.8)]


@prop("H03", BASE)
def h03(quick):
    return [strict("attrs", 5 if quick else 6, "attrs"), strict("attrs2", 4 if quick else 5, "attrs"),
            strict("attrlist", 3 if quick else 4, "attrs"),
            render("attrs", 2, "attrs"), sweep("chars", "attrs"), *points("attrs", quick), scale("attrs", quick, "attrs"),
            Trace("TraceStrict", "TraceStrict-vocabulary", gh.strict_vocabulary(gs.rec, True), {"Facet": "attrs"}),
            tstrict("attrs", 2000 if quick else 25000, "attrs")]


@prop("H04", BASE)
def h04(quick):
    return [strict("refs", 4 if quick else 5, "full"), strict("refs2", 4 if quick else 5, "full"), sweep("entities", "full"), sweep("codes", "full", 0, 8703), sweep("refchars", "full"),
            scale("refs", quick),
            tstrict("refs", 2500 if quick else 25000, "okfull")]


@prop("H05", BASE)
def h05(quick):
    return [strict("raw", 4 if quick else 5, "full"), render("raw", 2 if quick else 3, "okfull"), sweep("rawchars", "full"), scale("raw", quick),
            tstrict("raw", 2000 if quick else 25000, "full", damaged=.15)]


@prop("H06", BASE)
def h06(quick):
    return [strict("tags", 5 if quick else 6, "names"), sweep("names", "names"), scale("void", quick, "names"),
            Trace("TraceStrict", "TraceStrict-vocabulary", gh.strict_vocabulary(gs.rec, False), {"Facet": "names"}),
            tstrict("names", 2500 if quick else 25000, "names", damaged=.05)]


@prop("H07", BASE)
def h07(quick):
    return [strict("comment", 5 if quick else 6, "okfull"), strict("doctype", 4 if quick else 5, "okfull"),
            strict("text", 4 if quick else 5, "okfull"), render("content", 4, "okfull"), sweep("textchars", "okfull"), *points("okfull", quick), scale("content", quick, "okfull"),
            tstrict("content", 1200 if quick else 15000, "okfull")]


QUERY_INV = ["DocOK", "Exact", "Ordered", "Conj", "Modes", "Emit"]


def queries(family, n):
    return Gen("GenQuery", f"GenQuery-{family}", {"Family": family, "MaxNodes": n}, QUERY_INV, suite=True)


def nodes(family, n):
    inv = ["DocOK", "ExactSubtree", "EveryNodeOnce", "ParentsFirst", "Finished"]
    return Gen("GenNodes", f"GenNodes-{family}", {"Family": family, "MaxNodes": n},
               inv + ["EmitAccess" if family in ("texts", "access") else "EmitTravel"])


def session(family, n):
    return Gen("GenSession", f"GenSession-{family}", {"Family": family, "MaxOps": n}, ["Alone", "Inside", "NoWrites", "Emit"])


def consume(family, n):
    return Gen("GenConsume", f"GenConsume-{family}", {"Family": family, "MaxOps": n}, ["InStep", "Suffix", "Emit"])


def filters(depth):
    return Gen("GenFilter", f"GenFilter-{depth}", {"Depth": depth}, ["Logic", "BareNodes", "Pairing", "Emit"], suite=True,
               workers=8 if depth == 1 else 1)


def tsearch(name, inputs):
    return Trace("TraceSearch", "TraceSearch-" + name, inputs)


def vast(family, quick):
    """Documents of up to a million nodes in run-length form."""
    sizes = {1, 2, 3, 9, 40, 65537, 262145} if quick else {1, 2, 3, 5, 9, 40, 1025, 65535, 65536, 65537, 131073, 262145, 1048577}
    if quick and family == "search":
        sizes -= {262145}
    return Gen("GenVast", f"GenVast-{family}", {"Family": family, "Sizes": sizes}, ["Confirmed", "Emit"], limit=240, workers=1)


@prop("Q01", BASE)
def q01(quick):
    return [queries("shape", 4 if quick else 6), queries("conj", 3 if quick else 4),
            consume("document", 3), vast("search", quick),
            tsearch("programs", gq.programs(250 if quick else 4000, [300, 1500] if quick else [300, 1500, 5000], [150, 700] if quick else [150, 700, 1500])),
            tsearch("queries", gq.queries(600 if quick else 8000)),
            tsearch("large", gq.queries(60 if quick else 600, size=600, per=6)),
            tsearch("vast", gq.large_queries([300, 1100, 2100, 4200] if quick else [300, 1100, 2500, 5000, 8300], [150, 300, 700, 1100] if quick else [150, 300, 700, 1100, 2100]))]


@prop("Q02", BASE)
def q02(quick):
    return [queries("mode", 3 if quick else 5), queries("many", 2 if quick else 4), vast("modes", quick), queries("shape", 4 if quick else 5),
            tsearch("modes", gq.queries(600 if quick else 8000, size=60, per=20, modes=.6))]


@prop("Q03", BASE)
def q03(quick):
    return [queries("conj", 3), queries("many", 2 if quick else 4), queries("kinds", 2 if quick else 3), queries("attrs", 2), filters(1 if quick else 2),
            tsearch("bulk", gq.bulk_queries(60 if quick else 900)),
            tsearch("filters", gq.filters(400 if quick else 6000)),
            tsearch("queries", gq.queries(300 if quick else 4000, size=50, modes=.1))]


@prop("Q04", BASE)
def q04(quick):
    return [queries("types", 1 if quick else 2), queries("attrs", 2),
            tsearch("bulk", gq.bulk_queries(60 if quick else 900)),
            tsearch("patterns", gq.pattern_queries(400 if quick else 6000))]


@prop("Q05", BASE)
def q05(quick):
    return [session("interleave", 6 if quick else 7), session("life", 5 if quick else 6), session("hops", 6 if quick else 7), session("copies", 7 if quick else 8),
            tsearch("stirred", gq.sessions(40 if quick else 400, stirs=True)),
            tsearch("sessions", gq.sessions(400 if quick else 6000)),
            tsearch("threads", gq.threads(300 if quick else 4000))]


@prop("Q06", BASE)
def q06(quick):
    return [session("sub", 7 if quick else 8), session("nest", 8 if quick else 9), session("copies", 7 if quick else 8),
            vast("inside", quick),
            tsearch("sessions", gq.sessions(400 if quick else 6000, size=40, deep=14 if quick else 60))]


@prop("Q07", BASE)
def q07(quick):
    return [nodes("trees", 6 if quick else 7), nodes("shapes", 8 if quick else 10), nodes("customs", 3 if quick else 4), nodes("chains", 5 if quick else 7),
            consume("node", 3), vast("travel", quick),
            tsearch("programs", gq.programs(250 if quick else 4000, [300, 1500] if quick else [300, 1500, 5000], [150, 700] if quick else [150, 700, 1500])),
            tsearch("travels", gq.travels(300 if quick else 4000)),
            tsearch("roams", gq.roams([300, 1100, 4200] if quick else [300, 1100, 2500, 5000, 8300], [150, 300, 1100] if quick else [150, 300, 700, 1100, 2100]))]


@prop("Q08", BASE)
def q08(quick):
    return [nodes("texts", 4 if quick else 5), nodes("access", 2), vast("text", quick),
            tsearch("accesses", gq.accesses(400 if quick else 6000)),
            tsearch("large-accesses", gq.large_accesses([40, 130, 300, 1030, 2100] if quick else [40, 130, 300, 1030, 2100, 4100]))]


def builds(family, n, nest):
    return Gen("GenParser", f"GenParser-{family}-{nest}", {"Family": family, "MaxBuilds": n, "MaxNest": nest}, ["OneCallPerBuild", "Verbatim", "EachOnce", "Emit"])


@prop("P01", BASE)
def p01(quick):
    return [builds("results", 2 if quick else 3, 2), builds("results", 3 if quick else 4, 1), builds("nested", 4 if quick else 5, 3), builds("threads", 3 if quick else 4, 3)] + [
            Trace("TraceParser", "TraceParser", gq.constructors(900 if quick else 12000)),
            Trace("TraceParser", "TraceParser-edges", gq.edge_constructors()),
            Trace("TraceParser", "TraceParser-giant", gq.giant_constructors({65537: 7, 1048577: 2} if quick else {65537: 7, 262145: 7, 1048577: 7, 4194305: 7}), limit=240)]


def xml(family, n, facet):
    return Gen("GenXml", f"GenXml-{family}", {"Family": family, "MaxLen": n}, STRICT_INV, facet)


def xmldoc(family, n, facet):
    return Gen("GenXmlDoc", f"GenXmlDoc-{family}", {"Family": family, "MaxSteps": n, "MaxDepth": 3}, ["ReadBack", "Rejects", "Emit"], facet)


def xmlsweep(family, facet, lo=0, hi=0, stride=1):
    return Gen("GenXmlSweep", f"GenXmlSweep-{family}", {"Family": family, "From": lo, "To": hi, "Stride": stride},
               ["Emit"] + (["References"] if family == "codes" else []), facet, workers=1 if family == "points" else 8)


def xmlcorrupt(n, facet, size=6, maxlen=150, inserts=("<", ">", "/", "=", "'", "\"", "!", "-", " ", "a", "&", "?", "]", ";")):
    def setup(ctx, step):
        path = os.path.join(ctx.work, "xbases.ndjson")
        with open(path, "w") as f:
            for s in gx.bases(ctx.rng_for("bases"), n, size, maxlen=maxlen):
                f.write(json.dumps(gx.rec(s)) + "\n")
        return {"BaseFile": path}
    return Gen("GenXmlCorrupt", "GenXmlCorrupt", {"Inserts": set(inserts)}, ["Inv", "BaseOK", "Emit"], facet, setup=setup)


def txml(profile, n, facet, damaged=0.0, **k):
    return Trace("TraceXml", f"TraceXml-{profile}", gx.docs(profile, n, damaged, **k), {"Facet": facet})


@prop("X01", BASE)
def x01(quick):
    fams = {"tags": 4, "content": 4, "attrs": 4, "ns": 3, "refs": 3} if quick else {"tags": 6, "content": 5, "attrs": 5, "ns": 4, "refs": 4, "attrlist": 4}
    return [xmldoc(f, n, "xmlfull") for f, n in ({"shape": 4, "attrs": 2, "ns": 3, "content": 4} if quick else {"shape": 6, "attrs": 3, "ns": 4, "content": 5}).items()] + [
        xml(f, n, "xmlok") for f, n in fams.items()] + [
        xmlsweep("chars", "xmlok"), *points("xmlok", quick, xmlsweep), xmlsweep("codes", "xmlok", 0, 17407, 7 if quick else 1)] + [
        scale(f, quick, "xmlok", "GenScaleXml", top=8193 if f in ("attrs", "ns") else 65537) for f in ("structure", "attrs", "refs", "content", "ns")] + [
        giant("xml", quick),
        Trace("TraceXml", "TraceXml-vocabulary", gh.strict_vocabulary(gx.rec, False, xml=True), {"Facet": "okfull"}),
        Trace("TraceXml", "TraceXml-vocabulary-attrs", gh.strict_vocabulary(gx.rec, True, xml=True), {"Facet": "okfull"})] + [
        txml(p, 700 if quick else 12000, "okfull", big=2, deep=1) for p in gx.PROFILES]


@prop("X02", BASE)
def x02(quick):
    fams = {"tags": 4, "chars": 3, "top": 5, "tokens": 3, "attrs": 4, "attrlist": 3, "content": 4, "refs": 3, "prolog": 4, "decl": 3, "doctype": 3} if quick else \
        {"tags": 6, "chars": 4, "top": 7, "tokens": 4, "attrs": 5, "attrlist": 4, "content": 5, "refs": 4, "prolog": 5, "decl": 4, "doctype": 4, "ns": 4}
    return [xml(f, n, "xmlstatus") for f, n in fams.items()] + [
        xmlsweep("chars", "xmlstatus"), *points("xmlstatus", quick, xmlsweep)] + [scale(f, quick, "xmlstatus", "GenScaleXml", damage=True) for f in ("structure", "attrs", "refs", "content", "ns")] + [
        Gen("GenBytes", "GenBytes", {"MaxLen": 2 if quick else 4}, ["DecodeAgrees", "Emit"], "xmlstatus"),
        xmlcorrupt(8 if quick else 60, "xmlstatus", size=6 if quick else 10),
        Trace("TraceReader", "TraceReader-bytes", gx.bytestrings(800 if quick else 20000), {"Facet": "status"}),
        txml("plain", 1500 if quick else 20000, "status", damaged=.8), txml("refs", 800 if quick else 10000, "status", damaged=.8),
        Findings()]


READER_INV = ["OfBytes", "DecodeAgrees", "NeverPartial", "Emit"]


@prop("X03", BASE)
def x03(quick):
    return [Gen("GenReader", f"GenReader-{f}", {"Family": f, "MaxPieces": n}, READER_INV, "xmlfull")
            for f, n in {"divide": 20, "interrupt": 20, "fault": 200}.items()] + [
        Gen("GenGiant", "GenGiant-reader", {"Format": "reader", "Sizes": {1, 2, 3, 7, 9, 20000, 65537} if quick else {1, 2, 3, 5, 7, 9, 20000, 65535, 65537, 131073, 262145}}, ["Confirmed", "Emit"], limit=240),
        Gen("GenBytes", "GenBytes", {"MaxLen": 3 if quick else 4}, ["DecodeAgrees", "Emit"], "xmlfull"),
        Trace("TraceReader", "TraceReader", gx.readers(2500 if quick else 30000, big=3 if quick else 20), {"Facet": "full"})]


def formats(family, n):
    return Gen("GenFormats", f"GenFormats-{family}", {"Family": family, "MaxNodes": n}, ["SameMeaning", "Emit"], suite=True)


@prop("Q09", BASE)
def q09(quick):
    return [formats(f, n) for f, n in ({"trees": 5, "kinds": 5, "values": 2, "attrs": 3} if quick else {"trees": 6, "kinds": 6, "values": 3, "attrs": 4}).items()] + [
        Trace("TraceFormats", "TraceFormats", gq.formats(300 if quick else 6000)),
        queries("kinds", 3), nodes("access", 2),
        tsearch("custom", gq.queries(150 if quick else 3000, size=40, kinds=gq.CUSTOM)),
        tsearch("custom-access", gq.accesses(100 if quick else 2000, kinds=gq.CUSTOM)),
        tsearch("custom-travel", gq.travels(60 if quick else 1000, size=40, kinds=gq.CUSTOM))]


def tree(family, n):
    inv = ["Skeleton", "Sound", "Emit"] + (["NothingLost", "StrictAgrees", "Stray"] if family == "ordinary" else [])
    return Gen("GenTree", f"GenTree-{family}", {"Family": family, "MaxLen": n}, inv)


def sound(family, n):
    return Gen("GenSound", f"GenSound-{family}", {"Family": family, "MaxToks": n, "MaxDepth": 4}, ["Agrees", "Emit"])


@prop("L01", BASE)
def l01(quick):
    fams = ["blocks", "lists", "formatting", "formatting2", "tables", "tables2", "select", "frames", "raws", "forms", "ruby", "foreign"]
    return [tree(f, 4 if quick else 5) for f in fams] + [
        scale("ordinary", quick, module="GenScaleTree"), scale("repairs", quick, module="GenScaleTree"),
        giant("lenient", quick),
        Trace("TraceMirror", "TraceMirror-pieces", gh.all_pairs()),
        Trace("TraceMirror", "TraceMirror-strings", gh.strings("<a/>&= '!-"[:8] if quick else "<a/>&= '!-;", 4)),
        Trace("TraceMirror", "TraceMirror-vocabulary", gh.vocabulary()),
        Trace("TraceMirror", "TraceMirror-texts", gh.texts(3000 if quick else 60000)),
        Trace("TraceMirror", "TraceMirror-points", gh.points(quick)),
        Trace("TraceMirror", "TraceMirror-big", gh.big(20 if quick else 300)),
        Trace("TraceTree", "TraceTree-anything", gh.anything(1200 if quick else 20000)),
        Findings()]


@prop("L02", BASE)
def l02(quick):
    return [tree("ordinary", 5 if quick else 6), tree("document", 4 if quick else 5)] + [
            sound(f, n + (not quick)) for f, n in {"lists": 6, "tables": 7, "sections": 5, "phrases": 5, "forms": 5, "objects": 5}.items()] + [
            scale("ordinary", quick, module="GenScaleTree"), scale("repairs", quick, module="GenScaleTree"),
            Trace("TraceTree", "TraceTree-modelled", gh.modelled(1000 if quick else 20000)),
            Trace("TraceTree", "TraceTree-repairs", gh.repairs(1500 if quick else 25000)),
            Trace("TraceTree", "TraceTree-sound", gh.sound(1500 if quick else 25000))]


def total(family, n):
    return Gen("GenTotal", f"GenTotal-{family}", {"Family": family, "MaxLen": n}, ["Emit"], "total")


def growth(family, size):
    return Trace("TraceGrowth", f"TraceGrowth-{family}", source=("GenGrowth", {"Family": family, "Size": size}, ["Ratio8", "Emit"]), again=True)


@prop("H08", BASE + ["Time is CPU time of release-built code; what grows moderately is decided by a factor of three over the work the specification counts.",
                     "Nesting is bounded by the stack of the calling thread (known finding); patterns nest up to 2400 levels, and 1000 levels within 8 MB."])
def h08(quick):
    return [Gen("Total", "Total", {"MaxInput": 6 if quick else 12}, ["WholeInput", "Enabled"], emits=False, props=["Finishes"]),
            total("tokens", 3), total("frames", 1), total("numbers", 2 if quick else 3),
            Trace("TraceTotal", "TraceTotal-anything", gt.anything(4000 if quick else 80000)),
            Trace("TraceTotal", "TraceTotal-deep", gt.deep([100, 1000]), stack=8),
            growth("balanced", 60000), growth("numbered", 250000 if quick else 500000), growth("single", 60000 if quick else 150000)] + ([] if quick else [growth("pair", 60000)]) + [
            Findings()]


@prop("F01", BASE + ["Asking for a feature twice over (itself and one that implies it) is the same as asking once."])
def f01(quick):
    small = [(strict("tags", 3 if quick else 4, "full"), "strict"), (strict("attrs", 3 if quick else 4, "full"), "strict"), (strict("refs", 2 if quick else 3, "full"), "strict"),
             (sweep("entities", "full"), "strict"), (xml("tags", 3 if quick else 4, "xmlfull"), "xml"), (tree("ordinary", 3 if quick else 4), "lenient"),
             (queries("types", 1 if quick else 2), "query"), (queries("kinds", 2), "query"), (queries("mode", 2), "query"), (nodes("trees", 4 if quick else 5), "travel"), (nodes("access", 1), "access")]
    return [Builds()] + [Everywhere(g, op) for g, op in small] + [Alike("alike", gf.records(300 if quick else 2500))]


def plan(pid, tier):
    f, level, assumptions = PLANS[pid]
    return f(tier == "quick"), level, assumptions


def setup():
    pass


def technique(pid):
    return TECHNIQUE.get(pid, "TLA+ specification checked with TLC; its behaviours replayed into the code, recorded traces validated against it")


def note(pid):
    return NOTES.get(pid, "Exhaustive within the bounds recorded in the evidence file, in both directions (specification behaviours replayed, "
                          "recorded behaviours validated); beyond them sampled. Trusts TLC, the harness's observation code and the specification's reading of the property.")


TECHNIQUE, NOTES = {}, {}
