import vlib, genraw

def run(ctx):
    ctx.build_driver()
    n = 1200 if ctx.thorough else 220
    inp, out = ctx.path("in.ndjson"), ctx.path("trace.ndjson")
    vlib.write_nd(inp, genraw.scenarios(ctx.seed, n))
    segs = ctx.drive("raw", inp, out, timeout=700)
    bad = ctx.judge_sharded("TraceList.tla", "TraceList.cfg", segs, "raw", shards=6)
    evs = [e for s in segs for e in s]
    hist = {}
    for e in evs:
        if e["ev"] == "raw":
            k = "%s %s" % (e["kind"], e["st"])
            hist[k] = hist.get(k, 0) + 1
            if e["kind"] == "query":
                ctx.sample({"request": e["head"][:300], "st": e["st"]})
    ctx.notes["raw_requests_by_kind_and_status"] = hist
    ctx.notes["later_requests_judged"] = sum(1 for e in evs if e["ev"] in ("list", "get", "table"))
    ctx.report_bad(bad)
    ctx.alive()
