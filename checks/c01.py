import vlib

def run(ctx, mode="content"):
    ctx.build_driver()
    ctx.model_check("MCCache.tla", "MCCache.cfg")
    num, depth = (2500, 60) if ctx.thorough else (350, 45)
    hists = ctx.generate("GenCache.tla", "GenCache.cfg", num=num, depth=depth + 2, env={"DEPTH": depth})
    inp, out = ctx.path("hist.ndjson"), ctx.path("trace.ndjson")
    vlib.write_nd(inp, hists)
    segs = ctx.drive("store", inp, out)
    bad = ctx.judge_sharded("TraceCache.tla", "TraceCache.cfg", segs, "store", shards=6, env={"MODE": mode})
    ctx.sample([e["o"] for e in segs[0][1:12]])
    ctx.notes["notifications_replayed"] = sum(len(s) - 1 for s in segs)
    ctx.notes["distinct_histories"] = len({str(h) for h in hists})
    ctx.assumptions += ["single writer at a time (concurrent use is C12)"]
    ctx.report_bad(bad)
    ctx.alive()
