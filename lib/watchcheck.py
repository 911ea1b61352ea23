import vlib

FOCI = ["pods|c1", "widgets|c2", "nodes|c1", "deployments|c2"]


def run(ctx, stop="no"):
    ctx.build_driver()
    ctx.model_check("MCWatch.tla", "MCWatch.cfg")
    if stop == "no":
        ctx.model_check("MCWatch.tla", "MCWatchLive.cfg")
        ctx.model_must_fail("MCWatch.tla", "MCWatch_clearatconnect.cfg", "Survives is violated")
        ctx.model_must_fail("MCWatch.tla", "MCWatch_noclear.cfg", "Exact is violated")
        ctx.model_must_fail("MCWatch.tla", "MCWatch_giveup.cfg", "Converges was violated")
    num, depth = (400, 120) if ctx.thorough else (60, 70)
    hists = []
    for i, f in enumerate(FOCI):
        hists += ctx.generate("GenWatch.tla", "GenWatch.cfg", num=num, depth=depth + 2, seed=ctx.seed * 10 + i,
                              env={"DEPTH": depth, "FOCUS": f, "STOP": stop})
    inp, out = ctx.path("in.ndjson"), ctx.path("trace.ndjson")
    vlib.write_nd(inp, hists)
    segs = ctx.drive("watch", inp, out)
    bad = ctx.judge_sharded("TraceWatch.tla", "TraceWatch.cfg", segs, "watch", shards=6)
    n = {}
    for s in segs:
        for e in s:
            k = e["ev"] + (":" + e["kind"] if "kind" in e else "")
            n[k] = n.get(k, 0) + 1
    ctx.notes["steps_by_kind"] = n
    ctx.sample([{k: e[k] for k in ("ev", "s", "id", "kind", "d") if k in e} for e in segs[0][:25]])
    ctx.report_bad(bad)
    ctx.alive()
