import os
import vlib


def run(ctx):
    ctx.build_driver()
    binary = ctx.build_binary("./cmd/cacheproxy", "ckube")
    ctx.model_check("MCReload.tla", "MCReload.cfg" if ctx.thorough else "MCReloadQuick.cfg", workers=8, heap="12g", timeout=850)
    for m in ("noreadd", "nocompare", "latewatch"):
        ctx.model_must_fail("MCReload.tla", "MCReload_%s.cfg" % m, "Converges was violated", workers=4)
    ctx.model_must_fail("MCReload.tla", "MCReload_each.cfg", "Whole is violated", workers=4)
    num, depth = (160, 8) if ctx.thorough else (56, 6)
    hists = ctx.generate("GenReload.tla", "GenReload.cfg", num=num, depth=depth * 6 + 4, env={"DEPTH": depth})
    inp, out = ctx.path("reload-in.ndjson"), ctx.path("reload-out.ndjson")
    vlib.write_nd(inp, hists)
    os.mkdir(ctx.path("scratch"))
    segs = ctx.drive("reload", inp, out, timeout=800, VERIF_CKUBE=binary, VERIF_PAR=28, VERIF_SCRATCH=ctx.path("scratch"))
    bad = ctx.judge_sharded("TraceReload.tla", "TraceReload.cfg", segs, "reload", shards=8)
    n, slow = {}, 0
    for s in segs:
        for e in s:
            k = e["ev"] + (":" + e["how"] if "how" in e else ":" + e["kind"] if "kind" in e else "")
            n[k] = n.get(k, 0) + 1
            if e["ev"] == "settled" and e["kind"] == "load":
                slow = max(slow, e["ms"])
    ctx.notes["steps_by_kind"] = n
    ctx.notes["slowest_takeover_ms"] = slow
    ctx.sample([e for e in segs[0] if e["ev"] == "op"][:6])
    ctx.report_bad(bad)
    ctx.alive()
