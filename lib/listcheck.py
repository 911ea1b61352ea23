import vlib, genlist

def run(ctx, focus, quick=1200, thorough=4000, shards=6):
    ctx.build_driver()
    n = thorough if ctx.thorough else quick
    sc = genlist.scenarios(ctx.seed, focus, n)
    inp, out = ctx.path("in.ndjson"), ctx.path("trace.ndjson")
    vlib.write_nd(inp, sc)
    ctx.need_driver("list", inp, out)
    segs = vlib.segments(vlib.read_nd(out))
    bad = ctx.judge_sharded("TraceList.tla", "TraceList.cfg", segs, "list", shards=shards)
    reqs = [e for s in segs for e in s if e["ev"] in ("list", "table", "get")]
    ctx.notes["requests_judged"] = ctx.notes.get("requests_judged", 0) + len(reqs)
    ctx.notes["answers_by_status"] = {str(k): sum(1 for e in reqs if e["st"] == k) for k in sorted({e["st"] for e in reqs})}
    ctx.notes["nonempty_answers"] = sum(1 for e in reqs if e["st"] == 200 and (e.get("items") or e.get("rows") or e.get("item")))
    for e in reqs[:40]:
        if e["st"] == 200:
            ctx.sample({k: e[k] for k in ("q", "items", "remain") if k in e})
    ctx.report_bad(bad)
