import genobjects, vlib


def run(ctx):
    ctx.build_driver()
    n, steps = (200, 60) if ctx.thorough else (36, 40)
    inp = ctx.path("obj.ndjson")
    genobjects.write(inp, ctx.seed, n, steps)
    segs = ctx.drive("objects", inp, ctx.path("obj-out.ndjson"))
    bad = ctx.judge_sharded("TraceObjects.tla", "TraceObjects.cfg", segs, "obj", shards=8)
    c, types = {}, {}
    for s in segs:
        for e in s:
            c[e["ev"]] = c.get(e["ev"], 0) + 1
            if e["ev"] == "put":
                types[e["k"][0]] = types.get(e["k"][0], 0) + 1
    ctx.notes["events"] = c
    ctx.notes["objects_by_type"] = types
    ctx.notes["leaves"] = sum(len(e.get("o", [])) for s in segs for e in s)
    ctx.sample({k: v for k, v in segs[0][0].items() if k != "ev"})
    ctx.report_bad(bad)
    ctx.alive()
