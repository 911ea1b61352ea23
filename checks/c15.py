import vlib

def run(ctx):
    ctx.build_driver()
    ctx.model_check("MCDeploy.tla", "MCDeploy.cfg")
    ctx.model_must_fail("MCDeploy.tla", "MCDeploy_firstdash.cfg", "Refines is violated")
    num, depth = (4000, 80) if ctx.thorough else (500, 60)
    hists = ctx.generate("GenDeploy.tla", "GenDeploy.cfg", num=num, depth=depth * 2 + 2, env={"DEPTH": depth})
    inp, out = ctx.path("in.ndjson"), ctx.path("trace.ndjson")
    vlib.write_nd(inp, hists)
    segs = ctx.drive("deploy", inp, out)
    bad = ctx.judge_sharded("TraceDeploy.tla", "TraceDeploy.cfg", segs, "deploy", shards=6)
    asks = [e for s in segs for e in s if e["ev"] == "ask"]
    ctx.notes["questions"] = len(asks)
    ctx.notes["questions_with_services"] = sum(1 for e in asks if e["got"])
    ctx.sample([{k: e[k] for k in e if k != "st"} for e in segs[0][1:14]])
    ctx.report_bad(bad)
    ctx.alive()
