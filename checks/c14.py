def run(ctx):
    ctx.build_driver()
    ctx.model_check("MCWatchProxy.tla", "MCWatchProxy.cfg" if ctx.thorough else "MCWatchProxyQuick.cfg", workers=8, timeout=850)
    ctx.model_must_fail("MCWatchProxy.tla", "MCWatchProxy_hold.cfg", "Prompt is violated")
    ctx.model_must_fail("MCWatchProxy.tla", "MCWatchProxy_tail.cfg", "Prompt is violated")
    ctx.model_must_fail("MCWatchProxy.tla", "MCWatchProxy_norelease.cfg", "Released is violated")
    ctx.model_must_fail("MCWatchProxy.tla", "MCWatchProxy_short.cfg", "LongLived is violated")
    num, depth = (800, 120) if ctx.thorough else (150, 80)
    hists = ctx.generate("GenWatchProxy.tla", "GenWatchProxy.cfg", num=num, depth=depth + 2, env={"DEPTH": depth})
    segs = ctx.drive_sharded("wproxy", hists, "wproxy", timeout=750)
    bad = ctx.judge_sharded("TraceWatchProxy.tla", "TraceWatchProxy.cfg", segs, "wproxy", shards=6)
    n = {}
    for s in segs:
        for e in s:
            k = e["ev"] + (":" + e["how"] if "how" in e else "")
            n[k] = n.get(k, 0) + 1
    ctx.notes["steps_by_kind"] = n
    ctx.sample([{k: v for k, v in e.items() if k not in ("obs", "reqs")} for e in segs[0][1:25]])
    ctx.report_bad(bad)
    ctx.alive()
