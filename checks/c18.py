def run(ctx):
    ctx.build_driver()
    ctx.model_check("MCFake.tla", "MCFake.cfg")
    ctx.model_must_fail("MCFake.tla", "MCFake_anycluster.cfg", "WatchFolds is violated")
    num, depth = (600, 160) if ctx.thorough else (120, 110)
    hists = ctx.generate("GenFake.tla", "GenFake.cfg", num=num, depth=depth + 2, env={"DEPTH": depth})
    segs = ctx.drive_sharded("fake", hists, "fake", timeout=750)
    bad = ctx.judge_sharded("TraceFake.tla", "TraceFake.cfg", segs, "fake", shards=6)
    n = {}
    for s in segs:
        for e in s:
            k = e["ev"] + (":ok" if e.get("st") == 200 else ":refused" if "st" in e else "")
            n[k] = n.get(k, 0) + 1
            if e["ev"] == "close":
                n["reports to watches"] = n.get("reports to watches", 0) + len(e["log"])
            if e["ev"] == "end":
                n["reports to readers"] = n.get("reports to readers", 0) + len(e["events"])
    ctx.notes["steps_by_kind"] = n
    ctx.sample(segs[0][1:15])
    ctx.report_bad(bad)
    ctx.alive()
