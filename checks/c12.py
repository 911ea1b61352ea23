import genconc


def run(ctx):
    ctx.model_check("MCConc.tla", "MCConc.cfg" if ctx.thorough else "MCConcQuick.cfg")
    ctx.model_check("MCConc.tla", "MCConcMulti.cfg" if ctx.thorough else "MCConcMultiQuick.cfg")
    ctx.model_must_fail("MCConc.tla", "MCConc_nolock.cfg", "ReadsAreReal is violated")
    ctx.model_must_fail("MCConc.tla", "MCConc_copyback.cfg", "NothingLost is violated")
    ctx.model_must_fail("MCConc.tla", "MCConc_nested.cfg", "Deadlock reached", rcs=(11,))
    n = {}
    dead = None
    for race in (False, True):
        ctx.drv = ctx.build_driver(race)
        num, reads = (60, 60) if ctx.thorough else (12, 50)
        if race:
            num, reads = (30, 40) if ctx.thorough else (6, 30)
        for rnd in range(4 if ctx.thorough else 1):
            name = "race%d" % rnd if race else "conc%d" % rnd
            sd = ctx.seed + 1000 * rnd + 500 * race
            segs = ctx.drive_sharded("conc", genconc.scenarios(sd, num, reads) +
                                     genconc.first_touches(sd, num // 3, 20 if race else 120), name, procs=2,
                                     GORACE="halt_on_error=1", GOMAXPROCS=6)
            dead = dead or ctx.dead
            bad = ctx.judge_sharded("TraceConc.tla", "TraceConc.cfg", segs, name, shards=8)
            for s in segs:
                for e in s:
                    k = ("race:" if race else "") + e["ev"] + (":" + e["kind"] if e["ev"] == "re" else "")
                    n[k] = n.get(k, 0) + 1
            ctx.sample(segs[0][1:12])
            ctx.report_bad(bad)
    ctx.notes["events"] = n
    ctx.dead = dead
    ctx.alive()
