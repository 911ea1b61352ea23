import gatecheck, gengate

def run(ctx):
    ctx.designs([("MCGateway.tla", "MCGateway.cfg")],
                [("MCGateway.tla", "MCGateway_keepmark.cfg", "Intact is violated"),
                 ("MCGateway.tla", "MCGateway_lastoption.cfg", "RightCluster is violated"),
                 ("MCGateway.tla", "MCGateway_earlydefault.cfg", "RightCluster is violated"),
                 ("MCGateway.tla", "MCGateway_fallback.cfg", "RightCluster is violated")])
    g = gengate.GateGen(ctx.seed, "c09")
    fs = gatecheck.product(ctx, lambda f: not (f["m"] == "GET" and f["s"] in ("list", "nslist", "get", "nsget") and f["o"] in ("none", "limit", "limits", "timeout", "timeoutSeconds")), 7000)
    segs = [g.segment(c) for c in gatecheck.chunks(fs, 50)]
    for s in segs:
        if g.r.random() < 0.5:
            g.cfg, g.objs, g.ups = s["cfg"], s["objs"], sorted(s["cfg"]["prefix"])
            s["steps"].append(g.burst())
    gatecheck.replay(ctx, segs)
