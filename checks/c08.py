import gatecheck, gengate

def run(ctx):
    ctx.designs([("MCGateway.tla", "MCGateway.cfg")],
                [("MCGateway.tla", "MCGateway_head.cfg", "AsPromised is violated"),
                 ("MCGateway.tla", "MCGateway_anyversion.cfg", "AsPromised is violated")])
    g = gengate.GateGen(ctx.seed, "c08")
    # cache or forward is at stake for GETs and what looks like one
    fs = gatecheck.product(ctx, lambda f: f["m"] in ("GET", "HEAD") or f["o"] == "none", 7000)
    gatecheck.replay(ctx, [g.segment(c) for c in gatecheck.chunks(fs, 50)])
