import gatecheck, gengate

SHAPES = ["list", "nslist", "get", "nsget", "sub", "ulist", "uget", "wrongver", "watchpath", "root", "nsobj", "healthy", "metrics", "custom", "dirty"]
METHODS = ["GET", "HEAD", "POST", "PUT", "PATCH", "DELETE", "OPTIONS", "LOCK"]

def run(ctx):
    ctx.designs([("MCGateway.tla", "MCGateway.cfg")],
                [("MCGateway.tla", "MCGateway_lateauth.cfg", "Guarded is violated")])
    g = gengate.GateGen(ctx.seed, "c10")
    combos = [(m, s, a, o, k) for m in METHODS for s in SHAPES for a in ("good", "bad", "bad", "bad") for o in ("none", "limit", "watchtrue") for k in ("none", "rv", "rv?")
              if not (s in ("healthy", "metrics") and (m != "GET" and a == "bad")) and not (s == "dirty" and a == "good")]
    ctx.notes["feature_combinations"] = len(combos)
    g.r.shuffle(combos)
    segs = []
    for c in gatecheck.chunks(combos * (6 if ctx.thorough else 1), 40):
        for token in ([g.r.choice(gengate.TOKENS), ""] if g.p(0.3) else [g.r.choice(gengate.TOKENS)]):
            g.config(token)
            segs.append({"cfg": g.cfg, "objs": g.objs, "steps": [g.request({"m": m, "s": s, "o": o if s not in ("healthy", "metrics", "custom") else "none", "l": "none", "k": k if s not in ("healthy", "metrics", "custom") else "none"}, a) for m, s, a, o, k in c if s != "dirty" or token]})
    gatecheck.replay(ctx, segs)
