import random
import vlib, gengate


def feats(ctx):
    return ctx.generate("GenGateway.tla", "GenGateway.cfg", exhaustive=True)


def replay(ctx, segs_in, name="gate"):
    ctx.build_driver()
    inp, out = ctx.path(name + "-in.ndjson"), ctx.path(name + ".ndjson")
    vlib.write_nd(inp, segs_in)
    segs = ctx.drive("gate", inp, out, timeout=700)
    bad = ctx.judge_sharded("TraceGateway.tla", "TraceGateway.cfg", segs, name, shards=6)
    h = {}
    for s in segs:
        for e in s:
            if e["ev"] == "req":
                k = "%s %s" % ("forwarded" if e["hits"] else "not forwarded", e["st"])
                h[k] = h.get(k, 0) + 1
                if len(ctx.samples) < 3:
                    ctx.sample({"request": {k: e["r"][k] for k in ("m", "path", "opts", "mark")}, "st": e["st"], "hits": [{k: x[k] for k in ("c", "m", "p", "q")} for x in e["hits"]]})
    ctx.notes["requests_by_outcome"] = {k: ctx.notes.get("requests_by_outcome", {}).get(k, 0) + v for k, v in h.items()}

    def describe(seg, i):
        e = seg[i]
        if e["ev"] != "req":
            return "event %d not allowed: %s" % (i, str(e)[:400])
        return "not allowed: %s -> st %s, hits %s, seen %s" % ({k: e["r"][k] for k in ("m", "path", "opts", "mark", "auth")}, e["st"], str(e["hits"])[:300], e.get("seen"))
    ctx.report_bad(bad, describe)
    ctx.alive()


def chunks(l, n):
    return [l[i:i + n] for i in range(0, len(l), n)]


def product(ctx, keep=lambda f: True, limit=None):
    fs = [f for f in feats(ctx) if keep(f)]
    ctx.notes["feature_combinations"] = len(fs)
    rnd = random.Random(ctx.seed)
    rand = [f for f in fs if f["o"] == "rand"]  # each stands for many options and values
    rnd.shuffle(fs)
    if limit and not ctx.thorough and len(fs) > limit:
        fs = fs[:limit]
    fs = fs + [f for f in rand for _ in range(3 if len(rand) < 700 else 1)]
    # what the cache answers: the headers that come with it must not matter
    cached = [f for f in fs if f["m"] == "GET" and f["s"] in ("list", "nslist", "get", "nsget") and f["o"] in ("none", "limit", "timeout", "timeoutSeconds", "limits") and f["l"] in ("none", "plain", "embed", "embedplain")]
    fs = fs + cached * 2
    rnd.shuffle(fs)
    if ctx.thorough:
        fs = fs * 3
    ctx.notes["feature_combinations_replayed"] = len(fs)
    return fs
