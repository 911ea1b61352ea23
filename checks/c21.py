import vlib


def run(ctx):
    ctx.designs([("MCPlugin.tla", "MCPlugin.cfg" if ctx.thorough else "MCPluginQuick.cfg")],
                [("MCPlugin.tla", "MCPlugin_%s.cfg" % d, "MeansIt is violated") for d in ("novalues", "afterdash", "firstmanager")])
    ctx.build_driver()
    binary = ctx.build_binary("./cmd/ckube-plugin", "ckube-plugin")
    lines = ctx.generate("GenPlugin.tla", "GenPlugin.cfg", num=12000 if ctx.thorough else 1800, depth=12)
    ctx.notes["command_lines"] = len(lines)
    ctx.notes["distinct_command_lines"] = len({str(x) for x in lines})
    objs = []
    for c in ["c1", "c2", "c10", "prod.eu", "c3"]:
        for i, (lab, tier) in enumerate([("alpha", "a"), ("alpha", ""), ("beta", "b"), ("", "a"), ("beta", "")]):
            labels = {k: v for k, v in (("lab", lab), ("tier", tier)) if v}
            if i == 0:
                labels["cluster"] = "c1"
            objs.append({"c": c, "ns": ["n1", "n2"][i % 2], "n": "p%d" % i, "v": len(objs) + 1, "labels": labels, "annos": {}, "del": False})
    cfg = {"deflt": "c1", "conf": {"pods": {"name": ["name"], "namespace": ["ns"]}}}
    segs_in = [{"cfg": cfg, "objs": objs, "lines": lines[i:i + 150]} for i in range(0, len(lines), 150)]
    inp, out = ctx.path("in.ndjson"), ctx.path("trace.ndjson")
    vlib.write_nd(inp, segs_in)
    segs = ctx.drive("plugin", inp, out, VERIF_PLUGIN=binary, VERIF_SCRATCH=ctx.path("scratch"))
    bad = ctx.judge_sharded("TracePlugin.tla", "TracePlugin.cfg", segs, "plugin", shards=6)
    n = {}
    for s in segs:
        for e in s[1:]:
            k = "refused" if e["runs"] == 0 else "run"
            n[k] = n.get(k, 0) + 1
            if e["runs"]:
                ctx.sample({"words": [t for t in e["toks"]], "kubectl": e["got"]})
    ctx.notes["lines_by_outcome"] = n

    def describe(seg, i):
        e = seg[i]
        return "not allowed: %s %s -> ran %d times, exit %d (kubectl %d), got %s, selectors %s" % (
            [[t["name"], t["form"], t["val"]] for t in e["toks"]], e["rest"], e["runs"], e["exit"], e["kexit"], e["got"], [len(x) for x in e["sels"]])
    ctx.report_bad(bad, describe)
    ctx.alive()
