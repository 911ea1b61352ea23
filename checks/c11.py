import listcheck

def run(ctx):
    ctx.designs([("MCEncoding.tla", "MCEncoding.cfg"), ("MCQuery.tla", "MCQueryHelpers.cfg" if ctx.thorough else "MCQueryHelpersQuick.cfg")],
                [("MCEncoding.tla", "MCEncoding_lexi.cfg", "RoundTrip is violated"), ("MCEncoding.tla", "MCEncoding_nooffset.cfg", "RoundTrip is violated"),
                 ("MCQuery.tla", "MCQuery_dropsadv.cfg", "Helpers is violated")])
    listcheck.run(ctx, "encode")
