import listcheck

def run(ctx):
    ctx.designs([("MCQuery.tla", ("MCQueryMatch" if ctx.thorough else "MCQueryMatchQuick") + ".cfg")],
                [("MCQuery.tla", "MCQuery_anyneg.cfg", "Conjunction is violated")])
    listcheck.run(ctx, "match")
