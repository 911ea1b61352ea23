import listcheck

def run(ctx):
    ctx.designs([("MCQuery.tla", ("MCQueryPages") + ".cfg")],
                [("MCQuery.tla", "MCQuery_truncated.cfg", "PagesHold is violated")])
    listcheck.run(ctx, "pages")
