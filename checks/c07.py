import listcheck

def run(ctx):
    ctx.designs([("MCQuery.tla", ("MCQueryCluster" if ctx.thorough else "MCQueryClusterQuick") + ".cfg")],
                [("MCQuery.tla", "MCQuery_everywhere.cfg", "Confined is violated")])
    listcheck.run(ctx, "cluster")
