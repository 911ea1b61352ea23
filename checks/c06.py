import listcheck

def run(ctx):
    ctx.designs([("MCOrder.tla", ("MCOrder") + ".cfg")],
                [("MCOrder.tla", "MCOrder_astext.cfg", "ByValue is violated"),
                 ("MCOrder.tla", "MCOrder_turnsall.cfg", "Precedence is violated"),
                 ("MCOrder.tla", "MCOrder_notstrict.cfg", "Reflexive is violated")])
    listcheck.run(ctx, "order")
