import listcheck

def run(ctx):
    listcheck.run(ctx, "table")
