import watchcheck

def run(ctx):
    watchcheck.run(ctx, "yes")
