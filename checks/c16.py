import c01

def run(ctx):
    c01.run(ctx, mode="gauge")
