"""C19: JSON renderings read back as exactly the record."""
from fmtcases import *

def run(ctx):
    run_fmt(ctx, "json")
