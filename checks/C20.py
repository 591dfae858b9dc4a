"""C20: text renderings are exactly the specified layout."""
from fmtcases import *

def run(ctx):
    run_fmt(ctx, "text")
