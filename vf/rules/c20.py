"""C20: the conversion into the standard error, variant by variant."""
from .. import analysis as an


def run(ctx):
    v, res = an.decide(ctx, "C20", ["rule:C20"],
                       "each variant of the library's error is converted on its own to the documented kind and source",
                       need=())
    return v
