"""C03: device reads stay inside the filesystem."""
from .. import analysis as an


def run(ctx):
    v, res = an.decide(ctx, "C03", ["api_", "op_"] + an.UNITS + an.CLASSES,
                       "every device read after loading is whole blocks inside the filesystem; requests for part of a block are refused before the read")
    return v
