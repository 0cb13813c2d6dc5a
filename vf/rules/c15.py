"""C15: attributes are the documented fields: symbolic equality of the reported
value with the format's bytes, for every content."""
from .. import analysis as an


def run(ctx):
    v, res = an.decide(ctx, "C15", ["unit:Inode::read", "api_label", "api_uuid"],
                       "at every successful exit, each attribute equals the term over the bytes the format assigns to it",
                       need=("len", "uid"))
    return v
