"""C18: what a block read returns is what the device holds, whatever was read,
cached or failed before. The cache's contents are generalised to an invariant
over any number of block reads, successful or not; every successful exit of a
block read must deliver the device's bytes at the requested place."""
from .. import analysis as an


def run(ctx):
    v, res = an.decide(ctx, "C18", ["unit:Ext4::read_from_block"],
                       "at every successful exit of a block read, for any history of reads: every byte delivered equals the device's byte at block size x block + offset",
                       need=("content",))
    return v
