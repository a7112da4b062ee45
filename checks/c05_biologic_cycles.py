"""C05: BioLogic files and cycle numbers."""
import ingest
import vlib


def run(ctx):
    vlib.import_beep("beep.structure.biologic")
    ingest.check(ctx, ["biologic"], 900, 9000)
    ctx.assumptions += ["no clock change (DST) within the run", "comments without characters Python escapes in byte strings"]
