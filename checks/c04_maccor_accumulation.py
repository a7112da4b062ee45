"""C04: Maccor files."""
import ingest
import vlib


def run(ctx):
    vlib.import_beep("beep.structure.maccor")
    ingest.check(ctx, ["maccor"], 900, 9000)
    ctx.assumptions += ["a step that ends has an end code on its last row, unless a new cycle follows",
                        "no clock change (DST) within the run"]
