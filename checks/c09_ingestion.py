"""C09: Arbin, Neware, Indigo, Novonix and Battery Archive files."""
import ingest
import vlib


def run(ctx):
    vlib.import_beep("beep.structure.neware", "beep.structure.indigo", "beep.structure.novonix", "beep.structure.battery_archive",
                     "beep.structure.arbin")
    ingest.check(ctx, ingest.FORMATS, 260, 2600)
    ctx.assumptions += ["Novonix times are hours as in the file and local", "the first Neware record is at step time 0"]
