"""Entry point: runner.py <property id> <tier>.

Outcome is always one of: exit 0 (held), exit 1 + VIOLATION line (broken),
exit 2 (the machinery itself failed, e.g. TLC crashed)."""
import importlib
import os
import sys
import traceback
import warnings

warnings.filterwarnings("ignore")

MODULES = {
    "C01": "c01_structure_cli", "C02": "c02_featurize_cli", "C03": "c03_protocol_batch",
    "C04": "c04_maccor_accumulation", "C05": "c05_biologic_cycles", "C06": "c06_maccor_biologic",
    "C07": "c07_maccor_arbin", "C08": "c08_biologic_maccor", "C09": "c09_ingestion",
    "C10": "c10_dispatch", "C11": "c11_lifecycle", "C12": "c12_diagnostic",
    "C13": "c13_validator", "C14": "c14_features", "C15": "c15_model",
    "C16": "c16_splitter", "C17": "c17_tables", "C18": "c18_interpolation",
    "C19": "c19_splice", "C20": "c20_waveform", "C21": "c21_params",
    "C22": "c22_files", "C23": "c23_summary", "C24": "c24_train_cli", "C25": "c25_features", "C26": "c26_targets", "C27": "c27_hppc", "C28": "c28_s3", "C29": "c29_components", "C30": "c30_transfer", "C31": "c31_spectra",
}


def main():
    pid, tier = sys.argv[1], sys.argv[2]
    import vlib
    ctx = vlib.Ctx(pid, tier)
    try:
        mod = importlib.import_module(MODULES[pid])
        mod.run(ctx)
        rc = ctx.finish()
    except vlib.ImplBroken as e:
        ctx.violation("import", {"error": str(e)})
        rc = ctx.finish()
    except Exception as e:
        traceback.print_exc()
        # an exception that comes out of the code under test, on inputs it takes, is an answer; anything else is a failure of the machinery
        text = traceback.format_exc()
        if vlib.from_beep(text) and not isinstance(e, MemoryError):
            ctx.violation("raises", {"error": text[-4000:]})
            rc = ctx.finish()
        else:
            rc = ctx.finish(machinery_error=True)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)


if __name__ == "__main__":
    main()
