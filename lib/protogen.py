"""Protocol parameter rows, the csv files they are written to and the generated files read back (by independent parsers)."""
import csv
import os
import re

REG = ["charge_constant_current_1", "charge_percent_limit_1", "charge_constant_current_2", "charge_cutoff_voltage", "charge_constant_voltage_time",
       "charge_rest_time", "discharge_constant_current", "discharge_cutoff_voltage", "discharge_rest_time", "cell_temperature_nominal",
       "capacity_nominal", "diagnostic_start_cycle", "diagnostic_interval", "diagnostic_parameter_set"]
DRIVE = ["discharge_profile", "profile_charge_limit", "max_profile_power", "n_repeats", "power_scaling"]
RAPID = ["charge_type_1", "charge_start_soc", "charge_current_param_1", "charge_current_param_2", "charge_current_param_3", "charge_current_param_4",
         "charge_soc_param_1", "charge_soc_param_2", "charge_voltage_offset_1", "charge_fast_soc_limit"]
FORM = ["initial_charge_voltage_1", "initial_charge_current_1", "initial_charge_cvhold_1", "initial_charge_rest_1", "initial_charge_voltage_2",
        "initial_charge_current_2", "initial_charge_cvhold_2", "initial_charge_rest_2", "initial_discharge_voltage_1", "initial_discharge_current_1",
        "mid_charge_voltage_1", "mid_charge_current_1", "mid_discharge_voltage_1", "mid_discharge_current_1", "mid_cycle_reps",
        "final_charge_voltage_1", "final_charge_current_1", "final_discharge_voltage_1", "final_discharge_current_1", "final_discharge_cvhold_1"]
EXP = ["cutoff_voltage", "charge_rate", "discharge_rate"]
COLUMNS = ["project_name", "seq_num", "template"] + REG + DRIVE + RAPID + FORM + EXP
TEMPLATE = {"exp": "EXP.000", "v2": "diagnosticV2.000", "v3": "diagnosticV3.000", "rapid": "diagnosticV4.000", "drive": "diagnosticV5.000",
            "form": "formationV1.mps"}
PROJECT = {"exp": "P", "v2": "P", "v3": "P", "rapid": "RapidC", "drive": "Drive", "form": "P"}


def g(x):
    """A number as a person would type it."""
    s = ("%.4f" % x).rstrip("0").rstrip(".")
    return s or "0"


def row(cls, seq, p, dset="Tesla21700", extra=None):
    """cls: key of TEMPLATE; p: integer parameters in the units of ProtocolParams.tla."""
    r = {"project_name": PROJECT[cls], "seq_num": str(seq), "template": TEMPLATE[cls]}
    if cls == "form":
        r["capacity_nominal"] = g(p["cap"] / 1e3)
        for k, c in (("ic1", "initial_charge_current_1"), ("iv1", "initial_charge_voltage_1"), ("ic2", "initial_charge_current_2"),
                     ("iv2", "initial_charge_voltage_2"), ("idc", "initial_discharge_current_1"), ("idv", "initial_discharge_voltage_1"),
                     ("mc", "mid_charge_current_1"), ("mv", "mid_charge_voltage_1"), ("mdc", "mid_discharge_current_1"),
                     ("mdv", "mid_discharge_voltage_1"), ("fc", "final_charge_current_1"), ("fv", "final_charge_voltage_1"),
                     ("fdc", "final_discharge_current_1"), ("fdv", "final_discharge_voltage_1")):
            r[c] = g(p[k] / 1e4)
        for k, c in (("ih1", "initial_charge_cvhold_1"), ("ir1", "initial_charge_rest_1"), ("ih2", "initial_charge_cvhold_2"),
                     ("ir2", "initial_charge_rest_2"), ("fdh", "final_discharge_cvhold_1")):
            r[c] = g(p[k] / 10)
        r["mid_cycle_reps"] = str(p["reps"])
    elif cls == "exp":
        for k, c in (("cut", "cutoff_voltage"), ("chg", "charge_rate"), ("dis", "discharge_rate")):
            r[c] = p[k]
    else:
        for k, c, u in (("cc1", "charge_constant_current_1", 1e4), ("pct", "charge_percent_limit_1", 10), ("cc2", "charge_constant_current_2", 1e4),
                        ("vch", "charge_cutoff_voltage", 1e4), ("cvt", "charge_constant_voltage_time", 10), ("crest", "charge_rest_time", 10),
                        ("dcc", "discharge_constant_current", 1e4), ("vdis", "discharge_cutoff_voltage", 1e4), ("drest", "discharge_rest_time", 10),
                        ("cap", "capacity_nominal", 1e3)):
            r[c] = g(p[k] / u)
        r["diagnostic_start_cycle"], r["diagnostic_interval"] = str(p["nstart"]), str(p["nint"])
        r["diagnostic_parameter_set"] = dset
        r["cell_temperature_nominal"] = "25"
        if cls == "drive":
            r.update(discharge_profile=p["profile"], profile_charge_limit=g(p["plim"] / 1e4), max_profile_power=g(p["power"] / 1e4),
                     n_repeats=str(p["reps"]), power_scaling=g(p["scale"] / 1e4))
        if cls == "rapid":
            del r["charge_constant_current_1"], r["charge_constant_current_2"], r["charge_percent_limit_1"]
            r.update(charge_type_1=p["ctype"], charge_start_soc=g(p["soc"][0] / 1e4), charge_soc_param_1=g(p["soc"][1] / 1e4),
                     charge_soc_param_2=g(p["soc"][2] / 1e4), charge_fast_soc_limit=g(p["soc"][3] / 1e4), charge_voltage_offset_1=g(p["offset"] / 1e4))
            for k in range(4):
                r["charge_current_param_%d" % (k + 1)] = g(p["cr"][k] / 1e4)
    r.update(extra or {})
    return r


def write_csv(path, rows, columns=None):
    cols = columns or [c for c in COLUMNS if any(c in r for r in rows)]
    with open(path, "w", newline="") as f:
        w = csv.writer(f)
        w.writerow(cols)
        for r in rows:
            w.writerow([r.get(c, "") for c in cols])


# ------------------------------------------------------------ Maccor procedures
def _flat(prefix, o, out):
    if isinstance(o, dict):
        if not o:
            out[prefix] = ""
        for k, v in o.items():
            if k == "EndEntry" or k == "ReportEntry":
                for i, e in enumerate(v if isinstance(v, list) else [v]):
                    _flat("%s.%d" % (prefix, i), e, out)
            else:
                _flat(prefix + "." + k if prefix else k, v, out)
    elif isinstance(o, list):
        for i, e in enumerate(o):
            _flat("%s.%d" % (prefix, i), e, out)
    else:
        out[prefix] = "" if o is None else o


def procedure(path):
    """field -> text, with step fields named '<step>.<field>' and everything else as it is in the file."""
    import xmltodict
    d = xmltodict.parse(open(path, "rb").read().decode("UTF-8"), process_namespaces=False, strip_whitespace=False)
    steps = d["MaccorTestProcedure"]["ProcSteps"]["TestStep"]
    out = {}
    for i, s in enumerate(steps):
        _flat(str(i), s, out)
    del d["MaccorTestProcedure"]["ProcSteps"]
    _flat("file", d, out)
    out["file.nsteps"] = str(len(steps))
    return {k: v for k, v in out.items() if not k.endswith("#text")}


def step_list(path):
    """The steps as ProtocolParams.tla sees them, and the remaining fields."""
    flat = procedure(path)
    n = int(flat["file.nsteps"])
    steps, used = [], set()
    for i in range(n):
        get = lambda f: (used.add("%d.%s" % (i, f)), flat.get("%d.%s" % (i, f), "").strip())[1]
        s = {"type": get("StepType"), "mode": get("StepMode"), "value": get("StepValue"), "lim": get("Limits.Voltage"), "ends": []}
        k = 0
        while "%d.Ends.%d.EndType" % (i, k) in flat:
            s["ends"].append({"t": get("Ends.%d.EndType" % k), "op": get("Ends.%d.Oper" % k), "step": get("Ends.%d.Step" % k),
                              "v": get("Ends.%d.Value" % k)})
            used.add("%d.Ends.%d.SpecialType" % (i, k))
            k += 1
        steps.append(s)
    return steps, {k: v for k, v in flat.items() if k not in used and not (re.search(r"\.(Ends|Reports)$", k) and v == "")}


# ------------------------------------------------------------ BioLogic settings
def settings(path, width=20):
    """'<step>.<field>' -> text (stripped) of the single technique, other lines by number (as they are)."""
    lines = open(path, "rb").read().decode("ISO-8859-1").split("\r\n")
    out = {}
    t = [i for i, l in enumerate(lines) if l.startswith("Technique : ")][0]
    for i, l in enumerate(lines):
        if i <= t + 1 or len(l) < width * 2:
            out["line%d" % i] = l
            continue
        cols = [l[j:j + width] for j in range(0, len(l), width)]
        for j, c in enumerate(cols[1:], 1):
            out["%d.%s" % (j, cols[0].strip())] = c.strip()
        out["tail%d" % i] = str(len(l))
    return out


# ------------------------------------------------------------ Arbin schedules
def schedule(path):
    out, sec = {}, ""
    for i, l in enumerate(re.split("\r?\n", open(path, "rb").read().decode("latin-1"))):
        if l.startswith("["):
            sec = l
            out["sec%d" % i] = l
        else:
            k, _, v = l.partition("=")
            out[sec + k + ("" if sec + k not in out else "#%d" % i)] = v
    return out


def seconds(text):
    m = re.fullmatch(r"\s*(\d+):(\d\d):(\d\d)\s*", text)
    return int(m.group(1)) * 3600 + int(m.group(2)) * 60 + int(m.group(3)) if m and int(m.group(2)) < 60 and int(m.group(3)) < 60 else -1


def scaled(text, k):
    """The number written, in 1/k, if it is written with no more digits than that; else -999999999."""
    try:
        v = float(text) * k
    except ValueError:
        return -999999999
    r = round(v)
    return r if abs(v - r) < 1e-6 * max(1, abs(v)) and abs(r) < 2 ** 30 else -999999999
