"""Build Maccor procedure files from abstract programs, and read BioLogic
settings files back, independently of the code under test."""
from decimal import Decimal
import xmltodict

MICRO = Decimal(10) ** 6


def dec_to_pair(d):
    """Decimal in base units -> [micro units, pico remainder] (exact or None)."""
    d = Decimal(d)
    pico = d * Decimal(10) ** 12
    if pico != pico.to_integral_value():
        return [-999999, -999999]
    p = int(pico)
    return [p // 10 ** 6, p % 10 ** 6]


def time_to_pair(seconds):
    """seconds (Decimal) -> [whole seconds, milliseconds]"""
    ms = Decimal(seconds) * 1000
    if ms != ms.to_integral_value():
        return [-999999, -999999]
    return [int(ms) // 1000, int(ms) % 1000]


def hms_to_seconds(txt):
    h, mi, s = txt.split(":")
    f = lambda x: Decimal(x) if x.strip() else Decimal(0)
    return f(h) * 3600 + f(mi) * 60 + f(s)


UNITS = {"V": Decimal(1), "mV": Decimal("1e-3"), "A": Decimal(1), "mA": Decimal("1e-3"),
         "\u00b5A": Decimal("1e-6"), "\u03bcA": Decimal("1e-6"), "nA": Decimal("1e-9"), "pA": Decimal("1e-12"),
         "W": Decimal(1), "mW": Decimal("1e-3"), "\u00b5W": Decimal("1e-6"), "\u03bcW": Decimal("1e-6"),
         "Ohm": Decimal(1), "mOhm": Decimal("1e-3"), "kOhm": Decimal("1e3"), "MOhm": Decimal("1e6"),
         "\u00b5Ohm": Decimal("1e-6"),
         "Ohms": Decimal(1), "mOhms": Decimal("1e-3"), "kOhms": Decimal("1e3"), "MOhms": Decimal("1e6"),
         "\u00b5Ohms": Decimal("1e-6")}
TUNITS = {"h": Decimal(3600), "mn": Decimal(60), "s": Decimal(1), "ms": Decimal("1e-3")}


def q_to_pair(val, unit):
    try:
        return dec_to_pair(Decimal(str(val)) * UNITS[unit])
    except Exception:
        return [-999998, -999998]


def t_to_pair(val, unit):
    try:
        return time_to_pair(Decimal(str(val)) * TUNITS[unit])
    except Exception:
        return [-999998, -999998]


def xml_step(stype, mode=None, value=None, limits=None, ends=None, reports=None, rng="A"):
    def entry(e):
        return {"EndType": e[0], "SpecialType": " ", "Oper": e[1], "Step": e[2], "Value": e[3]}
    es = None
    if ends:
        es = {"EndEntry": [entry(e) for e in ends] if len(ends) > 1 else entry(ends[0])}
    rs = None
    if reports:
        r = [{"ReportType": a, "Value": b} for a, b in reports]
        rs = {"ReportEntry": r if len(r) > 1 else r[0]}
    return {"StepType": stype, "StepMode": mode, "StepValue": value, "Limits": limits, "Ends": es,
            "Reports": rs, "Range": rng, "Option1": "N", "Option2": "N", "Option3": "N", "StepNote": None}


def xml_procedure(steps):
    d = {"MaccorTestProcedure": {
        "header": {"BuildTestVersion": {"major": "1", "minor": "5", "release": "7006", "build": "32043"},
                   "FileFormatVersion": {"BTVersion": "11"}, "ProcDesc": {"desc": None}},
        "ProcSteps": {"TestStep": steps}}}
    return xmltodict.unparse(d, pretty=True)


def parse_mps(text, width=20):
    """-> (header lines, [(technique number, type, columns)])"""
    lines = text.split("\r\n")
    techs, head, i = [], [], 0
    while i < len(lines):
        if lines[i].startswith("Technique :"):
            num = int(lines[i].split(":")[1])
            ttype = lines[i + 1].strip()
            i += 2
            rows = []
            while i < len(lines) and lines[i].strip() != "" and not lines[i].startswith("Technique :"):
                rows.append(lines[i])
                i += 1
            ncol = max([len(r) for r in rows] + [0]) // width
            cols = []
            for c in range(1, ncol):
                cols.append({r[:width].strip(): r[c * width:(c + 1) * width].strip() for r in rows})
            techs.append((num, ttype, cols))
        else:
            if not techs:
                head.append(lines[i])
            i += 1
    return head, techs
