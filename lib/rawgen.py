"""Synthetic cycler runs in integer units (mV, mA, mAh, mWh, mOhm, 0.1 C, s)
and their renderings as data frames and raw cycler files."""
import csv
import datetime

BASE_DATE = 1500000000  # 2017-07-14T02:40:00Z


def mk_rows(rng, cycles, tag=0, steps=None, npts=(4, 7), t0=0, pause=0.0, cap=900, start=0):
    """Random run: list of row dicts.  `steps` is a list of (step_index, kind)
    per cycle, kind C charge / V constant-voltage charge / D discharge / R rest."""
    rows = []
    t = t0
    date = BASE_DATE + start
    for c in cycles:
        st = steps or [(1, "C"), (2, "D")]
        cc = dc = ce = de = 0
        v = 2900
        top = cap + rng.randint(0, 60) + tag
        for si, kind in st:
            n = rng.randint(*npts)
            for k in range(n):
                dt = rng.choice([10, 30, 60])
                t += dt
                gap = 4000 + rng.randint(0, 3000) if rng.random() < pause else 0
                date += dt + gap
                i = 0
                if kind == "C":
                    cc = max(cc, top * (k + 1) // n)
                    v = 2900 + 600 * (k + 1) // n
                    ce = cc * 33 // 10
                    i = 1100
                elif kind == "V":
                    cc += rng.randint(1, 4)
                    ce = cc * 33 // 10
                    v = 3500
                    i = max(20, 1000 - 900 * k // max(1, n - 1))
                elif kind == "D":
                    dc = max(dc, (top - 5) * (k + 1) // n)
                    v = 3450 - 700 * (k + 1) // n
                    de = dc * 31 // 10
                    i = -2200
                rows.append(dict(cyc=c, step=si, t=t, date=date, v=v, i=i, cc=cc, dc=dc, ce=ce, de=de,
                                 ir=15 + (c % 7), temp=250 + rng.randint(0, 90)))
    return rows


def iso(epoch):
    return datetime.datetime.fromtimestamp(epoch, datetime.timezone.utc).isoformat()


def to_df(rows):
    import pandas as pd
    d = {
        "data_point": [k + 1 for k in range(len(rows))],
        "test_time": [float(r["t"]) for r in rows],
        "date_time": [float(r["date"]) for r in rows],
        "step_time": [0.0 for r in rows],
        "step_index": [r["step"] for r in rows],
        "cycle_index": [r["cyc"] for r in rows],
        "current": [r["i"] / 1000 for r in rows],
        "voltage": [r["v"] / 1000 for r in rows],
        "charge_capacity": [r["cc"] / 1000 for r in rows],
        "discharge_capacity": [r["dc"] / 1000 for r in rows],
        "charge_energy": [r["ce"] / 1000 for r in rows],
        "discharge_energy": [r["de"] / 1000 for r in rows],
        "internal_resistance": [r["ir"] / 1000 for r in rows],
        "temperature": [r["temp"] / 10 for r in rows],
        "date_time_iso": [iso(r["date"]) for r in rows],
    }
    df = pd.DataFrame(d)
    df["cycle_index"] = df["cycle_index"].astype("int32")
    df["step_index"] = df["step_index"].astype("int16")
    return df


ARBIN_COLS = ["Data_Point", "Test_Time", "DateTime", "Step_Time", "Step_Index", "Cycle_Index", "Current",
              "Voltage", "Charge_Capacity", "Discharge_Capacity", "Charge_Energy", "Discharge_Energy",
              "dV/dt", "Internal_Resistance", "Temperature"]


def write_arbin(path, rows, drop=(), meta=None):
    cols = [c for c in ARBIN_COLS if c not in drop]
    with open(path, "w", newline="") as f:
        w = csv.writer(f)
        w.writerow([""] + cols)
        for k, r in enumerate(rows):
            d = {"Data_Point": k + 1, "Test_Time": r["t"], "DateTime": r["date"], "Step_Time": 0,
                 "Step_Index": r["step"], "Cycle_Index": r["cyc"], "Current": r["i"] / 1000,
                 "Voltage": r["v"] / 1000, "Charge_Capacity": r["cc"] / 1000,
                 "Discharge_Capacity": r["dc"] / 1000, "Charge_Energy": r["ce"] / 1000,
                 "Discharge_Energy": r["de"] / 1000, "dV/dt": 0.0, "Internal_Resistance": r["ir"] / 1000,
                 "Temperature": r["temp"] / 10}
            w.writerow([k] + [d[c] for c in cols])
    if meta is not None:
        with open(path.replace(".csv", "_Metadata.csv"), "w", newline="") as f:
            w = csv.writer(f)
            w.writerow(list(meta))
            w.writerow(list(meta.values()))


MACCOR_COLS = ["Rec#", "Cyc#", "Step", "Test (Sec)", "Step (Sec)", "Amp-hr", "Watt-hr", "Amps", "Volts", "State", "ES",
               "DPt Time"]
MACCOR_TAIL = ["ACImp/Ohms", "DCIR/Ohms", "WF Chg Cap", "WF Dis Cap", "WF Chg E", "WF Dis E", "Range"] + \
    ["VAR%d" % i for i in range(1, 16)]


def write_maccor(path, rows, loops=False, eol="\r\n", meta=None):
    """Raw Maccor file; rows are dicts of the texts of the named columns (missing: a default)."""
    m = {"today": "10/10/2019", "date": "10/10/2019", "file": "C:\\Maccor\\x.010", "proc": "P_000109.000", "bar": "0001BC"}
    m.update(meta or {})
    cols = MACCOR_COLS + (["Loop%d" % i for i in range(1, 5)] if loops else []) + MACCOR_TAIL
    dflt = {"State": "R", "ES": "1", "DPt Time": "11/02/2019 10:00:00", "Range": "1", "WF Chg Cap": "N/A", "WF Dis Cap": "N/A",
            "WF Chg E": "N/A", "WF Dis E": "N/A", "ACImp/Ohms": "0.00000", "DCIR/Ohms": "0.00000"}
    with open(path, "w", newline="") as f:
        f.write("Today's Date %s  Date of Test:\t%s\t Filename:\t%s Procedure: %s\tComment/Barcode: %s%s"
                % (m["today"], m["date"], m["file"], m["proc"], m["bar"], eol))
        f.write("\t".join(cols) + eol)
        for k, r in enumerate(rows):
            d = dict(dflt)
            d["Rec#"] = str(k + 1)
            d.update(r)
            f.write("\t".join(d.get(c, "0") for c in cols) + eol)
