"""Raw files of every supported cycler: programs of segments rendered as rows
and as files; the tables they are read into as integers.
Units: uAh, uWh, mA, 0.1 mV, 0.01 s, 0.1 C, mOhm."""
import csv
import datetime
import json
import math
import os
import zoneinfo

import rawgen

NIL = -999999999
PAC = zoneinfo.ZoneInfo("US/Pacific")
UTC = datetime.timezone.utc
FORMATS = ("arbin", "neware", "indigo", "novonix", "archive")


# ------------------------------------------------------------------ programs
def random_program(rng, wave=False):
    n = rng.randint(1, 9)
    prog = []
    for j in range(n):
        nc = j > 0 and rng.random() < 0.35
        same = nc and rng.random() < 0.3
        k = prog[-1]["k"] if same else rng.choice("CDR" + ("W" if wave else ""))
        m = rng.choice([1, 2, 2, 3, 4, 5])
        mid = k != "R" and m >= 2 and rng.random() < 0.35
        prog.append({"k": k, "nc": nc, "same": same, "n": m, "mid": mid, "gap": 0 if j == 0 else rng.choice([0, 0, 1])})
    return prog


def rows_of(rng, prog, repeat_steps=True):
    """One dict per recorded row: the physical run the program describes."""
    rows = []
    cyc, step, t = rng.choice([0, 1, 1, 1, 7]), rng.choice([1, 1, 2, 10]), rng.choice([0, 0, 0, rng.randint(1, 300000)])
    first_step = step
    cc = dc = ce = de = 0
    for j, s in enumerate(prog):
        if s["nc"]:
            cyc += 1
            cc = dc = ce = de = 0
        if j > 0 and not s["same"]:
            if repeat_steps and rng.random() < (0.5 if s["nc"] else 0.15) and step != first_step:
                step = first_step          # a loop, with or without a new cycle
            else:
                step += rng.choice([1, 1, 2])
        amp = rng.randint(20, 3000)
        q = e = 0
        ts = 0
        for k in range(s["n"]):
            dt = (rng.choice([1, 7, 100, 500, 6000]) if s["gap"] else 0) if k == 0 else rng.choice([3, 50, 100, 1000, 12345, 300000])
            ts += dt
            t += dt
            twice = k > 0 and rng.random() < 0.04            # the same record again
            if twice:
                ts, t = ts - dt, t - dt
            dq = 0 if s["k"] == "R" or twice or (k == 0 and rng.random() < 0.5) else rng.choice([0, 1, 137, 20000, 123456]) + rng.randint(0, 9)
            q += dq
            e += dq * 3 + (rng.randint(0, 5) if dq else 0)
            if s["k"] == "C":
                cc += dq
                ce += dq * 3
            elif s["k"] in "DW":
                dc += dq
                de += dq * 3
            rows.append(dict(seg=j, k=k + 1, last=k + 1 == s["n"], kind=s["k"], mid=s["mid"], cyc=cyc, step=step, t=t, s=ts, q=q, e=e,
                             cc=cc, dc=dc, ce=ce, de=de, cell=0, type=0, cap=0, en=0, given=0, number=0, loop=0, dcir=NIL,
                             es=1, st="R", wcq=-1, wdq=-1, wce=-1, wde=-1,
                             i=0 if s["k"] == "R" else amp if s["k"] == "C" else -amp,
                             v=rng.randint(25000, 42000), temp=rng.randint(200, 450), ir=rng.randint(0, 90), pos=k + 1))
            if twice:
                rows[-1].update({x: rows[-2][x] for x in ("v", "temp", "ir", "pos")})
    return rows


def long_step(rng, rows):
    """One step lasts for days (recorded at full seconds)."""
    seg = rng.choice(rows)["seg"]
    add, d = rng.randint(99, 120) * 360000, 0
    for r in rows:
        if r["seg"] == seg:
            new = (r["s"] + 99) // 100 * 100 + add
            d = new - r["s"]
            r["s"] = new
        r["t"] += d


BASES = [("2019-11-02 20:30:00", 0), ("2019-03-01 03:59:58", 0), ("2020-07-04 06:59:57", 0), ("2021-12-31 22:00:00", 0),
         ("2018-06-30 12:00:00", 0), ("2022-01-15 07:59:59", 0)]


def base_instant(rng):
    """A UTC second; never within two days of a change of the Pacific clock."""
    while True:
        d = datetime.datetime(rng.randint(2015, 2022), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), rng.randint(0, 59),
                              rng.randint(0, 59), tzinfo=UTC)
        offs = {(d + datetime.timedelta(hours=h)).astimezone(PAC).utcoffset() for h in range(-72, 24 * 14, 12)}
        if len(offs) == 1:
            return d


def clock(rng, rows, whole):
    """Wall clock of every row: seconds (and 1/100 s unless whole) since the base instant."""
    base = base_instant(rng)
    if rng.random() < 0.4:      # over midnight, Pacific time
        loc = base.astimezone(PAC).replace(hour=23, minute=59, second=59)
        base = (loc - datetime.timedelta(seconds=rng.randint(0, max(1, rows[-1]["t"] // 100)))).astimezone(UTC)
    pause = 0
    for r in rows:
        if r["k"] == 1 and rng.random() < 0.15:
            pause += rng.randint(1, 90000)
        x = r["t"] + 100 * pause
        if whole:
            x = x // 100 * 100
        r["w"] = x
    return base


def at(base, cs):
    return base + datetime.timedelta(milliseconds=10 * cs)


def u6(x, scale=1000000):
    s = "-" if x < 0 else ""
    x = abs(x)
    d = len(str(scale)) - 1
    return "%s%d.%0*d" % (s, x // scale, d, x % scale)


# ------------------------------------------------------------------ reading back
def num(x, scale):
    try:
        x = float(x)
    except (TypeError, ValueError):
        return NIL
    if math.isnan(x) or math.isinf(x):
        return NIL
    return max(-900000000, min(900000000, int(round(x * scale))))


OUT = {"data_point": 1, "cycle_index": 1, "step_index": 1, "test_time": 100, "step_time": 100, "voltage": 10000, "current": 1000,
       "charge_capacity": 10 ** 6, "discharge_capacity": 10 ** 6, "charge_energy": 10 ** 6, "discharge_energy": 10 ** 6,
       "internal_resistance": 1000, "temperature": 10, "_ending_status": 1, "ac_impedence": 1000, "capacity": 10 ** 6, "energy": 10 ** 6,
       "circuit_temperature": 10, "step_num": 1, "step_position": 1}


def table(dp, base, hours=False):
    df = dp.raw_data
    out = [dict() for _ in range(len(df))]
    for c, sc in OUT.items():
        if c in df.columns:
            if hours and c in ("test_time", "step_time"):
                sc = 360000
            for o, x in zip(out, df[c].tolist()):
                o[c] = num(x, sc)
    if "date_time_iso" in df.columns:
        for o, x in zip(out, df["date_time_iso"].tolist()):
            try:
                d = datetime.datetime.fromisoformat(x)
                if d.tzinfo is None:
                    d = d.replace(tzinfo=UTC)
                o["iso"] = int(round((d - base) / datetime.timedelta(milliseconds=10)))
            except (ValueError, TypeError):
                o["iso"] = NIL
    return out


# ------------------------------------------------------------------ writers: each fills r["same"] and writes the file
def maccor(rng, path, prog, rows, base):
    wave = any(s["k"] == "W" for s in prog)
    loops = rng.random() < 0.3
    gaps = wave and rng.random() < 0.4      # not every quantity of a waveform is filled in
    texts = []
    for r in rows:
        if r["kind"] == "W":
            r["st"] = "D" if rng.random() < 0.7 else "C"
            part = r["q"] // 5
            r.update(wcq=part, wdq=r["q"], wce=part * 3, wde=r["e"])
            if gaps:
                for f in ("wcq", "wdq", "wce", "wde"):
                    if rng.random() < 0.3:
                        r[f] = -1
            qfile, efile = rng.randint(0, 50000), rng.randint(0, 50000)
        else:
            r["st"] = {"C": "C", "D": "D", "R": rng.choice("ROP")}[r["kind"]]
            qfile, efile = r["q"], r["e"]
        if r["last"]:
            r["es"] = rng.choice([128, 129, 133, 200, 255]) if True else 0
        elif r["mid"] and r["kind"] == "W":
            r["es"] = rng.choice([128, 129, 133, 255, 1])
        elif r["mid"] and r["k"] < 2:
            r["es"] = 192
            if rng.random() < 0.7:
                r["st"] = "S"
        else:
            r["es"] = rng.choice([0, 1, 1, 2, 127, 192])
        r["q_file"], r["e_file"] = qfile, efile
    if gaps and all(r["wcq"] == -1 for r in rows):
        next(r for r in rows if r["kind"] == "W")["wcq"] = 0
    for k, r in enumerate(rows):
        if r["last"] and k + 1 < len(rows) and rows[k + 1]["cyc"] != r["cyc"] and rng.random() < 0.3:
            r["es"] = rng.choice([1, 300, 127])       # a new cycle always starts afresh
        if r["last"] and k + 1 == len(rows) and rng.random() < 0.5:
            r["es"] = 1
        local = at(base, r["w"]).astimezone(PAC)
        text = local.strftime("%m/%d/%Y %H:%M:%S")
        if local.hour == local.minute == local.second == 0 and rng.random() < 0.6:
            text = local.strftime("%m/%d/%Y")
        na = "N/A"
        ac = rng.randint(0, 99)
        texts.append({"Cyc#": str(r["cyc"]), "Step": str(r["step"]), "Test (Sec)": u6(r["t"], 100), "Step (Sec)": u6(r["s"], 100),
                      "Amp-hr": u6(r["q_file"]), "Watt-hr": u6(r["e_file"]), "Amps": u6(abs(r["i"]), 1000), "Volts": u6(r["v"], 10000),
                      "State": r["st"], "ES": str(r["es"]), "DPt Time": text, "DCIR/Ohms": u6(r["ir"], 1000), "ACImp/Ohms": u6(ac, 1000),
                      "WF Chg Cap": u6(r["wcq"]) if r["wcq"] != -1 else na, "WF Dis Cap": u6(r["wdq"]) if r["wdq"] != -1 else na,
                      "WF Chg E": u6(r["wce"]) if r["wce"] != -1 else na, "WF Dis E": u6(r["wde"]) if r["wde"] != -1 else na})
        r["same"] = {"data_point": k + 1, "cycle_index": r["cyc"], "step_index": r["step"], "test_time": r["t"], "step_time": r["s"],
                     "voltage": r["v"], "current": abs(r["i"]), "internal_resistance": r["ir"], "ac_impedence": ac,
                     "_ending_status": r["es"], "iso": r["w"]}
        # where the reader may look at the text columns of a row of the file
        r["q"], r["e"] = r["q_file"], r["e_file"]
    bar = rng.choice(["0001BC", "000A3F", "cell 12: left", ""])
    proc = rng.choice(["PreDiag_000109.000", "P_000.000", "a b/c.000"])
    start = at(base, 0).astimezone(PAC).strftime("%m/%d/%Y")
    meta = {"today": rng.choice(["10/10/2019", "01/02/2020"]), "date": start, "file": "C:\\Maccor\\" + rng.choice(["x.010", "a b.001"]),
            "proc": proc, "bar": bar}
    rawgen.write_maccor(path, texts, loops=loops, eol=rng.choice(["\n", "\r\n"]), meta=meta)
    ext = os.path.splitext(path)[1][1:]
    return {"barcode": bar, "protocol": proc, "start_datetime": start, "filename": meta["file"], "_today_datetime": meta["today"],
            "channel_id": str(int(ext)) if ext.isdigit() else "None"}


def biologic(rng, path, prog, rows, base):
    mode = rng.choice(["rules", "rules", "column", "number"])
    loops = mode == "rules" and rng.random() < 0.5
    steps = sorted({r["step"] for r in rows})
    pairs = sorted({(a["step"], b["step"]) for a, b in zip(rows, rows[1:]) if a["step"] != b["step"]})
    trans = [{"a": a, "b": b, "n": rng.randint(1, 3)} for a, b in pairs if rng.random() < 0.5]
    if rng.random() < 0.5:
        trans += [{"a": s, "b": s, "n": rng.randint(1, 3)} for s in steps if rng.random() < 0.5]      # nothing changes there
    if rng.random() < 0.3:
        trans.append({"a": steps[-1] + 5, "b": steps[0], "n": 1})
    rules = {"onstart": rng.randint(0, 1), "onloop": rng.randint(0, 2), "loops": loops, "trans": trans}
    loop, given, number = 0, rng.randint(1, 4), rng.randint(0, 3)
    ext = os.path.splitext(path)[1]
    sep = ";" if ext == ".csv" else "\t"
    enc = "utf-8" if ext == ".csv" else "iso-8859-1"
    cols = ["time/s", "cycle number", "Ns", "Ecell/V", "I/mA", "Q discharge/mA.h", "Q charge/mA.h", "Energy charge/W.h",
            "Energy discharge/W.h"]
    if loops:
        cols.append("Loop")
    if mode == "column":
        cols.append("cycle_index")
    cols += rng.sample(["mode", "ox/red", "Temperature/\u00b0C", "control/V/mA", "x"], rng.randint(0, 3))
    rng.shuffle(cols)
    lines = []
    for k, r in enumerate(rows):
        if k and r["k"] == 1:
            loop = 0 if rng.random() < 0.05 else loop + rng.choice([0, 0, 1])
            given += rng.choice([0, 1])
            number += rng.choice([0, 1])
        r.update(loop=loop, given=given, number=number)
        local = at(base, r["w"]).astimezone(PAC)
        d = {"time/s": local.strftime("%m/%d/%Y %H:%M:%S.") + rng.choice(["%02d", "%02d0", "%02d0000"]) % (local.microsecond // 10000),
             "cycle number": rng.choice(["%d", "%d.0", "%d.000E+000"]) % number if number < 10 else str(number),
             "Ns": str(r["step"]), "Ecell/V": u6(r["v"], 10000), "I/mA": u6(r["i"] * 1000, 1000), "Q discharge/mA.h": u6(r["dc"], 1000),
             "Q charge/mA.h": u6(r["cc"], 1000), "Energy charge/W.h": u6(r["ce"]), "Energy discharge/W.h": u6(r["de"]),
             "Loop": str(loop), "cycle_index": str(given)}
        lines.append(sep.join(d.get(c, "1") for c in cols))
        r["same"] = {"data_point": k + 1, "step_index": r["step"], "voltage": r["v"], "current": r["i"], "charge_capacity": r["cc"],
                     "discharge_capacity": r["dc"], "charge_energy": r["ce"], "discharge_energy": r["de"], "iso": r["w"],
                     "test_time": r["w"] - rows[0]["w"]}
    chan = rng.choice("ABCDE") + str(rng.randint(1, 16))
    bar = rng.choice(["0001BC", "cell : left : 3", "", "B-77 (new)"])
    defs = rng.choice(["Charge/Discharge alternance", "Loops"])
    eol = "\r\n"

    def head(chan, bar, defs):
        h = ["BT-Lab ASCII FILE", "", "Modulo Bat", "", "Run on channel : %s (SN 12%d)" % (chan, rng.randint(0, 99)), "Electrode connection : standard",
             "Comments : " + bar, "Mass of active material : 0.001 mg", "Cycle Definition : " + defs,
             "Ns                  0                   1", "ctrl_type           CC                  Rest", ""]
        if rng.random() < 0.5:
            h.insert(4, "Number of lines")
        return h
    alts = []
    for j, (c, b, d) in enumerate([(chan, bar, defs), ("A1", "other", defs), (chan, bar, defs + " (2)")]):
        p = path if j == 0 else path[:-len(ext)] + "-alt%d%s" % (j, ext)
        h = head(c, b, d)
        pre = h if ext == ".txt" else rng.choice([[], ["EC-Lab", "Variables Ecell/V"], ["x"] * rng.randint(0, 150)])
        with open(p, "wb") as f:
            f.write((eol.join(pre + [sep.join(cols)] + lines) + eol).encode(enc))
        if ext == ".csv":
            with open(p[:-4] + ".mpl", "wb") as f:
                f.write((eol.join(h) + eol).encode("iso-8859-1"))
        alts.append(p)
    mapping = None
    if mode == "rules" or (mode == "column" and rng.random() < 0.5):
        mapping = path + "-rules.json"
        with open(mapping, "w") as f:
            json.dump({"tech_num": 1, "tech_does_loop": loops, "adv_cycle_on_start": rules["onstart"], "adv_cycle_on_tech_loop": rules["onloop"],
                       "adv_cycle_seq_transitions": [{"source": x["a"], "target": x["b"], "adv_cycle_count": x["n"]} for x in trans],
                       "debug_adv_cycle_on_step_transitions": []}, f)
    meta = {"barcode": bar, "channel_id": str(int(str(ord(chan[0]) - 64) + chan[1:])), "filename": path}
    return meta, {"mode": mode, "rules": rules, "alts": alts, "mapping": mapping}


def arbin(rng, path, prog, rows, base):
    cols = rng.sample(rawgen.ARBIN_COLS, len(rawgen.ARBIN_COLS)) if rng.random() < 0.5 else list(rawgen.ARBIN_COLS)
    up = rng.random() < 0.2
    with open(path, "w", newline="") as f:
        w = csv.writer(f)
        w.writerow([""] + [c.upper() if up else c for c in cols])
        for k, r in enumerate(rows):
            ts = at(base, r["w"])
            epoch = int(base.timestamp()) * 100 + r["w"]
            d = {"Data_Point": k + 1, "Test_Time": u6(r["t"], 100), "DateTime": u6(epoch, 100), "Step_Time": u6(r["s"], 100),
                 "Step_Index": r["step"], "Cycle_Index": r["cyc"], "Current": u6(r["i"], 1000), "Voltage": u6(r["v"], 10000),
                 "Charge_Capacity": u6(r["cc"]), "Discharge_Capacity": u6(r["dc"]), "Charge_Energy": u6(r["ce"]),
                 "Discharge_Energy": u6(r["de"]), "dV/dt": "0.0", "Internal_Resistance": u6(r["ir"], 1000), "Temperature": u6(r["temp"], 10)}
            w.writerow([k] + [d[c] for c in cols])
            r["same"] = {"data_point": k + 1, "cycle_index": r["cyc"], "step_index": r["step"], "test_time": r["t"], "step_time": r["s"],
                         "voltage": r["v"], "current": r["i"], "charge_capacity": r["cc"], "discharge_capacity": r["dc"],
                         "charge_energy": r["ce"], "discharge_energy": r["de"], "internal_resistance": r["ir"], "temperature": r["temp"],
                         "iso": r["w"]}
    meta = {}
    if rng.random() < 0.7:
        src = {"Test_ID": str(rng.randint(1, 999)), "IV_Ch_ID": str(rng.randint(1, 99)), "First_Start_DateTime": "1494390345.1",
               "Schedule_File_Name": "a/b.sdu", "Item_ID": "EL%d" % rng.randint(1, 9), "Has_Aux": "0"}
        names = {"Test_ID": "test_id", "IV_Ch_ID": "channel_id", "First_Start_DateTime": "start_datetime", "Schedule_File_Name": "protocol",
                 "Item_ID": "barcode", "Has_Aux": "_has_aux"}
        with open(path[:-4] + "_Metadata.csv", "w", newline="") as f:
            w = csv.writer(f)
            w.writerow(list(src))
            w.writerow(list(src.values()))
        meta = {names[k]: v for k, v in src.items()}
    return meta


NEWARE_REC = ["Record ID", "Time(h:min:s.ms)", "Voltage(V)", "Current(mA)", "Temperature(\u00b0C)", "Capacity(mAh)", "Capacity Density(mAh/g)",
              "Energy(mWh)", "CmpEng(mWh/g)", "Realtime", "Min-T(C)", "Max-T(C)", "Avg-T(C)", "Power(mW)", "Capacitance_Chg(mAh)",
              "Capacitance_DChg(mAh)", "Engy_Chg(mWh)", "Engy_DChg(mWh)", "dQ/dV(mAh/V)", "dQm/dV(mAh/V.g)", "", "Aux"]


def neware(rng, path, prog, rows, base):
    q = lambda xs: ",".join('"%s"' % x for x in xs)
    ncyc = ["Cycle ID", "Cap_Chg(mAh)", "Cap_DChg(mAh)"]
    nstep = ["Step ID", "Step Name", "Step Time(h:min:s)", "Capacity(mAh)", "DCIR(O)", "Energy(mWh)"]
    if rng.random() < 0.5:
        nstep = ["Step ID", "Step Name", "DCIR(O)", "Capacity(mAh)", "Energy(mWh)"]
    tab = rng.choice(["", "\t"])
    lines = [q(ncyc), "," + q([nstep[0] + tab] + nstep[1:]), ",," + q(NEWARE_REC)]
    # the header of the records also names what is missing from them
    last_cyc = last_seg = None
    ir = NIL
    for k, r in enumerate(rows):
        if r["cyc"] != last_cyc:
            lines.append(q([r["cyc"], "1.0", "2.0"]))
            last_cyc = r["cyc"]
        if r["seg"] != last_seg:
            last_seg = r["seg"]
            ir = rng.randint(1, 90) if rng.random() < 0.6 else NIL
            d = {"Step ID": r["step"], "DCIR(O)": "\t-" if ir == NIL else u6(ir, 1000)}
            lines.append("," + q([d.get(c, "\tx") for c in nstep]))
        r["dcir"] = ir
        cs = r["s"]
        tm = "%s%d:%02d:%s" % (tab, cs // 360000, cs // 6000 % 60, ("%02d.%02d" % (cs // 100 % 60, cs % 100)) + rng.choice(["", "0"]))
        local = at(base, r["w"]).astimezone(PAC)
        d = {"Record ID": k + 1, "Time(h:min:s.ms)": tm, "Voltage(V)": u6(r["v"], 10000), "Current(mA)": u6(r["i"] * 10, 10),
             "Temperature(\u00b0C)": u6(r["temp"], 10), "Realtime": rng.choice(["", "\t"]) + local.strftime("%m/%d/%Y %H:%M:%S"),
             "Capacitance_Chg(mAh)": u6(r["cc"], 1000), "Capacitance_DChg(mAh)": u6(r["dc"], 1000), "Engy_Chg(mWh)": u6(r["ce"], 1000),
             "Engy_DChg(mWh)": u6(r["de"], 1000), "": "", "Aux": "1"}
        lines.append(",," + q([d.get(c, "0.5") for c in NEWARE_REC]))
        r["same"] = {"data_point": k + 1, "cycle_index": r["cyc"], "step_index": r["step"], "step_time": r["s"], "voltage": r["v"],
                     "current": r["i"], "temperature": r["temp"], "charge_capacity": r["cc"], "discharge_capacity": r["dc"],
                     "charge_energy": r["ce"], "discharge_energy": r["de"], "iso": r["w"]}
    with open(path, "w", encoding="ISO-8859-1", newline="") as f:
        f.write("".join(x + "\n" for x in lines))
    return {}


def indigo(rng, path, prog, rows, base):
    import h5py
    import numpy as np
    cell = rng.randint(1, 99999)
    clean = rows[0].get("clean", False)
    other = rng.random() < 0.06 and len(rows) > 1 and not clean
    has_t = rng.random() < 0.7 or clean
    half, seg = rng.randint(1, 4), None
    if rng.random() < 0.2 and not clean:
        for _ in range(3):      # the clock was set
            a, b = rng.choice(rows), rng.choice(rows)
            a["w"], b["w"] = b["w"], a["w"]
    for k, r in enumerate(rows):
        if r["seg"] != seg:
            half += 0 if seg is None else rng.randint(1, 2)
            seg = r["seg"]
        r["step"] = half
        r["cell"] = cell + (1 if other and k == len(rows) - 1 else 0)
        r["i"] = r["i"] or (0 if rng.random() < 0.5 else 5)
        r["same"] = {"data_point": k, "cycle_index": r["cyc"], "step_index": half, "voltage": r["v"], "current": r["i"],
                     "temperature": r["temp"], "iso": r["w"]}
        if has_t:
            r["same"]["test_time"] = r["t"]
    sign = -1 if rng.random() < 0.5 else 1
    us = int(base.timestamp()) * 10 ** 6
    vals = {"cell_id": ("i4", [r["cell"] for r in rows]), "cycle_count": ("i4", [r["cyc"] for r in rows]),
            "half_cycle_count": ("i4", [r["step"] for r in rows]),
            "system_time_us": ("i8", [us + 10000 * r["w"] for r in rows]),
            "time_s": ("f4", [0.0 for r in rows]),
            "cell_coulomb_count_c": ("f4", [(sign if r["kind"] == "C" else 1) * r["q"] * 0.0036 for r in rows]),
            "cell_current_a": ("f4", [r["i"] / 1000 for r in rows]), "cell_temperature_c": ("f4", [r["temp"] / 10 for r in rows]),
            "cell_energy_j": ("f4", [(sign if r["kind"] == "D" else 1) * r["e"] * 0.0036 for r in rows]),
            "cell_voltage_v": ("f4", [r["v"] / 10000 for r in rows])}
    if has_t:
        vals["test_time"] = ("f8", [r["t"] / 100 for r in rows])
    axis = list(vals)
    rng.shuffle(axis)
    kinds = ["i4", "i8", "f4"]
    rng.shuffle(kinds)
    with h5py.File(path, "w") as h:
        g = h.create_group("time_series_data")
        g.create_dataset("axis0", data=np.array([a.encode() for a in axis]))
        start = rng.choice([0, 100])
        g.create_dataset("axis1", data=np.arange(start, start + len(rows)))
        for b, kd in enumerate(kinds):
            items = [a for a in axis if vals[a][0] == kd or (kd == "i8" and vals[a][0] == "f8")]
            if rng.random() < 0.7:
                rng.shuffle(items)
            dt = {"i4": np.int32, "i8": np.int64, "f4": np.float32}[kd]
            if kd == "i8" and len(items) > 1:
                dt = np.float64
            g.create_dataset("block%d_items" % b, data=np.array([a.encode() for a in items]))
            g.create_dataset("block%d_values" % b, data=np.array([vals[a][1] for a in items]).T.astype(dt))
    first = min(r["w"] for r in rows)
    return {"indigo_cell_id": str(cell), "filename": path, "start_datetime": at(base, first).isoformat()}


def novonix(rng, path, prog, rows, base):
    unknown = rng.random() < 0.05 and not rows[0].get("clean", False)
    cap = en = None
    cyc = None
    n = len({r["seg"] for r in rows})
    types = [rng.choice({"C": [1, 7, 8], "D": [2, 9, 10], "W": [2, 9, 10], "R": [0]}[s["k"]]) for s in prog]
    if unknown:
        types[rng.randrange(n)] = rng.choice([3, 4, 11, 6])
    prev = None
    for k, r in enumerate(rows):
        if r["cyc"] != cyc:
            # a cycle begins with its capacity counter at zero, unless it begins discharging
            kinds = [x["kind"] for x in rows if x["cyc"] == r["cyc"]]
            tot = max(x["dc"] for x in rows if x["cyc"] == r["cyc"])
            up = max(x["cc"] for x in rows if x["cyc"] == r["cyc"])
            cap0 = 0 if "C" in kinds and rng.random() < 0.7 else tot + rng.randint(0, 1000)
            cyc = r["cyc"]
        r["cap"] = cap0 + r["cc"] - r["dc"]
        r["en"] = 3 * cap0 + r["ce"] - r["de"]
        r["type"] = types[r["seg"]]
    am = rng.random() < 0.5
    head = ["Date and Time", "Cycle Number", "Step Type", "Run Time (h)", "Step Time (h)", "Current (A)", "Potential (V)", "Capacity (Ah)",
            "Temperature (\u00b0C)", "Circuit Temperature (\u00b0C)", "Energy (Wh)", "dVdt (I/h)", "dIdt (V/h)", "Step Number", "Step position"]
    if rng.random() < 0.4:
        rest = head[1:]
        rng.shuffle(rest)
        head = head[:1] + rest
    meta = {"Channel": "%02d" % rng.randint(1, 12), "Cell": "Form-CH0%d.csv" % rng.randint(1, 5), "Serial Number": rng.choice(["", "SN 1:2"]),
            "Description": rng.choice(["Enter description here...", "Capacity: low"]), "Protocol": rng.choice(["a.pro1", "Channel 3: x.pro1"]), "Previous Protocol": "old.pro1",
            "Mass (g)": "1.000", "Capacity (Ah)": "0.24", "Area (cm2)": "1.000", "DC Offset Voltage (V)": "0.00000",
            "Started": "2022-04-11 10:58:07 AM", "Version": "2.2.1.6"}
    names = {"Channel": "channel", "Cell": "cell", "Serial Number": "barcode", "Description": "description", "Protocol": "protocol",
             "Mass (g)": "mass", "Capacity (Ah)": "nominal_capacity", "Area (cm2)": "area", "DC Offset Voltage (V)": "offset_voltage_dc",
             "Version": "software_version"}
    lines = ["[Summary]", "Novonix HPC data file", "Novonix"] + ["%s: %s" % kv for kv in meta.items()] + ["[End Summary]", "[Protocol]",
             "Protocol: other.pro1", "[0: Open_circuit_storage:]"] + ["   [x]"] * rng.choice([0, 3, 40]) + ["[End Protocol]", "[Data]"]
    if rng.random() < 0.3:
        lines.insert(rng.randint(3, len(lines) - 1), "")
    quote = rng.choice(['"', '"', ""])
    lines.append(quote + ",".join(head) + quote)
    for k, r in enumerate(rows):
        ts = at(base, r["w"])
        d = {"Date and Time": ts.strftime("%Y-%m-%d %I:%M:%S %p" if am else "%m/%d/%Y %I:%M:%S %p"), "Cycle Number": r["cyc"],
             "Step Type": r["type"], "Run Time (h)": "%.8f" % (r["t"] / 360000), "Step Time (h)": "%.8f" % (r["s"] / 360000),
             "Current (A)": u6(r["i"], 1000), "Potential (V)": u6(r["v"], 10000), "Capacity (Ah)": u6(r["cap"]),
             "Temperature (\u00b0C)": u6(r["temp"], 10), "Circuit Temperature (\u00b0C)": "23.3", "Energy (Wh)": u6(r["en"]), "dVdt (I/h)": "0.0",
             "dIdt (V/h)": "0.0", "Step Number": r["step"], "Step position": r["pos"]}
        lines.append(quote + ",".join(str(d[c]) for c in head) + quote)
        r["same"] = {"cycle_index": r["cyc"], "step_index": r["type"], "test_time": r["t"], "step_time": r["s"], "current": r["i"], "voltage": r["v"],
                     "capacity": r["cap"], "energy": r["en"], "temperature": r["temp"], "circuit_temperature": 233, "step_num": r["step"],
                     "step_position": r["pos"], "iso": r["w"]}
    with open(path, "w", encoding="utf-8", newline="") as f:
        f.write("".join(x + "\n" for x in lines))
    return {names[k]: (v if v else "None") for k, v in meta.items() if k in names}


def archive(rng, path, prog, rows, base):
    cols = ["Date_Time", "Test_Time (s)", "Cycle_Index", "Current (A)", "Voltage (V)", "Charge_Capacity (Ah)", "Discharge_Capacity (Ah)",
            "Charge_Energy (Wh)", "Discharge_Energy (Wh)", "Cell_Temperature (C)"]
    if rng.random() < 0.5:
        cols.append("Environment_Temperature (C)")
    if rng.random() < 0.3:
        rng.shuffle(cols)
    with open(path, "w", newline="") as f:
        w = csv.writer(f)
        w.writerow(cols)
        for r in rows:
            ts = at(base, r["w"])
            d = {"Date_Time": ts.strftime("%Y-%m-%d %H:%M:%S.%f"), "Test_Time (s)": u6(r["t"], 100), "Cycle_Index": r["cyc"],
                 "Current (A)": u6(r["i"], 1000), "Voltage (V)": u6(r["v"], 10000), "Charge_Capacity (Ah)": u6(r["cc"]),
                 "Discharge_Capacity (Ah)": u6(r["dc"]), "Charge_Energy (Wh)": u6(r["ce"]), "Discharge_Energy (Wh)": u6(r["de"]),
                 "Cell_Temperature (C)": u6(r["temp"], 10), "Environment_Temperature (C)": "25.0"}
            w.writerow([d[c] for c in cols])
            r["same"] = {"cycle_index": r["cyc"], "test_time": r["t"], "current": r["i"], "voltage": r["v"], "charge_capacity": r["cc"],
                         "discharge_capacity": r["dc"], "charge_energy": r["ce"], "discharge_energy": r["de"], "temperature": r["temp"],
                         "iso": r["w"], "date": r["w"]}
    return {}


PROJECTS = {"arbin": ["Iris", "xIris", "FastCharge", "ClosedLoopOED", "Talos", "PriorLAMVal", "LAMVal", "other", "2017-05-09"],
            "maccor": ["PreDiag", "PredictionDiagnostics", "Talos", "x", "Iris"]}
KEEP = ("cyc", "step", "t", "s", "q", "e", "i", "v", "st", "es", "wcq", "wdq", "wce", "wde", "cell", "type", "cap", "en", "given", "number",
        "loop", "dcir", "same")


def filename(rng, d, fmt, n):
    """Absolute path with a misleading directory now and then."""
    sub = rng.choice(["a", "a", "x.csv", "run_C 1.txt", "CH3.csv.d", "data.092"])
    d = os.path.join(d, "%s-%s" % (n, sub))
    os.makedirs(d, exist_ok=True)
    proj = rng.choice(PROJECTS.get(fmt, ["x"]))
    name = {"arbin": "%s_000%d_CH%d.csv" % (proj, rng.randint(10, 99), rng.randint(1, 40)),
            "maccor": "%s_%06d_%05d.%s" % (proj, rng.randint(0, 999), rng.randint(0, 99), rng.choice(["092", "001", "010", "123", "100", "007"])),
            "biologic": "test_%s_CE1%s" % (rng.choice(["a.csv", "loops", "x.y"]), rng.choice([".csv", ".txt"])), "neware": "x_neware_%d.csv" % n,
            "indigo": "x%d.h5" % n, "novonix": "Nova-CH0%d.csv" % (n % 7), "archive": "SNL_%d_timeseries.csv" % n}[fmt]
    if fmt == "maccor" and rng.random() < 0.1:
        name = name[:-4] + rng.choice([".abc", ".092x"])
    return os.path.join(d, name), proj


def reader(fmt):
    from beep.structure import arbin as A, battery_archive as B, biologic as L, indigo as I, maccor as M, neware as N, novonix as X
    return {"arbin": A.ArbinDatapath, "maccor": M.MaccorDatapath, "biologic": L.BiologicDatapath, "neware": N.NewareDatapath,
            "indigo": I.IndigoDatapath, "novonix": X.NovonixDatapath, "archive": B.BatteryArchiveDatapath}[fmt]


def digest(d):
    import hashlib
    h = hashlib.md5()
    for root, _, fs in sorted(os.walk(d)):
        for f in sorted(fs):
            with open(os.path.join(root, f), "rb") as fh:
                h.update(f.encode() + fh.read())
    return h.hexdigest()


def job(a):
    """(n, fmt, seed, program, dir) -> trace record"""
    import random
    n, fmt, seed, prog, d = a
    rng = random.Random(seed)
    path, proj = filename(rng, d, fmt, n)
    rows = rows_of(rng, prog, repeat_steps=fmt != "indigo")
    if fmt == "neware" and rng.random() < 0.15:
        long_step(rng, rows)
    base = clock(rng, rows, whole=fmt in ("maccor", "neware", "novonix"))
    fn = {"maccor": maccor, "biologic": biologic, "arbin": arbin, "neware": neware, "indigo": indigo, "novonix": novonix,
          "archive": archive}[fmt]
    res = fn(rng, path, prog, rows, base)
    more = {"mode": "", "rules": {"onstart": 0, "onloop": 0, "loops": False, "trans": []}}
    alts, mapping = [], None
    if isinstance(res, tuple):
        res, x = res
        alts, mapping = x.pop("alts"), x.pop("mapping")
        more = x
    rec = {"id": "%s%d" % (fmt, n), "fmt": fmt, "project": proj, "err": "", "out": [], "meta_in": res, "meta_out": {}, "schema": "",
           "proto": ["", "", ""], "stable": True, **more}
    before = digest(os.path.dirname(path))
    cls = reader(fmt)
    cwd = os.getcwd()
    os.chdir(d)
    try:
        kw = {"mapping_file": mapping} if mapping else {}
        dp = cls.from_file(path, **kw)
        rec["out"] = table(dp, base, hours=fmt == "novonix")
        if fmt == "archive":
            for o, x in zip(rec["out"], dp.raw_data["date_time"].tolist()):
                o["date"] = int(round((x - int(base.timestamp())) * 100))
        raw = dp.metadata.raw
        rec["meta_out"] = {k: str(raw[k]) for k in res if k in raw}
        for k in ("barcode", "protocol", "channel_id"):
            if k in res and fmt != "biologic" or (k in res and k != "protocol"):
                rec["meta_in"]["attr_" + k] = res[k]
                rec["meta_out"]["attr_" + k] = str(getattr(dp.metadata, k))
        rec["meta_in"]["path"] = os.path.basename(path)
        rec["meta_out"]["path"] = os.path.basename(str(dp.paths["raw"]))
        rec["schema"] = os.path.basename(dp.schema) if dp.schema else ""
        if alts:
            rec["proto"] = [cls.from_file(p, **kw).metadata.protocol for p in alts]
    except Exception as e:
        rec["err"] = type(e).__name__
        rec["msg"] = str(e)[:300]
    finally:
        os.chdir(cwd)
    rec["stable"] = digest(os.path.dirname(path)) == before
    rec["rows"] = [{k: r[k] for k in KEEP} for r in rows]
    if rng.random() < 0.9:
        import shutil
        shutil.rmtree(os.path.dirname(path), ignore_errors=True)
    return rec


def corrupt(rng, t):
    import copy
    t = copy.deepcopy(t)
    if not t["out"]:
        return None
    how = rng.choice(["value", "drop", "meta", "derived", "derived"])
    if how == "value":
        k = rng.randrange(len(t["out"]))
        f = rng.choice(sorted(t["rows"][k]["same"]))
        if t["out"][k].get(f, NIL) == NIL:
            return None
        t["out"][k][f] += 7 + abs(t["out"][k][f]) // 1000
    elif how == "drop":
        t["out"].pop(rng.randrange(len(t["out"])))
    elif how == "meta":
        t["meta_out"][rng.choice(sorted(t["meta_in"]))] = "?"
    else:
        fs = {"maccor": ["charge_capacity", "discharge_energy"], "neware": ["test_time"], "archive": ["step_index", "step_time"],
              "biologic": ["cycle_index"], "novonix": ["discharge_capacity", "discharge_energy"],
              "indigo": ["charge_capacity", "discharge_energy"], "arbin": ["charge_capacity"]}[t["fmt"]]
        f = rng.choice(fs)
        k = rng.randrange(len(t["out"]))
        if t["out"][k].get(f, NIL) == NIL:
            return None
        t["out"][k][f] += 7 + abs(t["out"][k][f]) // 1000
    return t


MC = "SPECIFICATION Spec\nCONSTANTS MaxSegs = %d Emit = %s\nINVARIANTS ChargeRight DischargeRight ClockRight StartNotLater EmitRun\n" \
     "PROPERTIES NonDecreasing FreshCycle\nCHECK_DEADLOCK FALSE\n"


def check(ctx, fmts, quick, thorough):
    """Exhaustive model check, then `quick`/`thorough` real files per format."""
    import vlib
    r = ctx.tlc("IngestMC", MC % (ctx.pick(3, 3), "TRUE"))
    progs = [x["prog"] for x in r.records]
    ctx.extra["programs_enumerated"] = len(progs)
    rng = ctx.rng
    d = ctx.dir("raw")
    jobs = []
    n = 0
    for fmt in fmts:
        total = ctx.pick(quick, thorough)
        pool = progs if fmt == "maccor" else [p for p in progs if all(s["k"] != "W" for s in p)]
        for p in rng.sample(pool, min(len(pool), total // 2)):
            jobs.append((n, fmt, rng.randrange(1 << 30), p, d))
            n += 1
        for _ in range(total - min(len(pool), total // 2)):
            jobs.append((n, fmt, rng.randrange(1 << 30), random_program(rng, fmt == "maccor"), d))
            n += 1
    traces = []
    for j, r in zip(jobs, vlib.pmap(job, jobs, chunksize=8)):
        if r[0] == "EXC":
            raise vlib.MachineryError("%s: %s\n%s" % (j[1], r[1], r[2]))
        traces.append(r[1])
    ctx.replayed += len(traces)
    v = ctx.validate("IngestTrace", traces, chunk=120)
    for t in traces:
        if not v[t["id"]]["ok"]:
            k = v[t["id"]]["row"]
            ctx.violation("%s-%s" % (t["fmt"], v[t["id"]]["clause"]),
                          {"id": t["id"], "row": k, "in": t["rows"][:k][-2:], "out": t["out"][:k][-2:], "err": t["err"], "msg": t.get("msg"),
                           "meta_in": t["meta_in"], "meta_out": t["meta_out"], "schema": t["schema"], "mode": t["mode"], "rules": t["rules"]})
    for t in traces[:2]:
        ctx.sample({"fmt": t["fmt"], "in": t["rows"][:2], "out": t["out"][:2]})
    ctx.extra["rows_checked"] = sum(len(t["out"]) for t in traces)
    good = [t for t in traces if v[t["id"]]["ok"] and t["out"]]
    can = []
    for k in range(ctx.pick(60, 200)):
        c = corrupt(rng, rng.choice(good)) if good else None
        if c:
            c["id"] = "can%d" % k
            can.append(c)
    cv = ctx.validate("IngestTrace", can, chunk=30, count=False)
    for c in can:
        ctx.canary(not cv[c["id"]]["ok"])
    return traces
