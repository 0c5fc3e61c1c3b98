"""Reference writer and reader of the rea text, by column positions, independent of pymech."""

import re

import numpy as np

from nekfmt import corners2


def g14(v):
    return "%14.6e" % v


def G14(v):
    """Fortran G14.6 (6 significant digits)."""
    v = float(v)
    a = abs(v)
    if v == 0:
        s = "0.00000"
        return s.rjust(10) + "    "
    if 0.1 <= a < 1e6:
        n = len(str(int(a))) if a >= 1 else 0
        s = "%.*f" % (6 - n, v)
        return s.rjust(10) + "    "
    m, e = ("%.5e" % v).split("e")
    # 0.dddddd form
    sign = "-" if m.startswith("-") else ""
    digits = m.lstrip("-").replace(".", "")
    return (sign + "0." + digits + "E%+03d" % (int(e) + 1)).rjust(14)


def write(d, opt, num=g14):
    """d: description as in souplib. opt: {npar, nps, nsw, title, style, tail}."""
    dim, nel = d["dim"], len(d["pos"])
    L = []
    L.append(opt.get("title", "****** PARAMETERS ******"))
    L.append("   2.610000     NEKTON VERSION")
    L.append(f"   {dim} DIMENSIONAL RUN")
    L.append(f"         {opt['npar']} PARAMETERS FOLLOW")
    for i in range(opt["npar"]):
        L.append("  %8.5f     P%03d: SOMETHING" % (0.5 * i - 3, i + 1))
    L.append(f"      {opt['nps']}  Lines of passive scalar data follows2 CONDUCT; 2RHOCP")
    for i in range(opt["nps"]):
        L.append("   1.00000        1.00000        1.00000        1.00000        1.00000")
    L.append(f"         {opt['nsw']}   LOGICAL SWITCHES FOLLOW")
    for i in range(opt["nsw"]):
        L.append(f" {'TF'[i % 2]}      IFSWITCH{i}")
    L.append("   8.00000       8.00000      -0.50000      -4.00000     XFAC,YFAC,XZERO,YZERO")
    L.append("  ***** MESH DATA *****  6 lines are X,Y,Z;X,Y,Z. Columns corners 1-4;5-8")
    L.append(f"  {nel:10d} {dim:10d} {nel:10d}           NEL,NDIM,NELV")
    for e in range(nel):
        L.append(f"            ELEMENT {e + 1:10d} [    1A]    GROUP     0")
        for z in range(dim - 1):
            for c in range(dim):
                L.append("".join(num(d["pos"][e][c, z, y, x]) for (y, x) in [(0, 0), (0, 1), (1, 1), (1, 0)]))
    L.append("  ***** CURVED SIDE DATA *****")
    L.append(f"  {len(d['curves']):10d} Curved sides follow IEDGE,IEL,CURVE(I),I=1,5, CCURVE")
    w = (3, 3) if nel < 1000 else (2, 6)
    for e, g, p, c in d["curves"]:
        L.append(str(g + 1).rjust(w[0]) + str(e + 1).rjust(w[1]) + "".join(num(v) for v in p) + " " + c)
    L.append("  ***** BOUNDARY CONDITIONS *****")
    nbc = len(d["bcs"])
    L.append("  ***** FLUID   BOUNDARY CONDITIONS *****" if nbc else "  ***** NO FLUID   BOUNDARY CONDITIONS *****")
    for f in range(nbc):
        if f == 1:
            L.append("  ***** THERMAL BOUNDARY CONDITIONS *****")
        elif f > 1:
            L.append(f"  ***** PASSIVE SCALAR {f - 1}  BOUNDARY CONDITIONS *****")
        for e in range(nel):
            for k in range(2 * dim):
                t, p = d["bcs"][f].get((e, k), ("E", np.zeros(5)))
                if nel < 1000:
                    ids = f"{e + 1:3d}{k + 1:3d}"
                elif opt.get("style") == "i5i1":
                    ids = f"{e + 1:5d}{k + 1:1d}"
                else:
                    ids = f"{e + 1:6d}"
                L.append(" " + t.ljust(3) + ids + "".join(num(v) for v in p))
    if nbc < 2:
        L.append("  ***** NO THERMAL BOUNDARY CONDITIONS *****")
    if opt.get("tail", True):
        L += ["    0 PRESOLVE/RESTART OPTIONS  *****", "    7         INITIAL CONDITIONS *****"] + [" C Default"] * 7
        L += ["  ***** DRIVE FORCE DATA ***** BODY FORCE, FLOW, Q", "    4                 Lines of Drive force data follow"] + [" C"] * 4
        L += [" ***** Variable Property Data ***** Overrrides Parameter data.", "    1 Lines follow.", "    0 PACKETS OF DATA FOLLOW"]
        L += [" ***** HISTORY AND INTEGRAL DATA *****", "    0   POINTS.  Hcode, I,J,H,IEL"]
    return "\n".join(L) + "\n"


class Bad(Exception):
    pass


def parse(text):
    """Reads the mesh sections by fixed columns, as the Fortran formats of Nek5000 do. Returns a description with every
    boundary condition line kept: bcs[f][(e, k)] = (type, params, ids columns)."""
    lines = text.split("\n")
    pos = 0

    def nxt():
        nonlocal pos
        if pos >= len(lines):
            raise Bad("end of file")
        pos += 1
        return lines[pos - 1]

    def count(line, word):
        m = re.match(r"\s*(\d+)\s", line + " ")
        if not m:
            raise Bad(f"expected a number of {word}: {line!r}")
        return int(m.group(1))

    def sect(line, word):
        if word not in line or "*****" not in line:
            raise Bad(f"expected the {word} section: {line!r}")

    nxt()
    nxt()
    dim = count(nxt(), "dimensions")
    for _ in range(count(nxt(), "parameters")):
        float(nxt().split()[0])
    for _ in range(count(nxt(), "scalar lines")):
        nxt()
    for _ in range(count(nxt(), "switches")):
        if nxt().split()[0][0] not in "TF":
            raise Bad("a switch is neither T nor F")
    if "XFAC" not in nxt():
        raise Bad("no XFAC line")
    sect(nxt(), "MESH")
    head = [int(t) for t in nxt().split()[:3]]
    nel = head[0]
    if head[1] != dim or head[2] != nel:
        raise Bad(f"mesh header {head}, dimension {dim}")
    P = np.zeros((nel, 3, dim - 1, 2, 2))
    for e in range(nel):
        line = nxt()
        t = line.split()
        if t[0] != "ELEMENT" or int(t[1]) != e + 1:
            raise Bad(f"line of element {e + 1}: {line!r}")
        for z in range(dim - 1):
            for c in range(dim):
                v = [float(t) for t in nxt().split()]
                if len(v) != 4:
                    raise Bad(f"element {e + 1} has a line of {len(v)} coordinates")
                for (y, x), val in zip([(0, 0), (0, 1), (1, 1), (1, 0)], v):
                    P[e, c, z, y, x] = val
    sect(nxt(), "CURVED SIDE")
    curves = []

    def cols(line, widths, at=0):
        out = []
        for w in widths:
            out.append(line[at: at + w])
            if len(out[-1]) != w:
                raise Bad(f"line too short: {line!r}")
            at += w
        return out, at

    for _ in range(count(nxt(), "curved sides")):
        line = nxt()
        w = [3, 3] if nel < 1000 else [2, 6] if nel < 10**6 else [2, 10]
        f, at = cols(line, w + [14] * 5)
        letter = line[at + 1: at + 2]
        if line[at: at + 1] != " " or line[at + 2:].strip():
            raise Bad(f"curvature letter not where it should be: {line!r}")
        curves.append((int(f[1]) - 1, int(f[0]) - 1, np.array([float(t) for t in f[2:]]), letter))
    sect(nxt(), "BOUNDARY CONDITIONS")
    bcs = []
    no = set()
    while True:
        line = nxt()
        if "BOUNDARY CONDITIONS" not in line:
            break
        if " NO " in line:
            no.add("THERMAL" if "THERMAL" in line else "FLUID")
            continue
        want = ["FLUID", "THERMAL"][len(bcs)] if len(bcs) < 2 else f"PASSIVE SCALAR {len(bcs) - 1:4d} "
        sect(line, want)
        if no:
            raise Bad("conditions after a section said to be absent")
        cond = {}
        for e in range(nel):
            for k in range(2 * dim):
                line = nxt()
                w = [3, 3] + [14] * 5 if nel < 1000 else [6] + [14] * 5 if nel < 10**6 else [12] + [18] * 5
                f, at = cols(line, [1, 3] + w)
                if f[0] != " " or line[at:].strip():
                    raise Bad(f"boundary condition line: {line!r}")
                ids = f[2:-5]
                n = [int(t) for t in ids]
                if nel < 1000 and n != [e + 1, k + 1] or 1000 <= nel < 10**6 and n != [e + 1]:
                    raise Bad(f"condition of element {e + 1}, face {k + 1} says {ids}")
                cond[(e, k)] = (f[1].strip(), np.array([float(t) for t in f[-5:]]))
        bcs.append(cond)
    if not bcs and "FLUID" not in no:
        raise Bad("no fluid conditions and no line saying so")
    if len(bcs) < 2 and "THERMAL" not in no:
        raise Bad("no thermal conditions and no line saying so")
    return {"dim": dim, "pos": P, "curves": curves, "bcs": bcs}


assert corners2(2) == [(0, 0, 0), (0, 0, 1), (0, 1, 1), (0, 1, 0)]
