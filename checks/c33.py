"""Great-circle distances for every pair of positions on grids (poles, date line, antipodes, tiny separations) and error
measures for every small table of counts, against independent formulas in exact arithmetic."""
import math
import math
import os
from fractions import Fraction as Fr
from itertools import product
from mc import env, fakempi, world as w

R = 6371.0


def km(p, q):
    """Great-circle distance by vector algebra."""
    def vec(lon, lat):
        # whole and quarter turns exactly
        lon = math.fmod(lon, 360.0)
        a, b = math.radians(lon), math.radians(lat)
        return (math.cos(b) * math.cos(a), math.cos(b) * math.sin(a), math.sin(b))
    u, v = vec(*p), vec(*q)
    c = (u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0])
    return R * math.atan2(math.sqrt(sum(x * x for x in c)), sum(x * y for x, y in zip(u, v)))


def built(m, pts):
    """Places of a real ecosystem."""
    e = m.F.Ecosystem()
    e.print_location_output = False
    for i, p in enumerate(pts):
        e.addLocation(name="P%d" % i, x=float(p[0]), y=float(p[1]), location_type="town")
    return e.locations


def opposite(ctx, step, part, parts):
    """Points and their opposite points."""
    w.settings(move_rules={})
    m = w.mods()
    a, b = built(m, [(0, 0), (0, 0)])
    for k in range(part, int(90 / step) + 1, parts):
        lat = k * step
        for lon in (0.0, 10.0, 33.3, 180.0):
            a.x, a.y, b.x, b.y = lon, lat, lon - 180.0, -lat
            for g in (a.calculateDistance(b), b.calculateDistance(a)):
                if not abs(g - math.pi * R) <= 1.0:
                    ctx.fail("the distance from %r, %r to the opposite point is %r" % (lon, lat, g))
            ctx.transitions += 2
            ctx.nstates += 1
    ctx.traces += 1


def distances(ctx, what, pts, part, parts, par):
    if par:
        W = fakempi.World(1)
        W.settings(move_rules={})
        m = W.m[0]
    else:
        w.settings(move_rules={})
        m = w.mods()
    ls = built(m, pts)
    for i in range(part, len(pts), parts):
        for j in range(i, len(pts)):
            got, back, want = ls[i].calculateDistance(ls[j]), ls[j].calculateDistance(ls[i]), km(pts[i], pts[j])
            ctx.transitions += 2
            # close to the opposite point of the globe rounding of the sine costs half the digits
            tol = 1e-7 * want + 1e-6 if want < 0.9 * math.pi * R else 1.0
            if want < 1e-3:
                tol = 1e-4
            for g in (got, back):
                if not (isinstance(float(g), float) and abs(float(g) - want) <= tol):
                    ctx.fail("%s: the distance between %r and %r is %r, expected %r" % (what, pts[i], pts[j], g, want))
            if pts[i] == pts[j] and got != 0.0:
                ctx.fail("%s: the distance of %r to itself is %r" % (what, pts[i], got))
    ctx.nstates += len(range(part, len(pts), parts)) * len(pts) // 2
    ctx.traces += 1


def close(ctx, what, got, want, digits=4):
    """got is want rounded to the given digits (either way at a tie)."""
    g = Fr(float(got))
    if abs(g - want) > Fr(1, 2 * 10 ** digits) + abs(want) * Fr(1, 10 ** 12) + Fr(1, 10 ** 12):
        ctx.fail("%s: got %r, expected %.6f" % (what, got, float(want)))
    if abs(g * 10 ** digits - round(g * 10 ** digits)) > Fr(1, 10 ** 4) * max(1, abs(g)):
        ctx.fail("%s: %r is not rounded to %d digits" % (what, got, digits))


VALS = [0, 1, 2, 3, 7, 10, 99, 100, 1000, 123457]


def single(ctx, A):
    import numpy as np
    for v, c in product(VALS, VALS + [0.5, 2.25, 1e-6, 0.001]):
        for cast in (int, np.int32) + (() if os.environ.get("FLEE_TYPE_CHECK") else (np.int64,)):
            x = cast(v)
            close(ctx, "rel_error(%r, %r)" % (x, c), A.rel_error(x, c), abs(Fr(v) / Fr(c) - 1) if c >= 1e-5 else Fr(0))
            close(ctx, "abs_error(%r, %r)" % (x, c), A.abs_error(x, c), abs(Fr(v) - Fr(c)))
            ctx.transitions += 2
        ctx.state((v, c))
    ctx.traces += 1


def arrays(ctx, A, n, vals, part, parts):
    import numpy as np
    for k, (f, c) in enumerate(product(product(vals, repeat=n), repeat=2)):
        if k % parts != part:
            continue
        for typ in (int, float):
            a, b = np.array(f, dtype=typ), np.array(c, dtype=typ)
            what = "%r against %r" % (f, c)
            d = A.abs_diffs(a, b)
            if len(d) != n:
                ctx.fail("abs_diffs of %s has %d values" % (what, len(d)))
            for x, y, z in zip(d, f, c):
                close(ctx, "abs_diffs of " + what, x, abs(Fr(y) - Fr(z)))
            close(ctx, "mean_abs_diffs of " + what, A.mean_abs_diffs(a, b), sum((abs(Fr(y) - Fr(z)) for y, z in zip(f, c)), Fr(0)) / n)
            if min(f + c) > 0:
                g = float(A.calculate_ln_accuracy_ratio(a, b))
                x = math.fsum(abs(math.log(y / z)) for y, z in zip(f, c)) / n
                if abs(g - x) > 0.5e-4 + 1e-9:
                    ctx.fail("mean absolute log ratio of %s: got %r, expected %.6f" % (what, g, x))
            if list(a) != list(f) or list(b) != list(c):
                ctx.fail("the arrays were changed: %s" % what)
        ctx.transitions += 2
        ctx.nstates += 1
    ctx.traces += 1


def scaled(ctx, A, n, start, vals, part, parts):
    import numpy as np
    for k, (f, c, v) in enumerate(product(product(vals, repeat=n), repeat=3)):
        if k % parts != part:
            continue
        base = [abs(Fr(x) - Fr(y)) for x, y in zip(c, v)][start + 1:]
        if not sum(base):
            continue
        want = (sum(abs(Fr(x) - Fr(y)) for x, y in zip(f, c)) / n) / (sum(base) / len(base))
        for typ in (lambda x: np.array(x, dtype=float), lambda x: np.array(x, dtype=int), list):
            close(ctx, "calculate_MASE of %r, data %r, naive model %r, start %d" % (f, c, v, start), A.calculate_MASE(typ(f), typ(c), typ(v), start), want)
            if (list(typ(f)), list(typ(c)), list(typ(v))) != (list(f), list(c), list(v)):
                ctx.fail("the arrays were changed")
        ctx.transitions += 1
        ctx.nstates += 1
    ctx.traces += 1


def validation(ctx, camps, days, vals, part, parts):
    """The errors of a whole simulation: per camp, and added up over the camps."""
    import numpy as np
    import pandas as pd
    from flee.postprocessing import plot_flee_output as O
    cells = camps * days
    for k, x in enumerate(product(vals, repeat=2 * cells)):
        if k % parts != part:
            continue
        sim = [x[i * days:(i + 1) * days] for i in range(camps)]
        dat = [x[cells + i * days:cells + (i + 1) * days] for i in range(camps)]
        st = [sum(s[t] for s in sim) for t in range(days)]
        ut = [sum(s[t] for s in dat) for t in range(days)]
        names = ["Camp %d" % i if i else "A" for i in range(camps)]
        df = {}
        for n, s, d in zip(names, sim, dat):
            df["%s sim" % n], df["%s data" % n] = s, d
        df["refugees in camps (simulation)"], df["refugees in camps (UNHCR)"] = st, ut
        df = pd.DataFrame(df)
        ls = [O.error_quantification("", df, n, naieve_model=False) for n in names]
        se = O.SimulationErrors(location_errors=ls)
        what = "simulated %r, data %r" % (sim, dat)
        tot = [[Fr(0)] * days, [Fr(0)] * days]
        for i, l in enumerate(ls):
            for t in range(days):
                d = abs(Fr(sim[i][t]) - dat[i][t])
                r = Fr(sim[i][t] * ut[t], st[t]) if st[t] > 0 else Fr(0)
                close(ctx, "absolute difference, " + what, l.errors["absolute difference"][t], d)
                g = Fr(float(l.errors["absolute difference rescaled"][t]))
                # the rescaled count may be kept as a whole number of people
                if min(abs(g - abs(r - dat[i][t])), abs(g - abs(int(r) - dat[i][t]))) > Fr(1, 10000):
                    ctx.fail("rescaled difference, %s: camp %d, day %d: %r, expected %.4f" % (what, i, t, float(g), float(abs(r - dat[i][t]))))
                if abs(Fr(float(l.errors["ratio difference"][t])) - d / max(1, ut[t])) > Fr(1, 10 ** 9):
                    ctx.fail("ratio difference, %s: camp %d, day %d: %r, expected %.6f" % (what, i, t, l.errors["ratio difference"][t], float(d / max(1, ut[t]))))
                tot[0][t] += d
                tot[1][t] += g
        for rescaled in (False, True):
            got = se.abs_diff(rescaled=rescaled)
            for t in range(days):
                close(ctx, "total difference (rescaled %r), %s" % (rescaled, what), got[t], tot[rescaled][t])
        for i, l in enumerate(ls):
            l.errors["N"], l.errors["E"] = i + 1, float(sim[i][0])
        e = se.get_error("E")
        if abs(Fr(float(e)) - Fr(sum((i + 1) * sim[i][0] for i in range(camps)), sum(range(1, camps + 1)))) > Fr(1, 10 ** 9):
            ctx.fail("error averaged by size, %s: %r" % (what, e))
        ctx.transitions += 1
        ctx.nstates += 1
    ctx.traces += 1


def check(ctx):
    import numpy as np
    np.seterr(all="ignore")
    from flee.postprocessing import analysis as A
    th = ctx.thorough
    step = 5 if th else 15
    globe = [(x, y) for x in range(-180, 361, step) for y in range(-90, 91, step)]
    near = [(lon + dx, lat + dy) for lon, lat in ((0.0, 0.0), (179.9999, 10.0), (30.5, 89.9999), (-75.25, -33.5)) for dx in (0.0, 1e-6, 1e-4, 0.01, 0.5) for dy in (0.0, 1e-6, 1e-4, 0.01, 0.5)
            if lat + dy <= 90]
    odd = [(x + 0.37, y) for x in (0, 13, 90, 180, 193, 270, -167) for y in (-77.7, -45.1, -10.3, 10.3, 45.1, 77.7)]
    items = []
    for p in range(16):
        items.append(("positions of the globe, part %d" % p, distances, "globe", globe, p, 16, False))
    items.append(("nearby positions", distances, "nearby", near, 0, 1, False))
    items.append(("opposite positions", distances, "opposite", odd, 0, 1, False))
    items.append(("positions of the globe, parallel", distances, "parallel", globe[::7], 0, 1, True))
    items.append(("opposite positions, parallel", distances, "parallel", odd, 0, 1, True))
    for p in range(4):
        items.append(("opposite points, part %d" % p, opposite, 0.0001 if th else 0.01, p, 4))
    items.append(("single values", single, A))
    for n, vals in ((1, VALS), (2, [0, 1, 5, 12]), (3, [0, 1, 4])) + (((4, [0, 1, 3]), (2, VALS)) if th else ()):
        for p in range(4):
            items.append(("arrays of %d out of %d values, part %d" % (n, len(vals), p), arrays, A, n, vals, p, 4))
    for n, start, vals in ((2, 0, [0, 1, 3, 10]), (3, 0, [0, 1, 4]), (3, 1, [0, 1, 4])) + (((4, 1, [0, 1, 3]), (4, 0, [0, 1, 3])) if th else ()):
        for p in range(8):
            items.append(("scaled errors of %d days from day %d, part %d" % (n, start, p), scaled, A, n, start, vals, p, 8))
    for camps, days, vals in ((1, 1, [0, 1, 2, 7]), (1, 2, [0, 1, 5]), (2, 1, [0, 1, 5]), (2, 2, [0, 3])) + (((3, 1, [0, 1, 5]), (2, 2, [0, 1, 3])) if th else ()):
        for p in range(4):
            items.append(("validation errors of %d camps on %d days, %d values, part %d" % (camps, days, len(vals), p), validation, camps, days, vals, p, 4))

    def batch(c, part, parts):
        for x in items[part::parts]:
            c.case(x[0], x[1], c, *x[2:])
    ctx.batches(batch, 48)
    ctx.bounds = dict(grid_degrees=step, positions=len(globe) + len(near) + len(odd), array_length=4 if th else 3, counts="0-123457", camps=2, days=2)
