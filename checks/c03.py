"""Multi-leg days on one-way chains of roads: an odometer monitor compares the distance covered in every
time step with the day's maximum, for every chain of lengths, speed setting and random outcome; the
stop/continue decision in towns is enumerated too."""
from itertools import product
from mc import world as w
from mc.chance import Explorer

KEY = "later legs of a day get a full day's travel"


def run(ctx, lengths, speed, own, types, stints, foot, days):
    m = w.mods()
    w.settings(move_rules=dict(max_move_speed=speed, max_walk_speed=30.0, camp_movechance=0.0,
                               default_movechance=0.5, avoid_short_stints=stints, start_on_foot=foot))
    names = ("Kab", "Ka", "KabKa", "KaKab", "KaKa")[: len(lengths) + 1]
    start = dict(zip(names, [sum(lengths[:i]) for i in range(len(names))]))
    over = []

    def odo(a):
        l = a.location
        if hasattr(l, "startpoint"):
            return start[l.startpoint.name] + float(a.distance_travelled_on_link)
        return start[l.name]

    def go():
        locs = [dict(name="Kab", location_type="conflict_zone")]
        for i in range(1, len(names) - 1):
            locs.append(dict(name=names[i], location_type=types[i - 1]))
        locs.append(dict(name=names[-1], location_type="camp"))
        e = w.build(locs, [])
        for i, L in enumerate(lengths):
            at = {} if own[i] is None else {"max_move_speed": own[i]}
            e.linkUp(names[i], names[i + 1], float(L), attributes=at)
            l = w.loc(e, names[i + 1])
            l.links[:] = [k for k in l.links if k.endpoint.name != names[i]]
        a = w.add(e, "Kab")
        res = []
        for t in range(days):
            before = odo(a)
            waslink = a.location if hasattr(a.location, "startpoint") else None
            e.evolve()
            res.append((before, odo(a), a.location.name))
        return res
    ex = Explorer()
    known = None
    for p, res, trace in ex.explore(go):
        ctx.transitions += days
        for before, after, where in res:
            ctx.state((lengths, speed, own, stints, before, after, where))
            # roads touched that day and the fastest speed allowed on them
            tops, cum, ok = [], 0.0, True
            for i, L in enumerate(lengths):
                s0, s1 = start[names[i]], start[names[i + 1]]
                lo, hi = max(before, s0), min(after, s1)
                if hi > lo or (L == 0 and before <= s0 <= after):
                    sp = 30.0 if foot and i == 0 else speed if own[i] is None else own[i]
                    if tops and cum >= tops[-1]:
                        ok = False  # nothing of the day was left for this leg
                    if hi - lo > sp:
                        ok = False
                    tops.append(sp)
                    cum += hi - lo
            ctx.expect(after >= before, "agent moved backwards: %r", res)
            limit = max(tops) if tops else 0.0
            if after - before > limit + 1e-6:
                # every leg on its own is within the day's travel: the known over-speeding
                if len(tops) > 1 and ok:
                    known = "roads %r speed %r: %.1f km in one day" % (lengths, speed, after - before)
                else:
                    ctx.fail("%.3f km covered in a day with maximum %.3f: roads %r, daily (from, to, place) %r"
                             % (after - before, limit, lengths, res))
    ctx.traces += ex.paths
    if known:
        ctx.fail(known, KEY)


def check(ctx):
    days = 4 if ctx.thorough else 3
    L = (40.0, 100.0, 101.0, 250.0) if not ctx.thorough else (0.5, 40.0, 60.0, 99.0, 100.0, 101.0, 250.0)
    for n in (1, 2, 3):
        for lengths in product(L, repeat=n):
            for stints, foot in product((False, True), repeat=2):
                for own in sorted({(None,) * n, (None,) * (n - 1) + (50.0,), (50.0,) + (None,) * (n - 1),
                                   (None,) * (n - 1) + (20.0,), (None,) + (35.0,) * (n - 1) if n < 3 else (None, 35.0, None),
                                   (41.0,) * n}, key=repr):
                    for types in (("town",) * (n - 1), ("forwarding_hub",) * (n - 1)):
                        if n == 1 and types and False:
                            continue
                        args = (lengths, 100.0, own, types, stints, foot, days)
                        ctx.case("%s" % (args,), run, ctx, *args)
    ctx.bounds = dict(days=days, roads=3)
