"""Every small set of input files (location, road, major-route, closure and agent files: every kind of row, blank and
optional columns, comments and blank lines, row orders, redirection values, scale-down), loaded by the real reader into
sequential and parallel ecosystems and compared field by field with an independent reading."""
import os
from itertools import product, permutations
from mc import world as w, fakempi

MR = dict(camp_movechance=0.02, idpcamp_movechance=0.1, default_movechance=0.3, conflict_movechance=0.9)
# type as written -> (flags set, movechance)
TYPES = {
    "conflict_zone": ({"conflict"}, 0.9), "conflict": ({"conflict"}, 0.9), "camp": ({"camp"}, 0.02), "idpcamp": ({"camp", "idpcamp"}, 0.1),
    "IDPcamp": ({"camp", "idpcamp"}, 0.1), "Camp": ({"camp"}, 0.02), "town": ({"town"}, 0.3), "Town": ({"town"}, 0.3), "default": ({"town"}, 0.3),
    "forwarding_hub": ({"forward"}, 1.0), "marker": ({"marker"}, 1.0), "flood_zone": ({"flood_zone"}, 0.3),
}
HEAD = ["#name", "region", "country", "gps_x", "gps_y", "location_type", "conflict_date", "pop/cap"]
LHEAD = ["#name1", "name2", "distance", "forced_redirection"]


def put(fn, rows, noise=()):
    """rows of cells; noise: {index: [raw lines to put before row index]}"""
    noise = dict(noise)
    with open(fn, "w") as f:
        for i, r in enumerate(rows):
            for x in noise.get(i, []):
                f.write(x + "\n")
            f.write(",".join(r) + "\n")
        for x in noise.get(len(rows), []):
            f.write(x + "\n")


def load(locs, roads=(), major=None, closures=(), size=1, extra=(), lextra=(), noise=None, scale=1, agents=None):
    """Writes the files and reads them; returns [(ecosystem, returned map)] per process."""
    noise = noise or {}
    put("locations.csv", [HEAD + list(extra)] + [list(x) for x in locs], noise.get("locations", {}))
    put("routes.csv", [LHEAD + list(lextra)] + [list(x) for x in roads], noise.get("routes", {}))
    put("closures.csv", [["#type", "name1", "name2", "start", "end"]] + [list(x) for x in closures], noise.get("closures", {}))
    for fn in ("major_routes.csv", "agents.csv", "location_changes.csv"):
        if os.path.exists(fn):
            os.unlink(fn)
    if major is not None:
        put("major_routes.csv", major, noise.get("major", {}))
    if agents is not None:
        put("agents.csv", agents, noise.get("agents", {}))
    yml = dict(move_rules=MR, optimisations=dict(hasten=scale), spawn_rules=dict(take_from_population=False))

    def go(m, E):
        ig = m.IG.InputGeography()
        ig.ReadLocationsFromCSV("locations.csv")
        ig.ReadLinksFromCSV("routes.csv")
        ig.ReadClosuresFromCSV("closures.csv")
        e = E()
        e.print_location_output = False
        e, lm = ig.StoreInputGeographyInEcosystem(e)
        if agents is not None:
            ig.ReadAgentsFromCSV(e, "agents.csv")
        return e, lm

    if size == 1:
        m = w.mods()
        w.settings(**yml)
        return [go(m, m.F.Ecosystem)]
    W = fakempi.World(size)
    W.settings(**yml)
    return W.each(lambda m, r: go(m, m.P.Ecosystem))


def flags(l):
    f = {k for k in ("camp", "idpcamp", "town", "forward", "marker", "flood_zone") if getattr(l, k)}
    return f | ({"conflict"} if l.conflict > 0 else set())


def want_loc(row, home, extra, scale):
    name, region, country, x, y, typ, date, pop = row[:8]
    if "conflict" in typ and int(date) > 0:
        typ = "town"
    fl, mv = TYPES[typ]
    n = (int(pop) if pop else 0) // scale
    at = {c: v for c, v in zip(extra, row[8:])}
    country = country or "unknown"
    return dict(name=name, region=region or "unknown", country=country, x=float(x or 0), y=float(y or 0), flags=fl, movechance=mv,
                foreign=country != home, pop=0 if "camp" in fl else n, capacity=n if "camp" in fl else -1, attributes=at,
                conflict=float(at.get("conflict_intensity", 1.0)) if "conflict" in fl else None)


def got_loc(l):
    return dict(name=l.name, region=l.region, country=l.country, x=l.x, y=l.y, flags=flags(l), movechance=l.movechance, foreign=bool(l.foreign),
                pop=l.pop, capacity=l.capacity, attributes=dict(l.attributes), conflict=l.conflict if l.conflict > 0 else None)


def compare(ctx, what, locs, roads=(), major=None, closures=(), size=1, extra=(), lextra=(), noise=None, scale=1, agents=None):
    out = load(locs, roads, major, closures, size, extra, lextra, noise, scale, agents)
    home = locs[0][2] or "unknown"
    for r, (e, lm) in enumerate(out):
        want = [want_loc(x, home, extra, scale) for x in locs]
        got = [got_loc(l) for l in e.locations]
        if got != want:
            for g, v in zip(got, want):
                for k in v:
                    if g[k] != v[k]:
                        ctx.fail("%s: %s of location %s is %r, the file says %r" % (what, k, v["name"], g[k], v[k]))
            ctx.fail("%s: locations %r, expected %r" % (what, [g["name"] for g in got], [v["name"] for v in want]))
        if list(e.locationNames) != [x[0] for x in locs] or sorted(lm) != sorted(x[0] for x in locs) or any(lm[k].name != k for k in lm):
            ctx.fail("%s: the location names are %r and the returned map has %r" % (what, e.locationNames, sorted(lm)))
        # roads
        wr = []
        for x in roads:
            red = x[3] if len(x) > 3 else ""
            at = {c: v for c, v in zip(lextra, x[4:])}
            wr.append((x[0], x[1], float(x[2]), red == "2", tuple(sorted(at.items()))))
            wr.append((x[1], x[0], float(x[2]), red == "1", tuple(sorted(at.items()))))
        gr = []
        for l in e.locations:
            for k in l.links:
                if k.startpoint is not l or k.endpoint not in e.locations or k.closed:
                    ctx.fail("%s: the road %s->%s of %s is wrong or closed" % (what, k.startpoint.name, k.endpoint.name, l.name))
                gr.append((l.name, k.endpoint.name, float(k.get_distance()), bool(k.forced_redirection), tuple(sorted(k.attributes.items()))))
            if l.closed_links:
                ctx.fail("%s: closed roads at %s" % (what, l.name))
        if sorted(gr) != sorted(wr):
            ctx.fail("%s: the roads (from, to, km, redirection, attributes) are %r, the files say %r" % (what, sorted(gr), sorted(wr)))
        v, ed = e.export_graph()
        if list(v) != [x[0] for x in locs] or sorted(map(tuple, ed)) != sorted(x[:3] for x in wr):
            ctx.fail("%s: exported graph %r %r" % (what, v, ed))
        # nothing shared
        objs = list(e.locations) + [k for l in e.locations for k in l.links]
        if len({id(o.attributes) for o in objs}) != len(objs):
            before = [dict(o.attributes) for o in objs]
            for i, o in enumerate(objs):
                o.attributes["probe"] = i
                bad = [j for j, p in enumerate(objs) if j != i and p.attributes.get("probe") == i]
                if bad:
                    ctx.fail("%s: setting an attribute of %s also sets it on %s" % (what, ident(o), ident(objs[bad[0]])))
                del o.attributes["probe"]
            assert before == [dict(o.attributes) for o in objs]
        # major routes
        wm = {x[0]: [] for x in locs}
        for row in major or []:
            row = [c for c in row if c]
            if row[0] in wm:
                wm[row[0]].append(row[1:])
            if row[-1] in wm:
                wm[row[-1]].append(row[-2::-1])
        for l in e.locations:
            if sorted(map(list, l.major_routes)) != sorted(wm[l.name]):
                ctx.fail("%s: major routes of %s are %r, the file says %r" % (what, l.name, l.major_routes, wm[l.name]))
        wc = [[c[0], c[1], c[2], int(c[3]), int(c[4])] for c in closures]
        if [list(c) for c in e.closures] != wc:
            ctx.fail("%s: closures %r, the file says %r" % (what, e.closures, wc))
        ctx.transitions += len(objs) + 1
    # agents, over all processes
    got = sorted((a.location.name, tuple(sorted(a.attributes.items()))) for e, _ in out for a in e.agents)
    names = {x[0] for x in locs}
    want = sorted((a[0], tuple(sorted(zip(agents[0][1:], a[1:])))) for a in (agents or [])[1:] if a[0] in names)
    if got != want:
        ctx.fail("%s: the agents are %r, the file says %r" % (what, got, want))
    ctx.state((what,))
    ctx.traces += 1


def ident(o):
    return o.name if hasattr(o, "name") and not hasattr(o, "endpoint") else "%s->%s" % (o.startpoint.name, o.endpoint.name)


def c_location(ctx, typ, size):
    """One row in every form behind or in front of another one."""
    for date, pop, scale, region, country, xy, hc, ex, first in product(
            ("0", "3") if "conflict" in typ else ("", "0"), ("", "0", "7", "100"), (1, 10), ("", "R"), ("", "X", "Y"),
            (("", ""), ("1.5", "-2"), ("0", "170.25")), ("", "X"), ((), ("a",), ("conflict_intensity", "b")), (True, False)):
        if size > 1 and (scale == 1 or pop == "0" or xy[0] == "0"):
            continue
        val = {"a": "u", "b": "5", "conflict_intensity": "0.5"}
        row = ["N", region, country, xy[0], xy[1], typ, date, pop] + [val[c] for c in ex]
        other = ["M", "S", hc, "3", "4", "town", "0", "20"] + ["0.25" if c == "conflict_intensity" else "w" for c in ex]
        locs = [other, row] if first else [row, other]
        what = "%s%r home %r scale %d, %d process(es)" % ("second row " if first else "first row ", row, hc, scale, size)
        compare(ctx, what, locs, extra=ex, scale=scale, size=size)
        if ex and pop and size == 1:
            # rows that stop before the extra columns
            for k in (0, 1):
                for n in range(8, 8 + len(ex)):
                    short = [x[:n] if i == k else x for i, x in enumerate(locs)]
                    compare(ctx, "%s, row %d only %d cells" % (what, k, n), short, extra=ex, scale=scale, size=size)


def c_order(ctx, size):
    """Row orders, comments and blank lines."""
    rows = [["A", "r", "X", "1", "2", "conflict_zone", "0", "100", "0.5"], ["B", "r", "X", "3", "4", "town", "0", "", "1"],
            ["C", "", "Y", "5", "6", "camp", "0", "50", "2"]]
    for p in permutations(rows):
        for where in range(5):
            for lines in (["#comment"], [""], ["#A,r,X,9,9,camp,0,1"], ["", "#x", ""]):
                if where == 0 and "," in lines[0]:
                    continue
                compare(ctx, "rows %r with %r before line %d, %d process(es)" % ([x[0] for x in p], lines, where, size), [list(x) for x in p],
                      roads=[["A", "B", "100", "0"], ["B", "C", "50.5", "0"]], extra=("conflict_intensity",), size=size,
                      noise=dict(locations={where: lines}, routes={min(where, 3): lines[:1]}))


LOCS = [["A", "r", "X", "1", "2", "conflict_zone", "0", "100"], ["B", "r", "X", "3", "4", "town", "0", "10"], ["C", "r", "Y", "5", "6", "camp", "0", "50"],
        ["AB", "r", "Y", "7", "6", "camp", "0", "50"]]


def c_roads(ctx, n, size):
    pairs = list(permutations("ABC", 2)) + [("AB", "A"), ("B", "AB")]
    if n == 2:
        pairs = [("A", "B"), ("B", "A"), ("B", "C"), ("AB", "B")]
    one = []
    for (a, b), red, at in product(pairs, (None, "", "0", "1", "2"), ((), ("v",), ("v", "2.5"))):
        if red is None and at:
            continue
        one.append([a, b, "100"] + ([] if red is None else [red]) + list(at))
    for j, combo in enumerate(product(one, repeat=n)):
        ex = (("p", "q"), ("r", "p"))[j % 2][:max(max(0, len(x) - 4) for x in combo)]
        rs = [list(x) for x in combo]
        for i, x in enumerate(rs):
            x[2] = ["100", "37.5"][i]
        if n == 2 and size > 1 and ex:
            continue
        compare(ctx, "roads %r, %d process(es)" % (rs, size), LOCS, roads=rs, lextra=ex, size=size)
        if n == 1:
            for at, line in product((0, 1, 2), ("#A,B,5,0", "", "#")):
                if at == 0 and ex:
                    continue
                compare(ctx, "roads %r with %r before line %d, %d process(es)" % (rs, line, at, size), LOCS, roads=rs, lextra=ex, size=size,
                      noise=dict(routes={at: [line]}))


def c_missing(ctx, size):
    """A road row to or from a place that is not there: no road may come of it elsewhere."""
    for no in ("a", "BA", "ABA", "A ", "", "nowhere"):
        for rows in ([[no, "B"]], [["B", no]], [["A", "C"], [no, "AB"]], [[no, no]]):
            what = "roads %r, of which %r is not a location, %d process(es)" % (rows, no, size)
            try:
                out = load(LOCS, [x + ["100", "0"] for x in rows], size=size)
            except (SystemExit, KeyError, ValueError, IndexError):
                continue                                    # refused
            for e, _ in out:
                got = sorted((l.name, k.endpoint.name) for l in e.locations for k in l.links)
                want = sorted(y for a, b in rows for y in ((a, b), (b, a)) if no not in (a, b))
                if got != want:
                    ctx.fail("%s: the roads are %r, expected %r" % (what, got, want))
            ctx.transitions += 1
            ctx.state((what,))


def c_major(ctx, size):
    routes = [["A", "B"], ["A", "B", "C"], ["C", "B", "AB"], ["AB", "A", "B", "C"]]
    for k in (0, 1, 2):
        for combo in product(routes, repeat=k):
            for pad in ([], [""], ["", ""]):
                for at, line in [(0, None)] + list(product(range(k + 1), ("#A,C", "", "#"))):
                    rows = [list(x) + (pad if i == 0 else []) for i, x in enumerate(combo)]
                    compare(ctx, "major routes %r with %r before line %d, %d process(es)" % (rows, line, at, size), LOCS,
                          roads=[["A", "B", "10", "0"]], major=rows, size=size, noise={} if line is None else dict(major={at: [line]}))


def c_closures(ctx, size):
    cl = [["country", "X", "Y", "0", "-1"], ["link", "A", "B", "3", "10"], ["location", "B", "", "12", "0"]]
    for k in (0, 1, 2):
        for combo in product(cl, repeat=k):
            for at, line in [(0, None)] + list(product(range(k + 2), ("#country,X,Y,1,2", "", "#"))):
                compare(ctx, "closures %r with %r before line %d, %d process(es)" % (combo, line, at, size), LOCS, closures=combo, size=size,
                      noise={} if line is None else dict(closures={at: [line]}))


def c_agents(ctx, size):
    for heads, vals in (([], []), (["age"], [["30"], ["4"]]), (["age", "sex", "note"], [["30", "m", ""], ["4", "f", "x y"]])):
        for k in (0, 1, 2, 3):
            for combo in product(("A", "C", "AB", "nowhere"), repeat=k):
                rows = [["location"] + heads] + [[c] + (vals[i % 2] if vals else []) for i, c in enumerate(combo)]
                noises = [(0, None)] if k == 3 else [(0, None)] + list(product(range(k + 2), ("#A,1", "", "#")))
                for at, line in noises:
                    compare(ctx, "agents %r with %r before line %d, %d process(es)" % (rows, line, at, size), LOCS, agents=rows, size=size,
                          noise={} if line is None else dict(agents={at: [line]}))


def check(ctx):
    sizes = (1, 2) if not ctx.thorough else (1, 2, 3)
    items = []
    for s in sizes:
        for t in TYPES:
            items.append(("location type %s, %d process(es)" % (t, s), c_location, t, s))
        for n in (1, 2):
            items.append(("%d road rows, %d process(es)" % (n, s), c_roads, n, s))
        items.append(("row order and comments, %d process(es)" % s, c_order, s))
        items.append(("missing places, %d process(es)" % s, c_missing, s))
        items.append(("major routes, %d process(es)" % s, c_major, s))
        items.append(("closures, %d process(es)" % s, c_closures, s))
        items.append(("agents, %d process(es)" % s, c_agents, s))

    def batch(c, part, parts):
        for x in items[part::parts]:
            c.case(x[0], x[1], c, *x[2:])
    ctx.batches(batch, 48)
    ctx.bounds = dict(processes=list(sizes), location_rows="1 varied of 2, 12 types, blanks, 0-2 extra columns, scale 1 and 10; all orders of 3",
                      road_rows="1 (all pairs) and 2 (4 pairs), redirection absent/blank/0/1/2, 0-2 attributes", major_routes="0-2 rows, padded",
                      closures="0-2 rows", agents="0-3 rows, 0-3 attributes, unknown locations", comments="comment or blank line before every line")
