"""Every documented setting alone with several values, every pair of settings, every section present, empty or absent, and
every ordered pair of configuration files read in one process: what the real reader stores against a table of the
documentation, written as an independent interpreter of a configuration."""
import os
from itertools import combinations, product
import yaml
from mc import world as w

SQ = 1.0 / 3.16227766017
B = (True, False)


def F(k, name, default, *vals):
    return ("move_rules", k, ("move_rules", name), default, vals)


TABLE = [
    ("log_levels", "agent", ("log_levels", "agent"), 0, (1, 2, 3)),
    ("log_levels", "link", ("log_levels", "link"), 0, (1, 2)),
    ("log_levels", "camp", ("log_levels", "camp"), 0, (1,)),
    ("log_levels", "init", ("log_levels", "init"), 0, (1,)),
    ("log_levels", "conflict", ("log_levels", "conflict"), 0, (1,)),
    ("log_levels", "idp_totals", ("log_levels", "idp_totals"), 0, (1,)),
    ("log_levels", "granularity", ("log_levels", "granularity"), "location", ("region", "location")),
    ("spawn_rules", "take_from_population", ("spawn_rules", "TakeFromPopulation"), False, B),
    ("spawn_rules", "insert_day0", ("spawn_rules", "InsertDayZeroRefugeesInCamps"), True, B),
    ("spawn_rules", "empty_camps_on_day0", ("spawn_rules", "EmptyCampsOnDay0"), False, B),
    ("spawn_rules", "conflict_zone_spawning_only", ("spawn_rules", "conflict_zone_spawning_only"), True, B),
    ("spawn_rules", "flood_zone_spawning_only", ("spawn_rules", "flood_zone_spawning_only"), False, B),
    ("spawn_rules", "camps_are_sinks", ("spawn_rules", "camps_are_sinks"), False, B),
    ("spawn_rules", "read_from_agents_csv_file", ("spawn_rules", "read_from_agents_csv_file"), False, B),
    ("spawn_rules", "sum_from_camps", ("spawn_rules", "sum_from_camps"), True, B),
    ("spawn_rules", "conflict_spawn_decay", ("spawn_rules", "conflict_spawn_decay"), None, ([1.0, 1.0, 1.0, 0.5, 0.1], [0.5])),
    ("spawn_rules", "conflict_spawn_decay_interval", ("spawn_rules", "conflict_spawn_decay_interval"), 30, (7, 1)),
    ("spawn_rules", "conflict_driven_spawning", None, None,
     (dict(spawn_mode="pop_ratio", displaced_per_conflict_day=0.25), dict(spawn_mode="constant", displaced_per_conflict_day=40),
      dict(spawn_mode="poisson", displaced_per_conflict_day=0.5), dict(spawn_mode="Poisson"), dict(spawn_mode="pop_ratio"),
      dict(displaced_per_conflict_day=3))),
    ("spawn_rules", "flood_driven_spawning", None, None,
     (dict(spawn_mode="pop_ratio", displaced_per_flood_day=[0.0, 0.4]), dict(flood_spawn_mode="constant", displaced_per_flood_day=[0, 7]),
      dict(flood_spawn_mode="pop_ratio"), dict(spawn_mode="poisson"))),
    F("max_move_speed", "MaxMoveSpeed", 360.0, 200.0, 5000), F("max_walk_speed", "MaxWalkSpeed", 35.0, 20.5), F("max_crossing_speed", "MaxCrossingSpeed", 20.0, 5.0),
    F("foreign_weight", "ForeignWeight", 1.0, 2.5, 0.0), F("camp_weight", "CampWeight", 1.0, 3.0), F("conflict_weight", "ConflictWeight", SQ, 0.25, 0.0),
    F("conflict_movechance", "ConflictMoveChance", 1.0, 0.75, 0.0), F("camp_movechance", "CampMoveChance", 0.001, 0.02, 0.0),
    F("idpcamp_movechance", "IDPCampMoveChance", 0.1, 0.4, 0.0), F("default_movechance", "DefaultMoveChance", 0.3, 0.6, 0.0),
    F("awareness_level", "AwarenessLevel", 1, -1, 0, 2, 3), F("capacity_buffer", "CapacityBuffer", 0.9, 0.5), F("capacity_scaling", "CapacityScaling", 1.0, 1.25, 10),
    F("avoid_short_stints", "AvoidShortStints", False, *B), F("start_on_foot", "StartOnFoot", False, *B), F("softening", "DistanceSoftening", 10.0, 0.0, 2.5),
    F("weight_softening", "WeightSoftening", 0.0, 0.2), F("weight_power", "WeightPower", 1.0, 0.0, 2.0), F("distance_power", "DistancePower", 1.0, 0.0, 2.0),
    F("stay_close_to_home", "StayCloseToHome", False, *B), F("home_distance_power", "HomeDistancePower", 0.5, 1.0),
    F("use_pop_for_loc_weight", "UsePopForLocWeight", False, *B), F("pop_power_for_loc_weight", "PopPowerForLocWeight", 0.1, 0.3),
    F("movechance_pop_base", "MovechancePopBase", 10000.0, 500), F("movechance_pop_scale_factor", "MovechancePopScaleFactor", 0.0, -0.5, 1.0),
    F("pruning_threshold", "PruningThreshold", 1.0, 0.5, 2.0), F("fixed_routes", "FixedRoutes", False, *B),
    F("flood_rules", None, None, dict(max_flood_level=4, flood_movechances=[0.3, 0.4, 0.7, 1.0, 1.0], flood_loc_weights=[1.0, 0.5, 0.2, 0.0, 0.0]),
      dict(flood_forecaster=True, flood_forecaster_timescale=5, flood_forecaster_end_time=9, flood_forecaster_weights=[1.0, 0.9],
           flood_awareness_weights=[0.0, 0.5, 1.0], flood_movechances=[0.0, 1.0], flood_loc_weights=[1.0, 0.1], max_flood_level=1)),
    F("max_flood_level", None, None, 4), F("flood_movechances", None, None, [0.3, 0.9]), F("flood_loc_weights", None, None, [1.0, 0.6]),
    ("optimisations", "hasten", ("optimisations", "PopulationScaleDownFactor"), 1, (5, 100)),
    (None, "number_of_steps", ("return", ""), -1.0, (30, 1)),
    (None, "conflict_input_file", ("attr", "ConflictInputFile"), "", ("conflicts.csv",)),
    (None, "flood_level_input_file", ("attr", "FloodLevelInputFile"), "", ("flood_level.csv",)),
]
V1 = ("move_rules", "use_v1_rules", ("attr", "UseV1Rules"), False, B)
FLOOD = [("max_flood_level", ("spawn_rules", "MaxFloodLevel"), -1), ("flood_movechances", ("move_rules", "FloodMovechances"), None),
         ("flood_loc_weights", ("move_rules", "FloodLocWeights"), None), ("flood_forecaster", ("move_rules", "FloodForecaster"), False),
         ("flood_forecaster_timescale", ("move_rules", "FloodForecasterTimescale"), 0), ("flood_forecaster_weights", ("move_rules", "FloodForecasterWeights"), None),
         ("flood_forecaster_end_time", ("move_rules", "FloodForecasterEndTime"), 0), ("flood_awareness_weights", ("move_rules", "FloodAwarenessWeights"), None)]


def setting(sec, key, val):
    return {sec: {key: val}} if sec else {key: val}


def merge(*cs):
    out = {}
    for c in cs:
        for k, v in c.items():
            if isinstance(v, dict) and k in ("log_levels", "spawn_rules", "move_rules", "optimisations"):
                out.setdefault(k, {}).update(v)
            else:
                out[k] = v
    return out


def want(cfg):
    """What the configuration means: {storage: value}, or None when it is refused."""
    out = {}
    for sec, key, st, default, _ in TABLE + [V1]:
        if st is None:
            continue
        src = (cfg.get(sec) or {}) if sec else cfg
        if st[1] is not None:
            out[st] = src.get(key, default)
    sp, mv = cfg.get("spawn_rules") or {}, cfg.get("move_rules") or {}
    flood = out["spawn_rules", "flood_zone_spawning_only"]
    if out["spawn_rules", "conflict_zone_spawning_only"] and flood:
        return None
    cd, fd = sp.get("conflict_driven_spawning"), sp.get("flood_driven_spawning")
    out["spawn_rules", "conflict_driven_spawning"] = (not flood) and cd is not None
    out["spawn_rules", "flood_driven_spawning"] = flood and fd is not None
    out["move_rules", "FloodRulesEnabled"] = flood and fd is not None
    if not flood and cd is not None:
        mode = cd.get("spawn_mode", "constant")
        out["spawn_rules", "conflict_spawn_mode"] = mode
        out["spawn_rules", "displaced_per_conflict_day"] = cd.get("displaced_per_conflict_day", 0.01 if mode == "pop_ratio" else 500)
    if flood and fd is not None:
        if not out["spawn_rules", "TakeFromPopulation"]:
            return None
        mode = fd.get("flood_spawn_mode", fd.get("spawn_mode", "pop_ratio"))
        out["spawn_rules", "flood_spawn_mode"] = mode
        out["spawn_rules", "displaced_per_flood_day"] = fd.get("displaced_per_flood_day", [0.0, 0.1, 0.2, 0.5, 0.9] if mode == "pop_ratio" else [0, 100, 200, 300, 500])
    fr = mv.get("flood_rules")
    if fr is None and any(k in mv for k in ("max_flood_level", "flood_movechances", "flood_loc_weights")):
        fr = mv
    if fr is not None:
        out["move_rules", "FloodRulesEnabled"] = True
        for k, st, d in FLOOD:
            out[st] = fr.get(k, d)
    if out["attr", "UseV1Rules"]:
        out.update({("move_rules", "MaxMoveSpeed"): 200, ("move_rules", "StartOnFoot"): False, ("move_rules", "AvoidShortStints"): False,
                    ("move_rules", "CampWeight"): 2.0, ("move_rules", "ConflictWeight"): 0.25})
    return out


_n = [0]
_files = {}


def read(cfg, text=None):
    """The stored settings after reading the file: (return value, state), or "refused"."""
    S = w.mods().S
    t = text if text is not None else yaml.safe_dump(cfg)
    if t not in _files:
        _files[t] = "c24_%d.yml" % len(_files)
        with open(_files[t], "w") as f:
            f.write(t)
    try:
        r = S.ReadFromYML(_files[t])
    except SystemExit:
        return "refused"
    return r, state()


def state():
    S = w.mods().S
    st = {}
    for sec in ("log_levels", "spawn_rules", "move_rules", "optimisations"):
        for k, v in getattr(S, sec).items():
            st[sec, k] = v
    for k in ("ConflictInputFile", "FloodLevelInputFile", "UseV1Rules"):
        st["attr", k] = getattr(S, k)
    return st


def clean():
    S = w.mods().S
    S.log_levels, S.spawn_rules, S.move_rules, S.optimisations = {}, {}, {}, {}


def same(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    return a == b


def compare(ctx, what, got, cfg):
    exp = want(cfg)
    if exp is None:
        if got != "refused":
            ctx.fail("%s: this unsupported combination is accepted" % what)
        return
    if got == "refused":
        ctx.fail("%s: this supported configuration is refused" % what)
    r, st = got
    for k, v in exp.items():
        g = r if k[0] == "return" else st.get(k)
        if not same(g, v):
            ctx.fail("%s: %s %s is %r, expected %r" % (what, k[0], k[1], g, v))
    ctx.state(repr(sorted(st.items(), key=repr)))


def single(ctx):
    for sec, key, st, default, vals in TABLE + [V1]:
        for v in vals:
            clean()
            cfg = setting(sec, key, v)
            compare(ctx, "%r" % (cfg,), read(cfg), cfg)
            ctx.transitions += 1
    # required companions of the flood spawning settings, as documented
    for fd in [x for x in TABLE if x[1] == "flood_driven_spawning"][0][4]:
        for tp, cz, fz, fl in product(B + (None,), B + (None,), B + (None,), (0, 1, 2)):
            cfg = dict(spawn_rules=dict(flood_driven_spawning=fd))
            for k, v in (("take_from_population", tp), ("conflict_zone_spawning_only", cz), ("flood_zone_spawning_only", fz)):
                if v is not None:
                    cfg["spawn_rules"][k] = v
            fr = dict(max_flood_level=4, flood_movechances=[0.3, 0.4, 0.7, 1.0, 1.0], flood_loc_weights=[1.0, 0.5, 0.2, 0.0, 0.0])
            if fl:
                cfg["move_rules"] = dict(flood_rules=fr) if fl == 1 else dict(fr)
            clean()
            compare(ctx, "%r" % (cfg,), read(cfg), cfg)
            ctx.transitions += 1
    ctx.traces += 1


def sections(ctx):
    """Files with absent and empty sections, and no content at all."""
    for text in ("", "# nothing\n", "{}\n"):
        clean()
        compare(ctx, "file %r" % text, read({}, text), {})
    for combo in product((None, "", {"agent": 1}), (None, "", {"insert_day0": False}), (None, "", {"camp_weight": 2.0}), (None, "", {"hasten": 3})):
        text, cfg = "", {}
        for sec, c in zip(("log_levels", "spawn_rules", "move_rules", "optimisations"), combo):
            if c is None:
                continue
            text += "%s:%s\n" % (sec, "" if c == "" else " " + yaml.safe_dump(c, default_flow_style=True).strip())
            if c:
                cfg[sec] = c
        for order in (1, -1):
            t = "\n".join(text.strip().split("\n")[::order]) + "\n"
            clean()
            compare(ctx, "file %r" % t, read(cfg, t), cfg)
            ctx.transitions += 1
    ctx.traces += 1


def pairs(ctx, i, both):
    a = (TABLE + [V1])[i]
    for b in (TABLE + [V1])[i + 1:]:
        for va, vb in product(a[4], b[4]) if both else [(a[4][0], b[4][0]), (a[4][-1], b[4][-1])]:
            cfg = merge(setting(a[0], a[1], va), setting(b[0], b[1], vb))
            clean()
            compare(ctx, "%r" % (cfg,), read(cfg), cfg)
            ctx.transitions += 1
    ctx.traces += 1


def triples(ctx, i):
    T = TABLE + [V1]
    a = T[i]
    for b, c in combinations(T[i + 1:], 2):
        cfg = merge(setting(a[0], a[1], a[4][0]), setting(b[0], b[1], b[4][0]), setting(c[0], c[1], c[4][0]))
        clean()
        compare(ctx, "%r" % (cfg,), read(cfg), cfg)
        ctx.transitions += 1
    ctx.traces += 1


def configs():
    out = [{}]
    for x in TABLE + [V1]:
        for v in x[4]:
            out.append(setting(x[0], x[1], v))
    out.append(dict(spawn_rules=dict(conflict_zone_spawning_only=True, flood_zone_spawning_only=True)))
    base = dict(take_from_population=True, conflict_zone_spawning_only=False, flood_zone_spawning_only=True)
    for fd in (dict(flood_spawn_mode="constant", displaced_per_flood_day=[0, 9]), dict(), None):
        r = dict(base)
        if fd is not None:
            r["flood_driven_spawning"] = fd
        out.append(dict(spawn_rules=r, move_rules=dict(flood_rules=dict(flood_movechances=[0, 0.5], flood_forecaster=True))))
        out.append(dict(spawn_rules=dict(r, take_from_population=False)))
        out.append(dict(spawn_rules=r))
    out.append(dict(spawn_rules=dict(conflict_driven_spawning={})))
    return out


def histories(ctx, part, parts, depth):
    cs = configs()
    alone = []
    for c in cs:
        clean()
        alone.append(read(c))
    idx = range(len(cs))
    for i in list(idx)[part::parts]:
        for rest in product(idx, repeat=depth - 1):
            clean()
            read(cs[i])
            for j in rest:
                got = read(cs[j])
            if got == "refused" or alone[j] == "refused":
                if got != alone[j]:
                    ctx.fail("reading %r after %r is %s" % (cs[j], [cs[k] for k in (i,) + rest[:-1]], "refused" if got == "refused" else "accepted"))
                continue
            a, b = got[1], alone[j][1]
            for k in set(a) | set(b):
                if not same(a.get(k), b.get(k)):
                    ctx.fail("reading %r after %r: %s %s is %r, read alone it is %r" % (cs[j], [cs[k] for k in (i,) + rest[:-1]], k[0], k[1], a.get(k), b.get(k)))
            if got[0] != alone[j][0]:
                ctx.fail("reading %r after %r returns %r" % (cs[j], cs[i], got[0]))
            ctx.transitions += 1
    ctx.traces += 1


def check(ctx):
    items = [("each setting alone", single), ("sections", sections)]
    n = len(TABLE) + 1
    for i in range(n):
        items.append(("pairs with %s" % (TABLE + [V1])[i][1], pairs, i, True))
        if ctx.thorough:
            items.append(("triples with %s" % (TABLE + [V1])[i][1], triples, i))
    for p in range(32):
        items.append(("read histories %d" % p, histories, p, 32, 2))

    def batch(c, part, parts):
        for x in items[part::parts]:
            c.case(x[0], x[1], c, *x[2:])
    ctx.batches(batch, 48)
    ctx.bounds = dict(settings=n, values=sum(len(x[4]) for x in TABLE), pairs="every two settings, every two values", triples="every three settings, first value (thorough)",
                      histories="every ordered pair of %d configurations" % len(configs()))
    ctx.assumptions.append("stored setting names are those the existing tests use")
