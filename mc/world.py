"""Building and observing small simulations of the real code."""
import copy
import os
import sys
import yaml

from mc import env

_cache = {}


def mods():
    """The flee modules, imported once from /repo."""
    if "m" not in _cache:
        env_loaded = {}
        import flee.flee as F
        from flee import moving, scoring, spawning, crawling, InputGeography
        from flee.SimulationSettings import SimulationSettings as S
        env_loaded.update(F=F, moving=moving, scoring=scoring, spawning=spawning, crawling=crawling,
                          IG=InputGeography, S=S)

        class M:
            pass
        m = M()
        m.__dict__.update(env_loaded)
        _cache["m"] = m
    return _cache["m"]


_ymls = {}


def yml_path(d):
    """A YML file with the given content in the scratch directory."""
    txt = yaml.safe_dump(d) if d else "# empty\n"
    if txt not in _ymls:
        p = os.path.join(env.SCRATCH, "set%d_%d.yml" % (os.getpid(), len(_ymls)))
        with open(p, "w") as f:
            f.write(txt)
        _ymls[txt] = p
    return _ymls[txt]


_snap = {}


def snapshot_settings(S):
    return (copy.deepcopy(S.log_levels), copy.deepcopy(S.spawn_rules), copy.deepcopy(S.move_rules),
            copy.deepcopy(S.optimisations), S.ConflictInputFile, S.FloodLevelInputFile, S.UseV1Rules)


def settings(S=None, **sections):
    """Configure through the real YML reader, from a clean slate. settings(move_rules={...}, ...)"""
    S = S or mods().S
    p = yml_path(sections)
    k = (id(S), p)
    if k not in _snap:
        S.log_levels, S.spawn_rules, S.move_rules, S.optimisations = {}, {}, {}, {}
        S.ReadFromYML(p)
        _snap[k] = snapshot_settings(S)
    a = _snap[k]
    S.log_levels, S.spawn_rules, S.move_rules, S.optimisations = (copy.deepcopy(x) for x in a[:4])
    S.ConflictInputFile, S.FloodLevelInputFile, S.UseV1Rules = a[4:]
    return S


def fresh(s):
    """A string equal to s but not identical to any other object (as read from a file)."""
    return "".join(list(s)) if len(s) > 1 else (s + "\x00")[:-1]


def reset_globals(m=None):
    """Process-wide spawning state back to its initial value."""
    sp = (m or mods()).spawning
    for nm in list(vars(sp)):
        if nm.endswith("refugees_raw") or nm.endswith("refugee_debt"):
            setattr(sp, nm, 0)
        elif nm.endswith("__demographics"):
            getattr(sp, nm).clear()
    if hasattr(sp, "reset") and callable(sp.reset):
        sp.reset()


def build(locs, links, m=None, e=None):
    """locs: list of dicts (addLocation kwargs); links: list of (a, b, dist[, kwargs]) two-way,
    or (a, b, dist, {"oneway": True}) for a single direction."""
    m = m or mods()
    e = e if e is not None else m.F.Ecosystem()
    e.print_location_output = False
    for l in locs:
        l = dict(l)
        l.setdefault("attributes", {})
        e.addLocation(**l)
    for k in links:
        a, b, d = k[:3]
        opt = dict(k[3]) if len(k) > 3 else {}
        one = opt.pop("oneway", False)
        opt.setdefault("attributes", {})
        if one:
            n = len(loc(e, b).links)
            e.linkUp(a, b, float(d), **opt)
            del loc(e, b).links[n:]
        else:
            e.linkUp(a, b, float(d), **opt)
    return e


def loc(e, name):
    for l in e.locations:
        if l.name == name:
            return l
    raise KeyError(name)


def add(e, name, n=1, attributes=None):
    for _ in range(n):
        e.addAgent(loc(e, name), dict(attributes or {}))
    return e.agents[-1] if e.agents else None


def place(a):
    """Where an agent is: ('loc', name) or ('link', start, end, travelled)."""
    l = a.location
    if l is None:
        return ("none",)
    if hasattr(l, "startpoint"):
        return ("link", l.startpoint.name, l.endpoint.name, round(float(a.distance_travelled_on_link), 6))
    return ("loc", l.name)


def agent_key(a):
    return (place(a), a.travelling, tuple(a.route) if a.route is not None else None, a.places_travelled,
            a.timesteps_since_departure, round(float(a.recent_travel_distance), 9),
            round(float(a.distance_moved_this_timestep), 6),
            tuple(sorted((str(k), str(v)) for k, v in a.attributes.items())))


def link_key(k):
    return (k.startpoint.name, k.endpoint.name, k.get_distance(), k.closed, k.numAgents,
            k.forced_redirection)


def eco_key(e):
    return (e.time, tuple(agent_key(a) for a in e.agents),
            tuple((l.name, l.numAgents, l.pop, l.capacity, l.camp, l.idpcamp, l.town, l.conflict, l.marker,
                   l.forward, l.flood_zone, l.movechance,
                   tuple(sorted(link_key(k) for k in l.links)),
                   tuple(sorted(link_key(k) for k in l.closed_links))) for l in e.locations))


def clone(e):
    return copy.deepcopy(e)
