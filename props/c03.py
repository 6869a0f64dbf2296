"""C03: who may post into an area; unknown areas; the BAD area."""
from pbt.fido import *
from pbt.tossgen import *
from pbt.core import Fail
from pbt import cfgparse
from . import c01

ID = "C03"
BUDGET = {"quick": 4500, "thorough": 50000}
RULE = ("as C01 with most messages from unlinked, read-only, unconfigured or unknown-area senders, DEFAULT/DEFAULT_x templates, AUTOADD and group settings, "
        "look-alike tags, 1-3 runs; non-trivial = some message was refused or an area was created, distinct by (areas, senders, outcome)")

KNOBS = dict(dupes=0.1, unlinked=0.5, unknown_area=0.35, big=0.03, addrem=0.0, maxpkt=0.1, default=0.75, nosec=0.1, mbs=("MSG", "MSG", "JAM", None), runs=(1, 3),
             switches={"CHECKSEENBY": .2, "STRIPRE": .1}, nodeflags={"PASSIVE": 0.08, "AUTOADD": 0.45, "TINYSEENBY": .05}, spoof=0.15, weird=0.5, paths=["%l", "%a", "%8", "%8", "%L", "%A", "%8-%8", "b%8"])


def gen(d):
    return c01.gen(d, KNOBS)


def check(case, env):
    c = case.c
    w, model = c01.play(case, env)
    check_clean(w)
    # auto-added areas are known to the configuration afterwards
    areas, nodes, other = cfgparse.parse(w.read("cfg").decode("latin-1"))
    for a in model.autoadded:
        g = areas.get(a.tag.upper())
        if g is None:
            raise Fail("area %r was created by incoming mail but is not in the configuration" % a.tag)
        a.realpath = g["path"]
        a.path = g["path"] or ""
        want = sorted((f, str(n)) for f, n in a.exports)
        have = sorted((f, str(n)) for f, n in g["exports"])
        if want != have:
            raise Fail("auto-added area %s linked to %s, expected %s" % (a.tag, have, want))
        if ("UNCONFIRMED" in a.opts) != ("UNCONFIRMED" in g["flags"]):
            raise Fail("auto-added area %s: UNCONFIRMED is %s" % (a.tag, "UNCONFIRMED" in g["flags"]))
        if g["aka"] != a.aka or (g["group"] or "") != (a.group or ""):
            raise Fail("auto-added area %s has aka %s group %r, expected %s %r" % (a.tag, g["aka"], g["group"], a.aka, a.group))
        if (g["mb"] or "") != (a.mb or ""):
            raise Fail("auto-added area %s message base %r, expected %r" % (a.tag, g["mb"], a.mb))
        for o in ("MANDATORY", "DEFREADONLY", "IGNOREDUPES", "IGNORESEENBY"):
            if (o in a.opts) != (o in g["flags"]):
                raise Fail("auto-added area %s: flag %s is %s" % (a.tag, o, o in g["flags"]))
        if a.mb and os.path.dirname(g["path"]) != w.p("a"):
            raise Fail("auto-added area %s would be stored in %r, outside the directory the DEFAULT area names" % (a.tag, g["path"]))
        dflt = a.get("dflt")
        if a.mb and dflt and "%8" in dflt.path and not re.fullmatch(re.escape(dflt.path).replace("%8", "([0-9a-f]{8})") + r"(_\d+)?", os.path.basename(g["path"])):
            raise Fail("auto-added area %s would be stored in %r, the DEFAULT area says %r" % (a.tag, g["path"], dflt.path))
    extra = set(areas) - set(a.tag.upper() for a in model.areas)
    if extra:
        raise Fail("unexpected areas in the configuration: %s" % sorted(extra))
    paths = [g["path"].lower() for g in areas.values() if g["path"] and not g["tag"].upper().startswith("DEFAULT")]
    if len(set(paths)) != len(paths):
        raise Fail("two areas share a message base: %s" % sorted(p for p in paths if paths.count(p) > 1))
    check_delivery(w, model, c, content=False, ctrl=False)
    check_imports(w, model, c, content=False)
    check_bad(w, model)
    if not model.bad and not model.autoadded:
        return None
    return [[(a.tag, a.opts, [(f, str(x)) for f, x in a.get("exports", [])]) for a in model.areas if a.kind == "echo"], [(t, r) for t, r, _ in model.bad],
            [[str(p.orig) for p in r.pkts] for r in case.runs]]


describe = c01.describe
