"""C02: SEEN-BY and PATH of everything passed on."""
from pbt.fido import *
from pbt.tossgen import *
from pbt.core import Fail
from . import c01

ID = "C02"
BUDGET = {"quick": 5000, "thorough": 60000}
RULE = ("as C01 but with long SEEN-BY/PATH blocks (up to 300 entries, abbreviated or full, unsorted, repeated), ADDNODE/REMNODE patterns, several zones, "
        "points, PATH3D, NOSEENBY/TINYSEENBY; non-trivial = a queued or imported message had control lines checked, distinct by (links, options, lists)")

KNOBS = dict(dupes=0.0, unlinked=0.03, unknown_area=0.04, big=0.03, addrem=0.5, maxpkt=0.2, default=0.2, nosec=0.05, mbs=("MSG", "MSG", None), runs=(1, 2),
             switches={"CHECKSEENBY": .4, "PATH3D": .4, "IMPORTSEENBY": .5},
             nodeflags={"PASSIVE": 0.1, "NOSEENBY": 0.12, "TINYSEENBY": 0.18, "AUTOADD": 0.15})


def gen(d):
    case = c01.gen(d, KNOBS)
    for r in case.runs:
        for p in r.pkts:
            for m in p.msgs:
                if d.bool(0.15):
                    m.sb = gen_2dlist(d, case.c, 40, d.choice([60, 110, 300]))
                if d.bool(0.1):
                    m.pa = gen_2dlist(d, case.c, 10, d.choice([30, 150]))
                if d.bool(0.2):
                    m.pa = m.pa + [(a.addr.net, a.addr.node) for a in [d.choice(case.c.akas)]]
                m.fmt = d.choice(["abbr", "abbr", "full", "mixed"])
                if m.sb or m.pa:
                    if m.body and m.body[-1] != "\r":
                        m.body += "\r"
    return case


def check(case, env):
    w, model = c01.play(case, env)
    n = check_delivery(w, model, case.c, content=False, ctrl=True)
    check_imports(w, model, case.c, content=False, ctrl=True)
    if not n and not model.imports:
        return None
    return [[(a.tag, [(f, str(x)) for f, x in a.exports], a.opts) for a in case.c.areas if a.kind == "echo"], case.c.switches,
            [[[(m.sb, m.pa) for m in p.msgs] for p in r.pkts] for r in case.runs]]


def describe(case):
    x = c01.describe(case)
    x["akas"] = ["%s +%s -%s" % (a.addr, a.addnodes, a.remnodes) for a in case.c.akas]
    return x
