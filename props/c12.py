"""C12: messages written here are exported exactly once, from every kind of base and by every scan command."""
from pbt.basegen import *

ID = "C12"
BUDGET = {"quick": 2500, "thorough": 40000}
RULE = ("random system with MSG and JAM echomail/netmail/local areas (JAM bases with any base number and LRU size, MSG numbering with gaps) x histories of 3-10 operations: editor writes, deletions, "
        "tossed mail, scans by SCAN, SCANAREA, SCANLIST, SCANDOTJAM with highwater marks on or off; the outbound is emptied after each scan; non-trivial = at least two messages exported over at least two scans")


def gen(d):
    c = gen_base_system(d, {"MSG_HIGHWATER": .5, "JAM_HIGHWATER": .5, "MSG_WRITEBACK": .25, "ALLOWKILLSENT": .5, "NOEXPORTNETMAIL": .15, "ADDTID": .3, "CHECKSEENBY": .2, "FORCEINTL": .2})
    return Cfg(c=c, hist=gen_history(d, c, (3, 9), {"write": 5, "scan": 4, "delete": 1, "toss": 1}) + [("scan", "SCAN", [])])


def check(case, env):
    c = case.c
    w = World(env)
    w.shimenv["TZ"] = c.tz
    w.write("cfg", cfgtext(w, c))
    bases = Bases(w, c)
    model = EchoModel(c)
    total = []
    for i, o in enumerate(case.hist):
        w.now += 2
        if o[0] == "write":
            bases.write(o[1])
        elif o[0] == "delete":
            bases.delete(*o[1:])
        elif o[0] == "toss":
            for a, tok, e in play_toss(w, c, model, o[1], i):
                bases.imported(bases.area[a.tag], e)
            flush_outbound(w)
        else:
            exp = bases.scan(o[1], scan_args(w, o[1], o[2]))
            n = check_exports(w, bases, exp)
            total.append((o[1], n))
        bases.verify(content=o[0] == "scan", only_local=True)
    ex = [t for t in total if t[1]]
    if len(ex) < 2:
        return None
    return [total, [(a.tag, a.mb, a.base, a.first) for a in c.areas], c.switches]


describe = describe_hist
