"""C06: duplicate suppression over histories of toss runs."""
import random
from pbt.fido import *
from pbt.tossgen import *
from pbt.core import Fail
from . import c01

ID = "C06"
BUDGET = {"quick": 6000, "thorough": 60000}
RULE = ("1-3 areas x 2-6 toss runs whose messages draw their MSGIDs (8-bit, long, case variants, shared prefixes, none) from a small pool, database sizes 1-200, "
        "modes KILL/BAD/IGNORE, IGNOREDUPES areas; plus one long history that overfills a 70000-entry database; non-trivial = at least one duplicate was suppressed "
        "and at least one message accepted, distinct by (mode, size, sequence of (area, id))")

IDCH = "abcdefABCDEF0123456789:/.@ \xe5\xe4\xf6\xff\x80\x9d"


def gen(d):
    c = gen_system(d, maxnodes=3, packers=False, nodeflags={})
    for n in c.nodes:
        n.defgroup, n.af, n.pktfrom = "", None, None
    add_std_areas(d, c)
    gen_areas(d, c, n=(1, 3), mbs=("MSG", None), flags=("",), linkp=0.9)
    for a in c.areas:
        if a.kind == "echo":
            a.opts = [o for o in a.opts if o not in ("UNCONFIRMED", "IGNORESEENBY")]
            if not a.exports:
                a.exports = [("", c.nodes[0].addr)]
    c.dupemode = d.choice(["KILL", "KILL", "BAD", "IGNORE"])
    c.dupesize = d.choice([200, 200, 1, 2, 3, 7, 20])
    pool = []
    for i in range(d.int(1, 10)):
        if pool and d.bool(0.3):
            b = d.choice(pool)
            pool.append(d.choice([swapcase(b), b + "0", b[:-1] or "z", b + " " + b, "x" + b])[:79].rstrip() or "q")
        else:
            pool.append(d.text(IDCH, 1, d.weighted([(8, 24), (1, 79)])).strip() or "i%d" % i)
    echoes = [a for a in c.areas if a.kind == "echo"]
    case = Cfg(c=c, runs=[])
    tok = 0
    for r in range(d.int(2, 6)):
        pkts = []
        for p in range(d.int(1, 2)):
            sender = d.choice(c.nodes).addr
            mine = [a for a in echoes if sender in [n for _, n in a.exports]] or echoes
            msgs = []
            for _ in range(d.int(1, 6)):
                tok += 1
                a = d.choice(mine)
                tag = swapcase(a.tag) if d.bool(0.1) else a.tag
                mid = None if d.bool(0.1) else d.choice(pool)
                body = ("\x01MSGID: %s\r" % mid if mid is not None else "") + d.choice(["", "hello\r", "--- t\r * Origin: x (1:2/3)\r"])
                if mid is not None and d.bool(0.15):
                    body = "\x01PID: x\r" + body
                msgs.append(Cfg(tag=tag, frm="F", to="T", date="01 Jan 23  00:00:00", attr=0, cost=0, subj="#%d" % tok, body=body, sb=[], pa=[], sbfirst=True, tok=tok))
            pkts.append(Cfg(orig=sender, dest=c.akas[0].addr, kind="2+", msgs=msgs))
        case.runs.append(Cfg(pkts=pkts, nosec=False))
    return case


def check(case, env):
    w, model = c01.play(case, env)
    check_clean(w)
    check_delivery(w, model, case.c, content=True, ctrl=False)
    check_imports(w, model, case.c)
    check_bad(w, model, content=False)
    if not model.dead or not (model.deliver or model.imports):
        return None
    return [case.c.dupemode, case.c.dupesize, [[[(m.tag, m.body) for m in p.msgs] for p in r.pkts] for r in case.runs]]


def extra(env, seed, tier):
    """a database with more entries than fit in 16 bits"""
    rng = random.Random(seed)
    w = World(env)
    c = Cfg(akas=[Cfg(addr=A("1:1/1"), domain="", addnodes=[], remnodes=[])], nodes=[Cfg(addr=A("1:1/2"), packer="", pw="", flags=[], pktfrom=None, pri="", defgroup="", af=None)],
            switches=[], areas=[], extra=[], dupemode="BAD", dupesize=70000, defaultzone=1, maxpkt=None, routes=None, loglevel=1)
    c.areas.append(Cfg(kind="bad", tag="BAD", aka=A("1:1/1"), mb="MSG", path="bad", opts=[]))
    c.areas.append(Cfg(kind="echo", tag="X", aka=A("1:1/1"), mb=None, path="", opts=[], exports=[("", A("1:1/2"))]))
    w.write("cfg", cfgtext(w, c))
    base = rng.randrange(1 << 30)
    total = 72000

    def pkt(ids):
        return make_pkt(pkt_header(A("1:1/2"), A("1:1/1")), [pkt_msg(1, 2, 1, 1, 0, 0, b"01 Jan 23  00:00:00", b"T", b"F", b"#%d" % i, b"AREA:X\r\x01MSGID: %x\r" % (base + i)) for i in ids])
    w.drop("00000001.pkt", pkt(range(total)))
    w.toss(timeout=300)
    again = sorted(rng.sample(range(total - 70000 + 200, total), 150)) + [total - 1]
    w.now += 5
    w.drop("00000002.pkt", pkt(again))
    w.toss(timeout=300)
    bad = sorted(int(m.subj[1:]) for m in read_msgdir(w.p("a", "bad")).values())
    cov = {"long_history_messages": total, "long_history_redelivered": len(again)}
    missing = [i for i in again if i not in bad]
    if missing:
        return cov, "of %d messages tossed into a 70000-entry duplicate database, %d of the %d sent again were not recognised (first: number %d)" % (
            total, len(missing), len(again), missing[0])
    if len(bad) != len(again):
        return cov, "%d messages reported as duplicates, expected %d" % (len(bad), len(again))
    return cov, None


def describe(case):
    c = case.c
    return {"mode": c.dupemode, "size": c.dupesize, "areas": ["%s %s %s %s" % (a.tag, a.mb, a.opts, [str(x) for _, x in a.get("exports", [])]) for a in c.areas],
            "runs": [[(str(p.orig), [(m.tok, m.tag, m.body) for m in p.msgs]) for p in r.pkts] for r in case.runs]}
