"""C01: every accepted echomail message goes to exactly the right links, intact."""
from pbt.fido import *
from pbt.tossgen import *
from pbt.core import Fail

ID = "C01"
BUDGET = {"quick": 4000, "thorough": 60000}
RULE = ("random system (akas in 1-4 zones, 1-6 nodes incl. points, flags, packers, PKTFROM) x 1-4 echomail areas (MSG/JAM/pass-through, "
        "normal/feed/read-only/write-only links) x 1-3 toss runs of 1-3 packets of 1-6 messages; non-trivial = some message was queued for a link "
        "and the case is distinct by (links, options, senders)")


def gen(d, knobs=None):
    k = dict(dupes=0.2, unlinked=0.1, unknown_area=0.08, big=0.05, switches={"CHECKSEENBY": .4, "STRIPRE": .2, "PATH3D": .2, "IMPORTSEENBY": .2, "FLOWCRLF": .2}, addrem=0.3,
             maxpkt=0.3, default=0.4, nosec=0.05, mbs=("MSG", "MSG", "JAM", None), kinds=("2+", "2+", "2.2", "2", "2q", "2+ffff"), runs=(1, 3), nodeflags=None, spoof=0.06, weird=0.0)
    k.update(knobs or {})
    c = gen_system(d, nodeflags=k["nodeflags"])
    add_std_areas(d, c)
    gen_areas(d, c, mbs=k["mbs"])
    for s, p in k["switches"].items():
        if d.bool(p):
            c.switches.append(s)
    for a in c.akas:
        if d.bool(k["addrem"]):
            a.addnodes = [str(gen_addr(d, pointp=0)) for _ in range(d.int(1, 2))]
        if d.bool(k["addrem"]):
            a.remnodes = [d.choice(["100/*", "*/1", "5/10", "2???/*", "*/99?", "101/2", "*/4*"]) for _ in range(d.int(1, 2))]
    if d.bool(k["maxpkt"]):
        c.maxpkt = d.choice([1, 2, 5])
    if d.bool(k["dupes"]):
        c.dupemode = d.choice(["BAD", "KILL", "IGNORE"])
        c.dupesize = d.choice([200, 3, 5])
    if d.bool(k["default"]):
        a = Cfg(kind="default", tag="DEFAULT" + d.choice(["", "", "_A", "_BC"]), aka=c.akas[0].addr, mb="MSG", path="auto-" + d.choice(k.get("paths", ["%l", "%a"])), opts=[], exports=[])
        for x in c.nodes:
            if d.bool(0.3):
                a.exports.append((d.choice(["", "", "!", "@", "%"]), x.addr))
        a.opts = d.subset(["DEFREADONLY", "IGNOREDUPES", "IGNORESEENBY", "MANDATORY"], 0.15)
        c.areas.append(a)
    case = Cfg(c=c, runs=[])
    tok = 0
    msgids = []
    taken = set(a.tag.upper() for a in c.areas)
    unk = [gen_tag(d, taken, 25) for _ in range(2)]
    if k["weird"]:
        for i in range(d.int(1, 3)):
            if d.bool(k["weird"]):
                # tags that differ only in characters unfit for file names
                b = d.choice(unk)
                j = d.int(1, len(b))
                t = b[:j] + d.choice("._:;*'\"\\%&/~") + b[j:]
                if t.upper() not in taken:
                    taken.add(t.upper())
                    unk.append(t)
                t = b[:j] + d.choice("._:;*'\"\\%&/~") + b[j:]
                if t.upper() not in taken:
                    taken.add(t.upper())
                    unk.append(t)
        if d.bool(.3):
            unk += d.subset(["NETMAIL", "BAD", "DEFAULT", "DEFAULT_A", "default_Q"], .5)
        for a in c.areas:
            if a.kind == "net" and d.bool(.5):
                a.imports = [gen_addr(d) for _ in range(d.int(1, 2))]
    echoes = [a for a in c.areas if a.kind == "echo"]
    for r in range(d.int(*k["runs"])):
        pkts = []
        for p in range(d.int(1, 3)):
            sender = d.choice(c.nodes)
            orig = sender.addr if not d.bool(k["spoof"]) else gen_addr(d)
            dest = d.choice(c.akas).addr if not d.bool(0.05) else gen_addr(d)
            kind = d.choice(k["kinds"])
            linked = [a for a in echoes if any(n == orig for _, n in a.exports)]
            msgs = []
            for _ in range(d.int(1, 6)):
                tok += 1
                if d.bool(k["unknown_area"]):
                    tag = d.choice(unk)
                elif linked and not d.bool(k["unlinked"]):
                    tag = d.choice(linked).tag
                else:
                    tag = d.choice(echoes).tag
                if d.bool(0.15):
                    tag = swapcase(tag)
                mid = None
                if d.bool(0.7):
                    if msgids and d.bool(0.25):
                        mid = d.choice(msgids)
                    else:
                        mid = d.choice(["1:2/3 %08x", "%x@x.y", "\xe5\xf6 %x"]) % (0xabc000 + tok)
                        msgids.append(mid)
                msgs.append(gen_echo_msg(d, c, tag, tok, mid, big=d.bool(k["big"])))
            pkts.append(Cfg(orig=orig, dest=dest, kind=kind, msgs=msgs))
        case.runs.append(Cfg(pkts=pkts, nosec=d.bool(k["nosec"])))
    return case


def pw_for(c, orig, kind, model):
    o, _ = model.fix_orig(orig, orig, kind)
    n = model.node(o)
    return n.pw.encode() if n else b""


def play(case, env):
    """run the history; returns world and model"""
    c = case.c
    w = World(env)
    w.write("cfg", cfgtext(w, c))
    model = EchoModel(c)
    for ri, r in enumerate(case.runs):
        for pi, p in enumerate(r.pkts):
            data = make_pkt(pkt_header(p.orig, p.dest, pw_for(c, p.orig, p.kind, model), p.kind), [raw_echo(m, p.orig, p.dest) for m in p.msgs])
            w.drop("%04x%04x.pkt" % (ri, pi), data)
            for m in p.msgs:
                model.toss(p.orig, p.dest, p.kind, m, r.nosec)
        args = ["NOSECURITY"] if r.nosec else []
        w.now += 1
        w.toss(*args)
        if ri + 1 < len(case.runs):
            # the system is told apart from itself between runs only by files
            w.now += 3
    return w, model


def check(case, env):
    w, model = play(case, env)
    check_clean(w)
    n = check_delivery(w, model, case.c, content=True, ctrl=False)
    check_imports(w, model, case.c)
    if not n:
        return None
    return [[(a.tag, [(f, str(x)) for f, x in a.exports], a.opts) for a in case.c.areas if a.kind == "echo"], case.c.switches,
            [[(str(p.orig), [m.tag for m in p.msgs]) for p in r.pkts] for r in case.runs]]


def describe(case):
    c = case.c
    return {"akas": [str(a.addr) for a in c.akas], "nodes": ["%s %s %s" % (n.addr, n.packer, n.flags) for n in c.nodes], "switches": c.switches,
            "areas": ["%s %s aka %s %s %s" % (a.tag, a.mb, a.aka, [f + str(x) for f, x in a.get("exports", [])], a.opts) for a in c.areas if a.kind in ("echo", "default")],
            "runs": [[("%s->%s %s" % (p.orig, p.dest, p.kind), [(m.tag, m.subj, m.body[:80], "sb%s" % m.sb[:8], "path%s" % m.pa[:8]) for m in p.msgs]) for p in r.pkts] for r in case.runs]}
