"""C14: a rescan sends the newest stored messages, once each and unchanged, to the requesting node only."""
from pbt.basegen import *

ID = "C14"
BUDGET = {"quick": 2000, "thorough": 30000}
RULE = ("random system with MSG and JAM echomail areas (any base number, gaps, deleted messages) x histories of editor writes, tossed mail, scans and deletions, then rescans of one area for one node with and without "
        "a maximum, also for nodes not linked to the area, points, other zones and TINYSEENBY/NOSEENBY nodes; non-trivial = at least two messages rescanned")


def gen(d):
    c = gen_base_system(d, {"MSG_HIGHWATER": .5, "JAM_HIGHWATER": .5, "ADDTID": .4, "CHECKSEENBY": .2, "IMPORTSEENBY": .6, "STRIPRE": .15})
    h = gen_history(d, c, (3, 8), {"write": 4, "toss": 5, "delete": 2, "scan": 1, "rescan": 2})
    h += gen_history(d, c, (1, 3), {"rescan": 1})
    for o in h:
        if o[0] == "toss":
            for m in o[1].msgs:
                m.attr &= ~FILEATTACH      # JAM keeps one file name of an attach, not the subject
    return Cfg(c=c, hist=h)


def snapshot(w):
    out = {}
    for r, ds, fs in os.walk(w.p("a")):
        for f in fs:
            p = os.path.join(r, f)
            out[p] = open(p, "rb").read()
    return out


RESC = re.compile(rb"(?:\A|(?<=[\r\n]))\x01RESCANNED ([^\r]*)\r")


def rescan(w, bases, tag, addr, mx):
    c = bases.c
    a = bases.area[tag]
    node = next(n for n in c.nodes if n.addr == addr)
    before = snapshot(w)
    w.crashmail("RESCAN", tag, "RESCANNODE", str(addr), *(["RESCANMAX", str(mx)] if mx is not None else []))
    after = snapshot(w)
    for p, b in before.items():
        if after.get(p) != b:
            raise Fail("rescan of %s changed %s" % (tag, p))
    for p in after:
        if p not in before and not p.endswith((".jhr", ".jdt", ".jdx", ".jlr")):
            raise Fail("rescan of %s created %s" % (tag, p))
    exp = [] if not a.mb else [r for r in bases.b[tag] if not r.deleted and (not mx or r.num > bases.top[tag] - mx)]
    got = w.queued_messages(c.akas[0].addr.zone)
    for dest, fl, how, h, m in got:
        if dest != addr:
            raise Fail("rescan of %s for %s sent a message to %s" % (tag, addr, dest))
    gt = [tok_of(m.subj) for _, _, _, _, m in got]
    if sorted(gt) != sorted(r.tok for r in exp):
        raise Fail("rescan of %s for %s max %s sent messages %r, expected %r" % (tag, addr, mx, gt, [r.tok for r in exp]))
    s = lambda b: b.decode("latin-1")
    byt = {r.tok: r for r in exp}
    for dest, fl, how, h, m in got:
        r = byt[tok_of(m.subj)]
        who = "rescanned #%d for %s" % (r.tok, addr)
        own = L1("%d:%d/%d.%d" % a.aka)
        z = RESC.findall(m.text)
        if z.count(own) != 1:
            raise Fail("%s: RESCANNED lines %r" % (who, z))
        m.text = RESC.sub(lambda x: b"" if x[1] == own else x[0], m.text)
        body = bases.kludges(r, a, b"")
        e = echo_expect(bases, a, r, extra_sb=[addr], rescan=True)
        e.m = Cfg(tok=r.tok, frm=s(r.frm), to=s(r.to), subj=s(bases.subj_out(r)), date=s(r.date), attr=bases.attr_out(r, a), cost=r.cost, body=s(body))
        check_copy(e, node, fl, how, h, m, c, True, True)
    flush_outbound(w)
    return len(exp)


def check(case, env):
    c = case.c
    w = World(env)
    w.shimenv["TZ"] = c.tz
    w.write("cfg", cfgtext(w, c))
    bases = Bases(w, c)
    model = EchoModel(c)
    total = []
    for i, o in enumerate(case.hist):
        w.now += 2
        if o[0] == "write":
            bases.write(o[1])
        elif o[0] == "delete":
            bases.delete(*o[1:])
        elif o[0] == "toss":
            for a, tok, e in play_toss(w, c, model, o[1], i):
                bases.imported(bases.area[a.tag], e)
            flush_outbound(w)
        elif o[0] == "rescan":
            total.append((o[1], str(o[2]), o[3], rescan(w, bases, *o[1:])))
        else:
            bases.scan(o[1], scan_args(w, o[1], o[2]))
            flush_outbound(w)
    if sum(t[3] for t in total) < 2:
        return None
    return [total, [(a.tag, a.mb, a.base, a.first) for a in c.areas], c.switches]


describe = describe_hist
