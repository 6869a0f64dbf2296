"""Generator and independent reference model for netmail: routing, priorities,
bounces, receipts, audits, loops, file attaches."""
import datetime, re
from .fido import *
from .tossgen import *
from .core import Fail
from . import v7

L1 = lambda s: s.encode("latin-1")


# ------------------------------------------------------------------ nodelist
class NL:
    """a generated nodelist; entries {Addr: (region, hub)}"""

    def __init__(self):
        self.lines = []
        self.entries = {}
        self.v7 = None

    def add(self, kw, num, addr, region, hub, listed=True):
        self.lines.append("%s,%d,Name_%d,City,Sysop,-Unpublished-,300,IBN" % (kw, num, num))
        if listed:
            self.entries.setdefault(addr, (region, hub))


def gen_nodelist(d, wanted):
    """a nodelist that contains a random part of the wanted addresses"""
    nl = NL()
    zones = sorted(set(a.zone for a in wanted))
    for z in zones:
        nl.lines.append(";S comment, 1")
        nl.add("Zone", z, Addr(z, z, 0), 0, 0)
        nets = sorted(set(a.net for a in wanted if a.zone == z and a.net != z))
        regions = [0] + [r for r in d.subset([20, 45, 50], 0.6)]
        assign = {}
        for n in nets:
            assign.setdefault(d.choice(regions), []).append(n)
        for r in regions:
            if r:
                nl.add("Region", r, Addr(z, r, 0), r, 0)
                if d.bool(0.3):
                    nl.add("", 7, Addr(z, r, 7), r, 0)
            for n in assign.get(r, []):
                nl.add("Host", n, Addr(z, n, 0), r, 0)
                nodes = sorted(set(a.node for a in wanted if a.zone == z and a.net == n and a.node))
                nodes = d.shuffle(nodes)
                hub = 0
                for f in nodes:
                    if not d.bool(0.75):
                        continue
                    kw = d.weighted([(6, ""), (3, "Hub"), (1, "Pvt"), (1, "Hold"), (1, "Down")])
                    if kw == "Hub":
                        hub = f
                    nl.add(kw, f, Addr(z, n, f), r, hub, kw != "Down")
    if d.bool(.35):
        nl.v7 = d.int(0, 10 ** 6)
    return nl


def put_nodelist(w, nl):
    """write the nodelist"""
    if nl.v7 is not None:
        for n, b in v7.build({tuple(a): e for a, e in nl.entries.items()}, nl.v7, 512, 3 if nl.v7 % 2 else None).items():
            w.write("nl/" + n, b)
        return
    w.write("nl/TESTLIST", "".join(l + "\r\n" for l in nl.lines))
    w.write("nl/cmnodelist.prefs", "TESTLIST 1\n")
    w.run("crashlist", w.p("nl"))


# ------------------------------------------------------------------ patterns
def pat_match(p, a, nl):
    """reference for node patterns; p is the configuration text"""
    m = re.match(r"(ZONE|REGION|NET|HUB|NODE) (.*)", p)
    kw, body = (m[1], m[2]) if m else ("", p)
    if kw == "ZONE":
        return patnum(body, a.zone)
    if kw == "" and body == "*":
        return True
    mm = re.fullmatch(r"(?:([\d*?]+):)?(?:([\d*?]+)/)?([\d*?]+)(?:\.([\d*?]+))?", body)
    z, n, f, pt = mm[1], mm[2], mm[3], mm[4]
    if z is not None and n is None:
        n, f, pt = f, None, None
    elif pt is None and kw == "":
        pt = "0"
    ok = lambda q, v: q is None or patnum(q, v)
    if not ok(z, a.zone):
        return False
    if kw == "":
        return ok(n, a.net) and ok(f, a.node) and ok(pt, a.point)
    if kw == "NET":
        return ok(n, a.net)
    if kw == "NODE":
        return ok(n, a.net) and ok(f, a.node)
    e = nl.entries.get(a.boss) if nl else None
    if e is None:
        return False
    if kw == "REGION":
        return ok(n, e[0])
    return ok(n, a.net) and ok(f, e[1])


def expand(p, a, nl):
    e = (nl.entries.get(a.boss) if nl else None) or (0, 0)
    if p == "ZONE":
        return Addr(a.zone, a.zone, 0)
    if p == "REGION":
        return Addr(a.zone, e[0] or a.net, 0)
    if p == "NET":
        return Addr(a.zone, a.net, 0)
    if p == "HUB":
        return Addr(a.zone, a.net, e[1])
    if p == "NODE":
        return a.boss
    m = re.fullmatch(r"([\d*?]+):([\d*?]+)(?:/([\d*?]+)(?:\.([\d*?]+))?)?", p)
    parts = [m[1], m[2], m[3] if m[3] is not None else "*", m[4] if m[4] is not None else ("0" if m[3] is not None else "*")]
    return Addr(*[v if ("*" in q or "?" in q) else int(q) for q, v in zip(parts, a)])


def gen_pat(d, pool, nodelist, wide=0.2):
    a = d.choice(pool)
    k = d.int(0, 9 + (4 if nodelist else 0))
    wild = lambda n: d.weighted([(5, str(n)), (3, "*"), (1, str(n)[:-1] + "?"), (1, str(n)[:1] + "*"), (1, "?" * len(str(n)))])
    if d.bool(wide):
        return d.choice(["*", "*:*/*.*", "*:*/*", "ZONE %d" % a.zone, "%d:*" % a.zone])
    if k <= 3:
        return "%s:%s/%s.%s" % tuple(wild(x) for x in a)
    if k <= 5:
        return "%s:%s/%s" % (wild(a.zone), wild(a.net), wild(a.node))
    if k == 6:
        return "%s:%s" % (wild(a.zone), wild(a.net))
    if k == 7:
        return "NET %s:%s" % (wild(a.zone), wild(a.net))
    if k == 8:
        return "NODE %s:%s/%s" % (wild(a.zone), wild(a.net), wild(a.node))
    if k == 9:
        return "ZONE %s" % wild(a.zone)
    if k <= 11:
        return "REGION %s:%s" % (wild(a.zone), d.choice(["0", "20", "45", "50", "5?", "*"]))
    return "HUB %s:%s/%s" % (wild(a.zone), wild(a.net), d.choice(["0", "*", str(a.node)]))


def gen_destpat(d, pool, nodelist):
    a = d.choice(pool)
    k = d.int(0, 7)
    if k <= 2:
        return a.full
    if k == 3:
        return "*:*/*.*"
    if k == 4:
        return "*:*/*"
    if k == 5:
        return d.choice(["ZONE", "NET", "NODE"])
    if k == 6:
        return d.choice(["REGION", "HUB"]) if nodelist else "NODE"
    w = lambda n: str(n) if d.bool(0.6) else "*"
    return "%s:%s/%s.%s" % tuple(w(x) for x in a)


# ------------------------------------------------------------------ generator
class NM(Cfg):
    pass


ATTRS = [0, 1, 0x2, 0x8, 0x200, 0x10, 0x1000, 0x2000, 0x4000, 0x100, 0x20, 0x80, 0x8000, 0x400]


def gen_netcase(d, scan=0.35, nodelist=0.6, special=0.3, loops=0.15, attach=0.12, content=0.5, kinds=("2+", "2+", "2.2", "2", "2q"), flags=None, attrp=0.15, dirty=True, jam=True):
    c = gen_system(d, maxnodes=4, nodeflags={"PACKNETMAIL": 0.25, "TINYSEENBY": 0.02})
    for n in c.nodes:
        n.defgroup, n.af = "", None
    c.extra.append('AREAFIXNAME "nobodyfix"')
    pool = [n.addr for n in c.nodes] + [a.addr for a in c.akas]
    for a in list(pool):
        if d.bool(0.25):
            pool.append(Addr(a.zone, a.net, a.node, d.choice([1, 7, 300])))
    while len(pool) < 8:
        pool.append(gen_addr(d))
    nl = gen_nodelist(d, [a.boss for a in pool]) if d.bool(nodelist) else None
    c.nl = nl
    areas = []
    c.areas.append(Cfg(kind="bad", tag="BAD", aka=c.akas[0].addr, mb="MSG", path="bad", opts=[]))
    for i in range(d.weighted([(5, 1), (3, 2), (1, 0), (1, 3)])):
        a = Cfg(kind="net", tag="NET%d" % i, aka=d.choice(c.akas).addr, mb=d.weighted([(3, "MSG"), (2, "JAM")]) if jam else "MSG", path="n%d" % i, opts=[], imports=[])
        if d.bool(0.3):
            a.imports = [d.choice(pool) for _ in range(d.int(1, 2))]
        areas.append(a)
    c.areas += areas
    c.routes = []
    for _ in range(d.int(0, 4)):
        c.routes.append((gen_pat(d, pool, nl), gen_destpat(d, pool, nl), d.choice(c.akas).addr))
    if d.bool(0.6):
        c.routes.append(("*:*/*.*", gen_destpat(d, pool, nl), d.choice(c.akas).addr))
    c.change = []
    if d.bool(0.35):
        for _ in range(d.int(1, 3)):
            types = d.choice(["*", "NORMAL", "CRASH", "HOLD", "DIRECT", "NORMAL,CRASH", "HOLD,DIRECT,NORMAL", "CRASH,HOLD"])
            c.change.append((types, gen_pat(d, pool, nl, 0.4), d.choice(["NORMAL", "CRASH", "HOLD", "DIRECT"])))
    c.bounce = [gen_pat(d, pool, nl, 0.6) for _ in range(d.int(1, 2))] if nl and d.bool(0.5) else []
    c.attach = [gen_pat(d, pool, nl, 0.5) for _ in range(d.int(0, 2))]
    for s, p in (flags or {"STRIPRE": .15, "FORCEINTL": .3, "NOROUTE": .06, "ANSWERRECEIPT": .6, "ANSWERAUDIT": .6, "IMPORTEMPTYNETMAIL": .3, "NODIRECTATTACH": .3,
                           "BOUNCEPOINTS": .3, "BOUNCEHEADERONLY": .3, "PATH3D": .1, "FLOWCRLF": .2}).items():
        if d.bool(p):
            c.switches.append(s)
    c.loopmode = d.choice(["LOG+BAD", "LOG+BAD", "LOG", "IGNORE"])
    if d.bool(0.15):
        c.maxpkt = 1
    c.sysop = d.choice(["Sys Op", "S", "A rather long name for a sysop abc"])
    tok = [0]

    def message(tossed):
        tok[0] += 1
        m = NM(tok=tok[0], frm="U%d" % tok[0] + (" " + gen_name(d, 20) if d.bool(content) else ""), to=gen_name(d) if d.bool(content) else "Bob",
               date=gen_date(d) if d.bool(content) else "01 Jan 23  01:02:03", cost=d.choice([0, 0, 7]), orig=d.choice(pool), dest=d.choice(pool))
        m.subj = d.choice(["", "", "", "Re: ", "Re[2]: "]) + (d.text(SUBJCH, 0, 40).strip() if d.bool(content) else "hello")
        m.attr = 0
        for a in ATTRS:
            if d.bool(attrp) and not (a == 0x10):
                m.attr |= a
        m.files = []
        if d.bool(attach):
            m.attr |= FILEATTACH
            m.files = [("f%d%s" % (m.tok, x), d.bool(0.8)) for x in (["a.zip", "b.txt"] if d.bool(0.3) else ["a.zip"])]
            m.subj = d.choice([" ", ",", ", "]).join(d.choice(["", "/some/path/", "C:\\dir\\"]) * (1 if tossed else 0) + f for f, _ in m.files)
        # addressing kludges
        m.kl = []
        m.intl = d.weighted([(6, True), (3, False)])
        lines = []
        if m.intl:
            lines.append("\x01INTL%s %d:%d/%d %d:%d/%d\r" % ((d.weighted([(8, ""), (1, ":")]),) + m.dest[:3] + m.orig[:3]))
        if m.orig.point:
            lines.append("\x01FMPT %d\r" % m.orig.point)
        if m.dest.point:
            lines.append("\x01TOPT %d\r" % m.dest.point)
        if d.bool(0.5):
            lines.append("\x01MSGID: %s %08x\r" % (m.orig, 0x1000 + m.tok))
        if d.bool(0.2):
            lines.append("\x01PID: xyz\r")
        lines = d.shuffle(lines)
        body = []
        k = d.int(0, 9)
        if k >= 2:
            for _ in range(d.int(1, 4)):
                body.append((gen_line(d) if d.bool(content) else "line") + d.weighted([(12, "\r"), (1, "\r\n"), (1, "\n")]))
        elif k == 1:
            body = []
        if d.bool(0.05):
            body.append("y" * d.int(190, 420) + "\r")
        if dirty and d.bool(0.03):
            body += ["z" * 99 + "\r"] * d.int(95, 220)
        if not tossed and not body:
            body = ["text\r"]          # zones of kludge-only messages are C12's business
        via = []
        for _ in range(d.int(1, 2) if d.bool(loops) else 0):
            w = d.choice(pool)
            prog = d.choice(["CrashMail II/Linux 1.5", "CrashMail II/Amiga 0.6", "FastEcho 1.46", "crashmail", "Mailer"])
            via.append("\x01Via %s%s @20230101.%06d %s\r" % (w, d.choice(["", "", "@fidonet"]), d.int(0, 235959), prog))
            if d.bool(0.2):
                via[-1] = "\x01Via %s%s by %s\r" % (prog, d.choice(["", " " * d.int(1, 70), " x" * d.int(10, 40)]), w)
        m.text = "".join(lines + body + via)
        m.via = via
        m.viaover = 0
        if d.bool(0.08) and not via and body:
            t = m.text.rstrip("\r\n") or "x"
            if tossed or t.split("\r")[-1].lstrip("\n")[:1] != "\x01":
                m.text = t
        return m
    case = Cfg(c=c, pkts=[], exports=[], pool=pool)
    for _ in range(d.int(1, 2)):
        sender = d.choice(c.nodes).addr if d.bool(0.85) else gen_addr(d)
        pdest = d.choice(c.akas).addr
        case.pkts.append(Cfg(orig=sender, dest=pdest, kind=d.choice(kinds), msgs=[message(True) for _ in range(d.int(1, 4))]))
    mba = [a for a in areas if a.mb]
    if mba and d.bool(scan):
        for _ in range(d.int(1, 3)):
            m = message(False)
            m.area = d.choice(mba).tag
            m.attr = (m.attr | LOCAL) & ~SENT & ~KILLSENT
            case.exports.append(m)
    return case


def net_cfg(w, c):
    if c.nl:
        c.extra = [x for x in c.extra if not x.startswith("NODELIST")] + ["NODELIST %s %s" % (q(w.p("nl")), "CMNL" if c.nl.v7 is None else "V7+")]
    keep = list(c.extra)
    for t, p, n in c.change:
        c.extra.append("CHANGE %s %s %s" % (q(t), q(p), n))
    for p in c.bounce:
        c.extra.append("BOUNCE %s" % q(p))
    for p in c.attach:
        c.extra.append("FILEATTACH %s" % q(p))
    c.extra.append("LOOPMODE %s" % c.loopmode)
    t = cfgtext(w, c)
    c.extra = keep
    return t


# ------------------------------------------------------------------ reference model
class NetModel:
    def __init__(self, c, now):
        self.c, self.now = c, now
        self.nl = c.nl
        self.stored = []      # (area, mail)
        self.queued = []      # (dest, type, aka, mail, via text)
        self.bad = []         # (mail, reason)
        self.flow = []        # (dest, type, file, mode) for attached files
        self.depth = 0

    def sw(self, s):
        return s in self.c.switches

    def aka(self, a):
        return next((k for k in self.c.akas if same(k.addr, a)), None)

    def node(self, a):
        return next((n for n in self.c.nodes if same(n.addr, a)), None)

    def route(self, a):
        return next((r for r in self.c.routes if pat_match(r[0], a, self.nl)), None)

    def date(self, t=None):
        return L1(datetime.datetime.fromtimestamp(t or self.now, datetime.timezone.utc).strftime("%d %b %y  %H:%M:%S"))

    def handle(self, m):
        """m: NM with bytes fields orig dest frm to subj date attr cost text; tossed/exported/auto; pktorig pktdest"""
        c = self.c
        if m.text:
            t = m.text.rstrip(b"\n")
            if t and not t.endswith((b"\r", b"\0")):
                m.text += b"\r"
        area = next((a for a in c.areas if a.kind == "net" and (same(a.aka, m.dest) or any(same(i, m.dest) for i in a.imports))), None)
        if area is None and (self.aka(m.dest) or self.sw("NOROUTE")):
            area = next((a for a in c.areas if a.kind == "net"), None)
        if area:
            if self.sw("STRIPRE"):
                m.subj = strip_re(m.subj.decode("latin-1")).encode("latin-1")
            empty = all(l[:1] == b"\x01" for l in re.findall(rb"[^\r]*\r|[^\r]+", m.text))
            if not empty or self.sw("IMPORTEMPTYNETMAIL"):
                if area.mb:
                    m.attr = (m.attr | SENT) & ~LOCAL
                    self.stored.append((area, NM(m)))
            if m.attr & RREQ and self.sw("ANSWERRECEIPT"):
                self.reply(m, b"Receipt", PVT | IRRR,
                           b'Your message to ' + m.to + b' dated ' + m.date + b' with the subject "' + m.subj + b'" has reached its final '
                           b"destination. This message doesn't mean that the message has been read, it just tells you that it has arrived at this system.\r\r")
            return
        m.attr &= PVT | CRASH | FILEATTACH | HOLD | RREQ | IRRR | AUDIT
        if m.tossed:
            m.attr &= ~(CRASH | HOLD)
        typ = "normal"
        if m.attr & CRASH:
            typ = "crash"
        if m.attr & HOLD:
            typ = "hold"
        if m.attr & FILEATTACH and not self.sw("NODIRECTATTACH") and typ == "normal":
            typ = "direct"
        r = self.route(m.dest)
        if r is None:
            self.bad.append((NM(m), b"No routing for destination node"))
            return
        to = expand(r[1], m.dest, self.nl) if typ == "normal" else m.dest
        new = typ
        for types, p, n in c.change:
            if (types == "*" or typ.upper() in types.split(",")) and pat_match(p, to, self.nl):
                new = n.lower()
        typ = new
        if to.point and typ in ("direct", "crash"):
            to = to.boss
        if c.loopmode != "IGNORE" and not m.exported and self.loop(m.text):
            m.looped = True
            if c.loopmode == "LOG+BAD":
                kl = b"".join(b"@" + l[1:] for l in re.findall(rb"[^\r]*\r|[^\r]+", m.text) if l[:1] == b"\x01")
                self.bad.append((NM(m, text=kl), b"Possible loopmail"))
        if self.nl and any(pat_match(p, m.dest, self.nl) for p in c.bounce) and m.dest.boss not in self.nl.entries:
            return self.bounce(m, b"Warning! Your message has been bounced because the node %d:%d/%d doesn't exist in the nodelist." % m.dest[:3])
        if self.sw("BOUNCEPOINTS") and any(same(k.addr, m.dest.boss) and k.addr.point == 0 for k in c.akas) and not self.node(m.dest):
            return self.bounce(m, b"Warning! Your message has been bounced because the point %d:%d/%d.%d doesn't exist." % m.dest)
        if m.attr & FILEATTACH:
            if not m.exported and not any(pat_match(p, m.dest, self.nl) for p in c.attach):
                return self.bounce(m, b"Warning! Your message has been bounced because because routing of file-attaches to %d:%d/%d.%d is not allowed." % m.dest)
            names = re.split(rb"[ ,]+", m.subj.replace(b"\\", b"/"))
            names = [n for n in names if n]
            for n in names:
                self.flow.append((to, typ, n, m.tossed))
            m.subj = b" ".join(n.split(b"/")[-1] for n in names)
        via = b"\x01Via %s @%s CrashMail II/" % (L1(str(r[2])), L1(datetime.datetime.fromtimestamp(self.now, datetime.timezone.utc).strftime("%Y%m%d.%H%M%S")))
        self.queued.append((to, typ, r[2], NM(m), via))
        if m.attr & AUDIT and self.sw("ANSWERAUDIT") and m.tossed:
            x = expand(r[1], m.dest, self.nl)
            self.reply(m, b"Audit", PVT, b'Your message to ' + m.to + b' dated ' + m.date + b' with the subject "' + m.subj + b'" has just been routed to '
                       + b"%d:%d/%d.%d by this system.\r\r" % x)

    def loop(self, text):
        for l in re.findall(rb"[^\r]*\r|[^\r]+", text):
            if l.startswith(b"\x01Via"):
                l = l[:150]
                if b"CrashMail" in l:
                    for t in re.findall(rb"[0-9:/.]+", l):
                        t = t[:19]
                        mm = re.fullmatch(rb"(\d+):(\d+)/(\d+)(?:\.(\d+))?", t)
                        if mm and self.aka(Addr(int(mm[1]), int(mm[2]), int(mm[3]), int(mm[4] or 0))):
                            return True
        return False

    def kludges(self, orig, dest):
        s = b""
        if orig.point:
            s += b"\x01FMPT %d\r" % orig.point
        if dest.point:
            s += b"\x01TOPT %d\r" % dest.point
        if orig.zone != dest.zone or self.sw("FORCEINTL"):
            s += b"\x01INTL %d:%d/%d %d:%d/%d\r" % (dest[:3] + orig[:3])
        return s

    def reply(self, m, subj, attr, text):
        r = self.route(m.orig)
        if r is None:
            return
        self.depth += 1
        if self.depth > 20:
            raise Fail("model: endless generated mail")
        self.handle(NM(orig=r[2], dest=m.orig, frm=L1(self.c.sysop), to=m.frm, subj=subj, date=self.date(), attr=attr, cost=0, text=self.kludges(r[2], m.orig) + (b"\x01TID: CrashMail II/\r" if self.sw("ADDTID") else b"") + text,
                       tossed=False, exported=False, auto=True, pktorig=Addr(0, 0, 0), pktdest=Addr(0, 0, 0), tok=m.tok))
        self.depth -= 1

    def bounce(self, m, reason):
        if m.auto:
            return
        t = reason + b"\r\r"
        ho = self.sw("BOUNCEHEADERONLY")
        t += b"This is the header of the message that was bounced:\r\r" if ho else b"This is the message that was bounced:\r\r"
        t += b"From: %s (%s)\r  To: %s (%s)\rSubj: %s\rDate: %s\r\r" % (m.frm, L1(m.orig.full), m.to, L1(m.dest.full), m.subj, m.date)
        if not ho:
            t += m.text.replace(b"\x01", b"@")
        self.reply(m, b"Bounced message", PVT, t)


def feed(case, model_for, w):
    """put the case's mail into the world; returns list of run functions in order"""
    c = case.c
    em = EchoModel(c)
    model = model_for
    for pi, p in enumerate(case.pkts):
        o, t = em.fix_orig(p.orig, p.dest, p.kind)
        n = em.node(o)
        raws = []
        for m in p.msgs:
            raws.append(pkt_msg(m.orig.net, m.orig.node, m.dest.net, m.dest.node, m.attr, m.cost, L1(m.date), L1(m.to), L1(m.frm), L1(m.subj), L1(m.text)))
            for f, there in m.files:
                if there:
                    w.write("in/" + f, b"FILE " + L1(f))
        w.drop("%08x.pkt" % (0x10 + pi), make_pkt(pkt_header(p.orig, p.dest, n.pw.encode() if n else b"", p.kind), raws))
        for m in p.msgs:
            oz, dz = (m.orig.zone, m.dest.zone) if m.intl else (o.zone, t.zone)
            model.handle(NM(orig=Addr(oz, *m.orig[1:]), dest=Addr(dz, *m.dest[1:]), frm=L1(m.frm), to=L1(m.to), subj=L1(m.subj), date=L1(m.date), attr=m.attr, cost=m.cost,
                            text=L1(m.text), tossed=True, exported=False, auto=False, pktorig=o, pktdest=t, tok=m.tok))


def feed_exports(case, model, w):
    c = case.c
    for a in [a for a in c.areas if a.kind == "net"]:
        n = max([1] + list(read_msgdir(w.p("a", a.path)))) if a.mb == "MSG" else 0
        for m in case.exports:
            if m.area != a.tag:
                continue
            for f, there in m.files:
                if there:
                    w.write(f, b"FILE " + L1(f))
            if a.mb == "JAM":
                sub, extra, body = jam_split(L1(m.text))
                mid = next((v for k, v in sub if k == "MSGID"), None)
                fields = [("OADDRESS", L1(m.orig.full if m.orig.point else str(m.orig))), ("DADDRESS", L1(str(m.dest))), ("SENDERNAME", L1(m.frm)), ("RECEIVERNAME", L1(m.to)), ("SUBJECT", L1(m.subj))]
                jam_append(w.p("a", a.path), [f for f in fields if f[1]] + sub, jam_attr(m.attr) | extra | J_TYPENET, body, fido_time(m.date), mid, cost=m.cost)
                back = 0
                for _, j, f in JAMFLAGS:
                    if f & m.attr & (PVT | CRASH | FILEATTACH | FILEREQ | RREQ | HOLD):
                        back |= f
                t = b"".join(b"\x01" + {"MSGID": b"MSGID: ", "PID": b"PID: ", "REPLYID": b"REPLY: ", "FTSKLUDGE": b""}[k] + v + b"\r" for k, v in sub)
                if m.orig.zone != m.dest.zone or "FORCEINTL" in c.switches:
                    t += b"\x01INTL %d:%d/%d %d:%d/%d\r" % (m.dest[:3] + m.orig[:3])
                if m.orig.point:
                    t += b"\x01FMPT %d\r" % m.orig.point
                if m.dest.point:
                    t += b"\x01TOPT %d\r" % m.dest.point
                model.handle(NM(orig=m.orig, dest=m.dest, frm=L1(m.frm), to=L1(m.to), subj=L1(m.subj), date=L1(m.date), attr=back, cost=m.cost, text=t + body,
                                tossed=False, exported=True, auto=False, pktorig=Addr(0, 0, 0), pktdest=Addr(0, 0, 0), tok=m.tok))
                continue
            n += 1
            os.makedirs(w.p("a", a.path), exist_ok=True)
            w.write("a/%s/%d.msg" % (a.path, n), make_msg(L1(m.frm), L1(m.to), L1(m.subj), L1(m.date), m.attr, L1(m.text), m.orig, m.dest, m.cost))
            oz, dz = (m.orig.zone, m.dest.zone) if m.intl else (a.aka.zone, a.aka.zone)
            t = L1(m.text)
            if not m.intl and "FORCEINTL" in c.switches:
                # the INTL line is put after the leading control lines
                ls = lines_of(t)
                i = 0
                while i < len(ls) and ls[i][:1] in (b"\x01", b"\n"):
                    i += 1
                if i < len(ls) or t[-1:] in (b"\r", b"\n"):
                    t = b"".join(ls[:i]) + b"\x01INTL %d:%d/%d %d:%d/%d\r" % (dz, m.dest.net, m.dest.node, oz, m.orig.net, m.orig.node) + b"".join(ls[i:])
            model.handle(NM(orig=Addr(oz, *m.orig[1:]), dest=Addr(dz, *m.dest[1:]), frm=L1(m.frm), to=L1(m.to), subj=L1(m.subj), date=L1(m.date),
                            attr=m.attr & (PVT | CRASH | FILEATTACH | FILEREQ | RREQ | IRRR | AUDIT | HOLD), cost=m.cost, text=t,
                            tossed=False, exported=True, auto=False, pktorig=Addr(0, 0, 0), pktdest=Addr(0, 0, 0), tok=m.tok))


def fido_time(date):
    import calendar
    t = datetime.datetime.strptime(date[:7] + ("19" if int(date[7:9]) >= 80 else "20") + date[7:], "%d %b %Y  %H:%M:%S")
    return calendar.timegm(t.timetuple())


def tok_from(m):
    for s in (m.frm, m.to):
        mm = re.match(rb"U(\d+)", s)
        if mm:
            return int(mm[1])
    return None


def kind_of(subj, auto):
    return subj if subj in (b"Receipt", b"Audit", b"Bounced message") and auto else b""


def play_net(case, env, variant="plain"):
    c = case.c
    w = World(env, variant)
    if c.nl:
        put_nodelist(w, c.nl)
    w.write("cfg", net_cfg(w, c))
    model = NetModel(c, w.now)
    feed(case, model, w)
    w.toss()
    if case.exports:
        w.now += 5
        model.now = w.now
        feed_exports(case, model, w)
        w.crashmail("SCAN")
    return w, model


def tidless(t):
    """without platform and version in our own TID lines"""
    if isinstance(t, tuple):
        return ([(k, re.sub(rb"^TID: CrashMail II/.*", b"TID: CrashMail II/", v)) for k, v in t[0]], t[1])
    return re.sub(rb"(?m)(^|(?<=\r))\x01TID: CrashMail II/[^\r]*\r", b"\x01TID: CrashMail II/\r", t)


def gmail(m):
    """identity of a mail for matching"""
    return (m.frm, m.to, m.date)


def check_net(w, case, model, dest=True, content=True, generated=True, bad=True, stored=True):
    """Compare outbound, netmail areas and BAD with the model.  The flags restrict what is compared."""
    c = case.c
    main = c.akas[0].addr.zone
    got = []
    for to, fl, how, h, m in w.queued_messages(main):
        got.append((to, fl, how, h, m))
    isgen = lambda m: m.frm == L1(c.sysop)
    sel = lambda m: generated if isgen(m) else True
    want = [(to, typ, aka, m, via) for to, typ, aka, m, via in model.queued if sel(m)]
    have = [g for g in got if sel(g[4])]
    key = lambda m: (tok_from(m), m.subj if isgen(m) else b"", m.frm)
    W, H = {}, {}
    for x in want:
        W.setdefault(key(x[3]), []).append(x)
    for g in have:
        H.setdefault(key(g[4]), []).append(g)
    for k in sorted(set(W) | set(H), key=repr):
        a, b = W.get(k, []), H.get(k, [])
        if len(a) != len(b):
            raise Fail("netmail %r: queued %d times, expected %d (%s)" % (k, len(b), len(a), [(str(x[0]), x[1]) for x in (a or b)]))
    for k in W:
        rest = list(H[k])
        for to, typ, aka, m, via in W[k]:
            g = next((g for g in rest if g[0] == to), None)
            if g is None:
                raise Fail("netmail %r to %s: queued for %s, expected %s (%s)" % (k, m.dest, [str(x[0]) for x in rest], to, typ))
            rest.remove(g)
            gto, fl, how, h, gm = g
            who = "netmail %r (%s -> %s)" % (k, m.orig, m.dest)
            n = model.node(to)
            if n and "PACKNETMAIL" in n.flags and typ == "normal":
                ehow, efl = ("bundle" if n.packer else "plain"), {"": "normal"}.get(n.pri, n.pri.lower())
            else:
                ehow, efl = "netmail", typ
            if dest:
                if (how, fl) != (ehow, efl):
                    raise Fail("%s: queued as %s %s, expected %s %s" % (who, fl, how, efl, ehow))
                src = n.pktfrom if n and n.pktfrom else aka
                srcs = {src}
                if ehow == "netmail":
                    # packets for one system are joined in one .?ut file, whose header is the first one's
                    srcs |= set((n.pktfrom if n and n.pktfrom else x[2]) for x in model.queued if x[0] == to and x[1] == typ)
                if h["orig"] not in srcs or h["dest"] != to:
                    raise Fail("%s: packet is %s -> %s, expected %s -> %s" % (who, h["orig"], h["dest"], src, to))
                pw = L1(n.pw[:8]) if n else b""
                if h["rawpw"] != pw.ljust(8, b"\0"):
                    raise Fail("%s: packet password %r, expected %r" % (who, h["rawpw"], pw))
                if (gm.onet, gm.onode, gm.dnet, gm.dnode) != (m.orig.net, m.orig.node, m.dest.net, m.dest.node):
                    raise Fail("%s: message header addressed %s/%s -> %s/%s" % (who, gm.onet, gm.onode, gm.dnet, gm.dnode))
            if content:
                for f, x, y in (("from", gm.frm, m.frm), ("to", gm.to, m.to), ("subject", gm.subj, m.subj), ("date", gm.date, m.date), ("attributes", gm.attr, m.attr), ("cost", gm.cost, m.cost)):
                    if x != y:
                        raise Fail("%s: %s is %r, expected %r" % (who, f, x, y))
                gtext = tidless(gm.text)
                if not gtext.startswith(m.text):
                    raise Fail("%s: text differs: %r expected %r" % (who, gm.text, m.text))
                tail = gtext[len(m.text):]
                if not tail.startswith(via) or tail.count(b"\r") != 1 or not tail.endswith(b"\r"):
                    raise Fail("%s: trailing line %r, expected %r..." % (who, tail, via))
    if stored:
        for a in c.areas:
            if a.kind != "net" or not a.mb:
                continue
            exported = [m for m in case.exports if m.area == a.tag]
            if a.mb == "MSG":
                msgs = read_msgdir(w.p("a", a.path))
            elif os.path.exists(w.p("a", a.path + ".jhr")):
                jb = read_jam(w.p("a", a.path))
                msgs = {n: JView(m) for n, m in jb.live.items()}
            else:
                msgs = {}
            jam = a.mb == "JAM"
            want_attr = lambda x: (jam_view_of(x.attr | SENT, L1(x.text))[0]) if jam else x.attr | SENT
            want = [m for x, m in model.stored if x is a and sel(m)]
            lst = [msgs[n] for n in sorted(msgs) if sel(msgs[n])]
            # exported originals stay, marked as sent
            mine = []
            exp = list(exported)
            for m in lst:
                e = next((e for e in exp if L1(e.frm) == m.frm and m.subj == L1(e.subj) and m.orig[1:] == e.orig[1:] and m.attr == want_attr(e)), None)
                if e is not None:
                    exp.remove(e)
                else:
                    mine.append(m)
            if exp:
                raise Fail("area %s: exported message from %r is gone or not marked sent" % (a.tag, exp[0].frm))
            if [key(m) for m in mine] != [key(m) for m in want]:
                raise Fail("area %s holds %r, expected %r" % (a.tag, [key(m) for m in mine], [key(m) for m in want]))
            for g, m in zip(mine, want):
                who = "netmail %r stored in %s" % (key(m), a.tag)
                if jam:
                    ja, jt = jam_view_of(m.attr, m.text)
                    m = NM(m, attr=ja, text=jt)
                    if dest and g.j.all("ENCLFILE") != ([x for x in re.split(rb"[ ,]+", m.subj) if x] if ja & J_FILEATTACH else []):
                        raise Fail("%s: enclosed files %r for subject %r" % (who, g.j.all("ENCLFILE"), m.subj))
                    if not g.j.attr & J_TYPENET or g.j.attr & J_TYPEECHO:
                        raise Fail("%s not marked as netmail" % who)
                if dest and (g.orig, g.dest) != (m.orig, m.dest):
                    raise Fail("%s: addresses %s -> %s, expected %s -> %s" % (who, g.orig, g.dest, m.orig, m.dest))
                if content:
                    for f, x, y in (("from", g.frm, m.frm), ("to", g.to, m.to), ("subject", g.subj, m.subj), ("date", g.date, m.date), ("attributes", g.attr, m.attr),
                                    ("cost", g.cost, m.cost), ("text", tidless(g.text), m.text)):
                        if x != y:
                            raise Fail("%s: %s is %r, expected %r" % (who, f, x, y))
    if bad:
        lst = [m for _, m in sorted(read_msgdir(w.p("a", "bad")).items())]
        want = [x for x in model.bad]
        if [tok_from(m) for m in lst] != [tok_from(m) for m, _ in want]:
            raise Fail("BAD area holds %r, expected %r" % ([key(m) for m in lst], [(key(m), r) for m, r in want]))
        for g, (m, reason) in zip(lst, want):
            who = "netmail %r in the BAD area" % (key(m),)
            head = b"DEST:%s\rORIG:%s\rPKTORIG:%s\rPKTDEST:%s\rERROR:%s\r" % tuple(L1(x.full) for x in (m.dest, m.orig, m.pktorig, m.pktdest)) [:4] + (reason,)  if False else \
                b"DEST:" + L1(m.dest.full) + b"\rORIG:" + L1(m.orig.full) + b"\rPKTORIG:" + L1(m.pktorig.full) + b"\rPKTDEST:" + L1(m.pktdest.full) + b"\rERROR:"
            if not g.text.startswith(head):
                raise Fail("%s does not say where it came from: %r expected %r" % (who, g.text[:200], head))
            rest = g.text[len(head):]
            r, rest = rest.split(b"\r", 1)
            if reason.split()[0] not in r and b"loop" not in r.lower():
                raise Fail("%s: reason %r" % (who, r))
            if rest != m.text:
                raise Fail("%s: text %r, expected %r" % (who, rest, m.text))
            if (g.frm, g.to, g.subj, g.date) != (m.frm, m.to, m.subj, m.date):
                raise Fail("%s: header altered: %r" % (who, g.key()))
    return W


def check_attach(w, case, model):
    """attached files are queued once for the right system and still exist"""
    main = case.c.akas[0].addr.zone
    w.queued_messages(main)
    have = sorted((q_.dest, q_.flavour, os.path.basename(q_.path), q_.mode, None if data is None else bytes(data)) for q_, data in w.attaches)
    want = set()
    there = {f: ok for p in case.pkts for m in p.msgs for f, ok in m.files}
    there.update({f: ok for m in case.exports for f, ok in m.files})
    for to, typ, n, tossed in model.flow:
        b = n.split(b"/")[-1].decode("latin-1")
        ok = there.get(b, False)
        want.add((to, typ, b, "^" if ok or tossed else "", (b"FILE " + L1(b)) if ok else None))
    return have, sorted(want, key=repr)


def describe_net(case):
    c = case.c
    one = lambda m: "tok %d %s -> %s attr=%x subj=%r text=%r" % (m.tok, m.orig, m.dest, m.attr, m.subj, m.text[:200])
    return {"akas": [str(a.addr) for a in c.akas], "nodes": ["%s packer=%r %s %s pktfrom=%s" % (n.addr, n.packer, n.flags, n.pri, n.pktfrom) for n in c.nodes],
            "switches": c.switches, "areas": ["%s %s %s imports %s" % (a.tag, a.aka, a.mb, [str(x) for x in a.get("imports", [])]) for a in c.areas],
            "routes": [(r[0], r[1], str(r[2])) for r in c.routes], "change": c.change, "bounce": c.bounce, "attach": c.attach, "loopmode": c.loopmode,
            "nodelist": (c.nl.v7, c.nl.lines) if c.nl else None,
            "packets": [("%s->%s %s" % (p.orig, p.dest, p.kind), [one(m) for m in p.msgs]) for p in case.pkts], "exports": [m.area + " " + one(m) for m in case.exports]}
