"""Generator and independent reference model for tossing: configurations,
packets, and what must come out of them."""
import re
from .fido import *
from .core import Fail

NAMECH = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ 0123456789.-_'\xe5\xe4\xf6\xc5\x84"
SUBJCH = "abcdefghij klmnopqrstuvwxyzABCDEFG 0123456789:;!?()[]<>/\\\"'&%$*\xe9\xff\x80"
BODYCH = "abcdefghijklmnopqrstuvwxyz ABCDEFGHIJKLMNO 0123456789.,:;-+*/=()<>@#%&'\"\t\xe5\xe4\xf6\xff\x80\x9d\x8d\x03"


def swapcase(s):
    return "".join(ch.swapcase() if ch.isascii() else ch for ch in s)


def gen_name(d, mx=35):
    return d.text(NAMECH, 1, min(mx, d.weighted([(6, 12), (2, mx)]))).strip() or "X"


def gen_date(d):
    return "%02d %s %02d  %02d:%02d:%02d" % (d.int(1, 28), d.choice(["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"]),
                                          d.choice([23, 0, 1, 22, 37, 80, 95, 99]), d.int(0, 23), d.int(0, 59), d.int(0, 59))


def gen_line(d, mx=300):
    return d.text(BODYCH, 0, d.weighted([(8, 40), (4, 79), (2, 210), (1, mx)]))


ZONES = [1, 2, 39, 0x123]
NETS = [100, 101, 5, 2000, 65000]
NODES = [1, 2, 3, 10, 999, 40000]


def gen_addr(d, zones=ZONES, pointp=0.2):
    return Addr(d.choice(zones), d.choice(NETS), d.choice(NODES), d.choice([1, 2, 17, 4000]) if d.bool(pointp) else 0)


# -------------------------------------------------------------------- config
class Cfg(dict):
    __getattr__ = dict.__getitem__
    __setattr__ = dict.__setitem__


def gen_system(d, maxnodes=6, aka_points=0.15, packers=True, nodeflags=None):
    """akas, nodes and switches common to the tossing properties"""
    c = Cfg()
    used = set()

    def newaddr(zones=ZONES, pointp=0.2):
        for _ in range(40):
            a = gen_addr(d, zones, pointp)
            if a not in used:
                used.add(a)
                return a
        while True:
            a = Addr(d.choice(zones), 7000 + len(used), 1, 0)
            if a not in used:
                used.add(a)
                return a
    c.akas = []
    for i in range(d.weighted([(4, 1), (3, 2), (1, 3)])):
        c.akas.append(Cfg(addr=newaddr(pointp=aka_points if i == 0 else 0.1), domain="", addnodes=[], remnodes=[]))
    main = c.akas[0].addr.zone
    c.nodes = []
    for i in range(d.int(1, maxnodes)):
        zs = [main] if d.bool(0.6) else ZONES
        a = newaddr(zs)
        n = Cfg(addr=a, packer="PK" if packers and d.bool(0.5) else "", pw=d.choice(["", "secret", "Pw1", "eightchr"]) if d.bool(0.4) else "",
                flags=[], pktfrom=None, pri="", defgroup="", af=None, autoadd=False)
        for f, p in (nodeflags or {"PASSIVE": 0.08, "NOSEENBY": 0.08, "TINYSEENBY": 0.12, "AUTOADD": 0.15}).items():
            if d.bool(p):
                n.flags.append(f)
        if d.bool(0.15):
            n.pri = d.choice(["CRASH", "DIRECT", "HOLD"])
        if d.bool(0.1):
            n.pktfrom = d.choice(c.akas).addr if d.bool(0.5) else gen_addr(d)
        if d.bool(0.25):
            n.defgroup = d.choice("ABC")
        if d.bool(0.25):
            n.af = ("pw", d.choice(["A", "AB", ""]), d.choice(["", "B", "C"]), d.choice(["", "A", "BC"]))
        c.nodes.append(n)
    c.switches = []
    c.areas = []
    c.extra = []
    c.dupemode = None
    c.dupesize = 200
    c.defaultzone = d.choice(ZONES)
    c.maxpkt = None
    c.routes = None
    return c


def areatext(w, a):
    kw = {"bad": "AREA", "default": "AREA", "echo": "AREA", "net": "NETMAIL", "local": "LOCALAREA"}[a.kind]
    s = '%s %s %s' % (kw, q(a.tag), a.aka)
    if a.mb:
        s += ' %s %s' % (a.mb, q(a.path if a.path.startswith("/") else w.p("a", a.path)))
    s += "\n"
    if a.get("exports"):
        s += "EXPORT " + " ".join(f + str(n.full) for f, n in a.exports) + "\n"
    if a.get("imports"):
        s += "IMPORT " + " ".join(str(n.full) for n in a.imports) + "\n"
    if a.get("banned"):
        s += "BANNED " + " ".join(str(n.full) for n in a.banned) + "\n"
    if a.get("group"):
        s += "GROUP %s\n" % a.group
    if a.get("desc"):
        s += "DESCRIPTION %s\n" % q(a.desc)
    for o in a.get("opts", []):
        s += o + "\n"
    return s


def cfgtext(w, c):
    s = "; generated\n"
    s += "SYSOP %s\n" % q(c.get("sysop", "Sys Op"))
    s += "LOGFILE %s\nLOGLEVEL %d\n" % (q(w.p("log")), c.get("loglevel", 3))
    if c.dupemode:
        s += "DUPEFILE %s %d\nDUPEMODE %s\n" % (q(w.p("dupes")), c.dupesize, c.dupemode)
    s += "DEFAULTZONE %d\n" % c.defaultzone
    s += "INBOUND %s\nOUTBOUND %s\nTEMPDIR %s\nCREATEPKTDIR %s\nPACKETDIR %s\nSTATSFILE %s\n" % tuple(
        q(w.p(x)) for x in ("in", "out", "tmp", "cp", "pd", "stats"))
    if c.maxpkt:
        s += "MAXPKTSIZE %d\n" % c.maxpkt
    if c.get("maxbundle"):
        s += "MAXBUNDLESIZE %d\n" % c.maxbundle
    s += 'PACKER "PK" "%s a %%a %%f" "%s x %%a" "PKAR"\n' % (w.env.pk, w.env.pk)
    for n, can in c.get("packers", []):
        s += 'PACKER %s "%s" "%s x %%a" "%s"\n' % (q(n), w.env.pk + " a %a %f" if can else "", w.env.pk, "PKAR" if can else "NOPE")
    for a in c.akas:
        s += "AKA %s\n" % a.addr.full
        if a.domain:
            s += "DOMAIN %s\n" % a.domain
        for x in a.addnodes:
            s += "ADDNODE %s\n" % x
        for x in a.remnodes:
            s += "REMNODE %s\n" % x
    for n in c.nodes:
        s += 'NODE %s %s %s %s %s\n' % (n.addr.full, q(n.packer), q(n.pw), " ".join(n.flags), n.pri)
        if n.pktfrom:
            s += "PKTFROM %s\n" % n.pktfrom.full
        if n.defgroup:
            s += "DEFAULTGROUP %s\n" % n.defgroup
        if n.af:
            s += "AREAFIXINFO %s %s %s %s\n" % tuple(q(x) for x in n.af)
        for l in n.get("lines", []):
            s += l + "\n"
    for x in c.switches:
        s += x + "\n"
    for x in c.extra:
        s += x + "\n"
    for r in c.routes if c.routes is not None else [("*:*/*.*", "*:*/*.*", c.akas[0].addr)]:
        s += "ROUTE %s %s %s\n" % (q(r[0]), q(r[1]), r[2].full)
    for a in c.areas:
        s += areatext(w, a)
    for x in c.get("tail", []):
        s += x + "\n"
    return s


TAGCH = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789._-&!abc"


def gen_tag(d, taken, mx=60):
    for _ in range(60):
        t = d.choice("ABCDEFGHIJ") + d.text(TAGCH, 0, d.weighted([(8, 10), (1, mx)]))
        if t.upper() not in taken and not t.upper().startswith(("BAD", "DEFAULT")):
            taken.add(t.upper())
            return t
    t = "T%d" % len(taken)
    taken.add(t)
    return t


def gen_areas(d, c, n=(1, 4), mbs=("MSG", "MSG", "JAM", None), flags=("", "", "", "%", "!", "@"), linkp=0.6):
    taken = set(a.tag.upper() for a in c.areas)
    for i in range(d.int(*n)):
        mb = d.choice(mbs)
        a = Cfg(kind="echo", tag=gen_tag(d, taken), aka=d.choice(c.akas).addr, mb=mb, path="e%d" % i, opts=[], exports=[], group="", banned=[], desc="")
        for x in c.nodes:
            if d.bool(linkp):
                a.exports.append((d.choice(flags), x.addr))
        a.exports = d.shuffle(a.exports)
        if d.bool(0.12):
            a.opts.append("IGNORESEENBY")
        if d.bool(0.1):
            a.opts.append("IGNOREDUPES")
        if d.bool(0.06):
            a.opts.append("UNCONFIRMED")
        if d.bool(0.3):
            a.group = d.choice("ABC")
        c.areas.append(a)


def add_std_areas(d, c, bad="MSG", net="MSG"):
    if bad:
        c.areas.append(Cfg(kind="bad", tag="BAD", aka=c.akas[0].addr, mb=bad, path="bad", opts=[]))
    if net:
        c.areas.append(Cfg(kind="net", tag="NETMAIL", aka=c.akas[0].addr, mb=net, path="net", opts=[], imports=[]))


# -------------------------------------------------------------------- echomail messages
def gen_2dlist(d, c, lo, hi):
    """nodes for SEEN-BY / PATH: mixture of configured and foreign ones"""
    pool = [(x.addr.net, x.addr.node) for x in c.nodes] + [(x.addr.net, x.addr.node) for x in c.akas]
    out = []
    for _ in range(d.int(lo, hi)):
        out.append(d.choice(pool) if d.bool(0.5) else (d.choice(NETS + [1, 65535]), d.choice(NODES + [0, 65535, 33])))
    return out


def fmt_2d(lst, prefix, width=79, fmt="abbr"):
    """lines of 2D addresses abbreviated the usual way"""
    lines, cur, net = [], prefix, None
    for n, f in lst:
        if fmt == "full" or fmt == "mixed" and f % 2:
            net = None
        t = " %d/%d" % (n, f) if n != net else " %d" % f
        if len(cur) + len(t) > width:
            lines.append(cur)
            cur, t = prefix, " %d/%d" % (n, f)
        cur += t
        net = n
    if cur != prefix:
        lines.append(cur)
    return lines


def gen_echo_msg(d, c, tag, tok, msgid=None, big=False):
    m = Cfg(tag=tag, frm=gen_name(d), to=gen_name(d), date=gen_date(d), attr=d.choice([0, 0, 1, 0x100, 0x9, 0x118, 0xffff]), cost=d.choice([0, 0, 7, 65535]))
    m.subj = d.choice(["", "", "", "Re: ", "RE: Re: ", "Re^2: ", "Re[3]: ", "Re:", "Regarding "]) + d.text(SUBJCH, 0, 30).strip() + " #%d" % tok
    L = []
    if msgid is not None:
        L.append("\x01MSGID: " + msgid + "\r")
    for _ in range(d.int(0, 2)):
        L.append("\x01" + d.choice(["PID: foo 1.0", "CHRS: LATIN-1 2", "TZUTC: 0100", "REPLY: 1:1/1 abcd", "XYZ: " + gen_line(d, 100)]) + "\r")
    if d.bool(0.06):
        L.append("\x01RESCANNED 1:1/1\r")
    for _ in range(d.int(0, 5)):
        L.append(gen_line(d) + d.weighted([(12, "\r"), (1, "\r\n"), (1, "\n")]))
    if big:
        for _ in range(d.int(1, 30)):
            L.append("x" * d.int(1, 197) + d.text("yz", 0, 9) + d.weighted([(9, "\r"), (1, "")]))
    if d.bool(0.6):
        L.append("--- tear\r * Origin: somewhere (1:2/%d)\r" % d.int(1, 9))
    sb = gen_2dlist(d, c, 0, d.weighted([(5, 4), (3, 15), (1, 120)]))
    pa = gen_2dlist(d, c, 0, d.weighted([(5, 3), (2, 12), (1, 60)]))
    # kludge-like text must not look like a control line
    L = [l for l in L if not l.startswith(("SEEN-BY:", "\x01PATH:"))]
    m.body = "".join(L)
    if d.bool(0.06) and not sb and not pa:
        m.body = m.body.rstrip("\r\n")
    # real control lines start at a line boundary
    if m.body and m.body[-1] not in "\r\n":
        if sb or pa or not d.bool(0.3):
            m.body += "\r"
    m.sb = sb
    m.pa = pa
    m.sbfirst = not d.bool(0.05)
    m.tok = tok
    return m


def echo_text(m):
    s = "AREA:" + m.tag + "\r" + m.body
    a = "".join(l + "\r" for l in fmt_2d(m.sb, "SEEN-BY:", fmt=m.get("fmt", "abbr")))
    b = "".join(l + "\r" for l in fmt_2d(m.pa, "\x01PATH:", fmt=m.get("fmt", "abbr")))
    s += a + b if m.sbfirst else b + a
    return s.encode("latin-1")


def raw_echo(m, orig, dest):
    L = lambda s: s.encode("latin-1")
    return pkt_msg(orig.net, orig.node, dest.net, dest.node, m.attr, m.cost, L(m.date), L(m.to), L(m.frm), L(m.subj), echo_text(m))


def pat2d(pat, net, node):
    a, b = pat.split("/")
    return patnum(a, net) and patnum(b, node)


def patnum(p, n):
    """CrashMail number pattern: ? is one digit, * the rest"""
    s = str(n)
    i = 0
    for ch in p:
        if ch == "*":
            return True
        if i >= len(s):
            return False
        if ch != "?" and ch != s[i]:
            return False
        i += 1
    return i == len(s)


def strip_re(s):
    while True:
        l = s.lower()
        if l.startswith("re:"):
            s = s[3:]
        elif l.startswith("re^") and len(s) > 4 and s[4] == ":":
            s = s[5:]
        elif l.startswith("re[") and len(s) > 5 and s[4] == "]" and s[5] == ":":
            s = s[6:]
        else:
            return s
        if s.startswith(" "):
            s = s[1:]


# -------------------------------------------------------------------- reference model
def same(a, b):
    """address equality where zone 0 means unspecified"""
    return a[1:] == b[1:] and (a[0] == b[0] or a[0] == 0 or b[0] == 0)


class EchoModel:
    def __init__(self, c):
        self.c = c
        self.areas = [Cfg(a, exports=list(a.get("exports", []))) for a in c.areas]
        self.nodes = c.nodes
        self.dupes = []          # list of (msgid, area) oldest first
        self.deliver = []        # (dest, tok, Expect)
        self.imports = []        # (area, Expect)
        self.bad = []            # (tok, reason, Expect)
        self.dead = []           # toks suppressed as duplicates
        self.autoadded = []

    def node(self, a):
        for n in self.nodes:
            if same(n.addr, a):
                return n

    def area(self, tag):
        for a in self.areas:
            if a.tag.lower() == tag.lower():
                return a

    def fix_orig(self, orig, dest, kind):
        c = self.c
        if kind == "2":
            o = Addr(0, orig.net, orig.node, 0)
            t = Addr(0, dest.net, dest.node, 0)
        elif kind == "2q":
            o = Addr(orig.zone, orig.net, orig.node, 0)
            t = Addr(dest.zone, dest.net, dest.node, 0)
        else:
            return orig, dest
        if o.zone == 0:
            for n in self.nodes:
                if same(n.addr, o):
                    o = Addr(n.addr.zone, *o[1:])
                    break
            else:
                o = Addr(c.defaultzone, *o[1:])
        if t.zone == 0:
            for k in c.akas:
                if same(k.addr, t):
                    t = Addr(k.addr.zone, *t[1:])
                    break
            else:
                t = Addr(c.defaultzone, *t[1:])
        return o, t

    def autoadd(self, tag, orig, dest, node):
        c = self.c
        active = bool(node and "AUTOADD" in node.flags)
        aka = next((k.addr for k in c.akas if same(k.addr, dest)), c.akas[0].addr)
        a = Cfg(kind="echo", tag=tag, aka=aka, mb=None, path="", opts=[], exports=[], group="", banned=[], desc="", auto=True)
        dflt = None
        if node and node.defgroup:
            dflt = next((x for x in self.areas if x.kind == "default" and x.tag.upper().startswith("DEFAULT_") and node.defgroup in x.tag[8:]), None)
        if not dflt:
            dflt = next((x for x in self.areas if x.tag.upper() == "DEFAULT"), None)
        if dflt:
            a.mb = dflt.mb
            a.opts = [o for o in dflt.opts if o.split()[0] in ("MANDATORY", "DEFREADONLY", "IGNOREDUPES", "IGNORESEENBY", "KEEPNUM", "KEEPDAYS")]
            a.dflt = dflt
            a.path = dflt.path
            a.desc = dflt.get("desc", "")
            for f, n in dflt.exports:
                if n not in [x for _, x in a.exports]:
                    a.exports.append((f, n))
        if not active:
            a.opts = ["UNCONFIRMED"] + [o for o in a.opts if o.split()[0] in ("KEEPNUM", "KEEPDAYS")]
        if node:
            a.group = node.defgroup
            if not any(n == node.addr for _, n in a.exports):
                a.exports.append(("%", node.addr))
            for n in self.nodes:
                if n.af and a.group and a.group in n.af[3]:
                    ro = "DEFREADONLY" in a.opts or a.group in n.af[2]
                    if not any(x == n.addr for _, x in a.exports):
                        a.exports.append(("!" if ro else "", n.addr))
        self.areas.append(a)
        self.autoadded.append(a)
        return a

    def toss(self, orig, dest, kind, m, nosec=False):
        c = self.c
        orig, dest = self.fix_orig(orig, dest, kind)
        sender = self.node(orig)
        tag = m.tag.strip()
        a = self.area(tag)
        exp = Cfg(m=m, orig=orig, dest=dest, tag=tag)
        if a is None and (tag.upper() in ("BAD", "DEFAULT") or tag.upper().startswith("DEFAULT_")) or a is not None and a.kind != "echo":
            return self.bad.append((m.tok, "not an echomail area", exp))
        if a is None:
            a = self.autoadd(tag, orig, dest, sender)
        if "UNCONFIRMED" in a.opts:
            return self.bad.append((m.tok, "unconfirmed", exp))
        if not nosec:
            link = next((l for l in a.exports if same(l[1], orig)), None)
            if link is None:
                return self.bad.append((m.tok, "unlinked", exp))
            if link[0] == "!":
                return self.bad.append((m.tok, "readonly", exp))
        aka = next(k for k in c.akas if k.addr == a.aka)
        sb = set((n, f) for n, f in m.sb) if a.aka.zone == orig.zone else set()
        insb = set()
        if "CHECKSEENBY" in c.switches and "IGNORESEENBY" not in a.opts:
            insb = set(n for _, n in a.exports if n.zone == a.aka.zone and n.point == 0 and (n.net, n.node) in sb)
        out = set(sb)
        for f, n in a.exports:
            if n.point == 0 and n.zone == a.aka.zone and f != "@" and "PASSIVE" not in self.node(n).flags:
                out.add((n.net, n.node))
        out = set(x for x in out if not any(pat2d(p, *x) for p in aka.remnodes))
        for x in aka.addnodes:
            t = A(x)
            out.add((t.net, t.node))
        if a.aka.point == 0:
            out.add((a.aka.net, a.aka.node))
        out.discard((0, 0))
        exp.sb = out
        path = [(n, f, 0) for n, f in m.pa]
        if a.aka.point == 0 or "PATH3D" in c.switches:
            me = (a.aka.net, a.aka.node, a.aka.point)
            if not path or path[-1] != me:
                path = path + [me]
        exp.path = path
        exp.area = a
        mid = re.search("(?:^|[\r\n])\x01MSGID: ([^\r\n]*)", m.body)
        if c.dupemode in ("BAD", "KILL") and "IGNOREDUPES" not in a.opts and mid and mid[1]:
            key = (mid[1][:79], tag.lower())
            if key in self.dupes:
                self.dead.append(m.tok)
                if c.dupemode == "BAD":
                    self.bad.append((m.tok, "duplicate", exp))
                return
            self.dupes.append(key)
            if len(self.dupes) > c.dupesize:
                self.dupes.pop(0)
        resc = "\x01RESCANNED" in re.split("[\r\n]", m.body) or any(l.startswith("\x01RESCANNED") for l in re.split("[\r\n]", m.body))
        if not resc:
            for f, n in a.exports:
                if same(n, orig) or f == "@" or "PASSIVE" in self.node(n).flags or n in insb:
                    continue
                self.deliver.append((n, m.tok, exp))
        if a.mb:
            self.imports.append((a, m.tok, exp))


def exp_body(m):
    """text as it must be passed on: unaltered, but with its last line ended
    (LF is not a line end in FTS-0001) so that control lines can follow"""
    b = m.body.encode("latin-1")
    t = b.rstrip(b"\n")
    if t and not t.endswith(b"\r"):
        b += b"\r"
    return b


def tok_of(subj):
    mm = re.search(rb"#(\d+)$", subj)
    return int(mm[1]) if mm else None


def check_delivery(w, model, c, content=True, ctrl=True):
    """compare the outbound with the model"""
    main = c.akas[0].addr.zone
    got = w.queued_messages(main)
    want = {}
    for n, tok, e in model.deliver:
        want.setdefault((n, tok), []).append(e)
    have = {}
    for dest, fl, how, h, m in got:
        tok = tok_of(m.subj)
        have.setdefault((dest, tok), []).append((fl, how, h, m))
    for k in sorted(set(want) | set(have), key=repr):
        a, b = len(want.get(k, [])), len(have.get(k, []))
        if a != b:
            raise Fail("message #%s to %s: expected %d copies queued, found %d" % (k[1], k[0], a, b))
    for k, es in want.items():
        e = es[0]
        node = model.node(k[0])
        for fl, how, h, m in have[k]:
            check_copy(e, node, fl, how, h, m, c, content, ctrl)
    return len(got)


def check_copy(e, node, fl, how, h, m, c, content, ctrl):
    L = lambda s: s.encode("latin-1")
    who = "copy of #%d for %s" % (e.m.tok, node.addr)
    src = node.pktfrom or e.area.aka
    tag, body, sb, path = split_echo(m.text)
    if content:
        if h["dest"] != node.addr or h["orig"] != src:
            raise Fail("%s: packet header says %s -> %s, expected %s -> %s" % (who, h["orig"], h["dest"], src, node.addr))
        if h["rawpw"] != L(node.pw[:8]).ljust(8, b"\0"):
            raise Fail("%s: packet password %r instead of %r" % (who, h["rawpw"], node.pw))
        if (m.onet, m.onode, m.dnet, m.dnode) != (src.net, src.node, node.addr.net, node.addr.node):
            raise Fail("%s: message header addresses %r" % (who, (m.onet, m.onode, m.dnet, m.dnode)))
        pri = {"": "normal"}.get(node.pri, node.pri.lower())
        if fl != pri:
            raise Fail("%s queued with flavour %s instead of %s" % (who, fl, pri))
        if how != ("bundle" if node.packer else "plain"):
            raise Fail("%s sent as %s" % (who, how))
        for f, x, y in (("from", m.frm, L(e.m.frm)), ("to", m.to, L(e.m.to)), ("subject", m.subj, L(e.m.subj)), ("date", m.date, L(e.m.date)),
                        ("attributes", m.attr, e.m.attr), ("cost", m.cost, e.m.cost)):
            if x != y:
                raise Fail("%s: %s is %r, expected %r" % (who, f, x, y))
        if tag is None or tag.lower() != L(e.tag).lower():
            raise Fail("%s: area tag %r instead of %r" % (who, tag, e.tag))
        if body != exp_body(e.m):
            raise Fail("%s: text differs: %r expected %r" % (who, body, exp_body(e.m)))
    if ctrl:
        check_seenby(who, sb, sbset_for(e, node))
        check_path(who, path, e.path)
        # control lines come after the text, SEEN-BY before PATH
        tail = b"".join(l + b"\r" for l in sb) + b"".join(l + b"\r" for l in path)
        if not m.text.endswith(tail):
            raise Fail("%s: control lines are not SEEN-BY then PATH at the end of the message" % who)


def sbset_for(e, node):
    if node.addr.zone != e.area.aka.zone or "TINYSEENBY" in node.flags:
        s = set()
        if node.addr.point == 0:
            s.add((node.addr.net, node.addr.node))
        if e.area.aka.point == 0:
            s.add((e.area.aka.net, e.area.aka.node))
        s.discard((0, 0))
        return s
    if "NOSEENBY" in node.flags:
        return set()
    return e.sb


def check_seenby(who, lines, want):
    seq = [(a, b) for a, b, _ in parse_2d(lines, 8)]
    if sorted(seq) != sorted(want):
        raise Fail("%s: SEEN-BY missing %s, extra %s%s" % (who, sorted(set(want) - set(seq)), sorted(set(seq) - set(want)),
                                                       "" if len(seq) == len(set(seq)) else ", repeated entries"))
    if seq != sorted(seq):
        raise Fail("%s: SEEN-BY not in ascending order: %r" % (who, lines))
    for l in lines:
        if len(l) > 79 or not l.startswith(b"SEEN-BY: "):
            raise Fail("%s: bad SEEN-BY line %r" % (who, l))


def check_path(who, lines, want):
    seq = parse_2d(lines, 6)
    if seq != [tuple(x) for x in want]:
        raise Fail("%s: PATH is %r, expected %r" % (who, seq, want))


def check_bad(w, model, content=True):
    area = next((a for a in model.areas if a.kind == "bad"), None)
    if not area or not area.mb:
        return
    msgs = list(read_msgdir(w.p("a", area.path)).values())
    have = {}
    for m in msgs:
        have.setdefault(tok_of(m.subj), []).append(m)
    want = {}
    for tok, reason, e in model.bad:
        want.setdefault(tok, []).append((reason, e))
    for t in sorted(set(want) | set(have), key=repr):
        if len(want.get(t, [])) != len(have.get(t, [])):
            raise Fail("message #%s: %d copies in the BAD area, expected %d (%s)" % (
                t, len(have.get(t, [])), len(want.get(t, [])), ",".join(r for r, _ in want.get(t, []))))
    if content:
        for t, es in want.items():
            for m in have[t]:
                e = es[0][1]
                L = lambda s: s.encode("latin-1")
                if (m.frm, m.to, m.subj, m.date) != (L(e.m.frm), L(e.m.to), L(e.m.subj), L(e.m.date)):
                    raise Fail("BAD copy of #%d: header altered: %r" % (t, m.key()))
                ls = lines_of(m.text)
                if not ls or ls[0].rstrip(b"\r").lower() != b"area:" + L(e.tag).lower():
                    raise Fail("BAD copy of #%d does not name its area: %r" % (t, ls[:1]))
                if L("PKTORIG:" + e.orig.full) + b"\r" not in ls[:4]:
                    raise Fail("BAD copy of #%d does not name the sending system %s: %r" % (t, e.orig.full, ls[:4]))
                if not any(l.startswith(b"ERROR:") for l in ls[:5]):
                    raise Fail("BAD copy of #%d has no reason" % t)
                body = split_echo(m.text)[1]
                b = exp_body(e.m)
                k = body.find(b"ERROR:")
                k = body.find(b"\r", k) + 1
                if body[k:] != b and body[k:] != L(e.m.body):
                    raise Fail("BAD copy of #%d: text differs: %r expected %r" % (t, body[k:], b))


def check_imports(w, model, c, content=True, ctrl=False):
    for a in model.areas:
        if a.kind != "echo" or not a.mb or a.get("auto") and "UNCONFIRMED" in a.opts:
            continue
        want = [e for x, tok, e in model.imports if x is a]
        base = area_path(w, a)
        if a.mb == "MSG":
            got = read_msgdir(base)
            lst = [got[n] for n in sorted(got)]
            if [tok_of(m.subj) for m in lst] != [e.m.tok for e in want]:
                raise Fail("area %s contains messages %r, expected %r" % (a.tag, [tok_of(m.subj) for m in lst], [e.m.tok for e in want]))
            if sorted(got) != list(range(2, 2 + len(got))):
                raise Fail("area %s message numbers %r" % (a.tag, sorted(got)))
            for m, e in zip(lst, want):
                check_imported(a, m, e, c, content, ctrl)
        else:
            if not want and not os.path.exists(base + ".jhr"):
                continue
            jb = read_jam(base)
            lst = [jb.msgs[n] for n in sorted(jb.msgs)]
            if [tok_of(m.one("SUBJECT")) for m in lst] != [e.m.tok for e in want]:
                raise Fail("area %s contains messages %r, expected %r" % (a.tag, [tok_of(m.one("SUBJECT")) for m in lst], [e.m.tok for e in want]))
            for m, e in zip(lst, want):
                L = lambda s: s.encode("latin-1")
                if (m.one("SENDERNAME"), m.one("RECEIVERNAME")) != (L(e.m.frm), L(e.m.to)):
                    raise Fail("area %s #%d names differ" % (a.tag, e.m.tok))


def area_path(w, a):
    if a.get("realpath"):
        return a.realpath
    if a.get("auto"):
        tag = re.sub(r"[^!-~]|[\"#'`()*,./:;<>|]", "_", a.tag)
        return w.p("a", a.path.replace("%a", tag).replace("%l", tag.lower()))
    return w.p("a", a.path)


def check_imported(a, m, e, c, content, ctrl):
    L = lambda s: s.encode("latin-1")
    who = "imported #%d in %s" % (e.m.tok, a.tag)
    subj = e.m.subj
    if "STRIPRE" in c.switches:
        subj = strip_re(subj)
    _, body, sb, path = split_echo(m.text)
    if content:
        for f, x, y in (("from", m.frm, L(e.m.frm)), ("to", m.to, L(e.m.to)), ("subject", m.subj, L(subj)), ("date", m.date, L(e.m.date)),
                        ("attributes", m.attr, (e.m.attr | SENT) & ~LOCAL), ("cost", m.cost, e.m.cost)):
            if x != y:
                raise Fail("%s: %s is %r, expected %r" % (who, f, x, y))
        if body != exp_body(e.m):
            raise Fail("%s: text differs: %r expected %r" % (who, body, exp_body(e.m)))
    if ctrl:
        check_seenby(who, sb, e.sb if "IMPORTSEENBY" in c.switches else set())
        check_path(who, path, e.path)


def check_clean(w, allow_in=()):
    """no debris: inbound consumed, nothing half-finished"""
    left = sorted(os.listdir(w.p("in")))
    if left != sorted(allow_in):
        raise Fail("inbound holds %r after tossing, expected %r" % (left, sorted(allow_in)))
    if os.listdir(w.p("cp")):
        raise Fail("packet creation directory not empty: %r" % os.listdir(w.p("cp")))
    odd = [f for f in os.listdir(w.p("pd")) if f.endswith((".pkttmp", ".orphan"))]
    if odd:
        raise Fail("unsent packets left: %r" % odd)
    if os.path.exists(w.p("cfg.busy")):
        raise Fail("configuration left locked")
