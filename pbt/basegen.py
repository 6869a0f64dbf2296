"""Histories over message bases: messages written by a local editor, received, deleted,
exported and rescanned; with an independent model of every base."""
import calendar, shutil
from .fido import *
from .tossgen import *
from .netgen import fido_time
from .core import Fail

L1 = lambda s: s.encode("latin-1")
TZOFF = {"UTC": 0, "XST-5:30": 19800, "YST+8": -28800, "ZST-12": 43200}
EXPORTABLE = PVT | CRASH | FILEATTACH | FILEREQ | RREQ | IRRR | AUDIT | HOLD
TIDRE = rb"(?:\A|(?<=[\r\n]))\x01TID: CrashMail II/[^\r]*\r"


def gen_base_system(d, switches, jam=0.5, net=0.6, maxnodes=4, sb=0.3, nareas=(1, 4), mbs=("MSG", "JAM", "JAM")):
    c = gen_system(d, maxnodes=maxnodes, nodeflags={"PASSIVE": 0.05, "NOSEENBY": 0.08, "TINYSEENBY": 0.1})
    for n in c.nodes:
        n.defgroup, n.af = "", None
    c.areas.append(Cfg(kind="bad", tag="BAD", aka=c.akas[0].addr, mb="MSG", path="bad", opts=[]))
    gen_areas(d, c, n=nareas, mbs=mbs, flags=("", "", "", "%", "!", "@"), linkp=0.7)
    for a in c.areas:
        a.opts = [o for o in a.opts if o != "UNCONFIRMED"]
    if d.bool(net):
        for i in range(d.int(1, 2)):
            c.areas.append(Cfg(kind="net", tag="NET%d" % i, aka=d.choice(c.akas).addr, mb=d.choice(["MSG", "JAM"]), path="n%d" % i, opts=[], imports=[]))
    if d.bool(0.2):
        c.areas.append(Cfg(kind="local", tag="LOC", aka=c.akas[0].addr, mb=d.choice(["MSG", "JAM"]), path="loc", opts=[]))
    c.areas = c.areas[:1] + d.shuffle(c.areas[1:])
    for s, p in switches.items():
        if d.bool(p):
            c.switches.append(s)
    if d.bool(0.4):
        c.extra.append("JAM_MAXOPEN %d" % d.int(1, 2))
    c.route_to = d.choice(c.nodes).addr
    c.routes = [("*:*/*.*", c.route_to.full, c.akas[0].addr)]
    if d.bool(0.2):
        c.maxpkt = 1
    c.tz = d.choice(["UTC", "UTC", "XST-5:30", "YST+8", "ZST-12"])
    for a in c.areas:
        a.base = d.choice([1, 1, 1, 2, 500]) if a.mb == "JAM" and d.bool(0.3) else None     # pre-created base
        a.first = d.choice([2, 2, 2, 3, 40, 998, 65533]) if a.mb == "MSG" else None
    return c


def gen_local(d, c, a, tok, ids):
    """a message the user writes with an editor"""
    m = Cfg(tok=tok, frm=gen_name(d), to=gen_name(d), date=gen_date(d), cost=d.choice([0, 0, 3]), area=a.tag)
    m.subj = d.text(SUBJCH, 0, d.choice([10, 60])).strip() + " #%d" % tok
    m.attr = LOCAL
    if d.bool(0.1):
        m.attr |= SENT
    if d.bool(0.1):
        m.attr &= ~LOCAL
    for f in (PVT, CRASH, HOLD, KILLSENT, RECD, RREQ, FILEREQ, IRRR, AUDIT, ORPHAN, UPDREQ):
        if d.bool(0.12 if f != KILLSENT else 0.3):
            m.attr |= f
    m.jattr = 0
    if a.mb == "JAM":
        for _, j, f in JAMFLAGS:
            if not f and d.bool(0.08):
                m.jattr |= j
    m.encl = []
    if a.mb == "JAM" and a.kind == "echo" and d.bool(0.08):
        m.encl = ["%s.zip #%d" % (d.choice(["file", "/some/dir/" + "f" * 40, "f" * 90]), tok)] + ["second.zip"] * d.int(0, 1)
        m.encl = [x if len(x) <= 71 else "cut %s" % x[-60:] for x in m.encl]
    L = []
    m.msgid = None
    if d.bool(0.7):
        m.msgid = d.weighted([(3, "%d:1/2 %08x"), (1, "%dx@gw.example.org_and_a_fairly_long_identifier_to_go_with_it %08x"), (1, "\xe5%d %08x")]) % (1, tok + 0xabc)
        L.append("\x01MSGID: " + m.msgid + "\r")
    m.reply = None
    if ids and d.bool(0.5):
        m.reply = d.choice(ids)
        L.append("\x01REPLY: " + m.reply + "\r")
    for _ in range(d.int(0, 2)):
        L.append("\x01" + d.choice(["PID: editor 1.0", "CHRS: LATIN-1 2", "TZUTC: 0100", "FLAGS: XYZ ABC", "NOTE: " + d.text("abc def", 0, 9).strip(), "REALNAME: \xc5sa \xc5",
                                     "LONG: " + "k" * d.int(60, 450)]) + "\r")
    L = d.shuffle(L)
    for _ in range(d.int(1, 4)):
        l = gen_line(d)
        if l.startswith(("SEEN-BY:", " * Origin")) or l[:1] in ("\x01", "\n"):
            l = "x"
        L.append(l + "\r")
    if d.bool(0.06):
        L += ["z" * 99 + "\r"] * d.int(95, 230)
    if d.bool(0.6):
        L.append("--- ed\r * Origin: here (%s)\r" % str(a.aka))
    if d.bool(0.12):
        L[-1] = L[-1].rstrip("\r")
    m.text = "".join(L)
    if a.kind == "net":
        m.orig = a.aka
        m.dest = Addr(d.choice(ZONES), 7777, d.int(1, 5), d.choice([0, 0, 0, 9]))
        t = ""
        if a.mb == "MSG":
            if m.dest.zone != m.orig.zone or d.bool(0.7):
                t += "\x01INTL %d:%d/%d %d:%d/%d\r" % (m.dest[:3] + m.orig[:3])
            else:
                m.dest = Addr(a.aka.zone, *m.dest[1:])
            if m.orig.point:
                t += "\x01FMPT %d\r" % m.orig.point
            if m.dest.point:
                t += "\x01TOPT %d\r" % m.dest.point
        m.text = t + m.text
    else:
        m.orig = a.aka
        m.dest = None
    # echomail read back from the base may carry SEEN-BY and PATH
    m.sb, m.pa = [], []
    if a.kind == "echo" and d.bool(0.15):
        m.sb = sorted(set(gen_2dlist(d, c, 1, 12)))
        m.pa = gen_2dlist(d, c, 0, 5)
        if m.text[-1:] != "\r":
            m.text += "\r"
    return m


def stored_text(m):
    """editor's message as it is in a *.msg file"""
    t = m.text
    t += "".join(l + "\r" for l in fmt_2d(m.sb, "SEEN-BY:")) + "".join(l + "\r" for l in fmt_2d(m.pa, "\x01PATH:"))
    return L1(t)


class Rec(Cfg):
    """a message in a base: tok num frm to subj date attr(fido) jattr cost text(bytes, without SEEN-BY and PATH) sb path sent deleted"""


class Bases:
    """model of all bases"""

    def __init__(self, w, c):
        self.w, self.c = w, c
        self.b = {a.tag: [] for a in c.areas if a.mb}
        self.top = {a.tag: ((a.base or 1) - 1 if a.mb == "JAM" else 1) for a in c.areas if a.mb}
        self.hw = {a.tag: 0 for a in c.areas if a.mb}
        self.area = {a.tag: a for a in c.areas}
        self.first = {a.tag: a.first for a in c.areas if a.mb}
        for a in c.areas:
            if a.mb == "JAM" and a.base:
                jam_create(w.p("a", a.path), a.base)
        self.hwon = {"MSG": "MSG_HIGHWATER" in c.switches, "JAM": "JAM_HIGHWATER" in c.switches}

    def write(self, m):
        """the editor adds a message"""
        w, a = self.w, self.area[m.area]
        r = Rec(tok=m.tok, frm=L1(m.frm), to=L1(m.to), subj=L1(m.subj), date=L1(m.date), attr=m.attr, jattr=m.jattr, cost=m.cost, text=L1(m.text), sb=set(m.sb), path=[(n, f, 0) for n, f in m.pa],
                deleted=False, orig=m.orig, dest=m.dest, msgid=m.msgid, reply=m.reply, local=True, encl=m.get("encl", []))
        if a.mb == "MSG":
            r.num = max(self.top[a.tag] + 1, self.first[a.tag])
            os.makedirs(w.p("a", a.path), exist_ok=True)
            z = Addr(0, 0, 0)
            w.write("a/%s/%d.msg" % (a.path, r.num), make_msg(r.frm, r.to, r.subj, r.date, r.attr, stored_text(m), Addr(0, *r.orig[1:]) if a.kind == "net" else z, Addr(0, *r.dest[1:]) if a.kind == "net" else z, r.cost))
        else:
            sub, extra, body = jam_split(r.text)
            fields = [("SENDERNAME", r.frm), ("RECEIVERNAME", r.to), ("SUBJECT", r.subj), ("OADDRESS", L1(str(r.orig)))]
            if a.kind == "net":
                fields.append(("DADDRESS", L1(str(r.dest))))
            tail = [("SEENBY2D", L1(l[9:])) for l in fmt_2d(m.sb, "SEEN-BY:")] + [("PATH2D", L1(l[7:])) for l in fmt_2d(m.pa, "\x01PATH:")]
            r.jattr |= extra
            r.num = jam_append(w.p("a", a.path), [f for f in fields if f[1]] + sub + [("ENCLFILE", L1(x)) for x in r.encl] + tail, jam_attr(r.attr) | r.jattr | (J_TYPENET if a.kind == "net" else J_TYPEECHO), body, fido_time(m.date),
                               L1(m.msgid) if m.msgid else None, L1(m.reply) if m.reply else None, cost=m.cost)
        self.top[a.tag] = r.num
        self.b[a.tag].append(r)
        return r

    def delete(self, tag, k, index):
        a = self.area[tag]
        live = [r for r in self.b[tag] if not r.deleted]
        if a.mb == "MSG" and self.b[tag] and live and live[-1].num == self.top[tag]:
            live = live[:-1]          # with highwater marks the newest message must not be reused
        if not live:
            return
        r = live[k % len(live)]
        r.deleted = True
        if a.mb == "MSG":
            os.unlink(self.w.p("a", a.path, "%d.msg" % r.num))
        else:
            jam_delete(self.w.p("a", a.path), r.num, index)
            r.gone = index

    def imported(self, a, e):
        """a message was tossed into the area"""
        m = e.m
        subj = strip_re(m.subj) if "STRIPRE" in self.c.switches else m.subj
        r = Rec(tok=m.tok, frm=L1(m.frm), to=L1(m.to), subj=L1(subj), date=L1(m.date), attr=(m.attr | SENT) & ~LOCAL, jattr=0, cost=m.cost, text=exp_body(m), sb=e.sb if "IMPORTSEENBY" in self.c.switches else set(),
                path=e.path, deleted=False, orig=None, dest=None, local=False, reply=None, msgid=None)
        if a.mb == "MSG":
            r.num = self.top[a.tag] + 1
        else:
            if not m.date[2:3] == " ":
                if m.date[7:10] == "Foo":
                    r.date = jam_date(self.w.now + TZOFF[self.c.tz])
                else:
                    r.date = L1("%02d %s  %s:00" % (int(m.date[4:6]), m.date[7:13], m.date[14:19]))
            sub, extra, body = jam_split(r.text)
            r.jattr |= extra
            r.num = self.top[a.tag] + 1
            r.orig = origin_of(m, e)
        self.top[a.tag] = r.num
        self.b[a.tag].append(r)

    # ---------------- export
    def kludges(self, r, a, add):
        """text of the message when it leaves the base"""
        if a.mb == "MSG":
            ls = lines_of(r.text)
            i = 0
            while i < len(ls) and ls[i][:1] in (b"\x01", b"\n"):
                i += 1
            return b"".join(ls[:i]) + add + b"".join(ls[i:])
        sub, extra, body = jam_split(r.text)
        out = b""
        flags = b""
        for k, v in sub:
            if k == "FLAGS":
                flags = b"\x01FLAGS: " + v
            else:
                out += b"\x01" + {"MSGID": b"MSGID: ", "PID": b"PID: ", "REPLYID": b"REPLY: ", "FTSKLUDGE": b""}[k] + v + b"\r"
        for n, j, f in JAMFLAGS:
            if r.jattr & j and not f and n:
                flags = flags + b" " + L1(n) if flags else b"\x01FLAGS: " + L1(n)
        if flags:
            out += flags + b"\r"
        if a.kind == "net":
            if r.orig.zone != r.dest.zone or "FORCEINTL" in self.c.switches:
                out += b"\x01INTL %d:%d/%d %d:%d/%d\r" % (r.dest[:3] + r.orig[:3])
            if r.orig.point:
                out += b"\x01FMPT %d\r" % r.orig.point
            if r.dest.point:
                out += b"\x01TOPT %d\r" % r.dest.point
        return out + add + body

    def attr_out(self, r, a):
        at = r.attr
        if a.mb == "JAM":
            at = 0
            full = jam_attr(r.attr) | r.jattr
            for _, j, f in JAMFLAGS:
                if full & j:
                    at |= f
            if r.get("encl"):
                at |= FILEATTACH
        return at & EXPORTABLE

    def subj_out(self, r):
        """JAM keeps the name of an enclosed file apart from the subject"""
        return L1(r.encl[0]) if r.get("encl") else r.subj

    def to_export(self, tag):
        a = self.area[tag]
        out = []
        for r in self.b[tag]:
            full = r.attr
            if a.mb == "JAM":
                full = 0
                j_ = jam_attr(r.attr) | r.jattr
                for _, j, f in JAMFLAGS:
                    if j_ & j:
                        full |= f
            if not r.deleted and full & LOCAL and not full & SENT and (not self.hwon[a.mb] or r.num > self.hw[tag]):
                out.append(r)
        return out

    def exported(self, tag, recs):
        a = self.area[tag]
        if a.mb == "MSG":
            for r in recs:
                if r.attr & KILLSENT and "ALLOWKILLSENT" in self.c.switches and a.kind == "net":
                    r.deleted = True
                else:
                    r.attr |= SENT
                    r.exp = True
                    if r.num <= 65535:
                        self.hw[tag] = r.num
        else:
            for r in recs:
                if (r.attr & KILLSENT or r.jattr & J_KILLSENT) and "ALLOWKILLSENT" in self.c.switches and a.kind == "net":
                    r.deleted = True
                r.attr |= SENT
                r.exp = True
            self.hw[tag] = self.top[tag]

    def scanned_tags(self, how, args):
        """areas a scan command looks at"""
        c = self.c
        ok = lambda a: a.mb and a.kind in ("echo", "net")
        nx = "NOEXPORTNETMAIL" in c.switches
        if how == "SCAN":
            return [a.tag for a in c.areas if ok(a) and not (nx and a.kind == "net")]
        if how == "SCANAREA":
            return [a.tag for a in c.areas if ok(a) and a.tag.lower() == args[0].lower()]
        out = []
        for x in args:
            for a in c.areas:
                name = a.tag if how == "SCANLIST" else self.w.p("a", a.path)
                if a.mb and name.lower() == x.lower() or how == "SCANLIST" and name.lower() == x.lower():
                    if ok(a) and not (nx and a.kind == "net") and a.tag not in out:
                        out.append(a.tag)
                    break
        return out

    def scan(self, how, args):
        """run a scan and return expected exports [(area, rec)]"""
        w = self.w
        if how == "SCAN":
            w.crashmail("SCAN")
        elif how == "SCANAREA":
            w.crashmail("SCANAREA", args[0])
        elif how == "SCANLIST":
            w.write("list", "".join(x + "\n" for x in args))
            w.crashmail("SCANLIST", w.p("list"))
        else:
            w.write("list", "".join(x + "\n" for x in args))
            w.crashmail("SCANDOTJAM", w.p("list"))
        exp = []
        for t in self.scanned_tags(how, [x.split(" ")[0] if how == "SCANDOTJAM" else x.rstrip() for x in args]):
            recs = self.to_export(t)
            for r in recs:
                exp.append((self.area[t], Rec(r)))
            self.exported(t, recs)
        return exp

    # ---------------- comparison with the files
    def verify(self, content=True, only_local=False):
        for a in self.c.areas:
            if not a.mb or a.kind == "bad":
                continue
            want = {r.num: r for r in self.b[a.tag] if not r.deleted}
            if a.mb == "MSG":
                got = read_msgdir(self.w.p("a", a.path))
                got.pop(1, None)
            else:
                if not os.path.exists(self.w.p("a", a.path + ".jhr")):
                    got = {}
                else:
                    jb = read_jam(self.w.p("a", a.path))
                    got = jb.live
            if sorted(got) != sorted(want):
                raise Fail("area %s holds messages %r, expected %r" % (a.tag, sorted(got), sorted(want)))
            if content:
                for n, r in want.items():
                    if only_local and not r.local:
                        continue
                    self.verify_one(a, got[n], r)

    def verify_one(self, a, g, r):
        who = "message %d (#%d) in %s" % (r.num, r.tok, a.tag)
        v = g if a.mb == "MSG" else JView(g)
        for f, x, y in (("from", v.frm, r.frm), ("to", v.to, r.to), ("subject", v.subj, r.subj), ("date", v.date, r.date), ("cost", v.cost, r.cost)):
            if x != y:
                raise Fail("%s: %s is %r, expected %r" % (who, f, x, y))
        if a.mb == "MSG":
            if v.attr != r.attr:
                raise Fail("%s: attributes %x, expected %x" % (who, v.attr, r.attr))
            _, body, sb, path = split_echo(v.text) if a.kind == "echo" else (None, v.text, [], [])
            if r.get("exp") and "MSG_WRITEBACK" in self.c.switches:
                # written back with what export added
                body = re.sub(TIDRE, b"", body, count=1) if "ADDTID" in self.c.switches else body
                if a.kind == "net":
                    body = re.sub(rb"\x01Via [^\r]*\r$", b"", body)
                    if b"\x01INTL" not in r.text and "FORCEINTL" in self.c.switches:
                        body = re.sub(rb"\x01INTL [^\r]*\r", b"", body, count=1)
                if body.rstrip(b"\r") != r.text.rstrip(b"\r"):
                    raise Fail("%s: text written back differs: %r expected %r" % (who, body, r.text))
                return
            if body != r.text:
                raise Fail("%s: text is %r, expected %r" % (who, body, r.text))
            if a.kind == "echo":
                if set((x, y) for x, y, _ in parse_2d(sb, 8)) != r.sb:
                    raise Fail("%s: SEEN-BY %r, expected %r" % (who, sb, sorted(r.sb)))
                check_path(who, path, r.path)
            return
        attr = jam_attr(r.attr) | r.jattr
        if v.attr != attr:
            raise Fail("%s: attributes %x, expected %x" % (who, v.attr, attr))
        if bool(g.attr & J_TYPENET) != (a.kind == "net") or bool(g.attr & J_TYPEECHO) != (a.kind != "net"):
            raise Fail("%s: wrong message type %x" % (who, g.attr))
        sub, _, body = jam_split(r.text)
        if v.text[0] != sub:
            raise Fail("%s: control lines %r, expected %r" % (who, v.text[0], sub))
        if v.text[1] != body:
            raise Fail("%s: text is %r, expected %r" % (who, v.text[1], body))
        if a.kind == "echo":
            if set((x, y) for x, y, _ in parse_2d(g.all("SEENBY2D"), 0)) != r.sb:
                raise Fail("%s: SEEN-BY %r, expected %r" % (who, g.all("SEENBY2D"), sorted(r.sb)))
            check_path(who, g.all("PATH2D"), r.path) if False else None
            p = parse_2d(g.all("PATH2D"), 0)
            if p != [tuple(x) for x in r.path]:
                raise Fail("%s: PATH %r, expected %r" % (who, g.all("PATH2D"), r.path))
        if a.kind == "net" and (v.orig, v.dest) != (r.orig, r.dest):
            raise Fail("%s: addresses %s -> %s, expected %s -> %s" % (who, v.orig, v.dest, r.orig, r.dest))


def origin_of(m, e):
    return None


def flush_outbound(w):
    """the mailer has sent everything"""
    for n in os.listdir(w.dir):
        if n == "out" or n.startswith("out."):
            for r, ds, fs in os.walk(w.p(n)):
                for f in fs:
                    os.unlink(os.path.join(r, f))
    for f in os.listdir(w.p("pd")):
        os.unlink(w.p("pd", f))


def echo_expect(bases, a, r, extra_sb=(), rescan=False):
    """Expect object for check_copy"""
    c = bases.c
    aka = next(k for k in c.akas if k.addr == a.aka)
    node = lambda x: next(n for n in c.nodes if n.addr == x)
    if rescan:
        sb = set(r.sb)
        if a.aka.point == 0:
            sb.add((a.aka.net, a.aka.node))
        for x in extra_sb:
            if x.point == 0:
                sb.add((x.net, x.node))
    else:
        sb = set()
        for f, n in a.exports:
            if n.point == 0 and n.zone == a.aka.zone and f != "@" and "PASSIVE" not in node(n).flags:
                sb.add((n.net, n.node))
        if a.aka.point == 0:
            sb.add((a.aka.net, a.aka.node))
    path = list(r.path)
    if a.aka.point == 0:
        me = (a.aka.net, a.aka.node, 0)
        if not path or path[-1] != me:
            path.append(me)
    return Cfg(m=None, area=a, tag=a.tag, sb=sb, path=path)


def check_exports(w, bases, exp, clock=None):
    """outbound == expected exports; then the mailer empties it"""
    c = bases.c
    got = w.queued_messages(c.akas[0].addr.zone)
    node = lambda x: next((n for n in c.nodes if n.addr == x), None)
    want = {}
    for a, r in exp:
        if a.kind == "net":
            fl = "hold" if bases.attr_out(r, a) & HOLD else "crash" if bases.attr_out(r, a) & CRASH else "normal"
            to = c.route_to if fl == "normal" else r.dest
            if fl == "crash" and to.point:
                to = to.boss
            want[(to, r.tok)] = (a, r, fl)
        else:
            for f, n in a.exports:
                if f == "@" or "PASSIVE" in node(n).flags:
                    continue
                want[(n, r.tok)] = (a, r, None)
    have = {}
    for dest, fl, how, h, m in got:
        have.setdefault((dest, tok_of(m.subj)), []).append((fl, how, h, m))
    for k in sorted(set(want) | set(have), key=repr):
        n = len(have.get(k, []))
        if n != (1 if k in want else 0):
            raise Fail("message #%s for %s: exported %d times, expected %d" % (k[1], k[0], n, 1 if k in want else 0))
    tid = "ADDTID" in c.switches
    for k, (a, r, fl) in want.items():
        gfl, how, h, m = have[k][0]
        text = m.text
        if tid:
            n = len(re.findall(TIDRE, text))
            if n != 1:
                raise Fail("#%d for %s: %d TID lines" % (r.tok, k[0], n))
            text = re.sub(TIDRE, b"", text)
        elif re.search(TIDRE, text):
            raise Fail("#%d for %s: unwanted TID line" % (r.tok, k[0]))
        body = bases.kludges(r, a, b"")
        if a.kind == "net":
            who = "exported netmail #%d" % r.tok
            if gfl != fl:
                raise Fail("%s has flavour %s, expected %s" % (who, gfl, fl))
            if not body.endswith(b"\r"):
                body += b"\r"
            mm = re.fullmatch(rb"(.*?)(\x01Via [^\r]*\r)", text, re.S)
            if not mm:
                raise Fail("%s: no Via line: %r" % (who, text))
            t = mm[1]
            if a.mb == "MSG" and "FORCEINTL" in c.switches and b"\x01INTL" not in body:
                t = re.sub(rb"\x01INTL [^\r]*\r", b"", t, count=1)
            if t != body:
                raise Fail("%s: text %r, expected %r" % (who, t, body))
            for f, x, y in (("from", m.frm, r.frm), ("to", m.to, r.to), ("subject", m.subj, bases.subj_out(r)), ("date", m.date, r.date), ("cost", m.cost, r.cost), ("attributes", m.attr, bases.attr_out(r, a) & (PVT | CRASH | FILEATTACH | HOLD | RREQ | IRRR | AUDIT))):
                if x != y:
                    raise Fail("%s: %s is %r, expected %r" % (who, f, x, y))
        else:
            e = echo_expect(bases, a, r)
            s = lambda b: b.decode("latin-1")
            e.m = Cfg(tok=r.tok, frm=s(r.frm), to=s(r.to), subj=s(bases.subj_out(r)), date=s(r.date), attr=bases.attr_out(r, a), cost=r.cost, body=s(body))
            m.text = text
            check_copy(e, node(k[0]), gfl, how, h, m, c, True, True)
    # order of messages inside each packet
    seq = {}
    order = {r.tok: (i, a.tag) for i, (a, r) in enumerate(exp)}
    for dest, fl, how, h, m in got:
        i, tag = order[tok_of(m.subj)]
        if seq.get((id(h), tag), -1) > i:
            raise Fail("messages of %s for %s are out of order" % (tag, dest))
        seq[(id(h), tag)] = i
    flush_outbound(w)
    return len(want)


def gen_history(d, c, nops, ops):
    """list of operations; ops = weights by name"""
    tok = 0
    ids = []
    hist = []
    boxes = [a for a in c.areas if a.mb and a.kind in ("echo", "net", "local")]
    echoes = [a for a in c.areas if a.kind == "echo"]
    for _ in range(d.int(*nops)):
        op = d.weighted([(wt, o) for o, wt in ops.items()])
        if op == "write":
            if not boxes:
                continue
            for _ in range(d.int(1, 3)):
                tok += 1
                m = gen_local(d, c, d.choice(boxes), tok, ids)
                if m.msgid:
                    ids.append(m.msgid)
                hist.append(("write", m))
        elif op == "toss":
            if not echoes:
                continue
            sender = d.choice(c.nodes)
            ok = [a for a in echoes if any(n == sender.addr and f != "!" for f, n in a.exports)] or echoes
            msgs = []
            for _ in range(d.int(1, 4)):
                tok += 1
                mid = None
                if d.bool(0.7):
                    mid = "%d:5/5 %08x" % (d.int(1, 3), tok)
                    ids.append(mid)
                m = gen_echo_msg(d, c, d.choice(ok).tag, tok, mid)
                if ids and d.bool(0.4):
                    m.body = "\x01REPLY: %s\r" % d.choice(ids) + re.sub("\x01REPLY:[^\r]*\r", "", m.body)
                if d.bool(0.15):
                    fl = [d.choice([x[0] for x in JAMFLAGS if x[0]] + ["XYZ", "ABC", "imm", "Dir", "HUB", "ninechars"]) for _ in range(d.int(1, 6))]
                    m.body = "\x01FLAGS:%s%s\r" % (d.choice([" ", "", "  "]), d.choice([" ", "  "]).join(fl)) + m.body
                if d.bool(0.1):
                    # the other form of date in use
                    m.date = "%s %2d %s %s" % (d.choice(["Mon", "Wed", "Sun"]), d.int(1, 28), m.date[3:9] if d.bool(.9) else "Foo 23", m.date[11:16])
                msgs.append(m)
            hist.append(("toss", Cfg(orig=sender.addr, dest=c.akas[0].addr, kind="2+", msgs=msgs)))
        elif op == "delete":
            if not boxes:
                continue
            hist.append(("delete", d.choice(boxes).tag, d.int(0, 20), d.bool(0.5)))
        elif op == "scan":
            how = d.weighted([(4, "SCAN"), (2, "SCANAREA"), (2, "SCANLIST"), (2, "SCANDOTJAM")])
            args = []
            if how != "SCAN":
                n = 1 if how == "SCANAREA" else d.int(1, 4)
                for _ in range(n):
                    a = d.choice(c.areas)
                    x = ("TAG", a.tag) if how != "SCANDOTJAM" else ("PATH", a.path)
                    if d.bool(0.2):
                        x = (x[0], swapcase(x[1]) if x[0] == "TAG" else x[1])
                    if how != "SCANAREA" and d.bool(0.1):
                        x = ("RAW", "NOSUCH.AREA")
                    args.append((x, d.choice(["", " 12", " "]) if how == "SCANDOTJAM" else d.choice(["", "", " "]) if how == "SCANLIST" else ""))
            hist.append(("scan", how, args))
        elif op == "maint":
            hist.append(("maint", d.weighted([(3, ["MAINT"]), (2, ["PACK"]), (3, ["MAINT", "PACK"])]), None, False, d.int(0, 5) * 43200, None))
        elif op == "rescan":
            if not echoes:
                continue
            hist.append(("rescan", d.choice(echoes).tag, d.choice(c.nodes).addr, d.choice([None, 1, 2, 3, 50, 0])))
    return hist


def scan_args(w, how, args):
    out = []
    for (k, v), suf in args:
        out.append((w.p("a", v) if k == "PATH" else v) + suf)
    return out


def play_toss(w, c, model, p, ri):
    """toss one packet; returns imports it caused [(area, exp)] and expected deliveries"""
    n0, d0 = len(model.imports), len(model.deliver)
    node = model.node(p.orig)
    w.drop("%08x.pkt" % ri, make_pkt(pkt_header(p.orig, p.dest, node.pw.encode() if node else b"", p.kind), [raw_echo(m, p.orig, p.dest) for m in p.msgs]))
    for m in p.msgs:
        model.toss(p.orig, p.dest, p.kind, m)
    w.toss()
    return model.imports[n0:]


def describe_hist(case):
    c = case.c
    f = lambda o: ("write %s #%d attr %x jattr %x %r" % (o[1].area, o[1].tok, o[1].attr, o[1].jattr, o[1].text[:200]) if o[0] == "write" else
                   "toss %s %r" % (o[1].orig, [(m.tag, m.subj, m.body[:80]) for m in o[1].msgs]) if o[0] == "toss" else repr(o))
    return {"akas": [str(a.addr) for a in c.akas], "nodes": ["%s %s %s" % (n.addr, n.packer, n.flags) for n in c.nodes], "switches": c.switches, "extra": c.extra,
            "areas": ["%s %s %s aka %s %s base %s first %s" % (a.kind, a.tag, a.mb, a.aka, [x + str(n) for x, n in a.get("exports", [])], a.base, a.first) for a in c.areas],
            "tz": c.tz, "history": [f(o) for o in case.hist]}
