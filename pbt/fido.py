"""Independent readers and writers for the formats CrashMail handles (FTS-0001
type 2 / 2+ / 2.2 packets, *.msg, JAM, BinkleyTerm outbound), and the scratch
system ("world") the real binaries are run in."""
import os, re, struct, subprocess, zlib
from .core import Fail, HarnessError

NOW = 1700000000          # Tue 14 Nov 2023 22:13:20 UTC
DAY = 86400

# attribute bits
PVT, CRASH, RECD, SENT, FILEATTACH, INTRANSIT, ORPHAN, KILLSENT = (1 << i for i in range(8))
LOCAL, HOLD, UNUSED, FILEREQ, RREQ, IRRR, AUDIT, UPDREQ = (1 << i for i in range(8, 16))


class Addr(tuple):
    """zone, net, node, point"""
    def __new__(cls, z, n, f, p=0):
        return tuple.__new__(cls, (z, n, f, p))

    def __str__(self):
        s = "%d:%d/%d" % self[:3]
        return s + (".%d" % self[3] if self[3] else "")
    __repr__ = __str__
    zone = property(lambda s: s[0])
    net = property(lambda s: s[1])
    node = property(lambda s: s[2])
    point = property(lambda s: s[3])

    @property
    def boss(self):
        return Addr(self[0], self[1], self[2], 0)

    @property
    def full(self):
        return "%d:%d/%d.%d" % self


def A(s):
    m = re.fullmatch(r"(\d+):(\d+)/(\d+)(?:\.(\d+))?", s)
    return Addr(int(m[1]), int(m[2]), int(m[3]), int(m[4] or 0))


# ---------------------------------------------------------------- packets
def pkt_header(orig, dest, pw=b"", kind="2+", when=(2023, 10, 14, 22, 13, 20)):
    y, mo, d, h, mi, s = when
    b = bytearray(58)
    pw = pw[:8].ljust(8, b"\0")
    if kind == "2.2":
        struct.pack_into("<HHHH", b, 0, orig.node, dest.node, orig.point, dest.point)
        struct.pack_into("<HHHH", b, 16, 2, 2, orig.net, dest.net)
        b[26:34] = pw
        struct.pack_into("<HH", b, 34, orig.zone, dest.zone)
        b[38:46] = b"fidonet\0"
        b[46:54] = b"fidonet\0"
        return bytes(b)
    struct.pack_into("<HHHHHHHHHHHH", b, 0, orig.node, dest.node, y, mo, d, h, mi, s, 0, 2, orig.net, dest.net)
    b[24] = 0xfe
    b[26:34] = pw
    if kind == "2":                      # stone-age: no zone, no point
        return bytes(b)
    struct.pack_into("<HH", b, 34, orig.zone, dest.zone)      # qzones
    if kind == "2q":                     # FTS-0001 with QMail zones only
        return bytes(b)
    struct.pack_into("<HH", b, 40, 0x0100, 0)  # cw validation copy (swapped), prod hi/rev
    struct.pack_into("<H", b, 44, 0x0001)
    struct.pack_into("<HHHH", b, 46, orig.zone, dest.zone, orig.point, dest.point)
    if kind == "2+ffff" and orig.point:
        struct.pack_into("<H", b, 20, 0xffff)
        struct.pack_into("<H", b, 38, orig.net)
    return bytes(b)


def pkt_msg(onet, onode, dnet, dnode, attr, cost, date, to, frm, subj, text):
    return (struct.pack("<HHHHHHH", 2, onode, dnode, onet, dnet, attr, cost)
            + date + b"\0" + to + b"\0" + frm + b"\0" + subj + b"\0" + text + b"\0")


class PMsg:
    """A message found in a packet"""
    __slots__ = ("onet", "onode", "dnet", "dnode", "attr", "cost", "date", "to", "frm", "subj", "text", "pkt", "flavour", "via")

    def key(self):
        return (self.frm, self.to, self.subj, self.date)

    def __repr__(self):
        return "<%r>%r" % (self.key(), self.text)


class PktErr(Exception):
    pass


def parse_pkt(data):
    """Strict parser; returns header dict and message list."""
    if len(data) < 60:
        raise PktErr("packet too short (%d)" % len(data))
    h = {}
    (h["onode"], h["dnode"], h["year"], h["month"], h["day"], h["hour"], h["min"], h["sec"], h["baud"], h["type"],
     h["onet"], h["dnet"]) = struct.unpack_from("<12H", data, 0)
    h["pw"] = data[26:34].split(b"\0")[0]
    h["rawpw"] = data[26:34]
    h["qoz"], h["qdz"], h["auxnet"] = struct.unpack_from("<HHH", data, 34)
    h["cwv"] = struct.unpack_from(">H", data, 40)[0]
    h["cw"] = struct.unpack_from("<H", data, 44)[0]
    h["oz"], h["dz"], h["op"], h["dp"] = struct.unpack_from("<HHHH", data, 46)
    if h["type"] != 2:
        raise PktErr("type %d" % h["type"])
    h["orig"] = Addr(h["oz"], h["onet"], h["onode"], h["op"])
    h["dest"] = Addr(h["dz"], h["dnet"], h["dnode"], h["dp"])
    pos = 58
    msgs = []

    def cstr(mx):
        nonlocal pos
        e = data.find(b"\0", pos)
        if e < 0:
            raise PktErr("unterminated string at %d" % pos)
        s = data[pos:e]
        if mx and len(s) >= mx:
            raise PktErr("string too long at %d" % pos)
        pos = e + 1
        return s
    while True:
        if pos + 2 > len(data):
            raise PktErr("no packet terminator")
        t, = struct.unpack_from("<H", data, pos)
        if t == 0:
            if pos + 2 != len(data):
                raise PktErr("data after packet terminator at %d of %d" % (pos, len(data)))
            return h, msgs
        if t != 2:
            raise PktErr("message type %d at %d" % (t, pos))
        if pos + 14 > len(data):
            raise PktErr("short message header")
        m = PMsg()
        _, m.onode, m.dnode, m.onet, m.dnet, m.attr, m.cost = struct.unpack_from("<7H", data, pos)
        pos += 14
        m.date = cstr(20)
        m.to = cstr(36)
        m.frm = cstr(36)
        m.subj = cstr(72)
        m.text = cstr(0)
        m.pkt = h
        msgs.append(m)


def make_pkt(header, msgs, term=b"\0\0"):
    return header + b"".join(msgs) + term


def lines_of(text):
    """Split at CR or LF, terminator kept."""
    out = re.findall(rb"[^\r\n]*[\r\n]|[^\r\n]+", text)
    return out


def split_echo(text):
    """-> area tag or None, body (without SEEN-BY/PATH), seenby tokens, path lines"""
    ls = lines_of(text)
    area = None
    if ls and ls[0].startswith(b"AREA:"):
        area = ls[0][5:].strip()
        ls = ls[1:]
    body, sb, path = [], [], []
    for l in ls:
        if l.startswith(b"SEEN-BY:"):
            sb.append(l.rstrip(b"\r\n"))
        elif l.startswith(b"\x01PATH:"):
            path.append(l.rstrip(b"\r\n"))
        else:
            body.append(l)
    return area, b"".join(body), sb, path


def parse_2d(lines, skip):
    """net/node sequences of SEEN-BY or PATH lines, with 2D abbreviation"""
    out = []
    for l in lines:
        net = None
        for tok in l[skip:].split():
            m = re.fullmatch(rb"(?:(\d+)/)?(\d+)(?:\.(\d+))?", tok)
            if not m:
                raise Fail("malformed 2D address %r in %r" % (tok, l))
            if m[1] is not None:
                net = int(m[1])
            if net is None:
                raise Fail("2D address without net in %r" % l)
            out.append((net, int(m[2]), int(m[3] or 0)))
    return out


# ---------------------------------------------------------------- *.msg
class SMsg:
    __slots__ = ("num", "frm", "to", "subj", "date", "attr", "cost", "orig", "dest", "replyto", "nextreply", "text", "raw")

    def key(self):
        return (self.frm, self.to, self.subj, self.date)

    def __repr__(self):
        return "<%d %r attr=%x>%r" % (self.num, self.key(), self.attr, self.text)


def parse_msg(data, num=0):
    if len(data) < 190:
        raise Fail("%d.msg is only %d bytes" % (num, len(data)))
    m = SMsg()
    m.num = num
    cs = lambda b: b.split(b"\0")[0]
    m.frm, m.to, m.subj, m.date = cs(data[0:36]), cs(data[36:72]), cs(data[72:144]), cs(data[144:164])
    (_, dnode, onode, m.cost, onet, dnet, dz, oz, dp, op, m.replyto, m.attr, m.nextreply) = struct.unpack_from("<13H", data, 164)
    m.orig, m.dest = Addr(oz, onet, onode, op), Addr(dz, dnet, dnode, dp)
    t = data[190:]
    e = t.find(b"\0")
    m.text = t if e < 0 else t[:e]
    m.raw = data
    return m


def make_msg(frm, to, subj, date, attr, text, orig=Addr(0, 0, 0, 0), dest=Addr(0, 0, 0, 0), cost=0, replyto=0, nextreply=0, term=b"\0"):
    return (frm.ljust(36, b"\0")[:36] + to.ljust(36, b"\0")[:36] + subj.ljust(72, b"\0")[:72] + date.ljust(20, b"\0")[:20]
            + struct.pack("<13H", 0, dest.node, orig.node, cost, orig.net, dest.net, dest.zone, orig.zone, dest.point,
                          orig.point, replyto, attr, nextreply) + text + term)


def read_msgdir(path):
    """{num: SMsg} of a *.msg area"""
    out = {}
    if not os.path.isdir(path):
        return out
    for n in os.listdir(path):
        m = re.fullmatch(r"(\d+)\.msg", n)
        if m:
            out[int(m[1])] = parse_msg(open(os.path.join(path, n), "rb").read(), int(m[1]))
    return out


# ---------------------------------------------------------------- JAM
JF = {0: "OADDRESS", 1: "DADDRESS", 2: "SENDERNAME", 3: "RECEIVERNAME", 4: "MSGID", 5: "REPLYID", 6: "SUBJECT",
      7: "PID", 8: "TRACE", 9: "ENCLFILE", 12: "ENCLFREQ", 2000: "FTSKLUDGE", 2001: "SEENBY2D", 2002: "PATH2D", 2003: "FLAGS", 2004: "TZUTCINFO"}
J_LOCAL, J_INTRANSIT, J_PRIVATE, J_READ, J_SENT, J_KILLSENT, J_ARCHIVESENT, J_HOLD, J_CRASH, J_IMMEDIATE, J_DIRECT, \
    J_GATE, J_FILEREQUEST, J_FILEATTACH, J_TRUNCFILE, J_KILLFILE, J_RECEIPTREQ, J_CONFIRMREQ, J_ORPHAN, J_ENCRYPT, \
    J_COMPRESS, J_ESCAPED, J_FPU, J_TYPELOCAL, J_TYPEECHO, J_TYPENET = (1 << i for i in range(26))
J_DELETED = 0x80000000


def jamcrc(s):
    """JAM CRC-32 (lower-cased ASCII, no final inversion)"""
    return (zlib.crc32(bytes(c + 32 if 65 <= c <= 90 else c for c in s)) ^ 0xffffffff) & 0xffffffff


class JMsg:
    def __repr__(self):
        return "<J#%d attr=%x %r>%r" % (self.num, self.attr, self.sub, self.text)

    def one(self, f, default=b""):
        for k, v in self.sub:
            if k == f:
                return v
        return default

    def all(self, f):
        return [v for k, v in self.sub if k == f]

    @property
    def deleted(self):
        return bool(self.attr & J_DELETED)


class JamBase:
    pass


def read_jam(path, strict=True):
    """Parse a JAM base, checking its structure; raises Fail on damage"""
    b = JamBase()
    rd = lambda e: open(path + e, "rb").read()
    try:
        jhr, jdx, jdt = rd(".jhr"), rd(".jdx"), rd(".jdt")
    except OSError as e:
        raise Fail("JAM base %s incomplete: %s" % (os.path.basename(path), e))
    b.jlr = rd(".jlr") if os.path.exists(path + ".jlr") else None
    if len(jhr) < 1024 or jhr[:4] != b"JAM\0":
        raise Fail("JAM header bad")
    b.created, b.modc, b.active, b.pwcrc, b.base = struct.unpack_from("<5I", jhr, 4)
    if len(jdx) % 8:
        raise Fail("JAM index length %d" % len(jdx))
    b.msgs = {}
    b.slots = len(jdx) // 8
    spans = []
    for i in range(b.slots):
        crc, off = struct.unpack_from("<II", jdx, i * 8)
        num = b.base + i
        if off == 0xffffffff:
            if strict and crc != 0xffffffff:
                raise Fail("JAM index slot %d empty but crc %08x" % (num, crc))
            continue
        if off < 1024 or off + 76 > len(jhr):
            raise Fail("JAM msg %d header offset %d outside file" % (num, off))
        h = struct.unpack_from("<4sHH17I", jhr, off)
        (sig, rev, _, sublen, m_times, m_msgidcrc, m_replycrc, m_replyto, m_r1, m_rn, m_dw, m_dr, m_dp, m_num, m_attr,
         m_attr2, m_toff, m_tlen, m_pw, m_cost) = h
        if sig != b"JAM\0":
            raise Fail("JAM msg %d header signature %r" % (num, sig))
        m = JMsg()
        m.num, m.attr, m.attr2, m.msgidcrc, m.replycrc, m.replyto, m.reply1st, m.replynext = m_num, m_attr, m_attr2, m_msgidcrc, m_replycrc, m_replyto, m_r1, m_rn
        m.written, m.received, m.processed, m.cost, m.times = m_dw, m_dr, m_dp, m_cost, m_times
        m.usercrc = crc
        m.off, m.toff, m.tlen, m.sublen = off, m_toff, m_tlen, sublen
        if off + 76 + sublen > len(jhr):
            raise Fail("JAM msg %d subfields beyond file" % num)
        p, e = off + 76, off + 76 + sublen
        m.sub = []
        while p < e:
            if p + 8 > e:
                raise Fail("JAM msg %d truncated subfield" % num)
            lo, hi, dl = struct.unpack_from("<HHI", jhr, p)
            if p + 8 + dl > e:
                raise Fail("JAM msg %d subfield overruns" % num)
            m.sub.append((JF.get(lo, lo), jhr[p + 8:p + 8 + dl]))
            p += 8 + dl
        spans.append((off, e, num))
        if m_num != num:
            raise Fail("JAM index slot %d points at header of message %d" % (num, m_num))
        if m_toff + m_tlen > len(jdt):
            raise Fail("JAM msg %d text outside text file" % num)
        m.text = jdt[m_toff:m_toff + m_tlen]
        b.msgs[num] = m
    spans.sort()
    for a, c in zip(spans, spans[1:]):
        if c[0] < a[1]:
            raise Fail("JAM headers of messages %d and %d overlap" % (a[2], c[2]))
    b.live = {n: m for n, m in b.msgs.items() if not m.deleted}
    return b


JID = {v: k for k, v in JF.items()}


def jam_create(path, base=1, active=0, modc=0):
    hdr = b"JAM\0" + struct.pack("<5I", NOW - 1000, modc, active, 0xffffffff, base) + bytes(1000)
    for e, b in ((".jhr", hdr), (".jdt", b""), (".jdx", b""), (".jlr", b"")):
        with open(path + e, "wb") as f:
            f.write(b)


def jam_append(path, sub, attr, text, written=NOW, msgid=None, reply=None, cost=0, links=(0, 0, 0)):
    """what a message editor does when the user writes a message: appends to the base.
    sub is a list of (field name, bytes)"""
    if not os.path.exists(path + ".jhr"):
        jam_create(path)
    with open(path + ".jdt", "r+b") as f:
        toff = f.seek(0, 2)
        f.write(text)
    subs = b"".join(struct.pack("<HHI", JID.get(k, k), 0, len(v)) + v for k, v in sub)
    to = next((v for k, v in sub if k == "RECEIVERNAME"), b"")
    with open(path + ".jdx", "r+b") as x, open(path + ".jhr", "r+b") as f:
        base = struct.unpack_from("<I", f.read(24), 20)[0]
        num = base + x.seek(0, 2) // 8
        off = f.seek(0, 2)
        f.write(struct.pack("<4sHH17I", b"JAM\0", 1, 0, len(subs), 0, jamcrc(msgid) if msgid is not None else 0xffffffff,
                            jamcrc(reply) if reply is not None else 0xffffffff, links[0], links[1], links[2], written, 0, 0, num, attr, 0, toff if text else 0, len(text),
                            0xffffffff, cost) + subs)
        x.write(struct.pack("<II", jamcrc(to) if to else 0xffffffff, off))
        f.seek(8)
        modc, act = struct.unpack("<II", f.read(8))
        f.seek(8)
        f.write(struct.pack("<II", modc + 1, act + (0 if attr & J_DELETED else 1)))
    return num


def jam_delete(path, num, index=True):
    """what an editor does when the user deletes a message"""
    with open(path + ".jdx", "r+b") as x, open(path + ".jhr", "r+b") as f:
        modc, act, _, base = struct.unpack("<4I", f.read(24)[8:])
        x.seek((num - base) * 8)
        crc, off = struct.unpack("<II", x.read(8))
        if off == 0xffffffff:
            return
        f.seek(off + 52)
        a, = struct.unpack("<I", f.read(4))
        if a & J_DELETED:
            return
        f.seek(off + 52)
        f.write(struct.pack("<I", a | J_DELETED))
        if index:
            x.seek((num - base) * 8)
            x.write(b"\xff" * 8)
        f.seek(8)
        f.write(struct.pack("<II", modc + 1, act - 1))


JAMFLAGS = [("PVT", J_PRIVATE, PVT), ("HLD", J_HOLD, HOLD), ("CRA", J_CRASH, CRASH), ("K/S", J_KILLSENT, KILLSENT), ("SNT", J_SENT, SENT), ("RCV", J_READ, RECD),
            ("A/S", J_ARCHIVESENT, 0), ("DIR", J_DIRECT, 0), ("FIL", J_FILEATTACH, FILEATTACH), ("FRQ", J_FILEREQUEST, FILEREQ), ("IMM", J_IMMEDIATE, 0), ("KFS", J_KILLFILE, 0),
            ("TFS", J_TRUNCFILE, 0), ("LOK", J_LOCAL, LOCAL), ("RRQ", J_RECEIPTREQ, RREQ), ("CFM", J_CONFIRMREQ, 0), ("FPU", J_FPU, 0), ("", J_INTRANSIT, INTRANSIT), ("", J_ORPHAN, ORPHAN)]
JAMKLUDGE = [(b"\x01PID:", "PID"), (b"\x01MSGID:", "MSGID"), (b"\x01REPLY:", "REPLYID"), (b"\x01FLAGS:", "FLAGS"), (b"\x01INTL", None), (b"\x01TOPT", None), (b"\x01FMPT", None)]


def jam_split(text):
    """kludge subfields, extra attributes and text of a message as JAM keeps it (LF is not kept)"""
    sub, attr, body = [], 0, b""
    for l in re.findall(rb"[^\r]*\r|[^\r]+", text.replace(b"\n", b"")):
        if l[:1] != b"\x01":
            body += l
            continue
        for pre, f in JAMKLUDGE:
            if l.startswith(pre):
                v = l[len(pre):].lstrip(b" ").rstrip(bytes(range(33)))
                if f == "FLAGS":
                    rest = []
                    for t in v.split():
                        fl = next((x for x in JAMFLAGS if x[0] and x[0].lower() == t.decode("latin-1").lower()), None)
                        if fl:
                            attr |= fl[1]
                        else:
                            rest.append(t)
                    v = b" ".join(rest)
                    if v:
                        sub.append((f, v))
                elif f:
                    sub.append((f, v))
                break
        else:
            sub.append(("FTSKLUDGE", l[1:].lstrip(b" ").rstrip(bytes(range(33)))))
    return sub, attr, body


def jam_attr(fido):
    a = 0
    for _, j, f in JAMFLAGS:
        if f and fido & f:
            a |= j
    return a


def jam_date(t):
    import datetime
    return datetime.datetime.fromtimestamp(t, datetime.timezone.utc).strftime("%d %b %y  %H:%M:%S").encode()


class JView:
    """a JAM message in terms comparable with what was sent: attributes that JAM can hold, control lines, text"""
    def __init__(self, m):
        self.num, self.j = m.num, m
        self.frm, self.to, self.subj = m.one("SENDERNAME"), m.one("RECEIVERNAME"), m.one("SUBJECT")
        self.date, self.cost = jam_date(m.written), m.cost
        self.attr = m.attr & ~(J_DELETED | J_TYPELOCAL | J_TYPEECHO | J_TYPENET)
        o, t = m.one("OADDRESS", None), m.one("DADDRESS", None)
        self.orig, self.dest = (A(o.decode()) if o else None), (A(t.decode()) if t else None)
        self.text = ([x for x in m.sub if x[0] in ("PID", "MSGID", "REPLYID", "FLAGS", "FTSKLUDGE")], m.text)


def jam_view_of(attr, text):
    """attr and text of a message the way JView shows them"""
    sub, extra, body = jam_split(text)
    return jam_attr(attr) | extra, (sub, body)


def jam_check(jb, who):
    """invariants of a JAM base: counters, CRCs and the reply graph"""
    if jb.active != len(jb.live):
        raise Fail("%s: active message counter %d, but %d messages" % (who, jb.active, len(jb.live)))
    for n, m in jb.msgs.items():
        to = m.one("RECEIVERNAME")
        if m.usercrc != (jamcrc(to) if to else 0xffffffff):
            raise Fail("%s: message %d index CRC %08x does not match the addressee %r" % (who, n, m.usercrc, to))


# ---------------------------------------------------------------- scratch system
class World:
    """A directory holding one configured system."""

    def __init__(self, env, variant="plain"):
        self.env = env
        self.dir = env.fresh()
        self.variant = variant
        for d in ("in", "out", "tmp", "cp", "pd", "a", "nl"):
            os.mkdir(os.path.join(self.dir, d))
        self.now = NOW
        self.seq = 0
        self.shimenv = {}

    def p(self, *a):
        return os.path.join(self.dir, *a)

    def write(self, rel, data):
        if rel == "cfg" and isinstance(data, str) and getattr(self.env, "relayout", None):
            data = self.env.relayout(data)      # C25: the same settings, written down differently
        if isinstance(data, str):
            data = data.encode("latin-1")
        with open(self.p(rel), "wb") as f:
            f.write(data)

    def read(self, rel):
        with open(self.p(rel), "rb") as f:
            return f.read()

    def drop(self, name, data, order=None, d="in"):
        """put a file into the inbound with a defined position in the sort order"""
        self.write(os.path.join(d, name), data)
        self.seq += 1
        t = NOW - 100000 + (self.seq if order is None else order)
        os.utime(self.p(d, name), (t, t))

    def run(self, tool, *args, ok=(0,), timeout=60, extra_env=None):
        e = {"PATH": "/usr/bin:/bin", "TZ": "UTC", "LC_ALL": "C", "HOME": self.dir,
             "SHIM_TIME": str(self.now)}
        if self.variant == "asan":
            e["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=1024:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0:verify_asan_link_order=0:handle_abort=1"
            e["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=99"
        else:
            e["MALLOC_PERTURB_"] = "165"
        e["LD_PRELOAD"] = self.env.shim
        e.update(self.shimenv)
        if extra_env:
            e.update(extra_env)
        try:
            r = subprocess.run([self.env.bin(tool, self.variant)] + [str(a) for a in args], cwd=self.dir, env=e,
                               stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Fail("%s %s did not terminate within %d s" % (tool, " ".join(map(str, args)), timeout))
        self.last = r
        self.env.count("runs")
        if ok is not None and r.returncode not in ok:
            what = "died with signal %d" % -r.returncode if r.returncode < 0 else "exited with %d" % r.returncode
            raise Fail("%s %s %s: %s" % (tool, " ".join(map(str, args)), what, r.stdout[-1500:].decode("latin-1")))
        return r

    def crashmail(self, *args, **kw):
        return self.run("crashmail", "SETTINGS", self.p("cfg"), *args, **kw)

    def toss(self, *extra, **kw):
        return self.crashmail("TOSS", *extra, **kw)

    def log(self):
        try:
            return self.read("log").decode("latin-1")
        except OSError:
            return ""

    # -------- outbound
    def pk_members(self, path):
        """(name, bytes) of our packer's archive"""
        data = open(path, "rb").read()
        out, p = [], 0
        while p < len(data):
            if data[p:p + 4] != b"PKAR" or p + 72 > len(data):
                raise Fail("bundle %s damaged" % os.path.basename(path))
            name = data[p + 4:p + 68].split(b"\0")[0].decode()
            ln, = struct.unpack_from("<I", data, p + 68)
            body = data[p + 72:p + 72 + ln]
            if len(body) != ln:
                raise Fail("bundle %s truncated" % os.path.basename(path))
            out.append((name, body))
            p += 72 + ln
        return out

    def outbound_dirs(self, outname="out"):
        """[(zone or domain, dir)]"""
        res = []
        for n in sorted(os.listdir(self.dir)):
            if n == outname:
                res.append((None, n))
            elif n.startswith(outname + "."):
                res.append((int(n[len(outname) + 1:], 16), n))
        return res

    def collect(self, main_zone, outname="out", extra_dirs=()):
        """Everything queued for transmission.

        -> list of Queued(dest 4D, flavour, kind, data, name) where kind is
        'netmail' (an .?ut packet) or 'flow' (a flow file entry)."""
        res = []
        leftovers = []
        dirs = [(z if z is not None else main_zone, d) for z, d in self.outbound_dirs(outname)] + list(extra_dirs)
        for zone, d in dirs:
            full = self.p(d)
            if not os.path.isdir(full):
                continue
            for n in sorted(os.listdir(full)):
                m = re.fullmatch(r"([0-9a-f]{4})([0-9a-f]{4})\.(\w+)", n)
                if not m:
                    leftovers.append(os.path.join(d, n))
                    continue
                net, node, ext = int(m[1], 16), int(m[2], 16), m[3]
                if ext == "pnt":
                    for n2 in sorted(os.listdir(self.p(d, n))):
                        m2 = re.fullmatch(r"([0-9a-f]{8})\.(\w+)", n2)
                        if not m2:
                            leftovers.append(os.path.join(d, n, n2))
                            continue
                        self._q(res, leftovers, Addr(zone, net, node, int(m2[1], 16)), m2[2], self.p(d, n, n2))
                else:
                    self._q(res, leftovers, Addr(zone, net, node, 0), ext, self.p(d, n))
        self.leftovers = leftovers
        return res

    def _q(self, res, leftovers, dest, ext, path):
        if re.fullmatch("[ohdc]ut", ext):
            fl = {"o": "normal", "h": "hold", "d": "direct", "c": "crash"}[ext[0]]
            res.append(Queued(dest, fl, "netmail", path, None, None))
        elif re.fullmatch("[fhdc]lo", ext):
            fl = {"f": "normal", "h": "hold", "d": "direct", "c": "crash"}[ext[0]]
            data = open(path, "rb").read().decode("latin-1")
            if data and not data.endswith("\n"):
                raise Fail("flow file %s does not end with a newline" % os.path.basename(path))
            for l in data.splitlines():
                l = l.rstrip("\r")
                mode = ""
                if l[:1] in "#^~":
                    mode, l = l[0], l[1:]
                res.append(Queued(dest, fl, "flow", l, mode, path))
        else:
            leftovers.append(path)

    def queued_messages(self, main_zone, **kw):
        """All messages queued in outbound packets, expanding bundles.
        -> list of (dest, flavour, how, header, PMsg); how is 'netmail','bundle','plain'"""
        out = []
        self.attaches = []
        for q in self.collect(main_zone, **kw):
            if q.kind == "netmail":
                out += self._msgs(q.dest, q.flavour, "netmail", open(q.path, "rb").read(), q.path)
            else:
                base = os.path.basename(q.path)
                if not os.path.exists(q.path):
                    self.attaches.append((q, None))
                    continue
                if re.fullmatch(r"[0-9a-f]{8}\.pkt", base):
                    out += self._msgs(q.dest, q.flavour, "plain", open(q.path, "rb").read(), q.path)
                elif re.fullmatch(r"[0-9a-f]{8}\.(su|mo|tu|we|th|fr|sa)\d", base):
                    for n, data in self.pk_members(q.path):
                        out += self._msgs(q.dest, q.flavour, "bundle", data, base + "/" + n)
                else:
                    self.attaches.append((q, open(q.path, "rb").read()))
        return out

    def _msgs(self, dest, fl, how, data, name):
        try:
            h, ms = parse_pkt(data)
        except PktErr as e:
            raise Fail("outgoing packet %s for %s is malformed: %s" % (os.path.basename(name), dest, e))
        return [(dest, fl, how, h, m) for m in ms]


class Queued:
    def __init__(self, dest, flavour, kind, path, mode, flow):
        self.dest, self.flavour, self.kind, self.path, self.mode, self.flow = dest, flavour, kind, path, mode, flow

    def __repr__(self):
        return "%s %s %s %s%s" % (self.dest, self.flavour, self.kind, self.mode or "", self.path)


def q(s):
    """quote a prefs argument"""
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'
