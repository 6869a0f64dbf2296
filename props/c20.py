"""C20: crashwrite posts exactly the message it was asked for, as a packet that the tosser takes."""
import calendar, time as _time
from pbt.core import Fail
from pbt.tossgen import *

ID = "C20"
BUDGET = {"quick": 2500, "thorough": 60000}
RULE = ("random keyword combinations and values (defaults, over-long, special characters, any keyword case and order), text files (line lengths around the read buffer, LF/CRLF, no final newline, kludges, 8-bit) x existing packets x "
        "time zones x an optional failing write, and calls that must be refused; the packet is parsed by an independent strict parser and then tossed; non-trivial = a packet with a text file was written and examined")
NAMECH = "abc DEFghi\xe5\xe4\xf6\xff.,'\"&%s\\-()#@:"
MON = "Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec".split()
TZ = {"UTC": 0, "XST-5:30": 19800, "YST+8": -28800, "ZST-12": 43200}


def gen_val(d, mx):
    n = d.weighted([(6, 20), (2, mx), (1, mx + 30)])
    lo = d.weighted([(6, 1), (1, 0), (1, n if n >= mx else 1)])
    return d.text(NAMECH, min(lo, n), n)


def gen_addr4(d):
    a = Addr(d.choice([1, 2, 3, 255, 4095, 32767]), d.choice([1, 5, 100, 300, 32767]), d.choice([0, 1, 2, 256, 32767]), d.choice([0, 0, 0, 1, 255, 300]))
    return a


def gen_text(d):
    L = []
    for _ in range(d.int(0, 6)):
        k = d.weighted([(5, "t"), (3, "edge"), (1, "long"), (1, "kl")])
        if k == "t":
            L.append(d.text("abc d%n%s\xe5\\x-", 0, 60))
        elif k == "edge":
            L.append(d.choice("abxyz%") * (d.int(96, 101) + d.choice([0, 0, 99])))
        elif k == "long":
            L.append("0123456789" * d.int(15, 60))
        else:
            L.append(d.choice(["\x01PID: x", "SEEN-BY: 1/2", " * Origin: y (1:2/3)", "--- ", "\x01KL", "AREA:X", "\t"]))
    return L


def gen(d):
    c = Cfg(a={}, tz=d.choice(sorted(TZ)), flags=[])
    for k, mx in (("FROMNAME", 35), ("TONAME", 35), ("SUBJECT", 71), ("ORIGIN", 60)):
        if d.bool(.7):
            c.a[k] = gen_val(d, mx)
    for k, p in (("FROMADDR", .9), ("TOADDR", .8), ("PKTFROMADDR", .2), ("PKTTOADDR", .2)):
        if d.bool(p):
            c.a[k] = gen_addr4(d)
    if d.bool(.6):
        c.a["AREA"] = d.choice(["A", "B.", "C"]) + d.text("ABCDEF.-_&0", 0, d.choice([10, 60]))
    if d.bool(.3):
        c.a["PASSWORD"] = d.text("abcDEF123\xe5", 0, 11)
    if d.bool(.3):
        c.flags.append("NOMSGID")
    if d.bool(.2):
        c.flags.append("FILEATTACH")
    c.text = gen_text(d) if d.bool(.85) else None
    c.eol = d.choice(["\n", "\r\n"])
    c.last = d.bool(.75)
    c.order = [d.int(0, 1000) for _ in range(20)]
    c.exist = d.weighted([(4, 0), (3, d.int(1, 3)), (1, 260)])
    c.bad = d.weighted([(12, None), (1, "addr"), (1, "text"), (1, "nodir"), (1, "badkw"), (1, "noarg"), (2, "disk")])
    c.badwhich = d.choice(["FROMADDR", "TOADDR", "PKTFROMADDR", "PKTTOADDR"])
    c.badaddr = d.choice(["x", "1:2/3x", "1:2:3/4", "1/2/3", "1:2/3.4.5", "2:2/-1"])
    c.fault = d.int(0, 40)
    c.when = NOW + d.choice([0, 43200, 86400 * 100, 86400 * 800, 5000000])
    return c


def check(case, env):
    c = case
    w = World(env)
    w.now = c.when
    w.shimenv["TZ"] = c.tz
    args = []
    a = dict(c.a)
    if c.bad == "addr":
        a[c.badwhich] = c.badaddr
    if c.text is not None:
        body = c.eol.join(c.text) + (c.eol if c.last and c.text else "")
        w.write("t.txt", body)
        a["TEXT"] = w.p("t.txt")
    if c.bad == "text":
        a["TEXT"] = w.p("none.txt")
    if c.bad != "nodir":
        a["DIR"] = w.p("pd") if c.order[0] % 2 else "pd/"
    items = sorted(a.items(), key=lambda kv: c.order[sorted(a).index(kv[0]) % 20])
    for i, (k, v) in enumerate(items):
        kk = k if c.order[i] % 3 else k.lower()
        args += [kk, str(v).encode("latin-1")] if not isinstance(v, Addr) else [kk, str(v) if c.order[i] % 2 else v.full]
    args += c.flags
    if c.bad == "badkw":
        args.append("UNKNOWN")
    if c.bad == "noarg":
        args.append("SUBJECT")
    old = {}
    for i in range(c.exist):
        n = "%08x.pkt" % (((w.now << 8) + i) & 0xffffffff)
        w.write("pd/" + n, "old%d" % i)
        old[n] = b"old%d" % i
    run = lambda ok, **x: raw_run(w, args, ok, x)
    if c.bad and c.bad != "disk":
        run((10,))
        left = {n: w.read("pd/" + n) for n in os.listdir(w.p("pd"))}
        if left != old:
            raise Fail("refused call (%s) left %r" % (c.bad, sorted(set(left) - set(old))))
        return None
    if c.bad == "disk":
        run((0,), SHIM_COUNT=w.p("cnt"), SHIM_BUF="1")
        n = int(w.read("cnt"))
        for x in set(os.listdir(w.p("pd"))) - set(old):
            os.unlink(w.p("pd", x))
        r = run(None, SHIM_FAIL=str(1 + c.fault % n), SHIM_BUF="1")
        left = {x: w.read("pd/" + x) for x in os.listdir(w.p("pd"))}
        if r.returncode == 0 or left != old:
            raise Fail("a packet that could not be written: exit code %d, left %r" % (r.returncode, {x: v for x, v in left.items() if x not in old}))
        env.count("faults")
    run((0,))
    new = {n: w.read("pd/" + n) for n in os.listdir(w.p("pd"))}
    for n, v in old.items():
        if new.pop(n, None) != v:
            raise Fail("existing packet %s was touched" % n)
    if len(new) != 1:
        raise Fail("wrote packets %r" % sorted(new))
    name, data = next(iter(new.items()))
    if not re.fullmatch(r"[0-9a-f]{8}\.pkt", name):
        raise Fail("packet name %r" % name)
    try:
        h, ms = parse_pkt(data)
    except PktErr as e:
        raise Fail("packet is malformed: %s" % e)
    if len(ms) != 1:
        raise Fail("%d messages in the packet" % len(ms))
    m = ms[0]
    L1 = lambda s: s.encode("latin-1")
    z = Addr(0, 0, 0, 0)
    frm, to = c.a.get("FROMADDR", z), c.a.get("TOADDR", z)
    pf, pt = c.a.get("PKTFROMADDR", frm), c.a.get("PKTTOADDR", to)
    t = _time.gmtime(w.now + TZ[c.tz])
    area = c.a.get("AREA")
    exp = {"packet origin": (h["orig"], pf), "packet destination": (h["dest"], pt), "QMail zones": ((h["qoz"], h["qdz"]), (pf.zone, pt.zone)), "capability words": ((h["cw"], h["cwv"]), (1, 1)),
           "password": (h["rawpw"], L1(c.a.get("PASSWORD", ""))[:8].ljust(8, b"\0")),
           "packet date": ((h["year"], h["month"], h["day"], h["hour"], h["min"], h["sec"]), (t.tm_year, t.tm_mon - 1, t.tm_mday, t.tm_hour, t.tm_min, t.tm_sec)),
           "origin": ((m.onet, m.onode), frm[1:3]), "destination": ((m.dnet, m.dnode), to[1:3]), "attributes": (m.attr, (0 if area else PVT) | (FILEATTACH if "FILEATTACH" in c.flags else 0)), "cost": (m.cost, 0),
           "from": (m.frm, L1(c.a.get("FROMNAME", "CrashWrite"))[:35]), "to": (m.to, L1(c.a.get("TONAME", "All"))[:35]), "subject": (m.subj, L1(c.a.get("SUBJECT", "Information"))[:71]),
           "date": (m.date, L1("%02d %s %02d  %02d:%02d:%02d" % (t.tm_mday, MON[t.tm_mon - 1], t.tm_year % 100, t.tm_hour, t.tm_min, t.tm_sec)))}
    for k, (g, x) in exp.items():
        if g != x:
            raise Fail("%s is %r, expected %r" % (k, g, x))
    text = m.text
    if area:
        head = L1("AREA:%s\r" % area)
    else:
        head = L1(("\x01FMPT %d\r" % frm.point if frm.point else "") + ("\x01TOPT %d\r" % to.point if to.point else "") + "\x01INTL %d:%d/%d %d:%d/%d\r" % (to[:3] + frm[:3]))
    if not text.startswith(head):
        raise Fail("text starts %r, expected %r" % (text[:80], head))
    text = text[len(head):]
    mid = re.match(rb"\x01MSGID: %d:%d/%d\.%d ([0-9a-f]{8})\r" % frm, text)
    if bool(mid) != ("NOMSGID" not in c.flags):
        raise Fail("MSGID %s: %r" % ("missing" if not mid else "unwanted", text[:80]))
    if mid:
        text = text[mid.end():]
    lines = c.text or []
    if lines and not c.last and not lines[-1]:
        lines = lines[:-1]
    body = L1("".join(l + "\r" for l in lines))
    if area:
        org = L1(c.a.get("ORIGIN", "Another user of CrashMail II"))[:79]
        tail = re.search(rb"--- CrashWrite II/[^\r]*\r \* Origin: %s \(%d:%d/%d\.%d\)\r\Z" % ((re.escape(org),) + frm), text)
        if not tail:
            raise Fail("tear line and origin missing or wrong: %r" % text[-200:])
        text = text[:tail.start()]
        if text != body:
            raise Fail("text is %r, expected %r" % (text, body))
    elif text != body:
        raise Fail("text is %r, expected %r" % (text, body))
    # the tosser takes it
    if "FROMADDR" in c.a and "TOADDR" in c.a and to.zone and frm.zone and not (pf[:3] == pt[:3] and pf == pt):
        plain = c.text is None or not any(l[:1] in ("\x01", "\n") or l.startswith(("SEEN-BY", " * Origin", "AREA:")) for l in c.text)
        for n in old:
            os.unlink(w.p("pd", n))
        os.rename(w.p("pd", name), w.p("in", name))
        w.write("cfg", "SYSOP X\nLOGFILE %s\nLOGLEVEL 3\nINBOUND %s\nOUTBOUND %s\nTEMPDIR %s\nCREATEPKTDIR %s\nPACKETDIR %s\nSTATSFILE %s\nIMPORTEMPTYNETMAIL\nAKA %s\nNETMAIL NET %s MSG %s\nAREA BAD %s MSG %s\n%s" % (
            w.p("log"), w.p("in"), w.p("out"), w.p("tmp"), w.p("cp"), w.p("pd"), w.p("stats"), to.full, to.full, w.p("a/net"), to.full, w.p("a/bad"), "AREA %s %s MSG %s\n" % (area, to.full, w.p("a/echo")) if area else ""))
        w.crashmail("TOSSDIR", w.p("in"), "NOSECURITY")
        got = read_msgdir(w.p("a", "echo" if area else "net"))
        got.pop(1, None)
        if len(got) != 1:
            raise Fail("tossing the packet imported %d messages" % len(got))
        for g in got.values():
            if (g.frm, g.to, g.subj) != (m.frm, m.to, m.subj) or plain and text.rstrip(b"\r") not in g.text:
                raise Fail("tossing the packet imported %r" % g)
        env.count("tossed")
    if not c.text:
        return None
    return [sorted((k, str(v)) for k, v in c.a.items()), c.flags, c.text, c.eol, c.last]


def raw_run(w, args, ok, extra):
    return w.run("crashwrite", *[BS(a) if isinstance(a, bytes) else a for a in args], ok=ok, extra_env=extra)


class BS(str):
    """argument given as latin-1 bytes"""
    def __new__(cls, b):
        return str.__new__(cls, os.fsdecode(b))
