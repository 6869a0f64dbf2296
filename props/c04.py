"""C04: which packets are accepted; damaged or unauthorised ones are quarantined intact."""
import struct
from pbt.fido import *
from pbt.tossgen import *
from pbt.core import Fail

ID = "C04"
BUDGET = {"quick": 9000, "thorough": 100000}
RULE = ("1-5 inbound files (packets of every type, bundles of packets, junk) x passwords, destination check, NOSECURITY, x damage (truncation at any byte, wrong type, over-long header "
        "strings at the exact limits, unknown message types, missing/short terminators, wrong/absent/case-changed passwords, foreign destination, archive damage), existing .bad files, packers with wildcard and hexadecimal recognition strings, files that are not mail, "
        "file dates in any order, TOSS, TOSSDIR or TOSSFILE, BEFORETOSS that works or fails for one packet; "
        "non-trivial = at least one file was quarantined or one message accepted, distinct by damage and outcome")


def gen_msgs(d, c, tok, n):
    out = []
    for _ in range(n):
        tok[0] += 1
        echo = d.bool(0.6)
        fields = {"date": "01 Jan 23  00:00:00", "to": "T", "frm": "F", "subj": "#%d" % tok[0]}
        over = False
        if d.bool(0.12):
            f, mx = d.choice([("date", 20), ("to", 36), ("frm", 36), ("subj", 72)])
            k = d.choice([mx - 1, mx, mx + 1, mx - 2, mx * 2])
            fields[f] = ("x" * k + fields[f])[-k:]
        body = d.choice(["", "hello\r", "line\rline2\r", "x" * 300 + "\r", "\x01PID: a\r", "no cr"])
        out.append(Cfg(tok=tok[0], echo=echo, body=body, **fields))
    return out


def gen(d):
    c = gen_system(d, maxnodes=3, nodeflags={"NONETMAILPASSWORD": 0.3})
    for n in c.nodes:
        n.defgroup, n.af, n.pktfrom = "", None, None
        if d.bool(0.6):
            n.pw = d.choice(["secret", "Pw1", "eightchr", "ABCdef12", "a"])
    add_std_areas(d, c)
    c.areas.append(Cfg(kind="echo", tag="ECHO", aka=c.akas[0].addr, mb="MSG", path="e", opts=[], exports=[("", n.addr) for n in c.nodes], group="", banned=[], desc=""))
    if d.bool(0.5):
        c.switches.append("CHECKPKTDEST")
    c.switches.append("IMPORTEMPTYNETMAIL")
    c.extra.append('AREAFIXNAME "nobody"')
    tok = [0]
    nseq = [0]

    def packet():
        n = d.choice(c.nodes)
        orig = n.addr if not d.bool(0.12) else gen_addr(d)
        dest = d.choice(c.akas).addr if not d.bool(0.2) else gen_addr(d)
        kind = d.choice(["2+", "2.2", "2", "2q", "2+"])
        pw = n.pw
        k = d.int(0, 11)
        if k == 1:
            pw = ""
        elif k == 2:
            pw = swapcase(pw)
        elif k == 3:
            pw = pw[:-1]
        elif k == 4:
            pw = (pw + "z")[:8]
        elif k == 5:
            pw = d.choice(["wrong", "secret", "Pw1"])
        msgs = gen_msgs(d, c, tok, d.int(0, 4) if d.bool(0.8) else 1)
        nseq[0] += 1
        p = Cfg(orig=orig, dest=dest, kind=kind, pw=pw, msgs=msgs, name="%08x.%s" % (0xa0000000 + nseq[0] * 7, "pkt"), damage=None, arg=0)
        if d.bool(0.5):
            p.damage = d.choice(["trunc", "trunc", "type", "msgtype", "term1", "term0", "garbage", "empty", "flip"])
            p.arg = d.int(0, 1 << 16)
        return p
    files = []
    for i in range(d.int(1, 4)):
        k = d.int(0, 9)
        if k <= 6:
            files.append(Cfg(kind="pkt", p=packet()))
            if d.bool(.4):
                files[-1].p.name = d.choice(["%08X.PKT", "%08x.Pkt", "zz-%05x.pkt", "00%06x.pkt"]) % (nseq[0] * 7)
        elif k <= 8:
            nseq[0] += 1
            files.append(Cfg(kind="arc", name="%08x.%s" % (0xb0000000 + nseq[0], d.choice(["mo0", "su1", "fr9", "TH3", "weA"])), members=[packet() for _ in range(d.int(1, 3))],
                             cut=d.int(1, 1 << 16) if d.bool(0.25) else 0))
        else:
            nseq[0] += 1
            files.append(Cfg(kind="junkarc", name="%08x.tu0" % (0xb0000000 + nseq[0]), data=d.choice(["junk", "PKA", "", "RAR!!!", "\0\0\0"])))
    case = Cfg(c=c, files=files, mode=d.weighted([(4, "TOSS"), (1, "TOSSDIR"), (1, "TOSSFILE")]), packers=[], foreign=[], bt=d.weighted([(5, None), (1, "ok"), (1, "fail")]), btf=d.int(0, 99))
    for f in files:
        f.t = d.int(1, 4) if d.bool(.7) else 3
    for _ in range(d.weighted([(3, 0), (1, 1), (1, 2), (1, 4)])):
        # recognition strings that fit the archives here, nearly fit them or fit something else
        head = d.weighted([(4, b"PKAR"), (3, b"PKARa00000"), (1, b"junk"), (1, b"RAR!"), (1, b"\0\0\0"), (1, b"PKA")])
        r = ""
        for b in head[:d.int(1, len(head))]:
            ch = d.weighted([(4, "c"), (2, "?"), (2, "$"), (1, "near")])
            r += "?" if ch == "?" else ("$%02x" if d.bool() else "$%02X") % b if ch == "$" or b < 33 else chr(b ^ 1) if ch == "near" and d.bool(.3) else chr(b)
        if d.bool(.15):
            r = r + "?" * d.choice([1, 30, 40, 70])
        case.packers.append((r[:79], d.bool(.5), d.bool(.5)))
    for n in d.subset(FOREIGN, .15):
        case.foreign.append((n, d.choice(["text", "PKAR", "", "pkt"])))
    case.update(nosec=d.bool(0.12), oldbad=d.int(0, 2) if d.bool(0.3) else 0, locked=d.bool(0.08))
    return case


FOREIGN = ["readme.txt", "a.pkt", "123456789.pkt", "12345678.pk", "12345678.pkt.tmp", "12345678.mo0.bsy", "1234567.mo1", "12345-78.mo0", "12345678.mx0", "12345678.tic", "12345678.req", "pkt", "12345678.zip", "12345678.pktx",
           "12345678_pkt", "12345678,pkt", "12345678.mo10", "1234.678.su0", "old.bad", "12345678.m", ".pkt", "12345678.s", "12345678-mo0"]


def recognised(head, r):
    head = head[:80].ljust(80, b"\0")
    c = i = 0
    while i < len(r):
        if r[i] == "$":
            if head[c] != int(r[i + 1:i + 3], 16):
                return False
            i += 3
        else:
            if r[i] != "?" and head[c] != ord(r[i]):
                return False
            i += 1
        c += 1
    return True


def bytes_of(p, c):
    L = lambda s: s.encode("latin-1")
    ms = []
    for m in p.msgs:
        t = ("AREA:ECHO\r" if m.echo else "") + m.body
        a = c.akas[0].addr
        to = a
        if not m.echo:
            t = "\x01INTL %d:%d/%d %d:%d/%d\r" % (to[:3] + p.orig[:3]) + ("\x01TOPT %d\r" % to.point if to.point else "") + t
        ms.append(pkt_msg(p.orig.net, p.orig.node, to.net, to.node, 0, 0, L(m.date), L(m.to), L(m.frm), L(m.subj), L(t)))
    term = b"\0\0"
    if p.damage == "term1":
        term = b"\0"
    elif p.damage == "term0":
        term = b""
    elif p.damage == "garbage":
        term = b"\0\0" + b"junk" * (p.arg % 20)
    elif p.damage == "msgtype":
        term = struct.pack("<H", p.arg % 65536 if p.arg % 65536 not in (0, 2) else 3) + b"x" * (p.arg % 40)
    data = bytearray(make_pkt(pkt_header(p.orig, p.dest, L(p.pw), p.kind), ms, term))
    if p.damage == "type":
        struct.pack_into("<H", data, 18, (p.arg % 65536) if p.arg % 65536 != 2 else 1)
    elif p.damage == "trunc":
        data = data[:p.arg % (len(data) + 1)]
    elif p.damage == "empty":
        data = bytearray()
    elif p.damage == "flip" and len(data) > 60:
        # damage the framing: overwrite a byte of some message with NUL
        i = 58 + p.arg % (len(data) - 58)
        data[i] = 0
    return bytes(data)


class Reader:
    """reference: which messages of these bytes are accepted, and is the file bad"""

    def __init__(self, c, nosec):
        self.c, self.nosec = c, nosec
        self.model = EchoModel(c)

    def read(self, data):
        c = self.c
        if len(data) < 58:
            return [], True
        u = lambda o: struct.unpack_from("<H", data, o)[0]
        if u(18) != 2:
            return [], True
        if u(16) == 2:
            o = Addr(u(34), u(20), u(0), u(4))
            t = Addr(u(36), u(22), u(2), u(6))
        else:
            oz, dz = (u(46), u(48)) if u(46) else (u(34), u(36)) if u(34) else (0, 0)
            op = dp = 0
            if data[40] == data[45] and data[41] == data[44]:
                op, dp = u(50), u(52)
            onet = u(38) if op and u(20) == 0xffff and data[40] == data[45] and data[41] == data[44] else u(20)
            o, t = Addr(oz, onet, u(0), op), Addr(dz, u(22), u(2), dp)
        if "CHECKPKTDEST" in c.switches and not self.nosec and not any(same(k.addr, t) for k in c.akas):
            return [], True
        if o.zone == 0:
            o = Addr(next((n.addr.zone for n in c.nodes if same(n.addr, o)), c.defaultzone), *o[1:])
        node = self.model.node(o)
        pw = data[26:34].split(b"\0")[0].decode("latin-1")
        acc = []
        pos = 58
        first = True
        while True:
            left = len(data) - pos
            if left < 2:
                if not first and left == 1 and data[pos] == 0:
                    return acc, False
                return acc, True
            ty = u(pos)
            if ty == 0:
                return acc, False
            if ty != 2 or left < 14:
                return acc, True
            first = False
            hdr = struct.unpack_from("<7H", data, pos)
            pos += 14
            f = []
            for mx in (20, 36, 36, 72, None):
                e = data.find(b"\0", pos)
                if mx is None and not self.authorised(node, pw, data[pos:e if e >= 0 else None]):
                    return acc, True
                if e < 0 or mx and e - pos >= mx:
                    return acc, True
                f.append(data[pos:e])
                pos = e + 1
            acc.append((o, hdr, f))

    def authorised(self, node, pw, text):
        if self.nosec or not node or not node.pw:
            return True
        line = text.split(b"\r")[0].split(b"\n")[0]
        echo = line.startswith(b"AREA:") and line[5:].strip()
        if not echo and "NONETMAILPASSWORD" in node.flags:
            return True
        return pw.lower() == node.pw[:8].lower()


def check(case, env):
    c = case.c
    w = World(env)
    t = cfgtext(w, c)
    pk = re.search(r'PACKER "PK".*\n', t)[0]
    line = lambda i: 'PACKER "P%d" "" "%s %s %%a" "%s"\n' % (i, env.pk, "x" if case.packers[i][1] else "f", case.packers[i][0].replace("\\", "\\\\").replace('"', '\\"'))
    first = [i for i, x in enumerate(case.packers) if x[2]]
    last = [i for i, x in enumerate(case.packers) if not x[2]]
    t = t.replace(pk, "".join(map(line, first)) + pk + "".join(map(line, last)))
    pks = [case.packers[i][:2] for i in first] + [("PKAR", True)] + [case.packers[i][:2] for i in last]
    if case.bt:
        t += 'BEFORETOSS "%s b %s %%f"\n' % (env.pk, w.p("bt"))
    w.write("cfg", t)
    rd = Reader(c, case.nosec)
    quarantine = {}        # name -> list of bytes in order
    keep_bad = {}
    accepted = []
    outcome = []
    opened = []            # packets in the order they have to be read
    box = "box" if case.mode == "TOSSDIR" else "in"
    os.makedirs(w.p(box), exist_ok=True)

    def feed(name, data):
        opened.append(name)
        acc, bad = rd.read(data)
        accepted.extend(acc)
        outcome.append((name[-3:], len(acc), bad))
        if bad:
            quarantine.setdefault(name, []).append(data)
    # oldest first
    todo = sorted(case.files, key=lambda f: (f.t, (f.p.name if f.kind == "pkt" else f.name).lower()))
    todo = [f for f in todo if f.kind == "pkt"] + [f for f in todo if f.kind != "pkt"]
    order = []
    for f in todo:
        if f.kind == "pkt":
            data = bytes_of(f.p, c)
            w.drop(f.p.name, data, f.t, box)
            order.append(f.p.name)
            if case.oldbad:
                keep_bad[f.p.name + ".bad"] = b"old"
                if case.oldbad == 2:
                    keep_bad[f.p.name + ".bad,1"] = b"older"
            feed(f.p.name, data)
        elif f.kind == "arc":
            arc = b""
            ends = []
            for p in f.members:
                data = bytes_of(p, c)
                arc += b"PKAR" + p.name.encode().ljust(64, b"\0") + struct.pack("<I", len(data)) + data
                ends.append((len(arc), p, data))
            cut = len(arc)
            if f.cut:
                cut = f.cut % len(arc)
                arc = arc[:cut]
            w.drop(f.name, arc, f.t, box)
            order.append(f.name)
            if not arc:
                continue                      # zero length bundles are removed
            by = next((g for r, g in pks if recognised(arc, r)), None)
            if not by:
                quarantine.setdefault(f.name, []).append(arc)
                continue
            if not arc.startswith(b"PKAR"):
                if len(arc) >= 4:
                    quarantine.setdefault(f.name, []).append(arc)
                continue                      # the unpacker finds nothing in it
            failed = False
            start = 0
            for e, p, data in ends:
                if cut >= e:
                    feed(p.name, data)
                elif cut - start >= 72:
                    feed(p.name, b"")         # the unpacker had just created it
                    failed = True
                    break
                elif cut - start >= 4:
                    failed = True
                    break
                else:
                    break
                start = e
            if failed:
                quarantine.setdefault(f.name, []).append(arc)
        elif f.kind == "junkarc":
            data = f.data.encode("latin-1")
            w.drop(f.name, data, f.t, box)
            order.append(f.name)
            if data:
                by = next((g for r, g in pks if recognised(data, r)), None)
                if not by or len(data) >= 4:
                    quarantine.setdefault(f.name, []).append(data)
    for n, b in keep_bad.items():
        w.write("in/" + n, b)
    for n, b in case.foreign:
        b = b.encode() if b != "pkt" else make_pkt(pkt_header(c.nodes[0].addr, c.akas[0].addr, b"", "2+"), [])
        w.write(box + "/" + n, b)
        keep_bad[n] = b
    if box != "in":
        w.drop("12345678.pkt", b"not asked for")
    locked = case.locked and case.bt != "fail" and case.mode != "TOSSFILE"
    if locked:
        # a packet that cannot be opened must not be thrown away
        w.drop("c0ffee00.pkt", b"unreadable", order=0, d=box)
        os.chmod(w.p(box, "c0ffee00.pkt"), 0)
        opened.insert(0, "c0ffee00.pkt")
    failing = None
    cand = [n for n in opened if not any(f.kind == "arc" and f.cut and n in [p.name for p in f.members] for f in case.files)]
    if case.bt == "fail" and cand:
        failing = cand[case.btf % len(cand)]
        w.write("bt.fail", failing)

    def toss():
        cmds = [["TOSS"]] if case.mode == "TOSS" else [["TOSSDIR", w.p(box)]] if case.mode == "TOSSDIR" else [["TOSSFILE", w.p(box, n)] for n in order if os.path.exists(w.p(box, n))]
        for x in cmds:
            w.crashmail(*x, *(["NOSECURITY"] if case.nosec else []), ok=None if failing else (0,))
    if failing:
        toss()
        if any(m.subj in [f[3] for o, h, f in rd.read(dict(packets(case, c))[failing])[0]] for sub in ("e", "bad", "net") for m in read_msgdir(w.p("a", sub)).values()):
            raise Fail("%s was tossed although BEFORETOSS failed" % failing)
        holder = next((f.name for f in todo if f.kind == "arc" and failing in [p.name for p in f.members]), failing)
        if not [n for x in {"in", box} for n in os.listdir(w.p(x)) if n.startswith(holder)]:
            raise Fail("%s was deleted although BEFORETOSS failed" % holder)
        os.remove(w.p("bt.fail"))
    toss()
    if case.bt:
        ran = w.read("bt").decode().split("\n")[:-1] if os.path.exists(w.p("bt")) else []
        if not failing and ran != opened or failing and set(ran) != set(opened):
            raise Fail("BEFORETOSS was run for %r, expected %r" % (ran, opened))
    if box != "in":
        # what is bad is kept in the inbound directory
        if "12345678.pkt" not in os.listdir(w.p("in")) or w.read("in/12345678.pkt") != b"not asked for":
            raise Fail("TOSSDIR changed the inbound: %r" % os.listdir(w.p("in")))
        os.remove(w.p("in/12345678.pkt"))
    if locked:
        left = [w.p(x, n) for x in {"in", box} for n in os.listdir(w.p(x)) if n.startswith("c0ffee00.pkt")]
        if len(left) != 1:
            raise Fail("a packet that could not be opened was deleted")
        os.chmod(left[0], 0o600)
        if open(left[0], "rb").read() != b"unreadable":
            raise Fail("a packet that could not be opened was altered")
        os.remove(left[0])
    # ---- quarantine
    want = {n: [b] for n, b in keep_bad.items()}
    have = {n: w.read(x + "/" + n) for x in {"in", box} for n in os.listdir(w.p(x))}
    for name, datas in quarantine.items():
        i = 0
        for b in datas:
            while True:
                t = name + ".bad" + (",%d" % i if i else "")
                i += 1
                if t not in want:
                    break
            want[t] = [b]
    if failing:
        # what was quarantined before the run was given up may be there twice
        for n in have:
            if n not in want and re.sub(r"\.bad(,\d+)?$", "", n) not in quarantine:
                raise Fail("inbound holds %s" % n)
            if n not in want:
                want[n] = [have[n]] if have[n] in quarantine[re.sub(r"\.bad(,\d+)?$", "", n)] else [b"?"]
    if sorted(want) != sorted(have):
        raise Fail("inbound holds %r, expected %r" % (sorted(have), sorted(want)))
    for n in want:
        if have[n] != want[n][0]:
            raise Fail("%s was altered: %d bytes instead of %d" % (n, len(have[n]), len(want[n][0])))
    if os.listdir(w.p("tmp")):
        raise Fail("left in the temporary directory: %r" % os.listdir(w.p("tmp")))
    # ---- messages
    main = c.akas[0].addr.zone
    got = sorted((m.frm, m.to, m.subj, m.date) for sub in ("e", "bad", "net") for m in read_msgdir(w.p("a", sub)).values())
    exp = []
    for o, hdr, f in accepted:
        exp.append((f[2], f[1], f[3], f[0]))
    flipped = any(p_damaged(f) for f in case.files)     # addresses may be hit: only the files are compared
    if failing:
        got, exp = sorted(set(got)), list(set(exp))
    if not flipped and got != sorted(exp):
        raise Fail("messages processed: %r, expected %r" % (got, sorted(exp)))
    net = sorted(m.subj for m in read_msgdir(w.p("a", "net")).values())
    netx = sorted(f[3] for o, hdr, f in accepted if not re.match(rb"AREA:[^\r\n]*[^\r\n ]", f[4]))
    if failing:
        net, netx = sorted(set(net)), sorted(set(netx))
    for sub in ("e", "bad", "net"):
        seq = [m.subj for _, m in sorted(read_msgdir(w.p("a", sub)).items())]
        if not flipped and not failing and seq != [f[3] for o, hdr, f in accepted if f[3] in seq]:
            raise Fail("messages are stored in the order %r, received in the order %r" % (seq, [f[3] for o, hdr, f in accepted]))
    if not flipped and net != netx:
        raise Fail("netmail stored: %r, expected %r" % (net, netx))
    if not accepted and not quarantine:
        return None
    return [outcome, c.switches, case.nosec, [n.pw for n in c.nodes]]


def packets(case, c):
    for f in case.files:
        for p in [f.p] if f.kind == "pkt" else f.get("members", []):
            yield p.name, bytes_of(p, c)


def p_damaged(f):
    ps = [f.p] if f.kind == "pkt" else f.get("members", [])
    return any(p.damage == "flip" for p in ps)


def describe(case):
    c = case.c
    pk = lambda p: "%s->%s %s pw=%r %s/%d %r" % (p.orig, p.dest, p.kind, p.pw, p.damage, p.arg, [("echo" if m.echo else "net", m.date, m.to, m.frm, m.subj, m.body[:40]) for m in p.msgs])
    return {"akas": [str(a.addr) for a in c.akas], "nodes": ["%s pw=%r %s" % (n.addr, n.pw, n.flags) for n in c.nodes], "switches": c.switches, "nosec": case.nosec, "locked": case.locked, "oldbad": case.oldbad, "mode": case.mode, "beforetoss": case.bt, "packers": case.packers,
            "foreign": case.foreign, "ages": [f.t for f in case.files],
            "files": [(f.kind, pk(f.p)) if f.kind == "pkt" else (f.kind, f.name, [pk(p) for p in f.members], f.cut) if f.kind == "arc" else (f.kind, f.name, f.data) for f in case.files]}
