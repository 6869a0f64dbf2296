"""C10: queued mail is laid out in the outbound so that the mailer sends it, and busy systems are left alone."""
import datetime
import os
import re
from pbt.fido import *
from pbt.tossgen import *
from pbt.core import Fail

ID = "C10"
BUDGET = {"quick": 4000, "thorough": 40000}
RULE = ("stateful: random system (domains, zones, points, packers, flavours, PACKNETMAIL, MAXPKTSIZE, MAXBUNDLESIZE, WEEKDAYNAMING, FLOWCRLF, BEFOREPACK) x history of 2-9 steps: "
        "toss runs with echomail, routed netmail and attached files under random busy systems and failing packers on random days, interleaved with mailer sessions that send, truncate, "
        "mark or partly send what is queued and with foreign flow lines; non-trivial = some mail was deferred or some bundle was replaced, distinct by history")
L1 = lambda s: s.encode("latin-1")
EXTS = {"normal": "o", "hold": "h", "direct": "d", "crash": "c"}
FEXT = {"normal": "f", "hold": "h", "direct": "d", "crash": "c"}


def gen(d):
    c = gen_system(d, maxnodes=4, nodeflags={"PASSIVE": 0})
    c.dupemode = None
    main = c.akas[0].addr.zone
    zones = set()
    c.akas = [a for a in c.akas if not (a.addr.zone in zones or zones.add(a.addr.zone))]
    if d.bool(0.6):
        doms = d.shuffle(["fidonet", "amiganet", "Some.Net", "x", "outnet"])
        for i, a in enumerate(c.akas):
            a.domain = doms[i] if d.bool(0.8) else ("" if d.bool() else swapcase(doms[0]))
    c.routes = [("%d:*/*.*" % a.addr.zone, "%d:*/*.*" % a.addr.zone, a.addr) for a in c.akas]
    c.routes = d.shuffle(c.routes) + [("*:*/*.*", "*:*/*.*", d.choice(c.akas).addr)]
    c.flav = {}
    for n in c.nodes:
        n.pktfrom = None
        if d.bool(0.2):
            n.flags.append("PACKNETMAIL")
        if d.bool(0.15):
            n.flags.append("NONETMAILPASSWORD")
        if d.bool(0.4):
            f = d.choice(["HOLD", "CRASH", "DIRECT"])
            if n.addr.point:
                f = "HOLD"
            c.extra.append("CHANGE * %s %s" % (n.addr.full, f))
            c.flav[str(n.addr)] = f.lower()
    for s, p in {"WEEKDAYNAMING": .4, "FLOWCRLF": .3}.items():
        if d.bool(p):
            c.switches.append(s)
    c.extra.append("FILEATTACH *:*/*.*")
    c.switches.append("NODIRECTATTACH")
    c.beforepack = d.bool(0.2)
    c.maxpkt = d.choice([None, None, 1, 2])
    c.maxbundle = d.choice([1, 2, 3, 100, None])
    add_std_areas(d, c)
    # one pass-through area with everybody, one more with a subset; the first node sends
    snd = c.nodes[0]
    snd.pw = ""
    aka = d.choice(c.akas).addr
    c.areas.append(Cfg(kind="echo", tag="ALL.ECHO", aka=aka, mb=None, path="", opts=[], exports=[("", n.addr) for n in c.nodes]))
    if len(c.nodes) > 2:
        c.areas.append(Cfg(kind="echo", tag="SOME.ECHO", aka=d.choice(c.akas).addr, mb=None, path="", opts=[],
                           exports=[("", n.addr) for n in c.nodes if n is snd or d.bool(0.6)]))
    # a system that is not configured, only netmail goes there
    stranger = Addr(main, 4711, 42, 0)
    case = Cfg(c=c, stranger=stranger, steps=[], index=[])
    for i, x in enumerate(c.nodes):
        if x.packer and d.bool(0.35):
            case.index.append((i, d.choice([0x12345670, 0x12345671, 0x65000000 + i]), d.choice([0, 8, 9, 10, 67, 68, 68, 69, 69])))
    n = len(c.nodes)
    tok = 0
    for _ in range(d.int(2, 9)):
        k = d.weighted([(6, "toss"), (3, "mailer"), (1, "foreign")])
        if k == "toss":
            ms = []
            for _ in range(d.weighted([(1, 0), (3, 1), (3, 3), (2, 6)])):
                tok += 1
                size = d.choice([5, 60, 300, 900, 1500, 4000])
                kind = d.weighted([(5, "echo"), (4, "net"), (1, "att")])
                if kind == "echo":
                    ms.append(("echo", tok, size, d.choice([a.tag for a in c.areas if a.kind == "echo"])))
                else:
                    ms.append((kind, tok, size, d.int(0, n)))
            case.steps.append(("toss", ms, [i for i in range(n + 1) if d.bool(0.25)], d.bool(0.12), d.choice([1, 1, 60, 86400, 86400, 3 * 86400, 7 * 86400])))
        elif k == "mailer":
            case.steps.append(("mailer", d.int(0, n), d.choice(["send", "truncate", "mark", "one", "one-truncate"])))
        else:
            case.steps.append(("foreign", d.int(0, n), d.choice(list(FEXT.values())), d.choice(["/some/file.zip", "^/x/y.req", "#/x/z.tic", "~/done.zip", "-/skip"])))
    if d.bool(.12):      # a week goes by and names come round again
        if "WEEKDAYNAMING" not in c.switches:
            c.switches.append("WEEKDAYNAMING")
        how = d.choice(["mark", "mark", "truncate", "send"])
        who = d.int(0, n - 1)
        for days in (1, d.int(1, 6), d.int(1, 6)):
            tok += 1
            case.steps.append(("toss", [("echo", tok, d.choice([60, 1500]), "ALL.ECHO")], [], False, days * 86400))
            case.steps.append(("mailer", who, how))
        tot = case.steps[-2][4] + case.steps[-4][4]
        tok += 1
        case.steps.append(("toss", [("echo", tok, 60, "ALL.ECHO")], [], False, -tot % (7 * 86400) or 86400))
    return case


def basename_of(w, c, a):
    r = next(r for r in c.routes if pat(r[0], a))
    raka = next(k for k in c.akas if k.addr == r[2])
    first = c.akas[0]
    if raka.domain and first.domain and raka.domain.lower() != first.domain.lower():
        d = raka.domain
    elif a.zone != first.addr.zone:
        d = "out.%03x" % a.zone
    else:
        d = "out"
    b = w.p(d, "%04x%04x" % (a.net, a.node))
    return b + ".pnt/%08x" % a.point if a.point else b


def pat(p, a):
    z = p.split(":")[0]
    return z == "*" or int(z) == a.zone


class Node:
    def __init__(self, addr, node, base):
        self.addr, self.node, self.base = addr, node, base
        self.defer = []     # (kind, flavour, tok)
        self.out = []       # same, in the outbound
        self.last = None    # last bundle name
        self.loose = False  # a failed attempt to pack may have used up names


def check(case, env):
    c = case.c
    w = World(env)
    w.write("cfg", cfgtext(w, c) + ('BEFOREPACK "%s b %s %%f"\n' % (env.pk, w.p("bp")) if c.beforepack else ""))
    S = [Node(n.addr, n, basename_of(w, c, n.addr)) for n in c.nodes] + [Node(case.stranger, None, basename_of(w, c, case.stranger))]
    if len({s.base for s in S}) != len(S):
        return None     # two systems share a name in this layout
    interesting = 0
    hist = []
    dn = ["su", "mo", "tu", "we", "th", "fr", "sa"]
    idx = ""
    for i, b, n in case.index:
        # names used before; of two systems with the same one the second gives it up
        nm = "%08x.%s%d" % (b, dn[n // 10], n % 10)
        idx += "%s %s\n" % (S[i].addr.full, nm)
        if not any(s.last and s.last[:8] == nm[:8] for s in S):
            S[i].last = nm
    if idx:
        w.write("pd/cmindex", idx)
    steps = list(case.steps) + [("toss", [], [], False, 60)]
    for si, st in enumerate(steps):
        if st[0] == "toss":
            hist.append(("toss", [m[0] for m in st[1]], st[2], st[3]))
            interesting += toss(w, case, S, st, si)
        elif st[0] == "mailer":
            hist.append(st)
            interesting += mailer(w, S[st[1]], st[2])
        else:
            s = S[st[1]]
            os.makedirs(os.path.dirname(s.base), exist_ok=True)
            nl = "\r\n" if "FLOWCRLF" in c.switches else "\n"
            with open("%s.%slo" % (s.base, st[2]), "ab") as f:
                f.write(L1(st[3] + nl))
    if any(s.defer for s in S):
        raise Fail("harness: mail still deferred")
    if not interesting:
        return None
    return [[str(s.addr) for s in S], c.switches, c.maxbundle, hist]


def toss(w, case, S, st, si):
    c = case.c
    _, ms, busy, pkfail, dt = st
    w.now += dt
    day = datetime.datetime.fromtimestamp(w.now, datetime.timezone.utc).weekday()
    snd = c.nodes[0]
    msgs = []
    for kind, tok, size, where in ms:
        body = b"".join(b"line %d of message %d\r" % (i, tok) for i in range(size // 20 + 1))
        if kind == "echo":
            area = next(a for a in c.areas if a.tag == where)
            text = L1("AREA:%s\r" % where) + body + b"--- x\r * Origin: y (%s)\rSEEN-BY: %d/%d\r\x01PATH: %d/%d\r" % (L1(str(snd.addr)), snd.addr.net, snd.addr.node, snd.addr.net, snd.addr.node)
            msgs.append(pkt_msg(snd.addr.net, snd.addr.node, 1, 1, 0, 0, b"14 Oct 23  10:00:00", b"All", b"Me", L1("T%d" % tok), text))
            for s in S[:-1]:
                if s.node is not snd and any(x == s.addr for _, x in area.exports):
                    s.defer.append(("bundle" if s.node.packer else "plain", (s.node.pri or "normal").lower(), tok, snd.addr))
        else:
            s = S[where % len(S)]
            if kind == "att":
                w.drop("att%d.zip" % tok, b"FILE %d" % tok)
            subj = "T%d" % tok if kind == "net" else "att%d.zip" % tok
            o = snd.addr
            text = b"\x01INTL %s %s\r" % (L1("%d:%d/%d" % s.addr[:3]), L1("%d:%d/%d" % o[:3]))
            if s.addr.point:
                text += b"\x01TOPT %d\r" % s.addr.point
            if o.point:
                text += b"\x01FMPT %d\r" % o.point
            msgs.append(pkt_msg(o.net, o.node, s.addr.net, s.addr.node, 0x10 if kind == "att" else 0, 0, b"14 Oct 23  10:00:00", b"You", b"Me", L1(subj), text + body))
            fl = c.flav.get(str(s.addr), "normal")
            how = "netmail"
            if fl == "normal" and s.node and "PACKNETMAIL" in s.node.flags:
                how, fl = ("bundle" if s.node.packer else "plain"), (s.node.pri or "normal").lower()
            s.defer.append((how, fl, tok, o))
            if kind == "att":
                s.defer.append(("att", c.flav.get(str(s.addr), "normal"), tok, o))
    if msgs:
        w.drop("%08x.pkt" % (si + 1), make_pkt(pkt_header(snd.addr, c.akas[0].addr, b"", "2+"), msgs))
    for i in busy:
        os.makedirs(os.path.dirname(S[i].base), exist_ok=True)
        open(S[i].base + ".bsy", "wb").write(b"pid 1\n")
    for x in ("cp", "pd"):
        if pkfail:
            w.write(x + "/pkfail", "3")
        elif os.path.exists(w.p(x, "pkfail")):
            os.remove(w.p(x, "pkfail"))
    before = snapshot(w, c)
    bp0 = w.read("bp").decode().split("\n")[:-1] if os.path.exists(w.p("bp")) else []
    w.toss()
    for x in ("cp", "pd"):
        if pkfail:
            os.remove(w.p(x, "pkfail"))
    after = snapshot(w, c)
    names = {s.base: s for s in S}
    new = {}
    for s in S:
        isbusy = S.index(s) in busy
        if isbusy:
            # not a byte of a busy system's files is touched
            for k in set(before) | set(after):
                if k.startswith(s.base + ".") and "/" not in k[len(s.base):] and before.get(k) != after.get(k):
                    raise Fail("file %s of busy system %s changed" % (os.path.relpath(k, w.dir), s.addr))
            os.remove(s.base + ".bsy")
            del after[s.base + ".bsy"]
        else:
            rest = []
            for x in s.defer:
                if x[0] == "bundle" and pkfail:
                    rest.append(x)
                    s.loose = True
                else:
                    s.out.append(x)
            s.defer = rest
    # nothing but what belongs there
    for k in after:
        if k.startswith(w.p("pd") + "/") or k.startswith(w.p("cp") + "/"):
            continue
        s = next((s for s in S if re.fullmatch(re.escape(s.base) + r"\.([ohdc]ut|[fhdc]lo)", k)), None)
        if not s:
            raise Fail("unexpected file %s in the outbound" % os.path.relpath(k, w.dir))
    # flow files keep what they had and gain whole lines; packets are only extended
    for k, v in before.items():
        if re.search(r"\.[fhdc]lo$", k):
            if k not in after or not after[k].startswith(v):
                raise Fail("flow file %s lost lines" % os.path.relpath(k, w.dir))
        if re.search(r"\.[ohdc]ut$", k):
            if k not in after or (after[k] != v and not after[k].startswith(v[:-2])):
                raise Fail("netmail packet %s lost mail" % os.path.relpath(k, w.dir))
    for s in S:
        verify(w, c, s, before, after, day)
    bases = [s.last[:8] for s in S if s.last]
    if len(set(bases)) != len(bases):
        raise Fail("two systems' bundles have the same base name: %r" % [(str(s.addr), s.last) for s in S])
    deferred(w, c, S, after)
    if c.beforepack:
        bp = (w.read("bp").decode().split("\n")[:-1] if os.path.exists(w.p("bp")) else [])[len(bp0):]
        oldm = {(k, n) for k, v in before.items() if isarc(k) for n, _ in members(k, v)}
        newm = [n for k, v in after.items() if isarc(k) for n, _ in members(k, v) if (k, n) not in oldm]
        miss = [n for n in newm if n not in bp]
        if miss:
            raise Fail("BEFOREPACK was not run for %r" % (miss,))
    for x in os.listdir(w.p("cp")):
        if x != "pkfail":
            raise Fail("%s left in the packet creation directory" % x)
    return sum(len(s.defer) for s in S)


def isarc(k):
    return re.fullmatch(r"[0-9a-f]{8}\.(su|mo|tu|we|th|fr|sa)\d", os.path.basename(k))


def members(path, data):
    out, p = [], 0
    while p < len(data):
        if data[p:p + 4] != b"PKAR" or p + 72 > len(data):
            raise Fail("bundle %s damaged" % os.path.basename(path))
        ln, = struct.unpack_from("<I", data, p + 68)
        if p + 72 + ln > len(data):
            raise Fail("bundle %s truncated" % os.path.basename(path))
        out.append((data[p + 4:p + 68].split(b"\0")[0].decode(), data[p + 72:p + 72 + ln]))
        p += 72 + ln
    return out


def snapshot(w, c):
    r = {}
    for top in sorted(os.listdir(w.dir)):
        if top == "out" or top.startswith("out.") or top in ("pd", "cp") or top.lower() in [a.domain.lower() for a in c.akas if a.domain]:
            for dp, _, fs in os.walk(w.p(top)):
                for f in fs:
                    r[os.path.join(dp, f)] = open(os.path.join(dp, f), "rb").read()
    return r


def toks(w, s, name, data, kinds):
    try:
        h, ms = parse_pkt(data)
    except PktErr as e:
        raise Fail("packet %s for %s is malformed: %s" % (os.path.basename(name), s.addr, e))
    if tuple(h["dest"]) != tuple(s.addr):
        raise Fail("packet %s queued for %s is addressed to %s" % (os.path.basename(name), s.addr, h["dest"]))
    pw = s.node.pw.encode() if s.node and ("netmail" not in kinds or "NONETMAILPASSWORD" not in s.node.flags) else b""
    if h["pw"] != pw:
        raise Fail("packet %s for %s has password %r instead of %r" % (os.path.basename(name), s.addr, h["pw"], pw))
    out = []
    for m in ms:
        t = int(re.search(rb"\d+", m.subj)[0])
        body = m.text
        if b"of message %d\r" % t not in body:
            raise Fail("message %d for %s is damaged" % (t, s.addr))
        out.append(t)
    return out


def flowlines(k, data):
    if data and not data.endswith(b"\n"):
        raise Fail("flow file %s does not end with a line end" % os.path.basename(k))
    return [l.decode("latin-1").rstrip("\r") for l in data.split(b"\n")[:-1]]


def verify(w, c, s, before, after, day):
    """everything of s that is due is where the mailer looks for it, once"""
    crlf = "FLOWCRLF" in c.switches
    got = []
    bundles = []
    for fl, e in EXTS.items():
        k = "%s.%sut" % (s.base, e)
        if k in after:
            got += [("netmail", fl, t) for t in toks(w, s, k, after[k], ["netmail"])]
    for fl, e in FEXT.items():
        k = "%s.%slo" % (s.base, e)
        if k not in after:
            continue
        seen = set()
        old = before.get(k, b"")
        for l in flowlines(k, after[k][len(old):]):
            if l[:1] == "^" and after[k][len(old):].find(L1(l) + (b"\r\n" if crlf else b"\n")) < 0:
                raise Fail("wrong line end in flow file %s" % os.path.basename(k))
        for l in flowlines(k, after[k]):
            if l[:1] == "~" or not l.lstrip("^#-~").startswith(w.dir):
                continue
            if l[0] != "^":
                raise Fail("file %r for %s is not to be deleted after sending" % (l, s.addr))
            p = l[1:]
            if p.lower() in seen:
                raise Fail("%s is listed twice in %s" % (os.path.basename(p), os.path.basename(k)))
            seen.add(p.lower())
            if p not in after:
                raise Fail("flow file %s lists %s which does not exist" % (os.path.basename(k), os.path.relpath(p, w.dir)))
            b = os.path.basename(p)
            if isarc(p):
                bundles.append(b)
                for n, data in members(p, after[p]):
                    if not re.fullmatch(r"[0-9a-f]{8}\.pkt", n):
                        raise Fail("bundle %s holds a file named %s" % (b, n))
                    got += [("bundle", fl, t) for t in toks(w, s, n, data, [])]
                ns = [n for n, _ in members(p, after[p])]
                if len(set(ns)) != len(ns):
                    raise Fail("bundle %s holds two files named alike: %r" % (b, ns))
            elif re.fullmatch(r"[0-9a-f]{8}\.pkt", b):
                got += [("plain", fl, t) for t in toks(w, s, b, after[p], [])]
            elif b.startswith("att"):
                t = int(re.search(r"\d+", b)[0])
                if after[p] != b"FILE %d" % t:
                    raise Fail("attached file %s damaged" % b)
                got.append(("att", fl, t))
            else:
                raise Fail("flow file %s lists %s" % (os.path.basename(k), p))
    want = sorted(x[:3] for x in s.out)
    if sorted(got) != want:
        raise Fail("queued for %s: %r, expected %r" % (s.addr, sorted(got), want))
    names(w, c, s, before, after, bundles, day)


def sufno(b):
    return ["su", "mo", "tu", "we", "th", "fr", "sa"].index(b[9:11]) * 10 + int(b[11])


def names(w, c, s, before, after, bundles, day):
    """which bundle each packet was added to"""
    left = {}
    size = {os.path.basename(k): len(v) for k, v in before.items() if isarc(k) and len(v)}
    for b in bundles:
        k = w.p("pd", b)
        old = {n for n, _ in members(k, before.get(k, b""))}
        add = [72 + len(x) for n, x in members(k, after[k]) if n not in old]
        if add:
            left[b] = add
    if not left:
        return
    if not s.loose:
        return follow(c, s, dict(left), dict(size), day, None)
    s.loose = False
    err, last = None, s.last
    for b in sorted(left):
        # a failed attempt may have used up names: the first one can be any unused one
        if last is None or (b[:8] == last[:8] and (b not in size or b == last)):
            try:
                s.last = last
                return follow(c, s, {k: list(v) for k, v in left.items()}, dict(size), day, b)
            except Fail as e:
                err = e
    raise err or Fail("bundles for %s changed base name: %s, %r" % (s.addr, last, sorted(left)))


def follow(c, s, left, size, day, want):
    mx = (c.maxbundle or 0) * 1024
    wk = "WEEKDAYNAMING" in c.switches
    wday = (day + 1) % 7
    dn = ["su", "mo", "tu", "we", "th", "fr", "sa"]
    while left:
        if want:
            pass
        elif s.last is None:
            b = sorted(left)[0]
            if len({x[:8] for x in left}) != 1:
                raise Fail("bundles for %s use several base names: %r" % (s.addr, sorted(left)))
            want = b[:8] + "." + (dn[wday] if wk else "su") + "0"
        else:
            suf = sufno(s.last)
            if s.last in size and size[s.last] <= mx and not (wk and suf // 10 != wday):
                want = s.last
            else:
                n = (suf + 1) % 70
                if wk and n // 10 != wday:
                    n = wday * 10
                want = "%s.%s%d" % (s.last[:8], dn[n // 10], n % 10)
                if want in size:
                    want = s.last
        if want not in left:
            raise Fail("next packet for %s should be added to bundle %s (last %s, sizes %r), found additions to %r" % (s.addr, want, s.last, size, sorted(left)))
        size[want] = size.get(want, 0) + left[want].pop(0)
        if not left[want]:
            del left[want]
        s.last, want = want, None


def deferred(w, c, S, after):
    """deferred mail is kept once in the packet directory, nothing else is there"""
    got = {}
    listed = set()
    for s in S:
        for e in FEXT.values():
            k = "%s.%slo" % (s.base, e)
            if k in after:
                for l in flowlines(k, after[k]):
                    if l[:1] != "~" and l.lstrip("^#-").startswith(w.dir):
                        p = l.lstrip("^#-")
                        if p in listed:
                            raise Fail("%s is queued for two systems" % os.path.basename(p))
                        listed.add(p)
    orph = set()
    for k, v in after.items():
        if not k.startswith(w.p("pd") + "/") or k in listed:
            continue
        b = os.path.basename(k)
        m = re.fullmatch(r"([0-9a-f]{8})_(Normal|Hold|Direct|Crash|Echomail)_(\d+)_(\d+)_(\d+)_(\d+)\.pkttmp", b)
        if m:
            s = next((s for s in S if tuple(s.addr) == tuple(int(x) for x in m.groups()[2:])), None)
            if not s:
                raise Fail("deferred packet %s is for nobody" % b)
            net = m[2] != "Echomail"
            got.setdefault(s.addr, []).extend((m[2].lower(), t) for t in toks(w, s, k, v, ["netmail"] if net else []))
        elif b.endswith(".orphan"):
            m = re.fullmatch(r"(\w+) (\d+):(\d+)/(\d+)\.(\d+) Delete\n", v.decode("latin-1"))
            s = m and next((s for s in S if tuple(s.addr) == tuple(int(x) for x in m.groups()[1:])), None)
            if not s:
                raise Fail("orphan file %s is for nobody: %r" % (b, v))
            got.setdefault(s.addr, []).append(("att", int(re.search(r"\d+", b)[0])))
            orph.add(k[:-7])
        elif b == "cmindex" or b == "pkfail":
            pass
        elif b.startswith("att"):
            pass
        else:
            raise Fail("unexpected file %s in the packet directory" % b)
    for o in orph:
        if o not in after:
            raise Fail("deferred file %s is gone" % os.path.basename(o))
    for s in S:
        want = sorted(("att", t) if h == "att" else ((fl, t) if h == "netmail" else ("echomail", t)) for h, fl, t, _ in s.defer)
        if sorted(got.get(s.addr, [])) != want:
            raise Fail("deferred for %s: %r, expected %r" % (s.addr, sorted(got.get(s.addr, [])), want))


def mailer(w, s, how):
    """what a mailer does in a session with s"""
    did = 0
    for e in EXTS.values():
        k = "%s.%sut" % (s.base, e)
        if os.path.exists(k) and how in ("send", "truncate", "mark"):
            os.remove(k)
            s.out = [x for x in s.out if not (x[0] == "netmail" and EXTS[x[1]] == e)]
    for fl, e in FEXT.items():
        k = "%s.%slo" % (s.base, e)
        if not os.path.exists(k):
            continue
        data = open(k, "rb").read()
        lines = data.split(b"\n")[:-1]
        keep = []
        one = how.startswith("one")
        done = 0
        for l in lines:
            t = l.rstrip(b"\r").decode("latin-1")
            p = t.lstrip("^#")
            mine = t[:1] == "^" and p.startswith(w.dir)
            if not mine or (one and done):
                if t[:1] == "~" or mine or how == "mark" or one:
                    keep.append(l)
                continue
            done += 1
            b = os.path.basename(p)
            ts = []
            if isarc(p):
                did += 1
                for n, x in w.pk_members(p):
                    ts += toks(w, s, n, x, [])
                kind = "bundle"
            elif b.startswith("att"):
                ts, kind = [int(re.search(r"\d+", b)[0])], "att"
            else:
                ts, kind = toks(w, s, b, open(p, "rb").read(), []), "plain"
            s.out = [x for x in s.out if not (x[0] == kind and x[1] == fl and x[2] in ts)]
            if how.endswith("truncate") and kind == "bundle":
                open(p, "wb").close()
            else:
                os.remove(p)
            if how == "mark":
                keep.append(b"~" + l[1:])
        if keep:
            open(k, "wb").write(b"".join(l + b"\n" for l in keep))
        elif not keep:
            os.remove(k)
    return did


def describe(case):
    c = case.c
    return {"akas": ["%s@%s" % (a.addr, a.domain) for a in c.akas], "nodes": ["%s %s %s %s" % (n.addr, n.packer, n.flags, n.pri) for n in c.nodes], "switches": c.switches, "extra": c.extra,
            "maxpkt": c.maxpkt, "maxbundle": c.maxbundle, "index": case.index, "steps": [list(s) for s in case.steps]}
