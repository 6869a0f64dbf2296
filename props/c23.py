"""C23: with either nodelist format, listed tests, regions and hubs are those of the nodelist."""
import random
import re
from pbt.core import Fail, Skip
from pbt.fido import *
from pbt.tossgen import Cfg
from pbt import v7

ID = "C23"
BUDGET = {"quick": 1500, "thorough": 40000}
RULE = ("a generated nodelist of 0-2500 entries (zones, regions, hosts, hubs, nodes, points, numbers to 65535) in V7+ files with index trees of 1-9 levels and blocks of 64-512 bytes, or compiled by crashlist; 8-45 netmails to listed "
        "addresses, their points and near misses, routed by REGION and by HUB and tested by filters; also missing, empty and cut files; non-trivial = at least 3 listed and 2 unlisted addresses asked for")
AKA = Addr(6, 6, 6)
FILES = ["NODEX.ndx", "NODEX.dat", "NODEX.dtp"]


def gen(d):
    fmt = d.weighted([(3, "V7+"), (1, "CMNL")])
    big = d.weighted([(4, 1), (3, 6), (2, 40)])
    num = lambda: d.weighted([(4, d.int(1, 15)), (4, d.int(1, 999)), (3, d.int(100, 300)), (1, d.choice([127, 128, 129, 255, 256, 257, 32767, 32768, 40000, 65534]))])
    seen, lines, ents = set(), [], {}

    def add(kw, n, a, reg, hub):
        if a in ents:
            return False
        ents[a] = (reg, hub)
        lines.append("%s,%d,Name,City,Sysop,-Unpublished-,300,IBN" % (kw, n))
        return True

    def nodes(z, net, reg, k):
        hub = 0
        rnd = random.Random(d.int(0, 10 ** 9))
        for _ in range(k):
            kw = rnd.choice(["", "", "", "Hub", "Pvt", "Hold"])
            n = rnd.randint(1, 400) if rnd.random() < .95 else rnd.choice([32768, 65534, 40000])
            if Addr(z, net, n) in ents:
                continue
            if kw == "Hub":
                hub = n
            add(kw, n, Addr(z, net, n), reg, hub)
            if rnd.random() < .08:
                for _ in range(rnd.randint(1, 3)):
                    p = rnd.randint(1, 200)
                    add("Point", p, Addr(z, net, n, p), reg, hub)
    for z in sorted(set(d.listof(0 if d.bool(.1) else 1, 3, lambda: d.weighted([(6, d.int(1, 5)), (1, d.choice([128, 255, 300, 4000]))])))):
        if z == 6 or not add("Zone", z, Addr(z, z, 0), 0, 0):
            continue
        if d.bool(.3):
            nodes(z, z, 0, d.int(0, 3) * big)
        for r in [0] + [num() for _ in range(d.int(0, 3))]:
            if r:
                if not add("Region", r, Addr(z, r, 0), r, 0):
                    continue
                if d.bool(.3):
                    nodes(z, r, r, d.int(0, 3))
            for _ in range(d.int(0, 2 if big < 40 else 4)):
                n = num()
                if add("Host", n, Addr(z, n, 0), r, 0):
                    nodes(z, n, r, d.int(0, 6) * big)
    broken = d.weighted([(12, None), (1, "missing"), (1, "empty"), (1, "short")])
    return Cfg(fmt=fmt, ents=ents, lines=lines, seed=d.int(0, 10 ** 9), block=d.weighted([(3, 512), (1, 256), (1, 64)]), fan=d.choice([None, None, 2, 4]), broken=broken, which=d.int(0, 2), cut=d.int(0, 20),
               pick=[d.int(0, 10 ** 6) for _ in range(d.int(4, 25))], near=[(d.int(0, 10 ** 6), d.int(0, 3), d.choice([-1, 1, 256, 7, 3])) for _ in range(d.int(3, 12))], rnd=[Addr(d.int(1, 5), num(), num(), d.int(0, 3)) for _ in range(d.int(1, 6))])


def asked(case):
    ks = sorted(case.ents)
    out = []
    if ks:
        out += [ks[i % len(ks)] for i in case.pick] + [ks[0], ks[-1]]
    for i, f, dl in case.near:
        if ks:
            a = list(ks[i % len(ks)])
            a[f] = (a[f] + dl) % 65535
            if a[0]:
                out.append(Addr(*a))
    out += case.rnd
    return [Addr(*a) for a in dict.fromkeys(out) if a[0] not in (0, AKA.zone) and a[0] < 4096]


def check(case, env):
    w = World(env)
    q_ = asked(case)
    files = v7.build({tuple(a): e for a, e in case.ents.items()}, case.seed, case.block, case.fan)
    if case.fmt == "V7+":
        for n, b in files.items():
            w.write("nl/" + n, b)
        names = FILES
    else:
        w.write("nl/LIST", "".join(l + "\r\n" for l in case.lines))
        w.write("nl/cmnodelist.prefs", "LIST 1\n")
        w.run("crashlist", w.p("nl"))
        names = ["cmnodelist.index"]
    good = {n: w.read("nl/" + n) for n in names}

    def cfg(dest):
        return ("SYSOP S\nLOGFILE %s\nLOGLEVEL 6\nINBOUND %s\nOUTBOUND %s\nTEMPDIR %s\nCREATEPKTDIR %s\nPACKETDIR %s\n" % tuple(q(w.p(x)) for x in ("log", "in", "out", "tmp", "cp", "pd")) +
                "AKA %s\nDOMAIN X\nNODELIST %s %s\nNETMAIL N %s MSG %s\nROUTE * \"%s\" %s\n" % (AKA, q(w.p("nl")), case.fmt, AKA, q(w.p("net")), dest, AKA) +
                "FILTER EXISTSNL_TOADDR\nWRITELOG \"listed %s\"\nFILTER EXISTSNL_TOBOSS\nWRITELOG \"boss %s\"\n")

    def drop(base):
        ms = []
        for i, a in enumerate(q_):
            t = b"\1INTL %d:%d/%d 6:1/1\r" % (a[0], a[1], a[2]) + (b"\1TOPT %d\r" % a[3] if a[3] else b"") + b"hi\r"
            ms.append(pkt_msg(1, 1, a[1], a[2], 0, 0, b"14 Oct 23  10:%02d:%02d" % (i, base % 60), b"To", b"From", b"#%d" % i, t))
        w.drop("%08x.pkt" % base, make_pkt(pkt_header(Addr(6, 1, 1), AKA, b"", "2+"), ms))

    if case.broken and not (case.fmt == "CMNL" and case.broken == "short"):
        n = names[case.which % len(names)]
        if case.fmt == "V7+" and case.broken != "missing":
            n = "NODEX.ndx"
        if case.broken == "missing":
            os.unlink(w.p("nl", n))
        else:
            w.write("nl/" + n, good[n][:case.cut] if case.broken == "short" else b"")
        w.write("cfg", cfg("REGION"))
        drop(0x100)
        before = w.read("in/00000100.pkt")
        w.toss(ok=None)
        if not os.path.exists(w.p("in/00000100.pkt")) or w.read("in/00000100.pkt") != before or os.listdir(w.p("out")) or os.path.exists(w.p("net")) and os.listdir(w.p("net")):
            raise Fail("mail was processed although the nodelist file %s is %s" % (n, case.broken))
        for n in names:
            w.write("nl/" + n, good[n])
        os.unlink(w.p("in/00000100.pkt"))
        env.count("unusable_nodelists")
    for mode in ("REGION", "HUB"):
        if os.path.exists(w.p("log")):
            os.unlink(w.p("log"))
        w.write("cfg", cfg(mode))
        for dp, dn, fn in os.walk(w.dir):
            for f in fn:
                if os.path.basename(dp).startswith("out"):
                    os.unlink(os.path.join(dp, f))
        drop(0x200 if mode == "REGION" else 0x300)
        w.toss()
        got = {}
        for dest, fl, how, h, m in w.queued_messages(AKA.zone):
            got.setdefault(int(m.subj[1:]), []).append(dest)
        for i, a in enumerate(q_):
            e = case.ents.get(a.boss)
            reg, hub = e or (0, 0)
            want = Addr(a.zone, reg or a.net, 0) if mode == "REGION" else Addr(a.zone, a.net, hub)
            if got.get(i) != [want]:
                raise Fail("%s nodelist: netmail to %s was queued for %s, but its %s is %s" % (case.fmt, a, got.get(i), mode.lower(), want))
        log = w.log()
        for word, f in (("listed", lambda a: a), ("boss", lambda a: a.boss)):
            ls = re.findall(r"%s #(\d+)" % word, log)
            want = [str(i) for i, a in enumerate(q_) if f(a) in case.ents]
            if ls != want:
                x = set(ls) ^ set(want)
                raise Fail("%s nodelist: filter test %s is wrong for %s" % (case.fmt, word, [str(q_[int(i)]) for i in sorted(x)][:3]))
    env.count("lookups", 2 * len(q_))
    li = sum(a in case.ents for a in q_)
    if li < 3 or len(q_) - li < 2:
        return None
    return [case.fmt, case.block, case.fan, sorted(map(str, case.ents))[:50], [str(a) for a in q_]]


def describe(case):
    return {"format": case.fmt, "block": case.block, "fan": case.fan, "entries": len(case.ents), "nodelist": case.lines[:60], "asked": [str(a) for a in asked(case)][:40], "broken": case.broken}
