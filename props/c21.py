"""C21: the statistics count what was received, stored, sent and found to be duplicate; crashstats reports them."""
import struct, time as _time
from pbt.core import Fail
from pbt.tossgen import *
from . import c01

ID = "C21"
BUDGET = {"quick": 1500, "thorough": 40000}
RULE = ("histories of 1-5 toss and scan runs over several days (echomail, netmail, bad messages, duplicates, auto-added areas, unknown senders), a changed configuration, a killed run; after every run the statistics file is compared with "
        "counts from an independent model and from the mail found in the outbound, then crashstats output with random options; non-trivial = at least 3 counters are nonzero")
MON = "Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec".split()
DAY = 86400


def gen(d):
    case = c01.gen(d, dict(dupes=.7, unknown_area=.12, unlinked=.15, spoof=.12, runs=(1, 4), maxpkt=.1, addrem=.05, big=.1))
    c = case.c
    c.routes = None
    for r in case.runs:
        r.days = d.weighted([(3, 0), (4, 1), (2, d.int(2, 7)), (1, d.int(8, 400))])
        r.secs = d.int(0, DAY - 1)
        r.net = []
        for i in range(d.weighted([(2, 0), (3, d.int(1, 3))])):
            r.net.append(Cfg(orig=d.choice(c.nodes).addr if not d.bool(.15) else gen_addr(d), dest=d.choice(c.akas).addr if d.bool(.5) else d.choice(c.nodes).addr if d.bool(.8) else gen_addr(d),
                             text="".join(gen_line(d) + "\r" for _ in range(d.int(1, 4))) + "x\r"))
        r.scan = []
        for a in c.areas:
            if a.kind == "echo" and a.mb == "MSG" and "UNCONFIRMED" not in a.opts and d.bool(.25):
                r.scan.append((a.tag, d.int(1, 3)))
    case.reconf = d.shuffle(list(range(len(c.areas)))) if d.bool(.5) else None
    case.drop = d.int(0, 9)
    case.dropnode = d.bool(.3)
    case.kill = d.int(1, 400) if d.bool(.3) else 0
    case.tz = d.choice(["UTC", "UTC", "XST-5:30", "YST+8"])
    case.args = []
    for _ in range(2):
        a = []
        if d.bool(.7):
            a += ["SORT", d.choice(["a", "t", "m", "d", "l", "u", "Total", "ALPHA"])]
        a += d.subset(["LAST7"], .4)
        a += d.subset(["NOAREAS", "NONODES"], .15)
        if d.bool(.3):
            a += ["GROUP", d.choice(["A", "b", "AB", "C"])]
        case.args.append(a)
    return case


class Stat(Cfg):
    pass


def read_stats(w, data):
    """independent reader of the statistics file -> (day, {tag: Stat}, {addr: Stat})"""
    try:
        if data[:4] != b"CST3":
            raise Fail("statistics file has identifier %r" % data[:4])
        day, n = struct.unpack("<II", data[4:12])
        o = 12
        areas, nodes = {}, {}
        AF = struct.Struct("<80s4Hcx2xI8HIxxxxqq")
        for _ in range(n):
            f = AF.unpack_from(data, o)
            o += AF.size
            tag = f[0].split(b"\0")[0].decode("latin-1")
            if tag.lower() in areas:
                raise Fail("area %s twice in the statistics" % tag)
            areas[tag.lower()] = Stat(tag=tag, aka=Addr(*f[1:5]), group=f[5].decode("latin-1").strip("\0"), total=f[6], last=list(f[7:15]), dupes=f[15], first=f[16], lasttime=f[17])
        n, = struct.unpack_from("<I", data, o)
        o += 4
        NF = struct.Struct("<4H9Ixxxxq")
        for _ in range(n):
            f = NF.unpack_from(data, o)
            o += NF.size
            nodes[Addr(*f[:4])] = Stat(zip(("gn", "gnb", "sn", "snb", "ge", "geb", "se", "seb", "dupes", "first"), f[4:]))
        if o != len(data):
            raise Fail("statistics file is %d bytes long, expected %d" % (len(data), o))
    except struct.error:
        raise Fail("statistics file is truncated (%d bytes)" % len(data))
    return day, areas, nodes


class Ledger:
    def __init__(self):
        self.day = 0
        self.areas = {}
        self.nodes = {}

    def area(self, tag):
        return self.areas.setdefault(tag.lower(), Stat(total=0, last=[0] * 8, dupes=0, first=0, lasttime=0))

    def node(self, a):
        return self.nodes.setdefault(a, Stat(gn=0, gnb=0, sn=0, snb=0, ge=0, geb=0, se=0, seb=0, dupes=0, first=0))

    def commit(self, now, texts, dupes):
        day = now // DAY
        if self.day and day > self.day:
            for s in self.areas.values():
                k = min(8, day - self.day)
                s.last = [0] * k + s.last[:8 - k]
        self.day = day
        for t, n in texts.items():
            s = self.area(t)
            s.total += n
            s.last[0] += n
            s.lasttime = now
            s.first = s.first or now
        for t, n in dupes.items():
            self.area(t).dupes += n
        for s in self.nodes.values():
            if not s.first and (s.gn or s.sn or s.ge or s.se):
                s.first = now

    def compare(self, w, areas, nodes):
        day, fa, fn = read_stats(w, w.read("stats"))
        if day != self.day:
            raise Fail("statistics are dated day %d, expected %d" % (day, self.day))
        want = {a.tag.lower(): a for a in areas if a.kind in ("echo", "bad", "net") and "UNCONFIRMED" not in a.opts}
        if set(fa) != set(want):
            raise Fail("areas in the statistics: missing %r, extra %r" % (sorted(set(want) - set(fa)), sorted(set(fa) - set(want))))
        for t, a in want.items():
            e, g = self.area(t), fa[t]
            for k in ("total", "last", "dupes", "first", "lasttime"):
                if e[k] != g[k]:
                    raise Fail("statistics of area %s: %s is %r, expected %r" % (a.tag, k, g[k], e[k]))
            if g.aka != a.aka or g.group != (a.get("group") or ""):
                raise Fail("statistics of area %s: aka %s group %r, expected %s %r" % (a.tag, g.aka, g.group, a.aka, a.get("group")))
        if set(fn) != set(nodes):
            raise Fail("nodes in the statistics: %r, expected %r" % (sorted(map(str, fn)), sorted(map(str, nodes))))
        for n in nodes:
            if dict(self.node(n)) != dict(fn[n]):
                raise Fail("statistics of node %s: %r, expected %r" % (n, dict(fn[n]), dict(self.node(n))))
        # what is no longer configured is forgotten
        self.areas = {t: s for t, s in self.areas.items() if t in want}
        self.nodes = {n: s for n, s in self.nodes.items() if n in nodes}


def raw_net(m):
    t = "\x01INTL %d:%d/%d %d:%d/%d\r" % (m.dest[:3] + m.orig[:3])
    if m.orig.point:
        t += "\x01FMPT %d\r" % m.orig.point
    if m.dest.point:
        t += "\x01TOPT %d\r" % m.dest.point
    t = (t + m.text).encode("latin-1")
    return t, pkt_msg(m.orig.net, m.orig.node, m.dest.net, m.dest.node, 1, 0, b"01 Jan 23  10:00:00", b"Some One", b"Me", b"netmail", t)


def bump(dct, k, n=1):
    dct[k] = dct.get(k, 0) + n


def check(case, env):
    c = case.c
    w = World(env)
    w.now = w.now // DAY * DAY
    w.write("cfg", cfgtext(w, c))
    model = EchoModel(c)
    led = Ledger()
    addrs = [n.addr for n in c.nodes]
    akas = [k.addr for k in c.akas]
    main = akas[0].zone
    seen = {}                   # node -> [netmails, bytes, echomails, bytes] found in the outbound so far
    nets = [a for a in c.areas if a.kind == "net"]
    bads = [a for a in c.areas if a.kind == "bad"]

    def account(now, texts, dupes):
        """sent mail is what appeared in the outbound"""
        tot = {}
        for dest, fl, how, h, m in w.queued_messages(main):
            s = tot.setdefault(dest, [0, 0, 0, 0])
            if m.text.startswith(b"AREA:"):
                s[2] += 1
                s[3] += len(split_echo(m.text)[1])
            else:
                s[0] += 1
                s[1] += len(m.text)
        for n in addrs:
            old, new = seen.get(n, [0] * 4), tot.get(n, [0] * 4)
            for k, a, b in zip(("sn", "snb", "se", "seb"), old, new):
                led.node(n)[k] += b - a
        seen.clear()
        seen.update(tot)
        led.commit(now, texts, dupes)

    def setup(r, ri, pre="%04x%04x.pkt"):
        """put the packets of a run in the inbound; -> new texts, dupes"""
        texts, dupes = {}, {}
        k = 0
        for pi, p in enumerate(r.pkts):
            w.drop(pre % (ri, k), make_pkt(pkt_header(p.orig, p.dest, c01.pw_for(c, p.orig, p.kind, model), p.kind), [raw_echo(m, p.orig, p.dest) for m in p.msgs]))
            k += 1
            who = model.node(model.fix_orig(p.orig, p.dest, p.kind)[0])
            for m in p.msgs:
                b, dd = len(model.bad), len(model.dead)
                model.toss(p.orig, p.dest, p.kind, m, r.nosec)
                if who:
                    s = led.node(who.addr)
                    s.ge += 1
                    s.geb += len(m.body.encode("latin-1"))
                if len(model.dead) > dd:
                    bump(dupes, m.tag.strip().lower())
                    if who:
                        led.node(who.addr).dupes += 1
                elif len(model.bad) == b:
                    bump(texts, m.tag.strip().lower())
                if len(model.bad) > b and bads:
                    bump(texts, bads[0].tag.lower())
        for m in r.net:
            t, raw = raw_net(m)
            who = model.node(m.orig)
            w.drop(pre % (ri, k), make_pkt(pkt_header(m.orig, akas[0], who.pw.encode() if who else b""), [raw]))
            k += 1
            if who:
                s = led.node(who.addr)
                s.gn += 1
                s.gnb += len(t)
            a = next((x for x in nets if m.dest == x.aka or m.dest in x.get("imports", [])), None)
            if not a and m.dest in akas and nets:
                a = nets[0]
            if a:
                bump(texts, a.tag.lower())
        return texts, dupes

    for ri, r in enumerate(case.runs):
        w.now += r.days * DAY
        now0, w.now = w.now, w.now // DAY * DAY + r.secs
        if w.now < now0:
            w.now = now0
        texts, dupes = setup(r, ri)
        w.toss(*(["NOSECURITY"] if r.nosec else []))
        account(w.now, texts, dupes)
        led.compare(w, model.areas, addrs)
        if r.scan:
            w.now += 7
            texts = {}
            for tag, n in r.scan:
                a = model.area(tag)
                d = area_path(w, a)
                os.makedirs(d, exist_ok=True)
                top = max([1] + list(read_msgdir(d)))
                for i in range(n):
                    w.write(os.path.relpath(os.path.join(d, "%d.msg" % (top + 1 + i)), w.dir), make_msg(b"Me", b"All", b"local", b"01 Jan 23  10:00:00", 0x100, b"hello\r--- \r * Origin: x (%s)\r" % str(a.aka).encode(), a.aka))
                bump(texts, tag.lower(), n)
            w.crashmail("SCAN")
            account(w.now, texts, {})
            led.compare(w, model.areas, addrs)
    crashstats(w, case, led, model.areas, addrs)
    if case.kill:
        # a run that dies leaves the old or the new statistics, complete
        old = w.read("stats")
        before = read_stats(w, old)
        w.now += DAY
        r = case.runs[0]
        texts, dupes = setup(r, 0xff)
        w.toss(*(["NOSECURITY"] if r.nosec else []), ok=None, extra_env={"SHIM_KILL": str(case.kill)})
        if w.last.returncode:
            env.count("killed")
        if w.read("stats") != old:
            account(w.now, texts, dupes)
            led.compare(w, model.areas, addrs)
        return key(led)
    if case.reconf:
        areas = [c.areas[i] for i in case.reconf]
        gone = [a for a in areas if a.kind == "echo"][:1] if case.drop % 2 else []
        areas = [a if case.drop % 3 else Cfg(a, tag=swapcase(a.tag)) for a in areas if a not in gone]
        new = Cfg(kind="echo", tag="ZNEWAREA", aka=akas[-1], mb=None, path="", opts=[], exports=[], group="B", banned=[], desc="")
        nodes = c.nodes
        if case.dropnode and len(nodes) > 1:
            nodes = nodes[1:][::-1]
            areas = [Cfg(a, exports=[x for x in a.get("exports", []) if x[1] != c.nodes[0].addr]) for a in areas]
        c2 = Cfg(c, areas=areas + [new], nodes=nodes)
        addrs = [n.addr for n in nodes]
        w.write("cfg", cfgtext(w, c2))
        w.now += 3
        w.crashmail("SCAN")
        led.commit(w.now, {}, {})
        led.compare(w, c2.areas, addrs)
        w.write("cfg", cfgtext(w, c))
        addrs = [n.addr for n in c.nodes]
        w.crashmail("SCAN")
        led.compare(w, c.areas, addrs)
        crashstats(w, case, led, c.areas, addrs)
    if case.drop < 2:
        # without a statistics file nothing is written
        w.write("cfg", re.sub("(?m)^STATSFILE.*\n", "", w.read("cfg").decode("latin-1")))
        os.unlink(w.p("stats"))
        before = sorted(os.listdir(w.dir))
        w.crashmail("SCAN")
        if sorted(os.listdir(w.dir)) != before:
            raise Fail("a run without STATSFILE left %r" % sorted(set(os.listdir(w.dir)) - set(before)))
    return key(led)


def key(led):
    v = [[t, s.total, s.dupes, s.last] for t, s in sorted(led.areas.items())] + [[str(n), list(s.values())] for n, s in sorted(led.nodes.items())]
    nz = sum(1 for x in v for y in (x[1] if isinstance(x[1], list) else x[1:3]) if y)
    return v if nz >= 3 else None


def dm(t, off):
    g = _time.gmtime(t + off)
    return "%02d-%s-%02d" % (g.tm_mday, MON[g.tm_mon - 1], g.tm_year % 100)


def average(s, day, first):
    if not day or not first:
        return 0
    days = day - first // DAY
    n = min(7, days)
    t = sum(s.last[1:1 + n])
    if not t and s.total:
        return s.total // max(1, days)
    return t // max(1, n)


def unit(n):
    return "%d MB" % (n >> 20) if n > 10000000 else "%d KB" % (n >> 10) if n > 10000 else "%d bytes" % n


def crashstats(w, case, led, areas, nodes):
    off = {"UTC": 0, "XST-5:30": 19800, "YST+8": -28800}[case.tz]
    for args in case.args:
        both = "NOAREAS" in args and "NONODES" in args
        r = w.run("crashstats", w.p("stats"), *args, ok=(10,) if both else (0,), extra_env={"TZ": case.tz})
        if both:
            continue
        out = r.stdout.decode("latin-1").split("\n")
        mode = args[args.index("SORT") + 1][0].lower() if "SORT" in args else "a"
        grp = args[args.index("GROUP") + 1].upper() if "GROUP" in args else None
        al = [a for a in areas if a.kind in ("echo", "bad", "net") and "UNCONFIRMED" not in a.opts]
        shown = [(a.tag, led.area(a.tag)) for a in al if not grp or (a.get("group") or "\0").upper() in grp]
        if "NOAREAS" in args:
            if any(l.startswith("Area  ") for l in out):
                raise Fail("crashstats NOAREAS prints areas")
        else:
            h = next((i for i, l in enumerate(out) if l.startswith("Area  ")), None)
            if h is None:
                raise Fail("crashstats prints no area table: %r" % out)
            rows = []
            i = h + 2
            while i < len(out) and not out[i].startswith("===="):
                rows.append(out[i])
                i += 1
            if i + 1 >= len(out):
                raise Fail("crashstats area table does not end: %r" % out)
            total = out[i + 1]
            sk = {"a": lambda s: 0, "t": lambda s: -s.total, "m": lambda s: -average(s, led.day, s.first), "d": lambda s: -s.first, "l": lambda s: -s.lasttime, "u": lambda s: -s.dupes}[mode]
            if "LAST7" in args:
                days = out[h].split()[1:-1]
                want = ["%02d" % _time.gmtime((led.day - k) * DAY + off).tm_mday for k in range(1, 8)]
                if days != want:
                    raise Fail("crashstats LAST7 header shows days %r, expected %r" % (days, want))
                rec = lambda t, s: [t[:33]] + s.last[1:] + [":", sum(s.last[1:])]
                tot = ["Totally in all %d areas" % len(shown)] + [sum(s.last[k] for _, s in shown) for k in range(1, 8)] + [":", sum(sum(s.last[1:]) for _, s in shown)]
            else:
                date = lambda t: dm(t, off) if t else "<Never>"
                rec = lambda t, s: [t[:30], date(s.first), date(s.lasttime), s.total, average(s, led.day, s.first), s.dupes]
                fs = [s.first for s in [led.area(a.tag) for a in al] + ([led.node(n) for n in nodes] if "NONODES" not in args else []) if s.first]
                allv = Stat(last=[sum(s.last[k] for _, s in shown) for k in range(8)], total=sum(s.total for _, s in shown))
                tot = ["Totally in all %d areas" % len(shown), allv.total, average(allv, led.day, min(fs) if fs else 0), sum(s.dupes for _, s in shown)]
            join = lambda l: " ".join(str(x) for x in l)
            norm = lambda l: re.sub(" +", " ", l).strip()
            want = sorted(join(rec(t, s)) for t, s in shown)
            if sorted(map(norm, rows)) != want:
                raise Fail("crashstats %s area rows %r, expected %r" % (args, sorted(map(norm, rows)), want))
            # in the order asked for
            by = {}
            for t, s in shown:
                by.setdefault(join(rec(t, s)), []).append((t, s))
            seq = [by[norm(x)][0] for x in rows]
            ks = [sk(s) for _, s in seq]
            if ks != sorted(ks):
                raise Fail("crashstats %s order is %r" % (args, rows))
            if mode == "a" and [t.lower() for t, _ in seq] != sorted(t.lower() for t, _ in shown):
                raise Fail("crashstats areas are not in alphabetical order: %r" % rows)
            if norm(total) != join(tot):
                raise Fail("crashstats %s totals %r, expected %r" % (args, norm(total), join(tot)))
            if not any(l.startswith("Statistics from") and l.endswith(" to " + dm(led.day * DAY, off)) for l in out):
                raise Fail("crashstats period: %r" % out[:4])
        got = [l for l in out if "Statistics since:" in l]
        if "NONODES" in args:
            if got:
                raise Fail("crashstats NONODES prints nodes")
            continue
        if [l.split()[0] for l in got] != ["%d:%d/%d.%d" % n for n in sorted(nodes)]:
            raise Fail("crashstats nodes %r, expected %r" % (got, sorted(map(str, nodes))))
        i = 0
        for n in sorted(nodes):
            s = led.node(n)
            while "Statistics since:" not in out[i]:
                i += 1
            text = " ".join(out[i:i + 8]).split("since: ")[1].split()
            want = ["<Never>" if not s.first else re.sub("^0", "", dm(s.first, off))] + ("Sent netmails: %d/%s Received netmails: %d/%s Sent echomails: %d/%s Received echomails: %d/%s Dupes: %d" % (
                s.sn, unit(s.snb), s.gn, unit(s.gnb), s.se, unit(s.seb), s.ge, unit(s.geb), s.dupes)).split()
            if s.first and text[0].count("-") == 2:
                a, b, y = text[0].split("-")
                text[0] = "%s-%s-%02d" % (a, b, int(y))
            if text != want:
                raise Fail("crashstats node %s: %r, expected %r" % (n, " ".join(text), " ".join(want)))
            i += 1
    return None


describe = c01.describe
