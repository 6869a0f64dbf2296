"""C18: the nodelist index answers for every address of the lists exactly what the lists say."""
from pbt.core import Fail, Skip
from pbt.fido import *

ID = "C18"
BUDGET = {"quick": 1500, "thorough": 40000}
RULE = ("1-4 generated nodelists (zones, regions, hosts, hubs, nodes, private, hold and down entries, points, comments, mixed case, LF/CRLF, long lines, numbers to 65535, named in full or by base name with "
        "several editions on disk, default zones, duplicate entries across lists) compiled by crashlist; every kind of listed address and near misses looked up with crashgetnode; "
        "non-trivial = at least 6 listed and 2 unlisted addresses looked up")

WORDS = ["Foo", "Bar_BBS", "The_Lost_Node", "Stockholm", "J_R", "46-8-123-456", "-Unpublished-", "9600", "300", "V32B", "CM", "XA", "IBN:example.org:24554", "U", "ENC", "a-b", "Gr\xe5_x", "Zone", "Host", "x"]
KW = {"zone": "Zone", "region": "Region", "host": "Host", "hub": "Hub", "pvt": "Pvt", "hold": "Hold", "down": "Down", "node": "", "point": "Point"}


def case_of(d, s):
    return d.weighted([(6, s), (1, s.upper()), (1, s.lower()), (1, "".join(c.upper() if d.bool() else c.lower() for c in s))])


def num(d):
    return d.weighted([(5, d.int(1, 12)), (3, d.int(1, 999)), (1, d.choice([32767, 32768, 65535, 9999]))])


def gen_list(d):
    """the lines of one nodelist"""
    out = []

    def ent(kind, n):
        nf = d.weighted([(8, 6), (1, d.int(0, 5))])
        f = [d.choice(WORDS) for _ in range(min(nf, 5))]
        if nf == 6:
            f += d.listof(1, 4, lambda: d.choice(WORDS))
            if d.bool(.06):
                f += [d.choice("abc") * d.int(80, 300)]
        if f and f[-1].endswith("\xe5_x"):
            f[-1] = "Z"
        out.append((kind, n, case_of(d, KW[kind]) + "," + (d.choice(["", "", "", "0", "00"]) if n < 10 else "") + str(n) + ("," if f else "") + ",".join(f)))

    def nodes(lo, hi, hubs=True):
        for _ in range(d.int(lo, hi)):
            k = d.weighted([(6, "node"), (2, "hub" if hubs else "node"), (1, "pvt"), (1, "hold"), (1, "down"), (1, "junk")])
            if k == "junk":
                out.append(("junk", 0, d.choice(["; a comment", "", ";A Zone,99,Foo", "\x1a", " Host,99,x,y,z,1,300", "Zones,12,a,b", "Hosts,7,a", "Hubba,4,b", "Nodes,3,c", "Boss,2:3/4", "Pvtx,3,a,b", "Points,3,a"])))
                continue
            ent(k, num(d))
            if k != "down" and d.bool(.25):
                for _ in range(d.int(1, 3)):
                    ent("point", num(d))

    if d.bool(.5):
        out.append(("junk", 0, ";A FidoNet Nodelist for Friday -- Day number 293 : 12345"))
    for _ in range(d.int(1, 2)):
        if d.bool(.75):
            ent("zone", num(d))
        if d.bool(.4):
            nodes(0, 2)
        if d.bool(.3):
            ent("host", num(d))
            nodes(0, 3)
        for _ in range(d.int(0, 2)):
            ent("region", num(d))
            if d.bool(.4):
                nodes(0, 2)
            for _ in range(d.int(0, 2)):
                ent("host", num(d))
                nodes(0, 5)
    return out


def index(lines, zone):
    """(address) -> (region, hub, line) in order of the list"""
    z, net, node, reg, hub = zone, 0, 0, 0, 0
    out = []
    for kind, n, text in lines:
        pt = 0
        if kind == "zone":
            z, net, node, reg, hub = n, n, 0, 0, 0
        elif kind == "region":
            reg, net, node, hub = n, n, 0, 0
        elif kind == "host":
            net, node, hub = n, 0, 0
        elif kind == "hub":
            node = hub = n
        elif kind in ("node", "pvt", "hold"):
            node = n
        elif kind == "point":
            pt = n
        else:
            continue
        out.append(((z, net, node, pt), reg, hub, text))
    return out


def gen(d):
    lists, prefs = [], []
    used = set()
    for i in range(d.weighted([(3, 1), (3, 2), (2, 3), (1, 4)])):
        base = d.choice(["NODELIST", "Region20", "net201", "POINTS", "NODE", "nodelist2", "list.txt", "my list", "NODELISTX"])
        if base.lower() in used:
            continue
        used.add(base.lower())
        how = d.weighted([(3, "full"), (3, "base"), (1, "missing")])
        eds = []
        if how == "full":
            name = base + ("" if d.bool(.3) else ".%03d" % d.int(0, 366))
            eds = [(name, d.int(0, 50), gen_list(d))]
        elif how == "base":
            for t in d.shuffle([1, 2, 3, 4])[:d.int(1, 3)]:
                n = (case_of(d, base)) + ".%03d" % d.int(0, 366)
                if all(n != e[0] for e in eds):
                    eds.append((n, t * 1000 + d.int(0, 3) * 86400, gen_list(d)))
            name = case_of(d, base)
        else:
            name = base
        zone = d.weighted([(1, None), (1, d.int(1, 6)), (1, num(d))])
        lists.append((how, name, eds, zone))
        if d.bool(.3):
            prefs.append(d.choice(["; comment", "", ";nodelist 5", "   "]))
        nm = '"%s"' % name if " " in name or d.bool(.2) else name
        prefs.append(d.choice(["", "", " ", "\t"]) + nm + ("" if zone is None else d.choice([" ", "\t", "  "]) + str(zone)) + d.choice(["", "", " "]))
    decoys = d.subset(["nodelist.zip", "nodelist.12", "nodelist.12a", "nodelist.1234", "net2.017", "N.001", "NODEL.002", "notes.txt"], .3)
    return Cfg(lists=lists, prefs=prefs, decoys=decoys, eol=d.choice(["\n", "\r\n"]), peol=d.choice(["\n", "\r\n"]), lastnl=d.bool(.8),
               how=d.choice(["abs", "abs/", "kw", "env", "rel"]), pick=[d.int(0, 10 ** 6) for _ in range(18)], near=[(d.int(0, 10 ** 6), d.int(0, 3), d.choice([-1, 1, 256, 7])) for _ in range(8)])


class Cfg:
    def __init__(self, **kw):
        self.__dict__.update(kw)


def expected(a, reg, hub, text):
    line = text.encode("latin-1")[:199].rstrip(bytes(range(33))).decode("latin-1")
    kw, _, rest = line.partition(",")
    f = rest.split(",", 6)[1:]
    out = ["Node %d:%d/%d.%d" % a, "Region %d, Hub %d" % (reg, hub), "Node is listed as a %s" % (kw or "Node")]
    for k, v in zip(("Name", "Location", "Sysop", "Phone", "Baud", "Flags"), f):
        if v:
            out.append("%s: %s" % (k, v))
    return out


def check(case, env):
    w = World(env)
    w.write("nl/cmnodelist.prefs", "".join(p + case.peol for p in case.prefs))
    ents = []
    w.write("nl/cmnodelist.index", b"CNL1" + b"OLD.001".ljust(100, b"\0") + b"\1\0" * 200)
    for x in case.decoys:
        w.write("nl/" + x, "Zone,999,Decoy,a,b,c,300\n")
        os.utime(w.p("nl", x), (NOW + 500, NOW + 500))
    disk = {}
    for how, name, eds, zone in case.lists:
        for n, t, lines in eds:
            if n in disk:
                continue
            disk[n] = (t, lines)
            data = case.eol.join(l[2] for l in lines) + (case.eol if case.lastnl else "")
            w.write("nl/" + n, data)
            os.utime(w.p("nl", n), (NOW - 10 ** 6 + t, NOW - 10 ** 6 + t))
    for how, name, eds, zone in case.lists:
        if name in disk:
            lines = disk[name][1]
        else:
            cand = [(disk[n][0], n) for n in disk if len(n) == len(name) + 4 and n[:-4].lower() == name.lower() and n[-4] == "." and n[-3:].isdigit()]
            cand = sorted(cand)
            if len(cand) > 1 and cand[-1][0] == cand[-2][0]:
                raise Skip("equal dates")
            if not cand:
                continue
            lines = disk[cand[-1][1]][1]
        ents += index(lines, zone or 0)
    dirs = {"abs": w.p("nl"), "abs/": w.p("nl") + "/", "kw": w.p("nl"), "env": w.p("nl"), "rel": "nl"}
    d = dirs[case.how]
    w.run("crashlist", *(["DIRECTORY", d] if case.how == "kw" else [d]))
    first = {}
    for a, reg, hub, text in ents:
        first.setdefault(a, (reg, hub, text))
    ask = []
    keys = sorted(first)
    for p in case.pick:
        if keys:
            ask.append(keys[p % len(keys)])
    for p, i, o in case.near:
        a = list(keys[p % len(keys)]) if keys else [1, 2, 3, 0]
        a[i] = max(0, min(65535, a[i] + o))
        ask.append(tuple(a))
    hit = miss = 0
    for a in dict.fromkeys(ask):
        spec = "%d:%d/%d" % a[:3] + (".%d" % a[3] if a[3] or a[0] % 2 else "")
        if case.how == "env":
            r = w.run("crashgetnode", spec, ok=(0, 10), extra_env={"CMNODELISTDIR": d})
        else:
            r = w.run("crashgetnode", spec, *(["DIRECTORY", d] if case.how == "kw" else [d]), ok=(0, 10))
        got = r.stdout.decode("latin-1").replace("\r", "").split("\n")
        got = [g for g in got if g]
        if a in first:
            hit += 1
            exp = expected(a, *first[a])
            if r.returncode != 0 or got != exp:
                raise Fail("lookup of %s, listed as %r: got exit %d %r, expected %r" % (spec, first[a], r.returncode, got, exp))
        else:
            miss += 1
            if r.returncode != 10 or got != ["Node not found"]:
                raise Fail("lookup of unlisted %s: got exit %d %r" % (spec, r.returncode, got))
    env.count("lookups", hit + miss)
    if hit < 6 or miss < 2:
        return None
    return [sorted(first.items())[:40], case.prefs]


def describe(case):
    out = ["prefs:"] + case.prefs + ["directory given as " + case.how]
    for how, name, eds, zone in case.lists:
        for n, t, lines in eds:
            out.append("--- %s (date %d)" % (n, t))
            out += [l[2] for l in lines]
    return "\n".join(out)
