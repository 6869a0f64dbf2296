"""C16: updating the configuration changes what was asked for and keeps everything else."""
from pbt.afgen import *

ID = "C16"
BUDGET = {"quick": 5200, "thorough": 40000}
RULE = ("random system rendered as an untidy configuration file (comments and blank lines anywhere, odd case and spacing, tabs, repeated and abbreviated EXPORT lines, statements in any order the program accepts, other statements between "
        "area settings, missing final newline) x 1-4 runs of AreaFix requests, auto-added areas from incoming echomail and area removals; non-trivial = the file was rewritten at least once")


def gen(d):
    c = gen_af_system(d)
    ops = gen_ops(d, c)
    for _ in range(d.int(0, 2)):
        n = d.choice(c.nodes)
        ops.insert(d.int(0, len(ops)), ("echo", n.addr, ["%s%d" % (d.choice(["NEW.", "Odd tag ", "Q\"t\\", "z"]), d.int(0, 5)) for _ in range(d.int(1, 2))]))
    return Cfg(c=c, ops=ops, mess=d.int(0, 1 << 30), eof=d.bool(.3), crlf=d.bool(.1))


def case_mix(r, s):
    return "".join(ch.lower() if r.random() < .5 else ch for ch in s) if r.random() < .4 else s


def messy(w, c, r, eof):
    """an untidy rendering of the configuration, in statements that the program understands the same way"""
    out = []
    nl = lambda: out.append(r.choice(["", "  ", "\t"])) if r.random() < .25 else None

    def comment():
        if r.random() < .3:
            out.append(r.choice(["; a comment", ";", " ; indented", ";AREA FAKE 1:1/1", "; NODE 1:2/3 \"\" \"\"", ";;; EXPORT 9:9/9", "\t; GROUP Z"]) + " %d" % len(out))

    def stmt(s, keep=False):
        comment()
        nl()
        ws = s.split(" ", 1)
        k = case_mix(r, ws[0])
        lead = r.choice(["", "", " ", "\t", "   "])
        sep = r.choice([" ", " ", "  ", "\t"])
        out.append(lead + k + (sep + ws[1] if len(ws) > 1 else "") + r.choice(["", "", " ", "\t"]))

    base = cfgtext(w, c).split("\n")
    head, blocks, cur = [], [], None
    for l in base:
        k = l.split(" ")[0]
        if k in ("NODE", "AREA", "NETMAIL", "LOCALAREA"):
            cur = [l]
            blocks.append(cur)
        elif cur is not None and (k in cfgparse.AREAKW or k in cfgparse.NODEKW):
            cur.append(l)
        elif l:
            cur = None
            if k == "ROUTE" or k == "AREALIST":
                blocks.append([l])
            else:
                head.append(l)
    for l in head:
        stmt(l)
    switches = [["NOROUTE"], ["GROUPNAME Z \"Zed\""], ["CHANGE \"*\" \"9:9/9.9\" Hold"], ["BOUNCE \"77:*/*.*\""], ["LOGLEVEL 3"]]
    for b in blocks:
        stmt(b[0])
        rest = b[1:]
        r.shuffle(rest)
        for l in rest:
            if l.startswith("EXPORT ") and r.random() < .5:
                ws = l.split(" ")[1:]
                i = r.randrange(1, len(ws) + 1)
                for part in (ws[:i], ws[i:]):
                    if part:
                        stmt("EXPORT " + abbreviate(r, part))
            else:
                stmt(l)
            if r.random() < .12:
                stmt(r.choice(switches)[0])
    comment()
    text = "\n".join(out) + ("" if eof else "\n")
    return text


def abbreviate(r, ws):
    """1:2/3.0 1:2/4.0 -> 1:2/3 4"""
    out, last = [], None
    for x in ws:
        f = x[0] if x[0] in "!@%" else ""
        a = A(x[len(f):])
        t = "%d:%d/%d" % a[:3] + (".%d" % a.point if a.point or r.random() < .5 else "")
        if last and last[0] == a.zone and r.random() < .6:
            t = "%d/%d" % a[1:3] + (".%d" % a.point if a.point else "")
            if last[1] == a.net and r.random() < .7:
                t = "%d" % a.node + (".%d" % a.point if a.point else "")
        last = a
        out.append(f + t)
    return r.choice([" ", "  ", "\t"]).join(out)


def full_words(text):
    """logical statements of a file, with abbreviated node lists written out"""
    res = []
    for raw in text.split("\n"):
        ws = cfgparse.words(raw.rstrip("\r"))
        if ws and ws[0].upper() == "EXPORT" :
            last, o = None, []
            for x in ws[1:]:
                f = ""
                while x[0] in "!@%":
                    f += x[0]
                    x = x[1:]
                z, n = (None, x) if ":" not in x else x.split(":")
                n, o2 = (None, n) if "/" not in n else n.split("/")
                o2, p = (o2, "0") if "." not in o2 else o2.split(".")
                a = Addr(int(z) if z else last.zone, int(n) if n else last.net, int(o2), int(p))
                last = a
                o.append(f + a.full)
            res.append("EXPORT " + " ".join(o))
        else:
            res.append(raw)
    return "\n".join(res)


def blocks_of(text):
    """{(kind, name): [non-blank lines of the block up to the next block]} and the list of all non-blank lines"""
    d, cur = {}, None
    for l in text.split("\n"):
        ws = cfgparse.words(l)
        if not ws:
            continue
        k = ws[0].upper()
        if k in ("AREA", "NETMAIL", "LOCALAREA"):
            cur = d.setdefault(("area", ws[1].upper()), [])
        elif k == "NODE":
            cur = d.setdefault(("node", A(ws[1])), [])
        if cur is not None:
            cur.append(l)
    return d


def kept(old, touched):
    """lines that must survive: everything that does not belong to a changed area or node"""
    res, cur = [], None
    for l in old.split("\n"):
        ws = cfgparse.words(l)
        if not ws:
            continue
        k = ws[0].upper()
        mine = False
        if k in ("AREA", "NETMAIL", "LOCALAREA"):
            cur, mine = ("area", ws[1].upper()), True
        elif k == "NODE":
            cur, mine = ("node", A(ws[1])), True
        elif cur and (cur[0] == "area" and k in cfgparse.AREAKW or cur[0] == "node" and k in cfgparse.NODEKW):
            mine = True
        if not (mine and cur in touched):
            res.append(l)
    return res


def subsequence(want, have):
    it = iter(have)
    for x in want:
        for y in it:
            if x == y:
                break
        else:
            return x
    return None


def play_echo(w, c, model, op, i):
    model.mails, model.rescans, model.imported, model.touched = [], [], [], set()
    n = model.node(op[1])
    msgs = []
    aka = c.akas[0].addr
    for t in op[2]:
        msgs.append(pkt_msg(n.addr.net, n.addr.node, aka.net, aka.node, 0, 0, b"01 Jan 24  10:00:00", b"All", b"Me", b"x #1", b"AREA:" + t.encode("latin-1") + b"\rtext\r"))
    w.drop("%08x.pkt" % i, make_pkt(pkt_header(n.addr, aka, n.pktpw.encode(), "2+"), msgs))
    for t in op[2]:
        if any(a.tag.lower() == t.lower() for a in model.areas):
            continue
        sw = c.switches
        c.switches = [s for s in sw if s != "FORWARDPASSTHRU"]
        a = model.newarea(t, n, aka)
        c.switches = sw
        a.group = n.defgroup
        if "AUTOADD" not in n.flags:
            ro = a.opts
            a.opts = ["UNCONFIRMED"] + [o for o in ro if " " in o]
            # read-only access by default only counts for areas that are in use
            a.exports = [(f if x in [y for _, y in dflt_links(model, n)] or f == "%" else ("!" if n.defgroup in model.node(x).ro else ""), x) for f, x in a.exports]
        model.touched.add(("area", t.upper()))
    w.toss()


def dflt_links(model, up):
    dflt = None
    if up.defgroup:
        dflt = next((x for x in model.areas if x.tag.upper().startswith("DEFAULT_") and up.defgroup in x.tag[8:]), None)
    dflt = dflt or next((x for x in model.areas if x.tag.upper() == "DEFAULT"), None)
    return dflt.exports if dflt else []


def check(case, env):
    c = case.c
    w = World(env)
    af_setup(w, c)
    r = random.Random(case.mess)
    w.write("cfg", messy(w, c, r, case.eof))
    model = AFModel(c)
    check_config(w, c, model, "before", full_words(w.read("cfg").decode("latin-1")).encode("latin-1"))
    rewritten = 0
    for i, op in enumerate(case.ops):
        w.now += 2
        old = w.read("cfg")
        bak = w.read("cfg.bak") if os.path.exists(w.p("cfg.bak")) else None
        if op[0] == "echo":
            play_echo(w, c, model, op, i)
        else:
            play_op(w, c, model, op, i)
        name = "run %d (%s)" % (i, op[0] if op[0] in ("toss", "echo") else " ".join(op))
        new = w.read("cfg")
        s = lambda b: b.decode("latin-1")
        check_config(w, c, model, name, full_words(s(new)).encode("latin-1"))
        if not model.touched:
            if new != old:
                raise Fail("%s changed nothing, but the configuration file was altered" % name)
            continue
        rewritten += 1
        if not os.path.exists(w.p("cfg.bak")) or w.read("cfg.bak") != old:
            raise Fail("%s: the backup is not the old configuration" % name)
        lost = subsequence(kept(s(old), model.touched), [l for l in s(new).split("\n") if l.strip(" \t")])
        if lost is not None:
            raise Fail("%s: line %r, which does not belong to a changed area or node, is lost or moved" % (name, lost))
        bo, bn = blocks_of(s(old)), blocks_of(s(new))
        for k, ls in bo.items():
            if k in model.touched or k not in bn:
                continue
            if [l for l in ls if kw(l) != "other"] != [l for l in bn[k] if kw(l) != "other"]:
                raise Fail("%s: untouched block %s rewritten: %r was %r" % (name, k, bn[k], ls))
        for k in model.touched:
            ks = [cfgparse.words(l)[0].upper() for l in bn.get(k, []) if kw(l) != "other"]
            rep = set(x for x in ks if x not in ("EXPORT", "BANNED", "IMPORT") and ks.count(x) > 1)
            if rep:
                raise Fail("%s: %s repeated in the block of %s" % (name, sorted(rep), k))
        junk = set(os.path.basename(f) for f in os.listdir(w.dir)) & {"cfg.tmp", "cfg.busy"}
        if junk:
            raise Fail("%s left %s behind" % (name, sorted(junk)))
        clear_out(w)
    if not rewritten:
        return None
    return [case.mess, rewritten, [o[0] for o in case.ops], len(model.areas)]


def kw(l):
    k = cfgparse.words(l)[0].upper()
    return "b" if k in cfgparse.AREAKW or k in cfgparse.NODEKW or k in ("AREA", "NETMAIL", "LOCALAREA", "NODE") else "other"


def describe(case):
    return describe_ops(Cfg(case, ops=[o for o in case.ops if o[0] != "echo"])) + repr([o for o in case.ops if o[0] == "echo"]) + " mess=%d" % case.mess
