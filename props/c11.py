"""C11: no failure or crash loses mail or damages what is there; running again completes the work."""
import collections
import os
import re
from pbt.fido import *
from pbt.tossgen import *
from pbt.core import Fail

ID = "C11"
BUDGET = {"quick": 1000, "thorough": 20000}
LEVEL = "fault_enumeration"
RULE = ("random small system with previous mail x one toss or scan run hit by a fault at a random write/rename/delete/mkdir/close of that run (single failure, full disk from then on, partial write, "
        "crash, SIGINT; with and without stdio buffering; or a packer that fails or is killed), then a clean run; 1 to 8 fault points per case; "
        "non-trivial = the fault was reached, distinct by (mode, call, system)")
L1 = lambda s: s.encode("latin-1")
MODES = ["fail", "fail", "sticky", "part", "kill", "kill", "int", "bfail", "bsticky", "bkill"]


def gen(d):
    c = gen_system(d, maxnodes=3, nodeflags={"AUTOADD": .3, "PACKNETMAIL": .15})
    main = c.akas[0].addr
    add_std_areas(d, c, bad=d.choice(["MSG", "JAM"]), net=d.choice(["MSG", "JAM"]))
    for n in c.nodes:
        n.pw = ""
    k = d.int(1, 3)
    for i in range(k):
        c.areas.append(Cfg(kind="echo", tag="AREA%d" % i, aka=d.choice(c.akas).addr, mb=d.choice(["MSG", "JAM", None]), path="area%d" % i, opts=[],
                           exports=[("", n.addr) for n in c.nodes if n is c.nodes[0] or d.bool(.8)]))
    if d.bool(.4):
        c.areas.append(Cfg(kind="default", tag="DEFAULT", aka=main, mb=d.choice(["MSG", "JAM"]), path="auto-%l", opts=[], exports=[("", n.addr) for n in c.nodes[1:]]))
    for s, p in {"JAM_LINK": .3, "JAM_HIGHWATER": .3, "MSG_HIGHWATER": .3, "MSG_WRITEBACK": .3, "ALLOWKILLSENT": .3, "FLOWCRLF": .1, "IMPORTSEENBY": .2}.items():
        if d.bool(p):
            c.switches.append(s)
    c.maxpkt = d.choice([None, None, 1])
    c.maxbundle = d.choice([1, 100])
    c.extra.append("FILEATTACH *:*/*.*")
    if d.bool(.5):
        c.dupemode = d.choice(["BAD", "KILL"])
    what = d.weighted([(2, "toss"), (1, "scan")])
    tok = [0]

    def messages(lo, hi):
        r = []
        for _ in range(d.int(lo, hi)):
            tok[0] += 1
            kind = d.weighted([(5, "echo"), (2, "transit"), (2, "local"), (1, "att"), (1, "new" if c.areas[-1].kind == "default" else "echo")])
            r.append((kind, tok[0], d.choice([3, 40, 300, 2500]), d.int(0, 99)))
        return r
    case = Cfg(c=c, what=what, before=messages(0, 3) if d.bool(.6) else [], now=messages(1, 4), bundle=d.bool(.2), prescan=d.bool(.3), second=d.bool(.3))
    case.defer = d.weighted([(3, None), (1, "pk"), (1, "bsy")])
    case.faults = d.listof(1, 8, lambda: ("pk", d.choice([1, 2])) if d.bool(.04) else (d.choice(MODES), d.int(0, 9999)))
    return case


def text_of(tok, size):
    return b"".join(b"line %d of message %d\r" % (i, tok) for i in range(size // 20 + 1))


def raw(c, m, w):
    kind, tok, size, r = m
    snd = c.nodes[0].addr
    body = text_of(tok, size)
    subj = L1("T%d" % tok)
    if kind in ("echo", "new"):
        tags = [a.tag for a in c.areas if a.kind == "echo"]
        tag = tags[r % len(tags)] if kind == "echo" else "NEW.%d" % (r % 2)
        return pkt_msg(snd.net, snd.node, 1, 1, 0, 0, b"14 Oct 23  10:00:00", b"All", b"Me", subj, L1("AREA:%s\r\x01MSGID: %s %08x\r" % (tag, snd, tok)) + body
                       + b"--- x\r * Origin: y (%s)\rSEEN-BY: %d/%d\r\x01PATH: %d/%d\r" % (L1(str(snd)), snd.net, snd.node, snd.net, snd.node))
    if kind == "local":
        to = c.akas[r % len(c.akas)].addr
    else:
        to = c.nodes[r % len(c.nodes)].addr
    if kind == "att":
        subj = b"att%d.zip" % tok
        w.drop("att%d.zip" % tok, b"FILE %d" % tok)
    text = b"\x01INTL %s %s\r" % (L1("%d:%d/%d" % to[:3]), L1("%d:%d/%d" % snd[:3]))
    if to.point:
        text += b"\x01TOPT %d\r" % to.point
    if snd.point:
        text += b"\x01FMPT %d\r" % snd.point
    return pkt_msg(snd.net, snd.node, to.net, to.node, 0x10 if kind == "att" else 0, 0, b"14 Oct 23  10:00:00", b"You", b"Me", subj, text + body)


def put_local(w, c, m):
    """a message written here"""
    kind, tok, size, r = m
    body = text_of(tok, size) + b"--- x\r * Origin: y (%s)\r" % L1(str(c.akas[0].addr))
    echo = [a for a in c.areas if a.kind == "echo" and a.mb]
    net = [a for a in c.areas if a.kind == "net"]
    kill = r % 5 == 0
    if kind in ("echo", "new") and echo:
        a = echo[r % len(echo)]
        to = Addr(0, 0, 0, 0)
    elif kind in ("transit", "local", "att", "new", "echo"):
        a = net[0]
        to = c.nodes[r % len(c.nodes)].addr
        if a.mb == "MSG":
            body = b"\x01INTL %s %s\r" % (L1("%d:%d/%d" % to[:3]), L1("%d:%d/%d" % c.akas[0].addr[:3])) + (b"\x01TOPT %d\r" % to.point if to.point else b"") + body
    p = area_path(w, a)
    orig = c.akas[0].addr
    if a.mb == "MSG":
        os.makedirs(p, exist_ok=True)
        n = max([int(x[:-4]) for x in os.listdir(p) if x.endswith(".msg")] + [1]) + 1
        open(os.path.join(p, "%d.msg" % n), "wb").write(make_msg(b"Me", b"You", L1("T%d" % tok), b"14 Oct 23  10:00:00", 0x100 | (0x80 if kill else 0), body, orig, to))
    else:
        if not os.path.exists(p + ".jhr"):
            jam_create(p)
        sub = [("SENDERNAME", b"Me"), ("RECEIVERNAME", b"You"), ("SUBJECT", L1("T%d" % tok))]
        if a.kind == "net":
            sub = [("OADDRESS", L1(str(orig))), ("DADDRESS", L1(str(to)))] + sub
        jam_append(p, sub, J_LOCAL | (J_KILLSENT if kill else 0) | (J_TYPENET if a.kind == "net" else J_TYPEECHO), body)


def setup(case, env):
    c = case.c
    w = World(env)
    w.write("cfg", cfgtext(w, c))
    if case.before:
        w.drop("00000001.pkt", make_pkt(pkt_header(c.nodes[0].addr, c.akas[0].addr, b"", "2+"), [raw(c, m, w) for m in case.before]))
        if case.defer == "pk":
            for x in ("cp", "pd"):
                w.write(x + "/pkfail", "1")
        if case.defer == "bsy":
            bsy(w, c)
        w.toss()
        clean_bsy(w)
        if case.defer == "pk":
            for x in ("cp", "pd"):
                os.remove(w.p(x, "pkfail"))
        if case.prescan:
            w.crashmail("SCAN")
    if case.what == "toss":
        ms = [raw(c, m, w) for m in case.now]
        split = [ms] if len(ms) < 2 or not case.second else [ms[:1], ms[1:]]
        for i, x in enumerate(split):
            data = make_pkt(pkt_header(c.nodes[0].addr, c.akas[0].addr, b"", "2+"), x)
            if case.bundle:
                w.write("tmp/aa.pkt", data)
                import subprocess
                subprocess.run([env.pk, "a", w.p("tmp/x"), w.p("tmp/aa.pkt")], check=True)
                arc = w.read("tmp/x")
                os.remove(w.p("tmp/x"))
                os.remove(w.p("tmp/aa.pkt"))
                w.drop("0000000%d.mo0" % (i + 1), arc)
            else:
                w.drop("0000001%d.pkt" % i, data)
    else:
        for m in case.now:
            put_local(w, c, m)
    w.now += 60
    return w


def bsy(w, c):
    for n in c.nodes:
        a = n.addr
        d = "out" if a.zone == c.akas[0].addr.zone else "out.%03x" % a.zone
        if a.point:
            d += "/%04x%04x.pnt" % (a.net, a.node)
        os.makedirs(w.p(d), exist_ok=True)
        w.write(d + ("/%08x.bsy" % a.point if a.point else "/%04x%04x.bsy" % (a.net, a.node)), "")


def clean_bsy(w):
    for dp, ds, fs in os.walk(w.dir):
        for f in fs:
            if f.endswith(".bsy"):
                os.remove(os.path.join(dp, f))


def norm(t):
    return re.sub(rb"@\d{8}\.\d{6}", b"@T", t)


def areas(w, strict=False):
    inv = collections.Counter()
    for n in sorted(os.listdir(w.p("a"))):
        p = w.p("a", n)
        if os.path.isdir(p):
            for f in os.listdir(p):
                if not re.fullmatch(r"\d+\.msg", f):
                    if strict:
                        raise Fail("unexpected file %s/%s" % (n, f))
                    continue
                if f == "1.msg":
                    continue
                data = open(os.path.join(p, f), "rb").read()
                try:
                    m = parse_msg(data)
                except Exception as e:
                    raise Fail("message %s/%s is damaged: %s" % (n, f, e))
                inv[("area", n, m.frm, m.to, m.subj, m.attr, norm(m.text))] += 1
        elif n.endswith(".jhr"):
            jb = read_jam(p[:-4], strict=strict)
            if strict:
                jam_check(jb, n)
            for m in jb.live.values():
                inv[("area", n[:-4], m.one("SENDERNAME"), m.one("RECEIVERNAME"), m.one("SUBJECT"), m.attr, norm(m.text), tuple((k, norm(v)) for k, v in m.sub))] += 1
    return inv


def inventory(w, c, strict):
    inv = collections.Counter()
    src = {}
    for dest, fl, how, h, m in w.queued_messages(c.akas[0].addr.zone):
        if h["dest"] != dest:
            raise Fail("packet for %s is queued for %s" % (h["dest"], dest))
        inv[("out", str(dest), fl, "net" if how == "netmail" else "packed", m.frm, m.to, m.subj, m.attr, norm(m.text))] += 1
    for q_, data in w.attaches:
        if data is None:
            raise Fail("flow file lists %s which does not exist" % os.path.basename(q_.path))
        inv[("att", str(q_.dest), q_.flavour, os.path.basename(q_.path), data)] += 1
    for l in w.leftovers:
        if l.endswith(".tmp") and not strict:
            continue
        raise Fail("unexpected file %s in the outbound" % l)
    inv.update(areas(w, strict))
    for n in os.listdir(w.p("in")):
        if not n.startswith("att"):
            raise Fail("%s is left in the inbound" % n)
    for d_ in ("cp", "pd"):
        for n in os.listdir(w.p(d_)):
            if n.endswith((".newpkt", ".pkttmp", ".orphan")):
                raise Fail("%s is still waiting in %s" % (n, d_))
    return inv


def isdupe(it):
    return it[0] == "area" and it[1] == "bad" and b"ERROR:Duplicate message\r" in b"".join(x if isinstance(x, bytes) else b"".join(v for _, v in x) if isinstance(x, tuple) else b"" for x in it[2:])


def cmd(w, case):
    return w.crashmail(*(["TOSS"] if case.what == "toss" else ["SCAN"]), ok=None)


def check(case, env):
    c = case.c
    # the reference: what an undisturbed run makes of it
    ref_w = setup(case, env)
    ref_w.shimenv["SHIM_COUNT"] = ref_w.p("count")
    ref_w.shimenv["SHIM_TRACE"] = ref_w.p("trace")
    cmd(ref_w, case)
    ref_w.shimenv = {}
    ops = [l.split() for l in open(ref_w.p("trace"))]
    ref_w.now += 60
    cmd(ref_w, case)
    ref = inventory(ref_w, c, True)
    refcfg = cfgkey(ref_w)
    bw = setup(case, env)
    bw.shimenv.update(SHIM_BUF="1", SHIM_COUNT=bw.p("count"))
    cmd(bw, case)
    nbuf = int(open(bw.p("count")).read())
    # a message that was sent may be left as it was (not marked as sent)
    pre = areas(setup(case, env)) if case.what == "scan" else {}
    keys = []
    for mode, at in case.faults:
        w = setup(case, env)
        n = 0
        if mode == "pk":
            for x in ("cp", "pd"):
                w.write(x + ("/pkfail" if at == 1 else "/pksig"), "1")
            cmd(w, case)
            for x in ("cp", "pd"):
                os.remove(w.p(x, "pkfail" if at == 1 else "pksig"))
        else:
            total = nbuf if mode[0] == "b" else len(ops)
            if not total:
                continue
            n = 1 + at % total
            e = {"fail": {"SHIM_FAIL": n}, "sticky": {"SHIM_FAIL": n, "SHIM_STICKY": 1}, "part": {"SHIM_FAIL": n, "SHIM_STICKY": 1, "SHIM_PART": 1}, "kill": {"SHIM_KILL": n}, "int": {"SHIM_INT": n},
                 "bfail": {"SHIM_FAIL": n, "SHIM_BUF": 1}, "bsticky": {"SHIM_FAIL": n, "SHIM_STICKY": 1, "SHIM_BUF": 1}, "bkill": {"SHIM_KILL": n, "SHIM_BUF": 1}}[mode]
            w.shimenv = {k: str(v) for k, v in e.items()}
            if os.environ.get("VERIF_KEEP"):
                w.shimenv["SHIM_TRACE"] = w.p("trace")
            cmd(w, case)
            w.shimenv = {}
        # the operator was told, or the run did not end by itself
        told = mode in ("kill", "bkill", "int") or bool(re.search(rb"[Ee]rror|[Ff]ailed|[Uu]nable", w.last.stdout))
        try:
            recover(w, case, told, ref, refcfg, pre)
        except Fail as e:
            what = " ".join(ops[n - 1][1:]) if n and mode[0] != "b" and n <= len(ops) else ""
            raise Fail("%s run, fault %s at call %d of %d (%s): %s" % (case.what, mode, n, nbuf if mode[0] == "b" else len(ops), what.replace(ref_w.dir, ""), e))
        env.count("faults")
        if w.known:
            env.count("known_scan_finding")
        keys.append([mode, n])
    return [keys, [str(x.addr) for x in c.nodes], c.switches, case.now]


def cfgkey(w):
    t = w.read("cfg").decode("latin-1").replace(w.dir, "")
    return [l for l in t.split("\n") if not l.startswith(";")]


def marked(inv, subj):
    """the original of an exported message is marked as sent, or gone (kill/sent)"""
    at = [x for x in inv if x[0] == "area" and x[4] == subj]
    return not at or all(x[5] & SENT[type(x[-1]) is tuple] for x in at)


SENT = {False: 0x8, True: 0x10}


def recover(w, case, told, ref, refcfg, pre):
    c = case.c
    w.known = False
    clean_bsy(w)
    w.crashmail("UNLOCK", ok=None)
    w.now += 60
    cmd(w, case)
    if w.last.returncode != 0:
        raise Fail("the next run does not start: %s" % w.last.stdout[-300:].decode("latin-1"))
    inv = inventory(w, c, False)
    if cfgkey(w) != refcfg:
        raise Fail("configuration file differs: %r" % [l for l in cfgkey(w) if l not in refcfg][:5])
    for it, k in ref.items():
        if inv[it] < 1:
            if case.what == "scan" and told and it[0] == "out" and marked(inv, it[6]):
                w.known = True  # see known_findings.txt
                continue
            if any(x in pre for x in inv if x[0] == "area" and it[0] == "area" and x[1] == it[1] and x[4] == it[4]):
                continue
            near = [x for x in inv if x[0] == it[0] and x[1] == it[1]]
            raise Fail("lost: %r (there: %r)" % (it, [x[:7] for x in near][:6]))
    for it in inv:
        if it not in ref and not isdupe(it) and it not in pre:
            raise Fail("should not exist: %r" % (it,))


def describe(case):
    c = case.c
    return {"akas": [str(a.addr) for a in c.akas], "nodes": ["%s %s %s %s" % (n.addr, n.packer, n.flags, n.pri) for n in c.nodes], "switches": c.switches, "dupemode": c.dupemode,
            "areas": ["%s %s %s" % (a.tag, a.mb, [str(x) for _, x in a.get("exports", [])]) for a in c.areas], "what": case.what, "before": case.before, "now": case.now,
            "bundle": case.bundle, "faults": case.faults}
