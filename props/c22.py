"""C22: crashlistout shows exactly what is waiting in the outbound, crashexport exactly the areas configured."""
import random, struct, time as _time
from pbt.core import Fail
from pbt.afgen import *
from pbt.netgen import pat_match
from . import c16

ID = "C22"
BUDGET = {"quick": 4000, "thorough": 80000}
RULE = ("either a random outbound directory (flow files of every flavour with truncate/delete marks, missing and pathless entries, packets, requests, point directories, unrelated files) listed with random zone, pattern and VERBOSE, "
        "or a random configuration rendered untidily and exported in every format and group selection, with an optional failing write; non-trivial = at least two entries in the outbound, or two areas exported")
TZ = {"UTC": 0, "XST-5:30": 19800, "YST+8": -28800}
MON = "Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec".split()
FL = {"c": "Crash", "d": "Direct", "f": "Normal", "h": "Hold", "o": "Normal"}


def gen(d):
    return gen_out(d) if d.bool(.5) else gen_exp(d)


# ---------------------------------------------------------------- crashlistout
def gen_out(d):
    c = Cfg(what="out", zone=d.choice([None, 1, 2, 39, 4095]), tz=d.choice(sorted(TZ)), verbose=d.bool(.5), envdir=d.bool(.2), envzone=d.choice([None, None, 3, 65535]), entries=[], junk=[])
    files = ["f%d" % i for i in range(4)] + ["\xe5\xe4\xf6", "0000ffff.mo0", "n" * 35, "a b"]
    c.files = [(f, d.choice([0, 1, 100, 9999, 10000, 10001, 20480, 1048576, 10485760]) if d.bool(.9) else None) for f in files]
    nodes = [(d.choice([1, 10, 100, 101, 65535, 0xabc]), d.choice([0, 1, 2, 10, 100, 999, 65535]), d.weighted([(3, 0), (2, d.choice([1, 2, 10, 300]))])) for _ in range(d.int(1, 5))]
    for _ in range(d.weighted([(1, 0), (9, d.int(1, 8))])):
        a = d.choice(nodes)
        k = d.weighted([(5, "lo"), (3, "ut"), (2, "req")])
        f = d.choice("cdhf" if k == "lo" else "cdho") if k != "req" else ""
        e = Cfg(addr=a, ext="req" if k == "req" else f + k, up=d.bool(.15), date=NOW - d.int(0, 10 ** 8), lines=[], size=d.choice([0, 60, 10000, 10001, 12345678]))
        if k == "lo":
            for _ in range(d.int(0, 5)):
                e.lines.append((d.choice(["", "#", "^", "-"]), d.choice(files), d.choice(["abs", "abs", "bare"]), d.choice(["\n", "\n", "\r\n", "  \n", "\n\n"])))
        elif k == "req":
            e.lines = [d.text("abcdef. !", 1, 20).strip() or "x" for _ in range(d.int(0, 4))]
        c.entries.append(e)
    c.junk = d.subset(["readme.txt", "00010001.pk", "00010001.bsy", "00010001.csy", "x0010001.flo1", "1.flo", "000100010.flo", "00010001.mo0", ".hidden"], .2)
    z = d.weighted([(3, None), (2, "*"), (1, "bad"), (6, "p")])
    if z == "p":
        num = lambda x: d.choice([str(x), str(x), "*", "?" * len(str(x)), str(x)[:-1] + "?", str(x)[:1] + "*", str(x) + "?", "1", "100"])
        n = d.choice(nodes)
        zz = c.zone or c.envzone or 2
        form = d.choice(["zn/f", "zn/f.p", "n/f", "n/f.p", "zn", "f", "f.p"])
        c.pat = {"zn/f": "%s:%s/%s" % (num(zz), num(n[0]), num(n[1])), "zn/f.p": "%s:%s/%s.%s" % (num(zz), num(n[0]), num(n[1]), num(n[2])), "n/f": "%s/%s" % (num(n[0]), num(n[1])),
                 "n/f.p": "%s/%s.%s" % (num(n[0]), num(n[1]), num(n[2])), "zn": "%s:%s" % (num(zz), num(n[0])), "f": num(n[1]), "f.p": "%s.%s" % (num(n[1]), num(n[2]))}[form]
    else:
        c.pat = z if z != "bad" else d.choice(["x", "1:2/3:4", "1/2/3", "1:2/3.4.5", "1:2/3a", "abc"])
    c.bad = z == "bad"
    return c


def unit(n):
    return "%dM" % (n >> 20) if n > 10000000 else "%dK" % (n >> 10) if n > 10000 else "%d" % n


def check_out(c, env):
    w = World(env)
    L = lambda s: s.encode("latin-1")
    fs = lambda s: os.fsdecode(L(s))
    size = {}
    for f, n in c.files:
        if n is None:
            continue
        with open(w.p("a", fs(f)), "wb") as fh:
            fh.truncate(n)
        size[f] = n
    want = {}
    for e in c.entries:
        net, node, pt = e.addr
        name = "%04x%04x.%s" % (net, node, e.ext)
        d = ""
        if pt:
            d = "%04x%04x.pnt" % (net, node)
            name = "%08x.%s" % (pt, e.ext)
        if e.up:
            name = name.upper()
        rel = d + "/" + name if d else name
        if rel.lower() in [x.lower() for x in want]:
            continue
        data = b""
        if e.ext[-2:] == "lo":
            for mark, f, how, nl in e.lines:
                data += L(mark + (w.p("a") + "/" + f if how == "abs" else f) + nl)
        elif e.ext == "req":
            data = L("".join(l + "\r\n" for l in e.lines))
        else:
            data = None
        os.makedirs(w.p("ob", d), exist_ok=True)
        w.write("ob/" + rel, data if data is not None else b"")
        if data is None:
            os.truncate(w.p("ob", rel), e.size)
        os.utime(w.p("ob", rel), (e.date, e.date))
        want[rel] = e
    os.makedirs(w.p("ob"), exist_ok=True)
    for j in c.junk:
        w.write("ob/" + j, "x")
    # names without a path are looked for beside the flow file
    for d in [""] + [r.split("/")[0] for r in want if "/" in r]:
        for f, n in c.files:
            if n is not None and len(f) % 2:
                with open(os.path.join(w.p("ob", d), fs(f)), "wb") as fh:
                    fh.truncate(n)
    args, ev = [], {"TZ": c.tz}
    if c.envdir:
        ev["CMOUTBOUND"] = w.p("ob")
    else:
        args += ["DIRECTORY", w.p("ob")] if c.verbose else [w.p("ob")]
    if c.envzone:
        ev["CMOUTBOUNDZONE"] = str(c.envzone)
    if c.zone:
        args += ["ZONE", c.zone]
    if c.pat is not None:
        args += ["PATTERN", c.pat]
    if c.verbose:
        args.append("verbose")
    r = w.run("crashlistout", *args, ok=(10,) if c.bad else (0,), extra_env=ev)
    if c.bad:
        return None
    zone = c.zone or c.envzone or 2
    out = r.stdout.decode("latin-1").split("\n")
    exp = {}
    tf = tb = tr = 0
    addr = lambda e: Addr(zone, *e.addr)
    for rel, e in want.items():
        if c.pat is not None and not pat_match(c.pat, addr(e), None):
            continue
        g = _time.gmtime(e.date + TZ[c.tz])
        sub = []
        if e.ext == "req":
            num = "-/%d" % len(e.lines)
            tr += len(e.lines)
            kind = "Request"
            sub = [" " + l for l in e.lines]
        else:
            kind = FL[e.ext[0]]
            if e.ext[-2:] == "ut":
                num = unit(e.size) + "/1"
            else:
                n = b = 0
                for mark, f, how, nl in e.lines:
                    name = w.p("a") + "/" + f if how == "abs" else f
                    there = f in size and (how == "abs" or len(f) % 2)
                    if there:
                        n += 1
                        b += size[f]
                    sub.append((" %-39.39s %10s   %s" % (name, unit(size[f]) if there else "Not found", {"": "", "#": "(To be truncated)"}.get(mark, "(To be deleted)"))).rstrip())
                num = "%s/%d" % (unit(b), n)
                tf += n
                tb += b
        exp[rel] = ("%-8s %-17.17s %02d-%s-%02d %02d:%02d  %7.7s   %s" % (kind, addr(e), g.tm_mday, MON[g.tm_mon - 1], g.tm_year % 100, g.tm_hour, g.tm_min, num, rel), sub)
    heads = {h: rel for rel, (h, _) in exp.items()}
    norm = lambda s: re.sub(" +", " ", s).strip()
    heads = {norm(h): rel for h, rel in heads.items()}
    h = next((i for i, l in enumerate(out) if l.startswith("Type ")), None)
    if h is None:
        raise Fail("no table: %r" % out)
    seq, i = [], h + 1
    while i < len(out):
        l = out[i]
        if re.match(r"(Crash|Direct|Normal|Hold|Request) ", l):
            if norm(l) not in heads:
                raise Fail("crashlistout %s prints %r; expected entries %r" % (args, l, sorted(heads)))
            rel = heads.pop(norm(l))
            seq.append(addr(want[rel]))
            got = []
            i += 1
            while i < len(out) and not re.match(r"(Crash|Direct|Normal|Hold|Request|Totally) ", out[i]):
                if out[i].strip():
                    got.append(out[i].rstrip())
                i += 1
            ws = exp[rel][1] if c.verbose else []
            if [norm(x) for x in got] != [norm(x) for x in ws]:
                raise Fail("crashlistout %s contents of %s: %r, expected %r" % (args, rel, got, ws))
            continue
        i += 1
    if heads:
        raise Fail("crashlistout %s does not show %r: %r" % (args, sorted(heads), out))
    if seq != sorted(seq):
        raise Fail("crashlistout entries are not in address order: %r" % out)
    tail = [l for l in out if l.startswith("Totally ")]
    if not exp:
        if tail or not any("empty" in l for l in out):
            raise Fail("crashlistout for an empty outbound prints %r" % out)
    elif not any(want[r].ext[-2:] == "ut" for r in exp):
        if tail != ["Totally %s bytes in %d files to send, %d requests." % (unit(tb), tf, tr)]:
            raise Fail("crashlistout totals %r, expected %d bytes in %d files, %d requests" % (tail, tb, tf, tr))
    env.count("listings")
    return ["out", args[1:], sorted((r, str(e)) for r, e in want.items())] if len(exp) > 1 else None


# ---------------------------------------------------------------- crashexport
def gen_exp(d):
    c = gen_af_system(d)
    for a in c.areas:
        if d.bool(.4):
            a.desc = d.text("abc \"'\\%s\xe5;-", 0, d.choice([10, 78]))
        if d.bool(.1) and a.kind == "echo":
            a.kind, a.exports = "local", []
        if d.bool(.1) and "UNCONFIRMED" not in a.opts and a.kind == "echo":
            a.opts = list(a.opts) + ["UNCONFIRMED"]
    return Cfg(what="exp", c=c, mess=d.int(0, 1 << 30), eof=d.bool(.3), sysop=d.choice(["Sys Op", "A", "x y z"]), format=d.choice(["areasbbs", "forward", "forwardnodesc", "golded", "timed"]),
               group=d.choice([None, None, "A", "b", "AB", "QZ"]), fault=d.weighted([(5, None), (1, d.int(0, 20))]), up=d.bool(.3))


def check_exp(case, env):
    w = World(env)
    c = case.c
    w.write("cfg", c16.messy(w, Cfg(c, sysop=case.sysop), random.Random(case.mess), case.eof))
    fmt = case.format.upper() if case.up else case.format
    args = [w.p("cfg"), w.p("out.txt"), fmt] + (["GROUP", case.group] if case.group else [])
    if case.fault is not None:
        w.run("crashexport", *args, extra_env={"SHIM_COUNT": w.p("cnt"), "SHIM_BUF": "1"})
        n = int(w.read("cnt"))
        r = w.run("crashexport", *args, ok=None, extra_env={"SHIM_FAIL": str(1 + case.fault % n), "SHIM_BUF": "1"})
        if r.returncode == 0:
            raise Fail("crashexport could not write its file and reports success")
        env.count("faults")
    w.run("crashexport", *args)
    out = w.read("out.txt").decode("latin-1").split("\n")
    got = [l.rstrip() for l in out if l.strip() and not l.startswith(";")]
    want = []
    if case.format == "areasbbs":
        want.append("Default origin ! " + case.sysop)
    for a in c.areas:
        if "UNCONFIRMED" in a.opts or a.kind == "default" or case.group and (not a.get("group") or a.group.upper() not in case.group.upper()):
            continue
        mb, path = a.mb or "", (a.path if a.path.startswith("/") else w.p("a", a.path)) if a.mb else ""
        desc, e = a.get("desc") or "", a.get("desc", "").replace('"', "'")
        t = a.tag
        if case.format == "areasbbs" and a.kind in ("echo", "bad"):
            want.append(" ".join([{"MSG": "", "JAM": "!", "": "#"}[mb] + (path or t), t] + [str(n) for _, n in a.get("exports", [])]))
        elif case.format == "forward" and a.kind == "echo":
            want.append(t + (" " + desc if desc else ""))
        elif case.format == "forwardnodesc" and a.kind == "echo":
            want.append(t)
        elif case.format == "golded" and mb:
            want.append('AREADEF %s "%s" %s %s %s %s %s %s' % (t, e, a.get("group") or "0", {"net": "NET", "local": "LOCAL"}.get(a.kind, "ECHO"), {"MSG": "FTS1", "JAM": "JAM"}[mb], path,
                                                            a.aka, "(Loc Pvt)" if a.kind == "net" else "(Loc)"))
        elif case.format == "timed" and mb:
            want.append('%s "%s" %s %s -P%s%s' % ({"net": "NetArea", "local": "LocalArea"}.get(a.kind, "EchoArea"), e, t, path, a.aka, " -J" if mb == "JAM" else ""))
    if got != [x.rstrip() for x in want]:
        raise Fail("crashexport %s group %r wrote %r, expected %r" % (case.format, case.group, got, want))
    env.count("exports")
    return ["exp", case.format, case.group, want] if len(want) > 1 else None


def check(case, env):
    return check_out(case, env) if case.what == "out" else check_exp(case, env)


def describe(case):
    if case.what == "out":
        return dict(case, entries=[str(e) for e in case.entries])
    return {"format": case.format, "group": case.group, "areas": [str(a) for a in case.c.areas]}
