"""C19: maintenance deletes exactly what KEEPNUM and KEEPDAYS allow, packing loses nothing, and mail is still exported afterwards."""
from pbt.basegen import *

ID = "C19"
BUDGET = {"quick": 1500, "thorough": 40000}
RULE = ("random system with MSG and JAM echomail/netmail/local areas with KEEPNUM/KEEPDAYS, template and pass-through areas x histories of 4-12 operations: editor writes with generated dates (past and future), deletions, "
        "tossed mail, scans, crashmaint MAINT/PACK with patterns, days passing and, in some runs, a failing write; the model predicts every message base after each step and every exported message; "
        "non-trivial = at least one message removed by maintenance or renumbered, and at least one kept")
TZOFF = {"UTC": 0, "XST-5:30": 19800, "YST+8": -28800, "ZST-12": 43200}
DAY = 86400


def gen(d):
    c = gen_base_system(d, {"MSG_HIGHWATER": .5, "JAM_HIGHWATER": .5, "ALLOWKILLSENT": .3, "JAM_LINK": .2}, mbs=("MSG", "JAM", None))
    for a in c.areas:
        if a.kind == "bad":
            continue
        if d.bool(.6):
            a.opts.append("KEEPNUM %d" % d.weighted([(4, d.int(1, 4)), (1, 0), (1, d.int(5, 100))]))
        if d.bool(.5):
            a.opts.append("KEEPDAYS %d" % d.weighted([(4, d.int(1, 10)), (1, 0), (1, 36500)]))
        a.opts = d.shuffle(a.opts)
    i = d.int(0, len(c.areas))
    if d.bool(.4):
        c.areas.insert(i, Cfg(kind="default", tag=d.choice(["DEFAULT", "DEFAULT_A"]), aka=c.akas[0].addr, mb=d.choice(["MSG", "JAM", None]), path="dflt%8", opts=d.subset(["KEEPNUM 1", "KEEPDAYS 1"], .7), base=None, first=None))
    hist = gen_history(d, c, (3, 9), {"write": 6, "scan": 2, "delete": 1, "toss": 2, "maint": 4})
    out = []
    for o in hist:
        if o[0] == "write":
            out.append(("write", o[1], d.weighted([(3, d.int(0, 3)), (3, d.int(3, 14)), (1, -d.int(1, 3)), (1, 400)]), d.choice(["received", "processed", "received+", "none"]), d.int(0, DAY - 1)))
        else:
            out.append(o)
            if o[0] == "scan" and d.bool(.5):
                out.append(("delscanned", d.int(0, 5)))
    pats = [a.tag for a in c.areas] + [a.tag[:2] + "*" for a in c.areas] + ["*", "?" + c.areas[-1].tag[1:], "NOSUCH", swapcase(c.areas[-1].tag), c.areas[-1].tag + "?", c.areas[-1].tag[:-1]]
    for i in range(d.int(1, 3)):
        m = ("maint", d.weighted([(3, ["MAINT"]), (2, ["PACK"]), (3, ["MAINT", "PACK"])]), d.choice(pats) if d.bool(.35) else None, d.bool(.3), d.int(0, 3) * DAY + d.int(0, DAY - 1),
             (d.int(0, 200), d.bool(.5), d.bool(.3)) if d.bool(.35) else None)
        out.insert(d.int(len(out) // 2, len(out)), m)
    for _ in range(d.int(0, 2)):
        boxes = [a for a in c.areas if a.mb and a.kind in ("echo", "net", "local")]
        if boxes:
            out.append(("write", gen_local(d, c, d.choice(boxes), 900 + _, []), d.int(0, 3), "received", 5))
    out.append(("scan", "SCAN", []))
    return Cfg(c=c, hist=out)


class MBases(Bases):
    def stamp(self):
        """files written since the last step get the time of the simulated clock"""
        for a in self.c.areas:
            if a.mb == "MSG" and os.path.isdir(self.w.p("a", a.path)):
                for n in os.listdir(self.w.p("a", a.path)):
                    p = self.w.p("a", a.path, n)
                    t = int(os.stat(p).st_mtime)
                    if t not in self.known:
                        os.utime(p, (self.w.now, self.w.now))
                        self.known.add(self.w.now)

    def keep(self, a):
        k = {"KEEPNUM": 0, "KEEPDAYS": 0}
        for o in a.opts:
            x = o.split()
            if x[0] in k:
                k[x[0]] = int(x[1])
        return k["KEEPNUM"], k["KEEPDAYS"]

    def days(self, a):
        """day of each message, from the files"""
        out = {}
        if a.mb == "MSG":
            for r in self.b[a.tag]:
                if not r.deleted:
                    out[r.num] = int(os.stat(self.w.p("a", a.path, "%d.msg" % r.num)).st_mtime) // DAY
        elif os.path.exists(self.w.p("a", a.path + ".jhr")):
            for n, m in read_jam(self.w.p("a", a.path)).msgs.items():
                out[n] = m.received // DAY or m.processed // DAY or m.written // DAY
        return out

    def maint(self, ops, pat):
        """expected effect of a run: {tag: kept recs}; and numbers of removed and renumbered messages"""
        gone = moved = left = 0
        for a in self.c.areas:
            if not a.mb or a.kind == "default" or not (pat is None or strpat(pat, a.tag)):
                continue
            kn, kd = self.keep(a)
            live = sorted((r for r in self.b[a.tag] if not r.deleted), key=lambda r: r.num)
            day = self.days(a)
            drop = []
            if "MAINT" in ops:
                if kn and len(live) > kn:
                    drop += live[:-kn]
                if kd:
                    today = (self.w.now + (TZOFF[self.c.tz] if a.mb == "JAM" else 0)) // DAY
                    drop += [r for r in live if r not in drop and today - day[r.num] > kd]
            for r in drop:
                r.deleted = True
            gone += len(drop)
            live = [r for r in live if not r.deleted]
            left += len(live)
            if a.mb == "MSG":
                if "PACK" in ops:
                    hw = 0
                    for i, r in enumerate(live):
                        if r.num <= self.hw[a.tag]:
                            hw = i + 2
                        moved += r.num != i + 2
                        r.num = i + 2
                    if self.b[a.tag]:
                        self.first[a.tag] = 2
                else:
                    hw = max([r.num for r in live if r.num <= self.hw[a.tag]] or [0])
                self.hw[a.tag] = hw
                self.top[a.tag] = max([r.num for r in live] or [1])
                self.b[a.tag] = live
            elif "PACK" in ops:
                moved += sum(r.deleted for r in self.b[a.tag])
        return gone, moved, left


def strpat(p, s):
    for i, ch in enumerate(p):
        if ch == "*":
            return True
        if i >= len(s) or ch != "?" and ch.lower() != s[i].lower():
            return False
    return len(p) == len(s)


def survivors(w, bases, who):
    """after a failed run: every message that had to be kept is still there, unharmed"""
    for a in bases.c.areas:
        if not a.mb or a.kind in ("bad", "default") or a.mb == "JAM" and not os.path.exists(w.p("a", a.path + ".jhr")) and not bases.b[a.tag]:
            continue
        if a.mb == "MSG" and os.path.exists(w.p("a", a.path, "1.msg")):
            os.unlink(w.p("a", a.path, "1.msg"))      # the highwater mark
        got = read_msgdir(w.p("a", a.path)) if a.mb == "MSG" and os.path.isdir(w.p("a", a.path)) else {} if a.mb == "MSG" else read_jam(w.p("a", a.path)).live
        by = {tok_of(g.subj if a.mb == "MSG" else JView(g).subj): n for n, g in got.items() if n != 1 or a.mb == "JAM"}
        for r in bases.b[a.tag]:
            if r.deleted:
                continue
            if r.tok not in by:
                raise Fail("%s: message #%d of %s is lost" % (who, r.tok, a.tag))
            if a.mb == "JAM" and by[r.tok] != r.num:
                raise Fail("%s: message #%d of %s has become number %d, was %d" % (who, r.tok, a.tag, by[r.tok], r.num))
            if r.local:
                bases.verify_one(a, got[by[r.tok]], r)


def check(case, env):
    c = case.c
    w = World(env)
    w.shimenv["TZ"] = c.tz
    w.write("cfg", cfgtext(w, c))
    bases = MBases(w, c)
    bases.known = set()
    model = EchoModel(c)
    for a in c.areas:
        if a.mb == "MSG" and a.kind not in ("default",):
            os.mkdir(w.p("a", a.path))
            for x in ("2.msx", "3.msg.bak", "notes"):
                w.write("a/%s/%s" % (a.path, x), "x")
                os.utime(w.p("a", a.path, x), (1000, 1000))
    bases.known.add(1000)
    total = [0, 0, 0, 0]
    for i, o in enumerate(case.hist):
        w.now += 2
        if o[0] == "write":
            r = bases.write(o[1])
            a = bases.area[o[1].area]
            t = (w.now // DAY - o[2]) * DAY + o[4]
            if a.mb == "MSG":
                os.utime(w.p("a", a.path, "%d.msg" % r.num), (t, t))
                bases.known.add(t)
            elif o[3] != "none":
                off = read_jam(w.p("a", a.path)).msgs[r.num].off
                with open(w.p("a", a.path + ".jhr"), "r+b") as f:
                    f.seek(off + 40)
                    f.write(struct.pack("<II", t if o[3] != "processed" else 0, t if o[3] == "processed" else 1000000000 if o[3] == "received+" else 0))
        elif o[0] == "delete":
            bases.delete(*o[1:])
        elif o[0] == "delscanned":
            # the user deletes the last message that was exported
            hit = [(t, r) for t in bases.b for r in bases.b[t] if bases.area[t].mb == "MSG" and not r.deleted and r.num == bases.hw[t] and r.num != bases.top[t]]
            if hit:
                t, r = hit[o[1] % len(hit)]
                r.deleted = True
                os.unlink(w.p("a", bases.area[t].path, "%d.msg" % r.num))
        elif o[0] == "toss":
            for a, tok, e in play_toss(w, c, model, o[1], i):
                bases.imported(bases.area[a.tag], e)
            flush_outbound(w)
        elif o[0] == "scan":
            exp = bases.scan(o[1], scan_args(w, o[1], o[2]))
            total[3] += check_exports(w, bases, exp)
        else:
            _, ops, pat, verbose, dt, fault = o
            w.now += dt
            args = list(ops) + (["VERBOSE"] if verbose else []) + ["SETTINGS", w.p("cfg")] + (["PATTERN", pat] if pat is not None else [])
            if fault:
                shutil.copytree(w.p("a"), w.p("a.sav"))
                w.run("crashmaint", *args, extra_env={"SHIM_TRACE": w.p("trace"), "SHIM_BUF": "1" if fault[2] else "0"})
                tr = [l.split() for l in open(w.p("trace"), encoding="latin-1")] if os.path.exists(w.p("trace")) else []
                wr = [int(x[0]) for x in tr if x[1] in ("fwrite", "fclose", "fflush")]
                if tr:
                    os.unlink(w.p("trace"))
                restore(w)
                if wr:
                    w.run("crashmaint", *args, ok=(0, 10), extra_env={"SHIM_FAIL": str(wr[fault[0] % len(wr)]), "SHIM_STICKY": "1" if fault[1] else "0", "SHIM_BUF": "1" if fault[2] else "0"})
                    after = w.last.stdout
                    os.rename(w.p("a"), w.p("a.bad"))
                    shutil.copytree(w.p("a.sav"), w.p("a"))
                    b2 = {k: [Rec(r) for r in v] for k, v in bases.b.items()}, dict(bases.top), dict(bases.hw), dict(bases.first)
                    bases.maint(ops, pat)
                    os.rename(w.p("a"), w.p("a.pre"))
                    os.rename(w.p("a.bad"), w.p("a"))
                    survivors(w, bases, "after a write failed in crashmaint %s" % " ".join(ops))
                    bases.b, bases.top, bases.hw, bases.first = b2
                    shutil.rmtree(w.p("a"))
                    os.rename(w.p("a.pre"), w.p("a"))
                    env.count("faults")
                shutil.rmtree(w.p("a.sav"))
            g, m, l = bases.maint(ops, pat)
            total[0] += g
            total[1] += m
            total[2] += l
            w.run("crashmaint", *args)
            env.count("maint")
            for a in c.areas:
                if a.mb == "MSG" and a.kind != "default":
                    for x in ("2.msx", "3.msg.bak", "notes"):
                        if not os.path.exists(w.p("a", a.path, x)):
                            raise Fail("crashmaint removed %s/%s" % (a.path, x))
                elif a.mb == "JAM" and a.kind != "default" and os.path.exists(w.p("a", a.path + ".jhr")):
                    jb = read_jam(w.p("a", a.path))
                    if jb.active != len(jb.live):
                        raise Fail("JAM base %s says it has %d messages, it has %d" % (a.tag, jb.active, len(jb.live)))
                    if "PACK" in ops and (pat is None or strpat(pat, a.tag)) and len(jb.live) != len(jb.msgs):
                        raise Fail("JAM base %s still holds deleted messages after PACK" % a.tag)
                    if jb.base + jb.slots - 1 != bases.top[a.tag]:
                        raise Fail("JAM base %s now ends with message %d, expected %d" % (a.tag, jb.base + jb.slots - 1, bases.top[a.tag]))
            left = [x for x in os.listdir(w.p("a")) if ".cmtemp" in x]
            if left:
                raise Fail("crashmaint left %r" % left)
        bases.stamp()
        bases.verify(content=o[0] == "maint", only_local=True)
    if not (total[0] or total[1]) or not total[2]:
        return None
    return [total, [(a.tag, a.mb, a.opts) for a in c.areas], [o[1:5] for o in case.hist if o[0] == "maint"]]


def restore(w):
    shutil.rmtree(w.p("a"))
    shutil.copytree(w.p("a.sav"), w.p("a"))


describe = describe_hist
