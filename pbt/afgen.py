"""AreaFix: generator of systems, requests and operator commands, and an
independent model of what must be answered, sent and written to the configuration."""
import random
from .tossgen import *
from . import cfgparse

SW = {"ALLOWRESCAN": .6, "AREAFIXREMOVE": .5, "REMOVEWHENFEED": .5, "FORWARDPASSTHRU": .3, "INCLUDEFORWARD": .5, "IMPORTAREAFIX": .25, "ADDTID": .2}
PWS = ["pw", "Secret", "two words", 'q"t', "b\\s", "", "x"]
AKEEP = ("MANDATORY", "DEFREADONLY", "IGNOREDUPES", "IGNORESEENBY", "KEEPNUM", "KEEPDAYS")


def groupstr(d):
    return "".join(d.subset("ABC", .55))


def gen_desc(d):
    return d.choice(["", "", "Chat", "A longer description of an area, with \"quotes\"", "back\\slash", "100% real", "x" * 77, "Net 2:5 \xe5\xe4\xf6 talk"])


def gen_af_system(d, maxnodes=5, messy=False):
    c = gen_system(d, maxnodes=maxnodes, nodeflags={"PASSIVE": .2, "FORWARDREQ": .55, "SENDAREAFIX": .3, "SENDTEXT": .3, "NOTIFY": .35, "PACKNETMAIL": .15,
                                                     "TINYSEENBY": .1, "NOSEENBY": .1, "AUTOADD": .2, "NONETMAILPASSWORD": .15})
    c.packers = []
    if d.bool(.6):
        c.packers.append(("PK2", True))
    if d.bool(.4):
        c.packers.append(("Unp", False))
    c.sysop = d.choice(["Sys Op", "Johan \"JB\" Billing", "X"])
    for n in c.nodes:
        n.af = (d.choice(PWS), groupstr(d), "".join(d.subset("ABC", .25)), "".join(d.subset("ABC", .2))) if d.bool(.85) else None
        n.lines = []
        n.remoteaf = None
        n.sysop = ""
        if d.bool(.5):
            n.remoteaf = (d.choice(["AreaFix", "Areamgr"]), d.choice(["rpw", "two w", "a\\b"]), d.bool(.3))
            n.lines.append("REMOTEAF %s %s%s" % (q(n.remoteaf[0]), q(n.remoteaf[1]), " NEEDSPLUS" if n.remoteaf[2] else ""))
        if d.bool(.5):
            n.sysop = d.choice(["Joe Doe", "A\"B", "Zed"])
            n.lines.append("REMOTESYSOP %s" % q(n.sysop))
    c.switches = ["IMPORTEMPTYNETMAIL"] + [s for s, p in SW.items() if d.bool(p)]
    c.maxlines = d.choice([0, 0, 0, 2, 3, 5, 8, 20])
    c.groupnames = [(g, d.choice(["Alpha group", "Beta", "100%"])) for g in d.subset("ABC", .4)]
    c.afnames = d.choice([["AreaFix"], ["Areafix", "AreaMgr"], ["area fix"]])
    c.help = d.choice([None, ["Help line 1", "", "  indented %s %d", "x" * 90], ["Only"]])
    for s in ("AREAFIXNAME %s" % q(x) for x in c.afnames):
        c.extra.append(s)
    if c.maxlines:
        c.extra.append("AREAFIXMAXLINES %d" % c.maxlines)
    for g, n in c.groupnames:
        c.extra.append("GROUPNAME %s %s" % (g, q(n)))
    if len(c.akas) > 1 and d.bool(.5):
        x = d.choice(c.akas).addr
        c.routes = [("%d:*/*.*" % d.choice([n.addr.zone for n in c.nodes]), "*:*/*.*", x), ("*:*/*.*", "*:*/*.*", d.choice(c.akas).addr)]
    taken = set()
    add_std_areas(d, c)
    taken |= set(a.tag.upper() for a in c.areas)
    for t in ["DEFAULT"] * d.bool(.4) + ["DEFAULT_" + g for g in d.subset(["A", "BC"], .3)]:
        a = Cfg(kind="default", tag=t, aka=c.akas[0].addr, mb=d.choice(["MSG", "JAM"]) if d.bool(.7) else None, path=t.lower() + "_%a", opts=gen_opts(d), exports=[], desc=gen_desc(d))
        for n in c.nodes:
            if d.bool(.25):
                a.exports.append((d.choice(["", "!", "@"]), n.addr))
        c.areas.append(a)
    if d.bool(.3):
        c.areas.append(Cfg(kind="local", tag="LOC", aka=c.akas[0].addr, mb="MSG", path="loc", opts=[]))
    for i in range(d.int(1, 6)):
        mb = d.choice(["MSG", "MSG", None, None, "JAM"])
        a = Cfg(kind="echo", tag=d.choice(["A.", "A.B", "CHAT", "C"]) + gen_tag(d, set(), 6) if d.bool(.5) else gen_tag(d, taken, 78), aka=d.choice(c.akas).addr, mb=mb,
                path="e%d" % i, opts=gen_opts(d), exports=[], group=d.choice("AABC") if d.bool(.85) else "", banned=[], desc=gen_desc(d), msgs=0)
        if a.tag.upper() in set(x.tag.upper() for x in c.areas):
            continue
        taken.add(a.tag.upper())
        feed = d.bool(.5)
        for n in c.nodes:
            if d.bool(.45):
                a.exports.append(("%" if feed else d.choice(["", "", "", "!", "@"]), n.addr))
                feed = False
            if d.bool(.12):
                a.banned.append(n.addr)
        a.exports = d.shuffle(a.exports)
        if mb == "MSG":
            a.msgs = d.int(0, 4)
        c.areas.append(a)
    c.areas = d.shuffle(c.areas)
    c.lists = []
    for i in range(d.int(0, 3)):
        n = d.choice(c.nodes)
        l = Cfg(node=n.addr, name="list%d" % i, fwd=d.bool(.75), desc=d.bool(.5), group=d.choice("ABC") if d.bool(.85) else "", ents=[])
        for _ in range(d.int(0, 4)):
            t = d.choice([a.tag for a in c.areas]) if d.bool(.2) else d.choice(["BAD", "NETMAIL", "DEFAULT", "LOC", "DEFAULT_A"]) if d.bool(.12) else gen_tag(d, taken, 78)
            l.ents.append((swapcase(t) if d.bool(.2) else t, gen_desc(d).lstrip("\xe5\xe4\xf6")))
        c.lists.append(l)
    return c


def gen_opts(d):
    return [o for o, p in (("MANDATORY", .2), ("DEFREADONLY", .2), ("IGNOREDUPES", .1), ("IGNORESEENBY", .1), ("KEEPNUM 20", .1), ("KEEPDAYS 7", .1)) if d.bool(p)]


def af_setup(w, c):
    """files the configuration refers to"""
    c.tail = []
    for l in c.lists:
        w.write(l.name, "".join(t + ("   " + s if s else "") + "\n" for t, s in l.ents))
        c.tail.append("AREALIST %s %s%s%s%s" % (l.node.full, q(w.p(l.name)), " FORWARD" if l.fwd else "", " DESC" if l.desc else "", " GROUP " + l.group if l.group else ""))
    if c.help is not None:
        w.write("help", "".join(x + "\n" for x in c.help))
        c.tail.append("AREAFIXHELP %s" % q(w.p("help")))
    for a in c.areas:
        if a.kind == "echo" and a.get("msgs"):
            os.mkdir(w.p("a", a.path))
            for i in range(a.msgs):
                w.write("a/%s/%d.msg" % (a.path, i + 2), make_msg(b"Me", b"All", b"Old #%d" % i, b"01 Jan 23  10:00:00", SENT, b"old text %d\r" % i))


# ---------------------------------------------------------------- requests
def gen_request(d, c, model_tags):
    n = d.choice(c.nodes)
    r = Cfg(op="request", addr=n.addr, frm=d.choice(["Joe Doe", "Sys \xe5", "x"]), to=d.choice(c.afnames), switch="", lines=[])
    if d.bool(.2):
        r.to = swapcase(r.to)
    if d.bool(.06):
        r.to = d.choice(["Sysop", r.to + "x", r.to[:-1]])
    if d.bool(.06):
        r.addr = Addr(n.addr.zone, n.addr.net, n.addr.node, n.addr.point + 7)
    r.pw = d.weighted([(12, "right"), (1, "wrong"), (1, "empty"), (1, "prefix"), (1, "case"), (1, "other")])
    r.aka = d.choice(c.akas).addr
    if d.bool(.12):
        r.switch = d.choice(["-l", "-Q", "-x"])
    tags = model_tags + [t for l in c.lists for t, _ in l.ents] + ["NOSUCH", "BAD", "NETMAIL", "DEFAULT", "LOC"]
    for _ in range(d.int(0, 6)):
        r.lines.append(gen_cmd(d, c, tags))
    if d.bool(.5):
        r.lines.append(d.choice(["---", "--- tool 1.0", "---x"]))
        if d.bool(.6):
            r.lines.append(gen_cmd(d, c, tags))
    return r


def gen_cmd(d, c, tags):
    k = d.weighted([(10, "area"), (2, "wild"), (7, "pct"), (1, "blank"), (1, "kludge"), (1, "long")])
    if k == "blank":
        return d.choice(["", "   "])
    if k == "kludge":
        return "\x01PID: CHAT"
    if k == "long":
        return d.choice(["-", "", "%"]) + d.text("ABCxyz. ", 90, 230).strip()
    if k == "pct":
        s = d.choice(["%PAUSE", "%RESUME", "%PWD", "%RESCAN", "%RESCAN", "%COMPRESS", "%LIST", "%QUERY", "%UNLINKED", "%HELP", "%INFO", "%FOO", "%"])
        if s == "%PWD":
            s += d.choice([" newpw", " \"new two\"", "", " a\\\\b", " n" + "y" * 20])
        if s == "%COMPRESS":
            s += " " + d.choice(["PK", "pk2", "Unp", "NONE", "none", "?", "zip", ""])
        if d.bool(.2):
            s = s.lower()
        return "  " + s + " " if d.bool(.1) else s
    t = d.choice(tags)
    if k == "wild":
        t = d.choice(["*", t[:1] + "*", t[:2] + "*", "?" * len(t), t[:-1] + "?", "A.*", "NOSUCH*"])
    elif d.bool(.2):
        t = swapcase(t)
    s = d.choice(["+", "", "-", "-", "="]) + t
    if d.bool(.25):
        s += d.choice([",R=%d" % d.int(0, 5), ", r=2", ",R=", ",zap", " ,R=1", ","])
    return "  " + s + "  " if d.bool(.1) else s


def gen_ops(d, c, n=(1, 4)):
    tags = [a.tag for a in c.areas if a.kind == "echo"] or ["NOSUCH"]
    ops = []
    for _ in range(d.int(*n)):
        k = d.weighted([(8, "req"), (2, "send"), (1, "remove")])
        if k == "req":
            ops.append(("toss", [gen_request(d, c, tags) for _ in range(d.weighted([(5, 1), (2, 2), (1, 3)]))]))
        elif k == "send":
            ops.append(("send", d.choice(["SENDLIST", "SENDQUERY", "SENDUNLINKED", "SENDHELP", "SENDINFO"]), "ALL" if d.bool(.4) else str(d.choice(c.nodes).addr)))
        else:
            t = d.choice(tags + ["NOSUCH", "BAD", "NETMAIL"])
            ops.append(("remove", swapcase(t) if d.bool(.2) else t))
    return ops


# ---------------------------------------------------------------- the model
def wildmatch(p, s):
    p, s = p.lower(), s.lower()
    for i, ch in enumerate(p):
        if ch == "*":
            return True
        if i >= len(s) or ch not in ("?", s[i]):
            return False
    return len(p) == len(s)


def reserved(tag):
    return tag.upper() in ("BAD", "DEFAULT") or tag.upper().startswith("DEFAULT_")


class Mail(Cfg):
    pass


class AFModel:
    def __init__(self, c):
        self.c = c
        self.nodes = []
        for n in c.nodes:
            self.nodes.append(Cfg(addr=n.addr, packer=n.packer, pktpw=n.pw, flags=set(n.flags), pri=n.pri, pktfrom=n.pktfrom, defgroup=n.defgroup,
                                  pw=n.af[0] if n.af else "", groups=n.af[1] if n.af else "", ro=n.af[2] if n.af else "", add=n.af[3] if n.af else "",
                                  remoteaf=n.remoteaf, sysop=n.sysop))
        self.areas = [Cfg(a, exports=list(a.get("exports", [])), orig=a, new=False) for a in c.areas]
        self.mails = []      # (dest, Mail)
        self.rescans = []    # (dest, area tag, [message index])
        self.imported = []
        self.touched = set()
        self.remote = {}

    def sw(self, s):
        return s in self.c.switches

    def node(self, addr):
        return next((n for n in self.nodes if n.addr == addr), None)

    def aka(self, addr):
        for p, t, k in self.c.routes or [("*:*/*.*", "", self.c.akas[0].addr)]:
            if p.startswith("*") or int(p.split(":")[0]) == addr.zone:
                return k

    # ---- replies
    def reply(self, frm, to, dest, subj):
        self.r = Cfg(frm=frm, to=to, dest=dest, subj=subj, lines=[], n=0, part=1)

    def line(self, s):
        r = self.r
        mx = self.c.maxlines
        if mx >= 2 and r.n >= mx - 2:
            r.lines += ["", "(Continued in next message)"]
            self.send()
            r.lines = ["(Continued from previous message)", ""]
            r.n = 2
            r.part += 1
        r.lines += s.split("\r")
        r.n += 1

    def cmd(self, cmd, text):
        if len(cmd) <= 30:
            self.line("%-30s %s" % (cmd, text))
        else:
            self.line(cmd)
            self.line("%-30s %s" % ("", text))

    def send(self):
        r = self.r
        self.mail(r.dest, r.frm, self.c.sysop, r.to, r.subj + (" (part %d)" % r.part if r.part > 1 else ""), r.lines)

    def mail(self, dest, orig, frm, to, subj, lines):
        self.mails.append(Mail(dest=dest, orig=orig, frm=frm, to=to, subj=subj, lines=list(lines)))

    # ---- requests
    def subject(self, r):
        n = self.node(r.addr)
        pw = n.pw if n else "pw"
        s = {"right": pw, "wrong": pw + "z", "empty": "", "prefix": pw[:-1], "case": swapcase(pw), "other": "Secret"}[r.pw]
        t = q(s) if not s or re.search(r'[ "\\]', s) else s
        return t + (" " + r.switch if r.switch else "")

    def request(self, r):
        c = self.c
        if r.to.lower() not in [x.lower() for x in c.afnames]:
            self.imported.append(r)
            return
        if self.sw("IMPORTAREAFIX"):
            self.imported.append(r)
        self.reply(self.aka(r.addr), r.frm, r.addr, "AreaFix response")
        n = self.node(r.addr)
        if not n:
            self.line("Sorry, your node is not configured here.")
            return self.send()
        ws = cfgparse.words(r.subjtext) + ["", ""]
        if ws[0].lower() != n.pw.lower():
            self.line("Sorry, wrong password.")
            return self.send()
        f = Cfg(done=False, resc=False, list=False, query=False, unlinked=False, help=False, info=False)
        if ws[1].lower() in ("-l", "-q"):
            f.done = f.list = True
            self.cmd(ws[1], "Sending list of all areas")
        for l in r.lines:
            l = l[:99]
            if l.startswith("---"):
                break
            l = l.lstrip(" ").rstrip()
            if l.startswith("%"):
                self.percent(n, l, f)
            elif l and l[0] != "\x01":
                f.done = True
                self.command(n, l, f, r)
            self.areas = [a for a in self.areas if not a.get("gone")]
        if not f.done:
            self.line("Nothing to do.")
        self.send()
        me = self.aka(r.addr)
        for k in ("list", "query", "unlinked"):
            if f[k]:
                self.sendlist(k, me, r.frm, n)
        if f.help:
            self.sendhelp(me, r.frm, n)
        if f.info:
            self.sendinfo(me, r.frm, n)
        self.flush_remote()

    def percent(self, n, l, f):
        ws = cfgparse.words(l)
        k = ws[0].upper()
        arg = ws[1][:39] if len(ws) > 1 else None
        self_changed = False
        if k == "%PAUSE":
            if "PASSIVE" in n.flags:
                self.cmd(l, "Your system is already passive")
            else:
                n.flags.add("PASSIVE")
                self_changed = True
                self.cmd(l, "Your system is marked as passive")
                self.cmd("", "Send %%RESUME to get echomail again")
        elif k == "%RESUME":
            if "PASSIVE" in n.flags:
                n.flags.discard("PASSIVE")
                self_changed = True
                self.cmd(l, "Your system is active again")
            else:
                self.cmd(l, "Your system is not paused")
        elif k == "%PWD":
            if arg is not None:
                n.pw = arg
                self_changed = True
                self.cmd(l, "AreaFix password changed")
            else:
                self.cmd(l, "No new password specified")
        elif k == "%RESCAN":
            if self.sw("ALLOWRESCAN"):
                f.resc = True
                self.cmd(l, "Will rescan all areas added after this line")
            else:
                self.cmd(l, "No rescanning allowed")
        elif k == "%COMPRESS":
            if arg is None:
                self.cmd(l, "No new method specified")
                return
            f.done = True
            can = ["PK"] + [x for x, ok in self.c.packers if ok]
            m = next((x for x in can if x.lower() == arg.lower()), None)
            if arg.upper() == "NONE":
                m = ""
            if arg.startswith("?"):
                self.cmd(l, "Sending list of packers:")
                m = None
            elif m is None:
                self.cmd(l, "Unknown packer. Choose from this list:")
            if m is None:
                for x in can + ["NONE"]:
                    self.cmd("", x)
            else:
                n.packer = m
                self_changed = True
                self.cmd(l, "Packed changed")
        else:
            f.done = True
            t = {"%LIST": ("list", "Sending list of all areas"), "%QUERY": ("query", "Sending query"), "%UNLINKED": ("unlinked", "Sending list of all unlinkedareas"),
                 "%HELP": ("help", "Sending help file"), "%INFO": ("info", "Sending configuration info")}.get(k)
            if t:
                f[t[0]] = True
                self.cmd(l, t[1])
            else:
                self.cmd(l, "Unknown command")
        if self_changed:
            f.done = True
            self.touched.add(("node", n.addr))

    def command(self, n, l, f, r):
        opt = ""
        name = l
        if "," in l:
            name, opt = l.rsplit(",", 1)
            name, opt = name.rstrip(), opt.lstrip(" ").rstrip()
        verb = {"-": "remove", "=": "update"}.get(name[:1], "add")
        if name[:1] in ("-", "=", "+"):
            name = name[1:]
        wild = "*" in name or "?" in name
        if wild:
            self.line(l)
            self.line("")
        some = exists = False
        target = None
        for a in self.areas:
            if a.kind != "echo" or a.get("gone") or not wildmatch(name, a.tag):
                continue
            exists = True
            link = next((x for x in a.exports if x[1] == n.addr), None)
            if verb == "add":
                if link:
                    some = True
                    self.line("   You are already attached to %s" % a.tag) if wild else self.cmd(l, "You are already attached to that area")
                elif a.group and a.group in n.groups + n.ro:
                    some = True
                    if n.addr in a.banned:
                        self.line("   You have been banned from %s" % a.tag) if wild else self.cmd(l, "You have been banned from that area")
                    else:
                        ro = "DEFREADONLY" in a.opts or a.group in n.ro
                        if wild:
                            self.line("   Attached to %s%s" % (a.tag, " as read-only" if ro else ""))
                        else:
                            self.cmd(l, "Attached as read-only" if ro else "Attached")
                        a.exports.append(("!" if ro else "", n.addr))
                        self.touched.add(("area", a.tag.upper()))
                        target = a
                elif not wild:
                    self.cmd(l, "You don't have access to that area")
            elif verb == "remove":
                if not link:
                    if not wild:
                        some = True
                        self.cmd(l, "You are not attached to that area")
                    continue
                some = True
                if "MANDATORY" in a.opts and link[0] != "%":
                    self.line("   You are not allowed to detach from %s" % a.tag) if wild else self.cmd(l, "You are not allowed to detach from that area")
                    continue
                self.line("   Detached from %s" % a.tag) if wild else self.cmd(l, "Detached")
                a.exports.remove(link)
                self.touched.add(("area", a.tag.upper()))
                if link[0] == "%" and self.sw("REMOVEWHENFEED"):
                    self.removed(a)
                elif self.sw("AREAFIXREMOVE") and not a.mb and (not a.exports or len(a.exports) == 1 and a.exports[0][0] == "%"):
                    if a.exports:
                        self.remote.setdefault(a.exports[0][1], []).append("-" + a.tag)
                    a.gone = True
            elif link:
                some = True
                if wild:
                    self.line("   Nothing to do with %s" % a.tag)
                else:
                    self.cmd(l, "Will rescan area")
                    target = a
        if verb in ("add", "update") and not wild and some and target:
            want = None
            if opt.lower().startswith("r="):
                m = re.match(r"\s*(\d+)", opt[2:])
                want = int(m[1]) if m else 0
            elif opt:
                self.line("%-30s Unknown option %s" % ("", opt))
            if f.resc or want is not None:
                if not self.sw("ALLOWRESCAN"):
                    self.line("%-30s No rescanning allowed" % "")
                elif not target.mb:
                    self.line("%-30s Can't rescan, area is pass-through" % "")
                else:
                    k = target.get("msgs", 0)
                    sent = list(range(k))[-want:] if want else list(range(k))
                    self.line("%-30s Rescanned %d messages" % ("", len(sent)))
                    self.rescans.append((n.addr, target.tag, sent))
        if verb == "add" and not some:
            if wild:
                self.line("   There were no matching areas to connect to")
            elif not exists:
                fl = None
                if "FORWARDREQ" in n.flags and not reserved(name) and not any(a.tag.lower() == name.lower() for a in self.areas):
                    fl = next((x for x in self.c.lists if x.fwd and x.group and x.group in n.groups and any(t.lower() == name.lower() for t, _ in x.ents)), None)
                if fl:
                    up = self.node(fl.node)
                    self.cmd(l, "Request sent to %s" % up.addr.full)
                    self.remote.setdefault(up.addr, []).append(("+" if up.remoteaf and up.remoteaf[2] else "") + name)
                    a = self.newarea(name, up, self.aka(r.addr))
                    a.group = fl.group
                    if not any(x[1] == n.addr for x in a.exports):
                        a.exports.append(("!" if a.group in n.ro or "DEFREADONLY" in a.opts else "", n.addr))
                    self.touched.add(("area", name.upper()))
                else:
                    self.cmd(l, "Unknown area")
        elif verb == "remove" and not some:
            self.line("   There were no matching areas to detach from") if wild else self.cmd(l, "Unknown area")
        elif verb == "update":
            if not some:
                self.line("   There were no matching areas") if wild else self.cmd(l, "You are not attached to this area")
            elif target and not f.resc and not opt:
                self.cmd(l, "Nothing to do")
        if wild:
            self.line("")

    def newarea(self, tag, up, aka):
        """an area that is new here and fed by up"""
        dflt = None
        if up.defgroup:
            dflt = next((x for x in self.areas if x.tag.upper().startswith("DEFAULT_") and up.defgroup in x.tag[8:]), None)
        dflt = dflt or next((x for x in self.areas if x.tag.upper() == "DEFAULT"), None)
        a = Cfg(kind="echo", tag=tag, aka=aka, mb=None, path="", opts=[], exports=[], group="", banned=[], desc="", new=True, msgs=0)
        if dflt:
            a.mb = None if self.sw("FORWARDPASSTHRU") else dflt.mb
            a.opts = [o for o in dflt.opts if o.split()[0] in AKEEP]
            a.desc = dflt.get("desc", "")
            for x in dflt.exports:
                if x[1] not in [y[1] for y in a.exports]:
                    a.exports.append(x)
        for l in self.c.lists:
            if l.node == up.addr and l.desc:
                t = next((s for t, s in l.ents if t.lower() == tag.lower() and s.strip()), None)
                if t:
                    a.desc = t.strip()[:77]
                    break
        if up.addr not in [y[1] for y in a.exports]:
            a.exports.append(("%", up.addr))
        for n in self.nodes:
            if up.defgroup and up.defgroup in n.add and n.addr not in [y[1] for y in a.exports]:
                a.exports.append(("!" if "DEFREADONLY" in a.opts or up.defgroup in n.ro else "", n.addr))
        self.areas.append(a)
        return a

    def removed(self, a):
        """tell the nodes linked to an area that it is removed"""
        self.touched.add(("area", a.tag.upper()))
        for f, addr in a.exports:
            n = self.node(addr)
            if "SENDAREAFIX" in n.flags:
                self.mail(addr, a.aka, self.c.sysop, n.remoteaf[0] if n.remoteaf else "", n.remoteaf[1] if n.remoteaf else "", ["-" + a.tag, "---", "*"])
            if "SENDTEXT" in n.flags and f != "%":
                self.mail(addr, a.aka, self.c.sysop, n.sysop, "Area removed", ["The area \"%s\" has been removed by the uplink." % a.tag] +
                          (["A message has been sent to your AreaFix."] if "SENDAREAFIX" in n.flags else []))
        a.gone = True

    def flush_remote(self):
        for addr, cmds in self.remote.items():
            n = self.node(addr)
            self.mail(addr, self.aka(addr), self.c.sysop, n.remoteaf[0] if n.remoteaf else "", n.remoteaf[1] if n.remoteaf else "", cmds + ["---", "*"])
        self.remote = {}

    # ---- lists
    def sendlist(self, kind, me, to, n):
        self.reply(me, to, n.addr, "AreaFix list of areas")
        self.line("This is a list of all %s areas at %s:" % ({"list": "available", "query": "connected", "unlinked": "unlinked"}[kind], me.full))
        self.line("")
        ents = []
        for a in self.areas:
            if a.kind != "echo":
                continue
            link = next((x for x in a.exports if x[1] == n.addr), None)
            ok = bool(a.group and a.group in n.groups + n.ro)
            if {"list": link or ok, "query": link, "unlinked": not link and ok}[kind]:
                ents.append((a.group, a.tag.lower(), a.tag, a.desc, bool(link), bool(link and link[0] == "%")))
        if self.sw("INCLUDEFORWARD") and kind != "query" and "FORWARDREQ" in n.flags:
            for l in self.c.lists:
                if l.fwd and l.group and l.group in n.groups:
                    for t, s in l.ents:
                        if any(a.tag.lower() == t.lower() for a in self.areas) or any(e[1] == t.lower() for e in ents):
                            continue
                        ents.append((l.group, t.lower(), t, s.strip() if l.desc else "", False, False))
        last = None
        for g, _, t, s, att, feed in sorted(ents):
            if g != last:
                if last is not None:
                    self.line("")
                self.line(" Group: %s" % (dict(self.c.groupnames).get(g, "") if g else "<No group>"))
                self.line("")
                self.line(" Tagname                       Description                         KB/week")
                self.line(" ----------------------------  ---------------------------------   -------")
                last = g
            ch = "%" if feed else "*" if att and kind == "list" else " "
            if len(t) <= 28:
                self.line("%s%-28s  %s" % (ch, t, s[:33]))
            else:
                self.line("%s%s" % (ch, t[:70]))
                self.line("%-31s%s" % ("", s[:33]))
        if kind == "query":
            self.line("\r%d linked areas." % len(ents))
            self.line("A '%' means that you are the feed for the area.")
        elif kind == "unlinked":
            self.line("\r%d unlinked areas." % len(ents))
        else:
            self.line("\rTotally %d areas, you are connected to %d of them." % (len(ents), sum(e[4] for e in ents)))
            self.line("A '*' means that you are connected to the area.")
            self.line("A '%' means that you are the feed for the area.")
        self.send()

    def sendhelp(self, me, to, n):
        self.reply(me, to, n.addr, "AreaFix help")
        if self.c.help is None:
            self.line("*** Error *** : Couldn't open help file")
        for l in self.c.help or []:
            self.line(l)
        self.send()

    def sendinfo(self, me, to, n):
        self.reply(me, to, n.addr, "AreaFix configuration info")
        L = ["Configuration for %s:" % n.addr.full, "", "           Sysop: " + n.sysop, "Packet  password: " + n.pktpw, "Areafix password: " + n.pw,
             "          Packer: " + (n.packer or "No packer"), ""]
        for fl, t in (("PASSIVE", "You are passive and will not receive any echomail messages"), ("TINYSEENBY", "You receive messages with tiny SEEN-BY lines"),
                      ("NOSEENBY", "You receive messages without SEEN-BY lines"), ("FORWARDREQ", "You may do forward-requests"), ("NOTIFY", "You will receive notifications"),
                      ("PACKNETMAIL", "Netmail to you will be packed"), ("AUTOADD", "New areas from you will be auto-added")):
            if fl in n.flags:
                L.append(" * " + t)
        gn = dict(self.c.groupnames)
        L += ["", "You have full access to these groups:", ""]
        L += [g + (": " + gn[g] if g in gn else "") for g in sorted(set(n.groups) - set(n.ro))]
        L += ["", "You have read-only access to these groups:", ""]
        L += [g + ": " + gn.get(g, "") for g in sorted(set(n.ro))]
        for l in L:
            self.line(l)
        self.send()


# ---------------------------------------------------------------- playing and comparing
def play_op(w, c, model, op, i):
    model.mails, model.rescans, model.imported, model.touched = [], [], [], set()
    if op[0] == "toss":
        for k, r in enumerate(op[1]):
            n = model.node(r.addr)
            # a request is answered according to what earlier ones in the same run changed
            r.subjtext = model.subject(r)
            text = "\x01INTL %s %s\r" % ("%d:%d/%d" % r.aka[:3], "%d:%d/%d" % r.addr[:3])
            if r.addr.point:
                text += "\x01FMPT %d\r" % r.addr.point
            if r.aka.point:
                text += "\x01TOPT %d\r" % r.aka.point
            text += "".join(l + "\r" for l in r.lines)
            L = lambda s: s.encode("latin-1")
            raw = pkt_msg(r.addr.net, r.addr.node, r.aka.net, r.aka.node, PVT, 0, L("01 Jan 24  10:00:00"), L(r.to), L(r.frm), L(r.subjtext), L(text))
            w.drop("%04x%04x.pkt" % (i, k), make_pkt(pkt_header(r.addr, r.aka, L(n.pktpw) if n else b"", "2+"), [raw]))
            model.request(r)
        w.toss()
    elif op[0] == "send":
        w.crashmail(op[1], op[2])
        for n in model.nodes:
            if op[2] == "ALL" and "NOTIFY" in n.flags or op[2] != "ALL" and n.addr == A(op[2]):
                me = model.aka(n.addr)
                if op[1] == "SENDHELP":
                    model.sendhelp(me, n.sysop, n)
                elif op[1] == "SENDINFO":
                    model.sendinfo(me, n.sysop, n)
                else:
                    model.sendlist({"SENDLIST": "list", "SENDQUERY": "query", "SENDUNLINKED": "unlinked"}[op[1]], me, n.sysop, n)
    else:
        w.crashmail("REMOVE", op[1])
        a = next((a for a in model.areas if a.kind == "echo" and a.tag.lower() == op[1].lower()), None)
        if a:
            model.removed(a)
            model.areas.remove(a)


def norm(lines):
    out = []
    for l in lines:
        l = l.replace("%%", "%").rstrip()
        out.append(l)
    while out and not out[-1]:
        out.pop()
    return out


def check_mail(w, c, model, opname):
    got = w.queued_messages(c.akas[0].addr.zone)
    mails, echo = [], []
    for dest, fl, how, h, m in got:
        if m.text.startswith(b"AREA:"):
            tag = m.text.split(b"\r")[0][5:].decode("latin-1")
            echo.append((dest, tag.upper(), tok_of(m.subj)))
            continue
        ls = [l.decode("latin-1") for l in m.text.split(b"\r")]
        ls = [l for l in ls if not l.startswith("\x01")]
        is_list = m.subj.startswith(b"AreaFix list of areas")
        if m.subj not in (b"AreaFix response",) and not m.attr & PVT:
            raise Fail("%s: generated message %r is not private" % (opname, m.subj))
        mails.append((dest, Addr(0, m.onet, m.onode, 0)[1:3], m.frm.decode("latin-1"), m.to.decode("latin-1"), m.subj.decode("latin-1"),
                      norm([l[:66] for l in ls] if is_list else ls)))
    want = []
    for x in model.mails:
        ls = x.lines
        if x.subj.startswith("AreaFix list of areas"):
            ls = [l[:66] for l in ls]
        want.append((x.dest, x.orig[1:3], x.frm, x.to, x.subj, norm(ls)))
    rest = list(mails)
    for x in want:
        k = next((i for i, y in enumerate(rest) if y[:5] == x[:5] and lines_eq(x[5], y[5])), None)
        if k is None:
            near = [y for y in rest if y[0] == x[0] and y[4] == x[4]] or rest
            raise Fail("%s: expected message %r\nnot queued; queued instead: %r" % (opname, x, near))
        rest.pop(k)
    if rest:
        raise Fail("%s: unexpected message queued: %r" % (opname, rest))
    exp = []
    for addr, tag, idx in model.rescans:
        exp += [(addr, tag.upper(), i) for i in idx]
    if sorted(exp, key=repr) != sorted(echo, key=repr):
        raise Fail("%s: echomail sent %r, expected %r" % (opname, sorted(echo, key=repr), sorted(exp, key=repr)))
    return len(mails)


def lines_eq(want, got):
    if want and want[-1] == "*":         # free-form signature line
        return len(got) == len(want) and got[:-1] == want[:-1]
    return want == got


def check_config(w, c, model, opname, text=None):
    """the configuration file says what the model says"""
    try:
        areas, nodes, other = cfgparse.parse((w.read("cfg") if text is None else text).decode("latin-1"))
    except (ValueError, IndexError) as e:
        raise Fail("%s: configuration is not readable any more: %s" % (opname, e))
    wt = set(a.tag.upper() for a in model.areas)
    if set(areas) != wt:
        raise Fail("%s: areas in the configuration: missing %s, extra %s" % (opname, sorted(wt - set(areas)), sorted(set(areas) - wt)))
    for a in model.areas:
        g = areas[a.tag.upper()]
        x = dict(kind={"net": "NETMAIL", "local": "LOCALAREA"}.get(a.kind, "AREA"), tag=a.tag, aka=a.aka, mb=a.mb, exports=[(f, n) for f, n in a.exports],
                 banned=list(a.get("banned", [])), imports=list(a.get("imports", [])), desc=a.get("desc", ""), group=a.get("group", ""),
                 flags=set(o for o in a.opts if " " not in o), keepnum=0, keepdays=0)
        for o in a.opts:
            if " " in o:
                x[o.split()[0].lower()] = int(o.split()[1])
        if not a.new:
            x["path"] = w.p("a", a.path) if a.mb else None
        for k, v in x.items():
            if k == "tag" and not a.new and g[k].upper() == v.upper():
                continue
            if g[k] != v and not (k == "mb" and v is not None and g[k] is not None and v.upper() == g[k].upper()):
                raise Fail("%s: area %s has %s %r in the configuration, expected %r" % (opname, a.tag, k, g[k], v))
    if set(nodes) != set(n.addr for n in model.nodes):
        raise Fail("%s: nodes in the configuration: %r" % (opname, sorted(nodes)))
    for n in model.nodes:
        g = nodes[n.addr]
        x = dict(packer=n.packer, pw=n.pktpw, flags=n.flags | ({n.pri} if n.pri else set()), pktfrom=n.pktfrom, af=(n.pw, n.groups, n.ro, n.add),
                 remoteaf=((n.remoteaf[0], n.remoteaf[1]) + (("NEEDSPLUS",) if n.remoteaf[2] else ())) if n.remoteaf else None, sysop=n.sysop, defgroup=n.defgroup)
        for k, v in x.items():
            if g[k] != v and not (k == "packer" and g[k].upper() == v.upper()):
                raise Fail("%s: node %s has %s %r in the configuration, expected %r" % (opname, n.addr, k, g[k], v))
    return areas, nodes, other


def check_imported(w, c, model, total):
    total += [(r.to, r.frm) for r in model.imported]
    got = sorted((m.to.decode("latin-1"), m.frm.decode("latin-1")) for m in read_msgdir(w.p("a", "net")).values())
    if got != sorted(total):
        raise Fail("netmail area holds %r, expected %r" % (got, sorted(total)))


def clear_out(w):
    for d in sorted(os.listdir(w.dir)):
        if d == "out" or d.startswith("out.") or d == "pd":
            subprocess.run(["rm", "-rf", w.p(d)])
            if d in ("out", "pd"):
                os.mkdir(w.p(d))


def describe_ops(case):
    c = case.c
    return repr(dict(akas=[a.addr for a in c.akas], nodes=[(n.addr, n.flags, n.af, n.remoteaf, n.defgroup) for n in c.nodes], switches=c.switches,
                     areas=[(a.kind, a.tag, a.mb, a.get("group"), a.opts, a.get("exports"), a.get("banned")) for a in c.areas],
                     lists=[(l.node, l.fwd, l.desc, l.group, l.ents) for l in c.lists], maxlines=c.maxlines,
                     ops=[(o[0], [(r.addr, r.to, r.pw, r.switch, r.lines) for r in o[1]]) if o[0] == "toss" else o for o in case.ops]))[:3500]
