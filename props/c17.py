"""C17: filters select exactly the messages their expression describes and do
to them what their commands say, no more and no less."""
import datetime, re
from pbt.fido import *
from pbt.tossgen import *
from pbt.netgen import NL, gen_nodelist, put_nodelist, pat_match, expand, gen_pat, gen_destpat, L1
from pbt.core import Fail

ID = "C17"
BUDGET = {"quick": 9000, "thorough": 120000}
RULE = ("1-4 FILTER statements with generated expressions (every variable, =, |, NOT, AND, OR, nested parentheses, quotes, 8-bit and self-overlapping needles) and 1-3 commands each x 1-6 messages "
        "(netmail and echomail, tossed, exported, generated); also malformed expressions, which must be refused; non-trivial = some filter matched some message and some did not, or a malformed expression")

LINKS = [Addr(2, 100, 2), Addr(2, 101, 3)]
UPLINK = Addr(2, 2000, 5)
POOL = [Addr(2, 100, 1), Addr(2, 100, 1, 7), Addr(1, 5, 10), Addr(1, 5, 10, 3), Addr(2, 100, 2), Addr(2, 101, 3), Addr(2, 101, 3, 9), Addr(2, 2000, 5), Addr(2, 100, 9), Addr(1, 5, 2), Addr(39, 5, 999, 17)]
NAMES = ["Sys Op", "Raid", "all", "Johan Billing", "J\xe5n \xc4", "johan b", "Aa (b)", "x"]
SUBJ = ["hello", "Test of Crash", "", "aabaab", "AaBaa", "Re: hello", "\xe5\xe4\xe5\xe5", "abcabcabd", "50 and or not"]
WORDS = ["hello", "aabaabaac", "CrashMail", "crash mail", "\xe5\xe5\xe4", "\xc5\xe4", "xyxyxz", "abab", "aaa", "aab", "not this", "(paren", "end)", "and", "billing", "q"]
KLUDGES = ["PID: CrashMail 1", "TID: hello", "CHRS: LATIN-1 2", "XFOO: aabaab", "TZUTC: 0100"]
lowera = lambda b: b.lower()


# ------------------------------------------------------------------ expressions
def gen_needle(d, texts):
    t = d.choice(texts)
    if t and d.bool(.85):
        i = d.int(0, len(t) - 1)
        n = t[i:i + d.weighted([(2, 1), (4, 4), (3, 12), (1, 90)])]
        if d.bool(.3):
            n = swapcase(n)
        if d.bool(.15):
            j = d.int(0, len(n) - 1)
            n = n[:j] + d.choice("abxq ") + n[j + 1:]
        return n
    return d.choice(WORDS + ["zzz", ""])


def gen_strpat(d, vals):
    v = d.choice(vals)
    k = d.int(0, 6)
    if k <= 2:
        return v
    if k == 3:
        return swapcase(v)
    if k == 4:
        return v[:d.int(0, len(v))] + "*"
    if k == 5 and v:
        j = d.int(0, len(v) - 1)
        return v[:j] + "?" + v[j + 1:]
    return d.choice(["*", "?", "", v + "x", v[:-1]])


def quote(d, s):
    s = s.replace('"', "'")
    if s == "" or re.search(r'[ ()"]', s) or d.bool(.5):
        return '"%s"' % s
    return s


def gen_leaf(d, case):
    k = d.int(0, 15)
    if k == 0:
        return ("str", "FROMNAME", "=", gen_strpat(d, ["U1", "U2", "U12", "Sys Op"] + [m.frm for m in case.msgs]))
    if k == 1:
        return ("str", "TONAME", "=", gen_strpat(d, NAMES))
    if k == 2:
        return ("str", "SUBJECT", "=", gen_strpat(d, SUBJ + ["Bounced message"]))
    if k in (3, 4):
        return ("str", d.choice(["SUBJECT", "TONAME", "FROMNAME", "AREA"]), "|", gen_needle(d, SUBJ + NAMES + ["ECHO.A"]))
    if k == 5:
        return ("str", "AREA", "=", gen_strpat(d, ["ECHO.A", "ECHO.B", ""]))
    if k in (6, 7):
        return ("str", d.choice(["TYPE", "SOURCE"]), "=", d.choice(["NETMAIL", "ECHOMAIL", "netmail", "TOSSED", "EXPORTED", "CRASHMAIL", "C*"]))
    if k in (8, 9):
        return ("text", d.choice(["TEXT", "KLUDGES"]), "|", gen_needle(d, [l.strip("\x01\r") for m in case.msgs for l in m.lines] + WORDS + KLUDGES))
    if k in (10, 11):
        return ("node", "FROMADDR", "=", gen_pat(d, POOL, case.nl))
    if k == 12:
        return ("tonode", "TOADDR", "=", gen_pat(d, POOL, case.nl))
    vs = ["FILEATTACH", "FROMLOCALAKA", "FROMLOCALPOINT", "EXISTSCFG_FROMADDR", "EXISTSCFG_FROMBOSS", "TOLOCALAKA", "TOLOCALPOINT", "EXISTSCFG_TOADDR", "EXISTSCFG_TOBOSS"]
    if case.nl:
        vs += ["EXISTSNL_FROMADDR", "EXISTSNL_FROMBOSS", "EXISTSNL_TOADDR", "EXISTSNL_TOBOSS"]
    v = d.choice(vs)
    return ("tobool" if v.startswith("TO") or "_TO" in v else "bool", v, d.choice(["", "", "=TRUE", "=FALSE", "=true", "=False"]), None)


def gen_expr(d, case, depth=0):
    """-> AST: ("leaf", leaf, not) | ("chain", [(op, node)...], not)"""
    n = d.weighted([(4, 1), (4, 2), (2, 3), (1, 4)] if depth == 0 else [(1, 1), (5, 2), (2, 3)])
    items = []
    for i in range(n):
        op = None if i == 0 else d.choice(["AND", "OR", "and", "or"])
        if depth < 2 and d.bool(.25):
            items.append((op, ("group", gen_expr(d, case, depth + 1), d.bool(.4))))
        else:
            items.append((op, ("leaf", gen_leaf(d, case), d.bool(.25))))
    return items


def render(d, items):
    s = ""
    for op, (kind, x, neg) in items:
        if op:
            s += " " * d.weighted([(8, 1), (1, 2)]) + op + " " * d.weighted([(8, 1), (1, 2)])
        if neg:
            s += d.choice(["NOT ", "not ", "Not "])
        if kind == "group":
            s += "(" + render(d, x) + ")"
        else:
            t, v, op2, data = x
            if d.bool(.1):
                v = v.lower()
            body = v + op2 if data is None else v + op2 + quote(d, data)
            if t in ("tonode", "tobool"):
                body = "(TYPE=NETMAIL and %s)" % body
            s += body
    return s


def malformed(d, case):
    pre = d.choice(["", "TYPE=NETMAIL and ", "NOT (FROMNAME=a or SUBJECT|b) or "])
    pre = pre * d.int(0, 12) if d.bool(.4) else pre
    return pre + d.choice([
        "(TYPE=NETMAIL", "FOO=x", "TYPE~x", "TEXT=abc", "KLUDGES=abc", "FILEATTACH=MAYBE", "FROMADDR|2:*/*.*", "FROMADDR", "SUBJECT", "FROMADDR=hello", "TYPE=NETMAIL AND", "TYPE=NETMAIL OR ",
        "TYPE=NETMAIL SUBJECT=x", "NOT", "%s=1" % ("A" * d.int(50, 99)), "TOLOCALAKA|x", "TYPE=NETMAIL and (SUBJECT=x or )", "\"TYPE=NETMAIL\""] +
        ([] if case.nl else ["EXISTSNL_TOADDR", "FROMADDR=\"REGION 2:20\"", "EXISTSNL_FROMBOSS=TRUE"]))


# ------------------------------------------------------------------ generator
def gen(d):
    case = Cfg(akas=[POOL[0]] + ([POOL[2]] if d.bool(.5) else []), msgs=[])
    case.nl = gen_nodelist(d, [a.boss for a in POOL]) if d.bool(.5) else None
    case.forceintl = d.bool(.3)
    n = d.int(1, 6)
    for i in range(1, n + 1):
        m = Cfg(tok=i, echo=d.bool(.5), src=d.weighted([(3, "toss"), (1, "export")]), frm="U%d" % i + d.choice(["", " " + d.choice(NAMES)]), to=d.choice(NAMES), subj=d.choice(SUBJ),
                attr=0, orig=d.choice(POOL), dest=d.choice(POOL), area=d.choice(["ECHO.A", "ECHO.B"]), link=d.choice(LINKS), fmt=d.choice(["", "@fidonet"]))
        L = []
        if d.bool(.5):
            L.append("\x01MSGID: %s %08x\r" % (m.orig, 0x1000 + i))
        if d.bool(.2):
            L.append("\x01REPLY: 2:5/5 %08x\r" % (0x99000 + i))
        for k in d.subset(KLUDGES, .3):
            L.append("\x01" + k + "\r")
        if not m.echo:
            if d.bool(.12):
                m.attr |= FILEATTACH
                m.subj = "f%d.zip" % i
            L = d.shuffle(L + ["\x01INTL %d:%d/%d %d:%d/%d\r" % (m.dest[:3] + m.orig[:3])] + (["\x01FMPT %d\r" % m.orig.point] if m.orig.point else []) + (["\x01TOPT %d\r" % m.dest.point] if m.dest.point else []))
        for _ in range(d.int(1, 5)):
            L.append(" ".join(d.choice(WORDS) for _ in range(d.int(1, 6))) + "\r")
            if d.bool(.05):
                L[-1] = d.text("ab\xe5 ", 0, 5) + "x" * d.int(100, 250) + d.choice(WORDS) + "\r"
        if d.bool(.04):
            L += ["y" * 99 + "\r"] * d.int(90, 230) + ["needle aabaac\r"]
        if m.echo:
            m.hasorigin = True
            L.append(" * Origin: %s (%s%s)\r" % (d.choice(["some place", "[odd] one", "x"]), m.orig, m.fmt))
        elif d.bool(.3):
            L.append("\x01Via 2:5/5 @20230101.000000 Mailer\r")
        m.lines = L
        case.msgs.append(m)
    case.bad = malformed(d, case) if d.bool(.06) else None
    case.filters = []
    for fi in range(d.weighted([(3, 1), (4, 2), (2, 3), (1, 4)])):
        for _ in range(8):
            ast = gen_expr(d, case)
            txt = render(d, ast)
            if len(txt) < 395:
                break
        else:
            ast = [(None, ("leaf", ("bool", "FILEATTACH", "", None), False))]
            txt = "FILEATTACH"
        cmds = []
        for ci in range(d.weighted([(5, 1), (3, 2), (1, 3)])):
            k = d.weighted([(5, "COPY"), (3, "TWIT"), (3, "KILL"), (4, "WRITELOG"), (2, "WRITEBAD"), (2, "BOUNCEMSG"), (1, "BOUNCEHEADER"), (3, "EXECUTE"), (2, "REMAPMSG"), (2, "MASQUERADE")])
            mark = "F%dC%d" % (fi, ci)
            if k == "COPY":
                cmds.append((k, d.choice(["LOC1", "LOC2", "loc2"])))
            elif k in ("WRITELOG", "BOUNCEMSG", "BOUNCEHEADER"):
                s = mark + "|" + "".join(d.choice(["%a", "%f", "%o", "%t", "%s", "%x", "%d", " text", "%%", " 100%% "]) for _ in range(d.int(0, 6)))
                if d.bool(.04):
                    s += "z" * d.int(50, 150) + "%f%f%f%f%f%f%f%f%f"
                if k != "WRITELOG" and any(m.echo for m in case.msgs):
                    s = s.replace("%d", "")      # echomail has no destination
                cmds.append((k, s[:190]))
            elif k == "WRITEBAD":
                cmds.append((k, mark + " some reason"))
            elif k == "EXECUTE":
                cmds.append((k, (d.weighted([(4, 10), (3, 0), (1, 5), (1, 20), (1, 19)]), d.choice(["%m", "%r", "%R", ""]))))
            elif k == "REMAPMSG":
                cmds.append((k, (d.choice(["*", "New Name", "Somebody with a rather long name x"]), gen_destpat(d, POOL, case.nl))))
            elif k == "MASQUERADE":
                cmds.append((k, (d.choice(["*", "Masked Man"]), d.choice(POOL).full)))
            else:
                cmds.append((k, None))
        case.filters.append((ast, txt, cmds))
    return case


# ------------------------------------------------------------------ model
class Abort(Exception):
    pass


def strpat(p, s):
    p, s = p.lower(), s.lower()
    i = 0
    for ch in p:
        if ch == ord("*"):
            return True
        if i >= len(s) or (ch != ord("?") and ch != s[i]):
            return False
        i += 1
    return i == len(s)


class Model:
    def __init__(self, case, now):
        self.case, self.now = case, now
        self.copies = {"LOC1": [], "LOC2": []}
        self.logs, self.bad, self.execs, self.stored, self.queued, self.fwd = [], [], [], [], [], []
        self.hits = self.misses = 0
        self.depth = 0

    def leaf(self, l, m):
        t, v, op, data = l
        c = self.case
        if t in ("tonode", "tobool") and m.area:
            return False
        frm = m.origin if m.area else m.orig
        if t == "str":
            val = {"FROMNAME": m.frm, "TONAME": m.to, "SUBJECT": m.subj, "AREA": m.area, "TYPE": b"ECHOMAIL" if m.area else b"NETMAIL", "SOURCE": m.source}[v]
            data = L1(data.replace('"', "'"))
            return lowera(data) in lowera(val) if op == "|" else strpat(data, val)
        if t == "text":
            data = lowera(L1(data.replace('"', "'")))
            return any(data in lowera(x) for x in re.findall(rb"[^\r]*\r|[^\r]+", m.text) if (x[:1] == b"\x01") == (v == "KLUDGES"))
        if t in ("node", "tonode"):
            return pat_match(data, frm if t == "node" else m.dest, c.nl)
        a = m.dest if t == "tobool" else frm
        cfgd = LINKS + [UPLINK]
        if v == "FILEATTACH":
            r = bool(m.attr & FILEATTACH)
        elif v.endswith("LOCALAKA"):
            r = a in c.akas
        elif v.endswith("LOCALPOINT"):
            r = bool(a.point) and a.boss in c.akas
        else:
            if v.endswith("BOSS"):
                a = a.boss
            r = a in cfgd if v.startswith("EXISTSCFG") else a in c.nl.entries
        return not r if op.lower() == "=false" else r

    def eval(self, items, m):
        res = None
        for op, (kind, x, neg) in items:
            r = self.eval(x, m) if kind == "group" else self.leaf(x, m)
            r = r != neg
            res = r if op is None else (res and r) if op.lower() == "and" else (res or r)
        return res

    def expand(self, s, m):
        out, i = b"", 0
        frm = m.origin if m.area else m.orig
        sub = {"a": m.area, "s": m.subj, "x": m.date, "f": m.frm, "t": m.to, "o": L1(str(frm)), "d": b"\0" if m.area else L1(str(m.dest))}
        while i < len(s):
            if s[i] == "%" and i + 1 < len(s):
                out += sub.get(s[i + 1], L1(s[i + 1]))
                i += 2
            else:
                out += L1(s[i])
                i += 1
        return out[:399]

    def kludges(self, orig, dest):
        s = b""
        if orig.point:
            s += b"\x01FMPT %d\r" % orig.point
        if dest.point:
            s += b"\x01TOPT %d\r" % dest.point
        if orig.zone != dest.zone or self.case.forceintl:
            s += b"\x01INTL %d:%d/%d %d:%d/%d\r" % (dest[:3] + orig[:3])
        return s

    def filter(self, m):
        for ast, txt, cmds in self.case.filters:
            if not self.eval(ast, m):
                self.misses += 1
                continue
            self.hits += 1
            for k, arg in cmds:
                if k == "KILL":
                    m.kill = True
                elif k == "TWIT":
                    m.twit = True
                elif k == "COPY":
                    self.copies[arg.upper()].append(Cfg(m, text=(b"AREA:" + m.area + b"\r" if m.area else b"") + m.text))
                elif k == "WRITELOG":
                    self.logs.append(self.expand(arg, m))
                elif k == "WRITEBAD":
                    self.bad.append((L1(arg), Cfg(m)))
                elif k == "EXECUTE":
                    self.execs.append((arg, Cfg(m)))
                    if arg[0] == 0:
                        m.kill = True
                    if arg[0] >= 20:
                        raise Abort()
                elif k == "REMAPMSG" and not m.area:
                    old = (m.to, m.dest)
                    if arg[0] != "*":
                        m.to = L1(arg[0])[:35]
                    m.dest = expand(arg[1], m.dest, self.case.nl)
                    t = self.kludges(m.orig, m.dest)
                    t += b"".join(l for l in re.findall(rb"[^\r]*\r", m.text) if l[:5] not in (b"\x01INTL", b"\x01FMPT", b"\x01TOPT"))
                    t += b"\x01Remapped to %s at %s by %s\r" % (m.to, L1(m.dest.full), L1(self.case.akas[0].full))
                    t += b"\x01Message originally to %s at %s\r" % (old[0], L1(old[1].full))
                    m.text = t
                elif k == "MASQUERADE":
                    if arg[0] != "*":
                        m.frm = L1(arg[0])
                    new = A(arg[1])
                    ls = re.findall(rb"[^\r]*\r", m.text)
                    pre = []
                    for kl in (b"\x01MSGID: ", b"\x01REPLY: "):
                        if kl == b"\x01REPLY: " and m.area:
                            continue
                        x = next((l for l in ls if l.startswith(kl)), None)
                        if x and b" " in x[len(kl):]:
                            pre.append(kl + L1(new.full) + b" " + x[len(kl):].split(b" ", 1)[1])
                        ls = [l for l in ls if not l.startswith(kl)]
                    m.orig = new
                    if m.area:
                        m.origin = new
                    ls = [l for l in ls if l[:5] not in (b"\x01INTL", b"\x01FMPT", b"\x01TOPT") and l[:4] != b"\x01Via"]
                    ls = [reorigin(l, new) for l in ls]
                    m.text = b"".join(pre) + (b"" if m.area else self.kludges(new, m.dest)) + b"".join(ls)
                    m.masked = True
                elif k in ("BOUNCEMSG", "BOUNCEHEADER"):
                    self.bounce(m, self.expand(arg, m), k == "BOUNCEHEADER")
                if m.kill:
                    return

    def bounce(self, m, reason, ho):
        if m.source == b"CRASHMAIL":
            return
        to = m.origin if m.area else m.orig
        t = self.kludges(self.case.akas[0], to) + reason[:389] + b"\r\r"
        t += b"This is the header of the message that was bounced:\r\r" if ho else b"This is the message that was bounced:\r\r"
        if m.area:
            t += b"Area: %s\rFrom: %s (%s)\r  To: %s\r" % (m.area, m.frm, L1(to.full), m.to)
        else:
            t += b"From: %s (%s)\r  To: %s (%s)\r" % (m.frm, L1(to.full), m.to, L1(m.dest.full))
        t += b"Subj: %s\rDate: %s\r\r" % (m.subj, m.date)
        if not ho:
            t += m.text.replace(b"\x01", b"@")
        self.net(Cfg(orig=self.case.akas[0], dest=to, frm=b"Sys Op", to=m.frm, subj=b"Bounced message", date=L1(datetime.datetime.fromtimestamp(self.now, datetime.timezone.utc).strftime("%d %b %y  %H:%M:%S")), attr=PVT, text=t, area=b"", source=b"CRASHMAIL", origin=Addr(0, 0, 0), kill=False,
                     twit=False, masked=False, parent=m.date))

    def net(self, m):
        self.filter(m)
        if m.kill:
            return
        if m.dest in self.case.akas:
            if not m.twit and any(l[:1] != b"\x01" for l in re.findall(rb"[^\r]*\r", m.text)):
                self.stored.append(("net", m))
        else:
            self.queued.append(m)

    def echo(self, m, link):
        self.filter(m)
        if m.kill:
            return
        for n in LINKS:
            if n != link:
                self.fwd.append((n, m))
        if link and not m.twit:
            self.stored.append((m.area.decode(), m))


def reorigin(l, new):
    if not l.startswith(b" * Origin"):
        return l
    i = l.find(b"(", 9)
    j = l.find(b")", i + 1)
    return l[:i + 1] + L1(new.full) + l[j:] if i >= 0 and j >= 0 else l


def datestr(tok):
    return "02 Feb 23  01:%02d:%02d" % (tok // 60, tok % 60)


def sys_text(w, case):
    s = "SYSOP \"Sys Op\"\nLOGFILE %s\nLOGLEVEL 1\nDEFAULTZONE 2\n" % q(w.p("log"))
    s += "INBOUND %s\nOUTBOUND %s\nTEMPDIR %s\nCREATEPKTDIR %s\nPACKETDIR %s\n" % tuple(q(w.p(x)) for x in ("in", "out", "tmp", "cp", "pd"))
    for a in case.akas:
        s += "AKA %s\nDOMAIN FidoNet\n" % str(a)
    for n in LINKS + [UPLINK]:
        s += "NODE %s \"\" \"\"\n" % str(n)
    if case.nl:
        s += "NODELIST %s %s\n" % (q(w.p("nl")), "CMNL" if case.nl.v7 is None else "V7+")
    if case.forceintl:
        s += "FORCEINTL\n"
    s += 'FILEATTACH "*:*/*.*"\nROUTE "*:*/*.*" "%s" %s\n' % (UPLINK, case.akas[0])
    s += "AREA BAD %s MSG %s\nNETMAIL NETMAIL %s MSG %s\n" % (case.akas[0], q(w.p("a/bad")), case.akas[0], q(w.p("a/net")))
    for t in ("ECHO.A", "ECHO.B"):
        s += "AREA %s %s MSG %s\nEXPORT %s\n" % (t, case.akas[0], q(w.p("a/" + t)), " ".join(map(str, LINKS)))
    for t in ("LOC1", "LOC2"):
        s += "LOCALAREA %s %s MSG %s\n" % (t, case.akas[0], q(w.p("a/" + t)))
    return s


def filter_text(w, case):
    s = ""
    for ast, txt, cmds in case.filters:
        s += "FILTER " + txt + "\n"
        for k, arg in cmds:
            if arg is None:
                s += k + "\n"
            elif k == "EXECUTE":
                s += "EXECUTE %s\n" % q("sh x.sh %d '%%f' '%%t' '%%o' %s" % arg)
            elif k in ("REMAPMSG", "MASQUERADE"):
                s += "%s %s %s\n" % (k, q(arg[0]), q(arg[1]))
            else:
                s += "%s %s\n" % (k, q(arg))
    if case.bad:
        s += "FILTER " + case.bad + "\nTWIT\n"
    return s


SCRIPT = r'''n=$(ls e | wc -l)
printf '%s\n%s\n%s\n%s\n' "$1" "$2" "$3" "$4" > e/$(printf %04d $n)
if [ -n "$5" ]; then cat "$5" >> e/$(printf %04d $n); fi
exit $1
'''


def nopath(text):
    return b"".join(l for l in re.findall(rb"[^\r]*\r|[^\r]+", text) if not l.startswith((b"\x01PATH:", b"SEEN-BY:")))


def play(case, env):
    w = World(env)
    if case.nl:
        put_nodelist(w, case.nl)
    os.mkdir(w.p("e"))
    w.write("x.sh", SCRIPT)
    w.write("cfg", sys_text(w, case) + filter_text(w, case))
    model = Model(case, w.now)
    base = dict(source=b"TOSSED", kill=False, twit=False, masked=False, parent=None)

    def mail(m, source):
        r = Cfg(base, frm=L1(m.frm), to=L1(m.to), subj=L1(m.subj), date=L1(datestr(m.tok)), attr=m.attr, orig=m.orig, dest=m.dest, text=L1("".join(m.lines)), source=source,
                area=L1(m.area) if m.echo else b"", origin=m.orig if m.echo and m.hasorigin else Addr(0, 0, 0))
        return r
    for m in case.msgs:
        if m.src == "toss":
            t = "".join(m.lines)
            if m.echo:
                t = "AREA:%s\r" % m.area + t + "SEEN-BY: 100/2\r\x01PATH: 100/2\r"
            p = m.link if m.echo else UPLINK
            w.drop("%08x.pkt" % m.tok, make_pkt(pkt_header(p, POOL[0], b"", "2+"), [pkt_msg(p.net if m.echo else m.orig.net, p.node if m.echo else m.orig.node, 100 if m.echo else m.dest.net,
                   1 if m.echo else m.dest.node, m.attr, 0, L1(datestr(m.tok)), L1(m.to), L1(m.frm), L1(m.subj), L1(t))]))
    if case.bad:
        before = sorted(os.listdir(w.p("in")))
        r = w.toss(ok=None)
        if r.returncode == 0:
            raise Fail("configuration with the malformed filter %r was accepted" % case.bad)
        if r.returncode != 10:
            raise Fail("crashmail died with %d reading the malformed filter %r" % (r.returncode, case.bad))
        if sorted(os.listdir(w.p("in"))) != before or os.listdir(w.p("out")):
            raise Fail("mail was processed with a malformed filter in the configuration")
        return w, None
    w.aborted = None
    for m in case.msgs:
        if m.src == "toss":
            x = mail(m, b"TOSSED")
            try:
                model.echo(x, m.link) if m.echo else model.net(x)
            except Abort:
                w.toss()
                w.aborted = ("%08x.pkt" % y.tok for y in case.msgs if y.src == "toss" and y.tok >= m.tok)
                return w, model
    w.toss()
    exps = [m for m in case.msgs if m.src == "export"]
    order = []
    for area in ("net", "ECHO.A", "ECHO.B"):
        n = max([1] + list(read_msgdir(w.p("a", area))))
        for m in exps:
            if (m.area if m.echo else "net") != area:
                continue
            n += 1
            order.append(m)
            os.makedirs(w.p("a", area), exist_ok=True)
            w.write("a/%s/%d.msg" % (area, n), make_msg(L1(m.frm), L1(m.to), L1(m.subj), L1(datestr(m.tok)), m.attr | LOCAL, L1("".join(m.lines)), m.orig, m.dest))
    try:
        for m in order:
            x = mail(m, b"EXPORTED")
            model.echo(x, None) if m.echo else model.net(x)
    except Abort:
        w.aborted = ()
    if exps:
        w.crashmail("SCAN")
    return w, model


def check(case, env):
    w, model = play(case, env)
    if model is None:
        return ["bad", case.bad]
    if w.aborted is not None:
        for f in w.aborted:
            if not os.path.exists(w.p("in", f)):
                raise Fail("a program ended with 20 but packet %s, which was not yet handled, is gone" % f)
        if len(os.listdir(w.p("e"))) != len(model.execs):
            raise Fail("%d programs were run, expected %d (the last one ended with 20)" % (len(os.listdir(w.p("e"))), len(model.execs)))
        return ["abort", [(t, c) for _, t, c in case.filters]]
    # copies
    for t in ("LOC1", "LOC2"):
        got = [m for _, m in sorted(read_msgdir(w.p("a", t)).items())]
        want = model.copies[t]
        if [key(m) for m in got] != [key(m) for m in want]:
            raise Fail("%s holds copies of %r, expected %r" % (t, [key(m) for m in got], [key(m) for m in want]))
        for g, m in zip(got, want):
            if (g.frm, g.to, g.subj) != (m.frm, m.to, m.subj) or nopath(g.text) != m.text:
                raise Fail("copy in %s of %r differs: %r %r, expected %r" % (t, key(m), (g.frm, g.to, g.subj), nopath(g.text), m.text))
    # log
    got = re.findall(rb"F\dC\d\|[^\n]*", w.log().encode("latin-1"))
    want = [x for x in model.logs]
    if len(got) != len(want) or any(not re.fullmatch(re.escape(x).replace(b"\\\x00", b"[0-9:/.]+").replace(b"\0", b"[0-9:/.]+"), g, re.S) for g, x in zip(got, want)):
        raise Fail("WRITELOG wrote %r, expected %r" % (got, want))
    # bad
    got = [m for _, m in sorted(read_msgdir(w.p("a", "bad")).items())]
    if [(re.search(rb"ERROR:([^\r]*)", m.text)[1], key(m)) for m in got] != [(r, key(m)) for r, m in model.bad]:
        raise Fail("BAD area holds %r, expected %r" % ([(m.text[:120], key(m)) for m in got], [(r, key(m)) for r, m in model.bad]))
    for g, (r, m) in zip(got, model.bad):
        if nopath(g.text.split(b"ERROR:" + r + b"\r", 1)[1]) != m.text:
            raise Fail("BAD copy of %r differs: %r, expected %r" % (key(m), g.text, m.text))
    # executed programs
    ex = [open(w.p("e", f), "rb").read() for f in sorted(os.listdir(w.p("e")))]
    if len(ex) != len(model.execs):
        raise Fail("%d programs were run, expected %d" % (len(ex), len(model.execs)))
    for g, (arg, m) in zip(ex, model.execs):
        check_exec(case, g, arg, m)
    # netmail and echomail areas
    for a in ("net", "ECHO.A", "ECHO.B"):
        exps = sorted(datestr(m.tok).encode() for m in case.msgs if m.src == "export" and ("net" if not m.echo else m.area) == a)
        got = [m for _, m in sorted(read_msgdir(w.p("a", a)).items())]
        mine = []
        for m in got:
            if m.date in exps and m.frm == next(L1(x.frm) for x in case.msgs if datestr(x.tok).encode() == m.date) and not any(x.date == m.date and k == a for k, x in model.stored):
                continue
            mine.append(m)
        want = [m for k, m in model.stored if k == a]
        if a == "net":
            # an exported netmail for this system is stored a second time
            for dte in exps:
                x = [m for m in mine if m.date == dte]
                if x and len(x) > len([m for m in want if m.date == dte]):
                    mine.remove(x[0])
        if [key(m) for m in mine] != [key(m) for m in want]:
            raise Fail("area %s holds %r, expected %r" % (a, [key(m) for m in mine], [key(m) for m in want]))
        for g, m in zip(mine, want):
            if (g.frm, g.to, g.subj) != (m.frm, m.to, m.subj) or nopath(g.text) != m.text or (a == "net" and (g.orig, g.dest) != (m.orig, m.dest)):
                raise Fail("message %r in area %s: %r, expected %r" % (key(m), a, (g.frm, g.to, g.subj, str(g.orig), str(g.dest), nopath(g.text)), (m.frm, m.to, m.subj, str(m.orig), str(m.dest), m.text)))
    # what is sent on
    net, echo = [], []
    for to, fl, how, h, m in w.queued_messages(2):
        (echo if m.text.startswith(b"AREA:") else net).append((to, m))
    srt = lambda l: sorted(l, key=repr)
    ge = srt([(to, key(m), m.frm, m.to, m.subj, nopath(m.text)) for to, m in echo])
    we = srt([(n, key(m), m.frm, m.to, m.subj, b"AREA:" + m.area + b"\r" + m.text) for n, m in model.fwd])
    if ge != we:
        raise Fail("echomail sent: %r, expected %r" % ([x for x in ge if x not in we], [x for x in we if x not in ge]))
    vi = lambda t: t[:t.rindex(b"\x01Via ")] if b"\x01Via " in t else t
    gn = srt([(key(m), m.frm, m.to, m.subj if not m.attr & FILEATTACH else b"", (m.onet, m.onode, m.dnet, m.dnode), vi(m.text)) for to, m in net])
    wn = srt([(key(m), m.frm, m.to, m.subj if not m.attr & FILEATTACH else b"", m.orig[1:3] + m.dest[1:3], m.text) for m in model.queued])
    if gn != wn:
        raise Fail("netmail sent: %r, expected %r" % ([x for x in gn if x not in wn], [x for x in wn if x not in gn]))
    check_clean(w)
    if not model.hits or not model.misses:
        return None
    return [[(t, c) for _, t, c in case.filters], len(case.msgs), model.hits]


def key(m):
    """which message this is a version of"""
    if m.subj == b"Bounced message":
        x = re.search(rb"Date: ([^\r]*)\r", m.text)
        return b"bounce of " + (x[1] if x else b"?")
    return m.date


def check_exec(case, g, arg, m):
    code, a, b, o, rest = g.split(b"\n", 4)
    who = "program run for %r" % key(m)
    frm = m.origin if m.area else m.orig
    if (code, a, b, o) != (L1(str(arg[0])), m.frm, m.to, L1(str(frm))):
        raise Fail("%s got %r, expected %r" % (who, (code, a, b, o), (arg[0], m.frm, m.to, str(frm))))
    if arg[1] == "%m":
        x = parse_msg(rest)
        if (x.frm, x.to, x.subj) != (m.frm, m.to, m.subj) or nopath(x.text) != m.text:
            raise Fail("%s got the message %r, expected %r" % (who, (x.frm, x.to, x.subj, nopath(x.text)), (m.frm, m.to, m.subj, m.text)))
    elif arg[1]:
        head, _, body = rest.partition(b"\n\n")
        head = head.split(b"\n")
        want = [b"Subject: " + m.subj]
        if not m.area:
            f = lambda name, ad: (L1(ad.full) + b"@FidoNet" if arg[1] == "%r" else name.replace(b" ", b"_") + L1("@%sf%d.n%d.z%d.fidonet.org" % ("p%d." % ad.point if ad.point else "", ad.node, ad.net, ad.zone)))
            want += [b"From: " + f(m.frm, m.orig) + b" (" + m.frm + b")", b"To: " + f(m.to, m.dest) + b" (" + m.to + b")"]
        ls = re.findall(rb"[^\r]*\r", m.text)
        want += [b"X-Fido-" + l[1:-1] for l in ls if l[:1] == b"\x01" and len(l) > 2]
        for x in want:
            if x not in head:
                raise Fail("%s: header %r lacks %r" % (who, head, x))
        t = b"".join(b"".join(l.split()) for l in ls if l[:1] != b"\x01")
        if b"".join(body.split()) != t:
            raise Fail("%s: text %r, expected %r" % (who, body, t))


def describe(case):
    return {"akas": [str(a) for a in case.akas], "filters": [(t, c) for _, t, c in case.filters], "malformed": case.bad, "forceintl": case.forceintl, "nodelist": (case.nl.v7, case.nl.lines) if case.nl else None,
            "messages": [(m.tok, m.src, m.area if m.echo else "netmail", m.frm, m.to, m.subj, str(m.orig), str(m.dest), m.attr, "".join(m.lines)[:300]) for m in case.msgs]}
