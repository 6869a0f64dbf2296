"""C25: a configuration means the same however it is laid out, and a wrong one is refused as a whole."""
import importlib, random
from pbt.afgen import *
from pbt.core import Fail, Skip

L1 = lambda s: s.encode("latin-1")

ID = "C25"
BUDGET = {"quick": 12000, "thorough": 60000}
RULE = ("half of the cases: a case of another property (echomail, security, duplicates, netmail, bounces, outbound, export, bases, rescan, AreaFix, filters) whose configuration is rewritten (keyword and switch case, blanks, tabs, "
        "quotes, escapes, comments, blank lines, CRLF, missing last newline, settings moved to other places, node lists split, explicit .0 points) and must still give exactly the results the model of that property expects. "
        "The other half: a valid configuration with waiting mail in every queue and one injected error (unknown keyword, missing argument, bad address, pattern, group, flavour, mode, switch, level, unknown AKA, node, packer, base or "
        "nodelist type, a setting with nothing to belong to, a pass-through area where none is allowed, contradictory areas, bad filter), run with a random command: it must fail, name the line, and change no file. "
        "non-trivial = the underlying case is non-trivial, or the error was refused")
ASSUMPTIONS = ["configuration lines of at most 3900 bytes (the program reads 4000 at a time)"]

SUBS = ["c01", "c02", "c03", "c06", "c07", "c08", "c09", "c10", "c12", "c13", "c14", "c15", "c17"]
MODS = {}


def sub(name):
    if name not in MODS:
        MODS[name] = importlib.import_module("props." + name)
    return MODS[name]


# ---------------------------------------------------------------- another layout of the same settings
FREE1 = {"INBOUND", "OUTBOUND", "SYSOP", "LOGFILE", "LOGLEVEL", "STATSFILE", "DUPEFILE", "DUPEMODE", "LOOPMODE", "TEMPDIR", "CREATEPKTDIR", "PACKETDIR", "MAXPKTSIZE", "MAXBUNDLESIZE",
         "DEFAULTZONE", "AREAFIXMAXLINES", "JAM_MAXOPEN", "NODELIST", "AREAFIXHELP", "BEFORETOSS", "BEFOREPACK"}
FLAGS = {"STRIPRE", "FORCEINTL", "BOUNCEHEADERONLY", "REMOVEWHENFEED", "INCLUDEFORWARD", "NOMAXOUTBOUNDZONE", "ALLOWKILLSENT", "FLOWCRLF", "NOEXPORTNETMAIL", "NOROUTE", "ANSWERRECEIPT", "ANSWERAUDIT",
         "CHECKSEENBY", "CHECKPKTDEST", "PATH3D", "IMPORTEMPTYNETMAIL", "IMPORTAREAFIX", "AREAFIXREMOVE", "NODIRECTATTACH", "BOUNCEPOINTS", "IMPORTSEENBY", "WEEKDAYNAMING", "ADDTID", "ALLOWRESCAN",
         "FORWARDPASSTHRU", "MSG_HIGHWATER", "MSG_WRITEBACK", "JAM_HIGHWATER", "JAM_LINK", "JAM_QUICKLINK"}
ADDRS = {"AKA": 1, "NODE": 1, "PKTFROM": 1, "IMPORT": 99, "BANNED": 99, "EXPORT": 99, "ADDNODE": 0}


def mixed(r, s):
    x = r.random()
    return s.lower() if x < .3 else s.capitalize() if x < .5 else "".join(r.choice((ch.lower(), ch.upper())) for ch in s) if x < .8 else s


def anycase(k, i):
    """is word i of a statement k compared without regard to case?"""
    return (k == "NODE" and i >= 4 or k in ("AREA", "NETMAIL", "LOCALAREA") and i == 3 or k == "NODELIST" and i == 2 or k == "CHANGE" and i in (1, 3) or k in ("DUPEMODE", "LOOPMODE") and i == 1
            or k == "AREALIST" and i >= 3 or k in ("GROUP", "DEFAULTGROUP", "GROUPNAME") and i == 1 or k == "AREAFIXINFO" and i >= 2 or k == "REMOTEAF" and i >= 3)


def word(r, x):
    """x written as one word of a line"""
    plain = x and x[0] != '"' and not any(ch in ' \t\\' for ch in x)
    if plain and r.random() < .6:
        return x
    if x and x[0] != '"' and not any(ch in "\r\n" for ch in x) and r.random() < .25:
        return "".join("\\" + ch if ch in ' \t\\' or r.random() < .1 else ch for ch in x)
    return '"' + "".join("\\" + ch if ch in '"\\' or r.random() < .03 else ch for ch in x) + '"'


def relayout(seed, text):
    r = random.Random(seed)
    lines = [l for l in text.split("\n") if l.strip()]
    free, rest = [], []
    move = r.random() < .6
    for l in lines:
        ws = cfgparse.words(l)
        k = ws[0].upper()
        if move and (k in FLAGS or k in FREE1 and sum(cfgparse.words(x)[0].upper() == k for x in lines) == 1) and r.random() < .5:
            free.append(l)
        else:
            rest.append(l)
    for l in free:
        rest.insert(r.randint(0, len(rest)), l)
    out = []
    for l in rest:
        ws = cfgparse.words(l)
        k = ws[0].upper()
        if k.startswith(";"):
            out.append(l)
            continue
        todo = [ws]
        if k in ("EXPORT", "BANNED", "IMPORT", "ADDNODE", "REMNODE") and len(ws) > 2 and r.random() < .4 and all(":" in x for x in ws[1:]):
            i = r.randrange(2, len(ws))
            todo = [ws[:i], ws[:1] + ws[i:]]
        for ws in todo:
            while r.random() < .15:
                out.append(r.choice(["", " ", "\t \t", ";", "; text", "  ; EXPORT 1:1/1", ";AREA X 1:1/1", "\t;\"", "; \\", ";" + "x" * r.choice([29, 30, 31, 200, 3000])]))
            key = mixed(r, ws[0])
            lead = r.choice(["", "", "", " ", "\t", "    \t"])
            if k == "FILTER":
                m = re.match(r"\s*\S+\s+(.*)", l)
                o = lead + key + r.choice([" ", "  ", "\t"]) + (m.group(1) if m else "")
                out.append(o if len(o) < 3900 else l)
                continue
            o = lead + key
            for i, x in enumerate(ws[1:], 1):
                if i == 1 and k in ("INBOUND", "OUTBOUND", "TEMPDIR", "CREATEPKTDIR", "PACKETDIR") and x and not x.endswith("/") and r.random() < .3:
                    x += "/"
                if anycase(k, i):
                    x = mixed(r, x)
                if i <= ADDRS.get(k, 0) and re.fullmatch(r"[!@%]?\d+:\d+/\d+(\.0)?", x) and r.random() < .4:
                    x = x[:-2] if x.endswith(".0") else x + ".0"
                o += r.choice([" ", " ", "  ", "\t", " \t "]) + word(r, x)
            o += r.choice(["", "", "", " ", "\t", "   "])
            out.append(o if len(o) < 3900 else l)
    nl = r.choice(["\n", "\n", "\r\n"])
    end = nl if r.random() < .7 or nl == "\r\n" else ""
    return nl.join(out) + end


# ---------------------------------------------------------------- errors
BADADDR = ["foo", "2:abc/3", "2:3/4x", "1:2/3/4", "1:2:3", "1:2/3.4.5", "-1:2/3", "2:2/3@fidonet", "1.2:3"]
BADPAT = ["foo", "2:abc/3", "2:3/4x", "1:2/3/4", "1:2:3", "1:2/3.4.5", "ZONES 2", "HUBS", "2:2/-"]
MIN = {"INBOUND": 1, "OUTBOUND": 1, "SYSOP": 1, "BEFORETOSS": 1, "BEFOREPACK": 1, "AREAFIXHELP": 1, "LOGFILE": 1, "LOGLEVEL": 1, "STATSFILE": 1, "DUPEMODE": 1, "LOOPMODE": 1, "TEMPDIR": 1, "CREATEPKTDIR": 1, "PACKETDIR": 1,
       "AKA": 1, "DOMAIN": 1, "PKTFROM": 1, "DEFAULTGROUP": 1, "REMOTESYSOP": 1, "DESCRIPTION": 1, "GROUP": 1, "KEEPNUM": 1, "KEEPDAYS": 1, "AREAFIXNAME": 1, "MAXPKTSIZE": 1, "MAXBUNDLESIZE": 1, "DEFAULTZONE": 1,
       "AREAFIXMAXLINES": 1, "JAM_MAXOPEN": 1, "AREAFIXINFO": 1, "NODELIST": 2, "DUPEFILE": 2, "GROUPNAME": 2, "REMOTEAF": 2, "AREALIST": 2, "AREA": 2, "NETMAIL": 4, "LOCALAREA": 4, "NODE": 3, "ROUTE": 3, "CHANGE": 3, "PACKER": 4}
FULL = {"CHANGE": ["CHANGE", "Normal", "2:*/*.*", "Crash"], "LOOPMODE": ["LOOPMODE", "LOG"], "JAM_MAXOPEN": ["JAM_MAXOPEN", "5"], "MAXPKTSIZE": ["MAXPKTSIZE", "100"], "AREAFIXMAXLINES": ["AREAFIXMAXLINES", "10"],
        "BEFORETOSS": ["BEFORETOSS", "true"], "BEFOREPACK": ["BEFOREPACK", "true"], "MAXBUNDLESIZE": ["MAXBUNDLESIZE", "100"], "NODELIST": ["NODELIST", "nl", "CMNL"], "GROUPNAME": ["GROUPNAME", "A", "x"], "AREAFIXNAME": ["AREAFIXNAME", "AreaFix"],
        "AREAFIXHELP": ["AREAFIXHELP", "help"]}
NEEDNODE = {"PKTFROM": "2:2/2", "AREAFIXINFO": "pw", "DEFAULTGROUP": "A", "REMOTEAF": "AreaFix pw", "REMOTESYSOP": "Joe"}
NEEDAREA = {"UNCONFIRMED": "", "MANDATORY": "", "DEFREADONLY": "", "IGNOREDUPES": "", "IGNORESEENBY": "", "EXPORT": "2:2/2", "IMPORT": "2:2/2", "BANNED": "2:2/2", "DESCRIPTION": "x", "GROUP": "A", "KEEPNUM": "5", "KEEPDAYS": "5"}
NEEDAKA = {"DOMAIN": "fidonet", "ADDNODE": "2:2/2", "REMNODE": "2/2"}
NEEDFILTER = {"KILL": "", "TWIT": "", "COPY": "LOC", "EXECUTE": "true", "WRITELOG": "x", "WRITEBAD": "x", "BOUNCEMSG": "x", "BOUNCEHEADER": "x", "REMAPMSG": "\"*\" 2:2/2", "MASQUERADE": "\"*\" 2:2/2"}


GOODF = ["TYPE=ECHOMAIL", "type=netmail and not FILEATTACH", "(FROMNAME=x or TONAME|\"y z\") and not (SUBJECT=a?c)", "TOLOCALAKA", "TEXT|x", "KLUDGES|MSGID", "FROMADDR=2:2/*", "EXISTSCFG_FROMADDR=FALSE"]
BADF = ["(TYPE=ECHOMAIL", "FROMNAME", "TYPE=ECHOMAIL and", "FOO=x", "TYPE=ECHOMAIL or FOO=x", "not", "FROMADDR|2:2/2", "TOADDR=foo", "FILEATTACH=MAYBE", "FILEATTACH|TRUE", "()", "TEXT=x", "and",
        "TYPE=ECHOMAIL TYPE=NETMAIL", "TYPE=NETMAIL and (FILEATTACH or )", "EXISTSNL_FROMADDR", "not EXISTSNL_TOBOSS", "TYPE=NETMAIL or or FILEATTACH", "FROMNAME= x", "=x", "KLUDGES"]


def inject(r, lines):
    """-> (class, lines with one error, 1-based line the program must name, or None for an error of the whole)"""
    ks = [cfgparse.words(l)[0].upper() if l.strip() else "" for l in lines]
    first = lambda *kw: min([i for i, k in enumerate(ks) if k in kw] or [len(lines)])
    after = lambda ok: [i + 1 for i, k in enumerate(ks) if ok(i, k)]
    akas = [cfgparse.words(l)[1] for l, k in zip(lines, ks) if k == "AKA"]
    nodes = [cfgparse.words(l)[1] for l, k in zip(lines, ks) if k == "NODE"]
    n = len(lines)
    put = lambda i, s: lines[:i] + [s] + lines[i:]
    anywhere = r.randint(0, n)
    akaline = r.randint(min(i for i, k in enumerate(ks) if k == "AKA") + 1, n)
    kinds = ["keyword", "missing", "missing", "missing", "addr", "addr", "pattern", "unknown", "unknown", "value", "value", "context", "context", "type", "whole", "whole", "whole", "switch", "command", "command"]
    kind = r.choice(kinds)
    echo = after(lambda i, k: k == "AREA" and cfgparse.words(lines[i])[1].upper() not in ("BAD",))
    notecho = after(lambda i, k: k in ("NETMAIL", "LOCALAREA") or k == "AREA" and cfgparse.words(lines[i])[1].upper() == "BAD")
    notnet = after(lambda i, k: k in ("AREA", "LOCALAREA"))
    anode = after(lambda i, k: k == "NODE")
    if kind == "keyword":
        s = r.choice(["FOO", "AREAS X 2:2/2", "EXPORTS 2:2/2", "NODES", "foo bar", "AKA2", "KEEP 5", "\"AREA X\" 2:2/2", "LOGLEVELS 3", "#comment", "// x", "STRIP", "AREAFIX", "MSG", "FILTERS x", "x" * 29, "="])
        return s.split(" ")[0], put(anywhere, s), anywhere + 1
    if kind == "missing":
        k = r.choice(sorted(MIN))
        have = [i for i, x in enumerate(ks) if x == k]
        if have and r.random() < .7 or k in ("INBOUND", "OUTBOUND", "SYSOP"):
            if not have:
                raise Skip("no " + k)
            i = r.choice(have)
            ws = cfgparse.words(lines[i])
            if k == "AREA" and len(ws) > 4 and r.random() < .5:
                m = 4
            else:
                m = r.randint(0, min(MIN[k], len(ws) - 1) - 1) + 1
            s = " ".join(ws[:1] + [q(x) for x in ws[1:m]])
            if m <= MIN[k] or m == 4:
                return "missing " + k, lines[:i] + [s] + lines[i + 1:], i + 1
            raise Skip("not cut")
        if k in FULL:
            ws = FULL[k]
            s = " ".join(ws[:r.randint(1, MIN[k])])
            if k == "CHANGE" and len(s.split()) == 3:
                s = 'CHANGE Normal "2:*/*.*"'
            return "missing " + k, put(anywhere, s), anywhere + 1
        if k in NEEDNODE and anode:
            i = r.choice(anode)
            return "missing " + k, put(i, k if k != "REMOTEAF" else r.choice([k, k + " AreaFix"])), i + 1
        if k in NEEDAREA and echo:
            i = r.choice(echo)
            return "missing " + k, put(i, k), i + 1
        if k in MIN and k in ("AKA", "PACKER", "NODE", "ROUTE", "AREA", "AREALIST", "LOGLEVEL", "DUPEMODE", "DUPEFILE", "LOGFILE", "STATSFILE", "TEMPDIR", "PACKETDIR", "CREATEPKTDIR", "DEFAULTZONE"):
            return "missing " + k, put(anywhere, k), anywhere + 1
        raise Skip("no place for " + k)
    if kind == "addr":
        b = r.choice(BADADDR)
        k = r.choice(["AKA", "NODE", "AREA", "NETMAIL", "PKTFROM", "ADDNODE", "EXPORT", "IMPORT", "BANNED", "AREALIST", "ROUTE"])
        if k in ("AKA",):
            return "address " + k, put(anywhere, "AKA " + b), anywhere + 1
        if k == "NODE":
            return "address " + k, put(anywhere, 'NODE %s "" ""' % b), anywhere + 1
        if k in ("AREA", "NETMAIL"):
            return "address " + k, put(anywhere, "%s X.ERR %s MSG xpath" % (k, b)), anywhere + 1
        if k == "AREALIST":
            return "address " + k, put(anywhere, "AREALIST %s file" % b), anywhere + 1
        if k == "ROUTE":
            return "address " + k, put(akaline, 'ROUTE "*" "*" %s' % b), akaline + 1
        if k == "ADDNODE":
            return "address " + k, put(akaline, "ADDNODE %s%s" % (r.choice(["", "2:2/2 "]), b)), akaline + 1
        if k == "PKTFROM" and anode:
            i = r.choice(anode)
            return "address " + k, put(i, "PKTFROM " + b), i + 1
        if k == "EXPORT" and echo:
            i = r.choice(echo)
            return "address " + k, put(i, "EXPORT %s%s" % (r.choice(["", "!", "@", "%"]), b)), i + 1
        if k == "BANNED" and echo:
            i = r.choice(echo)
            return "address " + k, put(i, "BANNED " + b), i + 1
        nets = after(lambda i, k: k == "NETMAIL")
        if k == "IMPORT" and nets:
            i = r.choice(nets)
            return "address " + k, put(i, "IMPORT " + b), i + 1
        raise Skip("no place for " + k)
    if kind == "command":
        if r.random() < .1:
            return "FILTER without expression", put(anywhere, "FILTER" + r.choice(["", " ", "\t"])), anywhere + 1
        if r.random() < .2:
            i = akaline
            b = r.choice(["foo", "2:2/2", "2/2.2", "2/x", "2/3x", "2/2/2"])
            return "pattern REMNODE", put(i, r.choice(["REMNODE ", "REMNODE 2/* ", "remnode 2/2 3/3 "]) + b), i + 1
        k = r.choice(["COPY", "EXECUTE", "WRITELOG", "WRITEBAD", "BOUNCEMSG", "BOUNCEHEADER", "REMAPMSG", "MASQUERADE"])
        s = k
        if k in ("REMAPMSG", "MASQUERADE"):
            s = r.choice([k, k + ' "*"', k + ' "x y"'] + [k + ' "*" "%s"' % b for b in BADPAT if not b.startswith(("HUB", "ZONES"))])
        pre = ["FILTER " + r.choice(GOODF)] + (["KILL"] if r.random() < .3 else [])
        return "command " + s, lines[:anywhere] + pre + [s] + lines[anywhere:], anywhere + len(pre) + 1
    if kind == "pattern":
        b = r.choice(BADPAT)
        s = r.choice(['ROUTE "%s" "*" ' + akas[0], 'ROUTE "*" "%s" ' + akas[0], 'CHANGE "*" "%s" Hold', 'BOUNCE "%s"', 'BOUNCE "2:*/*.*" "%s"', 'FILEATTACH "%s"', 'FILEATTACH "*" "%s"'])
        return "pattern " + s.split()[0], put(anywhere, s % b), anywhere + 1
    if kind == "unknown":
        x = "31:31/31.31"
        k = r.choice(["AREA", "NETMAIL", "LOCALAREA", "ROUTE", "EXPORT", "BANNED", "AREALIST", "packer", "base", "nodelist"])
        if k in ("AREA", "NETMAIL", "LOCALAREA"):
            return "unknown AKA " + k, put(anywhere, "%s X.ERR %s MSG xpath" % (k, x)), anywhere + 1
        if k == "ROUTE":
            return "unknown AKA ROUTE", put(anywhere, 'ROUTE "*" "*" ' + x), anywhere + 1
        if k in ("EXPORT", "BANNED"):
            if not echo:
                raise Skip("no echo area")
            i = r.choice(echo)
            return "unknown node " + k, put(i, k + " " + (r.choice(["", nodes[0] + " "]) if last(ks, "NODE") < i else "") + x), i + 1
        if k == "AREALIST":
            return "unknown node AREALIST", put(anywhere, "AREALIST %s file" % x), anywhere + 1
        if k == "packer":
            return "unknown packer", put(anywhere, 'NODE 9:9/9 NOSUCH ""'), anywhere + 1
        if k == "base":
            i = r.randint(last(ks, "AKA") + 1, n)
            return "unknown base", put(i, "AREA X.ERR %s %s xpath" % (akas[0], r.choice(["SQUISH", "MSGX", "JA", "HUDSON", "\"\""]))), i + 1
        return "unknown nodelist type", put(anywhere, "NODELIST nl " + r.choice(["V8", "CMNLX", "\"\"", "CMN"])), anywhere + 1
    if kind == "switch":
        k = r.choice(["NODE", "AREALIST", "REMOTEAF"])
        if k == "NODE":
            return "switch NODE", put(anywhere, 'NODE 9:9/9 "" pw %s' % r.choice(["FOO", "NOTIFY FOO", "CRASHED", "PASSIVE NOTIFYX", "HOLD,CRASH"])), anywhere + 1
        if k == "AREALIST":
            i = r.randint(last(ks, "NODE") + 1, n)
            return "switch AREALIST", put(i, "AREALIST %s file %s" % (r.choice(nodes), r.choice(["FOO", "FORWARD FOO", "GROUP", "GROUP 1", "DESC GROUP", "FORWARDED"]))), i + 1
        if not anode:
            raise Skip("no nodes")
        i = r.choice(anode)
        return "switch REMOTEAF", put(i, "REMOTEAF AreaFix pw %s" % r.choice(["PLUS", "NEEDSPLUS X"])), i + 1
    if kind == "value":
        s = r.choice(["LOGLEVEL 0", "LOGLEVEL 7", "LOGLEVEL -3", "LOGLEVEL x", "LOGLEVEL 100", "DUPEMODE FOO", "DUPEMODE KILLED", "LOOPMODE FOO", "LOOPMODE BAD", "LOOPMODE LOG+", 'CHANGE FOO "*" Hold', 'CHANGE Normal,FOO "*" Hold',
                      'CHANGE "*" "*" FOO', 'CHANGE Crash "*" "*"', "GROUPNAME 1 x", "GROUPNAME - x", "GROUPNAME \"\" x", "area:GROUP 1", "area:GROUP a1", "node:DEFAULTGROUP 1", "node:AREAFIXINFO pw A1", "node:AREAFIXINFO pw A \"B C\"",
                      "node:AREAFIXINFO pw A B C-"])
        if s.startswith("area:"):
            if not echo:
                raise Skip("no echo area")
            i = r.choice(echo)
            return "value " + s, put(i, s[5:]), i + 1
        if s.startswith("node:"):
            i = r.choice(anode)
            return "value " + s, put(i, s[5:]), i + 1
        return "value " + s, put(anywhere, s), anywhere + 1
    if kind == "context":
        t, kws = r.choice([(NEEDNODE, ("NODE",)), (NEEDAREA, ("AREA", "NETMAIL", "LOCALAREA")), (NEEDAKA, ("AKA",)), (NEEDFILTER, ("FILTER",))])
        k = r.choice(sorted(t))
        i = r.randint(0, first(*kws))
        return "context " + k, put(i, (k + " " + t[k]).strip()), i + 1
    if kind == "type":
        k = r.choice(["EXPORT", "IMPORT", "NETMAIL", "LOCALAREA", "BAD"])
        if k == "EXPORT" and notecho:
            i = r.choice(notecho)
            return "EXPORT in another area", put(i, "EXPORT " + nodes[0]), i + 1
        if k == "IMPORT" and notnet:
            i = r.choice(notnet)
            return "IMPORT in another area", put(i, "IMPORT " + nodes[0]), i + 1
        if k in ("NETMAIL", "LOCALAREA", "BAD"):
            i = r.randint(last(ks, "AKA") + 1, n)
            return "pass-through " + k, put(i, "%s %s" % ("AREA BAD" if k == "BAD" else k + " X.ERR", akas[0])), i + 1
        raise Skip("no place for " + k)
    # errors of the configuration as a whole
    end = lambda *s: lines + list(s)
    hp = r.choice(['"HUB 2:2/2"', '"REGION 2:20"', '"hub 2:2/*"', '"region 2:*"'])
    dp = r.choice(["HUB", "REGION", "hub"])
    k = r.choice(["noaka", "path", "path", "route", "route2", "bounce", "attach", "change", "remap", "copy1", "copy2", "filter", "filternl"])
    if k == "noaka":
        drop = {"AKA", "DOMAIN", "ADDNODE", "REMNODE", "AREA", "NETMAIL", "LOCALAREA", "ROUTE"} | set(NEEDAREA)
        return "no AKA", [l for l, x in zip(lines, ks) if x not in drop], None
    if k == "path":
        have = [i for i, x in enumerate(ks) if x in ("AREA", "NETMAIL", "LOCALAREA") and len(cfgparse.words(lines[i])) > 4 and not cfgparse.words(lines[i])[1].upper().startswith("DEFAULT")]
        ws = cfgparse.words(lines[r.choice(have)])
        pth = ws[4] if r.random() < .7 else ws[4].swapcase()
        return "same path twice", end("%s X.ERR %s %s %s" % (r.choice(["AREA", "NETMAIL", "LOCALAREA"]), akas[0], r.choice(["MSG", "JAM"]), q(pth))), None
    t = {"route": "ROUTE %s \"*\" %s" % (hp, akas[0]), "route2": 'ROUTE "*:*/*.*" %s %s' % (dp, akas[0]), "bounce": "BOUNCE " + hp, "attach": "FILEATTACH " + hp, "change": 'CHANGE "*" %s Hold' % hp}
    if k in t:
        return "nodelist needed: " + k, end(t[k]), None
    loc = [cfgparse.words(l)[1] for l, x in zip(lines, ks) if x in ("AREA", "NETMAIL")]
    t = {"remap": "REMAPMSG \"*\" " + dp, "copy1": "COPY NO.SUCH.AREA", "copy2": "COPY " + q(r.choice(loc))}
    if k in t:
        return "filter: " + k, end("FILTER " + r.choice(GOODF), t[k]), None
    if k == "filternl":
        return "filter: nodelist needed", end("FILTER " + r.choice(["FROMADDR=%s", "toaddr=%s", "TYPE=NETMAIL and FROMADDR=%s", "(not TOADDR=%s) or FILEATTACH"]) % hp, "KILL"), None
    return "filter: bad expression", end("FILTER " + r.choice(BADF), r.choice(["KILL", "TWIT", "WRITELOG x"])), None


def last(ks, k):
    return max([i for i, x in enumerate(ks) if x == k] or [0])


# ---------------------------------------------------------------- cases
def gen(d):
    if d.bool(.45):
        name = d.choice(SUBS)
        return Cfg(kind="layout", sub=name, mess=d.int(0, 1 << 30), case=sub(name).gen(d))
    c = gen_af_system(d)
    return Cfg(kind="error", c=c, seed=d.int(0, 1 << 30),
               cmd=d.choice([["TOSS"], ["TOSS"], ["SCAN"], ["SENDLIST", "ALL"], ["SENDHELP", "ALL"], ["SCANAREA", "NET"], ["TOSSDIR", "in"], ["REMOVE", "NET"], []]))


def snap(w):
    out = {}
    for rt, ds, fs in os.walk(w.dir):
        for f in ds:
            out[os.path.relpath(os.path.join(rt, f), w.dir)] = None
        for f in fs:
            p = os.path.join(rt, f)
            out[os.path.relpath(p, w.dir)] = open(p, "rb").read()
    return out


def check(case, env):
    if case.kind == "layout":
        m = sub(case.sub)
        env.relayout = lambda t: relayout(case.mess, t)
        try:
            k = m.check(case.case, env)
        except Fail as e:
            raise Fail("with the configuration written differently, %s: %s" % (m.ID, e))
        finally:
            env.relayout = None
        return None if k is None else ["layout", case.sub, k]
    c = case.c
    w = World(env)
    af_setup(w, c)
    text = cfgtext(w, c)
    # mail waiting everywhere
    n = c.nodes[0]
    w.drop("00000001.pkt", make_pkt(pkt_header(n.addr, c.akas[0].addr, L1(n.pw)), [netmail(n.addr, c.akas[0].addr)]))
    for a in c.areas:
        if a.kind in ("net", "echo") and a.mb == "MSG":
            os.makedirs(w.p("a", a.path), exist_ok=True)
            w.write("a/%s/90.msg" % a.path, make_msg(b"Me", b"You", b"waiting", b"01 Jan 23  10:00:00", LOCAL, b"text\r"))
    w.write("tmp/stale.newpkt", "x")
    w.write("cp/stale.newpkt", "x")
    r = random.Random(case.seed)
    lines = [l for l in text.split("\n") if l.strip()]
    what, bad, line = inject(r, lines)
    if r.random() < .3:      # blank and comment lines count too
        k = r.randint(0, len(bad))
        new = r.choice([[""], ["; c"], ["", ";", " "], ["\t"] * 5])
        bad = bad[:k] + new + bad[k:]
        if line and k < line:
            line += len(new)
    nl = r.choice(["\n", "\n", "\n", "\r\n"])
    w.write("cfg", (nl.join(bad) + nl).encode("latin-1"))
    before = snap(w)
    p = w.run("crashmail", "SETTINGS", w.p("cfg"), *[w.p(x) if x == "in" else x for x in case.cmd], ok=None)
    out = p.stdout.decode("latin-1")
    who = "configuration with error (%s) in line %s: %r" % (what, line, bad[line - 1] if line else bad[-2:])
    if p.returncode != 10:
        raise Fail("%s: crashmail %s exited with %d: %s" % (who, " ".join(case.cmd), p.returncode, out[-300:]))
    m = re.search(r"on line (\d+)", out)
    if line and (not m or int(m.group(1)) != line):
        raise Fail("%s: message names %s: %s" % (who, m and m.group(0), out[-300:]))
    if "onfiguration error" not in out:
        raise Fail("%s: no message about the configuration: %s" % (who, out[-300:]))
    after = snap(w)
    if after != before:
        d = sorted(set(before) ^ set(after)) + sorted(x for x in before if x in after and before[x] != after[x])
        raise Fail("%s: crashmail %s changed %s" % (who, " ".join(case.cmd), ", ".join(d[:6])))
    # the same configuration without the error is accepted
    w.write("cfg", text + "FILTER %s\nKILL\n" % r.choice(GOODF))
    w.run("crashmail", "SETTINGS", w.p("cfg"), ok=(0,))
    return ["error", what, line, case.cmd, len(lines)]


def netmail(a, b):
    return pkt_msg(a.net, a.node, b.net, b.node, 1, 0, b"01 Jan 23  10:00:00", b"You", b"Me", b"hello", L1("\x01INTL %d:%d/%d %d:%d/%d\rtext\r" % (b[:3] + a[:3])))


def describe(case):
    if case.kind == "layout":
        return {"layout": case.mess, "sub": case.sub, "case": sub(case.sub).describe(case.case)}
    return {"error seed": case.seed, "command": case.cmd, "system": str(case.c)[:1500]}
