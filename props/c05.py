"""C05: whatever the files contain, the programs end normally and stay within their memory."""
import os
import re
import struct
import subprocess
from pbt.fido import *
from pbt.tossgen import *
from pbt.core import Fail
from pbt import afgen, netgen, v7

ID = "C05"
BUDGET = {"quick": 4000, "thorough": 120000}
VARIANTS = ["asan"]
RULE = ("valid packets, bundles, MSG and JAM bases, AreaFix requests, area lists, configurations, nodelists and indexes, dupe/stats/flow files, command line texts, built from keywords and fields at and beyond their limits "
        "and then damaged (bytes changed, cut, doubled, blown up), given to the program that reads them (built with address and undefined behaviour checkers); non-trivial = the damaged input was read, distinct by content")
L1 = lambda s: s.encode("latin-1") if isinstance(s, str) else s
LENS = [0, 1, 2, 7, 8, 9, 19, 20, 21, 29, 30, 35, 36, 37, 49, 50, 69, 70, 71, 72, 73, 78, 79, 80, 81, 98, 99, 100, 101, 120, 148, 149, 150, 151, 180, 197, 198, 199, 200, 201, 202, 254, 255, 256, 299, 300, 301,
        399, 400, 401, 511, 512, 600, 999, 1000, 1001, 1500, 3999, 4000, 4001, 5000, 9990, 9999, 10000, 10001, 20000]
NUMS = ["0", "1", "-1", "65535", "65536", "32768", "99999", "4294967295", "4294967296", "99999999999999999999", "", "x", "1.", "*"]


REPS = [2, 3, 9, 10, 11, 12, 20, 21, 30, 49, 50, 51, 60]


def blob(d, hi=None, ch=None):
    n = d.choice(LENS)
    if hi is not None:
        n = min(n, hi)
    b = d.weighted([(4, b"A"), (1, b"x y "), (1, b"1"), (1, b"1/2 "), (1, b"\xff"), (1, b"%s%n "), (1, b"\x01"), (1, b"/"), (1, b"\\"), (1, b'"'), (1, b"("), (1, b"2:2/2.2 "), (1, b"a/b/"), (1, b"?"), (1, b"$0")]) if ch is None else ch
    return (b * n)[:n]


def num(d):
    return L1(d.choice(NUMS)) if d.bool(.6) else L1(str(d.int(0, 70000)))


def addr(d, c=None):
    w = d.weighted([(4, "good"), (3, "num"), (1, "blob"), (1, "part")])
    if w == "good" and c:
        return L1(str(d.choice([x.addr for x in c.nodes + c.akas]).full))
    if w == "blob":
        return blob(d, 600)
    a = [num(d) for _ in range(4)]
    if w == "part":
        return b"".join(d.subset([a[0], b":", a[1], b"/", a[2], b".", a[3]], .6))
    return a[0] + b":" + a[1] + b"/" + a[2] + b"." + a[3]


KW = [b"\x01INTL ", b"\x01FMPT ", b"\x01TOPT ", b"\x01MSGID: ", b"\x01REPLY: ", b"\x01PID: ", b"\x01FLAGS ", b"\x01Via ", b"\x01PATH: ", b"SEEN-BY: ", b"SEEN-BY:", b"AREA:", b" * Origin: ", b"--- ",
      b"\x01RFC-X: ", b"\x01TID: ", b"\x01TZUTC: ", b"\x01CHRS: ", b"... ", b"\x01", b"", b"", b"\x01INTL", b"\x01MSGID:", b"\x01PATH:", b"\x01Via\x01", b"\nSEEN-BY: ", b"\x01REMAP: ", b"\x01FWDORIG: "]


def line(d, c):
    k = d.choice(KW)
    what = d.weighted([(2, "addr"), (2, "addrs"), (2, "blob"), (1, "num"), (2, "list"), (1, "word"), (1, "paren")])
    if what == "addr":
        v = addr(d, c) + b" " + num(d)
    elif what == "addrs":
        v = addr(d, c) + b" " + addr(d, c)
    elif what == "blob":
        v = blob(d)
    elif what == "num":
        v = num(d)
    elif what == "list":
        n = d.choice([1, 3, 20, 49, 50, 51, 120])
        v = b" ".join(b"%d/%d" % (d.int(0, 3) + i % 7, i * 3 % 70000) if i % 3 else num(d) if i % 5 == 0 else b"%d" % i for i in range(n))
    elif what == "word":
        v = b"DIR KFS IMM TFS A/S LOK RRQ CFM FPU " * d.int(0, 12)
    else:
        v = b"text (" + addr(d, c) + d.choice([b")", b"", b")x", b"))"])
    return k + v + d.weighted([(12, b"\r"), (2, b""), (1, b"\n"), (1, b"\r\n"), (1, b"\x8d")])


def text(d, c, tags, n=(0, 10)):
    t = b""
    if d.bool(.55):
        t += b"AREA:" + (L1(d.choice(tags)) if tags and d.bool(.75) else blob(d, 300)) + d.choice([b"\r", b"\r", b"\r", b"", b"\n"])
    for _ in range(d.int(*n)):
        t += line(d, c) * (1 if d.bool(.85) else d.choice(REPS))
    if d.bool(.1):
        # many lines that differ, all of one kind
        k = d.choice(KW)
        t += b"".join(k + b"%d/%d" % (1 + i % 5, i) + (b"x" * d.choice([0, 60, 90])) + b"\r" for i in range(d.choice(REPS)))
    if d.bool(.1):
        t += blob(d, None, b"text\r")
    return t.replace(b"\0", b"")


def mangle(d, b, p=.5):
    """damage a file"""
    if not d.bool(p) or not b:
        return b
    b = bytearray(b)
    for _ in range(d.weighted([(4, 1), (3, 2), (1, 6), (1, 30)])):
        if not b:
            break
        i = d.int(0, len(b) - 1)
        w = d.weighted([(4, "byte"), (3, "word"), (3, "long"), (1, "cut"), (1, "tail"), (1, "dup"), (1, "ins")])
        if w == "byte":
            b[i] = d.choice([0, 1, 0xff, 0x7f, 0x80, 13, 10, 34, 92, 37, 32, d.int(0, 255)])
        elif w == "word":
            b[i:i + 2] = struct.pack("<H", d.choice([0, 1, 2, 0xffff, 0x7fff, 0x8000, 300, 301, 1000]))
        elif w == "long":
            b[i:i + 4] = struct.pack("<I", d.choice([0, 1, 0xffffffff, 0xfffffffe, 0x7fffffff, 0x80000000, 1 << 20, len(b), len(b) - 1, len(b) + 1, 1024]))
        elif w == "cut":
            del b[i:i + d.choice([1, 2, 4, 8, 76, 100])]
        elif w == "tail":
            del b[i:]
        elif w == "dup":
            b[i:i] = b[i:i + d.choice([1, 2, 8, 100])]
        else:
            b[i:i] = blob(d, 300)
    return bytes(b)


def attr(d):
    return d.choice([0, 0, 0, 0x10, 0x110, 0x1000, 0x4000, 0x8000, 0x800, 0x100, 0x180, 0xffff])


def raw_msg(d, c, tags):
    o, t = d.choice(c.nodes).addr, d.choice([x.addr for x in c.akas + c.nodes])
    to = d.choice([b"AreaFix", b"Sysop", b"x", blob(d, 60).replace(b"\0", b"")])
    return pkt_msg(o.net, o.node, t.net, t.node, attr(d), 0, d.choice([b"14 Oct 23  10:00:00", blob(d, 30), b"", b"32 Xxx 99  99:99:99"]), to, blob(d, 60), blob(d, 100), text(d, c, tags))


def gen_pkt(d, c, tags):
    h = pkt_header(d.choice(c.nodes).addr, d.choice(c.akas).addr, b"", d.choice(["2+", "2.2", "2", "2q"]))
    return mangle(d, make_pkt(h, [raw_msg(d, c, tags) for _ in range(d.int(1, 4))], d.choice([b"\0\0", b"\0", b""])), .35)


FILTERS = ['SUBJECT|"AAAA"', 'TEXT|"xx" OR FROM="*AAA*"', 'TOADDR="*:*/*.*"', 'KLUDGES|"MSGID"', 'TYPE="NETMAIL" AND NOT (FROMNAME="q*")', 'EXISTSAREA=FALSE', 'ISFROMPOINT=TRUE OR LOOPMAIL=TRUE', 'SUBJECT~"*A*"',
           'EXISTSCFG_TOADDR=TRUE', 'EXISTSNL_TOADDR=FALSE', 'TOLOCALAKA=TRUE', 'AREA="NO*"']
CMDS = ['COPY "NETMAIL"', 'COPY "AREA0"', 'TWIT', 'KILL', 'REMAPMSG "Someone Else" *:*/*', 'REMAPMSG * 2:2/2', 'WRITELOG "%p %a %s %f %t %r %n %z %o %d"', 'WRITEBAD "reason"', 'BOUNCEMSG "bounced %f %s %a"', 'BOUNCEHEADER "hdr %c"',
        'EXECUTE "true %r %f %s"']


def gen_sys(d):
    c = gen_system(d, maxnodes=4, nodeflags={"AUTOADD": .4, "PACKNETMAIL": .2, "PASSIVE": .1, "NOSEENBY": .1, "TINYSEENBY": .2, "FORWARDREQ": .5, "SENDAREAFIX": .2, "NOTIFY": .2})
    add_std_areas(d, c, bad=d.choice(["MSG", "JAM"]), net=d.choice(["MSG", "JAM"]))
    for n in c.nodes:
        n.pw = ""
        n.af = ("pw", "ABC", "", "ABC")
    tags = []
    for i in range(d.int(1, 3)):
        t = "AREA%d" % i if d.bool(.6) else d.choice(["A" * 79, "B" * 60, "C.D"]) + ("x" if i else "")
        t = t[:79]
        if t in tags:
            continue
        tags.append(t)
        c.areas.append(Cfg(kind="echo", tag=t, aka=d.choice(c.akas).addr, mb=d.choice(["MSG", "JAM", None]), path="area%d" % i, opts=[], group="A", desc=d.choice(["", "D" * 79]), banned=[],
                           exports=[(d.choice(["", "!", "@", "%"]), n.addr) for n in c.nodes if d.bool(.7)]))
    if d.bool(.5):
        c.areas.append(Cfg(kind="default", tag="DEFAULT", aka=c.akas[0].addr, mb=d.choice(["MSG", "JAM", None]), path="auto-%l", opts=[], exports=[("", n.addr) for n in c.nodes[:2]]))
    c.switches = d.subset("STRIPRE FORCEINTL NOROUTE ANSWERRECEIPT ANSWERAUDIT CHECKSEENBY PATH3D IMPORTEMPTYNETMAIL IMPORTAREAFIX NODIRECTATTACH BOUNCEPOINTS IMPORTSEENBY AREAFIXREMOVE WEEKDAYNAMING ADDTID ALLOWRESCAN "
                          "FORWARDPASSTHRU BOUNCEHEADERONLY REMOVEWHENFEED INCLUDEFORWARD ALLOWKILLSENT MSG_HIGHWATER MSG_WRITEBACK JAM_HIGHWATER JAM_LINK JAM_QUICKLINK".split(), .25)
    c.extra += ["AREAFIXNAME AreaFix", "FILEATTACH *:*/*.*"] + (["BOUNCE *:*/*.*"] if d.bool(.3) else []) + (["LOOPMODE LOG+BAD"] if d.bool(.3) else [])
    if d.bool(.5):
        c.dupemode = d.choice(["BAD", "KILL"])
        c.dupesize = d.choice([0, 1, 3, 200])
    c.loglevel = 6
    c.tail = []
    for _ in range(d.weighted([(2, 0), (1, 1), (1, 2)])):
        c.tail += ["FILTER " + q(d.choice(FILTERS)), d.choice(CMDS)]
    return c, tags


def gen(d):
    c, tags = gen_sys(d)
    case = Cfg(c=c, tags=tags, kind=d.weighted([(6, "pkt"), (2, "bundle"), (5, "base"), (3, "areafix"), (4, "config"), (3, "nodelist"), (3, "files"), (2, "write"), (3, "args")]), files=[], cmds=[])
    getattr(K, case.kind)(d, case)
    return case


class K:
    @staticmethod
    def pkt(d, k):
        for i in range(d.int(1, 2)):
            k.files.append(("in/%08x.pkt" % i, gen_pkt(d, k.c, k.tags)))
        k.cmds = [["crashmail", "TOSS"] + (["NOSECURITY"] if d.bool(.2) else [])] + d.subset([["crashmail", "SCAN"], ["crashmail", "RESCAN", d.choice(k.tags), "RESCANNODE", str(k.c.nodes[0].addr)]], .3)
        if d.bool(.3):
            k.files.append(("nl/x", b"AAAA" * 10))

    @staticmethod
    def bundle(d, k):
        arc = b""
        for i in range(d.int(1, 2)):
            p = gen_pkt(d, k.c, k.tags)
            name = d.choice([b"%08x.pkt" % i, b"x.pkt", b"LONGNAME" * 7, b"y.PKT", b"%08x.Pkt" % i])
            arc += b"PKAR" + name.ljust(64, b"\0") + struct.pack("<I", len(p)) + p
        k.files.append(("in/" + d.choice(["12345678.mo0", "00000001.su1", "00000001.fr9", "x.we9", "a" * 60 + ".th0"]), mangle(d, arc, .3) if d.bool(.6) else d.choice([b"", b"P", b"XX", b"P" * 100, bytes(100), b"\x50" * 39]) + arc[:d.int(0, 80)]))
        for i in range(d.weighted([(2, 0), (2, 1), (2, 2)])):
            k.c.extra.append('PACKER Q%d "" "true %%a" "%s"' % (i, d.choice(["?", "$", "$5", "$50", "P", "P?", "$00", "$ZZ"]) * d.choice([1, 2, 13, 20, 26, 39, 40, 41, 60, 79, 100])))
        k.cmds = [["crashmail", "TOSS"]]

    @staticmethod
    def base(d, k):
        for a in k.c.areas:
            if a.mb == "MSG":
                for i in range(d.int(0, 3)):
                    m = make_msg(blob(d, 35), blob(d, 35), blob(d, 71), d.choice([b"14 Oct 23  10:00:00", blob(d, 19)]), attr(d) | 0x100, text(d, k.c, []), k.c.akas[0].addr, k.c.nodes[0].addr,
                                 term=d.choice([b"\0", b""]))
                    k.files.append(("a/%s/%s.msg" % (a.path, d.choice([i + 2, i + 2, 1, 0, 65535, 65536, 65540, "x", "000005", "7x"])), mangle(d, m, .4)))
            elif a.mb == "JAM":
                k.files.append(("a/" + a.path, jam_bytes(d, k, a)))
        k.cmds = d.subset([["crashmail", "SCAN"], ["crashmail", "RESCAN", k.tags[0], "RESCANNODE", str(k.c.nodes[0].addr)] + (["RESCANMAX", d.choice(["1", "2", "0", "-1"])] if d.bool(.4) else []),
                           ["crashmail", "TOSS"], ["crashmaint", "MAINT"], ["crashmaint", "PACK"], ["crashmaint", "MAINT", "PACK", "VERBOSE"]], .5) or [["crashmail", "SCAN"]]
        for a in k.c.areas:
            if d.bool(.5):
                a.opts = d.subset(["KEEPNUM %d" % d.choice([0, 1, 5]), "KEEPDAYS %d" % d.choice([0, 1, 30])], .6)
        k.files.append(("in/00000001.pkt", gen_pkt(d, k.c, k.tags)))

    @staticmethod
    def areafix(d, k):
        ls = []
        for _ in range(d.int(0, 8)):
            ls.append(d.choice([b"%", b"+", b"-", b"", b"=", b"~"]) + d.choice([b"LIST", b"QUERY", b"UNLINKED", b"HELP", b"PAUSE", b"RESUME", b"INFO", b"PWD ", b"COMPRESS ", b"NOTIFY ", b"RESCAN ", b"RULES ", b"BOGUS ", b"*", b"A*",
                                                                              b"AREA0", b"AREA0, R=", b"AREA0 , D=3 ", b"AREA?", b""]) + (blob(d, 300) if d.bool(.5) else b"") + d.choice([b"", b" R=5", b",R=x", b" D=9 "]) + d.choice([b"\r", b"\r", b"\r", b"\n", b""]))
        n = k.c.nodes[0].addr
        to = k.c.akas[0].addr
        t = b"\x01INTL %d:%d/%d %d:%d/%d\r" % (to[:3] + n[:3]) + (b"\x01FMPT %d\r" % n.point if n.point else b"") + (b"\x01TOPT %d\r" % to.point if to.point else b"") + b"".join(ls).replace(b"\0", b"")
        k.files.append(("in/00000001.pkt", make_pkt(pkt_header(n, to, b"", "2+"), [pkt_msg(n.net, n.node, to.net, to.node, 0, 0, b"14 Oct 23  10:00:00", b"AreaFix", blob(d, 35), d.choice([b"pw", b"pw -q", b"pw -l", blob(d, 71)]), t)])))
        ents = b"".join((d.choice([b"AREA0", b"NEW.AREA", blob(d, 300)]) + d.choice([b" ", b"   ", b""]) + blob(d, 300) + d.choice([b"\n", b"\n", b"\r\n", b""])) for _ in range(d.int(0, 5)))
        k.files.append(("list", ents))
        k.files.append(("help", blob(d, None, b"help text ") + d.choice([b"", b"\n"]) + blob(d, None, b"%s")))
        k.c.tail += ["AREALIST %s @list@%s%s" % (k.c.nodes[-1].addr.full, " FORWARD" * d.bool(.7), " DESC" * d.bool(.5)) + " GROUP A", "AREAFIXHELP @help@"]
        if d.bool(.3):
            k.c.extra.append("AREAFIXMAXLINES %d" % d.choice([1, 2, 3]))
        k.cmds = [["crashmail", "TOSS"]] + d.subset([["crashmail", x, d.choice(["ALL", str(n), "x", "9" * 300])] for x in ("SENDLIST", "SENDQUERY", "SENDUNLINKED", "SENDHELP", "SENDINFO")] + [["crashmail", "REMOVE", k.tags[0]], ["crashmail", "REMOVE", "Z" * 200]], .25)

    @staticmethod
    def config(d, k):
        k.ed = []
        for _ in range(d.weighted([(3, 1), (2, 2), (1, 5)])):
            k.ed.append((d.weighted([(4, "arg"), (2, "del"), (2, "dup"), (3, "new"), (2, "bytes"), (1, "cutline")]), d.int(0, 9999), d.int(0, 9), L1(blob(d, 600)), d.choice(CFGLINES), d.bool(.5)))
        k.files.append(("in/00000001.pkt", gen_pkt(d, k.c, k.tags)))
        k.cmds = [["crashmail", "TOSS"]] + d.subset([["crashexport", d.choice(["areasbbs", "forward", "forwardnodesc", "golded", "timed", "bogus"])], ["crashmaint", "MAINT", "PACK"], ["crashmail", "SCAN"], ["crashmail", "SENDLIST", "ALL"]], .3)

    @staticmethod
    def nodelist(d, k):
        pool = [x.addr for x in k.c.nodes + k.c.akas] + [gen_addr(d) for _ in range(3)]
        nl = netgen.gen_nodelist(d, pool)
        t = "\r\n".join(nl.lines).encode("latin-1") + b"\r\n\x1a"
        for _ in range(d.int(0, 3)):
            t += d.choice([b"Zone,", b"Host,", b"Hub,", b"Point,", b",", b"Region,", b"zone", b"Pvt,", b"", b";S", b"Host,,,,"]) + (num(d) if d.bool(.5) else blob(d, 600)) + d.choice([b"\r\n", b"\n", b""])
        k.files.append(("nl/nodelist", mangle(d, t, .3)))
        k.files.append(("nl/cmnodelist.prefs", d.choice([b"nodelist\n", b"nodelist 2\n", b"; c\nnodelist\nnone\n", blob(d, 300) + b"\nnodelist\n", b"nodelist " + blob(d, 300), b"", b"nodelist\nnodelist 3\n"])))
        k.index = (d.bool(.4), d.int(0, 99999))
        if d.bool(.4):
            k.c.extra.append("NODELIST @nl@ V7+")
            f = v7.build({tuple(a): e for a, e in nl.entries.items()}, d.int(0, 9999), d.choice([512, 512, 256, 64]), d.choice([None, 2]))
            hit = d.subset(sorted(f), .5) or [d.choice(sorted(f))]
            for n in sorted(f):
                b = f[n]
                for _ in range(d.int(1, 4) if n in hit else 0):
                    i = d.int(0, max(0, len(b) - 1))
                    if d.bool(.6) and len(b) > 20:
                        i = d.int(0, min(len(b), 64)) if d.bool() else d.int(0, len(b) // 512) * 512 % len(b) + d.int(0, 30)
                    b = b[:i] + d.weighted([(3, d.choice([b"\xff\xff", b"\0\0", b"\x01\0", b"\xff", b"\x7f", b"\0\x80", b"\xff\xff\xff\xff", b"\x01\0\0\0", b"\0\x02"])), (1, bytes([d.int(0, 255)]))]) + b[i + d.int(0, 3):]
                k.files.append(("nl/" + n, b[:d.int(0, len(b))] if d.bool(.1) else b))
            rt = d.choice(["REGION", "HUB"])
            k.c.extra += ["ROUTE \"%s *:*\" \"%s\" %s" % (rt, rt, str(k.c.akas[0].addr)) if rt == "REGION" else "ROUTE \"HUB *:*/*\" \"HUB\" %s" % str(k.c.akas[0].addr)]
            k.files.append(("in/00000009.pkt", make_pkt(pkt_header(pool[0], k.c.akas[0].addr, b"", "2+"), [pkt_msg(1, 1, a.net, a.node, 0, 0, b"14 Oct 23  10:00:00", b"a", b"b", b"c", b"\1INTL %d:%d/%d 1:1/1\rx\r" % a[:3]) for a in pool])))
        else:
            k.c.extra.append("NODELIST @nl@ CMNL")
        k.files.append(("in/00000001.pkt", gen_pkt(d, k.c, k.tags)))
        k.mang = [d.int(0, 9999) for _ in range(4)]
        k.cmds = [["crashlist", "@nl@"], ["crashgetnode", d.choice([str(d.choice(pool)), "0:0/0", "1:2", "x", "9" * 200, "65535:65535/65535.65535"]), "@nl@"],
                  ["crashlistout", "@nl@"] + d.choice([[], ["ZONE", "2"], ["PATTERN", "*:*/*"], ["PATTERN", "A" * 200], ["VERBOSE"]]), ["crashmail", "TOSS"]]

    @staticmethod
    def files(d, k):
        k.c.dupemode = "BAD"
        k.pre = gen_pkt(d, k.c, k.tags)
        k.mang = [d.int(0, 9999) for _ in range(12)]
        k.which = d.subset(["dupes", "stats", "pd/cmindex", "cp", "out"], .5) or ["dupes"]
        k.files.append(("in/00000002.pkt", gen_pkt(d, k.c, k.tags)))
        k.cmds = [["crashmail", "TOSS"], ["crashstats", "@stats@"] + d.subset([["SORT", d.choice("atmfld")]], .5) * 0 + d.choice([[], ["LAST7"], ["GROUP", "A"], ["SORT", "t"]])]

    @staticmethod
    def args(d, k):
        """command lines made of keywords, addresses, patterns and texts of any length"""
        def val(n):
            if n in ("RESCANNODE", "SENDQUERY", "SENDLIST", "SENDUNLINKED", "SENDHELP", "SENDINFO", "NODE") and d.bool(.5):
                v = d.choice([str(d.choice(k.c.nodes).addr), "ALL", L1x(addr(d, k.c))])
            elif n in ("SCANAREA", "RESCAN", "REMOVE") and d.bool(.6) and k.tags:
                v = d.choice(k.tags)
            elif n in ("TOSSFILE", "TOSSDIR", "SCANLIST", "SCANDOTJAM", "DIRECTORY", "SETTINGS", "FILE", "PREFSFILE", "OUTFILE") and d.bool(.6):
                v = d.choice(["@in@", "@out@", "@list@", "@stats@", "@cfg@", "@tmp@", "@nl@", "@in@/00000001.pkt", "@in@/", "@cfg@" + "x" * d.int(0, 300), "@in@/" + "y" * d.int(0, 300), "z" * d.int(80, 400)])
                if n in ("OUTFILE",):
                    v = "@exported@" + "x" * d.int(0, 300)
            elif n in ("ZONE", "RESCANMAX"):
                v = d.choice(["0", "1", "-1", "99999999999", "x", "2", "65536"])
            elif n == "FORMAT":
                v = d.choice(["areasbbs", "forward", "forwardnodesc", "golded", "timed"])
            else:
                v = L1x(blob(d, 600))
            return v.replace("/", "_") if "@" not in v else v
        tool, kws, fl = d.weighted([(6, ("crashmail", ["TOSSFILE", "TOSSDIR", "SCANAREA", "SCANLIST", "SCANDOTJAM", "RESCAN", "RESCANNODE", "RESCANMAX", "SENDQUERY", "SENDLIST", "SENDUNLINKED", "SENDHELP", "SENDINFO", "REMOVE", "SETTINGS"],
                                         ["SCAN", "TOSS", "VERSION", "UNLOCK", "NOSECURITY"])),
                                    (1, ("crashmaint", ["SETTINGS", "PATTERN"], ["MAINT", "PACK", "VERBOSE"])), (1, ("crashstats", ["FILE", "SORT", "GROUP"], ["LAST7", "NOAREAS", "NONODES"])),
                                    (1, ("crashlistout", ["DIRECTORY", "ZONE", "PATTERN"], ["VERBOSE"])), (1, ("crashexport", ["PREFSFILE", "OUTFILE", "FORMAT", "GROUP"], [])),
                                    (1, ("crashgetnode", ["NODE", "DIRECTORY"], [])), (1, ("crashlist", ["DIRECTORY"], []))])
        k.files.append(("in/00000001.pkt", gen_pkt(d, k.c, k.tags)))
        k.files.append(("list", b"".join(d.choice([L1(t) for t in k.tags] + [blob(d, 300)]) + d.choice([b"\n", b"\r\n", b""]) for _ in range(d.int(0, 6)))))
        for _ in range(d.int(1, 3)):
            a = []
            for n in d.subset(kws, 2.0 / len(kws)) or [d.choice(kws)]:
                kw = case_of(d, n)
                a += [kw, val(n)] if d.bool(.9) else d.choice([[kw], [val(n)]])
            a += d.subset(fl, .3)
            if d.bool(.1):
                a.append(L1x(blob(d, 300)).replace("/", "_"))
            k.cmds.append([tool] + [x for x in a if x.upper() != "LOCK"])
        k.raw = True

    @staticmethod
    def write(d, k):
        a = []
        for n in ("FROMNAME", "FROMADDR", "TONAME", "TOADDR", "SUBJECT", "AREA", "ORIGIN", "FILEATTACH", "PKTFROMADDR", "PKTTOADDR", "PASSWORD"):
            if d.bool(.5):
                v = addr(d, k.c) if n.endswith("ADDR") else blob(d, 300)
                v = v.replace(b"\0", b"") or b"x"
                a += [n] if n == "FILEATTACH" else [n, v.decode("latin-1")]
        if d.bool(.2):
            a.append("NOMSGID")
        k.files.append(("text", b"".join(blob(d) + d.choice([b"\n", b"\r\n", b"\r", b"", b"\0"]) for _ in range(d.int(0, 4)))))
        k.cmds = [["crashwrite"] + a + ["DIR", "@in@"] + (["TEXT", "@text@"] if d.bool(.7) else []), ["crashmail", "TOSS"]]
        k.cmds[0] = [x if isinstance(x, str) else x.decode("latin-1") for x in k.cmds[0]]


def L1x(b):
    return b.replace(b"\0", b"").decode("latin-1") or "x"


def case_of(d, s):
    return d.weighted([(6, s), (1, s.lower()), (1, s[:-1] + s[-1:].lower())])


PATS = [x % y for x in ('ROUTE "%s" *:*/*.* 2:2/2', 'ROUTE *:*/*.* "%s" 2:2/2', 'BOUNCE "%s"', 'FILEATTACH "%s"', 'CHANGE * "%s" HOLD', 'REMNODE "%s"', 'REMAPMSG x "%s"', 'MASQUERADE x "%s"') for y in ("", "/", ":", ".", "/.", ":/", "HUB ", "ZONE :")]
CFGLINES = ["SYSOP", "LOGFILE", "LOGLEVEL", "DUPEFILE", "DUPEMODE", "LOOPMODE", "DEFAULTZONE", "NODELIST", "INBOUND", "OUTBOUND", "TEMPDIR", "CREATEPKTDIR", "PACKETDIR", "STATSFILE", "GROUPNAME A", "GROUPNAME", "BEFORETOSS", "BEFOREPACK",
            "PACKER x", "PACKER", "AREAFIXNAME", "AREAFIXHELP", "AREAFIXMAXLINES", "AKA", "DOMAIN", "ADDNODE", "REMNODE", "NODE", "NODE 2:2/2 PK", "PKTFROM", "DEFAULTGROUP", "AREAFIXINFO", "AREAFIXINFO a", "REMOTEAF", "REMOTEAF x",
            "REMOTESYSOP", "ROUTE", "ROUTE *:*/*.*", "BOUNCE", "FILEATTACH", "CHANGE", "CHANGE N", "CHANGE N,C *:*/*.*", "AREALIST", "AREALIST 2:2/2", "FILTER", "COPY", "TWIT", "KILL", "REMAPMSG", "WRITELOG", "WRITEBAD",
            "BOUNCEMSG", "BOUNCEHEADER", "NETMAIL", "AREA", "AREA x 2:2/2 MSG", "LOCALAREA", "IMPORT", "EXPORT", "BANNED", "DESCRIPTION", "GROUP", "KEEPNUM", "KEEPDAYS", "UNCONFIRMED", "MAXPKTSIZE", "MAXBUNDLESIZE", "JAM_MAXOPEN", "NOROUTE",
            "INCLUDE", "BOGUS", "EXPORT 2:2/2 3 4 5", "AREA \"x", "EXPORT %!@&2:2/2", "AREA DEFAULT_AAAAAAAAAAAAAAAAAAA 2:2/2"] + PATS
UNSAFE = re.compile(rb"^\s*(PACKER|BEFORETOSS|BEFOREPACK|EXECUTE|LOGFILE|DUPEFILE|STATSFILE|INBOUND|OUTBOUND|TEMPDIR|CREATEPKTDIR|PACKETDIR|NODELIST|AREALIST|AREAFIXHELP|BOUNCE|FILEATTACH|JAM_MAXOPEN)", re.I)


def edit_config(t, ed):
    lines = t.split(b"\n")
    for what, i, j, bl, new, qd in ed:
        i %= len(lines)
        l = lines[i]
        bl = bl.replace(b"\n", b"").replace(b"\0", b"")
        if what == "arg":
            parts = l.split(b" ")
            parts[j % len(parts)] = b'"' + bl.replace(b'"', b"") + b'"' if qd else bl
            lines[i] = b" ".join(parts)
        elif what == "del":
            del lines[i]
        elif what == "dup":
            lines[j * 7 % len(lines):j * 7 % len(lines)] = [l] * [1, 1, 1, 11, 60][j % 5]
        elif what == "new":
            lines.insert(i, L1(new) + b" " + (b'"' + bl.replace(b'"', b"") + b'"' if qd else bl))
        elif what == "bytes":
            b = bytearray(l)
            if b:
                b[j * 13 % len(b)] = (bl + b'"')[0]
            lines[i] = bytes(b)
        else:
            lines[i] = l[:j * 5]
        if not lines:
            lines = [b""]
    return b"\n".join(lines)


def jam_bytes(d, k, a):
    """recipe of a JAM base"""
    ms = []
    for i in range(d.int(0, 3)):
        sub = []
        for f in d.subset(["SENDERNAME", "RECEIVERNAME", "SUBJECT", "OADDRESS", "DADDRESS", "MSGID", "REPLYID", "PID", "FLAGS", "SEENBY2D", "PATH2D", "FTSKLUDGE", "TRACE", "ENCLFILE", 1234], .5):
            v = addr(d, k.c) if f in ("OADDRESS", "DADDRESS") and d.bool(.6) else blob(d, 3000)
            sub += [(f, v)] * (1 if d.bool(.85) else d.choice(REPS))
        ms.append((sub, d.choice([J_LOCAL, J_LOCAL | J_KILLSENT, J_LOCAL | J_FILEATTACH, 0xffffffff & ~J_DELETED & ~J_SENT, 0, J_DELETED]), text(d, k.c, []), d.choice([(0, 0, 0), (1, 2, 3), (0xffffffff, 1, 1), (99, 98, 97)]),
                   d.choice([None, b"x"]), d.choice([None, b"x", b"y"])))
    return Cfg(base=d.choice([1, 1, 2, 0, 1000, 0xfffffff0]), ms=ms, mang={e: d.listof(0, 3, lambda: (d.int(0, 99999), d.choice(["w", "w", "cut", "zero", "off"]), d.choice([0, 1, 0xffffffff, 0x7fffffff, 0x80000000, 1024, 70000, 0x1000]))) if d.bool(.35) else []
                                                     for e in (".jhr", ".jdt", ".jdx", ".jlr")}, drop=d.choice([None] * 8 + [".jdt", ".jdx", ".jlr", ".jhr"]))


def jam_build(path, j):
    jam_create(path, base=j.base)
    for sub, at, t, links, mid, rep in j.ms:
        jam_append(path, sub, at, t, links=links, msgid=mid, reply=rep)
    for e, ops in j.mang.items():
        b = bytearray(open(path + e, "rb").read())
        for pos, how, v in ops:
            if not b:
                break
            pos %= len(b)
            if how == "w":
                pos = pos // 4 * 4
                if e == ".jhr" and len(b) > 1024 and v & 1:
                    pos = 1024 + pos % (len(b) - 1024)
                b[pos:pos + 4] = struct.pack("<I", v)
            elif how == "cut":
                del b[pos:]
            elif how == "zero":
                b[pos:pos + 8] = bytes(8)
            else:
                b[pos:pos] = b"\xff" * 3
        open(path + e, "wb").write(b)
    if j.drop:
        os.remove(path + j.drop)


def run(w, cmdline, raw=False):
    a = []
    for x in cmdline[1:]:
        x = re.sub(r"@(\w+)@", lambda m: w.p(m[1]), x)
        a.append(L1(x)[:1000])
    t = cmdline[0]
    pre = []
    if t == "crashmail" or t == "crashmaint":
        if not raw or not any(x.upper() == "SETTINGS" for x in cmdline[1:]):
            pre = ["SETTINGS", w.p("cfg")]
    elif t == "crashexport" and not raw:
        pre = [w.p("cfg"), w.p("exported")]
    e = {}
    args = pre + [x for x in a]
    r = w.run(t, *[x if isinstance(x, str) else os.fsdecode(x) for x in args], ok=None, timeout=40, extra_env=e)
    out = r.stdout
    if r.returncode < 0 or r.returncode == 99 or b"ERROR: AddressSanitizer" in out or b"runtime error:" in out:
        i = max(out.find(b"ERROR: AddressSanitizer"), out.find(b"runtime error"), 0)
        raise Fail("%s: status %d\n%s" % (" ".join(cmdline)[:300], r.returncode, out[max(0, i - 100):i + 1800].decode("latin-1")))


def smash(b, ns):
    b = bytearray(b)
    for i in range(0, len(ns) - 1, 2):
        if not b:
            break
        p = ns[i] % len(b)
        v = ns[i + 1]
        if v % 4 == 0:
            b[p] = v % 256
        elif v % 4 == 1:
            b[p // 4 * 4:p // 4 * 4 + 4] = struct.pack("<I", [0, 0xffffffff, 0x7fffffff, 70000, 301][v % 5])
        elif v % 4 == 2:
            del b[p:]
        else:
            b[p:p] = bytes([v % 256]) * (v % 400)
    return bytes(b)


def check(case, env):
    w = World(env, variant="asan")
    c = case.c
    text = re.sub(r"@(\w+)@", lambda m: w.p(m[1]), cfgtext(w, c))
    t = L1(text)
    if case.kind == "config":
        t2 = edit_config(t, case.ed)
        # whatever is run or overwritten must stay ours
        keep = set(t.split(b"\n"))
        t = b"\n".join(l for l in t2.split(b"\n") if l in keep or not UNSAFE.match(l))
    w.write("cfg", t)
    if case.kind == "files":
        w.drop("00000001.pkt", case.pre)
        run(w, ["crashmail", "TOSS"])
        ns = case.mang
        for x in case.which:
            if os.path.isdir(w.p(x)):
                for f in os.listdir(w.p(x)):
                    if os.path.isfile(w.p(x, f)):
                        w.write(x + "/" + f, smash(w.read(x + "/" + f), ns))
                w.write(x + "/" + ["00000000.pkttmp", "12345678.orphan", "00020002.flo", "x.newpkt"][ns[0] % 4], bytes(ns[i % 12] % 256 for i in range(ns[1] % 700)))
            elif os.path.exists(w.p(x)):
                w.write(x, smash(w.read(x), ns))
    for n, b in case.files:
        os.makedirs(os.path.dirname(w.p(n)), exist_ok=True)
        if isinstance(b, Cfg):
            jam_build(w.p(n), b)
        else:
            w.write(n, b)
            os.utime(w.p(n), (NOW - 1000, NOW - 1000))
    for cm in case.cmds:
        run(w, cm, case.get("raw"))
        if case.kind == "nodelist" and cm[0] == "crashlist" and case.index[0] and os.path.exists(w.p("nl/cmnodelist.index")):
            w.write("nl/cmnodelist.index", smash(w.read("nl/cmnodelist.index"), case.mang))
        env.count(case.kind + "_runs")
    return [case.kind, case.cmds, [(n, repr(b)) for n, b in case.files], case.get("ed"), case.get("mang")]


def describe(case):
    return {"kind": case.kind, "commands": case.cmds, "switches": case.c.switches, "tail": case.c.tail, "files": [(n, repr(b)[:300]) for n, b in case.files]}
