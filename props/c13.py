"""C13: what is stored in a message base is what was received, and the base stays sound."""
from pbt.basegen import *

ID = "C13"
BUDGET = {"quick": 3000, "thorough": 40000}
RULE = ("random system with JAM and MSG areas x histories of 2-8 operations (packets tossed into several areas with few JAM bases open at a time, editor writes, deletions, scans) with IMPORTSEENBY, STRIPRE, "
        "JAM_LINK, JAM_QUICKLINK; after every operation every base is read with an independent reader and every message, counter, CRC and reply link compared with the model; "
        "non-trivial = at least 2 messages imported into a JAM base or 1 into a MSG base, distinct by texts")


def gen(d):
    c = gen_base_system(d, {"IMPORTSEENBY": .4, "STRIPRE": .2, "JAM_LINK": .7, "JAM_QUICKLINK": .3, "JAM_HIGHWATER": .2, "ADDTID": .1}, net=0.1, mbs=("JAM", "JAM", "MSG"))
    c.idpool = ["%d:9/9 %08X" % (i, i * 77) for i in range(1, 5)] + ["\xe5\xe4@gw %d" % i for i in range(2)] + ["2:9/9 0000009a", "q" * 70 + " 1"]
    hist = gen_history(d, c, (2, 7), {"toss": 6, "write": 2, "delete": 2, "scan": 1})
    # reply threads: MSGID and REPLY from a small pool
    for o in hist:
        if o[0] == "toss":
            for m in o[1].msgs:
                m.body = re.sub("\x01(MSGID|REPLY):[^\r]*(\r|$)", "", m.body)
                i = d.int(0, 2 * len(c.idpool))
                j = d.int(0, 2 * len(c.idpool))
                if j < len(c.idpool) and j != i:
                    m.body = "\x01REPLY: %s\r" % c.idpool[j] + m.body
                if i < len(c.idpool):
                    m.body = "\x01MSGID: %s\r" % c.idpool[i] + m.body
    return Cfg(c=c, hist=hist)


def ids_of(r):
    m = re.search(rb"(?:^|\r)\x01MSGID: ([^\r]*)", r.text)
    p = re.search(rb"(?:^|\r)\x01REPLY: ([^\r]*)", r.text)
    return (m[1] if m else None), (p[1] if p else None)


class Links:
    """reference for reply linking"""

    def __init__(self):
        self.l = {}          # tag -> {num: [to, first, next]}

    def new(self, bases, tag, oldtop, quick):
        recs = [r for r in bases.b[tag] if not (r.deleted and r.get("gone"))]
        L = self.l.setdefault(tag, {})
        for r in recs:
            L.setdefault(r.num, [0, 0, 0])
        for r in bases.b[tag]:
            if r.deleted and r.get("gone"):
                L[r.num] = [0, 0, 0]          # its header is out of reach, a list of replies ends there

        def match(p, c):
            a, b = ids_of(p)[0], ids_of(c)[1]
            if a is None or b is None:
                return False
            return jamcrc(a) == jamcrc(b) and (quick or a == b)

        def link(p, c):
            if L[c.num][0]:
                return
            L[c.num][0] = p.num
            if not L[p.num][1]:
                L[p.num][1] = c.num
                return
            n = L[p.num][1]
            while n != c.num:
                if n not in L:
                    return
                if not L[n][2]:
                    L[n][2] = c.num
                    return
                n = L[n][2]
        for c in recs:
            if c.num <= oldtop:
                continue
            for p in recs:
                if match(p, c):
                    link(p, c)
            for k in recs:
                if match(c, k):
                    link(c, k)


def check(case, env):
    c = case.c
    w = World(env)
    w.shimenv["TZ"] = c.tz
    w.write("cfg", cfgtext(w, c))
    bases = Bases(w, c)
    model = EchoModel(c)
    links = Links()
    njam = nmsg = 0
    modc = {}
    for i, o in enumerate(case.hist):
        w.now += 2
        top = dict(bases.top)
        added = set()
        if o[0] == "write":
            bases.write(o[1])
        elif o[0] == "delete":
            bases.delete(*o[1:])
        elif o[0] == "toss":
            for a, tok, e in play_toss(w, c, model, o[1], i):
                bases.imported(bases.area[a.tag], e)
                added.add(a.tag)
            flush_outbound(w)
            if "JAM_LINK" in c.switches:
                for t in added:
                    if bases.area[t].mb == "JAM":
                        links.new(bases, t, top[t], "JAM_QUICKLINK" in c.switches)
        else:
            bases.scan(o[1], scan_args(w, o[1], o[2]))
            flush_outbound(w)
        bases.verify()
        for a in c.areas:
            if a.mb != "JAM" or not os.path.exists(w.p("a", a.path + ".jhr")):
                continue
            jb = read_jam(w.p("a", a.path))
            jam_check(jb, "area " + a.tag)
            if a.tag in added and jb.modc == modc.get(a.tag):
                raise Fail("area %s: messages added but the modification counter is still %d" % (a.tag, jb.modc))
            modc[a.tag] = jb.modc
            if jb.base != (a.base or 1):
                raise Fail("area %s: base message number changed to %d" % (a.tag, jb.base))
            for r in bases.b[a.tag]:
                if r.num not in jb.live:
                    continue
                m = jb.live[r.num]
                who = "area %s message %d" % (a.tag, r.num)
                mid, rep = ids_of(r)
                for nm, got, x in (("MSGID", m.msgidcrc, mid), ("REPLY", m.replycrc, rep)):
                    want = jamcrc(x[:79]) if x else 0xffffffff
                    if got != want:
                        raise Fail("%s: %s CRC %08x, expected %08x for %r" % (who, nm, got, want, x))
                if a.tag in added and r.num > top[a.tag] and m.processed != w.now + tzoff(c.tz):
                    raise Fail("%s: processed at %d, expected %d" % (who, m.processed, w.now + tzoff(c.tz)))
                want = links.l.get(a.tag, {}).get(r.num, [0, 0, 0])
                if [m.replyto, m.reply1st, m.replynext] != want:
                    raise Fail("%s: reply links to/first/next %r, expected %r" % (who, [m.replyto, m.reply1st, m.replynext], want))
        for t in added:
            if bases.area[t].mb == "JAM":
                njam += bases.top[t] - top[t]
            else:
                nmsg += bases.top[t] - top[t]
    if njam < 2 and not nmsg:
        return None
    return [[[m.body for m in o[1].msgs] for o in case.hist if o[0] == "toss"], c.switches]


def tzoff(tz):
    return {"UTC": 0, "XST-5:30": 19800, "YST+8": -28800, "ZST-12": 43200}[tz]


describe = describe_hist
