"""C24: runs with the same configuration never overlap, and nothing is lost or doubled when they are started at the same time."""
import os
import random
import re
import signal
import subprocess
import threading
import time
from pbt.core import Fail, Skip
from pbt.fido import *
from pbt.tossgen import Cfg

ID = "C24"
BUDGET = {"quick": 700, "thorough": 12000}
WORKERS = 16
TRIES = 40
RULE = ("2-6 crashmail processes (TOSS, TOSSFILE, TOSSDIR, SCAN, SCANAREA, SENDLIST) started together or a few ms apart on one system, with random waiting before and after every file operation, LOCK and UNLOCK by an operator at random times, "
        "and runs interrupted while they wait; every file operation of every process is recorded with its time; non-trivial = at least two runs did work, or a run waited for the operator's lock")
AKA = Addr(2, 100, 1)
LINKS = [Addr(2, 100, 2), Addr(2, 101, 3), Addr(2, 102, 4)]


def gen(d):
    kinds = ["toss", "toss", "tossfile", "tossdir", "scan", "scanarea", "list"]
    procs = []
    for _ in range(d.int(2, 6)):
        procs.append((d.choice(kinds), d.weighted([(4, 0), (2, d.int(0, 3)), (2, d.int(0, 60))]), d.bool(.12)))
    return Cfg(procs=procs, seed=d.int(0, 10 ** 9), jp=d.choice([0, 5, 20]), jus=d.choice([500, 3000, 12000]), mb=d.choice(["MSG", "JAM"]), packers=d.subset([0, 1, 2], .4),
               inb=d.int(1, 4), tf=d.int(1, 3), td=d.int(1, 3), local=d.int(0, 4), new=d.subset(["NEW.A", "NEW.B", "NEW.C"], .4),
               lock=(d.int(0, 40), d.int(5, 60)) if d.bool(.35) else None, dupes=d.bool(.5), stats=d.bool(.5))


def check(case, env):
    w = World(env)
    s = "SYSOP S\nLOGFILE %s\nLOGLEVEL 3\nINBOUND %s\nOUTBOUND %s\nTEMPDIR %s\nCREATEPKTDIR %s\nPACKETDIR %s\n" % tuple(q(w.p(x)) for x in ("log", "in", "out", "tmp", "cp", "pd"))
    if case.dupes:
        s += "DUPEFILE %s 100\nDUPEMODE BAD\n" % q(w.p("dupes"))
    if case.stats:
        s += "STATSFILE %s\n" % q(w.p("stats"))
    s += "PACKER PK \"%s a %%a %%f\" \"%s x %%a\" \"PKAR\"\n" % (env.pk, env.pk) if case.packers else ""
    s += "AKA %s\nDOMAIN X\n" % str(AKA)
    for i, n in enumerate(LINKS):
        s += "NODE %s %s \"\" AUTOADD\nDEFAULTGROUP A\nAREAFIXINFO pw A\n" % (n, "PK" if i in case.packers else '""')
    s += "NETMAIL NET %s MSG %s\n" % (AKA, q(w.p("net")))
    s += "AREA BAD %s MSG %s\n" % (AKA, q(w.p("bad")))
    s += "AREA DEFAULT %s MSG %s\nEXPORT %s\n" % (AKA, q(w.p("a", "auto")), LINKS[2])
    s += "AREA E1 %s %s %s\nEXPORT %s\nGROUP A\n" % (AKA, case.mb, q(w.p("a", "E1")), " ".join(map(str, LINKS)))
    w.write("cfg", s)
    for x in ("tf", "td", "net", "a/auto"):
        os.mkdir(w.p(x))
    rnd = random.Random(case.seed)
    want = {}        # token -> set of links
    tok = 0

    def pkt(area, frm):
        nonlocal tok
        tok += 1
        want[tok] = (area, {l for l in (LINKS if area == "E1" else [LINKS[2]]) if l != frm})
        return pkt_msg(frm.net, frm.node, AKA.net, AKA.node, 0, 0, b"14 Oct 23  10:00:%02d" % tok, b"All", b"Me", b"#%d" % tok,
                       b"AREA:%s\r\1MSGID: %s %08x\rtext\r * Origin: x (%s)\rSEEN-BY: %d/%d\r" % (area.encode(), str(frm).encode(), tok, str(frm).encode(), frm.net, frm.node))
    areas = ["E1"] + case.new
    n = 0
    for where, k in (("in", case.inb), ("tf", case.tf), ("td", case.td)):
        for _ in range(k):
            n += 1
            frm = rnd.choice(LINKS[:2])
            w.drop("%08x.pkt" % n, make_pkt(pkt_header(frm, AKA, b"", "2+"), [pkt(rnd.choice(areas if frm == LINKS[0] else areas[:1]), frm) for _ in range(rnd.randint(1, 3))]), d=where)
    if case.local:
        if case.mb == "MSG":
            os.mkdir(w.p("a/E1"))
        else:
            jam_create(w.p("a/E1"))
        for i in range(case.local):
            tok += 1
            want[tok] = ("E1", set(LINKS))
            t = b"\1MSGID: %s %08x\rtext\r * Origin: x (%s)\r" % (str(AKA).encode(), tok, str(AKA).encode())
            if case.mb == "MSG":
                w.write("a/E1/%d.msg" % (i + 2), make_msg(b"Me", b"All", b"#%d" % tok, b"14 Oct 23  10:00:00", 0x100, t, AKA, AKA))
            else:
                sub, _, tx = jam_split(t)
                jam_append(w.p("a/E1"), [("SENDERNAME", b"Me"), ("RECEIVERNAME", b"All"), ("SUBJECT", b"#%d" % tok), ("OADDRESS", str(AKA).encode())] + sub, J_LOCAL | J_TYPELOCAL | J_TYPEECHO, tx)
    args = {"toss": ["TOSS"], "tossdir": ["TOSSDIR", w.p("td")], "scan": ["SCAN"], "scanarea": ["SCANAREA", "E1"], "list": ["SENDLIST", "ALL"]}
    base = {"PATH": "/usr/bin:/bin", "TZ": "UTC", "LC_ALL": "C", "HOME": w.dir, "SHIM_TIME": str(w.now), "LD_PRELOAD": env.shim, "SHIM_EVT": w.p("events")}
    intr = any(x[2] for x in case.procs)
    running, held = [], []
    tfs = ["%08x.pkt" % (case.inb + i + 1) for i in range(case.tf)]

    def start(i, kind):
        a = args.get(kind) or ["TOSSFILE", w.p("tf", tfs[i % len(tfs)])]
        e = dict(base, SHIM_JIT="%d,%d,%d" % (case.seed % 65536 + i * 7919, case.jp, case.jus))
        return subprocess.Popen([env.bin("crashmail"), "SETTINGS", w.p("cfg")] + a, cwd=w.dir, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)

    def operator():
        time.sleep(case.lock[0] / 1000)
        e = {k: v for k, v in base.items() if k != "SHIM_EVT"}
        e["SHIM_JIT"] = "%d,50,3000" % (case.seed % 9999)
        run = lambda a: subprocess.run([env.bin("crashmail"), "SETTINGS", w.p("cfg"), a], cwd=w.dir, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60).returncode
        try:
            rc = run("LOCK")
            t0 = time.monotonic_ns()
            time.sleep(case.lock[1] / 1000)
            t1 = time.monotonic_ns()
            rc2 = run("UNLOCK")
            held.append((t0, t1, rc, rc2))
        except subprocess.TimeoutExpired:
            held.append((0, 0, "timeout", 0))
    th = threading.Thread(target=operator) if case.lock else None
    if th:
        th.start()
    t0 = time.monotonic()
    order = sorted(range(len(case.procs)), key=lambda i: case.procs[i][1])
    for i in order:
        kind, delay, brk = case.procs[i]
        x = t0 + delay / 1000 - time.monotonic()
        if x > 0:
            time.sleep(x)
        p = start(i, kind)
        running.append((p, kind, brk))
        if brk:
            time.sleep(rnd.random() * .02)
            p.send_signal(signal.SIGINT)
    for p, kind, brk in running:
        try:
            rc = p.wait(40)
        except subprocess.TimeoutExpired:
            for x in running:
                x[0].kill()
            if th:
                th.join()
            raise Fail("a run never got the lock although nobody holds it for long (lock file %s)" % ("left behind" if os.path.exists(w.p("cfg.busy")) else "missing"))
        if rc != 0 and not brk:
            raise Fail("a %s run started at the same time as others exited with %d" % (kind, rc))
    if th:
        th.join()
        if held[0][2:] != (0, 0):
            raise Fail("LOCK/UNLOCK exited with %r" % (held[0][2:],))
    if os.path.exists(w.p("cfg.busy")):
        raise Fail("the lock is still there after all runs have ended")
    ev = []
    if os.path.exists(w.p("events")):
        for l in w.read("events").decode("latin-1").splitlines():
            t, pid, path = l.split(" ", 2)
            if path.startswith(w.dir):
                ev.append((int(t), int(pid), path))
    ev.sort()
    seen, last = set(), None
    for t, pid, path in ev:
        if pid != last:
            if pid in seen:
                raise Fail("two runs worked at the same time: process %d touched %s after process %d had started and before it ended" % (pid, os.path.relpath(path, w.dir), last))
            seen.add(pid)
            last = pid
        for a, b, _, _ in held:
            if a < t < b:
                raise Fail("a run touched %s while the configuration was locked by LOCK" % os.path.relpath(path, w.dir))
    # what is left over
    w.toss()
    w.crashmail("TOSSDIR", w.p("td"))
    w.crashmail("TOSSDIR", w.p("tf"))
    w.crashmail("SCAN")
    got = {}
    for dest, fl, how, h, m in w.queued_messages(AKA.zone):
        if m.subj.startswith(b"#"):
            got.setdefault(int(m.subj[1:]), []).append(dest)
    stored = {}
    cfg = w.read("cfg").decode("latin-1")
    for a in areas:
        path = w.p("a/E1")
        if a != "E1":
            m = re.search(r'(?mi)^AREA "?%s"? \S+ "?MSG"? "?([^"\n]+)' % re.escape(a), cfg)
            path = m[1].strip() if m else w.p("nowhere")
        if a == "E1" and case.mb == "JAM":
            subs = [m.one("SUBJECT") for m in read_jam(path).msgs.values() if not m.deleted] if os.path.exists(path + ".jhr") else []
        else:
            subs = [m.subj for m in read_msgdir(path).values()] if os.path.isdir(path) else []
        for x in subs:
            if x.startswith(b"#"):
                stored.setdefault(int(x[1:]), []).append(a)
    for t, (area, links) in sorted(want.items()):
        g = got.get(t, [])
        if set(g) != links and not (intr and links <= set(g)):
            if not (intr and area == "E1" and t > tok - case.local):   # known finding of C11: interrupted scans
                raise Fail("message %d for %s was queued for %s, expected %s" % (t, area, sorted(map(str, g)), sorted(map(str, links))))
        if not intr and (len(g) != len(set(g)) or stored.get(t) != [area]):
            raise Fail("message %d for %s was queued for %s and stored in %s" % (t, area, sorted(map(str, g)), stored.get(t)))
    for a in {v[0] for v in want.values()}:
        k = len(re.findall(r'(?mi)^AREA "?%s"? ' % re.escape(a), cfg))
        if k != 1:
            raise Fail("area %s is in the configuration %d times" % (a, k))
    env.count("processes", len(running))
    env.count("operations", len(ev))
    if len(seen) < 2 and not case.lock:
        return None
    return [case.procs, case.seed, case.jp, case.jus, case.lock, case.inb, case.tf, case.td, case.local, case.new]


def describe(case):
    return {k: case[k] for k in ("procs", "seed", "jp", "jus", "mb", "packers", "inb", "tf", "td", "local", "new", "lock")}
