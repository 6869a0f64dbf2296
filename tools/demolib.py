"""Helpers for the demonstrations: a scratch system, packets, message bases."""
import os, re, shutil, struct, subprocess, sys, tempfile, time
REPO = os.getcwd()


def pkt(orig, dest, msgs, pw=b""):
    """orig, dest: (zone, net, node, point); msgs: bytes from msg()"""
    b = bytearray(58)
    struct.pack_into("<12H", b, 0, orig[2], dest[2], 2023, 10, 14, 12, 0, 0, 0, 2, orig[1], dest[1])
    b[26:34] = pw[:8].ljust(8, b"\0")
    struct.pack_into("<HH", b, 34, orig[0], dest[0])
    struct.pack_into("<HH", b, 40, 0x0100, 0)
    struct.pack_into("<H", b, 44, 1)
    struct.pack_into("<HHHH", b, 46, orig[0], dest[0], orig[3], dest[3])
    return bytes(b) + b"".join(msgs) + b"\0\0"


def msg(orig, dest, text, frm=b"From", to=b"To", subj=b"Subj", attr=0, date=b"01 Jan 23  00:00:00", cost=0):
    return (struct.pack("<7H", 2, orig[2], dest[2], orig[1], dest[1], attr, cost) + date + b"\0" + to + b"\0" + frm + b"\0" + subj + b"\0" + text + b"\0")


def parse(data):
    """[(to, from, subj, text, attr, date, (onet, onode, dnet, dnode))]"""
    pos, out = 58, []
    while data[pos:pos + 2] == b"\2\0":
        _, on, dn, onet, dnet, attr, cost = struct.unpack_from("<7H", data, pos)
        pos += 14
        f = []
        for _ in range(5):
            e = data.index(b"\0", pos)
            f.append(data[pos:e])
            pos = e + 1
        out.append((f[1], f[2], f[3], f[4], attr, f[0], (onet, on, dnet, dn)))
    if data[pos:] != b"\0\0":
        raise ValueError("bad packet end %r" % data[pos:pos + 20])
    return out


def dotmsg(text, frm=b"From", to=b"To", subj=b"Subj", attr=0, date=b"01 Jan 23  00:00:00", orig=(0, 0, 0, 0), dest=(0, 0, 0, 0), replyto=0):
    return (frm.ljust(36, b"\0") + to.ljust(36, b"\0") + subj.ljust(72, b"\0") + date.ljust(20, b"\0")
            + struct.pack("<13H", 0, dest[2], orig[2], 0, orig[1], dest[1], dest[0], orig[0], dest[3], orig[3], replyto, attr, 0) + text + b"\0")


class Sys:
    def __init__(self):
        self.d = tempfile.mkdtemp(prefix="demo")
        for x in ("in", "out", "tmp", "cp", "pd", "a", "nl"):
            os.mkdir(os.path.join(self.d, x))
        self.n = 0

    def p(self, *a):
        return os.path.join(self.d, *a)

    def cfg(self, text, dupes=True):
        base = ("SYSOP \"Sys Op\"\nLOGFILE %s/log\nLOGLEVEL 5\nDEFAULTZONE 1\nINBOUND %s/in\nOUTBOUND %s/out\nTEMPDIR %s/tmp\nCREATEPKTDIR %s/cp\nPACKETDIR %s/pd\nSTATSFILE %s/stats\n"
                % ((self.d,) * 7))
        open(self.p("cfg"), "w", encoding="latin-1").write(base + text.replace("@D@", self.d))

    def put(self, rel, data):
        open(self.p(rel), "wb").write(data)

    def drop(self, data):
        self.n += 1
        self.put("in/%08x.pkt" % self.n, data)
        t = time.time() - 1000 + self.n
        os.utime(self.p("in/%08x.pkt" % self.n), (t, t))

    def run(self, tool, *args, env=None):
        e = dict(os.environ, TZ="UTC")
        e.update(env or {})
        r = subprocess.run([os.path.join(REPO, "bin", tool)] + list(args), cwd=self.d, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=100, env=e)
        return r

    def mail(self, *args, **kw):
        return self.run("crashmail", "SETTINGS", self.p("cfg"), *args, **kw)

    def toss(self, *args):
        return self.mail("TOSS", *args)

    def queued(self):
        """{outbound relative name: [messages]} of netmail packets and packets named in flow files"""
        out = {}
        for root, ds, fs in os.walk(self.d):
            if not os.path.relpath(root, self.d).startswith("out"):
                continue
            for f in sorted(fs):
                full = os.path.join(root, f)
                rel = os.path.relpath(full, self.d)
                if re.search(r"\.[ohdc]ut$", f):
                    out.setdefault(rel, []).extend(parse(open(full, "rb").read()))
                elif re.search(r"\.[fhdc]lo$", f):
                    for l in open(full, encoding="latin-1").read().splitlines():
                        l = l.strip().lstrip("^#~")
                        if l.endswith(".pkt"):
                            out.setdefault(rel, []).extend(parse(open(l, "rb").read()))
        return out

    def msgs(self, rel):
        out = {}
        for f in os.listdir(self.p(rel)) if os.path.isdir(self.p(rel)) else []:
            if f.endswith(".msg"):
                out[int(f[:-4])] = open(self.p(rel, f), "rb").read()
        return out

    def log(self):
        return open(self.p("log"), encoding="latin-1").read()

    def done(self):
        shutil.rmtree(self.d, ignore_errors=True)


def main(f):
    s = Sys()
    try:
        r = f(s)
    finally:
        s.done()
    if r:
        print("BROKEN: %s" % (r,))
        sys.exit(1)
    print("holds")
    sys.exit(0)
