"""Writer for nodelists in the Version 7+ format (NODEX.ndx, NODEX.dat, NODEX.dtp)."""
import random
import struct

TABLE = " EANROSTILCHBDMUGPKYWFVJXZQ-'0123456789"


def pack40(s):
    s = s.upper()
    while len(s) % 3:
        s += " "
    out = b""
    for i in range(0, len(s), 3):
        a, b, c = (TABLE.index(x) for x in s[i:i + 3])
        out += struct.pack("<H", (a * 40 + b) * 40 + c)
    return out


def build(entries, seed, block=512, fan=None):
    """entries {(zone, net, node, point): (region, hub)} -> {file name: bytes}"""
    rnd = random.Random(seed)
    word = lambda n: "".join(rnd.choice(TABLE[1:]) for _ in range(rnd.randint(0, n)))
    dat, dtp, leafkeys = bytearray(), bytearray(), []
    order = sorted(entries)
    shuffled = order[:]
    rnd.shuffle(shuffled)
    dtp += bytes(rnd.randrange(256) for _ in range(rnd.randint(0, 70000 if rnd.random() < .1 else 40)))
    pos = {}
    for a in shuffled:
        reg, hub = entries[a]
        dtp += bytes(rnd.randrange(256) for _ in range(rnd.randint(0, 30)))
        dp = len(dtp)
        dtp += struct.pack("<HH", reg, hub) + bytes(rnd.randrange(256) for _ in range(rnd.randint(0, 20)))
        names = [word(30), word(35), word(28)]
        packed = pack40("".join(names) + "%08X" % dp)
        phone, pw = word(40).encode(), word(8).encode()
        pos[a] = len(dat)
        dat += struct.pack("<HHHHhhH", a[0], a[1], a[2], hub, rnd.randint(-9, 300), 0, rnd.randrange(65536))
        dat += bytes([rnd.randrange(256), len(phone), len(pw)] + [len(x) for x in names] + [len(packed), rnd.randrange(256)]) + phone + pw + packed
        if rnd.random() < .2:
            dat += bytes(rnd.randrange(256) for _ in range(rnd.randint(1, 9)))

    def key(a):
        k = struct.pack("<HHH", *a[:3])
        return k + struct.pack("<H", a[3]) if a[3] or rnd.random() < .5 else k

    blocks = [None]

    def put(first, keys, index):
        """keys: (key bytes, value[, lower])"""
        hs = 12 if index else 8
        b = bytearray(block)
        end = block
        head = bytearray()
        for k in keys:
            end -= len(k[0])
            b[end:end + len(k[0])] = k[0]
            head += struct.pack("<HHi" + ("i" if index else ""), end, len(k[0]), *k[1:])
        b[:16] = struct.pack("<iiihH", first, 0, 0, len(keys), end)
        b[16:16 + len(head)] = head
        assert 16 + len(head) <= end
        blocks.append(bytes(b))
        return len(blocks) - 1

    level, i = [], 0
    mx = (block - 16) // 16
    while i < len(order) or not level:
        n = rnd.randint(1, min(mx, fan or mx))
        part = order[i:i + n]
        level.append((part[0] if part else None, put(-1, [(key(a), pos[a]) for a in part], False)))
        i += n
    levels = 1
    mxi = (block - 16) // 20
    while len(level) > 1:
        nxt, i = [], 0
        while i < len(level):
            n = rnd.randint(1, min(mxi, fan or mxi)) + 1
            part = level[i:i + n]
            nxt.append((part[0][0], put(part[0][1], [(key(a), pos[a], b) for a, b in part[1:]], True)))
            i += n
        level = nxt
        levels += 1
    ctl = struct.pack("<HiiiiiHH", block, level[0][1], len(blocks) - 1, 1, 1, 0, levels, 0)
    blocks[0] = ctl + bytes(block - len(ctl))
    return {"NODEX.ndx": b"".join(blocks), "NODEX.dat": bytes(dat), "NODEX.dtp": bytes(dtp)}
