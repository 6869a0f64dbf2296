"""Independent reader for crashmail.prefs: what areas and nodes a file defines."""
from .fido import A, Addr


def words(line):
    """split a prefs line the documented way: blanks separate, quotes group, \\ escapes"""
    out, i, n = [], 0, len(line)
    while i < n:
        while i < n and line[i] in " \t":
            i += 1
        if i >= n:
            break
        w = ""
        quoted = False
        if line[i] == '"':
            quoted = True
            i += 1
        while i < n:
            ch = line[i]
            if ch == "\\" and i + 1 < n:
                w += line[i + 1]
                i += 2
                continue
            if quoted and ch == '"':
                i += 1
                break
            if not quoted and ch in " \t":
                break
            w += ch
            i += 1
        out.append(w)
    return out


AREAKW = {"IGNORESEENBY", "IGNOREDUPES", "DEFREADONLY", "MANDATORY", "UNCONFIRMED", "KEEPNUM", "KEEPDAYS", "GROUP", "DESCRIPTION", "BANNED",
          "EXPORT", "IMPORT"}
NODEKW = {"DEFAULTGROUP", "REMOTESYSOP", "REMOTEAF", "AREAFIXINFO", "PKTFROM"}


def parse(text):
    """-> areas {TAG: dict}, nodes {addr: dict}, other lines (list), in file order"""
    areas, nodes, other = {}, {}, []
    area = node = None
    for raw in text.split("\n"):
        line = raw.rstrip("\r")
        ws = words(line)
        if not ws or ws[0].startswith(";"):
            if ws:
                other.append(line)
            continue
        k = ws[0].upper()
        if k in ("AREA", "NETMAIL", "LOCALAREA"):
            area = dict(kind=k, tag=ws[1], aka=A(ws[2]) if len(ws) > 2 else None, mb=ws[3] if len(ws) > 3 else None, path=ws[4] if len(ws) > 4 else None,
                        exports=[], imports=[], banned=[], flags=set(), desc="", group="", keepnum=0, keepdays=0)
            if ws[1].upper() in areas:
                raise ValueError("area %s defined twice" % ws[1])
            areas[ws[1].upper()] = area
            node = None
        elif k == "NODE":
            node = dict(addr=A(ws[1]), packer=ws[2] if len(ws) > 2 else "", pw=ws[3] if len(ws) > 3 else "", flags=set(x.upper() for x in ws[4:]),
                        pktfrom=None, af=("", "", "", ""), remoteaf=None, sysop="", defgroup="")
            if node["addr"] in nodes:
                raise ValueError("node %s defined twice" % ws[1])
            nodes[node["addr"]] = node
            area = None
        elif k in AREAKW and area is not None:
            if k == "EXPORT":
                for x in ws[1:]:
                    f = ""
                    while x[0] in "!@%":
                        f += x[0]
                        x = x[1:]
                    area["exports"].append((f, A(x)))
            elif k == "IMPORT":
                area["imports"] += [A(x) for x in ws[1:]]
            elif k == "BANNED":
                area["banned"] += [A(x) for x in ws[1:]]
            elif k == "DESCRIPTION":
                area["desc"] = ws[1]
            elif k == "GROUP":
                area["group"] = ws[1][:1].upper()
            elif k in ("KEEPNUM", "KEEPDAYS"):
                area[k.lower()] = int(ws[1])
            else:
                area["flags"].add(k)
        elif k in NODEKW and node is not None:
            if k == "PKTFROM":
                node["pktfrom"] = A(ws[1])
            elif k == "DEFAULTGROUP":
                node["defgroup"] = ws[1][:1].upper()
            elif k == "AREAFIXINFO":
                node["af"] = tuple(x if i == 0 else x.upper() for i, x in enumerate((ws[1:] + [""] * 4)[:4]))
            elif k == "REMOTEAF":
                node["remoteaf"] = tuple(ws[1:3] + [x.upper() for x in ws[3:]])
            elif k == "REMOTESYSOP":
                node["sysop"] = ws[1]
        else:
            other.append(line)
    return areas, nodes, other
