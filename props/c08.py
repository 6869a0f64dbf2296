"""C08: netmail passes through and is stored unaltered."""
from pbt.netgen import *

ID = "C08"
BUDGET = {"quick": 6000, "thorough": 60000}
RULE = ("1-8 netmails (8-bit text, long lines, long texts over several blocks, unterminated last lines, LF line ends, every attribute, kludges in any order) tossed or exported, routed or stored; "
        "non-trivial = at least one netmail compared byte for byte, distinct by texts")


def gen(d):
    return gen_netcase(d, content=0.9, attach=0, loops=0.2, nodelist=0.2, attrp=0.25)


def check(case, env):
    w, model = play_net(case, env)
    check_net(w, case, model, dest=False, content=True, generated=False, bad=False)
    if not model.queued and not model.stored:
        return None
    return [[m.text for p in case.pkts for m in p.msgs], [m.text for m in case.exports], case.c.switches]


describe = describe_net
