"""C07: netmail goes where the configuration says, with the right priority."""
from pbt.netgen import *

ID = "C07"
BUDGET = {"quick": 5000, "thorough": 60000}
RULE = ("random system x generated nodelist x 0-5 ROUTE, CHANGE, IMPORT settings with every pattern form x 1-8 netmails tossed from packets of every type or exported from netmail areas, with and without INTL/FMPT/TOPT; "
        "non-trivial = at least one netmail was routed or stored, distinct by routes and addresses")


def gen(d):
    return gen_netcase(d, content=0.1, attach=0.05, loops=0.05, dirty=False)


def check(case, env):
    w, model = play_net(case, env)
    check_net(w, case, model, dest=True, content=False, generated=True, bad=False)
    if not model.queued and not model.stored:
        return None
    return [case.c.routes, case.c.change, [(str(t), ty, str(m.dest)) for t, ty, _, m, _ in model.queued], [(a.tag, str(m.dest)) for a, m in model.stored]]


describe = describe_net
