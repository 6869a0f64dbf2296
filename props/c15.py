"""C15: AreaFix does what an authorised node may ask for, and nothing else."""
from pbt.afgen import *

ID = "C15"
BUDGET = {"quick": 5200, "thorough": 40000}
RULE = ("random system (nodes with passwords, access groups, forward rights; areas with groups, bans, MANDATORY/DEFREADONLY, pass-through or with messages; area lists) x sequences of 1-4 runs: requests by netmail with right/wrong "
        "passwords and 0-8 generated commands (several requests in one run too), and operator commands that send lists or remove areas; non-trivial = at least one area link, area or node setting changed, or a list sent")


def gen(d):
    c = gen_af_system(d)
    return Cfg(c=c, ops=gen_ops(d, c))


def check(case, env):
    c = case.c
    w = World(env)
    af_setup(w, c)
    w.write("cfg", cfgtext(w, c))
    model = AFModel(c)
    check_config(w, c, model, "before")
    total, key = [], []
    for i, op in enumerate(case.ops):
        w.now += 2
        play_op(w, c, model, op, i)
        name = "run %d (%s)" % (i, op[0] if op[0] == "toss" else " ".join(op))
        check_mail(w, c, model, name)
        check_config(w, c, model, name)
        check_imported(w, c, model, total)
        check_clean(w)
        key.append((sorted(model.touched), len(model.mails), [m.subj for m in model.mails], model.rescans))
        clear_out(w)
    if not any(k[0] or k[1] for k in key):
        return None
    return key


describe = describe_ops
