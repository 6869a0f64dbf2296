"""C09: mail that cannot be delivered is bounced or kept; receipts, audits, loops and attached files are dealt with."""
from pbt.netgen import *

ID = "C09"
BUDGET = {"quick": 5000, "thorough": 60000}
RULE = ("netmail to unlisted nodes, unknown points, unroutable nodes, with receipt/audit requests, own Via lines, attached files, under every combination of BOUNCE, BOUNCEPOINTS, FILEATTACH, ANSWERRECEIPT, ANSWERAUDIT, LOOPMODE; "
        "non-trivial = some bounce, receipt, audit, BAD copy or attachment resulted, distinct by kind and addresses")


def gen(d):
    case = gen_netcase(d, content=0.4, attach=0.25, loops=0.3, nodelist=0.7, attrp=0.3)
    if not case.exports and d.bool(0.3):
        case.c.switches.append("ADDTID")
    return case


def check(case, env):
    w, model = play_net(case, env)
    check_net(w, case, model, dest=True, content=True, generated=True, bad=True)
    have, want = check_attach(w, case, model)
    if sorted(set(have), key=repr) != want:
        raise Fail("attached files queued: %r, expected %r" % (have, want))
    if len(have) != len(set(have)):
        raise Fail("attached file queued twice: %r" % (have,))
    gen_ = [(m.subj, str(m.dest)) for _, _, _, m, _ in model.queued if m.auto] + [(m.subj, str(m.dest)) for _, m in model.stored if m.auto]
    if not gen_ and not model.bad and not want:
        return None
    return [gen_, [(r, str(m.dest)) for m, r in model.bad], want]


describe = describe_net
