import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *          # noqa
import vlib                 # noqa

CFG = "SPECIFICATION Spec\n"


def graph(c, module, consts, invs=(), view="Canon", emit="EmitT", timeout=600, **kw):
    """Exhaustive: all states of the abstract state graph, one history per transition."""
    body = CFG + ("INVARIANTS " + " ".join(invs) + "\n" if invs else "") + "VIEW %s\nACTION_CONSTRAINT %s\n" % (view, emit)
    r = tlc(module, body=body, consts=consts, timeout=timeout, **kw)
    if not r.ok:
        raise ToolError("%s: %s\n%s" % (module, r.violated, r.output[-3000:]))
    c.add_tlc(r)
    log("%s: %d histories, %d states, %.1fs" % (module, len(r.emitted), r.states, r.wall))
    return r.emitted


def walks(c, module, consts, num, depth, invs=(), emit="EmitH", timeout=600, **kw):
    """Random long histories."""
    body = CFG + "INVARIANTS " + " ".join(list(invs) + [emit]) + "\n"
    r = tlc(module, body=body, consts=consts, simulate=num, depth=depth, seed=c.seed, timeout=timeout, **kw)
    if not r.ok:
        raise ToolError("%s: %s\n%s" % (module, r.violated, r.output[-3000:]))
    c.add_tlc(r)
    log("%s: %d histories, %d states, %.1fs" % (module, len(r.emitted), r.states, r.wall))
    return r.emitted
