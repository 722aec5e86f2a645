"""What keeps the recognised topics of a message: one arbitrary topic is followed through Topic::prune."""
from .common import *
from ..engine import Engine, State
from ..models import OTHERS, has_wit

VEC = "alloc::vec::Vec"
TOPIC = T("wit", "topic")
PRUNE = "Topic::prune"


class Prune(Rule):
    witness = True
    anonymous = True

    def __init__(self, ctx, valid):
        super().__init__(ctx)
        self.reach = None
        self.valid = valid
        self.asked = 0

    def inline(self, path, frame):
        return not path_is(path, "TryFrom::try_from")

    def on_call(self, eng, c):
        if c.matches("TryFrom::try_from", "TryInto::try_into") and len(c.args) == 1 and c.destty.startswith(RESULT):
            x = V(eng.strip_ptr(c.st, c.args[0]))
            while x.op in ("clone", "deref", "conv"):
                x = V(x.args[0])
            if x is TOPIC:
                self.asked += 1
                r = eng.fresh(c.st, "recognised", (x,), c.frame, c.block)
                return [(ok(r) if self.valid else err(r), c.st)]
        return None


def recognised(ctx):
    """Topic::prune leaves exactly the topics that the topic type recognises."""
    prog = ctx.prog()
    fns = [p for p in prog.bodies if path_is(p, PRUNE)]
    ctx.need(fns, PRUNE)
    for p in fns:
        n = 0
        for has in (True, False):
            for valid in (True, False):
                ck = Prune(ctx, valid)
                st = State()
                cell = ("self", 0)
                st.mem[cell] = T("lcoll", VEC, frozenset([TOPIC, OTHERS] if has else [OTHERS]))
                e = Engine(prog, ck, budget=200000)
                outs = e.run(p, [T("ref", cell, ())], st=st)
                n += ck.asked
                ctx.n["roots"] += 1
                for k in ("blocks", "states", "calls"):
                    ctx.n[k] += e.stats[k]
                ctx.bodies |= e.stats["bodies"]
                if p not in ctx.rootnames:
                    ctx.rootnames.append(p)
                for v, s in outs:
                    v = V(v)
                    after = has_wit(e, s, s.mem[cell])
                    failed = v.op == "agg" and v.args[1] == "Err"
                    if has and valid:
                        ctx.ob("recognised-topics-are-kept", after is True and not failed, p, "a recognised topic of a message is dropped")
                    elif not failed:
                        ctx.ob("only-recognised-topics", after is False, p, "a topic that is not recognised is kept" if has else "a topic that was not named is added")
        ctx.need(n, "the question whether a topic is recognised")
