"""What the kinds of messages are written as and read from."""
from . import check
from .common import *
from ..graph import op_fn
from ..mir import head

MSG = "cdn_proto::message::Message"
WIRE = "messages_capnp::"


def camel(s):
    return "".join(x[:1].upper() + x[1:] for x in s.split("_"))


def wire(path):
    """(struct, function) of the generated code."""
    i = path.find(WIRE)
    if i < 0:
        return None
    p = path[i + len(WIRE) :].split("::")
    return (p[0], p[-1])


def peel(t):
    """Without what keeps a sequence of bytes or a number as it is."""
    while True:
        if t.op in ("addr", "conv", "clone") or t.op == "deref" and t.args[0].op != "param":
            t = t.args[0]
        elif t.op == "call" and "capnp" in t.args[0] and t.args[0].endswith(("Reader::iter", "into_iter")):
            t = V(t.args[1][0])
        else:
            return t


def field_path(t):
    """[(variant, field)...] from the message down to what t denotes."""
    t = peel(t)
    out = []
    while t.op == "fld":
        out.append((str(t.args[1]), str(t.args[3])))
        t = peel(t.args[0])
    if t.op == "deref":
        t = t.args[0]
    return tuple(reversed(out)) if t.op == "param" else None


PUSH = ("Vec::push", "VecDeque::push_back", "primitive_list::Builder::set")


def element(x):
    """(sequence, position) when x is an element of a sequence that is gone through from its start, as it is."""
    x = peel(V(x))
    if x.op == "item" and x.args[0] == "item":
        return peel(V(x.args[1][0])), T("sym", "index", (), x.args[-1])
    if x.op == "call" and x.args[0].endswith(("::index", "Reader::get", "::get_unchecked", "slice::get")) and len(x.args[1]) == 2 or x.op == "idx":
        s, i = (x.args[1] if x.op == "call" else x.args[:2])
        s, i = peel(V(s)), peel(V(i))
        if i.op == "item" and i.args[0] == "item":
            r = V(i.args[1][0])
            if r.op == "agg" and r.args[0].endswith("range::Range") and r.args[3][0].op == "int" and r.args[3][0].args[0] == 0:
                n = V(r.args[3][1])
                of = n.args[0] if n.op == "len" else n.args[1][0] if n.op == "call" and n.args[0].endswith("::len") else None
                if of is not None and peel(V(of)) is s:
                    return s, i
    return None


def over_what(t):
    """The sequence that a loop over t goes through."""
    t = V(t)
    if t.op == "agg" and t.args[0].endswith("range::Range"):
        n = V(t.args[3][1])
        if n.op == "len":
            return peel(V(n.args[0]))
        if n.op == "call" and n.args[0].endswith("::len"):
            return peel(V(n.args[1][0]))
    return peel(t)


class Codec(Rule):
    """Marks: ("due", iterator): an element was taken and not been put anywhere yet; ("part",): only some are gone through."""

    aut_live = True

    def inline(self, path, frame):
        return WIRE not in path and super().inline(path, frame)

    def add(self, st, *m):
        if m not in (st.aut or ()):
            st.aut = (st.aut or ()) + (m,)

    def on_call(self, eng, c):
        if c.matches(*PUSH):
            self.put(c.st)
        return None

    def put(self, st):
        st.aut = tuple(y for y in st.aut or () if y[0] != "due")

    def on_next(self, eng, st, it, item, frame, block):
        b = block[0] if isinstance(block, tuple) else block
        f = op_fn(frame.body.blocks[b][1][1]) if frame.body.blocks[b][1][0] == "call" else None
        if f and f["p"].endswith("::next"):
            if it.op != "iter" or any(s[0] not in ("enumerate", "copied", "cloned", "map") for s in it.args[1]):
                self.add(st, "part")
            elif item is not None:
                self.add(st, "due", it)
            else:
                self.add(st, "none", it.args[0])

    def on_loop(self, eng, st, frame, loop, head_):
        self.ctx.ob("lists-are-complete", not self.partial(st), site(frame, head_), "an element of a list can be left out")
        self.put(st)

    def partial(self, st):
        return any(m[0] in ("due", "part") for m in st.aut or ())


def whole(ctx, v, st=None):
    """The sequence all of whose elements, as they are, the collection v holds; or None."""
    v = peel(V(v))
    if v.op != "lcoll":
        return v
    els = list(v.args[1])
    if not els and st is not None:
        # a loop went over an empty sequence
        over = {over_what(m[1]) for m in st.aut or () if m[0] == "none"}
        return over.pop() if len(over) == 1 else None
    if len(els) == 1 and element(els[0]):
        return element(els[0])[0]
    if len(els) != 1 or els[0].op != "spreadit" or els[0].args[0].op != "iter":
        return None
    it = els[0].args[0]
    for s in it.args[1]:
        if s[0] in ("copied", "cloned"):
            continue
        if s[0] != "map" or not same_element(ctx, s[1]):
            return None
    return peel(V(it.args[0]))


def same_element(ctx, f):
    """Does the function give its argument back?"""
    if f.op == "clo":
        b = ctx.prog().bodies.get(f.args[0])
        if b is None:
            return False
        outs = ctx.run(f.args[0], Codec(ctx))
        for v, st in outs:
            v = peel(V(v))
            if v.op != "param" or v.args[0] == "self":
                return False
        return bool(outs) and b.raw["argc"] == 2
    s = repr(f.args)
    return "Into::into" in s or "From" in s or "Clone::clone" in s


class Write(Codec):
    """Marks: ("kind", kind, builder), ("field", kind, field, value), ("list", kind, length), ("el", kind, value), ("due",)."""

    def __init__(self, ctx, variant="default"):
        super().__init__(ctx, variant)
        self.lists = 0

    def kind_of(self, b):
        """(kind, field) that a builder is for."""
        b = peel(V(b))
        w = wire(b.args[0]) if b.op == "call" else None
        if w and w[1].startswith("init_"):
            return (w[1][5:], "") if w[0] == "message" else (self.kind_of(b.args[1][0])[0], w[1][5:])
        if w and w[1] == "reborrow" and w[0] != "message":
            return self.kind_of(b.args[1][0])
        return (None, None)

    def on_call(self, eng, c):
        w = wire(c.path)
        a = [eng.strip_ptr(c.st, x) for x in c.args]
        if w and w[0] == "message" and w[1].startswith("init_"):
            self.add(c.st, "kind", w[1][5:])
            if len(a) > 1:
                self.add(c.st, "len", "", V(a[1]))
        elif w and w[1].startswith("init_") and len(a) > 1:
            self.add(c.st, "len", w[1][5:], V(a[1]))
        elif w and w[0] == "message" and w[1].startswith("set_"):
            self.add(c.st, "kind", w[1][4:])
            self.add(c.st, "field", w[1][4:], "", V(a[1]))
        elif w and w[1].startswith("set_"):
            self.add(c.st, "field", self.kind_of(a[0])[0], w[1][4:], V(a[1]))
        elif c.matches("primitive_list::Builder::set") and len(a) == 3:
            # the i-th element goes to the i-th place
            i, e = peel(V(a[1])), element(a[2])
            self.add(c.st, "el", self.kind_of(a[0])[1], e[0] if e and e[1] is i else None)
            self.put(c.st)
        elif c.matches(*PUSH):
            self.put(c.st)
        return None


def lib_error(st):
    """Has a library call refused on this path?"""
    for k, f in st.facts.items():
        if f[0] == "V" and f[1] == {"Err"} and k.op == "call" and ("capnp" in k.args[0] or "core::" in k.args[0] or "std::" in k.args[0] or "alloc::" in k.args[0]):
            return True
        if f[0] == "V" and f[1] == {"Err"} and k.op in ("pure", "fld", "as"):
            return True
        if f[0] == "I" and f[1] >= 1 << 29 and (k.op == "len" or k.op == "sym" and k.args[0] == "index"):
            return True  # longer than a list can be
    return False


@check("C26", "dataflow over MIR of the encoder and the decoder: which wire kind and wire field each field of each kind of message goes to and comes from, whole, and what makes them refuse")
def c26(ctx):
    prog = ctx.prog()
    ad = prog.adts.get(MSG)
    if not ctx.need(ad, "the message type"):
        return
    kinds = [v[0] for v in ad["variants"]]

    def fields(kind):
        v = next(x for x in ad["variants"] if x[0] == kind)
        tys = [f[1] for f in v[2]]
        if len(tys) == 1:
            s = prog.adts.get(head(tys[0]))
            if s and s.get("local"):
                return [("0", f[0]) for f in s["variants"][0][2]]
        return [("0",)]

    enc, dec = MSG + "::serialize", MSG + "::deserialize"
    if not ctx.need(enc in prog.bodies and dec in prog.bodies, "the encoder and the decoder"):
        return
    # ---- writing
    ck = Write(ctx)
    wmap, lists = {}, {}
    for v, st in ctx.run(enc, ck):
        v = V(v)
        if v.op == "agg" and v.args[1] == "Err":
            ctx.ob("refused-only-by-the-library", lib_error(st), enc, "a message can be refused although it can be encoded")
            continue
        ks = {m[1] for m in st.aut or () if m[0] == "kind"}
        self_ = [f[1] for k, f in st.facts.items() if f[0] == "V" and k.op == "deref" and k.args[0].op == "param"]
        kind = next(iter(self_[0])) if len(self_) == 1 and len(self_[0]) == 1 else None
        if not ctx.ob("one-kind-each", kind is not None and len(ks) == 1, enc, f"a message is written as {sorted(map(str, ks))}", str(kind)):
            continue
        k = next(iter(ks))
        r = V(v.args[3][0]) if v.op == "agg" else v
        ctx.ob("the-encoding-is-returned", any(is_call(x, "write_message_segments_to_words", "write_message_to_words") for x in walk(r)) and all(x.op in ("call", "addr", "conv", "deref", "fld", "clone") for x in walk(r)), enc, "what is returned is not exactly the encoded message: " + show(r)[:100], kind)
        ctx.ob("lists-are-complete", not ck.partial(st), enc, "an element of a list can be left out when a message is written")
        got = {}
        for m in st.aut or ():
            if m[0] == "field":
                s = whole(ctx, m[3], st)
                got.setdefault(m[2], set()).add(field_path(s) if s is not None else None)
            if m[0] == "el":
                got.setdefault(m[1], set()).add(field_path(m[2]) if m[2] is not None else None)
            if m[0] == "len":
                n = m[2]
                got.setdefault(m[1], set()).add(field_path(n.args[0]) if n.op == "len" else None)
        one = wmap.setdefault(kind, {})
        for f, ps in got.items():
            p = next(iter(ps)) if len(ps) == 1 else None
            ok_ = p is not None and p[0][0] == kind
            ctx.ob("written-whole-from-one-field", ok_, enc, f"a wire field does not get exactly one field of the message as it is ({kind}.{f})", kind + "." + f)
            if ok_:
                one.setdefault(f, set()).add(tuple(x[1] for x in p))
        one.setdefault("#kind", set()).add(k)
        want = set(fields(kind))
        have = {next(iter(s)) for f, s in one.items() if f != "#kind" and len(s) == 1}
        if any(m[0] == "len" for m in st.aut or ()):
            lists[kind] = lists.get(kind, False) or any(m[0] == "el" for m in st.aut or ())
        ctx.ob("every-field-is-written", have == want, enc, f"not every field of the message is written ({kind}: {sorted(have)} of {sorted(want)})", kind)
    for kind, some in lists.items():
        ctx.ob("lists-are-complete", some, enc, f"the elements of a list are not written ({kind})", kind)
    # ---- reading
    rmap = {}
    rd = Codec(ctx)
    for v, st in ctx.run(dec, rd):
        v = V(v)
        if v.op == "agg" and v.args[1] == "Err":
            ctx.ob("refused-only-by-the-library", lib_error(st), dec, "bytes that are a message can be refused")
            continue
        if not ctx.ob("decodes-to-a-kind", v.op == "agg" and v.args[1] == "Ok" and V(v.args[3][0]).op == "agg", dec, "what is decoded is not told: " + show(v)[:100]):
            continue
        m = V(v.args[3][0])
        kind = m.args[1]
        ctx.ob("lists-are-complete", not rd.partial(st), dec, "an element of a list can be left out when a message is read")
        ws = {next(iter(f[1])) for k, f in st.facts.items() if f[0] == "V" and len(f[1]) == 1 and any(is_call(x, "Reader::which") for x in walk(k)) and next(iter(f[1])) not in ("Ok", "Err", "Some", "None")}
        if not ctx.ob("one-kind-each", len(ws) == 1, dec, f"a message is read from {sorted(ws)}", kind):
            continue
        one = rmap.setdefault(kind, {})
        one.setdefault("#kind", set()).add(next(iter(ws)))
        p = V(m.args[3][0])
        names = fields(kind)
        vals = list(p.args[3]) if names[0] != ("0",) and p.op == "agg" else [p]
        if not ctx.ob("every-field-is-read", len(vals) == len(names), dec, f"not every field of the message is read ({kind})", kind):
            continue
        for n, x in zip(names, vals):
            s = whole(ctx, x, st)
            f = source(s) if s is not None else None
            ctx.ob("read-whole-from-one-field", f is not None, dec, f"a field of the message is not one wire field as it is ({kind}.{n[-1]}): " + show(V(x))[:100], kind + "." + n[-1])
            if f is not None:
                one.setdefault(f, set()).add(n)
    # ---- alike
    for kind in kinds:
        w, r = wmap.get(kind), rmap.get(kind)
        ctx.ob("every-kind-both-ways", w is not None and r is not None, MSG, f"a kind of message cannot be written or read: {kind}", kind)
        if w and r:
            ctx.ob("read-as-written", {camel(x) for x in w["#kind"]} == r["#kind"] and len(r["#kind"]) == 1, MSG, f"a kind of message is not read back from what it is written as: {kind}", kind)
            ctx.ob("read-as-written", {k: x for k, x in w.items() if k != "#kind"} == {k: x for k, x in r.items() if k != "#kind"}, MSG, f"the fields of a message are not read back from where they are written to: {kind}", kind + ".fields")
    ks = [x for w in wmap.values() for x in w["#kind"]]
    ctx.ob("kinds-are-distinct", len(ks) == len(set(ks)), MSG, "two kinds of messages are written alike")
    # ---- how much is read
    limits(ctx, dec)


def source(s):
    """The wire field a value is, as it is; '' for the whole of a kind."""
    s = peel(s)
    n = 12
    while n and isinstance(s, T):
        n -= 1
        if s.op == "fld" and s.args[1] in ("Ok", "Some"):
            s = peel(s.args[0])
        elif s.op == "call" and s.args[0].endswith(("Reader::to_string", "Reader::to_str")) and WIRE not in s.args[0]:
            s = peel(V(s.args[1][0]))
        elif s.op in ("pure", "call") and s.args[0].endswith(("str::from_utf8", "String::from_utf8", "converts::from_utf8")):
            s = peel(V(s.args[1][0]))
        else:
            break
    w = wire(s.args[0]) if s.op == "call" else None
    if w and w[1].startswith("get_"):
        return w[1][4:]
    if s.op == "fld" and any(is_call(x, "Reader::which") for x in walk(s)) and s.args[1] not in ("Ok", "Err"):
        return ""
    return None


class Limits(Codec):
    def __init__(self, ctx, variant="default"):
        super().__init__(ctx, variant)
        self.n = 0

    def on_call(self, eng, c):
        if c.matches("ReaderOptions::traversal_limit_in_words"):
            a = V(eng.strip_ptr(c.st, c.args[1]))
            c.st.aut = (c.st.aut or ()) + (("limit", c.args[0], a),)
        if c.matches("serialize::read_message", "serialize::read_message_from_flat_slice", "serialize::read_message_from_flat_slice_no_alloc", "serialize::try_read_message"):
            self.n += 1
            b = eng.strip_ptr(c.st, c.args[0])
            ls = [m[2] for m in c.st.aut or () if m[0] == "limit"]
            good = bool(ls)
            if ls:
                a = ls[-1]
                if a.op == "agg" and a.args[1] == "Some":
                    good = enough(V(a.args[3][0]))
                else:
                    good = a.op == "agg" and a.args[1] == "None"
            self.ctx.ob("large-messages-are-read", good, c.where(), "a message that is large can be refused: reading is limited to " + (show(ls[-1])[:80] if ls else "the library's default"))
            self.ctx.ob("decodes-what-was-given", any(x.op == "param" for x in walk(b)) and all(x.op in ("param", "deref", "addr", "conv") for x in walk(b)), c.where(), "what is decoded is not exactly the bytes that were given: " + show(b)[:100])
        return super().on_call(eng, c)


def enough(t):
    """At least as many as the bytes given (or as a frame can have)."""
    if t.op == "int":
        return t.args[0] >= (1 << 29) // 8
    if t.op == "len":
        return True
    if t.op in ("bin", "sat", "pure", "call") or t.op == "cast":
        xs = [V(x) for x in t.args if isinstance(x, T)] + [V(x) for a in t.args if isinstance(a, tuple) for x in a if isinstance(x, T)]
        name = str(t.args[0])
        if any(k in name.lower() for k in ("add", "mul", "max")):
            return any(x.op == "len" or x.op == "int" and x.args[0] >= (1 << 26) for x in xs)
        if "div_ceil" in name:
            return len(xs) == 2 and xs[0].op == "len" and xs[1].op == "int" and 0 < xs[1].args[0] <= 8
    return False


def limits(ctx, dec):
    ck = Limits(ctx)
    ctx.run(dec, ck)
    ctx.need(ck.n, "where bytes are taken for a message")
