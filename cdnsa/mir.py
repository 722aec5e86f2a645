"""The program: bodies, types, impls; and a pretty printer for debugging."""
import re
import sys


class Body:
    __slots__ = (
        "path", "kind", "crate", "argc", "locals", "blocks", "upvars", "parent", "span", "raw", "names",
        "_succ", "_live", "_borrowed",
    )

    def __init__(self, raw, crate):
        self.raw = raw
        self.crate = crate
        self.path = raw["path"]
        self.kind = raw["kind"]
        self.argc = raw["argc"]
        self.locals = raw["locals"]
        self.blocks = raw["blocks"]
        self.upvars = raw["upvars"]
        self.parent = raw.get("parent")
        self.span = raw["span"]
        self.names = {i: l[2] for i, l in enumerate(raw["locals"]) if len(l) > 2}

    @property
    def is_async(self):
        return bool(self.raw.get("async"))

    def succ(self, b):
        t = self.blocks[b][1]
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return [x[1] for x in t[2]] + [t[3]]
        if k in ("drop",):
            return [t[2]]
        if k == "call":
            return [] if t[4] is None else [t[4]]
        if k == "assert":
            return [t[4]]
        if k == "yield":
            return [t[1]]
        return []


class Program:
    def __init__(self, facts):
        self.bodies = {}
        self.adts = {}
        self.impls = []
        self.traits = {}
        self.statics = {}
        self.features = {}
        self.stolen = []
        for crate, f in facts.items():
            self.features[crate] = f["features"]
            self.stolen += f["stolen"]
            for b in f["bodies"]:
                self.bodies[b["path"]] = Body(b, crate)
            for a in f["adts"]:
                if a["path"] not in self.adts or a["local"]:
                    self.adts[a["path"]] = a
            self.impls += f["impls"]
            for t in f["traits"]:
                self.traits[t["path"]] = t
            for s in f["statics"]:
                self.statics[s["path"]] = s
        # trait method path -> [(self_head, impl method path)]
        self.impl_methods = {}
        self.drop_impls = {}
        for i in self.impls:
            for name, path, titem in i["items"]:
                if titem:
                    self.impl_methods.setdefault(titem, []).append((i["self_head"], path))
            if i["trait"] == "core::ops::drop::Drop":
                for name, path, _ in i["items"]:
                    self.drop_impls[i["self_head"]] = path
        self.children = {}
        for b in self.bodies.values():
            if b.parent:
                self.children.setdefault(b.parent, []).append(b.path)

    def find(self, pattern):
        r = re.compile(pattern)
        return [b for p, b in self.bodies.items() if r.search(p)]

    def body(self, path):
        return self.bodies.get(path)


def head(ty):
    """The ADT path of a type string, without arguments."""
    return ty.split("<", 1)[0] if not ty.startswith("<") else ty


def targs(ty):
    """Top-level type arguments of a type string."""
    i = ty.find("<")
    if i < 0 or not ty.endswith(">"):
        return []
    s = ty[i + 1 : -1]
    out, depth, cur = [], 0, ""
    for c in s:
        if c in "<({[":
            depth += 1
        elif c in ">)}]":
            depth -= 1
        if c == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def pp_place(p):
    s = f"_{p[0]}"
    for e in p[1:]:
        if e == "*":
            s = f"(*{s})"
        elif e[0] == "f":
            s += "." + (e[2] if len(e) > 2 else str(e[1]))
        elif e[0] == "v":
            s += f" as {e[2]}"
        else:
            s += str(e)
    return s


def pp_op(o):
    if "c" in o:
        return pp_place(o["c"])
    if "m" in o:
        return "move " + pp_place(o["m"])
    if "k" in o:
        k = o["k"]
        if "fn" in k:
            f = k["fn"]
            return f["p"] + (" => " + f["r"] if "r" in f and f["r"] != f["p"] else "") + ("[" + f["self"] + "]" if "self" in f else "")
        for x in ("s", "i", "b", "static", "bytes", "d", "named"):
            if x in k:
                return f"const {x}:{k[x]!r}:{k['t']}"
        return "const " + str(k)
    return str(o)


def pp(b, out=sys.stdout):
    print(f"fn {b.path} kind={b.kind} argc={b.argc} upvars={b.upvars}", file=out)
    for i, l in enumerate(b.locals):
        print(f"   _{i}: {l[0]}" + (f"   // {l[2]}" if len(l) > 2 else ""), file=out)
    for i, (st, t, sp, cl) in enumerate(b.blocks):
        if cl:
            continue
        print(f"  bb{i}:   # {sp[0].split('/')[-1]}:{sp[1]} {sp[2] if len(sp) > 2 else ''}", file=out)
        for s in st:
            if s[0] == "=":
                r = s[2]
                if r[0] == "use":
                    rs = pp_op(r[1])
                elif r[0] == "ref":
                    rs = r[1] + " " + pp_place(r[2])
                elif r[0] == "agg":
                    rs = f"{r[1][:4]}(" + ", ".join(pp_op(x) for x in r[2]) + ")"
                elif r[0] == "bin":
                    rs = f"{r[1]}({pp_op(r[2])}, {pp_op(r[3])})"
                elif r[0] == "discr":
                    rs = f"discr({pp_place(r[1])}) {r[2]}"
                elif r[0] == "cast":
                    rs = f"{pp_op(r[2])} as {r[3]} [{r[1]}]"
                else:
                    rs = str(r)
                print(f"     {pp_place(s[1])} = {rs}", file=out)
            elif s[0] in "LD":
                print(f"     {s[0]} _{s[1]}", file=out)
        k = t[0]
        if k == "call":
            print(f"     {pp_place(t[3])} = CALL {pp_op(t[1])}({', '.join(pp_op(a) for a in t[2])}) -> {t[4]}", file=out)
        elif k == "switch":
            print(f"     switch {pp_op(t[1])} {t[2]} else {t[3]}", file=out)
        elif k == "drop":
            print(f"     drop {pp_place(t[1])} -> {t[2]} : {t[3]}", file=out)
        else:
            print(f"     {t}", file=out)


if __name__ == "__main__":
    import os
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    from cdnsa import facts
    f, info = facts.extract("default")
    p = Program(f)
    if len(sys.argv) > 1:
        for b in p.find(sys.argv[1]):
            pp(b)
    else:
        for x in p.bodies.values():
            if "capnp" not in x.path and "rkyv" not in x.path:
                print(x.kind, x.path, len(x.blocks))
