"""Run the value-flow evaluation on one function and collect observables."""
import ast
from .terms import *  # noqa: F401,F403
from . import terms as tm
from .interp import (Interp, HObj, Frame, attr_key, attr_name, Unsupported,
                     unpy)


class Result:
    def __init__(self, it, fi, ret, out, args, self_ref):
        self.it, self.fi, self.ret, self.out = it, fi, ret, out
        self.args, self.self_ref = args, self_ref
        self.events = it.events
        self.locs = it.locs

    def raises(self):
        return bany(e.guard for e in self.events if e.kind == "raise")

    def attrs(self):
        """Final attribute values of self that were written."""
        if self.self_ref is None:
            return {}
        h = self.it.st.heap[self.self_ref.id]
        out = {}
        for k, v in h.items.items():
            out[attr_name(k)] = self.it.freeze(v)
        # objects held by attributes and changed in place
        for b in list(self.it.held.values()):
            if b.args[0] is h.base and b.data not in out:
                v = self.it.freeze(b)
                if v is not b:
                    out[b.data] = v
        return out

    def inner_attrs(self):
        """Attributes whose object is changed in place."""
        out = set()
        for e in self.events:
            if e.kind == "mutate" and e.args:
                o = e.args[0]
                while o.op == "index":
                    o = o.args[0]
                if o.op == "attr" and o.args[0].op == "sym":
                    out.add(o.data)
        return out

    def calls(self, head):
        return [e for e in self.events if e.kind in ("call", "extcall",
                                                     "methcall")
                and (e.name == head or e.kind == "extcall" and
                     e.name.endswith(".COMM_WORLD." + head))]


def analyse(repo, fi, boundaries=(), args=None, cls=None, own=False,
            opts=None, self_attrs=None):
    """Evaluate fi on symbolic arguments."""
    it = Interp(repo, boundaries, own, opts)
    a = fi.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    vals, kw = [], {}
    self_ref = None
    args = args or {}
    used = {}
    for i, n in enumerate(names):
        if i == 0 and fi.cls is not None and \
                "staticmethod" not in fi.decorators:
            base = sym("self")
            self_ref = it.alloc(HObj("inst", base, {}, cls or fi.cls))
            for k, v in (self_attrs or {}).items():
                it.st.heap[self_ref.id] = it.hobj(self_ref).with_item(
                    attr_key(k), v)
            vals.append(self_ref)
            continue
        v = args.get(n)
        if callable(v):
            v = v(it)
        if v is None:
            v = sym(n)
        used[n] = v
        vals.append(v)
    for x in a.kwonlyargs:
        v = args.get(x.arg)
        if callable(v):
            v = v(it)
        kw[x.arg] = v if v is not None else sym(x.arg)
        used[x.arg] = kw[x.arg]
    if a.kwarg:
        kw["**"] = args.get("**", sym(a.kwarg.arg))
    if a.vararg:
        vals.append(mk("starred", (sym(a.vararg.arg),)))
    # the analysed function itself is never a boundary of its own analysis
    key = it.fkey(fi)
    saved = set(it.boundaries)
    it.stack.append(Frame(fi.module))
    top = fi
    it.root = fi
    ret = it.call_fi_root(fi, vals, kw)
    it.stack.pop()
    out = it.st.pc
    return Result(it, fi, it.freeze(ret), out, used, self_ref)
