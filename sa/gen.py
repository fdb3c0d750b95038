"""Abstract model of a compilation: the code generator driven element-wise.

The generator's own public methods are abstractly interpreted on elements
whose directive *names* are known and whose directive values, attribute
values, positions and contents are opaque terms.
"""
import ast

from .engine import Engine, Broken
from .values import (
    C, T, S, TUP, R, BOUND, NONE, TRUE, FALSE, Const, Term, Str, Tup, Ref,
    Func, HList, HDict, HInst, V)

COMPILER = T('compiler')
CERR = T('compilererror')
_NODE = ast.parse('f()').body[0].value


def cexpr(v):
    return T('cexpr', v)


class Gen:
    """An abstract generator in its initial state."""

    def __init__(self, prog, xml=False, source=True, loop_k=1,
                 cls=('talgenerator', 'TALGenerator'), compile_raises=False,
                 **engopts):
        self.prog = prog
        self.xml = xml
        self.compile_raises = compile_raises
        self.cls = prog.cls(*cls)
        self.eng = Engine(prog, hooks=[self], loop_k=loop_k, **engopts)
        st = prog.start()
        st.facts[COMPILER] = True
        kw = {'xml': C(1 if xml else 0)}
        self.source = T('source_file') if source else NONE
        if source:
            self.eng.nonnull.add(self.source)
            kw['source_file'] = self.source
        outs = self.eng.instantiate(st, self.cls, [COMPILER], kw, _NODE)
        outs = [o for o in outs if o[0] == 'ok']
        if not outs:
            raise Broken('the generator cannot be constructed')
        _, self.state, self.ref = outs[0]
        self.state.trace, self.state.n = None, 0

    # ---- engine hooks
    def is_object(self, v):
        return v is COMPILER

    def on_event(self, eng, st, ev, node):
        if ev.recv is COMPILER:
            if ev.name == 'compile':
                v = ev.args[0] if ev.args else NONE
                res = [('ok', st, cexpr(v))]
                if self.compile_raises:
                    s = st.fork()
                    res.insert(0, ('raise', s, T('excof', CERR)))
                return res
            if ev.name == 'getCompilerError':
                return [('ok', st, CERR)]
        return None

    # ---- driving
    def method(self, name):
        return self.prog.need_method(self.cls, name)

    def call(self, st, name, args=(), kw=None):
        fn = self.method(name)
        return self.eng.call(st, BOUND(self.ref, fn), list(args),
                             dict(kw or {}), fn.fi.node)

    def dict(self, st, d):
        return self.eng.alloc(st, HDict([(C(k), v) for k, v in d.items()]))

    def seq(self, st, *calls):
        """Run calls one after the other; [(kind, st, val)]."""
        outs = [('ok', st, NONE)]
        for c in calls:
            nxt = []
            for k, s, v in outs:
                if k != 'ok':
                    nxt.append((k, s, v))
                    continue
                nxt.extend(c(s))
            outs = nxt
        return outs

    def freeze(self, st, v):
        return freeze(self.eng, st, v)


def freeze(eng, st, v, depth=0):
    """Python tree of an abstract value: lists, tuples and dicts become
    ('list', ...), tuples and ('dict', ...)."""
    if depth > 40:
        return v
    v = st.resolve(v)
    if isinstance(v, Tup):
        return tuple(freeze(eng, st, x, depth + 1) for x in v.items)
    if isinstance(v, Ref) and v.oid in st.heap:
        h = st.heap[v.oid]
        if h.kind == 'list':
            items = [freeze(eng, st, x, depth + 1) for x in h.items]
            if h.base is not None:
                items.insert(0, T('base', h.base, C(h.pop)))
            return items
        if h.kind == 'dict':
            d = {}
            for k, x in h.entries:
                k = st.resolve(k)
                d[k.v if isinstance(k, Const) else k] = \
                    freeze(eng, st, x, depth + 1)
            if h.base is not None:
                d[T('base')] = h.base
            return d
        if h.kind == 'inst' and h.data is not None:
            return freeze(eng, st, h.data, depth + 1) \
                if isinstance(h.data, V) else h.data
    if isinstance(v, Const):
        return v.v
    return v
