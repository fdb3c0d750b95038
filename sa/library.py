"""Models of builtins and library functions for the abstract interpreter."""
from .values import (
    C, T, S, TUP, EXT, REGEX, NONE, TRUE, FALSE, Const, Term, Str, Tup, Ref,
    Func, Bound, BoundExt, Ext, Wrapped, Regex, Prop, HList, HDict, HSet,
    HInst, HClass, WRAP, BEXT, BOUND, PROP, is_stringy)

TABLE = {}


def model(*names):
    def deco(f):
        for n in names:
            TABLE[n] = f
        return f
    return deco


def call(eng, st, name, args, kw, node):
    f = TABLE.get(name)
    if f is not None:
        return f(eng, st, args, kw, node)
    short = name.rsplit('.', 1)[-1]
    if name.startswith('builtins.'):
        rest = name[len('builtins.'):]
        if rest in ('object', 'object.__init__'):
            if rest == 'object':
                return [('ok', st, T('object', C(st.n), C(
                    getattr(node, 'lineno', 0)), C(
                    getattr(node, 'col_offset', 0)), C(
                    eng.frame(st)[' mod'] if st.stack else '')))]
            return [('ok', st, NONE)]
        from .engine import BUILTIN_EXC
        if rest in BUILTIN_EXC:
            return [('ok', st, T('exc', rest, *args))]
        head, _, meth = rest.partition('.')
        if meth == '__init__':
            if head == 'list':
                return eng.list_method(st, args[0], '__init__', args[1:], kw,
                                       node)
            if args and isinstance(args[0], Ref) and len(args) > 1:
                st.setfield(args[0], 'args', TUP(args[1:]))
            return [('ok', st, NONE)]
        if head in ('str', 'list', 'dict', 'set', 'tuple', 'object') \
                and meth and args:
            # unbound method of a builtin type
            if meth == 'maketrans':
                return TABLE['str.maketrans'](eng, st, args, kw, node)
            if meth == '__setattr__' and head == 'object':
                return [('ok', s, NONE) if k == 'next' else (k, s, v)
                        for k, s, v in eng.setattr(
                            st, args[0], args[1].v, args[2], node)]
            return eng.call_method(st, args[0], meth, args[1:], kw, node)
    if short == '__init__':
        return [('ok', st, NONE)]
    return None


def ok(st, v):
    return [('ok', st, v)]


@model('builtins.len')
def _len(eng, st, args, kw, node):
    v = args[0]
    if isinstance(v, Ref):
        h = st.heap[v.oid]
        if h.kind == 'inst':
            m = eng.class_attr(st, h.cls, '__len__')
            if isinstance(m, Func):
                return eng.call(st, BOUND(v, m), [], {}, node)
        lst = eng.get_list(st, v)
        if lst is not None:
            if lst.base is None:
                return ok(st, C(len(lst.items)))
            b, k = eng.lin(length_of(lst.base))
            return ok(st, eng.mklin(b, k + len(lst.items) - lst.pop))
        if h.kind == 'dict':
            if h.base is None:
                return ok(st, C(len(h.entries)))
            return ok(st, T('len', T('dictof', h.base, TUP(
                [e[0] for e in h.entries]))))
        if h.kind == 'set' and h.base is None:
            return ok(st, C(len(h.items)))
    items = eng.as_items(st, v)
    if items is not None:
        return ok(st, C(len(items)))
    return ok(st, length_of(v))


def length_of(v):
    if isinstance(v, Term) and v.op in ('sorted', 'reversed', 'iter'):
        return length_of(v.args[0])
    if isinstance(v, Term) and v.op == 'tupcat':
        pass
    return T('len', v)


@model('builtins.str')
def _str(eng, st, args, kw, node):
    if not args:
        return ok(st, C(''))
    v = args[0]
    if isinstance(v, Const):
        return ok(st, C(str(v.v)))
    if is_stringy(v):
        return ok(st, v)
    if isinstance(v, Ref) and st.heap[v.oid].kind == 'inst':
        m = eng.class_attr(st, st.heap[v.oid].cls, '__str__')
        if isinstance(m, Func):
            return eng.call(st, BOUND(v, m), [], {}, node)
        return ok(st, T('strof', v))
    if isinstance(v, Ref):
        return ok(st, T('strof', eng.freeze(st, v)))
    return ok(st, S([v]))


@model('builtins.repr', 'builtins.ascii')
def _repr(eng, st, args, kw, node):
    return ok(st, eng.repr_of(st, args[0]))


@model('builtins.bool')
def _bool(eng, st, args, kw, node):
    if not args:
        return ok(st, FALSE)
    return [('ok', s, C(b)) for s, b in eng.truth(st, args[0])]


@model('builtins.int')
def _int(eng, st, args, kw, node):
    if args and isinstance(args[0], Const) and isinstance(
            args[0].v, (int, float, str, bool)):
        try:
            return ok(st, C(int(args[0].v)))
        except ValueError:
            return [('raise', st, eng.exc('ValueError'))]
    return ok(st, T('int', *args))


@model('builtins.list')
def _list(eng, st, args, kw, node):
    if not args:
        return ok(st, eng.alloc(st, HList()))
    v = args[0]
    items = eng.as_items(st, v)
    if items is not None:
        return ok(st, eng.alloc(st, HList(items)))
    if isinstance(v, Ref):
        lst = eng.get_list(st, v)
        if lst is not None:
            return ok(st, eng.alloc(st, HList(lst.items, lst.base, lst.pop)))
        h = st.heap[v.oid]
        if h.kind == 'dict':
            return ok(st, eng.alloc(st, HList([k for k, _ in h.entries],
                                              h.base)))
        if h.kind == 'set':
            return ok(st, eng.alloc(st, HList(h.items, h.base)))
    return ok(st, eng.alloc(st, HList((), v)))


@model('builtins.tuple')
def _tuple(eng, st, args, kw, node):
    if not args:
        return ok(st, TUP(()))
    items = eng.as_items(st, args[0])
    if items is not None:
        return ok(st, TUP(items))
    return ok(st, T('tupleof', eng.freeze(st, args[0]))
              if isinstance(args[0], Ref) else args[0])


@model('builtins.set', 'builtins.frozenset')
def _set(eng, st, args, kw, node):
    if not args:
        return ok(st, eng.alloc(st, HSet()))
    items = eng.as_items(st, args[0])
    if items is not None:
        out = []
        for x in items:
            if x not in out:
                out.append(x)
        return ok(st, eng.alloc(st, HSet(out)))
    return ok(st, eng.alloc(st, HSet((), eng.freeze(st, args[0]))))


@model('builtins.dict', 'collections.OrderedDict')
def _dict(eng, st, args, kw, node):
    d = eng.alloc(st, HDict())
    outs = ok(st, d)
    kw = dict(kw)
    base = kw.pop('**', None)
    if args:
        outs = eng.lift(outs, lambda s, _: [
            (k, s2, d if k == 'ok' else v)
            for k, s2, v in eng.dict_update(s, d, args[0], node)])
    if base is not None:
        outs = eng.lift(outs, lambda s, _: [
            (k, s2, d if k == 'ok' else v)
            for k, s2, v in eng.dict_update(s, d, base, node)])
    for k, v in kw.items():
        outs = eng.lift(outs, lambda s, _, k=k, v=v: [
            ('ok', s2, d) if kk == 'next' else (kk, s2, x)
            for kk, s2, x in eng.setitem(s, d, C(k), v, node)])
    return outs


@model('builtins.isinstance')
def _isinstance(eng, st, args, kw, node):
    v, cls = args[0], args[1]
    names = class_names(eng, st, cls)
    if names is None:
        return ok(st, T('isinst', v, 'unknown:%r' % (cls,)))
    ts = [T('isinst', v, n) for n in names]
    ds = [eng.decide(st, t) for t in ts]
    if True in ds:
        return ok(st, TRUE)
    ts = [t for t, d in zip(ts, ds) if d is None]
    if not ts:
        return ok(st, FALSE)
    if len(ts) == 1:
        return ok(st, ts[0])
    return ok(st, T('isinst_any', v, *[t.args[1] for t in ts]))


def class_names(eng, st, cls):
    cls = st.resolve(cls)
    if isinstance(cls, Tup):
        out = []
        for c in cls.items:
            n = class_names(eng, st, c)
            if n is None:
                return None
            out += n
        return out
    if isinstance(cls, Ext):
        return [cls.name.rsplit('.', 1)[-1]]
    if isinstance(cls, Ref) and st.heap[cls.oid].kind == 'class':
        return [st.heap[cls.oid].name]
    if isinstance(cls, Term) and cls.op == 'binop' and cls.args[0] == 'BitOr':
        a = class_names(eng, st, cls.args[1])
        b = class_names(eng, st, cls.args[2])
        return a + b if a and b else None
    return None


@model('builtins.issubclass')
def _issubclass(eng, st, args, kw, node):
    a, b = args
    if isinstance(a, Ref) and isinstance(b, Ref):
        return ok(st, C(b in eng.prog.mro(a, st.heap)))
    return ok(st, T('issubclass', a, b))


@model('builtins.getattr')
def _getattr(eng, st, args, kw, node):
    if len(args) < 2 or not isinstance(args[1], Const):
        return ok(st, T('getattr', *[eng.freeze(st, a) for a in args]))
    o, name = args[0], args[1].v
    if len(args) == 2:
        return eng.getattr(st, o, name, node)
    o = st.resolve(o)
    if isinstance(o, (Const, Str)) or is_stringy(o):
        if hasattr('', name) and (not isinstance(o, Const)
                                  or hasattr(o.v, name)):
            return eng.getattr(st, o, name, node)
        return ok(st, args[2])
    if isinstance(o, Ref):
        h = st.heap[o.oid]
        if h.kind in ('inst', 'class'):
            if h.kind == 'inst' and name not in h.fields \
                    and eng.class_attr(st, h.cls, name) is None \
                    and h.lazy is None and not eng.ext_bases(st, h.cls):
                return ok(st, args[2])
            if h.kind == 'inst' and h.data is None and name not in h.fields \
                    and eng.class_attr(st, h.cls, name) is None \
                    and h.lazy is None:
                return ok(st, args[2])
            return eng.getattr(st, o, name, node, default=args[2])
        return eng.getattr(st, o, name, node)
    k = ('attr', o, name)
    if k in st.over:
        return ok(st, st.over[k])
    if eng.decide(st, T('isinst', o, 'Message')) is True and name in (
            'default', 'domain', 'mapping'):
        return ok(st, T('attr', o, name))
    if eng.decide(st, T('isinst', o, 'Message')) is False and eng.decide(
            st, T('isinst', o, 'str')) is True and not hasattr('', name):
        return ok(st, args[2])
    return ok(st, T('getattr3', o, name, eng.freeze(st, args[2])))


@model('builtins.setattr')
def _setattr(eng, st, args, kw, node):
    if isinstance(args[1], Const):
        return [('ok', s, NONE) if k == 'next' else (k, s, v)
                for k, s, v in eng.setattr(st, args[0], args[1].v, args[2],
                                           node)]
    eng.event(st, 'setattr', args[0], '?', tuple(args[1:]), (), NONE, node)
    return ok(st, NONE)


@model('builtins.hasattr')
def _hasattr(eng, st, args, kw, node):
    o = st.resolve(args[0])
    if isinstance(args[1], Const):
        name = args[1].v
        if isinstance(o, Ref) and st.heap[o.oid].kind == 'inst':
            h = st.heap[o.oid]
            if name in h.fields or eng.class_attr(st, h.cls, name):
                return ok(st, TRUE)
            if h.lazy is None and not eng.ext_bases(st, h.cls):
                return ok(st, FALSE)
        if isinstance(o, (Const, Str)) or is_stringy(o):
            if isinstance(o, Const):
                return ok(st, C(hasattr(o.v, name)))
            return ok(st, C(hasattr('', name)))
        return ok(st, T('hasattr', o, name))
    return ok(st, T('hasattr', o, args[1]))


@model('builtins.callable')
def _callable(eng, st, args, kw, node):
    if isinstance(args[0], (Func, Bound, BoundExt, Ext)):
        return ok(st, TRUE)
    return ok(st, T('callable', args[0]))


@model('builtins.type')
def _type(eng, st, args, kw, node):
    v = args[0]
    if len(args) == 1:
        if isinstance(v, Ref):
            h = st.heap[v.oid]
            if h.kind == 'inst':
                return ok(st, h.cls)
            return ok(st, EXT('builtins.' + h.kind))
        if isinstance(v, Const):
            return ok(st, EXT('builtins.' + type(v.v).__name__))
        return ok(st, T('class_of', v))
    return ok(st, T('newtype', *[eng.freeze(st, a) for a in args]))


@model('builtins.range')
def _range(eng, st, args, kw, node):
    if all(isinstance(a, Const) for a in args):
        r = range(*[a.v for a in args])
        if len(r) < 1000:
            return ok(st, TUP([C(i) for i in r]))
    return ok(st, T('range', *args))


@model('builtins.enumerate')
def _enumerate(eng, st, args, kw, node):
    start = kw.get('start', args[1] if len(args) > 1 else C(0))
    items = eng.as_items(st, args[0])
    if items is not None and isinstance(start, Const):
        return ok(st, eng.alloc(st, HList(
            [TUP([C(i + start.v), x]) for i, x in enumerate(items)])))
    return ok(st, T('enumerate', eng.freeze(st, args[0])))


@model('builtins.zip')
def _zip(eng, st, args, kw, node):
    its = [eng.as_items(st, a) for a in args]
    if all(i is not None for i in its):
        return ok(st, eng.alloc(st, HList([TUP(t) for t in zip(*its)])))
    return ok(st, T('zip', *[eng.freeze(st, a) for a in args]))


@model('builtins.reversed')
def _reversed(eng, st, args, kw, node):
    items = eng.as_items(st, args[0])
    if items is not None:
        return ok(st, eng.alloc(st, HList(items[::-1])))
    return ok(st, T('reversed', eng.freeze(st, args[0])))


@model('builtins.sorted')
def _sorted(eng, st, args, kw, node):
    items = eng.as_items(st, args[0])
    if items is not None:
        key = kw.get('key')
        if all(isinstance(x, Const) for x in items) and (
                key is None or key is NONE):
            try:
                items = sorted(items, key=lambda c: c.v)
            except TypeError:
                pass
        elif all(isinstance(x, Tup) and x.items and isinstance(
                x.items[0], Const) for x in items):
            try:
                items = sorted(items, key=lambda c: c.items[0].v)
            except TypeError:
                pass
        return ok(st, eng.alloc(st, HList(items)))
    v = args[0]
    if isinstance(v, Ref):
        lst = eng.get_list(st, v)
        if lst is not None:
            return ok(st, eng.alloc(st, HList(lst.items, lst.base,
                                              lst.pop)))
        h = st.heap[v.oid]
        if h.kind == 'dict':
            return ok(st, eng.alloc(st, HList([k for k, _ in h.entries],
                                              h.base)))
    return ok(st, T('sorted', eng.freeze(st, v)))


@model('builtins.iter')
def _iter(eng, st, args, kw, node):
    if len(args) == 1:
        items = eng.as_items(st, args[0])
        if items is not None:
            return ok(st, eng.alloc(st, HList(items)))
        return [('ok', s, eng.alloc(s, HList(el)))
                for s, el in eng.iterate(st, args[0], node)]
    return None


@model('builtins.next')
def _next(eng, st, args, kw, node):
    v = args[0]
    if isinstance(v, Ref):
        lst = eng.get_list(st, v)
        if lst is not None and lst.base is None:
            if lst.items:
                eng.set_list(st, v, HList(lst.items[1:]))
                return ok(st, lst.items[0])
            if len(args) > 1:
                return ok(st, args[1])
            return [('raise', st, eng.exc('StopIteration'))]
        if st.heap[v.oid].kind == 'inst':
            m = eng.class_attr(st, st.heap[v.oid].cls, '__next__')
            if m is not None:
                return eng.call(st, BOUND(v, m), [], {}, node)
    return eng.opaque_call(st, v, '__next__', args[1:], kw, node)


def _extreme(name, fold):
    def extreme(eng, st, args, kw, node):
        items = args
        if len(args) == 1:
            items = eng.as_items(st, args[0])
        items = items and [st.resolve(x) for x in items]
        if items and not kw and all(isinstance(x, Const) for x in items):
            try:
                return ok(st, C(fold(x.v for x in items)))
            except TypeError:
                return [('raise', st, eng.exc('TypeError'))]
        return ok(st, T('minmax', C(name), *[eng.freeze(st, a)
                                             for a in args]))
    return extreme


model('builtins.min')(_extreme('min', min))
model('builtins.max')(_extreme('max', max))


@model('builtins.ord')
def _ord(eng, st, args, kw, node):
    v = st.resolve(args[0])
    if isinstance(v, Const) and isinstance(v.v, str) and len(v.v) == 1:
        return ok(st, C(ord(v.v)))
    return _pure(eng, st, args, kw, node)


@model('builtins.chr')
def _chr(eng, st, args, kw, node):
    v = st.resolve(args[0])
    if isinstance(v, Const) and isinstance(v.v, int) \
            and 0 <= v.v < 0x110000:
        return ok(st, C(chr(v.v)))
    return _pure(eng, st, args, kw, node)


@model('builtins.abs', 'builtins.round', 'builtins.sum',
       'builtins.id', 'builtins.hash', 'builtins.format',
       'builtins.divmod', 'builtins.vars', 'builtins.dir', 'builtins.bytes',
       'builtins.float')
def _pure(eng, st, args, kw, node):
    return ok(st, T('pure', C(getattr(getattr(node, 'func', None), 'id',
                                      '?')),
                    *[eng.freeze(st, a) for a in args]))


@model('builtins.any', 'builtins.all')
def _anyall(eng, st, args, kw, node):
    is_any = getattr(getattr(node, 'func', None), 'id', 'any') == 'any'
    res = []
    for s, el in eng.iterate(st, args[0], node):
        cur = [s]
        for e in el:
            nxt = []
            for x in cur:
                for s2, b in eng.truth(x, e):
                    if b == is_any:
                        res.append(('ok', s2, C(b)))
                    else:
                        nxt.append(s2)
            cur = nxt
        res.extend(('ok', x, C(not is_any)) for x in cur)
    return res


@model('builtins.map')
def _map(eng, st, args, kw, node):
    f, seq = args[0], args[1]
    res = []
    for s, el in eng.iterate(st, seq, node):
        outs = [('ok', s, ())]
        for e in el:
            outs = eng.lift(outs, lambda s2, acc, e=e: [
                (k, s3, acc + (v,) if k == 'ok' else v)
                for k, s3, v in eng.call(s2, f, [e], {}, node)])
        res.extend((k, s2, eng.alloc(s2, HList(v)) if k == 'ok' else v)
                   for k, s2, v in outs)
    return res


@model('builtins.filter')
def _filter(eng, st, args, kw, node):
    f, seq = args[0], args[1]
    res = []
    for s, el in eng.iterate(st, seq, node):
        outs = [('ok', s, ())]
        for e in el:
            def one(s2, acc, e=e):
                if f is NONE:
                    rs = [('ok', s2, e)]
                else:
                    rs = eng.call(s2, f, [e], {}, node)
                return eng.lift(rs, lambda s3, v: [
                    ('ok', s4, acc + ((e,) if b else ()))
                    for s4, b in eng.truth(s3, v)])
            outs = eng.lift(outs, one)
        res.extend((k, s2, eng.alloc(s2, HList(v)) if k == 'ok' else v)
                   for k, s2, v in outs)
    return res


@model('builtins.super')
def _super(eng, st, args, kw, node):
    if len(args) == 2:
        return ok(st, T('superof', args[1], args[0]))
    return None


@model('builtins.property')
def _property(eng, st, args, kw, node):
    fget = args[0] if args else kw.get('fget', NONE)
    fset = args[1] if len(args) > 1 else kw.get('fset')
    return ok(st, PROP(fget, fset))


@model('builtins.staticmethod')
def _static(eng, st, args, kw, node):
    return ok(st, WRAP('static', args[0]))


@model('builtins.classmethod')
def _classm(eng, st, args, kw, node):
    return ok(st, WRAP('class', args[0]))


@model('functools.partial')
def _partial(eng, st, args, kw, node):
    return ok(st, WRAP('partial', args[0], tuple(args[1:]),
                       tuple(sorted(kw.items()))))


@model('functools.wraps', 'functools.lru_cache', 'functools.cache')
def _wraps(eng, st, args, kw, node):
    return ok(st, EXT('functools.identity'))


@model('functools.identity')
def _ident(eng, st, args, kw, node):
    return ok(st, args[0])


@model('re.compile')
def _recompile(eng, st, args, kw, node):
    if args and isinstance(args[0], Const):
        fl = args[1] if len(args) > 1 else kw.get('flags', C(0))
        v = flags_of(fl)
        if v is not None:
            return ok(st, REGEX(args[0].v, v))
    return ok(st, T('regex', *[eng.freeze(st, a) for a in args]))


def flags_of(fl):
    import re
    if isinstance(fl, Const) and isinstance(fl.v, int):
        return int(fl.v)
    if isinstance(fl, Ext) and fl.name.startswith('re.'):
        v = getattr(re, fl.name[3:], None)
        return int(v) if v is not None else None
    if isinstance(fl, Term) and fl.op == 'binop' and fl.args[0] == 'BitOr':
        a, b = flags_of(fl.args[1]), flags_of(fl.args[2])
        return None if a is None or b is None else a | b
    return None


def _re_fn(name):
    def f(eng, st, args, kw, node):
        if args and isinstance(args[0], Const):
            pos = {'match': 2, 'search': 2, 'fullmatch': 2, 'split': 3,
                   'sub': 4, 'findall': 2, 'finditer': 2}[name]
            fl = args[pos] if len(args) > pos else kw.get('flags', C(0))
            v = flags_of(fl)
            if v is not None:
                return eng.regex_method(st, REGEX(args[0].v, v), name,
                                        args[1:pos], {}, node)
        if args and isinstance(args[0], Regex):
            return eng.regex_method(st, args[0], name, args[1:], {}, node)
        return ok(st, T('rem', name, *[eng.freeze(st, a) for a in args]))
    return f


for _n in ('match', 'search', 'fullmatch', 'split', 'sub', 'findall',
           'finditer'):
    TABLE['re.' + _n] = _re_fn(_n)


@model('html.escape', 'cgi.escape')
def _escape(eng, st, args, kw, node):
    import html
    q = args[1] if len(args) > 1 else kw.get('quote', TRUE)
    v = args[0] if args else kw.get('s')
    if not isinstance(q, Const):
        d = eng.decide(st, q)
        if d is None:
            return ok(st, T('html_escape', v, q))
        q = C(d)
    q = C(bool(q.v))
    return ok(st, eng.per_char(v, lambda x: html.escape(x, q.v),
                               lambda x: T('html_escape', x, q)))


_SAX = (('&', '&amp;'), ('>', '&gt;'), ('<', '&lt;'))


@model('xml.sax.saxutils.escape')
def _saxescape(eng, st, args, kw, node):
    ents = args[1] if len(args) > 1 else kw.get('entities')
    v = eng.charmap(args[0], _SAX)
    if ents is None:
        return ok(st, v)
    if isinstance(ents, Ref) and st.heap[ents.oid].kind == 'dict':
        for a, b in st.heap[ents.oid].entries:
            if not (isinstance(a, Const) and isinstance(b, Const)
                    and len(a.v) == 1):
                return ok(st, T('saxescape', args[0], eng.freeze(st, ents)))
            v = eng.charmap(v, ((a.v, b.v),))
        return ok(st, v)
    return ok(st, T('saxescape', args[0], ents))


@model('str.maketrans', 'builtins.str.maketrans')
def _maketrans(eng, st, args, kw, node):
    if len(args) == 1 and isinstance(args[0], Ref):
        ents = st.heap[args[0].oid].entries
        return ok(st, T('maketrans', TUP([TUP(e) for e in ents])))
    if len(args) == 2 and all(isinstance(a, Const) for a in args):
        return ok(st, T('maketrans', TUP([
            TUP([C(a), C(b)]) for a, b in zip(args[0].v, args[1].v)])))
    return None


@model('sys.exc_info')
def _exc_info(eng, st, args, kw, node):
    if st.excs:
        e = st.excs[-1]
        return ok(st, TUP([T('class_of', e), e, T('tb', e)]))
    return ok(st, TUP([NONE, NONE, NONE]))


@model('sys.exception')
def _exception(eng, st, args, kw, node):
    return ok(st, st.excs[-1] if st.excs else NONE)


@model('copy.copy', 'copy.deepcopy')
def _copy(eng, st, args, kw, node):
    v = args[0]
    if isinstance(v, Ref):
        return ok(st, eng.alloc(st, st.heap[v.oid]))
    if isinstance(v, Term):
        return ok(st, eng.alloc(st, HDict((), v)))
    return ok(st, v)


@model('contextlib.closing')
def _closing(eng, st, args, kw, node):
    return ok(st, T('closing', args[0]))


@model('contextlib.suppress')
def _suppress(eng, st, args, kw, node):
    return ok(st, T('suppress', *args))


@model('contextlib.nullcontext')
def _nullcontext(eng, st, args, kw, node):
    return ok(st, T('nullcontext', *args))


@model('collections.namedtuple')
def _namedtuple(eng, st, args, kw, node):
    name = args[0].v if isinstance(args[0], Const) else 'nt'
    f = args[1]
    items = eng.as_items(st, f)
    if isinstance(f, Const) and isinstance(f.v, str):
        fields = tuple(f.v.replace(',', ' ').split())
    elif items is not None and all(isinstance(x, Const) for x in items):
        fields = tuple(x.v for x in items)
    else:
        return None
    mod = eng.frame(st)[' mod']
    return ok(st, eng.alloc(st, HClass(
        name, (), {' fields': fields}, mod, name)))


@model('types.SimpleNamespace')
def _ns(eng, st, args, kw, node):
    cls = eng.alloc(st, HClass('SimpleNamespace', (), {}, 'types',
                               'SimpleNamespace'))
    return ok(st, eng.alloc(st, HInst(cls, dict(kw))))


@model('operator.itemgetter', 'operator.attrgetter')
def _getter(eng, st, args, kw, node):
    return ok(st, T('getter', *args))


@model('itertools.chain')
def _chain(eng, st, args, kw, node):
    its = [eng.as_items(st, a) for a in args]
    if all(i is not None for i in its):
        return ok(st, eng.alloc(st, HList([x for i in its for x in i])))
    return ok(st, T('chain', *[eng.freeze(st, a) for a in args]))


@model('itertools.count')
def _count(eng, st, args, kw, node):
    return ok(st, T('count', *args))


@model('zope.interface.implementer', 'zope.interface.Interface',
       'zope.interface.Attribute')
def _iface(eng, st, args, kw, node):
    return ok(st, EXT('functools.identity'))


@model('typing.cast')
def _cast(eng, st, args, kw, node):
    return ok(st, args[1])
