"""Message extraction records every message."""
import itertools

from .common import *
from . import structure
from ..engine import Engine
from ..gen import freeze
from ..interp import Path
from ..values import HList, HDict, BOUND, Ext

import ast
_NODE = ast.parse('f()').body[0].value


def check(rep, prog, tier):
    rep.rule('catalog', 'a request appends file and position to the records '
             'of its id in its domain, creating them with the default when '
             'there are none, and leaves the other records alone', 500)
    rep.rule('any-request', 'the same for ids, defaults and positions that '
             'are not known', 8)
    rep.rule('warning', 'a repeated id with another default, and nothing '
             'else, causes a warning', 100)
    rep.rule('request', 'the extracting renderer passes on id, domain, '
             'default and the position of the element', 6)
    rep.rule('instructions', 'every instruction asks for the same '
             'translations when extracting as when rendering', 10)
    rep.rule('visited', 'when extracting, conditions hold, sequences have '
             'one item and expressions have a text, whatever the '
             'expression is', 6)
    rep.assume('a message compares and is hashed as its text')
    rep.assume('the file attribute of the engine is set by the caller')
    work = [(k, n) for k in range(len(REQUESTS)) for n in range(
        3 if tier == 'quick' else 4)]
    structure.fan(rep, work, lambda r, w: histories(r, prog, *w))
    unknown(rep, prog)
    requests(rep, prog)
    instructions(rep, prog)
    visited(rep, prog)


class Extractor:
    """An abstract extracting engine."""

    def __init__(self, prog):
        self.prog = prog
        self.cls = prog.cls('talgettext', 'POEngine')
        self.fn = prog.need_method(self.cls, 'translate')
        self.eng = Engine(prog, hooks=[self], loop_k=4)
        outs = [o for o in self.eng.instantiate(prog.start(), self.cls, [],
                                                {}, _NODE) if o[0] == 'ok']
        if not outs:
            raise Broken('the extracting engine cannot be constructed')
        _, self.state, self.ref = outs[0]
        self.state.trace, self.state.n = None, 0

    def loc(self):
        return (self.fn.fi.file, self.fn.fi.node.lineno, self.fn.fi.qual)

    # ---- hooks
    def on_call(self, eng, st, fv, args, kw, node):
        if isinstance(fv, Ext) and fv.name.split('.')[-1] in (
                'Message', 'MessageFactory') and fv.name.startswith(
                    'zope.i18nmessageid'):
            names = ('ustr', 'domain', 'default', 'mapping')
            d = dict(zip(names, args))
            d.update(kw)
            t = st.resolve(d.get('ustr', NONE))
            vals = [st.resolve(d.get(n, NONE)) for n in names[1:]]
            if isinstance(t, Term) and t.op == 'msg':
                vals = [o if v is NONE else v
                        for v, o in zip(vals, t.args[1:])]
                t = t.args[0]
            return [('ok', st, T('msg', t, *vals))]
        return None

    def request(self, st, file, msgid, domain, default, pos, order=0):
        st.setfield(self.ref, 'file', file)
        kw = {'domain': domain, 'mapping': self.eng.alloc(st, HDict([])),
              'default': default, 'position': pos}
        if order:
            args = [msgid, kw.pop('domain'), kw.pop('mapping')]
        else:
            args = [msgid]
        return self.eng.call(st, BOUND(self.ref, self.fn), args, kw, _NODE)

    def catalog(self, st):
        """{domain: [(text, default, records)]}"""
        v = st.resolve(st.field(self.ref, 'catalog'))
        if not isinstance(v, Ref) or st.heap[v.oid].kind != 'dict':
            return None
        out = {}
        for k, d in st.heap[v.oid].entries:
            d = st.resolve(d)
            if not isinstance(d, Ref) or st.heap[d.oid].kind != 'dict':
                return None
            out[k] = [(msg(st.resolve(m)), freeze(self.eng, st, r))
                      for m, r in st.heap[d.oid].entries]
        return out


def msg(m):
    if isinstance(m, Term) and m.op == 'msg':
        return m.args[0], m.args[2]
    return m, NONE


# id, domain, default, position
REQUESTS = [
    ('id', 'd', None, (1, 2)), ('id', 'd', 'id', (3, 4)),
    ('id', 'd', 'Text', (5, 6)), ('id', 'd', 'Other', (7, 8)),
    ('id', 'e', 'Text', (1, 2)), ('id', None, 'Text', (1, 3)),
    ('more', 'd', None, (5, 6)), ('more', 'd', 'Text', None),
    ('id', 'd', 'Text', (5, 6)), ('more', None, '', (2, 2)),
    ('Text', 'd', 'id', (9, 0)), ('Some text', 'd', ' Some\n text ', (4, 4)),
]


def norm(s):
    return ' '.join(s.split())


def value(v):
    if isinstance(v, tuple):
        return TUP([C(x) for x in v])
    return C(v)


def histories(rep, prog, first, n):
    """All histories of n + 1 requests beginning with one of them."""
    ex = Extractor(prog)
    for rest in itertools.product(range(len(REQUESTS)), repeat=n):
        history(rep, ex, (first,) + rest)
    rep.use(ex.eng)


def history(rep, ex, idx):
    want = {}
    outs = [('ok', ex.state.fork(), NONE)]
    label = ' then '.join('%s/%s=%s' % REQUESTS[i][:3] for i in idx)
    rep.seen('catalog', label)
    warn = 0
    for n, i in enumerate(idx):
        m, dom, dflt, pos = REQUESTS[i]
        file = 'f%d' % (n % 2)
        d = None if dflt is None or norm(dflt) == m else norm(dflt)
        recs = want.setdefault(dom, {})
        if m not in recs:
            recs[m] = (d, [])
        elif (recs[m][0] or m) != (d or m):
            warn += 1
        recs[m][1].append((file, pos))
        nxt = []
        for k, s, v in outs:
            if k != 'ok':
                nxt.append((k, s, v))
                continue
            nxt.extend(ex.request(s, C(file), C(m), C(dom), C(dflt),
                                  value(pos), n % 2))
        outs = nxt
    if len(idx) > 1:
        rep.seen('warning', label)
    for k, s, v in outs:
        rep.count('histories')
        if k != 'ok':
            rep.violation('catalog', label, ex.loc(), 'fails with %s' %
                          short(v))
            continue
        got = ex.catalog(s)
        exp = {C(dom): [((C(m), C(d)), r) for m, (d, r) in recs.items()]
               for dom, recs in want.items()}
        if got is None or not same(got, exp):
            rep.violation('catalog', label, ex.loc(), 'leaves the catalog '
                          '%s instead of %s' % (short(got), short(exp)))
        n = len(warnings_of(s))
        if n != warn:
            rep.violation('warning', label, ex.loc(), '%d warnings instead '
                          'of %d' % (n, warn))


def same(got, exp):
    if set(got) != set(exp):
        return False
    for dom in exp:
        a = {m[0]: (m[1], list(map(tuple, r))) for m, r in got[dom]}
        b = {m[0]: (m[1], r) for m, r in exp[dom]}
        if len(a) != len(got[dom]) or set(a) != set(b):
            return False
        for t in b:
            # '' as default text says as little as no default
            da, db = a[t][0], b[t][0]
            if da is not db and not (
                    isinstance(da, Const) and isinstance(db, Const)
                    and not da.v and not db.v):
                return False
            if a[t][1] != b[t][1]:
                return False
    return True


def warnings_of(st):
    return [e for e in st.events() if e.name == 'warn'
            or isinstance(e.recv, Ext) and e.recv.name.endswith(
                'warnings.warn')]


# ------------------------------------------------------------ unknown

def unknown(rep, prog):
    """One request with values that are not known, on a catalog that has
    records already."""
    known = [(), ('id', 'd'), ('id', 'e'), ('id2', 'd')]
    for kn in known:
        for dflt in ('none', 'some'):
            ex = Extractor(prog)
            st = ex.state.fork()
            outs = [('ok', st, NONE)]
            if kn:
                outs = ex.request(st, C('f0'), C(kn[0]), C(kn[1]), NONE,
                                  TUP([C(1), C(2)]))
            label = '%s %s' % ('/'.join(kn) or 'empty', dflt)
            rep.seen('any-request', label)
            ident, dom = T('msgid'), C('d')
            ex.eng.nonnull.add(ident)
            d, pos = T('default'), T('position')
            ex.eng.nonnull.add(d)
            ex.eng.any_text = True
            for k, s, v in outs:
                if k != 'ok':
                    rep.violation('any-request', label, ex.loc(), 'fails')
                    continue
                before = ex.catalog(s)
                for k, s, v in ex.request(
                        s.fork(), T('file'), ident, dom,
                        d if dflt == 'some' else NONE, pos):
                    rep.count('histories')
                    if k != 'ok':
                        rep.violation('any-request', label, ex.loc(),
                                      'fails with %s' % short(v))
                        continue
                    after = ex.catalog(s)
                    if after is None or not grown(s, before, after, ident,
                                                  dom, pos):
                        rep.violation('any-request', label, ex.loc(),
                                      'turns the catalog %s into %s' % (
                                          short(before), short(after)))
            rep.use(ex.eng)


def grown(st, before, after, ident, dom, pos):
    new = (T('file'), pos)
    for d, recs in before.items():
        if d not in after:
            return False
        if d is not dom and after[d] != recs:
            return False
    if set(after) != set(before) | {dom}:
        return False
    old = before.get(dom, [])
    now = after[dom]
    if now[:len(old)] == old:
        return len(now) == len(old) + 1 and now[-1][0][0] is ident \
            and list(map(tuple, now[-1][1])) == [new]
    if len(now) != len(old):
        return False
    diff = [(a, b) for a, b in zip(old, now) if a != b]
    return len(diff) == 1 and diff[0][0][0] == diff[0][1][0] \
        and list(diff[0][1][1]) == list(diff[0][0][1]) + [new]


# ----------------------------------------------------------- requests

PO = ('talgettext', 'POTALInterpreter')


def translations(p):
    out = []
    for e in p.events('call'):
        if e.recv is ENGINE and e.name == 'translate':
            names = ('msgid', 'domain', 'mapping', 'default', 'position')
            d = dict(zip(names, e.args))
            d.update(dict(e.kw))
            out.append({k: p.st.resolve(v) for k, v in d.items()})
    return out


def requests(rep, prog):
    fns = {}
    for cls in (PO, None):
        ip = interp(prog, raises=False, **({'cls': cls} if cls else {}))
        fns[cls] = ip
    ip, base = fns[PO], fns[None]
    fn = prog.need_method(ip.cls, 'translate')
    loc = (fn.fi.file, fn.fi.node.lineno, fn.fi.qual)
    for dflt in ('given', 'absent'):
        for extra in ('', 'mapping', 'object'):
            label = 'default %s %s' % (dflt, extra)
            rep.seen('request', label)
            st = ip.moded('html').fork()
            pos = T('position')
            # what the renderer knows of the position comes from here
            sts = [p.st for p in ip.run('setPosition', '', pos, st)
                   if p.kind == 'ok']
            mid, d = T('msgid'), T('default')
            ip.eng.nonnull.update((mid, d))
            args = [mid]
            kw = {}
            if dflt == 'given':
                args.append(d)
            if extra == 'mapping':
                kw['i18ndict'] = 'dict'
            if extra == 'object':
                kw['obj'] = 'dict'
            n = 0
            for s in sts:
                s = s.fork()
                s.trace, s.n = None, 0
                given = {k: ip.eng.alloc(s, HDict([(C('k'), T('v'))]))
                         for k in kw}
                for k, s2, v in ip.eng.call(s, BOUND(ip.ref, fn), args,
                                            given, _NODE):
                    rep.count('paths')
                    p = Path(k, s2, v, ip, 'translate', '')
                    t = translations(p)
                    if k != 'ok' or len(t) != 1:
                        rep.violation('request', label, loc, 'makes %d '
                                      'requests' % len(t), trace(p))
                        continue
                    n += 1
                    t = t[0]
                    if t.get('msgid') is not mid:
                        rep.violation('request', label, loc, 'the id is %s'
                                      % short(t.get('msgid')), trace(p))
                    if t.get('position') is not pos:
                        rep.violation('request', label, loc, 'the position '
                                      'is %s' % short(t.get('position')),
                                      trace(p))
                    if dflt == 'given' and t.get('default') is not d:
                        rep.violation('request', label, loc, 'the default '
                                      'is %s' % short(t.get('default')),
                                      trace(p))
                    if dflt == 'absent' and t.get('default') not in (
                            T('attr', mid, 'default'), mid,
                            S([mid]), T('str', mid), NONE, None) \
                            and mid not in set(walk(t.get('default'))):
                        rep.violation('request', label, loc, 'the default '
                                      'is %s' % short(t.get('default')),
                                      trace(p))
                    if t.get('domain') not in domains(base):
                        rep.violation('request', label, loc, 'the domain '
                                      'is %s' % short(t.get('domain')),
                                      trace(p))
                    if extra and not has_key(s2, t.get('mapping')):
                        rep.violation('request', label, loc, 'the mapping '
                                      'is %s' % short(t.get('mapping')),
                                      trace(p))
            if not n:
                rep.violation('request', label, loc, 'makes no request', [])
    rep.seen('request', 'no id')
    st = ip.moded('html').fork()
    for k, s, v in ip.eng.call(st, BOUND(ip.ref, fn), [NONE], {}, _NODE):
        p = Path(k, s, v, ip, 'translate', '')
        if k != 'ok' or translations(p):
            rep.violation('request', 'no id', loc, 'a request without id '
                          'is made', trace(p))
    rep.use(ip.eng)


def has_key(st, v):
    v = st.resolve(v) if v is not None else None
    return isinstance(v, Ref) and st.heap[v.oid].kind == 'dict' \
        and any(k is C('k') and x is T('v')
                for k, x in st.heap[v.oid].entries)


_dom = {}


def domains(base):
    """What the renderer itself gives as domain."""
    if base not in _dom:
        fn = base.prog.need_method(base.cls, 'translate')
        got = set()
        for k, s, v in base.eng.call(base.moded('html').fork(), BOUND(
                base.ref, fn), [T('msgid')], {}, _NODE):
            for t in translations(Path(k, s, v, base, '', '')):
                got.add(t.get('domain'))
        if not got:
            raise Broken('the renderer never asks for a translation')
        _dom[base] = got
    return _dom[base]


# ------------------------------------------------------- instructions

TRANSLATING = ('startTag', 'startEndTag', 'insertTranslation', 'insertText',
               'insertI18nText', 'insertStructure', 'insertI18nStructure',
               'i18nVariable')


def instructions(rep, prog):
    both = [interp(prog, raises=False),
            interp(prog, raises=False, cls=PO)]
    for op in TRANSLATING:
        for variant, spec in operands(op):
            for mode in ('html', 'xml'):
                sets, sample = [], None
                for ip in both:
                    got = set()
                    for p in ip.run(op, variant, spec, ip.moded(mode)):
                        rep.count('paths')
                        if p.kind != 'ok':
                            continue
                        got.add(tuple(
                            (str(t.get('msgid')), str(t.get('domain')))
                            for t in translations(p)
                            if t.get('msgid') is not NONE))
                        if ip is both[1]:
                            sample = p
                    sets.append(got)
                nm = '%s %s' % (name(op, variant), mode)
                if any(sets[0]):
                    rep.seen('instructions', nm)
                if not sets[0] - {()} <= sets[1]:
                    rep.violation(
                        'instructions', nm, where(sample) if sample else
                        None, 'when rendering it asks for %s, when '
                        'extracting for %s' % (short(sorted(sets[0])),
                                               short(sorted(sets[1]))))
    for ip in both:
        rep.use(ip.eng)


# ------------------------------------------------------------ visited

def visited(rep, prog):
    ex = Extractor(prog)
    expr = C('$path$')
    for mn, good in (
            ('evaluate', text), ('evaluateText', text),
            ('evaluateValue', text), ('evaluateStructure', text),
            ('evaluateBoolean', true), ('setRepeat', once)):
        fn = prog.need_method(ex.cls, mn)
        for e in (C('$path$'), C('$python:1/0$'), T('expr')):
            rep.seen('visited', '%s %s' % (mn, short(e)))
            args = [C('v'), e] if mn == 'setRepeat' else [e]
            for k, s, v in ex.eng.call(ex.state.fork(), BOUND(ex.ref, fn),
                                       args, {}, _NODE):
                rep.count('paths')
                why = 'fails' if k != 'ok' else good(ex, s, v)
                if why:
                    rep.violation('visited', mn, (
                        fn.fi.file, fn.fi.node.lineno, fn.fi.qual),
                        '%s %s' % (mn, why))
    rep.use(ex.eng)


def text(ex, st, v):
    v = st.resolve(v)
    if isinstance(v, Str) or isinstance(v, Const) and isinstance(
            v.v, str) and v.v:
        return None
    return 'gives %s' % short(v)


def true(ex, st, v):
    return None if ex.eng.decide(st, v) is True else \
        'gives %s' % short(v)


def once(ex, st, v):
    """The iterator has an item."""
    v = st.resolve(v)
    if not isinstance(v, Ref) or st.heap[v.oid].kind != 'inst':
        return 'gives %s' % short(v)
    fn = ex.eng.class_attr(st, st.heap[v.oid].cls, '__next__')
    if fn is None:
        return 'gives something that is no iterator'
    outs = ex.eng.call(st.fork(), BOUND(v, fn), [], {}, _NODE)
    for k, s, x in outs:
        if k != 'ok' or ex.eng.decide(s, x) is not True:
            return 'has no item'
    return None
