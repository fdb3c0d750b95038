"""Variables are defined with the right name, value and scope."""
from .common import *
from . import structure
from .elements import Elements, dirv


def check(rep, prog, tier):
    rep.rule('bound', 'a define instruction evaluates its expression once '
             'and binds the value to its name, globally or locally as it '
             'says, and does nothing else', 2)
    rep.rule('attrs', 'the scope of an element holds attrs with its '
             'attributes, set when the scope is open', 3)
    rep.rule('repeat', 'the repeat variable is bound by the engine, under '
             'its name, for its expression', 1)
    rep.rule('statements', 'the statements of a define compile to one '
             'instruction each, in the order written, with the scope, name '
             'and expression written', 20)
    rep.rule('provenance', 'for any define text scope, name and expression '
             'of an instruction come from the same statement', 2)
    rep.rule('names', 'attrs maps the name of each attribute of the '
             'element to its value', 4)
    for mode in ('html', 'xml'):
        ip = interp(prog, raises=False)
        render(rep, ip, ip.moded(mode), mode)
        rep.use(ip.eng)
    for xml in (0, 1):
        els = Elements(prog, xml=bool(xml), loop_k=2)
        statements(rep, els, xml)
        provenance(rep, els, xml)
        attrs(rep, els, xml)
        rep.use(els.gen.eng)
    structure.compare(rep, prog, 'provenance', structure.TAL, need=(
        'define', 'repeat'), size=2 if tier == 'quick' else 3,
        contexts=('', 'repeat', 'def', 'fill'))


def render(rep, ip, st, mode):
    for op, fn in (('setLocal', 'setLocal'), ('setGlobal', 'setGlobal')):
        nm, ex = opnd(op, 'name'), opnd(op, 'expr')
        for p in ip.run(op, '', operands(op)[0][1], st):
            rep.count('paths')
            rep.seen('bound', op + ' ' + mode)
            evs = engine_calls(p)
            ok = p.kind == 'ok' and [e.name for e in evs] == [
                'evaluateValue', fn] and tuple(evs[0].args) == (ex,) \
                and tuple(evs[1].args) == (nm, evs[0].result) \
                and not output(p)
            if not ok:
                rep.violation('bound', op, where(p), 'calls %s' % short(
                    [(e.name,) + tuple(e.args) for e in evs]), trace(p))
    for op, variant in (('beginScope', ''), ('rawtextBeginScope', 'open'),
                        ('rawtextBeginScope', 'closeprev')):
        spec = dict(operands(op))[variant]
        d = spec if op == 'beginScope' else spec.items[-1]
        for p in ip.run(op, variant, spec, st):
            rep.count('paths')
            rep.seen('attrs', name(op, variant) + ' ' + mode)
            evs = [e for e in engine_calls(p) if e.name in (
                'beginScope', 'endScope', 'setLocal', 'setGlobal')]
            want = (['endScope'] if variant == 'closeprev' else []) + [
                'beginScope', 'setLocal']
            if [e.name for e in evs] != want or tuple(evs[-1].args) != (
                    C('attrs'), d):
                rep.violation('attrs', name(op, variant), where(p),
                              'calls %s' % short([(e.name,) + tuple(e.args)
                                                  for e in evs]), trace(p))
    op = 'loop'
    for p in ip.run(op, '', operands(op)[0][1], st):
        rep.count('paths')
        rep.seen('repeat', op + ' ' + mode)
        evs = engine_calls(p)
        if [e.name for e in evs] != ['setRepeat'] or tuple(
                evs[0].args) != (opnd(op, 'name'), opnd(op, 'expr')):
            rep.violation('repeat', op, where(p), 'calls %s' % short(
                [(e.name,) + tuple(e.args) for e in evs]), trace(p))


L, G = 'setLocal', 'setGlobal'
DEFINES = [
    ('x a', [(L, 'x', 'a')]),
    ('local x a', [(L, 'x', 'a')]),
    ('global x a', [(G, 'x', 'a')]),
    (' x  a', [(L, 'x', 'a')]),
    ('\n  global\n  x\n  a b', [(G, 'x', 'a b')]),
    ('x a; y b', [(L, 'x', 'a'), (L, 'y', 'b')]),
    ('y a; x b', [(L, 'y', 'a'), (L, 'x', 'b')]),
    ('x a; x b', [(L, 'x', 'a'), (L, 'x', 'b')]),
    ('x a; global y b', [(L, 'x', 'a'), (G, 'y', 'b')]),
    ('global x a; y b', [(G, 'x', 'a'), (L, 'y', 'b')]),
    ('global x a; local y b; global z c', [
        (G, 'x', 'a'), (L, 'y', 'b'), (G, 'z', 'c')]),
    ('x a;', [(L, 'x', 'a')]),
    ('x a; ', [(L, 'x', 'a')]),
    ('x a;;b', [(L, 'x', 'a;b')]),
    ('x a;;b; y c', [(L, 'x', 'a;b'), (L, 'y', 'c')]),
    ('x a;;', [(L, 'x', 'a;')]),
    ('x a;;;;b', [(L, 'x', 'a;;b')]),
    ('x a;;; y b', [(L, 'x', 'a;'), (L, 'y', 'b')]),
    ('x a\n  b', [(L, 'x', 'a\n  b')]),
    ('x y z', [(L, 'x', 'y z')]),
    ('global_x a', [(L, 'global_x', 'a')]),
    ('globals a', [(L, 'globals', 'a')]),
    ('localx a; x-y_1 b', [(L, 'localx', 'a'), (L, 'x-y_1', 'b')]),
    ('x global y', [(L, 'x', 'global y')]),
    ('X a; x b', [(L, 'X', 'a'), (L, 'x', 'b')]),
]
# expressions of the usual kinds, in every scope
EXPRS = ['a/b', 'nocall:a', 'python:f(1, "x")', 'string:a b', 'not:a',
         'exists:a/b', 'a|b|nothing', 'structure a', 'text a', 'global a',
         'local a', 'default', 'nothing', 'attrs/x', 'provider:a', '1', '-1',
         '(a)', '"a"', 'x', 'python: 1', 'repeat/x/y', '$x', 'a/?b',
         'options/x', 'error', 'macroname', 'tal:a', 'A', 'a \n b']
for _e in EXPRS:
    DEFINES += [('v ' + _e, [(L, 'v', _e)]),
                ('local v ' + _e, [(L, 'v', _e)]),
                ('global v ' + _e, [(G, 'v', _e)]),
                ('w b; global v %s; x c' % _e, [
                    (L, 'w', 'b'), (G, 'v', _e), (L, 'x', 'c')])]
for _n in ('v', 'V', '_', '_v', 'v-1', 'v_1', 'error', 'attrs', 'macroname',
           'default', 'nothing', 'repeat', 'text', 'structure', 'here'):
    DEFINES += [(_n + ' e', [(L, _n, 'e')]),
                ('global %s e' % _n, [(G, _n, 'e')])]
REPEATS = [('x a', ('x', 'a')), (' x  a b', ('x', 'a b')),
           ('x-y a\n b', ('x-y', 'a\n b')), ('x a;;b', ('x', 'a;;b')),
           ('x a; y b', ('x', 'a; y b'))]
REPEATS += [('v ' + _e, ('v', _e)) for _e in EXPRS]


def source(v):
    """The text an expression was compiled from."""
    if isinstance(v, Term) and v.op == 'cexpr':
        v = v.args[0]
        return v.v if isinstance(v, Const) else v
    return T('not-compiled', v if isinstance(v, V) else C(repr(v)))


def statements(rep, els, xml):
    m = 'xml' if xml else 'html'
    for text, want in DEFINES:
        for el in els.run(['define'], (), (), {'define': C(text)}):
            rep.count('compile_paths')
            rep.seen('statements', '%s %r' % (m, text))
            if el.kind != 'ok':
                rep.violation('statements', repr(text), el.loc(),
                              'define=%r fails with %s' % (
                                  text, el.exc_text()), el.facts())
                continue
            got = [(o, a[0], source(a[1])) for o, a in el.ops()
                   if o in (L, G)]
            if got != want:
                rep.violation('statements', repr(text), el.loc(),
                              'define=%r compiles to %s' % (
                                  text, short(got)), el.facts())
    for text, want in REPEATS:
        for el in els.run(['repeat'], (), (), {'repeat': C(text)}):
            rep.count('compile_paths')
            rep.seen('statements', '%s repeat %r' % (m, text))
            if el.kind != 'ok':
                rep.violation('statements', repr(text), el.loc(),
                              'repeat=%r fails with %s' % (
                                  text, el.exc_text()), el.facts())
                continue
            got = [(a[0], source(a[1])) for o, a in el.ops() if o == 'loop']
            if got != [want]:
                rep.violation('statements', repr(text), el.loc(),
                              'repeat=%r compiles to %s' % (
                                  text, short(got)), el.facts())


def origin(v):
    """(statement, group) a name or expression comes from."""
    if isinstance(v, Term) and v.op == 'group':
        return v.args[:-1], v.args[-1]
    return None


def provenance(rep, els, xml):
    d = dirv('tal', 'define')
    for el in els.run(['define']):
        if el.kind != 'ok':
            continue
        rep.count('compile_paths')
        sets = [(o, a) for o, a in el.ops() if o in (L, G)]
        rep.seen('provenance', '%d %d statements' % (xml, len(sets)))
        before = []
        for o, (n, e) in sets:
            ex = source(e)
            on, oe = origin(n), origin(ex)
            if on is None or oe is None:
                # other ways to take the statement apart: both must at
                # least come from the directive
                ok = all(isinstance(v, V) and any(x is d for x in walk(v))
                         for v in (n, ex)) and n is not ex
            else:
                ok = on[0] == oe[0] and on[1] is not oe[1] \
                    and on[0] not in before
                before.append(on[0])
            if not ok:
                rep.violation('provenance', 'define', el.loc(), 'name %s '
                              'and expression %s' % (short(n), short(ex)),
                              el.facts())


def attrs(rep, els, xml):
    """attrs of a scope instruction equals the attribute list."""
    lists = [[], [('class', C('c'))], [('class', C('c')), ('id', C('i'))],
             [('checked', NONE), ('title', T('av'))]]
    for al in lists:
        for ns, key in (('tal', 'condition'), ('tal', 'content'),
                        ('tal', 'define'), ('i18n', 'translate'),
                        ('i18n', 'domain')):
            tal = [key] if ns == 'tal' else []
            i18n = [key] if ns == 'i18n' else []
            at = [TUP([C(k), v]) for k, v in al]
            for el in els.run(tal, (), i18n, attrs=at):
                if el.kind != 'ok':
                    continue
                rep.count('compile_paths')
                rep.seen('names', '%s %d %s:%s' % (xml, len(al), ns, key))
                want = {k: el.st.resolve(v) for k, v in al}
                want['%s:%s' % (ns, key)] = el.st.resolve(dirv(ns, key))
                want = {k: (v.v if isinstance(v, Const) else v)
                        for k, v in want.items()}
                got = [a[-1] if o == 'rawtextBeginScope' else a
                       for o, a in el.ops() if 'beginScope' in o
                       or o == 'rawtextBeginScope']
                if got != [want]:
                    rep.violation('names', '%s:%s' % (ns, key), el.loc(),
                                  'attrs is %s instead of %s' % (
                                      short(got), short(want)), el.facts())
