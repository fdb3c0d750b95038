"""tal:attributes replaces, adds and drops exactly the named attributes."""
from .common import *
from . import structure
from .elements import Elements, dirv
from .c28 import source
from ..values import HList
from ..interp import attr_item


def check(rep, prog, tier):
    rep.rule('statements', 'each statement replaces the attribute of its '
             'name where it stands or is added, with its own expression; '
             'other attributes keep their text and order', 40)
    rep.rule('provenance', 'for any attributes text name and expression of '
             'an entry come from the same statement', 2)
    rep.rule('boolean', 'a Boolean HTML attribute is written as '
             'name="name" for a true value and left out for a false one', 8)
    rep.rule('rendered', 'attributes are rendered in their order, static '
             'ones verbatim', 6)
    for xml in (0, 1):
        els = Elements(prog, xml=bool(xml), loop_k=2)
        statements(rep, els, xml)
        provenance(rep, els, xml)
        rep.use(els.gen.eng)
    ip = interp(prog, raises=False)
    boolean(rep, ip)
    rendered(rep, ip)
    rep.use(ip.eng)
    structure.compare(rep, prog, 'statements', structure.TAL + [
        'i18n:attributes'], need=('attributes',),
        size=3 if tier == 'thorough' else 2)


S_ATTRS = [('class', 'c'), ('id', 'i'), ('checked', None)]
# text -> {name: expression} and order of added ones
CASES = [
    ('class a', {'class': 'a'}),
    ('id a', {'id': 'a'}),
    ('checked a', {'checked': 'a'}),
    ('title a', {'title': 'a'}),
    ('class a; id b', {'class': 'a', 'id': 'b'}),
    ('id b; class a', {'class': 'a', 'id': 'b'}),
    ('class a; title b', {'class': 'a', 'title': 'b'}),
    ('title b; class a', {'class': 'a', 'title': 'b'}),
    ('title a; alt b', {'title': 'a', 'alt': 'b'}),
    ('class a;', {'class': 'a'}),
    ('class a; ', {'class': 'a'}),
    ('class a;;b', {'class': 'a;b'}),
    ('class a;;b; id c', {'class': 'a;b', 'id': 'c'}),
    ('class a;;;;b;;', {'class': 'a;;b;'}),
    ('class a;; ; id b', {'class': 'a; ', 'id': 'b'}),
    ('title a;;; id c', {'title': 'a;', 'id': 'c'}),
    (' class  a b', {'class': 'a b'}),
    ('\n class\n a\n b', {'class': 'a\n b'}),
    ('classes a', {'classes': 'a'}),
    ('x:y a; data-x b', {'x:y': 'a', 'data-x': 'b'}),
    ('data-id a; x-class b', {'data-id': 'a', 'x-class': 'b'}),
    ('id a; data-id b; ids c', {'id': 'a', 'data-id': 'b', 'ids': 'c'}),
    ('data-id b; ids c; id a', {'id': 'a', 'data-id': 'b', 'ids': 'c'}),
    ('lass a; class b; clas c', {'lass': 'a', 'class': 'b', 'clas': 'c'}),
    ('title a; title-x b; x-title c; alt d; e f',
     {'title': 'a', 'title-x': 'b', 'x-title': 'c', 'alt': 'd', 'e': 'f'}),
]
CASED = [('CLASS a', 'CLASS', 'class', 'a'), ('Title a', 'Title', 'title',
                                              'a')]


def statements(rep, els, xml):
    m = 'xml' if xml else 'html'
    cases = list(CASES)
    for text, exact, lower, ex in CASED:
        cases.append((text, {exact if xml else lower: ex}))
    statics = [S_ATTRS, S_ATTRS[::-1], S_ATTRS[:1], []]
    if xml:
        # in HTML the names of static attributes arrive in lower case
        statics.append([('Title', 't'), ('CLASS', 'c')])
        cases.append(('Title a; title b', {'Title': 'a', 'title': 'b'}))
    for static in statics:
        at = [TUP([C(k), C(v) if v is not None else NONE])
              for k, v in static]
        for text, want in cases:
            for replaced in (False, True):
                tal = ['attributes'] + (['replace'] if replaced else [])
                inst = '%s %r on %s%s' % (m, text, '+'.join(
                    k for k, v in static), ' replace' if replaced else '')
                vals = {('tal', 'attributes'): C(text),
                        ('tal', 'replace'): C('structure s')}
                good = 0
                for el in els.run(tal, (), (), vals, attrs=at):
                    rep.count('compile_paths')
                    if el.kind != 'ok':
                        rep.violation('statements', repr(text), el.loc(),
                                      '%s: fails with %s' % (
                                          inst, el.exc_text()), el.facts())
                        continue
                    good += 1
                    rep.seen('statements', inst)
                    if replaced:
                        bad = replacement(el, want)
                    else:
                        bad = compare(el, static, want)
                    if bad:
                        rep.violation('statements', repr(text), el.loc(),
                                      '%s: %s' % (inst, bad), el.facts())
                if not good:
                    rep.violation('statements', repr(text),
                                  structure.generator(els.prog),
                                  inst + ': never accepted', [])


def replacement(el, want):
    for op, arg in el.ops():
        if op == 'insertStructure':
            d = arg[1]
            got = {k: source(v[0]) for k, v in d.items()}
            if got != want:
                return 'the replacements are %s' % short(got)
            return None
    return 'there is no structure insertion'


def compare(el, static, want):
    tags = [a for o, a in el.ops() if o == 'startTag']
    if len(tags) != 1:
        return '%d start tags' % len(tags)
    items = [i for i in tags[0][1] if len(i) < 3 or i[2] not in (
        'tal', 'metal', 'i18n')]
    names = [k for k, v in static]
    if [i[0] for i in items[:len(static)]] != names:
        return 'the attributes become %s' % short([i[0] for i in items])
    for it, (k, v) in zip(items, static):
        if k in want:
            if len(it) != 6 or it[1] != v or it[2] != 'replace' \
                    or source(it[3]) != want[k] or it[4] not in (
                        False, 0, None) or it[5] is not None:
                return '%s becomes %s' % (k, short(it))
        elif len(it) > 2:
            return '%s becomes %s' % (k, short(it))
        elif v is None and it[1] != k:
            return '%s becomes %s' % (k, short(it))
        elif v is not None and not (
                isinstance(it[1], (str, V)) and textof(it[1]).startswith(
                    k + '="') and textof(it[1]).endswith('"')):
            return '%s becomes %s' % (k, short(it))
    rest = items[len(static):]
    new = sorted(set(want) - set(names))
    if sorted(i[0] for i in rest) != new:
        return 'the added attributes are %s instead of %s' % (
            short([i[0] for i in rest]), new)
    for it in rest:
        if len(it) != 6 or it[1] is not None or it[2] != 'insert' \
                or source(it[3]) != want[it[0]]:
            return '%s is added as %s' % (it[0], short(it))
    return None


def textof(v):
    return ''.join(x if isinstance(x, str) else '{}' for x in pieces(
        v if isinstance(v, V) else C(v)))


def provenance(rep, els, xml):
    """With opaque text: entry name and expression are of one statement."""
    for el in els.run(['attributes'], attrs=[TUP([C('class'), C('c')])]):
        if el.kind != 'ok':
            continue
        rep.count('compile_paths')
        tags = [a for o, a in el.ops() if o == 'startTag']
        n = 0
        for it in tags[0][1] if tags else ():
            if len(it) != 6:
                continue
            n += 1
            ex = source(it[3])
            g = [x for x in walk(ex) if isinstance(x, Term)
                 and x.op == 'group'] if isinstance(ex, V) else []
            if not g:
                if not (isinstance(ex, V) and any(
                        x is dirv('tal', 'attributes') for x in walk(ex))):
                    rep.violation('provenance', 'attributes', el.loc(),
                                  'the expression is %s' % short(ex),
                                  el.facts())
                continue
            part = g[0].args[:-1]
            nm = it[0]
            if isinstance(nm, str):
                # a known name: there must be a fact that the name of the
                # same statement equals it
                ok = any(isinstance(t, Term) and any(
                    isinstance(x, Term) and x.op == 'group'
                    and x.args[:-1] == part and x is not g[0]
                    for x in walk(t)) and c is C(nm)
                    for t, c in el.st.subst.items()) or any(
                    v and isinstance(t, Term) and t.op == 'eq'
                    and C(nm) in t.args and any(
                        isinstance(x, Term) and x.op == 'group'
                        and x.args[:-1] == part for x in walk(t))
                    for t, v in el.st.facts.items())
            else:
                ok = any(isinstance(x, Term) and x.op == 'group'
                         and x.args[:-1] == part and x is not g[0]
                         for x in walk(nm))
                low = any(isinstance(x, Term) and (x.op == 'lower' or (
                    x.op == 'm' and x.args[0] in ('lower', 'casefold')))
                    for x in walk(nm))
                if ok and low == bool(xml):
                    rep.violation('provenance', 'attributes', el.loc(),
                                  'in %s the name is %s' % (
                                      'XML' if xml else 'HTML', short(nm)),
                                  el.facts())
            if not ok:
                rep.violation('provenance', 'attributes', el.loc(), 'the '
                              'entry for %s gets the expression %s' % (
                                  short(nm), short(ex)), el.facts())
        rep.seen('provenance', '%d %d entries' % (xml, n))


BOOLEAN = tuple('''checked selected disabled compact nowrap ismap declare
noshade readonly multiple noresize defer CHECKED'''.split())
OTHER = ('class', 'value', 'title')


def boolean(rep, ip):
    for mode in ('html', 'xml'):
        for nm in BOOLEAN + OTHER:
            is_bool = mode == 'html' and nm in BOOLEAN
            for action in ('replace', 'insert'):
                st = ip.moded(mode).fork()
                item = TUP([C(nm), C('v') if action == 'replace' else NONE,
                            C(action), T('attrexpr', C(0)), FALSE, NONE])
                spec = TUP([C('x'), ip.eng.alloc(st, HList([item]))])
                for p in ip.run('startTag', '', spec, st):
                    if p.fact(T('is', T('attrexpr', C(0)), NONE)) is True:
                        continue
                    rep.count('paths')
                    rep.seen('boolean', '%s %s %s' % (mode, nm, action))
                    evs = [e for e in engine_calls(p)
                           if e.name.startswith('evaluate')]
                    bad = one_boolean(p, nm, action, is_bool, evs)
                    if bad:
                        rep.violation('boolean', '%s %s %s' % (
                            mode, nm, action), where(p), bad, trace(p))


def one_boolean(p, nm, action, is_bool, evs):
    if len(evs) != 1 or evs[0].args != (T('attrexpr', C(0)),):
        return 'evaluates %s' % short([e.args for e in evs])
    want = 'evaluateBoolean' if is_bool else 'evaluateText'
    if evs[0].name != want:
        return 'uses %s' % evs[0].name
    r = evs[0].result
    out = output(p)
    if p.fact(T('is', r, DEFAULT)) is True:
        exp = [['<x %s="v">' % nm]] if action == 'replace' else [['<x>']]
    elif not is_bool:
        if p.fact(T('is', r, NONE)) is True:
            exp = [['<x>']]
        else:
            return None if out[0].startswith('<x %s="' % nm) and out[
                -1].endswith('">') and len(out) > 1 else \
                'writes %s' % short(out)
    else:
        t = p.fact(r)
        if t is None:
            return 'whether the value is true is not looked at'
        exp = [['<x %s="%s">' % (nm, nm)]] if t else [['<x>']]
    if out not in exp:
        return 'writes %s' % short(out)
    return None


def rendered(rep, ip):
    a, b = T('text-a'), T('text-b')
    items = {'plain-a': TUP([C('a'), a]), 'plain-b': TUP([C('b'), b]),
             'dyn': attr_item('startTag', 'replace', 0)}
    for mode in ('html', 'xml'):
        for seq in (('plain-a', 'plain-b'), ('plain-b', 'plain-a'),
                    ('plain-a', 'dyn', 'plain-b'),
                    ('dyn', 'plain-a', 'plain-b'),
                    ('plain-a', 'plain-b', 'dyn')):
            st = ip.moded(mode).fork()
            spec = TUP([C('x'), ip.eng.alloc(st, HList(
                [items[k] for k in seq]))])
            for p in ip.run('startTag', '', spec, st):
                rep.count('paths')
                rep.seen('rendered', '%s %s' % (mode, '+'.join(seq)))
                out = output(p)
                marks = [x for x in out if x in (a, b)
                         or x is T('attrname', C(0))]
                full = [{'plain-a': a, 'plain-b': b,
                         'dyn': T('attrname', C(0))}[k] for k in seq]
                short_ = [x for x in full if x in (a, b)]
                if marks not in (full, short_):
                    rep.violation('rendered', '+'.join(seq), where(p),
                                  'writes %s' % short(out), trace(p))
