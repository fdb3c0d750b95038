"""Template errors are TAL errors that carry their position."""
from .common import *
from . import structure
from .c16 import MORE, TAGS, Refused, reference
from .invalid import OPTIONS, Page, VALUES, cases, needed
from .template import Template, show, where_is
from ..values import BOUND

# options with an expression
EXPRESSIONS = ('define', 'condition', 'repeat', 'content', 'replace',
               'attributes', 'on-error', 'omit-tag', 'use-macro',
               'extend-macro', 'data')
CURRENT = TUP([C(771), C(53)])


def check(rep, prog, tier):
    rep.rule('directives', 'an invalid element is reported as a TAL error '
             'with the position of that element', 500)
    rep.rule('compiler', 'an error of the expression compiler becomes a TAL '
             'error that names the expression and has the position of the '
             'element the expression belongs to', 60)
    rep.rule('nesting', 'an error about tags is reported with the position '
             'of the tag', 100)
    rep.rule('renderer', 'an error about a macro has the current position',
             4)
    rep.rule('file', 'parsing from a file adds the name of the file to the '
             'error, which is passed on', 6)
    rep.rule('message', 'position and file name are kept by the error and '
             'are part of its text', 4)
    rep.assume('html.parser and expat report tags, attributes and positions '
               'as documented')
    n = 8
    work = [('directives', xml, i, n) for i in range(n)
            for xml in (False, True)]
    work += [('compiler', xml) for xml in (False, True)]
    work += [('nesting', i, 4) for i in range(4)]
    work += [('file', xml) for xml in (False, True)]
    work += [('renderer',), ('message',)]
    structure.fan(rep, work, lambda r, w: PARTS[w[0]](r, prog, tier,
                                                      *w[1:]))


def directives(rep, prog, tier, xml, i, of):
    t = Template(prog, xml)
    for k, c in enumerate(cases(xml, tier, child=('condition', 'domain'),
                                triples=tier == 'thorough')):
        if k % of == i:
            invalid(rep, t, c, 'directives', xml)
    rep.use(t.eng)


def invalid(rep, t, c, rule, xml):
    label = '%s %s' % ('xml' if xml else 'html', show(c.page))
    for o in t.compile(c.page):
        rep.count('paths')
        if o.kind == 'ok':
            continue    # another property
        rep.seen(rule, label)
        if not o.is_tal_error():
            rep.violation(rule, c.why, raised(t, o), '%s fails with %s '
                          'instead of a TAL error' % (label, o.exc_class()),
                          o.facts())
        elif o.at() != where_is(c.at):
            rep.violation(rule, c.why, raised(t, o), '%s: the error is '
                          'reported at %s, the element is at %s' % (
                              label, o.at(), where_is(c.at)), o.facts())


def raised(t, o):
    return t.loc()


def compiler(rep, prog, tier, xml):
    t = Template(prog, xml, compile_raises=True)
    for page in expression_pages(xml):
        label = '%s %s' % ('xml' if xml else 'html', show(page))
        failed = set()
        for o in t.compile(page):
            rep.count('paths')
            evs = [e for e in o.st.events() if e.name == 'compile']
            if o.kind == 'ok':
                continue
            rep.seen('compiler', label)
            if not evs:
                rep.violation('compiler', 'valid', t.loc(), '%s is rejected:'
                              ' %s' % (label, o.exc_text()), o.facts())
                continue
            expr = o.st.resolve(evs[-1].args[0])
            if not isinstance(expr, Const) or not isinstance(expr.v, str):
                raise Broken('the expression is not known: %r' % (expr,))
            n = int(''.join(ch for ch in expr.v if ch.isdigit()))
            failed.add(expr.v)
            if not o.is_tal_error():
                rep.violation('compiler', evs[-1].loc[2], evs[-1].loc,
                              '%s: an error of the compiler for %s ends in '
                              '%s' % (label, expr.v, o.exc_text()),
                              o.facts())
                continue
            if o.at() != where_is(n):
                rep.violation('compiler', evs[-1].loc[2], evs[-1].loc,
                              '%s: the error in %s is reported at %s, the '
                              'element is at %s' % (label, expr.v, o.at(),
                                                    where_is(n)), o.facts())
            if expr.v not in o.exc_text():
                rep.violation('compiler', evs[-1].loc[2], evs[-1].loc,
                              '%s: the error does not name %s: %s' % (
                                  label, expr.v, o.exc_text()), o.facts())
    rep.use(t.eng)


def expression_pages(xml):
    for o in EXPRESSIONS:
        more, ctx = needed(o)
        for inner in ((), ('condition',), ('content',)):
            for form in ('<', '/>'):
                for extra in ((), ('condition', 'omit-tag'),
                              ('tal tag', 'on-error')):
                    if set(extra) & {o} or {'content', 'replace'} <= {
                            o} | set(extra):
                        continue
                    if form == '/>' and inner:
                        continue
                    page = Page()
                    r = page.put('<', 'root', ('define',))
                    b = page.put('<', 'b', ('condition',))
                    page.close(b)
                    opened = page.inside(ctx)
                    n = page.put(form, 'p', (o,) + more + extra)
                    if form == '<':
                        page.append('@body@')
                        if inner:
                            c = page.put('<', 'c', inner)
                            page.close(c)
                        page.close(n)
                    c = page.put('<', 'd', ('repeat',))
                    page.close(c)
                    page.outside(opened)
                    page.close(r)
                    yield page
    for v in ('v e#; w f#', 'k e#; l f#'):
        page = Page()
        r = page.put('<', 'root')
        o = 'define' if v[0] == 'v' else 'attributes'
        n = page.put('<', 'p', (o,), {o: v})
        page.close(n)
        page.close(r)
        yield page


def nesting(rep, prog, tier, i, of):
    t = Template(prog, False)
    tags = TAGS + MORE
    pages = []
    for a in tags:
        for b in tags:
            if a in TAGS or b in TAGS or tier == 'thorough':
                pages.append([('start', a), ('start', b)])
                pages.append([('start', 'div'), ('start', a), ('end', b)])
                pages.append([('start', a), ('start', 'b'), ('start', b)])
    for b in tags:
        pages.append([('end', b)])
        pages.append([('start', 'div'), ('end', 'div'), ('end', b)])
        for op in ('startend',):
            pages.append([('start', 'h1'), ('start', 'i'), (op, b)])
    for k, page in enumerate(pages):
        if k % of != i:
            continue
        try:
            reference(page)
            continue
        except Refused:
            pass
        items = []
        for op, tag in page:
            items.append(('</', tag) if op == 'end' else
                         ('<' if op == 'start' else '/>', tag, []))
            items.append('text')
        at = len(items) - 2
        label = show(items)
        for o in t.compile(items):
            rep.count('paths')
            if o.kind == 'ok':
                continue    # another property
            rep.seen('nesting', label)
            if not set(o.mro()) & {'HTMLParseError', 'TALError'}:
                rep.violation('nesting', label, t.loc(), 'fails with %s' %
                              o.exc_class(), o.facts())
            elif o.at() != where_is(at):
                rep.violation('nesting', label, t.loc(), 'the error is '
                              'reported at %s, the tag is at %s' % (
                                  o.at(), where_is(at)), o.facts())
    rep.use(t.eng)


def renderer(rep, prog, tier):
    for tal in (True, False):
        ip = interp(prog, summarised=True, tal=tal)
        for mode in ('html', 'xml'):
            st = ip.moded(mode)
            for q in ip.run('setPosition', '', CURRENT, st):
                if q.kind != 'ok':
                    continue
                s = q.st.fork()
                s.trace, s.n = None, 0
                for op in OPCODES:
                    for variant, spec in operands(op):
                        if op == 'setPosition':
                            continue
                        for p in ip.run(op, variant, spec, s):
                            macro_error(rep, p, op, mode, tal)
        rep.use(ip.eng)


def macro_error(rep, p, op, mode, tal):
    rep.count('paths')
    if p.kind != 'raise' or 'TALError' not in exc_names(p):
        return
    inst = '%s %s tal=%d' % (op, mode, tal)
    rep.seen('renderer', inst)
    h = p.st.heap[p.val.oid]
    got = [p.st.resolve(h.fields.get(k, NONE)) for k in ('lineno', 'offset')]
    if got != list(CURRENT.items):
        rep.violation('renderer', op, where(p), 'the %s is reported at %s, '
                      'not at the current position' % (
                          exc_names(p)[0], short(got)), trace(p))


def file(rep, prog, tier, xml):
    t = Template(prog, xml)
    bad = [('<', 'p', [('tal:nonsense', 'x')]), ('</', 'p')]
    late = [('<', 'p', [('metal:define-macro', '1')]), 'x', ('</', 'p')]
    good = [('<', 'p', [('tal:content', 'e')]), 'x', ('</', 'p')]
    open_ = [('<', 'b', [('tal:content', 'e')]), 'x']
    pages = [('start', bad), ('end', late), ('none', good)]
    if not xml:
        pages.append(('end of input', open_))
    name = T('filename')
    t.eng.nonnull.add(name)
    fn = t.prog.need_method(t.cls, 'parseFile')
    loc = fn.fi.file, fn.fi.node.lineno, fn.fi.qual
    from .template import Outline
    for what, page in pages:
        label = '%s error at %s' % ('xml' if xml else 'html', what)
        t.pending = t.items(page)
        try:
            outs = t.call(t.state.fork(), 'parseFile', [name])
        finally:
            t.pending = None
        for k, s, v in outs:
            rep.count('paths')
            o = Outline(t, k, s, v)
            rep.seen('file', label)
            if what == 'none':
                if k != 'ok':
                    rep.violation('file', label, loc, 'a valid template is '
                                  'rejected: %s' % o.exc_text(), o.facts())
                continue
            if k == 'ok':
                rep.violation('file', label, loc, 'the error is lost',
                              o.facts())
            elif not o.is_tal_error():
                rep.violation('file', label, loc, 'the error becomes %s' %
                              o.exc_class(), o.facts())
            elif o.exc_field('filename') is not name:
                rep.violation('file', label, loc, 'the error does not have '
                              'the name of the file', o.facts())
            elif o.at() != where_is(0):
                rep.violation('file', label, loc, 'the error is reported at '
                              '%s' % (o.at(),), o.facts())
    rep.use(t.eng)


def message(rep, prog, tier):
    t = Template(prog, False)
    eng = t.eng
    for mod, cls in (('taldefs', 'TALError'), ('taldefs', 'METALError'),
                     ('taldefs', 'I18NError'),
                     ('taldefs', 'TALExpressionError'),
                     ('htmltalparser', 'HTMLParseError')):
        c = prog.cls(mod, cls)
        init = prog.need_method(c, '__str__')
        loc = init.fi.file, init.fi.node.lineno, init.fi.qual
        rep.seen('message', cls)
        outs = eng.instantiate(t.state.fork(), c, [
            C('what failed'), CURRENT], {}, t.node())
        named = 'TALError' in [t.state.heap[x.oid].name for x in prog.mro(
            c, t.state.heap) if isinstance(x, Ref)]
        for k, s, v in outs:
            res = [(k, s, v)]
            if k == 'ok' and named:
                fn = prog.need_method(c, 'setFile')
                res = [(k2, s2, v) for k2, s2, _ in eng.call(
                    s, BOUND(v, fn), [C('page.pt')], {}, t.node())]
            for k2, s2, _ in res:
                for k3, s3, text in eng.call(s2, BOUND(v, init), [], {},
                                             t.node()):
                    rep.count('paths')
                    text = s3.resolve(text)
                    text = text.v if isinstance(text, Const) else repr(text)
                    want = ['what failed', '771', '54']
                    if named:
                        want.append('page.pt')
                    miss = [w for w in want if w not in str(text)]
                    if k3 != 'ok' or miss:
                        rep.violation('message', cls, loc, 'the text %r '
                                      'lacks %s' % (text, miss))
                    fields = s3.heap[v.oid].fields
                    at = [s3.resolve(fields.get(x, NONE))
                          for x in ('lineno', 'offset')]
                    if at != list(CURRENT.items):
                        rep.violation('message', cls, loc, 'the error is at '
                                      '%s' % short(at))
        rep.use(eng)


PARTS = {'directives': directives, 'compiler': compiler, 'nesting': nesting,
         'renderer': renderer, 'file': file, 'message': message}
