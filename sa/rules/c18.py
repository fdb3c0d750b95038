"""Directive attributes are stripped, unless asked for."""
from .common import *
from . import structure, c26
from .elements import Elements
from .markup import Markup
from ..values import HList


def check(rep, prog, tier):
    rep.rule('parsed', 'every attribute of the directive namespaces, and '
             'every declaration of them, is marked as such, other '
             'attributes are not, and elements of these namespaces are '
             'marked', 40)
    rep.rule('compiled', 'marked attributes are compiled with their mark, '
             'in place, whatever else is on the element', 30)
    rep.rule('attributes', 'marked attributes are written only if directives '
             'are shown, unmarked ones always', 60)
    rep.rule('expanded', 'inside a macro shown METAL attributes are dropped '
             'or turned into those that reproduce the expansion', 60)
    rep.rule('elements', 'the tags of an element of a directive namespace '
             'are written only if directives are shown', 30)
    for xml, pages in ((False, c26.HTML), (True, c26.XML)):
        mk = Markup(prog, xml, white=NONE)
        for page in pages:
            c26.one(rep, mk, page, 'parsed')
        rep.use(mk.eng)
    compiled(rep, prog)
    for tal in (0, 1):
        for metal in (0, 1):
            for show in (None, -1, 0, 1):
                rendered(rep, prog, tal, metal, show, tier)
    structure.compare(rep, prog, 'compiled', [
        'tal tag', 'content', 'condition', 'repeat', 'omit-tag', 'define',
        'use-macro', 'define-macro', 'define-slot', 'fill-slot', 'domain',
        'translate='], need=('tal tag',),
        size=4 if tier == 'thorough' else 3, contexts=('', 'use', 'def'))


def item(*a):
    return TUP([x if isinstance(x, V) else C(x) for x in a])


def compiled(rep, prog):
    marked = [('tal:x', 'tal'), ('metal:x', 'metal'), ('i18n:x', 'i18n'),
              ('xmlns:tal', 'xmlns')]
    for xml in (False, True):
        els = Elements(prog, xml=xml)
        for i, (nm, mark) in enumerate(marked):
            for tal in ((), ('define',), ('content',), ('attributes',),
                        ('condition', 'repeat')):
                attrs = [item('class', 'c'), item(nm, 'v', mark),
                         item('id', 'i')]
                if i % 2:
                    attrs = attrs[1:] + attrs[:1]
                vals = {('tal', 'attributes'): C('class e; alt f')}
                label = '%s %s %s' % ('xml' if xml else 'html', nm,
                                      '+'.join(tal))
                n = 0
                for el in els.run(tal, attrs=attrs, values=vals):
                    if el.kind != 'ok':
                        continue
                    n += 1
                    rep.count('compile_paths')
                    rep.seen('compiled', label)
                    want = []
                    for a in attrs:
                        a = tuple(x.v for x in a.items)
                        if len(a) == 3:
                            want.append(a)
                        elif 'attributes' in tal and a[0] == 'class':
                            want.append(('class', 'c', 'replace'))
                        else:
                            want.append((a[0], '%s="%s"' % a))
                    for k in tal:
                        want.append(('tal:' + k, None, 'tal'))
                    if 'attributes' in tal:
                        want.append(('alt', None, 'insert'))
                    tags = [a for o, a in el.ops()
                            if o in ('startTag', 'startEndTag')]
                    got = []
                    for t in tags[0][1] if tags else ():
                        t = tuple(t[:3])
                        if len(t) == 3 and (t[2] == 'insert' or t[0][
                                4:] in tal):
                            t = t[0], None, t[2]
                        got.append(t)
                    if got != want:
                        rep.violation('compiled', label,
                                      structure.generator(prog),
                                      'attributes %s become %s' % (
                                          short(want), short(got)),
                                      el.facts())
                if not n:
                    rep.violation('compiled', label,
                                  structure.generator(prog),
                                  'is not accepted', [])
        rep.use(els.gen.eng)


VALUES = [('v', '="v"'), ('a "b" <&', '="a &quot;b&quot; &lt;&amp;"'),
          ('', '=""'), (None, '')]


def rendered(rep, prog, tal, metal, show, tier):
    cfg = {'wrap': C(0), 'stackLimit': C(100), 'strictinsert': C(1),
           'i18nInterpolate': C(1)}
    if show is not None:
        cfg['showtal'] = C(show)
    ip = Interp(prog, tal=bool(tal), metal=bool(metal), raises=False,
                config=cfg, showtal_given=show is not None)
    shown = (not tal) if show in (None, -1) else bool(show)
    conf = 'tal=%d metal=%d showtal=%s' % (tal, metal, show)
    st = fresh(ip)
    tags = 'startTag', 'startEndTag'
    for mode in ('html', 'xml'):
        st1 = st.fork()
        for p in ip.run('mode', '', C(mode), st1):
            st1 = p.st.fork()
        st1.trace, st1.n = None, 0
        # attributes of all kinds, outside of macros
        for op in tags:
            end = '>' if op == 'startTag' else '/>' if mode == 'xml' \
                else ' />'
            for v, text in VALUES:
                items = [item('class', 'class="c"')]
                for k in ('tal', 'metal', 'i18n', 'xmlns'):
                    items += [item('%s:z' % k, v, k), item(k, k + '="x"')]
                want = '<t class="c"' + ''.join(
                    (' %s:z%s' % (k, text) if shown else '')
                    + ' %s="x"' % k
                    for k in ('tal', 'metal', 'i18n', 'xmlns')) + end
                label = '%s %s %s %r' % (conf, mode, op, v)
                tag(rep, ip, 'attributes', label, st1, op, items, want)
        for kind in ('tal', 'metal', 'i18n', 'xmlns'):
            label = '%s %s only %s' % (conf, mode, kind)
            want = '<t%s>' % (' a="v"' if shown else '')
            tag(rep, ip, 'attributes', label, st1, 'startTag',
                [item('a', 'v', kind)], want)
        optional(rep, ip, conf, mode, st1, tal, shown)
    if not metal:
        return
    st = st1
    for lab, s in ip.stacks(4 if tier == 'thorough' else 3, st, 'UE',
                            True):
        for first in ('define-macro', 'define-slot', 'fill-slot',
                      'use-macro', 'extend-macro', None):
            for prefix in ('metal:', 'm:', ''):
                if prefix == '' and first is None:
                    continue
                expanded(rep, ip, conf, lab, s, first, prefix, shown)
        if lab:
            slots(rep, ip, conf, lab, s, shown)
    rep.use(ip.eng)


def fresh(ip):
    st = ip.init_state.fork()
    st.trace, st.n = None, 0
    st.frames, st.stack = {}, ()
    st.ghost = {'depth': 0, 'mindepth': 0}
    return st


def written(p):
    return ''.join(x if isinstance(x, str) else '{%s}' % short(x)
                   for x in output(p))


def tag(rep, ip, rule, label, st, op, items, want):
    s = st.fork()
    spec = TUP([C('t'), ip.eng.alloc(s, HList(items))])
    outs = ip.run(op, '', spec, s)
    rep.seen(rule, label)
    for p in outs:
        rep.count('paths')
        if p.kind != 'ok':
            rep.violation(rule, label, where(p), 'fails', trace(p))
        elif written(p) != want:
            rep.violation(rule, label, where(p), 'writes %s instead of %s'
                          % (written(p), want), trace(p))
    return [p for p in outs if p.kind == 'ok']


def expanded(rep, ip, conf, lab, st, first, prefix, shown):
    """The first two elements in a macro reached by uses and extensions."""
    stack = lab or 'outside'
    single = set(lab[1:]) <= {'E'}
    states = [st]
    entering = True
    todo = [first] if first else []
    todo += ['define-slot', 'fill-slot', 'define-macro']
    for n, nm in enumerate(todo):
        if not shown:
            want = ''
        elif not lab:
            want = ' %s%s="v"' % (prefix, nm)
        elif not single or not entering:
            want = ''
        elif nm == 'define-macro':
            want = ' %suse-macro="m0"' % prefix
            if lab[0] == 'E':
                want = ' %sdefine-macro="d0"' % prefix + want
        elif nm in ('define-slot', 'fill-slot'):
            want = ' %sfill-slot="v"' % prefix
        else:
            want = ''
        entering = entering and not shown
        nxt = []
        for s0 in states:
            s = s0.fork()
            for op in ('startTag',):
                it = [item('class', 'class="c"'),
                      item(prefix + nm, 'v', 'metal'),
                      item('tal:z', 'w', 'tal')]
                spec = TUP([C('t'), ip.eng.alloc(s, HList(it))])
                label = '%s in %s: %s%s' % (conf, stack, prefix,
                                            ' '.join(todo[:n + 1]))
                rep.seen('expanded', label)
                for p in ip.run(op, '', spec, s):
                    rep.count('paths')
                    full = '<t class="c"%s%s>' % (
                        want, ' tal:z="w"' if shown else '')
                    got = written(p)
                    if p.kind != 'ok' or got != full:
                        rep.violation(
                            'expanded', label, where(p),
                            'writes %s instead of %s' % (got, full),
                            trace(p))
                        return
                    e = p.st.fork()
                    e.trace, e.n = None, 0
                    nxt.append(e)
        states = nxt[:4]


def slots(rep, ip, conf, lab, st, shown):
    """Elements of a slot filler belong to the template that has it."""
    blk = block('defineSlot', 'program')
    for p in ip.run('defineSlot', '', TUP([C('s'), blk]), st):
        rep.count('paths')
        for e in interps(p):
            if e.args[0] is blk:
                continue
            # the filler is of the macro use it was looked up in
            depth = [x.args[0].v for x in walk(e.args[0])
                     if isinstance(x, Term) and x.op == 'slots']
            outer = lab[:depth[0]] if depth else None
            if outer != '':
                continue
            for when, s in (('filler', e.snap), ('after', p.st)):
                if when == 'after' and p.kind != 'ok':
                    continue
                s = s.fork()
                s.trace, s.n, s.stack = None, 0, ()
                want = '<t class="c"%s%s>' % (
                    ' metal:fill-slot="v"' if shown and when == 'filler'
                    else '', ' tal:z="w"' if shown else '')
                it = [item('class', 'class="c"'),
                      item('metal:fill-slot', 'v', 'metal'),
                      item('tal:z', 'w', 'tal')]
                tag(rep, ip, 'expanded', '%s in %s %s' % (conf, lab, when),
                    s, 'startTag', it, want)


def optional(rep, ip, conf, mode, st, tal, shown):
    for ns in ('', 'tal', 'metal', None):
        for isend in (0, 1):
            for kind, cexpr in (('none', NONE), ('always', C('')),
                                ('expr', opnd('optTag', 'cexpr'))):
                s = st.fork()
                spec = TUP([C('t'), cexpr, C(ns), C(isend),
                            block('optTag', 'start'),
                            block('optTag', 'program')])
                label = '%s %s ns=%s isend=%d omit=%s' % (
                    conf, mode, ns, isend, kind)
                for p in ip.run('optTag', '', spec, s):
                    rep.count('paths')
                    evs = engine_calls(p, *EVALUATES)
                    if kind == 'expr' and tal and (
                            p.fact(T('is', cexpr, NONE)) is True
                            or p.fact(T('eq', cexpr, C(''))) is True):
                        continue
                    rep.seen('elements', label)
                    omit = bool(ns) and not shown
                    if tal and kind == 'always':
                        omit = True
                    if tal and kind == 'expr':
                        if len(evs) != 1:
                            rep.violation('elements', label, where(p),
                                          'evaluates %d expressions' % len(
                                              evs), trace(p))
                            continue
                        omit = omit or p.fact(evs[0].result) is True
                    elif evs:
                        rep.violation('elements', label, where(p),
                                      'evaluates an expression', trace(p))
                    got = [blockname(x) for x in output(p)]
                    if omit:
                        want = ['program']
                    elif isend:
                        want = ['start']
                    else:
                        want = ['start', 'program', '</t>']
                    if p.kind != 'ok' or got != want:
                        rep.violation('elements', label, where(p),
                                      'writes %s instead of %s' % (
                                          got, want), trace(p))


def blockname(x):
    if isinstance(x, str):
        return x
    if isinstance(x, Term) and x.op == 'out':
        b = x.args[0]
        if isinstance(b, Term) and b.op == 'block':
            return b.args[1] if isinstance(b.args[1], str) else b.args[1].v
    return short(x)
