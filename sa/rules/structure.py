"""What an element with given directives must compile to.

`reference` builds, from the TAL/METAL/I18N semantics alone, the nesting of
instructions expected for an element; `shape` reduces the abstractly
interpreted result of the real generator to the same form.  Static text is
joined, scope instructions are moved before static text they follow (the
optimiser may do that), and each instruction is labelled with the directives
its operands derive from.
"""
import itertools
import multiprocessing
import os
import traceback

from .common import *
from ..engine import Budget
from .elements import Elements, dirv, flat, is_program, pieces_of, astup

# option -> (namespace, directive, empty value)
OPTIONS = {
    'define': ('tal', 'define'), 'condition': ('tal', 'condition'),
    'repeat': ('tal', 'repeat'), 'content': ('tal', 'content'),
    'replace': ('tal', 'replace'), 'attributes': ('tal', 'attributes'),
    'on-error': ('tal', 'on-error'), 'omit-tag': ('tal', 'omit-tag'),
    'omit-tag=': ('tal', 'omit-tag'), 'script': ('tal', 'script'),
    'tal tag': ('tal', 'tal tag'),
    'define-macro': ('metal', 'define-macro'),
    'use-macro': ('metal', 'use-macro'),
    'extend-macro': ('metal', 'extend-macro'),
    'define-slot': ('metal', 'define-slot'),
    'fill-slot': ('metal', 'fill-slot'),
    'translate': ('i18n', 'translate'), 'translate=': ('i18n', 'translate'),
    'domain': ('i18n', 'domain'), 'source': ('i18n', 'source'),
    'target': ('i18n', 'target'), 'name': ('i18n', 'name'),
    'i18n:attributes': ('i18n', 'attributes'), 'data': ('i18n', 'data'),
}
TAL = [o for o, v in OPTIONS.items() if v[0] == 'tal']
METAL = [o for o, v in OPTIONS.items() if v[0] == 'metal']
I18N = [o for o, v in OPTIONS.items() if v[0] == 'i18n']
ORDER = list(OPTIONS)
IGNORED = ('version', 'mode', 'setSourceFile', 'setPosition')



class Sib(tuple):
    """A complete element preceding the rest of a context."""


# context -> outer elements (each a tuple of options)
CONTEXTS = {
    '': (),
    'use': (('use-macro',),),
    'def': (('define-macro',),),
    'unit': (('translate=',),),
    'domain': (('domain',),),
    'fill': (('use-macro',), ('fill-slot',)),
    'def-use': (('define-macro',), ('use-macro',)),
    'repeat': (('repeat',),),
    'fill-use': (('use-macro',), ('fill-slot',), ('use-macro',)),
    'def-slot': (('define-macro',), ('define-slot',)),
    'after-fill': (('use-macro',), Sib(('fill-slot',))),
    'after-fill-use': (('use-macro',), Sib(('fill-slot',)), ('fill-slot',),
                       ('use-macro',)),
    'after-use': (Sib(('use-macro',)),),
    'fill-after-use': (('use-macro',), ('fill-slot',), Sib(('use-macro',))),
    'after-def': (Sib(('define-macro',)),),
    'after-unit': (Sib(('translate=',)),),
    'after-domain': (Sib(('domain',)),),
    'domain-def': (('domain',), ('define-macro',)),
    'domain-after-domain': (('domain',), Sib(('domain',))),
}


def duplicates(opts):
    """Two options standing for one directive cannot be combined."""
    keys = [OPTIONS[o] for o in opts]
    return len(set(keys)) != len(keys)


class Ctx:
    def __init__(self, xml):
        self.xml = xml
        self.in_use = self.in_def = False
        self.level = 0
        self.context = False
        self.slots = None

    def copy(self, **kw):
        c = Ctx(self.xml)
        c.__dict__.update(self.__dict__)
        c.__dict__.update(kw)
        return c


class Rejected(Exception):
    pass


def reject(opts, ctx, isend=0):
    """Why the combination of directives is invalid, or None."""
    o = set(opts)
    if {'content', 'replace'} <= o:
        return 'content with replace'
    if 'extend-macro' in o and 'use-macro' in o:
        return 'extend-macro with use-macro'
    if 'extend-macro' in o and 'define-macro' not in o:
        return 'extend-macro without define-macro'
    if 'define-macro' in o and 'use-macro' in o:
        return 'define-macro with use-macro'
    if o & {'define-macro', 'use-macro', 'extend-macro'} \
            and o & {'define-slot', 'fill-slot'}:
        return 'slot with macro directive'
    if 'translate' in o and o & {'content', 'replace'}:
        return 'message id with content'
    if 'data' in o and 'translate' not in o:
        return 'i18n:data without message id'
    if 'name' in o and not ctx.level:
        return 'i18n:name outside a translation unit'
    if 'fill-slot' in o and not ctx.in_use:
        return 'fill-slot outside use-macro'
    if 'define-slot' in o and not ctx.in_def and not (
            ctx.in_use and 'fill-slot' not in o):
        return 'define-slot outside define-macro'
    return None


def reference(opts, name, children, ctx, isend=0, suffix=''):
    """Expected shape: children is a function ctx -> nodes."""
    o = set(opts)
    why = reject(opts, ctx, isend)
    if why:
        raise Rejected(why)
    if not o:
        if isend:
            return [('text', '<%s%s%s' % (
                name, STATIC, '/>' if ctx.xml else ' />'))]
        kids = children(ctx)
        if ctx.xml and not kids:
            return [('text', '<%s%s/>' % (name, STATIC))]
        return [('text', '<%s%s>' % (name, STATIC))] + kids + [
            ('text', '</%s>' % name)]
    replaced = 'replace' in o
    content = bool(o & {'content', 'replace'})
    translate = bool(o & {'translate', 'translate='})
    omit = None
    if 'omit-tag' in o:
        omit = 'expr'
    elif 'omit-tag=' in o or replaced:
        omit = 'empty'
    tagns = 'tal tag' in o
    opt = omit is not None or tagns

    # what the children see
    inner = ctx.copy()
    fill = 'fill-slot' in o
    if fill:
        inner.in_use = False
    metal = not inner.in_use
    use = metal and bool(o & {'use-macro', 'extend-macro'})
    defm = metal and 'define-macro' in o
    defs = metal and 'define-slot' in o
    if defm:
        inner.in_def = True
    slots = None
    if use:
        inner.in_use = True
        inner.slots = slots = {}
    if translate:
        inner.level += 1
    tal_i18n = bool(o & set(TAL) | o & set(I18N))
    context = False
    if 'define-slot' in o or o & set(I18N):
        context = ctx.context or bool(o & {'domain', 'source', 'target'})
        if context:
            inner.context = True

    plain = not (o - {'tal tag'})
    attr = STATIC if name in 'pq' else ''

    def start(end, xml=ctx.xml):
        if plain:
            return [('text', '<%s%s%s' % (
                name, attr, '>' if not end else '/>' if xml else ' />'))]
        return [('startEndTag' if end else 'startTag', name)]

    def keys(*ks):
        return tuple(sorted(k + suffix for k in ks))

    core = [] if isend else children(inner)
    if 'script' in o:
        core = [('evaluateCode', keys('tal:script'), core)]
    if content:
        core = [('insert-i18n' if translate else 'insert', keys(
            'tal:replace' if replaced else 'tal:content'), core)]
    elif translate:
        ks = ['i18n:translate'] if 'translate' in o else []
        if 'data' in o:
            ks.append('i18n:data')
        core = [('insertTranslation', keys(*ks), core)]
    if opt:
        end = bool(isend)
        if ctx.xml and (isend or not core):
            end = True
        elem = [('optTag', keys(*(['tal:omit-tag'] if omit == 'expr'
                                  else [])),
                 omit or 'none', tagns, end,
                 start(end if ctx.xml else isend), core)]
    elif isend:
        elem = start(True) + core
    elif ctx.xml and not core and 'name' not in o:
        elem = start(True)
    else:
        elem = start(False) + core + [('text', '</%s>' % name)]
    if 'name' in o:
        elem = [('i18nVariable', keys('i18n:name'), elem)]
    if 'repeat' in o:
        elem = [('loop', keys('tal:repeat'), elem)]
    if 'condition' in o:
        elem = [('condition', keys('tal:condition'), elem)]
    if 'define' in o:
        elem = [('set', keys('tal:define'))] + elem
    if 'on-error' in o:
        ins = [('insert', keys('tal:on-error'), [])]
        if tagns:
            handler = [('optTag', (), 'none', True, bool(isend),
                        start(False), ins)]
        else:
            handler = start(False) + ins + [('text', '</%s>' % name)]
        elem = [('onError', (), elem, handler)]
    if tal_i18n:
        elem = [('beginScope',)] + elem + [('endScope',)]
    if context:
        elem = [('beginI18nContext',)] + elem + [('endI18nContext',)]
    if defs:
        elem = [('defineSlot', keys('metal:define-slot'), elem)]
    if fill:
        if ctx.slots is not None:
            ctx.slots['metal:fill-slot' + suffix] = tidy(elem)
        elem = [('fillSlot', keys('metal:fill-slot'), elem)]
    if use:
        ext = 'extend-macro' in o
        ks = ['metal:extend-macro', 'metal:define-macro'] if ext else [
            'metal:use-macro']
        elem = [('extendMacro' if ext else 'useMacro', keys(*ks),
                 slots, elem)]
    if defm:
        elem = [('defineMacro', keys('metal:define-macro'), elem)]
    return elem


# the static attribute of the elements
STATIC = ' class="static"'
SCOPE = ('beginScope', 'endScope')


def tidy(nodes):
    """Joined text, scope changes before the text they follow."""
    out = []
    for n in nodes:
        if n[0] == 'text':
            if not n[1]:
                continue
            if out and out[-1][0] == 'text':
                out[-1] = ('text', out[-1][1] + n[1])
                continue
        elif n[0] in SCOPE and out and out[-1][0] == 'text':
            out.insert(len(out) - 1, n)
            continue
        elif n[0] == 'set' and out and out[-1] == n:
            continue
        else:
            n = tuple(tidy(x) if isinstance(x, list) else x for x in n)
        out.append(n)
    return out


def directives_in(x):
    """Names of directives a value derives from."""
    ks = set()
    for t in walk(astup(x)):
        if isinstance(t, Term) and t.op == 'dir':
            ks.add('%s:%s' % (t.args[0], t.args[1]))
    return ks


def shape(prog, drop=IGNORED):
    out = []
    for ins in prog:
        op, arg = ins[0], ins[1] if len(ins) > 1 else None
        if op in drop:
            continue
        if op in ('rawtextOffset', 'rawtextColumn'):
            out.append(('text', textof(arg[0])))
        elif op == 'rawtext':
            out.append(('text', textof(arg)))
        elif op == 'rawtextBeginScope':
            s, col, pos, closeprev, d = arg
            if closeprev:
                out.append(('endScope',))
            out.append(('text', textof(s)))
            if 'setPosition' not in drop:
                out.append(('setPosition', pos))
            out.append(('beginScope',))
        elif op in ('startTag', 'startEndTag'):
            out.append((op, arg[0]))
        elif op in SCOPE or op in ('beginI18nContext', 'endI18nContext'):
            out.append((op,))
        elif op in ('version', 'mode', 'setSourceFile', 'setPosition'):
            out.append((op, arg))
        elif op in ('setLocal', 'setGlobal'):
            out.append(('set', tuple(sorted(directives_in(arg)))))
        elif op in ('insertText', 'insertStructure', 'insertI18nText',
                    'insertI18nStructure'):
            ks = directives_in(arg[0])
            out.append(('insert-i18n' if 'I18n' in op else 'insert',
                        tuple(sorted(ks)), shape(arg[-1], drop)))
        elif op == 'optTag':
            nm, ce, ns, isend, start, body = arg
            out.append((op, tuple(sorted(directives_in(ce))),
                        'none' if ce is None else 'empty' if ce == ''
                        else 'expr', bool(ns), bool(isend),
                        shape(start, drop), shape(body, drop)))
        elif op in ('useMacro', 'extendMacro'):
            ks = directives_in([x for x in arg
                                if not isinstance(x, (list, dict))])
            slots = {'+'.join(sorted(directives_in(k))) or k:
                     tidy(shape(v, drop)) for k, v in arg[2].items()}
            out.append((op, tuple(sorted(ks)), slots,
                        shape(arg[3], drop)))
        elif isinstance(arg, tuple):
            blocks = [x for x in arg if isinstance(x, list)]
            ks = directives_in([x for x in arg if not isinstance(x, list)])
            out.append((op, tuple(sorted(ks))) + tuple(
                shape(b, drop) for b in blocks))
        else:
            out.append((op, arg))
    return out


def textof(s):
    if isinstance(s, str):
        return s
    return ''.join(x if isinstance(x, str) else '{%s}' % '+'.join(
        sorted(directives_in(x))) for x in pieces_of(s))


def split(opts, suffix=''):
    """Arguments of Elements.start for a sequence of options."""
    d = {'tal': [], 'metal': [], 'i18n': []}
    vals = {}
    for o in opts:
        ns, key = OPTIONS[o]
        d[ns].append(key)
        if o.endswith('='):
            vals[ns, key] = C('')
        else:
            vals[ns, key] = T('dir', ns, key + suffix)
    return d, vals


def assume(st, opts, suffix=''):
    """Directive values are not empty, the domain is not the default one."""
    for o in opts:
        ns, k = OPTIONS[o]
        v = T('dir', ns, k + suffix)
        st.facts[v] = True
        if k == 'domain':
            st.facts[T('eq', v, C('default'))] = False


def start(els, opts, name='p', suffix='', pos=None, isend=0):
    d, vals = split(opts, suffix)
    kw = {}
    if pos is not None:
        kw['pos'] = pos
    if name not in 'pq':
        kw['attrs'] = []

    def f(s):
        assume(s, opts, suffix)
        return els.start(d['tal'], d['metal'], d['i18n'], vals, name=name,
                         isend=isend, **kw)(s)
    return f


def opening(els, context):
    out = []
    for i, oo in enumerate(CONTEXTS[context]):
        if isinstance(oo, Sib):
            out += element(els, oo, body='@sib@', name='o%d' % i,
                           suffix=str(i))
            continue
        out.append(start(els, oo, 'o%d' % i, str(i), TUP([C(11 + i), C(i)])))
    return out


def closing(els, context):
    out = []
    for i in reversed(range(len(CONTEXTS[context]))):
        if isinstance(CONTEXTS[context][i], Sib):
            continue
        out.append(els.end(name='o%d' % i, pos=TUP([C(311 + i), C(i)])))
    return out + [els.code]


def element(els, opts, isend=0, body='@body@', name='p', suffix=''):
    out = [start(els, opts, name, suffix, isend=isend)]
    if not isend:
        if body is not None:
            out.append(els.text(body))
        out.append(els.end(name=name))
    return out


def compile_one(els, opts, context='', isend=0, body='@body@'):
    steps = opening(els, context) + [els.text('@before@')]
    steps += element(els, opts, isend, body)
    steps += [els.text('@after@')] + closing(els, context)
    return els.steps(*steps)


def expected(xml, opts, context='', isend=0, body='@body@', then=None,
             outside=None):
    """then: an element after it; outside: one after its context."""
    ctx = Ctx(xml)
    outer = CONTEXTS[context]

    def level(i):
        def kids(c):
            if i < len(outer) and isinstance(outer[i], Sib):
                return reference(
                    outer[i], 'o%d' % i, lambda cc: [('text', '@sib@')], c,
                    suffix=str(i)) + level(i + 1)(c)
            if i < len(outer):
                return reference(outer[i], 'o%d' % i, level(i + 1), c,
                                 suffix=str(i))
            inner = (lambda cc: [('text', body)] if body else [])
            out = [('text', '@before@')] + reference(
                opts, 'p', inner, c, isend) + [('text', '@after@')]
            if then is not None:
                out += reference(then, 'q', lambda cc: [('text', '@q@')], c,
                                 suffix='q') + [('text', '@end@')]
            return out
        return kids
    out = level(0)(ctx)
    if outside is not None:
        out = out + reference(outside, 'q', lambda cc: [('text', '@q@')],
                              ctx, suffix='q') + [('text', '@end@')]
    return tidy(out)


# ------------------------------------------------------------- comparing

def _task(arg):
    key, items = arg
    prog, xml, extra = _shared[key]
    els = Elements(prog, xml=bool(xml), loop_k=1)
    out = []
    for opts, context, isend, body in items:
        out.append(examine(els, xml, opts, context, isend, body, extra))
    seen = sorted({(f.file, f.qual) for f in els.gen.eng.functions_seen})
    return out, seen


_shared = {}


def label(xml, opts, context, isend, body):
    return '%s <p %s>%s%s%s' % (
        'xml' if xml else 'html', ' '.join(opts) or '-',
        ' in ' + context if context else '', ' isend' if isend else '',
        ' empty' if body is None and not isend else '')


def examine(els, xml, opts, context, isend, body, extra=None):
    """(label, paths, [(construct, message, path)])"""
    lab = label(xml, opts, context, isend, body)
    try:
        want = expected(xml, opts, context, isend, body)
        why = None
    except Rejected as e:
        want, why = None, str(e)
    outs = compile_one(els, opts, context, isend, body)
    bad = []
    good = 0
    for el in outs:
        if el.kind != 'ok':
            if why is None and not el.is_tal_error():
                bad.append((' '.join(opts), '%s: fails with %s' % (
                    lab, el.exc_text()), el.facts()))
            continue
        if why is not None:
            bad.append((' '.join(opts), '%s: accepted although %s' % (
                lab, why), el.facts()))
            continue
        got = tidy(shape(el.program[:]))
        good += 1
        if got != want:
            bad.append((' '.join(opts), '%s: compiles to %s instead of %s'
                        % (lab, diff(got, want)[0], diff(got, want)[1]),
                        el.facts() + ['compiled: %r' % (got,),
                                      'expected: %r' % (want,)]))
        if extra:
            bad.extend(extra(el, lab, opts))
    if why is None and not good:
        bad.append((' '.join(opts), '%s: never accepted' % lab, []))
    return lab, len(outs), [(a, b, [str(x)[:600] for x in c])
                            for a, b, c in bad]


def diff(a, b):
    """First difference of two shapes, as short texts."""
    if type(a) is type(b) and isinstance(a, (list, tuple)) \
            and len(a) == len(b):
        for x, y in zip(a, b):
            if x != y:
                return diff(x, y)
    return short(a), short(b)


def subsets(options, size, need=None):
    options = sorted(options, key=ORDER.index)
    for n in range(0, size + 1):
        for c in itertools.combinations(options, n):
            if duplicates(c):
                continue
            if need and not set(c) & set(need):
                continue
            yield c


def compare(rep, prog, rule, options, need=None, size=2, contexts=('',),
            xmls=(0, 1), isends=(0,), bodies=('@body@',), extra=None,
            valid=True, location=None, order=None):
    """Compile every small subset of options and compare with the
    reference."""
    total = 0
    for xml in xmls:
        work = []
        for c in subsets(options, size, need):
            if order:
                c = order(c)
            for context in contexts:
                if valid and invalid(xml, c, context):
                    continue
                for isend in isends:
                    if isend and xml:
                        continue
                    for body in bodies:
                        if isend and body is None:
                            continue
                        work.append((c, context, isend, body))
        key = len(_shared)
        _shared[key] = (prog, xml, extra)
        for (lab, n, bad) in parallel(rep, key, work):
            rep.seen(rule, lab)
            rep.count('compilations', 1)
            rep.count('compile_paths', n)
            for construct, msg, path in bad:
                rep.violation(rule, construct, location or generator(prog),
                              msg, path)
            total += 1
    return total


def invalid(xml, opts, context):
    try:
        expected(xml, opts, context)
        return False
    except Rejected:
        return True


def generator(prog, method='emitStartElement'):
    cls = prog.cls('talgenerator', 'TALGenerator')
    fn = prog.need_method(cls, method)
    return (fn.fi.file, fn.fi.node.lineno, fn.fi.qual)


def parallel(rep, key, work, task=_task, chunk=None):
    n = min(8, os.cpu_count() or 1)
    if len(work) < 24 or n == 1:
        res = [task((key, work))]
    else:
        chunk = chunk or max(4, len(work) // (n * 4))
        parts = [(key, work[i:i + chunk])
                 for i in range(0, len(work), chunk)]
        with multiprocessing.get_context('fork').Pool(n) as pool:
            res = pool.map(task, parts, 1)
    out = []
    for r, seen in res:
        out.extend(r)
        for f, q in seen:
            rep.functions.add('%s:%s' % (f, q))
            rep.files.add(f)
    return out


def fan(rep, work, fn):
    """fn(report, item) for all items, in several processes."""
    n = min(8, os.cpu_count() or 1)
    key = len(_shared)
    _shared[key] = (rep, fn, list(work))
    idx = [(key, i) for i in range(len(work))]
    if n == 1 or len(work) < 2:
        res = [_fan(i) for i in idx]
    else:
        with multiprocessing.get_context('fork').Pool(n) as pool:
            res = pool.map(_fan, idx, 1)
    error = None
    for inst, counters, found, functions, files, assumptions, err in res:
        error = error or err
        for rule, d in inst.items():
            for k, v in d.items():
                rep.instances[rule][k] = rep.instances[rule].get(k, 0) + v
        for k, v in counters.items():
            rep.count(k, v)
        rep.functions |= functions
        rep.files |= files
        for a in assumptions:
            rep.assume(a)
        for f in found:
            if (f['rule'], f['construct']) not in rep.keys:
                rep.keys.add((f['rule'], f['construct']))
                rep.found.append(f)
    if error is not None:
        raise error


def _fan(arg):
    key, i = arg
    rep, fn, work = _shared[key]
    r = type(rep)(rep.pid, rep.tier, rep.seed)
    for name in rep.rules:
        r.rule(name, rep.rules[name], rep.floors[name])
    error = None
    try:
        fn(r, work[i])
    except (Broken, Budget) as e:
        error = e
    except Exception:
        error = RuntimeError(traceback.format_exc())
    return (r.instances, r.counters, r.found, r.functions, r.files,
            r.assumptions, error)
