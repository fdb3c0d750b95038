"""Compiling an element leaves no compile-time nesting behind."""
from .common import *
from . import structure as st
from .elements import Elements, nested_blocks

PROBES = [('name',), ('fill-slot',), ('define-slot',), ('use-macro',),
          ('define-macro', 'extend-macro'), ('translate=', 'domain'),
          ('condition', 'content')]
OUTSIDE = PROBES[:3]


def check(rep, prog, tier):
    rep.rule('closed', 'after an accepted element finishing the compilation '
             'succeeds on every path, with the instructions expected before, '
             'for and after the element', 150)
    rep.rule('no-trace', 'an element that follows compiles, or is rejected, '
             'as it would without the first one', 300)
    rep.rule('balance', 'in every instruction block scopes and contexts are '
             'opened and closed in matching pairs', 150)
    rep.rule('content-once', 'the content of the element is compiled once',
             150)
    rep.assume('directive values are opaque; lists in them have one '
               'statement')
    size = 3 if tier == 'thorough' else 2
    st.compare(rep, prog, 'closed', list(st.OPTIONS), size=1,
               contexts=tuple(st.CONTEXTS), bodies=('@body@', None),
               isends=(0, 1))
    for xml in (0, 1):
        work = []
        for c in st.subsets(st.OPTIONS, size):
            for context in ('', 'use', 'def', 'unit', 'fill', 'domain'):
                if not st.invalid(xml, c, context) and relevant(c, context):
                    work.append((c, context, 0, '@body@'))
                    if len(c) <= 2:
                        work.append((c, context, 0 if xml else 1, None))
        key = len(st._shared)
        st._shared[key] = (prog, xml, tier)
        for lab, n, bad in st.parallel(rep, key, work, task):
            rep.count('compile_paths', n)
            for r in ('closed', 'no-trace', 'balance', 'content-once'):
                rep.seen(r, lab)
            for rule, construct, msg, path in bad:
                rep.violation(rule, construct, st.generator(prog), msg, path)


def relevant(c, context):
    """Contexts only matter to directives that depend on them."""
    o = set(c)
    if context == '':
        return True
    if context in ('use', 'def', 'fill'):
        return len(o) <= 1 or bool(o & set(st.METAL))
    if context == 'unit':
        return bool(o & {'name', 'translate', 'translate='})
    return len(o) <= 1 or bool(o & {'define-slot', 'domain', 'source'})


def task(arg):
    key, items = arg
    prog, xml, tier = st._shared[key]
    els = Elements(prog, xml=bool(xml), loop_k=1)
    out = []
    for opts, context, isend, body in items:
        out.append(one(els, xml, opts, context, tier, isend, body))
    return out, sorted({(f.file, f.qual)
                        for f in els.gen.eng.functions_seen})


def one(els, xml, opts, context, tier, isend, body):
    lab = st.label(xml, opts, context, isend, body)
    bad = []
    n = 0
    steps = st.opening(els, context) + [els.text('@before@')]
    steps += st.element(els, opts, isend, body) + [els.text('@after@')]
    want = st.expected(xml, opts, context, isend, body)
    outs = els.steps(*steps)
    oks = [e for e in outs if e.kind == 'ok']
    con = ' '.join(opts)
    if not oks:
        bad.append(('closed', con, lab + ': never accepted', []))
    for e in outs:
        if e.kind != 'ok' and not e.is_tal_error():
            bad.append(('closed', con, '%s: fails with %s' % (
                lab, e.exc_text()), e.facts()))
    done = 0
    for i, e in enumerate(oks):
        for f in els.steps(*st.closing(els, context), state=e.st):
            n += 1
            if f.kind != 'ok':
                if f.is_tal_error():
                    continue
                bad.append(('closed', con, '%s: finishing fails with %s' % (
                    lab, f.exc_text()), f.facts()))
                continue
            done += 1
            got = st.tidy(st.shape(f.program))
            if got != want:
                a, b = st.diff(got, want)
                bad.append(('closed', con, '%s: compiles to %s instead of %s'
                            % (lab, a, b), f.facts()))
            bad.extend(balance(f, lab, con, 1 if body else 0))
        if i >= (3 if tier == 'thorough' else 1):
            continue
        for probe in PROBES:
            for outside in (False, True) if context and (
                    probe in OUTSIDE) else (False,):
                m, b = follow(els, xml, e, opts, context, probe, lab,
                              outside, isend, body)
                n += m
                bad.extend(b)
    if oks and not done:
        bad.append(('closed', con, lab + ': never accepted', []))
    return lab, n, [(r, c, m, [str(x)[:400] for x in p])
                    for r, c, m, p in bad]


def follow(els, xml, e, opts, context, probe, lab, outside, isend, body):
    con = ' '.join(opts)
    bad = []
    try:
        want = st.expected(xml, opts, context, isend, body, **{
            'outside' if outside else 'then': probe})
    except st.Rejected:
        want = None
    second = st.element(els, probe, body='@q@', name='q', suffix='q') + [
        els.text('@end@')]
    close = st.closing(els, context)
    if outside:
        lab += ' closed'
        second = close[:-1] + second + close[-1:]
    else:
        second = second + close
    outs = els.steps(*second, state=e.st)
    good = 0
    for f in outs:
        if f.kind != 'ok':
            if want is not None and not f.is_tal_error():
                bad.append(('no-trace', con, '%s then <q %s>: fails with %s'
                            % (lab, ' '.join(probe), f.exc_text()),
                            f.facts()))
            continue
        good += 1
        if want is None:
            bad.append(('no-trace', con, '%s then <q %s>: accepted only '
                        'because of the first element' % (
                            lab, ' '.join(probe)), f.facts()))
            continue
        got = st.tidy(st.shape(f.program))
        if got != want:
            a, b = st.diff(got, want)
            bad.append(('no-trace', con, '%s then <q %s>: compiles to %s '
                        'instead of %s' % (lab, ' '.join(probe), a, b),
                        f.facts()))
    if want is not None and not good:
        bad.append(('no-trace', con, '%s then <q %s>: rejected because of '
                    'the first element' % (lab, ' '.join(probe)),
                    outs[0].facts() if outs else []))
    return len(outs), bad


PAIRS = {'beginScope': ('scope', 1), 'endScope': ('scope', -1),
         'beginI18nContext': ('context', 1),
         'endI18nContext': ('context', -1)}


def balance(f, lab, con, times):
    bad = []
    blocks = [f.program] + list(f.macros.values())
    while blocks:
        b = blocks.pop()
        depth = {'scope': 0, 'context': 0}
        for ins in b:
            op, arg = ins[0], ins[1] if len(ins) > 1 else None
            if op in PAIRS:
                k, d = PAIRS[op]
                depth[k] += d
            elif op == 'rawtextBeginScope':
                if arg[3]:
                    depth['scope'] -= 1
                if depth['scope'] < 0:
                    bad.append(('balance', con, lab + ': closes a scope of '
                                'the enclosing block', f.facts()))
                depth['scope'] += 1
            if min(depth.values()) < 0:
                bad.append(('balance', con, '%s: %s closes more than the '
                            'block opened' % (lab, op), f.facts()))
                break
            blocks.extend(nested_blocks(op, arg))
        else:
            if any(depth.values()):
                bad.append(('balance', con, '%s: a block leaves %s open'
                            % (lab, [k for k in depth if depth[k]]),
                            f.facts()))
    n = occurrences(f.program, '@body@')
    if n != times:
        bad.append(('content-once', con, '%s: the content is compiled %d '
                    'times' % (lab, n), f.facts()))
    return bad


def occurrences(prog, text):
    n = 0
    for ins in prog:
        op, arg = ins[0], ins[1] if len(ins) > 1 else None
        if op in ('rawtextOffset', 'rawtextColumn', 'rawtextBeginScope'):
            n += st.textof(arg[0]).count(text)
        elif op in ('useMacro', 'extendMacro'):
            n += occurrences(arg[3], text)
        else:
            for b in nested_blocks(op, arg):
                n += occurrences(b, text)
    return n
