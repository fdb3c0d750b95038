"""Condition, repeat and omit-tag control what is rendered."""
from .common import *
from . import structure
from .c28 import source
from .elements import Elements


def check(rep, prog, tier):
    rep.rule('condition', 'the condition is evaluated exactly once and the '
             'block is rendered exactly on the paths where it is true', 2)
    rep.rule('repeat', 'the sequence is set up once, and the block is '
             'rendered exactly once after each successful advance, none '
             'after a failed one', 2)
    rep.rule('omit-tag', 'tags are left out exactly when asked for, content '
             'is rendered once, the expression evaluated at most once', 12)
    ip = interp(prog, raises=False)
    for mode in ('html', 'xml'):
        st = ip.moded(mode)
        condition(rep, ip, st, mode)
        repeat(rep, ip, st, mode)
    for show in (0, 1):
        ip = interp(prog, raises=False, config={'showtal': C(show)})
        for mode in ('html', 'xml'):
            omit(rep, ip, ip.moded(mode), mode, show)
        rep.use(ip.eng)
    rep.rule('compiled', 'an element with these directives compiles to '
             'instructions nested in the documented order', 8)
    structure.compare(rep, prog, 'compiled', [
        'condition', 'repeat', 'omit-tag', 'omit-tag=', 'content', 'define',
        'tal tag', 'on-error'],
        need=('condition', 'repeat', 'omit-tag', 'omit-tag=', 'tal tag'),
        size=3 if tier == 'thorough' else 2, isends=(0, 1),
        bodies=('@body@', None))
    rep.rule('expressions', 'the expression compiled for a condition, '
             'repeat or omit-tag is the text of the attribute; without text '
             'omit-tag always omits', 40)
    for xml in (False, True):
        expressions(rep, Elements(prog, xml=xml))


TEXTS = ['x', ' ', '\n', ' x ', 'not:x', 'structure x', 'text x', 'x;y',
         'x;;y', 'default', 'nothing', '0', 'Some/Path', 'a | b',
         'a\n  b', 'python:[x\n for x in y]']
REPEATS = [('i ', 'i'), ('\n i\n ', 'i'), (' _Item2\t', '_Item2'),
           ('text ', 'text'), ('structure ', 'structure'),
           ('global  ', 'global')]


def expressions(rep, els):
    """What the compiled expressions are compiled from."""
    for before, var in REPEATS:
        for text in TEXTS:
            if not text.strip():
                continue
            value = before + text
            inst = '%s repeat=%r' % ('xml' if els.xml else 'html', value)
            for el in els.run(('repeat',), (), (), {'repeat': C(value)}):
                rep.count('compile_paths')
                rep.seen('expressions', inst)
                got = [(a[0].v if isinstance(a[0], Const) else a[0],
                        plain(a[1])) for o, a in el.ops()
                       if o == 'loop'] if el.kind == 'ok' else 'an error'
                if got != [(var, text.lstrip())]:
                    rep.violation('expressions', 'repeat=%r' % value,
                                  el.loc(), '%s: compiles to %s' % (
                                      inst, short(got)), el.facts())
    for key, op, arg, texts in (
            ('condition', 'condition', 0, TEXTS),
            ('omit-tag', 'optTag', 1, TEXTS + ['', None])):
        for text in texts:
            for other in ((), ('define',), ('content',)):
                inst = '%s %s=%r %s' % ('xml' if els.xml else 'html', key,
                                        text, ' '.join(other))
                for el in els.run((key,) + other, (), (), {
                        key: C(text), 'define': C('v e'),
                        'content': C('c')}):
                    rep.count('compile_paths')
                    rep.seen('expressions', inst)
                    got = [plain(a[arg]) for o, a in el.ops() if o == op] \
                        if el.kind == 'ok' else 'an error'
                    if got != [text or '']:
                        rep.violation(
                            'expressions', '%s=%r' % (key, text), el.loc(),
                            '%s: compiles to %s' % (inst, short(got)),
                            el.facts())
    rep.use(els.gen.eng)


def plain(v):
    if isinstance(v, Const):
        v = v.v
    return v if v is None or v == '' else source(v)


def condition(rep, ip, st, mode):
    op = 'condition'
    expr, blk = opnd(op, 'expr'), block(op, 'program')
    for p in ip.run(op, '', TUP([expr, blk]), st):
        rep.seen('condition', mode)
        rep.count('paths')
        evs = evaluations(p)
        ran = [e.args[0] for e in interps(p)]
        if len(evs) != 1 or evs[0].name != 'evaluateBoolean' \
                or evs[0].args != (expr,):
            rep.violation('condition', op, where(p), 'the condition is '
                          'evaluated by %s' % [e.name for e in evs],
                          trace(p))
            continue
        val = p.fact(evs[0].result)
        want = [blk] if val else []
        if val is None:
            rep.violation('condition', op, where(p), 'the result of the '
                          'condition does not decide', trace(p))
        elif ran != want or len(output(p)) != len(want):
            rep.violation('condition', op, where(p), 'a %s condition '
                          'renders %s' % (bool(val), short(ran)), trace(p))


def repeat(rep, ip, st, mode):
    op = 'loop'
    nm, expr, blk = opnd(op, 'name'), opnd(op, 'expr'), block(op, 'program')
    most = 0
    for p in ip.run(op, '', TUP([nm, expr, blk]), st):
        rep.seen('repeat', mode)
        rep.count('paths')
        evs = evaluations(p)
        if len(evs) != 1 or evs[0].name != 'setRepeat' \
                or evs[0].args != (nm, expr):
            rep.violation('repeat', op, where(p), 'the sequence is set up '
                          'by %s' % [(e.name, short(e.args)) for e in evs],
                          trace(p))
            continue
        it = evs[0].result
        state, n = 'next', 0
        bad = None
        for e in p.st.events():
            if e is evs[0]:
                continue
            if e.kind == 'interp':
                if e.args[0] is not blk:
                    bad = 'something else than the block is rendered'
                elif state != 'render':
                    bad = 'the block is rendered without a successful ' \
                        'advance'
                state = 'next'
                n += 1
            elif e.recv is it:
                if e.name != '__next__' or state != 'next':
                    bad = 'the iterator is used by %s in the wrong place' \
                        % e.name
                    break
                v = p.fact(e.result)
                if v is None:
                    bad = 'the result of an advance is not tested'
                state = 'render' if v else 'done'
            elif e.recv is ENGINE and e.name not in ANNOUNCES:
                bad = 'unexpected engine call %s' % e.name
            if bad:
                break
        if not bad and p.kind == 'ok' and state != 'done':
            bad = 'the repetition ends in state %r, not after a failed ' \
                'advance' % state
        if bad:
            rep.violation('repeat', op, where(p), bad, trace(p))
        elif p.kind == 'ok':
            outs = output(p)
            if len(outs) != n or not all(is_out(x, blk) for x in outs):
                rep.violation('repeat', op, where(p), 'output of the '
                              'repetitions is %s' % short(outs), trace(p))
            most = max(most, n)
    if most < 2:
        rep.violation('repeat', op, None, 'no path with two repetitions')


def omit(rep, ip, st, mode, show):
    op = 'optTag'
    nm = opnd(op, 'name')
    start, body = block(op, 'start'), block(op, 'program')
    full = opnd(op, 'cexpr')
    for ce in (NONE, C(''), full):
        for ns in (NONE, C('tal'), C('metal')):
            for isend in (C(0), C(1)):
                s = st.fork()
                s.facts[full] = True
                s.facts[T('eq', full, C(''))] = False
                s.facts[T('is', full, NONE)] = False
                inst = 'omit=%r ns=%r isend=%r show=%d %s' % (
                    ce, ns, isend, show, mode)
                for p in ip.run(op, '', TUP([nm, ce, ns, isend, start,
                                             body]), s):
                    rep.seen('omit-tag', inst)
                    rep.count('paths')
                    one(rep, p, inst, ce, full, ns, isend, show, nm, start,
                        body)


def one(rep, p, inst, ce, full, ns, isend, show, nm, start, body):
    op = 'optTag'
    evs = evaluations(p)
    omitted = None
    if ce is NONE:
        omitted = False
    elif ce is not full:
        omitted = True
    want = 1 if ce is full else 0
    if len(evs) != want or any(e.name != 'evaluateBoolean'
                               or e.args != (full,) for e in evs):
        rep.violation('omit-tag', op, where(p), '%s: expression evaluated '
                      'by %s' % (inst, [e.name for e in evs]), trace(p))
        return
    if omitted is None:
        omitted = p.fact(evs[0].result)
        if omitted is None:
            rep.violation('omit-tag', op, where(p), inst + ': the result of '
                          'the expression is ignored', trace(p))
            return
    if ns is not NONE and not show:
        omitted = True
    out = output(p)
    if omitted:
        good = len(out) == 1 and is_out(out[0], body)
        what = 'the content only'
    elif isend.v:
        good = len(out) == 1 and is_out(out[0], start)
        what = 'the start tag only'
    else:
        good = len(out) == 5 and is_out(out[0], start) and is_out(
            out[1], body) and out[2:] == ['</', nm, '>']
        what = 'start tag, content and end tag'
    ran = [e.args[0] for e in interps(p)]
    if not good or ran.count(body) > 1 or ran.count(start) > 1:
        rep.violation('omit-tag', op, where(p), '%s: writes %s instead of %s'
                      % (inst, short(out), what), trace(p))
