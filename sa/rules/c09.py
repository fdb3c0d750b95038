"""Macro use is validated, bounded and undone."""
from .common import *
from . import structure
from .elements import Elements


def check(rep, prog, tier):
    rep.rule('validated', 'a macro is rendered only on paths that have found '
             'its version and mode to be the current ones; all other paths '
             'raise METALError with the current position before rendering '
             'anything', 8)
    rep.rule('default', 'an expression yielding the default marker renders '
             'the element itself', 4)
    rep.rule('bounded', 'a macro is entered only below the nesting limit and '
             'METALError is raised otherwise', 4)
    rep.rule('undone', 'the nesting is undone on every exit', 4)
    rep.rule('macroname', 'macroname holds the last segment of the name '
             'while the macro is rendered and the previous value '
             'afterwards', 4)
    rep.rule('source', 'afterwards the previous source file is in effect and '
             'known to the engine', 4)
    rep.rule('stamped', 'a compiled macro starts with the current version '
             'and the mode of its template', 4)
    version = stamp(rep, prog)
    for tal in (True, False):
        ip = interp(prog, summarised=True, tal=tal)
        # the stream of a failing block and the like do not matter here
        source = fields_of(ip, 'setSourceFile')
        position = fields_of(ip, 'setPosition')
        modes = fields_of(ip, 'mode')
        for mode in ('html', 'xml'):
            st = ip.moded(mode)
            for op in ('useMacro', 'extendMacro'):
                for variant, spec in operands(op):
                    for p in ip.run(op, variant, spec, st):
                        rep.count('paths')
                        one(rep, ip, p, op, mode, version, source, position,
                            '%s %s tal=%d' % (op, mode, tal), st)
        rep.use(ip.eng)
    structure.compare(rep, prog, 'stamped', [
        'use-macro', 'define-macro', 'extend-macro', 'define', 'condition',
        'domain'], need=('use-macro', 'define-macro'), size=3,
        contexts=('', 'fill', 'def'))


def stamp(rep, prog):
    """What the generator says is the current version."""
    version = None
    for xml in (False, True):
        for source in (False, True):
            els = Elements(prog, xml, source)
            for metal in (('define-macro',),
                          ('define-macro', 'extend-macro')):
                for e in els.run(metal=metal):
                    if e.kind != 'ok':
                        continue
                    rep.count('compilations')
                    progs = [('page', e.program)] + [
                        ('macro', m) for m in e.macros.values()]
                    for what, q in progs:
                        inst = '%s %s source=%d' % (
                            what, 'xml' if xml else 'html', source)
                        rep.seen('stamped', inst)
                        if len(q) < 2 or q[0][0] != 'version' \
                                or q[1] != ('mode',
                                            'xml' if xml else 'html'):
                            rep.violation(
                                'stamped', what, structure.generator(prog),
                                'starts with %s' % short(q[:2]), e.facts())
                        else:
                            if version is None:
                                version = q[0][1]
                            if q[0][1] != version:
                                rep.violation(
                                    'stamped', what,
                                    structure.generator(prog),
                                    'has version %r' % (q[0][1],))
                    if len(progs) != 2:
                        rep.violation('stamped', 'macros',
                                      structure.generator(prog),
                                      'the macro is not recorded')
            rep.use(els.gen.eng)
    if version is None:
        raise Broken('no version instruction found')
    return version


def last_segment(v, nm):
    if not isinstance(v, Term):
        return False
    if v.op == 'item' and isinstance(v.args[0], Term) \
            and v.args[0].op == 'm' and v.args[0].args[1] is nm:
        m, i = v.args[0], v.args[1]
        sep = m.args[2] if len(m.args) > 2 else None
        if sep is not C('/'):
            return False
        if m.args[0] == 'rsplit' and i.v == -1 and (
                len(m.args) == 3 or m.args[3] is C(1)):
            return True
        if m.args[0] == 'split' and i.v == -1 and len(m.args) == 3:
            return True
        if m.args[0] == 'rpartition' and i.v in (2, -1):
            return True
    # name[name.rfind('/') + 1:]
    if any(x is nm for x in walk(v)) and v.op in ('slice', 'item'):
        t = repr(v)
        return "rfind" in t and "'/'" in t
    return False


def one(rep, ip, p, op, mode, version, source, position, inst, st0):
    loc = where(p)
    evs = engine_calls(p, *EVALUATES)
    if len(evs) != 1 or evs[0].name != 'evaluateMacro' \
            or evs[0].args != (opnd(op, 'expr'),):
        rep.violation('validated', op, loc, 'the macro expression is '
                      'evaluated by %s' % [e.name for e in evs], trace(p))
        return
    if p.kind == 'raise' and p.val is T('excopaque',
                                        C('event%d' % evs[0].n)):
        if interps(p):
            rep.violation('validated', op, loc, 'something is rendered '
                          'after the expression failed', trace(p))
        undone(rep, ip, p, op, inst)
        return
    m, own, nm = evs[0].result, block(op, 'program'), opnd(op, 'name')
    deflt = p.fact(T('is', m, DEFAULT))
    ran = interps(p)
    limit = p.fact(T('lt', T('len', base_of(ip)), T('cfg', 'stackLimit')))
    first = p.fact(T('eq', T('item', T('item', m, C(0)), C(0)),
                     C('version'))) is True and p.fact(
        T('eq', T('item', T('item', m, C(0)), C(1)), C(version))) is True
    second = p.fact(T('eq', T('item', T('item', m, C(1)), C(0)),
                      C('mode'))) is True and p.fact(
        T('eq', T('item', T('item', m, C(1)), C(1)), C(mode))) is True
    undone(rep, ip, p, op, inst)
    if deflt is None:
        rep.violation('default', op, loc, 'the default marker is not '
                      'recognised by identity', trace(p))
        return
    if not ran:
        # must be a METALError
        names = exc_names(p) if p.kind == 'raise' else []
        rule = 'bounded' if limit is False else 'validated'
        rep.seen(rule, inst + ' rejected')
        if 'METALError' not in names:
            rep.violation(rule, op, loc, 'nothing is rendered and the '
                          'outcome is %s %s' % (p.kind, names[:1]), trace(p))
            return
        if limit is not False and deflt:
            rep.violation('default', op, loc, 'default is rejected',
                          trace(p))
        if limit is not False and first and second:
            rep.violation('validated', op, loc, 'a macro of the current '
                          'version and mode is rejected', trace(p))
        pos = {ip.start_fields[f] for f in position}
        if not pos & set(exc_values(p)):
            rep.violation(rule, op, loc, 'the error does not carry the '
                          'current position', trace(p))
        if stream_writes(p) or engine_calls(p, 'setLocal', 'setGlobal'):
            rep.violation(rule, op, loc, 'the rejected use has effects',
                          trace(p))
        return
    rep.seen('bounded', inst)
    if limit is not True:
        rep.violation('bounded', op, ran[0].loc, 'a macro is entered '
                      'although the nesting may have reached the limit',
                      trace(p))
    rule = 'default' if deflt else 'validated'
    rep.seen(rule, inst)
    want = own if deflt else m
    if [e.args[0] for e in ran] != [want]:
        rep.violation(rule, op, ran[0].loc, 'renders %s' % short(
            [e.args[0] for e in ran]), trace(p))
        return
    out = output(p)
    if len(out) != 1 or not is_out(out[0], want):
        rep.violation(rule, op, loc, 'writes %s' % short(out), trace(p))
    if not deflt and not (first and second):
        rep.violation('validated', op, ran[0].loc, 'a macro is rendered '
                      'without %s having been checked' % (
                          'its version' if not first else 'its mode'),
                      trace(p))
    # stack while rendering
    snap = ip.snapshot(ran[0].snap)[ip.stack_field]
    if not isinstance(snap, tuple):
        rep.violation('undone', op, ran[0].loc, 'the nesting is unknown',
                      trace(p))
    elif len(snap[3]) != 1 or snap[2]:
        rep.violation('undone', op, ran[0].loc, 'the macro is rendered with '
                      '%d entries pushed' % len(snap[3]), trace(p))
    # macroname
    rep.seen('macroname', inst)
    before = [e for e in engine_calls(p, 'setLocal') if e.n < ran[0].n]
    after = [e for e in engine_calls(p, 'setLocal') if e.n > ran[0].n]
    outer = [e for e in engine_calls(p, 'getValue') if e.n < ran[0].n
             and e.args[:1] == (C('macroname'),)]
    mn = [e for e in before if e.args[0] is C('macroname')]
    if len(before) != 1 or len(mn) != 1 or not last_segment(
            p.st.resolve(mn[0].args[1]), nm):
        rep.violation('macroname', op, ran[0].loc, 'macroname is %s' % short(
            [e.args for e in before]), trace(p))
    elif not outer or outer[0].n > mn[0].n:
        rep.violation('macroname', op, ran[0].loc, 'the previous macroname '
                      'is not kept', trace(p))
    elif p.kind == 'ok' and [e.args for e in after] != [
            (C('macroname'), outer[0].result)]:
        rep.violation('macroname', op, loc, 'afterwards macroname is %s'
                      % short([e.args for e in after]), trace(p))
    if p.kind != 'ok':
        if not p.st.ghost.get('raised'):
            rep.violation('validated', op, loc, 'fails with %s although the '
                          'macro did not' % short(p.val), trace(p))
        return
    rep.seen('source', inst)
    told = [e for e in engine_calls(p, 'setSourceFile') if e.n > ran[0].n]
    start = [ip.start_fields[f] for f in source]
    for f in source:
        v = p.st.resolve(p.st.field(ip.ref, f))
        havoc = T('havoc', f, C(ran[0].n))
        s = ip.start_fields[f]
        if v is not s and not same_by_fact(ip, p.st, v, s):
            rep.violation('source', op, loc, 'afterwards the source file is '
                          '%s' % short(v), trace(p))
        elif told:
            if p.st.resolve(told[-1].args[0]) not in start:
                rep.violation('source', op, told[-1].loc, 'the engine is '
                              'told another source file', trace(p))
        elif not same_by_fact(ip, p.st, havoc, s):
            rep.violation('source', op, loc, 'the engine is not told the '
                          'previous source file', trace(p))


def base_of(ip):
    return ip.start_fields[ip.stack_field][1]


def undone(rep, ip, p, op, inst):
    rep.seen('undone', inst)
    a = ip.start_fields[ip.stack_field]
    b = ip.snapshot(p.st)[ip.stack_field]
    if not isinstance(b, tuple) or a[1:] != b[1:]:
        rep.violation('undone', op, where(p), 'the nesting is not undone on '
                      'an exit by %s' % p.kind, trace(p))
    for f in ip.changed(ip.start_fields, ip.snapshot(p.st)):
        v0, v1 = ip.start_fields[f], p.st.field(ip.ref, f)
        if isinstance(v1, Const) and isinstance(v1.v, bool) \
                and f not in ip.plain:
            rep.violation('undone', op + ':' + f, where(p), '%s is left as '
                          '%r' % (f, v1), trace(p))
