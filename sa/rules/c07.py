"""A handled error leaves no trace but the handler output."""
from .common import *


def check(rep, prog, tier):
    rep.rule('no-error', 'when the guarded element does not raise, its '
             'output appears once, in place, and the handler is not '
             'rendered', 1)
    rep.rule('handler', 'when it raises, nothing it wrote is output and the '
             'handler is rendered once, with error bound in a new scope '
             'that is closed again on every exit', 3)
    rep.rule('restored', 'when the handler starts every attribute of the '
             'renderer that failing elements can leave changed has the value '
             'it had when the element started', 3)
    rep.rule('told', 'the engine has been told the restored position and '
             'source file', 3)
    rep.assume('what a failing block can leave changed is the union over '
               'all instructions, computed from the source')
    ip = interp(prog, summarised=True)
    op = 'onError'
    guarded, handler = block(op, 'program'), block(op, 'handler')
    source = fields_of(ip, 'setSourceFile')
    position = fields_of(ip, 'setPosition')
    # layout of the current tag may differ; everything else may not
    exempt = set(ip.plain) - source - position
    rep.count('attributes', len(ip.start_fields))
    rep.count('attributes_failing_blocks_change', len(ip.exc))
    for variant, spec in operands(op):
        for p in ip.run(op, variant, spec):
            rep.count('paths')
            ran = interps(p)
            if not ran or ran[0].args[0] is not guarded:
                rep.violation('no-error', op, where(p), 'the guarded element '
                              'is not rendered first', trace(p))
                continue
            raised = dict(p.st.ghost.get('raised', ()))
            out = output(p)
            if ran[0].n not in raised:
                rep.seen('no-error', variant or op)
                if p.kind != 'ok' or len(ran) != 1 or len(out) != 1 \
                        or not is_out(out[0], guarded) \
                        or len(out[0].args) > 2:
                    rep.violation('no-error', op, where(p), 'without an '
                                  'error %d blocks are rendered and %s is '
                                  'written' % (len(ran), short(out)),
                                  trace(p))
                continue
            k = raised[ran[0].n]
            failed(rep, ip, p, op, ran, out, handler, k, source, position,
                   exempt)
    rep.use(ip.eng)
    from . import structure
    rep.rule('compiled', 'an element with on-error compiles to a guarded '
             'block with everything but its scope and a handler with its own '
             'static tag', 20)
    structure.compare(rep, prog, 'compiled', [
        'on-error', 'define', 'condition', 'repeat', 'content', 'replace',
        'omit-tag', 'tal tag', 'attributes', 'script', 'translate=', 'name',
        'domain', 'define-macro', 'use-macro'], need=('on-error',),
        size=3 if tier == 'thorough' else 2,
        contexts=('', 'unit', 'domain'))


def failed(rep, ip, p, op, ran, out, handler, k, source, position, exempt):
    inst = 'scopes left open: %d' % k
    rep.seen('handler', inst)
    loc = where(p)
    hs = [e for e in ran[1:] if e.args[0] is handler]
    if len(ran) != 2 or len(hs) != 1:
        rep.violation('handler', op, loc, 'after an error %d blocks are '
                      'rendered, the handler %d times' % (
                          len(ran) - 1, len(hs)), trace(p))
        return
    h = hs[0]
    if any(is_out(x, ran[0].args[0]) for x in out):
        rep.violation('handler', op, loc, 'output of the failed element is '
                      'written', trace(p))
    if len(out) != 1 or not is_out(out[0], handler):
        rep.violation('handler', op, loc, 'after an error %s is written'
                      % short(out), trace(p))
    hraised = h.n in dict(p.st.ghost.get('raised', ()))
    if (p.kind == 'raise') != hraised:
        rep.violation('handler', op, loc, 'the rendering is left by %s '
                      'although the handler %s' % (
                          p.kind, 'fails' if hraised else 'completes'),
                      trace(p))
    if h.snap.ghost['depth'] != 1:
        rep.violation('handler', op, h.loc, 'the handler runs with %+d '
                      'scopes more than the element' %
                      h.snap.ghost['depth'], trace(p))
    if p.st.ghost['mindepth'] < 0:
        rep.violation('handler', op, h.loc, 'a scope of the surrounding '
                      'element is closed', trace(p))
    extra = dict(p.st.ghost.get('raised', ())).get(h.n, 0)
    if p.st.ghost['depth'] != extra:
        rep.violation('handler', op, loc, 'the scope of the handler is not '
                      'closed', trace(p))
    # error variable
    mine = [e for e in p.st.events() if ran[0].n < e.n < h.n]
    opened = [e.n for e in mine if e.recv is ENGINE
              and e.name == 'beginScope']
    info = [e for e in mine if e.name == 'createErrorInfo'
            and e.recv is ENGINE]
    sets = [e for e in mine if e.name == 'setLocal' and e.recv is ENGINE]
    pos = [ip.start_fields[f] for f in position]
    exc = T('excopaque', C('interp%d' % ran[0].n))
    good = len(info) == 1 and len(sets) == 1 and sets[0].args[0] is C(
        'error') and p.st.resolve(sets[0].args[1]) is info[0].result \
        and opened and opened[0] < sets[0].n
    if good:
        a = [p.st.resolve(x) for x in info[0].args]
        a += [p.st.resolve(v) for _, v in info[0].kw]
        if not a or a[0] is not exc:
            rep.violation('handler', op, info[0].loc, 'error is made from '
                          '%s, not from the exception' % short(a[:1]),
                          trace(p))
        if len(a) != 2 or a[1] not in pos:
            rep.violation('handler', op, info[0].loc, 'error gets the '
                          'position %s' % short(a[1:]), trace(p))
    else:
        rep.violation('handler', op, h.loc, 'error is not bound in the new '
                      'scope before the handler', trace(p))
    # restored state
    rep.seen('restored', inst)
    now = ip.snapshot(h.snap)
    first = ip.snapshot(ran[0].snap)
    for f in ip.changed(ip.start_fields, now):
        if f in exempt:
            continue
        v = now.get(f)
        if v is first.get(f) and not (isinstance(v, V) and captures(
                ip, h.snap, f)):
            continue        # nesting level of the renderer itself
        if isinstance(v, V) and f in source and same_by_fact(
                ip, h.snap, v, ip.start_fields[f]):
            continue
        if f == ip.scope_field:
            b, j = ip.eng.lin(v)
            if b is ip.start_fields[f] and j in (0, 1):
                continue
        rep.violation('restored', f, h.loc, 'the handler starts with %s '
                      'still as the failed element left it (%s)' % (
                          f, short(v)), trace(p))
    rep.seen('told', inst)
    told = [e for e in mine if e.recv is ENGINE and e.name == 'setPosition']
    if not told or h.snap.resolve(told[-1].args[0]) not in pos:
        rep.violation('told', 'position', h.loc, 'the engine is not told '
                      'the position of the element again', trace(p))
    told = [e for e in mine if e.recv is ENGINE
            and e.name == 'setSourceFile']
    src = [ip.start_fields[f] for f in source]
    if told:
        if h.snap.resolve(told[-1].args[0]) not in src:
            rep.violation('told', 'source', h.loc, 'the engine is told the '
                          'source file %s' % short(told[-1].args[0]),
                          trace(p))
    else:
        dirty = [T('dirty', f, C(ran[0].n)) for f in source]
        if not any(same_by_fact(ip, h.snap, d, s)
                   for d in dirty for s in src):
            rep.violation('told', 'source', h.loc, 'the engine is not told '
                          'the source file of the element again', trace(p))


def captures(ip, st, f):
    """Does attribute f decide where output goes?"""
    v = ip.start_fields[f]
    return isinstance(v, V) and any(x is STREAM for x in walk(v))
