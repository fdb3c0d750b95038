"""Captured output never leaks and output returns to its stream."""
from .common import *


def check(rep, prog, tier):
    rep.rule('capture', 'nothing a captured block writes reaches the '
             'surrounding output directly, on any exit', 5)
    rep.rule('used-once', 'the captured text is used once, for its purpose',
             4)
    rep.rule('destination', 'on every normal exit of every instruction the '
             'output destination and the stacks of the renderer are what '
             'they were', 25)
    rep.rule('stacks', 'on exceptional exits the stacks, whose contents no '
             'handler restores, are what they were', 10)
    rep.assume('a failing block leaves the output destination of the '
               'renderer wherever an instruction can leave it')
    for tal in (True, False):
        ip = interp(prog, summarised=True, tal=tal)
        inside(rep, ip, tal)
        exits(rep, ip, tal)
        rep.use(ip.eng)
    for mode in ('html', 'xml'):
        ip = interp(prog, raises=False)
        purpose(rep, ip, ip.moded(mode), mode)


CAPTURED = {'i18nVariable': 'program', 'insertTranslation': 'program',
            'evaluateCode': 'program'}


def inside(rep, ip, tal):
    for op, role in CAPTURED.items():
        blk = block(op, role)
        for variant, spec in operands(op):
            if variant == 'expr':
                continue
            for p in ip.run(op, variant, spec):
                rep.count('paths')
                if not any(e.args[0] is blk for e in interps(p)):
                    rep.violation('used-once', op, where(p), 'the block is '
                                  'not rendered', trace(p))
                    continue
                rep.seen('capture', '%s tal=%d' % (op, tal))
                if op != 'insertTranslation' or p.kind == 'raise':
                    bad = [x for x in output(p) if is_out(x, blk)]
                else:
                    # with interpolation off the id itself is written
                    bad = [e for e in stream_writes(p)
                           if any(is_out(x, blk) for x in pieces(
                               p.st.resolve(e.args[0])))
                           and p.fact(T('cfg', 'i18nInterpolate'))
                           is not False]
                if bad:
                    rep.violation('capture', op, where(p), 'output of the '
                                  'captured block is written to the '
                                  'surrounding output', trace(p))
    # guarded elements and omitted start tags
    op = 'onError'
    if tal:
        g = block(op, 'program')
        for p in ip.run(op, '', operands(op)[0][1]):
            rep.count('paths')
            rep.seen('capture', op)
            raised = dict(p.st.ghost.get('raised', ()))
            first = interps(p)[0] if interps(p) else None
            n = len([x for x in output(p) if is_out(x, g)])
            want = 0 if first is not None and first.n in raised else 1
            if n != want:
                rep.violation('capture', op, where(p), 'the guarded output '
                              'is written %d times' % n, trace(p))
    op = 'optTag'
    start, body = block(op, 'start'), block(op, 'program')
    for p in ip.run(op, 'tal', TUP([opnd(op, 'name'), C('') if tal else NONE,
                                    C('tal'), C(0), start, body])):
        if not tal and p.fact(T('cfg', 'showtal')) is not False:
            continue
        rep.count('paths')
        rep.seen('capture', '%s tal=%d' % (op, tal))
        if any(is_out(x, start) for x in output(p)):
            rep.violation('capture', op, where(p), 'the start tag of an '
                          'omitted element is written', trace(p))


def exits(rep, ip, tal):
    dest = {k for k, v in ip.start_fields.items() if isinstance(v, V)
            and any(x is STREAM for x in walk(v))}
    stacks = {k for k, v in ip.start_fields.items() if isinstance(v, tuple)}
    for op, variant, paths in runs(ip):
        nm = name(op, variant)
        for p in paths:
            rep.count('paths')
            bad = ip.changed(ip.start_fields, ip.snapshot(p.st))
            if p.kind == 'ok':
                rep.seen('destination', '%s tal=%d' % (nm, tal))
                for f in bad:
                    if f in dest or f in stacks:
                        if f == ip.stack_field and op == 'defineSlot':
                            continue        # decided by C10
                        rep.violation('destination', '%s:%s' % (nm, f),
                                      where(p), 'leaves %s changed' % f,
                                      trace(p))
            elif p.kind == 'raise':
                rep.seen('stacks', '%s tal=%d' % (nm, tal))
                for f in bad:
                    if f in stacks:
                        if f == ip.stack_field and op == 'defineSlot':
                            continue
                        rep.violation('stacks', '%s:%s' % (nm, f), where(p),
                                      'an error leaves %s changed' % f,
                                      trace(p))


def purpose(rep, ip, st, mode):
    op = 'evaluateCode'
    blk = block(op, 'program')
    for p in ip.run(op, '', operands(op)[0][1], st):
        rep.count('paths')
        rep.seen('used-once', op + '/' + mode)
        evs = engine_calls(p, 'evaluateCode')
        ok = len(evs) == 1 and len(evs[0].args) == 2 \
            and evs[0].args[0] is opnd(op, 'lang') \
            and only_out(p.st.resolve(evs[0].args[1]), blk) \
            and output(p) == [evs[0].result]
        if not ok:
            rep.violation('used-once', op, where(p), 'the script gets %s and '
                          '%s is written' % (short([e.args for e in evs]),
                                             short(output(p))), trace(p))
    op = 'insertTranslation'
    blk = block(op, 'program')
    for variant, spec in operands(op):
        for p in ip.run(op, variant, spec, st):
            rep.count('paths')
            rep.seen('used-once', '%s/%s' % (name(op, variant), mode))
            evs = engine_calls(p, 'translate')
            out = output(p)
            if evs:
                ok = len(evs) == 1 and out == [evs[0].result]
            else:
                ok = p.fact(T('cfg', 'i18nInterpolate')) is False \
                    and len(out) == 1
            if not ok:
                rep.violation('used-once', op, where(p), '%d requests, %s is '
                              'written' % (len(evs), short(out)), trace(p))
    op = 'i18nVariable'
    for p in ip.run(op, '', operands(op)[0][1], st):
        if p.kind != 'ok':
            continue
        rep.count('paths')
        rep.seen('used-once', op + '/' + mode)
        if output(p) != ['${', opnd(op, 'varname'), '}']:
            rep.violation('used-once', op, where(p), 'a named part is '
                          'replaced by %s' % short(output(p)), trace(p))


def only_out(v, blk):
    ps = pieces(v)
    return len(ps) == 1 and is_out(ps[0], blk)
