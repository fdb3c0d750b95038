"""Switched-off TAL or METAL evaluates nothing."""
from .common import *
from ..interp import ATTR_KINDS
from .c25 import one as optional_tag

# (instruction, block rendered in place of the construct)
PLAIN = {'condition': 'program', 'loop': 'program', 'insertText': 'program',
         'insertI18nText': 'program', 'insertStructure': 'program',
         'insertI18nStructure': 'program', 'onError': 'program',
         'defineMacro': 'program', 'fillSlot': 'program'}


def check(rep, prog, tier):
    rep.rule('evaluates-nothing', 'with TAL off no instruction but those of '
             'METAL, scripts and i18n:data evaluates an expression or '
             'defines a variable', 20)
    rep.rule('rendered-once', 'with TAL off each construct renders its own '
             'content once and nothing else', 9)
    rep.rule('static-attributes', 'with TAL off attributes are written with '
             'their static values', 4)
    rep.rule('omit-tag', 'with TAL off tags are left out only for elements '
             'of the directive namespaces that are not shown', 6)
    rep.rule('metal-off', 'with METAL off no macro is evaluated or entered '
             'and use-macro, extend-macro and define-slot elements render '
             'their own content', 6)
    rep.rule('both-modes', 'every instruction is handled with TAL on and '
             'off', 50)
    rep.rule('error-passes', 'with TAL off an error in an element with '
             'on-error passes on and nothing else of it is rendered', 2)
    for mode in ('html', 'xml'):
        ip = interp(prog, raises=False, tal=False)
        off(rep, ip, ip.moded(mode), mode)
        for show in (0, 1):
            ip2 = interp(prog, raises=False, tal=False,
                         config={'showtal': C(show)})
            omit(rep, ip2, ip2.moded(mode), mode, show)
        for tal in (True, False):
            ip3 = interp(prog, raises=False, tal=tal, metal=False)
            metal(rep, ip3, ip3.moded(mode), mode, tal)
        rep.use(ip.eng)
        ip4 = interp(prog, tal=False)
        guarded(rep, ip4, ip4.moded(mode), mode)
        rep.use(ip4.eng)
    for tal in (True, False):
        ip = interp(prog, raises=False, tal=tal)
        handled(rep, ip, tal)


def off(rep, ip, st, mode):
    for op, variant, _ in [(o, v, s) for o in OPCODES
                           for v, s in operands(o)]:
        spec = dict(operands(op))[variant]
        nm = name(op, variant)
        for p in ip.run(op, variant, spec, st):
            rep.count('paths')
            allowed = ()
            if op in ('useMacro', 'extendMacro'):
                allowed = ('evaluateMacro',)
            elif op == 'evaluateCode':
                allowed = ('evaluateCode',)
            elif op == 'insertTranslation' and variant == 'data':
                allowed = ('evaluate',)
            elif op == 'i18nVariable' and variant == 'expr':
                allowed = ('evaluate', 'evaluateStructure')
            rep.seen('evaluates-nothing', nm)
            evs = [e for e in evaluations(p) if e.name not in allowed]
            if op not in ('useMacro', 'extendMacro'):
                evs += engine_calls(p, 'setLocal', 'setGlobal')
            if evs:
                rep.violation('evaluates-nothing', nm, evs[0].loc,
                              '%s is called with TAL off' % evs[0].name,
                              trace(p))
            if op in PLAIN:
                blk = block(op, PLAIN[op])
                rep.seen('rendered-once', nm)
                out = output(p)
                if [e.args[0] for e in interps(p)] != [blk] \
                        or len(out) != 1 or not is_out(out[0], blk):
                    rep.violation('rendered-once', nm, where(p), 'writes %s '
                                  'instead of its content' % short(out),
                                  trace(p))
            if op in ('setLocal', 'setGlobal'):
                if output(p) or interps(p):
                    rep.violation('rendered-once', nm, where(p), 'a '
                                  'definition writes something', trace(p))
    for op in ('startTag', 'startEndTag'):
        for kind in ATTR_KINDS:
            if kind not in ('plain', 'replace', 'insert', 'replace-i18n'):
                continue
            for p in ip.run(op, kind, ('attrs', (kind,)), st):
                rep.count('paths')
                attributes(rep, p, op, kind)


def guarded(rep, ip, st, mode):
    op = 'onError'
    blk = block(op, 'program')
    for variant, spec in operands(op):
        for p in ip.run(op, variant, spec, st):
            rep.count('paths')
            if not p.st.ghost.get('raised'):
                continue
            rep.seen('error-passes', mode)
            ran = [e.args[0] for e in interps(p)]
            if ran != [blk]:
                rep.violation('error-passes', op, where(p), 'renders %s' %
                              short(ran), trace(p))
            elif p.kind != 'raise':
                rep.violation('error-passes', op, where(p), 'the error does '
                              'not pass on', trace(p))


def attributes(rep, p, op, kind):
    nm = name(op, kind)
    rep.seen('static-attributes', nm)
    out = output(p)
    tag, n, v = opnd(op, 'name'), T('attrname', C(0)), T('attrvalue', C(0))
    body = out[2:]
    if out[:2] != ['<', tag] or not body or not isinstance(body[-1], str) \
            or not body[-1].endswith('>'):
        rep.violation('static-attributes', nm, where(p), 'writes %s' %
                      short(out), trace(p))
        return
    if kind == 'plain':
        good = len(body) == 3 and body[0] == ' ' \
            and body[1] is T('attrtext', C(0))
    elif kind == 'insert':
        good = len(body) == 1 and not body[0].strip(' />')
    elif p.fact(T('is', v, NONE)) is True:
        good = len(body) == 3 and body[0] == ' ' and body[1] is n
    else:
        cm = char_map(body[3]) if len(body) == 5 \
            and isinstance(body[3], V) else None
        good = cm is not None and body[:3] == [' ', n, '="'] \
            and cm[0] is v and not escape_faults(
                cm[1], True, absent(p.st, v)) \
            and body[4].startswith('"')
    if not good:
        rep.violation('static-attributes', nm, where(p), 'writes %s instead '
                      'of the static attribute' % short(out), trace(p))


def omit(rep, ip, st, mode, show):
    op = 'optTag'
    nm = opnd(op, 'name')
    start, body = block(op, 'start'), block(op, 'program')
    for ns in (NONE, C('tal')):
        for isend in (C(0), C(1)):
            for ce in (NONE, C(''), opnd(op, 'cexpr')):
                inst = 'omit=%s ns=%r isend=%r show=%d %s' % (
                    ce, ns, isend, show, mode)
                for p in ip.run(op, '', TUP([nm, ce, ns, isend, start,
                                             body]), st):
                    rep.count('paths')
                    rep.seen('omit-tag', inst)
                    # without TAL the expression counts as absent
                    optional_tag(rep, p, inst, NONE, opnd(op, 'cexpr'), ns,
                                 isend, show, nm, start, body)


def metal(rep, ip, st, mode, tal):
    for op in ('useMacro', 'extendMacro', 'defineSlot', 'fillSlot',
               'defineMacro'):
        blk = block(op, 'program')
        for variant, spec in operands(op):
            for p in ip.run(op, variant, spec, st):
                rep.count('paths')
                rep.seen('metal-off', '%s tal=%d %s' % (op, tal, mode))
                out = output(p)
                ran = interps(p)
                if evaluations(p):
                    rep.violation('metal-off', op, where(p), 'a macro is '
                                  'evaluated with METAL off', trace(p))
                elif len(ran) != 1 or ran[0].args[0] is not blk \
                        or len(out) != 1 or not is_out(out[0], blk):
                    rep.violation('metal-off', op, where(p), 'writes %s '
                                  'instead of the own content' % short(out),
                                  trace(p))


def handled(rep, ip, tal):
    for op, variant, paths in runs(ip):
        nm = name(op, variant)
        rep.seen('both-modes', '%s tal=%d' % (nm, tal))
        if not any(p.kind == 'ok' for p in paths):
            e = paths[0] if paths else None
            rep.violation('both-modes', nm, where(e) if e else None,
                          'is not handled with TAL %s: %s' % (
                              'on' if tal else 'off',
                              short(e.val) if e else 'no path'),
                          trace(e) if e else [])
