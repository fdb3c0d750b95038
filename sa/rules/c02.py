"""nothing and default select the right content and attributes."""
from .common import *
from ..interp import attr_variants

CONTENT = {'insertText': 'evaluateText', 'insertI18nText': 'evaluateText',
           'insertStructure': 'evaluateStructure',
           'insertI18nStructure': 'evaluateStructure'}


def check(rep, prog, tier):
    rep.rule('content-once', 'on every path of a content instruction its '
             'expression is evaluated exactly once', 4)
    rep.rule('content-none', 'on paths where the value is None nothing is '
             'rendered or written', 4)
    rep.rule('content-default', 'on paths where the value is the default '
             'marker exactly the own content is rendered', 4)
    rep.rule('content-value', 'on all other paths the value is written and '
             'the own content is not rendered; these paths must have '
             'excluded None and the marker by identity', 4)
    rep.rule('attr-once', 'on every path of an attribute with an expression '
             'it is evaluated exactly once', 4)
    rep.rule('attr-value', 'the attribute is written exactly when the value '
             'is neither None nor a cancelled insertion, with the static '
             'value for default and the computed value otherwise', 4)
    rep.assume('nested instruction blocks are summarised by their output')
    for html in (True, False):
        ip = interp(prog, raises=False)
        st = ip.moded('html' if html else 'xml')
        for op, ev in CONTENT.items():
            for variant, spec in operands(op):
                for p in ip.run(op, variant, spec, st):
                    content(rep, p, op, ev, html)
        for op in ('startTag', 'startEndTag'):
            for kind in ('replace', 'insert'):
                for p in ip.run(op, kind, ('attrs', (kind,)), st):
                    attribute(rep, p, op, kind, html)
                # named by i18n:attributes only
                kind += '-i18n'
                for p in ip.run(op, kind, ('attrs', (kind,)), st):
                    without(rep, p, op, kind, html)
    rep.use(ip.eng)


def content(rep, p, op, method, html):
    if p.kind != 'ok':
        return
    rep.count('paths')
    inst = '%s/%s' % (op, 'html' if html else 'xml')
    expr, blk = opnd(op, 'expr'), block(op, 'program')
    evs = evaluations(p)
    rep.seen('content-once', op)
    good = [e for e in evs if e.name == method and e.args == (expr,)
            and not e.kw]
    if len(evs) != 1 or len(good) != 1:
        rep.violation('content-once', op, where(p), 'expression of %s is '
                      'evaluated by %s instead of once by %s' % (
                          op, [e.name for e in evs], method), trace(p))
        return
    v = good[0].result
    none = p.fact(T('is', v, NONE))
    deflt = p.fact(T('is', v, DEFAULT))
    ran = [e.args[0] for e in interps(p)]
    own = [b for b in ran if b is blk]
    out = output(p)
    if none is True:
        rep.seen('content-none', op)
        if ran or out:
            rep.violation('content-none', op, where(p), 'None writes %s'
                          % short(out or ran), trace(p))
    elif deflt is True:
        rep.seen('content-default', op)
        if ran != [blk] or len(out) != 1 or not is_out(out[0], blk):
            rep.violation('content-default', op, where(p), 'default renders '
                          '%s and writes %s' % (short(ran), short(out)),
                          trace(p))
    else:
        rep.seen('content-value', op)
        if own:
            rep.violation('content-value', op, own and where(p), 'the own '
                          'content is rendered although the value was not '
                          'found to be the default marker by identity',
                          trace(p))
        elif none is None:
            rep.violation('content-value', op, where(p), 'a path on which '
                          'the value may be None is not separated from '
                          'ordinary values', trace(p))
        elif deflt is None:
            rep.violation('content-value', op, where(p), 'a path on which '
                          'the value may be the default marker is not '
                          'separated from ordinary values', trace(p))
        elif not out:
            rep.violation('content-value', op, where(p), 'an ordinary value '
                          'is not written', trace(p))


def without(rep, p, op, kind, html):
    rep.count('paths')
    rep.seen('attr-once', '%s[%s]/%s' % (op, kind, 'html' if html
                                         else 'xml'))
    evs = evaluations(p)
    if evs:
        rep.violation('attr-once', '%s[%s]' % (op, kind), evs[0].loc,
                      'an attribute without an expression is evaluated by %s'
                      % evs[0].name, trace(p))


def attribute(rep, p, op, kind, html):
    """One attribute computed by an expression."""
    expr = T('attrexpr', C(0))
    if p.fact(T('is', expr, NONE)) is True or p.kind != 'ok':
        return          # attribute without expression, see C20
    rep.count('paths')
    key = '%s[%s]' % (op, kind)
    inst = key + ('/html' if html else '/xml')
    evs = evaluations(p)
    rep.seen('attr-once', inst)
    if len(evs) != 1 or evs[0].args != (expr,) or evs[0].kw or \
            evs[0].name not in ('evaluateText', 'evaluateBoolean'):
        rep.violation('attr-once', key, where(p), 'the expression of an '
                      'attribute is evaluated by %s' % [
                          e.name for e in evs], trace(p))
        return
    e = evs[0]
    v = e.result
    boolean = e.name == 'evaluateBoolean'
    if boolean and not html:
        rep.violation('attr-once', key, e.loc, 'an XML attribute is '
                      'evaluated as truth value', trace(p))
        return
    out = output(p)
    written = [x for x in out if isinstance(x, Term) and any(
        y is T('attrname', C(0)) for y in walk(x))] or [
        x for x in out if x is T('attrname', C(0))]
    deflt = p.fact(T('is', v, DEFAULT))
    rep.seen('attr-value', inst)
    uses = set()
    for x in out:
        for y in walk(x) if isinstance(x, V) else ():
            uses.add(y)
    direct = direct_leaves(out)
    static = T('attrvalue', C(0))
    if deflt is None and not (boolean and p.fact(v) is False):
        rep.violation('attr-value', key, e.loc, 'the default marker is not '
                      'recognised by identity', trace(p))
        return
    if deflt is True:
        if kind == 'insert':
            if written:
                rep.violation('attr-value', key, where(p), 'default adds an '
                              'attribute the element does not have',
                              trace(p))
        elif not written:
            rep.violation('attr-value', key, where(p), 'default drops the '
                          'static attribute', trace(p))
        elif v in direct or DEFAULT in direct:
            rep.violation('attr-value', key, where(p), 'the default marker '
                          'itself is written', trace(p))
        elif p.fact(T('is', static, NONE)) is not True \
                and static not in direct and not translated(p):
            rep.violation('attr-value', key, where(p), 'default does not '
                          'keep the static value', trace(p))
        return
    if boolean:
        return          # truth values: C03
    none = p.fact(T('is', v, NONE))
    if none is None:
        rep.violation('attr-value', key, e.loc, 'None is not told apart '
                      'from other values', trace(p))
    elif none and written:
        rep.violation('attr-value', key, where(p), 'None does not drop the '
                      'attribute', trace(p))
    elif not none and not written:
        rep.violation('attr-value', key, where(p), 'an ordinary value is '
                      'not written', trace(p))
    elif not none and v not in direct and not translated(p):
        rep.violation('attr-value', key, where(p), 'something other than '
                      'the value of the expression is written: %s' %
                      short(out), trace(p))


def direct_leaves(out):
    """Values that are written, looking through escaping."""
    res = set()
    for x in out:
        if isinstance(x, V):
            cm = char_map(x)
            res.add(cm[0] if cm else x)
            if not cm:
                res.update(walk(x))
    return res


def translated(p):
    """The result of a translation is written."""
    rs = {e.result for e in engine_calls(p, 'translate')}
    d = direct_leaves(output(p))
    off = p.fact(T('cfg', 'i18nInterpolate')) is False
    return bool(rs & d) or (off and T('attrmsgid', C(0)) in d)
