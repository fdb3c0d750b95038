"""Line wrapping only changes white space between attributes."""
import itertools

from .common import *
from ..interp import ATTR_KINDS


def check(rep, prog, tier):
    rep.rule('same-text', 'for every wrap width a start tag is written with '
             'the same pieces in the same order as without wrapping, except '
             'for white space before an attribute', 20)
    rep.rule('separated', 'there is white space before every attribute and '
             'none is added elsewhere', 20)
    rep.rule('unwrapped', 'with a wrap width of zero attributes are '
             'separated by single spaces', 20)
    rep.rule('only-tags', 'nothing but start tags depends on the wrap '
             'width', 20)
    combos = [(k,) for k in ATTR_KINDS]
    combos += [('plain', 'plain'), ('plain', 'replace'), ('tal', 'plain'),
               ('replace', 'plain'), ('plain', 'insert')]
    combos.append(('plain',) * 3)
    if tier == 'thorough':
        combos += [c for c in itertools.product(ATTR_KINDS, repeat=2)
                   if 'plain' in c and c not in combos]
        combos.append(('plain',) * 4)
    for tal in (True, False):
        for mode in ('html', 'xml'):
            tags(rep, prog, tal, mode, combos)
        only(rep, prog, tal)
    rep.assume('start tags with up to %d attributes' % max(
        len(c) for c in combos))


def tags(rep, prog, tal, mode, combos):
    free = interp(prog, raises=False, tal=tal, config={
        'wrap': T('cfg', 'wrap'), 'stackLimit': T('cfg', 'stackLimit')})
    none = interp(prog, raises=False, tal=tal)
    for op in ('startTag', 'startEndTag'):
        for kinds in combos:
            inst = '%s[%s] %s tal=%d' % (op, '+'.join(kinds), mode, tal)
            base, every = {}, set()
            for p in none.run(op, '', ('attrs', kinds), none.moded(mode)):
                if p.kind != 'ok':
                    continue
                out = output(p)
                rep.seen('unwrapped', inst)
                if any(isinstance(x, str) and ('\n' in x or '  ' in x)
                       for x in out) or any(
                        isinstance(x, Term) and x.op == 'strrepeat'
                        for x in out):
                    rep.violation('unwrapped', name(op, '+'.join(kinds)),
                                  where(p), 'writes %s' % short(out),
                                  trace(p))
                n = normal(out)
                base[key(p)] = n
                every.add(n)
            for p in free.run(op, '', ('attrs', kinds), free.moded(mode)):
                if p.kind != 'ok':
                    continue
                rep.count('paths')
                rep.seen('same-text', inst)
                rep.seen('separated', inst)
                out = output(p)
                n = normal(out)
                want = base.get(key(p))
                nm = name(op, '+'.join(kinds))
                if n != want if want is not None else n not in every:
                    rep.violation('same-text', nm, where(p), 'writes %s, '
                                  'which is %s without wrapping' % (
                                      short(out), short(want)), trace(p))
                if p.fact(T('cfg', 'wrap')) is False and any(
                        isinstance(x, str) and '\n' in x for x in out):
                    rep.violation('unwrapped', nm, where(p),
                                  'writes %s' % short(out), trace(p))
                separators(rep, p, nm, out)
    rep.use(free.eng)


def blank(x):
    """Is x white space, and is it certainly some?"""
    if isinstance(x, str):
        return not x.strip(' \t\r\n'), bool(x)
    if isinstance(x, Term) and x.op == 'strrepeat':
        a = x.args[0]
        return isinstance(a, Const) and isinstance(a.v, str) \
            and not a.v.strip(' \t\r\n'), False
    if isinstance(x, Term) and x.op in ('res', 'm'):
        a = [y for y in x.args[:2] if isinstance(y, (Const, str))]
        names = [y.v if isinstance(y, Const) else y for y in a]
        if len(names) == 2 and set(names) & {'ljust', 'rjust', 'center'}:
            lit = [y for y in names if y not in ('ljust', 'rjust', 'center')]
            return bool(lit) and isinstance(lit[0], str) \
                and not lit[0].strip(' \t\r\n'), bool(lit and lit[0])
    return False, False


def normal(out):
    """Output with each run of white space as one blank."""
    res = []
    for x in split(out):
        if blank(x)[0]:
            if not res or res[-1] != ' ':
                res.append(' ')
        else:
            res.append(x)
    return tuple(res)


def split(out):
    """Pieces with leading and trailing white space of literals apart."""
    for x in out:
        if isinstance(x, str):
            core = x.strip(' \t\r\n')
            if not core:
                yield x
                continue
            i = x.index(core)
            if i:
                yield x[:i]
            yield core
            if i + len(core) < len(x):
                yield x[i + len(core):]
        else:
            yield x


def separators(rep, p, nm, out):
    """Every attribute starts after white space."""
    pieces_ = list(split(out))
    start = None
    for i, x in enumerate(pieces_):
        if isinstance(x, Term) and x.op in ('attrname', 'attrtext') \
                and not (i and pieces_[i - 1] == '="'):
            j, some = i - 1, False
            while j >= 0 and blank(pieces_[j])[0]:
                some = some or blank(pieces_[j])[1]
                j -= 1
            if not some:
                rep.violation('separated', nm, where(p), 'no white space is '
                              'written before %s in %s' % (
                                  short(x), short(out)), trace(p))
                return


def key(p):
    return frozenset((t, v) for t, v in p.st.facts.items()
                     if isinstance(t, Term) and t.op not in ('lt', 'le')
                     and t is not STREAM and not any(
                         x is T('cfg', 'wrap') for x in walk(t)))


def only(rep, prog, tal):
    ip = interp(prog, raises=False, tal=tal, config={
        'wrap': T('cfg', 'wrap')})
    w = T('cfg', 'wrap')
    for op, variant, paths in runs(ip):
        if op in ('startTag', 'startEndTag'):
            continue
        rep.seen('only-tags', '%s tal=%d' % (name(op, variant), tal))
        for p in paths:
            if any(x is w for t in p.st.facts if isinstance(t, V)
                   for x in walk(t)) or any(
                    x is w for y in output(p) if isinstance(y, V)
                    for x in walk(y)):
                rep.violation('only-tags', name(op, variant), where(p),
                              'depends on the wrap width', trace(p))
                break
