"""Variable scopes are opened and closed in pairs."""
from .common import *

SCOPES = {'beginScope': (1, 0), 'endScope': (-1, -1),
          'rawtextBeginScope[open]': (1, 0),
          'rawtextBeginScope[closeprev]': (0, -1)}


def check(rep, prog, tier):
    rep.rule('normal-exit', 'on every normal exit of an instruction the '
             'number of open scopes has changed by what the instruction is '
             'for, and the recorded number of scopes by the same', 50)
    rep.rule('foreign', 'no instruction closes a scope that was open when '
             'it started, unless that is what it is for', 50)
    rep.rule('exceptional-exit', 'when an instruction is left by an error '
             'the recorded number of scopes is the real one, so that a '
             'handler can close them', 20)
    rep.rule('rendering', 'a whole rendering checks or keeps the balance', 1)
    rep.assume('a nested instruction block leaves the scopes balanced when '
               'it completes (induction) and has up to two more open when '
               'it fails')
    rep.assume('beginScope, endScope, setLocal, setGlobal, setPosition and '
               'setSourceFile of the engine do not raise')
    for tal in (True, False):
        for metal in (True, False):
            if not tal and not metal:
                continue
            ip = interp(prog, summarised=True, tal=tal, metal=metal)
            for op, variant, paths in runs(ip):
                for p in paths:
                    one(rep, ip, p, name(op, variant), tal, metal)
            rep.use(ip.eng)
            rendering(rep, ip, tal)


def delta(ip, st):
    """Change of the recorded number of open scopes."""
    k = ip.scope_field
    if k is None:
        return None
    start, end = ip.start_fields[k], st.resolve(st.field(ip.ref, k))
    b, j = ip.eng.lin(end)
    b0, j0 = ip.eng.lin(start)
    return j - j0 if b is b0 else None


def one(rep, ip, p, nm, tal, metal):
    rep.count('paths')
    inst = '%s tal=%d metal=%d' % (nm, tal, metal)
    want, low = SCOPES.get(nm, (0, 0))
    d = p.st.ghost['depth']
    k = delta(ip, p.st)
    rep.seen('foreign', inst)
    if p.st.ghost['mindepth'] < low:
        rep.violation('foreign', nm, where(p), 'closes a scope it did not '
                      'open', trace(p))
    if p.kind == 'ok':
        rep.seen('normal-exit', inst)
        if d != want:
            rep.violation('normal-exit', nm, where(p), 'leaves %+d scopes '
                          'instead of %+d' % (d, want), trace(p))
        elif ip.scope_field and k != want:
            rep.violation('normal-exit', nm, where(p), 'records %s scopes '
                          'although the number changed by %d' % (k, want),
                          trace(p))
    elif p.kind == 'raise':
        rep.seen('exceptional-exit', inst)
        if ip.scope_field and k != d:
            rep.violation('exceptional-exit', nm, where(p), 'is left by an '
                          'error with %+d scopes open but %s recorded' % (
                              d, k), trace(p))


def rendering(rep, ip, tal):
    """The entry point adds no scope of its own."""
    st = ip.state.fork()
    for k, v in ip.fields0.items():
        if isinstance(v, Const):
            st.setfield(ip.ref, k, v)
    ip.top = None
    fn = ip.prog.need_method(ip.cls, '__call__')
    from ..values import BOUND
    for k, s, v in ip.eng.call(st, BOUND(ip.ref, fn), [], {}, fn.fi.node):
        rep.count('paths')
        rep.seen('rendering', 'tal=%d' % tal)
        if k == 'ok' and (s.ghost['depth'] or s.ghost['mindepth'] < 0):
            rep.violation('rendering', '__call__', (
                fn.fi.file, fn.fi.node.lineno, fn.fi.qual), 'a rendering '
                'ends with %+d scopes' % s.ghost['depth'])
