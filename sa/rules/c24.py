"""Files and connections are closed on every exit."""
import ast

from .common import *
from ..engine import Engine
from ..parse import FEEDS
from ..values import BOUND, S

OPENERS = ('builtins.open', 'io.open', 'codecs.open', 'tokenize.open',
           'urllib.request.urlopen', 'gzip.open', 'bz2.open', 'lzma.open',
           'os.fdopen', 'os.popen', 'tempfile.TemporaryFile')
CLASSES = [('htmltalparser', 'HTMLTALParser', ('parseFile',)),
           ('talparser', 'TALParser', ('parseFile', 'parseURL')),
           ('xmlparser', 'XMLParser', ('parseFile', 'parseURL'))]
# what compares rendered pages with files is no parser
APART = ('runtest',)


class Files:
    """Anything done with an open file, and parsing itself, may fail."""

    def __init__(self, prog, cls):
        self.prog = prog
        self.eng = Engine(prog, hooks=[self], loop_k=3, max_states=50000)
        self.cls = prog.cls(*cls)
        st = prog.start()
        outs = self.eng.instantiate(st, self.cls, [], {}, NODE)
        outs = [o for o in outs if o[0] == 'ok']
        if not outs:
            raise Broken('%s cannot be constructed' % (cls,))
        _, self.state, self.ref = outs[0]
        self.state.trace, self.state.n = None, 0
        self.running = True

    def is_object(self, v):
        return isinstance(v, Term) and any(
            isinstance(x, Term) and x.op == 'resource' for x in walk(v))

    def on_event(self, eng, st, ev, node):
        if not getattr(self, 'running', False):
            return None
        res = ev.result
        if ev.name == 'enter_context' and ev.args and is_resource(
                ev.args[0]):
            return [('ok', st, ev.args[0])]
        name = opener(ev)
        mine = touches(ev)
        if not name and not mine and ev.name not in FEEDS + (
                'close', 'getpos', 'parse'):
            return None
        failed = st.fork()
        exc = T('excopaque', C('event%d' % ev.n))
        failed.ghost['failed'] = failed.ghost.get('failed', ()) + (ev.n,)
        if name:
            res = T('resource', name, C(ev.n))
            eng.nonnull.add(res)
            st.ghost['opened'] = st.ghost.get('opened', ()) + (
                (res, ev.loc, tuple(ev.args)),)
        elif isinstance(ev.recv, Term) and ev.name == '__enter__':
            res = ev.recv
        elif mine and ev.name in READS:
            res = T('readout', ev.recv, C(ev.n))
        elif mine and ev.name in ('__iter__', 'detach'):
            res = ev.recv
        if ev.name in ('close', '__exit__') and mine:
            return [('ok', st, NONE)]
        return [('raise', failed, exc), ('ok', st, res)]


READS = ('read', 'readline', 'readlines', 'readinto', 'read1', 'readall')
NODE = ast.parse('f()').body[0].value


def opener(ev):
    if ev.kind == 'ext' and ev.name == '__call__':
        n = getattr(ev.recv, 'name', '')
        if n in OPENERS:
            return n
    if isinstance(ev.recv, Term) and 'pathlib' in repr(ev.recv) \
            and ev.name == 'open':
        return 'pathlib.open'
    n = getattr(ev.recv, 'name', None)
    if isinstance(n, str) and (n + '.' + ev.name) in OPENERS:
        return n + '.' + ev.name
    return None


def is_resource(v, r=None):
    return isinstance(v, Term) and any(
        isinstance(x, Term) and x.op == 'resource' and (
            r is None or x is r) for x in walk(v))


def touches(ev):
    return is_resource(ev.recv) if isinstance(ev.recv, V) else False


def check(rep, prog, tier):
    rep.rule('closed', 'on every path from opening a file or connection to '
             'leaving the function, normally or by any error, it is closed',
             5)
    rep.rule('complete', 'what is parsed is everything there is to read', 5)
    rep.rule('sites', 'every place in the package that opens something is '
             'on a path that was examined, or closes it whatever happens',
             2)
    rep.assume('reading, parsing and closing the parser may raise anything')
    rep.assume('leaving a with statement closes what it was entered with')
    seen = set()
    for mod, cls, methods in CLASSES:
        f = Files(prog, (mod, cls))
        for m in methods:
            entry(rep, f, cls, m, seen)
        rep.use(f.eng)
    sites(rep, prog, seen)


def entry(rep, f, cls, m, seen):
    fn = f.prog.need_method(f.cls, m)
    arg = T('what to open')
    f.eng.nonnull.add(arg)
    loc = fn.fi.file, fn.fi.node.lineno, fn.fi.qual
    label = '%s.%s' % (cls, m)
    any_open = False
    for k, s, v in f.eng.call(f.state.fork(), BOUND(f.ref, fn), [arg], {},
                              fn.fi.node):
        rep.count('paths')
        evs = s.events()
        opened = s.ghost.get('opened', ())
        for r, at, args in opened:
            any_open = True
            seen.add(at[:2])
            how = 'normally' if k == 'ok' else 'with an error'
            rep.seen('closed', '%s %s' % (label, how))
            if not closed(evs, r, s):
                rep.violation('closed', label, at, 'what is opened here is '
                              'not closed when the function is left %s'
                              % how, steps(evs))
        if k == 'ok':
            rep.seen('complete', label)
            why = incomplete(f, s, evs, opened)
            if why:
                rep.violation('complete', label, opened[0][1] if opened
                              else loc, why, steps(evs))
    if not any_open:
        raw = [1 for k, s, v in f.eng.call(
            f.state.fork(), BOUND(f.ref, fn), [arg], {}, fn.fi.node)
            if any('read_text' in e.name or 'read_bytes' in e.name
                   for e in s.events())]
        if not raw:
            raise Broken('%s opens nothing' % label)
        rep.seen('closed', label + ' reads at once')


def steps(evs):
    return ['%s:%d %s' % (e.loc[0], e.loc[1], ('%s %s' % (
        e.kind, e.name)).strip()) for e in evs if e.loc][:30]


def closed(evs, r, st):
    for e in evs:
        if e.kind == 'with_exit' and is_resource(e.recv, r):
            return True
        if e.name in ('close', '__exit__') and isinstance(e.recv, V) \
                and is_resource(e.recv, r):
            return True
        if e.name in ('enter_context', 'push') and any(
                is_resource(a, r) for a in e.args) and any(
                    x.kind == 'with_exit' and x.recv is e.recv
                    for x in evs):
            return True
    return False


def incomplete(f, st, evs, opened):
    """Why the resource has not been read to its end, or None."""
    fed = []
    for e in evs:
        if e.name in FEEDS and e.kind != 'badcall':
            fed.extend(st.resolve(a) for a in e.args[:1])
    if not opened:
        if any(e.name in ('read_text', 'read_bytes') for e in evs):
            return None
        return 'nothing is opened'
    for r, at, args in opened:
        if any(a is r for a in fed):
            continue            # the library reads it
        reads = [e for e in evs if e.name in READS and isinstance(e.recv, V)
                 and is_resource(e.recv, r)]
        whole = [e for e in reads if e.name in ('read', 'readlines',
                                                'readall')
                 and all(a in (C(-1), NONE) for a in e.args)
                 and not e.kw]
        if whole:
            outs = [T('readout', e.recv, C(e.n)) for e in whole]
            if not any(x in outs for v in fed for x in walk(v)):
                return 'what is read is not parsed'
            continue
        if reads:
            last = T('readout', reads[-1].recv, C(reads[-1].n))
            if f.eng.decide(st, last) is not False \
                    and f.eng.decide(st, T('eq', last, C(''))) is not True:
                return 'the reading stops before the end is known to be ' \
                    'reached'
            for e in reads[:-1]:
                x = T('readout', e.recv, C(e.n))
                if not any(y is x for v in fed for y in walk(v)):
                    return 'a part that was read is not parsed'
            continue
        if any(is_resource(v, r) for v in fed):
            continue            # iterated over
        return 'it is not read'
    return None


# ---------------------------------------------------------------- sites

def sites(rep, prog, seen):
    for mod, tree in sorted(prog.trees.items()):
        if '.tests' in mod or mod.rsplit('.', 1)[-1] in APART:
            continue
        names = imported(tree)
        for fn in ast.walk(tree):
            if not isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
                continue
            for c in ast.walk(fn):
                if not isinstance(c, ast.Call):
                    continue
                n = dotted(c.func)
                full = names.get(n.split('.')[0], 'builtins.' + n) if '.' \
                    not in n else '.'.join([names.get(
                        n.split('.')[0], n.split('.')[0])] + n.split('.')[
                            1:])
                if full not in OPENERS:
                    continue
                inst = '%s:%s %s' % (prog.files[mod], fn.name, n)
                rep.seen('sites', inst)
                rep.files.add(prog.files[mod])
                if (prog.files[mod], c.lineno) in seen:
                    continue
                if not guarded(fn, c):
                    rep.violation('sites', inst, (prog.files[mod], c.lineno,
                                                  fn.name), 'what is opened '
                                  'here is not closed on every exit')


def imported(tree):
    out = {}
    for n in ast.walk(tree):
        if isinstance(n, ast.Import):
            for a in n.names:
                out[a.asname or a.name.split('.')[0]] = \
                    a.name if a.asname else a.name.split('.')[0]
        elif isinstance(n, ast.ImportFrom) and n.module:
            for a in n.names:
                out[a.asname or a.name] = n.module + '.' + a.name
    return out


def dotted(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        return dotted(e.value) + '.' + e.attr
    return '?'


def guarded(fn, call):
    """Entered by a with statement, returned, or closed in a finally
    clause."""
    for n in ast.walk(fn):
        if isinstance(n, (ast.With, ast.AsyncWith)):
            for i in n.items:
                if any(x is call for x in ast.walk(i.context_expr)):
                    return True
        if isinstance(n, ast.Return) and n.value is call:
            return True
        if isinstance(n, ast.Call) and n is not call and dotted(
                n.func).endswith('enter_context'):
            if any(x is call for a in n.args for x in ast.walk(a)):
                return True
    target = None
    for n in ast.walk(fn):
        if isinstance(n, ast.Assign) and n.value is call \
                and isinstance(n.targets[0], ast.Name):
            target = n.targets[0].id
    if target is None:
        return False
    for n in ast.walk(fn):
        if isinstance(n, ast.Try):
            for s in n.finalbody:
                for x in ast.walk(s):
                    if isinstance(x, ast.Call) and dotted(x.func) \
                            == target + '.close':
                        return True
        if isinstance(n, ast.With):
            for i in n.items:
                if any(isinstance(x, ast.Name) and x.id == target
                       for x in ast.walk(i.context_expr)):
                    return True
    return False
