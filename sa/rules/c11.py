"""Rendering and code retrieval never modify the compiled program."""
import itertools

from .common import *
from . import structure
from .elements import Elements
from .c19 import Inserting, PAGES, ONLY_HTML, prepared
from .c22 import KINDS, page_steps
from ..gen import freeze
from ..values import HDict, HList

MUTATORS = frozenset('''append extend insert remove pop clear sort reverse
update setdefault popitem add discard __setitem__ __delitem__ __iadd__
__setattr__'''.split())
# attributes of several kinds on one tag
MIXED = [(op, '+'.join(k), ('attrs', k))
         for op in ('startTag', 'startEndTag')
         for k in (('tal', 'plain', 'metal'), ('plain', 'i18n', 'xmlns'),
                   ('replace', 'tal', 'plain'), ('metal', 'insert'),
                   ('xmlns', 'plain', 'replace-i18n'))]
STORES = ('setitem', 'delitem', 'setattr', 'delattr')


def check(rep, prog, tier):
    rep.rule('operands', 'no path of an instruction, normal or with an '
             'error, changes a list or dictionary of the program: before '
             'every nested block and at the end they are what they were',
             60)
    rep.rule('kept', 'operands that the interpreter still holds while a '
             'nested block is rendered are changed by no instruction', 30)
    rep.rule('inserted', 'inserting a structure leaves the replacements of '
             'its instruction alone', 20)
    rep.rule('again', 'retrieving the code of a page twice gives equal '
             'programs and macros, and the first result stays as it was',
             60)
    rep.rule('plain', 'compiled programs consist of tuples, lists, '
             'dictionaries and constants, nothing that is used up by '
             'reading it', 60)
    work = [('ops', t, m, a) for t in (0, 1) for m in (0, 1)
            for a in (0, 1)]
    work += [('insert', op, mode) for op in (
        'insertStructure', 'insertI18nStructure') for mode in ('html',
                                                               'xml')]
    work += [('pages', x, i) for x in (False, True) for i in range(6)]
    structure.fan(rep, work, lambda r, w: PARTS[w[0]](r, prog, tier,
                                                      *w[1:]))


def some_block(ip, st, label):
    """A program: a list of instructions."""
    return ip.eng.alloc(st, HList([
        TUP([C('rawtextOffset'), TUP([T('text', label), T('len', label)])]),
        TUP([C('endScope'), TUP(())])]))


class Operand:
    """The operand of an instruction with real lists and dictionaries."""

    def __init__(self, ip, st, op, spec, empty=False):
        self.ip, self.refs, self.empty = ip, {}, empty
        if isinstance(spec, tuple):
            spec = ip.operand(st, op, spec)
        self.value = self.make(st, op, spec)
        self.heap = dict(st.heap)

    def dict(self, st, values):
        return self.ip.eng.alloc(st, HDict([
            (C(k), v) for k, v in values if not self.empty]))

    def keep(self, label, ref):
        self.refs[label] = ref
        return ref

    def make(self, st, op, v):
        ip = self.ip
        if isinstance(v, Tup):
            return TUP([self.make(st, op, x) for x in v.items])
        if isinstance(v, Ref):
            return self.keep('attribute list', v)
        if isinstance(v, Term) and v.op == 'block':
            return self.keep('block', some_block(ip, st, str(v)))
        if v is opnd(op, 'repldict'):
            return self.keep('replacements', self.dict(st, [
                ('class', TUP([T('rexpr', 'class'), FALSE, NONE]))]))
        if v is opnd(op, 'slots'):
            b = some_block(ip, st, 'filler')
            self.keep('slot filler', b)
            return self.keep('slots', self.dict(st, [('s', b)]))
        if v is opnd(op, 'attrs') or v is opnd('beginScope', 'arg'):
            return self.keep('attributes', self.dict(st, [
                ('class', T('attrvalue', 'class'))]))
        if v is opnd('beginI18nContext', 'arg'):
            return self.keep('settings', self.dict(st, [
                ('domain', T('domain')), ('target', T('target'))]))
        if v is opnd('defineSlot', 'name') or v is opnd('fillSlot', 'name'):
            return C('s')
        return v

    def changes(self, st):
        """What has become of the operands, as (label, value)."""
        eng = self.ip.eng
        was = st.fork()
        for oid, h in self.heap.items():
            if oid >= self.ip.prog.base_limit and oid != self.ip.ref.oid:
                was.heap[oid] = h
        for k, r in self.refs.items():
            now = freeze(eng, st, r)
            if now != freeze(eng, was, r):
                yield k, now
            elif r.oid in st.ghost.get('sorted', ()):
                yield k, 'sorted'


def root(v):
    while isinstance(v, Term) and v.args and v.op in (
            'item', 'attr', 'elem', 'iter', 'slice', 'getitem', 'call',
            'unpack'):
        v = v.args[0]
    return v


def stores(p, extra=()):
    """Stores into programs that are not known: macros from elsewhere."""
    macros = [e.result for e in engine_calls(p, 'evaluateMacro')]
    for e in p.st.events():
        if e.kind not in STORES and not (
                e.kind in ('call', 'ext') and e.name in MUTATORS):
            continue
        r = root(p.st.resolve(e.recv)) if isinstance(e.recv, V) else None
        if isinstance(r, Term) and (r.op in ('opnd', 'block', 'cfg')
                                    or r in macros):
            yield e


def ops(rep, prog, tier, tal, metal, annotate):
    ip = interp(prog, summarised=True, tal=bool(tal), metal=bool(metal),
                annotate=bool(annotate))
    kept = []
    flags = 'tal=%d metal=%d annotate=%d' % (tal, metal, annotate)
    for op, variant, spec in itertools.chain(ip.all_ops(), MIXED):
        inst = '%s %s' % (name(op, variant), flags)
        rep.seen('operands', inst)
        paths = []
        for empty in (False, True):
            st = ip.state.fork()
            od = Operand(ip, st, op, spec, empty)
            paths += [(od, p) for p in ip.run(op, variant, od.value, st)]
        for od, p in paths:
            rep.count('paths')
            unchanged(rep, 'operands', inst, od, p)
            if tal and metal and not annotate:
                for e in interps(p):
                    held = reachable(ip, e.snap) & {
                        r.oid for r in od.refs.values()}
                    if held:
                        kept.append((op, od, e.snap))
    if tal and metal and not annotate:
        if not kept:
            raise Broken('no instruction keeps anything of its operands')
        done = set()
        for op, od, snap in kept:
            key = op, repr(sorted((k, str(v)) for k, v in ip.snapshot(
                snap).items()))
            if key in done:
                continue
            done.add(key)
            for op2, variant, spec in ip.all_ops():
                st = snap.fork()
                st.trace, st.n, st.stack = None, 0, ()
                od2 = Operand(ip, st, op2, spec)
                inst = '%s in %s' % (name(op2, variant), op)
                rep.seen('kept', inst)
                for p in ip.run(op2, variant, od2.value, st):
                    rep.count('paths')
                    unchanged(rep, 'kept', inst, od, p)
    rep.use(ip.eng)


def reachable(ip, st):
    seen, todo = set(), [st.heap[ip.ref.oid].fields]
    while todo:
        x = todo.pop()
        if isinstance(x, dict):
            todo.extend(x.values())
        elif isinstance(x, Tup):
            todo.extend(x.items)
        elif isinstance(x, Ref) and x.oid >= ip.prog.base_limit \
                and x.oid not in seen and x.oid in st.heap:
            seen.add(x.oid)
            h = st.heap[x.oid]
            if h.kind in ('list', 'set'):
                todo.extend(h.items)
            elif h.kind == 'dict':
                todo.extend(y for e in h.entries for y in e)
            elif h.kind == 'inst':
                todo.append(h.fields)
                if isinstance(h.data, V):
                    todo.append(h.data)
                elif isinstance(h.data, HList):
                    todo.extend(h.data.items)
    return seen


def unchanged(rep, rule, inst, od, p):
    for e in stores(p):
        rep.violation(rule, inst, e.loc, '%s on %s' % (e.name, short(
            e.recv)), trace(p))
    for st, loc in [(e.snap, e.loc) for e in interps(p)] + [
            (p.st, where(p))]:
        for k, now in od.changes(st):
            rep.violation(rule, inst, loc, 'the %s of the instruction '
                          'becomes %s' % (k, short(now)), trace(p))
            return


def insert(rep, prog, tier, op, mode):
    ip = Inserting(prog, raises=False, config={
        'wrap': C(0), 'strictinsert': T('cfg', 'strictinsert'),
        'showtal': C(0), 'stackLimit': C(100), 'i18nInterpolate': C(1)})
    for k in ('class', 'title'):
        ip.eng.nonnull.add(T('rexpr', k))
    pages = [p for p, w in PAGES + (ONLY_HTML if mode == 'html' else [])]
    for fails in (False, True):
        ip.fails = fails
        for page in pages:
            ip.page = page
            st = prepared(ip, mode)
            d = ip.eng.alloc(st, HDict([
                (C(k), TUP([T('rexpr', k), FALSE, NONE]))
                for k in ('class', 'title')]))
            before = freeze(ip.eng, st, d)
            inst = '%s %s %s%s' % (op, mode, page_name(page),
                                   ' fails' * fails)
            rep.seen('inserted', inst)
            for p in ip.run(op, '', TUP([opnd(op, 'expr'), d, block(
                    op, 'program')]), st):
                rep.count('paths')
                now = freeze(ip.eng, p.st, d)
                if now != before:
                    rep.violation('inserted', inst, where(p), 'the '
                                  'replacements of the instruction become '
                                  '%s' % short(now), trace(p))
    rep.use(ip.eng)


def page_name(page):
    return ''.join(x if isinstance(x, str) else '<%s>' % ' '.join(
        [x[0]] + [k for k, v in x[1:]]) for x in page)


def pages(rep, prog, tier, xml, part):
    els = Elements(prog, xml=xml, loop_k=4)
    loc = structure.generator(prog)
    names = list(KINDS)
    todo = [[a, '/'] for a in names]
    todo += [[a, b, '/', 'content', '/', '/', 'plain', '/']
             for a in names for b in names]
    todo += [['def', 'slot', a, '/', '/', 'slot', '/', '/'] for a in names]
    todo += [['use', 'fill', a, '/', '/', 'fill', '/', '/'] for a in names]
    for page in todo[part::6]:
        if tier == 'quick' and len(page) > 6 and hash2(page) % 2:
            continue
        for blank in (False, True):
            if tier == 'quick' and blank != bool(len(page) & 2):
                continue
            retrieved(rep, els, xml, page, blank, loc)
    rep.use(els.gen.eng)


def hash2(page):
    return sum(len(w) for w in page)


def retrieved(rep, els, xml, page, blank, loc):
    label = '%s%s %s' % ('xml' if xml else 'html', ' blank' * blank,
                         ' '.join(page))
    for el in els.steps(*page_steps(
            els, page, blank, [TUP([C('class'), C('a<"b')]),
                               TUP([C('checked'), NONE])])):
        rep.count('compile_paths')
        if el.kind != 'ok':
            continue
        rep.seen('again', label)
        rep.seen('plain', label)
        first = freeze(els.gen.eng, el.st, el.val)
        bad = impure(first)
        if bad is not None:
            rep.violation('plain', label, loc, '%s in the program' % short(
                bad), el.facts())
        for k, st, v in els.code(el.st.fork()):
            if k != 'ok':
                rep.violation('again', label, loc, 'the second retrieval '
                              'fails with %s' % short(v), el.facts())
                continue
            second = freeze(els.gen.eng, st, v)
            later = freeze(els.gen.eng, st, el.val)
            if second != first:
                rep.violation('again', label, loc, 'the second retrieval '
                              'gives %s' % differs(first, second),
                              el.facts())
            elif later != first:
                rep.violation('again', label, loc, 'the second retrieval '
                              'changes the program retrieved before',
                              el.facts())


def differs(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return '%s instead of %s' % (short(b), short(a))
        for x, y in zip(a, b):
            if x != y:
                return differs(x, y)
    return '%s instead of %s' % (short(b), short(a))


def impure(x):
    """Something in a frozen program that reading may use up."""
    if isinstance(x, (list, tuple)):
        for y in x:
            r = impure(y)
            if r is not None:
                return r
        return None
    if isinstance(x, dict):
        return impure(list(x.values()))
    if isinstance(x, Ref):
        return x
    if isinstance(x, Term) and x.op in ('genexp', 'iter', 'map', 'filter',
                                        'zip', 'reversed', 'enumerate'):
        return x
    return None


PARTS = {'ops': ops, 'insert': insert, 'pages': pages}
