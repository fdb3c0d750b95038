"""Compilations and renderings do not influence each other."""
import ast

from .common import *
from . import c26, structure
from .c11 import Operand
from .c19 import Inserting, PAGES, ONLY_HTML, prepared
from .c22 import KINDS, page_steps
from .elements import Elements
from .markup import Markup
from ..effects import Effects
from ..report import Report
from ..values import HDict


def check(rep, prog, tier):
    rep.rule('effects', 'no function of the package stores into an object '
             'that was created at import: module level, class level, '
             'argument defaults (points-to analysis of all modules)', 100)
    rep.rule('paths', 'no path of a parser callback, of compiling an '
             'element or of an instruction stores into such an object '
             '(abstract heap)', 100)
    rep.rule('settings', 'a setting of the whole process that a function '
             'changes is put back in a finally clause around the rest', 1)
    ef = Effects(prog)
    for f in ef.fns:
        rep.seen('effects', '%s:%s' % (prog.files[f.mod], f.qual))
        rep.functions.add('%s:%s' % (prog.files[f.mod], f.qual))
        rep.files.add(prog.files[f.mod])
    rep.count('shared_objects', len(ef.locs))
    rep.count('stores_examined', ef.stores)
    for (fn, what), (loc, msg) in sorted(ef.found.items()):
        rep.violation('effects', '%s %s' % (fn, what), loc, msg)
    settings(rep, Effects(prog, skip=()))
    work = [('ops', c, t, m, a) for c in (
        ('talinterpreter', 'TALInterpreter'),
        ('talgettext', 'POTALInterpreter'))
        for t in (0, 1) for m in (0, 1) for a in (0, 1)]
    work += [('insert', op, mode) for op in (
        'insertStructure', 'insertI18nStructure') for mode in ('html',
                                                               'xml')]
    work += [('pages', x, i) for x in (False, True) for i in range(6)]
    work += [('parsers', False), ('parsers', True)]
    structure.fan(rep, work, lambda r, w: PARTS[w[0]](r, prog, tier,
                                                      *w[1:]))
    rep.assume('the engine and the expressions are not part of the '
               'analysed code; of dummyengine.py, a test double, only '
               'the process-wide settings are looked at')
    rep.assume('binding a global name to something imported from the '
               'library is no change')


# ------------------------------------------------------------- settings

def settings(rep, ef):
    setters = {}
    for f, target, node, tries in ef.settings:
        setters.setdefault(target, set()).add(f.qual.rsplit('.', 1)[-1])
    for f, target, node, tries in ef.settings:
        inst = '%s %s' % (f.qual, target)
        rep.seen('settings', inst)
        if not restoring(f, target, node) and not restorer(
                ef, f) and not protected(f, target, node, tries,
                                         setters[target]):
            rep.violation('settings', inst, (ef.prog.files[f.mod],
                                             node.lineno, f.qual),
                          '%s is changed and not put back on every exit'
                          % target)


def restoring(f, target, node):
    """The store is itself in a finally clause."""
    for t in ast.walk(f.node):
        if isinstance(t, ast.Try):
            for s in t.finalbody:
                if any(n is node for n in ast.walk(s)):
                    return True
    return False


def restorer(ef, f):
    """The function is only called in finally clauses."""
    name = f.qual.rsplit('.', 1)[-1]

    def calls(n):
        return {id(c) for c in ast.walk(n) if isinstance(c, ast.Call)
                and called(c) == name}
    every, last = set(), set()
    for g in ef.fns:
        every |= calls(g.node)
        for t in ast.walk(g.node):
            if isinstance(t, ast.Try):
                for s in t.finalbody:
                    last |= calls(s)
    return bool(every) and every == last


def called(c):
    return getattr(c.func, 'attr', getattr(c.func, 'id', None))


def protected(f, target, node, tries, setters):
    """The store is in, or directly before, a try statement whose finally
    clause sets the same thing, itself or by a function that does."""
    if target.endswith('()'):
        name = target[:-2].rsplit('.', 1)[-1]

        def sets(n):
            return isinstance(n, ast.Call) and called(n) in (
                {name} | setters)
    else:
        def sets(n):
            return isinstance(n, ast.Attribute) and isinstance(
                n.ctx, ast.Store) and ast.unparse(n) == target \
                or isinstance(n, ast.Call) and called(n) in setters
    cands = list(tries)
    for b in blocks(f.node):
        for s, nxt in zip(b, b[1:]):
            if isinstance(nxt, ast.Try) and any(
                    n is node for n in ast.walk(s)):
                cands.append(nxt)
    for w in ast.walk(f.node):
        if isinstance(w, ast.With) and any(n is node for n in ast.walk(w)):
            for i in w.items:
                if 'catch_warnings' in ast.unparse(i.context_expr) \
                        and target.startswith('warnings'):
                    return True
    for t in cands:
        for s in t.finalbody:
            if any(sets(n) for n in ast.walk(s)):
                return True
    return False


def blocks(node):
    for n in ast.walk(node):
        for part in ('body', 'orelse', 'finalbody'):
            b = getattr(n, part, None)
            if isinstance(b, list):
                yield b


# ---------------------------------------------------------------- paths

def names(prog):
    """Object -> a name for it."""
    out = {}
    heap = prog.base.heap

    def put(v, label):
        if isinstance(v, Ref) and v.oid not in out:
            out[v.oid] = label
            h = heap.get(v.oid)
            if h is not None and h.kind == 'class':
                for k, x in h.attrs.items():
                    put(x, '%s.%s' % (label, k))
        fi = getattr(v, 'fi', None)
        if fi is not None:
            for d in getattr(v, 'defaults', ()) or ():
                put(d, 'an argument default of ' + fi.qual)
    for mod, oid in prog.mod_oid.items():
        for k, v in heap[oid].names.items():
            put(v, '%s.%s' % (mod.rsplit('.', 1)[-1], k))
    return out


def verdict(rep, prog, inst, eng):
    known = None
    for loc, o, what in eng.shared:
        if 'dummyengine' in str(loc[0]):
            continue
        if isinstance(o, str):
            if constant(what):
                continue
            msg = 'the global name %s is bound' % o
        else:
            known = known or names(prog)
            msg = '%s on %s' % (what, known.get(
                o.oid, 'an object made at import'))
        rep.violation('paths', '%s %s' % (loc[2], msg), loc, msg, [inst])
    del eng.shared[:]
    rep.use(eng)


def constant(v):
    """Something of the library: the same on every call."""
    return not isinstance(v, (Ref, Tup)) and not any(
        x in repr(v) for x in ('opnd', 'arg(', 'field', 'result'))


def ops(rep, prog, tier, cls, tal, metal, annotate):
    ip = interp(prog, summarised=False, tal=bool(tal), metal=bool(metal),
                annotate=bool(annotate), cls=cls)
    flags = '%s tal=%d metal=%d annotate=%d' % (cls[1], tal, metal, annotate)
    del ip.eng.shared[:]
    for op, variant, spec in ip.all_ops():
        inst = '%s %s' % (name(op, variant), flags)
        rep.seen('paths', inst)
        for empty in (False, True):
            st = ip.state.fork()
            od = Operand(ip, st, op, spec, empty)
            rep.count('paths', len(ip.run(op, variant, od.value, st)))
        verdict(rep, prog, inst, ip.eng)


def insert(rep, prog, tier, op, mode):
    ip = Inserting(prog, raises=False, config={
        'wrap': C(0), 'strictinsert': T('cfg', 'strictinsert'),
        'showtal': C(0), 'stackLimit': C(100), 'i18nInterpolate': C(1)})
    for k in ('class', 'title'):
        ip.eng.nonnull.add(T('rexpr', k))
    del ip.eng.shared[:]
    for page, want in PAGES + (ONLY_HTML if mode == 'html' else []):
        ip.page = page
        st = prepared(ip, mode)
        d = ip.eng.alloc(st, HDict([
            (C(k), TUP([T('rexpr', k), FALSE, NONE]))
            for k in ('class', 'title')]))
        inst = '%s %s %s' % (op, mode, page)
        rep.seen('paths', inst)
        rep.count('paths', len(ip.run(op, '', TUP([
            opnd(op, 'expr'), d, block(op, 'program')]), st)))
        verdict(rep, prog, inst, ip.eng)


def pages(rep, prog, tier, xml, part):
    els = Elements(prog, xml=xml, loop_k=4)
    verdict(rep, prog, 'a generator is created', els.gen.eng)
    words = list(KINDS)
    todo = [[a, '/'] for a in words]
    todo += [[a, b, '/', '/'] for a in words for b in words]
    todo += [['def', 'slot', a, '/', '/', '/'] for a in words]
    todo += [['use', 'fill', a, '/', '/', '/'] for a in words]
    attrs = [TUP([C('class'), C('x')]), TUP([C('id'), T('attrvalue')])]
    for page in todo[part::6]:
        inst = '%s %s' % ('xml' if xml else 'html', ' '.join(page))
        rep.seen('paths', inst)
        rep.count('paths', len(els.steps(*page_steps(
            els, page, bool(len(page) & 2), attrs))))
        verdict(rep, prog, inst, els.gen.eng)


def parsers(rep, prog, tier, xml):
    mk = Markup(prog, xml, white=NONE)
    verdict(rep, prog, 'a parser is created', mk.eng)
    scratch = Report('C12')
    scratch.rule('html', '')
    scratch.rule('xml', '')
    for page in c26.XML if xml else c26.HTML:
        c26.one(scratch, mk, page)
    for inst in scratch.instances['xml' if xml else 'html']:
        rep.seen('paths', '%s %s' % ('xml' if xml else 'html', inst))
    verdict(rep, prog, 'markup', mk.eng)


PARTS = {'ops': ops, 'insert': insert, 'pages': pages, 'parsers': parsers}
