"""Shared vocabulary of the rules."""
import html
import re

from ..engine import Broken, Program
from ..interp import (
    Interp, ENGINE, STREAM, DEFAULT, OPCODES, operands, opnd, block)
from ..values import (
    C, T, S, TUP, NONE, TRUE, FALSE, Const, Term, Str, Tup, Ref, Regex, V,
    walk, is_stringy)

_cache = {}


def interp(prog, summarised=False, **kw):
    cfg = dict(wrap=C(0))
    cfg.update(kw.pop('config', {}))
    key = (id(prog), summarised, repr(sorted(kw.items())),
           repr(sorted(cfg.items())))
    if key not in _cache:
        ip = Interp(prog, config=cfg, **kw)
        if summarised:
            ip.summarise()
        _cache[key] = ip
    return _cache[key]


def runs(ip, *ops):
    """[(op, variant, paths)] of the given opcodes (all by default)."""
    for op in ops or OPCODES:
        for variant, spec in operands(op):
            yield op, variant, ip.run(op, variant, spec)


def name(op, variant):
    return op + ('[%s]' % variant if variant else '')


# ------------------------------------------------------------- traces

def stream_writes(p, stream=STREAM):
    return [e for e in p.events('call', 'ext')
            if e.recv is stream and e.name in ('write', 'writelines')]


def output(p):
    """Everything a path writes to the output, as list of pieces: literal
    strings and values."""
    vals = []
    for e in stream_writes(p):
        if e.name == 'write' and len(e.args) == 1:
            vals.append(p.st.resolve(e.args[0]))
        else:
            vals.append(T('write?', *e.args))
    v = S(vals)
    if isinstance(v, Str):
        return list(v.parts)
    if isinstance(v, Const):
        return [v.v] if v.v else []
    return [v]


def pieces(v):
    if isinstance(v, Str):
        return list(v.parts)
    if isinstance(v, Const) and isinstance(v.v, str):
        return [v.v] if v.v else []
    return [v]


ANNOUNCES = ('setPosition', 'setSourceFile')


def engine_calls(p, *names):
    """Calls of the engine; announcements of a position only by name."""
    return [e for e in p.events('call') if e.recv is ENGINE
            and (e.name in names if names else e.name not in ANNOUNCES)]


EVALUATES = ('evaluate', 'evaluateValue', 'evaluateText', 'evaluateBoolean',
             'evaluateStructure', 'evaluateMacro', 'evaluateCode',
             'setRepeat')


def evaluations(p):
    return engine_calls(p, *EVALUATES)


def interps(p):
    return p.events('interp')


def is_out(v, blk=None):
    return isinstance(v, Term) and v.op == 'out' and (
        blk is None or v.args[0] is blk)


def where(p, default=None):
    """Location of the last event of a path, for reports."""
    ev = p.st.events()
    if ev:
        return ev[-1].loc
    return default


def trace(p, n=12):
    """A readable rendering of a path."""
    out = []
    for f, v in list(p.st.facts.items()):
        if f is STREAM:
            continue
        out.append('assume %s is %s' % (short(f), v))
    for e in p.st.events():
        out.append('%s:%s %s: %s.%s(%s)' % (
            e.loc[0], e.loc[1], e.loc[2], short(e.recv), e.name,
            ', '.join(short(a) for a in e.args)))
    out.append('exit: %s' % p.kind)
    return [x[:300] for x in out[-3 * n:]]


def short(v):
    s = repr(v)
    return s if len(s) < 160 else s[:157] + '...'


# ------------------------------------------------------------- escaping

SPECIALS = '&<>"\''


def char_map(v, base=None):
    """v as (leaf, {char: replacement}) when v is the leaf with single
    characters replaced; None when it is not of that form."""
    chain = []
    while isinstance(v, Term):
        if v.op in ('replace', 'html_escape', 'charmap', 'saxutils'):
            chain.append(v)
            v = v.args[0]
            continue
        break
    if isinstance(v, Str) and len(v.parts) == 1 \
            and not isinstance(v.parts[0], str):
        inner = char_map(v.parts[0])
        if inner is None:
            return None
        v, m = inner
    else:
        m = {}
    m = dict(m)
    dom = set(SPECIALS) | set(m)
    for t in chain:
        if t.op == 'replace':
            a = t.args[1]
            if isinstance(a, Const) and isinstance(a.v, str):
                dom |= set(a.v)
        elif t.op == 'charmap':
            dom |= {k for k, _ in t.args[1]}
    m = {c: m.get(c, c) for c in dom | {'x', ' ', '\n', ';', '#', 'a', 'm'}}
    for t in reversed(chain):
        if t.op == 'replace':
            a, b = t.args[1], t.args[2]
            if not (isinstance(a, Const) and isinstance(b, Const)
                    and isinstance(a.v, str) and isinstance(b.v, str)
                    and len(a.v) == 1 and len(t.args) == 3):
                return None
            m = {c: r.replace(a.v, b.v) for c, r in m.items()}
        elif t.op == 'html_escape':
            q = t.args[1] if len(t.args) > 1 else TRUE
            if not isinstance(q, Const):
                return None
            m = {c: html.escape(r, bool(q.v)) for c, r in m.items()}
        elif t.op == 'charmap':
            d = dict(t.args[1])
            m = {c: ''.join(d.get(x, x) for x in r) for c, r in m.items()}
    return v, {c: r for c, r in m.items() if r != c}


def absent(st, leaf):
    """Special characters a text is known not to contain."""
    out = set()
    for f, val in st.facts.items():
        if not isinstance(f, Term):
            continue
        if f.op == 'in' and val is False and isinstance(f.args[0], Const):
            chars, text = {f.args[0].v}, f.args[1]
        elif f.op == 'is' and f.args[1] is NONE and val is True:
            chars, text = searched(f.args[0])
        elif val is False:
            chars, text = searched(f)
        else:
            continue
        if not chars or not isinstance(text, V):
            continue
        cm = char_map(st.resolve(text))
        if cm is not None and cm[0] is leaf:
            out |= {c for c in chars | set('&<>"\'')
                    if chars & set(cm[1].get(c, c))}
    return out


def searched(t):
    """The characters and the text of a search for one of them."""
    if isinstance(t, Term) and t.op == 're' and t.args[0] in (
            'search', C('search')) and isinstance(t.args[1], Regex):
        m = re.fullmatch(r'\[([^\]\\^-]+)\]', t.args[1].pattern) \
            or re.fullmatch(r'([&<>"])((?:\|[&<>"])*)', t.args[1].pattern)
        if m:
            return set(''.join(m.groups())) - {'|'}, t.args[2]
    return None, None


def escape_faults(m, attribute, without=()):
    """Why a character map is not a correct escaping of texts without some
    characters."""
    m = {c: r for c, r in m.items() if c not in without}
    out = []
    for c in '&<>' + ('"' if attribute else ''):
        if c in without:
            continue
        r = m.get(c, c)
        if r == c:
            out.append('%r is not escaped' % c)
        elif html.unescape(r) != c:
            out.append('%r becomes %r' % (c, r))
    for c, r in m.items():
        if c in '&<>':
            continue
        if c in '"\'':
            if html.unescape(r) != c:
                out.append('%r becomes %r' % (c, r))
        elif r != c:
            out.append('%r becomes %r' % (c, r))
    return out


# ------------------------------------------------------------- errors

def exc_names(p, prog=None):
    """Names of the class of the exception a path ends with and its bases."""
    v = p.val
    prog = prog or p.ip.prog
    if isinstance(v, Ref) and v.oid in p.st.heap \
            and p.st.heap[v.oid].kind == 'inst':
        return [p.st.heap[c.oid].name if isinstance(c, Ref)
                else c.name.rsplit('.', 1)[-1]
                for c in prog.mro(p.st.heap[v.oid].cls, p.st.heap)]
    if isinstance(v, Term) and v.op == 'exc':
        return [v.args[0]]
    return []


def exc_values(p):
    """Values stored in the exception a path ends with."""
    v = p.val
    out = []
    if isinstance(v, Ref) and v.oid in p.st.heap \
            and p.st.heap[v.oid].kind == 'inst':
        for x in p.st.heap[v.oid].fields.values():
            x = p.st.resolve(x)
            out.extend(walk(x))
    return out


def fields_of(ip, *ops):
    """Attributes of the renderer the given instructions set."""
    out = set()
    for op, variant, paths in runs(ip, *ops):
        for p in paths:
            if p.kind == 'ok':
                out.update(ip.changed(ip.start_fields, ip.snapshot(p.st)))
    return out


def same_by_fact(ip, st, a, b):
    return ip.eng.decide(st, T('eq', a, b)) is True \
        or ip.eng.decide(st, T('eq', b, a)) is True \
        or ip.eng.decide(st, T('is', a, b)) is True
