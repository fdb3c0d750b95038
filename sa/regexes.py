"""Facts about regular expressions, read off their parse tree.

Nothing is matched against program data here: the parse tree tells which
values a group can take (when they are finitely many) and whether a group or
the whole expression can be absent.
"""
import functools
import re
try:
    import re._parser as sre_parse
    import re._constants as sre_c
except ImportError:                         # pragma: no cover
    import sre_parse
    import sre_constants as sre_c


@functools.lru_cache(None)
def tree(pattern, flags):
    try:
        return sre_parse.parse(pattern, flags)
    except re.error:
        return None


def _strings(seq, limit=16):
    """Finite language of a subpattern, or None."""
    out = ['']
    for op, av in seq:
        if op is sre_c.LITERAL:
            alts = [chr(av)]
        elif op is sre_c.BRANCH:
            alts = []
            for b in av[1]:
                s = _strings(b, limit)
                if s is None:
                    return None
                alts += s
        elif op is sre_c.SUBPATTERN:
            alts = _strings(av[3], limit)
            if alts is None:
                return None
        elif op is sre_c.IN and all(o is sre_c.LITERAL for o, _ in av):
            alts = [chr(v) for _, v in av]
        elif op is sre_c.AT:
            continue
        elif op is sre_c.MAX_REPEAT and av[0] == 0 and av[1] == 1:
            alts = _strings(av[2], limit)
            if alts is None:
                return None
            alts = [''] + alts
        else:
            return None
        out = [a + b for a in out for b in alts]
        if len(out) > limit:
            return None
    return out


def _find(seq, gid, optional=False):
    """(subpattern, may be absent) of a group."""
    for op, av in seq:
        if op is sre_c.SUBPATTERN:
            if av[0] == gid:
                return av[3], optional
            r = _find(av[3], gid, optional)
            if r:
                return r
        elif op in (sre_c.MAX_REPEAT, sre_c.MIN_REPEAT):
            r = _find(av[2], gid, optional or av[0] == 0)
            if r:
                return r
        elif op is sre_c.BRANCH:
            for b in av[1]:
                r = _find(b, gid, True)
                if r:
                    return r
    return None


@functools.lru_cache(None)
def _finite(pattern, flags, gid):
    t = tree(pattern, flags)
    if t is None or not gid:
        return None
    r = _find(t, gid)
    if r is None:
        return None
    s = _strings(r[0])
    if s is None:
        return None
    return tuple(s) + ((None,) if r[1] else ())


def finite_group(regex, gid):
    if isinstance(gid, str):
        t = tree(regex.pattern, regex.flags)
        gid = t.state.groupdict.get(gid) if t else None
    if isinstance(regex.flags, int) and regex.flags & re.I:
        return None
    return _finite(regex.pattern, regex.flags, gid)


@functools.lru_cache(None)
def _group_optional(pattern, flags, gid):
    t = tree(pattern, flags)
    r = _find(t, gid) if t is not None else None
    return True if r is None else r[1]


def group_optional(regex, gid):
    if gid == 0:
        return False
    return _group_optional(regex.pattern, regex.flags, gid)


def _nullable(seq):
    for op, av in seq:
        if op in (sre_c.MAX_REPEAT, sre_c.MIN_REPEAT):
            if av[0] and not _nullable(av[2]):
                return False
        elif op is sre_c.SUBPATTERN:
            if not _nullable(av[3]):
                return False
        elif op is sre_c.BRANCH:
            if not any(_nullable(b) for b in av[1]):
                return False
        else:
            return False
    return True


def _any_string(op, av, dotall):
    """Does this item match every string?"""
    if op in (sre_c.MAX_REPEAT, sre_c.MIN_REPEAT):
        return (av[0] == 0 and av[1] is sre_c.MAXREPEAT and len(av[2]) == 1
                and av[2][0][0] is sre_c.ANY and dotall)
    if op is sre_c.SUBPATTERN:
        return len(av[3]) == 1 and _any_string(*av[3][0],
                                               dotall or av[1] & re.S)
    return False


@functools.lru_cache(None)
def _total(pattern, flags, how):
    t = tree(pattern, flags)
    if t is None:
        return False
    seq = list(t)
    dotall = bool(t.state.flags & re.S)
    while seq and seq[0][0] is sre_c.AT and seq[0][1] in (
            sre_c.AT_BEGINNING, sre_c.AT_BEGINNING_STRING) \
            and how in ('match', 'fullmatch'):
        seq.pop(0)
    ends = False
    while seq and seq[-1][0] is sre_c.AT and seq[-1][1] in (
            sre_c.AT_END_STRING, sre_c.AT_END):
        seq.pop()
        ends = True
    if not ends and how in ('match', 'search'):
        return _nullable(seq)
    return any(_any_string(op, av, dotall)
               and _nullable(seq[:i]) and _nullable(seq[i + 1:])
               for i, (op, av) in enumerate(seq))


def total(regex, how):
    """True when the expression matches every string."""
    return isinstance(regex.flags, int) and _total(
        regex.pattern, regex.flags, how)


def const_match(regex, how, subject):
    """Constant folding: the match of a literal subject, False when it does
    not match, None when the subject is not a literal."""
    v = getattr(subject, 'v', None)
    if not isinstance(v, str) or not isinstance(regex.flags, int):
        return None
    try:
        m = getattr(re.compile(regex.pattern, regex.flags), how)(v)
    except (re.error, TypeError):
        return None
    return m or False


@functools.lru_cache(None)
def _single(pattern, flags):
    t = tree(pattern, flags)
    if t is None or flags & re.I:
        return None
    seq = list(t)
    while len(seq) == 1 and seq[0][0] is sre_c.SUBPATTERN:
        seq = list(seq[0][1][3])
    if len(seq) != 1:
        return None
    s = _strings(seq)
    if s is None or any(len(c) != 1 for c in s):
        return None
    return tuple(s)


def single_chars(regex):
    """The characters of an expression that matches single characters."""
    return _single(regex.pattern, regex.flags) \
        if isinstance(regex.flags, int) else None
