"""Translates Python regular expressions into z3 regular expressions."""
import re
import re._constants as C
import re._parser as P

import z3

MAXCH = 0x2ffff


class Untranslatable(Exception):
    pass


RS = z3.ReSort(z3.StringSort())


def _ch(o):
    from .values import zstr
    return zstr(chr(o))


def _rng(a, b):
    return z3.Range(_ch(a), _ch(min(b, MAXCH)))


def _union(rs):
    rs = list(rs)
    if not rs:
        return z3.Empty(RS)
    return rs[0] if len(rs) == 1 else z3.Union(*rs)


def _concat(rs):
    rs = list(rs)
    if not rs:
        return z3.Re(z3.StringVal(''))
    return rs[0] if len(rs) == 1 else z3.Concat(*rs)


ANY = z3.AllChar(RS)
FULL = z3.Full(RS)


def _compl(ivs):
    """Complement of a set of characters given as intervals."""
    out, nxt = [], 0
    for lo, hi in sorted(ivs):
        if lo > nxt:
            out.append((nxt, lo - 1))
        nxt = max(nxt, hi + 1)
    if nxt <= MAXCH:
        out.append((nxt, MAXCH))
    return out


def chars_re(chars, inside=True):
    """One character of ``chars`` (not of it)."""
    ivs = []
    for c in sorted(map(ord, set(chars))):
        if ivs and ivs[-1][1] == c - 1:
            ivs[-1] = (ivs[-1][0], c)
        else:
            ivs.append((c, c))
    return _set(ivs if inside else _compl(ivs))


def _set(ivs):
    return _union([_rng(lo, hi) for lo, hi in ivs])


_D = [(48, 57)]
_W = [(48, 57), (65, 90), (95, 95), (97, 122)]
_S = [(9, 13), (32, 32)]


def _cat(cat, flags):
    """Intervals of a class; ASCII reading: subjects are restricted to ASCII
    by the harnesses that use patterns with classes."""
    t = {C.CATEGORY_DIGIT: _D, C.CATEGORY_WORD: _W, C.CATEGORY_SPACE: _S,
         C.CATEGORY_NOT_DIGIT: _compl(_D), C.CATEGORY_NOT_WORD: _compl(_W),
         C.CATEGORY_NOT_SPACE: _compl(_S)}
    if cat in t:
        return t[cat]
    raise Untranslatable(cat)


def _lit(o, flags):
    if flags & re.IGNORECASE:
        c = chr(o)
        if c.lower() != c.upper():
            return [(ord(x), ord(x)) for x in sorted({c.lower(), c.upper()})
                    if len(x) == 1]
    return [(o, o)]


def _seq(items, flags):
    return _concat([_node(op, av, flags) for op, av in items])


def _node(op, av, flags):
    if op is C.LITERAL:
        return _set(_lit(av, flags))
    if op is C.NOT_LITERAL:
        return _set(_compl(_lit(av, flags)))
    if op is C.ANY:
        if flags & re.DOTALL:
            return ANY
        return _set(_compl([(10, 10)]))
    if op is C.IN:
        neg = False
        rs = []
        for o, a in av:
            if o is C.NEGATE:
                neg = True
            elif o is C.LITERAL:
                rs.extend(_lit(a, flags))
            elif o is C.RANGE:
                if flags & re.IGNORECASE:
                    for k in range(a[0], a[1] + 1):
                        rs.extend(_lit(k, flags))
                else:
                    rs.append(tuple(a))
            elif o is C.CATEGORY:
                rs.extend(_cat(a, flags))
            else:
                raise Untranslatable(o)
        return _set(_compl(rs) if neg else rs)
    if op is C.BRANCH:
        return _union([_seq(b, flags) for b in av[1]])
    if op is C.SUBPATTERN:
        return _seq(av[3], (flags | av[1]) & ~av[2])
    if op in (C.MAX_REPEAT, C.MIN_REPEAT):
        lo, hi, sub = av
        r = _seq(sub, flags)
        if hi is C.MAXREPEAT:
            if lo == 0:
                return z3.Star(r)
            if lo == 1:
                return z3.Plus(r)
            return z3.Concat(z3.Loop(r, lo, lo), z3.Star(r))
        if (lo, hi) == (0, 1):
            return z3.Option(r)
        return z3.Loop(r, lo, hi)
    raise Untranslatable(op)


def _alts(items, flags, how):
    """List of (z3 regex) for a whole match over the subject; handles ^ and $
    at the ends of top-level alternatives only."""
    items = list(items)
    if len(items) == 1 and items[0][0] is C.BRANCH:
        return _union([_alts(b, flags, how) for b in items[0][1][1]])
    pre = post = None
    if how in ('search',):
        pre = FULL
    if how in ('search', 'match'):
        post = FULL
    while items and items[0][0] is C.AT and items[0][1] in (
            C.AT_BEGINNING, C.AT_BEGINNING_STRING):
        if flags & re.MULTILINE:
            raise Untranslatable('multiline')
        items.pop(0)
        pre = None
    while items and items[-1][0] is C.AT and items[-1][1] in (
            C.AT_END, C.AT_END_STRING):
        if flags & re.MULTILINE:
            raise Untranslatable('multiline')
        at = items.pop()[1]
        if how == 'fullmatch' or at is C.AT_END_STRING:
            post = None
        else:
            post = z3.Option(_rng(10, 10))      # $ also before a final \n
    body = [_seq(items, flags)]
    if pre is not None:
        body.insert(0, pre)
    if post is not None:
        body.append(post)
    return _concat(body)


def _literal(items):
    """The text of a sequence of literals, or None."""
    if all(op is C.LITERAL for op, av in items):
        return ''.join(chr(av) for op, av in items)
    return None


def in_re(pat, how, z):
    """z3 condition: ``pat.<how>(z)`` succeeds."""
    from .values import zstr
    tree = P.parse(pat.pattern, pat.flags)
    items = list(tree)
    if not pat.flags & (re.IGNORECASE | re.MULTILINE):
        # plain prefixes and infixes are cheaper than regular expressions
        start = bool(items) and items[0] == (C.AT, C.AT_BEGINNING)
        text = _literal(items[1:] if start else items)
        if text is not None and how == 'match' or (
                text is not None and how == 'search' and start):
            return z3.PrefixOf(zstr(text), z)
        if text is not None and how == 'search':
            return z3.Contains(z, zstr(text))
    return z3.InRe(z, _alts(tree, pat.flags, how))
