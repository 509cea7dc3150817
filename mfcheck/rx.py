"""Facts about regular expressions, from their syntax tree (the pattern is never run)."""
try:
    from re import _parser as sre_parse, _constants as sre_c
except ImportError:  # older
    import sre_parse
    import sre_constants as sre_c
import functools


@functools.lru_cache(maxsize=None)
def parse(pat, flags=0):
    try:
        return sre_parse.parse(pat, flags)
    except Exception:
        return None


@functools.lru_cache(maxsize=None)
def width(pat, flags=0):
    t = parse(pat, flags)
    if t is None:
        return (0, None)
    lo, hi = t.getwidth()
    return int(lo), int(hi)


def _charsets(t, out):
    for op, av in t:
        n = str(op)
        if n == "LITERAL":
            out.add(chr(av))
        elif n in ("NOT_LITERAL", "ANY", "CATEGORY", "RANGE"):
            out.add(None)
        elif n == "IN":
            for o, a in av:
                if str(o) == "LITERAL":
                    out.add(chr(a))
                else:
                    out.add(None)
        elif n in ("MAX_REPEAT", "MIN_REPEAT", "POSSESSIVE_REPEAT"):
            _charsets(av[2], out)
        elif n == "SUBPATTERN":
            _charsets(av[3], out)
        elif n == "ATOMIC_GROUP":
            _charsets(av, out)
        elif n == "BRANCH":
            for b in av[1]:
                _charsets(b, out)
        elif n in ("ASSERT", "ASSERT_NOT", "AT"):
            pass
        elif n in ("GROUPREF", "GROUPREF_EXISTS"):
            out.add(None)
        else:
            out.add(None)


@functools.lru_cache(maxsize=None)
def single_char(pat, flags=0):
    """the only character any match can contain, or None"""
    t = parse(pat, flags)
    if t is None:
        return None
    out = set()
    _charsets(t, out)
    if len(out) == 1:
        return next(iter(out))
    return None


@functools.lru_cache(maxsize=None)
def mandatory(pat, flags=0):
    """literal substrings every match contains"""
    t = parse(pat, flags)
    if t is None:
        return ()
    out = []
    cur = []

    def flush():
        if cur:
            out.append("".join(cur))
            cur.clear()

    def walk(t):
        for op, av in t:
            n = str(op)
            if n == "LITERAL":
                cur.append(chr(av))
            elif n == "SUBPATTERN":
                walk(av[3])
            elif n in ("MAX_REPEAT", "MIN_REPEAT"):
                flush()
                if av[0] >= 1:
                    sub = []
                    walk(av[2])
                    flush()
            elif n in ("ASSERT", "ASSERT_NOT", "AT"):
                pass
            else:
                flush()
    walk(t)
    flush()
    return tuple(out)


@functools.lru_cache(maxsize=None)
def may_match_chars(pat, chars, flags=0):
    """which of `chars` can occur in a match (over-approximation)"""
    t = parse(pat, flags)
    if t is None:
        return set(chars)
    import re
    found = set()

    def cat(a, c):
        s = str(a)
        sp = c.isspace()
        if s.endswith("CATEGORY_NOT_SPACE"):
            return not sp
        if s.endswith("CATEGORY_SPACE"):
            return sp
        if s.endswith("CATEGORY_NOT_DIGIT"):
            return not c.isdigit()
        if s.endswith("CATEGORY_DIGIT"):
            return c.isdigit()
        return True

    def in_set(av, c):
        neg = False
        hit = False
        for o, a in av:
            n = str(o)
            if n == "NEGATE":
                neg = True
            elif n == "LITERAL":
                hit |= chr(a) == c
            elif n == "RANGE":
                hit |= a[0] <= ord(c) <= a[1]
            elif n == "CATEGORY":
                hit |= cat(a, c)
        return hit != neg

    def walk(t):
        for op, av in t:
            n = str(op)
            if n == "LITERAL":
                if chr(av) in chars:
                    found.add(chr(av))
            elif n == "NOT_LITERAL":
                found.update(c for c in chars if c != chr(av))
            elif n == "ANY":
                found.update(c for c in chars if c != "\n")
            elif n == "IN":
                found.update(c for c in chars if in_set(av, c))
            elif n in ("MAX_REPEAT", "MIN_REPEAT", "POSSESSIVE_REPEAT"):
                walk(av[2])
            elif n == "SUBPATTERN":
                walk(av[3])
            elif n == "BRANCH":
                for b in av[1]:
                    walk(b)
    walk(t)
    return found


@functools.lru_cache(maxsize=None)
def anchored(pat, flags=0):
    """does the pattern only match at the start of the string"""
    import re
    if flags & re.MULTILINE:
        return False
    t = parse(pat, flags)
    if t is None or not len(t):
        return False
    op, av = t[0]
    return str(op) == "AT" and str(av) in ("AT_BEGINNING", "AT_BEGINNING_STRING")


@functools.lru_cache(maxsize=None)
def prefix(pat, flags=0):
    """literal text every match begins with"""
    t = parse(pat, flags)
    if t is None:
        return ""
    out = []

    def walk(t):
        for op, av in t:
            n = str(op)
            if n == "LITERAL":
                out.append(chr(av))
            elif n == "SUBPATTERN":
                if not walk(av[3]):
                    return False
            elif n in ("ASSERT", "ASSERT_NOT", "AT"):
                pass
            else:
                return False
        return True
    import re
    if flags & re.IGNORECASE:
        return ""
    walk(t)
    return "".join(out)


@functools.lru_cache(maxsize=None)
def head_char(pat, flags=0):
    """character such that the pattern matches at the start of every text that starts with it, taking it alone"""
    import re
    t = parse(pat, flags)
    if t is None or flags & re.IGNORECASE:
        return None
    ops = [(str(op), av) for op, av in t]
    while ops and ops[0][0] == "ASSERT_NOT" and ops[0][1][0] < 0 and ops[0][1][1].getwidth()[0] > 0:
        ops = ops[1:]
    if len(ops) == 1 and ops[0][0] == "LITERAL":
        return chr(ops[0][1])
    return None


@functools.lru_cache(maxsize=None)
def not_after(pat, flags=0):
    """characters a match never directly follows (leading negative lookbehinds of one character)"""
    t = parse(pat, flags)
    out = set()
    for op, av in t or ():
        if str(op) != "ASSERT_NOT":
            break
        if av[0] < 0 and len(av[1]) == 1 and str(av[1][0][0]) == "LITERAL":
            out.add(chr(av[1][0][1]))
    return out


@functools.lru_cache(maxsize=None)
def group_count(pat, flags=0):
    t = parse(pat, flags)
    return 0 if t is None else t.state.groups - 1


@functools.lru_cache(maxsize=None)
def group_names(pat, flags=0):
    t = parse(pat, flags)
    return None if t is None else tuple(t.state.groupdict)


@functools.lru_cache(maxsize=None)
def group_info(pat, g, flags=0):
    """(min width, max width, always participates, literal prefix) of a group"""
    t = parse(pat, flags)
    if t is None:
        return None
    if isinstance(g, str):
        g = t.state.groupdict.get(g)
        if g is None:
            return None
    found = []

    def walk(t, mand):
        for op, av in t:
            n = str(op)
            if n == "SUBPATTERN":
                if av[0] == g:
                    lo, hi = av[3].getwidth()
                    found.append((int(lo), int(hi) if hi < 2000 else None, mand))
                walk(av[3], mand)
            elif n in ("MAX_REPEAT", "MIN_REPEAT", "POSSESSIVE_REPEAT"):
                walk(av[2], mand and av[0] >= 1)
            elif n == "BRANCH":
                for b in av[1]:
                    walk(b, False)
            elif n == "ATOMIC_GROUP":
                walk(av, mand)
    walk(t, True)
    if not found:
        return None
    lo, hi, m = found[0]
    return (lo, hi, m, "")


def _blank_possible(av):
    neg = any(str(o) == "NEGATE" for o, a in av)
    if neg:
        out = set()
        for o, a in av:
            if str(o) == "CATEGORY" and str(a).endswith("CATEGORY_SPACE"):
                return False
        return True
    for o, a in av:
        n = str(o)
        if n == "LITERAL" and chr(a).isspace() or n == "RANGE" and any(chr(c).isspace() for c in range(a[0], min(a[1], a[0] + 4096) + 1)):
            return True
        if n == "CATEGORY" and not str(a).endswith(("CATEGORY_NOT_SPACE", "CATEGORY_DIGIT", "CATEGORY_WORD")):
            return True
    return False


def edge(ops, last):
    """True: begins (ends) in a non-blank; None: may be empty, else begins in a non-blank; False: not known"""
    for op, av in (reversed(ops) if last else ops):
        n = str(op)
        if n in ("AT", "ASSERT", "ASSERT_NOT"):
            continue
        if n == "LITERAL":
            return not chr(av).isspace()
        if n == "IN":
            return not _blank_possible(av)
        if n == "SUBPATTERN":
            r = edge(list(av[3]), last)
        elif n in ("MAX_REPEAT", "MIN_REPEAT", "POSSESSIVE_REPEAT"):
            r = edge(list(av[2]), last)
            if r and av[0] == 0:
                r = None
        elif n == "BRANCH":
            rs = [edge(list(b), last) for b in av[1]]
            r = False if False in rs else None if None in rs else True
        else:
            return False
        if r is not None:
            return r
    return None


@functools.lru_cache(maxsize=None)
def solid(pat, flags=0, last=True):
    """is every match non-empty with a last (first) character that is not white space"""
    t = parse(pat, flags)
    return t is not None and edge(list(t), last) is True


@functools.lru_cache(maxsize=None)
def lead(pat, flags=0):
    """(least, most or None) number of blanks at the start of every text the pattern matches, for patterns `^ {m,n}x`"""
    if not anchored(pat, flags):
        return None
    ops = list(parse(pat, flags))[1:]
    mn = mx = 0
    if ops and str(ops[0][0]) in ("MAX_REPEAT", "MIN_REPEAT"):
        lo, hi, body = ops[0][1]
        if len(body) == 1:
            n, av = str(body[0][0]), body[0][1]
            if n == "LITERAL" and chr(av).isspace() or n == "IN" and all(
                    str(o) == "LITERAL" and chr(c).isspace() or str(o) == "CATEGORY" and str(c) == "CATEGORY_SPACE" for o, c in av):
                mn, mx = lo, None if hi > 10 ** 6 else int(hi)
                ops = ops[1:]
    if edge(ops, False) is not True or (mn == 0 and mx is None):
        return None
    return mn, mx


@functools.lru_cache(maxsize=None)
def blank_after(pat, g, flags=0):
    """does nothing but white space follow group g (a top level group) in a match, at most one character"""
    t = parse(pat, flags)
    if t is None:
        return False
    ops = list(t)
    for i, (op, av) in enumerate(ops):
        if str(op) == "SUBPATTERN" and av[0] == g:
            rest = t[i + 1:]
            lo, hi = rest.getwidth()
            if hi > 1:
                return False

            def only(t):
                for op, av in t:
                    n = str(op)
                    if n == "LITERAL":
                        if not chr(av).isspace():
                            return False
                    elif n in ("AT", "ASSERT", "ASSERT_NOT"):
                        pass
                    elif n == "IN":
                        if any(not (str(o) == "LITERAL" and chr(a).isspace() or str(o) == "CATEGORY" and str(a).endswith("CATEGORY_SPACE")) for o, a in av):
                            return False
                    elif n == "SUBPATTERN":
                        if not only(av[3]):
                            return False
                    elif n == "BRANCH":
                        if not all(only(b) for b in av[1]):
                            return False
                    elif n in ("MAX_REPEAT", "MIN_REPEAT"):
                        if not only(av[2]):
                            return False
                    else:
                        return False
                return True
            return only(rest)
    return False


@functools.lru_cache(maxsize=None)
def margin(pat, flags=0):
    """(any white space or only spaces, least, most or None, literal) of a pattern `^ {m,n}text`"""
    import re
    t = parse(pat, flags)
    if t is None or flags & (re.IGNORECASE | re.MULTILINE | re.ASCII):
        return None
    ops = [(str(op), av) for op, av in t]
    if ops and ops[0][0] == "AT" and str(ops[0][1]) in ("AT_BEGINNING", "AT_BEGINNING_STRING"):
        ops = ops[1:]
    if len(ops) < 2 or ops[0][0] not in ("MAX_REPEAT", "MIN_REPEAT"):
        return None
    lo, hi, body = ops[0][1]
    if len(body) != 1:
        return None
    n, av = str(body[0][0]), body[0][1]
    if n == "LITERAL" and chr(av) == " ":
        every = False
    elif n == "IN" and len(av) == 1 and str(av[0][0]) == "CATEGORY" and str(av[0][1]) == "CATEGORY_SPACE":
        every = True
    else:
        return None
    if any(op != "LITERAL" for op, _ in ops[1:]):
        return None
    text = "".join(chr(av) for _, av in ops[1:])
    if not text or text[0].isspace():
        return None
    return every, lo, None if hi > 10 ** 6 else int(hi), text


def only_blank(pat, flags=0):
    """every match consists of white space only, and none of it is captured"""
    def node(op, av):
        name = str(op)
        if name == "LITERAL":
            return chr(av).isspace()
        if name == "IN":
            for o, a in av:
                o = str(o)
                if o == "LITERAL":
                    if not chr(a).isspace():
                        return False
                elif o == "RANGE":
                    if a[1] - a[0] > 64 or not all(chr(c).isspace() for c in range(a[0], a[1] + 1)):
                        return False
                elif o != "CATEGORY" or str(a) != "CATEGORY_SPACE":
                    return False
            return True
        if name in ("MAX_REPEAT", "MIN_REPEAT", "POSSESSIVE_REPEAT"):
            return seq(av[2])
        if name == "SUBPATTERN":
            return av[0] is None and seq(av[3])
        if name == "ATOMIC_GROUP":
            return seq(av)
        if name == "BRANCH":
            return all(seq(b) for b in av[1])
        return name in ("AT", "ASSERT", "ASSERT_NOT")

    def seq(ops):
        return all(node(o, a) for o, a in ops)
    try:
        return seq(parse(pat, flags))
    except Exception:
        return False
