"""Reference grammar of format strings, written from the README and std::fmt.

parse(text) -> (verdict, pieces): verdict is True (valid), False (invalid) or
None (valid, but uses a feature this library documents as unsupported, so
either answer is allowed). pieces lists the argument references."""
import re

COLORS = set("black red green yellow blue magenta cyan white default brightblack brightred brightgreen brightyellow "
             "brightblue brightmagenta brightcyan brightwhite".split())
INTENSITIES = {"normal", "bold", "faint"}
TYPES = ["x?", "X?", "?", "o", "x", "X", "p", "b", "e", "E", "s", ""]
ALIGN = "<^>"


def ident(s):
    return s != "_" and re.fullmatch(r"[^\W\d]\w*", s) is not None


def attrs_ok(body):
    if body == "":
        return True
    parts = body.split(",")
    if parts[-1] == "":
        parts.pop()
    for a in parts:
        k, eq, v = a.partition("=")
        if eq:
            if k not in ("fg", "bg") or v not in COLORS:
                return False
        elif a not in INTENSITIES:
            return False
    return bool(parts)


def count(s, i):
    """Matches a count at i: (end, supported, valid) or None."""
    m = re.compile(r"[0-9]+|[^\W\d]\w*|_\w*").match(s, i)
    if m and s[m.end():m.end() + 1] == "$":
        return m.end() + 1, False, True
    m = re.compile(r"[0-9]+").match(s, i)
    if m:
        return m.end(), True, int(m.group()) <= 65535
    return None


def spec_ok(s):
    """Verdict of the part after the colon, and its type."""
    i, sup = 0, True
    if len(s) >= 2 and s[1] in ALIGN:
        if s[0] != " ":
            sup = False
        i = 2
    elif s[:1] and s[0] in ALIGN:
        i = 1
    if s[i:i + 1] in ("+", "-"):
        i += 1
    if s[i:i + 1] == "#":
        i += 1
    # `0$` is a width taken from an argument, not the zero flag
    if s[i:i + 1] == "0" and not re.compile(r"[0-9]+\$").match(s, i):
        i += 1
    elif s[i:i + 1] == "0":
        return None, ""
    c = count(s, i)
    if c:
        i, ok, valid = c
        sup = sup and ok
        if not valid:
            return False, ""
    if s[i:i + 1] == ".":
        if s[i + 1:i + 2] == "*":
            sup, i = False, i + 2
        else:
            c = count(s, i + 1)
            if not c:
                return False, ""
            i, ok, valid = c
            sup = sup and ok
            if not valid:
                return False, ""
    if s[i:i + 1] == "(":
        j = s.find(")", i)
        if j < 0 or not attrs_ok(s[i + 1:j]):
            return False, ""
        i = j + 1
    rest = s[i:]
    if rest not in TYPES:
        return False, ""
    return (True if sup else None), rest


def parse(text):
    i, verdict, refs = 0, True, []
    while i < len(text):
        ch = text[i]
        if ch == "{":
            if text[i + 1:i + 2] == "{":
                i += 2
                continue
            # braces as fill characters are not supported by this library
            m = re.compile(r"[^{}]*").match(text, i + 1)
            j = m.end()
            body = text[i + 1:j]
            if body.endswith(":") and text[j + 1:j + 2] and text[j + 1] in ALIGN:
                return None, refs
            if text[j:j + 1] != "}":
                return False, refs
            arg, colon, spec = body.partition(":")
            if arg == "":
                ref = None
            elif re.fullmatch(r"[0-9]+", arg):
                if int(arg) >= 2 ** 16:
                    # no call has that many arguments
                    return False, refs
                ref = int(arg)
            elif ident(arg):
                ref = arg
            else:
                if re.search(r"\s", arg):
                    return (None if arg.strip() == "" or ident(arg.strip()) or arg.strip().isdigit() else False), refs
                return False, refs
            if colon:
                v, ty = spec_ok(spec)
                if v is False:
                    if re.search(r"\s", spec):
                        # white space: only its presence is at issue when the rest is fine
                        v2, _ = spec_ok(re.sub(r"\s", "", spec))
                        if v2 is not False or spec_ok(" " + spec.lstrip())[0] is not False:
                            v = None
                    if v is False:
                        return False, refs
                if v is None:
                    verdict = None
            else:
                ty = ""
            refs.append((ref, ty))
            i = j + 1
        elif ch == "}":
            if text[i + 1:i + 2] != "}":
                return False, refs
            i += 2
        else:
            i += 1
    return verdict, refs


def call(text, npos, names, scope):
    """Verdict of a whole call."""
    v, refs = parse(text)
    if v is False:
        return False
    nxt, used, dc = 0, set(), v is None
    for r, _ in refs:
        if r is None:
            r, nxt = nxt, nxt + 1
        if isinstance(r, int):
            if r >= npos:
                # std lets positions refer to named arguments
                if r < npos + len(names):
                    dc = True
                    used.add(list(names)[r - npos])
                    continue
                return False
            used.add(r)
        elif r in names:
            used.add(r)
        elif r not in scope:
            return False
    if len(set(names)) != len(names):
        return False
    if used != set(range(npos)) | set(names):
        # a count taken from an argument may be what uses it
        return None if "$" in text or "*" in text else False
    return None if dc else True
