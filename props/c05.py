"""C05: permission notation and the mode operators, through the query parser and the matcher."""

from .common import *

LABELS = ("accepted", "refused", "op=", "op:", "op~")
BOUNDS = ("queries perm/mode <op> <value>; symbolic values of one clause with 0-2 who letters and "
          "1-3 permission letters, of two and three clauses with at most 5 letters in total "
          "(quick: letters uoa and rxs, three clauses ga and wX, up to three clauses ug and xX), octal values of 1-4 digits with and without sign, all "
          "strings of up to 4 characters over 'ugoarwxXst+-=,0789 ?'; all 2^12 permission "
          "bits, with octal values also all 2^16 file modes")
ASSUME = ("a missing who part means all, independent of the umask (as in find)",
          "octal numbers above 7777 and permission lists that are empty or copy another who "
          "(u=, g=u) are outside the property")
BUDGET = {"quick": 90, "thorough": 1500}

WHO = "ugoa"
PERM = "rwxXst"
ALPHA = "ugoarwxXst+-=,0789 ?"
OPS = "+-="


def cases(tier):
    full = tier == "thorough"
    for n in range(1, 5):
        yield ("octal", n, "")
        yield ("octal", n, "s")
    shapes = [[(w, p)] for w in (0, 1, 2) for p in (1, 2, 3) if full or w + p < 5]
    for s in shapes:
        yield ("sym", s, WHO, PERM)
    shapes = [[(w, p), (w2, p2)] for w in (0, 1, 2) for p in (1, 2) for w2 in (0, 1)
              for p2 in (1, 2) if full or w + p + w2 + p2 < 5]
    for s in shapes:
        yield ("sym", s, WHO, PERM) if full else ("sym", s, "uoa", "rxs")
    for s in [(1, 1), (1, 1)], [(0, 1), (1, 2)], [(1, 1), (0, 1)], [(1, 1), (1, 1), (1, 1)]:
        yield ("sym", list(s), "ug", "xX")
    for s in [[(1, 1), (1, 1), (1, 1)]] + ([[(1, 1), (1, 2), (1, 1)]] if full else []):
        yield ("sym", s, "ga", "wX")
    for n in range(1, 5 if full else 4):
        yield ("any", n)
    yield ("types", 4)


def clause_bits(who, perms, anyx):
    """The twelve bits (condition per bit value) the permissions denote for the given who."""
    def sel(w):
        if not who:
            return True
        r = False
        for c in who:
            r = r | (c == w) | (c == "a")
        return r

    def has(letter):
        r = False
        for c in perms:
            r = r | (c == letter)
        return r
    r, w, x, s, t = has("r"), has("w"), has("x") | (has("X") & anyx), has("s"), has("t")
    u, g, o = sel("u"), sel("g"), sel("o")
    val = {0o400: r & u, 0o200: w & u, 0o100: x & u, 0o4000: s & u,
           0o040: r & g, 0o020: w & g, 0o010: x & g, 0o2000: s & g,
           0o004: r & o, 0o002: w & o, 0o001: x & o, 0o1000: t & o}
    who_of = {0o400: u, 0o200: u, 0o100: u, 0o4000: u, 0o040: g, 0o020: g, 0o010: g, 0o2000: g,
              0o004: o, 0o002: o, 0o001: o, 0o1000: o}
    return val, who_of


def apply(bits, op, val, who_of):
    out = {}
    for b in bits:
        if op == "+":
            out[b] = bits[b] | val[b]
        elif op == "-":
            out[b] = bits[b] & (val[b] == False)  # noqa: E712 pylint: disable=all
        else:
            out[b] = (bits[b] & (who_of[b] == False)) | val[b]  # noqa: E712
    return out


ALLBITS = [1 << i for i in range(12)]


def oracle_clauses(clauses):
    """chmod starting from zero; clauses are (who, op, permissions)."""
    bits = {b: False for b in ALLBITS}
    for who, op, perms in clauses:
        anyx = bits[0o100] | bits[0o010] | bits[0o001]
        val, who_of = clause_bits(who, perms, anyx)
        bits = apply(bits, op, val, who_of)
    return bits


def oracle_text(text):
    """None: refused; "skip": unspecified; else the bits."""
    clauses = []
    for part in text.split(","):
        if not part:
            return None
        sign = ""
        digits = part
        if part[0] in OPS:
            sign, digits = part[0], part[1:]
        if len(digits) and all(c in "01234567" for c in digits):
            clauses.append((None, sign or "=", digits))
            continue
        i = 0
        while i < len(part) and part[i] in WHO:
            i += 1
        if i == len(part) or part[i] not in OPS:
            return None
        perms = part[i + 1:]
        if not perms:
            return "skip"
        if len(perms) == 1 and perms in "ugo":
            return "skip"
        # several operators in one clause (u+r-w) are chmod's extension
        if not all(c in PERM for c in perms):
            if all(c in PERM or c in OPS or c in "ugo" for c in perms):
                return "skip"
            return None
        clauses.append((list(part[:i]), part[i], list(perms)))
    bits = {b: False for b in ALLBITS}
    for who, op, perms in clauses:
        if who is None:
            n = 0
            for c in perms:
                n = n * 8 + int(c)
            val = {b: bool(n & b) for b in ALLBITS}
            who_of = {b: True for b in ALLBITS}
        else:
            anyx = bits[0o100] | bits[0o010] | bits[0o001]
            val, who_of = clause_bits(who, perms, anyx)
        bits = apply(bits, op, val, who_of)
    return bits


def run(env, case):
    kind = case[0]
    op = env.pick("operator", "=" if kind == "sym" else "=:~")
    if kind in ("octal", "types"):
        sign = env.pick("sign", OPS) if case[2:] == ("s",) else ""
        digits = env.text("digits", case[1], "01234567")
        text = sign + digits
        val = {}
        for i, d in enumerate(reversed(list(digits))):
            for j in range(3):
                val[1 << (3 * i + j)] = bool_(env, d, j)
        bits = {b: val.get(b, False) if sign != "-" else False for b in ALLBITS}
    elif kind == "sym":
        text = ""
        clauses = []
        for i, (nw, np) in enumerate(case[1]):
            who = env.text(f"who{i}", nw, case[2])
            sign = env.pick(f"op{i}", OPS)
            perms = env.text(f"perm{i}", np, case[3])
            clauses.append((list(who), sign, list(perms)))
            text = text + ("," if i else "") + who + sign + perms
        bits = oracle_clauses(clauses)
    else:
        text = env.text("value", case[1], ALPHA)
        # the operator regex would swallow these into the operator or trim them
        env.assume(text[0] != " ")
        bits = oracle_text(text)
    if bits == "skip":
        return
    attr = env.pick("attribute", ("perm", "file.mode")) if kind == "types" else "perm"
    if kind == "types":
        mode = env.bits("mode", 16)
    else:
        mode = env.bits("mode", 12) | 0o100000
    with active(World(D({"w": D({"f": L("x")})}))):
        ctx = context()
        try:
            matcher = Matcher(ctx, [attr + op + text])
        except (X.UsageError, X.ExpressionError):
            env.reach("refused")
            env.check(bits is None, "a valid permission value is refused")
            return
        env.reach("accepted")
        env.check(bits is not None, "an invalid permission value is accepted")
        if bits is None:
            return
        env.reach("op" + op)
        got = matcher.test(entry("f", Status(mode=mode)))
    if op == "=":
        want = True
        for b in ALLBITS:
            want = want & ((mode & b != 0) == bits[b])
    elif op == ":":
        want = True
        for b in ALLBITS:
            want = want & ((mode & b != 0) | (bits[b] == False))  # noqa: E712
    else:
        want = False
        for b in ALLBITS:
            want = want | ((mode & b != 0) & bits[b])
    env.observe(got)
    env.check(got == want, f"perm{op} disagrees with the notation")


def bool_(env, digit, j):
    """Bit j of the octal digit character."""
    r = False
    for d in "01234567":
        if int(d) >> j & 1:
            r = r | (digit == d)
    return r
