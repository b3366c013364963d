"""Patterns and inputs for the regular expression engine."""
import random

ALPH = "abcx"


class Case:
    def __init__(self, cid, pat, flags):
        self.id, self.pat, self.flags, self.runs = cid, pat, flags, []

    def run(self, mode, pieces):
        self.runs.append((mode, pieces))

    def text(self):
        c = lambda s: " ".join([str(len(s))] + [str(x) for x in s])
        return "H %s\nP %d %s\n%s\nE\n" % (self.id, self.flags, c(self.pat), "\n".join(
            "R %d %d%s" % (m, len(p), "".join("\nS " + c(x) for x in p)) for m, p in self.runs))

    def show(self):
        return "pattern %s flags %d\n%s" % (bytes(self.pat), self.flags, self.text())


def lit(r, al):
    c = r.choice(al)
    if c in "\\.()[]*+?{|^$" or r.random() < 0.03:
        return "\\" + c
    return c


def cls(r, al):
    o = "["
    if r.random() < 0.35:
        o += "^"
    if r.random() < 0.12:
        o += "]"
    for _ in range(r.randint(0 if o.endswith("]") else 1, 3)):
        k = r.random()
        esc = lambda c: "\\" + c if c in "]\\-^" else c
        if k < 0.45:
            o += esc(r.choice(al))
        elif k < 0.85:
            a, b = r.choice(al), r.choice(al)
            o += esc(a) + "-" + esc(b)
        else:
            o += r.choice(["-", "\\]", "\\\\", "\\-", "^" if o[-1] != "[" else "."])
    return o + "]"


def term(r, d, al, ids, nl):
    k = r.random()
    if d > 0 and k < 0.33:
        t = "(" + alts(r, d - 1, al, ids, nl) + ")"
    elif k < 0.45:
        t = "."
    elif k < 0.60:
        t = cls(r, al)
    else:
        t = lit(r, al)
    m = 0
    while r.random() < 0.42 and m < 4:
        m += 1
        k = r.random()
        if ids and k < 0.22:
            t += "{%d!}" % r.choice([0, 1, 2, 3, 5, 30, 1000])
        elif k < 0.42:
            t += "*"
        elif k < 0.58:
            t += "+"
        elif k < 0.72:
            t += "?"
        else:
            a, b = r.randint(0, 3), r.randint(0, 4)
            t += r.choice(["{%d}" % a, "{%d,}" % a, "{,%d}" % b, "{%d,%d}" % (min(a, b), max(a, b)), "{%d,%d}" % (a, a + 1), "{0%d,00%d}" % (min(a, b), max(a, b)), "{,}", "{1}", "{0}"])
        if len(t) > 40:
            break
    return t


def seq(r, d, al, ids, nl):
    o = ""
    if ids and r.random() < 0.15:
        o = "{%d!}" % r.randint(1, 4)
    for _ in range(r.choice([0, 1, 1, 2, 2, 3]) if d < 3 else r.choice([1, 2, 2, 3, 4])):
        o += term(r, d, al, ids, nl)
    return o


def alts(r, d, al, ids, nl):
    return "|".join(seq(r, d, al, ids, nl) for _ in range(r.choice([1, 1, 1, 2, 2, 3])))


BROKEN = ["(", ")", "a)", "(a", "*", "+a", "?", "|*", "(*a)", "(|+)", "[", "[]", "[^]", "[a", "[a-", "\\", "a\\", "[\\", "[a-\\", "((a)", "(a))", "a|*", "{1!}*", "({2!}+)", "[^", "[]a", "(a$", "a(b|c"]
ODD = ["{", "a{", "a{2", "a{2,", "a{,", "a{x}", "a{2,1}", "a{}", "a{!}", "a{1!", "a{2!x}", "a{,3", "}", "a}", "]", "a]", "-", "a-b", "^", "$", "^$", "a^", "a^b", "$a", "a$b", "a$$", "\\^a", "a\\$",
       "{a}b", "a{2}{3}", "a{1,2}{2}", "(a|)", "(|a)", "()", "()*", "(()|)+", "", "a||b", "|", "||", "()+", "({2!}|a)*", "(a{2!}|{3!})+b", "[a-]", "[-a]", "[]-a]", "[a\\-c]", "[c-a]", "[x-x]", "[^^]", "[.]", "[*]", "[(]", "x{0}", "(ab){0}c",
       "a{0,0}", "a{0,}", "a{,0}", "a{1,}", "a{1,1}", "(a{1!}b{2!})*", "a{000}", "a{2}{1!}*", "{{2}", "x{{2}", "|{2}", "({3})", "({0!}){,", "{1!}{2!}a", "a*?", "a+*", "a?+", "(a|b$", "{+", "{*a", "|{?"]


def head(r, al):
    """a set of several ranges and characters, not inverted: what a fast forward looks for"""
    lo, o, c = 40, "", []
    for _ in range(r.randint(2, 5)):
        a = min(lo + r.randint(0, 25), 120)
        b = min(a + r.choice([0, 1, 2, 3, 8]), 122)
        lo = b + 1
        q = lambda x: ("\\" if chr(x) in "]\\^-" else "") + chr(x)
        c.append(q(a) if a == b else q(a) + "-" + q(b))
    r.shuffle(c)
    return "[" + "".join(c) + "]"


def search(r, al, ids, nl):
    """a pattern found by fast forward in a long input"""
    t = ["".join([head(r, al) if r.random() < 0.7 else lit(r, al), r.choice(["", "", "+", "{2}", "{1,2}", "{1!}" if ids else ""]),
                  seq(r, 1, al, ids, nl)]) for _ in range(r.choice([1, 1, 2]))]
    return "|".join(t)


def wide(r, pat, al):
    """every character code, few of them from the pattern"""
    s = [r.choice([r.randint(32, 126), r.randint(0, 255), r.randint(40, 60), r.randint(60, 122)]) for _ in range(r.choice([8, 20, 40, 60]))]
    k = r.randint(0, 3)
    for _ in range(k):
        i = r.randrange(len(s))
        s[i:i + 4] = near(r, pat, al)[:4]
    return s


def data(r, al, n):
    return [ord(r.choice(al)) for _ in range(n)]


def splits(r, s):
    k = r.random()
    if k < 0.35:
        return [s]
    if k < 0.5:
        return [[c] for c in s] or [[]]
    out, i = [], 0
    while i < len(s):
        n = r.choice([0, 1, 1, 2, 3, 5])
        out.append(s[i:i + n])
        i += n
    return out or [[]]


def near(r, pat, al):
    """an input from the letters of the pattern"""
    l = [ord(c) for c in pat if ord(c) < 256 and c not in "()|*+?{}\\[]!,"] or [97]
    return [r.choice(l) if r.random() < 0.6 else ord(r.choice(al)) for _ in range(r.choice([0, 1, 2, 3, 5, 8, 8, 12, 16]))]


def cases(n, seed, tag="r"):
    r = random.Random(seed)
    out = []
    for i in range(n):
        flags = r.choice([0, 0, 0, 1, 2, 3, 8, 8, 9, 10, 11, 4, 5, 6, 7, 12, 13, 14, 15])
        nl = flags & 4
        al = r.choice(["ab", "abc", "abx", "ab\n" if nl else "abc", "a\r\nb" if nl else "ab", "abcdefXYZ019", "a\xe9\xff\x80b" if r.random() < .4 else "ab", "a-]^b", "a{}$^,"])
        if r.random() < 0.15:
            al = "ab" + r.choice(["\n", "\r", "\r\n"])
        k = r.random()
        found = k > 0.88
        if found:
            pat = search(r, al, r.random() < 0.4, nl)
        elif k < 0.06:
            pat = r.choice(BROKEN)
        elif k < 0.16:
            pat = r.choice(ODD)
        else:
            pat = alts(r, r.choice([1, 2, 2, 3]), al, r.random() < 0.4, nl)
            if r.random() < 0.2:
                pat = "^" + pat
            if r.random() < 0.2 and not pat.endswith("\\"):
                pat += "$"
            if r.random() < 0.05 and pat:
                p = r.randrange(len(pat))
                pat = pat[:p] + r.choice("()[]{}*+?|\\,!") + pat[p + r.randint(0, 1):]
        if len(pat) > 120:
            continue
        if "1000}" in pat or "1000," in pat:
            continue
        c = Case("%s%d" % (tag, i), [ord(x) for x in pat], flags)
        for _ in range(r.randint(2, 5)):
            s = wide(r, pat, al) if found and r.random() < 0.7 else near(r, pat, al)
            if nl and r.random() < 0.5:
                s = [r.choice([10, 13]) if r.random() < 0.2 else x for x in s]
            c.run(r.choice([0, 0, 0, 1]) | r.choice([0, 2]), splits(r, s))
        out.append(c)
    return out
