"""The patterns a simulation is built with: a curated list that spans the documented syntax, and seeded random ones."""
import random

I, S, M, U, X = 1, 2, 4, 8, 16      # icase, dotall, multiline, ungreedy, unroll
FLAG_NAMES = {I: "icase", S: "dotall", M: "multiline", U: "ungreedy", X: "unroll"}

# (pattern, flags, tags). Tags: z may match nothing repeatedly; l lazy-friendly (finds several matches in a text);
# n named groups; g several groups (owning results); c core: always included
CURATED = [
    # literals, classes, escapes
    (r"a", 0, "lc"), (r"ab", 0, "lc"), (r"abc", I, "l"), (r"a.c", 0, "l"), (r"a.c", S, ""), (r".", 0, "l"), (r"..", S, "l"),
    (r"\d", 0, "l"), (r"\D\w\W", 0, ""), (r"\s\S", 0, "l"), (r"\R\N", 0, ""), (r"\N+", S, "l"), (r"\x41\x7a", 0, ""), (r"\x41\xfF", I, ""),
    (r"\0\t\n", 0, ""), (r"\f\v\a\e", 0, ""), (r"\.\*\c\-\/", 0, ""), (r"a{b", 0, ""), (r"a{+", 0, ""), (r"\xe9[\x80-\xff]", 0, ""),
    (r"[abc]", 0, "l"), (r"[^abc]", 0, "l"), (r"[a-f0-9]", I, "l"), (r"[^a-z\d]", I, "l"), (r"[]", 0, ""), (r"[^]", 0, "l"), (r"[^]x", 0, ""),
    (r"[-a]", 0, "l"), (r"[a-]", 0, "l"), (r"[+-.]", 0, ""), (r"[\w.-]+", 0, "l"), (r"[\b\]\^]", 0, ""), (r"[Z-a]", I, "l"), (r"[!-~]", 0, "l"),
    (r"[\12$^.]", 0, ""), (r"[\s\S]", 0, "l"), (r"[^\D]x?", 0, "l"), (r"[@-\[]", I, "l"), (r"[`-{]", I, "l"),
    # quantifiers on characters
    (r"a*", 0, "lzc"), (r"a+", 0, "lc"), (r"a?", 0, "lz"), (r"a*?", 0, "lz"), (r"a+?b", 0, "l"), (r"a??b", 0, "l"), (r"a*+b", 0, "l"),
    (r"a++a", 0, ""), (r"a?+a", 0, "l"), (r"a{3}", 0, "l"), (r"a{3}", X, "l"), (r"a{2,4}", 0, "l"), (r"a{2,4}?", 0, "l"), (r"a{2,4}+a", 0, ""),
    (r"a{2,}", 0, "l"), (r"a{2,}?b", 0, "l"), (r"a{0}b", 0, "l"), (r"a{0,2}a", 0, "l"), (r"[ab]{2,3}c", X, "l"), (r".*b", 0, "l"), (r".*?b", 0, "l"),
    (r".*+", 0, "l"), (r"a*", U, "lz"), (r"a*?b", U, "l"), (r"a+b?", U, "l"), (r"a{1,3}", U, "l"), (r"a{12}b?", 0, ""), (r"a{10,11}", X, ""),
    (r"\w+\s", 0, "l"), (r"\d{1,2}/\d{1,2}/\d{2,4}", 0, "lc"), (r"[^,]*,", 0, "l"), (r"x*y*z*", 0, "lz"),
    # quantifiers on groups
    (r"(?:ab)*", 0, "lz"), (r"(?:ab)+c", 0, "l"), (r"(?:ab)+?c", 0, "l"), (r"(?:ab|a)*+b", 0, ""), (r"(?:ab){2}", 0, "l"), (r"(?:ab){2}", X, "l"),
    (r"(?:ab?){2,3}", 0, "l"), (r"(?:ab?){2,3}?c", X, "l"), (r"(?:a|b)*abb", 0, "l"), (r"(?:a*)*", 0, "z"), (r"(?:a*)+b", 0, "z"),
    (r"(?:a?b?)*?c", 0, "z"), (r"(?:a?){2,4}", 0, "z"), (r"(?:a?)*+b", 0, "z"), (r"(?:a|b?)+", 0, "z"), (r"(?:a*b*)*c?", 0, "z"), (r"(?:(?:a?)*)*b?", 0, "z"),
    (r"(?:a?|b)*?$", 0, "z"), (r"(?:a+?b??)+", U, "z"), (r"(?:a|ab)(?:c|bcd)", 0, "l"), (r"(?:ab?)++b", 0, ""), (r"(?:a{2}){3}", 0, ""),
    (r"(?:a{2,3}){2}", X, ""), (r"(?:\w{2}){2}+\w", 0, "l"), (r"(?:(?:ab){1,2}c){2}", 0, ""), (r"(?:^a)*", 0, "z"), (r"(?:\b)*a", 0, "z"),
    # alternation
    (r"a|b", 0, "lc"), (r"a|ab|abc", 0, "l"), (r"abc|ab|a", 0, "l"), (r"cat|dog|bird", I, "lc"), (r"(?:a|b|cd)e", 0, "l"), (r"a(?:)b|c", 0, "l"),
    (r"foo(?:bar)?|baz", 0, "l"), (r"a|b*|c", 0, "lz"), (r"\d+|[a-z]+|\s", 0, "lc"),
    # captures
    (r"(a)(b)(c)", 0, "lgc"), (r"(a)|(b)", 0, "lg"), (r"(a)|(b)|(c)(d)", 0, "lg"), (r"(a+)(b*)", 0, "lgc"), (r"((a)(b(c)?))d?", 0, "lg"),
    (r"(a)+", 0, "lg"), (r"(a|b)+c", 0, "lg"), (r"(a)*b", 0, "lg"), (r"(?:(a)|(b))+c", 0, "lg"), (r"(a*)(a*)(a?)", 0, "g"), (r"(a*?)(a+)$", 0, "g"),
    (r"(\w+)@(\w+)\.com", I, "lgc"), (r"(?<year>\d{4})-(?<month>\d\d)(?:-(?<day>\d\d))?", 0, "lgnc"), (r"(?<k>\w+)=(?<v>[^;]*);?", 0, "lgnc"),
    (r"(?<a>x)|(?<b>y)(?<c>z)?", 0, "lgn"), (r"(.)(.)(.)(.)(.)(.)(.)(.)(.)(.)(.)", 0, "g"), (r"(a(b(c(d)?)?)?)?", 0, "gz"), (r"()a()", 0, "g"),
    (r"(a{2,3})(a{1,2}?)(a*)", 0, "lg"), (r"(a|ab)(c|bcd)(d*)", 0, "g"), (r"(?:(x)y|xz)+", 0, "g"), (r"(?:(a)|b)*", 0, "gz"), (r"((a)|b)*?c", U, "g"),
    (r"(a){2}b", X, "g"), (r"(ab?){2,3}", 0, "g"), (r"(ab?){2,3}+b?", X, "g"), (r"((?:a|b)(c)?)+", 0, "lg"), (r"(a+)+?b", 0, "g"),
    # back references
    (r"(a|b)\1", 0, "lgc"), (r"(\w)\1", I, "lg"), (r"(\w+) \1", 0, "lg"), (r"(?<q>['" + '"' + r"]).*?\k<q>", 0, "lgn"), (r"(a*)b\1", 0, "lg"), (r"(a)?b\1c", 0, "g"),
    (r"(a)(b)\2\1", 0, "lg"), (r"(?:(a)|b\1)+", 0, "g"), (r"(a+)\1+", 0, "g"), (r"(..)\1", S, "lg"), (r"(?:(.)\1)*x", 0, "g"), (r"(a?)\1{2}b", 0, "g"),
    (r"(.)(.)(.)(.)(.)(.)(.)(.)(.)(.)\10", 0, "g"), (r"(a)(?:\1)0", 0, "g"), (r"(?<x>a+)b\k<x>c", I, "gn"), (r"(\1a)+", 0, "g"), (r"(b|\1)b", 0, "lg"), (r"(a|\1b)+c?", 0, "lg"), (r"(?:(ab|\1)b)+", 0, "g"), (r"(a|b\1|\1c){2}", X, "g"),
    # anchors and boundaries
    (r"^a", 0, "l"), (r"a$", 0, "l"), (r"^a$", M, "lc"), (r"^\w+$", M, "lc"), (r"^", M, "z"), (r"$", M, "z"), (r"\Aa", M, "l"), (r"a\Z", M, "l"), (r"(?:^|,)\w", 0, "l"),
    (r"(?:a$\R?)+", M, "z"), (r"^.*$", M, "l"), (r"^.*$", S | M, ""), (r"(?:^a\n?)*b", M, "z"), (r"x*$", 0, "lz"),
    (r"a(?:(?<=ab*)b){3}", 0, "l"), (r"a(?:(?<=ab*)b){3}", X, "l"), (r"a(?:(?<=ab*)b)+c?", 0, "l"), (r"a(?:(?<=ab*)b)+?c", 0, "l"), (r"a(?:(?<=ab*)b){2,}+c?", 0, "l"),
    (r"(?<=(?:b(?=b*c)){3})c", 0, "l"), (r"a(?:b(?<=\Aab*)){1,3}?c", 0, ""), (r"a(?=(b(?<=ab*))+c)b", 0, "g"), (r"a(?:(?<=(a)b*)b)*c\1", 0, "g"),
    (r"a((?<=a)b)", 0, "lg"), (r"a(\B\w|\b )+", 0, "lg"), (r"a(?:\B\w)+?c", 0, "l"), (r"a(?:(?<=a|b)b)*+c?", 0, "l"), (r"a(?:\b |\Bb){2}c?", 0, "l"),
    (r"a(?:\b |\Bb){2}c?", X, "l"), (r"a(?:\b |\Bb){2}+c?", 0, ""), (r"a(?>\Bb|\b )c?", 0, "l"), (r"a(?=\Bb)b", 0, "l"), (r"a(?!\bb)b?", 0, "l"), (r"a(?!(?<=b)|(?<=a)b).", 0, ""),
    (r"a(?:(?<=b)x|(?<=a)b|\b )", 0, "l"), (r"(?<=a\Bb)c", 0, "l"), (r"(?<=(\Bb))c", 0, "g"), (r"(?<=(?:a\b ?)+)c", 0, ""), (r"(?<=a(?!\b)b)c", 0, ""), (r"(?<=(?>a|ab\B)c)d", 0, ""),
    (r"a(\n(^b))+", M, "lg"), (r"(?:(^)a\n?)+", M, "g"), (r"(b$\n?)+", M, "lg"), (r"a\n(?=^b|(^c))", M, "lg"), (r"a\n(?:^b\n?){2}", M, ""), (r"a\n(?:^b\n?){2,}?c", M | X, ""),
    (r"\bcat\b", 0, "lc"), (r"\b\w+\b", 0, "lc"), (r"\Ba\B", 0, "l"), (r"\w\b.", 0, "l"), (r"\b", 0, "z"), (r"\B", 0, "z"),
    # look-around
    (r"a(?=b)", 0, "lc"), (r"a(?!b)", 0, "lc"), (r"(?=ab)a", 0, "l"), (r"(?!ab)a.", 0, "l"), (r"a(?=(b+))", 0, "lg"), (r"(?=(\w+))\1:", 0, "g"), (r"(?!(a)b)(a)", 0, "g"),
    (r"\w+(?=,|$)", 0, "l"), (r"(?=.*\d)(?=.*[a-z]).{2,}", 0, ""), (r"(?:(?=a)a|b)+", 0, ""), (r"(?:a(?!c))*", 0, "z"), (r"(?:(?=a))*a", 0, "z"), (r"c\1|(?=(a))ab", 0, "g"),
    (r"(?<=a)b", 0, "lc"), (r"(?<!a)b", 0, "lc"), (r"(?<=ab)c", 0, "l"), (r"(?<=a+)b", 0, "l"), (r"(?<=^|,)\w", 0, "l"), (r"(?<=\bx)y", 0, "l"), (r"(?<=(a)(b))c", 0, "lg"),
    (r"(?<=(\w)\1)c", 0, "g"), (r"(a)b(?<=\1b)c", 0, "g"), (r"(?<!ab|cd)e", 0, "l"), (r"(?<=a.{2})b", S, "l"), (r"(?<=a*?b{2,3})c", 0, ""), (r"(?<=(?=ab)a)b", 0, "l"),
    (r"(?<=(?<=a)b)c", 0, "l"), (r"(?<=(?<!a)b)c", 0, "l"), (r"(?<=(?!ba).)b", 0, ""), (r"(?<=^a\n?)b", M, ""), (r"(?<=a$.)b", M | S, ""), (r"(?=(?<=a)b)b", 0, ""),
    (r"(?<=\Aa)b", 0, ""), (r"(?<=(?=(.)b)a)b\1", 0, "g"), (r"(?<=(?:ab?){2})c", X, ""), (r"(?<=(?>a|ab)c)d", 0, ""), (r"(?<=(a|b)+)c", 0, "g"), (r"(?<=[^a]{2})b", 0, "l"),
    # atomic
    (r"(?>a+)b", 0, "l"), (r"(?>a|ab)c", 0, ""), (r"(?>ab?)b", 0, "l"), (r"(?>(a+))(b)?", 0, "g"), (r"(?:(?>a+)b)*", 0, "z"), (r"(?>a*?)b", 0, "l"), (r"(?:(?>(a)|b)c)+", 0, "g"),
    (r"(?>(?:a|ab)(?:c|bcd))d?", 0, ""), (r"(?:a|(?>(b)c))\1", 0, "g"),
    # large counts, many groups, many branches, deep nesting (h: not for forward iterators)
    (r"a{300}", 0, "l"), (r"a{300}", X, ""), (r"[ab]{0,300}c", 0, "lh"), (r"a{250,260}?b", 0, "l"), (r"(?:ab){130}", 0, ""), (r"(ab?){260,}c?", 0, "g"),
    (r"a{2,300}+b", 0, "l"), (r"(?:ab){257}+c", 0, ""), (r".{1000}", S, "l"), (r"a{65540}", 0, "h"), (r"[ab]{2,65545}c", 0, "h"), (r"(a{256,})(b)?", 0, "lg"),
    (r"(?:a|b){20,40}?c", 0, ""), (r"x{17}y{33,}", X, ""),
    (r"(a)(b)(c)(d)(e)(f)(g)(h)(i)(j)(k)(l)(m)(n)(o)(p)(q)(r)(s)(t)", I, "g"), (r"(\w)(\w)(\w)(\w)(\w)(\w)(\w)(\w)(\w)(?<j>\w)(?<k>\w)(?<l>\w)\k<k>\12", 0, "gnc"),
    (r"(?:(a)|(b)|(c)|(d)|(e)|(f)|(g)|(h)|(i)|(j)|(k)|(l)|(m)|(n)|(o)|(p)|(q))+x?", 0, "lg"),
    (r"a|b|c|d|e|f|g|h|ij|k|l|m|n|op|qr|s", 0, "l"), (r"(?:(?:(?:(?:(?:(?:a|b)c)*d)?e)+f)?g)+", 0, "l"), (r"(((((((((a)))))))))b?", 0, "lg"),
    (r"a(?=b(?=c(?=d(?!e))))", 0, "l"), (r"(?<=(?<=(?<=a)b)c)d", 0, "l"), (r"(?>a(?>b(?>c*)c?)b?)d?", 0, "l"), (r"[a-cx-z0-3_\s!-%\x80-\x8f]+", I, "l"),
    # realistic
    (r"(?:ftp|ssh|https?)://(?<domain>[-.a-z]+)\.com(?:/\S*)?", I, "lgn"), (r'"(?:[^"\\]|\\.)*"', 0, "l"), (r"[+-]?\d+(?:\.\d+)?(?:e[+-]?\d+)?", I, "l"),
    (r"#(?:[0-9a-f]{3}){1,2}\b", I, "l"), (r"(?<h>[01]?\d|2[0-3]):(?<m>[0-5]\d)", 0, "lgn"), (r"<(\w+)>[^<]*</\1>", 0, "lg"), (r"^\s*(\w+)\s*=\s*(.*?)\s*$", M, "lg"),
    (r"(?:\d{1,3}\.){3}\d{1,3}", X, "l"), (r"\s+$", M, "l"), (r"(?:[^\W\d_]|')+", 0, "l"),
]

XPR = [   # (C++ expression, equivalent pattern, flags, tags)
    ("+word >> !ahead(word)", r"\w+(?!\w)", 0, "l"),
    ("str<\"ab\"> | str<\"cd\"> | chr<'e'>", r"ab|cd|e", 0, "l"),
    ("capture<1>(+digit) >> chr<'-'> >> capture<2>(*lower)", r"(\d+)-([a-z]*)", 0, "lg"),
    ("capture<1, \"w\">(one_or_more(word)) >> whitespace >> group_named<\"w\">", r"(?<w>\w+)\s\k<w>", 0, "lgn"),
    ("between<2, 3, match_mode::lazy>(chr<'a'>) >> maybe(chr<'b'>)", r"a{2,3}?b?", 0, "l"),
    ("exactly<2>(str<\"ab\">, maybe(digit)) >> end_input", r"(?:ab\d?){2}\Z", 0, ""),
    ("at_least<2, match_mode::possessive>(range<'a','f'>) >> wildcard", r"[a-f]{2,}+.", 0, "l"),
    ("behind(chr<'a'>, *digit) >> chr<'b'>", r"(?<=a\d*)b", 0, "l"),
    ("atomic(*chr<'a'>, maybe(chr<'b'>)) >> chr<'b'>", r"(?>a*b?)b", 0, ""),
    ("either(begin_line, chr<','>) >> capture<1>(*!chr<','>) >> ahead(end_line | chr<','>)", r"(?:^|,)([^,]*)(?=$|,)", M, "lg"),
    ("concat(str<\"abc\">, zero_or_more<match_mode::lazy>(upper), str<\"de\">)", r"abc[A-Z]*?de", 0, "l"),
    ("word_boundary >> regex<\"[a-c]+\"> >> !word_boundary", r"\b[a-c]+\B", 0, "l"),
    ("str<\"Hello\"> >> *whitespace >> (str<\"you\"> | linebreak)", r"Hello\s*(?:you|\R)", I, "l"),
    ("+(capture<1>(chr<'a'> | chr<'b'>) >> group<1>)", r"(?:(a|b)\1)+", 0, "lg"),
]

def uses_bidi(p):
    i = 0
    while i < len(p):
        if p[i] == '\\':
            if p[i + 1] in 'bB' : 
                # inside a set \b is a backspace; callers only need a safe answer
                return True
            i += 2
            continue
        if p.startswith('(?<=', i) or p.startswith('(?<!', i):
            return True
        i += 1
    return False

class Gen:
    """Random patterns inside the documented syntax."""
    def __init__(self, rng, bidi, groups=True, tame=False):
        self.r, self.bidi, self.groups, self.tame = rng, bidi, groups, tame
        self.ncap, self.open, self.names, self.nlook = 0, [], [], 0
        self.alpha = rng.choice(["ab", "abc", "aAb", "ab1_", "xyz", "a\\n", "01a"])
        self.flags = 0
        for f, p in ((I, .25), (S, .15), (M, .3), (U, .15), (X, .3)):
            if rng.random() < p:
                self.flags |= f

    def lit(self):
        r = self.r
        if self.alpha == "a\\n":
            return r.choice(["a", "\\n", "b", "\\r"])
        return r.choice(self.alpha)

    def cls(self):
        r = self.r
        k = r.random()
        if k < .35:
            return r.choice([".", "\\d", "\\w", "\\s", "\\D", "\\W", "\\S", "\\N", "\\R"])
        items = []
        for _ in range(r.randint(1, 3)):
            q = r.random()
            if q < .5:
                items.append(self.lit())
            elif q < .8:
                items.append(r.choice(["a-c", "A-C", "0-9", "b-y", "Y-b", "\\x61-\\x7a", "a-a", " -/", "M-~"]))
            else:
                items.append(r.choice(["\\d", "\\w", "\\s", "\\W", "\\n", "_", "\\x41", "\\-", "\\]", ".", "$", "*"]))
        return "[" + ("^" if r.random() < .3 else "") + "".join(items) + "]"

    def quant(self, depth, zero_ok=True):
        r = self.r
        base = r.choice(["*", "+", "?", "?", "{2}", "{1,2}", "{2,3}", "{0,2}", "{1,}", "{3}", "{2,}", "{1}", "{0,1}"] if depth < 2 else
                        ["?", "{2}", "{1,2}", "{0,2}", "*", "+"])
        if depth < 2 and r.random() < .08:
            base = r.choice(["{4}", "{5}", "{4,6}", "{7}", "{8,9}", "{3,}", "{9}", "{16}", "{0,5}", "{17}", "{9,20}", "{33,}", "{0,40}"])
        return base + r.choice(["", "", "", "?", "+"])

    def atom(self, depth):
        """returns (text, quantifiable)"""
        r = self.r
        k = r.random()
        if depth > 3 or k < .42:
            return self.lit(), True
        if k < .54:
            return self.cls(), True
        if k < .64 and self.groups and self.ncap < 5:
            self.ncap += 1
            me = self.ncap
            nm = ""
            if r.random() < .2:
                nm = "?<%s>" % "nmpqr"[me - 1]
            self.open.append(me)
            inner = self.alt(depth + 1)
            self.open.pop()
            if nm:
                self.names.append((nm[2], me))
            return "(" + nm + inner + ")", True
        if k < .74:
            return "(?:" + self.alt(depth + 1) + ")", True
        if k < .79:
            return "(?>" + self.alt(depth + 1) + ")", True
        if k < .85 and self.ncap > 0:
            if self.names and r.random() < .3:
                return "\\k<%s>" % r.choice(self.names)[0], True
            return "(?:\\%d)" % r.randint(1, self.ncap) if r.random() < .3 else "\\%d" % r.randint(1, self.ncap), True
        if k < .93 and self.nlook < 3:
            self.nlook += 1
            kinds = ["?=", "?!"] + (["?<=", "?<!", "?<="] if self.bidi else [])
            return "(" + r.choice(kinds) + self.alt(depth + 1) + ")", r.random() < .1
        anchors = ["^", "$", "\\A", "\\Z"] + (["\\b", "\\B"] if self.bidi else [])
        return r.choice(anchors), False

    def seq(self, depth):
        r = self.r
        n = r.choice([1, 1, 2, 2, 3] if depth else [1, 2, 2, 3, 3, 4])
        out = []
        for _ in range(n):
            t, q = self.atom(depth)
            # a digit right after a numeric back reference would be read as part of it
            if out and out[-1][-1:].isdigit() and "\\" in out[-1] and t[:1].isdigit():
                t = "(?:" + t + ")"
            if q and r.random() < (.4 if depth < 2 else .25):
                if "\\" == t[:1] and t[1:2].isdigit():
                    pass
                t += self.quant(depth)
            out.append(t)
        return "".join(out)

    def alt(self, depth):
        n = self.r.choice([1, 1, 1, 2, 2, 3] if depth else [1, 1, 2])
        return "|".join(self.seq(depth) for _ in range(n))

def random_patterns(seed, count, salt=""):
    rng = random.Random("%s/%s" % (seed, salt))
    out, seen = [], set()
    while len(out) < count:
        bidi = rng.random() < .45
        g = Gen(rng, bidi)
        p = g.alt(0)
        if len(p) > 40 or len(p) < 2 or p.count("*") + p.count("+") + p.count(",}") > 5 or (p, g.flags) in seen:
            continue
        seen.add((p, g.flags))
        out.append((p, g.flags, "r"))
    return out

# Every kind of node directly inside every other kind, three pairs to a pattern. \\1 in one of them is the first group.
OUTER = ["(%s)", "(?:%s)*", "(?:%s)+?", "(?:%s)?+", "(?:%s){2}", "(?:%s){1,2}+", "(?:%s){2,3}?", "(?:%s|x)", "(?:x|%s)", "(?>%s)", "(?:(?=%s).|x)", "(?:(?!%s).|x)", "(?:.(?<=%s)|x)", "(?:.(?<!%s)|x)"]
INNER = ["a", "[ab]", "ab", "a|bc", "(a)", "(a|b)c", "\\1", "\\b.", "(?:^|a)b", "a$", "b(?=a)", "(?<=a)b", "a*", "b+?", "a?+b", "(?>ab?)", "a{2}", "(?:ab){2}", "a\\B", "(?!b)."]

def composed():
    rng, out = random.Random("composed"), []
    for o in OUTER:
        inner = INNER[:]
        rng.shuffle(inner)
        while len(inner) % 3:
            inner.append(rng.choice(INNER))
        for i in range(0, len(inner), 3):
            parts, groups = [], 0
            for x in inner[i:i + 3]:
                t = o % x
                if x == "\\1" and not groups and not o == "(%s)":
                    parts.append("(b?)")
                    groups += 1
                groups += t.count("(") - t.count("(?")
                parts.append(t)
            glue = rng.choice(["", "", "c?"])
            fl = rng.choice([0, 0, 0, I, M, X, U])
            out.append((glue.join(parts), fl, "p" + ("g" if groups else "")))
    return out
