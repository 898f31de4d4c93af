"""Finite unions of integer intervals (the value domain of the abstract interpreter)."""

LO = -(1 << 127)
HI = (1 << 128)


class ISet:
    __slots__ = ("iv",)

    def __init__(self, iv):
        self.iv = iv  # sorted disjoint tuple of (lo, hi), inclusive

    @staticmethod
    def of(*vals):
        return ISet.norm([(v, v) for v in vals])

    @staticmethod
    def rng(a, b):
        return ISet(((a, b),)) if a <= b else EMPTY

    @staticmethod
    def norm(iv):
        iv = sorted((a, b) for a, b in iv if a <= b)
        out = []
        for a, b in iv:
            if out and a <= out[-1][1] + 1:
                if b > out[-1][1]:
                    out[-1][1] = b
            else:
                out.append([a, b])
        return ISet(tuple((a, b) for a, b in out))

    def __and__(self, o):
        out = []
        i = j = 0
        A, B = self.iv, o.iv
        while i < len(A) and j < len(B):
            a = max(A[i][0], B[j][0])
            b = min(A[i][1], B[j][1])
            if a <= b:
                out.append((a, b))
            if A[i][1] < B[j][1]:
                i += 1
            else:
                j += 1
        return ISet(tuple(out))

    def __or__(self, o):
        return ISet.norm(list(self.iv) + list(o.iv))

    def __invert__(self):
        out = []
        p = LO
        for a, b in self.iv:
            if p <= a - 1:
                out.append((p, a - 1))
            p = b + 1
        if p <= HI:
            out.append((p, HI))
        return ISet(tuple(out))

    def __sub__(self, o):
        return self & ~o

    def __bool__(self):
        return bool(self.iv)

    def __eq__(self, o):
        return isinstance(o, ISet) and self.iv == o.iv

    def __hash__(self):
        return hash(self.iv)

    def __contains__(self, v):
        return any(a <= v <= b for a, b in self.iv)

    def __le__(self, o):
        return not (self - o)

    def single(self):
        if len(self.iv) == 1 and self.iv[0][0] == self.iv[0][1]:
            return self.iv[0][0]
        return None

    def pick(self):
        """A readable member."""
        for a, b in self.iv:
            for x in (ord("a"), ord("0"), ord("A")):
                if a <= x <= b:
                    return x
        for a, b in self.iv:
            if a >= 33 or b >= 33:
                return max(a, 33) if b >= 33 else a
        return self.iv[0][0]

    def size(self):
        return sum(b - a + 1 for a, b in self.iv)

    def show(self, char=True):
        def f(v):
            if char and 32 < v < 127:
                return repr(chr(v))
            if char and 0 <= v <= 0x10FFFF:
                return f"U+{v:04X}"
            return "-inf" if v == LO else "inf" if v == HI else str(v)

        return "{" + ", ".join(f(a) if a == b else f"{f(a)}..{f(b)}" for a, b in self.iv) + "}"

    __repr__ = show


EMPTY = ISet(())
FULL = ISet(((LO, HI),))
CHAR = ISet(((0, 0xD7FF), (0xE000, 0x10FFFF)))
BOOL = ISet(((0, 1),))

# Unicode White_Space (char::is_whitespace)
WHITESPACE = ISet.norm([(9, 13), (32, 32), (0x85, 0x85), (0xA0, 0xA0), (0x1680, 0x1680), (0x2000, 0x200A),
                        (0x2028, 0x2029), (0x202F, 0x202F), (0x205F, 0x205F), (0x3000, 0x3000)])
A_UP = ISet.rng(65, 90)
A_LO = ISet.rng(97, 122)
DIGIT = ISet.rng(48, 57)
CHAR_PRED = {
    "is_whitespace": WHITESPACE,
    "is_ascii_uppercase": A_UP,
    "is_ascii_lowercase": A_LO,
    "is_ascii_digit": DIGIT,
    "is_ascii_alphabetic": A_UP | A_LO,
    "is_ascii_alphanumeric": A_UP | A_LO | DIGIT,
    "is_ascii_hexdigit": DIGIT | ISet.rng(65, 70) | ISet.rng(97, 102),
    "is_ascii_whitespace": ISet.of(9, 10, 12, 13, 32),
    "is_ascii_punctuation": ISet.norm([(33, 47), (58, 64), (91, 96), (123, 126)]),
    "is_ascii_control": ISet.norm([(0, 31), (127, 127)]),
    "is_ascii_graphic": ISet.rng(33, 126),
    "is_ascii": ISet.rng(0, 127),
    "is_control": ISet.norm([(0, 31), (127, 159)]),
}
_UNI = {}


def unicode_pred(name):
    """Classes that need the Unicode tables (only where a predicate uses them)."""
    if name not in _UNI:
        import unicodedata

        test = {
            "is_alphabetic": lambda c: unicodedata.category(c)[0] == "L" or unicodedata.category(c) == "Nl",
            "is_numeric": lambda c: unicodedata.category(c)[0] == "N",
            "is_alphanumeric": lambda c: unicodedata.category(c)[0] in "LN",
            "is_uppercase": lambda c: c.isupper(),
            "is_lowercase": lambda c: c.islower(),
        }[name]
        _UNI[name] = ISet.norm([(i, i) for i in range(0x110000) if not 0xD800 <= i <= 0xDFFF and test(chr(i))])
    return _UNI[name]
