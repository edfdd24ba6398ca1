"""Type strings -> what the analysis needs to know about a type."""
import functools
import re


def split_args(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch in "<([":
            d += 1
        elif ch in ">)]":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def targs(t):
    i = t.find("<")
    if i < 0 or not t.endswith(">"):
        return []
    return split_args(t[i + 1:-1])


def strip(t):
    """remove references and top-level cv"""
    t = t.strip()
    while True:
        o = t
        if t.endswith("&&"):
            t = t[:-2].strip()
        elif t.endswith("&"):
            t = t[:-1].strip()
        if t.endswith(" const"):
            t = t[:-6].strip()
        if t.startswith("const ") and not t.endswith("*") and not t.endswith("*const"):
            t = t[6:].strip()
        if t.endswith("*const"):
            t = t[:-5].strip()
        if t == o:
            return t


def is_ref(t):
    return t.rstrip().endswith("&")


INTS = {"int", "unsigned int", "long", "unsigned long", "short", "unsigned short", "char", "signed char",
        "unsigned char", "long long", "unsigned long long", "wchar_t"}
FLOATS = {"float", "double", "long double"}


class T:
    __slots__ = ("k", "s", "r", "c", "e", "uns")

    def __init__(self, k, s, r=None, c=None, e=None, uns=False):
        self.k, self.s, self.r, self.c, self.e, self.uns = k, s, r, c, e, uns

    def __repr__(self):
        return "T(%s %s)" % (self.k, self.s)


@functools.lru_cache(maxsize=None)
def tinfo(s):
    s = strip(s)
    if s in INTS:
        return T("int", s, uns=s.startswith("unsigned"))
    if s in FLOATS:
        return T("float", s)
    if s == "bool":
        return T("bool", s)
    if s == "void":
        return T("void", s)
    if s.endswith("*"):
        return T("ptr", s, e=strip(s[:-1]))
    m = re.match(r"^Eigen::(Matrix|Array)<([^,]+), (-?\d+)U?, (-?\d+)U?", s)
    if m:
        r, c = int(m.group(3)), int(m.group(4))
        if r > 0 and c > 0:
            return T("mat", s, r, c, m.group(2))
        return T("dynmat", s)
    m = re.match(r"^Eigen::Transform<([^,]+), (\d+), ", s)
    if m:
        d = int(m.group(2))
        return T("tf", s, d + 1, d + 1, m.group(1))
    m = re.match(r"^Eigen::Rotation2D<", s)
    if m:
        return T("rot", s, 2, 2)
    if s.startswith("Eigen::AngleAxis<"):
        return T("rot", s, 3, 3)
    m = re.match(r"^Eigen::Translation<([^,]+), (\d+)", s)
    if m:
        d = int(m.group(2))
        return T("tf", s, d + 1, d + 1)
    if s == "g2o::SE2":
        return T("se2", s, 3, 3)
    if s.startswith("std::vector<") or s.startswith("std::deque<") or s.startswith("std::list<"):
        a = targs(s)
        return T("vec", s, e=a[0] if a else "?")
    m = re.match(r"^std::array<", s)
    if m:
        a = targs(s)
        return T("vec", s, e=a[0])
    if s.startswith("std::unique_ptr<") or s.startswith("std::shared_ptr<") or s.startswith("boost::shared_ptr<"):
        a = targs(s)
        return T("sptr", s, e=strip(a[0]))
    if s.startswith("std::pair<"):
        a = targs(s)
        return T("pair", s, e=a)
    if s.startswith("__gnu_cxx::__normal_iterator<") or "_iterator<" in s and s.startswith("std::"):
        return T("iter", s)
    m = re.match(r"^(.*)\[(\d+)\]$", s)
    if m:
        return T("arr", s, r=int(m.group(2)), e=m.group(1).strip())
    if s.startswith("std::basic_string<"):
        return T("str", s)
    if s.startswith("Eigen::SelfAdjointEigenSolver<"):
        a = tinfo(targs(s)[0])
        return T("eig", s, a.r, a.c)
    return T("cls", s)
