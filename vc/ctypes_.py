"""C++ type strings (clang desugared spelling) -> small type terms."""
import re
from functools import lru_cache

INTS = {"int": (32, True), "unsigned int": (32, False), "long": (64, True), "unsigned long": (64, False),
        "long long": (64, True), "unsigned long long": (64, False), "short": (16, True), "unsigned short": (16, False),
        "char": (8, True), "signed char": (8, True), "unsigned char": (8, False), "size_t": (64, False),
        "std::size_t": (64, False), "int32_t": (32, True), "int64_t": (64, True), "uint32_t": (32, False), "uint64_t": (64, False),
        "std::ptrdiff_t": (64, True), "ptrdiff_t": (64, True), "size_type": (64, False), "difference_type": (64, True),
        "uint8_t": (8, False), "int8_t": (8, True), "__int128": (128, True), "unsigned __int128": (128, False), "uint128_t": (128, False)}

def split_args(s):
    out = []; d = 0; cur = ""
    for ch in s:
        if ch in "<(": d += 1
        elif ch in ">)": d -= 1
        if ch == "," and d == 0: out.append(cur.strip()); cur = ""
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out

def strip_cv(s):
    s = s.strip()
    ch = True
    while ch:
        ch = False
        for w in ("const ", "volatile ", "struct ", "class ", "enum ", "typename "):
            if s.startswith(w): s = s[len(w):].strip(); ch = True
        for w in (" const", " volatile", "__restrict", " restrict"):
            if s.endswith(w): s = s[:-len(w)].strip(); ch = True
        if s.endswith("*const"): s = s[:-5].strip(); ch = True
    return s

@lru_cache(maxsize=None)
def parse(s):
    s0 = s
    s = strip_cv(s)
    if s in ("ompi_request_t *", "MPI_Request"): return ("int", 64, True)      # opaque handle
    if s.endswith("&&"): return ("ref", parse(s[:-2]))
    if s.endswith("&"): return ("ref", parse(s[:-1]))
    if s.endswith("*"): return ("ptr", parse(s[:-1]))
    if s in INTS: return ("int",) + INTS[s]
    if s in ("double", "float", "long double"): return ("real",)
    if s in ("bool", "_Bool"): return ("bool",)
    if s == "void": return ("void",)
    m = re.match(r"^(.*)\[(\d*)\]$", s)
    if m: return ("carr", parse(m.group(1)), int(m.group(2) or 0))
    m = re.match(r"^([\w:]+)<(.*)>(.*)$", s, re.S)
    if m:
        nm, ar, rest = m.group(1), m.group(2), m.group(3)
        base = nm.split("::")[-1]
        if rest == "":
            args = split_args(ar)
            if base == "vector" or base == "set": return ("vec", parse(args[0]))      # a set: the vector of its elements in order
            if base in ("_Rb_tree_const_iterator", "_Rb_tree_iterator"): return ("ptr", parse(args[0]))
            if base == "array": 
                try: return ("carr", parse(args[0]), int(args[1]))
                except ValueError: return ("rec", s)
            if base == "initializer_list": return ("vec", parse(args[0]))
            if base == "bitset": 
                n = re.sub(r"(\d)[uUlL]+", r"\1", args[0])
                mm = re.match(r"^(\d+) ([/*]) (\d+)$", n)
                if mm: n = int(mm.group(1)) // int(mm.group(3)) if mm.group(2) == "/" else int(mm.group(1)) * int(mm.group(3))
                try: return ("bitset", int(n))
                except ValueError: return ("rec", s)
            if base == "pair": return ("tuple", tuple(parse(a) for a in args))
            if base == "tuple": return ("tuple", tuple(parse(a) for a in args))
            if base in ("__normal_iterator",): return ("ptr", parse(args[0])[1])
            if base == "optional": return ("opt", parse(args[0]))
            if base == "shared_ptr" or base == "unique_ptr": return ("ptr", parse(args[0]))
            if base == "reference_wrapper": return ("ptr", parse(args[0]))
            if base == "function": return ("fn",)
            if base == "complex": return ("complex",)
            if base == "reverse_iterator": return ("riter", parse(args[0]))
            if base == "span": return ("span", parse(args[0]))
        elif rest in ("::iterator", "::const_iterator") and base in ("vector", "set"):
            return ("ptr", parse(split_args(ar)[0]))
        elif rest == "::reference" and base == "bitset": return ("bitref",)
    if s.startswith("(lambda") or "(lambda at" in s: return ("clo",)
    if s in ("std::string", "std::basic_string<char>"): return ("str",)
    if s in ("std::nullptr_t", "nullptr_t"): return ("ptr", ("void",))
    return ("rec", s)
