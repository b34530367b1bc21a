"""C++ type strings -> the handful of shapes the executor distinguishes."""
import re

ALIASES = {
    "kmsvector": "std::vector<double>", "kmsiterator": "std::vector<double>::iterator",
    "llong_t": "long long", "knor::llong_t": "long long", "size_t": "unsigned long", "std::size_t": "unsigned long",
    "unsigned": "unsigned int", "uint32_t": "unsigned int", "size_type": "unsigned long", "std::vector::size_type": "unsigned long",
    "long long int": "long long", "long int": "long", "ssize_t": "long", "ptrdiff_t": "long", "difference_type": "long",
    "std::ptrdiff_t": "long", "__off_t": "long", "unsigned long int": "unsigned long", "off_t": "long",
}
INTS = {"bool": (1, False), "char": (8, True), "signed char": (8, True), "unsigned char": (8, False), "short": (16, True),
        "unsigned short": (16, False), "int": (32, True), "unsigned int": (32, False), "long": (64, True),
        "unsigned long": (64, False), "long long": (64, True), "unsigned long long": (64, False), "__int128": (128, True)}
FLOATS = {"double", "float", "long double"}

def split_args(s):
    out = []; d = 0; cur = ""
    for c in s:
        if c in "<(": d += 1
        if c in ">)": d -= 1
        if c == "," and d == 0:
            out.append(cur.strip()); cur = ""
        else: cur += c
    if cur.strip(): out.append(cur.strip())
    return out

_cache = {}
def canon(t):
    if t in _cache: return _cache[t]
    r = _canon(t)
    _cache[t] = r
    return r

def _canon(t):
    t = t.strip()
    t = re.sub(r"\b(class|struct|enum|union|typename) ", "", t)
    # suffixes
    while True:
        t = t.strip()
        if t.endswith("const") and re.search(r"[\s\*&>]const$", t):
            t = t[:-5].strip(); continue
        if t.endswith("volatile"): t = t[:-8].strip(); continue
        if t.endswith("&&"): return canon(t[:-2]) + "&"
        if t.endswith("&"): return canon(t[:-1]) + "&"
        if t.endswith("*__restrict"): t = t[:-10]; continue
        if t.endswith("*"): return canon(t[:-1]) + "*"
        break
    t = re.sub(r"^(const|volatile) ", "", t).strip()
    t = re.sub(r"^(const|volatile) ", "", t).strip()
    if t in ALIASES: return ALIASES[t]
    m = re.match(r"^(.*)\[(\d*)\]$", t)
    if m: return canon(m.group(1)) + "[" + m.group(2) + "]"
    t = re.sub(r"\b(kbase|base)::", "knor::base::", t) if not t.startswith("knor::base::") else t
    t = t.replace("knor::knor::", "knor::")
    t = re.sub(r"\b(?<!knor::)kprune::", "knor::prune::", t)
    m = re.match(r"^([\w:]+)\s*<(.*)>(.*)$", t)
    if m:
        name, args, rest = m.group(1), [canon(a) for a in split_args(m.group(2))], m.group(3)
        if name in ("vector",): name = "std::vector"
        if name == "shared_ptr": name = "std::shared_ptr"
        if name == "std::vector": args = args[:1]
        if name == "std::unordered_map": args = args[:2]
        if name in ("std::atomic", "std::__atomic_base") and not rest: return args[0]
        if name in ("dense_matrix", "vmap", "vmap_iterator"): name = "knor::base::" + name
        return name + "<" + ",".join(args) + ">" + rest
    return t

def is_ref(t): return t.endswith("&")
def deref(t): return t[:-1] if t.endswith("&") else t
def is_ptr(t):
    return t.endswith("*") or t.startswith("std::shared_ptr<") or t.startswith("std::unique_ptr<") or t.startswith("std::__shared_ptr")
def pointee(t):
    if t.endswith("*"): return t[:-1]
    m = re.match(r"^std::(?:__)?(?:shared_ptr|unique_ptr|shared_ptr_access)<(.*)>$", t)
    return split_args(m.group(1))[0]
def is_vec(t): return t.startswith("std::vector<") and t.endswith(">")
def elem(t):
    if is_vec(t): return t[len("std::vector<"):-1]
    m = re.match(r"^(.*)\[(\d*)\]$", t)
    if m: return m.group(1)
    if t.startswith("std::initializer_list<"): return t[len("std::initializer_list<"):-1]
    raise ValueError(t)
def is_arr(t): return bool(re.match(r"^.*\[\d*\]$", t))
def arr_len(t): return int(re.match(r"^.*\[(\d*)\]$", t).group(1))
def is_map(t): return t.startswith("std::unordered_map<") and t.endswith(">")
def map_kv(t): return split_args(t[len("std::unordered_map<"):-1])
def is_iter(t):
    return "__normal_iterator<" in t or t.endswith("::iterator") or t.endswith("::const_iterator") or "_Bit_iterator" in t or "_Node_const_iterator" in t or "_Node_iterator" in t \
        or t.endswith("thread_iter") or t.endswith("_Bit_const_iterator")
def is_int(t): return t in INTS
def is_float(t): return t in FLOATS
def is_bool(t): return t == "bool" or "_Bit_reference" in t
OPAQUE = ("std::basic_string", "std::string", "string", "pthread_", "std::default_random_engine", "std::mersenne", "std::linear_congruential",
          "std::uniform", "std::normal", "FILE", "_IO_FILE", "std::atomic", "std::allocator", "timeval", "std::basic_ofstream",
          "std::ofstream", "std::ostream", "std::basic_ostream", "std::ifstream", "default_random_engine", "bitmask", "std::thread",
          "std::__cxx11", "std::minstd", "std::random_device", "std::exception", "MPI")
def is_opaque(t):
    return any(t.startswith(o) for o in OPAQUE) and not t.startswith("std::atomic")
def arr_len_known(t): return bool(re.search(r"\[\d+\]$", t))
