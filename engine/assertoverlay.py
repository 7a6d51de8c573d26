"""a copy of the headers in which every debug-only computation is a call ogm_cond([&]() -> bool { ... })"""
import os, re
PRE = """#ifndef OGM_COND_HXX
#define OGM_COND_HXX
template<class F> __attribute__((noinline)) bool ogm_cond(const F& f) { return f(); }
#define OGM_COND(...) ::ogm_cond([&]() -> bool { return static_cast<bool>(__VA_ARGS__); })
#define OGM_STDASSERT(...) ((void)OGM_COND(__VA_ARGS__))
#endif
"""
ASSERTS = """
#undef OPENGM_ASSERT
#undef OPENGM_ASSERT_OP
#define OPENGM_ASSERT(expression) { if(!OGM_COND(expression)) { throw std::runtime_error("assertion"); } }
#define OPENGM_ASSERT_OP(a,op,b) { if(!OGM_COND(a op b)) { throw std::runtime_error("assertion"); } }
"""
def match(t, i, o="{", c="}"):
    d = 0
    while i < len(t):
        if t[i] == o: d += 1
        elif t[i] == c:
            d -= 1
            if d == 0: return i
        elif t[i] in "\"'":
            q = t[i]; i += 1
            while i < len(t) and t[i] != q: i += 2 if t[i] == "\\" else 1
        elif t.startswith("//", i): i = t.find("\n", i)
        elif t.startswith("/*", i): i = t.find("*/", i) + 1
        i += 1
    return -1
BLOCK = re.compile(r"if\s*\(\s*(?:!\s*(?:\w+::)*(?:MARRAY_)?NO_(?:DEBUG|ARG_TEST)|(?:\w+::)*(?:MARRAY_)?NO_(?:DEBUG|ARG_TEST)\s*==\s*false|(?:\w+::)*(?:MARRAY_)?NO_(?:DEBUG|ARG_TEST)\s*!=\s*true)\s*\)\s*\{")
def transform(t, name):
    n = {"assert": 0, "marray": 0, "block": 0}
    t, k = re.subn(r"(?<![\w:])assert(\s*)\(", r"OGM_STDASSERT\1(", t); n["assert"] = k
    t, k = re.subn(r"(?<!void )\b(?:marray_detail::)?Assert(\s*)\((?=[^()]*MARRAY_NO)", r"OGM_STDASSERT\1(", t); n["marray"] = k
    pos = 0
    while True:
        m = BLOCK.search(t, pos)
        if not m: break
        e = match(t, m.end() - 1)
        if e < 0: break
        body = t[m.end():e]
        if re.search(r"\breturn\b|\bbreak\b|\bcontinue\b|\bgoto\b", re.sub(r"//.*", "", body)): pos = e; continue   # leaves the block: not expressible as a condition
        t = t[:m.start()] + "{ ::ogm_cond([&]() -> bool {" + body + " return true; }); }" + t[e + 1:]; n["block"] += 1; pos = m.start() + 10
    # statements that are only compiled in debug builds, inside a function
    for m in list(re.finditer(r"^[ \t]*#[ \t]*(?:ifndef[ \t]+NDEBUG|ifdef[ \t]+OPENGM_DEBUG|if[ \t]+(?:defined[ \t]*\(?[ \t]*OPENGM_DEBUG[ \t]*\)?|!defined[ \t]*\(?[ \t]*NDEBUG[ \t]*\)?))[ \t]*\n((?:(?!^[ \t]*#)[^\n]*\n)*?)[ \t]*#[ \t]*endif[^\n]*\n", t, re.M))[::-1]:
        body = m.group(1)
        if re.search(r"\breturn\b|\bbreak\b|\bcontinue\b", re.sub(r"//.*", "", body)) or not body.strip(): continue
        t = t[:m.start()] + "{ ::ogm_cond([&]() -> bool {\n" + body + " return true; }); }\n" + t[m.end():]; n["block"] += 1
    if name.endswith("/opengm.hxx"): t = t + ASSERTS
    return t, n
def make(src, dst):
    tot = {}
    for d, ds, fs in os.walk(src):
        ds[:] = [x for x in ds if x != "python"]
        for f in fs:
            p = os.path.join(d, f); q = os.path.join(dst, os.path.relpath(p, src)); os.makedirs(os.path.dirname(q), exist_ok=True)
            b = open(p, errors="surrogateescape").read()
            if f.endswith((".hxx", ".hpp", ".h")):
                b, n = transform(b, p)
                for k in n: tot[k] = tot.get(k, 0) + n[k]
            open(q, "w", errors="surrogateescape").write(b)
    open(os.path.join(dst, "ogm_cond.hxx"), "w").write(PRE)
    return tot
if __name__ == "__main__":
    import sys; print(make(sys.argv[1], sys.argv[2]))
