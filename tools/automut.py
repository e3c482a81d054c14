"""Developer tool: random mutants of the library against the checks of the mutated file.
automut.py N SEED [file-regex] -- prints survivors. Works in scratch copies. With NARROW=1 in the
environment the mutants narrow an integer type of a declaration, a parameter or a cast. WORKERS: at once."""
import os, random, re, subprocess, sys, tempfile, shutil, hashlib, glob
from concurrent.futures import ThreadPoolExecutor
CHK = {
 "small/slab_arena.c": "C01 C06 C26 C27", "small/slab_cache.c": "C07 C26 C27", "include/small/slab_cache.h": "C07",
 "include/small/slab_arena.h": "C01",
 "small/mempool.c": "C08 C26", "include/small/mempool.h": "C08", "small/small.c": "C10 C09 C26",
 "include/small/small.h": "C10 C09", "small/small_class.c": "C11", "include/small/small_class.h": "C11",
 "small/region.c": "C12 C13 C26", "include/small/region.h": "C12 C13 C26", "small/lsregion.c": "C14 C15",
 "include/small/lsregion.h": "C14 C15", "small/ibuf.c": "C16 C26", "include/small/ibuf.h": "C16",
 "small/obuf.c": "C17 C26", "include/small/obuf.h": "C17", "small/matras.c": "C19 C18 C20",
 "include/small/matras.h": "C18 C19 C20", "include/small/rb.h": "C21 C22 C23", "include/small/rlist.h": "C24",
 "include/small/static.h": "C25", "small/static.c": "C25", "include/small/quota.h": "C02 C03",
 "include/small/quota_lessor.h": "C04", "include/small/lf_lifo.h": "C05", "include/small/util.h": "C30",
 "small/util.c": "C30 C01", "small/mempool_asan.c": "C28 C29", "small/small_asan.c": "C28 C29",
 "include/small/small_asan.h": "C29 C28", "include/small/mempool_asan.h": "C28 C29", "small/region_asan.c": "C28 C29",
 "include/small/region_asan.h": "C28 C29", "small/lsregion_asan.c": "C28 C29", "include/small/lsregion_asan.h": "C28 C29",
 "small/obuf_asan.c": "C28 C29", "include/small/obuf_asan.h": "C28 C29", "small/slab_cache_asan.c": "C28 C29",
 "include/small/slab_list.h": "C07 C08", "include/small/slab_cache_asan.h": "C28 C29", "small/slab_arena_asan.c": "C28 C29",
 "include/small/slab_arena_asan.h": "C28 C29", "small/small_features.c": "C30", "include/small/small_asan.h": "C29 C28",
 "include/small/lifo.h": "C24", "include/small/quota_lessor.h": "C04",
}
N, SEED = int(sys.argv[1]), int(sys.argv[2])
FRE = re.compile(sys.argv[3] if len(sys.argv) > 3 else ".")
OPS = [
 (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
 (r" && ", " || "), (r" \|\| ", " && "), (r" \+ ", " - "), (r" - ", " + "), (r" \+= ", " -= "), (r" -= ", " += "),
 (r"\+\+", "--"), (r"--", "++"), (r"\bif \((.*)\)( \{)?( \\)?$", r"if (!(\1))\2\3"), (r" & ", " | "), (r" \| ", " & "),
 (r" >> ", " << "), (r" << ", " >> "), (r" \+ 1\b", ""), (r" - 1\b", ""), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
 (r"MIN\(", "MAX("), (r"MAX\(", "MIN("), (r"^(\s+)[a-zA-Z_][^=]*(=|\+=|-=|\().*;(\s*\\)?$", r"\1;\3"),
 (r"\b1\b", "2"), (r"\b0\b", "1"), (r"\b2\b", "3"), (r"\bgoto .*;|\bbreak;|\bcontinue;", ";"), (r"~", ""), (r"!(?!=)", ""),
]

NARROW = os.environ.get("NARROW")
if NARROW:
    OPS = [(r"\bsize_t\b(?! \*)", "uint32_t"), (r"\bsize_t\b(?! \*)", "uint16_t"), (r"\buint32_t\b(?! \*)", "uint16_t"), (r"\buint32_t\b(?! \*)", "uint8_t"),
           (r"\buint64_t\b(?! \*)", "uint32_t"), (r"\bint64_t\b(?! \*)", "int32_t"), (r"\bssize_t\b", "int"), (r"\buintptr_t\b", "uint32_t"),
           (r"\bintptr_t\b", "int32_t"), (r"\blong\b", "int"), (r"\bunsigned int\b(?! \*)", "unsigned char"), (r"\bunsigned\b(?! (int|long|char))", "unsigned char"),
           (r"\buint8_t\b(?! \*)", "int8_t"), (r"\bint\b (?=[a-z_0-9]+( =|;|,|\)))", "signed char "), (r"\bULL?\b", ""), (r"UINT64_C", "UINT32_C"), (r"(?<=\d)U?LL?\b", "")]
SECOND = os.environ.get("SECOND")
if SECOND:
    OPS = [(r"\bif \((?!1\)|0\)).*\)(?=( \{)?( *\\\\)?$)", "if (1)"), (r"\bif \((?!1\)|0\)).*\)(?=( \{)?( *\\\\)?$)", "if (0)"),
           (r" \+ [a-zA-Z_>.\[\]-]+(?=[;,)])", ""), (r" - [a-zA-Z_>.\[\]-]+(?=[;,)])", ""), (r"[^()&|]+ && ", ""), (r" && [^()&|]+(?=\))", ""),
           (r"[^()&|]+ \|\| ", ""), (r" \|\| [^()&|]+(?=\))", ""), (r"\bwhile \(", "if ("), (r"\bif \(", "while ("),
           (r"\breturn [^;]+;", "return 0;"), (r"\bNULL\b", "(void *)8"), (r"__atomic_|__sync_", "")]
DIR = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

FIELDS = {}
def sites(f):
    FIELDS[f] = sorted(set(re.findall(r"(?<=->|[a-z]\.)[a-z_]+\b(?!\()", open("/repo/" + f).read())))
    out, incomment, depth = [], False, 0
    lines = open("/repo/" + f).read().split("\n")
    for i, l in enumerate(lines):
        s = l.strip()
        d0 = depth
        if s.startswith("/*"):
            incomment = "*/" not in s
            continue
        if incomment:
            incomment = "*/" not in s
            continue
        if s.startswith("*") or s.startswith("//") or s.startswith("#") or "assert(" in s or not (NARROW or l[:1].isspace()):
            continue
        if re.search(r"VALGRIND|ERROR_INJECT|__attribute__|^struct |^char name|likely", s) and "if" not in s:
            pass
        for n, (a, b) in enumerate(OPS):
            for m in re.finditer(a, l):
                new = l[:m.start()] + re.sub(a, b, l[m.start():m.end()]) + l[m.end():]
                if new != l:
                    out.append((f, i, new, n))
        if SECOND:
            # a statement twice, two exchanged, another field or name of the file
            st = re.compile(r"^(\s+)(?!return|break|continue|goto|case|default)[a-zA-Z_*(][^{}]*;(\s*\\)?$")
            if st.match(l):
                out.append((f, i, l + "\n" + l, 100))
                if i + 1 < len(lines) and st.match(lines[i + 1]) and re.match(r"\s*", l)[0] == re.match(r"\s*", lines[i + 1])[0]:
                    out.append((f, i, "\0SWAP", 101))
            for m in re.finditer(r"(?<=->|[a-z]\.)[a-z_]+\b(?!\()", l):
                for o in random.Random(i).sample(FIELDS[f], min(3, len(FIELDS[f]))):
                    if o != m[0]:
                        out.append((f, i, l[:m.start()] + o + l[m.end():], 102))
            for m in re.finditer(r"(?<![.>\w])[a-z_]+\b(?![\w(])", l):
                near = set(re.findall(r"(?<![.>\w])[a-z_]{2,}\b(?![\w(])", "\n".join(lines[max(0, i - 12):i + 6])))
                for o in random.Random(i).sample(sorted(near), min(2, len(near))):
                    if o != m[0]:
                        out.append((f, i, l[:m.start()] + o + l[m.end():], 103))
    return out

def sig(T):
    """hash of the code generated for everything"""
    h = hashlib.sha256()
    for asan in (0, 1):
        c = os.path.join(T, "cfg%d" % asan)
        os.makedirs(c, exist_ok=True)
        sys.path.insert(0, DIR + "/tools")
        import vlib
        vlib.gen_config(c, bool(asan))
        srcs = [os.path.join(T, "small", os.path.basename(x)) for x in vlib.lib_sources(bool(asan))]
        tu = os.path.join(T, "all%d.c" % asan)
        with open(tu, "w") as g:
            for x in sorted(glob.glob(T + "/include/small/*.h")):
                b = os.path.basename(x)
                if b.endswith("_asan.h") or b == "rb.h":
                    continue
                g.write('#include "%s"\n' % b)
            g.write('''#include "rb.h"
struct nd { rb_node(struct nd) n; int k; int a; }; typedef rb_tree(struct nd) tr;
static int ncmp(const struct nd *a, const struct nd *b) { return a->k - b->k; }
static int kcmp(int a, const struct nd *b) { return a - b->k; }
static void aug(struct nd *a, const struct nd *b, const struct nd *c) { a->a = 1 + (b ? b->a : 0) + (c ? c->a : 0); }
rb_gen_ext_key(, ta_, tr, struct nd, n, ncmp, int, kcmp)
rb_gen(, tb_, tr, struct nd, n, ncmp)
rb_gen_aug(, tc_, tr, struct nd, n, ncmp, aug)
''')
        for s in srcs + [tu]:
            for nd in ([], ["-DNDEBUG", "-DRB_COMPACT"]):
                r = subprocess.run(["gcc", "-std=gnu11", "-D_GNU_SOURCE", "-O1", "-w", "-S", "-o", "-", "-fkeep-inline-functions",
                    "-fkeep-static-functions", "-I" + c, "-I" + T + "/include/small", "-I" + T + "/include", "-I" + T + "/third_party",
                    "-I" + T + "/small", s] + nd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
                if r.returncode and os.environ.get("DBG"): print(s, r.stderr.decode()[:800])
                if r.returncode:
                    return None
                h.update(re.sub(rb'__LINE__|"[^"]*"', b"", r.stdout))
    return h.digest()

def copy():
    T = tempfile.mkdtemp(prefix="amut", dir="/tmp")
    for d in ("include", "small", "third_party"):
        shutil.copytree("/repo/" + d, T + "/" + d)
    shutil.copy("/repo/CMakeLists.txt", T)
    return T

T0 = copy()
base = sig(T0)
shutil.rmtree(T0)
assert base
all_sites = []
for f in sorted(set(CHK)):
    if os.path.exists("/repo/" + f) and FRE.search(f):
        all_sites += sites(f)
rng = random.Random(SEED)
# spread: choose file-weighted by sqrt of the number of sites
rng.shuffle(all_sites)
seen, pick = set(), []
for s in all_sites:
    if not NARROW and (s[0], s[1]) in seen:
        continue
    seen.add((s[0], s[1]))
    pick.append(s)
pick = pick[:N]
print(len(all_sites), "sites", file=sys.stderr)

def run(s):
    f, i, new, n = s
    T = copy()
    try:
        L = open(T + "/" + f).read().split("\n")
        old = L[i]
        if new == "\0SWAP":
            L[i], L[i + 1] = L[i + 1], L[i]
            new = "SWAPPED with " + old.strip()
            old = L[i]
        else:
            L[i] = new
        open(T + "/" + f, "w").write("\n".join(L))
        g = sig(T)
        tag = "%s:%d: %s  ==>  %s" % (f, i + 1, old.strip(), new.strip())
        if g is None:
            return "NOCOMPILE", tag
        if g == base:
            return "EQUAL", tag
        for c in CHK[f].split():
            r = subprocess.run(["timeout", "1200", "python3", DIR + "/tools/check.py", c], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                env=dict(os.environ, VERIF_REPO=T, VERIF_BUILD=T + "/build", VERIF_EVIDENCE=T, VERIF_FIRST="1"), text=True)
            if r.returncode == 1:
                return "KILLED " + c, tag
            if r.returncode != 0:
                return "RC%d %s" % (r.returncode, c), tag + "\n" + r.stdout[-600:]
        return "SURVIVED", tag
    finally:
        shutil.rmtree(T, ignore_errors=True)

with ThreadPoolExecutor(int(os.environ.get("WORKERS", 2))) as p:
    for st, tag in p.map(run, pick):
        print(st, tag, flush=True)
