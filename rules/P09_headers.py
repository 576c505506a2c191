"""every header of the library is self contained, idempotent and free of strong definitions

Rule, per header H of /repo/include (enumerated from the tree on every run):
  1. a translation unit that includes only H, twice, compiles;
  2. the object code of that unit defines no external strong symbol, so any
     number of translation units that include H link together;
  3. no use of a function-like macro of the library is left in H after
     preprocessing: in a template such a call looks dependent, and a missing
     include is only noticed where the template is used.
Decided by the compiler's semantic analysis and the symbol table of the IR it
emits; nothing is run.
"""
import concurrent.futures as cf, os, re

CTL = {
    "ok": ("inline int vs_ok( ) { return 1; }\nstatic int vs_s( ) { return 2; }\ntemplate<class T> T vs_t( T t ) { return t; }\nextern int vs_e;\n#pragma once\n", False),
    "noninline": ("#pragma once\nint vs_strong( ) { return 1; }\n", True),
    "variable": ("#pragma once\nint vs_variable = 1;\n", True),
    "noguard": ("struct vs_twice { };\n", True),
    "missing": ("#pragma once\nvs_unknown_t *vs_p( );\n", True),
    "macro": ("#pragma once\ntemplate<class T> void vs_m( T &t ) { vs_ctl_macro( t ); }\n", True),
    "hasmacro": ("#pragma once\n#define vs_ctl_macro( x ) (void)( x )\ntemplate<class T> void vs_m( T &t ) { vs_ctl_macro( t ); }\n", False),
}
CTL["ok"] = ("#pragma once\n" + CTL["ok"][0].replace("#pragma once\n", ""), False)
NOTPREV = {"return", "else", "do", "not", "and", "or", "throw", "co_return", "co_await", "co_yield", "case", "new", "delete", "define", "undef", "sizeof"}


def macro_names(root):
    """function-like macros defined under root that are not also the name of a function there"""
    names, texts = set(), []
    for d, _, fs in os.walk(root):
        for f in fs:
            if f.endswith((".h", ".hpp")):
                t = open(os.path.join(d, f), errors="replace").read()
                names |= set(re.findall(r"^[ \t]*#[ \t]*define[ \t]+([A-Za-z_]\w*)\(", t, re.M))
                texts.append(re.sub(r"//[^\n]*", "", t))
    # "type name(" declares a function
    for t in texts:
        for prev, n in re.findall(r"([A-Za-z_]\w*|[>&*])\s+([A-Za-z_]\w*)\s*\(", t):
            if n in names and prev not in NOTPREV and prev not in (">", "&", "*"):
                names.discard(n)
    return names


def run(ctx):
    inc = os.path.join(ctx["repo"], "include")
    hs = sorted(os.path.relpath(os.path.join(d, f), inc) for d, _, fs in os.walk(inc) for f in fs if f.endswith((".h", ".hpp")))
    if len(hs) < 300:
        raise ctx["Broken"](f"only {len(hs)} headers under {inc}")
    stds = ["c++23"]
    ctl = os.path.join(ctx["tmp"], "ctl")
    os.makedirs(ctl)
    for n, (txt, _) in CTL.items():
        open(os.path.join(ctl, n + ".h"), "w").write(txt)

    macros = macro_names(inc) | {"vs_ctl_macro"}
    if "DAW_FWD" not in macros:
        raise ctx["Broken"]("the macros of the library are not found")

    def one(h, root, std, i):
        src = os.path.join(ctx["tmp"], f"h{i}.cpp")
        bc = src[:-4] + ".bc"
        open(src, "w").write(f"#include <{h}>\n#include <{h}>\n")
        r = ctx["sh"]([ctx["cxx"], "-std=" + std, "-w", "-I" + root, "-I" + inc, "-O0", "-c", "-emit-llvm", "-ferror-limit=2", src, "-o", bc])
        e = ctx["sh"]([ctx["cxx"], "-std=" + std, "-w", "-I" + root, "-I" + inc, "-E", src])
        os.unlink(src)
        if r.returncode:
            m = re.search(r"^(\S+?):(\d+):\d+: (?:fatal )?error: (.*)$", r.stderr, re.M)
            if not m:
                raise ctx["Broken"](f"compiler failed on {h}: {r.stderr[-800:]}")
            return [dict(driver=h, file=h, rule="self contained and idempotent", gave_up=False, path=[l for l in r.stderr.splitlines() if "included from" in l][:8],
                         msg=f"a translation unit including only this header does not compile ({std}): {m.group(3)[:160]}", where=f"{m.group(1)}:{m.group(2)}")]
        left, cur, line = {}, None, 0
        me = os.path.join(root, h)
        for l in e.stdout.splitlines():
            m = re.match(r'# (\d+) "(.*?)"', l)
            if m:
                cur, line = m.group(2), int(m.group(1)) - 1
                continue
            line += 1
            if cur == me:
                for n in re.findall(r"\b([A-Za-z_]\w*)\s*\(", re.sub(r'"(\\.|[^"\\])*"', '""', l)):
                    if n in macros:
                        left.setdefault(n, line)
        if left:
            os.unlink(bc)
            return [dict(driver=h, file=h, rule="macros are included", gave_up=False, path=[], where=f"{h}:{ln}",
                         msg=f"uses the macro {n} without including the header that defines it: a template that uses it does not compile") for n, ln in left.items()]
        s = ctx["sh"](["llvm-nm-18", "-C", "--defined-only", "--extern-only", bc])
        os.unlink(bc)
        if s.returncode:
            raise ctx["Broken"](f"cannot list the symbols of {h}")
        return [dict(driver=h, file=h, rule="no strong definitions", gave_up=False, path=[], where=h,
                     msg=f"including this header in two translation units breaks linking: strong definition of {m.group(1)}")
                for m in re.finditer(r"^\S*\s*[TDBRC] (.*)$", s.stdout, re.M)]

    jobs = [(h, inc, s) for s in stds for h in hs] + [(n + ".h", ctl, "c++23") for n in CTL]
    with cf.ThreadPoolExecutor(ctx["jobs"]) as ex:
        res = list(ex.map(lambda a: one(*a[1], a[0]), enumerate(jobs)))
    for (h, root, _), v in zip(jobs, res):
        if root == ctl and bool(v) != CTL[h[:-2]][1]:
            raise ctx["Broken"](f"control header {h} gave {v}")
    n = len(hs) * len(stds)
    viol = [v for r in res[:n] for v in r]
    bad = sum(1 for r in res[:n] if r)
    return viol, dict(headers=len(hs), obligations=3 * n, discharged=3 * n - bad, macros=len(macros), controls=len(CTL), language_modes=" ".join(stds)), [], [f"<{h}> twice: compiles, no strong definitions" for h in hs[:4]]
