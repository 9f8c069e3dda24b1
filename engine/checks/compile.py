"""C34: a matrix of compile-time witnesses (headers alone x language version x compiler x configuration macros),
   plus the symbol tables of two translation units of one program."""
import os, re, subprocess, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
from sa.check import Check
from sa.ir import REPO, VERIF, AnalysisBroken, tool

STDS = ["14", "17", "20", "23"]
CONFIGS = [  # (name, -D / flags, standards)
    ("default", [], STDS),
    ("locale-no-static", ["-DPLUTO_LOCALE_NO_STATIC=1"], ["14", "20"]),
    ("default-locale", ['-DPLUTO_LOCALE_DEFAULT_LOCALE="C"'], ["14", "20"]),
    ("hide-source-info", ["-DPLUTO_LOGGER_HIDE_SOURCE_INFO=1"], STDS),
    ("logger-clock", ["-DPLUTO_LOGGER_CLOCK_TYPE=std::chrono::high_resolution_clock"], ["14", "20"]),
    ("logger-initials", ["-DPLUTO_LOGGER_INITIAL_LEVEL=warn", "-DPLUTO_LOGGER_INITIAL_CREATE_DIRS=false", "-DPLUTO_LOGGER_INITIAL_WRITE_HEADER=false",
                         "-DPLUTO_LOGGER_INITIAL_BUFFER_MAX_SIZE=10", "-DPLUTO_LOGGER_INITIAL_BUFFER_FLUSH_SIZE=2",
                         "-DPLUTO_LOGGER_INITIAL_FILE_ROTATION_SIZE=1000", "-DPLUTO_LOGGER_INITIAL_FILE_ROTATION_LIMIT=3"], ["14", "20"]),
    ("logger-writers", ["-DWITH_WRITERS", "-DPLUTO_LOGGER_INITIAL_LOG_WRITER=my_log_writer", "-DPLUTO_LOGGER_INITIAL_HEADER_WRITER=my_header_writer"], ["14", "20"]),
    ("stopwatch-clock", ["-DPLUTO_STOPWATCH_CLOCK_TYPE=std::chrono::system_clock"], ["14", "20"]),
    ("pool-clock", ["-DPLUTO_THREAD_POOL_CLOCK_TYPE=std::chrono::steady_clock"], STDS),
    ("pool-priorities", ["-DPLUTO_THREAD_POOL_PRIORITY_LOWEST=-3", "-DPLUTO_THREAD_POOL_PRIORITY_LOWER=-2", "-DPLUTO_THREAD_POOL_PRIORITY_LOW=-1", "-DPLUTO_THREAD_POOL_PRIORITY_NORMAL=0",
                         "-DPLUTO_THREAD_POOL_PRIORITY_HIGH=1", "-DPLUTO_THREAD_POOL_PRIORITY_HIGHER=2", "-DPLUTO_THREAD_POOL_PRIORITY_HIGHEST=3"], ["14", "20"]),
    ("unicode-overloads", ["-DPLUTO_STRING_OVERLOAD_FOR_UNICODE=1"], STDS),
    ("no-unicode-overloads", ["-DPLUTO_STRING_OVERLOAD_FOR_UNICODE=0"], ["14", "20"]),
    ("short-wchar", ["-fshort-wchar", "-DPLUTO_UTILS_HAS_32_BIT_WCHAR=0"], STDS),
    ("no-format", ["-DPLUTO_UTILS_HAS_FORMAT=0"], ["20", "23"]),
    ("no-source-location", ["-DPLUTO_UTILS_HAS_SOURCE_LOCATION=0"], ["20", "23"]),
    ("experimental-filesystem", ["-DPLUTO_FILESYSTEM_IS_EXPERIMENTAL=1"], ["14"]),
    ("warnings", ["-Wall", "-Werror=return-type", "-Werror=uninitialized"], ["14", "20"]),
]

def check():
    c = Check("C34", "every (header, language version, compiler, macro configuration) cell of the matrix type-checks against a translation unit that uses the whole public API, and two such units define no common strong symbol")
    inc = os.path.join(REPO, "include"); plu = os.path.join(inc, "pluto")
    if not os.path.isdir(plu): raise AnalysisBroken("no include/pluto")
    headers = ["pluto/" + h for h in sorted(os.listdir(plu)) if h.endswith(".hpp")] + ["pluto.hpp"]
    c.require("public headers", len(headers), 10)
    cxx = [tool("clang++-18", "clang++"), tool("g++-13", "g++")]
    d = tempfile.mkdtemp(prefix="plutosa.")
    jobs = []
    try:
        for h in headers:
            p = os.path.join(d, h.replace("/", "_") + ".cpp")
            with open(p, "w") as f: f.write('#include <%s>\n#include <%s>\nint main() { return 0; }\n' % (h, h))
            for s in STDS:
                for x in cxx: jobs.append(("alone:%s:c++%s:%s" % (h, s, os.path.basename(x)), [x, "-std=c++" + s, "-I" + inc, "-w", "-fsyntax-only", p]))
        # every order of the first header: each header included before and after all others
        allh = [h for h in headers if h not in ("pluto.hpp",)]
        for i, order in enumerate([list(reversed(allh)), ["pluto.hpp"] + allh]):
            p = os.path.join(d, "order%d.cpp" % i)
            with open(p, "w") as f: f.write("".join("#include <%s>\n" % h for h in order) + "int main() { return 0; }\n")
            for s in STDS: jobs.append(("order%d:c++%s" % (i, s), [cxx[0], "-std=c++" + s, "-I" + inc, "-w", "-fsyntax-only", p]))
        api = os.path.join(VERIF, "drivers", "api.cpp")
        for name, flags, stds in CONFIGS:
            for s in stds:
                for x in cxx: jobs.append(("api:%s:c++%s:%s" % (name, s, os.path.basename(x)), [x, "-std=c++" + s, "-I" + inc] + ([] if name == "warnings" else ["-w"]) + flags + ["-fsyntax-only", api]))
        objs = {}
        for tu in ("one", "two"):
            o = os.path.join(d, tu + ".o"); objs[tu] = o
            jobs.append(("object:" + tu, [cxx[0], "-std=c++17", "-I" + inc, "-w", "-O0", "-DTU=" + tu, "-DPLUTO_STRING_OVERLOAD_FOR_UNICODE=1", "-c", api, "-o", o]))
        def run(j):
            try: r = subprocess.run(j[1], capture_output=True, text=True, timeout=600)
            except subprocess.TimeoutExpired: return j, 99, "timeout"
            return j, r.returncode, r.stderr
        with ThreadPoolExecutor(max_workers=min(8, os.cpu_count() or 2)) as ex: res = list(ex.map(run, jobs))
        for (name, cmd), rc, err in res:
            if rc == 99 or rc < 0 or "internal compiler error" in err: raise AnalysisBroken("%s: compiler did not finish: %s" % (name, err[:300]))
            if rc == 0: c.ob(name, True, " ".join(cmd[1:])[:200]); continue
            m = None
            for l in err.splitlines():
                m = re.match(r"(\S+?):(\d+):\d+: (?:fatal )?error: (.*)", l)
                if m: break
            # prefer the location inside the repository
            loc = None
            for l in err.splitlines():
                k = re.match(r"(?:In file included from |\s*from )?(\S*?/include/pluto\S*?\.hpp):(\d+)", l)
                if k: loc = (k.group(1), int(k.group(2))); break
            if m and "/include/pluto" in m.group(1): loc = (m.group(1), int(m.group(2)))
            if not m: raise AnalysisBroken("%s: %s" % (name, err[:500]))
            c.ob(name, False, "%s does not compile: %s" % (name, m.group(3)), file=loc[0] if loc else m.group(1), line=loc[1] if loc else int(m.group(2)), function=name)
        # duplicate definitions
        strong = {}
        if all(os.path.exists(o) for o in objs.values()):
            for tu, o in objs.items():
                r = subprocess.run([tool("nm"), "-C", o], capture_output=True, text=True)
                if r.returncode: raise AnalysisBroken("nm: " + r.stderr)
                n = 0
                for l in r.stdout.splitlines():
                    m = re.match(r"[0-9a-f ]{16} (\w) (.*)", l)
                    if not m: continue
                    n += 1
                    k, s = m.groups()
                    if k in "TDBR" and not s.startswith("use_"): strong.setdefault(("strong", s), []).append(tu)
                    elif k in "tdb" and re.match(r"(guard variable for )?pluto::", s) and "anonymous" not in s and "{lambda" not in s and "'lambda" not in s and "$_" not in s:
                        strong.setdefault(("internal", s), []).append(tu)
                c.require("symbols in " + tu, n, 100)
            c.ob("odr:symbol tables", not strong, "no strong or per-unit definition comes from a header" if not strong else "", function="nm") if not strong else None
            for (k, s), tus in sorted(strong.items()):
                c.ob("odr:" + s, False, ("%s is defined with external linkage in every translation unit that includes the header (duplicate definition)" if k == "strong"
                                         else "%s has internal linkage: every translation unit gets its own copy") % s, file="include/pluto", line=0, function=s)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    c.functions = set(headers)
    c.extra["configurations"] = [n for n, _, _ in CONFIGS]; c.extra["headers"] = headers
    c.assumptions = ["supported compilers are represented by the installed clang++ and g++ on Linux; Windows and Apple branches are not compiled here"]
    return c
