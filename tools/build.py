"""Build the code under test from /repo's working tree, plus a harness.

Objects are compiled with ccache (cache in build/ccache), so an unchanged tree
costs nothing and a changed header recompiles what includes it.  Nothing is
written under /repo.
"""
import fcntl, hashlib, os, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))

VARIANTS = {
    # memory errors, undefined behaviour, library preconditions; uninitialised
    # stack memory is given a recognisable pattern so that its use is repeatable
    "asan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
             "-fno-sanitize-recover=all", "-fno-sanitize=vptr",
             "-D_GLIBCXX_ASSERTIONS", "-ftrivial-auto-var-init=pattern"],
    # for the spaces whose size matters more than memory checking
    "fast": ["-O2", "-g1", "-D_GLIBCXX_ASSERTIONS", "-ftrivial-auto-var-init=pattern"],
    # uninitialised memory is whatever was there (the harness decides what)
    "raw": ["-O1", "-g1", "-D_GLIBCXX_ASSERTIONS", "-DVERIF_FILL"],
}
LIBS = ["-lguile-3.0", "-lgc", "-lssl", "-lcrypto", "-lboost_iostreams", "-lboost_log",
        "-lboost_program_options", "-lboost_regex", "-lboost_system", "-lboost_filesystem",
        "-lunistring", "-lz", "-lpthread", "-ldl"]


class BuildError(Exception):
    pass


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-6000:]))


def sources(makefile, var):
    """The sources a Makefile.am lists, so that added files are picked up."""
    text = open(makefile).read().replace("\\\n", " ")
    m = re.search(r"^%s\s*=\s*(.*)$" % re.escape(var), text, re.M)
    srcs = m.group(1).split() if m else []
    m = re.search(r"^%s\s*\+=\s*(.*)$" % re.escape(var), text, re.M)
    if m:
        srcs += m.group(1).split()
    return srcs


def generate():
    top = os.path.join(BUILD, "gen")
    gen = os.path.join(top, "scribbu")
    os.makedirs(gen, exist_ok=True)
    lib = os.path.join(REPO, "scribbu")
    h = hashlib.sha256()
    for f in ("tbt-lexer.ll", "tbt-parser.yy", "scheme.cc"):
        h.update(open(os.path.join(lib, f), "rb").read())
    h.update(open(os.path.join(VERIF, "tools/config.h"), "rb").read())
    stamp = os.path.join(gen, "stamp")
    if os.path.exists(stamp) and open(stamp).read() == h.hexdigest():
        return gen
    tmp = os.path.join(BUILD, "gen.tmp")
    os.makedirs(tmp, exist_ok=True)
    run(["cp", os.path.join(VERIF, "tools/config.h"), top])
    # as automake's ylwrap does: y.tab.* renamed, and references to them too
    run(["bison", "-y", "-d", os.path.join(lib, "tbt-parser.yy")], cwd=tmp)
    for ext in ("cc", "hh"):
        src = {"cc": "y.tab.c", "hh": "y.tab.h"}
        names = os.listdir(tmp)
        cand = [n for n in names if n in (src[ext], "y.tab.%s" % ext, "tbt-parser.tab.%s" % ext, "tbt-parser.%s" % ext)]
        if not cand:
            raise BuildError("bison made %s" % names)
        t = open(os.path.join(tmp, cand[0])).read().replace("y.tab.h", "tbt-parser.hh").replace("y.tab.c", "tbt-parser.cc")
        open(os.path.join(gen, "tbt-parser." + ext), "w").write(t)
    run(["flex", os.path.join(lib, "tbt-lexer.ll")], cwd=tmp)
    names = os.listdir(tmp)
    lx = "lex.yy.c" if "lex.yy.c" in names else [n for n in names if n.startswith("lex.") or n == "tbt-lexer.cc"][0]
    open(os.path.join(gen, "tbt-lexer.cc"), "w").write(open(os.path.join(tmp, lx)).read())
    hh = [n for n in names if n == "tbt-lexer.hh" or (n.endswith(".hh") and "lex" in n)]
    for n in hh:
        open(os.path.join(gen, n), "w").write(open(os.path.join(tmp, n)).read())
    run(["guile-snarf", "-o", os.path.join(gen, "scheme.x"), os.path.join(lib, "scheme.cc"),
         "-I" + REPO, "-I" + lib, "-I" + top, "-I" + gen, "-I/usr/include/guile/3.0", "-std=c++20"], env=dict(os.environ, CPP="g++ -E"))
    for n in os.listdir(tmp):
        os.unlink(os.path.join(tmp, n))
    open(stamp, "w").write(h.hexdigest())
    return gen


def compile_all(jobs):
    env = dict(os.environ, CCACHE_DIR=os.path.join(BUILD, "ccache"), CCACHE_MAXSIZE="2G",
               CCACHE_SLOPPINESS="time_macros,include_file_mtime,include_file_ctime", CCACHE_NOHASHDIR="1", LC_ALL="C")
    def one(j):
        src, obj, flags = j
        run(["ccache", "g++", "-std=c++20", "-w", "-DHAVE_CONFIG_H"] + flags + ["-c", src, "-o", obj], env=env)
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        list(ex.map(one, jobs))


def build(harness, variant="asan", cli=False, extra_src=(), link=()):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        gen = generate()
        vf = VARIANTS[variant]
        inc = ["-I" + REPO, "-I" + gen, "-I" + os.path.dirname(gen), "-I/usr/include/guile/3.0"]
        od = os.path.join(BUILD, variant)
        os.makedirs(od, exist_ok=True)
        jobs, objs = [], []
        def add(src, tag, flags):
            obj = os.path.join(od, tag + "-" + os.path.basename(src) + ".o")
            jobs.append((src, obj, flags)); objs.append(obj)
        lib = os.path.join(REPO, "scribbu")
        for s in sources(os.path.join(lib, "Makefile.am"), "libscribbu_la_SOURCES"):
            if s.endswith(".yy"):
                add(os.path.join(gen, s[:-3] + ".cc"), "lib", vf + inc + ["-I" + lib])
            elif s.endswith(".ll"):
                add(os.path.join(gen, s[:-3] + ".cc"), "lib", vf + inc + ["-I" + lib])
            elif s.endswith(".cc"):
                add(os.path.join(lib, s), "lib", vf + ["-I" + lib] + inc)
        if cli:
            srcd = os.path.join(REPO, "src")
            for s in sources(os.path.join(srcd, "Makefile.am"), "scribbu_SOURCES"):
                if s.endswith(".cc"):
                    fl = vf + ["-I" + srcd] + inc + ['-DDATADIR="/nonexistent"']
                    if s == "scribbu.cc":
                        fl = fl + ["-Dmain=scribbu_main"]
                    add(os.path.join(srcd, s), "cli", fl)
            inc = inc + ["-I" + srcd]
        hs = [os.path.join(VERIF, "harness", harness + ".cc")] + [os.path.join(VERIF, "harness", e) for e in extra_src]
        for s in hs:
            add(s, "h", vf + ["-I" + os.path.join(VERIF, "harness"), "-I" + lib] + inc)
        compile_all(jobs)
        exe = os.path.join(od, harness)
        run(["g++"] + [f for f in vf if f.startswith("-fsanitize") or f.startswith("-g")] + objs + ["-o", exe + ".new"] + list(link) + LIBS)
        os.replace(exe + ".new", exe)
        return exe


if __name__ == "__main__":
    print(build(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "asan", cli=len(sys.argv) > 3))
