"""Builds libraries from /repo's current working tree, outside /repo.

A synced copy (content compare, fresh mtimes for changed files) is made under
/verif/build/<variant>/tree (git-ignored) and the project's own Makefiles are
run there with a make.inc of ours.
"""
import os, subprocess, sys, fcntl, shutil, hashlib, glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VX_REPO", "/repo")
BUILD = os.environ.get("VX_BUILD", os.path.join(VERIF, "build"))

FLAGS = {
    "opt":  "-O2 -g1 -fPIC -w -fno-strict-aliasing -fopenmp",
    "asan": "-O1 -g -fPIC -w -fno-strict-aliasing -fno-omit-frame-pointer -fsanitize=address,bounds,vla-bound,integer-divide-by-zero,bool,return,unreachable -fno-sanitize-recover=all",
    "auto": "-O2 -g1 -fPIC -w -fno-strict-aliasing -fopenmp -ftrivial-auto-var-init=pattern",
    "tsan": "-O1 -g1 -fPIC -w -fno-strict-aliasing -fsanitize=thread",
}

def sh(cmd, cwd=None, log=None):
    p = subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        sys.stdout.write(p.stdout.decode("utf8", "replace")[-6000:])
        raise SystemExit("build step failed: %s" % (cmd,))
    return p.stdout.decode("utf8", "replace")

def put(path, text):
    try:
        if open(path).read() == text:
            return False
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(text)
    return True

EXCL = ["/.git", "/_build", "/doc", "*.o", "*.d", "*.a", "*.so", "*.mod", "__pycache__",
        "/make.inc", "/src/version.c", "/utils/callxrtm", "/utils/testxrtm",
        "/interfaces/write_int_def", "/utils/input_yylex.c", "/utils/input_yylex.h",
        "/examples/example_c", "/examples/example_brdf_c", "/examples/example_cpp",
        "/examples/example_f77", "/examples/example_f90", ".*.swp"]

def build(variant="opt", parts=("src", "misc")):
    """Returns the tree directory.  parts may also hold utils, interfaces."""
    base = os.path.join(BUILD, variant)
    tree = os.path.join(base, "tree")
    os.makedirs(tree, exist_ok=True)
    with open(os.path.join(base, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        cmd = ["rsync", "-rl", "-p", "--checksum", "--delete"] + ["--exclude=" + e for e in EXCL] + [REPO + "/", tree + "/"]
        sh(cmd)
        flags = FLAGS[variant]
        tmpl = open(os.path.join(REPO, "make.inc.example")).read()
        mk = "\n".join([
            tmpl.replace(" -Werror", "").replace("${HOME}/opt/openblas/lib/libopenblas.a", "-lopenblas"),
            "CCFLAGS = " + flags + " -MMD -MP",
            "CXXFLAGS = " + flags + " -MMD -MP",
            "CFMIX_LDFLAGS = -fopenmp" + (" -fsanitize=thread" if variant == "tsan" else " -fsanitize=address,undefined" if "sanitize" in flags else ""),
            "make_int_python = 1",
            "INCDIRS += -I/usr/include/python3.12 -I/usr/lib/python3/dist-packages/numpy/core/include",
            "-include $(wildcard *.d)", ""])
        put(os.path.join(tree, "make.inc"), mk)
        # scanner
        yl = os.path.join(REPO, "utils", "input_yylex.l")
        def sha(p):
            return hashlib.sha256(open(p, "rb").read()).hexdigest()
        yc, yh = (os.path.join(REPO, "utils", "input_yylex." + e) for e in "ch")
        if os.path.exists(yc) and (sha(yc), sha(yh)) == (
                "f1c5a5684c8dc72146bb3426df414a988fd4a0bc8f5c8d57f7f8c52380fa4210",
                "28d63a5c2886dabdd4b5e7e6e6a3fd7a3f976f5d961c78fbdb4f09ae86d66f9e"):
            fl = os.path.join(base, "flex"); os.makedirs(fl, exist_ok=True)
            shutil.copy(yl, fl)
            sh(["flex", "--header-file=input_yylex.h", "-oinput_yylex.c", "input_yylex.l"], cwd=fl)
            src = fl
        else:
            src = os.path.join(REPO, "utils")
        for e in "ch":
            put(os.path.join(tree, "utils", "input_yylex." + e), open(os.path.join(src, "input_yylex." + e)).read())
        sh("touch -d 2000-01-01 utils/*.l interfaces/*.def", cwd=tree)
        # changed settings or headers handled by -MMD; a settings change starts again
        cfg = hashlib.sha256()
        for p in ["make.inc", "common.inc"] + sorted(glob.glob(tree + "/*/Makefile")) + sorted(glob.glob(tree + "/*/depend.inc")):
            cfg.update(open(os.path.join(tree, p), "rb").read())
        for p in sorted(glob.glob(tree + "/*/*.f") + glob.glob(tree + "/*/*.f90") + glob.glob(tree + "/*/xrtm*.inc")):
            cfg.update(open(p, "rb").read())
        stamp = os.path.join(base, "stamp")
        if put(stamp, cfg.hexdigest()):
            for d in ("src", "misc", "utils", "interfaces", "examples"):
                for pat in ("*.o", "*.d", "*.a", "*.so", "*.mod"):
                    for f in glob.glob(os.path.join(tree, d, pat)):
                        os.unlink(f)
        for o in glob.glob(tree + "/*/*.o"):
            s = o[:-2]
            if not any(os.path.exists(s + e) for e in (".c", ".cpp", ".f", ".f90")):
                os.unlink(o)
        j = "-j%d" % (os.cpu_count() or 4)
        for d in ("src", "misc"):
            # two runs at once would race; within a run make parallelises
            sh(["make", j, "-C", d, "all"], cwd=tree)
        if "utils" in parts:
            sh(["make", j, "-C", "utils", "all"], cwd=tree)
        if "interfaces" in parts:
            sh(["make", j, "-C", "interfaces", "xrtm_int_f90.o"], cwd=tree)
            sh(["make", j, "-C", "interfaces", "all"], cwd=tree)
        # the shim libraries: libvx.so, and libvxm.so with the library's allocations wrapped
        defs = '-DGBYTE_ORDER=BYTE_ORDER_LE -DNATIVE_SIZE=NATIVE_SIZE_64_BIT -DUNIX -DPLATFORM=LINUX_GCC'
        wrap = " ".join("-Wl,--wrap=" + f for f in ("malloc", "calloc", "realloc", "free", "strdup"))
        shims = [("libvx.so", ("shim.c",), "", ()), ("libvxm.so", ("shim.c", "memwrap.c"), wrap, ())]
        if variant == "tsan": shims.pop()
        if "utils" in parts: shims.append(("libvxi.so", ("shim.c", "inputshim.c"), "-I%s/utils" % tree, (tree + "/utils/libxrtm_input.a",)))
        if "dist" in parts: shims.append(("libvxd.so", ("shim.c", tree + "/misc/rtutil_size_dist.c"), "-Wl,--allow-multiple-definition", ()))   # not in the Makefile's library
        if "interfaces" in parts:
            o = tree + "/interfaces/"
            shims.append(("libvy.so", ("shim.c",), "-I%s %s%s/cppshim.o" % (o, "", base), (tree + "/interfaces/libxrtm_interfaces.a", o + "xrtm_int_jl_util.o")))
            src = os.path.join(VERIF, "csrc", "cppshim.cpp"); ob = base + "/cppshim.o"
            hs = [src, o + "xrtm_int_cpp.h"] + glob.glob(tree + "/src/*.h")
            if not os.path.exists(ob) or any(os.path.getmtime(x) >= os.path.getmtime(ob) for x in hs):
                sh("g++ -w %s %s -I%s/src -I%s/misc -I%s -c %s -o %s.tmp && mv %s.tmp %s" % (flags, defs, tree, tree, o, src, ob, ob, ob))
            more_libs = {"libvy.so": " -lstdc++"}
        else: more_libs = {}
        for name, cs, extra, more in shims:
            so = os.path.join(base, name)
            srcs = [os.path.join(VERIF, "csrc", c) for c in cs]
            libs = [tree + "/src/libxrtm.a", tree + "/misc/libxrtm_misc.a"] + list(more)
            if not os.path.exists(so) or any(os.path.getmtime(x) >= os.path.getmtime(so) for x in srcs + libs):
                tmp = so + ".tmp%d" % os.getpid()
                sh("gcc %s %s -shared -o %s -I%s/src -I%s/misc %s %s -Wl,--whole-archive %s -Wl,--no-whole-archive -lopenblas -lgfortran -lm%s"
                   % (flags, defs, tmp, tree, tree, " ".join(srcs), extra, " ".join(libs), more_libs.get(name, "")))
                os.rename(tmp, so)
    return tree

def lib(variant="opt", name="libvx.so"):
    return os.path.join(BUILD, variant, name)

if __name__ == "__main__":
    build(sys.argv[1] if len(sys.argv) > 1 else "opt", tuple(sys.argv[2:]) or ("src", "misc"))
