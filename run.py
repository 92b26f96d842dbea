#!/usr/bin/env python3
"""run.py <property id> [--cases N] [--seed S] [--stats] [--case I] [--replay FILE] [--thorough]"""
import os, sys
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("OMP_NUM_THREADS", "1")
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "lib"), os.path.join(HERE, "checks")]
import importlib, pbt
if __name__ == "__main__":
    m = importlib.import_module(sys.argv[1].lower())
    if m.P.sanitized and "VX_SAN" not in os.environ:      # the sanitizer has to be loaded before Python
        import subprocess
        f = [subprocess.check_output(["gcc", "-print-file-name=lib%s.so" % n], text=True).strip() for n in ("asan", "ubsan")]
        os.environ.update(VX_SAN="1", LD_PRELOAD=":".join(f), PYTHONMALLOC="malloc",
                          ASAN_OPTIONS="detect_leaks=0:halt_on_error=1:exitcode=77:abort_on_error=0:detect_stack_use_after_return=0:allocator_may_return_null=1",
                          UBSAN_OPTIONS="halt_on_error=1:print_stacktrace=1:exitcode=78")
        os.execv(sys.executable, [sys.executable] + sys.argv)
    pbt.main(m.P(), sys.argv[2:])
