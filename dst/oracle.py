"""Reference meaning of a generated program: the host compiler's."""
import os
import shutil
import subprocess
import tempfile

PRE = ("#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include <stdbool.h>\n"
       "#define sizeof(x) ((int) sizeof(x))\n#line 1\n")
FLAGS = ["-O0", "-fwrapv", "-fno-strict-aliasing", "-funsigned-char", "-fno-builtin", "-std=gnu11"]
RET = ["-Wreturn-type", "-Werror=return-type"]


class Reference:
    def __init__(self):
        self.d = tempfile.mkdtemp(prefix="dstref")

    def close(self):
        shutil.rmtree(self.d, ignore_errors=True)

    def clean(self, files, main):
        """no undefined behaviour and nothing read that was not written"""
        for k, v in files.items():
            p = os.path.join(self.d, k)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write((PRE.encode() if k == main else b"") + v)
        for fl in (["-fsanitize=memory"], ["-fsanitize=undefined,address",
                   "-fno-sanitize=signed-integer-overflow,shift"]):
            exe = self.d + "/clean"
            p = subprocess.run(["clang", "-O0", "-g", "-Werror=return-type", "-Werror=format", "-Werror=format-extra-args", "-Werror=int-conversion", "-fwrapv", "-fno-strict-aliasing", "-funsigned-char",
                                "-fno-sanitize-recover=all"] + fl + ["-o", exe, os.path.join(self.d, main)],
                               cwd=self.d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode:
                return False
            try:
                p = subprocess.run([exe], cwd=self.d, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                   env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0"),
                                   stdin=subprocess.DEVNULL, timeout=20)
            except subprocess.TimeoutExpired:
                return False
            if p.stderr or p.returncode < 0:
                return False
        return True

    def run(self, files, main, args=("prog",), timeout=10, san=False, uninit=False, extra=()):
        """(exit status, stdout) or None when the host compiler refuses it or
        it does not behave (which would be the generator's fault)"""
        for k, v in files.items():
            p = os.path.join(self.d, k)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write((PRE.encode() if k == main else b"") + v)
        exe = self.d + "/ref"
        if uninit:
            a = self.run(files, main, args, timeout, extra=["-ftrivial-auto-var-init=pattern"] + RET)
            b = self.run(files, main, args, timeout, extra=["-ftrivial-auto-var-init=zero"] + RET)
            return a if a == b else (None, "uninitialised")
        extra = list(extra) + ["-w"] * (not extra) + (["-fsanitize=undefined,address", "-fno-sanitize-recover=all", "-fno-sanitize=signed-integer-overflow,shift"] if san else [])
        p = subprocess.run(["gcc"] + FLAGS + list(extra) + ["-o", exe, os.path.join(self.d, main)], cwd=self.d,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            return None, p.stdout.decode("utf-8", "replace")
        try:
            p = subprocess.run([exe] + list(args[1:]), cwd=self.d, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               stdin=subprocess.DEVNULL, timeout=timeout)
        except subprocess.TimeoutExpired:
            return None, "timeout"
        if p.returncode < 0 or (san and p.stderr):
            return None, "signal %d %s" % (-p.returncode, p.stderr[-1500:].decode("utf-8", "replace"))
        return (p.returncode, p.stdout), ""
