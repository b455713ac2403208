"""Loads the exported program."""
import hashlib
import json
import os
import subprocess
import sys

import norm

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CACHE = os.environ.get("VERIF_CACHE", BUILD)


class AnalysisError(Exception):
    """The analysis could not be carried out (exit status 2)."""


class Program:
    def __init__(self, data):
        self.files = data["files"]
        self.fns = data["fns"]
        self.types = data["types"]
        self.recs = data["recs"]
        self.globs = data["globs"]
        for i, f in enumerate(self.fns):
            f["id"] = i
            norm.normalise(f.get("body"))
        self.by_q = {}
        for r in self.recs:
            r["qual"] = self._bare(r["qual"])
        for f in self.fns:
            if f.get("method") and f.get("rec") is not None and f["rec"] >= 0:
                f["q"] = self.recs[f["rec"]]["qual"] + "::" + self._bare(f["n"])
            elif f["q"].endswith(f["n"]):
                f["q"] = self._bare(f["q"][:-len(f["n"])]) + f["n"]
        for f in self.fns:
            self.by_q.setdefault(f["q"], []).append(f)
        self.ctors = {}
        for f in self.fns:
            if f.get("ctor") and not f.get("deleted"):
                self.ctors.setdefault(f["rec"], []).append(f)
        self.rec_by_name = {r["name"]: i for i, r in enumerate(self.recs)}

    @staticmethod
    def _bare(s):
        """Drops balanced template argument lists."""
        if s.startswith("operator"):
            return s
        out, d = [], 0
        for ch in s:
            if ch == "<":
                d += 1
            elif ch == ">":
                d -= 1
            elif d == 0:
                out.append(ch)
        return "".join(out)

    # ------------------------------------------------------------ places
    def loc(self, l):
        if l is None:
            return "?"
        f = self.files[l // 1000000]
        if f.startswith(REPO + "/"):
            f = f[len(REPO) + 1:]
        return "%s:%d" % (f, l % 1000000)

    def file_of(self, l):
        if l is None:
            return "?"
        f = self.files[l // 1000000]
        return f[len(REPO) + 1:] if f.startswith(REPO + "/") else f

    # ------------------------------------------------------------- types
    def ty(self, t):
        return self.types[t] if t is not None and t >= 0 else {"k": "none", "s": ""}

    def unref(self, t):
        x = self.ty(t)
        while x["k"] in ("ref", "rref"):
            t = x["to"]
            x = self.ty(t)
        return t

    def rec_of(self, t):
        """Record of a type, looking through references."""
        x = self.ty(self.unref(t))
        if x["k"] == "rec":
            return self.recs[x["rec"]]
        return None

    def rec_fields(self, r):
        """All fields, those of the bases first."""
        out = []
        for b in r.get("bases", ()):
            out += self.rec_fields(self.recs[b])
        return out + list(r.get("fields", ()))

    # --------------------------------------------------------- functions
    def find(self, q, body=True, pred=None):
        """Functions by qualified name (without template arguments)."""
        out = [f for f in self.by_q.get(q, ()) if (not body or "body" in f)]
        if pred:
            out = [f for f in out if pred(f)]
        return out

    def one(self, q, pred=None):
        fs = self.find(q, pred=pred)
        if not fs:
            raise AnalysisError("anchor not found: %s" % q)
        return fs[0]


def _hash_inputs(extra=()):
    h = hashlib.sha256()
    paths = []
    for root in (os.path.join(REPO, "include"), os.path.join(REPO, "lmb"), os.path.join(REPO, "apps")):
        for d, ds, fs in os.walk(root):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".hpp", ".h", ".inc", ".cpp", ".c", ".cc", ".hh")):
                    paths.append(os.path.join(d, f))
    for d in (os.path.join(VERIF, "driver"), os.path.join(VERIF, "tool")):
        for f in sorted(os.listdir(d)):
            paths.append(os.path.join(d, f))
    for p in paths:
        h.update(p.encode())
        with open(p, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()[:24]


def load(tu="all.cpp"):
    """Exports /repo's current tree (cached by the content of every input) and loads it."""
    os.makedirs(BUILD, exist_ok=True)
    subprocess.run([os.path.join(VERIF, "tool", "build.sh")], check=True)
    key = _hash_inputs()
    os.makedirs(CACHE, exist_ok=True)
    out = os.path.join(CACHE, "ir-%s-%s.json" % (tu.replace(".cpp", ""), key))
    if not os.path.exists(out):
        inc = subprocess.run(["/usr/bin/python3", "-m", "pybind11", "--includes"],
                             check=True, capture_output=True, text=True).stdout.split()
        base = ["-std=c++17", "-I" + REPO, "-I" + REPO + "/include", "-isystem", "/usr/include/eigen3",
                "-fopenmp", "-fPIC", "-w", "-resource-dir", "/usr/lib/llvm-18/lib/clang/18"] + inc
        tmp = out + ".tmp%d" % os.getpid()
        err = ""
        for extra in ([], ["-DVERIF_NO_EXTRA"]):
            r = subprocess.run([os.path.join(BUILD, "export"), tmp, REPO + "/," + VERIF + "/driver/",
                                os.path.join(VERIF, "driver", tu), "--"] + base + extra,
                               capture_output=True, text=True, cwd=BUILD)
            if r.returncode == 0 and os.path.exists(tmp):
                break
            err += r.stderr
            if tu != "all.cpp":
                break
        else:
            pass
        if not os.path.exists(tmp):
            raise AnalysisError("the code base does not parse:\n" + err[-3000:])
        for f in os.listdir(CACHE):
            if f.startswith("ir-%s-" % tu.replace(".cpp", "")) and ".tmp" not in f:
                try:
                    os.remove(os.path.join(CACHE, f))
                except OSError:
                    pass
        os.rename(tmp, out)
    with open(out) as fh:
        return Program(json.load(fh))
