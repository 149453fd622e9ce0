"""A verification unit: functions extracted from the expanded crate + contracts -> one Verus file.

A unit never contains code under verification: every exec function it emits is either extracted
from /repo on this run (kind "extracted") or is an assumed contract of a dependency
(kind "assumed", listed in the evidence).  Contracts, loop invariants and ghost code are attached
to the extracted text by position (nth loop) or by a token pattern (ghost)."""
import json
import os
import re
import subprocess
import time

from rsx import (Crate, ExtractError, TRANSFORMS, is_id, is_op, lex, loop_body, loops, match_close,
                 render, strip_ws, subst, t_bytes, t_debug, t_enum, t_forcont, t_iter, t_letchain, t_panic, t_revrange, t_lateset, t_whileblock, t_unchecked)

RAW = "raw"


def toks(s):
    return strip_ws(lex(s))


def find_pat(ts, pat, start=0):
    p = toks(pat)
    n = len(p)
    for i in range(start, len(ts) - n + 1):
        if all(ts[i + k][1] == p[k][1] and ts[i + k][0] != RAW for k in range(n)):
            return i
    return -1


def stmt_end(ts, i):
    """index just past the `;` (or block) ending the statement that contains ts[i]"""
    d = 0
    n = len(ts)
    while i < n:
        t = ts[i]
        if t[0] == "op":
            if t[1] in "([{":
                i = match_close(ts, i)
            elif t[1] in ")]}":
                return i
            elif t[1] == ";":
                return i + 1
        i += 1
    return n


class Unit:
    def __init__(self, name):
        self.name = name
        self.parts = []  # (kind, ...)
        self.assumptions = []
        self.dropped = []

    # -- text written by hand: spec functions, lemmas, stand-ins for dependencies
    def text(self, s):
        self.parts.append(("text", s))

    def lemmas(self, s):
        """lemmas proved in another unit of the same check: statements only"""
        self.parts.append(("text", re.sub(r"(?m)^(pub )?proof fn", "#[verifier::external_body] pub proof fn", s)))

    def assume(self, s, why):
        """assumed contract (trusted): text + one line for the evidence"""
        self.parts.append(("text", s))
        self.assumptions.append(why)

    def struct(self, mod, name, keep=None, attrs="", types=None, add="", rename=None):
        self.parts.append(("struct", mod, name, keep, attrs, types or {}, add, rename))

    def enum(self, mod, name, attrs=""):
        self.parts.append(("enum", mod, name, attrs))

    def const(self, mod, impl, name, into=None):
        self.parts.append(("const", mod, impl, name, into))

    def frame(self, mod, impl, name, fields, calls=()):
        """syntactic frame check of a function whose contract is assumed: it may write only these
        fields of self, and call only the listed (read-only or themselves framed) methods"""
        self.parts.append(("frame", mod, impl, name, set(fields), set(calls)))

    def fn(self, mod, impl, name, **kw):
        self.parts.append(("fn", mod, impl, name, kw))

    def uses(self, other, labels):
        """functions verified in another unit: only their signature (extracted) and their contract (the same text) are emitted"""
        for want in labels:
            for p in other.parts:
                if p[0] == "fn" and (p[4].get("into") + "::" if p[4].get("into") else "") + (p[4].get("rename") or p[3]) == want:
                    self.parts.append(("use", p[1], p[2], p[3], p[4], other.name))
                    break
            else:
                raise ValueError(want)

    # ------------------------------------------------------------------
    def build(self, crate, canary=False):
        """-> (text, [(fnname, first_line, last_line)], skeletons)"""
        out = ["#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_parens, unused_assignments, non_camel_case_types, unused_braces)]\n",
               "use vstd::prelude::*;\nverus! {\nglobal size_of usize == 8;\n"]
        where = []
        skel = {}
        self.dropped = []

        def emit(s):
            out.append(s if s.endswith("\n") else s + "\n")

        for p in self.parts:
            if p[0] == "text":
                emit(p[1])
            elif p[0] == "struct":
                emit(self._struct(crate, *p[1:]))
            elif p[0] == "gen":
                emit(p[1](crate))
            elif p[0] == "enum":
                _, mod, name, attrs = p
                t = crate.enums.get((mod, name))
                if t is None:
                    raise ExtractError(f"enum {mod}::{name} not found")
                emit(attrs + "\npub " + render(t))
            elif p[0] == "const":
                _, mod, impl, name, into = p
                t = crate.consts.get((mod, impl, name))
                if t is None:
                    raise ExtractError(f"const {mod}::{name} not found")
                s = "pub " + render(t)
                emit(f"impl {into} {{ {s} }}" if into else s)
            elif p[0] == "use":
                s, _ = self._fn(crate, p[1], p[2], p[3], p[4], False, stub=True)
                self.dropped.append(f"body of {p[3]} (its contract is discharged in unit {p[5]})")
                emit(s)
            elif p[0] == "frame":
                self._frame(crate, *p[1:])
            elif p[0] == "fn":
                _, mod, impl, name, kw = p
                s, sk = self._fn(crate, mod, impl, name, kw, canary)
                first = sum(x.count("\n") for x in out) + 1
                emit(s)
                last = sum(x.count("\n") for x in out)
                label = (kw.get("into") + "::" if kw.get("into") else "") + (kw.get("rename") or name)
                where.append((label, first, last, f"{mod}::{name}"))
                skel[label] = sk
        emit("} // verus!\nfn main() {}")
        return "".join(out), where, skel

    def _struct(self, crate, mod, name, keep, attrs, types, add, rename):
        t = crate.structs.get((mod, name))
        if t is None:
            raise ExtractError(f"struct {mod}::{name} not found")
        k = next((i for i, x in enumerate(t) if is_op(x, "{")), None)
        if k is None:
            return attrs + "\npub " + render(t)
        j = match_close(t, k)
        fields = []
        i = k + 1
        while i < j:
            while is_id(t[i], "pub"):
                i += 1
                if is_op(t[i], "("):
                    i = match_close(t, i) + 1
            fname = t[i][1]
            e = i + 2
            d = 0
            while e < j and not (is_op(t[e], ",") and d == 0):
                if t[e][0] == "op":
                    if t[e][1] in "([{":
                        e = match_close(t, e)
                    elif t[e][1] == "<":
                        d += 1
                    elif t[e][1] == ">":
                        d -= 1
                    elif t[e][1] == ">>":
                        d -= 2
                e += 1
            fields.append((fname, t[i + 2 : e]))
            i = e + 1
        names = [f[0] for f in fields]
        if keep is not None:
            for f in keep:
                if f not in names:
                    raise ExtractError(f"field {name}.{f} not found")
            self.dropped += [f"field {name}.{f} (not used by the functions of this unit)" for f in names if f not in keep]
            fields = [f for f in fields if f[0] in keep]
        body = ""
        for f, ty in fields:
            body += f"    pub {f}: {types.get(f) or render(ty).strip()},\n"
        return f"{attrs}\npub struct {rename or name} {{\n{body}{add}}}\n"

    def _frame(self, crate, mod, impl, name, fields, calls):
        from rsx import calls as called
        sig, body = crate.fn(mod, impl, name).split()
        body = t_debug(body)
        ro = {"get", "iter", "is_some", "is_none", "len", "skip", "is_empty", "vi", "Some", "Ok", "Err"}
        own = set()
        for i, t in enumerate(body):
            if is_id(t, "self") and i + 2 < len(body) and is_op(body[i + 1], "."):
                if body[i + 2][1] in fields:
                    # anything may happen to an allowed field
                    k = i + 3
                    while k + 1 < len(body) and is_op(body[k], "."):
                        own.add(k + 1)
                        k += 2
                        if k < len(body) and is_op(body[k], "("):
                            k = match_close(body, k) + 1
                    continue
                k = i + 3
                while k < len(body) and (is_op(body[k], ".") or is_op(body[k], "[")):
                    k = match_close(body, k) + 1 if is_op(body[k], "[") else k + 2
                if k < len(body) and body[k][0] == "op" and body[k][1] in ("=", "+=", "-=", "*=", "/=", "|=", "&="):
                    raise ExtractError(f"{name} writes self.{body[i + 2][1]}, which its assumed contract excludes")
            if is_op(t, "&") and i + 1 < len(body) and is_id(body[i + 1], "mut"):
                raise ExtractError(f"{name} takes a mutable reference, which its assumed contract excludes")
        for i, t in enumerate(body):
            if t[0] == "id" and i + 1 < len(body) and is_op(body[i + 1], "(") and i not in own and t[1] not in ro and t[1] not in calls and t[1] not in ("if", "while", "match", "in", "for"):
                raise ExtractError(f"{name} calls {t[1]}, which its assumed contract does not cover")

    def _fn(self, crate, mod, impl, name, kw, canary, stub=False):
        f = crate.fn(mod, impl, name)
        sig, body = f.split()
        if stub:
            body = []
            kw = {k: v for k, v in kw.items() if k not in ("ghost", "loops", "nloops", "drop", "lateset")}
            kw["subst"] = [s[:2] for s in kw.get("subst", [])]
        body = t_bytes(t_whileblock(t_revrange(t_letchain(t_unchecked(t_panic(t_debug(body)))))))
        sig = list(sig)
        for s in kw.get("subst", []):
            pat, rep = s[0], s[1]
            body, n1 = subst(body, pat, rep)
            sig, n2 = subst(sig, pat, rep)
            if len(s) > 2 and s[2] is not None and n1 + n2 != s[2]:
                raise ExtractError(f"{name}: expected {s[2]} occurrences of `{pat}`, found {n1 + n2}")
        for pat, rep, why in kw.get("drop", []):
            body, n1 = subst(body, pat, rep)
            if n1:
                self.dropped.append(f"in {name}: `{pat}` -> `{rep}` ({why})")
        body = t_forcont(t_iter(t_enum(body)))
        if kw.get("lateset"):
            body = t_lateset(body)
        lp = loops(body)
        skeleton = [k for _, k in lp]
        lspec = kw.get("loops", {})
        if kw.get("nloops") is not None and len(lp) != kw["nloops"]:
            raise ExtractError(f"{name}: {len(lp)} loops, contracts written for {kw['nloops']}")
        # ghost insertions use patterns on the code before invariants are added
        ins = []
        for g in kw.get("ghost", []):
            pos, pat, text = g[0], g[1], g[2]
            nth = g[3] if len(g) > 3 else 0
            i = -1
            for _ in range(nth + 1):
                i = find_pat(body, pat, i + 1)
                if i < 0:
                    raise ExtractError(f"{name}: place `{pat}` for a ghost annotation not found")
            n = len(toks(pat))
            if pos == "before":
                at = i
            elif pos == "after":
                at = i + n
            elif pos == "after_stmt":
                at = stmt_end(body, i)
            else:
                raise ValueError(pos)
            ins.append((at, text))
        for k, spec in lspec.items():
            if k >= len(lp):
                raise ExtractError(f"{name}: loop {k} not found")
            i, kind = lp[k]
            b = loop_body(body, i)
            if isinstance(spec, str):
                spec = {"inv": spec}
            ins.append((b, "\n" + spec["inv"] + "\n"))
            if spec.get("it"):
                j = next((x for x in range(i, b) if is_id(body[x], "in")), None)
                if j is None:
                    raise ExtractError(f"{name}: loop {k} is not a for loop")
                ins.append((j + 1, f" {spec['it']}: "))
            if spec.get("attr"):
                lab = i >= 2 and is_op(body[i - 1], ":") and body[i - 2][1].startswith("'")
                ins.append((i - 2 if lab else i, spec["attr"] + " "))
            if spec.get("top"):
                ins.append((b + 1, "\n" + spec["top"] + "\n"))
            if spec.get("bottom"):
                ins.append((match_close(body, b), "\n" + spec["bottom"] + "\n"))
            if spec.get("after"):
                ins.append((match_close(body, b) + 1, "\n" + spec["after"] + "\n"))
        order = sorted(range(len(ins)), key=lambda x: (ins[x][0], x))
        nb = []
        pos = 0
        for x in order:
            nb += body[pos : ins[x][0]] + [(RAW, ins[x][1])]
            pos = ins[x][0]
        nb += body[pos:]
        # signature: name the result
        d = 0
        arrow = None
        wh = len(sig)
        for i, t in enumerate(sig):
            if t[0] == "op" and t[1] in "([":
                d += 1
            elif t[0] == "op" and t[1] in ")]":
                d -= 1
            elif is_op(t, "->") and d == 0:
                arrow = i
            elif is_id(t, "where") and d == 0:
                wh = i
        head, where = sig, []
        if arrow is not None:
            head = sig[: arrow + 1] + [(RAW, f"({kw.get('ret', 'r')}: ")] + sig[arrow + 1 : wh] + [(RAW, ")")]
            where = sig[wh:]
        else:
            head, where = sig[:wh], sig[wh:]
        if kw.get("rename"):
            head = [(t[0], kw["rename"]) if t == ("id", name) else t for t in head]
        if kw.get("sig"):
            head = [(RAW, kw["sig"])]
            if kw.get("nowhere"):
                where = []
        spec = kw.get("spec", "")
        if stub:
            vis = "" if " for " in kw.get("into", "") else "pub "
            s = kw.get("attrs", "") + "\n#[verifier::external_body]\n" + vis + render(head) + render(where) + "\n" + spec + "\n{ unimplemented!() }\n"
            if kw.get("into"):
                s = f"impl{kw.get('generics', '')} {kw['into']} {{\n{kw.get('impl_pre', '')}{s}}}\n"
            return s, []
        pre = kw.get("pre", "")
        if canary:
            pre = pre + "\nproof { assert(false); }"
        vis = "" if " for " in kw.get("into", "") else "pub "
        s = kw.get("attrs", "") + "\n" + vis + render(head) + render(where) + "\n" + spec + "\n{\n" + pre + "\n" + render(nb) + "\n" + kw.get("post", "") + "}\n"
        if kw.get("into"):
            s = f"impl{kw.get('generics', '')} {kw['into']} {{\n{kw.get('impl_pre', '')}{s}}}\n"
        return s, skeleton


# ---------------------------------------------------------------------------------------------


def verus(path, rlimit=30, threads=4, timeout=600, extra=()):
    env = dict(os.environ)
    t0 = time.time()
    cmd = ["verus", "--edition", "2024", path, "--output-json", "--time-expanded", "--multiple-errors", "3",
           "--rlimit", str(rlimit), "--num-threads", str(threads), *extra, "--", "--error-format=json"]
    cmd = [c for c in cmd if c != "--"]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, env=env,
                           cwd=os.path.dirname(path))
        out, err, rc = p.stdout, p.stderr, p.returncode
    except subprocess.TimeoutExpired:
        return {"status": "timeout", "wall": time.time() - t0, "cmd": " ".join(cmd), "errors": [], "verified": 0, "failed": 0, "smt_ms": 0}
    res = {"wall": time.time() - t0, "cmd": " ".join(cmd), "errors": [], "verified": 0, "failed": 0, "smt_ms": 0.0, "rc": rc}
    try:
        j = json.loads(out)
    except ValueError:
        j = None
    diags = []
    for line in err.splitlines():
        if line.startswith("{"):
            try:
                d = json.loads(line)
            except ValueError:
                continue
            if d.get("level") == "error":
                diags.append(d)
    for d in diags:
        sp = [s for s in d.get("spans", [])]
        prim = [s["line_start"] for s in sp if s.get("is_primary")]
        res["errors"].append({
            "message": d["message"],
            "lines": prim + [s["line_start"] for s in sp if not s.get("is_primary")],
            "labels": [(s.get("line_start"), s.get("label")) for s in sp if s.get("label")],
            "text": [t["text"].strip() for s in sp for t in s.get("text", [])][:4],
        })
    if j is None or "verification-results" not in j:
        res["status"] = "error"
        res["stderr"] = err[-3000:]
        return res
    vr = j["verification-results"]
    res["verified"] = vr.get("verified", 0)
    res["failed"] = vr.get("errors", 0)
    vir = vr.get("encountered-vir-error", False) or vr.get("encountered-error", False) and res["failed"] == 0
    fb = {}
    try:
        for m in j["times-ms"]["smt"]["smt-run-module-times"]:
            for f in m.get("function-breakdown", []):
                fb[f["function"]] = {"ok": f.get("success"), "us": f.get("time-micros", 0), "rlimit": f.get("rlimit")}
        res["smt_ms"] = j["times-ms"]["smt"].get("total", 0)
    except (KeyError, TypeError):
        pass
    res["functions"] = fb
    if vr.get("success") and res["failed"] == 0 and not vir:
        res["status"] = "ok"
    elif vir or res["failed"] == 0:
        res["status"] = "error"
        res["stderr"] = err[-3000:]
    else:
        res["status"] = "rejected"
    return res
