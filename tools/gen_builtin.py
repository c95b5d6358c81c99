#!/usr/bin/env python3
"""Reads the built-in puzzle definition files of /repo and writes, for the verifier,
what they say (the trusted decoding of the JSON) and the obligations of C20: each file makes a
puzzle, its default pattern is one, each move's meaning, and the relations of the real puzzles.

Nothing computed here is believed: values of derived moves and the claim that a relation holds are
only hints (which lemma to try); a wrong hint, or a relation that does not hold, is an obligation
that does not go through."""
import json, os, re, sys

RELATIONS = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "relations.json")))


class Lost(Exception):
    pass


def parse_move(s):
    m = re.fullmatch(r"(\d*)([A-Za-z]{1,2})(\d*)('?)", s)
    if not m:
        raise Lost("move %r" % s)
    p = 0 if m.group(1) == "" else 1 + int(m.group(1))
    f = m.group(2)
    c = ord(f) if len(f) == 1 else ord(f[0]) * 0x110000 + ord(f[1])
    a = 1 if m.group(3) == "" else int(m.group(3))
    return (p, c, -a if m.group(4) else a)


def parse_word(s):
    return [parse_move(x) for x in s.split()]


def parse_alg(s):
    s = s.strip()
    m = re.fullmatch(r"\[([^\[\]:,()]*)([:,])([^\[\]:,()]*)\]", s)
    if m:
        return ("Conj" if m.group(2) == ":" else "Comm", parse_word(m.group(1)), parse_word(m.group(3)))
    return ("Word", parse_word(s))


# --- the untrusted evaluation ---
def comp(sh, a, b):
    return [[(a[j][b[j][i][0]][0], (a[j][b[j][i][0]][1] + b[j][i][1]) % sh[j][1]) for i in range(sh[j][0])] for j in range(len(sh))]


def ident(sh):
    return [[(i, 0) for i in range(n)] for n, _ in sh]


def power(sh, t, n):
    r = ident(sh)
    for _ in range(n):
        r = comp(sh, r, t)
    return r


def winv(w):
    return [(p, f, -a) for p, f, a in reversed(w)]


def lit_t(t):
    return "seq![%s]" % ", ".join("seq![%s]" % ", ".join("(%s)" % ", ".join("%dint" % x for x in c) for c in r) if r else "Seq::empty()" for r in t)


def lit_w(w):
    return "seq![%s]" % ", ".join("(%dint, %dint, %dint)" % k for k in w) if w else "Seq::<MKey>::empty()"


def lit_v(names):
    return "seq![%s]" % ", ".join(n + "()" for n in names) if names else "Seq::<TV>::empty()"


def fill(ls, n):
    return [tuple(l[i] if i < len(l) else -1 for l in ls) for i in range(n)]


def u8(x):
    if not (isinstance(x, int) and not isinstance(x, bool) and 0 <= x <= 255):
        raise Lost("not a byte: %r" % (x,))
    return x


class Gen:
    def __init__(self, tag, d, rel):
        self.tag, self.rel, self.out = tag, rel, []
        self.sh = [(u8(o["numPieces"]), u8(o["numOrientations"])) for o in d["orbits"]]
        self.names = [o["orbitName"] for o in d["orbits"]]
        self.direct, self.derived = {}, {}
        for k, m in d["moves"].items():
            t = []
            for o in self.names:
                if o in m:
                    p, q = [u8(x) for x in m[o]["permutation"]], [u8(x) for x in m[o]["orientationDelta"]]
                    t.append(fill([p, q], max(len(p), len(q))))
                else:
                    t.append([(-1, -1)])
            self.direct[parse_move(k)] = t
        for k, a in (d.get("derivedMoves") or {}).items():
            self.derived[parse_move(k)] = parse_alg(a)
        self.pat = []
        for o in self.names:
            e = d["defaultPattern"].get(o)
            if e is None:
                self.pat.append([(-1, -1, -1)])
                continue
            p, q = [u8(x) for x in e["pieces"]], [u8(x) for x in e["orientation"]]
            m = e.get("orientationMod")
            n = max(len(p), len(q), len(m) if m is not None else 0)
            m = [u8(x) for x in m] if m is not None else [0] * n
            self.pat.append(fill([p, q, m], n))

    def n(self, q):
        return "v%s_%d_%d" % (self.tag, q[0], q[1])

    def w(self, s):
        self.out.append(s)

    def good(self, t):
        return len(t) == len(self.sh) and all(1 <= no <= 107 and len(r) == n and sorted(x for x, _ in r) == list(range(n)) and all(0 <= y < no for _, y in r)
                                              for (n, no), r in zip(self.sh, t))

    def word(self, w, val):
        r = ident(self.sh)
        for p, f, a in w:
            r = comp(self.sh, r, power(self.sh, val[(p, f)], a % 4))
        return r

    def run(self):
        T, w, sh = self.tag, self.w, self.sh
        w("pub open spec fn sh%s() -> Shape { seq![%s] }" % (T, ", ".join("(%dint, %dint)" % s for s in sh)))
        # values
        val, order = {}, []
        for k in self.direct:
            if k[2] == 1 and self.good(self.direct[k]):
                val[(k[0], k[1])] = self.direct[k]
                order.append(((k[0], k[1]), None))
        todo = {k: a for k, a in self.derived.items() if k[2] == 1 and k not in self.direct}
        moved = True
        while moved and todo:
            moved = False
            for k, a in list(todo.items()):
                if all((p, f) in val for x in a[1:] for p, f, _ in x):
                    if a[0] == "Word":
                        v = self.word(a[1], val)
                    else:
                        x, y, xi, yi = self.word(a[1], val), self.word(a[2], val), self.word(winv(a[1]), val), self.word(winv(a[2]), val)
                        v = comp(sh, comp(sh, x, y), xi)
                        if a[0] == "Comm":
                            v = comp(sh, v, yi)
                    val[(k[0], k[1])] = v
                    order.append(((k[0], k[1]), a))
                    del todo[k]
                    moved = True
        for q, v in val.items():
            w("pub open spec fn %s() -> TV { %s }" % (self.n(q), lit_t(v)))
        others = {k: "d%s_%d" % (T, i) for i, k in enumerate(self.direct) if not (k[2] == 1 and (k[0], k[1]) in val)}
        for k, nme in others.items():
            w("pub open spec fn %s() -> TV { %s }" % (nme, lit_t(self.direct[k])))
        dn = {k: others.get(k) or self.n((k[0], k[1])) for k in self.direct}

        def chain(items, none):
            return " else ".join("if q == (%dint, %dint, %dint) { Some(%s) }" % (k + (x,)) for k, x in items) + (" else { %s }" % none if items else none)
        w("pub open spec fn direct%s(q: MKey) -> Option<TV> {\n    %s\n}" % (T, chain([(k, dn[k] + "()") for k in self.direct], "None")))
        dl = {k: "DAlg::%s(%s)" % (a[0], ", ".join(lit_w(x) for x in a[1:])) for k, a in self.derived.items()}
        w("pub open spec fn derived%s(q: MKey) -> Option<DAlg> {\n    %s\n}" % (T, chain([(k, dl[k]) for k in self.derived], "None")))
        w("pub open spec fn puz%s() -> Puz {\n    Puz { names: seq![%s], shape: sh%s(), direct: |q: MKey| direct%s(q), derived: |q: MKey| derived%s(q), pattern: pat%s() }\n}"
          % (T, ", ".join("seq![%s]" % ", ".join("%s" % rust_char(c) for c in s) if s else "Seq::empty()" for s in self.names), T, T, T, T))
        w("pub open spec fn pat%s() -> PV { %s }" % (T, lit_t(self.pat)))
        w("/// The definition is what the file says.\npub open spec fn is_file%s(d: KPuzzleDefinition) -> bool { decoded(d, puz%s()) }" % (T, T))

        def comp_assert(e, ok):
            return "    assert(%s) by (compute);" % e if ok else "    // not so"
        S = "sh%s()" % T
        # each direct definition
        for k, nme in dn.items():
            w("/// The data of a direct definition are a transformation.\npub proof fn lemma_%s_move_%s()\n    ensures\n        %s().len() == %s.len(),\n        cok(%s, %s(), %s.len() as int),\n{" % (T, nme, nme, S, S, nme, S))
            w(comp_assert("%s().len() == %s.len()" % (nme, S), len(self.direct[k]) == len(sh)))
            w(comp_assert("cok(%s, %s(), %s.len() as int)" % (S, nme, S), self.good(self.direct[k])))
            w("}")
        # derived values: valid
        for q, a in order:
            if a is not None:
                w("pub proof fn lemma_%s_move_%s()\n    ensures\n        %s().len() == %s.len(),\n        cok(%s, %s(), %s.len() as int),\n{" % (T, self.n(q), self.n(q), S, S, self.n(q), S))
                w(comp_assert("%s().len() == %s.len()" % (self.n(q), S), True))
                w(comp_assert("cok(%s, %s(), %s.len() as int)" % (S, self.n(q), S), self.good(val[q])))
                w("}")
        w("pub proof fn lemma_%s_id()\n    ensures\n        cid(%s, %s.len() as int) == tid(%s),\n        shape_ok(%s),\n        forall|j: int| 0 <= j < %s.len() ==> (#[trigger] %s[j]).0 >= 0 && 1 <= %s[j].1 <= 107,\n{\n    assert(shape_ok(%s));\n    lemma_cid(%s, %s.len() as int);\n}" % ((T,) + (S,) * 10))
        # order four
        for q, a in order:
            nm = self.n(q)
            w("/// The move has order four.\npub proof fn lemma_%s_order_%s()\n    ensures\n        order4(%s, %s()),\n{\n    lemma_%s_id();\n    lemma_%s_move_%s();\n    lemma_cok(%s, %s());" % (T, nm, S, nm, T, T, nm, S, nm))
            w(comp_assert("cpow(%s, %s(), 4) == cid(%s, %s.len() as int)" % (S, nm, S, S), power(sh, val[q], 4) == ident(sh)))
            w("}")
        # resolution
        P = "puz%s()" % T
        names = []
        for q, a in order:
            w("pub proof fn lemma_%s_resolves_%s(d: KPuzzleDefinition)\n    requires\n        is_file%s(d),\n    ensures\n        resolves(d, (%dint, %dint))," % (T, self.n(q), T, q[0], q[1]))
            if a is None:
                w("{\n    lemma_resolves_direct(d, %s, (%dint, %dint));\n}" % (P, q[0], q[1]))
            else:
                x = dl[(q[0], q[1], 1)]
                w("        resolves_alg(d, %s),\n{" % x)
                for u in sorted({(p, f) for y in a[1:] for p, f, _ in y}):
                    w("    lemma_%s_resolves_%s(d);" % (T, self.n(u)))
                ws = [lit_w(y) for y in a[1:]]
                if a[0] == "Word":
                    w("    lemma_resolves_word(d, %s);" % ws[0])
                elif a[0] == "Conj":
                    w("    lemma_resolves_conj(d, %s, %s, %s);" % (ws[0], ws[1], lit_w(winv(a[1]))))
                else:
                    w("    lemma_resolves_comm(d, %s, %s, %s, %s);" % (ws[0], ws[1], lit_w(winv(a[1])), lit_w(winv(a[2]))))
                w("    lemma_resolves_derived(d, %s, (%dint, %dint));\n}" % (P, q[0], q[1]))
        # the definition builds
        w("/// Building the puzzle succeeds.\npub proof fn lemma_%s_builds(d: KPuzzleDefinition)\n    requires\n        is_file%s(d),\n    ensures\n        def_valid(d),\n{" % (T, T))
        w("    lemma_%s_id();" % T)
        for k, nme in dn.items():
            w("    lemma_%s_move_%s();" % (T, nme))
        done = {q for q, _ in order}
        for k, a in self.derived.items():
            if a and (k[0], k[1]) in done and k[2] == 1 and k not in self.direct:
                w("    lemma_%s_resolves_%s(d);" % (T, self.n((k[0], k[1]))))
        w("    lemma_file_valid(d, %s);\n}" % P)
        # the default pattern
        w("/// The default pattern is a pattern of the puzzle.\npub proof fn lemma_%s_pattern(k: KPuzzle)\n    requires\n        k.wf(),\n        is_file%s(k.def()),\n    ensures\n        pdata_ok(k, k.def().default_pattern@),\n{" % (T, T))
        okp = all(len(r) == n and all(x >= 0 and pair_ok(y, z, no) for x, y, z in r) for (n, no), r in zip(sh, self.pat))
        w(comp_assert("pat_ok(%s, pat%s(), %s.len() as int)" % (S, T, S), okp))
        w("    lemma_file_pattern(k, %s);\n}" % P)
        # meaning
        for q, a in order:
            nm = self.n(q)
            w("/// What the move does.\npub proof fn lemma_%s_means_%s(k: KPuzzle)\n    requires\n        k.wf(),\n        is_file%s(k.def()),\n    ensures\n        means(k, %s, (%dint, %dint), %s()),\n{" % (T, nm, T, P, q[0], q[1], nm))
            w("    lemma_%s_order_%s();\n    lemma_%s_move_%s();" % (T, nm, T, nm))
            if a is None:
                w("    lemma_means_direct(k, %s, (%dint, %dint), %s());" % (P, q[0], q[1], nm))
            else:
                for u in sorted({(p, f) for y in a[1:] for p, f, _ in y}):
                    w("    lemma_%s_means_%s(k);" % (T, self.n(u)))
                ws = [lit_w(y) for y in a[1:]]
                vn = lambda y: lit_v([self.n((p, f)) for p, f, _ in y])
                cw = lambda y: "cword(%s, %s, %s, %d)" % (S, lit_w(y), vn(y), len(y))
                if a[0] == "Word":
                    w(comp_assert("%s == %s()" % (cw(a[1]), nm), True))
                    w("    lemma_means_word(k, %s, %s, %s);" % (P, ws[0], vn(a[1])))
                else:
                    ai, bi = winv(a[1]), winv(a[2])
                    e = "ccomp(%s, ccomp(%s, %s, %s, %s.len() as int), %s, %s.len() as int)" % (S, S, cw(a[1]), cw(a[2]), S, cw(ai), S)
                    if a[0] == "Conj":
                        w(comp_assert("%s == %s()" % (e, nm), True))
                        w("    lemma_means_conj(k, %s, %s, %s, %s, %s, %s, %s, %s());" % (P, ws[0], ws[1], lit_w(ai), vn(a[1]), vn(a[2]), vn(ai), nm))
                    else:
                        e = "ccomp(%s, %s, %s, %s.len() as int)" % (S, e, cw(bi), S)
                        w(comp_assert("%s == %s()" % (e, nm), True))
                        w("    lemma_means_comm(k, %s, %s, %s, %s, %s, %s, %s, %s, %s, %s());" % (P, ws[0], ws[1], lit_w(ai), lit_w(bi), vn(a[1]), vn(a[2]), vn(ai), vn(bi), nm))
                w("    lemma_means_derived(k, %s, (%dint, %dint), %s());" % (P, q[0], q[1], nm))
            w("}")
        # relations
        rels = [("%s %s %s %s" % (m, m, m, m), "") for m in self.rel["order4"].split()] + self.rel["same"]
        for i, (l, r) in enumerate(rels):
            a, b = parse_word(l), parse_word(r)
            w("/// %s = %s\npub proof fn lemma_%s_relation_%d(k: KPuzzle)\n    requires\n        k.wf(),\n        is_file%s(k.def()),\n    ensures\n        same_effect(k, %s, %s),\n{" % (l, r or "(nothing)", T, i, T, lit_w(a), lit_w(b)))
            used = sorted({(p, f) for y in (a, b) for p, f, _ in y})
            if all(u in val for u in used):
                for u in used:
                    w("    lemma_%s_means_%s(k);" % (T, self.n(u)))
                vn = lambda y: lit_v([self.n((p, f)) for p, f, _ in y])
                holds = self.word(a, val) == self.word(b, val)
                w(comp_assert("cword(%s, %s, %s, %d) == cword(%s, %s, %s, %d)" % (S, lit_w(a), vn(a), len(a), S, lit_w(b), vn(b), len(b)), holds))
                w("    lemma_same_effect(k, %s, %s, %s, %s, %s);" % (P, lit_w(a), vn(a), lit_w(b), vn(b)))
            w("}")
        return "\n".join(self.out) + "\n"


def pair_ok(o, m, n):
    if m == 0:
        return 0 <= o < n
    return m > 0 and n % m == 0 and 0 <= o < m


def rust_char(c):
    return "'%s'" % (c if c not in "'\\" else "\\" + c)


def generate(repo, out):
    parts = ["@raw\nverus! {\n"]
    for tag, rel in RELATIONS.items():
        d = json.load(open(os.path.join(repo, "cubing_core/src/puzzles/%s.kpuzzle.json" % tag)))
        try:
            parts.append(Gen(tag, d, rel).run())
        except (KeyError, TypeError, ValueError) as e:
            raise Lost("%s: %r" % (tag, e))
    parts.append("@raw\n} // verus!\n")
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = "%s.%d" % (out, os.getpid())
    with open(tmp, "w") as f:
        f.write("\n".join(parts))
    os.replace(tmp, out)


if __name__ == "__main__":
    generate(sys.argv[1], sys.argv[2])
