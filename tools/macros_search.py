#!/usr/bin/env python3
"""C17, bounded: the macros on literal texts, against the runtime parsers, in a crate that is compiled for it.
macros_search.py --file REPLAY.json   runs one recorded case again"""
import json, os, re, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = os.path.join(V, "build")
D = os.path.join(B, "macros_crate")
ENV = dict(os.environ)
ENV["PATH"] = "/opt/veriftools/bin:/root/.cargo/bin:/usr/local/cargo/bin:" + ENV.get("PATH", "")
ENV["CARGO_NET_OFFLINE"] = "true"


def lit(s):
    return '"' + "".join(c if 32 <= ord(c) < 127 and c not in '"\\' else "\\u{%x}" % ord(c) for c in s) + '"'


def run(cmd, timeout=600):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=ENV, timeout=timeout, cwd=D)
    return p.returncode, p.stdout, p.stderr


def cargo(args, name):
    """(ok, {line: [message]}) for one of the two programs"""
    rc, o, e = run(["cargo"] + args + ["--offline", "-q", "--bin", name, "--message-format=json", "--target-dir", os.path.join(B, "macros_target")])
    lines, other = {}, []
    for l in o.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get("reason") != "compiler-message" or m["message"].get("level") != "error":
            continue
        tn = m.get("target", {}).get("name")
        if tn != name:
            other.append(m["message"]["message"])
            continue
        hit = False
        for s in m["message"]["spans"]:
            while s.get("expansion") and not s["file_name"].endswith(name + ".rs"):
                s = s["expansion"]["span"]
            if s["file_name"].endswith(name + ".rs"):
                lines.setdefault(s["line_start"], []).append(m["message"]["message"])
                hit = True
        if not hit and not m["message"]["message"].startswith("aborting"):
            other.append(m["message"]["message"])
    return rc, lines, other, e


def batch(items):
    """None: all as they should be; (text, kind, what): a failing case; raises RuntimeError when the crate does not build"""
    os.makedirs(os.path.join(D, "src/bin"), exist_ok=True)
    w = lambda f, t: open(os.path.join(D, f), "w").write(t)
    w("Cargo.toml", '[package]\nname = "macros_crate"\nversion = "0.1.0"\nedition = "2021"\n\n[workspace]\n\n[dependencies]\ncubing = { path = "/repo/cubing" }\n')
    good = [(i["text"], k) for i in items for k in ("alg", "move") if i[k]]
    bad = [(i["text"], k) for i in items for k in ("alg", "move") if not i[k]]
    L = ["#![allow(warnings)]", "fn main() { std::panic::set_hook(Box::new(|_| {})); " + " ".join("c%d();" % n for n in range(len(good))) + " println!(\"DONE\"); }"]
    for n, (t, k) in enumerate(good):
        T = "Alg" if k == "alg" else "Move"
        L.append("fn c%d() { let t = %s; let r = std::panic::catch_unwind(|| { let a: cubing::alg::%s = cubing::alg::parse_%s!(%s); let b = t.parse::<cubing::alg::%s>().unwrap(); if a == b && format!(\"{:?}\", a) == format!(\"{:?}\", b) { None } else { Some(format!(\"{:?} instead of {:?}\", a, b)) } }); match r { Ok(None) => {} Ok(Some(w)) => println!(\"BAD %d {}\", w), Err(_) => println!(\"BAD %d the emitted code panicked\") } }" % (n, lit(t), T, k, lit(t), T, n, n))
    w("src/bin/good.rs", "\n".join(L) + "\n")
    rc, lines, other, e = cargo(["build"], "good")
    if rc != 0:
        for ln in sorted(lines):
            if ln >= 3:
                t, k = good[ln - 3]
                return t, k, "the macro does not compile although the text parses: " + lines[ln][0]
        raise RuntimeError("; ".join(other)[:500] or e[-500:])
    p = subprocess.run([os.path.join(B, "macros_target/debug/good")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120)
    m = re.search(r"^BAD (\d+) (.*)", p.stdout, re.M)
    if m:
        t, k = good[int(m.group(1))]
        return t, k, "the macro's value differs from parsing: " + m.group(2)
    if "DONE" not in p.stdout:
        return "", "", "the program using the macros was ended: %s" % p.returncode
    if bad:
        L = ["#![allow(warnings)]", "fn main() {}"]
        for n, (t, k) in enumerate(bad):
            L.append("fn c%d() { let a = cubing::alg::parse_%s!(%s); }" % (n, k, lit(t)))
        w("src/bin/bad.rs", "\n".join(L) + "\n")
        rc, lines, other, e = cargo(["check"], "bad")
        for n, (t, k) in enumerate(bad):
            if n + 3 not in lines:
                return t, k, "the macro compiles although the text does not parse"
    return None


def search(exe, prop, seed, ms, out):
    t0, cases, k = time.time(), 0, 0
    while k == 0 or time.time() - t0 < ms / 1000:
        s = seed + 1000003 * k
        items = json.loads(subprocess.run([exe, "--texts", "300" if s == 1 else "150", "--seed", str(s)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, check=True).stdout)
        try:
            f = batch(items)
        except (RuntimeError, subprocess.TimeoutExpired) as e:
            return False, cases, "the search itself broke: %s" % e
        cases += 2 * len(items)
        if f:
            json.dump({"property": prop, "text": f[0], "macro": "parse_" + f[1], "what": f[2],
                       "replay": "python3 tools/macros_search.py --file <this file> (rebuilds from /repo and compiles this case again)"}, open(out, "w"), indent=1)
            return False, cases, "parse_%s!(%s): %s" % (f[1], lit(f[0]), f[2])
        k += 1
    return True, cases, ""


if __name__ == "__main__":
    j = json.load(open(sys.argv[sys.argv.index("--file") + 1]))
    x = {"text": j["text"], "alg": False, "move": False}
    subprocess.run(["cargo", "build", "--offline", "-q", "--manifest-path", os.path.join(V, "replay/Cargo.toml"), "--target-dir", os.path.join(B, "replay")], env=ENV, check=True)
    f = batch([{"text": j["text"], "alg": j["macro"] == "parse_alg" and "does not parse" not in j["what"], "move": j["macro"] == "parse_move" and "does not parse" not in j["what"]}])
    print(f)
    sys.exit(1 if f else 0)
