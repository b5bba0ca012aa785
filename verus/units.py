"""Verus units: a template (NAME.rs) with markers is completed with text extracted from /repo.

 //@ item FILE REGEX                   the item whose text starts with a match of REGEX
 //@ fn FILE | SCOPE | NAME            a function; `contract`, `start`, `loop N` sections follow; `end`
 //@ subst REGEX => TEXT               within a fn or item: replaces text of the source (must match)
 //@ assume TEXT                       an assumption, reported in the evidence
"""
import os, re, time
import extract

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
FILES = {}


def load(path):
    if path not in FILES:
        FILES[path] = extract.File(os.path.join(REPO, path))
    return FILES[path]


def scope_re(s):
    """A scope is given as text; spaces match any white space, `\\` escapes make it a regex."""
    s = s.strip()
    if not s:
        return None
    if s.startswith("re:"):
        return s[3:]
    return r"\s+".join(re.escape(w) for w in s.split()) + r"(?=[^\w])"


def build(unit, smoke=False):
    """The completed text, the functions under contract, the assumptions and substitutions."""
    out, fns, assumed, substs = [], [], [], []
    lines = []
    for l in open(os.path.join(HERE, unit + ".rs")).read().split("\n"):
        if l.startswith("//@ include "):
            lines += open(os.path.join(HERE, l[12:].strip())).read().rstrip("\n").split("\n")
        else:
            lines.append(l)
    i = 0
    owner = {}  # line number -> function

    def emit(text, name=None):
        start = len(out) + 1
        out.extend(text.split("\n"))
        if name:
            for k in range(start, len(out) + 1):
                owner[k] = name

    while i < len(lines):
        l = lines[i].strip()
        i += 1
        if l.startswith("//@ assume "):
            assumed.append(l[11:])
        elif l.startswith("//@ item ") or l.startswith("//@ fn "):
            what, rest = l.split(" ", 2)[1:]
            subs, sections, cur = [], {}, None
            if what == "fn" or (i < len(lines) and lines[i].strip().startswith("//@ subst")):
                while lines[i].strip() != "//@ end":
                    m = lines[i].strip()
                    if m.startswith("//@ subst "):
                        a, b = m[10:].split(" => ", 1)
                        subs.append((a, b))
                    elif m.startswith("//@ "):
                        cur = " ".join(m.split()[1:3]) if m.split()[1] == "loop" else m.split()[1]
                        sections[cur] = ""
                    elif cur:
                        sections[cur] += lines[i] + "\n"
                    elif m:
                        raise extract.Lost("stray line in template: " + m)
                    i += 1
                i += 1

            def apply(t):
                for a, b in subs:
                    t, n = re.subn(a, b, t, flags=re.S)
                    if not n and not a.startswith("(?#opt)"):
                        raise extract.Lost(f"{rest}: nothing matches {a!r}")
                    substs.append(f"{rest}: {a} => {b} ({n} times)")
                return t

            if what == "item":
                f, pat = rest.split(" ", 1)
                emit(apply(load(f).item(scope_re(pat))))
            else:
                f, scope, name = [x.strip() for x in rest.split("|")]
                sig, body = load(f).fn(scope_re(scope), name)
                sig, body = apply(sig + "\0" + body).split("\0")
                head, where = extract.name_return(sig)
                ls = extract.loops(body)
                if len(ls) != sum(k.startswith("loop ") for k in sections):
                    raise extract.Lost(f"{name} has {len(ls)} loops")
                # loop invariants, last first so that positions stay valid
                for k in sorted((k for k in sections if k.startswith("loop ")), reverse=True):
                    n = int(k.split()[1])
                    if n >= len(ls):
                        raise extract.Lost(f"{name}: no loop {n}")
                    s, b = ls[n]
                    body = body[:b] + "\n" + sections[k] + body[b:]
                if "start" in sections or smoke:
                    body = "{\n" + sections.get("start", "") + ("proof { assert(false); }" if smoke else "") + body[1:]
                if "attr" in sections:
                    emit(sections["attr"].rstrip(), name)
                emit(head + where + "\n" + sections.get("contract", "").rstrip() + "\n" + body, name)
                fns.append(f"{f}: {name}" + (f" ({scope})" if scope else ""))
        else:
            out.append(lines[i - 1])
    return "\n".join(out), fns, assumed, substs, owner


def owner_name(f):
    return f.split(": ", 1)[1].split(" (", 1)[0]


def run(unit, work, sh, timeout):
    t0 = time.time()
    res = {"unit": unit, "status": "other", "verified": 0, "errors": 0, "reason": "", "output": "", "solver_s": 0.0,
           "functions": [], "assumed": [], "substitutions": []}
    try:
        text, res["functions"], res["assumed"], res["substitutions"], owner = build(unit)
    except (extract.Lost, IndexError, ValueError, AttributeError) as e:
        res["reason"] = f"the source has another shape than the template expects: {e}"
        return res
    path = os.path.join(work, unit + ".rs")
    open(path, "w").write(text)
    rc, o = sh(["verus", path, "--time", "--num-threads", "4"], timeout, cwd=work)
    res["output"] = o
    m = re.search(r"verification results:: (\d+) verified, (\d+) errors", o)
    t = re.search(r"total smt time:\s*([\d.]+) ms|smt-run:\s*([\d.]+) ms", o)
    if t:
        res["solver_s"] = float(t[1] or t[2]) / 1000
    res["wall_s"] = round(time.time() - t0, 2)
    if rc is None:
        res["reason"] = "timeout"
        return res
    if not m or re.search(r"^error\[E\d", o, re.M):
        e = re.search(r"^error.*", o, re.M)
        res["reason"] = "the extracted text is outside what the verifier accepts: " + (e[0] if e else o[-200:])
        return res
    res["verified"], res["errors"] = int(m[1]), int(m[2])
    if rc == 0 and not res["errors"]:
        # Vacuity: with `assert(false)` at the start of every body, every function has to fail
        text, fns, _, _, owner = build(unit, True)
        open(path, "w").write(text)
        rc, o = sh(["verus", path, "--num-threads", "4"], timeout, cwd=work)
        hit = {owner.get(int(n)) for n in re.findall(r"^error: assertion failed\n\s*--> [^:\n]*:(\d+)", o or "", re.M)}
        missing = [f for f in fns if owner_name(f) not in hit]
        if missing:
            res["reason"] = "the precondition is contradictory: " + ", ".join(missing)
        else:
            res["status"] = "proved"
        return res
    # Every error must be a failed obligation, not a limit of the tool
    errs = re.findall(r"^error(?:\[\w+\])?: (.*)\n\s*--> [^:\n]*:(\d+)", o, re.M)
    bad = [e for e in errs if not re.search(r"resource limit|rlimit|aborting|not supported|cannot find", e[0])]
    if re.search(r"resource limit|rlimit exceeded", o) and not bad:
        res["reason"] = "solver resource limit"
        return res
    if not bad:
        res["reason"] = "no failed obligation named"
        return res
    res["status"] = "failed"
    what = []
    for msg, line in bad:
        f = owner.get(int(line))
        if f is None:  # a contract in a trait: name the function from the notes
            f = next((owner[int(n)] for n in re.findall(r"^\s*(\d+) \|", o, re.M) if int(n) in owner), unit)
        what.append(f"{f}: {msg}")
    res["reason"] = "; ".join(dict.fromkeys(what))
    return res


if __name__ == "__main__":
    import subprocess, sys
    if sys.argv[1].startswith("--repo="):
        REPO = sys.argv.pop(1)[7:]
    for u in sys.argv[1:]:
        def sh(c, t, cwd):
            p = subprocess.run(c, cwd=cwd, capture_output=True, text=True, timeout=t)
            return p.returncode, p.stdout + p.stderr
        os.makedirs("/tmp/v1", exist_ok=True)
        r = run(u, "/tmp/v1", sh, 300)
        if r["status"] != "proved":
            print(r["output"])
        print({k: r[k] for k in r if k != "output"})
