#!/usr/bin/env python3
"""Mutation testing of the checks (not itself a check): small changes to a scratch copy of /repo, then every
check of the harness crates that see the file. usage: mutate.py OUT WORKERS FILE[:from-to]... [--sample N] [--crates a,b]
Survivors are listed in OUT with their line, to be judged by hand (many are equivalent)."""
import os, re, shutil, subprocess, sys, random, json, threading, queue
OPS = [(" == ", " != "), (" != ", " == "), (" < ", " <= "), (" <= ", " < "), (" > ", " >= "), (" >= ", " > "),
       (" && ", " || "), (" || ", " && "), (" + ", " - "), (" - ", " + "), ("true", "false"), ("false", "true"),
       (".is_some()", ".is_none()"), (".is_none()", ".is_some()"), ("if !", "if "), (".rev()", ""), (" + 1", ""), (" - 1", ""),
       (".is_empty()", ".is_empty() == false"), ("break;", ""), ("continue;", ""), (" | ", " & "), (" & ", " | "),
       (".sort", ".len(); //"), ("Some(", "None.or(Some("), (".max(", ".min("), (".min(", ".max("), ("any(", "all("), ("all(", "any("),
       ("first()", "last()"), ("last()", "first()"), ("lhs", "rhs"), ("rhs", "lhs"), (".push(", ".insert(0, ")]
def mutants(path, lo, hi):
    lines = open(path, encoding="utf-8").read().split("\n")
    out = []
    for i, l in enumerate(lines):
        if l.strip().startswith("#[cfg(test)]") and i > 20: break
        if not (lo <= i + 1 <= hi): continue
        t = l.strip()
        if not t or t.startswith(("//", "#", "use ", "pub use", "mod ", "pub mod")): continue
        seen = set()
        def add(new, kind):
            new = new if isinstance(new, list) else [new]
            key = "\n".join(new)
            if key in seen or new == lines[i:i + 1] : return
            seen.add(key); out.append((i, 1 if kind != "swap" else 2, new, kind))
        for a, b in OPS:
            for m in re.finditer(re.escape(a), l):
                add(l[:m.start()] + b + l[m.end():], f"{a.strip()}->{b.strip()}")
        for m in re.finditer(r"(?<![\w.#\"])(0x[0-9a-fA-F]+|\d+)(?![\w.\"])", l):
            n = int(m.group(1), 16 if "x" in m.group(1) else 10)
            add(l[:m.start()] + str(n + 1) + l[m.end():], "n+1")
            if n > 0: add(l[:m.start()] + str(n - 1) + l[m.end():], "n-1")
        if t.endswith(";") and not t.startswith(("let ", "return", "pub ", "const ", "type ", "}")) and t.count("(") == t.count(")") and t.count("{") == t.count("}"):
            add("", "delete")
        if i + 1 < len(lines):
            m1, m2 = re.match(r"(\s*)(.+?) => (.+),$", l), re.match(r"(\s*)(.+?) => (.+),$", lines[i + 1])
            if m1 and m2 and m1.group(1) == m2.group(1) and m1.group(3) != m2.group(3):
                out.append((i, 2, [f"{m1[1]}{m1[2]} => {m2[3]},", f"{m2[1]}{m2[2]} => {m1[3]},"], "swap arms"))
            elif t.endswith(";") and lines[i+1].strip().endswith(";") and len(l) - len(l.lstrip()) == len(lines[i+1]) - len(lines[i+1].lstrip()):
                out.append((i, 2, [lines[i + 1], l], "swap lines"))
    return lines, out
def main():
    a = sys.argv[1:]
    top = os.environ.get("MUT_BASE", "/tmp/mut")
    done = set()
    for l in open(os.environ["MUT_DONE"]) if "MUT_DONE" in os.environ else []:
        d = json.loads(l); done.add((d["file"], d["line"], "\n".join(d["new"])))
    sample = int(a[a.index("--sample") + 1]) if "--sample" in a else 0
    only = a[a.index("--crates") + 1].split(",") if "--crates" in a else None
    scale = a[a.index("--scale") + 1] if "--scale" in a else "1.5"
    outp, workers = a[0], int(a[1])
    files = [x for x in a[2:] if not x.startswith("--") and x.split(":")[0].endswith(".rs")]
    jobs = []
    for f in files:
        lo, hi = 1, 10**9
        if ":" in f:
            f, r = f.split(":"); lo, hi = map(int, r.split("-"))
        lines, ms = mutants("/repo/" + f, lo, hi)
        jobs += [(f, lines, m) for m in ms if (f, m[0] + 1, "\n".join(m[2])) not in done]
    random.seed(int(os.environ.get("MUT_SEED", "1")))
    random.shuffle(jobs)
    if sample: jobs = jobs[:sample]
    print(len(jobs), "mutants", flush=True)
    q = queue.Queue(); [q.put(j) for j in jobs]
    lock = threading.Lock(); stats = {}; log = open(outp, "w")
    have = [d for d in ("core", "decomp", "opts", "comp", "scc") if os.path.exists(f"/verif/harness/{d}/src/main.rs")]
    def crates(f):
        c = {"core": ["core", "decomp", "comp"], "decompiler": ["decomp", "comp"], "compiler": ["comp", "scc"], "scc": ["opts", "scc"]}[f.split("/")[0]]
        return [x for x in c if x in have and (not only or x in only)]
    def work(k):
        base = f"{top}/w{k}"
        shutil.rmtree(base, ignore_errors=True); os.makedirs(base + "/v/evidence")
        subprocess.run(["git", "clone", "-q", "/repo", base + "/repo"], check=True)
        shutil.copytree("/verif/harness", base + "/v/harness"); shutil.copy("/verif/known_findings.txt", base + "/v/")
        subprocess.run(f"grep -rlE '/repo/' {base}/v/harness --include=*.rs --include=*.toml --include=*.sh --include=*.py | xargs -r sed -i 's#/repo/#{base}/repo/#g'", shell=True)
        env = dict(os.environ, RUSTUP_TOOLCHAIN="1.77.2", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0", RUSTFLAGS="--cap-lints warn -Awarnings",
                   VERIF_ROOT=base + "/v", VERIF_SCALE=scale, PATH=os.environ["PATH"] + ":/root/.cargo/bin", RUSTC_WRAPPER="")
        env.pop("CARGO_PROFILE_DEV_DEBUG", None)
        def build(c):
            e = dict(env, CARGO_TARGET_DIR=f"{base}/t_{c}")
            if os.path.exists(f"{base}/v/harness/{c}/prepare.sh"): subprocess.run(["bash", "prepare.sh"], cwd=f"{base}/v/harness/{c}", env=e, capture_output=True)
            return subprocess.run(["cargo", "build", "--offline", "-q", "-j1"], cwd=f"{base}/v/harness/{c}", env=e, capture_output=True).returncode == 0
        while True:
            try: f, lines, (i, n, new, kind) = q.get_nowait()
            except queue.Empty: return
            p = f"{base}/repo/{f}"
            open(p, "w", encoding="utf-8").write("\n".join(lines[:i] + new + lines[i + n:]))
            res, by = "survived", ""
            for c in crates(f):
                if not build(c): res = "nobuild"; break
                for pid in subprocess.run([f"{base}/t_{c}/debug/v{c}", "list"], capture_output=True, text=True).stdout.split():
                    try: r = subprocess.run([f"{base}/t_{c}/debug/v{c}", "check", pid], env=env, cwd=base, capture_output=True, text=True, timeout=300)
                    except subprocess.TimeoutExpired: res, by = "timeout", pid; break
                    if r.returncode == 1: res, by = "caught", pid; break
                    if r.returncode != 0: res, by = f"rc{r.returncode}", pid; break
                if res != "survived": break
            open(p, "w", encoding="utf-8").write("\n".join(lines))
            with lock:
                stats[res] = stats.get(res, 0) + 1
                log.write(json.dumps({"res": res, "by": by, "file": f, "line": i + 1, "kind": kind, "old": lines[i:i + n], "new": new}, ensure_ascii=False) + "\n"); log.flush()
                if sum(stats.values()) % 25 == 0: print(stats, flush=True)
        
    ts = [threading.Thread(target=work, args=(k,)) for k in range(workers)]
    [t.start() for t in ts]; [t.join() for t in ts]
    print(stats)
    shutil.rmtree(top, ignore_errors=True)
main()
