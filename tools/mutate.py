#!/usr/bin/env python3
"""Dev tool: random source mutants of a *copy* of the repository (/tmp/mt/repo) against a copy of the
harness (/tmp/mt/h/harness). usage: mutate.py SEED COUNT LOG [path-substring]
Logs one line per mutant: KILLED by/ SURVIVED / NOBUILD with the change."""
import sys, re, random, subprocess, os, json
seed, count, log = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
only = sys.argv[4] if len(sys.argv) > 4 else ""
R = "/tmp/mt/repo"; H = "/tmp/mt/h/harness"; T = "/tmp/mt/target"; OUT = "/tmp/mt/out"
rnd = random.Random(seed)
A = ["A11","A05","A06","A07","A01","A03","A04","A09","A10","A02","A08","A12","U04","U05"]
MAP = [("adnl/peers_set", ["U01","O05","O06","O07","D05"]), ("adnl/keystore", ["U02","U03"]), ("adnl/node_id", ["U03","A01"]),
  ("util/packets_history", ["A04","R05","R01","O03","O02"]), ("util/updated_at", ["R03","R01","O09"]), ("util/fast_rand", ["U01"]), ("util/address_list", ["A07","D06"]),
  ("adnl/", A), ("proto/adnl", A), ("subscriber", A + ["O08"]), ("rldp/", ["R02","R04","R05","R03","R01","O02","O04"]), ("proto/rldp", ["U04","R02","R04","R01"]),
  ("dht/", ["D07","D05","D04","D08","D06","D02","D03","D01","D09"]), ("proto/dht", ["U04","D01","D05","D04","D06","D09"]),
  ("overlay/overlay_id", ["U03","O06","O07"]), ("overlay/", ["U05","O08","O11","O10","O01","O07","O06","O09","O04","O05","O03","O02"]), ("proto/", ["U04","O01","O07","O08","D05","A11","D04"]), ("util/", A)]
files = []
for d, _, fs in os.walk(R + "/src"):
    for f in fs:
        p = os.path.join(d, f)
        if f.endswith(".rs") and only in p and not re.search(r"lib\.rs|network_builder|/mod\.rs$", p) or (p.endswith("adnl/node/mod.rs") or p.endswith("subscriber/mod.rs")) and only in p:
            files.append(p)
SKIP = re.compile(r"^\s*(//|#\[|use |pub use|tracing::|debug_assert|\"|%|pub struct|struct|impl|mod |pub mod)|tracing::|#\[tl|error\(")
def ops(l):
    out = []
    def sub(pat, rep):
        for m in re.finditer(pat, l):
            out.append(l[:m.start()] + m.expand(rep) + l[m.end():])
    sub(r" == ", " != "); sub(r" != ", " == "); sub(r" < ", " <= "); sub(r" <= ", " < "); sub(r" > ", " >= "); sub(r" >= ", " > ")
    sub(r" < ", " > "); sub(r" > ", " < ")
    sub(r" && ", " || "); sub(r" \|\| ", " && "); sub(r" \+ ", " - "); sub(r" - ", " + "); sub(r" \* ", " / "); sub(r" \+= ", " -= ")
    sub(r"\btrue\b", "false"); sub(r"\bfalse\b", "true"); sub(r"!(?=[a-z(])(?<!\w!)", "")
    sub(r"(?<![\w.])(\d+)(?![\w.])", lambda m: str(int(m.group(1)) + 1)) if False else None
    for m in re.finditer(r"(?<![\w.\[])(\d+)(?![\w.])", l):
        out.append(l[:m.start()] + str(int(m.group(1)) + 1) + l[m.end():])
    sub(r"\bcontinue\b", "break"); sub(r"\bbreak\b", "continue")
    sub(r"\.max\(", ".min("); sub(r"::max\(", "::min("); sub(r"::min\(", "::max("); sub(r"\bSome\((\w+)\)(?=[,;)]|$)", "None"); sub(r"\.is_some\(\)", ".is_none()"); sub(r"\.is_none\(\)", ".is_some()")
    sub(r"is_empty\(\)", "len() == 1")
    m = re.match(r"^(\s*)(self|[a-z_]+)[\w.:]*\(.*\)\??(\.await)?\??;\s*$", l)
    if m: out.append(m.group(1) + "{}\n")
    m = re.match(r"^(\s*)return .*;\s*$", l)
    if m: out.append(m.group(1) + "{}\n")
    m = re.match(r"^(\s*)if (?!let)(.*) \{\s*$", l)
    if m: out += [m.group(1) + "if false && (" + m.group(2) + ") {\n", m.group(1) + "if true || (" + m.group(2) + ") {\n"]
    return [o for o in out if o != l]
cands = []
for p in files:
    ls = open(p).read().split("\n")
    n = next((i for i, l in enumerate(ls) if "#[cfg(test)]" in l), len(ls))
    depth = 0
    for i, l in enumerate(ls[:n]):
        if SKIP.search(l): continue
        for o in ops(l): cands.append((p, i, l, o.rstrip("\n")))
rnd.shuffle(cands)
print(len(cands), "candidates in", len(files), "files")
env = dict(os.environ, CARGO_TARGET_DIR=T, CARGO_NET_OFFLINE="true", VH_DIR=OUT, VERIF_SEED="1", VERIF_TIER="quick", RUST_BACKTRACE="0")
L = open(log, "a")
for p, i, l, o in cands[:count]:
    src = open(p).read(); ls = src.split("\n"); assert ls[i] == l
    ls[i] = o; open(p, "w").write("\n".join(ls))
    tag = f"{p[len(R)+5:]}:{i+1} [{l.strip()}] -> [{o.strip()}]"
    try:
        b = subprocess.run(["cargo", "build", "--offline"], cwd=H, env=env, capture_output=True, text=True)
        if b.returncode: res = "NOBUILD"
        else:
            checks = next(c for k, c in MAP if k in p)
            res = "SURVIVED " + ",".join(checks)
            for c in checks:
                try:
                    r = subprocess.run([T + "/debug/vharness", c], env=env, capture_output=True, text=True, timeout=400)
                    if r.returncode == 1 and "VIOLATION" in r.stdout: res = "KILLED " + c; break
                    if r.returncode: res = f"ERROR {c} rc={r.returncode}"; break
                except subprocess.TimeoutExpired:
                    res = "TIMEOUT " + c; break
    finally:
        open(p, "w").write(src)
    L.write(res + " | " + tag + "\n"); L.flush()
