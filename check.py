#!/usr/bin/env python3
"""Decides one property: replays behaviours of the Quint specification on the contracts built from /repo's
working tree, and reports the divergences that bear on the property.

  check.py PROPERTY [quick|thorough]        exit 0 held, 1 VIOLATION, 2 the check itself failed
  check.py --prepare                        builds the harness; generates the corpus if the specification changed (setup_cmd)
"""
import glob, gzip, hashlib, json, os, re, shutil, subprocess, sys, time, zipfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(ROOT, "spec")
TARGET = os.path.join(ROOT, "target")
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=TARGET, RUSTFLAGS="-Awarnings",
           HOME=os.environ.get("HOME") or "/root", PATH="/root/.cargo/bin:/opt/veriftools/bin:" + os.environ.get("PATH", "/usr/bin:/bin"))
EXE = os.path.join(TARGET, "debug", "harness")
CPUS = os.cpu_count() or 8

# ---- what is explored -----------------------------------------------------------------------------------------
# family -> (module, init, step, behaviours per shard, [shards: steps of each])
WORLD = ["Core", "Risk", "Liq", "Modes", "Strat", "Oracle", "Admin"]
SHARDS = {f: [30, 40, 50, 70] for f in WORLD}
SHARDS["Modes"] = SHARDS["Strat"] = [30, 40, 50, 50, 70]
SHARDS["Scen"] = [80] * 8
SHARDS["Agg"] = [60, 60]
SHARDS["Math"] = [100]
PER_SHARD = {"Agg": 120, "Math": 60}
N = 140
MODULE = {"Scen": ("scenarios.qnt", "scenarios"), "Agg": ("aggregator.qnt", "aggregator"), "Math": ("mathvec.qnt", "mathvec")}
# the families closest to a property, replayed first; the others follow
FIRST = {"C01": "Core Risk Strat Modes", "C02": "Core Risk Strat", "C03": "Core Risk Modes Oracle", "C04": "Strat Core Risk Modes", "C05": "Liq Risk",
         "C06": "Core Risk Modes", "C07": "Strat Core", "C08": "Strat", "C09": "Admin", "C10": "Admin", "C11": "Modes Oracle Risk", "C12": "Modes",
         "C13": "Modes Core Strat", "C14": "Core Modes", "C15": "Modes Admin", "C16": "Oracle", "C17": "Liq Risk", "C18": "Core Risk Admin",
         "C20": "Admin Strat", "C21": "Core Risk Strat Admin", "C22": "Liq Oracle Core", "C23": "Oracle", "C24": "Admin Modes",
         "C25": "Modes Risk", "C26": "Strat Modes", "C27": "Core Admin", "C29": "Modes Core Oracle", "C30": "Liq Risk", "C31": "Core Risk Strat"}
PLAN = {p: f.split()[:1] + ["Scen"] + f.split()[1:] + [x for x in WORLD if x not in f.split()] for p, f in FIRST.items()}
for p in ("C09", "C10"):
    PLAN[p].insert(1, "Agg")
for p in ("C06", "C27"):
    PLAN[p].insert(1, "Math")
PLAN["C19"] = ["Agg", "Admin"]
PLAN["C28"] = ["Math"]

STRATS = {"multiply", "swapDebt", "swapColl", "repayColl"}
USERCALLS = {"supply", "borrow", "withdraw", "repay", "liquidate", "clean", "flash", "threshold", "indexes"} | STRATS
CONFIG = {"editAsset", "addCat", "editCat", "removeCat", "addAsset", "editEmAsset", "removeAsset", "tolerance", "params", "setOracle",
          "createPool", "limits", "setAddr", "pause", "unpause", "upgradeCtl", "upgradePool", "deploy", "opening"}
MAIN = {"supply": {"C21"}, "borrow": {"C03", "C21"}, "withdraw": {"C04", "C21"}, "repay": {"C21"}, "liquidate": {"C05"}, "clean": {"C17"},
        "flash": {"C07"}, "threshold": {"C25"}, "indexes": {"C06"}, "claim": {"C18"}, "rewards": {"C18"}, "viewAcct": {"C22"},
        "viewMkt": {"C22"}, "viewLiq": {"C22"}, "direct": {"C10"}, "xfer": {"C20"}, "pause": {"C09", "C24"}, "upgradeCtl": {"C09", "C24"}, "unpause": {"C09", "C24"}}
for k in STRATS:
    MAIN[k] = {"C26"}
for k in CONFIG:
    MAIN.setdefault(k, {"C24"})
RATES = ("xegld", "legld", "lxoxno")
EM_OPS = {"addCat", "editCat", "removeCat", "addAsset", "editEmAsset", "removeAsset"}
RISKY = {"borrow", "withdraw"} | STRATS
DERIVED = {"XEGLD", "LEGLD", "LXOXNO", "LP"}


def main_of(k):
    return MAIN.get(k, {"C21"})


def health(k):
    return {"borrow": {"C03"}, "withdraw": {"C04"}, "liquidate": {"C05"}, "threshold": {"C25"}}.get(k, {"C04", "C26"})


def by_why(w, k):
    """The specification refuses the operation for reason `w`, the contracts accept it."""
    if w == "health":
        return health(k)
    if w == "limits":
        return {"C24"} if k in CONFIG else {"C15"}
    if w == "position":
        return {"C05"} if k == "liquidate" else {"C20", "C21"}
    if w in ("same", "mode", "steps", "payment", "zero", "unsupported", "nothing", "unknown"):
        return ({"C26"} if k in STRATS else {"C24"} if k in CONFIG else {"C21"}) | main_of(k)
    return {
        "paused": {"C09"}, "owner": {"C10"}, "guard": {"C08"}, "isolation": {"C11"}, "ceiling": {"C11"}, "emode": {"C12"}, "silo": {"C13"},
        "scap": {"C14"}, "bcap": {"C14"}, "price": {"C16"}, "oracle": {"C16", "C24"}, "ltv": {"C03"}, "funds": {"C20"}, "nft": {"C20"},
        "inactive": {"C20"}, "notbad": {"C17"}, "repayment": {"C07"}, "flashflag": {"C07"}, "endpoint": {"C07"}, "config": {"C24"},
        "exists": {"C24"}, "liquidity": {"C02", "C21"}, "borrflag": {"C03", "C24", "C12"}, "collflag": {"C24", "C12"}, "nonpayable": {"C21"},
        "underflow": {"C24", "C21"},
    }.get(w, main_of(k))


MESSAGES = [
    (r"Not enough collateral", lambda k: {"C03"}),
    (r"Health not low enough", lambda k: {"C05"}),
    (r"Health factor will be too low", health),
    (r"isolat", lambda k: {"C11"}), (r"Debt ceiling", lambda k: {"C11"}),
    (r"E-mode|EMode|e-mode", lambda k: {"C12"}),
    (r"siloed", lambda k: {"C13"}),
    (r"Supply cap|Borrow cap", lambda k: {"C14"}),
    (r"[Pp]osition limit", lambda k: {"C15", "C24"} if k == "limits" else {"C15"}),
    (r"Price feed is stale|No last price|Un-?safe price|Pair not active|oracle|Oracle|Token pair not found", lambda k: {"C16"}),
    (r"paused", lambda k: {"C09"}),
    (r"[Oo]wner|permission", lambda k: {"C10"}),
    (r"Flash loan already ongoing", lambda k: {"C08"}),
    (r"[Ff]lash", lambda k: {"C07"}),
    (r"Cannot clean bad debt", lambda k: {"C17"}),
    (r"Account not in the market|attributes mismatch|NFT", lambda k: {"C20"}),
    (r"tolerance|utilization|[Rr]eserve factor|borrow rate|threshold|Address is zero|already", lambda k: {"C24"}),
    (r"Insufficient liquidity", lambda k: {"C21", "C02"}),
]


def num(d, k):
    try:
        return int(d.get(k, "0") or "0")
    except ValueError:
        return 0


def on_state(impl, spec, before):
    """Properties that the state reached by the contracts violates, whatever the specification says."""
    bad = set()
    sums = {}
    for k, v in impl.items():
        m = re.match(r"acc\[(\d+)\]\.(dep|bor)\[(\w+)\]\.sc$", k)
        if m:
            sums[(m[3], m[2])] = sums.get((m[3], m[2]), 0) + num(impl, k)
    toks = {m[1] for m in (re.match(r"pools\[(\w+)\]\.sup$", k) for k in impl) if m}
    for t in toks:
        p = f"pools[{t}]."
        if num(impl, p + "sup") != sums.get((t, "dep"), 0) + num(impl, p + "rev") or num(impl, p + "bor") != sums.get((t, "bor"), 0):
            bad.add("C01")

        def equity(s):
            dec = num(s, p + "dec")
            return num(s, p + "res") * 10 ** (27 - dec) + (num(s, p + "bor") * num(s, p + "bIdx") - num(s, p + "sup") * num(s, p + "sIdx")) // 10 ** 27
        e = equity(impl)
        # (rounding dust: 100 base units, and as many of the smallest scaled amounts)
        if e < -100 * 10 ** (27 - num(impl, p + "dec")) - 100 * (num(impl, p + "sIdx") + num(impl, p + "bIdx")) // 10 ** 27:
            bad.add("C02")
        if spec and p + "sup" in spec and e < equity(spec):
            bad.add("C02")

        def total(s):
            return sum(num(s, k) for k in s if k == p + "res" or re.match(rf"bal\[\w+\]\[{t}\]$", k))
        if before and p + "sup" in before and total(impl) != total(before):
            bad.add("C21")
    if impl.get("x.flash_loan_ongoing") == "true":
        bad.add("C08")
    return bad


def riskier(impl, spec):
    """Some account that owes something has less collateral or more debt than the specification says."""
    def shares(s):
        return {k: int(v) for k, v in s.items() if re.match(r"acc\[\d+\]\.(dep|bor)\[\w+\]\.sc$", k)}
    a, b = shares(impl), shares(spec)
    owing = {k.split("]")[0] for k, v in a.items() if ".bor[" in k and v > 0}
    return any(k.split("]")[0] in owing and (a.get(k, 0) < b.get(k, 0) if ".dep[" in k else a.get(k, 0) > b.get(k, 0)) for k in set(a) | set(b))


def strays(d):
    """The contracts changed an account, market or balance that the operation does not concern, and the specification leaves as it is."""
    o, before = d["op"], d.get("before") or {}
    text = json.dumps(o)
    mine = {str(o.get("n") or "")}
    held = {m[1] for m in (re.match(rf"acc\[{o.get('n')}\]\.(?:dep|bor)\[(\w+)\]", k) for k in before) if m}
    users = {o.get("u"), "rtr", "accu", "rcv", "rcv2", "rcv3", "owner"} | {v for k, v in before.items() if k == f"own[{o.get('n')}]"}
    for path, _, _ in d["diff"]:
        if before.get(path) != (d.get("spec") or {}).get(path):
            continue
        m = re.match(r"acc\[(\d+)\]", path)
        if m and m[1] not in mine and o["k"] not in ("threshold", "flash") and any(k.startswith(f"acc[{m[1]}]") for k in before):
            return True
        m = re.match(r"pools\[(\w+)\]", path)
        if m and f'"{m[1]}"' not in text and m[1] not in held:
            return True
        m = re.match(r"bal\[(\w+)\]", path)
        if m and m[1] not in users:
            return True
    return False


CFG_FIELDS = [("scap|bcap", "C14"), ("silo", "C13"), ("iso|ceil|isoB", "C11"), ("flash|ffee", "C07"), ("coll|borr|emode", "C12"), ("ltv", "C03"), ("thr", "C04"), ("bon|fee", "C05")]


def by_path(path, k, d):
    m = main_of(k)
    if re.match(r"pools\[\w+\]\.(sIdx|bIdx)", path):
        return {"C06", "C27", "C02"} | ({"C17"} if k == "clean" else {"C18"} if k == "rewards" else set())
    if re.match(r"pools\[\w+\]\.ts", path):
        return {"C06", "C27"}
    if re.match(r"pools\[\w+\]\.rev", path):
        return {"C18", "C06"} | m
    if re.match(r"pools\[\w+\]\.(sup|bor|res)", path):
        return {"C21"} | m
    if re.match(r"pools\[\w+\]", path):
        return {"C24", "C27"}
    q = re.match(r"acc\[(\d+)\]\.(dep|bor)\[\w+\]\.(\w+)", path)
    if q:
        if q[3] == "sc":
            return {"C21"} | m
        em = d.get("spec", {}).get(f"acc[{q[1]}].em", "0") != "0" or d.get("impl", {}).get(f"acc[{q[1]}].em", "0") != "0"
        return {"C25", "C12"} if em else {"C25"} if d.get("impl", {}).get(f"acc[{q[1]}].em") == "0" and not path.endswith("ltv") else {"C25", "C12"}
    if path.startswith("acc["):
        return {"C20", "C11", "C12"} | ({"C17"} if k == "clean" else set())
    if path.startswith(("own", "nonce", "x.account", "x.position", "x.attributes", "x.nft")):
        return {"C20", "C21"} | ({"C17"} if k == "clean" else set())
    if path.startswith("bal["):
        return {"C21"} | m
    if path.startswith("isoDebt"):
        return {"C11"} | ({"C17"} if k == "clean" else {"C05"} if k == "liquidate" else set())
    if k in EM_OPS:
        return {"C24", "C12"}
    if path.startswith("emA") or path.startswith("emodes"):
        return {"C24", "C12"}
    if path.startswith("orc"):
        return {"C24", "C16"}
    if path.startswith("cfg"):
        return {"C24"} | {p for rx, p in CFG_FIELDS if re.search(rf"\.({rx})$", path)}
    if path.startswith("lim"):
        return {"C24", "C15"}
    if path.startswith("paused"):
        return {"C09", "C10"}
    if path.startswith("feeds") or path.startswith("aggPaused"):
        return {"C19"}
    if path.startswith("x.flash"):
        return {"C08"}
    if path.startswith(("x.ctl", "x.pool[", "x.stuck")):
        return {"C21"} | m
    if path.startswith("agg."):
        return {"C19"}
    return {"C24"}


def by_view(d):
    k, s = d["op"]["k"], set()
    got, want = d.get("got"), d.get("want") or []
    if k == "math":
        return {"C28"}
    s.add("C22")
    derived = d["op"].get("a") in DERIVED
    if not isinstance(got, list) or len(got) != len(want):
        return s | {"C05"} if k == "viewLiq" else s
    off = [i for i in range(len(want)) if got[i] != want[i]]
    if k == "viewMkt":
        if any(2 <= i <= 9 for i in off):
            s |= {"C16"} | ({"C23"} if derived else set())
        if any(i in (10, 12, 13) for i in off):
            s |= {"C27"}
        if any(i in (0, 1) for i in off):
            s |= {"C06"}
    if k == "viewLiq":
        s |= {"C05"}
    return s


def attribute(d):
    """The properties a divergence between specification and contracts bears on."""
    k = d["op"]["k"]
    fam = d.get("family", "")
    if fam == "Agg":
        return {"C19"} | ({"C10"} if d.get("why") == "owner" else set()) | ({"C09"} if d.get("why") == "paused" else set())
    if fam == "Math":
        return {"C28"} | ({"C06", "C27"} if k in ("compound",) else {"C27"} if k in ("rate", "deposit") else set())
    if d["kind"] == "view":
        return by_view(d)
    s = set()
    impl = d.get("impl") or {}
    if impl:
        s |= on_state(impl, d.get("spec") if d["kind"] == "state" else None, d.get("before"))
    if d["kind"] == "result":
        s |= {"C24"} if k in CONFIG else set()
        s |= {"C12"} if k in EM_OPS else set()
        s |= {"C16"} if d["op"].get("re") in RATES else set()   # (stale prices)
        if d["ok"]:
            s |= {"C29"} if k in ("repay", "withdraw") else {"C30"} if k == "liquidate" else set()
        toks = {k2 for k2 in DERIVED if k2 in json.dumps(d["op"])}
        if not d["ok"]:
            s |= by_why(d["why"], k)
            if d["why"] == "price" and (toks or fam == "Oracle"):
                s |= {"C23"}
            if k == "threshold" and d["why"] == "price":
                s |= {"C25"}
        else:
            hit = set()
            for rx, f in MESSAGES:
                if re.search(rx, d.get("msg") or ""):
                    hit |= f(k)
            s |= (hit or {"C21"}) | main_of(k)
            if "C16" in hit and (toks or fam == "Oracle"):
                s |= {"C23"}
    else:
        for path, _, _ in d["diff"]:
            s |= by_path(path, k, d)
        if k not in CONFIG and strays(d):
            s.add("C31")
        if k in RISKY and riskier(impl, d.get("spec") or {}):
            s |= {"C03"} if k == "borrow" else {"C04"}
    return s


# ---- running ---------------------------------------------------------------------------------------------------
class Tool(Exception):
    pass


def sh(cmd, log, timeout, cwd=ROOT):
    with open(log, "wb") as f:
        p = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, cwd=cwd, env=ENV, stdin=subprocess.DEVNULL)
        try:
            return p.wait(timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            raise Tool(f"timed out after {timeout}s: {' '.join(cmd)}")


def tail(path, n=1500):
    with open(path, "rb") as f:
        return f.read()[-n:].decode("utf-8", "replace")


def build(work):
    log = os.path.join(work, "build.log")
    if sh(["cargo", "build", "--offline", "--quiet", "--manifest-path", os.path.join(ROOT, "harness", "Cargo.toml")], log, 800):
        raise Tool("the harness does not build:\n" + tail(log))


def quint(work, name, args, timeout=600):
    log = os.path.join(work, name + ".log")
    rc = sh(["quint"] + args + ["--verbosity=0"], log, timeout, SPEC)
    return rc, tail(log)


def genesis(work):
    out = os.path.join(work, "genesis.itf.json")
    rc, t = quint(work, "genesis", ["run", "dump.qnt", "--backend=typescript", "--main", "dump", "--max-samples", "1", "--max-steps", "1", "--out-itf", out])
    if rc or not os.path.exists(out):
        raise Tool("genesis: " + t)
    return out


def spec_key():
    h = hashlib.sha256()
    for p in sorted(glob.glob(os.path.join(SPEC, "*.qnt"))):
        h.update(re.sub(r"//[^\n]*|\s+", " ", open(p).read()).encode())  # (comments and layout do not matter)
    return h.hexdigest()[:12]


def shard(work, fam, i, n, steps, seed, gen):
    """Behaviours of one family, generated by quint's simulator and packed (one line each, gzip)."""
    f, m = MODULE.get(fam, ("lending.qnt", "lending"))
    step = "step" if fam in ("Agg", "Math") else "step" + fam
    d = os.path.join(work, f"{fam}_{seed}")
    os.makedirs(d)
    rc, t = quint(d, "gen", ["run", f, "--backend=typescript", "--main", m, "--init", "initScen" if fam == "Scen" else "init", "--step", step, "--max-samples", str(n), "--n-traces", str(n),
                  "--max-steps", str(steps), "--seed", str(seed), "--out-itf", os.path.join(d, f"{fam}_{seed}_{{seq}}.itf.json")], 1500)
    got = sorted(glob.glob(os.path.join(d, "*.itf.json")))
    if rc or not got:
        raise Tool(f"no behaviours of {fam}: " + t)
    g = gen.result()
    out = os.path.join(work, f"{fam}_{i}.jsonl")
    with open(out, "wb") as o:
        if subprocess.run([EXE, "pack", g] + got, stdout=o, env=ENV, timeout=600).returncode:
            raise Tool(f"packing {fam}")
    shutil.rmtree(d)
    with open(out, "rb") as a, gzip.GzipFile(out + ".gz", "wb", 9, mtime=0) as z:
        shutil.copyfileobj(a, z)
    os.remove(out)
    return out + ".gz"


def corpus():
    """The committed behaviours of the present specification; --prepare regenerates them after it changed."""
    return os.path.join(ROOT, "corpus", spec_key())


def prepare():
    seed = 1
    work = os.path.join(ROOT, "work", "prepare")
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    dst = corpus()
    if os.path.exists(dst):
        build(work)
        return
    with ThreadPoolExecutor(CPUS) as ex:
        build(work)
        g = ex.submit(genesis, work)
        jobs = []
        for fam, l in SHARDS.items():
            for i, steps in enumerate(l):
                jobs.append((-steps * PER_SHARD.get(fam, N) * (0.1 if fam in PER_SHARD else 1), fam, i, steps))
        fs = [ex.submit(shard, work, fam, i, PER_SHARD.get(fam, N), steps, seed * 100000 + hash_of(fam) + i, g) for _, fam, i, steps in sorted(jobs)]
        for f in fs:
            f.result()
    for p in glob.glob(os.path.join(ROOT, "corpus", "*")):
        shutil.rmtree(p)
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    for p in glob.glob(os.path.join(work, "*.log")):
        os.remove(p)
    os.rename(work, dst)


def exhaustive(work):
    """Every reachable state of the small model of the aggregator's rounds (spec/aggsmall.qnt), by TLC on the compiled module."""
    d = os.path.join(work, "tlc")
    os.makedirs(d)
    out, log = os.path.join(d, "raw.tla"), os.path.join(d, "compile.log")
    with open(out, "wb") as o, open(log, "wb") as e:
        if subprocess.run(["quint", "compile", "--target", "tlaplus", "--main", "aggsmall", "aggsmall.qnt"], stdout=o, stderr=e, cwd=SPEC, env=ENV,
                          stdin=subprocess.DEVNULL, timeout=300).returncode:
            raise Tool("aggsmall does not compile: " + tail(log))
    t = open(out).read()
    t = re.sub(r" := ", " = ", re.sub(r"(?m)^(\s*):= ", r"\1= ", t[t.index("-" * 10):]))
    open(os.path.join(d, "aggsmall.tla"), "w").write(t)
    open(os.path.join(d, "aggsmall.cfg"), "w").write("INIT init\nNEXT step\nINVARIANT Inv\n")
    shutil.rmtree(os.path.join(SPEC, "_apalache-out"), ignore_errors=True)
    with zipfile.ZipFile("/opt/veriftools/apalache/lib/apalache.jar") as z:
        for m in ("Apalache", "Variants"):
            open(os.path.join(d, m + ".tla"), "wb").write(z.read(f"tla2sany/StandardModules/{m}.tla"))
    log = os.path.join(d, "tlc.log")
    rc = sh(["tlc", "-deadlock", "-workers", str(CPUS), "-metadir", os.path.join(d, "meta"), "-config", "aggsmall.cfg", "aggsmall.tla"], log, 600, d)
    m = re.search(r"(\d+) states generated, (\d+) distinct states found, 0 states left", open(log).read())
    if rc or not m:
        raise Tool("the small model of the rounds: " + tail(log))
    return {"module": "aggsmall.qnt", "transitions": int(m[1]), "distinct_states": int(m[2]), "complete": True}


def hash_of(fam):
    return sum(ord(c) * 31 ** i for i, c in enumerate(fam)) % 9973 * 100


def replay(gen, path, deadline, enough=None):
    """Replays one shard; None if there was no time left for it, or no need."""
    if time.time() > deadline or enough:
        return None
    with gzip.open(path, "rb") as z:
        lines = z.read()
    p = subprocess.Popen([EXE, "replay", gen], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV)
    try:
        out, err = p.communicate(lines, timeout=600)
    except subprocess.TimeoutExpired:
        p.kill()
        raise Tool(f"replay of {path} timed out")
    res = []
    for line in out.split(b"\n"):
        i = line.find(b'{"counts":')  # (a panic message may precede it on the line)
        if i >= 0:
            try:
                res.append(json.loads(line[i:]))
            except ValueError:
                pass
    # (the first line reports on the deployment; if that diverges nothing else is replayed)
    world = res and res[0]["fam"] == "opening"
    if not (world and res[0]["divs"]) and len(res) != lines.count(b"\n") + (1 if world else 0):
        raise Tool(f"replay stopped early: rc {p.returncode} {err[-800:]} {out[-800:]}")
    return res


def known():
    p = os.path.join(ROOT, "known-findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def matches(k, prop, d):
    """A listed finding is recognised by operation, reason and the exact shape of the divergence."""
    if k.get("status") == "fixed" or k["property"] != prop:
        return False
    w = k["match"]
    return (w.get("op") in (None, d["op"]["k"]) and w.get("kind") in (None, d["kind"]) and w.get("why") in (None, d.get("why"))
            and re.search(w.get("msg", ""), d.get("msg") or "") is not None
            and all(re.search(w.get("paths", ""), x[0]) for x in d.get("diff", [])))


def unbig(v):
    if isinstance(v, dict):
        if "#bigint" in v:
            return int(v["#bigint"])
        if "#set" in v:
            return [unbig(x) for x in v["#set"]]
        return {a: unbig(b) for a, b in v.items()}
    return [unbig(x) for x in v] if isinstance(v, list) else v


def brief(o):
    return {k: v for k, v in unbig(o).items() if v not in ("", 0, [], False, None)}


def line_of(path, name):
    with gzip.open(path, "rb") as z:
        for l in z:
            if f'"trace":"{name}"'.encode() in l:
                return json.loads(l)
    return None


def main():
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED") or 1)
    if sys.argv[1] == "--prepare":
        prepare()
        return 0
    prop = sys.argv[1]
    tier = (sys.argv[2] if len(sys.argv) > 2 else None) or os.environ.get("VERIF_TIER") or "quick"
    if prop not in PLAN:
        raise Tool(f"unknown property {prop}")
    budget = 120 if tier == "quick" else float(os.environ.get("VERIF_BUDGET_S") or 700)
    work = os.path.join(ROOT, "work", f"{prop}_{tier}")
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    cache = corpus()
    cov = dict(behaviours=0, steps=0, ops={}, why={}, shards=0, skipped=0)
    found, listed, seen_opening = [], {}, False

    def absorb(path, res):
        nonlocal seen_opening
        cov["shards"] += 1
        stop = {}
        for r in res:
            if r["fam"] == "opening":
                if seen_opening:
                    continue
                seen_opening = True
            cov["behaviours"] += 1
            cov["steps"] += r["steps"]
            for a in ("counts", "why"):
                c = cov["ops" if a == "counts" else a]
                for k, v in r[a].items():
                    c[k] = c.get(k, 0) + v
            for d in r["divs"]:
                d["family"] = r["fam"]
                if d["kind"] != "view":
                    stop[r["trace"]] = min(stop.get(r["trace"], 10 ** 9), d["step"] - 1)
                props = attribute(d)
                if prop in props:
                    hit = next((k for k in known() if matches(k, prop, d)), None)
                    if hit:
                        listed[hit["id"]] = hit["what"]
                    else:
                        found.append((path, r["trace"], d, sorted(props)))
        # steps that the contracts confirmed but the specification's statement of the property rejects
        with gzip.open(path, "rb") as z:
            for l in z:
                if b'"bad":[]' in l[:40]:
                    continue
                t = json.loads(l)
                for i, names, op in t["bad"]:
                    if prop in [re.sub("[a-z]$", "", x) for x in names] and i <= stop.get(t["trace"], 10 ** 9):
                        found.append((path, t["trace"], {"step": i, "kind": "property", "op": op, "ok": True, "why": "", "family": t["fam"], "msg":
                                      "the contracts follow the specification into a state that violates the property"}, [prop]))

    small = exhaustive(work) if prop == "C19" and tier != "quick" else None
    with ThreadPoolExecutor(CPUS) as ex:
        cached = os.path.exists(cache)
        b = ex.submit(build, work)
        if cached:
            gen = os.path.join(cache, "genesis.itf.json")
            paths = [p for f in PLAN[prop] for p in sorted(glob.glob(os.path.join(cache, f + "_*.gz")))]
        else:  # no prepared behaviours: a smaller set is generated now
            g = ex.submit(genesis, work)
            b.result()
            fs = [ex.submit(shard, work, f, 0, 24, 40, seed * 100000 + hash_of(f), g) for f in PLAN[prop][:6]]
            paths = [f.result() for f in fs]
            gen = g.result()
        b.result()
        if cached and tier == "quick" and seed != 1:  # another seed adds behaviours of its own
            gf = ex.submit(lambda: gen)
            paths = [f.result() for f in [ex.submit(shard, work, f, 0, 24, 40, seed * 100000 + hash_of(f), gf) for f in PLAN[prop][:6]]] + paths
        deadline = time.time() + budget
        for p, f in [(p, ex.submit(replay, gen, p, deadline, found)) for p in paths]:
            r = f.result()
            if r is None:
                cov["skipped"] += 1  # (none, unless time ran out or a violation was found)
            else:
                absorb(p, r)
        round_ = 0
        while tier != "quick" and not found and time.time() - t0 < budget - 150:
            # thorough: fresh behaviours of every family, first those closest to the property
            round_ += 1
            gw = os.path.join(work, f"r{round_}")
            os.makedirs(gw)
            gf = ex.submit(lambda: gen)
            fams = (PLAN[prop] * 8)[:CPUS]
            fs = [ex.submit(shard, gw, f, i, N, 50 + 10 * (round_ % 4), seed * 100000 + int(prop[1:]) * 1000 + 50000 + round_ * 20 + i, gf) for i, f in enumerate(fams)]
            ps = [f.result() for f in fs]
            for p, f in [(p, ex.submit(replay, gen, p, t0 + budget + 100)) for p in ps]:
                r = f.result()
                if r is not None:
                    absorb(p, r)
            if not found:
                shutil.rmtree(gw)
    for i, what in sorted(listed.items()):
        print(f"KNOWN-FINDING: property={prop} {what}")
    replay_path = None
    if found:
        found.sort(key=lambda x: (x[2]["kind"] == "view", x[2]["step"]))
        path, tr, d, props = found[0]
        dst = os.path.join(ROOT, "evidence", f"replay_{prop}")
        shutil.rmtree(dst, ignore_errors=True)
        os.makedirs(dst)
        shutil.copy(gen, dst)
        t = line_of(path, tr)
        if t:
            open(os.path.join(dst, "trace.jsonl"), "w").write(json.dumps(t) + "\n")
        replay_path = os.path.join("evidence", f"replay_{prop}", "divergence.json")
        slim = {k: v for k, v in d.items() if k not in ("before",)}
        json.dump({"property": prop, "bears_on": props, "trace": tr, "others": len(found) - 1, "divergence": slim,
                   "reproduce": f"cd evidence/replay_{prop} && ../../target/debug/harness replay genesis.itf.json < trace.jsonl"},
                  open(os.path.join(ROOT, replay_path), "w"), indent=1)
    samples = []
    try:
        with gzip.open(paths[0], "rb") as z:
            t = json.loads(z.readline())
        st = t.get("steps") or [x["last"] for x in t["states"]]
        samples = [{"trace": t["trace"], "operations": [brief(x["op"]) for x in st[1:11]]}]
    except Exception:
        pass
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": cov["steps"] + cov["behaviours"], "transitions": cov["steps"],
                       "traces_validated_against_impl": cov["behaviours"], "exhaustive": False,
                       "operations": dict(sorted(cov["ops"].items())), "refusal_reasons": dict(sorted(cov["why"].items())),
                       "families": PLAN[prop], "shards": cov["shards"], "shards_skipped_for_time": cov["skipped"], "fresh_rounds": round_,
                       "samples": samples, "known_findings_seen": sorted(listed)},
          **({"small_model": small} if small else {}),
          "assumptions": ["contracts run in the MultiversX debug VM", "external protocols replaced by the mocks of harness/src/mocks.rs"],
          "wall_s": round(time.time() - t0, 1), "violations": len(found)}
    json.dump(ev, open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w"), indent=1)
    shutil.rmtree(work, ignore_errors=True)
    print(f"{prop} {tier}: {cov['behaviours']} behaviours, {cov['steps']} steps, {len(found)} divergences, {time.time() - t0:.0f}s")
    if found:
        _, tr, d, props = found[0]
        print(f"  step {d['step']} {d['kind']} {json.dumps(brief(d['op']))[:600]}")
        if "want" in d:
            print(f"  specification {d['want']}\n  contracts     {d['got']}")
        if d["kind"] != "view":
            print(f"  specification: {'accepted' if d['ok'] else 'refused (' + d['why'] + ')'}; contracts: {'accepted' if d.get('implOk', True) else 'refused'} {d.get('msg') or ''}")
            for x in (d.get("diff") or [])[:12]:
                print(f"    {x[0]}: specification {x[1]}, contracts {x[2]}")
        print(f"VIOLATION property={prop} replay={replay_path}")
        return 1
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Tool as e:
        print(f"check failed: {e}", file=sys.stderr)
        sys.exit(2)
