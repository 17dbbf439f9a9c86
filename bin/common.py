"""Shared by all checks: building from /repo's current tree, workers, verdicts, evidence."""
import hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
EVID = os.path.join(VERIF, "evidence")
CORES = min(8, os.cpu_count() or 8)


class CheckError(Exception):
    pass


def tier():
    t = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        t = "thorough"
    if "--quick" in sys.argv:
        t = "quick"
    return "thorough" if t == "thorough" else "quick"


def seed():
    try:
        return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        return 1


def tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        if os.path.isdir(p):
            for root, dirs, files in os.walk(p):
                dirs.sort()
                for f in sorted(files):
                    q = os.path.join(root, f)
                    h.update(os.path.relpath(q, p).encode() + b"\0")
                    h.update(open(q, "rb").read())
        else:
            h.update(os.path.basename(p).encode() + b"\0")
            h.update(open(p, "rb").read())
    return h.hexdigest()[:16]


def prune(prefix, keep):
    """build directories of older trees are dropped"""
    if not os.path.isdir(BUILD):
        return
    old = [os.path.join(BUILD, d) for d in os.listdir(BUILD) if d.startswith(prefix) and d != keep]
    old.sort(key=os.path.getmtime)
    for d in old[:-3]:
        shutil.rmtree(d, ignore_errors=True)


def build_hjsim():
    src = os.path.join(VERIF, "sim")
    key = tree_hash([os.path.join(REPO, "include"), src])
    d = os.path.join(BUILD, "cpp-" + key)
    exe = os.path.join(d, "hjsim")
    if os.path.exists(exe):
        return exe, 0.0
    prune("cpp-", "cpp-" + key)
    t0 = time.time()
    tmp = d + ".tmp%d" % os.getpid()
    os.makedirs(tmp)
    p = subprocess.run(["make", "-s", "-C", src, "-j%d" % CORES, "REPO=" + REPO, "OUT=" + tmp, tmp + "/hjsim"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        shutil.rmtree(tmp, ignore_errors=True)
        raise CheckError("building the simulator from %s failed:\n%s" % (REPO, p.stdout[-3000:]))
    for f in os.listdir(tmp):
        if f.endswith(".o"):
            os.remove(os.path.join(tmp, f))
    try:
        os.rename(tmp, d)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return exe, time.time() - t0


def known_findings(prop):
    f = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(f):
        return []
    return [k for k in json.load(open(f)).get("findings", []) if k["property"] == prop]


def match_known(known, cls, message):
    for k in known:
        if re.search(k["match_class"], cls) and re.search(k["match_message"], message):
            return k
    return None


def write_evidence(prop, level, coverage, wall, violations, assumptions):
    os.makedirs(EVID, exist_ok=True)
    e = {"property": prop, "tier": tier(), "seed": seed(), "level": level, "coverage": coverage, "assumptions": assumptions, "wall_s": round(wall, 2), "violations": violations}
    tmp = os.path.join(EVID, ".%s.%d" % (prop, os.getpid()))
    with open(tmp, "w") as f:
        json.dump(e, f, indent=1)
        f.write("\n")
    os.replace(tmp, os.path.join(EVID, prop + ".json"))


def replay_dir():
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    return d
