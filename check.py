#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--replay FILE]

Builds the harness of property ID against /repo's working tree and runs it.
Exit 0: held on everything explored. Exit 1 + VIOLATION line: broken.
Exit 2: no answer (build failure, worker killed, out of time)."""
import argparse, glob, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
GOROOT = "/opt/veriftools/go1.26.10"
SHARDS = 8
LIMIT = {"quick": 780, "thorough": 3 * 3600}


def environ(scratch):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("GO", "RAPID"))}
    e.update(
        HOME="/root", PATH=GOROOT + "/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build",
        GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off", GOFLAGS="-mod=mod -buildvcs=false", GOWORK="off",
        TMPDIR=scratch, GO111MODULE="on", GONOSUMDB="*", GONOSUMCHECK="1", GOTELEMETRY="off",
    )
    return e


def die(msg):
    print("ERROR: " + msg, flush=True)
    sys.exit(2)


def known(pid):
    """-> {name: text} of the known findings of a property"""
    out = {}
    for l in open(os.path.join(VERIF, "known_findings.txt")):
        m = re.match(r"known: property=(\S+) name=(\S+) (.*)", l)
        if m and m[1] == pid:
            out[m[2]] = m[3].strip()
    return out


class Harness:
    def __init__(self, pid, scratch):
        self.pid, self.scratch = pid, scratch
        self.env = environ(scratch)
        self.known = known(pid)
        self.known.pop(os.environ.get("VERIF_FORGET"), None)  # to find the case of a finding
        self.bin = os.path.join(scratch, "prop.test")

    def build(self):
        src = os.path.join(self.scratch, "h")
        shutil.copytree(os.path.join(VERIF, "harness"), src)
        p = subprocess.run(["go", "test", "-c", "-trimpath", "-vet=off", "-o", self.bin, "./" + self.pid.lower()],
                           cwd=src, env=self.env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            die("harness does not build:\n" + p.stdout[-4000:])
        if os.path.exists(os.path.join(VERIF, "harness", self.pid.lower(), "USES_CLI")):
            cli = os.path.join(self.scratch, "oapi")
            p = subprocess.run(["go", "build", "-o", cli, "./cmd/oapi"], cwd="/repo", env=self.env,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode != 0:
                die("oapi does not build:\n" + p.stdout[-4000:])
            self.env["VERIF_CLI"] = cli

    def start(self, out, extra):
        os.makedirs(os.path.join(out, "tmp"))
        e = dict(self.env, VERIF_OUT=out, TMPDIR=os.path.join(out, "tmp"), GOMAXPROCS="2", VERIF_KNOWN=" ".join(self.known))
        e.update(extra)
        log = open(os.path.join(out, "log"), "wb")
        return subprocess.Popen([self.bin, "-test.timeout=0", "-test.run=^TestProp$"], cwd=os.path.join(out, "tmp"),
                                env=e, stdout=log, stderr=subprocess.STDOUT, start_new_session=True)

    def replay(self, path, limit=120, **extra):
        """-> (verdict, text): pass, fail, hang or crash"""
        out = tempfile.mkdtemp(dir=self.scratch)
        p = self.start(out, dict(extra, VERIF_REPLAY=os.path.abspath(path)))
        try:
            p.wait(limit)
        except subprocess.TimeoutExpired:
            kill(p)
            return "hang", "no end within %d s, alone" % limit
        text = open(os.path.join(out, "log"), errors="replace").read()
        shutil.rmtree(out, ignore_errors=True)
        if p.returncode == 0:
            return "pass", text
        if "REPLAY-FAILS" in text:
            return "fail", text
        if p.returncode < 0 and p.returncode not in (-signal.SIGABRT, -signal.SIGSEGV):
            return "killed", text
        return "crash", text


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()


def current_case(out, pid):
    try:
        b = open(os.path.join(out, "current"), "rb").read()
        head, rest = b.split(b"\n", 1)
        part, n = head.decode().rsplit(" ", 1)
        return {"property": pid, "part": part, "case": json.loads(rest[:int(n)])}
    except Exception as e:
        return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--replay")
    ap.add_argument("--part")
    a = ap.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED") or "1")
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % a.id, dir="/tmp")
    try:
        sys.exit(run(a, tier, seed, scratch))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run(a, tier, seed, scratch):
    begin = time.time()
    h = Harness(a.id, scratch)
    h.build()
    built = time.time()
    if a.replay:
        v, text = h.replay(a.replay)
        print(text[-6000:])
        print(v)
        if v in ("fail", "crash", "hang"):
            print("VIOLATION property=%s replay=%s" % (a.id, a.replay))
            return 1
        return 0 if v == "pass" else 2
    violations = []  # (record, why)

    # The case of every known finding, without the tolerance the list brings.
    findings = 0
    for name, text in sorted(h.known.items()):
        v, _ = h.replay(os.path.join(VERIF, "findings", a.id, name + ".json"), VERIF_KNOWN="")
        if v in ("fail", "crash", "hang"):
            findings += 1
            print("KNOWN-FINDING: property=%s %s" % (a.id, text), flush=True)

    # Stored minimal cases of defects found earlier.
    stored = sorted(glob.glob(os.path.join(VERIF, "regress", a.id, "*.json")))
    if a.part:
        stored = []
    for f in stored:
        v, text = h.replay(f)
        if v in ("fail", "crash", "hang"):
            rec = json.load(open(f))
            rec["error"] = text[-3000:]
            violations.append(rec)
            break
        if v == "killed":
            die("replay of %s was killed" % f)

    procs = []
    if not violations:
        for i in range(SHARDS):
            out = os.path.join(scratch, "shard%d" % i)
            os.makedirs(out)
            extra = {"VERIF_SEED": str(seed), "VERIF_TIER": tier, "VERIF_SHARD": "%d/%d" % (i, SHARDS)}
            if a.part:
                extra["VERIF_PART"] = a.part
            procs.append((out, h.start(out, extra)))
    try:
        pending = dict(procs)
        stop_at = None
        while pending:
            for out, p in list(pending.items()):
                if p.poll() is not None:
                    del pending[out]
                    if p.returncode != 0 and stop_at is None:
                        stop_at = time.time() + 60  # the others get a while to finish, then the answer is known
            if stop_at and time.time() > stop_at:
                break
            if time.time() - built > LIMIT[tier]:
                for _, p in procs:
                    kill(p)
                die("out of time")
            time.sleep(0.1)
    finally:
        for _, p in procs:
            if p.poll() is None:
                kill(p)
                p.cut = True

    errors = []
    for out, p in procs:
        fails = sorted(glob.glob(os.path.join(out, "fail-*.json")))
        for f in fails:
            violations.append(json.load(open(f)))
        if p.returncode == 0 or fails or getattr(p, "cut", False):
            continue
        log = open(os.path.join(out, "log"), errors="replace").read()
        log = "\n".join(l for l in log.split("\n") if "[rapid] draw" not in l)
        rec = current_case(out, a.id)
        if rec is None:
            errors.append("worker ended with %s:\n%s" % (p.returncode, log[-3000:]))
            continue
        path = os.path.join(scratch, "suspect.json")
        json.dump(rec, open(path, "w"))
        v, text = h.replay(path)
        if v in ("fail", "crash", "hang"):
            rec["error"] = "%s: %s" % (v, text[-3000:])
            violations.append(rec)
        else:
            errors.append("worker ended with %s, not reproduced (%s):\n%s" % (p.returncode, v, log[-3000:]))

    parts, hashes = {}, {}
    for out, p in procs:
        try:
            stats = json.load(open(os.path.join(out, "stats.json")))
        except Exception:
            continue
        for s in stats:
            d = parts.setdefault(s["name"], {"rule": s["rule"], "evaluations": 0, "nontrivial": 0, "labels": {}, "samples": [], "seconds": 0})
            d["evaluations"] += s["evaluations"]
            d["nontrivial"] += s["nontrivial"]
            d["seconds"] = round(max(d["seconds"], s["seconds"]), 2)
            for k, v in (s["labels"] or {}).items():
                d["labels"][k] = d["labels"].get(k, 0) + v
            if len(d["samples"]) < 3:
                d["samples"] += (s["samples"] or [])[:3 - len(d["samples"])]
            try:
                b = open(os.path.join(out, "hashes-" + s["name"]), "rb").read()
                hashes.setdefault(s["name"], set()).update(struct.unpack("<%dQ" % (len(b) // 8), b))
            except FileNotFoundError:
                pass
    for n, d in parts.items():
        d["distinct_nontrivial"] = len(hashes.get(n, ()))
        d["labels"] = dict(sorted(d["labels"].items()))
    ev = {
        "property": a.id, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(d["evaluations"] for d in parts.values()),
            "distinct_nontrivial": sum(d["distinct_nontrivial"] for d in parts.values()),
            "rule": "; ".join("%s: %s" % (n, d["rule"]) for n, d in parts.items()),
            "samples": [{"part": n, "case": s} for n, d in parts.items() for s in d["samples"]],
            "parts": {n: {k: v for k, v in d.items() if k not in ("samples", "rule")} for n, d in parts.items()},
            "stored_cases_replayed": len(stored),
            "known_findings_still_failing": findings,
        },
        "assumptions": [
            "in-process scans use golang.org/x/tools v0.52.0 instead of the pinned version, which cannot run on this Go release",
            "the reference models in /verif/harness are right; they never call the code under test",
        ],
        "wall_s": round(time.time() - begin, 2),
        "violations": len(violations),
    }
    if not a.part:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", a.id + ".json"), "w"), indent=1, ensure_ascii=True)

    if violations:
        violations.sort(key=lambda r: len(json.dumps(r["case"])))
        rec = violations[0]
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", "%s-%s.json" % (a.id, rec["part"]))
        json.dump(rec, open(path, "w"), indent=1)
        print("part %s: %s" % (rec["part"], rec.get("error", "")[:3000]))
        print("case: " + json.dumps(rec["case"])[:3000])
        print("VIOLATION property=%s replay=%s" % (a.id, path), flush=True)
        return 1
    if errors:
        die("\n".join(errors)[:6000])
    for n, d in parts.items():
        print("%s/%s: %d cases, %d distinct non-trivial, %.1f s %s" % (a.id, n, d["evaluations"], d["distinct_nontrivial"], d["seconds"], d["labels"]))
    print("OK property=%s tier=%s seed=%d build=%.1fs wall=%.1fs" % (a.id, tier, seed, built - begin, time.time() - begin))
    return 0


if __name__ == "__main__":
    main()
