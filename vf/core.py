"""Machinery shared by every check: scratch space, TLC runs, verdicts, evidence.

Exit codes: 0 = property held on everything explored, 1 = VIOLATION printed,
2 = the machinery itself failed (never used for a verdict).
"""
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
#: elsewhere only when a scratch copy of the repository is checked
EVIDENCE = os.environ.get("VF_EVID") or os.path.join(VERIF, "evidence")
SPECS = os.path.join(VERIF, "specs")
REPO = os.environ.get("VF_REPO", "/repo")
TLA = "/opt/veriftools/tla"
PYTHON = "/opt/venv/bin/python"


class MachineryError(Exception):
    pass


class TLCResult:
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated = int(m[-1][0]) if m else 0
        self.distinct = int(m[-1][1]) if m else 0
        self.ok = "Model checking completed. No error has been found." in out or (
            rc == 0 and "Error:" not in out
        )
        m = re.search(r"Invariant (\w+) is violated", out)
        self.violated = m.group(1) if m else None

    def tail(self, n=40):
        return "\n".join(self.out.splitlines()[-n:])


def sha(obj):
    return hashlib.sha256(
        json.dumps(obj, sort_keys=True, default=str).encode()
    ).hexdigest()[:16]


class Ctx:
    def __init__(self, prop, tier, seed, level):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.rng = random.Random(f"{prop}-{seed}")
        self.scratch = tempfile.mkdtemp(prefix=f"vf-{prop}-")
        self.t0 = time.time()
        self.cov = {
            "states": 0,
            "transitions": 0,
            "traces_validated_against_impl": 0,
            "samples": [],
        }
        self.violations = []  # (key, what, replay-file)
        self.known_hit = {}
        self.known = load_known(prop)
        self.replay_dir = os.path.join(EVIDENCE, "replay")
        self._n = 0
        self._keys = set()

    @property
    def quick(self):
        return self.tier == "quick"

    def elapsed(self):
        return time.time() - self.t0

    def dir(self, name=""):
        self._n += 1
        d = os.path.join(self.scratch, f"{self._n:04d}{name}")
        os.makedirs(d)
        return d

    def count(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def sample(self, obj, limit=4):
        if len(self.cov["samples"]) < limit:
            self.cov["samples"].append(obj)

    def violation(self, key, what, replay):
        """A disagreement between the specification and the real code.

        ``key`` identifies the specific failing input/history class; it is what
        the known-findings file is matched against."""
        if key in self.known:
            self.known_hit.setdefault(key, 0)
            self.known_hit[key] += 1
            return
        if key in self._keys:
            return
        self._keys.add(key)
        os.makedirs(self.replay_dir, exist_ok=True)
        path = os.path.join(
            self.replay_dir, f"{self.prop}-{len(self.violations):03d}.json"
        )
        with open(path, "w") as f:
            json.dump(
                {
                    "property": self.prop,
                    "key": key,
                    "what": what,
                    "seed": self.seed,
                    "tier": self.tier,
                    "replay": replay,
                },
                f,
                indent=1,
                default=str,
            )
        self.violations.append((key, what, path))

    # ---------------------------------------------------------------- TLC
    def tlc(
        self,
        module,
        cfg,
        files=None,
        workers=1,
        timeout=600,
        heap="4g",
        extra=(),
        name="",
        must_succeed=True,
        count=True,
    ):
        """Run TLC on specs/<module>.tla with the given cfg text in a scratch
        directory; ``files`` are written beside it first."""
        d = self.dir(f"-tlc-{module}{name}")
        for f in os.listdir(SPECS):
            if f.endswith(".tla"):
                os.symlink(os.path.join(SPECS, f), os.path.join(d, f))
        for fn, content in (files or {}).items():
            with open(os.path.join(d, fn), "w") as fh:
                fh.write(content)
        with open(os.path.join(d, "_run.cfg"), "w") as fh:
            fh.write(cfg)
        cmd = [
            "java",
            "-XX:+UseParallelGC",
            "-XX:ParallelGCThreads=2",
            f"-Xmx{heap}",
            "-Xss256m",
            "-Djava.io.tmpdir=" + d,
            "-cp",
            f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar",
            "tlc2.TLC",
            "-noGenerateSpecTE",
            "-metadir",
            os.path.join(d, "meta"),
            "-workers",
            str(workers),
            "-config",
            "_run.cfg",
            *extra,
            module + ".tla",
        ]
        t = time.time()
        try:
            p = subprocess.run(
                cmd,
                cwd=d,
                stdout=subprocess.PIPE,
                stderr=subprocess.STDOUT,
                timeout=timeout,
                text=True,
                errors="replace",
            )
        except subprocess.TimeoutExpired as e:
            raise MachineryError(f"TLC timed out on {module} after {timeout}s") from e
        r = TLCResult(p.stdout, p.returncode, time.time() - t)
        r.dir = d
        if os.environ.get("VF_STDERR"):
            print(f"  [{self.elapsed():.0f}s] TLC {module}{name}: {r.wall:.1f}s")
        if count:
            self.count("states", r.distinct)
            self.count("transitions", r.generated)
        if must_succeed and not r.ok:
            raise MachineryError(f"TLC failed on {module}:\n" + r.tail(60))
        return r

    def model_check(self, module, cfg, **kw):
        """Exhaustive check of the design: the invariants must hold."""
        kw.setdefault("workers", 4)
        if os.environ.get("VF_NOMC"):
            return None
        r = self.tlc(module, cfg, must_succeed=False, **kw)
        if r.violated:
            raise MachineryError(
                f"design invariant {r.violated} of {module} violated:\n" + r.tail(60)
            )
        if not r.ok:
            raise MachineryError(f"TLC failed on {module}:\n" + r.tail(60))
        return r

    def emitted(self, r, tag="CASE"):
        """The JSON values printed by a TLC run as  <<"CASE", "json">>"""
        res = []
        pat = re.compile(r'^<<"%s", "(.*)">>\s*$' % tag)
        for line in r.out.splitlines():
            m = pat.match(line)
            if m:
                s = m.group(1).replace('\\"', '"').replace("\\\\", "\\")
                res.append(json.loads(s))
        return res

    def validate(self, module, trace, consts="", name="", cfg_extra="", **kw):
        """Check a recorded trace (list of JSON-able events) against the trace
        specification ``module``. Returns the list of rejected lines, each
        {"line": n, "clauses": [...]} as computed by TLC."""
        if not trace:
            return []
        cfg = (
            "SPECIFICATION TraceSpec\nCONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n"
            + (("CONSTANTS\n" + consts + "\n") if consts else "")
            + cfg_extra
        )
        body = "\n".join(json.dumps(clean(e)) for e in trace) + "\n"
        r = self.tlc(module, cfg, files={"trace.ndjson": body}, name=name, **kw)
        vf = os.path.join(r.dir, "verdict.json")
        if not os.path.exists(vf):
            raise MachineryError(f"{module}: TLC wrote no verdict:\n" + r.tail(60))
        v = json.load(open(vf))
        if v["consumed"] != len(trace):
            raise MachineryError(
                f"{module}: {v['consumed']} of {len(trace)} lines consumed"
            )
        f = v["fails"]
        return f if isinstance(f, list) else []

    # ---------------------------------------------------------------- end
    def finish(self):
        ev = {
            "property": self.prop,
            "tier": self.tier,
            "seed": self.seed,
            "level": self.level,
            "coverage": self.cov,
            "wall_s": round(time.time() - self.t0, 2),
        }
        if self.known_hit:
            ev["coverage"]["known_findings_reproduced"] = sorted(self.known_hit)
        ev["coverage"]["violations"] = len(self.violations)
        os.makedirs(EVIDENCE, exist_ok=True)
        p = os.path.join(EVIDENCE, f"{self.prop}.json")
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(p + ".tmp", p)
        for key in sorted(self.known):
            if key in self.known_hit:
                print(f"KNOWN-FINDING: property={self.prop} {key}: {self.known[key]}")
        for key, what, path in self.violations[:20]:
            print(f"VIOLATION property={self.prop} replay={path}")
            print(f"  {key}: {what}"[:1500])
        return 1 if self.violations else 0

    def close(self):
        if os.environ.get("VF_KEEP"):
            print("scratch kept:", self.scratch)
        else:
            shutil.rmtree(self.scratch, ignore_errors=True)


def clean(v):
    """JSON that TLC can read: no null, no floats, no integers over 32 bits."""
    if v is None:
        return "null"
    if isinstance(v, bool) or isinstance(v, str):
        return v
    if isinstance(v, float):
        return repr(v)
    if isinstance(v, int):
        return v if -(2**31) < v < 2**31 else f"big{v}"
    if isinstance(v, dict):
        return {str(k): clean(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [clean(x) for x in v]
    return str(v)


def load_known(prop):
    res = {}
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line or line.startswith("#"):
                continue
            d = json.loads(line)
            if d.get("status") == "known" and d["property"] == prop:
                res[d["key"]] = d["what"]
    return res


def setup_env(scratch):
    """The environment the code under test runs in."""
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.environ["MPLBACKEND"] = "agg"
    os.environ["NUMBA_CACHE_DIR"] = os.path.join(scratch, "numba")
    os.environ["MPLCONFIGDIR"] = os.path.join(scratch, "mpl")
    for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "NUMEXPR_NUM_THREADS"):
        os.environ[k] = "1"
    os.environ["TMPDIR"] = scratch
    tempfile.tempdir = scratch
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)


def main(argv):
    import importlib

    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(argv) > 1:
        tier = argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        mod = importlib.import_module(f"vf.props.{prop.lower()}")
    except Exception:
        traceback.print_exc()
        return 2
    ctx = Ctx(prop, tier, seed, getattr(mod, "LEVEL", "model_checking"))
    try:
        setup_env(ctx.scratch)
        import warnings

        warnings.simplefilter("ignore")
        import logging

        logging.disable(logging.CRITICAL)
        mod.run(ctx)
        return ctx.finish()
    except MachineryError as e:
        print(f"ERROR (machinery) {prop}: {e}")
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        ctx.close()
