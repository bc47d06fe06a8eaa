"""Shared machinery of the checks: building drivers from /repo's working tree,
running TLC, and the generate -> replay -> judge pipeline."""
import concurrent.futures as cf
import hashlib, json, os, pathlib, re, shutil, subprocess, sys, time

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get("VP_REPO", "/repo"))
BUILD = VERIF / "build"
SPEC = VERIF / "spec"
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class CheckError(Exception):
    """The check itself could not be carried out (never a verdict)."""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


class DoesNotCompile(CheckError):
    def __init__(self, src, out):
        super().__init__(f"{src} does not compile:\n" + out[-4000:])
        self.src, self.out = pathlib.Path(src), out


# ------------------------------------------------------------------ building
CXX = ["g++", "-std=c++20", "-O0", "-D_GLIBCXX_ASSERTIONS", "-w"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]
TSAN = ["-fsanitize=thread", "-g1"]


def _object(src, flags):
    """Compiles src, cached by the hash of its preprocessed text and flags."""
    cpp = subprocess.run(CXX + flags + ["-E", "-P", str(src)], capture_output=True)
    if cpp.returncode != 0:
        raise DoesNotCompile(src, cpp.stderr.decode())
    key = hashlib.sha256(repr((CXX, flags, str(src))).encode() + cpp.stdout).hexdigest()[:32]
    obj = BUILD / "obj" / f"{key}.o"
    if not obj.exists():
        obj.parent.mkdir(parents=True, exist_ok=True)
        tmp = obj.with_suffix(f".{os.getpid()}.{time.time_ns()}.o")
        r = sh(CXX + flags + ["-c", str(src), "-o", str(tmp)])
        if r.returncode != 0:
            raise DoesNotCompile(src, r.stdout)
        os.replace(tmp, obj)
    return key, obj


def build(name, sources, flags=(), libs=("-lpthread",), san=True):
    """Builds build/bin/<name>-<hash> from the sources; returns its path."""
    san = TSAN if san == "thread" else SAN if san else []
    flags = list(flags) + san + [f"-I{VERIF}/shim", f"-I{REPO}/include", f"-I{VERIF}/drivers"]
    with cf.ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(lambda s: _object(s, flags), sources))
    key = hashlib.sha256("".join(k for k, _ in objs).encode()).hexdigest()[:24]
    exe = BUILD / "bin" / f"{name}-{key}"
    if not exe.exists():
        exe.parent.mkdir(parents=True, exist_ok=True)
        tmp = exe.with_suffix(f".{os.getpid()}")
        r = sh(["g++"] + san + [str(o) for _, o in objs] + list(libs) + ["-o", str(tmp)])
        if r.returncode != 0:
            raise CheckError(f"{name} does not link:\n" + r.stdout[-4000:])
        os.replace(tmp, exe)
    return exe


def lib_sources():
    """All of the library's C++ sources except the Rust binding."""
    return sorted(p for p in (REPO / "src").rglob("*.cpp") if p.name != "RustFFI.cpp")


def world():
    d = VERIF / "drivers"
    return build("world", [d / "world.cpp", d / "clock.cpp"] + lib_sources())


def world_threads():
    """The same, watched for data races (where that works at all)."""
    d = VERIF / "drivers"
    exe = build("worlds", [d / "world.cpp", d / "clock.cpp"] + lib_sources(), san="thread")
    r = sh([str(exe), "/dev/null", "/dev/null"])
    return exe if r.returncode == 0 else world()


def util_driver():
    d = VERIF / "drivers"
    return build("util", [d / "util.cpp"] + [s for s in lib_sources() if s.name == "Cancellation.cpp"])


def convert_driver():
    return build("convert", [VERIF / "drivers" / "convert.cpp"])


def rust_driver():
    """The world behind the Rust interface: /repo/src/lib.rs as it is, its bridge
    expanded by rust/bridge.py in place of cxx."""
    sys.path.insert(0, str(VERIF / "rust"))
    import bridge
    R = VERIF / "rust"
    src = (REPO / "src" / "lib.rs").read_text()
    try:
        lib, hdr, glue = bridge.expand(src)
    except bridge.Unsupported as e:
        raise CheckError(f"src/lib.rs has a bridge the stand-in does not understand: {e}")
    mods = sorted(p for p in (REPO / "src").rglob("*.rs"))
    key = hashlib.sha256(b"\0".join([p.read_bytes() for p in mods] + [p.read_bytes() for p in sorted(R.rglob("*")) if p.is_file() and p.suffix in (".rs", ".py", ".h")])).hexdigest()[:24]
    d = BUILD / "rust" / key
    if not (d / "libharness.a").exists():
        t = d.with_name(f"{key}.{os.getpid()}")
        (t / "include" / "trajoptlib" / "src").mkdir(parents=True)
        for p in mods:
            if p.name != "lib.rs":
                (t / p.relative_to(REPO / "src")).parent.mkdir(parents=True, exist_ok=True)
                shutil.copy(p, t / p.relative_to(REPO / "src"))
        (t / "lib.rs").write_text(lib)
        (t / "include" / "trajoptlib" / "src" / "lib.rs.h").write_text(hdr)
        (t / "glue.cpp").write_text(glue)
        rc = ["rustc", "--edition", "2021", "-A", "warnings", "-C", "panic=abort"]
        for cmd in (["--crate-type", "rlib", "--crate-name", "cxx", str(R / "cxx.rs")],
                    ["--crate-type", "rlib", "--crate-name", "trajoptlib", "--extern", "cxx=libcxx.rlib", "lib.rs"],
                    ["--crate-type", "staticlib", "--crate-name", "harness", "--extern", "trajoptlib=libtrajoptlib.rlib", "-L", ".", str(R / "harness.rs")]):
            r = sh(rc + cmd, cwd=t)
            if r.returncode != 0:
                shutil.rmtree(t, ignore_errors=True)
                raise DoesNotCompile(cmd[-1], r.stdout)
        try:
            os.replace(t, d)
        except OSError:  # another run was faster
            shutil.rmtree(t, ignore_errors=True)
    dr = VERIF / "drivers"
    return build("rustworld", [dr / "rustworld.cpp", dr / "clock.cpp", d / "glue.cpp", REPO / "src" / "RustFFI.cpp"] + lib_sources(),
                 flags=[f"-I{R}/include", f"-I{d}/include", f"-I{REPO}/src"],
                 libs=(str(d / "libharness.a"), "-lpthread", "-ldl"))


def geometry_driver():
    return build("geometry", sorted((VERIF / "drivers").glob("geometry*.cpp")))


def geometry_plain():
    d = VERIF / "drivers"
    flags = SAN + [f"-I{VERIF}/shim", f"-I{REPO}/include", f"-I{d}"]
    for s in ("geometry.cpp", "geometry_plain.cpp"):
        _object(d / s, flags)


def expected_driver():
    return build("expected", sorted((VERIF / "drivers").glob("expected*.cpp")))


# ----------------------------------------------------------------------- TLC
class Tlc:
    def __init__(self, out, rc, secs):
        self.out, self.rc, self.secs = out, rc, secs
        m = re.findall(r"(\d+) states generated.*?(\d+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        if not m:
            m = re.search(r"The number of states generated: (\d+)", out)
            self.generated = int(m.group(1)) if m else 0


def tlc(workdir, module, cfg, env=None, args=(), workers="1", timeout=600, heap="4g", ok_codes=(0,)):
    """Runs TLC on spec/<module>.tla with the given cfg text."""
    workdir = pathlib.Path(workdir)
    workdir.mkdir(parents=True, exist_ok=True)
    cfgf = workdir / f"{module}-{time.time_ns()}.cfg"
    cfgf.write_text(cfg)
    meta = workdir / f"meta-{time.time_ns()}"
    cmd = ["java", f"-Xmx{heap}", "-XX:+UseParallelGC", "-Xss64m", f"-DTLA-Library={SPEC}", "-cp", TLA_CP, "tlc2.TLC",
           "-config", str(cfgf), "-metadir", str(meta), "-workers", str(workers), "-noGenerateSpecTE",
           "-cleanup", *args, str(SPEC / f"{module}.tla")]
    e = dict(os.environ)
    e.update(env or {})
    t = time.time()
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e, timeout=timeout,
                           cwd=workdir)
    except subprocess.TimeoutExpired as x:
        raise CheckError(f"TLC on {module} exceeded {timeout} s")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    if r.returncode not in ok_codes:
        i = r.stdout.find("Error:")
        raise CheckError(f"TLC on {module} failed (exit {r.returncode}):\n" + r.stdout[max(i, 0):][:600] + "\n...\n" + r.stdout[-1000:])
    return Tlc(r.stdout, r.returncode, time.time() - t)


# ------------------------------------------------------------------ pipeline
BAD = re.compile(r'^"BAD\|(\d+)\|(-?\d+)\|([^|]*)\|(.*)"$')


class Check:
    """One property's check run."""

    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.work = VERIF / "work" / f"{prop}-{os.getpid()}"
        shutil.rmtree(self.work, ignore_errors=True)
        self.work.mkdir(parents=True)
        for old in (VERIF / "replays").glob(f"{prop}-*"):
            old.unlink()
        self.states = self.transitions = self.traces = self.events = self.admitted = self.refused = 0
        self.overflows = 0
        self.samples, self.notes, self.violations = [], [], []
        self.models = []
        self.known_seen = {}
        self.assumptions = []
        self.known = {}
        self.elsewhere = {}     # findings recorded for another property, whose check reports them
        kf = VERIF / "known-findings.txt"
        if kf.exists():
            for line in kf.read_text().splitlines():
                m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
                if m and m.group(1) == prop:
                    self.known[m.group(2)] = m.group(3)
                elif m:
                    self.elsewhere[m.group(2)] = m.group(1)

    # -- step 1: the design
    def model(self, module, cfg, what, workers="auto", timeout=600, env=None, args=(), heap="8g"):
        r = tlc(self.work, module, cfg, workers=workers, timeout=timeout, env=env, args=args, heap=heap)
        self.states += r.distinct or r.generated
        self.transitions += r.generated
        self.models.append({"module": module, "what": what, "distinct_states": r.distinct, "generated": r.generated,
                            "wall_s": round(r.secs, 1)})
        return r

    def refute(self, module, cfg, what, **kw):
        """A variant of the model that must break its invariants: the invariants say something."""
        r = tlc(self.work, module, cfg, workers=kw.pop("workers", "auto"), ok_codes=(12, 13), **kw)
        self.states += r.distinct
        self.transitions += r.generated
        self.models.append({"module": module, "what": what + " (violated, as it must be)", "generated": r.generated,
                            "wall_s": round(r.secs, 1)})

    def inductive(self, module, inv, any_state, never, what):
        """Apalache: inv holds initially and is kept by every step from any state of the right shape - any number
        of steps, any numbers; the invariant never fails within four steps of the start, so the proof says something."""
        def run(init, length, invariant):
            cmd = ["apalache-mc", "check", "--cinit=CInit", f"--init={init}", f"--length={length}", f"--inv={invariant}",
                   "--no-deadlock", f"--out-dir={self.work}/apalache", f"--run-dir={self.work}/apalache-{init}-{invariant}",
                   str(SPEC / f"{module}.tla")]
            e = dict(os.environ, JVM_ARGS="-Xmx4g")
            t = time.time()
            try:
                r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e, cwd=self.work, timeout=600)
            except subprocess.TimeoutExpired:
                raise CheckError(f"Apalache on {module} exceeded 600 s")
            return r.returncode, r.stdout, time.time() - t
        with cf.ThreadPoolExecutor(3) as ex:
            runs = list(ex.map(lambda a: run(*a), [("Init", 0, inv), (any_state, 1, inv), ("Init", 4, never)]))
        for (rc, out, _), want in zip(runs, (0, 0, 12)):
            if rc != want:
                raise CheckError(f"Apalache on {module} gave exit {rc}, not {want}:\n" + out[-2000:])
        self.models.append({"module": module, "what": f"{what}: {inv} is inductive (Apalache); {never} fails from the start",
                            "wall_s": round(max(r[2] for r in runs), 1)})

    # -- step 2: behaviours
    def generate(self, module, cfg, num=0, depth=100, env=None, name="cases", timeout=600, seed=None):
        """Simulation: unlike breadth-first search, it draws the same random values for the same seed."""
        out = self.work / f"{name}-{module}-{time.time_ns()}.ndjson"
        e = {"OUT": str(out)}
        e.update(env or {})
        args = ["-simulate", f"num={num}", "-depth", str(depth), "-seed", str(seed if seed is not None else SEED)]
        r = tlc(self.work, module, cfg, env=e, args=args, timeout=timeout)
        self.transitions += r.generated
        self.states += r.distinct
        if not out.exists():
            raise CheckError(f"{module} generated no cases:\n" + r.out[-3000:])
        cases = [l for l in out.read_text().splitlines() if l.strip()]
        self.models.append({"module": module, "what": "behaviour generation", "generated": r.generated,
                            "behaviours": len(cases), "wall_s": round(r.secs, 1)})
        if not cases:
            raise CheckError(f"{module} generated no cases")
        # a generator whose draws are made once and kept says the same thing over and over
        self.models[-1]["different"] = len(set(cases))
        if 2 * len(set(cases)) < len(cases):
            raise CheckError(f"{module}: only {len(set(cases))} of {len(cases)} generated behaviours differ")
        return cases

    # -- step 3: replay on the real code
    def replay(self, driver, cases, name="run", timeout=600, env=None):
        n = max(1, min(8, len(cases)))
        parts = [cases[i::n] for i in range(n)]
        outs = []

        def one(i):
            ci, oi = self.work / f"{name}-{i}.in", self.work / f"{name}-{i}.out"
            ci.write_text("\n".join(parts[i]) + "\n")
            e = dict(os.environ)
            e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:hard_rss_limit_mb=2500:max_allocation_size_mb=2500"
            e["UBSAN_OPTIONS"] = "print_stacktrace=0"
            e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:detect_deadlocks=0"
            e.update(env or {})
            try:
                r = subprocess.run([str(driver), str(ci), str(oi)], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                   text=True, timeout=timeout, env=e)
            except subprocess.TimeoutExpired:
                raise CheckError(f"driver exceeded {timeout} s")
            if r.returncode != 0:
                raise CheckError(f"driver failed (exit {r.returncode}): " + r.stderr[-3000:])
            return [json.loads(l) for l in oi.read_text().splitlines()]

        with cf.ThreadPoolExecutor(8) as ex:
            res = list(ex.map(one, range(n)))
        # merge back into the order of the cases
        by = {}
        for i, evs in enumerate(res):
            for ev in evs:
                k = i + (ev["k"] - 1) * n + 1  # 1-based index of the case
                ev["k"] = k
                by.setdefault(k, []).append(ev)
        return by

    # -- step 4: conformance
    def judge(self, module, by, cfg=None, name="trace", timeout=600, chunk=4000, env=None):
        """Returns {case: [(line, key, info)]} of rejected events."""
        cfg = cfg or "SPECIFICATION TraceSpec\nPOSTCONDITION TraceConsumed\nCHECK_DEADLOCK FALSE\n"
        keys = sorted(by)
        chunks, cur, n = [], [], 0
        for k in keys:
            cur.append(k)
            n += len(by[k])
            if n >= chunk:
                chunks.append(cur)
                cur, n = [], 0
        if cur:
            chunks.append(cur)

        def one(keys):
            f = self.work / f"{name}-{module}-{keys[0]}-{time.time_ns()}.ndjson"
            lines = [json.dumps(ev, separators=(",", ":")) for k in keys for ev in by[k]]
            f.write_text("\n".join(lines) + "\n")
            e = {"TRACE": str(f)}
            e.update(env or {})
            try:
                r = tlc(self.work, module, cfg, env=e, timeout=timeout)
            except CheckError as x:
                # TLC's integers have 32 bits: a case whose numbers do not fit is set aside
                if "Overflow when computing" not in str(x):
                    raise
                if len(keys) == 1:
                    self.overflows += 1
                    return []
                h = len(keys) // 2
                return one(keys[:h]) + one(keys[h:])
            if "TraceConsumed" in cfg and "Postcondition" in r.out and "violated" in r.out:
                raise CheckError(f"{module} did not consume its trace:\n" + r.out[-3000:])
            return [(r, len(lines))]

        bad = {}
        with cf.ThreadPoolExecutor(6) as ex:
            for r, n in [x for xs in ex.map(one, chunks) for x in xs]:
                self.states += r.distinct
                self.transitions += r.generated
                self.events += n
                for line in r.out.splitlines():
                    m = BAD.match(line.strip())
                    if m:
                        bad.setdefault(int(m.group(1)), []).append((int(m.group(2)), m.group(3), m.group(4) or ""))
                    elif line.startswith('"BAD|'):
                        raise CheckError("unparsed rejection: " + line[:500])
        return bad

    def conform(self, driver, cases, module, name="run", env=None, what="", chunk=4000, judge_env=None, timeout=600, cfg=None, confirm=1):
        """Replays the cases and judges them; confirms rejections by a re-run."""
        by = self.replay(driver, cases, name=name, env=env, timeout=timeout)
        missing = [k for k in range(1, len(cases) + 1) if k not in by]
        if missing and not any(ev.get("ev") == "crash" for evs in by.values() for ev in evs):
            raise CheckError(f"{len(missing)} cases were not executed")
        bad = self.judge(module, by, name=name, chunk=chunk, env=judge_env, timeout=timeout, cfg=cfg)
        self.traces += len(by) - len(bad)
        for evs in by.values():
            for ev in evs:
                obs = ev.get("obs")
                adm = obs.get("adm", []) if isinstance(obs, dict) else []
                self.admitted += sum(1 for a in adm if a == 1)
                self.refused += sum(1 for a in adm if a == 0)
        if len(self.samples) < 4:
            k = sorted(by)[len(by) // 2]
            s = json.dumps({"behaviour": json.loads(cases[k - 1]), "judged_by": module})
            self.samples.append(json.loads(s) if len(s) < 3000 else s[:3000] + "...")
        for k in sorted(bad):
            keys = sorted({key for _, key, _ in bad[k]})
            fresh = [x for x in keys if x not in self.known and x not in self.elsewhere]
            for x in keys:
                if x in self.elsewhere and x not in self.known:
                    note = f"met the finding {x}, recorded for {self.elsewhere[x]}"
                    if note not in self.notes: self.notes.append(note)
            for x in keys:
                if x in self.known:
                    self.known_seen.setdefault(x, k)
            if not fresh or len(self.violations) >= 5:
                if fresh:
                    self.violations.append(None)
                continue
            # confirm
            for _ in range(confirm):
                by2 = self.replay(driver, [cases[k - 1]], name=f"confirm{k}", env=env)
                bad2 = self.judge(module, by2, name=f"confirm{k}", env=judge_env, cfg=cfg)
                keys2 = {key for v in bad2.values() for _, key, _ in v}
                if any(x in keys2 for x in fresh):
                    break
            if not any(x in keys2 for x in fresh):
                self.notes.append(f"rejection of case {k} ({fresh}) did not repeat")
                continue
            rp = VERIF / "replays"
            rp.mkdir(exist_ok=True)
            path = rp / f"{self.prop}-{len(self.violations)}.json"
            path.write_text(json.dumps({
                "property": self.prop, "what": what, "judge": module, "case": json.loads(cases[k - 1]),
                "events": by2[1],
                "rejections": [{"event": i, "key": key, "expected": info} for v in bad2.values() for i, key, info in v]},
                indent=1))
            self.violations.append(path)
            info = next(iter(bad2.values()))[0]
            print(f"  rejected: {info[1]} at event {info[0]}: {info[2][:400]}")
            print(f"VIOLATION property={self.prop} replay={path}", flush=True)
        return by, bad

    def violation(self, what, text):
        """A violation that is not a rejected behaviour."""
        rp = VERIF / "replays"
        rp.mkdir(exist_ok=True)
        path = rp / f"{self.prop}-{len(self.violations)}.txt"
        path.write_text(what + "\n\n" + text)
        self.violations.append(path)
        print("  " + what)
        print(f"VIOLATION property={self.prop} replay={path}", flush=True)

    def finish(self, level="model_checking", extra=None):
        if self.overflows:
            self.notes.append(f"{self.overflows} behaviours could not be judged: their numbers do not fit TLC's integers")
            if self.overflows > 0.1 * (self.traces + self.overflows) and not self.violations:
                raise CheckError("too many behaviours could not be judged")
        for key, text in self.known.items():
            if key in self.known_seen:
                print(f"KNOWN-FINDING: property={self.prop} {text}", flush=True)
            else:
                self.notes.append(f"known finding {key} was not reproduced in this run")
        ev = {"property": self.prop, "tier": TIER, "seed": SEED, "level": level,
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.traces, "events_judged": self.events,
                           **({"trajectories_admitted_by_code": self.admitted, "trajectories_refused_by_code": self.refused}
                              if self.admitted + self.refused else {}),
                           "models": self.models, "samples": self.samples, **(extra or {})},
              "assumptions": self.assumptions + [
                  "the stand-in for the Sleipnir headers in shim/ means what the real headers mean",
                  "TLC and the CommunityModules evaluate the specification correctly"],
              "notes": self.notes, "known_findings_seen": sorted(self.known_seen),
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        p = VERIF / "evidence" / f"{self.prop}.json"
        p.parent.mkdir(exist_ok=True)
        p.write_text(json.dumps(ev, indent=1))
        shutil.rmtree(self.work, ignore_errors=True)
        for n in self.notes:
            print("note:", n)
        print(f"{self.prop}: {self.states} states, {self.traces} behaviours of the code accepted, "
              f"{len(self.violations)} violations, {ev['wall_s']} s")
        return 1 if self.violations else 0
