"""Machinery shared by the checks: building, running TLC, turning its transitions into covering
walks, replaying them in the harness, and reporting."""
import collections, hashlib, json, os, random, re, shutil, signal, subprocess, sys, tempfile, threading, time, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
TARGET = os.path.join(VERIF, "target")
OUT = os.path.join(VERIF, "out")
SPEC = os.path.join(VERIF, "spec")

ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0",
           CARGO_PROFILE_DEV_DEBUG="0", CARGO_TARGET_DIR=TARGET)


class ToolError(Exception):
    """The check could not be carried out (not a verdict)."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ---------------------------------------------------------------- building

def source_hash():
    h = hashlib.sha256()
    for top in ("butane", "butane_core", "butane_codegen", "butane_cli", "butane_test_helper", "butane_test_macros"):
        for d, ds, fs in os.walk(os.path.join(REPO, top)):
            ds[:] = sorted(x for x in ds if x not in ("target", ".butane", "tests"))
            for f in sorted(fs):
                if f.endswith((".rs", ".toml")):
                    p = os.path.join(d, f)
                    h.update(p.encode() + b"\0")
                    h.update(open(p, "rb").read())
    for f in ("Cargo.toml", "Cargo.lock"):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            h.update(open(p, "rb").read())
    h2 = hashlib.sha256(h.digest())
    for d, ds, fs in os.walk(os.path.join(VERIF, "harness")):
        ds[:] = sorted(x for x in ds if x not in ("target", ".butane"))
        for f in sorted(fs):
            if f.endswith((".rs", ".toml", ".lock")):
                p = os.path.join(d, f)
                h2.update(p.encode() + b"\0")
                h2.update(open(p, "rb").read())
    return h.hexdigest(), h2.hexdigest()


def build():
    """Builds the harness (and with it butane) from the current trees. Returns the binary's path."""
    os.makedirs(TARGET, exist_ok=True)
    t0 = time.time()
    with open(os.path.join(TARGET, ".bh-lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        rh, hh = source_hash()
        stamp = os.path.join(TARGET, ".bh-stamp")
        old = open(stamp).read().split() if os.path.exists(stamp) else []
        binp = os.path.join(TARGET, "debug", "bharness")
        if old == [rh, hh] and os.path.exists(binp) and os.path.exists(os.path.join(TARGET, "debug", "butane")):
            return binp
        if os.path.exists(stamp):
            os.remove(stamp)
        h = os.path.join(VERIF, "harness")
        if old and old[0] != rh:
            # mtimes are not to be trusted: the tree may have been copied or reverted
            subprocess.run(["cargo", "clean", "--offline", "-p", "butane_core", "-p", "butane_codegen", "-p", "butane", "-p", "butane_cli"],
                           cwd=h, env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        shutil.rmtree(os.path.join(h, ".butane"), ignore_errors=True)  # written by the #[model] macro
        os.utime(os.path.join(h, "src", "models.rs"))
        r = subprocess.run(["cargo", "build", "--offline", "--bins"], cwd=h, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            log(r.stdout[-8000:])
            raise ToolError("the harness does not build against /repo")
        with open(stamp, "w") as f:
            f.write(rh + " " + hh)
    log(f"[build] {time.time()-t0:.0f}s")
    return binp


def build_models(crate):
    """Builds a crate of models, once the harness is built. Returns the binary's path, and the compiler's output if it fails."""
    t0 = time.time()
    with open(os.path.join(TARGET, ".bh-lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        h = os.path.join(VERIF, crate)
        shutil.rmtree(os.path.join(h, ".butane"), ignore_errors=True)
        os.utime(os.path.join(h, "src", "main.rs"))
        r = subprocess.run(["cargo", "build", "--offline"], cwd=h, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    log(f"[build] {crate}: {time.time()-t0:.0f}s")
    return os.path.join(TARGET, "debug", crate), r.stdout if r.returncode != 0 else None


class Bg(threading.Thread):
    """Runs f in the background; .get() waits and re-raises."""
    def __init__(self, f, *a, **k):
        super().__init__(daemon=True)
        self.f, self.a, self.k, self.v, self.e = f, a, k, None, None
        self.start()

    def run(self):
        try:
            self.v = self.f(*self.a, **self.k)
        except BaseException as e:
            self.e = e

    def get(self):
        self.join()
        if self.e:
            raise self.e
        return self.v


# ---------------------------------------------------------------- PostgreSQL

class Pg:
    """A scratch PostgreSQL server on a unix socket."""
    def __init__(self):
        bins = sorted((d for d in os.listdir("/usr/lib/postgresql")), key=lambda s: float(s))
        self.bin = f"/usr/lib/postgresql/{bins[-1]}/bin"
        self.dir = tempfile.mkdtemp(prefix="bh-pg.", dir="/tmp")
        shutil.chown(self.dir, "postgres", "postgres")
        try:
            self.run("initdb", "-D", self.dir + "/data", "-U", "postgres", "-E", "UTF8", "--locale=C", "-A", "trust", "--no-sync")
            self.start()
        except BaseException:
            shutil.rmtree(self.dir, ignore_errors=True)
            raise
        self.conn = f"host={self.dir} user=postgres"

    def run(self, prog, *a):
        r = subprocess.run(["setpriv", "--reuid", "postgres", "--regid", "postgres", "--clear-groups",
                            "env", "HOME=" + self.dir, f"{self.bin}/{prog}", *a], cwd=self.dir,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise ToolError(f"{prog}: {r.stdout}")

    def start(self):
        r = subprocess.run(["setpriv", "--reuid", "postgres", "--regid", "postgres", "--clear-groups",
                            "env", "HOME=" + self.dir, f"{self.bin}/pg_ctl", "-D", self.dir + "/data", "-l", self.dir + "/log", "-w", "-t", "60",
                            "-o", f"-k {self.dir} -h '' -c max_connections=400 -c fsync=off -c shared_buffers=64MB -c autovacuum=off", "start"],
                           cwd=self.dir, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if r.returncode != 0:
            raise ToolError("pg_ctl start: " + open(self.dir + "/log").read()[-2000:])

    def stop(self):
        try:
            self.run("pg_ctl", "-D", self.dir + "/data", "-m", "immediate", "-w", "stop")
        except ToolError:
            pass
        shutil.rmtree(self.dir, ignore_errors=True)


# ---------------------------------------------------------------- TLC

class Graph:
    """The transitions TLC generated."""
    def __init__(self):
        self.states, self.sid, self.edges, self.eseen = [], {}, [], {}
        self.adj = collections.defaultdict(list)
        self.init = []
        self.generated = self.distinct = 0
        self.wall = 0.0

    def state(self, s):
        k = json.dumps(s, sort_keys=True)
        i = self.sid.get(k)
        if i is None:
            i = self.sid[k] = len(self.states)
            self.states.append(s)
        return i

    def edge(self, a, e, b):
        ia, ib = self.state(a), self.state(b)
        k = (ia, ib, json.dumps(e, sort_keys=True))
        if k in self.eseen:
            return self.eseen[k]
        i = self.eseen[k] = len(self.edges)
        self.edges.append((ia, e, ib))
        self.adj[ia].append(i)
        return i

    def ops(self):
        c = collections.Counter()
        for _, e, _ in self.edges:
            c[(e["op"], e.get("res") if isinstance(e.get("res"), str) else "")] += 1
        return c


def tlc(module, cfg, workers=4, simulate=None, depth=None, seed=0, timeout=600, extra=(), heap="4g", check_coverage=(), env=None, expect_violation=False):
    """Runs TLC; returns a Graph. Any error TLC reports in the specification itself is a ToolError."""
    t0 = time.time()
    md = tempfile.mkdtemp(prefix="bh-tlc.")
    cmd = ["java", f"-Xmx{heap}", "-XX:+UseParallelGC", "-cp",
           "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar", "tlc2.TLC",
           "-noGenerateSpecTE", "-metadir", md, "-config", cfg if os.path.isabs(cfg) else os.path.join(SPEC, cfg)]
    if simulate:
        cmd += ["-simulate", f"num={simulate}", "-depth", str(depth), "-seed", str(seed), "-workers", "1"]
    else:
        cmd += ["-workers", str(workers), "-fp", "0"]
    cmd += list(extra) + [module if os.path.isabs(module) else os.path.join(SPEC, module)]
    g = Graph()
    tail = collections.deque(maxlen=60)
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=md, env=dict(os.environ, **(env or {})))
    timer = threading.Timer(timeout, p.kill)
    timer.start()
    raw = []
    try:
        for line in p.stdout:
            if line.startswith('"['):
                raw.append(line)
            else:
                tail.append(line)
                m = re.match(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct", line)
                if m:
                    g.generated, g.distinct = (int(x.replace(",", "")) for x in m.groups())
                m = re.match(r"(?:The number of states generated: |Progress: )([\d,]+)", line)
                if m:
                    g.generated = max(g.generated, int(m.group(1).replace(",", "")))
        p.wait()
    finally:
        timer.cancel()
        p.kill()
        shutil.rmtree(md, ignore_errors=True)
    g.tail = "".join(tail)
    g.rc = p.returncode
    if p.returncode != 0 and not expect_violation:
        raise ToolError(f"TLC on {module} {cfg}: exit {p.returncode}\n{g.tail}")
    g.seqs = []
    cur, cands = [], []  # `cands`: transitions out of the state reached, of which TLC takes one
    for line in raw:
        a, e, b = json.loads(json.loads(line))
        i = g.edge(a, e, b)
        if simulate:
            src = g.edges[i][0]
            took = next((x for x in reversed(cands) if g.edges[x][2] == src), None)
            if cands and src == g.edges[cands[0]][0] and took is None:
                cands.append(i)
            elif took is not None and not (len(cur) >= 25 and src == 0):
                cur.append(took)
                cands = [i]
            else:
                if cands:
                    g.seqs.append(cur + cands[-1:])
                if src != 0:
                    raise ToolError(f"{module} {cfg}: simulated behaviour does not start in the initial state")
                cur, cands = [], [i]
    if cands:
        g.seqs.append(cur + cands[-1:])
    g.raw = len(raw)
    if not g.distinct:
        g.distinct = len(g.states)
    g.generated = max(g.generated, len(raw))
    g.wall = time.time() - t0
    log(f"[tlc] {module} {os.path.basename(cfg)}: {g.distinct} states, {g.generated} transitions, {len(g.edges)} emitted, {g.wall:.1f}s")
    return g


def require_ops(g, ops):
    """Every (op, result) pair listed must occur in the model: the checks are not vacuous."""
    have = g.ops()
    names = {o for o, _ in have}
    for o in ops:
        if (isinstance(o, tuple) and o not in have) or (isinstance(o, str) and o not in names):
            raise ToolError(f"vacuous: {o} never happens in the model; it has {sorted(map(str, have))}")


def cover(g, rng, init=0, maxlen=60, weight=None, limit=None):
    """Walks from the initial state that together take every emitted transition (up to `limit` steps)."""
    todo = {s: list(es) for s, es in g.adj.items()}
    for es in todo.values():
        rng.shuffle(es)
    left = sum(len(v) for v in todo.values())
    # distances to states with untaken transitions are found by BFS when needed
    walks, total = [], 0
    dead = 0
    while left and (limit is None or total < limit):
        cur, walk, progressed = init, [], False
        while len(walk) < maxlen and left:
            es = todo.get(cur)
            if es:
                e = es.pop()
                left -= 1
                walk.append(e)
                cur = g.edges[e][2]
                progressed = True
                continue
            # nearest state with something left
            prev, q, found = {cur: None}, collections.deque([cur]), None
            while q:
                s = q.popleft()
                if todo.get(s):
                    found = s
                    break
                for e in g.adj.get(s, ()):
                    t = g.edges[e][2]
                    if t not in prev:
                        prev[t] = e
                        q.append(t)
            if found is None:
                break
            path = []
            s = found
            while prev[s] is not None:
                path.append(prev[s])
                s = g.edges[prev[s]][0]
            path.reverse()
            if walk and len(walk) + len(path) > maxlen:
                break
            walk += path
            cur = found
        if not progressed:
            dead += 1
            if dead > 3:
                break
        if walk:
            walks.append(walk)
            total += len(walk)
    return walks


def spread(g, rng, init=0, maxlen=60, limit=None):
    """Like `cover`, for large graphs: each walk starts with a shortest path to an untaken transition."""
    prev, q = {init: None}, collections.deque([init])
    while q:
        s = q.popleft()
        for e in g.adj.get(s, ()):
            t = g.edges[e][2]
            if t not in prev:
                prev[t] = e
                q.append(t)
    order = [e for e in range(len(g.edges)) if g.edges[e][0] in prev]
    rng.shuffle(order)
    taken, todo = bytearray(len(g.edges)), {s: list(es) for s, es in g.adj.items()}
    for es in todo.values():
        rng.shuffle(es)
    walks, total = [], 0
    for first in order:
        if taken[first]:
            continue
        if limit is not None and total >= limit:
            break
        walk, s = [first], g.edges[first][0]
        while prev[s] is not None:
            walk.append(prev[s])
            s = g.edges[prev[s]][0]
        walk.reverse()
        cur = g.edges[first][2]
        while len(walk) < maxlen:
            es = todo.get(cur)
            while es and taken[es[-1]]:
                es.pop()
            if not es:
                break
            e = es.pop()
            taken[e] = 1
            walk.append(e)
            cur = g.edges[e][2]
        for e in walk:
            taken[e] = 1
        walks.append(walk)
        total += len(walk)
    return walks


def random_walks(g, rng, n, length, init=0):
    out = []
    for _ in range(n):
        cur, w = init, []
        for _ in range(length):
            es = g.adj.get(cur)
            if not es:
                break
            e = rng.choice(es)
            w.append(e)
            cur = g.edges[e][2]
        out.append(w)
    return out


# ---------------------------------------------------------------- a check

KNOWN_FILE = os.path.join(VERIF, "known_findings.txt")


def known_findings(prop):
    """name -> text of the findings listed for a property."""
    out = {}
    if os.path.exists(KNOWN_FILE):
        for l in open(KNOWN_FILE):
            m = re.match(r"KNOWN-FINDING: property=(\S+) name=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.rng = random.Random(seed * 7919 + 13)
        self.states = self.transitions = self.traces = self.steps = 0
        self.samples, self.violations, self.notes = [], [], {}
        self.known_met = collections.Counter()
        self.lanes = collections.Counter()
        self.pg = None
        self.level = "model_checking"
        self.assumptions = []
        self._build = Bg(build)
        self._pg = None

    @property
    def quick(self):
        return self.tier == "quick"

    def need_pg(self):
        if self._pg is None:
            self._pg = Bg(Pg)

    def tlc(self, module, cfg, required=(), **k):
        g = tlc(module, cfg, **k)
        if required:
            require_ops(g, required)
        self.states += g.distinct
        self.transitions += g.generated
        return g

    def bin(self):
        return self._build.get()

    def harness(self, args, inp=None, timeout=800, env=None, binary=None):
        """Runs the harness; returns (returncode, stdout)."""
        e = dict(os.environ, RUST_BACKTRACE="0", RUST_LOG="off")
        if self._pg is not None:
            self.pg = self._pg.get()
            e["BH_PG"] = self.pg.conn
        e.update(env or {})
        e["BH_CLI"] = os.path.join(TARGET, "debug", "butane")
        os.makedirs(OUT, exist_ok=True)
        with tempfile.TemporaryFile("w+") as errf:
            try:
                p = subprocess.run([binary or self.bin(), *args], input=inp, stdout=subprocess.PIPE, stderr=errf, text=True, env=e, timeout=timeout, cwd=OUT)
            except subprocess.TimeoutExpired:
                raise ToolError(f"harness {args[:2]} did not finish in {timeout} s")
            errf.seek(0)
            self.stderr = errf.read()[-6000:]
        return p.returncode, p.stdout

    def jobs(self, g, walks, lanes, variants=("",), budget=None, chunk=1200, extra_seed=0):
        """One job per lane and variant and chunk; each lane/variant gets a random `budget` of steps."""
        out = []
        if os.environ.get("BH_LANES"):  # for debugging
            lanes = [l for l in lanes if l in os.environ["BH_LANES"].split(",")]
        for lane in lanes:
            for v in variants:
                ws = list(walks)
                self.rng.shuffle(ws)
                if budget:
                    b = budget.get(lane, budget.get("*")) if isinstance(budget, dict) else budget
                    t, sel = 0, []
                    for w in ws:
                        if t >= b:
                            break
                        sel.append(w)
                        t += len(w)
                    ws = sel
                cur, t = [], 0
                for w in ws:
                    cur.append(w)
                    t += len(w)
                    if t >= chunk:
                        out.append(dict(lane=lane, variant=v, seed=self.rng.randrange(1 << 40), walks=cur))
                        cur, t = [], 0
                if cur:
                    out.append(dict(lane=lane, variant=v, seed=self.rng.randrange(1 << 40), walks=cur))
        self.rng.shuffle(out)
        return out

    def replay(self, world, g, jobs, timeout=800, env=None, binary=None):
        """Replays walks; records mismatches as violations."""
        t0 = time.time()
        used = sorted({e for j in jobs for w in j["walks"] for e in w})
        remap = {e: i for i, e in enumerate(used)}
        st, smap = [], {}
        edges = []
        for e in used:
            _, ev, b = g.edges[e]
            if b not in smap:
                smap[b] = len(st)
                st.append(g.states[b])
            edges.append([ev, smap[b]])
        doc = dict(world=world, states=st, edges=edges,
                   jobs=[dict(j, walks=[[remap[e] for e in w] for w in j["walks"]]) for j in jobs])
        os.makedirs(OUT, exist_ok=True)
        fn = tempfile.mktemp(prefix=f"job-{self.prop}-", suffix=".json", dir=OUT)
        with open(fn, "w") as f:
            json.dump(doc, f)
        try:
            rc, out = self.harness(["replay", fn], timeout=timeout, env=env, binary=binary)
        finally:
            os.unlink(fn)
        if rc not in (0,):
            if rc < 0 and -rc in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL):
                self.violation(dict(world=world, message=f"the process died with signal {-rc} while replaying", stderr=self.stderr))
                return None
            raise ToolError(f"harness exit {rc}: {out[-500:]} {self.stderr}")
        rep = json.loads(out.strip().splitlines()[-1])
        nw, ns = rep["walks"], rep["steps"]
        self.traces += nw
        self.steps += ns
        for l, n in rep["lanes"].items():
            self.lanes[l] += n
        for k, n in rep["known"].items():
            self.known_met[k] += n
        if jobs and not self.samples:
            w = min(jobs[0]["walks"], key=len)
            self.samples.append(dict(lane=jobs[0]["lane"], variant=jobs[0]["variant"], trace=[g.edges[e][1] for e in w[:12]]))
        log(f"[replay] {world}: {nw} walks, {ns} steps, {len(rep['mismatches'])} mismatches, {time.time()-t0:.1f}s")
        for m in rep["mismatches"]:
            self.violation(dict(m, world=world))
        return rep

    def violation(self, d):
        self.violations.append(d)

    def finish(self):
        listed = known_findings(self.prop)
        real = []
        for k, n in sorted(self.known_met.items()):
            if k in listed:
                print(f"KNOWN-FINDING: property={self.prop} {listed[k]} [met {n} times]")
            else:
                real.append(dict(message=f"deviation {k} (met {n} times) is not a listed finding"))
        real = self.violations + real
        d = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level,
                 coverage=dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                               steps_validated=self.steps, lanes=dict(self.lanes), samples=self.samples, **self.notes),
                 assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 1), violations=len(real))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(d, f, indent=1)
        if real:
            os.makedirs(os.path.join(OUT, "replay"), exist_ok=True)
            fn = os.path.join(OUT, "replay", f"{self.prop}-{self.seed}.json")
            with open(fn, "w") as f:
                json.dump(real[:5], f, indent=1)
            for v in real[:3]:
                log("VIOLATION:", v.get("lane", ""), v.get("walk", {}).get("variant", ""), "step", v.get("failed_step", ""), ":", str(v.get("message"))[:700])
            print(f"VIOLATION property={self.prop} replay={fn}", flush=True)
            return 1
        log(f"[{self.prop}] held on everything explored: {self.states} states, {self.transitions} transitions, {self.traces} traces, {self.steps} steps, {d['wall_s']} s")
        return 0

    def close(self):
        if self._pg is not None:
            try:
                self._pg.get().stop()
            except BaseException:
                pass
