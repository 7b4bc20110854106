"""What each check explores."""
import vt

CHECKS = {}
def check(f):
    CHECKS[f.__name__] = f
    return f

ALL = ["sqlite-sync", "sqlite-async", "sqlite-conva", "sqlite-with", "pg-sync", "pg-async", "pg-convs", "pg-with", "turso-async", "turso-convs", "turso-with"]


@check
def S01(c):
    c.need_pg()
    g = c.tlc("Store.tla", "Store_quick.cfg", required=[("savenew", "ok"), ("savenew", "err"), ("save", "ok"), ("save", "err"), ("get", "ok"), ("get", "nosuch"), "tryget", "set", "delete", "load"])
    walks = vt.cover(g, c.rng)
    js = c.jobs(g, walks, ALL, ["i64", "text", "blob", "uuid", "date"], budget=dict([("sqlite-sync", 3000), ("*", 700)]))
    c.replay("store", g, js)


@check
def S02(c):
    c.need_pg()
    req = [("insert", "ok"), ("update", "ok"), "copy", "delete", ("get", "ok"), ("get", "nosuch"), "savegone"]
    g = c.tlc("AutoKey.tla", "AutoKey_quick.cfg", required=req + [("insert", "err"), ("update", "err")])
    walks = vt.cover(g, c.rng)
    c.replay("auto", g, c.jobs(g, walks, ALL, ["i64", "i32", "kw"], budget={"sqlite-sync": 6000, "pg-sync": 3000, "*": 1500}))
    g = c.tlc("AutoKey.tla", "AutoKey_only.cfg", required=req)
    walks = vt.cover(g, c.rng)
    c.replay("auto", g, c.jobs(g, walks, ALL, ["only"], budget={"*": 1500}))
    # rows stored by other means, with keys far from those handed out
    g = c.tlc("AutoKey.tla", "AutoKey_import.cfg", required=req + ["import"])
    walks = vt.cover(g, c.rng, maxlen=30)
    c.replay("auto", g, c.jobs(g, walks, ALL, ["i64", "i32", "kw"], budget={"sqlite-sync": 5000, "pg-sync": 2000, "turso-async": 3000, "*": 800}))
    g = c.tlc("AutoKey.tla", "AutoKey_onlyimport.cfg", required=req + ["import"])
    walks = vt.cover(g, c.rng, maxlen=30)
    c.replay("auto", g, c.jobs(g, walks, ALL, ["only"], budget={"*": 500}))


@check
def V01(c):
    c.need_pg()
    req = [("save", "ok"), ("delete", "ok"), ("find", "ok"), ("null", "ok"), ("in", "ok")]
    b = {"sqlite-sync": 600, "pg-sync": 450, "turso-async": 450, "*": 60} if c.quick else {"sqlite-sync": 15000, "pg-sync": 12000, "turso-async": 8000, "*": 800}
    for cfg, V in (("ordered", "VI8 VU8 VI16 VU16 VI32 VU32 VI64 VF32 VF64 VText VBlob VDate VTime VUtc VUuid VName VCount"),
                   ("ordered_bool", "VBool"), ("plain", "VJson VColor VShape VPoint VMap VTree VWild VWildT")):
        g = c.tlc("Values.tla", f"Values_{cfg}.cfg", required=req + ([] if cfg == "plain" else [("sort", "ok")]))
        # short walks, as each has its own values
        walks = vt.cover(g, c.rng, maxlen=24)
        c.replay("vals", g, c.jobs(g, walks, ALL, V.split(), budget=b, chunk=100))


@check
def Q01(c):
    c.need_pg()
    V = ["i32", "i64", "text", "f64", "date", "time", "uuid", "blob", "kw"]
    g = c.tlc("QueryMC.tla", "Query_atoms.cfg", required=["query", "delete", "refill"])
    walks = vt.cover(g, c.rng, maxlen=40)
    c.replay("query", g, c.jobs(g, walks, ALL, V, budget={"sqlite-sync": 900, "pg-sync": 900, "*": 60} if c.quick else None))
    g = c.tlc("QueryMC.tla", "Query_small.cfg", required=["query"])
    walks = vt.cover(g, c.rng, maxlen=100)
    c.replay("query", g, c.jobs(g, walks, ALL, V, budget={"sqlite-sync": 2500, "pg-sync": 1500, "turso-async": 800, "*": 200}))
    g = c.tlc("QueryMC.tla", "Query_sim.cfg", simulate=2500 if c.quick else 6000, depth=24, seed=c.seed)
    c.replay("query", g, c.jobs(g, g.seqs, ALL, V, budget={"sqlite-sync": 2000, "pg-sync": 1000, "*": 150}))


@check
def Q02(c):
    c.need_pg()
    V = ["i32", "i64", "text", "f64", "date", "time", "uuid", "blob", "kw"]
    g = c.tlc("WindowMC.tla", "Window_quick.cfg", required=["window"])
    walks = vt.cover(g, c.rng, maxlen=100)
    c.replay("query", g, c.jobs(g, walks, ALL, V, budget={"sqlite-sync": 2600, "pg-sync": 1500, "*": 300}))


@check
def Q03(c):
    c.need_pg()
    g = c.tlc("RelMC.tla", "Rel_quick.cfg", required=["query", ("delete", "ok"), ("delete", "err"), "fill"])
    walks = vt.cover(g, c.rng, maxlen=60)
    c.replay("rel", g, c.jobs(g, walks, ALL, ["plain", "kw"], budget={"sqlite-sync": 3000, "pg-sync": 3000, "turso-async": 2000, "*": 600}))
    g = c.tlc("RelMC.tla", "Rel_deep.cfg", required=["query"])
    walks = vt.cover(g, c.rng, maxlen=100)
    c.replay("rel", g, c.jobs(g, walks, ALL, ["plain", "kw"], budget={"sqlite-sync": 3000, "pg-sync": 1500, "*": 400}))
    g = c.tlc("RelMC.tla", "Rel_sim.cfg", simulate=1500 if c.quick else 20000, depth=18, seed=c.seed)
    c.replay("rel", g, c.jobs(g, g.seqs, ALL, ["plain", "kw"], budget={"sqlite-sync": 2500, "pg-sync": 1500, "turso-async": 1500, "*": 300}))


@check
def M01(c):
    c.need_pg()
    V = ["int", "auto", "text", "kw"]
    base = ["add", "addnew", "remove", ("save", "ok"), ("savefield", "ok"), "load", "loads", ("get", "ok"), ("get", "err"), "reload", ("dropitem", "err"), ("dropowner", "err")]
    own = base + [("delete", "ok"), ("set", "ok")]
    b = {"sqlite-sync": 2600, "pg-sync": 1500, "*": 250} if c.quick else None
    for cfg, req in (("one", own), ("new", own + [("savefield", "err"), ("set", "err"), ("delete", "err")]),
                     ("missing", base + [("save", "err"), ("savefield", "err"), "dropitem", "putitem"])):
        g = c.tlc("ManyMC.tla", f"Many_{cfg}.cfg", required=req)
        walks = vt.cover(g, c.rng, maxlen=60)
        c.replay("many", g, c.jobs(g, walks, ALL, V, budget=b))
    if not c.quick:
        g = c.tlc("ManyMC.tla", "Many_deep.cfg", required=own)
        walks = vt.cover(g, c.rng, maxlen=100)
        c.replay("many", g, c.jobs(g, walks, ALL, V, budget={"sqlite-sync": 30000, "*": 6000}))
    g = c.tlc("ManyMC.tla", "Many_sim.cfg", simulate=250 if c.quick else 4000, depth=40, seed=c.seed)
    c.replay("many", g, c.jobs(g, g.seqs, ALL, V, budget={"sqlite-sync": 3000, "pg-sync": 1500, "*": 300} if c.quick else {"*": 12000}))


@check
def F01(c):
    c.need_pg()
    V = ["int", "text", "auto", "kw"]
    base = [("putt", "ok"), ("delt", "ok"), ("delt", "err"), ("delq", "ok"), ("delq", "err"), ("delr", "ok"), "delallr", "follow"]
    own = base + [("saver", "ok"), ("saver", "err"), ("repoint", "ok")]
    b = {"sqlite-sync": 3000, "pg-sync": 2000, "turso-async": 1500, "*": 350}
    for cfg, req in (("opt", own + [("repoint", "err")]), ("boss", own + [("delr", "err"), ("repoint", "err")]),
                     ("handle", base + ["frompk", "fromobj", "fromref", "take", ("load", "ok"), ("load", "nosuch"), ("loads", "ok"), ("loads", "nosuch"), ("get", "ok"), ("get", "err"),
                                        ("compare", "equal"), ("compare", "different"), "serde", "clone", ("use", "ok"), ("use", "err"), "find"])):
        g = c.tlc("Fkey.tla", f"Fkey_{cfg}.cfg", required=req)
        walks = vt.cover(g, c.rng, maxlen=60)
        c.replay("fkey", g, c.jobs(g, walks, ALL, V, budget=b if c.quick else None))
    if not c.quick:
        for cfg in ("deep", "three", "handle3"):
            g = c.tlc("Fkey.tla", f"Fkey_{cfg}.cfg", required=base)
            walks = vt.cover(g, c.rng, maxlen=100)
            c.replay("fkey", g, c.jobs(g, walks, ALL, V, budget={"sqlite-sync": 30000, "pg-sync": 12000, "*": 4000}))


@check
def T01(c):
    c.need_pg()
    SQ = ["sqlite-sync", "sqlite-async", "sqlite-conva", "sqlite-async1"]
    PG = ["pg-sync", "pg-async", "pg-convs", "pg-async1"]
    TU = ["turso-async", "turso-convs", "turso-async1"]
    req = ["begin", ("commit", "ok"), "rollback", "drop", ("put", "ok"), ("put", "err"), "del", "delall", ("mktable", "ok"), ("mktable", "err"), "bad", "readb", "putb"]
    big = 1 if c.quick else 4
    g = c.tlc("Txn.tla", "Txn_plain.cfg" if c.quick else "Txn_deep.cfg", required=req + [("read", "ok")])
    walks = vt.cover(g, c.rng, maxlen=80)
    c.replay("txn", g, c.jobs(g, walks, SQ + TU, ["plain"], budget={"sqlite-sync": 3000 * big, "*": 1500 * big}))
    g = c.tlc("Txn.tla", "Txn_aborts.cfg" if c.quick else "Txn_deeppg.cfg", required=req + [("read", "err"), ("commit", "err")])
    walks = vt.cover(g, c.rng, maxlen=80)
    c.replay("txn", g, c.jobs(g, walks, PG, ["plain"], budget={"pg-sync": 4000 * big, "*": 1500 * big}))
    g = c.tlc("Txn.tla", "Txn_busy.cfg", required=["beginb", "commitb", "rollbackb", ("putb", "err"), ("put", "err"), ("commit", "err")])
    walks = vt.cover(g, c.rng, maxlen=80)
    c.replay("txn", g, c.jobs(g, walks, SQ, ["busy"], budget={"sqlite-sync": 9000, "*": 3000}))
    for cfg, lanes in (("crash", SQ[:3] + TU[:1]), ("crashpg", PG[:3])):
        g = c.tlc("Txn.tla", f"Txn_{cfg}.cfg", required=req + ["crash", ("bulk", "ok")])
        walks = vt.random_walks(g, c.rng, 60 if c.quick else 400, 24)
        c.replay("txn", g, c.jobs(g, walks, lanes, ["crash"], budget=700 if c.quick else 5000, chunk=150))


@check
def A01(c):
    c.need_pg()
    req = ["open", "close", "convert", "mark", ("run", "ok"), ("run", "err"), ("with", "ok"), ("with", "err"), ("with", "panic"), "par", "race", "autos", "burst", "cancel", "cancelwith", "cancelqueued"]
    for cfg, lanes in (("both", ["sqlite-multi", "sqlite-current", "pg-multi", "pg-current"]), ("async", ["turso-multi", "turso-current"])):
        g = c.tlc("Conn.tla", f"Conn_{cfg if c.quick else "deep" + cfg}.cfg", required=req)
        walks = vt.spread(g, c.rng, maxlen=16, limit=30000 if c.quick else 100000)
        c.replay("conn", g, c.jobs(g, walks, lanes, ["plain"], budget={"sqlite-multi": 30000, "sqlite-current": 20000, "pg-multi": 8000, "pg-current": 8000, "*": 12000} if c.quick else None, chunk=150))


@check
def P01(c):
    c.need_pg()
    req = [("take", "ok"), ("take", "timeout"), "wait", "release", ("put", "ok"), ("begin", "ok"), "tput", "tfail", ("end", "ok"), "abandon", "storm"]
    for cfg, lanes, more in (("plain", ["sqlite-r2d2"], []), ("break", ["sqlite-dead", "sqlite-deadc", "turso-dead", "turso-deadc"], [("put", "err"), "break"]),
                             ("kill", ["pg-r2d2", "pg-dead", "pg-deadc"], [("put", "err"), ("end", "err"), "break", "killidle"])):
        g = c.tlc("Pool.tla", f"Pool_{cfg}.cfg" if c.quick else f"Pool_deep{cfg}.cfg", required=req + more)
        walks = vt.spread(g, c.rng, maxlen=14)
        c.replay("pool", g, c.jobs(g, walks, lanes, ["plain"], budget={"*": 6000} if c.quick else {"*": 100000}, chunk=100))


MIG = ["sqlite-sync", "sqlite-async", "sqlite-conva", "pg-sync", "pg-async", "pg-convs", "turso-async", "turso-convs"]


@check
def G01(c):
    c.need_pg()
    V = ["mem", "fs", "json", "memkw", "fskw"]
    g = c.tlc("Migrate.tla", "Migrate_plain.cfg" if c.quick else "Migrate_deep.cfg",
              required=[("create", "ok"), "repair", ("migrate", "ok"), ("migrate", "err"), ("unmigrate", "ok"), ("unmigrate", "err"),
                        ("apply", "ok"), ("apply", "err"), ("downgrade", "ok"), ("downgrade", "err"), "addrow", "reopen"])
    walks = vt.cover(g, c.rng, maxlen=40)
    c.replay("migr", g, c.jobs(g, walks, MIG, V, budget={"sqlite-sync": 3000, "pg-sync": 1000, "turso-async": 1000, "*": 300} if c.quick else None, chunk=150))


@check
def G03(c):
    c.need_pg()
    g = c.tlc("Migrate.tla", "Migrate_crash.cfg" if c.quick else "Migrate_crashdeep.cfg", required=[("migrate", "died"), ("unmigrate", "died")])
    died = [w for w in vt.random_walks(g, c.rng, 3000, 14) if any(g.edges[e][1]["res"] == "died" for e in w)]
    big = 1 if c.quick else 10
    c.replay("migr", g, c.jobs(g, died, [l for l in MIG if "turso" not in l], ["mem", "fs", "memkw"], budget={"sqlite-sync": 250 * big, "pg-sync": 80 * big, "*": 50 * big}, chunk=20)
             + c.jobs(g, died, [l for l in MIG if "turso" in l], ["meml", "fsl"], budget=120 * big, chunk=20))


@check
def G02(c):
    c.need_pg()
    L = ["sqlite-sync", "pg-sync", "turso-async", "sqlite-async", "pg-convs", "turso-convs"]
    req = [("evolve", "ok"), ("evolve", "none"), ("undo", "ok"), ("fill", "ok")]
    big = 1 if c.quick else 8
    b = {"sqlite-sync": 6000 * big, "pg-sync": 2500 * big, "turso-async": 1500 * big, "*": 300 * big}
    for cfg, V, more in (("cols", ["plain", "plainkw"], [("evolve", "err"), ("undo", "err")]), ("conv", ["conv", "convkw"], [("evolve", "err")]),
                         ("refs", ["plain", "plainkw"], [("evolve", "err"), ("undo", "err")]), ("keys", ["conv", "convkw"], [("evolve", "err")])):
        g = c.tlc("Schema.tla", f"Schema_{cfg}.cfg", required=req + more)
        walks = vt.spread(g, c.rng, maxlen=12, limit=20000 * big)
        c.replay("schema", g, c.jobs(g, walks, L, V, budget=b, chunk=200))
    g = c.tlc("Schema.tla", "Schema_sim.cfg", simulate=800 if c.quick else 10000, depth=18, seed=c.seed)
    c.replay("schema", g, c.jobs(g, g.seqs, L, ["plain", "plainkw"], budget=b, chunk=200))


@check
def G04(c):
    base = ["addtable", "deltable", ("create", "ok"), ("create", "none"), ("create", "err"), "addsql", "rmsql", "regen", ("detach", "ok"), ("detach", "err"),
            "attach", "delete", "clear", "reload", "copy", "par", "clearcur"]
    for cfg in ("small", "types"):
        g = c.tlc("Coll.tla", f"Coll_{cfg}.cfg", required=base + ["dup"] + (["addtype"] if cfg == "types" else []))
        walks = vt.spread(g, c.rng, maxlen=16)
        c.replay("coll", g, c.jobs(g, walks, ["sqlite-sync"], ["plain"], budget=20000 if c.quick else None, chunk=100))
    g = c.tlc("Coll.tla", "Coll_sim.cfg", simulate=1500 if c.quick else 20000, depth=30, seed=c.seed)
    c.replay("coll", g, c.jobs(g, g.seqs, ["sqlite-sync"], ["plain"], chunk=50))


@check
def C01(c):
    c.need_pg()
    req = ["edit", ("make", "ok"), ("migrate", "ok"), ("migrate", "err"), ("unmigrate", "ok"), ("unmigrate", "err"), ("detach", "ok"), ("detach", "err"),
           ("collapse", "ok"), ("collapse", "err"), ("regenerate", "ok"), ("regenerate", "err"), ("backendadd", "ok"), ("backendadd", "err"), ("backendrm", "ok"), ("backendrm", "err"),
           "backendlist", "embed", "list", ("describe", "ok"), ("describe", "err"), ("cleardata", "ok"), ("cleardata", "err"), ("deltable", "ok"), ("deltable", "err"), "clean", "build",
           ("initdb", "ok"), ("initdb", "err"), "adda", "addb"]
    if not c.quick:
        g = c.tlc("Cli.tla", "Cli_small.cfg", required=req, heap="12g")
        walks = vt.spread(g, c.rng, maxlen=24, limit=60000)
        c.replay("cli", g, c.jobs(g, walks, ["sqlite-sync"], ["plain"], budget=40000, chunk=20))
    for be in ("sqlite", "pg"):
        g = c.tlc("Cli.tla", f"Cli_{be}.cfg", simulate=200 if c.quick else 2500, depth=44, seed=c.seed, required=req + [("make", "err")])
        c.replay("cli", g, c.jobs(g, g.seqs, [f"{be}-sync"], ["plain"], chunk=8))


@check
def N01(c):
    c.need_pg()
    ops = ["up", "down", "has", ("write", "ok"), ("write", "err"), ("refer", "ok"), ("refer", "err"), "delc", "find", "findc", ("delete", "ok"), ("delete", "err")]
    for cfg, lanes in (("turso", ["turso-async"]), ("full" if c.quick else "deep", ["sqlite-sync", "sqlite-async", "pg-sync", "pg-async"])):
        g = c.tlc("Names.tla", f"Names_{cfg}.cfg", required=ops)
        walks = vt.cover(g, c.rng, maxlen=30)
        c.replay("names", g, c.jobs(g, walks, lanes, ["dyn"], budget={"sqlite-sync": 40000, "*": 20000} if c.quick else None, chunk=150))
    # models with such names
    g = c.tlc("Names.tla", "Names_models.cfg", required=[o for o in ops if o not in ("up", "down")])
    walks = vt.cover(g, c.rng, maxlen=30)
    c.bin()
    binary, failed = vt.build_models("rawnames")
    if failed:
        errors = [l for l in failed.splitlines() if l.startswith("error")]
        return c.violation(dict(message="models whose names are Rust's keywords can not be compiled: " + "; ".join(errors[:5]), output=failed[-6000:]))
    c.replay("models", g, c.jobs(g, walks, ["sqlite-sync", "pg-async", "turso-async"], "abcdefghijk", budget=1500 if c.quick else 6000, chunk=300), binary=binary)


@check
def D01(c):
    ops = ["define", ("declare", "ok"), ("declare", "again"), "again", ("look", "ok"), ("look", "unresolved")]
    for cfg in ("one", "two"):
        g = c.tlc("DeclMC.tla", f"Decl_{cfg}.cfg", required=[o for o in ops if cfg == "two" or o != ("declare", "again")])
        walks = vt.spread(g, c.rng, maxlen=24)
        c.replay("decl", g, c.jobs(g, walks, ["none-sync"], ["plain"], budget=30000 if c.quick else None, chunk=200))
    g = c.tlc("DeclMC.tla", "Decl_sim.cfg", simulate=2000 if c.quick else 30000, depth=24, seed=c.seed, required=ops)
    c.replay("decl", g, c.jobs(g, g.seqs, ["none-sync"], ["plain"], chunk=100))
