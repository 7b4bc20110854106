NA = {}
REPLAY = "TLA+ specification checked by TLC; its transition relation replayed against the library"
COMMON = " Replayed on sqlite, PostgreSQL and turso, blocking, asynchronous, converted and inside with_sync, with varied concrete values; the thorough tier has larger constants and longer random behaviours. Trusts TLC, the databases and the harness."
FILES = " The thorough tier has larger constants and more and longer random behaviours. Trusts TLC, the databases and the harness."
def n(i, text, tech=REPLAY):
    NOTE[i], TECH[i] = text, tech
n("S01", "All transitions of Store.tla for two or three keys, two unique values and a nullable one." + COMMON)
n("S02", "All transitions of AutoKey.tla for two objects and two copies, and for a model that is only a key." + COMMON)
n("Q01", "All atoms over tables with nulls and duplicates, all filter trees of two connectives over a smaller set of atoms, and random trees up to depth 5." + COMMON)
n("Q02", "All combinations of filter, up to two sort terms, limit and offset over tables with ties and nulls." + COMMON)
n("Q03", "All relation filters up to two levels over small related tables, random deeper ones, and deletion by them." + COMMON)
n("M01", "All transitions of Many.tla for one field of one owner with pending, cached and stored relations (also not yet saved, and with vanishing related objects), and random behaviours over three objects, two owners and two fields." + COMMON)
n("F01", "All transitions of Fkey.tla for two referred and two referring objects with required, optional and self references, and for foreign key values held in memory; the thorough tier has three of either." + COMMON)
n("T01", "All transitions of Txn.tla: two connections, failing statements, table creation, all ways of ending a transaction, lock conflicts on SQLite, and death of the process (SIGKILL) at any point." + COMMON)
n("G01", "All transitions of Migrate.tla for chains of three migrations (creating, altering and removing tables which refer to each other): migrating and undoing to any point, single steps, failing statements in the middle, repairing them, rows present, reopening; migrations in memory, in files and from JSON." + COMMON)
n("G03", "The process is killed at each of its writes (SQLite, turso) or at each message to the server (PostgreSQL) while migrating or undoing, on walks of Migrate.tla, and must be left exactly between two steps, with the record in agreement, and able to finish." + COMMON)
n("G02", "Pairs and chains of schemas of two tables with a key, a data column (all types, nullability, uniqueness, defaults), a column that may refer to either table, and a relation table: generated migrations applied and undone with rows present; the catalog and the rows of the database are compared with those specified. Transitions of Schema.tla over four families of schemas (each run covers a fresh sample of the largest), and random chains over all of them." + COMMON)
n("V01", "All transitions of Values.tla (two rows of a required and an optional column whose values are known by rank: storing, equality, ordering comparisons, membership, null tests, sorting) for 25 field types, with values drawn from the extremes and awkward cases of each type; dates beyond four-digit years by equality only." + COMMON)
n("A01", "All transitions of Conn.tla: one connection opened either way and converted up to twice, direct operations, transactions, blocking work that succeeds, fails or panics, pairs of concurrent and racing operations, operations abandoned half way or while queued, an observer on its own connection; in multi-threaded and current-thread runtimes." + FILES)
n("P01", "All transitions of Pool.tla: three users of a pool of two connections (r2d2 on SQLite and PostgreSQL, deadpool on all three in multi-threaded and current-thread runtimes): taking, waiting when exhausted, writing, transactions left open by dropping, failing, panicking or abandoning, connections broken by panics in blocking work or by the server while held or unused, many users at once; the thorough tier has four users of three connections. Transactions begun by executing BEGIN as raw SQL are outside the property. Trusts TLC, the databases, r2d2, deadpool and the harness.")
n("G04", "All transitions of Coll.tla over two migrations, two tables, generated and given SQL for two databases, custom types known later, in memory and on disk, with concurrent writers, and random behaviours over more of them: creating from any migration, failing, detaching and attaching, deleting, regenerating, reopening and copying to the other kind; schema, links, databases and SQL of every migration are compared with those specified." + FILES)
n("C01", "Random behaviours of Cli.tla: models are edited and built, and every command of the real butane binary is run on a project with a SQLite or PostgreSQL database; after each step the migrations on disk, those embedded in the source, the recorded schema, what is applied and every row are compared with those specified, and so are what the command answers and whether it is refused." + FILES)
n("N01", "All transitions of Names.tla: two related tables which migrations create, change (a column added, made unique, optional, removed) and drop, written, changed, searched with every kind of condition, sorted and emptied through a connection, each walk under other names: over 1,100 names (every word known to sqlparser, words of the databases, mixed case, letters outside ASCII, up to 63 bytes) take turns as table, key, column and reference. The same specification is replayed on a separate crate of models, partial results, relations and filter!, find!, query! and colname! expressions named by all of Rust's keywords (raw identifiers) or words the generated code uses itself; that it can be compiled is part of the check." + FILES)
n("D01", "All transitions of Decl.tla: one model with every kind of key and field (any type, optional, unique, with a default, referring, many-to-many, of a custom type), two models referring to each other and themselves in every order of declaration, edited and expanded again, and random behaviours over four models, five fields each and chains of three custom types. Declarations are written with random names, raw identifiers, qualified paths, attributes and comments, as #[model] or derive(DataObject), type aliases, structs or enums, and expanded by the code behind the macros; the recorded schema (tables, columns, types, keys, uniqueness, defaults, references, or that a type is not known yet) is compared with the specified one, and so are the struct and the names in the expansion." + FILES)
