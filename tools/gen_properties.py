#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text is readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=hook, state=state or [])))

p("S01", "A saved object is stored faithfully, as one row per primary key",
  "For a model whose primary key the user supplies, after any sequence of saves and deletes the table holds exactly the last saved state of every key saved and not deleted since: saving inserts the object or replaces the one with its key, deleting removes just that one, and no other row changes. Getting by key and loading all objects return exactly that state (getting an absent key reports that no such object exists, or no value), and every operation that fails (for instance on a uniqueness violation) leaves all rows as they were.",
  ["histories", "inputs", "configurations"],
  "every sequence of save / get / delete / load on any number of objects and in-memory copies, every key and value, every backend and connection style",
  "The tests run a dozen fixed save/get sequences with one or two rows; they cannot settle all orders of inserting, overwriting through stale copies, deleting and re-creating.",
  ["butane_core/src/lib.rs", "butane_core/src/db/sqlite.rs", "butane_core/src/db/pg.rs", "butane_core/src/db/turso.rs", "butane_core/src/db/helper.rs", "butane_core/src/codegen/dbobj.rs"],
  [("upsert on save", "butane_core/src/lib.rs DataObjectOps::save; sql_insert_or_update in each backend"), ("delete by pk", "ConnectionMethods::delete"), ("generated column lists", "butane_core/src/codegen/dbobj.rs")],
  ["DataObjectOpsSync/Async::{save,get,try_get,delete}", "QueryOps::load"])

p("S02", "An automatic primary key is assigned once and identifies one object",
  "The first successful save of an object with an automatic primary key inserts one new row and gives the object a key that no other stored object has; until then (also after a failed save) the object has no key, and afterwards its key never changes. Later saves of that object change exactly the row with its key, so one object never becomes two rows and never overwrites another object; deleting it removes only its row.",
  ["histories", "inputs", "configurations"],
  "every interleaving of first saves, failing saves, updates and deletes of any number of objects with automatic keys of either integer width, including models with no other column, on every backend and connection style",
  "Tests save one or two auto-key objects each; freshness, stability after failure and insert-versus-update selection are claims about all histories.",
  ["butane_core/src/lib.rs", "butane_core/src/autopk.rs", "butane_core/src/codegen/dbobj.rs", "butane_core/src/db/sqlite.rs", "butane_core/src/db/pg.rs", "butane_core/src/db/turso.rs"],
  [("insert when key invalid, update when valid", "butane_core/src/lib.rs DataObjectOps::save"), ("key returned by the insert", "insert_returning_pk in each backend"), ("AutoPk state", "butane_core/src/autopk.rs")],
  ["save / delete results", "AutoPk of the object", "rows of the table"])

p("V01", "Field values survive storage and compare as the same values",
  "Every value of every supported field type (booleans, all integer widths, reals, text, blobs, dates, timestamps, JSON, UUIDs, enums, maps, and optional forms of these) that is saved is loaded back equal, including extreme, empty, null and non-ASCII values (timestamps to the microsecond). An equality filter on that value finds the object, and ordering comparisons and sorting on the column agree with the natural order of the values (of dates and timestamps, within the years 0 to 9999).",
  ["inputs", "configurations"],
  "every field type, nullable or not, every value in the type's range, on every backend and connection style, written by insert or by update and read by get, query or partial result",
  "Tests use one or two mid-range values per type; the claim is about every value of the type on each backend's representation.",
  ["butane_core/src/sqlval.rs", "butane_core/src/uuid.rs", "butane_core/src/db/sqlite.rs", "butane_core/src/db/pg.rs", "butane_core/src/db/turso.rs", "butane_codegen/src/lib.rs"],
  [("Rust type <-> SqlVal", "butane_core/src/sqlval.rs ToSql/FromSql"), ("SqlVal <-> backend value", "sqlvalref_to_sqlite, sql_valref_from_rusqlite, postgres ToSql/FromSql, sqlval_to_turso, turso_value_to_sqlval_typed")],
  ["get after save", "query with filter / order"])

p("Q01", "A filter selects exactly the rows its boolean expression describes",
  "Loading by a query returns each stored object for which the filter is true, once, and no other, where and, or, not, comparisons, null tests, like, and membership in a list (also an empty or a long one) compose to the value that the structure of the filter expression has under SQL's three-valued logic. Deleting by a query removes exactly those objects and reports how many.",
  ["inputs", "programs", "configurations"],
  "every filter expression of any nesting, over any set of rows (with nulls and duplicates), as built by the filter macro or by the expression API, on every backend and connection style",
  "Tests evaluate about twenty fixed filters, none nesting an or inside an and or negating a compound; correctness must hold for every expression tree and table content.",
  ["butane_core/src/query/mod.rs", "butane_core/src/query/fieldexpr.rs", "butane_core/src/db/helper.rs", "butane_codegen/src/filter.rs", "butane_core/src/db/turso.rs"],
  [("expression to SQL", "butane_core/src/db/helper.rs sql_for_expr"), ("filter macro", "butane_codegen/src/filter.rs"), ("parameter numbering", "PlaceholderSource of each backend")],
  ["QueryOps::{load,load_first,delete}", "filter!/query!/find!"])

p("Q02", "Sorting, limit and offset select the documented window of the result",
  "A query's result is sorted by its sort terms in the order given (earlier terms first, each in its own direction), and limit and offset, in any combination, return exactly the corresponding contiguous part of the filtered and sorted rows. Asking for the first object returns the first row of that window, or nothing if it is empty, deleting by a query deletes exactly the objects of that window, each further filter restricts it further, and a query value can be cloned and reused with the same results.",
  ["inputs", "configurations"],
  "every combination of filter, up to several sort terms and directions, limit and offset (also zero or beyond the end), over any rows, on every backend and connection style",
  "Tests exercise single limits and single sort columns; the interplay of offset without limit, several terms and load_first is a claim for all combinations.",
  ["butane_core/src/query/mod.rs", "butane_core/src/db/helper.rs", "butane_core/src/db/sqlite.rs", "butane_core/src/db/pg.rs", "butane_core/src/db/turso.rs"],
  [("order/limit/offset SQL", "helper::sql_order, sql_limit, sql_offset and each backend's query"), ("load_first", "QueryOps::load_first")],
  ["QueryOps::{load,load_first}", "find!"])

p("Q03", "Relationship filters follow the stored relations exactly",
  "A filter through a foreign key selects exactly the objects whose stored reference names an object satisfying the inner condition (an unset optional reference never satisfies it), and a filter through a many-to-many field selects exactly the owners having at least one related object satisfying the inner condition, each once. This also holds when such filters are combined, negated or nested, and when they are used to delete.",
  ["inputs", "histories", "configurations"],
  "every contents of the related tables, every inner condition and nesting of relationship filters under and/or/not, on every backend (native subqueries or emulated ones) and connection style",
  "Tests use one data set with four posts and four fixed relationship filters, and none negated, nested or used for deletion.",
  ["butane_core/src/query/fieldexpr.rs", "butane_core/src/db/helper.rs", "butane_core/src/db/turso.rs", "butane_codegen/src/filter.rs"],
  [("subquery SQL", "helper.rs Subquery / SubqueryJoin"), ("emulated subqueries", "turso.rs transform_subqueries"), ("matches/contains", "fieldexpr.rs, filter.rs")],
  ["QueryOps::{load,delete} with matches/contains filters"])

p("M01", "A many-to-many field holds exactly its owner's relations",
  "After the owner is saved, the stored relations of a many-to-many field are the previous ones plus those added and minus those removed on it since its last save; setting it makes them exactly the given objects and deleting it leaves none. These operations never change the relations of any other owner or field, and loading the field returns exactly the objects related to that owner (each once, and in key order if asked), plus any that have been added but not yet saved.",
  ["histories", "inputs", "configurations"],
  "every sequence of add, remove, save, set, delete, load and reload over several owners, copies and fields sharing related objects, for integer, text and automatic owner keys, on every backend and connection style",
  "The tests use one owner at a time, so relations leaking between owners or copies cannot show; the claim ranges over all histories with shared related objects.",
  ["butane_core/src/many.rs", "butane_core/src/lib.rs", "butane_core/src/codegen/dbobj.rs"],
  [("pending adds and removes", "butane_core/src/many.rs ManyOps::save"), ("owner-filtered subquery", "Many::query"), ("initialisation with the owner key", "Many::ensure_init, save_many_to_many in dbobj.rs")],
  ["ManyOps::{load,load_ordered,set,delete}", "Many::{add,remove,get}", "rows of the relation table"])

p("F01", "A foreign key always names an existing object and loads that object",
  "No stored object ever refers to a missing one: saving a reference to an object that is not stored, and deleting (singly or by query) an object that is still referred to, fail and change nothing. Loading a stored reference yields the referred object's current stored state and never a different object; the key is available without loading, getting the value before any load is an error, references are equal exactly when their keys are equal, and saving over an object keeps the references to it.",
  ["histories", "configurations"],
  "every sequence of saving, re-pointing, clearing, updating and deleting referrers and referents, with natural and text keys and optional references, on every backend and connection style",
  "Tests check one dangling save at most; integrity after arbitrary interleavings of deletes, upserts and re-pointing is a claim about all histories.",
  ["butane_core/src/fkey.rs", "butane_core/src/db/sqlite.rs", "butane_core/src/db/turso.rs", "butane_core/src/db/pg.rs", "butane_core/src/codegen/migration.rs", "butane_core/src/migrations/adb.rs"],
  [("constraints in the schema", "create_table_constraints / define_fkey_constraint"), ("foreign key enforcement switched on", "PRAGMA foreign_keys in sqlite.rs and turso.rs"), ("update in place rather than replace", "sql_insert_or_update"), ("lazy load", "butane_core/src/fkey.rs")],
  ["save/delete results", "ForeignKeyOps::load", "ForeignKey::{get,pk}"])

p("T01", "A transaction takes effect entirely at commit or not at all",
  "Everything done in a transaction is visible inside it at once, is invisible to other connections until commit, and becomes visible to all and durable when commit succeeds; if the transaction is rolled back, dropped without commit, or the process dies before commit, the database is as if it had never started. After it ends, in whichever way, the connection is usable and outside any transaction. A commit that reports success has happened; one that cannot happen reports an error and ends the transaction.",
  ["histories", "schedules", "crash_points", "configurations"],
  "every sequence of operations (including failing ones) inside and outside transactions on two connections to one database, every way of ending the transaction including the death of the process at any point, on every backend and connection style",
  "The tests commit or roll back one transaction holding one save, on one connection, and never crash.",
  ["butane_core/src/db/mod.rs", "butane_core/src/db/sqlite.rs", "butane_core/src/db/pg.rs", "butane_core/src/db/turso.rs", "butane_core/src/db/adapter.rs", "butane_core/src/db/sync_adapter.rs"],
  [("begin/commit/rollback", "BackendTransaction of each backend"), ("rollback on drop", "Drop of SqliteTransaction, TursoTransaction, the transaction adapters")],
  ["Transaction::{commit,rollback}, drop", "reads through the transaction, its connection and another connection"])

p("A01", "Synchronous, asynchronous and adapted connections behave identically",
  "The same sequence of operations gives the same results and the same database contents whether it is issued through a blocking connection, an asynchronous one, or one converted from the other, including failing operations and transactions. Running synchronous work on an asynchronous connection keeps the connection and its session state, returns that work's result or error, and leaves the connection usable afterwards unless the work panicked; then every later use of it reports an error rather than misbehaving or hanging, operations issued concurrently on one connection each get their own result, and an operation whose future is abandoned takes effect wholly or not at all and leaves the connection usable.",
  ["histories", "schedules", "fault_sequences", "configurations"],
  "every interleaving of direct operations, conversions, synchronous sections that succeed, fail or panic, transactions and concurrent callers, for every backend that offers more than one style",
  "The tests run each scenario once per style without mixing styles on one connection, and touch panics once.",
  ["butane_core/src/db/adapter.rs", "butane_core/src/db/sync_adapter.rs", "butane_core/src/db/dummy.rs", "butane_core/src/db/mod.rs", "butane_core/src/db/connmethods.rs"],
  [("worker thread running synchronous calls", "butane_core/src/db/adapter.rs"), ("blocking on an asynchronous connection", "butane_core/src/db/sync_adapter.rs"), ("with_sync and the placeholder connection", "butane_core/src/db/mod.rs ConnectionAsync::with_sync, dummy.rs")],
  ["results of ConnectionMethods and ConnectionMethodsAsync", "ConnectionAsync::with_sync", "BackendConnection::is_closed"])

p("P01", "A connection pool hands out usable connections, each to one user",
  "Connections taken from a pool are connected to the configured database and usable, never more than the configured maximum exist at once, and a connection is never in use by two holders. Whatever a holder did (finished, failed, or left a transaction without committing it), the next holder gets a connection that is outside any transaction (of those begun through the library) and sees exactly the committed data, and a connection that is known to have become unusable is not handed out again.",
  ["schedules", "histories", "fault_sequences"],
  "every interleaving of taking, using, breaking and returning connections by concurrent users of the synchronous and asynchronous pools",
  "The pool tests take and return a connection a few times; they neither contend for connections nor return dirty or broken ones.",
  ["butane_core/src/db/mod.rs", "butane_core/src/db/connmethods.rs", "butane/src/db/mod.rs", "butane/src/db/r2.rs", "butane/src/db/deadpool.rs"],
  [("r2d2 manager", "butane/src/db/r2.rs"), ("deadpool manager", "butane/src/db/deadpool.rs"), ("closed detection", "BackendConnection::is_closed")],
  ["pool get / drop", "operations on pooled connections", "pool state"])

p("G01", "Migrations are applied once each, in order, and undone in reverse",
  "Migrating applies exactly the migrations after the last applied one, in chain order, and records each; migrating again does nothing, and applied plus unapplied migrations are always the whole chain with the applied ones first. Unmigrating undoes exactly the applied ones in reverse and removes their records; if a migration fails, it and its record have no effect at all, the ones before it stay applied, and the failure is reported.",
  ["histories", "fault_sequences", "configurations"],
  "every chain of migrations, every history of migrating, extending the chain, undoing, and failing at any migration in either direction, on every backend and connection style, from memory or from disk",
  "Tests migrate one or two migrations forward once and back once; they have no failing migration and no interrupted chain.",
  ["butane_core/src/migrations/mod.rs", "butane_core/src/migrations/migration.rs", "butane_core/src/migrations/memmigrations.rs", "butane_core/src/migrations/fsmigrations.rs"],
  [("selection of migrations", "Migrations::{unapplied_migrations,last_applied_migration,migrations_since}"), ("transactional application with record", "Migration::{apply,downgrade}")],
  ["Migrations::{migrate,unmigrate,unapplied_migrations,last_applied_migration}", "the recorded migrations and the tables of the database"])

p("G02", "Generated migrations turn any schema into the declared one and back",
  "For any two schemas, applying the migration generated from the first to the second gives a database with the tables, columns, types, nullability, keys, uniqueness and references that creating the second from scratch gives, and its reverse gives back the first. Rows in tables and columns that both schemas have keep their values, new columns of existing rows hold their declared default (null if optional), and a migration is generated exactly when the two schemas differ.",
  ["inputs", "histories", "configurations"],
  "every pair or sequence of schemas (tables and columns added, removed, changed in type, nullability, uniqueness, default or reference), with or without rows present, on every backend",
  "Tests compare the generated SQL text for about ten hand-written pairs; that the SQL executes, converges and preserves data must hold for every pair.",
  ["butane_core/src/migrations/adb.rs", "butane_core/src/migrations/mod.rs", "butane_core/src/db/sqlite.rs", "butane_core/src/db/pg.rs", "butane_core/src/db/turso.rs", "butane_core/src/db/helper.rs"],
  [("schema difference", "butane_core/src/migrations/adb.rs diff"), ("SQL per operation", "sql_for_op in each backend"), ("table rebuilding", "change_column / copy_table in sqlite.rs and turso.rs"), ("defaults", "helper.rs column_default, sql_literal_value")],
  ["the catalog and rows of the database after migrating and unmigrating"])

p("G03", "A crash during migration leaves a state from which migrating completes",
  "If the process dies at any point while migrating or unmigrating, the database is exactly as it was between two whole migrations: every migration has taken effect and is recorded, or has had no effect and is not recorded. Running the same migration again then completes it to the same database as an uninterrupted run.",
  ["crash_points", "histories", "configurations"],
  "death of the process after any statement sent to the database during any migration or rollback of a chain, for databases on disk or on a server",
  "No test interrupts a migration.",
  ["butane_core/src/migrations/migration.rs", "butane_core/src/migrations/mod.rs", "butane_core/src/db/sqlite.rs", "butane_core/src/db/pg.rs"],
  [("one transaction per migration including its record", "Migration::apply / downgrade"), ("transactional DDL", "BackendTransaction of each backend")],
  ["recorded migrations, catalog and rows after reopening the database"])

p("G04", "Migration collections keep every migration through storage and transfer",
  "A collection of migrations, in memory or on disk, after any sequence of creating, detaching, deleting and clearing migrations reports exactly the resulting chain, with each migration's predecessor, schema, type definitions, backends and forward and backward SQL. Reopening a collection from disk, writing it to or reading it from its embedded textual form, and copying it to the other kind of collection all give an equal collection; editing the current schema never alters existing migrations.",
  ["histories", "inputs", "configurations"],
  "every sequence of operations on a collection, every schema and SQL text, either kind of collection, with reopening, serialising or copying at any point",
  "Tests create one or two migrations and check a few fields; equality after arbitrary histories and reopening is not tested.",
  ["butane_core/src/migrations/fsmigrations.rs", "butane_core/src/migrations/memmigrations.rs", "butane_core/src/migrations/mod.rs", "butane_core/src/migrations/fs.rs"],
  [("files and state", "butane_core/src/migrations/fsmigrations.rs"), ("in-memory form and JSON", "butane_core/src/migrations/memmigrations.rs"), ("copying", "copy_migration")],
  ["Migrations and MigrationsMut methods", "Migration methods", "files under the migrations directory"])

p("C01", "Command line operations keep migrations, database and embedding consistent",
  "Each command of the command line tool (making, applying, rolling back to a name, detaching, collapsing, regenerating migrations, adding and removing backends, embedding, clearing data) changes exactly what it names: the migration chain, the database schema and its record of applied migrations, and the embedded copy stay mutually consistent after any sequence of commands. A refused command reports failure and changes nothing, and no command loses stored rows other than clearing data and applying or undoing migrations that drop what holds them. Collapsing replaces the chain by one migration leading to what has been applied.",
  ["histories", "configurations"],
  "every sequence of commands and model edits on a project, with the database at any point of the chain",
  "The CLI has almost no tests of its commands against a database.",
  ["butane_cli/src/lib.rs", "butane_cli/src/main.rs", "butane_core/src/migrations/mod.rs"],
  [("commands", "butane_cli/src/lib.rs"), ("argument handling", "butane_cli/src/main.rs")],
  ["exit status and output of the butane binary", "the project's migration files and embedded module", "the database"])

p("D01", "The generated schema is what the model declaration says",
  "For every model declaration, the schema recorded for it has one table with the declared or default name and exactly the declared columns, each with the type, nullability, primary key, uniqueness, default and reference that the field's type and attributes say, and one relation table per many-to-many field whose columns reference the two models' keys. The relationship types, custom types, renamed tables, raw identifiers and qualified paths resolve to the same schema as their plain forms, in whatever order models are declared.",
  ["programs", "inputs"],
  "every model declaration: any number of fields of any supported type, optional or not, with any attributes, in any order, across several models",
  "Tests check about six fixed declarations by comparing generated text.",
  ["butane_core/src/codegen/migration.rs", "butane_core/src/codegen/mod.rs", "butane_core/src/codegen/dbobj.rs", "butane_core/src/migrations/adb.rs"],
  [("field classification and types", "butane_core/src/codegen/mod.rs"), ("tables from structs", "butane_core/src/codegen/migration.rs"), ("type resolution", "butane_core/src/migrations/adb.rs resolve_types")],
  ["schema of the current migration after expanding the model"])

p("N01", "Any legal model or field name works in every operation",
  "Behaviour never depends on what tables and columns are called: models and fields named by SQL keywords (through raw identifiers or custom table names) or in mixed case can be created, saved, updated, loaded, filtered, sorted, related, deleted, queried through the macros and migrated exactly like ones with ordinary names (except names that the database itself reserves for its own columns and tables).",
  ["inputs", "programs", "configurations"],
  "every keyword or ordinary identifier as the name of a table, key, column, foreign key or many-to-many field, in every operation, on every backend",
  "One example with a few reserved words covers saving and loading only.",
  ["butane_core/src/db/helper.rs", "butane_core/src/db/sqlite.rs", "butane_core/src/db/pg.rs", "butane_core/src/db/turso.rs", "butane_core/src/codegen/mod.rs"],
  [("identifier quoting", "helper.rs quote_reserved_word and its callers")],
  ["results of all operations on models with keyword names"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
