#!/usr/bin/env python3
"""Single source for /verif/properties.jsonl. Run: python3 tools/props.py"""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=(), state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

# ---------------------------------------------------------------- SQL builder
p("Q01", "Bound arguments always line up with the placeholders of the SQL text",
  "Whatever builder methods are called and in whatever order, the argument list returned with a statement holds exactly the values that were bound, in the same left-to-right order as their placeholders occur in the generated SQL. In the PostgreSQL dialect the placeholders are numbered $1..$n consecutively, one number per argument, with no gap, repeat or reordering.",
  ["programs", "inputs"], "every sequence of builder calls (clauses added out of order, repeated, re-limited, with sub-statements) and every argument value",
  "Tests check a few dozen fixed statements; mis-ordering shows only for particular interleavings of clause calls (arguments added to an earlier clause after a later one).",
  ["xsql/stmt.go", "xsql/dialect.go", "xsql/util.go"],
  [("insertion of a clause and of its arguments at the position of its clause", "xsql/stmt.go addChunk"), ("argument splice", "xsql/util.go insertAt"), ("numbering", "xsql/dialect.go writePg"), ("assembly", "xsql/stmt.go String")],
  ["Builder.String", "Builder.Args", "Executor arguments"],
  [("chunks", "per-clause spans of the text buffer with their argument counts", "xsql/stmt.go Stmt")])

p("Q02", "Clauses come out in SQL order, complete, whatever order they were added in",
  "A statement contains every clause and every fragment that was added, each exactly once and byte for byte, with the clauses in SQL grammar order regardless of call order and the fragments of one clause in call order joined by that clause's own separator (comma for lists, AND for conditions, blank for joins). Raw clauses follow the clause that was last in the statement when they were added, and requesting the text or arguments in between never changes the final statement.",
  ["programs", "inputs"], "every sequence of builder calls and every fragment text",
  "The number of call orders is combinatorial; tests fix one order per statement, usually the SQL order.",
  ["xsql/stmt.go", "xsql/dialect.go"],
  [("clause position ordering and separators", "xsql/stmt.go addChunk"), ("assembly and trimming", "xsql/stmt.go String")],
  ["Builder.String"])

p("Q03", "Only placeholders are rewritten by the PostgreSQL dialect",
  "With the PostgreSQL dialect each backslash-escaped question mark of a fragment is emitted as a plain question mark, in a fragment that binds arguments each unescaped question mark is replaced by the next $number, and every other byte is unchanged. With the other dialects the text is emitted unchanged.",
  ["inputs"], "every fragment text (any bytes, any arrangement of ?, backslashes and other characters) and any number of arguments",
  "Tests use a handful of well-formed fragments; adjacency of escapes, placeholders and fragment boundaries is an input-space question.",
  ["xsql/dialect.go", "xsql/stmt.go"],
  [("placeholder rewriting", "xsql/dialect.go writePg"), ("per-clause rewriting", "xsql/stmt.go String")], ["Builder.String"])

p("Q04", "A cloned statement is equal to and independent of its original",
  "A clone of an unnamed statement yields the same SQL, arguments and scan targets as the original at the moment of cloning. Afterwards any further call on either one (adding clauses, appending expressions, nesting queries, building, executing or closing) has exactly the effect it would have had on an uncloned statement, and no effect on the other.",
  ["programs", "inputs"], "every call sequence before the clone, and every continuation of the original and of the clone",
  "Tests clone one statement and extend it once; aliasing and forgotten state show only for particular capacities and continuations.",
  ["xsql/stmt.go", "xsql/pool.go"],
  [("deep copy of chunks, arguments, targets and text", "xsql/stmt.go Clone"), ("pool reuse", "xsql/pool.go")], ["Builder.String", "Builder.Args", "Builder.Dest"])

p("Q05", "A statement's text depends only on how that statement was built",
  "The SQL text, arguments and scan targets of an unnamed statement are a function of the dialect and of the calls made on that statement alone: statements built, executed, closed, cached or cloned before it in the same process never change them. A statement object recycled after being closed starts empty.",
  ["histories", "inputs"], "every history of other statements (closed, still open, with equal or similar texts) preceding or interleaved with the construction",
  "Pool and cache reuse depends on history; each test starts from nearly fresh pools and never compares the same construction under different histories.",
  ["xsql/pool.go", "xsql/cache.go", "xsql/stmt.go"],
  [("reset on reuse", "xsql/pool.go getStmt/reuseStmt"), ("text cache keyed by statement content", "xsql/stmt.go String, xsql/cache.go")],
  ["Builder.String", "Builder.Args", "Builder.Dest"],
  [("cache", "process-wide text cache of a dialect", "xsql/dialect.go Dialect"), ("pool", "recycled statements", "xsql/pool.go")])

p("Q06", "INSERT columns and values stay aligned, one value group per row",
  "An INSERT statement lists every column of its first row once, in call order, and its n-th value (text and bound arguments) belongs to its n-th column. A multi-row INSERT has one parenthesised group per row with the values of that row in call order, and the argument list is the concatenation of the rows.",
  ["programs", "inputs"], "every number of rows and columns, any mix of plain values and expressions with zero or more arguments",
  "Tests insert one fixed shape; alignment must hold for every shape.",
  ["xsql/stmt.go"],
  [("paired column/value insertion", "xsql/stmt.go SetExpr"), ("row groups", "xsql/stmt.go NewRow, newRow.SetExpr")], ["Builder.String", "Builder.Args"])

p("Q07", "Limit, offset and paging always carry the last requested values",
  "However often limit, offset and paging are set, and wherever between other calls, the statement has at most one LIMIT and one OFFSET and their bound arguments are the most recently requested values, without disturbing any other argument. Paging by (page, size), with values below one treated as one, selects rows (page-1)*size .. page*size-1, i.e. limit = size and offset = (page-1)*size, where no OFFSET means zero.",
  ["programs", "inputs"], "every sequence of limit/offset/page calls mixed with other clauses, all page numbers and sizes",
  "Tests call each once; overwriting arguments in place depends on what surrounds them.",
  ["xsql/stmt.go"],
  [("in-place argument update of an existing clause", "xsql/stmt.go addChunk"), ("page arithmetic", "xsql/stmt.go Paginate")], ["Builder.String", "Builder.Args"])

p("Q08", "Nested queries keep their text and arguments where they are embedded",
  "Embedding a query (common table expression, sub-query, union) places its complete SQL at that point of the outer statement, between the given prefix and suffix, and its arguments at the matching place of the outer argument list, whatever dialect the inner query was made with. The inner query's placeholders are numbered as part of the outer statement.",
  ["programs", "inputs"], "every nesting of inner queries into outer statements at any point of their construction, with arguments on both sides",
  "Tests nest two or three fixed queries.",
  ["xsql/stmt.go"],
  [("embedding", "xsql/stmt.go SubQuery, With, Union"), ("dialect neutralisation", "xsql/stmt.go SubQuery")], ["Builder.String", "Builder.Args"])

p("Q09", "Executing a statement surfaces every fault and scans every row once",
  "Query passes the statement's SQL and arguments to the database unchanged, scans each returned row into the bound targets exactly once and calls the handler once per successfully scanned row in order, releases the cursor on every path, and returns a non-nil error whenever the query, a scan, the iteration or closing failed. Single-row and exec forms likewise return exactly the database's error, and the closing variants recycle the statement only after its use.",
  ["fault_sequences", "inputs"], "every number of rows and every point at which query, iteration, scan or close can fail",
  "The fault position is a universally quantified variable; tests use one or two mock outcomes.",
  ["xsql/executor.go"],
  [("row loop with close and error precedence", "xsql/executor.go Query")], ["Stmt.Query/QueryRow/Exec results", "driver rows closed"])

p("Q10", "A named query is created once and always returns the same text",
  "Looking up a named query calls its constructor only if the name is not known yet, and from then on every lookup under that name in that dialect returns the text the constructor's statement produced, independent of other names and of statements built meanwhile.",
  ["histories", "inputs"], "every history of lookups under equal and different names, and unrelated statements in between",
  "Tests look up one or two fixed names.",
  ["xsql/cache.go", "xsql/stmt.go"],
  [("lookup and store by name", "xsql/cache.go GetOrCreateQuery"), ("cache key selection", "xsql/stmt.go String")], ["Dialect.GetOrCreateQuery", "Dialect.GetCachedQuery"])

# ---------------------------------------------------------------- column types
p("T01", "IDs survive every conversion to text, JSON and SQL and back",
  "For every 64-bit id, converting it to text, to JSON (number or quoted string) or to its database value and back yields the same id, zero being the empty/NULL id. Text and JSON inputs that are not a decimal number in range are rejected with an error and never yield a different number.",
  ["inputs"], "all 2^64 ids; all input texts up to the stated length",
  "Tests sample about ten ids and strings.",
  ["id.go", "types.go"],
  [("formatting and parsing", "id.go ID.Set, UnmarshalJSON, String; types.go ParseUint, IDString"), ("database value", "id.go ID.Value, ID.Scan")], ["ID methods"])

p("T02", "IDs are values: changing one never changes a copy",
  "After an id has been copied (assigned, passed, or stored in a list), no method called on one copy (setting, resetting, scanning, decoding, or formatting) changes the number or text reported by any other copy, and the text of an id always is the decimal form of its number.",
  ["histories", "inputs"], "every sequence of mutating and reading calls on a set of copies, all values",
  "Tests mutate single variables; copies that share storage are never observed.",
  ["id.go"],
  [("shared representation of an id and its cached text", "id.go idptr, ID.Set, ID.Reset, ID.Scan")], ["ID.String", "ID.UInt64", "ID.Value"])

p("T03", "Integer columns scan exactly or fail",
  "Scanning a database integer into an integer column type stores exactly that integer or returns an error leaving the destination unchanged: values that do not fit the destination are never truncated, wrapped or sign-changed. Values of unsupported kinds are rejected with an error. (An ID is a 64-bit pattern that travels as a signed 64-bit integer with the same bits.)",
  ["inputs"], "all 2^64 values of every accepted source integer type, for every integer destination type",
  "Tests scan small positive numbers; wrap-around needs out-of-range values.",
  ["id.go", "types.go"],
  [("type switch and conversion", "id.go ID32.Scan; types.go Int64.Scan, Int32.Scan")], ["Scan results"])

p("T04", "NULL and zero map to each other and never leave stale data",
  "Every nullable column type writes its zero value as NULL and any other value as non-NULL, and scanning NULL (for times also the empty text) resets the destination to its zero value whatever it held before.",
  ["inputs", "histories"], "every previous content of the destination and every value",
  "Tests scan NULL into fresh zero variables, so a stale value is invisible.",
  ["id.go", "types.go", "time.go"],
  [("NULL handling", "Scan and Value methods in id.go, types.go, time.go")], ["Scan", "Value"])

p("T05", "Scalar columns read back what they wrote",
  "For every value of the numeric, boolean and string column types, scanning what the type wrote as its database value yields the same value, and, for booleans and integers, decoding what it wrote as JSON yields exactly the same value. Malformed JSON numbers or numbers out of range are rejected with an error and leave the destination unchanged.",
  ["inputs"], "all values of each type",
  "Tests use a few samples; extreme and negative values and every bit pattern are out of their reach.",
  ["types.go", "id.go"],
  [("Value/Scan and MarshalJSON/UnmarshalJSON pairs", "types.go Int64, Int32, Float, Bool, NULLString; id.go ID32")], ["Value", "Scan", "MarshalJSON", "UnmarshalJSON"])

p("T06", "UUID columns decode every binary or text form or report an error",
  "A 16-byte binary identifier is decoded to its canonical upper-case text with the first three groups byte-swapped, injectively: different bytes give different texts. Text input is kept as is, also when a driver delivers the 36-character text form as bytes, NULL gives the empty identifier, and an input (including a binary value of any other length) that cannot be decoded yields an error, never a silently unchanged destination.",
  ["inputs"], "all byte strings up to the stated length, all 2^128 binary identifiers",
  "Tests decode one identifier.",
  ["types.go"],
  [("binary decoding", "types.go UUID.Scan")], ["UUID.Scan", "UUID.Value"])

p("T07", "Times are stored and returned as the same UTC instant",
  "Scanning, writing, adding to, converting or decoding a time always yields the same instant expressed in UTC, truncated (never rounded) to milliseconds where the type promises millisecond precision, and the zero time corresponds to NULL and the empty text. Milliseconds since the epoch convert to a time and back without change.",
  ["inputs"], "all instants (seconds and nanoseconds, before and after the epoch) and zone offsets within the stated range",
  "Tests use the current time or one date; negative and sub-millisecond instants are not covered.",
  ["time.go"],
  [("UTC normalisation and truncation", "time.go Scan, Value, UTC, Add, FromUnixMilli, ParseTime")], ["Time methods"])

p("T08", "Id lists behave as ordered sets and never disturb their operands",
  "Adding an id keeps the list duplicate-free and keeps existing order, concatenation contains exactly the ids of both operands once each, membership and overlap agree with the contents, and sorting puts the same ids in ascending order in place. Adding or concatenating duplicate-free lists returns a new list: no list obtained earlier changes.",
  ["histories", "inputs"], "every sequence of list operations over arbitrary ids, keeping all intermediate lists",
  "Tests check one result at a time; interference through shared storage needs two lists grown from the same base.",
  ["id.go"],
  [("Add, Concat, Contains, Overlaps, Sort", "id.go IDArray")], ["IDArray methods"])

p("T09", "Id lists round-trip through SQL arrays and string lists",
  "Writing an id list as a SQL array and scanning it back yields the same ids in the same order, an empty list is NULL and NULL an empty list, and a malformed array yields an error and no ids. String and integer list conversions keep number and order of the valid ids.",
  ["inputs"], "all lists of 64-bit ids up to the stated length, all input texts up to the stated length",
  "Tests use lists of small ids.",
  ["id.go"],
  [("array conversion", "id.go IDArray.Value, IDArray.Scan, Int64Array, Strings, List")], ["IDArray.Value", "IDArray.Scan"])

p("T10", "String list, metadata and key/value columns read back what they wrote",
  "For every content of valid UTF-8 text, scanning what a string list, metadata or key/value-set column wrote (whether the driver returns it as text or as bytes) yields the same content; NULL gives nil and the empty text the empty collection. Merging gives the union in which the merged-in entries win, and ordered listings are in key order with every pair once.",
  ["inputs"], "all contents up to the stated sizes, both driver representations, every map iteration order",
  "Tests use one sample per type and only the text representation.",
  ["types.go"],
  [("JSON conversion", "types.go Strings, Metadata, KVSet Scan/Value"), ("merge and ordering", "types.go Merge, OrderedPairs")], ["Scan", "Value", "Merge", "OrderedPairs"])

p("T11", "Not-found errors are recognised exactly, however they are wrapped",
  "An error is classified as not-found exactly when it is, wraps, or reports in its message the database's no-rows condition, or is or wraps this package's not-found error. Converting an error keeps nil as nil, turns exactly the no-rows errors into a not-found error carrying the given table and id while still matching the original error, and passes every other error through.",
  ["inputs"], "every error chain up to the stated depth, every table name and id",
  "Tests check single-level wrapping.",
  ["types.go"],
  [("classification", "types.go CheckNotFoundError, IsNotFoundError, ErrorNotFound")], ["CheckNotFoundError", "IsNotFoundError", "errors.Is/As"])

# ---------------------------------------------------------------- query parameters
p("P01", "The name of a parameter set identifies its query shape",
  "Two parameter sets of one query have the same name only if they have the same shape: the same positions set, the same enum values, flags, kind of paging and set of nulled columns. The name always reflects the current content, is unaffected by argument values and by the order of nulled columns, and asking for it changes nothing the caller can see.",
  ["histories", "inputs"], "all pairs of parameter sets reachable by setter sequences, with naming requests in between",
  "Tests compare a dozen fixed names; collisions and staleness are pairwise/historical.",
  ["params.go"],
  [("name construction and caching", "params.go Name"), ("setters", "params.go Set, SetEnum, SetFlags, SetPage, SetCursor, SetNullColums, Reset")], ["QueryParams.Name", "GetNullColumns"],
  [("hash", "cached name", "params.go QueryParamsBuilder")])

p("P02", "Parameter sets report exactly what was set",
  "After any sequence of setters the argument list is the bound values in call order with the paging values last, a position is reported set exactly if it was set, enum values, flags, page and cursor are returned as given (zero page size meaning the default), and a reset set is indistinguishable from a new one. Positions outside 0..63 and arguments after paging are refused, leaving the set unchanged.",
  ["histories", "inputs"], "every sequence of setter calls and all positions and values",
  "Tests use fixed sequences of in-range positions.",
  ["params.go"],
  [("bookkeeping", "params.go QueryParamsBuilder")], ["Args", "IsSet", "GetEnum", "GetFlags", "Page", "Cursor"])

p("P03", "List queries return all rows or an error, and release the cursor",
  "A list query returns every row the database produced, in order and scanned exactly once, or an error: if the query, the iteration or any scan fails, no partial list is returned as success. The cursor is released on every path.",
  ["fault_sequences", "inputs"], "every number of rows up to the stated bound and every position of a query, iteration, scan or close fault",
  "Mocks in tests never fail in the middle of an iteration.",
  ["query.go"],
  [("row loop", "query.go ExecuteListQuery, QueryRow")], ["ExecuteListQuery", "ExecuteQuery", "QueryRow"])

p("P04", "Paging tells exactly where the next page starts",
  "A paged query reports the rows of this page, that a next page may exist exactly when a full page was returned, and then the next offset as the current offset plus the rows returned (zero otherwise); walking the pages visits every row once and ends. Cursor paging reports the same next-page decision, and both forms of passing the paging values give the same result.",
  ["inputs", "histories"], "every page size, offset, row count and result-set size within the stated bounds, both calling forms",
  "Tests check two or three pages of one table.",
  ["query.go", "params.go"],
  [("next-page computation", "query.go ExecuteQueryWithPagination, ExecuteQueryWithCursor"), ("page argument decoding", "params.go PageParam")], ["Result.SetResult", "ResultWithCursor.SetResultWithCursor"])

p("P05", "A page cursor decodes to what was encoded, anything else is refused",
  "Decoding an encoded cursor yields the encoded content (for non-empty contents), the encoded form uses only URL-safe characters, and a text that is not the URL-safe base64 form of one JSON object (or null) yields an error, never partial content.",
  ["inputs"], "all contents and all cursor texts up to the stated lengths",
  "Tests round-trip one cursor.",
  ["query.go"], [("encoding", "query.go EncodeCursor, DecodeCursor")], ["EncodeCursor", "DecodeCursor"])

# ---------------------------------------------------------------- provider
p("D01", "Statements of a transaction run in that transaction, as requested",
  "Every statement issued through a transaction-scoped provider runs in exactly that transaction with its text and arguments unchanged, statements of the parent never do, one whose context has ended does not run, and the isolation level and read-only option asked for are what the database is asked for. Commit and rollback reach the database exactly once and report its error, a second commit or a rollback after commit has no effect, closing a transaction-scoped provider rolls back uncommitted work without closing the connection, and without a transaction commit and rollback are errors.",
  ["histories", "fault_sequences", "inputs"], "every sequence of provider operations within the stated bound with a fault at any of them, all transaction options",
  "Tests mock single happy paths; histories with faults are not explored.",
  ["prov.go"], [("routing and lifecycle", "prov.go BeginTx, Commit, Rollback, Close, QueryContext, ExecContext")], ["driver-level calls"])

p("D02", "Closing a provider is safe at any moment and stops its background work",
  "Closing a provider, at any moment relative to its background keep-alive and any number of times, never crashes the process, closes the connection pool once, and ends the background activity; until then the connection is checked periodically, also after a failed check. A failed close is reported and can be retried.",
  ["schedules", "fault_sequences"], "every interleaving of keep-alive ticks, pings and close calls, close failures",
  "The keep-alive period is a minute, so no test ever runs a tick, let alone one racing with close.",
  ["prov.go"], [("keep-alive goroutine and Close", "prov.go keepAlive, Close")], ["process liveness", "pool closed"])

p("D03", "Opening a database connects to the requested source and database",
  "The driver is opened with the given connection string extended by the requested database name in a form the driver parses back as exactly that name, with every other part of the string unchanged; without a requested name the string is used as is. Parsing a connection string reports its scheme, host, user, password, database and parameters, unsupported drivers and unparsable or unreachable sources are reported as errors, and nothing stays open after an error. A provider opened so knows its source and issues the ids of the generator it is given.",
  ["inputs", "fault_sequences"], "all database names up to the stated length, connection strings with and without parameters, ping failures",
  "Tests use fixed strings whose form happens to fit.",
  ["db.go"], [("connection string completion", "db.go Open"), ("parsing", "db.go ParseConnectionString")], ["driver open string", "Source"])

# ---------------------------------------------------------------- flake
p("F01", "Generated ids are unique and strictly increasing under any clock",
  "The ids handed out by one generator are strictly increasing, hence unique, for every behaviour of the clock: standing still, jumping forward or backward, and however many ids are requested per tick, until the time range is exhausted, which is refused rather than wrapped.",
  ["histories", "inputs"], "every clock behaviour and every generator state, one step from an arbitrary valid state plus bounded histories from creation",
  "Tests run against the real clock, where backward jumps and sequence exhaustion at chosen states do not occur.",
  ["pkg/flake/flake.go"], [("sequence/elapsed-time step", "pkg/flake/flake.go NextID"), ("composition", "pkg/flake/flake.go toID")], ["NextID results", "LastID"],
  [("elapsedTime, sequence", "last issued time unit and counter", "pkg/flake/flake.go Flake")])

p("F02", "Concurrent callers never receive the same id",
  "However concurrent requests to one generator interleave, all ids are distinct, each caller sees its own ids increase, and the last-id report is an id that was handed out.",
  ["schedules"], "every interleaving of the stated number of callers and requests, every clock behaviour",
  "A stress test samples a few schedules of the real scheduler.",
  ["pkg/flake/flake.go"], [("mutual exclusion", "pkg/flake/flake.go NextID")], ["NextID results", "LastID"])

p("F03", "An id always decomposes into the parts it was made from",
  "Every id has a clear top bit and decomposes into exactly the elapsed time, sequence number and machine id it was generated with, the reported time of an id equals the start time plus the elapsed milliseconds, and generators with different machine ids never produce the same id. A start time in the future, a failing machine id source or a rejected machine id is refused at creation.",
  ["inputs", "configurations"], "all machine ids, start times, clocks within the range and all 2^64 ids for decomposition",
  "Tests decompose a few ids of one machine.",
  ["pkg/flake/flake.go"], [("bit layout", "pkg/flake/flake.go toID, Decompose, IDTime"), ("settings validation", "pkg/flake/flake.go NewIDGenerator")], ["Decompose", "IDTime", "NewIDGenerator"])

# ---------------------------------------------------------------- schema
p("S01", "Listed tables match the database and the filter, on every call",
  "Listing tables returns exactly the user tables of the connected database (also partitioned and foreign ones; no views and none of the server's own) whose schema and name match the filters case-insensitively (all when a filter is empty), each once, sorted by full name, each with all its visible columns in ordinal order with name, type, nullability and maximal length (none for unlimited columns), its indexes with their key columns in key order, and its single-column primary key, whatever names are shared between schemas, tables, constraints and indexes. The result depends only on the database and the arguments of this call, not on earlier calls or calls running at the same time.",
  ["inputs", "histories"], "all catalogs up to the stated size (names without dots, every coincidence of names, types, nullability, index membership, row orders), all filters, every preceding call, both databases",
  "Tests need a live database with one fixed schema, or a mock of the interface.",
  ["schema/provider.go", "schema/postgres.go", "schema/sqlserver.go"], [("catalog reading", "schema/provider.go ListTables, readColumnsSchema, readIndexesSchema"), ("catalog queries", "schema/postgres.go, schema/sqlserver.go QueryTables, QueryColumns, QueryIndexes"), ("caches", "schema/provider.go SQLServerProvider")], ["Provider.ListTables"])

p("S02", "Listing with dependencies yields the complete foreign-key closure",
  "With dependencies requested, the result is exactly the matching tables plus every table reachable from them over foreign keys, each once, with each referencing column carrying its reference (one of them, when a column has several foreign keys); cycles and self-references terminate.",
  ["inputs", "histories"], "all foreign-key graphs over the stated number of tables, all filters, every map iteration order",
  "Tests use one fixed schema with a short chain.",
  ["schema/provider.go"], [("graph traversal", "schema/provider.go discover, discoverTable")], ["Provider.ListTables"])

p("S03", "Catalog faults are reported, never a partial catalog, and cursors are released",
  "If any catalog query, row iteration or scan fails while listing tables, views or foreign keys, the call returns an error and no result, never a partial catalog and never a crash, and all database cursors it opened are released on every path.",
  ["fault_sequences"], "a fault at every catalog query, row and scan position of catalogs up to the stated size",
  "No test injects catalog faults in the middle of iteration.",
  ["schema/provider.go"], [("error checks and cursor handling", "schema/provider.go")], ["Provider.List*"])

p("S04", "Catalog lookups treat schema and table names as data",
  "For every schema and table name the catalog queries select exactly the rows of that schema and table: names reach the database as data and never as SQL text, so a name containing quotes or SQL fragments cannot change the query.",
  ["inputs"], "all schema and table names up to the stated length, both supported databases",
  "Tests use plain names.",
  ["schema/postgres.go", "schema/sqlserver.go"], [("query parameters", "schema/postgres.go QueryColumns, QueryIndexes; schema/sqlserver.go same")], ["DB.QueryContext arguments"])

p("S05", "Views and foreign keys are listed completely and faithfully",
  "Listing views returns each matching user view (and no table) once, sorted, with exactly its visible columns in ordinal order (none of them, for a view without visible columns); listing foreign keys returns exactly the matching keys, every column reference of every key once, in database order with source and target schema, table and column unchanged, whatever names are shared between schemas, tables and constraints. Filters match schema and table name case-insensitively.",
  ["inputs"], "all catalogs up to the stated size in any row order and with every coincidence of names, all filters, both databases",
  "Tests use one fixed catalog.",
  ["schema/provider.go", "schema/postgres.go", "schema/sqlserver.go"], [("grouping and filtering", "schema/provider.go ListViews, ListForeignKeys"), ("catalog queries", "schema/postgres.go, schema/sqlserver.go QueryViews, QueryForeignKeys")], ["Provider.ListViews", "Provider.ListForeignKeys"])

p("S06", "Generated table metadata selects exactly its columns, in order",
  "Statements started from table metadata name that table, and selecting lists exactly the requested columns, or all columns of the table in declared order; with an alias every column is prefixed, and exactly the columns marked as nulled are replaced with NULL in place, so that every result column keeps its position. The metadata stays unchanged, and statements may be started from several goroutines at once.",
  ["inputs"], "all column lists, prefixes and null sets up to the stated sizes",
  "Tests use one table definition.",
  ["schema/schema.go"], [("column list construction", "schema/schema.go TableInfo")], ["TableInfo.Select", "AliasedColumns", "SelectAliased"])

# ---------------------------------------------------------------- generator, others
p("G01", "Generated field types can hold every value of their column",
  "For every supported column the generated field type has the kind and at least the width of the SQL type, and a nullable column always gets a type that can represent or absorb NULL. Identifier columns get identifier types of matching width, the choice depends only on the column and the configured overrides, and unsupported types are refused rather than guessed.",
  ["inputs", "configurations"], "all supported type names, nullability, name shapes and override sets",
  "Tests cover a selection of rows of the type table.",
  ["internal/cli/schema/types.go"], [("type mapping", "internal/cli/schema/types.go toGoType, isID, typeByColumnType")], ["generated model field types"])

p("E01", "Merging records never loses data that was set",
  "Merging a record into another sets every field that is set in the source to the source's value and leaves every field that is empty in the source unchanged, for every combination of fields and column types, and does not change the source.",
  ["inputs"], "all combinations of set and empty fields of every column type",
  "Tests merge two fixed records.",
  ["merge.go"], [("type-specific merge functions", "merge.go transformers")], ["Merge"])

p("N01", "Notifications are delivered once, in order, until the listener stops",
  "Every notification received for a listened channel is passed to the callback exactly once, in order, with its channel, raw payload and decoded payload (a payload that does not decode is still delivered raw). After the context ends or the listener is closed the background activity ends: it neither delivers, nor keeps running.",
  ["schedules", "histories"], "every interleaving of notifications, cancellation, closing and idle periods within the stated bound",
  "The tests need a live server and see one schedule.",
  ["pkg/notifier/listener.go"], [("delivery loop", "pkg/notifier/listener.go Listen, parsePayload")], ["Listen callback", "goroutine exit"])

p("M01", "Migration applies the requested version and reports every failure",
  "A migration run forces the version first if asked to, then migrates to the requested version or to the latest, reports success when there is nothing to do, and returns an error whenever any step fails; without a migrations folder it does nothing, and an unreadable folder or unsupported database is refused before anything is changed.",
  ["fault_sequences", "configurations"], "every combination of configuration and step outcome",
  "Tests run against a live database.",
  ["migrate/migrate.go"], [("step order", "migrate/migrate.go Migrate")], ["Migrate", "migration driver calls"])

p("U01", "Generated sources declare every table once, with its columns in one order",
  "For every listing of tables and views with supported column types, the generator produces sources that parse, in which every table has exactly one model with one field per kept column, a scan function that reads exactly these fields in the order of the columns, one metadata entry listing the same columns in the same order (with schema, name, primary key and indexes), one set of column definitions with the attributes of the columns, and one entry in the map of tables. A file for one schema declares only the tables of that schema. Overrides of names and types, dropped columns, views, package names, suffixes and cached properties apply to model and schema alike, the same input gives the same output, and a failure to list, to read the overrides or to write is reported.",
  ["inputs", "configurations", "fault_sequences"], "all column names and lengths up to the stated size, tables, schemas and option sets within the stated bounds, every failing operation",
  "Tests generate one schema and look for the header only.",
  ["internal/cli/schema/schema.go", "internal/cli/schema/template.go"], [("templates", "internal/cli/schema/template.go"), ("grouping, overrides and files", "internal/cli/schema/schema.go generate")], ["generated files"])

p("U02", "Printed schema listings contain every item once with its attributes",
  "Printing tables, indexes or foreign keys lists every item exactly once, in order, with all its attributes, in the table format as well as in JSON and YAML (which decode to the items), a value that cannot be encoded is reported, and the listing commands print what the schema provider lists for the given filters and report its failures.",
  ["inputs", "configurations"], "all texts, numbers and flags of up to the stated number of items in every format",
  "Tests print one sample.",
  ["pkg/print/print.go", "pkg/print/schema.go", "internal/cli/schema/schema.go"], [("table printers", "pkg/print/schema.go"), ("commands", "internal/cli/schema/schema.go Run")], ["printed text"])

p("U03", "Generated models read their tables' rows and carry paged results",
  "The generated packages are valid Go and refer to each other consistently: the metadata, the column definitions, the map of tables and the result types of one table all denote that table, with overrides applied. For every supported column type, scanning a row that the database driver delivers for the columns listed in the metadata puts every column's value into that column's field, with the empty value for NULL or for a column selected as NULL, and the fields of nullable types give the driver that value back; a row that cannot be read is reported with its cause. The generated result types hold the rows of a listing in order, whether there is a next page, its offset, and the cursor made from the last row.",
  ["inputs", "configurations"], "all column values of the stated column types and all patterns of NULLs, numbers of rows, limits and offsets within the stated bounds",
  "Tests only look for the header of the generated file; nothing compiles or runs it.",
  ["internal/cli/schema/template.go", "internal/cli/schema/types.go", "internal/cli/schema/schema.go", "types.go", "id.go", "query.go"],
  [("model templates", "internal/cli/schema/template.go codeModelTemplateText"), ("type mapping", "internal/cli/schema/types.go toGoType")], ["fields of scanned models", "SetResult", "SetResultWithCursor", "GetTableInfo"])

p("C01", "Commands use the requested source and database and report every failure",
  "The command line tool takes its SQL source from the option and, without one, from the environment, and refuses to run without either. Every command connects to the requested database of exactly that source, with the driver the source names, shares one connection however often it is asked for, and releases it on closing, which may be repeated. A failure of any operation of the server while connecting or listing is returned with nothing printed as a result, never taken for success; on success the requested output contains every listed item once.",
  ["inputs", "fault_sequences", "configurations"], "all options and sequences of uses within the stated bounds, and every failing operation of the server",
  "Tests run the commands against a mock schema provider or a live server, and see no failure.",
  ["internal/cli/cli.go", "internal/cli/schema/schema.go", "db.go", "prov.go"], [("command context", "internal/cli/cli.go AfterApply, DB, SchemaProvider, Close"), ("commands", "internal/cli/schema/schema.go Run")], ["Cli.DB", "Cli.SchemaProvider", "Cli.Close", "Run"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, (q["id"], len(q["title"]))
        f.write(json.dumps(q) + "\n")
print(len(P), "properties")
