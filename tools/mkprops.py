#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the definitions below."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def P(id, title, statement, over, quant, why, files, mech, observe, technique=None, note=None, state=None):
    PROPS.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why,
                       anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                                    **({"state": [dict(name=n, meaning=m, where=w) for n, m, w in state]} if state else {}),
                                    observe_at=observe, hook_needed=None)), technique, note))


TRUST = (" Trusted: the Python reference model, the clang/ASan/UBSan toolchain and libc. Generated-input search: shows the "
         "presence of counterexamples, never their absence outside of what was generated.")

P("P01", "INSERT stores exactly the given rows",
  "An accepted INSERT adds exactly the listed rows to its table, each column holding the literal given for it (bit for bit, "
  "whatever the order of the column list) and NULL where none was given. Rows and tables that were already there stay as they "
  "were, and the reported number of rows is the number added.",
  ["inputs", "histories"],
  "every schema of 1-128 columns of the six types, every list of rows of fitting literals, every column list, after any prior inserts",
  "tests insert a few rows with one or two literals per type into small schemas; page boundaries, wide rows, extreme literals "
  "and column permutations are not sampled",
  ["src/engine/executor_insert.c", "src/engine/optimiser_insert.c", "src/parser/ast_insert.c", "src/parser/semantic_insert.c",
   "src/primitive/table.c", "src/primitive/row.c"],
  [("literal to row buffer", "executor_insert.c executor_run_insertvals_stmt"), ("copy of the row and its strings into a page",
   "table.c table_insert_row")], ["table storage read directly", "SELECT *"],
  state=[("datablock list", "pages that hold the rows of a table", "primitive/table.h struct table.datablock_head"),
         ("null_bitmap", "which columns of a row are NULL", "primitive/row.h struct row")])

P("P02", "Arithmetic in INSERT values is exact, and refused when it overflows",
  "An expression in VALUES is evaluated with the usual precedence, associativity and parentheses, in 64-bit integers or IEEE "
  "doubles, and the stored value is its exact result. Division by zero gives NULL (subject to NOT NULL); an integer result out "
  "of range and a mix of types is refused.",
  ["inputs", "programs"],
  "every expression tree of literals of one numeric type with + - * / % and unary minus, nested to any depth the statement allows",
  "tests evaluate a handful of small expressions with small operands",
  ["src/engine/optimiser_insert.c", "src/parser/semantic_insert.c", "src/parser/ast_insert.c", "src/parser/midorisql.y"],
  [("constant folding", "optimiser_insert.c"), ("operator precedence", "midorisql.y %left declarations")],
  ["table storage read directly"])

P("P03", "DELETE removes exactly the rows its condition selects",
  "A DELETE removes every row for which its condition is true and no other row, reports their number, and leaves the rest of "
  "the database unchanged. A comparison with a NULL operand is not true.",
  ["inputs", "histories"],
  "every table content (holes and several pages included) and every condition built from comparisons, IN, IS NULL, AND, OR, XOR",
  "tests delete with one or two conditions from one page of a few rows",
  ["src/engine/executor_delete.c", "src/parser/ast_delete.c", "src/parser/semantic_delete.c", "src/engine/executor.c"],
  [("evaluation of conditions on a row", "executor.c / executor_delete.c"), ("tombstoning a row", "table.c table_delete_row")],
  ["table storage read directly", "number of affected rows"])

P("P04", "UPDATE changes exactly the assigned columns of the selected rows",
  "An UPDATE sets the assigned columns of every row for which its condition held before the statement to the given values and "
  "changes nothing else, reporting the number of rows. Values that do not fit (type, size, NOT NULL) make it refused as a whole.",
  ["inputs", "histories"],
  "every table content, set of assignments (NULL, strings of every fitting length) and condition",
  "tests update one or two columns of a few rows with small values",
  ["src/engine/executor_update.c", "src/parser/ast_update.c", "src/parser/semantic_update.c", "src/primitive/table.c"],
  [("rebuilding the row", "executor_update.c"), ("replacing a row and its strings", "table.c table_update_row")],
  ["table storage read directly", "number of affected rows"])

P("P05", "A single-table SELECT returns exactly the matching rows",
  "A SELECT over one table returns, as a multiset, exactly the rows for which its condition is true, restricted to the "
  "requested columns with their stored values and types. Names may be qualified, unqualified or aliased without changing the "
  "result, COUNT(*) returns their number, and no SELECT changes any table.",
  ["inputs", "histories"],
  "every table content, column subset, alias and condition over comparisons, IN, IS NULL, AND, OR, XOR",
  "tests select from one page of a few rows with a few fixed conditions",
  ["src/engine/executor_select.c", "src/engine/optimiser_select.c", "src/parser/ast_select.c", "src/parser/semantic_select.c"],
  [("filtering of the working rows", "executor_select.c where clause"), ("projection", "executor_select.c / optimiser_select.c"),
   ("resolution of names", "optimiser_select.c")], ["result set columns and rows through the cursor"])

P("P06", "Joins return exactly the matching combinations of rows",
  "A SELECT over several tables, listed with commas and/or joined with JOIN ... ON, returns as a multiset exactly the "
  "combinations of their rows that satisfy every ON condition and the WHERE condition, with the requested columns. Each "
  "combination carries the values of the rows it was made from.",
  ["inputs"],
  "2-4 tables of any content, every mixture of comma lists and a JOIN chain, every ON/WHERE condition, projection, alias and grouping",
  "tests join two or three tables of a few rows with equality conditions",
  ["src/engine/executor_select.c", "src/parser/semantic_select.c", "src/engine/optimiser_select.c"],
  [("building the cross product", "executor_select.c _join_nested_loop / merge of tables"), ("evaluating ON", "executor_select.c")],
  ["result set columns and rows through the cursor"])

P("P07", "GROUP BY forms one group per distinct key with its true count",
  "A grouped SELECT returns exactly one row for each distinct combination of the grouped columns among the selected rows "
  "(NULLs being one value), and COUNT(*) is the number of rows of that group. COUNT(*) without grouping is the number of "
  "selected rows, 0 included.",
  ["inputs"],
  "every table content, every list of 1-3 grouping columns of all types, with or without a condition",
  "tests group a few rows by one column",
  ["src/engine/executor_select.c", "src/parser/semantic_select.c", "src/engine/optimiser_select.c"],
  [("grouping pass", "executor_select.c group by"), ("counting pass", "executor_select.c count")],
  ["result set columns and rows through the cursor"])

P("P08", "An invalid statement is refused with a message and changes nothing",
  "A statement that names unknown tables or columns, gives a wrong number, type or size of values, breaks NOT NULL, compares "
  "incompatible types or is not valid SQL is refused with a non-empty message, whichever part of it is wrong. A refused "
  "statement leaves every table and the list of tables as they were, also when earlier rows of it were fine.",
  ["inputs", "histories"],
  "every statement that has exactly one fault, at every position, over every prior database content",
  "tests cover some faults, in the first row or only value, and mostly look at the semantic pass rather than at the data",
  ["src/parser/semantic.c", "src/parser/semantic_insert.c", "src/parser/semantic_select.c", "src/parser/semantic_update.c",
   "src/parser/semantic_delete.c", "src/parser/semantic_create.c", "src/engine/query.c"],
  [("semantic analysis before execution", "semantic_*.c"), ("error propagation", "query.c query_execute")],
  ["status and message of the statement", "table storage read directly"])

P("P09", "CREATE TABLE defines exactly the stated schema",
  "After an accepted CREATE TABLE the database holds a table of that name with the stated columns in order, with their types, "
  "sizes, nullability and key/unique/auto-increment/index marks. Creating an existing table is refused, or ignored with IF NOT "
  "EXISTS, and every other table stays as it was.",
  ["inputs", "histories"],
  "every list of 1-128 column definitions with all attributes and table-level key lists, over any set of existing tables",
  "tests create a few tables with a few attributes",
  ["src/parser/ast_create.c", "src/parser/semantic_create.c", "src/engine/executor_create.c", "src/engine/database.c",
   "src/primitive/column.c"],
  [("column definition parsing", "ast_create.c"), ("table registration", "database.c database_table_add")],
  ["schema of the stored table", "set of tables"])

P("P10", "Equivalent conditions and all statement kinds agree on what is selected",
  "SELECT, COUNT(*), GROUP BY counts, DELETE and UPDATE with the same condition on the same data pick the same rows. Rewriting "
  "the condition into an equivalent one (operands or comparison swapped, IN as a chain of equalities, distribution) does not "
  "change the selection, and complementary conditions partition the non-NULL rows.",
  ["inputs", "programs"],
  "every table content, condition and equivalence-preserving rewriting of it",
  "each statement kind has its own evaluator and tests look at them one by one with fixed conditions",
  ["src/engine/executor_delete.c", "src/engine/executor_update.c", "src/engine/executor_select.c", "src/engine/executor.c"],
  [("one evaluator per statement kind", "executor_{delete,update,select}.c")],
  ["rows, counts and affected rows of the statements"], technique="metamorphic testing over generated tables and conditions")

P("P12", "No statement leaks memory",
  "The memory in use after a database is closed does not depend on how many statements of which kind were executed on it, "
  "accepted or refused. Repeating read-only statements does not raise memory use.",
  ["histories"],
  "every history of accepted, refused and syntactically invalid statements and held results",
  "tests never measure memory, and leaks depend on the path through parser, analysis, optimiser and executor a statement takes",
  ["src/engine/query.c", "src/parser/ast.c", "src/engine/executor_select.c", "src/primitive/table.c", "src/engine/database.c"],
  [("release of the syntax tree", "ast.c ast_free"), ("release of tables", "table.c table_destroy"), ("release of results", "query.c query_free")],
  ["heap bytes in use reported by the allocator"], technique="stateful property-based testing, heap-use invariant over repeated histories")

P("P13", "The result cursor delivers every row exactly once",
  "Stepping through a result set delivers every row exactly once, whatever number of rows and pages it has, and then reports "
  "the end of data on that and every later step. Reading an integer column of the current row returns its value.",
  ["inputs", "histories"],
  "every result size (empty, one page, many pages, holes) and every division of the steps",
  "tests step through results of a few rows in one page, never past the end",
  ["src/engine/query.c", "src/engine/executor_select.c"],
  [("cursor movement", "query.c query_cur_step"), ("column access", "query.c query_column_int64")],
  ["values returned by the cursor functions"])

P("P14", "A result set is a snapshot",
  "The rows of a result set are those of the moment the SELECT ran: later inserts, updates, deletes, vacuums or closing the "
  "database do not change them. Producing and reading it does not change any table.",
  ["histories"],
  "every history in which results are kept open while other statements run, in any order of reading and releasing",
  "tests read a result right after the SELECT",
  ["src/engine/executor_select.c", "src/primitive/table.c", "src/engine/query.c"],
  [("copying rows and strings into the result table", "executor_select.c / table.c")],
  ["result set rows through the cursor", "table storage read directly"])

P("P16", "Vacuum removes dead rows and loses no live one",
  "Vacuuming a table leaves exactly the live rows it had, with their values, and no deleted row remains stored. The table stays "
  "fully usable afterwards.",
  ["histories"],
  "every pattern of inserts, updates, deletes and vacuums over one or several pages",
  "tests vacuum one fixed pattern",
  ["src/primitive/table.c", "src/primitive/datablock.c"],
  [("rewriting the pages", "table.c table_vacuum")],
  ["table storage read directly"])

P("P24", "Histories of mixed statements behave like a relational database",
  "After any sequence of accepted and refused statements, every table holds exactly the rows a reference database would hold, "
  "and every statement's outcome and result is that of the reference database.",
  ["histories"],
  "every sequence of CREATE, INSERT, UPDATE, DELETE, SELECT, GROUP BY, join and vacuum over several tables",
  "tests run one or two statements per database",
  ["src/engine/query.c", "src/engine/database.c", "src/primitive/table.c", "src/engine/executor.c"],
  [("statement pipeline", "query.c query_execute"), ("storage", "table.c")],
  ["outcome of every statement", "table storage read directly"], technique="stateful model-based testing against a reference model")

P("P25", "Statements affect only the table and database they name",
  "A statement executed on one database affects only the table it names: every other table of that database and every other "
  "open database, also with equal table names, stays as it was. Closing one database does not affect the others.",
  ["histories"],
  "every interleaving of statements over several databases and tables of one process, with closing and reopening",
  "tests open one database at a time",
  ["src/engine/database.c", "src/engine/query.c", "src/datastructure/hashtable.c"],
  [("table registry of a database", "database.c database_table_*")],
  ["table storage of all databases read directly"], technique="stateful model-based testing over several databases")

DEFAULT_TECH = "model-based property testing: generated statements and histories against a reference model"
DEFAULT_NOTE = ("Thousands (quick) to hundreds of thousands (thorough) of generated cases, each judged row by row against an independent "
                "reference model with the code under ASan/UBSan.")

exec(open(os.path.join(V, "tools", "props_more.py")).read()) if os.path.exists(os.path.join(V, "tools", "props_more.py")) else None

PROPS.sort(key=lambda p: p[0]["id"])
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p, _, _ in PROPS:
        f.write(json.dumps(p) + "\n")
man = {"version": 1, "setup_cmd": "python3 -m pbt.build asan tsan", "checks": [], "not_applicable": [],
       "notes": "Every check rebuilds the code from /repo's working tree into /verif/build (git-ignored) and runs generated "
                "cases in forked processes. No hooks in /repo are used."}
for p, tech, note in PROPS:
    man["checks"].append({"property": p["id"], "quick_cmd": "python3 -m pbt.run %s quick" % p["id"],
                          "thorough_cmd": "python3 -m pbt.run %s thorough" % p["id"],
                          "technique": tech or DEFAULT_TECH, "level": "exploration",
                          "level_note": (note or DEFAULT_NOTE) + TRUST})
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
