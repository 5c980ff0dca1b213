P("P11", "No statement text crashes, hangs or corrupts the engine",
  "query_execute returns an outcome for every text: it never ends or blocks the process, touches memory it does not own or the text "
  "itself. A "
  "refused text has a message and changes nothing, one that yields rows changes nothing, an executed one changes at most one table "
  "by the reported number of rows; no lock stays taken and statements that follow work as before.",
  ["inputs", "programs"],
  "every NUL-terminated text: supported and unsupported SQL, damaged SQL, arbitrary bytes, deeply nested and very long statements",
  "tests contain a few dozen well-formed statements; the engine has some hundred internal assertions that end the process",
  ["src/engine/query.c", "src/parser/midorisql.y", "src/parser/midorisql.l", "src/parser/syntax.c", "src/parser/ast.c",
   "src/parser/ast_select.c", "src/parser/ast_insert.c", "src/parser/ast_update.c", "src/parser/ast_delete.c",
   "src/parser/ast_create.c", "src/parser/semantic_select.c", "src/engine/executor_select.c"],
  [("statement pipeline and its error paths", "query.c query_execute"), ("AST building with BUG_ON assertions", "parser/ast*.c"),
   ("semantic checks that have to refuse what the executor cannot do", "parser/semantic*.c")],
  ["status, message and rows of every statement", "all tables before and after", "how the process ended (ASan, UBSan, signals, CPU)"],
  technique="grammar-based and mutation fuzzing with ASan/UBSan and state invariants",
  note="Generated texts from a model of the whole grammar, damaged ones, token soup, random bytes and large ones; invariants on "
       "outcome, state, locks and later statements.")

P("P15", "Table storage keeps every row through schema changes",
  "The storage interface keeps exactly the rows inserted, updated and not deleted, with their values, NULLs and columns, through "
  "adding columns (existing rows read as zero or the empty string) and removing columns, deletes, updates and vacuum, and gives "
  "back all memory on destroy. Rows of another size, duplicate, unknown, zero-sized or too many columns and invalid table names "
  "are refused.",
  ["histories"],
  "every sequence of table_add_column, table_rem_column, table_insert_row, table_update_row, table_delete_row and table_vacuum",
  "tests add or remove a column on a few fixed layouts and never mix it with deletes, NULLs and vacuum",
  ["src/primitive/table.c", "src/primitive/column.c", "src/primitive/row.c", "src/primitive/datablock.c", "src/primitive/vacuum.c"],
  [("re-layout of rows on schema change", "column.c datablock_add_column / datablock_rem_column"),
   ("null bitmap shift", "column.c datablock_rem_column")],
  ["table storage read directly", "bytes allocated"], technique="stateful model-based testing of the storage interface",
  state=[("free_dtbkl_offset", "where the next row goes in the last page", "primitive/table.h struct table")])

P("P17", "The B-tree is an ordered map",
  "After any sequence of inserts of new keys, updates, removals and look-ups, a B-tree of any minimum degree holds exactly the "
  "expected pairs: look-ups find them, an in-order walk visits them in key order, every node but the root has between t-1 and "
  "2t-1 keys, all leaves are equally deep, and destroy gives back all memory.",
  ["histories"],
  "every minimum degree, integer or string keys, every sequence of operations on distinct keys",
  "tests insert and remove one fixed sequence of integers at one degree",
  ["src/datastructure/btree.c", "include/datastructure/btree.h"],
  [("node splitting", "btree.c btree_split_child"), ("borrowing and merging on removal", "btree.c btree_node_fill")],
  ["btree_lookup", "walk over the nodes"], technique="stateful model-based testing against a dict, with structural invariants")

P("P18", "The hash table is a map, whatever the hash",
  "After any sequence of put, get and remove, a hash table holds exactly the expected pairs: put adds a new key and refuses one "
  "that is present (keeping its value), get and remove find exactly the keys that are present, iteration visits each pair once and "
  "count is right - through growth, and with hash functions that collide.",
  ["histories"],
  "every sequence of operations, key and value lengths, string or binary keys, good and degenerate hash functions",
  "tests use a dozen keys with one hash function",
  ["src/datastructure/hashtable.c", "include/datastructure/hashtable.h", "src/datastructure/linkedlist.c"],
  [("growth with rehashing", "hashtable.c hashtable_resize"), ("bucket lists", "hashtable.c hashtable_put")],
  ["results of put/get/remove", "hashtable_foreach", "count"], technique="stateful model-based testing against a dict")

P("P19", "Vector, queue, stack and list keep order and content",
  "A vector is the concatenation of what was pushed since it was cleared; a queue gives elements back first in first out, a stack "
  "last in first out, a linked list in both directions in the order of insertion, also after removal while iterating; lengths, "
  "emptiness and peeks at every position agree, contents are copies, and all memory is given back.",
  ["histories"],
  "every sequence of operations with elements of every size",
  "tests push a few elements of one size",
  ["src/datastructure/vector.c", "src/datastructure/queue.c", "src/datastructure/stack.c", "src/datastructure/linkedlist.c"],
  [("growth of the vector", "vector.c vector_push"), ("shift on poll", "queue.c queue_poll")],
  ["return values and contents after every operation"], technique="stateful model-based testing against a list")

P("P20", "Bit, string and regex helpers compute what they say",
  "bit_set/clear/toggle change exactly the given bit of a field and bit_test reads it; strstarts is the prefix relation; strrand "
  "yields a terminated alphanumeric string of the requested length; regex_ext_match_grp yields the text of every group in order or "
  "reports that nothing matched, leaving the caller's stack alone.",
  ["inputs"],
  "every field, bit, pair of strings, length, and pattern of literals and groups that all take part in a match",
  "tests look at single bytes and a few strings",
  ["src/lib/bit.c", "src/lib/string.c", "src/lib/regex.c"],
  [("bit addressing", "bit.c"), ("group extraction", "regex.c regex_ext_match_grp")],
  ["return values", "contents of the field or stack"], technique="property-based testing against independent implementations")

P("P21", "Threads on separate databases or tables do not interfere",
  "Statements executed at the same time by several threads behave as if each thread ran alone, when every thread uses a database "
  "of its own, or when all use one database whose set of tables does not change and no table written by one thread is used by "
  "another. There are no data races, lost rows, corrupted results or locks left taken.",
  ["schedules", "histories"],
  "every set of 2-6 threads with histories of that kind and every schedule the machine produces",
  "tests are single threaded",
  ["src/parser/syntax.c", "src/parser/midorisql.l", "src/parser/midorisql.y", "src/engine/query.c", "src/primitive/datablock.c",
   "src/engine/database.c", "src/parser/ast.c"],
  [("reentrant scanner and parser", "syntax.c syntax_parse"), ("no shared mutable state between statements", "whole engine"),
   ("database lock around CREATE", "executor_create.c")],
  ["results per thread", "all tables at the end", "ThreadSanitizer reports"],
  technique="generated concurrent histories under ThreadSanitizer/AddressSanitizer against a per-thread model",
  note="Races are found by ThreadSanitizer independent of the timing of the access pair as long as both accesses run in the case; "
       "schedules are those the kernel produces (8 cores, common start barrier), not enumerated.")

P("P22", "Spelling does not change the meaning of a statement",
  "A statement means the same whatever the letter case of its keywords, the whitespace and comments between its tokens, the "
  "equivalent spellings of operators, types and literals, quoted names and redundant parentheses: same outcome, rows and effect.",
  ["inputs", "programs"],
  "every supported statement and every combination of alternative spellings of it",
  "tests write every statement in one spelling",
  ["src/parser/midorisql.l", "src/parser/midorisql.y"],
  [("tokens and comments", "midorisql.l"), ("grammar alternatives", "midorisql.y")],
  ["outcome and table contents against the model of the plain spelling"],
  technique="metamorphic property-based testing: re-spelled statements against the reference model")

P("P23", "Statements are parsed by the precedence of SQL",
  "The parser turns every expression and statement of the grammar into the operator sequence given by SQL precedence and "
  "associativity (OR < XOR < AND < IN, IS, LIKE < comparisons < + - < * / % < unary minus), parentheses override it, literals "
  "arrive with their exact value, and clauses keep their order and counts.",
  ["inputs", "programs"],
  "every expression tree over the operators of the grammar, in every clause of SELECT, INSERT, UPDATE, DELETE and CREATE",
  "tests parse a fixed list of statements with few operators each",
  ["src/parser/midorisql.y", "src/parser/midorisql.l", "src/parser/syntax.c"],
  [("operator precedence", "midorisql.y %left declarations"), ("emitted operator queue", "midorisql.y emit()")],
  ["output of syntax_parse"], technique="generated expression trees printed as SQL with and without redundant parentheses, compared with the tree")

P("P26", "A statement that runs out of memory is refused without a trace",
  "When an allocation fails after a statement has been parsed, at whatever point and however many, the statement is refused with a message (or "
  "gives its full answer all the same): contents, catalogue, memory in use and locks stay as they were, the process goes on, and the "
  "same statement does its full work once memory is there.",
  ["fault_sequences", "inputs", "histories"],
  "every supported or refusable statement, after every history, with every single allocation of it failing, alone or with all later ones",
  "no test makes an allocation fail",
  ["src/engine/executor_insert.c", "src/engine/executor_select.c", "src/engine/executor_update.c", "src/engine/executor_delete.c",
   "src/engine/executor_create.c", "src/engine/optimiser_select.c", "src/engine/optimiser_insert.c", "src/parser/ast_select.c",
   "src/parser/ast_insert.c", "src/primitive/table.c", "src/primitive/column.c", "src/datastructure/vector.c"],
  [("rows of an INSERT taken back", "executor_insert.c undo_inserts"), ("error paths that free what was built", "goto err labels everywhere")],
  ["status and message", "all tables, locks and bytes allocated before and after"],
  technique="fault injection: generated statements repeated with every allocation failing, against the reference model",
  note="The library is compiled with its allocation functions replaced by ones that fail on demand. Allocations of the generated "
       "scanner and parser and those inside libc never fail.")

P("P27", "Building blocks survive failed allocations",
  "When an allocation fails inside a building block - table storage, B-tree, hash table, vector, queue, stack, regex helper - the "
  "operation reports it (or does its work all the same), what was stored is kept unchanged, and no memory is lost. Everything that "
  "follows works as if the failed attempts had not been made.",
  ["fault_sequences", "histories"],
  "every sequence of operations with every single allocation of initialising, adding a column, inserting, putting, pushing or matching "
  "failing, alone or with all later ones",
  "no test makes an allocation fail; a comment in table_insert_row asks for it",
  ["src/primitive/row.c", "src/primitive/column.c", "src/primitive/table.c", "src/datastructure/btree.c", "src/datastructure/hashtable.c",
   "src/datastructure/vector.c", "src/datastructure/queue.c", "src/datastructure/stack.c", "src/lib/regex.c"],
  [("row taken back when one of its strings cannot be stored", "row.c table_insert_row err"),
   ("growth that is given up without harm", "hashtable.c hashtable_resize"), ("split of a node before anything is moved", "btree.c btree_split_child")],
  ["results of the operations", "contents before and after", "bytes allocated"],
  technique="fault injection into stateful model-based testing of the building blocks",
  note="The sequences of the component checks, each allocating operation repeated with its k-th allocation failing until it "
       "needs no more. Removals from the B-tree and libc's allocations are not made to fail.")

P("P28", "The catalogue holds any number of tables",
  "A database keeps any number of tables, whatever their names: every created table is found under its exact name and no other, a "
  "second CREATE of a name is refused without harm, and each statement acts on the table it names - also when names differ only "
  "in case, length, or their last character, and after the catalogue has grown many times.",
  ["inputs", "histories"],
  "every set of table names and every history of statements over them",
  "tests create a handful of tables with ordinary names",
  ["src/engine/database.c", "src/engine/executor_create.c", "src/datastructure/hashtable.c"],
  [("lookup by name", "database.c database_table_exists/database_table_get"), ("growth of the catalogue", "hashtable.c hashtable_resize")],
  ["outcome of every statement", "contents of every table at the end"],
  technique="stateful model-based property-based testing with colliding and near-equal names",
  note="Names of up to 127 characters; 8 to 300 tables per database.")
