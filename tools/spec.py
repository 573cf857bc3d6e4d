#!/usr/bin/env python3
"""Writes properties.jsonl, bounds.json and MANIFEST.json (all committed)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PARSER = ["sql/parser_impl.go", "sql/parser/sqlite/parser_antlr.go", "sql/parser/sqlite/parser_antlr_error_listener.go", "sql/parser/sqlite/parser_antlr_visitor.go"]
TESTS = "The tests parse a fixed list of query files and compare the printed text, ignoring letter case, or check that printing is idempotent; "
P = []
GEN = "the statement is generated together with its meaning (a description of what is written), and the parts of the parsed statement are compared with that description"
MODEL = "a small reference model in the harness that is run beside the code"
ORACLE = {
 "P01": "totality: an answer of one of the two forms, no panic, within the step bound", "P02": "field-by-field equality of the first and the re-parsed statement, and of a third round",
 "P03": GEN, "P04": GEN, "P05": GEN, "P06": GEN, "P07": GEN, "P08": GEN, "P09": GEN,
 "P10": "the string the literal was written from", "P11": "the parameter values themselves, read back from the parsed statement",
 "P12": GEN, "P13": "the answer of a fresh parser", "P14": "an error and no statement",
 "S15": MODEL, "S16": "a linear search in the harness", "S17": "conversion specified in the harness with integer and float comparisons", "S18": "a table of types and names in the harness",
 "F19": MODEL, "F20": MODEL, "F21": "the single aggregates, and a reference model", "F22": "IEEE terms for the exact functions, the uninterpreted library function for the others", "F23": "a table of names and types in the harness",
 "R24": "the window computed with integers in the harness", "R25": "the values given", "R26": MODEL, "I27": "the names and schemas given", "N28": MODEL,
 "N29": "the results of the two sequential orders; vector clocks for races", "N30": MODEL, "E31": "errors.Is against all sentinels, and the name itself", "E32": "the SQLSTATE table of the documentation copied into the harness",
 "S33": "the names given, compared without letter case", "U34": MODEL, "B35": "the parts the statement was made of, compared with the parts of the parsed text", "C36": "each goroutine's own expected result; vector clocks for races",
 "K37": "tables of kinds and names in the harness", "R38": "the columns given; a linear search in the harness",
}

def prop(id, title, statement, over, text, why, files, mech, bounds):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, bounds=bounds, oracle=ORACLE[id]))

prop("P01", "Every text gets an answer",
 "Parsing any text ends and returns either an error with no statements, or at least one statement and no error; it never panics. "
 "Every statement returned has a type, prints as non-empty text, and all of its accessors can be called.",
 ["inputs"], "all texts (well formed, cut off, with tokens replaced or inserted, or arbitrary characters)",
 TESTS + "almost all of them are well formed, so the error paths of the parser and of the tree walk are hardly reached.",
 PARSER, [("tree walk and error collection", "sql/parser/sqlite")],
 "12 statement shapes with one token replaced by, or one inserted from, a vocabulary of 52 tokens at every place; every prefix of them with symbolic names (2 chars), digits and strings; every text of one printable character; every text of 2-3 (thorough 4) characters over [a1' ;-/*(\"] and every tail of 0-2 (3) characters over [a1' ;-/*().,=] after 4 statement heads. About 200 further forms of the grammar (list moreForms in harness/props/p_more2.go), alone and in sequences, with every accessor called. Longer arbitrary texts are outside.")
prop("P02", "A printed statement parses back to the same statement",
 "The text a parsed statement prints as is accepted by the parser and gives a statement with the same tables, columns, values, conditions, order, limit and options. "
 "This holds again for the text that one prints, for every supported statement: SELECT, INSERT, UPDATE, DELETE, CREATE/ALTER/DROP of tables, databases and indexes, and the transaction and utility statements.",
 ["inputs", "programs"], "all supported statements within the grammar, with arbitrary unquoted names, numbers and string values",
 TESTS + "they accept a print that loses a clause as long as printing it again gives the same text.",
 ["sql/query"] + PARSER, [("String methods of the statements", "sql/query"), ("escaping of string values", "sql/util/strings")],
 "the statement generators of harness/props/gen*.go: one name of 1-2 symbolic characters (others 2), strings of 0-2 printable ASCII characters, numbers of 1-3 digits, up to 3 columns, 2 rows, 2 comparisons, 3 tables. Two rounds of print and parse. Also one fully symbolic name of 3-8 (thorough 12) characters in each place, names with prefixes of 64 and 256 characters, lists of 4 to 65 (130) entries with one symbolic name or literal at the start, middle or end, all kinds of literals (signs, points, exponents, hexadecimal, booleans, NULL, placeholders, current times) and numbers up to 2^64-1. Names are printed without quotes, so names that need quotes are outside. Also lists with equal entries in every combination of 2-4 places. Also operands of arithmetic, calls of every function, keys and columns in any order, untyped columns, named values and the optional words of transactions.")
prop("P03", "A SELECT means what is written",
 "A parsed SELECT has exactly the selectors, tables, WHERE comparisons, GROUP BY column, ORDER BY terms and LIMIT/OFFSET written, each in the order written, and none that is not written. "
 "An ORDER BY term without direction is ascending, LIMIT m, n and LIMIT n OFFSET m mean the same, and functions keep their name and arguments.",
 ["inputs", "programs"], "all SELECT statements with one GROUP BY column, up to two comparisons joined by AND or OR and a positive limit; arbitrary names and literals",
 TESTS + "no test looks at the parts of a parsed SELECT.",
 ["sql/parser/sqlite/parser_antlr_visitor.go", "sql/query/select.go", "sql/query/selector.go", "sql/query/order.go", "sql/query/limit.go", "sql/query/expr.go"],
 [("visitor that builds SELECT", "sql/parser/sqlite/parser_antlr_visitor.go")],
 "1-3 selectors of 9 kinds, 1-3 tables (qualified or not), 0-2 comparisons with 7 operators and 6 kinds of literals, 0-2 orders, limits of 1-3 digits; one symbolic name of 1-2 characters, strings of 0-2 printable ASCII characters. Outside: LIMIT 0, several GROUP BY columns, DISTINCT, HAVING, UNION, JOIN. Also one fully symbolic name of 3-8 (thorough 12) characters in each place, names with prefixes of 64 and 256 characters, lists of 4 to 65 (130) entries with one symbolic name or literal at the start, middle or end, quoted table and column names in tables and comparisons, all kinds of literals, every pair of operators on the same or different columns, limits up to 2^64-1. Also lists with equal entries in every combination of 2-4 places. Also every function with every kind and number of arguments; selectors that are expressions, qualified names in every clause, table aliases (not recorded) and numbers written in several ways. Keywords in four other letter cases.")
prop("P04", "An INSERT means what is written",
 "A parsed INSERT has the table written and one row per VALUES group, in order; each row has one value per column, under the name of its column - from the column list or, without one, from the value as in VALUES (a = 1) - and each value is the literal written with its kind: string, number, boolean or NULL.",
 ["inputs", "programs"], "all INSERT statements with a column list or named values and literal or placeholder values",
 TESTS + "only the printed text of a few rows is compared.",
 ["sql/parser/sqlite/parser_antlr_visitor.go", "sql/query/insert.go", "sql/query/column.go", "sql/query/literal.go"],
 [("visitor that builds INSERT", "sql/parser/sqlite/parser_antlr_visitor.go")],
 "1-3 columns, 1-3 rows, all kinds of literals in rotation, names of 1-3 symbolic characters, strings of 0-2 printable ASCII characters, numbers of 1-2 digits with sign, point and exponent. Also one fully symbolic name of 3-8 (thorough 12) characters in each place, names with prefixes of 64 and 256 characters, lists of 4 to 65 (130) entries with one symbolic name or literal at the start, middle or end, quoted names of 0-2 characters, all kinds of literals. Also lists with equal entries in every combination of 2-4 places. The named form VALUES (a = 1, b = 2) with 1-3 columns, 1-3 rows, and up to 65 columns. Keywords in four other letter cases.")
prop("P05", "An UPDATE means what is written",
 "A parsed UPDATE has the table written, one assignment per SET term in order with the literal written, or the arithmetic on a column written with its operator and operands in order, and exactly the WHERE comparisons written.",
 ["inputs", "programs"], "all UPDATE statements with literal or single arithmetic assignments and up to two comparisons",
 TESTS + "only the printed text is compared.",
 ["sql/parser/sqlite/parser_antlr_visitor.go", "sql/query/update.go", "sql/query/column.go", "sql/query/where.go"],
 [("visitor that builds UPDATE", "sql/parser/sqlite/parser_antlr_visitor.go")],
 "1-3 assignments, all kinds of literals, 5 arithmetic operators, 0-2 comparisons; symbolic names of 1-3 characters. Also one fully symbolic name of 3-8 (thorough 12) characters in each place, names with prefixes of 64 and 256 characters, lists of 4 to 65 (130) entries with one symbolic name or literal at the start, middle or end, quoted names, all kinds of literals, every pair of operators on the same or different columns; arithmetic is executed on symbolic and fixed rows. Also lists with equal entries in every combination of 2-4 places. The right operand of an arithmetic is the same or another column, a literal of any kind or an expression. Keywords in four other letter cases.")
prop("P06", "A DELETE means what is written",
 "A parsed DELETE has the table written and exactly the WHERE comparisons written: the column, operator and literal of each, joined by AND or OR as written, and no condition when none is written.",
 ["inputs", "programs"], "all DELETE statements with up to two comparisons",
 TESTS + "only the printed text is compared; a lost condition would delete every row.",
 ["sql/parser/sqlite/parser_antlr_visitor.go", "sql/query/delete.go", "sql/query/where.go", "sql/query/expr.go"],
 [("visitor that builds WHERE", "sql/parser/sqlite/parser_antlr_visitor.go")],
 "qualified or plain table, 0-2 comparisons with all operators and kinds of literals; names of 1-2 symbolic characters, strings of 0-2. Also one fully symbolic name of 3-8 (thorough 12) characters in each place, names with prefixes of 64 and 256 characters, lists of 4 to 65 (130) entries with one symbolic name or literal at the start, middle or end, quoted names, all kinds of literals, every pair of operators on the same or different columns. Also lists with equal entries in every combination of 2-4 places. Keywords in four other letter cases.")
prop("P07", "A CREATE TABLE means what is written",
 "A parsed CREATE TABLE has the table and IF NOT EXISTS as written, one column per definition in order with its name, type and size, and one index per PRIMARY KEY, KEY or INDEX definition with its name, kind and columns in order. Keywords and type names may be written in any letter case.",
 ["inputs", "programs"], "all CREATE TABLE statements with the supported column types",
 TESTS + "only the printed text of a few tables is compared, not the schema.",
 ["sql/parser/sqlite/parser_antlr_visitor.go", "sql/query/create_table.go", "sql/query/schema.go", "sql/query/data_type.go", "sql/query/index.go"],
 [("visitor that builds the schema", "sql/parser/sqlite/parser_antlr_visitor.go")],
 "1-3 columns over all supported types with and without a size of 1-3 digits, 7 forms of keys; one name of 1-2 symbolic characters. Outside: two-number sizes, BINARY, NOT NULL, UNIQUE and DEFAULT, columns named by the words PRIMARY, KEY, UNIQUE, INDEX, CONSTRAINT. Also one fully symbolic name of 3-8 (thorough 12) characters in each place, names with prefixes of 64 and 256 characters, lists of 4 to 65 (130) entries with one symbolic name or literal at the start, middle or end, quoted names, sizes up to 2^63-1, primary keys at any column and several keys together. Also lists with equal entries in every combination of 2-4 places. A primary key among other constraints of a column; keys before, between and after the columns they name; columns without a type. Keywords in four other letter cases.")
prop("P08", "ALTER TABLE and index statements mean what is written",
 "A parsed ALTER TABLE has exactly the one change written - a column added, dropped or renamed, the table renamed, an index added - with its names, type and columns, and reports no other change. "
 "CREATE INDEX and DROP INDEX have the index, table, columns and IF clauses written, and turn into an alteration of the same table with the same index.",
 ["inputs", "programs"], "all ALTER TABLE, CREATE INDEX and DROP INDEX statements in the supported forms",
 TESTS + "the alterations themselves are never read.",
 ["sql/parser/sqlite/parser_antlr_visitor.go", "sql/query/alter_table.go", "sql/query/alter_table_from.go", "sql/query/create_index.go", "sql/query/drop_index.go"],
 [("visitors of ALTER TABLE and index statements", "sql/parser/sqlite/parser_antlr_visitor.go")],
 "8 forms of ALTER TABLE, all column types, 1-4 index columns; symbolic names of 1-4 characters. Also one fully symbolic name of 3-8 (thorough 12) characters in each place, names with prefixes of 64 and 256 characters, lists of 4 to 65 (130) entries with one symbolic name or literal at the start, middle or end, quoted names. Also lists with equal entries in every combination of 2-4 places. Columns added with constraints or without a type. Keywords in four other letter cases.")
prop("P09", "Database, transaction and utility statements mean what is written",
 "CREATE, DROP and ALTER DATABASE, DROP TABLE, TRUNCATE, USE, BEGIN, COMMIT, ROLLBACK, COPY and VACUUM parse to the statement of their kind with the names, lists, options and IF clauses written, in order.",
 ["inputs", "programs"], "all statements of these kinds in the supported forms",
 TESTS + "only the printed text is compared.",
 ["sql/parser/sqlite/parser_antlr_visitor.go", "sql/query"], [("visitors of these statements", "sql/parser/sqlite/parser_antlr_visitor.go")],
 "15 forms, lists of 1-4 tables; symbolic names of 1-3 characters. Also one fully symbolic name of 3-8 (thorough 12) characters in each place, names with prefixes of 64 and 256 characters, lists of 4 to 65 (130) entries with one symbolic name or literal at the start, middle or end, quoted table names. Also lists with equal entries in every combination of 2-4 places. The optional words of transaction statements; quoted COPY sources of printable characters without spaces. Keywords in four other letter cases.")
prop("P10", "String values keep their content",
 "The value of a quoted string, wherever it stands in a statement, is exactly the text between the quotes with doubled quotes read as one, whatever characters it has. "
 "It is never taken for a number, NULL, placeholder or part of another value, and printing and parsing the statement again keeps it.",
 ["inputs"], "all string values",
 "The tests use a handful of plain words as string values.",
 ["sql/util/strings/strings.go", "sql/parser/sqlite/parser_antlr_visitor.go", "sql/query/literal.go"], [("escaping and unescaping", "sql/util/strings/strings.go")],
 "every string of 0-4 printable ASCII characters, quotes included, in INSERT, UPDATE, DELETE and SELECT; printed and parsed twice for 0-3 characters; two strings of 0-2 characters side by side. One or two ASCII characters including control characters, also between 11 x 11 fixed texts (other scripts, backslashes, comments, placeholders, 256 characters); the escaping itself for every byte string of 0-5 bytes. Up to 130 quotes in one string, strings of up to 65535 characters, 17 x 17 pairs of ends, 48 texts that look like other values.")
prop("P11", "Bound parameters are data at their own places",
 "Binding gives each placeholder the value of its own parameter - ? in order, $n by number, repeated or out of order - and a string parameter stays one string value whatever it contains and whatever stands next to its placeholder. "
 "Question marks and dollar signs inside strings, quoted names and comments are not placeholders, a parameter without a placeholder is an error, and a query without parameters is parsed as it is.",
 ["inputs", "programs"], "all queries with placeholders and all parameter values",
 "The tests bind a few fixed parameters without quotes or placeholder characters.",
 ["sql/stmt/bind_impl.go", "sql/stmt/bind_param_impl.go"], [("replacement of placeholders", "sql/stmt")],
 "1-12 parameters; strings of 0-4 printable ASCII characters, integers -9..99, booleans, NULL; INSERT, UPDATE and DELETE; surrounding strings of 0-3 characters over ['?$1a]. All Go kinds of parameters with symbolic values where they print short, 4 to 130 parameters of either style; times to the microsecond; comments, brackets and all quotes before and around placeholders; up to 17 statements. Placeholders in limits, named values, operands and arguments, directly next to keywords, and next to other text or placeholders (refused). Up to 33 numbered parameters, each repeated before and after the others; every pair of 16 comments around the placeholders.")
prop("P12", "Layout, keyword case and statement sequences do not matter",
 "Spaces, tabs, line breaks and comments between tokens, and the letter case of keywords, do not change what a statement means. "
 "A text with several statements separated by semicolons gives one statement each, in order, and empty statements are skipped.",
 ["inputs", "programs"], "all layouts and letter cases of supported statements and all sequences of them",
 "The query files are written in one layout, and each is parsed for itself.",
 PARSER, [("listener that walks the statement list", "sql/parser/sqlite")],
 "10 kinds of statements with 4 other keyword cases and 4 other separators (including comments); sequences of 1-3 statements of 4 kinds with names of 1-2 characters, strings of 0-2 and 3 kinds of ends. Sequences of 4 to 33 statements, every pair of 20 kinds of statements, texts of up to 140 000 characters. Also sequences of four statements, each one of two, equal ones included.")
prop("P13", "A parser has no memory",
 "What a parser returns for a text does not depend on what it parsed before, including texts that failed, and statements returned earlier do not change when it is used again.",
 ["histories"], "all histories of a parser",
 "The tests make a new parser for every query or reuse one only for valid ones.",
 PARSER, [("reset of the parser state", "sql/parser/sqlite/parser_antlr.go")],
 "histories of 1-2 earlier texts out of 12 good and bad ones before each kind of statement with symbolic names of 1 character.")
prop("P14", "What is not supported is refused as a whole",
 "A statement that is malformed, or that uses a form that cannot be represented - INSERT without columns, with a SELECT or with rows of a wrong length, with values that are conditions, UPDATE or DELETE with conditions other than comparisons, EXPLAIN, views, triggers, savepoints, PRAGMA, ANALYZE, ATTACH, DETACH or REINDEX - is answered by an error. "
 "It is never turned into a different statement, also not in the middle of a sequence of statements.",
 ["inputs", "programs"], "all unsupported or malformed statements of the listed forms",
 "The tests contain no query that must be refused.",
 PARSER + ["sql/query/errors.go"], [("errors for unsupported forms", "sql/parser/sqlite/parser_antlr_visitor.go")],
 "the lists unsupported and malformed in harness/props/p_total.go with symbolic names, digits and strings, alone and in sequences of up to 17 statements; 21 statements with one unsupported part among others. INSERT values that are conditions or belong to other columns than those of the first row. About 75 further forms (list moreRefused in harness/props/p_more9.go), alone, before and after another statement.")
prop("S15", "A schema is the result of its history",
 "After any sequence of added and dropped columns and indexes - directly, by ALTER TABLE or by index statements - a schema has exactly the columns and indexes of that history in order, and a dropped one is the one named, in any letter case. "
 "Dropping what is not there is refused as not found and changes nothing, unsupported changes are refused, and schemas and lists handed out before are not affected.",
 ["histories"], "all histories of schema changes and all names",
 "No test changes a schema.",
 ["sql/query/schema.go", "sql/query/columns.go", "sql/query/indexes.go", "sql/query/alter_table_from.go"], [("schema changes", "sql/query/schema.go")],
 "2-3 columns and 1-2 indexes, histories of 3 changes (thorough 4) with names of one letter; two schemas from one list; histories of 2 (3) parsed statements. Also schemas of 4 to 65 columns and indexes (thorough 130) with a symbolic name, and growth to 16 columns and back. Also histories of 3 changes over columns with constraints and primary, secondary and unknown indexes, with objects added twice.")
prop("S16", "Columns and indexes are found by name and position",
 "Looking up a column or an index by name in any letter case finds the first one with that name and its position, and reports not found otherwise; any position outside a list is an error, never a panic. "
 "A copy of a column list is equal to it, and changing either does not change the other; only * or an empty list stands for all columns.",
 ["inputs"], "all lists, names and positions",
 "Lookups are only tested indirectly, with names that exist.",
 ["sql/query/columns.go", "sql/query/indexes.go", "sql/query/column.go"], [("lookups", "sql/query/columns.go")],
 "lists of 0-3 (thorough 4) entries with names of 1-2 (3) identifier characters; every int as a position. Also names of 0-2 ASCII characters of any kind, one name of 3-8, prefixes of 64 and 256 characters, and lists of 4 to 65 (130). Also * and empty names in lists of several columns.")
prop("S17", "Values take the type of their column or are refused",
 "Applying a table definition to a row gives each value the Go type of its own column - an integer of the width of the type, a 32- or 64-bit float, a boolean, a text - with the value it had. "
 "A number outside the range of an integer type, a text that is no number or truth value for such a column, and a column the table does not have are refused; NULL stays no value in a column of any type.",
 ["inputs"], "all values and column types",
 "The tests do not apply schemas to values.",
 ["sql/query/columns.go", "sql/query/column.go", "sql/query/literal.go", "sql/query/data_type.go"], [("coercion of a column value", "sql/query")],
 "every int64, uint64 and narrower integer; every float64; integer texts of 1-10 digits with sign and of 19 digits around the limits; decimal texts of 2 digits, a point and 1 digit; texts of 0-3 characters. Fractions given to integer columns are cut off, which is outside. Every float32 outside the range. Also rows of 4 to 130 columns, and texts that are no truth values.")
prop("S18", "Data types are known by their names",
 "Every data type has a name of its own and is read back from it in any letter case, with its size; no other word is read as a type, and a Go value is given the type of its kind.",
 ["inputs"], "all type names and words",
 "The tests use a few type names.",
 ["sql/query/data_type.go", "sql/query/column_def.go"], [("names of types", "sql/query/data_type.go")],
 "all data types with every combination of letter cases; every word of 0-5 letters. Also every name with any one character added, replaced or left out, and with common prefixes and suffixes.")
prop("F19", "Aggregates are those of the values",
 "COUNT, SUM, AVG, MIN and MAX of a column over any rows are the count, sum, mean, least and greatest of its values, in whatever numeric kind and row form they are given; NULL values are left out, COUNT(*) counts rows, and no values give NULL (COUNT and SUM 0). "
 "A refused row leaves the aggregate as it was, several arguments are kept apart, and after a reset nothing is left of earlier rows.",
 ["inputs", "histories"], "all sequences of rows and values",
 "The tests aggregate a few fixed small positive numbers.",
 ["sql/fn"], [("aggregators", "sql/fn/aggr_impl.go")],
 "0-3 rows (thorough 4) of arbitrary float64, int, uint8, NULL, numeric text, ... ; sums are compared as left-to-right float64 sums. 5-65 rows with one symbolic int8 value and NULLs, 3-8 arguments, argument names of 1-6 characters, rows refused for any of three values or lacking a column. Also four arguments with NULLs of their own, alone or in one or two groups.")
prop("F20", "Groups are exactly the distinct group values",
 "An aggregate with groups has one row for each distinct combination of group values - NULL included, text, numbers - with that combination and the aggregate of exactly the rows having it, and gives the rows in ascending or descending order of the groups when asked to. "
 "Different combinations never share a group, and changing the groups starts again.",
 ["inputs", "histories"], "all rows and group values",
 "The tests group by a few short words.",
 ["sql/fn"], [("group keys", "sql/fn"), ("sorting of group rows", "sql/fn")],
 "2-3 rows (thorough 4), 1-2 group columns with texts of 0-2 printable ASCII characters, integers, NULL. 3 group columns; 6 and 12 rows with one symbolic key, sorted and not; 33-129 groups; keys of 3-8 symbolic characters and of 8-1025 characters differing at the end; truth values, sized integers and fractions as keys; refused rows, resets, NULL values and rows reused by the caller. Also four arguments with NULLs of their own in groups, and results kept while more rows come.")
prop("F21", "Several aggregates over the same rows stay aligned",
 "A set of aggregates gives, for every group, one row with the group columns once and then the value of each aggregate in the order of the set, each the same as the aggregate would give alone for the rows of that group.",
 ["inputs"], "all sets, rows and group values",
 "The tests combine two aggregates over fixed rows.",
 ["sql/fn"], [("aggregator set", "sql/fn/aggr_set.go")],
 "sets of 2-3 of the five aggregates in any order, 0-2 rows (thorough 3), symbolic numbers and group values. 3-6 aggregates over 3-17 rows with one symbolic value and NULLs; the same aggregate 2-4 times; sets used again after a reset, with the same or another group. Also sets of 4 to 65 aggregates over many rows.")
prop("F22", "Scalar functions compute their mathematical values",
 "ABS, CEIL, FLOOR, ROUND, SQRT, POWER, EXP, LOG, LOG10, SIN, COS, TAN, PI and the like, UPPER, LOWER and TRIM, and the arithmetic of an UPDATE give the mathematical result for every argument in their domain, in whatever numeric kind, as text or in whatever row form it is given. "
 "Arguments outside the domain, a remainder or quotient by zero as documented, a wrong number of arguments and arguments that are not numbers are refused with an error, without panic.",
 ["inputs"], "all argument values",
 "The tests evaluate each function at a few fixed points.",
 ["sql/fn"], [("executors", "sql/fn/executor_func.go")],
 "every float64 argument (FLOOR, CEIL, ROUND up to 2^53); transcendental functions are compared with the library function at symbolic (uninterpreted) and fixed arguments; texts of 0-3 ASCII characters. Also arithmetic of 8 large numbers around 2^31, 2^32, 2^40 and 2^53, and a column that is NULL for every function.")
prop("F23", "Functions are resolved by their whole names",
 "Every function name, in any letter case, is found as the scalar function or aggregate it names, with that type, and no other word is; an unknown function is reported and not executed. "
 "A SELECT reports and lists its functions, aggregates and scalar functions exactly as written, in order, and a selector's aggregate is the one that received the rows.",
 ["inputs", "programs"], "all words and SELECT lists",
 "The tests use the names in capitals.",
 ["sql/fn/func_impl.go", "sql/fn/executor_func.go", "sql/query/selectors.go", "sql/query/func.go"], [("lookup of functions by name", "sql/fn")],
 "every function name in every combination of letter cases; every word of 1-4 letters, names with one symbolic letter added or replaced; SELECT lists of 1-3 selectors. Lists of 0-3 arguments, registered names, functions made from executors, aggregators and casts; aggregates of a SELECT over two rows of int8 values. Also the names with blanks, quotes and controls around.")
prop("R24", "A result set hands out its window of rows once, in order",
 "Walking a result set gives exactly the rows after the offset, as many as the limit allows, each once and in order, and then no more; reading before the first step or after the last is an error and never a row.",
 ["inputs", "histories"], "all numbers of rows, offsets and limits",
 "No test walks a result set.",
 ["sql/query/response/resultset"], [("cursor", "sql/query/response/resultset/resultset_impl.go")],
 "0-3 (thorough 6) rows, every uint offset and limit, reads between all steps, two steps beyond the end; rows given as maps. 7, 17 and 65 rows (thorough 300) with offsets and limits around 0, the middle and the end.")
prop("R25", "A row is the same by position, by name and as a whole",
 "The values of a row are the same whether read as a list, by position, by column name, as a map or scanned into variables, absent values are NULL, and a position or name the row does not have is an error.",
 ["inputs"], "all rows and columns",
 "No test reads a row.",
 ["sql/query/response/resultset"], [("row", "sql/query/response/resultset/row_impl.go")],
 "rows of 3 columns with texts of 0-1 characters, numbers, booleans and NULL; every int position; names of 1-2 characters. 4-130 columns and 4-130 unnamed values; names of 2-7 symbolic characters. Also pairs of eight values scanned into variables of five kinds, by list, position and name.")
prop("R26", "A projected or aggregated result has what was selected",
 "The result of a SELECT over rows has one column per selector in order with the name and type of the selection, and each row has the selected values or the value of the function on that row. "
 "With aggregates it has one row per group, or one for all rows, with the group value and the aggregates of exactly those rows; unknown columns and rows that cannot be aggregated fail the whole, and the rows given are not changed.",
 ["inputs", "programs"], "all rows and the listed selections",
 "The tests build no result sets.",
 ["sql/query/response/resultset"], [("projection and aggregation of rows", "sql/query/response/resultset")],
 "6 projections and lists of 1-2 aggregates with and without the group column, 0-2 (thorough 3) rows with symbolic numbers and texts of 0-1 characters. Function arguments are looked up as written; text and time functions have no result schema (outside). Also 4 to 65 rows in 1, 2, 7 or as many groups with five aggregates, and a refused row of a group.")
prop("I27", "Information schema queries and answers are faithful",
 "A generated query for the columns of a database and table asks for exactly those names whatever characters they have, and is understood again as those names; a client's query in any letter case is recognised and understood, and other queries are not taken for one; conditions that do not name columns are refused. "
 "The answer for any schemas has one row per column in order with its table, name and type, and reading it back gives the same columns, found by name in any letter case.",
 ["inputs"], "all names and schemas",
 "One test generates one query for one fixed pair of names.",
 ["sql/system"], [("generation and traversal of the query", "sql/system/schema_columns_stmt_impl.go"), ("rows of the description", "sql/system/schema_columns_resutset_from.go")],
 "names of 0-2 (thorough 3) printable ASCII characters, 0-1 tables (0-2 for queries by table names), 0-2 schemas with 0-2 columns of all types. Names of 3-8 symbolic characters, tables with names close to that of the column table, 4-65 columns or tables. Outside: several tables with a database (the grammar cannot express it), queries without a condition. Also ten names of any characters for tables and columns, repeated tables among them.")
prop("N28", "A connection manager is a consistent registry",
 "After any history of adds, replacements and removals, a manager lists exactly the connections it holds, once each, and finds each by its UUID and by its number; identities already held are refused without effect. "
 "Closing it closes every connection once and forgets it, keeps and reports those that fail to close, and closes those when asked again.",
 ["histories", "fault_sequences"], "all histories, identities and failures to close",
 "No test uses the connection manager.",
 ["sql/net/conn_manager_impl.go"], [("the two maps kept in step", "sql/net/conn_manager_impl.go")],
 "histories of 3 operations on 2 connections and 2 on 3 (thorough 4 and 3), every pair of identities (two symbolic UUID bytes, any number); 0-3 connections with failing closes. 4-65 connections with one symbolic number and one operation. Also up to 4 connections that each fail up to twice for reasons of their own.")
prop("N29", "Connections and their manager are safe to share",
 "Two goroutines using one connection manager or one connection at the same time never race, deadlock or panic; the outcome is that of one of the two orders, no update is lost, and a connection is closed once.",
 ["schedules"], "all interleavings of two goroutines at synchronisation points, and data races between them",
 "No test runs anything concurrently.",
 ["sql/net/conn_impl.go", "sql/net/conn_manager_impl.go"], [("mutexes", "sql/net")],
 "two goroutines with one operation each out of 9 (manager), 9 (connection) and closing against 5 others; all schedules with up to 2 (thorough 5) preemptions at lock operations; happens-before race detection on every path.")
prop("N30", "A connection keeps its session state",
 "A connection has the database, user and schemas set last, schemas once each in the order set and cleared when the database changes; its UUID, number and time stay, and it shares nothing with other connections or with the lists given to or taken from it. "
 "Closing closes the transport once, and can be repeated until it succeeds.",
 ["histories", "fault_sequences"], "all histories of a connection",
 "No test uses a connection.",
 ["sql/net/conn_impl.go"], [("session fields", "sql/net/conn_impl.go")],
 "histories of 3 (thorough 4) operations with texts of 0-1 printable ASCII characters; 0-2 failing closes. Names of 2-8 symbolic characters; 4-130 schemas.")
prop("E31", "Errors are of one kind and name their subject",
 "Every error made for a missing or existing table, database, column, prepared statement, or an unsupported or invalid feature or statement is recognised as its kind and as no other, and its message has the name it was made for, whatever characters that has.",
 ["inputs"], "all names",
 "No test looks at the kind of an error.",
 ["sql/errors/errors.go", "sql/errors/query.go"], [("wrapped sentinels", "sql/errors")],
 "all 16 constructors with names of 0-3 printable ASCII characters and counts 0-11. The two errors about statements with parsed statements. Names of 8-302 characters. Also errors about 16 values of other kinds, errors among them.")
prop("E32", "Error codes are the documented ones",
 "Each SQLSTATE constant has the documented five-character value and its own description, each class constant its two-character value and description, the class of every code is known, and any other text is unknown.",
 ["inputs"], "all codes and classes",
 "No test looks at the codes.",
 ["sql/errors/code.go", "sql/errors/class.go"], [("tables of codes", "sql/errors")],
 "all 260 codes and 42 classes; every ASCII text of 0-6 (codes) and 0-3 (classes) characters.")

prop("S33", "Tables are known by their names",
 "A table has the name and schema given, its full name is the schema, a dot and the name (the name alone when there is no schema or it is already qualified), and it is known by these names, whole and in any letter case, and by no other. "
 "A list of tables gives their full names in order, has a name exactly when one of its tables has it, and a list made from it does not change with it.",
 ["inputs"], "all names and lists",
 "The tests compare a few fixed names.",
 ["sql/query/table.go", "sql/query/tables.go"], [("names of tables", "sql/query/table.go")],
 "names, schemas and questions of 0-2 (thorough 3) printable ASCII characters; lists of 0-3 (4) tables; names of 3-8 characters, 13 words as schemas and names, lists of 4 to 130 tables.")
prop("U34", "A stack returns what was pushed, last first",
 "After any history of pushes and pops, the stack gives the objects in reverse order of pushing, peeking changes nothing, and an empty stack gives nothing and can be used again.",
 ["histories"], "all histories",
 "One test pushes and pops a few objects.",
 ["sql/util/stack.go"], [("the stack", "sql/util/stack.go")],
 "every history of 6 (thorough 8) pushes, pops and peeks with arbitrary values; depths up to 65 (130); objects of 7 kinds, nil included, at three depths.")
prop("B35", "A statement built with constructors prints as what it was made of",
 "The text of a statement made with the constructors of the query package is accepted by the parser and gives the same kind of statement with the tables, columns, values, conditions, order, limit, indexes and options it was made of. "
 "Go values become literals of the same value: numbers, booleans, nil as NULL, and strings with any characters.",
 ["inputs", "programs"], "all statements made with the constructors from names that need no quotes",
 TESTS + "no test makes a statement with the constructors.",
 ["sql/query"], [("constructors and String methods", "sql/query")],
 "SELECT, INSERT, UPDATE, DELETE, CREATE/ALTER/DROP of tables, databases and indexes, and the utility statements; one name of 1-2 symbolic characters, up to 2 comparisons with 6 operators, 1-3 columns, rows, tables and orders (ascending or descending), positive limits; values of all integer and float kinds within -9..99 and fixed large ones, booleans, nil, strings of 0-2 printable ASCII characters; one name of 3-8 symbolic characters; 4 to 65 selectors, tables, orders, columns or rows. Outside: unions of alterations, DROP INDEX by ALTER TABLE, an order without direction, OFFSET without LIMIT.")
prop("C36", "Independent uses do not disturb each other",
 "Two goroutines that each use their own parser, aggregate or function, or that read the same parsed statement or table definition, never race, deadlock or panic, and each gets the result it would get alone.",
 ["schedules"], "all interleavings of two goroutines at synchronisation points, and data races between them",
 "No test runs anything concurrently.",
 PARSER + ["sql/fn", "sql/query"], [("package-level state", "sql")],
 "two goroutines with one operation each: parsing 6 kinds of statements with symbolic names, printing and reading one statement, the five aggregates, 6 functions, conversion of rows under one table definition; all schedules with up to 2 (thorough 5) preemptions; happens-before race detection on every path. Outside: one Function object or one result row used by both (they keep values they computed). Every kind of statement read by both with all accessors; every function by name or by Function; one aggregate or a set with and without groups and order; binding and parsing.")
prop("K37", "Kinds have their own names",
 "Each kind of statement, order, index, constraint, copy format and comparison operator has its own documented name and no other value has one of these names; orders are read from their names in any letter case and from nothing else. "
 "A parsed statement is of the kind it starts with, and limits, groups, orders, literals and options have the values set last.",
 ["inputs"], "all kinds, words and values",
 "The tests print a few of them.",
 ["sql/query/statement_type.go", "sql/query/order_type.go", "sql/query/index_type.go", "sql/query/constraint.go", "sql/query/expr_cmp.go", "sql/query/literal.go", "sql/query/limit.go", "sql/query/group.go"],
 [("tables of names", "sql/query")],
 "every uint8 as a kind; words of 0-5 ASCII characters; every uint as a limit; strings of 0-2 printable ASCII characters.")
prop("R38", "A result schema describes its columns",
 "The schema of a result has the database, table and columns given, in order, and finds the first column with exactly the name asked for or reports not found; a column has the name, type and constraint given or those of the table column it was made from. "
 "The schema of a selection has the table's column for each selected name and a column of its own for each function; the schema of a row has one column per value with the type of the value.",
 ["inputs"], "all names, types and lists of columns",
 "The tests build no result schemas.",
 ["sql/query/response/resultset"], [("schema and columns", "sql/query/response/resultset/schema_impl.go")],
 "0-3 columns with names of 0-2 ASCII characters, all types and constraints, selections of 1-2 of 3 columns and a function, rows of 2 values of 10 kinds. Also selections of 4 to 130 columns with repeated ones, columns of functions, and values at the edges of their kinds.")

if __name__ == "__main__":
    with open(f"{V}/properties.jsonl", "w") as f:
        for p in P:
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                            "observe_at": ["exported API"], "hook_needed": None}}) + "\n")
    with open(f"{V}/bounds.json", "w") as f:
        json.dump({p["id"]: p["bounds"] for p in P}, f, indent=1); f.write("\n")
    m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
    for p in P:
        m["checks"].append({"property": p["id"], "quick_cmd": f"bash check.sh {p['id']} quick", "thorough_cmd": f"bash check.sh {p['id']} thorough",
            "technique": "symbolic execution of the Go SSA of the real code with SMT (z3) assertions, counterexamples replayed natively",
            "level": "model_checking", "level_note": "All values within the bounds: " + p["bounds"]})
    with open(f"{V}/MANIFEST.json", "w") as f:
        json.dump(m, f, indent=1); f.write("\n")
    rd = lambda n: open(f"{V}/design/{n}").read()
    d = rd("head.md")
    for p in P:
        d += f"\n### {p['id']} {p['title']}\n\n{p['statement']}\n\n- Decided by: the harnesses `{p['id']}_*` in `harness/props`; symbolic execution of the SSA of {', '.join('`'+f+'`' for f in p['files'])}; oracle: {p['oracle']}.\n- Bounds: {p['bounds']}\n- Beyond the tests: {p['why']}\n"
    kf = json.load(open(f"{V}/known_findings.json"))["Findings"]
    d += "\n" + rd("seeded.md") + "\n" + rd("tail.md") + "\n" + "".join(f"- {k['property']}: {k['what'].split(' ', 2)[2]}\n" for k in kf)
    open(f"{V}/DESIGN.md", "w").write(d)
    n = [p["id"] for p in P if p["statement"].count(". ") > 2]
    assert not n, n
    for p in P:
        for x in p["files"]:
            if not os.path.exists(f"/repo/{x}"): print("no file", p["id"], x)
