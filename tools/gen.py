#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COND = ["lib_equal.go","lib_gt.go","lib_gte.go","lib_lt.go","lib_lte.go","lib_like.go","lib_ilike.go","lib_in.go","lib_isnull.go"]
LOGIC = ["group.go","logical.go","join_type.go"]
SEL = ["select_base.go","select_many.go","select_single.go","count.go"]
CHG = ["update.go","delete.go","insert.go"]
TESTS = "The tests compare the text of a few dozen fixed inputs; "
P = []
def p(id, title, statement, over, q, why, files, mech, tech, note):
    P.append(dict(id=id,title=title,statement=statement,over=over,q=q,why=why,files=files,mech=mech,tech=tech,note=note))
LAW = "abstract interpretation of the SSA form over a value graph (symbolic law probes, no path enumeration, no solver)"
EFF = "interprocedural region and effect analysis of the SSA form, context-sensitive, to fixpoint"
LN = "Decided for all argument values within the stated list lengths; lists, conditions, columns and joins of the main laws also up to eleven, and as many as any number in the source and one more; trusts the models of strings, strconv, fmt, reflect and errors, and that conditions written by users are deterministic."
EN = "Sound for all inputs, histories and list lengths; trusts the classification of standard library functions and the absence of unsafe."

p("P01","Deriving from a value never changes the value",
  "Builders, conditions, groups, fields, tables, orderings and joins are immutable: no call of the package changes anything that existed before the call and was reachable by the caller. Deriving several values from one origin, in any order, leaves the origin and every sibling rendering, binding and reporting exactly as before.",
  ["inputs","histories"],"every exported function and method, every argument, every history of earlier derivations, every list length and spare capacity",
  TESTS+"sharing of backing storage shows only for particular lengths and capacities and particular orders of derivation.",
  ["select_base.go","select_many.go","select_single.go","update.go","insert.go","where.go","group.go","fields.go","join_tables.go","ordering.go"],
  [("value receivers and copy-on-write of every list","group.go, where.go, fields.go, join_tables.go, ordering.go")],EFF,EN)
p("P02","Lists and maps given or returned are not shared",
  "A list or map passed to the package may be reused and modified by the caller afterwards without changing anything built from it. A list or map returned by the package is a copy that the caller may modify without changing the value it was read from.",
  ["inputs","histories"],"every exported function and method taking or returning a slice or map, all contents and lengths",
  TESTS+"none of them modifies an argument list or a returned list after the call.",
  ["select_base.go","select_many.go","update.go","insert.go","where.go","group.go","fields.go","values_map.go"],
  [("copies on entry and exit","fields.go, where.go, group.go, update.go, insert.go")],EFF,EN)
p("P03","Results depend on the arguments only; concurrent use is safe",
  "Calling anything of the package with equal arguments gives equal results, whatever was called before: calls neither read nor change state shared between calls, the environment, time, randomness or the iteration order of maps they were not given. Rendering, parameter listing and building change nothing at all, so one value may be used from many goroutines.",
  ["inputs","histories","schedules"],"every exported function and method, all inputs, all earlier calls and all interleavings of concurrent calls",
  "The tests run each rendering once in one goroutine; repeated and concurrent rendering of shared values is not exercised.",
  ["group.go","where.go","select_base.go","operations.go","keywords.go","utils.go"],
  [("no package state besides constant error values","*.go")],EFF,EN)
p("P04","Bound values never appear in SQL text",
  "The text of a condition, column assignment, filter, limit or statement is the same whatever values are compared, assigned, listed, matched or used as limit and offset. The values reach the database only through the parameter list.",
  ["inputs"],"every kind of condition and statement, all values of all types, lists of up to five values",
  TESTS+"a value leaking into the text for another type or length would not be seen.",
  COND+["value.go","limiter.go"]+CHG,[("placeholders instead of values","lib_*.go, value.go, limiter.go")],LAW,LN)
p("P05","Every clause has as many placeholders as values, numbered in order",
  "For each condition, group of conditions, filter, pagination clause and select, the number of placeholders rendered equals the number of values supplied, whether a value is a scalar, a list or a nil. Numbered placeholders start right after the parameters already used and increase by one from left to right, in the order in which the values are supplied.",
  ["inputs"],"all conditions, nestings of groups, negations, offsets, and list lengths up to five",
  TESTS+"numbering errors show only for particular nestings, offsets and list lengths.",
  COND+LOGIC+["where.go","limiter.go","value.go"]+SEL,[("numbering by running offset","group.go, where.go, limiter.go, lib_in.go")],LAW,LN)
p("P06","Statement parameters follow the order of placeholders from $1",
  "In every statement that can be built, placeholders are numbered $1, $2, ... without gaps in order of appearance, and the parameter list holds the value for $n at position n. Assigned values come before filter values, filter values before pagination, and a column given a list still takes one placeholder.",
  ["inputs"],"all statement kinds, columns, conditions, limits; lists of values up to three",
  TESTS+"they do not check each value against its placeholder for combined assignments, filters and limits.",
  CHG+SEL+["where.go","limiter.go"],[("parameter collection in the order of rendering","update.go, insert.go, delete.go, select_many.go, count.go")],LAW,LN)
p("P07","Numbered and question-mark renderings agree",
  "The rendering with numbered placeholders and the rendering with question marks of the same condition, group, filter or select are the same text except for the form of placeholders. The text returned on building a select is its numbered rendering with no parameters used before.",
  ["inputs"],"all conditions, groups, negations, selects with fields, joins, conditions, ordering and pagination, and all offsets",
  TESTS+"the two renderings are separate code paths compared for few values.",
  COND+LOGIC+["where.go","limiter.go","ordering.go","join_tables.go"]+SEL,[("two renderings per part","lib_*.go, group.go, where.go, select_*.go")],LAW,LN)
p("P08","UPDATE and DELETE are never built without WHERE",
  "Building an UPDATE or DELETE that has no conditions, or only groups without conditions, fails with an error. Whatever is built carries a WHERE clause containing every condition given, also next to empty groups and when derived from selects.",
  ["inputs","histories"],"all tables, values, conditions, nestings of empty groups and derivations from selects",
  TESTS+"empty groups and derived statements are not covered.",
  ["update.go","delete.go","where.go","group.go","select_base.go","select_many.go","select_single.go"],[("refusal of an empty filter","update.go, delete.go, where.go")],LAW,LN)
p("P09","A build gives either a statement or a package error",
  "Building fails exactly when the table is missing, or an insert or update has no columns, or an update or delete has no conditions; a failed build gives empty text, no parameters and an error that matches the error value of the package. A successful build gives non-empty text and a nil error.",
  ["inputs"],"all statement kinds, all settings given or missing, lists up to two elements",
  TESTS+"only some of the combinations of missing settings are sampled.",
  CHG+SEL+["keywords.go","values_map.go"],[("checks at build","update.go, insert.go, delete.go, select_base.go, count.go")],LAW,LN)
p("P10","Statements have all their clauses in the order of SQL",
  "A select is SELECT, the field list (a star when no field is set), FROM, the table, joins in order of joining, WHERE, ORDER BY, OFFSET and LIMIT; an update is UPDATE, the table, SET, the columns in order, WHERE; a delete is DELETE FROM, the table, WHERE; an insert is INSERT INTO, the table, the columns and as many placeholders; a count is SELECT COUNT of the field, FROM, joins and WHERE. A clause that was set is present exactly once and a clause that was not set is absent.",
  ["inputs"],"all statement kinds and combinations of settings, up to three fields, columns and orderings, two joins",
  TESTS+"few combinations of clauses are rendered together.",
  CHG+SEL+["fields.go","join_tables.go","ordering.go","limiter.go","where.go"],[("clause assembly","update.go, insert.go, delete.go, select_*.go, count.go")],LAW,LN)
p("P11","Settings of a builder are independent of each other",
  "Settings of different clauses may be given in any order with the same result, and setting one clause never changes or drops another. Setting a field list, limit or offset again replaces the former one, conditions, orderings, joins and inserted values accumulate, and giving an empty list of conditions or orderings changes nothing.",
  ["inputs","histories"],"all pairs of setters of every builder, all values, lists up to two elements",
  TESTS+"setters are called in one order only.",
  ["select_base.go","select_many.go","select_single.go","update.go","insert.go","limiter.go","ordering.go"],[("setters returning changed copies","select_*.go, update.go, insert.go")],LAW,LN)
p("P12","Statements derived from a select keep its table and filter",
  "A count, update, delete or other select derived from a select is on the same table and has the same filter with the same values, whatever fields, ordering and pagination the select has; counting keeps joined tables as well. Conditions added to a derived statement narrow it, and conditions added to the select later do not reach it.",
  ["inputs","histories"],"all selects of the three kinds, all filters built by any combination of the filter methods",
  TESTS+"a derived statement that loses or widens the filter is tested for two inputs.",
  SEL+["update.go","delete.go","table_ident.go","table_name.go"],[("filter handed over on derivation","select_base.go, select_many.go, select_single.go")],LAW,LN)
p("P13","Composed conditions mean what was asked for",
  "Read by SQL precedence, AND of conditions is true exactly when all of them are, x OR (a, b) is true exactly when x is or both a and b are, a group joins its members by its own operator, negation denies everything it was applied to, and every further filter call on a statement narrows it. Conditions given together to a statement without a filter are joined each by its own operator, which is AND unless the condition was made by Or or joined by OR. This holds for functions, methods and group constructors, for any nesting, and brackets are rendered wherever the meaning needs them.",
  ["inputs","programs"],"all kinds of conditions (plain, negated, groups, nested groups, library conditions) in all operand positions, decided over all truth assignments",
  TESTS+"they compare text for a few shapes and cannot tell whether the text means what was composed.",
  LOGIC+["where.go","base.go"]+COND,[("bracketing and join operators of groups","group.go, logical.go, where.go")],LAW+"; boolean equivalence by truth table of the parsed rendering",LN)
p("P14","Negation of a condition is never lost",
  "The rendering of a negated condition denies exactly the whole rendering of the condition and supplies the same values. A negated condition or group stays negated when it is joined with others, composed into groups, moved to another table, used as a filter or handed to a derived statement.",
  ["inputs","histories"],"all kinds of conditions, all positions, all ways to compose",
  TESTS+"negation is tested for single conditions mostly.",
  LOGIC+["where.go","base.go"]+COND,[("negation flag carried by every copy","base.go, group.go, lib_*.go")],LAW,LN)
p("P15","Replacing table or field reaches every condition and nothing else",
  "Applying a table to a condition, group or filter changes the table of every field in it, however deep, exactly once; applying a field changes the fields of that name only, using its table and alias. Values, placeholders, operators, negation and joining stay the same, and so does a condition on another field.",
  ["inputs"],"all kinds of conditions and groups up to two levels, all tables, fields and values",
  TESTS+"nested groups and negated conditions are not covered.",
  COND+LOGIC+["where.go","value.go","ordering.go","field_definition.go"],[("recursive application","group.go, where.go, lib_*.go")],LAW,LN)
p("P16","Parsers and builders report bad input, never crash",
  "Parsing a table or field gives either a usable result or an error and never panics; a field that was accepted has a non-empty name, and names with quotes, white space or misplaced dots are rejected. The panicking form of a parser accepts exactly what the other form accepts, with the same result, and building, rendering and setting up zero-valued or fully set builders never panics.",
  ["inputs"],"all texts, names, settings and values; lists up to two elements",
  TESTS+"a dozen of texts are tried.",
  ["field_name.go","field_definition.go","table_name.go","table_ident.go","utils.go"]+SEL+CHG+COND,[("validation in one place","field_name.go, table_name.go, table_ident.go, utils.go")],LAW,LN)
p("P17","A value that fails to convert is never sent",
  "When the conversion of a database value fails, supplying the parameters stops with a panic carrying the failure. The failed value never becomes NULL, is never skipped and is never replaced, in any condition, list, assignment or statement.",
  ["inputs","fault_sequences"],"every place where values are supplied, every position of the failing value in lists up to three",
  "No test has a failing value.",
  ["value.go"]+COND+["update.go","insert.go","where.go"],[("conversion in one place","value.go")],LAW,LN)
p("P18","Every accepted type of a table or field argument works alike",
  "A table given as text, as a table name or as a table identifier, and a field given as text, as a field name or as a field definition, make the same statement, condition or join, or the same error. Every type accepted by the signatures is handled.",
  ["inputs","programs"],"all generic functions and all types of their type sets, all values",
  TESTS+"not each function is tried with each type.",
  ["select_base.go","field_definition.go","field_name.go","table_ident.go","table_name.go","fields.go","interfaces.go","update.go","insert.go","delete.go"],[("type switches over the type sets","field_definition.go, table_ident.go, table_name.go, utils.go")],LAW+"; comparison of type sets with the types exercised",LN)
p("P19","ORDER BY has only ASC or DESC and validated names",
  "Only the two directions ASC and DESC can be made: any other text of a direction panics when an ordering is made. Names to sort by are validated, orderings are rendered in the order given, each with its field and its own direction, and replacing the field of an ordering keeps the direction.",
  ["inputs"],"all texts of directions, all names, lists of up to four orderings",
  TESTS+"unexpected directions are tried once.",
  ["ordering.go","select_many.go","field_name.go"],[("check of direction","ordering.go")],LAW,LN)
p("P20","Joins keep type, table, condition and order",
  "A joined table is rendered as the keyword of its join type, the table, ON and the comparison of the two fields, each with its own table, whichever way the join was started; several joins keep their order and stay apart. A join that has no condition yet offers no way to render or build, so such a program does not compile.",
  ["inputs","programs"],"all join types, ways to start a join, tables and fields, up to three joins; all programs for the second part",
  TESTS+"not each way to join is tried with each type.",
  ["join_condition.go","join_tables.go","join_unfinished.go"]+SEL[:3]+["table_ident.go","table_name.go"],[("join type constants and unfinished join types","join_*.go")],LAW+"; check of method sets of static result types",LN)
p("P21","AS is written only where an alias is declared",
  "An alias of a field or table is declared with AS in the field list of a select and in the list of tables and joined tables, and nowhere else. Conditions, column lists and assignments never contain AS, whatever aliases the fields have, and a field of an aliased table refers to the alias.",
  ["inputs"],"all conditions and statements with aliased fields and tables",
  TESTS+"aliased fields in conditions and assignments are not covered.",
  ["field_definition.go","table_ident.go","fields.go"]+COND+CHG,[("separate renderings for declaration and use","field_definition.go, table_ident.go")],LAW,LN)
p("P22","The reported operation matches the statement",
  "The operation a builder reports is the leading keyword of the statement it builds, for every builder, also derived ones and those made from the operation itself. Text names of operations, directions, join types and other enumerated constants are fixed and differ from each other, and a number that names no operation or join type never has the name of one.",
  ["inputs"],"all builders and enumerated constants",
  TESTS+"not all builders and constants are covered.",
  ["operations.go","op_type.go","join_type.go","join_condition.go","ordering.go"]+CHG+SEL,[("constants of operations","operations.go")],LAW,LN)
p("P23","Limit and offset bind exactly what was asked for",
  "LIMIT is present when a positive limit was set and OFFSET when a non-zero offset was set, each as a placeholder bound to that very number; nothing is limited otherwise. A select of a single record is always limited to one, and pagination and ordering never reach counts, updates or deletes derived from a select.",
  ["inputs"],"all integer limits and offsets, including negative ones and zero",
  TESTS+"negative and huge numbers are not tried.",
  ["limiter.go","select_many.go","select_single.go","select_base.go"],[("pagination clause","limiter.go")],LAW,LN)
p("P24","Shorthands equal their long forms",
  "Methods of field names, table names and table identifiers, converted selects, shortcuts of the base select, derived statements, and conditions, fields and orderings given one by one or together make the same text and the same parameters as the long forms they stand for.",
  ["inputs","histories"],"all shorthands, all arguments, lists of up to three elements",
  TESTS+"shorthands are tested apart from the long forms, for few arguments.",
  ["field_name.go","field_definition.go","table_ident.go","table_name.go","logical.go"]+SEL+CHG,[("delegation","field_name.go, table_ident.go, table_name.go, select_base.go")],LAW,LN)
p("P25","Values are bound as given, converted once, in order",
  "A value is bound as it is, or as the result of its own database conversion called exactly once; a list keeps the number and order of its elements whatever their type, and nil elements become NULL. Moving a value to another table or field, or passing it through a condition or statement, changes neither its content nor its position.",
  ["inputs"],"values of basic types, converting types, providers, lists of them up to four elements",
  TESTS+"few types and lengths are tried.",
  ["value.go","values_map.go","lib_in.go","lib_like.go","lib_ilike.go"],[("conversion in one place","value.go")],LAW,LN)
p("P26","Unique names keep every name once, in order",
  "Making a list of names unique keeps every distinct name exactly once, invents none, keeps the order of first occurrences, and leaves the given list alone. Doing it twice is the same as doing it once.",
  ["inputs"],"all lists of up to six names, longer ones of distinct names repeated in several ways",
  "One list is tested.",
  ["fields.go","field_name.go","utils.go"],[("set of seen names","field_name.go")],LAW,LN)
p("P27","Getters report what was set",
  "Reading fields, values, tables, joins, members, join types, negation, sorting direction or conditions back from a builder, condition, group, filter or value gives exactly what was set, in order. Setting one attribute does not change what the others report.",
  ["inputs","histories"],"all getters and setters, lists of up to three elements",
  TESTS+"getters are checked for few values.",
  ["group.go","where.go","base.go","value.go","fields.go","join_condition.go","join_tables.go","ordering.go"]+SEL+CHG,[("getters","*.go")],LAW,LN)
p("P28","Field and table identifiers keep name, table and alias apart",
  "Setting the alias or table of a field, or the alias of a table, changes that part only, and reading the parts gives what was set. The written forms contain the table (its alias when there is one) and the name joined by a dot and the alias declaration where due, and a plain or table-qualified field that was written reads back as itself.",
  ["inputs"],"all fields, tables, names and aliases",
  TESTS+"few combinations are tried.",
  ["field_definition.go","field_name.go","table_ident.go","table_name.go"],[("accessors and rendering of identifiers","field_definition.go, table_ident.go")],LAW,LN)
p("P29","Giving nothing, nil or an empty list means the same",
  "Wherever a list is taken (conditions to join or to filter by, fields, orderings, columns, directions, fields to count, values of a list), leaving it out, giving nil and giving an empty list have the same result. An empty list of conditions, orderings or columns adds nothing, an empty field list stands for all fields, a missing direction is ascending, and a group without members disappears from what it is joined with in the same way however its emptiness was written.",
  ["inputs"],"every exported function and method with a variable list of arguments or a list argument, all other arguments arbitrary",
  TESTS+"nearly no test gives an empty list and none a list that is empty but not nil.",
  LOGIC+["where.go","fields.go","ordering.go","values_map.go","value.go","lib_in.go","table_ident.go","table_name.go"]+SEL+CHG,[("lengths, never nil-ness, decide","*.go")],LAW,LN)
p("P30","Printed forms show what they stand for",
  "The String form of a name is the name, that of a filter shows the conditions as they render, that of a field list shows every field in order as the statement lists it, and that of a select shows its table with everything joined, its fields and its filter. Printing depends on nothing else, and deriving or building from a select does not change what it prints.",
  ["inputs"],"all names, fields, tables, joins and conditions; field lists of up to five",
  TESTS+"printed forms are compared for single examples.",
  ["where.go","fields.go","select_base.go","field_name.go","table_name.go"],[("String methods","where.go, fields.go, select_base.go")],LAW,LN)

NA = [
 ("N01","Every statement is accepted by the database",
  "A statement built without error is valid SQL for the target database and its schema.",
  ["inputs","configurations"],"all statements, all databases and schemas",
  "Validity depends on the grammar, the schema and the version of the database server, none of which is in the repository; the structural part (clauses present and in order, placeholders and parameters in step) is claimed by other properties.",
  SEL+CHG),
 ("N02","Identifiers cannot inject SQL",
  "No text accepted as a table or field name changes the structure of the statement.",
  ["inputs"],"all texts",
  "The package does not quote identifiers and rejects only white space, quotes and misplaced dots, by design; the property does not hold (a name such as a;b is accepted) and quoting would change every rendering, so it is not claimed. The part that does hold, rejection of those characters, is claimed by P16.",
  ["field_name.go","field_definition.go","table_ident.go"]),
 ("N03","Rendering takes linear time and memory",
  "The time and memory needed to render a statement grow linearly with its size.",
  ["inputs"],"all statements",
  "Running time and memory are runtime quantities; no static argument in reach bounds allocation and copying of text building for unbounded inputs.",
  ["group.go","where.go"]),
]

def main():
    with open(os.path.join(V,"properties.jsonl"),"w") as f:
        for x in P:
            assert len(x["title"])<=80, x["title"]
            f.write(json.dumps(dict(id=x["id"],title=x["title"],statement=x["statement"],
              quantifier=dict(over=x["over"],text=x["q"]),why_tests_cant=x["why"],
              anchors=dict(files=sorted(set(x["files"])),mechanism=[dict(name=n,where=w) for n,w in x["mech"]],
                observe_at=["exported functions and methods of the package"],hook_needed=None)))+"\n")
        for i,t,s,o,q,r,fl in NA:
            f.write(json.dumps(dict(id=i,title=t,statement=s,quantifier=dict(over=o,text=q),why_tests_cant="Not decidable from the samples of the tests.",
              anchors=dict(files=sorted(set(fl)),mechanism=[dict(name="none",where="-")],hook_needed=None)))+"\n")
    m=dict(version=1,setup_cmd="bash setup.sh",
      checks=[dict(property=x["id"],quick_cmd="bash run.sh %s quick"%x["id"],thorough_cmd="bash run.sh %s thorough"%x["id"],
        evidence_file="evidence/%s.json"%x["id"],technique=x["tech"],level="other",level_note=x["note"]) for x in P],
      not_applicable=[dict(property=i,reason=r) for i,t,s,o,q,r,fl in NA],
      notes="One static analyser (checker/) decides all properties from the current source of /repo; see DESIGN.md.")
    json.dump(m,open(os.path.join(V,"MANIFEST.json"),"w"),indent=1); open(os.path.join(V,"MANIFEST.json"),"a").write("\n")
main()
