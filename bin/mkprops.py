#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the entries stay uniform)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state, observe):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=x) for x in state], observe_at=[o.strip() for o in observe.split(";")], hook_needed=None)))

T="src/tree.c"; A="src/ast.c"; B="src/betree.c"; C="src/config.c"
prop("P01","A search returns exactly the matching expressions",
 "For every set of registered expressions and every event that supplies the required attributes, a search reports the id of each registered expression whose logical evaluation on that event is true, and no other id; an expression registered under an id is reported once per registration. No expression is lost or duplicated as more are added, whatever values, operators and attribute counts are involved.",
 ["inputs","programs","histories","configurations"],
 "every finite history of variable declarations and insertions (ids may repeat), every expression of the language over them, every valid event, every leaf capacity",
 "the answer depends on the interaction of all stored expressions, the shape the index took while they were added, and the event; a test fixes one of each",
 [T,A,B,"src/memoize.c"],[("index search","tree.c search over the partition tree"),("expression evaluation","ast.c match_node"),("candidate shortcut","tree.c per-expression undefined bitmaps")],
 ["partition tree","stored expressions","event values"],"matched count and id list of the search report")
prop("P02","Answers do not depend on how the index was built",
 "Two indexes holding the same expressions over the same attributes give the same set of ids for every event, whatever the insertion order, leaf capacity, minimum partition size, and declared value ranges or distinct-value counts that admit the expressions. This holds also for events whose values lie outside the declared ranges.",
 ["histories","configurations","inputs"],
 "all permutations of an insertion history, all capacities 1..255 and partition sizes, all declared ranges, all events inside or outside the ranges",
 "the shape of the partition tree is determined by the whole history; a test sees one shape",
 [T,A],[("partitioning and clustering","tree.c space_partitioning, space_clustering"),("range derivation","ast.c get_variable_bound"),("open-ended descent","tree.c is_event_enclosed")],
 ["partition tree","attribute domains"],"matched ids of twin indexes for the same event")
prop("P03","Comparison, equality, set and list operators mean what they say",
 "Each comparison, equality, set-membership and list operator yields its mathematical result for every constant and every attribute value of the type it is defined on, including negative and very large integers, fractional numbers, duplicated or unsorted list elements, empty lists and strings that were never seen before. The negative forms are the exact complement of the positive forms whenever the attribute is defined, and integer constants compared with a fractional attribute are converted.",
 ["inputs","programs"],"every operator, constant and event value of each attribute type",
 "the value space is infinite and merge-style list algorithms fail only for specific relative positions of elements",
 [A,"src/value.c",T],[("operator evaluation","ast.c match_*_expr"),("list normalisation","ast.c sort_lists, tree.c sort_event_lists")],
 ["expression constants","event values"],"whether the single registered expression is reported")
prop("P04","Undefined attributes make only their own condition false",
 "A condition on an attribute that the event leaves undefined is false, 'is null' is true exactly when the attribute is undefined, and and/or/not combine these results as usual, so that an expression that does not need the undefined attribute is still decided by the others. Deciding an expression early from the set of undefined attributes never changes the answer, for any number of declared attributes.",
 ["inputs","programs","configurations"],"every expression (nested negations included), every subset of optional attributes left undefined, any number of attributes (beyond 64 and 128)",
 "the shortcut is precomputed per expression and attribute over all nestings of not/and/or; sample tests cannot cover the combinations",
 [T,A],[("shortcut derivation","tree.c short_circuit_for_node"),("shortcut application","tree.c try_short_circuit"),("undefined test","var.c / ast.c")],
 ["undefined bitmap","per-expression shortcut bitmaps"],"matched ids")
prop("P05","Sharing of sub-expressions is invisible in the answers",
 "An expression is reported for an event if and only if it would be reported when it is the only one registered: which other expressions are present, sharing equal or similar parts with it, never affects it. Two sub-expressions share a cached result only when they are the same condition with the same operator, attribute, constants and context, and equal sub-expressions do share one.",
 ["programs","histories","inputs"],"all collections of expressions with shared, near-equal and nested sub-expressions; all events; evaluation orders induced by the index",
 "a wrong sharing decision shows only for a specific pair of expressions evaluated in a specific order on an event that tells them apart",
 ["src/memoize.c","src/hashmap.c","src/jsw_rbtree.c","src/ast_compare.c",A],[("predicate interning","hashmap.c assign ids"),("structural comparison","ast_compare.c eq_expr"),("result cache","memoize.c")],
 ["interned predicate table","per-search result cache"],"matched ids; number of interned and shared predicates; memoized count of the report")
prop("P06","Existence queries agree with searches",
 "An existence query answers true exactly when a search with the same event would report at least one expression; when a search refuses the event, the existence query answers false. Neither kind of query changes the index or later answers.",
 ["inputs","histories"],"every index and event, both for textual and for constructed events",
 "the two queries follow different code paths whose agreement must hold on every index shape",
 [B,T],[("existence traversal","tree.c existence search"),("search traversal","tree.c search")],
 ["partition tree","event"],"return value of the existence query against the report of the search")
prop("P07","Equivalent events get equivalent answers",
 "The same attribute values give the same answer whether the event is written as text or built through the programming interface, whatever the order of attributes, the order and repetition of list elements, the spelling of whitespace and quotes, explicit nulls instead of absent attributes, empty lists, and integer literals for fractional attributes. Repeating a query gives the same answer.",
 ["inputs","histories"],"all events and all their equivalent presentations, in any sequence of queries",
 "equivalence ranges over all presentations of all events",
 ["src/event_parser.y","src/event_lexer.l",T,B],[("event text parser","event_parser.y"),("value normalisation","tree.c fill_event, sort_event_lists"),("slot assignment","betree.c betree_set_variable")],
 ["event variables"],"matched ids of each presentation")
prop("P08","Rejected expressions change nothing",
 "An expression that is not in the language, names an undeclared attribute, lacks a constant it needs, or would exceed the number of distinct strings declared for an attribute is refused with a failure result, and afterwards every query answers as if the attempt had never been made. A refusal never aborts the process and never prevents later valid expressions from being accepted.",
 ["programs","histories"],"every malformed or invalid expression, at any point of any history of insertions, through each of the registration calls",
 "the rejection may happen after part of the shared tables were touched; the damage shows only in later operations",
 [B,A,C,"src/parser.y","src/lexer.l"],[("syntax check","parser.y"),("attribute check","ast.c all_variables_in_config"),("constants check","ast.c assign_constants"),("capacity check","ast.c all_bounded_strings_valid")],
 ["string tables","partition tree","interned predicates"],"return value of the registration and all later answers")
prop("P09","Required attributes are enforced",
 "A search or existence query whose event leaves an attribute undefined that was declared as required is refused: the search returns failure and reports nothing, the existence query answers false. When all required attributes are present the event is accepted, whichever optional ones are missing.",
 ["inputs","configurations"],"every subset of attributes defined by the event and every assignment of required/optional to declared attributes, any position and count",
 "there are exponentially many combinations of required and supplied attributes",
 [T,B],[("validation","tree.c validate_variables")],["attribute domains","event variables"],"return value of the query and contents of the report")
prop("P10","The report's counts are accurate",
 "After a successful search the report lists as many ids as its matched count, its evaluated count is the number of candidate expressions examined, its shorted count is the number of those decided from undefined attributes alone, and its memoized count is the number of sub-expression evaluations answered from the cache. Searches that reuse a report add to it, and a refused search leaves it unchanged.",
 ["inputs","programs","histories"],"every index and event",
 "exact counts depend on index shape, evaluation order and sharing across all candidates",
 [T,"src/ast.c","src/memoize.c"],[("report update","tree.c search loop"),("cache hit count","ast.c match_node")],
 ["report"],"all report fields")
prop("P11","Two-phase registration is sound",
 "Building an expression first and inserting it later gives the same answers as inserting it directly, in any interleaving of building and inserting several expressions; building alone changes no answer. Building succeeds exactly for expressions of the language whose attributes are declared, whose operators fit the attribute types and whose required constants are supplied (declared numbers of distinct values limit direct insertion only), and learning value ranges from expressions never changes which expressions match.",
 ["histories","programs","inputs"],"all interleavings of building, inserting, range learning and searching; well-typed and ill-typed expressions",
 "ranges are widened between building and inserting, so stored partitions and new expressions disagree in history-dependent ways",
 [B,A,T],[("build","betree.c betree_make_sub"),("type check","ast.c all_exprs_valid"),("range learning","betree.c change_boundaries")],
 ["attribute domains","partition tree","string tables"],"success of the build, matched ids afterwards")
prop("P12","String and enum values keep their identity",
 "Two strings (or two enumerated integers) are treated as equal exactly when they are the same value for the same attribute; a value that no expression mentions is different from every mentioned one, and values of different attributes never interfere. An attribute declared for at most N distinct values accepts inserted expressions mentioning up to N distinct values and refuses one that would need more, without using up capacity when it refuses.",
 ["inputs","histories","configurations"],"every assignment of values to attributes, every order of first mention, every capacity including the exact limit",
 "numbering is assigned by first mention over the whole history and collisions appear only at capacity limits or for values never mentioned",
 [C,A,"src/map.c",B],[("value numbering","config.c get_id_for_string, get_id_for_ienum"),("capacity check","ast.c all_bounded_strings_valid")],
 ["string and enum tables"],"matched ids, acceptance of insertions")
prop("P13","The index stores every expression exactly once where a search can reach it",
 "After every history of insertions each registered expression is stored in exactly one leaf; it uses every attribute that partitions the path to that leaf, no attribute partitions a path twice, and the value range of each partition on the path covers every value of that attribute for which the expression could match. Partition ranges nest, and no leaf holds more than its capacity.",
 ["histories","configurations","programs"],"every insertion history, leaf capacity, minimum partition size and domain, including repeated splitting down to single values",
 "structural invariants must hold after every prefix of every history; the suite inspects a few hand-built shapes",
 [T,A],[("placement","tree.c insert_be_tree, insert_cdir"),("splitting","tree.c split_value_bound"),("range derivation","ast.c get_variable_bound")],
 ["partition tree"],"the tree structure reachable from the handle")
prop("P14","Frequency caps are applied correctly",
 "A frequency-cap condition (with a limit and a window that are not negative) is true when the event carries no cap entry for its kind, the campaign-side id taken from the registered constants and its namespace; otherwise the first such entry decides: with a positive window it passes if the entry has expired or its count is below the limit, without one only the count decides. If the caps or the current time are undefined it is false, and an expression lacking the constant it needs is refused.",
 ["inputs","programs"],"all kinds, ids, namespaces, limits, windows, timestamps (microseconds) and current times, including the exact window boundary",
 "boundary behaviour depends on exact timestamp arithmetic and on multi-field matching of entries",
 ["src/special.c",A],[("cap evaluation","special.c within_frequency_caps"),("constant binding","ast.c assign_constants")],
 ["event frequency caps","current time","bound constants"],"whether the expression is reported")
prop("P15","Segment membership conditions respect time",
 "'Within' is true exactly when the event's segment list (ordered by id) contains the segment with a timestamp no older than the given number of seconds before the current time, and 'before' exactly when it contains it with an older timestamp; both are false when the segment is absent or the list or current time is undefined. The default segment list is used when no attribute is named, and timestamps are in microseconds.",
 ["inputs","programs"],"all segment lists sorted by id, ids, ages and current times, including exact boundaries",
 "boundary cases of the age comparison and list scanning positions are unbounded",
 ["src/special.c",A],[("segment evaluation","special.c segment_within, segment_before")],["event segments","current time"],"whether the expression is reported")
prop("P16","Text and location conditions are evaluated correctly",
 "Contains, starts-with and ends-with hold exactly when the attribute's text contains, begins with or ends with the pattern, byte for byte, for texts and patterns of any length including equal and longer patterns. The radius condition holds exactly when the great-circle distance between the event's position and the given point, in kilometres on a sphere of the Earth's mean radius, does not exceed the radius.",
 ["inputs","programs"],"all texts and patterns; all positions and radii up to the stated numeric margin",
 "off-by-one errors in matching appear only for particular overlaps of text and pattern",
 ["src/special.c","src/utils.c",A],[("text matching","special.c contains, starts_with, ends_with"),("distance","special.c geo_within_radius")],["event text","event position"],"whether the expression is reported")
prop("P17","The expression language is parsed as documented",
 "Every expression of the language is accepted and means what its grammar says: 'not' binds tighter than 'and', which binds tighter than 'or', both group to the left, parentheses override, keyword and symbol spellings, quote styles, whitespace and letter case of attribute names are interchangeable, and constants may stand on either side of a comparison. Text outside the language, including text with anything left over after a complete expression, is refused.",
 ["programs"],"all token sequences and their spellings",
 "the language is infinite; tests parse a few dozen strings",
 ["src/lexer.l","src/parser.y",A],[("tokens","lexer.l"),("grammar","parser.y"),("operand reordering","ast.c ast_bool_expr_binary_create")],["parsed expression"],"acceptance of the insertion and answers to events that distinguish parses")
prop("P18","Indexes are independent and release everything",
 "Operations on one index never affect another, in any interleaving; an index can be created, filled, queried and released repeatedly, and releasing it together with its events and reports returns all memory obtained through it, including memory used by rejected expressions and refused events. No operation on valid input reads or writes outside its own memory or terminates the process.",
 ["histories"],"all interleavings of operations over several indexes, with accepted and rejected expressions and events",
 "leaks and cross-talk need specific failing paths and interleavings; the suite never checks the balance",
 [B,T,C,A],[("release","betree.c betree_free, tree.c free_*"),("error paths","betree.c early returns")],["heap","indexes"],"allocation balance and answers")
prop("P19","Only candidates compatible with the event are examined",
 "A search examines an expression only if, for every partition on its path, the event leaves the partitioning attribute undefined (for an optional attribute) or supplies a value that falls in the partition's range (a list: whose span from smallest to largest element meets the range, or an empty list), where the outermost ranges are open-ended; each such expression is examined exactly once. Expressions filed under values the event excludes cost nothing.",
 ["histories","inputs","configurations"],"every index shape and event",
 "pruning losses are invisible in the answers, and pruning excess shows up only for particular shapes",
 [T],[("descent","tree.c match_be_tree, search_cdir, is_event_enclosed")],["partition tree","event"],"evaluated count against the structure of the index")
prop("P20","Attributes can be declared from text and an index can be emptied",
 "Declaring an attribute with a line 'name|type|allow_undefined[|min[|max]]' (optionally ended by a line break) has the same effect as declaring it through the typed calls: the same position, name, type, optionality, range or number of distinct values; missing ends are open, and an integer list is bounded only if both ends are given. Emptying an index keeps its attributes, their ranges, the strings and enumerated values already known, and removes every registered expression: afterwards it answers, accepts and counts like an index of the same attributes into which only the later expressions were inserted, and all memory is returned on release.",
 ["configurations","histories","inputs"],"every type, optionality and combination of ends; every history of inserting, building, querying and emptying, repeated any number of times",
 "the effect of a declaration shows only in later refusals, partitions and answers; what emptying forgets to reset shows only in later histories",
 [B,T,C],[("declaration from text","betree.c add_variable_from_string"),("emptying","tree.c empty_tree"),("typed declarations","betree.c betree_add_*_variable, config.c add_attr_domain_*")],
 ["attribute domains","partition tree","interned predicates"],"declared domains, answers and structure of an index declared by text and of one declared by calls; answers after emptying")
prop("P21","Expressions are compared, copied and printed faithfully",
 "The textual form of a parsed expression, parsed again, is the same expression (for constants with at most two decimals and strings without double quotes). A copy of an expression equals its original, is independent of it and behaves alike. The order used to find equal sub-expressions is a total order in which two expressions are equal exactly when they are the same condition with the same operator, attribute, constants and context, and the equality test agrees with it.",
 ["programs","inputs"],"every expression of the language, every pair and triple of expressions, every kind of special condition and constant",
 "agreement and order laws range over all pairs and triples; a field left out of a comparison or copy matters only to expressions that differ in just that field",
 ["src/printer.c","src/clone.c","src/ast_compare.c",A],[("printing","printer.c ast_to_string"),("copying","clone.c clone_node"),("order","ast_compare.c expr_cmp"),("equality","ast.c eq_expr")],
 ["parsed expressions"],"printed text, printed text of the copy, order and equality of all pairs of built expressions")
prop("P22","Learned ranges cover what was learned and nothing else changes",
 "Learning the ranges of attributes from an expression, or building an expression, moves the range of exactly the attributes whose conditions name a constant: an end that is open closes at the outermost value the conditions name (for a strict comparison the neighbouring value it admits; under a negation, that of the opposite comparison), a closed end only moves outwards, and the range of a string or enumerated attribute grows to the number of values known. The ranges do not depend on the order in which expressions are learned, on repetition or on how they are joined. Inserting, searching, refused expressions and emptying leave the ranges alone, and no answer ever depends on what was learned.",
 ["programs","configurations","histories"],"every condition under any nesting of connectives and negations, every combination of open and closed ends, every order of learning among all other calls",
 "ranges are invisible in answers; they depend on the whole history of learning and on the polarity of every condition",
 [B,C],[("learning","betree.c betree_change_boundaries, change_boundaries, get_simple_variable_bound"),("building","betree.c betree_make_sub")],
 ["attribute domains","known values"],"ranges of all attributes after any call; answers of an index that learned and one that did not")
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
for p in P: assert len(p["title"]) <= 80, p["id"]
print(len(P))
