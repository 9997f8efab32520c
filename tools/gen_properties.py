#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Numeric folding of sums and products is exact and leaves operands alone",
 "Folding the numbers of a sum or product gives exactly the sum or product of all the leading numeric operands: an integer or a rational in lowest terms when every operand is exact, a machine real as soon as one is a real, a complex number when one is complex, and the operation's identity when there are none. Everything after the leading numbers is reported as remaining, and nothing is dropped or counted twice. No operand is changed by the computation, so re-using a number gives the value it always had.",
 ["inputs"], "all operand lists mixing integers of any size, rationals, reals, complexes and symbolic terms, in any order, for both operations",
 "The stable tests never add or multiply anything; the evaluator tests use a few small literals, while the promotion order, sharing of big-integer storage and rational reduction depend on the whole operand list and its magnitudes.",
 ["expreduce/atoms/calculator.go","expreduce/atoms/ex_integer.go","expreduce/atoms/ex_rational.go","expreduce/atoms/ex_real.go","expreduce/atoms/ex_complex.go"],
 [("ComputeNumericPart / typedRealPart","expreduce/atoms/calculator.go"),("Integer/Rational/Flt/Complex AddX and MulX","expreduce/atoms/ex_*.go")],
 observe=["returned number, its kind, the remaining index, and the operand values after the call"])

prop("C02", "Structural identity agrees with structure, hashing and caching",
 "Two expressions count as the same exactly when they have the same kind, head, number of parts and recursively the same parts (numbers by value, a bare machine real up to its last bit; strings and symbols by full text); equal expressions have equal hashes, and different atoms or different part lists are not conflated. Identity is reflexive, symmetric and transitive on expressions without machine reals, and asking about hash or identity never changes an expression. A hash remembered by an expression is the hash its current contents would give.",
 ["inputs","histories"], "all pairs and triples of well-formed expressions, before and after any sequence of hash requests, part rewrites and copies",
 "No stable test compares expressions; the remaining tests compare results of a few evaluations, not all pairs, and cannot see that two different terms share one hash or that a remembered hash went stale.",
 ["expreduce/atoms/sameq.go","expreduce/atoms/ex_expression.go","expreduce/atoms/ex_integer.go","expreduce/atoms/ex_rational.go","expreduce/atoms/ex_complex.go","expreduce/atoms/ex_string.go","expreduce/atoms/ex_symbol.go","expreduce/atoms/ex_real.go"],
 [("IsSameQ","expreduce/atoms/sameq.go"),("Hash of every expression kind","expreduce/atoms/ex_*.go"),("cached hash handling","expreduce/atoms/ex_expression.go")],
 state=[("CachedHash","the hash remembered by a compound expression, zero when unknown","expreduce/atoms/ex_expression.go")])

prop("C03", "Copies of an expression are faithful and independent",
 "A deep copy is structurally the same as the original and shares no mutable storage with it: rewriting any part of either, at any depth, never shows in the other. A shallow copy has the same parts as the original in its own part list, so replacing or appending a part of one leaves the other's list as it was. Copying never modifies the source.",
 ["inputs","histories"], "all expressions of any shape and depth and all later rewrites of either side",
 "No stable test copies an expression; sharing only shows when a specific later mutation happens at a specific depth.",
 ["expreduce/atoms/ex_expression.go","expreduce/atoms/ex_integer.go","expreduce/atoms/ex_rational.go","expreduce/atoms/ex_real.go","expreduce/atoms/ex_complex.go","expreduce/atoms/ex_string.go","expreduce/atoms/ex_symbol.go"],
 [("DeepCopy / Copy of every kind","expreduce/atoms/ex_*.go"),("ShallowCopy","expreduce/atoms/ex_expression.go")])

prop("C04", "Canonical ordering of expressions is a total order",
 "Comparing any two well-formed expressions (as evaluation leaves them: a product is flat, has at least two factors and at most one leading number) gives before, after or tied; swapping them flips the answer, comparing an expression with itself ties, and before is transitive, so sorting a part list is independent of its initial arrangement up to ties. Numbers come before strings, strings before symbols and compound expressions; exact numbers are ordered by value and text is compared character by character, a proper prefix first. A product or power is ordered by its base or factors so that like terms are adjacent.",
 ["inputs"], "all pairs and triples of expressions built from atoms and compound expressions including powers and products",
 "Order laws quantify over triples of arbitrary trees; the tests check a handful of pairs.",
 ["expreduce/atoms/order.go","expreduce/atoms/ex_expression.go"],
 [("ExOrder and its comparison helpers","expreduce/atoms/order.go"),("compareStrings","expreduce/atoms/order.go"),("Less","expreduce/atoms/ex_expression.go")])

prop("C05", "Sequence-pattern allocations are enumerated exactly once each",
 "For n elements to distribute and a list of slots with lower and upper bounds, enumeration yields every tuple of slot sizes that respects all bounds and sums to n, each exactly once, and nothing else, then ends. For orderless matching, enumeration of assignments yields exactly the ways of dealing the n elements into slots of the allocated sizes (order within a slot irrelevant) that the caller's per-slot form admits, each exactly once, every element used exactly once.",
 ["inputs"], "all slot lists (bounded or unbounded above, possibly empty), all n, all admissibility relations",
 "Existing tests try about ten fixed tables of bounds; missing or duplicated tuples show only for particular combinations of bounds.",
 ["expreduce/matcher/allocations.go"],
 [("allocIter.next","expreduce/matcher/allocations.go"),("assnIter.next","expreduce/matcher/allocations.go")],
 state=[("alloc / stack","current tuple and pending choices","expreduce/matcher/allocations.go")])

prop("C06", "A pattern variable stands for one value throughout a match",
 "When a match succeeds, every pattern variable has exactly one binding and each occurrence of that variable in the pattern matched that same value (a sequence variable that same sequence); a candidate binding that disagrees with an earlier one makes that attempt fail and leaves the earlier bindings as they were. Blanks match exactly the expressions of the requested head (any expression when none is given), and length bounds of sequence blanks are respected. Bindings made while trying an alternative that fails are not visible to later alternatives, and matching never alters the pattern or the expression.",
 ["inputs","histories"], "all patterns built from blanks, named patterns, sequences, alternatives, conditions and tests, against all expressions, along every backtracking path",
 "Backtracking explores combinations of alternatives and repeated variables; the stable tests only check the two enumerators and no test matches a pattern exhaustively.",
 ["expreduce/matcher/matchq.go","expreduce/matcher/pdmanager.go","expreduce/matcher/blank.go","expreduce/matcher/parse_form.go"],
 [("PDManager Define/Update/Copy","expreduce/matcher/pdmanager.go"),("isMatchQRational/matchIter and sequence matching","expreduce/matcher/matchq.go"),("blank capture","expreduce/matcher/blank.go"),("ParseForm","expreduce/matcher/parse_form.go")])

prop("C07", "Applying bindings substitutes simultaneously and everywhere",
 "Applying a set of bindings to an expression replaces every occurrence of each bound variable, at any depth and in head position, by its value, all at once: values are inserted as they are and never searched for further variables. Parts without bound variables are left structurally the same, and neither the original expression nor the bound values are modified.",
 ["inputs"], "all expressions and all finite sets of bindings, including values that mention other bound variables",
 "Capture and repeated substitution appear only with particular combinations of variable names and nesting; no stable test applies bindings.",
 ["expreduce/matcher/pdreplace.go","expreduce/matcher/pdmanager.go","expreduce/atoms/ex_expression.go"],
 [("ReplacePD","expreduce/matcher/pdreplace.go"),("ContainsSymbol and related scans","expreduce/atoms/ex_expression.go")])

prop("C08", "Iterator specifications visit exactly the prescribed values in order",
 "An integer range from a to b with step s takes the values a, a+s, a+2s, ... that do not pass b, for positive and negative steps, and none when b lies on the wrong side; a list iterator takes the list's elements in order; a count takes 1 to n. Several iterators nest with the last varying fastest, and every combination is visited exactly once. When the iteration ends, normally or early, every iteration variable has the value it had before, or none.",
 ["inputs"], "all start, end and step values, all nestings and all prior definitions of the iteration variables",
 "Tests run a few constant ranges with step 1 or 2; sign, rounding at the end of the range and state carried between nested iterators depend on the numbers.",
 ["expreduce/iterspec/iterspec.go"],
 [("SpecFromList and the concrete iterators","expreduce/iterspec/iterspec.go"),("MultiIterSpec","expreduce/iterspec/iterspec.go"),("variable snapshots","expreduce/iterspec/iterspec.go")])

prop("C09", "Parsed operators get the structure their notation prescribes",
 "A chain of one associative operator parses to one flat operation with all operands in their written order, unless parentheses separate them; removing the parenthesis marks changes nothing else. A chain of mixed comparisons keeps every operand and operator in order as one inequality, and chains of one comparison stay that comparison. Pattern abbreviations (_, __, ___, with optional name and head) become the corresponding blank, and names are resolved to exactly one context: an already qualified name is kept as written, a known system name is the system symbol, anything else belongs to the current context.",
 ["inputs"], "all operator chains, parenthesisations, comparison chains, pattern abbreviations and names",
 "The parser tests compare a few strings; chains of arbitrary length and nesting, and names relative to the search path, are not sampled.",
 ["expreduce/parser/interp.go"],
 [("fullyAssoc / removeParens","expreduce/parser/interp.go"),("convertToInequality","expreduce/parser/interp.go"),("pattern abbreviation and context resolution","expreduce/parser/interp.go")])

prop("C10", "Attribute names and attribute flags correspond one to one",
 "Converting a list of attribute names to flags sets exactly the flags whose names occur in the list, whatever the order, repetition or unknown names. Converting flags to names lists exactly the names of the set flags, once each and in alphabetical order. Hence a round trip in either direction loses and invents nothing.",
 ["inputs"], "all lists of names and all combinations of the nineteen flags",
 "Nineteen independent flags have 2^19 combinations; no stable test converts attributes.",
 ["expreduce/atoms/ex_symbol.go"],
 [("StringsToAttributes","expreduce/atoms/ex_symbol.go"),("AttrsToStrings / AttrsToSymList","expreduce/atoms/ex_symbol.go")])

prop("C11", "Output streams deliver every write to the named stream only",
 "Text written to a stream name and number reaches exactly the stream registered under that pair, unmodified and in order, and no other stream; writing to a pair that is not registered is reported as a failure and writes nothing. A lookup by name alone resolves to the standard stream of that name. Listing the open streams gives each registered stream once, in a fixed order.",
 ["inputs","histories"], "all stream names and numbers and all sequences of writes and listings",
 "No test writes to a stream; mis-routing shows only for particular name and number pairs.",
 ["expreduce/streammanager/streammanager.go"],
 [("WriteString","expreduce/streammanager/streammanager.go"),("AsExpr","expreduce/streammanager/streammanager.go")])

prop("C12", "Time accounting adds up",
 "A counter's total and number of calls for a name are the sum of the durations and the number of intervals recorded for that name. Merging one accounting into another adds each name's totals and counts to the receiver's and leaves the source unchanged, so nothing recorded is lost or counted twice whatever the order of records and merges. A report lists the most expensive names first, each at most once, with exactly its total and count, and leaves out a name only in favour of ones at least as expensive.",
 ["inputs","histories"], "all sequences of records and merges over all names and durations",
 "No test of the accounting exists; lost updates show only for names present on one side of a merge.",
 ["expreduce/timecounter/timecounter.go"],
 [("AddTime / Update","expreduce/timecounter/timecounter.go"),("String, TruncatedString","expreduce/timecounter/timecounter.go")])

prop("C13", "Graphics primitives render at the coordinates and style they specify",
 "Every line of a graphics object, in whatever lists it stands, is drawn exactly once, in order, with its coordinates unchanged; elements that are not lines, lists or directives draw nothing and change no style, and a malformed line, point or style directive is reported as an error instead of being drawn wrongly. A style directive applies to the primitives that follow it in the same list and in lists nested below, and stops at the end of its list; it changes only its own aspect (colour, opacity or thickness) and keeps the others in effect. A colour directive produces the colour whose components are the given ones, each between 0 and 1.",
 ["inputs"], "all nestings of primitives and directives and all coordinates",
 "No test renders anything; directive scoping depends on nesting.",
 ["expreduce/graphics/graphics.go"],
 [("renderPrimitive / renderLine / setDirective","expreduce/graphics/graphics.go")])

prop("C14", "Every rational in a result is in lowest terms",
 "A rational number that appears in a result has a positive denominator greater than one, shares no common factor between numerator and denominator, and has the value of the quotient that produced it; a quotient that divides exactly is an integer. Reducing never changes the value and never alters the integers it was made from. Division by zero gives an infinite or undefined result, not a rational.",
 ["inputs"], "all integer numerators and denominators of any size and sign",
 "Tests reduce a few small fractions; sign and size combinations and storage sharing with the inputs are not covered.",
 ["expreduce/builtin_atoms.go","expreduce/atoms/ex_rational.go","expreduce/eval.go"],
 [("rational evaluation","expreduce/eval.go"),("Rational construction","expreduce/atoms/ex_rational.go")])

prop("C15", "The definition store returns what was last stored",
 "Looking up a variable gives the value most recently stored for it, or none if there is none or it was cleared; storing, clearing or changing one symbol never alters another symbol's definitions or attributes. A snapshot of the store keeps the rules it had when it was taken, whatever is changed later. A definition with the same left-hand side (and the same condition) as an earlier one replaces it in its place; every other rule is kept, in its order, and a rule for a literal integer is tried before a rule for a blank with a head, and that before a rule for a bare blank.",
 ["histories"], "all sequences of define, clear, look-up, attribute and snapshot operations over all symbols",
 "The tests define a few symbols once; interference needs a particular history.",
 ["expreduce/definition.go","expreduce/definition_map.go","expreduce/evalstate.go"],
 [("definitionMap","expreduce/definition_map.go"),("Define/GetDef/Clear","expreduce/evalstate.go")])

prop("C16", "Flattening and sequence splicing keep every element in order",
 "Splicing replaces each sequence among the parts of an expression by its elements in place, and flattening replaces each nested expression of the given head, down to the requested depth, by its parts; all other parts are kept as they are, with order and multiplicity preserved and the original left unmodified. Threading a function over lists of equal length gives one application per position with exactly the elements of that position, and lists of different length are left alone.",
 ["inputs"], "all part lists, depths and mixtures of sequences, lists and other expressions",
 "Tests flatten and thread a few small lists; order and multiplicity for all nestings are not sampled.",
 ["expreduce/eval.go","expreduce/builtin_list.go","expreduce/builtin_functional.go"],
 [("mergeSequences / flattenExpr","expreduce/eval.go, expreduce/builtin_list.go"),("threadExpr / listable threading","expreduce/builtin_functional.go, expreduce/eval.go")])

prop("C17", "Printed input form reads back as the same expression",
 "Printing any expression in input form and parsing the text gives an expression that is structurally the same as the printed one.",
 ["inputs"], "all expressions",
 "Round trips are checked for a few literals only.",
 ["expreduce/string.go","expreduce/parser/interp.go","expreduce/atoms/ex_string.go"],
 [("StringForm of every kind","expreduce/atoms, expreduce/string.go"),("Interp","expreduce/parser/interp.go")])

prop("C18", "Evaluation reaches a fixed point",
 "The result of evaluating an expression, when evaluation ends normally, evaluates to itself in the same definitions.",
 ["programs","histories"], "all programs and definition histories",
 "Tests compare single results; the claim is about every reachable evaluation.",
 ["expreduce/eval.go","expreduce/evalstate.go"],
 [("Eval loop","expreduce/eval.go")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
