#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the text stays readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, **anch):
    a = {"files": ["include/mregex/" + f for f in files],
         "mechanism": [{"name": n, "where": "include/mregex/" + w} for n, w in mech]}
    a.update(anch)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "Calls in flight never influence each other's answers",
     "Any number of match, prefix-match and search calls may be in flight at once, interleaved at any input access, "
     "nested inside one another's input iterators, or run over re-used buffers. Each of them returns exactly what its "
     "pattern and flags define for its own input: whether it matched, which range, and the content of every numbered "
     "and named group, for every iterator category the pattern supports. A call that fails reports no content.",
     ["schedules", "inputs", "configurations", "histories"],
     "for all sets of concurrent, nested and consecutive calls, all interleavings of their input accesses, all patterns, "
     "flags, inputs and iterator categories",
     "The tests are single constant-evaluated calls on string literals: nothing ever overlaps, nests or follows another "
     "call at run time, and almost only one iterator category is used.",
     ["regex.hpp", "regex_methods.hpp", "regex_match_context.hpp", "regex_capture.hpp", "match_result.hpp", "ast/nodes",
      "ast/predicates", "ast/indexing.hpp", "ast/inversion.hpp", "utility/distance.hpp", "utility/continuations.hpp"],
     [("one match context per call, no shared mutable state", "regex.hpp"),
      ("continuations hold the state of a call on its own stack", "ast/nodes/sequence.hpp"),
      ("captures are undone when a path is abandoned", "ast/nodes/capture.hpp")],
     state=[{"name": "captures", "meaning": "groups matched so far by this call", "where": "include/mregex/regex_match_context.hpp"}],
     observe_at=["the returned result object", "every operation on the caller's iterators"], hook_needed=None)

prop("C02", "Lazy matchers deliver the exact sequence under any pull history",
     "However a lazy tokenizer, searcher or match range is pulled, copied, moved, assigned, compared, abandoned, "
     "resumed later or interleaved with others, each object delivers the left-to-right sequence of matches of its own "
     "input, each starting where the previous one ended and seeing the text before it as context. It delivers at most "
     "one empty match, nothing twice, nothing skipped, and after its end only non-matches; a copy continues from the "
     "state copied and is independent of the original.",
     ["histories", "schedules", "inputs"],
     "for all histories of pull, copy, move, assign, post-increment, range-for and abandon operations over any number of "
     "lazy objects, all interleavings, patterns and inputs",
     "The tests pull a fresh object to its end once; copies, assignments, resumption, pulls after the end and "
     "interleaved objects never occur.",
     ["match_result_generator.hpp", "utility/input_range_adapter.hpp", "regex.hpp", "regex_methods.hpp"],
     [("position and activity are plain members of each object", "match_result_generator.hpp"),
      ("the range stores only the current result", "utility/input_range_adapter.hpp")],
     state=[{"name": "current position / active flag", "meaning": "where the next match starts", "where": "include/mregex/match_result_generator.hpp"}],
     observe_at=["each pulled result", "activity and end-of-range tests"], hook_needed=None)

prop("C03", "Lazy matching reads the input only when pulled, and reads it as it is then",
     "Creating a lazy tokenizer or searcher reads no character; a match range reads only when it is created or advanced, "
     "and asking for its begin, end, current element, activity, a comparison or a copy reads nothing. Each pull decides on "
     "the text as it stands at that moment, so text written after one pull and before the next is seen by the next, and "
     "text changed after being delivered never alters later answers other than as context.",
     ["histories", "inputs", "schedules"],
     "for all sequences of pulls with arbitrary rewrites of the input between any two of them (a growing log, a reused "
     "ring buffer), for all patterns and iterator categories",
     "Constant-evaluated tests cannot change an input between two pulls, and nothing counts input accesses.",
     ["match_result_generator.hpp", "utility/input_range_adapter.hpp", "regex.hpp"],
     [("matching happens inside the pull, on iterators into the caller's text", "match_result_generator.hpp")],
     observe_at=["dereferences of the caller's iterators", "each pulled result"], hook_needed=None)

prop("C04", "Only the given input is ever touched, even when it changes under the reader",
     "A call reads characters, and moves iterators, only inside the range it was given: never before its first or past "
     "its last position, never through an iterator of another range, and never backwards through an iterator that can "
     "only move forward. This holds, and every reported range lies inside the input with its start not after its end, "
     "even when another party overwrites characters at any moment while the call runs.",
     ["schedules", "inputs", "fault_sequences"],
     "for all patterns, inputs, windows into larger buffers, iterator categories and all moments at which another task "
     "overwrites characters of the input while a call is in progress",
     "Constant evaluation rejects out-of-range reads only on the sampled inputs and only for the pointer category, and "
     "the text cannot change during a test.",
     ["ast/nodes", "ast/predicates", "utility/distance.hpp", "utility/reversed_range_view.hpp", "regex_methods.hpp", "regex_capture.hpp"],
     [("end is compared before every read", "ast/nodes/trivially_matchable.hpp"),
      ("length is checked before unrolled reads", "utility/distance.hpp"),
      ("begin is compared before looking back", "ast/predicates/anchor_predicates.hpp")],
     observe_at=["every operation on the caller's iterators", "reported group ranges"], hook_needed=None)

prop("C05", "Allocation failure never corrupts, leaks or kills; views need no memory",
     "Matching, searching and pulling that returns views succeeds with its normal answer even if every memory allocation "
     "fails. An operation that produces an owning copy reports an allocation failure as the standard out-of-memory "
     "exception: the program is not terminated, nothing is leaked, the source result and input are unchanged, and "
     "repeating the operation once memory is available gives the normal answer.",
     ["fault_sequences", "inputs", "histories"],
     "for all patterns and inputs, every owning operation, and every subset of allocations failing (the n-th, several, or all)",
     "No test makes an allocation fail, and constant evaluation cannot.",
     ["match_result.hpp", "regex_capture.hpp", "regex.hpp", "utility/tuple.hpp", "match_result_generator.hpp"],
     [("views hold iterators only", "regex_capture.hpp"),
      ("exception specifications allow copies of strings to throw", "match_result.hpp")],
     observe_at=["global allocation functions", "exceptions leaving the call", "results before and after"], hook_needed=None)

prop("C06", "Owning results survive whatever happens to the input they came from",
     "A result that owns its content, obtained by matching an expiring string-like object or by converting a view, keeps "
     "exactly the content matched at that moment: outcome, length and every group, by number and by name. Overwriting, "
     "freeing or reusing the input or the view afterwards, and copying, moving, converting to an optional or destroying "
     "other results, never change it.",
     ["histories", "schedules", "inputs"],
     "for all histories of creating, copying, moving, assigning, converting and destroying owning results interleaved "
     "with overwriting, freeing and reusing the inputs, by any number of tasks",
     "Tests cannot free or reuse the memory behind a result, and never combine copies and moves of owning results.",
     ["match_result.hpp", "regex_capture.hpp", "regex_capture_storage.hpp", "utility/type_traits.hpp", "regex.hpp"],
     [("deep copy of every group", "match_result.hpp"), ("expiring inputs are detected by overload", "regex.hpp")],
     observe_at=["every accessor of the owning result, re-read after each fault"], hook_needed=None)

prop("C07", "Exceptions from user callbacks and generators lose and repeat nothing",
     "When a user-supplied group visitor, group transformer or value generator throws, the exception reaches the caller "
     "unchanged, the callback has been called on exactly the elements before the failing one in order and on none after, "
     "everything created on the way is destroyed once, and the result or range the call was made on is as it was. Repeating "
     "or continuing the operation then delivers exactly the remaining values, each once and in order.",
     ["fault_sequences", "histories", "schedules"],
     "for all call counts at which the callback or generator throws, repeatedly, on any result or range, in any history, "
     "with other tasks interleaved",
     "No test supplies a callback or generator that throws.",
     ["utility/input_range_adapter.hpp", "utility/tuple.hpp", "match_result.hpp"],
     [("the new value is computed before the current one is replaced", "utility/input_range_adapter.hpp"),
      ("groups are visited by an ordered fold", "utility/tuple.hpp")],
     observe_at=["the callback's own call log", "live-object counts", "exceptions leaving the call"], hook_needed=None)

prop("C08", "Streaming a result writes exactly its text, or stops at the stream's error",
     "Writing a match result or one of its groups to an output stream delivers exactly the matched characters, in order "
     "and once, however the stream buffers (no field width set). If the stream fails part-way, what arrived is a prefix of the text, nothing more is sent after the failure, "
     "the stream shows the failure (or throws it if asked to), and the result itself is unchanged and can be written again.",
     ["fault_sequences", "inputs", "schedules"],
     "for all results and groups, all stream buffer sizes, and all points at which the stream refuses a character or its "
     "buffer throws, with several tasks writing to their own streams",
     "No test writes to a stream.",
     ["match_result.hpp", "regex_capture.hpp"],
     [("characters are copied one by one through the stream's own output operation", "regex_capture.hpp")],
     observe_at=["the characters the sink accepted", "the stream's state after the call"], hook_needed=None)

prop("C09", "Every call finishes on its own, whatever the others do",
     "A call in progress never waits for another call: with any other calls suspended at any input access, or abandoned "
     "there for good, it still completes. Every call completes after a bounded number of accesses to its own input, "
     "including for patterns that repeat something that can match nothing and for sequences of pulls.",
     ["schedules", "fault_sequences", "inputs"],
     "for all patterns, inputs and iterator categories, all choices of which other calls stall or are abandoned and where",
     "Tests run one call at a time, and a call that waited for another one could not be observed.",
     ["ast/nodes/quantifiers", "regex_methods.hpp", "match_result_generator.hpp", "ast/traits.hpp", "regex.hpp"],
     [("an empty repetition is not repeated again", "ast/nodes/quantifiers/repetition.hpp"),
      ("a lazy matcher stops after an empty match", "match_result_generator.hpp"),
      ("no locks and no shared state", "regex.hpp")],
     observe_at=["count of input accesses per call", "completion of the call"], hook_needed=None)

prop("C10", "A failing input is never turned into an answer",
     "When the input fails with an exception at any access, no call returns a result computed as if the access had "
     "succeeded or the input had ended there: the failure either reaches the caller or stops the program. Operations that "
     "copy the text of an existing result out pass the exception of a failing read on, leave that result unchanged, leak nothing, and give "
     "the full text when repeated after the input recovers.",
     ["fault_sequences", "inputs", "schedules"],
     "for all patterns, inputs, iterator categories and all accesses at which the input fails, once or persistently",
     "No test has an input that can fail.",
     ["regex.hpp", "regex_capture.hpp", "match_result.hpp", "match_result_generator.hpp", "ast/nodes"],
     [("no exception handler anywhere in matching", "regex_methods.hpp"),
      ("copying operations are not marked as never throwing", "regex_capture.hpp")],
     observe_at=["whether a call in which a read failed returns", "exceptions leaving copying operations"], hook_needed=None)

prop("C11", "Invalid patterns are rejected when compiling",
     "A pattern that does not conform to the documented syntax never yields a usable regular expression: the program "
     "does not compile. Every conforming pattern does compile.",
     ["inputs"], "for all pattern strings", "Tests sample a few dozen invalid patterns.",
     ["parser/parser.hpp", "grammar/grammar.hpp", "parser/state.hpp"],
     [("compile-time LL(1) parser with an explicit error state", "parser/parser.hpp")])
prop("C12", "Compile-time and run-time evaluation agree",
     "Matching a given pattern against a given input gives the same result whether it is evaluated by the compiler or at "
     "run time.",
     ["inputs", "configurations"], "for all patterns, flags, inputs and iterator kinds usable in constant expressions",
     "Tests only evaluate at compile time.",
     ["regex.hpp", "ast/nodes"], [("the same templates serve both", "regex.hpp")])
prop("C13", "Expressions and equivalent string patterns behave the same",
     "A regular expression composed from expression objects behaves exactly like the equivalent string pattern.",
     ["programs", "inputs"], "for all compositions of expression components and all inputs",
     "Tests compare a fixed list of expressions.",
     ["xpr/operators.hpp", "xpr/components.hpp", "xpr/adapters.hpp"],
     [("operators build the same tree types as the parser", "xpr/operators.hpp")])
prop("C14", "Static facts about groups agree with the pattern",
     "The number of groups, their numbers in order of opening parenthesis, and their names, as available at compile "
     "time, are those of the pattern text.",
     ["inputs"], "for all patterns", "Tests sample a few patterns.",
     ["ast/traits.hpp", "ast/indexing.hpp", "symbols/names.hpp"], [("pre-order numbering", "ast/indexing.hpp")])

prop("C15", "View results keep designating what they matched",
     "A result that only views its input keeps its outcome and goes on designating the same ranges for as long as it lives: "
     "further calls, pulls from or destruction of the lazy object that delivered it, and copying, assigning, converting, "
     "visiting, clearing or destroying other results by any interleaved party never change it. Reading a group gives the "
     "characters that are in its range at that moment and reads none outside it. Texts read from several results or "
     "groups and held at the same time do not disturb one another.",
     ["histories", "schedules", "inputs"],
     "for all histories of calls, pulls, copies, assignments, conversions, clearings, destructions and writes to the input "
     "over any number of results and lazy objects, all interleavings, patterns and inputs",
     "Tests look at a result once, right after the call that made it; results never outlive what made them, coexist, or see "
     "their input change.",
     ["match_result.hpp", "match_result_generator.hpp", "regex_capture.hpp", "regex_capture_storage.hpp", "regex_match_context.hpp",
      "utility/input_range_adapter.hpp", "regex.hpp"],
     [("a result holds its own copy of every group's iterators", "match_result.hpp"),
      ("each pull works on a fresh context", "match_result_generator.hpp"),
      ("content of a group is computed from its iterators whenever asked", "regex_capture.hpp")],
     observe_at=["every accessor of every live result after each operation", "input positions read while a group is read"], hook_needed=None)

prop("C16", "No process-wide setting alters an answer",
     "What a pattern matches is fixed when it is compiled: whatever locale or character classification the process has "
     "installed, for C or for C++, and whenever another party changes it, even in the middle of a call or between two pulls, "
     "every call and every pull returns exactly what the pattern and its flags define in terms of ASCII. Matching leaves those settings as "
     "they are.",
     ["configurations", "histories", "schedules", "inputs"],
     "for all process-wide locale settings, all moments at which they change, all patterns, flags and inputs, in particular "
     "characters about which locales disagree",
     "Tests are evaluated by the compiler, where there is no locale.",
     ["utility/char_traits.hpp", "ast/nodes/terminals/literal.hpp", "ast/nodes/terminals/range.hpp", "ast/nodes/terminals/backref.hpp",
      "ast/nodes/set.hpp", "ast/predicates/anchor_predicates.hpp", "ast/astfwd.hpp"],
     [("characters are classified and folded by arithmetic on their codes", "utility/char_traits.hpp")],
     observe_at=["the returned result object", "the installed locale after a call"], hook_needed=None)

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
import re
for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    n = len(re.findall(r"[.](?:\s|$)", p["statement"])); assert n <= 3, (p["id"], n)
