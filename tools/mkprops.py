#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place the properties are worded)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

INSTR = "None in /repo: yield points, map order, sync primitives, clock and random draws are put behind the simulator's seam by instrumenting a scratch copy at check time."
TREES = ["glob/tree.go", "gglob/gtree.go", "gtags/tree.go", "gtags/items.go", "pkg/items/tree.go"]
MATCH = ["glob/glob.go", "gglob/gglob.go", "gtags/tagged_term.go", "pkg/items/items.go"]

prop("C01", "Concurrent matching is isolated",
 "Compiled patterns and batch matchers that are no longer being registered into may be shared by any number of callers matching at the same time. Each call returns and delivers exactly what it would have returned and delivered had it run alone on a freshly built matcher, whatever the interleaving, and the calls do not race on memory.",
 ["schedules", "histories"], "Every interleaving of any number of match calls (plain globs, dot-separated globs, tag queries, single and batch, every calling form) on shared compiled objects.",
 "Every existing test matches from one goroutine; 'go test -race' therefore sees no sharing at all, and no test decides an interleaving.",
 TREES + MATCH, [("matching keeps all its state in locals and in the caller's sink", "pkg/items/items.go:matchItems, pkg/items/tree.go:TreeItem.match*, gglob/gtree.go:MatchItems*, gtags/items.go:MatchByTags*")],
 observe=["return values and sink deliveries of Match/MatchByParts/MatchByTags/MatchByTagsMap", "race-detector reports under the simulated schedule"], hook=INSTR)
prop("C02", "An abandoned match leaves no trace",
 "If the caller's result sink panics, or the calling goroutine exits, in the middle of a match, the matcher and every compiled pattern stay fully usable. Every later or concurrent match by any caller still returns and delivers exactly what it would have without the abandoned call, and no caller is left blocked.",
 ["fault_sequences", "schedules"], "Every point of delivery at which a sink can fail, any number of failures, any interleaving with other callers.",
 "No test uses a failing sink; the only sinks in the tests are the library's own, which cannot fail.",
 TREES + ["pkg/items/store.go"], [("sink called synchronously with no shared match state held", "pkg/items/tree.go, gglob/gtree.go, gtags/items.go")],
 observe=["results of matches that run during and after the abandoned one"], hook=INSTR)
prop("C03", "Registration follows one sequential registry",
 "Whatever the order in which callers (one at a time) register patterns, a batch matcher accepts a non-empty, well-formed pattern exactly when its index is non-negative and unused and neither its raw nor its normalized text was accepted before. An accepted registration returns the pattern's normalized text and its index, and the matcher's pattern-to-index and index-to-pattern tables then list exactly the accepted patterns; a duplicate pattern is refused with the index that already holds it.",
 ["histories", "schedules"], "Every sequence of registrations from any number of callers, mixing raw and precompiled patterns, duplicates by raw text, by normalized text and by index.",
 "The tests register fixed lists in one order, ignore the returned text and index, never reuse an index, and never exercise the registration of precompiled patterns.",
 ["glob/tree.go", "gglob/gtree.go", "gtags/tree.go"], [("raw/normalized/index lookups before insertion", "glob/tree.go:Add,AddGlob; gglob/gtree.go:Add,AddGlob; gtags/tree.go:Add,AddTerms")],
 state=[("Globs/Queries", "accepted raw and normalized text -> index", "glob/tree.go, gglob/gtree.go, gtags/tree.go"), ("GlobsIndex/QueryIndex", "index -> normalized text", "same")],
 observe=["normalized, n, err of every registration", "Globs, GlobsIndex, Queries, QueryIndex"])
prop("C04", "A refused registration leaves no trace",
 "A registration that fails for any reason (malformed pattern, unclosed bracket or quote, bad regular expression, empty path node or tag key, too many conditions, negative or used index, duplicate pattern) returns an error instead of panicking. It changes neither the matcher's tables nor any later match result or registration decision: the matcher behaves as if the failed call had never been made.",
 ["fault_sequences", "histories"], "Every placement of any number of refused registrations inside any registration and matching history.",
 "The tests stop at the error value of a single parse; none looks at a matcher after a refused registration.",
 ["glob/tree.go", "gglob/gtree.go", "gtags/tree.go", "gtags/tagged_term.go", "glob/glob.go", "gglob/gglob.go"], [("parse and duplicate checks complete before the tree is touched", "glob/tree.go:Add; gglob/gtree.go:Add; gtags/tree.go:Add")],
 observe=["tables, match results and later registration results against a twin matcher that never saw the refused calls"])
prop("C05", "A batch match reports exactly the accepted matching patterns",
 "At any point of any history in which registrations are exclusive and matches are not, matching a value reports exactly the patterns accepted so far that match it, each with its own normalized text and index: earlier registrations are never lost, altered or mixed up by later ones. Dot-separated and tag-query matchers report each such pattern exactly once, the plain matcher at least once.",
 ["histories", "schedules", "inputs"], "Every history of registrations and matches by several callers under a readers-writer lock, over all patterns of the supported syntax and all text values.",
 "The tests build a few fixed trees, each once and in one order, and probe a handful of values; the sharing of tree nodes between patterns depends on the whole registration history.",
 TREES + MATCH + ["pkg/items/store.go", "pkg/items/group.go", "pkg/items/stringlist.go", "pkg/utils/runesranges.go"], [("common prefixes, suffixes and terms share nodes; only the last node of a pattern is terminal", "glob/tree.go:addGlob, gglob/gtree.go:addGGlob, gtags/items.go:Parse,findOrAppend")],
 state=[("Terminated", "pattern text and index at the node where a pattern ends", "pkg/items/store.go")],
 observe=["sink deliveries of every match, against a list model with its own pattern semantics"], hook=INSTR)
prop("C06", "Arrival order of registrations does not matter",
 "When several callers register conflict-free patterns (distinct patterns, distinct indices) into one batch matcher, the set of patterns reported for any value, and the reported indices, do not depend on the order in which the registrations arrived.",
 ["schedules", "histories"], "All arrival orders of any set of conflict-free registrations.",
 "Each tree in the tests is built in exactly one order.",
 TREES, [("insertion keeps tag keys findable and shares equal nodes regardless of order", "gtags/items.go:findOrAppend,find; pkg/items/store.go:LocateChildTreeItem; gglob/gtree.go:LocateChildGTreeItem")],
 observe=["sets of (text, index) reported by matchers built from permuted arrivals"])
prop("C07", "All views of one matcher agree",
 "For any matcher reached by any registration history and any value, the different ways of asking agree: the returned count equals the number of deliveries, texts and indices are delivered pairwise, the first-match view is the lowest delivered index, matching by path and by split parts agree, matching by tag list and by tag map agree (whether parts, lists and maps are made by the caller or by the library's own splitters), and a batch matcher agrees with the same patterns compiled and matched one by one.",
 ["histories", "inputs"], "Every registration history, every value with well-formed path or tags (tags sorted with the name first), every calling form, with sinks fresh or recycled.",
 "The tests compare two views on a few fixed values and never compare a batch matcher with its own patterns matched singly.",
 TREES + MATCH + ["pkg/items/store.go", "gglob/utils.go"], [("each calling form walks the same tree separately", "gglob/gtree.go:MatchItems,MatchItemsByParts; gtags/items.go:MatchByTags,MatchByTagsMap; gtags/tagged_term.go:MatchByTags,MatchByTagsMap")],
 observe=["results of all calling forms on the same matcher at the same point of a history"])
prop("C08", "Recycled buffers and sinks carry nothing over",
 "Functions that fill a caller-supplied buffer (path parts, tag maps) and result sinks that are reset between matches give the same outcome whether the buffer or sink is brand new or was used before, however often, and even if its previous use failed, was abandoned half-way or was left scribbled over. A newly created sink behaves like a reset one, and reserving capacity changes nothing.",
 ["histories", "fault_sequences"], "Every sequence of uses of one buffer or sink, including failing and abandoned uses, by several callers in turn.",
 "The tests use each buffer once or twice with similar well-formed input.",
 ["gglob/utils.go", "gtags/tagged_term.go", "pkg/items/store.go"], [("truncate or clear before filling", "gglob/utils.go:PathSplitB; gtags/tagged_term.go:PathTagsMapB,GraphitePathTagsMapB; pkg/items/store.go:Init,Grow")],
 observe=["contents and return values after each use, against a fresh buffer or sink"])
prop("C09", "Escaping is exact, reversible and keeps the stream",
 "The path and query escapes of any text are exactly its URL escapes, decoding turns every well-formed escape sequence into the byte it stands for and leaves everything else as it is, so that decoding an escaped text gives the text back, and decoding never fails. Escaping into, or unescaping through, a buffer shared by several producers in turn leaves what is already in the buffer untouched: an escape appends exactly the text its buffer-less form returns, and an unescape returns exactly the text its buffer-less form returns. An unescape appends nothing but that text (the tag-name form its fixed name prefix and that text; a text with nothing to decode may be returned without appending anything). Texts handed out earlier never change afterwards.",
 ["histories", "schedules", "inputs"], "Every sequence of appends to one buffer by any number of producers, including buffers that were reset or pre-grown, and every text (any bytes, any broken escapes).",
 "The appending escape functions have no test at all; the appending unescape functions are tested once each on an empty builder; the round trip is checked for a dozen strings.",
 ["pkg/escape/url.go", "pkg/escape/escape.go", "pkg/escape/unescape.go"], [("segment-wise copy between escaped bytes; result sliced from the builder at the starting offset", "pkg/escape/url.go:escapeTo; pkg/escape/unescape.go:unescape,UnescapeNameTo"), ("escape table and hex decoding", "pkg/escape/url.go:shouldEscape; pkg/escape/unescape.go:unescape")],
 observe=["buffer contents after every append", "previously returned strings", "returned texts against an escaping model"])
prop("C10", "An expression expands to the texts it denotes, again and again",
 "Expanding a brace expression returns exactly the texts it denotes, in order: its lists and character sets are expanded from the left, each one as long as the number of results stays within the limit (and the depth of dotted parts within its own), and what is not expanded stays in the results as it was written. A set without any character it could stand for, such as a descending range, also stays as written. A parsed brace expression may be expanded any number of times, with any mix of limits, depths and first-element-only mode, and each expansion returns exactly what a freshly parsed copy would return for the same arguments. Lists returned earlier do not change.",
 ["histories", "inputs"], "Every expression of the supported syntax, every limit and depth, every sequence of expansions of one parsed expression by one or several callers in turn, including expansions cut short by a limit.",
 "Every test parses, expands once and throws the parsed expression away; the denoted texts are compared for a few dozen expressions.",
 ["expand/expand.go", "expand/expression.go", "expand/runes.go"], [("iterators reset after use; scratch buffer re-sliced per call", "expand/expand.go:expand, expand/expression.go:reset,appendNext"), ("product of the parts with a count limit", "expand/expand.go:expand; expand/runes.go")],
 state=[("pos", "iteration state inside the parsed expression", "expand/expression.go")],
 observe=["result of each expansion against a fresh parse and against an expansion model"])
prop("C11", "Independent callers do not influence each other",
 "Calls made at the same time by independent callers to the library's stateless operations (compiling patterns and tag queries, splitting paths and tags, escaping, unescaping, expanding, range parsing), and to matchers private to a caller, each return what they would return alone. Nothing one caller does, including failing, changes another caller's present or future results, and the calls do not race on memory.",
 ["schedules", "histories"], "Every interleaving of any number of independent callers.",
 "No test runs two calls concurrently.",
 ["glob/glob.go", "gglob/gglob.go", "gglob/utils.go", "gtags/tagged_term.go", "expand/expand.go", "pkg/escape/unescape.go", "pkg/utils/runesranges.go", "pkg/items/wildcard.go", "pkg/items/stringlist.go"], [("package-level variables are only read after initialisation", "expand/expand.go:asciiSet; pkg/escape/unescape.go:unescapeSet; gtags/tagged_term.go:stringsTaggedTermOp")],
 observe=["each call's results against the same call alone in a pristine process state", "race-detector reports under the simulated schedule"], hook=INSTR)
prop("C12", "Generated samples always match",
 "Whatever random numbers are drawn, the sample text a compiled glob, or any of its items, generates for itself is matched by it.",
 ["inputs", "fault_sequences"], "Every sequence of random draws, including the extremes of each draw's range, for every pattern that compiles.",
 "Sample generation is used only to feed benchmarks, with whatever numbers the global generator happens to return, and its output is not checked.",
 ["glob/glob.go", "pkg/items/runesranges.go", "pkg/items/stringlist.go", "pkg/items/group.go", "pkg/items/chain.go", "pkg/items/star.go"], [("each item draws one of its own values", "pkg/items/*.go:WriteRandom, glob/glob.go:WriteRandom")],
 observe=["Match of the generated text"], hook="The global random generator is replaced by the simulator's in the instrumented copy.")
prop("C13", "Matching may be re-entered from a result sink",
 "A result sink may itself run matches on the same matcher, or on patterns shared with it, while it is being called. The inner match and the continued outer match each deliver exactly what they would have delivered separately.",
 ["schedules", "histories"], "Every nesting of matches started from inside sink calls, to any depth, on any matcher.",
 "No test sink calls back into the library.",
 TREES, [("no per-matcher scratch state; no lock held across a sink call", "pkg/items/tree.go, gglob/gtree.go, gtags/items.go")],
 observe=["deliveries of outer and inner matches"], hook=INSTR)
prop("C14", "Callers own what they pass in and get back",
 "Slices and maps a caller passes in (path parts, tags, conditions) are never modified by a match or parse and are not needed after the call returns; slices and maps a caller gets back are its own. Overwriting either afterwards changes no matcher, no later result and nothing handed to another caller.",
 ["histories", "fault_sequences"], "Every history in which callers overwrite, truncate or extend their inputs and outputs between calls, at any point.",
 "Tests build fresh arguments for each call and never write to an argument or a result.",
 ["gglob/utils.go", "gglob/gtree.go", "gtags/tagged_term.go", "gtags/items.go", "expand/expand.go", "pkg/items/store.go"], [("results freshly allocated; arguments only read during the call", "gglob/utils.go:PathSplit; gtags/tagged_term.go:PathTags*,ParseTaggedConditions; expand/expand.go:Expand")],
 observe=["arguments after each call; results of unrelated calls after scribbling"])
prop("C15", "Compiled patterns can be registered in many matchers",
 "One compiled glob, dot-separated glob or tag query may be registered under different indices in any number of matchers and used on its own at the same time. Registering it, or using any of the matchers, changes neither what the compiled pattern itself matches or prints nor what any other matcher reports.",
 ["histories", "schedules"], "Every sequence of registrations of a common pool of compiled patterns into several matchers, interleaved with matches everywhere.",
 "No test registers a compiled pattern at all; the benchmarks do, into one matcher.",
 ["glob/tree.go", "gglob/gtree.go", "gtags/tree.go", "gtags/items.go"], [("tree nodes refer to the pattern's items but own their terminal data", "glob/tree.go:addGlob; gglob/gtree.go:addGGlob; gtags/items.go:Parse")],
 observe=["reports of every matcher and of the compiled pattern itself, against models kept per matcher"])
prop("C16", "A matcher can be rebuilt from its own tables",
 "If a process stops at any point and only the matcher's table of indices and normalized patterns survives, a matcher rebuilt from that table accepts every entry, reports the same patterns and indices for every value, and continues to accept, refuse and report like the original would have.",
 ["crash_points", "histories"], "Every restart point in every registration history, any number of restarts, every order in which the surviving table is replayed.",
 "No test re-reads a normalized pattern; whether normal forms keep their meaning is never checked.",
 ["glob/tree.go", "gglob/gtree.go", "gtags/tree.go", "glob/glob.go", "gtags/tagged_term.go", "pkg/utils/asciiset.go", "pkg/utils/runesranges.go", "pkg/items/stringlist.go"], [("normalized text written from the compiled items", "pkg/items/*.go:WriteString; gtags/tagged_term.go:TaggedTermList.WriteString")],
 state=[("GlobsIndex/QueryIndex", "the durable state: index -> normalized text", "glob/tree.go, gglob/gtree.go, gtags/tree.go")],
 observe=["reports and registration decisions of the rebuilt matcher against a model that never restarted"])
prop("C17", "Same history, same answers",
 "Results are a function of the calls made and nothing else: two matchers (or two processes) that go through the same sequence of calls return the same values and deliver the same results in the same order. Map iteration order, random numbers, the clock, object reuse and scheduling have no influence.",
 ["schedules", "histories", "configurations"], "Every history, under every outcome of the runtime's own nondeterminism (map order, pool reuse, clock, random draws).",
 "A test that passes saw one outcome of each random choice; none replays a history under another.",
 TREES + MATCH + ["expand/expand.go"], [("children kept in slices in registration order; maps only looked up, never iterated, while matching", "pkg/items/tree.go, gglob/gtree.go, gtags/items.go")],
 observe=["complete transcripts of replicas run under different environment choices"], hook=INSTR)
prop("C18", "Every call finishes; a slow caller delays only itself",
 "Every registration, match, parse and expansion of patterns and values of everyday size finishes within a bounded amount of work and never blocks or panics on well-formed input. A caller whose result sink is slow, stalled for ever or gone does not keep any other caller from finishing its matches.",
 ["schedules", "fault_sequences", "inputs"], "Every interleaving with any number of stalled or failed sinks; patterns of a few dozen symbols, values of a few dozen characters.",
 "A test that hangs on an input nobody wrote down is not a test; stalls of other callers are not tested at all.",
 TREES + MATCH + ["expand/expand.go", "gtags/tagged_term.go"], [("each loop consumes input or items; no locks", "pkg/items/items.go:matchItems,matchStarItems; pkg/items/tree.go:matchItemsInTree,matchStarItemsInTree; gtags/items.go:find")],
 observe=["work done per call in simulated steps; callers still unfinished when nothing can run"], hook=INSTR)

prop("C19", "A result sink holds exactly what was delivered to it",
 "Every result sink of the library holds, at any time, exactly what was delivered to it since it was created or last reset, in order of delivery: the indices, the texts, texts and indices pairwise, or the lowest index. Whoever delivers (a match of any matcher, or a caller directly), the returned count of a match equals the number of deliveries it made into the sink, and resetting or reserving capacity neither loses nor adds anything else. What was read out of a sink keeps its contents until the sink is next used.",
 ["histories", "schedules"], "Every sequence of deliveries, matches, resets and capacity reservations on sinks used by several callers in turn.",
 "The tests reset a sink at most once, deliver a handful of results and never reserve capacity in between.",
 ["pkg/items/store.go", "glob/tree.go", "gglob/gtree.go", "gtags/tree.go"], [("one append or comparison per delivery", "pkg/items/store.go:Store,StoreS,Init,Grow")],
 state=[("S, N, Min", "what was delivered since the last reset", "pkg/items/store.go")],
 observe=["contents of each sink after every use against the recorded deliveries"])
prop("C20", "Sets and items built step by step hold exactly what was put in",
 "Character sets (ASCII and Unicode), items, chains and lists that are filled step by step, in any order and by several callers in turn, always hold exactly what was put in so far: their membership tests, counts, searches and one-symbol matches (first, last, prefix, suffix) answer like a plain set of symbols, their printed forms list the whole contents and give the same contents when read back, whether entries came as single symbols, ranges, overlapping, adjacent or repeated; items and chains match exactly the texts their parts denote. Two sets, texts or lists are equal exactly when they hold the same; a text that denotes no set (without brackets, or with a descending range or one between symbols of different encoded length) is refused.",
 ["histories", "inputs"], "Every sequence of additions and questions, in any order, over ASCII and Unicode symbols including the lowest and highest of each range.",
 "The tests build a few dozen sets from one text each and ask each of them one or two questions.",
 ["pkg/utils/asciiset.go", "pkg/utils/runesranges.go", "pkg/items/byte.go", "pkg/items/rune.go", "pkg/items/runesranges.go", "pkg/items/chain.go", "pkg/items/stringlist.go", "pkg/items/items.go"], [("bit sets per 32 symbols; ranges sorted and merged, binary search", "pkg/utils/asciiset.go; pkg/utils/runesranges.go:RunesRangeMerge,ContainsUnicode"), ("one matcher per item kind", "pkg/items/*.go:Match,MatchFirst,MatchLast")],
 observe=["every answer against a plain set/list model"])

prop("C21", "No input brings a call or another caller down",
 "Any text whatsoever, broken UTF-8, control bytes and unbalanced brackets or quotes included, may be given to any call: to compile, register, match, split, decode, expand or parse. Every call returns a result or an error: it never panics, finishes within bounded work, and gives the same outcome as the same calls made one after another in a fresh process. A refused registration changes nothing, and calls other callers make with well-formed input before, meanwhile and afterwards give the right results.",
 ["inputs", "schedules", "histories"], "Every byte string as the argument of every exported call, every interleaving with other callers, every history of a batch matcher that mixes well-formed and arbitrary registrations.",
 "The tests try a few malformed inputs, each alone and on an object that is thrown away.",
 ["glob/glob.go", "gglob/gglob.go", "gglob/utils.go", "gtags/tagged_term.go", "expand/expand.go", "expand/runes.go", "pkg/items/wildcard.go", "pkg/items/stringlist.go", "pkg/items/group.go", "pkg/items/items.go", "pkg/items/tree.go", "pkg/utils/runesranges.go", "pkg/escape/unescape.go"],
 [("bounds checks in the parsers", "pkg/items/wildcard.go:NextWildcardItem; gtags/tagged_term.go:seriesByTagArgs; expand/expand.go:getPair"), ("offsets of partial matches", "pkg/items/items.go:matchItems,matchStarItems; pkg/items/tree.go")],
 observe=["return values, panics and work of every call; well-formed matches against the list model"], hook=INSTR)
prop("C22", "A compiled pattern matches exactly what it denotes",
 "A glob, dot-separated glob or tag query compiled on its own and shared by any number of callers matches a value exactly when the value is among the texts (paths, tag sets) it denotes: for every pattern of the supported syntax, every value, in every calling form (a path with an empty part is denoted by no pattern). Its printed normal form denotes the same, and compiling the printed form again prints the same form.",
 ["inputs", "schedules"], "All patterns of the supported syntax, all values (any bytes), all calling forms, any interleaving of callers that compile and match.",
 "The tests compare some hundred pairs of a pattern and a value; back-tracking, overlapping ends and optional lists interact in far more ways.",
 ["glob/glob.go", "gglob/gglob.go", "gtags/tagged_term.go", "pkg/items/items.go", "pkg/items/group.go", "pkg/items/stringlist.go", "pkg/items/wildcard.go", "pkg/utils/runesranges.go"],
 [("item-wise matcher with back-tracking", "pkg/items/items.go:matchItems,matchStarItems"), ("length, prefix and suffix checks before it", "glob/glob.go:Match; gglob/gglob.go:Match,MatchByParts"), ("normal form printed from compiled items", "glob/glob.go:Parse")],
 observe=["each match against a pattern model; printed forms compiled again"], hook=INSTR)

prop("C23", "Splitting yields exactly the parts",
 "Splitting a dotted path yields exactly the texts between its dots, in order (one trailing dot counts for nothing; the form that fills a buffer refuses a path with an empty part). Splitting a tagged path of either format yields its name and then exactly its keys and values, decoded and in order, alike as a list, as a map, into a used map and one tag at a time (where a map can hold a key once, the last one counts); a path without a name, or with a tag without a value anywhere, is refused in every form. Parsing a query yields exactly its conditions, whatever the quotes, blanks, commas and empty arguments between them: key, operator and value without surrounding blanks, `name` as `__name__`, ordered by key (the name first), operator and value, values with wildcards in their normal form; a query or condition that is not well-formed is refused. All this holds for any number of callers splitting at the same time and for buffers used before, and texts handed out earlier never change afterwards.",
 ["inputs", "schedules", "histories"], "Every path, tagged path (any escapes, repeated keys, empty values, other separators inside) and query, in every form, every interleaving of callers and every history of the buffers.",
 "The tests split a dozen well-formed paths and parse a few dozen queries, most of them with one caller's fresh buffers; malformed tags are tried at the end of a path only.",
 ["gglob/utils.go", "gtags/tagged_term.go", "pkg/escape/unescape.go"],
 [("cutting at dots", "gglob/utils.go:PathSplit,PathSplitB,PathLevel"), ("cutting at separators, then decoding", "gtags/tagged_term.go:PathTags*,GraphitePathTags*,NextTag,GraphiteNextTag"), ("quoted arguments, operators, ordering", "gtags/tagged_term.go:seriesByTagArgs,parseString,ParseTaggedConditions")],
 observe=["every result of every form against a splitting model", "texts handed out earlier"], hook=INSTR)

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        assert sum(q["id"] == p["id"] for q in P) == 1, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
