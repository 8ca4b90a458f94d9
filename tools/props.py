"""Source of properties.jsonl and MANIFEST.json:  python3 tools/props.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, note, state=()):
    P.append((note, {
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": ["mo_parsing/" + f for f in files],
            "state": [{"name": n, "meaning": m, "where": "mo_parsing/" + w} for n, m, w in state],
            "mechanism": [{"name": n, "where": "mo_parsing/" + w} for n, w in mech],
            "observe_at": list(observe),
            "hook_needed": None,
        },
    }))


prop("C01", "A grammar accepts and returns what its PEG reading says",
     "For every grammar composed from the combinators (sequence, ordered choice, longest choice, any-order, bounded/unbounded repetition with or without a stop expression, option with or without default, positive/negative lookahead, lookbehind, skip-to, recursion, grouping, suppression, combining) and every input, parsing accepts exactly when the PEG reading of the grammar does, ends at the same position, and returns the same nested tokens. Repetition is greedy, a choice takes the first (or the longest, first on ties) matching alternative, lookahead consumes nothing.",
     ["programs", "inputs"], "every grammar built from the combinators, every input string",
     "The tests use a few dozen fixed grammars with one or two inputs each; combinations of combinators interact (sequence x optional x whitespace x lookahead) in ways no finite list of examples samples.",
     ["core.py", "expressions.py", "enhancement.py"],
     [("And.parse_impl, MatchFirst/Or/MatchAll.parse_impl", "expressions.py"), ("Many/Optional/SkipTo/NotAny/LookAhead/PrecededBy/Combine/Group/Forward.parse_impl", "enhancement.py"), ("streamline/finalize rewriting before any parse", "core.py")],
     ["parse_string result and ParseException"],
     "differential monitoring of real parses against an independent reference interpreter over random grammars and inputs; assurance is what the sampled grammars (up to 4 levels) reach")

prop("C02", "Each terminal matches exactly its documented set of strings",
     "For every constructor argument and every input position, a terminal (literal, caseless literal, keyword, word with min/max/exact/exclude/separate body, char set, excluded characters, whitespace token, close match, any char, string/line/word boundary) matches exactly the strings its documentation describes, longest where it is a run, and returns exactly that text.",
     ["inputs", "configurations"], "every terminal configuration (character sets including regex metacharacters and non-ASCII, length bounds, case), every text and position",
     "Tests use ordinary letters and one or two bounds; every terminal is compiled to a regular expression, so metacharacters, ranges, empty sets and bounds are where it breaks.",
     ["tokens.py", "utils.py", "regex.py"],
     [("regex_range/regex_iso/regex_caseless compile the character sets", "utils.py"), ("Word/Char/CharsNotIn/Keyword/Literal constructors", "tokens.py")],
     ["parse result at a chosen position"],
     "reference predicates written from the documentation, hostile alphabets, all positions of each sampled text")

prop("C03", "Optimisation and way of use never change what a grammar means",
     "Finalizing, streamlining, copying, naming the parser, attaching a parse action that returns nothing, building with operators or with classes, adding alternatives that cannot match, and choosing among the parsing entry points leave acceptance, tokens and names unchanged for every grammar and input.",
     ["programs", "inputs", "configurations"], "every grammar, every rewriting or entry point, every input",
     "Streamlining, first-character dispatch and regex fast paths are chosen by the shape of the grammar; tests check the results of single shapes, never that two routes agree.",
     ["core.py", "expressions.py", "enhancement.py", "utils.py", "tokens.py"],
     [("streamline / finalize", "core.py"), ("expecting + Fast dispatch of alternatives", "expressions.py"), ("LookUp and Literal merging of alternatives", "expressions.py"), ("__regex__ fast paths of NotAny/SkipTo/stop_on", "enhancement.py")],
     ["results of paired builds and entry points"],
     "metamorphic monitoring: every case is run through several equivalent routes and compared; the oracle is agreement (with C01's reference alongside)")

prop("C04", "Using an expression never changes it or what it shares",
     "Composing, naming, copying, adding actions or conditions, finalizing, parsing, scanning and transforming return new expressions or results and leave every previously built expression behaving as before, so the same expression and text always give the same outcome whatever happened before or elsewhere.",
     ["histories", "programs"], "every sequence of API calls over a pool of shared expressions",
     "Tests build an expression and use it once; aliasing between copies (config, action lists, children) needs an earlier use to have an effect on a later one.",
     ["core.py", "enhancement.py", "expressions.py", "tokens.py"],
     [("copy() and set_config copying", "core.py"), ("add_parse_action / set_token_name copying", "core.py"), ("streamlined copies", "expressions.py")],
     ["outcome fingerprint of every pooled expression before and after every call"],
     "history monitoring: fingerprints of all pooled expressions are re-taken after every operation of a random history and must not move")

prop("C05", "Whitespace and ignored text are skipped where and only where specified",
     "The whitespace setting in force when an expression is built (characters and ignore expressions) decides what is skipped before each of its tokens, for every text and any mix of settings inside one grammar; changing or replacing skippable text between tokens never changes the tokens, and no state from an earlier text or position leaks into a later skip.",
     ["inputs", "histories", "configurations"], "every whitespace setting, nesting, text and interleaving of texts",
     "Skipping is cached across calls; tests parse one text at a time under one or two settings, so stale caches and mixed settings are not exercised.",
     ["whitespaces.py", "core.py", "tokens.py", "enhancement.py"],
     [("Whitespace.skip and its one-entry cache", "whitespaces.py"), ("whitespace captured at construction", "core.py")],
     ["parse results", "positions given to parse actions"],
     "reference skipping; interleaved parsers over many texts; padding substitution as metamorphic oracle",
     [("cache of last skip", "string, start, end of the last skip", "whitespaces.py")])

prop("C06", "Whitespace contexts nest like a stack and are always restored",
     "Inside a whitespace block new expressions get exactly that block's settings, leaving the block by any route (normal, exception, parse failure, generator) restores the previous settings, and no parse, scan, build or failure leaves the ambient settings different from what they were.",
     ["histories", "fault_sequences"], "every nesting of blocks, library calls and exceptions at any point",
     "The ambient setting is global mutable state switched by the library itself during builds and parses; tests do not look at it after failures.",
     ["whitespaces.py", "core.py"],
     [("Whitespace.__enter__/__exit__", "whitespaces.py"), ("Parser switches the ambient whitespace", "core.py")],
     ["settings observed through freshly built expressions, and whitespaces.CURRENT identity"],
     "online stack-discipline monitor over random histories with injected exceptions",
     [("CURRENT", "ambient whitespace", "whitespaces.py")])

prop("C07", "Scanning reports exactly the successive non-overlapping matches",
     "Scanning or searching a text yields the matches found by trying the expression at each position from left to right, each starting at or after the end of the one before, limited by the requested maximum, with the tokens a parse at that position gives and locations that delimit exactly the matched text; it always terminates.",
     ["inputs", "programs"], "every expression (also nullable), every text, every maximum",
     "Tests scan a few texts; empty matches, adjacent matches and limits are position dependent.",
     ["core.py"],
     [("scan_string / search_string loops", "core.py")],
     ["(tokens, start, end) triples"],
     "model of scanning over the reference interpreter, plus conservation monitors on the emitted triples")

prop("C08", "Transforming and splitting preserve all text that was not matched",
     "Transforming a text replaces exactly the matched pieces by their (possibly rewritten) tokens and keeps every other character in order, and splitting returns the pieces between matches (with or without the separators) so that nothing is lost or duplicated.",
     ["inputs", "programs"], "every expression, parse action, text, split limit",
     "Tests check a few texts; loss of leading, trailing or inter-match text depends on positions.",
     ["core.py"],
     [("transform_string / split", "core.py")],
     ["returned text and pieces"],
     "conservation monitor against reference reconstruction from the reference scan")

prop("C09", "Infix notation builds the tree given by precedence and associativity",
     "For every table of operators (unary prefix/suffix, binary, ternary, left/right associative, also expression-less) and every expression over it, infix_notation accepts exactly the well-formed expressions, and the tree it returns groups operators by precedence, then associativity, with parentheses overriding both; evaluation of the tree equals evaluation of the expression.",
     ["programs", "inputs"], "every operator table, every expression",
     "Tests use two or three fixed tables and expressions; precedence errors show only for particular operator pairs and orders.",
     ["infix.py"],
     [("infix_notation shunting reduction", "infix.py")],
     ["parse trees, computed values"],
     "generated operator tables and expressions printed from known trees; independent precedence-climbing reference")

prop("C10", "Regex elements behave as the regular expression they are given",
     "For every supported pattern and every text, a regex element matches at a position exactly when Python's re does, consuming the same text, exposing the same named and numbered groups, and behaving the same inside choices and sequences as alone.",
     ["inputs", "programs"], "every supported pattern, every text and position",
     "The pattern is re-parsed by the library's own grammar to predict its first characters and length; tests cover a handful of patterns.",
     ["regex.py", "tokens.py"],
     [("Regex constructor: pattern parsed into expressions", "regex.py")],
     ["match span, tokens, named groups"],
     "differential monitoring against re over generated patterns and texts")

prop("C11", "Failures are reported as located parse exceptions",
     "Whatever the grammar and input, a parse ends with a result or with a parse exception: no other exception type, no hang; the exception's location lies within the input, its line number, column and line text agree with that location, its message can be rendered and names what was expected, and the reported position is never before text that the grammar could not get past.",
     ["inputs", "programs"], "every grammar and rejected input",
     "Tests assert messages for a few inputs; error paths run code (cause selection, formatting) no accepting test reaches.",
     ["exceptions.py", "core.py", "expressions.py", "enhancement.py"],
     [("ParseException.loc/line/column/message", "exceptions.py"), ("failures carried in results", "results.py")],
     ["exception attributes"],
     "every rejected run of generated grammars is monitored: type, range, line arithmetic, rendering, and furthest failure from the reference")

prop("C12", "Names give access to exactly the tokens matched under them",
     "For every grammar with results names, a name on a result yields exactly the tokens matched by the elements carrying that name within it (in order, all of them when several), names do not leak through groups or other names, and every way of asking (item, get, contains, keys, values, items) agrees; a name whose tokens are empty counts as absent for contains and get.",
     ["programs", "inputs"], "every placement of names over a grammar, every accepted input",
     "Names interact with grouping, repetition, copying and optimisation; tests look at fixed placements.",
     ["results.py", "core.py", "enhancement.py"],
     [("ParseResults.__getitem__/items/keys", "results.py"), ("token_name set on copies", "core.py")],
     ["results access by name"],
     "reference attribution of names over the reference parse tree, plus mutual agreement of the access methods")

prop("C13", "Parse results behave as a consistent container",
     "Length, iteration, reversal, indexing (positive, negative, slices), truth value, equality, list, string and value forms, addition, sum, copying, and assignment and deletion of names agree with the plain list of tokens a result presents, and leave operands, other names and the grammar alone, for every result and every sequence of operations.",
     ["histories", "inputs"], "every result shape and every sequence of container operations",
     "The token list is nested and re-flattened on access, so index arithmetic depends on nesting; tests use flat results.",
     ["results.py"],
     [("ParseResults container protocol", "results.py")],
     ["container operations"],
     "model-based monitoring: a plain list runs alongside every operation")

prop("C14", "Parse actions and conditions are called once per match, in order, with the match",
     "In every successful parse each action or condition on the path of the parse sees the tokens, location and text of its own match, actions run in the order attached with each seeing its predecessor's result, the returned value replaces the tokens (nothing returned keeps them), a failing condition makes the element not match so alternatives are tried, and an exception that is not a parse failure reaches the caller.",
     ["programs", "inputs", "fault_sequences"], "every grammar with actions/conditions of every arity and return kind, every input, exceptions at any call",
     "Tests attach single actions to simple elements; the contract is about call order, arguments and backtracking.",
     ["core.py", "utils.py", "enhancement.py"],
     [("_parse applying parse_action list", "core.py"), ("wrap_parse_action arity adaptation", "utils.py")],
     ["event log of calls"],
     "event log of every call checked offline against the reference's log (exactly-once, order, arguments)")

prop("C15", "Concurrent and re-entrant use gives the same results as use alone",
     "Any number of threads building and parsing (and scanning, transforming, splitting) at the same time, generators left half consumed, and parses started from inside parse actions produce exactly the outcomes each would produce alone; nobody deadlocks and the ambient whitespace is unaffected.",
     ["schedules", "histories"], "every interleaving of threads, generators and re-entrant calls",
     "Tests are single threaded; shared caches and ambient state only show under interleaving.",
     ["core.py", "whitespaces.py", "utils.py"],
     [("lock around entry points", "core.py"), ("skip cache", "whitespaces.py")],
     ["outcomes per thread"],
     "stress with tiny thread switch intervals and forced switches at line events; every outcome compared with the outcome alone; watchdog for deadlock",
     [("CURRENT", "ambient whitespace shared by all threads", "whitespaces.py")])

prop("C16", "Result positions delimit the text they came from",
     "Every result, at every depth, covers a range inside the text with start <= end, children lie in order within their parent without overlapping, and the text of each unmodified token occurs in its own range; positions reported by locating helpers and to actions are the same ones.",
     ["programs", "inputs"], "every grammar and accepted input",
     "Tests rarely look at positions below the top.",
     ["results.py", "core.py", "expressions.py", "enhancement.py"],
     [("start/end passed to ParseResults by each parse_impl", "expressions.py, enhancement.py, tokens.py")],
     ["start/end of nested results"],
     "invariant monitor walking every result tree of generated parses")

prop("C17", "Debugging and profiling observe without changing the outcome",
     "Running under the debugger or the profiler gives the same results, failures and action calls as running without, restores normal behaviour when closed (also after failures), and the counts the profiler reports equal the matches and failures that happened.",
     ["programs", "inputs", "histories"], "every grammar and input, nested or failing use",
     "Instrumentation swaps the central parse function; the tests only start and stop it on a single grammar.",
     ["debug.py", "profile.py", "core.py"],
     [("Debugger/Profiler swap ParserElement._parse", "debug.py, profile.py")],
     ["outcomes with and without instrumentation"],
     "paired runs, with restoration monitor on the swapped entry points")

prop("C18", "one_of matches the longest listed alternative",
     "For every set of words (given as list or text, any characters, caseless or not, as keywords or not), one_of accepts exactly the listed words, prefers the longest one that matches at a position, and returns the word as listed.",
     ["inputs", "configurations"], "every word set, flag and text",
     "Tests use small disjoint sets; prefix masking and metacharacters depend on the particular set.",
     ["helpers.py", "tokens.py", "expressions.py"],
     [("one_of reordering and MatchFirst/Regex construction", "helpers.py")],
     ["matched token"],
     "reference longest-match over hostile word sets")

prop("C19", "Quoted strings decode exactly as their options say",
     "For every choice of quote, end quote, escape character, escaped quote, multi-line and unquoting flags, and every content, a quoted string accepts exactly the well-formed texts, ends at the first unescaped end quote, and returns the content (or the raw text); encoding any content then parsing returns the content.",
     ["inputs", "configurations"], "every option combination and content",
     "Tests use two or three option sets; options combine into one regular expression.",
     ["helpers.py"],
     [("QuotedString pattern and unquote action", "helpers.py")],
     ["token returned"],
     "reference scanner over all option combinations, and round trips of generated content")

prop("C20", "Grammar helpers accept and return what they promise",
     "delimited lists, nested expressions, counted arrays, dict builders, any-order each, located and original-text wrappers, comma separated lists, indented blocks and the like accept exactly the documented texts for every content expression and option, returning the documented structure.",
     ["inputs", "programs", "configurations"], "every helper, option and input",
     "One example each in the tests, with default options.",
     ["helpers.py", "infix.py", "enhancement.py"],
     [("helpers", "helpers.py"), ("delimited_list", "infix.py")],
     ["tokens returned"],
     "per-helper reference models over generated structures and their printed texts, plus mutated texts")

prop("C21", "Recursive grammars terminate and left recursion is refused",
     "A recursive grammar that consumes text before every recursive use is accepted and parses any input in finite time (bounded only by depth), a left recursive one is refused when it is finalized or first used rather than looping, and validation neither refuses a sound grammar nor passes a left recursive one.",
     ["programs", "inputs"], "every recursive grammar over the combinators",
     "Tests have two or three recursive grammars; nullability analysis decides, and it depends on every combinator.",
     ["core.py", "enhancement.py", "expressions.py", "exceptions.py"],
     [("check_recursion / min_length", "core.py, enhancement.py, expressions.py")],
     ["acceptance of the grammar; termination"],
     "independent nullability/left-recursion analysis against the library's verdict, then bounded-time runs")

prop("C22", "Ready-made value parsers accept and convert exactly their values",
     "Numbers, fractions, identifiers, hex, UUID, IP and MAC addresses, ISO dates and times, comments and quoted strings accept exactly the documented lexical forms and convert to the value the text denotes, for every such text.",
     ["inputs"], "every text",
     "Tests sample one or two values each.",
     ["helpers.py", "regex.py"],
     [("value parsers", "helpers.py")],
     ["values returned"],
     "reference decoders (int, float, uuid, ipaddress, datetime, re) over generated and mutated texts")

prop("C23", "HTML tag parsers recover tag names and attributes",
     "For every tag name, attribute set, quoting, spacing and case, makeHTMLTags matches the tag, exposes its attributes by (lower-cased) name with their unquoted values, tells empty tags, matches the end tag, and attribute conditions accept exactly tags having the attributes.",
     ["inputs", "configurations"], "every tag text and attribute condition",
     "A few fixed tags in the tests.",
     ["helpers.py"],
     [("_makeTags, with_attribute, with_class", "helpers.py")],
     ["tokens and names"],
     "generated tags with known attributes; conditions compared with a direct predicate")

prop("C24", "Whole grammars written with the library agree with independent parsers",
     "Realistic grammars (JSON, arithmetic, S-expressions, CSV, INI, SQL-like select) built with the library accept, reject and interpret every text exactly as independent implementations of the same language do.",
     ["inputs", "programs"], "every text of the language and near misses of it",
     "The repository's examples are mostly unrunnable and only print; end-to-end agreement on arbitrary documents is not tested.",
     ["core.py", "expressions.py", "enhancement.py", "tokens.py", "infix.py", "helpers.py", "results.py"],
     [("the whole pipeline", "core.py")],
     ["values computed"],
     "differential monitoring against json, eval over Fraction, csv, configparser and hand-written parsers, with generated and mutated documents")

prop("C25", "Operators and shorthand mean the classes and methods they stand for",
     "For all operands (elements, plain text, classes), every operator (+ - | ^ & ~ * [] / () and ...) and every shorthand method builds an element that accepts, returns and names exactly what the documented class or method does, text where an element is expected stands for the literal of the whitespace context in force, and all entry points (parse, parse_string, parse_file, matches, finalized or not) agree.",
     ["programs", "inputs", "configurations"], "every operator form over every operand, in every whitespace context, every text",
     "Tests use each operator a few times with ordinary operands; the forms of repetition alone are more than twenty, text on either side and in every constructor multiplies them.",
     ["core.py", "expressions.py", "enhancement.py", "whitespaces.py"],
     [("operator methods of ParserElement, _PendingSkip", "core.py"), ("Whitespace.normalize, set_literal", "whitespaces.py"), ("constructors given text", "enhancement.py")],
     ["parse result", "ParseException"],
     "differential monitoring of each shorthand against the class or method it stands for, over random operands and texts")

prop("C26", "Size and length change nothing",
     "Whatever the length of the text, the number of items, alternatives, operators, names or matches, and the number of earlier parses with the same expression, the outcome is the one that short texts have: long lists, tokens, quoted strings, comments, operator chains, alternations and scans are parsed completely, in order, with the right positions, without running out of stack and in time that does not explode.",
     ["inputs", "programs"], "texts to a hundred thousand characters, grammars to hundreds of alternatives or parts",
     "Tests use texts of a few lines; limits, recursion over length, quadratic state and backtracking explosions only show with size.",
     ["core.py", "expressions.py", "enhancement.py", "infix.py", "results.py", "regex.py", "helpers.py"],
     [("Many.parse_impl, And.parse_impl loops", "enhancement.py"), ("ParseResults iteration and conversion", "results.py"), ("reduction of infix operators", "infix.py"), ("faster()/Fast lookup of alternatives", "expressions.py")],
     ["parse result", "CPU time", "RecursionError"],
     "monitoring of long and wide runs against results computed from how the text was made; CPU time watchdog far above normal")

if __name__ == "__main__":
    built = {f[:3].upper() for f in os.listdir(os.path.join(HERE, "rv", "checks")) if f.startswith("c") and f.endswith(".py")}
    P.sort(key=lambda x: x[1]["id"])
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for note, p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    m = {
        "version": 1,
        "setup_cmd": "bash run.sh --setup",
        "checks": [
            {
                "property": p["id"],
                "quick_cmd": "bash run.sh %s --quick" % p["id"],
                "thorough_cmd": "bash run.sh %s --thorough" % p["id"],
                "evidence_file": "evidence/%s.json" % p["id"],
                "technique": "runtime monitoring: " + note.split(";")[0].split(" over ")[0],
                "level": "exploration",
                "level_note": note + ". Trusts the oracle in rv/ and what the seeded workload reaches; no proof.",
            }
            for note, p in P if p["id"] in built
        ],
        "not_applicable": [{"property": p["id"], "reason": "check not built yet (planned in DESIGN.md)"} for _, p in P if p["id"] not in built],
        "notes": "All checks import mo_parsing from /repo's working tree; nothing to compile; no hooks in /repo.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
