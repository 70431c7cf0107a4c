#!/usr/bin/env python3
# Writes /verif/properties.jsonl.
import json
C="packages/core/src/"
def P(id,title,statement,over,text,why,files,mech):
    return dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
ps=[
P("C01","Parsing never loses, duplicates or reorders command-line tokens",
 "Every successful parsing step reports as consumed exactly the tokens it removed from the front of the remaining input, so what was consumed followed by what is left is the input it was given; the only exception is a bundle of single-letter flags, which gives up its first letter and keeps the others. A failed step changes nothing and reports a count within the remaining input.",
 ["inputs","programs"],"every token sequence, every option spelling and every parser state, for each primitive parser and each wrapper around an arbitrary parser",
 "The tests run a few hundred fixed command lines; conservation is a relation between three sequences for arbitrary tokens, including tokens with '=' inside, empty tokens, lone dashes and bundled letters.",
 [C+"primitives.ts",C+"constructs.ts",C+"modifiers.ts"],[("step of option/flag/argument/command/pass-through",C+"primitives.ts"),("wrappers delegating a step",C+"modifiers.ts"),("field/element loops",C+"constructs.ts")]),
P("C02","A parse succeeds only when the whole command line was consumed",
 "Parsing a command line succeeds only if every token was consumed by some parser and the final completion succeeded, and then yields exactly the completed value; if a step fails, makes no progress with tokens left, or completion fails, the result is a failure carrying that error. Parsing always terminates when every step that succeeds without progress is followed by a stop.",
 ["inputs","programs"],"every argument list and every conforming top-level parser, synchronous or asynchronous, with any number of steps",
 "The driver loop runs an input-dependent number of iterations over an arbitrary parser; tests try fixed parsers and short inputs and cannot show termination or the all-consumed postcondition.",
 [C+"internal/parser.ts"],[("parse loop",C+"internal/parser.ts"),("stall detection",C+"internal/parser.ts")]),
P("C03","After the options terminator nothing is treated as an option",
 "Once the `--` terminator has been consumed the rest of the command line is never matched by an option or flag, no step ever clears that condition, and `--` is consumed at most once as a terminator so later `--` tokens are ordinary arguments. Only a literal `--` token sets the condition.",
 ["inputs","programs","histories"],"every token sequence and every step history of options, flags, negatable flags, arguments, commands and pass-through",
 "Tests place `--` at a handful of positions; the guarantee is an invariant over every step of every parser in every state.",
 [C+"primitives.ts",C+"internal/parser.ts"],[("terminator handling",C+"primitives.ts")]),
P("C04","Options and arguments capture exactly the text the user supplied",
 "An option receives exactly the token after its name, or exactly the text after the first separator of a joined `--name=value` or `/name:value` spelling, for every value including empty text, further separators and dashes; Boolean flags accept no joined value. A name matches only in full, a repeated single-value option is rejected, and an absent required one is reported instead of invented.",
 ["inputs","configurations"],"every option name the constructor accepts, every token sequence, every prior state, every value parser outcome",
 "The value text is arbitrary; tests sample a few spellings and names, not names that are prefixes of one another or values containing separators.",
 [C+"primitives.ts"],[("joined and separated forms",C+"primitives.ts"),("duplicate detection",C+"primitives.ts")]),
P("C05","Numeric parsers return in-range numbers equal to the text, or fail",
 "Integer, big-integer, float, port and port-range parsers accept exactly the documented spellings whose numeric value lies within the configured bounds, and return precisely that value, never a rounded, truncated, non-finite or out-of-range one. Everything else is rejected with an error and nothing throws.",
 ["inputs","configurations"],"every input string and every combination of minimum, maximum and type options",
 "The input space is all strings times all bounds; tests sample around a few fixed bounds and miss spellings at the edge of the safe-integer range.",
 [C+"valueparser.ts"],[("integer/float/port/portRange",C+"valueparser.ts")]),
P("C06","Choice parsers accept exactly the listed values",
 "A choice parser accepts a string exactly when it denotes one of the configured choices under the configured case rule, returns that configured choice itself, and rejects everything else; numeric choices accept only plain decimal spellings of a configured number. Ambiguous or duplicate configurations never make two different choices reachable from one input.",
 ["inputs","configurations"],"every input string and every list of string or number choices, case-sensitive or not",
 "Tests use a few choice lists and inputs; exactness must hold for inputs such as near-duplicates, other-case spellings and inherited property names.",
 [C+"valueparser.ts"],[("choice",C+"valueparser.ts")]),
P("C07","Network value parsers accept only well-formed, allowed addresses",
 "Parsers for IPv4, IPv6, CIDR, MAC, host name, domain, e-mail, socket address and port values accept only well-formed text that satisfies every configured restriction (private, loopback, link-local, multicast, broadcast, zero, prefix bounds, allowed lists, separator and case), and return the documented canonical form, which is itself accepted and parses to itself.",
 ["inputs","configurations"],"every input string and every restriction option",
 "Each restriction is a predicate over the full address space; tests try a few addresses per range and cannot reach every boundary or combination of options.",
 [C+"valueparser.ts"],[("ipv4/ipv6/ip/cidr/macAddress/hostname/domain/email/socketAddress",C+"valueparser.ts")]),
P("C08","Repetition collects every occurrence in order within its bounds",
 "A repeated parser yields the values of all its occurrences, each exactly once and in command-line order, and succeeds only when their number is between the configured minimum and maximum. No occurrence's state leaks into another occurrence.",
 ["inputs","programs","configurations"],"every number of occurrences, every minimum and maximum, every inner parser",
 "Occurrence counts are unbounded and the inner parser is arbitrary; tests use short repetitions of two or three built-in parsers.",
 [C+"modifiers.ts"],[("multiple",C+"modifiers.ts")]),
P("C09","Optional and defaulted parsers change only the absent case",
 "Making a parser optional or giving it a default leaves its behaviour on matching input unchanged: a matched value or a value error comes through exactly as the inner parser produced it. Only when the inner parser matched nothing is the result the undefined value or the default, a lazily computed default being evaluated only then and its failure reported as an error.",
 ["inputs","programs"],"every inner parser, state, input and default value or default function",
 "The inner parser is arbitrary; tests combine a few built-ins and cannot show that an error is never swallowed by a default.",
 [C+"modifiers.ts"],[("optional/withDefault",C+"modifiers.ts")]),
P("C10","Command line beats environment, environment beats config, config beats default",
 "A value bound to a source (bindEnv, bindConfig, bindDerivedDefault) comes from the command line if given there, otherwise from that source if it has the value, otherwise from the binding's own default, otherwise from whatever is bound inside it where that binding consults it (an environment binding always, a derived default when the inner parser may be skipped), otherwise it is a failure; so the documented nesting of an environment binding around a configuration binding gives command line, environment, configuration, default. A source of lower priority never influences a result supplied by a higher one, an invalid value at a source is an error rather than a fall-through, and this holds as well when the bound parser sits inside map, group, nonEmpty, object, tuple, concat, seq or merge.",
 ["inputs","configurations","programs"],"every presence/validity combination of the sources, every nesting of bindings, every inner parser and parsing history",
 "The combinations of sources, nesting and validity multiply; tests cover selected pairs.",
 ["packages/env/src/index.ts","packages/config/src/index.ts","packages/derived-defaults/src/index.ts",C+"modifiers.ts"],[("bindEnv","packages/env/src/index.ts"),("bindConfig","packages/config/src/index.ts"),("bindDerivedDefault","packages/derived-defaults/src/index.ts")]),
P("C11","Values from fallback sources obey the same constraints as typed values",
 "A value that does not come from the command line (environment, configuration file, derived default or the binding's own default) is accepted only if the bound option or argument would accept the same value on the command line: its value parser accepts the value, or the text it writes the value as; and the result is the value so read. Otherwise the parse fails with an error instead of returning a value the command line could never produce. This holds through optional, withDefault, nonEmpty, group, command, multiple (per element, together with its arity) and other bindings; map and derived value parsers are documented exceptions, and so is a value the value parser cannot write as text.",
 ["inputs","configurations"],"every fallback value and every constraint of the bound parser, through every wrapper that keeps the value type",
 "Fallback values are arbitrary data; tests check a few parsers and wrappers.",
 ["packages/env/src/index.ts","packages/config/src/index.ts",C+"primitives.ts",C+"modifiers.ts"],[("validateValue chain",C+"primitives.ts")]),
P("C12","Environment variables are looked up and decoded exactly",
 "An environment binding reads exactly the variable named by the configured prefix followed by the configured key, and passes its exact text to the value parser. Boolean text is decoded only from the documented spellings regardless of case, with every other text rejected; an unset variable is absent while a set but empty one is a value.",
 ["inputs","configurations"],"every key, prefix, variable text and environment source",
 "Tests use a few keys and texts; exactness over arbitrary text and prefixes is universal.",
 ["packages/env/src/index.ts"],[("createEnvContext/bindEnv/bool","packages/env/src/index.ts")]),
P("C13","Each completion candidate reaches the shell as one well-formed record",
 "For every supported shell, every suggestion the parsers produce is transmitted as exactly one record with the fixed number of fields the shell script splits on, and no text inside a suggestion, pattern, extension or description can add, remove, split or impersonate a record or field. Decoding the record yields the suggested text.",
 ["inputs"],"every suggestion list: any literal text, description, file pattern and extension list, for bash, zsh, fish, nushell and PowerShell",
 "Suggestion text comes from users' data; tests use a few tame strings.",
 [C+"completion.ts"],[("encodeSuggestions",C+"completion.ts"),("transport sanitising",C+"completion.ts")]),
P("C14","Generated completion scripts quote program names and arguments safely",
 "A generated completion script passes the program name and every extra argument to the program as exactly the given text, for every text, in each supported shell. No text can terminate the quotation or make the shell run anything else.",
 ["inputs"],"every accepted program name and every list of argument strings, for every supported shell",
 "Quoting must hold for all strings; tests check one or two special characters per shell.",
 [C+"completion.ts"],[("generateScript",C+"completion.ts")]),
P("C15","Man pages show text literally",
 "Whatever text an application puts in its documentation, the generated man page shows that text: no character sequence in it is interpreted as a formatter request, macro or escape, and every line of the output that begins with a control character was written by the generator.",
 ["inputs"],"every message, term, name, title and section text",
 "Escaping is a property over all strings; tests check a few backslash, dot and quote cases.",
 ["packages/man/src/roff.ts","packages/man/src/man.ts"],[("escaping","packages/man/src/roff.ts")]),
P("C16","Formatted messages keep all text and close every style",
 "Formatting a message shows every term's text in order; with colours on, every styling sequence that is opened is closed and removing the styling gives exactly the output produced without colours. Wrapping to a width only changes where lines break: no non-blank character is lost, added or reordered.",
 ["inputs","configurations"],"every message over all term kinds, every combination of colour, quoting and width options",
 "Terms and widths combine freely; tests check selected messages at selected widths.",
 [C+"message.ts"],[("formatMessage",C+"message.ts")]),
P("C17","Did-you-mean suggestions are genuine, close, ordered and unique",
 "Suggestions offered for a mistyped name are drawn only from the names that are actually available, lie within the configured edit-distance limits, are listed from nearest to farthest without repetition and at most the configured number. The edit distance used is the true minimum number of single-character insertions, deletions and substitutions.",
 ["inputs","configurations"],"every input, every candidate list and every limit",
 "The distance is defined by a minimum over all edit scripts; tests check known pairs only.",
 [C+"suggestion.ts"],[("levenshteinDistance/findSimilar",C+"suggestion.ts")]),
P("C18","Parse traces are persistent and never confuse two fields",
 "Recording what one field consumed never changes what is recorded for any other field or in any earlier copy of the record, and looking a field up returns the last entry recorded for exactly that field. Two different field paths, including ones that differ only in symbol identity, number versus text, or text containing separators, are never conflated.",
 ["inputs","histories"],"every sequence of recordings and every pair of paths",
 "Key collisions depend on unusual path segments; tests use simple names.",
 [C+"input-trace.ts"],[("path keys",C+"input-trace.ts")]),
P("C19","Unusable names are rejected when a parser or program is defined",
 "Option names, command names, labels and program names are accepted exactly when they satisfy the documented rules (non-empty, no control characters, no whitespace where forbidden, proper option prefix, not the terminator); built-in help, version and completion names that would collide with one another are rejected and all others accepted. Rejection happens before anything is parsed.",
 ["inputs","configurations"],"every string and every list of meta names",
 "The rules are predicates over all strings; tests give a few examples of each.",
 [C+"validate.ts"],[("validators",C+"validate.ts")]),
P("C20","Asynchronous parsing gives the same answer as synchronous parsing",
 "For the same parser structure and input, running with asynchronous value parsers or through the asynchronous entry points yields the same consumed tokens, state, value or error as the synchronous run. The outcome does not depend on when the promises settle.",
 ["inputs","programs","schedules"],"every parser built from the combinators whose leaves may be synchronous or asynchronous, every input and settlement order",
 "The asynchronous code is a second copy of the synchronous code; tests compare a few cases and rarely vary settlement order.",
 [C+"internal/parser.ts",C+"constructs.ts",C+"modifiers.ts",C+"primitives.ts",C+"internal/mode-dispatch.ts"],[("mode dispatch",C+"internal/mode-dispatch.ts")]),
P("C21","Verbosity and debug switches map to log levels monotonically",
 "Each additional verbosity flag moves the log level exactly one step towards the most detailed level starting from the configured base and saturating at the most detailed level; the debug switch yields exactly its two configured levels; the level parser accepts exactly the known level names and prints back what it accepts.",
 ["inputs","configurations"],"every number of flags, every base level, every input text",
 "The count is unbounded and bases vary; tests try small counts.",
 ["packages/logtape/src/verbosity.ts","packages/logtape/src/debug.ts","packages/logtape/src/loglevel.ts"],[("verbosity","packages/logtape/src/verbosity.ts")]),
P("C22","Value combinators obey their laws",
 "Mapping a parser applies the function exactly once to each successful value and leaves failures untouched; a first-of parser returns the result of the first alternative that accepts the text; key-value parsing splits at the first separator and keeps everything after it; formatting a value that a combinator produced gives text that it parses to an equal value (unless an earlier first-of alternative accepts that text too).",
 ["inputs","programs"],"every text, separator, function and list of arbitrary inner value parsers",
 "Inner parsers and functions are arbitrary; tests use a few.",
 [C+"valueparser.ts",C+"modifiers.ts"],[("map/firstOf/keyValue/transform",C+"valueparser.ts")]),
P("C23","Annotations from several sources merge by source order",
 "When several contexts provide data for one run, each key is taken from the first context, in the order given, that provides it, and every other key any context provides is kept; no context's own data is modified. A single context's data passes through unchanged.",
 ["inputs","configurations"],"every list of contexts and every assignment of keys",
 "Key overlap patterns multiply with contexts; tests use two or three.",
 [C+"facade.ts"],[("context merging",C+"facade.ts")]),
P("C24","Internal annotations never leak into results",
 "Attaching run-time annotations to parser state and removing them again gives back the original state with its visible contents unchanged, and values returned to the application never carry them. Annotating never mutates the application's own objects.",
 ["inputs","programs"],"every state value: primitives, arrays, plain and exotic objects",
 "State values are arbitrary; tests cover typical shapes.",
 [C+"internal/annotations.ts",C+"annotation-state.ts"],[("inject/unwrap",C+"internal/annotations.ts")]),
P("C25","Dependent values are parsed against the values actually given",
 "A value whose parser depends on other options is accepted or rejected according to the values those options finally have on this command line, wherever they appear, and according to their defaults only when they are absent. A failed or missing required source makes the dependent value fail rather than be parsed against something else.",
 ["inputs","programs"],"every order of options, every dependency function, with and without defaults",
 "Order and presence combine; tests use fixed orders.",
 [C+"internal/dependency.ts",C+"dependency-runtime.ts"],[("replay of dependent values",C+"dependency-runtime.ts")]),
P("C26","Hidden items stay hidden exactly where requested",
 "The visibility setting hides an item from usage lines, documentation or suggestions exactly as documented for each level, combining two settings hides in a place exactly when either does, and hiding never changes what is parsed.",
 ["inputs","configurations"],"every visibility setting of parser and wrapper, every item kind",
 "Settings combine through nested wrappers; tests sample.",
 [C+"usage.ts"],[("visibility",C+"usage.ts")]),
P("C27","Discovered commands are addressed by their path without ambiguity",
 "Every command module under a directory or in a module map (declaration and test files aside) becomes exactly one command, whose path is its location under the base without the extension, an entry file standing for its directory; two modules of one path, a declared path that disagrees, a module exporting no command and a module outside the base are errors. A program built from commands gives an argument list that spells a command's path followed by that command's own arguments to that command and no other (commands that have subcommands taking options only). Help and completion are reachable unless disabled, and version whenever the metadata carries one.",
 ["inputs","configurations"],"every set of file paths, commands and argument lists",
 "File trees and command trees are arbitrary; tests use fixtures.",
 ["packages/discover/src/index.ts","packages/discover/src/generator.ts"],[("path derivation and dispatch","packages/discover/src/index.ts")]),
P("C28","Help, version and completion requests are recognised exactly when asked for",
 "A run shows help, version or completion output exactly when the command line contains the configured option or command in a position where the program's own parser does not claim it, never after the terminator, and the configured exit code is used. Any other command line goes to the parser unchanged.",
 ["inputs","configurations"],"every argument list and every combination of enabled features",
 "Placement, shadowing and terminators combine; tests sample them.",
 [C+"facade.ts"],[("meta dispatch",C+"facade.ts")]),
P("C29","Alternatives commit to one branch and report its result",
 "A choice among parsers returns the result of exactly one branch: the one that consumed input (the first such, or the one that consumed most for longest-match); once a branch has consumed input no other branch's value can be returned, and using options of two exclusive branches together is an error.",
 ["inputs","programs"],"every list of branches and every input",
 "Branch parsers are arbitrary; tests use built-ins with few tokens.",
 [C+"constructs.ts"],[("or/longestMatch/conditional",C+"constructs.ts")]),
P("C30","Structured results put every parsed value in its own place",
 "The result of an object, tuple, merge, concatenation or sequence contains for every field exactly the value its own parser produced, in declaration order, regardless of the order of options on the command line; a failure of any field fails the whole with that field's error.",
 ["inputs","programs"],"every set of fields with distinct names and every interleaving of their tokens",
 "Interleavings multiply; tests use fixed orders.",
 [C+"constructs.ts"],[("object/tuple/merge/concat",C+"constructs.ts")]),
P("C31","Wrapped schema and temporal parsers never accept what the library rejects",
 "A value parser built from a validation schema accepts a text exactly when the schema accepts it (a Boolean schema is given the Boolean that the text spells in a documented way) and returns what the schema returns; one built from a calendar type accepts exactly the texts of that type's own form that the calendar library accepts and returns what the library returns. Every rejection, and every exception of the calendar library, becomes a parse error, and a schema that can only be validated asynchronously is refused by a synchronous parser, never accepted.",
 ["inputs","configurations"],"every input text and schema",
 "Schemas are arbitrary; tests use a few.",
 ["packages/zod/src/index.ts","packages/valibot/src/index.ts","packages/standard-schema/src/index.ts","packages/temporal/src/index.ts"],[("adapters","packages/zod/src/index.ts")]),
P("C32","Handlers run once, inside their hooks, and their failures surface",
 "A program run executes the selected command's handler exactly once with the parsed value, wrapped by the program's and then the command's hooks: each hook runs once and in order, with the context its own scope produced; a failure anywhere runs the error hooks of the scopes entered, innermost first, and the original failure is rethrown even when an error hook fails. A rejected command line or a help, version or completion request runs no handler and no hook; the program's contexts see the command's parsed value.",
 ["inputs","configurations","fault_sequences"],"every combination of hooks, results and failures",
 "Failure points and hook combinations multiply; tests sample them.",
 ["packages/discover/src/index.ts"],[("hooks","packages/discover/src/index.ts")]),
]
open("/verif/properties.jsonl","w").write("".join(json.dumps(p)+"\n" for p in ps))
for p in ps: assert len(p["title"])<=80,p["id"]
print(len(ps))
