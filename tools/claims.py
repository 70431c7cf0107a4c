STD=" Every obligation is generated from /repo's current source and discharged for all inputs; trusted: the verification-condition generator in /verif/engine (validated by running the repository's own tests through it), its models of JavaScript built-ins, the solvers. Contracts marked bounded in the evidence bound the number of names/children, never the input."
CLAIMS={
"C01":"Step contract (consumed followed by the rest equals the input; failures touch nothing) proved for every primitive, command, pass-through, modifier and the drivers, for every token sequence; combinators as listed in the evidence."+STD,
"C02":"Driver loops proved with an inferred invariant for any number of steps, against an arbitrary parser obeying the step contract."+STD,
"C03":"Terminator clauses proved in every option/flag/argument step contract for every token sequence."+STD,
"C09":"optional/withDefault proved against an arbitrary child parser, sync and async."+STD,
"C18":"One-segment paths proved for every text, number and symbol; longer paths and histories bounded."+STD,
"C19":"Name validation proved exact (accepted if and only if usable) for every text; lists longer than three proved in the direction 'no unusable name gets through'; collision rules bounded to four names of any text."+STD,
"C20":"Asynchronous entry points and parsers proved against the same contracts as the synchronous ones, for every input; promise scheduling is a single chain of awaits."+STD,
"C22":"map and nonEmpty over arbitrary inner parsers; first-of over two to four arbitrary alternatives and every text; key-value splitting for one-character separators and every text, over default and arbitrary children; transform over arbitrary parser, map and unmap, sync and async; biject for every text. Separators of several characters and the printing law over real constituents are bounded enumerations. The printing law excludes a first-of whose earlier alternative accepts the text a later one prints (the documentation calls its printing a best effort)."+STD,
"C05":"Every numeric parser under one contract per configuration shape, proved for every text and every bound (machine numbers treated as exact integers/decimals; see trusted base)."+STD,
"C06":"choice() on any number of choices of any text in the exact-spelling mode; case-insensitive mode for lists of up to three choices of any text; numeric choices by generated spellings against a decimal reference (bounded)."+STD,
"C29":"or()/longestMatch()/conditional() parse and complete, sync and async: bounded deductive verification: arbitrary alternatives obeying the step contract and any input, but at most three alternatives (bounded, not counted as proved)."+STD,
"C30":"object(), tuple(), concat(), merge() (flat and nested, over histories of up to four tokens) and seq(), sync and async: bounded deductive verification: arbitrary fields obeying the step contract and any input, but at most three fields and a bounded number of loop steps (bounded, not counted as proved)."+STD,
"C16":"Every styled term, wrapping and link handling proved for any text in the terms, for messages of up to two terms; the word splitting of text terms by complete enumeration of short texts (bounded)."+STD,
"C17":"findSimilar() against an arbitrary edit distance for up to three candidates of any text; the distance against its recursive definition for texts of up to three characters symbolically and for every equality pattern of two texts of up to five characters (bounded); hints and candidate sets for bounded lists and usage trees of any names."+STD,
"C21":"Level names for every text, verbosity for any number of flags, debug for every token."+STD,
"C13":"Each record of each shell for every text, description and pattern by induction over the text; lists of suggestions and extensions bounded. The record readers are written from the parsing code of the generated scripts."+STD,
"C14":"Program names for every text; quoting for every argument text by induction over the text against a reader of each shell's quoting rules (one and two arguments)."+STD,
"C15":"Every escaping function, message term, title line, section and entry of a man page for every text without line breaks, by induction over the text against a reader of roff; texts with line breaks by complete enumeration of short texts; number of terms, entries and nesting of usage terms bounded."+STD,
"C08":"multiple() against an arbitrary child obeying the step contract, for every input and history state; completion and list lengths bounded to three items of any content (bounded, not counted as proved)."+STD,
"C23":"runWith()/runWithSync() against an arbitrary parser and contexts supplying arbitrary values, every overlap of two keys, phase and internal-annotation pattern, up to three contexts (bounded, not counted as proved); a single set of annotations for every content."+STD,
"C24":"Attach, detach and delegate laws for every kind of state with arbitrary contents; nested structures bounded to two levels; whole parsers by complete enumeration of pairs of combinators (bounded)."+STD,
"C28":"The dispatcher against an arbitrary parser (claiming any prefix, then failing, stalling, failing to complete or succeeding) for command lines of up to two tokens of any text (and three with the third of seven), for several configurations of the three requests (bounded, not counted as proved); exit codes of run, runSync and runAsync for every configuration."+STD,
"C10":"Each binding against an arbitrary inner parser (any step outcome, state, completion and skippability), any annotations, source value and default, sync and async, for every history: two arbitrary steps, after which a binding remembers only whether something was taken and an arbitrary inner state; also as a dependency source. Delivery through enclosing combinators for an arbitrary inner parser on short command lines (bounded)."+STD,
"C11":"Every binding asks the inner validateValue and returns its result, for any value and inner parser; option/argument against an arbitrary value parser; every type-keeping wrapper against an arbitrary child, nested twice; multiple for arrays of up to four elements (bounded)."+STD,
"C12":"Lookup for every prefix, key and variable text; boolean text for every string. Reading .env files is not covered."+STD,
"C26":"Levels and their combination for every pair; parsing steps of hidden and plain primitives compared for every token sequence and state; usage lines, documentation, suggestions and parses by complete enumeration of levels over each kind of item in twelve surroundings and four wrappers (bounded, not counted as proved)."+STD,
"C25":"Arbitrary source parsers, factories and dependent parsers (also throwing, sync and async in every combination) in ten program shapes, one or two sources, every order and form on the command line: complete enumeration of the decisions, bounded by the listed shapes. One known finding: a source in a later container than its dependent."+STD,
"C27":"Path derivation over every combination of listed names, folders, suffixes, extensions, bases, entry names and export forms (bounded); directory scans and generated modules on random scratch trees (bounded, executed); dispatch for 63 sets of commands and argument lists of up to three tokens (bounded), and for two commands and up to two tokens of any text."+STD,
"C32":"Every combination of present, failing and asynchronous hooks of both scopes, of handler outcomes and of context results, by complete path enumeration of the real runner; values opaque."+STD,
"C31":"Every adapter against an arbitrary library (any answer or exception for any text), every input text and every kind of error option; Boolean spellings exactly; calendar forms against independently written forms; additionally 27 schemas of the installed zod and valibot on 22 texts (bounded)."+STD,
"C04":"Option/flag step contracts proved for every token sequence, prior state and accepted name."+STD,
}
LEVELS={"C25":"other","C27":"other","C26":"other","C28":"other","C23":"other","C08":"other","C29":"other","C30":"other","C16":"other","C17":"other"}
NA={}
