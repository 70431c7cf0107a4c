From 5dc39910ace94248368fe7ce1b12121142e8aa87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:18 +0000
Subject: [PATCH 01/24] fix: do not split a dash off a bundle of short flags

A token such as `-v-` or `-v-foo` was split into `-v` and `--` or
`--foo`, so a bundle could terminate options or set a long option.
---
 packages/core/src/primitives.ts | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/packages/core/src/primitives.ts b/packages/core/src/primitives.ts
index 33cec13..981fe2c 100644
--- a/packages/core/src/primitives.ts
+++ b/packages/core/src/primitives.ts
@@ -1202,6 +1202,9 @@ export function option<M extends Mode, T>(
         );
         for (const shortOption of shortOptions) {
           if (!context.buffer[0].startsWith(shortOption)) continue;
+          // A dash cannot be a bundled letter: splitting it off would turn the
+          // rest of the token into a long option or the `--` terminator.
+          if (context.buffer[0].charAt(2) === "-") continue;
           if (hasParsedOptionValue(context.state, valueParser)) {
             return {
               success: false,
@@ -1757,6 +1760,9 @@ export function flag(
       );
       for (const shortOption of shortOptions) {
         if (!context.buffer[0].startsWith(shortOption)) continue;
+        // A dash cannot be a bundled letter: splitting it off would turn the
+        // rest of the token into a long option or the `--` terminator.
+        if (context.buffer[0].charAt(2) === "-") continue;
         if (context.state?.success) {
           return {
             success: false,
@@ -2232,6 +2238,9 @@ export function negatableFlag(
       for (const shortOption of optionNames) {
         if (!shortOption.match(/^-[^-]$/)) continue;
         if (!context.buffer[0].startsWith(shortOption)) continue;
+        // A dash cannot be a bundled letter: splitting it off would turn the
+        // rest of the token into a long option or the `--` terminator.
+        if (context.buffer[0].charAt(2) === "-") continue;
         return parseMatchedNegatableFlag(
           context,
           shortOption,
-- 
2.43.0


From f60c51418aeee02b8d75a9152c87699f41e5e994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:09 +0000
Subject: [PATCH 02/24] fix: keep symbol-keyed fields of merged objects

---
 packages/core/src/constructs.ts | 42 ++++++++++++++++++++++++---------
 1 file changed, 31 insertions(+), 11 deletions(-)

diff --git a/packages/core/src/constructs.ts b/packages/core/src/constructs.ts
index 347eeba..0393cfc 100644
--- a/packages/core/src/constructs.ts
+++ b/packages/core/src/constructs.ts
@@ -5212,6 +5212,26 @@ async function completeDependencySourceDefaultsAsync(
  * mappings from its child `object()` (or nested `merge()`) parsers.
  * @internal
  */
+/**
+ * Lists the fields of a child's state or value that `merge()` carries over:
+ * its enumerable string keys and its own enumerable symbol keys, except for
+ * the symbols Optique itself uses for bookkeeping.
+ * @internal
+ */
+function mergeableFields(value: unknown): readonly (string | symbol)[] {
+  const fields: (string | symbol)[] = [];
+  for (const field in value as object) fields.push(field);
+  if (value != null && typeof value === "object") {
+    for (const field of Object.getOwnPropertySymbols(value)) {
+      if (Symbol.keyFor(field)?.startsWith("@optique/")) continue;
+      if (Object.prototype.propertyIsEnumerable.call(value, field)) {
+        fields.push(field);
+      }
+    }
+  }
+  return fields;
+}
+
 /**
  * Removes entries for duplicate field names from a pre-completed results
  * map.  When a child construct's field-parser pairs contain the same field
@@ -10023,7 +10043,7 @@ export function merge(
   ): boolean =>
     parser.initialState != null &&
     typeof parser.initialState === "object" &&
-    Object.keys(parser.initialState).some((field) =>
+    mergeableFields(parser.initialState).some((field) =>
       duplicateOutputFieldNames.has(field)
     );
 
@@ -10039,7 +10059,7 @@ export function merge(
     } else if (
       parser.initialState && typeof parser.initialState === "object"
     ) {
-      for (const field in parser.initialState) {
+      for (const field of mergeableFields(parser.initialState)) {
         initialState[field] = parser.initialState[field];
       }
     }
@@ -10078,7 +10098,7 @@ export function merge(
       // For object parsers, extract matching fields from context state
       if (state && typeof state === "object") {
         const extractedState: MergeState = {};
-        for (const field in parser.initialState) {
+        for (const field of mergeableFields(parser.initialState)) {
           extractedState[field] = field in state
             ? state[field]
             : parser.initialState[field];
@@ -10367,7 +10387,7 @@ export function merge(
           }
           if (resolvedState && typeof resolvedState === "object") {
             const extractedState: MergeState = {};
-            for (const field in parser.initialState) {
+            for (const field of mergeableFields(parser.initialState)) {
               extractedState[field] = field in resolvedState
                 ? resolvedState[field]
                 : parser.initialState[field];
@@ -10497,7 +10517,7 @@ export function merge(
           );
           if (!result.success) return result;
           const resultValue = result.value as MergeState;
-          for (const field in resultValue) {
+          for (const field of mergeableFields(resultValue)) {
             object[field] = resultValue[field];
             // When a later child overwrites a key that an earlier child
             // marked as deferred, clear the stale marker so that
@@ -10640,7 +10660,7 @@ export function merge(
           );
           if (!result.success) return result;
           const resultValue = result.value as MergeState;
-          for (const field in resultValue) {
+          for (const field of mergeableFields(resultValue)) {
             object[field] = resultValue[field];
             // When a later child overwrites a key that an earlier child
             // marked as deferred, clear the stale marker so that
@@ -10706,7 +10726,7 @@ export function merge(
           }
           if (resolvedState && typeof resolvedState === "object") {
             const extractedState: MergeState = {};
-            for (const field in parser.initialState) {
+            for (const field of mergeableFields(parser.initialState)) {
               extractedState[field] = field in resolvedState
                 ? resolvedState[field]
                 : parser.initialState[field];
@@ -10815,7 +10835,7 @@ export function merge(
             if (seed == null) continue;
             hasAnySeed = true;
             const seedValue = seed.value as MergeState;
-            for (const field in seedValue) {
+            for (const field of mergeableFields(seedValue)) {
               object[field] = seedValue[field];
               if (
                 deferredKeys.has(field) &&
@@ -10954,7 +10974,7 @@ export function merge(
             if (seed == null) continue;
             hasAnySeed = true;
             const seedValue = seed.value as MergeState;
-            for (const field in seedValue) {
+            for (const field of mergeableFields(seedValue)) {
               object[field] = seedValue[field];
               if (
                 deferredKeys.has(field) &&
@@ -11025,10 +11045,10 @@ export function merge(
           }
           if (context.state && typeof context.state === "object") {
             const extractedState: MergeState = {};
-            for (const field in p.initialState) {
+            for (const field of mergeableFields(p.initialState)) {
               extractedState[field] = field in context.state
                 ? context.state[field]
-                : (p.initialState as Record<string, unknown>)[field];
+                : (p.initialState as Record<string | symbol, unknown>)[field];
             }
             return extractedState;
           }
-- 
2.43.0


From c56419d862b6d248d8067956f537309dbcef65ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:03 +0000
Subject: [PATCH 03/24] fix: report completion shells named like object members
 as unsupported

---
 packages/core/src/facade.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/core/src/facade.ts b/packages/core/src/facade.ts
index 5d1cb8f..b17bb52 100644
--- a/packages/core/src/facade.ts
+++ b/packages/core/src/facade.ts
@@ -1625,7 +1625,9 @@ function handleCompletion<M extends Mode, THelp, TError>(
     );
   }
 
-  const shell = availableShells[shellName];
+  const shell = Object.hasOwn(availableShells, shellName)
+    ? availableShells[shellName]
+    : undefined;
 
   if (!shell) {
     const available: MessageTerm[] = [];
-- 
2.43.0


From f1d38962169a83c9d79728297d6350bbd8fd3c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:03 +0000
Subject: [PATCH 04/24] fix: treat conditional() values named like object
 members as no branch

---
 packages/core/src/constructs.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packages/core/src/constructs.ts b/packages/core/src/constructs.ts
index 0393cfc..32887e0 100644
--- a/packages/core/src/constructs.ts
+++ b/packages/core/src/constructs.ts
@@ -13178,6 +13178,9 @@ export function conditional(
   ConditionalState<string>
 > {
   const branchParsers = Object.entries(branches);
+  // Branches are looked up by the discriminator's value, which may be any
+  // text: drop the prototype so that names like "constructor" are no branch.
+  branches = Object.assign(Object.create(null), branches);
   const allBranchParsers = defaultBranch
     ? [...branchParsers.map(([_, p]) => p), defaultBranch]
     : branchParsers.map(([_, p]) => p);
-- 
2.43.0


From 7d0db68b1cb096e31a2711183346624643a4f14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:19 +0000
Subject: [PATCH 05/24] fix: keep a confirmed conditional() branch definite
 when parsing asynchronously

---
 packages/core/src/constructs.ts | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/packages/core/src/constructs.ts b/packages/core/src/constructs.ts
index 32887e0..8413dde 100644
--- a/packages/core/src/constructs.ts
+++ b/packages/core/src/constructs.ts
@@ -13589,9 +13589,7 @@ export function conditional(
           // is consulted (and locally cleared) during completion
           // verification—completeAsync() does not write the cleared
           // state back into parse-time state.
-          ...((state.speculative || branchResult.provisional)
-            ? { provisional: true as const }
-            : {}),
+          ...(state.speculative ? { provisional: true as const } : {}),
           next: {
             ...branchResult.next,
             state: {
-- 
2.43.0


From 13eff4319cb67596f3eaa7c7463aa726c8afdaa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:20 +0000
Subject: [PATCH 06/24] fix: treat only the first "--" as a terminator in seq()

After the options terminator, seq() consumed a further "--" as another
terminator (dropping it from the results) and moved its cursor on tokens
spelled like options of later parsers, although no token is an option
anymore at that point.
---
 packages/core/src/constructs.ts | 48 +++++++++++++++++++++++----------
 1 file changed, 34 insertions(+), 14 deletions(-)

diff --git a/packages/core/src/constructs.ts b/packages/core/src/constructs.ts
index 8413dde..99026dd 100644
--- a/packages/core/src/constructs.ts
+++ b/packages/core/src/constructs.ts
@@ -6993,18 +6993,22 @@ function isParserLike(value: unknown): value is Parser<Mode, unknown, unknown> {
 function tokenMatchesLeadingName(
   token: string | undefined,
   candidates: SeqLeadingCandidates,
+  optionsTerminated: boolean,
 ): boolean {
   if (token == null) return false;
-  for (const name of candidates.optionNames) {
-    if (token === name) return true;
-  }
-  for (const name of candidates.joinedOptionNames) {
-    if (
-      name.startsWith("/") && token.startsWith(`${name}:`) ||
-      (name.startsWith("--") || name.startsWith("-") && name.length > 2) &&
-        token.startsWith(`${name}=`)
-    ) {
-      return true;
+  // After the options terminator, no token can be an option anymore.
+  if (!optionsTerminated) {
+    for (const name of candidates.optionNames) {
+      if (token === name) return true;
+    }
+    for (const name of candidates.joinedOptionNames) {
+      if (
+        name.startsWith("/") && token.startsWith(`${name}:`) ||
+        (name.startsWith("--") || name.startsWith("-") && name.length > 2) &&
+          token.startsWith(`${name}=`)
+      ) {
+        return true;
+      }
     }
   }
   for (const name of candidates.commandNames) {
@@ -7351,17 +7355,32 @@ function shouldAdvanceSeqBeforeParse(
   parsers: readonly Parser<Mode, unknown, unknown>[],
 ): boolean {
   const token = currentContext.buffer[0];
-  if (token !== "--") {
+  const { optionsTerminated } = currentContext;
+  // Only the first "--" terminates options; any later one is plain data.
+  const isTerminator = token === "--" && !optionsTerminated;
+  if (!isTerminator) {
     const laterLeadingCandidates = leadingCandidatesAfter(parsers, index + 1);
-    if (!tokenMatchesLeadingName(token, laterLeadingCandidates)) return false;
+    if (
+      !tokenMatchesLeadingName(
+        token,
+        laterLeadingCandidates,
+        optionsTerminated,
+      )
+    ) {
+      return false;
+    }
   }
   if (!parserCanSkipAt(parser, parserState, currentContext.exec, index)) {
     return false;
   }
-  if (token === "--") return true;
+  if (isTerminator) return true;
   if (currentContext.state.states[index] === initialParserState) {
     const currentLeadingCandidates = sequenceLeadingCandidates([parser]);
-    return !tokenMatchesLeadingName(token, currentLeadingCandidates);
+    return !tokenMatchesLeadingName(
+      token,
+      currentLeadingCandidates,
+      optionsTerminated,
+    );
   }
   return !tokenMatchesLeadingName(
     token,
@@ -7369,6 +7388,7 @@ function shouldAdvanceSeqBeforeParse(
       parser.usage,
       currentContext.state.states[index],
     ),
+    optionsTerminated,
   );
 }
 
-- 
2.43.0


From 57645da973a903d818079fe99b1b1208662f3806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:37 +0000
Subject: [PATCH 07/24] fix: keep the bookkeeping of nested merge() parsers
 apart

---
 packages/core/src/constructs.ts | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/packages/core/src/constructs.ts b/packages/core/src/constructs.ts
index 99026dd..06ec941 100644
--- a/packages/core/src/constructs.ts
+++ b/packages/core/src/constructs.ts
@@ -9832,6 +9832,9 @@ type ExtractObjectTypes<P> = P extends Parser<Mode, infer V, unknown>
   : V
   : never;
 
+/** The number of `merge()` parsers created so far. */
+let mergeInstances = 0;
+
 /**
  * Options for the {@link merge} parser.
  * @since 0.7.0
@@ -10056,8 +10059,12 @@ export function merge(
   const duplicateOutputFieldNames = collectDuplicateFieldNames(
     mergedFieldParsers,
   );
-  const parserStateKey = (index: number) => `__parser_${index}`;
-  const localObjectStateKey = (index: number) => `__merge_local_${index}`;
+  // Nested merge() parsers keep their bookkeeping in the same flat state
+  // object, so the keys have to differ from one merge() to another.
+  const instance = mergeInstances++;
+  const parserStateKey = (index: number) => `__parser_${instance}_${index}`;
+  const localObjectStateKey = (index: number) =>
+    `__merge_local_${instance}_${index}`;
   const shouldPreserveLocalChildState = (
     parser: Parser<Mode, Record<string | symbol, unknown>, unknown>,
   ): boolean =>
@@ -11286,7 +11293,7 @@ export function merge(
         if (p.initialState === undefined) {
           // For parsers with undefined initialState (like or()),
           // check if they have accumulated state during parsing
-          const key = `__parser_${i}`;
+          const key = parserStateKey(i);
           if (
             state.kind === "available" &&
             state.state &&
-- 
2.43.0


From 79e94e8423248bc09d29ffc7968ed3d26d53ce8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:37 +0000
Subject: [PATCH 08/24] fix: reset the color after a list of a single value

---
 packages/core/src/message.ts | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/packages/core/src/message.ts b/packages/core/src/message.ts
index 5f5b12d..9ef6c02 100644
--- a/packages/core/src/message.ts
+++ b/packages/core/src/message.ts
@@ -705,12 +705,11 @@ export function formatMessage(
             ? JSON.stringify(term.values[i])
             : term.values[i];
           yield {
+            // Green spans the whole list, from the first value to the last one,
+            // which can be the same value:
             text: useColors
-              ? i <= 0
-                ? `\x1b[32m${value}`
-                : i + 1 >= term.values.length
-                ? `${value}${resetSequence}`
-                : value
+              ? (i <= 0 ? "\x1b[32m" : "") + value +
+                (i + 1 >= term.values.length ? resetSequence : "")
               : value,
             width: getDisplayWidth(value),
           };
-- 
2.43.0


From 8cb968e6b101ea0e3d6b7fdc73b762fe3315fe7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:56 +0000
Subject: [PATCH 09/24] fix: quote every argument of fish and PowerShell
 completion scripts

---
 packages/core/src/completion.ts | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/packages/core/src/completion.ts b/packages/core/src/completion.ts
index 59ae1af..b6ff76f 100644
--- a/packages/core/src/completion.ts
+++ b/packages/core/src/completion.ts
@@ -534,7 +534,7 @@ export const fish: ShellCompletion = {
   name: "fish",
   generateScript(programName: string, args: readonly string[] = []): string {
     validateProgramName(programName);
-    const escapedArgs = args.map((arg) => `'${arg.replace(/'/g, "\\'")}'`)
+    const escapedArgs = args.map((arg) => `'${arg.replace(/[\\']/g, "\\$&")}'`)
       .join(" ");
     const functionName = `__${
       programName.replace(/[^a-zA-Z0-9]/g, "_")
@@ -1183,8 +1183,10 @@ export const pwsh: ShellCompletion = {
   name: "pwsh",
   generateScript(programName: string, args: readonly string[] = []): string {
     validateProgramName(programName);
-    const escapedArgs = args.map((arg) => `'${arg.replace(/'/g, "''")}'`)
-      .join(", ");
+    // PowerShell takes typographic single quotes for quotes, too:
+    const escapedArgs = args.map((arg) =>
+      `'${arg.replace(/['\u2018-\u201b]/g, "$&$&")}'`
+    ).join(", ");
     return `
 Register-ArgumentCompleter -Native -CommandName ${programName} -ScriptBlock {
     param(\$wordToComplete, \$commandAst, \$cursorPosition)
-- 
2.43.0


From ea2429e3db4810bb03a42c5e748df69c797c18f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:56 +0000
Subject: [PATCH 10/24] fix: offer no suggestion when none is allowed

---
 packages/core/src/suggestion.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/core/src/suggestion.ts b/packages/core/src/suggestion.ts
index f1d8010..f11438f 100644
--- a/packages/core/src/suggestion.ts
+++ b/packages/core/src/suggestion.ts
@@ -177,7 +177,7 @@ export function findSimilar(
 
     // Early termination for exact match
     if (distance === 0) {
-      return [candidate];
+      return [candidate].slice(0, maxSuggestions);
     }
 
     // Check if within thresholds
-- 
2.43.0


From dc184586ec453212f30196c2d6f3a95dc804c9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:56 +0000
Subject: [PATCH 11/24] fix: keep file completion directives and blank lines
 from breaking records

---
 packages/core/src/completion.ts | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/packages/core/src/completion.ts b/packages/core/src/completion.ts
index b6ff76f..ab6e1cf 100644
--- a/packages/core/src/completion.ts
+++ b/packages/core/src/completion.ts
@@ -47,13 +47,16 @@ function validateProgramName(programName: string): void {
  * @internal
  */
 function encodePattern(pattern: string): string {
-  return pattern.replace(/%/g, "%25").replace(/:/g, "%3A");
+  return sanitizeForTransport(pattern)
+    .replace(/%/g, "%25").replace(/:/g, "%3A");
 }
 
 function encodeExtensions(
   extensions: readonly string[] | undefined,
 ): string {
-  return extensions?.map((ext) => ext.replace(/^\./, "")).join(",") ?? "";
+  return extensions
+    ?.map((ext) => encodePattern(ext.replace(/^\./, "")).replace(/,/g, "%2C"))
+    .join(",") ?? "";
 }
 
 /**
@@ -113,6 +116,8 @@ function _${programName} () {
   local current="\${COMP_WORDS[COMP_CWORD]}"
   local prev=("\${COMP_WORDS[@]:1:COMP_CWORD-1}")
   while IFS= read -r line; do
+    # The program may put blank lines between suggestions
+    [[ -n "$line" ]] || continue
     if [[ "$line" == __FILE__:* ]]; then
       # Parse file completion directive: __FILE__:type:extensions:pattern:hidden
       IFS=':' read -r _ type extensions pattern hidden <<< "$line"
-- 
2.43.0


From fa7d692be779a28585e38a446f91588bd59991c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:56 +0000
Subject: [PATCH 12/24] fix: never take a literal suggestion for a file
 suggestion when removing duplicates

---
 packages/core/src/suggestion.ts | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/packages/core/src/suggestion.ts b/packages/core/src/suggestion.ts
index f11438f..78cb97f 100644
--- a/packages/core/src/suggestion.ts
+++ b/packages/core/src/suggestion.ts
@@ -513,7 +513,7 @@ export function appendValueHint(
 /**
  * Creates a unique key for a suggestion to enable deduplication.
  *
- * For literal suggestions, the text itself is used as the key.
+ * For literal suggestions, the key is made of the text.
  * For file suggestions, a composite key is created from the type,
  * extensions, and pattern.
  *
@@ -523,13 +523,17 @@ export function appendValueHint(
  */
 function getSuggestionKey(suggestion: Suggestion): string {
   if (suggestion.kind === "literal") {
-    return suggestion.text;
+    return `literal:${suggestion.text}`;
   }
   // File suggestion: create a composite key (excludes includeHidden,
   // which is merged separately in deduplicateSuggestions)
-  return `__FILE__:${suggestion.type}:${
-    suggestion.extensions?.toSorted().join(",") ?? ""
-  }:${suggestion.pattern ?? ""}`;
+  return `file:${
+    JSON.stringify([
+      suggestion.type,
+      suggestion.extensions?.toSorted() ?? [],
+      suggestion.pattern ?? "",
+    ])
+  }`;
 }
 
 /**
-- 
2.43.0


From 2439b0452c56690614ce1b8aa4f62b4e287193b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:56 +0000
Subject: [PATCH 13/24] fix: escape backslashes of option names in man pages

---
 packages/man/src/man.ts  | 14 +++++++-------
 packages/man/src/roff.ts |  4 ++--
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/packages/man/src/man.ts b/packages/man/src/man.ts
index 8f57812..a5a4420 100644
--- a/packages/man/src/man.ts
+++ b/packages/man/src/man.ts
@@ -162,7 +162,7 @@ export function formatDateForMan(
   return `${months[date.getMonth()]} ${date.getFullYear()}`;
 }
 
-function formatCommandNameAsRoff(name: string): string {
+function formatNameAsRoff(name: string): string {
   return `\\fB${escapeHyphens(escapeRoff(name))}\\fR`;
 }
 
@@ -222,7 +222,7 @@ function formatUsageTermAsRoffInternal(
 
     case "option": {
       const names = term.names
-        .map((name) => `\\fB${escapeHyphens(name)}\\fR`)
+        .map(formatNameAsRoff)
         .join(" | ");
       const metavarPart = term.metavar
         ? ` \\fI${escapeRoff(term.metavar)}\\fR`
@@ -232,7 +232,7 @@ function formatUsageTermAsRoffInternal(
     }
 
     case "command":
-      return formatCommandNameAsRoff(term.name);
+      return formatNameAsRoff(term.name);
 
     case "optional": {
       const childrenBracketed = hasSingleBracketedTerm(term.terms);
@@ -349,7 +349,7 @@ function formatDocEntryTerm(term: UsageTerm): string {
   switch (term.type) {
     case "option": {
       const names = term.names
-        .map((name) => `\\fB${escapeHyphens(name)}\\fR`)
+        .map(formatNameAsRoff)
         .join(", ");
       const metavarPart = term.metavar
         ? ` \\fI${escapeRoff(term.metavar)}\\fR`
@@ -358,7 +358,7 @@ function formatDocEntryTerm(term: UsageTerm): string {
     }
 
     case "command":
-      return formatCommandNameAsRoff(term.name);
+      return formatNameAsRoff(term.name);
 
     case "argument":
       return `\\fI${escapeRoff(term.metavar)}\\fR`;
@@ -413,7 +413,7 @@ function formatDocUsageTermAsRoff(term: UsageTerm): string {
 
     case "option": {
       const names = term.names
-        .map((name) => `\\fB${escapeHyphens(name)}\\fR`)
+        .map(formatNameAsRoff)
         .join(", ");
       const metavarPart = term.metavar
         ? ` \\fI${escapeRoff(term.metavar)}\\fR`
@@ -422,7 +422,7 @@ function formatDocUsageTermAsRoff(term: UsageTerm): string {
     }
 
     case "command":
-      return formatCommandNameAsRoff(term.name);
+      return formatNameAsRoff(term.name);
 
     case "literal":
       return escapeRoff(term.value);
diff --git a/packages/man/src/roff.ts b/packages/man/src/roff.ts
index 17b2181..fe1a476 100644
--- a/packages/man/src/roff.ts
+++ b/packages/man/src/roff.ts
@@ -145,12 +145,12 @@ function formatTermAsRoff(
 
     case "optionName":
       // Bold with escaped hyphens
-      return `\\fB${escapeHyphens(term.optionName)}\\fR`;
+      return `\\fB${escapeHyphens(escapeBackslashes(term.optionName))}\\fR`;
 
     case "optionNames":
       // Comma-separated bold option names
       return term.optionNames
-        .map((name) => `\\fB${escapeHyphens(name)}\\fR`)
+        .map((name) => `\\fB${escapeHyphens(escapeBackslashes(name))}\\fR`)
         .join(", ");
 
     case "metavar":
-- 
2.43.0


From 5229f5f04fd2083ef363736069cddc19c5e63877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:34 +0000
Subject: [PATCH 14/24] fix: keep a leading usage ellipsis in man pages from
 being read as a request

---
 packages/man/src/man.ts | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/packages/man/src/man.ts b/packages/man/src/man.ts
index a5a4420..c2a7875 100644
--- a/packages/man/src/man.ts
+++ b/packages/man/src/man.ts
@@ -474,6 +474,17 @@ function inferSectionTitle(entries: readonly DocEntry[]): string {
   return "OPTIONS";
 }
 
+/**
+ * Keeps an output line that begins with a usage ellipsis (`...`) from being
+ * taken for a roff request.
+ *
+ * @param line The roff-formatted line.
+ * @returns The line, safe to put at the start of a line.
+ */
+function protectLineStart(line: string): string {
+  return line.startsWith(".") ? `\\&${line}` : line;
+}
+
 /**
  * Formats a {@link DocSection} as roff markup with .TP macros.
  *
@@ -488,7 +499,7 @@ function formatDocSectionEntries(section: DocSection): string {
     if (termStr === "") continue;
 
     lines.push(".TP");
-    lines.push(termStr);
+    lines.push(protectLineStart(termStr));
 
     if (entry.description) {
       let desc = formatMessageAsRoff(entry.description);
@@ -625,7 +636,7 @@ export function formatDocPageAsMan(
     lines.push(`.B "${escapeHyphens(escapeRequestArg(options.name))}"`);
     const usageStr = formatUsageAsRoff(page.usage);
     if (usageStr) {
-      lines.push(usageStr);
+      lines.push(protectLineStart(usageStr));
     }
   }
 
-- 
2.43.0


From e5c66d0f59063f63e77aaa785bbd296850ec8cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:00 +0000
Subject: [PATCH 15/24] fix: return the original value from constant() even
 when its state carries annotations

---
 packages/core/src/primitives.ts | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/packages/core/src/primitives.ts b/packages/core/src/primitives.ts
index 981fe2c..9e10042 100644
--- a/packages/core/src/primitives.ts
+++ b/packages/core/src/primitives.ts
@@ -278,8 +278,10 @@ export function constant<const T>(value: T): FluentParser<"sync", T, T> {
     parse(context) {
       return { success: true, next: context, consumed: [] };
     },
-    complete(state, _exec?: ExecutionContext) {
-      return { success: true, value: state };
+    complete(_state, _exec?: ExecutionContext) {
+      // The state may be a copy or a wrapper carrying annotations, so the
+      // original value is returned instead.
+      return { success: true, value };
     },
     suggest(_context, _prefix) {
       return [];
-- 
2.43.0


From 090e43a29347acea1cd8929ab2aba3f28cb90c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:00 +0000
Subject: [PATCH 16/24] fix: recognise nonEmpty()'s untouched state when it
 carries annotations

---
 packages/core/src/modifiers.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/core/src/modifiers.ts b/packages/core/src/modifiers.ts
index d4190ef..953a3bb 100644
--- a/packages/core/src/modifiers.ts
+++ b/packages/core/src/modifiers.ts
@@ -3359,7 +3359,7 @@ export function nonEmpty<M extends Mode, T, TState>(
     ...(typeof parser.canSkip === "function"
       ? {
         canSkip(state: TState, exec?: ExecutionContext) {
-          const unwrappedState = unwrapInjectedAnnotationWrapper(state);
+          const unwrappedState = normalizeDelegatedAnnotationState(state);
           if (unwrappedState === initialState) return false;
           return parser.canSkip?.(unwrappedState, exec) === true;
         },
-- 
2.43.0


From 68c707c8866bd20a0089e45afd3e2dba40b04f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:35 +0000
Subject: [PATCH 17/24] fix: let environment, configuration and derived values
 reach parsers behind map() and group()

---
 packages/core/src/annotation-state.ts | 19 ++++++++++++++----
 packages/core/src/constructs.ts       |  2 ++
 packages/core/src/internal/parser.ts  | 28 +++++++++++++++++++++++++++
 3 files changed, 45 insertions(+), 4 deletions(-)

diff --git a/packages/core/src/annotation-state.ts b/packages/core/src/annotation-state.ts
index 6993ad8..6e849fe 100644
--- a/packages/core/src/annotation-state.ts
+++ b/packages/core/src/annotation-state.ts
@@ -11,6 +11,7 @@ import {
   inheritParentAnnotationsKey,
   type Mode,
   type Parser,
+  unmatchedNonCliDependencySourceStateMarker,
 } from "./internal/parser.ts";
 
 /**
@@ -608,6 +609,18 @@ export function isAnnotationWrappedInitialState(state: unknown): boolean {
   return normalizeInjectedAnnotationState(state) === undefined;
 }
 
+/**
+ * Checks whether a parser takes annotations from its parent's state: it opts
+ * into inheritance, or it completes from an annotation source itself.  The
+ * latter survives wrappers such as `map()` that spread the parser they wrap.
+ */
+function inheritsParentAnnotations(
+  parser: Parser<Mode, unknown, unknown>,
+): boolean {
+  return Reflect.get(parser, inheritParentAnnotationsKey) === true ||
+    Reflect.get(parser, unmatchedNonCliDependencySourceStateMarker) === true;
+}
+
 /**
  * Propagates parent annotations into a child parse state when the child parser
  * explicitly opts into parent annotation inheritance.
@@ -628,8 +641,7 @@ export function getWrappedChildParseState<TState>(
   parser: Parser<Mode, unknown, unknown>,
 ): TState {
   const annotations = getAnnotations(parentState);
-  const shouldInheritAnnotations =
-    Reflect.get(parser, inheritParentAnnotationsKey) === true;
+  const shouldInheritAnnotations = inheritsParentAnnotations(parser);
   if (childState == null) {
     if (annotations !== undefined && shouldInheritAnnotations) {
       return injectAnnotations(childState, annotations);
@@ -669,8 +681,7 @@ export function getWrappedChildState<TState>(
   parser: Parser<Mode, unknown, unknown>,
 ): TState {
   const annotations = getAnnotations(parentState);
-  const shouldInheritAnnotations =
-    Reflect.get(parser, inheritParentAnnotationsKey) === true;
+  const shouldInheritAnnotations = inheritsParentAnnotations(parser);
   if (childState == null) {
     if (annotations !== undefined && shouldInheritAnnotations) {
       return injectAnnotations(childState, annotations);
diff --git a/packages/core/src/constructs.ts b/packages/core/src/constructs.ts
index 06ec941..8c9a84b 100644
--- a/packages/core/src/constructs.ts
+++ b/packages/core/src/constructs.ts
@@ -77,6 +77,7 @@ import type {
 } from "./parser.ts";
 import {
   defineInheritedAnnotationParser,
+  forwardAnnotationTraits,
   getParserSuggestRuntimeNodes,
   unmatchedNonCliDependencySourceStateMarker,
 } from "./internal/parser.ts";
@@ -12937,6 +12938,7 @@ export function group<M extends Mode, TValue, TState>(
       };
     },
   };
+  forwardAnnotationTraits(groupParser, parser);
   Object.defineProperty(groupParser, extractPhase2SeedKey, {
     value(state: TState, exec?: ExecutionContext) {
       return extractPhase2Seed(parser, state, exec);
diff --git a/packages/core/src/internal/parser.ts b/packages/core/src/internal/parser.ts
index e2aac28..fea9d25 100644
--- a/packages/core/src/internal/parser.ts
+++ b/packages/core/src/internal/parser.ts
@@ -1311,6 +1311,34 @@ export function defineSourceBindingOnlyAnnotationCompletionParser(
   });
 }
 
+/**
+ * Copies the annotation traits of a parser onto a wrapper that hands its
+ * states to that parser unchanged, so that enclosing parsers pass annotations
+ * through the wrapper exactly as they would pass them to the parser itself.
+ *
+ * @internal
+ */
+export function forwardAnnotationTraits(
+  wrapper: object,
+  parser: object,
+): void {
+  if (Reflect.get(parser, inheritParentAnnotationsKey) === true) {
+    defineInheritedAnnotationParser(wrapper);
+  }
+  if (Reflect.get(parser, annotationWrapperRequiresSourceBindingKey) === true) {
+    defineSourceBindingOnlyAnnotationCompletionParser(wrapper);
+  }
+  if (
+    Reflect.get(parser, unmatchedNonCliDependencySourceStateMarker) === true
+  ) {
+    Object.defineProperty(wrapper, unmatchedNonCliDependencySourceStateMarker, {
+      value: true,
+      configurable: true,
+      enumerable: true,
+    });
+  }
+}
+
 /**
  * Generates command-line suggestions based on current parsing state.
  * This function processes the input arguments up to the last argument,
-- 
2.43.0


From 44e748541c67f58714ec461041e3e39d16f84460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:35 +0000
Subject: [PATCH 18/24] fix: hand annotations to the elements of tuple() and
 concat() when they complete

---
 packages/core/src/constructs.ts | 105 +++++++++++++++++++++++++++-----
 1 file changed, 89 insertions(+), 16 deletions(-)

diff --git a/packages/core/src/constructs.ts b/packages/core/src/constructs.ts
index 8c9a84b..73e4b8e 100644
--- a/packages/core/src/constructs.ts
+++ b/packages/core/src/constructs.ts
@@ -553,6 +553,21 @@ function prepareStateForCompletion(
   return fieldState;
 }
 
+/**
+ * Like {@link prepareStateForCompletion}, for an element of an array state
+ * whose annotations the element inherits.
+ */
+function prepareElementForCompletion(
+  stateArray: unknown,
+  elementState: unknown,
+  parser: Parser<Mode, unknown, unknown>,
+): unknown {
+  return prepareStateForCompletion(
+    getAnnotatedChildState(stateArray, elementState, parser),
+    parser,
+  );
+}
+
 /**
  * Returns the field state with parent annotations inherited, respecting
  * the parser's annotation-inheritance contract. This is the same logic as
@@ -8676,7 +8691,8 @@ export function tuple<
             if (preCompletedResult !== undefined) {
               valueResult = unwrapCompleteResult(preCompletedResult);
             } else {
-              const elementState = prepareStateForCompletion(
+              const elementState = prepareElementForCompletion(
+                stateArray,
                 resolvedArray[i],
                 elementParser,
               );
@@ -8772,7 +8788,8 @@ export function tuple<
             if (preCompletedResult !== undefined) {
               valueResult = unwrapCompleteResult(preCompletedResult);
             } else {
-              const elementState = prepareStateForCompletion(
+              const elementState = prepareElementForCompletion(
+                stateArray,
                 resolvedArray[i],
                 elementParser,
               );
@@ -8865,13 +8882,21 @@ export function tuple<
             const seed = preCompletedResult !== undefined
               ? reusePreCompletedPhase2Seed(
                 elementParser,
-                prepareStateForCompletion(resolvedArray[i], elementParser),
+                prepareElementForCompletion(
+                  stateArray,
+                  resolvedArray[i],
+                  elementParser,
+                ),
                 preCompletedResult,
                 childExec,
               )
               : completeOrExtractPhase2Seed(
                 elementParser,
-                prepareStateForCompletion(resolvedArray[i], elementParser),
+                prepareElementForCompletion(
+                  stateArray,
+                  resolvedArray[i],
+                  elementParser,
+                ),
                 childExec,
               );
             if (seed == null) continue;
@@ -8948,13 +8973,21 @@ export function tuple<
             const seed = preCompletedResult !== undefined
               ? await reusePreCompletedPhase2SeedAsync(
                 elementParser,
-                prepareStateForCompletion(resolvedArray[i], elementParser),
+                prepareElementForCompletion(
+                  stateArray,
+                  resolvedArray[i],
+                  elementParser,
+                ),
                 preCompletedResult,
                 childExec,
               )
               : await completeOrExtractPhase2Seed(
                 elementParser,
-                prepareStateForCompletion(resolvedArray[i], elementParser),
+                prepareElementForCompletion(
+                  stateArray,
+                  resolvedArray[i],
+                  elementParser,
+                ),
                 childExec,
               );
             if (seed == null) continue;
@@ -9472,13 +9505,21 @@ export function seq<
             const seed = preCompletedResult !== undefined
               ? reusePreCompletedPhase2Seed(
                 elementParser,
-                prepareStateForCompletion(resolvedArray[i], elementParser),
+                prepareElementForCompletion(
+                  stateArray,
+                  resolvedArray[i],
+                  elementParser,
+                ),
                 preCompletedResult,
                 childExec,
               )
               : completeOrExtractPhase2Seed(
                 elementParser,
-                prepareStateForCompletion(resolvedArray[i], elementParser),
+                prepareElementForCompletion(
+                  stateArray,
+                  resolvedArray[i],
+                  elementParser,
+                ),
                 childExec,
               );
             if (seed == null) continue;
@@ -9555,13 +9596,21 @@ export function seq<
             const seed = preCompletedResult !== undefined
               ? await reusePreCompletedPhase2SeedAsync(
                 elementParser,
-                prepareStateForCompletion(resolvedArray[i], elementParser),
+                prepareElementForCompletion(
+                  stateArray,
+                  resolvedArray[i],
+                  elementParser,
+                ),
                 preCompletedResult,
                 childExec,
               )
               : await completeOrExtractPhase2Seed(
                 elementParser,
-                prepareStateForCompletion(resolvedArray[i], elementParser),
+                prepareElementForCompletion(
+                  stateArray,
+                  resolvedArray[i],
+                  elementParser,
+                ),
                 childExec,
               );
             if (seed == null) continue;
@@ -12295,7 +12344,11 @@ export function concat(
         ? unwrapCompleteResult(preCompletedResult)
         : unwrapCompleteResult(
           parser.complete(
-            prepareStateForCompletion(resolvedArray[i], parser),
+            prepareElementForCompletion(
+              stateArray,
+              resolvedArray[i],
+              parser,
+            ),
             withChildExecPath(phase3Exec, i),
           ),
         );
@@ -12405,7 +12458,11 @@ export function concat(
         ? unwrapCompleteResult(preCompletedResult)
         : unwrapCompleteResult(
           await parser.complete(
-            prepareStateForCompletion(resolvedArray[i], parser),
+            prepareElementForCompletion(
+              stateArray,
+              resolvedArray[i],
+              parser,
+            ),
             withChildExecPath(phase3Exec, i),
           ),
         );
@@ -12538,13 +12595,21 @@ export function concat(
             const seed = preCompletedResult !== undefined
               ? reusePreCompletedPhase2Seed(
                 parser,
-                prepareStateForCompletion(resolvedArray[i], parser),
+                prepareElementForCompletion(
+                  stateArray,
+                  resolvedArray[i],
+                  parser,
+                ),
                 preCompletedResult,
                 childExec,
               )
               : completeOrExtractPhase2Seed(
                 parser,
-                prepareStateForCompletion(resolvedArray[i], parser),
+                prepareElementForCompletion(
+                  stateArray,
+                  resolvedArray[i],
+                  parser,
+                ),
                 childExec,
               );
             if (seed == null) continue;
@@ -12610,13 +12675,21 @@ export function concat(
             const seed = preCompletedResult !== undefined
               ? await reusePreCompletedPhase2SeedAsync(
                 parser,
-                prepareStateForCompletion(resolvedArray[i], parser),
+                prepareElementForCompletion(
+                  stateArray,
+                  resolvedArray[i],
+                  parser,
+                ),
                 preCompletedResult,
                 childExec,
               )
               : await completeOrExtractPhase2Seed(
                 parser,
-                prepareStateForCompletion(resolvedArray[i], parser),
+                prepareElementForCompletion(
+                  stateArray,
+                  resolvedArray[i],
+                  parser,
+                ),
                 childExec,
               );
             if (seed == null) continue;
-- 
2.43.0


From 7a8216f1185b882a46d09df63e2664db7f75b8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:35 +0000
Subject: [PATCH 19/24] fix: keep a bound parser's command-line value when a
 later step consumes nothing

---
 packages/config/src/index.ts           | 9 ++++++++-
 packages/derived-defaults/src/index.ts | 9 ++++++++-
 packages/env/src/index.ts              | 9 ++++++++-
 3 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/packages/config/src/index.ts b/packages/config/src/index.ts
index 7912c04..3ec73ab 100644
--- a/packages/config/src/index.ts
+++ b/packages/config/src/index.ts
@@ -811,6 +811,10 @@ export function bindConfig<
         ? { ...context, state: innerState }
         : context;
 
+      // A value taken from the command line by an earlier step stays there
+      // when this step finds nothing more to consume.
+      const hadCliValue = isConfigBindState(context.state) &&
+        context.state.hasCliValue;
       const processResult = (
         result: ParserResult<TState>,
       ): ParserResult<TState> => {
@@ -820,7 +824,7 @@ export function bindConfig<
           // with consumed: [] when the CLI option is absent; treating those
           // as "CLI provided" would skip the config fallback and break
           // composition with bindEnv.
-          const cliConsumed = result.consumed.length > 0;
+          const cliConsumed = hadCliValue || result.consumed.length > 0;
           const newState = injectAnnotations({
             [configBindStateKey]: true as const,
             hasCliValue: cliConsumed,
@@ -842,6 +846,9 @@ export function bindConfig<
           return result;
         }
 
+        if (hadCliValue) {
+          return { success: true, next: context, consumed: [] };
+        }
         const newState = injectAnnotations({
           [configBindStateKey]: true as const,
           hasCliValue: false,
diff --git a/packages/derived-defaults/src/index.ts b/packages/derived-defaults/src/index.ts
index 1dae2c0..5a2945a 100644
--- a/packages/derived-defaults/src/index.ts
+++ b/packages/derived-defaults/src/index.ts
@@ -507,11 +507,15 @@ export function bindDerivedDefault<
       const innerContext = innerState !== context.state
         ? { ...context, state: innerState }
         : context;
+      // A value taken from the command line by an earlier step stays there
+      // when this step finds nothing more to consume.
+      const hadCliValue = isBindState(context.state) &&
+        context.state.hasCliValue;
       const processResult = (
         result: ParserResult<TState>,
       ): ParserResult<TState> => {
         if (result.success) {
-          const cliConsumed = result.consumed.length > 0;
+          const cliConsumed = hadCliValue || result.consumed.length > 0;
           const nextState = injectAnnotations({
             [bindStateKey]: true as const,
             hasCliValue: cliConsumed,
@@ -525,6 +529,9 @@ export function bindDerivedDefault<
           };
         }
         if (result.consumed > 0) return result;
+        if (hadCliValue) {
+          return { success: true, next: context, consumed: [] };
+        }
         const nextState = injectAnnotations({
           [bindStateKey]: true as const,
           hasCliValue: false,
diff --git a/packages/env/src/index.ts b/packages/env/src/index.ts
index ac2280b..db0d764 100644
--- a/packages/env/src/index.ts
+++ b/packages/env/src/index.ts
@@ -801,6 +801,10 @@ export function bindEnv<
         ? { ...context, state: innerState }
         : context;
 
+      // A value taken from the command line by an earlier step stays there
+      // when this step finds nothing more to consume.
+      const hadCliValue = isEnvBindState(context.state) &&
+        context.state.hasCliValue;
       const processResult = (
         result: ParserResult<TState>,
       ): ParserResult<TState> => {
@@ -810,7 +814,7 @@ export function bindEnv<
           // return success with consumed: [] when the CLI option is
           // absent; treating those as "CLI provided" would skip the env
           // fallback and break composition.
-          const cliConsumed = result.consumed.length > 0;
+          const cliConsumed = hadCliValue || result.consumed.length > 0;
           const nextState = injectAnnotations({
             [envBindStateKey]: true as const,
             hasCliValue: cliConsumed,
@@ -832,6 +836,9 @@ export function bindEnv<
           return result;
         }
 
+        if (hadCliValue) {
+          return { success: true, next: context, consumed: [] };
+        }
         const nextState = injectAnnotations({
           [envBindStateKey]: true as const,
           hasCliValue: false,
-- 
2.43.0


From 54cb3cee0b372d124249306d69b71de27a722f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:35 +0000
Subject: [PATCH 20/24] fix: keep the command-line value of a bound object
 inside merge()

---
 packages/core/src/constructs.ts | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/packages/core/src/constructs.ts b/packages/core/src/constructs.ts
index 73e4b8e..29d12d3 100644
--- a/packages/core/src/constructs.ts
+++ b/packages/core/src/constructs.ts
@@ -10115,14 +10115,19 @@ export function merge(
   const parserStateKey = (index: number) => `__parser_${instance}_${index}`;
   const localObjectStateKey = (index: number) =>
     `__merge_local_${instance}_${index}`;
+  // Source-bound parsers (bindEnv() and the like) wrap the state of the parser
+  // they bind, so their states have other fields than their initial state.
+  const keepsOwnState = (parser: object): boolean =>
+    Reflect.get(parser, unmatchedNonCliDependencySourceStateMarker) === true;
   const shouldPreserveLocalChildState = (
     parser: Parser<Mode, Record<string | symbol, unknown>, unknown>,
   ): boolean =>
     parser.initialState != null &&
     typeof parser.initialState === "object" &&
-    mergeableFields(parser.initialState).some((field) =>
-      duplicateOutputFieldNames.has(field)
-    );
+    (keepsOwnState(parser) ||
+      mergeableFields(parser.initialState).some((field) =>
+        duplicateOutputFieldNames.has(field)
+      ));
 
   const initialState: Record<string | symbol, unknown> = {};
   for (let i = 0; i < parsers.length; i++) {
@@ -10139,6 +10144,10 @@ export function merge(
       for (const field of mergeableFields(parser.initialState)) {
         initialState[field] = parser.initialState[field];
       }
+      // Let an outer merge() forward the separately kept state.
+      if (keepsOwnState(parser)) {
+        initialState[localObjectStateKey(i)] = undefined;
+      }
     }
   }
   type MergeState = Record<string | symbol, unknown>;
@@ -10168,7 +10177,7 @@ export function merge(
       if (
         shouldPreserveLocalChildState(parser) &&
         state && typeof state === "object" &&
-        localStateKey in state
+        state[localStateKey] !== undefined
       ) {
         return state[localStateKey];
       }
@@ -10458,7 +10467,7 @@ export function merge(
           if (
             shouldPreserveLocalChildState(parser) &&
             resolvedState && typeof resolvedState === "object" &&
-            key in resolvedState
+            resolvedState[key] !== undefined
           ) {
             return resolvedState[key];
           }
@@ -10797,7 +10806,7 @@ export function merge(
           if (
             shouldPreserveLocalChildState(parser) &&
             resolvedState && typeof resolvedState === "object" &&
-            key in resolvedState
+            resolvedState[key] !== undefined
           ) {
             return resolvedState[key];
           }
@@ -11116,7 +11125,7 @@ export function merge(
           if (
             shouldPreserveLocalChildState(p) &&
             context.state && typeof context.state === "object" &&
-            key in context.state
+            context.state[key] !== undefined
           ) {
             return context.state[key];
           }
-- 
2.43.0


From 3ce3bd301602ff04a42f36f546af5fbe422aacdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:54 +0000
Subject: [PATCH 21/24] fix: let bindEnv() pass annotations to a source binding
 behind map()

---
 packages/env/src/index.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/env/src/index.ts b/packages/env/src/index.ts
index db0d764..ca721ee 100644
--- a/packages/env/src/index.ts
+++ b/packages/env/src/index.ts
@@ -1132,10 +1132,13 @@ function getEnvOrDefault<M extends Mode, TValue>(
   const envContextAbsent = annotations != null &&
     !(options.context.id in annotations);
   if (innerParser != null) {
+    // A source binding behind map() keeps only its completesFromSource trait.
+    const traits = getTraits(innerParser);
     const completeState = innerState ??
       (annotations != null &&
           innerParser.initialState == null &&
-          getTraits(innerParser).inheritsAnnotations === true
+          (traits.inheritsAnnotations === true ||
+            traits.completesFromSource === true)
         ? injectAnnotations(innerParser.initialState, annotations)
         : innerParser.initialState);
     const innerResult = innerParser.complete(completeState, exec);
-- 
2.43.0


From dc94aad4fafc3ef039d554158eb2d872bcb1b751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:01 +0000
Subject: [PATCH 22/24] fix: remember everything an or() branch consumed before
 switching branches

The state of or() kept only the input of the branch's last step, so once a
branch had taken two steps another branch that could consume the last step's
input alone replaced it, and the earlier input was dropped without an error:
or(command("a", ...), command("b", ...)) accepted "a b b" as the command b.
---
 packages/core/src/constructs.ts | 192 +++++++++++++++++++++++---------
 1 file changed, 139 insertions(+), 53 deletions(-)

diff --git a/packages/core/src/constructs.ts b/packages/core/src/constructs.ts
index 29d12d3..f886476 100644
--- a/packages/core/src/constructs.ts
+++ b/packages/core/src/constructs.ts
@@ -1258,6 +1258,85 @@ function createExclusiveState(
   ) as ExclusiveState;
 }
 
+/**
+ * Keeps the input that a branch consumed in earlier steps as part of what it
+ * consumed when a further step of the same branch is stored.
+ * @internal
+ */
+function accumulateConsumed(
+  activeState: ExclusiveState,
+  index: number,
+  result: ParserResult<unknown> & { readonly success: true },
+): ParserResult<unknown> {
+  return activeState == null || activeState[0] !== index ||
+      !activeState[1].success || activeState[1].consumed.length < 1
+    ? result
+    : {
+      ...result,
+      consumed: [...activeState[1].consumed, ...result.consumed],
+    };
+}
+
+/**
+ * Runs a branch from its initial state on the input that another branch
+ * consumed in earlier steps.
+ * @returns The last result, or `undefined` if the branch cannot consume exactly
+ *          that input.
+ * @internal
+ */
+function replayConsumedSync(
+  context: ParserContext<unknown>,
+  index: number,
+  parser: Parser<"sync", unknown, unknown>,
+  consumed: readonly string[],
+): (ParserResult<unknown> & { readonly success: true }) | undefined {
+  let childContext: ParserContext<unknown> = {
+    ...withChildContext(context, index, parser.initialState, parser),
+    buffer: consumed,
+  };
+  let replayed = 0;
+  for (;;) {
+    const result = parser.parse(childContext);
+    if (!isReplayStep(result, consumed, replayed)) return undefined;
+    replayed += result.consumed.length;
+    if (replayed >= consumed.length) return result;
+    childContext = result.next;
+  }
+}
+
+/**
+ * The async counterpart of {@link replayConsumedSync}.
+ * @internal
+ */
+async function replayConsumedAsync(
+  context: ParserContext<unknown>,
+  index: number,
+  parser: Parser<Mode, unknown, unknown>,
+  consumed: readonly string[],
+): Promise<(ParserResult<unknown> & { readonly success: true }) | undefined> {
+  let childContext: ParserContext<unknown> = {
+    ...withChildContext(context, index, parser.initialState, parser),
+    buffer: consumed,
+  };
+  let replayed = 0;
+  for (;;) {
+    const result = await parser.parse(childContext);
+    if (!isReplayStep(result, consumed, replayed)) return undefined;
+    replayed += result.consumed.length;
+    if (replayed >= consumed.length) return result;
+    childContext = result.next;
+  }
+}
+
+function isReplayStep(
+  result: ParserResult<unknown>,
+  consumed: readonly string[],
+  replayed: number,
+): result is ParserResult<unknown> & { readonly success: true } {
+  return result.success && result.consumed.length > 0 &&
+    result.consumed.every((token, i) => token === consumed[replayed + i]);
+}
+
 /**
  * Creates a complete() method shared by or() and longestMatch().
  * @internal
@@ -3350,18 +3429,15 @@ export function or(
           // Different branch succeeded. Check if the new branch can also
           // consume the previously consumed input (shared options case).
           const previouslyConsumed = activeState[1].consumed;
-          const checkResult = parser.parse({
-            ...withChildContext(context, i, parser.initialState, parser),
-            buffer: previouslyConsumed,
-          });
           // If the new branch can consume exactly the same input,
           // this is a shared option - allow branch switch.
-          const canConsumeShared = checkResult.success &&
-            checkResult.consumed.length === previouslyConsumed.length &&
-            checkResult.consumed.every((c, idx) =>
-              c === previouslyConsumed[idx]
-            );
-          if (!canConsumeShared) {
+          const checkResult = replayConsumedSync(
+            context,
+            i,
+            parser,
+            previouslyConsumed,
+          );
+          if (checkResult == null) {
             return {
               success: false,
               consumed: context.buffer.length - result.next.buffer.length,
@@ -3434,7 +3510,12 @@ export function or(
             ...context,
             buffer: result.next.buffer,
             optionsTerminated: result.next.optionsTerminated,
-            state: createExclusiveState(context.state, i, parser, result),
+            state: createExclusiveState(
+              context.state,
+              i,
+              parser,
+              accumulateConsumed(activeState, i, result),
+            ),
             ...(mergedExec != null
               ? {
                 exec: mergedExec,
@@ -3488,7 +3569,11 @@ export function or(
             context.state,
             zeroConsumedBranch.index,
             zeroConsumedBranch.parser,
-            zeroConsumedBranch.result,
+            accumulateConsumed(
+              activeState,
+              zeroConsumedBranch.index,
+              zeroConsumedBranch.result,
+            ),
           ),
           ...(mergedExec != null
             ? {
@@ -3525,7 +3610,11 @@ export function or(
               context.state,
               provisionalConsuming.index,
               provisionalConsuming.parser,
-              provisionalConsuming.result,
+              accumulateConsumed(
+                activeState,
+                provisionalConsuming.index,
+                provisionalConsuming.result,
+              ),
             ),
             ...(mergedExec != null
               ? {
@@ -3544,19 +3633,13 @@ export function or(
       // commit to it after replaying.
       if (activeState != null && activeState[1].success) {
         const previouslyConsumed = activeState[1].consumed;
-        const checkResult = provisionalConsuming.parser.parse({
-          ...withChildContext(
-            context,
-            provisionalConsuming.index,
-            provisionalConsuming.parser.initialState,
-            provisionalConsuming.parser,
-          ),
-          buffer: previouslyConsumed,
-        });
-        const canConsumeShared = checkResult.success &&
-          checkResult.consumed.length === previouslyConsumed.length &&
-          checkResult.consumed.every((c, idx) => c === previouslyConsumed[idx]);
-        if (canConsumeShared && checkResult.success) {
+        const checkResult = replayConsumedSync(
+          context,
+          provisionalConsuming.index,
+          provisionalConsuming.parser,
+          previouslyConsumed,
+        );
+        if (checkResult != null) {
           const replayExec = mergeChildExec(
             context.exec,
             checkResult.next.exec,
@@ -3730,19 +3813,15 @@ export function or(
           // Different branch succeeded. Check if the new branch can also
           // consume the previously consumed input (shared options case).
           const previouslyConsumed = activeState[1].consumed;
-          const checkResultOrPromise = parser.parse({
-            ...withChildContext(context, i, parser.initialState, parser),
-            buffer: previouslyConsumed,
-          });
-          const checkResult = await checkResultOrPromise;
           // If the new branch can consume exactly the same input,
           // this is a shared option - allow branch switch.
-          const canConsumeShared = checkResult.success &&
-            checkResult.consumed.length === previouslyConsumed.length &&
-            checkResult.consumed.every((c, idx) =>
-              c === previouslyConsumed[idx]
-            );
-          if (!canConsumeShared) {
+          const checkResult = await replayConsumedAsync(
+            context,
+            i,
+            parser,
+            previouslyConsumed,
+          );
+          if (checkResult == null) {
             return {
               success: false,
               consumed: context.buffer.length - result.next.buffer.length,
@@ -3816,7 +3895,12 @@ export function or(
             ...context,
             buffer: result.next.buffer,
             optionsTerminated: result.next.optionsTerminated,
-            state: createExclusiveState(context.state, i, parser, result),
+            state: createExclusiveState(
+              context.state,
+              i,
+              parser,
+              accumulateConsumed(activeState, i, result),
+            ),
             ...(mergedExec != null
               ? {
                 exec: mergedExec,
@@ -3861,7 +3945,11 @@ export function or(
             context.state,
             zeroConsumedBranch.index,
             zeroConsumedBranch.parser,
-            zeroConsumedBranch.result,
+            accumulateConsumed(
+              activeState,
+              zeroConsumedBranch.index,
+              zeroConsumedBranch.result,
+            ),
           ),
           ...(mergedExec != null
             ? {
@@ -3896,7 +3984,11 @@ export function or(
               context.state,
               provisionalConsuming.index,
               provisionalConsuming.parser,
-              provisionalConsuming.result,
+              accumulateConsumed(
+                activeState,
+                provisionalConsuming.index,
+                provisionalConsuming.result,
+              ),
             ),
             ...(mergedExec != null
               ? {
@@ -3915,19 +4007,13 @@ export function or(
       // narrowing here, so re-test inline.
       if (activeState != null && activeState[1].success) {
         const previouslyConsumed = activeState[1].consumed;
-        const checkResult = await provisionalConsuming.parser.parse({
-          ...withChildContext(
-            context,
-            provisionalConsuming.index,
-            provisionalConsuming.parser.initialState,
-            provisionalConsuming.parser,
-          ),
-          buffer: previouslyConsumed,
-        });
-        const canConsumeShared = checkResult.success &&
-          checkResult.consumed.length === previouslyConsumed.length &&
-          checkResult.consumed.every((c, idx) => c === previouslyConsumed[idx]);
-        if (canConsumeShared && checkResult.success) {
+        const checkResult = await replayConsumedAsync(
+          context,
+          provisionalConsuming.index,
+          provisionalConsuming.parser,
+          previouslyConsumed,
+        );
+        if (checkResult != null) {
           const replayExec = mergeChildExec(
             context.exec,
             checkResult.next.exec,
-- 
2.43.0


From 94b705c9eb8609847217f74a38229703f933daa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:26 +0000
Subject: [PATCH 23/24] fix: keep longestMatch() from dropping input another
 branch consumed

A later step of longestMatch() let any branch that could parse the remaining
input replace the branch that had consumed the earlier input, which was then
lost without an error: longestMatch(command("a", ...), command("b", ...))
accepted "a b" as the command b.  Another branch now takes over only if it
can consume the earlier input as well, as in or().
---
 packages/core/src/constructs.ts | 134 +++++++++++++++++++++++++++++---
 1 file changed, 124 insertions(+), 10 deletions(-)

diff --git a/packages/core/src/constructs.ts b/packages/core/src/constructs.ts
index f886476..ba7fa1e 100644
--- a/packages/core/src/constructs.ts
+++ b/packages/core/src/constructs.ts
@@ -4530,14 +4530,19 @@ function createLongestMatch(
       parser: Parser<"sync", unknown, unknown>;
       result: ParserResult<unknown>;
       consumed: number;
+      exec: ExecutionContext | undefined;
     } | null = null;
     let error = getInitialError(context);
     const activeState = normalizeExclusiveState(context.state);
+    const previouslyConsumed = activeState?.[1].success
+      ? activeState[1].consumed
+      : [];
+    let conflict: { consumed: number; error: Message } | null = null;
 
     // Try all parsers and find the one with longest match
     for (let i = 0; i < syncParsers.length; i++) {
       const parser = syncParsers[i];
-      const result = parser.parse(
+      let result = parser.parse(
         withChildContext(
           context,
           i,
@@ -4549,6 +4554,49 @@ function createLongestMatch(
         ),
       );
 
+      let replayedExec: ExecutionContext | undefined;
+      if (
+        result.success && previouslyConsumed.length > 0 &&
+        activeState?.[0] !== i
+      ) {
+        // Another branch has consumed input already.  This one can only take
+        // over if it consumes that input as well (shared options case).
+        if (result.consumed.length < 1) continue;
+        const checkResult = replayConsumedSync(
+          context,
+          i,
+          parser,
+          previouslyConsumed,
+        );
+        if (checkResult == null) {
+          conflict ??= {
+            consumed: context.buffer.length - result.next.buffer.length,
+            error: message`${values(previouslyConsumed)} and ${
+              values(result.consumed)
+            } cannot be used together.`,
+          };
+          continue;
+        }
+        replayedExec = mergeChildExec(context.exec, checkResult.next.exec);
+        result = parser.parse(
+          withChildContext(
+            {
+              ...context,
+              ...(replayedExec != null
+                ? {
+                  exec: replayedExec,
+                  dependencyRegistry: replayedExec.dependencyRegistry,
+                }
+                : {}),
+            },
+            i,
+            checkResult.next.state,
+            parser,
+          ),
+        );
+        if (result.success && result.consumed.length < 1) continue;
+      }
+
       if (result.success) {
         const consumed = context.buffer.length - result.next.buffer.length;
         // Prefer non-provisional results over provisional ones at the
@@ -4561,7 +4609,13 @@ function createLongestMatch(
           (consumed === bestMatch.consumed &&
             bestIsProvisional && !result.provisional)
         ) {
-          bestMatch = { index: i, parser, result, consumed };
+          bestMatch = {
+            index: i,
+            parser,
+            result,
+            consumed,
+            exec: replayedExec ?? context.exec,
+          };
         }
       } else if (error.consumed < result.consumed) {
         error = result;
@@ -4570,7 +4624,7 @@ function createLongestMatch(
 
     if (bestMatch && bestMatch.result.success) {
       const mergedExec = mergeChildExec(
-        context.exec,
+        bestMatch.exec,
         bestMatch.result.next.exec,
       );
       return {
@@ -4583,7 +4637,10 @@ function createLongestMatch(
             context.state,
             bestMatch.index,
             bestMatch.parser,
-            bestMatch.result,
+            {
+              ...bestMatch.result,
+              consumed: [...previouslyConsumed, ...bestMatch.result.consumed],
+            },
           ),
           ...(mergedExec != null
             ? {
@@ -4596,7 +4653,7 @@ function createLongestMatch(
       };
     }
 
-    return { ...error, success: false };
+    return { ...(conflict ?? error), success: false };
   };
 
   // Async parse implementation
@@ -4608,9 +4665,14 @@ function createLongestMatch(
       parser: Parser<Mode, unknown, unknown>;
       result: ParserResult<unknown>;
       consumed: number;
+      exec: ExecutionContext | undefined;
     } | null = null;
     let error = getInitialError(context);
     const activeState = normalizeExclusiveState(context.state);
+    const previouslyConsumed = activeState?.[1].success
+      ? activeState[1].consumed
+      : [];
+    let conflict: { consumed: number; error: Message } | null = null;
 
     // Try all parsers and find the one with longest match
     for (let i = 0; i < parsers.length; i++) {
@@ -4626,7 +4688,50 @@ function createLongestMatch(
           parser,
         ),
       );
-      const result = await resultOrPromise;
+      let result = await resultOrPromise;
+
+      let replayedExec: ExecutionContext | undefined;
+      if (
+        result.success && previouslyConsumed.length > 0 &&
+        activeState?.[0] !== i
+      ) {
+        // Another branch has consumed input already.  This one can only take
+        // over if it consumes that input as well (shared options case).
+        if (result.consumed.length < 1) continue;
+        const checkResult = await replayConsumedAsync(
+          context,
+          i,
+          parser,
+          previouslyConsumed,
+        );
+        if (checkResult == null) {
+          conflict ??= {
+            consumed: context.buffer.length - result.next.buffer.length,
+            error: message`${values(previouslyConsumed)} and ${
+              values(result.consumed)
+            } cannot be used together.`,
+          };
+          continue;
+        }
+        replayedExec = mergeChildExec(context.exec, checkResult.next.exec);
+        result = await parser.parse(
+          withChildContext(
+            {
+              ...context,
+              ...(replayedExec != null
+                ? {
+                  exec: replayedExec,
+                  dependencyRegistry: replayedExec.dependencyRegistry,
+                }
+                : {}),
+            },
+            i,
+            checkResult.next.state,
+            parser,
+          ),
+        );
+        if (result.success && result.consumed.length < 1) continue;
+      }
 
       if (result.success) {
         const consumed = context.buffer.length - result.next.buffer.length;
@@ -4640,7 +4745,13 @@ function createLongestMatch(
           (consumed === bestMatch.consumed &&
             bestIsProvisional && !result.provisional)
         ) {
-          bestMatch = { index: i, parser, result, consumed };
+          bestMatch = {
+            index: i,
+            parser,
+            result,
+            consumed,
+            exec: replayedExec ?? context.exec,
+          };
         }
       } else if (error.consumed < result.consumed) {
         error = result;
@@ -4649,7 +4760,7 @@ function createLongestMatch(
 
     if (bestMatch && bestMatch.result.success) {
       const mergedExec = mergeChildExec(
-        context.exec,
+        bestMatch.exec,
         bestMatch.result.next.exec,
       );
       return {
@@ -4662,7 +4773,10 @@ function createLongestMatch(
             context.state,
             bestMatch.index,
             bestMatch.parser,
-            bestMatch.result,
+            {
+              ...bestMatch.result,
+              consumed: [...previouslyConsumed, ...bestMatch.result.consumed],
+            },
           ),
           ...(mergedExec != null
             ? {
@@ -4675,7 +4789,7 @@ function createLongestMatch(
       };
     }
 
-    return { ...error, success: false };
+    return { ...(conflict ?? error), success: false };
   };
 
   const multiResult = {
-- 
2.43.0


From 1826282a6c679c2e54528b78373f5d14aaafeedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:37:29 +0000
Subject: [PATCH 24/24] fix: derive generated command paths from the command
 directory even if the output lies inside it

With the output file in a subdirectory of the command directory the default
base is "..", and module keys such as "./deep/x.ts" were resolved against
it through the process's working directory.
---
 packages/discover/src/generator.ts | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/packages/discover/src/generator.ts b/packages/discover/src/generator.ts
index 8a02e35..d2097b1 100644
--- a/packages/discover/src/generator.ts
+++ b/packages/discover/src/generator.ts
@@ -125,7 +125,6 @@ interface NormalizedGenerateOptions {
   readonly outputFile: string;
   readonly outputDir: string;
   readonly base: string;
-  readonly baseWasProvided: boolean;
   readonly extensions: readonly string[];
   readonly entryFileName: string | false | undefined;
 }
@@ -240,16 +239,10 @@ async function collectGeneratedCommandFiles(
       options.outputDir,
       filePath,
     );
-    const defaultModulePath = relativeModuleSpecifier(
-      options.outputDir,
-      filePath,
+    const modulePath = joinModulePath(
+      options.base,
+      normalizeRelativePath(relative(options.dir, filePath)),
     );
-    const modulePath = options.baseWasProvided
-      ? joinModulePath(
-        options.base,
-        normalizeRelativePath(relative(options.dir, filePath)),
-      )
-      : defaultModulePath;
     return {
       filePath,
       importSpecifier,
@@ -319,7 +312,6 @@ function normalizeGenerateOptions(
   const dir = resolve(pathFromFile(options.dir));
   const outputFile = resolve(pathFromFile(options.outputFile));
   const outputDir = dirname(outputFile);
-  const baseWasProvided = options.base !== undefined;
   const base = normalizeBase(
     options.base ?? relativeModuleSpecifier(outputDir, dir),
   );
@@ -328,7 +320,6 @@ function normalizeGenerateOptions(
     outputFile,
     outputDir,
     base,
-    baseWasProvided,
     extensions: normalizeExtensions(
       options.extensions ?? getDefaultExtensions(),
     ),
-- 
2.43.0

