PROPS = []
def P(**k): PROPS.append(k)

P(id="P01", title="Labels survive parsing, printing, shortening and comparison",
  statement="For every label whose repository has no slash or leading at-sign, whose package has no colon or leading slash and whose target is not empty, parsing its printed form (short or long spelling, absolute or relative to its own package) gives back exactly that repository, package and target. Shortening a label relative to a package yields the canonical shortest spelling of the same label and leaves text that is not an absolute label untouched. Two labels compare equal exactly when they denote the same target, whichever spelling each one uses.",
  over=["inputs"], quant="every label (repository, package, target strings of any length) and every package it is printed relative to",
  why="The tests sample a dozen literal labels; the guarantee ranges over all strings, where separators can occur in any component and the short spelling is chosen by comparing the target with the last path component.",
  files=["labels/labels.go"],
  mech=[("printing", "labels.Label.Format, FormatRelative"), ("parsing", "labels.Parse, ParseRelative"), ("canonical form", "labels.Shorten, Equal")],
  note="Every clause of the statement is a postcondition of Format, FormatRelative, Parse, ParseRelative, Shorten or Equal, proved for all strings; path.Base is an uninterpreted function. The replay driver repeats the contracts on the real code over all short strings (bounded, not counted as proof).")

P(id="P02", title="A file's kind follows from its name",
  statement="Without an explicit type, a file is parsed as the kind its base name has, ignoring case and one trailing .oss: module for module.bazel and names ending in .module.bazel, extension file for .bzl, and BUILD or WORKSPACE when that word is the whole name, its first dot-separated part or its extension, in this order of precedence; .sky files and every other name are generic files. A parser chosen explicitly marks the file with its own kind whatever the name. Expanding a directory lists exactly the files below it (outside .git directories) named BUILD or WORKSPACE, ending in .bzl, .sky or .star, or ending in .bazel or .oss and starting with BUILD., WORKSPACE. or MODULE., while files named explicitly are always kept.",
  over=["inputs"], quant="every file name (any string) and every choice of type",
  why="The tests list some twenty names; the rule is about every name, where prefixes, suffixes and extensions overlap.",
  files=["build/lex.go", "buildifier/utils/utils.go"],
  mech=[("kind of a name", "build.getFileType, build.Parse"), ("explicit kinds", "build.ParseBuild, ParseWorkspace, ParseModule, ParseBzl, ParseDefault, utils.GetParser"), ("directory expansion", "utils.isStarlarkFile, ExpandDirectories")],
  note="The classification of names and the marking by each parser are postconditions proved for all strings (case folding and the last path element are uninterpreted functions, the file extension a proved-about model). Directory walking and the choice of the parser function are replayed on the real code only (bounded).")

P(id="P03", title="A rule's attributes behave as an ordered map",
  statement="Reading an attribute of a rule call gives the value of its first keyword argument with that key, or nothing when there is none, and typed reads (string, literal, list of strings) give that value only when it has exactly that shape. Setting an attribute replaces that one value in place or, when the key is absent, appends exactly one argument; deleting removes exactly that one argument; renaming changes exactly that one key and refuses, changing nothing, when the old key is absent or the new key is present. All other arguments, positional ones included, keep their identity and order.",
  over=["inputs", "histories"], quant="every argument list (any length, repeated keys, positional arguments), every key and value",
  why="The tests cover a handful of rules without repeated keys or positional arguments; the guarantee is about every argument list and about what is left untouched.",
  files=["build/rule.go", "edit/edit.go"],
  mech=[("reading", "build.Rule.AttrDefn, Attr, AttrString, AttrLiteral, AttrStrings, AttrKeys"), ("editing", "build.Rule.SetAttr, DelAttr, edit.RenameAttribute")],
  note="Postconditions and frame conditions of each function, proved for all argument lists; the driver replays them against an association-list model.")

P(id="P04", title="Statement edits touch exactly the statements they name",
  statement="Removing rules from a file by identity, by name, by kind, or because they are an empty package or repository-usage call leaves exactly the other top-level statements, unchanged and in their order, and the file keeps its path, package, label, workspace root, type and comments. Inserting a statement shifts later statements by one and changes nothing else: after the given index, after the last call of the same kind, at the end before trailing comments, or, for a new package declaration, behind the leading comments, loads, strings and workspace calls. Looking a rule up by name finds the first call with that explicit or implicit name, the implicit name being decided on the whole file as it was before the edit.",
  over=["inputs", "histories"], quant="every file (any number and order of statements of any shape), every name, kind and index",
  why="The tests use a few short files; that nothing else moves, disappears or is renamed has to hold for every list of statements, including repeated, unnamed and dotted calls.",
  files=["edit/edit.go", "build/rule.go"],
  mech=[("removal", "edit.DeleteRule, DeleteRuleByName, DeleteRuleByKind, RemoveEmptyPackage, RemoveEmptyUseRepoCalls, build.File.DelRules"), ("insertion", "edit.InsertAfter, InsertAtEnd, InsertAfterLastOfSameKind, PackageDeclaration"), ("lookup", "edit.IndexOfRuleByName, FindRuleByName, ExistingPackageDeclaration, build.File.Rule")],
  note="Each function's postcondition describes the whole resulting list (a counting function gives the position of every kept statement) and a frame condition says that nothing else changed. The rule-name and kind readers are used as deterministic observers (assumption); the driver compares the real functions with a list model including names.")

P(id="P05", title="List edits change exactly the matching elements",
  statement="Adding a value to a list-valued expression (lists, selects and other terms joined by +) changes nothing when a literal list already holds an equal label, and otherwise removes it from the selects and puts it once into the first list, at its sorted place or at the end, or joins one new list when there is none. Deleting or replacing a value affects exactly the strings denoting that label in the literal lists and the lists inside selects, leaving every other element and its order alone. Extracting what the branches of a select have in common keeps the value of the expression in every configuration, together with the comments of the lists that are merged.",
  over=["inputs", "histories"], quant="every expression (any number of terms, branches and elements, nested in any way), every value and package",
  why="The tests show single edits of short expressions; that nothing else is lost, duplicated or reordered must hold for every expression and every spelling of a label.",
  files=["edit/edit.go", "edit/fix.go"],
  mech=[("search", "edit.ListFind, AllLists, FirstList, AllSelects"), ("edits", "edit.AddValueToList, ListDelete, RemoveFromList, SelectDelete, ListReplace, sortedInsert"), ("extraction", "edit.ComputeIntersection, SelectListsIntersection, ResolveAttr, RemoveEmptySelectsAndConcatLists")],
  note="Search, deletion, insertion and replacement are postconditions with frame conditions, proved for all expressions; ComputeIntersection is proved to keep only elements present in both lists. Resolving an attribute as a whole (ResolveAttr) is replayed on the real code only (bounded). build.Unquote is trusted to be a function of its argument.")

P(id="P06", title="Dictionary edits touch only the named key",
  statement="Reading a key of a dictionary literal gives the value of its first entry whose key is that string, setting it replaces that value in place or appends one entry, and deleting it removes exactly the entries with that string key, leaving every other entry, those with other kinds of keys included, as it was and in order. The commands follow: dict_add never changes an existing value, dict_set always does, dict_replace_if_equal changes it only when it equals the given value and fails for a missing key, and dict_remove drops the attribute exactly when the dictionary becomes empty. No other attribute of the rule changes.",
  over=["inputs", "histories"], quant="every dictionary (any entries, repeated keys, keys that are no strings), every key and value",
  why="The tests use dictionaries of two or three distinct string keys; that nothing else is dropped must hold for every dictionary.",
  files=["edit/edit.go", "edit/buildozer.go"],
  mech=[("entries", "edit.DictionaryGet, DictionarySet, DictionaryDelete"), ("commands", "cmdDictAdd, cmdDictSet, cmdDictRemove, cmdDictReplaceIfEqual, cmdDictListAdd, cmdSetSelect")],
  note="The three dictionary functions are postconditions with frame conditions, proved for all dictionaries; the commands built on them are replayed on the real code only (bounded). build.Unquote is trusted to be a function of its argument.")

P(id="P07", title="Load edits load each requested symbol once and keep the rest",
  statement="Requesting symbols from a file adds, in the given order and under the given aliases, exactly those that no load of that file provides yet to the last such load, or creates one load behind the leading comments, docstring and workspace call when there is none; no other load and no other statement changes. Replacing removes exactly the requested symbols from every load, drops the loads left empty, and then requests them from the given file. The same command gives the same result on every file it is applied to.",
  over=["inputs", "histories"], quant="every list of statements and loads, every list of requested symbols and aliases",
  why="The tests replace one or two symbols in one file; adjacent symbols, aliases, several loads of one file and repeated application are only settled by an argument over all of them.",
  files=["edit/edit.go", "edit/buildozer.go"],
  mech=[("one load", "edit.NewLoad, AppendToLoad"), ("a file", "edit.InsertLoad, appendLoad, ReplaceLoad"), ("commands", "cmdNewLoad, cmdReplaceLoad, splitLoadArgs")],
  note="NewLoad, AppendToLoad, appendLoad and InsertLoad are postconditions with frame conditions, proved for all statement lists (that every symbol ends up loaded additionally assumes that no two loads share storage). ReplaceLoad and the commands are replayed on the real code only (bounded).")

P(id="P08", title="Module extension edits change exactly the named repositories",
  statement="The variables holding an extension are exactly those assigned from it in the module file with the asked development flag and not isolated, whatever spelling the file or the user gives the extension's label, and the repository imports of an extension are exactly the imports through those variables. Adding repositories appends, once each, those that no such import provides yet to the last one, or to a new one placed right behind the last use of the extension; removing drops exactly the named ones, found by their exported name, from every such import. No other statement or argument changes, and module names resolve to the apparent names declared in the module file and the files it includes.",
  over=["inputs", "histories"], quant="every module file (any statements, proxies, flags, label spellings, keyword imports, includes), every extension and repository list",
  why="The tests use a handful of fixed module files; which spellings denote the same extension and that nothing else changes must hold for every file.",
  files=["edit/bzlmod/bzlmod.go", "edit/buildozer.go"],
  mech=[("lookup", "bzlmod.Proxies, AllProxies, UseRepos, parseUseExtension, parseTag, normalizeLabelString"), ("edits", "bzlmod.NewUseRepo, AddRepoUsages, RemoveRepoUsages, getLastUseRepo"), ("commands", "cmdUseRepoAdd, cmdUseRepoRemove, isExtensionLabel"), ("names", "bzlmod.ExtractModuleToApparentNameMapping")],
  note="Lookup and new imports are exact postconditions, proved for all files; adding is proved exact for the extended import, removing for single imports (several imports sharing storage are not excluded by the types, so there only the untouched rest is proved). The module's own name is read through an assumed observer; the commands and the include traversal are replayed on the real code only (bounded).")

P(id="P09", title="Formatting sorts without changing what a file says",
  statement="Formatting sorts string lists only where the tables or a comment ask for it: within each run of strings not interrupted by a comment or another term it orders them by kind of label and then by their parts, drops exactly the repetitions, and leaves every other element and each leading comment in its place; where a list must not be reordered only repetitions go, their comments staying in the list. Arguments are grouped into positional, keyword, *args and **kwargs ones, and in build files the keyword arguments that end a call are put into the order of priority, name and place, all others keeping their order. Load statements are moved in front of the other statements, merged per file and sorted within each unbroken run, without changing which symbol a name refers to, the order of anything else, or losing a comment of a load statement.",
  over=["inputs"], quant="every list, call and file (any elements, comments, priorities, labels, load statements)",
  why="The golden files show a few lists; that sorting is a total order, never loses an element and leaves everything else in place must hold for every file.",
  files=["build/rewrite.go"],
  mech=[("string lists", "build.SortStringList, sortStringExprs, uniq, deduplicateStringExprs, makeSortKey, byStringExpr, sortStringLists"), ("arguments", "sortCallArgs, namedArgs, ruleNamePriority, reorderArguments, argumentType"), ("loads", "moveLoadOnTop, compressSameOriginLoads, sortLoadStatements, compareLoadLabels, comparePaths, SortLoadArgs"), ("repositories", "sortUseRepoPositionals")],
  note="Lists, keyword arguments and use_repo calls are postconditions (ordered, nothing new, nothing lost) proved for all inputs, with the comparison proved to be a strict weak order; the sort package is modelled as returning an ordered permutation. Which lists of a file are reached, and the rewrites of load statements not named in the evidence, are replayed on the real code only (bounded).")
P(id="P10", title="Respelling a literal keeps what it denotes",
  statement="Every byte string the tool writes as a literal, in either quoting style, reads back as exactly that string, and reading a literal yields what its characters and escape sequences denote or an error when one of them is invalid. Formatting may change quotes, join the parts of a label, shorten labels of label attributes and respell octal numbers and floats, but every string keeps its value (documentation strings, which are re-indented, aside), every number its value and every label its target.",
  over=["inputs"], quant="every byte string and quoting style, every literal, every number, every label under every setting of the label rewrites",
  why="The tests read and write a few dozen literals; that no byte, escape sequence or combination of quotes is lost needs an argument over all strings.",
  files=["build/quote.go", "build/rewrite.go", "build/print.go"],
  mech=[("strings", "build.quote, Unquote, IsCorrectEscaping, the string literals in print.go"), ("numbers", "editOctals, editFloats"), ("labels", "fixLabels")],
  note="Writing and reading strings are exact postconditions whose composition is proved to be the identity for all byte strings; the rewrites of numbers and the joining of label parts are exact postconditions. Shortening labels (a regular expression assembled at run time) and the printer's choice to keep a spelling are replayed on the real code only (bounded). strconv.ParseInt and the encoding of characters as bytes are assumed.")
P(id="P11", title="Warnings are reported, silenced and fixed exactly as asked",
  statement="For the categories in force, each listed once, a file's report holds exactly the findings of their checks that no comment disables, in the order of the lines and the same on every run; a comment disables exactly the category it names, on the lines of the node it belongs to. Reporting and suggesting leave the file as it was, and a suggested replacement turns its formatted text into the formatted text of the fixed file; fixing applies exactly the fixes of the findings that are not disabled and reports the rest. The categories in force are the default ones, or exactly the listed ones, or the defaults with the signed changes applied, and modes, formats and file kinds are accepted only in their documented combinations.",
  over=["inputs", "histories"], quant="every file, every disabling comment, every list of categories, every pair of texts, every combination of flags",
  why="The tests check each category on a few files; that a comment never silences another category and that a replacement gives exactly the fixed text must hold for every comment and pair of texts.",
  files=["warn/warn.go", "buildifier/config/validation.go", "buildifier/config/config.go"],
  mech=[("silencing", "warn.DisabledWarning, HasDisablingComment, disablesWarning"), ("suggestions", "warn.calculateDifference, formatWithFix"), ("reports", "warn.FileWarnings, runWarningsFunction"), ("flags", "config.ValidateWarnings, ValidateModes, ValidateFormat, ValidateInputType, isRecognizedMode")],
  note="Silencing (the decision for a node, and for a file given the nodes of its tree), the replacement computed from two texts, and the flags are exact postconditions, proved for all inputs. Running the checks, applying fixes and the order of the report are replayed on the real code only (bounded); that the traversal visits every node and the extent of a node are assumed in the proof and covered by the replay. The individual checks are the oracle, not the subject.")
P(id="P12", title="Buildifier changes, prints and reports exactly what its mode says",
  statement="A run rewrites a file only in fix mode, only when the file is valid and its formatted text differs, and then with exactly that text; the other modes change no file, and what comes from the standard input is never written to one. Formatted text is printed only for the standard input or in print_if_changed mode, differences are shown exactly for the files that differ in diff mode, an invalid file is neither written nor printed, and no temporary file it wrote remains. Without a report the exit code is 0 exactly if every file was read, is valid, has no warnings left, could be written or printed where it had to be and is formatted (check mode) or equal according to the diff command (diff mode), otherwise it is the documented code of one of the files; the report has one entry for every file that was read, in order, and is successful exactly if all of them are formatted and without warnings.",
  over=["inputs", "faults"], quant="every list of files and their contents, every mode, lint mode and format, every outcome of reading, writing and comparing",
  why="The integration tests run a few fixed command lines; that no mode ever touches a file it should not, or reports success for a file it should not, must hold for every outcome of every step.",
  files=["buildifier/buildifier.go", "buildifier/utils/diagnostics.go", "buildifier/utils/tempfile.go", "buildifier/utils/utils.go"],
  mech=[("one file", "buildifier.processFile"), ("all files", "buildifier.run, processFiles, utils.ExpandDirectories"), ("reports", "utils.NewDiagnostics, NewFileDiagnostics, InvalidFileDiagnostics, Diagnostics.Format"), ("temporary files", "utils.TempFile.Clean")],
  note="What is written, printed, shown and returned are exact postconditions over recorded calls of the operating system, proved for every outcome of those calls; the readers of the files are separate goroutines that share nothing, and what they send is taken as any value. Parsing, linting and formatting are other properties' subject; that they leave the tool's own settings alone, the layout of the report, the expansion of directories and the diff command are replayed on the real code only (bounded).")
P(id="P13", title="Formatting keeps the tree and every comment, and is stable",
  statement="Printing a parsed file and parsing it again yields the same tree up to redundant parentheses, with the same comments in the same places, and printing that again yields the same text; no word, bracket or operator of the source is lost, added or moved. Formatting with its rewrites keeps every comment too, except behind a string that repeats another one of its list, and formatting its own output changes nothing.",
  over=["inputs"], quant="every file of any kind, every place of a comment at a statement, an argument or an element, or at the end of a bracketed list",
  why="The golden files show each construct a few times and mostly without comments; that no comment or bracket is lost and that formatting comes to rest must hold for every nesting of constructs and comments.",
  files=["build/print.go", "build/lex.go", "build/rewrite.go"],
  mech=[("printing", "build.Format, FormatWithoutRewriting, the printer"), ("places of comments", "build.Parse, reverseComments, functionsWithoutParams"), ("merging", "withCommentsOf"), ("lines", "useCompactMode, compactStmt, isDifferentLines"), ("commas", "needsTrailingComma")],
  note="Mostly bounded: the printer and the parser are out of the verifier's reach as a whole, so the round trip is replayed on generated files of all kinds. Proved for all inputs are only the order of the comments behind an expression, the comments of symbols loaded twice, which functions take a comment behind their header, that nothing with comments is put on one line, and where a closing comma may stand. Comments inside index, slice and parameter brackets and lambdas are not generated; two such places are known findings.")

P(id="P14", title="Walking a tree reaches every part once, and edits land in place",
  statement="A traversal gives every expression, clause, entry, argument and statement of a file to the caller exactly once, each with exactly the chain of nodes around it, outer ones first and siblings in the order of the source; type annotations are no part of it. Asking it to stop at a node leaves out what is inside that node and nothing else. A node the caller returns in place of another stands exactly where the other one stood, in every position of every construct, and the rest of the tree is untouched.",
  over=["inputs"], quant="every tree, every kind of node and every choice of nodes to stop at or to replace",
  why="Tests walk a handful of small trees; a construct whose part is skipped, visited twice or not written back shows only where a warning or an edit happens to concern that part.",
  files=["build/walk.go"],
  mech=[("children", "build.WalkOnce"), ("traversals", "Walk, WalkPointers, WalkInterruptable, WalkStatements"), ("replacing", "Edit, EditChildren")],
  note="Proved: for every kind of node, which children are handed to the caller, how often and in which order, and that whatever the caller leaves in place of each of them is the child afterwards, in every position. Assumed there: a caller changes nothing else meanwhile, and replaces entries and the parts of load statements by nodes of their kind. The recursion with its stack of ancestors and stopping are replayed on generated files (bounded). A lone star has no operand; its absent operand may be reported as no node.")

P(id="P15", title="A name refers to the innermost definition around it",
  statement="While a file is walked with an environment, looking up a name gives the definition from the innermost function, comprehension or file around the current node that defines it: a parameter, an assigned or loop variable (also in parentheses, tuples and lists, and inside if and for statements), a nested function, a loaded symbol, a global, with the right kind and the last definition in that scope; and nothing where no scope around defines it. The nodes and the function around the current node are the true ones, distinct definitions have distinct numbers, and every scope is closed where it ends.",
  over=["inputs"], quant="every file, every nesting of functions, comprehensions and statements, and every name",
  why="Tests look up a few names in one file; a scope that is left open or closed too early, or an inner definition that is missed, shows only in particular nestings.",
  files=["bzlenv/bzlenv.go", "build/utils.go"],
  mech=[("looking up", "Environment.Get"), ("scopes", "enterBlock, exitBlock, currentBlock, NewEnvironment"), ("definitions", "declare, declareParams, GetParamName, GetParamIdent")],
  note="Proved: looking a name up gives the innermost open scope that has it; opening, closing and declaring change the innermost scope only; every parameter (plain, typed, with a default, starred) is declared. The walk itself, and which statements declare what, are replayed on generated files (bounded). Parameters of lambdas are no definitions there, and statements that a file cannot have outside functions are left open.")

