#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a program so that the file stays schema-valid)."""
import json, os
P = "gyp/pylib/gyp/"
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = state
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    return {"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a}
L = []
A = L.append
A(prop("G01", "Build order: every target once, after its dependencies, or an error",
 "Given any set of targets and dependency lists, the order handed to the generators contains every target exactly once and each target after all targets it depends on. A dependency that names a target that was not loaded, or a cycle among targets, is reported as an error and never silently dropped, and an acyclic graph is never rejected.",
 ["inputs"], "every finite directed graph of targets, every order of target and dependency lists",
 "input_test samples seven hand-made graphs through FindCycles only; nothing runs the flattening over arbitrary graphs.",
 [P+"input.py", P+"common.py"],
 [("DependencyGraphNode.FlattenToList", P+"input.py"), ("DependencyGraphNode.FindCycles", P+"input.py"), ("BuildDependencyList", P+"input.py"), ("TopologicallySorted", P+"common.py")]))
A(prop("G02", "Qualified target names are unambiguous and resolve to one target",
 "Composing a build file, target name and toolset into a qualified name and parsing it back yields the same three parts whenever the name contains no ':' and the toolset no '#' or ':', even if the build file contains colons. Resolving a dependency reference written in a build file yields the build file normalised relative to the directory of the referring file, the referenced name, and the reference's own toolset if it gives one and the default toolset otherwise; two targets with the same qualified name are rejected.",
 ["inputs"], "all build file paths, names and toolsets",
 "No test exercises the qualified-name functions at all.",
 [P+"common.py", P+"input.py"],
 [("ParseQualifiedTarget / QualifiedTarget / BuildFile / ResolveTarget", P+"common.py"), ("BuildTargetsDict", P+"input.py")]))
A(prop("G03", "Merging settings follows the documented list and dictionary policies",
 "Merging one settings dictionary into another overwrites scalars, merges dictionaries recursively and treats a list key by its suffix: '=' replaces, '?' sets only if absent, '+' prepends, none appends. Appending keeps existing order and adds a string that does not start with '-' only if an equal one is not already there, prepending puts the new items first in their order and removes earlier equal ones; values of incompatible kinds and contradictory policies are rejected as errors. The dictionary merged from is left unchanged and shares no mutable container with the result.",
 ["inputs"], "all pairs of nested dictionaries of strings, integers, lists and dictionaries",
 "No test calls the merge code; the cases multiply over suffix policy, singleton status, nesting and paths.",
 [P+"input.py"], [("MergeDicts", P+"input.py"), ("MergeLists", P+"input.py")]))
A(prop("G04", "Relative path rewriting keeps pointing at the same file",
 "A path rewritten to be relative to another directory resolves, from that directory, to the same file it named before, for every combination of relative, absolute and '..'-containing inputs, and absolute paths given for optional rewriting come back unchanged. When settings are merged from a build file in another directory only path-valued items are rewritten, items that start with '/', '$', '-' or a variable marker are kept verbatim, and a trailing slash is preserved.",
 ["inputs"], "all path strings and directory pairs",
 "No test covers the path functions.",
 [P+"common.py", P+"input.py"],
 [("RelativePath / InvertRelativePath / FixIfRelativePath / UnrelativePath", P+"common.py"), ("MakePathRelative / IsPathSection", P+"input.py")]))
A(prop("G05", "List exclusion and pattern filters keep and exclude exactly what they say",
 "After filters are applied every item of the original list is either kept or listed as excluded, each in original order and never both or neither. An item named in the exclusion list, or whose last matching pattern says exclude, is excluded unless a later matching pattern includes it again; filter keys disappear from the result, filters without a base list and malformed filters are handled as documented, and unrelated keys are untouched.",
 ["inputs"], "all lists, exclusion lists and pattern lists, at any nesting",
 "No test covers list filters.",
 [P+"input.py"], [("ProcessListFiltersInDict / ProcessListFiltersInList", P+"input.py")]))
A(prop("G06", "Shell quoting for make and ninja survives a POSIX shell",
 "Any argument string quoted by the shared encoder, the make generator or the ninja generator for a POSIX shell is read back by the shell as exactly one word equal to the original string, apart from dollar expansion where that encoder documents that it leaves '$' for the shell. Encoding a list yields exactly as many words as the list has items, in order.",
 ["inputs"], "all strings of characters without NUL, all lists of them",
 "Tests cover no quoting; the failure needs particular characters at particular positions.",
 [P+"common.py", P+"generator/make.py", P+"generator/ninja.py"],
 [("EncodePOSIXShellArgument / EncodePOSIXShellList", P+"common.py"), ("EscapeShellArgument / EscapeCppDefine", P+"generator/make.py"), ("QuoteShellArgument / Define", P+"generator/ninja.py")]))
A(prop("G07", "Ninja files read back as the values that were written",
 "A string escaped for a ninja variable, and a path (in which a dollar sign only introduces a reference or stands before a space) escaped for a ninja build statement, is evaluated by ninja's own lexer back to the original string. Line wrapping inserted by the writer never changes what ninja reads: joining the continued lines gives back the statement that was asked for.",
 ["inputs"], "all strings without newline, all widths and lists of inputs, outputs and variables",
 "ninja_test checks a few file name suffixes; no test reads the ninja syntax back.",
 [P+"ninja_syntax.py"], [("escape / escape_path / Writer._line / Writer.build / Writer.variable", P+"ninja_syntax.py")]))
A(prop("G08", "Windows command line quoting survives argument parsing",
 "An argument quoted for a Windows command line, response file or project file is parsed by the standard Windows argument rules back to exactly one argument equal to the original, for every mixture of spaces, quotes and backslashes including trailing backslashes. MSBuild special characters and the Windows environment-variable marker are escaped so that the tool reads back the literal text.",
 ["inputs"], "all strings over printable characters, quotes, backslashes, spaces and percent signs",
 "msvs_test only checks library lists; quoting failures need backslash runs next to quotes.",
 [P+"msvs_emulation.py", P+"generator/msvs.py", P+"generator/ninja.py"],
 [("QuoteForRspFile / EncodeRspFileList", P+"msvs_emulation.py"), ("_EscapeCommandLineArgumentForMSVS / ...ForMSBuild / _EscapeMSBuildSpecialCharacters / _EscapeEnvironmentVariableExpansion / _EscapeVCProjCommandLineArgListItem", P+"generator/msvs.py")]))
A(prop("G09", "Generated XML is well formed and reads back as the specification",
 "For every specification of elements, attributes and text, the XML text produced parses with a conforming parser to the same elements in the same order with the same attribute values and text. Writing XML to a file leaves the file untouched, including its modification time, when its content would not change, and otherwise leaves exactly the new encoded content.",
 ["inputs", "histories"], "all element trees with XML-legal characters, all sequences of writes to one path",
 "easy_xml_test compares four fixed documents and never writes a file.",
 [P+"easy_xml.py"], [("XmlToString / _ConstructContentList / _XmlEscape / WriteXmlIfChanged", P+"easy_xml.py")]))
A(prop("G10", "Restricted build-file evaluation accepts literals only and rejects duplicates",
 "Checked loading of a build file returns exactly the strings, lists and dictionaries written in it, and rejects with an error any other construct at any depth and any dictionary that repeats a key. Nothing in the file is ever executed.",
 ["inputs", "programs"], "all Python expression texts",
 "No test uses checked loading; a disallowed construct can sit at any depth of any container.",
 [P+"input.py"], [("CheckedEval / CheckNode", P+"input.py")]))
A(prop("G11", "Conditional sections apply exactly the branch their condition selects",
 "A condition list selects the settings of the first condition that is true, otherwise of its else branch if any, otherwise nothing; malformed condition lists are rejected as errors. The selected settings are merged once, nested conditions inside them are processed too, and the condition keys themselves disappear.",
 ["inputs"], "all condition lists with any number of chained conditions, any nesting",
 "No test evaluates conditions.",
 [P+"input.py"], [("EvalCondition / EvalSingleCondition / ProcessConditionsInDict", P+"input.py")]))
A(prop("G12", "Variables are scoped, defaulted and expanded as documented",
 "Inner definitions shadow outer ones only inside their own dictionary, a '%' default applies only when the variable has no other value, and the caller's variables are never modified. Expansion replaces every reference by its value (a list joined into a string context, spliced in a list context), leaves text without references unchanged, and converts to an integer exactly those results that are the canonical decimal form of an integer; an unbalanced or undefined reference is an error.",
 ["inputs"], "all dictionaries, variable definitions and strings with nested references",
 "No test covers variable expansion.",
 [P+"input.py"],
 [("ExpandVariables / ProcessVariablesAndConditionsInDict / LoadVariablesFromVariablesDict / LoadAutomaticVariablesFromDict / IsStrCanonicalInt / FixupPlatformCommand", P+"input.py")]))
A(prop("G13", "Generated files are replaced atomically and only when they differ",
 "Writing a generated file leaves an existing file with equal content untouched and otherwise replaces it in one step with exactly the content written, with permissions given by the umask. If anything fails before the replacement the previous content is still there, and no temporary file is left behind in either case.",
 ["inputs", "fault_sequences", "crash_points"], "all contents, all prior states of the target, a failure at any file operation",
 "No test writes through this path, and none injects failures.",
 [P+"common.py"], [("WriteOnDiff", P+"common.py")]))
A(prop("G14", "Copies of build data are equal and fully independent",
 "A copy of build data compares equal to the original and contains no mutable container of the original at any depth, so changing either never shows in the other. Data of an unsupported type is rejected with the module's own error.",
 ["inputs"], "all nested lists and dictionaries of the supported scalar types",
 "No test calls the copier.",
 [P+"simple_copy.py"], [("deepcopy and its dispatch table", P+"simple_copy.py")]))
A(prop("G15", "Configurations inherit from target, parents and nothing else",
 "Each concrete configuration of a target holds the target's settings overlaid by those of its ancestors and then its own, an abstract configuration never survives, and a target without configurations gets one default configuration. Settings moved into configurations disappear from the target while target-level keys stay, and a key that is not allowed inside a configuration is rejected.",
 ["inputs"], "all targets with any inheritance graph between configurations",
 "No test covers configurations.",
 [P+"input.py"], [("SetUpConfigurations / MergeConfigWithInheritance", P+"input.py")]))
A(prop("G16", "Dependent settings and link inputs reach exactly the right targets",
 "Settings a target exports to all, direct or linking dependents reach precisely the targets in the documented reach, each once and in dependency order: transitive dependents for 'all', direct dependents and those importing them for 'direct', linking targets for 'link'. A static library's dependencies are reduced to those that must be built before it, and linkable targets gain exactly the libraries in their static closure, never crossing a shared or loadable boundary.",
 ["inputs"], "all acyclic target graphs with all assignments of target types, exports and hard dependencies",
 "No test covers dependent settings.",
 [P+"input.py", P+"common.py"],
 [("DependencyGraphNode.DirectDependencies / DirectAndImportedDependencies / DeepDependencies / _LinkDependenciesInternal", P+"input.py"), ("DoDependentSettings / AdjustStaticLibraryDependencies", P+"input.py"), ("DeepDependencyTargets / AllTargets", P+"common.py")]))
A(prop("G17", "Dependency lists are qualified, expanded and deduplicated without loss",
 "Deduplication keeps exactly the first occurrence of every dependency in order, and removal of self references or of particular items removes nothing else. Wildcard dependencies are replaced, in place, by exactly the matching targets that may be depended on from elsewhere, a wildcard that refers to its own build file or to an unknown build file is an error, and every dependency ends up fully qualified.",
 ["inputs"], "all dependency lists and target sets",
 "No test covers these passes.",
 [P+"input.py", P+"common.py"],
 [("Unify / Filter / RemoveDuplicateDependencies / RemoveSelfDependencies / ExpandWildcardDependencies / QualifyDependencies", P+"input.py"), ("uniquer / OrderedSet", P+"common.py")]))
A(prop("G18", "Multiple toolsets yield one independent target per toolset",
 "A target that lists toolsets becomes, in its place, exactly one target per listed toolset, each equal to the original apart from its toolset and sharing no mutable data with the others. A target without a list gets the default toolset unless it already has one, and other targets and those in nested conditional sections are processed the same way without being dropped, reordered or duplicated.",
 ["inputs"], "all target lists and toolset lists",
 "No test covers toolset expansion.",
 [P+"input.py"], [("ProcessToolsetsInDict", P+"input.py")]))
A(prop("G19", "Invalid target specifications are always rejected, valid ones never",
 "A target of unknown type, a standalone static library flag on anything else, a rule that repeats a name or extension or lacks a required key, an action without a name or inputs, and a malformed run section are each reported as an error wherever they occur in the list, and specifications without such a fault pass and keep their meaning.",
 ["inputs"], "all target dictionaries",
 "No test validates malformed targets.",
 [P+"input.py"], [("ValidateTargetType / ValidateRulesInTarget / ValidateRunAsInTarget / ValidateActionsInTarget", P+"input.py")]))
A(prop("G20", "Command-line settings survive regeneration",
 "Name=value settings given to the generator are read into a table in which later settings win, a value that is a decimal integer becomes that integer, and a name without '=' means true. The flags recorded for regenerating a project reproduce, when parsed again, the same option values, whichever of command line and environment they came from and whatever their order or path form.",
 ["inputs", "configurations"], "all name=value lists and all option combinations",
 "No test runs the option parser.",
 [P+"__init__.py"], [("NameValueListToDict / FormatOpt / RegenerateAppendFlag / RegenerateFlags / ShlexEnv", P+"__init__.py")]))
A(prop("G21", "Affected-target analysis never misses a target and never invents one",
 "Given a list of changed files, the analysis reports as affected exactly those requested targets that use a changed file directly or through any chain of dependencies or whose build files changed, and the targets to compile are the ones whose build covers them. A target uses the files in its sources and the inputs of its actions and rules; a requested name stands for every target of that name, and 'all' for the targets of the given build files that nothing depends on. A changed file is matched by its path relative to the source root, and files outside the tree never match files inside it.",
 ["inputs"], "all target graphs, source lists, and changed-file lists",
 "No test covers the analyzer.",
 [P+"generator/analyzer.py"], [("_DoesTargetDependOnMatchingTargets / _GetTargetsDependingOnMatchingTargets / _AddCompileTargets / _ResolveParent / _AddSources / TargetCalculator", P+"generator/analyzer.py")]))
A(prop("G22", "Makefile text denotes the intended names, values and rules",
 "Values, file names and command text written by the make generator denote, under make's own reading rules, the values they were given: variable references meant for make stay live, dollar signs, hashes and spaces that are data stay data, and a list is written so that reading it back yields the same items in order. Source and output paths are made relative to the right directory, absolute or already variable-based paths are left alone, and every rule lists all of its outputs and inputs.",
 ["inputs"], "all strings and lists of path strings",
 "No test covers the make generator.",
 [P+"generator/make.py"], [("QuoteSpaces / QuoteIfNecessary / StringToMakefileVariable / EscapeMakeVariableExpansion / Sourceify / MakefileWriter.WriteList / WriteMakeRule / Objectify / Absolutify / ComputeOutputBasename", P+"generator/make.py")]))
A(prop("G23", "String literals written for CMake and Xcode readers read back unchanged",
 "A string without NUL placed into a CMake quoted argument by the CMake generator is read back by CMake as that one value, semicolons included. A string without carriage return written to an Xcode project file, by itself or inside nested lists and dictionaries, is read back by the rules of property lists as the original string. No input can end the literal, or a comment, early.",
 ["inputs"], "all strings",
 "No test covers these encoders.",
 [P+"generator/cmake.py", P+"xcodeproj_file.py"], [("CMakeStringEscape / SetVariable / SetVariableList / SetFileProperty / SetTargetProperty", P+"generator/cmake.py"), ("XCObject._EncodeString / _EncodeTransform / _EncodeComment / _XCPrintableValue", P+"xcodeproj_file.py")]))
A(prop("G24", "Environment settings are ordered after the settings they refer to",
 "The environment handed to actions lists every variable exactly once, with each variable after all variables its value refers to, and a reference cycle is reported as an error. Expanding references afterwards leaves no reference to a variable of that environment, and a Windows environment block contains exactly the given name and value pairs.",
 ["inputs"], "all environment dictionaries",
 "common_test sorts two fixed graphs.",
 [P+"xcode_emulation.py", P+"common.py", P+"msvs_emulation.py"], [("_TopologicallySortedEnvVarKeys / GetSortedXcodeEnv / ExpandEnvVars", P+"xcode_emulation.py"), ("TopologicallySorted", P+"common.py"), ("_FormatAsEnvironmentBlock / ExpandMacros", P+"msvs_emulation.py")]))
A(prop("G25", "Included files and command-line defaults are found without loops",
 "Every file that contributed to a build file, directly or through nested includes, is reported exactly once whatever the include graph looks like, including cycles. Generator and configuration defaults taken from the environment are used only where the command line did not set a value.",
 ["inputs", "configurations"], "all include graphs and environments",
 "No test covers include tracking.",
 [P+"input.py", P+"common.py"], [("GetIncludedBuildFiles", P+"input.py"), ("GetEnvironFallback", P+"common.py")]))
A(prop("J01", "Downloaded headers are used only if their checksum matches",
 "Installing development files from the network succeeds only if every downloaded file has exactly the SHA-256 checksum published for that file name, and a missing, truncated or non-matching checksum list makes the installation fail. A failed installation removes the version's directory and reports the failure, and the version is marked as installed only after everything was verified.",
 ["inputs", "fault_sequences", "crash_points"], "all responses, checksum lists and failure points",
 "The mocha tests need the network or mock two error paths; the listed stable tests run no JavaScript.",
 ["lib/install.js"], [("install / go / downloadShasums / rollback", "lib/install.js")]))
A(prop("J02", "Download locations follow version, mirror and release information",
 "The version, directory and download locations derived from command line, environment and running Node always belong to one and the same version: the explicit version wins over the configured target and that over the running version, a configured mirror replaces the default base for everything, and all locations for one release share that base. The checksum key of each library file is its location relative to that base.",
 ["inputs", "configurations"], "all version strings, mirrors, environments and release descriptions",
 "The mocha test samples a few releases and is not among the stable tests.",
 ["lib/process-release.js"], [("processRelease / resolveLibUrl / normalizePath", "lib/process-release.js")]))
A(prop("J03", "The chosen Python is the first acceptable one in the documented order",
 "The Python used is the first candidate in the documented order that runs and reports a supported version, an interpreter forced through the environment is the only candidate considered, and if no candidate qualifies an error is raised. An unsupported or unparsable version is never accepted.",
 ["inputs", "configurations"], "all environments and all behaviours of candidate executables",
 "The mocha tests sample some candidates on one platform each.",
 ["lib/find-python.js"], [("PythonFinder.findPython / checkCommand / checkExecPath", "lib/find-python.js")]))
A(prop("J04", "The generated configuration reflects the requested options",
 "The configuration file written for a module carries the requested build type, architecture, development directory and Python, adds every unrecognised option as a variable and no recognised one, drops the compile flags inherited from the machine Node was built on, and is valid for both readers of that file. Everything else comes unchanged from the base configuration.",
 ["inputs", "configurations"], "all option sets and base configurations",
 "The mocha test samples a few options.",
 ["lib/create-config-gypi.js"], [("getCurrentConfigGypi / createConfigGypi / parseConfigGypi", "lib/create-config-gypi.js")]))
A(prop("J05", "The command line is split into commands with their own arguments",
 "Every command word (or alias) on the command line becomes one command, in order, whose arguments are exactly the words between it and the next command, and words before the first command are dropped. The combined rebuild runs clean, configure and build in that order with the arguments going to configure.",
 ["inputs"], "all argument lists and environments",
 "The mocha test checks option parsing from the environment only.",
 ["lib/node-gyp.js", "lib/rebuild.js"], [("Gyp.parseArgv", "lib/node-gyp.js"), ("rebuild", "lib/rebuild.js")]))
A(prop("J06", "The Visual Studio chosen is usable and matches what was requested",
 "The installation selected has the required compiler toolset, MSBuild and, where applicable, SDK components, is of a version that the target Node and the user's request allow, and is the newest such installation offered; otherwise an error is raised.",
 ["inputs", "configurations"], "all installed-product descriptions and requests",
 "The mocha tests replay recorded product lists.",
 ["lib/find-visualstudio.js"], [("VisualStudioFinder", "lib/find-visualstudio.js")]))
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in L: f.write(json.dumps(p) + "\n")
for p in L:
    assert len(p["title"]) <= 80, p["id"]
    n = p["statement"].count(". ") + 1
    assert n <= 3, (p["id"], n)
print(len(L))
