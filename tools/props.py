#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one table."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = {"lib": "src/lib.rs", "res": "src/resolve.rs", "map": "src/map.rs", "desc": "src/description.rs", "fs": "src/fs.rs",
     "ts": "src/tsconfig.rs", "tsp": "src/tsconfig_path.rs", "norm": "src/normalize.rs", "parse": "src/parse.rs",
     "kind": "src/kind.rs", "opt": "src/options.rs", "cache": "src/cache.rs", "utils": "src/utils.rs"}
P = []
def p(id, title, statement, over, text, why, files, mech, note, technique="bounded exhaustive enumeration of trees, options and requests on the real code, against a reference model"):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=[F[f] for f in files], mech=mech, note=note, technique=technique))

FS = " Runs the real crate on an in-memory file system whose answers are cross-checked against the disk; trusts the reference model in mc/src/spec.rs."

p("C01", "Path requests try the file, then its extensions, then the directory",
  "A relative or absolute request resolves to the exact file if it names one (unless extensions are enforced), otherwise to the first configured extension that makes it a file, otherwise to the directory's entry point, and otherwise fails. A request ending in '/' never matches a file of that name, and the order of the extension list decides between files.",
  ["inputs", "configurations"], "every request, every combination of files, directories and links with the candidate names, every extension list and enforce_extension setting",
  "tests/cases.rs checks a few dozen hand-written requests in fixed fixtures; the order in which candidates win depends on which of them exist together",
  ["res", "lib", "opt", "kind", "parse"], [("resolve_as_file / resolve_as_dir", "src/resolve.rs"), ("get_target_kind", "src/kind.rs")],
  "Every subset of the candidate files/directories/links up to the bounds in the evidence, under all listed extension lists and enforcement settings.")
p("C02", "A directory resolves to its main fields in order, then its main files",
  "A request that names a directory resolves to the first main field of its description file that leads to a file (itself resolved as a path request inside the package), otherwise to the first main file that exists with a configured extension. When nothing of that exists the request fails with an error.",
  ["inputs", "configurations"], "every value and order of main fields, every list of main files, every set of existing targets",
  "fixtures contain a handful of main values; fall-through between fields, values that point nowhere, at directories or at their own directory, and missing entry points are combinations",
  ["res", "desc", "opt"], [("resolve_as_dir_from", "src/resolve.rs"), ("parse_description_file", "src/description.rs")],
  "Every combination of field values, option lists and existing targets within the bounds.")
p("C03", "Bare requests search node_modules of every ancestor, nearest first",
  "A bare request resolves in the nearest ancestor directory of the importing directory whose node_modules holds something that satisfies it, looking at each ancestor up to the root exactly in order and inside node_modules at packages, scoped packages and plain files. A package directory that cannot satisfy the request does not end the search unless its exports decide the question.",
  ["inputs", "configurations"], "every placement of packages, files, empty directories and links over the ancestor chain, every request form (plain, scoped, with subpath), every importing directory",
  "fixtures have one node_modules level with one copy of each package",
  ["res", "lib"], [("resolve_as_modules_from", "src/resolve.rs"), ("split_module_target", "src/resolve.rs")],
  "Every placement over a chain of nested directories within the bounds.")
p("C04", "exports pick the target of the most specific matching subpath",
  "When a package has an exports field, a bare request into it resolves to the target of the exact key, otherwise of the longest matching directory or '*' key with the remainder substituted, otherwise fails. The declaration order of the keys does not matter, null targets exclude, and an array gives its first element that names an existing file.",
  ["inputs", "configurations"], "every exports object over the key and target vocabularies, every subpath requested",
  "unit tests list ~100 exports objects; the winner depends on all key pairs and on how prefixes, patterns and remainders overlap",
  ["map", "res"], [("PathTreeNode / find_match", "src/map.rs"), ("apply_folder_mapping / apply_wildcard_mappings", "src/map.rs")],
  "Every exports object of up to the bounded number of keys from a vocabulary, with every request of a vocabulary.")
p("C05", "Conditions select the first matching key in declaration order",
  "In exports and imports, of an object of conditions the first key in declaration order that is active (listed in the options, or 'default') and leads to a target decides, nested objects and arrays included, and a branch without usable target falls through to the next. Keys mixing subpaths and conditions are rejected.",
  ["inputs", "configurations"], "every nesting of conditions, arrays, null and targets up to a depth, every set of active conditions",
  "unit tests fix a few condition sets; order, nesting and fall-through multiply",
  ["map"], [("conditional_mapping", "src/map.rs"), ("target_mapping", "src/map.rs")],
  "Every value of bounded depth over the vocabulary, under every subset of the active conditions.")
p("C06", "exports encapsulate a package and their targets stay inside it",
  "A bare request into a package with exports never resolves to a file that exports does not map the request to, also when such a file exists, and a package can address itself by name only through its own exports. A mapped target that would leave the package directory is never used, however it is spelled.",
  ["inputs", "configurations"], "every spelling of targets and requests with '.', '..' and empty segments, every importing position (outside, inside, nested package)",
  "unit tests check a dozen spellings of check_target; escapes arise from combinations of key, target and remainder",
  ["map", "res"], [("check_target / assert_target", "src/map.rs"), ("resolve_as_replacement", "src/resolve.rs")],
  "Every combination of the segment vocabulary in targets and subpaths up to the bounded length.")
p("C07", "'#' requests resolve through the imports of the enclosing package only",
  "A request starting with '#' resolves through the imports field of the package that encloses the importing directory by the same key and condition rules as exports, to a file inside the package or to a bare request that is searched in turn. Requests that do not match, and imports that lead back to themselves, fail with an error.",
  ["inputs", "configurations"], "every imports object over the vocabulary, every importing directory (nested packages included), every target kind",
  "unit tests cover matching of keys but not what happens with the matched target in a tree",
  ["map", "res", "lib"], [("ImportsField", "src/map.rs"), ("resolve_as_replacement", "src/resolve.rs")],
  "Every imports object of bounded size with every request of the vocabulary.")
p("C08", "The browser field replaces or ignores files and modules of its own package",
  "With browser_field enabled, a request or a resolved file that the description file of the importing package lists in its browser object is replaced by the given target or ignored when the value is false, and with the option disabled nothing is replaced. Entries of another package do not apply, replacement follows chains and ends on cycles, and a string value acts as main field only when configured so.",
  ["inputs", "configurations"], "every browser object over the vocabulary of keys and values, every request that reaches them, from the package and from outside",
  "fixtures have one browser field with a handful of entries",
  ["res", "desc", "lib"], [("resolve_as_replacement", "src/resolve.rs"), ("browser map of PkgFileInfo", "src/description.rs")],
  "Every browser object of bounded size with every request of the vocabulary, inside and outside the package.")
p("C09", "Aliases rewrite matching requests in order, once each, or ignore them",
  "The alias entries are tried in their order; the first whose key is a prefix of the request (and whose target does not already prefix it) rewrites it and the result is resolved in turn, and an entry marked ignored makes the request ignored. A rewrite that leads nowhere falls through to the next entry and finally to the unaliased request, and aliases that lead back to themselves end.",
  ["inputs", "configurations"], "every alias list over the vocabulary (chains, cycles, self-prefixes, ignored), every request",
  "tests use about ten alias entries without interplay",
  ["lib", "opt"], [("_resolve_from alias loop", "src/lib.rs")],
  "Every alias list of bounded length with every request of the vocabulary.")
p("C10", "tsconfig paths: exact, then longest-prefix pattern, targets in order",
  "With a tsconfig, a non-relative request that matches compilerOptions.paths is mapped by the exact pattern, otherwise by the '*' pattern with the longest prefix, its targets are tried in order relative to baseUrl, and a request that no target satisfies falls back to ordinary resolution. Relative requests are never mapped, and each run gives the same answer whatever the declaration order of the patterns.",
  ["inputs", "configurations"], "every set of patterns and target lists over the vocabulary, every request",
  "fixtures use one tsconfig with few patterns; overlapping patterns were resolved in hash order",
  ["tsp"], [("create_match_list / match_star", "src/tsconfig_path.rs"), ("_resolve_with_tsconfig", "src/tsconfig_path.rs")],
  "Every set of patterns of bounded size with every request of the vocabulary.")
p("C11", "tsconfig files load with comments and extends; the nearest definition wins",
  "A tsconfig with comments and trailing commas is read like TypeScript reads it; extends (relative, with or without .json, or in node_modules) merges the base below the file, baseUrl counts from the file that states it, and a chain of any length works. Missing, malformed, empty or cyclic files are errors and never a crash.",
  ["inputs", "configurations"], "every extends graph over up to four files (chains, cycles, self loops, missing), every place of baseUrl and paths, every malformation of the vocabulary",
  "fixtures have one extends chain of sound files",
  ["ts"], [("parse_file / parse_file_to_value", "src/tsconfig.rs"), ("merge", "src/tsconfig.rs")],
  "Every extends graph and placement of the options within the bounds, and every malformed document of a vocabulary.")
p("C12", "Query and fragment are carried to the result unchanged",
  "The query (from the first '?') and the fragment (from the first '#' after the first character) of a request are returned with the resolved path exactly as written, in whichever way the path was found, and never take part in finding it.",
  ["inputs"], "every string over the separator alphabet up to a length, every way of resolving (file, directory, package, alias, exports, browser, tsconfig)",
  "parse tests check 20 strings, without the ways of resolving",
  ["parse", "lib"], [("parse_identifier", "src/parse.rs"), ("with_target", "src/lib.rs")],
  "Every identifier over the alphabet up to the bounded length, and every suffix on every way of resolving.")
p("C13", "A result is the absolute, normalised path of an existing file",
  "Every successful result is an absolute path without '.', '..', duplicate separators that names an existing regular file; with symlinks enabled it is the real path without links, otherwise the links of the path are kept. '..' in requests and base directories is lexical.",
  ["inputs", "configurations"], "every layout of links (to files, directories, links, nothing, in cycles), every base and request with '.' and '..' segments, both settings",
  "fixtures contain three links",
  ["norm", "lib"], [("normalize_result / normalize_path", "src/normalize.rs")],
  "Every link layout and request of the vocabulary, both settings.")
p("C14", "What a resolver was asked before never changes its answers",
  "On an unchanged tree a resolver gives every question the answer that a new resolver gives, whatever sequence of questions (successful, failing, ignored or erroneous, from whatever directories) it has answered before. This includes asking the same question again.",
  ["histories"], "every sequence of questions up to a length over a pool, on trees with shared, nested, linked and broken packages",
  "tests ask each resolver a question at a time; caches only matter across questions",
  ["desc", "map", "cache", "lib"], [("pkg_info_cache, description cache", "src/description.rs"), ("exports/imports trees in ResolverCache", "src/cache.rs")],
  "Every sequence of up to 3 (thorough 4) questions over a pool of 16-22, on every tree and option set of the space.", "exhaustive exploration of operation sequences on the real code, against a reference model")
p("C15", "Edits of description files and of the tree are seen without a new resolver",
  "After a description file is created, changed, made invalid, repaired or removed, and after files, directories or links appear or vanish, the next question gets the answer a new resolver would give, provided a changed description file carries a modification time at least one second away from the one it had when it was read. It does not matter what the resolver has cached, in which order files were read or how old they are.",
  ["histories"], "every sequence of edits and questions up to a length over vocabularies of both, including edits that move modification times back and forth",
  "one test edits one file once (with sleeps) and asks one question",
  ["fs", "desc", "cache"], [("need_update / read_to_string", "src/fs.rs"), ("parse_description_file", "src/description.rs")],
  "Every interleaving of edits and questions up to the bounded depth under a controlled clock.", "exhaustive exploration of edit/question histories on the real code under a controlled clock, against a reference model")
p("C16", "Resolvers that share a cache answer as if each had its own",
  "Resolvers with different options that share one cache give every question the answer they would give alone, whichever of them asked what before, and edits are seen by all of them.",
  ["histories", "configurations"], "every pair of option sets, every sequence of questions over both resolvers up to a length, with edits in between",
  "one unit test shares a cache between two resolvers with the same options",
  ["cache", "lib", "desc", "map"], [("external_cache", "src/options.rs"), ("ResolverCache", "src/cache.rs")],
  "Every sequence of up to the bounded length over pairs of option sets.", "exhaustive exploration of operation sequences on the real code, against a reference model")
p("C17", "Concurrent use of a resolver or a shared cache is safe and invisible",
  "Any number of threads may ask one resolver, or resolvers that share a cache, at the same time: every call returns, without deadlock or panic, the answer it would get alone. When files change meanwhile, an overlapping call may see either state, but every call that starts after the change gives the answer for the new state.",
  ["schedules"], "every interleaving of lock operations and file-system calls of two and three threads up to a preemption bound, with and without a concurrent writer, cold and warm caches",
  "no test uses threads; what a test run sees is one schedule",
  ["cache", "desc", "fs", "lib", "map"], [("dashmap-based caches", "src/cache.rs"), ("load_pkg_file", "src/description.rs")],
  "Every schedule up to the preemption bound for every pair of questions of the pools; sequentially consistent memory.", "stateless model checking of the real code under a controlled scheduler (all schedules up to a preemption bound)")
p("C18", "Every input gets an answer: no panic, no hang, no runaway recursion",
  "Whatever the request string, base directory, options and the content of description files and tsconfig, a call returns a result or an error; it never panics (also with debug assertions), aborts, loops or exhausts the stack, and leaves no file open.",
  ["inputs", "configurations"], "every request over an alphabet of separators and multi-byte characters up to a length, every JSON value kind in every field, odd bases and options",
  "tests feed well-formed input only",
  ["lib", "res", "map", "desc", "parse", "ts", "tsp", "norm", "kind"], [("index arithmetic on requests and keys", "src/map.rs"), ("unwrap/unreachable on field types", "src/description.rs")],
  "Every string over the alphabet up to the bounded length and every value kind in every field, in release and debug-assertion builds.")
p("C19", "A failing or changing file system gives errors, never lasting damage",
  "When any file-system call fails (I/O error, permission, too many files, vanished file) or the tree is edited by another process in the middle of a call, that call still returns a result or an error without panicking or leaking, and a description file that exists but cannot be opened never silently counts as absent (alternatives to the failed attempt, such as the next alias, may still be tried). After the trouble is over, the same resolver gives every question the answer a new resolver gives: nothing wrong was cached.",
  ["fault_sequences", "histories"], "every file-system call of every explored question failing with each errno, pairs of failures, and every edit at every call",
  "no test injects failures; each needs a fault at one particular call",
  ["fs", "desc", "ts", "norm", "lib"], [("read_to_string / need_update", "src/fs.rs"), ("parse_description_file", "src/description.rs")],
  "Every single fault point (and pairs in the thorough tier) of every question of the pools, and every edit of the vocabulary at every point.", "exhaustive enumeration of fault and edit points in the real code, against a reference model")
p("C20", "Failures name the original request and importing directory",
  "When a request cannot be resolved, the error says which request and which directory the caller passed in, not an intermediate rewrite of it, for every way of failing to find something.",
  ["inputs", "configurations"], "every way of failing (file, package, alias, browser, imports target, tsconfig) with every form of request",
  "tests compare two messages",
  ["utils", "lib"], [("raise_resolve_failed_message", "src/utils.rs")],
  "Every failing question of the space.")
p("C21", "Answers do not depend on hashing order or on the order of option sets",
  "For the same tree, options and question the answer is the same in every process, whatever seed the hash tables use, and regardless of the order in which condition names are given.",
  ["configurations", "schedules"], "every hash seed of a set, every case of a selection of the spaces of the other properties",
  "a test run uses one random seed per process and cannot tell a lucky order from a guaranteed one",
  ["desc", "tsp", "map", "opt"], [("iteration over maps", "src/description.rs"), ("condition set", "src/options.rs")],
  "Every selected case under every seed of the set.", "exhaustive enumeration of cases x hash seeds on the real code, against a reference model")
p("C22", "Side effects of a file are those its nearest description file declares",
  "load_side_effects gives, for any path, the sideEffects value (boolean, or list of patterns unchanged and in order) of the nearest enclosing description file together with the path of that file, or nothing when there is none or it does not declare any.",
  ["inputs", "histories"], "every placement of description files with every value of sideEffects over nested directories, every queried path",
  "tests query two files",
  ["desc"], [("load_side_effects", "src/description.rs")],
  "Every placement and value of the space, on fresh and on warm resolvers.")
p("C23", "The table of built-in modules is exactly that of Node.js",
  "is_build_in_module is true for exactly the names of the built-in modules of Node.js 16 (as in require('module').builtinModules, so without the 'node:' prefix), and false for every other string. Resolution is the same as if the table was not there.",
  ["inputs"], "every known built-in name, every one-edit neighbour, prefix forms",
  "no test names more than one built-in",
  ["kind"], [("is_build_in_module", "src/kind.rs")],
  "Every name of the reference table and every string at edit distance one of the vocabulary.")
p("C24", "The description_file option decides which file describes a package",
  "Fields are read from the file the option names, files called otherwise (package.json included) have no influence, and with the option unset no description file is read at all.",
  ["configurations"], "every option value over a vocabulary, every placement of differently named description files with different fields",
  "one test uses one other name",
  ["desc", "opt"], [("load_pkg_file", "src/description.rs")],
  "Every combination of the option and of placed files in the space.")
p("C25", "Lexical normalisation is idempotent and keeps the meaning of the path",
  "normalize_path_without_link removes '.' segments, duplicate and trailing separators and resolves '..' against preceding names, keeps leading '..' of relative paths and stays at the root of absolute ones, and normalising twice changes nothing.",
  ["inputs"], "every path of up to a bounded number of segments over a segment alphabet, absolute and relative",
  "tests check four paths",
  ["norm"], [("normalize_path_without_link", "src/normalize.rs")],
  "Every path over the segment alphabet up to the bounded length.")
p("C26", "prefer_relative tries a bare request as a path first and then as a module",
  "With prefer_relative a bare request resolves like './request' when that succeeds and as a module otherwise; without it a bare request never resolves to a sibling file. Absolute and relative requests are unaffected.",
  ["inputs", "configurations"], "every placement of sibling files, directories and modules, every request form, both settings",
  "one fixture",
  ["lib", "res"], [("prefer_relative", "src/lib.rs")],
  "Every placement and request of the space, both settings.")
have = set(f[:-3].upper() for f in os.listdir(V + "/mc/src/props") if f.startswith("c"))
with open(V + "/properties.jsonl", "w") as f:
    for x in P:
        f.write(json.dumps({"id": x["id"], "title": x["title"], "statement": x["statement"],
            "quantifier": {"over": x["over"], "text": x["text"]}, "why_tests_cant": x["why"],
            "anchors": {"files": x["files"], "mechanism": [{"name": a, "where": b} for a, b in x["mech"]]}}, ensure_ascii=False) + "\n")
checks, na = [], []
for x in P:
    if x["id"] in have:
        checks.append({"property": x["id"], "quick_cmd": f"bash check.sh {x['id']} quick", "thorough_cmd": f"bash check.sh {x['id']} thorough",
            "technique": x["technique"], "level": "model_checking", "level_note": x["note"] + FS})
    else:
        na.append({"property": x["id"], "reason": "the check is still being built"})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
    "notes": "No hooks in /repo: the checks use the public API of the crate, linked against an interposed libc and a vendored dashmap with scheduling points."},
    open(V + "/MANIFEST.json", "w"), indent=1)
