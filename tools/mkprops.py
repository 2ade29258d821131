#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single place where the property texts live)."""
import json, pathlib
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                          "mechanism": [dict(name=a, where=b) for a, b in mech],
                          "observe_at": observe, "hook_needed": None}})
PR = "conda_recipe_manager/parser/"
p("C01", "A selector selects exactly the platforms its boolean expression is true on",
  "For every selector made of platform, operating-system and architecture names (case-insensitive) combined with `not`, `and` and `or`, the set of platforms selected is exactly the set of platforms on which the expression is true under Python's precedence (`not` binds tighter than `and`, `and` tighter than `or`). The operating-system and architecture names denote the documented platform sets (`unix` is linux plus osx, `win`/`linux`/`osx` partition all platforms, `x86` contains `x86_64`), whether given as a name or as an enumeration member. A selector applies to a query iff the queried platform is selected; a query without a platform is satisfied by every selector.",
  ["inputs", "programs"], "every token sequence (any length, any nesting of operators) and every query platform",
  "Expressions are unbounded in length; tests sample about twenty short selectors and never mix `and` with a later `or` at the same level.",
  [PR+"selector_parser.py", PR+"platform_types.py", PR+"selector_query.py", PR+"enums.py"],
  [("shunting-yard to postfix to tree", PR+"selector_parser.py:SelectorParser._parse_selector_tree/_process_postfix_stack"), ("recursive evaluation over platform sets", PR+"selector_parser.py:SelectorParser.get_selected_platforms"), ("look-up tables", PR+"platform_types.py:get_platforms_by_os/get_platforms_by_arch")],
  ["SelectorParser.get_selected_platforms()", "SelectorParser.does_selector_apply()", "get_platforms_by_os()", "get_platforms_by_arch()"])
p("C02", "Paths address the same values users see: keys by name, list items by index",
  "Converting a normalised path string to its internal form and back yields the same path, converting never alters the caller's data, and joining a base path with an extension puts exactly one `/` between the two. A path resolves by following key names and zero-based list positions, where comment lines never count as list items; an index outside the list, or an index applied to something that is not a list, resolves to nothing instead of to another value or an error.",
  ["inputs"], "every path string and every recipe tree (any depth, any interleaving of comments and values)",
  "Trees and paths are unbounded; the tests visit a few dozen fixed paths in fixed recipes.",
  [PR+"_utils.py", PR+"_traverse.py", PR+"recipe_reader.py", PR+"_node.py"],
  [("virtual/physical index maps", PR+"_traverse.py:remap_child_indices_virt_to_phys"), ("tree walk", PR+"_traverse.py:traverse/traverse_with_index/traverse_all"), ("string/stack conversion", PR+"_utils.py:str_to_stack_path/stack_path_to_str")],
  ["RecipeReader.contains_value()", "RecipeReader.get_value()", "RecipeReader.append_to_path()", "RecipeReader.list_value_paths()"])
p("C03", "A successful patch changes exactly the addressed location",
  "When an `add`, `remove`, `replace`, `move` or `copy` operation reports success, the recipe's data afterwards is the data before with exactly the RFC 6902 effect of that operation at the addressed location, for values whose recipe text reads back as that value (a list standing directly in a list is refused): list insertions shift later items and lose none, `replace` and `remove` hit the addressed item and no other, `copy` keeps its source. All other values, their order and their comments are unchanged. A patch that `move`s a path onto itself changes nothing.",
  ["inputs", "histories"], "every recipe tree, every valid patch of the five kinds, and every sequence of them",
  "The product of trees, paths, values and operation sequences is unbounded; tests patch a handful of fixed paths.",
  [PR+"recipe_parser.py", PR+"_traverse.py"],
  [("per-operation functions", PR+"recipe_parser.py:RecipeParser._patch_add/_patch_remove/_patch_replace/_patch_move/_patch_copy"), ("target location", PR+"recipe_parser.py:RecipeParser._patch_add_find_target/_is_valid_patch_node")],
  ["RecipeParser.patch()", "RecipeParser.render()", "RecipeParser.render_to_object()"])
p("C04", "A patch that does not succeed leaves the recipe untouched",
  "When a patch reports failure, or is rejected as not conforming to the patch schema, the recipe renders exactly as before, its modified state and selector index are as before, and no other kind of exception reaches the caller. A `test` operation never changes the recipe and reports whether the value at the path equals the given value.",
  ["inputs", "histories"], "every recipe and every patch payload, valid or not, including ones addressing missing paths, out-of-range list positions and non-lists",
  "Failure inputs are unbounded; the tests check the return value of a few failing patches on fixed recipes.",
  [PR+"recipe_parser.py", PR+"_traverse.py", PR+"exceptions.py"],
  [("schema validation before anything else", PR+"recipe_parser.py:RecipeParser.patch"), ("validate before mutate", PR+"recipe_parser.py:RecipeParser._is_valid_patch_node/_patch_move")],
  ["RecipeParser.patch()", "RecipeParser.render()", "RecipeParser.is_modified()"])
p("C05", "Selector index and modified flag always agree with the recipe after any edit",
  "After any sequence of public editing calls (patches, selector edits, comment edits, variable edits), the selectors and selector locations a recipe reports are exactly those present in its current tree, as if it had been indexed afresh. A recipe is flagged modified by every successful edit, is never flagged modified by an operation that failed or only read, and produces an empty diff while unmodified.",
  ["histories"], "every history of public editing and querying calls on every recipe",
  "Histories are unbounded; tests check the index after single edits on fixed files.",
  [PR+"recipe_parser.py", PR+"recipe_reader.py", PR+"_is_modifiable.py"],
  [("index rebuild", PR+"recipe_reader.py:RecipeReader._rebuild_selectors"), ("modified flag", PR+"recipe_parser.py (every mutator)")],
  ["RecipeReader.list_selectors()", "RecipeReader.get_selector_paths()", "IsModifiable.is_modified()", "RecipeParser.diff()"],
  [("selector table", "selector -> nodes and paths", PR+"recipe_reader.py"), ("modified flag", "an edit happened", PR+"_is_modifiable.py")])
p("C06", "Selector and comment edits change only the comment of the addressed line",
  "Adding a selector puts that selector on the addressed line (alone when replacing, combined as `old and new` / `old or new` when merging, in front of an existing plain comment when merging), removing a selector returns it and keeps the rest of the comment, and adding a comment keeps an existing selector. Only the comment of the addressed line changes; no value, no other line and no structure does. A missing path raises KeyError and a malformed selector or empty/selector comment raises ValueError, both leaving the recipe unchanged.",
  ["inputs", "histories"], "every recipe line with every existing comment, every selector/comment text and conflict mode",
  "Comment texts and lines are unbounded; tests try a few fixed comments.",
  [PR+"recipe_parser.py"],
  [("comment rewriting", PR+"recipe_parser.py:RecipeParser.add_selector/remove_selector/add_comment")],
  ["RecipeParser.add_selector()", "RecipeParser.remove_selector()", "RecipeParser.add_comment()", "RecipeReader.get_selector_at_path()", "RecipeReader.get_comments_table()"])
p("C07", "Reading a recipe never changes it, and reading twice gives the same answer",
  "No query (values, paths, variables, selectors, comments, search, rendering, hashing, dependency listing) changes what any later query or rendering returns, and repeating a query on an unchanged recipe returns an equal result. Results handed out are independent of the recipe: a caller altering a returned list of paths, selectors or variables does not alter the recipe.",
  ["histories"], "every sequence of read-only calls on every recipe",
  "Tests call each query once on a freshly parsed recipe; interference shows only in sequences.",
  [PR+"recipe_reader.py", PR+"recipe_reader_deps.py", PR+"_traverse.py", PR+"_utils.py", PR+"_selector_info.py"],
  [("copies handed to callbacks", PR+"_traverse.py:traverse_all"), ("path copies", PR+"recipe_reader.py:RecipeReader.get_selector_paths")],
  ["RecipeReader.get_selector_paths()", "RecipeReader.render()", "RecipeReader.list_value_paths()", "RecipeReader.find_value()", "RecipeReader.search()", "RecipeReader.get_comments_table()"])
p("C08", "Recipe variables behave as an ordered map and are what gets rendered",
  "After any history of setting and deleting variables, listing, containment and lookup agree with an insertion-ordered map: the last value set wins, a deleted variable is gone, an unknown variable yields the caller's default or KeyError, and deleting an unknown variable changes nothing. A pre-CEP-13 recipe renders exactly one `set` line per variable, in that order, before the tree, and the references reported for an unknown variable are empty.",
  ["histories", "inputs"], "every history of variable edits with every name and value",
  "Histories and values are unbounded; tests set one or two variables.",
  [PR+"recipe_parser.py", PR+"recipe_reader.py"],
  [("variables table", PR+"recipe_reader.py:RecipeReader.get_variable/list_variables/contains_variable"), ("edits", PR+"recipe_parser.py:RecipeParser.set_variable/del_variable"), ("rendering", PR+"recipe_reader.py:RecipeReader.render")],
  ["RecipeParser.set_variable()", "RecipeParser.del_variable()", "RecipeReader.list_variables()", "RecipeReader.get_variable()", "RecipeReader.render()"])
p("C09", "Adding or removing a dependency follows the requested conflict mode",
  "Adding a dependency appends it exactly once, replaces exactly the first entry of the same name (replace mode), leaves the recipe untouched and reports False when a same-named entry exists (ignore mode), always appends (use-both mode), or overwrites exactly the given position (exact-position mode); no other entry is lost, duplicated or reordered. Section names convert between recipe text and enumeration consistently for both recipe formats, a malformed dependency path is refused without change, and a missing section is created only when its parent exists. Removing a dependency removes exactly the addressed entry.",
  ["inputs", "histories"], "every dependency list, dependency, path, conflict mode and selector",
  "Lists, names and positions are unbounded; tests run one fixed multi-output recipe.",
  [PR+"recipe_parser_deps.py", PR+"dependency.py"],
  [("mode dispatch", PR+"recipe_parser_deps.py:RecipeParserDeps.add_dependency/_init_patch_path/_calc_is_new_section/_patch_add_dep"), ("path check", PR+"recipe_parser_deps.py:RecipeParserDeps._is_valid_dependency_path"), ("section names", PR+"dependency.py:dependency_section_to_str/str_to_dependency_section")],
  ["RecipeParserDeps.add_dependency()", "RecipeParserDeps.remove_dependency()"])
p("C10", "The dependency map lists each requirement once per package that needs it",
  "For every recipe, the dependency map has one entry per package; a package's list contains each non-blank requirement of each recognised section exactly once, in order, with the path at which that requirement is found and the selector on that line. In a multi-output recipe every output additionally lists every top-level requirement, recorded as required by that output, while the top-level package's own list is unaffected. Unrecognised sections and blank requirements contribute nothing, and duplicate or missing package names are reported as errors.",
  ["inputs"], "every requirements layout: any packages, sections, blanks, selectors",
  "Layouts are unbounded; tests compare a few fixed recipes.",
  [PR+"recipe_reader_deps.py", PR+"dependency.py"],
  [("collection loop", PR+"recipe_reader_deps.py:RecipeReaderDeps.get_all_dependencies"), ("top-level merge", PR+"recipe_reader_deps.py:RecipeReaderDeps._add_top_level_dependencies"), ("sanitising", PR+"recipe_reader_deps.py:RecipeReaderDeps._sanitize_dep")],
  ["RecipeReaderDeps.get_all_dependencies()", "RecipeReaderDeps.get_package_names_to_path()"])
p("C11", "A build-configuration variable resolves to the first value that applies",
  "The variables of a build-configuration file are its keys that hold a non-empty list (`zip_keys` excepted), and looking one up returns the first listed value whose selector is absent or applies to the query. If no listed value applies the caller's default is returned, or ValueError without one; if the variable does not exist the default is returned, or KeyError without one. Containment and listing agree with which variables can be looked up.",
  ["inputs", "configurations"], "every list of values with every assignment of selectors, every query and default (including None and falsy defaults and values)",
  "Value lists and selector assignments are unbounded; tests read one fixed file.",
  [PR+"cbc_parser.py", PR+"selector_parser.py"],
  [("ordered scan", PR+"cbc_parser.py:CbcParser.get_cbc_variable_value")],
  ["CbcParser.get_cbc_variable_value()", "CbcParser.__contains__()", "CbcParser.list_cbc_variables()"])
p("C12", "bump-recipe writes a consistent recipe or writes nothing",
  "A bump to a new version resets the build number to 0, sets the version (the `version` variable if there is one, else `/package/version`), and sets the hash of every HTTP source of the top-level `/source` to that of an artifact fetched after the version change; a build-number bump without a version adds exactly 1 to an integer build number (a missing one becomes 0, any other is refused) and touches nothing else but the comment of that line. The recipe file is written exactly once and only when every step succeeded; with --dry-run, on any failed patch, failed fetch, unreadable or unparsable recipe nothing is written and the exit status is non-zero for failures. A fetch is tried at most five times, a failed attempt is never hashed, and waits grow with the attempt number.",
  ["fault_sequences", "inputs", "configurations"], "every recipe, every option combination, every sequence of fetch outcomes and patch outcomes",
  "Fault sequences are combinatorial; tests script two or three of them.",
  ["conda_recipe_manager/commands/bump_recipe.py"],
  [("retry loop", "conda_recipe_manager/commands/bump_recipe.py:_get_sha256"), ("exit on failure", "conda_recipe_manager/commands/bump_recipe.py:_exit_on_failed_patch/_exit_on_failed_fetch"), ("write last", "conda_recipe_manager/commands/bump_recipe.py:bump_recipe")],
  ["crm bump-recipe exit status, STDOUT and the recipe file"])
p("C13", "Fetchers expose data only after success and fail only with fetch errors",
  "Source paths, hashes and archive types are available exactly after a fetch has succeeded; before that they raise the fetch-required error. Every failure while downloading, extracting, cloning or checking out surfaces as a fetch error, and a fetcher none of whose fetches succeeded never exposes data. A git source is checked out at its tag if given, else its revision, else its branch, and at the default branch when none is given.",
  ["fault_sequences", "histories", "configurations"], "every combination of targets, every fault at every step, every call order",
  "Faults and orders are combinatorial and need a network; one git test is runnable and it never checks the target.",
  ["conda_recipe_manager/fetcher/base_artifact_fetcher.py", "conda_recipe_manager/fetcher/http_artifact_fetcher.py", "conda_recipe_manager/fetcher/git_artifact_fetcher.py", "conda_recipe_manager/utils/cryptography/hashing.py"],
  [("fetched flag and guard", "conda_recipe_manager/fetcher/base_artifact_fetcher.py:BaseArtifactFetcher._fetch_guard"), ("error wrapping", "conda_recipe_manager/fetcher/http_artifact_fetcher.py:HttpArtifactFetcher.fetch/_extract"), ("checkout target", "conda_recipe_manager/fetcher/git_artifact_fetcher.py:GitArtifactFetcher._resolve_checkout_target/fetch")],
  ["fetch()", "get_path_to_source_code()", "get_archive_sha256()", "get_archive_type()"])
p("C14", "Every supported source of a recipe gets exactly one fetcher, keyed by its path",
  "Building fetchers from a recipe yields, for each source with a single `url`, an HTTP fetcher for that URL and, for each other source with a git location, a git fetcher with that source's branch, tag and revision, keyed by the path at which the source stands (`/source`, or `/source/<index>` for a list). Key names follow the recipe's format. A source of neither kind raises the unsupported error, or is skipped alone when unsupported sources are to be ignored.",
  ["inputs", "configurations"], "every source section: absent, single, list of any length and mix; both formats; both settings",
  "Source lists are unbounded; tests need packages absent here and use four fixed recipes.",
  ["conda_recipe_manager/fetcher/artifact_fetcher.py"],
  [("source loop", "conda_recipe_manager/fetcher/artifact_fetcher.py:from_recipe"), ("key naming", "conda_recipe_manager/fetcher/artifact_fetcher.py:_render_git_key")],
  ["from_recipe()"])
p("C15", "A matched license is always a real SPDX identifier",
  "Looking up a license text returns nothing or an identifier that is in the SPDX database or in the curated correction table. Every exact identifier maps to itself, and a text holding a compound expression (`AND`, `OR`, `WITH` in any case, or a comma) that is not itself an identifier is never reduced to one license.",
  ["inputs"], "every license text",
  "License texts are unbounded; tests sample about a dozen.",
  ["conda_recipe_manager/licenses/spdx_utils.py"],
  [("look-up tables", "conda_recipe_manager/licenses/spdx_utils.py:SpdxUtils.__init__"), ("guards before fuzzy match", "conda_recipe_manager/licenses/spdx_utils.py:SpdxUtils.find_closest_license_match")],
  ["SpdxUtils.find_closest_license_match()"])
p("C16", "Messages are counted and kept in order, and decide a conversion's exit status",
  "After any history, the messages of a category are exactly those added to it since the last clear, in order, their count is their number, and asking about a category never changes the table; the totals text states the true numbers of errors and warnings. Converting a file never raises: an unreadable, unparsable, already-converted, unconvertible or unwritable recipe yields its own failure status and one recorded exception message, and otherwise the status is errors if any error was recorded, else warnings if any, else success.",
  ["histories", "fault_sequences"], "every history of table calls and every outcome of every conversion step",
  "Histories are unbounded and fault points many; tests add a few messages.",
  ["conda_recipe_manager/types.py", "conda_recipe_manager/commands/convert.py"],
  [("message table", "conda_recipe_manager/types.py:MessageTable"), ("status", "conda_recipe_manager/commands/convert.py:ConversionResult.set_return_code/convert_file/_record_unrecoverable_failure")],
  ["MessageTable", "convert_file()"])
p("C17", "Bulk runs count every recipe once and exit by the success rate",
  "In a bulk conversion or a bulk build, every processed recipe is counted as a success or a failure and never both, each histogram entry equals the number of occurrences of that message, and the totals equal the sums over recipes. The exit status is success iff the rounded share of successful recipes reaches the requested minimum rate.",
  ["inputs", "configurations"], "every list of per-recipe results and every threshold",
  "Result lists are unbounded; no test runs a bulk command.",
  ["conda_recipe_manager/commands/convert.py", "conda_recipe_manager/commands/rattler_bulk_build.py"],
  [("statistics loop", "conda_recipe_manager/commands/convert.py:convert/_collect_issue_stats"), ("statistics loop", "conda_recipe_manager/commands/rattler_bulk_build.py:rattler_bulk_build/create_debug_file")],
  ["STDOUT statistics and exit status of `crm convert DIR` and `crm rattler-bulk-build DIR`"])
p("C18", "The recipe graph reflects every recipe's dependencies, first recipe wins",
  "Building a graph from recipes (identified by the hash of their content, so equal recipes are one) records every package of every parsable recipe once, owned by the first recipe that provides it; later providers are reported as duplicates and add no edges. The build graph has exactly the build and host edges and the test graph exactly the run and test edges of the owning recipes, and the statistics satisfy total recipes = parsed + failed and total packages = distinct recorded packages. A recipe whose dependencies cannot be read is reported and contributes nothing, without aborting the others.",
  ["inputs", "fault_sequences"], "every collection of recipes, any duplicates and failures",
  "Collections are unbounded; tests need packages absent here and use one fixed directory.",
  ["conda_recipe_manager/grapher/recipe_graph.py", "conda_recipe_manager/grapher/recipe_graph_from_disk.py", "conda_recipe_manager/grapher/types.py"],
  [("construction loop", "conda_recipe_manager/grapher/recipe_graph.py:RecipeGraph.__init__")],
  ["RecipeGraph.get_package_stats()", "RecipeGraph.contains_package_name()", "the two graphs"])
p("C19", "Dependency scanning reports third-party imports once, in the right section",
  "Scanning Python sources reports every absolute import of a module that is neither standard library nor part of the project (a module at the top of its source directory; relative imports are its own), under its package name, as a run dependency when found in non-test code and otherwise as a test dependency, and never as both; python itself is always a host and run dependency. A file that cannot be scanned is recorded as a message and does not hide the others. Scanning a project file reports exactly its listed dependencies and optional dependencies, and a missing, unreadable or invalid file (a malformed project section included) yields an empty result plus a message.",
  ["inputs", "fault_sequences"], "every set of source files and imports, every project file",
  "Import sets are unbounded; tests scan a few fixture projects.",
  ["conda_recipe_manager/scanner/dependency/py_dep_scanner.py", "conda_recipe_manager/scanner/dependency/pyproject_dep_scanner.py", "conda_recipe_manager/scanner/dependency/base_dep_scanner.py"],
  [("per-file scan", "conda_recipe_manager/scanner/dependency/py_dep_scanner.py:PythonDependencyScanner._scan_one_file"), ("merge and filter", "conda_recipe_manager/scanner/dependency/py_dep_scanner.py:PythonDependencyScanner.scan")],
  ["PythonDependencyScanner.scan()", "PyProjectDependencyScanner.scan()", "get_message_table()"])
p("C20", "Rendering a recipe and reading it again gives the same recipe",
  "For every recipe text the parser accepts, rendering it and parsing the result gives a recipe with the same data, selectors, comments and variables, and rendering again changes nothing.",
  ["inputs"], "every accepted recipe text",
  "Texts are unbounded; tests round-trip a fixed set of files.",
  [PR+"recipe_reader.py", PR+"_utils.py"],
  [("line parser and renderer", PR+"recipe_reader.py:RecipeReader.__init__/_parse_line_node/_render_tree/render")],
  ["RecipeReader(text).render()"])
p("C21", "Converting a recipe to the V1 format preserves its meaning",
  "For every convertible pre-CEP-13 recipe, the converted recipe carries the same package data, dependencies, selectors (as conditions) and variables under their V1 names, or reports a message for what it could not carry over.",
  ["inputs"], "every convertible recipe",
  "Recipes are unbounded; tests compare fixed pairs of files.",
  [PR+"recipe_parser_convert.py"],
  [("upgrade passes", PR+"recipe_parser_convert.py:RecipeParserConvert.render_to_v1_recipe_format")],
  ["RecipeParserConvert.render_to_v1_recipe_format()"])
out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(x) + "\n" for x in P))
for x in P:
    assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
print(len(P))
