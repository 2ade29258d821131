"""Which contracts and which bounded oracle decide each property."""
TRUSTED_BASE = [
    "pyvc: the symbolic executor in /verif/pyvc (semantics of the Python subset, heap model, theory axioms)",
    "Z3 5.3.2 and cvc5 1.1.2",
    "CPython 3.12 compiles the same source text that pyvc reads with inspect/ast",
]
ASSUMPTIONS = [
    "arguments have the types of their annotations (or of the contract where it narrows them)",
    "no other thread runs, memory and the recursion limit are not exhausted",
]
PROPS = {
    "C01": dict(contracts=["platforms", "selectors"], oracle=["basics:c01"], shards=4,
                note="proved for every token sequence that is an expression, from the text of a selector to the set it selects: tokens, precedence (shunting-yard against a left-to-right reading of the tokens), tree construction, evaluation, application to a query, and the platform tables; bounded: whole selectors against Python's own evaluation"),
    "C02": dict(contracts=["tree", "paths", "visits"], oracle=["basics:c02"], shards=4,
                note="proved for all trees and paths: path resolution, index maps, path text in both directions, joining, the walk over all nodes with their paths, and every query that lists or reads paths, over a trusted YAML reader and renderer; whole recipes bounded"),
    "C03": dict(contracts=["tree", "patchops"], oracle=["patches:c03"], shards=8,
                note="target location and the exact effect of remove, replace, add and copy on the tree proved for all trees, paths and values, over a trusted value-to-nodes generator; move and the rendered text bounded against an RFC 6902 oracle"),
    "C04": dict(contracts=["tree", "patchops"], oracle=["edits:c04"], shards=8,
                note="proved: a failed or rejected patch leaves tree, flag and index as they were, test changes nothing and compares the value at the path; move's own restoration and rendering bounded"),
    "C05": dict(contracts=["tree", "variables", "patchops", "visits"], oracle=["edits:c05"], shards=8, note="proved for patches and variable edits: the flag is set by every successful edit and by nothing else, and the index is rebuilt from the tree after the edit; the index builder makes exactly the index of the tree, and the selector queries answer from it; selector/comment edits bounded here (C06)"),
    "C06": dict(contracts=["comments"], oracle=["edits:c06"], shards=4, note="selector and comment edits change exactly the comment of the addressed line, to the specified text, or raise and change nothing; proved over the selector pattern as a function of the text; rendered files bounded"),
    "C07": dict(contracts=["tree", "variables", "paths", "visits"], oracle=["edits:c07"], shards=6, note="every value, path, variable, selector, comment and search query proved to change nothing and to be a function of the recipe, results being objects of their own, over a trusted YAML reader and renderer; rendering and query sequences bounded"),
    "C08": dict(contracts=["variables"], oracle=["edits:c08"], shards=4, note="variable queries and edits proved against an insertion-ordered map; rendering of set lines bounded"),
    "C09": dict(contracts=["depedit"], oracle=["deps:c09"], shards=4, note="adding and removing a dependency proved for every mode, list, path and selector over trusted patches (C03) and selector edits (C06), seen as a log of edits; section names, path check and name comparison proved; whole recipes bounded"),
    "C10": dict(contracts=["deps"], oracle=["deps:c10"], shards=4, note="the whole dependency map proved for every recipe over trusted queries of the recipe (C02, C06): package names, requirement positions, blanks, selectors and the top-level merge; whole recipes bounded"),
    "C11": dict(contracts=["cbc"], oracle=["basics:c11"], shards=4, note="building the variable table, containment, listing, selector application and look-up proved for all documents and queries over a trusted document reader and selector evaluation (C01, C02, C06); whole files bounded"),
    "C12": dict(contracts=["bump"], oracle=["commands:c12"], shards=4, note="the command, every step of it, retries, hashing and the thread pool's results proved over trusted edits and queries of the recipe (C03, C08); whole runs on generated recipes with failing downloads and patches bounded"),
    "C13": dict(contracts=["fetchers"], oracle=["fetch:c13"], shards=4, note="fetch, extraction, clone, checkout and every accessor proved over models in which each network, archive, file and git call may fail in its documented ways; faults injected into real archives and repositories bounded"),
    "C14": dict(contracts=["fetchers"], oracle=["fetch:c14"], shards=4, note="from_recipe, its key names and the fetcher constructors proved for every source section; reading the section out of a recipe is trusted here and bounded"),
    "C15": dict(contracts=["spdx"], oracle=["licenses:c15"], shards=2, note="building the tables and every look-up proved for all databases with an identifier and a name per entry, over difflib returning some of its candidates; the real database bounded"),
    "C16": dict(contracts=["messages", "convert"], oracle=["commands:c16"], shards=4, note="message table and convert_file's status, message and write-once behaviour proved over trusted conversion steps; whole conversions of faulty recipes bounded"),
    "C17": dict(contracts=["convert", "bulk"], oracle=["commands:c17"], shards=4, note="statistics of a bulk conversion and the bulk-build loop (counts, success rate, exit status) proved; command line runs bounded"),
    "C18": dict(contracts=["graph"], oracle=["graphs:c18"], shards=4, note="building the graph, its statistics, its queries and reading recipes from disk proved over a trusted dependency listing (C10) and a model of networkx graphs and process pools; recipes on disk and in memory bounded"),
    "C19": dict(contracts=["scanner"], oracle=["scan:c19"], shards=4, note="both scanners proved for all files, syntax trees and project files over models of ast.walk, pkgutil, tomllib and the file system; real files and faults bounded"),
}
NOT_APPLICABLE = {
    "C20": "the line parser and renderer are driven by regular expressions, PyYAML and indentation of arbitrary text; no contract within the verifier's reach relates the text to the tree it stands for, and stating one would amount to a second parser",
    "C21": "the meaning of a recipe under two formats, and which upgrade carries it over, is only defined by the conversion code itself; there is no independent specification a contract could state",
}
