"""Writes properties.jsonl. Run by hand after editing; the result is committed."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = "mutagenyx_lib/src/"
P = []


def p(id, title, statement, over, text, why, files, mech, **kw):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    a.update(kw)
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})


MUTS = [L + "solidity/mutators.rs", L + "vyper/mutators.rs"]
HOOK = "private modules are re-exported under cfg(mutagenyx_verif)"
p("C01", "Mutation is confined to the listed functions",
  "When a list of function names is given, a node of the syntax tree is counted and mutated only if it carries one of the listed names or lies beneath a node that does, and every such node remains eligible; with no list every node is eligible. A stored permission grants exactly the requests of its own kind whose scope, name and allow/deny value it covers.",
  ["inputs", "configurations"], "every syntax tree, every list of function names, every stored and requested permission",
  "The tests check a handful of permission pairs and never a tree with nested or repeated names.",
  [L + "permissions.rs", L + "mutation_visitor.rs", L + "json_ast_permitter.rs", L + "json_namer.rs"],
  [("permission matching", L + "permissions.rs"), ("inherited permission while below a listed node", L + "mutation_visitor.rs")], hook_needed=HOOK)
p("C02", "Candidate counting and candidate selection agree",
  "For every syntax tree, algorithm and function list, the number of candidates reported equals the number of eligible nodes the algorithm accepts, and asking for mutation number i applies the algorithm to the i-th of those nodes in document order and reports that index and algorithm; an index past the end mutates nothing. Testing and counting candidates consumes no randomness.",
  ["inputs", "programs"], "every syntax tree, algorithm, function list, candidate index and random seed",
  "The tests never compare the count with what mutation then does.",
  [L + "mutation_visitor.rs", L + "json_ast_language_interface.rs", L + "ast.rs"] + MUTS,
  [("counting visitor and mutating visitor use one acceptance test", L + "mutation_visitor.rs")], hook_needed=HOOK)
p("C03", "A mutant differs from the original only at the selected node",
  "The tree handed in for mutation is never modified, and the mutant equals it everywhere except inside the selected node and for one inserted comment. Inside the selected node everything the algorithm does not replace is kept unchanged.",
  ["inputs", "programs"], "every syntax tree, algorithm, candidate and random seed",
  "The tests print a few whole programs; they compare neither the untouched parts nor the original.",
  MUTS + [L + "json_ast_language_interface.rs", L + "mutation_visitor.rs", L + "ast.rs"],
  [("mutation works on a clone; each algorithm replaces named members only", L + "json_ast_language_interface.rs")], hook_needed=HOOK)
p("C04", "Operator mutations stay in their family and always change the operator",
  "The arithmetic, bitwise, bit-shift, comparison and logical operator algorithms replace an operator of their family by a different operator of the same family and touch nothing else. The Solidity unary algorithm replaces a prefix operator by a different prefix operator and a postfix operator by the other postfix operator.",
  ["inputs"], "every operator node accepted by one of these algorithms, every random choice",
  "A test samples one random choice per operator; the guarantee is about all of them.",
  MUTS + [L + "operators.rs", L + "vyper/operators.rs"],
  [("draw until different", L + "solidity/mutators.rs"), ("operator families", L + "operators.rs")], hook_needed=HOOK)
p("C05", "Swap mutations exchange exactly two elements",
  "Swapping operator arguments exchanges the two operands; swapping function arguments exchanges two different positions of the argument list; swapping lines exchanges two different statements, neither of which is a return statement. All other elements keep their position and content.",
  ["inputs"], "every node accepted by a swap algorithm, every random choice",
  "Tests look at one seed and one shape.",
  MUTS, [("choice of two distinct positions", L + "solidity/mutators.rs"), ("choice of two distinct positions", L + "vyper/mutators.rs")], hook_needed=HOOK)
p("C06", "Statement and call mutations produce exactly the documented change",
  "Deleting a statement turns one statement into a comment or removes it; a function-call mutation replaces the call by one of its own arguments; an if mutation makes the condition true, false or its negation; the require mutation negates the condition; the unchecked-block mutation wraps one statement; eliminating a delegate call turns it into a plain call. The replaced parts themselves are carried over unchanged.",
  ["inputs"], "every node accepted by one of these algorithms, every random choice",
  "Tests compile one mutant of one contract.",
  MUTS, [("mutators", L + "solidity/mutators.rs"), ("mutators", L + "vyper/mutators.rs")], hook_needed=HOOK)
p("C07", "Replacement values lie in the range of the replaced value's type",
  "The assignment algorithm replaces the assigned value by a constant within the range of the declared integer type, or by a boolean for booleans. The integer algorithm replaces an integer literal by its successor, its predecessor or a random integer, for literals of every notation and size.",
  ["inputs"], "every assignment and integer literal accepted, every declared integer width, every random choice",
  "Only a few widths are ever sampled; overflow appears at the extremes.",
  MUTS, [("bounds computed from the declared width", L + "solidity/mutators.rs")], hook_needed=HOOK)
p("C08", "Every candidate can be mutated",
  "An algorithm that accepts a node can mutate it: the mutation neither fails, nor aborts, nor runs forever, whatever the content of the node, and testing any JSON value for acceptance never aborts.",
  ["inputs"], "every JSON value as node, every algorithm, every random choice",
  "Hangs and aborts hide in argument shapes no sample contract has.",
  MUTS + [L + "json.rs"], [("acceptance test guards the mutation", L + "solidity/mutators.rs")], hook_needed=HOOK)
p("C09", "Algorithm names identify algorithms",
  "Every algorithm name that can be printed is parsed back to the same algorithm and no other string is accepted; asking a language for an algorithm yields either an implementation of exactly that algorithm, for every algorithm the language supports, or none. A mutation result names the algorithm that made it.",
  ["inputs", "configurations"], "every string, every algorithm, both languages",
  "Tests try a few names.",
  [L + "mutation.rs"] + MUTS, [("name tables", L + "mutation.rs"), ("factories", L + "solidity/mutators.rs")], hook_needed=HOOK)
p("C10", "Each algorithm accepts exactly the nodes it is meant for",
  "An algorithm accepts a node if and only if the node is of the kind the algorithm mutates and has the parts the mutation needs: an operator of its family, two exchangeable arguments or statements, a wrappable statement, an assignment of a supported type, an integer literal, a call with a usable argument, a require call, a delegate call.",
  ["inputs", "programs"], "every JSON value as node, every algorithm of both languages",
  "Tests contain one positive example per algorithm and hardly any negative ones.",
  MUTS + [L + "operators.rs", L + "vyper/operators.rs"], [("acceptance tests", L + "solidity/mutators.rs"), ("acceptance tests", L + "vyper/mutators.rs")], hook_needed=HOOK)
p("C12", "Settings survive conversion and configuration files mean what they say",
  "Storing a preference at a path of keys makes exactly that value readable at that path and disturbs no other setting, and preferences converted to JSON and back are the same preferences. A configuration file yields exactly the files, algorithms, functions, counts, seed and options it lists and nothing for what it omits, and the settings a run saves make the same run again.",
  ["inputs", "configurations", "histories"], "every tree of preferences, every JSON configuration, every set of options",
  "Tests set and read a few keys; they do not compare whole settings before and after conversion.",
  [L + "preferences.rs", L + "config_file.rs", L + "json.rs"],
  [("typed preference tree", L + "preferences.rs"), ("reading and writing of configuration files", L + "config_file.rs")], hook_needed=HOOK)
p("C16", "Tree traversal visits every permitted node once, in document order",
  "A traversal enters and leaves every reached node exactly once, visits it only with permission, visits children in order between the start and end notifications and only when asked to, and ends at once when a visit asks to stop while still delivering the pending end and exit notifications. The reading and the modifying traversal follow the same protocol.",
  ["inputs", "histories"], "every tree and every sequence of answers of the visitor",
  "Two tests count visits of a four-node tree.",
  [L + "ast.rs", L + "json_ast.rs", L + "visitor.rs"], [("traversal", L + "ast.rs"), ("children of a JSON value", L + "json_ast.rs")], hook_needed=HOOK)
p("C17", "Every mutant carries a comment in front of the mutated statement",
  "A mutation leaves a comment node naming the algorithm directly in front of the statement that holds the mutated node, in the innermost enclosing statement list, or at the top of the mutated block itself; a single-statement body becomes a block holding the comment and that statement. The path recorded for a node lists exactly the identifiers of its ancestors and its own, and looking a node up by identifier finds it wherever it is.",
  ["inputs", "programs"], "every syntax tree, algorithm and candidate",
  "The tests insert into a few hand-written statement lists.",
  [L + "json_comment_inserter.rs", L + "json_comment_helpers.rs", L + "json_finder_helpers.rs", L + "solidity/commenter.rs", L + "solidity/node_finder.rs", L + "vyper/commenter.rs", L + "vyper/node_finder.rs", L + "mutation_visitor.rs", L + "json.rs"] + MUTS,
  [("comment insertion by path", L + "json_comment_inserter.rs"), ("statement lists per node type", L + "solidity/commenter.rs")], hook_needed=HOOK)
p("C18", "Compilers are run with exactly the configured settings",
  "Checking, converting and validating a file runs the configured compiler, or the language's default compiler, with exactly the flags the settings ask for, each in the compiler's own syntax, followed by the flags of the operation and the file. A source is accepted, converted or reported as compiling only if such a run succeeded, and a compiler's version text never aborts the tool.",
  ["inputs", "configurations", "fault_sequences"], "every tree of settings, every file name, every exit status and version text of a compiler",
  "The tests run no compiler.",
  [L + "solidity/language_interface.rs", L + "vyper/language_interface.rs", L + "utility.rs", L + "solidity/compiler_details.rs", L + "vyper/compiler_details.rs"],
  [("flags from settings", L + "solidity/language_interface.rs"), ("pip and docker compilers", L + "vyper/language_interface.rs")], hook_needed=HOOK)
p("C23", "Files are recognised for what they hold",
  "A JSON document is taken for a language's syntax tree exactly when it has that language's identifying members, and a loaded or converted tree is handed on unchanged under that language. A file is recognised as a configuration first, then as source, then as a syntax tree, Solidity before Vyper, and as nothing when none applies; the extension, default compiler and delegate used are those of the recognised language.",
  ["inputs", "fault_sequences"], "every file content, every JSON value, every answer of the compilers",
  "Tests recognise one file of each kind.",
  [L + "recognizer.rs", L + "json_ast_language_interface.rs", L + "language_interface.rs", L + "super_ast.rs", L + "solidity/language_interface.rs", L + "vyper/language_interface.rs"],
  [("identifying members", L + "solidity/language_interface.rs"), ("order of recognition", L + "recognizer.rs")], hook_needed=HOOK)
B = "mutagenyx/src/"
p("C11", "A run makes distinct mutants of the requested kind and no more than asked for",
  "The mutants a run makes of a file are each one mutation by a requested algorithm, no two of them make the same choice for the same candidate by the same algorithm (swapping two things in either order is one choice), and with validation on each of them compiles. There are at most as many as requested, no algorithm makes more than it has candidates, and the run tries for the requested number unless the requested algorithms together have fewer candidates.",
  ["inputs", "configurations", "programs"], "every syntax tree, set of algorithms, function list, requested number, seed and verdict of the compiler",
  "No test runs the generator; the budget and the rejection of repeats show only over a whole run.",
  [B + "mutation_generator.rs", B + "generator_parameters.rs"],
  [("selection of algorithms within the number of candidates", B + "mutation_generator.rs"), ("rejection of observed results and of mutants that do not compile", B + "mutation_generator.rs")])
p("C13", "The same seed gives the same mutants",
  "Running the program again with the same seed, settings and files gives the same mutants in the same order, and a run repeated from its saved configuration does too. Every file is mutated from a generator seeded with the given seed, independently of the files before it.",
  ["inputs", "configurations", "histories"], "every seed, every set of files and settings",
  "A test cannot see the iteration order of a hash table of another process.",
  [B + "mutation_generator.rs", L + "mutation.rs"],
  [("seeding per file", B + "mutation_generator.rs"), ("sorted list of algorithms", B + "mutation_generator.rs")])
p("C19", "Output goes to the named files only",
  "The mutants of a file are written to the output directory under the file's name followed by an underscore, consecutive numbers from 0 and the language's extension; a printed original goes there under the file's own name with that extension, and a saved configuration under the file's stem. With output to the screen nothing is written, and a file name that already ends in the extension gets no second one. Apart from temporary files no other file is created, changed or removed, so an input stays as it is unless the output was directed to its own name.",
  ["inputs", "configurations"], "every file name, output directory, language and number of mutants",
  "The tests write no mutants.",
  [B + "mutation_generator.rs", B + "pretty_printing.rs", L + "json_ast_language_interface.rs", L + "config_file.rs"],
  [("output names", B + "mutation_generator.rs"), ("output names", B + "pretty_printing.rs")])
p("C20", "Every listed file is processed with the settings meant for it",
  "A successful mutation run has mutated every file of the command line and every file named in a listed configuration, each with the command line's settings or those of its own configuration and never those of another file. Pretty-printing prints every file that can be read and reports every one that cannot, whatever happens to the others.",
  ["inputs", "configurations", "fault_sequences"], "every list of files and configurations, each readable or not",
  "Settings leak from one file to the next only in runs over several files.",
  [B + "mutation_generator.rs", B + "pretty_printing.rs", B + "compiler_settings.rs"],
  [("one set of parameters per file", B + "mutation_generator.rs"), ("per-file error handling", B + "pretty_printing.rs")])
p("C21", "The algorithm overview shows every algorithm once with its own description",
  "The short overview shows the name of every algorithm exactly once, in alphabetical order, each followed by its own summary; the long one adds the algorithm's own details, operators and examples where it has them. All texts stand in one column beside the names, and the command finishes on a terminal of any width, also one that reports none.",
  ["configurations", "inputs"], "every terminal width, reported or not, and both forms of the overview",
  "No test runs the command; a narrow or unsized terminal is never sampled.",
  [B + "mutations_info.rs", L + "mutation.rs", L + "pretty_printer.rs"],
  [("overview", B + "mutations_info.rs"), ("descriptions", L + "mutation.rs")])
PP = L + "pretty_printer.rs"
p("C14", "Printed tokens stay whole and in order on a page of the given width",
  "Every token handed to the printer appears in the output whole, in order and with nothing but the requested spaces and line breaks between tokens; a line is broken only in front of a token or space that would pass the page width, and continues at the current indentation. Indentation moves by whole steps and never below zero or so far that a line has no room, and row and column always tell where the next character goes.",
  ["inputs", "histories", "configurations"], "every page and tab width, every sequence of printing operations and every token text, including multi-byte characters",
  "The tests only exercise the indentation counter.",
  [PP], [("token layout", PP), ("indentation bounds", PP)])
p("C15", "Flowable text keeps its words and wraps at the page width",
  "Printing a text that may be wrapped writes exactly its words in order, never splits a word, and starts each continuation line with the indentation and the given leader; it always finishes without a panic, whatever the text, the leader, the page width (of at least one column) and the column it starts in. A line passes the page width only when it holds a single word that does not fit on a line of its own, and a line is broken only where the next word no longer fits.",
  ["inputs", "configurations"], "every text, leader text, page width, indentation and starting column",
  "Termination and the absence of a panic depend on byte positions, page width and starting column together.",
  [PP, L + "string.rs"], [("choice of the break", PP), ("removal of double spaces", L + "string.rs")])
NP = [L + "node_printer.rs", L + "node_printer_helpers.rs", L + "pretty_print_visitor.rs"]
p("C24", "A printed Vyper program spells out its syntax tree",
  "The Vyper source printed for a syntax tree spells out every node of it by its kind, each statement on a line of its own at the indentation of its block, operators between their operands in order, nested operands in parentheses, string texts escaped and integers of up to 64 bits exact; nothing is dropped, repeated or added, apart from line breaks where a line reaches the page width. Optional parts (decorators, defaults, annotations, return types, messages, keyword arguments, else branches, documentation) appear exactly where the tree has them, and a deleted statement or an inserted remark appears as a comment that takes no code with it.",
  ["inputs", "configurations"], "every syntax tree of the kinds of node the printer knows, and every page width, starting column and indentation",
  "What is printed depends on the kind, the optional members and the nesting of every node; the tests print a few nodes only.",
  [L + "vyper/pretty_printer.rs", L + "vyper/operators.rs"] + NP, [("printer by kind of node", L + "vyper/pretty_printer.rs"), ("operator names", L + "vyper/operators.rs"), ("printing of children and lists", NP[1])])
p("C25", "A printed Solidity program spells out its syntax tree",
  "The Solidity source printed for a syntax tree spells out every node of it by its kind, inline assembly included: declarations with all their attributes, statements in order with their separators and at the indentation of their block, operands in order and in parentheses where precedence would regroup them, string literals escaped so that they keep their value; nothing is dropped, repeated or added, apart from line breaks where a line reaches the page width. Optional parts (visibility, mutability, storage location, modifiers, overrides, results, else branches, initial values, named arguments, documentation) appear exactly where the tree has them, and a deleted statement or an inserted remark appears as a comment that takes no code with it.",
  ["inputs", "configurations"], "every syntax tree of the kinds of node the printer knows, and every page width, starting column and indentation",
  "What is printed depends on the kind, the optional members and the nesting of every node; the tests print a few nodes only.",
  [L + "solidity/pretty_printer.rs"] + NP, [("printer by kind of node", L + "solidity/pretty_printer.rs"), ("printing of children and lists", NP[1])])
P.sort(key=lambda x: x["id"])
open(os.path.join(V, "properties.jsonl"), "w").write("".join(json.dumps(x) + "\n" for x in P))
