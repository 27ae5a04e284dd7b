prop("C08", "Optimizer and output options never change behaviour",
     "For every program, compiling it with any combination of optimizer, "
     "inlining limit, file-name, folder, scoreboard, tag, init-splitting, "
     "debug-comment and game-version options yields functions with the same "
     "observable effects: same scores, messages and entities after every "
     "run.",
     ["programs", "inputs", "configurations"],
     "all corpus programs plus all branches whose actions invalidate the "
     "tested condition, times configurations, times start states",
     T_FEW + "one fixed file graph is dumped, its effects are never compared.",
     [G + "optimizer.py", G + "cmds.py", "acaciamc/compiler.py"],
     [("function inliner", G + "optimizer.py opt_function_inliner"),
      ("dead code removal", G + "optimizer.py opt_dead_functions"),
      ("file layout", "acaciamc/compiler.py OutputManager")],
     ["scores after running the generated functions in each configuration"],
     note="bounded corpora; 5 (quick) / 7 (thorough) configurations")
prop("C11", "Structures are values with independent fields",
     "Assigning, passing, returning, constructing, referencing and swapping "
     "structures (with inherited and nested structure fields) changes "
     "exactly the fields the operation says, each to the value its source "
     "had before the operation; a copy never shares fields with its source "
     "and a reference always does. Mismatched structure types and unknown "
     "fields are rejected.",
     ["programs", "inputs"],
     "all statement sequences of bounded length over a set of structure "
     "variables, nested fields, constructors and functions, times inputs",
     T_FEW + "aliasing between the source and target of a copy is not "
     "sampled.",
     [O + "struct.py", O + "struct_template.py", G + "generator.py"],
     [("field-wise export", O + "struct.py export"),
      ("temporary structures", O + "struct_template.py")],
     ["scores after running the generated functions", "compile errors"],
     note="bounded statement sequences over a fixed family of structures")
prop("C10", "Compile-time lists, maps, strings and for loops follow their meaning",
     "Every list, map, string and float operation on constants gives the "
     "value its definition says, in constant definitions as well as inside "
     "const functions that build and change lists and maps step by step; "
     "out-of-range and missing-key accesses are rejected. A for loop runs "
     "its body once per element, in order, with fresh local names.",
     ["programs", "histories", "inputs"],
     "all constructor and method expressions of a bounded grammar, all "
     "histories of mutating operations to a depth and from every reachable "
     "container state, all bounded loop bodies times inputs",
     T_FEW + "list and map histories are not sampled at all.",
     [O + "list_.py", O + "map_.py", O + "string.py", O + "float_.py",
      G + "ctexecuter.py", G + "generator.py"],
     [("list methods", O + "list_.py"), ("map methods", O + "map_.py"),
      ("loop unrolling", G + "generator.py visit_For")],
     ["scores after running the generated functions", "compile errors"],
     technique="explicit-state model checking: breadth-first exploration of "
     "all histories of container operations and all expressions of a bounded "
     "grammar; each is compiled by the real compiler and its published "
     "result compared with a reference model",
     note="bounded nesting and history length")
prop("C12", "Entity variables are references to entities with their own fields",
     "Constructing an entity creates exactly one entity with the described "
     "type, name, place and field values; an entity variable names one "
     "entity until reassigned, so that assignment, swapping, passing and "
     "returning change which entity is named and never its fields, and a "
     "field written through one name is what every other name of that "
     "entity reads. Every entity has its own fields, at whatever level of "
     "inheritance they are declared.",
     ["programs", "inputs", "histories"],
     "all statement sequences of bounded length over four entity variables "
     "(under every aliasing), their inherited and structure fields, "
     "methods, constructors and functions, activated repeatedly in one "
     "world",
     T_FEW + "no existing test runs an entity program at all.",
     [O + "entity.py", O + "entity_template.py", O + "functions.py",
      G + "generator.py", G + "cmds.py"],
     [("entity export and tags", O + "entity.py"),
      ("constructors", O + "entity_template.py"),
      ("methods", O + "functions.py BoundMethod")],
     ["scores and set of entities after running the generated functions"],
     note="bounded statement sequences over a fixed family of templates")
prop("C13", "Method calls run the implementation the class hierarchy selects",
     "A call of a virtual method runs the implementation of the template the "
     "entity was created from, whatever variable it is called through; a "
     "plain or static method is selected by the declared template, an upcast "
     "by the template cast to, and with several bases by the linearised "
     "order. It runs exactly once, on exactly that entity, with the given "
     "arguments, and its result is the value of the call; hierarchies that "
     "break the overriding rules, and only those, are rejected.",
     ["programs", "inputs", "class hierarchies"],
     "all assignments of {no method, plain, virtual, override, static} x "
     "{normal, inline} to the templates of ten inheritance graphs, and all "
     "bounded statement sequences of calls over a fixed hierarchy, times "
     "inputs that choose the dynamic template at run time",
     T_FEW + "no existing test runs a method call; the rules concern "
     "combinations of several templates.",
     [O + "entity_template.py", O + "functions.py", G + "generator.py"],
     [("method tables and linearisation", O + "entity_template.py"),
      ("run-time dispatch", O + "functions.py BoundVirtualMethod")],
     ["scores after running the generated functions", "compile errors"],
     note="ten inheritance graphs of at most five templates")

prop("C14", "Entity groups behave as finite sets of entities",
     "A group holds exactly the entities that the operations applied to it "
     "put there: add, remove, extend, subtract, intersect, select, drop, "
     "filter, clear, copying and assignment act on it as the corresponding "
     "set operations and change no other group. Size, emptiness, membership "
     "and conversion to a single entity report that set, and iterating runs "
     "the body exactly once for each member, with the loop variable naming "
     "it.",
     ["programs", "inputs", "histories"],
     "all sequences of at most two of about 130 group statements over three "
     "groups, from every pair of initial subsets of a three-entity world "
     "that also contains unmanaged entities",
     T_FEW + "no existing test runs a group operation.",
     [O + "entity_group.py", O + "entity_filter.py",
      "acaciamc/mccmdgen/mcselector.py", G + "generator.py"],
     [("group operations", O + "entity_group.py"),
      ("iteration", G + "generator.py For")],
     ["membership of every entity in every group after running"],
     note="three managed entities, three groups, bounded sequences")

prop("C15", "Entity filters select what their steps, applied in order, leave",
     "A filter is a pipeline: every step keeps, of the entities the previous "
     "steps left, exactly those it describes (by tag, type, name, place, "
     "rotation, item, score, level, game mode, permission), or the nearest, "
     "farthest or randomly chosen ones up to its limit. This holds wherever "
     "a filter is used (selecting from the world, from a group, testing one "
     "entity), each time it is used, and using it leaves no trace that "
     "changes a later use.",
     ["programs", "worlds", "random choices", "histories"],
     "all pipelines of at most two of 54 filter steps and of three of a "
     "core, in seven places that take a filter, over a sequence of two "
     "worlds of six entities, with every outcome of random selection",
     T_FEW + "no existing test uses a filter, and none could cover the "
     "combinations of steps that share or split a selector.",
     [O + "entity_filter.py", "acaciamc/mccmdgen/mcselector.py",
      O + "entity_group.py", "acaciamc/modules/world.py"],
     [("merging steps into selectors", O + "entity_filter.py"),
      ("selector text", "acaciamc/mccmdgen/mcselector.py")],
     ["set of entities selected, for every resolution of randomness"],
     note="six entities, pipelines of at most three (quick) or four steps")

prop("C16", "Modules: found, run once per import order, and exporting what they say",
     "An import finds the module its dotted name denotes (relative to the "
     "main directory, builtin modules first), runs the module's code at the "
     "place the import is first executed and not again at later imports, "
     "and makes exactly the module's own public names available, in each of "
     "the import forms (whole, renamed, selected names, everything). Two "
     "importers of one module share its state; names that are imported, or "
     "start with an underscore, are not passed on. A missing module or name "
     "and a circular import are reported errors.",
     ["programs", "histories", "configurations"],
     "all import statements of every form, in every order up to the bound, "
     "over a project of modules that import each other (packages, relative "
     "names, binary modules, circular ones)",
     T_FEW + "one test imports one module.",
     ["acaciamc/compiler.py", "acaciamc/objects/module.py", G + "generator.py"],
     [("module search", "acaciamc/compiler.py find_module"),
      ("import forms", G + "generator.py visit_Import")],
     ["run-time trace of module bodies, values seen by importers, "
      "reported errors"],
     note="bounded projects; see DESIGN.md")

prop("C09", "The output depends on nothing but the project and the configuration",
     "Compiling the same files under the same configuration produces the "
     "same output files byte for byte, or reports the same error at the same "
     "place: whatever the order in which sets are iterated or directories "
     "listed, wherever the project lies, whatever was compiled before in the "
     "same process, whenever, from whichever directory and by whom it is "
     "run.",
     ["programs", "schedules", "histories", "environments"],
     "all single deviations in the order of every set iteration, directory "
     "listing and address, for a corpus of programs of every language "
     "feature; all ordered pairs of compilations in one process; changed "
     "surroundings",
     "A test compiles once; set order follows object addresses, which rarely "
     "differ between runs on one machine. ",
     [G + "optimizer.py", "acaciamc/compiler.py", G + "generator.py",
      G + "ctexecuter.py", O + "entity_template.py"],
     [("file order", G + "optimizer.py opt_dead_functions"),
      ("module search", "acaciamc/compiler.py find_module")],
     ["bytes of all output files", "error type, text and place"],
     note="deviations one at a time or all at once")

prop("C17", "Interfaces and the shape of the output",
     "Each interface is written to the function its path names and nowhere "
     "else, contains just its body, and can be called again and again after "
     "the main function (and the init function, if split) has run. Paths "
     "that are empty, malformed, reserved, leave the output folder or name "
     "an existing interface are rejected where they are written. The output "
     "consists of exactly the main, init, interface and tick functions plus "
     "internal ones in the internal folder; every function called exists; "
     "tick.json names the tick function just when there is one; "
     "initialisation commands are in the init function, or in main.",
     ["programs", "paths", "configurations", "histories"],
     "all paths of at most three (four) tokens; all pairs (triples) of "
     "interfaces over related paths and places; the product of the layout "
     "options over programs with every subset of output features",
     T_FEW + "tests use the default layout.",
     ["acaciamc/compiler.py", G + "generator.py", "acaciamc/tokenizer.py",
      G + "optimizer.py", G + "cmds.py"],
     [("path rules", G + "generator.py visit_InterfaceDef"),
      ("files", "acaciamc/compiler.py OutputManager, output"),
      ("path token", "acaciamc/tokenizer.py handle_interface_path")],
     ["set and contents of the output files", "values computed by them",
      "reported errors"],
     note="distinct names for main, init and the internal folder")

prop("C18", "Commands are well formed, closed and carry texts unchanged",
     "Every line of every output file is one well-formed command for the "
     "configured game version and edition; every function it runs exists in "
     "the output and every scoreboard objective the compiler uses is "
     "created by it. A text that the program passes to a language or "
     "library feature (names, tags, objectives, score holders, messages, "
     "raw commands, print texts) arrives in the command exactly as written, "
     "quoted and escaped as its place requires, and cannot change the rest "
     "of the command or the other commands; a text that cannot be expressed "
     "there is rejected with an error at its place.",
     ["programs", "texts", "configurations", "versions"],
     "every text of length at most two (four, over a core) over 42 special "
     "characters in each of 38 places that take text; the programs of all "
     "other checks under 7 layouts and 7 game versions",
     T_FEW + "existing tests look at a few outputs only, and special "
     "characters appear in none of them.",
     [G + "cmds.py", "acaciamc/mccmdgen/mcselector.py", G + "generator.py",
      "acaciamc/modules/world.py", "acaciamc/modules/print.py"],
     [("quoting", G + "cmds.py mc_str / check_line"),
      ("rawtext", "acaciamc/modules/print.py"),
      ("raw commands", G + "generator.py visit_Command")],
     ["text of every command, decoded by an independent reader"],
     note="identifiers of the game and the tag prefix are passed on as written")

prop("C19", "Every source text is read as the tokens the language prescribes",
     "For every source text, in every game version, the tokenizer delivers "
     "exactly the tokens the lexical rules prescribe, with their values and "
     "places: names, keywords, numbers of all bases, operators (longest "
     "first), brackets with free line breaks inside, indentation, line "
     "continuation, both kinds of comments, commands of one or several "
     "lines, strings with escapes, font codes and nested ${} expressions, "
     "interface paths. A text with a lexical error is refused with the "
     "right error at the right place; no text crashes or hangs it.",
     ["source texts", "versions"],
     "all texts of at most 3 to 6 (quick) or 4 to 7 (thorough) symbols over "
     "17 alphabets of characters and fragments, each aimed at one part of "
     "the lexical grammar",
     T_FEW + "lexical states (string in an expression in a command, comment "
     "over an indentation) combine freely.",
     ["acaciamc/tokenizer.py", "acaciamc/constants.py"],
     [("all", "acaciamc/tokenizer.py parse_line")],
     ["kinds, values and places of tokens; kind and place of the error"],
     note="texts up to the length bounds over the listed alphabets")

prop("C20", "Every program has the structure its grammar prescribes",
     "A sequence of tokens is accepted just when the grammar derives it, and "
     "is given exactly the tree the grammar prescribes: precedence and "
     "associativity of operators, chains of comparisons, calls, attributes "
     "and subscripts, string pieces, statement kinds, nesting of blocks and "
     "else branches, parameters and their qualifiers, members of entities "
     "and structs, imports. The first token that cannot continue any "
     "program is the one reported. Rules beyond the grammar (argument "
     "order, repeated names, defaults, one new method) are enforced.",
     ["token sequences"],
     "every beginning of a program of at most 4 to 8 (quick) or 6 to 10 "
     "tokens over 24 alphabets, completed in a shortest way, and every "
     "token tried after it",
     T_FEW + "test programs hold each construct in one surrounding.",
     ["acaciamc/parser.py", "acaciamc/ast.py"],
     [("all", "acaciamc/parser.py Parser")],
     ["tree of each program; kind and place of the syntax error"],
     note="token sequences up to the depth bounds over the listed alphabets")

prop("C21", "Every program is compiled or refused with a located error",
     "For every project, well formed or not, the compiler ends, and either "
     "produces its output or reports exactly one error with a complete text "
     "whose file, line and column lie in the sources of the project, at or "
     "after the statement at fault (or at a call that leads to it), also "
     "when the fault is in an imported module, in a function that is "
     "expanded or run at compile time, or in a virtual method dispatched "
     "after the sources were read. Endless expansion of functions that "
     "call themselves, deep nesting and huge literals are refused, not "
     "crashed upon.",
     ["programs", "places", "modules"],
     "every kind of value in every place that takes a value, pairs of them "
     "in places for two, each parameter of the library functions with every "
     "kind of value, each statement in each compound statement up to depth "
     "2, faults in modules behind each kind of call, recursion and mutual "
     "recursion of all kinds of functions, nesting up to depth 1000",
     T_FEW + "a crash needs a value of one kind where another was expected.",
     ["acaciamc/mccmdgen/generator.py", "acaciamc/mccmdgen/ctexecuter.py",
      "acaciamc/objects/", "acaciamc/error.py"],
     [("all", "acaciamc/compiler.py Compiler")],
     ["outcome of each compilation: output, or kind, text and place of the "
      "error"],
     note="endless loops of const functions (`while True`) are the "
     "program's own and excluded")

prop("C22", "The command line changes only its output, as its options say",
     "For every history of runs of the command line, every option and every "
     "failing operation of the file system: only files of the output "
     "directory ever change; a run that is refused (bad option, bad "
     "program) changes nothing that was there, also with -u; a run that "
     "succeeds leaves just the files of a fresh compilation under the given "
     "options, over the old files or, with -u, in place of all in the root "
     "folder, and nothing else; the exit code is 0 just in that case, "
     "otherwise there is a message and no traceback.",
     ["histories", "options", "crash points"],
     "all runs of 15 programs over 11 output places, old trees and options; "
     "all histories of 2 and many of 3 runs; every operation on the file "
     "system failing once; a full disk after every n-th byte",
     T_FEW + "the tests never run the command line.",
     ["acaciamc/cli.py", "acaciamc/compiler.py"],
     [("all", "acaciamc/cli.py run"), ("all", "acaciamc/compiler.py output")],
     ["tree of files after each run; exit code; standard error"],
     note="sources inside of the output directory and a failing -u run "
     "after the old output was removed are not judged")

prop("C23", "Tasks and loops run at exactly the ticks they were asked for",
     "For every program of schedule.Task and schedule.register_loop and "
     "every history of ticks, requests, cancellations, changes of variables "
     "and restarts: a task runs its function with its arguments exactly "
     "`delay` ticks after the last request that was not cancelled (the next "
     "tick serves delay 0), and never otherwise; has_schedule tells whether "
     "a request is open; a loop runs every `interval` ticks, the interval "
     "being read when it runs; areas that are waited for run the function "
     "when they arrive, once per request.",
     ["schedules", "histories"],
     "all reachable states of programs of up to 3 tasks and loops over 40 "
     "targets and 13 intervals, under every operation in every state",
     T_FEW + "the tests only compile a file that uses schedule.",
     ["acaciamc/modules/schedule.py", "acaciamc/compiler.py"],
     [("all", "acaciamc/modules/schedule.py Task"),
      ("all", "acaciamc/modules/schedule.py register_loop")],
     ["actions, scores, has_schedule and _timer after each operation"],
     note="tasks and loops registered where control flow may not reach "
     "them are not judged")

prop("C24", "Text printed is the text, values, fonts and options asked for",
     "For every format pattern, every combination of values and texts and "
     "every nesting of fonts: what print.tell and print.title show is the "
     "pattern with its arguments' values at that moment, in order, each "
     "character in the font of the innermost with_font around it; sums, "
     "nested formats and texts kept in constants, lists and arguments show "
     "the same as direct ones; titles show to the target players in the "
     "mode and with the times asked for, which are reset afterwards; "
     "malformed patterns and values without a text are refused.",
     ["inputs", "compositions"],
     "all patterns up to length 4 over 9 characters; all pairs of 44 kinds "
     "of values in 16 combinations; all trees of up to 3 fonts and 3 texts; "
     "all options",
     T_FEW + "the tests compare a few commands as text.",
     ["acaciamc/modules/print.py", "acaciamc/mccmdgen/cmds.py",
      "acaciamc/objects/integer.py", "acaciamc/objects/boolean.py"],
     [("all", "acaciamc/modules/print.py"),
      ("values", "acaciamc/objects/integer.py _int_rawtextify")],
     ["text, receivers and styles shown by every command"],
     note="values that change between the making of a text and its showing "
     "are not judged")

prop("C25", "The math functions compute what they document, for every value",
     "For all 32-bit values and all forms of operands: min, max, pow, mod "
     "and floordiv give the documented value (wrapped to 32 bits for pow), "
     "the same whether operands are literals, constants or run-time values "
     "and wherever the result goes, also into the operands themselves; "
     "literal results beyond 32 bits, division by a literal 0 and negative "
     "literal exponents are refused; randint gives every number of its "
     "range and no other, one choice per evaluation.",
     ["inputs", "compositions"],
     "all pairs of 29 boundary values for every function and form; all "
     "expressions of depth 2 over 14 operations; all outcomes of randint",
     T_FEW + "the tests check a handful of small numbers.",
     ["acaciamc/modules/math.py", "acaciamc/modules/_math.aca",
      "acaciamc/objects/integer.py"],
     [("all", "acaciamc/modules/math.py"),
      ("run time", "acaciamc/modules/_math.aca")],
     ["the score the result is stored in"],
     note="run-time pow with a negative exponent and division by zero are "
     "documented as undefined and not judged")

prop("C26", "Positions, rotations and offsets denote the places they describe",
     "For every expression built from Pos, Rot, Offset and AbsPos and any "
     "chain of their operations, a command using it acts at exactly the "
     "described place, dimension and rotation, evaluated when the command "
     "runs: whole x and z coordinates are block centres, relative ones add, "
     "local ones follow the given rotation from the given anchor, alignment "
     "rounds down on the named axes only. Operations never change the value "
     "they start from, however it is carried (constants, parameters, lists, "
     "self). Numbers of any size are written as commands read them. "
     "Unknown anchors or axes, contradictory or non-literal coordinates are "
     "refused.",
     ["compositions"],
     "all chains of 2 (thorough 3, and 4 over one operation of each kind) of "
     "25 position operations on 7 bases; of 2 (3) of 10 rotation operations "
     "on 8 bases; all 125 ways of giving an Offset x 64 changes",
     T_FEW + "the tests compare a few expressions as text.",
     ["acaciamc/objects/position.py", "acaciamc/objects/position_offset.py",
      "acaciamc/objects/position_absolute.py",
      "acaciamc/objects/rotation.py"],
     [("positions", "acaciamc/objects/position.py Position"),
      ("offsets", "acaciamc/objects/position_offset.py PosOffset"),
      ("rotations", "acaciamc/objects/rotation.py Rotation"),
      ("writing numbers", "acaciamc/mccmdgen/cmds.py mc_float")],
     ["the place, dimension and rotation every command acts with"],
     note="the first argument of Rot is the one the rotated subcommand reads "
     "first (as the demos use it)")

prop("C27", "Every function of the world module does what it documents",
     "For every function of the world module and every combination of its "
     "arguments (optional ones left out or given, by position or by name), "
     "the commands run act on exactly the given entities, places, blocks "
     "(with states), items (with data and components), numbers and texts, "
     "in the syntax of the game version compiled for; player functions act "
     "on players only; functions that answer a question give the answer in "
     "every kind of condition. Unsuitable values, missing, repeated or "
     "unknown arguments, out-of-range numbers, and functions the version or "
     "edition lacks are refused.",
     ["inputs"],
     "44 functions x all combinations of small argument domains (about "
     "12000 calls) under up to 5 configurations; every argument replaced by "
     "every unsuitable value",
     T_FEW + "the tests compare one call of some functions as text.",
     ["acaciamc/modules/world.py", "acaciamc/tools/axe.py",
      "acaciamc/tools/versionlib.py"],
     [("all", "acaciamc/modules/world.py"),
      ("arguments", "acaciamc/tools/axe.py"),
      ("player selectors", "acaciamc/mccmdgen/mcselector.py player_type")],
     ["the decoded commands", "the entities and blocks afterwards"],
     note="names that the game would reject (unknown blocks, events, ...) "
     "are passed on")

prop("C28", "Every name means the definition that its place prescribes",
     "In every arrangement of variable, constant, alias, function, inline "
     "function, module and structure definitions, assignments, reads, calls "
     "and blocks, each name stands for the definition in the innermost "
     "enclosing scope made before it (an inline function looks names up in "
     "the scope of its definition, at the time of the call), builtins come "
     "last; every read gives the value of that very definition and every "
     "write goes to it alone, so that equal names in different scopes never "
     "share storage. A second definition in one scope, an undefined name, "
     "and a use its definition does not allow are refused, with that error "
     "at that statement.",
     ["inputs"],
     "all programs of up to 3 statements of 17 kinds over two names (one a "
     "builtin or not) and all of up to 4 of 7 to 10 kinds, with every "
     "nesting",
     T_FEW + "the tests have a handful of arrangements.",
     ["acaciamc/mccmdgen/symbol.py", "acaciamc/mccmdgen/generator.py"],
     [("symbol table", "acaciamc/mccmdgen/symbol.py"),
      ("register_symbol", "acaciamc/mccmdgen/generator.py"),
      ("visit_InlineFuncDef", "acaciamc/mccmdgen/generator.py")],
     ["the scores read at every place of the program",
      "error type and line"])

prop("C29", "Values are accepted exactly where their kind allows",
     "Every kind of value (literals, variables, fields, results, constants, "
     "positions, entities, groups, structures, functions, templates, types, "
     "modules, ...) is accepted in a place exactly if the rules of the place "
     "allow it: only storable kinds are stored, passed by value and "
     "returned; only constants become constants, list elements, defaults "
     "and const arguments; only assignable values are assigned, modified and "
     "referenced; only bools are conditions and operands of and/or/not; "
     "operators take the pairs of kinds they are defined for; only what can "
     "be called, subscripted, iterated, formatted, extended or named as a "
     "type is; and an annotated variable, parameter, result or field takes "
     "exactly the values of its type and of its subtypes. Anything else is "
     "refused with the error for a rule that it breaks, never with a crash "
     "or malformed output.",
     ["inputs"],
     "51 kinds of value in 48 places; against 26 types in 20 places; all "
     "pairs around 54 operators and assignments",
     T_FEW + "the tests have few refused programs.",
     ["acaciamc/mccmdgen/generator.py", "acaciamc/mccmdgen/datatype.py",
      "acaciamc/mccmdgen/expr.py", "acaciamc/objects/functions.py",
      "acaciamc/objects/*.py"],
     [("data types", "acaciamc/mccmdgen/datatype.py"),
      ("AcaciaArgHandler", "acaciamc/objects/functions.py"),
      ("visit_*", "acaciamc/mccmdgen/generator.py")],
     ["acceptance", "error type", "well-formed output"])

prop("C30", "Inconsistent templates and misplaced self, new, result are refused",
     "In every hierarchy of entity templates: bases without a linear order, "
     "a field defined twice, a field and a method of one name, simple, "
     "static and virtual methods of one name mixed, a virtual method "
     "introduced twice, a virtual method redefined without override, "
     "override of nothing, and an override whose result is not storable or "
     "not what the first definition promises are refused, at the template "
     "that is wrong and for such a reason; so are structures that get a "
     "field twice. Every other hierarchy is accepted and its members are "
     "usable. self, new and result are accepted exactly within instance "
     "methods, constructors and functions, whatever blocks they are in.",
     ["inputs"],
     "15 shapes of up to 5 templates with every assignment of 19 kinds of "
     "member; structures; 10 statements in 12 bodies under up to 3 blocks",
     T_FEW + "no test defines a refused hierarchy.",
     ["acaciamc/objects/entity_template.py",
      "acaciamc/objects/struct_template.py",
      "acaciamc/mccmdgen/generator.py"],
     [("EntityTemplate.__init__", "acaciamc/objects/entity_template.py"),
      ("StructTemplate.__init__", "acaciamc/objects/struct_template.py"),
      ("visit_EntityTemplateDef, visit_Self, visit_NewCall, visit_Result",
       "acaciamc/mccmdgen/generator.py")],
     ["acceptance", "error type and line", "well-formed output"])

prop("C31", "Music: every note is played at its tick, to its listeners",
     "For every MIDI file and every setting of Music: while the music "
     "plays, each sounding note of each track is played exactly once per "
     "playing, in the game tick that its time in the file has under the "
     "tempo changes and the speed given (messages at one time are at one "
     "time), to every listener at the place of the listener, with the "
     "sound of the program its channel has then (or the one given "
     "instead), the pitch of the note and the offset, and the volume of "
     "note, channel and settings; nothing else is played. Splitting into "
     "chunks changes nothing. play(n) starts at tick n, or after -n ticks; "
     "stop() silences; a looping music restarts loop_interval ticks after "
     "its end. Settings out of range are refused.",
     ["inputs", "histories"],
     "tracks of up to 3 events (thorough: 4) over times, tempos, programs, "
     "channels, volumes; every state of the playing music under tick, "
     "play, stop",
     "no test uses the module.",
     ["acaciamc/modules/music.py"],
     [("Music.__init__, main_loop, play_note", "acaciamc/modules/music.py")],
     ["sounds heard per game tick by each listener", "acceptance"])
