#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os

P = []


def prop(id, title, statement, over, quant, why, files, mechanism, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": " ".join(statement.split()),
        "quantifier": {"over": over, "text": " ".join(quant.split())},
        "why_tests_cant": " ".join(why.split()),
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
            "observe_at": list(observe), "hook_needed": hook}})


prop("C01", "Each step of a build runs exactly once, after everything it depends on",
     """For any acyclic dependency graph, any thread count and any order in which running steps happen to finish,
     building a target runs every step in its dependency closure exactly once and no step outside it.
     No step starts before all of its dependencies have finished, and success is reported only after every step has finished.""",
     ["inputs", "schedules"],
     "all DAGs, all requested targets, all thread counts, all finishing orders of concurrently running steps",
     """The tests run one five-node graph with trivial steps; ordering errors need particular graphs (diamonds, shared
     dependencies, several names of one target) and particular finishing orders that a test never chooses.""",
     ["licant/solver.py", "licant/core.py", "licant/util.py"],
     [("InverseRecursiveSolver / TaskInvoker worker queue", "licant/solver.py"),
      ("invert_depends_dictionary", "licant/util.py"),
      ("UpdatableTarget.recurse_update, Core.depends_as_set", "licant/core.py")],
     [("depcount", "number of unfinished dependencies of a step", "licant/solver.py DependableTargetRuntime"),
      ("queue", "steps that are ready to run", "licant/solver.py TaskInvoker")],
     ["start and finish events of every step", "return value of the build"])

prop("C02", "A parallel build uses the requested number of workers, never more",
     """With N threads requested (on the command line with -j N, or set on the core), at most N steps of a build are in progress at any moment.
     Whenever fewer than N are in progress, every step whose dependencies have all finished successfully has been started,
     as long as no step has failed; this holds for any graph and any order in which steps finish.""",
     ["inputs", "schedules", "configurations"],
     "all DAGs, N >= 1, all finishing orders",
     """No test measures concurrency; an idle worker or an extra one changes no result, and whether it happens
     depends on the order in which steps finish.""",
     ["licant/solver.py", "licant/core.py", "licant/cli.py"],
     [("TaskInvoker.worker pool of threads_count coroutines", "licant/solver.py"),
      ("recurse_update takes core.runtime['threads']", "licant/core.py"),
      ("-j/--threads", "licant/cli.py")],
     [("thread_on_base", "which workers are idle", "licant/solver.py TaskInvoker")],
     ["number of steps in progress at every scheduling point"])

prop("C03", "A failing step stops the build, spares its dependents and is reported",
     """When a step fails (returns False, raises any exception, ends by licant.error or a non-zero exit, or its command exits with non-zero
     status), no step that depends on it
     directly or indirectly is run, no further step is started once its failure is known, steps already in progress are waited for,
     and the build terminates - it never hangs - reporting failure, on the command line as a non-zero exit status.
     A build in which no step fails reports success and exits with status zero.""",
     ["inputs", "schedules", "fault_sequences"],
     "all DAGs, thread counts, finishing orders and sets of failing steps with any of the failure modes",
     """No test has a failing step. Failures interact with what the other workers are doing at that moment, so each
     combination of graph, failing set and finishing order is a separate case.""",
     ["licant/solver.py", "licant/core.py", "licant/make.py", "licant/cli.py"],
     [("error_while_execution flag and release_queue", "licant/solver.py"),
      ("do_execute return value", "licant/make.py"),
      ("cliexecute exit status", "licant/cli.py")],
     [("error_while_execution", "a step failed; no further step may start", "licant/solver.py TaskInvoker")],
     ["start and finish events of every step", "return value of the build", "process exit status"])

prop("C04", "Ill-formed dependency graphs are rejected before any step runs",
     """If the dependency closure of the requested target contains a cycle or names a dependency that is not a declared target,
     the build ends with an error (an exception, or a non-zero exit status on the command line), promptly and without having run any step.
     The scheduler itself likewise refuses such a task list with one of its declared errors, and never refuses a well-formed one.""",
     ["inputs"],
     "all finite graphs with at least one cycle (including self-dependencies) or dangling name anywhere in the closure; all well-formed graphs",
     """Three hand-written graphs are tested at the scheduler level and none through targets; a cycle may be unreachable
     from the free nodes, hidden behind a well-formed part, or share nodes with it.""",
     ["licant/solver.py", "licant/core.py"],
     [("connectivity_check / dfs / NoOneNonDependableTarget / UnknowTargetError", "licant/solver.py"),
      ("Core.get -> licant.util.error", "licant/core.py")],
     [], ["exception or exit status", "list of executed steps"])

prop("C05", "An incremental build yields what a build from scratch would",
     """After any history of source edits, deletions of outputs or output directories, and builds of arbitrary targets (each in its own process, or
     several in one process), a build that reports success leaves every output in the closure of the requested target with exactly the content
     a build from scratch of the current sources would give it, for any thread count.
     Dependencies may pass through file sets, named groups, directories, glob patterns and chains of generated files.""",
     ["histories", "inputs", "schedules"],
     "all project graphs, all histories of edit/delete/build operations (every edit is later than the outputs it outdates), all thread counts",
     """The tests perform at most one edit between two builds of a single copy. Stale outputs appear only for
     certain histories: partial builds, dependencies through groups, deleted intermediates.""",
     ["licant/make.py", "licant/core.py", "licant/cache.py", "licant/solver.py"],
     [("internal_update_if / mtime / recursive_update_needed_request", "licant/make.py, licant/core.py"),
      ("fcache.update_info after each build step", "licant/cache.py, licant/make.py"),
      ("expand_globs", "licant/core.py")],
     [("need_update", "planned update decision of a target", "licant/core.py UpdatableTarget"),
      ("fcache", "per-process cache of file existence and mtime", "licant/cache.py")],
     ["contents of all output files"])

prop("C06", "A build reruns exactly the steps that are out of date",
     """A build runs a file step if and only if its output is missing, it is marked as forced, an input file it depends on (directly or through
     file sets and named groups) is strictly newer than its output, or something it depends on needs updating itself; a missing directory or a missing
     source counts as needing update, and equal modification times count as up to date.
     In particular, repeating a successful build, in the same or another process, runs nothing, and outputs outside the requested closure are never touched.""",
     ["histories", "inputs"],
     "all project graphs and histories of edits, touches (of sources and of generated files), deletions and builds",
     """Two builds of one copy are tested. Over-building changes no content, so nothing notices it, and the decision
     depends on the relative age of every file in the closure.""",
     ["licant/make.py", "licant/core.py", "licant/cache.py"],
     [("FileTarget.internal_update_if", "licant/make.py"),
      ("UpdatableTarget.recursive_update_needed_request", "licant/core.py"),
      ("DirectoryTarget.mtime / update_if_need", "licant/make.py")],
     [("fcache", "per-process cache of file existence and mtime", "licant/cache.py")],
     ["which outputs were rewritten by a build (mtime/inode)", "step log"])

prop("C07", "A failed, interrupted or killed build never spoils a later one",
     """After builds in which steps failed, or in which the licant process was killed or interrupted at any point, the next build that reports
     success still leaves every output in the closure with the content a build from scratch would give it, provided each step itself replaces its output
     atomically or not at all. A step that failed or did not finish is attempted again by the next build that needs it, an interrupted build ends instead of hanging,
     and sources are never modified.""",
     ["crash_points", "fault_sequences", "histories"],
     "all project graphs, all sets of failing steps, every kill or interrupt point (before, between and inside steps), all histories of such builds",
     """No test interrupts a build or makes a step fail; the state on disk after a crash depends on which steps had
     already finished, which is a function of graph, thread count and crash point.""",
     ["licant/make.py", "licant/core.py", "licant/solver.py", "licant/cache.py"],
     [("state is only the files' existence and mtime", "licant/make.py"),
      ("KeyboardInterrupt handling in run_until_complete", "licant/solver.py")],
     [], ["contents of all outputs and sources after the recovering build"])

prop("C08", "clean removes exactly the generated files of the target's closure",
     """The clean action of a file or file-set target deletes every existing generated file in that target's dependency closure and nothing else:
     sources, directories, outputs of targets outside the closure and unrelated files survive unchanged, whatever characters the file names contain ('*' excepted: it makes a dependency a glob pattern).
     A following build of the target recreates everything, and cleaning twice is the same as cleaning once.""",
     ["inputs", "histories"],
     "all project graphs and file names, all sets of already built outputs, all requested targets",
     """Nothing tests clean. What it deletes depends on the closure and on which nodes of it are sources, directories or
     outputs, and a wrong answer destroys user files.""",
     ["licant/make.py", "licant/core.py"],
     [("MakeFileTarget.clean / FileTarget.clr / DirectoryTarget.clr", "licant/make.py"),
      ("Core.depends_as_set", "licant/core.py")],
     [("clr", "None for sources: never deleted", "licant/make.py source()")],
     ["file tree before and after"])

prop("C09", "Target identity ignores path spelling and declaration order",
     """A file target can be requested, or named as a dependency, by any spelling of its path - relative, absolute, with '.' or '..' components,
     through symbolic links, or with '~' where copies, sources and file targets are declared - and always means the same single step.
     The set of declarations determines the build: declaring the same targets in another order, sources implicitly or explicitly, gives the same outputs and runs the same steps.""",
     ["inputs", "programs"],
     "all spellings of paths at every place a path is accepted; all permutations of the declarations of a project",
     """Each test uses one spelling per file and declares dependencies before dependents; aliasing errors need the same
     file under two names or a use before its declaration.""",
     ["licant/core.py", "licant/make.py", "licant/util.py"],
     [("canonical_path", "licant/util.py"), ("Core.get / Core.has", "licant/core.py"),
      ("FileTarget canonicalises tgt; copy/source expanduser", "licant/make.py")],
     [("_targets", "name to target map with canonical path keys", "licant/core.py Core")],
     ["contents of outputs", "executed steps", "object identity of looked-up targets"])

prop("C10", "Routines and updatable targets run by their own or a dependency's need",
     """Within one process and for any sequence of requests, a routine or updatable target in the requested closure runs if and only if its
     update condition holds or some target it depends on needs updating, the condition being asked anew for every request; each runs at most once per request and after its dependencies.
     Arguments given to a routine reach that routine exactly and no other, in that request only.""",
     ["histories", "inputs"],
     "all graphs of routines/updatable targets, all changing values of their conditions, all sequences of requests and argument lists",
     """The tests invoke two independent targets once each. The decision is a recursive function of the whole graph and
     is cached between requests.""",
     ["licant/core.py"],
     [("recursive_update_needed_request, update_update_needity", "licant/core.py"),
      ("Routine.invoke_routine", "licant/core.py"), ("Core.do", "licant/core.py")],
     [("need_update", "planned decision, reset before every action", "licant/core.py"),
      ("args", "arguments of the current routine call", "licant/core.py Routine")],
     ["log of executed functions with their arguments"])

prop("C11", "The command line runs exactly the action it names, with its arguments",
     """Without positional arguments the default target's default action runs; a target name runs that target's default action; a target followed by one of its actions
     runs that action; otherwise the name of an action of the default target runs that action; a routine (all words after its name) or an action receives the remaining words as its arguments, unsplit and in order.
     Anything else - unknown names, actions the target does not have, no default - runs nothing and exits with non-zero status.
     The options -q, -d and -t change messages only, -j only the number of threads; a script's own options reach it; and several calls in one process each obey their own words, options and default.""",
     ["inputs", "programs"],
     "all sets of targets and actions, all argument vectors with options before or after the positional words, all sequences of calls",
     """The tests call the command line only without arguments. Name clashes between targets and actions, several
     arguments, and option combinations are never tried.""",
     ["licant/cli.py", "licant/core.py"],
     [("__cliexecute dispatch", "licant/cli.py"), ("Target.hasaction / Target.invoke", "licant/core.py")],
     [], ["log of invoked actions with arguments", "exit status"])

prop("C12", "C and C++ builds follow header dependencies",
     """After any history of edits to sources and headers, including adding and removing #include lines, creating and deleting headers, and failed compilations, a successful build of a
     C/C++ product gives the same product as a build from scratch, and a build that follows edits recompiles a source only if that source, one of the headers it included when last compiled,
     or a file the whole product is declared to depend on was changed. Repeating a build compiles nothing.""",
     ["histories", "inputs"],
     "all include graphs (nested, shared, via include paths, any compiler-acceptable file names free of shell-special characters), all edit histories",
     """One single-file program is compiled once by the tests. Header tracking only acts from the second build on and
     depends on how the dependency list written by the compiler is parsed.""",
     ["licant/cxx_modules.py", "licant/cxx_make.py", "licant/util.py", "licant/make.py"],
     [("link_objects: .d file per source, forced when absent or empty", "licant/cxx_modules.py"),
      ("cxx_read_depends", "licant/util.py"), ("cxxdeprule/ccdeprule", "licant/cxx_make.py")],
     [(".d files", "header list of the last compilation", "build directory")],
     ["product contents", "log of compiler invocations"])

prop("C13", "Module resolution selects one implementation of every needed module",
     """For any set of modules and implementations, the modules linked into a product are exactly those reachable from it through module dependencies, each once and with one implementation:
     the one explicitly requested if any reachable module requests one, otherwise the module's default.
     If two different implementations of a module would be needed, or a needed module, implementation or default does not exist, the build description is rejected with an error and no request is ever ignored; the order in which modules are registered never matters.""",
     ["inputs", "programs"],
     "all module dependency graphs with several implementations, explicit and default requests, all registration orders",
     """No test declares a module with an implementation or a dependency. Selection depends on the interplay of
     explicit and default requests over the whole graph.""",
     ["licant/modules.py", "licant/cxx_modules.py"],
     [("collect_modules", "licant/cxx_modules.py"), ("ModuleLibrary.get/get_default/set_defimpl", "licant/modules.py")],
     [("mlibrary", "registered modules and default implementations", "licant/modules.py")],
     ["sources compiled into the product", "printed module list", "error exit"])

prop("C14", "Module options reach exactly the commands they are meant for",
     """Every compile command of a product carries the include paths, defines and flags of the product and of all modules it includes or depends on, and every link command their libraries, library
     directories, linker flags and scripts, in that order (the product's first, repetitions aside), with include paths and scripts taken relative to the directory of the module that states them;
     optimisation, debug option, toolchain and build directory are the product's own, the language standard that of the module stating it last.
     C sources get the C options and compiler and C++ sources the C++ ones; a submodule inherits its parent's options but its own never reach its parent, its siblings or another product.
     Local headers and headers generated by Qt are visible exactly to the commands of the products and submodules whose modules declare them, and exist before these run.""",
     ["inputs", "configurations", "programs"],
     "all combinations of option values over products, dependency modules and nested submodules in any directories",
     """The tests build one program without options. How options combine is a per-field rule over an arbitrary tree of
     modules, and a lost or leaked option usually still compiles.""",
     ["licant/cxx_modules.py", "licant/cxx_make.py"],
     [("cxx_module_field_list merge/include rules", "licant/cxx_modules.py"),
      ("cxx_options_from_modopts", "licant/cxx_modules.py"), ("options rules", "licant/cxx_make.py")],
     [], ["argument vectors received by the compiler, linker and archiver"])

prop("C15", "Products link every source once and keep build files in the build dir",
     """A C/C++ application, shared library, static library or object set consists of exactly the objects of all sources (plain, glob, generated by Qt's moc, or relative to a module's source directory) of the product,
     its included and dependency modules and its nested submodules (a library submodule as that library), plus its prebuilt objects, each compiled once from its own source by the compiler its extension
     calls for and linked exactly once, however often it is named.
     Distinct sources never share an object file, and apart from the product itself nothing is written outside the build directory.""",
     ["inputs", "programs"],
     "all sets of source paths (relative, absolute, nested, with '..'), extensions, product types, module and submodule trees",
     """One source and one product type are tested. Object paths are computed from arbitrary source paths and can collide
     or escape; a source lost from a product may go unnoticed.""",
     ["licant/cxx_modules.py", "licant/cxx_make.py", "licant/util.py"],
     [("build_paths / sources_paths / link_objects", "licant/cxx_modules.py"), ("prepare_targets.modmake", "licant/cxx_modules.py"),
      ("object / executable / static_library / dynamic_library", "licant/cxx_make.py")],
     [], ["argument vectors of the tools", "product contents", "file tree"])

prop("C16", "Nested scripts run once each, relative to the script that names them",
     """For any tree of build scripts that execute or include one another, a script named by a relative path is found relative to the directory of the script that names it, the current script
     directory is that of the running script and is restored when a nested script ends, and modules declared in a script resolve their sources and include paths in that script's directory.
     A recursive execution runs every script under the root that matches the pattern (except in directories whose path below the root contains the given text to hide) exactly once, an included library runs at most once however often it is included, and an error in any script ends the run with non-zero status.""",
     ["programs", "inputs"],
     "all trees of scripts in arbitrary directories with nested, repeated and recursive execution",
     """No test executes a script. The directory in force depends on the whole stack of scripts being executed.""",
     ["licant/scripter.py", "licant/libs.py", "licant/modules.py", "licant/util.py", "licant/__init__.py"],
     [("ScriptQueue stack", "licant/scripter.py"), ("included guard", "licant/libs.py"), ("find_recursive", "licant/util.py")],
     [("stack", "scripts being executed, innermost last", "licant/scripter.py")],
     ["trace of executed scripts with their directory", "compile commands", "exit status"])

prop("C17", "The library registry keeps exactly what was registered",
     """After any sequence of registrations, re-registrations, directory registrations, removals and listings with the library utility, in user or system mode, the registry holds exactly the last registered absolute path
     of every name not removed since (a directory registers each of its scripts under the file's name up to the first dot), and invalid requests (missing file, unknown name, wrong arguments) leave it unchanged.
     Including a library by name executes the script registered for it, the user's registry taking precedence over the system's, and an unregistered name is an error.""",
     ["histories", "inputs"],
     "all sequences of utility invocations over arbitrary names and paths, all pairs of registries",
     """The utility and the registry have no tests at all; only sequences of operations show lost or stale entries.""",
     ["licant/licant_libs.py", "licant/libs.py"],
     [("licant_libs_utility", "licant/licant_libs.py"), ("init/include/merge_two_dicts", "licant/libs.py")],
     [("registry files", "JSON maps from library name to path", "~/.licant and the system file")],
     ["registry content", "printed lists", "executed scripts", "exit status"])

prop("C18", "Install copies exactly the matching files and uninstall removes just those",
     """Installing a library copies every header under the header root whose name matches one of the patterns to the same relative place under the target include directory, and every given
     library file to the library directory, with identical content, and nothing else; applications go to the program directory, with their permissions when installed anew.
     Re-installing after changes copies only what changed (headers also when a library they come with was rebuilt), installation happens only after the library is built, and the uninstall target
     removes exactly the files that installing the present headers and libraries puts there.""",
     ["inputs", "histories"],
     "all header trees, pattern sets, library lists and install/modify/uninstall histories",
     """licant/install.py has no tests; it writes to and deletes from system locations, where one wrong path matters.""",
     ["licant/install.py", "licant/make.py", "licant/util.py"],
     [("install_library/install_headers/install_shared_library/install_application", "licant/install.py"),
      ("recursive_glob", "licant/util.py"), ("copy", "licant/make.py")],
     [], ["file tree of the install prefix"])

prop("C19", "Commands run as written; only their exit status decides success",
     """A step's command line is its template with the target's fields substituted and is run once by the shell; the step succeeds if and only if the command exits with status zero.
     A step is announced when it runs: by its message, with -d by its command line, with -q not at all. Neither the amount nor the encoding of what the command writes to its standard output and error changes that or blocks the build, all of that text is shown,
     and copies and touches handle any file name without '*'.""",
     ["inputs", "fault_sequences"],
     "all templates and field values, exit statuses and signals, output volumes and byte sequences on both streams, file names",
     """The tests run commands that print at most a few bytes and always succeed; blocking needs output beyond the pipe
     buffer, decoding errors need particular bytes.""",
     ["licant/make.py"],
     [("do_execute", "licant/make.py"), ("Executor", "licant/make.py")],
     [], ["command's effects", "build result", "captured standard output and error"])

prop("C20", "Missing directories are created in time; existing ones are left alone",
     """Whatever output paths a project declares, every missing directory level is created before a step writes into it, whichever target is requested, with any thread count, and even if a step
     or another process creates it meanwhile; building in a tree where directories already exist neither fails nor alters them or their other contents.
     No directory outside the closure of the requested target is created, and creating files inside a directory never makes a step out of date.""",
     ["inputs", "schedules", "histories"],
     "all sets of output paths with shared and nested missing levels, all initial trees, thread counts and finishing orders",
     """The tests create at most one missing level. Several targets sharing partly existing levels, built in parallel or one
     after another, need combinations of declaration and build order.""",
     ["licant/make.py"],
     [("FileTarget use_dirkeep / dirkeep / MakeCore.dirkeep / DirectoryTarget / DirectoryKeeper", "licant/make.py")],
     [], ["file tree before and after", "step results"])

prop("C21", "Reports tell what is declared and change nothing",
     """Every informational request - lists of modules, implementations and libraries, the modules a product resolves to and which modules asked for each, its final options, the actions and dependencies of a target -
     says exactly what the description amounts to (an implementation is named as chosen, every requester is named and no other), in any order and repetition, from the command line or through the objects.
     None of them runs a step or a tool or touches a file, and whatever is built afterwards in the same process is built as if nothing had been asked.""",
     ["inputs", "histories"],
     "all module graphs, option sets, targets and libraries; all sequences of reports before a build",
     """No test calls a report; that reports are complete depends on the whole graph, and that they leave no trace can only be seen in what is built after them.""",
     ["licant/modules.py", "licant/cxx_modules.py", "licant/libs.py", "licant/core.py", "licant/cli.py"],
     [("print_modules_list/print_module", "licant/modules.py"), ("print_collect_list/included_from/print_finalopts", "licant/cxx_modules.py"),
      ("print_system_libs/print_included_libs", "licant/libs.py"), ("actlist/dependies/print", "licant/core.py")],
     [], ["text of the report", "later steps and files"])

prop("C22", "A tool step runs exactly one command of its own toolchain, on its own inputs",
     """A step declared directly - object or header list (language by type if given, else by the source's extension; unknown ones rejected), executable, shared or static library, objcopy, moc, uic, Java classes, dex - is run
     as exactly one command: the proper tool of the toolchain of its own options, the inputs in the order given, exactly the include paths, defines, flags, libraries and scripts of those options, writing the declared file.
     It is run whenever it is missing or an input is newer, and only then; a disassembly is of the object as just brought up to date. Options, default toolchain changes and inputs of one step never affect another.""",
     ["inputs", "histories"],
     "all sets of steps, option sets, toolchains, source names and edit histories",
     """The tests declare a handful of steps of one kind with default options; that nothing of one step leaks into another or gets lost needs combinations of steps, options and toolchains.""",
     ["licant/cxx_make.py", "licant/java_make.py", "licant/make.py", "licant/cli.py"],
     [("object/depend/executable/dynamic_library/static_library/objcopy/qt_moc/qt_uic/disassembler", "licant/cxx_make.py"), ("javac/dex", "licant/java_make.py"),
      ("options/toolchain", "licant/cxx_make.py")],
     [], ["tool calls with their arguments", "content of outputs", "exit status"])

prop("C23", "Cores are independent of each other",
     """Whatever cores live in one process - the default one, plain and make cores - each behaves as if it were alone: target names, dependencies, actions, thread counts, message options and results of requests to one are never
     affected by what is declared in or requested from another before, between or from inside its steps, even where their targets have the same names. A core lists exactly its own targets.""",
     ["inputs", "histories"],
     "all sets of cores with overlapping names, all interleavings of requests to them, also nested ones",
     """The tests use one core per process, or separate ones with different names; state shared by mistake shows only when several are used in turn.""",
     ["licant/core.py", "licant/make.py", "licant/cli.py", "licant/cache.py"],
     [("Core/default_core", "licant/core.py"), ("MakeCore", "licant/make.py"), ("cliexecute", "licant/cli.py")],
     [("core.runtime, core._targets", "options and targets of one core", "licant/core.py")],
     ["steps with arguments", "results", "printed text", "files"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
