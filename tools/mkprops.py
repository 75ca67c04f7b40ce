#!/usr/bin/env python3
"""Regenerates properties.jsonl (kept as code so that statements stay readable)."""
import json, os
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
                  quantifier=dict(over=over, text=" ".join(qtext.split())),
                  why_tests_cant=" ".join(why.split()),
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                               observe_at=observe or [], hook_needed=None)))


prop("C01", "No build file can crash, corrupt or hang the front end",
     """For every byte sequence given as a build file or script, checking, formatting, analyzing or
     evaluating it with muon ends in success or in a reported error: there is no out-of-bounds access, use
     after free, undefined arithmetic, failed internal assertion, death by signal, or endless loop that the
     source itself does not ask for. This covers calls of every function and method with arguments of every
     kind and value, not only well-typed ones.""",
     ["inputs", "programs"],
     "all byte sequences as source text; all values as arguments of all language operators, functions and methods; sizes to a few MB, nesting to thousands",
     "The tests feed a few hundred well-formed files; indices such as -5, INT64_MIN, empty strings, unterminated tokens and deep nesting never appear.",
     ["src/lang/lexer.c", "src/lang/parser.c", "src/lang/interpreter.c", "src/lang/fmt.c", "src/lang/analyze.c",
      "src/lang/string.c", "src/functions/string.c", "src/functions/array.c", "src/functions/dict.c", "src/functions/common.c"],
     [("nesting limit", "src/lang/parser.c parse_expr"), ("index bounds check", "src/lang/interpreter.c bounds_adjust"),
      ("argument checking against declared signatures", "src/functions/common.c interp_args, pop_args")],
     ["muon check", "muon internal eval -s", "muon fmt", "muon analyze"])

prop("C02", "Expressions and control flow evaluate as the Meson language defines",
     """For every program made of literals, operators, indexing, if/elif/else, ternary, foreach with
     break/continue and assignments, the values and messages produced are the ones the Meson language
     definition gives (left-associative arithmetic with * / % above + -, short-circuit and/or, strict
     typing, in/not in, f-strings and escapes, path join with /); a program that is ill-typed at the point
     reached ends in an error naming the right line rather than in a value.""",
     ["programs", "inputs"],
     "all well-formed expressions and statement sequences of the core language over ints, strings, bools, arrays, dicts and ranges",
     "The language tests evaluate fixed expressions; precedence, nesting and type-error combinations form an unbounded space.",
     ["src/lang/lexer.c", "src/lang/parser.c", "src/lang/interpreter.c"],
     [("operator precedence climbing", "src/lang/parser.c"), ("tree-walking evaluation", "src/lang/interpreter.c interp_node")],
     ["message() output and exit status of muon internal eval"])

prop("C03", "Values are immutable: no assignment changes another variable",
     """After any sequence of assignments, +=, foreach loops, indexing, set_variable, function calls and
     method calls, a variable or container element only changes when it is itself the target of an
     assignment; changing a value obtained through one name, element, loop variable, argument or captured
     reference is never observable through another. The exceptions are the documented mutating methods on
     objects (configuration_data, environment, source set, and array/dict delete in script mode), and += in a
     user-defined function on a variable of the scope it captured, whose target is that variable itself.""",
     ["histories", "programs"],
     "all histories of binding, copying, nesting and updating array, dict, string and configuration values",
     "Aliasing shows only when a particular sequence of copies, nestings and updates is followed by a read of the untouched name.",
     ["src/lang/interpreter.c", "src/lang/object.c", "src/functions/array.c", "src/functions/dict.c"],
     [("copy on += and on list/dict operators", "src/lang/interpreter.c, src/lang/object.c obj_array_extend/obj_dict_merge")],
     ["message() of every live variable after every step"])

prop("C04", "String methods and version comparison compute their defined results",
     """Each string method (split, strip, join, replace, substring, format, to_upper, to_lower, to_int,
     startswith, endswith, contains, underscorify, version_compare) and indexing and number/boolean/array/dict
     method returns, for every argument in its domain, the value its Meson definition gives. Version
     comparison is a consistent order: reflexive, antisymmetric, transitive, with each comparison operator
     agreeing with it.""",
     ["inputs"],
     "all strings, counts, indexes and version strings",
     "Tests sample a handful of ordinary strings; empty patterns, overlapping matches, out-of-range indexes and mixed version segments are unbounded.",
     ["src/functions/string.c", "src/lang/string.c", "src/rpmvercmp.c", "src/functions/number.c", "src/functions/array.c", "src/functions/dict.c", "src/functions/boolean.c"],
     [("string primitives", "src/lang/string.c"), ("rpmvercmp", "src/rpmvercmp.c")],
     ["messages of muon internal eval"])

prop("C05", "Formatting never changes what a build file means",
     """For every build file muon accepts and every formatter configuration, the formatted text is accepted,
     evaluates exactly as the original did (same values, messages, order of calls and same calls
     with same arguments), and every comment of the original survives, in order, with its text. The one exception is the
     formatter's purpose to sort the arguments of files(): those, with the comments between them, may change their order.""",
     ["inputs", "configurations"],
     "all accepted source texts times all combinations of formatter options",
     "The formatter tests compare a few dozen fixed pairs under a few option sets; layout decisions depend on line widths, comments and nesting in combination.",
     ["src/lang/fmt.c", "src/lang/lexer.c", "src/lang/parser.c"],
     [("CST printing", "src/lang/fmt.c fmt_node"), ("format-mode lexing that keeps raw tokens and comments", "src/lang/lexer.c")],
     ["muon fmt output"])

prop("C06", "Formatting converges, checks honestly and rewrites files safely",
     """For every accepted source text and option set, formatting formatted text changes nothing; the check-only mode
     reports success exactly for texts that formatting leaves unchanged and writes nothing; in-place mode
     writes exactly what the standard-output mode prints. A source that cannot be parsed, or a failing
     write, leaves the file with its previous bytes and ends in a nonzero exit.""",
     ["inputs", "configurations", "fault_sequences"],
     "all source texts, valid or not, times formatter options times output modes, including failing writes",
     "Tests compare one output per file; second passes, mode agreement and the error path over arbitrary files are not exercised.",
     ["src/lang/fmt.c", "src/main.c"],
     [("check-only and in-place handling", "src/main.c cmd_format"), ("output string buffer", "src/lang/fmt.c fmt_write")],
     ["stdout, exit status and file bytes of muon fmt, -q, -i"])

prop("C07", "Values survive serialisation, and damaged dumps are refused safely",
     """Every value that can be dumped loads back equal to what was dumped, whatever its size, nesting, bytes or sharing.
     Loading a file that was truncated, altered or is no dump at all ends in a reported error or in some value,
     never in memory corruption, endless work or a crash.""",
     ["inputs", "fault_sequences"],
     "all values; all truncations and byte changes of a dump",
     "The round trip test dumps one object; corruption of the stored build state is never tried.",
     ["src/lang/serial.c", "src/lang/object.c", "src/datastructures/bucket_arr.c"],
     [("object and big-string sections", "src/lang/serial.c")],
     ["serial_dump / serial_load", "private state files under a build directory"])

prop("C08", "Analysis is read-only and raises no error on projects that configure",
     """Running the static analyzer or the syntax checker on any project never creates, changes or deletes a file and never runs a
     command of the project; and on every project that setup accepts it reports no error-level diagnostic, except for values that are
     certainly wrong in a branch setup does not take and for comparing values of different types. A project with
     a call to an unknown function or method, an unknown variable or an argument or operand of a type that is certainly wrong, on some path, is reported as an error with that file and line.""",
     ["programs"],
     "all projects setup accepts; all single type or name faults injected into one",
     "Tests analyze a few fixed files; joins over branches and types depend on the program.",
     ["src/lang/analyze.c", "src/functions/common.c"],
     [("abstract interpretation with type tags", "src/lang/analyze.c")],
     ["muon analyze output and the file tree before and after"])

prop("C09", "Configuring is deterministic and leaves the source tree alone",
     """Configuring the same source tree with the same options, machine and tools gives byte-identical build files, whatever the hash seed,
     directory enumeration order, working directory spelling, previous state of another build directory or time of day; and it writes only inside the build
     directory, so no source file is created, changed or deleted.""",
     ["programs", "configurations", "histories"],
     "all projects, build directory locations and environments that do not change the tools",
     "Tests configure each project once and never compare two runs.",
     ["src/backend/ninja.c", "src/backend/output.c", "src/datastructures/hash.c", "src/functions/kernel/configure_file.c"],
     [("insertion ordered tables", "src/datastructures/hash.c"), ("write-if-changed", "src/functions/kernel/configure_file.c")],
     ["build directory and source tree snapshots"])

prop("C10", "Options resolve by precedence and only to valid values",
     """For every set of option declarations, default_options of project and subproject, environment and -D settings, each option's
     value as the project sees it is the one given by the highest-precedence source that sets it, and a
     subproject's yielding option that is not set itself takes the value of the parent's option of the same name and type. Every value assigned is checked against the option's type, choices and range, unknown
     options are refused, and the values are kept when the build tool regenerates the build directory.""",
     ["configurations", "histories"],
     "all combinations of option types, values and sources, across top project and subprojects and reconfigurations",
     "The tests set single options; conflicts between sources and invalid values over every type are combinatorial.",
     ["src/options.c", "src/functions/kernel/options.c", "src/functions/kernel/subproject.c", "src/main.c"],
     [("option value sources", "src/options.c"), ("value validation", "src/options.c set_option")],
     ["get_option() values printed during setup", "muon options", "introspection"])

prop("C11", "Arguments and environment reach every process verbatim",
     """Every argument vector and environment a project specifies (custom target and run target commands, generator commands, compile and link arguments,
     test arguments and env, run_command) reaches the started program as exactly the same strings in the same
     order and number, whatever spaces, quotes, dollar signs, backslashes, newlines where supported, or shell and ninja metacharacters they contain.""",
     ["inputs"],
     "all argument strings and environment values accepted by the language",
     "Tests use ordinary words; quoting through ninja syntax, the shell and response encoding depends on the characters.",
     ["src/backend/output.c", "src/lang/string.c", "src/backend/ninja/custom_target.c", "src/backend/common_args.c", "src/args.c", "src/backend/ninja/build_target.c", "src/platform/posix/run_cmd.c"],
     [("ninja and shell escaping", "src/args.c, src/backend/output.c"), ("environment wrapper", "src/functions/environment.c, internal exe -e")],
     ["argv and environ recorded by the started program"])

prop("C12", "configure_file output is the template with exactly the defined substitutions",
     """For every template and configuration data, the generated file equals what the Meson definition gives: @VAR@, ${VAR} and #mesondefine/#cmakedefine lines
     are replaced by the configured value, escapes are honoured, unknown variables are reported or left as defined, everything else is
     preserved byte for byte, and header output without a template lists each key exactly once. Every configuration value set, merged or described can be read back, and an unchanged result does not touch the file.""",
     ["inputs", "configurations"],
     "all templates, formats, keys and values",
     "Tests use a few fixed templates; delimiter, escape and boundary combinations are unbounded.",
     ["src/functions/kernel/configure_file.c", "src/functions/configuration_data.c"],
     [("line scanner and substitution", "src/functions/kernel/configure_file.c")],
     ["bytes and mtime of the generated files"])

prop("C13", "Build order and link lines contain everything a target depends on",
     """In every generated build, each command is ordered after the production of every file it reads (generated sources and headers, custom target
     inputs, libraries, also those reached through dependencies), each compile gets the include directories
     and arguments of all its dependencies, and each link gets every library reached through link_with, link_whole and dependencies,
     so a clean build succeeds at any parallelism and order and produces programs with the behaviour the sources describe.""",
     ["programs", "schedules"],
     "all acyclic target graphs with generated sources and nested dependencies; all build orders",
     "Missing edges surface only under particular schedules and graph shapes; tests build fixed shapes.",
     ["src/backend/ninja/build_target.c", "src/backend/ninja/custom_target.c", "src/backend/common_args.c", "src/functions/kernel/dependency.c", "src/functions/build_target.c"],
     [("transitive dependency accumulation", "src/functions/kernel/dependency.c build_dep_*"), ("order-only dependencies on generated headers", "src/backend/ninja/build_target.c")],
     ["build.ninja as parsed by an independent reader", "built programs"])

prop("C14", "A build directory follows every change of its inputs and then rests",
     """After any sequence of edits to files that configuring read (build files, option files, configure_file inputs, files added by subdir or subproject),
     the next build regenerates and ends in the same build files and outputs that a fresh configuration with the same options gives; explicitly set options
     are kept. When nothing changed, the next build runs no command and does not regenerate.""",
     ["histories"],
     "all sequences of edits, builds and option changes",
     "Tests configure once; stale state needs an edit between two builds.",
     ["src/backend/ninja.c", "src/functions/kernel.c", "src/functions/meson.c", "src/lang/workspace.c", "src/options.c"],
     [("regeneration dependencies", "src/backend/ninja.c, src/lang/workspace.c workspace_add_regenerate_deps"), ("saved command line and options", "src/backend/ninja.c")],
     ["build directory state after each build compared with a fresh one"])

prop("C15", "Installing puts exactly the declared files at the declared places",
     """For every project, install creates exactly the declared files, directories and symlinks under the destination (prefix, DESTDIR and
     install_dir applied, renames, exclusions, strip_directory and preserve_path honoured) with the right content and mode; with DESTDIR set nothing
     is written outside it, a dry run writes nothing, and installing twice gives the same tree.""",
     ["programs", "configurations"],
     "all combinations of install declarations, options, DESTDIR and prior destination state",
     "Tests rarely inspect the installed tree, and only for fixed declarations.",
     ["src/install.c", "src/cmd_install.c", "src/functions/kernel/install.c", "src/platform/filesystem.c"],
     [("install plan", "src/install.c"), ("copying, modes, links", "src/cmd_install.c")],
     ["destination tree snapshots"])

prop("C16", "The test runner runs each selected test once and reports the true verdict",
     """For every set of declared tests and every filter (suites, names, setups, benchmarks), exactly the selected tests are run, each
     once; each verdict follows from the program's exit status or TAP output under its
     protocol, should_fail and skip rules; and the runner's exit status is zero exactly when no run test failed.""",
     ["programs", "configurations", "inputs"],
     "all mixes of tests, protocols, exit codes, signals, TAP streams, suites and filters",
     "The project tests assert that everything passes; wrong verdicts for failing and odd tests go unseen.",
     ["src/cmd_test.c", "src/formats/tap.c"],
     [("verdict computation", "src/cmd_test.c"), ("TAP state", "src/formats/tap.c")],
     ["records written by the test programs themselves", "runner output and exit status"])

prop("C17", "Test scheduling respects job limits, serial tests, priority and timeouts",
     """In every run of the test suite, at no moment do more than -j tests run; a test declared not parallel never
     overlaps any other; the tests of a project start in order of decreasing priority; a test exceeding its timeout is stopped with the processes it
     started and reported as timed out while others continue, and fail-fast starts no further test after a failure and leaves none running.""",
     ["schedules"],
     "all test sets, durations, job counts and completion orders",
     "Tests never look at overlaps or start order; they vary with timing.",
     ["src/cmd_test.c", "src/platform/posix/run_cmd.c"],
     [("job slots", "src/cmd_test.c push_test/check_tests"), ("kill on timeout", "src/cmd_test.c")],
     ["start and end events recorded by the test programs with a monotonic clock"])

prop("C18", "Commands' output, status and environment come back complete and exact",
     """For every command that muon runs on a project's behalf, the standard output, standard error and exit status seen by the project are
     exactly what the program produced, at any size, chunking, interleaving and speed, and the capture, feed and environment given to it are applied exactly. A command that
     cannot be started, is killed, or fails with check enabled is reported as an error.""",
     ["schedules", "inputs", "fault_sequences"],
     "all output sizes and contents, write chunkings and interleavings, exit statuses, signals and environments",
     "Tests run echo-like commands; buffer boundaries and slow or interleaved writers are not reached.",
     ["src/platform/posix/run_cmd.c", "src/functions/kernel.c", "src/functions/run_result.c", "src/main.c"],
     [("pipe draining", "src/platform/posix/run_cmd.c"), ("internal exe capture/feed", "src/main.c cmd_exe")],
     ["stdout()/stderr()/returncode()", "files produced by captured custom targets"])

prop("C19", "Incremental builds equal clean builds and do no unneeded work",
     """After any sequence of edits, deletions, interruptions and manifest changes, a successful build by the embedded ninja leaves every requested output as a build from scratch
     would; an immediately repeated build runs no command; a command runs only after its inputs are complete, only
     if something it depends on (inputs, depfile entries, order-only production, its own command line) requires it, and at most once. Restat outputs
     that did not change prune what follows, and parallelism and pool limits are never exceeded.""",
     ["histories", "schedules"],
     "all build graphs, edit histories and job counts",
     "The embedded build tool has no tests of its own here; stale outputs need histories of edits.",
     ["src/external/samurai/build.c", "src/external/samurai/graph.c", "src/external/samurai/deps.c", "src/external/samurai/log.c", "src/external/samurai/parse.c", "src/external/samurai/scan.c", "src/external/samurai/env.c"],
     [("dirty computation", "src/external/samurai/build.c"), ("command hash log", "src/external/samurai/log.c"), ("depfile log", "src/external/samurai/deps.c")],
     ["event log written by the commands", "output file contents compared with a model"])

prop("C20", "The build tool recovers from interruption and damaged logs",
     """If the embedded ninja or any command is killed at any moment, or a log file is truncated at any byte, removed, or damaged by foreign or cut-off records, the next build finishes normally and ends in
     the same outputs as a build from scratch; a failing command never counts as done, its outputs
     are rebuilt next time, and the exit status of a build with any failure is nonzero.""",
     ["crash_points", "fault_sequences", "histories"],
     "all kill points of a build, all truncations and damage of the build and dependency logs, all sets of failing commands",
     "No test interrupts a build or damages a log.",
     ["src/external/samurai/log.c", "src/external/samurai/deps.c", "src/external/samurai/build.c"],
     [("append-only log with recovery", "src/external/samurai/log.c loginit"), ("deps log validation", "src/external/samurai/deps.c depsinit")],
     ["exit status, command records and outputs after restart"])

prop("C21", "No data file muon reads can crash, corrupt or hang it",
     """For every byte sequence found in a ninja manifest, build or dependency log, depfile, wrap file, editorconfig or formatter configuration, key-value file, JSON
     input, pkg-config file, TAP stream, or ELF file given to the install-time rpath fixer, muon ends in success or a reported error: no memory error, undefined behaviour,
     failed assertion, signal or endless loop.""",
     ["inputs"],
     "all byte sequences in each of the non-language inputs",
     "Tests only contain well-formed files of each kind.",
     ["src/external/samurai/parse.c", "src/external/samurai/scan.c", "src/external/samurai/log.c", "src/external/samurai/deps.c", "src/formats/ini.c", "src/formats/editorconfig.c",
      "src/formats/tap.c", "src/formats/lines.c", "src/wrap.c", "src/platform/posix/rpath_fixer.c", "src/external/tinyjson.c", "src/functions/modules/keyval.c"],
     [("hand-written parsers", "each listed file")],
     ["exit status and sanitizer reports"])

prop("C22", "Wrapped subprojects are only used when they match their recorded hash",
     """A wrap's archive or patch is unpacked only if its SHA-256 equals the one in the wrap file; otherwise setup fails and no subproject directory is left that a later run would accept.
     Local packagefiles archives, overlays and diffs are applied exactly, and unpacking writes only inside the subprojects directory.""",
     ["inputs", "histories", "fault_sequences"],
     "all archives, hashes, patch overlays and prior states of the subproject directory",
     "Tests have no wraps with wrong hashes, hostile member names or interrupted unpacking.",
     ["src/wrap.c", "src/sha_256.c", "src/external/libarchive.c"],
     [("hash check before extraction", "src/wrap.c"), ("sha256", "src/sha_256.c")],
     ["subprojects directory and its surroundings after setup"])

prop("C23", "Dependency lookup honours version, fallback, override and caching rules",
     """For every dependency() call the result is found exactly when the deciding candidate satisfies the requested version: an override, or the dependency an earlier lookup
     of that name found, if there is one; else an already configured or forced fallback; else pkg-config and, when that gives nothing, an allowed fallback. A found dependency has the
     compile and link arguments, version and variables of that candidate; otherwise the result is not-found, a disabler or an error according to required and disabler. The outcome does
     not depend on earlier unrelated or failing lookups. A subproject() is found exactly when it configures with a satisfying version, and a .pc file muon generates gives consumers the
     declared version, flags and variables.""",
     ["configurations", "histories", "inputs"],
     "all sets of installed .pc files, overrides, fallbacks, version constraints, required values and call sequences",
     "Tests depend on what is installed and look up a few fixed names.",
     ["src/functions/kernel/dependency.c", "src/external/libpkgconf.c", "src/functions/dependency.c", "src/functions/modules/pkgconfig.c", "src/functions/meson.c"],
     [("lookup order and cache", "src/functions/kernel/dependency.c"), ("pkgconfig file writer", "src/functions/modules/pkgconfig.c")],
     ["found(), version(), variables and arguments seen by the project", "generated .pc files read by pkg-config"])

prop("C24", "Path and file functions agree with POSIX path semantics",
     """For all paths, joining, the / operator, parent, name, stem, suffix replacement, relative path, absolute and subpath tests, expanduser and as_posix return what POSIX path
     semantics define, and never produce a different file than the input denotes. Queries about existing files (exists, is_file, is_dir, is_symlink, size, hash, read, is_samepath)
     agree with the file system, whatever the names and bytes.""",
     ["inputs"],
     "all path strings with dots, slashes and odd bytes; all file trees",
     "Tests use a few ordinary paths.",
     ["src/platform/path.c", "src/functions/modules/fs.c", "src/platform/filesystem.c", "src/platform/posix/filesystem.c", "src/sha_256.c"],
     [("path normalisation", "src/platform/path.c"), ("fs module", "src/functions/modules/fs.c")],
     ["messages of muon internal eval and setup"])

prop("C25", "A disabler propagates through everything that touches it",
     """Whatever expression, method call, function argument (nested in arrays or keywords too) or condition involves a disabler yields a disabler and
     has no side effect, an if on a disabler takes neither its branch nor its effects, and only is_disabler, is_variable, set_variable/get_variable,
     message-style exemptions and found() observe it without being disabled.""",
     ["programs"],
     "all expressions and calls containing a disabler at any depth",
     "Tests check a dozen placements.",
     ["src/lang/interpreter.c", "src/functions/common.c", "src/functions/disabler.c"],
     [("disabler check before dispatch", "src/functions/common.c, src/lang/interpreter.c")],
     ["messages and effects of evaluated programs"])

prop("C26", "Source sets select exactly the sources their rules select",
     """For every source set built from any nesting of add and add_all with conditions, apply returns exactly the sources and dependencies of the rules whose conditions hold
     (and if_false otherwise), each at most once and in order, all_sources and all_dependencies return every one regardless of conditions, and a set that has been
     used or is frozen refuses changes.""",
     ["programs", "configurations"],
     "all rule nestings and configurations",
     "Tests use a few fixed rule sets.",
     ["src/functions/source_set.c", "src/functions/source_configuration.c", "src/functions/modules/sourceset.c"],
     [("rule evaluation", "src/functions/source_set.c")],
     ["sources() and dependencies() printed by the project"])

prop("C27", "The meson-compatible command line means the same as the native one",
     """For every supported command line written for the reference implementation's interface, the build directory, option values, build, test and install results are those of the corresponding
     native command, whichever way muon is invoked (as 'muon meson' or under the name 'meson') and wherever options and operands stand; options that the help marks as ignored (with their value, if they
     take one) have no effect. Unknown subcommands and options, missing values, values given to flags and unsupported values are refused without effect, and build files written this way regenerate themselves.""",
     ["configurations"],
     "all supported subcommands and option spellings",
     "The tests drive only the native interface.",
     ["src/meson_opts.c", "src/main.c", "src/opts.c"],
     [("argument translation", "src/meson_opts.c")],
     ["build directory snapshots and exit status"])

prop("C28", "Lookups in large and churning containers stay exact",
     """For dictionaries, arrays, variable scopes and configuration data of any size and any history of insertions, overwrites, merges and deletions, every lookup, membership test, length,
     iteration and key listing returns exactly the current entries, each once, in insertion (or sorted, where defined) order.""",
     ["histories", "inputs"],
     "all operation histories and key sets up to tens of thousands of entries, including colliding and prefix-sharing keys",
     "Growth, rehashing and tombstones need thousands of operations; tests use a dozen keys.",
     ["src/datastructures/hash.c", "src/datastructures/bucket_arr.c", "src/datastructures/arr.c", "src/lang/object.c", "src/functions/dict.c", "src/functions/configuration_data.c"],
     [("open addressing with tombstones and growth", "src/datastructures/hash.c"), ("small-dict to hash switch", "src/lang/object.c")],
     ["messages of muon internal eval"])

prop("C29", "Declared signatures are enforced at every call",
     """Every call that passes a missing, surplus, unknown, duplicated or wrongly typed positional or keyword argument to a built-in or user-defined function is refused with an error before the function has any
     effect, and every call that satisfies the declared signature is accepted by the argument check; user-defined functions bind arguments, defaults, return values and captured variables as declared.""",
     ["inputs", "programs"],
     "all functions times all argument shapes",
     "Tests call functions mostly correctly.",
     ["src/functions/common.c", "src/lang/typecheck.c", "src/lang/interpreter.c"],
     [("pop_args and type checking", "src/functions/common.c"), ("function definitions and closures", "src/lang/interpreter.c")],
     ["exit status and diagnostics of evaluated calls"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P))
