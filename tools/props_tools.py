NOTE = 'random exploration: no proof of absence'
def S(id, title, statement, quant, why, mech, how, over, files, tech, note=NOTE):
    return dict(id=id, title=title, statement=statement, over=list(over), quant=quant, why=why, files=files, mech=mech, how=how, tech=tech, note=note)
PROPS = [
 S('T01', 'Merged profiles hold the sum of all profiles',
   'Merging the coverage profiles of several suites gives one well-formed profile with every block of every file exactly once, in order, with the sum of the counts of all profiles (or, in mode set, whether any of them ran it); merging pprof profiles gives the sum of their samples. Nothing is lost because files, blocks or profiles come in another order or are missing from some of them.',
   'all sets of well-formed profiles', 'tests merge two fixed files',
   [('coverage merge', 'ginkgo/internal/gocovmerge.go'), ('profiles', 'ginkgo/internal/profiles_and_reports.go')],
   'Source files of generated blocks (touching, with gaps, several per line), profiles that cover generated subsets of files and blocks in generated order with generated counts, merged with MergeAndCleanupCoverProfiles; the result, read by an independent parser, must be the union with the sums. pprof profiles with generated samples go through MergeProfiles and are compared by stack. Non-trivial: a file is in two profiles; two profiles have samples.',
   ('inputs',), ['ginkgo/internal/gocovmerge.go', 'ginkgo/internal/profiles_and_reports.go'], 'generated profiles against a reference sum (rapid, shrinking)'),
 S('T02', 'unfocus removes all programmatic focus and nothing else',
   'After `ginkgo unfocus` no Go file outside vendor and hidden directories focuses anything: every F-prefixed container, spec, table or entry has become the plain one and no Focus decorator is left. Everything else (comments, strings, other identifiers, formatting, files without focus, files that do not parse) is as it was, and what compiled still compiles.',
   'all source trees', 'tests sample a fixture; must hold for every place where focus can be written',
   [('unfocus', 'ginkgo/unfocus/unfocus_command.go')],
   'Source files are generated from a grammar of Ginkgo calls: prefixes, Focus decorators in any position, dot, named and aliased imports, look-alikes in strings, comments, selectors and fields, generated layouts, directories that are to be skipped and files that do not parse. The expected text is rendered by the generator itself, not parsed from the input. Non-trivial: a file has focus.',
   ('inputs', 'programs'), ['ginkgo/unfocus/unfocus_command.go'], 'generated sources against the generator’s own rendering without focus (rapid, shrinking)'),
 S('T03', 'outline and labels describe the file as it will run',
   '`ginkgo outline` lists every container, spec, setup node, By and table entry of a file once, nested as in the source, with its text, labels and byte range, and says it is focused, pending or a spec exactly as the running suite would; `ginkgo labels` lists every label of a package once, sorted. All three output formats agree.',
   'all source files', 'tests compare a dozen fixtures',
   [('outline', 'ginkgo/outline/outline.go'), ('nodes', 'ginkgo/outline/ginkgo.go'), ('import', 'ginkgo/outline/import.go'), ('labels', 'ginkgo/labels/labels_command.go')],
   'Trees of Ginkgo calls are generated with prefixes, decorators (qualified or not), labels, tables, By steps, dot, named and aliased imports and look-alikes, rendered to source with known offsets, outlined through the command itself, and compared with a model that applies the rules of focus and pending. The CSV, indented and JSON formats are read back and must agree. Labels are generated over several files of a package. Non-trivial: a container with children and focus or pending; a label used twice.',
   ('inputs', 'programs'), ['ginkgo/outline/outline.go', 'ginkgo/outline/ginkgo.go', 'ginkgo/outline/import.go', 'ginkgo/outline/outline_command.go', 'ginkgo/labels/labels_command.go'], 'generated sources against a model of the outline (rapid, shrinking)'),
 S('T04', 'A run finds exactly the suites in the places it is told to look at',
   'For every source tree and set of arguments (directories, dir/..., -r, precompiled binaries, absolute paths, none), the suites of a run are exactly the directories with test files that go test would take, in order, vendor and hidden directories left out of recursion; each is known as a Ginkgo suite only if one of those files imports Ginkgo; a package is skipped only if its path contains an element of --skip-package; randomising the suites keeps them all and depends on the seed only.',
   'all source trees, working directories and arguments', 'tests sample a handful of layouts',
   [('finding suites', 'ginkgo/internal/test_suite.go')],
   'Directory trees with test files, files go test ignores, look-alikes, plain go tests, precompiled binaries, vendor, hidden and nested directories are generated and laid out in scratch; FindSuites is run with generated arguments from a generated working directory and compared, in order and field by field, with an oracle that knows the tree from the case and does not read it. Two genuine defects are recorded, not repaired, because a file called test_suite.go counts as a test file that commits may not change; only a result that is what these two defects make of the case counts as known. Non-trivial: two suites, a skipped one or a compiled one.',
   ('inputs', 'configurations'), ['ginkgo/internal/test_suite.go'], 'generated source trees against a model (rapid, shrinking)'),
 S('T05', 'bootstrap and generate write a suite of the package they are run in',
   'In any directory of any module, `ginkgo bootstrap` and `ginkgo generate` write exactly the files named after the directory or the given subjects, never touch a file that exists, leave nothing behind when they fail, and what they write is formatted Go that belongs to the package of the directory (external unless --internal), imports Ginkgo, Gomega and the package under test by its true import path, and holds the suite or the container named after the subject. Custom templates get the same facts and the custom data.',
   'all directory names, modules, flags, subjects and templates', 'tests sample a dozen cases',
   [('bootstrap', 'ginkgo/generators/bootstrap_command.go'), ('generate', 'ginkgo/generators/generate_command.go'), ('names', 'ginkgo/generators/generators_common.go')],
   'Modules with generated go.mod spellings and nested directories of generated names, directories with and without Go files of a known package, generated flags, subjects, templates and template data; the written files are parsed and compared with what the case says. Run twice in part of the cases. A small part uses the real go fmt. Non-trivial: anything but one new directory in a plain module.',
   ('inputs', 'configurations'), ['ginkgo/generators/bootstrap_command.go', 'ginkgo/generators/generate_command.go', 'ginkgo/generators/generators_common.go'], 'generated packages and arguments against an independent reading of the files written (rapid, shrinking)'),
 S('T06', 'What the ginkgo command runs, says and ends with is what the suites did',
   'For every set of suites (compiled, precompiled, plain go tests, broken or empty ones) and of flags (procs, keep-going, repeat, until-it-fails, randomize-suites, timeout, reports, output-dir, -o, after-run-hook), the ginkgo command runs each suite in as many processes and as often as told and no suite after a failure unless told to keep going. It exits 0 only if all passed, 197 if they did with programmatic focus, 1 otherwise, also when a spec exits, a process is killed or the command is interrupted; --timeout is a limit to all rounds together; the verdict, the list of failing suites with their reasons, the reports, merged or separate, and what the hook is told after each run of a suite say the same; nothing is left behind, and it ends.',
   'all sets of suites, outcomes, flags and points at which a process dies', 'tests run a few fixed fixtures; the combinations of fates, flags and crashes are never exercised together',
   [('run command', 'ginkgo/run/run_command.go'), ('running a suite', 'ginkgo/internal/run.go'), ('compilation', 'ginkgo/internal/compile.go'), ('reports', 'ginkgo/internal/profiles_and_reports.go'), ('failing suites', 'ginkgo/internal/utils.go')],
   'The real command runs 1–4 generated suites in scratch. Every suite is one compiled fixture that does what its case says (pass, fail, skip, panic, os.Exit, SIGKILL, per run) and logs what it ran; a stand-in for the go command links to it, fails, reports no test files or interrupts the command. An oracle that walks the suites in order gives the fate of each, the rounds and the exit status; exit status, verdict, logs, failing suites, JSON, JUnit and Teamcity files and the files left are compared with it. A sub-check lets the timeout elapse after some suites and rounds, in blocked and in busy specs. Non-trivial: two suites or rounds, with a failure or a report.',
   ('inputs', 'configurations', 'programs', 'crash_points'), ['ginkgo/run/run_command.go', 'ginkgo/internal/run.go', 'ginkgo/internal/compile.go', 'ginkgo/internal/profiles_and_reports.go'], 'generated suites, flags and crashes against a model of the run (rapid, shrinking)'),
 S('T07', 'Coverage and performance profiles are those of the processes that ran',
   'Whatever the number of processes and suites, with --cover the composite (or, with --keep-separate-coverprofiles, each suite\'s) profile counts every block exactly as often as the specs of that run executed it in processes that lived to write theirs, and the percentage printed is that of the profile; cpu, memory, block and mutex profiles of the processes are merged into one per suite in its place. A process that dies before it writes its profile costs neither the other profiles nor the other suites nor the reports; no partial profile is left behind.',
   'all sets of suites, numbers of processes, flags and crashes', 'tests merge the profiles of one fixture',
   [('merging', 'ginkgo/internal/profiles_and_reports.go'), ('running a suite', 'ginkgo/internal/run.go'), ('coverage merge', 'ginkgo/internal/gocovmerge.go')],
   'As T06, with a fixture compiled for coverage in which spec k runs block k of a source file. What each process ran is read from the log of the fixture, independent of the profiles; counts, percentages, places, kinds of profiles and leftovers are compared with it. Non-trivial: the profiles of two processes or suites are merged.',
   ('inputs', 'configurations', 'crash_points'), ['ginkgo/internal/profiles_and_reports.go', 'ginkgo/internal/run.go', 'ginkgo/internal/gocovmerge.go'], 'generated suites and crashes against counts kept by the fixture (rapid, shrinking)'),
 S('T08', 'ginkgo watch runs a suite again when, and only when, its sources change',
   'Whatever happens to the watched source trees (files written, replaced by older or newer ones, deleted, broken, directories removed and made again, imports changed, also while suites run), at every check each new suite is run, each suite is run again if a watched file of its own package or a code file of one of its dependencies (down to the depth, as they were when it last ran) has changed since, and no other suite is; suites that are gone are forgotten and can come back.',
   'all source trees and histories of changes', 'tests make a few changes one at a time',
   [('deltas', 'ginkgo/watch/delta_tracker.go'), ('hashes', 'ginkgo/watch/package_hash.go'), ('dependencies', 'ginkgo/watch/dependencies.go'), ('suites', 'ginkgo/watch/suite.go')],
   'A GOPATH tree of 1–6 generated packages with generated imports goes through a generated history of changes and ticks, with changes also between the check and the run of each suite; DeltaTracker is driven as the command drives it. A model that knows the tree from the case holds the state of what each suite watched when it last ran, and says what must and what may run again (a change that is undone before the next check need not be seen). Non-trivial: a suite runs again for a dependency, and another does not.',
   ('histories', 'programs'), ['ginkgo/watch/delta_tracker.go', 'ginkgo/watch/package_hash.go', 'ginkgo/watch/package_hashes.go', 'ginkgo/watch/dependencies.go', 'ginkgo/watch/suite.go'], 'generated histories of changes against a model of the tree (rapid, shrinking)'),
 S('T09', 'The ginkgo command does what its arguments ask, or says what is wrong',
   'For every command line, the program runs exactly the command that is named (else the default one), with the flags parsed into their bindings, the arguments and the arguments after “--” that were given, or explains the command, the flags or the list of commands that were asked for, or says what cannot be understood; the exit code says which. Messages and usages repeat what was given literally. Each deprecated command, flag or feature that was used is reported once with all the places known to use it, unless the version is acknowledged.',
   'all command lines, all sets of commands and flags', 'tests try one program with a handful of arguments',
   [('program', 'ginkgo/command/program.go'), ('commands', 'ginkgo/command/command.go'), ('flags', 'types/flags.go'), ('deprecations', 'types/deprecation_support.go')],
   'program: programs of generated commands, flags of all kinds (deprecated, in sections, unexported), deprecated commands and command lines (words, flags, values, help, “--”, %, blanks) are executed with their exits recorded; a model of the package flag’s syntax says which command runs with which bindings and arguments, what is printed and the exit code. deprecations: generated histories of uses with an acknowledged version, against a model of the report. Non-trivial: a command runs with a flag or an argument, or an argument is rejected; a deprecation is used at two places.',
   ('inputs', 'configurations'), ['ginkgo/command/program.go', 'ginkgo/command/command.go', 'ginkgo/command/abort.go', 'types/flags.go', 'types/deprecation_support.go', 'formatter/formatter.go'], 'generated programs and command lines against a reference parser (rapid, shrinking)'),
 S('T10', 'ginkgo build leaves a binary of each suite that compiles, and says which do',
   'For every set of suites and of build flags, ginkgo build compiles each suite that is not skipped exactly once, in its directory, with the flags given, symbols kept and at most --compilers at a time, and leaves its binary where it says: beside the suite, at the file given with -o, or in the directory given with -o, which may have to be made. It lists the suites in order as compiled or as failed with what go said, counts no suite without test files as either, exits 1 exactly if one failed to compile or there is none, leaves nothing else behind, and warns of each suite that uses another version of Ginkgo.',
   'all sets of suites, ways to (not) compile, flags and output paths', 'tests build two fixtures that compile; failures, empty suites and kinds of -o are never mixed',
   [('build command', 'ginkgo/build/build_command.go'), ('compiling a suite, and several in parallel', 'ginkgo/internal/compile.go'), ('versions', 'ginkgo/internal/verify_version.go')],
   'The real command builds 1–5 generated suites in scratch with a stand-in for go that logs when it begins and ends and, as the case says, writes a binary that names its suite, warns, fails with or without a word, writes nothing, or reports no test files; go list tells a generated version. A model says which lines come in which order, the exit status, the files that are there afterwards and whose binaries they are, how often and with what go was called, and how many calls may be open at once. Non-trivial: two suites, or -o, or a suite that does not just compile.',
   ('inputs', 'configurations', 'schedules'), ['ginkgo/build/build_command.go', 'ginkgo/internal/compile.go', 'ginkgo/internal/verify_version.go'], 'generated suites and flags against a model of the build (rapid, shrinking)'),
]
