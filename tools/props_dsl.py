NOTE = "random exploration: no proof of absence"
def S(id, title, statement, quant, why, mech, how, over, files, tech, note=NOTE):
    return dict(id=id, title=title, statement=statement, over=list(over), quant=quant, why=why, files=files, mech=mech, how=how, tech=tech, note=note)
PROPS = [
 S('C01', 'A node is what its arguments say, or it is reported',
   'Whatever arguments a function of the DSL is given, it either yields a node that is exactly what they say (labels, in order and once each; timeouts, attempts, priorities and the other decorators, the last one winning; slices of any nesting read as their elements; the body called with the context or report it asks for) or is reported with errors that name the faults; it never crashes, and never drops a decorator or a fault. DeferCleanup calls back its function once, with exactly the given arguments, a context if it asks for one and has none, and fails the spec if and only if an error it returns last is not nil.',
   'all arguments of nodes and of DeferCleanup: kinds of function, decorators, nils, slices, values', 'tests sample some valid and invalid argument lists per node; four of the crashes found here were combinations no test has',
   [('construction', 'internal/node.go NewNode, extractBodyFunction, extractSynchronized…Body'), ('decorators', 'isDecoration, PartitionDecorations, UnrollInterfaceSlice'), ('cleanup', 'NewCleanupNode')],
   'nodes: a node type and arguments over all decorators, 30 kinds of function (named types, other contexts, wrong signatures), nils, nested slices and junk are drawn; an independent table of what may be where predicts the fields of the node or the set of error headings, and the body that results is called and must receive what it asked for. cleanup: functions of generated signatures (variadic, nilable parameters, several results, own contexts) are deferred with generated values and decorators, called, and compared with a direct call. Non-trivial: two decorators; two parameters or a result.',
   ('inputs', 'programs'), ['internal/node.go', 'types/errors.go', 'core_dsl.go', 'decorator_dsl.go'], 'generated argument lists against a table of their meaning (rapid, reflect-made functions, shrinking)'),
 S('C02', 'The DSL is accepted where it is allowed and rejected everywhere else',
   'Wherever a function of the DSL is called (at the top level, in a container, in a running node of any kind, in a callback of By or of DeferCleanup, after the run), it is accepted if and only if the rules allow it there, and is otherwise rejected with the error for that fault. A rejected call has no effect on the suite: what was accepted runs as it would without it, and every accepted specification, suite node, deferred cleanup, By and report entry takes effect as often as it should.',
   'all nestings and sequences of calls', 'tests try some misplaced calls, one at a time, and do not run the suite after them',
   [('phases', 'internal/suite.go PushNode, pushCleanupNode, AddReportEntry, By'), ('rules', 'PushNode (Serial in Ordered, BeforeAll, ContinueOnFailure, suite nodes)'), ('tree', 'BuildTree')],
   'programs of calls, each with calls in its body, are drawn without regard to the rules; a model of the rules says of each call as it is made whether it is to be accepted, and which errors it may be given; the suite is then built and run and the specs, the number of times each node ran, and the cleanups, entries and steps in the reports are those of the accepted calls. Non-trivial: a call is rejected and a spec runs.',
   ('programs', 'histories'), ['internal/suite.go', 'internal/node.go', 'types/errors.go'], 'stateful model-based generation of DSL programs (rapid, shrinking)'),
 S('C03', 'A table is the specifications that its entries say',
   'DescribeTable and DescribeTableSubtree, with F, P and X, of any signature make one specification (or one container) per entry, in slices too, named by the entry’s own description or, if that is nil, by the table’s; with the entry’s labels, decorators, focus, pending mark and code location; its body called with exactly the entry’s parameters, a typed zero for nil and a context if it takes one and the entry gives none. An entry whose parameters do not fit the body or the description fails on its own, with an error that says so, and neither it nor any decorator disturbs the others.',
   'all tables: signatures, parameters, descriptions, decorators and their places', 'tests have a dozen tables of fixed signature',
   [('tables', 'table_dsl.go generateTable'), ('parameters', 'table_dsl.go validateParameters, invokeFunction, computeValue'), ('entries', 'table_dsl.go Entry, internal/node.go PartitionDecorations')],
   'up to three tables are drawn with a body of generated signature (any of ten parameter types, variadic, contexts), entries with fitting and wrong values, all forms of description and decorators among the parameters; the real DSL builds and runs them as the global suite. An independent model gives the name, labels, focus, state, location, failure and the values each body is to receive. Non-trivial: two entries.',
   ('inputs', 'programs'), ['table_dsl.go', 'internal/node.go', 'types/errors.go'], 'generated tables against a model of what they stand for (rapid, reflect-made bodies, shrinking)'),
 S('C04', 'Everything is said to be where the user wrote it',
   'Every node, table, entry, failure, skip, panic, By, report entry and deferred cleanup is located at the line of the user’s code that made it: the first function above the call that is not a helper (marked with GinkgoHelper, GinkgoT().Helper or MarkAsHelper), counted from as many calls up as a skip or Offset says, or the location given, the last of these winning; through GinkgoT and GinkgoTB, By callbacks, closures, methods, generics, goroutines and helpers of any depth. Stack traces list the user’s calls from there on, without Ginkgo’s.',
   'all call chains, calls of the DSL, skips and offsets', 'tests have a few chains of depth one or two; they do not have proxies, tables, callbacks and deep helpers in combination',
   [('lookup', 'types/code_location.go getCodeLocation, MarkAsHelper, PruneStack'), ('callers', 'internal/node.go NewNode, NewCleanupNode; core_dsl.go Fail, Skip, AbortSuite, GinkgoRecover; table_dsl.go'), ('proxies', 'ginkgo_t_dsl.go, internal/testingtproxy')],
   'chains of up to five links out of 21 kinds (plain, inlined, method, generic, helper of each kind, recursive, goroutine, By) end in one of 90 calls of the DSL with generated skips and offsets; every function has a file and line of its own (//line), so that the expected place and stack trace follow from the chain. prune: stack traces are generated. Non-trivial: a helper, a skip or an offset.',
   ('inputs', 'programs'), ['types/code_location.go', 'core_dsl.go', 'table_dsl.go', 'ginkgo_t_dsl.go', 'internal/node.go', 'internal/testingtproxy/testing_t_proxy.go'], 'generated call chains against the places they are made of (rapid, shrinking)'),
 S('C05', 'The configuration asked for is the configuration used',
   'Every flag of `ginkgo run`, `watch` and `build`, under its name or its deprecated one and in any spelling the flag package takes, sets its own part of the configuration and no other, a later one winning (or adding to lists); what is meant for the suite reaches it unchanged through the arguments with which each process is started, as it does through `go test -ginkgo.…`; what is meant for go reaches go build or the test binary under the right name, coverpkg seen from the package. Contradictory or invalid configurations, and only these, are rejected with an error for each fault.',
   'all command lines and configurations', 'tests look at a few flags with a few values',
   [('flag tables', 'types/config.go SuiteConfigFlags … GoRunFlags'), ('flag sets', 'types/flags.go GinkgoFlagSet'), ('export', 'types/flags.go GenerateFlagArgs'), ('vetting', 'types/config.go VetConfig, VetAndInitializeCLIAndGoConfig')],
   'transport: command lines are drawn over a table of all documented flags with awkward values; the flag set of the command must give the configuration that the table says, the arguments made from it are parsed by the flag set of a suite (with the flags of a test binary beside it), and the configuration there must be the same; likewise for go test and for plain tests. compile: the arguments of go build are compared with what the flags mean, paths of coverpkg from generated directories. vet: configurations are drawn over the faults that are documented, and the multiset of errors must be that of the faults. Two known findings concern flags whose zero is taken for unset. Non-trivial: three flags, one of them of the suite; something wrong.',
   ('inputs', 'configurations'), ['types/config.go', 'types/flags.go', 'types/errors.go'], 'generated command lines against a table of their meaning, round trip through the child’s arguments (rapid, shrinking)'),
 S('C06', 'A progress report shows what runs',
   'A progress report, whether asked for by a signal, polled, or made on a timeout, is made at once wherever the run is, and shows what runs there and nothing else: the spec, the node and since when, the latest By that has not ended, all that the spec has written so far, what each attached progress reporter says (of the node only while it runs), the goroutine that runs the node, and those goroutines that are in the packages of the spec, its containers, its node and its step, with the lines of source around each call in them if the file is there and long enough. It is emitted once, and is part of the report of its spec. A node is reported on its own after its PollProgressAfter, and then every PollProgressInterval, its own settings before those of the suite, 0 meaning never.',
   'all specs and nodes, moments, goroutines, reporters and polling settings', 'tests ask for a report at a few moments of a few specs, in which nothing has been left behind',
   [('report', 'internal/progress_report.go newProgressReport, fetchSource, extractRunningGoroutines'), ('state', 'internal/suite.go generateProgressReport, emitProgressReport, runNode'), ('reporters', 'internal/progress_reporter_manager.go')],
   'progress: specs with nodes of all types do things at random (write, By with and without callback, attach and detach reporters, start goroutines through functions of several packages, defer cleanups, leak after a timeout) and ask for a report in between, and also between the nodes; the runner knows what goes on and judges every part of each report, including those of timeouts and leaked nodes. The user code has files of its own (//line), some of which exist under source roots and some not or only in part. polling: nodes wait for as many polls as they are to get. Non-trivial: two requests, or two polls.',
   ('programs', 'schedules', 'configurations'), ['internal/progress_report.go', 'internal/progress_reporter_manager.go', 'internal/suite.go', 'internal/spec_context.go'], 'generated specs that ask for reports, against a model of what goes on (stateful, rapid, shrinking)'),
 S('C07', 'GinkgoT() is the testing.T of a spec',
   'What GinkgoT() and GinkgoTB() offer does to a spec what the same method of testing.T does to a test: variables set, directories entered, temporary directories, contexts and cleanups are undone when the spec (or the suite node) ends, whatever ends it, each once and in the reverse order; Log and its kind write to the spec’s output, Error, Fatal, Fail and Skip end it with the right state and message at the caller, Failed, Skipped, Name, report entries and the formatting helpers say what Ginkgo itself would. Every method of testing.TB is there.',
   'all sequences of calls in all nodes, whatever ends the spec', 'tests call each method once with a mocked testing.T or in a spec that passes',
   [('wrappers', 'ginkgo_t_dsl.go GinkgoTBWrapper'), ('proxy', 'internal/testingtproxy/testing_t_proxy.go')],
   'proxy: suites of up to three specs with nodes of all types do random things through GinkgoT(), GinkgoTB() and proxies made when the tree was built (set and change variables, enter directories, make temporary ones, ask for contexts, register cleanups that do things, log, fail, skip, go to other goroutines); a model that keeps a stack of what is to be undone says what the environment, the directory, the contexts and the report are at every step, at the end of each spec and after the suite. One known finding: contexts are cancelled in their place among the cleanups rather than before all of them. Non-trivial: something is set, made or changed that has to be undone.',
   ('programs', 'inputs'), ['ginkgo_t_dsl.go', 'internal/testingtproxy/testing_t_proxy.go', 'core_dsl.go'], 'generated uses of the proxy against a model of what is undone (stateful, rapid, shrinking)'),
 S('C08', 'RunSpecs runs the suite as configured and its process tells the outcome',
   'A suite run with RunSpecs or PreviewSpecs runs with the configuration given on the command line, or else the SuiteConfig and ReporterConfig that are passed (whatever the order of the arguments), and with all labels that are passed, in whatever way; what cannot be run like that (wrong settings, wrong arguments, a second run) is rejected before anything runs, with a message that names what is wrong. The configuration specs see, the report, the reports that are written, what RunSpecs returns, whether the test fails, and the exit code all tell the same outcome; a preview says what a run would choose, and leaves no trace in a run before or after it.',
   'all suites, configurations and combinations of arguments', 'tests run a few suites with a few flags each',
   [('entry', 'core_dsl.go RunSpecs, PreviewSpecs, extractSuiteConfiguration'), ('vetting', 'types/config.go VetConfig'), ('exit codes', 'types/types.go')],
   'runspecs: a process of its own runs each generated suite (specs that pass, fail, panic, skip, are pending or focused, with labels) with generated flags, SuiteConfig, ReporterConfig, labels, wrong arguments, previews before and after and second runs. A model says which specs run, what configuration they see, the state of each in the report, in the preview and in the JSON report, whether it is rejected and with what text, what RunSpecs returns, how often t.Fail is called and the exit code. Non-trivial: specs run with settings or labels of their own, or what is passed is rejected.',
   ('configurations', 'programs'), ['core_dsl.go', 'types/config.go', 'reporting_dsl.go', 'internal/global/init.go', 'internal/suite.go'], 'generated suites and configurations, each run in a process, against a model (rapid, shrinking)'),
]
