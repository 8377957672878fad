SRC = ['internal/group.go', 'internal/suite.go', 'internal/node.go', 'internal/failer.go']
MODEL = ('How: a generator (harness/prog/gen.go) builds whole suites as data - nested containers, setup, subject, cleanup and reporting nodes, '
 'decorators, and node bodies that are lists of actions (pass, fail, skip, abort, panic, Goexit, fail on another goroutine, register cleanup, write, attach, By, block) '
 'that can differ from one execution of the body to the next. The suite is built with the public DSL, run by the real engine in this process, and compared with a reference '
 'model written from the documentation (harness/prog/model.go) that predicts every body entered and every report, given only the order in which specs were started; '
 'independent obligations (every cleanup runs, AfterAll runs exactly once, order is a sound permutation) are checked on the predicted history too. ')
TECH = 'generated suites run against a reference model of the engine (rapid, shrinking)'
NOTE = 'random exploration: no proof of absence; suites up to ~10 specs and 4 levels; quick tier tens of thousands of suites'
def E(id, title, statement, quant, why, mech, how, over=('programs', 'configurations'), files=SRC, note=NOTE, tech=TECH):
    return dict(id=id, title=title, statement=statement, over=list(over), quant=quant, why=why, files=files, mech=mech, how=MODEL + how, tech=tech, note=note)
PROPS = [
 E('E01', 'Setup, subject and teardown bodies run in the documented nesting order',
   'For every spec the engine runs the setup closures from the outermost container inward, then all just-before closures, the subject, the just-after closures and the teardown closures from the innermost container outward, each exactly once and in definition order within a container and kind. When a setup closure fails, no further setup and no subject runs, and the teardown closures of exactly those containers that were reached still run. A container or setup node never contributes to a spec outside it.',
   'all trees of containers and setup nodes, all ways a body can end',
   'the integration suite samples a few fixed trees; the order must hold for every tree and every place a body may fail',
   [('per-spec node execution', 'internal/group.go attemptSpec'), ('sorting by nesting level', 'internal/node.go')],
   'Non-trivial: setup of at least three kinds over two or more levels.'),
 E('E02', 'Ordered containers run their setup once and always clean up',
   'Specs of an Ordered container run one after the other in definition order; its run-once setup runs once before the first spec that needs it and its run-once teardown once after the last spec that runs, whatever fails, is skipped, pending, filtered or retried. After a failure the remaining specs are skipped, unless the container continues on failure, in which case only a failed run-once setup skips the rest. Each-nodes marked once-per-ordered outside the container run once around it.',
   'all trees with Ordered containers (with and without continue-on-failure), all combinations of failing, skipping, retried and filtered specs',
   'which spec is "the last one" depends on the whole history of skips, failures and retries; tests fix a handful of histories',
   [('run-once tracker and last-spec logic', 'internal/group.go'), ('grouping', 'internal/ordering.go')],
   'Two generators: failures/skips/pending/filters with fail-fast, and retries/repetitions in Ordered containers. Non-trivial: an Ordered container with several specs and run-once setup.'),
 E('E03', 'Every failure reaches the report of its spec and the verdict of the suite',
   'The state of every spec, its primary failure (message, node, position) and its additional failures are exactly what its bodies did: the first failure is primary, later failures in teardown, cleanup or reporting closures become additional ones, a failure on another goroutine is attributed to the running spec, and a panic or runtime exit never passes. The suite succeeds if and only if no spec or suite-level node failed and no fail-on-pending or fail-on-empty rule was broken.',
   'all suites, all combinations of failing bodies', 'a failure may arise in any body in any combination with any other; tests cover single failures in fixed places',
   [('failure bookkeeping', 'internal/failer.go'), ('outcome of a spec', 'internal/group.go'), ('suite verdict', 'internal/suite.go')],
   'Non-trivial: something failed, was skipped or pending.'),
 E('E04', 'Flaky retries and must-pass repetitions follow their rules',
   'A spec with flake attempts N is attempted until it passes, at most N times, and the failures of lost attempts are kept as additional failures; a spec that must pass repeatedly is attempted until it fails, at most N times. The command line overrides decorators, the innermost decorator wins, skips and aborts end the attempts, setup and cleanup are run afresh for every attempt, and the report states the number of attempts made.',
   'all suites with retry/repetition decorators and flags, all sequences of outcomes of the attempts', 'the outcome of attempt n depends on the whole sequence of outcomes before it, across nested and run-once setup',
   [('attempt loop', 'internal/group.go run'), ('attempt arithmetic', 'internal/node.go')],
   'Bodies misbehave on chosen executions only (a bit mask), so that attempts differ. Non-trivial: a spec was attempted more than once.'),
 E('E05', 'Every registered cleanup callback runs exactly once, in reverse order',
   'Every cleanup callback registered by any body runs exactly once, with its arguments, after the scope of the node that registered it (spec, run-once setup, or suite) is over, in the reverse order of registration, whatever failed before. Callbacks registered by teardown or cleanup callbacks run too, and an error that a callback returns fails the spec it runs for.',
   'all suites, callbacks registered anywhere, to any depth', 'registration is dynamic: which callbacks exist and in which order depends on the history; tests use fixed ones',
   [('cleanup nodes', 'internal/node.go NewCleanupNode'), ('cleanup loop', 'internal/group.go, internal/suite.go')],
   'Non-trivial: at least three callbacks ran.'),
 E('E06', 'Fail-fast and abort stop the run but never skip cleanup',
   'With fail-fast, or after a spec aborts the suite, no further spec body starts and every remaining spec is reported as skipped; what was set up (in the spec, in its Ordered container, in the suite) is still torn down. The verdict is a failure.',
   'all suites, all places the stop can come from', 'the stop can come from any node at any point of an Ordered container or suite; tests fix one or two',
   [('skip-all flag', 'internal/suite.go, internal/group.go')],
   'Non-trivial: the run was stopped with specs left to skip.'),
 E('E07', 'Suite-level setup and teardown bracket the run',
   'Suite setup runs before any spec if and only if some spec will run, suite teardown and suite-scoped cleanup run at the end in the documented order even when setup or specs failed, and when suite setup fails no spec runs. A skip in suite setup skips every spec without failing the suite.',
   'all suites with suite-level nodes, all outcomes of those nodes, dry runs and filters', 'combinations of outcomes of setup, specs, teardown and cleanup are not covered by fixed tests',
   [('suite node execution', 'internal/suite.go runBeforeSuite, runAfterSuiteCleanup')],
   'Includes synchronized nodes in a serial run and the data they pass on. Non-trivial: a suite-level node ran.'),
 E('E08', 'Reporting nodes see every spec, with its state so far',
   'Before- and after-each reporting closures run exactly once for every spec of the suite, also for skipped and pending ones, outermost first and innermost first respectively, and are handed the current state; suite-level reporting closures run exactly once and see the counts and the verdict. A failing reporting closure fails a spec that has not failed yet and never hides an earlier failure.',
   'all suites with reporting nodes', 'must hold for every state a spec can be in and every combination with failing reporting nodes',
   [('report each', 'internal/suite.go reportEach'), ('report suite', 'internal/suite.go runReportSuiteNode')],
   'Non-trivial: two reporting nodes ran and specs differ in state.'),
 E('E10', 'Node, spec and suite timeouts end the right node and still clean up',
   'A body that exceeds its node, spec or suite deadline is told through its context (with the right cause), abandoned after the grace period if it does not leave, and reported as timed out by whichever deadline came first. Teardown and cleanup of what was set up still run, with their own timeouts; a failure the body reports on its way out is kept as an additional one; only a suite deadline ends the run.',
   'all suites, all placements and relative orders of the three kinds of deadlines, bodies that leave at once, late or never', 'the deadline that fires first and what is left to run vary with the tree; tests fix a few',
   [('runNode select loop', 'internal/suite.go runNode'), ('spec context', 'internal/spec_context.go')],
   'Deadlines are real but coarse (tens of milliseconds against hours), and a mismatch counts only if it repeats four times and again in a fresh process. Non-trivial: a body timed out.',
   over=('programs', 'schedules'), note='real time: deadlines are coarse so that load does not matter; a mismatch has to repeat; fewer cases (about 1500) than the other engine checks'),
 E('E11', 'An interrupt ends the running spec and runs the remaining cleanup',
   'When the user interrupts, the running body is told through its context and abandoned after the grace period, its spec is reported as interrupted, no further spec starts, and the teardown and cleanup of the spec, its Ordered container and the suite still run; a second interrupt skips cleanup but not reporting, a third ends the run. A failure recorded by the interrupted or abandoned body is never attributed to another spec, and an abandoned body never disturbs later ones.',
   'all suites, interrupts arriving in any body, bodies that heed or ignore them', 'an interrupt may arrive in any node of any history; tests fix a few',
   [('interrupt levels', 'internal/interrupt_handler'), ('runNode', 'internal/suite.go')],
   'Interrupts are delivered from inside the running body through a stand-in handler, so the schedule is owned by the harness. Non-trivial: an interrupt arrived while a body ran.',
   over=('programs', 'schedules')),
 E('E12', 'What a spec writes, attaches and announces ends up in its own report',
   "Everything written to the output writer or captured stdout during a spec, every entry attached and every step announced appears in that spec's report, in order, and in no other; node start and end events bracket every node that ran. Retried specs keep the output of all their attempts.",
   'all suites, all interleavings of output with failures and retries', 'attribution across attempts, failures and suite-level nodes is not covered by fixed tests',
   [('spec events, entries and writer truncation', 'internal/suite.go, internal/writer.go')],
   'Non-trivial: at least five things were written, attached or announced.'),
]
