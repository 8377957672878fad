NOTE = 'random exploration of programs and schedules: no proof of absence; a schedule is whatever the processes happen to do, spread by delays'
def S(id, title, statement, quant, why, mech, how, over, files, tech, note=NOTE):
    return dict(id=id, title=title, statement=statement, over=list(over), quant=quant, why=why, files=files, mech=mech, how=how, tech=tech, note=note)
PAR = 'How: one generated suite is run by two to four engines side by side (one goroutine each, each with its own copy of the suite, writer and failer) against a real parallel server, over RPC or HTTP, with some processes starting late and bodies that sleep. '
PROPS = [
 S('P01', 'Parallel processes share out the specs: each runs once, as it would serially',
   'When a suite runs on several processes, every spec that is to run runs on exactly one process, specs of an Ordered container (or any other group that stays together) on the same one, in the order a serial run would take them; setup, teardown and outcomes are for every spec those of a serial run; and specs that are not run are reported once.',
   'all suites, numbers of processes and schedules', 'depends on how processes interleave; tests run a few fixed suites once',
   [('counter that shares out the groups', 'internal/suite.go runSpecs, internal/parallel_support FetchNextCounter'), ('parallel sections of the order', 'internal/ordering.go OrderSpecs')],
   PAR + 'Union, disjointness and order are checked on the histories of all processes, and each process is compared with the reference model (E01) given the specs it drew; the aggregated report must hold exactly the reports of all processes. Non-trivial: specs ran on at least two processes.',
   ('programs', 'configurations', 'schedules'), ['internal/suite.go', 'internal/ordering.go', 'internal/group.go', 'internal/parallel_support/server_handler.go'], 'generated suites on several engines and a real server, against a reference model (rapid)'),
 S('P02', 'Suite setup and teardown are synchronized across processes',
   'The first body of SynchronizedBeforeSuite runs on process 1 only, before the second body runs anywhere, and every process is given exactly the data it returned; when it fails, every other process fails and no spec runs. The second body of SynchronizedAfterSuite runs on process 1 only, after every other process has finished; BeforeSuite and AfterSuite run on every process. ReportBeforeSuite runs first and ReportAfterSuite last, on process 1 only, with the reports of every process.',
   'all suites, numbers of processes, outcomes of the bodies and schedules', 'a protocol between processes: depends on who is late',
   [('synchronized nodes', 'internal/suite.go runSuiteNode'), ('reporting nodes', 'internal/suite.go runReportSuiteNode'), ('server', 'internal/parallel_support/server_handler.go')],
   PAR + 'The bodies record what they are given and when; failing, skipping, aborting and panicking bodies on all or some processes; in a sub-check, bodies that time out. Non-trivial: a synchronized node ran.',
   ('programs', 'schedules'), ['internal/suite.go', 'internal/parallel_support/server_handler.go', 'internal/parallel_support/rpc_client.go', 'internal/parallel_support/http_client.go'], 'generated suites on several engines and a real server, against a reference model (rapid)'),
 S('P03', 'Serial specs run alone',
   'A Serial spec runs on process 1 and only after every other process has finished its specs; nothing else runs at the same time as it.',
   'all suites and schedules', 'an exclusion property over schedules',
   [('serial groups', 'internal/ordering.go, internal/suite.go runSpecs'), ('waiting for the other processes', 'internal/parallel_support BlockUntilNonprimaryProcsHaveFinished')],
   PAR + 'Every body records entry and exit on a common clock; intervals of Serial specs must not meet those of any body of another process. Non-trivial: Serial specs ran and other processes ran specs.',
   ('programs', 'schedules'), ['internal/suite.go', 'internal/ordering.go', 'internal/parallel_support/server_handler.go'], 'generated suites on several engines, exclusion checked on the history (rapid)'),
 S('P04', 'The parallel server keeps one consistent account of the run',
   'The server that coordinates the processes hands out every number of the counter once and in order, delivers the data of process 1 to whoever asks, reports when the other processes have finished or one disappeared before it was done, remembers an abort, prints each process\' reports in the order they were sent and none before the beginning of the suite, and aggregates suite reports into one that succeeds only if every process did, with every spec once. Both protocols behave the same.',
   'all sequences of calls by any number of clients, any arrival order, both protocols', 'a state machine shared by processes; tests make a few calls each',
   [('handler', 'internal/parallel_support/server_handler.go'), ('clients', 'internal/parallel_support/rpc_client.go, http_client.go'), ('aggregation', 'types/types.go Report.Add')],
   'How: generated sequences of calls from two to five clients (RPC or HTTP) against a real server with a reference model of the account: begin and end reports in any order, held reports, counter, before-suite state, aborts, processes that go away, and calls that block until something happens. Concurrent callers draw from the counter; processes deliver their data and leave while others ask. Non-trivial: at least two processes made calls.',
   ('inputs', 'schedules'), ['internal/parallel_support/server_handler.go', 'internal/parallel_support/rpc_client.go', 'internal/parallel_support/http_client.go', 'internal/parallel_support/rpc_server.go', 'internal/parallel_support/http_server.go', 'types/types.go'], 'stateful model-based generation of calls against a real server (rapid, shrinking)'),
 S('P05', 'A failure on one process stops the others, with teardown',
   'When a spec aborts the run, or fails under fail-fast, bodies that are running on other processes are told to stop and no further spec starts anywhere; what had been set up is torn down on every process, the specs that were cut short are reported as interrupted by another process, the rest as skipped, and the suite fails.',
   'all suites, places of the failure, and schedules', 'what the others are doing at that moment is up to the schedule',
   [('abort', 'internal/parallel_support ShouldAbort, PostAbort'), ('polling', 'internal/interrupt_handler/interrupt_handler.go'), ('stopping', 'internal/suite.go')],
   PAR + 'One body stops the run; a few bodies elsewhere wait until they are told to. Obligations on the history hold for every schedule: who was told, that nothing starts afterwards, that every teardown owed was run, states and verdict. Non-trivial: specs ran on two processes, and a body was told to stop or a spec was skipped.',
   ('programs', 'schedules'), ['internal/suite.go', 'internal/group.go', 'internal/interrupt_handler/interrupt_handler.go', 'internal/parallel_support/server_handler.go'], 'generated suites on several engines, obligations checked on the histories (rapid)'),
 S('P06', 'A process that disappears never hangs the others or passes the suite',
   'When a process disappears in the middle of a body, the other processes still finish: whoever waits for it is released and fails, specs it had taken are lost but no other, suite teardown of the others runs, and the suite as a whole fails.',
   'all suites, places where a process may die, and schedules', 'a crash point anywhere in the protocol',
   [('liveness', 'internal/parallel_support server_handler.go procIsAlive'), ('errors from the server', 'internal/suite.go')],
   PAR + 'The engine of one process is stopped in the middle of a chosen body (its liveness function then reports it gone). Non-trivial: that happened.',
   ('programs', 'schedules'), ['internal/suite.go', 'internal/parallel_support/server_handler.go'], 'crash injection into generated parallel runs, obligations checked on the histories (rapid)'),
 S('P07', 'Output printed while it is intercepted is captured in full, all else is printed',
   'While output is intercepted, everything written to standard output and standard error (by any means, in the mode that redirects file descriptors) is captured in the order written and handed over when interception stops, also if it is paused and resumed in between or forwarded as well; outside of interception it reaches the original stdout and stderr. No file descriptor and no output is lost over any number of rounds.',
   'all sequences of start, forward, pause, resume, stop and prints of any size', 'stateful, with a pipe and goroutines behind it',
   [('output interceptor', 'internal/output_interceptor.go, output_interceptor_unix.go')],
   'Sequences of operations, with texts larger than a pipe and child processes that write (also ones that outlive the interception and hold on to the output: what is said then, and that later rounds are as ever), for both interceptors, in a scratch file in place of stdout; compared with a model of who should have received what, and open file descriptors are counted. Non-trivial: something is printed while output is intercepted.',
   ('inputs',), ['internal/output_interceptor.go', 'internal/output_interceptor_unix.go'], 'stateful model-based generation (rapid, shrinking)', 'random exploration: no proof of absence'),
]
