NOTE = 'random exploration: no proof of absence; quick tier tens of thousands of reports'
def S(id, title, statement, quant, why, mech, how, over, files, tech, note=NOTE):
    return dict(id=id, title=title, statement=statement, over=list(over), quant=quant, why=why, files=files, mech=mech, how=how, tech=tech, note=note)
REP = 'How: generated suite reports (harness/rep): specs in every state with containers, labels, failures nested in failures, timeline events, report entries of every visibility, captured output, progress reports, suite-level nodes, special characters, and every piece of text unique so that it can be found again. '
PROPS = [
 S('R01', 'JSON reports say what the run said, alone or merged',
   'A report written as JSON and read back is the report that was made, for every report; merging the files of several suites keeps every suite once, in the order given, and reports files that cannot be read.',
   'all reports', 'must hold for every field in every combination',
   [('JSON report', 'reporters/json_report.go'), ('encoding', 'types/types.go, types/report_entry.go')],
   REP + 'Written by GenerateJSONReport (one or several files), merged, read back with the public types and compared field by field. Non-trivial: a report with specs was written.',
   ('inputs',), ['reporters/json_report.go', 'types/types.go', 'types/report_entry.go'], 'round trip over generated reports (rapid, shrinking)'),
 S('R02', 'JUnit reports are well-formed and account for every spec',
   'The JUnit report of any run is well-formed XML with one test case per spec report (unless configured away), whose name, classname, labels, status, failure or error or skip element, output and times are those of the spec, and whose counts of tests, failures, errors and skipped agree with the cases; merged reports hold every suite and the sums.',
   'all reports and report configurations', 'must hold for every text and state; tests check a dozen specs',
   [('JUnit report', 'reporters/junit_report.go')],
   REP + 'Written by GenerateJUnitReportWithConfig under generated configurations, read by an XML parser and compared with an independent rendering oracle: which element holds which texts in which order. Non-trivial: a report with specs was written.',
   ('inputs', 'configurations'), ['reporters/junit_report.go', 'reporters/default_reporter.go', 'types/types.go'], 'generated reports against an independent reading of the document (rapid, shrinking)'),
 S('R03', 'Teamcity reports are well-formed and account for every spec',
   'Every line of the Teamcity report is a well-formed service message; suites and tests are opened and closed in pairs under one name; every spec appears once with its name, state, message, output and duration; merged reports keep every line of every file.',
   'all reports', 'must hold for every text and state',
   [('Teamcity report', 'reporters/teamcity_report.go')],
   REP + 'Parsed by an independent reader of service messages (unescaping) and compared. Non-trivial: a report with specs was written.',
   ('inputs',), ['reporters/teamcity_report.go'], 'generated reports against an independent reading of the document (rapid, shrinking)'),
 S('R04', 'The console says what happened, at every verbosity',
   'For every run and verbosity the console output announces the suite, emits every failing spec with its full text, failure message, location and (where configured) timeline, the events, entries and captured output that the verbosity and visibility ask for exactly once and in order, summarises failures again at the end, and closes with counts and a verdict that agree with the specs. Nothing that the verbosity hides is shown.',
   'all reports and configurations of the reporter', 'must hold for each of the combinations of state, verbosity and visibility',
   [('console', 'reporters/default_reporter.go')],
   REP + 'A whole run is played to the DefaultReporter (serial and parallel, colours off); an oracle written from the documentation says which texts must and must not appear, in which order. Non-trivial: the run has specs.',
   ('inputs', 'configurations'), ['reporters/default_reporter.go', 'types/types.go', 'formatter/formatter.go'], 'generated runs played to the reporter, against an oracle of what is shown (rapid, shrinking)'),
 S('R05', 'Formatting styles, indents and wraps text, and leaves it otherwise alone',
   'For every text, styling replaces exactly the known style tags (by escape sequences, by nothing, or not at all, as the mode says), indentation goes before every line, wrapping only turns spaces into line breaks such that no line is longer than asked for unless a single word is, and the words come out as they went in.',
   'all texts, indentations and widths', 'tests sample a few texts',
   [('formatter', 'formatter/formatter.go')],
   'Texts are generated from tags, near misses of tags, words, spaces and line breaks, and compared with an independent implementation and with invariants (words kept, width kept, the three modes agree once tags are removed). Non-trivial: the text is styled, indented or wrapped.',
   ('inputs',), ['formatter/formatter.go'], 'generated texts against a reference and invariants (rapid, shrinking)'),
 S('R06', 'The GinkgoWriter keeps, streams and tees all that is written, in order',
   'Everything written to the GinkgoWriter by any of its methods is kept in full and in order until it is truncated, streamed with indentation when streaming, and passed unchanged to every writer teed to at that time; writes from several goroutines are never lost or torn. Offsets and lengths reported agree with the bytes kept.',
   'all sequences of operations, all texts, concurrent writers', 'stateful and concurrent',
   [('writer', 'internal/writer.go')],
   'Sequences of writes, prints, logr calls, mode changes, truncation and tees against a model; concurrent writers whose texts must come out whole and in order per writer. Non-trivial: two writes or more, two goroutines or more.',
   ('inputs', 'schedules'), ['internal/writer.go'], 'stateful model-based generation, concurrent writers (rapid, shrinking)'),
 S('R07', 'Report entries keep their value, representation and place through encoding',
   'A report entry given any value represents it as documented (String, colourable string, or its Go form), keeps its name, visibility, position and time, and after JSON or RPC encoding and decoding has the same representation, for every value including those that cannot be encoded; a spec report decoded is the one encoded.',
   'all values and spec reports', 'values of any Go type',
   [('report entries', 'types/report_entry.go, internal/report_entry.go')],
   'Generated specs with entries of strings, numbers, structs, nested maps, pointers, nulls, stringers, colourable values and values that JSON refuses, through JSON and gob, once and twice. Non-trivial: the spec has a report entry with a value.',
   ('inputs',), ['types/report_entry.go', 'internal/report_entry.go', 'types/types.go'], 'round trip over generated values (rapid, shrinking)'),
 S('R08', 'A report that is asked answers for what it holds, and stays as it is',
   'What the methods of a report say (combined output, full text, labels, whether it failed or matches a label filter, its file and line, subsets and counts by state, node type, event type or visibility, flaked and repeated specs, goroutines of a progress report) is what its fields hold. The timeline has every failure, entry, progress report and event exactly once, in order; its filtered forms lack just what they say. Adding reports up gives the same sum in any grouping. States, node types, events and visibilities have a name of their own, which JSON keeps. No answer shares memory with the report. A reporter of Ginkgo V1 is told the same account.',
   'all reports, masks, label filters, and values of the enumerations', 'tests look at a few reports, each with a single interesting field',
   [('accessors', 'types/types.go SpecReport, SpecReports, Timeline, ProgressReport, SpecEvents, Report.Add'), ('names', 'types/enum_support.go EnumSupport'), ('V1', 'reporters/deprecated_reporter.go ReportViaDeprecatedReporter'), ('places', 'types/code_location.go ContentsOfLine, PruneStack')],
   REP + 'accessors: every method is asked and compared with what the plan of the report says; then what it gave is overwritten, and at the end the report must equal one built afresh. Sums are made from the left and from the right. enums: names against a table, JSON there and back, odd values and odd names; masks against the set of their members. v1: what a V1 reporter is told, call by call. places: lines of generated files, pruning of generated stacks. Non-trivial: three events on a timeline or two reports with specs; the report has specs; a line or frames are left.',
   ('inputs',), ['types/types.go', 'types/enum_support.go', 'types/report_entry.go', 'types/code_location.go', 'types/deprecated_types.go', 'reporters/deprecated_reporter.go'], 'generated reports asked by every method, against their plan (rapid, shrinking)'),
]
