SRC = ['internal/focus.go', 'internal/ordering.go', 'internal/suite.go', 'types/label_filter.go', 'types/file_filter.go']
NOTE = 'random exploration: no proof of absence; quick tier tens of thousands of suites or expressions'
def S(id, title, statement, quant, why, mech, how, over, files, tech, note=NOTE):
    return dict(id=id, title=title, statement=statement, over=list(over), quant=quant, why=why, files=files, mech=mech, how=how, tech=tech, note=note)
PROPS = [
 S('S01', 'Exactly the selected specs run; all others are reported as not run',
   'A spec runs if and only if it is not pending, is focused when the suite has programmatic focus (a focused container focuses its specs unless a focused node lies inside it) and no command-line filter is given, and satisfies every kind of command-line filter given: some focus expression and no skip expression matches the full text (suite description and container texts included), some focus-file and no skip-file filter matches the file and line of the spec or a container around it, and the label filter is true of the labels of the spec, its containers and the suite. Specs left out are reported as skipped, pending ones as pending, and the counts announced before the run say how many will run; programmatic focus is reported so that the command can fail.',
   'all suites (texts, labels, files, lines, focus and pending decorators) and all combinations of filters',
   'the five filters, focus propagation and pending interact; tests sample each on its own with a few specs',
   [('filters and programmatic focus', 'internal/focus.go ApplyFocusToSpecs, ApplyNestedFocusPolicyToTree'), ('file filters', 'types/file_filter.go'), ('label filter', 'types/label_filter.go')],
   'Two generators: suites with texts, labels, files and lines under combinations of all filters, and suites with nested Focus/Pending decorators. The oracle evaluates the filters from the generated syntax trees (never by parsing the strings handed to ginkgo) and the engine model then predicts the whole run. Non-trivial: some specs are selected and some are not.',
   ('programs', 'configurations'), SRC, 'generated suites and filters run against a reference model of selection (rapid, shrinking)'),
 S('S02', 'Label filters mean what the expression language says',
   'For every expression of the documented language (labels, /regular expressions/, !, &&, ||, the comma, parentheses, and key: isEmpty, containsAny, containsAll, consistsOf, isSubsetOf over sets), under any spacing and letter case, the compiled filter accepts a set of labels exactly when the expression is true of it; every other text is rejected with an error, never a crash or a silent acceptance. Labels themselves are validated and trimmed so that every accepted label can be named in a filter.',
   'all expressions of the language, all sets of labels, all texts', 'a parser with precedence and a set algebra: tests list a few dozen expressions',
   [('label filter parser', 'types/label_filter.go')],
   'Expressions are generated as syntax trees, rendered with minimal or redundant parentheses and random spacing, and evaluated by an independent evaluator on sets of labels drawn from the expression and near misses of it; malformed texts are made by deleting, doubling or swapping tokens so that an independent recogniser rejects them; arbitrary text must not crash and must be accepted only if the recogniser accepts it. Non-trivial: an expression with two or more operators that is true of some of the sets and false of others.',
   ('inputs',), ['types/label_filter.go'], 'grammar-based generation against an independent evaluator and recogniser (rapid, shrinking)'),
 S('S03', 'The seed alone decides the order, and containers stay together',
   'The order of specs is a permutation of the suite decided by the random seed, the randomize-all setting and the tree alone: running again, defining siblings in another order, and changing bodies, filters, setup or decorators that do not affect grouping leave it the same. Specs of a top-level container stay together in the order they appear (unless randomize-all), specs of an Ordered container always do, and over the seeds every permitted order of the units that are shuffled comes up.',
   'all trees, all seeds, all permutations of definitions', 'reproducibility is a relation between runs, over all trees and seeds',
   [('OrderSpecs and SortableSpecs', 'internal/ordering.go')],
   'Metamorphic: one suite is run up to four times (again, siblings permuted, everything else changed) and the orders compared; invariants on contiguity and definition order; a second check runs hundreds of seeds over small suites and requires all permitted orders and no others. Non-trivial: three top-level nodes and a container with several specs.',
   ('programs', 'configurations'), ['internal/ordering.go', 'internal/suite.go'], 'metamorphic relations between runs of generated suites (rapid, shrinking)'),
 S('E09', 'Previews and dry runs tell what a real run does, and change nothing',
   'A preview of a suite runs no body and reports every spec once, in the order the run will take, marked as to be run, skipped or pending exactly as the run will treat it; the suite that runs afterwards behaves as if it had not been previewed.',
   'all suites, filters, seeds and orders', 'relates two runs of any suite under any configuration; tests preview one fixed suite',
   [('PreviewSpecs', 'core_dsl.go'), ('cloning of the suite', 'internal/suite.go Clone, internal/global')],
   'The public PreviewSpecs is called on a generated suite and the suite is then run for real: preview against the selection oracle and the order of the run, run against the engine model. Non-trivial: some specs will run and some will not.',
   ('programs', 'configurations'), ['core_dsl.go', 'internal/suite.go', 'internal/global/init.go'], 'differential: preview, run and reference model on generated suites (rapid, shrinking)'),
 S('E13', 'Reports describe their spec: texts, places, labels, process and times',
   'The report of a spec carries the texts, source positions and labels of exactly the containers around it from the outside in, its own text, position and labels (with the label that a Serial decorator adds), its full text, whether it is serial and in an Ordered container, the process that ran it, and start and end times that agree with its run time; the suite report carries the description, labels, path, configuration, times and all spec reports in the order they were announced.',
   'all trees of containers and decorators', 'must hold for every nesting and combination of decorators',
   [('initial report of a spec', 'internal/group.go initialReportForSpec'), ('suite report', 'internal/suite.go runSpecs')],
   'Generated suites; expectation computed from the generated tree. Non-trivial: a spec in a container, with labels or decorators.',
   ('programs', 'configurations'), ['internal/group.go', 'internal/suite.go', 'types/types.go'], 'generated suites checked against the generated tree (rapid, shrinking)'),
]
