prop("C01", "The run order is a partition of the specs that respects grouping",
 "For every spec tree, seed and configuration, the computed run order contains each spec exactly once. Specs of one ordered container stay together in declaration order; unless everything is randomised, specs of one top-level container stay together in source order. In parallel exactly the groups containing a serial spec are held back for the phase that only the first process runs.",
 ["inputs", "configurations"], "all spec trees, Ordered/Serial decorations, seeds, series/parallel, randomise-all",
 "The tests order a few fixed trees with a few seeds; a lost or duplicated spec needs a particular nesting and permutation.",
 ["internal/ordering.go", "internal/tree.go"], [("sorting, grouping, shuffling and serial split", "internal/ordering.go OrderSpecs"), ("spec generation", "internal/tree.go GenerateSpecsFromTreeRoot")],
 ["the two lists of groups that are returned"])
prop("C02", "The run order depends only on seed, source locations and texts",
 "Two processes (or two runs) that construct the same specs, in whatever order - for instance from a loop over a map - and use the same seed compute the same run order. Sorting is by file, then line, then text.",
 ["inputs", "schedules"], "all construction orders, seeds, locations and texts",
 "Map iteration order cannot be controlled in a test, and tests use distinct locations.",
 ["internal/ordering.go"], [("deterministic sort key", "internal/ordering.go SortableSpecs.Less"), ("seeded permutation", "internal/ordering.go OrderSpecs")],
 ["texts of the ordered specs in two runs"])
prop("C03", "Programmatic focus and pending select exactly the documented specs",
 "If some non-pending spec is focused, directly or through a focused container none of whose descendants is focused, exactly the focused non-pending specs run; otherwise exactly the non-pending specs run. Whether programmatic focus is in effect is reported accordingly.",
 ["inputs", "programs"], "all trees and all placements of Focus and Pending marks",
 "Tests check selected trees; interactions of nested focus, nested pending and siblings are combinatorial.",
 ["internal/focus.go", "internal/tree.go", "internal/node.go"], [("nested focus policy", "internal/focus.go ApplyNestedFocusPolicyToTree"), ("skip decisions", "internal/focus.go ApplyFocusToSpecs")],
 ["the skip flag of every spec and the reported focus status"])
prop("C04", "A spec runs exactly when it passes every filter in force",
 "A spec is run if and only if it is not pending, satisfies programmatic focus, its labels (suite, container and spec together) satisfy the label filter, some location matches the file focus, none matches the file skip, its full text matches some focus expression if there is any, and matches no skip expression. No filter weakens or overrides another.",
 ["inputs", "configurations"], "all combinations of filters and all specs",
 "Tests exercise filters one or two at a time on one tree.",
 ["internal/focus.go", "types/file_filter.go", "types/label_filter.go"], [("conjunction of filters", "internal/focus.go ApplyFocusToSpecs"), ("file filters", "types/file_filter.go")],
 ["the skip flag of every spec"])
prop("C05", "The label filter language means what its documentation says",
 "Every filter text is either rejected with an error or accepted; accepted exactly when it is well formed, and then it matches exactly the label sets its expression denotes (precedence ! over && over ||, grouping, case-insensitivity, regular expressions, set operations on key:value labels). No text makes parsing or matching crash.",
 ["inputs"], "all filter texts and all label sets",
 "Tests use a table of examples; precedence, spacing and set-operation corner cases are unbounded.",
 ["types/label_filter.go"], [("tokenizer", "types/label_filter.go tokenize"), ("parser", "types/label_filter.go ParseLabelFilter"), ("evaluation", "types/label_filter.go LabelFilter")],
 ["the error and the verdict of the filter"])
prop("C06", "Setup, subject and teardown nodes run in the documented order",
 "Around one spec, BeforeEach nodes run outermost first, then JustBeforeEach nodes, the spec, JustAfterEach and AfterEach nodes innermost first, and cleanups last-registered first. A setup node that does not pass ends the setup, and exactly the teardown of the levels entered so far runs. The spec's state is that of the first node that did not pass and later failures are kept.",
 ["inputs", "programs", "fault_sequences"], "all nestings and node counts and every combination of node outcomes",
 "Integration tests pick particular failures in particular trees.",
 ["internal/group.go", "internal/suite.go"], [("attempt of one spec", "internal/group.go attemptSpec"), ("node execution", "internal/suite.go runNode")],
 ["order in which node bodies run", "the spec's reported state and failures"])
prop("C07", "BeforeAll and AfterAll run once around their ordered container's specs",
 "A BeforeAll runs at most once and before any spec of its container, and no spec of the container runs unless it passed. The AfterAll of a container that was entered runs exactly once, after everything else in the container, whatever fails, is skipped, pending or filtered.",
 ["inputs", "programs", "fault_sequences"], "all ordered containers, nestings, pending/filtered specs and node outcomes",
 "Tests pick particular failure positions; the last spec that runs depends on all of them.",
 ["internal/group.go"], [("run-once bookkeeping", "internal/group.go runOncePairsForSpec, isLastSpecWithPair"), ("teardown selection", "internal/group.go attemptSpec")],
 ["order in which node bodies run"])
prop("C08", "Every registered cleanup runs once, last in first out, at its level's end",
 "A cleanup registered while a node runs (also when that node fails) runs exactly once, after everything else at the level it was registered for - spec, ordered container or suite - in reverse order of registration. A failing or panicking cleanup does not keep the others from running, and its arguments and returned error are honoured.",
 ["inputs", "programs", "fault_sequences"], "all registration points, nestings and outcomes",
 "Tests register cleanups at a few points with few failures.",
 ["internal/group.go", "internal/suite.go", "internal/node.go"], [("cleanup scheduling", "internal/group.go attemptSpec"), ("cleanup node construction", "internal/node.go NewCleanupNode"), ("suite cleanups", "internal/suite.go runSpecs")],
 ["order in which cleanups and nodes run", "the spec's reported state"])
prop("C09", "A failure in an ordered container skips the rest exactly as documented",
 "After a spec of an ordered container does not pass, every later spec of that container is skipped and its setup does not run, unless the container is marked ContinueOnFailure, in which case later specs still run unless a BeforeAll they depend on did not pass. OncePerOrdered setup and teardown nodes run once around the outermost ordered container and otherwise around each spec.",
 ["inputs", "programs", "fault_sequences"], "all ordered containers, nestings and node outcomes",
 "Tests cover chosen failure positions in chosen trees.",
 ["internal/group.go"], [("skip decision", "internal/group.go initialReportForSpec, evaluateSkipStatus"), ("run-once nodes", "internal/group.go runOncePairsForSpec")],
 ["order in which node bodies run", "the states of all specs"])
prop("C10", "Retries follow the policy in force and report the last attempt",
 "A spec under MustPassRepeatedly is attempted until it fails or has passed that often; a spec under FlakeAttempts until it does not fail or the attempts are used up. The command line overrides decorators, inner decorators override outer ones, and the spec reports its last attempt's outcome, the number of attempts and the failures of retried attempts.",
 ["inputs", "configurations", "fault_sequences"], "all decorator and flag combinations and outcomes of every node in every attempt",
 "Tests combine few decorators with few failure sequences.",
 ["internal/group.go"], [("attempt loop", "internal/group.go run"), ("retry policy", "internal/spec.go")],
 ["node runs per attempt", "state, attempts and failures of the spec report"])
prop("C11", "The suite's verdict and its reports account for everything that happened",
 "The suite succeeds exactly when nothing failed and no fail-on-pending or fail-on-empty rule was violated. Every spec is reported exactly once with the state it ended in, suite setup and teardown and the reporting nodes run exactly when and as often as documented, and no spec runs after fail-fast, abort or a failed or skipped suite setup.",
 ["inputs", "configurations", "fault_sequences"], "all combinations of configuration, suite-level nodes and node outcomes",
 "Tests pick particular failures with particular flags.",
 ["internal/suite.go", "internal/group.go"], [("suite run", "internal/suite.go runSpecs, runSuiteNode"), ("per-spec reporting", "internal/group.go run")],
 ["the returned verdict", "reporter callbacks", "order in which node bodies run"])
prop("C12", "The first failure decides a node's outcome, from whatever goroutine it comes",
 "Whatever sequence of failures, skips, aborts and panics a node and goroutines it started report, and however they interleave, the node ends with the first one as its outcome, its message and location are those of that call, later ones change nothing but are kept, and none is lost or attributed to another node. Reporting them involves no data race.",
 ["inputs", "schedules", "fault_sequences"], "all call sequences and interleavings of concurrent reports",
 "Interleavings cannot be controlled by tests.",
 ["internal/failer.go", "internal/suite.go"], [("first outcome wins", "internal/failer.go"), ("node goroutine protocol", "internal/suite.go runNode")],
 ["state, failure and additional failures of the spec report"])
prop("C13", "Interrupts stop exactly what their level says and never lose the report",
 "The first interrupt or abort ends the running node and skips the remaining specs while cleanup and reporting nodes still run; the second also ends cleanup; the third ends reporting nodes too. An interrupted spec and suite fail and say why, and the end of the suite is always reported. Signals raise the level by one each, up to the last, and wake every waiter.",
 ["inputs", "schedules", "fault_sequences"], "all interrupt sequences at every point of the run and every reaction of the interrupted node",
 "Tests send signals at a few chosen moments; the points at which one can arrive are unbounded.",
 ["internal/interrupt_handler/interrupt_handler.go", "internal/suite.go"], [("levels and channels", "internal/interrupt_handler/interrupt_handler.go registerForInterrupts"), ("node interruption", "internal/suite.go runNode")],
 ["order in which node bodies run", "states, failures and verdict reported"])
prop("C14", "A node's time runs out at the nearest timeout, and cleanup still gets its time",
 "A node runs until it returns or the nearest of the suite's, spec's and its own timeout is up; then its context is cancelled naming that timeout, it gets one grace period, and the spec is reported as timed out with any failure it still records. Teardown runs even when time is up, with its own timeout or a grace period, a retried spec gets a fresh timeout, and no spec starts after the suite's timeout.",
 ["inputs", "schedules", "configurations"], "all combinations and values of timeouts, grace periods and durations",
 "Tests use a few fixed durations with tolerances; which limit applies depends on all of them at once.",
 ["internal/suite.go", "internal/group.go", "internal/spec_context.go"], [("deadline arithmetic and node loop", "internal/suite.go runNode"), ("spec deadline", "internal/group.go attemptSpec")],
 ["instants at which node bodies start and contexts are cancelled", "state and failures of the spec report"])
prop("C15", "Parallel processes run each spec once, containers whole, serial specs last",
 "However the processes of a parallel run interleave, every spec that is to run runs exactly once on exactly one process, the specs of an ordered container run on one process in order, and serial specs run on process 1 after every other process has exited. The server announces each spec once between the beginning and the end of the suite, and the aggregated report has every spec once and the joint verdict.",
 ["inputs", "schedules", "configurations"], "all interleavings of the processes and of their requests in the server, all shuffles and outcomes",
 "Interleavings of processes cannot be controlled by tests.",
 ["internal/suite.go", "internal/parallel_support/server_handler.go", "internal/parallel_support/rpc_client.go", "types/types.go"], [("handing out of spec groups", "internal/parallel_support/server_handler.go Counter"), ("serial phase", "internal/suite.go runSpecs"), ("aggregation", "internal/parallel_support/server_handler.go SpecSuiteWillBegin, DidRun, SpecSuiteDidEnd; types/types.go Report.Add")],
 ["which process ran which spec and when", "reporter callbacks on the server"])
prop("C16", "Suite setup, teardown and reporting nodes keep their order across processes",
 "In a parallel run ReportBeforeSuite and the first part of the synchronized setup run once, on process 1, before everybody else's setup, which gets the data unchanged; their failure or skip stops every process. The last part of the synchronized teardown, process 1's suite cleanups and ReportAfterSuite run on process 1 after every other process has exited. When a process dies the others neither hang nor pass off the run as complete.",
 ["inputs", "schedules", "crash_points", "fault_sequences"], "all interleavings of the processes, all outcomes of the nodes, and death of a process at any node",
 "Tests cannot control when processes proceed, exit or die relative to each other.",
 ["internal/suite.go", "internal/parallel_support/server_handler.go", "internal/parallel_support/rpc_client.go"], [("suite-level node protocol", "internal/suite.go runSuiteNode, runReportSuiteNodesIfNeedBe, runReportSuiteNode"), ("waiting for other processes", "internal/parallel_support/server_handler.go BeforeSuiteState, ReportBeforeSuiteState, HaveNonprimaryProcsFinished, AggregatedNonprimaryProcsReport")],
 ["order of node bodies over all processes", "data received", "verdicts and aggregated report"])
prop("C17", "An abort or a fail-fast failure on one process stops every process",
 "When a spec aborts the suite, or fails while fail-fast is on, no process starts another spec or setup node, specs running on other processes are interrupted and say so, their teardown, every process's suite teardown and the reporting nodes still run, and every process that was not finished fails. Without fail-fast a failure on one process stops nothing on the others.",
 ["inputs", "schedules", "fault_sequences"], "all interleavings of the processes and all places of the failure",
 "Tests cannot control what other processes are doing when one of them fails.",
 ["internal/suite.go", "internal/interrupt_handler/interrupt_handler.go", "internal/parallel_support/server_handler.go"], [("announcing the abort", "internal/suite.go processCurrentSpecReport"), ("noticing the abort", "internal/interrupt_handler/interrupt_handler.go Status, registerForInterrupts")],
 ["order of node bodies over all processes", "states and verdicts reported"])
prop("C18", "What a spec writes is captured whole, in order and in its own report",
 "Everything written to the GinkgoWriter - and, where ginkgo intercepts it, to standard output and error - while a spec runs appears in that spec's captured output exactly once and in order, also when several goroutines write at once, and never in another spec's. What is written while nothing is intercepted goes to the console, and the standard streams are restored. Tees receive the same bytes, streamed output only gains indentation, and each timeline event points at the place in the output where it happened.",
 ["inputs", "schedules"], "all texts, writing nodes, truncations, teeing and interleavings of writers",
 "Tests write a few fixed lines from one goroutine; lost or mixed output needs an interleaving.",
 ["internal/writer.go", "internal/output_interceptor.go", "internal/output_interceptor_unix.go", "internal/suite.go", "internal/group.go", "types/types.go"], [("buffering, streaming and teeing", "internal/writer.go Writer.Write"), ("interception of the standard streams", "internal/output_interceptor.go genericOutputInterceptor; internal/output_interceptor_unix.go dupSyscallOutputInterceptorImpl"), ("capture per spec", "internal/group.go, internal/suite.go")],
 ["captured output, streamed output and timeline of every spec report"])
prop("C19", "Settings given on the command line reach the test process unchanged",
 "Every setting of a run given to ginkgo - in any order, syntax and value, also a value that equals no setting - is the setting each test process runs and reports with, and nothing else changes. Go build and run flags likewise reach go test and the test binary once each, coverage packages being re-rooted. A configuration is rejected exactly when it is unsound, with one error per defect.",
 ["configurations", "inputs"], "all settings and pairs of settings, their syntaxes and values",
 "Tests check a few generated argument lists; that each of some seventy flags survives two trips through parsing is not sampled by them.",
 ["types/config.go", "types/flags.go"], [("flags to configuration", "types/flags.go bindFlagSet, BuildRunCommandFlagSet, BuildTestSuiteFlagSet"), ("configuration to arguments", "types/flags.go GenerateFlagArgs; types/config.go GenerateGinkgoTestRunArgs, GenerateGoTestCompileArgs"), ("validation", "types/config.go VetConfig")],
 ["the configuration parsed by the test process", "the generated arguments", "number of configuration errors"])
prop("C20", "A declaration is accepted exactly when the documentation allows it",
 "A node is accepted exactly when its decorators, labels and function signature are ones its kind allows, without contradiction and with a function where one is needed; an accepted node carries every decorator it was given and runs the function it was given. Setup, suite and ordered-only nodes, containers and specs are accepted exactly where they may stand, and while specs run only cleanups may be added.",
 ["programs", "inputs"], "all kinds of node, single decorators and pairs of them, signatures and places",
 "Tests check chosen invalid declarations one at a time; wrongly accepting or rejecting a combination shows only for that combination.",
 ["internal/node.go", "internal/suite.go", "internal/tree.go", "core_dsl.go"], [("construction of nodes", "internal/node.go NewNode, extractBodyFunction, NewCleanupNode"), ("placement", "internal/suite.go PushNode, pushSuiteNode, pushCleanupNode, By")],
 ["errors of the declaration", "how the declared node behaves when run"])
prop("C21", "Every table entry becomes one spec that gets exactly its parameters",
 "Each entry of a table becomes one spec, in order, named after its description or the table's, with the entry's decorators, focused or pending when it or its table is. It runs the table's function once with exactly the entry's parameters, and the zero value for nil; an entry whose parameters do not fit the function fails by itself without affecting the others.",
 ["programs", "inputs"], "all table functions, entry parameters, descriptions and decorators within the bounds",
 "Tests check chosen tables; variadic functions, nil, contexts and description functions combine in many more ways.",
 ["table_dsl.go", "internal/node.go"], [("expansion of a table", "table_dsl.go generateTable"), ("validation of parameters", "table_dsl.go validateParameters, internalBodyType")],
 ["specs reported", "arguments the table's function receives"])
prop("C22", "RunSpecs says exactly when the suite failed; a preview says what will run",
 "RunSpecs marks its test failed and returns false exactly when the suite failed, and ends the process with the focus exit code exactly when specs passed with programmatic focus outside of an editor. Misuse - running twice, unknown arguments, unsound settings - ends the process with code 1 before anything runs. A preview reports exactly the specs a run with the same arguments runs and skips, in order, runs nothing, and changes nothing about a following run.",
 ["programs", "configurations", "inputs"], "all small suites, outcomes, filters and settings within the bounds",
 "Tests run chosen fixtures end to end; the verdict depends on outcomes, focus, environment and settings at once.",
 ["core_dsl.go", "internal/suite.go", "internal/global/init.go"], [("verdict and exit code", "core_dsl.go RunSpecs, extractSuiteConfiguration"), ("preview", "core_dsl.go PreviewSpecs; internal/suite.go Clone")],
 ["return value, failures of the test, exit code", "preview report against the run's report"])
prop("C23", "The command line tool's exit code tells whether every suite passed",
 "ginkgo exits with 0 exactly when every suite asked for was compiled, run and passed in every repetition, with the focus exit code when they passed with programmatic focus, and with 1 otherwise, also after an interrupt. Suites run in the order and as often as the settings say, a failure stops later ones unless going on is asked for, and suites that were filtered, are empty or are not built with Ginkgo count as documented.",
 ["configurations", "inputs", "fault_sequences"], "all outcomes of compiling and running up to three suites, interrupts, repetitions and settings within the bounds",
 "Tests run a few fixture directories; the exit code depends on the outcomes of all suites, the repetitions and the settings at once.",
 ["ginkgo/run/run_command.go", "ginkgo/internal/run.go", "ginkgo/internal/compile.go", "ginkgo/internal/test_suite.go"], [("order, repetition and verdict", "ginkgo/run/run_command.go RunSpecs"), ("running a suite", "ginkgo/internal/run.go RunCompiledSuite"), ("compiling ahead", "ginkgo/internal/compile.go OrderedParallelCompiler")],
 ["exit code", "order of compilations, runs and hooks"])
prop("C24", "A parallel run passes only if every process passed and nobody waits for the dead",
 "A suite run in parallel passes exactly when each of its processes did and each was started, whatever way a process ends: by its exit code, by a signal, or before it ever reports. The others do not wait for a process that is gone, and the focus exit code of any passing process is passed on.",
 ["fault_sequences", "crash_points", "schedules"], "all ways in which each process can end and the moments at which it does",
 "Tests cannot kill processes at chosen moments.",
 ["ginkgo/internal/run.go", "internal/parallel_support/server_handler.go", "internal/parallel_support/rpc_server.go"], [("processes and verdict", "ginkgo/internal/run.go runParallel"), ("which processes are alive", "internal/parallel_support/server_handler.go registerAlive, haveNonprimaryProcsFinished")],
 ["exit code", "answers of the server to the processes"])
prop("C25", "The suites that run are exactly the ones asked for",
 "The suites found are the directories with Go test files among those asked for, below them when asked to recurse, and executable test binaries; each once, in order, told apart by whether they use Ginkgo. Vendored, hidden and underscored places are left out, and skipped packages are found but not run.",
 ["configurations", "inputs"], "all directory trees, contents and arguments within the bounds",
 "Tests look at one fixture tree; what is left out depends on names, contents and arguments together.",
 ["ginkgo/internal/test_suite.go"], [("discovery", "ginkgo/internal/test_suite.go FindSuites, suitesInDir, precompiledTestSuite, filesHaveGinkgoSuite")],
 ["list of suites with their states"])
prop("C26", "A progress report can be asked for at any moment and changes nothing",
 "At whatever moment a progress report is asked for - by signal, by timeout of a node or from inside - it names the spec, node and step that are running, shows their goroutine at any depth of its stack, includes what attached reporters say, and is delivered; neither it nor a reporter that asks for the current report itself changes what runs, how long it takes or how it ends. Reporters are asked only while attached; one that panics fails its spec, and one that does not return is given up.",
 ["schedules", "inputs"], "all moments of the run at which a progress report is asked for, all reactions of attached reporters",
 "Tests ask at a few chosen moments; locks and shared state matter only when the request meets a change of node.",
 ["internal/suite.go", "internal/progress_report.go", "internal/progress_reporter_manager.go", "internal/progress_report_bsd.go"], [("assembling the report", "internal/suite.go generateProgressReport"), ("finding the goroutine and its source", "internal/progress_report.go NewProgressReport, extractRunningGoroutines, fetchSource"), ("attached reporters", "internal/progress_reporter_manager.go QueryProgressReporters"), ("polling", "internal/suite.go runNode")],
 ["progress reports delivered", "order and times of node bodies, final report"])
prop("C27", "Report files say of every spec what happened to it",
 "The JSON report keeps everything the suite reported, so that a program reads back the same; the JUnit report has one case per spec with its state, message and owner, and totals that add up to them; the TeamCity report is a sequence of well-formed messages in which every test is started, judged by its state and finished. This holds for any text in names, labels and messages.",
 ["inputs", "configurations"], "all outcomes of specs, report options and texts within the bounds",
 "Tests compare chosen reports with expected files; escaping, totals and lost fields depend on the outcome and text of each spec.",
 ["reporters/json_report.go", "reporters/junit_report.go", "reporters/teamcity_report.go", "types/types.go", "types/report_entry.go", "types/enum_support.go"], [("JSON form of a spec", "types/types.go SpecReport.MarshalJSON"), ("JUnit cases and totals", "reporters/junit_report.go GenerateJUnitReportWithConfig"), ("TeamCity messages", "reporters/teamcity_report.go GenerateTeamcityReport, tcEscape")],
 ["the files written, read back"])
prop("C28", "Merged reports and coverage account for every suite and every execution",
 "When a run is over the merged report has every suite exactly once: those that ran with what they reported, those that did not with the reason; a report that is missing or damaged is named, and nothing else is lost because of it or of missing coverage. Merged coverage counts each block's executions in every profile, loses no block and repeats none, a suite's own profile accounts for each of its processes, and the files merged are removed.",
 ["inputs", "fault_sequences", "configurations"], "all states of up to three suites, missing and damaged files, settings, and coverage counts and blocks within the bounds",
 "Tests merge a few fixture reports; combinations of failed, crashed and skipped suites and of profiles with different blocks are not sampled.",
 ["ginkgo/internal/profiles_and_reports.go", "ginkgo/internal/gocovmerge.go", "ginkgo/internal/run.go", "reporters/json_report.go", "reporters/junit_report.go", "reporters/teamcity_report.go"], [("finalizing a run", "ginkgo/internal/profiles_and_reports.go FinalizeProfilesAndReportsForSuites, AbsPathForGeneratedAsset"), ("merging reports", "reporters MergeAndCleanup*Reports"), ("merging coverage", "ginkgo/internal/gocovmerge.go AddCoverProfile, mergeProfileBlock")],
 ["the merged files", "messages and errors"])

prop("C29", "The console accounts for every failing spec and shows what it should once",
 "At every verbosity, in series and in parallel, the console names and locates each spec or suite node that failed, gives its message exactly once, and shows what it wrote, its steps and its report entries once and in their order. Passing and skipped specs show that only in the verbose modes or where an entry or captured standard output is to be visible; the closing summary lists every failure and its verdict and counts are those of the suite.",
 ["inputs", "configurations", "schedules"], "all reports within the bounds, all verbosities and console settings, all outcomes of small suites run in series with streaming output or on two processes",
 "Tests compare the output for a table of hand-written reports; combinations of settings, placements of the failure and kinds of attachment, and the interplay of streaming with the final account, are not sampled.",
 ["reporters/default_reporter.go", "types/types.go", "formatter/formatter.go"], [("a spec's account", "reporters/default_reporter.go WillRun, DidRun, emitTimeline, emitFailure, codeLocationBlock"), ("the summary", "reporters/default_reporter.go SuiteDidEnd"), ("the timeline", "types/types.go SpecReport.Timeline"), ("streaming", "internal/suite.go, internal/group.go, internal/writer.go")],
 ["the console output"])

prop("C30", "What is reported is located at the line of the user's code that caused it",
 "Every node, failure, skip, abort, step, report entry and cleanup is located at the line of the user's code that declared it or asked for it, whatever function of the library was used for it. Functions marked as helpers, however they are marked and nested, are passed over, and an offset moves the location up by so many calls; together they give the first caller from there on that is no helper.",
 ["programs"], "all uses of the library's entry points within the bounds from nested functions, marked as helpers or not, with all offsets, on the spec's goroutine or another",
 "Tests use each entry point from one place; combinations of helpers, offsets and proxies are not sampled, although every wrapper the library adds moves the location.",
 ["types/code_location.go", "internal/node.go", "core_dsl.go", "table_dsl.go", "reporting_dsl.go", "ginkgo_t_dsl.go", "internal/testingtproxy/testing_t_proxy.go", "internal/report_entry.go"], [("finding the location", "types/code_location.go NewCodeLocation, getCodeLocation, MarkAsHelper"), ("nodes", "internal/node.go NewNode, NewCleanupNode"), ("failures", "core_dsl.go Fail, Skip, AbortSuite"), ("testing.T", "ginkgo_t_dsl.go, internal/testingtproxy/testing_t_proxy.go")],
 ["the locations in the suite's reports"])


prop("C31", "Unfocusing takes the focus out of every spec and changes nothing else",
 "After the unfocus command no container, spec, table or entry in the Go files below the current directory, vendored and hidden places apart, is focused, by an F before its name or by a Focus decorator, whichever way it is written and the library imported. All other code, texts and comments are what they were and the file still means the same; should an operation fail or the process be stopped at any moment, what a file contained is still in it or in a copy beside it.",
 ["programs", "fault_sequences", "crash_points"], "all sources and trees within the bounds, any one operation on the file system failing, a stop before any of them",
 "Tests unfocus one fixture tree with the usual forms; the forms combine, names and texts look like focus, and faults come at any operation.",
 ["ginkgo/unfocus/unfocus_command.go"], [("finding focus", "ginkgo/unfocus/unfocus_command.go scanForFocus, isFocus"), ("rewriting", "ginkgo/unfocus/unfocus_command.go unfocusFile, writeBackup, updateFile"), ("walking", "ginkgo/unfocus/unfocus_command.go unfocusDir")],
 ["contents of the files", "files left behind"])

prop("C32", "Watching reruns a suite after every change it depends on, and only then",
 "While suites are watched, a suite is compiled and run again after its tests or code, or the code of a package within the chosen depth of its dependencies, are changed in any way - edited, added, deleted, renamed, restored - including while a suite is running or when it did not compile, and as its imports change. It runs once for a change and not for anything else; a suite that disappears is no longer run and one that appears is, and the command goes on until it is interrupted.",
 ["histories", "programs"], "all sequences of changes within the bounds, between runs and during them",
 "Tests make one edit at a time to a fixture; what is noticed depends on dates, names, earlier changes and on what was running.",
 ["ginkgo/watch/watch_command.go", "ginkgo/watch/delta_tracker.go", "ginkgo/watch/package_hash.go", "ginkgo/watch/package_hashes.go", "ginkgo/watch/suite.go", "ginkgo/watch/dependencies.go"], [("what changed", "ginkgo/watch/package_hash.go CheckForChanges, computeHashes"), ("which suites it concerns", "ginkgo/watch/delta_tracker.go Delta, ginkgo/watch/suite.go Delta, ginkgo/watch/dependencies.go"), ("the loop", "ginkgo/watch/watch_command.go WatchSpecs")],
 ["suites compiled and run"])
