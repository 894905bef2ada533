NOTES = "Every check analyses the MIR of /repo's current tree with a rustc driver; see DESIGN.md. No hooks are needed in /repo."
ASSUME = (" Trusted: rustc's MIR and callee resolution, the engine's models of std iterators/Option/Result, and that calls the "
          "analysis does not enter have no effect on the watched objects other than through the arguments they are given.")
KNOWN_WHY = ("\nThe repairs of the L11 and L12 findings belong into `lit/src/test/registry/default.rs`, a non-test source file whose path nevertheless has a `test` component, "
             "which commits of this task must not touch; a repair was written, tested and withdrawn for that reason. "
             "The F04 finding cannot be repaired with the existing tests unedited: `integration_test_check_dag_xfail_x3` and `_x5` demand the diagnostic that results from searching the check from the start of the group "
             "(for groups whose patterns have no substitutions the same tests accept the repair, and it was made there).\n")
PROPS = []


def P(id, title, statement, over, quant, why, files, mech, tech=None, note=None, na=None):
    d = dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech)
    if na:
        d["na"] = na
    else:
        d["tech"], d["note"] = tech, note + ASSUME
    PROPS.append(d)


P("L01", "lit exits non-zero exactly when a test failed or the run was cut short",
  "`lit run` returns exit status 0 only if no executed test ended in a failing status (unresolved, timeout, failed, unexpectedly passed) "
  "and the run was not aborted before every test was handled; in every other case the exit status is non-zero or an error is returned. "
  "It never reports a failing run as success, nor a clean run as failure.",
  ["inputs", "histories", "schedules"], "every suite, every combination of test outcomes, and every point at which a worker aborts the run",
  "No existing test runs the lit command end to end, so no combination of statuses is sampled at all.",
  ["litcheck/src/commands/lit.rs", "lit/src/test/status.rs"],
  "the driver computes its exit code from the statuses recorded per test and the result of the parallel run",
  "path-sensitive abstract interpretation of MIR: exit code vs recorded statuses",
  "All paths of the driver function are enumerated with the recorded statuses as an abstract collection (each element forks over the ten statuses) "
  "and the parallel run's result forked over ok/err; the failing-status table is evaluated for all ten statuses. What the worker threads do is L02.")

P("L02", "Every discovered test is accounted for exactly once in the results",
  "Each test handed to the runner appears in the final results exactly once, under the status its execution produced; a test left over after an "
  "aborted run appears as skipped, a deselected one as excluded. The run is rejected as having selected nothing only when every test was excluded.",
  ["inputs", "histories", "schedules"], "every set of tests, every sequence of reports arriving from workers, every abort point",
  "No test exercises the result bookkeeping; which reports arrive and what is left when a run aborts depends on scheduling.",
  ["litcheck/src/commands/lit.rs"],
  "workers send one report per test over a channel; the driver files each report in a bucket keyed by status and drains the leftover queue",
  "typestate of in-flight reports over MIR paths",
  "Every report received and every left-over test is tracked from the moment it is obtained until it is stored; storing under another status, "
  "dropping, overwriting or removing a non-empty bucket is a violation on the path where it happens.")

P("L03", "A test command's exit decides its status, and nothing else does",
  "A command that exits with code 0 passes, one that exits with any other code fails, and one that was ended by a signal or could not be started "
  "or waited for is unresolved. A timeout is reported only when a timeout was configured, it has expired, and the process was still running.",
  ["inputs", "fault_sequences", "schedules"], "every exit code or signal, every failure of spawning or waiting, every interleaving with the clock",
  "Existing tests do not run test commands; signals, spawn failures and wait failures cannot be sampled meaningfully by unit tests.",
  ["lit/src/utils.rs", "lit/src/test/status.rs", "lit/src/test/result.rs"],
  "the process runner polls the child, converts its exit status into a test status, and reports a timeout after killing it",
  "path-sensitive typestate of the child process over MIR",
  "All paths of the process runner are enumerated against an abstract child process (running, exited by code 0 / other code / signal, wait error, spawn error) and an abstract clock.")

P("L08", "A test that exceeds its timeout is killed and reaped before lit moves on",
  "When a timeout is configured and expires, the test's process is killed before anything else can block on it, is waited for afterwards, and the "
  "runner does not wait for output pipes that descendants may still hold open. The configured number of seconds is what both test formats pass on; without one, or with zero, tests run without limit.",
  ["inputs", "schedules", "fault_sequences"], "every command, including ones that never exit, never read input, or leave background children behind",
  "A hang is not observable by the present unit tests, none of which runs a command with a timeout.",
  ["lit/src/utils.rs", "lit/src/formats/executable.rs", "lit/src/formats/sh/engine.rs"],
  "the process runner's timeout branch and its output reader threads",
  "must-precede (kill before blocking, wait after kill) over MIR paths",
  "Every blocking std call between the spawn and the return is found in the resolved program; whether a real descendant holds a pipe open is not modelled, only that no path waits for it.")

P("L04", "XFAIL inverts a test's verdict exactly when its condition holds",
  "A test whose XFAIL conditions hold is reported as an expected failure when its commands fail and as an unexpected pass when they pass, unless it is marked as not "
  "expected to fail; a timeout or unresolved run is never turned into an expected failure. Without a holding condition the verdict of the commands stands, also for executable tests.",
  ["inputs", "configurations", "histories"], "every combination of XFAIL conditions, features, the not-xfail marker and run outcomes",
  "Existing tests only parse XFAIL directives; none runs a test to see the status it ends with.",
  ["lit/src/formats/sh/mod.rs", "lit/src/formats/executable.rs", "lit/src/test/mod.rs"],
  "after the commands have run, the test format maps the status through the XFAIL conditions",
  "path-sensitive abstract interpretation of MIR: final status vs run outcome and conditions",
  "All paths of both formats are enumerated with each XFAIL condition forked over true/false and the run's status over its four values; evaluation of one condition is L17.")

P("L05", "REQUIRES, UNSUPPORTED and --no-execute decide whether a test runs at all",
  "A test runs only if its script could be parsed, every REQUIRES condition holds, no UNSUPPORTED condition holds and execution is enabled; otherwise it is reported as unresolved "
  "(unparsable), unsupported, or passed without running. A test that nothing rules out is run, and every condition is evaluated against the test's available features.",
  ["inputs", "configurations"], "every list of conditions, every feature set and every way the options combine",
  "Existing tests never execute a test through a format; the gate's combinations are not sampled.",
  ["lit/src/formats/sh/mod.rs", "lit/src/formats/executable.rs", "lit/src/config/mod.rs"],
  "the test format evaluates the gating conditions before it starts the commands",
  "path-sensitive abstract interpretation of MIR: gate typestate before the run",
  "Every path of both formats is enumerated with the condition lists as abstract collections (each element forks true/false); partial iteration over a list is a violation.")

P("L06", "A failing test is retried as allowed, and is flaky if it then passes",
  "The commands of a test are run again only after a failure, at most as often as its retry count allows and always that often while it keeps failing; timeouts and unresolved runs are not retried. "
  "A pass after a retry is reported as a flaky pass, everything else as the status of the last run.",
  ["inputs", "histories"], "every retry count (0, 1, 2 and none decided exactly) and every sequence of run outcomes",
  "No existing test runs a test with ALLOWED_RETRIES, let alone one whose outcome changes between runs.",
  ["lit/src/formats/sh/engine.rs"],
  "the shell format's retry loop counts failed runs against the script's retry count",
  "path-sensitive abstract interpretation of MIR: run histories against the retry count",
  "Decided for retry counts none, 0, 1 and 2 with every history of outcomes; larger counts run through the same loop and are not enumerated.")

P("L07", "A test passes its shell only if every RUN command succeeded, in order",
  "The shell script generated for a test runs the RUN commands in order, runs none after the first failing one, and exits successfully only if all succeeded, whatever the commands are "
  "(comments, separators and commands that read standard input included). Pipeline failures count exactly when the suite asks for it, and each command is announced with its own line number.",
  ["inputs", "programs", "configurations"], "every sequence of commands and every outcome of each",
  "Existing tests never look at the generated script; which of several commands fails is not sampled.",
  ["lit/src/formats/sh/engine.rs"],
  "the shell format writes one shell script from the recorded commands and feeds it to the shell's standard input",
  "abstract interpretation of the script generator to its exact output text, then evaluation of that text's list structure",
  "The generated text is derived from MIR for scripts of one to three commands with and without interleaved substitutions (the generator's loop is uniform beyond that); the commands themselves stay opaque tokens. "
  "The evaluator knows lists, and-or lists, groups, subshells, if and the builtins set/echo/exit; anything else in the text is reported rather than guessed.")

P("L10", "Every directive of a test script takes effect or is reported as an error",
  "Each directive line of a test script is recorded under its own kind or reported as an error, a script with errors or without any RUN command is rejected, and nothing after a terminating END. is read. "
  "Continuation lines must repeat the directive's keyword, an unfinished continuation is an error, and line numbers (of RUN commands and in %(line) expansions with offsets) refer to the line they appear on.",
  ["inputs"], "every script: any sequence of directives, continuations and malformed lines",
  "Existing tests parse a handful of well-formed scripts; malformed, truncated and multi-line directives are hardly sampled.",
  ["lit/src/formats/sh/script/parser.rs", "lit/src/formats/sh/script/directives.rs"],
  "the script parser turns lines into directives, joins continuation lines, and collects errors",
  "typestate of the pending directive over MIR paths of the script parser",
  "One analysis per directive kind, with every line of the script forked over no directive / a directive / a continuation; line positions are exact up to the third line of a directive. "
  "How a single line is recognised as a directive is L09; byte offsets in diagnostics are not decided.")

P("L13", "Test commands run in the configured environment",
  "A test's process is started in the suite's working directory, with every environment variable configured for the test, and with the configured search paths placed before the inherited PATH, which is kept. "
  "The program that is started is the configured shell, or the test file itself for executable tests.",
  ["inputs", "configurations"], "every configuration of environment variables, search paths and working directory",
  "No existing test starts a test command, so nothing about its environment is sampled.",
  ["lit/src/utils.rs", "lit/src/formats/sh/engine.rs", "lit/src/formats/executable.rs"],
  "the test format configures the child process before it is spawned",
  "interprocedural provenance (dependency) analysis of process configuration over MIR paths",
  "Decides which inputs each piece of process configuration is computed from, completely and in which order; that the strings are assembled correctly inside std (join_paths) is trusted.")

P("L14", "Each test run has its own temporary directory, removed afterwards",
  "The commands of a shell test run while a freshly created temporary directory under the suite's working directory exists, and the directory is removed on every way out: pass, failure, timeout and error.",
  ["histories", "fault_sequences"], "every outcome of the run and every error on the way",
  "Existing tests do not run shell tests, and leftovers after failures are not observed.",
  ["lit/src/formats/sh/mod.rs"],
  "the shell format creates a temporary directory per execution and relies on its owner's destructor to remove it",
  "typestate of the temporary directory (created, alive at the run, dropped) over MIR paths including drops",
  "Removal on unwinding and process death is not decided.")

P("L16", "Built-in and configured substitutions are available to every RUN command",
  "Before the commands run, the script is rewritten with the test's and the suite's substitutions and with the built-in ones for the test file, its directory, a temporary file inside the test's own temporary directory, that file's base name, and the percent escape. "
  "A substitution that cannot be applied stops the test from running.",
  ["inputs", "configurations"], "every test path and every set of configured substitutions",
  "Existing tests do not execute shell tests, so what the built-in substitutions stand for is not sampled.",
  ["lit/src/formats/sh/mod.rs", "lit/src/config/substitutions.rs"],
  "the shell format extends the inherited substitutions with the built-in ones and applies them to the script",
  "interprocedural provenance analysis of substitution values over MIR paths",
  "Decides which input each substitution's value is computed from and through which path operations; the text replacement itself is L15.")

P("F01", "A FileCheck run passes only if every check in the check file was satisfied",
  "Every check directive of the check file is evaluated against the input, and one that is not satisfied makes the run fail; when every check is satisfied nothing is reported as failed. "
  "Every CHECK-LABEL is searched for and a missing one fails the run; checks before the first label and in every block between labels are all evaluated, each block within its own part of the input.",
  ["inputs", "programs"], "every check program (any sequence of groups, blocks and labels) and every combination of outcomes of the individual checks",
  "The existing tests run some forty small check files; which check of a larger file fails, and where it stands among groups and blocks, is not sampled.",
  ["filecheck/src/check/mod.rs"],
  "the checker walks the compiled program block by block and group by group and records each rule's outcome",
  "path-sensitive abstract interpretation of MIR: verdict vs outcomes of the checks",
  "All paths of the evaluation functions are enumerated with each rule's outcome forked over matched / failed / error; lists (sections, rules, trees) are abstract collections whose elements must all be visited. "
  "Groups are assumed non-empty and repeat counts positive (the parser rejects the others).")

P("F02", "A recorded FileCheck failure reaches the exit status, and nothing else does",
  "A check result that was recorded as failed stays recorded, makes the test result an error, and ends in a non-zero exit status of `filecheck`; a result without failures ends in success. "
  "The command succeeds only after the input was verified (or when only help on dumping was asked for), and options that are rejected stop it before anything is verified.",
  ["inputs", "configurations"], "every collection of check results and every outcome of option validation and verification",
  "No existing test runs the filecheck command; unit tests look at single results, not at how a collection of them turns into an exit status.",
  ["filecheck/src/test/result.rs", "filecheck/src/pattern/matcher/result.rs", "litcheck/src/commands/filecheck.rs", "litcheck/src/main.rs"],
  "failures are collected in a list held by the test result, which is turned into an error and then an exit code",
  "path-sensitive abstract interpretation of MIR: classification, storage and hand-over of failures",
  "Each link of the chain is analysed on all its paths over all result kinds; that printing a diagnostic does not panic is not decided.")

P("F03", "Every check line is compiled exactly once, in order, as its own kind",
  "Every check line of a check file is placed in the check program exactly once, in the order of the file, in a group of its kind and with its own count and literal flag, each labelled block with its own label; the other outcomes are an error for a pattern that does not compile and the rejection of a CHECK-NEXT, CHECK-SAME or CHECK-EMPTY without a preceding check to depend on. "
  "A CHECK-NOT applies up to the end of its block only when it is the last of the block, otherwise up to the next check. "
  "With --implicit-check-not, its pattern is added before the first check, after every positive check and nowhere else.",
  ["inputs", "programs"], "every sequence of check lines of any kinds and length, with and without implicit checks",
  "The existing tests compile a few dozen short check files; interactions of directive kinds (runs of CHECK-NOT and CHECK-DAG next to counts, labels and dependent checks) are hardly sampled.",
  ["filecheck/src/check/program.rs", "filecheck/src/pattern/matcher/matchers/any.rs"],
  "check lines are split into blocks and compiled into groups, trees and sections",
  "conservation (linear typestate) analysis of check lines over MIR paths",
  "All paths of both compilation steps with the next line forked over all kinds; lines in flight are tracked individually, stored ones as lists with the set of kinds they contain. "
  "How a list of patterns is turned into one matcher is not part of it.")

P("F04", "Each kind of check searches only where it may, and the next one behind it",
  "Every check looks only at the part of the input its kind allows: the rest of its block for CHECK and CHECK-DAG, the next line for CHECK-NEXT, the rest of the line for CHECK-SAME. "
  "It succeeds exactly when that search does, and CHECK-EMPTY exactly when the previous match ends at the end of its line and an empty line follows. "
  "The search for the next check starts right behind the match (for CHECK-EMPTY at the end of the empty line, for CHECK-DAG behind all matches of the group) and, after a failure, where this one started.",
  ["inputs", "programs"], "every input and every position in it, every pattern, with both styles of newlines",
  "The existing tests place matches on a few short inputs; matches at the last line, at the end of a block, empty matches and failed checks in between are hardly sampled.",
  ["filecheck/src/rules/plain.rs", "filecheck/src/rules/next.rs", "filecheck/src/rules/same.rs", "filecheck/src/rules/empty.rs", "filecheck/src/rules/dag.rs", "filecheck/src/cursor.rs", "filecheck/src/context.rs", "filecheck/src/input.rs", "filecheck/src/check/mod.rs"],
  "rules search a window of the input through a cursor that they advance",
  "abstract interpretation of MIR: symbolic windows, cursor typestate",
  "Each rule is run on a symbolic position, line end and block end, with the outcome of every search forked; the windows searched and where the cursor is afterwards are compared with those of its kind. "
  "The functions of the cursor are checked separately to stand for what the rules take them to be. The CHECK-NOT in between and the matchers are not part of it.")

P("F05", "A CHECK-NOT excludes its patterns exactly between the checks around it",
  "The patterns of a CHECK-NOT are looked for, when the checks around it match, in exactly the input from the end of the matches before it (or from where the preceding check ended, when it comes first) to the start of the matches after it (or the end of its block, when it comes last). "
  "A pattern found there, or an error while looking for it, makes the checks fail, and nothing else about the CHECK-NOT does. "
  "A CHECK-NOT does not move the position the next check is looked for at.",
  ["inputs", "programs"], "every input, every placement of the matches around a CHECK-NOT and every number and outcome of the patterns in it",
  "The existing tests have a few CHECK-NOT on short inputs; excluded patterns at the borders of the excluded region, and groups with several matches on either side, are hardly sampled.",
  ["filecheck/src/check/mod.rs"],
  "groups are checked with their CHECK-NOT after the matches around it are known",
  "abstract interpretation of MIR: symbolic windows of the excluded region, with outcomes forked",
  "Each form of a group with CHECK-NOT is run with up to two matches on either side at symbolic positions whose order is forked; the windows the patterns are looked for in are compared with the region between them. "
  "How the patterns of one CHECK-NOT are combined into one matcher is not part of it.")

P("F07", "A pattern of several parts matches where its parts do, one after the other",
  "A pattern matches where texts, regular expressions (as a whole), definitions, values of variables and numbers it is made of are found directly behind each other, at the first place where its first part is found and the others follow, each searched literally or as the expression it is, with the case option applied; after a failed attempt the search goes on one place further, and stops at the end of the input. "
  "A match covers exactly its parts and defines exactly the variables of its captures, each as the text (or the number) its part covered, which parts behind it already see; a number is accepted only if it equals the value it is constrained to, and a variable without a value is an error. "
  "A search which fails defines nothing.",
  ["inputs", "programs", "histories"], "every sequence of two parts of eight kinds and a choice of longer ones, with every value of the variable they use, every outcome of each search, up to four searches that succeed, and searches that may or may not move on",
  "The existing tests try patterns with one or two parts which match at the first place they are tried; failing attempts, constraints and values with special characters are hardly sampled.",
  ["filecheck/src/pattern/matcher/matchers/smart", "filecheck/src/pattern/matcher/matchers/regex.rs", "filecheck/src/pattern/matcher/matchers/substring.rs", "filecheck/src/pattern/mod.rs", "filecheck/src/ast/pattern.rs", "filecheck/src/input.rs"],
  "patterns are compacted to regular expressions as far as possible, the rest is a list of operations run from each possible start",
  "abstract interpretation of MIR: compile and match, with symbolic texts, offsets and search outcomes, against a reference matcher",
  "Patterns are compiled and run by the code itself; what each search looks for, from where to where, and what comes of its outcome is compared with the reference on every path. "
  "What a regular expression matches is left to its library; the search libraries are stand-ins that record what they are asked. A number too large to be read may fail the pattern or be an error. Expressions of variables beyond a name are not part of it.")

P("F08", "A name stands for its latest definition that was not abandoned",
  "A variable that was captured stands for the value captured last; one that never was, local or global, stands for the value given on the command line (the last one, when given more than once), if any. Local and global variables of the same name are independent, and a definition changes no other name. "
  "What an attempt to match defines, and how far it moves on in the input, is visible inside the attempt, kept when it succeeds and undone when it is abandoned, also when attempts are nested; definitions set aside and put back later are those that were made. "
  "With scoped variables, entering a block forgets the local variables that were captured and nothing else; without them it forgets nothing. A number defined on the command line by an expression has the value of the expression with the definitions before it; without a value for one of its variables it has none.",
  ["inputs", "histories", "configurations"], "every combination of local, global and command-line definitions of two names, every definition, block and attempt after it, with and without scoped variables",
  "The existing tests of scoping capture one or two variables in successful matches; abandoned attempts, redefinitions and names defined in several ways at once are hardly sampled.",
  ["filecheck/src/env.rs", "filecheck/src/context.rs", "filecheck/src/cursor.rs", "filecheck/src/pattern/matcher/result.rs", "core/src/variables/mod.rs"],
  "an environment of three maps, cloned for each attempt and merged back when it is saved",
  "abstract interpretation of MIR over explicit maps, compared with a reference model of definitions",
  "Every operation is run on every combination of definitions of two names (the values are opaque, names are only compared), and every look-up afterwards is compared with the reference. "
  "The maps (im_rc) are trusted. When attempts are made, kept and abandoned is not part of it.")

P("F09", "CHECK-LABEL lines divide the input into the blocks checks are confined to",
  "Labels are looked for in order, each in everything from the end of the line the previous one was found in; one that is not found fails the run. "
  "The checks of a labelled block are confined to the input from the end of the line of its label to the end of the line before that of the next label (or to the end of the input), the checks before the first label to the input before its line. "
  "On entering a block, variables that are not global are forgotten exactly when variable scopes are enabled.",
  ["inputs", "programs"], "every input, every outcome of the search for each label, and every sequence of up to four sections of a check program with up to three labels",
  "The existing tests have at most a few labels that all match; labels on the first or last line, without a newline behind them, or missing in between, are hardly sampled.",
  ["filecheck/src/check/mod.rs", "filecheck/src/context.rs", "filecheck/src/cursor.rs"],
  "labels are searched for before anything else, and yield the block each section is checked in",
  "abstract interpretation of MIR: symbolic block bounds for each form of program",
  "The function that finds the blocks is run on programs of nine forms with the outcome of the search for each label, and whether there is a newline before and behind it, forked. That the programs are not longer is a bound; the loop treats each label alike.")

P("F06", "Looking for several patterns at once finds what each would match alone",
  "When several patterns of a group are looked for together, their matches come in the order in which they start (the longest first), and are those each pattern has when looked for alone: it is looked for again from where its last match ended (one byte further if that was empty) to the end of the region, and no more matches are reported exactly when no pattern has one left. "
  "When any one of several patterns is looked for, as for CHECK-NOT, the first such match of a first part with a rest of the same pattern right behind it is found, and it is not found only when there is none. "
  "Groups of plain text only, which a library searches for, are not part of this property.",
  ["inputs", "programs"], "every outcome of each search for a single pattern, in groups of up to three patterns, over the first calls of a search (two to four)",
  "The existing tests look for sets of patterns that match once or twice; matches at the same place, inside one another, of no length, or at the very end of the region are hardly sampled.",
  ["filecheck/src/pattern/search/pattern_set.rs", "filecheck/src/pattern/matcher/matchers/regex_set.rs", "filecheck/src/pattern/matcher/matchers/any.rs"],
  "a searcher keeps, for each pattern, its next match and where to look for the one after that",
  "abstract interpretation of MIR: searcher state vs a reference model, per search outcome",
  "The searchers are analysed with every search for one pattern forked over its outcomes (matches at, behind and at the end of where the search starts; no match; errors). Offsets are fixed numbers that stand for their order; the number of patterns and of calls is bounded.")

P("F10", "CHECK-DAG patterns match once each, without overlap, and define their captures",
  "A group of CHECK-DAG directives succeeds exactly when each of its patterns gets a match: of the matches found, in order, each is taken if its pattern has none yet and it overlaps none taken before, and the group fails, with the patterns left over reported, when there are no more. "
  "A pattern that is known by its first part is taken where the rest of it follows right behind that part; of several patterns with the same first part the one with the longest match is. "
  "Only what matches that are taken captured is defined afterwards; an error during the search is not lost.",
  ["inputs", "programs"], "every sequence of up to three or four matches found for up to three patterns, with every way they can lie to one another, and every outcome of matching the rest of a pattern",
  "The existing tests have a few groups that match at once; candidates that overlap, match twice, or fail after having captured something are hardly sampled.",
  ["filecheck/src/pattern/visitors/static.rs", "filecheck/src/pattern/visitors/dynamic.rs", "filecheck/src/env.rs", "filecheck/src/context.rs"],
  "a visitor goes through the matches of a searcher and keeps those that count, with nested scopes for their captures",
  "abstract interpretation of MIR: matches taken and variables bound vs a reference, per path",
  "The visitors are analysed with the searcher's matches as a symbolic, ordered stream of positions; the patterns' matches taken, the failures reported and the variables visible afterwards are compared with a reference. The number of patterns and of matches is bounded.")

P("F12", "An expression has the exact value of its operations, or is an error",
  "The value of an expression in a pattern is that of its operators and calls (add, sub, mul, div, min, max, ==) applied to the values of their operands, in order, with operators of the same rank applied from left to right; a variable has the value it is defined with, and @LINE is the line it is on. "
  "A value that does not fit in 128 bits, a division by zero, a variable that is not defined, a text used as a number, and a call of an unknown function or with other than two arguments are errors, never another value. "
  "The format of the value is the one its operands have in common, as documented (same kind and prefix, precision and casing equal or unspecified in one of them); a conflict between them is an error unless a format is given.",
  ["inputs", "programs"], "all values of the operands, every operation, nesting of operations up to depth two, every pair of formats with a precision of up to 2 digits, chains of up to four operators",
  "The existing tests evaluate a few sums of small numbers; overflow, order of operands in nested expressions, and mixed formats are hardly sampled.",
  ["filecheck/src/pattern/matcher/matchers/smart/searcher.rs", "filecheck/src/expr/mod.rs", "filecheck/src/expr/num.rs", "filecheck/src/ast/mod.rs"],
  "a recursive evaluation with checked arithmetic, and a table of compatible formats",
  "abstract interpretation of MIR with symbolic operands: the operations applied and whether each may overflow, vs the expression; full enumeration of formats",
  "Operands are opaque, so the operations applied to them are compared, not samples of their results; where code compares numbers, representatives at the ends and the middle of the range are used as well. That the grammar builds the expression that was written is not part of it, except for the order of a chain of operators.")

P("F16", "A check line is cut into literal text, regular expressions and blocks",
  "The text of a check line after its prefix is cut at {{ }}, [[ ]] and [[# ]]: what is between {{ and the next }} is one regular expression, what is between [[ or [[# and its ]] is a block, the rest is literal text, kept in full, in order and exactly once. Only white space before the first block and at the end of the line may be dropped. "
  "Inside of one, the delimiters of the other kind are text; of three opening brackets the last two open a block; a ]] that belongs to a character class does not close it, one that overlaps with it may. A delimiter that is never closed is an error, the rest of the line is never read again as something else. "
  "Leading white space is removed, of which --strict-whitespace and --match-full-lines keep all but one space. With {LITERAL} the line is one literal text. "
  "Inside a block, names (letters, digits, underscore), the keywords, decimal, 0x and 0b numbers, punctuation and == become the token they stand for, white space is skipped, after the colon of a string block the rest is its regular expression, and any other character is an error.",
  ["inputs", "configurations"], "every sequence of up to 3 delimiters with empty, blank and other gaps, five kinds of leading space, each option; in blocks every ASCII character alone and after a name or number, sequences of up to 3 of the token characters, all keywords",
  "The existing tests lex the lines that usual check files have; odd nesting, blank gaps and strict white space are not among them.",
  ["filecheck/src/parse/lexer/mod.rs", "filecheck/src/parse/lexer/token.rs", "filecheck/src/parse/lexer/delimiter.rs"],
  "a multi-pattern searcher for delimiters, a state machine over what it finds, and a character lexer for blocks",
  "abstract interpretation of MIR: the delimiters of the line are forked as they are searched for, with the text between them opaque, and the emitted tokens compared with a reference; likewise for the characters of a block",
  "The searcher and the check for character classes are the libraries' matter: their answers are forked. The modifiers and counts before the colon are not part of this, nor is white space after # % . @ $ in a block. Longer lines than the bound are not explored.")

P("F18", "A check file is read to its end and each directive becomes one check",
  "A check file is accepted exactly if it is made of comments, empty lines and check lines of the right form, and then stands for the checks of all of its check lines, in order: each with its kind and count, whether it is literal, and all parts of its pattern in order - text, regular expressions, and blocks with all of their tokens. "
  "A single text or expression is the pattern itself; the pattern of CHECK-EMPTY is empty. "
  "Anything else is an error, nothing is skipped: a count of zero, a pattern of CHECK-EMPTY, no pattern for another check, an expression or a block that is empty, invalid or not closed on its line, an invalid token wherever it is, and, unless --allow-unused-prefixes is given, a prefix no check line has.",
  ["inputs", "configurations"], "every sequence of up to 4 tokens, of up to 5 after the colon of a check of each form, and of up to 8 tokens of several checks (thorough: 5, 7, 10); each prefix used or not",
  "The existing tests parse well formed files and a few malformed lines; combinations of kinds, modifiers and incomplete patterns are hardly sampled.",
  ["filecheck/src/parse/parser.rs", "filecheck/src/ast/file.rs", "filecheck/src/ast/directive.rs", "filecheck/src/ast/modifier.rs"],
  "a recursive descent parser over the tokens of the file with one token of look-ahead",
  "abstract interpretation of MIR: the tokens are forked as the parser asks for them, and the checks it makes of them, or its error, compared with a reference parser",
  "Which tokens a text has is F16; the tokens of a block are handed to a generated parser whose answer is forked, so what a block means is not part of it. After the text of a literal line only a new line or the end is explored, as the lexer yields. The places recorded for messages are not compared, nor is whether the last CHECK-EMPTY{LITERAL} needs a new line.")

P("K01", "The lines and columns that are reported are those in the file",
  "Every place in a file that is reported, and every use of @LINE, has the number of the line it is in, counted from the line feeds before it, and the column of the character it is in, also at the end of the file and within a character; no place in the file makes the report fail. "
  "What is shown of a file for a place are the whole lines it is in with as many before and after as asked for, as far as there are any, with their own text and numbers. "
  "A failed search is reported with the first and the last line it searched, and marked from its start to its end, or at its ends when it is longer than ten lines.",
  ["inputs"], "all texts of up to three characters (four in the thorough tier) of a letter, a line feed and a character of two bytes, every byte of them and every range, and for failed searches texts of up to twelve lines",
  "The existing tests report few places, all of them in ASCII texts.",
  ["core/src/diagnostics/source_file.rs", "filecheck/src/context.rs", "filecheck/src/errors.rs"],
  "a table of the starts of the lines and searches in it; arithmetic on byte offsets",
  "abstract interpretation of MIR over small texts: the table is built, then each query compared with the lines of the text",
  "How the report is drawn is the library's matter. Changes to a text that is already loaded are not part of it (nothing in litcheck makes any), nor is the conversion of columns to places.")

P("F13", "Checks run only with well-formed prefixes, none of which is of both types",
  "A value given as a check prefix or a comment prefix is accepted exactly if it is an ASCII letter followed by ASCII letters, digits, hyphens and underscores, and is taken as it is; several are separated by commas, for both options. "
  "The checks are run exactly if no check prefix is also a comment prefix, with the prefixes that were given, whether they come from the command line, from FILECHECK_OPTS or are the defaults; otherwise there is an error and nothing is checked.",
  ["inputs", "configurations"], "one or two prefixes of each type (three in the thorough tier) of five, the defaults among them, in any order and repeated; every ASCII character and representatives of the others, as the first, a middle and the last character",
  "The existing tests never give the two options together, and no malformed prefix.",
  ["filecheck/src/lib.rs", "litcheck/src/commands/filecheck.rs"],
  "a value parser handed to clap, and a comparison of two lists of symbols before the test is set up",
  "abstract interpretation of MIR: the function clap is given for each of the two options is applied to each class of text; the entry of the command is followed with each pair of lists up to the set-up of the test",
  "What clap does with the arguments is the library's matter. Lists are sorted and rid of duplicates as the standard library describes.")

P("F19", "Each directive is recognised by its prefix, its suffix and its modifiers",
  "A check line is recognised exactly where one of the check prefixes (CHECK if there is none) stands at the start of the input or of a line or behind white space, is followed by nothing, -NEXT, -SAME, -NOT, -DAG, -LABEL, -EMPTY or -COUNT-<digits>, by {LITERAL}, in which white space and repetition separated by commas are allowed, or not, and by a colon, and becomes the check of that kind and count; a comment likewise by one of the comment prefixes (COM and RUN if there are none) and a colon, up to the end of its line. "
  "The pattern of a check line starts behind its colon and is literal exactly if it is marked so; a count that cannot be represented is an error and the rest of its line is not read as something else. "
  "A prefix is reported not to be used exactly if no check line had it. The search goes on behind what was read and ends with the input.",
  ["inputs", "configurations"], "none to three prefixes of each type, every kind of line with each prefix and up to three modifiers; the expressions searched for are compared as languages",
  "The existing tests use one or two prefixes, and modifiers in one form; combinations of kind, prefix and modifiers are hardly sampled.",
  ["filecheck/src/parse/lexer/mod.rs", "filecheck/src/parse/lexer/patterns.rs"],
  "a set of regular expressions put together from prefixes and suffixes, and a tokenizer for what their groups matched",
  "abstract interpretation of MIR: the expressions built are decoded and compared with the directives as automata; then every match of each of them is forked and the tokens made of it compared with the directive",
  "The search itself is the library's matter: which expression matches first, where several do, is not part of it. The text of the pattern is F16, and what becomes of the tokens is F18. Which white space a new line consists of is not distinguished.")

P("F17", "Numbers are matched, read and written as their format says",
  "With the format %u, %d, %x or %X, with or without a least number of digits and a prefix, the text that is matched for a number is one the format describes, and every such text of up to 39 digits (32 hexadecimal ones), or as many as required when that is more, is matched in full and captured as one group, or none when no name is given. "
  "A text is read as exactly the number it shows when it is one the format describes and fits in 128 bits, and is an error otherwise. "
  "A number is written as the shortest text of its format that shows it, in lower case unless the format is upper case; so what was captured is found again with the same format.",
  ["inputs", "configurations"], "all numbers, all texts made of a sign, a prefix and digits, every format with precisions from 0 to 255 at and around every limit of the code",
  "The existing tests use numbers of a few digits; leading zeros, signs, numbers of more than 64 bits, casing and high precisions are hardly sampled.",
  ["filecheck/src/expr/num.rs"],
  "format strings with computed widths, regular expressions put together for each format, and a parser for each kind",
  "abstract interpretation of MIR: the format strings applied, decoded and compared with the format; the regular expressions built, compared as automata; reading by classes of texts",
  "Formats are enumerated; numbers and digits are symbolic. A format string determines the text up to the number of digits, so it is compared for numbers of all lengths. Regular expressions are compared as languages, texts are read as classes (sign, prefix, kinds of digits, length). "
  "Negative numbers in unsigned formats are not part of it, nor are hexadecimal texts with a sign or an optional prefix.")

P("F15", "Each pattern of a group is looked for whole, whatever it shares with others",
  "Of the patterns of a group of CHECK-DAG or CHECK-NOT, however many are the same or begin alike, each is compiled to exactly one place of what the group is compiled to, its first part and what follows it in order: text as text, expressions as expressions with what they capture, values of variables and expressions in their format, all with the options of the run. "
  "Two patterns share a first part only if it is the same: the same kind, text, captures, variable, expression and format. "
  "A group is rejected only if one of its patterns is empty or invalid, and always in the latter case. The pattern of a label is compiled to a matcher of all of it and rejected if it has values of variables; one marked LITERAL is compiled to all of its text.",
  ["inputs", "programs", "configurations"], "all pairs of patterns of up to two parts of every kind, groups of three and four, every pair of first parts with every format of numbers",
  "The existing tests compile a few groups of two or three texts; patterns which only differ in format, variable or captures, and repeated ones, are hardly sampled.",
  ["filecheck/src/pattern/matcher/matchers/all.rs", "filecheck/src/ast/pattern.rs", "filecheck/src/pattern/prefix.rs", "filecheck/src/pattern/mod.rs"],
  "patterns are cut into a first part and the rest; equal first parts, by a hand-written order, are looked for once",
  "abstract interpretation of MIR on symbolic texts: what a group is compiled to, decoded and compared with it; the order of first parts, as a matrix over all kinds",
  "Texts and expressions are opaque and differ by name; a first part's regular expression is decoded into the parts it was put together from. How matches of the first parts and the rest are found is the matter of F06 and F07.")

P("L15", "Substitutions are applied to the commands of a test in order, or rejected",
  "A DEFINE in a test script adds a substitution for the RUN commands after it, and a REDEFINE gives an existing one another value for the RUN commands after it; to DEFINE one that exists or to REDEFINE one that does not is an error, after which the test is not run. The name and the value of such a substitution are literal text. "
  "Each RUN command becomes what is left after all occurrences of each pattern were replaced by its value: first those of the configuration in their order, where a value given by the test takes the place of the configured one of the same pattern, then the other ones of the test in the order they were defined. "
  "A doubled percent sign is protected from them and becomes a single one. A pattern that is not a valid regular expression is an error.",
  ["inputs", "programs", "configurations"], "all combinations of patterns that are found and not found, of configured and own substitutions of up to two patterns each, of one or two DEFINE and REDEFINE between two commands",
  "The existing tests apply a few substitutions to one command; overridden values, redefinitions between commands and percent signs in values are not sampled.",
  ["lit/src/config/substitutions.rs", "lit/src/formats/sh/script/directives.rs", "lit/src/formats/sh/script/mod.rs"],
  "a set of substitutions on top of the configured one, applied one by one to each command of the script",
  "abstract interpretation of MIR: the replacements made in symbolic commands, as a sequence, vs the one the script and the configuration ask for",
  "Commands and values are opaque, whether a pattern is found is forked. What a regular expression matches is the library's matter, and which built-in substitutions there are is L16. "
  "A REDEFINE of a name that is also part of another one is not decided, as the code takes it to be ambiguous. A doubled percent sign in the value that is inserted last is not decided either.")

P("L17", "A parsed feature expression evaluates as its operators say",
  "The value of a parsed boolean expression is that of its operators: negation inverts its operand, conjunction and disjunction combine the values of both operands, a name is true exactly when it is equal to one of the defined features, and a pattern exactly when it matches one of them. "
  "How the text of an expression is parsed is not part of this property.",
  ["inputs", "configurations"], "every expression tree and every set of defined features",
  "The existing tests evaluate a handful of expressions against one or two feature sets.",
  ["lit/src/config/expr/boolean.rs", "lit/src/config/featureset.rs"],
  "a recursive evaluator over the expression tree, and look-ups in the feature sets",
  "abstract interpretation of MIR: truth tables per expression kind, exhaustive look-ups",
  "One step of the evaluator is analysed for each kind of node with the operands' values forked (induction over the tree gives every tree); each implementation of the feature environment must compare the name with every feature.")

P("L22", "The text of a feature expression is parsed as its grammar says",
  "The text of a feature expression (REQUIRES, UNSUPPORTED, XFAIL, conditional configuration) is accepted exactly if it is a sentence of the documented grammar, and stands for the expression tree the grammar gives it: parentheses before `!`, before `&&`, before `||`, the latter two combining from the left. "
  "`true` and `false` alone are literals, any other name alone is a variable, names and {{patterns}} that follow each other are one pattern in which the names stand for themselves. Anything else - an operand or a parenthesis that is missing or left over, names next to each other without a pattern, an invalid pattern, a character or a part of a token that is none - is an error, nothing is skipped. "
  "The tokens are those written: names are made of letters, digits and -+=._ as far as they go, patterns are what is between {{ and the next }}, and only white space is dropped.",
  ["inputs"], "every sequence of up to 3 tokens of all kinds, of up to 6 names, operators and parentheses, of up to 5 names and patterns; every ASCII character alone and next to others in a token",
  "The existing tests parse some twenty expressions; wrong nesting, mixed operators and leftovers in unusual places are not among them.",
  ["lit/src/config/expr/boolean.rs"],
  "a tokenizer with one token of lookahead and a recursive-descent parser on top of it",
  "abstract interpretation of MIR: the tokens are forked as the parser asks for them, every outcome is compared with a reference grammar; the tokenizer likewise per class of characters",
  "The text of names and patterns is opaque to the analysis of the parser, whether a regular expression is valid is forked. The analysis of the tokenizer forks each character over the given alphabets. NUL characters, and a single opening brace (whose pattern is never a valid one), are not decided. What the tree means is L17.")

P("L18", "`not` succeeds exactly when the command it runs fails in the expected way",
  "`not CMD ARGS` runs the given program with all the given arguments. It exits with status 0 when the program exits with a non-zero status and with 1 when it succeeds or crashes (is ended by a signal); with --crash it exits with 0 exactly when the program crashes. "
  "When there is nothing to run or the program cannot be started the status is 126, and 127 when the program was not found.",
  ["inputs", "fault_sequences"], "every exit status or signal of the command, every failure to start it, with and without --crash",
  "No existing test runs the `not` command.",
  ["litcheck/src/commands/not.rs"],
  "the command runs a child process and maps its exit status to its own",
  "path-sensitive abstract interpretation of MIR: exit code vs outcome of the child",
  "All paths are enumerated with the child's outcome forked over not found / not startable / exit 0 / exit non-zero / signal.")

P("L11", "The tests of a suite are exactly the files that meet its criteria",
  "When a directory of a suite is searched, a file becomes a test of that suite, once and identified by its path in the suite, exactly when it is a regular file whose name does not start with a dot and whose path in the suite is matched by at least one pattern and by no exclusion pattern of the configuration given for the search; a single file that is asked for is judged by the same criteria. "
  "A directory that has a suite configuration of its own is not searched for tests of the outer suite but loaded as a suite of its own. "
  "An error met while searching, or while loading such a nested suite, is returned rather than ignored.",
  ["inputs", "configurations", "fault_sequences"], "every directory tree, every set of patterns and exclusions, every error while reading the tree",
  "The existing tests run over a handful of fixed directories; none has hidden files, exclusions, nested suites or unreadable entries.",
  ["lit/src/test/registry/default.rs"],
  "a directory walk with a filter, followed by the loading of nested suites",
  "path-sensitive abstract interpretation of MIR over an abstract directory entry",
  "Both entry points are analysed with the next entry of the walk forked over all its attributes (error, directory, nested suite, hidden, regular file, matched, excluded); the decision is compared with the criteria when the next entry is asked for. "
  "Glob matching and the walk itself (walkdir) are trusted. Which configuration applies below the directory is L12's matter.")

P("L12", "Local configuration extends what it inherits, from suite to directory",
  "In a configuration that inherits from another one, the test format, the patterns and the exclusion patterns are its own where it gives any and the inherited ones otherwise; environment variables and substitutions are the inherited ones overridden by its own, and the features are those of both. "
  "The configuration of a directory is that of its suite, extended in turn by each local configuration found on the way from the suite's source directory down to that directory, and it applies to the tests found in it; a local configuration that cannot be read is an error.",
  ["inputs", "configurations", "histories"], "every combination of given and inherited values, every depth of directories with and without local configurations, every order in which directories are asked for",
  "The existing tests only load suites without local configuration; what is remembered from earlier look-ups is never sampled.",
  ["lit/src/test/config.rs", "lit/src/suite/registry/default.rs"],
  "an inherit step per configuration, and a descent that remembers what it computed per directory",
  "abstract interpretation of MIR: layers per field, typestate of the descent",
  "Each field of the result of one inherit step is a list of layers, compared with the expected one for every combination of empty and given. The descent is an induction: the configuration that is current on entering a directory must be the one the next local configuration inherits from, the one that is remembered, and the one returned.")

P("L19", "The given paths select the nearest suites and exactly the tests below them",
  "Every path given to lit is resolved to the nearest suite at or above it that contains it, not searching above the working directory; a path that does not exist, lies outside the working directory, or leads to a suite configuration that cannot be read is an error. "
  "A suite is read once, and its tests are those found below the paths selected in it so far, each path being searched once with the format and configuration that apply to it and none that lies below another one; the whole suite is searched when its root is selected or nothing is. "
  "All tests found for all suites are run.",
  ["inputs", "configurations", "histories", "fault_sequences"], "every set and order of paths, every nesting of suites, every error while looking for them",
  "The existing tests load single suites; overlapping paths, repeated suites and suites with a source directory elsewhere are not sampled.",
  ["lit/src/suite/registry/default.rs"],
  "a registry that resolves each path, remembers suites by directory and collects the tests of each suite",
  "path-sensitive typestate analysis of MIR, one step of the resolution at a time",
  "Each function of the registry is analysed on all paths with the outcomes of the ones it calls forked; loops over paths, ancestors and suites are judged per element. What the searches find is L11, configurations are L12.")

P("L20", "A suite is what its configuration file says, or is rejected",
  "The source directory of a suite is the one its configuration names, relative to the directory of the configuration file, or that directory itself if none is named; the working directory likewise, or a new temporary directory that exists as long as the suite. "
  "A suite is rejected exactly when its configuration cannot be read or parsed, it has no name, or one of the two does not exist or is not a directory. "
  "Its configuration extends the default features and substitutions, which are made from the resolved directories, and can override them.",
  ["inputs", "configurations", "fault_sequences"], "every combination of named, relative and absolute directories, every error while resolving them",
  "The existing tests load well-formed suites whose directories are relative or not given.",
  ["lit/src/suite/mod.rs"],
  "a parser that fills in and resolves the directories of a suite",
  "path-sensitive abstract interpretation of MIR over the fields of the suite",
  "Every field of the parsed configuration is a separate symbol; tests on it (empty, relative, exists, is a directory) are forked, and the directories of the suite that is returned are compared with what was found out about them. The toml parser and path functions are trusted.")
