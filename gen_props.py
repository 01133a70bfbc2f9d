#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (kept together so they stay in step)."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=("standard output, standard error and exit status of a gledger run",), tech=None, note=None, na=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state], observe_at=list(observe), hook_needed=None),
        _tech=tech, _note=note, _na=na))

PARSE = ["parser/lexer.go", "parser/parser.go", "parser/transactionbuilder.go"]

prop("C01", "A report is only made from transactions that balance",
 "Every command which reads a journal fails, with no report, when any transaction of any of its files does not sum to exactly zero in hundredths or leaves more than one amount out. A transaction which leaves exactly one amount out gets the amount that makes it sum to exactly zero (which may be zero), wherever among its postings it stands. No transaction which balances is rejected.",
 ["inputs", "histories", "fault_sequences"], "every journal of one commodity with amounts within 10^15, every position of the elided amount, every place of a bad transaction in an include tree, under every delivery of the bytes",
 "The tests close a handful of hand-built transactions and none runs a whole journal with an unbalanced transaction in it, at its end, before an include or in an included file.",
 PARSE + ["journal/transaction.go", "journal/amount.go"],
 [("Transaction.Close checks the sum and fills in the elided posting", "journal/transaction.go"), ("the builder rejects a second elided posting and closes a transaction at every end", "parser/transactionbuilder.go"), ("exact decimal reading", "parser/parser.go")],
 [("postingWithElidedAmount", "the one posting whose amount is computed", "journal/transaction.go")])

prop("C02", "Balance totals are exact and complete",
 "The balance report shows for every account the exact sum of the selected postings of it and of all accounts below it, each account once, below its parent, in alphabetical order on each level, with the overall total last. Accounts with a total of zero which have no shown account below them are left out unless --show-zero is given; --flatten shows the leaves with their full names and --collapse joins only children with their parents without changing any total.",
 ["inputs", "configurations", "fault_sequences"], "every journal, every combination of the flags, filters and dates, and every delivery of the bytes and hash-map iteration order",
 "The tests check the account tree and the tree printers on fixed trees; no test runs the balance command, and map iteration order and zero-sum parents are sampled by none.",
 ["cmd/balance.go", "cmd/common.go", "journal/account.go", "journal/journal.go", "journal/amount.go", "reporting/tree.go", "reporting/flattenedtree.go"],
 [("each posting is added to its account and all ancestors", "journal/journal.go"), ("empty accounts are removed bottom-up", "cmd/balance.go"), ("children are printed sorted", "reporting/tree.go")],
 [("Account.Amount", "running total of an account with its descendants", "journal/account.go")])

prop("C03", "Includes are read exactly once per directive, in place and in order",
 "The postings of a journal are those of the root file with the content of each included file in the place of its include line, once for every include line, to any depth; relative names are taken from the including file's directory and absolute names as they are. An include line closes the transaction before it. An included file which is missing, unreadable, malformed or which includes a file still being read makes the command fail, without a report.",
 ["inputs", "histories", "fault_sequences"], "every finite tree of files (nested, repeated, relative, absolute, dotted), every file missing or failing in it, every delivery",
 "One test includes one file once; none nests, repeats, breaks or loops an include, or includes under an open transaction or by an absolute name.",
 PARSE + ["cmd/common.go"],
 [("the include item opens and parses the file recursively", "parser/parser.go"), ("the open transaction is ended before the include", "parser/parser.go")],
 [("journalFiles", "the files being read, innermost last", "parser/parser.go")])

prop("C04", "What is reported does not depend on how the bytes arrive",
 "For the same file contents a command gives byte for byte the same report and exit status however the system delivers them: in one read or byte by byte, cut at any place including inside of a character or a line end, with interrupted or slow calls, and whatever closing a read file returns. This holds for lines and files of any length.",
 ["inputs", "schedules", "fault_sequences"], "every journal and every sequence of read sizes, interruptions, delays and close results",
 "The tests read from strings or small files in one piece; short reads, interruptions, lines longer than a buffer and failing closes never happen in them.",
 PARSE + ["cmd/common.go"],
 [("lines are put together from buffered pieces until the line end", "parser/lexer.go")], tech="seeded simulation of read schedules against the fault-free run and a reference model")

prop("C05", "A journal that cannot be read in full gives no report",
 "When opening or reading any file of the journal fails for a lasting reason, at any point including the read that would have met the end of the file, the command exits with a non-zero status, writes a diagnostic which names that file and writes no report. Nothing partial is ever reported as if it were the whole.",
 ["fault_sequences", "inputs"], "every journal, every open or read of it failing with any error, once or for good",
 "No test makes a read or an open fail after the first; a scanner that treats an error as the end of the file passes all of them.",
 PARSE + ["cmd/common.go", "cmd/root.go"],
 [("read errors end the lexer with an error", "parser/lexer.go"), ("the commands return the parser's error and the root exits 1", "cmd/root.go")], tech="seeded I/O fault injection at every open and read, judged over the recorded call history")

prop("C06", "No input makes a command crash, hang or report nonsense",
 "Whatever bytes the journal files hold, whatever the arguments are and whatever system calls fail, every command ends by itself after a bounded number of system calls with exit status 0 or 1, without a panic or a runtime error. Journals that the rest of these properties define are judged by them even here.",
 ["inputs", "fault_sequences"], "all files and arguments (binary, mutated, truncated, huge lines), odd file systems (directories, loops, empty names) and random faults",
 "The tests feed well-formed text and a few malformed lines to single functions.",
 ["main.go", "cmd/common.go", "cmd/root.go", "journal/budget.go", "reporting/filter.go", "parser/dates.go"] + PARSE,
 [("errors are returned, not panicked", "parser/parser.go"), ("a file being read cannot be included again", "parser/parser.go")], tech="seeded simulation with mutated inputs and random fault sequences; crash, hang and model oracles")

prop("C07", "A diagnostic leads to the file and line of the defect",
 "When a journal is rejected, the diagnostic names the file which holds the first defect and a line on which it can be seen: the malformed line itself, or for a transaction which does not balance some line from its header to the line that ends it. Line numbers count every line of the file, blank and comment lines included, and are those of the included file for a defect in it. Diagnostics go to standard error with exit status 1.",
 ["inputs", "fault_sequences"], "every include tree with one defect of any of 14 kinds at any place, under every delivery of the bytes",
 "No test looks at the position in an error; included files, final lines without line end and long lines are not covered.",
 PARSE + ["cmd/root.go"],
 [("the lexer adds its location to each error", "parser/lexer.go")], [("currentLine", "number of the line being read", "parser/lexer.go")])

prop("C08", "Same journal, same arguments, same day: the same bytes",
 "Two runs of a command on the same files with the same arguments on the same day write exactly the same bytes, whatever the time of that day, the iteration order of hash maps, the order in which threads run, the speed of the disk, the sizes of reads and the environment variables gledger does not document in either run.",
 ["schedules", "inputs"], "every journal, every command, every pair of hash-map seeds and deliveries",
 "Go randomises map iteration for each loop of each run, so a test that passes once says nothing about the next run, and none compares two runs.",
 ["cmd/stats.go", "cmd/budget.go", "cmd/print.go", "cmd/accounts.go", "cmd/payees.go", "journal/account.go", "journal/budget.go", "reporting/tree.go", "reporting/flattenedtree.go"],
 [("keys are sorted before they are printed", "cmd/stats.go, journal/account.go, cmd/payees.go"), ("transactions are sorted stably by date", "cmd/print.go")], tech="seeded simulation controlling every hash-map seed; differential between runs and against a model")

prop("C09", "Date limits select calendar days, in every time zone at every moment",
 "--begin selects transactions dated on that day or later and --end those before that day, as calendar days; --current selects those up to today, the day it is in the user's time zone, today included. None of this depends on the zone's offset, on daylight saving changes or on the time of day.",
 ["inputs", "configurations", "schedules"], "every moment of the simulated clock (midnight, new year, leap days, DST changes, clock jumps during the run), 18 zones, every pair of limits",
 "The tests parse dates but never compare a transaction with a limit, set a time zone or a clock.",
 ["cmd/common.go", "cmd/root.go", "parser/dates.go"],
 [("date limits are read in the transactions' zone and compared as days", "cmd/common.go")], [("begin, end, current", "the date limits of a run", "cmd/common.go")], tech="seeded simulation of the clock and time zone; reference model of calendar-day selection")

prop("C10", "print gives back the journal, in order, readably",
 "print writes every selected transaction exactly once, by ascending date and in journal order within a day, with its date, state, payee, notes, accounts and exact amounts. The output is itself a journal which is accepted, prints to the same bytes and has the same balances.",
 ["inputs", "fault_sequences"], "every journal including same-day transactions in any number, notes at every place, and odd spacing; every delivery",
 "No test runs print; an unstable sort shows only with more than a dozen same-day transactions.",
 ["cmd/print.go", "journal/transaction.go", "journal/posting.go", "journal/amount.go"] + PARSE,
 [("stable sort by date", "cmd/print.go"), ("Transaction.String and Posting.String", "journal/transaction.go, journal/posting.go")], tech="seeded simulation; print is re-read by a second simulated run and compared with the model")

prop("C11", "accounts and payees list exactly what occurs, sorted, once",
 "accounts lists exactly the accounts and payees exactly the payees which occur in the transactions within the date limits, each once, in ascending order, and with filter arguments only those names which the arguments match.",
 ["inputs", "configurations", "fault_sequences"], "every journal and include tree, every filter and date limit, every map iteration order and delivery",
 "No test runs either command.",
 ["cmd/accounts.go", "cmd/payees.go", "cmd/common.go", "journal/journal.go"],
 [("names are gathered in a map or tree and sorted", "cmd/payees.go, cmd/accounts.go")])

prop("C12", "The statistics are those of the selected transactions",
 "statistics counts exactly the selected transactions and their distinct accounts and payees, gives their first and last date, how many days ago those were counted from today, the days between and the transactions per day, and lists exactly the files which hold selected transactions, under a name by which they were included and no name twice. Where none is selected it counts none and gives no dates. The age of money is the mean, over the last ten sums spent, of the days from the income each was drawn from, where what a day spends is drawn from the earliest income left. The figures do not depend on the order of the files or the time of the run.",
 ["inputs", "configurations", "schedules"], "every journal over any number of files, every filter and date limit, every simulated time and map iteration order",
 "No test runs statistics.",
 ["cmd/stats.go", "cmd/common.go", "parser/parser.go"],
 [("each selected transaction updates counters, sets and dates", "cmd/stats.go"), ("the parser tells the handler the file of each transaction", "parser/parser.go")])

prop("C13", "The budget accounts for every posting, month by month",
 "For every month with budgeted amounts, expenses or income the budget report gives, in ascending order, the funds received in that month and per top-level category the exact amounts budgeted for the month, the activity of the month's expense postings in it (spending negative), and what is available: their sum. Each posting counts exactly once, in the month of its date and in its category with all its sub-categories; every category with a budget or an expense appears once, in alphabetical order.",
 ["inputs", "histories", "fault_sequences"], "every journal with any number of months, gaps, nested and repeated categories, income and expenses; every map iteration order and delivery",
 "The tests add a few postings to a budget by hand for one or two months; none runs the budget report.",
 ["cmd/budget.go", "journal/budget.go", "journal/periodictransaction.go", "journal/journal.go"],
 [("postings are added to their month and carried to later months", "journal/budget.go")], [("Budget.Months", "envelopes, expenses and income per month", "journal/budget.go")])

prop("C14", "A report that is not delivered in full is a failure",
 "Whatever sizes and interruptions the writes of a report meet, all of its bytes arrive in order and the command exits with status 0; when any write of it fails for good the command does not exit with status 0, and what was written is a beginning of the report. A failure stays one if its diagnostic cannot be written.",
 ["fault_sequences", "inputs"], "every report and every write of it being short, interrupted or failing with any error (full disk, closed pipe, I/O error)",
 "The tests never look at standard output, let alone at one that fails.",
 ["cmd/root.go", "cmd/common.go", "cmd/print.go", "cmd/stats.go", "cmd/budget.go", "cmd/accounts.go", "cmd/payees.go", "shared/shared.go"],
 [("reports are written to one checked writer and the error fails the run", "cmd/root.go, shared/shared.go")], tech="seeded fault injection at every write, judged over the recorded call history")

prop("C15", "Reporting changes nothing and leaves nothing behind",
 "No command ever creates, changes, renames or removes a file, opens one for writing or writes to anything but its standard output and error, whether it succeeds or fails. A command killed at any point leaves nothing that influences a later run: the next run reports what it would have reported.",
 ["crash_points", "inputs", "fault_sequences"], "every command on every journal, killed at any of its system calls and run again",
 "No test observes the system calls of a run or kills one.",
 ["cmd/common.go", "parser/parser.go", "cmd/root.go"],
 [("files are opened read-only", "parser/parser.go"), ("no state is kept between runs", "cmd/common.go")], observe=("the system calls of a run",), tech="seeded crash injection at every system call; every mutating call is refused and recorded")

prop("C16", "File descriptors grow with include nesting only",
 "Reading a journal needs at most as many open files as its includes are nested, plus one for the root: each file is closed when it has been read. A journal with any number of include lines is read with a fixed number of descriptors.",
 ["inputs", "fault_sequences"], "every include tree, flat or deep, run with a descriptor limit of just its nesting",
 "One test includes one file; descriptors run out only after hundreds.",
 ["parser/parser.go", "cmd/common.go"],
 [("each included file is closed when its parsing returns", "parser/parser.go")], observe=("open descriptors of a run",), tech="seeded simulation with a simulated descriptor limit (EMFILE) per run")

prop("C17", "Filters select exactly what matches, whatever their order",
 "A report with filters covers exactly what at least one of them matches: an account filter matches postings by account, an @ filter transactions by payee, an = filter transactions or postings by their notes, as regular expressions which ignore case unless they hold an upper-case letter; print and the transaction count of statistics take whole transactions, the other figures only the matching postings of a transaction which is not matched as a whole. The order and repetition of filters does not matter, and selected postings keep their order. A filter which is no regular expression makes the command fail.",
 ["inputs", "configurations", "fault_sequences"], "every journal, every set of filters built from its own texts and unrelated ones, every order of them, every report",
 "The tests match single filters against single transactions; none runs a report with filters, let alone several.",
 ["reporting/filter.go", "cmd/common.go", "cmd/balance.go", "cmd/print.go", "cmd/stats.go", "cmd/accounts.go", "cmd/payees.go"],
 [("checkAgainstFilters unites the filters' matches", "cmd/common.go"), ("Filter.MatchesTransactionHow", "reporting/filter.go")])

prop("C18", "Files edited during a run: the report is of exactly what was read",
 "When files of the journal are appended to, truncated, overwritten, replaced or unlinked while a command reads them, the command reads every file to its end and reports exactly the bytes delivered to it, each once, as if they had been the files' contents; or it fails as it would have on those contents. Files are not read again.",
 ["schedules", "histories", "fault_sequences"], "every journal, every sequence of one to three edits at any step of the run, every delivery",
 "The tests read files which nobody else touches.",
 PARSE + ["cmd/common.go"],
 [("each file is opened once per include line and read in one pass", "parser/parser.go, parser/lexer.go")], tech="seeded interleaving of an editor with the run; refinement against the model over the delivered bytes")

prop("C19", "Amounts are read and written exactly at every magnitude",
 "An amount of up to 92233720368547758.07 either way is read exactly, with any commodity before it, with or without a sign and with none, one (tenths) or two decimals, and reports write it with exactly two decimals such that reading it gives the same amount. An amount which does not fit, or is malformed, makes the command fail. Sums are exact at every magnitude: postings whose sum is not zero are rejected even if it is a multiple of 2 to the 64th, and a total or elided amount which does not fit makes the command fail rather than be reported wrapped around.",
 ["inputs", "fault_sequences"], "every journal with amounts of any size, in one or several commodities, under every delivery of the bytes", "The tests read and format a handful of small amounts and sum none that are large.",
 ["journal/amount.go", "journal/transaction.go", "parser/parser.go", "journal/budget.go", "cmd/budget.go"], [("parseAmount reads digits exactly and checks the limit", "parser/parser.go"), ("DisplayableQuantity writes them", "journal/amount.go"), ("Add and Subtract refuse sums that do not fit", "journal/amount.go"), ("Close sums postings without a limit", "journal/transaction.go")])
prop("C20", "The account tree library keeps its structure under every operation",
 "Finding, creating, pruning, unlinking and removing accounts in any order keeps paths, parents, children and totals of the tree consistent.",
 ["inputs", "programs"], "every sequence of tree operations through the package's functions", "The tests apply single operations to small trees.",
 ["journal/account.go"], [("FindOrCreateAccount, Unlink, RemoveChildren, PruneChildren", "journal/account.go")],
 na="A single-threaded in-memory data structure with no time, I/O, concurrency or failure in it, some of whose operations no command uses; what commands do with it is covered by C02.")
prop("C21", "Tree layout: indentation, joining and leaf selection of the tree printers",
 "For every account tree and prepender the tree printers indent each level by two spaces, join only children when asked to and list the leaves when flattened.",
 ["inputs"], "every account tree and every prepender function", "The tests print fixed trees.",
 ["reporting/tree.go", "reporting/flattenedtree.go"], [("Tree and FlattenedTree", "reporting/tree.go, reporting/flattenedtree.go")],
 na="A pure function from a tree to a string through a package interface; nothing a simulator decides takes part. The trees commands can make are compared in C02.")
prop("C22", "The command line says the same in each of its forms, and nothing else",
 "Dates of --begin and --end are YYYY, YYYY/MM, MM/DD or YYYY/MM/DD, with / . or - throughout, missing parts being the first and a missing year that of the day of the run in the user's time zone. Aliases, long, short and joined flags, flags in any place among the filters, and -f, --file and LEDGER_FILE (the flag wins) ask for the same report. A date that is no calendar day in one of these forms, a filter that is no regular expression, an unknown command, flag or flag value, a flag of another command and a missing journal name make the command fail with a diagnostic and without a report.",
 ["inputs", "configurations", "schedules"], "every journal, every question in every form, at every moment in every zone", "The tests parse a list of date spellings; none runs a command line.",
 ["parser/dates.go", "reporting/filter.go", "cmd/root.go", "cmd/common.go"], [("ParseSmartDateInLocation", "parser/dates.go"), ("filters are compiled before the command runs", "cmd/root.go"), ("the journal named by flag or environment", "cmd/common.go")],
 tech="seeded simulation of the same question in several forms under simulated clocks, zones and environment; reference-model oracle")

DEFT = "seeded deterministic simulation with injected delivery faults; reference-model oracle"
NOTE = ("Seeded search over generated worlds, schedules and faults, not enumeration: a quiet run is evidence for what it executed (see the evidence file), not proof. "
        "Trusted: the reference model in sim/model.go, the simulated kernel in sim/overlay/glsim_syscall.go (files, clock, random numbers, kill), Go's toolchain. "
        "The program itself, cobra, and the standard library above the system calls run for real, built from /repo's working tree.")
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}, ensure_ascii=False) + "\n")
m = dict(version=1, setup_cmd="bash check.sh setup",
  checks=[dict(property=p["id"], quick_cmd="bash check.sh %s -tier quick" % p["id"], thorough_cmd="bash check.sh %s -tier thorough" % p["id"],
               technique=p["_tech"] or DEFT, level="exploration", level_note=p["_note"] or NOTE) for p in P if not p["_na"]],
  not_applicable=[dict(property=p["id"], reason=p["_na"]) for p in P if p["_na"]],
  notes="No hooks in /repo: the simulator is put under the Go standard library with a build overlay (go build -overlay), so /repo is built unchanged. One binary per check, deleted afterwards. Replay: bash check.sh replay FILE. Known findings and repairs: known-findings.txt.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
