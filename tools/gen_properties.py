#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [dict(name=n, where=w) for n, w in mech],
                          "state": [dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                          "observe_at": observe or [], "hook_needed": hook}})

NOTEST = "The repository has no test at all for this component: the test-suite only calls the rule/solution classes in memory, on a few fixed inputs."
W = "dp/server/worker.py"; A = "dp/server/audit.py"; B = "dp/server/batch.py"

prop("C01", "Every queued audit request is processed exactly once, whatever crashes",
 "A request committed to the audit queue is, at every later moment, either still in the queue or removed together with the complete effect of exactly one processing attempt (one stored result, or a failure that was logged). Worker crashes, killed connections, restarts and any number of concurrent workers never make a request disappear unprocessed and never turn one request into two stored results.",
 ["schedules", "crash_points", "fault_sequences", "histories"],
 "for all interleavings of 1..4 workers and any producers, all crash points between (or inside) statements, all lost connections and restarts",
 NOTEST + " Exactly-once depends on where a crash or another worker lands relative to BEGIN/DELETE/INSERT/COMMIT.",
 [W, A], [("BEGIN; DELETE .. FOR UPDATE SKIP LOCKED .. RETURNING; audit; COMMIT", W+":process_queue"), ("one INSERT .. RETURNING id per request", A+":audit")],
 [("queue", "requests waiting to be audited", "database"), ("result", "stored audit results", "database")], ["committed contents of the queue and result tables after every commit"])

prop("C02", "Removing a request and changing results is atomic; failures change no results",
 "The removal of a request, the retirement of the student's earlier results for that area and the arrival of the new result become visible to every other database session in one single step. When an attempt fails or is interrupted at any point, the results stored before it (their contents and which one is active) are exactly what they were.",
 ["schedules", "crash_points", "fault_sequences", "inputs"],
 "for all observation instants of a concurrent reader, all crash points, all statement failures, and all student documents including ones with missing or unstorable fields",
 NOTEST + " The half-done states exist only between statements or after a failing statement.",
 [W, A], [("one transaction per request", W+":process_queue"), ("savepoint rollback of a failed attempt", W+":process_queue")],
 [("result.is_active", "which result is shown", "database")], ["every committed database state"])

prop("C03", "A request that cannot be audited is dropped once and blocks nothing",
 "A request whose audit raises, whose area specification is missing or broken, whose document is unusable, or whose result the database rejects is taken off the queue after one attempt with an error in the log, and is not attempted again. Every other request is still processed, by workers that stay alive as long as their database connection does.",
 ["inputs", "fault_sequences", "schedules", "histories"],
 "for all mixes of good and bad requests in all queue orders, with injected statement failures, over all worker interleavings",
 NOTEST + " Starvation by a poison request needs a whole queue history, not one call.",
 [W, A, "dp/run.py"], [("except Exception: keep the deletion, log, go on", W+":process_queue")],
 None, ["queue table", "error log records", "liveness of the worker loop"])

prop("C04", "No lost wakeups: every waiting request is picked up within ten seconds",
 "While at least one worker is alive and idle, a request that is committed to the queue, or returned to it by the death of another worker, is picked up within ten seconds, whenever it arrives relative to worker start-up, to the end of a drain or to other notifications. No further request is needed to wake the worker.",
 ["schedules", "crash_points", "fault_sequences"],
 "for all arrival instants relative to the worker's connect/listen/drain/wait steps, all notification coalescing, all crashes of other workers",
 NOTEST + " The lost-wakeup window is a few microseconds wide in a real run.",
 [W], [("LISTEN, drain, select with timeout, poll, drain again", W+":worker")], None,
 ["virtual time between commit of a request and its removal"])

prop("C05", "Requests are taken highest priority first, then oldest first",
 "Whenever a worker takes a request, no other request that is committed, visible and not held by another worker has a higher priority, or the same priority and an earlier submission time. A worker never waits for a request that another worker is holding.",
 ["schedules", "histories", "inputs"],
 "for all queue contents, arrival orders and interleavings of concurrent workers",
 NOTEST + " Order among several workers needs concurrent transactions.",
 [W], [("ORDER BY priority DESC, ts FOR UPDATE SKIP LOCKED LIMIT 1", W+":process_queue")], None,
 ["order of take events against the committed queue at that instant"])

prop("C06", "At most one active result per student and area; revisions count up",
 "In every committed state each student and area code has at most one active result, and if any official audit of it has completed, the active one is the last of those to be committed (unless that one has since been cleared as expired). Each new result's revision number is one more than the highest revision stored for that student and area at that moment, so no two stored results of one student and area share a revision.",
 ["schedules", "histories", "crash_points"],
 "for all histories of repeated and simultaneous requests for the same student and area (same or different catalogs), all interleavings of workers, all crashes",
 NOTEST + " Two workers racing on the same student is the failing schedule.",
 [A], [("UPDATE .. SET is_active=false before INSERT", A+":audit"), ("coalesce(max(revision),0)+1", A+":audit"), ("per student/area lock", A+":audit")],
 None, ["committed result table"])

prop("C07", "Link-only audits never disturb the student's official results",
 "Processing a link-only request adds exactly one inactive, link-only result and leaves every other stored result unchanged: nothing is deleted and nothing becomes active or inactive. Official results are never stored as link-only and link-only results never become active.",
 ["histories", "schedules", "crash_points"],
 "for all interleavings of link-only and official requests for the same student and area, with crashes and failures",
 NOTEST, [A, "dp/server/cli.py"], [("if not link_only: delete/deactivate", A+":audit"), ("is_active = not link_only", A+":audit")],
 None, ["per-commit difference of the result table"])

prop("C08", "A stored result faithfully records its request and its audit",
 "Each stored result carries the student, area code, catalog, run number, expiry, link-only flag and input document of the request that produced it, and the audit outcome (result document, claimed courses, rank, maximum rank, GPA, ok flag, status, name, class fields) that auditing that document against that catalog's area specification gives in a fresh process. Its timestamp lies between the start and the end of the attempt on the database clock, and it does not depend on what the worker processed before or on which worker ran it.",
 ["histories", "schedules", "inputs", "fault_sequences"],
 "for all sequences of requests handled by a long-lived worker, all interleavings of workers, all clocks, all generated students and areas of the corpus",
 NOTEST + " State carried from one audit into the next shows only over a history of requests.",
 [A, W, "dp/run.py", "dp/audit.py"], [("parameter dictionary of the INSERT", A+":audit"), ("run()", "dp/run.py")],
 None, ["committed result rows against a reference computed in a fresh interpreter"])

prop("C09", "Re-auditing to an identical result replaces it instead of piling up",
 "When an official audit gives exactly the result already stored for that student, catalog and area, the stored identical copies are replaced by the new one, so a student, catalog and area never has two stored results with the same content except where link-only results are among them. Results that differ in content, student, catalog or area are never removed by an audit.",
 ["histories", "schedules", "crash_points"],
 "for all histories of repeated, simultaneous and changed requests, over all interleavings and crashes",
 NOTEST, [A], [("DELETE .. WHERE result = ..::jsonb", A+":audit")], None, ["per-commit difference of the result table"])

prop("C10", "Batch queueing is all-or-nothing per student and isolates failures",
 "A batch run adds, for each listed student whose record could be fetched, either all of the requests due for that student or none; a student whose fetch, record or insertion fails is reported and gets none, without affecting any other student. The total it reports is the number of requests durably in the queue because of it, whatever the thread timing, network errors or database errors (only a connection lost during a commit may leave that one student uncounted).",
 ["schedules", "fault_sequences", "crash_points", "inputs"],
 "for all interleavings of the fetching threads, all HTTP failures/garbage/slow replies, all statement failures and crash points",
 NOTEST + " Threads share one database connection; the loss needs one thread's failure between another's statements.",
 [B, "dp/bin/expand.py"], [("per-student transaction", B+":fetch_and_queue"), ("as_completed loop that reports exceptions", B+":main")],
 None, ["queue table, printed report"])

prop("C11", "Batch queueing selects exactly the due audits",
 "Each request a batch run adds is for a (student, non-emphasis area) of the fetched record, at the area's own catalog if it has one and the student's otherwise, not already waiting in the queue when the batch began, not blocked, and matching the requested area code if one is given; every such pair of every fetched student is added exactly once. All carry priority one, the fetched document, and one common run number: the requested one, or one more than the highest stored (one if nothing is stored).",
 ["inputs", "histories", "schedules"],
 "for all prior queue, block-list and result contents, all listed students and records, all thread interleavings",
 NOTEST, [B, "dp/bin/expand.py"], [("queued/blocked/code filters", B+":fetch_and_queue"), ("expand_student", "dp/bin/expand.py")],
 None, ["queue table rows added by the batch run"])

prop("C12", "Clearing expired results never removes a current or unexpired result",
 "Clearing removes exactly the results whose expiry has passed on the database clock and for which a more recent result of the same student, catalog and area exists; the most recent result always survives, and results without an expiry are never removed. This holds while workers store results at the same time, and the printed count is the number removed.",
 ["schedules", "histories", "inputs", "crash_points"],
 "for all table contents, clock values, and interleavings with concurrently storing workers and crashes",
 NOTEST, ["dp/server/clear_expired.py"], [("single DELETE with correlated max(ts)", "dp/server/clear_expired.py:main")], None, ["result table"])

prop("C13", "A what-if submission queues exactly one request, durably or not at all",
 "If the what-if command succeeds, exactly one request for that student, area and catalog is durably queued with the student's document, at a priority above batch requests and with run number minus one, and a waiting worker is woken; if it fails or dies at any point, the queue holds that one request or none, never a partial or duplicate one.",
 ["crash_points", "fault_sequences", "inputs", "schedules"],
 "for all crash and failure points of the submission and all interleavings with workers",
 NOTEST, ["dp/server/whatif.py"], [("with conn: single INSERT", "dp/server/whatif.py:main")], None, ["queue table, exit status"])

prop("C14", "The one-shot audit command reports an id only for a durably stored result",
 "The command that audits one student and stores the result prints a result id and succeeds only if that result is committed, link-only and inactive, with the given run number and the catalog and code of the area file. If the audit or the database fails, or the command dies, it does not report success and, unless the commit had already happened by then, nothing is stored or changed.",
 ["crash_points", "fault_sequences", "inputs", "schedules"],
 "for all crash/failure points, unusable documents, and interleavings with workers on the same student",
 NOTEST, ["dp/server/cli.py", A], [("BEGIN; audit; COMMIT / ROLLBACK", "dp/server/cli.py:main")], None, ["result table, printed line, exit status"])

prop("C15", "The report job runs daily and survives any failure of the report program",
 "While the server runs, the report program is started immediately and then again one day after each run ends, never two at once, with the batch to-database arguments. A run that fails to start, exits with an error or crashes is logged and does not stop later runs.",
 ["fault_sequences", "histories", "schedules"],
 "for all sequences of outcomes and durations of the report program on a virtual clock over many days",
 NOTEST + " A test cannot wait days.", ["dp/server/reports_worker.py"], [("loop, run(check=True), except Exception, sleep", "dp/server/reports_worker.py:worker")], None, ["start times of the program on the virtual clock"])

prop("C16", "The server starts the requested workers and outlives any one of them",
 "Starting the server starts exactly the requested number of audit workers (by default three quarters of the usable processors, rounded down), all on the configured area folder, plus one report job when a report program is configured. The server keeps running until all of them have ended, and the death of any worker or of the report job leaves the rest running and requests still being processed.",
 ["configurations", "crash_points", "schedules"],
 "for all worker counts and configurations, and all orders in which children die",
 NOTEST, ["dp/server/__main__.py", W, "dp/server/reports_worker.py"], [("Process per worker, then join all", "dp/server/__main__.py:main")], None, ["simulated process table"])

prop("C17", "A regression batch accounts for every audit and commits all or nothing",
 "A regression-test batch (baseline or branch) selects exactly the cached audits below the duration limit and matching the code filter; each selected audit whose area exists ends up either stored once with the outcome that auditing its document gives, or reported as timed out or failed. Its results become visible all at once at the end and belong to that baseline or branch only; a crash leaves none of them and never touches another branch's or the fetched data; an audit is reported as timed out only after exceeding its limit. When copying is asked for instead, each selected server result is stored unchanged.",
 ["schedules", "crash_points", "fault_sequences", "inputs"],
 "for all completion orders of the worker pool, worker deaths, failing audits, clock behaviour and crash points of the driver",
 NOTEST, ["dp/testbed/batch.py", "dp/testbed/audit.py", "dp/testbed/sqlite.py"], [("one SQLite transaction around the pool", "dp/testbed/batch.py:run_batch"), ("timeout check per message", "dp/testbed/audit.py:audit")], None, ["SQLite tables, printed report"])

prop("C18", "The area cache always serves the current file's content",
 "The area specification handed to a regression run is always the parsed content (compared as JSON) the area file has at that moment, whatever was cached earlier, however the file was edited in between, and whichever runs load areas at the same time or crash while doing so. A missing file yields no specification and disturbs no other area.",
 ["histories", "schedules", "crash_points"],
 "for all histories of file edits, deletions, reverts, loads, crashes and concurrent loads",
 NOTEST, ["dp/testbed/areas.py", "dp/testbed/sqlite.py"], [("cache row matched on full content; upsert on path", "dp/testbed/areas.py:load_area")], None, ["returned specifications against the file"])

prop("C19", "Fetching server results mirrors the selected set completely or not at all",
 "Fetching copies exactly the stored results selected (the chosen run, or all active ones) as of one database snapshot into the local cache, field for field; results already cached locally are never changed. A fetch that fails or dies at any point adds nothing, and only removes earlier cached data if clearing was requested.",
 ["crash_points", "fault_sequences", "schedules", "histories"],
 "for all crash/failure points in the stream, all concurrent changes on the server, all result sets spanning several fetch pages",
 NOTEST, ["dp/testbed/fetch.py", "dp/testbed/sqlite.py"], [("named cursor + one SQLite transaction", "dp/testbed/fetch.py:fetch")], None, ["local SQLite table against server snapshot"])

prop("C20", "The student index lists every student's areas once, across crashes",
 "After an index run completes, the index holds exactly the areas of every student file (named after its student) in the folder, each once, whatever earlier runs did, whichever files were added since, and wherever earlier runs crashed or failed on an unreadable file. A run that fails leaves the index as it was (or empty, if it was told to start over).",
 ["crash_points", "fault_sequences", "histories"],
 "for all histories of added files, damaged files, crashes at any step, and directory listing orders",
 NOTEST, ["dp/bin/index.py"], [("with sqlite3.connect: single transaction; difference of files and known students", "dp/bin/index.py:main")], None, ["SQLite index, printed rows"])

prop("C21", "Reference discovery makes the database match the area files exactly",
 "After a discovery run with insertion succeeds, the stored course and attribute references equal the set found in the given area files (at any depth, both branches of a conditional included): every found reference is present once, and stored references that were not found are gone. A run that fails or dies leaves each of the two tables either as it was or fully synchronised, and re-running it completes the job.",
 ["histories", "crash_points", "fault_sequences", "inputs"],
 "for all prior table contents (including numeric course ids and plain course names), all orders, crashes and statement failures",
 NOTEST, ["dp/bin/discover.py"], [("INSERT ON CONFLICT DO NOTHING, then delete stale, then commit", "dp/bin/discover.py:insert_course_refs, insert_bucket_refs")], None, ["map_constant_area, map_attribute_area"])

prop("C22", "An audit's messages do not depend on how or with what it is interleaved",
 "The sequence of messages an audit produces, and the content of each result, is the same whether its consumer runs it straight through, pauses between messages, interleaves it with other audits in the same process, or runs it after other audits were abandoned half-way or failed. A result already delivered does not change when the audit or other audits continue.",
 ["schedules", "histories", "crash_points"],
 "for all interleavings of several audit streams in one process, all abandonment points, all prior histories",
 "Tests run one audit at a time, to completion or first result; sharing of claims between solutions of a live stream is only visible when streams interleave.",
 ["dp/audit.py", "dp/area.py", "dp/context.py", "dp/run.py", "dp/solve.py"], [("fresh claims per solution", "dp/area.py:solutions"), ("evolve instead of mutate", "dp/context.py")], None, ["message stream of dp.run.run"])

prop("C23", "The same request gives the same result in every process",
 "Auditing the same document against the same specification gives the same result document, claims, rank, GPA and status in every process: under any hash randomisation, any history of earlier audits in that process, and any order in which the file system lists directories. Two servers never disagree about a student.",
 ["configurations", "histories", "schedules"],
 "for all interpreter hash seeds, process histories and directory orders",
 "The test-suite is run in one interpreter with a fixed hash seed and never compares two processes.",
 ["dp/area.py", "dp/run.py", "dp/rule", "dp/solution", "dp/result", "dp/limit.py"], [("sorted/ordered iteration", "dp/rule, dp/limit.py"), ("ordered transcript for the common major rules", "dp/area.py")], None, ["result documents of separately started interpreters"])

prop("C24", "The area used is the newest one not newer than the requested catalog",
 "For a requested catalog year, the specification used is the file for that area code in the newest catalog folder (YYYY-YY) that is not newer than that year, independent of directory listing order and of other areas' files; if there is none the request is dropped with an error. If that file disappears between lookup and loading, the audit stores the placeholder error area and the worker goes on.",
 ["configurations", "schedules", "fault_sequences"],
 "for all folder layouts, listing orders, and deployments that add or remove files while workers run",
 NOTEST, ["dp/run.py", W], [("glob + filter + max", "dp/run.py:find_area"), ("FileNotFoundError placeholder", "dp/run.py:load_area")], None, ["stored result's area name and version, opened file"])

prop("C25", "An audit's progress protocol is well-formed under any clock and cancellation",
 "Every audit emits exactly one estimate first, then progress reports at the configured number of checks whose best rank never falls, and ends with exactly one final result (or one no-audits notice): the first complete solution if one was met, the first of the best-ranked checked ones otherwise. Checking only every Nth solution and stopping after a set number of checks are honoured; when asked to print all (or particular) solutions, each checked one is delivered once, in order, instead of a final repeat of the best. No clock step, stall or jump changes anything but the reported times, an interrupt ends the audit at once, and the command line reports the same messages and exit code.",
 ["schedules", "fault_sequences", "configurations"],
 "for all clock behaviours (stalls, jumps forward and back), all option settings, all cancellation points",
 "Tests never vary the clock, progress interval or stop-after settings together.",
 ["dp/audit.py", "dp/run.py"], [("message loop", "dp/audit.py:audit")], None, ["message stream of dp.run.run under a virtual clock"])

prop("C26", "A comparison lists exactly the audits whose outcome differs, and changes none",
 "Comparing a branch with the baseline lists exactly the audits stored in both whose ok flag, GPA, rank or maximum rank differ (or only those whose ok flag or GPA differ, when asked), once each and in order, with both sides' stored values and the column totals. The list is that of one committed state, whatever batches are replacing results meanwhile. A branch without results is refused rather than reported as unchanged; a failure to write the list is not reported as success; no comparison, failed or killed anywhere, changes a stored audit or hinders the next one.",
 ["histories", "schedules", "crash_points", "inputs"],
 "for all stored baseline and branch results (including tiny differences and branch names that resemble one another), all concurrent result changes, all crash points and write failures",
 NOTEST + " A regression that the comparison omits is invisible to its user.",
 ["dp/testbed/compare.py", "dp/testbed/sqlite.py"], [("changes view over baseline and branch", "dp/testbed/compare.py:compare"), ("mode filters", "dp/testbed/compare.py:compare")], None,
 ["printed CSV against the committed tables", "tables after every commit"])

prop("C27", "Looking up stored audits shows exactly what is stored and changes nothing",
 "The testbed's query, print, extract, invoke and run commands answer from one committed state: query lists exactly the cached audits matching the given filters, print shows exactly the stored result (or both results, or a diff from which both can be rebuilt) of the named student, catalog, area and branch, extract and invoke write exactly that audit's input document, run shows what auditing that document against the current area file gives. Every stored result can be shown. A missing record is refused, a failed or torn write is never reported as success, and none of them changes a stored audit.",
 ["histories", "schedules", "crash_points", "inputs"],
 "for all stored documents and results, including the same student and area under several catalogs, all concurrent changes, all crash points, full disks and broken pipes",
 NOTEST + " Answering from the wrong catalog or a mixture of states needs several stored audits or a concurrent change.",
 ["dp/testbed/query.py", "dp/testbed/render.py", "dp/testbed/extract.py", "dp/testbed/invoke.py", "dp/testbed/run.py", "dp/stringify_v3.py"], [("key lookups", "dp/testbed/render.py:render"), ("document extraction", "dp/testbed/extract.py:do_extract")], None,
 ["standard output, written files and exit status", "tables after every commit"])

prop("C28", "Local audits report every requested audit faithfully or fail loudly",
 "An audit from the command line prints exactly what auditing that student file against that area file gives. (That includes its other listings: grade points, transcript, claimed courses, and every or selected audits.) The bulk command audits every distinct request of its list once per round, in order, each against the newest area file not newer than its catalog, and prints one line (or one report) per audit as it completes. Exit status zero means that everything asked for was printed; after a bad request, an unreadable file, a broken pipe or an interrupt the status is not zero and what was printed is a correct beginning. Replacing student or area files meanwhile never mixes two versions of one file.",
 ["inputs", "schedules", "fault_sequences", "crash_points"],
 "for all request lists, students, area trees and output options, all replacements of files while the commands run, all I/O failures, interrupts and kills",
 NOTEST + " Skipped or repeated requests and swallowed errors need lists with duplicates, failures and concurrent edits.",
 ["dp/__main__.py", "dp/bin/batch.py", "dp/run.py"], [("request loop", "dp/bin/batch.py:main"), ("message loop", "dp/__main__.py:main"), ("find_area, load_area, load_student", "dp/run.py")], None,
 ["standard output and exit status against a fresh process auditing the same files"])

prop("C29", "The summary of recent runs describes one moment and counts every audit once",
 "The testbed's summary lists every run with results of the last week, newest run first, with the time of its first and last audit in local time, the time between them, how many audits it has, how many of them are ok and not ok, and how many of its requests are still queued. All of it holds of one committed state of the server at a moment while the summary ran: an audit that moves from the queue to the results meanwhile is counted exactly once, rolled-back work never. The list offered before a download is the same. Nothing is changed on the server, and a failed read or write is not reported as success.",
 ["histories", "schedules", "crash_points"],
 "for all stored results and queues, all concurrent completions, submissions, deletions and rollbacks, all time-zone dates, connection losses, statement errors and broken pipes",
 NOTEST + " No test reaches the server queries; double counting needs a completion at the right moment.",
 ["dp/testbed/fetch.py", "dp/ms.py"], [("summary query", "dp/testbed/fetch.py:fetch__print_summary"), ("choice of run", "dp/testbed/fetch.py:fetch__select_run")], None,
 ["printed summary against the committed states of result and queue"])

prop("C30", "The file tools judge and show every file by itself",
 "Validating a list of area files complains about exactly those that cannot be loaded, whatever else is in the list and in whatever order, and comes to all of them, or with --break to all up to the first it complains about. A file that cannot be read is complained about and does not stop the rest. Printing a saved audit shows exactly what the audit itself showed for that student. Files replaced meanwhile are seen in one of their versions. A failed read or write is never reported as success.",
 ["inputs", "schedules", "fault_sequences", "crash_points"],
 "for all lists of sound and broken area files, all saved audits and students, all replacements while a tool runs, all I/O failures, interrupts and kills",
 NOTEST + " No test reaches the tools.",
 ["dp/bin/validate.py", "dp/bin/print.py", "dp/area.py", "dp/stringify_v3.py"], [("file loop", "dp/bin/validate.py:main"), ("report of a saved audit", "dp/bin/print.py:main")], None,
 ["standard output and error against how each file was made, and against the report of a fresh audit"])

prop("C31", "The health check passes exactly while an audit worker is connected",
 "Whenever the container health check runs, it succeeds if at least one audit worker of the server has an open database session at that moment, and fails if none has: before the workers have connected, after all of them died or lost their connections, or when the database cannot be reached or asked. Sessions of the other programs (batches, what-if submissions, one-shot audits, clearing, discovery, the test bed) never make it succeed.",
 ["schedules", "histories", "fault_sequences", "crash_points"],
 "for all worker counts, deaths and lost connections, all other programs connected at the time, and all moments at which the check runs",
 "No test starts a server or runs the script; a check that always passes looks the same as a right one until every worker is gone.",
 ["docker-healthcheck.sh", "dp/server/worker.py", "dp/server/__main__.py"], [("query and comparison", "docker-healthcheck.sh"), ("session name", "dp/server/worker.py:worker"), ("session names of the other programs", "dp/server/batch.py")], None,
 ["exit status of the script against the open sessions of worker processes"])

prop("C32", "Expanding student files lists every due audit of every file",
 "Given student files (by name or pattern, on the command line or one per line on standard input), the expand command prints for each matching file one line per distinct non-emphasis area of the student, or one for the requested area code, with the path of the student file and the path of the area file under the configured folder, in the area's own catalog if it has one and in the student's otherwise. The lines of one file stand together and describe one version of it; a student whose catalog is no year has none. Exit status zero means that everything was printed; after an unusable record, a read error, a broken pipe or an interrupt it is not zero and what was printed is a correct beginning.",
 ["inputs", "schedules", "fault_sequences", "crash_points"],
 "for all student records, command lines and patterns, all replacements of files while the command runs, all I/O failures, interrupts and kills",
 NOTEST + " No test reaches the command.",
 ["dp/bin/expand.py"], [("command line", "dp/bin/expand.py:cli"), ("due audits", "dp/bin/expand.py:expand_student")], None,
 ["standard output and exit status against the versions of the files"])

# ---- properties that are pure functions of their input: listed, not claimed ----
NA = "Existing tests sample a handful of hand-written areas and transcripts; the statement is over all of them."
prop("C40", "A course counts for only one requirement unless declared multicountable",
 "In any audit result, a course instance is successfully claimed by at most one requirement, except where the area declares it multicountable for those requirements or the requirement explicitly allows claimed courses.",
 ["inputs"], "for all areas and transcripts", NA, ["dp/context.py", "dp/claim.py"], [("make_claim", "dp/context.py")])
prop("C41", "The reported audit is the best-ranked of the solutions considered",
 "The final result has the highest rank among the solutions checked, and a complete solution is reported whenever one was checked.",
 ["inputs"], "for all areas and transcripts", NA, ["dp/audit.py", "dp/solve.py"], [("best_sol", "dp/audit.py"), ("find_best_solution", "dp/solve.py")])
prop("C42", "Credit and course limits are never exceeded",
 "No audited transcript variant contains more courses or credits matching a limit than the limit allows, and no admissible maximal variant is skipped.",
 ["inputs"], "for all limits and transcripts", NA, ["dp/limit.py"], [("limited_transcripts", "dp/limit.py")])
prop("C43", "Grade-point averages are computed exactly and truncated, never rounded up",
 "The GPA is the credit-weighted mean over courses counted in the GPA, using the most recent attempt rules, truncated to two decimals.",
 ["inputs"], "for all transcripts", NA, ["dp/lib.py"], [("grade_point_average", "dp/lib.py")])
prop("C44", "Exceptions have exactly the effect they describe",
 "An insertion, waiver, value, block or course-override exception changes only the requirement or course it names.",
 ["inputs"], "for all exceptions, areas and transcripts", NA, ["dp/exception.py", "dp/context.py"], [("load_exception", "dp/exception.py")])
prop("C45", "Result rendering loses no requirement and never fails on a valid result",
 "Text, CSV and spreadsheet renderings show every requirement of a valid result with its status and claimed courses.",
 ["inputs"], "for all valid results", NA, ["dp/stringify_v2.py", "dp/stringify_v3.py", "dp/stringify_csv.py", "dp/bin/excelify.py"], [("print_result", "dp/stringify_v3.py")])
prop("C46", "Native formatter and report summaries agree with the stored results",
 "The compiled formatter and report programs render and summarise stored results without altering their meaning.",
 ["inputs"], "for all stored results", "No Python test reaches the Rust programs.", ["formatter", "reports", "src"], [("render", "formatter/src"), ("reports", "reports/src")])
prop("C47", "Durations and environment files are parsed as written",
 "Duration strings and environment files are read into exactly the values they denote.",
 ["inputs"], "for all well-formed strings and files", NA, ["dp/ms.py", "dp/dotenv/dotenv.py"], [("parse_ms_str", "dp/ms.py"), ("read", "dp/dotenv/dotenv.py")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
