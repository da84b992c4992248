From 04ec4c9809ffd68bde8d87994c674477a730a68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:52 +0000
Subject: [PATCH 01/19] fix: undo a failed audit's partial changes and drop its
 request exactly once

audit() swallowed every exception, so a failure after the old results had been
deleted or deactivated committed those changes without a new result, and a
failure inside the database turned the worker's COMMIT into a rollback that put
the request back for ever. Re-raise, roll back to a savepoint taken after the
request is removed, and commit only the removal. A request without an area
file is committed on its own, and the one-shot command no longer reports
success when nothing was stored.
---
 dp/server/audit.py  | 2 ++
 dp/server/cli.py    | 2 ++
 dp/server/worker.py | 8 +++++++-
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/dp/server/audit.py b/dp/server/audit.py
index 4ec8785..27c13c1 100644
--- a/dp/server/audit.py
+++ b/dp/server/audit.py
@@ -158,5 +158,7 @@ def audit(
 
     except Exception as ex:
         logger.error("error with student #%s, catalog %s, area %s: %s", stnum, area_catalog, area_code, ex)
+        # let the caller undo whatever has been done so far
+        raise
 
     return None
diff --git a/dp/server/cli.py b/dp/server/cli.py
index b03c85c..dbc5a9e 100644
--- a/dp/server/cli.py
+++ b/dp/server/cli.py
@@ -47,6 +47,8 @@ def main() -> None:
                 link_only=True,
                 expires_at=None,
             )
+            if result_id is None:
+                raise ValueError('the audit did not produce a result')
             curs.execute('COMMIT;')
             print(f'stored with id {result_id}')
         except Exception as ex:
diff --git a/dp/server/worker.py b/dp/server/worker.py
index e414f0b..5bc02b3 100644
--- a/dp/server/worker.py
+++ b/dp/server/worker.py
@@ -88,6 +88,9 @@ def process_queue(*, curs: psycopg2.extensions.cursor, area_root: pathlib.Path)
             logger.exception('unexpected exception: wrong number of items in tuple from queue table - %s', exc)
             break
 
+        # everything after this point is undone if the audit fails
+        curs.execute('SAVEPOINT audit;')
+
         area_id = area_catalog + '/' + area_code
         try:
             logger.info(f'[q={queue_id}] begin  {student_id}::{area_id}')
@@ -97,6 +100,7 @@ def process_queue(*, curs: psycopg2.extensions.cursor, area_root: pathlib.Path)
             area_file = find_area(root=area_root, area_catalog=catalog_int, area_code=area_code)
             if not area_file:
                 logger.error('could not find area spec for %s at or below catalog %s (%s), under %s', area_code, area_catalog, catalog_int, area_root)
+                curs.execute('COMMIT;')
                 continue
 
             area_spec = load_area(area_file)
@@ -119,7 +123,9 @@ def process_queue(*, curs: psycopg2.extensions.cursor, area_root: pathlib.Path)
             logger.info(f'[q={queue_id}] commit {student_id}::{area_id}')
 
         except Exception as exc:
-            # commit the deletion, just so it doesn't endlessly re-run itself
+            # undo any partial work from the failed audit, then commit the
+            # deletion, just so it doesn't endlessly re-run itself
+            curs.execute('ROLLBACK TO SAVEPOINT audit;')
             curs.execute('COMMIT;')
 
             # log the exception
-- 
2.43.0


From 12f6f41f6c0aeb3af3172e8ce16a02a37bbb117f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:45 +0000
Subject: [PATCH 02/19] fix: serialise concurrent audits of the same student
 and area

Two workers auditing the same student and area at the same time could both
leave their result active, store identical copies and reuse a revision
number, because neither saw the other's uncommitted row.
---
 dp/server/audit.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dp/server/audit.py b/dp/server/audit.py
index 27c13c1..c88d15b 100644
--- a/dp/server/audit.py
+++ b/dp/server/audit.py
@@ -43,6 +43,12 @@ def audit(
                 result = msg.result.to_dict()
                 result_str = json.dumps(result)
 
+                # two workers may be auditing the same student and area; let
+                # them change its results one after the other
+                curs.execute("""
+                    SELECT pg_advisory_xact_lock(hashtext(%(student_id)s), hashtext(%(area_code)s))
+                """, {"student_id": stnum, "area_code": area_code})
+
                 if not link_only:
                     # delete any old copies of this exact result
                     curs.execute("""
-- 
2.43.0


From a97881451cbc56ac2cec0b0ecc666ae945e23553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:45 +0000
Subject: [PATCH 03/19] fix: do not lose wakeups of the queue workers

LISTEN was only issued after the first drain, so a request queued in between
waited for the next one, and a request that returned to the queue because its
worker died was never picked up by the idle ones.
---
 dp/server/worker.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/dp/server/worker.py b/dp/server/worker.py
index 5bc02b3..50a52bd 100644
--- a/dp/server/worker.py
+++ b/dp/server/worker.py
@@ -29,21 +29,24 @@ def worker(*, area_root: pathlib.Path) -> None:
     logger.info('connected')
 
     with conn.cursor() as curs:
-        # process any already-existing items
-        process_queue(curs=curs, area_root=area_root)
-
-    with conn.cursor() as curs:
+        # start listening before looking at the queue, so that an item which
+        # is queued in between still wakes us up
         channel = 'dp_queue_update'
         curs.execute(f"LISTEN {channel};")
         logger.info(f"LISTEN {channel};")
 
         while True:
+            # process any already-existing items. this happens after every
+            # timeout, too, because an item goes back into the queue without
+            # any notification if the worker that had taken it dies.
+            process_queue(curs=curs, area_root=area_root)
+
             # this was taken from the psycopg2 documentation. I believe that
             # the output is the items from the input that have data, and that
             # the timeout is how long it will wait for there to be data... and
             # that if data shows up beforehand, it will return as soon as
             # there is data.
-            if select.select([conn], [], [], 5) == ([], [], []):
+            if not conn.notifies and select.select([conn], [], [], 5) == ([], [], []):
                 continue
 
             conn.poll()
@@ -51,8 +54,6 @@ def worker(*, area_root: pathlib.Path) -> None:
                 notify = conn.notifies.pop(0)
                 logger.info(f"NOTIFY: {notify.pid}, channel={notify.channel}, payload={notify.payload!r}")
 
-                process_queue(curs=curs, area_root=area_root)
-
 
 def process_queue(*, curs: psycopg2.extensions.cursor, area_root: pathlib.Path) -> None:
     # loop until the queue is empty
-- 
2.43.0


From 6b6a16220c9f18a8a81c8fdc24af1dae329e2c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:19 +0000
Subject: [PATCH 04/19] fix: queue each student's batch requests in a
 transaction of their own

The batch threads share one connection, so one thread's commit published
another student's half-inserted requests, and one student's failure threw
other students' requests away while still counting them.
---
 dp/server/batch.py | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/dp/server/batch.py b/dp/server/batch.py
index 193821b..16855bd 100644
--- a/dp/server/batch.py
+++ b/dp/server/batch.py
@@ -3,6 +3,7 @@ from typing import Optional, Set, Dict, Tuple, cast
 import argparse
 import json
 import os
+import threading
 
 import tqdm  # type: ignore
 import urllib3  # type: ignore
@@ -19,6 +20,9 @@ SINGLE_URL = os.getenv("DP_SINGLE_URL")
 
 Item = Tuple[str, str]
 
+# all of the threads share one connection, and thus one transaction
+conn_lock = threading.Lock()
+
 
 def get_student(student_id: str) -> Tuple[Dict, str]:
     r = http.request("GET", SINGLE_URL, fields={"stnum": student_id})
@@ -37,32 +41,32 @@ def fetch_and_queue(
 ) -> int:
     parsed_student, unparsed_json = get_student(student_id)
 
-    count = 0
+    items = []
 
-    with conn.cursor() as curs:
-        for stnum, catalog, code in expand_student(student=parsed_student):
-            # skip already-queued items in this loop to avoid postgres deadlocks
-            if (stnum, code) in queued_items:
-                continue
+    for stnum, catalog, code in expand_student(student=parsed_student):
+        # skip already-queued items in this loop to avoid postgres deadlocks
+        if (stnum, code) in queued_items:
+            continue
 
-            # skip audits that have been blocked
-            if (stnum, code) in blocked_items:
-                continue
+        # skip audits that have been blocked
+        if (stnum, code) in blocked_items:
+            continue
 
-            # allow filtering batches of audits
-            if area_code_filter is not None and area_code_filter != code:
-                continue
+        # allow filtering batches of audits
+        if area_code_filter is not None and area_code_filter != code:
+            continue
 
-            count += 1
+        items.append((stnum, catalog, code))
 
+    # queue all of the student's items, or none of them
+    with conn_lock, conn, conn.cursor() as curs:
+        for stnum, catalog, code in items:
             curs.execute("""
                 INSERT INTO queue (priority, student_id, area_catalog, area_code, input_data, run)
                 VALUES (1, %(stnum)s, %(catalog)s, %(code)s, cast(%(data)s as jsonb), %(run)s)
             """, {"stnum": stnum, "catalog": catalog, "code": code, "data": unparsed_json, "run": run})
 
-        conn.commit()
-
-    return count
+    return len(items)
 
 
 def get_student_ids() -> Set[str]:
-- 
2.43.0


From c2fd65b6ee232b5076497e0d47b67bbbfe907c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:19 +0000
Subject: [PATCH 05/19] fix: give the first batch of an empty database a run
 number

max(run) of an empty result table is NULL, so every request was queued with no
run at all.
---
 dp/server/batch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dp/server/batch.py b/dp/server/batch.py
index 16855bd..999c1c9 100644
--- a/dp/server/batch.py
+++ b/dp/server/batch.py
@@ -142,7 +142,7 @@ def main() -> None:
     run = args.run
     if args.run is None:
         with conn.cursor() as curs:
-            curs.execute("SELECT max(run) + 1 FROM result")
+            curs.execute("SELECT coalesce(max(run), 0) + 1 FROM result")
             row = curs.fetchone()
             run = row[0]
 
-- 
2.43.0


From cc459c5eb16621f807e68480fb342ac48f6fb79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:44 +0000
Subject: [PATCH 06/19] fix: delete only the stale course references during
 discovery

A stale reference was deleted by its course name alone, which is empty
for all references by course id, so one stale course id took all current
ones of that area with it.
---
 dp/bin/discover.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/dp/bin/discover.py b/dp/bin/discover.py
index a8563ea..92cfcbe 100644
--- a/dp/bin/discover.py
+++ b/dp/bin/discover.py
@@ -150,18 +150,12 @@ def insert_course_refs(conn: Any, courses: Set[CourseReference]) -> None:
 
             if ref not in courses:
                 print('deleting', ref)
-                if ref.course is not None:
-                    curs.execute('''
-                        DELETE FROM map_constant_area
-                        WHERE area_code = %(code)s
-                            AND course = %(course)s
-                    ''', {'code': ref.code, 'course': ref.course})
-                elif ref.crsid is not None:
-                    curs.execute('''
-                        DELETE FROM map_constant_area
-                        WHERE area_code = %(code)s
-                            AND crsid = %(crsid)s
-                    ''', {'code': ref.code, 'crsid': ref.crsid})
+                curs.execute('''
+                    DELETE FROM map_constant_area
+                    WHERE area_code = %(code)s
+                        AND course IS NOT DISTINCT FROM %(course)s
+                        AND crsid IS NOT DISTINCT FROM %(crsid)s
+                ''', {'code': ref.code, 'course': ref.course, 'crsid': ref.crsid})
 
         conn.commit()
 
-- 
2.43.0


From e7a816c23a550ff43759bdde1f017f4d513cd0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:18 +0000
Subject: [PATCH 07/19] fix: make the testbed's baseline --copy copy the
 server's results

---
 dp/testbed/batch.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/dp/testbed/batch.py b/dp/testbed/batch.py
index ad38117..7159df8 100644
--- a/dp/testbed/batch.py
+++ b/dp/testbed/batch.py
@@ -63,13 +63,14 @@ def run_batch(args: argparse.Namespace, *, baseline: bool) -> None:
     print(f'{len(records):,} audits under {pretty_min} each: ~{pretty_dur} with {args.workers:,} workers')
 
     if baseline and args.copy:
-        with sqlite_transaction(conn):
+        with sqlite_connect(args.db) as conn, sqlite_transaction(conn):
             conn.execute('''
-                INSERT INTO baseline (stnum, catalog, code, iterations, duration, gpa, ok, rank, max_rank, status, result)
-                SELECT stnum, catalog, code, iterations, duration, gpa, ok, rank, max_rank, status, result
+                INSERT INTO baseline (stnum, catalog, code, iterations, duration, gpa, ok, rank, max_rank, status, result, version)
+                SELECT stnum, catalog, code, iterations, duration, gpa, ok, rank, max_rank, status, result, version
                 FROM server_data
                 WHERE duration < :min
-            ''', {'min': minimum_duration.sec()})
+                    AND (:filter IS NULL OR code = :filter)
+            ''', {'min': minimum_duration.sec(), 'filter': args.filter})
         return
 
     area_codes = set((r.catalog, r.code) for r in records)
-- 
2.43.0


From 462b6b9e604b06c887e0f8984927e63f303d7aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:38 +0000
Subject: [PATCH 08/19] fix: report, not die of, a testbed audit that completes
 nothing

---
 dp/testbed/batch.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dp/testbed/batch.py b/dp/testbed/batch.py
index 7159df8..680a141 100644
--- a/dp/testbed/batch.py
+++ b/dp/testbed/batch.py
@@ -127,7 +127,10 @@ def run_batch(args: argparse.Namespace, *, baseline: bool) -> None:
                 print(f'{record.stnum} {record.catalog} {record.code} generated an exception: {exc}')
                 continue
 
-            assert db_args is not None, f"{record.stnum}, {record.catalog}, {record.code} returned None"
+            if db_args is None:
+                # the limits may leave an area without a single solution
+                print(f'{record.stnum} {record.catalog} {record.code} completed no audits')
+                continue
 
             if baseline:
                 conn.execute('''
-- 
2.43.0


From 4984f6dbbeea572d126100dbe686c7928f961bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:43 +0000
Subject: [PATCH 09/19] fix: deliver the complete solution when asked to print
 every result

---
 dp/audit.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dp/audit.py b/dp/audit.py
index 51b3f80..7f41321 100644
--- a/dp/audit.py
+++ b/dp/audit.py
@@ -76,6 +76,7 @@ def audit(*, area: AreaOfStudy, student: Student, args: Optional[Arguments] = No
     best_rank: Decimal = Decimal(0)
     best_i: Optional[int] = None
     printed_some_from_only: bool = False
+    found_complete: bool = False
 
     estimate = area.estimate(student=student, exceptions=exceptions or [])
     yield EstimateMsg(estimate=estimate)
@@ -113,6 +114,7 @@ def audit(*, area: AreaOfStudy, student: Student, args: Optional[Arguments] = No
         # if the current solution is OK, then store it, and end the loop
         if status in WAIVED_AND_DONE:
             best_sol, best_rank, best_i = result, result_rank, total_count
+            found_complete = True
             break
 
         if audit_count % args.progress_every == 0:
@@ -149,8 +151,9 @@ def audit(*, area: AreaOfStudy, student: Student, args: Optional[Arguments] = No
         yield NoAuditsCompletedMsg()
         return
 
-    if args.print_all or printed_some_from_only:
-        # avoid printing the "best" solution twice
+    if (args.print_all or printed_some_from_only) and not found_complete:
+        # avoid printing the "best" solution twice; a complete solution ended
+        # the loop before it was printed
         return
 
     elapsed_ms = ms_since(start)
-- 
2.43.0


From 8d23e9d2ca2c76ac5fd3ade4ce418b30297198d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:19 +0000
Subject: [PATCH 10/19] fix: decide limits by their totals, not by the order in
 which a set lists the courses

LimitSet.check stopped at the first course that met an already full limit, so with credit limits and
courses of different sizes the answer depended on the order of a frozenset, and with it on PYTHONHASHSEED.
---
 dp/limit.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/dp/limit.py b/dp/limit.py
index ec8f4d4..865822f 100644
--- a/dp/limit.py
+++ b/dp/limit.py
@@ -171,15 +171,16 @@ class LimitSet:
                 if not limit.where.apply(c):
                     continue
 
-                if clause_counters[limit] >= limit.at_most:
-                    # break out of the loop once we fill up any limit clause
-                    return False
-
                 if limit.at_most_what is AtMostWhat.Courses:
                     clause_counters[limit] += 1
                 elif limit.at_most_what is AtMostWhat.Credits:
                     clause_counters[limit] += c.credits
 
+                # compare the total, so that the order of the courses doesn't matter
+                if clause_counters[limit] > limit.at_most:
+                    # break out of the loop once we exceed any limit clause
+                    return False
+
         return True
 
     def limited_transcripts(
-- 
2.43.0


From 4a51f7915fa05395e426ca0c325bee0a0ce83532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:19 +0000
Subject: [PATCH 11/19] fix: solve independent requirements in the order of
 their paths

They were solved in the order of a set, and the claims they merge keep that order, so what a 'from claimed'
rule listed or picked depended on PYTHONHASHSEED.
---
 dp/rule/count.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dp/rule/count.py b/dp/rule/count.py
index b3315af..1af6c52 100644
--- a/dp/rule/count.py
+++ b/dp/rule/count.py
@@ -439,7 +439,7 @@ class CountRule(Rule, BaseCountRule):
         logger.debug('solving %s independent children at %s', len(independent_children), self.path)
 
         independent_rule__results: Dict[Rule, Optional[Result]] = {}
-        for child in independent_children:
+        for child in sorted(independent_children, key=sort_by_path):
             loop_start = time.perf_counter()
             logger.debug('solving %s independently', child.path)
 
-- 
2.43.0


From d979edf5d9ed8cc25b8b4254ec6d74f95a8da5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:20 +0000
Subject: [PATCH 12/19] fix: hand matched courses to a count rule's assertions
 in transcript order

The courses came in the order of a set, so which of several equal courses an assertion resolved to
depended on PYTHONHASHSEED.
---
 dp/solution/count.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dp/solution/count.py b/dp/solution/count.py
index f9bc444..f6b8f55 100644
--- a/dp/solution/count.py
+++ b/dp/solution/count.py
@@ -39,7 +39,7 @@ class CountSolution(Solution, BaseCountRule):
             )
 
         results = tuple(r.audit(ctx=ctx) if isinstance(r, Solution) else r for r in self.items)
-        matched_items = tuple(item for sol in results for item in sol.matched())
+        matched_items = tuple(item for sol in results for item in sorted(sol.matched(), key=lambda c: c.sort_order()))
         audit_results = tuple(a.audit_and_resolve(data=matched_items, ctx=ctx) for a in self.audit_clauses)
 
         return CountResult.from_solution(solution=self, items=results, audit_results=audit_results)
-- 
2.43.0


From 43b215d6999f329ebb75794170797a07e4df0588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:23 +0000
Subject: [PATCH 13/19] fix: testbed extract and invoke ignored the requested
 catalog

With one student and area cached under several catalogs, the input document of
an arbitrary one of them was written.
---
 dp/testbed/extract.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dp/testbed/extract.py b/dp/testbed/extract.py
index 9a05892..1159926 100644
--- a/dp/testbed/extract.py
+++ b/dp/testbed/extract.py
@@ -7,14 +7,15 @@ from .sqlite import sqlite_connect
 
 def do_extract(args: argparse.Namespace) -> None:
     stnum = args.stnum
+    catalog = args.catalog
     code = args.code
 
     with sqlite_connect(args.db, readonly=True) as conn:
         results = conn.execute('''
             SELECT d.input_data
             FROM server_data d
-            WHERE (d.stnum, d.code) = (:stnum, :code)
-        ''', {'code': code, 'stnum': stnum})
+            WHERE (d.stnum, d.catalog, d.code) = (:stnum, :catalog, :code)
+        ''', {'catalog': catalog, 'code': code, 'stnum': stnum})
 
         record = results.fetchone()
         if record is None:
-- 
2.43.0


From f6ff7ea0d3b59b60818650047d61d113bb892677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:23 +0000
Subject: [PATCH 14/19] fix: results with a bare proficiency or a negated
 predicate could not be shown

A proficiency without an alternative course has no course to look at, and
$not is a valid predicate.
---
 dp/stringify_v2.py | 2 +-
 dp/stringify_v3.py | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/dp/stringify_v2.py b/dp/stringify_v2.py
index 44ebab5..d1c9d19 100644
--- a/dp/stringify_v2.py
+++ b/dp/stringify_v2.py
@@ -228,7 +228,7 @@ def print_proficiency(
 
     yield f"{prefix}{status} Proficiency={rule['proficiency']}"
 
-    if rule['course']['status'] in WAIVED_AND_DONE_VALUES:
+    if rule['course'] and rule['course']['status'] in WAIVED_AND_DONE_VALUES:
         yield from print_course(rule['course'], transcript, indent + 4, show_paths, show_ranks)
 
 
diff --git a/dp/stringify_v3.py b/dp/stringify_v3.py
index ffcdf47..f0b41d6 100644
--- a/dp/stringify_v3.py
+++ b/dp/stringify_v3.py
@@ -224,7 +224,7 @@ def print_proficiency(
 
     yield f"{prefix}{status} Proficiency={rule['proficiency']}"
 
-    if rule['course']['status'] in WAIVED_AND_DONE_VALUES:
+    if rule['course'] and rule['course']['status'] in WAIVED_AND_DONE_VALUES:
         yield from print_course(rule['course'], transcript, indent + 4, show_paths, show_ranks)
 
 
@@ -405,6 +405,9 @@ def str_predicate(clause: Dict[str, Any], *, nested: bool = False, raw_only: boo
         else:
             return f'({text})'
 
+    elif clause["type"] == "pred--not":
+        return f'not {str_predicate(clause["predicate"], nested=True, raw_only=raw_only)}'
+
     elif clause["type"] == "pred--if":
         cond = str_expression(clause['condition'])
         then = str_predicate(clause['when_true'])
-- 
2.43.0


From 0f5946c864bf5934e8b3fab51759450f760e788c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:45 +0000
Subject: [PATCH 15/19] fix: show a zero duration as "0ms"

---
 dp/ms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dp/ms.py b/dp/ms.py
index 5504211..a8e4b1e 100644
--- a/dp/ms.py
+++ b/dp/ms.py
@@ -128,7 +128,7 @@ def pretty_ms(
         add(decimal.Decimal(sec_str), "second", "s", sec_str)
 
     if not ret:
-        return "0" + " milliseconds" if verbose else "ms"
+        return "0" + (" milliseconds" if verbose else "ms")
 
     if compact:
         return "~" + ret[0]
-- 
2.43.0


From 6b9472bdc8cf6ded035373b85aa338e08c67f747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:45 +0000
Subject: [PATCH 16/19] fix: dp.bin.print loads the transcript the way an audit
 does, including the current term

---
 dp/bin/print.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/dp/bin/print.py b/dp/bin/print.py
index 832b985..7c88a6d 100644
--- a/dp/bin/print.py
+++ b/dp/bin/print.py
@@ -7,7 +7,7 @@ import json
 import argparse
 
 from dp.stringify_v3 import print_result
-from dp import load_course
+from dp.data.student import Student
 
 
 def main() -> None:
@@ -22,10 +22,7 @@ def main() -> None:
     with open(args.student_file, 'r', encoding="utf-8") as infile:
         student = json.load(infile)
 
-    transcript = {
-        c.clbid: c
-        for c in (load_course(row, overrides=[], credits_overrides={}) for row in student["courses"])
-    }
+    transcript = {c.clbid: c for c in Student.load(student).courses_with_failed}
 
     summary = "\n".join(print_result(data, transcript=transcript))
     print(summary)
-- 
2.43.0


From 454c554286b5e3d7a85ab5d17068ddccd3191d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:22 +0000
Subject: [PATCH 17/19] fix: discovery finds the references in both branches of
 a conditional rule

---
 dp/bin/discover.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/dp/bin/discover.py b/dp/bin/discover.py
index 92cfcbe..e6e6fce 100644
--- a/dp/bin/discover.py
+++ b/dp/bin/discover.py
@@ -17,6 +17,7 @@ from dp import AreaOfStudy, Constants
 from dp.base import Rule
 from dp.predicate_clause import PredicateCompoundAnd, PredicateCompoundOr, PredicateNot, Predicate, ConditionalPredicate, SomePredicate
 from dp.assertion_clause import Assertion, ConditionalAssertion, AnyAssertion, DynamicConditionalAssertion
+from dp.rule.conditional import ConditionalRule
 from dp.rule.course import CourseRule
 from dp.rule.count import CountRule
 from dp.rule.proficiency import ProficiencyRule
@@ -112,6 +113,11 @@ def find_courses_in_rule(rule: Rule) -> Iterator[str]:
         for sub_rule in rule.items:
             yield from find_courses_in_rule(sub_rule)
 
+    elif isinstance(rule, ConditionalRule):
+        yield from find_courses_in_rule(rule.when_true)
+        if rule.when_false:
+            yield from find_courses_in_rule(rule.when_false)
+
     elif isinstance(rule, RequirementRule):
         if not rule.result:
             return
@@ -203,6 +209,11 @@ def find_buckets_in_rule(rule: Rule) -> Iterator[str]:
         for sub_rule in rule.items:
             yield from find_buckets_in_rule(sub_rule)
 
+    elif isinstance(rule, ConditionalRule):
+        yield from find_buckets_in_rule(rule.when_true)
+        if rule.when_false:
+            yield from find_buckets_in_rule(rule.when_false)
+
     elif isinstance(rule, RequirementRule):
         if not rule.result:
             return
-- 
2.43.0


From 61f950dd867c8e5587a1d15ae16f11372ffb429c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:48 +0000
Subject: [PATCH 18/19] fix: an area folder that cannot be read fails the
 lookup instead of yielding an older catalog's area

---
 dp/run.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dp/run.py b/dp/run.py
index e084a76..2a4b2bb 100644
--- a/dp/run.py
+++ b/dp/run.py
@@ -72,8 +72,9 @@ def find_area(root: pathlib.Path, area_catalog: int, area_code: str) -> Optional
 
     matching_files = [
         file
-        for file in root.glob(f'*-*/{area_code}.yaml')
-        if file.parent.name <= max_folder
+        # unlike glob(), this fails on a folder that it cannot read, instead of skipping over it
+        for file in (folder / f'{area_code}.yaml' for folder in root.iterdir() if '-' in folder.name)
+        if file.parent.name <= max_folder and file.exists()
     ]
 
     logger.debug('matching area files: %s', matching_files)
-- 
2.43.0


From 92e8effc2f82918991d51656b68f92abc5e11725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:20 +0000
Subject: [PATCH 19/19] fix: expand takes the student file and area code from
 its command line

---
 dp/bin/expand.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/dp/bin/expand.py b/dp/bin/expand.py
index 3369bca..cab9ab7 100644
--- a/dp/bin/expand.py
+++ b/dp/bin/expand.py
@@ -21,10 +21,8 @@ def cli() -> None:
         student_files = [line.strip() for line in sys.stdin.readlines() if line.strip()]
         area_code = args.area_code
     else:
-        all_files = [args.student, *args.area_codes]
-        student_files = [f for f in all_files if f.endswith('.json')]
-        area_codes = [f for f in all_files if not f.endswith('.json')]
-        area_code = area_codes[0]
+        student_files = [args.student]
+        area_code = args.area_code
 
     root = os.getenv('AREA_ROOT')
     assert root, ValueError('the environment variable AREA_ROOT must be set to a path')
-- 
2.43.0

