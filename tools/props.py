#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the single source for both)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S, E, L, P, R, SV = "src/sync.rs", "src/execgraph.rs", "src/logfile2.rs", "src/pylib.rs", "src/localrunner.rs", "src/server.rs"
props = []
def prop(id, title, statement, over, text, why, files, mech, obs, state=None, level="exploration", technique=None, note=None, hook=None):
    props.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, obs=obs, state=state or [], level=level, technique=technique, note=note, hook=hook))
DFS = "stateless model checking of the real server: depth-first enumeration of schedules, task outcomes and client moves under a controlled scheduler with virtual time"
WHY = "A test samples one schedule of a handful of graphs; "

prop("C01", "Dependency order and containment of failures",
 "A task is started only after every one of its dependencies has succeeded, either earlier in the same session or, according to the log, in an earlier session. Nothing downstream of a task that failed, was killed or was lost is ever started in that session, no matter how many times execution is requested and through which runner the tasks go. The log shows the same order: a task's start is recorded after the success of all its dependencies.",
 ["schedules", "inputs", "histories"],
 "every DAG of up to four tasks, every outcome, local and remote runners, every order of completions, with up to two preemptions, several execute() calls and sessions",
 WHY + "the order has to hold for every order in which completions, failures and hand-outs interleave.",
 [S, E], [("readiness bookkeeping", S+" _finished_bookkeeping_2, add_to_ready_queue"), ("pruning of the graph", E+" get_subgraph")],
 ["process starts", "/start and /end replies", "log lines"])
prop("C02", "A task is started at most once",
 "Within one call to execute, each task is started at most once, whether it is eligible for one runner or for many, local or remote. A task that ran to its end, well or not, is not started again by a later call in the same session.",
 ["schedules", "inputs"], "every interleaving of runners competing for tasks queued under several runner types, with preemption inside the queue operations",
 WHY + "double execution needs two runners to pop the same task from two queues at the same time.",
 [S], [("claim flag shared by all the queues of a task", S+" ReadyTrackerClient::recv")], ["process starts", "/start replies"])
prop("C03", "Every runnable task runs and the call returns",
 "If nothing stops the workflow early, execute returns after having run exactly the tasks that are needed, not already done, eligible for some runner, and not downstream of a failure. It neither hangs nor panics, whatever the tasks, workers and clients do, including workers that vanish, repeat requests or send them in an unexpected order. Everything that was started has its end on record when the call returns.",
 ["schedules", "inputs", "fault_sequences"], "every DAG of up to four tasks with every outcome; every worker misbehaviour from the repertoire of duplicate, misdirected, missing and late requests",
 WHY + "a lost wake-up, a miscounted task or a panic in one handler shows as a hang only under particular interleavings.",
 [S, E, SV, R], [("count of tasks ready or in flight", S+" background_serve"), ("worker protocol", SV), ("local runner loop", R)], ["return of execute", "log", "process starts"])
prop("C04", "The outcome reported by execute is the outcome that happened",
 "The number of failures that execute returns is the number of tasks that failed, were killed, cancelled or lost during the call. The list of keys it returns contains each task that ended during the call exactly once and nothing else, in the order in which the ends were recorded.",
 ["schedules", "inputs", "fault_sequences"], "all runs of C01 and C03 plus failure limits, soft and hard shutdown at every point",
 WHY + "the shutdown path has its own accounting, which only unusual timing reaches.",
 [S, E], [("finished order and failure count", S+" _finished_bookkeeping_1, drain"), ("result", E+" execute")], ["return value of execute", "log"])
prop("C05", "The failure limit stops the workflow in an orderly way",
 "Once as many short-lived failures as the limit allows have happened, no further task is started and the call returns. Tasks that have been running for longer than the cutoff are left to finish and their real result is recorded; younger ones are cancelled and recorded as failed. While fewer such failures have happened, failures stop nothing but what depends on them.",
 ["schedules", "inputs"], "limits 1 to 3, failures before and after the cutoff, local and remote tasks of every age around the cutoff, every order of completions",
 WHY + "the limit races with completions, hand-outs and cancellations.",
 [S, "src/fancy_cancellation_token.rs", R, SV], [("limit", S+" background_serve"), ("soft cancellation", "src/fancy_cancellation_token.rs"), ("reaper of young connections", SV+" reap_pings_forever")], ["process starts and kills", "log", "return of execute"])
prop("C06", "A soft shutdown starts nothing new and lets running tasks finish",
 "After a soft shutdown has been acknowledged, no task is started and none is reported as ready. Tasks that were already running are left to finish with their real result recorded, and execute returns promptly after the last of them, or at once if there was none.",
 ["schedules", "inputs"], "a soft shutdown at every point of workflows with local and remote runners, every interleaving up to the preemption bound",
 WHY + "the request can arrive at any point between a task becoming ready, being handed out and being reported as started.",
 [S, "src/admin_server.rs"], [("trigger", S+" soft_shutdown_trigger"), ("closing the queues", S+" background_serve, recv")], ["process starts and kills", "/status", "log", "return of execute"])
prop("C07", "A hard stop is prompt, leaves no survivors, and is on record",
 "After an interrupt signal, the end of the provisioner or a hard shutdown, execute returns within two seconds, except for long polls that are still open. No local task is left running, the provisioner is told to stop, nothing further is started, and everything that was running is recorded as ended, as failed unless it had ended by itself.",
 ["schedules", "inputs"], "each kind of stop at every point of workflows with local and remote runners and several clients, also two stops at once or a stop during another shutdown",
 WHY + "a stop can hit any point between handing out a task and recording its end.",
 [S, E, R, "src/admin_server.rs", "src/fancy_cancellation_token.rs"], [("hard cancellation", E+" execute"), ("drain", S+" drain")], ["processes", "log", "return of execute"])
prop("C08", "The log is well formed and faithful",
 "Every call appends complete lines, and for each task at most one ready, one started and one finished line in that order, with the right key, command, storage root, process id, host and job id, in order of time. A finished line carries the status and the values that the task really produced, and nothing is recorded that did not happen.",
 ["schedules", "inputs", "fault_sequences"], "all runs of C01 to C07 and of the worker protocol, under every interleaving within the bounds",
 WHY + "entries come from several concurrent sources and shutdown has its own writer.",
 [L, S], [("writing entries", L+" LogFile::write"), ("events", S+" background_serve, drain")], ["bytes of the log file"])
prop("C09", "Resuming never repeats finished work and never forgets it",
 "A session opened on an existing log runs again only what did not succeed; a task with an empty key always runs; tasks that failed before run again exactly if failures are to be rerun, and otherwise they block what depends on them. Whatever is reused from an earlier session is referred to in the log by the new session, exactly once, so that the record of the latest session is complete. The log of any earlier session, however it ended, can be opened again.",
 ["histories", "inputs", "schedules"], "two and three sessions on every DAG of three tasks, every outcome, targets, interrupted sessions, with and without rerunning failures",
 WHY + "the space is a product of graphs, outcomes and points of interruption over several sessions.",
 [E, L], [("pruning by the log", E+" get_subgraph"), ("loading the log", L+" load_runcounts")], ["process starts in later sessions", "log"])
prop("C10", "No two starts of a task share a run number",
 "Each start of a task, across all sessions and calls on one log, has a run number and with it a run directory that no earlier start of that task on record had. The number reported before adding a task is the one recorded when it becomes ready and the one given to its completion callback. A task that never started keeps its number.",
 ["histories", "schedules"], "histories of up to three sessions with failures, interruptions, lost workers and repeated calls",
 WHY + "reuse of a number shows only after a session ended at a particular point.",
 [P, L], [("next run number", P+" logfile_runcount"), ("run state per key", L)], ["logfile_runcount", "log", "callbacks"])
prop("C11", "A target runs itself and what it depends on, nothing else",
 "execute with a target runs that task and all its transitive dependencies, and no other task; without a target it runs everything. Several calls with different targets in one session together run each task once.",
 ["inputs", "histories"], "every target on every DAG of up to four tasks (five in the thorough tier), and every pair of targets on three tasks",
 WHY + "closure errors show only on particular graph shapes.",
 [E, "src/graphtheory.rs"], [("closure", "src/graphtheory.rs transitive_closure_dag"), ("subgraph", E+" get_subgraph")], ["process starts"])
prop("C12", "Runners get only what they are eligible for, and idle ones get work",
 "A task is given only to a runner of a type in the task's affinity: console tasks to the console runner, others to the local slots or to workers of a matching type. Never do more local tasks run at once than there are slots, plus one console task. Whenever a task is ready and an eligible runner is idle and no rate limit applies, the task is started without delay.",
 ["schedules", "inputs"], "affinity masks over local, console and worker types, one to three slots, up to three workers, every order of completions with preemptions",
 WHY + "starvation and over-commitment depend on the order in which runners wait on several queues.",
 [S, R, SV], [("one queue per runner type", S+" add_to_ready_queue, recv"), ("slots", E+" execute")], ["process starts", "/start replies"])
prop("C13", "Among ready tasks, the deepest starts first",
 "When a runner takes a task, no other task that was ready for the same runner had a longer chain of dependencies behind it. Depth is the longest path from a task without dependencies, and it is computed on the whole graph.",
 ["inputs", "schedules"], "every DAG of up to five tasks with one slot and the family of layered graphs, every order of completions",
 WHY + "an error in the computation shows only on graphs where paths of different length meet.",
 ["src/graphtheory.rs", S], [("depth", "src/graphtheory.rs tlevel_dag"), ("priority queue", S+" add_to_ready_queue")], ["order of starts"])
prop("C14", "Status reports match reality, and long polls neither miss nor invent news",
 "The status service reports, for each kind of task, exactly how many are ready and how many are in flight, and the totals, at a moment between request and reply. A poll with an old tag returns as soon as there is news but not before the requested minimum time; one with the current tag waits until new tasks become ready or until its timeout, whichever is first. The tag only grows, and grows whenever tasks become ready.",
 ["schedules", "inputs"], "one or two polling clients with all combinations of tag, minimum and timeout against workflows in every order of completions",
 WHY + "counts change concurrently in several places and a lost wake-up shows only as a late reply.",
 [S, SV, "src/async_flag.rs"], [("counts", S+" queuestate"), ("long poll", S+" get_queuestate"), ("tag", "src/async_flag.rs AsyncCounter")], ["/status replies and their time"])
prop("C15", "A worker is given up for dead if and only if it falls silent",
 "A worker that keeps sending pings at the interval it was told is never given up. One that is silent from its last accepted contact is given up no earlier than 30 seconds and no later than 40 seconds after it, its task is recorded as failed, its message is shown, and later requests for that task are rejected or have no effect.",
 ["schedules", "fault_sequences"], "workers that stop, pause, resume and end at every multiple of a grid around the limits, one to three workers, every interleaving of ping, end and reaper",
 WHY + "the limits are half a minute and the races between a late ping or end and the reaper are narrow.",
 [SV, "src/time/timewheel.rs"], [("timer wheel", "src/time/timewheel.rs"), ("pings", SV+" ping_handler, reap_pings_forever")], ["log", "replies to the worker", "time of both"])
prop("C16", "The worker protocol is authenticated and workers cannot disturb each other",
 "Requests without the session's token are refused and change nothing. A request for an unknown, finished or foreign transaction is refused and changes nothing, repeating a request does no harm, and each result is attributed to the task the worker was given. Malformed requests are refused without disturbing anything.",
 ["inputs", "schedules", "fault_sequences"], "every request kind with wrong token, wrong or repeated transaction, wrong job, malformed or missing parts, at every point of a running workflow",
 WHY + "tests use well-behaved workers.",
 [SV, "src/http_extensions/axum.rs"], [("token check", SV), ("transactions", SV+" connections")], ["replies", "log", "return of execute"])
prop("C17", "A job released for cancellation is idle and never gets another task",
 "When the provisioner asks which jobs may be cancelled, a job that is working on a task is not released. A job that is released is never given a task afterwards, even if it was already waiting for one or is just ending one, and jobs that never asked for work are always released.",
 ["schedules"], "cancellation requests at every point of workers that wait for, work on, and end tasks, with preemption between the check and the hand-out",
 WHY + "the point of the property is a race between a hand-out and a cancellation.",
 [SV], [("set of cancelled jobs", SV+" mark_slurm_job_cancelation, start_request_impl")], ["replies to provisioner and workers"])
prop("C18", "The rate limit bounds starts and does not stop them",
 "With a limit of r starts per second, any interval of d seconds sees at most about r*d+r starts, up to one extra per runner that was already waiting. The limit does not keep ready tasks from running in the time it implies, and setting it during the run takes effect at once, including no limit at all.",
 ["inputs", "schedules"], "limits 1 to 10, changed at several moments, several slots and workers",
 WHY + "a limit has to hold over every window, not on average.",
 ["src/time/gcra.rs", S], [("limiter", "src/time/gcra.rs"), ("recv", S)], ["times of starts"])
prop("C19", "Callbacks run exactly once, in order, with the truth",
 "The callback before a task is called exactly once for each task that starts, before it starts. The callback after it is called exactly once for each start, after the end and before anything that depends on it starts, with the real success, run number and number of tasks. Neither is called for a task that does not start.",
 ["schedules", "fault_sequences"], "graphs, failure limits, shutdowns and the worker protocol with callbacks on every task",
 WHY + "shutdown and lost workers take other paths to the end of a task.",
 [E, S, R, SV], [("callbacks", E+" call_preamble, call_postamble")], ["calls into the capsules"])
prop("C20", "Input and output of tasks are faithful",
 "A task gets exactly its arguments and, on the requested descriptor, exactly its input followed by end of file, and nothing breaks if it does not read it. Its standard output and error are shown once, whole, whatever their size and whether they end in a newline. The key-value lines it writes are recorded unchanged, and progress shows each success with its command.",
 ["inputs", "schedules"], "sizes up to several pipe buffers on each stream, readers that read all, some or nothing, bytes that are not UTF-8, all combinations up to three tasks",
 WHY + "deadlocks between full pipes need particular sizes and orders.",
 [R, "src/logging.rs", S], [("pipes", R+" wait_with_output"), ("values", R+" fd3_values"), ("display", S+" _finished_bookkeeping_1")], ["child's descriptors", "console log", "log"])
prop("C21", "Administrative changes apply at once and to everybody",
 "After a change of the rate limit or of the provisioner's information has been acknowledged, every later status report, by either service, shows it until it is changed again. What was set when the workflow started is reported until then.",
 ["schedules"], "two administrators and two observers with all orders of their requests",
 WHY + "visibility is about every order of concurrent requests.",
 ["src/admin_server.rs", SV], [("handlers", "src/admin_server.rs")], ["/status of both services"])
EXTRA = os.path.join(V, "tools", "props_more.py")
if os.path.exists(EXTRA):
    exec(open(EXTRA).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in props:
        assert len(p["title"]) <= 80, p["title"]
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p["obs"], "hook_needed": p["hook"]}
        if p["state"]:
            a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
NOTE = "Exhaustive within the bounds of each listed scenario unless the evidence says capped; the code under test is the real crate, compiled against an instrumented tokio and standard library, with processes, pipes, clock, HTTP transport and random numbers simulated."
man = {"version": 1, "setup_cmd": "engine/build.sh", "checks": [
    {"property": p["id"], "quick_cmd": f"./check.sh {p['id']} quick", "thorough_cmd": f"./check.sh {p['id']} thorough",
     "evidence_file": f"evidence/{p['id']}.json", "technique": p["technique"] or DFS, "level": p["level"], "level_note": p["note"] or NOTE} for p in props],
    "not_applicable": [], "notes": "One engine (engine/) decides every property; see DESIGN.md."}
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
