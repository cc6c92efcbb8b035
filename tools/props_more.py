HIST = "stateless model checking of the real code: exhaustive enumeration of operation sequences, each executed on the real objects and compared step by step with a reference model"
prop("C22", "A log torn by a crash can always be resumed, losing only its torn tail",
 "Wherever the log is cut by a crash (at any byte, even inside a line or a character, with or without a stale lock file left behind), opening it again succeeds, every line that is complete counts, and nothing else does. Complete lines are never altered or dropped by the sessions that follow, what they add never merges with the torn line, and work whose finish was not completely written is run again.",
 ["crash_points", "histories", "inputs"], "a first session on graphs of one to three tasks with every outcome, cut at every byte of the log (or every line, or with zero-filled tails), followed by one or two resuming sessions, with keys and commands that contain multi-byte characters",
 "A test writes a whole log; whether a prefix can be resumed depends on which byte it ends at.",
 [L, E], [("opening for append", L+" LogFile::new"), ("loading", L+" load_runcounts"), ("pruning by the log", E+" get_subgraph")], ["opening the log", "bytes of the log before and after", "process starts"],
 level="fault_enumeration", technique="exhaustive crash-point enumeration: the log of every explored execution of the real server is cut at every position and resumed by the real code")
prop("C23", "Only one writer at a time has a log open, and none loses another's lines",
 "At most one live LogFile holds a given path, whether it was opened by this process or another; every other attempt fails without touching the log. When a holder has been dropped, the next open succeeds and reads all that the holder wrote. A failed attempt, or a stale lock file, never prevents a later one.",
 ["schedules", "histories"], "two and three openers that open, write, flush and drop, interleaved at every file-system call, with and without a stale lock file",
 "A test opens twice in a fixed order; the window lies between two system calls.",
 [L], [("lock file", L+" LogFile::new"), ("release", L+" Drop for LogFile")], ["result of LogFile::new", "bytes of the log"],
 technique="stateless model checking: all interleavings, at the granularity of file-system calls, of real threads opening, writing and dropping real log files")
prop("C24", "A log reader shows each task's current record, and a copy of it says the same",
 "Reading a log, the current view consists of exactly the lines that describe the latest state of each task of the latest session, in order, and the outdated view of exactly the other lines, in order, save those about tasks that the current one also speaks of and references back. Nothing is in both. What the current view yields, written to a new file, is a log from which the same tasks resume in the same way. Reading a log while it is being written yields its complete lines and never fails.",
 ["histories", "inputs"], "every well-formed history of log entries of up to 9 to 12 operations on one and two keys over several sessions, built through the real writer",
 "A test reads one or two fixed logs.",
 [L, P], [("snapshot", L+" LogFileSnapshotReader"), ("copy", P+" write_logfile")], ["views of the reader", "bytes of the copy", "states after reopening"], technique=HIST)
prop("C26", "Building a graph accepts exactly what is well formed, and says what it holds",
 "Adding a task succeeds exactly if its dependencies exist and its key, affinity and command are acceptable, and returns its index; otherwise it raises an error and the graph stays as it was. The number of tasks, the keys and the tasks read back are exactly those added, in order, also between and after calls to execute.",
 ["histories", "inputs"], "every sequence of up to three (rich repertoire) or four (plain) operations, each one of adding tasks with all combinations of dependencies, keys, affinities and commands, executing and reading back",
 "A test builds a few well-formed graphs.",
 [P, E], [("add_task", P+" add_task"), ("key table", E+" add_task"), ("reading back", P+" get_task, task_keys")], ["results of the calls"], technique=HIST)
prop("C25", "What has happened is on disk within a quarter of a second",
 "While execute runs, each entry of the log, and the display of each task's end, has reached the file on disk no later than 250 milliseconds after the event, however long nothing else happens, and also while a soft shutdown or the failure limit waits for the last tasks. When execute returns, nothing is missing from either file. If the process is killed, no more than that is lost.",
 ["schedules", "inputs"], "graphs of two and three tasks with long pauses between events, local and remote runners, failure limits, soft shutdowns and lost workers; the sizes of both files are sampled whenever virtual time is about to move",
 "Tests read the files after the call has returned.",
 [S, L, "src/logging.rs"], [("flush ticker", S+" background_serve"), ("buffered writers", L+" LogFile, src/logging.rs")], ["sizes of the log and of the console log over time"])
W = "src/bin/execgraph-remote.rs"
prop("C27", "Controller and workers together tell the truth, even over a bad network",
 "With real workers and the real controller talking over a network that loses, delays or cuts off requests at any point: no task is run by two workers, none before what it depends on has really succeeded, and none is on record as a success unless its process really ended well. As long as requests are merely slow, the record has the real process, job, status, values and output. When a worker is cut off or dies, its task is recorded as failed, the call returns with the right count, and the worker stops what is left of the task within seconds of it being given up.",
 ["schedules", "fault_sequences", "inputs"], "graphs of one to three tasks with all outcomes, quick and long tasks, one worker that suffers every placement of a fault (two in the thorough tier) among all its requests, or a signal, a crash or the end of its job, and another one that is healthy; interrupts of the controller",
 "The tests use one healthy worker; agreement between two programs after a lost message depends on which message it was.",
 [W, SV, S, R], [("worker's life", W+" run_command"), ("worker protocol", SV), ("giving up a worker", SV+" reap_pings_forever")], ["processes of the workers", "requests and replies", "log", "return of execute"],
 technique="stateless model checking of two real programs, controller and worker, in one controlled scheduler with virtual time: depth-first enumeration of network faults, crashes, signals and completions")
prop("C28", "A worker runs what it is given faithfully and leaves nothing behind",
 "The worker program runs each task it is given once, with its arguments, input and descriptors, and without the token by which it authenticates itself; announces its real process; keeps giving signs of life as long as it has the task; and reports its real status, output and values, once, as soon as it ends. It asks for more unless it was told to stop by SIGUSR1, its time for accepting tasks is over or its job is being cancelled, and never before the current task is over. At its deadline it asks the task once to end, and says why it ended. When the job is cancelled, the controller is out of reach for three ping intervals or turns it down, it stops its task. It always comes to an end, and no process that it or its tasks started outlives it; they get five seconds between SIGTERM and SIGKILL.",
 ["schedules", "fault_sequences", "inputs"], "the real worker against a scripted controller, with every position of up to two network faults of six kinds among its requests, SIGUSR1 and slurm messages at every stage, deadlines, tasks that end quickly, late, badly, ignore SIGTERM, cannot be started, or leave processes behind",
 "The tests run a worker against a healthy controller only; each of these promises matters when something else fails at a particular point.",
 [W, R, "src/http_extensions/reqwest.rs"], [("life of a task", W+" run_command"), ("signs of life", W+" run_command (ping task)"), ("cleaning up", W+" cleanup_child_processes_carefully"), ("slurm messages", W+" async_watcher")], ["requests of the worker", "signals it sends", "processes it starts and leaves"],
 technique="stateless model checking of the real worker program: depth-first enumeration of network faults, signals and completions, under a controlled scheduler with virtual time, against a scripted controller")
prop("C29", "A workflow keeps its identity, and its results are found where they were put",
 "The workflow's key is made by newkeyfn, which is called exactly once in the life of a log (or is the default), and every later session has the same key. The storage roots are those given, with $KEY replaced and relative ones resolved against the real directory of the log, however its path was spelled. For every task the next run's number and, if it has succeeded, the directory of its results (root, key and run number) are told as the history of all sessions implies; a storage root that does not exist is refused with an error, in the call that names it and in sessions that no longer have it. Opening a log that is in use, was written by another version or another workflow, or is damaged other than at its torn end fails with an error, changes no byte of it and prevents nothing later.",
 ["histories", "inputs"], "every sequence of up to five (thorough: six) operations: opening with four lists of roots, four kinds of newkeyfn (none, good, raising, not a string) and three spellings of the path; running tasks that succeed, fail, first fail or have no key, in every root and one too many; opening twice; closing; entries of a killed session; twelve kinds of logs that cannot be continued",
 "Whether a number, a key or a directory is right depends on the whole history of sessions before.",
 [P, L], [("opening", P+" new"), ("runs and directories", P+" logfile_runcount, add_task"), ("roots", L+" storage_root, storage_roots"), ("refusals", L+" load_runcounts")], ["results of the calls", "calls of newkeyfn", "bytes of the log"], technique=HIST)
prop("C30", "A full disk ends a workflow with an error, and does not falsify or strand it",
 "When a write to the log, to the console or to its copy fails, once or from then on, execute still returns, without a panic, and raises an error if anything could not be written to the log; no process it started is left. What is on record is true: no task is recorded as a success whose process did not end well. Once there is space again, a new session opens the log, runs no task that is on record as a success, and runs all others.",
 ["fault_sequences", "schedules"], "graphs of one to three tasks on local, console and remote runners, with and without failures and a failure limit, a failed write (one, or all from there on, the first of them cut in the middle of a line) at every position of the writes to each of the three files, with preemption in graphs of two; followed by a second session",
 "Tests do not run out of space, and where the write fails matters.",
 [E, S, L, "src/logging.rs"], [("errors of the tracker", S+" background_serve"), ("end of the runners", E+" execute"), ("writes", L+" write, flush"), ("console", "src/logging.rs write, flush")], ["return of execute", "processes", "bytes of the log", "what the next session runs"],
 level="fault_enumeration", technique="exhaustive fault enumeration on the real code: every write(2) of an execution may be the one that fails, under the controlled scheduler, followed by a real second session")
