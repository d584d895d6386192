ASAN = ["-fsanitize=address", "-fno-omit-frame-pointer", "-O1"]
OPT = ["-O2"]
def seqbuild(src, flags=ASAN, srcflags=[]):
    return {"src": [("engine/vfs.cpp", []), ("engine/h.cpp", []), ("engine/vclock.cpp", []), (src, srcflags)], "flags": flags}
FS = "file system model: calls are atomic per the interposed libc call; single machine, POSIX semantics"
def stage(src, name=None, flags=ASAN, **k):
    d = {"name": name or src.split("/")[-1].split(".")[0], "build": seqbuild(src, flags)}
    d.update(k); return d
SEQ = "explicit enumeration of all operation histories in bounds on the real code (in-memory file system), "
TRUST = "Exhaustive within the stated bounds only; trusts the in-memory file system (POSIX semantics), the harness oracle and the compiler. "
CR = "exhaustive fault and crash point enumeration on the real code (in-memory file system), "
def sched(name, src):
    return {"name": name, "build": {"src": [("engine/vfs.cpp", []), ("engine/h.cpp", []), ("engine/sched.cpp", []), (src, ["instrumented"])], "flags": OPT, "localize": True}}
SCH = "stateless model checking of the real code: every schedule within a preemption bound (threads run as fibers under a controlled scheduler, virtual time, in-memory file system), "
SN = "Exhaustive for the listed programs within the bound on preemptions, early timeouts and spurious wakeups. Scheduling points are synchronization calls, atomics and file operations; races between them are found by happens-before analysis. Trusts the scheduler, gcc's instrumentation and sequentially consistent memory. "
SA = [FS, "sequentially consistent memory (the race check reports what would make this untrue)", "stack memory is not checked for races"]
CHECKS = {
 "C02": {"stages": [sched("conc", "harness/conc.cpp")], "level": "model_checking", "assumptions": SA,
  "technique": SCH + "each execution's call history checked for linearizability against an insert-only map", "note": SN},
 "C03": {"stages": [sched("conc", "harness/conc.cpp"), sched("ctx", "harness/ctx.cpp")], "level": "model_checking", "assumptions": SA,
  "technique": SCH + "vector-clock happens-before checking of all memory accesses, frees and file regions", "note": SN},
 "C15": {"stages": [sched("ctx", "harness/ctx.cpp")], "level": "model_checking", "assumptions": SA,
  "technique": SCH + "with monitors on which thread flushes which store, deadlock and progress checks, and the final contents", "note": SN},
 "C04": {"stages": [sched("conc", "harness/conc.cpp"), sched("ctx", "harness/ctx.cpp")], "level": "model_checking", "assumptions": SA,
  "technique": SCH + "deadlock and no-progress detection, and suspension of the committing thread in each file operation", "note": SN},
 "C01": {"stages": [stage("harness/seq.cpp")], "level": "model_checking", "assumptions": [FS],
  "technique": SEQ + "compared with a reference map", "note": TRUST + "Every operation sequence up to the depth bound from several prefixes, every flush/reopen placement, every hash class assignment, all dimension values in bounds."},
 "C09": {"stages": [stage("harness/seq.cpp")], "level": "model_checking", "assumptions": [FS],
  "technique": SEQ + "decoded by an independent reader; append-only monitor on every write", "note": TRUST + "All hash input lengths up to the bound at all alignments; independent encoder databases read by the library."},
 "C12": {"stages": [stage("harness/seq.cpp")], "level": "model_checking", "assumptions": [FS],
  "technique": SEQ + "verify run with every distinct chunking, statistics compared with an independent reader", "note": TRUST},
 "C14": {"stages": [stage("harness/seq.cpp", "seqA", args=["--part=damage"]), stage("harness/seq.cpp", "seqO", flags=OPT, args=["--part=hist"])], "level": "model_checking", "assumptions": [FS],
  "technique": SEQ + "visit compared with an independent reader at every stop position, truncation and failing call", "note": TRUST},
 "C05": {"stages": [stage("harness/crash.cpp", "crashO", flags=OPT)], "level": "model_checking", "assumptions": [FS],
  "technique": CR + "the process is killed at every write (also inside it) of every history, on disk images checked by reopening", "note": TRUST + "Histories, kill points and torn prefixes as listed in the evidence."},
 "C06": {"stages": [stage("harness/crash.cpp", "crashO", flags=OPT)], "level": "model_checking", "assumptions": [FS],
  "technique": CR + "power loss at every step of every history, every allowed subset of unsynced effects in bounds, also during recovery and the use after it", "note": TRUST + "The bounded set of torn subsets is described in DESIGN.md; namespace operations are taken to persist in order."},
 "C07": {"stages": [stage("harness/crash.cpp", "crashO", flags=OPT)], "level": "model_checking", "assumptions": [FS],
  "technique": CR + "graph of all disk images reachable by interrupting recovery again and again", "note": TRUST + "Images are deduplicated by content; interruption points are every operation of recover."},
 "C08": {"stages": [stage("harness/fault.cpp", "faultO", flags=OPT), stage("harness/fault.cpp", "faultA", args=["--small"]), sched("conc", "harness/conc.cpp")], "level": "model_checking", "assumptions": [FS],
  "technique": CR + "every file operation of every history made to fail (error, short transfer), then reopened and compared; the same for a committing thread under every schedule of concurrent callers within the preemption bound", "note": TRUST + "Single faults with both policies for the calls after it; with concurrent callers every schedule with one preemption (two in thorough)."},
 "C18": {"stages": [stage("harness/fault.cpp", "faultO", flags=OPT)], "level": "model_checking", "assumptions": [FS],
  "technique": CR + "every single position of short reads/writes and EINTR in every history", "note": TRUST + ""},
 "C10": {"stages": [stage("harness/rekey.cpp", "rekeyO", flags=OPT), stage("harness/rekey.cpp", "rekeyA", args=["--small"])], "level": "model_checking", "assumptions": [FS],
  "technique": SEQ + "rekey of every enumerated database with every parameter combination, compared through an independent reader", "note": TRUST + ""},
 "C11": {"stages": [stage("harness/rekey.cpp", "rekeyO", flags=OPT)], "level": "model_checking", "assumptions": [FS],
  "technique": CR + "rekey and its recovery interrupted at every file operation, including power loss images, then recovered", "note": TRUST + ""},
 "C13": {"stages": [stage("harness/corrupt.cpp", "corruptA")], "level": "model_checking", "assumptions": [FS],
  "technique": "exhaustive enumeration of all damages in bounds (every field value, byte, length, structural edit and pairs of them) to generated databases, every reader of the real code run on each (in-memory file system, address sanitizer), results judged by an independent reader", "note": TRUST},
 "C16": {"stages": [stage("harness/meta.cpp", "metaA")], "level": "model_checking", "assumptions": [FS],
  "technique": "exhaustive enumeration of parameters, existing files and failing calls of create on the real code (in-memory file system), each result judged by an independent reader and by use of the database", "note": TRUST + "Boundary-complete cross product of key sizes, block sizes and load factors; every failing call with every listed errno."},
 "C17": {"stages": [stage("harness/meta.cpp", "metaA")], "level": "model_checking", "assumptions": [FS],
  "technique": "exhaustive enumeration of file pairings, header mutations and truncations on the real code (in-memory file system), each judged by an independent rule and by comparing the files before and after", "note": TRUST + "Databases that differ in exactly one identity field, every log kind."},
 "C19": {"stages": [stage("harness/big.cpp", "bigO", flags=OPT)], "level": "model_checking", "assumptions": [FS],
  "technique": "explicit enumeration of histories at every size, offset and bucket number around the powers of two where arithmetic could wrap, on the real code with sparse in-memory files, judged by an independent sparse reader", "note": TRUST + "Histories of a fixed shape from each start size; verify, visit and rekey at a few sizes over 4 GiB."},
 "C24": {"stages": [dict(stage("harness/tool.cpp", "toolA"), build=dict(seqbuild("harness/tool.cpp", srcflags=["-std=gnu++14"]), libs=["-lboost_program_options", "-lboost_filesystem"]))], "level": "model_checking", "assumptions": [FS],
  "technique": "exhaustive enumeration of commands, argument lists, file states, kill points and failing calls of the real command line tool (in-process, in-memory file system), compared with the library call and an independent reader", "note": TRUST},
 "C25": {"stages": [stage("harness/exc.cpp", "excO", flags=OPT), stage("harness/exc.cpp", "excA", args=["--small"])], "level": "model_checking", "assumptions": [FS],
  "technique": CR + "an exception from every callback and from every allocation of every call in every history, also inside callbacks made during each file operation of a commit", "note": TRUST},
 "C20": {"stages": [stage("harness/life.cpp", "lifeO", flags=OPT)], "level": "model_checking", "assumptions": [FS],
  "technique": SEQ + "every file operation of every lookup, insert and commit compared with what the independent reader says it needs; allocations counted", "note": TRUST},
 "C21": {"stages": [stage("harness/life.cpp", "lifeO", flags=OPT)], "level": "model_checking", "assumptions": [FS],
  "technique": "explicit enumeration of every legal call sequence on one and two store objects over two different databases on the real code, compared with a state machine; descriptors and allocations counted", "note": TRUST},
 "C22": {"stages": [stage("harness/life.cpp", "lifeO", flags=OPT)], "level": "model_checking", "assumptions": [FS],
  "technique": "explicit enumeration of every legal call sequence on two file objects and two paths on the real code, compared with a model of files and handles", "note": TRUST},
 "C23": {"stages": [stage("harness/life.cpp", "lifeO", flags=OPT)], "level": "model_checking", "assumptions": [FS],
  "technique": "explicit enumeration of burst sizes, amounts, commit durations and insert intervals on the real code under virtual time, each delay judged by an independent rule", "note": TRUST},
}
