#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
                     mechanism=[dict(name=a, where=b) for a,b in mech],
                     observe_at=list(observe), hook_needed=hook)))

CORE="src/core.rs"; FTH="core.fth"
prop("C01","Tasks do not disturb one another",
 "Whatever way the turns of the tasks interleave, each task's data, return and floating-point stacks, loop counters, position in its program and results are exactly those it has when it runs on its own, as long as the tasks share no memory. This includes the operator task: interpreting and compiling source text, with words that pause in the middle of a line, gives the same result whether or not background tasks run in between.",
 ["schedules","programs"],
 "for every set of 1-4 background task programs plus an operator script, and every placement of yields, suspensions and clock ticks between their words",
 "The tests switch between two tasks once or twice with fixed programs and look at a single stack item; no test varies the interleaving or looks at return/float stacks, loops or the interpreter across a switch.",
 [CORE,FTH,"src/mock_vm.rs","rtf/src/main.rs"],
 [("pause switches the current task index; all per-task state is selected through it", "src/core.rs pause, src/mock_vm.rs Task accessors")],
 [("per-task stacks and state","data/return/control/float stack, instruction pointer, compile flag, source position","Task in src/mock_vm.rs, rtf/src/main.rs")],
 ["stack contents at probe points in each task","results left by the operator script"])
prop("C02","Turns go round the awake tasks in order, and suspension holds",
 "At every PAUSE the processor passes to the next awake task in cyclic order of task number, or stays if no other task is awake, so that between two turns of a task every task that stays awake gets exactly one turn. A suspended task gets no turn until it is resumed or activated; a resumed task continues exactly where it stopped. Suspending or resuming one task changes no other task, and an invalid task number is reported as an error and changes none.",
 ["schedules","histories"],
 "for every history of pause, suspend, resume, stop and activate issued by any task on any task (including itself and invalid numbers), with at least one task awake",
 "Tests cover one suspend and one resume of one task; order, fairness and exact continuation over arbitrary histories are unchecked.",
 [CORE,FTH],
 [("cyclic scan for the next awake task","src/core.rs pause"),("suspend/resume set the awake flag","src/core.rs suspend, resume"),("stop, nod","core.fth")],
 [("awake","whether the task takes part in the rotation","Task.awake")],
 ["sequence of (task, event) observed at probe points"])
prop("C03","ACTIVATE starts its target at the right place and disturbs nobody else",
 "ACTIVATE makes the given task awake and makes it, at its next turn, execute the code following ACTIVATE with an empty return stack, interpreting, and reading no source file, whatever that task was doing before: never started, running, suspended, waiting for a delay or a facility, nested in calls and loops, or stopped by an error. The activating task returns at once to the caller of the word containing ACTIVATE with the rest of its stacks intact and no other task changes. An invalid task number is reported as an error and starts or changes no other task.",
 ["schedules","histories"],
 "for every state of the target task, every activating task other than the target, and every interleaving of further activations",
 "One test activates one fresh task. Re-activation of a task in the middle of loops, delays or error states, from different tasks, is never exercised.",
 [CORE,FTH],
 [("activate resets the target and hands it the caller's instruction pointer","src/core.rs activate, reset"),("halt","core.fth")],
 [],["probe events of target, activator and bystanders"])
prop("C04","A facility has one owner at a time and a free one can be obtained",
 "Between the moment GET of a facility completes in a task and the moment that task RELEASEs it, GET of the same facility completes in no other task, under any interleaving, suspension or clock. RELEASE by a task that is not the owner changes nothing, and facilities are independent of one another. When a facility is free, the next awake task that tries to get it at its turn obtains it in that turn, and GET of a free facility never waits.",
 ["schedules","histories"],
 "for every program of get/release/pause/delay over 1-3 facilities in 1-5 tasks and every interleaving, with owners suspended or slow at any point",
 "There is one test with two tasks and one facility; mutual exclusion and progress quantify over all interleavings.",
 [FTH,CORE],[("get polls a shared cell across pauses; release clears it if owned","core.fth get, release")],
 [("facility cell","0 or the owner's task number","user variable")],["get/release completion events per task and turn"])
prop("C05","Delays are never short and end at the first turn after they are due",
 "`n MS` never ends before n milliseconds have passed on the clock the program reads, ends at the waiting task's first turn after that, and lets every other awake task have its turns meanwhile, however the clock advances: tick by tick, in large jumps, with stalls, or standing still. MTIME and UTIME report the host clock truncated to milliseconds and microseconds. The recorded minimum and maximum execution times of a word are the smallest and largest of its measurements, and a clock that steps back neither crashes the host nor ends a delay early.",
 ["schedules","fault_sequences","programs"],
 "for every set of delays in any tasks and every clock trajectory, including jumps forward, stalls and (host clock permitting) steps back",
 "Time never moves by anything but 1 ms in one test of one delay; no test has a jumping, stalling or stepping clock or several waiting tasks.",
 ["src/facility.rs",FTH,"src/tools.rs","src/mock_vm.rs","rtf/src/main.rs"],
 [("mtime/utime from the host clock","src/facility.rs"),("ms loop over mtime and pause","core.fth ms"),("execution time statistics","src/tools.rs, core.fth xtime")],
 [],["clock value at start and end of each delay, turns in between","values returned by mtime/utime","the .xtime listing"])
prop("C06","An error is contained in the failing task and leaves the system usable",
 "When a word fails - in any task, at any point, with any kind of error - the error code is reported, the failing task's data, float and control stacks are cleared and the error handler runs in that task, while the stacks, positions and results of the other tasks, completed definitions and stored data are unchanged. After the error is cleared and the interpreter reset, every continuation behaves exactly as it would have if the failing word had not been there: no leftover compile state, half-made definition, open control structure, label, source nesting or stack damage shows up later.",
 ["fault_sequences","histories","schedules"],
 "for every placement of failing words (undefined name, stack under/overflow, division by zero, wild address, compile-only misuse, unbalanced control structure, truncated definition, explicit abort, missing file, bad argument) in any task of any program",
 "Each test provokes one error in a fresh VM and checks the code; none runs further work afterwards or has other tasks alive.",
 [CORE,FTH],
 [("abort_with clears stacks, records the error, runs the handler","src/core.rs abort_with, clear_stacks, reset"),("stack canaries and ?stacks","src/core.rs check_stacks")],
 [("last error","pending error code","VM"),("handler","xt run on error","VM")],
 ["error code, stacks at handler entry, probe events of all tasks, results of later lines"])
prop("C07","Names resolve to the latest completed definition; markers restore exactly",
 "After any history of definitions, redefinitions, failed or unfinished definitions and executed markers, a name in any letter case finds its most recent completed definition still in the dictionary, words compiled earlier keep the meanings and data they were compiled with, and a definition that failed is not found; WORDS lists exactly the completed definitions in the dictionary, the latest first. Executing a marker restores exactly the names, meanings and data-space pointer that existed when it was created, an unknown name is reported as an error, a definition for which the data space has no room is reported as an error and not found, and an ALLOT for which it has no room is reported and moves nothing.",
 ["histories","fault_sequences"],
 "for every history of colon/create/does>/variable/constant/defer definitions, redefinitions, failures at any token, and nested markers",
 "Tests define one or two words and use a marker once; hash-bucket chains after arbitrary redefinition/forget histories and failures are not reached.",
 [CORE,FTH],
 [("hash-bucket word list, hidden flag until ;","src/core.rs Wordlist, define, find, colon, semicolon"),("marker saves buckets and pointers","src/core.rs marker, unmark")],
 [],["values produced by executing names, find results, here, words listing"])
prop("C08","File words tell the truth about the files under any I/O fault",
 "For every sequence of file words and every pattern of I/O faults, results agree with the files: a zero ior means the whole operation took effect in the file system, so that it survives the sudden death of the VM; an interrupted or partial transfer is completed invisibly, and a failure of the operating system gives a non-zero ior. Bytes read, counts, positions and sizes are those of the file, no byte of a file or of memory outside the requested range changes, and a buffer or name that does not lie in the data space is refused with a non-zero ior.",
 ["histories","fault_sequences","crash_points"],
 "for every history of create/open/read/write/reposition/resize/size/position/close/delete over several files and handles, with short transfers, interruptions, EIO, ENOSPC, EMFILE, EACCES and VM death at any call",
 "Tests use the real file system, which never returns short counts, EINTR, EIO or ENOSPC for regular files, and run one operation each.",
 ["src/file_access.rs"],
 [("direct std::fs calls with ior mapping and range checks","src/file_access.rs")],
 [],["ior, counts, data-space bytes, contents of the simulated disk"])
prop("C09","A file id names one open file of one task until it is closed",
 "A file id belongs to the task that obtained it and stays bound to the same open file until that task closes it or hands it to an input source, whatever else is opened, closed or fails in this or other tasks. Closed, never issued, negative or huge ids are rejected with an error by every word and touch no file. A failed open or create consumes nothing, and the operating-system files held open are exactly the open file ids and sources.",
 ["histories","schedules","fault_sequences"],
 "for every interleaving of opens, closes, source openings and uses by several tasks, with failing opens and reuse of closed ids",
 "Tests have one task and at most one or two files; id reuse, per-task tables and failure of the k-th open are not exercised.",
 ["src/file_access.rs","src/loader.rs","src/mock_vm.rs"],
 [("per-task table of optional files, first free slot reused","src/file_access.rs, src/loader.rs open_source/close_source")],
 [("files, sources, lines","per-task tables","Task")],["data reached through each id, count of open OS handles"])
prop("C10","Loading a source yields each line once, whole and in order",
 "However the operating system fragments or interrupts reads, loading lines from a source yields exactly the lines of the file in order, each once, without its LF or CRLF, and then reports end of file; several sources open at once in one or several tasks do not mix. A read error is reported as an error, is never taken for end of file or for a line, and if loading is tried again after it no line is lost, duplicated, split or merged.",
 ["fault_sequences","inputs","schedules"],
 "for every file content and every fragmentation, EINTR and EIO pattern of reads, with several sources read alternately",
 "The tests load a short file in one read without faults.",
 ["src/loader.rs"],
 [("buffered reader per source, line buffer per source","src/loader.rs load_line")],
 [],["line text, count and end-of-file flag returned per load"])
prop("C11","Nested includes resume where they left off, and failures leave no trace",
 "INCLUDE interprets the whole file in order and then continues with the rest of the text that contained it, to any nesting depth the source stack allows, restoring the previous source, position and open-file count. If any file in the nest is missing, cannot be read, or contains an error, the error is reported, and after the usual reset to the terminal later includes work as if the failed one had not been tried, however many have failed before.",
 ["fault_sequences","histories","programs"],
 "for every tree of including files, every position of the include in a line, every failing node and I/O fault, and every number of previous failures",
 "One test includes one good file. Failure inside nests, repetition after failure and I/O faults while including are not covered.",
 [FTH,"src/loader.rs",CORE],
 [("save-source/restore-source stack, included","core.fth"),("reset returns to the terminal source","src/core.rs reset")],
 [("src-stack","saved source ids and positions","core.fth")],["order of effects of included lines, later behaviour, open OS handles"])
prop("C12","Output reaches the console once, complete and in order",
 "The characters that appear on standard output are exactly those the tasks output, each once and in the order they were output, with the line end that each flush of pending text adds, for any interleaving of tasks, any errors in between, and any fragmentation or interruption of writes by the operating system. Output pending when the console program ends is written before it exits.",
 ["schedules","fault_sequences","programs"],
 "for every interleaving of output words and flushes in 1-5 tasks with short and interrupted writes",
 "Tests compare the buffer after one line of one task; the path to the descriptor with partial writes and several tasks is never tested.",
 ["src/output.rs",FTH,"src/tools.rs","rtf/src/main.rs"],
 [("one output buffer per VM, flush-output prints and clears it","src/output.rs")],
 [],["bytes accepted by the simulated stdout/stderr"])
prop("C13","Stepping, slicing and co-hosting VMs never change results",
 "Executing a program one step at a time or in slices of any size, with slices of other virtual machines and host activity in between, has exactly the outcome of executing it in one uninterrupted run: the same results, output and errors. Virtual machines in one process never influence each other, including when one of them fails or is dropped in the middle of its work.",
 ["schedules","programs","configurations"],
 "for every program, every slicing of its execution, every interleaving of 2-3 VMs and every point at which one is dropped",
 "Tests run each program once to completion in a single VM.",
 [CORE,"src/mock_vm.rs","src/memory.rs"],
 [("run and forth share the same inner loop semantics","src/core.rs run, forth"),("all state is owned by the VM","src/mock_vm.rs, rtf/src/main.rs")],
 [],["stacks, output, data and error at the end and per step"])
prop("C14","Compiled non-I/O code allocates no memory and makes no system call",
 "After start-up, executing compiled code made of words other than input, output and file words - arithmetic, stacks, memory, control flow, calls, loops, task switching, facilities, delays and failing words with their error handler - performs no heap allocation or release and no system call except reading the clock, under any schedule. It therefore still works when every allocation fails.",
 ["schedules","programs","fault_sequences"],
 "for every compiled program over the non-I/O words in 1-5 tasks and every interleaving, with the allocator failing every request",
 "Tests do not observe allocations or system calls at all.",
 [CORE,"src/float.rs","src/facility.rs"],
 [("fixed-size stacks, threaded code, preallocated data space","src/core.rs Stack, run; src/memory.rs")],
 [],["allocator calls and interposed system calls while compiled code executes"])
prop("C15","No source text, however torn or damaged, brings the host down",
 "Source text that is cut off at any byte, lacks its final newline, or contains arbitrary damaged characters or bytes that are not text is either interpreted as the program it then is or rejected with a reported error; what comes before the damage has its usual effect, and a word that is neither defined nor a number is always reported. The host program never crashes, hangs or is corrupted because of it (a program that has become an endless loop, or that stores at addresses it computes, does what it says), and after the reset the interpreter works as before.",
 ["fault_sequences","inputs"],
 "for every valid program text and every truncation, byte corruption, duplication or loss of a part of it, given as terminal lines or as an included file",
 "Tests contain only complete, well-formed text apart from a few single-error lines.",
 [CORE,"src/output.rs","src/loader.rs",FTH,"src/parser.rs"],
 [("parsing words work on the input buffer with an index","src/core.rs parse_word, parse, _skip; src/output.rs s_quote")],
 [],["termination with or without error, later sanity lines"])
prop("C16","The console editor delivers exactly the line that was edited",
 "For every sequence of key events the line handed to the interpreter is the one a simple editor model gives: characters are inserted at the cursor, backspace removes the character before it, left and right move by whole characters within the line, up and down walk the history without losing the line being edited or edits made to the lines passed, and enter accepts; while it is edited, the terminal row shows the line and the cursor's place in it. Other keys and events change nothing, Ctrl-D ends input, a failing terminal read costs only the line being edited, and no sequence of events, including failing terminal reads and any mix of one- and multi-byte characters, brings the console down.",
 ["histories","fault_sequences","inputs"],
 "for every sequence of key and terminal events over several lines, with read errors at any point and any initial history",
 "There are no tests of the terminal code.",
 ["rtf/src/term.rs"],[("edit buffer with byte cursor, history vector","rtf/src/term.rs read_line")],
 [("history, buffer","lines entered and line being edited","Term")],["returned line, text drawn on the terminal"],)
prop("C17","Console history keeps the latest 32 lines across sessions",
 "The lines available at the start of a session are the last 32 non-empty lines entered in the sessions before it, oldest first, as entered or last edited in the history, whatever number of sessions, lines and kinds of session end by command or end-of-input there were; a session that is killed, even while it saves, or whose history cannot be written, loses only its own lines. A damaged history file costs only the damaged lines, and a missing or unreadable one or an unusable cache directory at most the history: the console starts, works and ends normally.",
 ["histories","fault_sequences","crash_points"],
 "for every sequence of sessions with any lines, with I/O faults on loading and saving and with arbitrary bytes in the history file",
 "There are no tests of history loading or saving.",
 ["rtf/src/term.rs"],[("load at start, save on drop, trimmed to 32","rtf/src/term.rs Term::new, Drop")],
 [],["content of the history file, lines reached with the up key"])
prop("C18","The console answers every line, and survives every error",
 "In a console session each entered line is answered in order by its output followed either by ok (nothing after it while a definition is still open) or by the failing token and the error's description (a plain ABORT, also that of a missing include file, shows neither), never both; an error in an included file, however deeply nested, is shown with that file's name and the number and text of the line; and after an error the next line is interpreted with empty stacks in interpretation mode. The session goes on after any error, in the console task or in a background task (which is described and then waits), or a failing terminal read, which loses only a half-typed line, without losing or repeating entered lines, and ends only at bye or end of input.",
 ["histories","fault_sequences","schedules"],
 "for every sequence of good, failing and multi-line inputs, includes and background tasks (including failing ones)",
 "There are no tests of the console program.",
 ["rtf/rtf.fth","rtf/src/main.rs",FTH],
 [("quit loop, (abort) handler, cold","rtf/rtf.fth"),("receive","rtf/src/main.rs")],
 [],["bytes on stdout per entered line"])
prop("C19","A program gone wild reaches nothing outside its virtual machine",
 "Whatever a program does - any words with any numbers, addresses, execution tokens, counts and return addresses, stores into compiled code, names, marker data, variables and buffers, an error handler of its choice - and whatever bits or cells of its data space are corrupted while it runs, every step of the virtual machine returns to the host: it neither panics, nor exhausts the host's stack, nor loops within a step, and touches no memory outside the virtual machine's data space. Fetching, storing or moving with an address or length that is not wholly inside the data space is refused with an error and changes nothing, and inside it does exactly what it says. A number used as an execution token, task, label or source is refused with an error when it names none, after which the machine goes on. Other virtual machines in the same process go on exactly as if alone, and new ones can be made.",
 ["programs","fault_sequences"],
 "for every program, every line of it given to the interpreter, and every corruption of the data space at any step",
 "The tests run correct programs and a few single mistakes in fresh machines; none corrupts compiled code, gives words wild operands in combination, or looks at what is around the data space.",
 [CORE,"src/memory.rs","src/float.rs","src/output.rs","src/tools.rs","src/file_access.rs","src/loader.rs","examples/vm.rs"],
 [("range checks of every access; words by index with bounds","src/core.rs execute_word, run, forth, fetch, store, p_move, branch, lit, unmark, imm_label; src/memory.rs has_range, get_str"),("the error handler runs once per error","src/core.rs abort_with"),("stacks of 256 cells indexed by a byte","src/core.rs Stack")],
 [("data space","all memory a program can address","DataSpace in src/memory.rs")],
 ["panics, signals and CPU time of a step","inaccessible pages around every data space","the state of a virtual machine beside it"])
# Not applicable to this technique
prop("N01","Integer, logic and stack words compute what Forth 2012 says",
 "Every arithmetic, logic, comparison, shift and stack word gives the result Forth 2012 defines for all operand values, wrapping on overflow and reporting division by zero.",
 ["inputs"],"for all operand values","Tests sample a few operands per word.",[CORE],[("primitives","src/core.rs")])
prop("N02","Numbers are read and printed faithfully",
 "Every integer and floating-point literal is read as the value it denotes in the current base, and printing then reading a number gives it back.",
 ["inputs"],"for all literals, values and bases","Tests sample some literals.",["src/parser.rs","src/output.rs",CORE],[("parser, .r, f.r","src/parser.rs, src/output.rs")])
prop("N03","Floating-point words and unit conversions are accurate",
 "Floating-point words agree with IEEE double arithmetic and unit-conversion words with the definitions of the units.",
 ["inputs"],"for all operand values","Tests sample some values.",["src/float.rs","src/units.rs"],[("primitives","src/float.rs, src/units.rs")])
prop("N04","Control structures execute as written",
 "Every well-nested combination of if, case, begin, do, labels and recursion executes as Forth 2012 defines.",
 ["programs"],"for all well-nested programs","Tests have some small combinations.",[CORE],[("compiling words","src/core.rs imm_*")])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
