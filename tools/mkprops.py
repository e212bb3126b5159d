#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it to regenerate the file)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=hook)))

W = "nbody/nbody_data_stream.cpp"; R = "nbody/nbody_data_stream_reader.cpp"; D = "nbody/nbody_data.cpp"
S = "nbody/nbody_solver.cpp"; M = "test/main/main.cpp"; CL = "nbody/nbody_engine_opencl.cpp"

prop("C01", "A killed recording keeps every acknowledged frame readable",
 "If the process that records a simulation stream is killed at any instant, also in the middle of a file write, the files left on disk can be opened and every frame whose write was acknowledged before that instant reads back bit-exactly, in order, with its own step, time, masses and colours. At most one further frame (the one being written) may appear, and only if it is complete and correct. A file that a reader would return as a frame never contains anything else.",
 ["crash_points", "inputs", "configurations"],
 "every workload of frames, body count and part-size limit; every kill point between two file operations or inside one (torn at any byte)",
 "the stream tests always close the writer cleanly before they read; no test interrupts a write",
 [W, R], [("frame data is flushed before its index line is written and flushed", W + " write()"),
          ("an index line counts only once it is complete", R + " load()")],
 [("index", "one line per frame: step, time, part number, offset", "<base>.idx"), ("parts", "raw coordinates and velocities", "<base>N.dat")],
 ["the files under the stream's base name after the kill", "nbody_data_stream_reader::load/seek/read"])

prop("C02", "A frame is acknowledged only if it can be read back",
 "When the disk is full or file operations fail or are cut short while a simulation records its stream, each frame write either reports success, and that frame is then readable bit-exactly, or reports failure. Frames acknowledged earlier stay readable, and the same holds for frames acknowledged after a failed one. A simulation run whose frame could not be recorded ends with a failure status, and one that reports success has recorded all of its frames.",
 ["fault_sequences", "inputs", "configurations"],
 "every sequence of ENOSPC, EIO, EINTR, EDQUOT and short-write results on open, write, seek and flush of any of the stream's files, at any position",
 "tests only make open() fail (read-only directory); a write that fails after buffering is never produced",
 [W, S, M], [("every write and flush result is checked and reported by write()", W + " write(), write_header()"),
             ("run() stops with -1 on a failed stream write", S + " run()")],
 [], ["return value of nbody_data_stream::open/write and of the simulation program", "stream contents read back fault-free"])

prop("C03", "Kill and resume gives the same recording as an uninterrupted run",
 "A simulation that is killed at arbitrary instants (or asked to stop at an earlier end time) and resumed any number of times ends with a stream that holds the same frames as one uninterrupted run: same number of frames, same steps and times in the same cadence, same masses, colours and box, and, for solvers and engines that carry nothing over from earlier steps, bit-identical positions and velocities. Frames recorded before a kill are never lost, duplicated or altered by the resume, and resuming a finished run changes nothing.",
 ["crash_points", "histories", "configurations"],
 "every sequence of kill points over every file operation (torn writes included) and resumes, over solvers, engines, dump cadence, part-size limits, box clamping and thread counts",
 "tests append to a cleanly closed stream only; no test kills the simulation program or runs its --resume path",
 [W, R, S, M, D], [("resume seeks the last complete frame, restores state from it and appends behind it", M), ("append mode continues the last part and the index", W + " open()"),
    ("run() derives the next dump time from the restored time", S + " run()")],
 [], ["the stream after the last resume", "exit status of the simulation program"])

prop("C04", "Reading a frame returns that frame under any access history and read fault",
 "After any sequence of opening streams (also different ones with the same reader), seeking, reading and closing, and whatever reads failed or were cut short before, a read that reports success delivers exactly the frame the cursor pointed at: its positions, velocities, step and time and the masses and (when their file is readable) colours of its stream; the cursor then points at the next frame. A read that cannot be completed reports failure, and once the faults stop the same frame can be sought and read again.",
 ["histories", "fault_sequences", "inputs"],
 "every history of load/seek/read/close calls over several streams, and every sequence of EIO, EINTR, short reads and vanished parts injected into it",
 "tests read each stream once front to back and never reuse a reader or let a read fail half way",
 [R], [("seek positions the data file at the frame's recorded offset", R + " seek()"), ("load drops everything of the previous stream", R + " load(), close()")],
 [("cursor", "current frame", "nbody_data_stream_reader::get_current_frame")], ["load/seek/read/get_* of nbody_data_stream_reader"])

prop("C05", "A reader that opens a growing stream sees a consistent prefix",
 "While one process records a stream, another may open and read it at any moment: opening either fails cleanly (no complete header yet) or yields a prefix of the recorded frames that includes every frame acknowledged before the open began, and each of them reads back bit-exactly. Frames appended later do not disturb a reader that is already open.",
 ["schedules", "inputs", "configurations"],
 "every interleaving of the writer's and the reader's file operations, down to a partially written record, over part-size limits and body counts",
 "no test reads a stream while it is being written",
 [W, R], [("data first, index line second, each flushed", W + " write()"), ("unterminated index tail is ignored", R + " load()")],
 [], ["nbody_data_stream_reader on the live files"])

prop("C06", "Damaged recordings are refused, never misread and never crash",
 "Whatever bytes of a stored stream are flipped, lost, truncated or duplicated, or whichever of its files is missing, opening and reading it terminates without a crash, and either reports failure or delivers, per frame, exactly the bytes that are stored at the place the index names, complete; an index or header that is malformed is refused. A frame or mass table that is shorter than the declared body count is never delivered as a success.",
 ["fault_sequences", "inputs"],
 "every set of bit flips, truncations, block losses and deletions applied to the stream's files between recording and reading",
 "tests check nine hand-made index files and no damaged data, mass or colour file",
 [R], [("index and header parsing", R + " load(), parse_header_line()"), ("every read length is checked", R + " read(), read_masses(), read_colors()")],
 [], ["return values and delivered data of nbody_data_stream_reader"])

prop("C07", "Initial-state files are saved and loaded completely or not at all",
 "Saving a body set to a text file reports success only if the file on disk holds every body, and loading it back then gives the same bodies; when the disk is full, or operations fail, are interrupted or cut short during saving or loading, the operation reports failure instead of silently leaving or delivering fewer or different bodies. A simulation whose initial state cannot be read completely does not start.",
 ["fault_sequences", "crash_points", "inputs"],
 "every sequence of ENOSPC, EIO, EINTR and short results on the file operations of save, load and initial-state import (Zeno, G1, SI, ADK)",
 "tests save and load on a healthy disk only",
 [D, M], [("save() checks the stream after flushing", D + " save()"), ("load()/load_zeno_ascii() check for read errors", D)],
 [], ["return values of save/load/load_initial", "file contents", "exit status of the simulation program"])

prop("C08", "Restarting a stream under a used name or writer leaves only the new recording",
 "Opening a writer for a new recording, also one that was used for another recording before or under a base name that already holds an older recording, yields a stream that reads back as exactly the frames written since: its own header, masses and colours, none of the old frames, whatever the number and size of parts either recording has and wherever the older one was interrupted.",
 ["histories", "crash_points", "configurations"],
 "every history of open/write/close/kill over reused writers and reused base names, every part-size limit",
 "each test uses a fresh writer; none rewrites a longer, multi-part or interrupted recording",
 [W, R], [("open() truncates index and first part and resets the header state", W + " open()"), ("a new part truncates a stale file of that number", W + " open_data_file()")],
 [], ["nbody_data_stream::open/write/close", "nbody_data_stream_reader"])

prop("C09", "Running out of memory ends the run and never corrupts the recording",
 "When any allocation of the simulation program fails, at any point and for any configuration, the program either ends with a failure (a failure status or the abort of an uncaught allocation error) or carries on and gives the complete result; it never writes or reads through memory it did not get, never reports success for an incomplete recording, and every frame that was recorded before stays readable and equal to the one of an undisturbed run, so that the run can be resumed and completed.",
 ["fault_sequences", "configurations"],
 "every allocation of the program and the library, single, repeated and persistent failures, all CPU engines and solvers, all part sizes",
 "tests never run out of memory",
 ["nbody/nbody_engine_simple.cpp", W, R, "test/main/main.cpp"],
 [("memory of an engine buffer that could not be allocated is reported, not used", "nbody_engine_simple::smemory"), ("a failing step ends the run with a failure status", "main.cpp")], [], ["test/main program", "nbody_engine::create_buffer"])

prop("C10", "Direct-sum accelerations do not depend on the thread schedule",
 "For every number of threads and every interleaving of them, the multi-threaded direct-sum engines (openmp, block, ah) write bit-identical derivatives for the same state, equal to those of a sequential evaluation of Newton's law with the softening floor, to rounding; every body gets its own value exactly once, also over consecutive calls in one run.",
 ["schedules", "inputs", "configurations"],
 "every interleaving of the worker threads at memory-access granularity, 1 to 8 threads, body counts the engine supports, coinciding and far bodies, any sequence of steps",
 "tests run once with whatever interleaving the machine gives, and compare with a loose tolerance",
 ["nbody/nbody_engine_openmp.cpp", "nbody/nbody_engine_block.cpp", "nbody/nbody_engine_ah.cpp"],
 [("each iteration of the parallel loop owns its body's slots; accumulators are private", "fcompute")], [], ["nbody_engine::fcompute, read_buffer"])

prop("C11", "Barnes-Hut results do not depend on the thread schedule",
 "For every number of threads and every interleaving of them and of their tasks, tree construction, tree update and traversal of the CPU Barnes-Hut engine (tree, heap and stackless heap; cycle and nested traversal; any rebuild rate) give bit-identical accelerations, and with an opening ratio large enough to open every cell that is not a single body they equal the direct sum to rounding, otherwise deviate from it by no more than the cell-opening criterion allows. Every body gets exactly one result, for any body count.",
 ["schedules", "inputs", "configurations"],
 "every interleaving of threads and task placement at memory-access granularity; 1 to 8 threads; body counts from 1 up, powers of two or not; sequences of build and refit calls",
 "tests use power-of-two body counts and one machine-given schedule, with a loose tolerance",
 ["nbody/nbody_space_tree.cpp", "nbody/nbody_space_heap.cpp", "nbody/nbody_space_heap_stackless.cpp", "nbody/nbody_engine_simple_bh.cpp"],
 [("children are complete (taskwait) before a node is summarised", "build/rebuild"), ("levels of the heap are summarised bottom-up, one after another", "nbody_space_heap::rebuild")], [], ["nbody_engine::fcompute, read_buffer"])

prop("C12", "State-vector arithmetic is schedule-independent and exact",
 "Copy, fill, multiply-add (in place, multi-term, with error correction), box clamping and the maximum-magnitude reduction of the multi-threaded engine give bit-identical results for every number of threads and interleaving, equal to the element-wise definition, and touch every element exactly once.",
 ["schedules", "inputs", "configurations"],
 "every interleaving at memory-access granularity, 1 to 8 threads, vector lengths that do and do not divide among threads, aliased and distinct operands, negative, zero and extreme values",
 "tests check single operations once, on one machine-given schedule",
 ["nbody/nbody_engine_openmp.cpp", "nbody/nbody_engine.cpp"], [("element-wise parallel loops, max reduction", "nbody_engine_openmp")], [], ["nbody_engine buffer operations"])

prop("C13", "A recorded simulation is reproducible for any schedule and clock",
 "Running the simulation program with the same parameters on the CPU engines gives byte-identical stream files and the same exit status for every number of threads, every thread interleaving and any behaviour of the wall clock (jumps, steps backwards, stalls); the run terminates once the simulated time is reached and records exactly the frames its dump step calls for.",
 ["schedules", "configurations", "fault_sequences"],
 "every interleaving of worker threads over whole runs, thread counts 1 to 8, clock jumps between any two clock reads, all solver types",
 "no test runs the program; solver tests compare energies loosely on one schedule",
 [M, S, "nbody/nbody_engine_openmp.cpp", "nbody/nbody_engine_simple_bh.cpp", D, "nbody/nbody_solver_*.cpp"],
 [("wall clock feeds statistics only", D + " print_statistics()"), ("deterministic engines and fixed step order", "engines and solvers")], [], ["stream files", "exit status"])

prop("C14", "Splitting, observing or recording a run does not change it",
 "For every solver and engine, every division of a run into consecutive calls of the solver, any check and dump interval, any visitors, recordings that succeed or fail, another simulation driven in between, and every thread schedule, the states at each step are bit-identical to those of one undivided, unobserved run. Each visitor is called exactly at the steps its interval calls for and gets the state of that step; each recorded frame holds the state of its step; a run ends at the first step that reaches its end time (to rounding) and reports failure exactly when a due frame could not be recorded.",
 ["histories", "schedules", "fault_sequences", "configurations"],
 "every sequence of run() calls with any end times, intervals and recordings, failing or not, interleaved with another simulation, on 1 to 65 threads under any interleaving",
 "tests drive each solver once, in one call, without visitors and failing recordings",
 ["nbody/nbody_solver.cpp", "nbody/nbody_solver_adams.cpp", "nbody/nbody_solver_rk_butcher.cpp", "nbody/nbody_data.cpp", "nbody/nbody_engine.cpp"],
 [("check, dump and end conditions of the loop", "nbody_solver::run"), ("history buffers belong to the solver object", "nbody_solver_adams::advise")], [], ["nbody_solver::run, add_check_visitor"])

prop("C15", "The reports of a run are those of its bodies",
 "For every solver and CPU engine, check interval, list of quantities, division of the run into calls, recording that succeeds or fails, other simulation driven in between, thread schedule and behaviour of the clock, a run prints exactly one report at each step its check interval calls for. It names that step, its time and the number of derivative evaluations made so far and since the report before, the same as on one thread; the impulse, angular momentum, mass centre and energy are those of the bodies of that step, to rounding, and the errors are relative to the first report of that simulation.",
 ["histories", "schedules", "fault_sequences", "configurations"],
 "every sequence of run() calls with any intervals and lists, interleaved with another simulation, on 1 to 65 threads under any interleaving, with clocks that jump or stand still",
 "tests print reports without reading them and compare conserved quantities of a few undivided runs",
 ["nbody/nbody_data.cpp", "nbody/nbody_solver.cpp", "nbody/summation.h", "nbody/nbody_engine.cpp"],
 [("totals, first values and differences", "nbody_data::print_statistics"), ("Kahan sums over proxies", "nbody/summation.h"), ("report before the visitors", "nbody_solver::run")], [], ["printed lines; nbody_data::get_*_err, get_last_*, get_initial_*"])

prop("C20", "OpenCL results do not depend on devices, contexts or command timing",
 "With any number of devices, in one context or several, and whatever the order and delay in which independent devices execute their queued commands, every OpenCL engine operation (derivatives, vector operations, clamp, reduction, transfers) returns what the sequential CPU engine returns, to rounding, and two runs that differ only in timing give bit-identical results.",
 ["schedules", "configurations", "inputs"],
 "every legal execution order of enqueued commands over 1, 2, 4 or 8 devices, shared and separate contexts, mixed layouts, any sequence of engine operations and solver steps",
 "tests run on one simulator whose queues execute eagerly, so a missing wait between devices never shows",
 [CL, "nbody/nbody_engine_opencl.cl"], [("events waited on before a buffer is read by the host or another device", CL + " synchronize_y/synchronize_f/synchronize_sum/read_buffer"), ("each device computes its own slice", CL + " fcompute")], [], ["nbody_engine_opencl operations"])

prop("C21", "OpenCL Barnes-Hut agrees with the CPU for any devices and timing",
 "The OpenCL Barnes-Hut engine (cycle and nested traversal, heap and stackless heap, any rebuild rate) gives accelerations equal, to rounding, to those of the CPU Barnes-Hut engine with the same parameters, for any number of devices, context layout and execution order of independent commands, over any sequence of steps.",
 ["schedules", "configurations", "inputs"],
 "every legal execution order of enqueued commands over 1, 2, 4 or 8 devices in shared or separate contexts; build and refit sequences",
 "tests run on one eager simulator, mostly with one device",
 [CL, "nbody/nbody_engine_opencl_bh.cpp", "nbody/nbody_engine_opencl.cl"], [("tree buffers are written to every device before traversal", CL + " rebuild_tree, update_tree")], [], ["nbody_engine_opencl_bh::fcompute"])

prop("C22", "A failing OpenCL call never yields a silently wrong result",
 "When any call of the OpenCL runtime fails (platform or device discovery, compilation, allocation, enqueue, transfer, wait), the operation in progress is reported as failed (a null or false result, a failure status, or an exception that ends the run); it never goes on to deliver results that differ from those of a fault-free run, and a simulation run that reports success has recorded the fault-free frames.",
 ["fault_sequences", "configurations"],
 "every single or repeated failure of any OpenCL runtime call, at any position of device selection, initialisation and simulation",
 "no test can make an OpenCL call fail apart from naming a missing device",
 [CL, "nbody/nbody_engines.cpp", M], [("OpenCL exceptions are enabled and not swallowed after initialisation", CL)], [], ["engine API results", "exit status and stream of the simulation program"])

CU = "nbody/nbody_engine_cuda.cpp"
prop("C44", "CUDA engines agree with the CPU for any devices and timing",
 "With any devices selected and whatever the order and delay in which devices and streams execute their commands, a CUDA engine (direct, Barnes-Hut, Barnes-Hut with textures, heap or stackless heap, any rebuild rate) either refuses the device list, block size or body count when it is created or initialised, or computes every element: vector operations, clamp and reduction follow their definition, derivatives equal, to rounding, those of the CPU engine with the same parameters, and two runs that differ only in timing give bit-identical results.",
 ["schedules", "configurations", "inputs"],
 "every legal execution order of commands over up to 8 selected devices (also the same one repeatedly), block sizes, body counts, sequences of engine operations and tree builds and updates",
 "there is no CUDA device or compiler where the tests run, so they never execute these engines",
 [CU, "nbody/nbody_engine_cuda_bh.cpp", "nbody/nbody_engine_cuda_bh_tex.cpp", "nbody/nbody_engine_cuda_impl.cu", "nbody/nbody_engine_cuda_memory.cpp"],
 [("work of a device is finished before others read its memory or write to it", CU + " synchronize_y/synchronize_f/synchronize_sum"), ("each device computes its own slice in whole blocks", CU + " init, fcompute")], [], ["nbody_engine_cuda operations"])

prop("C46", "A failing CUDA call never yields a silently wrong result",
 "When any call of the CUDA runtime fails, or a command it accepted fails on the device, the operation in progress is reported as failed (a null or false result, or the program ends with a failure status or by an exception); it never goes on to deliver results that differ from those of a fault-free run, and never accesses memory it does not own.",
 ["fault_sequences", "configurations"],
 "every single or repeated failure of any CUDA runtime call or command, at any position of creation, initialisation, operations and destruction",
 "no test can make a CUDA call fail",
 [CU, "nbody/nbody_engine_cuda_bh.cpp", "nbody/nbody_engine_cuda_bh_tex.cpp", "nbody/nbody_engine_cuda_memory.cpp"], [("results of runtime calls are checked", "CUDACHECK in nbody/nbody_engine_cuda_impl.h")], [], ["engine API results", "exit status"])

prop("C30", "The image recorder writes every pushed frame once, with its own picture",
 "For every interleaving of the background encoding workers with the caller, recording to an image sequence writes, for each frame pushed, exactly one file of that frame's number with exactly that frame's picture, and nothing else; the number of frames waiting stays bounded, and when recording ends (the recorder is destroyed) all frames pushed are on disk. A directory that cannot be used is reported when recording starts.",
 ["schedules", "inputs", "configurations"],
 "every interleaving and delay of worker tasks, 1 to 8 workers, any number of frames, the caller reusing and repainting its image right after pushing it",
 "no test covers the recorder",
 ["player/nbody_frame_compressor_image.cpp", "player/nbody_frame_compressor.cpp"], [("each task gets its own image and name; the queue is drained down to its limit before a push returns and completely at the end", "nbody_frame_compressor_image")], [], ["files in the output directory"])

prop("C31", "The player shows and records the frames its timeline says",
 "Under every sequence of user actions (play, pause, forward, back, to start or end, slider drags, changing a view setting, starting a recording, trying to close the window while it records), animation ticks at any rate, and read errors, the frame number shown on the timeline always lies inside the stream, the bodies shown are those of one frame of that stream, complete and unmixed, and of the frame the timeline names whenever that frame could be read, from the moment the player opens. The stereo base, star size, star intensity, scale, colouring and box used for drawing are those of the controls. A recording holds every frame from the first to the last exactly once and in order, and afterwards the timeline and the picture agree again.",
 ["schedules", "histories", "fault_sequences"],
 "every sequence of user actions and timer ticks with any spacing (slow, stalled and fast clocks), with read faults in between",
 "no test covers the player",
 ["player/wgt_nbody_player.cpp", "player/wgt_nbody_player_control.cpp"], [("the control clamps positions to the stream", "wgt_nbody_player_control"), ("recording walks all frames", "wgt_nbody_player::on_start_record")], [], ["control's frame number, data given to the view, frames given to the recorder"])

N = [
 ("C40", "Solvers converge at their theoretical order",
  "Each integration method's error shrinks with the step at its published order for every smooth problem.", ["inputs"],
  "every initial state and step", "tests sample a few step sizes", ["nbody/nbody_solver_rk_butcher.cpp", "nbody/nbody_butcher_table.cpp"], [("Butcher tables", "nbody/nbody_butcher_table.cpp")]),
 ("C42", "The Barnes-Hut error is bounded by the opening ratio",
  "For every body set the acceleration error of the tree engines is bounded by a decreasing function of the opening ratio.", ["inputs"],
  "every body set and ratio", "tests sample one body set", ["nbody/nbody_space_tree.cpp"], [("opening criterion", "nbody/nbody_space_tree.cpp update()")]),
 ("C43", "Command-line parameters reach the engine and solver they name",
  "Every documented parameter selects the engine, solver and setting it names, and unknown values are refused.", ["inputs"],
  "every parameter combination", "tests sample some combinations", ["nbody/nbody_arg_parser.cpp", "nbody/nbody_engines.cpp", "nbody/nbody_solvers.cpp"], [("factory functions", "nbody_create_engine, nbody_create_solver")]),
 ("C45", "The OpenGL view draws the bodies it is given",
  "The view renders every body inside the frustum at its projected position for each stereo mode.", ["inputs"],
  "every body set and camera", "no test covers the view", ["player/wgt_nbody_view.cpp"], [("immediate-mode drawing", "player/wgt_nbody_view.cpp")]),
]
for n in N:
    prop(*n[:8])
    
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
