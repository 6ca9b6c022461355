"""Writes properties.jsonl (kept as a script only to keep the JSON readable)."""
import json, os

PF = "src/synthpix/scheduler/prefetch.py"
BA = "src/synthpix/scheduler/base.py"
EP = "src/synthpix/scheduler/episodic.py"
SB = "src/synthpix/sampler/base.py"
SS = "src/synthpix/sampler/synthetic.py"
SR = "src/synthpix/sampler/real.py"
MK = "src/synthpix/make.py"
SA = "src/synthpix/sanity.py"
NP = "src/synthpix/scheduler/numpy.py"
H5 = "src/synthpix/scheduler/hdf5.py"
MA = "src/synthpix/scheduler/mat.py"
UT = "src/synthpix/utils.py"
DG = "src/synthpix/data_generate.py"

P = []


def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
            "mechanism": [{"name": a, "where": b} for a, b in mech],
            "observe_at": list(observe), "hook_needed": hook,
        },
    })


p("C01", "Prefetching delivers every batch exactly once, in order",
  "The batches a consumer obtains from a prefetching scheduler are exactly those its wrapped scheduler would have handed out directly: same contents, same order, none lost, duplicated or altered, whatever the consumer's pace, the loading times, the buffer size and the thread interleaving. End of stream is signalled (StopIteration) only after the last batch was delivered, and keeps being signalled on later calls; a StopIteration earlier than that is allowed only when the call waited out its configured timeout, and costs no batch.",
  ["schedules", "histories", "configurations", "fault_sequences"],
  "every interleaving of worker and consumer, every consumer pace and loading-time sequence, buffer sizes, timeouts, looping or finite wrapped schedulers (plain and episodic)",
  "the tests drive one schedule with mocked fast schedulers; a consumer slower than the end-of-stream timeout, or preemption at a particular queue operation, is never exercised",
  [PF], [("bounded queue filled by a background thread", PF), ("end-of-stream sentinel", PF)],
  [("_queue", "batches loaded ahead", PF), ("_stop_event", "worker must stop", PF)],
  ["get_batch results", "StopIteration and the virtual time the call took"])

p("C02", "Prefetch lifecycle calls always terminate and never leak the worker",
  "shutdown, reset and next_episode may be called at any moment and in any order (before the first batch, with a full or empty buffer, during a load, after the end, repeatedly, and shutdown also from another thread while a consumer is blocked) and return within a bounded time: shutdown within its join timeout, reset once the load in flight has ended. After shutdown the background thread ends as soon as the load in flight has ended, a consumer that was blocked is released promptly, and no thread is left behind by any number of resets. A prefetching scheduler that is let go of (deleted, garbage collected) without a shutdown ends its background thread in the same way.",
  ["schedules", "histories", "fault_sequences"],
  "every point of the worker's and the consumer's execution at which a lifecycle call can arrive, and every sequence of such calls",
  "tests call shutdown or reset at a handful of fixed moments; a worker blocked in put while shutdown refills the slot, or a call landing between two statements, is not reached",
  [PF, SB], [("stop event plus freeing one slot plus join", PF)],
  [("_thread", "current background thread", PF)], ["is_running", "virtual time of each call", "simulated thread table"])

p("C03", "Reset restarts the stream cleanly",
  "After reset() at any moment of any history, a scheduler stack (file schedulers, episodic wrapper, prefetching wrapper) behaves like one freshly started on the same data: the next batches form a complete new pass (or whole new episodes) from its very beginning, and no batch, partial file or end-of-stream mark from before the reset is delivered. Without shuffling the new pass is identical to the first one; this also holds after a shutdown or an exhausted stream.",
  ["schedules", "histories", "configurations"],
  "every history of get/pause/reset/shutdown/next_episode calls, every interleaving with the prefetching worker, every stack and file kind",
  "tests reset mocked schedulers once or twice from a quiet state",
  [PF, BA, EP], [("join worker, clear queue, reset wrapped scheduler", PF), ("cursor and cache reset", BA)],
  [("index/_slice_idx", "position in the pass", BA)], ["get_batch results after reset"])

p("C04", "Episodic batches stay aligned in time",
  "Between two episode starts, row i of every batch of an episodic scheduler comes from one directory and advances by exactly one file of its sorted order per step, starting at a position that leaves room for the whole episode (every such position of every directory can come up); exactly episode_length batches are served, then EpisodeEnd until a new episode is started. steps_remaining always equals the number of batches still to come, for every history of get, next_episode and reset calls, also when several rows draw the same or adjacent files and when the wrapped scheduler shuffles or loops.",
  ["histories", "inputs", "configurations"],
  "every sequence of calls, every draw of starting positions (including equal and adjacent ones), directory sizes, batch sizes and episode lengths, directory enumeration orders",
  "the tests check two small data sets with one seed; whether consecutive entries of the interleaved list coincide depends on the random draw",
  [EP, BA], [("time-major interleaved file list", EP), ("one cached file at a time", BA)],
  [("_t", "step inside the episode", EP), ("_starts", "admissible starting positions", EP)],
  ["files and flow contents of each row"])

p("C05", "next_episode through the prefetcher never mixes episodes",
  "With prefetching over an episodic scheduler, next_episode() called after any number of steps, at any moment and under any loading delays or clock adjustments, makes the next episode_length batches one whole fresh episode starting at its first step: none of the abandoned episode's batches is served, none of the new one's is missing. Episodes are served in the order the wrapped scheduler produces them, each at most once.",
  ["schedules", "histories", "fault_sequences"],
  "every step at which the episode is abandoned, every worker progress at that moment, loading delays beyond the flush timeout, wall-clock jumps",
  "tests flush episodes of an instantaneous mock, so the discarding always finishes within its deadline",
  [PF, EP], [("discarding the rest of the episode from the queue", PF)],
  [("_t", "step inside the episode as seen by the consumer", PF)], ["row identities of the batches after next_episode"])

p("C06", "The sampler's done flag marks exactly the last step of an episode",
  "Over an episodic scheduler, prefetched or not, a sampler's done flag is a vector of batch_size equal entries that is True exactly on the episode_length-th batch of each episode and False before; the following next() raises EpisodeEnd, serving nothing, until next_episode() or reset(). This holds after any mixture of full episodes, abandoned episodes and resets, for the real-image and the synthetic sampler.",
  ["schedules", "histories", "configurations"],
  "every history of next/next_episode/reset, every worker schedule, both samplers, batches_per_flow_batch",
  "tests check the flag on one uninterrupted episode",
  [SB, SR, SS, PF, EP], [("steps_remaining() == 0 after each batch", SB)], [], ["batch.done", "EpisodeEnd"])

p("C07", "A pass serves every readable sample once, whatever files are damaged",
  "One pass of a non-looping file scheduler serves the slices of every readable entry of its file list, in list order (or in the shuffled order) and each exactly once; files that cannot be read at their turn (missing, truncated, garbage, empty, I/O or memory error) are skipped without disturbing their neighbours. A last incomplete batch is zero padded with mask False and empty file names on exactly the padded rows, after which StopIteration is raised on every call until reset. A file list assigned before a reset is the one the next pass serves.",
  ["inputs", "fault_sequences", "histories", "configurations"],
  "every file list (also with repeated entries), every subset of damaged files and moment of damage or repair, slices per file, batch size, file kind, images included or not",
  "tests use one damaged file at one position and lists without repetitions",
  [BA, NP, H5, MA], [("skip on load error", BA), ("padding and mask of the last batch", BA)],
  [("index", "next file of the pass", BA)], ["flow_fields, images, mask and files of each batch"])

p("C08", "Looping and shuffling permute passes without loss",
  "With loop enabled the stream is an endless sequence of passes, each containing every slice of every file exactly once with the slices of a file contiguous and in order; batches are always full with an all-True mask and may straddle passes. Without randomize each pass has list order; with randomize the order is a permutation that is redrawn for each pass and depends on the key.",
  ["histories", "inputs", "configurations"],
  "every file list, slice count, batch size, number of passes, key and reset pattern",
  "tests look at one or two wrap-arounds of one list",
  [BA], [("reset at wrap-around with reshuffle", BA)], [("key", "shuffling key", BA)], ["row identities over several passes"])

p("C09", "No scheduler call spins forever when nothing can be loaded",
  "If no file can be loaded or no file holds a slice, asking any scheduler stack for a batch ends with StopIteration or another exception after at most a bounded number of load attempts, also with loop enabled, and reset and shutdown still return. If files become readable again later, the scheduler serves them after a reset.",
  ["fault_sequences", "inputs", "configurations"],
  "every data set that is or becomes wholly unreadable or empty at any moment, looping or not, prefetched or not, episodic or not",
  "no test combines loop=True with unreadable data: it would hang",
  [BA, PF], [("bounded scan of the file list", BA)], [], ["steps and virtual time until the call returns"])

p("C10", "Errors of the wrapped scheduler reach the consumer",
  "If the wrapped scheduler fails with an exception while prefetching, the consumer receives all batches produced before it, in order, and then that exception; the failure never looks like a normal end of stream, is not lost, and does not hang the consumer. reset() afterwards restores normal service, and shutdown terminates.",
  ["fault_sequences", "schedules"],
  "every position and type of failure, every buffer fill level and interleaving at that moment",
  "no test lets the wrapped scheduler fail with anything but StopIteration",
  [PF], [("worker hands its exception to the consumer", PF)], [], ["exceptions raised by get_batch"])

p("C11", "The stream is a function of configuration, seed and calls only",
  "Two runs with the same data, configuration, seed and sequence of calls yield identical batches (flow fields, images, files, masks, parameters, and over episodic schedulers done flags), independent of thread timing, loading delays, buffer size, whether prefetching is used, directory enumeration order and interpreter hash seed.",
  ["schedules", "configurations", "fault_sequences"],
  "every thread schedule and delay sequence, buffer size, directory enumeration order, hash seed, process",
  "tests run in one process under one hash seed and one timing",
  [EP, PF, SS, UT, MK], [("explicit PRNG keys", MK), ("leaf directory discovery", UT)], [], ["digests of complete streams"])

p("C12", "Each flow batch feeds exactly batches_per_flow_batch image batches",
  "The synthetic sampler uses every batch of flow fields of its scheduler for exactly batches_per_flow_batch consecutive image batches, in scheduler order, each with fresh randomness (also from row to row and device to device); when the scheduler is exhausted or fails, that is what next() raises, on every further call while it persists, and no image batch is made from stale flow fields. If computing a batch fails (out of memory on the device), next() raises that error, and what follows is again made of one whole flow batch: the one in work or the next. Over an episodic scheduler, prefetched or not, every batch shows a new time step.",
  ["histories", "fault_sequences", "configurations"],
  "every history of next/reset/next_episode, scheduler failures at any call, batches_per_flow_batch, flow and image batch sizes",
  "tests exhaust a scheduler once and do not call next() again, and never let it fail in between",
  [SS], [("batch counter", SS)], [("_batches_generated", "image batches made from the current flows", SS)], ["flow_fields, images and exceptions per next()"])

p("C13", "Resetting a sampler replays the identical stream",
  "After reset() at any point, a sampler over an unshuffled scheduler produces bit-identical batches (images, flow fields, parameters, masks, files) to those it produced after construction, with or without prefetching. reset(scheduler_reset=False) restarts the image randomness and takes new flow fields from where the scheduler stands.",
  ["histories", "schedules"],
  "every point of reset, repeated resets, every worker schedule",
  "tests compare a single reset without concurrency",
  [SB, SS], [("PRNG and cursor reset", SS)], [("_rng", "image randomness", SS)], ["digests before and after reset"])

p("C14", "Updating a configuration file is atomic and preserves everything else",
  "A crash, full disk or I/O error at any point of updating a configuration file leaves on disk either the complete old or the complete new configuration, never a truncated, empty or unparsable one. After a successful update every key not updated still loads with its previous value and every updated key loads with its new value (for values the YAML library itself reads back as it wrote them).",
  ["crash_points", "fault_sequences", "inputs"],
  "every write, flush, sync, close and rename boundary, torn and short writes, ENOSPC/EIO at any call, configurations with strings, nulls, lists, booleans, numbers",
  "tests update one tidy file on a healthy disk",
  [SA], [("rewrite of the YAML file", SA)], [], ["the file's bytes after the crash, loaded again"])

p("C15", "Failed or interrupted downloads never pass for complete ones",
  "If a download fails (connection, server or disk) or its process is killed at any point, no file is left under the final name unless it is complete, a previously complete file is not damaged, success is not reported, and a later attempt can succeed: the class 2 builder resumes to a complete conversion, and the split lists come out complete and the same for the same seed. A list written and read back is the same list.",
  ["crash_points", "fault_sequences"],
  "every byte position at which connection, disk or process fails",
  "the download helpers have no tests",
  ["scripts/utils.py", "scripts/download_piv_2.py", "scripts/download_piv_1.py"], [("download helper", "scripts/utils.py"), ("skipping what was downloaded before", "scripts/download_piv_2.py")], [], ["files present after the failure"])

p("C16", "Concurrent consumers share one prefetched stream without loss or repetition",
  "When several threads call get_batch on one prefetching scheduler, including the very first call, each batch goes to exactly one of them, each thread sees its batches in stream order, all batches are delivered, and no call fails or hangs.",
  ["schedules"],
  "every interleaving of several consumers and the worker, also on the first call",
  "one test starts five threads and hopes for the best interleaving",
  [PF], [("lazy start of the worker", PF)], [("_started", "worker has been started", PF)], ["multiset of delivered batches"])

p("C17", "All parts of a row describe the same sample",
  "In every batch, row i's flow field, images, mask entry and file name describe the same sample: the named file holds that flow field (and images), and mask is False with an empty name exactly on padding. The sampler's mask and files have one entry per row of the batch, also when fewer flow fields than images are requested per batch and with several devices.",
  ["inputs", "configurations", "histories"],
  "every combination of batch size, flow fields per batch, device count, partial batches, file kinds, images included or not",
  "tests check shapes, or alignment for equal sizes only",
  [SS, SR, BA, NP, MA], [("tiling of flow fields over the batch", UT)], [], ["flow_fields, mask, files, images per row"])

p("C18", "Look-ahead is bounded by the buffer, and used",
  "A prefetching scheduler never loads more than buffer_size + 1 batches beyond those requested or discarded, whatever the consumer does; and while the consumer is idle it does load ahead until buffer_size batches are ready or the stream ends, so a consumer arriving later is served without waiting for the disk.",
  ["schedules", "histories"],
  "every interleaving and consumer pace, buffer size, resets and episode changes",
  "tests look at one buffer size in one quiet moment",
  [PF], [("bounded queue", PF)], [], ["loads started against batches requested; virtual time of get_batch"])

p("C19", "make() assembles a pipeline that honours its configuration",
  "For every valid configuration, the sampler built by make() serves data: prefetching, episodes, looping, shuffling and unequal flow and image batch sizes work in every combination. It covers the configured files, and the seed determines shuffling and episode choice: equal seeds give equal streams and different seeds give different ones.",
  ["configurations", "schedules", "inputs"],
  "the product of scheduler class, include_images, buffer_size, episode_length, loop, randomize, seed, batch_size, flow_fields_per_batch, batches_per_flow_batch, file or directory lists",
  "tests replace the schedulers by dummies and check arguments",
  [MK, NP, H5, MA], [("wiring of schedulers and sampler", MK)], [], ["batches of the assembled sampler"])

p("C20", "The speed panel reports and stores the true extreme speeds, or changes nothing",
  "When the sanity check's speed panel returns, it returns (max x, max y, min x, min y), which are the exact extremes of the first and second flow component over every flow field of every file in file_list; these four values, and no other change, are then in the configuration file. If all four were present already it returns those and neither reads flow files nor rewrites the configuration. If a listed file is missing, unreadable, damaged, wrongly shaped, empty or not finite, or the user declines, it raises, and nothing is stored before the user asked for the calculation. Whatever disk error or crash interrupts it, the configuration is afterwards the complete old or the complete new one. The command line check accepts a valid configuration in the same run that completed it.",
  ["inputs", "fault_sequences", "crash_points"],
  "every file list (repeated entries, 3-D and 4-D data, several number types), every subset of damaged files, presence of speeds in the configuration, answers, and disk error or crash at every file operation",
  "tests replace the calculation by a stub and use one pair of tidy files",
  [SA], [("running extremes over the files", SA), ("asking before calculating, storing and going on", SA)], [],
  ["returned tuple, configuration file and file operations of each call"])

p("C21", "Preparing a data set is all or nothing per sample, and can be repeated",
  "The data set builders turn every readable sample (flow and image triplet; TFRecord example, in whichever shard) into exactly one .mat file holding its flow field and images, and copy it into each split that lists it. A .mat under its final name is complete at every moment: a failed write, a full disk or a killed process leaves no partial one. A sample that cannot be read or written does not keep the others from being converted. Running the builder again once the faults have stopped gives exactly the data set an undisturbed run gives.",
  ["inputs", "fault_sequences", "crash_points"],
  "every raw tree (directories, .flo and .mat flows, damaged or missing parts, several shards per subset), split lists, and disk error, interrupt or process death at every file operation, over several runs",
  "the builders have no tests",
  ["scripts/download_piv_1.py", "scripts/download_piv_2.py", "scripts/utils.py"],
  [("packing and splitting", "scripts/download_piv_1.py"), ("conversion of TFRecord shards", "scripts/download_piv_2.py")], [],
  [".mat files in the output directories between any two disk operations and after each run"])

p("C22", "The command line pipeline saves what it made and always cleans up",
  "main.py saves, for every batch of the configured pipeline in stream order, the images of the first --visualize rows (or all, if fewer) under names with their batch and row number, before it asks whether to continue; it goes on exactly while the answer is y or Y, and without asking if nothing is to be shown, and stops at the end of the stream. However it ends (end of data, another answer, end of input, Ctrl-C at the question or while saving, a failed write), the sampler is shut down, no background thread outlives it, and an error is passed on, not hidden.",
  ["inputs", "schedules", "fault_sequences"],
  "every configuration, sequence of answers, interrupt and failed write at any save, under any worker schedule",
  "main.py has no tests",
  ["src/main.py", "src/synthpix/sampler/base.py"], [("main loop", "src/main.py")], [],
  ["files saved, questions asked and how main() ended", "live threads afterwards"])

p("C23", "Pipelines, delivered batches and observers do not disturb each other",
  "Any number of schedulers and samplers may live in one process, built from the same configuration or file list or over the same files, driven in turns or from a thread each: every one serves exactly what it serves when it is alone. A batch once handed out never changes again, and what a consumer writes into it does not show in any later batch. Asking for get_flow_fields_shape, len, file_list, steps_remaining, episode_length or is_running, at any moment and from any thread, is answered truthfully and has no effect on the stream, and the configuration mapping and file list given by the user are left as they were.",
  ["schedules", "histories", "configurations"],
  "every number of pipelines of any kind over shared or separate files, every interleaving of their calls and workers, every consumer that writes into the batches it got",
  "tests build one pipeline at a time and look at each batch once",
  [BA, NP, H5, MA, PF, EP, MK], [("one cached file per scheduler, copied into each batch", BA), ("bounded queue filled by a background thread", PF)],
  [("_cached_data", "the file in use", BA)], ["batches of each pipeline, compared with those it serves alone", "kept batches, looked at again at the end"])

# --- pure functions: listed, not claimed -----------------------------------
p("N01", "Generated images have the right shape, finite values and valid intensity",
  "For every valid specification the generated image pairs have the requested shape, are finite and lie in the representable intensity range, and masked pixels are zero.",
  ["inputs"], "every valid image specification, flow field and PRNG key",
  "tests sample some specifications", [DG, "src/synthpix/generate.py"], [("image synthesis", DG)])
p("N02", "Particles move with the flow",
  "The second image of a pair shows the particles of the first displaced by the flow field times dt, with the flow sampled in consistent units.",
  ["inputs"], "every flow field, resolution, dt and offset", "tests sample some flows",
  ["src/synthpix/apply.py", DG], [("advection", "src/synthpix/apply.py")])
p("N03", "Output flow fields agree with the images in units and position",
  "The adapted flow field covers exactly the image area, at the requested density and in the requested units.",
  ["inputs"], "every geometry (offset, resolution, padding, speeds)", "tests sample some geometries", [UT], [("flow field adapter", UT)])
p("N04", "Histogram matching yields exactly the requested histogram",
  "After histogram matching an image's histogram equals the configured one.",
  ["inputs"], "every image and histogram", "tests sample some histograms", ["src/synthpix/data_generate.py"], [("histogram matching", DG)])
p("N05", "Invalid configurations are rejected with an error",
  "Every out-of-range or ill-typed parameter of samplers, schedulers and the generation specification is rejected at construction.",
  ["inputs", "configurations"], "every parameter value", "tests sample some values", ["src/synthpix/types.py", SS, MK], [("validation", "src/synthpix/types.py")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
