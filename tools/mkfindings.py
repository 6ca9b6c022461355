"""Writes known_findings.json (edited by hand here; never written by a check)."""
import json
import os

FIXED = [
    ("C01", "95a50e3", "the end-of-stream signal dropped buffered batches when the queue was full"),
    ("C02", "301483f", "the prefetch worker stayed blocked in put() after shutdown() or reset() and leaked"),
    ("C03", "301483f", "a worker left over from before reset() could go on beside the new one"),
    ("C16", "79100f4", "two concurrent first get_batch() calls started the worker twice"),
    ("C10", "e52fb2f", "an exception of the wrapped scheduler ended the stream silently"),
    ("C05", "8c702e7", "batches of the abandoned episode were served after a flush that outlasted join_timeout"),
    ("C07", "a4d0c0d", "the second of two equal adjacent entries of a file list was skipped"),
    ("C04", "a4d0c0d", "rows of an episode drawing the same file lost a step"),
    ("C09", "25c2f17", "loop=True over unloadable or empty files spun forever"),
    ("C07", "633622a", "an incomplete last batch with colour images raised instead of being padded"),
    ("C04", "2d9ffea", "a randomized wrapped scheduler shuffled the time-major list of an episode"),
    ("C11", "895b2c8", "leaf directories were enumerated in an order that depends on the hash seed"),
    ("C19", "39ae4e1", "HDF5 schedulers rejected directories, which make() documents"),
    ("C17", "f7ac8e1", "MAT images were resized to (width, height)"),
    ("C07", "8e4208e", "a file whose images cannot be read made every later get_batch() fail"),
    ("C12", "707703f", "stale flow fields were reused after the scheduler failed or ended"),
    ("C12", "cbed9ef", "with a prefetched episodic scheduler each flow batch was used several times"),
    ("C17", "8653577", "mask and files had one entry per flow field instead of one per image row"),
    ("C19", "ec36b03", "make() prefetched batch_size instead of flow_fields_per_batch flow fields"),
    ("C19", "ebca564", "the seed given to make() never reached the file schedulers"),
    ("C15", "001148a", "an interrupted download left a truncated file under its final name"),
    ("C14", "bf44ac2", "a crash while updating a configuration file left it truncated; strings were rewritten"),
    ("C21", "57ee3a4", "a failed or interrupted conversion left a partial .mat which was then copied into the splits"),
    ("C21", "c6b3688", "the samples of one TFRecord shard overwrote those of the shard before"),
    ("C20", "7646a12", "a NaN made the speed panel ignore all other speeds of its file"),
    ("C12", "a14b6a4", "after a failed flow field adaptation images were paired with the flow fields of the batch before"),
    ("C20", "0b283f9", "python -m synthpix.sanity rejected the configuration it had just completed"),
    ("C02", "8aa7b52", "the worker of a prefetcher that was deleted without shutdown() was never ended"),
    ("C07", "aa83a65", "directories with glob characters in their names were taken for patterns and their files left out"),
    ("C21", "aa83a65", "nothing was converted below a directory with glob characters in its name"),
    ("C19", "fecd52a", "make() without a seed, documented as optional (default 0), failed for synthetic images"),
    ("C11", "fefbaca", "the stream after reset() depended on how far the worker had prefetched"),
]
FINDINGS = [
    {"property": "C04", "kind": "unreadable-file-shifts-rows", "scenario": {"unreadable": True},
     "what": "a file inside a running episode that cannot be read is skipped by the wrapped scheduler, so that every "
             "later row of the episode shows the file of the row behind it (EpisodicFlowFieldScheduler.get_batch over "
             "a .mat scheduler, no loop, one file failing with EIO)"},
]
with open(os.path.join(os.path.dirname(__file__), "..", "known_findings.json"), "w") as f:
    json.dump({"findings": FINDINGS,
               "fixed": [f"fixed: property={p} {c} {w}" for p, c, w in FIXED]}, f, indent=1)
    f.write("\n")
