"""Which world decides which property, and how much is run per tier."""

# property -> (world module, quick runs, thorough runs)
PROPS = {
    "C01": ("w_prefetch", 4500, 90000),
    "C02": ("w_prefetch", 5000, 150000),
    "C03": ("w_prefetch", 4500, 90000),
    "C04": ("w_files", 4500, 90000),
    "C05": ("w_prefetch", 4000, 90000),
    "C06": ("w_sampler", 1800, 30000),
    "C07": ("w_files", 5500, 120000),
    "C08": ("w_files", 3600, 90000),
    "C09": ("w_files", 5600, 120000),
    "C10": ("w_prefetch", 7000, 200000),
    "C11": ("w_sampler", 1200, 20000),
    "C12": ("w_sampler", 1900, 30000),
    "C13": ("w_sampler", 1200, 20000),
    "C14": ("w_disk", 6000, 150000),
    "C15": ("w_disk", 12000, 300000),
    "C16": ("w_prefetch", 4500, 150000),
    "C17": ("w_sampler", 1800, 30000),
    "C18": ("w_prefetch", 4500, 120000),
    "C19": ("w_sampler", 900, 15000),
    "C20": ("w_data", 4500, 150000),
    "C21": ("w_data", 2400, 80000),
    "C22": ("w_sampler", 1200, 20000),
    "C23": ("w_iso", 2400, 40000),
}

ENV = {
    "JAX_PLATFORMS": "cpu",
    "PYTHONDONTWRITEBYTECODE": "1",
    "PYTHONUNBUFFERED": "1",
    "TF_CPP_MIN_LOG_LEVEL": "3",
    "XLA_FLAGS": "--xla_force_host_platform_device_count=4 --xla_cpu_multi_thread_eigen=false",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
}


def world(prop):
    import importlib

    return importlib.import_module("sim." + PROPS[prop][0])


_SCHED = ["BaseFlowFieldScheduler", "NumpyFlowFieldScheduler", "HDF5FlowFieldScheduler", "MATFlowFieldScheduler"]
_DISK = ["numpy, h5py, scipy and PIL decoding of real files in a scratch directory"]
_THR = ["stdlib threading and queue sources, executed over the simulated _thread and time modules"]
_PF_REAL = ["PrefetchingFlowFieldScheduler", "EpisodicFlowFieldScheduler"] + _SCHED + _THR + _DISK
_STUB = ["OS thread scheduler and locks (one seeded decision per scheduling point)",
         "clocks and timers (virtual time)", "disk latency and errors (seam in front of the decoders)",
         "goggles logger (silent)"]
_SCRIPTED = ["in part of the runs the wrapped scheduler (scripted: batches and failures by number)"]
_SMP_REAL = ["SyntheticImageSampler with its compiled JAX image generation and flow field adapter on 1 to 3 simulated host devices",
             "RealImageSampler"] + _PF_REAL
_SMP_STUB = _STUB + ["jax.jit (samplers of one configuration share their compiled functions)"]

INFO = {}
for _p in ("C01", "C02", "C03", "C05", "C10", "C16", "C18"):
    INFO[_p] = {"real": _PF_REAL, "stub": _STUB + _SCRIPTED}
for _p in ("C04", "C07", "C08", "C09"):
    INFO[_p] = {"real": _PF_REAL, "stub": list(_STUB)}
for _p in ("C06", "C13", "C17"):
    INFO[_p] = {"real": _SMP_REAL, "stub": list(_SMP_STUB)}
INFO["C12"] = {"real": _SMP_REAL, "stub": _SMP_STUB + _SCRIPTED}
for _p in ("C11", "C19"):
    INFO[_p] = {"real": ["synthpix.make.make from dictionaries and YAML files"] + _SMP_REAL, "stub": list(_SMP_STUB)}
INFO["C11"]["hashseeds"] = True
INFO["C23"] = {"real": ["synthpix.make.make"] + _SMP_REAL, "stub": list(_SMP_STUB)}
INFO["C22"] = {"real": ["src/main.py", "synthpix.make.make from YAML files"] + _SMP_REAL,
               "stub": _SMP_STUB + ["matplotlib.pyplot (records what is saved, fails on demand)", "input()",
                                    "goggles' console handler and finish()"]}
INFO["C14"] = {
    "real": ["sanity.update_config_file, sanity.missing_speeds_panel", "goggles.load_configuration and ruamel.yaml",
             "Python's text and buffer layers, tempfile, shutil, pathlib"],
    "stub": ["the operating system's file calls (real files behind a seam that fails, tears or drops them)",
             "power failure (surviving state computed from a journal of writes, syncs and renames)", "input()"],
    "technique": "crash points and disk faults at every file operation",
    "measure": "blake2b digest of the operation log: every disk operation, outcome and surviving state",
}
INFO["C15"] = {
    "real": ["scripts/utils.py, scripts/download_piv_2.main, scripts/download_piv_1.fetch_splits",
             "urllib.request, http.client, zipfile", "Python's text and buffer layers, shutil, pathlib"],
    "stub": ["sockets and server (simulated network)", "TLS (passed through)",
             "the operating system's file calls (real files behind a seam that fails, tears or drops them)",
             "tensorflow and gdown (not installed)", "download_piv_2.process_tfrecord (records what it is given)"],
    "technique": "crash points, network faults and disk faults at every operation",
    "measure": "blake2b digest of the operation log: every disk operation, outcome and surviving state",
}
INFO["C20"] = {
    "real": ["sanity.missing_speeds_panel, calculate_min_and_max_speeds and update_config_file",
             "goggles.load_configuration and ruamel.yaml", "HDF5 and h5py decoding of real files"],
    "stub": ["the operating system's file calls (real files behind a seam that fails, tears or drops them)",
             "power failure (surviving state computed from a journal of writes, syncs and renames)", "input()"],
    "technique": "crash points, damaged files and disk faults at every file operation",
    "measure": "blake2b digest of the operation log: every disk operation, outcome and surviving state",
}
INFO["C21"] = {
    "real": ["scripts/download_piv_1.main (convert, pack_triplet, perform_split)",
             "scripts/download_piv_2.main and process_tfrecord", "zipfile, PIL, scipy.io, HDF5 in memory through h5py",
             "Python's text and buffer layers, shutil, pathlib"],
    "stub": ["the operating system's file calls (real files behind a seam that fails or tears them)",
             "HDF5's own file driver (the finished image is written through the seam)",
             "tensorflow (TFRecord framing and a private encoding of examples)", "gdown and the network (not reached)"],
    "technique": "crash points, damaged files and disk faults at every file operation",
    "measure": "blake2b digest of the operation log: every disk operation, outcome and surviving state",
}
