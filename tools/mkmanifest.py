#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAY = "TLA+ specification (DyscoStore) model-checked with TLC; behaviours generated by TLC are replayed on the real storage manager and the recorded traces are validated with TLC"
N = "Every history explored is decided by the specification; which histories are explored is sampled by TLC's simulation mode (bounded tables of at most 24 rows, 60 calls). Trusts casacore, TLC and the driver's recognition of cell contents. "
C = {
 "C01": (REPLAY, N),
 "C02": (REPLAY, N),
 "C03": (REPLAY, N),
 "C04": (REPLAY + ", under controlled thread schedules", N + "Schedules are sampled (random, PCT, starving and adversarial policies); preemption at synchronisation and file operations."),
 "C05": (REPLAY + ", under controlled thread schedules with deadlock and livelock detection", N + "Schedules are sampled; the bound on queued blocks is measured with the encoding threads frozen."),
 "C06": ("TLA+ specification of the file as bytes (FileFormat), round trip model-checked with TLC; files generated by TLC are decoded by the real code and files written by the real code are decoded by the specification, in TLC", "Sampled settings and geometries (at most 4 columns, 6 rows, 5 channels, 4 polarizations, 3 blocks) with all distributions, normalizations and bit counts; levels are those of an independent computation (golden/levels.json); blocks beyond 4 GB on one sparse file."),
 "C07": ("TLA+ specification of acceptable files (FileFormat); every truncation of generated headers and every wrong version, column count and settings code is opened with the real code and the outcome is validated by TLC", "All truncation points of a few dozen generated headers; a file of acceptable form but inconsistent geometry is outside the property."),
 "C09": ("TLA+ specification (Packing) enumerated by TLC; every symbol array it yields is packed and unpacked by the real code and the bytes are validated by TLC", "All lengths up to a multiple of the packing groups and structured symbol values; trusts TLC and the guard-byte driver."),
 "C10": ("TLA+ specification (Quantizer) of the encoder on ordered level tables; symbols of the real encoders for values on, next to and between levels are validated by TLC", "Level tables, values and dither values are enumerated (boundaries, neighbouring floats, midpoints, extremes), not all 2^32 floats."),
 "C11": ("TLA+ specification (Quantizer) of the dithering threshold and its exact count over the dither range; thresholds of the real encoders found by bisection are validated by TLC, tables are judged by their averages", "The threshold of each value is exact; independence of samples and threads is judged on whole tables with a fixed statistical margin."),
 "C12": ("TLA+ specification (Normalization) in max-plus arithmetic; data sets with flag patterns generated by TLC are stored and read by the real code and scale factors and values are validated by TLC", "Sampled data sets of powers of two (2-5 antennas, 1-5 channels, 1-4 polarizations). The scale of AF is judged where the unflagged samples form a full set of antennas and channels."),
 "C13": ("TLA+ specification (Normalization) in max-plus arithmetic; data sets with structured dynamic range generated by TLC are stored and read by the real code and scale factors and values are validated by TLC", "Sampled data sets of powers of two (2-5 antennas, 1-5 channels, 1-4 polarizations); gains within 2^10; AF scale up to a factor 2^6."),
 "C14": ("TLA+ specification (WeightBlock) model-checked with TLC; tables of weights generated by TLC are stored, updated and read by the real code, and symbols and values are validated by TLC", "Integer weights up to 8191 times a power of two over the whole float range; blocks of at most 7 rows, 8 channels, 4 polarizations."),
 "C17": (REPLAY, N),
 "C18": (REPLAY, N),
 "C08": ("TLA+ specification of the settings and their persistence (Settings), model-checked with TLC; every combination TLC enumerates is created by each route, reopened, copied and reported by the real code, and what it reports and how it stores values is validated by TLC", "All combinations of supported bit counts, distribution, normalization and route; parameters and names from small sets of structured values."),
 "C15": ("TLA+ specification of the tools (Tools), model-checked with TLC; measurement sets and command lines generated by TLC are given to the real dscompress and the contents before and after are validated by TLC", "Sampled measurement sets of at most 3 time blocks, 4 antennas, 3 channels; values stay within the quantization error allowed by the specification of the settings."),
 "C16": ("TLA+ specification of the tools (Tools), model-checked with TLC; measurement sets and command lines generated by TLC are given to the real decompress and the contents before and after are validated by TLC", "Sampled measurement sets of at most 3 time blocks, 4 antennas, 3 channels, including ones compressed by dscompress before."),
 "C19": ("TLA+ specification of reproducible storage (Reproducible) model-checked with TLC; histories generated by TLC are run by the real code under many controlled schedules and processor counts and the file digests are validated by TLC", N + "Schedules are sampled (random, PCT, starving policies, real threads)."),
 "C21": ("TLA+ specification of the acceptable settings and columns (Settings); all creation calls that TLC enumerates are made with the real code and the outcomes are validated by TLC", "All bit counts 0..32 and some larger, all distribution and normalization names, all casacore types, kinds and cell shapes up to three dimensions, and a set of column names."),
 "C20": (REPLAY, N),
 "C22": ("TLA+ specification of the file under refused operations (Faults, model-checked with seeded design errors); histories simulated from DyscoStore are replayed on the real code while chosen write and read operations are refused, and the recorded traces are validated by TLC (FaultTrace)", "Histories are sampled; the refused operation is the last, the one before it, the first or a random one."),
 "C23": ("TLA+ specification of in-place updates with a kill after every step (Crash, model-checked with seeded design errors); histories simulated from DyscoStore are replayed on the real code, the process is killed at chosen operations, and what the next process finds is validated by TLC (CrashTrace)", "Histories and kill points are sampled; the operating system keeps what it was given."),
}
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
import importlib.util
m = dict(version=1, setup_cmd="python3 tools/setup.py",
         checks=[dict(property=p["id"], quick_cmd="python3 check.py " + p["id"], thorough_cmd="python3 check.py %s --thorough" % p["id"],
                      technique=C[p["id"]][0], level="model_checking", level_note=C[p["id"]][1]) for p in props if p["id"] in C],
         not_applicable=[dict(property=p["id"], reason="no check has been built for it yet") for p in props if p["id"] not in C])
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
