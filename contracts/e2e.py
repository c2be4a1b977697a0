"""Whole-pipeline runs used as bounded run-time contracts (never counted as
proved): the real AnalyzeAndTransformDataset on a small generated data set."""
import os
import shutil
import tempfile

import numpy as np


def scratch():
    base = os.environ.get("PYVC_SCRATCH") or tempfile.gettempdir()
    return tempfile.mkdtemp(prefix="pyvc_", dir=base)


def analyze_transform(pfn, rows, spec, batch_size=None, dense_out=True, transform_rows=None):
    """-> (list of instance dicts, transformed metadata)."""
    import tensorflow_transform.beam as tft_beam
    from tensorflow_transform.tf_metadata import dataset_metadata
    md = dataset_metadata.DatasetMetadata.from_feature_spec(spec)
    tmp = scratch()
    try:
        with tft_beam.Context(temp_dir=tmp, desired_batch_size=batch_size):
            if transform_rows is None:
                (data, tm), _ = (rows, md) | tft_beam.AnalyzeAndTransformDataset(pfn)
            else:
                fn = (rows, md) | tft_beam.AnalyzeDataset(pfn)
                data, tm = ((transform_rows, md), fn) | tft_beam.TransformDataset()
            deferred = getattr(tm, "deferred_metadata", None)
            return list(data), deferred[0] if deferred else tm
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def split(r, xs, kmax=4):
    """A random cut of xs into consecutive (possibly empty) batches."""
    k = r.randint(1, kmax)
    cuts = sorted(r.randint(0, len(xs)) for _ in range(k - 1))
    out, last = [], 0
    for c in cuts + [len(xs)]:
        out.append(xs[last:c])
        last = c
    return out


def merge_tree(r, comb, accs):
    """Merges accumulators in a random tree shape and order."""
    accs = list(accs)
    while len(accs) > 1:
        r.shuffle(accs)
        k = r.randint(2, len(accs))
        m = comb.merge_accumulators(accs[:k])
        accs = accs[k:] + [m]
    return accs[0]


def accumulate(r, comb, batches):
    """Feeds batches (already reduced) through add_input/merge in random
    grouping, with the odd empty accumulator thrown in."""
    accs = []
    i = 0
    while i < len(batches):
        acc = comb.create_accumulator()
        k = r.randint(1, 2)
        for b in batches[i:i + k]:
            acc = comb.add_input(acc, b)
        i += k
        if r.random() < 0.3 and hasattr(comb, "compact"):
            acc = comb.compact(acc)
        accs.append(acc)
    for _ in range(r.choice([0, 0, 1, 2])):
        accs.insert(r.randint(0, len(accs)), comb.create_accumulator())
    if not accs:
        accs = [comb.create_accumulator()]
    return merge_tree(r, comb, accs) if len(accs) > 1 else comb.merge_accumulators(accs)
