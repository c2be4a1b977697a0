"""Running repository transforms over a generic element (proof) or over real
Beam collections (replay and run-time contracts)."""
import logging


def prepare(E, *ptransform_fns):
    if E.symbolic:
        from pyvc import models_beam
        models_beam.install(E.interp)
        for f in ptransform_fns:
            models_beam.ptransform_fn(E.interp, f)


def coll(E, *items):
    from pyvc import models_beam
    return models_beam.Coll(items)


def run(transform, elements):
    """elements | transform on the real runner, as a list."""
    logging.disable(logging.WARNING)
    return list(list(elements) | transform)


def run_many(build, *inputs):
    """build(pcolls) -> dict of PCollections or one; materialised as lists."""
    import apache_beam as beam
    logging.disable(logging.WARNING)
    out = {}

    _SINK.clear()
    with beam.Pipeline() as p:
        pcs = [p | f"in{i}" >> beam.Create(list(xs)) for i, xs in enumerate(inputs)]
        res = build(p, *pcs)
        for n, pc in res.items():
            pc | f"keep{n}" >> beam.Map(_keep, n)
    out = {n: list(_SINK.get(n, [])) for n in res}
    return out


_SINK = {}


def _keep(x, name):
    _SINK.setdefault(name, []).append(x)
    return x
