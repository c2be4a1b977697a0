"""C18: nested contexts inherit unset options and restore on exit."""
import os
import threading

import tensorflow as tf

from tensorflow_transform import tf2_utils
from tensorflow_transform.beam import common, context
from tensorflow_transform.beam.context import Context
from pyvc.harness import unit, Raised

P = "C18"
OPTIONS = ["temp_dir", "desired_batch_size", "passthrough_keys", "use_deep_copy_optimization", "force_tf_compat_v1", "save_options"]
# values an option may be set to, among them the ones that are false
VALUES = {"temp_dir": ["/t/one", "/t/two", "/t/three"], "desired_batch_size": [5, 2 ** 40, 0], "passthrough_keys": [{"a"}, set(), {"b", "c"}],
          "use_deep_copy_optimization": [True, False, True], "force_tf_compat_v1": [False, True, False],
          "save_options": [tf.saved_model.SaveOptions(), tf.saved_model.SaveOptions(experimental_io_device="/job:localhost"), tf.saved_model.SaveOptions()]}
DEFAULTS = {"desired_batch_size": None, "passthrough_keys": set(), "use_deep_copy_optimization": False, "force_tf_compat_v1": False, "save_options": None}
GETTERS = {"desired_batch_size": "get_desired_batch_size", "passthrough_keys": "get_passthrough_keys", "save_options": "get_save_options",
           "use_deep_copy_optimization": "get_use_deep_copy_optimization", "force_tf_compat_v1": "_get_force_tf_compat_v1"}
same = lambda a, b: a is b or (type(a) is type(b) and a == b and not isinstance(a, tf.saved_model.SaveOptions))


def stack_of(E, top):
    """An arbitrary stack of option frames with the given top frame: the part
    below is one token that stands for any number of frames."""
    st = Context._StateStack()
    f = Context._State(**top) if top is not None else Context._State(*(None,) * 6)
    below = [E.rest] * E.choice("below", [1, 9]) if top is not None else []
    st.frames = below + [f]
    return st, f


class Below:
    """Frames below the top one; nothing may be read from them."""

    def __getattr__(self, n):
        raise AssertionError("an option of a frame below the innermost one was read")


def local(state):
    t = type("Local", (), {})()
    if state is not None:
        t.state = state
    return t


@unit(P, "entering and leaving a context", [Context.__enter__, Context.__exit__, Context.__init__, Context._get_topmost_state_frame,
                                       Context.get_desired_batch_size, Context.get_passthrough_keys, Context.get_use_deep_copy_optimization,
                                       Context._get_force_tf_compat_v1, Context.get_save_options], conc=0, max_paths=9000, max_s=120)
def entering(E):
    """For every stack of frames: entering pushes one frame in which every
    option is the explicitly set one or that of the frame below, leaving takes
    exactly that frame away, and each getter reads its option of the top frame."""
    E.rest = Below()
    start = E.choice("thread", ["has frames", "only the base frame", "fresh"])
    which = E.choice("option", OPTIONS)
    mine, others = E.choice("explicit", [None, 0, 1, 2]), E.choice("explicit others", [None, 1])
    last, lothers = (E.choice("inherited", [None, 0, 2]), E.choice("inherited others", [None, 2])) if start == "has frames" else (None, None)
    pick = lambda o, i: None if i is None else VALUES[o][i]
    given = {o: pick(o, mine if o == which else others) for o in OPTIONS}
    if given["desired_batch_size"]:
        given["desired_batch_size"] = E.int("batch size", 1)
    outer = {o: pick(o, last if o == which else lothers) for o in OPTIONS}
    st, top = stack_of(E, outer) if start == "has frames" else stack_of(E, None)
    tl = local(None if start == "fresh" else st)
    E.stub(Context, "_thread_local", tl)
    size = len(st.frames)
    c = E.new(Context, **given)
    st = tl.state
    before = list(st.frames)
    E.check("making a context changes no option", start == "fresh" or (len(before) == size and before[-1] is top))
    E.call(Context.__enter__, c)
    now = st.frames
    E.check("one frame is pushed", len(now) == len(before) + 1 and all(a is b for a, b in zip(now, before)))
    for o in OPTIONS:
        want = given[o] if given[o] is not None else outer[o]
        E.check(o + ": explicit, else inherited", getattr(now[-1], o) is want, f"{getattr(now[-1], o)} want {want}")
        if o in GETTERS:
            got = E.call(getattr(Context, GETTERS[o]))
            E.check(o + ": reported, else the default", same(got, DEFAULTS[o] if want is None else want), f"{got}")
    r = E.call(Context.__exit__, c, *E.choice("leaving", [(None, None, None), (ValueError, ValueError("x"), None), (GeneratorExit, GeneratorExit(), None), (KeyboardInterrupt, KeyboardInterrupt(), None)]))
    E.check("exceptions pass through", not r)
    E.check("the frames are those before", len(tl.state.frames) == len(before) and all(a is b for a, b in zip(tl.state.frames, before)))


@unit(P, "the temporary directory", [Context.create_base_temp_dir, common.get_unique_temp_path], conc=0)
def temp(E):
    E.rest = Below()
    d = E.choice("temp_dir", [None, "/t/one", "/t/one/two"])
    st, _ = stack_of(E, {"temp_dir": d})
    E.stub(Context, "_thread_local", local(st))
    made = []
    E.stub(tf.io.gfile, "makedirs", made.append)
    r = E.attempt(Context.create_base_temp_dir)
    if d is None:
        E.check("a directory is required where one is used", isinstance(r, Raised) and isinstance(r.exc, ValueError) and not made)
        return
    E.check("created inside the directory in force", made == [r] and os.path.dirname(r) == d and r != d)
    a, b = E.call(common.get_unique_temp_path, r), E.call(common.get_unique_temp_path, r)
    E.check("unique per request", a != b and os.path.dirname(a) == r and os.path.dirname(b) == r)


@unit(P, "compatibility mode is the option, else that of the environment", [Context.get_use_tf_compat_v1, tf2_utils.use_tf_compat_v1], conc=0)
def compat(E):
    E.rest = Below()
    f = E.choice("force", [None, True, False])
    st, _ = stack_of(E, {"force_tf_compat_v1": f})
    E.stub(Context, "_thread_local", local(st))
    r = E.call(Context.get_use_tf_compat_v1)
    E.check("mode", r == (f is True), f"{r}")


def program(r, depth=0):
    """A program of nested contexts: (options, body, raises)."""
    out = []
    for _ in range(r.randint(0 if depth else 1, 3 if depth < 3 else 0)):
        opts = {o: r.randrange(3) for o in OPTIONS if r.random() < 0.35}
        out.append((opts, program(r, depth + 1) if depth < 4 else [], r.random() < 0.25, r.random() < 0.15))
    return out


@unit(P, "programs of nested contexts, exceptions and threads", [Context], sym=False,
      bounded="generated programs, up to 5 levels deep, 2 threads", conc=120, conc_s=8)
def programs(E):
    made = []
    E.stub(tf.io.gfile, "makedirs", made.append)
    prog = E.gen("program", program)
    fails = []

    def look(env):
        for o, g in GETTERS.items():
            got, want = getattr(Context, g)(), env.get(o)
            if not same(got, DEFAULTS[o] if want is None else want):
                fails.append(f"{o}: {got}, want {want}")
        try:
            got = os.path.dirname(Context.create_base_temp_dir())
        except ValueError:
            got = None
        if got != env.get("temp_dir"):
            fails.append(f"temp_dir: {got}, want {env.get('temp_dir')}")

    def run(prog, env):
        look(env)
        for opts, body, boom, thread in prog:
            vals = {o: VALUES[o][i] for o, i in opts.items()}
            inner = {**env, **vals}
            try:
                c = Context(**vals)
                look(env)
                with c:
                    look(inner)
                    if thread:
                        # another thread starts from the defaults
                        t = threading.Thread(target=run, args=(body, {}))
                        t.start()
                        t.join()
                    run(body, inner)
                    look(inner)
                    if boom:
                        raise KeyError("boom")
            except KeyError:
                pass
            look(env)
    base = []
    t = threading.Thread(target=lambda: base.append(run(prog, {})))
    t.start()
    t.join()
    E.check("the program ran to its end", len(base) == 1)
    E.check("options in force", not fails, "; ".join(fails[:3]))


@unit(P, "deeply nested contexts", [Context], sym=False, bounded="up to 40 nested contexts", conc=30, conc_s=4)
def deep(E):
    chain, boom = E.gen("contexts", lambda r: ([{o: r.randrange(3) for o in OPTIONS if r.random() < 0.2} for _ in range(r.randint(5, 40))],
                                               r.choice([None, KeyError, GeneratorExit, KeyboardInterrupt, StopIteration])))
    fails = []

    def look(env):
        for o, g in GETTERS.items():
            got, want = getattr(Context, g)(), env.get(o)
            if not same(got, DEFAULTS[o] if want is None else want):
                fails.append(f"{o}: {got}, want {want}")

    def run(i, env):
        if i == len(chain):
            if boom:
                raise boom("left")
            return
        vals = {o: VALUES[o][k] for o, k in chain[i].items()}
        try:
            with Context(**vals):
                look({**env, **vals})
                run(i + 1, {**env, **vals})
        finally:
            look(env)

    def whole():
        try:
            run(0, {})
        except BaseException:
            pass
        look({})
    t = threading.Thread(target=whole)
    t.start()
    t.join()
    E.check("options in force", not fails, "; ".join(fails[:3]))


@unit(P, "a context can be entered again", [Context.__enter__, Context.__exit__], sym=False, bounded="two uses of one context", conc=20, conc_s=3)
def reentered(E):
    a, b = [E.gen(n, lambda r: r.choice(VALUES["desired_batch_size"] + [None])) for n in "ab"]
    seen = []

    def run():
        c = Context(desired_batch_size=a)
        for outer in (None, b):
            with Context(desired_batch_size=outer):
                with c:
                    seen.append(Context.get_desired_batch_size() == (a if a is not None else outer))
                    with c:
                        seen.append(Context.get_desired_batch_size() == (a if a is not None else outer))
                    seen.append(Context.get_desired_batch_size() == (a if a is not None else outer))
                seen.append(Context.get_desired_batch_size() == outer)
    t = threading.Thread(target=run)
    t.start()
    t.join()
    E.check("options in force", seen == [True] * 8, str(seen))


@unit(P, "temporary paths are unique per request", [common.get_unique_temp_path], sym=False, bounded="200 requests", conc=2)
def unique(E):
    base = E.choice("base", ["/t", "relative/dir"])
    got = [common.get_unique_temp_path(base) for _ in range(200)]
    E.check("unique", len(set(got)) == 200)
    E.check("inside the base directory", all(os.path.dirname(p) == base for p in got))
