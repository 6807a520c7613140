"""C01: backend switching is complete and all-or-nothing."""
import importlib
import os
import shutil
import sys
import tempfile

import numpy as np

from mc.core import Chooser, Stats, Violation, explore_bfs, explore_dfs

PACKAGE_XP = [
    "gwpopulation.hyperpe", "gwpopulation.models.interped", "gwpopulation.models.mass",
    "gwpopulation.models.redshift", "gwpopulation.models.spin", "gwpopulation.utils",
    "gwpopulation.vt", "gwpopulation.experimental.cosmo_models",
]
PACKAGE_SCS = ["gwpopulation.models.mass", "gwpopulation.utils"]

BRITTLE = """
import mcplug_faults
if mcplug_faults.flags.get(__name__):
    raise {error}("the plugin cannot be imported right now")
"""
PLUGIN = {
    "mcplug_faults.py": "flags = dict()\n",
    "mcplug/__init__.py": "",
    "mcplug/foo.py": "import numpy as xp\nimport scipy.special as scs\nx = lambda: xp.ones(2)\n",
    "mcplug/bar.py": "",
    "mcplug/baz.py": "",
    "mcplug/brittle_xp.py": BRITTLE.format(error="ImportError"),
    "mcplug/brittle_scs.py": BRITTLE.format(error="RuntimeError"),
    "mcplug/brittle_other.py": BRITTLE.format(error="ModuleNotFoundError"),
}
# module -> registered functions
OTHERS = {
    "mcplug.bar": ["scipy.linalg.toeplitz", "scipy.special.gammaln", "numpy.linalg.norm", "numpy.fft.fft"],
    "mcplug.baz": ["scipy.linalg.toeplitz", "numpy.cumsum", "scipy.spatial.transform.Rotation", "scipy.sparse.linalg.cg"],
    "mcplug.foo": ["scipy.stats.norm"],
    "mcplug.brittle_other": ["scipy.linalg.solve"],
}
PLUGIN_XP = ["mcplug.foo", "mcplug.baz", "mcplug.brittle_xp"]
PLUGIN_SCS = ["mcplug.foo", "mcplug.brittle_scs", "mcplug.baz"]
# what the plugin registers: the groups of entry points it declares
VARIANTS = {"none": (), "xp": ("xp",), "scs": ("scs",), "other": ("other",), "full": ("xp", "scs", "other")}
# a stand-in for cupy that computes with numpy
CUPY = {
    "cupy/__init__.py": """
import mcplug_faults
if mcplug_faults.flags.get("cupy"):
    raise ImportError("libcuda not found")
import numpy
__all__ = []
class ndarray:
    pass
def __getattr__(name):
    return getattr(numpy, name)
""",
    "cupy/linalg.py": "from numpy.linalg import norm\n",
    "cupy/fft.py": "from numpy.fft import fft\n",
    "cupyx/__init__.py": "",
    "cupyx/scipy/__init__.py": "from . import special\n",
    "cupyx/scipy/special.py": "from scipy.special import betaln, expit, gammaln, i0e, log_ndtr, ndtr, xlogy\n",
    "cupyx/scipy/linalg.py": "from scipy.linalg import solve, toeplitz\n",
    "cupyx/scipy/stats.py": "from scipy.stats import norm\n",
    "cupyx/scipy/spatial/__init__.py": "",
    "cupyx/scipy/spatial/transform.py": "from scipy.spatial.transform import Rotation\n",
    "cupyx/scipy/sparse/__init__.py": "",
    "cupyx/scipy/sparse/linalg.py": "from scipy.sparse.linalg import cg\n",
}
FAULTS = {
    "brittle_xp": "mcplug.brittle_xp",
    "brittle_scs": "mcplug.brittle_scs",
    "brittle_other": "mcplug.brittle_other",
}


def entry_points_text(groups=("xp", "scs", "other")):
    lines = []
    if "xp" in groups:
        lines += ["[gwpopulation.xp]"] + [f"p{ii} = {m}" for ii, m in enumerate(PLUGIN_XP)]
    if "scs" in groups:
        lines += ["[gwpopulation.scs]"] + [f"p{ii} = {m}" for ii, m in enumerate(PLUGIN_SCS)]
    if "other" not in groups:
        return "\n".join(lines) + "\n"
    lines += ["[gwpopulation.other]"]
    ii = 0
    for module, funcs in OTHERS.items():
        for func in funcs:
            lines.append(f"p{ii} = {module}:{func}")
            ii += 1
    return "\n".join(lines) + "\n"


def write_files(root, files):
    for name, text in files.items():
        path = os.path.join(root, name)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w") as ff:
            ff.write(text)


def register(root, variant):
    """(re-)install the plugin so that it declares these groups of entry points"""
    with open(os.path.join(root, "mcplug-1.0.dist-info", "entry_points.txt"), "w") as ff:
        ff.write(entry_points_text(VARIANTS[variant]))
    importlib.invalidate_caches()


def make_plugin(root):
    write_files(root, PLUGIN)
    info = os.path.join(root, "mcplug-1.0.dist-info")
    os.makedirs(info)
    with open(os.path.join(info, "METADATA"), "w") as ff:
        ff.write("Metadata-Version: 2.1\nName: mcplug\nVersion: 1.0\n")
    with open(os.path.join(info, "entry_points.txt"), "w") as ff:
        ff.write(entry_points_text())


def run(group, tier, stats, findings):
    root = tempfile.mkdtemp(prefix="mc-plugin-")
    try:
        make_plugin(root)
        if group.startswith("first"):
            sys.path.insert(0, root)
        else:
            sys.path.append(root)
        importlib.invalidate_caches()
        _run(group, tier, stats, findings, root)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def cold_child(target, fault, root):
    """runs in a process of its own"""
    sys.path.insert(0, root)
    try:
        _run("first-cold", "quick", Stats(), (), root, child=(target, fault))
    except Violation as exc:
        print(exc)
        sys.exit(1)


def _run(group, tier, stats, findings, root, child=None):
    import jax
    import jax.numpy as jnp
    import jax.scipy as jsp
    import jax.scipy.linalg, jax.scipy.special, jax.scipy.stats, jax.scipy.spatial.transform, jax.scipy.sparse.linalg  # noqa
    import mcplug_faults
    import scipy, scipy.linalg, scipy.special, scipy.stats, scipy.spatial.transform, scipy.sparse.linalg  # noqa

    import gwpopulation

    th = tier == "thorough"

    def resolve(func, backend):
        top, rest = func.split(".", 1)
        if top == "scipy":
            base = scipy if backend == "numpy" else jsp
        else:
            base = np if backend == "numpy" else jnp
        for part in rest.split("."):
            base = getattr(base, part)
        return base

    EXPECT = {}
    for backend in ("numpy", "jax"):
        table = {(m, "xp"): np if backend == "numpy" else jnp for m in PACKAGE_XP + PLUGIN_XP}
        table.update({(m, "scs"): scipy.special if backend == "numpy" else jax.scipy.special
                      for m in PACKAGE_SCS + PLUGIN_SCS})
        for m, funcs in OTHERS.items():
            for func in funcs:
                table[(m, func.split(".")[-1])] = resolve(func, backend)
        EXPECT[backend] = table

    MISSING = object()
    saved = {}

    def snapshot():
        """what every registered attribute refers to (loaded modules only)"""
        out = {}
        for m, attr in EXPECT["numpy"]:
            module = sys.modules.get(m)
            if module is not None:
                out[(m, attr)] = getattr(module, attr, MISSING)
        return out

    class World:
        """the environment: which faults are present"""

        def __init__(self):
            self.faults = set()

        def set(self, fault, on):
            (self.faults.add if on else self.faults.discard)(fault)
            if fault in FAULTS:
                mcplug_faults.flags[FAULTS[fault]] = on
                if on:
                    sys.modules.pop(FAULTS[fault], None)
                    sys.modules["mcplug"].__dict__.pop(fault, None)
            elif fault == "jax package":
                for name in ("jax.numpy", "jax.scipy"):
                    if on:
                        saved.setdefault(name, sys.modules[name])
                        sys.modules[name] = None
                    elif name in saved:
                        sys.modules[name] = saved.pop(name)
            elif fault == "jax toeplitz":
                if on:
                    saved.setdefault("toeplitz", jax.scipy.linalg.toeplitz)
                    if hasattr(jsp.linalg, "toeplitz"):
                        del jsp.linalg.toeplitz
                elif "toeplitz" in saved:
                    jsp.linalg.toeplitz = saved.pop("toeplitz")

        def broken(self, backend):
            """must the selection of this backend fail?"""
            if backend not in ("numpy", "jax", "cupy"):
                return True
            if backend == "cupy":
                return True
            if any(f in self.faults for f in FAULTS):
                return True
            return backend == "jax" and bool({"jax package", "jax toeplitz"} & self.faults)

        def clear(self):
            for fault in ("jax package", "jax toeplitz", *FAULTS):
                self.set(fault, False)

    def verify(ch, backend, loaded, names):
        now = snapshot()
        for key in names:
            if key not in now:
                continue
            module = loaded.get(key[0])
            got = getattr(module, key[1], MISSING) if module is not None else now[key]
            ch.check(got is EXPECT[backend][key],
                     lambda: f"{key[0]}.{key[1]} does not refer to {backend} (got {getattr(got, '__name__', got)!r})")
        if backend == "jax":
            ch.check(np.asarray(jnp.asarray([0.1]) * 1).dtype == np.float64, "jax does not use 64-bit floats")
            ch.check(jnp.ones(1).dtype == jnp.float64, "jax does not use 64-bit floats")

    def behave(ch, backend):
        """the package computes with that backend's arrays"""
        xp = np if backend == "numpy" else jnp
        kind = np.ndarray if backend == "numpy" else jax.Array
        pl = gwpopulation.utils.powerlaw(xp.linspace(1.0, 2.0, 3), alpha=0.5, high=2, low=1)
        tn = gwpopulation.utils.truncnorm(xp.linspace(1.0, 2.0, 3), mu=1.5, sigma=1, high=2, low=1)
        sm = getattr(gwpopulation.models.mass.BaseSmoothedMassDistribution(normalization_shape=(5, 4)), "m1s", pl)
        rd = getattr(gwpopulation.models.redshift.PowerLawRedshift(), "zs", pl)
        ch.check(all(isinstance(v, kind) for v in (pl, tn, sm, rd)), f"arrays are not those of {backend}")

    EVENTS = [("set", "numpy"), ("set", "jax"), ("set", "cupy"), ("set", "bogus"), ("set", ""), ("set", "default")]
    ALL_FAULTS = ["brittle_xp", "brittle_scs", "brittle_other", "jax package", "jax toeplitz"]

    def apply(ch, world, current, loaded, event, deep=True):
        kind, arg = event
        if kind == "fault":
            world.set(arg, arg not in world.faults)
            return current, loaded
        backend = "numpy" if arg == "default" else arg
        args = () if arg == "default" else (arg,)
        before = snapshot()
        if backend == current and not world.broken(backend):
            ch.op("set_backend", gwpopulation.set_backend, *args)
            verify(ch, current, loaded, before)
            return current, loaded
        if backend == current:
            # selecting the active backend may or may not notice the fault, but changes nothing
            try:
                ch.op("set_backend", gwpopulation.set_backend, *args)
            except Exception:
                pass
            verify(ch, current, loaded, before)
            return current, loaded
        if world.broken(backend):
            ch.raises("set_backend", Exception, gwpopulation.set_backend, *args)
            after = snapshot()
            for key, value in before.items():
                ch.check(after.get(key, MISSING) is value,
                         lambda: f"a failed selection of {backend} changed {key[0]}.{key[1]}")
            if current:
                verify(ch, current, loaded, before)
                if deep:
                    behave(ch, current)
            return current, loaded
        ch.op("set_backend", gwpopulation.set_backend, *args)
        missing = [m for m, _ in EXPECT[backend] if m not in sys.modules]
        ch.check(not missing, lambda: f"{missing} not loaded")
        loaded = {m: sys.modules[m] for m, _ in EXPECT[backend]}
        verify(ch, backend, loaded, list(EXPECT[backend]))
        if deep:
            behave(ch, backend)
        return backend, loaded

    def reset(ch, world):
        """bring the process back to: numpy selected, plugin not loaded"""
        world.clear()
        gwpopulation.set_backend("jax")
        for name in list(sys.modules):
            if name.startswith("mcplug.") :
                del sys.modules[name]
        gwpopulation.set_backend("numpy")
        loaded = {m: sys.modules[m] for m, _ in EXPECT["numpy"] if m in sys.modules}
        verify(ch, "numpy", loaded, list(EXPECT["numpy"]))
        return "numpy", loaded

    def system(history, ch):
        world = World()
        try:
            current, loaded = reset(ch, world)
            for event in history:
                current, loaded = apply(ch, world, current, loaded, event)
                ch.observe("state", f"{current} {sorted(world.faults)}")
            canon = (current, tuple(sorted(world.faults)),
                     tuple((k, getattr(v, "__module__", ""), getattr(v, "__name__", "")) for k, v in sorted(snapshot().items())))
        finally:
            world.clear()
        events = EVENTS + [("fault", f) for f in ALL_FAULTS]
        return canon, events

    def sequences(ch):
        """all sequences of selections and fault toggles (no state merging)"""
        world = World()
        try:
            current, loaded = reset(ch, world)
            options = EVENTS[:3] + [("fault", f) for f in (ALL_FAULTS if th else ALL_FAULTS[:3] if group.startswith("first") else ALL_FAULTS[2:])]
            for ii in range(5 if th else 4):
                event = ch.choose(f"step {ii}", options)
                current, loaded = apply(ch, world, current, loaded, event, deep=False)
        finally:
            world.clear()

    def retry(ch):
        """every fault, at the first or a later selection, then gone"""
        start = ch.choose("start", ["numpy", "jax"])
        fault = ch.choose("fault", ALL_FAULTS)
        second = ch.choose("second fault", [None] + (ALL_FAULTS if th else ALL_FAULTS[1:4:2]))
        target = ch.choose("target", ["numpy", "jax"])
        attempts = ch.choose("attempts", [1, 2])
        between = ch.choose("between", [None, "numpy", "jax", "bogus", "cupy"] if th else [None, "jax", "bogus"])
        world = World()
        try:
            current, loaded = reset(ch, world)
            current, loaded = apply(ch, world, current, loaded, ("set", start))
            for f in (fault, second):
                if f and f not in world.faults:
                    world.set(f, True)
            for _ in range(attempts):
                current, loaded = apply(ch, world, current, loaded, ("set", target))
            if between:
                current, loaded = apply(ch, world, current, loaded, ("set", between))
            world.clear()
            current, loaded = apply(ch, world, current, loaded, ("set", target))
            current, loaded = apply(ch, world, current, loaded, ("set", "jax" if target == "numpy" else "numpy"))
            ch.check(current != target, "the next switch did not happen")
        finally:
            world.clear()

    def cold(ch):
        """the very first selection of a process, with and without a fault"""
        import subprocess

        target = ch.choose("target", ["numpy", "jax"])
        fault = ch.choose("fault", [None] + ALL_FAULTS)
        stats.transitions += 2
        code = (
            "import sys; sys.path.insert(0, %r); from mc.check import prepare; prepare();"
            "from mc.props import c01; c01.cold_child(%r, %r, %r)"
            % (os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), target, fault, root)
        )
        done = subprocess.run([sys.executable, "-c", code], capture_output=True, text=True, timeout=300)
        ch.check(done.returncode == 0, lambda: (done.stdout.strip() or done.stderr.strip()[-600:]))

    def plugins(ch):
        """plugins come and go between selections, with and without (a stand-in for) cupy"""
        import mcplug  # noqa

        cupy_root = os.path.join(root, "cupy-root")
        if not os.path.isdir(cupy_root):
            write_files(cupy_root, CUPY)
        cupy = ch.choose("cupy", ["absent", "broken"] if group.startswith("first") else ["present"])
        steps = [
            (ch.choose(f"plugin {ii}", list(VARIANTS) if th or ii == 0 else ["none", "full"]), ch.choose(f"select {ii}", ["numpy", "jax", "cupy", "bogus"]))
            for ii in range(2)
        ]
        if th:
            steps.append((ch.choose("plugin 2", ["none", "full"]), ch.choose("select 2", ["numpy", "jax", "cupy"])))

        def forget():
            for name in list(sys.modules):
                if name in ("cupy", "cupyx") or name.startswith(("cupy.", "cupyx.")):
                    del sys.modules[name]

        try:
            # in one of the two groups the process first sees no plugin at all
            if group.startswith("first"):
                register(root, "none")
                for current in ("jax", "numpy"):
                    ch.op("set_backend", gwpopulation.set_backend, current)
            else:
                register(root, "full")
                current, _ = reset(ch, World())
            if cupy != "absent":
                sys.path.insert(0, cupy_root)
                importlib.invalidate_caches()
                mcplug_faults.flags["cupy"] = cupy == "broken"
            for variant, backend in steps:
                register(root, variant)
                before = snapshot()
                if backend == "bogus" or backend == "cupy" and cupy != "present":
                    ch.raises("set_backend", Exception, gwpopulation.set_backend, backend)
                    after = snapshot()
                    for key, value in before.items():
                        ch.check(after[key] is value,
                                 lambda: f"a failed selection of {backend} changed {key[0]}.{key[1]}")
                    continue
                ch.op("set_backend", gwpopulation.set_backend, backend)
                if backend == current:
                    continue
                current = backend
                groups = VARIANTS[variant]
                names = [(m, "xp") for m in PACKAGE_XP + (PLUGIN_XP if "xp" in groups else [])]
                names += [(m, "scs") for m in PACKAGE_SCS + (PLUGIN_SCS if "scs" in groups else [])]
                funcs = [(m, f) for m, fs in OTHERS.items() for f in fs] if "other" in groups else []
                names += [(m, f.split(".")[-1]) for m, f in funcs]
                if backend == "cupy":
                    mods = sys.modules
                    want = {(m, "xp"): mods["cupy"] for m in PACKAGE_XP + PLUGIN_XP}
                    want.update({(m, "scs"): mods["cupyx.scipy.special"] for m in PACKAGE_SCS + PLUGIN_SCS})
                    for m, f in funcs:
                        path = f.replace("scipy.", "cupyx.scipy.", 1) if f.startswith("scipy") else f.replace("numpy", "cupy", 1)
                        path, attr = path.rsplit(".", 1)
                        want[(m, attr)] = getattr(mods[path], attr)
                else:
                    want = EXPECT[backend]
                now = snapshot()
                for key in names:
                    got = now.get(key, MISSING)
                    # the stand-in's functions may be those of scipy, which is all that can be observed
                    ch.check(got is want[key],
                             lambda: f"{key[0]}.{key[1]} does not refer to {backend} (got {getattr(got, '__name__', got)!r})")
                if backend == "jax":
                    ch.check(jnp.ones(1).dtype == jnp.float64, "jax does not use 64-bit floats")
        finally:
            while cupy_root in sys.path:
                sys.path.remove(cupy_root)
            mcplug_faults.flags["cupy"] = False
            register(root, "none" if group.startswith("first") else "full")
            try:
                gwpopulation.set_backend("jax")
                gwpopulation.set_backend("numpy")
            finally:
                forget()

    import mcplug  # noqa

    if child is not None:
        target, fault = child
        ch = Chooser([], stats)
        world = World()
        before = snapshot()
        if fault:
            world.set(fault, True)
            broken = world.broken(target)
            try:
                gwpopulation.set_backend(target)
                ch.check(not broken, f"a first selection of {target} with {fault} succeeded")
            except Violation:
                raise
            except Exception as exc:
                ch.check(broken, f"a first selection of {target} with {fault} failed: {exc!r}")
                after = snapshot()
                for key, value in before.items():
                    ch.check(after[key] is value, f"a failed first selection changed {key}")
            world.clear()
            if not broken:
                verify(ch, target, {}, list(EXPECT[target]))
                return
        current, loaded = apply(ch, world, None, {}, ("set", target))
        apply(ch, world, current, loaded, ("set", "jax" if target == "numpy" else "numpy"))
        return
    if group == "first-cold":
        explore_dfs(cold, stats, "cold", findings)
        return
    if group.endswith("bfs"):
        explore_bfs(system, stats, "system", 6 if th else 4, findings)
    elif group.endswith("retry"):
        explore_dfs(retry, stats, "retry", findings)
    elif group.endswith("plugins"):
        explore_dfs(plugins, stats, "plugins", findings)
    else:
        explore_dfs(sequences, stats, "sequences", findings)
