"""Access to the package under test for one backend."""
import importlib

import numpy as np


class Api:
    def __init__(self, backend):
        import gwpopulation

        self.backend = backend
        gwpopulation.set_backend(backend)
        self.gwpop = gwpopulation
        self.utils = importlib.import_module("gwpopulation.utils")
        self.conversions = importlib.import_module("gwpopulation.conversions")
        self.hyperpe = importlib.import_module("gwpopulation.hyperpe")
        self.vt = importlib.import_module("gwpopulation.vt")
        self.mass = importlib.import_module("gwpopulation.models.mass")
        self.spin = importlib.import_module("gwpopulation.models.spin")
        self.redshift = importlib.import_module("gwpopulation.models.redshift")
        self.interped = importlib.import_module("gwpopulation.models.interped")
        self.cosmo = importlib.import_module("gwpopulation.experimental.cosmo_models")
        if backend == "jax":
            import jax.numpy as xp
        else:
            xp = np
        self.xp = xp

    def arr(self, values):
        if self.backend == "numpy":
            return np.array(values, dtype=float)  # always a fresh copy
        return self.xp.asarray(np.asarray(values, dtype=float))

    def data(self, dataset):
        return {key: self.arr(value) for key, value in dataset.items()}
