"""Snapshots of profiles and soil types through their public interface."""

import numpy as np

from . import model


def soil_obs(st):
    out = {"name": str(st.name), "unit_wt": model.arr(st.unit_wt)}
    for what in ("mod_reduc", "damping"):
        c = getattr(st, what)
        if hasattr(c, "values"):
            out[what + ".values"] = np.array(c.values)
            out[what + ".strains"] = np.array(c.strains)
            out[what + ".at"] = model.arr(c(np.array([3e-6, 1e-4, 2e-3])))
        else:
            out[what] = model.arr(np.nan if c is None else c)
    out["dmin"] = model.arr(st.damping_min)
    return out


def layer_obs(layer, iterated=True):
    out = {}
    names = ["thickness", "initial_shear_vel", "damping_min"]
    names += ["depth", "depth_mid", "depth_base", "initial_shear_mod", "unit_wt"]
    if iterated:
        names += ["shear_mod", "damping", "strain", "shear_vel"]
    for n in names:
        out[n] = getattr(layer, n)
    out = {k: np.asarray(v) for k, v in out.items()}
    if iterated:
        out["strain_max"] = model.arr(np.nan if layer.strain_max is None else layer.strain_max)
    out["stress"] = model.arr(layer.stress_vert(0))
    return out


def profile_obs(profile, soils=True, iterated=True):
    out = {"n": model.arr(len(profile)), "wt": model.arr(profile.wt_depth)}
    cols = {}
    seen = []
    for i, layer in enumerate(profile):
        for k, v in layer_obs(layer, iterated).items():
            cols.setdefault(k, []).append(v)
        if soils:
            st = layer.soil_type
            for j, s in enumerate(seen):
                if s is st:
                    break
            else:
                j = len(seen)
                seen.append(st)
                for k, v in soil_obs(st).items():
                    out[f"{i}.soil.{k}"] = v
            cols.setdefault("soil", []).append(j)
    for k, vs in cols.items():
        if all(np.ndim(v) == 0 for v in vs):
            out[k] = np.array(vs)
        else:
            for i, v in enumerate(vs):
                out[f"{i}.{k}"] = v
    return out


def copy_soil(lib, st):
    """New soil type with new curves."""
    site = lib.site
    new = []
    for what, cls in (("mod_reduc", site.ModulusReductionCurve), ("damping", site.DampingCurve)):
        c = getattr(st, what)
        if hasattr(c, "values"):
            new.append(cls(c.name, np.array(c.strains), np.array(c.values)))
        else:
            new.append(c)
    return site.SoilType(st.name, st.unit_wt, *new)


def twin(lib, profile):
    """New, equal profile built from the initial properties: nothing is shared with the other."""
    soils = {}
    layers = []
    for layer in profile:
        st = layer.soil_type
        if id(st) not in soils:
            soils[id(st)] = copy_soil(lib, st)
        layers.append(lib.site.Layer(soils[id(st)], layer.thickness, layer.initial_shear_vel,
                                     layer.damping_min))
    return lib.site.Profile(layers, profile.wt_depth)


class Dist:
    """Distribution object with a planned outcome. It may raise."""

    def __init__(self, value, fail=False):
        self.value = value
        self.fail = fail

    def rvs(self, *args, **kwds):
        if self.fail:
            raise OSError("injected: random device")
        return self.value
