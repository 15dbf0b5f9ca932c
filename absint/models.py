"""library models of one analysis world"""
from .values import *


def install(it):
    from . import m_scipy, m_std, m_yaml, m_pandas
    w = it.w
    it.install_natives()
    it.install_numpy()
    mods = {'numpy': it.np}
    for k, v in it.np.ns.items():
        if isinstance(v, Module):
            v.external = True
            mods['numpy.' + k] = v
    mods.update(m_scipy.install(it))
    mods.update(m_yaml.install(it, w.have_ruamel))
    mods.update(m_std.install(it))
    mods.update(m_pandas.install(it))
    if not w.have_yaml:
        mods.pop('yaml', None)
    w.ext = mods
