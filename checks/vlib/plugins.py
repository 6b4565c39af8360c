"""The plugins of the documentation, with a stand-in for MkDocs (the one installed here cannot be imported)."""
import importlib.util
import os
import sys
import types

from . import boot


class BasePlugin:
    config_scheme = ()
    config = {}


class Anything:
    """Any other class of MkDocs."""

    def __init__(self, *args, **kwargs):
        pass


def _anything(attr):
    if attr.startswith("__"):
        raise AttributeError(attr)
    return Anything


def _stand_in():
    for name in [n for n in sys.modules if n == "mkdocs" or n.startswith("mkdocs.")]:
        del sys.modules[name]
    for name in ("mkdocs", "mkdocs.plugins", "mkdocs.config", "mkdocs.config.base", "mkdocs.config.config_options", "mkdocs.structure", "mkdocs.structure.pages", "mkdocs.structure.files", "mkdocs.utils", "mkdocs.exceptions"):
        m = types.ModuleType(name)
        m.__path__ = []
        m.BasePlugin = BasePlugin
        m.__getattr__ = _anything
        sys.modules[name] = m


def load(name):
    """The module of a plugin ("elsie" or "nedoc")."""
    key = "mkdocs_%s_plugin" % name
    if key not in sys.modules:
        _stand_in()
        path = os.path.join(boot.REPO, "docs", "mkdocs-%s-plugin" % name, key, "__init__.py")
        spec = importlib.util.spec_from_file_location(key, path, submodule_search_locations=[os.path.dirname(path)])
        m = importlib.util.module_from_spec(spec)
        sys.modules[key] = m
        try:
            spec.loader.exec_module(m)
        except BaseException:
            del sys.modules[key]
            raise
    return sys.modules[key]


def make(name, config):
    """A plugin with the given options."""
    m = load(name)
    plugin = getattr(m, {"elsie": "ElsiePlugin", "nedoc": "NedocPlugin"}[name])()
    plugin.config = config
    return plugin
