"""The real Inkscape; one per worker."""
import os
import shutil

from .core import judged

QUIET, PROFILE = "/opt/vp/inkscape-quiet", "/opt/vp/inkscape-profile"


class Shell:
    def __init__(self, env, to_path):
        from elsie.render.inkscape import InkscapeShell

        profile = os.path.join(env.root, "inkscape-profile")
        if not os.path.isdir(profile):
            if os.path.isdir(PROFILE):
                shutil.copytree(PROFILE, profile)
            else:
                os.makedirs(profile)
        before = os.environ.get("INKSCAPE_PROFILE_DIR")
        os.environ["INKSCAPE_PROFILE_DIR"] = profile
        try:
            self.shell = InkscapeShell(QUIET if os.path.isfile(QUIET) else "/usr/bin/inkscape", text_to_path=to_path)
        finally:
            if before is None:
                del os.environ["INKSCAPE_PROFILE_DIR"]
            else:
                os.environ["INKSCAPE_PROFILE_DIR"] = before

    def verif_close(self):
        self.shell.process.kill()


def shell(env, to_path=False):
    key = "real%d" % to_path
    s = env.shared.get(key)
    if s is None or s.shell.process.poll() is not None:
        with judged("starting Inkscape"):
            s = env.shared[key] = Shell(env, to_path)
    return s.shell


def make_deck(env, to_path=False, **kwargs):
    import elsie
    from elsie.render.backends import InkscapeBackend

    from . import sut

    d = sut.case_dir(env)
    kwargs.setdefault("name_policy", "ignore")
    return elsie.SlideDeck(backend=InkscapeBackend(inkscape=shell(env, to_path), cache_dir=d), cache_dir=d, **kwargs)
