"""Process set-up for both interpreters."""
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SYMX_REPO", "/repo")
VENV_SITE = "/opt/venv/lib/python3.12/site-packages"
SYM_PY = "/opt/veriftools/pyvenv/bin/python"
REAL_PY = "/opt/venv/bin/python"


def paths(symbolic):
    sys.dont_write_bytecode = True
    for p in (VERIF, os.path.join(REPO, "src")):
        if p in sys.path:
            sys.path.remove(p)
    sys.path.insert(0, os.path.join(REPO, "src"))
    sys.path.insert(0, VERIF)
    if symbolic:
        # the project's own dependency versions win over the tool environment's
        for m in ("cryptojwt", "oidcmsg", "requests", "cryptography"):
            sys.modules.pop(m, None)
        sys.path.append(VENV_SITE)
        pin()


def pin():
    """Make sure the project's dependencies come from the project's environment."""
    import importlib.machinery
    import importlib.abc
    names = ("cryptojwt", "oidcmsg", "requests", "cryptography", "responses", "yaml", "urllib3",
             "certifi", "idna", "charset_normalizer", "cffi", "_cffi_backend", "readerwriterlock",
             "filelock", "Cryptodome", "pycryptodomex", "typing_extensions")

    class Pin(importlib.abc.MetaPathFinder):
        def find_spec(self, name, path, target=None):
            if path is None and name in names:
                return importlib.machinery.PathFinder.find_spec(name, [VENV_SITE], target)
            return None
    sys.meta_path.insert(0, Pin())
