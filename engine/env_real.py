"""Real environment of a replay: scratch data folder, no network, real libraries."""
import logging
import os
import shutil
import sys
import tempfile

_dir = None


def fresh_data_dir():
    global _dir
    _dir = tempfile.mkdtemp(prefix="sleplet_replay_")
    for v in ("XDG_DATA_HOME", "XDG_CACHE_HOME", "XDG_CONFIG_HOME"):
        os.environ[v] = os.path.join(_dir, v.lower())
        os.makedirs(os.environ[v], exist_ok=True)
    os.chdir(_dir)


def cleanup():
    if _dir and os.path.basename(_dir).startswith("sleplet_replay_"):
        os.chdir("/")
        shutil.rmtree(_dir, ignore_errors=True)


def setup():
    logging.disable(logging.CRITICAL)
    sys.dont_write_bytecode = True
    os.environ.pop("NUMBA_DISABLE_JIT", None)
    os.environ["MPLBACKEND"] = "Agg"
    for v in ("NCPU", "POLAR_GAP", "THETA_MAX", "THETA_MIN", "PHI_MAX", "PHI_MIN", "SLEPIAN_MASK"):
        os.environ.pop(v, None)
    for v in ("http_proxy", "https_proxy", "HTTP_PROXY", "HTTPS_PROXY"):
        os.environ[v] = "http://127.0.0.1:9"
    src = os.environ.get("VERIF_DEV_SRC", "/repo/src")
    if src not in sys.path:
        sys.path.insert(0, src)
    from engine import published

    published.install()
    import sleplet  # noqa: F401
    import warnings

    warnings.simplefilter("ignore")
