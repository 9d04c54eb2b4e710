"""Loads the code under test from /repo behind the seams.  Call boot() once, before anything imports dedop."""
import os
import sys

REPO = os.environ.get('DST_REPO', '/repo')
_booted = set()


def base():
    if 'base' in _booted:
        return
    _booted.add('base')
    sys.dont_write_bytecode = True
    os.environ.setdefault('MPLBACKEND', 'Agg')
    for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
        os.environ[v] = '1'
    os.environ['NUMBA_DISABLE_JIT'] = '1'
    os.environ['TZ'] = 'IST-5:30'           # the simulated machine is not on UTC
    import time
    time.tzset()
    sys.path.insert(0, REPO)
    try:
        import cate.util.cli            # noqa
    except ImportError:
        sys.path.append(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'stubs'))
    import json, shutil, tempfile, subprocess, fnmatch, pkgutil, glob, typing, decimal       # noqa
    import threading, queue, concurrent.futures, logging, traceback, argparse, textwrap       # noqa
    import numpy, numpy.ma, scipy.optimize, netCDF4                                           # noqa
    from . import kernel, fs
    kernel.REPO_PREFIX = os.path.join(REPO, 'dedop') + os.sep
    fs.install()
    kernel.install_clock()
    kernel.install_locks()
    kernel.install_imports()


def workspace():
    base()
    import dedop.ui.workspace_manager, dedop.util.config, dedop.util.monitor, dedop.util.fetchstd   # noqa


def services():
    workspace()
    import dedop.cli.main, dedop.webapi.websocket      # noqa


def processor():
    base()
    from . import ncsim
    ncsim.install()
    import dedop.proc.sar, dedop.cli.main, dedop.webapi.websocket              # noqa
