"""Runs independent analyses of one rule in parallel processes."""
import multiprocessing, os
_T = []
def _one(k):
    f, a = _T[k]
    return f(*a)
def run(tasks):
    """tasks: (function, arguments); results in order"""
    global _T
    _T = list(tasks)
    if len(_T) < 2: return [_one(k) for k in range(len(_T))]
    with multiprocessing.get_context("fork").Pool(min(8, os.cpu_count() or 1)) as p: return p.map(_one, range(len(_T)), chunksize=1)
