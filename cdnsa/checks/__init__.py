"""The registry of checks."""
import importlib

MODULES = ["auth", "net", "disc", "route", "tasks", "sync", "store", "session", "wire", "client", "crypto", "run", "locks", "codec", "panics", "programs", "metrics"]
_REG = {}


def check(pid, technique):
    def deco(fn):
        _REG[pid] = (fn, technique)
        return fn

    return deco


def load():
    for m in MODULES:
        importlib.import_module("cdnsa.checks." + m)
    return _REG


def get(pid):
    return load()[pid]


def ids():
    return set(load())
