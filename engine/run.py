"""Execution of functions of the dumped MIR with symbolic or concrete arguments."""
import time
from term import *
from values import *
import interp as ip
import natives, world
from world import Store, ApiModel, QuerierModel, sym_reply_parse
from interp import Interp
from path import Path, explore


class Outcome:
    """what one path of a function did"""
    __slots__ = ("kind", "value", "why", "I", "args")

    def __init__(self, kind, value, why, I, args):
        self.kind = kind        # 'ret' | 'panic'
        self.value = value
        self.why = why
        self.I = I
        self.args = args


def new_interp(mir, path, cfg=None, conc=None):
    I = Interp(mir, path, cfg)
    if conc is None:
        I.store = Store()
        I.api = ApiModel()
        I.querier = QuerierModel()
        I.reply_parse = sym_reply_parse
    else:
        conc.setup(I)
    return I


def call(I, fn, args):
    try:
        v = I.call_fn(fn, args, fn.df) if fn.df in I.cfg.get("contracts", {}) and fn.df != I.skip_contract else I.run(fn, args)
        return Outcome("ret", v, None, I, args)
    except Panic as e:
        return Outcome("panic", None, e.msg, I, args)


def sym_args(mir, fn, names):
    return [fresh(mir, fn.locals[i + 1], n) for i, n in enumerate(names)]
