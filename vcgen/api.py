"""What specification files use."""
import re
import z3
from .ir import INT, PTR, DOUBLE, FLOAT, Ty, IRError
from .sym import *
from .exec import Exec, mkb, mki, LTt, GE
from .contract import Task, View, arr_reader, forall, forall2, MAXOBJ
from . import models

TASKS = []
FALSIFIERS = []


class TaskDef:
    def __init__(self, name, props, tu, fn, body, defs=(), bounded=None, thorough=False, opts=None):
        self.name, self.props, self.tu, self.fn, self.body = name, props, tu, fn, body
        self.defs, self.thorough = tuple(defs), thorough
        self.opts = opts or {}


def task(name, props, tu, fn, defs=(), thorough=False, **opts):
    if isinstance(props, str):
        props = [props]

    def deco(body):
        TASKS.append(TaskDef(name, props, tu, fn, body, defs, None, thorough, opts))
        return body
    return deco


def lit(x):
    return z3.IntVal(x) if isc(x) else x


class FalsifierDef:
    def __init__(self, name, props, src, flags, budget, args, rule, thorough):
        self.name, self.props, self.src, self.flags, self.budget = name, props, src, flags, budget
        self.args, self.rule, self.thorough = args, rule, thorough


def falsifier(name, props, src, flags=(), budget=15, args=(), rule='', thorough=False):
    """A bounded harness that runs the real code natively."""
    FALSIFIERS.append(FalsifierDef(name, props, src, flags, budget, args, rule, thorough))
