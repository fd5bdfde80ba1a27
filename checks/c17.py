"""C17: parallel dumping and loading equals the sequential result."""
import copy
import multiprocessing.managers as managers
from collections import deque
from dataclasses import dataclass
from datetime import datetime
from multiprocessing import Process
from threading import Thread
from typing import Any, Deque, Dict, FrozenSet, Iterable, List, Optional, Sequence, Set, Tuple, Union

import jsons
from engine.api import harness


# -- tasks that run in an order of the solver's choice -----------------------------------------------

class Sched:
    """Holds the tasks that are started but have not run; the solver decides when each one runs."""

    def __init__(self, g, preempt=False):
        self.g, self.pending, self.count, self.preempt, self.joined = g, [], 0, preempt, 0

    def flag(self, what):
        self.count += 1
        return self.g.flag('%s %d' % (what, self.count))

    def started(self, task):
        self.pending.append(task)
        if self.flag('at once'):
            self.run(task)

    def run(self, task):
        self.pending.remove(task)
        task.target(*task.args, **task.kwargs)
        task.done = True

    def join(self, task):
        """Other tasks may run before this one."""
        while not task.done:
            self.count += 1
            self.run(self.g.choice('next %d' % self.count, list(self.pending)))

    def point(self):
        """Where one task may be interrupted by others."""
        if self.preempt:
            while self.pending and self.flag('interrupt'):
                self.run(self.pending[0])


class TaskMixin:
    sched = None

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        self.target, self.args, self.kwargs, self.done = target, tuple(args), dict(kwargs or {}), False

    def start(self):
        TaskMixin.sched.started(self)

    def join(self, timeout=None):
        TaskMixin.sched.join(self)

    def is_alive(self):
        return not self.done


class Task(TaskMixin):
    pass


class ThreadTask(TaskMixin, Thread):
    pass


class ProcessTask(TaskMixin, Process):
    """In place of a process: what it puts into the shared list is copied."""


class FakeList(list):
    def __setitem__(self, k, v):
        list.__setitem__(self, k, copy.deepcopy(v))


class FakeManager:
    def __init__(self, *args, **kwargs):
        pass

    def start(self, *args, **kwargs):
        pass

    def list(self, sequence=()):
        return FakeList(sequence)

    def shutdown(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *args):
        pass


TASKS = {'task': Task, 'thread': ThreadTask, 'process': ProcessTask}


def schedule(g, kind, preempt=False):
    TaskMixin.sched = Sched(g, preempt)
    managers.SyncManager = FakeManager if kind == 'process' else REAL
    return TASKS[kind]


REAL = managers.SyncManager


# -- elements ----------------------------------------------------------------------------------------

class Item:
    def __init__(self, my_n: int, opt: Optional[int] = None):
        self.my_n, self.opt = my_n, opt


class Sub(Item):
    pass


class Untyped:
    def __init__(self, my_n, opt=None):
        self.my_n, self.opt = my_n, opt


class Bad:
    def __init__(self, my_n):
        self.my_n = my_n


class Counted:
    def __init__(self, n):
        self.n = n


def refuse(obj, *args, **kwargs):
    raise ValueError('no')


DUMPS = {
    'tuple': lambda xs: tuple(xs),
    'deque': lambda xs: deque(xs),
    'list': lambda xs: list(xs),
    'in list': lambda xs: [tuple(xs), 1],
    'in dict': lambda xs: {'k': tuple(xs)},
    'in tuple': lambda xs: (tuple(xs), tuple(xs)[:1], 3),
    'in attr': lambda xs: Untyped(deque(xs)),
}


def wrapped(kind, xs):
    return {'in list': [xs, 1], 'in dict': {'k': xs}, 'in tuple': [xs, xs[:1], 3],
            'in attr': {'my_n': xs, 'opt': None}}.get(kind, xs)


def some_tasks(g):
    return g.choice('tasks', (2, 3, 4, 7)[:g.b(3, 4)])


@harness('sequences of up to 4 (thorough: 6) ints, None or objects at several places, 2 to 4 (7) tasks in every order',
         params=[(k, t) for k in DUMPS for t in TASKS], timeout=(120, 1500))
def dumped(g):
    kind, t = g.param
    xs, want = [], []
    for k in range(g.len('len', g.b(4 if t == 'task' else 3, 6) if kind in ('tuple', 'deque') else g.b(2, 3))):
        n = g.int('n%d' % k)
        xs.append((Item(n), n, None, (n, Item(1)))[k % 4])
        want.append(({'my_n': n, 'opt': None}, n, None, [n, {'my_n': 1, 'opt': None}])[k % 4])
    r = g.ok('dump', jsons.dump, DUMPS[kind](xs), tasks=some_tasks(g), task_type=schedule(g, t))
    g.same(r, wrapped(kind, want), 'dump')


LOADS = {
    'list': (List[Item], lambda r: r),
    'bare': (None, lambda r: r),
    'sequence': (Sequence[Item], lambda r: r),
    'deque': (Deque[Item], lambda r: list(r)),
    'set': (Set[Item], None),
    'optional': (List[Optional[Item]], lambda r: r),
    'union': (Union[int, List[Item]], lambda r: r),
    'attr': (Item, None),
    'dict': (Dict[str, List[Item]], lambda r: r['k']),
    'nested': (List[List[Item]], lambda r: [x for y in r for x in y]),
}


@harness('JSON lists of up to 4 (thorough: 6) objects with any ints, 2 to 4 (7) tasks in every order', params=[
    (k, t) for k in LOADS if LOADS[k][1] for t in TASKS], timeout=(120, 1500))
def loaded(g):
    kind, t = g.param
    cls, take = LOADS[kind]
    ns = [g.int('n%d' % k) for k in range(g.len('len', g.b(4, 6) if kind in ('list', 'bare') else 3))]
    js = [{'my_n': n} for n in ns]
    if kind == 'dict':
        js = {'k': js}
    elif kind == 'nested':
        js = [js[:1], js[1:]]
    elif kind == 'bare':
        js = [[n, {'k': n}] for n in ns]
    r = g.ok('load', jsons.load, js, cls, tasks=some_tasks(g), task_type=schedule(g, t))
    if kind == 'bare':
        g.same(r, js, 'load')
        return
    if kind == 'deque':
        g.check(r.__class__ is deque, 'type', r)
    g.same(take(r), [Item(n) for n in ns], 'load')


@harness('up to 4 elements of which each may fail; dump and load; 2 to 4 tasks in every order and interrupting each other; '
         'each element is processed exactly once', params=[(op, t) for op in ('dump', 'load') for t in TASKS])
def failing(g):
    """Never a result with placeholders."""
    op, t = g.param
    inst = jsons.fork()
    task_type = schedule(g, t, preempt=True)
    seen = []

    def ser(obj, **kw):
        TaskMixin.sched.point()
        seen.append(obj.n if op == 'dump' else obj)
        if (obj.n if op == 'dump' else obj['n']) in bad:
            raise ValueError('no')
        TaskMixin.sched.point()
        return {'n': obj.n} if op == 'dump' else Counted(obj['n'])

    size = g.len('len', g.b(3, 4), 1)
    bad = [k for k in range(size) if g.flag('bad %d' % k)] if g.flag('some bad') else []
    if op == 'dump':
        jsons.set_serializer(ser, Counted, fork_inst=inst)
        out = g.run(jsons.dump, tuple([Counted(k) for k in range(size)]), tasks=some_tasks(g), task_type=task_type,
                    fork_inst=inst)
    else:
        jsons.set_deserializer(lambda obj, cls=None, **kw: ser(obj), Counted, fork_inst=inst)
        out = g.run(jsons.load, [{'n': k} for k in range(size)], List[Counted], tasks=some_tasks(g), task_type=task_type,
                    fork_inst=inst)
    if bad:
        g.check(not out.ok, 'an element failed, but not the call', out.value)
        g.check(isinstance(out.exc, (jsons.JsonsError, ValueError)) if op == 'dump' else
                isinstance(out.exc, jsons.JsonsError), 'not a jsons error', out.exc)
        return
    g.check(out.ok, 'the call failed', out.exc)
    if op == 'dump':
        g.same(out.value, [{'n': k} for k in range(size)], 'dump')
        g.same(sorted(seen), list(range(size)), 'elements processed')
    else:
        g.same(out.value, [Counted(k) for k in range(size)], 'load')
        g.same(sorted([s['n'] for s in seen]), list(range(size)), 'elements processed')


@harness('as failing, for library errors: a missing attribute or a wrong value at any of up to 4 elements (any ints '
         'elsewhere), strict or not, with and without warn_on_fail', params=tuple(TASKS))
def wrong_elements(g):
    """The same elements are lost, or the same call fails, as with one task."""
    size = g.len('len', g.b(3, 4))
    js = []
    for k in range(size):
        js.append(({'my_n': g.int('n%d' % k)}, {'opt': 1}, {'my_n': 'x'})[g.choice('kind %d' % k, (0, 1, 2)[:g.b(2, 3)])])
    kw = dict(strict=g.flag('strict'), warn_on_fail=g.flag('warn'))
    one = g.run(jsons.load, js, List[Item], **kw)
    out = g.run(jsons.load, js, List[Item], tasks=g.choice('tasks', (2, 3)[:g.b(1, 2)]), task_type=schedule(g, g.param), **kw)
    g.check(one.ok == out.ok, 'differs in success', one.exc, out.exc)
    if one.ok:
        g.same(out.value, one.value, 'load')
    else:
        g.check(isinstance(out.exc, jsons.JsonsError), 'not a jsons error', out.exc)
        if g.param != 'process':
            g.check(out.exc.__class__ is one.exc.__class__, 'another error', one.exc, out.exc)
            g.check(out.exc.message == one.exc.message, 'another message', one.exc, out.exc)


@harness('three objects with any ints and every combination of the options that dump takes; 2 or 3 tasks',
         params=tuple(TASKS)[:2])
def dump_options(g):
    inst = jsons.fork()
    jsons.set_serializer(lambda obj, **kw: [obj.n], Counted, fork_inst=inst)
    xs = (Item(g.int('a')), Sub(g.int('b'), 3), Item(Counted(g.int('c')), Item(4)))
    kw = {}
    opts = g.choice('options', ((), ('nulls',), ('case',), ('strict',), ('strict', 'nulls', 'case'), ('attr', 'case'),
                                ('verbose',), ('verbose', 'case', 'nulls'), ('fork', 'nulls'), ('fork', 'case', 'attr')))
    if 'nulls' in opts:
        kw['strip_nulls'] = True
    if 'case' in opts:
        kw['key_transformer'] = jsons.KEY_TRANSFORMER_CAMELCASE
    if 'attr' in opts:
        kw['strip_attr'] = 'opt'
    if 'verbose' in opts:
        kw['verbose'] = jsons.Verbosity.WITH_CLASS_INFO
    if 'strict' in opts:
        kw['strict'] = True
        xs = xs[:2]
    if 'fork' in opts:
        kw['fork_inst'] = inst
    cls = g.choice('cls', (None, Tuple[(Item,) * len(xs)]) if 'strict' in opts else (None,))
    one = g.ok('dump', jsons.dump, xs, cls, **kw)
    many = g.ok('dump', jsons.dump, xs, cls, tasks=g.choice('tasks', (2, 3)), task_type=schedule(g, g.param), **kw)
    g.same(many, one, 'dump')


@harness('three objects with any ints and every combination of the options that load takes; 2 or 3 tasks',
         params=tuple(TASKS)[:2])
def load_options(g):
    inst = jsons.fork()
    jsons.set_deserializer(lambda obj, cls=None, **kw: Counted(obj['my_n']), Sub, fork_inst=inst)
    limit = g.int('limit')
    jsons.set_validator(lambda obj: obj.my_n > limit, Item, fork_inst=inst)
    opts = g.choice('options', ((), ('case',), ('strict',), ('strict', 'case'), ('getters',), ('getters', 'case'),
                                ('fork',), ('fork', 'case', 'getters'), ('meta',), ('meta', 'strict')))
    kw = {}
    key = 'my_n'
    if 'case' in opts:
        kw['key_transformer'], key = jsons.KEY_TRANSFORMER_SNAKECASE, 'myN'
    if 'strict' in opts:
        kw['strict'] = True
    if 'getters' in opts:
        kw['attr_getters'] = {'my_n': lambda: 77}
    if 'fork' in opts:
        kw['fork_inst'] = inst
    js = [{key: g.int('a'), 'opt': 1}, {key: g.int('b')}, {'opt': 3} if 'getters' in opts else {key: g.int('c')}]
    if 'meta' in opts:
        js[1]['-meta'] = {'classes': {'/': __name__ + '.Sub'}}
    cls = g.choice('cls', (List[Item], List[Sub], Sequence[Item]))
    one = g.run(jsons.load, js, cls, **kw)
    many = g.run(jsons.load, js, cls, tasks=g.choice('tasks', (2, 3)), task_type=schedule(g, g.param), **kw)
    g.check(one.ok == many.ok, 'differs in success', one.exc, many.exc)
    if one.ok:
        g.same(many.value, one.value, 'load')
    else:
        g.check(many.exc.__class__ is one.exc.__class__, 'another error', one.exc, many.exc)


@harness('up to 5 (thorough: 9) ints, every number of tasks from 1 to 12, run in order or in reverse', params=('dump', 'load'))
def divided(g):
    """However the sequence is divided among the tasks."""
    xs = [g.int('n%d' % k) for k in range(g.len('len', g.b(5, 9)))]
    tasks = g.choice('tasks', tuple(range(1, 13)))
    task_type = FORWARD if g.flag('forward') else BACKWARD
    del WAITING[:]
    if g.param == 'dump':
        r = g.ok('dump', jsons.dump, tuple(xs), tasks=tasks, task_type=task_type)
    else:
        r = g.ok('load', jsons.load, xs, List[int], tasks=tasks, task_type=task_type)
    g.same(r, xs, g.param)


WAITING = []


class FORWARD:
    def __init__(self, target, args=(), kwargs=None):
        self.body = lambda: target(*args, **(kwargs or {}))

    def start(self):
        self.body()

    def join(self, timeout=None):
        pass


class BACKWARD(FORWARD):
    def start(self):
        WAITING.append(self)

    def join(self, timeout=None):
        while WAITING:
            WAITING.pop().body()


@harness('any number of tasks below one (to -3), with any elements')
def no_tasks(g):
    """Refused, or as with one task."""
    xs = [g.int('n%d' % k) for k in range(g.len('len', 2))]
    tasks = g.int('tasks', -3, 0)
    out = g.run(jsons.load, xs, List[int], tasks=tasks, task_type=schedule(g, 'task'))
    if out.ok:
        g.same(out.value, xs, 'load')
    else:
        g.check(isinstance(out.exc, jsons.JsonsError), 'not a jsons error', out.exc)
    out = g.run(jsons.dump, tuple(xs), tasks=tasks, task_type=schedule(g, 'task'))
    if out.ok:
        g.same(out.value, xs, 'dump')
    else:
        g.check(isinstance(out.exc, jsons.JsonsError), 'not a jsons error', out.exc)
