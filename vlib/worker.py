"""Runs some cases of one group: worker.py SPEC.json"""
import faulthandler
import gc
import importlib
import json
import os
import random
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:] = [HERE] + [p for p in sys.path
                        if os.path.realpath(p or '.') !=
                        os.path.join(HERE, 'vlib')]
sys.dont_write_bytecode = True

from vlib import boot
from vlib.case import Env, Violation, Inconclusive, CpuLimit
from vlib.case import is_resource_problem
from vlib.core import case_seed


def run_case(func, spec, index):
    seed = case_seed(spec['seed'], spec['prop'], spec['group'], index)
    rng = random.Random(seed)
    env = Env(spec, index, seed)
    violation = None
    try:
        signal.setitimer(signal.ITIMER_VIRTUAL, spec['cpu'])
        try:
            try:
                func(rng, env)
            finally:
                signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        except Violation as e:
            violation = str(e), e.key, traceback.format_exc()
        except Inconclusive as e:
            return dict(kind='problem', index=index, text='%s' % e)
        except CpuLimit:
            violation = ('did not end within %s s of processor time' %
                         spec['cpu'], None, traceback.format_exc())
        except Exception as e:
            if is_resource_problem(e):
                return dict(kind='problem', index=index,
                            text=traceback.format_exc())
            violation = ('unexpected %s: %s' % (type(e).__name__, e), None,
                         traceback.format_exc())
    finally:
        trace = list(env.trace)
        env.finish()
    if violation is not None:
        message, key, text = violation
        return dict(kind='violation', index=index, group=spec['group'],
                    case_seed=seed, ext=spec['ext'], message=message, key=key,
                    trace=trace[-200:] + text.split('\n'))
    return dict(kind='done', index=index, counts=env.counts,
                nontrivial=bool(env.nontrivial and env.ops),
                digest=env.hash.hexdigest()[:24],
                sample=env.sample or trace[:25])


def main():
    with open(sys.argv[1]) as f:
        spec = json.load(f)
    faulthandler.enable()
    def cpu_limit(signum, frame):
        raise CpuLimit
    signal.signal(signal.SIGVTALRM, cpu_limit)
    out = open(spec['out'], 'a')
    def emit(item):
        out.write(json.dumps(item) + '\n')
        out.flush()
    if spec['ext'] != 'none':
        boot.boot(spec['ext_path'], spec['repo'])
    module = importlib.import_module('checks.' + spec['module'])
    func = getattr(module, spec['func'])
    end = time.time() + spec['wall']
    for n, index in enumerate(spec['indices']):
        if time.time() > end and n > 0:
            break
        emit(dict(kind='start', index=index, ext=spec['ext'],
                  case_seed=case_seed(spec['seed'], spec['prop'],
                                      spec['group'], index)))
        item = run_case(func, spec, index)
        emit(item)
        if item['kind'] == 'violation':
            break
        if n % 50 == 49:
            gc.collect()
    emit(dict(kind='end'))
    out.flush()
    os._exit(0)


if __name__ == '__main__':
    main()
