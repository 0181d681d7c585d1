"""A joblib backend that finishes the jobs of every Parallel call in a prescribed order.

Jobs are queued in dispatch order; of the first W queued (running) jobs the one the
schedule names is executed next (spec/ParMap.tla).  Arguments are pickled when a job
is dispatched and the result is pickled back, as with worker processes; isolate=False
keeps them shared, as with worker threads."""
import contextlib
import itertools

from joblib import parallel_backend, register_parallel_backend
import cloudpickle
from joblib.parallel import ParallelBackendBase
import pickle


class Outcome(object):
    def __init__(self, value=None, error=None):
        self.value, self.error = value, error


class Scheduled(ParallelBackendBase):
    supports_retrieve_callback = True
    supports_sharedmem = True
    uses_threads = False
    default_n_jobs = 2

    def __init__(self, picks=(), isolate=True, log=None, **kw):
        ParallelBackendBase.__init__(self, **kw)
        self.picks = itertools.cycle(picks or [1])
        self.isolate, self.log = isolate, log if log is not None else []
        self.queue, self.k = [], 0

    def effective_n_jobs(self, n_jobs):
        return 8 if n_jobs is not None and n_jobs < 0 else n_jobs or 1

    def configure(self, n_jobs=1, parallel=None, **kw):
        self.parallel, self.n, self.queue, self.k = parallel, self.effective_n_jobs(n_jobs), [], 0
        self.order = []
        return self.n

    def submit(self, func, callback=None):
        if self.isolate:
            func = cloudpickle.dumps(func)
        self.queue.append((self.k, func, callback))
        self.k += 1
        return self.k

    def retrieve_result_callback(self, out):
        if out.error is not None:
            raise out.error
        return out.value

    @contextlib.contextmanager
    def retrieval_context(self):
        while self.queue:
            i = (next(self.picks) - 1) % min(len(self.queue), self.n)
            k, func, callback = self.queue.pop(i)
            try:
                if self.isolate:
                    res = pickle.loads(cloudpickle.dumps(pickle.loads(func)()))
                else:
                    res = func()
                out = Outcome(res)
            except Exception as e:
                out = Outcome(error=e)
            self.order.append(k)
            callback(out)
        self.log.append(self.order)
        yield


register_parallel_backend("scheduled", Scheduled)


def schedule(picks, isolate=True, log=None):
    return parallel_backend("scheduled", picks=list(picks), isolate=isolate, log=log)
