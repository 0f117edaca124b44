"""Stand-in for multiprocessing.Pool: runs the jobs in this process, on copies of their arguments."""
import pickle


class FakeResult(object):
    def __init__(self, f, args, kwds):
        self.job, self.f, self.done = pickle.dumps((args, kwds)), f, False

    def _run(self):
        if not self.done:
            self.done = True
            a, k = pickle.loads(self.job)
            try:
                self.val, self.err = pickle.loads(pickle.dumps(self.f(*a, **k))), None
            except Exception as e:
                self.err = e

    def get(self, timeout=None):
        self._run()
        if self.err is not None:
            raise self.err
        return self.val

    def wait(self, timeout=None):
        self._run()

    def ready(self):
        return True

    def successful(self):
        self._run()
        return self.err is None


class Pool(object):
    def __init__(self, *a, **k):
        pass

    def apply_async(self, func, args=(), kwds=None, callback=None, error_callback=None):
        r = FakeResult(func, args, kwds or {})
        if callback is not None:
            callback(r.get())
        return r

    def apply(self, func, args=(), kwds=None):
        return self.apply_async(func, args, kwds).get()

    def map_async(self, func, it, chunksize=None, callback=None):
        return FakeResult(lambda: [func(x) for x in list(it)], (), {})

    def map(self, func, it, chunksize=None):
        return [func(x) for x in it]

    def starmap(self, func, it, chunksize=None):
        return [func(*x) for x in it]

    def starmap_async(self, func, it, chunksize=None):
        return FakeResult(lambda: [func(*x) for x in list(it)], (), {})

    def imap(self, func, it, chunksize=1):
        return iter(self.map(func, it))

    imap_unordered = imap

    def close(self):
        pass

    join = terminate = close

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass
