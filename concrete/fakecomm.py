"""A communicator whose ranks are threads of one process: point-to-point messages and the
collectives redrock uses.  Messages are pickled, as with mpi4py."""
import threading, queue, pickle

class Req:
    def __init__(self, ev=None): self.ev = ev
    def wait(self):
        if self.ev is not None and not self.ev.wait(60): raise RuntimeError('send never received')

class World:
    def __init__(self, size, rng=None):
        self.size = size; self.q = {(a, b): queue.Queue() for a in range(size) for b in range(size)}
        self.bar = threading.Barrier(size); self.box = {}; self.lock = threading.Lock(); self.rng = rng
        self.log = []
class Comm:
    def __init__(self, world, rank): self.w, self.rank, self.size = world, rank, world.size
    def Get_rank(self): return self.rank
    def Get_size(self): return self.size
    def _delay(self):
        if self.w.rng is not None:
            import time
            with self.w.lock: t = self.w.rng.choice([0, 0, .001, .004])
            time.sleep(t)
    def send(self, obj, dest=0, tag=0): self._delay(); self.w.q[self.rank, dest].put((pickle.dumps(obj), None))
    def isend(self, obj, dest=0, tag=0):
        ev = threading.Event(); self.w.q[self.rank, dest].put((pickle.dumps(obj), ev)); return Req(ev)
    def recv(self, source=0, tag=0):
        self._delay(); d, ev = self.w.q[source, self.rank].get(timeout=60)
        if ev is not None: ev.set()
        return pickle.loads(d)
    def sendrecv(self, obj, dest=0, source=0, **k):
        r = self.isend(obj, dest); x = self.recv(source); r.wait(); return x
    def barrier(self): self.w.bar.wait(60)
    Barrier = barrier
    def allgather(self, obj):
        self.w.box[self.rank] = pickle.dumps(obj); self.barrier()
        r = [pickle.loads(self.w.box[i]) for i in range(self.size)]; self.barrier(); return r
    def gather(self, obj, root=0):
        r = self.allgather(obj); return r if self.rank == root else None
    def bcast(self, obj, root=0):
        if self.rank == root: self.w.box['b'] = pickle.dumps(obj)
        self.barrier(); r = pickle.loads(self.w.box['b']); self.barrier(); return r
    def scatter(self, obj, root=0):
        r = self.bcast(obj, root); return r[self.rank]
    def reduce(self, obj, op=None, root=0):
        r = self.allgather(obj); s = r[0]
        for x in r[1:]: s = s + x
        return s if self.rank == root else None
    def allreduce(self, obj, op=None):
        r = self.allgather(obj); s = r[0]
        for x in r[1:]: s = s + x
        return s
    def Abort(self, *a): raise RuntimeError('Abort')

def run_ranks(size, f, rng=None):
    "f(comm) in every rank; -> list of results; the first exception of a rank is raised"
    w = World(size, rng); out = [None] * size; err = []
    def body(r):
        try: out[r] = f(Comm(w, r))
        except BaseException as e:
            err.append(e); w.bar.abort()
    th = [threading.Thread(target=body, args=(r,), daemon=True) for r in range(size)]
    for t in th: t.start()
    for t in th: t.join(120)
    real = [e for e in err if not isinstance(e, (threading.BrokenBarrierError, queue.Empty))] or err
    if real: raise real[0]
    if any(t.is_alive() for t in th): raise RuntimeError('a rank never finished')
    return out, w
