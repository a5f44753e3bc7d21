D = "zielen/daemon.py"
DAEMON = '''
import sqlite3, types, zielen.daemon as dm
class Stop(Exception):
    pass
class Ev:
    dir = False
    mask = 1
    def __init__(self, path):
        self.pathname = path
class Fake:
    def __init__(self, *a, **k): pass
    def __getattr__(self, n): return lambda *a, **k: None
dm.pyinotify = types.SimpleNamespace(
    WatchManager=Fake, ThreadedNotifier=Fake, IN_OPEN=1, IN_CREATE=2,
    IN_Q_OVERFLOW=4)
now = [time.time()]
'''
SEEDS = [
dict(id="failed-sync-retried-at-once", property="P29",
  edits=[(D, "                last_attempt = time.time()\n", "                if cmd.returncode == 0:\n                    last_attempt = time.time()\n")],
  needs="a sync started by the daemon fails, for example because the remote directory is not mounted",
  breaks="the daemon starts one sync after another instead of waiting for the interval",
  demo=DAEMON + '''
w = World(); w.write("local/f", "x"); w.init(); w.sync()
d = dm.Daemon(w.name("a")); d.profile.read()
started = []
class Popen:
    stderr = ()
    returncode = 1
    def __init__(self, *a, **k):
        started.append(now[0])
    def wait(self, *a): return 1
    def poll(self): return 1
    def communicate(self, *a): return ("", "")
    def __enter__(self): return self
    def __exit__(self, *a): pass
def sleep(n):
    now[0] += n
    if now[0] > start + 3 * d.profile.sync_interval:
        raise Stop
start = now[0]
sub = dm.subprocess
dm.subprocess = types.SimpleNamespace(**dict(vars(sub), Popen=Popen))
dm.time = types.SimpleNamespace(time=lambda: now[0], sleep=sleep)
try:
    d._sync()
except Stop:
    pass
assert 1 <= len(started) <= 3, len(started)
'''),
dict(id="cooldown-prolonged", property="P19",
  edits=[(D, "                    self._cooldown_files[path] = timestamp\n", "                self._cooldown_files[path] = timestamp\n")],
  needs="a file is opened again and again in short succession for a long time",
  breaks="only the first use is counted, however long the file is used",
  demo=DAEMON + '''
w = World(); w.write("local/f", "x"); w.init(); w.sync()
d = dm.Daemon(w.name("a")); d._sync = lambda: None
counted = []
d.profile.increment = lambda paths, n: counted.extend(paths)
for i in range(50):
    d._files_queue.put((Ev(w.p("local/f")), now[0] + i * 0.5))
def sleep(n):
    raise Stop
dm.time = types.SimpleNamespace(time=lambda: now[0], sleep=sleep)
try:
    d.main()
except Stop:
    pass
assert len(counted) > 10, len(counted)
'''),
]
