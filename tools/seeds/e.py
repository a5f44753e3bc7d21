F = "zielen/filelogic.py"
P = "zielen/profile.py"
C = "zielen/containerbase.py"
S = "zielen/commands/sync.py"
DB = '''
import os, random
from zielen.profile import ProfileDBFile
from zielen.remote import *  # noqa
'''
SEEDS = [
dict(id="uploads-stamped-with-mtime", property="P06",
  edits=[(F, "        # Update the time of the last sync for files that have been modified.\n        self.remote_dir.update_paths(update_paths, lastsync=time.time())\n",
 "        # Record when the files were last modified.\n        for path in update_paths:\n            self.remote_dir.update_paths([path], lastsync=os.lstat(\n                os.path.join(self.local_dir.path, path)).st_mtime)\n")],
  needs="two clients; one modifies a file, then the other one syncs, then the first one uploads its change; then the other one modifies the same file, too",
  breaks="the other client does not notice that the file was changed in the meantime and overwrites the change without keeping it",
  demo='''
w = World(); w.write("local/f", "old", time.time() - 1000)
w.init(); w.sync()
w.init("b", "local-b", "remote", add_remote=True); w.sync("b")
later(); w.sync("b"); later()
w.write("local/f", "from a"); later()
w.sync("b"); later()
w.sync("a"); later()
w.write("local-b/f", "from b"); later()
w.sync("b")
texts = []
for d, ds, fs in os.walk(w.p("remote")):
    if ".zielen" in d: continue
    texts += [open(os.path.join(d, f)).read() for f in fs if f.startswith("f")]
assert sorted(texts) == ["from a", "from b"], texts
'''),
dict(id="salt-of-directories-dropped", property="P18",
  edits=[(P, "            WHERE path NOT IN (\n                SELECT path\n                FROM nodes);\n", "            WHERE path NOT IN (\n                SELECT path\n                FROM nodes\n                WHERE directory = 0);\n")],
  needs="the hash of a directory's path equals the hash of another recorded path, and some path is removed afterwards",
  breaks="the row of the directory is no longer found",
  demo='''
import zielen.containerbase as cb, zielen.profile as pr
real = cb.hashlib
class Weak:
    def __init__(self): self.s = b""
    def update(self, b): self.s += b
    def digest(self):
        t = self.s.decode()
        if t in ("one", "two"): t = "same"
        return real.sha256(t.encode()).digest()
class Fake:
    sha256 = Weak
cb.hashlib = Fake
import tempfile
db = pr.ProfileDBFile(os.path.join(tempfile.mkdtemp(), "x.db"))
db.create() if db._cur is None else None
db.add_paths(["one", "gone"], [])
db.add_paths([], ["two"])
assert set(db.get_paths()) == {"one", "two", "gone"}
assert db.get_path_info("two").directory
db.rm_paths(["gone"])
assert db.get_path_info("two").directory
db.rm_paths(["two"])
assert set(db.get_paths()) == {"one"}, db.get_paths()
'''),
dict(id="stats-of-links-missing", property="P22",
  edits=[(F, "        remote_stats = self.remote_dir.scan_paths(dirs=False, memoize=False)\n", "        remote_stats = self.remote_dir.scan_paths(\n            symlinks=False, memoize=False)\n")],
  needs="a symbolic link to a file in the same directory, in no directory that is kept",
  breaks="the sync ends with a KeyError",
  demo="""
w = World(); w.write("local/f", "x")
os.symlink("f", w.p("local", "l"))
w.init(); w.sync(); w.sync()
assert os.readlink(w.p("remote", "l")) == "f"
"""),
dict(id="uploads-below-mount-point", property="P11",
  edits=[(F, "                self.local_dir.path, self.remote_dir.safe_path,\n                files=update_paths, exclude=excluded_paths - update_paths,\n", "                self.local_dir.path, self.remote_dir.path,\n                files=update_paths, exclude=excluded_paths - update_paths,\n")],
  needs="the remote directory is unmounted during the sync, before files are uploaded",
  breaks="the files are written below the empty mount point",
  demo="""
import zielen.filelogic as fl
w = World(); w.write("local/f", "x"); w.init(); w.sync()
w.write("local/new", "y")
real = fl.transfer_tree
def unmounted(source, dest, **k):
    if source == w.p("local") and os.path.exists(w.p("remote", ".zielen")):
        os.rename(w.p("remote"), w.p("elsewhere")); os.mkdir(w.p("remote"))
    return real(source, dest, **k)
fl.transfer_tree = unmounted
try:
    w.sync()
except Exception:
    pass
assert os.listdir(w.p("remote")) == [], os.listdir(w.p("remote"))
"""),
dict(id="exclude-by-prefix", property="P12",
  edits=[("zielen/fstools.py", "        rel_paths -= set(exclude)\n", "        exclude = tuple(exclude)\n        rel_paths = {\n            path for path in rel_paths if not path.startswith(exclude)}\n")],
  needs="an excluded file whose name is the beginning of the name of a new file",
  breaks="the new file is recorded as synced but never uploaded",
  demo="""
w = World(); w.write("local/f", "x"); w.init(exclude=["note"]); w.sync()
w.write("local/note", "private"); w.write("local/notes", "public")
w.sync()
assert w.read("remote/notes") == "public"
"""),
dict(id="hangup-counts-as-success", property="P20",
  edits=[("zielen/cli.py", "        signal.signal(signal.SIGHUP, signal_exception_handler)\n        signal.signal(signal.SIGINT, signal_exception_handler)\n\n        cmd_args", "        signal.signal(signal.SIGHUP, signal_exit_handler)\n        signal.signal(signal.SIGINT, signal_exception_handler)\n\n        cmd_args")],
  needs="the terminal is closed during a sync",
  breaks="the interrupted sync exits with status 0 and without a message",
  demo="""
import io, signal, zielen.cli as cli, zielen.filelogic as fl
w = World(); w.write("local/f", "x"); w.init(); w.sync()
def cut(self, *a):
    os.kill(os.getpid(), signal.SIGHUP); time.sleep(1)
fl.FilesManager.update_local = cut
sys.argv = ["zielen", "sync", w.name("a")]
err = io.StringIO()
with contextlib.redirect_stderr(err):
    try:
        rc = cli.main()
    except SystemExit as e:
        rc = e.code
assert rc == 1 and "SIGHUP" in err.getvalue(), (rc, err.getvalue())
"""),
dict(id="list-skips-empty-config", property="P30",
  edits=[("zielen/commands/list.py", "            config_files.append((name, config_file))\n", "            if config_file.raw_vals:\n                config_files.append((name, config_file))\n")],
  needs="a profile whose initialization was interrupted before its configuration was complete, so that it has no options yet",
  breaks="the profile is missing from the list",
  demo="""
import io
from zielen.commands.list import ListCommand
w = World(); w.write("local/f", "x"); w.init()
w.init("b", "local-b", "remote-b")
c = SyncCommand(w.name("b"))
open(c.profile.cfg_path, "w").close()
out = io.StringIO()
with contextlib.redirect_stdout(out):
    ListCommand().main()
assert w.name("a") in out.getvalue() and w.name("b") in out.getvalue(), out.getvalue()
"""),
]
