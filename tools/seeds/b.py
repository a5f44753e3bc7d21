F = "zielen/filelogic.py"
U = "zielen/userdata.py"
P = "zielen/profile.py"
S = "zielen/fstools.py"
SEEDS = [
dict(id="modified-only-if-local", property="P03",
  edits=[(F, "            if mtime > last_sync and self.profile.get_path_info(path)\n            and not is_unsafe_symlink(",
             "            if mtime > last_sync and path in self.profile.get_paths(local=True)\n            and not is_unsafe_symlink(")],
  needs="the user replaces the link to a remote-only file with a new file",
  breaks="the new content is never uploaded and is overwritten",
  demo='''
    w = World(); w.write("local/f", "old"); w.init(limit="1K"); w.sync()
    assert os.path.islink(w.p("local/f"))
    later(); os.remove(w.p("local/f")); w.write("local/f", "new"); w.sync(); w.sync()
    assert w.read("remote/f") == "new"
  '''),
dict(id="autocommit", property="P02",
  edits=[("zielen/containerbase.py", '                isolation_level="DEFERRED")', "                isolation_level=None)")],
  needs="a sync is interrupted after it recorded a new file and before it uploaded it",
  breaks="the next sync deletes the new local file because it is recorded but missing remotely",
  demo='''
    w = World(); w.write("local/k", "x"); w.init(); w.sync()
    w.write("local/new", "precious", mtime=time.time() - 1000)
    import zielen.filelogic as fl
    orig = fl.FilesManager.update_remote
    def boom(*a):
        raise KeyboardInterrupt
    fl.FilesManager.update_remote = boom
    try:
        w.sync()
    except KeyboardInterrupt:
        pass
    fl.FilesManager.update_remote = orig
    w.sync(); w.sync()
    assert w.read("remote/new") == "precious" and os.path.exists(w.p("local/new"))
  '''),
dict(id="overlap-only-one-way", property="P14",
  edits=[("zielen/commands/init.py", "            if common_path in [profile.local_path, dir_path]:\n", "            if common_path == profile.local_path:\n")],
  needs="the new profile's local directory contains another profile's",
  breaks="overlapping local directories are accepted",
  demo='''
    w = World(); w.write("local/sub/f", "x"); w.init("a", local="local/sub"); w.sync("a")
    from zielen.exceptions import InputError
    try:
        w.init("b", local="local", remote="r2")
    except InputError:
        return
    raise AssertionError("accepted")
  '''),
dict(id="counts-lost-when-busy", property="P19",
  edits=[("zielen/daemon.py", "            except sqlite3.OperationalError:\n                continue\n            else:\n                deduplicated_paths = []\n            finally:\n                time.sleep(",
          "            except sqlite3.OperationalError:\n                continue\n            finally:\n                deduplicated_paths = []\n                time.sleep(")],
  needs="the database is locked while the daemon records accesses",
  breaks="the accesses are not counted",
  demo='''
    w = World(); w.write("local/f", "x"); w.init(); w.sync()
    import sqlite3, types, zielen.daemon as dm, zielen.profile as pf
    d = dm.Daemon(w.name("a"))
    class Stop(Exception):
        pass
    class Ev:
        dir = False
        mask = 1
        pathname = w.p("local/f")
    class Fake:
        def __init__(self, *a, **k): pass
        def __getattr__(self, n): return lambda *a, **k: None
    dm.pyinotify = types.SimpleNamespace(WatchManager=Fake, ThreadedNotifier=Fake, IN_OPEN=1, IN_CREATE=2, IN_Q_OVERFLOW=4)
    d._sync = lambda: None
    calls, sleeps = [], []
    real = d.profile.increment
    def inc(paths, n):
        calls.append(list(paths))
        if len(calls) == 1:
            raise sqlite3.OperationalError("locked")
        return real(paths, n)
    d.profile.increment = inc
    def sleep(n):
        sleeps.append(n)
        if len(sleeps) == 2:
            raise Stop
    d._files_queue.put((Ev, time.time()))
    tm = dm.time
    dm.time = types.SimpleNamespace(time=tm.time, sleep=sleep)
    try:
        d.main()
    except Stop:
        pass
    assert calls[1] == ["f"], calls
  '''),
dict(id="transfer-error-unreported", property="P20",
  edits=[("zielen/exceptions.py", "class FileTransferError(ProgramError):", "class FileTransferError(OSError):")],
  needs="a file that is to be uploaded cannot be read",
  breaks="the program ends with a traceback instead of an error message",
  demo='''
    w = World(); w.write("local/k", "x"); w.init(); w.sync()
    os.chmod(w.write("local/f", "x"), 0)
    import zielen.cli as cli
    sys.argv = ["zielen", "sync", w.name("a")]
    with quiet():
        assert cli.main() == 1
  '''),
dict(id="exclude-copy-by-name", property="P28",
  edits=[("zielen/commands/reset.py", "self.remote_dir.rm_exclude_file(self.profile.id)", "self.remote_dir.rm_exclude_file(self.profile.name)")],
  needs="one of several clients is reset while the others go on",
  breaks="the exclude patterns of the client that is gone stay in the remote directory for ever",
  demo='''
    w = World(); w.write("local/k", "x"); w.init("a"); w.sync("a")
    w.init("b", local="lb", add_remote=True); w.sync("b")
    w.reset("b", keep_remote=True)
    assert len(os.listdir(w.p("remote/.zielen/exclude"))) == 1
  '''),
dict(id="excluded-by-some", property="P27",
  edits=[(U, "                if path not in pattern_file.all_matches(start_path):\n                    break\n",
             "                if path not in pattern_file.all_matches(start_path):\n                    continue\n                rm_files.add(path)\n                break\n"),
         (U, "            else:\n                rm_files.add(path)\n\n        return rm_files", "\n        return rm_files")],
  needs="one of several clients excludes a file that the others sync",
  breaks="the file is removed from the remote directory for everyone",
  demo='''
    w = World(); w.write("local/k", "x"); w.write("local/f", "x"); w.init("a"); w.sync("a")
    w.init("b", local="lb", add_remote=True); w.sync("b")
    w.set_exclude("a", ["f"]); w.sync("a")
    assert os.path.exists(w.p("remote/f"))
  '''),
dict(id="retrieve-options-swapped", property="P21",
  edits=[("zielen/cli.py", "            cmd_args.profile, cmd_args.keep_remote,\n            cmd_args.no_retrieve)", "            cmd_args.profile, cmd_args.no_retrieve,\n            cmd_args.keep_remote)")],
  needs="reset is called with --keep-remote or --no-retrieve on the command line",
  breaks="the option does what the other one should do",
  demo='''
    w = World(); w.write("local/f", "x"); w.init(limit="1K"); w.sync()
    import zielen.cli as cli
    sys.argv = ["zielen", "reset", "--keep-remote", w.name("a")]
    with quiet():
        assert cli.main() == 0
    assert os.path.exists(w.p("remote/f")) and w.read("local/f") == "x"
  '''),
dict(id="follow-linked-dirs", property="P10",
  edits=[(S, "        if entry.is_dir(follow_symlinks=False):\n            yield from scan_tree(entry.path)", "        if entry.is_dir():\n            yield from scan_tree(entry.path)")],
  needs="the local directory contains a symbolic link to one of its directories",
  breaks="the files behind the link are uploaded through it",
  demo='''
    w = World(); w.write("local/d/f", "x"); w.init(); w.sync()
    os.symlink("d", w.p("local/l")); w.sync(); w.sync()
    c = SyncCommand(w.name("a"))
    assert not c.profile.get_path_info("l/f")
    assert os.path.islink(w.p("remote/l"))
  '''),
dict(id="cleanup-zero-days", property="P08",
  edits=[(P, '        if value.startswith("-"):\n            return None', '        if int(value) <= 0:\n            return None')],
  needs="the cleanup period is set to 0 days",
  breaks="expired trash is never deleted",
  demo='''
    w = World(); w.write("local/f", "x"); w.init(TrashCleanupPeriod="0"); w.sync()
    w.write("remote/.zielen/Trash/q"); later(); w.sync()
    assert not os.path.exists(w.p("remote/.zielen/Trash/q"))
  '''),
]
