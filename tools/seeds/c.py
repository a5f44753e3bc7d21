F = "zielen/filelogic.py"
U = "zielen/userdata.py"
P = "zielen/profile.py"
S = "zielen/fstools.py"
SEEDS = [
dict(id="links-count-as-missing", property="P04",
  edits=[(F, "        remote_paths = self.remote_dir.scan_paths().keys()\n        known_paths", "        remote_paths = self.remote_dir.scan_paths(symlinks=False).keys()\n        known_paths")],
  needs="a relative symbolic link is synced",
  breaks="the link is deleted locally by the next sync",
  demo='''
    w = World(); w.write("local/f", "x"); w.init(); w.sync()
    os.symlink("f", w.p("local/l")); w.sync(); w.sync()
    assert os.path.lexists(w.p("local/l")) and os.path.lexists(w.p("remote/l"))
  '''),
dict(id="excluded-count-as-deleted", property="P05",
  edits=[(F, "        local_paths = self.local_dir.scan_paths().keys()\n        remote_paths", "        local_paths = self.local_dir.scan_paths(\n            exclude=self.profile.all_exclude_matches(self.local_dir.path)).keys()\n        remote_paths")],
  needs="one of several clients excludes a recorded file",
  breaks="the file is deleted from the remote directory although it exists locally and others still sync it",
  demo='''
    w = World(); w.write("local/k", "x"); w.write("local/f", "x"); w.init("a"); w.sync("a")
    w.init("b", local="lb", add_remote=True); w.sync("b")
    w.set_exclude("a", ["f"]); w.sync("a")
    assert os.path.exists(w.p("remote/f"))
  '''),
dict(id="excluded-links-dangle", property="P23",
  edits=[("zielen/commands/sync.py", "fm.update_local(selected_dirs | selected_files | remote_excluded_files)", "fm.update_local(selected_dirs | selected_files)")],
  needs="a file that is only a link locally becomes excluded by every client",
  breaks="the file is removed from the remote directory while the local link points to it",
  demo='''
    w = World(); w.write("local/f", "x"); w.init(limit="1K"); w.sync()
    w.set_exclude("a", ["f"]); w.sync()
    assert os.path.exists(w.p("local/f")) and w.read("local/f") == "x"
  '''),
dict(id="limit-one-space", property="P15",
  edits=[(P, 'r"^([0-9]+)\\s*([KMG])(B|iB)?$",\n            self', 'r"^([0-9]+) ?([KMG])(B|iB)?$",\n            self')],
  needs="more than one space before the unit of StorageLimit",
  breaks="the configuration is accepted although its value cannot be interpreted",
  demo='''
    w = World(); w.write("local/f", "x")
    from zielen.exceptions import ProgramError
    try:
        w.init(limit="15   GB")
    except ProgramError:
        return
    c = w.sync()
    assert c.profile.storage_limit == 15 * 1000**3
  '''),
dict(id="naive-epoch", property="P25",
  edits=[(P, '            timestamp, "%Y-%m-%dT%H:%M:%S.%f").replace(\n            tzinfo=datetime.timezone.utc).timestamp()', '            timestamp, "%Y-%m-%dT%H:%M:%S.%f").timestamp()')],
  needs="the machine is not in the UTC time zone",
  breaks="recorded times are read back shifted, so that modified files are not recognized",
  demo='''
    os.environ["TZ"] = "America/New_York"; time.tzset()
    w = World(); w.write("local/f", "x"); w.init(); c = w.sync()
    assert abs(c.profile.last_sync - time.time()) < 60
  '''),
dict(id="half-life-minutes", property="P16",
  edits=[(P, 'return int(self._cfg_file.vals["PriorityHalfLife"]) * 60**2', 'return int(self._cfg_file.vals["PriorityHalfLife"]) * 60')],
  needs="the daemon runs for more than ten minutes",
  breaks="priorities halve sixty times too fast",
  demo='''
    w = World(); w.write("local/f", "x"); w.init(PriorityHalfLife="2")
    c = SyncCommand(w.name("a")); c.profile.read()
    assert c.profile.priority_half_life == 7200
  '''),
dict(id="rename-loser-by-name", property="P12",
  edits=[(S, "        rel_paths -= set(exclude)\n", "        rel_paths -= {\n            path for path in rel_paths\n            if any(path.startswith(name) for name in exclude)}\n")],
  needs="a file's name begins with the name of an excluded file",
  breaks="a file that is not excluded is left out of the transfer",
  demo='''
    w = World(); w.write("local/a", "x"); w.init(exclude=["a"]); w.sync()
    w.write("local/d/x", "x"); w.write("local/ab", "x"); w.sync()
    assert os.path.exists(w.p("remote/ab"))
  '''),
dict(id="unlock-before-work", property="P01",
  edits=[("zielen/commandbase.py", '"zielen", str(os.getuid()), self.profile.name])', '"zielen", str(os.getuid()), type(self).__name__,\n                self.profile.name])')],
  needs="two different operations run on one profile at the same time",
  breaks="a reset can run while a sync is under way",
  demo='''
    w = World(); w.write("local/f", "x"); w.init(); w.sync()
    from zielen.exceptions import StatusError
    c = SyncCommand(w.name("a")); c.setup_profile()
    try:
        w.reset()
    except StatusError:
        return
    raise AssertionError("reset ran during a sync")
  '''),
dict(id="pattern-dir-children", property="P09",
  edits=[(F, "            ).keys() & self.profile.get_paths().keys())\n", "            ).keys())\n"),
         (F, "            exclude=self.profile.all_exclude_matches(self.local_dir.path)\n            ).keys()", "            exclude=self.profile.exclude_matches(self.local_dir.path)\n            ).keys()")],
  needs="a directory is excluded that was never synced, and files are evicted",
  breaks="files in the excluded directory are deleted from the local directory",
  demo='''
    w = World(); w.write("local/f", "x"); w.init(exclude=["d"]); w.sync()
    w.write("local/d/mine", "precious"); w.sync()
    assert os.path.exists(w.p("local/d/mine"))
  '''),
]
