F = "zielen/filelogic.py"
SEEDS = [
dict(id="trash-third-name", property="P07",
  edits=[(F, "            while new_filename in trash_filenames:\n", "            if new_filename in trash_filenames:\n")],
  needs="three files of the same base name are moved to the trash one after the other",
  breaks="the third file moved to the trash overwrites the second one",
  demo='''
    w = World()
    for n in "xyz":
        w.write("local/%s/f.txt" % n, n)
    w.init(); w.sync()
    w.edit_cfg("a", "StorageLimit=1GiB", "StorageLimit=1K"); w.sync()
    for n in "xyz":
        os.remove(w.p("local/%s/f.txt" % n)); w.sync()
    t = w.p("remote/.zielen/Trash")
    assert sorted(open(os.path.join(t, n)).read() for n in os.listdir(t)) == list("xyz")
  '''),
dict(id="conflict-tolerance", property="P06",
  edits=[(F, "            elif remote_mtimes[path] < local_mtimes[path]:\n",
             "            elif remote_mtimes[path] + 1 < local_mtimes[path]:\n")],
  needs="both copies of a file are changed within one second of each other, the local one last",
  breaks="the remote version is overwritten without a copy",
  demo='''
    w = World(); w.write("local/f", "x"); w.init(); w.sync()
    later()
    now = time.time()
    w.write("remote/f", "theirs", mtime=now); w.write("local/f", "mine", mtime=now + 0.5)
    w.sync(); w.sync()
    c = sorted(w.read("remote/" + n) for n in os.listdir(w.p("remote")) if n.startswith("f"))
    assert c == ["mine", "theirs"], c
  '''),
dict(id="reset-forgets-links", property="P13",
  edits=[("zielen/commands/reset.py", "if self.remote_dir.scan_paths(dirs=False, memoize=False):",
          "if self.remote_dir.scan_paths(\n                        symlinks=False, dirs=False, memoize=False):")],
  needs="a symbolic link was put into the remote directory after the last sync",
  breaks="reset deletes the link from the remote directory without having retrieved it",
  demo='''
    w = World(); w.write("local/f", "x"); w.init(); w.sync()
    os.symlink("f", w.p("remote/new"))
    from zielen.exceptions import ProgramError
    try:
        w.reset()
    except ProgramError:
        pass
    assert os.path.lexists(w.p("remote/new")) or os.path.lexists(w.p("local/new"))
  '''),
dict(id="selected-links-counted-twice", property="P26",
  edits=[(F, "len(contained_files - selected_files) * symlink_size", "len(contained_files) * symlink_size")],
  needs="a subdirectory is selected before the directory that contains it",
  breaks="more is kept locally than the storage limit allows",
  demo='''
    w = World()
    for i in range(20):
        w.write("local/d/sub/%d" % i, "x" * 4000)
    w.write("local/d/o", "x" * 4000); w.write("local/e/f", "x" * 60000)
    w.init(limit="98K")
    c = SyncCommand(w.name("a")); c.profile.read()
    c.profile.increment(["d/sub/%d" % i for i in range(20)], 1000)
    c.profile.increment(["d/o"], 10); c.profile.write(); c.profile._db_file.close()
    w.sync()
    size = sum(os.lstat(os.path.join(r, n)).st_blocks * 512 for r, ds, fs in os.walk(w.p("local"))
               for n in fs if not os.path.islink(os.path.join(r, n)))
    assert size <= 98 * 1024, size
  '''),
]
