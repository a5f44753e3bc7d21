F = "zielen/filelogic.py"
SEEDS = [
dict(id="excluded-dirs-kept-in-profile", property="P17",
  edits=[(F, """        self.profile.rm_paths(paths)
        self.remote_dir.rm_paths(paths)

    def rm_local_files(""", """        # Directories that still exist locally stay in the profile.
        self.profile.rm_paths(
            [path for path in paths if not os.path.isdir(
                os.path.join(self.local_dir.path, path))])
        self.remote_dir.rm_paths(paths)

    def rm_local_files(""")],
  needs="a directory that was synced and is excluded by every client afterwards",
  breaks="the directory is deleted from the remote directory but it stays recorded as synced in the profile",
  demo='''
def known():
    return set(SyncCommand(w.name("a")).profile.get_paths())
w = World(); w.write("local/d/f", "one", time.time() - 1000)
w.write("local/g", "two", time.time() - 1000)
w.init(); w.sync(); later()
assert {"d", "d/f", "g"} <= known(), known()
w.set_exclude("a", ["d"])
w.sync()
assert not os.path.lexists(w.p("remote/d"))
assert w.read("local/d/f") == "one"
assert "g" in known(), known()
assert "d" not in known(), known()
'''),
]
