"""Scratch worlds for demonstrations: everything lives under $TMPDIR."""
import io, os, sys, shutil, tempfile, textwrap, time, uuid, contextlib
assert os.getuid() != 0, "demonstrations run unprivileged"
from zielen.commands.init import InitCommand
from zielen.commands.sync import SyncCommand
from zielen.commands.reset import ResetCommand


class World:
    def __init__(self):
        self.tmp = tempfile.mkdtemp(prefix="w-")
        self.tag = uuid.uuid4().hex[:8]
        os.environ["XDG_CONFIG_HOME"] = self.p("home", ".config")

    def p(self, *parts):
        return os.path.join(self.tmp, *parts)

    def name(self, who):
        return who + "-" + self.tag

    def write(self, rel, text="x", mtime=None):
        path = self.p(rel)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w") as f:
            f.write(text)
        if mtime is not None:
            os.utime(path, (mtime, mtime))
        return path

    def read(self, rel):
        with open(self.p(rel)) as f:
            return f.read()

    def init(self, who="a", local="local", remote="remote", limit="1GiB",
             add_remote=False, exclude=None, **cfg):
        for d in ([remote] if add_remote else [local, remote]):
            os.makedirs(self.p(d), exist_ok=True)
        t = self.p("template-" + who)
        opts = {"LocalDir": self.p(local), "RemoteDir": self.p(remote),
                "StorageLimit": limit}
        opts.update(cfg)
        with open(t, "w") as f:
            f.writelines("%s=%s\n" % kv for kv in opts.items())
        ex = None
        if exclude is not None:
            ex = self.p("exclude-" + who)
            with open(ex, "w") as f:
                f.write("\n".join(exclude) + "\n")
        with quiet():
            InitCommand(self.name(who), exclude=ex, template=t,
                        add_remote=add_remote).main()

    def edit_cfg(self, who, old, new):
        c = SyncCommand(self.name(who))
        with open(c.profile.cfg_path) as f:
            text = f.read()
        assert old in text
        with open(c.profile.cfg_path, "w") as f:
            f.write(text.replace(old, new))

    def set_exclude(self, who, patterns):
        c = SyncCommand(self.name(who))
        with open(c.profile.exclude_path, "w") as f:
            f.write("\n".join(patterns) + "\n")

    def sync(self, who="a"):
        c = SyncCommand(self.name(who))
        try:
            with quiet():
                c.main()
        finally:
            # As when the process ends.
            for owner in (c.profile, c.remote_dir):
                try:
                    owner._db_file._conn.close()
                except Exception:
                    pass
        return c

    def reset(self, who="a", **kw):
        c = ResetCommand(self.name(who), **kw)
        with quiet():
            c.main()


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def later(seconds=0.05):
    time.sleep(seconds)
