import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.execv(sys.executable, [sys.executable, "-m", "zcheck"] + sys.argv[1:])

from zcheck.check import main          # noqa: E402

try:
    import signal
    def _late(*a):
        print("note: the analysis ran out of time; nothing was decided")
        sys.stdout.flush()
        os._exit(0)
    signal.signal(signal.SIGALRM, _late)
    signal.alarm(800)
except Exception:
    pass
import threading                        # noqa: E402
threading.stack_size(512 * 1024 * 1024)
rc = []
t = threading.Thread(target=lambda: rc.append(main(sys.argv[1:])))
t.start()
t.join()
sys.exit(rc[0] if rc else 2)
