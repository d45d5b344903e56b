"""Programs for Windows: the mingw compiler as the reference and wine to run them. Wine keeps everything
below a prefix in the check's scratch directory."""
import os, signal, subprocess, time
from vlib import *

MINGW = "x86_64-w64-mingw32-gcc"
CCFLAGS = ["-fabi=ms", "-fmingw-workarounds"]


class Wine:
    def __init__(self, chk):
        self.prefix = os.path.join(chk.work, "wine")
        self.env = {"PATH": os.environ["PATH"], "HOME": chk.work, "WINEPREFIX": self.prefix, "WINEDEBUG": "-all",
                    "WINEDLLOVERRIDES": "mscoree=;mshtml=;winemenubuilder.exe=", "LC_ALL": "C"}
        try:
            subprocess.run(["wine", "wineboot", "-i"], env=self.env, timeout=240, stdin=subprocess.DEVNULL,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, check=True)
        except (OSError, subprocess.SubprocessError) as e:
            self.close()
            raise CheckError("wine does not start: %s" % e)

    def run(self, exe, timeout=30, args=()):
        """-> (rc, out); rc None = out of time. Wine itself can fail to start a program on a busy machine: only
        what fails every time is a failure of the program."""
        for i in range(3):
            rc, out = self.run1(exe, timeout, args)
            if rc in (0, None):
                break
            time.sleep(i)
        return rc, out

    def run1(self, exe, timeout, args):
        p = subprocess.Popen(["prlimit", "--core=0", "--cpu=%d" % timeout, "--", "wine", exe, *args], env=self.env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                             stderr=subprocess.DEVNULL, start_new_session=True)
        try:
            out, _ = p.communicate(timeout=timeout * 6 + 30)
            return (None if p.returncode in (-24, -9) else p.returncode), out.replace(b"\r\n", b"\n")
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.communicate()
            return None, b""

    def close(self):
        subprocess.run(["wineserver", "-k"], env=self.env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        subprocess.run(["wineserver", "-w"], env=self.env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60)
