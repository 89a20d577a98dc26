"""wine: a prefix of its own for an unprivileged user, made and removed by the check."""
import os, shutil, subprocess
import vf


def wine_env(base):
    return {"HOME": os.path.join(base, "wine"), "WINEPREFIX": os.path.join(base, "wine", "p"), "WINEARCH": "win64", "WINEDEBUG": "-all",
            "WINEDLLOVERRIDES": "mscoree,mshtml,winemenubuilder.exe,winedbg.exe=d", "LC_ALL": "C.UTF-8", "PATH": "/usr/bin:/bin", "TERM": "xterm"}


def as_nobody(base, argv, timeout):
    who = {"user": vf.NOBODY, "group": vf.NOBODY, "extra_groups": []} if os.geteuid() == 0 else {}
    return subprocess.run(["timeout", "-k", "5", str(timeout)] + argv, env=wine_env(base), cwd=os.path.join(base, "wine"), stdin=subprocess.DEVNULL,
                          stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, **who)


def start(base, exe, rc):
    """makes the prefix and starts its server; exe must end with the exit code rc"""
    os.mkdir(os.path.join(base, "wine"))
    if os.geteuid() == 0:
        os.chown(os.path.join(base, "wine"), vf.NOBODY, vf.NOBODY)
    for again in range(3):
        as_nobody(base, ["wine", "wineboot", "-i"], 180)
        as_nobody(base, ["wineserver", "-w"], 60)
        as_nobody(base, ["sh", "-c", "echo disable > p/.update-timestamp"], 10)
        as_nobody(base, ["wineserver", "-p"], 30)
        if as_nobody(base, ["wine"] + exe, 60).returncode == rc:
            return
        stop(base)
        shutil.rmtree(os.path.join(base, "wine", "p"), ignore_errors=True)


def stop(base):
    if os.path.isdir(os.path.join(base, "wine", "p")):
        as_nobody(base, ["wineserver", "-k"], 30)
        as_nobody(base, ["wineserver", "-w"], 30)
        try:                    # the socket of that wineserver
            st = os.stat(os.path.join(base, "wine", "p"))
            shutil.rmtree("/tmp/.wine-%d/server-%x-%x" % (vf.NOBODY if os.geteuid() == 0 else os.geteuid(), st.st_dev, st.st_ino), ignore_errors=True)
            os.rmdir("/tmp/.wine-%d" % vf.NOBODY)
        except OSError:
            pass
