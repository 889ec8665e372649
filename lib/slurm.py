"""A stand-in for SLURM: sbatch and srun only record, jobs run in forks."""
import os
import runpy
import signal
import subprocess
import sys
import traceback

SBATCH = '''#!/bin/sh
n=$(cat "$FAKE_SLURM/next")
echo $((n + 1)) > "$FAKE_SLURM/next"
{ printf '%%s\\t%%s' "$n" "$PWD"; for a in "$@"; do printf '\\t%%s' "$a"; done; echo; } \\
    >> "$FAKE_SLURM/submitted"
[ -f "$FAKE_SLURM/refuse" ] && { echo refused >&2; exit 1; }
p=0
f=
for a in "$@"; do
    case "$a" in --parsable) p=1;; -*) ;; *) f="$a";; esac
done
[ -f "$f" ] || { echo "cannot open $f" >&2; exit 1; }
[ $p = 1 ] && echo "$n" || echo "Submitted batch job $n"
'''
SRUN = '''#!/bin/sh
{ for a in "$@"; do printf '%%s\\0' "$a"; done; } > "$FAKE_SLURM/srun.argv"
env -0 > "$FAKE_SLURM/srun.env"
'''


class Slurm:
    def __init__(self, folder, first=1000):
        self.d = folder
        os.makedirs(os.path.join(folder, "bin"))
        for n, t in (("sbatch", SBATCH), ("srun", SRUN)):
            p = os.path.join(folder, "bin", n)
            with open(p, "w") as f:
                f.write(t.replace("%%", "%"))
            os.chmod(p, 0o755)
        with open(os.path.join(folder, "next"), "w") as f:
            f.write("%d\n" % first)
        self.done = {}          # job id -> succeeded
        self.read = 0
        self.tasks = 0

    def env(self):
        e = {k: v for k, v in os.environ.items()
             if not k.startswith("SLURM")}
        e["FAKE_SLURM"] = self.d
        e["PATH"] = os.path.join(self.d, "bin") + ":/usr/bin:/bin"
        return e

    def sh(self, cmd, cwd):
        return subprocess.run(cmd, cwd=cwd, env=self.env(), text=True,
                              capture_output=True)

    def submitted(self):
        """(job id, folder, arguments) of submissions since the last call"""
        p = os.path.join(self.d, "submitted")
        if not os.path.exists(p):
            return []
        lines = open(p).read().splitlines()
        new, self.read = lines[self.read:], len(lines)
        new = [x.split("\t") for x in new]
        return [(int(x[0]), x[1], x[2:]) for x in new]

    @staticmethod
    def directives(path):
        out = {}
        for line in open(path):
            if line.startswith("#SBATCH "):
                k, _, v = line[8:].strip().partition("=")
                assert k not in out, "directive given twice"
                out[k] = v
            elif line.strip() and not line.startswith("#"):
                break
        return out

    @staticmethod
    def array(spec):
        """task ids of an array and the limit"""
        spec, _, lim = spec.partition("%")
        ids = []
        for x in spec.split(","):
            a, _, b = x.partition("-")
            ids += range(int(a), int(b or a) + 1)
        return ids, (int(lim) if lim else None)

    def call(self, script, cwd, extra):
        """what a batch script hands to srun"""
        for f in ("srun.argv", "srun.env"):
            p = os.path.join(self.d, f)
            if os.path.exists(p):
                os.remove(p)
        e = self.env()
        e.update(extra)
        r = subprocess.run(["/bin/bash", script], cwd=cwd, env=e, text=True,
                           capture_output=True)
        p = os.path.join(self.d, "srun.argv")
        if r.returncode or not os.path.exists(p):
            return None, r.stderr
        argv = open(p).read().split("\0")[:-1]
        env = dict(x.partition("=")[::2] for x in open(
            os.path.join(self.d, "srun.env")).read().split("\0")[:-1])
        return argv, env

    def start(self, argv, env, cwd, log=None, pre=None):
        """run 'python SCRIPT ARGS' in a fork"""
        self.tasks += 1
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid:
            return pid
        code = 1
        try:
            signal.alarm(0)
            fd = os.open(log or os.devnull, os.O_WRONLY | os.O_CREAT
                         | os.O_TRUNC)
            os.dup2(fd, 1)
            os.dup2(fd, 2)
            sys.stdout = os.fdopen(1, "w", closefd=False)
            sys.stderr = os.fdopen(2, "w", closefd=False)
            os.chdir(cwd)
            for k in list(os.environ):
                if k.startswith("SLURM"):
                    del os.environ[k]
            os.environ.update({k: v for k, v in env.items()
                               if k.startswith("SLURM")})
            if pre is not None:
                pre()
            sys.argv = list(argv[1:])
            runpy.run_path(argv[1], run_name="__main__")
            code = 0
        except SystemExit as e:
            code = e.code if isinstance(e.code, int) else int(bool(e.code))
        except BaseException:
            traceback.print_exc()
        finally:
            try:
                sys.stdout.flush()
                sys.stderr.flush()
            finally:
                os._exit(code)

    @staticmethod
    def wait(pid):
        return os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1]) == 0
