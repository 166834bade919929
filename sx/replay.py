"""Client of the concrete side (used by the runner, runs under python3-vt)."""
import json
import os
import shutil
import subprocess
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


class Server:
    def __init__(self, hashseed='0'):
        base = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else None
        # an unprivileged user runs the code; when it can not read the sources where they are, from a copy
        for copy in (False, True):
            self.dir = tempfile.mkdtemp(prefix='sxreplay', dir=base)
            try:
                self.start(hashseed, copy)
                return
            except (OSError, RuntimeError) as e:
                error = e
                self.close()
        raise RuntimeError(f'the replay process can not be started: {error}')

    def start(self, hashseed, copy):
        self.p = None
        repo, verif, home = os.environ.get('SX_REPO', '/repo'), VERIF, self.dir
        if copy:
            home = os.path.join(self.dir, 'home')
            shutil.copytree(repo, os.path.join(self.dir, 'repo'), ignore=shutil.ignore_patterns('.git', '__pycache__'))
            for d in ('sx', 'props'):
                shutil.copytree(os.path.join(VERIF, d), os.path.join(self.dir, 'verif', d), ignore=shutil.ignore_patterns('__pycache__'))
            repo, verif = os.path.join(self.dir, 'repo'), os.path.join(self.dir, 'verif')
            os.mkdir(home)
            os.chmod(self.dir, 0o755)
        kw = {}
        if os.getuid() == 0:
            os.chown(home, 65534, 65534)
            kw = dict(user=65534, group=65534, extra_groups=[])
        env = {'PATH': '/usr/bin:/bin', 'HOME': home, 'PYTHONHASHSEED': hashseed, 'LANG': 'C.UTF-8', 'PYTHONDONTWRITEBYTECODE': '1', 'SX_REPO': repo, 'TMPDIR': home}
        self.p = subprocess.Popen([PY, '-W', 'ignore', os.path.join(verif, 'sx', 'concrete.py'), home], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  text=True, env=env, cwd=home, start_new_session=True, **kw)
        if self.p.stdout.readline() != 'ready\n':
            raise RuntimeError('the replay process does not start')

    def run(self, mod, func, params, inputs, **opts):
        self.p.stdin.write(json.dumps(dict(mod=mod, func=func, params=params, inputs=inputs, **opts)) + '\n')
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError('the replay process died')
        return json.loads(line)

    def close(self):
        try:
            if self.p is None:
                return
            self.p.stdin.close()
            self.p.wait(10)
        except Exception:
            self.p.kill()
        finally:
            self.remove()

    def remove(self):
        shutil.rmtree(self.dir, ignore_errors=True)
