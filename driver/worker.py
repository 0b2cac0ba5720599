"""Runs one worker process (possibly under mpiexec) and feeds it cases."""
import json
import os
import select
import shutil
import signal
import subprocess
import tempfile
import time


def worker_env(scratch):
    env = {k: v for k, v in os.environ.items() if not k.startswith(('OMPI_', 'PMIX_', 'PMI_', 'OMP_'))}
    for k in ('CPATH', 'CXXFLAGS', 'LDFLAGS', 'LD_PRELOAD'):
        env.pop(k, None)
    env.update({
        'HOME': '/root', 'LC_ALL': 'C.UTF-8',
        'OMPI_ALLOW_RUN_AS_ROOT': '1', 'OMPI_ALLOW_RUN_AS_ROOT_CONFIRM': '1',
        'OMPI_MCA_rmaps_base_oversubscribe': '1', 'OMPI_MCA_hwloc_base_binding_policy': 'none',
        'OMPI_MCA_mpi_yield_when_idle': '1', 'OMPI_MCA_pml': 'ob1', 'OMPI_MCA_btl': 'self,vader',
        'OMPI_MCA_btl_vader_single_copy_mechanism': 'none', 'OMPI_MCA_plm': 'isolated',
        'OMPI_MCA_oob': 'tcp', 'OMPI_MCA_oob_tcp_if_include': 'lo',
        'OMPI_MCA_orte_tmpdir_base': scratch, 'OMPI_MCA_orte_base_help_aggregate': '0',
        'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1', 'TMPDIR': scratch,
    })
    return env


class Worker:
    def __init__(self, exe, np, base, threads=1, echo=False):
        self.exe, self.np, self.base, self.threads, self.echo = exe, np, base, threads, echo
        self.p = None
        self.history = []      # cases run by the current process
        self.starts = 0

    def start(self):
        self.stop()
        # mpiexec's session directory must have a short path
        self.dir = tempfile.mkdtemp(prefix='w', dir=self.base)
        fi, fo = os.path.join(self.dir, 'i'), os.path.join(self.dir, 'o')
        os.mkfifo(fi)
        os.mkfifo(fo)
        self.fi = os.open(fi, os.O_RDWR)     # RDWR: never blocks, never EOF
        self.fo = os.open(fo, os.O_RDWR | os.O_NONBLOCK)
        self.log = open(os.path.join(self.dir, 'log'), 'wb')
        cmd = [self.exe, fi, fo, self.dir, str(self.threads)]
        if self.np > 1:
            cmd = ['/usr/bin/mpiexec', '-n', str(self.np)] + cmd
        env = worker_env(self.dir)
        env['DEAL_II_NUM_THREADS'] = str(self.threads)
        self.p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=self.log, stderr=self.log,
                                  env=env, cwd=self.dir, start_new_session=True)
        self.buf = b''
        self.history = []
        self.starts += 1
        r = self._read(120)
        if not isinstance(r, dict) or not r.get('ready'):
            raise RuntimeError('worker did not start: %r\n%s' % (r, self.tail()))

    def tail(self, n=1500):
        try:
            with open(os.path.join(self.dir, 'log'), 'rb') as f:
                return f.read()[-n:].decode('utf8', 'replace')
        except OSError:
            return ''

    def _read(self, timeout):
        end = time.time() + timeout
        while True:
            if b'\n' in self.buf:
                line, self.buf = self.buf.split(b'\n', 1)
                return json.loads(line)
            left = end - time.time()
            if left <= 0:
                return 'hang'
            r, _, _ = select.select([self.fo], [], [], min(left, 0.25))
            if r:
                try:
                    d = os.read(self.fo, 1 << 16)
                except BlockingIOError:
                    d = b''
                self.buf += d
            elif self.p.poll() is not None:
                return 'crash'

    def run(self, case, timeout):
        """Returns the result dict; 'fails' is non-empty on failure."""
        if self.p is None or self.p.poll() is not None:
            self.start()
        self.history.append(case)
        line = (json.dumps(case) + '\n').encode()
        off = 0
        while off < len(line):
            off += os.write(self.fi, line[off:off + 32768])
        t = time.time()
        r = self._read(timeout)
        if isinstance(r, dict):
            r['sec'] = time.time() - t
            return r
        rc = self.p.poll()
        exc = ''
        for f in sorted(os.listdir(self.dir)):
            if f.startswith('exc.'):
                exc += open(os.path.join(self.dir, f)).read()
        msg = exc or ('%s (exit status %s)\n%s' % ('hang: no answer in %g s' % timeout if r == 'hang' else 'crash', rc, self.tail()))
        hist = self.history
        self.stop()
        self.history = hist
        return {'fails': [msg.strip()], 'nt': True, 'labels': [r], 'info': {}, 'harness': '', 'died': r,
                'sec': time.time() - t}

    def stop(self):
        if self.p is not None:
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass
            self.p.wait()
            self.p = None
            os.close(self.fi)
            os.close(self.fo)
            self.log.close()
            shutil.rmtree(self.dir, ignore_errors=True)
