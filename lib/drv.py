"""Runs the driver (harness/driver.cc) and talks JSON lines with it."""
import json, os, subprocess, tempfile, select, signal

class Crash(Exception):
    def __init__(self, why, stderr):
        super().__init__(why); self.why = why; self.stderr = stderr

def summarize(err):
    for l in err.splitlines():
        if 'ERROR: AddressSanitizer' in l:
            w = l.split('AddressSanitizer:')[1].split()
            return 'asan ' + w[0]
        if 'SUMMARY' in l:
            return l
    for l in err.splitlines():
        if 'terminate called' in l or 'Assertion' in l:
            return l[:160]
    return 'died'

class Driver:
    def __init__(self, exe, scratch=None, env=None, timeout=25):
        self.exe, self.scratch, self.timeout = exe, scratch, timeout
        self.env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:handle_abort=1:detect_stack_use_after_return=0')
        self.env.update(env or {})
        self.p = None
        self.start()
    def start(self):
        self.err = tempfile.TemporaryFile('w+', errors='replace')
        self.p = subprocess.Popen([self.exe] + ([self.scratch] if self.scratch else []), stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=self.err, env=self.env, bufsize=0)
        self.buf = b''
    def _readline(self):
        while True:
            i = self.buf.find(b'\n')
            if i >= 0:
                l, self.buf = self.buf[:i], self.buf[i+1:]
                return l
            r, _, _ = select.select([self.p.stdout], [], [], self.timeout)
            if not r:
                self.p.kill(); self.p.wait()
                raise Crash('hang', '')
            b = os.read(self.p.stdout.fileno(), 1 << 16)
            if not b:
                self.p.wait()
                self.err.seek(0); e = self.err.read()
                rc = self.p.returncode
                if rc < 0 and 'AddressSanitizer' not in e:
                    raise Crash('signal %d' % -rc, e)
                raise Crash(summarize(e), e)
            self.buf += b
    def cmd(self, c):
        try:
            self.p.stdin.write(json.dumps(c).encode() + b'\n')
        except BrokenPipeError:
            pass
        return json.loads(self._readline().decode('utf-8', 'replace'))
    def safe(self, c):
        """Like cmd, but a crash is an answer: the driver is restarted."""
        try:
            return self.cmd(c)
        except Crash as e:
            self.close(); self.start()
            self.last_crash = e
            return {'st': 'CRASH ' + e.why}
    def close(self):
        if self.p:
            try: self.p.stdin.close()
            except Exception: pass
            try: self.p.wait(5)
            except Exception: self.p.kill(); self.p.wait()
            self.p.stdout.close(); self.err.close(); self.p = None
