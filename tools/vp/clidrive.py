#!/usr/bin/env python3
"""Starts the real plusendi program with command lines played by scripts: clidrive.py SCRIPTS OUT
BINARY. What it touches (connections, the radio's port) is recorded; spec/TraceCli.tla judges it."""
import array, fcntl, json, os, pty, resource, socket, struct, subprocess, sys, tempfile, termios, tty
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from appdrive import Run, nonblock

TIOCGEXCL, TCGETS2 = 0x80045440, 0x802c542a


class Launch(Run):
    clock = None

    def __init__(self, q, binary, cwd):
        self.q, self.binary, self.cwd = q, binary, cwd
        self.ctl = self.data = self.p = None
        self.ctl_in = self.data_in = self.out_part = self.rig = self.rig_all = self.err = b''
        self.ctl_eof = self.data_eof = self.spin = self.connected = self.radio_gone = self.jammed = False
        self.code = self.last_ptt = None
        self.listeners = []
        self.master, self.slave = pty.openpty()
        try:
            tty.setraw(self.slave)
            a = termios.tcgetattr(self.slave)
            a[2] |= termios.CSTOPB
            a[4] = a[5] = termios.B300
            termios.tcsetattr(self.slave, termios.TCSANOW, a)
            nonblock(self.master)
            for h, p in q['listen']:
                s = socket.socket(socket.AF_INET6 if ':' in h else socket.AF_INET)
                s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
                self.listeners.append(((h, p), s))
                s.bind((h, p))
                s.listen(4)
                s.setblocking(False)
        except OSError:
            self.close()
            raise

    def launch(self):
        q = self.q
        dev = os.ttyname(self.slave).encode()
        args = [bytes(x).replace(b'\0radio', dev) for x in q['args']]
        env = {k: v for k, v in os.environ.items() if not k.startswith('RUST') and k not in ('NO_COLOR',)}
        if q['env'] is not None:
            env['RUST_LOG'] = q['env']
        if q['file'] is not None:
            with open(os.path.join(self.cwd, '.env'), 'w') as f:
                f.write('RUST_LOG="%s"\n' % q['file'])
        self.p = subprocess.Popen([self.binary.encode()] + args, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=self.cwd, env=env,
                                  bufsize=0, start_new_session=True, preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_CORE, (0, 0)))
        for f in (self.p.stdout, self.p.stderr):
            nonblock(f.fileno())

    def pump(self):
        moved = False
        for (h, p), s in self.listeners:
            while True:
                try:
                    c, _ = s.accept()
                except BlockingIOError:
                    break
                c.setblocking(False)
                moved = True
                self.fresh.append([list(h.encode()), p])
                k = 'ctl' if p == self.q['control'] else 'data'
                if getattr(self, k) is None:
                    setattr(self, k, c)
                else:
                    self.more.append(c)
        return Run.pump(self) or moved

    fresh, more = (), ()

    def radio(self):
        a = termios.tcgetattr(self.slave)
        x = array.array('i', [0])
        fcntl.ioctl(self.slave, TIOCGEXCL, x)
        b = fcntl.ioctl(self.slave, TCGETS2, b'\0' * 44)
        return {'speed': struct.unpack('I', b[40:44])[0], 'own': bool(x[0]), 'stop': 2 if a[2] & termios.CSTOPB else 1}

    def obs(self):
        self.fresh = []
        self.settle()
        ls = self.ctl_in.split(b'\r')
        self.ctl_in = ls.pop()
        if self.ctl_in:
            ls.append(self.ctl_in)
            self.ctl_in = b''
        said = bool(self.err or self.out_part)
        return {'status': 'run' if self.code is None else 'ok' if self.code == 0 else 'fail' if self.code > 0 else 'killed', 'said': said,
                'conns': self.fresh, 'lines': [list(l) for l in ls], 'radio': self.radio(), 'panics': self.panicked() or self.spin,
                'print': list(self.out_part[:200])}

    def close(self):
        for c in self.more:
            c.close()
        if self.p is not None:
            self.lc = self.ld = None
            for _, s in self.listeners:
                s.close()
            Run.close(self)
        else:
            for _, s in self.listeners:
                s.close()
            os.close(self.master)
            os.close(self.slave)


def run(q, binary, cwd):
    t = {'id': q['id'], 'a': q['a'], 'ev': []}
    try:
        r = Launch(q, binary, cwd)
    except OSError as e:
        return dict(t, skip=str(e))
    try:
        r.more = []
        for k in ['start'] + q['ops']:
            if k == 'start':
                r.launch()
            else:
                if r.ctl is None:
                    break
                # Reports may come in between.
                r.send(r.ctl, b'BUSY ON\r' * q.get('extra', 0) + {'ok': b'OK\r', 'wrong': b'WRONG\r'}[k])
            t['ev'].append({'op': k, 'o': r.obs()})
            if t['ev'][-1]['o']['status'] != 'run' or r.spin:
                break
        t['stderr'] = r.err.decode('latin1')[-400:]
    finally:
        r.close()
    return t


def main():
    with tempfile.TemporaryDirectory(prefix='vp-cli-') as top:
        for i, line in enumerate(open(sys.argv[1])):
            cwd = os.path.join(top, str(i))
            os.mkdir(cwd)
            t = run(json.loads(line), sys.argv[3], cwd)
            with open(sys.argv[2], 'a') as f:
                f.write(json.dumps(t) + '\n')


if __name__ == '__main__':
    main()
