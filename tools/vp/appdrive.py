#!/usr/bin/env python3
"""Runs the real plusendi program against a TNC, a remote station, a radio and a user played by
scripts: appdrive.py SCRIPTS OUT BINARY. One trace per script; what they mean is decided by
spec/TraceApp.tla."""
import ctypes, errno, fcntl, json, os, pty, resource, select, signal, socket, struct, subprocess, sys, tempfile, termios, time, tty

TIOCOUTQ = 0x5411
SYS_TGKILL, PAUSE = 234, 3700
LIBC = ctypes.CDLL(None)


def nonblock(fd):
    fcntl.fcntl(fd, fcntl.F_SETFL, fcntl.fcntl(fd, fcntl.F_GETFL) | os.O_NONBLOCK)


def drain(fd):
    out = b''
    while True:
        try:
            x = os.read(fd, 65536)
        except BlockingIOError:
            return out, False
        except OSError as e:
            if e.errno == errno.EIO:        # nobody has the terminal open
                return out, True
            raise
        if not x:
            return out, True
        out += x


class Run:
    def __init__(self, q, binary, cwd):
        self.q = q
        self.ctl = self.data = None
        self.ctl_in = self.data_in = self.out = self.rig = self.err = b''
        self.out_part = b''
        self.ctl_eof = self.data_eof = False
        self.code = None
        self.spin = False
        self.last_ptt = None
        self.tx = b''
        self.rig_all = b''
        self.radio_gone = self.jammed = False
        host = q['host']
        self.lc = socket.socket()
        self.lc.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.lc.bind((host, q['control']))
        self.lc.listen(4)
        self.ld = socket.socket()
        self.ld.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.ld.bind((host, q['data'] or q['control'] + 1))
        self.ld.listen(4)
        self.master, self.slave = pty.openpty()
        tty.setraw(self.slave)
        nonblock(self.master)
        dev = os.ttyname(self.slave) if q['serial'] else os.path.join(cwd, 'no-such-device')
        args = [binary, q['target'], '-d', q['my'], '--modem-address', host, '--modem-control-port', str(q['control'])]
        if q['data']:
            args += ['--modem-data-port', str(q['data'])]
        args += ['--rig-control', dev, '--rig-baud', str(q['baud']), '--log', 'plusendi=trace' if q['log'] else 'off']
        env = {k: v for k, v in os.environ.items() if not k.startswith('RUST') and k not in ('NO_COLOR',)}
        self.clock = None
        if q.get('slow'):
            self.clock = os.path.join(cwd, 'clock')
            self.ahead(0)
            env.update(LD_PRELOAD=sys.argv[4], VP_CLOCK=self.clock)
        self.p = subprocess.Popen(args, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=env,
                                  bufsize=0, start_new_session=True, preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_CORE, (0, 0)))
        for f in (self.p.stdout, self.p.stderr):
            nonblock(f.fileno())
        self.stdin = self.p.stdin

    def accept(self, l):
        l.settimeout(0.05)
        t0 = time.time()
        while time.time() - t0 < 20:
            try:
                s, _ = l.accept()
                s.setblocking(False)
                s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
                return s
            except socket.timeout:
                if self.p.poll() is not None:
                    return None
        return None

    def pump(self):
        any_ = False
        for name in ('ctl', 'data'):
            s = getattr(self, name)
            if s is not None and not getattr(self, name + '_eof'):
                # Lest small writes wait for an acknowledgement that takes its time.
                s.setsockopt(socket.IPPROTO_TCP, socket.TCP_QUICKACK, 1)
            while s is not None and not getattr(self, name + '_eof'):
                try:
                    x = s.recv(65536)
                except BlockingIOError:
                    break
                except OSError:
                    x = b''
                any_ = True
                if not x:
                    setattr(self, name + '_eof', True)
                    break
                setattr(self, name + '_in', getattr(self, name + '_in') + x)
        x, _ = drain(self.p.stdout.fileno())
        self.out_part += x
        any_ |= bool(x)
        x, _ = drain(self.p.stderr.fileno())
        self.err += x
        if self.master is not None:
            x, _ = drain(self.master)
            self.rig += x
            self.rig_all += x
            any_ |= bool(x)
        return any_

    def threads(self):
        """State and switch counts of every thread, or None once the process is gone."""
        d = '/proc/%d/task' % self.p.pid
        r = []
        try:
            for t in sorted(os.listdir(d)):
                try:
                    with open('%s/%s/status' % (d, t)) as f:
                        txt = f.read()
                except (FileNotFoundError, ProcessLookupError):
                    return 'changing'
                st = txt[txt.index('State:') + 7]
                k = txt.index('voluntary_ctxt_switches')
                r.append((t, st, txt[k:]))
        except (FileNotFoundError, ProcessLookupError):
            return None
        return r

    def outq(self):
        n = 0
        for s in (self.ctl, self.data):
            if s is not None:
                try:
                    b = fcntl.ioctl(s.fileno(), TIOCOUTQ, b'\0\0\0\0')
                    n += struct.unpack('i', b)[0]
                except OSError:
                    pass
        return n

    def cpu(self):
        try:
            with open('/proc/%d/stat' % self.p.pid) as f:
                x = f.read().rsplit(')', 1)[1].split()
            return (int(x[11]) + int(x[12])) / os.sysconf('SC_CLK_TCK')
        except OSError:
            return 0.0

    def still(self, limit=30.0):
        """Until no thread has anything to do, or the process has ended."""
        t0, c0 = time.time(), self.cpu()
        last, same = None, 0
        while True:
            moved = self.pump()
            if self.p.poll() is not None:
                self.pump()
                self.code = self.p.returncode
                return
            t = self.threads()
            if moved or not t or t == 'changing' or any(x[1] != 'S' for x in t) or self.outq() and not self.ctl_eof:
                last, same = None, 0
            elif t == last:
                same += 1
                if same >= 3:
                    return
            else:
                last, same = t, 0
            if self.cpu() - c0 > 4 or time.time() - t0 > limit:
                self.spin = True
                return
            time.sleep(0.0012)

    def settle(self):
        self.still()
        # What the program wrote to the radio takes its time through the terminal.
        t0 = time.time()
        while self.code is None and not self.spin and self.rig_due() and time.time() - t0 < 3:
            time.sleep(0.003)
            self.still()
        if self.code is None and self.connected and not self.spin:
            time.sleep(0.002)
            self.still()

    connected = False

    def rig_due(self):
        if self.last_ptt is None or self.radio_gone or self.jammed or not self.connected:
            return False
        return self.rig_all[-3:] != (b'TX;' if self.last_ptt else b'RX;')

    def lines(self):
        x, self.out_part = self.out_part, b''
        return x

    def ahead(self, n):
        with open(self.clock, 'r+b' if os.path.exists(self.clock) else 'wb') as f:
            f.write(struct.pack('q', n))
        self.now = n

    def long_pause(self):
        self.ahead(self.now + PAUSE)
        try:
            for t in os.listdir('/proc/%d/task' % self.p.pid):
                LIBC.syscall(SYS_TGKILL, self.p.pid, int(t), signal.SIGUSR2)
        except FileNotFoundError:
            pass

    def panicked(self):
        return b'panicked at' in self.err or b'The application panicked' in self.err or self.code == 101

    def obs(self):
        self.settle()
        if self.clock and self.code is None and not self.spin:
            self.long_pause()
            self.settle()
        ls = self.ctl_in.split(b'\r')
        self.ctl_in = ls.pop()
        if any(l.startswith(b'CONNECT ') for l in ls):
            self.connected = True
            if self.last_ptt is not None:
                self.settle()
        status = 'run' if self.code is None else 'ok' if self.code == 0 else 'fail' if self.code > 0 else 'killed'
        o = {'lines': [list(l) for l in ls], 'junk': list(self.ctl_in) if status != 'run' else [], 'out': list(self.data_in), 'print': list(self.lines()),
             'status': status, 'rig': list(self.rig), 'panics': self.panicked(), 'spin': self.spin}
        if status != 'run' and self.out_part:
            o['print'] += list(self.out_part)
        self.data_in = self.rig = b''
        return o

    def send(self, s, b):
        t0 = time.time()
        while b and time.time() - t0 < 10:
            try:
                n = s.send(b)
                b = b[n:]
            except BlockingIOError:
                self.pump()
                time.sleep(0.001)
            except OSError:
                return

    def note(self, b):
        self.tx += b
        while b'\r' in self.tx:
            l, self.tx = self.tx.split(b'\r', 1)
            if l in (b'PTT ON', b'PTT OFF'):
                self.last_ptt = l == b'PTT ON'

    def do(self, op):
        k = op['op']
        b = bytes(op.get('b', []))
        if k == 'begin':
            self.ctl = self.accept(self.lc)
            self.data = self.accept(self.ld)
        elif k == 'tx' and self.ctl:
            self.send(self.ctl, b)
            self.note(b)
        elif k == 'dtx' and self.data:
            self.send(self.data, b)
        elif k == 'close' and self.ctl:
            try:
                self.ctl.shutdown(socket.SHUT_WR)
            except OSError:
                pass
        elif k == 'dclose' and self.data:
            try:
                self.data.shutdown(socket.SHUT_WR)
            except OSError:
                pass
        elif k == 'stdin' and self.stdin:
            try:
                self.stdin.write(b)
            except OSError:
                pass
        elif k == 'stdineof' and self.stdin:
            self.stdin.close()
            self.stdin = None
        elif k == 'radio' and self.master is not None:
            try:
                os.write(self.master, b)
            except OSError:
                pass
        elif k in ('jam', 'free') and self.master is not None:
            # The terminal takes nothing for now.
            termios.tcflow(self.slave, termios.TCOOFF if k == 'jam' else termios.TCOON)
            self.jammed = k == 'jam'
        elif k == 'radiogone' and self.master is not None:
            self.pump()
            os.close(self.master)
            self.master = None
            self.radio_gone = True

    def close(self):
        if self.p.poll() is None:
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        self.p.wait()
        for f in (self.p.stdin, self.p.stdout, self.p.stderr, self.ctl, self.data, self.lc, self.ld):
            if f is not None:
                try:
                    f.close()
                except OSError:
                    pass
        for fd in (self.master, self.slave):
            if fd is not None:
                os.close(fd)


def run(q, binary, cwd):
    t = {k: v for k, v in q.items() if k != 'ops'}
    t['ev'] = []
    try:
        r = Run(q, binary, cwd)
    except OSError as e:
        return dict(t, skip=str(e))
    try:
        for op in [{'op': 'begin', 's': True}] + q['ops']:
            r.do(op)
            e = dict(op)
            if op.get('s', True):
                e['o'] = r.obs()
            t['ev'].append(e)
            if 'o' in e and (e['o']['status'] != 'run' or e['o']['spin']):
                break
        else:
            if not t['ev'] or 'o' not in t['ev'][-1]:
                t['ev'].append({'op': 'wait', 'o': r.obs()})
        t['stderr'] = r.err.decode('latin1')[-600:]
    finally:
        r.close()
    return t


def main():
    binary = sys.argv[3]
    with tempfile.TemporaryDirectory(prefix='vp-app-') as cwd:
        for line in open(sys.argv[1]):
            t = run(json.loads(line), binary, cwd)
            with open(sys.argv[2], 'a') as f:
                f.write(json.dumps(t) + '\n')


if __name__ == '__main__':
    main()
