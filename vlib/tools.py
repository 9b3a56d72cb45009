"""Runs the real tools of /repo/tools under a monitor of their effects.

In-process runs execute the tool script exactly as `python tools/X.py` would
(as __main__, with its argv, cwd and streams) while an audit hook observes
every file, process and network operation of the interpreter; operations that
would reach outside the scratch directory are recorded and refused, so that a
broken tool can damage nothing.
"""
import io
import os
import runpy
import stat
import subprocess
import sys
import tempfile
import traceback

from .core import ByteSink, CaseTimeout, REPO

TOOLS = os.path.join(REPO, 'tools')

_on = {'mon': None}

WRITE_EVENTS = {
    'os.remove': [0], 'os.rename': [0, 1], 'os.mkdir': [0], 'os.rmdir': [0],
    'os.truncate': [0], 'os.link': [0, 1], 'os.symlink': [1],
    'os.chmod': [0], 'os.chown': [0], 'os.utime': [0],
    'shutil.rmtree': [0], 'shutil.move': [0, 1], 'shutil.copyfile': [1],
}
PROC_EVENTS = ('subprocess.Popen', 'os.system', 'os.exec', 'os.posix_spawn',
               'os.spawn', 'os.fork', 'os.forkpty', 'pty.spawn')


class Refused(PermissionError):
    pass


class Monitor:
    def __init__(self, root, preexisting):
        self.root = os.path.realpath(root)
        self.pre = preexisting
        self.reads = set()
        self.touched = set()        # paths written, removed, renamed ...
        self.escapes = []           # refused operations
        self.busy = False

    def path(self, p):
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        return os.path.realpath(os.path.join(os.getcwd(), p))

    def event(self, ev, args):
        if ev == 'open':
            p, mode, flags = args[0], args[1], args[2]
            if isinstance(p, int):
                return
            w = (isinstance(mode, str) and any(c in mode for c in 'wax+')) \
                or (isinstance(flags, int) and
                    flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT |
                             os.O_TRUNC | os.O_APPEND))
            if w:
                self.write(ev, p)
            else:
                rp = self.path(p)
                if rp.startswith(self.root + '/'):
                    self.reads.add(os.path.relpath(rp, self.root))
        elif ev in WRITE_EVENTS:
            for i in WRITE_EVENTS[ev]:
                if i < len(args) and isinstance(args[i], (str, bytes)):
                    self.write(ev, args[i])
                elif i < len(args) and hasattr(args[i], '__fspath__'):
                    self.write(ev, os.fspath(args[i]))
        elif ev in PROC_EVENTS or ev.startswith('socket.'):
            self.escapes.append('%s %r' % (ev, args[:2]))
            raise Refused('%s refused by the monitor' % ev)

    def write(self, ev, p):
        rp = self.path(p)
        if rp == '/dev/null':
            return
        if not rp.startswith(self.root + '/'):
            self.escapes.append('%s %s' % (ev, rp))
            raise Refused('%s of %s refused by the monitor' % (ev, rp))
        self.touched.add((ev, os.path.relpath(rp, self.root)))


def _hook(ev, args):
    m = _on['mon']
    if m is None or m.busy:
        return
    m.busy = True
    try:
        m.event(ev, args)
    finally:
        m.busy = False


_installed = []


def install():
    if not _installed:
        sys.addaudithook(_hook)
        _installed.append(1)


class Run:
    def __init__(self, tool, argv, code, out, err, exc, mon):
        self.tool, self.argv, self.code = tool, argv, code
        self.out, self.err, self.exc, self.mon = out, err, exc, mon

    @property
    def what(self):
        return '%s %s' % (self.tool, ' '.join(self.argv))

    @property
    def lines(self):
        x = self.out.split('\n')
        return x[:-1] if x and x[-1] == '' else x


def tree(root):
    """Everything below root: path -> (kind, mode, content)."""
    out = {}
    for d, ds, fs in os.walk(root):
        for n in ds + fs:
            p = os.path.join(d, n)
            st = os.lstat(p)
            k = stat.S_IFMT(st.st_mode)
            body = None
            if stat.S_ISREG(st.st_mode):
                with open(p, 'rb') as f:
                    body = f.read()
            elif stat.S_ISLNK(st.st_mode):
                body = os.readlink(p).encode()
            out[os.path.relpath(p, root)] = (k, stat.S_IMODE(st.st_mode),
                                             body)
    return out


def script(tool):
    return os.path.join(TOOLS, tool + '.py')


def run_inproc(tool, argv, cwd, root=None, broken=None):
    """Run a tool in this process; its standard output breaks after `broken`
    bytes if that is given."""
    install()
    root = root or cwd
    mon = Monitor(root, set())
    saved = (sys.argv, sys.stdout, sys.stderr, sys.stdin, list(sys.path),
             os.getcwd(), tempfile.tempdir)
    bo, be = ByteSink(), ByteSink()
    bo.broken = broken
    out = io.TextIOWrapper(bo, 'utf-8', newline='\n', write_through=True)
    err = io.TextIOWrapper(be, 'utf-8', newline='\n', write_through=True)
    code, exc = 0, None
    try:
        sys.argv = [script(tool)] + list(argv)
        sys.stdout, sys.stderr = out, err
        sys.stdin = io.StringIO('')
        sys.path.insert(0, TOOLS)
        tempfile.tempdir = root
        os.chdir(cwd)
        _on['mon'] = mon
        try:
            runpy.run_path(script(tool), run_name='__main__')
        except SystemExit as e:
            if e.code is None:
                code = 0
            elif isinstance(e.code, int):
                code = e.code
            else:
                code = 1
                err.write(str(e.code) + '\n')
        except CaseTimeout:
            raise
        except BaseException as e:
            code, exc = 1, e
            _on['mon'] = None
            err.write(traceback.format_exc())
    finally:
        _on['mon'] = None
        (sys.argv, sys.stdout, sys.stderr, sys.stdin, sys.path[:], cw,
         tempfile.tempdir) = saved
        os.chdir(cw)
    return Run(tool, list(argv), code, bo.getvalue().decode(),
               be.getvalue().decode(), exc, mon)


def run_process(tool, argv, cwd, extra=()):
    env = {'PATH': '/usr/bin:/bin', 'PYTHONPATH': REPO, 'HOME': cwd,
           'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONUTF8': '1',
           'TMPDIR': cwd, 'PYTHONHASHSEED': '0'}
    env.update(extra)
    try:
        p = subprocess.run([sys.executable, '-B', script(tool)] + list(argv),
                           cwd=cwd, env=env, stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=300)
    except subprocess.TimeoutExpired:
        raise CaseTimeout()
    return Run(tool, list(argv), p.returncode, p.stdout.decode(),
               p.stderr.decode(), None, None)
