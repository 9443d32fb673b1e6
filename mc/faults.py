"""Crash and error injection at every file-changing call of an execution (native/shim.c, preloaded by check.sh)."""
import ctypes
import os
import sys

COUNT, KILL, TORN, FAIL, FULL = 1, 2, 3, 4, 5
MODES = dict(kill=KILL, torn=TORN, fail=FAIL, full=FULL)
_lib = ctypes.CDLL(None)
_lib.shim_count.restype = ctypes.c_long
_lib.shim_log.restype = ctypes.c_char_p


def in_child(function, mode, target, root):
    """Run function() in a child process with the injector armed on root. Returns (status, calls, text):
    status 'done' | 'raised' | 'killed' (injected death); calls: list of the intercepted calls (COUNT mode)."""
    read, write = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.close(read)
            import signal
            signal.alarm(120)
            null = os.open(os.devnull, os.O_WRONLY)
            os.dup2(null, 1)
            os.dup2(null, 2)
            try:
                _lib.shim_arm(mode, ctypes.c_long(target), root.encode())
                try:
                    function()
                    code, text = 0, ''
                finally:
                    log = _lib.shim_log().decode()
                    _lib.shim_disarm()
            except BaseException as error:
                code, text = 1, '%s: %s' % (type(error).__name__, error)
            os.write(write, (log + '\n' + text)[:60000].encode('utf-8', 'replace'))
        finally:
            os._exit(code)
    os.close(write)
    data = b''
    while True:
        block = os.read(read, 65536)
        if not block:
            break
        data += block
    os.close(read)
    status = os.waitpid(pid, 0)[1]
    log, _, text = data.decode('utf-8', 'replace').partition('\n')
    if os.WIFSIGNALED(status) and os.WTERMSIG(status) in (6, 11) and mode in (FAIL, FULL):
        return 'killed', log.split(), text     # the file library itself does not survive some errors: a death like any other
    if os.WIFSIGNALED(status):
        return 'signal %d' % os.WTERMSIG(status), log.split(), text
    return {0: 'done', 1: 'raised', 77: 'killed'}.get(os.WEXITSTATUS(status), 'exit %d' % os.WEXITSTATUS(status)), log.split(), text


def tree(root):
    """Content of all files below root."""
    result = {}
    for directory, subdirs, names in os.walk(root):
        for name in names:
            path = os.path.join(directory, name)
            with open(path, 'rb') as f:
                result[os.path.relpath(path, root)] = f.read()
    return result
