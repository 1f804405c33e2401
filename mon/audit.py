"""Watches what a call does to the world outside of its result: audit events of the interpreter and process-wide state."""
import copy, datetime, fnmatch, html.parser, pickle, urllib.request, xml.etree.ElementTree
import atexit, builtins, copyreg, decimal, faulthandler, gc, ipaddress, locale, logging, os, random, re, resource, signal, socket, sys, sysconfig, threading, time, tracemalloc, warnings
from mon.load import LIB

CODE = tuple(os.path.realpath(p) + os.sep for p in {LIB, sys.prefix, sys.base_prefix, os.path.dirname(os.__file__), *[p for p in sys.path if p]} if os.path.isdir(p))
# reading the source of a module for a traceback or an import
QUIET = {"object.__getattr__", "object.__setattr__", "object.__delattr__", "sys._getframe", "sys._getframemodulename", "marshal.loads", "code.__new__", "function.__new__", "builtins.id",
         "gc.get_objects", "gc.get_referrers", "gc.get_referents", "array.__new__", "cpython.PyInterpreterState_New", "sys.unraisablehook", "sys._current_frames", "time.sleep", "ctypes.dlsym",
         "socket.gethostname", "sys.monitoring.register_callback", "cpython.run_startup", "mmap.__new__", "copy.replace", "setopencodehook", "resource.setrlimit", "resource.prlimit"}
_state = {"on": False, "events": [], "installed": False}


def code_file(p):
    if not isinstance(p, str):
        return False
    if sys.pycache_prefix and p.startswith(sys.pycache_prefix + os.sep):
        p = p[len(sys.pycache_prefix):]
    r = os.path.realpath(p)
    return r.startswith(CODE) or r + os.sep in CODE or os.path.isdir(r) and any(c.startswith(r + os.sep) for c in CODE)


def _hook(name, args):
    if not _state["on"] or name in QUIET or _state.get("thread") != threading.get_ident():
        return
    _state["on"] = False
    try:
        if name == "open":
            p, mode, flags = args
            if isinstance(p, bytes):
                p = os.fsdecode(p)
            write = bool((flags or 0) & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND))
            if code_file(p) and not write:
                return
            _state["events"].append(("open", p, "write" if write else "read"))
        elif name == "import":
            _state["events"].append(("import", args[0]))
        elif name == "compile":
            src, fn = args
            if code_file(fn if isinstance(fn, str) else ""):
                return
            _state["events"].append(("compile", repr(src)[:200], str(fn)))
        elif name == "exec":
            fn = getattr(args[0], "co_filename", None)
            if code_file(fn):
                return
            _state["events"].append(("exec", str(fn), getattr(args[0], "co_name", "")))
        elif name in ("os.listdir", "os.scandir", "os.walk", "os.stat") and code_file(args[0] if args else None):
            return
        else:
            _state["events"].append((name, *[repr(a)[:160] for a in args]))
    finally:
        _state["on"] = True


def install():
    if not _state["installed"]:
        sys.addaudithook(_hook)
        _state["installed"] = True


class Watch:
    def __enter__(self):
        self.before = world()
        _state["events"] = []
        _state["thread"] = threading.get_ident()
        _state["on"] = True
        return self

    def __exit__(self, *a):
        _state["on"] = False
        self.events = list(_state["events"])
        self.after = world()


def fds():
    r = []
    for f in os.listdir("/proc/self/fd"):
        try:
            r.append((int(f), os.readlink("/proc/self/fd/" + f)))
        except OSError:
            pass
    return sorted(x for x in r if not x[1].endswith("/fd"))


def world():
    um = os.umask(0o22)
    os.umask(um)
    lg = logging.getLogger()
    return {
        "working directory": os.getcwd(), "environment": dict(os.environ), "file mode mask": um, "recursion limit": sys.getrecursionlimit(), "switch interval": sys.getswitchinterval(),
        "locale": locale.setlocale(locale.LC_ALL), "signal handlers": [repr(signal.getsignal(s)) for s in range(1, 32)],
        "logging": (lg.level, len(lg.handlers), logging.root.manager.disable, sorted((n, l.level, len(l.handlers), l.propagate) for n, l in logging.root.manager.loggerDict.items()
                                                                                    if isinstance(l, logging.Logger) and (l.level or l.handlers or not l.propagate))),
        "warning filters": len(warnings.filters), "module path": list(sys.path), "standard streams": (id(sys.stdin), id(sys.stdout), id(sys.stderr)), "hooks": (repr(sys.excepthook), repr(sys.displayhook)),
        "socket timeout": socket.getdefaulttimeout(), "threads": threading.active_count(), "open files": fds(), "random numbers": hash(random.getstate()), "garbage collector": (gc.isenabled(), gc.get_threshold()),
        "decimal context": repr(decimal.getcontext()), "tracing": (sys.gettrace(), sys.getprofile()), "resource": None, "string conversion limit": sys.get_int_max_str_digits(),
        "builtins": len(dir(__builtins__)) if not isinstance(__builtins__, dict) else len(__builtins__),
        "functions of other modules": tuple(map(id, SHARED())), "time zone": (time.tzname, time.timezone), "resource limits": [resource.getrlimit(i) for i in LIMITS],
        "alarms": signal.getitimer(signal.ITIMER_REAL)[0] > 0, "exit handlers": atexit._ncallbacks(), "memory tracing": tracemalloc.is_tracing(), "fault handler": faulthandler.is_enabled(),
        "thread settings": (threading.stack_size(), id(threading.excepthook)), "priority": (os.getpriority(os.PRIO_PROCESS, 0), sorted(os.sched_getaffinity(0))),
        "stream settings": [(getattr(x, "encoding", None), getattr(x, "errors", None), getattr(x, "line_buffering", None)) for x in (sys.stdin, sys.stdout, sys.stderr)],
        "pickling table": len(copyreg.dispatch_table), "log settings": (logging.raiseExceptions, id(logging.getLogRecordFactory()), id(logging.getLoggerClass()), logging.lastResort is None),
        "url opener": id(urllib.request._opener),
        "xml name spaces": len(xml.etree.ElementTree._namespace_map),
    }


LIMITS = [getattr(resource, n) for n in dir(resource) if n.startswith("RLIMIT_")]


def SHARED():
    """what a monkey patch would replace"""
    yield from (getattr(builtins, n) for n in ("open", "print", "len", "isinstance", "sorted", "set", "dict", "str", "int", "__import__", "__build_class__", "hash", "id", "map", "filter"))
    for m, names in ((socket, "socket getaddrinfo create_connection getservbyname"), (ipaddress, "ip_address ip_network ip_interface collapse_addresses summarize_address_range"), (re, "compile match sub"),
                     (os, "open system popen fork getenv"), (time, "time sleep"), (sys, "exit stdin stdout stderr"), (warnings, "warn showwarning"), (gc, "collect"), (random, "random")):
        yield from (getattr(m, n) for n in names.split())
    for m, names in (("xml.etree.ElementTree", "fromstring parse XMLParser TreeBuilder"), ("urllib.request", "urlopen build_opener"), ("html.parser", "unescape HTMLParser"), ("datetime", "datetime date"), ("fnmatch", "fnmatchcase"),
                     ("copy", "copy deepcopy"), ("pickle", "dumps loads"), ("tatsu.parsing", "tatsumasu")):
        if m in sys.modules:
            yield from (getattr(sys.modules[m], n, None) for n in names.split())
