"""A fresh interpreter that answers jobs in isolation: every job runs in a child forked from the process that
has done nothing but import the code under test.  usage: python -m mon.iso JOBS  (prints one line per job)"""
import hashlib, json, os, sys


def canon(x):
    """plain data with a spelling that does not depend on the order of unordered containers"""
    if isinstance(x, dict):
        return {"dict": [[canon(k), canon(v)] for k, v in sorted(x.items(), key=lambda kv: repr(kv[0]))], "order": [repr(k) for k in x]}
    if isinstance(x, (list, tuple)):
        return [canon(v) for v in x]
    if isinstance(x, (set, frozenset)):
        return sorted(json.dumps(canon(v)) for v in x)
    return x if isinstance(x, (str, int, float, bool, type(None))) else repr(x)


def job(dialect, text, filters):
    """everything observable about one configuration and some filters on it"""
    from mon.load import fwsmConfig, iosConfig, pfsenseConfig, cafBlock, ACLConfig, PF
    from mon import snap
    cls = {"asa": fwsmConfig, "ios": iosConfig, "pfs": pfsenseConfig, "auto": ACLConfig}[dialect]
    try:
        conf = cls.fromString(text, **({"options": PF()} if dialect in ("pfs", "auto") else {}))
    except Exception as e:
        return ["rejected"]
    return ["accepted", canon(snap.config(conf)), [ask(conf, f) for f in filters], type(conf).__name__]


def ask(conf, f):
    from mon.load import cafBlock
    try:
        b = cafBlock.fromString(f)
    except Exception:
        return ["rejected"]
    return ["accepted", repr(b), selection(conf, b)]


def selection(conf, b):
    ids = {id(r): ["rule", i] for i, r in enumerate(conf.rules.rules)}
    ids.update({id(n): ["nat", k, i] for k in (1, 2, 3) for i, n in enumerate(conf.nat[k])})
    try:
        return sorted(ids.get(id(x), ["foreign"]) for x in conf.filter(b))
    except Exception as e:
        return ["raised", type(e).__name__]


def main():
    if sys.argv[1] == "--serve":
        jobs = map(json.loads, iter(sys.stdin.readline, ""))
    else:
        jobs = json.load(open(sys.argv[1]))
    out = os.dup(1)
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    sys.setrecursionlimit(3000)
    import mon.load, mon.snap    # noqa: F401
    for j in jobs:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                res = job(*j)
            except BaseException as e:
                res = ["broken", repr(e)]
            with os.fdopen(w, "w") as f:
                f.write(json.dumps(res))
            os._exit(0)
        os.close(w)
        with os.fdopen(r) as f:
            data = f.read()
        os.waitpid(pid, 0)
        os.write(out, (data.replace("\n", " ") + "\n").encode())


if __name__ == "__main__":
    main()
