"""A private PostgreSQL server for one check run: scratch data directory, unix socket only, not run as root."""
import glob, os, shutil, signal, subprocess, time

ENV = "VERIF_PG"


def _bin():
    for d in sorted(glob.glob("/usr/lib/postgresql/*/bin"), reverse=True):
        return d
    p = shutil.which("postgres")
    if p:
        return os.path.dirname(p)
    raise RuntimeError("no postgres installation")


def _die_with_parent():
    import ctypes
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)


def start(scratch):
    """returns a stop function; the socket directory is put in the environment"""
    b = _bin()
    d = os.path.join(scratch, "pg")
    os.mkdir(d)
    kw, pre = {}, []
    if os.geteuid() == 0:
        try:
            os.chown(d, 65534, 65534)
            kw = {"user": 65534, "group": 65534, "extra_groups": []}
            subprocess.run(["true"], check=True, **kw)
        except (PermissionError, subprocess.SubprocessError):
            os.chown(d, 0, 0)
            kw, pre = {}, ["unshare", "-U", "--map-user=65534", "--map-group=65534"]
    env = {"PATH": os.environ["PATH"], "LC_ALL": "C.UTF-8", "TZ": "UTC", "HOME": d}
    data = os.path.join(d, "data")
    log = open(os.path.join(scratch, "pg.log"), "w")
    subprocess.run(pre + [b + "/initdb", "-D", data, "-U", "postgres", "-A", "trust", "-E", "UTF8", "--no-sync"], cwd=d, env=env,
                   stdout=log, stderr=log, check=True, **kw)
    proc = subprocess.Popen(pre + [b + "/postgres", "-D", data, "-k", d, "-c", "listen_addresses=", "-c", "fsync=off",
                                   "-c", "synchronous_commit=off", "-c", "full_page_writes=off", "-c", "max_connections=60",
                                   "-c", "max_locks_per_transaction=512", "-c", "timezone=UTC", "-c", "autovacuum=off"],
                            cwd=d, env=env, stdout=log, stderr=log, stdin=subprocess.DEVNULL, preexec_fn=_die_with_parent, **kw)
    import psycopg2
    end = time.time() + 60
    while True:
        try:
            psycopg2.connect(host=d, user="postgres", dbname="postgres").close()
            break
        except psycopg2.OperationalError:
            if time.time() > end or proc.poll() is not None:
                proc.kill()
                raise RuntimeError("postgres did not start: %s" % open(log.name).read()[-2000:])
            time.sleep(0.1)
    os.environ[ENV] = d

    def stop():
        os.environ.pop(ENV, None)
        try:
            proc.send_signal(signal.SIGQUIT)
            proc.wait(20)
        except Exception:
            proc.kill()
    return stop


_engines = {}


def url():
    return "postgresql+psycopg2://postgres@/postgres?host=" + os.environ[ENV]


def dsn():
    return {"host": os.environ[ENV], "user": "postgres", "dbname": "postgres"}


def engine(future=False):
    import sqlalchemy as sa
    k = (os.getpid(), future)
    if k not in _engines:
        _engines[k] = sa.create_engine(url(), future=future, poolclass=sa.pool.NullPool)
    return _engines[k]


def connection():
    """one autocommitting psycopg2 connection per process"""
    import psycopg2
    k = (os.getpid(), "raw")
    if k not in _engines:
        _engines[k] = psycopg2.connect(**dsn())
        _engines[k].autocommit = True
    return _engines[k]


def query(sql, args=None):
    with connection().cursor() as c:
        c.execute(sql, args)
        return [list(r) for r in c.fetchall()] if c.description else None


_n = [0]


def fresh_schema():
    _n[0] += 1
    return "s%d_%d" % (os.getpid(), _n[0])
