"""
A stand-in for the Access ODBC driver (the pyodbc module), which exists on Windows only: databases are SQLite files, reached
through the DB API with pyodbc's conventions (manual commit, context managers that commit, cursors with commit()).
Column types are enforced as Access does: no text in number columns, no infinity or nan in number columns.
"""
import os, re, sqlite3, sys, types


class Error(Exception):
    pass


class Cursor:
    def __init__(self, con):
        self.con, self.rows, self.description = con, [], None

    def __enter__(self):
        return self

    def __exit__(self, kind, e, tb):
        if kind is None:
            self.commit()

    def execute(self, sql, *params):
        if len(params) == 1 and isinstance(params[0], (list, tuple)):
            params = tuple(params[0])
        try:
            self.con.conforms(sql, params)
            cur = self.con.db.execute(sql, params)
            self.rows, self.description = cur.fetchall(), cur.description
        except sqlite3.Error as e:
            raise Error(str(e)) from None
        return self

    def executemany(self, sql, rows):
        for r in rows:
            self.execute(sql, tuple(r))
        return self

    def fetchall(self):
        rows, self.rows = self.rows, []
        return rows

    def fetchone(self):
        return self.rows.pop(0) if self.rows else None

    def __iter__(self):
        return iter(self.fetchall())

    def commit(self):
        self.con.commit()

    def close(self):
        pass


class Connection:
    def __init__(self, path):
        if not os.path.isfile(path):
            raise Error("no database at %s" % path)
        self.db = sqlite3.connect(path)
        try:
            self.db.execute("select count(*) from sqlite_master").fetchall()
        except sqlite3.Error:
            raise Error("not a database: %s" % path) from None

    def conforms(self, sql, params):
        """raises for a parameter that the column of an INSERT cannot hold"""
        m = re.match(r"\s*insert\s+into\s+(\[[^\]]*\]|\S+)\s*\(([^)]*)\)\s*values", sql, re.I)
        if not m or not params:
            return
        cols = [c.strip().strip("[]").lower() for c in re.findall(r"\[[^\]]*\]|[^,]+", m.group(2))]
        kinds = {r[1].lower(): r[2].lower() for r in self.db.execute("pragma table_info([%s])" % m.group(1).strip("[]"))}
        for c, v in zip(cols, params):
            kind = kinds.get(c)
            if kind == "text":
                if not (v is None or isinstance(v, (str, int, float))):
                    raise Error("Data type mismatch in criteria expression: %r for %s" % (v, c))
            elif kind and v is not None and (isinstance(v, str) or v != v or abs(v) == float("inf") or
                                             kind == "int" and v != int(v)):
                raise Error("Data type mismatch in criteria expression: %r for %s" % (v, c))

    def __enter__(self):
        return self

    def __exit__(self, kind, e, tb):
        if kind is None:
            self.commit()

    def cursor(self):
        return Cursor(self)

    def execute(self, sql, *params):
        return self.cursor().execute(sql, *params)

    def commit(self):
        self.db.commit()

    def rollback(self):
        self.db.rollback()

    def close(self):
        self.db.close()


def connect(connection_string, *args, **kw):
    parts = dict(re.findall(r"(\w+)=(\{[^}]*\}|[^;]*)", connection_string))
    parts = {k.lower(): v for k, v in parts.items()}
    if "microsoft access driver" not in parts.get("driver", "").lower():
        raise Error("no such driver: %s" % connection_string)
    return Connection(parts["dbq"])


def install():
    """makes `import pyodbc` find this; call before ticdat is imported"""
    m = types.ModuleType("pyodbc")
    m.connect, m.Error, m.Connection, m.Cursor = connect, Error, Connection, Cursor
    m.__doc__ = __doc__
    sys.modules["pyodbc"] = m
    if "ticdat.mdb" in sys.modules:
        raise RuntimeError("ticdat was imported before the stand-in was installed")


def new_file(path):
    """an empty database"""
    open(path, "wb").close()
