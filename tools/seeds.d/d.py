CSV, XLS, MDB = "ticdat/csvtd.py", "ticdat/xls.py", "ticdat/mdb.py"
bug("xlsx-prune-by-first-cell", "P20", [(XLS, "            while i >= 0 and all(x is None for x in self.row_values(i)):\n", "            while i >= 0 and next(iter(self.row_values(i)), None) is None:\n")], '''
tdf = TicDatFactory(t=[[], ["a", "b"]])
tdf.set_default_value("t", "a", None)
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "f.xlsx")
    tdf.xls.write_file(tdf.TicDat(t=[["x", 1], [None, 2]]), f)
    back = tdf.xls.create_tic_dat(f)
assert [list(r.values()) for r in back.t] == [["x", 1], [None, 2]], back.t
''', "the last rows of an .xlsx sheet have an empty first cell", "those rows are pruned as if they were empty")
bug("mdb-generator-spelling", "P32", [(MDB, "            rtn[table] = self._create_gen_obj(mdbFilePath, table, table_names[table])\n", "            rtn[table] = self._create_gen_obj(mdbFilePath, table, table)\n")], '''
import ticdat.mdb
log = []
class Cursor:
    description = [("a",)]
    def execute(self, sql):
        log.append(sql)
        if "[my_table]" in sql:
            raise Exception("no such table")
        return self
    def fetchall(self): return [(1,), (2,)]
    def __enter__(self): return self
    def __exit__(self, *a): pass
class Con(Cursor):
    def cursor(self): return Cursor()
ticdat.mdb._connect = lambda s: Con()
ticdat.mdb._connection_str = lambda s: s
ticdat.mdb._standard_verify = lambda *a, **k: None
tdf = TicDatFactory(my_table=[[], ["a"]])
tdf.set_generator_tables(["my_table"])
with tempfile.NamedTemporaryFile(suffix=".mdb") as f:
    got = [r["a"] for r in tdf.mdb.create_tic_dat(f.name).my_table()]
assert got == [1, 2], got
''', "a generator table whose Access table is spelled with a space", "the generator can't find its table")
bug("kwargs-maker-by-name", "P28", [(UT, "        if func_ not in memo_dat_version_of_func:\n            memo_dat_version_of_func[func_] = lambda *args, **kwargs: func_(dat)\n        return memo_dat_version_of_func[func_]\n",
    "        key = getattr(func_, \"__qualname__\", func_)\n        if key not in memo_dat_version_of_func:\n            memo_dat_version_of_func[key] = lambda *args, **kwargs: func_(dat)\n        return memo_dat_version_of_func[key]\n")], '''
from ticdat.utils import _integrity_solve
tdf = TicDatFactory(t=[["k"], ["d"]])
tdf.add_data_row_predicate("t", lambda row, top: row["d"] < top, "a", lambda dat: {"top": 5})
tdf.add_data_row_predicate("t", lambda row, top: row["d"] < top, "b", lambda dat: {"top": 50})
_, err = _integrity_solve(tdf, tdf.TicDat(t={1: 10}))
assert list(err.data_row_failures["Predicate Name"]) == ["a"], err.data_row_failures
''', "two predicate_kwargs_maker lambdas in one TicDatFactory and the --errors option", "the second predicate is given the first one's keyword arguments")
bug("good-rows-sampled", "P04", [(TDF, "        if not all(len(x) == len(self.data_fields.get(table_name,())) for x in containerishrows) :\n", "        if not all(len(x) == len(self.data_fields.get(table_name,())) for x in containerishrows[:1000]) :\n")], '''
tdf = TicDatFactory(t=[[], ["a", "b"]])
rows = [[1, 2]] * 1500 + [[1, 2, 3]]
assert not tdf.good_tic_dat_table(rows, "t")
''', "a row of the wrong length beyond the first thousand rows", "good_tic_dat_table accepts the table")
bug("json-parameter-blank", "P26", [(JS, "        rtn = self.tic_dat_factory.TicDat(**tic_dat_dict)\n        rtn = self.tic_dat_factory._parameter_table_post_read_adjustment(rtn)\n", "        rtn = self.tic_dat_factory.TicDat(**{t: v for t, v in tic_dat_dict.items() if v or self.tic_dat_factory.data_fields.get(t)})\n        if len(tic_dat_dict) > 1:\n            rtn = self.tic_dat_factory._parameter_table_post_read_adjustment(rtn)\n")], '''
tdf = TicDatFactory(parameters=[["k"], ["v"]])
tdf.add_parameter("when", "2020-01-01", datetime=True)
import datetime
back = tdf.json.create_tic_dat(tdf.json.write_file(tdf.TicDat(parameters=[["when", datetime.datetime(2021, 1, 1)]]), ""))
assert isinstance(back.parameters["when"]["v"], datetime.datetime), back.parameters
''', "a JSON file with no table but the parameters", "the parameters aren't converted to their declared types")
bug("pan-neg-infinity-column", "P22", [(PDF, "                def find_fields_w_issues(row):\n                    for f in all_fields:\n                        if utils.numericish(row[f]) and abs(row[f]) >= self.infinity_io_flag:\n                            fields_w_issues.add(f)\n                utils.faster_df_apply(df, find_fields_w_issues)\n",
    "                def find_fields_w_issues(row):\n                    for f in all_fields:\n                        if utils.numericish(row[f]) and row[f] >= self.infinity_io_flag:\n                            fields_w_issues.add(f)\n                utils.faster_df_apply(df, find_fields_w_issues)\n")], '''
pdf = PanDatFactory(t=[["k"], ["d"]])
pdf.set_infinity_io_flag(1000)
back = pdf.json.create_pan_dat(pdf.json.write_file(pdf.PanDat(t=pd.DataFrame({"k": [1, 2], "d": [3, -float("inf")]})), ""))
assert list(back.t["d"]) == [3, -float("inf")], back.t
''', "a numeric infinity_io_flag and a column with negative infinities only", "they are read back as the flag")
bug("sql-text-15-digits", "P19", [(SQ, "        return \"null\"\n    return str(x)\n", "        return \"null\"\n    return \"%.15g\"%x if isinstance(x, float) else str(x)\n")], """
tdf = TicDatFactory(t=[["k"], ["d"]])
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "f.sql")
    tdf.sql.write_sql_file(tdf.TicDat(t=[["x", 0.1 + 0.2]]), f, include_schema=True)
    back = tdf.sql.create_tic_dat_from_sql(f, includes_schema=True)
assert back.t["x"]["d"] == 0.1 + 0.2, back.t
""", "a number that takes seventeen digits, in an .sql file", "the last digits are lost")
