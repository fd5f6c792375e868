PIO, PG, MD, SQ, JS = "ticdat/pandatio.py", "ticdat/pgtd.py", "ticdat/model.py", "ticdat/sqlitetd.py", "ticdat/jsontd.py"
bug("kwargs-failure-uncounted", "P12", [(PDF, "                                        else f\"predicate_kwargs_maker failed to return a dict\")\n                    number_failures[0] += 1\n", "                                        else f\"predicate_kwargs_maker failed to return a dict\")\n")], '''
pdf = PanDatFactory(t=[["k"], ["d"]], u=[["k"], ["d"]])
pdf.add_data_row_predicate("t", lambda row, **kw: True, predicate_name="bad maker", predicate_kwargs_maker=lambda dat: None)
pdf.add_data_row_predicate("u", lambda row: row["d"] > 0, predicate_name="positive")
dat = pdf.PanDat(t=pd.DataFrame({"k": [1], "d": [1]}), u=pd.DataFrame({"k": [1, 2], "d": [-1, -1]}))
got = pdf.find_data_row_failures(dat, max_failures=2, exception_handling="Handled as Failure")
assert sum(len(v) if hasattr(v, "columns") else 1 for v in got.values()) == 2, got
''', "max_failures together with a predicate_kwargs_maker that fails", "a failing predicate_kwargs_maker isn't counted, so more than max_failures failures are returned")
bug("none-flag-lost", "P05", [(PDF, "        if \"infinity_io_flag\" in full_schema:\n            rtn.set_infinity_io_flag", "        if full_schema.get(\"infinity_io_flag\") is not None:\n            rtn.set_infinity_io_flag")], '''
pdf = PanDatFactory(t=[["k"], ["d"]])
pdf.set_infinity_io_flag(None)
new = PanDatFactory.create_from_full_schema(pdf.schema(include_ancillary_info=True))
assert new.infinity_io_flag is None, new.infinity_io_flag
''', "an infinity_io_flag of None in the full schema", "the factory recreated from the full schema has no infinity_io_flag")
bug("obfusimplify-blank", "P15", [(TDF, "                return {k: reverse_renamings[foreign_keys[t, k], v] if (t,k) in foreign_keys else v\n", "                return {k: reverse_renamings[foreign_keys[t, k], v] if v != \"\" and (t,k) in foreign_keys else v\n")], '''
tdf = TicDatFactory(a=[["k"], []], c=[["x"], ["k"]])
tdf.add_foreign_key("c", "a", ["k", "k"])
got = tdf.obfusimplify(tdf.TicDat(a=[[""], ["b"]], c=[["x", ""], ["y", "b"]]))
assert {r["k"] for r in got.copy.c.values()} == set(got.copy.a), got.copy.c
''', "a reference to an entity whose key is empty text", "the reference isn't renamed along with the key")
bug("xpress-lazy-solution", "P31", [(MD, "            self._xpress_solution_list = self.core_model.getSolution() if rtn else []\n            return rtn\n", "            return rtn\n"),
    (MD, "            return self._xpress_solution_list[self._var_index[var]]\n", "            if len(self._xpress_solution_list) < len(self._var_index):\n                self._xpress_solution_list = self.core_model.getSolution()\n            return self._xpress_solution_list[self._var_index[var]]\n")], '''
try:
    import xpress
except ImportError:
    raise SystemExit(0)
from ticdat.model import Model
m = Model("xpress")
x = m.add_var(ub=10)
m.set_objective(x, "maximize")
assert m.optimize() and abs(m.get_solution_value(x) - 10) < 1e-6
m.add_constraint(x <= 4)
assert m.optimize() and abs(m.get_solution_value(x) - 4) < 1e-6, m.get_solution_value(x)
''', "an xpress model that is solved a second time without new variables", "get_solution_value returns the values of the first solve")
bug("text-default-dated", "P13", [(PDF, "        defaults = {k: dt if dt is not None and v.type_dictionary and v.type_dictionary.datetime else df\n", "        defaults = {k: dt if dt is not None and v.type_dictionary and (v.type_dictionary.datetime or v.type_dictionary.nullable) else df\n")], '''
pdf = PanDatFactory(parameters=[["k"], ["v"]])
pdf.add_parameter("s", "2020-01-02", number_allowed=False, strings_allowed="*", nullable=True)
dat = pdf.PanDat(parameters=pd.DataFrame([], columns=["k", "v"]))
got = pdf.create_full_parameters_dict(dat)
assert got == {"s": "2020-01-02"} and isinstance(got["s"], str), got
''', "a nullable text parameter whose default looks like a date, absent from the table", "create_full_parameters_dict returns a Timestamp instead of the text default")
bug("pg-delete-in-table-order", "P21", [(PG, "        for t in reversed(self._ordered_tables()):\n            if pre_existing_rows[t] == \"delete\":\n", "        emptied = []\n        for t in reversed(self._ordered_tables()):\n            if pre_existing_rows[t] == \"delete\" and t.lower() not in [_.lower()[:len(t)] for _ in emptied]:\n                emptied.append(t)\n")], '''
import ticdat.pgtd
from ticdat.pgtd import PostgresTicFactory
class Engine:
    name = "postgresql"
    log = []
    def execute(self, x, *args):
        self.log.append(str(x)); return []
tdf = TicDatFactory(foods=[["k"], []], foods_big=[["k"], ["x"]])
tdf.add_foreign_key("foods_big", "foods", ["x", "k"])
e = Engine()
tdf.pgsql._handle_prexisting_rows(e, "s", {})
assert len(e.log) == 2, e.log
''', "a child table whose name begins with its parent's", "write_data doesn't empty the parent table, so old rows survive")
bug("sqlite-keeps-longer-tables", "P24", [(SQ, "                con.execute(\"Delete from [%s]\"%t) if allow_overwrite else None\n            for sql_str, data in self._get_data(tic_dat, as_sql=False):\n", "                con.execute(\"Delete from [%s]\"%t) if allow_overwrite and getattr(tic_dat, t) else None\n            for sql_str, data in self._get_data(tic_dat, as_sql=False):\n")], '''
tdf = TicDatFactory(t=[["k"], ["d"]], u=[["k"], ["d"]])
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "f.db")
    tdf.sql.write_db_data(tdf.TicDat(t=[[1, 2]], u=[[1, 2]]), f)
    tdf.sql.write_db_data(tdf.TicDat(t=[[3, 4]]), f, allow_overwrite=True)
    got = tdf.sql.create_tic_dat(f)
assert len(got.t) == 1 and len(got.u) == 0, (got.t, got.u)
''', "overwriting a SQLite file with data in which a table has become empty", "the old rows of that table survive")
