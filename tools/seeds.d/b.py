PDF, UT = "ticdat/pandatfactory.py", "ticdat/utils.py"
bug("self-key-cascade", "P09", [(PDF, "            setattr(pan_dat, native, getattr(pan_dat, native)[[not _ for _ in rows]].copy(deep=True))\n            remove_rows = self._find_foreign_key_failure_rows(pan_dat)\n", "            setattr(pan_dat, native, getattr(pan_dat, native)[[not _ for _ in rows]].copy(deep=True))\n            remove_rows = {k: v for k, v in self._find_foreign_key_failure_rows(pan_dat).items() if k != fk}\n")], '''
pdf = PanDatFactory(t=[["k"], ["boss"]])
pdf.add_foreign_key("t", "t", ["boss", "k"])
dat = pdf.PanDat(t=pd.DataFrame({"k": [1, 2, 3, 4], "boss": [1, 9, 2, 3]}))
pdf.remove_foreign_key_failures(dat)
assert list(dat.t["k"]) == [1], dat.t
''', "a foreign key from a table to itself, with a chain of rows hanging on an orphan", "PanDat removal doesn't cascade along a self-referencing key")
bug("freeze-skips-empty-links", "P03", [(TDF, "                    if utils.dictish(_t) and not getattr(_t, \"_attributesFrozen\", False) :", "                    if utils.dictish(_t) and len(_t) and not getattr(_t, \"_attributesFrozen\", False) :")], '''
tdf = TicDatFactory(p=[["k"], ["d"]], c=[["k", "j"], ["q"]])
tdf.add_foreign_key("c", "p", ["k", "k"])
tdf.enable_foreign_key_links()
dat = tdf.freeze_me(tdf.TicDat(p=[[1, 1], [2, 2]], c=[[1, "a", 5]]))
try:
    dat.p[2].c["zz"] = 3
    raise SystemExit("edited a frozen object: %s" % dict(dat.p[2].c))
except ticdat.utils.TicDatError:
    pass
''', "foreign key links and a parent row without child rows, after the freeze",
    "the empty link of a childless parent can still be edited in a frozen TicDat")
bug("valid-data-memo", "P10", [(TDF, "            for table, type_row in true_data_types.items():\n                _table = getattr(tic_dat, table)\n", "            for table, type_row in true_data_types.items():\n                _table = getattr(tic_dat, table)\n                seen = {} # many rows tend to share the same few values\n"),
    (TDF, "                            if not data_type.valid_data(full_row[field]) :\n", "                            if (field, full_row[field]) not in seen:\n                                seen[field, full_row[field]] = data_type.valid_data(full_row[field])\n                            if not seen[field, full_row[field]] :\n")], '''
tdf = TicDatFactory(t=[["k"], ["d"]])
tdf.set_data_type("t", "d")
dat = tdf.TicDat(t=[["a", 1], ["b", True], ["c", 0], ["d", False]])
got = tdf.find_data_type_failures(dat)
assert {k for v in got.values() for k in v.pks} == {"b", "d"}, got
''', "a boolean and the number equal to it in the same field of two rows", "a cell is judged by the verdict on an equal cell of another type")
bug("csv-float-by-default", "P26", [("ticdat/csvtd.py", "(not dt and numericish(dv))", "(numericish(dv) and not (dt and dt.strings_allowed == '*'))")], '''
tdf = TicDatFactory(t=[["k"], ["d"]])
tdf.set_data_type("t", "d", number_allowed=False, strings_allowed=["01", "1", "x"])
with tempfile.TemporaryDirectory() as d:
    tdf.csv.write_directory(tdf.TicDat(t=[["a", "01"], ["b", "1"], ["c", "x"]]), d, allow_overwrite=True)
    back = tdf.csv.create_tic_dat(d)
assert {k: r["d"] for k, r in back.t.items()} == {"a": "01", "b": "1", "c": "x"}, back.t
''', "a field restricted to an enumeration of strings, some of which look like numbers, that keeps its numeric default",
    "text that looks like a number is turned into a number in a string field on reading .csv")
bug("json-first-space-only", "P23", [("ticdat/jsontd.py", "                if stringish(t2) and t.lower() == t2.replace(\" \", \"_\").lower():", "                if stringish(t2) and t.lower() == t2.replace(\" \", \"_\", 1).lower():")], '''
tdf = TicDatFactory(big_blue_things=[["k"], ["d"]])
back = tdf.json.create_tic_dat('{"Big Blue Things": [[1, 2]]}')
assert len(back.big_blue_things) == 1, back
''', "a table name with two or more underscores, written with spaces in the file", "the table reads as empty")
bug("xls-dups-offset", "P14", [("ticdat/xls.py", "            for x in (sheet.row_values(i) for i in range(table_len)[row_offsets[table]+ho:]) :", "            for x in (sheet.row_values(i) for i in range(table_len)[max(row_offsets[table], ho):]) :")], '''
import openpyxl
tdf = TicDatFactory(t=[["k"], ["d"]])
with tempfile.TemporaryDirectory() as d:
    wb = openpyxl.Workbook(); ws = wb.active; ws.title = "t"
    for r in [["some", "title"], ["k", "d"], ["k", 1], ["a", 2], ["a", 3]]:
        ws.append(r)
    f = os.path.join(d, "f.xlsx"); wb.save(f)
    got = tdf.xls.find_duplicates(f, row_offsets={"t": 1})
assert got == {"t": {"a": 2}}, got
''', "row_offsets together with a header row, whose text equals a key", "the header row is counted as a data row by find_duplicates")
bug("sqlite-shared-cursor", "P27", [("ticdat/sqlitetd.py", "            with sql.connect(db_file_path) as con:\n                for row in con.execute(\"Select %s from [%s]\"%\n", "            with sql.connect(db_file_path) as con:\n                for row in cursors.setdefault(table, con.cursor()).execute(\"Select %s from [%s]\"%\n"),
    ("ticdat/sqlitetd.py", "        tdf = self.tic_dat_factory\n        def tableObj() :\n", "        tdf = self.tic_dat_factory\n        cursors = {}\n        def tableObj() :\n")], '''
tdf = TicDatFactory(t=[[], ["d"]])
tdf.set_generator_tables(["t"])
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "f.db")
    tdf.sql.write_db_data(tdf.TicDat(t=[[i] for i in range(5)]), f)
    dat = tdf.sql.create_tic_dat(f)
    pairs = [(x["d"], y["d"]) for x in dat.t() for y in dat.t()]
assert len(pairs) == 25, pairs
''', "two iterations over the same SQLite generator table in progress at once", "the inner iteration ends the outer one")
bug("ampl-filter-leak", "P33", [(TDF, "        rtn = self.TicDat()\n        for (t,f), av in ampl_variables.items():\n          filter_ = lambda x : x != 0\n", "        rtn = self.TicDat()\n        filter_ = lambda x : x != 0\n        for (t,f), av in ampl_variables.items():\n")], '''
class Values:
    def __init__(self, d): self.d = d
    def toDict(self): return self.d
    def toPandas(self): return pd.DataFrame({"v": list(self.d.values())}, index=list(self.d))
class Variable:
    def __init__(self, d): self.d = d
    def getValues(self): return Values(self.d)
tdf = TicDatFactory(t=[["k"], ["a", "b"]])
got = tdf.copy_from_ampl_variables({("t", "a"): (Variable({"x": 0, "y": 1}), lambda v: v > 0),
                                    ("t", "b"): Variable({"x": -2, "y": 3})})
assert {k: dict(v) for k, v in got.t.items()} == {"x": {"a": 0, "b": -2}, "y": {"a": 1, "b": 3}}, got.t
''', "a variable with a filter of its own, followed by one that has none", "the filter of one variable is applied to the variables after it")
bug("row-keeps-callers-list", "P01", [(UT, "                for i in range(len(self)):\n                    self._data[i] = x[i]\n", "                self._data = x if isinstance(x, list) else list(x)\n")], '''
tdf = TicDatFactory(t=[["k"], ["d", "e"]])
rows = {"a": [1, 2], "b": [3, 4]}
dat = tdf.TicDat(t=rows)
dat.t["a"]["d"] = 100
assert rows == {"a": [1, 2], "b": [3, 4]}, rows
rows["b"][1] = 200
assert dat.t["b"]["e"] == 4, dat.t
''', "rows passed as lists that the caller keeps and changes later", "the TicDat and the caller share the row lists")
bug("falsy-default-replacement", "P11", [(TDF, "                        self._default_values.get(table, {}).get(field, 0))\n", "                        self._default_values.get(table, {}).get(field) or 0)\n")], '''
tdf = TicDatFactory(t=[["k"], ["d", "e"]])
tdf.set_data_type("t", "d", min=0, max=10, nullable=True)
tdf.set_default_value("t", "d", None)
dat = tdf.TicDat(t=[[1, 5, 5], [2, 50, 50], [3, None, 3]])
tdf.replace_data_type_failures(dat)
assert {k: r["d"] for k, r in dat.t.items()} == {1: 5, 2: None, 3: None}, dat.t
''', "a field whose default is None (or ''), without an explicit replacement value", "zero is written instead of the field's default")
bug("remove-field-everywhere", "P06", [(UT, "            for t, f in fields_to_remove:\n                if f in rtn[k].get(t, {}):\n                    rtn[k][t].pop(f)\n", "            for t, f in fields_to_remove:\n                for t_ in (t, *rtn[k]):\n                    if f in rtn[k].get(t_, {}):\n                        rtn[k][t_].pop(f)\n")], '''
for F in (TicDatFactory, PanDatFactory):
    f = F(t=[["k"], ["a", "b"]], u=[["k"], ["a"]])
    f.set_data_type("u", "a", min=3)
    f.set_tooltip("u", "a", "tip")
    new = f.clone_remove_a_column("t", "a")
    assert new.data_types == f.data_types and dict(new.tooltips) == dict(f.tooltips), new.data_types
''', "removing a column whose name another table's column has", "the data type, default and tooltip of the other table's column are lost")
bug("trip-wire-index", "P30", [(UT, "            new_func = trip_wire_check(data[-1])\n            if new_func:\n                func = new_func\n                trip_wire_check = None\n", "            new_func = trip_wire_check(data[-1])\n            if new_func:\n                return pd.Series(data + [new_func({f:v for f,v in zip(cols, r[1:])}) for r in\n                                         df.iloc[len(data):].itertuples(index=True)],\n                                 index=index + list(df.index[len(set(index)):]))\n")], '''
df = pd.DataFrame({"a": [1, 2, 3, 4]}, index=[7, 7, 8, 9])
got = ticdat.utils.faster_df_apply(df, lambda r: r["a"] * 10, trip_wire_check=lambda x: (lambda r: -1) if x == 30 else None)
assert list(got.index) == [7, 7, 8, 9] and list(got) == [10, 20, 30, -1], got
''', "a DataFrame with a repeated index value and a trip wire that goes off after it", "the result has a wrong index, or an error is raised")
bug("slicer-cache-positions", "P29", [(UT, "        if wildcards not in self._archived_slicings:\n            for indx in self._indicies:\n                self._archived_slicings[wildcards][fa(indx)].append(indx)\n        return list(self._archived_slicings[wildcards][fa(args)])",
     "        if len(wildcards) not in self._archived_slicings or not wildcards:\n            if not wildcards:\n                self._archived_slicings.pop(0, None)\n            for indx in self._indicies:\n                self._archived_slicings[len(wildcards)][fixedposns, fa(indx)].append(indx)\n        return list(self._archived_slicings[len(wildcards)][fixedposns, fa(args)])")], '''
s = ticdat.utils.Slicer([(("a", 1), 2, 3), (("a", 1), 4, 3)])
assert len(s.slice(("a", 1), "*", "*")) == 2
assert len(s.slice("*", 2, "*")) == 1, s.slice("*", 2, "*")
''', "two slices with as many wildcards in different positions, over nested tuples", "the second slice finds nothing")

bug("shallow-pandat-numbers", "P02", [(PDF, "                    setattr(self, t, tbl.copy())\n", "                    setattr(self, t, tbl.copy(deep=len(tbl.columns) > 1))\n")], '''
pdf = PanDatFactory(t=[["k"], []])
dat = pdf.PanDat(t=pd.DataFrame({"k": [1, 2]}))
new = pdf.copy_pan_dat(dat)
new.t.loc[new.t["k"] == 1, "k"] = 99
assert list(dat.t["k"]) == [1, 2], dat.t
''', "a cell of a table with a single column written in place", "copy_pan_dat shares its cells with the source")
bug("pan-json-frame-order", "P25", [("ticdat/pandatio.py", "                jdict[t].append([fix_cell(row[f]) for f in pks + dfs])\n", "                jdict[t].append([fix_cell(x) for x in row.values()])\n"),
    (PDF, "            setattr(rtn, t, getattr(dat, t)[list(self._all_fields(t) or getattr(dat, t).columns)])\n", "            setattr(rtn, t, getattr(dat, t)[[c for c in getattr(dat, t).columns if c in self._all_fields(t) or not self._all_fields(t)]])\n")], '''
tdf = TicDatFactory(t=[["k"], ["d"]])
pdf = PanDatFactory(t=[["k"], ["d"]])
dat = pdf.PanDat()
dat.t = pd.DataFrame({"extra": [0, 0], "d": [1, 2], "k": ["a", "b"]})
back = tdf.json.create_tic_dat(pdf.json.write_file(dat, ""))
assert {k: r["d"] for k, r in back.t.items()} == {"a": 1, "b": 2}, back.t
''', "a PanDat table whose columns are in another order than the schema's", "the .json file written has its cells in the wrong order (two sites that both look fine)")
