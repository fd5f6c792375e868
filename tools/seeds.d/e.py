bug("json-dict-rows-filled", "P17", [(JS, "                    rtn[t].append({f: tdf._general_read_cell(t, f, x) for f, x in row.items()})\n", "                    rtn[t].append({f: tdf._general_read_cell(t, f, row.get(f)) for f in all_fields})\n")], '''
tdf = TicDatFactory(t=[["k"], ["a", "b"]])
tdf.set_default_value("t", "b", 7)
dat = tdf.json.create_tic_dat('{"t": [{"k": 1, "a": 2}, {"k": 2, "a": 3, "b": 4}]}')
assert {k: r["b"] for k, r in dat.t.items()} == {1: 7, 2: 4}, dat.t
''', "JSON rows written as dictionaries, one of which leaves out a data field", "the missing field reads as None instead of its default value")
bug("pandas-reset-keys-only", "P16", [(TDF, "                if not reset_index:\n                    df.set_index(list(pks), inplace=True,", "                if not reset_index or not dfs:\n                    df.set_index(list(pks), inplace=True,")], '''
tdf = TicDatFactory(t=[["k", "m"], []], u=[["k"], ["d"]])
pan = tdf.copy_to_pandas(tdf.TicDat(t=[[1, 2], [3, 4]], u={5: 2}), reset_index=True)
assert list(pan.u.index) == [0] and list(pan.t.index) == [0, 1], pan.t
''', "copy_to_pandas with reset_index=True and a table that has no data fields", "the frame is indexed by its primary key instead of by integers")
bug("strings-allowed-trimmed", "P10", [(UT, "            return data in self.strings_allowed\n        return False", "            return data in self.strings_allowed or data.strip() in self.strings_allowed\n        return False")], '''
for F in (TicDatFactory, PanDatFactory):
    f = F(t=[["k"], ["s"]])
    f.set_data_type("t", "s", number_allowed=False, strings_allowed=["a", "b"])
    dat = f.TicDat(t={1: "a", 2: "b "}) if F is TicDatFactory else f.PanDat(t=pd.DataFrame({"k": [1, 2], "s": ["a", "b "]}))
    got = f.find_data_type_failures(dat)
    assert [tuple(k) for k in got] == [("t", "s")], got
''', "a string that equals an allowed one but for spaces around it", "it isn't reported as a data type failure")
bug("assign-in-place", "P01", [(TDF, "                        return super(TicDatDict, self).__setitem__(key, rowfactory(value))\n", "                        row = rowfactory(value)\n                        if key in self and len(row):\n                            for field, cell in row.items():\n                                super(TicDatDict, self).__getitem__(key)[field] = cell\n                            return\n                        return super(TicDatDict, self).__setitem__(key, row)\n")], '''
tdf = TicDatFactory(t=[["k"], ["a", "b"]])
dat = tdf.TicDat(t={1: [2, 3]})
before = dat.t[1]
dat.t[1] = [4, 5]
assert dict(before) == {"a": 2, "b": 3} and dict(dat.t[1]) == {"a": 4, "b": 5}, before
''', "a row that is held on to while its key is assigned anew", "the row held on to changes")
bug("circle-of-two", "P05", [(UT, "        elif t not in already_seen:\n            for fk in fks.get(t, ()):\n                process_table(fk.foreign_table, already_seen + [t])", "        elif len(already_seen) < 2:\n            for fk in fks.get(t, ()):\n                process_table(fk.foreign_table, already_seen + [t])")], '''
import io
tdf = TicDatFactory(a=[["x"], []], b=[["x"], []], c=[["x"], []], d=[["x"], []])
out = io.StringIO()
with contextlib.redirect_stdout(out):
    for n, f in ("ab", "bc", "cd", "da"):
        tdf.add_foreign_key(n, f, ["x", "x"])
assert "circular" in out.getvalue()
''', "a circle of four or more foreign keys", "no circular foreign key is warned of")
bug("extension-anywhere", "P28", [(UT, "    file_or_dir = lambda f: \"file\" if any(f.endswith(_) for _ in recognized_extensions)", "    file_or_dir = lambda f: \"file\" if any(_ in os.path.basename(f) for _ in recognized_extensions)")], '''
import types
mod = types.ModuleType("engine")
tdf = TicDatFactory(t=[["k"], ["d"]])
mod.input_schema, mod.solution_schema = tdf, tdf
mod.solve = lambda dat: dat
sys.modules["__main__"].__dict__.update(input_schema=tdf, solution_schema=tdf, solve=mod.solve)
with tempfile.TemporaryDirectory() as d:
    src, dst = os.path.join(d, "v1.json_files"), os.path.join(d, "out.xls_files")
    tdf.csv.write_directory(tdf.TicDat(t={1: 2}), src)
    argv, sys.argv = sys.argv, ["prog", "-i", src, "-o", dst]
    try:
        ticdat.standard_main(tdf, tdf, mod.solve)
    finally:
        sys.argv = argv
    assert os.path.isdir(dst) and len(tdf.csv.create_tic_dat(dst).t) == 1
''', "a csv directory whose name has a file extension in the middle", "standard_main takes the directory for a file")
bug("unkeyed-not-duplicated", "P14", [(UT, "                 k = tuple(row[f] for f in flds)\n                 k = k[0] if len(k)==1 else k\n                 rtn[t][k] += 1", "                 k = tuple(row[f] for f in flds)\n                 if None in k: # an incomplete key identifies nothing\n                     continue\n                 k = k[0] if len(k)==1 else k\n                 rtn[t][k] += 1")], '''
tdf = TicDatFactory(t=[["k", "m"], ["d"]])
got = tdf.json.find_duplicates('{"t": [[1, null, 3], [1, null, 4], [1, 2, 5]]}')
assert got == {"t": {(1, None): 2}}, got
''', "rows of a JSON file whose primary keys hold a null", "their duplicates aren't found")
