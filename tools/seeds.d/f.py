bug("word-none-anywhere", "P26", [(PDF, "                    if dt.nullable:\n                        df[f] = df[f].apply(_json_none_cell_adj)", "                    if dt.nullable or dt.strings_allowed != '*':\n                        df[f] = df[f].apply(_json_none_cell_adj)")], '''
pdf = PanDatFactory(t=[["k"], ["d"]])
pdf.set_data_type("t", "d", number_allowed=False, strings_allowed=["none", "some"])
dat = pdf.json.create_pan_dat('{"t": [{"k": 1, "d": "none"}, {"k": 2, "d": "some"}]}')
assert dat.t["d"].tolist() == ["none", "some"], dat.t
''', "a list of allowed strings that holds the word none, for a field that isn't nullable, read from JSON", "the word is read as a null, which is a data type failure")
bug("blank-is-unbounded", "P26", [(PDF, "                                        if pd.isnull(x) else x)", "                                        if pd.isnull(x) or x == \"\" else x)")], '''
pdf = PanDatFactory(t=[["k"], ["d"]])
pdf.set_data_type("t", "d", max=float("inf"), inclusive_max=True, strings_allowed="*")
pdf.set_infinity_io_flag(None)
dat = pdf.json.create_pan_dat('{"t": [{"k": 1, "d": ""}, {"k": 2, "d": null}, {"k": 3, "d": 4}]}')
assert dat.t["d"].tolist() == ["", float("inf"), 4], dat.t
''', "an empty string in a field that allows strings and infinity, under the None infinity flag", "it is read as infinity")
bug("parameter-names-inferred", "P26", [(PDF, "                if fld_singleton[0] not in rtn:\n                    rtn[fld_singleton[0]] = str", "                if fld_singleton[0] not in self.data_types.get(\"parameters\", {}):\n                    rtn[fld_singleton[0]] = str")], '''
pdf = PanDatFactory(parameters=[["key"], ["value"]])
pdf.add_parameter("007", 3)
pdf.set_data_type("parameters", "key", strings_allowed="*")
import sqlite3
with tempfile.TemporaryDirectory() as d:
    with open(os.path.join(d, "parameters.csv"), "w") as f:
        f.write("key,value\\n007,5\\n")
    dat = pdf.csv.create_pan_dat(d)
assert pdf.create_full_parameters_dict(dat) == {"007": 5}, dat.parameters
''', "a parameters table whose key field has a data type that allows numbers, and a parameter whose name looks like a number", "the name is read as a number, and the parameter isn't found")
bug("minus-infinity-no-text", "P22", [(TDF, "                    for rtn in [1, -1]:\n                        if fld_type.valid_data(rtn * float(\"inf\")):", "                    for rtn in [1, -1]:\n                        if fld_type.valid_data(rtn * float(\"inf\")) and not (rtn < 0 and fld_type.strings_allowed):")], """
tdf = TicDatFactory(t=[["k"], ["d"]])
tdf.set_data_type("t", "d", min=-float("inf"), max=5, strings_allowed=["free"])
tdf.set_infinity_io_flag(None)
dat = tdf.TicDat(t={1: -float("inf"), 2: "free", 3: 4})
import sqlite3
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "x.db")
    tdf.sql.write_db_data(dat, p)
    assert [r[0] for r in sqlite3.connect(p).execute("select d from t order by k")] == [None, "free", 4]
    back = tdf.sql.create_tic_dat(p)
assert tdf._same_data(dat, back), back.t
""", "the None infinity flag and a field that allows negative infinity, not infinity, and some strings", "negative infinity isn't replaced by null when written")
bug("blank-parameter-null", "P26", [(TDF, '            if td and td.nullable and v[data_field] == "" and not td.valid_data(v[data_field]):', '            if td and td.nullable and v[data_field] == "":')], """
tdf = TicDatFactory(parameters=[["key"], ["value"]])
tdf.add_parameter("label", "x", number_allowed=False, strings_allowed="*", nullable=True)
import sqlite3
with tempfile.TemporaryDirectory() as d:
    with open(os.path.join(d, "parameters.csv"), "w") as f:
        f.write('key,value\\nlabel,""\\n')
    dat = tdf.csv.create_tic_dat(d)
assert tdf.create_full_parameters_dict(dat) == {"label": ""}, dat.parameters
""", "a nullable parameter that allows any string and is set to the empty one", "it is read as null")
