TDF = "ticdat/ticdatfactory.py"
bug("fk-lookup-cache", "P08", [(TDF, "            if (tblname, fields) not in table_data:\n                add_here = table_data[tblname, fields]", "            if (tblname, fields[:1]) not in table_data:\n                add_here = table_data[tblname, fields[:1]]"),
    (TDF, "            return table_data[tblname, fields]\n", "            return table_data[tblname, fields[:1]]\n")], '''
tdf = TicDatFactory(sites=[[], ["a", "b"]], x=[["k"], ["u"]], y=[["k"], ["u", "v"]])
tdf.add_foreign_key("x", "sites", ["u", "a"])
tdf.add_foreign_key("y", "sites", [["u", "a"], ["v", "b"]])
dat = tdf.TicDat(sites=[[1, 2]], x={1: 1}, y={1: [1, 2]})
assert not tdf.find_foreign_key_failures(dat), tdf.find_foreign_key_failures(dat)
''', "two foreign keys onto overlapping non-key fields of the same table, one of them a prefix of the other",
    "find_foreign_key_failures looks one key's values up in the set built for the other key")
bug("implied-fk-rounds", "P07", [(TDF, "        while findderivedforeignkey():\n            pass\n", "        for _ in self.all_tables: # each round cascades one step further down\n            if not findderivedforeignkey():\n                break\n")], '''
tdf = TicDatFactory(**{t: [["k"], ["d"]] for t in "abcd"})
for x, y in zip("abc", "bcd"):
    tdf.add_foreign_key(x, y, ["k", "k"])
    tdf.add_foreign_key(x, y, ["d", "k"])
tdf.add_implied_foreign_keys()
got = {(f.native_table, f.foreign_table, tuple(f.nativefields())) for f in tdf.foreign_keys}
assert ("a", "d", ("k",)) in got and ("a", "d", ("d",)) in got and ("b", "d", ("d",)) in got and ("a", "c", ("d",)) in got, got
''', "more implied foreign keys than there are tables", "add_implied_foreign_keys stops before the closure is complete")
bug("bias-cache-by-field", "P22", [(TDF, "        if (t,f) not in self._none_as_infinity_bias_cache:", "        if f not in self._none_as_infinity_bias_cache:"),
    (TDF, "            self._none_as_infinity_bias_cache[t, f] = _f()\n        return self._none_as_infinity_bias_cache[t, f]", "            self._none_as_infinity_bias_cache[f] = _f()\n        return self._none_as_infinity_bias_cache[f]")], '''
tdf = TicDatFactory(lo=[["k"], ["lim"]], up=[["k"], ["lim"]])
inf = float("inf")
tdf.set_data_type("lo", "lim", min=-inf, max=10, inclusive_min=True)
tdf.set_data_type("up", "lim", min=0, max=inf, inclusive_max=True)
tdf.set_infinity_io_flag(None)
back = tdf.json.create_tic_dat('{"lo": [[1, null]], "up": [[1, null]]}')
assert back.lo[1]["lim"] == -inf and back.up[1]["lim"] == inf, (back.lo, back.up)
''', "the None flag and two tables that have a field of the same name with rules of opposite direction",
    "an infinity written under the None flag comes back as the other infinity")
bug("one-to-one-order", "P07", [(TDF, "                            for key,row in getattr(self, t).items() :\n                                keyrow = ((key,) if not containerish(key) else key) + \\\n                                         tuple(row[x] for x in superself.data_fields[t])\n                                lookup = tuple(keyrow[local_posn[x]] for x in foreign_pk)\n",
     "                            for key,row in getattr(self, t).items() :\n                                keyrow = ((key,) if not containerish(key) else key) + \\\n                                         tuple(row[x] for x in superself.data_fields[t])\n                                lookup = tuple(keyrow[i] for i in sorted(local_posn.values()))\n")], '''
tdf = TicDatFactory(arcs=[["src", "dst"], ["cap"]], flows=[["a", "b", "day"], ["qty"]])
tdf.add_foreign_key("flows", "arcs", [["a", "dst"], ["b", "src"]])
tdf.enable_foreign_key_links()
dat = tdf.TicDat(arcs={("x", "y"): 1}, flows={("y", "x", 3): 5})
assert list(dat.arcs["x", "y"].flows) == [3], dict(dat.arcs["x", "y"].flows)
''', "foreign key links over a compound key whose native fields are in another order than the foreign primary key",
    "foreign key links attach rows to the wrong parent, or to none")
