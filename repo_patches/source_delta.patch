From 99248fdcced160a385652fd4fa88557d0ea02ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:16 +0000
Subject: [PATCH 01/97] fix: don't overwrite a DataFrame's primary key index
 with the key field's default value

---
 ticdat/ticdatfactory.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index 3c7da71..7d56822 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -789,7 +789,8 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
                        set(superself.default_values.get(t, {})).difference(v.columns):
                         v = v.copy(deep=True)
                         for f, d in superself.default_values.get(t, {}).items():
-                            if f not in v.columns:
+                            if f not in v.columns and not (f in superself.primary_key_fields.get(t, ()) and
+                                                           f in v.index.names):
                                 v[f] = d
                     if not (goodticdattable(v, t, lambda x : badticdattable.append(x))) :
                         raise utils.TicDatError(t + " cannot be treated as a ticDat table : " +
-- 
2.43.0


From 0e6ff4c1fe7b2a5e389ba39f1b2557d0b3e248d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:16 +0000
Subject: [PATCH 02/97] fix: apply default values when a keyed table is built
 from a list of row dicts

---
 ticdat/ticdatfactory.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index 7d56822..ba681d7 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -818,7 +818,8 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
                          def handle_row_dict(r):
                              if not utils.dictish(r):
                                  return r
-                             return [r.get(k, 0) for k in superself.primary_key_fields[t] +
+                             dvs = superself.default_values.get(t, {})
+                             return [r.get(k, dvs.get(k, 0)) for k in superself.primary_key_fields[t] +
                                       superself.data_fields.get(t,[])]
                          drf = datarowfactory(t) # lots of verification inside the datarowfactory
                          setattr(self, t, ticdattablefactory(self._all_data_dicts, t)(
-- 
2.43.0


From 59ee370fc704105b13e4377779c6b8e9e4687e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:59 +0000
Subject: [PATCH 03/97] fix: block popitem, clear, setdefault and |= on frozen
 dictionaries too

---
 ticdat/utils.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/ticdat/utils.py b/ticdat/utils.py
index 765fa9d..126299f 100644
--- a/ticdat/utils.py
+++ b/ticdat/utils.py
@@ -1004,6 +1004,22 @@ class FreezeableDict(_FreezableDictBase) :
         if not getattr(self, "_dataFrozen", False) :
             return super(FreezeableDict, self).pop(*args, **kwargs)
         raise TicDatError("Can't edit a frozen " + self.__class__.__name__)
+    def popitem(self, *args, **kwargs) :
+        if not getattr(self, "_dataFrozen", False) :
+            return super(FreezeableDict, self).popitem(*args, **kwargs)
+        raise TicDatError("Can't edit a frozen " + self.__class__.__name__)
+    def clear(self, *args, **kwargs) :
+        if not getattr(self, "_dataFrozen", False) :
+            return super(FreezeableDict, self).clear(*args, **kwargs)
+        raise TicDatError("Can't edit a frozen " + self.__class__.__name__)
+    def setdefault(self, *args, **kwargs) :
+        if not getattr(self, "_dataFrozen", False) :
+            return super(FreezeableDict, self).setdefault(*args, **kwargs)
+        raise TicDatError("Can't edit a frozen " + self.__class__.__name__)
+    def __ior__(self, *args, **kwargs) :
+        if not getattr(self, "_dataFrozen", False) :
+            return super(FreezeableDict, self).__ior__(*args, **kwargs)
+        raise TicDatError("Can't edit a frozen " + self.__class__.__name__)
 
 class FrozenDict(FreezeableDict) :
     def __init__(self, *args, **kwargs):
-- 
2.43.0


From d49854497bdaab60c02586e70834252301c57c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:33 +0000
Subject: [PATCH 04/97] fix: freeze the foreign key link dictionaries of a
 frozen TicDat

---
 ticdat/ticdatfactory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index ba681d7..73ac82e 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -757,7 +757,7 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
                             setattr(self, t, tuple(_t))
                     else :
                         assert callable(_t) and t in superself.generator_tables
-                for _t in getattr(self, "_allDataDicts", ()) :
+                for _t in getattr(self, "_all_data_dicts", ()) :
                     if utils.dictish(_t) and not getattr(_t, "_attributesFrozen", False) :
                         _t._dataFrozen  = True
                         _t._attributesFrozen = True
-- 
2.43.0


From c305f70990da821c3a014d33bfcef811ecfbd51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:53 +0000
Subject: [PATCH 05/97] fix: good_tic_dat_table returns False for a keyless
 table that is not a container, rather than raising

---
 ticdat/ticdatfactory.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index 73ac82e..43a6bef 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -1189,8 +1189,9 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
             return False
         if table_name in self.generator_tables :
             assert not self.primary_key_fields.get(table_name), "this should be verified in __init__"
-            verify((containerish(data_table) or callable(data_table)) and not dictish(data_table),
-                   "Expecting a container of rows or a generator function of rows for %s"%table_name)
+            if not ((containerish(data_table) or callable(data_table)) and not dictish(data_table)):
+                bad_message_handler("Expecting a container of rows or a generator function of rows for %s"%table_name)
+                return False
             return self._good_data_rows(data_table if containerish(data_table) else data_table(),
                                       table_name, bad_message_handler, row_checking)
         if pd and isinstance(data_table, pd.Series) and len(self.data_fields.get(table_name, ())) == 1:
@@ -1231,8 +1232,9 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
             if utils.containerish(data_table):
                 return self._good_ticdat_key_container(data_table, table_name, bad_message_handler)
         else :
-            verify(utils.containerish(data_table),
-                   "Unexpected ticDat table type for %s."%table_name)
+            if not utils.containerish(data_table):
+                bad_message_handler("Unexpected ticDat table type for %s."%table_name)
+                return False
             return self._good_data_rows(data_table, table_name, bad_message_handler, row_checking)
         bad_message_handler("Unexpected ticDat table type for %s."%table_name)
         return False
-- 
2.43.0


From a63372b0f897c8da5bb78ad19d94783a5380df87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:44 +0000
Subject: [PATCH 06/97] fix: clone with table restrictions and the clone_ edits
 work for schemas with generic tables

---
 ticdat/utils.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ticdat/utils.py b/ticdat/utils.py
index 126299f..560d8f8 100644
--- a/ticdat/utils.py
+++ b/ticdat/utils.py
@@ -193,15 +193,18 @@ def clone_a_anchillary_info_schema(schema, table_restrictions, fields_to_remove=
     fields_to_remove = clean_up_set_of_str_pairs(fields_to_remove, "fields_to_remove")
     verify(set(table_restrictions).issubset(schema["tables_fields"]),
            "table_restrictions needs to be a subset of schema['tables_fields']")
-    all_fields = {(t, f) for t, (pks, dfs) in schema["tables_fields"].items() for f in pks + dfs}
+    all_fields = {(t, f) for t, v in schema["tables_fields"].items() if v != '*' for pks, dfs in [v] for f in pks + dfs}
     verify(fields_to_remove.issubset(all_fields),
            "fields_to_remove needs to be a subset of the aggregate field set in schema['tables_fields']")
     rtn = {}
     for k, v in schema.items():
         if k == "tables_fields":
             rtn[k] = {}
-            for t, (pks, dfs) in schema[k].items():
-                if t in table_restrictions:
+            for t, v_ in schema[k].items():
+                if t in table_restrictions and v_ == '*': # generic table
+                    rtn[k][t] = v_
+                elif t in table_restrictions:
+                    pks, dfs = v_
                     pks = [f for f in pks if (t, f) not in fields_to_remove]
                     dfs = [f for f in dfs if (t, f) not in fields_to_remove]
                     rtn[k][t] = [pks, dfs]
-- 
2.43.0


From 4e3441fd38720db33bb2cbf982acb52ee42fd3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:59 +0000
Subject: [PATCH 07/97] fix: clone keeps the generator table settings of just
 the tables it keeps

---
 ticdat/ticdatfactory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index 43a6bef..3c99710 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -1387,7 +1387,7 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
                                                            table_restrictions)
         rtn = clone_factory(full_schema)
         if hasattr(rtn, "set_generator_tables"):
-            rtn.set_generator_tables(self.generator_tables)
+            rtn.set_generator_tables([t for t in self.generator_tables if t in rtn.all_tables])
         for tbl, row_predicates in self._data_row_predicates.items():
             if table_restrictions is None or tbl in table_restrictions:
                 for pn, rpi in row_predicates.items():
-- 
2.43.0


From b2a133637e44bf941b302557d71ba369246dd556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:59 +0000
Subject: [PATCH 08/97] fix: cloning a TicDatFactory with foreign key links
 into a PanDatFactory doesn't fail

---
 ticdat/ticdatfactory.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index 3c99710..7cb92a5 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -1395,7 +1395,8 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
                         rtn.add_data_row_predicate(tbl, predicate=rpi.predicate, predicate_name=pn,
                                                    predicate_kwargs_maker=rpi.predicate_kwargs_maker,
                                                    predicate_failure_response=rpi.predicate_failure_response)
-        rtn.enable_foreign_key_links() if self._foreign_key_links_enabled else None
+        if self._foreign_key_links_enabled and hasattr(rtn, "enable_foreign_key_links"):
+            rtn.enable_foreign_key_links()
         if convert_dat: # this function is effectively a constructor so _ reference is ok
             assert callable(convert_dat) and len(inspect.getfullargspec(convert_dat).args) >= 1
             rtn._convert_dat[:] = [convert_dat,
-- 
2.43.0


From ef4e2d3ebb4e901601e4889ef568dc4fd7e77b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:59 +0000
Subject: [PATCH 09/97] fix: clone carries ampl_prepend over

---
 ticdat/ticdatfactory.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index 7cb92a5..1ac3fab 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -1397,6 +1397,8 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
                                                    predicate_failure_response=rpi.predicate_failure_response)
         if self._foreign_key_links_enabled and hasattr(rtn, "enable_foreign_key_links"):
             rtn.enable_foreign_key_links()
+        if hasattr(rtn, "ampl_prepend"):
+            rtn.ampl_prepend = self.ampl_prepend
         if convert_dat: # this function is effectively a constructor so _ reference is ok
             assert callable(convert_dat) and len(inspect.getfullargspec(convert_dat).args) >= 1
             rtn._convert_dat[:] = [convert_dat,
-- 
2.43.0


From 27af02b635e36fbe7ecaf730bab20fb892b91167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:59 +0000
Subject: [PATCH 10/97] fix: an empty table_restrictions is refused by clone,
 as opposed to keeping every table

---
 ticdat/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ticdat/utils.py b/ticdat/utils.py
index 560d8f8..9eafa89 100644
--- a/ticdat/utils.py
+++ b/ticdat/utils.py
@@ -181,7 +181,7 @@ def clone_a_anchillary_info_schema(schema, table_restrictions, fields_to_remove=
         return schema
     verify(dictish(schema) and schema.get("tables_fields") and isinstance(schema["tables_fields"], dict),
            "schema has missing or invalid tables_fields entry")
-    table_restrictions = table_restrictions or set(schema["tables_fields"])
+    table_restrictions = set(schema["tables_fields"]) if table_restrictions is None else table_restrictions
     verify(containerish(table_restrictions) and table_restrictions and
            all(isinstance(_, str) for _ in table_restrictions), "table_restrictions needs to be a container of strings")
     def clean_up_set_of_str_pairs(x, name):
-- 
2.43.0


From 3373b0d15ac908a24d393e2f5e44e0f8d2f98647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:50 +0000
Subject: [PATCH 11/97] fix: clone_rename_a_column works for single field
 tables and for the parameters table

---
 ticdat/utils.py | 41 ++++++++++++++++-------------------------
 1 file changed, 16 insertions(+), 25 deletions(-)

diff --git a/ticdat/utils.py b/ticdat/utils.py
index 9eafa89..73d9502 100644
--- a/ticdat/utils.py
+++ b/ticdat/utils.py
@@ -137,33 +137,24 @@ def clone_rename_a_column(tdf_pdf, table, field, new_field):
     verify(table in tdf_pdf.all_tables, "Unrecognized table name %s" % table)
     verify(field in tdf_pdf.primary_key_fields[table] + tdf_pdf.data_fields[table],
            f"field needs to be one of {tdf_pdf.primary_key_fields[table] + tdf_pdf.data_fields[table]}")
-    if field in tdf_pdf.primary_key_fields[table]:
-        args = ("primary key", tdf_pdf.primary_key_fields[table].index(field))
-    else:
-        args = ("data", tdf_pdf.data_fields[table].index(field))
     verify(new_field not in tdf_pdf.primary_key_fields[table] + tdf_pdf.data_fields[table],
            f"new_field cannot be one of {tdf_pdf.primary_key_fields[table] + tdf_pdf.data_fields[table]}")
-    rtn = clone_add_a_column(clone_remove_a_column(tdf_pdf, table, field), table, new_field, *args)
-    if field in tdf_pdf.data_types.get(table, {}):
-        rtn.set_data_type(table, new_field, *tdf_pdf.data_types[table][field])
-    if field in tdf_pdf.default_values.get(table, {}):
-        rtn.set_default_value(table, new_field, tdf_pdf.default_values[table][field])
-    for fk in tdf_pdf.foreign_keys:
-        def needs_renaming(mp):
-            if hasattr(mp, "native_field"):
-                return (table, field) in {(fk.native_table, mp.native_field), (fk.foreign_table, mp.foreign_field)}
-            return any(needs_renaming(_) for _ in mp) if containerish(mp) else False
-        def do_renaming(mp):
-            field_renaming = lambda _t, _f: new_field if (_t, _f) == (table, field) else _f
-            if hasattr(mp, "native_field"):
-                return (field_renaming(fk.native_table, mp.native_field),
-                        field_renaming(fk.foreign_table, mp.foreign_field))
-            return tuple(do_renaming(_) for _ in mp)if containerish(mp) else mp
-        if needs_renaming(fk.mapping):
-            rtn.add_foreign_key(fk.native_table, fk.foreign_table, do_renaming(fk.mapping))
-    if (table, field) in tdf_pdf.tooltips:
-        rtn.set_tooltip(table, new_field, tdf_pdf.tooltips[table, field])
-    return rtn
+    def renamed(t, f):
+        return new_field if (t, f) == (table, field) else f
+    def renamed_mapping(fk):
+        mappings = [fk.mapping] if type(fk.mapping) is ForeignKeyMapping else fk.mapping
+        return [(renamed(fk.native_table, _.native_field), renamed(fk.foreign_table, _.foreign_field)) for _ in mappings]
+    def clone_factory(full_schema):
+        full_schema = clone_a_anchillary_info_schema(full_schema, table_restrictions=set(tdf_pdf.all_tables))
+        full_schema["tables_fields"][table] = [[renamed(table, f) for f in fs]
+                                               for fs in full_schema["tables_fields"][table]]
+        for k in ["default_values", "data_types", "tooltips"]:
+            if table in full_schema[k]:
+                full_schema[k][table] = {renamed(table, f): v for f, v in full_schema[k][table].items()}
+        full_schema["foreign_keys"] = tuple((fk.native_table, fk.foreign_table, renamed_mapping(fk))
+                                            for fk in full_schema["foreign_keys"])
+        return tdf_pdf.create_from_full_schema(full_schema)
+    return tdf_pdf.clone(clone_factory=clone_factory)
 
 def clone_a_anchillary_info_schema(schema, table_restrictions, fields_to_remove=None):
     '''
-- 
2.43.0


From be6255651e7eae885d85046766c657bf24bb713a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:35 +0000
Subject: [PATCH 12/97] fix: a foreign key whose field pairs are listed in
 another order is not a new foreign key

---
 ticdat/pandatfactory.py | 4 +++-
 ticdat/ticdatfactory.py | 6 ++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/ticdat/pandatfactory.py b/ticdat/pandatfactory.py
index 6f7c4bc..8b87aa9 100644
--- a/ticdat/pandatfactory.py
+++ b/ticdat/pandatfactory.py
@@ -912,7 +912,9 @@ class PanDatFactory(object):
         if utils.does_new_fk_complete_circle(native_table, foreign_table, self):
             print(f"*** A circular foreign key relationship will be creating by adding the {native_table} to " +
                   f"{foreign_table} connection")
-        self._foreign_keys[native_table, foreign_table].add(tuple(_mappings.items()))
+        fk_set = self._foreign_keys[native_table, foreign_table]
+        if set(_mappings.items()) not in map(set, fk_set): # listing the same pairs in a different order isn't a new key
+            fk_set.add(tuple(_mappings.items()))
     def _trigger_has_been_used(self):
         self._has_been_used = True
     def __init__(self, **init_fields):
diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index 1ac3fab..b0308e6 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -534,7 +534,7 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
                     newnativeft = tuple((bridgetonative[bf], ff) for ff,bf in
                                          foreigntobridge.items() if bf in bridgetonative)
                     fkSet = self._foreign_keys[nativetable, bfk.foreign_table]
-                    if newnativeft not in fkSet and self._simple_fk(bfk.foreign_table, newnativeft):
+                    if set(newnativeft) not in map(set, fkSet) and self._simple_fk(bfk.foreign_table, newnativeft):
                         return fkSet.add(newnativeft) or True
         while findderivedforeignkey():
             pass
@@ -578,7 +578,9 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
         if utils.does_new_fk_complete_circle(native_table, foreign_table, self):
             print(f"*** A circular foreign key relationship will be creating by adding the {native_table} to " +
                   f"{foreign_table} connection")
-        self._foreign_keys[native_table, foreign_table].add(tuple(_mappings.items()))
+        fk_set = self._foreign_keys[native_table, foreign_table]
+        if set(_mappings.items()) not in map(set, fk_set): # listing the same pairs in a different order isn't a new key
+            fk_set.add(tuple(_mappings.items()))
 
     def _simple_fk(self, ftbl, fk):
         assert ftbl in self.all_tables
-- 
2.43.0


From c1d764426e164374dc1266a67e83e55d5f6c6bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:00 +0000
Subject: [PATCH 13/97] fix: PanDat foreign key failures are right when the two
 tables use the same field names in different roles

---
 ticdat/pandatfactory.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/ticdat/pandatfactory.py b/ticdat/pandatfactory.py
index 8b87aa9..7caf350 100644
--- a/ticdat/pandatfactory.py
+++ b/ticdat/pandatfactory.py
@@ -1463,15 +1463,11 @@ class PanDatFactory(object):
             while any("_%s_"%_ in c for c in set(parent.columns).union(child.columns)):
                 _ += 1
             magic_field = "_%s_"%_
-            if all(hasattr(mappings, _) for _ in ["native_field", "foreign_field"]):
-                parent = parent.drop_duplicates(mappings.foreign_field, inplace=False).copy(deep=True)
-                parent[mappings.native_field] = parent[mappings.foreign_field]
-                new_index = mappings.native_field
-            else:
-                parent = parent.drop_duplicates([_.foreign_field for _ in mappings], inplace=False).copy(deep=True)
-                for _ in mappings:
-                    parent[_.native_field] = parent[_.foreign_field]
-                new_index = [_.native_field for _ in mappings]
+            _mappings = [mappings] if all(hasattr(mappings, _) for _ in ["native_field", "foreign_field"]) else mappings
+            new_index = [_.native_field for _ in _mappings]
+            # the parent fields are renamed all at once, since the two tables might be using the same field names
+            parent = parent[[_.foreign_field for _ in _mappings]].drop_duplicates(inplace=False).copy(deep=True)
+            parent.columns = new_index
             # sadly a join might knacker the row order, hence the ugliness with magic_field*2 for child
             parent[magic_field] = True
             child.insert(0, magic_field*2, range(0, len(child)))
-- 
2.43.0


From 1b4455551d384ae3ddf2677ac5229d13042c43c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:11 +0000
Subject: [PATCH 14/97] fix: PanDat foreign key failures don't report every row
 when pandas can't join the mixed types of the key columns

---
 ticdat/pandatfactory.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ticdat/pandatfactory.py b/ticdat/pandatfactory.py
index 7caf350..4c5e057 100644
--- a/ticdat/pandatfactory.py
+++ b/ticdat/pandatfactory.py
@@ -1479,8 +1479,14 @@ class PanDatFactory(object):
                 joined = None # see ticdat issue 173
             except:
                 raise
-            bad_rows = set(child[magic_field*2]) if joined is None else \
-                       set(joined[joined[magic_field] != True][magic_field*2])
+            if joined is None: # the join can't handle these types, so fall back to looking up each row
+                def key_rows(df): # as with the join, null matches null
+                    for k in df.index:
+                        yield tuple(None if pd.isnull(x) else x for x in (k if len(new_index) > 1 else (k,)))
+                parent_keys = set(key_rows(parent))
+                bad_rows = {r for k, r in zip(key_rows(child), child[magic_field*2]) if k not in parent_keys}
+            else:
+                bad_rows = set(joined[joined[magic_field] != True][magic_field*2])
             if bad_rows:
                 # I'm casting to list here because child is a copy that doesn't have the original index
                 # This is fixable, (i.e. we could return a Series with an index matching the original child table)
-- 
2.43.0


From 4325fcc9f4940bb5ff5bd54f07b15b785439fa39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:30 +0000
Subject: [PATCH 15/97] fix: remove_foreign_key_failures handles long cascading
 chains without exhausting the recursion limit

---
 ticdat/ticdatfactory.py | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index b0308e6..8cecfa0 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -1822,22 +1822,23 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
 
         :return: tic_dat, with the foreign key failures removed
         """
-        fk_failures = self.find_foreign_key_failures(tic_dat)
-        needs_removal = set()
-        for fk, (_, failed_pks) in fk_failures.items():
-            for failed_pk in failed_pks:
-                if self.primary_key_fields.get(fk.native_table):
-                    assert dictish(getattr(tic_dat, fk.native_table))
-                    if failed_pk in getattr(tic_dat, fk.native_table) :
-                        del(getattr(tic_dat, fk.native_table)[failed_pk])
-                else:
-                    needs_removal.add((fk.native_table, failed_pk))
-        for t,row_index in sorted(needs_removal, reverse=True):
-            getattr(tic_dat, t).pop(row_index)
-        if fk_failures and propagate:
-            return self.remove_foreign_key_failures(tic_dat)
+        fk_failures = True
+        while fk_failures: # iterating, since a long chain of cascading failures would exhaust the recursion limit
+            fk_failures = self.find_foreign_key_failures(tic_dat)
+            needs_removal = set()
+            for fk, (_, failed_pks) in fk_failures.items():
+                for failed_pk in failed_pks:
+                    if self.primary_key_fields.get(fk.native_table):
+                        assert dictish(getattr(tic_dat, fk.native_table))
+                        if failed_pk in getattr(tic_dat, fk.native_table) :
+                            del(getattr(tic_dat, fk.native_table)[failed_pk])
+                    else:
+                        needs_removal.add((fk.native_table, failed_pk))
+            for t,row_index in sorted(needs_removal, reverse=True):
+                getattr(tic_dat, t).pop(row_index)
+            if not propagate:
+                break
         return tic_dat
-
     def _get_full_row(self, ticdat, table, pk):
         full_row = dict(getattr(ticdat, table)[pk])
         if len(self.primary_key_fields[table]) == 1:
-- 
2.43.0


From f9f46dd628d227028f8f785c8c43c4df51d6d113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:10 +0000
Subject: [PATCH 16/97] fix: a primary key field with no data type is only a
 data type failure when null, as documented

---
 ticdat/pandatfactory.py | 9 +++------
 ticdat/ticdatfactory.py | 9 +++------
 ticdat/utils.py         | 6 ++++++
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/ticdat/pandatfactory.py b/ticdat/pandatfactory.py
index 4c5e057..e684f62 100644
--- a/ticdat/pandatfactory.py
+++ b/ticdat/pandatfactory.py
@@ -1128,14 +1128,11 @@ class PanDatFactory(object):
         for more info
         :return:
         '''
-        tmp_pdf = PanDatFactory.create_from_full_schema(self.schema(include_ancillary_info=True))
+        rtn = {t: dict(type_row) for t, type_row in self._data_types.items()}
         for t, pks in self.primary_key_fields.items():
             for pk in pks:
-                if pk not in self._data_types.get(t, ()):
-                    tmp_pdf.set_data_type(t, pk, number_allowed=True,
-                      inclusive_min=True, inclusive_max=True, min=-float("inf"), max=float("inf"),
-                      must_be_int=False, strings_allowed='*', nullable=False, datetime=False)
-        return tmp_pdf.data_types
+                rtn.setdefault(t, {}).setdefault(pk, utils.NotNullData)
+        return rtn
     def find_data_type_failures(self, pan_dat, as_table=True, max_failures=float("inf")):
         """
         Finds the data type failures for a pandat object
diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index 8cecfa0..f33571d 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -1883,20 +1883,17 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
         assert max_failures > 0, "max_failures should be a positive number"
 
         rtn_values, rtn_pks = clt.defaultdict(set), clt.defaultdict(set)
-        tmp_tdf = TicDatFactory.create_from_full_schema(self.schema(include_ancillary_info=True))
+        true_data_types = {t: dict(type_row) for t, type_row in self._data_types.items()}
         for t, pks in self.primary_key_fields.items():
             for pk in pks:
-                if pk not in self._data_types.get(t, ()):
-                    tmp_tdf.set_data_type(t, pk, number_allowed=True,
-                      inclusive_min=True, inclusive_max=True, min=-float("inf"), max=float("inf"),
-                      must_be_int=False, strings_allowed='*', nullable=False, datetime=False)
+                true_data_types.setdefault(t, {}).setdefault(pk, utils.NotNullData)
         number_failures = [0] if max_failures < float("inf") else None
         def populate_rtn():
             def inc_failures_trips_end():
                 if number_failures:
                     number_failures[0] += 1
                     return number_failures[0] >= max_failures
-            for table, type_row in tmp_tdf._data_types.items():
+            for table, type_row in true_data_types.items():
                 _table = getattr(tic_dat, table)
                 if dictish(_table):
                     for pk  in _table:
diff --git a/ticdat/utils.py b/ticdat/utils.py
index 73d9502..e079c0a 100644
--- a/ticdat/utils.py
+++ b/ticdat/utils.py
@@ -314,6 +314,12 @@ class TypeDictionary(namedtuple("TypeDictionary",
                               min=0, max=float("inf"), inclusive_min=True, inclusive_max=True, must_be_int=False,
                               datetime=False)
 
+class NotNullData(object):
+    """Stand in for TypeDictionary that excludes only Null, see https://github.com/ticdat/ticdat/issues/46"""
+    @staticmethod
+    def valid_data(data):
+        return not ((data is None) or (pd and safe_apply(pd.isnull)(data) is True))
+
 class ForeignKey(namedtuple("ForeignKey", ("native_table", "foreign_table", "mapping", "cardinality"))) :
     def nativefields(self):
         return (self.mapping.native_field,) if type(self.mapping) is ForeignKeyMapping \
-- 
2.43.0


From 6722267917c2947541bff2523dcc6a9f9f518075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:40 +0000
Subject: [PATCH 17/97] fix: PanDat replace_data_type_failures accepts a
 replacement value for a primary key field with no default

---
 ticdat/pandatfactory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ticdat/pandatfactory.py b/ticdat/pandatfactory.py
index e684f62..d6f13e8 100644
--- a/ticdat/pandatfactory.py
+++ b/ticdat/pandatfactory.py
@@ -1227,8 +1227,8 @@ class PanDatFactory(object):
         for table, type_row in self._true_data_types().items():
             for field in type_row:
                 if ((table, field) in replacement_values) or (field in self.default_values.get(table, {})):
-                    real_replacements[table, field] = replacement_values.get((table, field),
-                        self.default_values[table][field])
+                    real_replacements[table, field] = replacement_values[table, field] \
+                        if (table, field) in replacement_values else self.default_values[table][field]
         for (table, field), value in real_replacements.items():
             if (table, field) in replacements_needed:
                 verify(self._true_data_types()[table][field].valid_data(value),
-- 
2.43.0


From f466342da7f041a72a34cf7e10d4c464dec2485f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:59 +0000
Subject: [PATCH 18/97] fix: a kwargs maker used both with and without
 convert_dat is called for each, as opposed to sharing one result

---
 ticdat/pandatfactory.py | 8 ++++----
 ticdat/ticdatfactory.py | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/ticdat/pandatfactory.py b/ticdat/pandatfactory.py
index d6f13e8..13b5485 100644
--- a/ticdat/pandatfactory.py
+++ b/ticdat/pandatfactory.py
@@ -1330,7 +1330,7 @@ class PanDatFactory(object):
         for tbl, row_predicates in data_row_predicates.items():
             _table = getattr(pan_dat, tbl)
             for pn, rpi in row_predicates.items():
-                uses_convert = self._convert_dat and (tbl, pn) in self._convert_dat[1]
+                uses_convert = bool(self._convert_dat) and (tbl, pn) in self._convert_dat[1]
                 predicate_kwargs = {}
                 if rpi.predicate_kwargs_maker:
                     if uses_convert and not converted_dat:
@@ -1341,7 +1341,7 @@ class PanDatFactory(object):
                                 converted_dat.append(f"Exception<{e}>")
                         else:
                             converted_dat.append(self._convert_dat[0](pan_dat))
-                    if rpi.predicate_kwargs_maker not in predicate_kwargs_maker_results:
+                    if (rpi.predicate_kwargs_maker, uses_convert) not in predicate_kwargs_maker_results:
                         __pan_dat = converted_dat[0] if uses_convert else pan_dat
                         if uses_convert and isinstance(converted_dat[0], str):
                             _predicate_kwargs = converted_dat[0]
@@ -1352,8 +1352,8 @@ class PanDatFactory(object):
                                 _predicate_kwargs = f"Exception<{e}>"
                         else:
                             _predicate_kwargs = rpi.predicate_kwargs_maker(__pan_dat)
-                        predicate_kwargs_maker_results[rpi.predicate_kwargs_maker] = _predicate_kwargs
-                    predicate_kwargs = predicate_kwargs_maker_results[rpi.predicate_kwargs_maker]
+                        predicate_kwargs_maker_results[rpi.predicate_kwargs_maker, uses_convert] = _predicate_kwargs
+                    predicate_kwargs = predicate_kwargs_maker_results[rpi.predicate_kwargs_maker, uses_convert]
                 if not isinstance(predicate_kwargs, dict):
                     rtn[TPN(tbl, pn)] = PKEM('*', predicate_kwargs
                                         if (isinstance(predicate_kwargs, str) and "Exception<" in predicate_kwargs)
diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index f33571d..55482e4 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -2034,7 +2034,7 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
                     return number_failures[0] >= max_failures
             for tbl, row_predicates in data_row_predicates.items():
                 for pn, rpi in row_predicates.items():
-                    uses_convert = self._convert_dat and (tbl, pn) in self._convert_dat[1]
+                    uses_convert = bool(self._convert_dat) and (tbl, pn) in self._convert_dat[1]
                     predicate_kwargs = {}
                     if rpi.predicate_kwargs_maker:
                         if uses_convert and not converted_dat:
@@ -2045,7 +2045,7 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
                                     converted_dat.append(f"Exception<{e}>")
                             else:
                                 converted_dat.append(self._convert_dat[0](tic_dat))
-                        if rpi.predicate_kwargs_maker not in predicate_kwargs_maker_results:
+                        if (rpi.predicate_kwargs_maker, uses_convert) not in predicate_kwargs_maker_results:
                             __tic_dat = converted_dat[0] if uses_convert else tic_dat
                             if uses_convert and isinstance(converted_dat[0], str):
                                 _predicate_kwargs = converted_dat[0]
@@ -2056,8 +2056,8 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
                                     _predicate_kwargs = f"Exception<{e}>"
                             else:
                                 _predicate_kwargs = rpi.predicate_kwargs_maker(__tic_dat)
-                            predicate_kwargs_maker_results[rpi.predicate_kwargs_maker] = _predicate_kwargs
-                        predicate_kwargs = predicate_kwargs_maker_results[rpi.predicate_kwargs_maker]
+                            predicate_kwargs_maker_results[rpi.predicate_kwargs_maker, uses_convert] = _predicate_kwargs
+                        predicate_kwargs = predicate_kwargs_maker_results[rpi.predicate_kwargs_maker, uses_convert]
                     if not isinstance(predicate_kwargs, dict):
                         rtn[tbl, pn] = PKEM('*', predicate_kwargs
                                             if (isinstance(predicate_kwargs, str) and "Exception<" in predicate_kwargs)
-- 
2.43.0


From fb52621019ed3ff39ee307a6bd72099ec384f68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:17 +0000
Subject: [PATCH 19/97] fix: convert_dat isn't applied to a row predicate that
 replaces, after the clone, one of the same name

---
 ticdat/pandatfactory.py | 4 +++-
 ticdat/ticdatfactory.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/ticdat/pandatfactory.py b/ticdat/pandatfactory.py
index 13b5485..8c1bac3 100644
--- a/ticdat/pandatfactory.py
+++ b/ticdat/pandatfactory.py
@@ -224,7 +224,7 @@ class PanDatFactory(object):
                                    {(tbl, pn) for tbl, pns in rtn._data_row_predicates.items()
                                     for pn, rpi in pns.items() if rpi.predicate_kwargs_maker}]
         else:
-            rtn._convert_dat[:] = self._convert_dat[:]
+            rtn._convert_dat[:] = [self._convert_dat[0], set(self._convert_dat[1])] if self._convert_dat else []
         return rtn
     def clone_add_a_table(self, table, pk_fields, df_fields):
         '''
@@ -701,6 +701,8 @@ class PanDatFactory(object):
                "predicate_failure_response should be Boolean or Error Message")
         if predicate_name is None:
             predicate_name = next(i for i in count() if i not in self._data_row_predicates[table])
+        if self._convert_dat: # convert_dat doesn't apply to row predicates added subsequent to the clone
+            self._convert_dat[1].discard((table, predicate_name))
         self._data_row_predicates[table][predicate_name] = RowPredicateInfo(predicate, predicate_kwargs_maker,
                                                                             predicate_failure_response)
     def get_row_predicates(self, table):
diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index 55482e4..f227faa 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -315,6 +315,8 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
                "predicate_failure_response should be Boolean or Error Message")
         if predicate_name is None:
             predicate_name = next(i for i in count() if i not in self._data_row_predicates[table])
+        if self._convert_dat: # convert_dat doesn't apply to row predicates added subsequent to the clone
+            self._convert_dat[1].discard((table, predicate_name))
         self._data_row_predicates[table][predicate_name] = RowPredicateInfo(predicate, predicate_kwargs_maker,
                                                                             predicate_failure_response)
 
@@ -1407,7 +1409,7 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
                                    {(tbl, pn) for tbl, pns in rtn._data_row_predicates.items()
                                     for pn, rpi in pns.items() if rpi.predicate_kwargs_maker}]
         else:
-            rtn._convert_dat[:] = self._convert_dat[:]
+            rtn._convert_dat[:] = [self._convert_dat[0], set(self._convert_dat[1])] if self._convert_dat else []
         return rtn
     def clone_add_a_table(self, table, pk_fields, df_fields):
         '''
-- 
2.43.0


From 315ac68e27f93e9c480b7acff73ebe140370784a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:08 +0000
Subject: [PATCH 20/97] fix: create_full_parameters_dict doesn't fail for a
 parameters table with non string keys

---
 ticdat/pandatfactory.py | 2 +-
 ticdat/ticdatfactory.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ticdat/pandatfactory.py b/ticdat/pandatfactory.py
index 8c1bac3..22c962c 100644
--- a/ticdat/pandatfactory.py
+++ b/ticdat/pandatfactory.py
@@ -1513,7 +1513,7 @@ class PanDatFactory(object):
                     for k,v in self._parameters.items() for df in [v.default_value]
                     for dt in [utils.dateutil_adjuster(df)]}
         df = dat.parameters[list(self.primary_key_fields["parameters"]) + list(self.data_fields["parameters"])]
-        return dict(defaults, **{k: v for k,v in df.itertuples(index=False)})
+        return {**defaults, **{k: v for k,v in df.itertuples(index=False)}}
 
     def remove_foreign_key_failures(self, pan_dat):
         """
diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index f227faa..0e5448d 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -1811,7 +1811,7 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
         defaults = {k: dt if dt is not None and v.type_dictionary and v.type_dictionary.datetime else df
                     for k,v in self._parameters.items() for df in [v.default_value]
                     for dt in [utils.dateutil_adjuster(df)]}
-        return dict(defaults, **{k: v[self.data_fields["parameters"][0]] for k,v in dat.parameters.items()})
+        return {**defaults, **{k: v[self.data_fields["parameters"][0]] for k,v in dat.parameters.items()}}
 
     def remove_foreign_key_failures(self, tic_dat, propagate=True):
         """
-- 
2.43.0


From 79fee97421895b2a6ab6e77360d964bce64ac543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:25 +0000
Subject: [PATCH 21/97] fix: the json find_duplicates matches table names the
 same way as create_tic_dat

---
 ticdat/jsontd.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ticdat/jsontd.py b/ticdat/jsontd.py
index 8d58c23..2a5db0b 100644
--- a/ticdat/jsontd.py
+++ b/ticdat/jsontd.py
@@ -130,6 +130,7 @@ class JsonTicFactory(freezable_factory(object, "_isFrozen")) :
             jdict = self._create_jdict(json_file_path)
             if self._looks_pandas(jdict):
                 return self.find_duplicates(json_file_path, from_pandas=True)
+            jdict = self._create_tic_dat_dict(jdict) # the table names are matched as per create_tic_dat
         rtn = find_duplicates_from_dict_ticdat(self.tic_dat_factory, jdict)
         return rtn or {}
     def _create_jdict(self, path_or_buf):
-- 
2.43.0


From f633c480f95bfcbe37e52e2bcf9729b8d7d0e8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:07 +0000
Subject: [PATCH 22/97] fix: xlsx reading copes with leading empty rows and
 with an empty sheet without headers

---
 ticdat/xls.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ticdat/xls.py b/ticdat/xls.py
index 6be01f4..f9d1a13 100644
--- a/ticdat/xls.py
+++ b/ticdat/xls.py
@@ -70,11 +70,13 @@ class _OpenPyxlSheetWrapper(object):
             self._max_row = i+1
     @property
     def nrows(self):
-        return self._sheet.max_row-self._sheet.min_row+1
+        return self._max_row # leading empty rows are counted, trailing empty rows only if they haven't been pruned
     def row_values(self, row_index): # openpyxl used 1 based indexing
         return tuple(x.value for x in next(iter(self._sheet.iter_rows(min_row=row_index+1, max_row=row_index+1,
                                                                       min_col=1, max_col=self._max_col))))
     def col_values(self, col_index): # openpyxl used 1 based indexing
+        if self.nrows == 0: # openpyxl interprets max_row=0 as no limit
+            return ()
         return tuple(x.value for x in next(iter(self._sheet.iter_cols(min_col=col_index+1, max_col=col_index+1,
                                                                       min_row=1, max_row=self._max_row))))
 
-- 
2.43.0


From 6b943e79041e38971c26b3a96d4107710afa7496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:12 +0000
Subject: [PATCH 23/97] fix: baseConverter uses integer division

---
 ticdat/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ticdat/utils.py b/ticdat/utils.py
index e079c0a..fce1da4 100644
--- a/ticdat/utils.py
+++ b/ticdat/utils.py
@@ -961,9 +961,9 @@ def baseConverter(number, base):
     while power * base <= number:
         power *= base
     while power >= base :
-        rtn.append(number / power)
-        number -= power * (number/power)
-        power /= base
+        rtn.append(number // power)
+        number -= power * (number // power)
+        power //= base
     rtn.append(number%base)
     return rtn
 
-- 
2.43.0


From d9bb18cee77fa046e1e906d3fb765a323a7bbab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:44 +0000
Subject: [PATCH 24/97] fix: obfusimplify copes with primary key values that
 can't be compared with each other

---
 ticdat/ticdatfactory.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index 0e5448d..0ac1bc6 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -2180,9 +2180,14 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
             table_prepends[t]=name
         assert set(entity_tables) == set(table_prepends)
 
+        def sorted_keys(table):
+            try:
+                return sorted(table)
+            except TypeError: # keys of different types
+                return sorted(table, key=lambda k: (type(k).__name__, str(k)))
         reverse_renamings = {}
         for t in table_prepends :
-            for i,k in enumerate(sorted(getattr(tic_dat, t))) :
+            for i,k in enumerate(sorted_keys(getattr(tic_dat, t))) :
                 reverse_renamings[t, k] = "%s%s"%(table_prepends[t],i+1)
         foreign_keys = {}
         for fk in better_self.foreign_keys:
-- 
2.43.0


From ac0955d0348e0a72e0fe70fd78537ea7c5e02c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:49 +0000
Subject: [PATCH 25/97] fix: obfusimplify doesn't rename references to a field
 that isn't the primary key

---
 ticdat/ticdatfactory.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index 0ac1bc6..c09036b 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -2195,7 +2195,8 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
             if fk.foreign_table in table_prepends:
                 foreign_keys = utils.dict_overlay(foreign_keys,
                                 {(nt,nf) : fk.foreign_table for nf, ff in
-                                  fk.nativetoforeignmapping().items()})
+                                  fk.nativetoforeignmapping().items()
+                                  if (ff,) == better_self.primary_key_fields[fk.foreign_table]})
         # remember -- we've used this factory so any cascading foreign keys are present
         rtn_dict  = clt.defaultdict(dict)
         for t in better_self.all_tables:
-- 
2.43.0


From e26eb8bffa7ef4d3b1a84fefdee17dd367c81cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:43 +0000
Subject: [PATCH 26/97] fix: TicDat objects don't share the data of a generic
 table with the DataFrame they were built from

---
 ticdat/ticdatfactory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index c09036b..7403a1a 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -785,7 +785,7 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
                 for t in init_tables :
                     verify(t in superself.all_tables, "Unexpected table name %s"%t)
                     if t in superself.generic_tables:
-                        setattr(self, t, DataFrame(init_tables[t]))
+                        setattr(self, t, DataFrame(init_tables[t], copy=True))
                 for t,v in init_tables.items():
                   if t not in superself.generic_tables:
                     badticdattable = []
-- 
2.43.0


From 4cf89dfb5f8d046c4d6efcb08d451d08f1472542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:43 +0000
Subject: [PATCH 27/97] fix: copy_to_pandas copies generic tables instead of
 returning their names

---
 ticdat/ticdatfactory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index 7403a1a..2538245 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -1665,7 +1665,7 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
         for tname in table_restrictions:
             tdtable = getattr(tic_dat, tname)
             if tname in self.generic_tables:
-                df = tname
+                df = tdtable.copy(deep=True)
             elif len(tdtable) == 0 :
                 df = DataFrame([], columns = self.primary_key_fields.get(tname,tuple()) +
                                                 self.data_fields.get(tname, tuple()))
-- 
2.43.0


From 3d034c5e93f07a416d1cac0f54c70f378765a6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:22 +0000
Subject: [PATCH 28/97] fix: infinity flagging isn't applied when writing a
 parameters table, as the reader doesn't undo it

---
 ticdat/ticdatfactory.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index 2538245..29a1c28 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -1067,6 +1067,8 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
         if t == "parameters" and self._parameters: # SPEED IS IMPORTANT
             # I will assume a parameters table without parameters specification is just a naive developer
             return None if x is None or (utils.pd and utils.pd.isnull(x)) else x
+        if t == "parameters": # infinity flagging doesn't apply to parameters table, see set_infinity_flag __doc__
+            return x
         if self.infinity_io_flag is None and (self._none_as_infinity_bias(t, f) or float("nan"))*float("inf") == x:
             return None
         if utils.numericish(self.infinity_io_flag) and utils.numericish(x):
-- 
2.43.0


From aa0f8b5bf7b16a712ea9c6c88e5e77d5023e1aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:22 +0000
Subject: [PATCH 29/97] fix: json rows with too many entries, or that aren't
 rows, are rejected instead of being truncated

---
 ticdat/jsontd.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ticdat/jsontd.py b/ticdat/jsontd.py
index 2a5db0b..8768a2a 100644
--- a/ticdat/jsontd.py
+++ b/ticdat/jsontd.py
@@ -176,8 +176,10 @@ class JsonTicFactory(freezable_factory(object, "_isFrozen")) :
             for row in rows:
                 if dictish(row):
                     rtn[t].append({f: tdf._general_read_cell(t, f, x) for f, x in row.items()})
-                else:
+                elif containerish(row) and len(row) == len(all_fields):
                     rtn[t].append([tdf._general_read_cell(t, f, x) for f, x in zip(all_fields, row)])
+                else:
+                    rtn[t].append(row) # the TicDat constructor will reject this row
         return rtn
     def write_file(self, tic_dat, json_file_path, allow_overwrite=False, verbose=False, to_pandas=False):
         """
-- 
2.43.0


From fbfe6b2d93fe02905944160d47800835cc962207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:10 +0000
Subject: [PATCH 30/97] fix: json writers accept numpy numbers

---
 ticdat/jsontd.py   | 4 +++-
 ticdat/pandatio.py | 2 ++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/ticdat/jsontd.py b/ticdat/jsontd.py
index 8768a2a..255d14d 100644
--- a/ticdat/jsontd.py
+++ b/ticdat/jsontd.py
@@ -5,7 +5,7 @@ PEP8
 import os
 from collections import defaultdict
 from ticdat.utils import freezable_factory, TicDatError, verify, stringish, dictish, containerish
-from ticdat.utils import find_duplicates_from_dict_ticdat
+from ticdat.utils import find_duplicates_from_dict_ticdat, numpy
 import datetime
 import itertools
 
@@ -27,6 +27,8 @@ def make_json_dict(tdf, tic_dat, verbose=False, use_infinity_io_flag_if_provided
     def write_cell(t, f, x):
         if isinstance(x, datetime.datetime):
             return str(x)
+        if numpy and isinstance(x, (numpy.integer, numpy.floating, numpy.bool_)): # json doesn't know numpy numbers
+            x = x.item()
         return x if not use_infinity_io_flag_if_provided else tdf._infinity_flag_write_cell(t, f, x)
     jdict = {t: [] for t in tdf.all_tables}
     for t in tdf.all_tables:
diff --git a/ticdat/pandatio.py b/ticdat/pandatio.py
index 999f500..e04468b 100644
--- a/ticdat/pandatio.py
+++ b/ticdat/pandatio.py
@@ -167,6 +167,8 @@ class JsonPanFactory(freezable_factory(object, "_isFrozen")):
                 return None
             if isinstance(x, (pd.Timestamp, numpy.datetime64, datetime.datetime)):
                 return str(x)
+            if isinstance(x, (numpy.integer, numpy.floating, numpy.bool_)): # json doesn't know numpy numbers
+                return x.item()
             return x
 
         for t, (pks, dfs) in self.pan_dat_factory.schema().items():
-- 
2.43.0


From e99cb0be9f8c390a25045a0f0ac97b1e8ab68bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:28 +0000
Subject: [PATCH 31/97] fix: writing an object with generic tables applies the
 infinity flag, parameters and generator settings to the other tables

---
 ticdat/utils.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/ticdat/utils.py b/ticdat/utils.py
index fce1da4..aba7c19 100644
--- a/ticdat/utils.py
+++ b/ticdat/utils.py
@@ -843,6 +843,17 @@ def create_generic_free(td, tdf):
         if len(getattr(td, t)):
             sch[t] = [[],list(getattr(td, t).columns)]
     rtn_tdf = ticdat.TicDatFactory(**sch)
+    # the settings that determine how data is written are those of tdf
+    for t in set(tdf.all_tables).difference(tdf.generic_tables):
+        for f, default in tdf.default_values.get(t, {}).items():
+            rtn_tdf.set_default_value(t, f, default)
+        for f, data_type in tdf.data_types.get(t, {}).items():
+            rtn_tdf.set_data_type(t, f, *data_type)
+    for name, parameter in tdf.parameters.items():
+        rtn_tdf.add_parameter(name, parameter.default_value, *(parameter.type_dictionary or ()),
+                              enforce_type_rules=bool(parameter.type_dictionary))
+    rtn_tdf.set_generator_tables(tdf.generator_tables)
+    rtn_tdf.set_infinity_io_flag(tdf.infinity_io_flag)
     return rtn_tdf.TicDat(**{t:getattr(td, t) for t in rtn_tdf.all_tables}), rtn_tdf
 
 class Slicer(object):
-- 
2.43.0


From 60455685251324a30002753548928e343a669d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:28 +0000
Subject: [PATCH 32/97] fix: csv write_directory honours case_space_table_names
 when there are generic tables

---
 ticdat/csvtd.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ticdat/csvtd.py b/ticdat/csvtd.py
index d4de8f7..60fc0ec 100644
--- a/ticdat/csvtd.py
+++ b/ticdat/csvtd.py
@@ -241,7 +241,8 @@ class CsvTicFactory(freezable_factory(object, "_isFrozen")) :
         verify(not os.path.isfile(dir_path), "A file is not a valid directory path")
         if self.tic_dat_factory.generic_tables:
             dat, tdf = create_generic_free(tic_dat, self.tic_dat_factory)
-            return tdf.csv.write_directory(dat, dir_path, allow_overwrite, dialect, write_header)
+            return tdf.csv.write_directory(dat, dir_path, allow_overwrite, dialect, write_header,
+                                           case_space_table_names)
         tdf = self.tic_dat_factory
         msg = []
         if not self.tic_dat_factory.good_tic_dat_object(tic_dat, lambda m : msg.append(m)) :
-- 
2.43.0


From 843acb20ed2e223c7695fd4dc06ce9b81758227c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:29 +0000
Subject: [PATCH 33/97] fix: csv reading keeps the carriage returns inside of
 quoted text

---
 ticdat/csvtd.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ticdat/csvtd.py b/ticdat/csvtd.py
index 60fc0ec..b30958f 100644
--- a/ticdat/csvtd.py
+++ b/ticdat/csvtd.py
@@ -148,7 +148,7 @@ class CsvTicFactory(freezable_factory(object, "_isFrozen")) :
         rtn = {t:defaultdict(int) for t,_ in tdf.primary_key_fields.items()
                if _ and self._get_file_path(dir_path, t)}
         for t in rtn:
-            with open(self._get_file_path(dir_path, t), encoding=encoding) as csvfile:
+            with open(self._get_file_path(dir_path, t), newline='', encoding=encoding) as csvfile:
                 for r in self._get_data(csvfile, t, dialect, headers_present):
                     p_key = r[tdf.primary_key_fields[t][0]] \
                             if len(tdf.primary_key_fields[t])==1 else \
@@ -195,12 +195,12 @@ class CsvTicFactory(freezable_factory(object, "_isFrozen")) :
         tdf = self.tic_dat_factory
         if table in tdf.generator_tables:
             def rtn() :
-                with open(file_path, encoding=encoding) as csvfile:
+                with open(file_path, newline='', encoding=encoding) as csvfile:
                     for r in self._get_data(csvfile, table, dialect, headers_present):
                         yield tuple(r[_] for _ in tdf.data_fields[table])
         else:
             rtn = {} if tdf.primary_key_fields.get(table) else []
-            with open(file_path, encoding=encoding) as csvfile:
+            with open(file_path, newline='', encoding=encoding) as csvfile:
                 for r in self._get_data(csvfile, table, dialect, headers_present) :
                     if tdf.primary_key_fields.get(table) :
                         p_key = r[tdf.primary_key_fields[table][0]] \
-- 
2.43.0


From 450c08f5439c3a7a3888e835c1cbade78bdb75e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:29 +0000
Subject: [PATCH 34/97] fix: csv and Excel readers notice data types and
 default values set after a find_duplicates call

---
 ticdat/csvtd.py | 2 ++
 ticdat/xls.py   | 1 +
 2 files changed, 3 insertions(+)

diff --git a/ticdat/csvtd.py b/ticdat/csvtd.py
index b30958f..31b93bb 100644
--- a/ticdat/csvtd.py
+++ b/ticdat/csvtd.py
@@ -111,6 +111,7 @@ class CsvTicFactory(freezable_factory(object, "_isFrozen")) :
     def _create_tic_dat(self, dir_path, dialect, headers_present, encoding):
         verify(dialect in csv.list_dialects(), "Invalid dialect %s"%dialect)
         verify(os.path.isdir(dir_path), "Invalid directory path %s"%dir_path)
+        self._dv_dt.clear() # default values and data types might have changed since the last read
         rtn =  {t : self._create_table(dir_path, t, dialect, headers_present, encoding)
                 for t in self.tic_dat_factory.all_tables}
         missing_tables = {t for t in self.tic_dat_factory.all_tables if not rtn[t]}
@@ -145,6 +146,7 @@ class CsvTicFactory(freezable_factory(object, "_isFrozen")) :
         verify(dialect in csv.list_dialects(), "Invalid dialect %s"%dialect)
         verify(os.path.isdir(dir_path), "Invalid directory path %s"%dir_path)
         tdf = self.tic_dat_factory
+        self._dv_dt.clear()
         rtn = {t:defaultdict(int) for t,_ in tdf.primary_key_fields.items()
                if _ and self._get_file_path(dir_path, t)}
         for t in rtn:
diff --git a/ticdat/xls.py b/ticdat/xls.py
index f9d1a13..622b9a3 100644
--- a/ticdat/xls.py
+++ b/ticdat/xls.py
@@ -179,6 +179,7 @@ class XlsTicFactory(freezable_factory(object, "_isFrozen")) :
                                print_missing_tables = False):
         verify(utils.stringish(xls_file_path) and os.path.exists(xls_file_path),
                "xls_file_path argument %s is not a valid file path."%xls_file_path)
+        self._dv_dt.clear() # default values and data types might have changed since the last read
         try :
             book = xlrd.open_workbook(xls_file_path) if xls_file_path.endswith(".xls") else \
                 openpyxl.load_workbook(xls_file_path, data_only=True)
-- 
2.43.0


From 9e75debf259a3e646dcfb6df1bd519ee1e4d0d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:18 +0000
Subject: [PATCH 35/97] fix: a TicDat can be built with a container for a
 generator table without being accused of duplicates

---
 ticdat/ticdatfactory.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index 29a1c28..e2f0f62 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -781,7 +781,8 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
                 superself._trigger_has_been_used()
                 self._all_data_dicts = []
                 self._made_foreign_links = False
-                lens = {t: l for t, v in init_tables.items() for l in [utils.safe_apply(len)(v)] if l is not None}
+                lens = {t: l for t, v in init_tables.items() if t not in superself.generator_tables
+                        for l in [utils.safe_apply(len)(v)] if l is not None}
                 for t in init_tables :
                     verify(t in superself.all_tables, "Unexpected table name %s"%t)
                     if t in superself.generic_tables:
-- 
2.43.0


From f1e97cd09902eeba1a16b691eabb7027fc5f7c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:52 +0000
Subject: [PATCH 36/97] fix: sql text files keep text containing semicolons,
 carriage returns or quotes at both ends

---
 ticdat/sqlitetd.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/ticdat/sqlitetd.py b/ticdat/sqlitetd.py
index f7dcce0..474d503 100644
--- a/ticdat/sqlitetd.py
+++ b/ticdat/sqlitetd.py
@@ -22,7 +22,7 @@ def _fix_str(x):
     """
     rtn = []
     for i,c in enumerate(x):
-        preceeding = x[i-1] if x else ""
+        preceeding = x[i-1] if i else ""
         following = x[i+1] if i < len(x)-1 else ""
         if c != "'" or "'" in (preceeding, following):
             rtn.append(c)
@@ -141,9 +141,8 @@ class SQLiteTicFactory(freezable_factory(object, "_isFrozen")) :
                 for str in self._get_schema_sql(set(tdf.all_tables).
                                                 difference(tdf.generic_tables)):
                     con.execute(str)
-            with open(sql_file_path, "r") as f:
-                for str in f.read().split(";"):
-                    con.execute(str)
+            with open(sql_file_path, "r", newline="") as f: # newline="" preserves the \r inside of text
+                con.executescript(f.read()) # this will notice that a ; inside of text isn't a delimiter
             return self._create_tic_dat_from_con(con,
                         {t:t for t in self.tic_dat_factory.all_tables})
     def _get_table_names(self, db_file_path, tables):
@@ -384,7 +383,7 @@ class SQLiteTicFactory(freezable_factory(object, "_isFrozen")) :
         return self._write_sql_file(tic_dat, sql_file_path, must_schema)
 
     def _write_sql_file(self, tic_dat, sql_file_path, schema_tables):
-        with open(sql_file_path, "w") as f:
+        with open(sql_file_path, "w", newline="") as f:
             for str in self._get_schema_sql(schema_tables) + \
                        self._get_data(tic_dat, as_sql=True):
                 f.write(str + "\n")
-- 
2.43.0


From 22dba583de5770a72a7714d944c43d18053cf2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:52 +0000
Subject: [PATCH 37/97] fix: the infinity flag and boolean conversion also
 apply to keyless tables written to SQLite

---
 ticdat/sqlitetd.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ticdat/sqlitetd.py b/ticdat/sqlitetd.py
index 474d503..e15b3b1 100644
--- a/ticdat/sqlitetd.py
+++ b/ticdat/sqlitetd.py
@@ -298,7 +298,8 @@ class SQLiteTicFactory(freezable_factory(object, "_isFrozen")) :
                         rtn.append((str, datarow))
             else :
                 for sqldatarow in (_t if containerish(_t) else _t()) :
-                    k,v = zip(*sqldatarow.items())
+                    k = tuple(sqldatarow)
+                    v = tuple(self._write_data_cell(t, f, x) for f,x in sqldatarow.items())
                     str = "INSERT INTO [%s] (%s) VALUES (%s)"%\
                              (t, ",".join(_brackets(k)), ",".join(
                                 ["%s" if as_sql else "?"]*len(sqldatarow)))
-- 
2.43.0


From 13ced1dff8b05cc030400f6b1108601754a17426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:52 +0000
Subject: [PATCH 38/97] fix: a SQLite schema can be written when the foreign
 keys are circular

---
 ticdat/sqlitetd.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ticdat/sqlitetd.py b/ticdat/sqlitetd.py
index e15b3b1..9c345bd 100644
--- a/ticdat/sqlitetd.py
+++ b/ticdat/sqlitetd.py
@@ -239,10 +239,10 @@ class SQLiteTicFactory(freezable_factory(object, "_isFrozen")) :
     def _ordered_tables(self):
         rtn = []
         fks = self._fks()
-        def processTable(t) :
-            if t not in rtn:
+        def processTable(t, already_seen=()) :
+            if t not in rtn and t not in already_seen: # circular references can't recurse forever
                 for fk in fks.get(t, ()) :
-                    processTable(fk.foreign_table)
+                    processTable(fk.foreign_table, already_seen + (t,))
                 rtn.append(t)
         list(map(processTable, self.tic_dat_factory.all_tables))
         return tuple(rtn)
-- 
2.43.0


From 2db1305e7d7618713ded4294fe69f0c57152cad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:29 +0000
Subject: [PATCH 39/97] fix: nan is written to a sql text file as null, as it
 is to a SQLite database

---
 ticdat/sqlitetd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ticdat/sqlitetd.py b/ticdat/sqlitetd.py
index 9c345bd..0374bfc 100644
--- a/ticdat/sqlitetd.py
+++ b/ticdat/sqlitetd.py
@@ -36,7 +36,7 @@ def _insert_format(x) :
         return "'%s'"%_fix_str(x)
     if x in (float("inf"), -float("inf")) or isinstance(x, datetime.datetime):
         return "'%s'"%x
-    if x is None:
+    if x is None or x != x:
         return "null"
     return str(x)
 
-- 
2.43.0


From f90ffa8cadd418c9f83bdb020b92ebacb2dcba71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:29 +0000
Subject: [PATCH 40/97] fix: numpy numbers and pandas timestamps are written to
 SQLite as numbers and datetimes, not as blobs

---
 ticdat/sqlitetd.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ticdat/sqlitetd.py b/ticdat/sqlitetd.py
index 0374bfc..d74e344 100644
--- a/ticdat/sqlitetd.py
+++ b/ticdat/sqlitetd.py
@@ -6,7 +6,7 @@ import os
 from collections import defaultdict
 from ticdat.utils import freezable_factory, TicDatError, verify, stringish, dictish, containerish, numericish
 from ticdat.utils import FrozenDict, all_underscore_replacements, find_duplicates
-from ticdat.utils import create_duplicate_focused_tdf, create_generic_free, safe_apply
+from ticdat.utils import create_duplicate_focused_tdf, create_generic_free, safe_apply, numpy
 import datetime
 try:
     import sqlite3 as sql
@@ -275,6 +275,10 @@ class SQLiteTicFactory(freezable_factory(object, "_isFrozen")) :
             rtn.append(str)
         return tuple(rtn)
     def _write_data_cell(self, t, f, x):
+        if numpy and isinstance(x, (numpy.integer, numpy.floating, numpy.bool_)): # SQLite makes blobs out of these
+            x = x.item()
+        if isinstance(x, datetime.datetime): # nor does it know the pandas subclass of datetime
+            return str(x) if x == x else None
         if x is True or x is False:
             return str(x)
         return self.tic_dat_factory._infinity_flag_write_cell(t, f, x)
-- 
2.43.0


From 09b5a7a6431464914f219dc42b1e88ee874a6802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:29 +0000
Subject: [PATCH 41/97] fix: SQLite fields whose data type allows strings
 aren't numeric columns, which turn '007' into 7

---
 ticdat/sqlitetd.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ticdat/sqlitetd.py b/ticdat/sqlitetd.py
index d74e344..33ef50c 100644
--- a/ticdat/sqlitetd.py
+++ b/ticdat/sqlitetd.py
@@ -254,6 +254,9 @@ class SQLiteTicFactory(freezable_factory(object, "_isFrozen")) :
         def data_type(t, f):
             if t == "parameters" and self.tic_dat_factory.parameters:
                 return "" # the TEXT data type doesn't seem to have much value for my purposes.
+            fld_type = self.tic_dat_factory.data_types.get(t, {}).get(f)
+            if fld_type and (fld_type.strings_allowed or fld_type.datetime):
+                return "" # a numeric column would convert the text that looks like a number
             def_  = default_(t, f)
             if numericish(def_):
                 if safe_apply(int)(def_) == def_:
-- 
2.43.0


From a985da326faa5ed4ceb97c3b1683fff0f3094eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:29 +0000
Subject: [PATCH 42/97] fix: the default values of the SQLite schema are
 literals, so None isn't the text 'None' and ] isn't a syntax error

---
 ticdat/sqlitetd.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ticdat/sqlitetd.py b/ticdat/sqlitetd.py
index 33ef50c..c2c7a94 100644
--- a/ticdat/sqlitetd.py
+++ b/ticdat/sqlitetd.py
@@ -266,7 +266,8 @@ class SQLiteTicFactory(freezable_factory(object, "_isFrozen")) :
         for t in [_ for _ in self._ordered_tables() if _ in tables]:
             str = "Create TABLE [%s] (\n"%t
             strl = _brackets(self.tic_dat_factory.primary_key_fields.get(t, ())) + \
-                   ["[%s] " % f + data_type(t,f) + " default [%s]"%default_(t,f)
+                   ["[%s] " % f + data_type(t,f) + " default " +
+                    _insert_format(self._write_data_cell(t, f, default_(t, f)))
                     for f in self.tic_dat_factory.data_fields.get(t, ())]
             for fk in fks.get(t, ()) :
                 nativefields, foreignfields = zip(*(fk.nativetoforeignmapping().items()))
-- 
2.43.0


From 4f6f34bfbda61293e3a973905b6e204f97d18ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:29 +0000
Subject: [PATCH 43/97] fix: SQLite reading finds the fields of a generic table
 whose name in the file is a case/space variation

---
 ticdat/sqlitetd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ticdat/sqlitetd.py b/ticdat/sqlitetd.py
index c2c7a94..db3f052 100644
--- a/ticdat/sqlitetd.py
+++ b/ticdat/sqlitetd.py
@@ -221,7 +221,7 @@ class SQLiteTicFactory(freezable_factory(object, "_isFrozen")) :
             fields = tdf.primary_key_fields.get(table, ()) + tdf.data_fields.get(table, ())
             if not fields:
                 assert table in tdf.generic_tables
-                fields = tuple(x[1] for x in con.execute("PRAGMA table_info(%s)"%table))
+                fields = tuple(x[1] for x in con.execute("PRAGMA table_info([%s])"%table_names[table]))
             rtn[table]= {} if tdf.primary_key_fields.get(table, ())  else []
             for row in con.execute("Select %s from [%s]"%(", ".join(_brackets(fields)),
                                                           table_names[table])):
-- 
2.43.0


From 6479e1b2c6abfff588697059abedc89554965b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:42 +0000
Subject: [PATCH 44/97] fix: reading a sql text file doesn't fail when a
 generic table is empty

---
 ticdat/sqlitetd.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ticdat/sqlitetd.py b/ticdat/sqlitetd.py
index db3f052..5803c64 100644
--- a/ticdat/sqlitetd.py
+++ b/ticdat/sqlitetd.py
@@ -222,6 +222,8 @@ class SQLiteTicFactory(freezable_factory(object, "_isFrozen")) :
             if not fields:
                 assert table in tdf.generic_tables
                 fields = tuple(x[1] for x in con.execute("PRAGMA table_info([%s])"%table_names[table]))
+                if not fields: # an empty generic table isn't written
+                    continue
             rtn[table]= {} if tdf.primary_key_fields.get(table, ())  else []
             for row in con.execute("Select %s from [%s]"%(", ".join(_brackets(fields)),
                                                           table_names[table])):
-- 
2.43.0


From 520b147f4b083d15287ad6259b4a9b1aafaff0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:34 +0000
Subject: [PATCH 45/97] fix: text that looks like a formula or a link is
 written to .xlsx files as text

---
 ticdat/pandatio.py | 10 +++++++++-
 ticdat/xls.py      |  3 ++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/ticdat/pandatio.py b/ticdat/pandatio.py
index e04468b..b8f7028 100644
--- a/ticdat/pandatio.py
+++ b/ticdat/pandatio.py
@@ -18,6 +18,10 @@ try:
     import numpy
 except:
     numpy = None
+try:
+    import xlsxwriter
+except:
+    xlsxwriter = None
 
 _longest_sheet = 30 # seems to be an Excel limit with pandas
 
@@ -620,7 +624,11 @@ class XlsPanFactory(freezable_factory(object, "_isFrozen")):
         case_space_sheet_names = case_space_sheet_names and \
                                  len(set(self.pan_dat_factory.all_tables)) == \
                                  len(set(map(case_space_to_pretty, self.pan_dat_factory.all_tables)))
-        with pd.ExcelWriter(file_path) as writer:
+        # by default the xlsxwriter engine converts text like "=a" to a formula and text like "mailto:a" to a link
+        kwargs = {"engine": "xlsxwriter", "engine_kwargs": {"options": {"strings_to_formulas": False,
+                                                                        "strings_to_urls": False}}} \
+                 if xlsxwriter and str(file_path).endswith(".xlsx") else {}
+        with pd.ExcelWriter(file_path, **kwargs) as writer:
             for t in self.pan_dat_factory.all_tables:
                 getattr(pan_dat, t).to_excel \
                     (writer, sheet_name=(case_space_to_pretty(t) if case_space_sheet_names else t)[:_longest_sheet],
diff --git a/ticdat/xls.py b/ticdat/xls.py
index 622b9a3..27e3a35 100644
--- a/ticdat/xls.py
+++ b/ticdat/xls.py
@@ -452,7 +452,8 @@ class XlsTicFactory(freezable_factory(object, "_isFrozen")) :
         tdf = self.tic_dat_factory
         if os.path.exists(file_path):
             os.remove(file_path)
-        book = xlsx.Workbook(file_path)
+        # by default text like "=a" is converted to a formula and text like "mailto:a" to a link
+        book = xlsx.Workbook(file_path, {"strings_to_formulas": False, "strings_to_urls": False})
         def clean_for_write(t, f, x):
             if self.tic_dat_factory.infinity_io_flag != "N/A" or \
                (t == "parameters" and self.tic_dat_factory.parameters):
-- 
2.43.0


From 7853a4bbc44d6ea0d0fb1f3dddae9163d51e3887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:34 +0000
Subject: [PATCH 46/97] fix: a TicDat with nan in it can be written to an .xlsx
 file

---
 ticdat/xls.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ticdat/xls.py b/ticdat/xls.py
index 27e3a35..67f63bb 100644
--- a/ticdat/xls.py
+++ b/ticdat/xls.py
@@ -460,7 +460,7 @@ class XlsTicFactory(freezable_factory(object, "_isFrozen")) :
                 x = self.tic_dat_factory._infinity_flag_write_cell(t, f, x)
             if x in [float("inf"), -float("inf")] or isinstance(x, datetime.datetime):
                 return str(x)
-            return x
+            return None if utils.numericish(x) and x != x else x # xlsxwriter doesn't handle nan
         for t in sorted(sorted(tdf.all_tables),
                          key=lambda x: len(tdf.primary_key_fields.get(x, ()))) :
             all_flds = self.tic_dat_factory.primary_key_fields.get(t, ()) + self.tic_dat_factory.data_fields.get(t, ())
-- 
2.43.0


From da55607555542589f2091f9a24142ddceb371024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:34 +0000
Subject: [PATCH 47/97] fix: numpy numbers and booleans can be written to .xls
 files, and numpy booleans stay booleans in .xlsx files

---
 ticdat/xls.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ticdat/xls.py b/ticdat/xls.py
index 67f63bb..5d3f384 100644
--- a/ticdat/xls.py
+++ b/ticdat/xls.py
@@ -34,6 +34,9 @@ _can_unit_test = xlrd and xlwt and xlsx and openpyxl
 # the xlsxwriter doesn't handle infinity as seamlessly as xls
 _longest_sheet = 30
 
+def _plain_number(x): # the Excel writers don't understand all of the numpy numbers and booleans
+    return x.item() if utils.numpy and isinstance(x, (utils.numpy.number, utils.numpy.bool_)) else x
+
 class _XlrdSheetWrapper(object): # main purpose of this routine is to enforce the use of
     def __init__(self, sheet, datemode):   # a limited set of xlrd.sheet functions
         self._sheet = sheet
@@ -426,7 +429,7 @@ class XlsTicFactory(freezable_factory(object, "_isFrozen")) :
         def clean_for_write(t, f, x):
             if isinstance(x, datetime.datetime):
                 return str(x)
-            return self.tic_dat_factory._infinity_flag_write_cell(t, f, x)
+            return self.tic_dat_factory._infinity_flag_write_cell(t, f, _plain_number(x))
         book = xlwt.Workbook()
         for t in  sorted(sorted(tdf.all_tables),
                          key=lambda x: len(tdf.primary_key_fields.get(x, ()))) :
@@ -455,6 +458,7 @@ class XlsTicFactory(freezable_factory(object, "_isFrozen")) :
         # by default text like "=a" is converted to a formula and text like "mailto:a" to a link
         book = xlsx.Workbook(file_path, {"strings_to_formulas": False, "strings_to_urls": False})
         def clean_for_write(t, f, x):
+            x = _plain_number(x)
             if self.tic_dat_factory.infinity_io_flag != "N/A" or \
                (t == "parameters" and self.tic_dat_factory.parameters):
                 x = self.tic_dat_factory._infinity_flag_write_cell(t, f, x)
-- 
2.43.0


From 056706bb208f443bac4a79322f1d13c0f4d3167b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:53 +0000
Subject: [PATCH 48/97] fix: a headerless .xls sheet with no more rows than its
 row offset reads as an empty table

---
 ticdat/xls.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ticdat/xls.py b/ticdat/xls.py
index 5d3f384..ad6c9d5 100644
--- a/ticdat/xls.py
+++ b/ticdat/xls.py
@@ -359,7 +359,7 @@ class XlsTicFactory(freezable_factory(object, "_isFrozen")) :
         fields = self.tic_dat_factory.primary_key_fields.get(table, ()) + \
                  self.tic_dat_factory.data_fields.get(table, ())
         if not headers_present:
-            row_len = len(sheet.row_values(row_offset)) if sheet.nrows > 0  else len(fields)
+            row_len = len(sheet.row_values(row_offset)) if sheet.nrows > row_offset else len(fields)
             return ({f : i for i,f in enumerate(fields) if i < row_len},
                     [f for i,f in enumerate(fields) if i >= row_len], [])
         if sheet.nrows - row_offset <= 0 :
-- 
2.43.0


From 4dc728a45d8209af54386fc41d4a95c7c36fc14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:59 +0000
Subject: [PATCH 49/97] fix: write_schema without ancillary info keeps the
 parameters table a text/text table

---
 ticdat/pgtd.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ticdat/pgtd.py b/ticdat/pgtd.py
index a29ee70..ecf6c47 100644
--- a/ticdat/pgtd.py
+++ b/ticdat/pgtd.py
@@ -222,6 +222,8 @@ class _PostgresFactory(freezable_factory(object, "_isFrozen"),):
                     tdf.set_default_value(t, f, dfv)
             forced_field_types_ = {(t, f): "text" for t, (pks, dfs) in self.tdf.schema().items() for f in pks
                        if f not in tdf.data_types.get(t, {})}
+            if self.tdf.parameters:
+                forced_field_types_.update({("parameters", f): "text" for f in all_fields("parameters")})
             forced_field_types_.update(forced_field_types)
             return PostgresTicFactory(tdf).write_schema(engine, schema, forced_field_types_)
 
-- 
2.43.0


From 9c0a6a130312cc32a6b4f1e2db523bd31c8df449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:32 +0000
Subject: [PATCH 50/97] fix: an infinite default value doesn't break the
 postgres schema

---
 ticdat/pgtd.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ticdat/pgtd.py b/ticdat/pgtd.py
index ecf6c47..29464e8 100644
--- a/ticdat/pgtd.py
+++ b/ticdat/pgtd.py
@@ -151,6 +151,8 @@ class _PostgresFactory(freezable_factory(object, "_isFrozen"),):
                 return "NULL"
             if numericish(rtn) and abs(rtn) == float("inf") and numericish(self.tdf.infinity_io_flag):
                 return math.copysign(self.tdf.infinity_io_flag, rtn)
+            if numericish(rtn) and not math.isfinite(rtn):
+                return f"'{rtn}'" # postgres needs quotes around inf, -inf and nan
             if stringish(rtn) and rtn:
                 return f"'{rtn}'"
             return rtn
-- 
2.43.0


From b99450af542c867aa99bacf4312bca7ad9683647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:07 +0000
Subject: [PATCH 51/97] fix: text default values with quotes or colons don't
 break the postgres schema

---
 ticdat/pgtd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ticdat/pgtd.py b/ticdat/pgtd.py
index 29464e8..dd3b138 100644
--- a/ticdat/pgtd.py
+++ b/ticdat/pgtd.py
@@ -153,8 +153,8 @@ class _PostgresFactory(freezable_factory(object, "_isFrozen"),):
                 return math.copysign(self.tdf.infinity_io_flag, rtn)
             if numericish(rtn) and not math.isfinite(rtn):
                 return f"'{rtn}'" # postgres needs quotes around inf, -inf and nan
-            if stringish(rtn) and rtn:
-                return f"'{rtn}'"
+            if stringish(rtn) and rtn: # colons are escaped because sqlalchemy.text looks for bind parameters
+                return "'" + rtn.replace("'", "''").replace(":", "\\:") + "'"
             return rtn
 
         def nullable(t, f):
-- 
2.43.0


From b8c5a931b954f2aa0d71ec14b098277e4b173b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:54 +0000
Subject: [PATCH 52/97] fix: write_schema without ancillary info says that
 generic tables are not supported

---
 ticdat/pgtd.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ticdat/pgtd.py b/ticdat/pgtd.py
index dd3b138..44db003 100644
--- a/ticdat/pgtd.py
+++ b/ticdat/pgtd.py
@@ -212,6 +212,8 @@ class _PostgresFactory(freezable_factory(object, "_isFrozen"),):
         verify(dictish(forced_field_types) and
                all(good_forced_field_type_entry(k, v) for k,v in forced_field_types.items()),
                "bad forced_field_types argument")
+        verify(not getattr(self.tdf, "generic_tables", None),
+               "TicDat for postgres does not yet support generic tables")
         if not include_ancillary_info:
             from ticdat import TicDatFactory
             tdf = TicDatFactory(**{t: [[], pks + dfs] for t, (pks, dfs) in self.tdf.schema().items()})
@@ -229,9 +231,6 @@ class _PostgresFactory(freezable_factory(object, "_isFrozen"),):
             forced_field_types_.update(forced_field_types)
             return PostgresTicFactory(tdf).write_schema(engine, schema, forced_field_types_)
 
-        verify(not getattr(self.tdf, "generic_tables", None),
-               "TicDat for postgres does not yet support generic tables")
-
         if schema not in [rw[0] for rw in engine.execute(saxt("select schema_name from information_schema.schemata"))]:
             engine.execute(sa.schema.CreateSchema(schema))
         for str in self._get_schema_sql(self.tdf.all_tables, schema, forced_field_types):
-- 
2.43.0


From 7a0e684056f8ebafdcfd7bb981dad99d52c1e6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:48 +0000
Subject: [PATCH 53/97] fix: infinities that the None flag leaves alone are
 read back from .xlsx files as numbers

---
 ticdat/xls.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ticdat/xls.py b/ticdat/xls.py
index ad6c9d5..89a5b91 100644
--- a/ticdat/xls.py
+++ b/ticdat/xls.py
@@ -330,7 +330,7 @@ class XlsTicFactory(freezable_factory(object, "_isFrozen")) :
         return self._dv_dt[table, field]
     def _sub_tuple(self, table, fields, field_indicies, treat_inf_as_infinity, sheet) :
         assert set(fields).issubset(field_indicies)
-        if self.tic_dat_factory.infinity_io_flag != "N/A" or \
+        if utils.numericish(self.tic_dat_factory.infinity_io_flag) or \
             (table == "parameters" and self.tic_dat_factory.parameters):
             treat_inf_as_infinity = False
         def _read_cell(x, field):
-- 
2.43.0


From 06a75482be0455767a6c3b66789f197b51802e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:28 +0000
Subject: [PATCH 54/97] fix: the numeric infinity flag is restored in generic
 tables read from Excel files

---
 ticdat/xls.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ticdat/xls.py b/ticdat/xls.py
index 89a5b91..5140667 100644
--- a/ticdat/xls.py
+++ b/ticdat/xls.py
@@ -167,6 +167,8 @@ class XlsTicFactory(freezable_factory(object, "_isFrozen")) :
             pandat = pdf.xls.create_pan_dat(xls_file_path)
             for t in self.tic_dat_factory.generic_tables:
                 rtn[t] = getattr(pandat, t)
+                if utils.numericish(tdf.infinity_io_flag): # the writer applied the flag to the generic tables too
+                    rtn[t] = rtn[t].applymap(lambda x: tdf._general_read_cell(t, None, x))
         rtn = tdf._parameter_table_post_read_adjustment(tdf.TicDat(**rtn))
         if freeze_it:
             return self.tic_dat_factory.freeze_me(rtn)
-- 
2.43.0


From 137346ff8b4e3d3eadd30f591b05747423d2dc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:21 +0000
Subject: [PATCH 55/97] fix: csv rows longer than their header can be read, and
 identical column names are reported as duplicates

---
 ticdat/csvtd.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ticdat/csvtd.py b/ticdat/csvtd.py
index 31b93bb..1a56a1a 100644
--- a/ticdat/csvtd.py
+++ b/ticdat/csvtd.py
@@ -172,18 +172,20 @@ class CsvTicFactory(freezable_factory(object, "_isFrozen")) :
         tdf = self.tic_dat_factory
         fieldnames=tdf.primary_key_fields.get(table, ()) + tdf.data_fields.get(table, ())
         assert fieldnames or table in self.tic_dat_factory.generic_tables
-        for row in csv.DictReader(csvfile, dialect = dialect,
-                            **({"fieldnames":fieldnames} if not headers_present else {})):
+        reader = csv.DictReader(csvfile, dialect = dialect,
+                                **({"fieldnames":fieldnames} if not headers_present else {}))
+        for row in reader:
             if not headers_present:
                 verify(len(row) == len(fieldnames),
                    "Need %s columns for table %s"%(len(fieldnames), table))
                 yield {f: self._read_cell(table, f, row[f]) for f in fieldnames}
             else:
                 key_matching = defaultdict(list)
-                for k,f in product(row.keys(), fieldnames or row.keys()):
+                # unlike the keys of row, reader.fieldnames has the duplicates, and no None for the extra cells of the row
+                for k,f in product(reader.fieldnames, fieldnames or reader.fieldnames):
                     if k.lower() ==f.lower():
                         key_matching[f].append(k)
-                fieldnames = fieldnames or row.keys()
+                fieldnames = fieldnames or reader.fieldnames
                 for f in fieldnames:
                     verify(f in key_matching, "Unable to find field name %s for table %s"%(f, table))
                     verify(len(key_matching[f]) <= 1,
-- 
2.43.0


From 2cb834cb017683f473285a5feb55ad90d4bb3fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:45 +0000
Subject: [PATCH 56/97] fix: PanDat csv rows longer than their header are not
 shifted under the wrong fields

---
 ticdat/pandatio.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ticdat/pandatio.py b/ticdat/pandatio.py
index b8f7028..d621fd3 100644
--- a/ticdat/pandatio.py
+++ b/ticdat/pandatio.py
@@ -314,6 +314,8 @@ class CsvPanFactory(freezable_factory(object, "_isFrozen")):
             kwargs_ = dict(kwargs)
             if "dtype" not in kwargs_:
                 kwargs_["dtype"] = self.pan_dat_factory._dtypes_for_pandas_read(t)
+            # by default pandas shifts the columns when the rows have more cells than the header
+            kwargs_.setdefault("index_col", False)
             rtn[t] = pd.read_csv(f, **kwargs_)
         missing_tables = {t for t in self.pan_dat_factory.all_tables if t not in rtn}
         if missing_tables:
-- 
2.43.0


From 51fdf1c98f1a53a46c97956a9698ef9eaa2cf67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:09 +0000
Subject: [PATCH 57/97] fix: the tables of a .sql file are matched as those of
 a SQLite file are

---
 ticdat/sqlitetd.py | 55 +++++++++++++++++++++++-----------------------
 1 file changed, 28 insertions(+), 27 deletions(-)

diff --git a/ticdat/sqlitetd.py b/ticdat/sqlitetd.py
index 5803c64..114172c 100644
--- a/ticdat/sqlitetd.py
+++ b/ticdat/sqlitetd.py
@@ -144,27 +144,25 @@ class SQLiteTicFactory(freezable_factory(object, "_isFrozen")) :
             with open(sql_file_path, "r", newline="") as f: # newline="" preserves the \r inside of text
                 con.executescript(f.read()) # this will notice that a ; inside of text isn't a delimiter
             return self._create_tic_dat_from_con(con,
-                        {t:t for t in self.tic_dat_factory.all_tables})
-    def _get_table_names(self, db_file_path, tables):
+                        self._check_con_tables_fields(con, sql_file_path, tdf.all_tables))
+    def _get_table_names(self, con, db_file_path, tables):
         rtn = {}
-        with sql.connect(db_file_path) as con:
-            def try_name(name):
-                try :
-                    con.execute("Select * from [%s]"%name)
-                except :
-                    return False
-                return True
-            for table in tables:
-                rtn[table] = [t for t in all_underscore_replacements(table) if try_name(t)]
-                verify(len(rtn[table]) <= 1, "Duplicate tables found for table %s in SQLite file %s"%
-                                  (table, db_file_path))
-                if rtn[table]:
-                    rtn[table] = rtn[table][0]
-                else:
-                    rtn.pop(table)
+        def try_name(name):
+            try :
+                con.execute("Select * from [%s]"%name)
+            except :
+                return False
+            return True
+        for table in tables:
+            rtn[table] = [t for t in all_underscore_replacements(table) if try_name(t)]
+            verify(len(rtn[table]) <= 1, "Duplicate tables found for table %s in SQLite file %s"%
+                              (table, db_file_path))
+            if rtn[table]:
+                rtn[table] = rtn[table][0]
+            else:
+                rtn.pop(table)
         return rtn
     def _check_tables_fields(self, db_file_path, tables):
-        tdf = self.tic_dat_factory
         TDE = TicDatError
         verify(os.path.exists(db_file_path), "%s isn't a valid file path"%db_file_path)
         try :
@@ -172,16 +170,19 @@ class SQLiteTicFactory(freezable_factory(object, "_isFrozen")) :
                 pass
         except Exception as e:
             raise TDE("Unable to open %s as SQLite file : %s"%(db_file_path, e))
-        table_names = self._get_table_names(db_file_path, tables)
         with sql.connect(db_file_path) as con:
-            for table, sql_table in table_names.items():
-                for field in tdf.primary_key_fields.get(table, ()) + \
-                             tdf.data_fields.get(table, ()):
-                    try :
-                        con.execute("Select [%s] from [%s]"%(field, sql_table))
-                    except :
-                        raise TDE("Unable to recognize field %s in table %s for file %s"%
-                                  (field, table, db_file_path))
+            return self._check_con_tables_fields(con, db_file_path, tables)
+    def _check_con_tables_fields(self, con, db_file_path, tables):
+        tdf = self.tic_dat_factory
+        table_names = self._get_table_names(con, db_file_path, tables)
+        for table, sql_table in table_names.items():
+            for field in tdf.primary_key_fields.get(table, ()) + \
+                         tdf.data_fields.get(table, ()):
+                try :
+                    con.execute("Select [%s] from [%s]"%(field, sql_table))
+                except :
+                    raise TicDatError("Unable to recognize field %s in table %s for file %s"%
+                                      (field, table, db_file_path))
         return table_names
     def _read_data_cell(self, t, f, x):
         if stringish(x) and x.lower() in ("inf", "-inf") and self.tic_dat_factory.infinity_io_flag == "N/A" and \
-- 
2.43.0


From ca2966f8aae3d1dd355da5ab0283104c03d76286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:27 +0000
Subject: [PATCH 58/97] fix: a csv file whose header lacks a field is an error
 even if it has no rows

---
 ticdat/csvtd.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/ticdat/csvtd.py b/ticdat/csvtd.py
index 1a56a1a..a5e97f2 100644
--- a/ticdat/csvtd.py
+++ b/ticdat/csvtd.py
@@ -174,22 +174,23 @@ class CsvTicFactory(freezable_factory(object, "_isFrozen")) :
         assert fieldnames or table in self.tic_dat_factory.generic_tables
         reader = csv.DictReader(csvfile, dialect = dialect,
                                 **({"fieldnames":fieldnames} if not headers_present else {}))
+        if headers_present and reader.fieldnames is not None: # i.e. there is a header to check, if not a row
+            key_matching = defaultdict(list)
+            # unlike the keys of a row, reader.fieldnames has the duplicates, and no None for the extra cells of the row
+            for k,f in product(reader.fieldnames, fieldnames or reader.fieldnames):
+                if k.lower() ==f.lower():
+                    key_matching[f].append(k)
+            fieldnames = fieldnames or reader.fieldnames
+            for f in fieldnames:
+                verify(f in key_matching, "Unable to find field name %s for table %s"%(f, table))
+                verify(len(key_matching[f]) <= 1,
+                       "Duplicate field names found for field %s table %s"%(f, table))
         for row in reader:
             if not headers_present:
                 verify(len(row) == len(fieldnames),
                    "Need %s columns for table %s"%(len(fieldnames), table))
                 yield {f: self._read_cell(table, f, row[f]) for f in fieldnames}
             else:
-                key_matching = defaultdict(list)
-                # unlike the keys of row, reader.fieldnames has the duplicates, and no None for the extra cells of the row
-                for k,f in product(reader.fieldnames, fieldnames or reader.fieldnames):
-                    if k.lower() ==f.lower():
-                        key_matching[f].append(k)
-                fieldnames = fieldnames or reader.fieldnames
-                for f in fieldnames:
-                    verify(f in key_matching, "Unable to find field name %s for table %s"%(f, table))
-                    verify(len(key_matching[f]) <= 1,
-                           "Duplicate field names found for field %s table %s"%(f, table))
                 yield {f: self._read_cell(table, f, row[key_matching[f][0]]) for f in fieldnames}
 
     def _create_table(self, dir_path, table, dialect, headers_present, encoding):
-- 
2.43.0


From 0326cd25413366fae40fd0eeff409a8bad7d53da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:09 +0000
Subject: [PATCH 59/97] fix: write_sql_file checks the data object before it
 opens the file

---
 ticdat/sqlitetd.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ticdat/sqlitetd.py b/ticdat/sqlitetd.py
index 114172c..7a5687b 100644
--- a/ticdat/sqlitetd.py
+++ b/ticdat/sqlitetd.py
@@ -385,6 +385,9 @@ class SQLiteTicFactory(freezable_factory(object, "_isFrozen")) :
                   is being applied). True/False are written as "True", "False"
         """
         verify(sql, "sqlite3 needs to be installed to use this subroutine")
+        msg = []
+        if not self.tic_dat_factory.good_tic_dat_object(tic_dat, lambda m : msg.append(m)) :
+            raise TicDatError("Not a valid TicDat object for this schema : " + " : ".join(msg))
         verify(allow_overwrite or not os.path.exists(sql_file_path),
                "The %s path exists and overwrite is not allowed"%sql_file_path)
         must_schema = set(self.tic_dat_factory.all_tables if include_schema else [])
-- 
2.43.0


From 3d0d5a6d45d18cebc149c8d19523b3fdbad300d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:26 +0000
Subject: [PATCH 60/97] fix: csv files with pretty names are not overwritten
 unless allow_overwrite

---
 ticdat/csvtd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ticdat/csvtd.py b/ticdat/csvtd.py
index a5e97f2..fe3a575 100644
--- a/ticdat/csvtd.py
+++ b/ticdat/csvtd.py
@@ -253,8 +253,8 @@ class CsvTicFactory(freezable_factory(object, "_isFrozen")) :
         if not self.tic_dat_factory.good_tic_dat_object(tic_dat, lambda m : msg.append(m)) :
             raise TicDatError("Not a valid TicDat object for this schema : " + " : ".join(msg))
         if not allow_overwrite:
-            for t in tdf.all_tables :
-                f = os.path.join(dir_path, t + ".csv")
+            for f in [os.path.join(dir_path, _ + ".csv") for t in tdf.all_tables
+                      for _ in ([t, case_space_to_pretty(t)] if case_space_table_names else [t])]:
                 verify(not os.path.exists(f), "The %s path exists and overwrite is not allowed"%f)
         if not os.path.isdir(dir_path) :
             os.mkdir(dir_path)
-- 
2.43.0


From ae9d61d6987978555c08e32ce86babaddade74cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:55 +0000
Subject: [PATCH 61/97] fix: overwriting a csv directory with an empty generic
 table leaves no earlier rows of it

---
 ticdat/csvtd.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ticdat/csvtd.py b/ticdat/csvtd.py
index fe3a575..a3a1e1b 100644
--- a/ticdat/csvtd.py
+++ b/ticdat/csvtd.py
@@ -246,8 +246,15 @@ class CsvTicFactory(freezable_factory(object, "_isFrozen")) :
         verify(not os.path.isfile(dir_path), "A file is not a valid directory path")
         if self.tic_dat_factory.generic_tables:
             dat, tdf = create_generic_free(tic_dat, self.tic_dat_factory)
-            return tdf.csv.write_directory(dat, dir_path, allow_overwrite, dialect, write_header,
-                                           case_space_table_names)
+            # empty generic tables aren't written, but neither can their files keep the rows of an earlier write
+            stale = [f for t in set(self.tic_dat_factory.all_tables).difference(tdf.all_tables)
+                     for f in [os.path.join(dir_path, (case_space_to_pretty(t) if case_space_table_names else t) + ".csv")]
+                     if os.path.isfile(f)]
+            verify(allow_overwrite or not stale, "The %s paths exist and overwrite is not allowed"%stale)
+            tdf.csv.write_directory(dat, dir_path, allow_overwrite, dialect, write_header, case_space_table_names)
+            for f in stale:
+                os.remove(f)
+            return
         tdf = self.tic_dat_factory
         msg = []
         if not self.tic_dat_factory.good_tic_dat_object(tic_dat, lambda m : msg.append(m)) :
-- 
2.43.0


From 72ff5c6e56ec9aa594d3e5b00d0d5b6d44e6c08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:55 +0000
Subject: [PATCH 62/97] fix: overwriting a SQLite database with an empty
 generic table leaves no earlier rows of it

---
 ticdat/sqlitetd.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/ticdat/sqlitetd.py b/ticdat/sqlitetd.py
index 7a5687b..2078d4d 100644
--- a/ticdat/sqlitetd.py
+++ b/ticdat/sqlitetd.py
@@ -352,7 +352,20 @@ class SQLiteTicFactory(freezable_factory(object, "_isFrozen")) :
         verify(not os.path.isdir(db_file_path), "A directory is not a valid SQLite file path")
         if self.tic_dat_factory.generic_tables:
              dat, tdf = create_generic_free(tic_dat, self.tic_dat_factory)
-             return tdf.sql.write_db_data(dat, db_file_path, allow_overwrite)
+             # empty generic tables aren't written, but neither can they keep the rows of an earlier write
+             stale = []
+             if os.path.exists(db_file_path):
+                 with sql.connect(db_file_path) as con:
+                     stale = [t for t in set(self.tic_dat_factory.all_tables).difference(tdf.all_tables)
+                              if self._get_table_names(con, db_file_path, [t]).get(t) == t and
+                              any(True for _ in con.execute("Select * from [%s]"%t))]
+             verify(allow_overwrite or not stale,
+                    "allow_overwrite is False, but there are already data records in %s"%stale)
+             tdf.sql.write_db_data(dat, db_file_path, allow_overwrite)
+             with sql.connect(db_file_path) as con:
+                 for t in stale:
+                     con.execute("Delete from [%s]"%t)
+             return
         if not os.path.exists(db_file_path) :
             self.write_db_schema(db_file_path)
         table_names = self._check_tables_fields(db_file_path, self.tic_dat_factory.all_tables)
-- 
2.43.0


From a7e5f1ade6f3ed215c61d54a230d8c691fd2314d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:23 +0000
Subject: [PATCH 63/97] fix: null pandas datetimes are written to json as nulls

---
 ticdat/jsontd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ticdat/jsontd.py b/ticdat/jsontd.py
index 255d14d..7df0847 100644
--- a/ticdat/jsontd.py
+++ b/ticdat/jsontd.py
@@ -26,7 +26,7 @@ def make_json_dict(tdf, tic_dat, verbose=False, use_infinity_io_flag_if_provided
     assert tdf.good_tic_dat_object(tic_dat)
     def write_cell(t, f, x):
         if isinstance(x, datetime.datetime):
-            return str(x)
+            return str(x) if x == x else None # pandas has a null datetime that isn't equal to itself
         if numpy and isinstance(x, (numpy.integer, numpy.floating, numpy.bool_)): # json doesn't know numpy numbers
             x = x.item()
         return x if not use_infinity_io_flag_if_provided else tdf._infinity_flag_write_cell(t, f, x)
-- 
2.43.0


From 65c836bf39dedaa9515f0bc0a69554bc7f23f273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:23 +0000
Subject: [PATCH 64/97] fix: null pandas datetimes are written to Excel files
 as empty cells

---
 ticdat/xls.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ticdat/xls.py b/ticdat/xls.py
index 5140667..d822fde 100644
--- a/ticdat/xls.py
+++ b/ticdat/xls.py
@@ -430,7 +430,7 @@ class XlsTicFactory(freezable_factory(object, "_isFrozen")) :
         tdf = self.tic_dat_factory
         def clean_for_write(t, f, x):
             if isinstance(x, datetime.datetime):
-                return str(x)
+                return str(x) if x == x else None # pandas has a null datetime that isn't equal to itself
             return self.tic_dat_factory._infinity_flag_write_cell(t, f, _plain_number(x))
         book = xlwt.Workbook()
         for t in  sorted(sorted(tdf.all_tables),
@@ -465,7 +465,7 @@ class XlsTicFactory(freezable_factory(object, "_isFrozen")) :
                (t == "parameters" and self.tic_dat_factory.parameters):
                 x = self.tic_dat_factory._infinity_flag_write_cell(t, f, x)
             if x in [float("inf"), -float("inf")] or isinstance(x, datetime.datetime):
-                return str(x)
+                return str(x) if x == x else None # pandas has a null datetime that isn't equal to itself
             return None if utils.numericish(x) and x != x else x # xlsxwriter doesn't handle nan
         for t in sorted(sorted(tdf.all_tables),
                          key=lambda x: len(tdf.primary_key_fields.get(x, ()))) :
-- 
2.43.0


From 672da93f6cb23168158465ad56bdf3846592f688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:01 +0000
Subject: [PATCH 65/97] fix: the pandas nulls of datetime and text fields are
 written to csv as empty cells

---
 ticdat/csvtd.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ticdat/csvtd.py b/ticdat/csvtd.py
index a3a1e1b..0d9bfb4 100644
--- a/ticdat/csvtd.py
+++ b/ticdat/csvtd.py
@@ -274,8 +274,13 @@ class CsvTicFactory(freezable_factory(object, "_isFrozen")) :
                  writer = csv.DictWriter(csvfile,dialect=dialect, fieldnames=
                         tdf.primary_key_fields.get(t, ()) + tdf.data_fields.get(t, ()) )
                  writer.writeheader() if write_header else None
+                 def infinty_io_cell(f, x):
+                     dt = tdf.data_types.get(t, {}).get(f)
+                     if x != x and dt and (dt.datetime or not dt.number_allowed):
+                         return None # the nulls of pandas would be read back as text
+                     return tdf._infinity_flag_write_cell(t, f, x)
                  def infinty_io_dict(d):
-                     return {f: self.tic_dat_factory._infinity_flag_write_cell(t, f, x) for f,x in d.items()}
+                     return {f: infinty_io_cell(f, x) for f,x in d.items()}
                  _t =  getattr(tic_dat, t)
                  if dictish(_t) :
                      for p_key, data_row in _t.items() :
-- 
2.43.0


From 0909c2be59a8cce82abc22f1a0f22ecc58ceb05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:21 +0000
Subject: [PATCH 66/97] fix: nan is written to .xls files as an empty cell, as
 it is to .xlsx files

---
 ticdat/xls.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ticdat/xls.py b/ticdat/xls.py
index d822fde..45f5818 100644
--- a/ticdat/xls.py
+++ b/ticdat/xls.py
@@ -431,7 +431,8 @@ class XlsTicFactory(freezable_factory(object, "_isFrozen")) :
         def clean_for_write(t, f, x):
             if isinstance(x, datetime.datetime):
                 return str(x) if x == x else None # pandas has a null datetime that isn't equal to itself
-            return self.tic_dat_factory._infinity_flag_write_cell(t, f, _plain_number(x))
+            x = self.tic_dat_factory._infinity_flag_write_cell(t, f, _plain_number(x))
+            return None if utils.numericish(x) and x != x else x # a nan cell isn't valid in an Excel file
         book = xlwt.Workbook()
         for t in  sorted(sorted(tdf.all_tables),
                          key=lambda x: len(tdf.primary_key_fields.get(x, ()))) :
-- 
2.43.0


From 432ad3893d5ffa5cc9d69c6e298c72f13e764a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:22 +0000
Subject: [PATCH 67/97] fix: pandas' presumption that a json column is a date
 because of its name doesn't override the declared data types

---
 ticdat/pandatio.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ticdat/pandatio.py b/ticdat/pandatio.py
index d621fd3..f8f3cb9 100644
--- a/ticdat/pandatio.py
+++ b/ticdat/pandatio.py
@@ -123,6 +123,14 @@ class JsonPanFactory(freezable_factory(object, "_isFrozen")):
                 kwargs_ = dict(kwargs)
                 if "dtype" not in kwargs_:
                     kwargs_["dtype"] = self.pan_dat_factory._dtypes_for_pandas_read(t)
+                typed = set(all_fields(self.pan_dat_factory, t) if t == "parameters" and self.pan_dat_factory.parameters
+                            else self.pan_dat_factory.data_types.get(t, {}))
+                if typed and not {"convert_dates", "keep_default_dates"}.intersection(kwargs_):
+                    # the names pandas by default presumes to hold dates shouldn't trump the declared data types
+                    kwargs_["keep_default_dates"] = False
+                    kwargs_["convert_dates"] = [f for f in set(all_fields(self.pan_dat_factory, t)).difference(typed)
+                                                if f.lower().endswith(("_at", "_time")) or f.lower() == "modified" or
+                                                f.lower() in ("date", "datetime") or f.lower().startswith("timestamp")]
                 rtn[t] = pd.read_json(StringIO(json.dumps(loaded_dict[f])), orient=orient, **kwargs_)
             missing_fields = {(t, f) for t in rtn for f in all_fields(self.pan_dat_factory, t)
                               if f not in rtn[t].columns}
-- 
2.43.0


From 3340489919e3a7d2633922eafec733d1184c2965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:20 +0000
Subject: [PATCH 68/97] fix: PanDat tables with columns that hold timestamps
 beside other values can be written to SQLite

---
 ticdat/pandatio.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ticdat/pandatio.py b/ticdat/pandatio.py
index f8f3cb9..f755155 100644
--- a/ticdat/pandatio.py
+++ b/ticdat/pandatio.py
@@ -512,8 +512,12 @@ class SqlPanFactory(freezable_factory(object, "_isFrozen")):
         with con_maker() as _:
             con_ = con or _
             for t in self.pan_dat_factory.all_tables:
-                getattr(pan_dat, t).to_sql(name=case_space_to_pretty(t) if case_space_table_names else t,
-                                           con=con_, if_exists=if_exists, index=False)
+                df = getattr(pan_dat, t)
+                # SQLite can't bind the timestamps of columns which hold other types of data as well
+                df = df.assign(**{f: df[f].apply(lambda x: str(x) if isinstance(x, pd.Timestamp) else x)
+                                  for f in df.columns if df[f].dtype == object})
+                df.to_sql(name=case_space_to_pretty(t) if case_space_table_names else t,
+                          con=con_, if_exists=if_exists, index=False)
 
 class XlsPanFactory(freezable_factory(object, "_isFrozen")):
     """
-- 
2.43.0


From 1fdb16dfcb52ce6206d76205eaad7cecaaaa11db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:20 +0000
Subject: [PATCH 69/97] fix: big whole numbers in the parameters table can be
 written to SQLite

---
 ticdat/sqlitetd.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ticdat/sqlitetd.py b/ticdat/sqlitetd.py
index 2078d4d..5b46425 100644
--- a/ticdat/sqlitetd.py
+++ b/ticdat/sqlitetd.py
@@ -284,6 +284,8 @@ class SQLiteTicFactory(freezable_factory(object, "_isFrozen")) :
     def _write_data_cell(self, t, f, x):
         if numpy and isinstance(x, (numpy.integer, numpy.floating, numpy.bool_)): # SQLite makes blobs out of these
             x = x.item()
+        if t == "parameters" and self.tic_dat_factory.parameters and isinstance(x, int) and x.bit_length() > 63:
+            return str(x) # a text column, whose entries are cast back to numbers when read
         if isinstance(x, datetime.datetime): # nor does it know the pandas subclass of datetime
             return str(x) if x == x else None
         if x is True or x is False:
-- 
2.43.0


From d54e9130f54eddb5a7456a84927be58c62302439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:59 +0000
Subject: [PATCH 70/97] fix: PanDat readers recognize the infinity_io_flag in
 the numeric text of multitype fields

---
 ticdat/pandatfactory.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ticdat/pandatfactory.py b/ticdat/pandatfactory.py
index 22c962c..62d89b6 100644
--- a/ticdat/pandatfactory.py
+++ b/ticdat/pandatfactory.py
@@ -465,6 +465,11 @@ class PanDatFactory(object):
         for t in set(self.all_tables).difference(["parameters"]): # parameters table is handled differently
             df = getattr(dat, t)
             all_fields = tuple(self.primary_key_fields.get(t, ()) + self.data_fields.get(t, ()))
+            for f in all_fields: # this needs to precede the recognition of the infinity_io_flag
+                dt = self.data_types.get(t, {}).get(f, None)
+                if dt and not dt.datetime and dt.strings_allowed and dt.number_allowed and \
+                    self.automunge_multitype_fields:
+                    df[f] = df[f].apply(_multitype_cell_adj)
             if utils.numericish(self.infinity_io_flag):
                 fields_w_issues = set()
                 def find_fields_w_issues(row):
@@ -476,9 +481,6 @@ class PanDatFactory(object):
                     df[f] = df[f].apply(_inf_cell_adj)
             for f in all_fields:
                 dt = self.data_types.get(t, {}).get(f, None)
-                if dt and not dt.datetime and dt.strings_allowed and dt.number_allowed and \
-                    self.automunge_multitype_fields:
-                    df[f] = df[f].apply(_multitype_cell_adj)
                 if not utils.numericish(self.infinity_io_flag) and utils.numericish(self._none_as_infinity_bias(t, f)):
                     assert self.infinity_io_flag is None
                     df[f] = df[f].apply(lambda x: self._none_as_infinity_bias(t, f) * float("inf")
-- 
2.43.0


From d01352691da723f1b9f6d51b372d8b449ac12bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:06 +0000
Subject: [PATCH 71/97] fix: big whole numbers in the parameters table of a
 PanDat can be written to SQLite

---
 ticdat/pandatio.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ticdat/pandatio.py b/ticdat/pandatio.py
index f755155..f367e9d 100644
--- a/ticdat/pandatio.py
+++ b/ticdat/pandatio.py
@@ -513,8 +513,11 @@ class SqlPanFactory(freezable_factory(object, "_isFrozen")):
             con_ = con or _
             for t in self.pan_dat_factory.all_tables:
                 df = getattr(pan_dat, t)
-                # SQLite can't bind the timestamps of columns which hold other types of data as well
-                df = df.assign(**{f: df[f].apply(lambda x: str(x) if isinstance(x, pd.Timestamp) else x)
+                # SQLite can't bind the timestamps of columns which hold other types of data as well, nor the big integers
+                # of the parameters table (whose entries are cast back to numbers when read)
+                big = lambda x: t == "parameters" and self.pan_dat_factory.parameters and isinstance(x, int) and \
+                                x.bit_length() > 63
+                df = df.assign(**{f: df[f].apply(lambda x: str(x) if isinstance(x, pd.Timestamp) or big(x) else x)
                                   for f in df.columns if df[f].dtype == object})
                 df.to_sql(name=case_space_to_pretty(t) if case_space_table_names else t,
                           con=con_, if_exists=if_exists, index=False)
-- 
2.43.0


From 9bd7ff358f02fc42df34e90f5c314b32d51b82a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:06 +0000
Subject: [PATCH 72/97] fix: dates prior to March 1900 in PanDat tables are
 written to Excel as the same instant

---
 ticdat/pandatio.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ticdat/pandatio.py b/ticdat/pandatio.py
index f367e9d..0ed060e 100644
--- a/ticdat/pandatio.py
+++ b/ticdat/pandatio.py
@@ -646,7 +646,12 @@ class XlsPanFactory(freezable_factory(object, "_isFrozen")):
                                                                         "strings_to_urls": False}}} \
                  if xlsxwriter and str(file_path).endswith(".xlsx") else {}
         with pd.ExcelWriter(file_path, **kwargs) as writer:
+            early = lambda x: isinstance(x, datetime.datetime) and not pd.isnull(x) and (x.year, x.month) < (1900, 3)
             for t in self.pan_dat_factory.all_tables:
-                getattr(pan_dat, t).to_excel \
+                df = getattr(pan_dat, t)
+                # Excel isn't sound for dates prior to March 1900, so these are written as text
+                df = df.assign(**{f: df[f].apply(lambda x: str(x) if early(x) else x) for f in df.columns
+                                  if (df[f].dtype == object or df[f].dtype.kind == "M") and any(map(early, df[f]))})
+                df.to_excel \
                     (writer, sheet_name=(case_space_to_pretty(t) if case_space_sheet_names else t)[:_longest_sheet],
                      index=False)
-- 
2.43.0


From 460e2882345add16a5fa625ca53e8982a6bf4b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:35 +0000
Subject: [PATCH 73/97] fix: find_foreign_key_failures handles the foreign keys
 of generator tables

---
 ticdat/ticdatfactory.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index e2f0f62..c0656b5 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -1756,7 +1756,7 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
             if (tblname, fields) not in table_data:
                 add_here = table_data[tblname, fields]
                 tbl = getattr(tic_dat, tblname)
-                for k,v in (tbl.items() if dictish(tbl) else enumerate(tbl)):
+                for k,v in (tbl.items() if dictish(tbl) else enumerate(tbl if containerish(tbl) else tbl())):
                     add_here.add(tuple(getcell(tblname, k, v, f) for f in fields))
             return table_data[tblname, fields]
         number_failures = [0] if max_failures < float("inf") else None
@@ -1770,9 +1770,9 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
                      return getcell(native, native_pk, native_data_row, field_name)
                 for fk in fks:
                     foreign_to_native = fk.foreigntonativemapping()
-                    for native_pk, native_data_row in (getattr(tic_dat, native).items()
-                                if dictish(getattr(tic_dat, native))
-                                else enumerate(getattr(tic_dat, native))):
+                    native_tbl = getattr(tic_dat, native)
+                    for native_pk, native_data_row in (native_tbl.items() if dictish(native_tbl) else
+                                enumerate(native_tbl if containerish(native_tbl) else native_tbl())):
                         ffs = tuple(_ff for _ff in self.primary_key_fields.get(fk.foreign_table, ()) +
                                     self.data_fields.get(fk.foreign_table, ())
                                     if _ff in foreign_to_native)
-- 
2.43.0


From 6c32507119a3ff84692d7b5d793ab0da9f2fe2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:35 +0000
Subject: [PATCH 74/97] fix: a TicDat with generator tables can be written over
 the .xlsx file it reads from

---
 ticdat/xls.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ticdat/xls.py b/ticdat/xls.py
index 45f5818..49871ce 100644
--- a/ticdat/xls.py
+++ b/ticdat/xls.py
@@ -456,8 +456,6 @@ class XlsTicFactory(freezable_factory(object, "_isFrozen")) :
     def _xlsx_write(self, tic_dat, file_path, tbl_name_mapping):
         verify(xlsx, "Can't write .xlsx files because xlsxwriter package isn't installed.")
         tdf = self.tic_dat_factory
-        if os.path.exists(file_path):
-            os.remove(file_path)
         # by default text like "=a" is converted to a formula and text like "mailto:a" to a link
         book = xlsx.Workbook(file_path, {"strings_to_formulas": False, "strings_to_urls": False})
         def clean_for_write(t, f, x):
@@ -485,4 +483,6 @@ class XlsTicFactory(freezable_factory(object, "_isFrozen")) :
                 for row_ind, data in enumerate(_t if containerish(_t) else _t()) :
                     for field_ind, cell in enumerate(tuple(data[_f] for _f in tdf.data_fields[t])) :
                         sheet.write(row_ind+1, field_ind, clean_for_write(t, all_flds[field_ind], cell))
+        if os.path.exists(file_path): # not any sooner, since a generator table might be reading from this file
+            os.remove(file_path)
         book.close()
-- 
2.43.0


From e6845d85129d63484eae1c850bbd1c938947eac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:35 +0000
Subject: [PATCH 75/97] fix: a TicDat with generator tables can be written over
 the csv files it reads from

---
 ticdat/csvtd.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ticdat/csvtd.py b/ticdat/csvtd.py
index 0d9bfb4..2abcc80 100644
--- a/ticdat/csvtd.py
+++ b/ticdat/csvtd.py
@@ -270,7 +270,9 @@ class CsvTicFactory(freezable_factory(object, "_isFrozen")) :
                                  len(set(map(case_space_to_pretty, self.tic_dat_factory.all_tables)))
         for t in tdf.all_tables :
             f = os.path.join(dir_path, (case_space_to_pretty(t) if case_space_table_names else t) + ".csv")
-            with open(f, 'w', newline='') as csvfile:
+            # a generator table might be reading from the very file that is to be overwritten
+            write_f = f + ".new" if callable(getattr(tic_dat, t)) and os.path.exists(f) else f
+            with open(write_f, 'w', newline='') as csvfile:
                  writer = csv.DictWriter(csvfile,dialect=dialect, fieldnames=
                         tdf.primary_key_fields.get(t, ()) + tdf.data_fields.get(t, ()) )
                  writer.writeheader() if write_header else None
@@ -289,4 +291,6 @@ class CsvTicFactory(freezable_factory(object, "_isFrozen")) :
                          writer.writerow(infinty_io_dict(dict(data_row, **primaryKeyDict)))
                  else :
                      for data_row in (_t if containerish(_t) else _t()) :
-                         writer.writerow(infinty_io_dict(data_row))
\ No newline at end of file
+                         writer.writerow(infinty_io_dict(data_row))
+            if write_f != f:
+                os.replace(write_f, f)
\ No newline at end of file
-- 
2.43.0


From d2dfb44914594d34477035285313a025240c5745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:16 +0000
Subject: [PATCH 76/97] fix: remove_foreign_key_failures removes the failing
 rows of generator tables

---
 ticdat/ticdatfactory.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index c0656b5..0134f90 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -1839,6 +1839,12 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
                             del(getattr(tic_dat, fk.native_table)[failed_pk])
                     else:
                         needs_removal.add((fk.native_table, failed_pk))
+            def without(generator_function, row_indicies):
+                return lambda: (r for i,r in enumerate(generator_function()) if i not in row_indicies)
+            for t in {t for t,_ in needs_removal}.intersection(self.generator_tables):
+                if callable(getattr(tic_dat, t)): # there are no rows to pop from a generator function
+                    setattr(tic_dat, t, without(getattr(tic_dat, t), {i for _t,i in needs_removal if _t == t}))
+                    needs_removal = {(_t,i) for _t,i in needs_removal if _t != t}
             for t,row_index in sorted(needs_removal, reverse=True):
                 getattr(tic_dat, t).pop(row_index)
             if not propagate:
-- 
2.43.0


From eadbad2f168b5e5289dbba45541f785026e2f4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:29 +0000
Subject: [PATCH 77/97] fix: standard_main can report the data integrity errors
 of a schema with generic tables

---
 ticdat/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ticdat/utils.py b/ticdat/utils.py
index aba7c19..c3bd68c 100644
--- a/ticdat/utils.py
+++ b/ticdat/utils.py
@@ -354,8 +354,9 @@ def _integrity_solve(input_schema, dat):
                                                dat_version_of_func(predicate_tuple.predicate_kwargs_maker),
                                                predicate_tuple.predicate_failure_response)
 
-    _id_flds = {t: (pks or dfs) for t, (pks, dfs) in input_schema.schema().items()}
-    longest_id_flds =  max(len(id_fld) for id_fld in _id_flds.values())
+    _id_flds = {t: input_schema.primary_key_fields[t] or input_schema.data_fields[t]
+                for t in set(input_schema.all_tables).difference(input_schema.generic_tables)}
+    longest_id_flds =  max((len(id_fld) for id_fld in _id_flds.values()), default=0)
     _fld_names = [f"Field {_ + 1}" for _ in range(longest_id_flds)]
     solution_schema = ticdat.PanDatFactory(
         duplicate_rows=[["Table Name"] + _fld_names, []],
-- 
2.43.0


From f2c26231edadb60410a43575736508aa605dd436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:33 +0000
Subject: [PATCH 78/97] fix: a file that isn't a SQLite database is refused
 instead of read as empty tables

---
 ticdat/pandatio.py | 5 +++++
 ticdat/sqlitetd.py | 4 ++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/ticdat/pandatio.py b/ticdat/pandatio.py
index 0ed060e..3048f19 100644
--- a/ticdat/pandatio.py
+++ b/ticdat/pandatio.py
@@ -437,6 +437,11 @@ class SqlPanFactory(freezable_factory(object, "_isFrozen")):
         con_maker = lambda: _sql_con(db_file_path) if db_file_path else _DummyContextManager(con)
         with con_maker() as _:
             con_ = con or _
+            if db_file_path: # connecting doesn't look at the file
+                try:
+                    con_.execute("Select * from sqlite_master")
+                except Exception as e:
+                    raise TicDatError("Unable to open %s as SQLite file : %s"%(db_file_path, e))
             for t, s in self._get_table_names(con_).items():
                 rtn[t] = pd.read_sql(sql="Select * from [%s]"%s, con=con_)
         missing_fields = {(t, f) for t in rtn for f in all_fields(self.pan_dat_factory, t)
diff --git a/ticdat/sqlitetd.py b/ticdat/sqlitetd.py
index 5b46425..20dff63 100644
--- a/ticdat/sqlitetd.py
+++ b/ticdat/sqlitetd.py
@@ -166,8 +166,8 @@ class SQLiteTicFactory(freezable_factory(object, "_isFrozen")) :
         TDE = TicDatError
         verify(os.path.exists(db_file_path), "%s isn't a valid file path"%db_file_path)
         try :
-            with sql.connect(db_file_path) as _:
-                pass
+            with sql.connect(db_file_path) as con:
+                con.execute("Select * from sqlite_master") # connecting doesn't look at the file
         except Exception as e:
             raise TDE("Unable to open %s as SQLite file : %s"%(db_file_path, e))
         with sql.connect(db_file_path) as con:
-- 
2.43.0


From 6ee393606176da453e76ed99ea6668bbf4992c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:08 +0000
Subject: [PATCH 79/97] fix: standard_main stops after refusing -f together
 with -e

---
 ticdat/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ticdat/utils.py b/ticdat/utils.py
index c3bd68c..2a54f0e 100644
--- a/ticdat/utils.py
+++ b/ticdat/utils.py
@@ -506,6 +506,7 @@ def standard_main(input_schema, solution_schema, solve, case_space_table_names=F
 
     if foresta_file and error_file:
         print("The -f and -e command line arguments are incompatible. Use one, or the other, or neither, but not both.")
+        return
 
     recognized_extensions = (".json", ".xls", ".xlsx", ".db")
     if create_routine == "create_tic_dat":
-- 
2.43.0


From 25ea303d02000e0b438bb9950fe95028dadde006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:23 +0000
Subject: [PATCH 80/97] fix: Slicer matches a tuple as itself with gurobipy as
 it does without

---
 ticdat/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ticdat/utils.py b/ticdat/utils.py
index 2a54f0e..6701910 100644
--- a/ticdat/utils.py
+++ b/ticdat/utils.py
@@ -898,6 +898,9 @@ class Slicer(object):
             return []
         verify(len(args) == len((self._indicies or self._gu)[0]), "inconsistent number of elements")
         if self._gu:
+            # tuplelist would look for the members of a tuple, instead of for the tuple itself, which isn't present
+            if any(containerish(_) and hasattr(_, "__hash__") and _.__hash__ for _ in args):
+                return []
             return self._gu.select(*args)
         wildcards = tuple(i for i,x in enumerate(args) if x == "*")
         fixedposns = tuple(i for i in range(len(args)) if i not in wildcards)
-- 
2.43.0


From bb744ebf0d28388ccb6f26cd799e17ef635ee750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:23 +0000
Subject: [PATCH 81/97] fix: Slicer doesn't hand out the list it keeps

---
 ticdat/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ticdat/utils.py b/ticdat/utils.py
index 6701910..25e5aeb 100644
--- a/ticdat/utils.py
+++ b/ticdat/utils.py
@@ -901,7 +901,7 @@ class Slicer(object):
             # tuplelist would look for the members of a tuple, instead of for the tuple itself, which isn't present
             if any(containerish(_) and hasattr(_, "__hash__") and _.__hash__ for _ in args):
                 return []
-            return self._gu.select(*args)
+            return list(self._gu.select(*args)) # as select can return the tuplelist itself
         wildcards = tuple(i for i,x in enumerate(args) if x == "*")
         fixedposns = tuple(i for i in range(len(args)) if i not in wildcards)
         def fa(t):
-- 
2.43.0


From 29d499192cc5dfa7d988335eb553e59f852fee85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:04 +0000
Subject: [PATCH 82/97] fix: the cplex listener reports progress before a
 feasible solution is found

---
 ticdat/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ticdat/utils.py b/ticdat/utils.py
index 25e5aeb..594488d 100644
--- a/ticdat/utils.py
+++ b/ticdat/utils.py
@@ -1326,7 +1326,7 @@ class Progress(object):
         class MyListener(cplexprogress.ProgressListener):
             def notify_progress(self, progress_data):
                 no_feasible_yet = {"minimize": float("inf"), "maximize": -float("inf")}
-                ub = no_feasible_yet if progress_data.current_objective is None else progress_data.current_objective
+                ub = no_feasible_yet[sense] if progress_data.current_objective is None else progress_data.current_objective
                 lb = progress_data.best_bound
                 lb, ub = (lb, ub) if sense == "minimize" else (ub, lb)
                 keep_going = super_self.mip_progress(theme, lb, ub)
-- 
2.43.0


From f54769ae8f0ceb44ff36d96ed321f31a95c80ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:38 +0000
Subject: [PATCH 83/97] fix: Model recognizes a successful xpress solve with
 Python 3.11 and newer

---
 ticdat/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ticdat/model.py b/ticdat/model.py
index 974491a..e145389 100644
--- a/ticdat/model.py
+++ b/ticdat/model.py
@@ -209,7 +209,7 @@ class Model(object):
             return rtn
         if self.model_type == "xpress":
             self.core_model.solve(*args, **kwargs)
-            rtn = str(self.core_model.attributes.solstatus) in ['SolStatus.OPTIMAL', 'SolStatus.FEASIBLE']
+            rtn = self.core_model.attributes.solstatus in [xpress.SolStatus.OPTIMAL, xpress.SolStatus.FEASIBLE]
             self._xpress_solution_list = self.core_model.getSolution() if rtn else []
             return rtn
     def get_solution_value(self, var):
-- 
2.43.0


From 9053bb07ae76ce857b380d8a0703e03087d54a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:27 +0000
Subject: [PATCH 84/97] fix: mdb.write_file can write a table whose name is an
 SQL keyword

---
 ticdat/mdb.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ticdat/mdb.py b/ticdat/mdb.py
index 459dda8..de050cd 100644
--- a/ticdat/mdb.py
+++ b/ticdat/mdb.py
@@ -309,10 +309,10 @@ class MdbTicFactory(freezable_factory(object, "_isFrozen")) :
                 verify(table_names.get(t) == t, "Failed to find table %s in path %s"%(t, mdb_file_path))
                 if not allow_overwrite :
                     with con.cursor() as cur :
-                        cur.execute("Select * from %s"%t)
+                        cur.execute("Select * from [%s]"%t)
                         verify(not any(True for _ in cur.fetchall()),
                             "allow_overwrite is False, but there are already data records in %s"%t)
-                con.cursor().execute("Delete from %s"%t).commit() if allow_overwrite else None
+                con.cursor().execute("Delete from [%s]"%t).commit() if allow_overwrite else None
                 _t = getattr(tic_dat, t)
                 if dictish(_t) :
                     primary_keys = tuple(self.tic_dat_factory.primary_key_fields[t])
@@ -322,12 +322,12 @@ class MdbTicFactory(freezable_factory(object, "_isFrozen")) :
                         data_row = ((pk_row,) if len(primary_keys)==1 else pk_row) + tuple(x[1] for x in _items)
                         assert len(data_row) == len(fields)
                         data_row = tuple(write_data(f, x) for f, x in zip(fields, data_row))
-                        str = "INSERT INTO %s (%s) VALUES (%s)"%\
+                        str = "INSERT INTO [%s] (%s) VALUES (%s)"%\
                               (t, ",".join(fields), ",".join("?" for _ in fields))
                         con.cursor().execute(str, data_row).commit()
                 else :
                     for sql_data_row in (_t if containerish(_t) else _t()) :
-                        str = "INSERT INTO %s (%s) VALUES (%s)"%(t,
+                        str = "INSERT INTO [%s] (%s) VALUES (%s)"%(t,
                           ",".join(_brackets(sql_data_row.keys())),
                           ",".join(["?"]*len(sql_data_row)))
                         data_row = tuple(write_data(f, x) for f, x in sql_data_row.items())
-- 
2.43.0


From 8c171f1f16a5d9f18a1a34e363fe7f7c008c0804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:27 +0000
Subject: [PATCH 85/97] fix: mdb.write_file applies the None infinity flag to
 tables with primary keys

---
 ticdat/mdb.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ticdat/mdb.py b/ticdat/mdb.py
index de050cd..7c24e1c 100644
--- a/ticdat/mdb.py
+++ b/ticdat/mdb.py
@@ -318,12 +318,12 @@ class MdbTicFactory(freezable_factory(object, "_isFrozen")) :
                     primary_keys = tuple(self.tic_dat_factory.primary_key_fields[t])
                     for pk_row, sql_data_row in _t.items() :
                         _items = tuple(sql_data_row.items())
-                        fields = _brackets(primary_keys + tuple(x[0] for x in _items))
+                        fields = primary_keys + tuple(x[0] for x in _items)
                         data_row = ((pk_row,) if len(primary_keys)==1 else pk_row) + tuple(x[1] for x in _items)
                         assert len(data_row) == len(fields)
                         data_row = tuple(write_data(f, x) for f, x in zip(fields, data_row))
                         str = "INSERT INTO [%s] (%s) VALUES (%s)"%\
-                              (t, ",".join(fields), ",".join("?" for _ in fields))
+                              (t, ",".join(_brackets(fields)), ",".join("?" for _ in fields))
                         con.cursor().execute(str, data_row).commit()
                 else :
                     for sql_data_row in (_t if containerish(_t) else _t()) :
-- 
2.43.0


From 4090b71c3afee11735c0da9b91c7815cd8469973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:08 +0000
Subject: [PATCH 86/97] fix: mdb.write_file leaves the file alone when it
 refuses to overwrite

---
 ticdat/mdb.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ticdat/mdb.py b/ticdat/mdb.py
index 7c24e1c..2429fe6 100644
--- a/ticdat/mdb.py
+++ b/ticdat/mdb.py
@@ -303,15 +303,16 @@ class MdbTicFactory(freezable_factory(object, "_isFrozen")) :
             self.write_schema(mdb_file_path)
         table_names = self._check_tables_fields(mdb_file_path, self.tic_dat_factory.all_tables)
         with _connect(_connection_str(mdb_file_path)) as con:
-            for t in self.tic_dat_factory.all_tables:
-                def write_data(f, x):
-                    return self.tic_dat_factory._infinity_flag_write_cell(t, f, x)
+            for t in self.tic_dat_factory.all_tables: # check every table before changing any of them
                 verify(table_names.get(t) == t, "Failed to find table %s in path %s"%(t, mdb_file_path))
                 if not allow_overwrite :
                     with con.cursor() as cur :
                         cur.execute("Select * from [%s]"%t)
                         verify(not any(True for _ in cur.fetchall()),
                             "allow_overwrite is False, but there are already data records in %s"%t)
+            for t in self.tic_dat_factory.all_tables:
+                def write_data(f, x):
+                    return self.tic_dat_factory._infinity_flag_write_cell(t, f, x)
                 con.cursor().execute("Delete from [%s]"%t).commit() if allow_overwrite else None
                 _t = getattr(tic_dat, t)
                 if dictish(_t) :
-- 
2.43.0


From dbc85179e90a7cab112b8e58f0ad8eebfc00b642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:42 +0000
Subject: [PATCH 87/97] fix: a Postgres schema refuses a field whose type is
 neither text nor numeric

---
 ticdat/pgtd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ticdat/pgtd.py b/ticdat/pgtd.py
index 44db003..5d33ac0 100644
--- a/ticdat/pgtd.py
+++ b/ticdat/pgtd.py
@@ -141,7 +141,7 @@ class _PostgresFactory(freezable_factory(object, "_isFrozen"),):
                 else:
                     return 'float'
             else:
-                TicDatError(f"Allow one of text or numeric for {t}.{f} if declaring type and using postgres")
+                raise TicDatError(f"Allow one of text or numeric for {t}.{f} if declaring type and using postgres")
 
         def db_default(t, f):
             rtn = self.tdf.default_values[t][f]
-- 
2.43.0


From 140b96b4e5a2193f946e10a32d36dcef6ce62f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:20 +0000
Subject: [PATCH 88/97] fix: PanDat json.write_file refuses generic tables with
 a TicDatError

---
 ticdat/pandatio.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ticdat/pandatio.py b/ticdat/pandatio.py
index 3048f19..402e011 100644
--- a/ticdat/pandatio.py
+++ b/ticdat/pandatio.py
@@ -172,6 +172,8 @@ class JsonPanFactory(freezable_factory(object, "_isFrozen")):
         msg = []
         verify(self.pan_dat_factory.good_pan_dat_object(pan_dat, msg.append),
                "pan_dat not a good object for this factory : %s"%"\n".join(msg))
+        verify(not self.pan_dat_factory.generic_tables,
+               "generic tables have no list-of-lists format. Use write_file_pd instead.")
         pan_dat = self.pan_dat_factory._pre_write_adjustment(pan_dat)
         jdict = {}
         def fix_cell(x):
-- 
2.43.0


From bb7af89605d0992632373b33a17c9abecfa6a105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:55 +0000
Subject: [PATCH 89/97] fix: PanDat find_foreign_key_failures matches null with
 null when one column is datetime

---
 ticdat/pandatfactory.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ticdat/pandatfactory.py b/ticdat/pandatfactory.py
index 62d89b6..9c7551f 100644
--- a/ticdat/pandatfactory.py
+++ b/ticdat/pandatfactory.py
@@ -1470,17 +1470,20 @@ class PanDatFactory(object):
             parent = parent[[_.foreign_field for _ in _mappings]].drop_duplicates(inplace=False).copy(deep=True)
             parent.columns = new_index
             # sadly a join might knacker the row order, hence the ugliness with magic_field*2 for child
+            # the join won't match the null of one type (i.e. NaT) with the null of another (i.e. None)
+            mixed_nulls = any(child[f].dtype != parent[f].dtype and child[f].isnull().any() and parent[f].isnull().any()
+                              for f in new_index)
             parent[magic_field] = True
             child.insert(0, magic_field*2, range(0, len(child)))
             parent.set_index(new_index, drop=True, inplace=True)
             child.set_index(new_index, drop=True, inplace=True)
             try:
-                joined = child.join(parent, rsuffix=magic_field)
+                joined = None if mixed_nulls else child.join(parent, rsuffix=magic_field)
             except TypeError:
                 joined = None # see ticdat issue 173
             except:
                 raise
-            if joined is None: # the join can't handle these types, so fall back to looking up each row
+            if joined is None: # the join can't handle these types or nulls, so fall back to looking up each row
                 def key_rows(df): # as with the join, null matches null
                     for k in df.index:
                         yield tuple(None if pd.isnull(x) else x for x in (k if len(new_index) > 1 else (k,)))
-- 
2.43.0


From a957251e1415d6b77b263dc5ad1aad7eecaf74c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:30 +0000
Subject: [PATCH 90/97] fix: PanDat copy_to_ampl doesn't add a renamed primary
 key field a second time

---
 ticdat/pandatfactory.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ticdat/pandatfactory.py b/ticdat/pandatfactory.py
index 9c7551f..0bf82ae 100644
--- a/ticdat/pandatfactory.py
+++ b/ticdat/pandatfactory.py
@@ -1648,7 +1648,8 @@ class PanDatFactory(object):
             df_ampl = amplpy.DataFrame(index=tuple(map(rename, self.primary_key_fields[t])))
             for f in self.primary_key_fields[t]:
                 df_ampl.setColumn(rename(f), list(getattr(pan_dat, t)[f]))
-            for f in {f for _t,f in field_renamings if _t == t}.union(self.data_fields[t]):
+            for f in {f for _t,f in field_renamings if _t == t}.union(self.data_fields[t]).\
+                     difference(self.primary_key_fields[t]):
                 if rename(f):
                     df_ampl.addColumn(rename(f), list(getattr(pan_dat, t)[f]))
             setattr(rtn, t, df_ampl)
-- 
2.43.0


From 4314a879cb392249afe3414d399b9243aadb13f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:04 +0000
Subject: [PATCH 91/97] fix: the error report of standard_main handles row
 predicates of generic tables

---
 ticdat/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ticdat/utils.py b/ticdat/utils.py
index 594488d..89333ad 100644
--- a/ticdat/utils.py
+++ b/ticdat/utils.py
@@ -354,8 +354,8 @@ def _integrity_solve(input_schema, dat):
                                                dat_version_of_func(predicate_tuple.predicate_kwargs_maker),
                                                predicate_tuple.predicate_failure_response)
 
-    _id_flds = {t: input_schema.primary_key_fields[t] or input_schema.data_fields[t]
-                for t in set(input_schema.all_tables).difference(input_schema.generic_tables)}
+    _id_flds = {t: input_schema.primary_key_fields.get(t) or input_schema.data_fields.get(t, ())
+                for t in input_schema.all_tables} # the rows of a generic table have no identifying fields
     longest_id_flds =  max((len(id_fld) for id_fld in _id_flds.values()), default=0)
     _fld_names = [f"Field {_ + 1}" for _ in range(longest_id_flds)]
     solution_schema = ticdat.PanDatFactory(
@@ -413,7 +413,7 @@ def _integrity_solve(input_schema, dat):
                 data_row_failures["Table Name"].append(table)
                 data_row_failures["Predicate Name"].append(predicate)
                 error_message = None
-                if len(row) > len(input_schema.primary_key_fields[table] + input_schema.data_fields[table]):
+                if len(row) > len(getattr(pan_dat, table).columns):
                     error_message = row[-1]
                 data_row_failures["Error Message"].append(error_message)
                 add_error_row(data_row_failures, table, row)
-- 
2.43.0


From 57cbcddb5b22071ef91afeebe8b714710b340a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:03 +0000
Subject: [PATCH 92/97] fix: update, setdefault and |= of a TicDat table turn
 their arguments into rows

---
 ticdat/ticdatfactory.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index 0134f90..ab356fe 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -717,6 +717,19 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
                         if (item not in self) and (not getattr(self, "_dataFrozen", False)):
                             self[item] = rowfactory({})
                         return super(TicDatDict, self).__getitem__(item)
+                    # the inherited methods wouldn't turn their arguments into rows
+                    def update(self, *args, **kwargs):
+                        super(TicDatDict, self).update() # refuses to edit a frozen table
+                        for key, value in dict(*args, **kwargs).items():
+                            self[key] = value
+                    def setdefault(self, key, *default):
+                        super(TicDatDict, self).update() # refuses to edit a frozen table
+                        if key not in self:
+                            self[key] = default[0] if default else {}
+                        return self[key]
+                    def __ior__(self, other):
+                        self.update(other)
+                        return self
                 assert dictish(TicDatDict)
                 return TicDatDict
             class TicDatDataList(clt.abc.MutableSequence):
-- 
2.43.0


From 05ba4ef8cb5ad4c56f77e0f11a7d444e142a926f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:39 +0000
Subject: [PATCH 93/97] fix: copy_to_ampl excludes generic tables, which have
 no primary key, instead of raising KeyError

---
 ticdat/pandatfactory.py | 2 +-
 ticdat/ticdatfactory.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ticdat/pandatfactory.py b/ticdat/pandatfactory.py
index 0bf82ae..f674336 100644
--- a/ticdat/pandatfactory.py
+++ b/ticdat/pandatfactory.py
@@ -1630,7 +1630,7 @@ class PanDatFactory(object):
         verify(not excluded_tables or (containerish(excluded_tables) and
                                        set(excluded_tables).issubset(self.all_tables)),
                "bad excluded_tables argument")
-        copy_tables = {t for t in self.all_tables if self.primary_key_fields[t]}.\
+        copy_tables = {t for t in self.all_tables if self.primary_key_fields.get(t)}.\
                       difference(excluded_tables or [])
         field_renamings = field_renamings or {}
         verify(dictish(field_renamings), "invalid field_renamings argument")
diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index ab356fe..73b52d2 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -1584,7 +1584,7 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
         verify(not excluded_tables or (containerish(excluded_tables) and
                                        set(excluded_tables).issubset(self.all_tables)),
                "bad excluded_tables argument")
-        copy_tables = {t for t in self.all_tables if self.primary_key_fields[t]}.\
+        copy_tables = {t for t in self.all_tables if self.primary_key_fields.get(t)}.\
                       difference(excluded_tables or [])
         field_renamings = field_renamings or {}
         verify(dictish(field_renamings) and
-- 
2.43.0


From 63bacd7b3b5a58db0a182eaa5875e61a408b5a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:39 +0000
Subject: [PATCH 94/97] fix: obfusimplify copies generic tables instead of
 failing an assertion

---
 ticdat/ticdatfactory.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index 73b52d2..f9ce1f2 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -2226,7 +2226,9 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
             def fix_all_row(all_row):
                 return {k: reverse_renamings[foreign_keys[t, k], v] if (t,k) in foreign_keys else v
                            for k,v in all_row.items()}
-            if dictish(read_table):
+            if t in better_self.generic_tables:
+                rtn_dict[t] = read_table # copied by the TicDat constructor
+            elif dictish(read_table):
                 for pk, data_row in read_table.items():
                     if len(better_self.primary_key_fields.get(t, ())) == 1:
                         pkf = better_self.primary_key_fields[t][0]
-- 
2.43.0


From 296924065fea0defbaa59ace43be59e520a4bee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:39 +0000
Subject: [PATCH 95/97] fix: PanDat csv files of generic tables without columns
 can be read back

---
 ticdat/pandatio.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ticdat/pandatio.py b/ticdat/pandatio.py
index 402e011..913430b 100644
--- a/ticdat/pandatio.py
+++ b/ticdat/pandatio.py
@@ -326,7 +326,12 @@ class CsvPanFactory(freezable_factory(object, "_isFrozen")):
                 kwargs_["dtype"] = self.pan_dat_factory._dtypes_for_pandas_read(t)
             # by default pandas shifts the columns when the rows have more cells than the header
             kwargs_.setdefault("index_col", False)
-            rtn[t] = pd.read_csv(f, **kwargs_)
+            try:
+                rtn[t] = pd.read_csv(f, **kwargs_)
+            except pd.errors.EmptyDataError: # a generic table without columns is written as an empty file
+                if t not in self.pan_dat_factory.generic_tables:
+                    raise
+                rtn[t] = pd.DataFrame()
         missing_tables = {t for t in self.pan_dat_factory.all_tables if t not in rtn}
         if missing_tables:
             print ("The following table names could not be found in the %s directory.\n%s\n"%
-- 
2.43.0


From b1174cdb06f7692f62be85f0606d003ec2b7dfb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:39 +0000
Subject: [PATCH 96/97] fix: PanDat objects with a generic table without
 columns can be written to SQLite

---
 ticdat/pandatio.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ticdat/pandatio.py b/ticdat/pandatio.py
index 913430b..364eb41 100644
--- a/ticdat/pandatio.py
+++ b/ticdat/pandatio.py
@@ -525,14 +525,18 @@ class SqlPanFactory(freezable_factory(object, "_isFrozen")):
             con_ = con or _
             for t in self.pan_dat_factory.all_tables:
                 df = getattr(pan_dat, t)
+                name = case_space_to_pretty(t) if case_space_table_names else t
+                if not len(df.columns): # SQLite has no tables without columns, a missing generic table is read as such
+                    if if_exists == "replace":
+                        con_.execute("Drop table if exists [%s]"%name)
+                    continue
                 # SQLite can't bind the timestamps of columns which hold other types of data as well, nor the big integers
                 # of the parameters table (whose entries are cast back to numbers when read)
                 big = lambda x: t == "parameters" and self.pan_dat_factory.parameters and isinstance(x, int) and \
                                 x.bit_length() > 63
                 df = df.assign(**{f: df[f].apply(lambda x: str(x) if isinstance(x, pd.Timestamp) or big(x) else x)
                                   for f in df.columns if df[f].dtype == object})
-                df.to_sql(name=case_space_to_pretty(t) if case_space_table_names else t,
-                          con=con_, if_exists=if_exists, index=False)
+                df.to_sql(name=name, con=con_, if_exists=if_exists, index=False)
 
 class XlsPanFactory(freezable_factory(object, "_isFrozen")):
     """
-- 
2.43.0


From a212b75d81ad2fd46ad5dd2c69eb6e4f70fcd4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:10 +0000
Subject: [PATCH 97/97] fix: add_implied_foreign_keys doesn't add foreign keys
 without fields onto tables without a primary key

---
 ticdat/ticdatfactory.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index f9ce1f2..e6f0672 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -536,7 +536,8 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
                     newnativeft = tuple((bridgetonative[bf], ff) for ff,bf in
                                          foreigntobridge.items() if bf in bridgetonative)
                     fkSet = self._foreign_keys[nativetable, bfk.foreign_table]
-                    if set(newnativeft) not in map(set, fkSet) and self._simple_fk(bfk.foreign_table, newnativeft):
+                    if newnativeft and set(newnativeft) not in map(set, fkSet) and \
+                       self._simple_fk(bfk.foreign_table, newnativeft):
                         return fkSet.add(newnativeft) or True
         while findderivedforeignkey():
             pass
-- 
2.43.0

