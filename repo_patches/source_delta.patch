From a58dff5e5f29649d76dca9891b8e657ae517aec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:38 +0000
Subject: [PATCH 01/62] fix: Sheets/Pages positions are relative to the
 sheets/pages, not to all body children

---
 ezodf/nodestructuretags.py |  3 +++
 ezodf/pagecontainer.py     | 33 ++++++++++++++++++++++++++++++---
 2 files changed, 33 insertions(+), 3 deletions(-)

diff --git a/ezodf/nodestructuretags.py b/ezodf/nodestructuretags.py
index dd7f562..caa9a11 100644
--- a/ezodf/nodestructuretags.py
+++ b/ezodf/nodestructuretags.py
@@ -105,6 +105,9 @@ TABLE_ROWS = [
     CN("text:soft-page-break")
 ]
 
+# <office:spreadsheet>, <office:drawing>, <office:presentation>
+PAGE_CONTAINER_EPILOGUE = [CN("presentation:settings")] + TABLE_FUNCTIONS
+
 # <table:table>
 TABLE_PRELUDE = [
     CN("table:table-source"),
diff --git a/ezodf/pagecontainer.py b/ezodf/pagecontainer.py
index e4701ca..c022059 100644
--- a/ezodf/pagecontainer.py
+++ b/ezodf/pagecontainer.py
@@ -9,6 +9,8 @@ __author__ = "mozman <mozman@gmx.at>"
 
 from .compatibility import tostr, is_string
 from . import wrapcache
+from .nodeorganizer import EpilogueTagBlock
+from .nodestructuretags import PAGE_CONTAINER_EPILOGUE
 
 class AbstractPageContainer(object):
     def __init__(self, xmlbody, childtag, nametag):
@@ -75,7 +77,8 @@ class AbstractPageContainer(object):
 
     def append(self, child):
         if self._is_valid_child(child):
-            self.xmlnode.append(child.xmlnode)
+            siblings = self._siblings_of(child)
+            self._place(siblings, len(siblings), child.xmlnode)
             return child
         else:
             raise TypeError('Unable to append: %s' % tostr(child))
@@ -84,8 +87,32 @@ class AbstractPageContainer(object):
         return (child.get(self._nametag) for child in self._xmlchildren())
 
     def index(self, child):
-        return self.xmlnode.index(child.xmlnode)
+        return self._xmlchildren().index(child.xmlnode)
 
     def insert(self, index, child):
-        self.xmlnode.insert(int(index), child.xmlnode)
+        if not self._is_valid_child(child):
+            raise TypeError('Unable to insert: %s' % tostr(child))
+        siblings = self._siblings_of(child)
+        index = int(index)
+        if index < 0:
+            index = max(0, index + len(siblings))
+        self._place(siblings, index, child.xmlnode)
         return child
+
+    def _siblings_of(self, child):
+        return [node for node in self._xmlchildren() if node is not child.xmlnode]
+
+    def _place(self, siblings, index, xmlchild):
+        # Positions are relative to the managed children, the body may contain
+        # other elements in front of (declarations) and behind (named
+        # expressions, database ranges, ...) the managed children.
+        if xmlchild.getparent() is not None:
+            xmlchild.getparent().remove(xmlchild)
+        if index < len(siblings):
+            position = self.xmlnode.index(siblings[index])
+        elif siblings:
+            position = self.xmlnode.index(siblings[-1]) + 1
+        else:
+            epilogue = EpilogueTagBlock(self.xmlnode, PAGE_CONTAINER_EPILOGUE)
+            position = epilogue.insert_position_before()
+        self.xmlnode.insert(position, xmlchild)
-- 
2.43.0


From 27ea9ba9cbf63a7b1d777c3f3e1e3a9b71e4dd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:12 +0000
Subject: [PATCH 02/62] fix: create missing declarations in front of the body
 content

---
 ezodf/body.py              | 25 +++++++++++++++++++------
 ezodf/nodestructuretags.py | 10 ++++++++++
 2 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/ezodf/body.py b/ezodf/body.py
index 580ed1d..0181308 100644
--- a/ezodf/body.py
+++ b/ezodf/body.py
@@ -7,21 +7,34 @@
 from __future__ import unicode_literals, print_function, division
 __author__ = "mozman <mozman@gmx.at>"
 
-from .xmlns import register_class, CN, wrap, subelement
+from .xmlns import register_class, CN, wrap, etree
 from .base import GenericWrapper
 from .sheets import Sheets
 from .pages import Pages
 from .nodeorganizer import EpilogueTagBlock
-from .nodestructuretags import TEXT_EPILOGUE
+from .nodestructuretags import TEXT_EPILOGUE, DECL_PREDECESSORS
 
 
 class GenericBody(GenericWrapper):
     def __init__(self, xmlnode=None):
         super(GenericBody, self).__init__(xmlnode=xmlnode)
-        self.variables = wrap(subelement(self.xmlnode,
-                                                CN("text:variable-decls")))
-        self.userfields = wrap(subelement(self.xmlnode,
-                                                CN("text:user-field-decls")))
+        self.variables = wrap(self._get_declarations(CN("text:variable-decls")))
+        self.userfields = wrap(self._get_declarations(CN("text:user-field-decls")))
+
+    def _get_declarations(self, tag):
+        """ Find/create declarations element, new declarations have to be
+        located in front of the body content.
+        """
+        declarations = self.xmlnode.find(tag)
+        if declarations is None:
+            declarations = etree.Element(tag)
+            position = 0
+            for child in self.xmlnode.iterchildren():
+                if child.tag not in DECL_PREDECESSORS[tag]:
+                    break
+                position += 1
+            self.xmlnode.insert(position, declarations)
+        return declarations
 
 
 @register_class
diff --git a/ezodf/nodestructuretags.py b/ezodf/nodestructuretags.py
index caa9a11..82c5509 100644
--- a/ezodf/nodestructuretags.py
+++ b/ezodf/nodestructuretags.py
@@ -21,6 +21,16 @@ TEXT_DECL = [
     CN("text:alphabetical-index-auto-mark-file"),
 ]
 
+# elements which has to be located in front of the declarations
+DECL_PREDECESSORS = {
+    CN("text:variable-decls"): OFFICE_FORMS + TABLE_TRACKED_CHANGES + [
+        CN("text:tracked-changes")],
+    CN("text:user-field-decls"): OFFICE_FORMS + TABLE_TRACKED_CHANGES + [
+        CN("text:tracked-changes"),
+        CN("text:variable-decls"),
+        CN("text:sequence-decls")],
+}
+
 TABLE_DECL = [
     CN("table:calculation-settings"),
     CN("table:content-validations"),
-- 
2.43.0


From f614b77bf18b6e7a3f479f85174d931eb38bd51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:14 +0000
Subject: [PATCH 03/62] fix: setting a (1, 1) cell span and invalid span
 parameters do not raise KeyError/NameError

---
 ezodf/cells.py              | 5 +++--
 ezodf/cellspancontroller.py | 1 +
 ezodf/tableutils.py         | 2 +-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/ezodf/cells.py b/ezodf/cells.py
index a8766d4..99a94f5 100644
--- a/ezodf/cells.py
+++ b/ezodf/cells.py
@@ -208,8 +208,9 @@ class Cell(GenericWrapper):
             self._set_span_attributes(rows, cols)
 
     def _del_span_attributes(self):
-        del self.xmlnode.attrib[CN('table:number-rows-spanned')]
-        del self.xmlnode.attrib[CN('table:number-columns-spanned')]
+        for key in (CN('table:number-rows-spanned'), CN('table:number-columns-spanned')):
+            if key in self.xmlnode.attrib:
+                del self.xmlnode.attrib[key]
 
     def _set_span_attributes(self, rows, cols):
         self.xmlnode.set(CN('table:number-rows-spanned'), tostr(rows))
diff --git a/ezodf/cellspancontroller.py b/ezodf/cellspancontroller.py
index 1d1a7db..443534d 100644
--- a/ezodf/cellspancontroller.py
+++ b/ezodf/cellspancontroller.py
@@ -7,6 +7,7 @@
 from __future__ import unicode_literals, print_function, division
 __author__ = "mozman <mozman@gmx.at>"
 
+from .compatibility import tostr
 from .xmlns import wrap
 from .tableutils import iter_cell_range, iter_cell_range_without_start_pos
 
diff --git a/ezodf/tableutils.py b/ezodf/tableutils.py
index 26ef0d9..0bb88bc 100644
--- a/ezodf/tableutils.py
+++ b/ezodf/tableutils.py
@@ -53,7 +53,7 @@ def get_cell_index(reference):
     elif is_string(reference): # key => 'A1'
         return address_to_index(reference)
     else:
-        raise TypeError(tostr(type(key)))
+        raise TypeError(tostr(type(reference)))
 
 def get_min_max_cell_count(xmltable):
     count = [count_cells_in_row(xmlrow) for xmlrow in get_table_rows(xmltable)]
-- 
2.43.0


From 28490e9eda31e264fd21c92b210f71d8456107c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:16 +0000
Subject: [PATCH 04/62] fix: cell spans may not overlap cells covered by
 another spanning cell

---
 ezodf/cellspancontroller.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/ezodf/cellspancontroller.py b/ezodf/cellspancontroller.py
index 443534d..d2d9723 100644
--- a/ezodf/cellspancontroller.py
+++ b/ezodf/cellspancontroller.py
@@ -46,7 +46,19 @@ class CellSpanController(object):
 
     def _has_cell_range_spanned_cells(self, pos, size):
         for cell_index in iter_cell_range(pos, size):
-            if self.is_cell_spanning(cell_index):
+            cell = self._get_cell(cell_index)
+            if cell.span != (1, 1):
+                return True
+            if cell.covered and self._is_spanned_by_other_cell(cell_index):
+                return True
+        return False
+
+    def _is_spanned_by_other_cell(self, pos):
+        row, column = pos
+        for start_row, start_column in iter_cell_range((0, 0), (row + 1, column + 1)):
+            nrows, ncols = self._get_cell((start_row, start_column)).span
+            if start_row + nrows > row and start_column + ncols > column and \
+               (nrows, ncols) != (1, 1):
                 return True
         return False
 
-- 
2.43.0


From 498764d20de49e35bda9c4f45f22f6d37b16616d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:13 +0000
Subject: [PATCH 05/62] fix: rejected row/column operations and resets leave
 the table unchanged

---
 ezodf/table.py              |  3 +++
 ezodf/tablerowcontroller.py | 20 +++++++++++++-------
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/ezodf/table.py b/ezodf/table.py
index 19e10fe..dd893ab 100644
--- a/ezodf/table.py
+++ b/ezodf/table.py
@@ -87,6 +87,9 @@ class Table(GenericWrapper):
         return self._cellmatrix.ncols()
 
     def reset(self, size=(10, 10)):
+        nrows, ncols = size
+        if nrows < 1 or ncols < 1:
+            raise ValueError('nrows and ncols has to be >= 1.')
         preserve_name = self.name
         super(Table, self).clear()
 
diff --git a/ezodf/tablerowcontroller.py b/ezodf/tablerowcontroller.py
index 6b1749d..97c9909 100644
--- a/ezodf/tablerowcontroller.py
+++ b/ezodf/tablerowcontroller.py
@@ -71,9 +71,9 @@ class TableRowController(TableCellAccessor):
             if ncols < 1:
                 raise ValueError('ncols has to be >= 1.')
 
-        self._remove_existing_rows()
         nrows, ncols = size
         validate_parameter(nrows, ncols)
+        self._remove_existing_rows()
         self.xmlnode.extend( (self._build_new_row(ncols) for _ in range(nrows)) )
         self.update()
 
@@ -98,6 +98,15 @@ class TableRowController(TableCellAccessor):
                 return False
         return True
 
+    @staticmethod
+    def _checked_index(index, limit, count=1):
+        # check before the table will be modified
+        if index < 0:
+            index += limit
+        if index < 0 or index + count > limit:
+            raise IndexError('row/column index out of range')
+        return index
+
     def append_rows(self, count=1):
         if count < 1:
             raise ValueError('count < 1')
@@ -119,8 +128,7 @@ class TableRowController(TableCellAccessor):
     def delete_rows(self, index, count=1):
         if count < 1 or count >= self.nrows():
             raise ValueError('invalid count')
-        if index < 0:
-            index += self.nrows()
+        index = self._checked_index(index, self.nrows(), count)
 
         for _ in range(count):
             delete_row = self._rows.pop(index)
@@ -136,8 +144,7 @@ class TableRowController(TableCellAccessor):
     def insert_columns(self, index, count=1):
         if count < 1:
             raise ValueError('count < 1')
-        if index < 0:
-            index += self.ncols()
+        index = self._checked_index(index, self.ncols())
 
         for row in self._rows:
             for _ in range(count):
@@ -146,8 +153,7 @@ class TableRowController(TableCellAccessor):
     def delete_columns(self, index, count=1):
         if count < 1 or count >= self.ncols():
             raise ValueError('invalid count')
-        if index < 0:
-            index += self.ncols()
+        index = self._checked_index(index, self.ncols(), count)
 
         for row in self._rows:
             for _ in range(count):
-- 
2.43.0


From 19e426cb5b8b9a9c1d5e703a9846d5e3fbc3949c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:15 +0000
Subject: [PATCH 06/62] fix: clear/reset of a table without a name

---
 ezodf/table.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ezodf/table.py b/ezodf/table.py
index dd893ab..24e5d59 100644
--- a/ezodf/table.py
+++ b/ezodf/table.py
@@ -93,7 +93,8 @@ class Table(GenericWrapper):
         preserve_name = self.name
         super(Table, self).clear()
 
-        self.name = preserve_name
+        if preserve_name is not None:
+            self.name = preserve_name
         self._cellmatrix.reset(size)
         self._columns_info.reset(size[1])
 
-- 
2.43.0


From 9144ce1fed41c5d090273e3e0ab5cc1d47d768e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:47 +0000
Subject: [PATCH 07/62] fix: tables with missing column-infos fail on column
 operations

---
 ezodf/table.py                 |  1 +
 ezodf/tablecolumncontroller.py | 10 ++++++++++
 2 files changed, 11 insertions(+)

diff --git a/ezodf/table.py b/ezodf/table.py
index 24e5d59..072feeb 100644
--- a/ezodf/table.py
+++ b/ezodf/table.py
@@ -31,6 +31,7 @@ class Table(GenericWrapper):
         def init_attributes_by_xmlnode():
             self._cellmatrix = TableRowController(self.xmlnode)
             self._columns_info = TableColumnController(self.xmlnode)
+            self._columns_info.align(self._cellmatrix.ncols())
             self._cell_span_controller = CellSpanController(self._cellmatrix)
 
         def set_new_table_metrics():
diff --git a/ezodf/tablecolumncontroller.py b/ezodf/tablecolumncontroller.py
index e273d43..bc0b8ae 100644
--- a/ezodf/tablecolumncontroller.py
+++ b/ezodf/tablecolumncontroller.py
@@ -84,6 +84,16 @@ class TableColumnController(object):
             self.xmlnode.insert(insert_position, new_empty_column())
         self.update()
 
+    def align(self, ncols):
+        """ Add missing columns, every column of cells requires a column-info. """
+        missing = ncols - len(self)
+        if missing < 1:
+            return
+        if len(self):
+            self.append(missing)
+        else:
+            self.reset(ncols)
+
     def _remove_existing_columns(self):
         for child in self.xmlnode.getchildren():
             if child.tag in TABLE_COLUMNS:
-- 
2.43.0


From 3c20c04dc4688280c08a0be8291cd5101baea3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:16 +0000
Subject: [PATCH 08/62] fix: Table.set_cell() copies cells which are already
 part of a table

---
 ezodf/tablerowcontroller.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ezodf/tablerowcontroller.py b/ezodf/tablerowcontroller.py
index 97c9909..add8854 100644
--- a/ezodf/tablerowcontroller.py
+++ b/ezodf/tablerowcontroller.py
@@ -7,6 +7,8 @@
 from __future__ import unicode_literals, print_function, division
 __author__ = "mozman <mozman@gmx.at>"
 
+import copy
+
 from .xmlns import CN, etree
 from .nodestructuretags import TABLE_ROWS
 from .tablenormalizer import normalize_table
@@ -41,6 +43,11 @@ class TableCellAccessor(object):
 
     def set_cell(self, pos, element):
         row, col = self._adjust_negative_indices(pos)
+        if self._rows[row][col] is element:
+            return
+        if element.getparent() is not None:
+            # do not tear the cell out of its table
+            element = copy.deepcopy(element)
         self._rows[row][col] = element
 
     def _adjust_negative_indices(self, pos):
-- 
2.43.0


From 785c9e98af4c2db7246672db78ccae6392f43bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:16 +0000
Subject: [PATCH 09/62] fix: rows and columns of nested tables do not belong to
 the outer table

---
 ezodf/tablecolumncontroller.py | 8 ++++----
 ezodf/tableutils.py            | 9 ++++++++-
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/ezodf/tablecolumncontroller.py b/ezodf/tablecolumncontroller.py
index bc0b8ae..12edd1e 100644
--- a/ezodf/tablecolumncontroller.py
+++ b/ezodf/tablecolumncontroller.py
@@ -12,7 +12,7 @@ import copy
 from .xmlns import CN, etree
 from .nodestructuretags import TABLE_COLUMNS, TABLE_PRELUDE
 from .nodeorganizer import PreludeTagBlock
-from .tableutils import is_table, RepetitionAttribute
+from .tableutils import is_table, find_table_parts, RepetitionAttribute
 from .conf import config
 
 def new_empty_column():
@@ -73,7 +73,7 @@ class TableColumnController(object):
         self.update()
 
     def update(self):
-        self._columns = self.xmlnode.findall('.//'+CN('table:table-column'))
+        self._columns = find_table_parts(self.xmlnode, CN('table:table-column'))
 
     def reset(self, ncols):
         if ncols < 1:
@@ -106,7 +106,7 @@ class TableColumnController(object):
             strategy = expand_strategies[expand]
         except KeyError:
             raise TypeError("Unknown expand strategy: %s" % expand)
-        strategy.expand_columns(self.xmlnode.findall('.//'+CN('table:table-column')), maxcols)
+        strategy.expand_columns(find_table_parts(self.xmlnode, CN('table:table-column')), maxcols)
 
     def __len__(self):
         return len(self._columns)
@@ -130,7 +130,7 @@ class TableColumnController(object):
 
     def is_consistent(self):
         # just for testing
-        xmlcols = self.xmlnode.findall('.//'+CN('table:table-column'))
+        xmlcols = find_table_parts(self.xmlnode, CN('table:table-column'))
         if len(xmlcols) != len(self):
             return False
         for col1, col2 in zip(self._columns, xmlcols):
diff --git a/ezodf/tableutils.py b/ezodf/tableutils.py
index 0bb88bc..ca060e8 100644
--- a/ezodf/tableutils.py
+++ b/ezodf/tableutils.py
@@ -63,7 +63,14 @@ def get_min_max_cell_count(xmltable):
         return (0, 0)
 
 def get_table_rows(xmltable):
-    return xmltable.findall('.//'+CN('table:table-row'))
+    return find_table_parts(xmltable, CN('table:table-row'))
+
+def find_table_parts(xmltable, tag):
+    """ Find rows/columns of `xmltable`, but not rows/columns of tables nested
+    in cells of `xmltable`.
+    """
+    return [node for node in xmltable.findall('.//' + tag)
+            if next(node.iterancestors(xmltable.tag)) is xmltable]
 
 def count_cells_in_row(xmlrow):
     return sum( (RepetitionAttribute(xmlcell).cols for xmlcell in xmlrow) )
-- 
2.43.0


From e673f81fbba96b6ad108ad1fbe8f44d0773a033a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:18 +0000
Subject: [PATCH 10/62] fix: Cell.set_value() removes the currency of the
 previous value

---
 ezodf/cells.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ezodf/cells.py b/ezodf/cells.py
index 99a94f5..289d021 100644
--- a/ezodf/cells.py
+++ b/ezodf/cells.py
@@ -141,6 +141,8 @@ class Cell(GenericWrapper):
 
     def _clear_old_value(self):
         self._clear_value_attribute(self.value_type)
+        if CN('office:currency') in self.xmlnode.attrib:
+            del self.xmlnode.attrib[CN('office:currency')]
         self._clear_content()
 
     def _clear_content(self):
-- 
2.43.0


From 74eb6116037c06736f008df56775bd2928e3700c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:30 +0000
Subject: [PATCH 11/62] fix: setting a user field updates the user fields shown
 in the document

---
 ezodf/variables.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/ezodf/variables.py b/ezodf/variables.py
index 3c28709..d6f58c4 100644
--- a/ezodf/variables.py
+++ b/ezodf/variables.py
@@ -50,6 +50,10 @@ class UserFields(Variables):  # {{{1
 
 
 class Variable(GenericWrapper):  # {{{1
+    # tags of the elements which displays the variable in the document
+    INSTANCE_TAGS = (CN('text:variable-set'),
+                     CN('text:variable-get'),
+                     CN('text:variable-input'))
 
     def __init__(self, xmlnode=None):  # {{{2
         """docstring for __init__"""
@@ -58,19 +62,11 @@ class Variable(GenericWrapper):  # {{{1
 
     @property
     def instances(self):  # {{{2
-        vs = self.get_xmlroot().findall(".//%s[@%s='%s']" %
-                                                      (CN('text:variable-set'),
-                                                       CN('text:name'),
-                                                       self.name))
-        vg = self.get_xmlroot().findall(".//%s[@%s='%s']" %
-                                                      (CN('text:variable-get'),
-                                                       CN('text:name'),
-                                                       self.name))
-        vi = self.get_xmlroot().findall(".//%s[@%s='%s']" %
-                                                      (CN('text:variable-input'),
-                                                       CN('text:name'),
-                                                       self.name))
-        return itermap(wrap, vs + vg + vi)
+        root = self.get_xmlroot()
+        nodes = [node for tag in self.INSTANCE_TAGS
+                 for node in root.findall(".//" + tag)
+                 if node.get(CN('text:name')) == self.name]
+        return itermap(wrap, nodes)
 
     @property
     def type(self):  # {{{2
@@ -119,6 +115,9 @@ class SimpleVariable(Variable):  # {{{1
 @register_class
 class UserField(Variable):  # {{{1
     TAG = CN('text:user-field-decl')
+    INSTANCE_TAGS = (CN('text:user-field-set'),
+                     CN('text:user-field-get'),
+                     CN('text:user-field-input'))
 
     @property
     def value(self):  # {{{2
-- 
2.43.0


From a18a27af01bc252cafa32f6ed0a670c02567fc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:55 +0000
Subject: [PATCH 12/62] fix: variables and user fields keep boolean, zero and
 empty values and drop stale value attributes

---
 ezodf/variables.py | 47 +++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 42 insertions(+), 5 deletions(-)

diff --git a/ezodf/variables.py b/ezodf/variables.py
index d6f58c4..58f7ca0 100644
--- a/ezodf/variables.py
+++ b/ezodf/variables.py
@@ -12,6 +12,32 @@ from .base import GenericWrapper
 from .compatibility import itermap, tostr
 
 
+VALUE_ATTRIBUTES = {
+    'string': CN('office:string-value'),
+    'float': CN('office:value'),
+    'boolean': CN('office:boolean-value'),
+    'date': CN('office:date-value'),
+    'time': CN('office:time-value'),
+}
+
+
+def value_to_text(value):
+    """ Get the XML representation of `value`. """
+    if isinstance(value, bool):
+        return 'true' if value else 'false'
+    return tostr(value)
+
+
+def set_value_attribute(xmlnode, value_type, value):
+    """ Set value attribute for `value_type` and remove the attributes of
+    all other value types.
+    """
+    for attribute in VALUE_ATTRIBUTES.values():
+        if attribute in xmlnode.attrib:
+            del xmlnode.attrib[attribute]
+    xmlnode.set(VALUE_ATTRIBUTES[value_type], value_to_text(value))
+
+
 class Variables(GenericWrapper):  # {{{1
 
     def __init__(self, xmlnode=None):  # {{{2
@@ -144,12 +170,12 @@ class UserField(Variable):  # {{{1
 
         if vtype == bool:
             self.type = 'boolean'
-            self.set_bool_attr(CN('office:boolean-value'), v)
+            set_value_attribute(self.xmlnode, 'boolean', v)
         elif vtype == int or vtype == float:
-            self.set_attr(CN('office:value'), v)
+            set_value_attribute(self.xmlnode, 'float', v)
             self.type = 'float'
         else:
-            self.set_attr(CN('office:string-value'), v)
+            set_value_attribute(self.xmlnode, 'string', v)
             self.type = 'string'
 
 
@@ -176,7 +202,7 @@ class SimpleVariableInstance(GenericWrapper):  # {{{1
         """Sets instavce value"""
 
         vtype = type(v)
-        self.text = tostr(v)
+        self.text = value_to_text(v)
         if vtype == bool:
             self.type = 'boolean'
         elif vtype == int or vtype == float:
@@ -199,6 +225,17 @@ class SimpleVariableInstance(GenericWrapper):  # {{{1
 class SimpleVariableSet(SimpleVariableInstance):  # {{{1
     TAG = CN('text:variable-set')
 
+    @property
+    def value(self):  # {{{2
+        """Gets instavce value"""
+        return super(SimpleVariableSet, self).value
+
+    @value.setter
+    def value(self, v):  # {{{2
+        """Sets instavce value"""
+        SimpleVariableInstance.value.fset(self, v)
+        set_value_attribute(self.xmlnode, self.type, v)
+
 
 @register_class
 class SimpleVariableGet(SimpleVariableInstance):  # {{{1
@@ -233,7 +270,7 @@ class UserFieldInstance(GenericWrapper):  # {{{1
         """Sets instavce value"""
 
         vtype = type(v)
-        self.text = tostr(v)
+        self.text = value_to_text(v)
         if vtype == bool:
             self.type = 'boolean'
         elif vtype == int or vtype == float:
-- 
2.43.0


From adf81850817611118faabc18aaf235e0cd7d0069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:49 +0000
Subject: [PATCH 13/62] fix: create and open chart/image templates, master
 documents and web documents

---
 ezodf/const.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ezodf/const.py b/ezodf/const.py
index 86b6fc4..b038f2c 100644
--- a/ezodf/const.py
+++ b/ezodf/const.py
@@ -195,8 +195,12 @@ MIMETYPE_NSMAP = {
     "application/vnd.oasis.opendocument.spreadsheet": SPREADSHEET_NSMAP,
     "application/vnd.oasis.opendocument.spreadsheet-template": SPREADSHEET_NSMAP,
     "application/vnd.oasis.opendocument.chart" : GRAPHICS_NSMAP,
+    "application/vnd.oasis.opendocument.chart-template" : GRAPHICS_NSMAP,
     "application/vnd.oasis.opendocument.image" : GRAPHICS_NSMAP,
+    "application/vnd.oasis.opendocument.image-template" : GRAPHICS_NSMAP,
     "application/vnd.oasis.opendocument.formula" : GRAPHICS_NSMAP,
+    "application/vnd.oasis.opendocument.text-master" : TEXT_NSMAP,
+    "application/vnd.oasis.opendocument.text-web" : TEXT_NSMAP,
 }
 
 MIMETYPE_BODYTAG_MAP = {
@@ -209,7 +213,11 @@ MIMETYPE_BODYTAG_MAP = {
     "application/vnd.oasis.opendocument.spreadsheet": "office:spreadsheet",
     "application/vnd.oasis.opendocument.spreadsheet-template": "office:spreadsheet",
     "application/vnd.oasis.opendocument.chart" : "office:chart",
+    "application/vnd.oasis.opendocument.chart-template" : "office:chart",
     "application/vnd.oasis.opendocument.image" : "office:image",
+    "application/vnd.oasis.opendocument.image-template" : "office:image",
+    "application/vnd.oasis.opendocument.text-master" : "office:text",
+    "application/vnd.oasis.opendocument.text-web" : "office:text",
 }
 
 DEFAULT_TABLE_EXPAND_STRATEGY = "all_less_maxcount"
-- 
2.43.0


From 72f3f7116dac6137f8c40dae47dc24217d2429d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:25 +0000
Subject: [PATCH 14/62] fix: documents can be saved again after a failed save

---
 ezodf/filemanager.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ezodf/filemanager.py b/ezodf/filemanager.py
index 9545901..d796a7e 100644
--- a/ezodf/filemanager.py
+++ b/ezodf/filemanager.py
@@ -139,17 +139,17 @@ class FileManager(object):
 
     def _tozip(self, zippo):
         # mimetype file should be the first & uncompressed file in zipfile
-        mimetype = self.directory.pop('mimetype')
+        mimetype = self.directory['mimetype']
         mimetype.zipinfo.compress_type = zipfile.ZIP_STORED
         zippo.writestr(mimetype.zipinfo, mimetype.tobytes())
         processed = [mimetype.filename]
 
         for file in self.directory.values():
+            if file is mimetype:
+                continue
             zippo.writestr(file.zipinfo, file.tobytes())
             processed.append(file.filename)
 
-        # push mimetype back to directory
-        self.directory['mimetype'] = mimetype
         self._copy_zip_to(zippo, processed)
 
     def _copy_zip_to(self, newzip, ignore=[]):
-- 
2.43.0


From 8c4514fdd92bd0df6874384a7d706a79f74feeaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:55 +0000
Subject: [PATCH 15/62] fix: a failed or interrupted save keeps the existing
 document and removes temporary files

---
 ezodf/compatibility.py | 14 +++++++++-
 ezodf/filemanager.py   | 60 ++++++++++++++++++++++++++----------------
 2 files changed, 50 insertions(+), 24 deletions(-)

diff --git a/ezodf/compatibility.py b/ezodf/compatibility.py
index 4b408ab..5e5a131 100644
--- a/ezodf/compatibility.py
+++ b/ezodf/compatibility.py
@@ -7,7 +7,7 @@
 from __future__ import unicode_literals, print_function, division
 __author__ = "mozman <mozman@gmx.at>"
 
-import sys, zipfile
+import os, sys, zipfile
 
 PY3 = sys.version_info[0] > 2
 
@@ -38,6 +38,8 @@ if PY3:
     def is_stream(instance):
         return  isinstance(instance, StringIO)
 
+    replace_file = os.replace
+
 else: # PY2
     # distiguish StringIO
     from cStringIO import StringIO
@@ -82,3 +84,13 @@ else: # PY2
         return (isinstance(instance, InputType) or
                 isinstance(instance, OutputType) or
                 isinstance(instance, SlowStringIO))
+
+    def replace_file(source, target):
+        """ Rename source to target and replace an existing target. """
+        try:
+            os.rename(source, target)
+        except OSError: # Windows: target already exists
+            if not os.path.exists(target):
+                raise
+            os.remove(target)
+            os.rename(source, target)
diff --git a/ezodf/filemanager.py b/ezodf/filemanager.py
index d796a7e..e67ce01 100644
--- a/ezodf/filemanager.py
+++ b/ezodf/filemanager.py
@@ -15,10 +15,29 @@ from datetime import datetime
 from .xmlns import etree, CN
 from .manifest import Manifest
 from .compatibility import tobytes, bytes2unicode, is_bytes, is_zipfile
-from .compatibility import is_stream, StringIO
+from .compatibility import is_stream, StringIO, replace_file
 
 FNCHARS = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789'
 
+def install_file(tmpfilename, filename, backup=True):
+    """ Replace the document `filename` by the completely written document
+    `tmpfilename`. The existing document becomes the backup file if `backup`
+    is True.
+    """
+    bakfilename = filename + '.bak'
+    has_backup = backup and os.path.exists(filename)
+    if has_backup:
+        # existing document becomes the backup file
+        replace_file(filename, bakfilename)
+    try:
+        # rename the new created document
+        replace_file(tmpfilename, filename)
+    except:
+        if has_backup:
+            # restore existing document
+            replace_file(bakfilename, filename)
+        raise
+
 class FileObject(object):
     __slots__ = ['element', 'media_type', 'zipinfo']
 
@@ -84,28 +103,23 @@ class FileManager(object):
             tmpfilename = filename
         else:
             tmpfilename = self.tmpfilename(filename)
-        zippo = zipfile.ZipFile(tmpfilename, 'w', zipfile.ZIP_DEFLATED)
-        self._tozip(zippo)
-        zippo.close()
-
-        if write_to_memory:
-            # job done
-            return
-
-        if os.path.exists(filename):
-            if backup:
-                # existing document becomes the backup file
-                bakfilename = filename+'.bak'
-                # remove existing backupfile
-                if os.path.exists(bakfilename):
-                    os.remove(bakfilename)
-                os.rename(filename, bakfilename)
-            else:
-                # just remove the existing document
-                os.remove(filename)
-
-        # rename the new created document
-        os.rename(tmpfilename, filename)
+        try:
+            zippo = zipfile.ZipFile(tmpfilename, 'w', zipfile.ZIP_DEFLATED)
+            try:
+                self._tozip(zippo)
+            finally:
+                zippo.close()
+
+            if write_to_memory:
+                # job done
+                return
+
+            install_file(tmpfilename, filename, backup)
+        except:
+            # the existing document is still untouched
+            if not write_to_memory and os.path.exists(tmpfilename):
+                os.remove(tmpfilename)
+            raise
         self.zipname = filename
 
     def get_bytes(self, filename):
-- 
2.43.0


From 60cb4c64347a2b0a46fd8a361f8d1ef8de0954af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:56 +0000
Subject: [PATCH 16/62] fix: saving a document opened from bytes does not
 truncate the existing file first

---
 ezodf/bytestreammanager.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ezodf/bytestreammanager.py b/ezodf/bytestreammanager.py
index b951d71..a110f2d 100644
--- a/ezodf/bytestreammanager.py
+++ b/ezodf/bytestreammanager.py
@@ -24,8 +24,9 @@ class ByteStreamManager(FileManager):
         if is_stream(filename):
             filename.write(self.tobytes())
         else:
-            with open(filename, 'wb') as fp:
-                fp.write(self.tobytes())
+            # the file has to be written completely, before it replaces an
+            # existing file
+            super(ByteStreamManager, self).save(filename, backup=False)
 
     def has_zip(self):
         return self._zipfile_as_bytes is not None
-- 
2.43.0


From 4b175bb215bbc6bba0c7c29a7db99c050b93bf97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:59 +0000
Subject: [PATCH 17/62] fix: saving to a stream replaces the content of the
 stream

---
 ezodf/bytestreammanager.py |  2 +-
 ezodf/filemanager.py       | 24 ++++++++++++------------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/ezodf/bytestreammanager.py b/ezodf/bytestreammanager.py
index a110f2d..3e4067a 100644
--- a/ezodf/bytestreammanager.py
+++ b/ezodf/bytestreammanager.py
@@ -22,7 +22,7 @@ class ByteStreamManager(FileManager):
 
     def save(self, filename, backup=False):
         if is_stream(filename):
-            filename.write(self.tobytes())
+            self._write_to_stream(filename)
         else:
             # the file has to be written completely, before it replaces an
             # existing file
diff --git a/ezodf/filemanager.py b/ezodf/filemanager.py
index e67ce01..76a9242 100644
--- a/ezodf/filemanager.py
+++ b/ezodf/filemanager.py
@@ -96,32 +96,32 @@ class FileManager(object):
 
     def save(self, filename, backup=True):
         # always create a new zipfile
-        write_to_memory = False
         if is_stream(filename):
-            write_to_memory = True
-        if write_to_memory:
-            tmpfilename = filename
-        else:
-            tmpfilename = self.tmpfilename(filename)
+            self._write_to_stream(filename)
+            return
+
+        tmpfilename = self.tmpfilename(filename)
         try:
             zippo = zipfile.ZipFile(tmpfilename, 'w', zipfile.ZIP_DEFLATED)
             try:
                 self._tozip(zippo)
             finally:
                 zippo.close()
-
-            if write_to_memory:
-                # job done
-                return
-
             install_file(tmpfilename, filename, backup)
         except:
             # the existing document is still untouched
-            if not write_to_memory and os.path.exists(tmpfilename):
+            if os.path.exists(tmpfilename):
                 os.remove(tmpfilename)
             raise
         self.zipname = filename
 
+    def _write_to_stream(self, stream):
+        # replace the existing content of the stream
+        buffer = self.tobytes()
+        stream.seek(0)
+        stream.truncate()
+        stream.write(buffer)
+
     def get_bytes(self, filename):
         """ Returns a byte stream or None. """
         filecontent = None
-- 
2.43.0


From 866201d03878b76e9cd9fa73282394b09e344906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:44 +0000
Subject: [PATCH 18/62] fix: opendoc() opens documents given as bytes, flat XML
 documents and documents without mimetype

---
 ezodf/document.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ezodf/document.py b/ezodf/document.py
index 27552df..ec27593 100644
--- a/ezodf/document.py
+++ b/ezodf/document.py
@@ -39,7 +39,9 @@ def is_valid_stream(buffer):
 def opendoc(filename):
     if is_stream(filename):
         fm = ByteStreamManager(filename)
-    elif filename is not None:
+    elif is_valid_stream(filename):
+        fm = ByteStreamManager(filename)
+    elif is_zipfile(filename):
         fm = FileManager(filename)
     else:
         try:
@@ -64,7 +66,7 @@ def __detect_mime_type(file_manager):
     else:
         # use file ext name
         ext = os.path.splitext(file_manager.zipname)[1]
-        mime_type = MIMETYPES[ext]
+        mime_type = MIMETYPES[ext.lstrip('.')]
     return mime_type
 
 
-- 
2.43.0


From bb6d7a372979eecd75b330c466346b08598534f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:16 +0000
Subject: [PATCH 19/62] fix: flat XML documents have working meta data, doctype
 and safe saving

---
 ezodf/document.py | 68 +++++++++++++++++++++++++++++++----------------
 ezodf/meta.py     |  2 +-
 2 files changed, 46 insertions(+), 24 deletions(-)

diff --git a/ezodf/document.py b/ezodf/document.py
index ec27593..45f5310 100644
--- a/ezodf/document.py
+++ b/ezodf/document.py
@@ -11,7 +11,7 @@ import os
 from .compatibility import tostr, is_bytes, is_zipfile, StringIO, is_stream
 from .const import MIMETYPES, MIMETYPE_BODYTAG_MAP, FILE_EXT_FOR_MIMETYPE
 from .xmlns import subelement, CN, etree, wrap, ALL_NSMAP, fake_element
-from .filemanager import FileManager
+from .filemanager import FileManager, install_file
 from .bytestreammanager import ByteStreamManager
 from .meta import OfficeDocumentMeta
 from .styles import OfficeDocumentStyles
@@ -143,6 +143,14 @@ class _BaseDocument(object):
 class FlatXMLDocument(_BaseDocument):
     """ OpenDocument contained in a single XML file. """
     TAG = CN('office:document')
+    CHILDREN = (CN('office:meta'),
+                CN('office:settings'),
+                CN('office:scripts'),
+                CN('office:font-face-decls'),
+                CN('office:styles'),
+                CN('office:automatic-styles'),
+                CN('office:master-styles'),
+                CN('office:body'))
 
     def __init__(self, filetype='odt', filename=None, xmlnode=None):
         super(FlatXMLDocument, self).__init__()
@@ -156,23 +164,35 @@ class FlatXMLDocument(_BaseDocument):
             self.xmlnode = xmlnode
             self.mimetype = xmlnode.get(CN('office:mimetype')) # required
         else:
-            raise ValueError("Unexpected root tag: %s" % self.xmlnode.tag)
+            raise ValueError("Unexpected root tag: %s" % xmlnode.tag)
 
         if self.mimetype not in frozenset(MIMETYPES.values()):
             raise TypeError("Unsupported mimetype: %s" % self.mimetype)
+        self.doctype = FILE_EXT_FOR_MIMETYPE[self.mimetype]
+        self.xmlnode.set(CN('office:mimetype'), self.mimetype)
 
         self._setup()
         self._create_shortcuts(self.body)
 
 
     def _setup(self):
-        self.meta = OfficeDocumentMeta(subelement(self.xmlnode, CN('office:document-meta')))
-        self.styles = wrap(subelement(self.xmlnode, CN('office:settings')))
-        self.scripts = wrap(subelement(self.xmlnode, CN('office:scripts')))
-        self.fonts = wrap(subelement(self.xmlnode, CN('office:font-face-decls')))
-        self.styles = wrap(subelement(self.xmlnode, CN('office:styles')))
-        self.automatic_styles = wrap(subelement(self.xmlnode, CN('office:automatic-styles')))
-        self.master_styles = wrap(subelement(self.xmlnode, CN('office:master-styles')))
+        # children of office:document in the required order
+        for position, tag in enumerate(self.CHILDREN):
+            if self.xmlnode.find(tag) is None:
+                predecessors = [node for node in self.xmlnode.iterchildren()
+                                if node.tag in self.CHILDREN[:position]]
+                if predecessors:
+                    predecessors[-1].addnext(etree.Element(tag))
+                else:
+                    self.xmlnode.insert(0, etree.Element(tag))
+
+        self.meta = OfficeDocumentMeta(self.xmlnode)
+        self.settings = wrap(self.xmlnode.find(CN('office:settings')))
+        self.scripts = wrap(self.xmlnode.find(CN('office:scripts')))
+        self.fonts = wrap(self.xmlnode.find(CN('office:font-face-decls')))
+        self.styles = wrap(self.xmlnode.find(CN('office:styles')))
+        self.automatic_styles = wrap(self.xmlnode.find(CN('office:automatic-styles')))
+        self.master_styles = wrap(self.xmlnode.find(CN('office:master-styles')))
         self.body = self.get_application_body(self.application_body_tag)
 
     def get_application_body(self, bodytag):
@@ -183,20 +203,22 @@ class FlatXMLDocument(_BaseDocument):
         return wrap(application_body)
 
     def _saving_routine(self):
-        if os.path.exists(self.docname) and self.backup:
-            self._backupfile(self.docname)
-        self._writefile(self.docname)
-
-    def _backupfile(self, filename):
-        bakfilename = filename+'.bak'
-        # remove existing backupfile
-        if os.path.exists(bakfilename):
-            os.remove(bakfilename)
-        os.rename(filename, bakfilename)
-
-    def _writefile(self, filename):
-        with open(filename, 'wb') as fp:
-            fp.write(self.tobytes())
+        if is_stream(self.docname):
+            self.docname.seek(0)
+            self.docname.truncate()
+            self.docname.write(self.tobytes())
+            return
+
+        tmpfilename = FileManager().tmpfilename(self.docname)
+        try:
+            with open(tmpfilename, 'wb') as fp:
+                fp.write(self.tobytes())
+            install_file(tmpfilename, self.docname, self.backup)
+        except:
+            # the existing document is still untouched
+            if os.path.exists(tmpfilename):
+                os.remove(tmpfilename)
+            raise
 
     def tobytes(self):
         return etree.tostring(self.xmlnode,
diff --git a/ezodf/meta.py b/ezodf/meta.py
index 056deb4..79c9f33 100644
--- a/ezodf/meta.py
+++ b/ezodf/meta.py
@@ -34,7 +34,7 @@ class OfficeDocumentMeta(XMLMixin):
     def __init__(self, xmlnode=None):
         if xmlnode is None:
             self.xmlnode = etree.Element(self.TAG, nsmap=META_NSMAP)
-        elif xmlnode.tag == self.TAG:
+        elif xmlnode.tag in (self.TAG, CN('office:document')): # package or flat XML
             self.xmlnode = xmlnode
         else:
             raise ValueError("Unexpected root node: %s" % xmlnode.tag)
-- 
2.43.0


From cacf6ded307ae21321ab314d6cc6dc050650bb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:03 +0000
Subject: [PATCH 20/62] fix: style containers return replaced styles and page
 layouts, style attributes are writable

---
 ezodf/styles.py | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/ezodf/styles.py b/ezodf/styles.py
index 53afcc1..7f67594 100644
--- a/ezodf/styles.py
+++ b/ezodf/styles.py
@@ -23,7 +23,7 @@ class OfficeDocumentStyles(XMLMixin):
         elif xmlnode.tag == self.TAG:
             self.xmlnode = xmlnode
         else:
-            raise ValueError("Unexpected root node: %s" % content.tag)
+            raise ValueError("Unexpected root node: %s" % xmlnode.tag)
         self._setup()
 
     def _setup(self):
@@ -38,7 +38,6 @@ class Container(object):
     def __init__(self, xmlnode):
         assert xmlnode.tag == self.TAG
         self.xmlnode = xmlnode
-        self._cache = {}
 
     def __getitem__(self, key):
         style = self._find(key) # by style:name attribute
@@ -53,17 +52,11 @@ class Container(object):
             self.xmlnode.append(value.xmlnode)
         else:
             self.xmlnode.replace(style, value.xmlnode)
-        self._cache[key] = value
 
     def _find(self, name):
-        try:
-            return self._cache[name]
-        except KeyError:
-            for style in self.xmlnode.iterchildren():
-                stylename = style.get(CN('style:name'))
-                if stylename == name:
-                    self._cache[name] = style
-                    return style
+        for style in self.xmlnode.iterchildren():
+            if style.get(CN('style:name')) == name:
+                return style
         return None
 
 @register_class
@@ -97,13 +90,14 @@ class BaseStyle:
 
     def __setitem__(self, key, value):
         """ Set style attribute 'key' to 'value'. """
+        self.xmlnode.set(self.ATTRIBUTEMAP[key], value)
 
     def _properties(self, key, property_factory, new=True):
         """ Get or create a properties element. """
         element = subelement(self.xmlnode, key , new)
         if element is None:
             raise KeyError(key)
-        propertiesname = key + '-properties'
+        propertiesname = CN('style:header-footer-properties')
         properties = element.find(propertiesname)
         if properties is None:
             properties = etree.SubElement(element, propertiesname)
@@ -146,8 +140,8 @@ class PageLayout(BaseStyle):
         'name': CN('style:name'),
         'page-usage': CN('style:page-usage'), # all | left | right | mirrored
     }
-    def __init__(self, xmlelement):
-        super(PageLayout, self).__init__(xmlelement)
+    def __init__(self, xmlnode):
+        super(PageLayout, self).__init__(xmlnode)
         self.header = self._properties(CN('style:header-style'), HeaderProperties)
         self.footer = self._properties(CN('style:footer-style'), HeaderProperties)
 
-- 
2.43.0


From d0313f150ccd7f252d8d78ce13c2e779e9497bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:05 +0000
Subject: [PATCH 21/62] fix: encoding whitespaces is thread-safe

---
 ezodf/whitespaces.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ezodf/whitespaces.py b/ezodf/whitespaces.py
index 261d750..ae310b1 100644
--- a/ezodf/whitespaces.py
+++ b/ezodf/whitespaces.py
@@ -140,7 +140,8 @@ class _WhitespaceEncoder(object):
 WhitespaceEncoder = _WhitespaceEncoder()
 
 def encode_whitespaces(plaintext):
-    return WhitespaceEncoder.encode(plaintext)
+    # the encoder has a state, do not share it between threads
+    return _WhitespaceEncoder().encode(plaintext)
 
 def decode_whitespaces(taglist):
     return WhitespaceEncoder.decode(taglist)
-- 
2.43.0


From 7182be269be52e677b90d91b779e6a1fb26cd478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:08 +0000
Subject: [PATCH 22/62] fix: broadcasting to childless documents and
 (un)subscribing while broadcasting

---
 ezodf/observer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ezodf/observer.py b/ezodf/observer.py
index 4eb66d3..4f2fd22 100644
--- a/ezodf/observer.py
+++ b/ezodf/observer.py
@@ -98,8 +98,9 @@ class Observer(object):
             # but mispelling of 'event' is an error trap
             return
 
-        send = send_to_root if root else send_to_all
-        for listener in event_listeners:
+        send = send_to_root if root is not None else send_to_all
+        # handlers are allowed to (un)subscribe listeners
+        for listener in list(event_listeners):
             send(listener)
 
     def _has_listener(self, event):
-- 
2.43.0


From 9cb7f4e3e9d0be672c5a0744527933006bf01055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:09 +0000
Subject: [PATCH 23/62] fix: textlen of cells and list items matches the plain
 text

---
 ezodf/cells.py | 4 ++++
 ezodf/text.py  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/ezodf/cells.py b/ezodf/cells.py
index 289d021..01ae65f 100644
--- a/ezodf/cells.py
+++ b/ezodf/cells.py
@@ -172,6 +172,10 @@ class Cell(GenericWrapper):
         else:
             self.replace(first_paragraph, display_form)
 
+    @property
+    def textlen(self):
+        return len(self.plaintext())
+
     def plaintext(self):
         return "\n".join([p.plaintext() for p in iter(self)
                           if p.kind in SUPPORTED_CELL_CONTENT])
diff --git a/ezodf/text.py b/ezodf/text.py
index dc68edc..4d3b7a8 100644
--- a/ezodf/text.py
+++ b/ezodf/text.py
@@ -133,6 +133,10 @@ class ListHeader(GenericWrapper):
             if text:
                 self.append(Paragraph(text))
 
+    @property
+    def textlen(self):
+        return len(self.plaintext())
+
     def plaintext(self):
         return '\n'.join([e.plaintext() for e in iter(self)])
 
-- 
2.43.0


From 66caa9c1232240cab28db9425db365b1b24c0190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:11 +0000
Subject: [PATCH 24/62] fix: negative durations and years before 1000

---
 ezodf/timeparser.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/ezodf/timeparser.py b/ezodf/timeparser.py
index 0f56e75..a41d61f 100644
--- a/ezodf/timeparser.py
+++ b/ezodf/timeparser.py
@@ -15,7 +15,7 @@ DATETIME_FORMAT = "%Y-%m-%dT%H:%M:%S"
 DATE_FORMAT = "%Y-%m-%d"
 
 class TimeParser(object):
-    duration_matcher = re.compile("^P(\d+Y)?(\d+M)?(\d+D)?(?:T(\d+H)?(\d+M)?(\d+(?:,\d+)?S)?)?$")
+    duration_matcher = re.compile("^(-)?P(\d+Y)?(\d+M)?(\d+D)?(?:T(\d+H)?(\d+M)?(\d+(?:,\d+)?S)?)?$")
 
     def __init__(self, time):
         if is_string(time):
@@ -28,16 +28,16 @@ class TimeParser(object):
     def __str__(self):
         if self.is_date:
             if self.has_time:
-                string = self.value.strftime(DATETIME_FORMAT)
+                string = self.value.replace(microsecond=0, tzinfo=None).isoformat()
             else:
-                string = self.value.strftime(DATE_FORMAT)
+                string = self.value.isoformat()
         else:
             string = TimeParser.duration_to_string(self.value)
         return string
 
     @staticmethod
     def parse(timestr):
-        if timestr.startswith('P'):
+        if timestr.startswith(('P', '-P')):
             value = TimeParser.duration_parser(timestr)
         else:
             if 'T' in timestr:
@@ -69,12 +69,13 @@ class TimeParser(object):
 
         matchresult = TimeParser.duration_matcher.match(duration)
         if matchresult:
-            timeparts = [clean(part) for part in matchresult.groups()]
+            sign = -1 if matchresult.group(1) else 1
+            timeparts = [clean(part) for part in matchresult.groups()[1:]]
             years, months, days, hours, minutes, seconds = timeparts
             days = years * 365 + months * 30 + days
         else:
             raise ValueError('not a valid duration: %s' % duration)
-        return timedelta(days=days, hours=hours, minutes=minutes, seconds=seconds)
+        return sign * timedelta(days=days, hours=hours, minutes=minutes, seconds=seconds)
 
     @staticmethod
     def duration_to_string(duration):
@@ -85,7 +86,11 @@ class TimeParser(object):
             seconds = seconds % 60
             return (hours, minutes, seconds)
 
-        timeparts = ["P%dD" % duration.days] if duration.days else ["P"]
+        sign = ""
+        if duration < timedelta(0):
+            sign = "-"
+            duration = -duration
+        timeparts = [sign + ("P%dD" % duration.days if duration.days else "P")]
         timeparts.append("T%02dH%02dM%02d" % get_time(duration.seconds))
         micros = duration.microseconds
         if micros > 0:
-- 
2.43.0


From 364bc8ef1352213ebdd3f99e81752500209fe7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:59 +0000
Subject: [PATCH 25/62] fix: an unreadable source package is an error and not
 an empty package

---
 ezodf/bytestreammanager.py |  3 +++
 ezodf/filemanager.py       | 18 ++++++++++++++----
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/ezodf/bytestreammanager.py b/ezodf/bytestreammanager.py
index 3e4067a..cd1a228 100644
--- a/ezodf/bytestreammanager.py
+++ b/ezodf/bytestreammanager.py
@@ -31,5 +31,8 @@ class ByteStreamManager(FileManager):
     def has_zip(self):
         return self._zipfile_as_bytes is not None
 
+    def _source_exists(self):
+        return self.has_zip()
+
     def _open_bytestream(self):
         return StringIO(self._zipfile_as_bytes)
diff --git a/ezodf/filemanager.py b/ezodf/filemanager.py
index 76a9242..4512f80 100644
--- a/ezodf/filemanager.py
+++ b/ezodf/filemanager.py
@@ -7,6 +7,7 @@
 from __future__ import unicode_literals, print_function, division
 __author__ = "mozman <mozman@gmx.at>"
 
+import errno
 import os
 import zipfile
 import random
@@ -65,6 +66,9 @@ class FileManager(object):
     def __init__(self, zipname=None):
         self.directory = dict()
         self.zipname = zipname
+        # A source package which can't be read later is an error and not an
+        # empty package.
+        self._has_source = self._source_exists()
         self.manifest = Manifest(self.get_bytes('META-INF/manifest.xml'))
         self.register('META-INF/manifest.xml', self.manifest, 'text/xml')
 
@@ -73,6 +77,9 @@ class FileManager(object):
             return is_zipfile(self.zipname)
         return False
 
+    def _source_exists(self):
+        return self.zipname is not None and os.path.exists(self.zipname)
+
     def _open_bytestream(self):
         return open(self.zipname, 'rb')
 
@@ -114,6 +121,7 @@ class FileManager(object):
                 os.remove(tmpfilename)
             raise
         self.zipname = filename
+        self._has_source = self._has_source or self._source_exists()
 
     def _write_to_stream(self, stream):
         # replace the existing content of the stream
@@ -125,7 +133,7 @@ class FileManager(object):
     def get_bytes(self, filename):
         """ Returns a byte stream or None. """
         filecontent = None
-        if self.has_zip():
+        if self._has_source:
             bytestream = self._open_bytestream()
             zipfile_ = zipfile.ZipFile(bytestream, 'r')
             try:
@@ -169,12 +177,14 @@ class FileManager(object):
     def _copy_zip_to(self, newzip, ignore=[]):
         """ Copy all files like pictures and settings except the files in 'ignore'.
         """
-        if not self.has_zip():
+        if not self._has_source:
             return # nothing to copy
         try:
             bytestream = self._open_bytestream()
-        except IOError:
-            return # nothing to copy
+        except IOError as e:
+            if e.errno == errno.ENOENT:
+                return # nothing to copy
+            raise
 
         origzip = zipfile.ZipFile(bytestream)
         try:
-- 
2.43.0


From fe3a9ebeb956d37d7e9c5d86a431f5c6b7e03a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:19 +0000
Subject: [PATCH 26/62] fix: 'A0' is not a valid cell address

Row numbers start at 1; 'A0' addressed the last row of the table.
---
 ezodf/tableutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ezodf/tableutils.py b/ezodf/tableutils.py
index ca060e8..e8cd651 100644
--- a/ezodf/tableutils.py
+++ b/ezodf/tableutils.py
@@ -28,7 +28,7 @@ def iter_cell_range_without_start_pos(pos, size):
     next(generator)
     return generator
 
-CELL_ADDRESS = re.compile('^([A-Z]+)(\d+)$')
+CELL_ADDRESS = re.compile('^([A-Z]+)(0*[1-9][0-9]*)\\Z')
 
 def address_to_index(address):
     def column_name_to_index(colname):
-- 
2.43.0


From 5faf2866f1c7ea3f03fca3690d6a88dcd2e18528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:19 +0000
Subject: [PATCH 27/62] fix: negative cell positions beyond the table raise
 IndexError

(-5, 0) addressed the second row of a table with three rows.
---
 ezodf/tablerowcontroller.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ezodf/tablerowcontroller.py b/ezodf/tablerowcontroller.py
index add8854..1bbf1fe 100644
--- a/ezodf/tablerowcontroller.py
+++ b/ezodf/tablerowcontroller.py
@@ -56,6 +56,8 @@ class TableCellAccessor(object):
             row += self.nrows()
         if col < 0:
             col += self.ncols()
+        if row < 0 or col < 0:
+            raise IndexError('row/column index out of range')
         return (row, col)
 
     def row(self, index):
-- 
2.43.0


From d3d6ecd4e4299c088e49cf82201744d72de9aec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:45 +0000
Subject: [PATCH 28/62] fix: a rejected empty value does not destroy the value
 of the cell

Cell.set_value('', 'float') raised a ValueError after the old value was
already removed.
---
 ezodf/cells.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ezodf/cells.py b/ezodf/cells.py
index 01ae65f..30115c7 100644
--- a/ezodf/cells.py
+++ b/ezodf/cells.py
@@ -122,6 +122,8 @@ class Cell(GenericWrapper):
             raise TypeError(value_type)
 
         value = convert(value, value_type)
+        if value == '': # not storable, keep the old value
+            raise ValueError("invalid value for type '%s': ''" % value_type)
         self._clear_old_value()
         self._set_new_value(value, value_type, currency)
 
-- 
2.43.0


From 5a80dcce420b5c61d7d8488ca4186f8ce2ed48c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:12 +0000
Subject: [PATCH 29/62] fix: documents with an empty editing-cycles element can
 be saved

---
 ezodf/meta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ezodf/meta.py b/ezodf/meta.py
index 79c9f33..431057b 100644
--- a/ezodf/meta.py
+++ b/ezodf/meta.py
@@ -82,7 +82,7 @@ class OfficeDocumentMeta(XMLMixin):
             count = self['editing-cycles']
             try:
                 count = int(count) + 1
-            except ValueError:
+            except (ValueError, TypeError): # not an integer or empty
                 count = 1
         except KeyError:
             count = 1
-- 
2.43.0


From ce22bad6eaf10c81c7e6ff97140501d6c635bb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:56 +0000
Subject: [PATCH 30/62] fix: setting the count of a Spaces element back to 1

---
 ezodf/whitespaces.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ezodf/whitespaces.py b/ezodf/whitespaces.py
index ae310b1..301476a 100644
--- a/ezodf/whitespaces.py
+++ b/ezodf/whitespaces.py
@@ -48,6 +48,8 @@ class Spaces(Tabulator):
     def count(self, value):
         if int(value) > 1:
             self.set_attr(CN('text:c'), tostr(value))
+        else: # default value is 1
+            self.xmlnode.attrib.pop(CN('text:c'), None)
 
     @property
     def textlen(self):
-- 
2.43.0


From ce804376c23e578bffdf0097a6edf349e537f05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:27 +0000
Subject: [PATCH 31/62] fix: the protection key is a string and not the
 representation of a list

---
 ezodf/protection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ezodf/protection.py b/ezodf/protection.py
index 4e39877..5ec9250 100644
--- a/ezodf/protection.py
+++ b/ezodf/protection.py
@@ -12,4 +12,4 @@ import random
 FNCHARS = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789'
 
 def random_protection_key(count=12):
-    return random.sample(FNCHARS, count)
+    return ''.join(random.sample(FNCHARS, count))
-- 
2.43.0


From b2a8f25f2e07cd814eede27a225dd041724d74cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:27 +0000
Subject: [PATCH 32/62] fix: copy a table without a name

---
 ezodf/table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ezodf/table.py b/ezodf/table.py
index 072feeb..9ece72b 100644
--- a/ezodf/table.py
+++ b/ezodf/table.py
@@ -106,7 +106,7 @@ class Table(GenericWrapper):
     def copy(self, newname=None):
         newtable = Table(xmlnode=copy.deepcopy(self.xmlnode))
         if newname is None:
-            newname = 'CopyOf' + self.name
+            newname = 'CopyOf' + (self.name or '')
         newtable.name = newname
         return newtable
 
-- 
2.43.0


From a5874f9c301a17eab96275cd35b97ba36fb75aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:06 +0000
Subject: [PATCH 33/62] fix: add missing parts of content.xml and styles.xml at
 their prescribed place

---
 ezodf/content.py | 17 ++++++++++++-----
 ezodf/styles.py  | 17 ++++++++++++-----
 ezodf/xmlns.py   | 15 +++++++++++++++
 3 files changed, 39 insertions(+), 10 deletions(-)

diff --git a/ezodf/content.py b/ezodf/content.py
index 17c9d31..53c86d0 100644
--- a/ezodf/content.py
+++ b/ezodf/content.py
@@ -8,13 +8,17 @@ from __future__ import unicode_literals, print_function, division
 __author__ = "mozman <mozman@gmx.at>"
 
 from .const import MIMETYPE_NSMAP
-from .xmlns import XMLMixin, subelement, CN, etree, register_class, wrap
+from .xmlns import XMLMixin, subelement, ordered_subelement, CN, etree, register_class, wrap
 from .base import GenericWrapper
 
 from . import body # register body classes
 
 class OfficeDocumentContent(XMLMixin):
     TAG = CN('office:document-content')
+    CHILDREN = (CN('office:scripts'),
+                CN('office:font-face-decls'),
+                CN('office:automatic-styles'),
+                CN('office:body'))
 
     def __init__(self, mimetype, xmlnode=None):
 
@@ -29,10 +33,13 @@ class OfficeDocumentContent(XMLMixin):
     def _setup_references(self, mimetype):
         # these elements are common to all document types
         # The element office:scripts always exists but is always empty
-        self.scripts = wrap(subelement(self.xmlnode, CN('office:scripts')))
-        self.fonts = wrap(subelement(self.xmlnode, CN('office:font-face-decls')))
-        self.automatic_styles = wrap(subelement(self.xmlnode, CN('office:automatic-styles')))
-        self.body = wrap(subelement(self.xmlnode, CN('office:body')))
+        self.scripts = self._get_child(CN('office:scripts'))
+        self.fonts = self._get_child(CN('office:font-face-decls'))
+        self.automatic_styles = self._get_child(CN('office:automatic-styles'))
+        self.body = self._get_child(CN('office:body'))
+
+    def _get_child(self, tag):
+        return wrap(ordered_subelement(self.xmlnode, tag, self.CHILDREN))
 
     def get_application_body(self, bodytag):
         # The office:body element is just frame element for the real document content:
diff --git a/ezodf/styles.py b/ezodf/styles.py
index 7f67594..24ae99e 100644
--- a/ezodf/styles.py
+++ b/ezodf/styles.py
@@ -8,7 +8,7 @@ from __future__ import unicode_literals, print_function, division
 __author__ = "mozman <mozman@gmx.at>"
 
 from .const import STYLES_NSMAP
-from .xmlns import XMLMixin, subelement, etree, CN, register_class, wrap
+from .xmlns import XMLMixin, subelement, ordered_subelement, etree, CN, register_class, wrap
 from .base import GenericWrapper
 
 ## file 'styles.xml'
@@ -16,6 +16,10 @@ from .base import GenericWrapper
 @register_class
 class OfficeDocumentStyles(XMLMixin):
     TAG = CN('office:document-styles')
+    CHILDREN = (CN('office:font-face-decls'),
+                CN('office:styles'),
+                CN('office:automatic-styles'),
+                CN('office:master-styles'))
 
     def __init__(self, xmlnode=None):
         if xmlnode is None:
@@ -27,10 +31,13 @@ class OfficeDocumentStyles(XMLMixin):
         self._setup()
 
     def _setup(self):
-        self.fonts = wrap(subelement(self.xmlnode, CN('office:font-face-decls')))
-        self.styles = wrap(subelement(self.xmlnode, CN('office:styles')))
-        self.automatic_styles = wrap(subelement(self.xmlnode, CN('office:automatic-styles')))
-        self.master_styles = wrap(subelement(self.xmlnode, CN('office:master-styles')))
+        self.fonts = self._get_child(CN('office:font-face-decls'))
+        self.styles = self._get_child(CN('office:styles'))
+        self.automatic_styles = self._get_child(CN('office:automatic-styles'))
+        self.master_styles = self._get_child(CN('office:master-styles'))
+
+    def _get_child(self, tag):
+        return wrap(ordered_subelement(self.xmlnode, tag, self.CHILDREN))
 
 ## style container
 
diff --git a/ezodf/xmlns.py b/ezodf/xmlns.py
index a4af9f8..13920e8 100644
--- a/ezodf/xmlns.py
+++ b/ezodf/xmlns.py
@@ -19,6 +19,21 @@ def subelement(parent, tag, new=True):
         element = etree.SubElement(parent, tag)
     return element
 
+def ordered_subelement(parent, tag, order):
+    """ Find/create SubElement `tag` in parent node, a new element is located
+    behind its predecessors, `order` is the sequence of all tags.
+    """
+    element = parent.find(tag)
+    if element is None:
+        element = etree.Element(tag)
+        predecessors = order[:order.index(tag)]
+        position = 0
+        for index, child in enumerate(parent.iterchildren()):
+            if child.tag in predecessors:
+                position = index + 1
+        parent.insert(position, element)
+    return element
+
 class _XMLNamespaces(object):
     def __init__(self, namespaces):
         self.prefix2uri = {}
-- 
2.43.0


From a441bbf2a6081930001762e4656bb33965430829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:27 +0000
Subject: [PATCH 34/62] fix: an interruption between the two renames of a save
 restores the document

---
 ezodf/filemanager.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ezodf/filemanager.py b/ezodf/filemanager.py
index 4512f80..08d0a1f 100644
--- a/ezodf/filemanager.py
+++ b/ezodf/filemanager.py
@@ -27,14 +27,14 @@ def install_file(tmpfilename, filename, backup=True):
     """
     bakfilename = filename + '.bak'
     has_backup = backup and os.path.exists(filename)
-    if has_backup:
-        # existing document becomes the backup file
-        replace_file(filename, bakfilename)
     try:
+        if has_backup:
+            # existing document becomes the backup file
+            replace_file(filename, bakfilename)
         # rename the new created document
         replace_file(tmpfilename, filename)
     except:
-        if has_backup:
+        if has_backup and not os.path.exists(filename):
             # restore existing document
             replace_file(bakfilename, filename)
         raise
-- 
2.43.0


From aaf3cc50fbe6fb8f254cf8759357ea01cea74d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:57 +0000
Subject: [PATCH 35/62] fix: an existing package which can't be accessed is not
 an empty package

---
 ezodf/filemanager.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ezodf/filemanager.py b/ezodf/filemanager.py
index 08d0a1f..fdf572c 100644
--- a/ezodf/filemanager.py
+++ b/ezodf/filemanager.py
@@ -78,7 +78,15 @@ class FileManager(object):
         return False
 
     def _source_exists(self):
-        return self.zipname is not None and os.path.exists(self.zipname)
+        if self.zipname is None:
+            return False
+        try:
+            os.stat(self.zipname)
+        except OSError as e:
+            if e.errno in (errno.ENOENT, errno.ENOTDIR):
+                return False
+            raise # an existing package, which is not accessible
+        return True
 
     def _open_bytestream(self):
         return open(self.zipname, 'rb')
@@ -121,7 +129,7 @@ class FileManager(object):
                 os.remove(tmpfilename)
             raise
         self.zipname = filename
-        self._has_source = self._has_source or self._source_exists()
+        self._has_source = True
 
     def _write_to_stream(self, stream):
         # replace the existing content of the stream
-- 
2.43.0


From 6e6e3916462f7c963cc57b179cd9ea4dabbae48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:59 +0000
Subject: [PATCH 36/62] fix: serialise a flat XML document before the stream is
 truncated

---
 ezodf/document.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ezodf/document.py b/ezodf/document.py
index 45f5310..98a781a 100644
--- a/ezodf/document.py
+++ b/ezodf/document.py
@@ -204,9 +204,10 @@ class FlatXMLDocument(_BaseDocument):
 
     def _saving_routine(self):
         if is_stream(self.docname):
+            buffer = self.tobytes()
             self.docname.seek(0)
             self.docname.truncate()
-            self.docname.write(self.tobytes())
+            self.docname.write(buffer)
             return
 
         tmpfilename = FileManager().tmpfilename(self.docname)
-- 
2.43.0


From 244ac13d8898c60b9880c00eecdafd3293857a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:00 +0000
Subject: [PATCH 37/62] fix: comments and processing instructions are not part
 of the plain text

---
 ezodf/base.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ezodf/base.py b/ezodf/base.py
index 61f9bc1..fa69530 100644
--- a/ezodf/base.py
+++ b/ezodf/base.py
@@ -8,7 +8,7 @@ from __future__ import unicode_literals, print_function, division
 __author__ = "mozman <mozman@gmx.at>"
 
 from .xmlns import etree, register_class, wrap
-from .compatibility import itermap, tostr
+from .compatibility import itermap, tostr, is_string
 
 def safelen(text):
     return len(text) if text else 0
@@ -156,9 +156,10 @@ class GenericWrapper(object):
     @property
     def textlen(self):
         """ Returns the character count of the plain text content as int. """
-        return safelen(self.xmlnode.text)
+        return safelen(self.xmlnode.text) if is_string(self.xmlnode.tag) else 0
 
     def plaintext(self):
         """ Get content of node as plain (unformatted) text string. """
         text = self.xmlnode.text
-        return text if text else ""
+        # comments and processing instructions are not part of the text
+        return text if text and is_string(self.xmlnode.tag) else ""
-- 
2.43.0


From 7b351ca83ff1eb0b73ac8c4d2aee89364de77c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:56 +0000
Subject: [PATCH 38/62] fix: inserting/deleting columns by negative index
 treats cells and column-infos alike

---
 ezodf/table.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ezodf/table.py b/ezodf/table.py
index 9ece72b..815ba75 100644
--- a/ezodf/table.py
+++ b/ezodf/table.py
@@ -171,13 +171,17 @@ class Table(GenericWrapper):
 
     def insert_columns(self, index, count=1):
         # CAUTION: this will break refernces in formulas!
+        ncols = self.ncols()
         self._cellmatrix.insert_columns(index, count)
-        self._columns_info.insert(index, count)
+        # negative indices are relative to the cells, a table can have more
+        # column-infos than columns of cells
+        self._columns_info.insert(index + ncols if index < 0 else index, count)
 
     def delete_columns(self, index, count=1):
         # CAUTION: this will break refernces in formulas!
+        ncols = self.ncols()
         self._cellmatrix.delete_columns(index, count)
-        self._columns_info.delete(index, count)
+        self._columns_info.delete(index + ncols if index < 0 else index, count)
 
     def set_cell_span(self, pos, size):
         self._cell_span_controller.set_span(get_cell_index(pos), size)
-- 
2.43.0


From 7b9be6e66e6ef780b17e2e7df67a44a48ae50e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:58 +0000
Subject: [PATCH 39/62] fix: create documents from templates without mimetype

---
 ezodf/document.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ezodf/document.py b/ezodf/document.py
index 98a781a..bf5bc7a 100644
--- a/ezodf/document.py
+++ b/ezodf/document.py
@@ -93,7 +93,7 @@ def _new_doc_from_template(filename, templatename):
             raise IOError('File does not exist or it is not a zipfile: %s' % tostr(buffer))
 
     fm = get_filemanager(templatename)
-    mimetype = fm.get_text('mimetype')
+    mimetype = __detect_mime_type(fm)
     if mimetype.endswith('-template'):
         mimetype = mimetype[:-9]
     try:
-- 
2.43.0


From 321f4a70773658986022eb72e00a917b9930d7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:31 +0000
Subject: [PATCH 40/62] fix: find the source package after the working
 directory has been changed

---
 ezodf/filemanager.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/ezodf/filemanager.py b/ezodf/filemanager.py
index fdf572c..f01bcf7 100644
--- a/ezodf/filemanager.py
+++ b/ezodf/filemanager.py
@@ -65,23 +65,29 @@ class FileObject(object):
 class FileManager(object):
     def __init__(self, zipname=None):
         self.directory = dict()
-        self.zipname = zipname
+        self._set_source(zipname)
         # A source package which can't be read later is an error and not an
         # empty package.
         self._has_source = self._source_exists()
         self.manifest = Manifest(self.get_bytes('META-INF/manifest.xml'))
         self.register('META-INF/manifest.xml', self.manifest, 'text/xml')
 
+    def _set_source(self, zipname):
+        self.zipname = zipname
+        # the source is read again while saving, but the working directory may
+        # have been changed in the meantime
+        self._sourcename = None if zipname is None else os.path.abspath(zipname)
+
     def has_zip(self):
         if self.zipname is not None:
-            return is_zipfile(self.zipname)
+            return is_zipfile(self._sourcename)
         return False
 
     def _source_exists(self):
         if self.zipname is None:
             return False
         try:
-            os.stat(self.zipname)
+            os.stat(self._sourcename)
         except OSError as e:
             if e.errno in (errno.ENOENT, errno.ENOTDIR):
                 return False
@@ -89,7 +95,7 @@ class FileManager(object):
         return True
 
     def _open_bytestream(self):
-        return open(self.zipname, 'rb')
+        return open(self._sourcename, 'rb')
 
     def tmpfilename(self, basefile=None):
         def randomname(count):
@@ -128,7 +134,7 @@ class FileManager(object):
             if os.path.exists(tmpfilename):
                 os.remove(tmpfilename)
             raise
-        self.zipname = filename
+        self._set_source(filename)
         self._has_source = True
 
     def _write_to_stream(self, stream):
-- 
2.43.0


From e87e8676c2e5d388041597df3a336e020cc8d944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:41 +0000
Subject: [PATCH 41/62] fix: a missing source package is an error if members
 would get lost

---
 ezodf/filemanager.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/ezodf/filemanager.py b/ezodf/filemanager.py
index f01bcf7..1be5407 100644
--- a/ezodf/filemanager.py
+++ b/ezodf/filemanager.py
@@ -69,6 +69,7 @@ class FileManager(object):
         # A source package which can't be read later is an error and not an
         # empty package.
         self._has_source = self._source_exists()
+        self._members = self._get_member_names()
         self.manifest = Manifest(self.get_bytes('META-INF/manifest.xml'))
         self.register('META-INF/manifest.xml', self.manifest, 'text/xml')
 
@@ -126,6 +127,7 @@ class FileManager(object):
             zippo = zipfile.ZipFile(tmpfilename, 'w', zipfile.ZIP_DEFLATED)
             try:
                 self._tozip(zippo)
+                members = frozenset(zippo.namelist())
             finally:
                 zippo.close()
             install_file(tmpfilename, filename, backup)
@@ -136,6 +138,7 @@ class FileManager(object):
             raise
         self._set_source(filename)
         self._has_source = True
+        self._members = members
 
     def _write_to_stream(self, stream):
         # replace the existing content of the stream
@@ -144,6 +147,18 @@ class FileManager(object):
         stream.truncate()
         stream.write(buffer)
 
+    def _get_member_names(self):
+        if not self._has_source:
+            return frozenset()
+        bytestream = self._open_bytestream()
+        try:
+            zipfile_ = zipfile.ZipFile(bytestream, 'r')
+            names = frozenset(zipfile_.namelist())
+            zipfile_.close()
+        finally:
+            bytestream.close()
+        return names
+
     def get_bytes(self, filename):
         """ Returns a byte stream or None. """
         filecontent = None
@@ -196,9 +211,9 @@ class FileManager(object):
         try:
             bytestream = self._open_bytestream()
         except IOError as e:
-            if e.errno == errno.ENOENT:
+            if e.errno == errno.ENOENT and not self._members.difference(ignore):
                 return # nothing to copy
-            raise
+            raise # the other members would get lost
 
         origzip = zipfile.ZipFile(bytestream)
         try:
-- 
2.43.0


From eefd8d5915e8026db4aa488dec0c817fdf448f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:24 +0000
Subject: [PATCH 42/62] fix: column_info() with negative index is relative to
 the columns of cells

---
 ezodf/table.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ezodf/table.py b/ezodf/table.py
index 815ba75..9a3bbcf 100644
--- a/ezodf/table.py
+++ b/ezodf/table.py
@@ -152,6 +152,10 @@ class Table(GenericWrapper):
     def column_info(self, index):
         if is_string(index):
             row, index = address_to_index(index)
+        if index < 0:
+            # relative to the cells, a table can have more column-infos than
+            # columns of cells
+            index -= len(self._columns_info) - self.ncols()
         return wrap(self._columns_info.get_table_column(index))
 
     def append_rows(self, count=1):
-- 
2.43.0


From 62af14f4b6422225daf4644b3d9604ddfef6cc54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:10 +0000
Subject: [PATCH 43/62] fix: refuse unknown value types for new cells without
 value

---
 ezodf/cells.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ezodf/cells.py b/ezodf/cells.py
index 30115c7..ef81713 100644
--- a/ezodf/cells.py
+++ b/ezodf/cells.py
@@ -52,6 +52,8 @@ class Cell(GenericWrapper):
             if value is not None:
                 self.set_value(value, value_type, currency)
             elif value_type is not None:
+                if value_type not in VALID_VALUE_TYPES:
+                    raise TypeError(value_type)
                 self._set_value_type(value_type)
 
     @property
-- 
2.43.0


From bfbf200ea3a939df6b2dda3184760f5977dd1a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:22 +0000
Subject: [PATCH 44/62] fix: append_text() removes the outdated string-value
 attribute of a cell

---
 ezodf/cells.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ezodf/cells.py b/ezodf/cells.py
index ef81713..de05548 100644
--- a/ezodf/cells.py
+++ b/ezodf/cells.py
@@ -187,6 +187,8 @@ class Cell(GenericWrapper):
     def append_text(self, text, style_name=None):
         if self.value_type != 'string':
             raise TypeError('invalid cell type: %s' % self.value_type)
+        # a value stored as attribute does not match the extended text
+        self._clear_value_attribute('string')
         try:
             last_child = self.get_child(-1)
             if last_child.kind in ("Paragraph", "Heading"):
-- 
2.43.0


From 9407a41d242109dee31bf5ad690c80460e8c7b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:16 +0000
Subject: [PATCH 45/62] fix: inject_style() works for single XML files

---
 ezodf/document.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ezodf/document.py b/ezodf/document.py
index bf5bc7a..a00ef9f 100644
--- a/ezodf/document.py
+++ b/ezodf/document.py
@@ -138,7 +138,7 @@ class _BaseDocument(object):
 
     def inject_style(self, stylexmlstr, where="styles.xml"):
         style = fake_element(stylexmlstr)
-        self.styles.styles.xmlnode.append(style.xmlnode)
+        self._get_common_styles().xmlnode.append(style.xmlnode)
 
 class FlatXMLDocument(_BaseDocument):
     """ OpenDocument contained in a single XML file. """
@@ -195,6 +195,9 @@ class FlatXMLDocument(_BaseDocument):
         self.master_styles = wrap(self.xmlnode.find(CN('office:master-styles')))
         self.body = self.get_application_body(self.application_body_tag)
 
+    def _get_common_styles(self):
+        return self.styles
+
     def get_application_body(self, bodytag):
         # The office:body element is just frame element for the real document content:
         # office:text, office:spreadsheet, office:presentation, office:drawing
@@ -253,6 +256,9 @@ class PackagedDocument(_BaseDocument):
         self.body = self.content.get_application_body(self.application_body_tag)
         self._create_shortcuts(self.body)
 
+    def _get_common_styles(self):
+        return self.styles.styles
+
     def _saving_routine(self):
         self.filemanager.save(self.docname, backup=self.backup)
 
-- 
2.43.0


From b4a01efeb9a0608780f2fb63455b0be8d87ee140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:18 +0000
Subject: [PATCH 46/62] fix: empty package members are not well-formed XML

---
 ezodf/filemanager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ezodf/filemanager.py b/ezodf/filemanager.py
index 1be5407..e30e932 100644
--- a/ezodf/filemanager.py
+++ b/ezodf/filemanager.py
@@ -183,7 +183,7 @@ class FileManager(object):
 
     def get_xml_element(self, filename):
         filecontent = self.get_bytes(filename)
-        if filecontent:
+        if filecontent is not None:
             return etree.XML(filecontent)
         else:
             return None
-- 
2.43.0


From 32ce4b451de5c8cf3bef09bd24bc1e0791ff7b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:19 +0000
Subject: [PATCH 47/62] fix: durations followed by a line break are refused

---
 ezodf/timeparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ezodf/timeparser.py b/ezodf/timeparser.py
index a41d61f..bcb5140 100644
--- a/ezodf/timeparser.py
+++ b/ezodf/timeparser.py
@@ -15,7 +15,7 @@ DATETIME_FORMAT = "%Y-%m-%dT%H:%M:%S"
 DATE_FORMAT = "%Y-%m-%d"
 
 class TimeParser(object):
-    duration_matcher = re.compile("^(-)?P(\d+Y)?(\d+M)?(\d+D)?(?:T(\d+H)?(\d+M)?(\d+(?:,\d+)?S)?)?$")
+    duration_matcher = re.compile("^(-)?P(\d+Y)?(\d+M)?(\d+D)?(?:T(\d+H)?(\d+M)?(\d+(?:,\d+)?S)?)?\\Z")
 
     def __init__(self, time):
         if is_string(time):
-- 
2.43.0


From 1a020cc4478980530a525d6e5a41e2eada238fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:17 +0000
Subject: [PATCH 48/62] fix: all wrapper objects of a table element know its
 present rows and columns

---
 ezodf/table.py     | 7 ++++++-
 ezodf/wrapcache.py | 5 +++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/ezodf/table.py b/ezodf/table.py
index 9a3bbcf..8f7eed4 100644
--- a/ezodf/table.py
+++ b/ezodf/table.py
@@ -40,10 +40,15 @@ class Table(GenericWrapper):
             self._columns_info.reset(size[1])
 
         super(Table, self).__init__(xmlnode=xmlnode)
+        known = wrapcache.get(self.xmlnode)
+        if known is not None:
+            # all wrappers of a table have to know the same rows and columns
+            self.__dict__ = known.__dict__
         init_attributes_by_xmlnode()
         if xmlnode is None:
             set_new_table_metrics()
-        wrapcache.add(self)
+        if known is None:
+            wrapcache.add(self)
 
     def __getitem__(self, key):
         if isinstance(key, int):
diff --git a/ezodf/wrapcache.py b/ezodf/wrapcache.py
index a54361d..359e926 100644
--- a/ezodf/wrapcache.py
+++ b/ezodf/wrapcache.py
@@ -25,6 +25,10 @@ class _WrapCache(object):
     def add(self, wrapped_object):
         self._cache[id(wrapped_object.xmlnode)] = wrapped_object
 
+    def get(self, element):
+        """ Get the wrapper of `element` or None. """
+        return self._cache.get(id(element))
+
     def remove(self, wrapped_object):
         del self._cache[id(wrapped_object.xmlnode)]
 
@@ -35,4 +39,5 @@ _wrapcache = _WrapCache()
 wrap = _wrapcache.wrap
 clear = _wrapcache.clear
 add = _wrapcache.add
+get = _wrapcache.get
 remove = _wrapcache.remove
-- 
2.43.0


From 271b8289f9a59ae7d57cbedf90bb14e78c696665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:58 +0000
Subject: [PATCH 49/62] fix: cells refuse values which do not match a numeric
 value type

A cell with the value type float, percentage or currency accepted any text
(and True), reading its value then failed with ValueError.
---
 ezodf/cells.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ezodf/cells.py b/ezodf/cells.py
index de05548..59e6a47 100644
--- a/ezodf/cells.py
+++ b/ezodf/cells.py
@@ -112,6 +112,8 @@ class Cell(GenericWrapper):
                 value = 'true' if value else 'false'
             else:
                 value = tostr(value)
+                if value_type in NUMERIC_TYPES:
+                    float(value) # ValueError: not readable as number
             return value
 
         if not is_valid_value(value):
-- 
2.43.0


From 5631114ac43cbf4ce9201f5e410326f1a5f4c98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:59 +0000
Subject: [PATCH 50/62] fix: user fields of type date and time are readable

---
 ezodf/variables.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ezodf/variables.py b/ezodf/variables.py
index 58f7ca0..0d6ada3 100644
--- a/ezodf/variables.py
+++ b/ezodf/variables.py
@@ -156,6 +156,8 @@ class UserField(Variable):  # {{{1
             return self.get_bool_attr(CN('office:boolean-value'))
         elif self.type == 'string':
             return self.get_attr(CN('office:string-value'))
+        elif self.type in ('date', 'time'):
+            return self.get_attr(VALUE_ATTRIBUTES[self.type])
         return float(self.get_attr(CN('office:value')))
 
     @value.setter
-- 
2.43.0


From 78f5ec2db8c817d1cfa6d1adb322feabb69f985a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:13 +0000
Subject: [PATCH 51/62] fix: the value of a variable is not its localized text

Office programs write the value as typed attribute of text:variable-set, its
text is only the display form (like '1.234,50' or 'TRUE').
---
 ezodf/variables.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/ezodf/variables.py b/ezodf/variables.py
index 0d6ada3..e51360c 100644
--- a/ezodf/variables.py
+++ b/ezodf/variables.py
@@ -230,7 +230,16 @@ class SimpleVariableSet(SimpleVariableInstance):  # {{{1
     @property
     def value(self):  # {{{2
         """Gets instavce value"""
-        return super(SimpleVariableSet, self).value
+        # the text is a localized representation of the value
+        attribute = VALUE_ATTRIBUTES.get(self.type, CN('office:value'))
+        value = self.xmlnode.get(attribute)
+        if value is None:
+            return super(SimpleVariableSet, self).value
+        elif attribute == CN('office:value'):
+            return float(value)
+        elif self.type == 'boolean':
+            return value == 'true'
+        return value
 
     @value.setter
     def value(self, v):  # {{{2
-- 
2.43.0


From 0c594bc092e697af96b6d7b43a50df918179a4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:13 +0000
Subject: [PATCH 52/62] fix: refused texts do not remove the existing text

---
 ezodf/base.py           | 4 +++-
 ezodf/propertymixins.py | 6 ++++--
 ezodf/text.py           | 3 ++-
 ezodf/variables.py      | 6 ++++--
 ezodf/xmlns.py          | 9 +++++++++
 5 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/ezodf/base.py b/ezodf/base.py
index fa69530..60a5a9f 100644
--- a/ezodf/base.py
+++ b/ezodf/base.py
@@ -7,7 +7,7 @@
 from __future__ import unicode_literals, print_function, division
 __author__ = "mozman <mozman@gmx.at>"
 
-from .xmlns import etree, register_class, wrap
+from .xmlns import etree, register_class, wrap, check_xml_text
 from .compatibility import itermap, tostr, is_string
 
 def safelen(text):
@@ -34,6 +34,7 @@ class GenericWrapper(object):
         return self.xmlnode.text
     @text.setter
     def text(self, value):
+        check_xml_text(value)
         self.xmlnode.text = value
 
     @property
@@ -41,6 +42,7 @@ class GenericWrapper(object):
         return self.xmlnode.tail
     @tail.setter
     def tail(self, value):
+        check_xml_text(value)
         self.xmlnode.tail = value
 
     @property
diff --git a/ezodf/propertymixins.py b/ezodf/propertymixins.py
index 96da21a..ec52174 100644
--- a/ezodf/propertymixins.py
+++ b/ezodf/propertymixins.py
@@ -8,7 +8,7 @@ from __future__ import unicode_literals, print_function, division
 __author__ = "mozman <mozman@gmx.at>"
 
 from .compatibility import tostr
-from .xmlns import CN, subelement
+from .xmlns import CN, subelement, check_xml_text
 
 
 def StringProperty(name, doc=None):
@@ -86,8 +86,10 @@ class TextNumberingMixin(object):
         return formatted_number.text if formatted_number is not None else None
     @formatted_number.setter
     def formatted_number(self, value):
+        value = tostr(value)
+        check_xml_text(value)
         formatted_number = subelement(self.xmlnode, CN('text:number'))
-        formatted_number.text = tostr(value)
+        formatted_number.text = value
 
 class TableVisibilityMixin(object):
     VALID_VISIBILITY_STATES = frozenset( ('visible', 'collapse', 'filter') )
diff --git a/ezodf/text.py b/ezodf/text.py
index 4d3b7a8..091842e 100644
--- a/ezodf/text.py
+++ b/ezodf/text.py
@@ -8,7 +8,7 @@ from __future__ import unicode_literals, print_function, division
 __author__ = "mozman <mozman@gmx.at>"
 
 from.compatibility import is_string
-from .xmlns import CN, register_class, subelement, wrap
+from .xmlns import CN, register_class, subelement, wrap, check_xml_text
 from .base import GenericWrapper, safelen
 from .whitespaces import encode_whitespaces
 from .protection import random_protection_key
@@ -51,6 +51,7 @@ class Span(GenericWrapper):
         def append(text, new):
             return text + new if text else new
 
+        check_xml_text(text)
         for tag in encode_whitespaces(text):
             if is_string(tag):
                 if len(self.xmlnode) > 0:
diff --git a/ezodf/variables.py b/ezodf/variables.py
index e51360c..a6d5c53 100644
--- a/ezodf/variables.py
+++ b/ezodf/variables.py
@@ -7,7 +7,7 @@
 from __future__ import unicode_literals, print_function, division
 __author__ = "T0ha <t0hashvein@gmail.com>"
 
-from .xmlns import register_class, CN, wrap
+from .xmlns import register_class, CN, wrap, check_xml_text
 from .base import GenericWrapper
 from .compatibility import itermap, tostr
 
@@ -32,10 +32,12 @@ def set_value_attribute(xmlnode, value_type, value):
     """ Set value attribute for `value_type` and remove the attributes of
     all other value types.
     """
+    text = value_to_text(value)
+    check_xml_text(text)
     for attribute in VALUE_ATTRIBUTES.values():
         if attribute in xmlnode.attrib:
             del xmlnode.attrib[attribute]
-    xmlnode.set(VALUE_ATTRIBUTES[value_type], value_to_text(value))
+    xmlnode.set(VALUE_ATTRIBUTES[value_type], text)
 
 
 class Variables(GenericWrapper):  # {{{1
diff --git a/ezodf/xmlns.py b/ezodf/xmlns.py
index 13920e8..322ab50 100644
--- a/ezodf/xmlns.py
+++ b/ezodf/xmlns.py
@@ -19,6 +19,15 @@ def subelement(parent, tag, new=True):
         element = etree.SubElement(parent, tag)
     return element
 
+def check_xml_text(*texts):
+    """ Raises an error if one of the `texts` can not be stored in a XML
+    document. Has to be called before a document will be modified, a text
+    which is refused by lxml has already removed its predecessor.
+    """
+    probe = etree.Element('probe')
+    for text in texts:
+        probe.text = text
+
 def ordered_subelement(parent, tag, order):
     """ Find/create SubElement `tag` in parent node, a new element is located
     behind its predecessors, `order` is the sequence of all tags.
-- 
2.43.0


From b47431382a64dbe60bc6ed3b132f2e8955c00239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:13 +0000
Subject: [PATCH 53/62] fix: refused values of cells leave the cell unchanged

---
 ezodf/cells.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ezodf/cells.py b/ezodf/cells.py
index 59e6a47..81501cf 100644
--- a/ezodf/cells.py
+++ b/ezodf/cells.py
@@ -7,7 +7,7 @@
 from __future__ import unicode_literals, print_function, division
 __author__ = "mozman <mozman@gmx.at>"
 
-from .xmlns import register_class, CN
+from .xmlns import register_class, CN, check_xml_text
 from .base import GenericWrapper
 from .text import Paragraph, Span
 from .propertymixins import StringProperty, BooleanProperty
@@ -128,6 +128,10 @@ class Cell(GenericWrapper):
         value = convert(value, value_type)
         if value == '': # not storable, keep the old value
             raise ValueError("invalid value for type '%s': ''" % value_type)
+        if not isinstance(value, GenericWrapper):
+            check_xml_text(value)
+        if currency and (value_type == 'currency'):
+            check_xml_text(tostr(currency))
         self._clear_old_value()
         self._set_new_value(value, value_type, currency)
 
@@ -189,8 +193,11 @@ class Cell(GenericWrapper):
     def append_text(self, text, style_name=None):
         if self.value_type != 'string':
             raise TypeError('invalid cell type: %s' % self.value_type)
+        self._append_text(text, style_name)
         # a value stored as attribute does not match the extended text
         self._clear_value_attribute('string')
+
+    def _append_text(self, text, style_name):
         try:
             last_child = self.get_child(-1)
             if last_child.kind in ("Paragraph", "Heading"):
-- 
2.43.0


From 717b07331cba25b6f7609f70ea6ddc4469a9b1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:21 +0000
Subject: [PATCH 54/62] fix: refused meta data and manifest entries leave
 nothing behind

---
 ezodf/manifest.py |  7 +++++--
 ezodf/meta.py     | 11 ++++++++---
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/ezodf/manifest.py b/ezodf/manifest.py
index 2bbf9e1..e11e213 100644
--- a/ezodf/manifest.py
+++ b/ezodf/manifest.py
@@ -7,7 +7,7 @@
 from __future__ import unicode_literals, print_function, division
 __author__ = "mozman <mozman@gmx.at>"
 
-from .xmlns import XMLMixin, etree, CN
+from .xmlns import XMLMixin, etree, CN, check_xml_text
 from .const import MANIFEST_NSMAP
 
 IGNORE_LIST = frozenset(['META-INF/manifest.xml'])
@@ -21,7 +21,7 @@ class Manifest(XMLMixin):
 
     def add(self, full_path, media_type="", version=None):
         def create_new_file_entry():
-            file_entry = etree.SubElement(self.xmlnode, CN('manifest:file-entry'))
+            file_entry = etree.Element(CN('manifest:file-entry'))
             file_entry.set(CN('manifest:full-path'), full_path)
             return file_entry
 
@@ -36,8 +36,11 @@ class Manifest(XMLMixin):
 
         if full_path in IGNORE_LIST:
             return
+        check_xml_text(version)
         file_entry = get_file_entry_or_create_new()
         set_media_type_and_version(file_entry)
+        if file_entry.getparent() is None:
+            self.xmlnode.append(file_entry)
 
     def remove(self, full_path):
         file_entry = self.find(full_path)
diff --git a/ezodf/meta.py b/ezodf/meta.py
index 431057b..28e92bb 100644
--- a/ezodf/meta.py
+++ b/ezodf/meta.py
@@ -10,7 +10,7 @@ __author__ = "mozman <mozman@gmx.at>"
 from datetime import datetime
 
 from .compatibility import tostr
-from .xmlns import CN, subelement, etree, register_class, XMLMixin
+from .xmlns import CN, subelement, etree, register_class, XMLMixin, check_xml_text
 from .const import META_NSMAP, GENERATOR, META_NS
 
 TAGS = {
@@ -67,6 +67,7 @@ class OfficeDocumentMeta(XMLMixin):
 
     def __setitem__(self, key, value):
         cnkey = CN(TAGS[key]) # key in clark notation
+        check_xml_text(value)
         element = subelement(self.meta, cnkey)
         element.text = value
 
@@ -105,6 +106,7 @@ class Keywords(object):
         """ Add 'keyword' to meta data. """
         tag = self._find(keyword)
         if tag is None:
+            check_xml_text(keyword)
             tag = etree.SubElement(self.meta, CN('meta:keyword'))
             tag.text = keyword
 
@@ -144,11 +146,14 @@ class Usertags(object):
     def set(self, name, value, value_type=None):
         """ Set/Replace user-defined metatag.
         """
+        value = tostr(value)
+        check_xml_text(value, value_type)
         tag = self._find(name)
         if tag is None:
-            tag = etree.SubElement(self.meta, CN('meta:user-defined'))
+            tag = etree.Element(CN('meta:user-defined'))
             tag.set(CN('meta:name'), name)
-        tag.text = tostr(value)
+            self.meta.append(tag)
+        tag.text = value
         if value_type is not None:
             tag.set(CN('meta:value-type'), value_type)
 
-- 
2.43.0


From d01046f84f36cbf496ed2793d77ce93948847022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:21 +0000
Subject: [PATCH 55/62] fix: spans which exceed the table can be removed

---
 ezodf/cellspancontroller.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ezodf/cellspancontroller.py b/ezodf/cellspancontroller.py
index d2d9723..81d4ca5 100644
--- a/ezodf/cellspancontroller.py
+++ b/ezodf/cellspancontroller.py
@@ -80,7 +80,12 @@ class CellSpanController(object):
     def remove_span(self, pos):
         if not self.is_cell_spanning(pos):
             return # should it raise an error?
-        size = self._get_cell(pos).span
+        row, column = pos
+        nrows, ncols = self._get_cell(pos).span
+        # the table can be smaller than the span, because not all repeated
+        # rows and columns were expanded or because they were deleted
+        size = (min(nrows, self._row_controller.nrows() - row),
+                min(ncols, self._row_controller.ncols() - column))
         for cell_index in iter_cell_range(pos, size):
             self._uncover_cell(cell_index)
         self._remove_span_attributes(pos)
-- 
2.43.0


From 7af9ca6a64c6f609b6e7dac67bfd41f0dbd3e098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:24 +0000
Subject: [PATCH 56/62] fix: tables refuse numbers which are not integers
 without any change

---
 ezodf/table.py              | 4 +++-
 ezodf/tablerowcontroller.py | 2 ++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/ezodf/table.py b/ezodf/table.py
index 8f7eed4..c346241 100644
--- a/ezodf/table.py
+++ b/ezodf/table.py
@@ -8,6 +8,7 @@ from __future__ import unicode_literals, print_function, division
 __author__ = "mozman <mozman@gmx.at>"
 
 import copy
+import operator
 
 from .compatibility import is_string
 from .xmlns import register_class, CN, wrap, etree
@@ -93,7 +94,8 @@ class Table(GenericWrapper):
         return self._cellmatrix.ncols()
 
     def reset(self, size=(10, 10)):
-        nrows, ncols = size
+        # check before the table will be cleared
+        nrows, ncols = (operator.index(count) for count in size)
         if nrows < 1 or ncols < 1:
             raise ValueError('nrows and ncols has to be >= 1.')
         preserve_name = self.name
diff --git a/ezodf/tablerowcontroller.py b/ezodf/tablerowcontroller.py
index 1bbf1fe..52b17b8 100644
--- a/ezodf/tablerowcontroller.py
+++ b/ezodf/tablerowcontroller.py
@@ -8,6 +8,7 @@ from __future__ import unicode_literals, print_function, division
 __author__ = "mozman <mozman@gmx.at>"
 
 import copy
+import operator
 
 from .xmlns import CN, etree
 from .nodestructuretags import TABLE_ROWS
@@ -110,6 +111,7 @@ class TableRowController(TableCellAccessor):
     @staticmethod
     def _checked_index(index, limit, count=1):
         # check before the table will be modified
+        index = operator.index(index)
         if index < 0:
             index += limit
         if index < 0 or index + count > limit:
-- 
2.43.0


From 188b97a549c4711c0d15ced615e7eab1e382c34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:50 +0000
Subject: [PATCH 57/62] fix: documents with comments between the declarations
 of variables can be opened

---
 ezodf/variables.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ezodf/variables.py b/ezodf/variables.py
index a6d5c53..556c46d 100644
--- a/ezodf/variables.py
+++ b/ezodf/variables.py
@@ -47,7 +47,8 @@ class Variables(GenericWrapper):  # {{{1
         super(Variables, self).__init__(xmlnode)
         self.variables = {}
         for v in self:
-            self.variables[v.name] = v
+            if isinstance(v, Variable): # and not a comment
+                self.variables[v.name] = v
 
     def __contains__(self, key):  # {{{2
         """docstring for __contains__"""
-- 
2.43.0


From a6a73f85457eca90ca960f25705894a11b92d5fe Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 03:47:39 +0000
Subject: [PATCH 58/62] fix: packages whose mimetype only starts with the
 expected one are not valid

---
 ezodf/filemanager.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ezodf/filemanager.py b/ezodf/filemanager.py
index e30e932..e9088f4 100644
--- a/ezodf/filemanager.py
+++ b/ezodf/filemanager.py
@@ -269,9 +269,11 @@ def check_zipfile_for_oasis_validity(filename, mimetype):
         manifest = zf.read('META-INF/manifest.xml')
     else:
         manifest = None
+    # the whole content of the file, and not just its beginning
+    mimetype_is_valid = 'mimetype' in names and zf.read('mimetype') == mimetype
     zf.close()
 
-    if manifest is None:
+    if manifest is None or not mimetype_is_valid:
         return False
     # meta.xml and styles.xml are not required, but I think they should
     for filename in ['content.xml', 'meta.xml', 'styles.xml', 'mimetype']:
-- 
2.43.0


From b1f931d3fa213cea02857d60a904b81bbb16e065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:24 +0000
Subject: [PATCH 59/62] fix: empty keywords, user tags and meta data fields of
 a read document are empty texts and not None

---
 ezodf/meta.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ezodf/meta.py b/ezodf/meta.py
index 28e92bb..c6fba8a 100644
--- a/ezodf/meta.py
+++ b/ezodf/meta.py
@@ -74,7 +74,7 @@ class OfficeDocumentMeta(XMLMixin):
     def __getitem__(self, key):
         element = self.meta.find(CN(TAGS[key]))
         if element is not None:
-            return element.text
+            return element.text or '' # None, if the element is empty
         else:
             raise KeyError(key)
 
@@ -96,7 +96,7 @@ class Keywords(object):
     def __iter__(self):
         """ Iterate over all keywords. """
         for keyword in self.meta.findall(CN('meta:keyword')):
-            yield keyword.text
+            yield keyword.text or ''
 
     def __contains__(self, keyword):
         """ True if 'keyword' exists, else False. """
@@ -124,7 +124,7 @@ class Keywords(object):
     def _find(self, keyword):
         """ Find XML element for `keyword`. """
         for tag in self.meta.findall(CN('meta:keyword')):
-            if  keyword == tag.text:
+            if keyword == (tag.text or ''):
                 return tag
         return None
 
@@ -138,7 +138,7 @@ class Usertags(object):
         :returns: (name, value) tuples
         """
         for metatag in self.meta.findall(CN('meta:user-defined')):
-            yield (metatag.get(CN('meta:name')), metatag.text)
+            yield (metatag.get(CN('meta:name')), metatag.text or '')
 
     def __contains__(self, name):
         return self._find(name) is not None
@@ -167,7 +167,7 @@ class Usertags(object):
         """
         tag = self._find(name)
         if tag is not None:
-            return tag.text
+            return tag.text or ''
         raise KeyError(name)
 
     def __delitem__(self, name):
-- 
2.43.0


From e1db9c626434677c343b706332ca19b5f141f71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:24 +0000
Subject: [PATCH 60/62] fix: fields of variables with an empty text have the
 value '' and not None

---
 ezodf/variables.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ezodf/variables.py b/ezodf/variables.py
index 556c46d..69948f4 100644
--- a/ezodf/variables.py
+++ b/ezodf/variables.py
@@ -194,7 +194,7 @@ class SimpleVariableInstance(GenericWrapper):  # {{{1
     def value(self):  # {{{2
         """Gets instavce value"""
         if self.type == 'string':
-            return self.text
+            return self.text or '' # None, if the element is empty
         elif self.type == 'boolean':
             return self.text == 'true'
         elif self.type == 'float':
@@ -271,7 +271,7 @@ class UserFieldInstance(GenericWrapper):  # {{{1
     def value(self):  # {{{2
         """Gets instavce value"""
         if self.type == 'string':
-            return self.text
+            return self.text or '' # None, if the element is empty
         elif self.type == 'boolean':
             return self.text == 'true'
         elif self.type == 'float':
-- 
2.43.0


From 8f2e285ba788eb5e9bbfcc27f33bdb3adaa07e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:38 +0000
Subject: [PATCH 61/62] fix: removing a keyword, which a document lists more
 than once, removes all of them

---
 ezodf/meta.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ezodf/meta.py b/ezodf/meta.py
index c6fba8a..952f179 100644
--- a/ezodf/meta.py
+++ b/ezodf/meta.py
@@ -113,8 +113,9 @@ class Keywords(object):
     def remove(self, keyword):
         """ Remove 'keyword' from meta data. """
         tag = self._find(keyword)
-        if tag is not None:
+        while tag is not None: # documents can list a keyword more than once
             self.meta.remove(tag)
+            tag = self._find(keyword)
 
     def clear(self):
         """ Delete all keywords. """
-- 
2.43.0


From 3e6fdd9d3a61f56704f1a010e4544426392756a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:47 +0000
Subject: [PATCH 62/62] fix: the pages of opened drawings and presentations are
 page objects with a name, also without importing ezodf.drawingpage

---
 ezodf/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ezodf/__init__.py b/ezodf/__init__.py
index 74467d3..b1de450 100644
--- a/ezodf/__init__.py
+++ b/ezodf/__init__.py
@@ -28,6 +28,7 @@ from .whitespaces import LineBreak, Tabulator, Spaces, SoftPageBreak
 from .text import Span, Paragraph, Heading, Section, Hyperlink
 from .text import List, ListHeader, ListItem, NumberedParagraph
 from .table import Table
+from .drawingpage import DrawingPage
 from .cells import Cell
 from .conf import config
 from .variables import SimpleVariables, SimpleVariable
-- 
2.43.0

