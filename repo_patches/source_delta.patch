From 08ec7fb27417b4c20e41e3a72eeef5ef8ff1ef39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:27 +0000
Subject: [PATCH 01/92] fix: load catalogue lists that have no missing values

When no element is masked the mask of a NetCDF variable is a single value,
not an array: lists of lists could not be read and lists of numbers came
back nested one level too deep.
---
 src/eumopps/netcdfobjects/netcdfobjects.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/eumopps/netcdfobjects/netcdfobjects.py b/src/eumopps/netcdfobjects/netcdfobjects.py
index 190c86b..b8f705f 100644
--- a/src/eumopps/netcdfobjects/netcdfobjects.py
+++ b/src/eumopps/netcdfobjects/netcdfobjects.py
@@ -90,7 +90,7 @@ def read_variable(variable):
 
             # Remove any masked ones
             if hasattr(result, 'mask'):
-                result = result.data[~result.mask]
+                result = result.data[~numpy.ma.getmaskarray(result)]
 
             # Convert to list
             result = result.tolist()
@@ -103,7 +103,8 @@ def read_variable(variable):
 
             # Remove any masked per-row and convert to lists
             if hasattr(result, 'mask'):
-                result = [ (result.data[rowindex,~result.mask[rowindex,:]]).tolist() for rowindex in range(variable.shape[0]) ]
+                mask = numpy.ma.getmaskarray(result)
+                result = [ (result.data[rowindex,~mask[rowindex,:]]).tolist() for rowindex in range(variable.shape[0]) ]
             else:
                 result = [ (result[rowindex,:]).tolist() for rowindex in range(variable.shape[0]) ]
 
-- 
2.43.0


From b1ae654cbc80635029a14025d33a25b26bffc0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:27 +0000
Subject: [PATCH 02/92] fix: keep gaps in catalogue lists of numbers and times
 at their position

Elements which are None were dropped on loading, which moved all later values
of the list (for example file sizes or times) to the wrong entry.
---
 src/eumopps/netcdfobjects/netcdfobjects.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/eumopps/netcdfobjects/netcdfobjects.py b/src/eumopps/netcdfobjects/netcdfobjects.py
index b8f705f..d9f829f 100644
--- a/src/eumopps/netcdfobjects/netcdfobjects.py
+++ b/src/eumopps/netcdfobjects/netcdfobjects.py
@@ -88,16 +88,12 @@ def read_variable(variable):
 
         elif variable.ndim == 1:
 
-            # Remove any masked ones
-            if hasattr(result, 'mask'):
-                result = result.data[~numpy.ma.getmaskarray(result)]
-
-            # Convert to list
+            # Convert to list (any masked ones become None, so that every element keeps its position)
             result = result.tolist()
 
             # Convert to datetime if requested
             if ('units' in variable.ncattrs()) and (variable.units == TIMEBASE.units()):
-                result = [ TIMEBASE.number_to_datetime(element) for element in result ]
+                result = [ TIMEBASE.number_to_datetime(element) if (element is not None) else None for element in result ]
 
         elif variable.ndim == 2:
 
-- 
2.43.0


From cb40b9a5efa33dc8f7889f9d39fc0c5516b546f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:45 +0000
Subject: [PATCH 03/92] fix: resolve permitted gaps in data sets which have no
 files at all

An empty subset has no group of matches in the catalogue file, so operations
that allow missing input could not be run.
---
 src/eumopps/catalogue/fileio/formatnetcdf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eumopps/catalogue/fileio/formatnetcdf.py b/src/eumopps/catalogue/fileio/formatnetcdf.py
index ba39403..16ab82d 100644
--- a/src/eumopps/catalogue/fileio/formatnetcdf.py
+++ b/src/eumopps/catalogue/fileio/formatnetcdf.py
@@ -107,10 +107,11 @@ class CatalogueReaderNetCDF(CatalogueReader):
         for ref in reflist:
             dataset = ncfile.groups[netcdfobjects.LISTITEM_OBJECT_SUFFIX.format('datasets', ref.dataset)]
             subset = dataset.groups[netcdfobjects.LISTITEM_OBJECT_SUFFIX.format('subsets', ref.subset)]
-            matches = subset.groups['matches']
             
             # Construct pathname if the entry index is valid, otherwise no match is available in the catalogue
+            # (there is no group of matches at all if the subset is empty)
             if ref.entry>=0:
+                matches = subset.groups['matches']
                 name = str(chartostring(matches.variables['name'][ref.entry, :]))
                 path = dataset.getncattr('path')
                 names.append(os.path.join(path, name))
-- 
2.43.0


From c2cb61ea041adeda2c91371daeca164e72024526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:03 +0000
Subject: [PATCH 04/92] fix: run operations whose run module is a class

Operation.run referred to an undefined name.
---
 src/eumopps/catalogue/operation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eumopps/catalogue/operation.py b/src/eumopps/catalogue/operation.py
index 9a247dd..4446712 100644
--- a/src/eumopps/catalogue/operation.py
+++ b/src/eumopps/catalogue/operation.py
@@ -38,7 +38,7 @@ class Operation(object):
 
         if hasattr(self.runmodule, 'run'):
 
-            return runmodule.run()
+            return self.runmodule.run()
 
         else:
 
-- 
2.43.0


From 139643a4f99a2f8cab90b21b2d441ec6c5670ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:45 +0000
Subject: [PATCH 05/92] fix: times less than a day before the start do not
 belong to the first daily step

The step index was truncated towards zero, so that a file from the day before
the period was used as an input of its first day.
---
 src/eumopps/catalogue/step.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eumopps/catalogue/step.py b/src/eumopps/catalogue/step.py
index 0b86390..d3defa7 100644
--- a/src/eumopps/catalogue/step.py
+++ b/src/eumopps/catalogue/step.py
@@ -4,6 +4,7 @@ from eumopps.timeutils import datetime_numeric
 from eumopps.timeutils.timebase import TimeBaseDays
 from eumopps.catalogue.dataset import CatalogueFileEntry
 import os.path
+import numpy
 from datetime import datetime
 
 class Step(object):
@@ -96,7 +97,7 @@ class StepDaily(Step):
 
     def index_at_time(self, t):
 
-        return int( self.timebase().datetime_to_number(t) )
+        return int( numpy.floor(self.timebase().datetime_to_number(t)) )
 
     def time_at_index(self, operationindex):
 
-- 
2.43.0


From e423c0bf4855b1a571bf07892ee0eb782650c5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:45 +0000
Subject: [PATCH 06/92] fix: load catalogues in which all steps of an operation
 are skipped

Empty lists are left out when saving, so the parameter lists of such an
operation could not be constructed again and the catalogue was unreadable.
---
 src/eumopps/catalogue/operationparameters.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/eumopps/catalogue/operationparameters.py b/src/eumopps/catalogue/operationparameters.py
index 92db459..b531a9c 100644
--- a/src/eumopps/catalogue/operationparameters.py
+++ b/src/eumopps/catalogue/operationparameters.py
@@ -13,10 +13,10 @@ class OperationParameter(object):
 class OperationParameterList(OperationParameter):
     """Base class stored on final catalogues which lists parameters for multiple operations."""
 
-    def __init__(self, operation_parameters):
-        """Initialise with given list."""
+    def __init__(self, operation_parameters=None):
+        """Initialise with given list (empty lists are not stored on catalogue, so default is empty list)."""
 
-        self.operation_parameters = operation_parameters
+        self.operation_parameters = operation_parameters if (operation_parameters is not None) else []
 
     def restrict_to_subset(self, restrict_to_operations):
         """Restrict to specified list of operation indices. 
@@ -38,7 +38,7 @@ class OperationParameterList(OperationParameter):
 class OperationFileReference(OperationParameterList):
     """Intermediate class holding dataset references grouped by step index."""
     
-    def __init__(self, operation_parameters):
+    def __init__(self, operation_parameters=None):
         """Store reference."""
         
         super(OperationFileReference, self).__init__(operation_parameters)
@@ -53,7 +53,7 @@ class OperationFileReference(OperationParameterList):
 class OperationFileListReference(OperationParameterList):
     """Intermediate class holding dataset references grouped by step index."""
     
-    def __init__(self, operation_parameters):
+    def __init__(self, operation_parameters=None):
         """Store reference."""
         
         super(OperationFileListReference, self).__init__(operation_parameters)
-- 
2.43.0


From 661b12f7a27ee521fb1535613cd3103b95b2a98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:03 +0000
Subject: [PATCH 07/92] fix: never run an operation for an index which is out
 of range

Negative indices counted from the end of the list, operations without
per-step parameters ran for any index, and the tail end of the last batch
was an error where it is meant to be allowed.
---
 src/eumopps/catalogue/commandrun.py          | 2 +-
 src/eumopps/catalogue/multiplecommandsrun.py | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/eumopps/catalogue/commandrun.py b/src/eumopps/catalogue/commandrun.py
index 9ee93a4..92040de 100644
--- a/src/eumopps/catalogue/commandrun.py
+++ b/src/eumopps/catalogue/commandrun.py
@@ -30,7 +30,7 @@ def commandrun(timestamp, cataloguepathname, operationname, index, use_batch_siz
     # this lists all inputs - must filter down to just this command
     operation = CatalogueReaderNetCDF().load_operation(cataloguepathname, operationname)
 
-    if operation is not None:
+    if (operation is not None) and (operationindex >= 0) and (operationindex < operation.count):
 
         # The toolchain member of operation object is the one just loaded from catalogue
         catalogue_toolchain = operation.toolchain
diff --git a/src/eumopps/catalogue/multiplecommandsrun.py b/src/eumopps/catalogue/multiplecommandsrun.py
index 6c8b7a8..684b3e0 100644
--- a/src/eumopps/catalogue/multiplecommandsrun.py
+++ b/src/eumopps/catalogue/multiplecommandsrun.py
@@ -28,7 +28,9 @@ def multiple_commands_run(timestamp, cataloguepathname, outeroperationmethod, in
 	list_of_daily_inputs = []
 	for operationindex in range(batch_size):
 	    daily_inputs = commandrun(timestamp, cataloguepathname, inneroperationname, operationindex, batch_size, batch, False, allow_toolchain_mismatch)  
-	    list_of_daily_inputs.append(daily_inputs)
+	    # there is nothing to append if out of range (at tail end of last batch)
+	    if daily_inputs is not None:
+	        list_of_daily_inputs.append(daily_inputs)
 		
 	[ modulename, functionname ] = outeroperationmethod.rsplit('.', 1)
 	run_module = importlib.import_module(modulename)
-- 
2.43.0


From 17cc4306d18de8b0dbc7012a44e964db34b2ed91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:03 +0000
Subject: [PATCH 08/92] fix: count operations for cylc suites

The catalogue reader has no quickcount method and the name of the method to
get the required cycle points was misspelt.
---
 src/eumopps/catalogue/jinja/batches.py      | 4 ++--
 src/eumopps/catalogue/jinja/eumopps_cylc.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/eumopps/catalogue/jinja/batches.py b/src/eumopps/catalogue/jinja/batches.py
index b51d410..0c10988 100644
--- a/src/eumopps/catalogue/jinja/batches.py
+++ b/src/eumopps/catalogue/jinja/batches.py
@@ -17,12 +17,12 @@ class BatchSpecification(object):
     def operation_count(self):
         """Query catalogue to find operations."""
 
-        return CatalogueReaderNetCDF().quickcount(self.catalogue, self.modulename, 'operations')
+        return CatalogueReaderNetCDF().operationcount(self.catalogue, self.modulename)
 
     def cycle_points_required(self):
         """Get cycle points required to cover required operations, assuming number of operations per cycle point is self.batchsize."""
 
-        return CatalogueReaderNetCDF().quickcount(self.catalogue, self.modulename, 'operations', batchsize=self.batchsize)
+        return CatalogueReaderNetCDF().operationcount(self.catalogue, self.modulename, batchsize=self.batchsize)
 
     def scheduling(self):
         """String for scheduling item."""
diff --git a/src/eumopps/catalogue/jinja/eumopps_cylc.py b/src/eumopps/catalogue/jinja/eumopps_cylc.py
index b4f0a8d..28d8ce0 100644
--- a/src/eumopps/catalogue/jinja/eumopps_cylc.py
+++ b/src/eumopps/catalogue/jinja/eumopps_cylc.py
@@ -11,7 +11,7 @@ def eumopps_cylc(config, methodname, modulename=None):
 
 def eumopps_cycle_points_required(specs):
     
-    return BatchSpecificationCollection(specs).cyle_points_required()
+    return BatchSpecificationCollection(specs).cycle_points_required()
 
 def eumopps_initial_cycle_point(specs):
 
-- 
2.43.0


From c766fe4f5cabe763340dee270ff4acd73afd5b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:40 +0000
Subject: [PATCH 09/92] fix: keep zero, false and empty members of objects
 saved as JSON

Members with such values were left out, so that the reloaded object had the
defaults of its constructor instead.
---
 src/eumopps/jsonobjects/jsonobjects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eumopps/jsonobjects/jsonobjects.py b/src/eumopps/jsonobjects/jsonobjects.py
index 8c64643..18d88ef 100644
--- a/src/eumopps/jsonobjects/jsonobjects.py
+++ b/src/eumopps/jsonobjects/jsonobjects.py
@@ -26,7 +26,7 @@ def save_object(obj):
     if hasattr(obj, '__dict__'):
 
         # Make dictionary of all class items and recurse if needed
-        result = dict((k, save_object(v)) for k, v in obj.__dict__.iteritems() if v)
+        result = dict((k, save_object(v)) for k, v in obj.__dict__.iteritems() if v is not None)
     
         # Append class name and module so we can recreate
         result[CLASSID] = get_class_id(obj)
-- 
2.43.0


From f2da0eb2f14646d6c4f3d30d872500b1746bf09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:40 +0000
Subject: [PATCH 10/92] fix: save lists of string lists which are members of a
 single object

For example the unused contents of archives in a data subset: saving such a
catalogue failed because the same dimension was created twice.
---
 src/eumopps/netcdfobjects/netcdfobjects.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/eumopps/netcdfobjects/netcdfobjects.py b/src/eumopps/netcdfobjects/netcdfobjects.py
index d9f829f..cbf755a 100644
--- a/src/eumopps/netcdfobjects/netcdfobjects.py
+++ b/src/eumopps/netcdfobjects/netcdfobjects.py
@@ -506,10 +506,13 @@ def save_string_list2d(group, membername, array2d, dimensionname):
     # Name used to store length of strings
     lengthname = STRING_LENGTH_DIMENSION_FORMAT.format(membername)
 
+    # The leading dimension may already have the name of the member
+    dimensionname2 = membername if (membername != dimensionname) else membername + "2"
+
     # Build new variable
-    group.createDimension(membername, max([ len(element) if element else 0 for element in array2d]))
+    group.createDimension(dimensionname2, max([ len(element) if element else 0 for element in array2d]))
     group.createDimension(lengthname, max_length)
-    group.createVariable(membername, 'S1', [dimensionname, membername, lengthname])
+    group.createVariable(membername, 'S1', [dimensionname, dimensionname2, lengthname])
 
     # populate contents
     for index, element in enumerate(array2d):
-- 
2.43.0


From 66317e164fc35f76d46b7b622d63ff069088bf1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:40 +0000
Subject: [PATCH 11/92] fix: save times which are members of an object that has
 other objects as members

---
 src/eumopps/netcdfobjects/netcdfobjects.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/eumopps/netcdfobjects/netcdfobjects.py b/src/eumopps/netcdfobjects/netcdfobjects.py
index cbf755a..71a9e07 100644
--- a/src/eumopps/netcdfobjects/netcdfobjects.py
+++ b/src/eumopps/netcdfobjects/netcdfobjects.py
@@ -280,9 +280,7 @@ def save_simple_python_object(parentgroup, itemname, item):
         elif is_type(subvalue, DATETIME_TYPES):
 
             # Special case for saving single date value (because must save units)
-            newvariable = subgroup.createVariable(varname=subkey, datatype='i8')
-            newvariable[:] = TIMEBASE.datetime_to_number(subvalue)
-            newvariable.units = TIMEBASE.units()
+            save_datetime(subgroup, subkey, subvalue)
 
         elif is_type(subvalue, SIMPLE_TYPES):
 
@@ -365,6 +363,11 @@ def save_object(group, key, value):
         # Just skip None values or empty lists
         pass
 
+    elif is_type(value, DATETIME_TYPES):
+
+        # Special case for saving single date value (because must save units)
+        save_datetime(group, key, value)
+
     elif is_type(value, SIMPLE_TYPES):
 
         # Set an individual value attribute
@@ -457,6 +460,12 @@ def save_numeric_list(group, membername, outputlist, dimensionname, dtype):
         mask=[ element is None for element in outputlist ],
         dtype=dtype)
 
+def save_datetime(group, membername, value):
+
+    newvariable = group.createVariable(varname=membername, datatype='i8')
+    newvariable[:] = TIMEBASE.datetime_to_number(value)
+    newvariable.units = TIMEBASE.units()
+
 def save_datetime_list(group, membername, outputlist, dimensionname):
 
     newvariable = group.createVariable(membername, numpy.int64, [ dimensionname ])
-- 
2.43.0


From 90ec74d26794453f631189f2b3686df1905ad70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:40 +0000
Subject: [PATCH 12/92] fix: keep gaps inside rows of numbers at their position

Also allow several members with rows of different length in a list of objects.
---
 src/eumopps/netcdfobjects/netcdfobjects.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/eumopps/netcdfobjects/netcdfobjects.py b/src/eumopps/netcdfobjects/netcdfobjects.py
index 71a9e07..9a6dd9c 100644
--- a/src/eumopps/netcdfobjects/netcdfobjects.py
+++ b/src/eumopps/netcdfobjects/netcdfobjects.py
@@ -97,12 +97,11 @@ def read_variable(variable):
 
         elif variable.ndim == 2:
 
-            # Remove any masked per-row and convert to lists
-            if hasattr(result, 'mask'):
-                mask = numpy.ma.getmaskarray(result)
-                result = [ (result.data[rowindex,~mask[rowindex,:]]).tolist() for rowindex in range(variable.shape[0]) ]
-            else:
-                result = [ (result[rowindex,:]).tolist() for rowindex in range(variable.shape[0]) ]
+            # Convert to lists without the masked elements at end of row
+            # (any other masked ones become None, so that every element keeps its position)
+            mask = numpy.ma.getmaskarray(result)
+            rowlengths = [ max(numpy.nonzero(~mask[rowindex,:])[0].tolist() or [ -1 ]) + 1 for rowindex in range(variable.shape[0]) ]
+            result = [ result[rowindex,:rowlength].tolist() for rowindex, rowlength in enumerate(rowlengths) ]
 
     else:
 
@@ -537,7 +536,7 @@ def save_numeric_list2d(group, membername, array2d, dimensionname, dtype):
 
     numrows = len(array2d)
     maxcols = max([ len(element) if element else 0 for element in array2d])
-    dimensionname2 = dimensionname + "2"
+    dimensionname2 = membername + "2"
     group.createDimension(dimensionname2, maxcols)
     newvariable = group.createVariable(membername, dtype, [ dimensionname, dimensionname2 ])
     contents = numpy.ma.masked_all((numrows, maxcols), dtype=dtype)
-- 
2.43.0


From 1a78cc9dc6da78dd23ddbb46b62a60d64a065053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:40 +0000
Subject: [PATCH 13/92] fix: save lists of objects which differ in class or
 members

All of them were stored as if they had the class and the members of the first one.
---
 src/eumopps/netcdfobjects/netcdfobjects.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/eumopps/netcdfobjects/netcdfobjects.py b/src/eumopps/netcdfobjects/netcdfobjects.py
index 9a6dd9c..3d6e0f1 100644
--- a/src/eumopps/netcdfobjects/netcdfobjects.py
+++ b/src/eumopps/netcdfobjects/netcdfobjects.py
@@ -249,7 +249,20 @@ def is_simple_python_object(x):
 
 def is_list_of_simple_python_objects(x):
 
-    return isinstance(x, list) and all([ (element is None) or is_simple_python_object(element) for element in x ])
+    return isinstance(x, list) and all([ is_simple_python_object(element) for element in x ]) and is_uniform_list(x)
+
+def is_uniform_list(x):
+    """Establish whether all objects have same class and same members (of compatible types),
+       which is required in order to store each member of all of them as one array variable."""
+
+    if any([ (element.__class__ is not x[0].__class__) or (set(object_dictionary(element)) != set(object_dictionary(x[0]))) for element in x ]):
+        return False
+
+    columns = [ [ object_dictionary(element)[key] for element in x ] for key in object_dictionary(x[0]) ] if x else [ ]
+    return all([ is_list_of(column, SIMPLE_TYPES) or \
+                     is_list2d_of(column, STRING_TYPES) or \
+                     is_list2d_of(column, INTEGER_TYPES) or \
+                     is_list2d_of(column, FLOAT_TYPES) for column in columns ])
 
 def is_list_of_python_objects(x):
 
-- 
2.43.0


From c97ca893bb5ee21d39194517b81fbaadad30d92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:33 +0000
Subject: [PATCH 14/92] fix: restrict a catalogue build to the data set
 requested by the filter option

---
 src/eumopps/catalogue/build.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eumopps/catalogue/build.py b/src/eumopps/catalogue/build.py
index 86255f3..80b5d1f 100644
--- a/src/eumopps/catalogue/build.py
+++ b/src/eumopps/catalogue/build.py
@@ -48,7 +48,7 @@ def build(inputcatalogue, cataloguefilename, update=False, dataset_filter=None,
             raise ValueError('requested dataset \"{0}\" not found'.format(dataset_filter))
 
         # Restrict to requested
-        inputcatalogue.datasets = [ inputcatalogue.dataset[datasetindex] ]
+        inputcatalogue.datasets = [ inputcatalogue.datasets[datasetindex] ]
 
     # search for data and compute checksums
     for dataset in inputcatalogue.datasets:
-- 
2.43.0


From f8bcc57b3b39b95a8e1b904054503c9e465156e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:33 +0000
Subject: [PATCH 15/92] fix: keep the existing catalogue until its replacement
 is complete

The catalogue was overwritten in place, so that an error or interruption while
saving (for example when updating) destroyed it.
---
 src/eumopps/catalogue/fileio/formatnetcdf.py | 29 +++++++++++++++++---
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/eumopps/catalogue/fileio/formatnetcdf.py b/src/eumopps/catalogue/fileio/formatnetcdf.py
index 16ab82d..aead55a 100644
--- a/src/eumopps/catalogue/fileio/formatnetcdf.py
+++ b/src/eumopps/catalogue/fileio/formatnetcdf.py
@@ -6,11 +6,13 @@ from reader import CatalogueReader
 from writer import CatalogueWriter
 from eumopps.catalogue.datareference import reference_integers_to_list
 from netCDF4 import chartostring
+import os
 import os.path
 
 ATTRIBUTE_IDENTIFIER = 'identifier'
 DATASETS_LIST_NAME = 'datasets'
 OPERATIONS_LIST_NAME = 'operations'
+TEMPORARY_SUFFIX = '.incomplete'
 
 class CatalogueReaderNetCDF(CatalogueReader):
     """Define class to encapsulate this reading operation."""
@@ -131,9 +133,28 @@ class CatalogueWriterNetCDF(CatalogueWriter):
         super(CatalogueWriterNetCDF, self).__init__()
 
     def save(self, pathname, catalogue):
-        """Save specified catalogue."""
+        """Save specified catalogue.
+           The existing file (if any) is only replaced once the new one is complete."""
 
-        ncfile = netcdfobjects.nc_open_for_save(pathname)
-        netcdfobjects.save_complex_python_object(ncfile, item=catalogue, membername=None)
-        ncfile.close()
+        # Write to temporary file in same directory
+        temporaryname = pathname + TEMPORARY_SUFFIX
+
+        try:
+
+            ncfile = netcdfobjects.nc_open_for_save(temporaryname)
+
+            try:
+                netcdfobjects.save_complex_python_object(ncfile, item=catalogue, membername=None)
+            finally:
+                ncfile.close()
+
+            os.rename(temporaryname, pathname)
+
+        except Exception:
+
+            # Do not leave incomplete information behind
+            if os.path.exists(temporaryname):
+                os.remove(temporaryname)
+
+            raise
     
-- 
2.43.0


From 8baa6f08b737e3cbf3f39417a1a897d0ce89bac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:37 +0000
Subject: [PATCH 16/92] fix: never start more than the maximum number of
 checksum threads

For example 127 files were split between 127 threads instead of 64.
---
 src/eumopps/catalogue/dataset.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/eumopps/catalogue/dataset.py b/src/eumopps/catalogue/dataset.py
index 6c585cd..a461d12 100644
--- a/src/eumopps/catalogue/dataset.py
+++ b/src/eumopps/catalogue/dataset.py
@@ -81,14 +81,11 @@ class CatalogueDataSubset(object):
     def compute_checksum_thread_indices(total_matches, numthreads):
         """Indices used to split processing for multi-threaded computation of checksum."""
 
-        if total_matches == 0:
-            return [ ]
-        step = total_matches / numthreads
-        if step < 1:
-            step = 1
-        thread_indices = [(start, start + step) for start in range(0, (total_matches / step) * step, step)]
-        thread_indices[-1] = (thread_indices[-1][0], total_matches)
-        return thread_indices
+        # Never more threads than matches
+        numthreads = min(numthreads, total_matches)
+
+        # Split into ranges of similar size
+        return [((index * total_matches) / numthreads, ((index + 1) * total_matches) / numthreads) for index in range(numthreads)]
 
     def compute_checksum(self, datasetpath):
         """Compute checksums on all matching files.
-- 
2.43.0


From 585312880b6bea9a006ed0b3cc376df0ed944c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:49 +0000
Subject: [PATCH 17/92] fix: distinguish directories whose tags differ but are
 the same when concatenated

Files in such directories were matched using the tags of another directory.
---
 src/eumopps/catalogue/namepatterns.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eumopps/catalogue/namepatterns.py b/src/eumopps/catalogue/namepatterns.py
index 660a51f..8322a72 100644
--- a/src/eumopps/catalogue/namepatterns.py
+++ b/src/eumopps/catalogue/namepatterns.py
@@ -70,8 +70,8 @@ def hash_string_list(values):
 
 
 def hash_string_dictionary(d):
-    """Create one hashkey corresponding to an entire dictionary."""
-    return hash_string_list(d.values() if d else [])
+    """Create one hashkey corresponding to an entire dictionary (different for dictionaries which differ in any value)."""
+    return repr(sorted(d.items())) if d else ''
 
 
 class NameCandidate(object):
-- 
2.43.0


From 6cb01366e93a23c6ff2d2e1e85d7d51fa5dbd949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:49 +0000
Subject: [PATCH 18/92] fix: allow the same field more than once in a name
 pattern and take known values literally

For example ga/fs/%Y/%m/%d/gafs%Y%m%d%H%M.nc was not accepted, and a tag such
as v1.0 in the directory name also matched v1x0 in the file name.
---
 src/eumopps/catalogue/namepatterns.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/eumopps/catalogue/namepatterns.py b/src/eumopps/catalogue/namepatterns.py
index 8322a72..5836ce2 100644
--- a/src/eumopps/catalogue/namepatterns.py
+++ b/src/eumopps/catalogue/namepatterns.py
@@ -51,12 +51,16 @@ def make_search_expression(pattern, knownvalues):
     result = result.replace('?', '.')  # question marks match any character
     for key, subs in EXPRESSION_SUBSTITUTES.iteritems():
         lookupkey = '%' + key
-        result = result.replace(lookupkey, knownvalues[subs[0]]
-                                if subs[0] in knownvalues else '(?P<' + subs[0] + '>' + subs[1] + ')')
+        if subs[0] in knownvalues:
+            result = result.replace(lookupkey, re.escape(knownvalues[subs[0]]))
+        else:
+            # first occurrence defines the value and any others must have same value
+            result = result.replace(lookupkey, '(?P<' + subs[0] + '>' + subs[1] + ')', 1)
+            result = result.replace(lookupkey, '(?P=' + subs[0] + ')')
     for subs in TAG_FIELDS:
         lookup_lowercase_subs = '%' + subs.lower()
         if subs in knownvalues:
-            result = result.replace(lookup_lowercase_subs, knownvalues[subs].lower())
+            result = result.replace(lookup_lowercase_subs, re.escape(knownvalues[subs].lower()))
     # print '\n\npattern: ', result, '\n\n'
     return result
 
-- 
2.43.0


From b926061d867d2c366a517adca090571fd03f04cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:37 +0000
Subject: [PATCH 19/92] fix: express microseconds as part of a day in
 TimeBaseDays

---
 src/eumopps/timeutils/timebase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eumopps/timeutils/timebase.py b/src/eumopps/timeutils/timebase.py
index 29ca676..e01f639 100644
--- a/src/eumopps/timeutils/timebase.py
+++ b/src/eumopps/timeutils/timebase.py
@@ -53,7 +53,7 @@ class TimeBaseDays(TimeBase):
     def datetime_to_number(self, d):
         """Convert datetime object to a floating point or integer number."""
         td = d - self.epoch
-        return float(td.days) + (float(td.seconds) / 86400.0) + (float(td.microseconds) / 1000000.0)
+        return float(td.days) + (float(td.seconds) / 86400.0) + (float(td.microseconds) / 86400000000.0)
 
     def number_to_datetime(self, n):
         """Convert number to datetime object."""
-- 
2.43.0


From d0501d8955075d08fea5c94731869eac9519e5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:37 +0000
Subject: [PATCH 20/92] fix: keep the last seconds of a year or month in that
 year or month

---
 src/eumopps/timeutils/timebase.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/eumopps/timeutils/timebase.py b/src/eumopps/timeutils/timebase.py
index e01f639..5d8e05f 100644
--- a/src/eumopps/timeutils/timebase.py
+++ b/src/eumopps/timeutils/timebase.py
@@ -131,10 +131,10 @@ class TimeBaseAnnual(TimeBase):
         year_end = datetime(d.year + 1, 1, 1)
 
         # Seconds since start of year
-        t_seconds = float32( (d - year_start).total_seconds() )
+        t_seconds = float( (d - year_start).total_seconds() )
 
         # Total seconds in this year
-        total_seconds = float32( (year_end - year_start).total_seconds() )
+        total_seconds = float( (year_end - year_start).total_seconds() )
         
         return t_seconds / total_seconds
 
@@ -161,7 +161,7 @@ class TimeBaseAnnual(TimeBase):
         
         # Convert year_fraction to seconds
         year_end = datetime(self.epoch.year + int( numpy.floor(n) ) + 1, 1, 1)        
-        total_seconds_in_year = float32( (year_end - year_start).total_seconds() )
+        total_seconds_in_year = float( (year_end - year_start).total_seconds() )
         
         elapsed_seconds_this_year = year_fraction * total_seconds_in_year
         
@@ -208,10 +208,10 @@ class TimeBaseMonthly(TimeBase):
         year_end = datetime(d.year + 1, 1, 1)
 
         # Seconds since start of year
-        t_seconds = float32( (d - year_start).total_seconds() )
+        t_seconds = float( (d - year_start).total_seconds() )
 
         # Total seconds in this year
-        total_seconds = float32( (year_end - year_start).total_seconds() )
+        total_seconds = float( (year_end - year_start).total_seconds() )
         
         return t_seconds / total_seconds
 
@@ -226,10 +226,10 @@ class TimeBaseMonthly(TimeBase):
         month_end = month_start+relativedelta(months=1)
 
         # Seconds since start of month
-        t_seconds = float32( (d - month_start).total_seconds() )
+        t_seconds = float( (d - month_start).total_seconds() )
 
         # Total seconds in this month
-        total_seconds = float32( (month_end - month_start).total_seconds() )
+        total_seconds = float( (month_end - month_start).total_seconds() )
         
         return t_seconds / total_seconds
 
@@ -245,7 +245,7 @@ class TimeBaseMonthly(TimeBase):
         # Get datetime for the month's start and the total number of seconds in the month
         month_start = self.epoch + relativedelta(months=int(numpy.floor(n)))
         month_end   = month_start + relativedelta(months=1)
-        total_seconds_in_month = float32( (month_end - month_start).total_seconds() )
+        total_seconds_in_month = float( (month_end - month_start).total_seconds() )
         
         # Get the time elapsed since the start of the month
         elapsed_fraction_of_month = n - numpy.floor(n)
-- 
2.43.0


From ba7f4d32845e1bbb50b7f3280ff7b5cf544f775f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:37 +0000
Subject: [PATCH 21/92] fix: times on the day before the epoch are not in the
 first step of StepDailyEpoch

---
 src/eustace/analysis/advanced_standard/fileio/step.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eustace/analysis/advanced_standard/fileio/step.py b/src/eustace/analysis/advanced_standard/fileio/step.py
index a0cad7e..aa2e0b2 100644
--- a/src/eustace/analysis/advanced_standard/fileio/step.py
+++ b/src/eustace/analysis/advanced_standard/fileio/step.py
@@ -6,6 +6,7 @@ from eumopps.timeutils.timebase import TimeBaseDays
 from eumopps.catalogue.dataset import CatalogueFileEntry
 from eustace.timeutils.epoch import EPOCH
 import os.path
+import numpy
 from datetime import datetime
 
 class StepDailyEpoch(StepDaily):
@@ -41,7 +42,7 @@ class StepDailyEpoch(StepDaily):
         return name
         
     def index_at_time(self, t):
-        return int( self.timebase().datetime_to_number(t) )
+        return int( numpy.floor(self.timebase().datetime_to_number(t)) )
 
     def time_at_index(self, operationindex):
         return self.timebase().number_to_datetime(operationindex)
\ No newline at end of file
-- 
2.43.0


From 85bcd352c30bf98dc248e586095b99a425271c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:37 +0000
Subject: [PATCH 22/92] fix: make day numbers independent of the local time
 zone

---
 src/cpp/eustace/timeutils/timebase.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cpp/eustace/timeutils/timebase.cpp b/src/cpp/eustace/timeutils/timebase.cpp
index 7fdc026..0af469a 100644
--- a/src/cpp/eustace/timeutils/timebase.cpp
+++ b/src/cpp/eustace/timeutils/timebase.cpp
@@ -11,7 +11,7 @@ namespace EUSTACE
     tm_year = year - 1900;
     tm_mon = month - 1;
     tm_mday = day; 
-    mktime(this);
+    timegm(this);
   }
 
   CalendarDay::CalendarDay(const std::string& str)
@@ -39,14 +39,14 @@ namespace EUSTACE
     std::tm t0 = epoch;
     std::tm t1 = time;
 
-    return std::difftime(std::mktime(&t1), std::mktime(&t0)) / 86400;
+    return std::difftime(timegm(&t1), timegm(&t0)) / 86400;
   }
 
   std::tm TimeBaseDays::Time(int64_t daynumber) const
   {
     std::tm epoch_offset = epoch;
     epoch_offset.tm_mday += daynumber;
-    mktime(&epoch_offset);
+    timegm(&epoch_offset);
     return epoch_offset;
   }
 }
-- 
2.43.0


From fa99a2e5b34b3b19debfa870aaab4e78e0584379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:50 +0000
Subject: [PATCH 23/92] fix: a day without observations adds no evidence to a
 space-time component

---
 src/eustace/analysis/advanced_standard/analysissystem.py     | 4 ++++
 .../analysis/advanced_standard/components/spacetime.py       | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/src/eustace/analysis/advanced_standard/analysissystem.py b/src/eustace/analysis/advanced_standard/analysissystem.py
index 6476cca..b9f2901 100644
--- a/src/eustace/analysis/advanced_standard/analysissystem.py
+++ b/src/eustace/analysis/advanced_standard/analysissystem.py
@@ -78,6 +78,10 @@ class AnalysisSystem(object):
         component = self.components[component_index]
         component_solution = component.component_solution()
 
+        # Time index is needed also when there turn out to be no observations
+        if isinstance(component, SpaceTimeComponent):
+            component_solution.measurement_time_index = time_index
+
         for inputloader in inputloaders:
             
             # Load input
diff --git a/src/eustace/analysis/advanced_standard/components/spacetime.py b/src/eustace/analysis/advanced_standard/components/spacetime.py
index 8344733..ef32dbc 100644
--- a/src/eustace/analysis/advanced_standard/components/spacetime.py
+++ b/src/eustace/analysis/advanced_standard/components/spacetime.py
@@ -145,6 +145,11 @@ class SpaceTimeComponentSolution(ComponentSolution):
 
     def update_time_step(self):
 
+        # No observations at this time: no evidence to add
+        if self.measurement is None:
+            prior = self.element.element_prior(self.hyperparameters)
+            self.measurement = MeasurementUpdate.create_blank(prior.prior_number_of_state_parameters())
+
         self.solutionstorage.measurement_write(self.measurement, self.measurement_time_index)
         self.measurement = None
         self.measurement_time_index = None
-- 
2.43.0


From d5c02e46891bb7c37fa522eadac42f8fdbcafe8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:50 +0000
Subject: [PATCH 24/92] fix: merging measurement updates leaves the stored ones
 unchanged

---
 src/eustace/analysis/advanced_standard/components/spacetime.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eustace/analysis/advanced_standard/components/spacetime.py b/src/eustace/analysis/advanced_standard/components/spacetime.py
index ef32dbc..afb3d42 100644
--- a/src/eustace/analysis/advanced_standard/components/spacetime.py
+++ b/src/eustace/analysis/advanced_standard/components/spacetime.py
@@ -12,6 +12,7 @@ from eustace.analysis.advanced_standard.linalg.linearsystem import LinearSystemS
 from eustace.analysis.advanced_standard.linalg.linearsystem import LinearSystemSolution_CG
 from eustace.analysis.advanced_standard.linalg.linearsystem import MeasurementUpdate
 
+import copy
 import os
 import psutil
 import sys
@@ -254,7 +255,7 @@ class SpaceTimeComponentSolution(ComponentSolution):
             update = self.solutionstorage.measurement_read(time_index)
 
             if merged_updates is None:
-                merged_updates = update
+                merged_updates = copy.deepcopy(update)
             else:
                 merged_updates.append_measurement_update(update)
 
-- 
2.43.0


From 31f3518854f56295dd57d19866d94adb68d0853f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:11 +0000
Subject: [PATCH 25/92] fix: samples and nonlinear updates of delayed spatial
 components

---
 .../components/spatialdelayed.py              | 11 ++++---
 .../components/storage_files.py               | 32 ++++++++++++-------
 2 files changed, 26 insertions(+), 17 deletions(-)

diff --git a/src/eustace/analysis/advanced_standard/components/spatialdelayed.py b/src/eustace/analysis/advanced_standard/components/spatialdelayed.py
index 18512ab..0c829dd 100644
--- a/src/eustace/analysis/advanced_standard/components/spatialdelayed.py
+++ b/src/eustace/analysis/advanced_standard/components/spatialdelayed.py
@@ -29,7 +29,8 @@ class DelayedSpatialComponent(SpaceTimeComponent):
     
     def __init__(self, storage, solutionstorage, printstats=False, compute_uncertainties = False, method='EXACT', compute_sample=False, sample_size=1):
 
-        super(DelayedSpatialComponent, self).__init__(storage, solutionstorage, printstats = printstats, compute_uncertainties = compute_uncertainties, method=method)
+        super(DelayedSpatialComponent, self).__init__(storage, solutionstorage, printstats = printstats, compute_uncertainties = compute_uncertainties, method=method,
+                                                      compute_sample=compute_sample, sample_size=sample_size)
         
     def component_solution(self):
         
@@ -138,7 +139,7 @@ class DelayedSpatialComponentSolution(SpaceTimeComponentSolution):
             if self.element.isnonlinear():
 
                 # For nonlinear system this is an offset versus linearisation point
-                new_state_estimate = state_update + numpy.squeeze(self.solutionstorage.partial_state_read())
+                new_state_estimate = state_update + numpy.squeeze(self.solutionstorage.partial_state_read(time_index))
 
             else:
 
@@ -157,8 +158,8 @@ class DelayedSpatialComponentSolution(SpaceTimeComponentSolution):
                     self.solutionstorage.partial_state_marginal_std_write(marginal_std, time_index)
                     
             if self.compute_sample:
-                sample = numpy.squeeze(solution.random_sample(self.sample_size))
-                self.solutionstorage.state_sample_write(sample, time_index)
+                sample = solution.random_sample(self.sample_size)
+                self.solutionstorage.partial_state_sample_write(sample, time_index)
   
     def solution_observation_expected_value(self, observations):
 
@@ -202,7 +203,7 @@ class DelayedSpatialComponentSolution(SpaceTimeComponentSolution):
         time_index = observations.time_index()
 
         # Attempt to retrieve solution
-        state = self.solutionstorage.state_sample_read(time_index)
+        state = self.solutionstorage.partial_state_sample_read(time_index)
         
         # Return zeros if can't find it
         if state is None:
diff --git a/src/eustace/analysis/advanced_standard/components/storage_files.py b/src/eustace/analysis/advanced_standard/components/storage_files.py
index 265a0ec..1c5b0a7 100644
--- a/src/eustace/analysis/advanced_standard/components/storage_files.py
+++ b/src/eustace/analysis/advanced_standard/components/storage_files.py
@@ -289,6 +289,12 @@ class DelayedSpatialComponentSolutionStorage_Files(SpaceTimeComponentSolutionSto
     def partial_state_marginal_std_read(self, time_index):
         return self.state_marginal_std_read(time_index)
 
+    def partial_state_sample_write(self, sample, time_index):
+        return self.state_sample_write(sample, time_index)
+
+    def partial_state_sample_read(self, time_index):
+        return self.state_sample_read(time_index)
+
     def state_write(self, state, state_key):
 
         if self.statefiledictionary_write is None:
@@ -311,13 +317,13 @@ class DelayedSpatialComponentSolutionStorage_Files(SpaceTimeComponentSolutionSto
 
     def state_sample_write(self, sample, state_key):
 
-        if self.samplefiledictionary_write is None:
+        if self.sample_filedictionary_write is None:
             raise ValueError('no state write file specified')
 
-        if state_key not in self.samplefiledictionary_write:
+        if state_key not in self.sample_filedictionary_write:
             raise ValueError('time key mismatch')
 
-        writepickle(state, self.samplefiledictionary_write[state_key])
+        writepickle(sample, self.sample_filedictionary_write[state_key])
 
     def state_read(self, state_key):
         
@@ -341,12 +347,14 @@ class DelayedSpatialComponentSolutionStorage_Files(SpaceTimeComponentSolutionSto
 
     def state_sample_read(self, state_key):
         
-        if self.samplefiledictionary_read is None:
+        if self.sample_filedictionary_read is None:
             return None
 
-        if state_key not in self.samplefiledictionary_read:
+        if state_key not in self.sample_filedictionary_read:
             return None #raise ValueError('time key mismatch')
 
+        return readpickle(self.sample_filedictionary_read[state_key])
+
     def measurement_write(self, measurement, measurement_key):
 
         if self.measurementfiledictionary_write is None:
@@ -471,8 +479,8 @@ class DelayedSpatialComponentSolutionStorageFlexible_Files(SpaceTimeComponentSol
     def state_sample_read(self, sample_key):
         return self.file_read( self.sample_read_pattern, sample_key )
 
-    def prior_state_sample_read(self, sample, sample_key):
-        self.file_write(sample, self.prior_sample_read_pattern, sample_key)
+    def prior_state_sample_read(self, sample_key):
+        return self.file_read(self.prior_sample_read_pattern, sample_key)
 
     def measurement_read(self, measurement_key):
         return self.file_read(self.measurement_read_pattern, measurement_key)
@@ -492,14 +500,14 @@ class DelayedSpatialComponentSolutionStorageFlexible_Files(SpaceTimeComponentSol
     def partial_state_marginal_std_read(self, std_key):
         return self.state_marginal_std_read(std_key)
         
-    def partial_state_sample_write(self, sample_key):
-        return self.state_sample_write(sample_key)
+    def partial_state_sample_write(self, sample, sample_key):
+        return self.state_sample_write(sample, sample_key)
     
     def partial_state_sample_read(self, sample_key):
         return self.state_sample_read(sample_key)
         
-    def partial_state_prior_sample_write(self, sample_key):
-        return self.prior_state_sample_write(sample_key)
+    def partial_state_prior_sample_write(self, sample, sample_key):
+        return self.prior_state_sample_write(sample, sample_key)
     
     def partial_state_prior_sample_read(self, sample_key):
-        return self.prior_state_sample_write(sample_key)
+        return self.prior_state_sample_read(sample_key)
-- 
2.43.0


From 3ac06f457dbe1178a91432d416b664f8e215ed4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:34 +0000
Subject: [PATCH 26/92] fix: keep the state of a nonlinear space-time component
 a vector

---
 src/eustace/analysis/advanced_standard/components/spacetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eustace/analysis/advanced_standard/components/spacetime.py b/src/eustace/analysis/advanced_standard/components/spacetime.py
index afb3d42..d2ad556 100644
--- a/src/eustace/analysis/advanced_standard/components/spacetime.py
+++ b/src/eustace/analysis/advanced_standard/components/spacetime.py
@@ -212,7 +212,7 @@ class SpaceTimeComponentSolution(ComponentSolution):
             if self.element.isnonlinear():
 
                 # For nonlinear system this is an offset versus linearisation point
-                new_state_estimate = state_update + self.solutionstorage.state_read()
+                new_state_estimate = numpy.ravel(state_update) + numpy.ravel(self.solutionstorage.state_read())
 
             else:
 
-- 
2.43.0


From 6df1cc7f259a1ae8da65eb6542630d4ba2989937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:46 +0000
Subject: [PATCH 27/92] fix: report a matrix with an empty row as a value error

---
 src/eustace/analysis/advanced_standard/linalg/pardisowrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eustace/analysis/advanced_standard/linalg/pardisowrapper.py b/src/eustace/analysis/advanced_standard/linalg/pardisowrapper.py
index 6994112..a209fab 100644
--- a/src/eustace/analysis/advanced_standard/linalg/pardisowrapper.py
+++ b/src/eustace/analysis/advanced_standard/linalg/pardisowrapper.py
@@ -149,7 +149,7 @@ class PardisoWrapper(SolverLibraryWrapper):
         # pardiso with a matrix A that contains empty rows leads to a segfault, same applies for csc with 
         # empty columns
         if not numpy.diff(A.indptr).all():
-            raise ValueError('Matrix A is singular, because it contains empty row(s)'.format(row_col))
+            raise ValueError('Matrix A is singular, because it contains empty row(s)')
 
         # check floating point is 64-bit
         if A.dtype != numpy.float64:
-- 
2.43.0


From 4d9bf17ed9ae4591442a9ddd6cad946a2f513433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:47 +0000
Subject: [PATCH 28/92] fix: import what the partial inverse functions use

---
 .../analysis/advanced_standard/linalg/sparse.py        | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/eustace/analysis/advanced_standard/linalg/sparse.py b/src/eustace/analysis/advanced_standard/linalg/sparse.py
index 05f2251..c42628c 100644
--- a/src/eustace/analysis/advanced_standard/linalg/sparse.py
+++ b/src/eustace/analysis/advanced_standard/linalg/sparse.py
@@ -1,6 +1,8 @@
 """Sparse matrix operations"""
 
 import numpy
+import scipy.sparse
+import sksparse.cholmod
 import qinv
 
 def trace_iQ_dQdp(Q, dQdp, fQ = None, iQp = None):
@@ -28,7 +30,7 @@ def trace_iQ_dQdp(Q, dQdp, fQ = None, iQp = None):
     
     if iQp is None:
         if fQ is None:
-            fQ = cholmod.cholesky(Q)
+            fQ = sksparse.cholmod.cholesky(Q)
         iQp = qinv.Q_inv(Q, fQ)
     
     trace = numpy.sum( (iQp * dQdp).diagonal() )
@@ -44,12 +46,10 @@ def marginal_variance_Q_inv(Q, A = None):
         # The following operation is only correct if the non zero indices of A.T * A are a subset of
         # the non-zero elements of Q_inv so check that this condition is true before proceeding. 
         
-        from sets import Set
-        
         (P_i, P_j, P_v) = scipy.sparse.find(Q_inv)
         (AtA_i, AtA_j, AtA_v) = scipy.sparse.find(A.T * A)
-        Q_inv_non_zero = Set( zip(P_i, P_j) )
-        AtA_non_zero = Set( zip(AtA_i, AtA_j) )
+        Q_inv_non_zero = set( zip(P_i, P_j) )
+        AtA_non_zero = set( zip(AtA_i, AtA_j) )
         
         AtA_non_zero.issubset(Q_inv_non_zero)
         
-- 
2.43.0


From 511793ee1d22462471bbeedcc89388eab5ec9e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:24 +0000
Subject: [PATCH 29/92] fix: optimise hyperparameters also when some days have
 no observations

---
 .../advanced_standard/components/spatialdelayed.py         | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/eustace/analysis/advanced_standard/components/spatialdelayed.py b/src/eustace/analysis/advanced_standard/components/spatialdelayed.py
index 0c829dd..1a412ed 100644
--- a/src/eustace/analysis/advanced_standard/components/spatialdelayed.py
+++ b/src/eustace/analysis/advanced_standard/components/spatialdelayed.py
@@ -24,6 +24,7 @@ from eustace.analysis.advanced_standard.linalg.costfunction import MarginalGauss
 from eustace.analysis.advanced_standard.linalg.optimize import Optimizer
 
 import numpy 
+import scipy.sparse
 
 class DelayedSpatialComponent(SpaceTimeComponent):
     
@@ -228,7 +229,11 @@ class DelayedSpatialComponentSolution(SpaceTimeComponentSolution):
             
             # Retrieve measurements from cache
             measurement_update_at_time = self.solutionstorage.measurement_read(time_index)
-            information_increments.append( numpy.squeeze(measurement_update_at_time.information_vector) )
+            information_vector = measurement_update_at_time.information_vector
+            if scipy.sparse.isspmatrix(information_vector):
+                # blank update of a time without observations
+                information_vector = information_vector.toarray()
+            information_increments.append( numpy.squeeze(information_vector) )
             precision_increments.append(measurement_update_at_time.information_precision)
             
             # Retrieve measurements from cache
-- 
2.43.0


From b4a1fa4b757909fcb1661812166ff53dca8dbcca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:03 +0000
Subject: [PATCH 30/92] fix: grid cell averages for grids with descending
 latitudes

---
 .../fileio/output_structure_rectilinear.py                  | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/eustace/analysis/advanced_standard/fileio/output_structure_rectilinear.py b/src/eustace/analysis/advanced_standard/fileio/output_structure_rectilinear.py
index 7d6c94d..41ca63e 100644
--- a/src/eustace/analysis/advanced_standard/fileio/output_structure_rectilinear.py
+++ b/src/eustace/analysis/advanced_standard/fileio/output_structure_rectilinear.py
@@ -80,10 +80,10 @@ class RegriddingRectilinearGridStructure(ObservationStructure):
         """Rearrange latitudes for boosting regridding computations"""
         
         latitudes = self.latitudes.reshape(-1, self.Nlat)
-        latitudes = numpy.tile(latitudes, (len(self.longitudes)/self.Nlon,self.Nlon))
-        reindexer = numpy.argsort(latitudes[:,0])
+        latitudes = numpy.tile(latitudes, (1,self.Nlon))
         
-        return latitudes[reindexer]#, longitudes
+        # One row for each longitude at each latitude, in order given (latitudes may be descending)
+        return numpy.repeat(latitudes, len(self.longitudes)/self.Nlon, axis=0)
 
     def rearrange_longitudes(self):
         """Rearrange longitudes for boosting regridding computations"""
-- 
2.43.0


From 89cc79a9e64cf3305894f1a73df290d70e0e9023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:03 +0000
Subject: [PATCH 31/92] fix: project sample deviations with more blocks than
 cells, vector states or no samples

---
 .../analysis/advanced_standard/fileio/output_projector.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/eustace/analysis/advanced_standard/fileio/output_projector.py b/src/eustace/analysis/advanced_standard/fileio/output_projector.py
index 7ef5714..e799ef7 100644
--- a/src/eustace/analysis/advanced_standard/fileio/output_projector.py
+++ b/src/eustace/analysis/advanced_standard/fileio/output_projector.py
@@ -171,11 +171,9 @@ class Projector(object):
         if statesample is None:
             return None
               
-        sampledepartures = statesample - self.state_solution
-        
         n_outputs = self.design_matrix.shape[0]
         output = numpy.zeros((n_outputs,1))
-        blocksize = int(n_outputs / self.blocking)
+        blocksize = max(1, int(n_outputs / self.blocking))
         
         n_blocks = int( numpy.ceil( float(n_outputs) / float(blocksize) ) )
         
@@ -198,15 +196,13 @@ class Projector(object):
         else:
             statesample = self.state_samples
             sampledepartures = statesample#(statesample - self.state_solution)**2
-            print statesample.shape
-            print self.state_solution.shape
             
         if statesample is None:
             return None
         
         n_outputs = self.design_matrix.shape[0]
         output = numpy.zeros((n_outputs,1))
-        blocksize = int(n_outputs / self.blocking)
+        blocksize = max(1, int(n_outputs / self.blocking))
         
         n_blocks = int( numpy.ceil( float(n_outputs) / float(blocksize) ) )
         
-- 
2.43.0


From 9d2f29dd96c38ed45b498ce8294461146e46b413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:24 +0000
Subject: [PATCH 32/92] fix: allow factor elements in combinations

---
 src/eustace/analysis/advanced_standard/elements/factor.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/eustace/analysis/advanced_standard/elements/factor.py b/src/eustace/analysis/advanced_standard/elements/factor.py
index 38bd150..ffbfbdf 100644
--- a/src/eustace/analysis/advanced_standard/elements/factor.py
+++ b/src/eustace/analysis/advanced_standard/elements/factor.py
@@ -58,10 +58,12 @@ class SpaceTimeFactorDesign(ElementNonlinearDesign, SpaceTimeSPDEDesign):
         # Stack 'em up
         return scipy.sparse.hstack([ jacobian_space, jacobian_time ], format=SPARSEFORMAT)
 
-    def design_function(self, currentstate):
+    def design_function(self, currentstate, rectified=False):
 
-        v_space = self.space_A.dot(currentstate[:self.space_A.shape[1]])
-        v_time = self.time_A.dot(currentstate[self.space_A.shape[1]:])
+        space_A = numpy.abs(self.space_A) if rectified else self.space_A
+        time_A = numpy.abs(self.time_A) if rectified else self.time_A
+        v_space = space_A.dot(currentstate[:space_A.shape[1]])
+        v_time = time_A.dot(currentstate[space_A.shape[1]:])
         return v_space * v_time
 
 class SpaceTimeFactorPrior(SpaceTimeSPDEPrior):
-- 
2.43.0


From 33e2e52181bc876e57877727572e1a4bb9dacca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:24 +0000
Subject: [PATCH 33/92] fix: allow lattices with different numbers of nodes
 along their dimensions

---
 src/eustace/analysis/advanced_standard/stats/spde/lattice.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eustace/analysis/advanced_standard/stats/spde/lattice.py b/src/eustace/analysis/advanced_standard/stats/spde/lattice.py
index 9d1ff75..a6c5c32 100644
--- a/src/eustace/analysis/advanced_standard/stats/spde/lattice.py
+++ b/src/eustace/analysis/advanced_standard/stats/spde/lattice.py
@@ -143,7 +143,8 @@ class LatticeMesh(object):
         
         
         axis_coordinates = [np.linspace(this_dim[0], this_dim[1], n_nodes) for this_dim, n_nodes in zip(self.node_bounds.T, self.number_of_nodes_per_dimension )  ]
-        self.axis_coordinates = np.array(axis_coordinates).T
+        same_length = np.all(self.number_of_nodes_per_dimension == self.number_of_nodes_per_dimension[0])
+        self.axis_coordinates = np.array(axis_coordinates, dtype=(np.float64 if same_length else object)).T
         
         if len(axis_coordinates) > 1:
             meshgrid_nodes = np.meshgrid(*axis_coordinates, indexing='ij')
-- 
2.43.0


From 9eab20c7f62cec0ad105404f90a044c25502a938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:16 +0000
Subject: [PATCH 34/92] fix: derivative of the precision of cyclic lattices

---
 .../advanced_standard/stats/spde/lattice.py       | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/eustace/analysis/advanced_standard/stats/spde/lattice.py b/src/eustace/analysis/advanced_standard/stats/spde/lattice.py
index a6c5c32..4d68c45 100644
--- a/src/eustace/analysis/advanced_standard/stats/spde/lattice.py
+++ b/src/eustace/analysis/advanced_standard/stats/spde/lattice.py
@@ -664,13 +664,18 @@ class LatticeSPDE():
         for d in range(self.lattice.n_dims):
             
             slices_i = [slice(0, dim_length, None) for dim_length in self.lattice.number_of_nodes_per_dimension]
-            slices_i[d] = slice(0, self.lattice.number_of_nodes_per_dimension[d]-1)
-            
             slices_j = [slice(0, dim_length, None) for dim_length in self.lattice.number_of_nodes_per_dimension]
-            slices_j[d] = slice(1, self.lattice.number_of_nodes_per_dimension[d]) 
             
-            inds_i = np.mgrid[slices_i].T.reshape(-1,self.lattice.n_dims)
-            inds_j = np.mgrid[slices_j].T.reshape(-1,self.lattice.n_dims)
+            # link the same neighbours as build_Q_native
+            if self.lattice.wrap_dimensions is not None and self.lattice.wrap_dimensions[d] is True:
+                slices_i[d] = slice(-1, self.lattice.number_of_nodes_per_dimension[d]-1)
+                slices_j[d] = slice(0, self.lattice.number_of_nodes_per_dimension[d]) 
+            else:
+                slices_i[d] = slice(0, self.lattice.number_of_nodes_per_dimension[d]-1)
+                slices_j[d] = slice(1, self.lattice.number_of_nodes_per_dimension[d]) 
+            
+            inds_i = np.mgrid[slices_i].T.reshape(-1,self.lattice.n_dims) % self.lattice.number_of_nodes_per_dimension
+            inds_j = np.mgrid[slices_j].T.reshape(-1,self.lattice.n_dims) % self.lattice.number_of_nodes_per_dimension
 
             inds_i = np.ravel_multi_index(inds_i.T, self.lattice.number_of_nodes_per_dimension)
             inds_j = np.ravel_multi_index(inds_j.T, self.lattice.number_of_nodes_per_dimension)
-- 
2.43.0


From 804c9b3c8c96b172649d023cbc075f02d0936498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:16 +0000
Subject: [PATCH 35/92] fix: order of nodes in the precision of lattices with
 several dimensions

---
 .../analysis/advanced_standard/stats/spde/lattice.py      | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/eustace/analysis/advanced_standard/stats/spde/lattice.py b/src/eustace/analysis/advanced_standard/stats/spde/lattice.py
index 4d68c45..625438a 100644
--- a/src/eustace/analysis/advanced_standard/stats/spde/lattice.py
+++ b/src/eustace/analysis/advanced_standard/stats/spde/lattice.py
@@ -624,8 +624,8 @@ class LatticeSPDE():
             inds_j = inds_j % self.lattice.number_of_nodes_per_dimension
             
             # covert the n-dimensional indices into one dimensional indices that correspond to the indexing of Q
-            inds_i = np.ravel_multi_index(inds_i.T, self.lattice.number_of_nodes_per_dimension)
-            inds_j = np.ravel_multi_index(inds_j.T, self.lattice.number_of_nodes_per_dimension)
+            inds_i = np.ravel_multi_index(inds_i.T, self.lattice.number_of_nodes_per_dimension, order = 'F')
+            inds_j = np.ravel_multi_index(inds_j.T, self.lattice.number_of_nodes_per_dimension, order = 'F')
             
             # use the indexing to fill in linked nodes in Q
             Q_neighbour[inds_i, inds_j] = - dim_scales[d]
@@ -677,8 +677,8 @@ class LatticeSPDE():
             inds_i = np.mgrid[slices_i].T.reshape(-1,self.lattice.n_dims) % self.lattice.number_of_nodes_per_dimension
             inds_j = np.mgrid[slices_j].T.reshape(-1,self.lattice.n_dims) % self.lattice.number_of_nodes_per_dimension
 
-            inds_i = np.ravel_multi_index(inds_i.T, self.lattice.number_of_nodes_per_dimension)
-            inds_j = np.ravel_multi_index(inds_j.T, self.lattice.number_of_nodes_per_dimension)
+            inds_i = np.ravel_multi_index(inds_i.T, self.lattice.number_of_nodes_per_dimension, order = 'F')
+            inds_j = np.ravel_multi_index(inds_j.T, self.lattice.number_of_nodes_per_dimension, order = 'F')
             
             Q_neighbour[inds_i, inds_j] = - dim_scales[d]
             Q_neighbour[inds_j, inds_i] = - dim_scales[d]
-- 
2.43.0


From 56af9c37db3ba9f7060f4680145257ff35a69883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:16 +0000
Subject: [PATCH 36/92] fix: precision of spherical fields with smoothness
 above two

---
 .../analysis/advanced_standard/stats/spde/spherical.py    | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/eustace/analysis/advanced_standard/stats/spde/spherical.py b/src/eustace/analysis/advanced_standard/stats/spde/spherical.py
index d0ba536..60f6fec 100644
--- a/src/eustace/analysis/advanced_standard/stats/spde/spherical.py
+++ b/src/eustace/analysis/advanced_standard/stats/spde/spherical.py
@@ -399,11 +399,11 @@ class SphereMeshSPDE(object):
         if alpha % 2 == 0:
             
             Q = K * inv_C_tilde * K
-            for i in range(4, alpha, 2):
+            for i in range(4, alpha+1, 2):
                 Q = K * inv_C_tilde * Q * inv_C_tilde * K
         else:
             Q = K
-            for i in range(3, alpha, 2):
+            for i in range(3, alpha+1, 2):
                 Q = K * inv_C_tilde * Q * inv_C_tilde * K
         
         Q = tau * Q * tau
@@ -433,7 +433,7 @@ class SphereMeshSPDE(object):
             Q = K * inv_C_tilde * K
             dQdp = dKdp * inv_C_tilde * K + K * inv_C_tilde * dKdp
             
-            for i in range(4, alpha, 2):
+            for i in range(4, alpha+1, 2):
                 
                 dQdp = dKdp * inv_C_tilde * Q * inv_C_tilde * K + \
                        K * inv_C_tilde * dQdp * inv_C_tilde * K + \
@@ -442,7 +442,7 @@ class SphereMeshSPDE(object):
         else:
             Q = K
             dQdp = dKdp
-            for i in range(3, alpha, 2):
+            for i in range(3, alpha+1, 2):
                 
                 dQdp = dKdp * inv_C_tilde * Q * inv_C_tilde * K + \
                        K * inv_C_tilde * dQdp * inv_C_tilde * K + \
-- 
2.43.0


From 2873ca731fa4750e88dcda1d620cb62efa5b0824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:12 +0000
Subject: [PATCH 37/92] fix: design of cyclic lattices whose basis functions
 reach round the cycle

---
 src/eustace/analysis/advanced_standard/stats/spde/lattice.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eustace/analysis/advanced_standard/stats/spde/lattice.py b/src/eustace/analysis/advanced_standard/stats/spde/lattice.py
index 625438a..ad47eee 100644
--- a/src/eustace/analysis/advanced_standard/stats/spde/lattice.py
+++ b/src/eustace/analysis/advanced_standard/stats/spde/lattice.py
@@ -277,7 +277,8 @@ class LatticeMesh(object):
         
         # construct the A matrix
         A_matrix = scipy.sparse.dok_matrix((n_locations, n_bases))
-        A_matrix[obs_indices, node_indices] = a_values
+        nonzero = np.flatnonzero(a_values)
+        A_matrix[obs_indices[nonzero], node_indices[nonzero]] = a_values[nonzero]
         
         return A_matrix.asformat(sparse_format)
 
-- 
2.43.0


From 2173664bc88206abdca3c162808cc2ea3b20e5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:03 +0000
Subject: [PATCH 38/92] fix: read and set general hyperparameters as one vector

---
 .../advanced_standard/elements/local_view.py       | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/eustace/analysis/advanced_standard/elements/local_view.py b/src/eustace/analysis/advanced_standard/elements/local_view.py
index 887e39e..d5b04d1 100644
--- a/src/eustace/analysis/advanced_standard/elements/local_view.py
+++ b/src/eustace/analysis/advanced_standard/elements/local_view.py
@@ -195,17 +195,17 @@ class GeneralHyperparameters(Hyperparameters):
     def get_array(self):
         """Retrieve as 1D NumPy array."""
 
-        valueslist = [ self.__dict__[key] for key in sorted(self.__dict__)]
-        return numpy.array(valueslist)
+        valueslist = [ numpy.atleast_1d(self.__dict__[key]) for key in sorted(self.__dict__)]
+        return numpy.concatenate(valueslist)
         
     def set_array(self, values):
         """Set from NumPy array."""
         
         startindex = 0
         for key in sorted(self.__dict__):    
-            count = len(self.__dict__[key])
-            nextstartindex = startindex + count
-            setattr(self, key, values[startindex:nextstartindex])
+            shape = numpy.shape(self.__dict__[key])
+            nextstartindex = startindex + numpy.prod(shape, dtype=int)
+            setattr(self, key, values[startindex:nextstartindex] if shape else values[startindex])
             startindex = nextstartindex
                 
     def get_dictionary(self):
@@ -217,9 +217,9 @@ class GeneralHyperparameters(Hyperparameters):
     def init_from_npy_savefile(filename):
         """Load Q_parameters values from npz save file"""
         
-        parameter_dict = numpy.load(filename)
+        parameter_dict = numpy.load(filename, allow_pickle=True).item()
         
-        return ExpandedHyperparameters(**parameter_dict)
+        return GeneralHyperparameters(**parameter_dict)
         
     def values_to_npy_savefile(self, filename):
         """Write Q_parameters to npy save file"""
-- 
2.43.0


From acd0fbe0dc412479cdab0255a47f0b2fe0288c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:56 +0000
Subject: [PATCH 39/92] fix: find the flag field whatever name iris gives the
 cube

---
 src/eustace/postprocess/apply_mask.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eustace/postprocess/apply_mask.py b/src/eustace/postprocess/apply_mask.py
index f1eb773..078ec25 100644
--- a/src/eustace/postprocess/apply_mask.py
+++ b/src/eustace/postprocess/apply_mask.py
@@ -244,7 +244,8 @@ def load_flags(directory, iteration, datestring):
     print cube_names
     for i in range(len(analysis_cubes)):
         
-        if cube_names[i] == u'Quality control flags':
+        # use long name here as some versions of iris recognise the standard name and report that as the cube name
+        if analysis_cubes[i].long_name == u'Quality control flags':
             qc_flags = analysis_cubes[i]
         else:
             continue
-- 
2.43.0


From 5766ca7995863905fd1b82f6ccb092e48f5ea446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:56 +0000
Subject: [PATCH 40/92] fix: cells with all flags set are not missing data

---
 src/eustace/postprocess/apply_mask.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/eustace/postprocess/apply_mask.py b/src/eustace/postprocess/apply_mask.py
index 078ec25..6eee995 100644
--- a/src/eustace/postprocess/apply_mask.py
+++ b/src/eustace/postprocess/apply_mask.py
@@ -250,6 +250,9 @@ def load_flags(directory, iteration, datestring):
         else:
             continue
     
+    # The fill value is also the valid combination in which every flag is set, so should not be interpreted as missing
+    qc_flags.data = numpy.ma.filled(qc_flags.data, numpy.iinfo(FLAG_TYPE).max)
+
     # Apply each of the masking conditions        
     #mask = numpy.logical_or.reduce([numpy.bitwise_and(qc_flags.data[:,:,:], flagspec[0] | flagspec[1]) == flagspec[0] for flagspec in flags_to_mask])
     #mask = numpy.logical_or.reduce([numpy.bitwise_and(qc_flags.data[:,:,:], flagspec[0]) == flagspec[0] - numpy.bitwise_and(qc_flags.data[:,:,:], flagspec[1]) == flagspec[1] for flagspec in flags_to_mask])
-- 
2.43.0


From 358b84c2e0440ead0f079550f2aebfc692f6fa11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:56 +0000
Subject: [PATCH 41/92] fix: record one meaning for each flag bit in flag files

---
 src/eustace/postprocess/flags.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eustace/postprocess/flags.py b/src/eustace/postprocess/flags.py
index 32d3650..645edb4 100644
--- a/src/eustace/postprocess/flags.py
+++ b/src/eustace/postprocess/flags.py
@@ -15,7 +15,7 @@ import numpy
 FLAG_TYPE = numpy.uint16
 TYPE_NAME = 'u2'
 FLAG_MAX_N = 16
-FLAG_MAX_USED = 13
+FLAG_MAX_USED = 16
 NULL_FLAG = FLAG_TYPE(0)
 
 
@@ -63,6 +63,7 @@ FLAG_MEANINGS = ['day_constraint',
                  'areal_high_value_qc',
                  'extreme_low_value_qc',
                  'extreme_high_value_qc',
+                 'persistent_outlier_qc',
                  'marine_location_flag',
                  'location_low_value_qc',
                  'location_high_value_qc',
-- 
2.43.0


From fa6b047c3180110e00ee7738eb718d54ce06c402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:16 +0000
Subject: [PATCH 42/92] fix: window and calendar checks when no other day is
 available

---
 src/eustace/postprocess/calendar_check.py | 6 ++++++
 src/eustace/postprocess/window_check.py   | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/eustace/postprocess/calendar_check.py b/src/eustace/postprocess/calendar_check.py
index 0dfc5a8..3753660 100644
--- a/src/eustace/postprocess/calendar_check.py
+++ b/src/eustace/postprocess/calendar_check.py
@@ -118,6 +118,12 @@ def calendar_constraint_checks(input_directory, output_directory, iteration, ref
             if day_to_load.year > reference_time.year:
                 post_constraint_count[isconstrained]+=1
 
+    # no constraint on other days if none of them could be loaded
+    if prior_constraint_count is None:
+        prior_constraint_count = numpy.zeros(flag_values.shape, numpy.int64)
+    if post_constraint_count is None:
+        post_constraint_count = numpy.zeros(flag_values.shape, numpy.int64)
+
     # compute summary flags          
     prior_constrained = prior_constraint_count < COUNT_THRESHOLD
     post_constrained = post_constraint_count < COUNT_THRESHOLD
diff --git a/src/eustace/postprocess/window_check.py b/src/eustace/postprocess/window_check.py
index 0ee7d2f..86a4fa4 100644
--- a/src/eustace/postprocess/window_check.py
+++ b/src/eustace/postprocess/window_check.py
@@ -110,6 +110,12 @@ def local_window_constraint_checks(input_directory, output_directory, iteration,
             if dayshift > 0:
                 post_constraint_count[isconstrained]+=1
 
+    # no constraint on other days if none of them could be loaded
+    if prior_constraint_count is None:
+        prior_constraint_count = numpy.zeros(flag_values.shape, numpy.int64)
+    if post_constraint_count is None:
+        post_constraint_count = numpy.zeros(flag_values.shape, numpy.int64)
+
     # compute summary flags          
     prior_constrained = prior_constraint_count < count_threshold
     post_constrained = post_constraint_count < count_threshold
-- 
2.43.0


From 7363cfe3f4a6d67c97173f146986fc80b3b74444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:58 +0000
Subject: [PATCH 43/92] fix: let several jobs make the same post-processing
 output directory

---
 src/eustace/postprocess/apply_mask.py                  | 4 ++--
 src/eustace/postprocess/calendar_check.py              | 6 +++---
 src/eustace/postprocess/cell_percentile_calculation.py | 4 ++--
 src/eustace/postprocess/cell_percentile_threshold.py   | 6 +++---
 src/eustace/postprocess/latent_variable_check.py       | 6 +++---
 src/eustace/postprocess/merge_flag_files.py            | 6 +++---
 src/eustace/postprocess/outlier_check.py               | 6 +++---
 src/eustace/postprocess/outlier_window_check.py        | 6 +++---
 src/eustace/postprocess/threshold_check.py             | 6 +++---
 src/eustace/postprocess/window_check.py                | 6 +++---
 10 files changed, 28 insertions(+), 28 deletions(-)

diff --git a/src/eustace/postprocess/apply_mask.py b/src/eustace/postprocess/apply_mask.py
index 6eee995..14f3b1f 100644
--- a/src/eustace/postprocess/apply_mask.py
+++ b/src/eustace/postprocess/apply_mask.py
@@ -1,6 +1,7 @@
 
 import argparse
 import os.path
+from eustace.outputformats.ensuredirectory import ensuredirectory
 import copy
 import numpy
 from dateutil.relativedelta import relativedelta
@@ -120,8 +121,7 @@ def save_flag_file(flag_values, processdate, outputfile):
     print "Saving: ", outputfile
     
     # Create directory structure if required
-    if not os.path.exists(os.path.dirname(outputfile)):
-        os.makedirs(os.path.dirname(outputfile))
+    ensuredirectory(outputfile)
     
     # Make the QC flag file
     filebuilder = FileBuilderGlobalField(
diff --git a/src/eustace/postprocess/calendar_check.py b/src/eustace/postprocess/calendar_check.py
index 3753660..e40eebc 100644
--- a/src/eustace/postprocess/calendar_check.py
+++ b/src/eustace/postprocess/calendar_check.py
@@ -2,6 +2,7 @@
 
 import argparse
 import os.path
+from eustace.outputformats.ensuredirectory import ensuredirectory
 import numpy
 from dateutil.relativedelta import relativedelta
 import datetime
@@ -158,9 +159,8 @@ def flagging_operation( reference_time_string,
     # derive flags for each day
     for processdate in processing_dates:
         
-        # check that directory exists and if not then make it
-        if not os.path.exists(os.path.join(output_directory, str(processdate.year))):
-            os.makedirs(os.path.join(output_directory, str(processdate.year)))
+        # make the directory if needed (other jobs may be making it at the same time)
+        ensuredirectory(os.path.join(output_directory, str(processdate.year), ''))
 
         flag_values = calendar_constraint_checks( input_directory,
                                                   output_directory,
diff --git a/src/eustace/postprocess/cell_percentile_calculation.py b/src/eustace/postprocess/cell_percentile_calculation.py
index d17f7d3..1b4f400 100644
--- a/src/eustace/postprocess/cell_percentile_calculation.py
+++ b/src/eustace/postprocess/cell_percentile_calculation.py
@@ -6,6 +6,7 @@ from dateutil import parser
 import datetime
 from dateutil.relativedelta import relativedelta
 import os.path
+from eustace.outputformats.ensuredirectory import ensuredirectory
 
 import argparse
 import flags
@@ -38,8 +39,7 @@ def cell_percentile_calculation(input_directory, output_directory, iteration, st
     analysis_data = numpy.stack([numpy.squeeze( cube.data ) for cube in cubes], axis=2)
     lower_quartile_block, median_block, upper_quartile_block = numpy.percentile(analysis_data, [25, 50, 75], axis=2)
     
-    if not os.path.exists(os.path.dirname(outfile)):
-        os.makedirs(os.path.dirname(outfile))
+    ensuredirectory(outfile)
     
     numpy.savez(outfile, lower_quartile_block=lower_quartile_block, median_block=median_block, upper_quartile_block=upper_quartile_block)
 
diff --git a/src/eustace/postprocess/cell_percentile_threshold.py b/src/eustace/postprocess/cell_percentile_threshold.py
index d27f124..5c79015 100644
--- a/src/eustace/postprocess/cell_percentile_threshold.py
+++ b/src/eustace/postprocess/cell_percentile_threshold.py
@@ -10,6 +10,7 @@ Flags computed:
 
 import argparse
 import os.path
+from eustace.outputformats.ensuredirectory import ensuredirectory
 import numpy
 from dateutil.relativedelta import relativedelta
 import datetime
@@ -134,9 +135,8 @@ def flagging_operation(  reference_time_string,
     # derive flags for each day
     for processdate in processing_dates:
         
-        # check that directory exists and if not then make it
-        if not os.path.exists(os.path.join(output_directory, str(processdate.year))):
-            os.makedirs(os.path.join(output_directory, str(processdate.year)))
+        # make the directory if needed (other jobs may be making it at the same time)
+        ensuredirectory(os.path.join(output_directory, str(processdate.year), ''))
         
         # compute flags
         flag_values = location_threshold_checks(analysis_directory, percentile_directory, output_directory, iteration, processdate)
diff --git a/src/eustace/postprocess/latent_variable_check.py b/src/eustace/postprocess/latent_variable_check.py
index 11110ab..8135d4e 100644
--- a/src/eustace/postprocess/latent_variable_check.py
+++ b/src/eustace/postprocess/latent_variable_check.py
@@ -3,6 +3,7 @@
 
 import argparse
 import os.path
+from eustace.outputformats.ensuredirectory import ensuredirectory
 import numpy
 from dateutil.relativedelta import relativedelta
 import datetime
@@ -230,9 +231,8 @@ def flagging_operation(  reference_time_string,
     reference_time = parser.parse(reference_time_string)
     processing_dates = operation_dates(reference_time, operation_index)
     
-    # check that directory exists and if not then make it
-    if not os.path.exists(os.path.join(output_directory, str(processing_dates[0].year))):
-        os.makedirs(os.path.join(output_directory, str(processing_dates[0].year)))
+    # make the directory if needed (other jobs may be making it at the same time)
+    ensuredirectory(os.path.join(output_directory, str(processing_dates[0].year), ''))
     
     latent_variable_flag(analysis_directory, output_directory, iteration, processing_dates)
     
diff --git a/src/eustace/postprocess/merge_flag_files.py b/src/eustace/postprocess/merge_flag_files.py
index 19aa9e6..160508f 100644
--- a/src/eustace/postprocess/merge_flag_files.py
+++ b/src/eustace/postprocess/merge_flag_files.py
@@ -6,6 +6,7 @@ Merge the calendar and threshold mask files
 
 import argparse
 import os.path
+from eustace.outputformats.ensuredirectory import ensuredirectory
 import numpy
 from dateutil.relativedelta import relativedelta
 import datetime
@@ -68,9 +69,8 @@ def merging_operation( reference_time_string,
     # derive flags for each day
     for processdate in processing_dates:
         
-        # check that directory exists and if not then make it
-        if not os.path.exists(os.path.join(output_directory, str(processdate.year))):
-            os.makedirs(os.path.join(output_directory, str(processdate.year)))
+        # make the directory if needed (other jobs may be making it at the same time)
+        ensuredirectory(os.path.join(output_directory, str(processdate.year), ''))
 
         flag_values = merged_flags(input_directory_1, input_directory_2, output_directory, iteration, processdate)
         
diff --git a/src/eustace/postprocess/outlier_check.py b/src/eustace/postprocess/outlier_check.py
index 1424f71..c1d1f81 100644
--- a/src/eustace/postprocess/outlier_check.py
+++ b/src/eustace/postprocess/outlier_check.py
@@ -15,6 +15,7 @@ import eustace.timeutils.epoch
 from dateutil import parser
 import datetime
 import os.path
+from eustace.outputformats.ensuredirectory import ensuredirectory
 
 import argparse
 
@@ -377,9 +378,8 @@ def flagging_operation(  reference_time_string,
     # derive flags for each day
     for processdate in processing_dates:
         
-        # check that directory exists and if not then make it
-        if not os.path.exists(os.path.join(output_directory, str(processdate.year))):
-            os.makedirs(os.path.join(output_directory, str(processdate.year)))
+        # make the directory if needed (other jobs may be making it at the same time)
+        ensuredirectory(os.path.join(output_directory, str(processdate.year), ''))
         
         # compute flags
         areal_flag_values = areal_checks(analysis_directory, output_directory, iteration, processdate, QUARTILE_LIMIT)
diff --git a/src/eustace/postprocess/outlier_window_check.py b/src/eustace/postprocess/outlier_window_check.py
index cfe1bcf..4e3922f 100644
--- a/src/eustace/postprocess/outlier_window_check.py
+++ b/src/eustace/postprocess/outlier_window_check.py
@@ -2,6 +2,7 @@
 
 import argparse
 import os.path
+from eustace.outputformats.ensuredirectory import ensuredirectory
 import numpy
 from dateutil.relativedelta import relativedelta
 import datetime
@@ -134,9 +135,8 @@ def flagging_operation( reference_time_string,
     # derive flags for each day
     for processdate in processing_dates:
         
-        # check that directory exists and if not then make it
-        if not os.path.exists(os.path.join(output_directory, str(processdate.year))):
-            os.makedirs(os.path.join(output_directory, str(processdate.year)))
+        # make the directory if needed (other jobs may be making it at the same time)
+        ensuredirectory(os.path.join(output_directory, str(processdate.year), ''))
 
         flag_values = persistant_outlier_check(  input_directory,
                                                    output_directory,
diff --git a/src/eustace/postprocess/threshold_check.py b/src/eustace/postprocess/threshold_check.py
index df25a65..8db8b4e 100644
--- a/src/eustace/postprocess/threshold_check.py
+++ b/src/eustace/postprocess/threshold_check.py
@@ -10,6 +10,7 @@ Flags computed:
 
 import argparse
 import os.path
+from eustace.outputformats.ensuredirectory import ensuredirectory
 import numpy
 from dateutil.relativedelta import relativedelta
 import datetime
@@ -211,9 +212,8 @@ def flagging_operation(  reference_time_string,
     # derive flags for each day
     for processdate in processing_dates:
         
-        # check that directory exists and if not then make it
-        if not os.path.exists(os.path.join(output_directory, str(processdate.year))):
-            os.makedirs(os.path.join(output_directory, str(processdate.year)))
+        # make the directory if needed (other jobs may be making it at the same time)
+        ensuredirectory(os.path.join(output_directory, str(processdate.year), ''))
         
         # compute flags
         climatology_flag_values = climatology_uncertainty_checks(analysis_directory, output_directory, iteration, processdate, climatology_limit)
diff --git a/src/eustace/postprocess/window_check.py b/src/eustace/postprocess/window_check.py
index 86a4fa4..f08f76c 100644
--- a/src/eustace/postprocess/window_check.py
+++ b/src/eustace/postprocess/window_check.py
@@ -2,6 +2,7 @@
 
 import argparse
 import os.path
+from eustace.outputformats.ensuredirectory import ensuredirectory
 import numpy
 from dateutil.relativedelta import relativedelta
 import datetime
@@ -152,9 +153,8 @@ def flagging_operation( reference_time_string,
     # derive flags for each day
     for processdate in processing_dates:
         
-        # check that directory exists and if not then make it
-        if not os.path.exists(os.path.join(output_directory, str(processdate.year))):
-            os.makedirs(os.path.join(output_directory, str(processdate.year)))
+        # make the directory if needed (other jobs may be making it at the same time)
+        ensuredirectory(os.path.join(output_directory, str(processdate.year), ''))
 
         flag_values = local_window_constraint_checks(  input_directory,
                                                        output_directory,
-- 
2.43.0


From ff359eca3b083f6bafd9c1743ea6f2ef36dd0199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:58 +0000
Subject: [PATCH 44/92] fix: optimisation stages wait for the stages before
 them

---
 src/roses/fullstace/advanced_standard/lsf_submission.py     | 6 +++---
 .../fullstace/advanced_standard/lsf_submission_group.py     | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/roses/fullstace/advanced_standard/lsf_submission.py b/src/roses/fullstace/advanced_standard/lsf_submission.py
index 46113a6..db83fa8 100644
--- a/src/roses/fullstace/advanced_standard/lsf_submission.py
+++ b/src/roses/fullstace/advanced_standard/lsf_submission.py
@@ -264,15 +264,15 @@ def eustace_optimisation(iteration_number=None,
         iter_string = '_'+str(iteration_number)
 
     # split the local component into spatial model and bias components so that the bias sub-component can be used later
-    job_ids = submit_eumopps_jobs(cataloguefilename, 'split_local_component'+iter_string, lsf_script = LSF_BATCH_SCRIPT, output_directory=OUTDIR)
+    job_ids = submit_eumopps_jobs(cataloguefilename, 'split_local_component'+iter_string, wait_options=wait_options, lsf_script = LSF_BATCH_SCRIPT, output_directory=OUTDIR)
     wait_options = done_conditon(job_ids)
     
     # generate json files listing inputloader information for each time step for use outside of EUMOPPS
-    job_ids = submit_eumopps_jobs(cataloguefilename, 'input_summaries_create'+iter_string, lsf_script = LSF_BATCH_SCRIPT, output_directory=OUTDIR)
+    job_ids = submit_eumopps_jobs(cataloguefilename, 'input_summaries_create'+iter_string, wait_options=wait_options, lsf_script = LSF_BATCH_SCRIPT, output_directory=OUTDIR)
     wait_options = done_conditon(job_ids)
     
     # consolidate the inputloader information in json files into a single master json file
-    job_ids = submit_eumopps_jobs(cataloguefilename, 'input_summaries_merge'+iter_string, lsf_script = LSF_BATCH_SCRIPT, output_directory=OUTDIR)
+    job_ids = submit_eumopps_jobs(cataloguefilename, 'input_summaries_merge'+iter_string, wait_options=wait_options, lsf_script = LSF_BATCH_SCRIPT, output_directory=OUTDIR)
     wait_options = done_conditon(job_ids)
     
     # submit the optimisation tasks outside of EUMOPPS
diff --git a/src/roses/fullstace/advanced_standard/lsf_submission_group.py b/src/roses/fullstace/advanced_standard/lsf_submission_group.py
index e739619..6abdea7 100644
--- a/src/roses/fullstace/advanced_standard/lsf_submission_group.py
+++ b/src/roses/fullstace/advanced_standard/lsf_submission_group.py
@@ -374,15 +374,15 @@ def eustace_optimisation(iteration_number=None,
         iter_string = '_'+str(iteration_number)
 
     # split the local component into spatial model and bias components so that the bias sub-component can be used later
-    job_ids = submit_eumopps_jobs(cataloguefilename, 'split_local_component'+iter_string, lsf_script = LSF_BATCH_SCRIPT, output_directory=OUTDIR)
+    job_ids = submit_eumopps_jobs(cataloguefilename, 'split_local_component'+iter_string, wait_options=wait_options, lsf_script = LSF_BATCH_SCRIPT, output_directory=OUTDIR)
     wait_options = done_conditon(job_ids)
     
     # generate json files listing inputloader information for each time step for use outside of EUMOPPS
-    job_ids = submit_eumopps_jobs(cataloguefilename, 'input_summaries_create'+iter_string, lsf_script = LSF_BATCH_SCRIPT, output_directory=OUTDIR)
+    job_ids = submit_eumopps_jobs(cataloguefilename, 'input_summaries_create'+iter_string, wait_options=wait_options, lsf_script = LSF_BATCH_SCRIPT, output_directory=OUTDIR)
     wait_options = done_conditon(job_ids)
     
     # consolidate the inputloader information in json files into a single master json file
-    job_ids = submit_eumopps_jobs(cataloguefilename, 'input_summaries_merge'+iter_string, lsf_script = LSF_BATCH_SCRIPT, output_directory=OUTDIR)
+    job_ids = submit_eumopps_jobs(cataloguefilename, 'input_summaries_merge'+iter_string, wait_options=wait_options, lsf_script = LSF_BATCH_SCRIPT, output_directory=OUTDIR)
     wait_options = done_conditon(job_ids)
     
     # submit the optimisation tasks outside of EUMOPPS
-- 
2.43.0


From 1f7e1f5199c558b7cf08d2f4eec71928afd8d7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:58 +0000
Subject: [PATCH 45/92] fix: single iteration names a solver script that exists

---
 src/roses/fullstace/advanced_standard/lsf_submission.py       | 2 +-
 src/roses/fullstace/advanced_standard/lsf_submission_group.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/roses/fullstace/advanced_standard/lsf_submission.py b/src/roses/fullstace/advanced_standard/lsf_submission.py
index db83fa8..f0aaf4b 100644
--- a/src/roses/fullstace/advanced_standard/lsf_submission.py
+++ b/src/roses/fullstace/advanced_standard/lsf_submission.py
@@ -12,7 +12,7 @@ from StringIO import StringIO
 LSF_BATCH_SCRIPT = "lsf_commandrun.sh"
 LSF_BATCH_SCRIPT_WIDE = "lsf_commandrun.sh"
 LSF_BATCH_SCRIPT_TALL = "lsf_commandrun_tall.sh"
-LSF_SOLVE_SCRIPT = "lsf_commandrun_solver_testing.sh" # "lsf_commandrun_solver.sh"
+LSF_SOLVE_SCRIPT = "lsf_commandrun_solver.sh"
 
 LSF_SOLVE_SCRIPT_LARGESCALE = "lsf_commandrun_solver_large_scale_high_memory.sh" # "lsf_commandrun_solver.sh"
 LSF_SOLVE_SCRIPT_CLIMATOLOGY = "lsf_commandrun_solver_climatology.sh" # "lsf_commandrun_solver.sh"
diff --git a/src/roses/fullstace/advanced_standard/lsf_submission_group.py b/src/roses/fullstace/advanced_standard/lsf_submission_group.py
index 6abdea7..51b9601 100644
--- a/src/roses/fullstace/advanced_standard/lsf_submission_group.py
+++ b/src/roses/fullstace/advanced_standard/lsf_submission_group.py
@@ -14,7 +14,7 @@ LSF_BATCH_SCRIPT_GROUP = "lsf_commandrun_group.sh"
 LSF_BATCH_SCRIPT = "lsf_commandrun.sh"
 LSF_BATCH_SCRIPT_WIDE = "lsf_commandrun.sh"
 LSF_BATCH_SCRIPT_TALL = "lsf_commandrun_tall.sh"
-LSF_SOLVE_SCRIPT = "lsf_commandrun_solver_testing.sh" # "lsf_commandrun_solver.sh"
+LSF_SOLVE_SCRIPT = "lsf_commandrun_solver.sh"
 
 LSF_SOLVE_SCRIPT_LARGESCALE = "lsf_commandrun_solver_large_scale_high_memory.sh" # "lsf_commandrun_solver.sh"
 LSF_SOLVE_SCRIPT_CLIMATOLOGY = "lsf_commandrun_solver_climatology.sh" # "lsf_commandrun_solver.sh"
-- 
2.43.0


From 5fbee03b661bce4c0d2666c5832b658dfdd93f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:43 +0000
Subject: [PATCH 46/92] fix: refuse observation files made for another location
 table

read_contents and its callers take the identifier of the location table and
are documented to verify it, but never compared it with the one in the file,
so observations could be given the coordinates of unrelated locations.
---
 src/eustace/analysis/fileio/observationsource_rawbinary.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/eustace/analysis/fileio/observationsource_rawbinary.py b/src/eustace/analysis/fileio/observationsource_rawbinary.py
index bee439f..ffe8d02 100644
--- a/src/eustace/analysis/fileio/observationsource_rawbinary.py
+++ b/src/eustace/analysis/fileio/observationsource_rawbinary.py
@@ -130,6 +130,10 @@ class ObservationRawBinaryReader(RawBinaryLocationCategoryReader):
         # get uuid
         location_uuid = self.read_header_from_stream(file_handle)
 
+        # check it matches the one given for verification
+        if location_uuid != verify_location_uuid:
+            raise ValueError('Location UUID mismatch in {0}: expected {1} but found {2}'.format(pathname, verify_location_uuid, location_uuid))
+
         # read data
         contents = numpy.fromfile(file_handle, dtype=ObservationRawBinaryWriter.build_dtype(self.basecategory, self.num_local_correlation_ranges))
 
-- 
2.43.0


From 012b942c901d83bbba7e6fe116c11d8778ed6bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:43 +0000
Subject: [PATCH 47/92] fix: refuse truncated raw binary files

A file cut in the middle of a record (or read with the wrong number of
correlation ranges) was silently read without its last records. The C++
reader of the same files refuses them.
---
 .../fileio/observationsource_rawbinary.py     | 26 ++++++++++++++++---
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/eustace/analysis/fileio/observationsource_rawbinary.py b/src/eustace/analysis/fileio/observationsource_rawbinary.py
index ffe8d02..705a7a7 100644
--- a/src/eustace/analysis/fileio/observationsource_rawbinary.py
+++ b/src/eustace/analysis/fileio/observationsource_rawbinary.py
@@ -50,6 +50,8 @@ class RawBinaryReader(object):
 
         # read and ignore version
         codeversionid = file_handle.read(16)
+        if len(codeversionid) != 16:
+            raise ValueError('Incomplete header')
 
     @staticmethod
     def count_remaining(file_handle, record_size_bytes):
@@ -62,11 +64,27 @@ class RawBinaryReader(object):
         file_handle.seek(0, 2)
         total_size_bytes = file_handle.tell() - start_offset
 
+        # there should be a whole number of records
+        if total_size_bytes % record_size_bytes != 0:
+            raise ValueError('Data size {0} is not a multiple of record size {1}'.format(total_size_bytes, record_size_bytes))
+
         # count is total size divided by record size
-        count = total_size_bytes / record_size_bytes
+        count = total_size_bytes // record_size_bytes
 
         return count
 
+    @staticmethod
+    def read_remaining(file_handle, dtype):
+        """Read all records between current position in stream and end of stream."""
+
+        # find out how many (and check there are no partial records)
+        start_offset = file_handle.tell()
+        count = RawBinaryReader.count_remaining(file_handle, numpy.dtype(dtype).itemsize)
+
+        # go back and read them
+        file_handle.seek(start_offset)
+        return numpy.fromfile(file_handle, dtype=dtype, count=count)
+
 class RawBinaryLocationCategoryReader(RawBinaryReader):
 
     def __init__(self, formatid, basecategory):
@@ -135,7 +153,7 @@ class ObservationRawBinaryReader(RawBinaryLocationCategoryReader):
             raise ValueError('Location UUID mismatch in {0}: expected {1} but found {2}'.format(pathname, verify_location_uuid, location_uuid))
 
         # read data
-        contents = numpy.fromfile(file_handle, dtype=ObservationRawBinaryWriter.build_dtype(self.basecategory, self.num_local_correlation_ranges))
+        contents = RawBinaryReader.read_remaining(file_handle, ObservationRawBinaryWriter.build_dtype(self.basecategory, self.num_local_correlation_ranges))
 
 	# close it
         file_handle.close()
@@ -296,7 +314,7 @@ class LocationLookupRawBinaryReader(RawBinaryLocationCategoryReader):
         location_uuid = self.read_header_from_stream(file_handle)
 
         # read data
-        data = numpy.fromfile(file_handle, dtype=DTYPE[ CATEGORY_LOCATION_LOOKUP ])
+        data = RawBinaryReader.read_remaining(file_handle, DTYPE[ CATEGORY_LOCATION_LOOKUP ])
         lookuptable = numpy.vstack([ data['latitude'], data['longitude'] ])
 
         # done
@@ -353,7 +371,7 @@ class LocalCorrelationRangeRawBinaryReader(RawBinaryReader):
         self.read_header_from_stream(file_handle)
 
         # read data
-        result = numpy.fromfile(file_handle, dtype=DTYPE[ CATEGORY_LOCAL_CORRELATION_RANGE ])
+        result = RawBinaryReader.read_remaining(file_handle, DTYPE[ CATEGORY_LOCAL_CORRELATION_RANGE ])
 
         # done with file
         file_handle.close()
-- 
2.43.0


From ced5504b34c3214d9fd959e3d05f82740ba797d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:43 +0000
Subject: [PATCH 48/92] fix: make the location pointers reader usable

It used the uuid module without importing it and gave arrays to seek and to
the record count, so that every call failed, and it would have returned fewer
records than recorded when the file was cut short.
---
 .../analysis/fileio/locationpointers.py       | 24 ++++++++++++++-----
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/eustace/analysis/fileio/locationpointers.py b/src/eustace/analysis/fileio/locationpointers.py
index 309c695..01af721 100644
--- a/src/eustace/analysis/fileio/locationpointers.py
+++ b/src/eustace/analysis/fileio/locationpointers.py
@@ -6,6 +6,7 @@ from observationsource_rawbinary import ObservationRawBinaryWriter
 from observationsource_rawbinary import LocalCorrelationRangeRawBinaryReader
 from observationsource_rawbinary import CATEGORY_OBSERVATION
 import numpy
+import uuid
 
 FORMATID_LOCATION_POINTERS = 'EUSTACELOCP00001'
 """Format identifier placed at start of correlated uncertainty binary files."""
@@ -119,24 +120,35 @@ class LocationPointersRawBinaryReader(object):
             raise Exception('Location UUID mismatch')
 
         # read count
-        location_count = numpy.fromfile(file_handle, dtype=numpy.uint64, count=1)
+        location_count = self.read_exactly(file_handle, numpy.uint64, 1)[0]
 
         # check locaton_id in range
         if (location_id < 0) or (location_id >= location_count):
             raise Exception('Location ID {0} is outside of expected range {1}'.format(location_id, location_count))
 
         # go to offset table entry for this location
-        file_handle.seek(16 * location_id, 1)   # The 1 here indicates seek from current position
+        file_handle.seek(16 * int(location_id), 1)   # The 1 here indicates seek from current position
 
         # read offset table info
-        record_offset = numpy.fromfile(file_handle, dtype=numpy.uint64, count=1)
-        record_count = numpy.fromfile(file_handle, dtype=numpy.uint64, count=1)
+        record_offset, record_count = self.read_exactly(file_handle, numpy.uint64, 2)
 
         # seek to offset
-        file_handle.seek(record_offset)
+        file_handle.seek(int(record_offset))
 
         # read into NumPy structure
-        records = numpy.fromfile(file_handle, dtype=DTYPE, count=record_count)
+        records = self.read_exactly(file_handle, DTYPE, int(record_count))
 
         # done
+        file_handle.close()
+        del file_handle
+
         return records
+
+    @staticmethod
+    def read_exactly(file_handle, dtype, count):
+        """Read the given number of elements and check they are all there."""
+
+        result = numpy.fromfile(file_handle, dtype=dtype, count=count)
+        if result.shape[0] != count:
+            raise ValueError('Unexpected end of location pointers file')
+        return result
-- 
2.43.0


From 66f6585aa4aada75b73d622b18d8348241ea3040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:43 +0000
Subject: [PATCH 49/92] fix: missing observation source returns its empty
 observations

It compared with an attribute that does not exist.
---
 src/eustace/analysis/fileio/observationsource_missing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eustace/analysis/fileio/observationsource_missing.py b/src/eustace/analysis/fileio/observationsource_missing.py
index a4b31d8..c1042f2 100644
--- a/src/eustace/analysis/fileio/observationsource_missing.py
+++ b/src/eustace/analysis/fileio/observationsource_missing.py
@@ -23,7 +23,7 @@ class ObservationSourceMissing(ObservationSource):
     def observations(self, observable):
         """Retrieve observations for specified observable quantity."""
         
-        if self.missing_observable == observable:
+        if observable in self.missing_observables:
             # return as Observations object
             return ObservationsMissing(None)
         else:
-- 
2.43.0


From 6214a01b69ce8595d7d9ca7caeb35c247234cc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:15 +0000
Subject: [PATCH 50/92] fix: refuse missing files and incomplete headers in C++
 readers

The result of reading the header was never checked: for a file that is absent
or cut within its header the comparison used whatever was in the buffer (often
the header of the file read before) and the file then counted as empty.
---
 src/cpp/eustace/analysis/fileio/locationpointers.cpp | 2 ++
 src/cpp/eustace/analysis/fileio/rawbinary.cpp        | 6 ++++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cpp/eustace/analysis/fileio/locationpointers.cpp b/src/cpp/eustace/analysis/fileio/locationpointers.cpp
index ffa7d97..c0067a8 100644
--- a/src/cpp/eustace/analysis/fileio/locationpointers.cpp
+++ b/src/cpp/eustace/analysis/fileio/locationpointers.cpp
@@ -34,6 +34,8 @@ namespace EUSTACE
 
     // get count of location ids
     inputstream.read((char*)&location_count, sizeof(uint64_t));
+    if (!inputstream)
+      throw FormatExceptionBadHeader();
   }
 
   void LocationPointersRawBinaryReader::Read(std::vector< std::vector<LocationPointerRecord> >& record, std::istream& inputstream, const std::vector<uint64_t>& location_id_subset) const throw(FormatException)
diff --git a/src/cpp/eustace/analysis/fileio/rawbinary.cpp b/src/cpp/eustace/analysis/fileio/rawbinary.cpp
index 0e27498..4bcd07b 100644
--- a/src/cpp/eustace/analysis/fileio/rawbinary.cpp
+++ b/src/cpp/eustace/analysis/fileio/rawbinary.cpp
@@ -17,8 +17,8 @@ namespace EUSTACE
     char code_id[16];
     inputstream.read(code_id, sizeof(code_id));
 
-    // check format ID matches
-    if (strncmp(file_format_id, FormatID(), 16) != 0)
+    // check whole header was there and format ID matches
+    if (!inputstream || strncmp(file_format_id, FormatID(), 16) != 0)
       throw FormatExceptionBadHeader();
   }
     
@@ -52,6 +52,8 @@ namespace EUSTACE
 
     // get uuid of location lookup
     inputstream.read((char*)uuid.Bytes(), LocationLookupUUID::sizebytes);
+    if (!inputstream)
+      throw FormatExceptionBadHeader();
 
     // size of one entry
     size_t entrysize = EntrySize();
-- 
2.43.0


From 6a12ed12c8eb1983f2bee09f593d2238061fcb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:15 +0000
Subject: [PATCH 51/92] fix: refuse location pointers that lead outside their
 files

Reading a location beyond the table, a pointers file cut short, or a daily
file that is absent or too short returned observations of zero.
---
 src/cpp/eustace/analysis/fileio/locationpointers.cpp | 8 ++++++++
 src/cpp/eustace/analysis/inputmanager.cpp            | 2 ++
 2 files changed, 10 insertions(+)

diff --git a/src/cpp/eustace/analysis/fileio/locationpointers.cpp b/src/cpp/eustace/analysis/fileio/locationpointers.cpp
index c0067a8..159ce6d 100644
--- a/src/cpp/eustace/analysis/fileio/locationpointers.cpp
+++ b/src/cpp/eustace/analysis/fileio/locationpointers.cpp
@@ -53,11 +53,17 @@ namespace EUSTACE
     std::vector< std::vector<LocationPointerRecord> >::iterator record_iterator(record.begin());
     for (std::vector<uint64_t>::const_iterator location_id_iterator(location_id_subset.begin()); location_id_iterator != location_id_subset.end(); location_id_iterator++, record_iterator++)
     {
+      // id should be in the table
+      if (*location_id_iterator >= location_count)
+	throw FormatExceptionUnexpectedDataSize();
+
       // entry in local offsets table for this id
       LocalOffsetRecord localoffset;
       memset(&localoffset, 0, sizeof(LocalOffsetRecord));
       inputstream.seekg(local_offset_table_start + size_t(*location_id_iterator)*sizeof(LocalOffsetRecord), std::istream::beg);
       inputstream.read((char*)&localoffset, sizeof(LocalOffsetRecord));
+      if (!inputstream)
+	throw FormatExceptionUnexpectedDataSize();
 
       // corresponding output element
       std::vector<LocationPointerRecord>& current_record = *record_iterator;
@@ -70,6 +76,8 @@ namespace EUSTACE
 
       // read
       inputstream.read((char*)&current_record[0], localoffset.count*sizeof(LocationPointerRecord));
+      if (!inputstream)
+	throw FormatExceptionUnexpectedDataSize();
     }
   }
 }
diff --git a/src/cpp/eustace/analysis/inputmanager.cpp b/src/cpp/eustace/analysis/inputmanager.cpp
index e2ccfe9..fd04812 100644
--- a/src/cpp/eustace/analysis/inputmanager.cpp
+++ b/src/cpp/eustace/analysis/inputmanager.cpp
@@ -287,6 +287,8 @@ namespace EUSTACE
 
 	// read information
 	obsstream.read(observation_pointer, observation_data_element_size);
+	if (!obsstream)
+	  throw FormatExceptionUnexpectedDataSize();
 
 	// and increment output pointer ready to read next element
 	observation_pointer += observation_data_element_size;
-- 
2.43.0


From 5862a489859d2944284ec7c41ff8a34950e45484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:15 +0000
Subject: [PATCH 52/92] fix: refuse observations of another location table in
 C++ input manager

Python refuses these files; the C++ input manager gave the observations the
coordinates of unrelated locations.
---
 src/cpp/eustace/analysis/fileio/rawbinary.h  |  4 ++++
 src/cpp/eustace/analysis/inputmanager.cpp    | 22 +++++++++++++++++++-
 src/cpp/eustace/analysis/observationsource.h |  3 +++
 3 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/cpp/eustace/analysis/fileio/rawbinary.h b/src/cpp/eustace/analysis/fileio/rawbinary.h
index 3a2dcdf..c83b96f 100644
--- a/src/cpp/eustace/analysis/fileio/rawbinary.h
+++ b/src/cpp/eustace/analysis/fileio/rawbinary.h
@@ -24,6 +24,10 @@ namespace EUSTACE
   {
   };
 
+  class FormatExceptionLocationMismatch : public FormatException
+  {
+  };
+
   class RawBinaryReader
   {
   public:
diff --git a/src/cpp/eustace/analysis/inputmanager.cpp b/src/cpp/eustace/analysis/inputmanager.cpp
index fd04812..1fef2c0 100644
--- a/src/cpp/eustace/analysis/inputmanager.cpp
+++ b/src/cpp/eustace/analysis/inputmanager.cpp
@@ -204,6 +204,10 @@ namespace EUSTACE
     std::ifstream inputstream(pathname_observation.c_str(), std::ios::binary);
     reader.Read(retrieval.observations, inputstream);
     inputstream.close();
+
+    // Location ids are only meaningful in the lookup that the observations were written for
+    if (retrieval.observations.LocationLookupID() != retrieval.location_lookup->ID())
+      throw FormatExceptionLocationMismatch();
   }
 
   void AnalysisInputManager::RetrieveLocations(AnalysisInputRetrievalCollection& collection, 
@@ -231,7 +235,16 @@ namespace EUSTACE
       std::string pathname_location_pointers;
       PathNameLocationPointers(pathname_location_pointers, source, observable);
       std::ifstream pointerstream(pathname_location_pointers.c_str(), std::ios::binary);
-      LocationPointersRawBinaryReader().Read(pointer_records, pointerstream, location_id_subset);
+      LocationPointersRawBinaryReader pointer_reader;
+      pointer_reader.Read(pointer_records, pointerstream, location_id_subset);
+
+      // Pointers should be for the same lookup
+      LocationLookupUUID uuid;
+      uint64_t location_count(0);
+      pointerstream.seekg(0, std::ios::beg);
+      pointer_reader.ReadAndCheckExtendedHeader(uuid, location_count, pointerstream);
+      if (uuid != location_lookup->ID())
+	throw FormatExceptionLocationMismatch();
     }
 
     // number of locally correlated uncertainty ranges
@@ -282,6 +295,13 @@ namespace EUSTACE
 	PathNameObservation(pathname_observation, source, observable, time_iterator->daynumber);
 	std::ifstream obsstream(pathname_observation.c_str(), std::ios::binary);
 
+	// observations should be for the same lookup
+	LocationLookupUUID uuid;
+	size_t num_entries(0);
+	ObservationRawBinaryReader(num_correlation_ranges).ReadAndCheckExtendedHeader(obsstream, uuid, num_entries);
+	if (uuid != location_lookup->ID())
+	  throw FormatExceptionLocationMismatch();
+
 	// seek to offset expressed in pointers file
 	obsstream.seekg(time_iterator->fileoffset, std::ifstream::beg);	
 
diff --git a/src/cpp/eustace/analysis/observationsource.h b/src/cpp/eustace/analysis/observationsource.h
index f14787a..d143231 100644
--- a/src/cpp/eustace/analysis/observationsource.h
+++ b/src/cpp/eustace/analysis/observationsource.h
@@ -31,6 +31,9 @@ namespace EUSTACE
     const uint8_t* Bytes() const
     { return bytes; }
 
+    bool operator!=(const LocationLookupUUID& other) const
+    { return memcmp(bytes, other.bytes, LocationLookupUUID::sizebytes) != 0; }
+
   private:
     uint8_t bytes[LocationLookupUUID::sizebytes];
   };
-- 
2.43.0


From aaf6f09869f5acb721d6e21260582925c779c0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:38 +0000
Subject: [PATCH 53/92] fix: read break points when no likelihood is missing

A masked array without missing values has a scalar mask, which added a
dimension to every column of the break table.
---
 src/eustace/preprocess/fileio/insitu_land_breakpoints.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/eustace/preprocess/fileio/insitu_land_breakpoints.py b/src/eustace/preprocess/fileio/insitu_land_breakpoints.py
index cb6fb7e..8180f93 100644
--- a/src/eustace/preprocess/fileio/insitu_land_breakpoints.py
+++ b/src/eustace/preprocess/fileio/insitu_land_breakpoints.py
@@ -69,10 +69,7 @@ class ObservationBreakPointSourceInsituLand(ObservationSource):
 
         break_likelihood = self.dataset.variables[ObservationBreakPointSourceInsituLand.OBSERVATIONMAPS[observable]['break_likelihood'].name]
 
-        if hasattr(break_likelihood[:],'mask'):
-            likelihood_mask = ~break_likelihood[:].mask
-        else:
-            likelihood_mask = numpy.broadcast_to(numpy.array([True]),break_likelihood[:].shape)
+        likelihood_mask = ~numpy.ma.getmaskarray(break_likelihood[:])
 
         parameters = {}
         keys = ObservationBreakPointSourceInsituLand.OBSERVATIONMAPS[observable].keys()
-- 
2.43.0


From 539a4e18563e3b138bfb3d611959b5b61ca402d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:20 +0000
Subject: [PATCH 54/92] fix: give every cell a mask value when no cell of a
 gridded source is missing

---
 src/eustace/surfaceairmodel/fileio/cubemap.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/eustace/surfaceairmodel/fileio/cubemap.py b/src/eustace/surfaceairmodel/fileio/cubemap.py
index 82dd010..8968cdf 100644
--- a/src/eustace/surfaceairmodel/fileio/cubemap.py
+++ b/src/eustace/surfaceairmodel/fileio/cubemap.py
@@ -73,14 +73,14 @@ class ObservationSourceCubeMapGrid(ObservationSource, CubeList):
         location = numpy.array(range(self.number_of_observations()), numpy.uint64) # location ids are just grid indices
         time = measurement.coords('time')[0].points[0]
         uncorrelatederror = self.get_field_by_name(obsmap.uncorrelatederror).data
-        locallycorrelatederror = [ self.get_field_by_name(mapname).data.data.ravel() for mapname in obsmap.locallycorrelatederror ]
+        locallycorrelatederror = [ numpy.ma.getdata(self.get_field_by_name(mapname).data).ravel() for mapname in obsmap.locallycorrelatederror ]
         localcorrelationscale = obsmap.localcorrelationscale
         return Observations(
-            measurement.data.mask.ravel(), 
+            numpy.ma.getmaskarray(measurement.data).ravel(), 
             time, 
             location, 
-            measurement.data.data.ravel(), 
-            uncorrelatederror.data.ravel(), 
+            numpy.ma.getdata(measurement.data).ravel(), 
+            numpy.ma.getdata(uncorrelatederror).ravel(), 
             locallycorrelatederror)
 
     def local_correlation_length_scale(self, observable):
-- 
2.43.0


From 73cb83f8c62ec5296bc9fd7257580421d45c0648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:20 +0000
Subject: [PATCH 55/92] fix: mean of minimum and maximum when one has no file
 and errors are correlated

---
 src/eustace/analysis/fileio/observationsource_missing.py   | 6 +++---
 src/eustace/analysis/fileio/observationsource_rawbinary.py | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/eustace/analysis/fileio/observationsource_missing.py b/src/eustace/analysis/fileio/observationsource_missing.py
index c1042f2..25eb225 100644
--- a/src/eustace/analysis/fileio/observationsource_missing.py
+++ b/src/eustace/analysis/fileio/observationsource_missing.py
@@ -35,14 +35,14 @@ class ObservationSourceMissing(ObservationSource):
 
 class ObservationsMissing(Observations):
     
-    def __init__(self, time):
+    def __init__(self, time, number_of_correlation_ranges=0):
         #"""Build observation set from NumPy arrays."""
         self.mask = numpy.ones(shape=(0), dtype=numpy.bool)
         self.time = time
-        self.location = numpy.empty(shape=(0))
+        self.location = numpy.empty(shape=(0), dtype=numpy.uint64)
         self.measurement = numpy.empty(shape=(0))
         self.uncorrelatederror = numpy.empty(shape=(0))
-        self.locallycorrelatederror = numpy.empty(shape=(0))
+        self.locallycorrelatederror = [ numpy.empty(shape=(0)) for index in range(number_of_correlation_ranges) ]
 
     def number_of_observations(self):
         
diff --git a/src/eustace/analysis/fileio/observationsource_rawbinary.py b/src/eustace/analysis/fileio/observationsource_rawbinary.py
index 705a7a7..3b2a73c 100644
--- a/src/eustace/analysis/fileio/observationsource_rawbinary.py
+++ b/src/eustace/analysis/fileio/observationsource_rawbinary.py
@@ -497,7 +497,7 @@ class ObservationSourceSingleDayRawBinary(ObservationSource):
         if spec.filename is not None and self.location_lookup_with_id is not None:
             return reader.read_day(spec.filename, self.location_lookup_with_id.uuid, self.daynumber)
         else:
-            return ObservationsMissing(self.daynumber)
+            return ObservationsMissing(self.daynumber, len(spec.localcorrelationranges))
         
     def local_correlation_length_scale(self, observable):
         """Length scale for locally correlated component of uncertainty."""
-- 
2.43.0


From be583b9d4e65e5d83c624f7706bce59a7c3be99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:20 +0000
Subject: [PATCH 56/92] fix: read ship and lake files that hold a single
 observation

---
 src/eustace/preprocess/fileio/insitu_ocean.py | 3 ++-
 src/eustace/surfaceairmodel/fileio/lake.py    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/eustace/preprocess/fileio/insitu_ocean.py b/src/eustace/preprocess/fileio/insitu_ocean.py
index 3f7a957..f2acad2 100644
--- a/src/eustace/preprocess/fileio/insitu_ocean.py
+++ b/src/eustace/preprocess/fileio/insitu_ocean.py
@@ -76,7 +76,8 @@ class ObservationSourceInsituOceanHadNMAT2(ObservationSource):
         # parse tab-delimted format
         # comments=None is required because some stations have the hashtag character in their name
         textfile.seek(0)
-        txtdata = numpy.genfromtxt(textfile, delimiter=HadNMAT2Format.FIELDWIDTH, usecols=format.usecols, names=HadNMAT2Format.FIELDS, dtype=HadNMAT2Format.DTYPES, comments=None)
+        # (atleast_1d because a single line gives an array without dimensions)
+        txtdata = numpy.atleast_1d(numpy.genfromtxt(textfile, delimiter=HadNMAT2Format.FIELDWIDTH, usecols=format.usecols, names=HadNMAT2Format.FIELDS, dtype=HadNMAT2Format.DTYPES, comments=None))
 
         # build coordinates
         self.coords = numpy.vstack([ 
diff --git a/src/eustace/surfaceairmodel/fileio/lake.py b/src/eustace/surfaceairmodel/fileio/lake.py
index 39ea384..3bf5047 100644
--- a/src/eustace/surfaceairmodel/fileio/lake.py
+++ b/src/eustace/surfaceairmodel/fileio/lake.py
@@ -41,7 +41,8 @@ class ObservationSourceLakeReading(ObservationSource):
         super(ObservationSource, self).__init__()                
 
         # parse tab-delimted format
-        txtdata = numpy.genfromtxt(filename, names=True, converters={ObservationSourceLakeReading.COLUMN_DATETIME: ObservationSourceLakeReading.parse_date}, dtype=numpy.float32)
+        # (atleast_1d because a single line gives an array without dimensions)
+        txtdata = numpy.atleast_1d(numpy.genfromtxt(filename, names=True, converters={ObservationSourceLakeReading.COLUMN_DATETIME: ObservationSourceLakeReading.parse_date}, dtype=numpy.float32))
 
         # signatures for each location so we can spot duplicates
         location_signature = \
-- 
2.43.0


From e2d68bdf41c1a491e9b86f2afe0e9eb5ba07ea81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:20 +0000
Subject: [PATCH 57/92] fix: never take lakes at different places for the same
 one

---
 src/eustace/surfaceairmodel/fileio/lake.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/eustace/surfaceairmodel/fileio/lake.py b/src/eustace/surfaceairmodel/fileio/lake.py
index 3bf5047..1d80b38 100644
--- a/src/eustace/surfaceairmodel/fileio/lake.py
+++ b/src/eustace/surfaceairmodel/fileio/lake.py
@@ -44,18 +44,16 @@ class ObservationSourceLakeReading(ObservationSource):
         # (atleast_1d because a single line gives an array without dimensions)
         txtdata = numpy.atleast_1d(numpy.genfromtxt(filename, names=True, converters={ObservationSourceLakeReading.COLUMN_DATETIME: ObservationSourceLakeReading.parse_date}, dtype=numpy.float32))
 
-        # signatures for each location so we can spot duplicates
-        location_signature = \
-            numpy.int64(360 * 1000000 * txtdata[ObservationSourceLakeReading.COLUMN_LAT]) + \
-            numpy.int64(      1000000 * txtdata[ObservationSourceLakeReading.COLUMN_LON])
-
-        # find duplicate signatures
-        unique_signature, unique_indices, self.location_ids = numpy.unique(location_signature, return_index=True, return_inverse=True)
- 
-        # coordinates of unique signatures only
-        self.location_lookup = numpy.vstack([ 
-                txtdata[ObservationSourceLakeReading.COLUMN_LAT][unique_indices], 
-                txtdata[ObservationSourceLakeReading.COLUMN_LON][unique_indices] ])
+        # coordinates of every observation
+        coordinates = numpy.vstack([
+                txtdata[ObservationSourceLakeReading.COLUMN_LAT],
+                txtdata[ObservationSourceLakeReading.COLUMN_LON] ])
+
+        # find duplicate locations
+        unique_coordinates, self.location_ids = numpy.unique(coordinates.T, axis=0, return_inverse=True)
+
+        # coordinates of unique locations only
+        self.location_lookup = unique_coordinates.T
 
         # get time
         self.time = txtdata[ObservationSourceLakeReading.COLUMN_DATETIME]
-- 
2.43.0


From 52781d218845329724b0cb537cad61d94a38bcdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:20 +0000
Subject: [PATCH 58/92] fix: construct lake source as it is defined when
 preparing raw binary files

---
 src/eustace/analysis/preparecorrelationranges.py | 4 ++--
 src/eustace/analysis/preparedailyfixed.py        | 6 ++++++
 src/eustace/analysis/preparelocationlookup.py    | 4 ++--
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/eustace/analysis/preparecorrelationranges.py b/src/eustace/analysis/preparecorrelationranges.py
index 4eff59d..71d6fdd 100644
--- a/src/eustace/analysis/preparecorrelationranges.py
+++ b/src/eustace/analysis/preparecorrelationranges.py
@@ -12,8 +12,8 @@ def run(outputfilename, inputfilename, sourcename, observable):
     sourceclasses.update(preparedailyfixed.SOURCECLASS)
     sourceclasses.update(preparedailymobile.SOURCECLASS)
 
-    # Construct source reader (slightly different constructors for in-situ)
-    if (sourcename == preparedailyfixed.SOURCE_INSITU_LAND) or (sourcename == preparedailymobile.SOURCE_INSITU_OCEAN):
+    # Construct source reader (slightly different constructors for in-situ and lakes)
+    if sourcename in [ preparedailyfixed.SOURCE_INSITU_LAND, preparedailyfixed.SOURCE_SATELLITE_LAKE, preparedailymobile.SOURCE_INSITU_OCEAN ]:
         source = sourceclasses[sourcename](inputfilename)
     else:
         source = sourceclasses[sourcename]([ observable ], inputfilename)
diff --git a/src/eustace/analysis/preparedailyfixed.py b/src/eustace/analysis/preparedailyfixed.py
index 3062faa..84ff3b0 100644
--- a/src/eustace/analysis/preparedailyfixed.py
+++ b/src/eustace/analysis/preparedailyfixed.py
@@ -43,6 +43,12 @@ def run_day(outputfilename, locationfilename, dailyfilename, processdate, source
         
         # Load it
         dailydata = source.observations(observable, qc_mask)
+    elif sourcename == SOURCE_SATELLITE_LAKE:
+        # special case for lakes as they only have one observable
+        source = SOURCECLASS[sourcename](dailyfilename)
+
+        # Load it
+        dailydata = source.observations(observable)
     else:
         source = SOURCECLASS[sourcename]([ observable ] , dailyfilename)
 
diff --git a/src/eustace/analysis/preparelocationlookup.py b/src/eustace/analysis/preparelocationlookup.py
index bf52676..00707aa 100644
--- a/src/eustace/analysis/preparelocationlookup.py
+++ b/src/eustace/analysis/preparelocationlookup.py
@@ -11,8 +11,8 @@ def run(outputfilename, inputfilename, sourcename):
 
     print 'Loading: ', inputfilename
 
-    # load observation source (slightly different constructor for in-situ land)
-    if sourcename == preparedailyfixed.SOURCE_INSITU_LAND:
+    # load observation source (slightly different constructor for in-situ land and lakes)
+    if sourcename in [ preparedailyfixed.SOURCE_INSITU_LAND, preparedailyfixed.SOURCE_SATELLITE_LAKE ]:
         source = preparedailyfixed.SOURCECLASS[sourcename](inputfilename)
     else:
         source = preparedailyfixed.SOURCECLASS[sourcename]([ ObservationSource.TMIN ] , inputfilename)
-- 
2.43.0


From e86720ad6b9e336d6c6f04314f4cfd3d5f57d1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:20 +0000
Subject: [PATCH 59/92] fix: pass altitude adjustment as such when no stations
 are held out

---
 src/eustace/analysis/preparedailyfixed.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/eustace/analysis/preparedailyfixed.py b/src/eustace/analysis/preparedailyfixed.py
index 84ff3b0..bd11ac8 100644
--- a/src/eustace/analysis/preparedailyfixed.py
+++ b/src/eustace/analysis/preparedailyfixed.py
@@ -36,10 +36,7 @@ def run_day(outputfilename, locationfilename, dailyfilename, processdate, source
     # Get the info
     if sourcename == SOURCE_INSITU_LAND:
         # special case for land to load only data relevant to given day number
-        if hold_out_list == None:
-            source = SOURCECLASS[sourcename](dailyfilename, daynumber, altitude_adjustment)
-        else:
-            source = SOURCECLASS[sourcename](dailyfilename, daynumber, hold_out_list, altitude_adjustment)
+        source = SOURCECLASS[sourcename](dailyfilename, daynumber, hold_out_list, altitude_adjustment)
         
         # Load it
         dailydata = source.observations(observable, qc_mask)
-- 
2.43.0


From cea52e19d114106a63c5d152009fee7c101209dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:19 +0000
Subject: [PATCH 60/92] fix: apply quality flags and hold-out list to station
 data in every combination

---
 src/eustace/preprocess/fileio/insitu_land.py | 30 +++++++-------------
 1 file changed, 10 insertions(+), 20 deletions(-)

diff --git a/src/eustace/preprocess/fileio/insitu_land.py b/src/eustace/preprocess/fileio/insitu_land.py
index 7e03201..bfd591e 100644
--- a/src/eustace/preprocess/fileio/insitu_land.py
+++ b/src/eustace/preprocess/fileio/insitu_land.py
@@ -114,6 +114,7 @@ class ObservationSourceInsituLand(ObservationSource):
         # Restrict by time if requested
         if self.daynumber is None:
             measurement = variable[:]
+            qc_flags = qc_var[:]
         
         else:
             # argwhere - Finds the indices of array elements that are non-zero, grouped by element
@@ -124,34 +125,23 @@ class ObservationSourceInsituLand(ObservationSource):
                 # extract measurement by advanced index and slice  
                 measurement = variable[dayindex.ravel(), :]
                 time = time[dayindex]
-
-                # the mask is updated so True areas also represent areas where 
-                # qc flags have failed checks  
-                if qc_mask:
-                    # replicate method used for measurement to return data relating to specified day indices 
-                    qc_var_day = qc_var[dayindex.ravel(), :]
-                    # create a mask for areas where the qc flag values are not 0
-                    # this mask - True values - relates to all data that failed qc checks
-                    qc_data_mask = numpy.ma.masked_not_equal(qc_var_day, 0)
-                    # update the measurement mask to additionally mask out areas from the qc data mask, 
-                    # in addition to those areas already masked out
-                    measurement.mask = numpy.logical_or(
-                                       measurement.mask, qc_data_mask)
+                qc_flags = qc_var[dayindex.ravel(), :]
 
             else:
                 return None                        
 
+        # one mask value per observation (reader gives a scalar when nothing is missing)
+        measurement = numpy.ma.masked_array(measurement, mask=numpy.ma.getmaskarray(measurement))
+
         if self.hold_out_dataset:
             # mask out those stations not used for training the learning algorithm
             measurement.mask = numpy.logical_or(measurement.mask, self.identify_validation_stations())
 
-            # the mask is updated so True areas also represent areas where 
-            # qc flags have failed checks  
-            if qc_mask:
-                qc_data_mask = numpy.ma.masked_not_equal(qc_var, 0)
-                measurement.mask = numpy.logical_or(
-                                   measurement.mask, qc_data_mask)
-                                   
+        # the mask is updated so True areas also represent areas where
+        # qc flags have failed checks (or are not available)
+        if qc_mask:
+            measurement.mask = numpy.logical_or(measurement.mask, numpy.ma.filled(qc_flags != 0, True))
+
         # Formulate output
         all_time = numpy.tile(time, (measurement.shape[1], 1)).transpose()
         all_stations = numpy.tile(numpy.array(range(measurement.shape[1]), numpy.uint64), (measurement.shape[0], 1))
-- 
2.43.0


From cddc2d086c939d2ea39e768d04c4bbcfe8b485f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:52 +0000
Subject: [PATCH 61/92] fix: satgrid counts observations just outside the grid
 in its edge boxes, and those at the north pole at the south pole

Indices were truncated towards zero, so an observation up to one box below the start of an axis was aggregated into the
first box, and with wrapped coordinates one up to a whole box beyond the end was too. The latitude axis wrapped as well,
so an observation at exactly 90N was put in the box at 90S.
---
 src/eustace/satgrid/file_aggregate_grid.py |  2 +-
 src/eustace/satgrid/grid.py                | 16 ++++++++++++----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/eustace/satgrid/file_aggregate_grid.py b/src/eustace/satgrid/file_aggregate_grid.py
index 1225f44..cf6c16d 100644
--- a/src/eustace/satgrid/file_aggregate_grid.py
+++ b/src/eustace/satgrid/file_aggregate_grid.py
@@ -205,7 +205,7 @@ class SatelliteFileAggregator(object):
         """ Construct aggregation instance using arguments from specified args namespace."""
 
         return SatelliteFileAggregator(
-            axis_lat=GridAxis(args.y0, args.ys, args.yn, args.wrapcoords),
+            axis_lat=GridAxis(args.y0, args.ys, args.yn, args.wrapcoords, polar=True),
             axis_lon=GridAxis(args.x0, args.xs, args.xn, args.wrapcoords),
             qc_mask_obs=args.qc_mask_obs, qc_filter_obs=args.qc_filter_obs,
             qc_mask_valid=args.qc_mask_valid, qc_filter_valid=args.qc_filter_valid,
diff --git a/src/eustace/satgrid/grid.py b/src/eustace/satgrid/grid.py
index 399ea7a..f077190 100644
--- a/src/eustace/satgrid/grid.py
+++ b/src/eustace/satgrid/grid.py
@@ -9,18 +9,26 @@ import numpy
 class GridAxis(object):
     """Represent one axis of a regular grid by its start, increment, and length (number of increments)."""
 
-    def __init__(self, start, increment, length, wrap=False):
+    # Limits of the axis are recognised to within this fraction of a grid box
+    # (allows for rounding of single-precision or packed coordinates).
+    TOLERANCE = 1.0E-3
+
+    def __init__(self, start, increment, length, wrap=False, polar=False):
         self.start = start
         self.increment = increment
         self.length = length
         self.wrap = wrap
+        self.polar = polar
 
     def compute_indices(self, values):
         """Determine the integer indices along this axis at which the given axis values are located."""
-        bin_indices = ((values - self.start) / self.increment).astype(numpy.int32)
+        position = (values - self.start) / self.increment
+        bin_indices = numpy.floor(position).astype(numpy.int32)
+        bin_indices[(position < 0.0) & (position >= -GridAxis.TOLERANCE)] = 0
         if self.wrap:
-            wrapped = (bin_indices == numpy.int32(self.length)).nonzero()
-            bin_indices[wrapped] = 0
+            # upper limit of axis is the same place as the lower limit (or is the pole, which belongs to the last box)
+            upper = (position >= self.length) & (position <= self.length + GridAxis.TOLERANCE)
+            bin_indices[upper] = (self.length - 1) if self.polar else 0
         if (bin_indices < 0).any():
             raise ValueError
         if (bin_indices >= self.length).any():
-- 
2.43.0


From fe5ef21476299538090158eaf72fe088919487aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:52 +0000
Subject: [PATCH 62/92] fix: satgrid aggregates the fill values of missing
 observations

Observations flagged as valid by QC but missing in the file were aggregated using the number beneath the mask.
---
 src/eustace/satgrid/file_aggregate_grid.py | 30 +++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/eustace/satgrid/file_aggregate_grid.py b/src/eustace/satgrid/file_aggregate_grid.py
index cf6c16d..4daff3c 100644
--- a/src/eustace/satgrid/file_aggregate_grid.py
+++ b/src/eustace/satgrid/file_aggregate_grid.py
@@ -62,12 +62,33 @@ class SatelliteFileAggregator(object):
         # Grid for two-pass variance calculation
         self.devsqgrid = AggregateGridSumDevSq(self.grid.dimensions)
 
+    @staticmethod
+    def remove_missing(satfile, indices, variablenames):
+        """Remove indices at which any of the specified variables has missing data."""
+
+        for name in variablenames:
+            values = satfile.get_variable_at_indices(name, indices)
+            indices = indices[~numpy.ma.getmaskarray(values)]
+        return indices
+
+    def get_valid_indices(self, satfile):
+        """Indices of data which satisfy the quality control filter for valid data and are not missing."""
+
+        return SatelliteFileAggregator.remove_missing(
+            satfile,
+            satfile.get_indices_from_qc(self.qc_mask_valid, self.qc_filter_valid),
+            [self.observation_name,
+             self.observation_name + '_unc_ran',
+             self.observation_name + '_unc_loc_atm',
+             self.observation_name + '_unc_loc_sfc',
+             'lat', 'lon'])
+
     def aggregate_file(self, satfile):
         """Aggregate the specified file."""
 
         # indices for valid data, variable at those points, and lat/lon coords
         # at those points
-        valid_indices = satfile.get_indices_from_qc(self.qc_mask_valid, self.qc_filter_valid)
+        valid_indices = self.get_valid_indices(satfile)
         observations = satfile.get_variable_at_indices(self.observation_name, valid_indices)
         uncertainty_random = satfile.get_variable_at_indices(self.observation_name + '_unc_ran', valid_indices)
         uncertainty_local_atm = satfile.get_variable_at_indices(self.observation_name + '_unc_loc_atm', valid_indices)
@@ -81,7 +102,10 @@ class SatelliteFileAggregator(object):
 
         # valid indices at all obs of interest (e.g. daytime), and
         # corresponding lat/lon
-        obs_indices = satfile.get_indices_from_qc(self.qc_mask_obs, self.qc_filter_obs)
+        obs_indices = SatelliteFileAggregator.remove_missing(
+            satfile,
+            satfile.get_indices_from_qc(self.qc_mask_obs, self.qc_filter_obs),
+            ['lat', 'lon'])
         obs_coord_lat = satfile.get_variable_at_indices('lat', obs_indices)
         obs_coord_lon = satfile.get_variable_at_indices('lon', obs_indices)
 
@@ -91,7 +115,7 @@ class SatelliteFileAggregator(object):
     def aggregate_file_second_order(self, fields0, satfile):
         """Aggregate for second-order fields, having already run once."""
 
-        valid_indices = satfile.get_indices_from_qc(self.qc_mask_valid, self.qc_filter_valid)
+        valid_indices = self.get_valid_indices(satfile)
         obs = satfile.get_variable_at_indices(self.observation_name, valid_indices)
         grid_bin_obs_mean = fields0['tsmean']
         coord_lat = satfile.get_variable_at_indices('lat', valid_indices)
-- 
2.43.0


From 2e361926eb4286cbeb3a138abb2342ba0a4ca656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:52 +0000
Subject: [PATCH 63/92] fix: satgrid misreads double-precision observations

The aggregate extension module reads its inputs as single precision whatever they are, so variables stored as double or
unpacked with a double-precision scale factor were aggregated as nonsense.
---
 src/eustace/satgrid/aggregate_grid.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/eustace/satgrid/aggregate_grid.py b/src/eustace/satgrid/aggregate_grid.py
index 7fbe963..f02daee 100644
--- a/src/eustace/satgrid/aggregate_grid.py
+++ b/src/eustace/satgrid/aggregate_grid.py
@@ -6,6 +6,14 @@ __author__ = "Joel R. Mitchelson"
 import numpy
 import aggregate
 
+def as_values(values):
+    """Values in the form which the aggregate extension module requires."""
+    return numpy.ascontiguousarray(values, numpy.float32)
+
+def as_indices(indices):
+    """Indices in the form which the aggregate extension module requires."""
+    return numpy.ascontiguousarray(indices, numpy.int32)
+
 class AggregateGrid(object):
     """Base class for aggregation."""
 
@@ -24,7 +32,7 @@ class AggregateGridCount(AggregateGrid):
     def aggregate_at_indices(self, indices):
         """Aggregate this set of indices."""
 
-        aggregate.aggregate_count(self.count, indices)
+        aggregate.aggregate_count(self.count, as_indices(indices))
 
 
 class AggregateGridSum(AggregateGrid):
@@ -80,7 +88,7 @@ class AggregateGridSumDevSq(AggregateGrid):
     def aggregate_at_indices(self, grid_mean_observations, indices, observations):
         """Sum to aggregate the given observations onto grid boxes determined by the given grid box indices."""
 
-        aggregate.aggregate_sum_dev_sq(self.sum_devsq, grid_mean_observations, observations, indices)
+        aggregate.aggregate_sum_dev_sq(self.sum_devsq, as_values(grid_mean_observations), as_values(observations), as_indices(indices))
 
 
 class AggregateGridArray(AggregateGrid):
@@ -225,11 +233,15 @@ class AggregateGridCountSumMinMax(AggregateGrid):
         # Allow use of 5 keyword arguments to this method
         # pylint: disable=too-many-arguments
 
+        # Inputs may be double precision (for example packed variables with double-precision scale factor)
+        indices = as_indices(indices)
+        observations = as_values(observations)
+
         aggregate.aggregate_count_sum_min_max(self.count, self.values_sum, self.values_min, self.values_max, observations, indices)
         aggregate.aggregate_sum(self.values_sum_sq, observations * observations, indices)
-        aggregate.aggregate_sum(self.uncertainty_random_sum_sq, uncertainty_random * uncertainty_random, indices)
-        aggregate.aggregate_sum(self.uncertainty_local_atm_sum_sq, uncertainty_local_atm * uncertainty_local_atm, indices)
-        aggregate.aggregate_sum(self.uncertainty_local_sfc_sum_sq, uncertainty_local_sfc * uncertainty_local_sfc, indices)
+        aggregate.aggregate_sum(self.uncertainty_random_sum_sq, as_values(uncertainty_random * uncertainty_random), indices)
+        aggregate.aggregate_sum(self.uncertainty_local_atm_sum_sq, as_values(uncertainty_local_atm * uncertainty_local_atm), indices)
+        aggregate.aggregate_sum(self.uncertainty_local_sfc_sum_sq, as_values(uncertainty_local_sfc * uncertainty_local_sfc), indices)
         aggregate.aggregate_constant(self.uncertainty_systematic_sum_sq, uncertainty_systematic * uncertainty_systematic, indices)
 
     def compute_fields(self, flag_invalid):
-- 
2.43.0


From 15a184cba611548bd934e8d7650903cead096bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:52 +0000
Subject: [PATCH 64/92] fix: AggregateGridArray ignores observations of zero
 and overflows into the next grid box

Extremes left out observations equal to zero, and observations above the maximum per box were stored in the next box.
---
 src/eustace/satgrid/aggregate_grid.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/eustace/satgrid/aggregate_grid.py b/src/eustace/satgrid/aggregate_grid.py
index f02daee..fcb29c9 100644
--- a/src/eustace/satgrid/aggregate_grid.py
+++ b/src/eustace/satgrid/aggregate_grid.py
@@ -131,6 +131,8 @@ class AggregateGridArray(AggregateGrid):
 
             # get latest count
             latest_count = count_flat[measurementbin]
+            if latest_count >= self.max_bin_obs:
+                raise ValueError('more than {0} observations in one grid box'.format(self.max_bin_obs))
 
             # convert to index to array where all obs are kept
             arrayindex = measurementbin * self.max_bin_obs + latest_count
@@ -171,7 +173,7 @@ class AggregateGridArray(AggregateGrid):
         valid_indices = numpy.nonzero(self.count)
 
         # compute stats
-        values_mask = (self.values == numpy.float32(0.0))
+        values_mask = (numpy.arange(self.max_bin_obs) >= self.count[:, :, numpy.newaxis])
         values = numpy.ma.masked_array(self.values, mask=values_mask)
 
         fields['tsmean'][valid_indices] = numpy.divide(numpy.sum(self.values, axis=2)[valid_indices], self.count[valid_indices])
-- 
2.43.0


From 13bfda1eddb8a055a4536d42a29dbeb5654fb5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:04 +0000
Subject: [PATCH 65/92] fix: satgrid_iris counts observations just outside the
 grid in its edge boxes, and those at the north pole at the south pole

Indices were truncated towards zero, so an observation up to one box below the start of an axis was binned into the first
box, and on a circular axis one up to a whole box beyond the end was too. The latitude axis is declared circular as well,
so an observation at exactly 90N was put in the box at 90S.
---
 src/eustace/satgrid_iris/gridbin/gridfieldlist.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/eustace/satgrid_iris/gridbin/gridfieldlist.py b/src/eustace/satgrid_iris/gridbin/gridfieldlist.py
index 8874da5..fbc73a5 100644
--- a/src/eustace/satgrid_iris/gridbin/gridfieldlist.py
+++ b/src/eustace/satgrid_iris/gridbin/gridfieldlist.py
@@ -8,6 +8,9 @@ import numpy
 INDEXTYPE = numpy.int32
 """Storage type used for indices into the grid."""
 
+INDEXTOLERANCE = 1.0E-3
+"""Limits of an axis are recognised to within this fraction of a grid box (allows for rounding of coordinates)."""
+
 class GridFieldAxis(object):
     """Parameters describing one axis of a field."""
 
@@ -29,10 +32,13 @@ class GridFieldAxis(object):
     def compute_indices(self, values):
         """Indices along this axis at which the given axis values are located."""
 
-        bin_indices = (((values - self.zeroth) / self.step) - 0.5).astype(INDEXTYPE)
+        position = ((values - self.zeroth) / self.step) - 0.5
+        bin_indices = numpy.floor(position).astype(INDEXTYPE)
+        bin_indices[(position < 0.0) & (position >= -INDEXTOLERANCE)] = 0
         if self.circular:
-            wrapped = (bin_indices == INDEXTYPE(self.count)).nonzero()
-            bin_indices[wrapped] = 0
+            # upper limit of axis is the same place as the lower limit (or is the pole, which belongs to the last box)
+            upper = (position >= self.count) & (position <= self.count + INDEXTOLERANCE)
+            bin_indices[upper] = (self.count - 1) if (self.standard_name == 'latitude') else 0
         if (bin_indices < 0).any():
             unexpected_indices = numpy.nonzero(bin_indices < 0)
             unexpected_values = values[unexpected_indices]
-- 
2.43.0


From d86625bb0b83162d134f3e07420d7d76a52c3ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:04 +0000
Subject: [PATCH 66/92] fix: satgrid_iris bins only the first value of an input
 without missing data

The mask of such an input is a single False, or does not exist at all.
---
 src/eustace/satgrid_iris/gridbin/gridbin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eustace/satgrid_iris/gridbin/gridbin.py b/src/eustace/satgrid_iris/gridbin/gridbin.py
index dd406fd..789ce3f 100644
--- a/src/eustace/satgrid_iris/gridbin/gridbin.py
+++ b/src/eustace/satgrid_iris/gridbin/gridbin.py
@@ -60,7 +60,7 @@ class GridBins(GridFieldList):
            Assumes input coordinate axis names match output grid unless input_coordinate_names specified."""
 
         # Use alternative mask if specified, otherwise input mask
-        mask = alternative_mask if (alternative_mask is not None) else inputcube.data.mask
+        mask = alternative_mask if (alternative_mask is not None) else numpy.ma.getmaskarray(inputcube.data)
 
         # Indices into flat input arrays which contain unmasked data
         mapfrom = numpy.nonzero(numpy.ravel(mask) == False)[0].astype(INDEXTYPE)
-- 
2.43.0


From fa5ab2e39a8739d45cf554a83fbec99c143009c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:04 +0000
Subject: [PATCH 67/92] fix: satgrid_iris rejects a file with no missing
 temperatures if an uncertainty is missing

The mask of the primary field was assumed to exist.
---
 src/eustace/satgrid_iris/satellite.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/eustace/satgrid_iris/satellite.py b/src/eustace/satgrid_iris/satellite.py
index 46680d8..47f0bd4 100644
--- a/src/eustace/satgrid_iris/satellite.py
+++ b/src/eustace/satgrid_iris/satellite.py
@@ -113,23 +113,24 @@ class SatelliteCollection(object):
 	# Append to primary cube as aux variables and check it covers known data
         for cube in cubes_aux_field:
             if hasattr(cube.data, 'mask'):
-                missing_aux_pixels = numpy.sum(numpy.logical_and(numpy.logical_not(cube_primary.data.mask), cube.data.mask))
+                primary_mask = numpy.ma.getmaskarray(cube_primary.data)
+                missing_aux_pixels = numpy.sum(numpy.logical_and(numpy.logical_not(primary_mask), cube.data.mask))
                 if missing_aux_pixels:		    
-                    original_pixel_count = numpy.sum(numpy.logical_not(cube_primary.data.mask))
+                    original_pixel_count = numpy.sum(numpy.logical_not(primary_mask))
                     message = 'Auxiliary field {0} does not cover primary field {1} with {2}/{3} pixels affected'.format(
                         cube.var_name, cube_primary.var_name, missing_aux_pixels, original_pixel_count)
                     # raise ValueError(message) # original behaviour was to generate an error here
                     # but instead restrict coverage to items with all fields valid
                     sys.stderr.write('WARNING: ' + message + ': removing those pixels\n')
-                    cube_primary.data.mask |= cube.data.mask
+                    cube_primary.data = numpy.ma.masked_array(data=cube_primary.data, mask=numpy.logical_or(primary_mask, cube.data.mask))
             cube_primary.add_aux_coord(AuxCoord(points=cube.data, var_name=cube.var_name), (0,1))
 	    
         # Append scalar values to primary cube (unless masked)
         for cube in cubes_aux_scalar:
             if hasattr(cube.data, 'mask'):
-                if cube.data.mask[0]:
+                if numpy.ma.getmaskarray(cube.data)[0]:
                     # Aux scalar is unexpectedly masked
-                    pixels_affected = numpy.sum(numpy.logical_not(cube_primary.data.mask))
+                    pixels_affected = numpy.sum(numpy.logical_not(numpy.ma.getmaskarray(cube_primary.data)))
                     if pixels_affected:
                         # If there were supposed to be any valid measurement pixels, raise an error here
                         message = 'Auxiliary scalar {0} is masked out with {1} pixels affected'.format(cube.var_name, pixels_affected)
-- 
2.43.0


From bd65c5a4c8cd32e1519affcb70fcfc21c606762a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:04 +0000
Subject: [PATCH 68/92] fix: satgrid_iris bins observations with missing
 coordinates

Only coordinates equal to the error value were excluded, not those which are masked.
---
 src/eustace/satgrid_iris/satellite.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eustace/satgrid_iris/satellite.py b/src/eustace/satgrid_iris/satellite.py
index 47f0bd4..92332a4 100644
--- a/src/eustace/satgrid_iris/satellite.py
+++ b/src/eustace/satgrid_iris/satellite.py
@@ -176,9 +176,9 @@ class SatelliteCollection(object):
 		
 	for name in ['latitude', 'longitude']:
 	    coord = self.cube.coord(name)
-	    if (coord.points==ERRORVALUE).any():
+	    coordinate_mask = numpy.logical_or(numpy.ma.getmaskarray(coord.points), numpy.ma.getdata(coord.points)==ERRORVALUE)
+	    if coordinate_mask.any():
 	      self.safety_flag = True
-	      coordinate_mask = coord.points==ERRORVALUE
 	      message='Invalid {0} values: detected  {1}/{2} wrong values'.format(coord.name(),coordinate_mask.sum(),coordinate_mask.size)
 	      sys.stderr.write('WARNING: ' + message + ': removing those pixels\n')
 	      self.safety_mask = numpy.logical_or(self.safety_mask,coordinate_mask)
-- 
2.43.0


From 5293d74ce4d65629c72169d0857606784bbce2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:55 +0000
Subject: [PATCH 69/92] fix: diagnostic grid reports the last uncertainty as
 the minimum one

The observation was compared with the minimum uncertainty so far.
---
 src/eustace/analysis/diagnosticgrid_aggregate.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eustace/analysis/diagnosticgrid_aggregate.pyx b/src/eustace/analysis/diagnosticgrid_aggregate.pyx
index 4b1da35..c267337 100644
--- a/src/eustace/analysis/diagnosticgrid_aggregate.pyx
+++ b/src/eustace/analysis/diagnosticgrid_aggregate.pyx
@@ -33,7 +33,7 @@ def diagnosticgrid_aggregate(
             observation_min[gridindex] = obs
         if obs > observation_max[gridindex]:
             observation_max[gridindex] = obs
-        if obs < uncertainty_min[gridindex]:
+        if unc < uncertainty_min[gridindex]:
             uncertainty_min[gridindex] = unc
         if unc > uncertainty_max[gridindex]:
             uncertainty_max[gridindex] = unc
-- 
2.43.0


From c916b8c5c4b4aae2b2c8a9f779354cb52c9aa50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:55 +0000
Subject: [PATCH 70/92] fix: diagnostic grid keeps an out of date weighted mean
 when more observations are added

Computing it again added a second field of the same name, and the first one was still the one found.
---
 src/eustace/analysis/diagnosticgrid.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/eustace/analysis/diagnosticgrid.py b/src/eustace/analysis/diagnosticgrid.py
index 816c049..58d4c8d 100644
--- a/src/eustace/analysis/diagnosticgrid.py
+++ b/src/eustace/analysis/diagnosticgrid.py
@@ -122,4 +122,8 @@ class DiagnosticGridBins(GridFieldList):
         newfieldname = DiagnosticGridBins.FIELDNAMEFORMAT.format(sourcename=sourcename, observable=observable, diagnostic='observation_weightedmean')
         descriptor = GridFieldDescriptor(var_name=newfieldname, usemask=True, dtype=numpy.float64)
         contents = weightedsum.data / precision_sum.data
-        self.create_field(descriptor, contents)
+        existing = self.get_field(newfieldname)
+        if existing is None:
+            self.create_field(descriptor, contents)
+        else:
+            existing.data = contents
-- 
2.43.0


From f3ab0e8a88ea2fb6c365d30960cc4b4bffe75df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:55 +0000
Subject: [PATCH 71/92] fix: diagnostic grids cannot be made for a day on which
 one source has no observations

Printing the range of observations failed if there were none.
---
 src/eustace/analysis/diagnostic_combine.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/eustace/analysis/diagnostic_combine.py b/src/eustace/analysis/diagnostic_combine.py
index 40f5ed6..dcd5fd3 100644
--- a/src/eustace/analysis/diagnostic_combine.py
+++ b/src/eustace/analysis/diagnostic_combine.py
@@ -81,5 +81,8 @@ def print_stats(source, sourcename, observable):
     """Write basic stats to standard output"""
 
     obs = source.observations(observable).measurement
+    if len(obs) == 0:
+        print '{0}:{1}: no observations'.format(sourcename, observable)
+        return
     print 'min({0}:{1}): {2}'.format(sourcename, observable, min(obs))
     print 'max({0}:{1}): {2}'.format(sourcename, observable, max(obs))
-- 
2.43.0


From fa390c98134636befc965ab7e2b5f24a9d92928f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:30 +0000
Subject: [PATCH 72/92] fix: exhaustive locator finds no triangle for some
 points on triangle boundaries

---
 src/eustace/analysis/mesh/locator_search_planes.pyx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/eustace/analysis/mesh/locator_search_planes.pyx b/src/eustace/analysis/mesh/locator_search_planes.pyx
index 397a9dc..f2c97ab 100644
--- a/src/eustace/analysis/mesh/locator_search_planes.pyx
+++ b/src/eustace/analysis/mesh/locator_search_planes.pyx
@@ -23,6 +23,7 @@ def locator_search_planes_exhaustive(
 
     	# Get 3D vector for one point only
         p = points[j,:]
+        best = 1.0e-9
 
 	# Loop over all normals and check occupancy
         for i in range(m):
@@ -32,6 +33,10 @@ def locator_search_planes_exhaustive(
             result0 = p[0]*n0[0] + p[1]*n0[1] + p[2]*n0[2]
             result1 = p[0]*n1[0] + p[1]*n1[1] + p[2]*n1[2]
             result2 = p[0]*n2[0] + p[1]*n2[1] + p[2]*n2[2]
-            if (result0 <= 0.0) and (result1 <= 0.0) and (result2 <= 0.0):
+            outside = max(result0, result1, result2)
+            if outside < best:
+                # Keep closest so far: rounding can put a point on a boundary just outside of all triangles
+                best = outside
                 indices[j] = i
+            if outside <= 0.0:
                 break
-- 
2.43.0


From ce3136807525b8e1d26b92d021c5919d517b6001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:30 +0000
Subject: [PATCH 73/92] fix: hierarchical locator with spherical weights puts
 points in wrong triangles

---
 src/eustace/analysis/mesh/locator.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/eustace/analysis/mesh/locator.py b/src/eustace/analysis/mesh/locator.py
index aab805f..7343438 100644
--- a/src/eustace/analysis/mesh/locator.py
+++ b/src/eustace/analysis/mesh/locator.py
@@ -97,8 +97,8 @@ class TriangleLocatorHierarchical(TriangleLocator):
         # initialise triangle numbers
         trianglenumbers = numpy.uint64(top_level_indices) << MeshIcosahedron.BASE_HASH_SHIFT
 
-        # evaluate barycentres (planar geometry)
-        barycentres = evaluation_method(point0, point1, point2, v)
+        # evaluate barycentres (always planar geometry here: the lines dividing sub-triangles are straight only in the plane)
+        barycentres = barycentric_coordinates_planar(point0, point1, point2, v)
 
         # and now perform repeated subdivision to get finest possible triangle number
         for i in range(1, int(levels) + 1):
@@ -110,11 +110,15 @@ class TriangleLocatorHierarchical(TriangleLocator):
             TriangleLocatorHierarchical.triangle_points_to_subtriangle(point0, point1, point2, subnumbers)
 
             # re-evaluate barycentres with new points
-            barycentres = evaluation_method(point0, point1, point2, v)
+            barycentres = barycentric_coordinates_planar(point0, point1, point2, v)
 
             # update triangle numbers
             trianglenumbers = trianglenumbers | (subnumbers << (MeshIcosahedron.BASE_HASH_SHIFT -  numpy.uint64(2*i)))
     
+        # and evaluate final barycentres with other geometry if requested
+        if evaluation_method is not barycentric_coordinates_planar:
+            barycentres = evaluation_method(point0, point1, point2, v)
+
         return trianglenumbers, barycentres
 
     @staticmethod
-- 
2.43.0


From aa764af04d5a660242ec072a0ea9ecf6c289bb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:30 +0000
Subject: [PATCH 74/92] fix: spherical barycentric coordinates undefined at
 corners and along edges of triangles

---
 src/eustace/analysis/mesh/geometry.py | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/src/eustace/analysis/mesh/geometry.py b/src/eustace/analysis/mesh/geometry.py
index d62c0e7..c994294 100644
--- a/src/eustace/analysis/mesh/geometry.py
+++ b/src/eustace/analysis/mesh/geometry.py
@@ -79,6 +79,14 @@ def triangle_area_spherical(n0, n1, n2):
     # result
     return area
         
+def triangle_area_spherical_from_points(point0, point1, point2):
+    """Area of triangles on unit sphere with the given unit vectors at the corners.
+       Defined (zero) also for triangles of which corners coincide."""
+
+    triple_prod = numpy.abs(numpy.sum(point0 * numpy.cross(point1, point2, axis=1), axis=1))
+    dot_prod = numpy.sum(point0 * point1, axis=1) + numpy.sum(point1 * point2, axis=1) + numpy.sum(point2 * point0, axis=1)
+    return 2.0 * numpy.arctan2(triple_prod, 1.0 + dot_prod)
+
 def barycentric_coordinates_planar(point0, point1, point2, v):
     """Barycentric coordinates in plane defined by points."""
 
@@ -109,22 +117,11 @@ def barycentric_coordinates_spherical(point0, point1, point2, v):
     # Triangle B: point2 --- point0 --- v
     # Triangle C: point0 --- point1 --- v
 
-    normalA0 = normalised_cross_product(point1, point2)
-    normalA1 = normalised_cross_product(point2, v)
-    normalA2 = normalised_cross_product(v, point1)
-
-    normalB0 = normalised_cross_product(point2, point0)
-    normalB1 = normalised_cross_product(point0, v)
-    normalB2 = normalised_cross_product(v, point2)
-
-    normalC0 = normalised_cross_product(point0, point1)
-    normalC1 = normalised_cross_product(point1, v)
-    normalC2 = normalised_cross_product(v, point0)
-
     # Compute areas on unit sphere
-    areas = numpy.transpose(numpy.vstack( (triangle_area_spherical(normalA0, normalA1, normalA2), 
-                                           triangle_area_spherical(normalB0, normalB1, normalB2),
-                                           triangle_area_spherical(normalC0, normalC1, normalC2) ) ) )
+    # (from the points, as normals of sides are undefined when v is at one of the other points)
+    areas = numpy.transpose(numpy.vstack( (triangle_area_spherical_from_points(point1, point2, v),
+                                           triangle_area_spherical_from_points(point2, point0, v),
+                                           triangle_area_spherical_from_points(point0, point1, v) ) ) )
 
     barycentres = dividerows(areas, numpy.sum(areas, axis=1))
 
-- 
2.43.0


From eb28f1eb0ea583ed01a8be3bc89f3a9cb7321939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:09 +0000
Subject: [PATCH 75/92] fix: merging fails when one source has complete
 coverage and another has not

---
 src/eustace/outputformats/filesmerger.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eustace/outputformats/filesmerger.py b/src/eustace/outputformats/filesmerger.py
index 7fee3bc..55afadc 100644
--- a/src/eustace/outputformats/filesmerger.py
+++ b/src/eustace/outputformats/filesmerger.py
@@ -311,7 +311,8 @@ class FilesMerger(object):
     masked_array_field = handle.variables[name][...]
     masked_array_field.data[masked_array_field.data==masked_array_field.fill_value]=new_fill_value
 
-    return masked_array_field.data,masked_array_field.mask
+    # mask has to be an array also when there is nothing to mask
+    return masked_array_field.data,numpy.ma.getmaskarray(masked_array_field)
 
   @staticmethod
   def build_triangular_correlation_matrix(number_of_files,sub_list_of_correlation_indexes):
-- 
2.43.0


From 31e102cfa4c548aa33619231e6f55bbbbb27657e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:10 +0000
Subject: [PATCH 76/92] fix: merging mixes up primary and ancillary files of
 different sources when each lacks one

---
 src/eustace/outputformats/filesmerger.py | 26 +++++++++++++-----------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/eustace/outputformats/filesmerger.py b/src/eustace/outputformats/filesmerger.py
index 55afadc..85288be 100644
--- a/src/eustace/outputformats/filesmerger.py
+++ b/src/eustace/outputformats/filesmerger.py
@@ -20,23 +20,25 @@ def clean_list_of_outputs_to_merge(outputs_main, outputs_ancillary,number_of_sou
     original_number_of_outputs = len(outputs_main)
 
     indexes_to_remove = []
+    available_main = []
+    available_ancillary = []
     for index, elements in enumerate(zip(outputs_main,outputs_ancillary)):
         print(elements)
-        if elements[0] is not None and os.path.isfile(elements[0]):
-	    number_of_sources += 1
-	else:
-	    outputs_main.remove(elements[0])
-	    indexes_to_remove.append(index)
-
-	if elements[1] is None or not(os.path.isfile(elements[1])):
-	    outputs_ancillary.remove(elements[1])
+        available = [element is not None and os.path.isfile(element) for element in elements]
+        if available[0] != available[1]:
+            raise ValueError('Only one of primary and ancillary files present for a source: {0} {1}'.format(*elements))
+        if available[0]:
+            number_of_sources += 1
+            available_main.append(elements[0])
+            available_ancillary.append(elements[1])
+        else:
+            indexes_to_remove.append(index)
+
+    outputs_main[:] = available_main
+    outputs_ancillary[:] = available_ancillary
 
     print(outputs_main, outputs_ancillary)
 
-    # 2nd sanity check
-    if len(outputs_main) != len(outputs_ancillary):
-	raise ValueError('Number of primary and ancillary files must be the same')
-
     # Labeling elements to be removed as None
     for index_to_remove in indexes_to_remove:
       for sub_list in list_of_indexes:
-- 
2.43.0


From 65252a3f69631734333fa4611bec7441f26c6880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:10 +0000
Subject: [PATCH 77/92] fix: merged files go astray when a directory is named
 like a source

---
 src/eustace/outputformats/filesmerger.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/eustace/outputformats/filesmerger.py b/src/eustace/outputformats/filesmerger.py
index 85288be..b877207 100644
--- a/src/eustace/outputformats/filesmerger.py
+++ b/src/eustace/outputformats/filesmerger.py
@@ -132,8 +132,8 @@ class FilesMerger(object):
 
       # Output files names
       source_label = os.path.basename(outputs_primary[0]).split('_')[4]
-      output_main = outputs_primary[0].replace('_'+source_label,'')
-      output_ancillary = outputs_ancillary[0].replace('_'+source_label,'')
+      output_main = self.remove_source_label(outputs_primary[0],source_label)
+      output_ancillary = self.remove_source_label(outputs_ancillary[0],source_label)
 
       self.list_of_merged_main_outputs.append(output_main)
       self.list_of_merged_ancillary_outputs.append(output_ancillary)
@@ -165,7 +165,7 @@ class FilesMerger(object):
       datafile = netCDF4.Dataset(i,'r+')
       datafile.setncattr('comment',self.comment_prefix+source_label+' retrievals.')
       datafile.close()
-      new_name = i.replace('_'+source_label,'')
+      new_name = self.remove_source_label(i,source_label)
       self.list_of_merged_main_outputs.append(new_name)
       os.rename(i,new_name)
 
@@ -173,11 +173,17 @@ class FilesMerger(object):
       datafile = netCDF4.Dataset(i,'r+')
       datafile.setncattr('comment',self.comment_prefix+source_label+' retrievals.')
       datafile.close()
-      new_name = i.replace('_'+source_label,'')
+      new_name = self.remove_source_label(i,source_label)
       self.list_of_merged_ancillary_outputs.append(new_name)
       os.rename(i,new_name)
 
 
+  @staticmethod
+  def remove_source_label(filename,source_label):
+    """Name of merged file in the same directory (whatever the directory is called)"""
+
+    return os.path.join(os.path.dirname(filename),os.path.basename(filename).replace('_'+source_label,''))
+
   def merge_multiple_files(self,outputs_primary,outputs_ancillary):
     """Merges multiple output sources into a unique output. Merged fundamental fields are averaged grid-box-by-grid-box. 
        Fundamental and ancillary uncertainties are propagated grid-box-by-grid-box by taking into account of proper correlation among the different output sources.
-- 
2.43.0


From 19e31d522d12194ca84d34f7707b5eb5730d888e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:10 +0000
Subject: [PATCH 78/92] fix: interrupted update of a single source file loses
 its data

---
 src/eustace/outputformats/filesmerger.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/eustace/outputformats/filesmerger.py b/src/eustace/outputformats/filesmerger.py
index b877207..cf07571 100644
--- a/src/eustace/outputformats/filesmerger.py
+++ b/src/eustace/outputformats/filesmerger.py
@@ -8,6 +8,7 @@ from eustace.outputformats.outputvariable import OutputVariable
 from eustace.surfaceairmodel.fileio.consistent import ConsistentModelOutputNetCDF
 from eustace.surfaceairmodel.fileio.consistent import DatasetAttributesConsistentModelOutput
 import copy
+import shutil
 import warnings
 
 def clean_list_of_outputs_to_merge(outputs_main, outputs_ancillary,number_of_sources,list_of_indexes):
@@ -162,22 +163,28 @@ class FilesMerger(object):
     source_label = os.path.basename(outputs_primary[0]).split('_')[4]	
 
     for i in outputs_primary:
-      datafile = netCDF4.Dataset(i,'r+')
-      datafile.setncattr('comment',self.comment_prefix+source_label+' retrievals.')
-      datafile.close()
       new_name = self.remove_source_label(i,source_label)
       self.list_of_merged_main_outputs.append(new_name)
-      os.rename(i,new_name)
+      self.rename_with_comment(i,new_name,self.comment_prefix+source_label+' retrievals.')
 
     for i in outputs_ancillary:
-      datafile = netCDF4.Dataset(i,'r+')
-      datafile.setncattr('comment',self.comment_prefix+source_label+' retrievals.')
-      datafile.close()
       new_name = self.remove_source_label(i,source_label)
       self.list_of_merged_ancillary_outputs.append(new_name)
-      os.rename(i,new_name)
+      self.rename_with_comment(i,new_name,self.comment_prefix+source_label+' retrievals.')
 
 
+  @staticmethod
+  def rename_with_comment(filename,new_name,comment):
+    """Rename with updated comment: done on a copy, so that the original is there until the result is complete"""
+
+    temporary_name = new_name+'.tmp'
+    shutil.copyfile(filename,temporary_name)
+    datafile = netCDF4.Dataset(temporary_name,'r+')
+    datafile.setncattr('comment',comment)
+    datafile.close()
+    os.rename(temporary_name,new_name)
+    os.remove(filename)
+
   @staticmethod
   def remove_source_label(filename,source_label):
     """Name of merged file in the same directory (whatever the directory is called)"""
-- 
2.43.0


From 88deb3bbfbf890f87068c2b89b256731bc21acff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:20 +0000
Subject: [PATCH 79/92] fix: station measurement times around a day boundary
 appear twice

---
 src/eustace/outputformats/stationdata.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/eustace/outputformats/stationdata.py b/src/eustace/outputformats/stationdata.py
index 2a7ed0a..237df91 100644
--- a/src/eustace/outputformats/stationdata.py
+++ b/src/eustace/outputformats/stationdata.py
@@ -110,6 +110,11 @@ class MeasurementTime(object):
 
         return abs(other.time - self.time) < MeasurementTime.RESOLUTION
 
+    def __ne__(self, other):
+        """Opposite of equality."""
+
+        return not self == other
+
 
 class StationData(object):
     """Represent temperature time series and break detection."""
@@ -139,9 +144,10 @@ class StationData(object):
     def get_unique_temperature_sample_times(self):
         """Array of unique times based on the MeasurementTime.RESOLUTION."""
 
-        result = [m.time for m in set(
-            [MeasurementTime(sample.time) for sample in self.temperature_samples])]
-        result.sort()
+        result = []
+        for time in sorted([sample.time for sample in self.temperature_samples]):
+            if not result or MeasurementTime(time) != MeasurementTime(result[-1]):
+                result.append(time)
         return result
 
     def get_temperature_samples(self, time_axis, variable):
-- 
2.43.0


From 6e89918eac1a4e5c08e40ba39c962916d4fea13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:20 +0000
Subject: [PATCH 80/92] fix: temperature sample of an unknown station
 overwrites every station

---
 src/eustace/outputformats/stationdata.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/eustace/outputformats/stationdata.py b/src/eustace/outputformats/stationdata.py
index 237df91..8528659 100644
--- a/src/eustace/outputformats/stationdata.py
+++ b/src/eustace/outputformats/stationdata.py
@@ -172,6 +172,8 @@ class StationData(object):
         for sample in self.temperature_samples:
             station_index = self.descriptions.get_station_index(
                 sample.station_name)
+            if station_index is None:
+                raise ValueError('temperature sample for unknown station: {0}'.format(sample.station_name))
             time_index = measurement_times.index(MeasurementTime(sample.time))
             value = sample.__dict__[variable.name]
             data[time_index][station_index] = value
-- 
2.43.0


From 558af105d6236428c6c4ca61fd5d670bd0c808e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:48 +0000
Subject: [PATCH 81/92] fix: values outside the range of packed storage wrap
 around in output files

---
 src/eustace/outputformats/filebuilder.py | 28 ++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/eustace/outputformats/filebuilder.py b/src/eustace/outputformats/filebuilder.py
index 4894b53..15cf6bd 100644
--- a/src/eustace/outputformats/filebuilder.py
+++ b/src/eustace/outputformats/filebuilder.py
@@ -9,6 +9,31 @@ from netCDF4 import Dataset
 from eustace.outputformats.definitions import FILE_FORMAT
 from eustace.outputformats.definitions import FILE_CONVENTIONS
 
+def mask_unrepresentable(values, dtype, scale_factor=None, add_offset=None):
+    """Mask those values which are outside the range of an integer storage type after packing,
+       as they would otherwise wrap around to a different value. Values to be packed are returned
+       in double precision so that packing itself does not round them out of range."""
+
+    dtype = numpy.dtype(dtype)
+    if dtype.kind not in 'iu' or numpy.ma.getdata(values).dtype.kind not in 'iuf':
+        return values
+
+    if numpy.ma.getdata(values).dtype.kind == 'f':
+        values = values.astype(numpy.float64)
+
+    packed = numpy.ma.getdata(values).astype(numpy.float64)
+    if add_offset is not None:
+        packed = packed - add_offset
+    if scale_factor is not None:
+        packed = packed / scale_factor
+    packed = numpy.rint(packed)
+
+    limits = numpy.iinfo(dtype)
+    with numpy.errstate(invalid='ignore'):
+        representable = (packed >= limits.min) & (packed <= limits.max)
+
+    return values if representable.all() else numpy.ma.masked_where(~representable, values)
+
 class FileBuilder(object):
     """Build a NetCDF file."""
 
@@ -49,6 +74,9 @@ class FileBuilder(object):
         for (key, metadata) in variable.get_metadata().iteritems():
             ncvar.__setattr__(key, metadata)
 
+        # values which cannot be represented are stored as missing
+        values = mask_unrepresentable(values, ncvar.dtype, variable.scale_factor, variable.add_offset)
+
         # assign data
         if len(values.shape) == 1:
             ncvar[0:values.shape[0]] = values
-- 
2.43.0


From d24b90f36a1caa43cdbc355175cf82e7a0f478f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:48 +0000
Subject: [PATCH 82/92] fix: values outside the range of packed storage wrap
 around in gridded satellite files

---
 src/eustace/outputformats/iriscubesaver.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/eustace/outputformats/iriscubesaver.py b/src/eustace/outputformats/iriscubesaver.py
index d0f2e94..e66c944 100644
--- a/src/eustace/outputformats/iriscubesaver.py
+++ b/src/eustace/outputformats/iriscubesaver.py
@@ -5,6 +5,7 @@ import netCDF4
 import time
 from definitions import FILE_FORMAT
 from definitions import FILE_CONVENTIONS
+from filebuilder import mask_unrepresentable
 
 class VariableStorage(object):
     """Definition of storage required for specific variables."""
@@ -88,6 +89,12 @@ class NetCDFSaverEUSTACE(netcdf.Saver):
         """Override writing code to impose required CF conventions string."""
 
         for cube in cubes:
+
+            # Values which cannot be represented are stored as missing
+            storage = NetCDFSaverEUSTACE.storage_override.get(cube.var_name)
+            if storage:
+                cube = cube.copy(data=mask_unrepresentable(cube.data, storage.datatype, storage.scale_factor, storage.add_offset))
+
             self.write(cube, unlimited_dimensions=[])
 
         self.update_global_attributes(Conventions=FILE_CONVENTIONS)
-- 
2.43.0


From 00b4d7bfa0b304bf80f52ba90c29791acbbf8b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:12 +0000
Subject: [PATCH 83/92] fix: land cells with minimum above maximum kept in
 fields without missing cells, and valid maximum removed where minimum is
 missing

---
 src/eustace/surfaceairmodel/fileio/post_processing.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/eustace/surfaceairmodel/fileio/post_processing.py b/src/eustace/surfaceairmodel/fileio/post_processing.py
index 8f7b2f1..da4f081 100644
--- a/src/eustace/surfaceairmodel/fileio/post_processing.py
+++ b/src/eustace/surfaceairmodel/fileio/post_processing.py
@@ -9,10 +9,9 @@ def apply_land_post_processing(results, surface_dependent_variables):
 
     tasmindata = results[TASMIN.name][:]
     tasmaxdata = results[TASMAX.name][:]
-    update_mask = numpy.logical_and(numpy.logical_and((tasmindata.data!=tasmindata.fill_value) ,(tasmaxdata.data!=tasmaxdata.fill_value)), tasmindata.data > tasmaxdata.data)
+    update_mask = numpy.logical_and(~numpy.logical_or(numpy.ma.getmaskarray(tasmindata), numpy.ma.getmaskarray(tasmaxdata)), tasmindata.data > tasmaxdata.data)
 
     results['problematic_pixels_count'] = update_mask.sum()
     for variable in [TASMIN, TASMINUNCERTAINTY, TASMAX, TASMAXUNCERTAINTY]+surface_dependent_variables:
-      results[variable.name][:].mask = numpy.logical_or(results[variable.name][:].mask, update_mask)
-      results[variable.name][:].data[:] = results[variable.name][:].filled()
-
+      results[variable.name] = numpy.ma.masked_where(update_mask, results[variable.name][:])
+      results[variable.name].data[:] = results[variable.name].filled()
-- 
2.43.0


From beac57c601f2bf6f4ee22d9fd795a8e718d62fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:12 +0000
Subject: [PATCH 84/92] fix: ice model fails when uncertainty is known
 everywhere

---
 src/eustace/surfaceairmodel/model_ice.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/eustace/surfaceairmodel/model_ice.py b/src/eustace/surfaceairmodel/model_ice.py
index d5c003a..1ae02a7 100644
--- a/src/eustace/surfaceairmodel/model_ice.py
+++ b/src/eustace/surfaceairmodel/model_ice.py
@@ -384,9 +384,9 @@ class ModelIceObservableProcessor(object):
         indices = numpy.nonzero(combined_mask.ravel() == False)
 
         # Check necessary uncertainty components present
-        missing = numpy.nonzero(input_uncorrelated_uncertainty.mask.ravel()[indices])[0].tolist() + \
-                  numpy.nonzero(input_synoptically_correlated_uncertainty.mask.ravel()[indices])[0].tolist() + \
-                  numpy.nonzero(input_large_scale_correlated_uncertainty.mask.ravel()[indices])[0].tolist()
+        missing = numpy.nonzero(numpy.ma.getmaskarray(input_uncorrelated_uncertainty).ravel()[indices])[0].tolist() + \
+                  numpy.nonzero(numpy.ma.getmaskarray(input_synoptically_correlated_uncertainty).ravel()[indices])[0].tolist() + \
+                  numpy.nonzero(numpy.ma.getmaskarray(input_large_scale_correlated_uncertainty).ravel()[indices])[0].tolist()
 
         if len(missing):
             sys.stderr.write('WARNING: not all observations have uncertainty information (ignoring those without it).\n')
-- 
2.43.0


From ffaedae7793d0313a532883cea37b561ec17fda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:12 +0000
Subject: [PATCH 85/92] fix: date of land model input taken from name of its
 folder

---
 src/eustace/surfaceairmodel/model_land.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eustace/surfaceairmodel/model_land.py b/src/eustace/surfaceairmodel/model_land.py
index 343c47b..b2129c9 100644
--- a/src/eustace/surfaceairmodel/model_land.py
+++ b/src/eustace/surfaceairmodel/model_land.py
@@ -25,7 +25,7 @@ class ModelLand(object):
     def read_input_file_time(filename):
         """Helper to get time from input_file file."""
 
-        pattern = re.search('(.[0-9]{4}[0-9]{2}[0-9]{2}.nc)',filename).group(0)
+        pattern = re.search(r'([0-9]{4}[0-9]{2}[0-9]{2}\.nc)$',os.path.basename(filename)).group(0)
         date_string = re.search('([0-9]{4}[0-9]{2}[0-9]{2})',pattern).group(0)
         timevariable = datetime.strptime(date_string,'%Y%m%d')
         return timevariable
-- 
2.43.0


From a3e087f1a84b1c4c8a1649ee107301b60da9c404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:12 +0000
Subject: [PATCH 86/92] fix: number of removed land cells described as a
 percentage

---
 src/eustace/surfaceairmodel/run_land.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eustace/surfaceairmodel/run_land.py b/src/eustace/surfaceairmodel/run_land.py
index d629232..75ce876 100644
--- a/src/eustace/surfaceairmodel/run_land.py
+++ b/src/eustace/surfaceairmodel/run_land.py
@@ -56,7 +56,7 @@ def run_day(catalogue_id,institution,
 
     # Filter out pixels where Tmin > Tmax
     writer.post_process(fields,'LAND')
-    writer.dataset_attributes.comment = 'Percentage of (removed) Tmin > Tmax pixels: '+str(fields['problematic_pixels_count'])+'%'
+    writer.dataset_attributes.comment = 'Number of (removed) Tmin > Tmax pixels: '+str(fields['problematic_pixels_count'])
 
     # Write
     writer.write_primary(output_main, fields)
-- 
2.43.0


From d8bcb2290d25dc853845ad43e2780785f0185958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:12 +0000
Subject: [PATCH 87/92] fix: command lines of the surface-air models fail

---
 src/eustace/surfaceairmodel/run_ice.py   | 4 ++--
 src/eustace/surfaceairmodel/run_land.py  | 8 ++++----
 src/eustace/surfaceairmodel/run_ocean.py | 5 ++---
 3 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/eustace/surfaceairmodel/run_ice.py b/src/eustace/surfaceairmodel/run_ice.py
index f5bac57..52fe313 100644
--- a/src/eustace/surfaceairmodel/run_ice.py
+++ b/src/eustace/surfaceairmodel/run_ice.py
@@ -46,7 +46,7 @@ def main():
     parser = argparse.ArgumentParser()
     parser.add_argument('--institution', required=True)
     parser.add_argument('--output_main', required=True)
-    parser.add_argument('--output_ancillary')
+    parser.add_argument('--output_ancillary', required=True)
     parser.add_argument('--input_model_nh', required=True)
     parser.add_argument('--input_model_sh', required=True)
     parser.add_argument('--input_satellite_nh', required=True)
@@ -54,7 +54,7 @@ def main():
     args = parser.parse_args()
 
     # run it
-    run_day(modulename='eustace.surfaceairmodel.run_ice', catalogue_id='(NO CATALOGUE IN USE)', **args.__dict__).run()
+    run_day(modulename='eustace.surfaceairmodel.run_ice', catalogue_id='(NO CATALOGUE IN USE)', **args.__dict__)
 
 if __name__ == '__main__':
     main()
diff --git a/src/eustace/surfaceairmodel/run_land.py b/src/eustace/surfaceairmodel/run_land.py
index 75ce876..05b68a1 100644
--- a/src/eustace/surfaceairmodel/run_land.py
+++ b/src/eustace/surfaceairmodel/run_land.py
@@ -156,7 +156,7 @@ def main():
     parser = argparse.ArgumentParser()
     parser.add_argument('--institution', required=True)
     parser.add_argument('--output_main', required=True)
-    parser.add_argument('--output_ancillary')
+    parser.add_argument('--output_ancillary', required=True)
     parser.add_argument('--input_model1_parameters', required=True)
     parser.add_argument('--input_model2_parameters', required=True)
     parser.add_argument('--input_model3_parameters', required=True)
@@ -167,15 +167,15 @@ def main():
     parser.add_argument('--inputsnow', required=True, help='name of snow data file')
     parser.add_argument('--inputday', required=True, help='name of day input satgrid file')
     parser.add_argument('--inputnight', required=True, help='name of night input satgrid file')
-    parser.add_argument('--frac_sat_obs_threshold', required=True,help='threshold for satellite observation')
-    parser.add_argument('--sampling_threshold', required=True,help='sampling threshold')
+    parser.add_argument('--frac_sat_obs_threshold', type=float, required=True,help='threshold for satellite observation')
+    parser.add_argument('--sampling_threshold', type=float, required=True,help='sampling threshold')
 
     args = parser.parse_args()
 
     run_day(catalogue_id='(NO CATALOGUE IN USE)',institution = args.institution,
 	      output_main=args.output_main,output_ancillary=args.output_ancillary,
 	      input_model_1=args.input_model1_parameters,input_model_2=args.input_model2_parameters,input_model_3=args.input_model3_parameters,
-	      input_satellite_land_day=args.inpu_day,input_satellite_land_night=args.inputnight,
+	      input_satellite_land_day=args.inputday,input_satellite_land_night=args.inputnight,
 	      input_satellite_land_snow=args.inputsnow,
 	      input_satellite_land_mask_north=args.inputmasknord,input_satellite_land_mask_south=args.inputmasksouth,
 	      input_satellite_land_DEM=args.inputDEM,
diff --git a/src/eustace/surfaceairmodel/run_ocean.py b/src/eustace/surfaceairmodel/run_ocean.py
index 69e66c0..723dfbd 100644
--- a/src/eustace/surfaceairmodel/run_ocean.py
+++ b/src/eustace/surfaceairmodel/run_ocean.py
@@ -109,7 +109,7 @@ def main():
     parser = argparse.ArgumentParser()
     parser.add_argument('--institution', required=True)
     parser.add_argument('--output_main', required=True)
-    parser.add_argument('--output_ancillary')
+    parser.add_argument('--output_ancillary', required=True)
     parser.add_argument('--input_model_parameters', required=True)
     parser.add_argument('--input_model_uncertainty', required=True)
     parser.add_argument('--input_model_stdev', required=True)
@@ -119,8 +119,7 @@ def main():
 
     run_day(catalogue_id='(NO CATALOGUE IN USE)',institution = args.institution,
 	      output_main=args.output_main,output_ancillary=args.output_ancillary,
-	      input_model_paramters=args.input_model_parameters,input_model_uncertainty=args.input_model_uncertainty,input_model_stdev=args.input_model_stdev,
-	      input_satellite_land_day=args.inpu_day,input_satellite_land_night=args.inputnight,
+	      input_model_parameters=args.input_model_parameters,input_model_uncertainty=args.input_model_uncertainty,input_model_stdev=args.input_model_stdev,
 	      input_satellite_ocean=args.input_satellite_ocean)
 
 if __name__ == '__main__':
-- 
2.43.0


From 4c90bef767572038f1400ae1cff924ec0d83a260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:50 +0000
Subject: [PATCH 88/92] fix: schedule of one operation per day never makes
 posterior samples of the spatio-temporal components

---
 src/eumopps/catalogue/jsonfiller.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/eumopps/catalogue/jsonfiller.py b/src/eumopps/catalogue/jsonfiller.py
index c2f1f5c..caefdd4 100644
--- a/src/eumopps/catalogue/jsonfiller.py
+++ b/src/eumopps/catalogue/jsonfiller.py
@@ -134,13 +134,21 @@ class FullstaceJsonFiller(object):
         for iteration_index in range(self.n_iterations):
             # Filling climatology
             measurement_climatology = self.fill_single_measurement_operation_space_time(iteration_index, 0, self.measurement_climatology_command, self.measurement_climatology_name)
-            solution_climatology =self.fill_single_solution_operation_space_time(iteration_index, 0, self.solution_climatology_command, self.solution_climatology_name, self.measurement_climatology_name)
+            solution_climatology =self.fill_single_posterior_solution_operation_space_time(iteration_index, 0, self.solution_climatology_command, self.solution_climatology_name, self.measurement_climatology_name)
+            operations += [measurement_climatology, solution_climatology]
+            if iteration_index==(self.n_iterations-1):
+                solution_prior_climatology =self.fill_single_prior_solution_operation_space_time(iteration_index, 0, self.solution_climatology_command, self.solution_climatology_name, self.measurement_climatology_name)
+                operations += [solution_prior_climatology]
             # Filling large scale
             measurement_large_scale = self.fill_single_measurement_operation_space_time(iteration_index, 1, self.measurement_large_scale_command, self.measurement_large_scale_name)
-            solution_large_scale = self.fill_single_solution_operation_space_time(iteration_index, 1, self.solution_large_scale_command, self.solution_large_scale_name, self.measurement_large_scale_name)
+            solution_large_scale = self.fill_single_posterior_solution_operation_space_time(iteration_index, 1, self.solution_large_scale_command, self.solution_large_scale_name, self.measurement_large_scale_name)
+            operations += [measurement_large_scale, solution_large_scale]
+            if iteration_index==(self.n_iterations-1):
+                solution_prior_large_scale = self.fill_single_prior_solution_operation_space_time(iteration_index, 1, self.solution_large_scale_command, self.solution_large_scale_name, self.measurement_large_scale_name)
+                operations += [solution_prior_large_scale]
             # Filling local scale
             meas_sol_local = self.fill_single_operation_space(iteration_index, 2)
-            operations += [measurement_climatology, solution_climatology, measurement_large_scale, solution_large_scale, meas_sol_local]
+            operations += [meas_sol_local]
         self.fill_output_gridding()
         operations += [self.output_gridding_dict]
         
-- 
2.43.0


From a403f6a92729237f42c8b5421abc41296cc7553f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:50 +0000
Subject: [PATCH 89/92] fix: diagnostics of the full analysis read samples of
 an iteration that has none

---
 .../fullstace/advanced_standard/build_diagnostic_descriptors.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/roses/fullstace/advanced_standard/build_diagnostic_descriptors.sh b/src/roses/fullstace/advanced_standard/build_diagnostic_descriptors.sh
index 651d8d6..69983c8 100644
--- a/src/roses/fullstace/advanced_standard/build_diagnostic_descriptors.sh
+++ b/src/roses/fullstace/advanced_standard/build_diagnostic_descriptors.sh
@@ -15,7 +15,7 @@ fi
 SCRIPT_PATH=`dirname ${BASH_SOURCE[0]}`
 INPATH=${SCRIPT_PATH}'/templates'
 OUTPATH="$1"
-N_ITERATIONS="5"
+N_ITERATIONS="6"
 START_DATE="18800101"
 END_DATE="20151231"
 DESCRIPTOR_NAME="advstd_diagnostics.json"
-- 
2.43.0


From d96e5d1dfe5fb6b825890a621d56b470c3e6f4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:17 +0000
Subject: [PATCH 90/92] fix: geography-based covariates are interpolated at the
 nodes' own coordinates

The node spacing was rounded to two decimals, so on a grid whose spacing needs
more (1.125 degrees for example) the nodes of the lattice drift away from the
coordinates of the covariate values.
---
 .../advanced_standard/elements/geography_based.py    | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/eustace/analysis/advanced_standard/elements/geography_based.py b/src/eustace/analysis/advanced_standard/elements/geography_based.py
index bdba4e9..a317fcb 100644
--- a/src/eustace/analysis/advanced_standard/elements/geography_based.py
+++ b/src/eustace/analysis/advanced_standard/elements/geography_based.py
@@ -61,11 +61,13 @@ class GeographyBasedCovariateFunction(object):
         #
         # here nodes spacing is supposed to be uniform, but for safety we check it
 
-        nodes_spacing = round((latitude.max()-latitude.min())/(latitude.shape[0]-1),2)
-        nodes_spacing_check = round((longitude.max()-longitude.min())/(longitude.shape[1]-1),2)
-        span = numpy.repeat(nodes_spacing,2)
+        # (the spacing itself is not rounded: the nodes have to stay at their own coordinates)
+
+        latitude_spacing = float(latitude.max()-latitude.min())/(latitude.shape[0]-1)
+        longitude_spacing = float(longitude.max()-longitude.min())/(longitude.shape[1]-1)
+        span = numpy.array([latitude_spacing, longitude_spacing])
         
-        if nodes_spacing != nodes_spacing_check:
+        if abs(latitude_spacing - longitude_spacing) > 0.005:
             raise ValueError('Nodes spacing has to be uniform along all the directions!')
 
         # extend covariate vector over longitude and then latitude
@@ -78,7 +80,7 @@ class GeographyBasedCovariateFunction(object):
         covariate = numpy.vstack((north_extension, covariate))
         covariate = numpy.vstack((covariate, south_extension))
 
-        dimensions = [(latitude.min()-nodes_spacing, latitude.max()+nodes_spacing, latitude.shape[0]+2),(longitude.min()-nodes_spacing, longitude.max()+nodes_spacing, longitude.shape[1]+2)]
+        dimensions = [(latitude.min()-latitude_spacing, latitude.max()+latitude_spacing, latitude.shape[0]+2),(longitude.min()-longitude_spacing, longitude.max()+longitude_spacing, longitude.shape[1]+2)]
 
         lattice = LatticeMesh(dimension_specification = dimensions, basis_function = PiecewiseLinearBasis(basis_span = span))
 
-- 
2.43.0


From 0c591c6f418e2b00cb01ab276ef3405013136bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:55 +0000
Subject: [PATCH 91/92] fix: the format verifier stops on metadata of another
 length or type instead of reporting it

---
 src/eustace/outputformats/verify/verify.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/eustace/outputformats/verify/verify.py b/src/eustace/outputformats/verify/verify.py
index 93c525a..9fa261d 100644
--- a/src/eustace/outputformats/verify/verify.py
+++ b/src/eustace/outputformats/verify/verify.py
@@ -1,5 +1,6 @@
 """Verify output format against a defined specification."""
 
+import numpy
 from netCDF4 import Dataset
 
 
@@ -76,7 +77,7 @@ class Verifier(object):
                     'Attribute exists: ' + key), outcome=keyexists)
                 if keyexists:
                     self.log_outcome(description=(
-                        'Attribute value: ' + key + '=' + value), outcome=(nc.__dict__[key] == value))
+                        'Attribute value: ' + key + '=' + value), outcome=numpy.array_equal(nc.__dict__[key], value))
 
     def check_variables(self, nc, expected):
         """Check existence of at least one variable and attributes on all variables recgonised."""
@@ -96,10 +97,8 @@ class Verifier(object):
                         outcome = False
                         if meta_key in ncvar.__dict__:
                             test_value = ncvar.__getattribute__(meta_key)
-                            if isinstance(meta_value, list):
-                                outcome = all(meta_value == test_value)
-                            else:
-                                outcome = (meta_value == test_value)
+                            # values found may be of any type and length
+                            outcome = numpy.array_equal(meta_value, test_value)
                         self.log_outcome(v.name + '.' + meta_key + '=' + str(meta_value), outcome)
 
     def check_dimensions(self, nc, expected):
-- 
2.43.0


From 035d8df96c76960455da3d6bcefe9cef7bb74285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:02 +0000
Subject: [PATCH 92/92] fix: inspection of satellite ocean inputs looks for
 daily location files that are never made

---
 src/eustace/analysis/inspectinput.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/eustace/analysis/inspectinput.py b/src/eustace/analysis/inspectinput.py
index 215b44f..b1d8ef4 100644
--- a/src/eustace/analysis/inspectinput.py
+++ b/src/eustace/analysis/inspectinput.py
@@ -16,6 +16,7 @@ LOCATIONLOOKUP_SATELLITE = 'locationlookup_satellite.bin'
 LOCATIONLOOKUP_INSITU_LAND = 'locationlookup_insitu_land.bin'
 FIXEDLOCATIONLOOKUP = {
     'surfaceairmodel_land': LOCATIONLOOKUP_SATELLITE,
+    'surfaceairmodel_ocean': LOCATIONLOOKUP_SATELLITE,
     'surfaceairmodel_lake': LOCATIONLOOKUP_SATELLITE,
     'surfaceairmodel_ice': LOCATIONLOOKUP_SATELLITE,
     'insitu_land': LOCATIONLOOKUP_INSITU_LAND
-- 
2.43.0

