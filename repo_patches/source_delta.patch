From fcce6e99b44badb418911dc3575c42a755ad73d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:37 +0000
Subject: [PATCH 01/65] fix: restore bool dict keys by their value (False was
 loaded as True)

---
 hickle/loaders/load_builtins.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/hickle/loaders/load_builtins.py b/hickle/loaders/load_builtins.py
index 53b7442..8146b00 100644
--- a/hickle/loaders/load_builtins.py
+++ b/hickle/loaders/load_builtins.py
@@ -25,18 +25,24 @@ import warnings
 from hickle.helpers import PyContainer,NotHicklable,no_compression,nobody_is_my_name
 
 
+def load_bool_key(name):
+    """
+    converts string representation of bool type dict key back to bool
+    """
+    return name == 'True'
+
 # Define conversion dict of all dict key types which shall be mapped
 # to their string representation. Any other key types are directly handled
 # by create_dictlike_dataset function
 dict_key_types_dict = {
     b'float': float,
-    b'bool': bool,
+    b'bool': load_bool_key,
     b'int': int,
     b'complex': complex,
     b'NoneType': lambda x : None,
     # str type keys required for h5py >= 3.x
     'float': float,
-    'bool': bool,
+    'bool': load_bool_key,
     'int': int,
     'complex': complex,
     'NoneType': lambda x : None
-- 
2.43.0


From 1811353fdc7ce916bed843928c39f34160b09710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:37 +0000
Subject: [PATCH 02/65] fix: do not embed dict keys containing NUL in HDF5 link
 names

---
 hickle/loaders/load_builtins.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hickle/loaders/load_builtins.py b/hickle/loaders/load_builtins.py
index 8146b00..b7ca38c 100644
--- a/hickle/loaders/load_builtins.py
+++ b/hickle/loaders/load_builtins.py
@@ -251,8 +251,8 @@ def create_setlike_dataset(py_obj,h_group,name,**kwargs):
     )
     
 
-_byte_slashes = re.compile(b'[\\/]')
-_str_slashes = re.compile(r'[\\/]')
+_byte_slashes = re.compile(b'[\\/\\0]')
+_str_slashes = re.compile(r'[\\/\0]')
 
 def create_dictlike_dataset(py_obj, h_group, name, **kwargs):
 
-- 
2.43.0


From 98f660617bbbb091561a3550ce4022d816c708b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:37 +0000
Subject: [PATCH 03/65] fix: restore instances of str and bytes subclasses,
 also as dict keys

---
 hickle/loaders/load_builtins.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hickle/loaders/load_builtins.py b/hickle/loaders/load_builtins.py
index b7ca38c..0605c4f 100644
--- a/hickle/loaders/load_builtins.py
+++ b/hickle/loaders/load_builtins.py
@@ -179,7 +179,7 @@ def create_listlike_dataset(py_obj, h_group, name,list_len = -1,item_dtype = Non
         string_data = np.asarray(string_data)
         string_data.dtype = 'S1'
         dataset = h_group.create_dataset( name, data = string_data,shape = (1,string_data.size), **kwargs)
-        dataset.attrs["str_type"] = py_obj.__class__.__name__.encode("ascii")
+        dataset.attrs["str_type"] = b'str' if isinstance(py_obj,str) else b'bytes'
         return dataset,()
         
     if len(py_obj) < 1:
@@ -290,11 +290,11 @@ def create_dictlike_dataset(py_obj, h_group, name, **kwargs):
         for idx, (key, py_subobj) in enumerate(py_obj.items()):
             # Obtain the raw string representation of this key
             key_base_type = key.__class__.__name__.encode("utf8")
-            if isinstance(key,str):
+            if key.__class__ is str:
                 if not _str_slashes.search(key):
                     yield r'"{}"'.format(key),py_subobj,{'key_idx':idx,'key_base_type':key_base_type},kwargs
                     continue
-            elif isinstance(key,bytes):
+            elif key.__class__ is bytes:
                 if not _byte_slashes.search(key):
                     try:
                         h_key = key.decode("utf8")
-- 
2.43.0


From 01cf48e79b727e926cf0add45b3772dcd246bde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:37 +0000
Subject: [PATCH 04/65] fix: map list-like items to a common dtype only if none
 of them is altered

---
 hickle/loaders/load_builtins.py | 39 ++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 20 deletions(-)

diff --git a/hickle/loaders/load_builtins.py b/hickle/loaders/load_builtins.py
index 0605c4f..4a111df 100644
--- a/hickle/loaders/load_builtins.py
+++ b/hickle/loaders/load_builtins.py
@@ -123,28 +123,27 @@ def check_iterable_item_type(first_item,iter_obj):
     the least common dtype or none if not all items can be casted
     """
 
-    if (
-        operator.length_hint(first_item) > 1 or
-        ( operator.length_hint(first_item) == 1 and not isinstance(first_item,(str,bytes)) ) or
-        np.ndim(first_item) != 0
-    ):
-        return None
-
-    dtype = np.dtype(first_item.__class__)
-    if dtype.name == 'object' or 'str' in dtype.name or ( 'bytes' in dtype.name and len(first_item) > 1):
-        return None
-    for item in iter_obj:
-        if np.ndim(item) != 0:
+    # only numeric scalars can be mapped to a common dtype
+    items = [first_item]
+    items.extend(iter_obj)
+    dtype = None
+    for item in items:
+        if not isinstance(item,(bool,int,float,complex,np.number,np.bool_)):
             return None
-        common_dtype = np.result_type(np.dtype(item.__class__),dtype)
-        if ( 
-            common_dtype.name == 'object' or
-            'str' in common_dtype.name or
-            ( 'bytes' in common_dtype.name and len(item) > 1 )
-        ):
+        item_dtype = np.dtype(item.__class__)
+        dtype = item_dtype if dtype is None else np.result_type(item_dtype,dtype)
+        if dtype.name == 'object':
+            return None
+
+    # ensure that none of the items looses precision or overflows when casted
+    for item in items:
+        value = item.item() if isinstance(item,np.generic) else item
+        try:
+            casted = dtype.type(item).item()
+        except OverflowError:
+            return None
+        if casted != value and ( casted == casted or value == value ):
             return None
-        if dtype != common_dtype:
-            dtype = common_dtype
     return dtype
 
 def create_listlike_dataset(py_obj, h_group, name,list_len = -1,item_dtype = None, **kwargs):
-- 
2.43.0


From b31aee907d37d5be8f6c1a204af5a834a740beb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:25 +0000
Subject: [PATCH 05/65] fix: do not request filters for zero dimensional numpy
 arrays

---
 hickle/loaders/load_numpy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hickle/loaders/load_numpy.py b/hickle/loaders/load_numpy.py
index 5ad0ff2..440f191 100644
--- a/hickle/loaders/load_numpy.py
+++ b/hickle/loaders/load_numpy.py
@@ -123,7 +123,7 @@ def create_np_array_dataset(py_obj, h_group, name, **kwargs):
             sub_items = ("data",py_obj,{},kwargs),
     else:
         h_node = h_group.create_dataset(
-            name, data=py_obj, **( no_compression(kwargs) if "bytes" in dtype.name else kwargs )
+            name, data=py_obj, **( no_compression(kwargs) if "bytes" in dtype.name or py_obj.ndim < 1 else kwargs )
         )
         sub_items = ()
     h_node.attrs['np_dtype'] = dtype.str.encode('ascii')
-- 
2.43.0


From 5c17c8c5c4da7f925cbaf6dce53a4ff929c84afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:25 +0000
Subject: [PATCH 06/65] fix: preserve fields of structured numpy arrays,
 scalars and dtypes

---
 hickle/loaders/load_numpy.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/hickle/loaders/load_numpy.py b/hickle/loaders/load_numpy.py
index 440f191..8b08b68 100644
--- a/hickle/loaders/load_numpy.py
+++ b/hickle/loaders/load_numpy.py
@@ -13,7 +13,7 @@ import types
 
 # hickle imports
 from hickle.loaders.load_builtins import create_listlike_dataset,ListLikeContainer
-from hickle.helpers import PyContainer,no_compression
+from hickle.helpers import PyContainer,NotHicklable,no_compression
 
 
 # %% FUNCTION DEFINITIONS
@@ -67,6 +67,8 @@ def create_np_dtype(py_obj, h_group, name, **kwargs):
     -------
     tuple containing h5py.Dataset and empty list of subitems
     """
+    if py_obj.names is not None or py_obj.subdtype is not None:
+        raise NotHicklable("structured and subarray dtypes are not described by their string")
     d = h_group.create_dataset(name, data=bytearray(py_obj.str,"ascii"), **kwargs)
     return d,()
 
@@ -202,6 +204,9 @@ def load_np_scalar_dataset(h_node,base_type,py_obj_type):
     """
 
     dtype = np.dtype(h_node.attrs["np_dtype"])
+    if dtype.kind == 'V':
+        # structured or plain void scalar, h5py restores it including its fields
+        return h_node[()]
     return dtype.type(h_node[()])
 
 
@@ -233,6 +238,9 @@ def load_ndarray_dataset(h_node,base_type,py_obj_type):
             # itemsize of dtype is > 1
             string_data = bytes(string_data).decode("utf8")
         return np.asarray(string_data,dtype=dtype)
+    if dtype.kind == 'V':
+        # np_dtype does not name the fields of structured dtypes
+        dtype = h_node.dtype
     if issubclass(py_obj_type,np.matrix):
         return py_obj_type(data=h_node[()],dtype=dtype)
     # TODO how to restore other ndarray derived object_types
-- 
2.43.0


From eb65fb22d94cfbea9634f87eaca8a19b5a257e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:46 +0000
Subject: [PATCH 07/65] fix: restore empty numpy arrays of strings and objects
 including their shape

---
 hickle/loaders/load_numpy.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/hickle/loaders/load_numpy.py b/hickle/loaders/load_numpy.py
index 8b08b68..f97f9ae 100644
--- a/hickle/loaders/load_numpy.py
+++ b/hickle/loaders/load_numpy.py
@@ -100,7 +100,11 @@ def create_np_array_dataset(py_obj, h_group, name, **kwargs):
     dtype = py_obj.dtype
 
     # Check if py_obj contains strings
-    if "str" in dtype.name:
+    if py_obj.size < 1 and ( "str" in dtype.name or dtype.name == 'object' ):
+        # there is no item to be stored just remember the shape
+        h_node = h_group.create_dataset(name,shape = py_obj.shape,dtype = 'u1',**no_compression(kwargs))
+        sub_items = ()
+    elif "str" in dtype.name:
         if py_obj.ndim < 1:
             # convert string to utf8 encoded bytearray
             string_data = bytearray(py_obj.item(),"utf8") if 'bytes' not in dtype.name else memoryview(py_obj.item())
@@ -231,6 +235,9 @@ def load_ndarray_dataset(h_node,base_type,py_obj_type):
     """
     dtype = np.dtype(h_node.attrs['np_dtype'])
     if "str" in dtype.name:
+        if h_node.dtype.kind == 'u':
+            # empty array
+            return np.empty(h_node.shape,dtype=dtype)
         string_data = h_node[()]
         if h_node.dtype.itemsize <= 1 or 'bytes' not in h_node.dtype.name:
             # in hickle 4.0.X numpy.ndarrays containing multiple strings are 
-- 
2.43.0


From eacb97e71e2937fff374a3ba00e2ba5128253c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:24 +0000
Subject: [PATCH 08/65] fix: keep shape of object arrays whose items are
 sequences

---
 hickle/loaders/load_numpy.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/hickle/loaders/load_numpy.py b/hickle/loaders/load_numpy.py
index f97f9ae..89ca1a1 100644
--- a/hickle/loaders/load_numpy.py
+++ b/hickle/loaders/load_numpy.py
@@ -117,16 +117,19 @@ def create_np_array_dataset(py_obj, h_group, name, **kwargs):
             h_node,sub_items = create_listlike_dataset(py_obj.tolist(), h_group, name, **kwargs)
     elif dtype.name == 'object':
         # If so, convert py_obj to list
+        np_shape = py_obj.shape
         py_obj = py_obj.tolist()
 
-        # Check if py_obj is a list
-        if isinstance(py_obj, list):
+        # Check if py_obj is a list of the items
+        if len(np_shape) > 0:
             # If so, dump py_obj into the current group
             h_node,sub_items = create_listlike_dataset(py_obj, h_group, name, **kwargs)
         else:
             # If not, create a new group and dump py_obj into that
             h_node = h_group.create_group(name)
             sub_items = ("data",py_obj,{},kwargs),
+        # items may themselves be sequences, the depth of the list does not tell the shape
+        h_node.attrs['np_shape'] = np_shape
     else:
         h_node = h_group.create_dataset(
             name, data=py_obj, **( no_compression(kwargs) if "bytes" in dtype.name or py_obj.ndim < 1 else kwargs )
@@ -305,7 +308,16 @@ class NDArrayLikeContainer(ListLikeContainer):
             super(NDArrayLikeContainer,self).append(name,item,h5_attrs)
     
     def convert(self):
-        data = np.array(self._content,dtype = self._h5_attrs['np_dtype'])
+        np_shape = self._h5_attrs.get('np_shape',None)
+        if np_shape is None:
+            data = np.array(self._content,dtype = self._h5_attrs['np_dtype'])
+        else:
+            data = np.empty(tuple(np_shape),dtype = self._h5_attrs['np_dtype'])
+            for index in np.ndindex(data.shape):
+                item = self._content
+                for position in index:
+                    item = item[position]
+                data[index] = item
         return data if data.__class__ is self.object_type or isinstance(self.object_type,types.LambdaType) else self.object_type(data)
 
 class NDMaskedArrayContainer(PyContainer):
-- 
2.43.0


From ab0e3826feade39ffd84da36f294a8c840182ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:24 +0000
Subject: [PATCH 09/65] fix: leave garbage collector in the state it was found
 when closing file

---
 hickle/hickle.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/hickle/hickle.py b/hickle/hickle.py
index 9ade798..49ae2fe 100644
--- a/hickle/hickle.py
+++ b/hickle/hickle.py
@@ -241,10 +241,14 @@ def dump(py_obj, file_obj, mode='w', path='/',*,filename = None,options = {},**k
         # disable python garbage collector while closing to prevent Unrecognized
         # typecode ValueError caused by h5py objects collected to earlay most 
         # persistently observed with h5py 2.10 in python 3.7 on 32 bit windows
+        gc_enabled = gc.isenabled()
         gc.disable()
-        if close_flag:
-            h5f.close()
-        gc.enable()
+        try:
+            if close_flag:
+                h5f.close()
+        finally:
+            if gc_enabled:
+                gc.enable()
 
 ###########
 # LOADERS #
@@ -392,10 +396,14 @@ def load(file_obj, path='/', safe=True, filename = None):
         # disable python garbage collector while closing to prevent Unrecognized
         # typecode ValueError caused by h5py objects collected to earlay most 
         # persistently observed with h5py 2.10 in python 3.7 on 32 bit windows
+        gc_enabled = gc.isenabled()
         gc.disable()
-        if close_flag:
-            h5f.close()
-        gc.enable()
+        try:
+            if close_flag:
+                h5f.close()
+        finally:
+            if gc_enabled:
+                gc.enable()
 
 
 
-- 
2.43.0


From 07fb647a31487b15ed0ae798ccee0819851a41ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:24 +0000
Subject: [PATCH 10/65] fix: refuse to exclude base_types reserved for hickle
 core

---
 hickle/lookup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hickle/lookup.py b/hickle/lookup.py
index daeea27..1885917 100644
--- a/hickle/lookup.py
+++ b/hickle/lookup.py
@@ -1038,7 +1038,7 @@ class LoaderManager(BaseManager):
             recognized as valid option
         """
     
-        if hkl_str_to_ignore[0] == hkl_str_to_ignore[-1] == b'!' or hkl_str_to_ignore in disallowed_to_ignore:
+        if hkl_str_to_ignore[:1] == hkl_str_to_ignore[-1:] == b'!' or hkl_str_to_ignore in disallowed_to_ignore:
             raise ValueError(
                 "excluding '{}' base_type managed by hickle core not possible".format(
                     hkl_str_to_ignore
-- 
2.43.0


From cf840d43cc56b9e7d39ebeb3ec996b086c0b4f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:24 +0000
Subject: [PATCH 11/65] fix: restore dict subclasses from a mapping (Counter
 counted key value pairs)

---
 hickle/loaders/load_builtins.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hickle/loaders/load_builtins.py b/hickle/loaders/load_builtins.py
index 4a111df..2f3b887 100644
--- a/hickle/loaders/load_builtins.py
+++ b/hickle/loaders/load_builtins.py
@@ -525,7 +525,8 @@ class DictLikeContainer(PyContainer):
         self._content[key_index] = item
 
     def convert(self):
-        return self.object_type(self._content)
+        content = dict(self._content)
+        return content if self.object_type is dict else self.object_type(content)
 
     
 
-- 
2.43.0


From 96bfaa9f1d24ae50dc7be965ab0f1e7a28c6ed2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:24 +0000
Subject: [PATCH 12/65] fix: dump scalar astropy Time given as string

---
 hickle/loaders/load_astropy.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/hickle/loaders/load_astropy.py b/hickle/loaders/load_astropy.py
index 6bd9876..860bcc5 100644
--- a/hickle/loaders/load_astropy.py
+++ b/hickle/loaders/load_astropy.py
@@ -130,17 +130,20 @@ def create_astropy_time(py_obj, h_group, name, **kwargs):
 
     # Need to catch string times, e.g. 1999-01-01T00:00:00.123
     # Must be encoded into bytes. 
-    if 'str' in py_obj.value.dtype.name:
+    value = np.asarray(py_obj.value)
+    if value.ndim < 1:
+        kwargs = no_compression(kwargs)
+    if 'str' in value.dtype.name:
         # 2024.03.31 - Convert both big and little endians to |S dtype
-        bytes_dtype_str = py_obj.value.dtype.str.replace('<U', '|S').replace('>U', '|S')
+        bytes_dtype_str = value.dtype.str.replace('<U', '|S').replace('>U', '|S')
         d = h_group.create_dataset(
             name,
-            data = np.array(py_obj.value.astype(bytes_dtype_str)),
+            data = np.array(value.astype(bytes_dtype_str)),
             **kwargs
         )
     else:
-        d = h_group.create_dataset(name, data=py_obj.value, dtype=py_obj.value.dtype)
-    d.attrs['np_dtype'] = py_obj.value.dtype.str.encode('ascii')
+        d = h_group.create_dataset(name, data=value, dtype=value.dtype)
+    d.attrs['np_dtype'] = value.dtype.str.encode('ascii')
 
     d.attrs['format'] = str(py_obj.format).encode('ascii')
     d.attrs['scale'] = str(py_obj.scale).encode('ascii')
-- 
2.43.0


From d4aa7c2102e8f06b1f76c080f478f540d75d9a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:45 +0000
Subject: [PATCH 13/65] fix: do not drop frame, distance and motion of astropy
 SkyCoord objects

---
 hickle/loaders/load_astropy.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/hickle/loaders/load_astropy.py b/hickle/loaders/load_astropy.py
index 860bcc5..2070bbf 100644
--- a/hickle/loaders/load_astropy.py
+++ b/hickle/loaders/load_astropy.py
@@ -1,6 +1,6 @@
 # %% IMPORTS
 # Package imports
-from astropy.coordinates import Angle, SkyCoord
+from astropy.coordinates import Angle, SkyCoord, UnitSphericalRepresentation
 from astropy.constants import Constant
 from astropy.table import Table
 from astropy.time import Time
@@ -9,7 +9,7 @@ import numpy as np
 import sys
 
 # hickle imports
-from hickle.helpers import no_compression,load_str_list_attr_ascii,load_str_attr_ascii
+from hickle.helpers import NotHicklable,no_compression,load_str_list_attr_ascii,load_str_attr_ascii
 
 
 # %% FUNCTION DEFINITIONS
@@ -94,6 +94,11 @@ def create_astropy_skycoord(py_obj, h_group, name, **kwargs):
     tuple containing h5py.Dataset representing astorpy SkyCoord and empty subitems
     """
 
+    if (
+        py_obj.frame.name != 'icrs' or
+        not isinstance(py_obj.data,UnitSphericalRepresentation) or py_obj.data.differentials
+    ):
+        raise NotHicklable("only direction in ICRS frame can be mapped to dataset")
     lon = py_obj.data.lon.value
     lat = py_obj.data.lat.value
     dd = np.stack((lon, lat), axis=-1)
-- 
2.43.0


From ba6524d24cd08b6c4a85731376b286092d73ea2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:45 +0000
Subject: [PATCH 14/65] fix: keep attributes added by parent container out of
 astropy Table meta data

---
 hickle/loaders/load_astropy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hickle/loaders/load_astropy.py b/hickle/loaders/load_astropy.py
index 2070bbf..5d26dc0 100644
--- a/hickle/loaders/load_astropy.py
+++ b/hickle/loaders/load_astropy.py
@@ -390,7 +390,7 @@ def load_astropy_table(h_node,base_type,py_obj_type):
         meta = {
             metakey:metavalue 
             for metakey,metavalue in h_node.attrs.items()
-            if metakey not in {'type','base_type','colnames'}
+            if metakey not in {'type','base_type','colnames','item_index','key_idx','key_base_type'}
         }
     )
     return t
-- 
2.43.0


From 369aaacf5e9b6c99bc3745430d87766efb637de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:45 +0000
Subject: [PATCH 15/65] fix: report inconsistent type table by ReferenceError
 instead of UnboundLocalError

---
 hickle/lookup.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hickle/lookup.py b/hickle/lookup.py
index 1885917..d702214 100644
--- a/hickle/lookup.py
+++ b/hickle/lookup.py
@@ -555,7 +555,7 @@ class ReferenceManager(BaseManager, dict):
             if not isinstance(base_type_ref,h5.Reference):
                 raise ReferenceError(
                     "inconsistent 'hickle_types_table' entries for py_obj_type '{}': "
-                    "no base_type".format(py_obj_type)
+                    "no base_type".format(entry.name)
                 )
             try:
                 base_type_entry = entry.file.get(base_type_ref,None)
@@ -564,7 +564,7 @@ class ReferenceManager(BaseManager, dict):
             if base_type_entry is None:
                 raise ReferenceError(
                     "inconsistent 'hickle_types_table' entries for py_obj_type '{}': "
-                    "stale base_type".format(py_obj_type)
+                    "stale base_type".format(entry.name)
                 )
             base_type = self._base_type_link.get(base_type_entry.id,None)
             if base_type is None:
-- 
2.43.0


From 1263ee405c84ab772ed786dd6a5e11c6d972f230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:08 +0000
Subject: [PATCH 16/65] fix: accept documented modes 'w+', 'x+' and 'a+' for
 file names

---
 hickle/fileio.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hickle/fileio.py b/hickle/fileio.py
index 139b59a..d0dad5d 100644
--- a/hickle/fileio.py
+++ b/hickle/fileio.py
@@ -144,7 +144,9 @@ def file_opener(f, path, mode='r',filename = None):
 
     # Were we handed a file object or just a file name string?
     if isinstance(f, (str, Path)):
-        return h5.File(f, mode.replace('b','')),path,True
+        # h5py does not know 'w+', 'x+' and 'a+' modes, all its writable files are readable too
+        h5_mode = mode.replace('b','')
+        return h5.File(f, h5_mode[:-1] if h5_mode in ('w+','x+','a+') else h5_mode),path,True
     if isinstance(f, h5.Group):
         if not f:
             raise ClosedFileError(
-- 
2.43.0


From aa1debee257b123e7277998a3d98f9d03777ae9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:30 +0000
Subject: [PATCH 17/65] fix: close files opened by hickle even if flushing them
 fails

---
 hickle/hickle.py | 50 +++++++++++++++++++++++++++---------------------
 1 file changed, 28 insertions(+), 22 deletions(-)

diff --git a/hickle/hickle.py b/hickle/hickle.py
index 49ae2fe..7c52765 100644
--- a/hickle/hickle.py
+++ b/hickle/hickle.py
@@ -236,19 +236,22 @@ def dump(py_obj, file_obj, mode='w', path='/',*,filename = None,options = {},**k
                 _dump(py_obj, h_root_group,'data', memo ,loader,**kwargs)
     finally:
         # Flush the the h5py.File  and close it if it was opened by hickle.
-        h5f.flush()
-
-        # disable python garbage collector while closing to prevent Unrecognized
-        # typecode ValueError caused by h5py objects collected to earlay most 
-        # persistently observed with h5py 2.10 in python 3.7 on 32 bit windows
-        gc_enabled = gc.isenabled()
-        gc.disable()
+        # Ensure that it is closed even if flushing fails eg. because disk is full.
         try:
-            if close_flag:
-                h5f.close()
+            h5f.flush()
         finally:
-            if gc_enabled:
-                gc.enable()
+
+            # disable python garbage collector while closing to prevent Unrecognized
+            # typecode ValueError caused by h5py objects collected to earlay most 
+            # persistently observed with h5py 2.10 in python 3.7 on 32 bit windows
+            gc_enabled = gc.isenabled()
+            gc.disable()
+            try:
+                if close_flag:
+                    h5f.close()
+            finally:
+                if gc_enabled:
+                    gc.enable()
 
 ###########
 # LOADERS #
@@ -391,19 +394,22 @@ def load(file_obj, path='/', safe=True, filename = None):
         raise ValueError("Provided argument 'file_obj' does not appear to be a valid hickle file! (%s)" % (error),error) from error
     finally:
         # Flush the h5py.File and close it lif it was opened by hickle.
-        h5f.flush()
-
-        # disable python garbage collector while closing to prevent Unrecognized
-        # typecode ValueError caused by h5py objects collected to earlay most 
-        # persistently observed with h5py 2.10 in python 3.7 on 32 bit windows
-        gc_enabled = gc.isenabled()
-        gc.disable()
+        # Ensure that it is closed even if flushing fails eg. because disk is full.
         try:
-            if close_flag:
-                h5f.close()
+            h5f.flush()
         finally:
-            if gc_enabled:
-                gc.enable()
+
+            # disable python garbage collector while closing to prevent Unrecognized
+            # typecode ValueError caused by h5py objects collected to earlay most 
+            # persistently observed with h5py 2.10 in python 3.7 on 32 bit windows
+            gc_enabled = gc.isenabled()
+            gc.disable()
+            try:
+                if close_flag:
+                    h5f.close()
+            finally:
+                if gc_enabled:
+                    gc.enable()
 
 
 
-- 
2.43.0


From 3c3458a50bd141a8de94b7d3bf378d67b00c4872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:34 +0000
Subject: [PATCH 18/65] fix: do not store unknown options in the file before
 refusing them

---
 hickle/lookup.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hickle/lookup.py b/hickle/lookup.py
index d702214..f6f0fdd 100644
--- a/hickle/lookup.py
+++ b/hickle/lookup.py
@@ -1105,6 +1105,9 @@ class LoaderManager(BaseManager):
                 for option_key,on in options.items():
                     if not on:
                         continue
+                    # do not leave an option behind which prevents file from being loaded
+                    if option_key not in self.__class__.__py_types__:
+                        raise LookupError("Option '{}' invalid".format(option_key))
                     h_root_group.attrs[LoaderManager._option_formatter.format(option_key.upper())] = on 
                     yield option_key
             option_items = set_option_items()
-- 
2.43.0


From 3ff380f7984bf61cfcb3ae8a66200ba250a2f2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:35 +0000
Subject: [PATCH 19/65] fix: load no longer adds a type table to files opened
 for writing

---
 hickle/hickle.py |  4 ++--
 hickle/lookup.py | 15 +++++++++++----
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/hickle/hickle.py b/hickle/hickle.py
index 7c52765..711f5fd 100644
--- a/hickle/hickle.py
+++ b/hickle/hickle.py
@@ -377,12 +377,12 @@ def load(file_obj, path='/', safe=True, filename = None):
                 # just in case issues arise. Especially as corresponding lambdas in
                 # load_numpy are not needed anymore and thus have been removed.
                 with LoaderManager.create_manager(h_root_group,True) as loader:
-                    with ReferenceManager.create_manager(h_root_group,fix_lambda_obj_type) as memo:
+                    with ReferenceManager.create_manager(h_root_group,fix_lambda_obj_type,read_only = True) as memo:
                         _load(py_container, 'data',h_root_group['data'],memo,loader) #load_loader = load_legacy_loader)
                 return py_container.convert()
             # 4.1.x file and newer
             with LoaderManager.create_manager( h_root_group,False) as loader:
-                with ReferenceManager.create_manager(h_root_group,pickle_loads) as memo:
+                with ReferenceManager.create_manager(h_root_group,pickle_loads,read_only = True) as memo:
                     _load(py_container, 'data',h_root_group['data'],memo,loader) #load_loader = load_loader)
             return py_container.convert()
 
diff --git a/hickle/lookup.py b/hickle/lookup.py
index f6f0fdd..cbe3e96 100644
--- a/hickle/lookup.py
+++ b/hickle/lookup.py
@@ -450,7 +450,7 @@ class ReferenceManager(BaseManager, dict):
         h5file.close()
 
     @classmethod
-    def create_manager(cls,h_node, pickle_loads = pickle.loads):
+    def create_manager(cls,h_node, pickle_loads = pickle.loads, read_only = False):
         """
         creates a new ReferenceManager object for the h_root_group the h_node
         belongs to. 
@@ -467,6 +467,10 @@ class ReferenceManager(BaseManager, dict):
             defaults to pickle.loads. Must be set to fix_lambda_obj_type 
             for hickle file created by hickle 4.x.
 
+        read_only (bool):
+            if True the file h_node belongs to must not be modified even if it
+            is opened for writing.
+
         Raises
         ------
         LookupError:
@@ -475,12 +479,12 @@ class ReferenceManager(BaseManager, dict):
 
         def create_manager():
             return ( 
-                ReferenceManager(h_node,pickle_loads = pickle_loads),
+                ReferenceManager(h_node,pickle_loads = pickle_loads,read_only = read_only),
                 ReferenceManager.get_root(h_node)
             )
         return super().create_manager(h_node,create_manager)
 
-    def __init__(self, h_root_group, *args,pickle_loads = pickle.loads, **kwargs):
+    def __init__(self, h_root_group, *args,pickle_loads = pickle.loads, read_only = False, **kwargs):
         """
         constructs ReferenceManager object
 
@@ -495,6 +499,9 @@ class ReferenceManager(BaseManager, dict):
         pickle_loads (FunctionType,MethodType):
             see ReferenceManager.create_manager
 
+        read_only (bool):
+            see ReferenceManager.create_manager
+
         kwargs (dict):
             passed to dict.__init__
 
@@ -519,7 +526,7 @@ class ReferenceManager(BaseManager, dict):
         # structure.
         self._py_obj_type_table = h_root_group.get('hickle_types_table',None)
         if self._py_obj_type_table is None:
-            if h_root_group.file.mode == 'r+':
+            if h_root_group.file.mode == 'r+' and not read_only:
                 self._py_obj_type_table = h_root_group.create_group("hickle_types_table",track_order = True)
             else:
                 h5_overlay = h5.File(
-- 
2.43.0


From 16511ed1c57cdc384002c6f41eda89beefd8e1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:30 +0000
Subject: [PATCH 20/65] fix: release manager of hickle 4.0 files when load
 fails

---
 hickle/lookup.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hickle/lookup.py b/hickle/lookup.py
index cbe3e96..229e7b2 100644
--- a/hickle/lookup.py
+++ b/hickle/lookup.py
@@ -387,6 +387,7 @@ class ReferenceManager(BaseManager, dict):
         '_py_obj_type_table', # hickle_types_table h5py.Group storing type information
         '_py_obj_type_link', # dictionary linking py_obj_type and representation in hickle_types_table
         '_base_type_link', # dictionary linking base_type string and representation in hickle_types_table
+        '_fileid', # id of the file manager was created for, differs from file of table if overlay is used
         '_overlay', # in memory hdf5 dummy file hosting dummy hickle_types_table for hickle 4.x files
         'pickle_loads' # reference to pickle.loads method
     )
@@ -514,6 +515,7 @@ class ReferenceManager(BaseManager, dict):
         super().__init__(*args,**kwargs)
         self._py_obj_type_link = dict()
         self._base_type_link = dict()
+        self._fileid = h_root_group.file.id
         self._overlay = None
         self.pickle_loads = pickle_loads
 
@@ -841,6 +843,9 @@ class ReferenceManager(BaseManager, dict):
         # and cleanly unlink from any h5py object instance and id references managed. Finalize
         # 'hickle_types_table' overlay if it was created by __init__ for hickle 4.x file
         super().__exit__(exc_type, exc_value, exc_traceback, self._py_obj_type_table)
+        if self._overlay is not None:
+            self.__class__._drop_manager(self._fileid)
+        self._fileid = None
         self._py_obj_type_table = None
         self._py_obj_type_link = None
         self._base_type_link = None
-- 
2.43.0


From d4ed8d0669bc9c10304609730ec41512f171bcc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:52 +0000
Subject: [PATCH 21/65] fix: load strings of hickle 3.x files as they were
 dumped

Since h5py 3.0 variable length strings are returned as bytes thus str(data[0])
yields "b'...'".
---
 hickle/legacy_v3/loaders/load_python3.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hickle/legacy_v3/loaders/load_python3.py b/hickle/legacy_v3/loaders/load_python3.py
index 9ec82bc..726e5f0 100644
--- a/hickle/legacy_v3/loaders/load_python3.py
+++ b/hickle/legacy_v3/loaders/load_python3.py
@@ -142,7 +142,8 @@ def load_bytes_dataset(h_node):
 
 def load_string_dataset(h_node):
     py_type, data = get_type_and_data(h_node)
-    return str(data[0])
+    # h5py < 3 returned strings as str, since then they are returned as bytes
+    return str(data[0], 'utf8') if isinstance(data[0], bytes) else str(data[0])
 
 def load_unicode_dataset(h_node):
     py_type, data = get_type_and_data(h_node)
-- 
2.43.0


From 215ee6a7113a7780390ec155995d40d7d9f836df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:52 +0000
Subject: [PATCH 22/65] fix: load lists of arbitrary bytes from hickle 3.x
 files

bytes are not necessarily valid utf8
---
 hickle/legacy_v3/loaders/load_python3.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hickle/legacy_v3/loaders/load_python3.py b/hickle/legacy_v3/loaders/load_python3.py
index 726e5f0..6a45a38 100644
--- a/hickle/legacy_v3/loaders/load_python3.py
+++ b/hickle/legacy_v3/loaders/load_python3.py
@@ -121,8 +121,7 @@ def load_list_dataset(h_node):
     py3_str_type = get_py3_string_type(h_node)
 
     if py3_str_type == b"<class 'bytes'>":
-        # Yuck. Convert numpy._bytes -> str -> bytes
-        return [bytes(str(item, 'utf8'), 'utf8') for item in data]
+        return [bytes(item) for item in data]
     if py3_str_type == b"<class 'str'>":
         return [str(item, 'utf8') for item in data]
     else:
-- 
2.43.0


From 3b2e507a32ef395edc99b6cc55e99d95c0fe93bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:52 +0000
Subject: [PATCH 23/65] fix: restore bool dict keys of hickle 3.x files by
 their value

bool('False') is True
---
 hickle/legacy_v3/lookup.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hickle/legacy_v3/lookup.py b/hickle/legacy_v3/lookup.py
index 6ed0d6c..604cd57 100644
--- a/hickle/legacy_v3/lookup.py
+++ b/hickle/legacy_v3/lookup.py
@@ -94,13 +94,13 @@ container_types_dict = {
 container_key_types_dict = {
     b"<type 'str'>": literal_eval,
     b"<type 'float'>": float,
-    b"<type 'bool'>": bool,
+    b"<type 'bool'>": literal_eval,
     b"<type 'int'>": int,
     b"<type 'complex'>": complex,
     b"<type 'tuple'>": literal_eval,
     b"<class 'str'>": literal_eval,
     b"<class 'float'>": float,
-    b"<class 'bool'>": bool,
+    b"<class 'bool'>": literal_eval,
     b"<class 'int'>": int,
     b"<class 'complex'>": complex,
     b"<class 'tuple'>": literal_eval
-- 
2.43.0


From 7d8c13088d9768546012cad68ad485235312307f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:52 +0000
Subject: [PATCH 24/65] fix: load hickle 3.x dicts with non ascii keys

---
 hickle/legacy_v3/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hickle/legacy_v3/helpers.py b/hickle/legacy_v3/helpers.py
index b7e0034..dac7987 100644
--- a/hickle/legacy_v3/helpers.py
+++ b/hickle/legacy_v3/helpers.py
@@ -32,7 +32,7 @@ def sort_keys(key_list):
         key_list2 = []
         for key in key_list:
             if isinstance(key, str):
-                key = bytes(key, 'ascii')
+                key = bytes(key, 'utf8')
             key_list2.append(key)
         key_list = key_list2
 
-- 
2.43.0


From 2bd9c48d20d13be34e644fe59cf8101792f8aba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:04 +0000
Subject: [PATCH 25/65] fix: do not add masks of hickle 3.x masked arrays as
 additional None items to lists

---
 hickle/legacy_v3/hickle.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hickle/legacy_v3/hickle.py b/hickle/legacy_v3/hickle.py
index 1653682..3891d43 100644
--- a/hickle/legacy_v3/hickle.py
+++ b/hickle/legacy_v3/hickle.py
@@ -605,7 +605,10 @@ def _load(py_container, h_group):
         py_container.append(sub_data)
 
     else:
-        # must be a dataset
+        # must be a dataset. The mask of a masked array is no item on its own,
+        # it is loaded along with the data of the array
+        if get_type(h_group) == b'ndarray_masked_mask':
+            return py_container
         subdata = load_dataset(h_group)
         py_container.append(subdata)
 
-- 
2.43.0


From 6c8a6efff8d1bf8696026f5fb2c66a71e094479b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:04 +0000
Subject: [PATCH 26/65] fix: load hickle 3.x files from h5py.Group and file
 objects

Pass file already opened to legacy_v3.load which knows about file names and
h5py.File objects only
---
 hickle/hickle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hickle/hickle.py b/hickle/hickle.py
index 711f5fd..9aafd11 100644
--- a/hickle/hickle.py
+++ b/hickle/hickle.py
@@ -362,7 +362,7 @@ def load(file_obj, path='/', safe=True, filename = None):
             from hickle import legacy_v3
             warnings.warn("Input argument 'file_obj' appears to be a file made"
                           " with hickle v3. Using legacy load...")
-            return(legacy_v3.load(file_obj, path, safe))
+            return(legacy_v3.load(h5f, path, safe))
 
         # Else, check if the proper attributes for v4 loading are available
         if all(map(h_root_group.attrs.get, v4_attrs)):
-- 
2.43.0


From 33b99aff989390160834905d7c1d4d6e79a014fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:44 +0000
Subject: [PATCH 27/65] fix: load lists of non ascii, single character and
 empty strings from hickle 4.0 files

Lists of strings are stored by hickle 4.0 as array of utf8 encoded strings,
decoding them as ascii fails and joining them if none is longer than one byte
yields '\\0' for any empty one.
---
 hickle/loaders/load_builtins.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hickle/loaders/load_builtins.py b/hickle/loaders/load_builtins.py
index 2f3b887..2a58d0a 100644
--- a/hickle/loaders/load_builtins.py
+++ b/hickle/loaders/load_builtins.py
@@ -387,10 +387,11 @@ def load_list_dataset(h_node,base_type,py_obj_type):
     if str_type in (b'str','str'):
 
         # decode bytes representing python string before final conversion
-        if h_node.dtype.itemsize > 1 and 'bytes' in h_node.dtype.name:
+        if 'bytes' in h_node.dtype.name and h_node.ndim == 1:
 
-            # string dataset 4.0.x style convert it back to python string
-            content = np.asarray(content, dtype=str).tolist()
+            # list of utf8 encoded strings stored 4.0.x style convert them back to python
+            # strings. A single string is stored as two dimensional array of bytes.
+            content = [ str(item,"utf8") for item in content ]
         else:
 
             # decode bytes representing python string before final conversion
-- 
2.43.0


From 78f841255267db068b00c13f3e817535b7c61c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:51 +0000
Subject: [PATCH 28/65] fix: load numpy arrays of single character strings from
 hickle 4.0 files

only the first character was restored as zero dimensional array
---
 hickle/loaders/load_numpy.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hickle/loaders/load_numpy.py b/hickle/loaders/load_numpy.py
index 89ca1a1..9e9e6be 100644
--- a/hickle/loaders/load_numpy.py
+++ b/hickle/loaders/load_numpy.py
@@ -242,10 +242,11 @@ def load_ndarray_dataset(h_node,base_type,py_obj_type):
             # empty array
             return np.empty(h_node.shape,dtype=dtype)
         string_data = h_node[()]
-        if h_node.dtype.itemsize <= 1 or 'bytes' not in h_node.dtype.name:
+        if ( h_node.dtype.itemsize <= 1 and h_node.shape[:-1] == (1,) ) or 'bytes' not in h_node.dtype.name:
             # in hickle 4.0.X numpy.ndarrays containing multiple strings are 
             # not converted to list of string but saved as ar consequently
-            # itemsize of dtype is > 1
+            # itemsize of dtype is > 1 or in case of single character strings
+            # h_node has the shape of the array
             string_data = bytes(string_data).decode("utf8")
         return np.asarray(string_data,dtype=dtype)
     if dtype.kind == 'V':
-- 
2.43.0


From 96655bd0816483565ef2013473702ca4ead477e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:20 +0000
Subject: [PATCH 29/65] fix: load lists of bytes from hickle 4.0 files as lists
 of bytes

instead of lists of numpy.bytes_
---
 hickle/loaders/load_builtins.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hickle/loaders/load_builtins.py b/hickle/loaders/load_builtins.py
index 2a58d0a..1e7e8ca 100644
--- a/hickle/loaders/load_builtins.py
+++ b/hickle/loaders/load_builtins.py
@@ -396,6 +396,10 @@ def load_list_dataset(h_node,base_type,py_obj_type):
 
             # decode bytes representing python string before final conversion
             content = bytes(content).decode("utf8")
+    elif str_type in (b'bytes','bytes') and h_node.ndim == 1:
+
+        # list of bytes strings stored 4.0.x style
+        content = content.tolist()
     return py_obj_type(content) if content.__class__ is not py_obj_type else content
 
 def load_hickle_4_x_string(h_node,base_type,py_obj_type):
-- 
2.43.0


From 292b9579ea969b0788cbe69dae9b59880feb232b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:24 +0000
Subject: [PATCH 30/65] fix: load object arrays from hickle 4.0 files when
 numpy loader is not loaded yet

Groups of object arrays of hickle 4.0.x files carry a lambda as type, for which
a drop in replacement is presented. As this is registered by hickle core the
numpy loader was never loaded if such an array was the first numpy object
encountered and its content recovered as dict instead.
---
 hickle/lookup.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hickle/lookup.py b/hickle/lookup.py
index 229e7b2..a047a32 100644
--- a/hickle/lookup.py
+++ b/hickle/lookup.py
@@ -1180,6 +1180,10 @@ class LoaderManager(BaseManager):
             # Check if mro_item is already listed in types_dict and return if found 
             loader_item = types_dict.get(mro_item,None)
             if loader_item is not None:
+                if mro_item is _moc_numpy_array_object_lambda:
+                    # the lambda it stands for was defined by the numpy loader, which
+                    # is the one which knows how to restore the corresponding groups
+                    self.load_loader(np.ndarray)
                 return py_obj_type,loader_item
     
             # Obtain the package name of mro_item
-- 
2.43.0


From 195733bbfb108ec6484106543884bf9a482b07c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:13 +0000
Subject: [PATCH 31/65] fix: restore namedtuples and other tuple subclasses
 with own constructor

They were dumped like any other tuple, but their constructor does not accept
the list of items passed to it on load.
---
 hickle/loaders/load_builtins.py | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/hickle/loaders/load_builtins.py b/hickle/loaders/load_builtins.py
index 1e7e8ca..01a1d89 100644
--- a/hickle/loaders/load_builtins.py
+++ b/hickle/loaders/load_builtins.py
@@ -25,6 +25,29 @@ import warnings
 from hickle.helpers import PyContainer,NotHicklable,no_compression,nobody_is_my_name
 
 
+def restore_listlike(content,py_obj_type):
+    """
+    creates py_obj_type instance from its items
+
+    Parameters
+    ----------
+    content (list, numpy.ndarray, ...):
+        the items
+
+    py_obj_type (list, tuple, set, ...): final type of restored object
+
+    Returns
+    -------
+    resulting python object of type py_obj_type
+    """
+    if content.__class__ is py_obj_type:
+        return content
+    if isinstance(py_obj_type,type) and issubclass(py_obj_type,tuple):
+        # constructors of tuple subclasses such as the ones created by
+        # collections.namedtuple may expect something else than the items
+        return tuple.__new__(py_obj_type,content)
+    return py_obj_type(content)
+
 def load_bool_key(name):
     """
     converts string representation of bool type dict key back to bool
@@ -380,7 +403,7 @@ def load_list_dataset(h_node,base_type,py_obj_type):
     if h_node.shape is None:
 
         # empty list tuple or set just return new instance of py_obj_type
-        return py_obj_type() if isinstance(py_obj_type,tuple) else py_obj_type(())
+        return restore_listlike((),py_obj_type)
 
     str_type = h_node.attrs.get('str_type', None)
     content = h_node[()]
@@ -400,7 +423,7 @@ def load_list_dataset(h_node,base_type,py_obj_type):
 
         # list of bytes strings stored 4.0.x style
         content = content.tolist()
-    return py_obj_type(content) if content.__class__ is not py_obj_type else content
+    return restore_listlike(content,py_obj_type)
 
 def load_hickle_4_x_string(h_node,base_type,py_obj_type):
     """
@@ -466,7 +489,7 @@ class ListLikeContainer(PyContainer):
         self._content[index] = item
         
     def convert(self):
-        return self._content if self.object_type is self._content.__class__ else self.object_type(self._content)
+        return restore_listlike(self._content,self.object_type)
 
 class SetLikeContainer(PyContainer):
     """
-- 
2.43.0


From 8165f482778043e19a431e8c84d7402cbda79090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:13 +0000
Subject: [PATCH 32/65] fix: pickle defaultdict objects which can not be
 restored from their items

They were dumped like any other dict. On load the dict of items was passed to
defaultdict as default_factory and loading failed.
---
 hickle/loaders/load_builtins.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hickle/loaders/load_builtins.py b/hickle/loaders/load_builtins.py
index 01a1d89..193511b 100644
--- a/hickle/loaders/load_builtins.py
+++ b/hickle/loaders/load_builtins.py
@@ -12,6 +12,7 @@ hickle.
 # %% IMPORTS
 # Built-in imports
 import warnings
+import collections
 import re
 import operator
 
@@ -301,6 +302,8 @@ def create_dictlike_dataset(py_obj, h_group, name, **kwargs):
     list is always empty 
     """
 
+    if isinstance(py_obj,collections.defaultdict):
+        raise NotHicklable("default_factory not described by items of dict")
     h_dictgroup = h_group.create_group(name)
     key_value_pair_name = "data{:d}"
 
-- 
2.43.0


From 28351a4576e92767130c989588f1502854d90c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:40 +0000
Subject: [PATCH 33/65] fix: accept str as base_type when registering and
 excluding loaders

According to the documentation hkl_str is a string. The checks which protect the
loaders of hickle core ignored str and part of the registration took effect before
it failed.
---
 hickle/lookup.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hickle/lookup.py b/hickle/lookup.py
index a047a32..a8d7c3a 100644
--- a/hickle/lookup.py
+++ b/hickle/lookup.py
@@ -1002,6 +1002,8 @@ class LoaderManager(BaseManager):
                         myclass_type.__name__
                     )
                 )
+        if isinstance(hkl_str,str):
+            hkl_str = hkl_str.encode('ascii')
         if ( 
             ( cls.__hkl_functions__[None].get(hkl_str) or cls.__hkl_container__[None].get(hkl_str) ) and
             ( hkl_str[:1] == hkl_str[-1:] == b'!' or hkl_str in disallow_in_option )
@@ -1050,6 +1052,8 @@ class LoaderManager(BaseManager):
             recognized as valid option
         """
     
+        if isinstance(hkl_str_to_ignore,str):
+            hkl_str_to_ignore = hkl_str_to_ignore.encode('ascii')
         if hkl_str_to_ignore[:1] == hkl_str_to_ignore[-1:] == b'!' or hkl_str_to_ignore in disallowed_to_ignore:
             raise ValueError(
                 "excluding '{}' base_type managed by hickle core not possible".format(
-- 
2.43.0


From 25a291517e8de2d24e89d9ab3ec31121c7b4839f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:05 +0000
Subject: [PATCH 34/65] fix: dump objects of classes defined by modules without
 spec

Looking for loaders raised ValueError if the class was defined by a module
created at runtime.
---
 hickle/lookup.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hickle/lookup.py b/hickle/lookup.py
index a8d7c3a..fdca355 100644
--- a/hickle/lookup.py
+++ b/hickle/lookup.py
@@ -1284,7 +1284,9 @@ class LoaderManager(BaseManager):
                     assert isinstance(package_file,str), "package_file name for _custom_loader_enabled_builtins must be string"
                     if not package_file:
                         package_spec = getattr(sys.modules.get(package_list[0],None),'__spec__',None)
-                        if package_spec is None:
+                        if package_spec is None and package_list[0] not in sys.modules:
+                            # find_spec raises ValueError for modules created at
+                            # runtime which do not have any spec
                             package_spec = find_spec(package_list[0])
                         if not getattr(package_spec,'has_location',False):
                             # can't resolve package or base module hosting mro_item
-- 
2.43.0


From e87cb618b5199709184c5fa0fca99f81584e8173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:39 +0000
Subject: [PATCH 35/65] fix: recover empty datasets and datasets of variable
 length strings

Recovering such a dataset failed and with it loading of the whole file.
---
 hickle/lookup.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/hickle/lookup.py b/hickle/lookup.py
index fdca355..380a2b2 100644
--- a/hickle/lookup.py
+++ b/hickle/lookup.py
@@ -218,16 +218,10 @@ class RecoveredDataset(np.ndarray,AttemptRecoverCustom):
     __slots__ = ('attrs',)
 
     def __new__(cls,input_array,dtype=None,attrs={}):
-        array_copy = np.array(input_array,dtype=dtype)
-        obj = super().__new__(
-            cls,
-            shape = array_copy.shape,
-            dtype = array_copy.dtype,
-            buffer=array_copy,
-            offset=0,
-            strides=array_copy.strides,
-            order = 'C' if array_copy.flags.c_contiguous else 'F'
-        )
+        if isinstance(input_array,h5.Empty):
+            # dataset without any items eg. representing an empty list
+            input_array = ()
+        obj = np.array(input_array,dtype=dtype).view(cls)
         obj.attrs = {name:value for name,value in attrs.items() if name not in {'type'}}
         return obj
     
-- 
2.43.0


From 3eb2e2a19c750ee852b6c3d8c5dbe3ce169dcc50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:39 +0000
Subject: [PATCH 36/65] fix: warn when recovering pickle string of object whose
 class is missing

---
 hickle/lookup.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/hickle/lookup.py b/hickle/lookup.py
index 380a2b2..220c520 100644
--- a/hickle/lookup.py
+++ b/hickle/lookup.py
@@ -1525,7 +1525,13 @@ def load_pickled_data(h_node, base_type, py_obj_type):
     """
     try:
         return pickle.loads(h_node[()])
-    except (ImportError,AttributeError):
+    except (ImportError,AttributeError) as error:
+        warnings.warn(
+            "pickled object not restored ({}). Data recovered ({})".format(
+                error,h_node.name.rsplit('/')[-1]
+            ),
+            DataRecoveredWarning
+        )
         return RecoveredDataset(h_node[()],dtype = h_node.dtype,attrs = dict(h_node.attrs))
 
         
-- 
2.43.0


From eb0bb6c301b9e65554ea9b130c6f883b65306dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:04 +0000
Subject: [PATCH 37/65] fix: load masked arrays of structured dtypes

---
 hickle/loaders/load_numpy.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hickle/loaders/load_numpy.py b/hickle/loaders/load_numpy.py
index 9e9e6be..5de47a2 100644
--- a/hickle/loaders/load_numpy.py
+++ b/hickle/loaders/load_numpy.py
@@ -334,7 +334,10 @@ class NDMaskedArrayContainer(PyContainer):
         self._content[name] = item
 
     def convert(self):
-        dtype = self._h5_attrs['np_dtype']
+        dtype = np.dtype(self._h5_attrs['np_dtype'])
+        if dtype.kind == 'V':
+            # np_dtype does not name the fields of structured dtypes
+            dtype = None
         data = np.ma.array(self._content['data'], mask=self._content['mask'], dtype=dtype)
         return data if data.__class__ is self.object_type or isinstance(self.object_type,types.LambdaType) else self.object_type(data)
 
-- 
2.43.0


From 159d5453e58d167cd84cfd9217630d057cf1c56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:17 +0000
Subject: [PATCH 38/65] fix: keep complex and integer values of astropy
 quantities

---
 hickle/loaders/load_astropy.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hickle/loaders/load_astropy.py b/hickle/loaders/load_astropy.py
index 5d26dc0..e4294b0 100644
--- a/hickle/loaders/load_astropy.py
+++ b/hickle/loaders/load_astropy.py
@@ -36,7 +36,9 @@ def create_astropy_quantity(py_obj, h_group, name, **kwargs):
     tuple containing h5py.Dataset representing astropy quantity and empty subitems
     """
 
-    d = h_group.create_dataset(name, data=py_obj.value, dtype='float64',
+    if py_obj.dtype.kind not in 'iufc':
+        raise NotHicklable("values can not be mapped to numeric dataset")
+    d = h_group.create_dataset(name, data=py_obj.value, dtype=py_obj.dtype,
                                **no_compression(kwargs))
     d.attrs['unit'] = py_obj.unit.to_string().encode('ascii')
     return d,()
@@ -242,7 +244,7 @@ def load_astropy_quantity_dataset(h_node,base_type,py_obj_type):
     resulting py_obj_type
     """
     unit = h_node.attrs["unit"]
-    return py_obj_type(h_node[()], unit)
+    return py_obj_type(h_node[()], unit, dtype=h_node.dtype)
 
 
 def load_astropy_time_dataset(h_node,base_type,py_obj_type):
-- 
2.43.0


From b7543bbaef18db0def2a244d2ba0d8d2d11e9f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:17 +0000
Subject: [PATCH 39/65] fix: keep wrap angle of astropy longitudes

---
 hickle/loaders/load_astropy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hickle/loaders/load_astropy.py b/hickle/loaders/load_astropy.py
index e4294b0..0917352 100644
--- a/hickle/loaders/load_astropy.py
+++ b/hickle/loaders/load_astropy.py
@@ -67,6 +67,9 @@ def create_astropy_angle(py_obj, h_group, name, **kwargs):
     tuple containing h5py.Dataset representing astropy angle and empty subitems
     """
 
+    wrap_angle = getattr(py_obj,'wrap_angle',None)
+    if wrap_angle is not None and wrap_angle.degree != 360:
+        raise NotHicklable("wrap angle of longitude not described by value and unit")
     d = h_group.create_dataset(name, data=py_obj.value, dtype='float64',
                                **no_compression(kwargs))
     d.attrs['unit'] = py_obj.unit.to_string().encode('ascii')
-- 
2.43.0


From 87bf55d35788413300b6171cd79d3356d1287fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:31 +0000
Subject: [PATCH 40/65] fix: keep location of astropy times, dump datetime and
 ymdhms formats

---
 hickle/loaders/load_astropy.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hickle/loaders/load_astropy.py b/hickle/loaders/load_astropy.py
index 0917352..3d761bf 100644
--- a/hickle/loaders/load_astropy.py
+++ b/hickle/loaders/load_astropy.py
@@ -140,7 +140,11 @@ def create_astropy_time(py_obj, h_group, name, **kwargs):
 
     # Need to catch string times, e.g. 1999-01-01T00:00:00.123
     # Must be encoded into bytes. 
+    if py_obj.location is not None:
+        raise NotHicklable("location not described by value, format and scale")
     value = np.asarray(py_obj.value)
+    if value.dtype.kind not in 'iufUS':
+        raise NotHicklable("values can not be mapped to dataset")
     if value.ndim < 1:
         kwargs = no_compression(kwargs)
     if 'str' in value.dtype.name:
-- 
2.43.0


From 0d356ed74632a9c06e406def49fe51cafff87a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:15 +0000
Subject: [PATCH 41/65] fix: keep mask of astropy times

---
 hickle/loaders/load_astropy.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/hickle/loaders/load_astropy.py b/hickle/loaders/load_astropy.py
index 3d761bf..ee8f9ad 100644
--- a/hickle/loaders/load_astropy.py
+++ b/hickle/loaders/load_astropy.py
@@ -161,6 +161,8 @@ def create_astropy_time(py_obj, h_group, name, **kwargs):
 
     d.attrs['format'] = str(py_obj.format).encode('ascii')
     d.attrs['scale'] = str(py_obj.scale).encode('ascii')
+    if py_obj.masked:
+        d.attrs['mask'] = np.asarray(py_obj.mask)
 
     return d,()
 
@@ -283,9 +285,14 @@ def load_astropy_time_dataset(h_node,base_type,py_obj_type):
             ustr = '<U' if sys.byteorder == 'little' else '>U'
             bytes_dtype_str = dtype.str.replace('|S', ustr)
             time_data = np.array(h_node[()]).astype(bytes_dtype_str)
-            return py_obj_type(time_data, format=fmt, scale=scale)
-        return py_obj_type(np.array(h_node[()],dtype=dtype), format=fmt, scale=scale)
-    return py_obj_type(np.array(h_node[()],dtype = h_node.dtype), format=fmt, scale=scale)
+        else:
+            time_data = np.array(h_node[()],dtype=dtype)
+    else:
+        time_data = np.array(h_node[()],dtype = h_node.dtype)
+    mask = h_node.attrs.get('mask',None)
+    if mask is not None:
+        time_data = np.ma.array(time_data,mask=mask)
+    return py_obj_type(time_data, format=fmt, scale=scale)
 
 
 def load_astropy_angle_dataset(h_node,base_type,py_obj_type):
-- 
2.43.0


From fbffa6a98de4a50e9540389ac69dbc15be77872e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:15 +0000
Subject: [PATCH 42/65] fix: keep units, masks, text columns and structured
 meta data of astropy tables

---
 hickle/loaders/load_astropy.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/hickle/loaders/load_astropy.py b/hickle/loaders/load_astropy.py
index ee8f9ad..696f4f5 100644
--- a/hickle/loaders/load_astropy.py
+++ b/hickle/loaders/load_astropy.py
@@ -2,7 +2,7 @@
 # Package imports
 from astropy.coordinates import Angle, SkyCoord, UnitSphericalRepresentation
 from astropy.constants import Constant
-from astropy.table import Table
+from astropy.table import Column, Table
 from astropy.time import Time
 from astropy.units import Quantity
 import numpy as np
@@ -12,6 +12,10 @@ import sys
 from hickle.helpers import NotHicklable,no_compression,load_str_list_attr_ascii,load_str_attr_ascii
 
 
+# attributes of table datasets which do not represent meta data of table
+table_attrs = {'type','base_type','colnames','item_index','key_idx','key_base_type'}
+
+
 # %% FUNCTION DEFINITIONS
 def create_astropy_quantity(py_obj, h_group, name, **kwargs):
     """
@@ -223,6 +227,18 @@ def create_astropy_table(py_obj, h_group, name, **kwargs):
     -------
     tuple containing h5py.Dataset representing astropy table and empty subitems list
     """
+    if (
+        any(
+            col.__class__ is not Column or col.unit is not None or col.description or col.meta or
+            col.dtype.kind not in 'biufcS'
+            for col in py_obj.itercols()
+        ) or
+        any(
+            not isinstance(key,str) or key in table_attrs or not isinstance(value,(str,bool,int,float,complex,np.number))
+            for key, value in py_obj.meta.items()
+        )
+    ):
+        raise NotHicklable("columns or meta data can not be mapped to dataset and its attributes")
     data = py_obj.as_array()
     d = h_group.create_dataset(name, data=data, dtype=data.dtype, **kwargs)
 
@@ -406,7 +422,7 @@ def load_astropy_table(h_node,base_type,py_obj_type):
         meta = {
             metakey:metavalue 
             for metakey,metavalue in h_node.attrs.items()
-            if metakey not in {'type','base_type','colnames','item_index','key_idx','key_base_type'}
+            if metakey not in table_attrs
         }
     )
     return t
-- 
2.43.0


From e74abcc726d8d1359fc8b4ddd3cf2831ab4c9bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:23 +0000
Subject: [PATCH 43/65] fix: load matrices of str and object dtype

---
 hickle/loaders/load_numpy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hickle/loaders/load_numpy.py b/hickle/loaders/load_numpy.py
index 5de47a2..a563b23 100644
--- a/hickle/loaders/load_numpy.py
+++ b/hickle/loaders/load_numpy.py
@@ -367,7 +367,7 @@ class_register = [
     # to keep things simple numpy.matrix will be handled by same functions as 
     # numpy.ndarray. As long as just required cause numpy.ma.core.MaskedArray 
     # uses it for data
-    [np.matrix, b"np_matrix", create_np_array_dataset, load_ndarray_dataset]
+    [np.matrix, b"np_matrix", create_np_array_dataset, load_ndarray_dataset,NDArrayLikeContainer]
 ]
 
 exclude_register = [
-- 
2.43.0


From 1db5e1a391160af9ddbd183d4a549fc3bac87ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:23 +0000
Subject: [PATCH 44/65] fix: dump datetime64 and timedelta64 arrays and
 structured arrays with str or object fields

---
 hickle/loaders/load_numpy.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/hickle/loaders/load_numpy.py b/hickle/loaders/load_numpy.py
index a563b23..2068f98 100644
--- a/hickle/loaders/load_numpy.py
+++ b/hickle/loaders/load_numpy.py
@@ -18,6 +18,14 @@ from hickle.helpers import PyContainer,NotHicklable,no_compression
 
 # %% FUNCTION DEFINITIONS
 
+def has_hdf5_type(dtype):
+    """
+    checks whether dtype can be represented by corresponding HDF5 type
+    """
+    if dtype.names is not None:
+        return all(has_hdf5_type(dtype[name]) for name in dtype.names)
+    return dtype.base.kind not in 'mMUO' if dtype.base.names is None else has_hdf5_type(dtype.base)
+
 def create_np_scalar_dataset(py_obj, h_group, name, **kwargs):
     """ dumps an numpy.dtype object to h5py file
 
@@ -40,6 +48,8 @@ def create_np_scalar_dataset(py_obj, h_group, name, **kwargs):
     tuple containing h5py.Dataset and empty list of subitems
     """
 
+    if py_obj.dtype.kind in 'mMV' and not has_hdf5_type(py_obj.dtype):
+        raise NotHicklable("no HDF5 type for dtype '{}'".format(py_obj.dtype))
     d = h_group.create_dataset(name, data=py_obj, **no_compression(kwargs))
 
     d.attrs["np_dtype"] = py_obj.dtype.str.encode("ascii")
@@ -98,6 +108,8 @@ def create_np_array_dataset(py_obj, h_group, name, **kwargs):
 
     # Obtain dtype of py_obj
     dtype = py_obj.dtype
+    if dtype.kind in 'mMV' and not has_hdf5_type(dtype):
+        raise NotHicklable("no HDF5 type for dtype '{}'".format(dtype))
 
     # Check if py_obj contains strings
     if py_obj.size < 1 and ( "str" in dtype.name or dtype.name == 'object' ):
-- 
2.43.0


From 00ba95e0d9a6b24f509aad42c30e1cab933a0fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:23 +0000
Subject: [PATCH 45/65] fix: restore numpy.ma.masked

---
 hickle/loaders/load_numpy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hickle/loaders/load_numpy.py b/hickle/loaders/load_numpy.py
index 2068f98..d3f7aef 100644
--- a/hickle/loaders/load_numpy.py
+++ b/hickle/loaders/load_numpy.py
@@ -175,6 +175,8 @@ def create_np_masked_array_dataset(py_obj, h_group, name, **kwargs):
 
     # Obtain dtype of py_obj
 
+    if py_obj is np.ma.masked:
+        raise NotHicklable("singleton not described by data and mask")
     h_node = h_group.create_group(name)
     h_node.attrs['np_dtype'] = py_obj.dtype.str.encode('ascii')
     return h_node,(("data",py_obj.data,{},kwargs),('mask',py_obj.mask,{},kwargs))
-- 
2.43.0


From 58efa2ec6d6c6a9f1fd8b0d39555b4409408bad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:23 +0000
Subject: [PATCH 46/65] fix: dump integers of more than 4300 digits

---
 hickle/loaders/load_builtins.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hickle/loaders/load_builtins.py b/hickle/loaders/load_builtins.py
index 193511b..ab4b26b 100644
--- a/hickle/loaders/load_builtins.py
+++ b/hickle/loaders/load_builtins.py
@@ -100,7 +100,11 @@ def create_scalar_dataset(py_obj, h_group, name, **kwargs):
     # the sign is not counted by bit_length thus any integer which has more than
     # 63 bits has to be converted into string
     if isinstance(py_obj, int) and (py_obj.bit_length() > 63):# and ( py_obj < -2**63 or py_obj >= 2**63 ) :
-        return h_group.create_dataset(name,data = bytearray(str(py_obj), 'ascii'),**kwargs),()
+        try:
+            digits = str(py_obj)
+        except ValueError:
+            raise NotHicklable("number of digits exceeds limit for conversion into string")
+        return h_group.create_dataset(name,data = bytearray(digits, 'ascii'),**kwargs),()
 
     return h_group.create_dataset(name, data=py_obj, **no_compression(kwargs)),()
 
-- 
2.43.0


From ade155628d3a1f93eb19afde962984a5a88bfaa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:24 +0000
Subject: [PATCH 47/65] fix: dump strings containing surrogates

---
 hickle/loaders/load_builtins.py | 7 +++++--
 hickle/loaders/load_numpy.py    | 5 ++++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/hickle/loaders/load_builtins.py b/hickle/loaders/load_builtins.py
index ab4b26b..d20d88a 100644
--- a/hickle/loaders/load_builtins.py
+++ b/hickle/loaders/load_builtins.py
@@ -202,7 +202,10 @@ def create_listlike_dataset(py_obj, h_group, name,list_len = -1,item_dtype = Non
 
         # strings and bytes are stored as array of bytes with strings encoded
         # using utf8 encoding
-        string_data = bytearray(py_obj,"utf8") if isinstance(py_obj,str) else memoryview(py_obj)
+        try:
+            string_data = bytearray(py_obj,"utf8") if isinstance(py_obj,str) else memoryview(py_obj)
+        except UnicodeEncodeError:
+            raise NotHicklable("string contains surrogates")
         string_data = np.asarray(string_data)
         string_data.dtype = 'S1'
         dataset = h_group.create_dataset( name, data = string_data,shape = (1,string_data.size), **kwargs)
@@ -279,7 +282,7 @@ def create_setlike_dataset(py_obj,h_group,name,**kwargs):
     
 
 _byte_slashes = re.compile(b'[\\/\\0]')
-_str_slashes = re.compile(r'[\\/\0]')
+_str_slashes = re.compile(r'[\\/\0\ud800-\udfff]')
 
 def create_dictlike_dataset(py_obj, h_group, name, **kwargs):
 
diff --git a/hickle/loaders/load_numpy.py b/hickle/loaders/load_numpy.py
index d3f7aef..3e02362 100644
--- a/hickle/loaders/load_numpy.py
+++ b/hickle/loaders/load_numpy.py
@@ -119,7 +119,10 @@ def create_np_array_dataset(py_obj, h_group, name, **kwargs):
     elif "str" in dtype.name:
         if py_obj.ndim < 1:
             # convert string to utf8 encoded bytearray
-            string_data = bytearray(py_obj.item(),"utf8") if 'bytes' not in dtype.name else memoryview(py_obj.item())
+            try:
+                string_data = bytearray(py_obj.item(),"utf8") if 'bytes' not in dtype.name else memoryview(py_obj.item())
+            except UnicodeEncodeError:
+                raise NotHicklable("string contains surrogates")
             string_data = np.asarray(string_data)
             string_data.dtype = 'S1'
             h_node = h_group.create_dataset(name,data = string_data,shape=(1,string_data.size),**kwargs)
-- 
2.43.0


From fc760222a142d6a15199415e8918e6f246149a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:20 +0000
Subject: [PATCH 48/65] fix: keep floating point type of astropy angles and
 coordinates

---
 hickle/loaders/load_astropy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hickle/loaders/load_astropy.py b/hickle/loaders/load_astropy.py
index 696f4f5..d8b9835 100644
--- a/hickle/loaders/load_astropy.py
+++ b/hickle/loaders/load_astropy.py
@@ -74,7 +74,7 @@ def create_astropy_angle(py_obj, h_group, name, **kwargs):
     wrap_angle = getattr(py_obj,'wrap_angle',None)
     if wrap_angle is not None and wrap_angle.degree != 360:
         raise NotHicklable("wrap angle of longitude not described by value and unit")
-    d = h_group.create_dataset(name, data=py_obj.value, dtype='float64',
+    d = h_group.create_dataset(name, data=py_obj.value, dtype=py_obj.dtype,
                                **no_compression(kwargs))
     d.attrs['unit'] = py_obj.unit.to_string().encode('ascii')
     return d,()
@@ -112,7 +112,7 @@ def create_astropy_skycoord(py_obj, h_group, name, **kwargs):
     lat = py_obj.data.lat.value
     dd = np.stack((lon, lat), axis=-1)
 
-    d = h_group.create_dataset(name, data=dd, dtype='float64', **kwargs)
+    d = h_group.create_dataset(name, data=dd, dtype=dd.dtype, **kwargs)
     lon_unit = py_obj.data.lon.unit.to_string().encode('ascii')
     lat_unit = py_obj.data.lat.unit.to_string().encode('ascii')
     d.attrs['lon_unit'] = lon_unit
-- 
2.43.0


From 6f17cd9b93c0ded20fcde8ce89393509f67c01ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:41 +0000
Subject: [PATCH 49/65] fix: keep attributes and wrap angle of astropy
 coordinates

---
 hickle/loaders/load_astropy.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hickle/loaders/load_astropy.py b/hickle/loaders/load_astropy.py
index d8b9835..77f5df6 100644
--- a/hickle/loaders/load_astropy.py
+++ b/hickle/loaders/load_astropy.py
@@ -1,6 +1,6 @@
 # %% IMPORTS
 # Package imports
-from astropy.coordinates import Angle, SkyCoord, UnitSphericalRepresentation
+from astropy.coordinates import Angle, SkyCoord, UnitSphericalRepresentation, frame_transform_graph
 from astropy.constants import Constant
 from astropy.table import Column, Table
 from astropy.time import Time
@@ -105,7 +105,9 @@ def create_astropy_skycoord(py_obj, h_group, name, **kwargs):
 
     if (
         py_obj.frame.name != 'icrs' or
-        not isinstance(py_obj.data,UnitSphericalRepresentation) or py_obj.data.differentials
+        not isinstance(py_obj.data,UnitSphericalRepresentation) or py_obj.data.differentials or
+        py_obj.data.lon.wrap_angle.degree != 360 or
+        any(getattr(py_obj,attr,None) is not None for attr in frame_transform_graph.frame_attributes)
     ):
         raise NotHicklable("only direction in ICRS frame can be mapped to dataset")
     lon = py_obj.data.lon.value
-- 
2.43.0


From 04fc4afbc4330556cd888fa27f2134dbc52a4603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:58 +0000
Subject: [PATCH 50/65] fix: keep precision, subformats and exact value of
 astropy times

---
 hickle/loaders/load_astropy.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/hickle/loaders/load_astropy.py b/hickle/loaders/load_astropy.py
index 77f5df6..99cf42c 100644
--- a/hickle/loaders/load_astropy.py
+++ b/hickle/loaders/load_astropy.py
@@ -148,9 +148,15 @@ def create_astropy_time(py_obj, h_group, name, **kwargs):
     # Must be encoded into bytes. 
     if py_obj.location is not None:
         raise NotHicklable("location not described by value, format and scale")
+    if py_obj.precision != 3 or py_obj.in_subfmt != '*' or py_obj.out_subfmt != '*':
+        raise NotHicklable("precision and subformats not described by value, format and scale")
     value = np.asarray(py_obj.value)
     if value.dtype.kind not in 'iufUS':
         raise NotHicklable("values can not be mapped to dataset")
+    exact = not np.any(py_obj.__class__(value,format=py_obj.format,scale=py_obj.scale) != py_obj)
+    if not exact and value.size > 2048:
+        # exceeds size limit of HDF5 attributes
+        raise NotHicklable("time not exactly described by value, format and scale")
     if value.ndim < 1:
         kwargs = no_compression(kwargs)
     if 'str' in value.dtype.name:
@@ -169,6 +175,9 @@ def create_astropy_time(py_obj, h_group, name, **kwargs):
     d.attrs['scale'] = str(py_obj.scale).encode('ascii')
     if py_obj.masked:
         d.attrs['mask'] = np.asarray(py_obj.mask)
+    if not exact:
+        d.attrs['jd1'] = np.asarray(py_obj.jd1)
+        d.attrs['jd2'] = np.asarray(py_obj.jd2)
 
     return d,()
 
@@ -307,10 +316,18 @@ def load_astropy_time_dataset(h_node,base_type,py_obj_type):
             time_data = np.array(h_node[()],dtype=dtype)
     else:
         time_data = np.array(h_node[()],dtype = h_node.dtype)
+    jd2 = h_node.attrs.get('jd2',None)
+    if jd2 is not None:
+        # time not exactly described by its value
+        time_data = h_node.attrs['jd1']
     mask = h_node.attrs.get('mask',None)
     if mask is not None:
         time_data = np.ma.array(time_data,mask=mask)
-    return py_obj_type(time_data, format=fmt, scale=scale)
+    if jd2 is None:
+        return py_obj_type(time_data, format=fmt, scale=scale)
+    time = py_obj_type(time_data, jd2, format='jd', scale=scale)
+    time.format = fmt
+    return time
 
 
 def load_astropy_angle_dataset(h_node,base_type,py_obj_type):
-- 
2.43.0


From 6eee6d4ae073bebd88d39b9b5181bbc5fb37cff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:26 +0000
Subject: [PATCH 51/65] fix: keep garbage collector enabled when several
 threads close files

---
 hickle/hickle.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hickle/hickle.py b/hickle/hickle.py
index 9aafd11..d1b62c6 100644
--- a/hickle/hickle.py
+++ b/hickle/hickle.py
@@ -245,7 +245,9 @@ def dump(py_obj, file_obj, mode='w', path='/',*,filename = None,options = {},**k
             # typecode ValueError caused by h5py objects collected to earlay most 
             # persistently observed with h5py 2.10 in python 3.7 on 32 bit windows
             gc_enabled = gc.isenabled()
-            gc.disable()
+            if gc_enabled:
+                # leave it alone if disabled by another thread just closing its file
+                gc.disable()
             try:
                 if close_flag:
                     h5f.close()
@@ -403,7 +405,9 @@ def load(file_obj, path='/', safe=True, filename = None):
             # typecode ValueError caused by h5py objects collected to earlay most 
             # persistently observed with h5py 2.10 in python 3.7 on 32 bit windows
             gc_enabled = gc.isenabled()
-            gc.disable()
+            if gc_enabled:
+                # leave it alone if disabled by another thread just closing its file
+                gc.disable()
             try:
                 if close_flag:
                     h5f.close()
-- 
2.43.0


From 726a998d68eeb09244f9591d95a4790fd7080af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:22 +0000
Subject: [PATCH 52/65] fix: use loader which another thread loaded in the
 meantime

---
 hickle/lookup.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hickle/lookup.py b/hickle/lookup.py
index 220c520..0529889 100644
--- a/hickle/lookup.py
+++ b/hickle/lookup.py
@@ -1264,6 +1264,10 @@ class LoaderManager(BaseManager):
     
                 # Check if this module is already loaded
                 if loader_name in loaded_loaders:
+                    # another thread may have loaded it since types_dict was checked
+                    loader_item = types_dict.get(mro_item,None)
+                    if loader_item is not None:
+                        return py_obj_type,loader_item
                     # loader is loaded but does not define loader for mro_item
                     # check next base class
                     continue
-- 
2.43.0


From 5ec8dd45cfe07b2d97e0ab51c6899214ae7847fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:02 +0000
Subject: [PATCH 53/65] fix: keep astropy units which their string does not
 describe

---
 hickle/loaders/load_astropy.py | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/hickle/loaders/load_astropy.py b/hickle/loaders/load_astropy.py
index 99cf42c..71ab505 100644
--- a/hickle/loaders/load_astropy.py
+++ b/hickle/loaders/load_astropy.py
@@ -4,7 +4,7 @@ from astropy.coordinates import Angle, SkyCoord, UnitSphericalRepresentation, fr
 from astropy.constants import Constant
 from astropy.table import Column, Table
 from astropy.time import Time
-from astropy.units import Quantity
+from astropy.units import Quantity, Unit
 import numpy as np
 import sys
 
@@ -17,6 +17,25 @@ table_attrs = {'type','base_type','colnames','item_index','key_idx','key_base_ty
 
 
 # %% FUNCTION DEFINITIONS
+def ensure_unit_described(unit):
+    """
+    checks that unit can be restored from its string
+
+    Raises
+    ------
+    NotHicklable:
+        if string is not known to astropy, belongs to a different unit or does
+        not contain all digits of the scale of unit
+    """
+    unit_str = unit.to_string()
+    try:
+        described = unit_str.isascii() and Unit(unit_str) == unit
+    except (ValueError,TypeError):
+        described = False
+    if not described:
+        raise NotHicklable("unit not described by its string")
+
+
 def create_astropy_quantity(py_obj, h_group, name, **kwargs):
     """
     dumps an astropy quantity
@@ -42,6 +61,7 @@ def create_astropy_quantity(py_obj, h_group, name, **kwargs):
 
     if py_obj.dtype.kind not in 'iufc':
         raise NotHicklable("values can not be mapped to numeric dataset")
+    ensure_unit_described(py_obj.unit)
     d = h_group.create_dataset(name, data=py_obj.value, dtype=py_obj.dtype,
                                **no_compression(kwargs))
     d.attrs['unit'] = py_obj.unit.to_string().encode('ascii')
@@ -74,6 +94,7 @@ def create_astropy_angle(py_obj, h_group, name, **kwargs):
     wrap_angle = getattr(py_obj,'wrap_angle',None)
     if wrap_angle is not None and wrap_angle.degree != 360:
         raise NotHicklable("wrap angle of longitude not described by value and unit")
+    ensure_unit_described(py_obj.unit)
     d = h_group.create_dataset(name, data=py_obj.value, dtype=py_obj.dtype,
                                **no_compression(kwargs))
     d.attrs['unit'] = py_obj.unit.to_string().encode('ascii')
@@ -110,6 +131,8 @@ def create_astropy_skycoord(py_obj, h_group, name, **kwargs):
         any(getattr(py_obj,attr,None) is not None for attr in frame_transform_graph.frame_attributes)
     ):
         raise NotHicklable("only direction in ICRS frame can be mapped to dataset")
+    ensure_unit_described(py_obj.data.lon.unit)
+    ensure_unit_described(py_obj.data.lat.unit)
     lon = py_obj.data.lon.value
     lat = py_obj.data.lat.value
     dd = np.stack((lon, lat), axis=-1)
@@ -204,6 +227,7 @@ def create_astropy_constant(py_obj, h_group, name, **kwargs):
     tuple containing h5py.Dataset representing astropy constant and empty subitems list
     """
 
+    ensure_unit_described(py_obj.unit)
     d = h_group.create_dataset(name, data=py_obj.value, dtype='float64',
                                **no_compression(kwargs))
     d.attrs["unit"] = py_obj.unit.to_string().encode('ascii')
-- 
2.43.0


From 1d15f2702bbedd56ea190e7434066ac86f9b40dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:02 +0000
Subject: [PATCH 54/65] fix: dump astropy constants described by other than
 ascii characters

---
 hickle/loaders/load_astropy.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hickle/loaders/load_astropy.py b/hickle/loaders/load_astropy.py
index 71ab505..9ba294a 100644
--- a/hickle/loaders/load_astropy.py
+++ b/hickle/loaders/load_astropy.py
@@ -228,6 +228,11 @@ def create_astropy_constant(py_obj, h_group, name, **kwargs):
     """
 
     ensure_unit_described(py_obj.unit)
+    if any(
+        not text.isascii() or '\0' in text
+        for text in (py_obj.abbrev,py_obj.name,py_obj.reference)
+    ):
+        raise NotHicklable("texts can not be mapped to ascii attributes")
     d = h_group.create_dataset(name, data=py_obj.value, dtype='float64',
                                **no_compression(kwargs))
     d.attrs["unit"] = py_obj.unit.to_string().encode('ascii')
-- 
2.43.0


From f88515b8a7b8fb1ad2d5ee2c6de4aedddc7ec551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:45 +0000
Subject: [PATCH 55/65] fix: keep names of columns and meta data of astropy
 tables attributes can not hold

---
 hickle/loaders/load_astropy.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/hickle/loaders/load_astropy.py b/hickle/loaders/load_astropy.py
index 9ba294a..517a338 100644
--- a/hickle/loaders/load_astropy.py
+++ b/hickle/loaders/load_astropy.py
@@ -246,6 +246,17 @@ def create_astropy_constant(py_obj, h_group, name, **kwargs):
     return d,()
 
 
+def fits_attribute(value):
+    """
+    checks whether value can be stored as attribute without being changed
+    """
+    if isinstance(value,str):
+        return '\0' not in value and all(not '\ud800' <= char <= '\udfff' for char in value)
+    if isinstance(value,int):
+        return -2**63 <= value < 2**64
+    return isinstance(value,(float,complex,np.number))
+
+
 def create_astropy_table(py_obj, h_group, name, **kwargs):
     """ Dump an astropy Table
 
@@ -270,11 +281,11 @@ def create_astropy_table(py_obj, h_group, name, **kwargs):
     if (
         any(
             col.__class__ is not Column or col.unit is not None or col.description or col.meta or
-            col.dtype.kind not in 'biufcS'
+            col.dtype.kind not in 'biufcS' or not col.name or not col.name.isascii() or '\0' in col.name
             for col in py_obj.itercols()
         ) or
         any(
-            not isinstance(key,str) or key in table_attrs or not isinstance(value,(str,bool,int,float,complex,np.number))
+            not isinstance(key,str) or not key or key in table_attrs or not fits_attribute(key) or not fits_attribute(value)
             for key, value in py_obj.meta.items()
         )
     ):
-- 
2.43.0


From 51f6dc363197a64ee21f93fe3f396adf1e14334b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:32 +0000
Subject: [PATCH 56/65] fix: keep int keys of dicts exceeding the limit for
 conversion into string

---
 hickle/loaders/load_builtins.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/hickle/loaders/load_builtins.py b/hickle/loaders/load_builtins.py
index d20d88a..dbd8934 100644
--- a/hickle/loaders/load_builtins.py
+++ b/hickle/loaders/load_builtins.py
@@ -336,10 +336,15 @@ def create_dictlike_dataset(py_obj, h_group, name, **kwargs):
                         yield r'b"{}"'.format(h_key),py_subobj,{'key_idx':idx,'key_base_type':key_base_type},kwargs
                         continue
             elif key_base_type in dict_key_types_dict:
-                h_key = "{!r}".format(key)
-                if not _str_slashes.search(h_key):
-                    yield h_key,py_subobj,{'key_idx':idx,'key_base_type':key_base_type},kwargs
-                    continue
+                try:
+                    h_key = "{!r}".format(key)
+                except ValueError:
+                    # number of digits exceeds limit for conversion into string
+                    pass
+                else:
+                    if not _str_slashes.search(h_key):
+                        yield h_key,py_subobj,{'key_idx':idx,'key_base_type':key_base_type},kwargs
+                        continue
             sub_node_name = key_value_pair_name.format(idx)
             yield sub_node_name,(key,py_subobj),{'key_idx':idx,'key_base_type':b'key_value'},kwargs
     return h_dictgroup,package_dict_items()
-- 
2.43.0


From 5cf3a706700c9716ed74315651105f6ec6e074cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:26 +0000
Subject: [PATCH 57/65] fix: keep mask of astropy quantities, angles and
 coordinates

---
 hickle/loaders/load_astropy.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/hickle/loaders/load_astropy.py b/hickle/loaders/load_astropy.py
index 517a338..fe45289 100644
--- a/hickle/loaders/load_astropy.py
+++ b/hickle/loaders/load_astropy.py
@@ -36,6 +36,19 @@ def ensure_unit_described(unit):
         raise NotHicklable("unit not described by its string")
 
 
+def ensure_not_masked(py_obj):
+    """
+    checks that values of py_obj are not masked
+
+    Raises
+    ------
+    NotHicklable:
+        if py_obj is an instance of one of astropy's Masked classes
+    """
+    if getattr(py_obj,'mask',None) is not None:
+        raise NotHicklable("mask not described by value and unit")
+
+
 def create_astropy_quantity(py_obj, h_group, name, **kwargs):
     """
     dumps an astropy quantity
@@ -61,6 +74,7 @@ def create_astropy_quantity(py_obj, h_group, name, **kwargs):
 
     if py_obj.dtype.kind not in 'iufc':
         raise NotHicklable("values can not be mapped to numeric dataset")
+    ensure_not_masked(py_obj)
     ensure_unit_described(py_obj.unit)
     d = h_group.create_dataset(name, data=py_obj.value, dtype=py_obj.dtype,
                                **no_compression(kwargs))
@@ -91,6 +105,7 @@ def create_astropy_angle(py_obj, h_group, name, **kwargs):
     tuple containing h5py.Dataset representing astropy angle and empty subitems
     """
 
+    ensure_not_masked(py_obj)
     wrap_angle = getattr(py_obj,'wrap_angle',None)
     if wrap_angle is not None and wrap_angle.degree != 360:
         raise NotHicklable("wrap angle of longitude not described by value and unit")
@@ -131,6 +146,8 @@ def create_astropy_skycoord(py_obj, h_group, name, **kwargs):
         any(getattr(py_obj,attr,None) is not None for attr in frame_transform_graph.frame_attributes)
     ):
         raise NotHicklable("only direction in ICRS frame can be mapped to dataset")
+    ensure_not_masked(py_obj.data.lon)
+    ensure_not_masked(py_obj.data.lat)
     ensure_unit_described(py_obj.data.lon.unit)
     ensure_unit_described(py_obj.data.lat.unit)
     lon = py_obj.data.lon.value
-- 
2.43.0


From 2b0dfe3732402c0eb08b08e682e2352154916656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:31 +0000
Subject: [PATCH 58/65] fix: pass python scalars to constructors of subclasses
 of int, float and complex

---
 hickle/loaders/load_builtins.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hickle/loaders/load_builtins.py b/hickle/loaders/load_builtins.py
index dbd8934..a5aeb81 100644
--- a/hickle/loaders/load_builtins.py
+++ b/hickle/loaders/load_builtins.py
@@ -370,7 +370,10 @@ def load_scalar_dataset(h_node, base_type, py_obj_type):
     -------
     resulting python object of type py_obj_type
     """
-    data = h_node[()] if h_node.size < 2 else memoryview(h_node[()])
+    # constructors of subclasses may not accept anything else than the python scalar
+    data = h_node[()] if h_node.size < 2 else int(memoryview(h_node[()]))
+    if isinstance(data,np.generic):
+        data = data.item()
 
 
     return py_obj_type(data) if data.__class__ is not py_obj_type else data
-- 
2.43.0


From f7947188670388232d4bfd0e3c1b8ff5b500d5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:54 +0000
Subject: [PATCH 59/65] fix: pass python sequences to constructors of
 subclasses of list, set and bytes

---
 hickle/loaders/load_builtins.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hickle/loaders/load_builtins.py b/hickle/loaders/load_builtins.py
index a5aeb81..258ff75 100644
--- a/hickle/loaders/load_builtins.py
+++ b/hickle/loaders/load_builtins.py
@@ -47,6 +47,9 @@ def restore_listlike(content,py_obj_type):
         # constructors of tuple subclasses such as the ones created by
         # collections.namedtuple may expect something else than the items
         return tuple.__new__(py_obj_type,content)
+    if isinstance(content,np.ndarray) and isinstance(py_obj_type,type):
+        # constructors of subclasses may test whether there are any items
+        content = bytes(content) if issubclass(py_obj_type,bytes) else list(content)
     return py_obj_type(content)
 
 def load_bool_key(name):
-- 
2.43.0


From 4fb79f7918768d158f9e38f48f1a0f751d053eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:57 +0000
Subject: [PATCH 60/65] fix: restore dictionary of keys sparse matrices

---
 hickle/loaders/load_scipy.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/hickle/loaders/load_scipy.py b/hickle/loaders/load_scipy.py
index 607c324..8d3d7f2 100644
--- a/hickle/loaders/load_scipy.py
+++ b/hickle/loaders/load_scipy.py
@@ -7,7 +7,7 @@ import copy
 from scipy import sparse
 
 # hickle imports
-from hickle.helpers import PyContainer,H5NodeFilterProxy
+from hickle.helpers import PyContainer,H5NodeFilterProxy,NotHicklable
 from hickle.loaders.load_numpy import load_ndarray_dataset,create_np_array_dataset
 
 
@@ -47,6 +47,17 @@ def create_sparse_dataset(py_obj, h_group, name, **kwargs):
         ('shape',py_obj.shape,{},kwargs)
     )
 
+def create_dok_dataset(py_obj, h_group, name, **kwargs):
+    """
+    prevents that dictionary of keys matrices and arrays are dumped as the dict they are derived from
+
+    Raises
+    ------
+    NotHicklable:
+        in any case
+    """
+    raise NotHicklable("shape and dtype not described by items of dict")
+
 ndarray_type_string = pickle.dumps(np.ndarray)
 tuple_type_string = pickle.dumps(tuple)
 
@@ -117,8 +128,11 @@ class SparseMatrixContainer(PyContainer):
 class_register = [
     [scipy.sparse.csr_matrix, b'csr_matrix', create_sparse_dataset, None, SparseMatrixContainer],
     [scipy.sparse.csc_matrix, b'csc_matrix', create_sparse_dataset, None, SparseMatrixContainer],
-    [scipy.sparse.bsr_matrix, b'bsr_matrix', create_sparse_dataset, None, SparseMatrixContainer]
+    [scipy.sparse.bsr_matrix, b'bsr_matrix', create_sparse_dataset, None, SparseMatrixContainer],
+    [scipy.sparse.dok_matrix, b'dok_matrix', create_dok_dataset]
 ]
+if hasattr(scipy.sparse,'dok_array'):
+    class_register.append([scipy.sparse.dok_array, b'dok_array', create_dok_dataset])
 
 exclude_register = []
 
-- 
2.43.0


From 557fadd9ea51da18e0a904752994c2f2ab5ca518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:46 +0000
Subject: [PATCH 61/65] fix: restore struct sequences such as time.struct_time
 including their hidden fields

---
 hickle/loaders/load_builtins.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hickle/loaders/load_builtins.py b/hickle/loaders/load_builtins.py
index 258ff75..9d4c1dd 100644
--- a/hickle/loaders/load_builtins.py
+++ b/hickle/loaders/load_builtins.py
@@ -46,7 +46,8 @@ def restore_listlike(content,py_obj_type):
     if isinstance(py_obj_type,type) and issubclass(py_obj_type,tuple):
         # constructors of tuple subclasses such as the ones created by
         # collections.namedtuple may expect something else than the items
-        return tuple.__new__(py_obj_type,content)
+        if not hasattr(py_obj_type,'n_sequence_fields'):
+            return tuple.__new__(py_obj_type,content)
     if isinstance(content,np.ndarray) and isinstance(py_obj_type,type):
         # constructors of subclasses may test whether there are any items
         content = bytes(content) if issubclass(py_obj_type,bytes) else list(content)
@@ -215,6 +216,9 @@ def create_listlike_dataset(py_obj, h_group, name,list_len = -1,item_dtype = Non
         dataset.attrs["str_type"] = b'str' if isinstance(py_obj,str) else b'bytes'
         return dataset,()
         
+    if hasattr(py_obj.__class__,'n_sequence_fields'):
+        raise NotHicklable("fields of struct sequence not described by its items")
+
     if len(py_obj) < 1:
         # list-like object is empty just store empty dataset
         return h_group.create_dataset(name,shape=None,dtype='int',**no_compression(kwargs)),()
-- 
2.43.0


From bbc722f5456adbef629f37e0223621535e454a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:42 +0000
Subject: [PATCH 62/65] fix: pickle numpy arrays and dtypes h5py can not
 represent or restore

---
 hickle/loaders/load_numpy.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/hickle/loaders/load_numpy.py b/hickle/loaders/load_numpy.py
index 3e02362..9ffda72 100644
--- a/hickle/loaders/load_numpy.py
+++ b/hickle/loaders/load_numpy.py
@@ -22,9 +22,12 @@ def has_hdf5_type(dtype):
     """
     checks whether dtype can be represented by corresponding HDF5 type
     """
+    if dtype.kind == 'V' and dtype.itemsize < 1:
+        return False
     if dtype.names is not None:
-        return all(has_hdf5_type(dtype[name]) for name in dtype.names)
-    return dtype.base.kind not in 'mMUO' if dtype.base.names is None else has_hdf5_type(dtype.base)
+        # titles of fields are not known to HDF5
+        return all(len(dtype.fields[name]) < 3 and has_hdf5_type(dtype[name]) for name in dtype.names)
+    return dtype.base.kind not in 'mMUOT' if dtype.base.names is None else has_hdf5_type(dtype.base)
 
 def create_np_scalar_dataset(py_obj, h_group, name, **kwargs):
     """ dumps an numpy.dtype object to h5py file
@@ -77,8 +80,8 @@ def create_np_dtype(py_obj, h_group, name, **kwargs):
     -------
     tuple containing h5py.Dataset and empty list of subitems
     """
-    if py_obj.names is not None or py_obj.subdtype is not None:
-        raise NotHicklable("structured and subarray dtypes are not described by their string")
+    if py_obj.names is not None or py_obj.subdtype is not None or py_obj.kind == 'T':
+        raise NotHicklable("structured, subarray and variable width string dtypes are not described by their string")
     d = h_group.create_dataset(name, data=bytearray(py_obj.str,"ascii"), **kwargs)
     return d,()
 
@@ -108,7 +111,7 @@ def create_np_array_dataset(py_obj, h_group, name, **kwargs):
 
     # Obtain dtype of py_obj
     dtype = py_obj.dtype
-    if dtype.kind in 'mMV' and not has_hdf5_type(dtype):
+    if dtype.kind in 'mMVT' and not has_hdf5_type(dtype):
         raise NotHicklable("no HDF5 type for dtype '{}'".format(dtype))
 
     # Check if py_obj contains strings
@@ -180,6 +183,8 @@ def create_np_masked_array_dataset(py_obj, h_group, name, **kwargs):
 
     if py_obj is np.ma.masked:
         raise NotHicklable("singleton not described by data and mask")
+    if py_obj.dtype.kind == 'T':
+        raise NotHicklable("dtype not described by its string")
     h_node = h_group.create_group(name)
     h_node.attrs['np_dtype'] = py_obj.dtype.str.encode('ascii')
     return h_node,(("data",py_obj.data,{},kwargs),('mask',py_obj.mask,{},kwargs))
-- 
2.43.0


From b934b3440417879a4d71aaaa75cd817b35f40100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:03 +0000
Subject: [PATCH 63/65] fix: restore text and object arrays of ndarray
 subclasses with own constructor

---
 hickle/loaders/load_numpy.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hickle/loaders/load_numpy.py b/hickle/loaders/load_numpy.py
index 9ffda72..de9bfdf 100644
--- a/hickle/loaders/load_numpy.py
+++ b/hickle/loaders/load_numpy.py
@@ -341,7 +341,10 @@ class NDArrayLikeContainer(ListLikeContainer):
                 for position in index:
                     item = item[position]
                 data[index] = item
-        return data if data.__class__ is self.object_type or isinstance(self.object_type,types.LambdaType) else self.object_type(data)
+        if data.__class__ is self.object_type or isinstance(self.object_type,types.LambdaType):
+            return data
+        # constructors of ndarray subclasses such as numpy.char.chararray may expect something else than data
+        return data.view(self.object_type) if issubclass(self.object_type,np.ndarray) else self.object_type(data)
 
 class NDMaskedArrayContainer(PyContainer):
     """
-- 
2.43.0


From 826a8487155917c9f2b68412b6b21d77e96004c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:13 +0000
Subject: [PATCH 64/65] fix: keep class and value of numpy scalar keys of dicts
 and of the values they map to

---
 hickle/loaders/load_builtins.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/hickle/loaders/load_builtins.py b/hickle/loaders/load_builtins.py
index 9d4c1dd..3165e49 100644
--- a/hickle/loaders/load_builtins.py
+++ b/hickle/loaders/load_builtins.py
@@ -178,6 +178,17 @@ def check_iterable_item_type(first_item,iter_obj):
             return None
     return dtype
 
+class KeyValuePair(tuple):
+    """
+    item of a dict stored as tuple. In contrast to any other tuple it is never
+    stored as array of numbers, which would change the class of key and value
+    """
+
+    __slots__ = ()
+
+    __class__ = tuple
+
+
 def create_listlike_dataset(py_obj, h_group, name,list_len = -1,item_dtype = None, **kwargs):
     """ Dumper for list, set, tuple
 
@@ -225,7 +236,7 @@ def create_listlike_dataset(py_obj, h_group, name,list_len = -1,item_dtype = Non
 
     if list_len < 0:
         # neither length nor dtype of items is known compute them now
-        item_dtype = check_iterable_item_type(py_obj[0],py_obj[1:])
+        item_dtype = check_iterable_item_type(py_obj[0],py_obj[1:]) if type(py_obj) is not KeyValuePair else None
         list_len = len(py_obj)
 
     if item_dtype or list_len < 1:
@@ -342,7 +353,7 @@ def create_dictlike_dataset(py_obj, h_group, name, **kwargs):
                     else:
                         yield r'b"{}"'.format(h_key),py_subobj,{'key_idx':idx,'key_base_type':key_base_type},kwargs
                         continue
-            elif key_base_type in dict_key_types_dict:
+            elif key_base_type in dict_key_types_dict and key.__class__.__module__ == 'builtins':
                 try:
                     h_key = "{!r}".format(key)
                 except ValueError:
@@ -353,7 +364,7 @@ def create_dictlike_dataset(py_obj, h_group, name, **kwargs):
                         yield h_key,py_subobj,{'key_idx':idx,'key_base_type':key_base_type},kwargs
                         continue
             sub_node_name = key_value_pair_name.format(idx)
-            yield sub_node_name,(key,py_subobj),{'key_idx':idx,'key_base_type':b'key_value'},kwargs
+            yield sub_node_name,KeyValuePair((key,py_subobj)),{'key_idx':idx,'key_base_type':b'key_value'},kwargs
     return h_dictgroup,package_dict_items()
 
 
-- 
2.43.0


From 345d6f4d714d8073aaf2cfbcfafd448bd69e55ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:04 +0000
Subject: [PATCH 65/65] fix: dump containers made of numpy timedelta64 values

---
 hickle/loaders/load_builtins.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hickle/loaders/load_builtins.py b/hickle/loaders/load_builtins.py
index 3165e49..86963b9 100644
--- a/hickle/loaders/load_builtins.py
+++ b/hickle/loaders/load_builtins.py
@@ -160,7 +160,8 @@ def check_iterable_item_type(first_item,iter_obj):
     items.extend(iter_obj)
     dtype = None
     for item in items:
-        if not isinstance(item,(bool,int,float,complex,np.number,np.bool_)):
+        # timedelta64 is a np.number which can not be stored by h5py
+        if not isinstance(item,(bool,int,float,complex,np.number,np.bool_)) or isinstance(item,np.timedelta64):
             return None
         item_dtype = np.dtype(item.__class__)
         dtype = item_dtype if dtype is None else np.result_type(item_dtype,dtype)
-- 
2.43.0

