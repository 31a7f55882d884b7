From dafaeaff8948432241970104d448be9e26264af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:53 +0000
Subject: [PATCH 01/53] fix: check minf/maxf when decoding a Number

---
 distribution/src/jadn/codec/codec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index 3ae3763..07951c8 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -213,7 +213,7 @@ def _encode_number(ts: SymbolTableField, aval, codec: 'Codec'):
 def _decode_number(ts: SymbolTableField, sval, codec: 'Codec'):
     aval = _format_decode(ts, sval)
     _check_type(ts, aval, numbers.Real, isinstance(aval, bool))
-    return _check_range(ts, aval)
+    return _check_frange(ts, aval)
 
 
 def _encode_string(ts: SymbolTableField, aval, codec: 'Codec'):
-- 
2.43.0


From 7ccb544d377bacdf6e35f92db4d401a2e4708629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:56 +0000
Subject: [PATCH 02/53] fix: an Enumerated value is never a boolean; reject
 values of an Enumerated without items

---
 distribution/src/jadn/codec/codec.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index 07951c8..d7bf36f 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -232,7 +232,7 @@ def _decode_string(ts: SymbolTableField, sval, codec: 'Codec'):
 
 def _encode_enumerated(ts: SymbolTableField, aval, codec: 'Codec'):  # pylint: disable=R1710
     # TODO: Serialization
-    _check_type(ts, aval, type(next(iter(ts.eMap))))
+    _check_type(ts, aval, type(next(iter(ts.eMap), None)), isinstance(aval, bool))
     if aval in ts.eMap:
         return ts.eMap[aval]
     td = ts.TypeDef
@@ -240,7 +240,7 @@ def _encode_enumerated(ts: SymbolTableField, aval, codec: 'Codec'):  # pylint: d
 
 
 def _decode_enumerated(ts: SymbolTableField, sval, codec: 'Codec'):  # pylint: disable=R1710
-    _check_type(ts, sval, type(next(iter(ts.dMap))))
+    _check_type(ts, sval, type(next(iter(ts.dMap), None)), isinstance(sval, bool))
     if sval in ts.dMap:
         return ts.dMap[sval]
     td = ts.TypeDef
-- 
2.43.0


From 177deb23a5b8e7ce8cff9b4bcb54f992bb48435b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:59 +0000
Subject: [PATCH 03/53] fix: reject values that no alternative of an anyOf
 accepts, also when an alternative raises TypeError

---
 distribution/src/jadn/codec/codec.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index d7bf36f..81ca272 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -259,7 +259,7 @@ def _encode_choice(ts: SymbolTableField, val, codec: 'Codec'):
                 ct += 1
                 if combine == 'O':              # anyOf - done on success
                     break
-            except ValueError as e:
+            except (ValueError, TypeError) as e:
                 cf += 1
                 err.append(e)
                 continue
@@ -297,7 +297,7 @@ def _decode_choice(ts: SymbolTableField, val, codec: 'Codec'):  # Map Choice:  v
                 ct += 1
                 if combine == 'O':  # oneOf - done on success
                     break
-            except ValueError:
+            except (ValueError, TypeError):
                 cf += 1
                 continue
         td = ts.TypeDef
@@ -306,6 +306,8 @@ def _decode_choice(ts: SymbolTableField, val, codec: 'Codec'):  # Map Choice:  v
             raise_error(f'{td.TypeName}(allOf): {cf}/{n} invalid')
         if combine == 'X' and ct != 1:
             raise_error(f'{td.TypeName}(oneOf): {ct}/{n} valid')
+        if combine == 'O' and cf >= n:
+            raise_error(f'{td.TypeName}(anyOf): {ct}/{n} none valid')
         return v
 
     _check_type(ts, val, dict)
-- 
2.43.0


From 19a9e05edc3eebf8b70635616c9d10a34d3b1316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:03 +0000
Subject: [PATCH 04/53] fix: only text is converted to an integer field ID when
 decoding

---
 distribution/src/jadn/codec/codec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index 81ca272..8062b26 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -111,7 +111,7 @@ def _format_decode(ts: SymbolTableField, val: Any) -> Any:
 
 def _check_key(ts: SymbolTableField, val):
     try:
-        return int(val) if isinstance(next(iter(ts.dMap)), int) else val
+        return int(val) if isinstance(val, str) and isinstance(next(iter(ts.dMap), None), int) else val
     except ValueError:
         raise_error(f'{ts.TypeDef.TypeName}: {val} is not a valid field ID')
 
-- 
2.43.0


From 7e3b1ba6598f2497f9cec6e87b8ab930ff6103f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:06 +0000
Subject: [PATCH 05/53] fix: lists with the same elements in another order are
 not duplicates

---
 distribution/src/jadn/codec/codec.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index 8062b26..a1de8fd 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -55,13 +55,14 @@ class CodecTableField(BasicDataclass):
     eType: type = None
 
 
-def fset(x):
+def _hashable(x):   # Hashable equivalent of a JSON value
     if isinstance(x, dict):
-        return frozendict({k: fset(v) for k, v in x.items()})
-    try:
-        return frozenset(x) if isinstance(x, (tuple, list, set)) else x
-    except TypeError as e:
-        return frozenset((fset(v) for v in x))
+        return frozendict({k: _hashable(v) for k, v in x.items()})
+    return tuple(_hashable(v) for v in x) if isinstance(x, (tuple, list)) else x
+
+
+def fset(x):        # Set of distinct elements
+    return frozenset(_hashable(v) for v in x)
 
 
 def _bad_index(ts: SymbolTableField, k: int, val: list) -> None:
-- 
2.43.0


From 45dd20ad88f71d4adccfc47837cd9883b4a0ca3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:04 +0000
Subject: [PATCH 06/53] fix: serialize fields of the bare Binary type as
 base64url text

---
 distribution/src/jadn/codec/__init__.py |  9 ++++-----
 distribution/src/jadn/codec/codec.py    | 10 +++++++++-
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/distribution/src/jadn/codec/__init__.py b/distribution/src/jadn/codec/__init__.py
index 629db22..88b64fd 100644
--- a/distribution/src/jadn/codec/__init__.py
+++ b/distribution/src/jadn/codec/__init__.py
@@ -17,7 +17,7 @@ from .format_validate import format_validators, get_format_validate_function
 from ..utils import ftopts_s2d, get_config, object_types, raise_error, topts_s2d
 from ..definitions import (
     # Field Indexes
-    BaseType, FieldID, FieldName,
+    FieldID, FieldName,
     # Const values
     PRIMITIVE_TYPES, CORE_TYPES,
     # Dataclass
@@ -149,10 +149,9 @@ class Codec:
                 Decode=enctab[t].Dec,
                 EncType=enctab[t].eType,
                 TypeOpts={},
-                # TODO: check if t[BaseType] should just be t
-                FormatValidate=get_format_validate_function(self.format_validate, t[BaseType], ''),
-                FormatEncode=get_format_encode_function(self.format_codec, t[BaseType], ''),
-                FormatDecode=get_format_decode_function(self.format_codec, t[BaseType], '')
+                FormatValidate=get_format_validate_function(self.format_validate, t, ''),
+                FormatEncode=get_format_encode_function(self.format_codec, t, ''),
+                FormatDecode=get_format_decode_function(self.format_codec, t, '')
             )
 
 
diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index a1de8fd..4629f96 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -166,6 +166,10 @@ def _check_count(ts: SymbolTableField, val):
     return val
 
 
+def _is_net(ts: SymbolTableField) -> bool:     # Array whose format converts API values, not serialized elements
+    return ts.TypeOpts.get('format') in ('ipv4-net', 'ipv6-net')
+
+
 def _extra_value(ts: SymbolTableField, val, extra: set):
     td = ts.TypeDef
     raise_error(f'{td.TypeName}({td.BaseType}): unexpected field: \"{", ".join(str(k) for k in extra)}\"')
@@ -178,6 +182,7 @@ def _encode_binary(ts: SymbolTableField, aval, codec: 'Codec'):    # Encode byte
 
 
 def _decode_binary(ts: SymbolTableField, sval, codec: 'Codec'):    # Decode ASCII string to bytes
+    _check_type(ts, sval, str)
     aval = _format_decode(ts, sval)
     _check_type(ts, aval, bytes)        # assert format decode returns correct type
     return _check_size(ts, aval)
@@ -418,7 +423,7 @@ def _encode_array(ts: SymbolTableField, aval, codec: 'Codec'):
                 _bad_value(ts, aval, f)
     while sval and sval[-1] is None:            # Strip non-populated trailing optional values
         sval.pop()
-    return ts.FormatEncode(sval)
+    return ts.FormatEncode(aval if _is_net(ts) else sval)
 
 
 def _decode_array(ts: SymbolTableField, sval, codec: 'Codec'):  # Ordered list of types, returned as a list
@@ -438,6 +443,9 @@ def _decode_array(ts: SymbolTableField, sval, codec: 'Codec'):  # Ordered list o
                 choice_type = val[int(fopts['tagid']) - 1]
                 d = codec.decode(f.FieldType, {choice_type: sv})  # TODO: fix str/int handling of choice
                 av = d[next(iter(d))]
+            elif _is_net(ts):       # FormatDecode has produced API values
+                codec.encode(f.FieldType, sv)
+                av = sv
             else:
                 av = codec.decode(f.FieldType, sv)
             aval.append(av)
-- 
2.43.0


From b1bcdaad186c97a3abb946fa7ffb62271823b94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:46 +0000
Subject: [PATCH 07/53] fix: apply the configured default size limits to fields
 of bare String and Binary type

---
 distribution/src/jadn/codec/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/codec/__init__.py b/distribution/src/jadn/codec/__init__.py
index 88b64fd..f221644 100644
--- a/distribution/src/jadn/codec/__init__.py
+++ b/distribution/src/jadn/codec/__init__.py
@@ -148,7 +148,7 @@ class Codec:
                 Encode=enctab[t].Enc,
                 Decode=enctab[t].Dec,
                 EncType=enctab[t].eType,
-                TypeOpts={},
+                TypeOpts={'minv': 0, 'maxv': self.config[f'$Max{t}']} if t in ('Binary', 'String') else {},
                 FormatValidate=get_format_validate_function(self.format_validate, t, ''),
                 FormatEncode=get_format_encode_function(self.format_codec, t, ''),
                 FormatDecode=get_format_decode_function(self.format_codec, t, '')
-- 
2.43.0


From cd81c7b3636e17d7c8d05fceda14542b68e5d5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:48 +0000
Subject: [PATCH 08/53] fix: encode and decode Map types with the id option
 when identifiers are strings

---
 distribution/src/jadn/codec/codec.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index 4629f96..86d8457 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -333,7 +333,8 @@ def _encode_maprec(ts: SymbolTableField, aval, codec: 'Codec'):
     _check_size(ts, aval)
     sval = ts.EncType()
     assert isinstance(sval, (list, dict))
-    fx = FieldName if codec.verbose_str else FieldID  # Verbose or minified identifier strings
+    # Verbose or minified identifier strings
+    fx = FieldName if codec.verbose_str and 'id' not in ts.TypeOpts else FieldID
     fnames = [f.Def.FieldName for f in ts.Fld.values()]
     for f in ts.TypeDef.Fields:
         fs = ts.Fld[f[fx]]  # Symtab entry for field
@@ -368,7 +369,8 @@ def _decode_maprec(ts: SymbolTableField, sval, codec: 'Codec'):
     if ts.EncType == dict:
         val = {_check_key(ts, k): v for k, v in sval.items()}
     aval = dict()
-    fx = FieldName if codec.verbose_str else FieldID  # Verbose or minified identifier strings
+    # Verbose or minified identifier strings
+    fx = FieldName if codec.verbose_str and 'id' not in ts.TypeOpts else FieldID
     fnames = list(ts.Fld)
     for f in ts.TypeDef.Fields:
         fs = ts.Fld[f[fx]]  # Symtab entry for field
-- 
2.43.0


From 62aee71020c1ff6e19ce9ce55071889f559a25c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:51 +0000
Subject: [PATCH 09/53] fix: absent optional fields of a concise Record do not
 count towards its size

---
 distribution/src/jadn/codec/codec.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index 86d8457..9949610 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -364,7 +364,7 @@ def _encode_maprec(ts: SymbolTableField, aval, codec: 'Codec'):
 
 def _decode_maprec(ts: SymbolTableField, sval, codec: 'Codec'):
     _check_type(ts, sval, ts.EncType)
-    _check_size(ts, sval)   # TODO: _check_count() for concise records
+    _check_size(ts, sval) if isinstance(sval, dict) else _check_count(ts, sval)
     val = sval
     if ts.EncType == dict:
         val = {_check_key(ts, k): v for k, v in sval.items()}
@@ -393,7 +393,7 @@ def _decode_maprec(ts: SymbolTableField, sval, codec: 'Codec'):
         else:
             if 'minc' not in fopts or fopts['minc'] > 0:
                 _bad_value(ts, val, fd)
-    extra = set(val) - set(fnames) if isinstance(val, dict) else set(val[len(ts.Fld):])
+    extra = set(val) - set(fnames) if isinstance(val, dict) else val[len(ts.Fld):]
     if extra:
         _extra_value(ts, val, extra)
     return aval
-- 
2.43.0


From 50862490a6a9d3fdfbe7b228f9c3cc2b0ce35308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:54 +0000
Subject: [PATCH 10/53] fix: count the elements of a decoded Array, not the
 characters of its text form

---
 distribution/src/jadn/codec/codec.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index 9949610..426929e 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -170,7 +170,7 @@ def _is_net(ts: SymbolTableField) -> bool:     # Array whose format converts API
     return ts.TypeOpts.get('format') in ('ipv4-net', 'ipv6-net')
 
 
-def _extra_value(ts: SymbolTableField, val, extra: set):
+def _extra_value(ts: SymbolTableField, val, extra):
     td = ts.TypeDef
     raise_error(f'{td.TypeName}({td.BaseType}): unexpected field: \"{", ".join(str(k) for k in extra)}\"')
 
@@ -405,7 +405,7 @@ def _encode_array(ts: SymbolTableField, aval, codec: 'Codec'):
     _check_count(ts, aval)
     sval = list()
     if len(aval) > len(ts.Fld):
-        _extra_value(ts, aval, set(aval[len(ts.Fld):]))
+        _extra_value(ts, aval, aval[len(ts.Fld):])
     for fn in ts.TypeDef.Fields:
         f = ts.Fld[fn.FieldID].Def  # Use symtab field definition
         fx = f.FieldID - 1
@@ -421,7 +421,7 @@ def _encode_array(ts: SymbolTableField, aval, codec: 'Codec'):
             sval.append(sv)
         else:
             sval.append(None)
-            if 'minc' in fopts and fopts['minc'] > 0:   # Value is required
+            if 'minc' not in fopts or fopts['minc'] > 0:   # Value is required
                 _bad_value(ts, aval, f)
     while sval and sval[-1] is None:            # Strip non-populated trailing optional values
         sval.pop()
@@ -431,10 +431,10 @@ def _encode_array(ts: SymbolTableField, aval, codec: 'Codec'):
 def _decode_array(ts: SymbolTableField, sval, codec: 'Codec'):  # Ordered list of types, returned as a list
     val = ts.FormatDecode(sval)
     _check_type(ts, val, list)
-    _check_count(ts, sval)
+    _check_count(ts, val)
     aval = list()
     if len(val) > len(ts.Fld):
-        _extra_value(ts, val, set(aval[len(ts.Fld):]))
+        _extra_value(ts, val, val[len(ts.Fld):])
     for fn in ts.TypeDef.Fields:
         f = ts.Fld[fn[FieldID]].Def  # Use symtab field definition
         fx = f[FieldID] - 1
-- 
2.43.0


From ca864ea439f1d083139dc781c8a353e680479f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:06 +0000
Subject: [PATCH 11/53] fix: decode and validate the keys of a MapOf

---
 distribution/src/jadn/codec/codec.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index 426929e..a5ad1d7 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -485,10 +485,24 @@ def _encode_map_of(ts: SymbolTableField, aval, codec: 'Codec'):
     return {codec.encode(to['ktype'], k): codec.encode(to['vtype'], v) for k, v in aval.items()}
 
 
+def _decode_map_key(ktype: str, key: Any, codec: 'Codec') -> Any:   # JSON object keys are always text
+    kts = codec.symtab.get(ktype)
+    if isinstance(key, str) and kts is not None:
+        if kts.TypeDef.BaseType == 'Enumerated':
+            key = _check_key(kts, key)
+        elif kts.TypeDef.BaseType == 'Integer' and kts.TypeOpts.get('format') != 'datetime-ms':
+            key = int(key)
+    return codec.decode(ktype, key)
+
+
 def _decode_map_of(ts: SymbolTableField, sval, codec: 'Codec'):
     _check_type(ts, sval, dict)
     _check_size(ts, sval)
-    return {k: codec.decode(ts.TypeOpts['vtype'], v) for k, v in sval.items()}
+    to = ts.TypeOpts
+    aval = {_decode_map_key(to['ktype'], k, codec): codec.decode(to['vtype'], v) for k, v in sval.items()}
+    if len(aval) != len(sval):
+        raise_error(f'{ts.TypeDef.TypeName}: duplicate keys: {", ".join(str(k) for k in sval)}')
+    return aval
 
 
 enctab: Dict[str, CodecTableField] = {  # decode, encode, min encoded type
-- 
2.43.0


From dde4ca38e0c57b7b2b19b1452ac0e21167cea154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:11 +0000
Subject: [PATCH 12/53] fix: select the alternative of a tagged field by the
 value of its tag in every mode

---
 distribution/src/jadn/codec/codec.py | 55 ++++++++++++++++++----------
 1 file changed, 36 insertions(+), 19 deletions(-)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index a5ad1d7..67ff557 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -328,6 +328,25 @@ def _decode_choice(ts: SymbolTableField, val, codec: 'Codec'):  # Map Choice:  v
     return {k: codec.decode(f.FieldType, v)}
 
 
+def _tag_field(ts: SymbolTableField, fs: SymbolTableFieldDefinition) -> GenFieldDefinition:
+    return next(f for f in ts.TypeDef.Fields if f.FieldID == fs.Opt['tagid'])
+
+
+def _encode_tagged(ts: SymbolTableField, fs: SymbolTableFieldDefinition, tag: Any, aval: Any, codec: 'Codec') -> Any:
+    if isinstance(tag, bool) or not isinstance(tag, (str, int)):
+        raise_error(f'{ts.TypeDef.TypeName}/{fs.Def.FieldName}: bad or missing tag: {tag}')
+    return next(iter(codec.encode(fs.Def.FieldType, {tag: aval}).values()))
+
+
+def _decode_tagged(ts: SymbolTableField, fs: SymbolTableFieldDefinition, tag: Any, sval: Any, codec: 'Codec') -> Any:
+    # The tag is an API value (e.g., enumerated name), which may not equal the serialized choice identifier
+    tag = codec.decode(_tag_field(ts, fs).FieldType, tag)
+    choice = codec.symtab.get(fs.Def.FieldType)
+    if isinstance(tag, bool) or not isinstance(tag, (str, int)) or not choice or tag not in choice.eMap:
+        raise_error(f'{ts.TypeDef.TypeName}/{fs.Def.FieldName}: bad or missing tag: {tag}')
+    return next(iter(codec.decode(fs.Def.FieldType, {choice.eMap[tag]: sval}).values()))
+
+
 def _encode_maprec(ts: SymbolTableField, aval, codec: 'Codec'):
     _check_type(ts, aval, dict)
     _check_size(ts, aval)
@@ -341,10 +360,8 @@ def _encode_maprec(ts: SymbolTableField, aval, codec: 'Codec'):
         fd = fs.Def  # JADN field definition from symtab
         fname = fd[FieldName]  # Field name
         fopts = fs.Opt  # Field options dict
-        ctag = fs.cTag
-        if ctag is not None:  # Type of this field is specified by contents of another field
-            e = codec.encode(fd.FieldType, {aval[ctag]: aval[fname]})
-            sv = next(iter(e.values()))
+        if fs.cTag is not None and fname in aval:  # Type of this field is specified by contents of another field
+            sv = _encode_tagged(ts, fs, aval.get(_tag_field(ts, fs).FieldName), aval[fname], codec)
         else:
             sv = codec.encode(fd.FieldType, aval[fname]) if fname in aval else None
         if sv is None and ('minc' not in fopts or fopts['minc'] > 0):  # Missing required field
@@ -383,11 +400,11 @@ def _decode_maprec(ts: SymbolTableField, sval, codec: 'Codec'):
             fn = fd[FieldID] - 1
             sv = val[fn] if len(val) > fn else None
         if sv is not None:
-            ctag = fs.cTag
-            if ctag is not None:  # Type of this field is specified by contents of another field
-                ct = ctag if isinstance(val, dict) else ts.eMap[ctag] - 1
-                av = codec.decode(fd.FieldType, {sval[ct]: sv})
-                aval[fd[FieldName]] = next(iter(av.values()))
+            if fs.cTag is not None:  # Type of this field is specified by contents of another field
+                tf = _tag_field(ts, fs)
+                tn = tf.FieldID - 1
+                tag = val.get(tf[fx]) if isinstance(val, dict) else val[tn] if len(val) > tn else None
+                aval[fd[FieldName]] = _decode_tagged(ts, fs, tag, sv, codec)
             else:
                 aval[fd[FieldName]] = codec.decode(fd.FieldType, sv)
         else:
@@ -407,15 +424,15 @@ def _encode_array(ts: SymbolTableField, aval, codec: 'Codec'):
     if len(aval) > len(ts.Fld):
         _extra_value(ts, aval, aval[len(ts.Fld):])
     for fn in ts.TypeDef.Fields:
-        f = ts.Fld[fn.FieldID].Def  # Use symtab field definition
+        fs = ts.Fld[fn.FieldID]     # Use symtab field definition
+        f = fs.Def
         fx = f.FieldID - 1
-        fopts = ts.Fld[fx + 1].Opt
+        fopts = fs.Opt
         av = aval[fx] if len(aval) > fx else None
         if av is not None:
             if 'tagid' in fopts:
-                choice_type = aval[int(fopts['tagid']) - 1]
-                e = codec.encode(f.FieldType, {choice_type: av})
-                sv = e[next(iter(e))]
+                tn = _tag_field(ts, fs).FieldID - 1
+                sv = _encode_tagged(ts, fs, aval[tn] if len(aval) > tn else None, av, codec)
             else:
                 sv = codec.encode(f.FieldType, av)
             sval.append(sv)
@@ -436,15 +453,15 @@ def _decode_array(ts: SymbolTableField, sval, codec: 'Codec'):  # Ordered list o
     if len(val) > len(ts.Fld):
         _extra_value(ts, val, val[len(ts.Fld):])
     for fn in ts.TypeDef.Fields:
-        f = ts.Fld[fn[FieldID]].Def  # Use symtab field definition
+        fs = ts.Fld[fn[FieldID]]    # Use symtab field definition
+        f = fs.Def
         fx = f[FieldID] - 1
-        fopts = ts.Fld[fx + 1].Opt
+        fopts = fs.Opt
         sv = val[fx] if len(val) > fx else None
         if sv is not None:
             if 'tagid' in fopts:
-                choice_type = val[int(fopts['tagid']) - 1]
-                d = codec.decode(f.FieldType, {choice_type: sv})  # TODO: fix str/int handling of choice
-                av = d[next(iter(d))]
+                tn = _tag_field(ts, fs).FieldID - 1
+                av = _decode_tagged(ts, fs, val[tn] if len(val) > tn else None, sv, codec)
             elif _is_net(ts):       # FormatDecode has produced API values
                 codec.encode(f.FieldType, sv)
                 av = sv
-- 
2.43.0


From cd9f81900137902172fd03409f29eeb8028dd083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:59 +0000
Subject: [PATCH 13/53] fix: unfold schemas with a MapOf whose key type is
 built-in or imported

---
 distribution/src/jadn/transform/transform.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/distribution/src/jadn/transform/transform.py b/distribution/src/jadn/transform/transform.py
index 6ce682c..225ad5c 100644
--- a/distribution/src/jadn/transform/transform.py
+++ b/distribution/src/jadn/transform/transform.py
@@ -167,11 +167,11 @@ def unfold_map_of_enum(schema: dict) -> NoReturn:
     """
     Replace MapOf(enumerated key) with explicit Map
     """
-    typex = {t[TypeName]: n for n, t in enumerate(schema['types'])}       # Build type index
+    enums = {t[TypeName]: t for t in schema['types'] if t[BaseType] == 'Enumerated'}
     for n, tdef in enumerate(schema['types']):
         to = topts_s2d(tdef.TypeOptions)
-        if tdef.BaseType == 'MapOf' and schema['types'][typex[to['ktype']]][BaseType] == 'Enumerated':
-            newfields = [GenFieldDefinition(f[ItemID], f[ItemValue], to['vtype'], [], f[ItemDesc]) for f in schema['types'][typex[to['ktype']]][Fields]]
+        if tdef.BaseType == 'MapOf' and to['ktype'] in enums:
+            newfields = [GenFieldDefinition(f[ItemID], f[ItemValue], to['vtype'], [], f[ItemDesc]) for f in enums[to['ktype']][Fields]]
             schema['types'][n] = TypeDefinition(tdef.TypeName, 'Map', [], tdef.TypeDesc, newfields)
 
 
-- 
2.43.0


From 3f319af04133bdce279d3a47e04e473e2c5f6915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:29 +0000
Subject: [PATCH 14/53] fix: convert datetime-ms with integer arithmetic and
 accept RFC 3339 date-times only

---
 .../src/jadn/codec/format_serialize_json.py   | 21 +++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/distribution/src/jadn/codec/format_serialize_json.py b/distribution/src/jadn/codec/format_serialize_json.py
index f19a743..61ccb3a 100644
--- a/distribution/src/jadn/codec/format_serialize_json.py
+++ b/distribution/src/jadn/codec/format_serialize_json.py
@@ -3,13 +3,17 @@ import binascii
 import re
 import string
 
-from datetime import datetime, timezone
+from datetime import datetime, timedelta, timezone
 from ipaddress import IPv4Address, IPv6Address
 from typing import Any, Callable, Dict, Tuple
 from ..definitions import FORMAT_SERIALIZE
 
 UUID = r'(?i)^[0-9a-f]{8}-[0-9a-f]{4}-[1-5][0-9a-f]{3}-[89AB][0-9a-f]{3}-[0-9a-f]{12}$'
 
+# RFC 3339 date-time, where T and Z may be lower case and T may be a space
+DATE_TIME = r'(?ai)\d{4}-\d\d-\d\d[T ]\d\d:\d\d:\d\d(\.\d+)?(Z|[-+]\d\d:\d\d)'
+EPOCH = datetime(1970, 1, 1, tzinfo=timezone.utc)
+
 FormatFunction = Callable[[Any], Any]
 FormatTable = Dict[str, Dict[str, Tuple[FormatFunction, FormatFunction]]]
 # TODO: Convert a2s_ipvX_net and s2a_ipvX_net functions to use ipaddress.IPvXNetwork
@@ -164,15 +168,20 @@ FORMAT_CONVERT_MULTIPART_FUNCTIONS = {
 
 
 def int2datems(dt: int) -> str:
-    y = datetime.isoformat(datetime.fromtimestamp(dt/1000., timezone.utc))
-    if m := re.match(r'^(.+)(\.\d\d\d)(\d\d\d)(.+)$', y):   # strip microseconds to milliseconds
-        y = m.group(1) + m.group(2) + m.group(4)
-    return y
+    try:
+        y = EPOCH + timedelta(milliseconds=dt)      # Integer arithmetic, seconds as float would lose milliseconds
+    except OverflowError:
+        raise ValueError(f'{dt} is outside the range of date-time')
+    return y.isoformat(timespec='milliseconds' if dt % 1000 else 'seconds')
 
 
 def datems2int(dts: str) -> int:
+    if not isinstance(dts, str):
+        raise TypeError(f'{dts} is not a date-time string')
+    if not re.fullmatch(DATE_TIME, dts):
+        raise ValueError(f'{dts} is not an RFC 3339 date-time')
     x = datetime.fromisoformat(dts.upper().replace('Z', '+00:00').replace(' ', 'T'))
-    return int(1000 * datetime.timestamp(x))
+    return (x - EPOCH) // timedelta(milliseconds=1)
 
 
 # No special sized integer serialization in JSON.  Define these for packed encoding.
-- 
2.43.0


From cbd7aed0809adfbb4485f79d202cae9fe1f43ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:31 +0000
Subject: [PATCH 15/53] fix: hostname and email formats match the whole value

---
 distribution/src/jadn/codec/format_validate.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/distribution/src/jadn/codec/format_validate.py b/distribution/src/jadn/codec/format_validate.py
index 8bacf45..4db8257 100644
--- a/distribution/src/jadn/codec/format_validate.py
+++ b/distribution/src/jadn/codec/format_validate.py
@@ -36,7 +36,7 @@ def s_email(sval: str) -> str:
         r"(?:(?:[a-z0-9](?:[a-z0-9-]*[a-z0-9])?\.)+[a-z0-9](?:[a-z0-9-]*[a-z0-9])?|\[(?:(?:(2(5[0-5]|[0-4][0-9])"
         r"|1[0-9][0-9]|[1-9]?[0-9]))\.){3}(?:(2(5[0-5]|[0-4][0-9])|1[0-9][0-9]|[1-9]?[0-9])|[a-z0-9-]*[a-z0-9]"
         r":(?:[\x01-\x08\x0b\x0c\x0e-\x1f\x21-\x5a\x53-\x7f]|\\[\x01-\x09\x0b\x0c\x0e-\x7f])+)\])")
-    if re.match(rfc5322_re, sval):
+    if re.fullmatch(rfc5322_re, sval):
         return sval
     raise ValueError
 
@@ -46,12 +46,12 @@ def s_hostname(sval: str) -> str:
     if not isinstance(sval, type('')):
         raise TypeError
     hostname = sval[:]      # Copy since we're modifying input
-    if hostname[-1] == ".":
+    if hostname.endswith("."):
         hostname = hostname[:-1]  # strip exactly one dot from the right, if present
     if len(sval) > 253:
         raise ValueError
-    allowed = re.compile(r"(?!-)[A-Z\d-]{1,63}(?<!-)$", re.IGNORECASE)
-    if all(allowed.match(x) for x in hostname.split(".")):
+    allowed = re.compile(r"(?!-)[A-Z\d-]{1,63}(?<!-)", re.IGNORECASE | re.ASCII)
+    if all(allowed.fullmatch(x) for x in hostname.split(".")):
         return sval
     raise ValueError
 
-- 
2.43.0


From 2e9ac27f65532c207dda86fae20047b21faa0146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:33 +0000
Subject: [PATCH 16/53] fix: decode only well-formed network address text

---
 .../src/jadn/codec/format_serialize_json.py       | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/codec/format_serialize_json.py b/distribution/src/jadn/codec/format_serialize_json.py
index 61ccb3a..eced4ae 100644
--- a/distribution/src/jadn/codec/format_serialize_json.py
+++ b/distribution/src/jadn/codec/format_serialize_json.py
@@ -90,6 +90,8 @@ def s2b_ipv4_addr(sval: str) -> bytes:    # Convert IPv4 addr from string to bin
 
 
 def s2b_ipv6_addr(sval: str) -> bytes:    # Convert IPv6 address from string to binary
+    if '%' in sval:
+        raise ValueError('ipv6-addr: zone identifier not supported')
     return IPv6Address(sval).packed
 
 
@@ -133,8 +135,17 @@ def a2s_ipv6_net(aval: [str, int]) -> str:
     return f'{sa}/{aval[1]}' if aval[1] != 128 else sa
 
 
-def s2a_ipv4_net(sval: str) -> [str, int]:
+def _split_net(sval: str) -> [str, str]:    # Address and decimal prefix length, if any
+    if not isinstance(sval, str):
+        raise TypeError(f'{sval} is not a network address string')
     sv = sval.split('/', 1)
+    if len(sv) > 1 and not re.fullmatch(r'0|[1-9][0-9]{0,2}', sv[1]):
+        raise ValueError(f'{sval}: bad prefix length')
+    return sv
+
+
+def s2a_ipv4_net(sval: str) -> [str, int]:
+    sv = _split_net(sval)
     sa = s2b_ipv4_addr(sv[0])                  # Convert type-specific string to Binary bytes
     prefix_len = int(sv[1]) if len(sv) > 1 else 32
     if prefix_len < 0 or prefix_len > 32:
@@ -143,7 +154,7 @@ def s2a_ipv4_net(sval: str) -> [str, int]:
 
 
 def s2a_ipv6_net(sval: str) -> [str, int]:
-    sv = sval.split('/', 1)
+    sv = _split_net(sval)
     sa = s2b_ipv6_addr(sv[0])                  # Convert type-specific string to Binary bytes
     prefix_len = int(sv[1]) if len(sv) > 1 else 128
     if prefix_len < 0 or prefix_len > 128:
-- 
2.43.0


From 2e8662c1687d64258aea45ff6446ea2a9c266769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:36 +0000
Subject: [PATCH 17/53] fix: tag-uuid with a hyphen in the tag, validate Array
 formats when decoding

---
 distribution/src/jadn/codec/codec.py                 | 3 ++-
 distribution/src/jadn/codec/format_serialize_json.py | 4 ++++
 distribution/src/jadn/codec/format_validate.py       | 3 ++-
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index 67ff557..b17ce49 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -474,7 +474,8 @@ def _decode_array(ts: SymbolTableField, sval, codec: 'Codec'):  # Ordered list o
                 _bad_value(ts, val, f)
     while aval and aval[-1] is None:  # Strip non-populated trailing optional values
         aval.pop()
-    return aval     # TODO: Check errors in ts.FormatValidate(aval)
+    ts.FormatValidate(aval)
+    return aval
 
 
 def _encode_array_of(ts: SymbolTableField, val, codec: 'Codec'):
diff --git a/distribution/src/jadn/codec/format_serialize_json.py b/distribution/src/jadn/codec/format_serialize_json.py
index eced4ae..69949ec 100644
--- a/distribution/src/jadn/codec/format_serialize_json.py
+++ b/distribution/src/jadn/codec/format_serialize_json.py
@@ -167,6 +167,10 @@ def a2s_tag_uuid(aval: [str, str]) -> str:
 
 
 def s2a_tag_uuid(sval: str) -> [str, str]:
+    if not isinstance(sval, str):
+        raise TypeError(f'{sval} is not a tag-uuid string')
+    if m := re.fullmatch(r'(?s)(.*)-([^-]{8}-[^-]{4}-[^-]{4}-[^-]{4}-[^-]{12})', sval):   # Tag may contain hyphens
+        return [m.group(1), m.group(2)]
     t, u = sval.split('-', maxsplit=1)
     return [t, u]
 
diff --git a/distribution/src/jadn/codec/format_validate.py b/distribution/src/jadn/codec/format_validate.py
index 4db8257..793b6e8 100644
--- a/distribution/src/jadn/codec/format_validate.py
+++ b/distribution/src/jadn/codec/format_validate.py
@@ -73,7 +73,8 @@ def b_uuid(bval: bytes) -> bytes:           # UUID is 128 bits
 
 
 def a_tag_uuid(aval: [str, bytes]) -> [str, bytes]:
-    if (    len(aval) == 2 and
+    if (    isinstance(aval, list) and
+            len(aval) == 2 and
             isinstance(aval[0], str) and
             isinstance(aval[1], bytes) and
             len(aval[1]) == 16):
-- 
2.43.0


From 664a0f2921558c60d56a46f0a2f1f17ee993824c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:24 +0000
Subject: [PATCH 18/53] fix: reject date-times with an offset out of range

---
 distribution/src/jadn/codec/format_serialize_json.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/codec/format_serialize_json.py b/distribution/src/jadn/codec/format_serialize_json.py
index 69949ec..2854df5 100644
--- a/distribution/src/jadn/codec/format_serialize_json.py
+++ b/distribution/src/jadn/codec/format_serialize_json.py
@@ -11,7 +11,7 @@ from ..definitions import FORMAT_SERIALIZE
 UUID = r'(?i)^[0-9a-f]{8}-[0-9a-f]{4}-[1-5][0-9a-f]{3}-[89AB][0-9a-f]{3}-[0-9a-f]{12}$'
 
 # RFC 3339 date-time, where T and Z may be lower case and T may be a space
-DATE_TIME = r'(?ai)\d{4}-\d\d-\d\d[T ]\d\d:\d\d:\d\d(\.\d+)?(Z|[-+]\d\d:\d\d)'
+DATE_TIME = r'(?ai)\d{4}-\d\d-\d\d[T ]\d\d:\d\d:\d\d(\.\d+)?(Z|[-+]([01]\d|2[0-3]):[0-5]\d)'
 EPOCH = datetime(1970, 1, 1, tzinfo=timezone.utc)
 
 FormatFunction = Callable[[Any], Any]
-- 
2.43.0


From 9db8ffff43b4d321e7c505be5d6d5307b1376da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:22 +0000
Subject: [PATCH 19/53] fix: canonicalize spells numeric option values
 uniformly (1e5 became 1e5.0)

---
 distribution/src/jadn/utils.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/distribution/src/jadn/utils.py b/distribution/src/jadn/utils.py
index dd9c801..e3a1669 100644
--- a/distribution/src/jadn/utils.py
+++ b/distribution/src/jadn/utils.py
@@ -211,13 +211,10 @@ def canonicalize(schema: dict) -> dict:
             del_opt(olist, 'minc')
         if 'maxc' in fo and fo['maxc'] == 1:
             del_opt(olist, 'maxc')
-        if basetype == 'Number':           # TODO: fix corner case input = 2.000
-            minf = get_optx(olist, 'minf')
-            if minf is not None and '.' not in olist[minf]:
-                olist[minf] += '.0'
-            maxf = get_optx(olist, 'maxf')
-            if maxf is not None and '.' not in olist[maxf]:
-                olist[maxf] += '.0'
+        for n, o in enumerate(olist):   # Use canonical spelling of numeric values, e.g., 2 and 2.000 -> 2.0
+            _, conv, _ = FIELD_OPTIONS.get(ord(o[0])) or TYPE_OPTIONS[ord(o[0])]
+            if conv in (int, float):
+                olist[n] = f'{o[0]}{conv(o[1:])}'
 
     cschema = copy.deepcopy(schema)     # don't modify original
     for td in cschema['types']:
-- 
2.43.0


From 2e73ba99f9485e09c3fc2c1843adeb167ff37ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:52 +0000
Subject: [PATCH 20/53] fix: build_deps reports derived enumerations used as
 key or value type under their type name

---
 distribution/src/jadn/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/utils.py b/distribution/src/jadn/utils.py
index e3a1669..47e62fe 100644
--- a/distribution/src/jadn/utils.py
+++ b/distribution/src/jadn/utils.py
@@ -96,9 +96,11 @@ def build_deps(schema: dict[str, list]) -> dict[str, list[str]]:
     def get_refs(tdef: list) -> list[str]:  # Return all type references from a type definition
         # Options whose value is/has a type name: strip option id
         oids = [OPTION_ID['ktype'], OPTION_ID['vtype']]
-        # Options that enumerate fields: keep option id
+        # Options that enumerate fields: strip option id
         oids2 = [OPTION_ID['enum'], OPTION_ID['pointer']]
-        refs = [to[1:] for to in tdef[TypeOptions] if to[0] in oids and not is_builtin(to[1:])]
+        # Key or value type may be an enumeration of fields
+        refs = [to[2:] if to[1:2] in oids2 else to[1:] for to in tdef[TypeOptions]
+                if to[0] in oids and not is_builtin(to[1:])]
         refs += ([to[1:] for to in tdef[TypeOptions] if to[0] in oids2])
         if has_fields(tdef[BaseType]):  # Ignore Enumerated
             for f in tdef[Fields]:
-- 
2.43.0


From 99262f6b678175df66db6fd85fd7ea08c6a94720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:12 +0000
Subject: [PATCH 21/53] fix: escape object keys in dumps

---
 distribution/src/jadn/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/core.py b/distribution/src/jadn/core.py
index 55a20ab..4705940 100644
--- a/distribution/src/jadn/core.py
+++ b/distribution/src/jadn/core.py
@@ -194,7 +194,7 @@ def dumps_rec(val: Any, level: int = 0, indent: int = 2, strip: bool = False) ->
     sep2 = ',\n' if strip else ',\n\n'
     if isinstance(val, dict):
         sep = ',\n' if level > 0 else sep2
-        lines = sep.join(f'{sp2}"{k}": {dumps_rec(val[k], level + 1, indent, strip)}' for k in val)
+        lines = sep.join(f'{sp2}{json.dumps(k, ensure_ascii=False)}: {dumps_rec(val[k], level + 1, indent, strip)}' for k in val)
         return f'{{\n{lines}\n{sp}}}'
     if isinstance(val, list):
         sep = ',\n' if level > 1 else sep2
-- 
2.43.0


From 4748a7d540acf81c0f806090196f198896fd3dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:15 +0000
Subject: [PATCH 22/53] fix: load_any passed an open file to html_load, which
 expects a file name

---
 distribution/src/jadn/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/core.py b/distribution/src/jadn/core.py
index 4705940..d9ed5c5 100644
--- a/distribution/src/jadn/core.py
+++ b/distribution/src/jadn/core.py
@@ -178,7 +178,7 @@ def load_any(fp: TextIO) -> dict:
         loader = {
             '.jadn': jadn.load,
             '.jidl': jadn.convert.jidl_load,
-            '.html': jadn.convert.html_load
+            '.html': lambda f: jadn.convert.html_loads(f.read())
         }[ext]
     except KeyError:
         raise KeyError(f'Unsupported schema format: {name}')
-- 
2.43.0


From 098d0ea6904f561958e29070c7edeb158285910d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:17 +0000
Subject: [PATCH 23/53] fix: jidl_dump wrote a header that jidl_load cannot
 read

---
 distribution/src/jadn/convert/jidl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/convert/jidl.py b/distribution/src/jadn/convert/jidl.py
index 1c31e6c..36a9c38 100644
--- a/distribution/src/jadn/convert/jidl.py
+++ b/distribution/src/jadn/convert/jidl.py
@@ -80,7 +80,7 @@ def jidl_dumps(schema: dict, style: dict = None) -> str:
 def jidl_dump(schema: dict, fname: Union[bytes, str, int], source='', style=None) -> None:
     with open(fname, 'w', encoding='utf8') as f:
         if source:
-            f.write(f'/* Generated from {source}, {datetime.ctime(datetime.now())} */\n\n')
+            f.write(f'// Generated from {source}, {datetime.ctime(datetime.now())}\n\n')
         f.write(jidl_dumps(schema, style))
 
 
-- 
2.43.0


From e6dbb828a2805b9da31c5c3cc5d70859ecae4ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:30 +0000
Subject: [PATCH 24/53] fix: type strings keep any pattern and the extend
 option

---
 distribution/src/jadn/utils.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/distribution/src/jadn/utils.py b/distribution/src/jadn/utils.py
index 47e62fe..b583bf8 100644
--- a/distribution/src/jadn/utils.py
+++ b/distribution/src/jadn/utils.py
@@ -256,10 +256,11 @@ def typestr2jadn(typestring: str) -> tuple[str, list[str], list]:
     p_name = r'\s*=?\s*([-$:\w]+)'                  # 1 type name
     p_id = r'(\.ID)?'                               # 2 'id'
     p_func = r'(?:\(([^)]+)\))?'                    # 3 'ktype', 'vtype', 'enum', 'pointer', 'tagid'
-    p_rangepat = r'\{(.*)\}'                        # 4 'minv', 'maxv', 'pattern'
+    p_pattern = r'\{pattern="(.*)"\}'               # 4 'pattern' - may contain anything, including the following
+    p_range = r'\{(.*)\}'                           # 4 'minv', 'maxv'
     p_format = r'\s+\/(\w[-\w]*)'                   # 5 'format'
-    p_kw = r'\s+(unique|set|unordered|sequence)'    # 6 multiplicity
-    pattern = fr'^{p_name}{p_id}{p_func}(.*?)\s*$'
+    p_kw = r'\s+(unique|set|unordered|sequence|extend)'     # 6 multiplicity, extension point
+    pattern = fr'(?s)^{p_name}{p_id}{p_func}(.*?)\s*$'
     m = re.match(pattern, typestring)
     if m is None:
         raise_error(f'TypeString2JADN: "{typestring}" does not match pattern {pattern}')
@@ -278,10 +279,11 @@ def typestr2jadn(typestring: str) -> tuple[str, list[str], list]:
             topts.update(topts_s2d([opts[0]]) if ord(opts[0][0]) in TYPE_OPTIONS else {})
             fo += [opts[0]] if ord(opts[0][0]) in FIELD_OPTIONS else []         # TagId option
     if rest := m.group(4):
-        for opt in re.findall(p_rangepat, rest):
-            if m := re.match('pattern=\"(.+)\"', opt):
-                topts.update({'pattern': m.group(1)})
-            elif len(x := opt.split('..', maxsplit=1)) == 2:
+        if m := re.search(p_pattern, rest, re.DOTALL):
+            topts.update({'pattern': m.group(1)})
+            rest = rest[:m.start()] + rest[m.end():]
+        for opt in re.findall(p_range, rest):
+            if len(x := opt.split('..', maxsplit=1)) == 2:
                 a, b = x
                 if tname == 'Number':
                     topts.update({} if a == '*' else {'minf': float(a)})
@@ -345,7 +347,7 @@ def jadn2typestr(tname: str, topts: list[OPTION_TYPES]) -> str:
     if v := opts.pop('pointer', None):
         extra += f'(Pointer[{v}])'
 
-    if v := opts.pop('pattern', None):  # String can have {range} or {pattern} or /format
+    if (v := opts.pop('pattern', None)) is not None:  # String can have {range} or {pattern} or /format
         extra += f'{{pattern="{v}"}}'
 
     if v := _vrange(opts) if tname == 'Integer' else (_frange(opts) if tname == 'Number' else _srange(opts)):
@@ -365,6 +367,9 @@ def jadn2typestr(tname: str, topts: list[OPTION_TYPES]) -> str:
 
     if opts.pop('sequence', None):
         extra += ' sequence'
+
+    if opts.pop('extend', None):
+        extra += ' extend'
     return f"{tname}{extra}{f' ?{str(map(str, opts))}?' if opts else ''}"  # Flag unrecognized options
 
 
-- 
2.43.0


From 81e1b5bfea31b19ba506c5a0418f69eee2e165fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:28 +0000
Subject: [PATCH 25/53] fix: field definitions keep tag id 0, and both key and
 link

---
 distribution/src/jadn/core.py  | 2 +-
 distribution/src/jadn/utils.py | 9 +++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/distribution/src/jadn/core.py b/distribution/src/jadn/core.py
index d9ed5c5..15b1227 100644
--- a/distribution/src/jadn/core.py
+++ b/distribution/src/jadn/core.py
@@ -133,7 +133,7 @@ def check(schema: dict) -> dict:
                 if minc < 0 or maxc < 0 or (0 < maxc < minc):
                     raise_error(f'{type_def.TypeName}/{field.FieldName} bad multiplicity {minc} {maxc}')
 
-                if tf := fo.get('tagid', None):
+                if (tf := fo.get('tagid', None)) is not None:
                     if tf not in {f[FieldID] for f in fields}:
                         raise_error(f'{type_def.TypeName}/{field.FieldName}({field.FieldType}) choice has bad external tag {tf}')
                 if is_builtin(field.FieldType):
diff --git a/distribution/src/jadn/utils.py b/distribution/src/jadn/utils.py
index b583bf8..eca28aa 100644
--- a/distribution/src/jadn/utils.py
+++ b/distribution/src/jadn/utils.py
@@ -399,11 +399,12 @@ def jadn2fielddef(fdef: list, tdef: list) -> tuple[str, str, str, str]:
         fo, fto = ftopts_s2d(fdef[FieldOptions])
         fname += '/' if 'dir' in fo else ''
         tf = ''
-        if tagid := fo.get('tagid', None):
+        if (tagid := fo.get('tagid', None)) is not None:
             tf = [f[FieldName] for f in tdef[Fields] if f[FieldID] == tagid][0]
             tf = f'(TagId[{tf if tf else tagid}])'
         ft = jadn2typestr(f'{fdef[FieldType]}{tf}', opts_d2s(fto))
-        ftyperef = f'Key({ft})' if 'key' in fo else f'Link({ft})' if 'link' in fo else ft
+        ft = f'Link({ft})' if 'link' in fo else ft
+        ftyperef = f'Key({ft})' if 'key' in fo else ft
         fmult = multiplicity_str(fo)
     return fname, ftyperef, fmult, fdesc
 
@@ -412,8 +413,8 @@ def fielddef2jadn(fid: int, fname: str, fstr: str, fmult: str, fdesc: str) -> li
     ftyperef = ''
     fo = {}
     if fstr:
-        if m := re.match(r'^(Link|Key)\((.*)\)$', fstr):
-            fo = {m.group(1).lower(): True}
+        while m := re.match(r'(?s)^(Link|Key)\((?!TagId\[)(.*)\)$', fstr):
+            fo.update({m.group(1).lower(): True})
             fstr = m.group(2)
         ftyperef, topts, fopts = typestr2jadn(fstr)
         # Field is one of: enum.id, enum, field.id, field
-- 
2.43.0


From accb49623867f83fd16a24237095d105a9400db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:09 +0000
Subject: [PATCH 26/53] fix: JIDL comments, optional fields, id-typed dir
 fields, items starting with = and the last type's tags

---
 distribution/src/jadn/convert/html.py |  2 ++
 distribution/src/jadn/convert/jidl.py | 21 +++++++++++++--------
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/distribution/src/jadn/convert/html.py b/distribution/src/jadn/convert/html.py
index 6079f49..26a5aa1 100644
--- a/distribution/src/jadn/convert/html.py
+++ b/distribution/src/jadn/convert/html.py
@@ -171,6 +171,8 @@ def html_loads(hdoc: str) -> dict:
             elif t == 'T':
                 types.append(v)
                 fields = types[-1][Fields]
+    if fields:
+        cleanup_tagid(fields)
     return check({'info': meta, 'types': types} if meta else {'types': types})
 
 
diff --git a/distribution/src/jadn/convert/jidl.py b/distribution/src/jadn/convert/jidl.py
index 36a9c38..487c8d6 100644
--- a/distribution/src/jadn/convert/jidl.py
+++ b/distribution/src/jadn/convert/jidl.py
@@ -12,15 +12,16 @@ from ..utils import (fielddef2jadn, jadn2fielddef, jadn2typestr, typestr2jadn,
 from ..core import check
 
 # JIDL -> JADN Type regexes
-p_tname = r'\s*(\S+)'                   # Type Name
+p_tname = r'\s*(?!\d)(\S+)'             # Type Name, not a Field ID
 p_assign = r'\s*='                      # Type assignment operator
 p_tstr = r'\s*(.*?)\s*\{?'              # Type definition
 
 # JIDL -> JADN Field regexes
 p_id = r'\s*(\d+)'  # Field ID
 p_fname = r'\s+(\S+)' # Field Name
+p_dir = r'\s*(/?)'     # No Field Name (it is in the description), only the dir option
 p_fstr = r'\s*(.*?)'  # Field definition or Enum value
-p_range = r'\s*(?:\[([.*\w]+)\]|(optional))?'  # Multiplicity
+p_range = r'(?:\s*\[([.*\w]+)\]|\s+(optional))?\s*'  # Multiplicity
 
 
 def jidl_style() -> dict:
@@ -91,12 +92,14 @@ def line2jadn(line: str, tdef: list) -> tuple[str, list]:
         if m := re.match(p_info, line):
             return 'I', [m.group(1), m.group(2)]
 
-        q = re.search(r'"(?:[^"\\]|\\.)+"', line)  # Find quoted string (String pattern option)
-        s = q.end() if q else 0
+        d = line.find(' //')
+        q = re.search(r'\{pattern="(?:[^"\\]|\\.|"(?!\}))*"\}', line)     # Find quoted string (String pattern option)
+        if q and q.start() < d:                     # Comment starts after the pattern
+            d = line.find(' //', q.end())
         desc = ''
-        if d := re.search(r' //', line[s:]):
-            desc = line[s + d.end():].strip()
-            line = line[:s + d.start()].strip()
+        if d >= 0:
+            desc = line[d + len(' //'):].strip()
+            line = line[:d].strip()
 
         p_type = fr'^{p_tname}{p_assign}{p_tstr}$'
         if m := re.match(p_type, line):
@@ -106,7 +109,7 @@ def line2jadn(line: str, tdef: list) -> tuple[str, list]:
             return 'T', newtype
 
         if tdef:        # looking for fields
-            pn = '()' if id_type(tdef) else p_fname
+            pn = p_dir if id_type(tdef) else p_fname
             if tdef[BaseType] == 'Enumerated':      # Parse Enumerated Item
                 pattern = fr'^{p_id}{p_fstr}$'
                 if m := re.match(pattern, line):
@@ -139,6 +142,8 @@ def jidl_loads(doc: str) -> dict:
             elif t == 'T':
                 types.append(v)
                 fields = types[-1][Fields]
+    if fields:
+        cleanup_tagid(fields)
     return check({'info': info, 'types': types} if info else {'types': types})
 
 
-- 
2.43.0


From 603bd82ac30e581d99c2de7f54275fee54d8690b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:12 +0000
Subject: [PATCH 27/53] fix: keep descriptions that start with // and labels
 that contain a colon

---
 distribution/src/jadn/convert/html.py | 6 +-----
 distribution/src/jadn/utils.py        | 5 ++---
 2 files changed, 3 insertions(+), 8 deletions(-)

diff --git a/distribution/src/jadn/convert/html.py b/distribution/src/jadn/convert/html.py
index 26a5aa1..fc72a3c 100644
--- a/distribution/src/jadn/convert/html.py
+++ b/distribution/src/jadn/convert/html.py
@@ -1,4 +1,3 @@
-import re
 import json
 
 from datetime import datetime
@@ -125,10 +124,7 @@ def line2jadn(lt: dict, tdef) -> Tuple[str, list]:
     if 'jTname' in lt:
         btype, topts, fo = typestr2jadn(lt['jTstr'])
         assert fo == []                     # field options MUST not be included in typedefs
-        tdesc = default(lt.get('jTdesc', ''), '')
-        if tdesc:
-            m = re.match(r'^(?:\s*\/\/)?\s*(.*)$', tdesc)
-            tdesc = m.group(1)
+        tdesc = default(lt.get('jTdesc', ''), '').lstrip()
         return 'T', [lt['jTname'], btype, topts, tdesc, []]
     if 'jFid' in lt:
         fname = default(lt.get('jFname', ''), '')
diff --git a/distribution/src/jadn/utils.py b/distribution/src/jadn/utils.py
index eca28aa..a81a8e1 100644
--- a/distribution/src/jadn/utils.py
+++ b/distribution/src/jadn/utils.py
@@ -437,10 +437,9 @@ def fielddef2jadn(fid: int, fname: str, fstr: str, fmult: str, fdesc: str) -> li
             assert len(fopts) == 1 and fopts[0][0] == OPTION_ID['tagid']    # Update if additional field options defined
             fo.update({'tagid': fopts[0][1:]})      # if field name, MUST update to id after all fields have been read
     if fdesc:
-        m = re.match(r'^(?:\s*\/\/)?\s*(.*)$', fdesc)
-        fdesc = m.group(1)
+        fdesc = fdesc.lstrip()
         if not fname:
-            if m := re.match(r'^([^:]+)::\s*(.*)$', fdesc):
+            if m := re.match(r'^(.+?)::\s*(.*)$', fdesc):
                 fname = m.group(1)
                 fdesc = m.group(2)
     return [fid, fname, ftyperef, opts_d2s(fo), fdesc] if ftyperef else [fid, fname, fdesc]
-- 
2.43.0


From 1be56d8ed90e7a42d124cd8954f2065cd7082164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:45 +0000
Subject: [PATCH 28/53] fix: check rejects unknown combinations, empty formats
 and negative sizes, and no item description

---
 distribution/src/jadn/core.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/core.py b/distribution/src/jadn/core.py
index 15b1227..e14fb47 100644
--- a/distribution/src/jadn/core.py
+++ b/distribution/src/jadn/core.py
@@ -39,15 +39,19 @@ def check_typeopts(type_name: str, base_type: str, topts: dict) -> None:
         raise_error(f'Bad value range {type_name} ({base_type}): [{topts["minv"]}..{topts["maxv"]}]')
     if 'maxf' in topts and 'minf' in topts and topts['maxf'] < topts['minf']:
         raise_error(f'Bad value range {type_name} ({base_type}): [{topts["minf"]}..{topts["maxf"]}]')
+    if base_type != 'Integer' and (topts.get('minv', 0) < 0 or topts.get('maxv', 0) < 0):
+        raise_error(f'Negative size {type_name} ({base_type}): [{topts.get("minv", "*")}..{topts.get("maxv", "*")}]')
     if ('minv' in topts or 'maxv' in topts) and 'pattern' in topts:
         raise_error(f'String cannot have both pattern and size constraints: {type_name}')  # disable for debugging
 
     # TODO: if format defines array, add minv/maxv (prevents adding default max)
-    if fmt := topts.get('format'):
+    if (fmt := topts.get('format')) is not None:
         if fmt not in VALID_FORMATS or base_type != VALID_FORMATS[fmt]:
             raise_error(f'Unsupported format {fmt} in {type_name} {base_type}')
     if 'enum' in topts and 'pointer' in topts:
         raise_error(f'Type cannot be both Enum and Pointer {type_name} {base_type}')
+    if topts.get('combine', 'O') not in ('A', 'O', 'X'):
+        raise_error(f'Unsupported combination {topts["combine"]} in {type_name} {base_type}')
     if 'and' in topts and 'or' in topts:
         raise_error(f'Unsupported union+intersection in {type_name} {base_type}')
 
@@ -93,7 +97,7 @@ def check(schema: dict) -> dict:
         if ('enum' in type_opts or 'pointer' in type_opts) and fields:
             raise_error(f'{type_def.TypeName}({type_def.BaseType}) should not have defined fields with the option enum/pointer')
         # Invalid anonymous field types
-        for fd in fields:
+        for fd in fields if type_def.BaseType != 'Enumerated' else []:
             if has_fields(fd[FieldType]):
                 raise_error(f'{type_def[TypeName]}/{fd[FieldName]}({fd[FieldID]}): Invalid type "{fd[FieldType]}"')
 
-- 
2.43.0


From 761b6d7c66a0f3c88f81c3151fbe8a54a32be74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:56 +0000
Subject: [PATCH 29/53] fix: option and information item order does not depend
 on set iteration order

---
 distribution/src/jadn/convert/html.py     | 2 +-
 distribution/src/jadn/convert/jas_w.py    | 2 +-
 distribution/src/jadn/convert/jidl.py     | 2 +-
 distribution/src/jadn/convert/markdown.py | 2 +-
 distribution/src/jadn/convert/proto.py    | 2 +-
 distribution/src/jadn/utils.py            | 4 ++--
 6 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/distribution/src/jadn/convert/html.py b/distribution/src/jadn/convert/html.py
index fc72a3c..343845a 100644
--- a/distribution/src/jadn/convert/html.py
+++ b/distribution/src/jadn/convert/html.py
@@ -65,7 +65,7 @@ def html_dumps(schema: dict) -> str:
         if info := schema.get('info', None):
             with tag('div', klass='tBody'):
                 mlist = [k for k in INFO_ORDER if k in info]
-                for k in mlist + list({*info} - {*mlist}):
+                for k in mlist + [k for k in info if k not in mlist]:
                     with tag('div', klass='tRow'):
                         tag('div', f'{k}:', klass='tCell jKey')
                         tag('div', json.dumps(info[k]), klass='tCell jVal')
diff --git a/distribution/src/jadn/convert/jas_w.py b/distribution/src/jadn/convert/jas_w.py
index 61f8006..ea29a06 100644
--- a/distribution/src/jadn/convert/jas_w.py
+++ b/distribution/src/jadn/convert/jas_w.py
@@ -48,7 +48,7 @@ def jas_dumps(schema: dict) -> str:
     if info := schema.get('info'):
         jas += '/*\n'
         mlist = [k for k in INFO_ORDER if k in info]
-        for h in mlist + list(set(info) - set(mlist)):
+        for h in mlist + [k for k in info if k not in mlist]:
             if h == 'description':
                 jas += fill(info[h], width=80, initial_indent='{0:14} '.format(h+':'), subsequent_indent=15*' ') + '\n'
             elif h == 'imports':
diff --git a/distribution/src/jadn/convert/jidl.py b/distribution/src/jadn/convert/jidl.py
index 487c8d6..f2c70dc 100644
--- a/distribution/src/jadn/convert/jidl.py
+++ b/distribution/src/jadn/convert/jidl.py
@@ -52,7 +52,7 @@ def jidl_dumps(schema: dict, style: dict = None) -> str:
     text = ''
     info = schema['info'] if 'info' in schema else {}
     mlist = [k for k in INFO_ORDER if k in info]
-    for k in mlist + list(set(info) - set(mlist)):              # Display info elements in fixed order
+    for k in mlist + [k for k in info if k not in mlist]:              # Display info elements in fixed order
         text += f'{k:>{w["info"]}}: {json.dumps(info[k])}\n'    # TODO: wrap to page width, continuation-line parser
 
     wt = w['desc'] if w['desc'] else w['id'] + w['name'] + w['type']
diff --git a/distribution/src/jadn/convert/markdown.py b/distribution/src/jadn/convert/markdown.py
index 4958bd1..9ad743a 100644
--- a/distribution/src/jadn/convert/markdown.py
+++ b/distribution/src/jadn/convert/markdown.py
@@ -46,7 +46,7 @@ def markdown_dumps(schema: dict, style: dict = None) -> str:
     text = ''
     info = schema['info'] if 'info' in schema else {}
     mlist = [k for k in INFO_ORDER if k in info]
-    for k in mlist + list(set(info) - set(mlist)):      # Display info elements in fixed order
+    for k in mlist + [k for k in info if k not in mlist]:      # Display info elements in fixed order
         text += f'{k:>14}: {json.dumps(info[k])}\n'     # TODO: wrap to width, continuation-line parser
 
     for td in schema['types']:
diff --git a/distribution/src/jadn/convert/proto.py b/distribution/src/jadn/convert/proto.py
index 6f13385..181f501 100644
--- a/distribution/src/jadn/convert/proto.py
+++ b/distribution/src/jadn/convert/proto.py
@@ -60,7 +60,7 @@ def proto_dumps(schema: dict, style: dict = None) -> str:
     text = 'syntax = "proto3";\n'
     info = schema['info'] if 'info' in schema else {}
     mlist = [k for k in INFO_ORDER if k in info]
-    for k in mlist + list(set(info) - set(mlist)):              # Display info elements in fixed order
+    for k in mlist + [k for k in info if k not in mlist]:              # Display info elements in fixed order
         if k == 'package':
             text += f'package {uri_to_revid(info[k])};\n'
         else:
diff --git a/distribution/src/jadn/utils.py b/distribution/src/jadn/utils.py
index a81a8e1..fdd3faa 100644
--- a/distribution/src/jadn/utils.py
+++ b/distribution/src/jadn/utils.py
@@ -152,8 +152,8 @@ def topts_s2d(olist: Union[list[OPTION_TYPES], tuple[OPTION_TYPES, ...]], frange
     Convert list of type definition option strings to options dictionary
     """
     assert isinstance(olist, (list, tuple)), f'{olist} is not a list'
-    topts = {o for o in olist if ord(o[0]) in TYPE_OPTIONS}
-    if uopts := {*olist} - topts:
+    topts = [o for o in olist if ord(o[0]) in TYPE_OPTIONS]
+    if uopts := [o for o in olist if o not in topts]:
         raise_error(f"Unknown type options: {','.join(uopts)}")
     opts = {}
     for o in topts:
-- 
2.43.0


From d946e64172103ae473a8c8f12166a5aefe9cbb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:15 +0000
Subject: [PATCH 30/53] fix: analyze lists types in a fixed order

---
 distribution/src/jadn/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/core.py b/distribution/src/jadn/core.py
index e14fb47..565b0d4 100644
--- a/distribution/src/jadn/core.py
+++ b/distribution/src/jadn/core.py
@@ -161,8 +161,8 @@ def analyze(schema: dict) -> dict:
     dep_refs = {v for d in items for v in items[d]}
     refs = set(dep_refs) | set(roots)
     return {
-        'unreferenced': list(defs - refs),
-        'undefined': list(refs - defs),
+        'unreferenced': sorted(defs - refs),
+        'undefined': sorted(refs - defs),
         'cycles': [],
     }
 
-- 
2.43.0


From afdf3608fc0d3c6399e6fe62ef91f29b3cb8de60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:24 +0000
Subject: [PATCH 31/53] fix: check accepted objects and text in place of type
 definitions

---
 distribution/src/jadn/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/distribution/src/jadn/core.py b/distribution/src/jadn/core.py
index 565b0d4..aa5ef6d 100644
--- a/distribution/src/jadn/core.py
+++ b/distribution/src/jadn/core.py
@@ -63,6 +63,9 @@ def check(schema: dict) -> dict:
     Validate JADN schema against JADN meta-schema, then
     Perform additional checks on type definitions
     """
+    if not isinstance(schema['types'], (list, tuple)) or any(isinstance(t, (str, dict)) for t in schema['types']):
+        raise_error('Types must be a list of type definitions')
+
     # Add empty Fields if not present
     schema_types = [TypeDefinition(*t) for t in schema['types']]
     schema['types'] = [list(t) for t in schema_types]
-- 
2.43.0


From 5312c0663c36ee206091af93221dcb62b78c955a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:19 +0000
Subject: [PATCH 32/53] fix: unfold a link to a type whose key is itself a
 link, or the derived key of a MapOf

---
 distribution/src/jadn/transform/transform.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/distribution/src/jadn/transform/transform.py b/distribution/src/jadn/transform/transform.py
index 225ad5c..92db885 100644
--- a/distribution/src/jadn/transform/transform.py
+++ b/distribution/src/jadn/transform/transform.py
@@ -25,6 +25,7 @@ def strip_comments(schema: dict, width=0) -> dict:  # Strip or truncate comments
 def unfold_link(schema: dict, sys: str) -> NoReturn:
     ltypes = []     # Types that have links
     keys = {}       # Key names for types that have keys
+    key_links = set()   # Types whose key is itself a link
     typex = {t[TypeName]: n for n, t in enumerate(schema['types'])}       # Build type index
     for tdef in list(schema['types']):
         if tdef.BaseType == 'MapOf':
@@ -33,6 +34,8 @@ def unfold_link(schema: dict, sys: str) -> NoReturn:
         if has_fields(tdef.BaseType):
             for fdef in tdef.Fields:
                 fo, fto = ftopts_s2d(fdef.FieldOptions)
+                if 'link' in fo and tdef not in ltypes:
+                    ltypes.append(tdef)
                 if 'key' in fo:
                     if (newname := fdef.FieldType) not in typex:
                         newname = f'{tdef.TypeName}{sys}{fdef.FieldName}'
@@ -40,16 +43,25 @@ def unfold_link(schema: dict, sys: str) -> NoReturn:
                         schema['types'].append(TypeDefinition(newname, fdef.FieldType, newopts, fdef.FieldDesc))
                         fdef.FieldType = newname           # Redirect field to explicit type definition
                     keys.update({tdef.TypeName: newname})
+                    if 'link' in fo:
+                        key_links.add(tdef.TypeName)
                     del_opt(fdef.FieldOptions, 'key')
-                elif 'link' in fo and tdef not in ltypes:
-                    ltypes.append(tdef)
+
+    def key_type(tname: str, path: tuple = ()) -> str:     # Type of primary key, follow keys that are links
+        if tname in path:
+            raise KeyError(tname)
+        return key_type(keys[tname], path + (tname, )) if tname in key_links else keys[tname]
+
     for tdef in ltypes:
         for fdef in tdef.Fields:
             fo, fto = ftopts_s2d(fdef.FieldOptions)
             if 'link' in fo:
                 del_opt(fdef.FieldOptions, 'link')
                 try:
-                    fdef.FieldType = keys[fdef.FieldType]
+                    fdef.FieldType = key_type(fdef.FieldType)
+                    if fdef.FieldType[0] in (OPTION_ID['enum'], OPTION_ID['pointer']):  # Key of MapOf is a derived enum
+                        fdef.FieldOptions.append(fdef.FieldType)
+                        fdef.FieldType = 'Enumerated'
                 except KeyError:
                     raise_error(f'{tdef.TypeName}/{fdef.FieldName}: "{fdef.FieldType}" has no primary key')
 
-- 
2.43.0


From 6d9aa13c90e1fba25fd77340f64fb6265b423edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:22 +0000
Subject: [PATCH 33/53] fix: type options of a field with multiplicity apply to
 its elements; distinct names for derived enumerations with and without id

---
 distribution/src/jadn/transform/transform.py | 32 +++++++++++++-------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/distribution/src/jadn/transform/transform.py b/distribution/src/jadn/transform/transform.py
index 92db885..f2fe88e 100644
--- a/distribution/src/jadn/transform/transform.py
+++ b/distribution/src/jadn/transform/transform.py
@@ -77,7 +77,19 @@ def epname(topts: List[OPTION_TYPES], sys: str) -> Union[str, None]:
     if x is None:
         return None
     oname = 'Enum' if topts[x][0] == OPTION_ID['enum'] else 'Pointer'
-    return f"{topts[x][1:]}{sys}{oname}{'-Id' if get_optx(topts, 'id') else ''}"
+    return f"{topts[x][1:]}{sys}{oname}{'-Id' if get_optx(topts, 'id') is not None else ''}"
+
+
+# Move type options of a field to an explicit type definition, return its name
+def make_type(schema: dict, tdef: TypeDefinition, fdef: GenFieldDefinition, opts: List[str], sys: str) -> str:
+    newopts = [fdef.FieldOptions.pop(get_optx(fdef.FieldOptions, o)) for o in opts]
+    name = epname(newopts, sys)              # If enum/pointer option, use derived enum typename
+    newname = name if name else f'{tdef.TypeName}{sys}{fdef.FieldName}'
+    if newname not in [t.TypeName for t in schema['types']]:
+        newtype = 'Enumerated' if epx(newopts) is not None else fdef.FieldType
+        assert is_builtin(newtype), f'{newname} ({newtype})'   # Don't create a bad type definition
+        schema['types'].append(TypeDefinition(newname, newtype, newopts, fdef.FieldDesc))
+    return newname
 
 
 # Replace field multiplicity with explicit ArrayOf type definitions
@@ -88,6 +100,11 @@ def unfold_multiplicity(schema: dict, sys: str) -> NoReturn:
                 fo, fto = ftopts_s2d(fdef.FieldOptions)
                 if 'maxc' in fo and fo['maxc'] != 1:
                     minc = fo.get('minc', 1)
+                    if eopts := [o for o in fto if o != 'unique']:      # Other type options apply to the elements
+                        fdef.FieldType = make_type(schema, tdef, fdef, eopts, sys)
+                    newname = f'{tdef.TypeName}{sys}{fdef.FieldName}'
+                    if newname in [t.TypeName for t in schema['types']]:    # Name is used by the element type
+                        newname = f'{newname}{sys}List'
                     newopts = {
                         'vtype': fdef.FieldType,
                         'minv': max(minc, 1),  # Don't allow empty ArrayOf
@@ -95,7 +112,7 @@ def unfold_multiplicity(schema: dict, sys: str) -> NoReturn:
                         **({'unique': True} if 'unique' in fto else {})  # Move unique option to ArrayOf
                     }
                     # Point existing field to new ArrayOf
-                    fdef.FieldType = f'{tdef.TypeName}{sys}{fdef.FieldName}'
+                    fdef.FieldType = newname
                     schema['types'].append(TypeDefinition(fdef.FieldType, 'ArrayOf', opts_d2s(newopts), fdef.FieldDesc))
                     # Remove unused FieldOptions
                     del_opt(fdef.FieldOptions, 'maxc')
@@ -111,15 +128,8 @@ def unfold_anonymous_types(schema: dict, sys: str) -> NoReturn:
             for fdef in tdef.Fields:
                 # If FieldOptions contains a type option, create an explicit type
                 if fto := ftopts_s2d(fdef.FieldOptions)[1]:
-                    # Move all type options to new type
-                    newopts = [fdef.FieldOptions.pop(get_optx(fdef.FieldOptions, o)) for o in fto]
-                    name = epname(newopts, sys)              # If enum/pointer option, use derived enum typename
-                    newname = name if name else f'{tdef.TypeName}{sys}{fdef.FieldName}'
-                    if newname not in [t.TypeName for t in schema['types']]:
-                        newtype = 'Enumerated' if epx(newopts) is not None else fdef.FieldType
-                        assert is_builtin(newtype), f'{newname} ({newtype})'   # Don't create a bad type definition
-                        schema['types'].append(TypeDefinition(newname, newtype, newopts, fdef.FieldDesc))
-                    fdef.FieldType = newname           # Redirect field to explicit type definition
+                    # Move all type options to new type, redirect field to explicit type definition
+                    fdef.FieldType = make_type(schema, tdef, fdef, list(fto), sys)
 
 
 # Generate Enumerated list of fields or JSON Pointers
-- 
2.43.0


From a288d1d399a9b243334070ac5c0ac0592c59db03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:26 +0000
Subject: [PATCH 34/53] fix: derived enumerations of derived enumerations, one
 definition per derived enumeration, complete pointer paths

---
 distribution/src/jadn/transform/transform.py | 32 +++++++++++---------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/distribution/src/jadn/transform/transform.py b/distribution/src/jadn/transform/transform.py
index f2fe88e..169f858 100644
--- a/distribution/src/jadn/transform/transform.py
+++ b/distribution/src/jadn/transform/transform.py
@@ -145,38 +145,40 @@ def unfold_derived_enum(schema: dict, sys: str) -> NoReturn:
                 else:                   # Make new Enumerated type
                     make_items = enum_items if opts[n][1:2] == OPTION_ID['enum'] else pointer_items
                     opts[n] = f'{opts[n][:1]}{name}'
-                    schema['types'].append(TypeDefinition(name, 'Enumerated', [], '', [EnumFieldDefinition(*f) for f in make_items(name.rsplit(sys, maxsplit=1)[0])]))
+                    schema['types'].append(TypeDefinition(name, 'Enumerated', [], '', make_items(name.rsplit(sys, maxsplit=1)[0])))
+                    enums.update({name: name})
 
-    def enum_items(rtype: str) -> list:
+    def expand_enum(tdef: TypeDefinition) -> NoReturn:  # Replace enum/pointer option with explicit items
+        to = tdef.TypeOptions
+        if rname := epname(to, sys):
+            opt = to.pop(epx(to))
+            enums.update({rname: tdef.TypeName})
+            tdef.Fields = (enum_items if opt[:1] == OPTION_ID['enum'] else pointer_items)(opt[1:])
+
+    def enum_items(rtype: str) -> List[EnumFieldDefinition]:
         tdef = schema['types'][typex[rtype]]
         if tdef.BaseType == 'Enumerated':
-            return [[f.ItemID, f.ItemValue, f.ItemDesc] for f in tdef.Fields]
+            expand_enum(tdef)       # Referenced type may itself be derived
+            return [EnumFieldDefinition(f.ItemID, f.ItemValue, f.ItemDesc) for f in tdef.Fields]
         fields = tdef.Fields if has_fields(tdef.BaseType) else []
-        return [[f.FieldID, f.FieldName, f.FieldDesc] for f in fields]
+        return [EnumFieldDefinition(f.FieldID, f.FieldName, f.FieldDesc) for f in fields]
 
-    def pointer_items(rtype: str) -> list:
+    def pointer_items(rtype: str) -> List[EnumFieldDefinition]:
         def pathnames(rtype: str, base='') -> Generator[list, None, None]:  # Walk subfields of referenced type
             tdef = schema['types'][typex[rtype]]  # TODO: proper error handling for built-in or non-existing reference
             if has_fields(tdef.BaseType):
                 for f in tdef.Fields:
                     if OPTION_ID['dir'] in f.FieldOptions:
                         if f.FieldType in typex:
-                            yield from pathnames(f.FieldType, f'{f.FieldName}/')
+                            yield from pathnames(f.FieldType, f'{base}{f.FieldName}/')
                     else:
                         yield [base + f.FieldName, f.FieldDesc]
-        return [[n+1] + f for n, f in enumerate(pathnames(rtype))]
+        return [EnumFieldDefinition(n + 1, *f) for n, f in enumerate(pathnames(rtype))]
 
     enums = {}
     for tdef in list(schema['types']):  # Replace enum/pointer options in Enumerated types with explicit items
         if tdef.BaseType == 'Enumerated':
-            to = tdef.TypeOptions
-            if rname := epname(to, sys):
-                optx = get_optx(to, 'enum')
-                optx = optx if optx is not None else get_optx(to, 'pointer')
-                items = enum_items if to[optx][:1] == OPTION_ID['enum'] else pointer_items
-                tdef.Fields = items(to[optx][1:])
-                del to[optx]
-                enums.update({rname: tdef.TypeName})
+            expand_enum(tdef)
 
     # Create new Enumerated enum/pointer types if they don't already exist
     for tdef in list(schema['types']):
-- 
2.43.0


From a0df48a92b2b59bf24e239c7048f8021f6d81e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:30 +0000
Subject: [PATCH 35/53] fix: a MapOf whose keys are Enumerated.ID unfolds to a
 Map with IDs as keys

---
 distribution/src/jadn/transform/transform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/distribution/src/jadn/transform/transform.py b/distribution/src/jadn/transform/transform.py
index 169f858..9806b15 100644
--- a/distribution/src/jadn/transform/transform.py
+++ b/distribution/src/jadn/transform/transform.py
@@ -196,7 +196,8 @@ def unfold_map_of_enum(schema: dict) -> NoReturn:
         to = topts_s2d(tdef.TypeOptions)
         if tdef.BaseType == 'MapOf' and to['ktype'] in enums:
             newfields = [GenFieldDefinition(f[ItemID], f[ItemValue], to['vtype'], [], f[ItemDesc]) for f in enums[to['ktype']][Fields]]
-            schema['types'][n] = TypeDefinition(tdef.TypeName, 'Map', [], tdef.TypeDesc, newfields)
+            newopts = [OPTION_ID['id']] if get_optx(enums[to['ktype']].TypeOptions, 'id') is not None else []   # Keys are IDs
+            schema['types'][n] = TypeDefinition(tdef.TypeName, 'Map', newopts, tdef.TypeDesc, newfields)
 
 
 def unfold_extensions(schema: dict, extensions: Set[str] = None) -> dict:  # Remove schema extensions
-- 
2.43.0


From 55f347a259a90fd2cc50fea762f4496ee4d29941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:32 +0000
Subject: [PATCH 36/53] fix: Markdown tables keep descriptions, vertical bars
 and line breaks in their cells

---
 distribution/src/jadn/convert/markdown.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/distribution/src/jadn/convert/markdown.py b/distribution/src/jadn/convert/markdown.py
index 9ad743a..df849e1 100644
--- a/distribution/src/jadn/convert/markdown.py
+++ b/distribution/src/jadn/convert/markdown.py
@@ -6,8 +6,8 @@ import re
 
 from datetime import datetime
 from typing import Tuple, Union
-from jadn.definitions import TypeName, BaseType, TypeOptions, TypeDesc, Fields, ItemID, FieldID, INFO_ORDER
-from jadn.utils import cleanup_tagid, get_optx, fielddef2jadn, jadn2fielddef, jadn2typestr, raise_error, typestr2jadn
+from jadn.definitions import TypeName, BaseType, TypeOptions, TypeDesc, Fields, ItemID, FieldID, FieldName, INFO_ORDER
+from jadn.utils import cleanup_tagid, get_optx, fielddef2jadn, id_type, jadn2fielddef, jadn2typestr, raise_error, typestr2jadn
 
 # MARKDOWN -> JADN Type regexes
 p_tname = r'\s*([-$\w]+)'               # Type Name
@@ -54,7 +54,7 @@ def markdown_dumps(schema: dict, style: dict = None) -> str:
             tdef = f'{td[TypeName]} ({jadn2typestr(td[BaseType], td[TypeOptions])})'
             tdesc = f'\n{td[TypeDesc]}\n' if td[TypeDesc] else ''
             text += f'{tdesc}\n**Type: ' + tdef.replace("*", "\*") + '**\n'
-            idt = td[BaseType] == 'Array' or get_optx(td[TypeOptions], 'id') is not None
+            idt = id_type(td)
             table_type = (0 if td[BaseType] == 'Enumerated' else 2) + (0 if idt else 1)
             table = [
                 [['ID', 'Description']],
@@ -66,8 +66,9 @@ def markdown_dumps(schema: dict, style: dict = None) -> str:
                 fname, fdef, fmult, fdesc = jadn2fielddef(fd, td)
                 fdef = fdef.replace('*', '\*')
                 fmult = fmult.replace('*', '\*')
-                dsc = fdesc.split('::', maxsplit=2)
-                fdesc = f'**{dsc[0]}** - {dsc[1].strip()}' if len(dsc) == 2 else fdesc
+                if idt:     # Name is a label in the description
+                    name = fd[FieldName]
+                    fdesc = f'**{name}** - {fdesc[len(name) + 2:].strip()}'
                 if table_type == 0:
                     table.append([str(fd[ItemID]), fdesc])
                 elif table_type == 1:
@@ -83,7 +84,13 @@ def markdown_dumps(schema: dict, style: dict = None) -> str:
     return text
 
 
+def table_cell(text: str) -> str:
+    # Vertical bars and line breaks would end the cell
+    return text.replace('|', '&#124;').replace('\n', ' ').replace('\r', ' ')
+
+
 def format_table(rows: list) -> str:
+    rows = [[table_cell(data) for data in row] for row in rows]
     cwidth = [len(data.strip()) for data in rows[0]]
     for row in rows[1:]:
         for c in range(len(row)):
-- 
2.43.0


From 257ddda8c932fd04137ae9133d0fe78c0506fcb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:09 +0000
Subject: [PATCH 37/53] fix: diagram labels and comments are well-formed for
 any type text, field name and package information

---
 distribution/src/jadn/convert/diagram_w.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/distribution/src/jadn/convert/diagram_w.py b/distribution/src/jadn/convert/diagram_w.py
index 9ba2b80..32a0d63 100644
--- a/distribution/src/jadn/convert/diagram_w.py
+++ b/distribution/src/jadn/convert/diagram_w.py
@@ -6,6 +6,7 @@ style[format] =
 """
 
 import re
+from html import escape
 from datetime import datetime
 from ..definitions import (TypeName, BaseType, TypeOptions, PRIMITIVE_TYPES,
                            Fields, FieldID, FieldName, FieldType, FieldOptions)
@@ -44,6 +45,15 @@ def diagram_dumps(schema: dict, style: dict = {}) -> str:
     """
     Convert JADN schema to Entity Relationship Diagram source file
     """
+    def quoted(label: str) -> str:
+        """
+        Return text that has no special meaning within a node label in selected diagram format
+        """
+        return {
+            'graphviz': escape(label, quote=False),
+            'plantuml': label.replace('"', '<U+0022>')
+        }[s['format']]
+
     def node_leaf(td, bt) -> str:
         """
         Return Leaf Type Definition in selected diagram format
@@ -86,7 +96,7 @@ def diagram_dumps(schema: dict, style: dict = {}) -> str:
             fval = f'{fd[FieldID]} {fname}' + ('' if td[BaseType] == 'Enumerated' else f' : {fl}{fdef}')
         return {
             'plantuml': f'  n{nodes[td[TypeName]]} : {fval}\n',
-            'graphviz': f'  <tr><td align="left">  {fval}  </td></tr>\n'
+            'graphviz': f'  <tr><td align="left">  {quoted(fval)}  </td></tr>\n'
         }[s['format']]
 
     def node_end() -> str:
@@ -131,7 +141,7 @@ def diagram_dumps(schema: dict, style: dict = {}) -> str:
                 mult = f'"{mult_r}" {rel}> "{mult_f}"' if s['edge_mult'] else f'{rel}>'
                 return f'  n{nodes[td[TypeName]]} {mult} n{nodes[fieldtype]}{elabel}\n'
             elif s['format'] == 'graphviz':
-                edge = [f'label={ename(fd[FieldName])}'] if s['edge_label'] else []
+                edge = [f'label="{ename(fd[FieldName])}"'] if s['edge_label'] else []
                 edge += ['style="dashed"'] if 'link' in fopts else []
                 edge += [f'headlabel="{mult_f}", taillabel="{mult_r}"'] if s['edge_mult'] else []
                 edge_label = f' [{", ".join(edge)}]' if edge else ''
@@ -159,7 +169,7 @@ def diagram_dumps(schema: dict, style: dict = {}) -> str:
 
     text = ''
     for k, v in schema.get('info', {}).items():
-        text += f"{fmt['comment']} {k}: {v}\n"
+        text += ''.join(f"{fmt['comment']} {line}\n" for line in f'{k}: {v}'.splitlines())
     text += f"\n{fmt['start']}\n  " + '\n  '.join(fmt['header']) + '\n\n'
 
     hide_types = [] if s['attributes'] else (*PRIMITIVE_TYPES, 'Enumerated')
@@ -167,7 +177,7 @@ def diagram_dumps(schema: dict, style: dict = {}) -> str:
     edges = ''
     for td in schema['types']:
         if (td[TypeName]) in nodes:
-            bt = f' : {jadn2typestr(td[BaseType], td[TypeOptions])}' if s['detail'] == 'information' else ''
+            bt = f' : {quoted(jadn2typestr(td[BaseType], td[TypeOptions]))}' if s['detail'] == 'information' else ''
             if td[BaseType] in PRIMITIVE_TYPES:
                 text += node_leaf(td, bt)
             else:
@@ -183,7 +193,8 @@ def diagram_dumps(schema: dict, style: dict = {}) -> str:
 def diagram_dump(schema: dict, fname: str, source: str = '', style: dict = {}) -> None:
     with open(fname, 'w') as f:
         if source:
-            f.write(f'\' Generated from {source}, {datetime.ctime(datetime.now())}"\n\n')
+            comment = '#' if style.get('format') == 'graphviz' else "'"
+            f.write(f'{comment} Generated from {source}, {datetime.ctime(datetime.now())}"\n\n')
         f.write(diagram_dumps(schema, style) + '\n')
 
 
-- 
2.43.0


From e486b9aed181f03a1e8ea467ba73663113275924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:12 +0000
Subject: [PATCH 38/53] fix: diagrams show the key type of an anonymous MapOf
 field

---
 distribution/src/jadn/convert/diagram_w.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/distribution/src/jadn/convert/diagram_w.py b/distribution/src/jadn/convert/diagram_w.py
index 32a0d63..52c17ef 100644
--- a/distribution/src/jadn/convert/diagram_w.py
+++ b/distribution/src/jadn/convert/diagram_w.py
@@ -123,15 +123,23 @@ def diagram_dumps(schema: dict, style: dict = {}) -> str:
         """
         Return graph edges from fields in selected diagram format
         """
+        # nodes and s are available in caller scope
+        if td[BaseType] == 'Enumerated':
+            return ''
+        fopts, ftopts = ftopts_s2d(fd[FieldOptions])
+        if fd[FieldType] == 'MapOf':    # Refers to the key type as well as the value type
+            return ''.join(edge_ref(td, fd, fopts, ftopts[k]) for k in ('ktype', 'vtype'))
+        return edge_ref(td, fd, fopts, ftopts['vtype'] if fd[FieldType] == 'ArrayOf' else fd[FieldType])
+
+    def edge_ref(td, fd, fopts, fieldtype) -> str:
+        """
+        Return graph edge from a field to the type it refers to
+        """
         # Normalize edge label for diagram format
         def ename(edge_label: str) -> str:
             return edge_label.replace('-', '_')
 
         # nodes and s are available in caller scope
-        if td[BaseType] == 'Enumerated':
-            return ''
-        fopts, ftopts = ftopts_s2d(fd[FieldOptions])
-        fieldtype = ftopts['vtype'] if fd[FieldType] in {'ArrayOf', 'MapOf'} else fd[FieldType]
         if fieldtype in nodes:
             mult_f = multiplicity_str(fopts)
             mult_r = '1'
-- 
2.43.0


From e3c7fb30046ddf0cd0f3c836c4239f4df0d6a652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:15 +0000
Subject: [PATCH 39/53] fix: diagrams honour the links and link_horizontal
 style options

---
 distribution/src/jadn/convert/diagram_w.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/convert/diagram_w.py b/distribution/src/jadn/convert/diagram_w.py
index 52c17ef..69f53d3 100644
--- a/distribution/src/jadn/convert/diagram_w.py
+++ b/distribution/src/jadn/convert/diagram_w.py
@@ -140,11 +140,11 @@ def diagram_dumps(schema: dict, style: dict = {}) -> str:
             return edge_label.replace('-', '_')
 
         # nodes and s are available in caller scope
-        if fieldtype in nodes:
+        if fieldtype in nodes and ('link' not in fopts or s['links']):
             mult_f = multiplicity_str(fopts)
             mult_r = '1'
             if s['format'] == 'plantuml':
-                rel = ('.' if 'link_horizontal' in s else '..') if 'link' in fopts else '--'
+                rel = ('.' if s['link_horizontal'] else '..') if 'link' in fopts else '--'
                 elabel = ' : ' + fd[FieldName] if s['edge_label'] else ''
                 mult = f'"{mult_r}" {rel}> "{mult_f}"' if s['edge_mult'] else f'{rel}>'
                 return f'  n{nodes[td[TypeName]]} {mult} n{nodes[fieldtype]}{elabel}\n'
-- 
2.43.0


From d168b24fb0e6b68b4140a58a04baa467c83e0db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:17 +0000
Subject: [PATCH 40/53] fix: resolving imports handles packages without types,
 list namespaces, roots and derived enumerations

---
 distribution/src/jadn/transform/resolve.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/distribution/src/jadn/transform/resolve.py b/distribution/src/jadn/transform/resolve.py
index 064f68b..7a91a92 100644
--- a/distribution/src/jadn/transform/resolve.py
+++ b/distribution/src/jadn/transform/resolve.py
@@ -17,7 +17,7 @@ class SchemaPackage:
     namespaces: dict                      # Copy of meta['namespaces'] or empty {}
     tx: dict[str, list]                   # Type index: {type name: type definition in schema}
     deps: dict[str, list[str]]             # Internal dependencies: {type1: {t2, t3}, type2: {t3, t4, t5}}
-    refs: dict[str, dict[str, list[str]]]  # External references {namespace1: {type1: {t2, t3}, ...}}
+    refs: dict[str, dict[str, set[str]]]   # External references {namespace1: {type1: {t2, t3}, ...}}
     used: set[str]                        # Types from this package that have been referenced {t2, t3}
 
     def __init__(self, source: Union[dict, TextIO]):     # Read schema data, get package name
@@ -33,16 +33,16 @@ class SchemaPackage:
         except KeyError:
             raise_error(f'Schema package {self.source} must have a package ID')
 
-        self.namespaces = self.schema['info']['namespaces'] if 'namespaces' in self.schema['info'] else {}
+        self.namespaces = dict(self.schema['info'].get('namespaces', {}))   # {prefix: ns} (v1.0) or [[prefix, ns]] (v1.1)
         self.clear()
 
     def load(self) -> None:     # Validate schema, build type dependencies and external references
         if hasattr(self, 'deps'):           # Ignore if already loaded
             return
-        check(self.schema)
+        self.schema = check(self.schema)    # Fill in omitted columns
         self.tx = {t[TypeName]: t for t in self.schema['types']}
         self.deps = build_deps(self.schema)
-        self.refs = defaultdict(lambda: defaultdict(list))
+        self.refs = defaultdict(lambda: defaultdict(set))
         for tn in self.deps:
             for dn in list(self.deps[tn]):     # Iterate over copy so original can be modified safely
                 if ':' in dn:
@@ -71,6 +71,8 @@ def merge_tname(tref: str, package: str, namespaces: dict[str, str], nsids: dict
     :param sys: single character system generated type delimiter
     :return: Local type name, qualified (TypeName$nsid) or unqualified (TypeName)
     """
+    if tref[:1] in (OPTION_ID['enum'], OPTION_ID['pointer']):      # Key or value type derived from an imported type
+        return tref[0] + merge_tname(tref[1:], package, namespaces, nsids, sys)
     nsid, tname = tref.split(':', maxsplit=1) if ':' in tref else ('', tref)
     ns_id = nsids[namespaces[nsid] if nsid else package][0]
     return f'{tname}{sys}{ns_id}' if ns_id and not is_builtin(tname) else tname
@@ -78,7 +80,7 @@ def merge_tname(tref: str, package: str, namespaces: dict[str, str], nsids: dict
 
 def merge_typedef(tdef: list, package: str, namespaces: dict[str, str], nsids: dict, sys: str = '$') -> list:
     # Options whose value is/has a type name
-    oids = [OPTION_ID['ktype'], OPTION_ID['vtype'], OPTION_ID['enum'], OPTION_ID['pointer'], OPTION_ID['and']]
+    oids = [OPTION_ID['ktype'], OPTION_ID['vtype'], OPTION_ID['enum'], OPTION_ID['pointer']]
 
     def update_opts(opts: list[str]) -> list[str]:
         return [f'{x[0]}{merge_tname(x[1:], package, namespaces, nsids, sys)}' if x[0] in oids else x for x in opts]
@@ -155,7 +157,8 @@ def resolve_imports(schema: dict, dirname: str, no_nsid: tuple[str, ...] = ()):
             print(f'* Duplicate package {sm.package}, Using: {packages[sm.package].source}, Ignoring: {fn}')
         for i, m in sm.namespaces.items():
             nsids[m].append('' if i in no_nsid else i)
-    resolve(root, root.schema['info']['exports'] if 'exports' in root.schema['info'] else set(), packages)
+    info = root.schema['info']
+    resolve(root, info.get('roots', info.get('exports', set())), packages)      # Exports is deprecated
 
     for t in root.used.copy():
         if t[0] in (OPTION_ID['enum'], OPTION_ID['pointer']):
-- 
2.43.0


From e816ac42f869437f2f850bbf407d0ddc6f7eeaf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:21 +0000
Subject: [PATCH 41/53] fix: resolved imports have one qualifier per package
 whatever the directory order

---
 distribution/src/jadn/transform/resolve.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/distribution/src/jadn/transform/resolve.py b/distribution/src/jadn/transform/resolve.py
index 7a91a92..20c2509 100644
--- a/distribution/src/jadn/transform/resolve.py
+++ b/distribution/src/jadn/transform/resolve.py
@@ -144,9 +144,8 @@ def resolve_imports(schema: dict, dirname: str, no_nsid: tuple[str, ...] = ()):
     #    return schema
     root = SchemaPackage(schema)
     packages = {root.package: root}
-    nsids = defaultdict(list)
 
-    for fn in (os.path.join(dirname, f) for f in os.listdir(dirname) if os.path.splitext(f)[1] in ('.jadn', '.jidl')):
+    for fn in (os.path.join(dirname, f) for f in sorted(os.listdir(dirname)) if os.path.splitext(f)[1] in ('.jadn', '.jidl')):
         with open(fn, 'r', encoding='utf-8') as fp:
             sm = SchemaPackage(fp)
         if sm.package not in packages:            # Add new package to list
@@ -155,8 +154,14 @@ def resolve_imports(schema: dict, dirname: str, no_nsid: tuple[str, ...] = ()):
             packages[sm.package].source = fn
         elif packages[sm.package].source != fn:                   # Flag multiple files with same package name
             print(f'* Duplicate package {sm.package}, Using: {packages[sm.package].source}, Ignoring: {fn}')
+
+    nsids = {root.package: ['']}    # Qualifier for the types of each package, the same qualifier is not used for two packages
+    for sm in packages.values():
         for i, m in sm.namespaces.items():
-            nsids[m].append('' if i in no_nsid else i)
+            if m not in nsids:
+                used = {n[0] for n in nsids.values()}
+                nsids[m] = ['' if i in no_nsid else next(n for n in (i, *(f'{i}{k}' for k in range(2, len(used) + 3))) if n not in used)]
+
     info = root.schema['info']
     resolve(root, info.get('roots', info.get('exports', set())), packages)      # Exports is deprecated
 
@@ -167,7 +172,6 @@ def resolve_imports(schema: dict, dirname: str, no_nsid: tuple[str, ...] = ()):
             root.used.remove(t)     # Don't need explicit type if base type is present
 
     # Copy all needed types from other packages into root
-    nsids[root.package] = ['']
     sc = {'info': {k: v for k, v in root.schema['info'].items() if k != 'namespaces'}, 'types': []}    # Remove namespaces
     for sm in [root] + [m for m in packages.values() if m.package != root.package]:
         sc['types'] += [merge_typedef(t, sm.package, sm.namespaces, nsids, sys) for t in sm.schema['types'] if t[TypeName] in sm.used]
-- 
2.43.0


From 25efe2217c56fe8203885c15d780d94806226dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:22 +0000
Subject: [PATCH 42/53] fix: JSON Schema of derived enumerations has the items
 of the derived type, in every enumeration style

---
 distribution/src/jadn/transform/transform.py  | 30 +++++++++++++------
 .../src/jadn/translate/jsonschema_w.py        | 15 ++++------
 2 files changed, 27 insertions(+), 18 deletions(-)

diff --git a/distribution/src/jadn/transform/transform.py b/distribution/src/jadn/transform/transform.py
index 9806b15..0ab2e4f 100644
--- a/distribution/src/jadn/transform/transform.py
+++ b/distribution/src/jadn/transform/transform.py
@@ -2,8 +2,8 @@ import copy
 
 from typing import Generator, List, NoReturn, Set, Union
 from ..definitions import (
-    TypeName, BaseType, TypeDesc, Fields, ItemID, ItemValue, ItemDesc, FieldName, FieldOptions, FieldDesc, OPTION_ID,
-    EXTENSIONS, OPTION_TYPES, is_builtin, has_fields, TypeDefinition, EnumFieldDefinition, GenFieldDefinition)
+    TypeName, BaseType, TypeOptions, TypeDesc, Fields, ItemID, ItemValue, ItemDesc, FieldID, FieldName, FieldType,
+    FieldOptions, FieldDesc, OPTION_ID, EXTENSIONS, OPTION_TYPES, is_builtin, has_fields, TypeDefinition, EnumFieldDefinition, GenFieldDefinition)
 from ..utils import (
     del_opt, ftopts_s2d, get_optx, list_type_schema, opts_d2s, object_type_schema, topts_s2d, etrunc, raise_error)
 
@@ -230,16 +230,28 @@ def unfold_extensions(schema: dict, extensions: Set[str] = None) -> dict:  # Rem
 
 
 def get_enum_items(tdef: list, topts: dict, types: dict) -> list:
-    def ptr(fdef: list):
-        if OPTION_ID['dir'] in fdef[FieldOptions]:
-            return f'{fdef[FieldName]}^'
-        return fdef[FieldName]
+    """
+    Return the items [ItemID, ItemValue, ItemDesc] of an Enumerated type, including those derived from another type
+    """
+    def fields(rtype: str) -> list:
+        return types[rtype][Fields] if has_fields(types[rtype][BaseType]) else []
+
+    def pointers(rtype: str, base='') -> Generator[list, None, None]:  # Walk subfields of referenced type
+        for f in fields(rtype):
+            if OPTION_ID['dir'] in f[FieldOptions]:
+                if f[FieldType] in types:
+                    yield from pointers(f[FieldType], f'{base}{f[FieldName]}/')
+            else:
+                yield [base + f[FieldName], f[FieldDesc]]
 
     if 'enum' in topts:
-        return types[topts['enum']][Fields]
+        rdef = types[topts['enum']]
+        if rdef[BaseType] == 'Enumerated':      # Referenced type may itself be derived
+            return get_enum_items(rdef, topts_s2d(rdef[TypeOptions]), types)
+        return [[f[FieldID], f[FieldName], f[FieldDesc]] for f in fields(topts['enum'])]
     if 'pointer' in topts:
-        return [(n, ptr(f), '') for n, f in enumerate(types[topts['pointer']][Fields])]
-    return tdef[Fields]
+        return [[n, *p] for n, p in enumerate(pointers(topts['pointer']), start=1)]
+    return tdef[Fields] if len(tdef) > Fields else []
 
 
 __all__ = [
diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index 959d799..2f0c61b 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -75,7 +75,7 @@ def pattern(vals: list) -> str:
     Return a regex string from a list of values
     """
 
-    return f"^({'|'.join(map(str, vals))})$"
+    return f"^({'|'.join(re.escape(str(v)) for v in vals)})$"
 
 
 # === Return JSON Schema keywords
@@ -104,11 +104,7 @@ def w_kvtype(stype: str, ctx: dict) -> dict:
     if stype in stypes:
         return {'type': stypes[stype]}
     if stype[0] in (OPTION_ID['enum'], OPTION_ID['pointer']):
-        tdef = ctx['type_defs'][stype[1:]]
-        topts = topts_s2d(tdef[TypeOptions])
-        fields = get_enum_items(tdef, topts, ctx['type_defs'])
-        idopt = 'id' in topts
-        return w_enum(fields, FieldID if idopt else FieldName, FieldDesc, idopt, ctx)
+        return t_enumerated(['', 'Enumerated', [stype], ''], topts_s2d([stype]), ctx)
     return {'$ref': f'#/definitions/{stype}'}
 
 
@@ -122,7 +118,7 @@ def w_enum(fields: list, vcol: int, dcol: int, idopt: bool, ctx: dict) -> dict:
     values = [f[vcol] for f in fields]
     es = ctx['enum_style']
     assert es in ['enum', 'const', 'regex']
-    if es == 'regex':
+    if es == 'regex' and not idopt:     # Patterns do not apply to integers
         return {'type': 'string', 'pattern': pattern(values)}
     if es == 'const':
         return {'oneOf': [{'const': f[vcol], 'description': fdesc(f, f[dcol], idopt)} for f in fields]}
@@ -234,11 +230,12 @@ def t_string(tdef: list, topts: dict, ctx: dict) -> dict:
 
 def t_enumerated(tdef: list, topts: dict, ctx: dict) -> dict:
     item, tname = (ItemID, 'integer') if 'id' in topts else (ItemValue, 'string')
+    if ':' in topts.get('enum', topts.get('pointer', '')):      # Items of an imported type are not known
+        return w_td(tname, tdef[TypeDesc])
     fields = get_enum_items(tdef, topts, ctx['type_defs'])
-    dcol = FieldDesc if 'enum' in topts or 'pointer' in topts else ItemDesc
     return dmerge(
         w_td(tname, tdef[TypeDesc]),
-        w_enum(fields, item, dcol, 'id' in topts, ctx)
+        w_enum(fields, item, ItemDesc, 'id' in topts, ctx)
     )
 
 
-- 
2.43.0


From 7be446705d73426b6e4965a46774e3e1d36ff7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:24 +0000
Subject: [PATCH 43/53] fix: JSON Schema references to imported types, built-in
 key and value types and roots resolve

---
 .../src/jadn/translate/jsonschema_w.py        | 21 ++++++++-----------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index 2f0c61b..e2b3f4f 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -100,12 +100,11 @@ def w_kvtype(stype: str, ctx: dict) -> dict:
     """
     Make definition from ktype or vtype option
     """
-    stypes = {'Boolean': 'boolean', 'Integer': 'integer', 'Number': 'number', 'String': 'string'}
-    if stype in stypes:
-        return {'type': stypes[stype]}
+    if is_builtin(stype):
+        return w_type(['', stype, [], ''], {}, ctx)
     if stype[0] in (OPTION_ID['enum'], OPTION_ID['pointer']):
         return t_enumerated(['', 'Enumerated', [stype], ''], topts_s2d([stype]), ctx)
-    return {'$ref': f'#/definitions/{stype}'}
+    return w_ref(stype, ctx)
 
 
 def w_enum(fields: list, vcol: int, dcol: int, idopt: bool, ctx: dict) -> dict:
@@ -142,8 +141,8 @@ def w_ref(tname: str, ctx: dict) -> dict:
     nsid, tn = tname.split(':', maxsplit=1) if ':' in tname else [None, tname]
     assert not is_builtin(tn)
     if nsid:
-        imp = {'$ref': f"{ctx['info_imps'][nsid]}/definitions/{tn}"} if ctx['import_style'] == 'ref' and ctx['info_imps'] is not None else {}
-        ctx['imported_types'][nsid].update({tn: imp})
+        imp = {'$ref': f"{ctx['namespaces'][nsid]}#/definitions/{tn}"} if ctx['import_style'] == 'ref' and nsid in ctx['namespaces'] else {}
+        ctx['imported_types'].setdefault(nsid, {}).update({tn: imp})
         return {'$ref': f'#/imports/{nsid}/{tn}'}
     return {'$ref': f'#/definitions/{tn}'}
 
@@ -395,11 +394,9 @@ def json_schema_dumps(schema: dict, verbose=True, enum_style='enum', import_styl
 
     info = schema.get('info', {})
     td = {t[TypeName]: t for t in schema['types']}    # Build index of type definitions
-    exports = [e for e in info.get('exports', []) if e in td]
-    if isinstance(ns := info.get('namespaces', {}), dict):
-        imported_types = {k: {} for k in ns}
-    elif isinstance(ns, list):
-        imported_types = {k[0]: {} for k in ns}
+    exports = [e for e in info.get('roots', info.get('exports', [])) if e in td]    # Exports is deprecated
+    namespaces = dict(info.get('namespaces', {}))       # {prefix: namespace} or [[prefix, namespace], ...]
+    imported_types = {k: {} for k in namespaces}
     ctx = {  # Translation context
         'config': get_config(info),
         'type_defs': td,
@@ -407,7 +404,7 @@ def json_schema_dumps(schema: dict, verbose=True, enum_style='enum', import_styl
         'enum_style': enum_style,
         'imported_types': imported_types,
         'import_style': import_style,
-        'info_imps': info['imports'] if 'imports' in info else None
+        'namespaces': namespaces
     }
 
     def tt(tdef: list, ctx: dict):  # Return type definition with title
-- 
2.43.0


From d541639c88109aac4edd09ab9eff5037de0d5243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:26 +0000
Subject: [PATCH 44/53] fix: JSON Schema of MapOf describes its keys and values

---
 .../src/jadn/translate/jsonschema_w.py        | 78 ++++++-------------
 1 file changed, 23 insertions(+), 55 deletions(-)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index e2b3f4f..b3e7b8a 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -41,19 +41,14 @@ CONFIG_MAX = {
 
 
 # Util Functions
-def get_items(stype: str, ctx: dict) -> Optional[list]:  # pylint: disable=R1710
+def has_text_keys(stype: str, ctx: dict) -> bool:
     """
-    return enumerated items if stype is Enumerated
+    Return True if values of stype, as keys of a MapOf, are text: String or the names of enumerated items
     """
-    td = ctx['type_defs']
-    et = stype[1:] if stype[0] == OPTION_ID['enum'] else stype
-    if et in td and td[et][BaseType] == 'Enumerated':
-        to = topts_s2d(td[et][TypeOptions])
-        et = to['enum'] if 'enum' in to else et
-
-    to = topts_s2d(td[et][TypeOptions])
-    if et in td and td[et][BaseType] in ('Enumerated', 'Array', 'Choice', 'Map', 'Record') and 'id' not in to:
-        return [f[ItemValue] for f in td[et][Fields]]
+    if stype[0] in (OPTION_ID['enum'], OPTION_ID['pointer']):
+        return True
+    td = ctx['type_defs'].get(stype, ['', stype, []])
+    return td[BaseType] in ('Binary', 'String') or (td[BaseType] == 'Enumerated' and 'id' not in topts_s2d(td[TypeOptions]))
 
 
 def spaces(s: str) -> str:
@@ -294,56 +289,29 @@ def t_map(tdef: list, topts: dict, ctx: dict) -> dict:
 
 
 def t_map_of(tdef: list, topts: dict, ctx: dict) -> dict:
-    items = get_items(topts['ktype'], ctx)
-    vtype = w_kvtype(topts['vtype'], ctx)
     ktype = w_kvtype(topts['ktype'], ctx)
-    
-    opts = tdef[TypeOptions]
-    k_opt = opts[0]
-    k_name = k_opt[1:]
-    
-    v_opt = opts[1]
-    v_name = v_opt[1:]
-    
-    key_array = ctx.get('type_defs', {}).get(k_name)
-    key_type = key_array[1]
-    
-    merged = {}
-    if key_type == 'String':
-        merged = dmerge(
+    vtype = w_kvtype(topts['vtype'], ctx)
+    if has_text_keys(topts['ktype'], ctx):
+        return dmerge(
             w_td('object', tdef[TypeDesc]),
-            {'additionalProperties': False},
             {'minProperties': topts['minv']} if topts.get('minv', 0) != 0 else {},
             {'maxProperties': topts['maxv']} if 'maxv' in topts else {},
-            {'patternProperties': {pattern(items): vtype}} if items and ctx['enum_style'] == 'regex' else {}
-        )
-        
-        properties = {
-            k_name : ktype,
-            v_name : vtype
-        }        
-        
-        merged['properties'] = properties
-    else:
-        merged = dmerge(
-            w_td('array', tdef[TypeDesc]),
-            {'additionalItems': False},
-            {'uniqueItems': True},
-            {'minItems': topts['minv']} if topts.get('minv', 0) != 0 else {},
-            {'maxItems': topts['maxv']} if 'maxv' in topts else {},
+            {'propertyNames': ktype, 'additionalProperties': vtype}
         )
-        
-        _items = {
-            "type" : "object",
-            "properties": {
-                k_name : ktype,
-                v_name : vtype
+
+    return dmerge(
+        w_td('array', tdef[TypeDesc]),
+        {'uniqueItems': True},
+        {'minItems': topts['minv']} if topts.get('minv', 0) != 0 else {},
+        {'maxItems': topts['maxv']} if 'maxv' in topts else {},
+        {'items': {
+            'type': 'object',
+            'properties': {
+                topts['ktype']: ktype,
+                topts['vtype']: vtype
             }
-        }
-        
-        merged['items'] = _items   
-    
-    return merged
+        }}
+    )
 
 
 # Type Map Util
-- 
2.43.0


From 95094d1a1a93a913295040aee4144d4fa8f09b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:29 +0000
Subject: [PATCH 45/53] fix: JSON Schema has the value limits of integer
 formats, representation formats and configured patterns

---
 .../src/jadn/translate/jsonschema_w.py        | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index b3e7b8a..9d49ea8 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -16,16 +16,19 @@ from ..utils import dmerge, topts_s2d, ftopts_s2d, get_config
 
 # Consts
 JADN_FMT = {
+    'b': {'contentEncoding': 'base64url'},
     'x': {'contentEncoding': 'base16'},
+    'X': {'contentEncoding': 'base16'},
     # 'eui': {'pattern': r'^([0-9a-fA-F]{2}[:-]){5}[0-9a-fA-F]{2}$'},
     'eui': {'pattern': r'^([0-9a-fA-F]{2}[:-]){5}[0-9A-Fa-f]{2}(([:-][0-9A-Fa-f]{2}){2})?$'},
     'ipv4-addr': {'pattern': r'^((25[0-5]|2[0-4][0-9]|[01]?[0-9]?[0-9])\.){3}(25[0-5]|2[0-4][0-9]|[01]?[0-9]?[0-9])$'},
-    'ipv6-addr': {'pattern': r'^(([0-9a-fA-F]{1,4}:){7,7}[0-9a-fA-F]{1,4}|([0-9a-fA-F]{1,4}:){1,7}:|([0-9a-fA-F]{1,4}:){1,6}:[0-9a-fA-F]{1,4}|([0-9a-fA-F]{1,4}:){1,5}(:[0-9a-fA-F]{1,4}){1,2}|([0-9a-fA-F]{1,4}:){1,4}(:[0-9a-fA-F]{1,4}){1,3}|([0-9a-fA-F]{1,4}:){1,3}(:[0-9a-fA-F]{1,4}){1,4}|([0-9a-fA-F]{1,4}:){1,2}(:[0-9a-fA-F]{1,4}){1,5}|[0-9a-fA-F]{1,4}:((:[0-9a-fA-F]{1,4}){1,6})|:((:[0-9a-fA-F]{1,4}){1,7}|:)|fe80:(:[0-9a-fA-F]{0,4}){0,4}%[0-9a-zA-Z]{1,}|::(ffff(:0{1,4}){0,1}:){0,1}((25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])\.){3,3}(25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])|([0-9a-fA-F]{1,4}:){1,4}:((25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])\.){3,3}(25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9]))(%.+)$'},
+    'ipv6-addr': {'pattern': r'^(([0-9a-fA-F]{1,4}:){7,7}[0-9a-fA-F]{1,4}|([0-9a-fA-F]{1,4}:){1,7}:|([0-9a-fA-F]{1,4}:){1,6}:[0-9a-fA-F]{1,4}|([0-9a-fA-F]{1,4}:){1,5}(:[0-9a-fA-F]{1,4}){1,2}|([0-9a-fA-F]{1,4}:){1,4}(:[0-9a-fA-F]{1,4}){1,3}|([0-9a-fA-F]{1,4}:){1,3}(:[0-9a-fA-F]{1,4}){1,4}|([0-9a-fA-F]{1,4}:){1,2}(:[0-9a-fA-F]{1,4}){1,5}|[0-9a-fA-F]{1,4}:((:[0-9a-fA-F]{1,4}){1,6})|:((:[0-9a-fA-F]{1,4}){1,7}|:)|fe80:(:[0-9a-fA-F]{0,4}){0,4}%[0-9a-zA-Z]{1,}|::(ffff(:0{1,4}){0,1}:){0,1}((25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])\.){3,3}(25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])|([0-9a-fA-F]{1,4}:){1,4}:((25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])\.){3,3}(25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9]))(%.+)?$'},
     'ipv4-net': {'pattern': r'^((25[0-5]|2[0-4][0-9]|[01]?[0-9]?[0-9])\.){3}(25[0-5]|2[0-4][0-9]|[01]?[0-9]?[0-9])(\/(3[0-2]|[0-2]?[0-9]))?$'},
     'ipv6-net': {'pattern': r'^(([0-9a-fA-F]{1,4}:){7,7}[0-9a-fA-F]{1,4}|([0-9a-fA-F]{1,4}:){1,7}:|([0-9a-fA-F]{1,4}:){1,6}:[0-9a-fA-F]{1,4}|([0-9a-fA-F]{1,4}:){1,5}(:[0-9a-fA-F]{1,4}){1,2}|([0-9a-fA-F]{1,4}:){1,4}(:[0-9a-fA-F]{1,4}){1,3}|([0-9a-fA-F]{1,4}:){1,3}(:[0-9a-fA-F]{1,4}){1,4}|([0-9a-fA-F]{1,4}:){1,2}(:[0-9a-fA-F]{1,4}){1,5}|[0-9a-fA-F]{1,4}:((:[0-9a-fA-F]{1,4}){1,6})|:((:[0-9a-fA-F]{1,4}){1,7}|:)|fe80:(:[0-9a-fA-F]{0,4}){0,4}%[0-9a-zA-Z]{1,}|::(ffff(:0{1,4}){0,1}:){0,1}((25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])\.){3,3}(25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])|([0-9a-fA-F]{1,4}:){1,4}:((25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])\.){3,3}(25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9]))(%.+)?s*(\/([0-9]|[1-9][0-9]|1[0-1][0-9]|12[0-8]))?$'},
     'i8': {'minimum': -128, 'maximum': 127},
     'i16': {'minimum': -32768, 'maximum': 32767},
-    'i32': {'minimum': -2147483648, 'maximum': 2147483647}
+    'i32': {'minimum': -2147483648, 'maximum': 2147483647},
+    'i64': {'minimum': -9223372036854775808, 'maximum': 9223372036854775807}
 }
 
 CONFIG_MAX = {
@@ -193,10 +196,16 @@ def t_boolean(tdef: list, topts: dict, ctx: dict) -> dict:
 
 
 def t_integer(tdef: list, topts: dict, ctx: dict) -> dict:
+    fmt = topts.get('format', '')
+    if fmt == 'datetime-ms':        # Text representation of date and time
+        return dmerge(w_td('string', tdef[TypeDesc]), w_format('date-time'))
+    limits = JADN_FMT.get(fmt, {})
+    minv = [v for v in (topts.get('minv'), limits.get('minimum')) if v is not None]
+    maxv = [v for v in (topts.get('maxv'), limits.get('maximum')) if v is not None]
     return dmerge(
         w_td('integer', tdef[TypeDesc]),
-        {'minimum': topts['minv']} if 'minv' in topts else {},
-        {'maximum': topts['maxv']} if 'maxv' in topts else {}
+        {'minimum': max(minv)} if minv else {},
+        {'maximum': min(maxv)} if maxv else {}
     )
 
 
@@ -218,7 +227,7 @@ def t_string(tdef: list, topts: dict, ctx: dict) -> dict:
         w_format(topts['format']) if 'format' in topts else {},
         {'minLength': topts['minv']} if 'minv' in topts and topts['minv'] != 0 else {},
         {'maxLength': topts['maxv']} if 'maxv' in topts else {},
-        {'pattern': topts['pattern']} if 'pattern' in topts else {}
+        {'pattern': ctx['config'].get(topts['pattern'], topts['pattern'])} if 'pattern' in topts else {}
     )
 
 
-- 
2.43.0


From 9ed71e098b1e33ae097325f40fd642f78b374f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:31 +0000
Subject: [PATCH 46/53] fix: JSON Schema has the same size limits and required
 items as the schema

---
 .../src/jadn/translate/jsonschema_w.py        | 27 +++++++++++--------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index 9d49ea8..4a99e70 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -68,6 +68,13 @@ def fieldname(name: str) -> str:
     return name.lower().replace('-', '_')
 
 
+def is_required(f: list) -> bool:
+    """
+    Return True if field must be present
+    """
+    return ftopts_s2d(f[FieldOptions])[0].get('minc', 1) >= 1
+
+
 def pattern(vals: list) -> str:
     """
     Return a regex string from a list of values
@@ -162,7 +169,7 @@ def w_fdef(f: list, ctx: dict) -> dict:
         {'description': f[FieldDesc]},
         {'uniqueItems': True} if 'unique' in topts else {},
         {'minItems': minv} if minv != 0 else {},
-        {'maxItems': maxv} if maxv != 0 else {},
+        {'maxItems': maxv if maxv != 0 else ctx['config']['$MaxElements']},
         {'items': t}
     )
 
@@ -262,19 +269,21 @@ def t_array(tdef: list, topts: dict, ctx: dict) -> dict:
     fmt = w_format(topts['format']) if 'format' in topts else {}
     if fmt:
         return dmerge(w_td('string', tdef[TypeDesc]), fmt)
+    required = [n for n, f in enumerate(tdef[Fields], start=1) if is_required(f)]
+    minv = max(topts.get('minv', 0), *required[-1:], 0)
     return dmerge(
         w_td('array', tdef[TypeDesc]),
         {'additionalItems': False},
-        {'minItems': topts['minv']} if topts.get('minv', 0) != 0 else {},
-        {'maxItems': topts['maxv']} if 'maxv' in topts else {},
-        {'items': [w_fdef(f, ctx) for f in tdef[Fields]]}
+        {'minItems': minv} if minv != 0 else {},
+        {'maxItems': topts['maxv']} if 'maxv' in topts and len(required) == len(tdef[Fields]) else {},  # Limit excludes null items
+        {'items': [w_fdef(f, ctx) if is_required(f) else {'anyOf': [w_fdef(f, ctx), {'type': 'null'}]} for f in tdef[Fields]]}
     )
 
 
 def t_array_of(tdef: list, topts: dict, ctx: dict) -> dict:
     return dmerge(
         w_td('array', tdef[TypeDesc]),
-        {'uniqueItems': True} if 'unique' in topts else {},
+        {'uniqueItems': True} if 'unique' in topts or 'set' in topts else {},
         {'minItems': topts['minv']} if topts.get('minv', 0) != 0 else {},
         {'maxItems': topts['maxv']} if 'maxv' in topts else {},
         {'items': w_kvtype(topts['vtype'], ctx)}
@@ -282,11 +291,7 @@ def t_array_of(tdef: list, topts: dict, ctx: dict) -> dict:
 
 
 def t_map(tdef: list, topts: dict, ctx: dict) -> dict:
-    def req(f: list) -> bool:
-        fo = ftopts_s2d(f[FieldOptions])[0]
-        return fo['minc'] >= 1 if 'minc' in fo else True
-
-    required = [f[FieldName] for f in tdef[Fields] if req(f)]
+    required = [f[FieldName] for f in tdef[Fields] if is_required(f)]
     return dmerge(
         w_td('object', tdef[TypeDesc]),
         {'additionalProperties': False},
@@ -351,7 +356,7 @@ def w_type(tdef: list, topts: dict, ctx: dict) -> dict:
     """
     Write a JADN type definition in JSON Schema format
     """
-    if 'maxv' not in topts and tdef[BaseType] in CONFIG_MAX:
+    if not topts.get('maxv') and tdef[BaseType] in CONFIG_MAX:      # 0 means default
         topts['maxv'] = ctx['config'][CONFIG_MAX[tdef[BaseType]]]
     sc = get_writer(tdef[BaseType], ctx['verbose'])(tdef, topts, ctx)
     return sc
-- 
2.43.0


From 14148e4c00a5fb15e61bf8bc25f273ec871e569e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:34 +0000
Subject: [PATCH 47/53] fix: JSON Schema of untagged unions uses the options of
 each alternative

---
 distribution/src/jadn/translate/jsonschema_w.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index 4a99e70..43c6de1 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -252,7 +252,7 @@ def t_enumerated(tdef: list, topts: dict, ctx: dict) -> dict:
 def t_choice(tdef: list, topts: dict, ctx: dict) -> dict:
     if combine := topts.get('combine'):
         c = {'O': 'anyOf', 'A': 'allOf', 'X': 'oneOf'}[combine]
-        return {c: [TYPE_WRITERS[f[FieldType]](tdef, topts, ctx) if is_builtin(f[FieldType]) else w_ref(f[FieldType], ctx) for f in tdef[Fields]]}
+        return {c: [w_fdef(f, ctx) for f in tdef[Fields]]}
 
     return dmerge(
         w_td('object', tdef[TypeDesc]),
-- 
2.43.0


From 6c3a3357435ea9ecdbb9806c6658682b6a027631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:38 +0000
Subject: [PATCH 48/53] fix: JSON Schema property names of .ID types are field
 IDs

---
 distribution/src/jadn/translate/jsonschema_w.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index 43c6de1..64fbe63 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -152,6 +152,13 @@ def w_ref(tname: str, ctx: dict) -> dict:
     return {'$ref': f'#/definitions/{tn}'}
 
 
+def w_key(f: list, topts: dict) -> str:
+    """
+    Make property name of a field
+    """
+    return str(f[FieldID]) if 'id' in topts else f[FieldName]
+
+
 def w_fdef(f: list, ctx: dict) -> dict:
     """
     Make field definition
@@ -260,7 +267,7 @@ def t_choice(tdef: list, topts: dict, ctx: dict) -> dict:
             'additionalProperties': False,
             'minProperties': 1,
             'maxProperties': 1,
-            'properties': {f[FieldName]: w_fdef(f, ctx) for f in tdef[Fields]}
+            'properties': {w_key(f, topts): w_fdef(f, ctx) for f in tdef[Fields]}
         }
     )
 
@@ -291,14 +298,14 @@ def t_array_of(tdef: list, topts: dict, ctx: dict) -> dict:
 
 
 def t_map(tdef: list, topts: dict, ctx: dict) -> dict:
-    required = [f[FieldName] for f in tdef[Fields] if is_required(f)]
+    required = [w_key(f, topts) for f in tdef[Fields] if is_required(f)]
     return dmerge(
         w_td('object', tdef[TypeDesc]),
         {'additionalProperties': False},
         {'required': required} if required else {},
         {'minProperties': topts['minv']} if topts.get('minv', 0) != 0 else {},
         {'maxProperties': topts['maxv']} if 'maxv' in topts else {},
-        {'properties': {f[FieldName]: w_fdef(f, ctx) for f in tdef[Fields]}}
+        {'properties': {w_key(f, topts): w_fdef(f, ctx) for f in tdef[Fields]}}
     )
 
 
-- 
2.43.0


From ab7be9660e85d58c81f4c27e0ab8a593ae9272fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:40 +0000
Subject: [PATCH 49/53] fix: JSON Schema of links and of choices with an
 external tag describes their values

---
 .../src/jadn/translate/jsonschema_w.py        | 24 ++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index 64fbe63..de28249 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -8,7 +8,7 @@ from datetime import datetime
 from typing import Callable, Optional, Union
 from ..definitions import (
     TypeName, BaseType, TypeOptions, TypeDesc, Fields, ItemID, ItemValue, ItemDesc, FieldID, FieldName, FieldType,
-    FieldOptions, FieldDesc, OPTION_ID, is_builtin
+    FieldOptions, FieldDesc, OPTION_ID, has_fields, is_builtin
 )
 from ..transform.transform import get_enum_items
 from ..utils import dmerge, topts_s2d, ftopts_s2d, get_config
@@ -159,6 +159,24 @@ def w_key(f: list, topts: dict) -> str:
     return str(f[FieldID]) if 'id' in topts else f[FieldName]
 
 
+def link_key(tname: str, ctx: dict, path: tuple = ()) -> Optional[list]:
+    """
+    Return definition of the primary key of a type, None if it has no key
+    """
+    tdef = ctx['type_defs'].get(tname)
+    if tdef is None or tname in path:
+        return None
+    if tdef[BaseType] == 'MapOf':
+        ktype = topts_s2d(tdef[TypeOptions])['ktype']
+        derived = ktype[0] in (OPTION_ID['enum'], OPTION_ID['pointer'])
+        return [1, 'key', *(('Enumerated', [ktype]) if derived else (ktype, [])), '']
+    for f in tdef[Fields] if has_fields(tdef[BaseType]) else []:
+        fopts = ftopts_s2d(f[FieldOptions])[0]
+        if 'key' in fopts:
+            return link_key(f[FieldType], ctx, path + (tname, )) if 'link' in fopts else f
+    return None
+
+
 def w_fdef(f: list, ctx: dict) -> dict:
     """
     Make field definition
@@ -166,6 +184,10 @@ def w_fdef(f: list, ctx: dict) -> dict:
     fopts, topts = ftopts_s2d(f[FieldOptions])
     if is_builtin(f[FieldType]):
         t = w_type(['', f[FieldType], f[FieldOptions], f[FieldDesc]], topts, ctx)
+    elif (key := link_key(f[FieldType], ctx) if 'link' in fopts else None) is not None:
+        t = w_fdef(key, ctx)            # Value of a link is the key of the linked type
+    elif 'tagid' in fopts and (choice := ctx['type_defs'].get(f[FieldType], ['', '']))[BaseType] == 'Choice':
+        t = {'anyOf': [w_fdef(a, ctx) for a in choice[Fields]]}     # Another field has the tag
     else:
         t = dmerge(w_ref(f[FieldType], ctx), {'description': f[FieldDesc]})
 
-- 
2.43.0


From 22a622c394779f28e73fd733a3733061b5b13356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:44 +0000
Subject: [PATCH 50/53] fix: JSON Schema files with a source comment are JSON

---
 distribution/src/jadn/translate/jsonschema_w.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index de28249..005008c 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -440,7 +440,9 @@ def json_schema_dumps(schema: dict, verbose=True, enum_style='enum', import_styl
 
 
 def json_schema_dump(jadn: dict, fname: Union[str, bytes, int], source=None, verbose=True, enum_style='enum', import_style='ref'):
+    doc = json_schema_dumps(jadn, verbose, enum_style, import_style)
+    if source:
+        comment = f'Generated from {source}, {datetime.ctime(datetime.now())}'
+        doc = json.dumps(dmerge({'$comment': comment}, json.loads(doc)), indent=2)
     with open(fname, 'w') as f:
-        if source:
-            f.write(f'/* Generated from {source}, {datetime.ctime(datetime.now())} */\n\n')
-        f.write(json_schema_dumps(jadn, verbose, enum_style, import_style))
+        f.write(doc)
-- 
2.43.0


From 8070ef9ab90d5213793eb1e40ece67fdc56e102c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:35 +0000
Subject: [PATCH 51/53] fix: fluff keeps all entries of nested dicts; flatten
 passes the separator on

---
 distribution/src/jadn/utils.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/distribution/src/jadn/utils.py b/distribution/src/jadn/utils.py
index fdd3faa..2934d4e 100644
--- a/distribution/src/jadn/utils.py
+++ b/distribution/src/jadn/utils.py
@@ -48,7 +48,10 @@ def fluff(src: dict, sep: str = '.') -> dict:
     :param sep: separator character for keys
     :return: nested dict - e.g., {'a': {'b': {'c': 1, 'd': 2}}}
     """
-    return reduce(dmerge, [hdict(k, v, sep) for k, v in src.items()], {})
+    def merge(a: dict, b: dict) -> dict:    # Merge nested dicts
+        return {**a, **{k: merge(a[k], v) if isinstance(a.get(k), dict) and isinstance(v, dict) else v for k, v in b.items()}}
+
+    return reduce(merge, [hdict(k, v, sep) for k, v in src.items()], {})
 
 
 def flatten(cmd: dict, path: str = '', fc: dict = None, sep: str = '.') -> dict:
@@ -61,10 +64,10 @@ def flatten(cmd: dict, path: str = '', fc: dict = None, sep: str = '.') -> dict:
     if isinstance(cmd, dict):
         for k, v in cmd.items():
             k = k.split(':')[1] if ':' in k else k
-            fcmd = flatten(v, sep.join((path, k)) if path else k, fcmd)
+            fcmd = flatten(v, sep.join((path, k)) if path else k, fcmd, sep)
     elif isinstance(cmd, list):
         for n, v in enumerate(cmd):
-            fcmd.update(flatten(v, sep.join([path, str(n)])))
+            fcmd.update(flatten(v, sep.join([path, str(n)]), sep=sep))
     else:
         fcmd[path] = cmd
     return fcmd
-- 
2.43.0


From 9e13b9f7d501ec9ba776425958545be2a21c2ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:38 +0000
Subject: [PATCH 52/53] fix: JAS output knows all options

---
 distribution/src/jadn/convert/jas_w.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/distribution/src/jadn/convert/jas_w.py b/distribution/src/jadn/convert/jas_w.py
index ea29a06..9d7717d 100644
--- a/distribution/src/jadn/convert/jas_w.py
+++ b/distribution/src/jadn/convert/jas_w.py
@@ -63,9 +63,10 @@ def jas_dumps(schema: dict) -> str:
         jas += '*/\n'
 
     assert set(stype_map) == set(CORE_TYPES)         # Ensure type list is up to date
-    tolist = {'id', 'vtype', 'ktype', 'enum', 'pointer', 'format', 'pattern', 'minv', 'maxv', 'minf', 'maxf', 'unique', 'and', 'or'}
-    assert {x[0] for x in TYPE_OPTIONS.values()} == tolist                # Ensure type options list is up to date
-    folist = {'minc', 'maxc', 'tagid', 'dir', 'key', 'link', 'default'}
+    tolist = ('id', 'vtype', 'ktype', 'enum', 'pointer', 'format', 'pattern', 'minv', 'maxv', 'minf', 'maxf', 'unique',
+              'set', 'unordered', 'extend', 'sequence', 'combine', 'default')
+    assert {x[0] for x in TYPE_OPTIONS.values()} == set(tolist)           # Ensure type options list is up to date
+    folist = {'minc', 'maxc', 'tagid', 'dir', 'key', 'link'}
     assert {x[0] for x in FIELD_OPTIONS.values()} == folist               # Ensure field options list is up to date
 
     # Convert Types
-- 
2.43.0


From 107dda754273a10b0cac9113bd0eff6e0f8d6b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:10 +0000
Subject: [PATCH 53/53] fix: deleting a column of a definition restores its
 default value

---
 distribution/src/jadn/definitions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/definitions.py b/distribution/src/jadn/definitions.py
index b07ebd9..350a429 100644
--- a/distribution/src/jadn/definitions.py
+++ b/distribution/src/jadn/definitions.py
@@ -51,7 +51,7 @@ class BasicDataclass:
     def __delitem__(self, key: Union[int, str]):
         if isinstance(key, int):
             key = list(self.__keyindex__)[key]
-        object.__setattr__(self, self.__default__[key], self.__default__[key])
+        object.__setattr__(self, key, deepcopy(self.__default__[key]))
 
     def __len__(self):
         return len(self.__keyindex__)
-- 
2.43.0

