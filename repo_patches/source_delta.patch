From bd9e8e7fd95aed7fcc1d2f19c11e96588b1b5c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:08 +0000
Subject: [PATCH 01/42] fix: a condition that does not evaluate to a boolean is
 an error, not its truthiness

---
 ndg/xacml/core/condition.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ndg/xacml/core/condition.py b/ndg/xacml/core/condition.py
index fde03c8..e6ffc63 100644
--- a/ndg/xacml/core/condition.py
+++ b/ndg/xacml/core/condition.py
@@ -10,6 +10,8 @@ __license__ = "BSD - see LICENSE file in top-level directory"
 __contact__ = "Philip.Kershaw@stfc.ac.uk"
 __revision__ = "$Id$"
 from ndg.xacml.core import XacmlCoreBase
+from ndg.xacml.core.attributevalue import AttributeValue
+from ndg.xacml.core.context.exceptions import XacmlContextTypeError
 from ndg.xacml.core.expression import Expression
 
 
@@ -66,7 +68,17 @@ class Condition(XacmlCoreBase):
         @return: True/False status for whether the rule condition matched or
         not
         @rtype: bool
+        @raise XacmlContextTypeError: the expression doesn't evaluate to a 
+        boolean
         """
         result = self.expression.evaluate(context)
         
+        # The expression may be, or may select, a boolean attribute value
+        if isinstance(result, AttributeValue):
+            result = result.value
+            
+        if not isinstance(result, bool):
+            raise XacmlContextTypeError('Expecting boolean result for condition '
+                                        'expression; got %r' % type(result))
+        
         return result
\ No newline at end of file
-- 
2.43.0


From d0cb593644032a7601edcdf1b05749a3fc404af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:25 +0000
Subject: [PATCH 02/42] fix: the shared Permit/Deny/... decision and effect
 constants can be overwritten

---
 ndg/xacml/core/context/result.py | 18 ++++++++++++++++--
 ndg/xacml/core/rule.py           | 10 +++++++++-
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/ndg/xacml/core/context/result.py b/ndg/xacml/core/context/result.py
index c462884..4981cb4 100644
--- a/ndg/xacml/core/context/result.py
+++ b/ndg/xacml/core/context/result.py
@@ -311,7 +311,9 @@ class Decision(object):
     
     def __init__(self, decision=INDETERMINATE_STR):
         self.__value = None
-        self.value = decision
+        
+        # Nb. derived classes override the "value" property to be read-only
+        Decision._setValue(self, decision)
 
     def __getstate__(self):
         '''Enable pickling
@@ -421,11 +423,14 @@ class PermitDecision(Decision):
         """Initialise set with Permit value"""
         super(PermitDecision, self).__init__(Decision.PERMIT_STR)
         
-    def _setValue(self):  
+    def _setValue(self, value):  
         """Make value read-only
         @raise AttributeError: value can't be set
         """
         raise AttributeError("can't set attribute")
+        
+    value = property(fget=Decision._getValue, fset=_setValue, 
+                     doc="Decision value (read-only)")
 
 
 class DenyDecision(Decision):
@@ -441,6 +446,9 @@ class DenyDecision(Decision):
         @raise AttributeError: value can't be set
         """
         raise AttributeError("can't set attribute")
+        
+    value = property(fget=Decision._getValue, fset=_setValue, 
+                     doc="Decision value (read-only)")
 
 
 class IndeterminateDecision(Decision):
@@ -456,6 +464,9 @@ class IndeterminateDecision(Decision):
         @raise AttributeError: value can't be set
         """
         raise AttributeError("can't set attribute")
+        
+    value = property(fget=Decision._getValue, fset=_setValue, 
+                     doc="Decision value (read-only)")
 
 
 class NotApplicableDecision(Decision):
@@ -471,6 +482,9 @@ class NotApplicableDecision(Decision):
         @raise AttributeError: value can't be set
         """
         raise AttributeError("can't set attribute")
+        
+    value = property(fget=Decision._getValue, fset=_setValue, 
+                     doc="Decision value (read-only)")
     
     
 # Add instances of each for convenience
diff --git a/ndg/xacml/core/rule.py b/ndg/xacml/core/rule.py
index b1a32f2..486f108 100644
--- a/ndg/xacml/core/rule.py
+++ b/ndg/xacml/core/rule.py
@@ -44,7 +44,9 @@ class Effect(object):
         @type effect: basestring / ndg.xacml.core.rule.Effect
         """
         self.__value = None
-        self.value = effect
+        
+        # Nb. derived classes override the "value" property to be read-only
+        Effect._setValue(self, effect)
 
     def __getstate__(self):
         '''Enable pickling
@@ -159,6 +161,9 @@ class PermitEffect(Effect):
         @raise AttributeError: value can't be set
         """
         raise AttributeError("can't set attribute")
+        
+    value = property(fget=Effect._getValue, fset=_setValue, 
+                     doc="Effect value (read-only)")
 
 
 class DenyEffect(Effect):
@@ -174,6 +179,9 @@ class DenyEffect(Effect):
         @raise AttributeError: value can't be set
         """
         raise AttributeError("can't set attribute")
+        
+    value = property(fget=Effect._getValue, fset=_setValue, 
+                     doc="Effect value (read-only)")
 
 # Add instances of each for convenience
 Effect.PERMIT = PermitEffect()
-- 
2.43.0


From e72e61f40211657228692b604d4654c772ef8968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:34 +0000
Subject: [PATCH 03/42] fix: comparing a Decision or Effect with another type
 raises UnboundLocalError

---
 ndg/xacml/core/context/result.py | 2 +-
 ndg/xacml/core/rule.py           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ndg/xacml/core/context/result.py b/ndg/xacml/core/context/result.py
index 4981cb4..2d09d56 100644
--- a/ndg/xacml/core/context/result.py
+++ b/ndg/xacml/core/context/result.py
@@ -406,7 +406,7 @@ class Decision(object):
             
         else:
             raise TypeError('Expecting string or Decision instance for '
-                            'input decision value; got %r instead' % type(value))
+                            'input decision value; got %r instead' % type(decision))
             
         if value not in self.__class__.TYPES:
             raise AttributeError('Permissable decision types are %r; got '
diff --git a/ndg/xacml/core/rule.py b/ndg/xacml/core/rule.py
index 486f108..12ad986 100644
--- a/ndg/xacml/core/rule.py
+++ b/ndg/xacml/core/rule.py
@@ -131,7 +131,7 @@ class Effect(object):
             
         else:
             raise TypeError('Expecting string or Effect instance for '
-                            'input effect value; got %r instead' % type(value))
+                            'input effect value; got %r instead' % type(effect))
             
         if value not in self.__class__.TYPES:
             raise AttributeError('Permissable effect types are %r; got '
-- 
2.43.0


From 529da42aff3c34bcddba1a14655331a3bbe06871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:55 +0000
Subject: [PATCH 04/42] fix: reading the description of a rule that has none
 raises AttributeError

---
 ndg/xacml/core/rule.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ndg/xacml/core/rule.py b/ndg/xacml/core/rule.py
index 12ad986..c92ddad 100644
--- a/ndg/xacml/core/rule.py
+++ b/ndg/xacml/core/rule.py
@@ -233,6 +233,7 @@ class Rule(XacmlCoreBase):
         self.__effect = None
         self.__target = None
         self.__condition = None
+        self.__description = None
         
     @property
     def target(self):
-- 
2.43.0


From 64e60822a4bfc9606ead31154e0c46c8daaf0490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:20 +0000
Subject: [PATCH 05/42] fix: an error raised by a policy is answered as
 NotApplicable instead of its Indeterminate response

---
 ndg/xacml/core/policybase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndg/xacml/core/policybase.py b/ndg/xacml/core/policybase.py
index 5dd5bee..391ff66 100644
--- a/ndg/xacml/core/policybase.py
+++ b/ndg/xacml/core/policybase.py
@@ -117,7 +117,7 @@ class PolicyBase(XacmlCoreBase, metaclass=ABCMeta):
                       e.response.results[0].decision,
                       traceback.format_exc())
 
-            result = e.response.results[0]
+            response = e.response
 
         return response
 
-- 
2.43.0


From 2715697735f9ba6c34fb49418dc583a6d21376f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:32 +0000
Subject: [PATCH 06/42] fix: action and environment designators fail on a
 request without action or environment

---
 ndg/xacml/core/attributedesignator.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/ndg/xacml/core/attributedesignator.py b/ndg/xacml/core/attributedesignator.py
index ec55ed1..413bf78 100644
--- a/ndg/xacml/core/attributedesignator.py
+++ b/ndg/xacml/core/attributedesignator.py
@@ -294,7 +294,6 @@ class ActionAttributeDesignator(AttributeDesignator):
         attributeValueBag = TypedList(self.attributeValueFactory(dataType))
         attributeId = self.attributeId
         issuer = self.issuer
-        action = context.action
         
         if issuer is not None:
             _issuerMatch = lambda _issuer: issuer == _issuer
@@ -305,7 +304,13 @@ class ActionAttributeDesignator(AttributeDesignator):
                                         attr.dataType == dataType and
                                         _issuerMatch(attr.issuer))
                     
-        for attr in action.attributes:
+        # The request may have no action
+        if context.action is not None:
+            attributes = context.action.attributes
+        else:
+            attributes = []
+            
+        for attr in attributes:
             if _attributeMatch(attr):
                 attributeValueBag.extend([i for i in attr.attributeValues
                                           if i.dataType == dataType])
@@ -348,7 +353,6 @@ class EnvironmentAttributeDesignator(AttributeDesignator):
         attributeValueBag = TypedList(self.attributeValueFactory(dataType))
         attributeId = self.attributeId
         issuer = self.issuer
-        environment = context.environment
         
         if issuer is not None:
             _issuerMatch = lambda _issuer: issuer == _issuer
@@ -359,7 +363,13 @@ class EnvironmentAttributeDesignator(AttributeDesignator):
                                         attr.dataType == dataType and
                                         _issuerMatch(attr.issuer))
                  
-        for attr in environment.attributes:
+        # The request may have no environment
+        if context.environment is not None:
+            attributes = context.environment.attributes
+        else:
+            attributes = []
+            
+        for attr in attributes:
             if _attributeMatch(attr):
                 attributeValueBag.extend([i for i in attr.attributeValues
                                           if i.dataType == dataType])
-- 
2.43.0


From 95e6db2b275ade269d011cb22d9050b4bc1e3902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:15 +0000
Subject: [PATCH 07/42] fix: typed lists silently drop the elements of an
 iterator

---
 ndg/xacml/utils/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ndg/xacml/utils/__init__.py b/ndg/xacml/utils/__init__.py
index 79be001..18cea74 100644
--- a/ndg/xacml/utils/__init__.py
+++ b/ndg/xacml/utils/__init__.py
@@ -85,6 +85,8 @@ class TypedList(list):
         @type iter: iterable type
         @raise TypeError: input item doesn't match list type
         """
+        # Nb. the input may be an iterator which can be read only once
+        iter = list(iter)
         for i in iter:
             if not isinstance(i, self.__elementType):
                 raise TypeError("List items must be of type %s" % 
@@ -98,6 +100,8 @@ class TypedList(list):
         @type iter: iterable type
         @raise TypeError: input item doesn't match list type
         """
+        # Nb. the input may be an iterator which can be read only once
+        iter = list(iter)
         for i in iter:
             if not isinstance(i, self.__elementType):
                 raise TypeError("List items must be of type %s" % 
-- 
2.43.0


From 0c091d0b9ee961872a90cc81430e11c65616dcb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:28 +0000
Subject: [PATCH 08/42] fix: typed lists take elements of other types on
 construction, insertion and assignment

---
 ndg/xacml/utils/__init__.py | 38 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/ndg/xacml/utils/__init__.py b/ndg/xacml/utils/__init__.py
index 18cea74..b6cb553 100644
--- a/ndg/xacml/utils/__init__.py
+++ b/ndg/xacml/utils/__init__.py
@@ -60,7 +60,8 @@ class TypedList(list):
         contain.  If more than one type, pass as a tuple
         """
         self.__elementType = elementType
-        super(TypedList, self).__init__(*arg, **kw)
+        super(TypedList, self).__init__()
+        self.extend(list(*arg, **kw))
 
     def __repr__(self):
         """@return: represent instance giving type information about the 
@@ -121,6 +122,41 @@ class TypedList(list):
     
         return super(TypedList, self).append(item)
 
+    def insert(self, index, item):
+        """Insert an item in the list
+        @param index: position to insert before
+        @type index: int
+        @param item: item to insert
+        @type item: type of this list
+        @raise TypeError: input item doesn't match list type
+        """
+        if not isinstance(item, self.__elementType):
+            raise TypeError("List items must be of type %s" % 
+                            (self.__elementType,))
+            
+        return super(TypedList, self).insert(index, item)
+
+    def __setitem__(self, index, item):
+        """Replace an item or a slice of the list
+        @param index: position or slice to replace
+        @type index: int / slice
+        @param item: new item, or iterable of items for a slice
+        @type item: type of this list / iterable
+        @raise TypeError: input item doesn't match list type
+        """
+        if isinstance(index, slice):
+            item = list(item)
+            items = item
+        else:
+            items = [item]
+            
+        for i in items:
+            if not isinstance(i, self.__elementType):
+                raise TypeError("List items must be of type %s" % 
+                                (self.__elementType,))
+                
+        return super(TypedList, self).__setitem__(index, item)
+
 
 class RestrictedKeyNamesDict(dict):
     """Utility class for holding a constrained list of key names
-- 
2.43.0


From 0568ed092c2057663daa7b13a87106df820a465e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:38 +0000
Subject: [PATCH 09/42] fix: unique lists take duplicates given in one go

---
 ndg/xacml/utils/__init__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ndg/xacml/utils/__init__.py b/ndg/xacml/utils/__init__.py
index b6cb553..db208d2 100644
--- a/ndg/xacml/utils/__init__.py
+++ b/ndg/xacml/utils/__init__.py
@@ -25,15 +25,16 @@ class UniqList(list):
         @param iter: iterable object
         @type iter: iterable type
         """
-        return super(UniqList, self).extend([i for i in iter if i not in self])
+        for i in iter:
+            self.append(i)
         
     def __iadd__(self, iter):
         """Extend a list with input iterable
         @param iter: iterable object
         @type iter: iterable type
         """
-        return super(UniqList, self).__iadd__([i for i in iter 
-                                               if i not in self])
+        self.extend(iter)
+        return self
          
     def append(self, item):
         """Add an item to the list
-- 
2.43.0


From 352d07a67fb74ce1cbacd54795f53e3f932172d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:17 +0000
Subject: [PATCH 10/42] fix: VettedDict.get ignores the default value given

---
 ndg/xacml/core/functions/__init__.py | 2 +-
 ndg/xacml/utils/__init__.py          | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/ndg/xacml/core/functions/__init__.py b/ndg/xacml/core/functions/__init__.py
index 0a62e6e..f151eba 100644
--- a/ndg/xacml/core/functions/__init__.py
+++ b/ndg/xacml/core/functions/__init__.py
@@ -749,7 +749,7 @@ class FunctionMap(VettedDict):
         @return: function class
         @rtype: ndg.xacml.core.functions.AbstractFunction / NotImplemented
         """
-        functionClass = VettedDict.get(self, key, *arg)
+        functionClass = VettedDict.get(self, key)
         if functionClass is None:
             self.loadFunction(key)
             return VettedDict.get(self, key, *arg)    
diff --git a/ndg/xacml/utils/__init__.py b/ndg/xacml/utils/__init__.py
index db208d2..2a305dd 100644
--- a/ndg/xacml/utils/__init__.py
+++ b/ndg/xacml/utils/__init__.py
@@ -281,9 +281,9 @@ class VettedDict(MutableMapping):
         if key in self.__map:
             return self.__map[key]
         
-        elif len(arg) > 1:
+        elif len(arg) > 0:
             # Default value set
-            return arg[1]
+            return arg[0]
         else:
             return None
           
-- 
2.43.0


From 9f6567ca826649bf2d50deea6f6410477b77666b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:27 +0000
Subject: [PATCH 11/42] fix: RestrictedKeyNamesDict takes unknown keys from
 setdefault and |= and fails to report them in update

---
 ndg/xacml/utils/__init__.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/ndg/xacml/utils/__init__.py b/ndg/xacml/utils/__init__.py
index 2a305dd..6d81d3f 100644
--- a/ndg/xacml/utils/__init__.py
+++ b/ndg/xacml/utils/__init__.py
@@ -193,9 +193,29 @@ class RestrictedKeyNamesDict(dict):
                 if k not in self.__keyNames:
                     raise KeyError('Key name "%s" not recognised.  Valid '
                                    'key names are: %s' % 
-                                   self.__keyNames)
+                                   (k, self.__keyNames))
         
         dict.update(self, d, **kw)
+
+    def setdefault(self, key, default=None):
+        """@param key: key for item to retrieve
+        @type key: any
+        @param default: value to set if there is none for this key
+        @type default: any
+        @return: value for this key
+        @rtype: any
+        """
+        if key not in self:
+            self[key] = default
+            
+        return self[key]
+
+    def __ior__(self, d):
+        """@param d: dictionary to update from
+        @type d: dict
+        """
+        self.update(dict(d))
+        return self
         
 
 _isIterable = lambda obj: getattr(obj, '__iter__', False)
-- 
2.43.0


From 9b37688aee9fcb81f2f20fe8b28d88d34cdf71c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:44 +0000
Subject: [PATCH 12/42] fix: function factories make functions of identifiers
 they do not provide

---
 ndg/xacml/core/functions/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ndg/xacml/core/functions/__init__.py b/ndg/xacml/core/functions/__init__.py
index f151eba..93c423f 100644
--- a/ndg/xacml/core/functions/__init__.py
+++ b/ndg/xacml/core/functions/__init__.py
@@ -503,6 +503,10 @@ class FunctionClassFactoryBase(FunctionClassFactoryInterface):
         # Check the cache first
         functionClass = self.__map.get(identifier)
         if functionClass is None:
+            if identifier not in self.__class__.FUNCTION_NAMES:
+                # Not a function this factory provides
+                return None
+
             # No class set in the cache - try loading the new class and updating
             # the cache.
             self.loadFunction(identifier)
-- 
2.43.0


From db6fe2027e28d53c15656971ef97c6ce3167b287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:12 +0000
Subject: [PATCH 13/42] fix: read the PolicySetDefaults element of a policy set

---
 ndg/xacml/core/policydefaults.py                | 1 +
 ndg/xacml/parsers/etree/policydefaultsreader.py | 3 ++-
 ndg/xacml/parsers/etree/policysetreader.py      | 4 ++--
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/ndg/xacml/core/policydefaults.py b/ndg/xacml/core/policydefaults.py
index 19f33a2..e664d49 100644
--- a/ndg/xacml/core/policydefaults.py
+++ b/ndg/xacml/core/policydefaults.py
@@ -24,6 +24,7 @@ class PolicyDefaults(XacmlCoreBase):
     @type __xpathVersion: basestring / NoneType
     """
     ELEMENT_LOCAL_NAME = 'PolicyDefaults'
+    POLICY_SET_ELEMENT_LOCAL_NAME = 'PolicySetDefaults'
     XPATH_VERSION_ELEMENT_NAME = 'XPathVersion'
     
     __slots__ = ('__xpathVersion', )
diff --git a/ndg/xacml/parsers/etree/policydefaultsreader.py b/ndg/xacml/parsers/etree/policydefaultsreader.py
index b4b4ba0..a52c8ac 100644
--- a/ndg/xacml/parsers/etree/policydefaultsreader.py
+++ b/ndg/xacml/parsers/etree/policydefaultsreader.py
@@ -40,7 +40,8 @@ class PolicyDefaultsReader(ETreeAbstractReader):
         policyDefaults = xacmlType()
         
         localName = QName.getLocalPart(elem.tag)
-        if localName != xacmlType.ELEMENT_LOCAL_NAME:
+        if localName not in (xacmlType.ELEMENT_LOCAL_NAME,
+                             xacmlType.POLICY_SET_ELEMENT_LOCAL_NAME):
             raise XMLParseError("No \"%s\" element found" % 
                                 xacmlType.ELEMENT_LOCAL_NAME)
         
diff --git a/ndg/xacml/parsers/etree/policysetreader.py b/ndg/xacml/parsers/etree/policysetreader.py
index c59b9d1..0c35c84 100644
--- a/ndg/xacml/parsers/etree/policysetreader.py
+++ b/ndg/xacml/parsers/etree/policysetreader.py
@@ -93,8 +93,8 @@ class PolicySetReader(ETreeAbstractReader):
 
             elif localName == xacmlType.POLICY_SET_DEFAULTS_LOCAL_NAME:
                 PolicyDefaultsReader = ReaderFactory.getReader(PolicyDefaults)
-                policySet.policyDefaults = PolicyDefaultsReader.parse(childElem,
-                                                                      common)
+                policySet.policySetDefaults = PolicyDefaultsReader.parse(
+                                                            childElem, common)
 
             elif localName == Target.ELEMENT_LOCAL_NAME:
                 TargetReader = ReaderFactory.getReader(Target)
-- 
2.43.0


From f7e5e385e65324a476a5d38ed2cbbba82f33e4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:36 +0000
Subject: [PATCH 14/42] fix: report unknown children of conditions and matches
 as parse errors

---
 ndg/xacml/parsers/etree/conditionreader.py | 5 ++---
 ndg/xacml/parsers/etree/matchreader.py     | 2 +-
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/ndg/xacml/parsers/etree/conditionreader.py b/ndg/xacml/parsers/etree/conditionreader.py
index 1692223..640bbc5 100644
--- a/ndg/xacml/parsers/etree/conditionreader.py
+++ b/ndg/xacml/parsers/etree/conditionreader.py
@@ -61,9 +61,8 @@ class ConditionReader(ETreeAbstractReader):
         if subElemlocalName == xacmlType.APPLY_ELEMENT_LOCAL_NAME:
             condition.expression = ApplyReader.parse(subElem, common)
         else:
-            raise XMLParseError('Expecting %r Condition sub-element not '
-                                'recognised' %
-                                xacmlType.EXPRESSION_ELEMENT_LOCAL_NAME)
+            raise XMLParseError('XACML Condition sub-element name %r not '
+                                'recognised' % subElemlocalName)
             
         
    
diff --git a/ndg/xacml/parsers/etree/matchreader.py b/ndg/xacml/parsers/etree/matchreader.py
index 9470afc..f1ee494 100644
--- a/ndg/xacml/parsers/etree/matchreader.py
+++ b/ndg/xacml/parsers/etree/matchreader.py
@@ -116,7 +116,7 @@ class MatchReaderBase(ETreeAbstractReader):
             else:
                 raise XMLParseError("XACML %r child element name %r not "
                                     "recognised" % 
-                                    (xacmlType.MATCH_TYPE.ELEMENT_LOCAL_NAME,
+                                    (xacmlType.ELEMENT_LOCAL_NAME,
                                      localName))
                     
         return match
-- 
2.43.0


From 0dff33494ce2a658c5d4f471e4673d67e82d9097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:04 +0000
Subject: [PATCH 15/42] fix: refuse a MustBePresent attribute that is not a
 boolean

---
 ndg/xacml/parsers/etree/__init__.py           | 26 +++++++++++++++++++
 .../etree/attributedesignatorreader.py        |  9 ++++---
 .../parsers/etree/attributeselectorreader.py  |  9 ++++---
 3 files changed, 36 insertions(+), 8 deletions(-)

diff --git a/ndg/xacml/parsers/etree/__init__.py b/ndg/xacml/parsers/etree/__init__.py
index f39f91b..f96858e 100644
--- a/ndg/xacml/parsers/etree/__init__.py
+++ b/ndg/xacml/parsers/etree/__init__.py
@@ -14,6 +14,8 @@ log = logging.getLogger(__name__)
 import re
 
 from ndg.xacml import Config, importElementTree
+from ndg.xacml.parsers import XMLParseError
+from ndg.xacml.utils import str2Bool
 ElementTree = importElementTree()
 
 class SerialisedElementTree(str):
@@ -67,6 +69,30 @@ def getElementChildren(element):
         yield childElem
 
 
+def getBooleanAttribute(element, attributeName):
+    """Get the value of an optional boolean attribute of an element.
+    @param element: element
+    @type element: ElementTree Element
+    @param attributeName: name of the attribute
+    @type attributeName: str
+    @return: the boolean or None if the element does not have the attribute
+    @rtype: bool / None
+    @raise XMLParseError: the attribute is not a boolean
+    """
+    value = element.attrib.get(attributeName)
+    if value is None:
+        return None
+
+    value = value.strip()
+    if str2Bool(value):
+        return True
+    elif value.lower() in ("no", "false", "f", "0"):
+        return False
+    else:
+        raise XMLParseError('Expecting a boolean for the "%s" attribute; got %r'
+                            % (attributeName, value))
+
+
 # Generic ElementTree Helper classes
 class QName(ElementTree.QName):
     """Extend ElementTree implementation for improved attribute access support
diff --git a/ndg/xacml/parsers/etree/attributedesignatorreader.py b/ndg/xacml/parsers/etree/attributedesignatorreader.py
index 133441e..1e31bfa 100644
--- a/ndg/xacml/parsers/etree/attributedesignatorreader.py
+++ b/ndg/xacml/parsers/etree/attributedesignatorreader.py
@@ -9,9 +9,8 @@ __contact__ = "Philip.Kershaw@stfc.ac.uk"
 __license__ = "BSD - see LICENSE file in top-level directory"
 __contact__ = "Philip.Kershaw@stfc.ac.uk"
 __revision__ = "$Id$"
-from ndg.xacml.utils import str2Bool
 from ndg.xacml.parsers import XMLParseError
-from ndg.xacml.parsers.etree import QName
+from ndg.xacml.parsers.etree import QName, getBooleanAttribute
 from ndg.xacml.parsers.etree.expressionreader import ExpressionReader
 
 
@@ -52,9 +51,11 @@ class AttributeDesignatorReaderBase(ExpressionReader):
         if issuer is not None:
             attributeDesignator.issuer = issuer
              
-        mustBePresent = elem.attrib.get(xacmlType.MUST_BE_PRESENT_ATTRIB_NAME)
+        mustBePresent = getBooleanAttribute(
+                                        elem,
+                                        xacmlType.MUST_BE_PRESENT_ATTRIB_NAME)
         if mustBePresent is not None:
-            attributeDesignator.mustBePresent = str2Bool(mustBePresent)
+            attributeDesignator.mustBePresent = mustBePresent
    
         return attributeDesignator
 
diff --git a/ndg/xacml/parsers/etree/attributeselectorreader.py b/ndg/xacml/parsers/etree/attributeselectorreader.py
index 60b7b3d..0b2d547 100644
--- a/ndg/xacml/parsers/etree/attributeselectorreader.py
+++ b/ndg/xacml/parsers/etree/attributeselectorreader.py
@@ -9,10 +9,9 @@ __contact__ = "Philip.Kershaw@stfc.ac.uk"
 __license__ = "BSD - see LICENSE file in top-level directory"
 __contact__ = "Philip.Kershaw@stfc.ac.uk"
 __revision__ = "$Id$"
-from ndg.xacml.utils import str2Bool
 from ndg.xacml.core.attributeselector import AttributeSelector
 from ndg.xacml.parsers import XMLParseError
-from ndg.xacml.parsers.etree import QName
+from ndg.xacml.parsers.etree import QName, getBooleanAttribute
 from ndg.xacml.parsers.etree.expressionreader import ExpressionReader
 
 
@@ -60,9 +59,11 @@ class AttributeSelectorReader(ExpressionReader):
              
         attributeSelector.requestContextPath, = attributeValues
         
-        mustBePresent = elem.attrib.get(xacmlType.MUST_BE_PRESENT_ATTRIB_NAME)
+        mustBePresent = getBooleanAttribute(
+                                        elem,
+                                        xacmlType.MUST_BE_PRESENT_ATTRIB_NAME)
         if mustBePresent is not None:
-            attributeSelector.mustBePresent = str2Bool(mustBePresent)
+            attributeSelector.mustBePresent = mustBePresent
          
         return attributeSelector
 
-- 
2.43.0


From 9a342b1c968d152e816ba22e79bae1b4dbf35fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:46 +0000
Subject: [PATCH 16/42] fix: refuse a rule or policy with two targets or
 conditions, and a match with two designators

---
 ndg/xacml/parsers/etree/matchreader.py     | 12 ++++++++++++
 ndg/xacml/parsers/etree/policyreader.py    |  4 ++++
 ndg/xacml/parsers/etree/policysetreader.py |  4 ++++
 ndg/xacml/parsers/etree/rulereader.py      |  8 ++++++++
 4 files changed, 28 insertions(+)

diff --git a/ndg/xacml/parsers/etree/matchreader.py b/ndg/xacml/parsers/etree/matchreader.py
index f1ee494..2e99eca 100644
--- a/ndg/xacml/parsers/etree/matchreader.py
+++ b/ndg/xacml/parsers/etree/matchreader.py
@@ -90,6 +90,12 @@ class MatchReaderBase(ETreeAbstractReader):
                                                                   common)
                 
             elif localName == attributeDesignatorType.ELEMENT_LOCAL_NAME:
+                if match.attributeDesignator is not None:
+                    raise XMLParseError("More than one %r element found in %r "
+                                        "element" %
+                                (attributeDesignatorType.ELEMENT_LOCAL_NAME,
+                                 xacmlType.ELEMENT_LOCAL_NAME))
+
                 if match.attributeSelector is not None:
                     raise XMLParseError("XACML %r child element may only be "
                                         "either a %r or %r element NOT both" %
@@ -101,6 +107,12 @@ class MatchReaderBase(ETreeAbstractReader):
                                                             childElem, common)
                         
             elif localName == AttributeSelector.ELEMENT_LOCAL_NAME:
+                if match.attributeSelector is not None:
+                    raise XMLParseError("More than one %r element found in %r "
+                                        "element" %
+                                        (AttributeSelector.ELEMENT_LOCAL_NAME,
+                                         xacmlType.ELEMENT_LOCAL_NAME))
+
                 if match.attributeDesignator is not None:
                     raise XMLParseError("XACML %r child element may only be "
                                         "either a %r or %r element NOT both" %
diff --git a/ndg/xacml/parsers/etree/policyreader.py b/ndg/xacml/parsers/etree/policyreader.py
index 1031de4..fa6737e 100644
--- a/ndg/xacml/parsers/etree/policyreader.py
+++ b/ndg/xacml/parsers/etree/policyreader.py
@@ -113,6 +113,10 @@ class PolicyReader(ETreeAbstractReader):
                                                                    common)
                    
             elif localName == Target.ELEMENT_LOCAL_NAME:
+                if policy.target is not None:
+                    raise XMLParseError("More than one Target element found in "
+                                        "%r element" %
+                                        xacmlType.ELEMENT_LOCAL_NAME)
                 TargetReader = ReaderFactory.getReader(Target)
                 policy.target = TargetReader.parse(childElem, common)
              
diff --git a/ndg/xacml/parsers/etree/policysetreader.py b/ndg/xacml/parsers/etree/policysetreader.py
index 0c35c84..b68be1f 100644
--- a/ndg/xacml/parsers/etree/policysetreader.py
+++ b/ndg/xacml/parsers/etree/policysetreader.py
@@ -97,6 +97,10 @@ class PolicySetReader(ETreeAbstractReader):
                                                             childElem, common)
 
             elif localName == Target.ELEMENT_LOCAL_NAME:
+                if policySet.target is not None:
+                    raise XMLParseError("More than one Target element found in "
+                                        "%r element" %
+                                        xacmlType.ELEMENT_LOCAL_NAME)
                 TargetReader = ReaderFactory.getReader(Target)
                 policySet.target = TargetReader.parse(childElem, common)
 
diff --git a/ndg/xacml/parsers/etree/rulereader.py b/ndg/xacml/parsers/etree/rulereader.py
index 5fdcce6..924048d 100644
--- a/ndg/xacml/parsers/etree/rulereader.py
+++ b/ndg/xacml/parsers/etree/rulereader.py
@@ -70,10 +70,18 @@ class RuleReader(ETreeAbstractReader):
                     rule.description = childElem.text.strip()
                     
             elif localName == Condition.ELEMENT_LOCAL_NAME:
+                if rule.condition is not None:
+                    raise XMLParseError("More than one Condition element found "
+                                        "in %r element" %
+                                        xacmlType.ELEMENT_LOCAL_NAME)
                 ConditionReader = ReaderFactory.getReader(Condition)
                 rule.condition = ConditionReader.parse(childElem, common)
                                    
             elif localName == Target.ELEMENT_LOCAL_NAME:
+                if rule.target is not None:
+                    raise XMLParseError("More than one Target element found in "
+                                        "%r element" %
+                                        xacmlType.ELEMENT_LOCAL_NAME)
                 TargetReader = ReaderFactory.getReader(Target)
                 rule.target = TargetReader.parse(childElem, common)
             
-- 
2.43.0


From b45c8c9c51493d5b17930c9c397f5ea935fb45f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:12 +0000
Subject: [PATCH 17/42] fix: refuse a match without a value or without a
 designator or selector

---
 ndg/xacml/parsers/etree/matchreader.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/ndg/xacml/parsers/etree/matchreader.py b/ndg/xacml/parsers/etree/matchreader.py
index 2e99eca..e9d1f13 100644
--- a/ndg/xacml/parsers/etree/matchreader.py
+++ b/ndg/xacml/parsers/etree/matchreader.py
@@ -130,7 +130,18 @@ class MatchReaderBase(ETreeAbstractReader):
                                     "recognised" % 
                                     (xacmlType.ELEMENT_LOCAL_NAME,
                                      localName))
-                    
+
+        if match.attributeValue is None:
+            raise XMLParseError("No %r element found in %r element" %
+                                (xacmlType.ATTRIBUTE_VALUE_ELEMENT_LOCAL_NAME,
+                                 xacmlType.ELEMENT_LOCAL_NAME))
+
+        if match.attributeDesignator is None and match.attributeSelector is None:
+            raise XMLParseError("No %r or %r element found in %r element" %
+                                (attributeDesignatorType.ELEMENT_LOCAL_NAME,
+                                 AttributeSelector.ELEMENT_LOCAL_NAME,
+                                 xacmlType.ELEMENT_LOCAL_NAME))
+
         return match
 
     
-- 
2.43.0


From 700edf79b4da03b063290e46a63aa766a97ae2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:45 +0000
Subject: [PATCH 18/42] fix: read the whole text of elements that contain
 comments

---
 ndg/xacml/parsers/etree/__init__.py           | 22 +++++++++++++++++++
 .../parsers/etree/attributevaluereader.py     |  7 +++---
 .../parsers/etree/policydefaultsreader.py     | 10 +++++----
 ndg/xacml/parsers/etree/policyreader.py       |  8 ++++---
 ndg/xacml/parsers/etree/policysetreader.py    | 12 +++++-----
 ndg/xacml/parsers/etree/rulereader.py         |  8 ++++---
 6 files changed, 49 insertions(+), 18 deletions(-)

diff --git a/ndg/xacml/parsers/etree/__init__.py b/ndg/xacml/parsers/etree/__init__.py
index f96858e..97bb4d1 100644
--- a/ndg/xacml/parsers/etree/__init__.py
+++ b/ndg/xacml/parsers/etree/__init__.py
@@ -69,6 +69,28 @@ def getElementChildren(element):
         yield childElem
 
 
+def getElementText(element):
+    """Get the text of an element that has no child elements. The text includes
+    any that follows a comment or processing instruction.
+    @param element: element
+    @type element: ElementTree Element
+    @return: text or None if the element is empty
+    @rtype: str / None
+    @raise XMLParseError: the element has child elements
+    """
+    texts = [element.text]
+    for childElem in element:
+        if isinstance(childElem.tag, str):
+            raise XMLParseError('Element %r not expected in element %r' %
+                                (childElem.tag, element.tag))
+        texts.append(childElem.tail)
+
+    texts = [text for text in texts if text is not None]
+    if not texts:
+        return None
+    return ''.join(texts)
+
+
 def getBooleanAttribute(element, attributeName):
     """Get the value of an optional boolean attribute of an element.
     @param element: element
diff --git a/ndg/xacml/parsers/etree/attributevaluereader.py b/ndg/xacml/parsers/etree/attributevaluereader.py
index 08903c1..43c4e6a 100644
--- a/ndg/xacml/parsers/etree/attributevaluereader.py
+++ b/ndg/xacml/parsers/etree/attributevaluereader.py
@@ -12,7 +12,7 @@ __revision__ = "$Id$"
 from ndg.xacml.core.attributevalue import (AttributeValue, 
                                            AttributeValueClassFactory)
 from ndg.xacml.parsers import XMLParseError
-from ndg.xacml.parsers.etree import QName
+from ndg.xacml.parsers.etree import QName, getElementText
 from ndg.xacml.parsers.etree.expressionreader import ExpressionReader
 from ndg.xacml.utils import VettedDict
 
@@ -90,11 +90,12 @@ class AttributeValueReader(ExpressionReader):
 class ETreeDataTypeReaderBase(object):  
     @classmethod
     def parse(cls, elem, attributeValue):
-        if elem.text is None:
+        text = getElementText(elem)
+        if text is None:
             raise XMLParseError('No attribute value element found parsing %r' % 
                                 AttributeValueReader.TYPE.ELEMENT_LOCAL_NAME) 
             
-        attributeValue.value = elem.text
+        attributeValue.value = text
 
         
 class ETreeDataTypeReaderClassMap(VettedDict):
diff --git a/ndg/xacml/parsers/etree/policydefaultsreader.py b/ndg/xacml/parsers/etree/policydefaultsreader.py
index a52c8ac..5e23ace 100644
--- a/ndg/xacml/parsers/etree/policydefaultsreader.py
+++ b/ndg/xacml/parsers/etree/policydefaultsreader.py
@@ -11,7 +11,8 @@ __contact__ = "Philip.Kershaw@stfc.ac.uk"
 __revision__ = "$Id$"
 from ndg.xacml.core.policydefaults import PolicyDefaults
 from ndg.xacml.parsers import XMLParseError
-from ndg.xacml.parsers.etree import QName
+from ndg.xacml.parsers.etree import (QName, getElementChildren,
+                                      getElementText)
 from ndg.xacml.parsers.etree.reader import ETreeAbstractReader
 
 
@@ -45,17 +46,18 @@ class PolicyDefaultsReader(ETreeAbstractReader):
             raise XMLParseError("No \"%s\" element found" % 
                                 xacmlType.ELEMENT_LOCAL_NAME)
         
-        if len(elem) != 1:
+        childElems = list(getElementChildren(elem))
+        if len(childElems) != 1:
             raise XMLParseError('Expecting a single child element for '
                                 'PolicyDefaults element')
             
-        if (QName.getLocalPart(elem[0].tag) != 
+        if (QName.getLocalPart(childElems[0].tag) != 
             xacmlType.XPATH_VERSION_ELEMENT_NAME):
             raise XMLParseError('Expecting a %r child element for '
                                 'PolicyDefaults element' % 
                                 xacmlType.XPATH_VERSION_ELEMENT_NAME)
         
-        xpathVersion = elem[0].text 
+        xpathVersion = getElementText(childElems[0])
         if xpathVersion is None:
             raise XMLParseError('No %r child element value set for '
                                 'PolicyDefaults element' % 
diff --git a/ndg/xacml/parsers/etree/policyreader.py b/ndg/xacml/parsers/etree/policyreader.py
index fa6737e..35d8695 100644
--- a/ndg/xacml/parsers/etree/policyreader.py
+++ b/ndg/xacml/parsers/etree/policyreader.py
@@ -15,7 +15,8 @@ from ndg.xacml.core.policydefaults import PolicyDefaults
 from ndg.xacml.core.variabledefinition import VariableDefinition
 from ndg.xacml.core.rule import Rule
 from ndg.xacml.core.target import Target
-from ndg.xacml.parsers.etree import QName, getElementChildren
+from ndg.xacml.parsers.etree import (QName, getElementChildren,
+                                      getElementText)
 from ndg.xacml.parsers.etree.reader import ETreeAbstractReader
 from ndg.xacml.parsers.etree.factory import ReaderFactory
     
@@ -104,8 +105,9 @@ class PolicyReader(ETreeAbstractReader):
             localName = QName.getLocalPart(childElem.tag)
             
             if localName == xacmlType.DESCRIPTION_LOCAL_NAME:
-                if childElem.text is not None:
-                    policy.description = childElem.text.strip()
+                description = getElementText(childElem)
+                if description is not None:
+                    policy.description = description.strip()
                     
             elif localName == xacmlType.POLICY_DEFAULTS_LOCAL_NAME:
                 PolicyDefaultsReader = ReaderFactory.getReader(PolicyDefaults)
diff --git a/ndg/xacml/parsers/etree/policysetreader.py b/ndg/xacml/parsers/etree/policysetreader.py
index b68be1f..5917ba5 100644
--- a/ndg/xacml/parsers/etree/policysetreader.py
+++ b/ndg/xacml/parsers/etree/policysetreader.py
@@ -15,7 +15,8 @@ from ndg.xacml.core.policydefaults import PolicyDefaults
 from ndg.xacml.core.policyset import PolicySet
 from ndg.xacml.core.variabledefinition import VariableDefinition
 from ndg.xacml.core.target import Target
-from ndg.xacml.parsers.etree import QName, getElementChildren
+from ndg.xacml.parsers.etree import (QName, getElementChildren,
+                                      getElementText)
 from ndg.xacml.parsers.etree.reader import ETreeAbstractReader
 from ndg.xacml.parsers.etree.factory import ReaderFactory
 
@@ -88,8 +89,9 @@ class PolicySetReader(ETreeAbstractReader):
             localName = QName.getLocalPart(childElem.tag)
 
             if localName == xacmlType.DESCRIPTION_LOCAL_NAME:
-                if childElem.text is not None:
-                    policySet.description = childElem.text.strip()
+                description = getElementText(childElem)
+                if description is not None:
+                    policySet.description = description.strip()
 
             elif localName == xacmlType.POLICY_SET_DEFAULTS_LOCAL_NAME:
                 PolicyDefaultsReader = ReaderFactory.getReader(PolicyDefaults)
@@ -126,7 +128,7 @@ class PolicySetReader(ETreeAbstractReader):
                 policySet.policies.append(policy)
 
             elif localName == Policy.POLICY_ID_REFERENCE:
-                policyIdReference = childElem.text
+                policyIdReference = getElementText(childElem)
                 policySet.policies.append(self._getReferencedPolicy(common,
                                                             policyIdReference))
 
@@ -136,7 +138,7 @@ class PolicySetReader(ETreeAbstractReader):
                 policySet.policies.append(policySetChild)
 
             elif localName == PolicySet.POLICY_SET_ID_REFERENCE:
-                policySetIdReference = childElem.text
+                policySetIdReference = getElementText(childElem)
                 policySet.policies.append(self._getReferencedPolicySet(common,
                                                         policySetIdReference))
 
diff --git a/ndg/xacml/parsers/etree/rulereader.py b/ndg/xacml/parsers/etree/rulereader.py
index 924048d..0df081c 100644
--- a/ndg/xacml/parsers/etree/rulereader.py
+++ b/ndg/xacml/parsers/etree/rulereader.py
@@ -13,7 +13,8 @@ from ndg.xacml.core.rule import Rule, Effect
 from ndg.xacml.core.condition import Condition
 from ndg.xacml.core.target import Target
 from ndg.xacml.parsers import XMLParseError
-from ndg.xacml.parsers.etree import QName, getElementChildren
+from ndg.xacml.parsers.etree import (QName, getElementChildren,
+                                      getElementText)
 from ndg.xacml.parsers.etree.reader import ETreeAbstractReader
 from ndg.xacml.parsers.etree.factory import ReaderFactory
 
@@ -66,8 +67,9 @@ class RuleReader(ETreeAbstractReader):
             localName = QName.getLocalPart(childElem.tag)
             
             if localName == xacmlType.DESCRIPTION_LOCAL_NAME:
-                if childElem.text is not None:
-                    rule.description = childElem.text.strip()
+                description = getElementText(childElem)
+                if description is not None:
+                    rule.description = description.strip()
                     
             elif localName == Condition.ELEMENT_LOCAL_NAME:
                 if rule.condition is not None:
-- 
2.43.0


From a325d6d5c3d0328d64b1b1c1176d2c773e13517a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:10 +0000
Subject: [PATCH 19/42] fix: make the default policy finder for policies read
 from file objects and elements

---
 ndg/xacml/finder/defaultfinder.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ndg/xacml/finder/defaultfinder.py b/ndg/xacml/finder/defaultfinder.py
index 5494742..f31c5ff 100644
--- a/ndg/xacml/finder/defaultfinder.py
+++ b/ndg/xacml/finder/defaultfinder.py
@@ -30,8 +30,10 @@ def getDefaultPolicyFinder(source):
     if isinstance(source, str):
         if os.path.exists(source):
             basePath = os.path.dirname(source)
-    elif isinstance(source, file):
-        if hasattr(file, 'name') and file.name:
-            basePath = os.path.dirname(file.name)
+    else:
+        # File objects know the path of the file
+        name = getattr(source, 'name', None)
+        if isinstance(name, str) and os.path.exists(name):
+            basePath = os.path.dirname(name)
     finder = UrlPolicyFinder(basePath)
     return finder
-- 
2.43.0


From 2e9195add9ff45e134be02b01bb1766180a6bc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:26 +0000
Subject: [PATCH 20/42] fix: resolve references in a policy given by a relative
 path

---
 ndg/xacml/finder/defaultfinder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ndg/xacml/finder/defaultfinder.py b/ndg/xacml/finder/defaultfinder.py
index f31c5ff..dab11c2 100644
--- a/ndg/xacml/finder/defaultfinder.py
+++ b/ndg/xacml/finder/defaultfinder.py
@@ -29,11 +29,11 @@ def getDefaultPolicyFinder(source):
     basePath = None
     if isinstance(source, str):
         if os.path.exists(source):
-            basePath = os.path.dirname(source)
+            basePath = os.path.dirname(os.path.abspath(source))
     else:
         # File objects know the path of the file
         name = getattr(source, 'name', None)
         if isinstance(name, str) and os.path.exists(name):
-            basePath = os.path.dirname(name)
+            basePath = os.path.dirname(os.path.abspath(name))
     finder = UrlPolicyFinder(basePath)
     return finder
-- 
2.43.0


From 5d200aeb05289299605ad1b591d2a03859117d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:00 +0000
Subject: [PATCH 21/42] fix: make PolicySet.fromSource work

---
 ndg/xacml/core/policyset.py | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/ndg/xacml/core/policyset.py b/ndg/xacml/core/policyset.py
index 7cc9030..ce689c2 100644
--- a/ndg/xacml/core/policyset.py
+++ b/ndg/xacml/core/policyset.py
@@ -14,7 +14,7 @@ import logging
 log = logging.getLogger(__name__)
 
 from ndg.xacml.utils import TypedList
-from ndg.xacml.parsers import AbstractReaderFactory, AbstractReader
+from ndg.xacml.finder.defaultfinder import getDefaultPolicyFinder
 from ndg.xacml.core.policybase import PolicyBase
 from ndg.xacml.core.policydefaults import PolicyDefaults
 from ndg.xacml.core.target import Target
@@ -131,8 +131,8 @@ class PolicySet(PolicyBase):
         self.__policyCombiningAlg = None
 
     @classmethod
-    def fromSource(cls, source, readerFactory):
-        """Create a new policy from the input source parsing it using a
+    def fromSource(cls, source, readerFactory, finder=None):
+        """Create a new policy set from the input source parsing it using a
         reader from the required reader factory e.g. ETreeReaderFactory to use
         ElementTree based parsing
 
@@ -142,20 +142,19 @@ class PolicySet(PolicyBase):
         @param readerFactory: factory class returns reader class used to parse
         the policy
         @type readerFactory: ndg.xacml.parsers.AbstractReaderFactory
-        @return: new policy instance
-        @rtype: ndg.xacml.core.policy.Policy
+        @param finder: policy finder; if None, the default one for the source
+        @type finder: ndg.xacml.finder.PolicyFinderBase subclass
+        @return: new policy set instance
+        @rtype: ndg.xacml.core.policyset.PolicySet
         """
-        if not issubclass(readerFactory, AbstractReaderFactory):
-            raise TypeError('Expecting %r derived class for reader factory '
-                            'method; got %r' % (AbstractReaderFactory,
-                                                readerFactory))
-
-        reader = readerFactory.getReader(cls)
-        if not issubclass(reader, AbstractReader):
-            raise TypeError('Expecting %r derived class for reader class; '
-                            'got %r' % (AbstractReader, reader))
-
-        return reader.parse(source)
+        if finder is None:
+            finder = getDefaultPolicyFinder(source)
+
+        policySet = PolicyBase.fromSource(source, readerFactory, finder)
+        if not isinstance(policySet, cls):
+            raise TypeError('Expecting a %r source; got %r' % (cls,
+                                                            type(policySet)))
+        return policySet
 
     def _getPolicyCombiningAlgFactory(self):
         """
-- 
2.43.0


From 544044ba211a227960c769923e282f20edf562fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:33 +0000
Subject: [PATCH 22/42] fix: add the missing readers of environment designators
 and matches

---
 .../environmentattributedesignatorreader.py   | 23 +++++++++++++++
 .../parsers/etree/environmentmatchreader.py   | 28 +++++++++++++++++++
 2 files changed, 51 insertions(+)
 create mode 100644 ndg/xacml/parsers/etree/environmentattributedesignatorreader.py
 create mode 100644 ndg/xacml/parsers/etree/environmentmatchreader.py

diff --git a/ndg/xacml/parsers/etree/environmentattributedesignatorreader.py b/ndg/xacml/parsers/etree/environmentattributedesignatorreader.py
new file mode 100644
index 0000000..51b39e9
--- /dev/null
+++ b/ndg/xacml/parsers/etree/environmentattributedesignatorreader.py
@@ -0,0 +1,23 @@
+"""NDG XACML ElementTree based reader for EnvironmentAttributeDesignator type
+
+NERC DataGrid
+"""
+__author__ = "P J Kershaw"
+__date__ = "19/03/10"
+__copyright__ = "(C) 2010 Science and Technology Facilities Council"
+__contact__ = "Philip.Kershaw@stfc.ac.uk"
+__license__ = "BSD - see LICENSE file in top-level directory"
+__contact__ = "Philip.Kershaw@stfc.ac.uk"
+__revision__ = "$Id$"
+from ndg.xacml.core.attributedesignator import EnvironmentAttributeDesignator
+from ndg.xacml.parsers.etree.attributedesignatorreader import \
+    AttributeDesignatorReaderBase
+
+
+class EnvironmentAttributeDesignatorReader(AttributeDesignatorReaderBase): 
+    '''ElementTree based XACML Environment Attribute Designator type parser
+    
+    @cvar TYPE: XACML class type that this reader will read values into
+    @type TYPE: abc.ABCMeta
+    '''
+    TYPE = EnvironmentAttributeDesignator
diff --git a/ndg/xacml/parsers/etree/environmentmatchreader.py b/ndg/xacml/parsers/etree/environmentmatchreader.py
new file mode 100644
index 0000000..6993098
--- /dev/null
+++ b/ndg/xacml/parsers/etree/environmentmatchreader.py
@@ -0,0 +1,28 @@
+"""NDG XACML ElementTree based reader for environment match type
+
+NERC DataGrid
+"""
+__author__ = "P J Kershaw"
+__date__ = "16/03/10"
+__copyright__ = "(C) 2010 Science and Technology Facilities Council"
+__contact__ = "Philip.Kershaw@stfc.ac.uk"
+__license__ = "BSD - see LICENSE file in top-level directory"
+__contact__ = "Philip.Kershaw@stfc.ac.uk"
+__revision__ = "$Id$"
+from ndg.xacml.core.match import EnvironmentMatch
+from ndg.xacml.core.attributedesignator import EnvironmentAttributeDesignator
+from ndg.xacml.parsers.etree.matchreader import MatchReaderBase
+
+
+class EnvironmentMatchReader(MatchReaderBase):
+    """ElementTree based parser for XACML EnvironmentMatch
+        
+    @cvar TYPE: XACML class type that this reader will read values into
+    @type TYPE: type
+    
+    @cvar ATTRIBUTE_DESIGNATOR_TYPE: type of attribute designator that this 
+    match type holds
+    @type ATTRIBUTE_DESIGNATOR_TYPE: abc.ABCMeta
+    """
+    TYPE = EnvironmentMatch
+    ATTRIBUTE_DESIGNATOR_TYPE = EnvironmentAttributeDesignator
-- 
2.43.0


From f9272a9af6db00df4a592f2f9f096dcdeeb89e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:20 +0000
Subject: [PATCH 23/42] fix: keep UniqList free of duplicates on construction
 and insertion

---
 ndg/xacml/utils/__init__.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/ndg/xacml/utils/__init__.py b/ndg/xacml/utils/__init__.py
index 6d81d3f..67a8cd4 100644
--- a/ndg/xacml/utils/__init__.py
+++ b/ndg/xacml/utils/__init__.py
@@ -20,6 +20,14 @@ class UniqList(list):
     from the list
     """
     
+    def __init__(self, *arg):
+        """
+        @param arg: optional iterable object of initial items
+        @type arg: tuple
+        """
+        super(UniqList, self).__init__()
+        self.extend(list(*arg))
+
     def extend(self, iter):
         """Extend a list with input iterable
         @param iter: iterable object
@@ -47,6 +55,19 @@ class UniqList(list):
             
         return super(UniqList, self).append(item)
 
+    def insert(self, index, item):
+        """Insert an item in the list
+        @param index: position to insert before
+        @type index: int
+        @param item: item to insert
+        @type item: any
+        """
+        for i in self:
+            if i == item:
+                return None
+
+        return super(UniqList, self).insert(index, item)
+
 
 class TypedList(list):
     """Extend list type to enabled only items of a given type.  Supports
-- 
2.43.0


From 8c5a745e767d1b67fa222196f78b83fbdb38a4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:20 +0000
Subject: [PATCH 24/42] fix: read request attributes without
 Element.getchildren

getchildren was removed from ElementTree in Python 3.9, so reading any
request with an attribute raised AttributeError.
---
 ndg/xacml/parsers/etree/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndg/xacml/parsers/etree/context.py b/ndg/xacml/parsers/etree/context.py
index cf63130..cde71f0 100644
--- a/ndg/xacml/parsers/etree/context.py
+++ b/ndg/xacml/parsers/etree/context.py
@@ -416,7 +416,7 @@ class AttributeElementTree(Attribute):
             attribute.issuer = issuer
 
         # Parse sub-elements
-        if len(elem.getchildren()) == 0:
+        if len(list(getElementChildren(elem))) == 0:
             raise XMLParseError("XACML context Attribute element has no "
                                 "AttributeValues")
         AttributeValueClass = cls.attributeValueClassFactory(attribute.dataType)
-- 
2.43.0


From d104cb718f8951cd40a0fbb78e28734825f2b9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:29 +0000
Subject: [PATCH 25/42] fix: read the whole text of request attribute values

Text after a comment was dropped, elements within were ignored, and an
empty element made a value of None rather than the empty string.
---
 ndg/xacml/parsers/etree/context.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ndg/xacml/parsers/etree/context.py b/ndg/xacml/parsers/etree/context.py
index cde71f0..2179899 100644
--- a/ndg/xacml/parsers/etree/context.py
+++ b/ndg/xacml/parsers/etree/context.py
@@ -28,7 +28,8 @@ from ndg.xacml.core.context.result import Decision, Result
 from ndg.xacml.core.context.subject import Subject
 from ndg.xacml.parsers import XMLParseError
 import ndg.xacml.parsers.etree as etree
-from ndg.xacml.parsers.etree import QName, getElementChildren
+from ndg.xacml.parsers.etree import (QName, getElementChildren,
+                                     getElementText)
 
 
 class RequestElementTree(Request):
@@ -424,7 +425,8 @@ class AttributeElementTree(Attribute):
             localName = QName.getLocalPart(childElem.tag)
 
             if localName == Attribute.ATTRIBUTE_VALUE_ELEMENT_LOCAL_NAME:
-                attributeValue = AttributeValueClass(childElem.text)
+                attributeValue = AttributeValueClass(
+                                            getElementText(childElem) or '')
                 attribute.attributeValues.append(attributeValue)
 
             else:
-- 
2.43.0


From c6247a9c1cd2f8f3e6bf71cf7977ff68505fafcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:39 +0000
Subject: [PATCH 26/42] fix: write the category of the subjects of a request

It was dropped, so that every subject was read back as the access subject.
---
 ndg/xacml/parsers/etree/context.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ndg/xacml/parsers/etree/context.py b/ndg/xacml/parsers/etree/context.py
index 2179899..3088b51 100644
--- a/ndg/xacml/parsers/etree/context.py
+++ b/ndg/xacml/parsers/etree/context.py
@@ -142,6 +142,9 @@ class SubjectElementTree(Subject):
                                XacmlContextBase.XACML_2_0_CONTEXT_NS_PREFIX,
                                XacmlContextBase.XACML_2_0_CONTEXT_NS)
 
+        if subject.subjectCategory is not None:
+            elem.set(cls.SUBJECT_CATEGORY_ATTRIB_NAME, subject.subjectCategory)
+
         for attribute in subject.attributes:
             attributeElem = AttributeElementTree.toXML(attribute)
             elem.append(attributeElem)
-- 
2.43.0


From a2e87fc11cb58b111916d3978dd272311b00054e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:48 +0000
Subject: [PATCH 27/42] fix: convert results with a resource identifier to XML

attrib is a dict: attrib.append[...] raised AttributeError.
---
 ndg/xacml/parsers/etree/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndg/xacml/parsers/etree/context.py b/ndg/xacml/parsers/etree/context.py
index 3088b51..7f5512a 100644
--- a/ndg/xacml/parsers/etree/context.py
+++ b/ndg/xacml/parsers/etree/context.py
@@ -517,7 +517,7 @@ class ResultElementTree(Result):
         attrib = {}
         # ResourceId attribute is optional.
         if result.resourceId is not None:
-            attrib.append[cls.RESOURCE_ID_ATTRIB_NAME] = result.resourceId
+            attrib[cls.RESOURCE_ID_ATTRIB_NAME] = result.resourceId
 
         elem = etree.makeEtreeElement(tag,
                                XacmlContextBase.XACML_2_0_CONTEXT_NS_PREFIX,
-- 
2.43.0


From 25004a88dd8d43549363590d7aa88a3bccb134ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:56 +0000
Subject: [PATCH 28/42] fix: set the resource identifier given to
 Result.createInitialised

It was ignored.  The default, an empty string, stands for none.
---
 ndg/xacml/core/context/result.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ndg/xacml/core/context/result.py b/ndg/xacml/core/context/result.py
index 2d09d56..e7da5b6 100644
--- a/ndg/xacml/core/context/result.py
+++ b/ndg/xacml/core/context/result.py
@@ -560,6 +560,9 @@ class Result(XacmlContextBase):
         result.decision.value = decision
         result.status = Status.createInitialised(**kw)
         
+        if resourceId:
+            result.resourceId = resourceId
+
         if obligations is not None:
             result.obligations = obligations
             
-- 
2.43.0


From 413c5489e3f6c510e2e459741c7e56c7e0a8ef12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:04 +0000
Subject: [PATCH 29/42] fix: pass the namespace map and attributes to lxml in
 the right order

The namespace was written as an attribute, and attributes were taken as
namespace declarations.
---
 ndg/xacml/parsers/etree/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndg/xacml/parsers/etree/__init__.py b/ndg/xacml/parsers/etree/__init__.py
index 97bb4d1..1504bd8 100644
--- a/ndg/xacml/parsers/etree/__init__.py
+++ b/ndg/xacml/parsers/etree/__init__.py
@@ -28,7 +28,7 @@ if Config.use_lxml:
         """Makes an ElementTree element handling namespaces in the way
         appropriate for the ElementTree implementation in use.
         """
-        elem = ElementTree.Element(tag, {ns_prefix: ns_uri}, attrib, **extra)
+        elem = ElementTree.Element(tag, attrib, {ns_prefix: ns_uri}, **extra)
         return elem
 
     def serialiseIfElementTree(obj):
-- 
2.43.0


From f64a930aed5768412cc2d15e94d53e08700d22f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:14 +0000
Subject: [PATCH 30/42] fix: declare the context namespace for attribute values

The element name was given for the namespace.
---
 ndg/xacml/parsers/etree/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndg/xacml/parsers/etree/context.py b/ndg/xacml/parsers/etree/context.py
index 7f5512a..2816e8c 100644
--- a/ndg/xacml/parsers/etree/context.py
+++ b/ndg/xacml/parsers/etree/context.py
@@ -388,7 +388,7 @@ class AttributeElementTree(Attribute):
                                  Attribute.ATTRIBUTE_VALUE_ELEMENT_LOCAL_NAME))
             valueElem = etree.makeEtreeElement(valueTag,
                                XacmlContextBase.XACML_2_0_CONTEXT_NS_PREFIX,
-                               Attribute.ATTRIBUTE_VALUE_ELEMENT_LOCAL_NAME)
+                               XacmlContextBase.XACML_2_0_CONTEXT_NS)
             valueElem.text = attributeValue.value
             elem.append(valueElem)
             ### TODO AttributeValue is a sequence of xs:any with xs:anyAttribute
-- 
2.43.0


From 00ca3b2ebb95b9aa64e82270efccf47b7e5cda40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:41 +0000
Subject: [PATCH 31/42] fix: unpickle typed lists

pickle adds the elements before it restores the state, so that append found
no element type: AttributeError.
---
 ndg/xacml/utils/__init__.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ndg/xacml/utils/__init__.py b/ndg/xacml/utils/__init__.py
index 67a8cd4..040d8e3 100644
--- a/ndg/xacml/utils/__init__.py
+++ b/ndg/xacml/utils/__init__.py
@@ -85,6 +85,12 @@ class TypedList(list):
         super(TypedList, self).__init__()
         self.extend(list(*arg, **kw))
 
+    def __reduce__(self):
+        """Enable pickling: the element type is needed before any elements
+        can be added
+        """
+        return self.__class__, (self.__elementType, list(self))
+
     def __repr__(self):
         """@return: represent instance giving type information about the 
         elements
-- 
2.43.0


From 2db3e48cf3c314499712a3ba1f6c3c80162a8469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:50 +0000
Subject: [PATCH 32/42] fix: pickle attribute values

Their classes could not be found by name: the module was taken to be abc.
---
 ndg/xacml/core/attributevalue.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ndg/xacml/core/attributevalue.py b/ndg/xacml/core/attributevalue.py
index 81b6dd5..868539f 100644
--- a/ndg/xacml/core/attributevalue.py
+++ b/ndg/xacml/core/attributevalue.py
@@ -279,9 +279,12 @@ class AttributeValueClassFactory(object):
         _identifier = AttributeValue.TYPE_URI_MAP[_typeName]
     
         _className = _typeName + AttributeValue.CLASS_NAME_SUFFIX               
-        _classVars = {'TYPE': _type, 'IDENTIFIER': _identifier}
+        _classVars = {'TYPE': _type, 'IDENTIFIER': _identifier,
+                      '__module__': __name__}
         
         _attributeValueClass = type(_className, (AttributeValue, ), _classVars)
+        # Make the class importable so that its instances can be pickled
+        globals()[_className] = _attributeValueClass
         AttributeValue.register(_attributeValueClass)
         IDENTIFIER2CLASS_MAP[_identifier] = _attributeValueClass
     
-- 
2.43.0


From fb15b8d30ef9428f34bd43fa222a60b95daf7d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:59 +0000
Subject: [PATCH 33/42] fix: pickle and copy the whole state of XACML objects

Attributes could not be unpickled or copied, attribute values came back
without their value, and subjects, statuses and status codes without any
of their content: their classes have __slots__ but no __setstate__, or a
__getstate__ that leaves out their own slots.
---
 ndg/xacml/core/__init__.py | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/ndg/xacml/core/__init__.py b/ndg/xacml/core/__init__.py
index 5726142..c3df33b 100644
--- a/ndg/xacml/core/__init__.py
+++ b/ndg/xacml/core/__init__.py
@@ -108,17 +108,28 @@ class XacmlCoreBase(object):
         @return: object's attribute dictionary
         @rtype: dict
         '''
-        _dict = {}
-        for attrName in XacmlCoreBase.__slots__:
-            # Ugly hack to allow for derived classes setting private member
-            # variables
-            if attrName.startswith('__'):
-                attrName = "_XacmlCoreBase" + attrName
-                
-            _dict[attrName] = getattr(self, attrName)
-            
+        _dict = dict(getattr(self, '__dict__', {}))
+        for _class in self.__class__.__mro__:
+            slots = _class.__dict__.get('__slots__', ())
+            if isinstance(slots, str):
+                slots = (slots,)
+
+            for attrName in slots:
+                # Ugly hack to allow for derived classes setting private member
+                # variables
+                if attrName.startswith('__'):
+                    attrName = '_' + _class.__name__.lstrip('_') + attrName
+
+                if hasattr(self, attrName):
+                    _dict[attrName] = getattr(self, attrName)
+
         return _dict
-            
+
+    def __setstate__(self, attrDict):
+        '''Explicit implementation needed with __slots__'''
+        for attrName, val in list(attrDict.items()):
+            setattr(self, attrName, val)
+
 
 class XacmlPolicyBase(XacmlCoreBase):
     """Base class for policy types
-- 
2.43.0


From 1c364bce662b1540964af8222eac8f4e78370f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:07 +0000
Subject: [PATCH 34/42] fix: keep the base class state of pickled attributes

After unpickling, access to xmlns or elem raised AttributeError.
---
 ndg/xacml/core/attribute.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndg/xacml/core/attribute.py b/ndg/xacml/core/attribute.py
index 936c531..7fe1eb3 100644
--- a/ndg/xacml/core/attribute.py
+++ b/ndg/xacml/core/attribute.py
@@ -146,7 +146,7 @@ class Attribute(XacmlCoreBase):
         @return: class instance attributes dictionary
         @rtype: dict
         '''
-        _dict = {}
+        _dict = super(Attribute, self).__getstate__()
         for attrName in Attribute.__slots__:
             # Ugly hack to allow for derived classes setting private member
             # variables
-- 
2.43.0


From b94c88d4964ff15fa739225e1d71e80ccd902609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:58 +0000
Subject: [PATCH 35/42] fix: comparing an obligation effect with something
 foreign is a TypeError

The message referred to a variable that was not set.
---
 ndg/xacml/core/obligation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndg/xacml/core/obligation.py b/ndg/xacml/core/obligation.py
index 13c6f7f..a1b915f 100644
--- a/ndg/xacml/core/obligation.py
+++ b/ndg/xacml/core/obligation.py
@@ -130,7 +130,7 @@ class Effect(object):
             
         else:
             raise TypeError('Expecting string or Effect instance for '
-                            'input effect value; got %r instead' % type(value))
+                            'input effect value; got %r instead' % type(effect))
             
         if value not in self.__class__.TYPES:
             raise AttributeError('Permissable effect types are %r; got '
-- 
2.43.0


From 40a49e8864e78232520130b035c4ec2bcec9ef90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:08 +0000
Subject: [PATCH 36/42] fix: converting a request to XML leaves its resource
 content in place

With lxml appending an element moves it: the content was lost from the
element of the request, so attribute selectors no longer found it.
---
 ndg/xacml/parsers/etree/context.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ndg/xacml/parsers/etree/context.py b/ndg/xacml/parsers/etree/context.py
index 2816e8c..a9554d7 100644
--- a/ndg/xacml/parsers/etree/context.py
+++ b/ndg/xacml/parsers/etree/context.py
@@ -9,6 +9,7 @@ __license__ = "BSD - see LICENSE file in top-level directory"
 __contact__ = "Philip.Kershaw@stfc.ac.uk"
 __revision__ = "$Id$"
 
+import copy
 import logging
 log = logging.getLogger(__name__)
 
@@ -210,7 +211,9 @@ class ResourceElementTree(Resource):
             if not ElementTree.iselement(resource.resourceContent):
                 raise TypeError("Expecting ElementTree element got %r" %
                                                 type(resource.resourceContent))
-            elem.append(resource.resourceContent)
+            # Appending moves an element with lxml, so leave the original where
+            # it is
+            elem.append(copy.deepcopy(resource.resourceContent))
 
         for attribute in resource.attributes:
             attributeElem = AttributeElementTree.toXML(attribute)
-- 
2.43.0


From 5459c63b3bfa146233d941fdfaa704f23969530a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:20 +0000
Subject: [PATCH 37/42] fix: read a decision with a comment inside

---
 ndg/xacml/parsers/etree/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndg/xacml/parsers/etree/context.py b/ndg/xacml/parsers/etree/context.py
index a9554d7..348adc8 100644
--- a/ndg/xacml/parsers/etree/context.py
+++ b/ndg/xacml/parsers/etree/context.py
@@ -613,6 +613,6 @@ class DecisionElementTree(Decision):
 
         decision = Decision()
 
-        decision.value = elem.text
+        decision.value = getElementText(elem)
 
         return decision
-- 
2.43.0


From d44547312bf093caf77e22e6516f5070e491d14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:32 +0000
Subject: [PATCH 38/42] fix: select the text that follows a comment

A selected value ended at the first comment inside it.
---
 ndg/xacml/utils/xpath_selector.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/ndg/xacml/utils/xpath_selector.py b/ndg/xacml/utils/xpath_selector.py
index f8d7bc9..dd87acd 100644
--- a/ndg/xacml/utils/xpath_selector.py
+++ b/ndg/xacml/utils/xpath_selector.py
@@ -12,6 +12,26 @@ from abc import ABCMeta, abstractmethod
 from ndg.xacml import Config, importElementTree
 ElementTree = importElementTree()
 
+def _getText(elem):
+    """Get the text of an element up to its first child element. The text
+    includes any that follows a comment or processing instruction.
+    @type elem: ElementTree.Element
+    @param elem: element
+    @rtype: str / None
+    @return: text or None if there is none
+    """
+    texts = [elem.text]
+    for childElem in elem:
+        if isinstance(childElem.tag, str):
+            break
+        texts.append(childElem.tail)
+
+    texts = [text for text in texts if text is not None]
+    if not texts:
+        return None
+    return ''.join(texts)
+
+
 class XPathSelectorInterface(object, metaclass=ABCMeta):
     """Interface for XPath selectors.
     """
@@ -70,7 +90,7 @@ class EtreeXPathSelector(XPathSelectorInterface):
                 # Allow for XPath expression selecting element text or attribute
                 # values.
                 if hasattr(m, 'text'):
-                    returnList.append(m.text)
+                    returnList.append(_getText(m))
                 else:
                     returnList.append(m.__str__())
             return returnList
@@ -90,4 +110,4 @@ class EtreeXPathSelector(XPathSelectorInterface):
             else:
                 relPath = path
             elems = self.contextElem.findall(relPath)
-            return [e.text for e in elems]
+            return [_getText(e) for e in elems]
-- 
2.43.0


From 7416b32e0336a74b3f5e90212407b564c1be4dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:43 +0000
Subject: [PATCH 39/42] fix: pickle requests read with lxml

An lxml element cannot be pickled: the element of a request and that of
its selector are serialised, as the content of a resource is.  Text that
follows the element is no part of it.
---
 ndg/xacml/core/context/request.py   | 10 +++++++++-
 ndg/xacml/parsers/etree/__init__.py |  3 ++-
 ndg/xacml/utils/xpath_selector.py   | 17 +++++++++++++++++
 3 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/ndg/xacml/core/context/request.py b/ndg/xacml/core/context/request.py
index 55b6420..41a0b1a 100644
--- a/ndg/xacml/core/context/request.py
+++ b/ndg/xacml/core/context/request.py
@@ -19,6 +19,7 @@ from ndg.xacml.core.context.resource import Resource
 from ndg.xacml.core.context.action import Action
 from ndg.xacml.core.context.environment import Environment
 from ndg.xacml.core.context.handlerinterface import CtxHandlerInterface
+import ndg.xacml.parsers.etree as etree
 from ndg.xacml.utils.xpath_selector import XPathSelectorInterface
 
 
@@ -184,5 +185,12 @@ class Request(XacmlContextBase):
                 attrName = "_Request" + attrName
                 
             _dict[attrName] = getattr(self, attrName)
-            
+
+        # An lxml element can't be pickled
+        _dict['_XacmlCoreBase__elem'] = etree.serialiseIfElementTree(self.elem)
         return _dict
+
+    def __setstate__(self, attrDict):
+        '''Explicit implementation needed with __slots__'''
+        for attrName, val in list(attrDict.items()):
+            setattr(self, attrName, etree.deserialiseIfElementTree(val))
diff --git a/ndg/xacml/parsers/etree/__init__.py b/ndg/xacml/parsers/etree/__init__.py
index 1504bd8..317fadc 100644
--- a/ndg/xacml/parsers/etree/__init__.py
+++ b/ndg/xacml/parsers/etree/__init__.py
@@ -34,7 +34,8 @@ if Config.use_lxml:
     def serialiseIfElementTree(obj):
         if ElementTree.iselement(obj):
             return SerialisedElementTree(ElementTree.tostring(obj,
-                                                              encoding=str))
+                                                              encoding=str,
+                                                              with_tail=False))
         else:
             return obj
     
diff --git a/ndg/xacml/utils/xpath_selector.py b/ndg/xacml/utils/xpath_selector.py
index dd87acd..2f0e1d8 100644
--- a/ndg/xacml/utils/xpath_selector.py
+++ b/ndg/xacml/utils/xpath_selector.py
@@ -12,6 +12,9 @@ from abc import ABCMeta, abstractmethod
 from ndg.xacml import Config, importElementTree
 ElementTree = importElementTree()
 
+from ndg.xacml.parsers.etree import (deserialiseIfElementTree,
+                                     serialiseIfElementTree)
+
 def _getText(elem):
     """Get the text of an element up to its first child element. The text
     includes any that follows a comment or processing instruction.
@@ -68,6 +71,20 @@ class EtreeXPathSelector(XPathSelectorInterface):
                             (ElementTree.Element, contextElem))
         self.contextElem = contextElem
 
+    def __getstate__(self):
+        '''Enable pickling: an lxml element can't be pickled
+
+        @return: object's attribute dictionary
+        @rtype: dict
+        '''
+        _dict = self.__dict__.copy()
+        _dict['contextElem'] = serialiseIfElementTree(self.contextElem)
+        return _dict
+
+    def __setstate__(self, attrDict):
+        self.__dict__.update(attrDict)
+        self.contextElem = deserialiseIfElementTree(self.contextElem)
+
     if Config.use_lxml:
         def selectText(self, path):
             """Performs an XPath search and returns text content of matched
-- 
2.43.0


From cc9d62eb234d588fce25d04f45a9470debb817b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:49 +0000
Subject: [PATCH 40/42] fix: compare attribute values of extension types by
 their value

An attribute value class may compute its value itself, as the extension
types in the documentation do. Comparing such a value with any other, itself
included, compared the unset base class value and was false.
---
 ndg/xacml/core/attributevalue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndg/xacml/core/attributevalue.py b/ndg/xacml/core/attributevalue.py
index 868539f..a1bead2 100644
--- a/ndg/xacml/core/attributevalue.py
+++ b/ndg/xacml/core/attributevalue.py
@@ -158,7 +158,7 @@ class AttributeValue(Expression):
                             'attribute; got %r' % (self.__class__.TYPE, 
                                                    type(attrVal)))
             
-        return self.__value == attrVal.value
+        return self.value == attrVal.value
     
     def _get_value(self):
         """Get value
-- 
2.43.0


From e58a0eb77eff95e7a8dffbd1dcfcf0b73e5c9dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:15 +0000
Subject: [PATCH 41/42] fix: an attribute's value list must be of attribute
 values

Any typed list was taken, so that an attribute could be given, or later be
filled with, things that are not attribute values.
---
 ndg/xacml/core/attribute.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ndg/xacml/core/attribute.py b/ndg/xacml/core/attribute.py
index 7fe1eb3..282f8eb 100644
--- a/ndg/xacml/core/attribute.py
+++ b/ndg/xacml/core/attribute.py
@@ -74,6 +74,16 @@ class Attribute(XacmlCoreBase):
             raise TypeError('Expecting %r type for "attributeValues" '
                             'attribute; got %r' % (TypedList, type(value)))
             
+        elementTypes = value.elementType
+        if not isinstance(elementTypes, tuple):
+            elementTypes = (elementTypes, )
+            
+        for elementType in elementTypes:
+            if not issubclass(elementType, AttributeValue):
+                raise TypeError('Expecting list of %r derived type elements '
+                                'for "attributeValues" attribute; got list of '
+                                '%r' % (AttributeValue, elementType))
+            
         self.__attributeValues = value
                    
     def _get_dataType(self):
-- 
2.43.0


From 4c7588069714c634887e2339d58a3671d88aa564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:10 +0000
Subject: [PATCH 42/42] fix: make the child of a status code accessible

The property for it was overwritten by the one for the value of the code, so
that a minor status code could neither be set nor read.
---
 ndg/xacml/core/context/result.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ndg/xacml/core/context/result.py b/ndg/xacml/core/context/result.py
index e7da5b6..1a86fc3 100644
--- a/ndg/xacml/core/context/result.py
+++ b/ndg/xacml/core/context/result.py
@@ -85,9 +85,9 @@ class StatusCode(XacmlContextBase):
             
         self.__childStatusCode = value
 
-    value = property(fget=_getStatusCode, 
-                     fset=_setStatusCode, 
-                     doc="Child Status code")
+    statusCode = property(fget=_getStatusCode, 
+                          fset=_setStatusCode, 
+                          doc="Child Status code")
               
     def _getValue(self):
         '''@return: status code value
-- 
2.43.0

