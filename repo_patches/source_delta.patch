From c6d2b5c8126d5f5b8b9a731fc972cd7da93d35bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:25 +0000
Subject: [PATCH 001/104] fix: x*x**n was simplified to x**(n+1)*x**n

---
 symbolics/functions/Mul.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/symbolics/functions/Mul.cpp b/symbolics/functions/Mul.cpp
index f35de60..215e15d 100644
--- a/symbolics/functions/Mul.cpp
+++ b/symbolics/functions/Mul.cpp
@@ -243,6 +243,7 @@ BasicPtr Mul::simplify()
         }
         return getArg(0);
     }
+            else
     if (negate_me)
     {
         BasicPtrVec args;
-- 
2.43.0


From a83c4107297af1882b5434c329f705d7d17559d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:25 +0000
Subject: [PATCH 002/104] fix: scalar products and vectors of ones inside
 larger products kept their meaning only by luck

---
 symbolics/functions/Mul.cpp | 44 ++++++++++++++++++++++++++++---------
 1 file changed, 34 insertions(+), 10 deletions(-)

diff --git a/symbolics/functions/Mul.cpp b/symbolics/functions/Mul.cpp
index 215e15d..95f88fa 100644
--- a/symbolics/functions/Mul.cpp
+++ b/symbolics/functions/Mul.cpp
@@ -9,6 +9,30 @@
 
 using namespace Symbolics;
 
+// is_One also accepts a vector of ones, which is no neutral element of the multiplication
+/*****************************************************************************/
+static bool isNeutral( BasicPtr const& arg )
+/*****************************************************************************/
+{
+    return Util::is_One(arg) && (!arg->is_Vector() || (arg->getShape().getNumEl() == 1));
+}
+/*****************************************************************************/
+
+// A product of vectors and matrices that contracts to a scalar (like v^T*u) has to stay
+// together: merged into a bigger product its factors would meet the wrong neighbours.
+/*****************************************************************************/
+static bool isContraction( BasicPtr const& arg )
+/*****************************************************************************/
+{
+    if ((arg->getType() != Type_Mul) || !arg->is_Scalar())
+        return false;
+    for (size_t i=0; i<arg->getArgsSize(); ++i)
+        if (!arg->getArg(i)->is_Scalar())
+            return true;
+    return false;
+}
+/*****************************************************************************/
+
 /*****************************************************************************/
 Mul::Mul( BasicPtr const& arg1, BasicPtr const& arg2 ): NaryOp(Type_Mul, arg1, arg2)
 /*****************************************************************************/
@@ -73,7 +97,7 @@ BasicPtr Mul::simplify()
             addArg(Zero::getZero(m_shape));
             return getArg(0);
         }
-        else if (getArg(i)->getType() == Type_Mul)
+        else if ((getArg(i)->getType() == Type_Mul) && !isContraction(getArg(i)))
         {
             const Mul *a = Util::getAsConstPtr<Mul>(getArg(i));
             size_t argssize = a->getArgsSize();
@@ -91,7 +115,7 @@ BasicPtr Mul::simplify()
             const Neg *n = Util::getAsConstPtr<Neg>(getArg(i));
             BasicPtr narg = n->getArg();
             negate_me = !negate_me;
-            if (narg->getType() == Type_Mul)
+            if ((narg->getType() == Type_Mul) && !isContraction(narg))
             {
                 const Mul *a = Util::getAsConstPtr<Mul>(narg);
                 size_t argssize = a->getArgsSize();
@@ -195,11 +219,11 @@ BasicPtr Mul::simplify()
             // mul them
             lastarg = New(lastarg,dst[i]);
         }
-        else if (Util::is_One(lastarg) && (!dst[i]->is_Scalar()))
+        else if (isNeutral(lastarg) && (!dst[i]->is_Scalar()))
         {
           lastarg=dst[i];
         }
-        else if (Util::is_One(dst[i]) && (!lastarg->is_Scalar()))
+        else if (isNeutral(dst[i]) && (!lastarg->is_Scalar()))
         {
           continue;
         }
@@ -219,6 +243,7 @@ BasicPtr Mul::simplify()
             const Pow *c = Util::getAsConstPtr<Pow>(dst[i]);
             if (lastarg == c->getBase())
               lastarg = BasicPtr(new Pow(lastarg,Add::New(c->getExponent(),Int::getOne())));
+            else
             {
               addArg(lastarg->simplify());
               lastarg = dst[i];
@@ -243,7 +268,6 @@ BasicPtr Mul::simplify()
         }
         return getArg(0);
     }
-            else
     if (negate_me)
     {
         BasicPtrVec args;
@@ -347,9 +371,9 @@ BasicPtr Mul::New( BasicPtr const& lhs, BasicPtr  const& rhs )
 	    return Zero::getZero(shape);
     if (Util::is_Zero(rhs))
 	    return Zero::getZero(shape);
-	if ((Util::is_One(lhs)) && (rhs->getShape() == shape))
+	if (isNeutral(lhs) && (rhs->getShape() == shape))
         return rhs;
-	if ((Util::is_One(rhs)) && (lhs->getShape() == shape))
+	if (isNeutral(rhs) && (lhs->getShape() == shape))
 		return lhs;
 
 
@@ -449,7 +473,7 @@ BasicPtr Mul::New( BasicPtr const& lhs, BasicPtr  const& rhs )
             return BasicPtr(c);
         }
     }
-    if (lhs->getType() == Type_Mul)
+    if ((lhs->getType() == Type_Mul) && !isContraction(lhs))
     {
         BasicPtrVec mulargs;
         const Mul *a = Util::getAsConstPtr<Mul>(lhs);
@@ -457,7 +481,7 @@ BasicPtr Mul::New( BasicPtr const& lhs, BasicPtr  const& rhs )
         for (size_t j=0; j<argssize; ++j)
           mulargs.push_back(a->getArg(j));
 
-        if (rhs->getType() == Type_Mul)
+        if ((rhs->getType() == Type_Mul) && !isContraction(rhs))
         {
           const Mul *b = Util::getAsConstPtr<Mul>(rhs);
           size_t argssize = b->getArgsSize();
@@ -468,7 +492,7 @@ BasicPtr Mul::New( BasicPtr const& lhs, BasicPtr  const& rhs )
             mulargs.push_back(rhs);
         return BasicPtr(new Mul(mulargs));
     }
-    if (rhs->getType() == Type_Mul)
+    if ((rhs->getType() == Type_Mul) && !isContraction(rhs))
     {
         BasicPtrVec mulargs;
         mulargs.push_back(lhs);
-- 
2.43.0


From dc4b3d3659e83fe830e7f22536b631fed1d20283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:25 +0000
Subject: [PATCH 003/104] fix: text form of scalar(x) indexed an argument that
 already is a scalar

---
 symbolics/printer/PythonPrinter.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/symbolics/printer/PythonPrinter.cpp b/symbolics/printer/PythonPrinter.cpp
index 60375b8..c7d1884 100644
--- a/symbolics/printer/PythonPrinter.cpp
+++ b/symbolics/printer/PythonPrinter.cpp
@@ -104,6 +104,9 @@ std::string PythonPrinter::print_Scalar( const Scalar *s )
 /*****************************************************************************/
 {
     if (s == NULL) throw InternalError("PythonPrinter: Scalar is NULL");
+    // a product that contracts to a scalar is already printed as one
+    if (s->getArg()->is_Scalar())
+        return print(s->getArg());
     return print(s->getArg()) + "[0,0]";
 }
 /*****************************************************************************/
-- 
2.43.0


From ea614e3da7b78475d92b4944e5ab69eaa4d06107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:25 +0000
Subject: [PATCH 004/104] fix: simplify() turned a number node into a Python
 int or float object of another memory layout

---
 symbolics/wrapper/CBasic.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/symbolics/wrapper/CBasic.cpp b/symbolics/wrapper/CBasic.cpp
index 60b1f56..2c978cc 100644
--- a/symbolics/wrapper/CBasic.cpp
+++ b/symbolics/wrapper/CBasic.cpp
@@ -1,4 +1,5 @@
 #include "CBasic.h"
+#include "CNumber.h"
 #include "PythonPrinter.h"
 #include "SymbolicsError.h"
 #include "convert.h"
@@ -459,7 +460,11 @@ static PyObject* CBasic_simplify(CBasicObject *self, PyObject *args)
 		// Simplify ausfuehren
 		self->m_basic = self->m_basic->simplify();
 
-    self->ob_type = PyFactory::ObjectType(self->m_basic);
+    PyTypeObject *type = PyFactory::ObjectType(self->m_basic);
+    // the object is no Python number, whatever it was simplified to
+    if ((type == &PyLong_Type) || (type == &PyFloat_Type))
+        type = &CNumberObjectType;
+    self->ob_type = type;
     
 		Py_IncRef(Py_None);
 		return Py_None;
-- 
2.43.0


From 640163fc651067405cb16c36fdcf81d99987a840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:25 +0000
Subject: [PATCH 005/104] fix: (x**2)**0.5 was simplified to x and roots of
 negated bases lost their sign

---
 symbolics/functions/Pow.cpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/symbolics/functions/Pow.cpp b/symbolics/functions/Pow.cpp
index 5d4dc21..a0d3575 100644
--- a/symbolics/functions/Pow.cpp
+++ b/symbolics/functions/Pow.cpp
@@ -4,6 +4,16 @@
 
 using namespace Symbolics;
 
+// (x^inner)^outer = x^(inner*outer), except for something like (x^2)^0.5 = abs(x)
+/*****************************************************************************/
+static bool canMerge( BasicPtr const& inner, BasicPtr const& outer )
+/*****************************************************************************/
+{
+    int i = 0;
+    return Util::is_Int(outer,i) || !Util::is_Int(inner,i) || (i%2 != 0);
+}
+/*****************************************************************************/
+
 
 /*****************************************************************************/
 Pow::Pow( BasicPtrVec const& args ): BinaryOp(Type_Pow, args)
@@ -213,6 +223,8 @@ BasicPtr Pow::simplify()
     case Type_Pow:
         {
             const Pow *c = Util::getAsConstPtr<Pow>(getArg1());
+            if (!canMerge(c->getExponent(),getArg2()))
+                break;
             setArg2(getArg2()*c->getExponent()->simplify());
             setArg1(c->getBase());
             m_simplified = true;
@@ -225,7 +237,9 @@ BasicPtr Pow::simplify()
 
             // try arg2 as integer
             int iExp = 0;
-            if ( Util::is_Int(getArg2(), iExp) && (iExp%2==0))
+            if ( !Util::is_Int(getArg2(), iExp))
+                break;
+            if (iExp%2==0)
             {
                 setArg1(c->getArg());
                 m_simplified = true;
@@ -359,6 +373,8 @@ BasicPtr Pow::New( BasicPtr const& arg1, BasicPtr const& arg2)
     case Type_Pow:
         {
             const Pow *c = Util::getAsConstPtr<Pow>(arg1);
+            if (!canMerge(c->getExponent(),arg2))
+                break;
             return New(c->getBase(),Mul::New(arg2,c->getExponent()));
         }
         // move neg to front in case of round number remove it
@@ -369,7 +385,9 @@ BasicPtr Pow::New( BasicPtr const& arg1, BasicPtr const& arg2)
             // try arg2 as integer
             BasicPtr arg_1 = c->getArg();
             int iExp = 0;
-            if ( Util::is_Int(arg2, iExp) && (iExp%2==0))
+            if ( !Util::is_Int(arg2, iExp))
+                break;
+            if (iExp%2==0)
             {
                 return New(arg_1,arg2);
             }
-- 
2.43.0


From 1920ae5abf4fd78747a6ceca0d6d1027568a090f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:25 +0000
Subject: [PATCH 006/104] fix: Equal() built a Less condition

---
 symbolics/wrapper/PySymbolics.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolics/wrapper/PySymbolics.cpp b/symbolics/wrapper/PySymbolics.cpp
index 97fa665..6255ceb 100644
--- a/symbolics/wrapper/PySymbolics.cpp
+++ b/symbolics/wrapper/PySymbolics.cpp
@@ -152,7 +152,7 @@ PyMODINIT_FUNC PyInit_symbolics(void)
     if (!registerObject( &CGreaterObjectType, "Greater", m))
         return NULL;
     // CEqual
-    if (!registerObject( &CLessObjectType, "Equal", m))
+    if (!registerObject( &CEqualObjectType, "Equal", m))
         return NULL;
     // CGraph
     if (!registerObject( &CGraphObjectType, "CGraph", m))
-- 
2.43.0


From 8d42e06659608fefb975b3ed6d12683b4461b349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:25 +0000
Subject: [PATCH 007/104] fix: simplified conditions over numbers became
 numbers instead of truth values

---
 symbolics/functions/Equal.cpp   | 6 +++---
 symbolics/functions/Greater.cpp | 6 +++---
 symbolics/functions/Less.cpp    | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/symbolics/functions/Equal.cpp b/symbolics/functions/Equal.cpp
index 33822ca..a2f0036 100644
--- a/symbolics/functions/Equal.cpp
+++ b/symbolics/functions/Equal.cpp
@@ -75,7 +75,7 @@ BasicPtr Equal::simplify()
         else if (getArg2()->getType() == Type_Real) 
         {
             const Real *crhs = Util::getAsConstPtr<Real>(getArg2());
-            return BasicPtr(new Real(crhs->getValue()==(clhs->getValue()?1.0:0.0)));
+            return Bool::New(crhs->getValue()==(clhs->getValue()?1.0:0.0));
         }
     }
     if (getArg1()->getType() == Type_Int) 
@@ -94,7 +94,7 @@ BasicPtr Equal::simplify()
         else if (getArg2()->getType() == Type_Real) 
         {
             const Real *crhs = Util::getAsConstPtr<Real>(getArg2());
-            return BasicPtr(new Real(crhs->getValue()==clhs->getValue()));
+            return Bool::New(crhs->getValue()==clhs->getValue());
         }
     }
     if (getArg1()->getType() == Type_Real) 
@@ -113,7 +113,7 @@ BasicPtr Equal::simplify()
         else if (getArg2()->getType() == Type_Real) 
         {
             const Real *crhs = Util::getAsConstPtr<Real>(getArg2());
-            return BasicPtr(new Real(crhs->getValue()==clhs->getValue()));
+            return Bool::New(crhs->getValue()==clhs->getValue());
         }
     }
     m_simplified = true;
diff --git a/symbolics/functions/Greater.cpp b/symbolics/functions/Greater.cpp
index f9b4058..06e15ab 100644
--- a/symbolics/functions/Greater.cpp
+++ b/symbolics/functions/Greater.cpp
@@ -75,7 +75,7 @@ BasicPtr Greater::simplify()
         else if (getArg2()->getType() == Type_Real) 
         {
             const Real *crhs = Util::getAsConstPtr<Real>(getArg2());
-            return BasicPtr(new Real(crhs->getValue()<(clhs->getValue()?1.0:0.0)));
+            return Bool::New(crhs->getValue()<(clhs->getValue()?1.0:0.0));
         }
     }
     if (getArg1()->getType() == Type_Int) 
@@ -94,7 +94,7 @@ BasicPtr Greater::simplify()
         else if (getArg2()->getType() == Type_Real) 
         {
             const Real *crhs = Util::getAsConstPtr<Real>(getArg2());
-            return BasicPtr(new Real(crhs->getValue()<clhs->getValue()));
+            return Bool::New(crhs->getValue()<clhs->getValue());
         }
     }
     if (getArg1()->getType() == Type_Real) 
@@ -113,7 +113,7 @@ BasicPtr Greater::simplify()
         else if (getArg2()->getType() == Type_Real) 
         {
             const Real *crhs = Util::getAsConstPtr<Real>(getArg2());
-            return BasicPtr(new Real(crhs->getValue()<clhs->getValue()));
+            return Bool::New(crhs->getValue()<clhs->getValue());
         }
     }
     m_simplified = true;
diff --git a/symbolics/functions/Less.cpp b/symbolics/functions/Less.cpp
index 60d4612..67d1d00 100644
--- a/symbolics/functions/Less.cpp
+++ b/symbolics/functions/Less.cpp
@@ -75,7 +75,7 @@ BasicPtr Less::simplify()
         else if (getArg2()->getType() == Type_Real) 
         {
             const Real *crhs = Util::getAsConstPtr<Real>(getArg2());
-            return BasicPtr(new Real(crhs->getValue()>(clhs->getValue()?1.0:0.0)));
+            return Bool::New(crhs->getValue()>(clhs->getValue()?1.0:0.0));
         }
     }
     if (getArg1()->getType() == Type_Int) 
@@ -94,7 +94,7 @@ BasicPtr Less::simplify()
         else if (getArg2()->getType() == Type_Real) 
         {
             const Real *crhs = Util::getAsConstPtr<Real>(getArg2());
-            return BasicPtr(new Real(crhs->getValue()>clhs->getValue()));
+            return Bool::New(crhs->getValue()>clhs->getValue());
         }
     }
     if (getArg1()->getType() == Type_Real) 
@@ -113,7 +113,7 @@ BasicPtr Less::simplify()
         else if (getArg2()->getType() == Type_Real) 
         {
             const Real *crhs = Util::getAsConstPtr<Real>(getArg2());
-            return BasicPtr(new Real(crhs->getValue()>clhs->getValue()));
+            return Bool::New(crhs->getValue()>clhs->getValue());
         }
     }
     m_simplified = true;
-- 
2.43.0


From 619541a1d026c9bba03f43fde37a0c2e5aedf35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:25 +0000
Subject: [PATCH 008/104] fix: substitution and graph passes could not rebuild
 sign, inverse, outer and jacobian nodes

---
 symbolics/Factory.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/symbolics/Factory.cpp b/symbolics/Factory.cpp
index dcf17b8..77dc024 100644
--- a/symbolics/Factory.cpp
+++ b/symbolics/Factory.cpp
@@ -60,6 +60,10 @@ BasicPtr Factory::newBasic( Basic_Type type,  BasicPtr &arg, Shape const& shape)
         throw InternalError("Unknown is not supported by Factory!");
     case Type_Tan:
         return BasicPtr( new Tan(arg) );
+    case Type_Sign:
+        return BasicPtr( new Sign(arg) );
+    case Type_Inverse:
+        return BasicPtr( new Inverse(arg) );
     default:
         throw InternalError("Unknown Type: " + str(type) + "!");
     };
@@ -94,6 +98,10 @@ BasicPtr Factory::newBasic( Basic_Type type,  BasicPtr &arg1, BasicPtr &arg2, Sh
         return BasicPtr( new Greater(arg1,arg2) );
     case Type_Equal:
         return BasicPtr( new Equal(arg1,arg2) );
+    case Type_Outer:
+        return BasicPtr( new Outer(arg1,arg2) );
+    case Type_Jacobian:
+        return BasicPtr( new Jacobian(arg1,arg2) );
     case Type_Unknown:
         throw InternalError("Unknown is not supported by Factory!");
     default:
@@ -162,6 +170,14 @@ BasicPtr Factory::newBasic( Basic_Type type,  BasicPtrVec &args, Shape const& sh
         throw InternalError("Unknown is not supported by Factory!");
     case Type_Tan:
         return BasicPtr( new Tan(args) );
+    case Type_Sign:
+        return BasicPtr( new Sign(args) );
+    case Type_Inverse:
+        return BasicPtr( new Inverse(args) );
+    case Type_Outer:
+        return BasicPtr( new Outer(args) );
+    case Type_Jacobian:
+        return BasicPtr( new Jacobian(args) );
     default:
         throw InternalError("Unknown Type: " + str(type) + "!");
     };
-- 
2.43.0


From d8c48eb5152418663bae3160d21b0742c9c228e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:25 +0000
Subject: [PATCH 009/104] fix: transposed zero matrices kept their old shape

---
 symbolics/functions/Transpose.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/symbolics/functions/Transpose.cpp b/symbolics/functions/Transpose.cpp
index f942b41..eba6e62 100644
--- a/symbolics/functions/Transpose.cpp
+++ b/symbolics/functions/Transpose.cpp
@@ -63,8 +63,9 @@ BasicPtr Transpose::simplify()
     // simplify matrices
     switch(getArg()->getType())
     {
-	  case Type_Eye:
     case Type_Zero:
+        return Zero::getZero(m_shape);
+	  case Type_Eye:
     case Type_Int:
     case Type_Real:
         return getArg();
-- 
2.43.0


From 1ab451848614360691f21554bbfe71822f06ea26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:26 +0000
Subject: [PATCH 010/104] fix: inverse of a scalar returned the scalar and the
 derivative of an inverse recursed for ever

---
 symbolics/functions/Inverse.cpp       | 27 ++++++++++++++++++++++++---
 symbolics/functions/include/Inverse.h |  4 ++--
 2 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/symbolics/functions/Inverse.cpp b/symbolics/functions/Inverse.cpp
index 665f9c0..cdb4340 100644
--- a/symbolics/functions/Inverse.cpp
+++ b/symbolics/functions/Inverse.cpp
@@ -2,6 +2,9 @@
 #include "Matrix.h"
 #include "Util.h"
 #include "Neg.h"
+#include "Int.h"
+#include "Mul.h"
+#include "Pow.h"
 #include "Operators.h"
 
 using namespace Symbolics;
@@ -61,7 +64,7 @@ BasicPtr Inverse::simplify()
     
     // Ist es ein Skalar?
     if (getArg()->is_Scalar())
-        return getArg();
+        return Pow::New(getArg(),Int::getMinusOne());
 
     // simplify matrices
     switch(getArg()->getType())
@@ -92,7 +95,7 @@ BasicPtr Inverse::New( BasicPtr const& arg )
 {
     // Ist es ein Skalar?
     if (arg->is_Scalar())
-        return arg;
+        return Pow::New(arg,Int::getMinusOne());
 
     // simplify matrices
     switch(arg->getType())
@@ -116,4 +119,22 @@ BasicPtr Inverse::New( BasicPtr const& arg )
     }
     return BasicPtr( new Inverse(arg) );
 }
-/*****************************************************************************/
\ No newline at end of file
+/*****************************************************************************/
+
+/*****************************************************************************/
+BasicPtr Inverse::der()
+/*****************************************************************************/
+{
+    // der(inv(A)) = -inv(A)*der(A)*inv(A)
+    return Neg::New(Mul::New(BasicPtr(this),Mul::New(getArg()->der(),BasicPtr(this))));
+}
+/*****************************************************************************/
+
+/*****************************************************************************/
+BasicPtr Inverse::der(BasicPtr const& symbol)
+/*****************************************************************************/
+{
+    // der(inv(A)) = -inv(A)*der(A)*inv(A)
+    return Neg::New(Mul::New(BasicPtr(this),Mul::New(getArg()->der(symbol),BasicPtr(this))));
+}
+/*****************************************************************************/
diff --git a/symbolics/functions/include/Inverse.h b/symbolics/functions/include/Inverse.h
index 79da607..5310ad6 100644
--- a/symbolics/functions/include/Inverse.h
+++ b/symbolics/functions/include/Inverse.h
@@ -26,8 +26,8 @@ namespace Symbolics
 		    static BasicPtr New( BasicPtr const& arg );
 
         // derivative
-        inline BasicPtr der() { return Der::New(BasicPtr(this)); };
-        inline BasicPtr der(BasicPtr const& symbol) { return Der::New(BasicPtr(this)); };
+        BasicPtr der();
+        BasicPtr der(BasicPtr const& symbol);
 
     };
 
-- 
2.43.0


From 242a621016bdb9de1a9d36481b9fcc5b727682f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:26 +0000
Subject: [PATCH 011/104] fix: outer product with zero lost its shape, its
 derivative ignored the product rule

---
 symbolics/functions/Outer.cpp       | 29 ++++++++++++++++++++++++-----
 symbolics/functions/include/Outer.h |  4 ++--
 2 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/symbolics/functions/Outer.cpp b/symbolics/functions/Outer.cpp
index 6cba047..60006dd 100644
--- a/symbolics/functions/Outer.cpp
+++ b/symbolics/functions/Outer.cpp
@@ -3,6 +3,7 @@
 #include "Neg.h"
 #include "Util.h"
 #include "Mul.h"
+#include "Add.h"
 #include "Operators.h"
 
 using namespace Symbolics;
@@ -69,9 +70,9 @@ std::string Outer::toString() const
 /*****************************************************************************/
 {
 #ifdef _DEBUG
-    return "Outer(" + getArg1()->toString() + "," + getArg1()->toString() + ")";
+    return "Outer(" + getArg1()->toString() + "," + getArg2()->toString() + ")";
 #else
-    return "Outer(" + getArg1()->toString() + "," + getArg1()->toString() + ")";
+    return "Outer(" + getArg1()->toString() + "," + getArg2()->toString() + ")";
 #endif
 }
 /*****************************************************************************/
@@ -109,8 +110,8 @@ BasicPtr Outer::New( BasicPtr const& arg1, BasicPtr const& arg2 )
 /*****************************************************************************/
 {
     // if zero, return zero
-    if (Util::is_Zero(arg1)) return Zero::getZero();
-    if (Util::is_Zero(arg2)) return Zero::getZero();
+    if (Util::is_Zero(arg1) || Util::is_Zero(arg2))
+        return Zero::getZero(Outer(arg1, arg2).getShape());
 
 	// simplify matrices
 	if ( (arg1->getType() == Type_Matrix) && (arg2->getType() == Type_Matrix) )
@@ -123,4 +124,22 @@ BasicPtr Outer::New( BasicPtr const& arg1, BasicPtr const& arg2 )
 
     return BasicPtr(new Outer(arg1, arg2));
 }
-/*****************************************************************************/
\ No newline at end of file
+/*****************************************************************************/
+
+/*****************************************************************************/
+BasicPtr Outer::der()
+/*****************************************************************************/
+{
+    // der(outer(a,b)) = outer(der(a),b) + outer(a,der(b))
+    return Add::New(New(getArg1()->der(),getArg2()),New(getArg1(),getArg2()->der()));
+}
+/*****************************************************************************/
+
+/*****************************************************************************/
+BasicPtr Outer::der(BasicPtr const& symbol)
+/*****************************************************************************/
+{
+    // der(outer(a,b)) = outer(der(a),b) + outer(a,der(b))
+    return Add::New(New(getArg1()->der(symbol),getArg2()),New(getArg1(),getArg2()->der(symbol)));
+}
+/*****************************************************************************/
diff --git a/symbolics/functions/include/Outer.h b/symbolics/functions/include/Outer.h
index 28af848..f0bf05f 100644
--- a/symbolics/functions/include/Outer.h
+++ b/symbolics/functions/include/Outer.h
@@ -25,8 +25,8 @@ namespace Symbolics
         static BasicPtr New( BasicPtr const& arg1, BasicPtr const& arg2 );
 
         // derivative
-        inline BasicPtr der() { return New(getArg1()->der(), getArg2()->der()); };
-        inline BasicPtr der(BasicPtr const& symbol) { return New(getArg1()->der(symbol), getArg2()->der(symbol)); };
+        BasicPtr der();
+        BasicPtr der(BasicPtr const& symbol);
 
 	protected:
 		void validate();
-- 
2.43.0


From 30f554f061a417e2a7a308bee15cc906cf341373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:26 +0000
Subject: [PATCH 012/104] fix: derivative of atan2 had swapped arguments

---
 symbolics/functions/Atan2.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/symbolics/functions/Atan2.cpp b/symbolics/functions/Atan2.cpp
index 64abb8b..bdb8e3f 100644
--- a/symbolics/functions/Atan2.cpp
+++ b/symbolics/functions/Atan2.cpp
@@ -60,9 +60,9 @@ std::string Atan2::toString() const
 /*****************************************************************************/
 {
 #ifdef _DEBUG
-    return "atan2(" + getArg1()->toString() + "," + getArg1()->toString() + ")";
+    return "atan2(" + getArg1()->toString() + "," + getArg2()->toString() + ")";
 #else
-    return "atan2(" + getArg1()->toString() + "," + getArg1()->toString() + ")";
+    return "atan2(" + getArg1()->toString() + "," + getArg2()->toString() + ")";
 #endif
 }
 /*****************************************************************************/
@@ -243,9 +243,11 @@ BasicPtr Atan2::New( BasicPtr const& arg1, BasicPtr const& arg2)
 BasicPtr Atan2::der()
 /*****************************************************************************/
 {   
-    // der(atan2(x,y)) = der(y/x) / (1+(y/x)^2 )
-  BasicPtr ydx = Util::div(getArg2(),getArg1());
-  return Mul::New(ydx->der(),Pow::New(Add::New(Int::getOne(),Pow::New(ydx,Int::New(2))),Int::getMinusOne())); 
+    // der(atan2(y,x)) = (x*der(y) - y*der(x)) / (x^2+y^2)
+  BasicPtr const& y = getArg1();
+  BasicPtr const& x = getArg2();
+  BasicPtr num = Add::New(Mul::New(x,y->der()),Neg::New(Mul::New(y,x->der())));
+  return Mul::New(num,Pow::New(Add::New(Pow::New(x,Int::New(2)),Pow::New(y,Int::New(2))),Int::getMinusOne()));
 }
 /*****************************************************************************/
 
@@ -253,8 +255,10 @@ BasicPtr Atan2::der()
 BasicPtr Atan2::der(BasicPtr const& symbol)
 /*****************************************************************************/
 {   
-    // der(atan2(x,y)) = der(y/x) / (1+(y/x)^2 )
-  BasicPtr ydx = Util::div(getArg2(),getArg1());
-  return Mul::New(ydx->der(symbol),Pow::New(Add::New(Int::getOne(),Pow::New(ydx,Int::New(2))),Int::getMinusOne())); 
+    // der(atan2(y,x)) = (x*der(y) - y*der(x)) / (x^2+y^2)
+  BasicPtr const& y = getArg1();
+  BasicPtr const& x = getArg2();
+  BasicPtr num = Add::New(Mul::New(x,y->der(symbol)),Neg::New(Mul::New(y,x->der(symbol))));
+  return Mul::New(num,Pow::New(Add::New(Pow::New(x,Int::New(2)),Pow::New(y,Int::New(2))),Int::getMinusOne()));
 }
 /*****************************************************************************/
\ No newline at end of file
-- 
2.43.0


From e38e2339edb5f3d680a5bf221388ce17475c852f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:26 +0000
Subject: [PATCH 013/104] fix: partial derivative of sign(f) returned sign(f')

---
 symbolics/functions/Sign.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolics/functions/Sign.cpp b/symbolics/functions/Sign.cpp
index 3bfbe65..6c89b8f 100644
--- a/symbolics/functions/Sign.cpp
+++ b/symbolics/functions/Sign.cpp
@@ -157,6 +157,6 @@ inline BasicPtr Sign::der()
 inline BasicPtr Sign::der(BasicPtr const& symbol)
 /*****************************************************************************/
 {
-  return New(getArg()->der(symbol));
+  return Zero::getZero(m_shape);
 }
 /*****************************************************************************/
\ No newline at end of file
-- 
2.43.0


From 26f7b3c9a56ef8b5f8eb6dacf5c82c9a4a3c7c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:26 +0000
Subject: [PATCH 014/104] fix: derivative of the identity matrix was the
 identity matrix

---
 symbolics/functions/Der.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/symbolics/functions/Der.cpp b/symbolics/functions/Der.cpp
index 9a087ba..381cc36 100644
--- a/symbolics/functions/Der.cpp
+++ b/symbolics/functions/Der.cpp
@@ -55,8 +55,9 @@ BasicPtr Der::simplify()
   switch( getArg()->getType())
   {
   case Type_Zero:
-  case Type_Eye:
         return getArg();
+  case Type_Eye:
+        return Zero::getZero(getArg()->getShape());
   case Type_Int:
   case Type_Real:
         return Zero::getZero();
@@ -80,8 +81,9 @@ BasicPtr Der::New( BasicPtr const& arg)
   switch( arg->getType())
   {
   case Type_Zero:
-  case Type_Eye:
         return arg;
+  case Type_Eye:
+        return Zero::getZero(arg->getShape());
   case Type_Int:
   case Type_Real:
         return Zero::getZero();
-- 
2.43.0


From 8dac06f1841f73ad787bb2b850bae885b18bfac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:26 +0000
Subject: [PATCH 015/104] fix: ordering of a real against an integer was
 reversed, so different matrices were merged

---
 symbolics/functions/Operators.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolics/functions/Operators.cpp b/symbolics/functions/Operators.cpp
index 795c072..cd8c711 100644
--- a/symbolics/functions/Operators.cpp
+++ b/symbolics/functions/Operators.cpp
@@ -55,7 +55,7 @@ bool Symbolics::operator<(BasicPtr const& lhs, BasicPtr  const& rhs)
     {
         const Real *cd = Util::getAsConstPtr<Real>(lhs);
         const Int *ci = Util::getAsConstPtr<Int>(rhs);
-        return (*ci) < (*cd);
+        return (*cd) < (*ci);
     }
     // Vergleich Type
     if (lhs->getType() != rhs->getType())
-- 
2.43.0


From d7fc7d5173ecb5a96454343013c6e1ba4a272402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:26 +0000
Subject: [PATCH 016/104] fix: sums of matrices were combined by multiplication

---
 symbolics/functions/Add.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/symbolics/functions/Add.cpp b/symbolics/functions/Add.cpp
index 762ab19..3b5024c 100644
--- a/symbolics/functions/Add.cpp
+++ b/symbolics/functions/Add.cpp
@@ -247,7 +247,7 @@ BasicPtr Add::simplify()
     {
       BasicPtrVec scalars;
       BasicPtrVec matrixes;
-      bool hasMatZero;
+      bool hasMatZero = false;
       for (size_t i=0; i<other_args1.size(); ++i)
       {
         if (other_args1[i]->getType() == Type_Matrix)
@@ -283,6 +283,7 @@ BasicPtr Add::simplify()
             Matrix *c = new Matrix( *(Util::getAsConstPtr<Matrix>(matrixes[0])) );
             for (size_t i=0; i<c->getNumEl(); ++i)
               c->set(i,c->get(i)+s);
+            addArg(BasicPtr(c));
           }
           else
             addArg(matrixes[0]);
@@ -293,7 +294,7 @@ BasicPtr Add::simplify()
           for (size_t i=1; i<matrixes.size(); ++i)
           {
             const Matrix *m = Util::getAsConstPtr<Matrix>(matrixes[i]);
-            *mat *= (*m); 
+            *mat += (*m); 
           }
           if (scalars.size() > 0)
           {
-- 
2.43.0


From 9cef1662f2cd0a02d9ef61e6fd2f84a51496b27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:26 +0000
Subject: [PATCH 017/104] fix: numbers, zero and identity matrices of different
 shapes compared equal

---
 symbolics/Eye.cpp  | 6 +++---
 symbolics/Int.cpp  | 2 +-
 symbolics/Real.cpp | 2 +-
 symbolics/Zero.cpp | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/symbolics/Eye.cpp b/symbolics/Eye.cpp
index 86a765e..3ad7a19 100644
--- a/symbolics/Eye.cpp
+++ b/symbolics/Eye.cpp
@@ -50,16 +50,16 @@ bool Eye::operator==(  Basic const& rhs ) const
     switch (rhs.getType())
     {
     case Type_Eye: 
-        return true;
+        return m_shape == rhs.getShape();
     case Type_Int:
         {
             const Int &i = dynamic_cast<const Int&>(rhs);
-            return 0 == i.getValue();
+            return is_Scalar() && (1 == i.getValue());
         }
     case Type_Real:
         {
             const Real &r = dynamic_cast<const Real&>(rhs);
-            return 0 == r.getValue();
+            return is_Scalar() && (1 == r.getValue());
         }
     case Type_Matrix:
       {
diff --git a/symbolics/Int.cpp b/symbolics/Int.cpp
index 44d2004..2e539a7 100644
--- a/symbolics/Int.cpp
+++ b/symbolics/Int.cpp
@@ -79,7 +79,7 @@ bool Int::operator==(  Basic const& rhs ) const
     {
     case Type_Zero:
         {
-            if (m_shape != rhs.getShape()) return true;
+            if (m_shape != rhs.getShape()) return false;
             return m_value == 0;
         }
     case Type_Bool:
diff --git a/symbolics/Real.cpp b/symbolics/Real.cpp
index 337a7dc..1fb5e1f 100644
--- a/symbolics/Real.cpp
+++ b/symbolics/Real.cpp
@@ -65,7 +65,7 @@ bool Real::operator==(  Basic const& rhs ) const
     {
     case Type_Zero:
         {
-            if (m_shape != rhs.getShape()) return true;
+            if (m_shape != rhs.getShape()) return false;
             return m_value == 0.0;
         }
     case Type_Bool:
diff --git a/symbolics/Zero.cpp b/symbolics/Zero.cpp
index d22e29b..9ea4b8f 100644
--- a/symbolics/Zero.cpp
+++ b/symbolics/Zero.cpp
@@ -50,7 +50,7 @@ bool Zero::operator==(  Basic const& rhs ) const
     switch (rhs.getType())
     {
     case Type_Zero: 
-        return true;
+        return m_shape == rhs.getShape();
     case Type_Bool:
         {
             const Bool &b = dynamic_cast<const Bool&>(rhs);
-- 
2.43.0


From 514ac62722c1e45717e02fb9a424e635ffa0228d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:30 +0000
Subject: [PATCH 018/104] fix: derivative of sign(f) could not be printed

---
 symbolics/functions/Sign.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolics/functions/Sign.cpp b/symbolics/functions/Sign.cpp
index 6c89b8f..7e092bb 100644
--- a/symbolics/functions/Sign.cpp
+++ b/symbolics/functions/Sign.cpp
@@ -149,7 +149,7 @@ BasicPtr Sign::New( BasicPtr const& arg)
 inline BasicPtr Sign::der()
 /*****************************************************************************/
 {
-  return BasicPtr(new Der(BasicPtr(this)));
+  return Zero::getZero(m_shape);
 }
 /*****************************************************************************/
 
-- 
2.43.0


From 3dab9a13d83eb71dba20d326b5de16b621573157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:30 +0000
Subject: [PATCH 019/104] fix: jacobian with respect to a vector symbol
 crashed, derivatives with respect to its elements were zero

---
 symbolics/Symbol.cpp             | 13 +++++++++++++
 symbolics/functions/Jacobian.cpp | 23 ++++++++++++++++++-----
 2 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/symbolics/Symbol.cpp b/symbolics/Symbol.cpp
index 6ec8bad..ab3c5fc 100644
--- a/symbolics/Symbol.cpp
+++ b/symbolics/Symbol.cpp
@@ -325,6 +325,19 @@ BasicPtr Symbol::der(BasicPtr const& symbol)
     {
       return Util::eye(m_shape);
     }
+    // derivative with respect to one of the elements of this symbol
+    if (symbol->getType() == Type_Element)
+    {
+      const Element *elem = Util::getAsConstPtr<Element>(symbol);
+      if ((*elem->getArg(0).get() == *this) && (!is_Scalar()))
+      {
+        Matrix *mat = new Matrix(m_shape);
+        for (size_t i=0;i<m_shape.getDimension(1);++i)
+          for (size_t j=0;j<m_shape.getDimension(2);++j)
+            mat->set(i,j,((i == elem->getRow()) && (j == elem->getCol()))?Int::getOne():Int::getZero());
+        return BasicPtr(mat);
+      }
+    }
     return Zero::getZero(m_shape);
 }
 /*****************************************************************************/
diff --git a/symbolics/functions/Jacobian.cpp b/symbolics/functions/Jacobian.cpp
index b2c1c87..960b798 100644
--- a/symbolics/functions/Jacobian.cpp
+++ b/symbolics/functions/Jacobian.cpp
@@ -2,10 +2,23 @@
 #include "Util.h"
 #include "Matrix.h"
 #include "Der.h"
-#include "Matrix.h"
+#include "Element.h"
 
 using namespace Symbolics;
 
+// i-th element of a vector, which may be a matrix of expressions or any vector expression
+/*****************************************************************************/
+static BasicPtr elementOf(BasicPtr const& vector, size_t i)
+/*****************************************************************************/
+{
+  if (vector->getType() == Type_Matrix)
+    return vector->getArg(i);
+  if (vector->getShape().getDimension(1) == 1)
+    return Element::New(vector,0,i);
+  return Element::New(vector,i,0);
+}
+/*****************************************************************************/
+
 /*****************************************************************************/
 Jacobian::Jacobian( BasicPtr const& exp, BasicPtr const& symbols ): BinaryOp(Type_Jacobian, exp, symbols)
 /*****************************************************************************/
@@ -75,7 +88,7 @@ BasicPtr Jacobian::simplify()
     size_t numelem = getArg2()->getShape().getNumEl();
     vec.reserve(numelem);
     for (size_t i=0;i<numelem;++i)
-      vec.push_back(getArg1()->der(getArg2()->getArg(i))->simplify());
+      vec.push_back(getArg1()->der(elementOf(getArg2(),i))->simplify());
     return BasicPtr(new Matrix(vec,Shape(numelem)));
   }
   else if (Util::is_Const(getArg1()))
@@ -87,7 +100,7 @@ BasicPtr Jacobian::simplify()
     Matrix *mat = new Matrix(m_shape);
     for (size_t i=0;i<getArg2()->getShape().getNumEl();++i)
       for (size_t j=0;j<getArg1()->getShape().getNumEl();++j)
-        mat->set(i,j,getArg1()->getArg(j)->der(getArg2()->getArg(i))->simplify());
+        mat->set(j,i,getArg1()->getArg(j)->der(elementOf(getArg2(),i))->simplify());
     return BasicPtr(mat);
   }
   m_simplified = true;
@@ -114,7 +127,7 @@ BasicPtr Jacobian::New( BasicPtr const& exp, BasicPtr const& symbols)
     size_t numelem = symbols->getShape().getNumEl();
     vec.reserve(numelem);
     for (size_t i=0;i<numelem;++i)
-      vec.push_back(exp1->der(symbols->getArg(i))->simplify());
+      vec.push_back(exp1->der(elementOf(symbols,i))->simplify());
     return BasicPtr(new Matrix(vec,Shape(1,1,numelem)));
   }
   else if (Util::is_Const(exp1))
@@ -131,7 +144,7 @@ BasicPtr Jacobian::New( BasicPtr const& exp, BasicPtr const& symbols)
 		// j - Expression (=Zeilen)
 		for (size_t j=0;j<exp1->getShape().getNumEl();++j)
 			// Matrixelement
-			mat->set(j,i, exp1->getArg(j)->der(symbols->getArg(i))->simplify());
+			mat->set(j,i, exp1->getArg(j)->der(elementOf(symbols,i))->simplify());
 
     return BasicPtr(mat);
   }
-- 
2.43.0


From 350b89230c9b1c7e769ea6ff88d92f7ad4792783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:30 +0000
Subject: [PATCH 020/104] fix: argument index check was off by one

---
 symbolics/include/NaryOp.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolics/include/NaryOp.h b/symbolics/include/NaryOp.h
index 4b34f26..69f2347 100644
--- a/symbolics/include/NaryOp.h
+++ b/symbolics/include/NaryOp.h
@@ -30,7 +30,7 @@ namespace Symbolics
 
         // args
         inline size_t getArgsSize() const { return m_args.size(); };
-        inline BasicPtr const& getArg(size_t i) const { if (i > m_args.size()) throw InternalError("Args Index out of bounce!"); return m_args[i].getArg(); }; 
+        inline BasicPtr const& getArg(size_t i) const { if (i >= m_args.size()) throw InternalError("Args Index out of bounce!"); return m_args[i].getArg(); }; 
 
     protected:
 
-- 
2.43.0


From 6014660e01fb7c0e57a3dabebd09e733dc63f1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:36 +0000
Subject: [PATCH 021/104] fix: jacobian of a vector expression stayed
 unevaluated and could not be printed

---
 symbolics/functions/Jacobian.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/symbolics/functions/Jacobian.cpp b/symbolics/functions/Jacobian.cpp
index 960b798..9e7aa38 100644
--- a/symbolics/functions/Jacobian.cpp
+++ b/symbolics/functions/Jacobian.cpp
@@ -95,16 +95,14 @@ BasicPtr Jacobian::simplify()
   {
     return Zero::getZero(m_shape);
   }
-  else if (getArg1()->getType() == Type_Matrix)
+  // Vektor ableiten => Matrix
   {
     Matrix *mat = new Matrix(m_shape);
     for (size_t i=0;i<getArg2()->getShape().getNumEl();++i)
       for (size_t j=0;j<getArg1()->getShape().getNumEl();++j)
-        mat->set(j,i,getArg1()->getArg(j)->der(elementOf(getArg2(),i))->simplify());
+        mat->set(j,i,elementOf(getArg1(),j)->der(elementOf(getArg2(),i))->simplify());
     return BasicPtr(mat);
   }
-  m_simplified = true;
-  return BasicPtr(this);
 }
 /*****************************************************************************/
 
@@ -134,7 +132,7 @@ BasicPtr Jacobian::New( BasicPtr const& exp, BasicPtr const& symbols)
   {
     return Zero::getZero(s);
   }
-  else if (exp1->getType() == Type_Matrix)	// Wir leiten einen Vektor ab => Matrix
+  // Wir leiten einen Vektor ab => Matrix
   {
 	  // Neue Matrix anlegen
 	  Matrix *mat = new Matrix(s);
@@ -144,11 +142,10 @@ BasicPtr Jacobian::New( BasicPtr const& exp, BasicPtr const& symbols)
 		// j - Expression (=Zeilen)
 		for (size_t j=0;j<exp1->getShape().getNumEl();++j)
 			// Matrixelement
-			mat->set(j,i, exp1->getArg(j)->der(elementOf(symbols,i))->simplify());
+			mat->set(j,i, elementOf(exp1,j)->der(elementOf(symbols,i))->simplify());
 
     return BasicPtr(mat);
   }
-  return BasicPtr( new Jacobian(exp1,symbols));
 }
 /*****************************************************************************/
 
-- 
2.43.0


From 25d3be3a2577597c1cb5259ca41febe6e12ea644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:37 +0000
Subject: [PATCH 022/104] fix: derivative and zeroth power of matrix powers

---
 symbolics/functions/Pow.cpp | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/symbolics/functions/Pow.cpp b/symbolics/functions/Pow.cpp
index a0d3575..7e6defc 100644
--- a/symbolics/functions/Pow.cpp
+++ b/symbolics/functions/Pow.cpp
@@ -261,7 +261,7 @@ BasicPtr Pow::New( BasicPtr const& arg1, BasicPtr const& arg2)
 /*****************************************************************************/
 {
     // if arg2 == 0, then return One
-    if (arg2 == Zero::getZero() ) return Int::getOne();
+    if (arg2 == Zero::getZero() ) return Util::eye(arg1->getShape());
     if (arg2 == Int::getOne() ) return arg1;
 
     // if we have a constant, then perform the calculation
@@ -400,10 +400,41 @@ BasicPtr Pow::New( BasicPtr const& arg1, BasicPtr const& arg2)
 }
 /*****************************************************************************/
 
+// derivative of a power of a square matrix by the product rule
+/*****************************************************************************/
+static BasicPtr matrixPowDer( BasicPtr const& base, BasicPtr const& dbase, BasicPtr const& exponent )
+/*****************************************************************************/
+{
+    int n = 0;
+    if (!Util::is_Int(exponent,n))
+        throw InternalError("Derivative of a matrix is only defined for integer powers!");
+    if (n < 0)
+    {
+        // der(A^-n) = -A^-n*der(A^n)*A^-n
+        BasicPtr inv = Pow::New(base,exponent);
+        return Neg::New(Mul::New(Mul::New(inv,matrixPowDer(base,dbase,Int::New(-n))),inv));
+    }
+    // der(A^n) = sum(A^k*der(A)*A^(n-1-k))
+    BasicPtr sum = Zero::getZero(base->getShape());
+    for (int k=0;k<n;++k)
+    {
+        BasicPtr term = dbase;
+        if (k > 0)
+            term = Mul::New(Pow::New(base,Int::New(k)),term);
+        if (k < n-1)
+            term = Mul::New(term,Pow::New(base,Int::New(n-1-k)));
+        sum = sum + term;
+    }
+    return sum;
+}
+/*****************************************************************************/
+
 /*****************************************************************************/
 inline BasicPtr Pow::der()
 /*****************************************************************************/
 {
+  if (!is_Scalar())
+    return matrixPowDer(getBase(),getBase()->der(),getExponent());
   // pow(x,y) = der(x)*y*pow(x,y-1)
   return Mul::New(getExponent(),Mul::New(getBase()->der(),New(getBase(),Add::New(getExponent(),Int::getMinusOne()))));
 }
@@ -413,6 +444,8 @@ inline BasicPtr Pow::der()
 inline BasicPtr Pow::der(BasicPtr const& symbol)
 /*****************************************************************************/
 {
+  if (!is_Scalar())
+    return matrixPowDer(getBase(),getBase()->der(symbol),getExponent());
   // pow(x,y) = der(x)*y*pow(x,y-1)
   return Mul::New(getExponent(),Mul::New(getBase()->der(symbol),New(getBase(),Add::New(getExponent(),Int::getMinusOne()))));
 }
-- 
2.43.0


From 6b959d13a0e8ad615d74cd705526eaf20e8da312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:30 +0000
Subject: [PATCH 023/104] fix: A*A**-1 of a matrix was simplified to the number
 one

---
 symbolics/functions/Mul.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/symbolics/functions/Mul.cpp b/symbolics/functions/Mul.cpp
index 95f88fa..4ac9fa5 100644
--- a/symbolics/functions/Mul.cpp
+++ b/symbolics/functions/Mul.cpp
@@ -231,7 +231,7 @@ BasicPtr Mul::simplify()
         {
             const Pow *c = Util::getAsConstPtr<Pow>(lastarg);
             if (dst[i] == c->getBase())
-              lastarg = BasicPtr(new Pow(dst[i],Add::New(c->getExponent(),Int::getOne())));
+              lastarg = Pow::New(dst[i],Add::New(c->getExponent(),Int::getOne())->simplify());
             else
             {
               addArg(lastarg->simplify());
@@ -242,7 +242,7 @@ BasicPtr Mul::simplify()
         {
             const Pow *c = Util::getAsConstPtr<Pow>(dst[i]);
             if (lastarg == c->getBase())
-              lastarg = BasicPtr(new Pow(lastarg,Add::New(c->getExponent(),Int::getOne())));
+              lastarg = Pow::New(lastarg,Add::New(c->getExponent(),Int::getOne())->simplify());
             else
             {
               addArg(lastarg->simplify());
-- 
2.43.0


From c96bbaaeca52e9bb48905d92b3c677680c578052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:02 +0000
Subject: [PATCH 024/104] fix: a product p*s of vector and scalar was unequal
 to itself, sums dropped terms with it

---
 symbolics/functions/Mul.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolics/functions/Mul.cpp b/symbolics/functions/Mul.cpp
index 4ac9fa5..e2916cf 100644
--- a/symbolics/functions/Mul.cpp
+++ b/symbolics/functions/Mul.cpp
@@ -324,7 +324,7 @@ bool Mul::operator==(  Basic const& rhs ) const
     case 0:
         return true;
     case 1:
-        return (m_scalars[0] == mul->getArg(0));
+        return (m_scalars[0] == rhs_scalars[0]);
     case 2:
         return (((m_scalars[0] == rhs_scalars[0]) && (m_scalars[1] == rhs_scalars[1])) ||
                 ((m_scalars[0] == rhs_scalars[1]) && (m_scalars[1] == rhs_scalars[0])));
-- 
2.43.0


From a09bf52653fe41605aba2e503fad21c034d21e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:32 +0000
Subject: [PATCH 025/104] fix: symbols were compared by object identity, so an
 atom of an expression was unequal to its symbol

---
 symbolics/wrapper/CSymbol.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/symbolics/wrapper/CSymbol.cpp b/symbolics/wrapper/CSymbol.cpp
index 0988f66..a9c0e29 100644
--- a/symbolics/wrapper/CSymbol.cpp
+++ b/symbolics/wrapper/CSymbol.cpp
@@ -12,6 +12,7 @@ static int CSymbol_init(CSymbolObject *self, PyObject *args, PyObject *kwds);
 static void CSymbol_del(CSymbolObject *self);
 
 static long CSymbol_hash(CSymbolObject *self);
+static PyObject* CSymbol_cmp(CSymbolObject *self, PyObject *other, int op);
 
 // Dokumentation
 static char CSymbol_doc[] = 
@@ -42,7 +43,7 @@ PyTypeObject Symbolics::Python::CSymbolObjectType = {
     CSymbol_doc,                /* tp_doc            */
     0,                            /* tp_traverse       */
     0,                            /* tp_clear          */
-    0,                            /* tp_richcompare    */
+    (richcmpfunc)CSymbol_cmp,     /* tp_richcompare    */
     0,                            /* tp_weaklistoffset */
     0,                            /* tp_iter           */
     0,                            /* tp_iternext       */
@@ -134,3 +135,14 @@ static long CSymbol_hash(CSymbolObject *self)
 }
 /*****************************************************************************/
 
+// Python does not inherit the comparison of CBasic because of the hash function
+/*****************************************************************************/
+static PyObject* CSymbol_cmp(CSymbolObject *self, PyObject *other, int op)
+/*****************************************************************************/
+{
+	if (!PyObject_TypeCheck(other, &CBasicObjectType))
+		Py_RETURN_NOTIMPLEMENTED;
+	return CBasicObjectType.tp_richcompare((PyObject*)self, other, op);
+}
+/*****************************************************************************/
+
-- 
2.43.0


From 993fd5263243672df3d7de59f05dd7ce9c674755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:23 +0000
Subject: [PATCH 026/104] fix: slices with steps <= 0 never ended, large and
 negative indices were truncated

---
 symbolics/wrapper/CBasic.cpp | 150 ++++++++++++-----------------------
 1 file changed, 52 insertions(+), 98 deletions(-)

diff --git a/symbolics/wrapper/CBasic.cpp b/symbolics/wrapper/CBasic.cpp
index 2c978cc..71c35af 100644
--- a/symbolics/wrapper/CBasic.cpp
+++ b/symbolics/wrapper/CBasic.cpp
@@ -487,6 +487,52 @@ static Py_ssize_t CBasic_len(CBasicObject *self)
 /*****************************************************************************/
 
 // Get Index
+/*****************************************************************************/
+// Einen int oder Slice in eine Liste von Indizes wandeln, length: Anzahl der Elemente
+/*****************************************************************************/
+static bool appendIndices( PyObject *o, size_t length, std::vector<int> &indices, const char *msg )
+/*****************************************************************************/
+{
+	const Py_ssize_t len = static_cast<Py_ssize_t>(length);
+
+	if (PyLong_Check(o))
+	{
+		const Py_ssize_t i = PyLong_AsSsize_t(o);
+		if (PyErr_Occurred()) PyErr_Clear();
+		if ((i < 0) || (i >= len))
+			throw IndexError("Index out of bounds!");
+		indices.push_back(static_cast<int>(i));
+		return true;
+	}
+
+	if (PySlice_Check(o))
+	{
+		// Slice "auspacken"
+		Py_ssize_t start, stop, step;
+		if (PySlice_Unpack(o, &start, &stop, &step) < 0)
+			return false;
+		if (step < 0)
+			throw ShapeError("Slices with negative steps are not supported!");
+		if (start < 0) start += len;
+		if (stop < 0) stop += len;
+		if (stop == PY_SSIZE_T_MAX) stop = len;
+		if (start > stop)
+			throw ShapeError("Slice seems strange start>stop?!");
+		if ((start < 0) || (stop > len))
+			throw IndexError("Slice out of bounds!");
+		for(Py_ssize_t i=start; i<stop; i+=step)
+			indices.push_back(static_cast<int>(i));
+		if (indices.empty())
+			throw ShapeError("Slice is empty!");
+		return true;
+	}
+
+	PyErr_SetString(SymbolicsError, msg);
+	return false;
+}
+/*****************************************************************************/
+
+
 /*****************************************************************************/
 bool getIndex( PyObject *index, Shape const& s, std::vector<int> &m, std::vector<int> &n )
 /*****************************************************************************/
@@ -504,20 +550,7 @@ bool getIndex( PyObject *index, Shape const& s, std::vector<int> &m, std::vector
 	// Vektoren leeren
 	m.clear(); n.clear();
 
-	// Index = Int
-	if (PyLong_Check(index))
-		m.push_back(PyLong_AsSsize_t(index));
-	else if (PySlice_Check(index))
-	{
-		// Slice "auspacken"
-		Py_ssize_t start, stop, step;
-		PySlice_GetIndices(index, s.getDimension(1)*s.getDimension(2), &start, &stop, &step);
-		if (start > stop)
-      throw ShapeError("Slice seems strange start>stop?!");
-		for(int i=(int)start; i<(int)stop; i+=(int)step)
-			m.push_back(i);
-	}
-	else if (PyTuple_Check(index))
+	if (PyTuple_Check(index))
 	{
 		// Index = Tuple
 		const size_t len = PyTuple_Size(index);
@@ -531,94 +564,15 @@ bool getIndex( PyObject *index, Shape const& s, std::vector<int> &m, std::vector
 			PyErr_SetString(SymbolicsError, "Index tuple has more than two elements!");
 			return false;
 		}
-		// Ersten Int holen
-		PyObject *row = PyTuple_GetItem(index, 0);
-		if (PyLong_Check(row))
-			m.push_back(PyLong_AsSsize_t(row));
-		else if (PySlice_Check(row))
-		{
-			// Slice "auspacken"
-			Py_ssize_t start, stop, step;
-			if (len == 1)
-				PySlice_GetIndices(row, s.getDimension(1)*s.getDimension(2), &start, &stop, &step);
-			else
-				PySlice_GetIndices(row, s.getDimension(1), &start, &stop, &step);
-			if (start > stop) 
-        throw ShapeError("Slice seems strange start>stop?!");
-			for(int i=(int)start; i<(int)stop; i+=(int)step)
-				m.push_back(i);
-		}
-		else
-		{
-			PyErr_SetString(SymbolicsError, "First element in index tuple is no int!");
+		const size_t rows = (len == 1) ? s.getDimension(1)*s.getDimension(2) : s.getDimension(1);
+		if (!appendIndices(PyTuple_GetItem(index, 0), rows, m, "First element in index tuple is no int!"))
 			return false;
-		}
-
-		// Zweiten Int holen
 		if (len == 2)
-		{
-			// Zweiten Int holen
-			PyObject *col = PyTuple_GetItem(index, 1);
-			if (PyLong_Check(col))
-				n.push_back(PyLong_AsSsize_t(col));
-			else if (PySlice_Check(col))
-			{
-				// Slice "auspacken"
-				Py_ssize_t start, stop, step;
-				PySlice_GetIndices(col, s.getDimension(2), &start, &stop, &step);
-				if (start > stop) 
-          throw ShapeError("Slice seems strange start>stop?!");
-				for(int i=(int)start; i<(int)stop; i+=(int)step)
-					n.push_back(i);
-			}
-			else	
-			{
-				PyErr_SetString(SymbolicsError, "Second element in index tuple is no int!");
-				return false;
-			}
-		}
-	}
-	else
-	{
-		PyErr_SetString(SymbolicsError, "Index must be either int or a tuple of ints!");
-		return false;
-	}
-
-	// Shape vergleichen
-	if (m.size() < 1)
-	{
-		PyErr_SetString(SymbolicsError, "No first index specified!");
-		return false;
+			return appendIndices(PyTuple_GetItem(index, 1), s.getDimension(2), n, "Second element in index tuple is no int!");
+		return true;
 	}
-	if (n.size() == 0)	// Als Vektor
-	{
-		// Letztes, und damit groesstes m vergleichen
-		if (m[m.size()-1] >= static_cast<int>(s.getDimension(1)*s.getDimension(2)))
-		{
-			PyErr_SetString(SymbolicsError, "First index out of bounds!");
-			return false;
-		}
-	}
-	else		// Als Matrix
-	{
-		// Letztes, und damit groesstes m vergleichen
-		if (m[m.size()-1] >= static_cast<int>(s.getDimension(1)))
-		{
-			PyErr_SetString(SymbolicsError, "First index out of bounds!");
-			return false;
-		}
-	}
-
-	if (n.size() > 0)
-		if (n[n.size()-1] >= static_cast<int>(s.getDimension(2)))
-		{
-			std::string msg = "Second index out of bounds (" + str(n[n.size()-1]) + ">=" + str(s.getDimension(2)) + ")!";
-			PyErr_SetString(SymbolicsError, msg.c_str());
-			return false;
-		}
 
-	// Alles ok
-	return true;
+	return appendIndices(index, s.getDimension(1)*s.getDimension(2), m, "Index must be either int or a tuple of ints!");
 }
 /*****************************************************************************/
 
-- 
2.43.0


From 8973846394f8f304e68b12cfdaf82c9b1bb116c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:23 +0000
Subject: [PATCH 027/104] fix: setting an element changed other expressions
 that share the matrix

---
 symbolics/wrapper/CBasic.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/symbolics/wrapper/CBasic.cpp b/symbolics/wrapper/CBasic.cpp
index 71c35af..9288f29 100644
--- a/symbolics/wrapper/CBasic.cpp
+++ b/symbolics/wrapper/CBasic.cpp
@@ -812,8 +812,9 @@ static int CBasic_set(CBasicObject *self, PyObject *index, PyObject *value)
 				mat->set(i,i, Int::getOne());
 		}
 
-		// Matrix holen
-		Matrix* mat = Util::getAsPtr<Matrix>(self->m_basic);
+		// Matrix kopieren, andere Ausdruecke koennen sich auf die bisherige beziehen
+		Matrix* mat = new Matrix( *Util::getAsPtr<Matrix>(self->m_basic) );
+		BasicPtr newMat( mat );
 
 		// Wert(e) setzen
 		if (slicing(m,n))	// Slicing
@@ -832,6 +833,7 @@ static int CBasic_set(CBasicObject *self, PyObject *index, PyObject *value)
 			else
 				mat->set(m[0], b);
 		}
+		self->m_basic = newMat;
 
 		// Alles ok
 		return 0;
-- 
2.43.0


From dd5baffc7432880ce13a947fbc8365887f9606f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:23 +0000
Subject: [PATCH 028/104] fix: vectors were accepted as elements of a matrix

---
 symbolics/wrapper/CBasic.cpp  | 4 ++--
 symbolics/wrapper/CMatrix.cpp | 6 ++++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/symbolics/wrapper/CBasic.cpp b/symbolics/wrapper/CBasic.cpp
index 9288f29..b71ffb7 100644
--- a/symbolics/wrapper/CBasic.cpp
+++ b/symbolics/wrapper/CBasic.cpp
@@ -829,9 +829,9 @@ static int CBasic_set(CBasicObject *self, PyObject *index, PyObject *value)
 		else				// Kein Slicing
 		{
 			if (n.size() > 0)
-				mat->set(m[0],n[0], b);
+				mat->set(m[0],n[0], b->is_Scalar() ? b : Element::New(b,0,0));
 			else
-				mat->set(m[0], b);
+				mat->set(m[0], b->is_Scalar() ? b : Element::New(b,0,0));
 		}
 		self->m_basic = newMat;
 
diff --git a/symbolics/wrapper/CMatrix.cpp b/symbolics/wrapper/CMatrix.cpp
index d580e83..915dd2c 100644
--- a/symbolics/wrapper/CMatrix.cpp
+++ b/symbolics/wrapper/CMatrix.cpp
@@ -200,6 +200,12 @@ void getElements( PyObject* arg, int level, int dim[], BasicPtrVec &elements )
         BasicPtr a( getBasic(item) );
 		if (a.get() == NULL) throw InternalError("items in list must be in (int, float, CBasic)!");
 
+		// Vektoren und Matrizen koennen kein Element sein
+		if (a->getShape().getNumEl() != 1)
+			throw ShapeError("Elements of a matrix must be scalar!");
+		if (!a->is_Scalar())
+			a = Element::New(a,0,0);
+
 		// Der Liste hinzufuegen
 		elements.push_back(a);
 	}
-- 
2.43.0


From fe588d8399e7ef2c35ae1bd81233ce18a1f41ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:16 +0000
Subject: [PATCH 029/104] fix: integers and products of integers beyond 32 bit
 were truncated

---
 symbolics/Int.cpp               | 11 +++++++++++
 symbolics/functions/Abs.cpp     |  4 ++--
 symbolics/functions/Add.cpp     |  2 +-
 symbolics/functions/Element.cpp |  6 ++++++
 symbolics/functions/Mul.cpp     |  2 +-
 symbolics/functions/Neg.cpp     |  4 ++--
 symbolics/functions/Util.cpp    |  4 ++++
 symbolics/include/Int.h         |  3 +++
 symbolics/printer/Printer.cpp   |  2 +-
 symbolics/wrapper/CBasic.cpp    |  5 ++++-
 symbolics/wrapper/CNumber.cpp   |  6 +++++-
 symbolics/wrapper/convert.cpp   | 18 +++++++++++++++++-
 12 files changed, 57 insertions(+), 10 deletions(-)

diff --git a/symbolics/Int.cpp b/symbolics/Int.cpp
index 2e539a7..c6d93f7 100644
--- a/symbolics/Int.cpp
+++ b/symbolics/Int.cpp
@@ -46,6 +46,17 @@ BasicPtr Int::New( const int i)
 }
 /*****************************************************************************/
 
+/*****************************************************************************/
+BasicPtr Int::fromLong( const long long i)
+/*****************************************************************************/
+{
+    const int value = static_cast<int>(i);
+    if (value != i)
+        return BasicPtr(new Real(static_cast<double>(i)));
+    return New(value);
+}
+/*****************************************************************************/
+
 /*****************************************************************************/
  BasicPtr Int::iterateExp(Symbolics::Basic::Iterator &v)
 /*****************************************************************************/
diff --git a/symbolics/functions/Abs.cpp b/symbolics/functions/Abs.cpp
index 77ef156..c016f75 100644
--- a/symbolics/functions/Abs.cpp
+++ b/symbolics/functions/Abs.cpp
@@ -77,7 +77,7 @@ BasicPtr Abs::simplify()
             if ( i >= 0 )
                 return getArg();
             else
-                return BasicPtr( new Int(-i) );
+                return Int::fromLong( -static_cast<long long>(i) );
         }
     case Type_Real:
         {
@@ -137,7 +137,7 @@ BasicPtr Abs::New( BasicPtr const& arg)
             if ( i >= 0 )
                 return arg;
             else
-                return BasicPtr( new Int(-i) );
+                return Int::fromLong( -static_cast<long long>(i) );
         }
     case Type_Real:
         {
diff --git a/symbolics/functions/Add.cpp b/symbolics/functions/Add.cpp
index 3b5024c..ecb4dd4 100644
--- a/symbolics/functions/Add.cpp
+++ b/symbolics/functions/Add.cpp
@@ -432,7 +432,7 @@ BasicPtr Add::New( BasicPtr const& lhs, BasicPtr const& rhs )
         if (rhs->getType() == Type_Int) 
         {
             const Int *crhs = Util::getAsConstPtr<Int>(rhs);
-            return Int::New(clhs->getValue()+crhs->getValue());
+            return Int::fromLong(static_cast<long long>(clhs->getValue())+crhs->getValue());
         }
         else if (rhs->getType() == Type_Real) 
         {
diff --git a/symbolics/functions/Element.cpp b/symbolics/functions/Element.cpp
index 0b69b59..b276e21 100644
--- a/symbolics/functions/Element.cpp
+++ b/symbolics/functions/Element.cpp
@@ -26,6 +26,12 @@ Element::Element( BasicPtr const& arg, size_t zeroBasedRow, size_t zeroBasedCol
 NaryOp(Type_Element, BasicPtrVec()), m_row(zeroBasedRow), m_col(zeroBasedCol)
 /*****************************************************************************/
 {
+  // Pruefung vor der Umwandlung in Int
+  if (m_row >= arg->getShape().getDimension(1)) 
+    throw IndexError("Element: Row outside range!");
+  if (m_col >= arg->getShape().getDimension(2)) 
+    throw IndexError("Element: Column outside range!");
+
   // Argument speichern
   reserveArgs( 3 );
   addArg( arg );
diff --git a/symbolics/functions/Mul.cpp b/symbolics/functions/Mul.cpp
index e2916cf..0fff271 100644
--- a/symbolics/functions/Mul.cpp
+++ b/symbolics/functions/Mul.cpp
@@ -384,7 +384,7 @@ BasicPtr Mul::New( BasicPtr const& lhs, BasicPtr  const& rhs )
         if (rhs->getType() == Type_Int) 
         {
             const Int *crhs = Util::getAsConstPtr<Int>(rhs);
-            return Int::New(clhs->getValue()*crhs->getValue());
+            return Int::fromLong(static_cast<long long>(clhs->getValue())*crhs->getValue());
         }
         else if (rhs->getType() == Type_Real) 
         {
diff --git a/symbolics/functions/Neg.cpp b/symbolics/functions/Neg.cpp
index 08edced..5e64c90 100644
--- a/symbolics/functions/Neg.cpp
+++ b/symbolics/functions/Neg.cpp
@@ -63,7 +63,7 @@ BasicPtr Neg::simplify()
         {
             const Int *c = Util::getAsConstPtr<Int>(getArg());
             int i = c->getValue();
-            return Int::New(-i);
+            return Int::fromLong(-static_cast<long long>(i));
         }
     case Type_Real:
         {
@@ -108,7 +108,7 @@ BasicPtr Neg::New(BasicPtr const& e)
     case Type_Int:
         {
             const Int *c = Util::getAsConstPtr<Int>(e);
-            return BasicPtr( new Int(-(*c).getValue()) );
+            return Int::fromLong( -static_cast<long long>((*c).getValue()) );
         }
     case Type_Bool:
         {
diff --git a/symbolics/functions/Util.cpp b/symbolics/functions/Util.cpp
index 42341e4..df6f97f 100644
--- a/symbolics/functions/Util.cpp
+++ b/symbolics/functions/Util.cpp
@@ -24,6 +24,7 @@
   #include <sys/sysinfo.h>
 #endif
 
+#include <limits.h>
 #include <math.h>
 
 #include "Util.h"
@@ -241,6 +242,9 @@ bool Util::is_Int(BasicPtr const& basic, int &i_Out)
         {
             const Real *r = Util::getAsConstPtr<Real>(basic);
             double dbl = r->getValue();
+            i_Out = 0;
+            if (!(fabs(dbl) < INT_MAX))
+                return false;
             if (dbl >= 0)
                 i_Out = static_cast<int>(dbl+0.5);
             else
diff --git a/symbolics/include/Int.h b/symbolics/include/Int.h
index e9d6b14..4dfca13 100644
--- a/symbolics/include/Int.h
+++ b/symbolics/include/Int.h
@@ -24,6 +24,9 @@ namespace Symbolics
 
         static BasicPtr New( const int i);
 
+        // Liefert einen Int, oder einen Real falls der Wert nicht in einen int passt
+        static BasicPtr fromLong( const long long i);
+
         inline int getValue() const  { return m_value; };
 
         inline std::string toString() const { return str(m_value); };
diff --git a/symbolics/printer/Printer.cpp b/symbolics/printer/Printer.cpp
index 04c70a8..9031369 100644
--- a/symbolics/printer/Printer.cpp
+++ b/symbolics/printer/Printer.cpp
@@ -476,7 +476,7 @@ std::string Printer::join( ConstBasicPtr const& arg,
 			{
 				const Int *i = Util::getAsConstPtr<Int>(a);
 				if (i->getValue() < 0)
-					s += negSep + print( Int::New( -i->getValue() ) );
+					s += negSep + print( Int::fromLong( -static_cast<long long>(i->getValue()) ) );
 				else
 					s += posSep + print( a );
 				break;
diff --git a/symbolics/wrapper/CBasic.cpp b/symbolics/wrapper/CBasic.cpp
index b71ffb7..12d5d51 100644
--- a/symbolics/wrapper/CBasic.cpp
+++ b/symbolics/wrapper/CBasic.cpp
@@ -395,7 +395,10 @@ static PyObject* CBasic_pow(PyObject *self, PyObject *other, PyObject *modulo)
         if (PyFloat_Check(other))
             exponent = PyFloat_AsDouble(other);
         else if (PyLong_Check(other))
-            exponent = PyLong_AsLong(other);
+        {
+            exponent = PyLong_AsDouble(other);
+            if (PyErr_Occurred()) return NULL;
+        }
         else
         {
             PyErr_SetString(SymbolicsError, "Exponent must be a number!");
diff --git a/symbolics/wrapper/CNumber.cpp b/symbolics/wrapper/CNumber.cpp
index 4597df3..ca5fea8 100644
--- a/symbolics/wrapper/CNumber.cpp
+++ b/symbolics/wrapper/CNumber.cpp
@@ -96,7 +96,11 @@ static int CNumber_init(CNumberObject *self, PyObject *args, PyObject *kwds)
 
 		// Ist es ein Int?
 		if (PyLong_Check(item))
-			self->m_basic = Int::New( PyLong_AsLong(item) );
+		{
+			self->m_basic = getBasic(item);
+			if (self->m_basic->getType() == Type_Int)
+				self->m_basic = Int::New( Util::getAsConstPtr<Int>(self->m_basic)->getValue() );
+		}
 		else if (PyFloat_Check(item))
 			self->m_basic = BasicPtr( new Real( PyFloat_AsDouble(item) ) );
 		else
diff --git a/symbolics/wrapper/convert.cpp b/symbolics/wrapper/convert.cpp
index 57053d2..0bfe573 100644
--- a/symbolics/wrapper/convert.cpp
+++ b/symbolics/wrapper/convert.cpp
@@ -441,7 +441,23 @@ BasicPtr getBasic( PyObject *o )
     }
     // Type == int
     if (PyLong_Check(o))
-        return BasicPtr( new Int( PyLong_AsLong(o) ) );
+    {
+        int overflow = 0;
+        const long long value = PyLong_AsLongLongAndOverflow(o, &overflow);
+        if (overflow == 0)
+        {
+            if (static_cast<int>(value) == value)
+                return BasicPtr( new Int( static_cast<int>(value) ) );
+            return Int::fromLong(value);
+        }
+        const double dbl = PyLong_AsDouble(o);
+        if (PyErr_Occurred())
+        {
+            PyErr_Clear();
+            throw InternalError("Integer is too large!");
+        }
+        return BasicPtr( new Real(dbl) );
+    }
     // Type == float
     if (PyFloat_Check(o))
         return BasicPtr( new Real( PyFloat_AsDouble(o) ) );
-- 
2.43.0


From 73a3ab09acdd101f82b9536cfc551e911f469b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:23 +0000
Subject: [PATCH 030/104] fix: negative dimensions were accepted as huge shapes

---
 symbolics/wrapper/convert.cpp | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/symbolics/wrapper/convert.cpp b/symbolics/wrapper/convert.cpp
index 0bfe573..6c841e1 100644
--- a/symbolics/wrapper/convert.cpp
+++ b/symbolics/wrapper/convert.cpp
@@ -289,6 +289,25 @@ std::vector< BasicPtr> toBasicVec( PyObject *o, Graph::Graph* &g )
 
 
 #pragma region Shape
+/*****************************************************************************/
+// Eine Dimension eines Shapes, negative oder riesige Werte ablehnen
+/*****************************************************************************/
+static size_t toDimension( PyObject *o )
+/*****************************************************************************/
+{
+    const Py_ssize_t n = PyLong_AsSsize_t(o);
+    if (PyErr_Occurred())
+    {
+        PyErr_Clear();
+        throw ShapeError("Dimension is too large!");
+    }
+    if (n < 0)
+        throw ShapeError("Dimension must not be negative!");
+    return static_cast<size_t>(n);
+}
+/*****************************************************************************/
+
+
 /*****************************************************************************/
 // Ein Tupel in einen Shape wandeln
 /*****************************************************************************/
@@ -301,7 +320,7 @@ Shape toShape( PyObject *tuple )
 	// Auf Int pruefen
 	if (PyLong_Check(tuple))
 	{
-		const size_t n = PyLong_AsSsize_t(tuple);
+		const size_t n = toDimension(tuple);
 		return Shape(n,n);
 	}
 
@@ -323,7 +342,7 @@ Shape toShape( PyObject *tuple )
             if (dim1 == NULL) throw InternalError("Internal Error: toShape(1)!");
             // Shape erstellen
             if (!PyLong_Check(dim1)) throw InternalError("Internal Error: toShape - dim1 must be an integer!");
-            return Shape( PyLong_AsSsize_t( dim1 ) );
+            return Shape( toDimension( dim1 ) );
         }
     case 2:
         {
@@ -336,7 +355,7 @@ Shape toShape( PyObject *tuple )
             // Shape erstellen
             if (!PyLong_Check(dim1)) throw InternalError("Internal Error: toShape - dim1 must be an integer!");
             if (!PyLong_Check(dim2)) throw InternalError("Internal Error: toShape - dim2 must be an integer!");
-            return Shape( PyLong_AsSsize_t( dim1 ), PyLong_AsSsize_t( dim2 ) );
+            return Shape( toDimension( dim1 ), toDimension( dim2 ) );
         }
 	case 3:
         {
@@ -353,7 +372,7 @@ Shape toShape( PyObject *tuple )
             if (!PyLong_Check(ndim)) throw InternalError("Internal Error: toShape - ndim must be an integer!");
             if (!PyLong_Check(dim1)) throw InternalError("Internal Error: toShape - dim1 must be an integer!");
             if (!PyLong_Check(dim2)) throw InternalError("Internal Error: toShape - dim2 must be an integer!");
-            return Shape( PyLong_AsSsize_t( ndim ), PyLong_AsSsize_t( dim1 ), PyLong_AsSsize_t( dim2 ) );
+            return Shape( toDimension( ndim ), toDimension( dim1 ), toDimension( dim2 ) );
         }
 
     default:
-- 
2.43.0


From fe962bec4f9d4b328da48a050ee8d0741ad3458c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:23 +0000
Subject: [PATCH 031/104] fix: a list that mixes a row and a number was
 accepted as a matrix

---
 symbolics/wrapper/CMatrix.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/symbolics/wrapper/CMatrix.cpp b/symbolics/wrapper/CMatrix.cpp
index 915dd2c..8661401 100644
--- a/symbolics/wrapper/CMatrix.cpp
+++ b/symbolics/wrapper/CMatrix.cpp
@@ -173,7 +173,8 @@ void getElements( PyObject* arg, int level, int dim[], BasicPtrVec &elements )
 			throw InternalError("Mismatch of list length!");
 
 	// Alle Listenelemente durchlaufen
-	bool hasList = true;
+	bool hasList = false;
+	bool hasScalar = false;
 	for( size_t i=0; i<n; ++i)
 	{
 		// Element aus Liste holen
@@ -184,14 +185,15 @@ void getElements( PyObject* arg, int level, int dim[], BasicPtrVec &elements )
 		if (PyList_Check(item))
 		{
 			// Mix von List und Skalar?
-			if (hasList == false) throw InternalError("Elements in list must either be lists or scalar!");
+			hasList = true;
+			if (hasScalar == true) throw InternalError("Elements in list must either be lists or scalar!");
 			// Tiefenpruefung
 			if (level >= 1) throw InternalError("Only two dimensional matrices are supported!");
 			// Eintauchen
 			getElements( item, level+1, dim, elements);
 			continue;
 		}
-		else hasList = false;
+		else hasScalar = true;
 
 		// Mix von List und Skalar?
 		if (hasList == true) throw InternalError("Elements in list must either be lists or scalar!");
-- 
2.43.0


From f126aabb93f0be7b0ae6fc809908bf014a99d38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:52 +0000
Subject: [PATCH 032/104] fix: elements outside the shape and ill-shaped
 scalar, skew, solve and powers were accepted for constants

---
 symbolics/functions/Element.cpp | 4 ++++
 symbolics/functions/Pow.cpp     | 4 ++++
 symbolics/functions/Scalar.cpp  | 3 +++
 symbolics/functions/Skew.cpp    | 3 +++
 symbolics/functions/Solve.cpp   | 7 +++++++
 5 files changed, 21 insertions(+)

diff --git a/symbolics/functions/Element.cpp b/symbolics/functions/Element.cpp
index b276e21..93e8651 100644
--- a/symbolics/functions/Element.cpp
+++ b/symbolics/functions/Element.cpp
@@ -210,6 +210,10 @@ BasicPtr Element::New( BasicPtr const& arg, size_t zeroBasedRow, size_t zeroBase
     else
       throw InternalError("Cannot get Element[" + str(zeroBasedRow) + "," + str(zeroBasedCol) + "] from expression " + arg->toString());
   }
+  if (zeroBasedRow >= arg->getShape().getDimension(1)) 
+    throw IndexError("Element: Row outside range!");
+  if (zeroBasedCol >= arg->getShape().getDimension(2)) 
+    throw IndexError("Element: Column outside range!");
   // simplify matrices
   switch(arg->getType())
   {
diff --git a/symbolics/functions/Pow.cpp b/symbolics/functions/Pow.cpp
index 7e6defc..2a5c267 100644
--- a/symbolics/functions/Pow.cpp
+++ b/symbolics/functions/Pow.cpp
@@ -264,6 +264,10 @@ BasicPtr Pow::New( BasicPtr const& arg1, BasicPtr const& arg2)
     if (arg2 == Zero::getZero() ) return Util::eye(arg1->getShape());
     if (arg2 == Int::getOne() ) return arg1;
 
+    // only square matrices have got powers
+    if (!arg1->is_Scalar() && (arg1->getShape().getDimension(1) != arg1->getShape().getDimension(2)))
+        throw ShapeError("Pow: base must be scalar or square but is " + arg1->getShape().toString() + "!");
+
     // if we have a constant, then perform the calculation
     switch (arg1->getType()) 
     {
diff --git a/symbolics/functions/Scalar.cpp b/symbolics/functions/Scalar.cpp
index 9fc8709..5e3fe7e 100644
--- a/symbolics/functions/Scalar.cpp
+++ b/symbolics/functions/Scalar.cpp
@@ -102,6 +102,9 @@ BasicPtr Scalar::simplify()
 BasicPtr Scalar::New(BasicPtr const& arg)
 /*****************************************************************************/
 {
+    if (arg->getShape().getNumEl() != 1)
+        throw ShapeError("Scalar - Argument must be (1,1) but is " + arg->getShape().toString() + "!");
+
     // if constant move sign into value
     switch (arg->getType())
     {
diff --git a/symbolics/functions/Skew.cpp b/symbolics/functions/Skew.cpp
index 2f1fef1..110ff04 100644
--- a/symbolics/functions/Skew.cpp
+++ b/symbolics/functions/Skew.cpp
@@ -102,6 +102,9 @@ BasicPtr Skew::simplify()
 BasicPtr Skew::New( BasicPtr const& arg)
 /*****************************************************************************/
 {
+    if (!arg->is_Scalar() && ((arg->getShape().getDimension(1) != 3) || (arg->getShape().getDimension(2) != 1)))
+        throw ShapeError("Skew - Argument must be (3,1) but is " + arg->getShape().toString() + "!");
+
     // if zero, return zero
     if (Util::is_Zero(arg)) return Zero::getZero(Shape(3,3));
 
diff --git a/symbolics/functions/Solve.cpp b/symbolics/functions/Solve.cpp
index 0e4c21b..7558459 100644
--- a/symbolics/functions/Solve.cpp
+++ b/symbolics/functions/Solve.cpp
@@ -107,6 +107,13 @@ BasicPtr Solve::simplify()
 BasicPtr Solve::New( BasicPtr const& arg1, BasicPtr const& arg2)
 /*****************************************************************************/
 {
+    if (!arg1->is_Scalar() && !arg2->is_Scalar())
+    {
+        Shape const& s = arg1->getShape();
+        if ((s.getDimension(1) != s.getDimension(2)) || (s.getDimension(1) != arg2->getShape().getDimension(1)))
+            throw ShapeError("Solve - Shapes " + s.toString() + " and " + arg2->getShape().toString() + " do not match!");
+    }
+
     // b is zero
     if (Util::is_Zero(arg2))
     {
-- 
2.43.0


From 5edabc50e830432c7a198459dccecfba6fdb8ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:22 +0000
Subject: [PATCH 033/104] fix: a sensor or variable that equals a state, an
 input or the time made optimizing the graph fail

---
 symbolics/graph/PastOptimisation.cpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/symbolics/graph/PastOptimisation.cpp b/symbolics/graph/PastOptimisation.cpp
index 30987c0..8b7cbaa 100644
--- a/symbolics/graph/PastOptimisation.cpp
+++ b/symbolics/graph/PastOptimisation.cpp
@@ -182,11 +182,9 @@ void PastOptimisation::NodeOptimizer::process_Node(NodePtr p)
       {
         SymbolPtr as = Util::getAsPtr<Symbol>(exp);
         SymbolNodeElement *elem = static_cast<SymbolNodeElement*>(as->getUserData(ID_UD_NODE));
+        // states, inputs, controllers and the time have no equation
         if (elem == NULL)
-        {
-          //return;
-          throw InternalError("Symbol: " + as->getName() + " has no equation!");
-        }
+          return;
         if (elem->kind != ALL)
           return;
         NodePtr ap = elem->node;
@@ -212,11 +210,9 @@ void PastOptimisation::NodeOptimizer::process_Node(NodePtr p)
           const Symbol *sconst = Util::getAsConstPtr< Symbol>(c->getArg());
           Symbol *as = const_cast<Symbol*>(sconst);
           SymbolNodeElement *elem = static_cast<SymbolNodeElement*>(as->getUserData(ID_UD_NODE));
+          // states, inputs, controllers and the time have no equation
           if (elem == NULL)
-          {
-            //return;
-            throw InternalError("Symbol: " + as->getName() + " has no equation!");
-          }
+            return;
           if (elem->kind != ALL)
             return;
           NodePtr ap = elem->node;
-- 
2.43.0


From 00e28e5fb641aaea56647c37f44a2ae7a2204923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:43 +0000
Subject: [PATCH 034/104] fix: solutions of simultaneous equations were listed
 as copies of the first one

---
 symbolics/wrapper/CAssignment.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolics/wrapper/CAssignment.cpp b/symbolics/wrapper/CAssignment.cpp
index 11094e4..3926c03 100644
--- a/symbolics/wrapper/CAssignment.cpp
+++ b/symbolics/wrapper/CAssignment.cpp
@@ -140,7 +140,7 @@ static PyObject* returnBasicPtrVec(Symbolics::BasicPtrVec &basicVec)
 		for (size_t i=0;i<basicVec.size();i++)
 		{
 			CBasicObject* basic = new CBasicObject();
-			basic->m_basic = basicVec[0];
+			basic->m_basic = basicVec[i];
 			PyObject *obj = PyObject_Init( basic, &CBasicObjectType );
 			PyList_SetItem(pylist,i,obj);
 		}
-- 
2.43.0


From 9cddeb5bce72dd32e6b403a5f68f101246ba7b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:43 +0000
Subject: [PATCH 035/104] fix: optimizing replaced the solution of an implicit
 equation by its residual

---
 symbolics/graph/PastOptimisation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/symbolics/graph/PastOptimisation.cpp b/symbolics/graph/PastOptimisation.cpp
index 8b7cbaa..d51270a 100644
--- a/symbolics/graph/PastOptimisation.cpp
+++ b/symbolics/graph/PastOptimisation.cpp
@@ -188,7 +188,7 @@ void PastOptimisation::NodeOptimizer::process_Node(NodePtr p)
         if (elem->kind != ALL)
           return;
         NodePtr ap = elem->node;
-        if(ap->get_Category() < PARAMETER)
+        if((ap->get_Category() < PARAMETER) && !ap->is_Implicit())
         {
           // set b = a.exp
           p->subs(exp,ap->getRhs(0));
@@ -216,7 +216,7 @@ void PastOptimisation::NodeOptimizer::process_Node(NodePtr p)
           if (elem->kind != ALL)
             return;
           NodePtr ap = elem->node;
-          if(ap->get_Category() < PARAMETER)
+          if((ap->get_Category() < PARAMETER) && !ap->is_Implicit())
           {
             // set b = a.exp
             p->subs(exp,Neg::New(ap->getRhs(0)));
-- 
2.43.0


From 75cf5a4a80f71c89f5da4a6f92e11f205789b1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:43 +0000
Subject: [PATCH 036/104] fix: an algebraic loop was turned into assignments
 that use values before they are computed

---
 symbolics/graph/MatchedSystem.cpp | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/symbolics/graph/MatchedSystem.cpp b/symbolics/graph/MatchedSystem.cpp
index 7983fa5..84c58bf 100644
--- a/symbolics/graph/MatchedSystem.cpp
+++ b/symbolics/graph/MatchedSystem.cpp
@@ -29,6 +29,26 @@ MatchedSystem::~MatchedSystem()
 }
 /*****************************************************************************/
 
+// The equations are solved one after the other, so none may depend on its own result
+/*****************************************************************************/
+static void checkAlgebraicLoop( NodePtr const& p, std::map<NodePtr, bool> &finished )
+/*****************************************************************************/
+{
+  std::map<NodePtr, bool>::iterator it = finished.find(p);
+  if (it != finished.end())
+  {
+    if (!it->second)
+      throw InternalError("Algebraic loop through equation " + p->toString());
+    return;
+  }
+  finished[p] = false;
+  NodePtrSet &parents = p->getParents();
+  for (NodePtrSet::iterator ii=parents.begin();ii!=parents.end();++ii)
+    checkAlgebraicLoop(*ii,finished);
+  finished[p] = true;
+}
+/*****************************************************************************/
+
 /*****************************************************************************/
 double MatchedSystem::buildGraph()
 /*****************************************************************************/
@@ -39,6 +59,11 @@ double MatchedSystem::buildGraph()
   {
     m_nodes[i]->findParentsNodes();
   }
+  std::map<NodePtr, bool> finished;
+  for (size_t i=0;i<m_nodes.size();++i)
+  {
+    checkAlgebraicLoop(m_nodes[i],finished);
+  }
   //return t2-t1;
   return Util::getTime()-t1;
 }
-- 
2.43.0


From 82be6e622e12da70af29fd1634d9796f28440d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:43 +0000
Subject: [PATCH 037/104] fix: a graph with fewer or more equations than
 unknowns came out empty

---
 symbolics/graph/UnMatchedSystem.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/symbolics/graph/UnMatchedSystem.cpp b/symbolics/graph/UnMatchedSystem.cpp
index 918079c..b9d89fa 100644
--- a/symbolics/graph/UnMatchedSystem.cpp
+++ b/symbolics/graph/UnMatchedSystem.cpp
@@ -269,6 +269,8 @@ void UnMatchedSystem::addSymbolToIncidenceMatrix(SymbolPtr s)
           }
           else
             symbol->state = false;
+          if (parameter)
+            m_parameter.insert(symbol);
           symbol->parameter = parameter;
           m_incidencematrixT[symbol] = MEquationPtrVec();
           symbols->push_back(symbol);
@@ -518,8 +520,8 @@ double UnMatchedSystem::matchSystem()
   // check size
   if (m_equations.size() != (m_incidencematrixT.size() - m_states.size() - m_parameter.size()))
   {
-    toGraphML("IncidenceMatrix.graphml");
-    return -1;
+    throw InternalError("Number of equations (" + str(m_equations.size()) + ") does not match the number of unknowns (" +
+                        str(m_incidencematrixT.size() - m_states.size() - m_parameter.size()) + ")!");
   }
   //
   if (debugmode)
-- 
2.43.0


From 5327c5d71fba059cc12ada93143ba263ec41c85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:41 +0000
Subject: [PATCH 038/104] fix: a constant in a system with implicit equations
 was counted as an equation without unknown

---
 symbolics/graph/UnMatchedSystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolics/graph/UnMatchedSystem.cpp b/symbolics/graph/UnMatchedSystem.cpp
index b9d89fa..32dd939 100644
--- a/symbolics/graph/UnMatchedSystem.cpp
+++ b/symbolics/graph/UnMatchedSystem.cpp
@@ -30,7 +30,7 @@ SystemHandler(eqsys,nodes)
     SymbolPtrElemMap& solveFor = e->getSolveFor();
     for (SymbolPtrElemMap::iterator j=solveFor.begin();j!=solveFor.end();j++)
     {
-      if (j->first->getKind() & PARAMETER)
+      if (j->first->getKind() & (PARAMETER | CONSTANT))
       {
         parameter = true;
       }
-- 
2.43.0


From 71de7ecd78433efba790262298be479a067d32a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:02 +0000
Subject: [PATCH 039/104] fix: an alias of one unknown of a simultaneous block
 was replaced by itself when optimizing

---
 symbolics/graph/PastOptimisation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/symbolics/graph/PastOptimisation.cpp b/symbolics/graph/PastOptimisation.cpp
index d51270a..710b420 100644
--- a/symbolics/graph/PastOptimisation.cpp
+++ b/symbolics/graph/PastOptimisation.cpp
@@ -188,7 +188,7 @@ void PastOptimisation::NodeOptimizer::process_Node(NodePtr p)
         if (elem->kind != ALL)
           return;
         NodePtr ap = elem->node;
-        if((ap->get_Category() < PARAMETER) && !ap->is_Implicit())
+        if((ap->get_Category() < PARAMETER) && !ap->is_Implicit() && (ap->getRhsSize() == 1))
         {
           // set b = a.exp
           p->subs(exp,ap->getRhs(0));
@@ -216,7 +216,7 @@ void PastOptimisation::NodeOptimizer::process_Node(NodePtr p)
           if (elem->kind != ALL)
             return;
           NodePtr ap = elem->node;
-          if((ap->get_Category() < PARAMETER) && !ap->is_Implicit())
+          if((ap->get_Category() < PARAMETER) && !ap->is_Implicit() && (ap->getRhsSize() == 1))
           {
             // set b = a.exp
             p->subs(exp,Neg::New(ap->getRhs(0)));
-- 
2.43.0


From 198408f691f85e8a751c80cdf3f95e9068135685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:18 +0000
Subject: [PATCH 040/104] fix: blocks of simultaneous equations were torn
 apart, values were used before they were computed

---
 symbolics/graph/UnMatchedSystem.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/symbolics/graph/UnMatchedSystem.cpp b/symbolics/graph/UnMatchedSystem.cpp
index 32dd939..14b80b2 100644
--- a/symbolics/graph/UnMatchedSystem.cpp
+++ b/symbolics/graph/UnMatchedSystem.cpp
@@ -1185,7 +1185,6 @@ void UnMatchedSystem::strongConnect(size_t &i, MEquation* eqn,
             {
               if (eqn->lowlink > eq->number)
                 eqn->lowlink = eq->number;
-              break;
             }
           }
         }
-- 
2.43.0


From 612597aa7dc4480888d01c103a8903a5fe3c25cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:54 +0000
Subject: [PATCH 041/104] fix: an additional equation for the time, an input or
 a state was silently dropped

---
 symbolics/graph/EquationSystem.cpp | 6 ++++++
 symbolics/graph/MatchedSystem.cpp  | 7 +++++++
 2 files changed, 13 insertions(+)

diff --git a/symbolics/graph/EquationSystem.cpp b/symbolics/graph/EquationSystem.cpp
index a1e230d..7e776d8 100644
--- a/symbolics/graph/EquationSystem.cpp
+++ b/symbolics/graph/EquationSystem.cpp
@@ -317,6 +317,12 @@ void EquationSystem::checkEquation(DerivativeScanner *scanner,
       }
     }
   }
+  // the time, inputs and controllers are given
+  for (SymbolPtrElemMap::iterator is=symbols.begin();is!=symbols.end();is++)
+  {
+    if ((is->first->getKind() & (INPUT | CONTROLLER)) || (is->first->getName() == "time"))
+      throw SymbolAlreadySolvedInError(is->first->getName() + " is given, there must be no equation for it");
+  }
   // wenn symbol schon da dann Fehler 
   for (SymbolPtrElemMap::iterator is=symbols.begin();is!=symbols.end();is++)
   {
diff --git a/symbolics/graph/MatchedSystem.cpp b/symbolics/graph/MatchedSystem.cpp
index 84c58bf..93e5ebf 100644
--- a/symbolics/graph/MatchedSystem.cpp
+++ b/symbolics/graph/MatchedSystem.cpp
@@ -58,6 +58,13 @@ double MatchedSystem::buildGraph()
   for (size_t i=0;i<m_nodes.size();++i)
   {
     m_nodes[i]->findParentsNodes();
+    // the states are given, only their derivatives have equations
+    SymbolPtrElemMap &solveFor = m_nodes[i]->getSolveFor();
+    for (SymbolPtrElemMap::iterator ii=solveFor.begin();ii!=solveFor.end();++ii)
+    {
+      if ((ii->second.kind == ALL) && (ii->first->stateKind() == ALL) && (ii->first->is_State(0,0) & STATE))
+        throw InternalError("State " + ii->first->getName() + " is solved in equation " + m_nodes[i]->toString());
+    }
   }
   std::map<NodePtr, bool> finished;
   for (size_t i=0;i<m_nodes.size();++i)
-- 
2.43.0


From 983f052067c086f41d4e84469cb9eb283990de05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:40 +0000
Subject: [PATCH 042/104] fix: Python: offset of a state in the state vector

---
 symbolics/writer/PythonWriter.cpp | 24 ++++++++++-----------
 symbolics/writer/Writer.cpp       | 35 +++++++++++++++++++++++++++++++
 symbolics/writer/include/Writer.h |  6 ++++++
 3 files changed, 53 insertions(+), 12 deletions(-)

diff --git a/symbolics/writer/PythonWriter.cpp b/symbolics/writer/PythonWriter.cpp
index 44facdc..668effd 100644
--- a/symbolics/writer/PythonWriter.cpp
+++ b/symbolics/writer/PythonWriter.cpp
@@ -139,15 +139,15 @@ double PythonWriter::generateStateDerivative(Graph::Graph &g)
 
 	// extract state from argument
 	f << "    # state" << std::endl;
+	std::vector<size_t> offsets = getStateOffsets(g, states);
 	for (Graph::VariableVec::size_type i = 0; i < states.size() ; ++i)
 	{
-		Shape n = states.at(i)->getShape();
 		f << "    " << m_p->print(states[i]) << " = ";
 		if (states[i]->is_Scalar())
-			f << "y[" << str(i) << "]" << std::endl;
+			f << "y[" << str(offsets[i]) << "]" << std::endl;
 		else
-			f << "matrix(y[" << str(n.getDimension(1) * i) << ":"
-			  << str(n.getDimension(1) * (i+1)) << "], dtype=float).T"
+			f << "matrix(y[" << str(offsets[i]) << ":"
+			  << str(offsets[i] + states[i]->getShape().getNumEl()) << "], dtype=float).T"
 			  << std::endl;
 	}
 	f << std::endl;
@@ -285,15 +285,15 @@ double PythonWriter::generateVisualSensors(Graph::Graph &g)
 
 	// extract state from argument
 	f << "    # state" << std::endl;
+	std::vector<size_t> offsets = getStateOffsets(g, states);
 	for (Graph::VariableVec::size_type i = 0; i < states.size() ; ++i)
 	{
-		Shape n = states.at(i)->getShape();
 		f << "    " << m_p->print(states[i]) << " = ";
 		if (states[i]->is_Scalar())
-			f << "y[" << str(i) << "]" << std::endl;
+			f << "y[" << str(offsets[i]) << "]" << std::endl;
 		else
-			f << "matrix(y[" << str(n.getDimension(1) * i) << ":"
-			  << str(n.getDimension(1) * (i+1)) << "], dtype=float).T"
+			f << "matrix(y[" << str(offsets[i]) << ":"
+			  << str(offsets[i] + states[i]->getShape().getNumEl()) << "], dtype=float).T"
 			  << std::endl;
 	}
 	f << std::endl;
@@ -415,15 +415,15 @@ double PythonWriter::generateSensors(Graph::Graph &g)
 
 	// extract state from argument
 	f << "    # state" << std::endl;
+	std::vector<size_t> offsets = getStateOffsets(g, states);
 	for (Graph::VariableVec::size_type i = 0; i < states.size() ; ++i)
 	{
-		Shape n = states.at(i)->getShape();
 		f << "    " << m_p->print(states[i]) << " = ";
 		if (states[i]->is_Scalar())
-			f << "y[" << str(i) << "]" << std::endl;
+			f << "y[" << str(offsets[i]) << "]" << std::endl;
 		else
-			f << "matrix(y[" << str(n.getDimension(1) * i) << ":"
-			  << str(n.getDimension(1) * (i+1)) << "], dtype=float).T"
+			f << "matrix(y[" << str(offsets[i]) << ":"
+			  << str(offsets[i] + states[i]->getShape().getNumEl()) << "], dtype=float).T"
 			  << std::endl;
 	}
 	f << std::endl;
diff --git a/symbolics/writer/Writer.cpp b/symbolics/writer/Writer.cpp
index bc212b5..cc5fb11 100644
--- a/symbolics/writer/Writer.cpp
+++ b/symbolics/writer/Writer.cpp
@@ -1,5 +1,6 @@
 #include "Writer.h"
 #include "str.h"
+#include <algorithm>
 
 #ifdef WIN32
   #include <time.h>
@@ -66,6 +67,40 @@ std::string Writer::getHeaderLine()
 }
 /*****************************************************************************/
 
+/*****************************************************************************/
+std::vector<size_t> Writer::getStateOffsets(Graph::Graph& g, Graph::VariableVec const& states)
+/*****************************************************************************/
+{
+    Graph::VariableVec all = g.getVariables(STATE);
+    std::sort(all.begin(), all.end(), sortVariableVec);
+
+    std::vector<size_t> offsets;
+    for (Graph::VariableVec::const_iterator it=states.begin(); it!=states.end(); ++it)
+    {
+        size_t offset = 0;
+        Graph::VariableVec::const_iterator jt = all.begin();
+        for (; jt!=all.end() && jt->get() != it->get(); ++jt)
+            offset += (*jt)->getShape().getNumEl();
+        if (jt == all.end())
+            throw InternalError("Writer: State \"" + (*it)->getName() + "\" is not part of the graph!");
+        offsets.push_back(offset);
+    }
+    return offsets;
+}
+/*****************************************************************************/
+
+/*****************************************************************************/
+size_t Writer::getStateSize(Graph::Graph& g)
+/*****************************************************************************/
+{
+    Graph::VariableVec all = g.getVariables(STATE);
+    size_t size = 0;
+    for (Graph::VariableVec::const_iterator it=all.begin(); it!=all.end(); ++it)
+        size += (*it)->getShape().getNumEl();
+    return size;
+}
+/*****************************************************************************/
+
 /*****************************************************************************/
 bool Writer::sortVariableVec (boost::intrusive_ptr<Symbolics::Symbol> a, boost::intrusive_ptr<Symbolics::Symbol> b)
 /*****************************************************************************/
diff --git a/symbolics/writer/include/Writer.h b/symbolics/writer/include/Writer.h
index 3766aaa..c21c047 100644
--- a/symbolics/writer/include/Writer.h
+++ b/symbolics/writer/include/Writer.h
@@ -33,6 +33,12 @@ namespace Symbolics
 
         std::string getHeaderLine();
 
+        // Stelle, an der jeder der Zustaende im Zustandsvektor y beginnt. Der Zustandsvektor enthaelt
+        // alle Zustaende des Graphen in sortierter Reihenfolge, states kann eine Auswahl davon sein.
+        static std::vector<size_t> getStateOffsets(Graph::Graph& g, Graph::VariableVec const& states);
+        // Laenge des Zustandsvektors
+        static size_t getStateSize(Graph::Graph& g);
+
 		// Vielleicht ist folgende Funktion logisch sinnvoller in einer anderen Klasse aufgehoben - wenn jemand wei� wo, einfach �ndern.
 		// Die Funktion ist als Parameter f�r die std::sort Funktion gedacht, um Graph::VariableVec Vektoren zu sortieren.
 		// Die Funktion muss static sein, da sie als functionpointer verwendet wird
-- 
2.43.0


From aba47f3d6dc09269ecfeecc3f7e8cc1fdb47ae81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:40 +0000
Subject: [PATCH 043/104] fix: Python: indentation of constants

---
 symbolics/writer/PythonWriter.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/symbolics/writer/PythonWriter.cpp b/symbolics/writer/PythonWriter.cpp
index 668effd..1b3e8e2 100644
--- a/symbolics/writer/PythonWriter.cpp
+++ b/symbolics/writer/PythonWriter.cpp
@@ -182,7 +182,7 @@ double PythonWriter::generateStateDerivative(Graph::Graph &g)
 	f << "    # constants" << std::endl;
 	for (Graph::VariableVec::iterator it=constants.begin();it!=constants.end();++it)
 	{
-		f << "   " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) << std::endl;
+		f << "    " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) << std::endl;
 	}
 	f << std::endl;
 
@@ -310,7 +310,7 @@ double PythonWriter::generateVisualSensors(Graph::Graph &g)
 	f << "    # constants" << std::endl;
 	for (Graph::VariableVec::iterator it=constants.begin();it!=constants.end();++it)
 	{
-		f << "   " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) << std::endl;
+		f << "    " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) << std::endl;
 	}
 	f << std::endl;
 
@@ -440,7 +440,7 @@ double PythonWriter::generateSensors(Graph::Graph &g)
 	f << "    # constants" << std::endl;
 	for (Graph::VariableVec::iterator it=constants.begin();it!=constants.end();++it)
 	{
-		f << "   " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) << std::endl;
+		f << "    " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) << std::endl;
 	}
 	f << std::endl;
 
-- 
2.43.0


From 7c58b1680ac2d8fea6bc1179b30725aca570b8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:40 +0000
Subject: [PATCH 044/104] fix: Python: tan was not imported

---
 symbolics/writer/PythonWriter.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/symbolics/writer/PythonWriter.cpp b/symbolics/writer/PythonWriter.cpp
index 1b3e8e2..e9bd794 100644
--- a/symbolics/writer/PythonWriter.cpp
+++ b/symbolics/writer/PythonWriter.cpp
@@ -93,7 +93,7 @@ double PythonWriter::generateStateDerivative(Graph::Graph &g)
 	f << std::endl << std::endl;
 
 	//f << "from numba import njit" << std::endl;
-	f << "from numpy import linalg, vstack, asarray, sin, cos, pi, sqrt, zeros, bmat, matrix" << std::endl;
+	f << "from numpy import linalg, vstack, asarray, sin, cos, tan, pi, sqrt, zeros, bmat, matrix" << std::endl;
 	f << "from numpy import arctan2 as atan2" << std::endl;
 	f << "from numpy import arctan as atan" << std::endl;
 	f << "from numpy import arcsin as asin" << std::endl;
@@ -251,7 +251,7 @@ double PythonWriter::generateVisualSensors(Graph::Graph &g)
 	f << "# " << getHeaderLine() << std::endl;
 	f << std::endl << std::endl;
 
-	f << "from numpy import linalg, vstack, asarray, sin, cos, pi, sqrt, zeros, bmat, matrix" << std::endl;
+	f << "from numpy import linalg, vstack, asarray, sin, cos, tan, pi, sqrt, zeros, bmat, matrix" << std::endl;
 	f << "from numpy import arctan2 as atan2" << std::endl;
 	f << "from numpy import arctan as atan" << std::endl;
 	f << "from numpy import arcsin as asin" << std::endl;
@@ -381,7 +381,7 @@ double PythonWriter::generateSensors(Graph::Graph &g)
 	f << "# " << getHeaderLine() << std::endl;
 	f << std::endl << std::endl;
 
-	f << "from numpy import linalg, vstack, asarray, sin, cos, pi, sqrt, zeros, bmat, matrix" << std::endl;
+	f << "from numpy import linalg, vstack, asarray, sin, cos, tan, pi, sqrt, zeros, bmat, matrix" << std::endl;
 	f << "from numpy import arctan2 as atan2" << std::endl;
 	f << "from numpy import arctan as atan" << std::endl;
 	f << "from numpy import arcsin as asin" << std::endl;
-- 
2.43.0


From 84289d6921882f2b602b2ae78e0c70280099831c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:01 +0000
Subject: [PATCH 045/104] fix: Python: models with a single scalar state

---
 symbolics/writer/PythonWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolics/writer/PythonWriter.cpp b/symbolics/writer/PythonWriter.cpp
index e9bd794..4124721 100644
--- a/symbolics/writer/PythonWriter.cpp
+++ b/symbolics/writer/PythonWriter.cpp
@@ -203,7 +203,7 @@ double PythonWriter::generateStateDerivative(Graph::Graph &g)
 	f << "    return " << "asarray(vstack((";
 	for (Graph::VariableVec::iterator it=states.begin();it!=states.end();++it)
 		f << (it==states.begin() ? "" : ", " ) << "der_" << m_p->print(*it);
-	f << "))).ravel()" << std::endl;
+	f << ",))).ravel()" << std::endl; // with the comma a single state is a tuple as well
 
 	// close file
 	f.close();
-- 
2.43.0


From b5599568e2ab7f9ddd5d8e4b80b9979642766c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:12 +0000
Subject: [PATCH 046/104] fix: simultaneous equations were written as a
 sequence of assignments

---
 symbolics/writer/CSharpWriter.cpp  |  1 +
 symbolics/writer/CWriter.cpp       |  1 +
 symbolics/writer/FortranWriter.cpp |  1 +
 symbolics/writer/MatlabWriter.cpp  |  1 +
 symbolics/writer/PythonWriter.cpp  |  1 +
 symbolics/writer/Writer.cpp        | 31 ++++++++++++++++++++++++++++++
 symbolics/writer/include/Writer.h  |  2 ++
 7 files changed, 38 insertions(+)

diff --git a/symbolics/writer/CSharpWriter.cpp b/symbolics/writer/CSharpWriter.cpp
index 4ea02ac..87c3334 100644
--- a/symbolics/writer/CSharpWriter.cpp
+++ b/symbolics/writer/CSharpWriter.cpp
@@ -421,6 +421,7 @@ std::string CSharpWriter::writeEquations(std::vector<Graph::Assignment> const& e
     {
         if (it->implizit)
             throw InternalError("Implicit equations are not yet implemented in C#!");
+        checkSequential(*it, "C#");
 		//Folgendes falls mehrere Gleichungen in einer verpackt sind (wird aber scheinbar kaum genutzt)
 		for (size_t i=0; i < it->lhs.size(); ++i)
         {
diff --git a/symbolics/writer/CWriter.cpp b/symbolics/writer/CWriter.cpp
index 0007cc9..920747d 100644
--- a/symbolics/writer/CWriter.cpp
+++ b/symbolics/writer/CWriter.cpp
@@ -395,6 +395,7 @@ std::string CWriter::writeEquations(std::vector<Graph::Assignment> const& equati
     {
         if (it->implizit)
             throw InternalError("Implicit equations are not yet implemented in C!");
+        checkSequential(*it, "C");
 		//Folgendes falls mehrere Gleichungen in einer verpackt sind (wird aber scheinbar kaum genutzt)
 		for (size_t i=0; i < it->lhs.size(); ++i)
         {
diff --git a/symbolics/writer/FortranWriter.cpp b/symbolics/writer/FortranWriter.cpp
index fe06b7b..756b25d 100644
--- a/symbolics/writer/FortranWriter.cpp
+++ b/symbolics/writer/FortranWriter.cpp
@@ -448,6 +448,7 @@ std::string FortranWriter::writeEquations(std::vector<Graph::Assignment> const&
     {
         if (it->implizit)
             throw InternalError("Implicit equations are not yet implemented in Fortran!");
+        checkSequential(*it, "Fortran");
 		//Folgendes falls mehrere Gleichungen in einer verpackt sind (wird aber scheinbar kaum genutzt)
 		for (size_t i=0; i < it->lhs.size(); ++i)
         {
diff --git a/symbolics/writer/MatlabWriter.cpp b/symbolics/writer/MatlabWriter.cpp
index 8c519ad..796c5ab 100644
--- a/symbolics/writer/MatlabWriter.cpp
+++ b/symbolics/writer/MatlabWriter.cpp
@@ -503,6 +503,7 @@ std::string MatlabWriter::writeEquations(std::vector<Graph::Assignment> const& e
     {
         if (it->implizit)
             throw InternalError("Implicit equations are not yet implemented in Matlab!");
+        checkSequential(*it, "Matlab");
 		//Folgendes falls mehrere Gleichungen in einer verpackt sind (wird aber scheinbar kaum genutzt)
 		for (size_t i=0; i < it->lhs.size(); ++i)
         {
diff --git a/symbolics/writer/PythonWriter.cpp b/symbolics/writer/PythonWriter.cpp
index 4124721..9ef6efe 100644
--- a/symbolics/writer/PythonWriter.cpp
+++ b/symbolics/writer/PythonWriter.cpp
@@ -487,6 +487,7 @@ std::string PythonWriter::writeEquations(std::vector<Graph::Assignment> const& e
 	{
         if (it->implizit)
             throw InternalError("Implicit equations are not yet implemented in Python!");
+        checkSequential(*it, "Python");
 
 		// Multi-dimensional equation, i.e. matrix equation (seems to be hardly used)
 		for (size_t i=0; i < it->lhs.size(); ++i)
diff --git a/symbolics/writer/Writer.cpp b/symbolics/writer/Writer.cpp
index cc5fb11..dcf9723 100644
--- a/symbolics/writer/Writer.cpp
+++ b/symbolics/writer/Writer.cpp
@@ -101,6 +101,37 @@ size_t Writer::getStateSize(Graph::Graph& g)
 }
 /*****************************************************************************/
 
+/*****************************************************************************/
+static bool contains(BasicPtr const& exp, BasicPtr const& part)
+/*****************************************************************************/
+{
+    if (*exp == *part)
+        return true;
+    for (size_t i=0; i<exp->getArgsSize(); ++i)
+        if (contains(exp->getArg(i), part))
+            return true;
+    return false;
+}
+/*****************************************************************************/
+
+/*****************************************************************************/
+void Writer::checkSequential(Graph::Assignment const& assignment, std::string const& language)
+/*****************************************************************************/
+{
+    if (assignment.lhs.size() < 2)
+        return;
+    for (size_t i=0; i<assignment.rhs.size(); ++i)
+        for (size_t j=i; j<assignment.lhs.size(); ++j)
+        {
+            BasicPtr const& lhs = assignment.lhs[j];
+            bool isMatrix = (lhs->getType() == Type_Matrix);
+            for (size_t k=0; k < (isMatrix ? lhs->getArgsSize() : 1); ++k)
+                if (contains(assignment.rhs[i], isMatrix ? lhs->getArg(k) : lhs))
+                    throw InternalError("Simultaneous equations are not yet implemented in " + language + "!");
+        }
+}
+/*****************************************************************************/
+
 /*****************************************************************************/
 bool Writer::sortVariableVec (boost::intrusive_ptr<Symbolics::Symbol> a, boost::intrusive_ptr<Symbolics::Symbol> b)
 /*****************************************************************************/
diff --git a/symbolics/writer/include/Writer.h b/symbolics/writer/include/Writer.h
index c21c047..791f5c9 100644
--- a/symbolics/writer/include/Writer.h
+++ b/symbolics/writer/include/Writer.h
@@ -38,6 +38,8 @@ namespace Symbolics
         static std::vector<size_t> getStateOffsets(Graph::Graph& g, Graph::VariableVec const& states);
         // Laenge des Zustandsvektors
         static size_t getStateSize(Graph::Graph& g);
+        // Simultane Gleichungen koennen nicht der Reihe nach zugewiesen werden
+        static void checkSequential(Graph::Assignment const& assignment, std::string const& language);
 
 		// Vielleicht ist folgende Funktion logisch sinnvoller in einer anderen Klasse aufgehoben - wenn jemand wei� wo, einfach �ndern.
 		// Die Funktion ist als Parameter f�r die std::sort Funktion gedacht, um Graph::VariableVec Vektoren zu sortieren.
-- 
2.43.0


From 35875babf263369a99f949f557b1c2bb00fd7c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:54 +0000
Subject: [PATCH 047/104] fix: C: offset of a state in the state vector

---
 symbolics/writer/CWriter.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/symbolics/writer/CWriter.cpp b/symbolics/writer/CWriter.cpp
index 920747d..4e6a28a 100644
--- a/symbolics/writer/CWriter.cpp
+++ b/symbolics/writer/CWriter.cpp
@@ -124,13 +124,14 @@ double CWriter::generateDerState(Graph::Graph& g, int &dim)
 	f << "{" << std::endl;
 
 	f << "/* declare state variables */" << std::endl;
+	std::vector<size_t> offsets = getStateOffsets(g, states);
 	for (size_t i=0; i < states.size(); ++i)
 	{
 		size_t n = states.at(i)->getShape().getNumEl();
 		dim = n;
 		f << "    double "  << m_p->print(states.at(i)) << m_p->dimension(states.at(i)) << " = " << ( n>1 ? "{" : "");
 		for (size_t j=0; j < n ; ++j)
-			f << "y[" << i*n+j << "]" << (j+1 < n ? ", " : "");
+			f << "y[" << offsets[i]+j << "]" << (j+1 < n ? ", " : "");
 		f << ( n>1 ? "}" : "") << ";" << m_p->comment2(g, states.at(i)) << std::endl;
 		f << "    double " << "der_" << m_p->print(states.at(i)) << m_p->dimension(states.at(i)) << " = " 
           << m_p->print(Zero::getZero(states.at(i)->getShape())) << ";" << std::endl;	
@@ -167,7 +168,7 @@ double CWriter::generateDerState(Graph::Graph& g, int &dim)
 		size_t n = states.at(i)->getShape().getNumEl();
 		for (size_t j=0; j < n ; ++j) 
 		{
-			f << "    yd[" << i*n+j << "] = der_" << m_p->print(states.at(i));
+			f << "    yd[" << offsets[i]+j << "] = der_" << m_p->print(states.at(i));
 			if (n>1) // hm.. was ist schneller "n-1" oder "n>1"?
 				f << "[" << j << "];" << std::endl;
 			else 
@@ -239,12 +240,13 @@ double CWriter::generateVisual(Graph::Graph& g)
 	f << "{" << std::endl;
 
 	f << "/* declare state variables */" << std::endl;
+	std::vector<size_t> offsets = getStateOffsets(g, states);
 	for (size_t i=0; i < states.size(); ++i)
 	{
 		size_t n = states.at(i)->getShape().getNumEl();
 		f << "    double "  << m_p->print(states.at(i)) << m_p->dimension(states.at(i)) << " = " << ( n>1 ? "{" : "");
 		for (size_t j=0; j < n ; ++j)
-			f << "y[" << i*n+j << "]" << (j+1 < n ? ", " : "");
+			f << "y[" << offsets[i]+j << "]" << (j+1 < n ? ", " : "");
 		f << ( n>1 ? "}" : "") << ";" << m_p->comment2(g, states.at(i)) << std::endl;	
 	}
 	f << std::endl; 
@@ -338,12 +340,13 @@ double CWriter::generateSensors(Graph::Graph& g)
 	f << "{" << std::endl;
 
 	f << "/* declare state variables */" << std::endl;
+	std::vector<size_t> offsets = getStateOffsets(g, states);
 	for (size_t i=0; i < states.size(); ++i)
 	{
 		size_t n = states.at(i)->getShape().getNumEl();
 		f << "    double "  << m_p->print(states.at(i)) << m_p->dimension(states.at(i)) << " = " << ( n>1 ? "{" : "");
 		for (size_t j=0; j < n ; ++j)
-			f << "y[" << i*n+j << "]" << (j+1 < n ? ", " : "");
+			f << "y[" << offsets[i]+j << "]" << (j+1 < n ? ", " : "");
 		f << ( n>1 ? "}" : "") << ";" << m_p->comment2(g, states.at(i)) << std::endl;	
 	}
 	f << std::endl; 
@@ -874,13 +877,14 @@ double CWriter::generateAll(Graph::Graph& g, int &dim)
 	f << std::endl;
 
 	f << "/* declare state variables */" << std::endl;
+	std::vector<size_t> offsets = getStateOffsets(g, states);
 	for (size_t i=0; i < states.size(); ++i)
 	{
 		size_t n = states.at(i)->getShape().getNumEl();
 		dim = n;
 		f << "    const double "  << m_p->print(states.at(i)) << m_p->dimension(states.at(i)) << " = " << ( n>1 ? "{" : "");
 		for (size_t j=0; j < n ; ++j)
-			f << "y[" << i*n+j << "]" << (j+1 < n ? ", " : "");
+			f << "y[" << offsets[i]+j << "]" << (j+1 < n ? ", " : "");
 		f << ( n>1 ? "}" : "") << ";" << m_p->comment2(g, states.at(i)) << std::endl;
 		f << "    double " << "der_" << m_p->print(states.at(i)) << m_p->dimension(states.at(i)) << " = " 
           << m_p->print(Zero::getZero(states.at(i)->getShape())) << ";" << std::endl;	
@@ -916,7 +920,7 @@ double CWriter::generateAll(Graph::Graph& g, int &dim)
 		size_t n = states.at(i)->getShape().getNumEl();
 		for (size_t j=0; j < n ; ++j) 
 		{
-			f << "    yd[" << i*n+j << "] = der_" << m_p->print(states.at(i));
+			f << "    yd[" << offsets[i]+j << "] = der_" << m_p->print(states.at(i));
 			if (n>1) // hm.. was ist schneller "n-1" oder "n>1"?
 				f << "[" << j << "];" << std::endl;
 			else 
-- 
2.43.0


From f28375e78e716b2d7d49a074369e557b8e0add70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:44 +0000
Subject: [PATCH 048/104] fix: C: size of the systems of linear equations

---
 symbolics/writer/CWriter.cpp         | 61 ++++++++++++++--------------
 symbolics/writer/FMUWriter.cpp       |  9 ++--
 symbolics/writer/include/CWriter.h   |  9 ++--
 symbolics/writer/include/FMUWriter.h |  2 +-
 4 files changed, 42 insertions(+), 39 deletions(-)

diff --git a/symbolics/writer/CWriter.cpp b/symbolics/writer/CWriter.cpp
index 4e6a28a..81e286c 100644
--- a/symbolics/writer/CWriter.cpp
+++ b/symbolics/writer/CWriter.cpp
@@ -57,22 +57,22 @@ CWriter::~CWriter()
 double CWriter::generateTarget_Impl(Graph::Graph &g)
 /*****************************************************************************/
 {
-	int dim = 0;
+	m_maxSolveDim = 1;
 
 	if (m_simulink_sfunction)
 	{
-		double t1 = generateAll(g, dim);
-		double t2 = generateFunctionmodule(dim);
+		double t1 = generateAll(g);
+		double t2 = generateFunctionmodule();
 		return t1+t2;
 	}
 	else
 	{
-		double t1 = generateDerState(g, dim);
+		double t1 = generateDerState(g);
 		double t2 = 0;
 		if (m_include_visual)
 			t2 = generateVisual(g);
 		double t3 = generateSensors(g);
-		double t4 = generateFunctionmodule(dim);
+		double t4 = generateFunctionmodule();
 		double t5 = 0.0;
 		if (m_pymbs_wrapper)
 			t5 = generatePymbsWrapper(g);
@@ -83,7 +83,7 @@ double CWriter::generateTarget_Impl(Graph::Graph &g)
 /*****************************************************************************/
 
 /*****************************************************************************/
-double CWriter::generateDerState(Graph::Graph& g, int &dim)
+double CWriter::generateDerState(Graph::Graph& g)
 /*****************************************************************************/
 {
 	//get timestamp and catch variables from graph
@@ -128,7 +128,6 @@ double CWriter::generateDerState(Graph::Graph& g, int &dim)
 	for (size_t i=0; i < states.size(); ++i)
 	{
 		size_t n = states.at(i)->getShape().getNumEl();
-		dim = n;
 		f << "    double "  << m_p->print(states.at(i)) << m_p->dimension(states.at(i)) << " = " << ( n>1 ? "{" : "");
 		for (size_t j=0; j < n ; ++j)
 			f << "y[" << offsets[i]+j << "]" << (j+1 < n ? ", " : "");
@@ -406,15 +405,18 @@ std::string CWriter::writeEquations(std::vector<Graph::Assignment> const& equati
             if (simple_exp.get() == NULL) throw InternalError("CWriter: Value of Rhs is not Valid!");
 
 			//Workaround: Solve muss speziell behandelt werden TODO: Irgendwie ist das nicht sch�n und deckt bestimmt nicht alle F�lle ab
-			if (it->rhs[i]->getType() == Type_Solve) 
+			if (simple_exp->getType() == Type_Solve) 
 			{
-				const Solve *solve = Util::getAsConstPtr<Solve>(it->rhs[i]);
+				const Solve *solve = Util::getAsConstPtr<Solve>(simple_exp);
+				if (solve->getShape().getDimension(2) != 1)
+					throw InternalError("Solve for several right hand sides is not yet implemented in C!");
 				//Util::getAsConstPtr<Element>(it->lhs[i]->getArg(0)->getArg(0));
 				int dim = solve->getArg2()->getShape().getDimension(1);
 				s << "    {" << std::endl;
 				s << "        double solve_A[" << dim << "][" << dim << "] = " << m_p->print(solve->getArg1()) << ";" << std::endl;
 				s << "        double solve_b[" << dim << "] = " << m_p->print(solve->getArg2()) << ";" << std::endl;
-				s << "        legs(solve_A, solve_b, " << m_p->print(it->lhs[i]->getArg(0)->getArg(0)) << ");" << std::endl;
+				m_maxSolveDim = std::max(m_maxSolveDim, dim);
+				s << "        legs(" << dim << ", &solve_A[0][0], solve_b, " << m_p->print(it->lhs[i]->getArg(0)->getArg(0)) << ");" << std::endl;
 				s << "    }" << std::endl;
 			} else {
 				// ordinary equation
@@ -700,7 +702,7 @@ double CWriter::generatePymbsWrapper(Graph::Graph& g)
 
 
 /*****************************************************************************/
-double CWriter::generateFunctionmodule(int n)
+double CWriter::generateFunctionmodule()
 /*****************************************************************************/
 {
 	//get timestamp and catch variables from graph
@@ -728,42 +730,42 @@ double CWriter::generateFunctionmodule(int n)
 	f << std::endl;
 	f << "#include <stdio.h>" << std::endl;
 	f << "#include <math.h>" << std::endl;
-	f << "#define n " << n << std::endl;
+	f << "#define LEGS_MAX " << m_maxSolveDim << std::endl;
 	f << std::endl;
-	f << "void elgs(double A[n][n], int *indx);" << std::endl;
+	f << "void elgs(int n, double *A, int *indx);" << std::endl;
 	f << std::endl;
-	f << "void legs (double A[n][n], double *b, double *x)" << std::endl;
-	f << "/* Function to solve the equation A[n][n]*x[n] = b[n] with the" << std::endl;
+	f << "void legs (int n, double *A, double *b, double *x)" << std::endl;
+	f << "/* Function to solve the equation A[n*n]*x[n] = b[n] with the" << std::endl;
 	f << "   partial-pivoting Gaussian elimination scheme." << std::endl;
 	f << "   Copyright (c) Tao Pang 2001. */" << std::endl;
 	f << "{" << std::endl;
-	f << "  int indx[n];" << std::endl;
+	f << "  int indx[LEGS_MAX];" << std::endl;
 	f << "  int i, j;" << std::endl;
 	f << std::endl;
-	f << "  elgs (A,indx);" << std::endl;
+	f << "  elgs (n,A,indx);" << std::endl;
 	f << std::endl;
 	f << "  for(i = 0; i < n-1; ++i)" << std::endl;
 	f << "  {" << std::endl;
 	f << "    for(j = i+1; j < n; ++j)" << std::endl;
 	f << "    {" << std::endl;
-	f << "      b[indx[j]] = b[indx[j]]-A[indx[j]][i]*b[indx[i]];" << std::endl;
+	f << "      b[indx[j]] = b[indx[j]]-A[indx[j]*n+i]*b[indx[i]];" << std::endl;
 	f << "    }" << std::endl;
 	f << "  }" << std::endl;
 	f << std::endl;
-	f << "  x[n-1] = b[indx[n-1]]/A[indx[n-1]][n-1];" << std::endl;
+	f << "  x[n-1] = b[indx[n-1]]/A[indx[n-1]*n+n-1];" << std::endl;
 	f << "  for (i = n-2; i>=0; i--)" << std::endl;
 	f << "  {" << std::endl;
 	f << "    x[i] = b[indx[i]];" << std::endl;
 	f << "    for (j = i+1; j < n; ++j)" << std::endl;
 	f << "    {" << std::endl;
-	f << "      x[i] = x[i]-A[indx[i]][j]*x[j];" << std::endl;
+	f << "      x[i] = x[i]-A[indx[i]*n+j]*x[j];" << std::endl;
 	f << "    }" << std::endl;
-	f << "    x[i] = x[i]/A[indx[i]][i];" << std::endl;
+	f << "    x[i] = x[i]/A[indx[i]*n+i];" << std::endl;
 	f << "  }" << std::endl;
 	f << std::endl;
 	f << "}" << std::endl;
 	f << std::endl;
-	f << "void elgs (double A[n][n], int *indx)" << std::endl;
+	f << "void elgs (int n, double *A, int *indx)" << std::endl;
 	f << std::endl;
 	f << "/* Function to perform the partial pivoting Gaussian elimination." << std::endl;
 	f << "   A[][] is the original matrix in the input and transformed" << std::endl;
@@ -772,7 +774,7 @@ double CWriter::generateFunctionmodule(int n)
 	f << "   Copyright (c) Tao Pang 2001. */" << std::endl;
 	f << std::endl;
 	f << "{" << std::endl;
-	f << "  double c[n];" << std::endl;
+	f << "  double c[LEGS_MAX];" << std::endl;
 	f << "  int i, j, l;" << std::endl;
 	f << std::endl;
 	f << "/* Initialize the index */" << std::endl;
@@ -789,7 +791,7 @@ double CWriter::generateFunctionmodule(int n)
 	f << "    double c1 = 0;" << std::endl;
 	f << "    for (j = 0; j < n; ++j)" << std::endl;
 	f << "    {" << std::endl;
-	f << "      if (fabs(A[i][j]) > c1) c1 = fabs(A[i][j]);" << std::endl;
+	f << "      if (fabs(A[i*n+j]) > c1) c1 = fabs(A[i*n+j]);" << std::endl;
 	f << "    }" << std::endl;
 	f << "	c[i] = c1;" << std::endl;
 	f << "  }" << std::endl;
@@ -803,7 +805,7 @@ double CWriter::generateFunctionmodule(int n)
 	f << "    double pi1 = 0;" << std::endl;
 	f << "    for (i = j; i < n; ++i)" << std::endl;
 	f << "    {" << std::endl;
-	f << "      double pi = fabs(A[indx[i]][j])/c[indx[i]];" << std::endl;
+	f << "      double pi = fabs(A[indx[i]*n+j])/c[indx[i]];" << std::endl;
 	f << "      if (pi > pi1)" << std::endl;
 	f << "      {" << std::endl;
 	f << "        pi1 = pi;" << std::endl;
@@ -818,17 +820,17 @@ double CWriter::generateFunctionmodule(int n)
 	f << "    indx[k] = itmp;" << std::endl;
 	f << "    for (i = j+1; i < n; ++i)" << std::endl;
 	f << "    {" << std::endl;
-	f << "      double pj = A[indx[i]][j]/A[indx[j]][j];" << std::endl;
+	f << "      double pj = A[indx[i]*n+j]/A[indx[j]*n+j];" << std::endl;
 	f << std::endl;
 	f << "/* Record pivoting ratios below the diagonal */" << std::endl;
 	f << std::endl;
-	f << "      A[indx[i]][j] = pj;" << std::endl;
+	f << "      A[indx[i]*n+j] = pj;" << std::endl;
 	f << std::endl;
 	f << "/* Modify other elements accordingly */" << std::endl;
 	f << std::endl;
 	f << "      for (l = j+1; l < n; ++l)" << std::endl;
 	f << "      {" << std::endl;
-	f << "        A[indx[i]][l] = A[indx[i]][l]-pj*A[indx[j]][l];" << std::endl;
+	f << "        A[indx[i]*n+l] = A[indx[i]*n+l]-pj*A[indx[j]*n+l];" << std::endl;
 	f << "      }" << std::endl;
 	f << "    }" << std::endl;
 	f << "  }" << std::endl;
@@ -841,7 +843,7 @@ double CWriter::generateFunctionmodule(int n)
 /*****************************************************************************/
 
 /*****************************************************************************/
-double CWriter::generateAll(Graph::Graph& g, int &dim)
+double CWriter::generateAll(Graph::Graph& g)
 /*****************************************************************************/
 {
 	//get timestamp and catch variables from graph
@@ -881,7 +883,6 @@ double CWriter::generateAll(Graph::Graph& g, int &dim)
 	for (size_t i=0; i < states.size(); ++i)
 	{
 		size_t n = states.at(i)->getShape().getNumEl();
-		dim = n;
 		f << "    const double "  << m_p->print(states.at(i)) << m_p->dimension(states.at(i)) << " = " << ( n>1 ? "{" : "");
 		for (size_t j=0; j < n ; ++j)
 			f << "y[" << offsets[i]+j << "]" << (j+1 < n ? ", " : "");
diff --git a/symbolics/writer/FMUWriter.cpp b/symbolics/writer/FMUWriter.cpp
index 6e7d1b8..19e125c 100644
--- a/symbolics/writer/FMUWriter.cpp
+++ b/symbolics/writer/FMUWriter.cpp
@@ -167,9 +167,9 @@ double FMUWriter::generateTarget_Impl(Graph::Graph &g)
 
 	m_path += "/sources"; 
 
-	int dim;
-	double t2 = generateModel(g, dim);
-	double t3 = generateFunctionmodule(dim);
+	m_maxSolveDim = 1;
+	double t2 = generateModel(g);
+	double t3 = generateFunctionmodule();
 
 	//Template Dateien kopieren
 	if (filesystem::is_regular(m_path + "/fmuTemplate.h"))
@@ -411,7 +411,7 @@ double FMUWriter::generateXML(Graph::Graph& g)
 
 
 /*****************************************************************************/
-double FMUWriter::generateModel(Graph::Graph& g, int &dim)
+double FMUWriter::generateModel(Graph::Graph& g)
 /*****************************************************************************/
 {
 	//get timestamp and catch variables from graph
@@ -469,7 +469,6 @@ double FMUWriter::generateModel(Graph::Graph& g, int &dim)
 	{
 		size_t m = (*it)->getShape().getDimension(1);
 		size_t n = (*it)->getShape().getDimension(2);
-		dim = m*n;
 		for (size_t i = 0; i < m; ++i)
 			for (size_t j = 0; j < n; ++j)
 				f << (it==states.begin()&&!i&&!j ? " " : ", ") << (*it)->getName()
diff --git a/symbolics/writer/include/CWriter.h b/symbolics/writer/include/CWriter.h
index 29d2a92..eadd7e5 100644
--- a/symbolics/writer/include/CWriter.h
+++ b/symbolics/writer/include/CWriter.h
@@ -21,20 +21,23 @@ namespace Symbolics
 		CPrinter *m_p; // Der Hauptprinter dieser Writerklasse
 
 		std::string writeEquations(std::vector<Graph::Assignment> const& equations) const;
-		double generateFunctionmodule(int n);
+		double generateFunctionmodule();
+
+		// groesstes Gleichungssystem, das geloest werden muss
+		mutable int m_maxSolveDim;
 
     private:
 		bool m_pymbs_wrapper;
 		bool m_simulink_sfunction;
 		bool m_include_visual;
 
-		double generateDerState(Graph::Graph& g, int &dim);
+		double generateDerState(Graph::Graph& g);
 		double generateVisual(Graph::Graph& g);
 		double generateSensors(Graph::Graph& g);
         
 		double generatePymbsWrapper(Graph::Graph& g);
 
-		double generateAll(Graph::Graph& g, int &dim);
+		double generateAll(Graph::Graph& g);
 
     };
 };
diff --git a/symbolics/writer/include/FMUWriter.h b/symbolics/writer/include/FMUWriter.h
index a0181cb..0055f13 100644
--- a/symbolics/writer/include/FMUWriter.h
+++ b/symbolics/writer/include/FMUWriter.h
@@ -26,7 +26,7 @@ namespace Symbolics
         std::vector<std::string> split_path(std::string path);
 
 		double generateXML(Graph::Graph& g);
-		double generateModel(Graph::Graph& g, int &dim);
+		double generateModel(Graph::Graph& g);
 
        	int m_numberOfStates;
         std::string m_guid;
-- 
2.43.0


From 006af9495396ecce5ef1291908006e45191dc18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:54 +0000
Subject: [PATCH 049/104] fix: C: values of scalar sensors were lost

---
 symbolics/writer/CWriter.cpp       | 49 +++++++++++++++++++++++++++---
 symbolics/writer/include/CWriter.h |  5 +++
 2 files changed, 49 insertions(+), 5 deletions(-)

diff --git a/symbolics/writer/CWriter.cpp b/symbolics/writer/CWriter.cpp
index 81e286c..88e1c29 100644
--- a/symbolics/writer/CWriter.cpp
+++ b/symbolics/writer/CWriter.cpp
@@ -234,7 +234,7 @@ double CWriter::generateVisual(Graph::Graph& g)
 
 	f << "__declspec(dllexport) int "<< m_name <<"_visual(double * y"; 
 	for (Graph::VariableVec::iterator it=sens_vis.begin();it!=sens_vis.end();++it)
-		f << ", double " << m_p->print(*it) << m_p->dimension(*it); 
+		f << ", double " << resultParameter(*it);
 	f << ")" << std::endl;  //evtl noch die statesize mit�bergeben, aber die kenn wir eigentlich auch
 	f << "{" << std::endl;
 
@@ -271,7 +271,9 @@ double CWriter::generateVisual(Graph::Graph& g)
 	f << std::endl;
 
 	f << "/* calculate visual sensors */" << std::endl;
+	f << declareResults(sens_vis);
 	f << writeEquations(a->getEquations(PARAMETER | CONSTANT | INPUT )) << std::endl;
+	f << returnResults(sens_vis);
     f << std::endl;
 
 	f << "	return 0;" << std::endl;
@@ -332,9 +334,9 @@ double CWriter::generateSensors(Graph::Graph& g)
 		f << ", double " << m_p->print(*it) << m_p->dimension(*it); 
 	for (Graph::VariableVec::iterator it=sensors.begin();it!=sensors.end();++it)
 		if (it==sensors.begin())
-			f << ", " << std::endl <<"                double " << m_p->print(*it) << m_p->dimension(*it);
+			f << ", " << std::endl <<"                double " << resultParameter(*it);
 		else
-			f << ", double " << m_p->print(*it) << m_p->dimension(*it); 
+			f << ", double " << resultParameter(*it);
 	f << ")" << std::endl;  
 	f << "{" << std::endl;
 
@@ -371,7 +373,9 @@ double CWriter::generateSensors(Graph::Graph& g)
 	f << std::endl;
 
 	f << "/* calculate sensors */" << std::endl;
+	f << declareResults(sensors);
 	f << writeEquations(a->getEquations(PARAMETER | CONSTANT | INPUT )) << std::endl;
+	f << returnResults(sensors);
     f << std::endl;
 
 	f << "	return 0;" << std::endl;
@@ -429,6 +433,41 @@ std::string CWriter::writeEquations(std::vector<Graph::Assignment> const& equati
 }
 /*****************************************************************************/
 
+/*****************************************************************************/
+std::string CWriter::resultParameter(SymbolPtr const& s) const
+/*****************************************************************************/
+{
+	// Arrays are passed as pointers anyway, scalars have to be
+	if (s->is_Scalar())
+		return "*res_" + m_p->print(s);
+	return m_p->print(s) + m_p->dimension(s);
+}
+/*****************************************************************************/
+
+/*****************************************************************************/
+std::string CWriter::declareResults(Graph::VariableVec const& results) const
+/*****************************************************************************/
+{
+	std::stringstream s;
+	for (Graph::VariableVec::const_iterator it=results.begin(); it!=results.end(); ++it)
+		if ((*it)->is_Scalar())
+			s << "    double " << m_p->print(*it) << " = 0;" << std::endl;
+	return s.str();
+}
+/*****************************************************************************/
+
+/*****************************************************************************/
+std::string CWriter::returnResults(Graph::VariableVec const& results) const
+/*****************************************************************************/
+{
+	std::stringstream s;
+	for (Graph::VariableVec::const_iterator it=results.begin(); it!=results.end(); ++it)
+		if ((*it)->is_Scalar())
+			s << "    *res_" << m_p->print(*it) << " = " << m_p->print(*it) << ";" << std::endl;
+	return s.str();
+}
+/*****************************************************************************/
+
 /*****************************************************************************/
 double CWriter::generatePymbsWrapper(Graph::Graph& g)
 /*****************************************************************************/
@@ -560,7 +599,7 @@ double CWriter::generatePymbsWrapper(Graph::Graph& g)
 	for (Graph::VariableVec::iterator it=sens_vis.begin(); it!=sens_vis.end(); ++it)
 	{
 		if ((*it)->is_Scalar())
-			f << "," << std::endl << "                    c_double";
+			f << "," << std::endl << "                    ctypeslib.ndpointer()";
 		else
 			f << "," << std::endl << "                    ctypeslib.ndpointer(ndim=" << (*it)->getShape().getNrDimensions() << ")";
 	}
@@ -629,7 +668,7 @@ double CWriter::generatePymbsWrapper(Graph::Graph& g)
 	for (Graph::VariableVec::iterator it=sensors.begin(); it!=sensors.end(); ++it)
 	{
 		if ((*it)->is_Scalar())
-			f << "," << std::endl << "                    c_double";
+			f << "," << std::endl << "                    ctypeslib.ndpointer()";
 		else
 		//	f << "," << std::endl << "                    ctypeslib.ndpointer(ndim=" << (*it)->getShape().getNrDimensions() << ")";
             f << "," << std::endl << "                    ctypeslib.ndpointer(ndim=2)";
diff --git a/symbolics/writer/include/CWriter.h b/symbolics/writer/include/CWriter.h
index eadd7e5..66949cf 100644
--- a/symbolics/writer/include/CWriter.h
+++ b/symbolics/writer/include/CWriter.h
@@ -27,6 +27,11 @@ namespace Symbolics
 		mutable int m_maxSolveDim;
 
     private:
+		// Ergebnisse der Sensoren
+		std::string resultParameter(SymbolPtr const& s) const;
+		std::string declareResults(Graph::VariableVec const& results) const;
+		std::string returnResults(Graph::VariableVec const& results) const;
+
 		bool m_pymbs_wrapper;
 		bool m_simulink_sfunction;
 		bool m_include_visual;
-- 
2.43.0


From 61e1d0a091c4b1a3534c7cc3b568d36ead0a79d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:55 +0000
Subject: [PATCH 050/104] fix: C: graphics could not depend on inputs, vectors
 and matrices as parameters were refused

---
 symbolics/graph/EquationSystem.cpp | 17 ++++++++++++-
 symbolics/writer/CWriter.cpp       | 39 ++++++++++++++++++++++++++++--
 2 files changed, 53 insertions(+), 3 deletions(-)

diff --git a/symbolics/graph/EquationSystem.cpp b/symbolics/graph/EquationSystem.cpp
index 7e776d8..980d556 100644
--- a/symbolics/graph/EquationSystem.cpp
+++ b/symbolics/graph/EquationSystem.cpp
@@ -770,7 +770,22 @@ Symbolics::BasicPtr EquationSystem::getEquation(SymbolPtr const& s)
     return ii->second.eqn->getRhs(0);
   }
   else
-    throw InternalError("getEquation failed vor " + s->toString() + " because symbols is solved in several equations!");
+  {
+    // one equation for every element (see makeScalar)
+    Matrix *mat = new Matrix(s->getShape());
+    BasicPtr ret(mat);
+    for (size_t i=0;i<s->getShape().getDimension(1);++i)
+    {
+      for (size_t j=0;j<s->getShape().getDimension(2);++j)
+      {
+        SizeTPairEquationPtrMap::iterator ie = ii->second.elements.find(SizeTPair(i,j));
+        if ((ie == ii->second.elements.end()) || (ie->second->getRhsSize() > 1) || ie->second->is_Implicit())
+          throw InternalError("getEquation failed vor " + s->toString() + " because symbols is solved in several equations!");
+        mat->set(i,j,ie->second->getRhs(0));
+      }
+    }
+    return ret;
+  }
 }
 /*****************************************************************************/
 
diff --git a/symbolics/writer/CWriter.cpp b/symbolics/writer/CWriter.cpp
index 88e1c29..02b1705 100644
--- a/symbolics/writer/CWriter.cpp
+++ b/symbolics/writer/CWriter.cpp
@@ -206,7 +206,7 @@ double CWriter::generateVisual(Graph::Graph& g)
 
 	Graph::VariableVec states = a->getVariables(STATE);
 	Graph::VariableVec variables = a->getVariables(VARIABLE|SENSOR);
-	//Graph::VariableVec inputs = a->getVariables(INPUT);
+	Graph::VariableVec inputs = a->getVariables(INPUT);
 	Graph::VariableVec parameter = a->getVariables(PARAMETER);
 	Graph::VariableVec constants = a->getVariables(CONSTANT);
 	Graph::VariableVec userexp = a->getVariables(USER_EXP);
@@ -221,6 +221,8 @@ double CWriter::generateVisual(Graph::Graph& g)
 	std::sort(states.begin(),states.end(), sortVariableVec);
 	// Visual_sensors Vector sortieren: 
 	std::sort(sens_vis.begin(),sens_vis.end(), sortVariableVec);
+    // Inputs Vector sortieren: 
+	std::sort(inputs.begin(),inputs.end(), sortVariableVec);
 
 	std::ofstream f;
     std::string filename= m_path + "/" + m_name + "_visual.c";
@@ -233,6 +235,8 @@ double CWriter::generateVisual(Graph::Graph& g)
 	f << std::endl;
 
 	f << "__declspec(dllexport) int "<< m_name <<"_visual(double * y"; 
+	for (Graph::VariableVec::iterator it=inputs.begin();it!=inputs.end();++it)
+		f << ", double " << m_p->print(*it) << m_p->dimension(*it); 
 	for (Graph::VariableVec::iterator it=sens_vis.begin();it!=sens_vis.end();++it)
 		f << ", double " << resultParameter(*it);
 	f << ")" << std::endl;  //evtl noch die statesize mit�bergeben, aber die kenn wir eigentlich auch
@@ -583,19 +587,29 @@ double CWriter::generatePymbsWrapper(Graph::Graph& g)
 	Graph::VariableVec sens_vis = g.getVariables(SENSOR_VISUAL);
 	// Visual_sensors Vector sortieren: 
 	std::sort(sens_vis.begin(),sens_vis.end(), sortVariableVec);
+	Graph::VariableVec vis_inputs = g.getAssignments(SENSOR_VISUAL)->getVariables(INPUT);
+    // Inputs Vector sortieren: 
+	std::sort(vis_inputs.begin(),vis_inputs.end(), sortVariableVec);
 
     filename= m_path + "/" + m_name + "_visual_CWrapper.py";
     f.open(filename.c_str());
 
 	f << "# " << getHeaderLine() << std::endl;
 	f << std::endl;
-//	f << "from ctypes import c_double" << std::endl;
+	f << "from ctypes import c_double" << std::endl;
 	f << "import platform" << std::endl;
 	f << "from numpy import matrix, array, zeros, ctypeslib" << std::endl;
 	f << std::endl;
 	f << "ext = 'dll' if platform.system() == 'Windows' else 'so'" << std::endl;
 	f << "cm = ctypeslib.load_library(f\"" << m_name << "_visual.{ext}\", \"" << m_path << "\")" << std::endl;
 	f << "cm." << m_name << "_visual.argtypes = [ctypeslib.ndpointer()";
+	for (Graph::VariableVec::iterator it=vis_inputs.begin();it!=vis_inputs.end();++it)
+	{
+		if ((*it)->is_Scalar())
+			f << "," << std::endl << "                    c_double";
+		else
+			f << "," << std::endl << "                    ctypeslib.ndpointer(ndim=" << (*it)->getShape().getNrDimensions() << ")";
+	}
 	for (Graph::VariableVec::iterator it=sens_vis.begin(); it!=sens_vis.end(); ++it)
 	{
 		if ((*it)->is_Scalar())
@@ -606,6 +620,25 @@ double CWriter::generatePymbsWrapper(Graph::Graph& g)
 	f << "]" << std::endl;
 	f << std::endl;
 
+    f << "# inputs" << std::endl;
+	f << "_inputs = {" << std::endl;
+	for (Graph::VariableVec::iterator it=vis_inputs.begin();it!=vis_inputs.end();++it)
+    {
+        f << "           '" << p.print(*it) << "' : zeros(";
+        if ((*it)->is_Scalar()) 
+			f << "1";
+		else if ((*it)->is_Vector()) 
+			f << (*it)->getShape().getNumEl();
+		else
+			f << "(" << (*it)->getShape().getDimension(1) << "," << (*it)->getShape().getDimension(2) << ")";
+		f << "),   " << p.comment2(g,*it) << std::endl;
+    }
+	f << "          }" << std::endl;        
+	f << std::endl;
+	f << "def setInputs(ext_inputs):" << std::endl;
+	f << "    global _inputs" << std::endl;
+	f << "    _inputs.update(ext_inputs)" << std::endl;
+	f << std::endl;
 	f << "def graphVisualSensors(q):" << std::endl;
 	f << std::endl;
 	f << "    q = array(q)   # q ist manchmal Liste, muss aber unbedingt ndarray sein." << std::endl;
@@ -623,6 +656,8 @@ double CWriter::generatePymbsWrapper(Graph::Graph& g)
 	f << std::endl;
 
 	f << "    cm." << m_name << "_visual(q";
+    for (Graph::VariableVec::iterator it=vis_inputs.begin();it!=vis_inputs.end();++it)
+        f << ", _inputs['" << p.print(*it) << "']";
 	for (Graph::VariableVec::iterator it=sens_vis.begin(); it!=sens_vis.end(); ++it)
 		f  << "," << std::endl << "        " << p.print(*it) << "";
 	f << ")" << std::endl;
-- 
2.43.0


From 86b6e24049c724367803e52254ab991907e6d7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:45 +0000
Subject: [PATCH 051/104] fix: optimizing a graph changed expressions of other
 graphs and of the user

---
 symbolics/graph/include/PreOptimisation.h | 92 ++++++++++++++---------
 symbolics/writer/Writer.cpp               |  2 +-
 2 files changed, 57 insertions(+), 37 deletions(-)

diff --git a/symbolics/graph/include/PreOptimisation.h b/symbolics/graph/include/PreOptimisation.h
index bb3b64c..e43c6b7 100644
--- a/symbolics/graph/include/PreOptimisation.h
+++ b/symbolics/graph/include/PreOptimisation.h
@@ -35,51 +35,71 @@ namespace Symbolics
             template< typename Ty >
             void optimizeUnaryFunctions(Basic_Type type )
             {
-              std::map<BasicPtr,size_t> repl;
-              std::map<BasicPtr,size_t>::iterator ii;
-              // 
-              ScopePtr scope = Ty::getScope();
-              List *list = scope->first;
-              while (list != NULL)
+              // Only the equations of this system: expressions of other systems and of the
+              // user may contain the same functions
+              FunctionCounter counter(type);
+              EquationPtrSet equations = m_eqsys->getEquations();
+              for (EquationPtrSet::iterator e=equations.begin();e!=equations.end();++e)
               {
-                // cast
-                Ty *unary = List::getAsPtr<Ty>(list);
-                BasicPtr p(unary);
-                ii = repl.find(p);
-                if (ii != repl.end())
-                {
-                  ii->second = ii->second + p->getParentsSize();
-                  p->subs(ii->first);
-                }
-                else
-                {
-                  repl[p] = p->getParentsSize();
-                }
-                // next
-                list = list->getRigth();
+                for (size_t i=0;i<(*e)->getLhsSize();++i)
+                  (*e)->getLhs(i)->scanExp(counter);
+                for (size_t i=0;i<(*e)->getRhsSize();++i)
+                  (*e)->getRhs(i)->scanExp(counter);
               }
 
-              std::map<BasicPtr,size_t>::iterator re = repl.end();
-              size_t n=0;
-              for (ii =repl.begin(); ii != re;++ii)
+              BasicPtrVec functions;
+              for (std::map<BasicPtr,size_t>::iterator ii=counter.functions.begin();ii!=counter.functions.end();++ii)
               {
                 if (ii->second > 1)
+                  functions.push_back(ii->first);
+              }
+
+              size_t n=0;
+              for (size_t k=0;k<functions.size();++k)
+              {
+                BasicPtr f = functions[k];
+                std::string name = Basic_TypetoStr(type);
+                if (f->getArg(0)->getType() == Type_Symbol)
+                  name += f->getArg(0)->toString();
+                else
+                  name += str(n++);
+                // check for free name
+                while (m_eqsys->hasSymbol(name))
+                  name += str(n++);
+                SymbolPtr sp(new Symbol(name,f->getShape()));
+                m_eqsys->addSymbol(sp);
+                equations = m_eqsys->getEquations();
+                for (EquationPtrSet::iterator e=equations.begin();e!=equations.end();++e)
                 {
-                  std::string name = Basic_TypetoStr(type);
-                  if (ii->first->getArg(0)->getType() == Type_Symbol)
-                    name += ii->first->getArg(0)->toString();
-                  else
-                    name += str(n++);
-                  // check for free name
-                  if (m_eqsys->hasSymbol(name))
-                    name += str(n++);
-                  SymbolPtr sp(new Symbol(name,ii->first->getShape()));
-                  m_eqsys->addSymbol(sp);
-                  ii->first->subs(sp);
-                  m_eqsys->addEquation(sp,ii->first,false);
+                  (*e)->subs(f,sp);
+                  (*e)->findSymbols();
                 }
+                // functions of this function
+                for (size_t j=k+1;j<functions.size();++j)
+                  functions[j] = functions[j]->subs(f,sp);
+                m_eqsys->addEquation(sp,f,false);
               }
             };
+
+            class FunctionCounter: public Basic::Scanner
+            {
+            public:
+              FunctionCounter(Basic_Type t): type(t) {;}
+              ~FunctionCounter() {;}
+
+              bool process_Arg(BasicPtr const &p, bool &stop)
+              {
+                if (p->getType() == type)
+                  functions[p]++;
+                return true;
+              };
+
+              std::map<BasicPtr,size_t> functions;
+
+            private:
+              Basic_Type type;
+            };
+
             std::string& Basic_TypetoStr(Basic_Type const& t);
         };
 /*****************************************************************************/
diff --git a/symbolics/writer/Writer.cpp b/symbolics/writer/Writer.cpp
index dcf9723..18ada88 100644
--- a/symbolics/writer/Writer.cpp
+++ b/symbolics/writer/Writer.cpp
@@ -79,7 +79,7 @@ std::vector<size_t> Writer::getStateOffsets(Graph::Graph& g, Graph::VariableVec
     {
         size_t offset = 0;
         Graph::VariableVec::const_iterator jt = all.begin();
-        for (; jt!=all.end() && jt->get() != it->get(); ++jt)
+        for (; jt!=all.end() && (*jt)->getName() != (*it)->getName(); ++jt)
             offset += (*jt)->getShape().getNumEl();
         if (jt == all.end())
             throw InternalError("Writer: State \"" + (*it)->getName() + "\" is not part of the graph!");
-- 
2.43.0


From f9c655571a678bd0957bc433db1163a2709d1bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:45 +0000
Subject: [PATCH 052/104] fix: an unknown target language crashed the
 interpreter

---
 symbolics/wrapper/CGraph.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/symbolics/wrapper/CGraph.cpp b/symbolics/wrapper/CGraph.cpp
index 3ded973..b997462 100644
--- a/symbolics/wrapper/CGraph.cpp
+++ b/symbolics/wrapper/CGraph.cpp
@@ -549,7 +549,7 @@ static PyObject* CGraph_writeOutput(CGraphObject *self, PyObject *args, PyObject
 		char *path = NULL;
 
 		double t;
-		Writer *writer;
+		Writer *writer = NULL;
 
 		// Argumente parsen
 		if (!PyArg_ParseTuple(args, "sss", &typeString, &name, &path))
@@ -580,6 +580,9 @@ static PyObject* CGraph_writeOutput(CGraphObject *self, PyObject *args, PyObject
 		if(!strcmp(typeString, "fmu"))
 			writer = new FMUWriter(keywords);
 
+		if (writer == NULL)
+			throw InternalError("Unknown target language \"" + std::string(typeString) + "\"!");
+
 		// Code schreiben
 		t = writer->generateTarget(name, path, *(self->m_graph), true);
 		return PyFloat_FromDouble(t);
-- 
2.43.0


From 4981fd2fb2c8d8187cd4a9d600071776f86ed8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:45 +0000
Subject: [PATCH 053/104] fix: Fortran: offsets of states, constants,
 dimensions of sensors and parameters, inputs of graphics, negative matrix
 powers

---
 symbolics/printer/FortranPrinter.cpp |  2 +
 symbolics/writer/CWriter.cpp         | 13 +++-
 symbolics/writer/FortranWriter.cpp   | 99 ++++++++++++++++++++--------
 3 files changed, 84 insertions(+), 30 deletions(-)

diff --git a/symbolics/printer/FortranPrinter.cpp b/symbolics/printer/FortranPrinter.cpp
index 9506f56..bebbe44 100644
--- a/symbolics/printer/FortranPrinter.cpp
+++ b/symbolics/printer/FortranPrinter.cpp
@@ -194,6 +194,8 @@ std::string FortranPrinter::print_Solve( const Solve *s )
 /*****************************************************************************/
 {
 	if (s == NULL) throw InternalError("FortranPrinter: Solve is NULL");
+	if (s->getShape().getDimension(2) != 1)
+		return error("FortranPrinter: Solve: Is only possible for one right hand side");
 	return "LEGS(" + print(s->getArg1()) + ", " + print(s->getArg2()) + ")";
 }
 /*****************************************************************************/
diff --git a/symbolics/writer/CWriter.cpp b/symbolics/writer/CWriter.cpp
index 02b1705..f301d95 100644
--- a/symbolics/writer/CWriter.cpp
+++ b/symbolics/writer/CWriter.cpp
@@ -418,14 +418,23 @@ std::string CWriter::writeEquations(std::vector<Graph::Assignment> const& equati
 				const Solve *solve = Util::getAsConstPtr<Solve>(simple_exp);
 				if (solve->getShape().getDimension(2) != 1)
 					throw InternalError("Solve for several right hand sides is not yet implemented in C!");
-				//Util::getAsConstPtr<Element>(it->lhs[i]->getArg(0)->getArg(0));
 				int dim = solve->getArg2()->getShape().getDimension(1);
 				s << "    {" << std::endl;
 				s << "        double solve_A[" << dim << "][" << dim << "] = " << m_p->print(solve->getArg1()) << ";" << std::endl;
 				s << "        double solve_b[" << dim << "] = " << m_p->print(solve->getArg2()) << ";" << std::endl;
 				m_maxSolveDim = std::max(m_maxSolveDim, dim);
-				s << "        legs(" << dim << ", &solve_A[0][0], solve_b, " << m_p->print(it->lhs[i]->getArg(0)->getArg(0)) << ");" << std::endl;
+				// the unknowns may be derivatives or belong to different symbols
+				s << "        double solve_x[" << dim << "];" << std::endl;
+				s << "        legs(" << dim << ", &solve_A[0][0], solve_b, solve_x);" << std::endl;
+				for (int j=0; j < dim; ++j)
+					s << "        " << m_p->print(it->lhs[i]->getArg(j)) << " = solve_x[" << j << "];" << std::endl;
 				s << "    }" << std::endl;
+			} else if (it->lhs[i]->getType() == Type_Matrix) {
+				// one equation per element
+				const Matrix *mat = Util::getAsConstPtr<Matrix>(it->lhs[i]);
+				for (size_t j=0; j < mat->getShape().getDimension(1); j++)
+					for (size_t k=0; k < mat->getShape().getDimension(2); k++)
+						s << "    " << m_p->print(mat->get(j,k)) << " = " << m_p->print(Element::New(simple_exp,j,k)->simplify()) << ";" << std::endl;
 			} else {
 				// ordinary equation
 				s << "    " << m_p->print(it->lhs[i]) << " = " << m_p->print(simple_exp) << ";" << std::endl;
diff --git a/symbolics/writer/FortranWriter.cpp b/symbolics/writer/FortranWriter.cpp
index 756b25d..581b700 100644
--- a/symbolics/writer/FortranWriter.cpp
+++ b/symbolics/writer/FortranWriter.cpp
@@ -97,12 +97,11 @@ double FortranWriter::generateDerState(Graph::Graph& g)
 	f << std::endl;
 
 	f << "!declare fixed variables" << std::endl;
-	int input_dim=0; 
+	size_t input_dim = getStateSize(g);
 	for (Graph::VariableVec::iterator it=states.begin();it != states.end();++it)
 	{
 		f << "    double precision"<< m_p->dimension(*it) << " :: " << m_p->print(*it) << m_p->comment2(g,*it) << std::endl;
 		f << "    double precision"<< m_p->dimension(*it) << " :: der_" << m_p->print(*it) << std::endl;
-		input_dim += (*it)->getShape().getDimension(1);
 	}
     f << "    double precision, intent(in) :: time" << std::endl;
 	f << "    double precision, dimension(" << input_dim << ",1), intent(in) :: y" << std::endl;
@@ -116,12 +115,12 @@ double FortranWriter::generateDerState(Graph::Graph& g)
     
 	f << "!Parameters" << std::endl;
 	for (Graph::VariableVec::iterator it=parameter.begin();it!=parameter.end();++it)
-		f << "    double precision, parameter" << m_p->dimension(*it) << " :: " << m_p->print(*it) << "=" << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) <<  std::endl;
+		f << "    double precision" << m_p->dimension(*it) << " :: " << m_p->print(*it) << m_p->comment2(g,*it) <<  std::endl;
 	f << std::endl;
 
 	f << "!Constants" << std::endl;
 	for (Graph::VariableVec::iterator it=constants.begin();it!=constants.end();++it)
-        f << "    double precision, constant" << m_p->dimension(*it) << " :: " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) << std::endl;
+        f << "    double precision" << m_p->dimension(*it) << " :: " << m_p->print(*it) << m_p->comment2(g,*it) << std::endl;
 	f << std::endl;
 
 	f << "!User Expression variables" << std::endl;
@@ -140,16 +139,23 @@ double FortranWriter::generateDerState(Graph::Graph& g)
 	// schreiben der Equations bekannt sind. Es ist in C++ nicht m�glich nachtr�glich etwas in einen Stream einzuf�gen
 	std::stringstream fss;
 
+	fss << "!set parameters and constants" << std::endl;
+	for (Graph::VariableVec::iterator it=parameter.begin();it!=parameter.end();++it)
+		fss << "    " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << std::endl;
+	for (Graph::VariableVec::iterator it=constants.begin();it!=constants.end();++it)
+		fss << "    " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << std::endl;
+	fss << std::endl;
+
 	fss << "!define states" << std::endl;
-	Shape n = states.at(0)->getShape(); 
+	std::vector<size_t> offsets = getStateOffsets(g, states);
 	for (Graph::VariableVec::size_type i = 0; i < states.size() ; ++i) 
 	{
 		fss << "    " << m_p->print(states[i]) << " = y(";
 		if (states[i]->is_Scalar())
-			fss << str(n.getDimension(1) * i + 1) << ",1)" << std::endl;
+			fss << str(offsets[i] + 1) << ",1)" << std::endl;
 		else
-			fss << str(n.getDimension(1) * i + 1) << ":" 
-			  << str(n.getDimension(1) * (i+1)) << ",:)" 
+			fss << str(offsets[i] + 1) << ":" 
+			  << str(offsets[i] + states[i]->getShape().getNumEl()) << ",:)" 
 			  << std::endl;
 	}
 	fss << std::endl;
@@ -237,11 +243,10 @@ double FortranWriter::generateSensors(Graph::Graph& g)
 
 	f << "!declare arguments and return variables" << std::endl;
     f << "    double precision, intent(in) :: time" << std::endl;
-	int input_dim=0; 
+	size_t input_dim = getStateSize(g);
 	for (Graph::VariableVec::iterator it=states.begin();it != states.end();++it)
 	{
 		f << "    double precision"<< m_p->dimension(*it) << " :: " << m_p->print(*it) << m_p->comment2(g,*it) << std::endl;
-		input_dim += (*it)->getShape().getDimension(1);
 	}
 	f << "    double precision, dimension(" << input_dim << ",1), intent(in) :: y" << std::endl;
 	for (Graph::VariableVec::iterator it=sensors.begin();it!=sensors.end();++it)
@@ -255,12 +260,12 @@ double FortranWriter::generateSensors(Graph::Graph& g)
     
 	f << "!Parameters" << std::endl;
 	for (Graph::VariableVec::iterator it=parameter.begin();it!=parameter.end();++it)
-		f << "    double precision, parameter"          << " :: " << m_p->print(*it) << "=" << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) <<  std::endl;
+		f << "    double precision" << m_p->dimension(*it) << " :: " << m_p->print(*it) << m_p->comment2(g,*it) <<  std::endl;
 	f << std::endl;
 
 	f << "!Constants" << std::endl;
 	for (Graph::VariableVec::iterator it=constants.begin();it!=constants.end();++it)
-        f << "    double precision, constant" << m_p->dimension(*it) << " :: " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) << std::endl;
+        f << "    double precision" << m_p->dimension(*it) << " :: " << m_p->print(*it) << m_p->comment2(g,*it) << std::endl;
 	f << std::endl;
 
 	f << "!User Expression variables" << std::endl;
@@ -279,16 +284,23 @@ double FortranWriter::generateSensors(Graph::Graph& g)
 	// schreiben der Equations bekannt sind. Es ist in C++ nicht m�glich nachtr�glich etwas in einen Stream einzuf�gen
 	std::stringstream fss;
 
+	fss << "!set parameters and constants" << std::endl;
+	for (Graph::VariableVec::iterator it=parameter.begin();it!=parameter.end();++it)
+		fss << "    " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << std::endl;
+	for (Graph::VariableVec::iterator it=constants.begin();it!=constants.end();++it)
+		fss << "    " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << std::endl;
+	fss << std::endl;
+
 	fss << "!define states" << std::endl; 
+	std::vector<size_t> offsets = getStateOffsets(g, states);
 	for (Graph::VariableVec::size_type i = 0; i < states.size() ; ++i) 
 	{
-        Shape n = states.at(i)->getShape();
 		fss << "    " << m_p->print(states[i]) << " = y(";
 		if (states[i]->is_Scalar())
-			fss << str(n.getDimension(1) * i + 1) << ",1)" << std::endl;
+			fss << str(offsets[i] + 1) << ",1)" << std::endl;
 		else
-			fss << str(n.getDimension(1) * i + 1) << ":" 
-			  << str(n.getDimension(1) * (i+1)) << ",:)" 
+			fss << str(offsets[i] + 1) << ":" 
+			  << str(offsets[i] + states[i]->getShape().getNumEl()) << ",:)" 
 			  << std::endl;
 	}
 	fss << std::endl;
@@ -329,7 +341,7 @@ double FortranWriter::generateVisual(Graph::Graph& g)
 
 	Graph::VariableVec states = a->getVariables(STATE);
 	Graph::VariableVec variables = a->getVariables(VARIABLE|SENSOR);
-	//Graph::VariableVec inputs = a->getVariables(INPUT);
+	Graph::VariableVec inputs = a->getVariables(INPUT);
 	Graph::VariableVec parameter = a->getVariables(PARAMETER);
 	Graph::VariableVec constants = a->getVariables(CONSTANT);
 	Graph::VariableVec userexp = a->getVariables(USER_EXP);
@@ -344,6 +356,8 @@ double FortranWriter::generateVisual(Graph::Graph& g)
 	std::sort(states.begin(),states.end(), sortVariableVec);
 	// Visual_sensors Vector sortieren: 
 	std::sort(sens_vis.begin(),sens_vis.end(), sortVariableVec);
+    // Inputs Vector sortieren: 
+	std::sort(inputs.begin(),inputs.end(), sortVariableVec);
 
 	std::ofstream f;
     std::string filename= m_path + "/" + m_name + "_visual.f90";
@@ -353,6 +367,8 @@ double FortranWriter::generateVisual(Graph::Graph& g)
 	f << std::endl;
 	
 	f << "subroutine "<< m_name <<"_visual(y"; 
+	for (Graph::VariableVec::iterator it=inputs.begin();it!=inputs.end();++it)
+		f << ", " << m_p->print(*it);
 	for (Graph::VariableVec::iterator it=sens_vis.begin();it!=sens_vis.end();++it)
 		f << ", " << m_p->print(*it); 
 	f << ")" << std::endl; 
@@ -362,26 +378,29 @@ double FortranWriter::generateVisual(Graph::Graph& g)
 	f << std::endl;
 
 	f << "!declare arguments and return variables" << std::endl;
-	int input_dim=0; 
+	size_t input_dim = getStateSize(g);
 	for (Graph::VariableVec::iterator it=states.begin();it != states.end();++it)
 	{
 		f << "    double precision"<< m_p->dimension(*it) << " :: " << m_p->print(*it) << m_p->comment2(g,*it) << std::endl;
-		input_dim += (*it)->getShape().getDimension(1);
 	}
 	f << "    double precision, dimension(" << input_dim << ",1), intent(in) :: y" << std::endl;
 	for (Graph::VariableVec::iterator it=sens_vis.begin();it!=sens_vis.end();++it)
 		f << "    double precision"<< m_p->dimension(*it) << ", intent(out) :: " << m_p->print(*it) << m_p->comment2(g,*it) << std::endl;
 	f << std::endl;
 
+	f << "!declare inputs" << std::endl;
+	for (Graph::VariableVec::iterator it=inputs.begin();it!=inputs.end();++it)
+		f << "    double precision, intent(in)" << m_p->dimension(*it) << " :: " << m_p->print(*it) << m_p->comment2(g,*it) <<  std::endl;
+	f << std::endl;
     
 	f << "!Parameters" << std::endl;
 	for (Graph::VariableVec::iterator it=parameter.begin();it!=parameter.end();++it)
-		f << "    double precision, parameter"          << " :: " << m_p->print(*it) << "=" << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) <<  std::endl;
+		f << "    double precision" << m_p->dimension(*it) << " :: " << m_p->print(*it) << m_p->comment2(g,*it) <<  std::endl;
 	f << std::endl;
 
 	f << "!Constants" << std::endl;
 	for (Graph::VariableVec::iterator it=constants.begin();it!=constants.end();++it)
-        f << "    double precision, constant" << m_p->dimension(*it) << " :: " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) << std::endl;
+        f << "    double precision" << m_p->dimension(*it) << " :: " << m_p->print(*it) << m_p->comment2(g,*it) << std::endl;
 	f << std::endl;
 
 	f << "!User Expression variables" << std::endl;
@@ -400,16 +419,23 @@ double FortranWriter::generateVisual(Graph::Graph& g)
 	// schreiben der Equations bekannt sind. Es ist in C++ nicht m�glich nachtr�glich etwas in einen Stream einzuf�gen
 	std::stringstream fss;
 
+	fss << "!set parameters and constants" << std::endl;
+	for (Graph::VariableVec::iterator it=parameter.begin();it!=parameter.end();++it)
+		fss << "    " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << std::endl;
+	for (Graph::VariableVec::iterator it=constants.begin();it!=constants.end();++it)
+		fss << "    " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << std::endl;
+	fss << std::endl;
+
 	fss << "!define states" << std::endl;
+	std::vector<size_t> offsets = getStateOffsets(g, states);
 	for (Graph::VariableVec::size_type i = 0; i < states.size() ; ++i) 
 	{
-        Shape n = states.at(i)->getShape(); 
 		fss << "    " << m_p->print(states[i]) << " = y(";
 		if (states[i]->is_Scalar())
-			fss << str(n.getDimension(1) * i + 1) << ",1)" << std::endl;
+			fss << str(offsets[i] + 1) << ",1)" << std::endl;
 		else
-			fss << str(n.getDimension(1) * i + 1) << ":" 
-			  << str(n.getDimension(1) * (i+1)) << ",:)" 
+			fss << str(offsets[i] + 1) << ":" 
+			  << str(offsets[i] + states[i]->getShape().getNumEl()) << ",:)" 
 			  << std::endl;
 	}
 	fss << std::endl;
@@ -469,7 +495,7 @@ std::string FortranWriter::writeEquations(std::vector<Graph::Assignment> const&
 					s << "    temp_var_" << additionalVarDefs.size() << " = " << m_p->print(simple_exp) << std::endl; 
 					for (size_t j=0; j < mat->getShape().getDimension(1); j++)
 						for (size_t k=0; k < mat->getShape().getDimension(2); k++)
-							s << "    " << m_p->print(mat->get(j,k)) << " = temp_var_1(" << j+1<< "," << k+1 << ")" << std::endl;
+							s << "    " << m_p->print(mat->get(j,k)) << " = temp_var_" << additionalVarDefs.size() << "(" << j+1<< "," << k+1 << ")" << std::endl;
 				}
 			} else {
 				// ordinary equation
@@ -540,6 +566,9 @@ double FortranWriter::generatePymbsWrapper(Graph::Graph& g)
 	Graph::VariableVec sens_vis = g.getAssignments(SENSOR_VISUAL)->getVariables(SENSOR_VISUAL);
 	// Visual_sensors Vector sortieren:
 	std::sort(sens_vis.begin(),sens_vis.end(), sortVariableVec);
+	Graph::VariableVec vis_inputs = g.getAssignments(SENSOR_VISUAL)->getVariables(INPUT);
+    // Inputs Vector sortieren: 
+	std::sort(vis_inputs.begin(),vis_inputs.end(), sortVariableVec);
 
     filename= m_path + "/" + m_name + "_visual_F90Wrapper.py";
     f.open(filename.c_str());
@@ -549,11 +578,25 @@ double FortranWriter::generatePymbsWrapper(Graph::Graph& g)
 	f << "from scipy import matrix, zeros" << std::endl;
 	f << "from " << m_name << "_visual_compiledF90 import " << m_name_lower << "_visual" << std::endl;
 
+    f << "# inputs" << std::endl;
+	f << "_inputs = {" << std::endl;
+	for (Graph::VariableVec::iterator it=vis_inputs.begin();it!=vis_inputs.end();++it)
+		f << "           '" << p.print(*it) << "' : " << p.print(g.getinitVal(*it)) 
+        << ",   " << p.comment2(g,*it) << std::endl;
+	f << "          }" << std::endl;        
+	f << std::endl;
+	f << "def setInputs(ext_inputs):" << std::endl;
+	f << "    global _inputs" << std::endl;
+	f << "    _inputs.update(ext_inputs)" << std::endl;
+	f << std::endl;
 	f << "def graphVisualSensors(q):" << std::endl;
 	f << "    ";
 	for (Graph::VariableVec::iterator it=sens_vis.begin();it!=sens_vis.end();++it)
 		f  << p.print(*it) << (it+1 != sens_vis.end() ? ", " : "" ); 
-	f << " = " << m_name_lower << "_visual(q)" << std::endl;
+	f << " = " << m_name_lower << "_visual(q";
+    for (Graph::VariableVec::iterator it=vis_inputs.begin();it!=vis_inputs.end();++it)
+        f << ", _inputs['" << p.print(*it) << "']";
+    f << ")" << std::endl;
 	f << std::endl;
 
     f << "    res_dict = {}" << std::endl;
@@ -688,7 +731,7 @@ double FortranWriter::generateFunctionmodule()
 	f << "    end if" << std::endl;
 	f << "    matpow = B" << std::endl;
 	f << std::endl;
-	f << "    do i=2, e" << std::endl;
+	f << "    do i=2, abs(e)" << std::endl;
 	f << "        matpow = matmul(matpow, B)" << std::endl;
 	f << "    end do" << std::endl;
 	f << std::endl;
-- 
2.43.0


From aeebf10fe2d1eb434ba4c1fa3df8b37dec2810fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:37 +0000
Subject: [PATCH 054/104] fix: joint load acts on the body origin even if the
 reference frame of the body is shifted

---
 pymbs/processing/loads/joint_load.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pymbs/processing/loads/joint_load.py b/pymbs/processing/loads/joint_load.py
index d107082..98f7156 100644
--- a/pymbs/processing/loads/joint_load.py
+++ b/pymbs/processing/loads/joint_load.py
@@ -3,7 +3,7 @@ from pymbs.common.functions import transpose, norm
 
 from pymbs.processing import Joint
 
-from pymbs.symbolics import eye
+from pymbs.symbolics import eye, zeros
 
 
 class JointLoad(Load):
@@ -33,7 +33,8 @@ class JointLoad(Load):
 
         # Constructor of Super Class
         # BugFix for 014:
-        if (joint.body.CS_0.R != eye(3)):
+        # the load acts at the origin and in the directions of the body frame
+        if ((joint.body.CS_0.R != eye(3)) or (joint.body.CS_0.p != zeros((3,)))):
             if (not hasattr(joint.body, '_CS_0')):
                 joint.body._CS_0 = joint.body.addFrame('_int_CS0_2')
             Load.__init__(self, name, joint.body._CS_0, joint.coordSys, force, torque)
-- 
2.43.0


From 2f4b300d1c45d6a668a5a90e091764df15473112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:37 +0000
Subject: [PATCH 055/104] fix: OrderN generator used the wrong sign for the
 gyroscopic torque

---
 pymbs/processing/generator_order_n.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pymbs/processing/generator_order_n.py b/pymbs/processing/generator_order_n.py
index 752ba33..927a0ea 100644
--- a/pymbs/processing/generator_order_n.py
+++ b/pymbs/processing/generator_order_n.py
@@ -616,8 +616,7 @@ class Generator_OrderN(Generator):
                 J_3 = graph.addEquation(J%bName+"_3", body.mass*eye((3,3)))
                 body._J = graph.addEquation(J%bName, block_matrix([[body.inertia, J_1], [J_2, J_3]]))        # (21 a)
     #            D_1 = graph.addEquation(D%bName+"_1", body._L_ext + body._l_tilde*body._F_ext - body._K_om_tilde*body.inertia*body.K_om)
-                # Warum  + body._K_om_tilde*body.inertia*body.K_om und nicht -
-                D_1 = graph.addEquation(D%bName+"_1", body._L_ext + body._K_om_tilde*body.inertia*body.K_om)
+                D_1 = graph.addEquation(D%bName+"_1", body._L_ext - body._K_om_tilde*body.inertia*body.K_om)
                 D_2 = graph.addEquation(D%bName+"_2", body._F_ext - body.mass*body._beta_star*body.cg)
                 body._d = graph.addEquation(D%bName, block_vector([D_1, D_2]))                               # (21 b)
                 tmp_e = block_vector([joint.Phi, joint.Psi])
-- 
2.43.0


From 37345368c46c32c9ec08ecc3f5a8e962ac36de3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:37 +0000
Subject: [PATCH 056/104] fix: OrderN generator ignored the orientation of the
 joint frame for translations

---
 pymbs/processing/generator_order_n.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pymbs/processing/generator_order_n.py b/pymbs/processing/generator_order_n.py
index 927a0ea..5ebbaa3 100644
--- a/pymbs/processing/generator_order_n.py
+++ b/pymbs/processing/generator_order_n.py
@@ -208,7 +208,7 @@ class Generator_OrderN(Generator):
                 body.I_R = graph.addEquation(T1%bName, T_cs*T_j, shape=(3,3))
                 body._R = graph.addEquation(T2%(pName,bName), transpose(cs.R*T_j))
 
-                p_z_p_b = graph.addEquation(p_z%(pName,bName), cs.p+joint.Psi*joint.q, shape=(3,))
+                p_z_p_b = graph.addEquation(p_z%(pName,bName), cs.p+cs.R*joint.Psi*joint.q, shape=(3,))
                 body._p_z = p_z_p_b
                 body._p_z_tilde = graph.addEquation(p_z_tilde%(pName,bName), skew(p_z_p_b), shape=(3,3))
 
@@ -228,7 +228,7 @@ class Generator_OrderN(Generator):
                 body._K_om_tilde = graph.addEquation(omega_tilde%bName, skew(body.K_om), shape=(3,3))
 
                 # Velocity
-                body.I_v = graph.addEquation(I_v%bName, parentBody.I_v + parentBody.I_R*(parentBody._K_om_tilde*p_z_p_b + joint.qd*joint.Psi), shape=(3,))
+                body.I_v = graph.addEquation(I_v%bName, parentBody.I_v + parentBody.I_R*(parentBody._K_om_tilde*p_z_p_b + joint.qd*cs.R*joint.Psi), shape=(3,))
                 body.I_ldot = graph.addEquation(I_ldot%bName, body.I_v + body.I_R*body._K_om_tilde*body._l, shape=(3,))
 
                 if (not self.kinematicsOnly):
@@ -275,7 +275,7 @@ class Generator_OrderN(Generator):
                 body.I_R = graph.addEquation(T1%bName, T_cs*T_j, shape=(3,3))
                 body._R = graph.addEquation(T2%(pName,bName), transpose(cs.R*T_j))
 
-                p_z_p_b = graph.addEquation(p_z%(pName,bName), cs.p+joint.Psi*joint.q, shape=(3,))
+                p_z_p_b = graph.addEquation(p_z%(pName,bName), cs.p+cs.R*joint.Psi*joint.q, shape=(3,))
                 body._p_z = p_z_p_b
                 body._p_z_tilde = graph.addEquation(p_z_tilde%(pName,bName), skew(p_z_p_b), shape=(3,3))
 
@@ -305,7 +305,7 @@ class Generator_OrderN(Generator):
                 #K_om_q = Symbolics.Matrix = ([[body.K_om[0,0]*body.K_om[0,0]],[body.K_om[1,0]*body.K_om[1,0]],[body.K_om[2,0]*body.K_om[2,0]],[body.K_om[0,0]*body.K_om[1,0]],[body.K_om[1,0]*body.K_om[2,0]],[body.K_om[0,0]*body.K_om[2,0]]])
                 body._K_om_q = graph.addEquation(omega_q%bName,omegaq)
 
-                body.I_v = graph.addEquation(I_v%bName, parentBody.I_v + parentBody.I_R*(parentBody._K_om_tilde*p_z_p_b + joint.qd*joint.Psi), shape=(3,))
+                body.I_v = graph.addEquation(I_v%bName, parentBody.I_v + parentBody.I_R*(parentBody._K_om_tilde*p_z_p_b + joint.qd*cs.R*joint.Psi), shape=(3,))
                 body.I_ldot = graph.addEquation(I_ldot%bName, body.I_v + body.I_R*body._K_om_tilde*body._l, shape=(3,))
 
                 if (not self.kinematicsOnly):
-- 
2.43.0


From 9425636eee7d7e29cfc484a04b01805fdabe197d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:54 +0000
Subject: [PATCH 057/104] fix: OrderN generator applied loads with a wrong
 reference frame

---
 pymbs/processing/generator_order_n.py | 34 ++++++++++++++-------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/pymbs/processing/generator_order_n.py b/pymbs/processing/generator_order_n.py
index 5ebbaa3..084740c 100644
--- a/pymbs/processing/generator_order_n.py
+++ b/pymbs/processing/generator_order_n.py
@@ -569,15 +569,16 @@ class Generator_OrderN(Generator):
                         assert child in (load.parent, load.child), "Internal Error: load %s must have this Coordinate System (child) as a parent or a child!"%(load.name)
 
                         # Calculate Rotation Matrix
-                        if ((load.ref is None) or (load.ref == child)): # ref = parent
-                            if (load.parent == child):
-                                T = 1
-                            else:
-                                # child <- world <- parent
-                                T = transpose(child.I_R)*load.parent.I_R
+                        # (loads are applied w.r.t. the body frame)
+                        if (load.ref is None): # ref = inertial frame
+                            # body <- I
+                            T = transpose(body.I_R)
+                        elif (load.ref == child):
+                            # body <- child
+                            T = child.R
                         else:   # ref = irgendetwas
-                            # child (child/parent) <- I <- ref
-                            T = transpose(child.I_R)*load.ref.I_R
+                            # body <- I <- ref
+                            T = transpose(body.I_R)*load.ref.I_R
 
 
                         if (not isinstance(load, Constraint)):  # We are dealing with a normal load
@@ -699,15 +700,16 @@ class Generator_OrderN(Generator):
                         assert child in (load.parent, load.child), "Internal Error: load %s must have this Coordinate System (child) as a parent or a child!"%(load.name)
 
                         # Calculate Rotation Matrix
-                        if ((load.ref is None) or (load.ref == child)): # ref = parent
-                            if (load.parent == child):
-                                T = 1
-                            else:
-                                # child <- world <- parent
-                                T = transpose(child.I_R)*load.parent.I_R
+                        # (loads are applied w.r.t. the body frame)
+                        if (load.ref is None): # ref = inertial frame
+                            # body <- I
+                            T = transpose(body.I_R)
+                        elif (load.ref == child):
+                            # body <- child
+                            T = child.R
                         else:   # ref = irgendetwas
-                            # child (child/parent) <- I <- ref
-                            T = transpose(child.I_R)*load.ref.I_R
+                            # body <- I <- ref
+                            T = transpose(body.I_R)*load.ref.I_R
 
                         if (not isinstance(load, Constraint)):  # We are dealing with a normal load
                             Phi_SID = None
-- 
2.43.0


From b5f94e5403118ae89140e1031d2a3dcedaf38d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:54 +0000
Subject: [PATCH 058/104] fix: OrderN generator added the gravitational
 acceleration to the accelerations of the bodies

---
 pymbs/processing/generator_order_n.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymbs/processing/generator_order_n.py b/pymbs/processing/generator_order_n.py
index 084740c..5ee262b 100644
--- a/pymbs/processing/generator_order_n.py
+++ b/pymbs/processing/generator_order_n.py
@@ -998,7 +998,8 @@ class Generator_OrderN(Generator):
 
             b._a = graph.addEquation(A%b.name, b._RR*p._a + b._a_star + b._e*qdd[i]) # (22)
             graph.addEquation(b.K_al, b._a[0:3])
-            graph.addEquation(b.I_a, b.I_R*b._a[3:6])
+            # _a contains the gravitational acceleration, see the inertial body
+            graph.addEquation(b.I_a, b.I_R*b._a[3:6] + self.g)
 
             if isinstance(b,FlexibleBody):
                 # calculate the flexible accelerations
-- 
2.43.0


From 061b24062a802cebb31b27fa9c653657e19415b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:54 +0000
Subject: [PATCH 059/104] fix: energy sensors in OrderN and Recursive mode used
 an inertia and an angular velocity that do not belong together

---
 pymbs/processing/generator_order_n.py     | 10 ++++++----
 pymbs/processing/sensors/energy_sensor.py |  8 ++++++--
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/pymbs/processing/generator_order_n.py b/pymbs/processing/generator_order_n.py
index 5ee262b..5936cac 100644
--- a/pymbs/processing/generator_order_n.py
+++ b/pymbs/processing/generator_order_n.py
@@ -216,7 +216,8 @@ class Generator_OrderN(Generator):
                 body._l = graph.addEquation(l%bName, body.cg, shape=(3,))
                 body._l_tilde = graph.addEquation(l_tilde%bName, skew(body._l), shape=(3,3))
                 body.mass = graph.addEquation(m%bName, body.mass, shape=())
-                body.inertia = graph.addEquation(I%bName, body.inertia - body.mass*body._l_tilde*body._l_tilde, shape=(3,3))
+                # inertia w.r.t. the origin of the body (body.inertia is w.r.t. its centre of gravity)
+                body._I_O = graph.addEquation(I%bName, body.inertia - body.mass*body._l_tilde*body._l_tilde, shape=(3,3))
 
                 # Position
                 body.I_r = graph.addEquation(I_p%bName, parentBody.I_r + parentBody.I_R*p_z_p_b, shape=(3,))
@@ -283,7 +284,8 @@ class Generator_OrderN(Generator):
                 body._l = graph.addEquation(l%bName, body.cg, shape=(3,))
                 body._l_tilde = graph.addEquation(l_tilde%bName, skew(body._l), shape=(3,3))
                 body.mass = graph.addEquation(m%bName, body.mass, shape=())
-                body.inertia = graph.addEquation(I%bName, body.inertia - body.mass*body._l_tilde*body._l_tilde, shape=(3,3))
+                # inertia w.r.t. the origin of the body (body.inertia is w.r.t. its centre of gravity)
+                body._I_O = graph.addEquation(I%bName, body.inertia - body.mass*body._l_tilde*body._l_tilde, shape=(3,3))
 
                 # Position
                 body.I_r = graph.addEquation(I_p%bName, parentBody.I_r + parentBody.I_R*p_z_p_b, shape=(3,))
@@ -615,9 +617,9 @@ class Generator_OrderN(Generator):
                 J_1 = graph.addEquation(J%bName+"_1", body.mass*body._l_tilde)
                 J_2 = graph.addEquation(J%bName+"_2", -J_1)
                 J_3 = graph.addEquation(J%bName+"_3", body.mass*eye((3,3)))
-                body._J = graph.addEquation(J%bName, block_matrix([[body.inertia, J_1], [J_2, J_3]]))        # (21 a)
+                body._J = graph.addEquation(J%bName, block_matrix([[body._I_O, J_1], [J_2, J_3]]))        # (21 a)
     #            D_1 = graph.addEquation(D%bName+"_1", body._L_ext + body._l_tilde*body._F_ext - body._K_om_tilde*body.inertia*body.K_om)
-                D_1 = graph.addEquation(D%bName+"_1", body._L_ext - body._K_om_tilde*body.inertia*body.K_om)
+                D_1 = graph.addEquation(D%bName+"_1", body._L_ext - body._K_om_tilde*body._I_O*body.K_om)
                 D_2 = graph.addEquation(D%bName+"_2", body._F_ext - body.mass*body._beta_star*body.cg)
                 body._d = graph.addEquation(D%bName, block_vector([D_1, D_2]))                               # (21 b)
                 tmp_e = block_vector([joint.Phi, joint.Psi])
diff --git a/pymbs/processing/sensors/energy_sensor.py b/pymbs/processing/sensors/energy_sensor.py
index 5fafbd6..f294168 100644
--- a/pymbs/processing/sensors/energy_sensor.py
+++ b/pymbs/processing/sensors/energy_sensor.py
@@ -36,10 +36,14 @@ class EnergySensor(Sensor):
         assert self.body.I_l is not None, 'Position of Body "%s" has not been calculated!'%self.body
         E_pot = -m*transpose(self.gravity)*self.body.I_l
 
-        # get kinetic energy
+        # get kinetic energy (angular velocity and inertia are written w.r.t. the same frame)
+        om = self.body.K_om
+        if (om is None):
+            # recursive generator: inertial frame
+            om = self.body.I_om
         assert self.body.I_ldot is not None, 'Velocity of Body "%s" has not been calculated!'%self.body
         E_kin = 0.5*m*transpose(self.body.I_ldot)*self.body.I_ldot + \
-                0.5*transpose(self.body.K_om)*I*self.body.K_om
+                0.5*transpose(om)*I*om
 
         # Total Energy
         E = E_pot + E_kin
-- 
2.43.0


From 49f9c17abc2c866fa8691c3ef6851f96afae9f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:55 +0000
Subject: [PATCH 060/104] fix: velocity and acceleration sensors whose value
 vanishes could not be evaluated

---
 pymbs/processing/sensors/acceleration_sensor.py      | 2 +-
 pymbs/processing/sensors/constraint_force_sensor.py  | 2 +-
 pymbs/processing/sensors/constraint_torque_sensor.py | 2 +-
 pymbs/processing/sensors/velocity_sensor.py          | 5 +++--
 4 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/pymbs/processing/sensors/acceleration_sensor.py b/pymbs/processing/sensors/acceleration_sensor.py
index 8bfe739..ac5ce13 100644
--- a/pymbs/processing/sensors/acceleration_sensor.py
+++ b/pymbs/processing/sensors/acceleration_sensor.py
@@ -28,4 +28,4 @@ class AccelerationSensor(Sensor):
         Returns Shape of Sensor Result
         '''
         
-        return (3,1)
\ No newline at end of file
+        return (3,)
\ No newline at end of file
diff --git a/pymbs/processing/sensors/constraint_force_sensor.py b/pymbs/processing/sensors/constraint_force_sensor.py
index bcfe909..bc0e6b8 100644
--- a/pymbs/processing/sensors/constraint_force_sensor.py
+++ b/pymbs/processing/sensors/constraint_force_sensor.py
@@ -44,4 +44,4 @@ class ConstraintForceSensor(Sensor):
         Returns Shape of Sensor Result
         '''
 
-        return (3,1)
\ No newline at end of file
+        return (3,)
\ No newline at end of file
diff --git a/pymbs/processing/sensors/constraint_torque_sensor.py b/pymbs/processing/sensors/constraint_torque_sensor.py
index b7fd93b..b988ad6 100644
--- a/pymbs/processing/sensors/constraint_torque_sensor.py
+++ b/pymbs/processing/sensors/constraint_torque_sensor.py
@@ -43,4 +43,4 @@ class ConstraintTorqueSensor(Sensor):
         Returns Shape of Sensor Result
         '''
 
-        return (3,1)
\ No newline at end of file
+        return (3,)
\ No newline at end of file
diff --git a/pymbs/processing/sensors/velocity_sensor.py b/pymbs/processing/sensors/velocity_sensor.py
index beefcf1..cfaf225 100644
--- a/pymbs/processing/sensors/velocity_sensor.py
+++ b/pymbs/processing/sensors/velocity_sensor.py
@@ -1,6 +1,7 @@
 from pymbs.processing.sensors.sensor import Sensor
 from pymbs.common.functions import transpose
 
+import pymbs.symbolics as sym
 
 
 class VelocitySensor(Sensor):
@@ -18,7 +19,7 @@ class VelocitySensor(Sensor):
         # Calculate Vector Pointing From Parent to Child (w.r.t. Inertial Frame)
         v = transpose(self.ref.I_R)*(self.child.I_v - self.parent.I_v)
         if (v == 0):
-            v = pymbs.Symbolics.zeros(self.getShape())
+            v = sym.zeros(self.getShape())
         
         # Add Result to the List of Equations
         self.writeResult(graph, v)
@@ -29,4 +30,4 @@ class VelocitySensor(Sensor):
         Returns Shape of Sensor Result
         '''
         
-        return (3,1)
\ No newline at end of file
+        return (3,)
\ No newline at end of file
-- 
2.43.0


From bf87fb1b3d757b16276665d62f306fc246ddc45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:55 +0000
Subject: [PATCH 061/104] fix: sensors of angular velocities and accelerations
 between frames failed in Explicit mode

---
 pymbs/processing/generator_explicit.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pymbs/processing/generator_explicit.py b/pymbs/processing/generator_explicit.py
index 6b52d40..2a2c155 100644
--- a/pymbs/processing/generator_explicit.py
+++ b/pymbs/processing/generator_explicit.py
@@ -75,6 +75,8 @@ class Generator_Explicit(Generator):
                 body.I_R = symbolics.eye((3,3))
                 body.K_om = symbolics.zeros((3,))
                 body.K_al = symbolics.zeros((3,))
+                body.I_om = symbolics.zeros((3,))
+                body.I_al = symbolics.zeros((3,))
             else:
                 # Get Reference to Parent Body
                 joint = body.joint
@@ -94,6 +96,10 @@ class Generator_Explicit(Generator):
     #            body.K_al = body.K_al.applyfunc(lambda x: pymbs.Symbolics.trigsimp(x, recursive=True))
                 body.K_al = jacobian(body.K_om, self.q)*self.qd + jacobian(body.K_om, self.qd)*self.qdd
 
+                # The same w.r.t. the Inertial Frame
+                body.I_om = body.I_R*body.K_om
+                body.I_al = body.I_R*body.K_al
+
             # Update cg
             body.I_l = body.I_r + body.I_R*body.cg
             body.I_ldot = jacobian(body.I_l, self.q)*self.qd
@@ -103,6 +109,8 @@ class Generator_Explicit(Generator):
                 # Do the Update
                 childCS.K_om = transpose(childCS.R)*body.K_om
                 childCS.K_al = transpose(childCS.R)*body.K_al
+                childCS.I_om = body.I_om
+                childCS.I_al = body.I_al
                 childCS.I_R = body.I_R*childCS.R
                 childCS.I_r = body.I_r + body.I_R*childCS.p
                 childCS.I_v = jacobian(childCS.I_r, self.q)*self.qd
-- 
2.43.0


From af44fc77cac626ff0ff711f64bc6c17850eab699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:55 +0000
Subject: [PATCH 062/104] fix: Explicit mode failed or used a matrix for a
 scalar in systems with one joint

---
 pymbs/processing/generator_explicit.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/pymbs/processing/generator_explicit.py b/pymbs/processing/generator_explicit.py
index 2a2c155..b06cb5f 100644
--- a/pymbs/processing/generator_explicit.py
+++ b/pymbs/processing/generator_explicit.py
@@ -205,6 +205,14 @@ class Generator_Explicit(Generator):
             else:
                 Wt = Matrix((n,))
 
+            # Transposed part of a Jacobian Matrix (remains a matrix, even if there is just one joint)
+            def J_T(J, i):
+                JT = Matrix((n,3))
+                for row in range(n):
+                    for col in range(3):
+                        JT[row,col] = J[i+col,row]
+                return JT
+
             # Parent
             Wf_temp = Matrix((3,3))
             Wft_temp = Matrix((3,3))
@@ -221,8 +229,8 @@ class Generator_Explicit(Generator):
                     Wft_temp = skew(cs.p - body.cg)*transpose(body.I_R)*Rref*fel.Wf
                     Wt_temp = transpose(body.I_R)*Rref*fel.Wt
 
-                Wf += transpose(J1[i:i+3,:])*Wf_temp + transpose(J2[i:i+3,:])*Wft_temp
-                Wt += transpose(J2[i:i+3,:])*Wt_temp
+                Wf += J_T(J1,i)*Wf_temp + J_T(J2,i)*Wft_temp
+                Wt += J_T(J2,i)*Wt_temp
 
             # Child
             Wf_temp = Matrix((3,3))
@@ -241,8 +249,8 @@ class Generator_Explicit(Generator):
                         Wft_temp = skew(cs.p - body.cg)*transpose(body.I_R)*Rref*fel.Wf
                         Wt_temp = transpose(body.I_R)*Rref*fel.Wt
 
-                    Wf -= transpose(J1[i:i+3,:])*Wf_temp + transpose(J2[i:i+3,:])*Wft_temp
-                    Wt -= transpose(J2[i:i+3,:])*Wt_temp
+                    Wf -= J_T(J1,i)*Wf_temp + J_T(J2,i)*Wft_temp
+                    Wt -= J_T(J2,i)*Wt_temp
 
             # Simplify Them
             print("Simplifying Load-Distribution Matrices")
@@ -252,10 +260,10 @@ class Generator_Explicit(Generator):
             # Add Them to the List
             if (fel.force is not None):
                 Wf_sym = graph.addEquation('WF_%s' % fel.name, Wf)
-                f_ext += Wf_sym * fel.force
+                f_ext += scalar_if_possible(Wf_sym * fel.force)
             if (fel.torque is not None):
                 Wt_sym = graph.addEquation('WT_%s' % fel.name, Wt)
-                f_ext += Wt_sym * fel.torque
+                f_ext += scalar_if_possible(Wt_sym * fel.torque)
 
         print("Simplifying M")
         M_red = simple(M_red)
@@ -288,7 +296,7 @@ class Generator_Explicit(Generator):
             h_ = graph.addEquation('h_', scalar_if_possible(h_red))
             f_gravity_ = graph.addEquation('f_gravity_', scalar_if_possible(f_red))
 
-        if (f_ext==0):
+        if ((f_ext==0) and (f_gravity_.shape() != tuple())):
             f_ext = Matrix( f_gravity_.shape() )
 
         f_ext_ = graph.addEquation('f_ext_', scalar_if_possible(f_ext))
-- 
2.43.0


From 393554e628b143e010c50a9630978116e082fa17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:57 +0000
Subject: [PATCH 063/104] fix: constraint torque sensors counted the moment of
 the external forces twice

---
 pymbs/processing/generator_recursive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymbs/processing/generator_recursive.py b/pymbs/processing/generator_recursive.py
index 612938b..ec3e61b 100644
--- a/pymbs/processing/generator_recursive.py
+++ b/pymbs/processing/generator_recursive.py
@@ -536,7 +536,7 @@ class Generator_Recursive(Generator):
 
             F_b += body.mass*(body._I_l_ddot+self.inertial._alpha_C)-body._F_ext   # (24), self.inertial._alpha_C = -g, see p.189 below (10)
             body._F = graph.addEquation(F%bName, F_b, shape=(3,))
-            L_b += body._l_tilde*body._F + \
+            L_b += body._l_tilde*(body._F+body._F_ext) + \
                    body.inertia*body.I_al + \
                    body._I_om_tilde*body.inertia*body.I_om - \
                    body._L_ext   # (26)
-- 
2.43.0


From 713a53aaf714dcfbd07431486e2b94e09ed36523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:57 +0000
Subject: [PATCH 064/104] fix: a load whose two ends are the same coordinate
 system was applied twice

---
 pymbs/processing/loads/load.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pymbs/processing/loads/load.py b/pymbs/processing/loads/load.py
index 0389726..1a2ddd0 100644
--- a/pymbs/processing/loads/load.py
+++ b/pymbs/processing/loads/load.py
@@ -41,9 +41,11 @@ class Load(MbsElement):
         self.ref = ref
 
         # Connect to Parent and Child Coordinate System
-        parent.loads.append(self)
-        if (child is not None):
-            child.loads.append(self)
+        # (force and reaction force cancel if both are the same)
+        if (child is not parent):
+            parent.loads.append(self)
+            if (child is not None):
+                child.loads.append(self)
 
 
     def calc(self, graph = None, states = None):
-- 
2.43.0


From 01563e71f92578a03a12336aa7014adeedad5a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:39 +0000
Subject: [PATCH 065/104] fix: velocities and accelerations of the CrankSlider
 loop did not belong to its positions; numerical lengths and swapped
 coordinate systems failed

---
 pymbs/processing/loops/crank_slider.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pymbs/processing/loops/crank_slider.py b/pymbs/processing/loops/crank_slider.py
index 1ff23e6..80a6fa1 100644
--- a/pymbs/processing/loops/crank_slider.py
+++ b/pymbs/processing/loops/crank_slider.py
@@ -61,7 +61,7 @@ class CrankSlider(Loop):
         if j2.coordSys.parentBody.joint is None:
             j1 = csBb.parentBody.joint
             j2 = csBa.parentBody.joint
-            j3 = j1.coordSys.parentBody.joint
+            j3 = j2.coordSys.parentBody.joint
             csB1 = csBb
             csB2 = csBa
         else:
@@ -221,11 +221,11 @@ class CrankSlider(Loop):
         # Length of bars
         l1_vec = self.csB1.p
         l1_vec2 = self.pick*l1_vec
-        l1 = graph.addEquation(L1 % self.name, sqrt((transpose(l1_vec2)*l1_vec2)[0]))
+        l1 = graph.addEquation(L1 % self.name, sqrt((transpose(l1_vec2)*l1_vec2)))
 
         l2_vec = self.csB2.p
         l2_vec2 = self.pick*l2_vec
-        l2 = graph.addEquation(L2 % self.name, sqrt((transpose(l2_vec2)*l2_vec2)[0]))
+        l2 = graph.addEquation(L2 % self.name, sqrt((transpose(l2_vec2)*l2_vec2)))
 
         # Calculate v
         alpha = graph.addEquation(AL % self.name, asin((l1/l2)*sin(q1)))
@@ -235,9 +235,9 @@ class CrankSlider(Loop):
 
         alphad = q3d
 
-        Bvu = Matrix([[-l1*sin(alpha+q1)/cos(alpha)], [l1*cos(q1)/(l2*cos(alpha))]])
+        Bvu = Matrix([[-l1*sin(q1-alpha)/cos(alpha)], [l1*cos(q1)/(l2*cos(alpha))]])
 
-        b_prime = Matrix([-l1*q1d*(2*alphad*cos(q1)+q1d*cos(q1)+q1d*cos(2*alpha+q1))/(2*cos(alpha)*cos(alpha)),
+        b_prime = Matrix([-l1*q1d*(q1d*cos(q1)+q1d*cos(q1-2*alpha)-2*alphad*cos(q1))/(2*cos(alpha)*cos(alpha)),
                           (-l1*q1d*q1d*cos(alpha)*sin(q1)+l1*alphad*q1d*cos(q1)*sin(alpha))/(l2*cos(alpha)*cos(alpha))])
 
         return ([v0, v1], Bvu, b_prime)
-- 
2.43.0


From b6b37e97ff1896f78001da8b477643b70c40ef65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:38 +0000
Subject: [PATCH 066/104] fix: CrankSlider accepted mechanisms whose loop it
 does not close

---
 pymbs/processing/loops/crank_slider.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pymbs/processing/loops/crank_slider.py b/pymbs/processing/loops/crank_slider.py
index 80a6fa1..af2eb45 100644
--- a/pymbs/processing/loops/crank_slider.py
+++ b/pymbs/processing/loops/crank_slider.py
@@ -162,6 +162,20 @@ class CrankSlider(Loop):
 
         assert j1.coordSys.p.norm() == 0
 
+        # Is this the geometry of the sketch? Joints of slider and rod without offset
+        # and bars along the positive axis of the slider
+        assert (j3.coordSys.R - eye(3)) == zeros(3)
+        assert j3.coordSys.p.norm() == 0
+        for i in range(3):
+            if j1.Phi[i] == 0:
+                assert j2.coordSys.p[i] == 0
+                if j3.Psi[i] == 0:
+                    assert csB1.p[i] == 0
+                    assert csB2.p[i] == 0
+                else:
+                    for p in (csB1.p[i], csB2.p[i]):
+                        assert not isinstance(p, (int, float)) or p > 0
+
         # Superclass constructor
         Loop.__init__(self, name)
 
-- 
2.43.0


From 4f98a8776e054f245362957433c2654913a28ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:38 +0000
Subject: [PATCH 067/104] fix: FourBar did not close loops whose bars are
 shifted along the axis of rotation

---
 pymbs/processing/loops/fourbar.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pymbs/processing/loops/fourbar.py b/pymbs/processing/loops/fourbar.py
index 62b58d3..f9f0692 100644
--- a/pymbs/processing/loops/fourbar.py
+++ b/pymbs/processing/loops/fourbar.py
@@ -176,22 +176,22 @@ class FourBar(Loop):
         # Length of bars and angle between x-axis and bar
         l1_vec = self.jD.coordSys.p - self.jA.coordSys.p
         l1_vec2 = self.pick*l1_vec
-        l1 = graph.addEquation(L1%self.name, sqrt((transpose(l1_vec)*l1_vec)))
+        l1 = graph.addEquation(L1%self.name, sqrt((transpose(l1_vec2)*l1_vec2)))
         alpha = graph.addEquation(AL%self.name, s*atan2(l1_vec2[1],l1_vec2[0]))
 
         l2_vec = self.jB.coordSys.p
         l2_vec2 = self.pick*l2_vec
-        l2 = graph.addEquation(L2%self.name, sqrt((transpose(l2_vec)*l2_vec)))
+        l2 = graph.addEquation(L2%self.name, sqrt((transpose(l2_vec2)*l2_vec2)))
         beta = graph.addEquation(BE%self.name, s*atan2(l2_vec2[1],l2_vec2[0]))
 
         l3_vec = self.csC3.p
         l3_vec2 = self.pick*l3_vec
-        l3 = graph.addEquation(L3%self.name, sqrt((transpose(l3_vec)*l3_vec)))
+        l3 = graph.addEquation(L3%self.name, sqrt((transpose(l3_vec2)*l3_vec2)))
         gamma = graph.addEquation(GA%self.name, s*atan2(l3_vec2[1],l3_vec2[0]))
 
         l4_vec = self.csC4.p
         l4_vec2 = self.pick*l4_vec
-        l4 = graph.addEquation(L4%self.name, sqrt((transpose(l4_vec)*l4_vec)))
+        l4 = graph.addEquation(L4%self.name, sqrt((transpose(l4_vec2)*l4_vec2)))
         delta = graph.addEquation(DE%self.name, s*atan2(l4_vec2[1],l4_vec2[0]))
 
         # angle between bars
-- 
2.43.0


From 0d7b4e108787ec5f5418cba45fffe9db6f8e4656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:23 +0000
Subject: [PATCH 068/104] fix: FourBar, ThreeBarTrans and FourBarTrans had no
 solution where bars are aligned, FourBar none for kites

---
 pymbs/processing/loops/fourbar.py        | 6 ++++--
 pymbs/processing/loops/fourbar_trans.py  | 2 +-
 pymbs/processing/loops/threebar_trans.py | 2 +-
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/pymbs/processing/loops/fourbar.py b/pymbs/processing/loops/fourbar.py
index f9f0692..133415f 100644
--- a/pymbs/processing/loops/fourbar.py
+++ b/pymbs/processing/loops/fourbar.py
@@ -208,8 +208,10 @@ class FourBar(Loop):
         P6 = graph.addEquation(F%self.name, l2**2+l1**2-l4**2+l3**2-2*l2*l1*cos(-phi_prime))
 
         # Calculate v
-        theta_prime = graph.addEquation(THETA%self.name, 2*atan((P5-self.posture*sqrt(P4**2+P5**2-P6**2))/(P4-P6)))
-        psi_prime = graph.addEquation(PSI%self.name, ((l2*sin(phi_prime)+l3*sin(phi_prime+theta_prime))/abs(l2*sin(phi_prime)+l3*sin(phi_prime+theta_prime)))*acos((l2*cos(phi_prime)+l3*cos(phi_prime+theta_prime)-l1)/l4))
+        # Solve D*cos(theta') + E*sin(theta') + F = 0
+        P7 = self.posture*sqrt(P4**2+P5**2-P6**2)
+        theta_prime = graph.addEquation(THETA%self.name, atan2(-P5*P6-P4*P7, P5*P7-P4*P6))
+        psi_prime = graph.addEquation(PSI%self.name, atan2(l2*sin(phi_prime)+l3*sin(phi_prime+theta_prime), l2*cos(phi_prime)+l3*cos(phi_prime+theta_prime)-l1))
 
         v1 = (psi_prime + alpha - delta)
         v0 = (theta_prime + beta - gamma)
diff --git a/pymbs/processing/loops/fourbar_trans.py b/pymbs/processing/loops/fourbar_trans.py
index e9f322b..505a0ff 100644
--- a/pymbs/processing/loops/fourbar_trans.py
+++ b/pymbs/processing/loops/fourbar_trans.py
@@ -232,7 +232,7 @@ class FourBarTrans(Loop):
         P2 = graph.addEquation(B%self.name, -2*l2*l4*sin(phi_prime))
         P3 = graph.addEquation(C%self.name, l1**2+l2**2-l3**2+l4**2-2*l1*l2*cos(phi_prime))
 
-        psi_prime = graph.addEquation(PSI%self.name, ((l2*sin(phi_prime)+l3*sin(phi_prime+theta_prime))/abs(l2*sin(phi_prime)+l3*sin(phi_prime+theta_prime)))*acos((l2*cos(phi_prime)+l3*cos(phi_prime+theta_prime)-l1)/l4))
+        psi_prime = graph.addEquation(PSI%self.name, atan2(l2*sin(phi_prime)+l3*sin(phi_prime+theta_prime), l2*cos(phi_prime)+l3*cos(phi_prime+theta_prime)-l1))
 
         v1 = (psi_prime + alpha - delta)
         v0 = (l4)
diff --git a/pymbs/processing/loops/threebar_trans.py b/pymbs/processing/loops/threebar_trans.py
index 9271fc4..b79dc1b 100644
--- a/pymbs/processing/loops/threebar_trans.py
+++ b/pymbs/processing/loops/threebar_trans.py
@@ -207,7 +207,7 @@ class ThreeBarTrans(Loop):
 
         # Calculate v
         l3 = graph.addEquation(L3%self.name, sqrt(l1**2+l2**2-2*l1*l2*cos(phi_prime)))
-        psi_prime = graph.addEquation(PSI%self.name, pi-sin(phi_prime)/abs(sin(phi_prime))*acos((l1**2+l3**2-l2**2)/(2*l1*l3)))
+        psi_prime = graph.addEquation(PSI%self.name, pi-atan2(l2*sin(phi_prime), l1-l2*cos(phi_prime)))
 
 
         # TODO: qsi_prime, psi
-- 
2.43.0


From cc1005d172592c517b66b0d5ced09f4c459e84bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:48 +0000
Subject: [PATCH 069/104] fix: documentation of Transmission had the relation
 of the coordinates the wrong way round

---
 pymbs/input/mbs_system.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymbs/input/mbs_system.py b/pymbs/input/mbs_system.py
index 30b3000..5677b72 100644
--- a/pymbs/input/mbs_system.py
+++ b/pymbs/input/mbs_system.py
@@ -2677,7 +2677,7 @@ class AddLoop(object):
         '''
         The transmission loop introduces a relation between two joints, such
         that their joint coordinates q1 and q2 are related by the following
-        equation: j1 = *ratio* \* v2;
+        equation: q2 = *ratio* \* q1;
         This can either be used to synchronise joints or to create a fixed
         joint by choosing *ratio* =0.
 
-- 
2.43.0


From 54f9ea1069533c0db416f662e2a567b303ad43cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:45 +0000
Subject: [PATCH 070/104] fix: bodies connected by fixed joints got a wrong
 inertia, centre of gravity and position

---
 pymbs/input/transformation.py | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/pymbs/input/transformation.py b/pymbs/input/transformation.py
index d3d859f..897dec1 100644
--- a/pymbs/input/transformation.py
+++ b/pymbs/input/transformation.py
@@ -658,11 +658,8 @@ def redefineCS(cs, body, p, R):
     # still point to the old coordinate system
     cs.parent = body
 
-    # change cg if it is a body (which was connected to a fixed joint)
-    # TODO: Check that
-    if (cs.__class__ is iBody):
-        cs.cg = R*cs.cg + cs.p
-        cs.inertia = transpose(R)*cs.inertia*R
+    # If it is a body (which was connected to a fixed joint), then its cg and
+    # inertia are still defined w.r.t. itself, see applyFixedJoints
 
 
 def updateChildCS(new_Body, p_bif, R_bif):
@@ -704,7 +701,7 @@ def applyFixedJoints(iBody, stage):
 
 
                 # 4. Update Information of Child and Child's Body
-                body.p = -child.p
+                body.p = -(transpose(child.R)*child.p)
                 body.R = transpose(child.R)
                 body.children.remove(child)
                 body.coordList.remove(child)
@@ -734,11 +731,24 @@ def applyFixedJoints(iBody, stage):
                 # Remove Child Body from List
                 del iBody.bodyDict[child.oldName]
 
+                # The world does not have a mass
+                if (parent is iBody):
+                    continue
+
+                # Properties of Child Body w.r.t. Parent Body
+                child_cg = child.p + child.R*child.cg
+                child_inertia = child.R*child.inertia*transpose(child.R)
+
                 # Calculate new Properties of Combined Body
-                m = parent.mass + child.mass;
-                cg = (parent.mass*parent.cg + child.mass*child.cg) / m;
-                # Inertia
-                inertia = parent.inertia + child.inertia + child.mass*transpose(skew(child.cg))*skew(child.cg)
+                m = parent.mass + child.mass
+                if isinstance(m, (int, float)) and (m == 0):
+                    cg = parent.cg
+                else:
+                    cg = (parent.mass*parent.cg + child.mass*child_cg) / m
+                # Inertia w.r.t. the Common cg
+                inertia = parent.inertia + child_inertia
+                for mass, r in ((parent.mass, parent.cg - cg), (child.mass, child_cg - cg)):
+                    inertia = inertia + mass*transpose(skew(r))*skew(r)
 
                 # save new values
                 parent.mass = m
-- 
2.43.0


From fd0b6738e3a6b4dc3263802f3b286ae6e07d084b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:45 +0000
Subject: [PATCH 071/104] fix: Explicit mode could not generate models with
 kinematicsOnly

---
 pymbs/processing/generator_explicit.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/pymbs/processing/generator_explicit.py b/pymbs/processing/generator_explicit.py
index b06cb5f..49ca6e4 100644
--- a/pymbs/processing/generator_explicit.py
+++ b/pymbs/processing/generator_explicit.py
@@ -41,7 +41,9 @@ class Generator_Explicit(Generator):
                 sens.calc(graph)
 
         if (self.kinematicsOnly):
-            self.handleLoops(graph)
+            if (len(self.loops) > 0):
+                self.handleLoops(graph)
+            self.defineStates(graph)
         else:
             # Obtain Equations
             print(self.q, self.q.__class__)
@@ -56,6 +58,23 @@ class Generator_Explicit(Generator):
         return True
 
 
+    def defineStates(self, graph):
+        '''
+        Define States, if there are no equations of motion (kinematicsOnly)
+        '''
+
+        # The accelerations are inputs
+        q = graph.addVariable(name='q', shape=self.reduce_shape( self.q.shape() ), initialValue=scalar_if_possible(self.q0) )
+        qd = graph.addVariable(name='qd', shape=self.reduce_shape( self.qd.shape() ), initialValue=scalar_if_possible(self.qd0) )
+        qdd = graph.addVariable(name='qdd', shape=self.reduce_shape( self.qdd.shape() ), varKind=VarKind.Input)
+        graph.addEquation(self.state.q, q)
+        graph.addEquation(self.state.qd, qd)
+        graph.addEquation(self.state.qdd, qdd)
+
+        graph.addEquation(der(q), qd)
+        graph.addEquation(der(qd), qdd)
+
+
     def calcBodyStates(self, graph):
         '''
         Calculates All Positions w.r.t. Inertial Frame
-- 
2.43.0


From 65fa166ec208e4845394b3a6f56e1807b2a1cc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:28 +0000
Subject: [PATCH 072/104] fix: OrderN mode refused frames named like a body
 attached to the same body

---
 pymbs/processing/generator_order_n.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pymbs/processing/generator_order_n.py b/pymbs/processing/generator_order_n.py
index 5936cac..6abc5e0 100644
--- a/pymbs/processing/generator_order_n.py
+++ b/pymbs/processing/generator_order_n.py
@@ -13,6 +13,7 @@ from pymbs.processing import Body, FlexibleBody
 import pymbs.symbolics as sym
 
 
+T3 = 'int_T_rel_%s_%s'
 BETA_STAR = 'int_beta_star_%s'
 RR = 'int_RR_%s_%s'
 A_STAR = 'int_a_star_%s'
@@ -206,7 +207,7 @@ class Generator_OrderN(Generator):
                 T_cs = cs.I_R
                 T_j = graph.addEquation(T1%jName, joint.R)
                 body.I_R = graph.addEquation(T1%bName, T_cs*T_j, shape=(3,3))
-                body._R = graph.addEquation(T2%(pName,bName), transpose(cs.R*T_j))
+                body._R = graph.addEquation(T3%(pName,bName), transpose(cs.R*T_j))
 
                 p_z_p_b = graph.addEquation(p_z%(pName,bName), cs.p+cs.R*joint.Psi*joint.q, shape=(3,))
                 body._p_z = p_z_p_b
@@ -274,7 +275,7 @@ class Generator_OrderN(Generator):
                 T_cs = cs.I_R
                 T_j = graph.addEquation(T1%jName, joint.R)
                 body.I_R = graph.addEquation(T1%bName, T_cs*T_j, shape=(3,3))
-                body._R = graph.addEquation(T2%(pName,bName), transpose(cs.R*T_j))
+                body._R = graph.addEquation(T3%(pName,bName), transpose(cs.R*T_j))
 
                 p_z_p_b = graph.addEquation(p_z%(pName,bName), cs.p+cs.R*joint.Psi*joint.q, shape=(3,))
                 body._p_z = p_z_p_b
-- 
2.43.0


From 3461d2de029bc7a02c898b3059bc7354013ea851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:48 +0000
Subject: [PATCH 073/104] fix: sizes of visualisation objects could not be
 parameters

---
 pymbs/input/mbs_system.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymbs/input/mbs_system.py b/pymbs/input/mbs_system.py
index 5677b72..5c849a2 100644
--- a/pymbs/input/mbs_system.py
+++ b/pymbs/input/mbs_system.py
@@ -1709,8 +1709,8 @@ class MbsSystem(Body):
             except ValueError:
                 raise ValueError("unknown Symbol")
 
-            # Shape==(0,0) represents a scalar symbol
-            if shape == (0, 0):
+            # an empty shape represents a scalar symbol
+            if shape == ():
                 return True
 
             else:
-- 
2.43.0


From d5572168485f94bee0cb5e1b4dde74c69d68f225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:48 +0000
Subject: [PATCH 074/104] fix: C wrappers of models without sensors, graphics
 or set inputs, or with controllers could not be used

---
 symbolics/writer/CWriter.cpp | 41 +++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/symbolics/writer/CWriter.cpp b/symbolics/writer/CWriter.cpp
index f301d95..837dfa7 100644
--- a/symbolics/writer/CWriter.cpp
+++ b/symbolics/writer/CWriter.cpp
@@ -551,14 +551,14 @@ double CWriter::generatePymbsWrapper(Graph::Graph& g)
     { // Da wir in C momentan mit echten Vektoren arbeiten m�ssen wir hier unser eigenes zero bauen... (eigentlich geht das nicht wegen initVal - TODO!)
 		//f << "           '" << p.print(*it) << "' : " << p.print(g.getinitVal(*it)) 
         //  << ",   " << p.comment2(g,*it) << std::endl;
-        f << "           '" << p.print(*it) << "' : zeros(";
+        f << "           '" << p.print(*it) << "' : ";
         if ((*it)->is_Scalar()) 
-			f << "1";
+			f << "0.0";
 		else if ((*it)->is_Vector()) 
-			f << (*it)->getShape().getNumEl();
+			f << "zeros(" << (*it)->getShape().getNumEl() << ")";
 		else
-			f << "(" << (*it)->getShape().getDimension(1) << "," << (*it)->getShape().getDimension(2) << ")";
-		f << "),   " << p.comment2(g,*it) << std::endl;
+			f << "zeros((" << (*it)->getShape().getDimension(1) << "," << (*it)->getShape().getDimension(2) << "))";
+        f << ",   " << p.comment2(g,*it) << std::endl;
     }
 	f << "          }" << std::endl;        
 	f << std::endl;
@@ -569,6 +569,8 @@ double CWriter::generatePymbsWrapper(Graph::Graph& g)
 	f << "def ode_int(t, y):" << std::endl;
 	f << "    global _inputs" << std::endl;
 	f << std::endl;
+    if (!controller.empty())
+        f << "    sensors = " << (sensors.empty() ? "{}" : "graphSensors(t, y)") << std::endl;
     for (Graph::VariableVec::iterator it=controller.begin();it!=controller.end();++it)
 	{
         std::string comment_tmp = m_p->comment2(g,*it);
@@ -600,6 +602,7 @@ double CWriter::generatePymbsWrapper(Graph::Graph& g)
     // Inputs Vector sortieren: 
 	std::sort(vis_inputs.begin(),vis_inputs.end(), sortVariableVec);
 
+    if (!sens_vis.empty()) {
     filename= m_path + "/" + m_name + "_visual_CWrapper.py";
     f.open(filename.c_str());
 
@@ -633,14 +636,14 @@ double CWriter::generatePymbsWrapper(Graph::Graph& g)
 	f << "_inputs = {" << std::endl;
 	for (Graph::VariableVec::iterator it=vis_inputs.begin();it!=vis_inputs.end();++it)
     {
-        f << "           '" << p.print(*it) << "' : zeros(";
+        f << "           '" << p.print(*it) << "' : ";
         if ((*it)->is_Scalar()) 
-			f << "1";
+			f << "0.0";
 		else if ((*it)->is_Vector()) 
-			f << (*it)->getShape().getNumEl();
+			f << "zeros(" << (*it)->getShape().getNumEl() << ")";
 		else
-			f << "(" << (*it)->getShape().getDimension(1) << "," << (*it)->getShape().getDimension(2) << ")";
-		f << "),   " << p.comment2(g,*it) << std::endl;
+			f << "zeros((" << (*it)->getShape().getDimension(1) << "," << (*it)->getShape().getDimension(2) << "))";
+        f << ",   " << p.comment2(g,*it) << std::endl;
     }
 	f << "          }" << std::endl;        
 	f << std::endl;
@@ -684,7 +687,15 @@ double CWriter::generatePymbsWrapper(Graph::Graph& g)
     if (p.getErrorcount())
         std::cerr << "There have been " << p.getErrorcount(true) << " error(s) during generation of " 
                   << m_name << "_visual_CWrapper.py. Please have a look at that file to see where the error(s) occured." << std::endl;
+    }
+    else
+        std::cerr << "Warning: CWriter: Not generating visual wrapper file, since there are no visual sensors." << std::endl;
+
 
+    if (sensors.empty()) {
+        std::cerr << "Warning: CWriter: Not generating sensors wrapper file, since there are no sensors." << std::endl;
+        return Util::getTime() - t1;
+    }
 
     Graph::VariableVec sens_inputs = g.getAssignments(SENSOR)->getVariables(INPUT);
     // Inputs Vector sortieren: 
@@ -726,14 +737,14 @@ double CWriter::generatePymbsWrapper(Graph::Graph& g)
     { // Da wir in C momentan mit echten Vektoren arbeiten m�ssen wir hier unser eigenes zero bauen... (eigentlich geht das nicht wegen initVal - TODO!)
 		//f << "           '" << p.print(*it) << "' : " << p.print(g.getinitVal(*it)) 
         //  << ",   " << p.comment2(g,*it) << std::endl;
-        f << "           '" << p.print(*it) << "' : zeros(";
+        f << "           '" << p.print(*it) << "' : ";
         if ((*it)->is_Scalar()) 
-			f << "1";
+			f << "0.0";
 		else if ((*it)->is_Vector()) 
-			f << (*it)->getShape().getNumEl();
+			f << "zeros(" << (*it)->getShape().getNumEl() << ")";
 		else
-			f << "(" << (*it)->getShape().getDimension(1) << "," << (*it)->getShape().getDimension(2) << ")";
-		f << "),   " << p.comment2(g,*it) << std::endl;
+			f << "zeros((" << (*it)->getShape().getDimension(1) << "," << (*it)->getShape().getDimension(2) << "))";
+        f << ",   " << p.comment2(g,*it) << std::endl;
     }
 	f << "          }" << std::endl;        
 	f << std::endl;
-- 
2.43.0


From 870eb3af779855c3eab902b85f1fbbf33b52b42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:48 +0000
Subject: [PATCH 075/104] fix: Fortran wrappers could not be imported with
 current SciPy or without graphics

---
 symbolics/writer/FortranWriter.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/symbolics/writer/FortranWriter.cpp b/symbolics/writer/FortranWriter.cpp
index 581b700..9b19499 100644
--- a/symbolics/writer/FortranWriter.cpp
+++ b/symbolics/writer/FortranWriter.cpp
@@ -534,7 +534,7 @@ double FortranWriter::generatePymbsWrapper(Graph::Graph& g)
 
 	f << "# " << getHeaderLine() << std::endl;
 	f << std::endl;
-	f << "from scipy import matrix, zeros" << std::endl;
+	f << "from numpy import matrix, zeros" << std::endl;
 	f << "from " << m_name << "_der_state_compiledF90 import " << m_name_lower << "_der_state" << std::endl;
 	f << std::endl;
     f << "# inputs" << std::endl;
@@ -570,12 +570,13 @@ double FortranWriter::generatePymbsWrapper(Graph::Graph& g)
     // Inputs Vector sortieren: 
 	std::sort(vis_inputs.begin(),vis_inputs.end(), sortVariableVec);
 
+    if (!sens_vis.empty()) {
     filename= m_path + "/" + m_name + "_visual_F90Wrapper.py";
     f.open(filename.c_str());
 
 	f << "# " << getHeaderLine() << std::endl;
 	f << std::endl;
-	f << "from scipy import matrix, zeros" << std::endl;
+	f << "from numpy import matrix, zeros" << std::endl;
 	f << "from " << m_name << "_visual_compiledF90 import " << m_name_lower << "_visual" << std::endl;
 
     f << "# inputs" << std::endl;
@@ -611,6 +612,9 @@ double FortranWriter::generatePymbsWrapper(Graph::Graph& g)
     if (p.getErrorcount())
         std::cerr << "There have been " << p.getErrorcount(true) << " error(s) during generation of " 
                   << m_name << "_visual_F90Wrapper.py. Please have a look at that file to see where the error(s) occured." << std::endl;
+    }
+    else
+        std::cerr << "Warning: FortranWriter: Not generating visual wrapper file, since there are no visual sensors." << std::endl;
 
 
     Graph::VariableVec sensor = g.getAssignments(SENSOR)->getVariables(SENSOR);
@@ -631,7 +635,7 @@ double FortranWriter::generatePymbsWrapper(Graph::Graph& g)
 
 	f << "# " << getHeaderLine() << std::endl;
 	f << std::endl;
-	f << "from scipy import matrix, zeros" << std::endl;
+	f << "from numpy import matrix, zeros" << std::endl;
 	f << "from " << m_name << "_sensors_compiledF90 import " << m_name_lower << "_sensors" << std::endl;
     f << std::endl;
     f << "# inputs" << std::endl;
-- 
2.43.0


From 2b802eddc1f7f55ee50936a1f04d6afb228a7f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:15 +0000
Subject: [PATCH 076/104] fix: a symbol too large for the memory crashed the
 interpreter

---
 symbolics/Symbol.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/symbolics/Symbol.cpp b/symbolics/Symbol.cpp
index ab3c5fc..e78d0cf 100644
--- a/symbolics/Symbol.cpp
+++ b/symbolics/Symbol.cpp
@@ -5,6 +5,7 @@
 #include "Int.h"
 #include "Matrix.h"
 #include "Element.h"
+#include <new>
 #include <stdlib.h>
 
 using namespace Symbolics;
@@ -26,6 +27,8 @@ Basic(Type_Symbol,shape), m_name(name), m_kind(category)
 {
   m_statekind=ALL;
   m_state = static_cast<size_t*>(calloc(m_shape.getNumEl(),sizeof(size_t)));
+  if (m_state == NULL)
+    throw std::bad_alloc();
   m_state[0] = NO_STATE;
 #ifdef _DEBUG
     if (symbol_names.find(name) != symbol_names.end())
@@ -44,6 +47,8 @@ Basic(Type_Symbol), m_name(name), m_kind(category)
 {
   m_statekind=ALL;
   m_state = static_cast<size_t*>(calloc(m_shape.getNumEl(),sizeof(size_t)));
+  if (m_state == NULL)
+    throw std::bad_alloc();
   m_state[0] = NO_STATE;
 #ifdef _DEBUG
     if (symbol_names.find(name) != symbol_names.end())
-- 
2.43.0


From 4d85e6b0c6911dca2113fccf00dcf74469ddb78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:47 +0000
Subject: [PATCH 077/104] fix: Matlab simulation script looked for the sensors
 among the quantities of the derivatives

---
 symbolics/writer/MatlabWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolics/writer/MatlabWriter.cpp b/symbolics/writer/MatlabWriter.cpp
index 796c5ab..22e44c5 100644
--- a/symbolics/writer/MatlabWriter.cpp
+++ b/symbolics/writer/MatlabWriter.cpp
@@ -72,7 +72,7 @@ double MatlabWriter::generateBasicSim(Graph::Graph& g)
 
 	Graph::AssignmentsPtr a = g.getAssignments(DER_STATE);
 
-	Graph::VariableVec sensors = a->getVariables(SENSOR);
+	Graph::VariableVec sensors = g.getAssignments(SENSOR)->getVariables(SENSOR);
 	Graph::VariableVec states = a->getVariables(STATE);
 	if (states.empty())
 		throw InternalError("System without States, Feature is not yet Implemented in Matlab");
-- 
2.43.0


From ed6efc69e3a711b2ea6736071f94d9de1f7cd6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:14 +0000
Subject: [PATCH 078/104] fix: Matlab code addressed the states as if all had
 the size of the one at hand

---
 symbolics/writer/MatlabWriter.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/symbolics/writer/MatlabWriter.cpp b/symbolics/writer/MatlabWriter.cpp
index 22e44c5..f4a8100 100644
--- a/symbolics/writer/MatlabWriter.cpp
+++ b/symbolics/writer/MatlabWriter.cpp
@@ -175,11 +175,12 @@ double MatlabWriter::generateDerState(Graph::Graph& g)
 	f << "function yd = "<< m_name <<"_der_state(time, y)" << std::endl;
 
 	f << "% State" << std::endl;
+	std::vector<size_t> offsets = getStateOffsets(g, states);
 	for (Graph::VariableVec::size_type i = 0; i < states.size() ; ++i)
 	{
 		f << "	" << m_p->print(states.at(i)) << " = y("
-		  << str(states.at(i)->getShape().getDimension(1) * i + 1) << ":" 
-		  << str(states.at(i)->getShape().getDimension(1) * (i+1)) << ");" 
+		  << str(offsets[i] + 1) << ":" 
+		  << str(offsets[i] + states.at(i)->getShape().getNumEl()) << ");" 
 		  << std::endl;
 	}
 	f << std::endl;
@@ -365,12 +366,13 @@ double MatlabWriter::generateSensors(Graph::Graph& g)
 	f << std::endl;
 	f << "% State" << std::endl;
 
+	std::vector<size_t> offsets = getStateOffsets(g, states);
 	for (Graph::VariableVec::size_type i = 0; i < states.size() ; ++i)
 	{
 		const Symbolics::BasicPtr s = states.at(i);
 		f << "	" << m_p->print(s) << " = y("
-		  << str(s->getShape().getDimension(1) * i + 1) << ":" 
-		  << str(s->getShape().getDimension(1) * (i+1)) << ");" 
+		  << str(offsets[i] + 1) << ":" 
+		  << str(offsets[i] + s->getShape().getNumEl()) << ");" 
 		  << std::endl;
 	}
 
-- 
2.43.0


From a78703488a0dcfff323d7fea49a80a842854c90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:49 +0000
Subject: [PATCH 079/104] fix: only the first line of a matrix was commented
 out in symbolic Matlab code

---
 symbolics/writer/MatlabWriter.cpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/symbolics/writer/MatlabWriter.cpp b/symbolics/writer/MatlabWriter.cpp
index f4a8100..a2dc0f8 100644
--- a/symbolics/writer/MatlabWriter.cpp
+++ b/symbolics/writer/MatlabWriter.cpp
@@ -7,6 +7,22 @@
 
 using namespace Symbolics;
 
+/*****************************************************************************/
+// matrices are printed in several lines, each of which has to be commented out
+static std::string asComment(std::string const& text)
+/*****************************************************************************/
+{
+    std::string result;
+    for (std::string::const_iterator it=text.begin(); it!=text.end(); ++it)
+    {
+        result += *it;
+        if (*it == '\n')
+            result += "	%";
+    }
+    return result;
+}
+/*****************************************************************************/
+
 /*****************************************************************************/
 MatlabWriter::MatlabWriter( std::map<std::string, std::string> &kwds ) : Writer(false)
 /*****************************************************************************/
@@ -264,14 +280,14 @@ double MatlabWriter::generateSymDerState(Graph::Graph& g)
 	f << "% Parameters" << std::endl;
 	for (Graph::VariableVec::iterator it=parameter.begin();it!=parameter.end();++it) {
 		f << "	" << m_p->print(*it) << " = sym ('" << m_p->print(*it) << "'" << m_p->dimension(*it) << ")" << m_p->comment2(g,*it) << std::endl;
-		f << "	%" << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << ";" << std::endl;
+		f << "	%" << m_p->print(*it) << " = " << asComment(m_p->print(g.getEquation(*it))) << ";" << std::endl;
 	}
 	f << std::endl;
 
 	f << "% Constants" << std::endl;
 	for (Graph::VariableVec::iterator it=constants.begin();it!=constants.end();++it) {
 		f << "	" << m_p->print(*it) << " = sym ('" << m_p->print(*it) << "'" << m_p->dimension(*it) << ")" << m_p->comment2(g,*it) << std::endl;
-        f << "	% " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << ";" << std::endl;
+        f << "	% " << m_p->print(*it) << " = " << asComment(m_p->print(g.getEquation(*it))) << ";" << std::endl;
 	}
 	f << std::endl;
 
@@ -459,14 +475,14 @@ double MatlabWriter::generateSymSensors(Graph::Graph& g)
 	f << "% Parameters" << std::endl;
 	for (Graph::VariableVec::iterator it=parameter.begin();it!=parameter.end();++it) {
 		f << "	" << m_p->print(*it) << " = sym ('" << m_p->print(*it) << "'" << m_p->dimension(*it) << ")" << m_p->comment2(g,*it) << std::endl;
-		f << "	%" << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << ";" << std::endl;
+		f << "	%" << m_p->print(*it) << " = " << asComment(m_p->print(g.getEquation(*it))) << ";" << std::endl;
 	}
 	f << std::endl;
 
 	f << "% Constants" << std::endl;
 	for (Graph::VariableVec::iterator it=constants.begin();it!=constants.end();++it) {
 		f << "	" << m_p->print(*it) << " = sym ('" << m_p->print(*it) << "'" << m_p->dimension(*it) << ")" << m_p->comment2(g,*it) << std::endl;
-        f << "	% " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << ";" << std::endl;
+        f << "	% " << m_p->print(*it) << " = " << asComment(m_p->print(g.getEquation(*it))) << ";" << std::endl;
 	}
 	f << std::endl;
 
-- 
2.43.0


From 91c94e54bc6da5fa8009327c6b37622e0db3d19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:40 +0000
Subject: [PATCH 080/104] fix: Modelica knows no negative powers of matrices

---
 symbolics/printer/ModelicaPrinter.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/symbolics/printer/ModelicaPrinter.cpp b/symbolics/printer/ModelicaPrinter.cpp
index 29d233a..ea09ba8 100644
--- a/symbolics/printer/ModelicaPrinter.cpp
+++ b/symbolics/printer/ModelicaPrinter.cpp
@@ -83,6 +83,13 @@ std::string ModelicaPrinter::print_Pow( const Pow *pow )
 /*****************************************************************************/
 {
     if (pow == NULL) throw InternalError("ModelicaPrinter: Pow is NULL");
+    // matrices can only be raised to non-negative integers
+    int n = 0;
+    if (!pow->getBase()->is_Scalar() && Util::is_Int(pow->getExponent(), n) && (n < 0))
+    {
+        std::string inv = "Modelica.Math.Matrices.inv(" + print(pow->getBase()) + ")";
+        return (n == -1) ? inv : "(" + inv + "^" + str(-n) + ")";
+    }
     return "(" + print(pow->getBase()) + "^" + print(pow->getExponent()) + ")";
 }
 /*****************************************************************************/
-- 
2.43.0


From 75a400739ec88ba1980fea006d50d8260bea3077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:40 +0000
Subject: [PATCH 081/104] fix: Modelica constants were declared with their
 dimensions twice

---
 symbolics/writer/ModelicaWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolics/writer/ModelicaWriter.cpp b/symbolics/writer/ModelicaWriter.cpp
index 04bb019..1a9b712 100644
--- a/symbolics/writer/ModelicaWriter.cpp
+++ b/symbolics/writer/ModelicaWriter.cpp
@@ -123,7 +123,7 @@ double ModelicaWriter::generateTarget_Impl(Graph::Graph &g)
   f << "//Constants" << std::endl;
   for (Graph::VariableVec::iterator ii=constants.begin();ii!=constants.end();++ii)
   {
-    f << "   constant Real" <<  p.dimension(*ii) << " " <<  p.dimension(*ii) << (*ii)->getName() << " = " << p.print(g.getEquation(*ii)) << p.comment2(g,*ii) <<  ";" << std::endl;
+    f << "   constant Real" <<  p.dimension(*ii) << " " << (*ii)->getName() << " = " << p.print(g.getEquation(*ii)) << p.comment2(g,*ii) <<  ";" << std::endl;
   }
   f << "//Variables" << std::endl;
   for (Graph::VariableVec::iterator ii=variables.begin();ii!=variables.end();++ii)
-- 
2.43.0


From aa983d2d7a737dd00c861a0e4cf842c0af3e0afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:46 +0000
Subject: [PATCH 082/104] fix: symbolic Matlab sensors were computed in
 arbitrary order, whatever they depend upon

---
 symbolics/writer/MatlabWriter.cpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/symbolics/writer/MatlabWriter.cpp b/symbolics/writer/MatlabWriter.cpp
index a2dc0f8..9351934 100644
--- a/symbolics/writer/MatlabWriter.cpp
+++ b/symbolics/writer/MatlabWriter.cpp
@@ -486,13 +486,9 @@ double MatlabWriter::generateSymSensors(Graph::Graph& g)
 	}
 	f << std::endl;
 
-	f << "% Equations" << std::endl;
-	f << writeEquations(a->getEquations(PARAMETER | CONSTANT | INPUT | SENSOR )) << std::endl;
-
-	f << "% Sensors" << std::endl;
-    for (Graph::VariableVec::iterator it=sensors.begin();it!=sensors.end();++it)
-        f << "	" << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << " " << m_p->comment2(g,*it) << std::endl;
-	f << std::endl;
+	// in the order of the assignments, since sensors may depend upon each other
+	f << "% Equations and Sensors" << std::endl;
+	f << writeEquations(a->getEquations(PARAMETER | CONSTANT | INPUT )) << std::endl;
 
 	f << "% Struct including sensor-values" << std::endl;
 	for (Graph::VariableVec::iterator it=sensors.begin();it!=sensors.end();++it)
-- 
2.43.0


From 0c8eaa8ae432b57e73949255c4d1ae4fef29131e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:13 +0000
Subject: [PATCH 083/104] fix: Modelica models lacked the equations of elements
 which nothing else needs

---
 symbolics/graph/Graph.cpp           | 31 ++++++++++++++++++++++++++++-
 symbolics/graph/include/Graph.h     |  3 ++-
 symbolics/writer/ModelicaWriter.cpp |  2 +-
 3 files changed, 33 insertions(+), 3 deletions(-)

diff --git a/symbolics/graph/Graph.cpp b/symbolics/graph/Graph.cpp
index 5afc589..ba6644c 100644
--- a/symbolics/graph/Graph.cpp
+++ b/symbolics/graph/Graph.cpp
@@ -87,7 +87,7 @@ void Symbolics::Graph::Graph::makeScalar()
 
 /*****************************************************************************/
 Symbolics::Graph::AssignmentsPtr Symbolics::Graph::Graph::getAssignments(Category_Type inc,
-  Category_Type exclude)
+  Category_Type exclude, bool wholeVariables)
 /*****************************************************************************/
 {
   // get required nodes
@@ -105,6 +105,35 @@ Symbolics::Graph::AssignmentsPtr Symbolics::Graph::Graph::getAssignments(Categor
       }
     }
   }
+  // remaining elements of variables which are computed element by element
+  if (wholeVariables)
+  {
+    std::set<SymbolPtr> partial;
+    for (size_t k=0;k<reqnodes.size();)
+    {
+      for (;k<reqnodes.size();++k)
+      {
+        SymbolPtrElemMap &solved = reqnodes[k]->getSolveFor();
+        for (SymbolPtrElemMap::iterator ii=solved.begin();ii!=solved.end();++ii)
+          if (ii->second.kind != ALL)
+            partial.insert(ii->first);
+      }
+      for (size_t i=0;i<m_nodes.size();++i)
+      {
+        if (m_nodes[i]->visited || (m_nodes[i]->get_Category() & exclude))
+          continue;
+        SymbolPtrElemMap &solved = m_nodes[i]->getSolveFor();
+        for (SymbolPtrElemMap::iterator ii=solved.begin();ii!=solved.end();++ii)
+        {
+          if (partial.find(ii->first) != partial.end())
+          {
+            Node::node_iterate_depth_first(m_nodes[i],v);
+            break;
+          }
+        }
+      }
+    }
+  }
   // reset visited
   for (size_t i=0;i<m_nodes.size();++i)
   {
diff --git a/symbolics/graph/include/Graph.h b/symbolics/graph/include/Graph.h
index e1e873b..2581718 100644
--- a/symbolics/graph/include/Graph.h
+++ b/symbolics/graph/include/Graph.h
@@ -43,7 +43,8 @@ namespace Symbolics
             double buildGraph(bool optimize);
 
             // getsolved System
-            AssignmentsPtr getAssignments(Category_Type inc, Category_Type exclude=0x00);
+            // wholeVariables: include all elements of a variable, even if only some of them are required
+            AssignmentsPtr getAssignments(Category_Type inc, Category_Type exclude=0x00, bool wholeVariables=false);
 
             // getSymbol
             // throws: VarUnknownError
diff --git a/symbolics/writer/ModelicaWriter.cpp b/symbolics/writer/ModelicaWriter.cpp
index 1a9b712..581a745 100644
--- a/symbolics/writer/ModelicaWriter.cpp
+++ b/symbolics/writer/ModelicaWriter.cpp
@@ -49,7 +49,7 @@ double ModelicaWriter::generateTarget_Impl(Graph::Graph &g)
 
   //f.close();
   double t1 = Util::getTime();
-  Graph::AssignmentsPtr a = g.getAssignments(DER_STATE | SENSOR | SENSOR_VISUAL);
+  Graph::AssignmentsPtr a = g.getAssignments(DER_STATE | SENSOR | SENSOR_VISUAL, 0x00, true);
 
   Graph::VariableVec states = a->getVariables(STATE);
   Graph::VariableVec variables = a->getVariables(VARIABLE);
-- 
2.43.0


From 2787f3a4c3ba380eda0bdebf23fb07ad1f9d088a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:46 +0000
Subject: [PATCH 084/104] fix: visual files of Modelica models could not be
 written

---
 pymbs/input/mbs_system.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/pymbs/input/mbs_system.py b/pymbs/input/mbs_system.py
index 5c849a2..e988698 100644
--- a/pymbs/input/mbs_system.py
+++ b/pymbs/input/mbs_system.py
@@ -3146,28 +3146,28 @@ class GenCode(object):
             f.write('  import SI = Modelica.SIunits;\n')
 
             # this is the list of graphRep objects:
-            grList = list(self.world.graphRepDict.values())
+            repList = list(self.world.graphRepDict.values())
 
             x=-80
             y=-100
             size=20
             i=0
-            for gr in grList:
+            for rep in repList:
                 f.write('  Modelica.Mechanics.MultiBody.Visualizers.Advanced.Shape shape%s(\n'%i)
-                f.write('    r=%s[:, 1],\n'%gr.r)
-                f.write('    R=Modelica.Mechanics.MultiBody.Frames.Orientation(T=transpose(%s), w={0,0,0}),\n'%gr.T)
-                if (isinstance(gr,gr.Cylinder)):
+                f.write('    r=%s[:, 1],\n'%rep.r[0])
+                f.write('    R=Modelica.Mechanics.MultiBody.Frames.Orientation(T=transpose(%s), w={0,0,0}),\n'%rep.T[0])
+                if (isinstance(rep,gr.Cylinder)):
                     f.write('    shapeType="cylinder",\n')
-                    f.write('    height=%s,\n'%gr.radius)
-                    f.write('    length=%s,\n'%gr.l)
-                    f.write('    width=%s,\n'%gr.radius)
-                elif (isinstance(gr,gr.Sphere)):
+                    f.write('    height=%s,\n'%rep.radius)
+                    f.write('    length=%s,\n'%rep.l)
+                    f.write('    width=%s,\n'%rep.radius)
+                elif (isinstance(rep,gr.Sphere)):
                     f.write('    shapeType="sphere",\n')
-                    f.write('    height=%s,\n'%gr.radius)
-                    f.write('    length=%s,\n'%gr.radius)
-                    f.write('    width=%s,\n'%gr.radius)
+                    f.write('    height=%s,\n'%rep.radius)
+                    f.write('    length=%s,\n'%rep.radius)
+                    f.write('    width=%s,\n'%rep.radius)
                 else:
-                    print('Failed to generate Visualisationfile for %s'%gr.__class__)
+                    print('Failed to generate Visualisationfile for %s'%rep.__class__)
                     return
                 f.write('    lengthDirection={0,1,0},\n')
                 f.write('    widthDirection={0,0,1})\n')
@@ -3182,6 +3182,7 @@ class GenCode(object):
             f.write('    annotation (Placement(transformation(extent={{-100,-100},{-80,-80}})));\n')
 
             f.write('end %s;\n'%genVisualFile)
+            f.close()
 
         return trafo.genCode(self.world, "mo", modelname, dirname,
                 inputsAsInputs=inputsAsInputs, **kwargs)
-- 
2.43.0


From f4d618fa62616940c3a2e72c59687a61535a03a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:23 +0000
Subject: [PATCH 085/104] fix: scalar() of a negated scalar left a conversion
 behind which Fortran refuses

---
 symbolics/functions/Scalar.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/symbolics/functions/Scalar.cpp b/symbolics/functions/Scalar.cpp
index 5e3fe7e..9443037 100644
--- a/symbolics/functions/Scalar.cpp
+++ b/symbolics/functions/Scalar.cpp
@@ -105,6 +105,10 @@ BasicPtr Scalar::New(BasicPtr const& arg)
     if (arg->getShape().getNumEl() != 1)
         throw ShapeError("Scalar - Argument must be (1,1) but is " + arg->getShape().toString() + "!");
 
+    // nothing to do for scalars
+    if (arg->is_Scalar())
+        return arg;
+
     // if constant move sign into value
     switch (arg->getType())
     {
-- 
2.43.0


From d77b567062ddf604f7f88bcf2812ce1728690a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:14 +0000
Subject: [PATCH 086/104] fix: optimisation moved the solution of a linear
 system into expressions in which not every language can solve it

---
 symbolics/graph/PastOptimisation.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/symbolics/graph/PastOptimisation.cpp b/symbolics/graph/PastOptimisation.cpp
index 710b420..0e8467b 100644
--- a/symbolics/graph/PastOptimisation.cpp
+++ b/symbolics/graph/PastOptimisation.cpp
@@ -97,6 +97,9 @@ void PastOptimisation::NodeOptimizer::process_Node(NodePtr p)
             return;
           }
         }
+        // not every language can solve linear systems within expressions
+        if (exp->getType() == Type_Solve)
+          return;
         Basic::BasicSet atoms = exp->getAtoms();
         //double t2 = Graph::Util::getTime() - t1;
         //removed = removed>t2?removed:t2;
-- 
2.43.0


From c44316579264b6c434bb63479f59987fc824eeb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:36 +0000
Subject: [PATCH 087/104] fix: Fortran multiplied matrices with scalars between
 them element by element

---
 symbolics/printer/FortranPrinter.cpp | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/symbolics/printer/FortranPrinter.cpp b/symbolics/printer/FortranPrinter.cpp
index bebbe44..dc0e2c1 100644
--- a/symbolics/printer/FortranPrinter.cpp
+++ b/symbolics/printer/FortranPrinter.cpp
@@ -46,18 +46,33 @@ std::string FortranPrinter::print_Mul( const Mul *mul )
 	std::string s="(", t="";
     size_t n = mul->getArgsSize();
     bool includes_matmul = false;
+
+    // matrices have to be neighbours: scalars between them are moved behind them
+    BasicPtrVec args, behind;
+    bool matrices = false;
+    for (size_t i=0; i<n; ++i)
+    {
+        BasicPtr arg = mul->getArg(i);
+        matrices = matrices || !arg->is_Scalar();
+        if (matrices && arg->is_Scalar())
+            behind.push_back(arg);
+        else
+            args.push_back(arg);
+    }
+    args.insert(args.end(), behind.begin(), behind.end());
+
     for (size_t i=0; i<n-1; ++i)
     {
-		if (!mul->getArg(i)->is_Scalar() && !mul->getArg(i+1)->is_Scalar()) {
-			s += "matmul(" + print(mul->getArg(i)) + ",";
+		if (!args[i]->is_Scalar() && !args[i+1]->is_Scalar()) {
+			s += "matmul(" + print(args[i]) + ",";
 			t += ")";
 			includes_matmul = true;
 		} else {
-			s+= print(mul->getArg(i)) + t + "*";
+			s+= print(args[i]) + t + "*";
 			t="";
 		}
     }
-    s += print(mul->getArg(n-1)) + t + ")";
+    s += print(args[n-1]) + t + ")";
 	if (includes_matmul && mul->is_Scalar()) //TODO: was ist mit (1,1) Matrizen? 
 		s = "scalar" + s; //keine Klammern n�tig, diese sollten schon da sein
     return s;
-- 
2.43.0


From b76ef5bca614619858920fbbc03401b46f8e6c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:08 +0000
Subject: [PATCH 088/104] fix: C and C# output changed the model, code for
 other languages written afterwards was wrong

---
 symbolics/writer/Writer.cpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/symbolics/writer/Writer.cpp b/symbolics/writer/Writer.cpp
index 18ada88..6ca9013 100644
--- a/symbolics/writer/Writer.cpp
+++ b/symbolics/writer/Writer.cpp
@@ -30,21 +30,25 @@ Writer::~Writer()
 double Writer::generateTarget(std::string name, std::string path, Graph::Graph& g, bool optimize)
 /*****************************************************************************/
 {
-    // make scalar = 
-    if (m_scalar)
-    {
-        g.makeScalar();
-
-        // build equations
-        g.buildGraph(optimize);
-    }
-
     for (std::string::iterator it = path.begin(); it != path.end(); ++it) //Backslashs in slashs wandeln.
         if (*it=='\\') 
             *it='/';
     m_path = path;
 
     m_name = name;
+
+    // make scalar = 
+    if (m_scalar)
+    {
+        // other targets need the graph as it is. Both share their symbols,
+        // so optimisations, which substitute symbols, are not possible.
+        Graph::Graph scalar(g);
+        scalar.makeScalar();
+
+        // build equations
+        scalar.buildGraph(false);
+        return generateTarget_Impl(scalar);
+    }
     // 
     return generateTarget_Impl(g);
 }
-- 
2.43.0


From 463efc339eb357564b6ce783e362e8979811b5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:35 +0000
Subject: [PATCH 089/104] fix: parameters were accepted although their value
 contradicts their sign

---
 pymbs/input/mbs_system.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pymbs/input/mbs_system.py b/pymbs/input/mbs_system.py
index e988698..00ba415 100644
--- a/pymbs/input/mbs_system.py
+++ b/pymbs/input/mbs_system.py
@@ -806,11 +806,11 @@ class MbsSystem(Body):
                 raise AttributeError('Parameter "%s" cannot be positive and negative at the same time'%name)
 
             if ((positive==True) and (defaultValue < 0)):
-                raise AttributeError('Parameter "%s" cannot be positive, if a default ' + \
-                                     'value of %f has been specified!'%(name,defaultValue))
+                raise AttributeError(('Parameter "%s" cannot be positive, if a default ' + \
+                                     'value of %f has been specified!')%(name,defaultValue))
             if ((negative==True) and (defaultValue > 0)):
-                raise AttributeError('Parameter "%s" cannot be negative, if a default ' + \
-                                     'value of %f has been specified!'%(name,defaultValue))
+                raise AttributeError(('Parameter "%s" cannot be negative, if a default ' + \
+                                     'value of %f has been specified!')%(name,defaultValue))
         except TypeError:
             pass
 
-- 
2.43.0


From 06413b4bc67839b2dc628d951269665234c55859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:35 +0000
Subject: [PATCH 090/104] fix: addJoint removed the last element from the list
 of movements of its caller

---
 pymbs/input/mbs_system.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymbs/input/mbs_system.py b/pymbs/input/mbs_system.py
index 00ba415..e6ccd4e 100644
--- a/pymbs/input/mbs_system.py
+++ b/pymbs/input/mbs_system.py
@@ -373,6 +373,8 @@ class MbsSystem(Body):
             dofList = []
         assert isinstance(dofList, list)
         assert 0 <= len(dofList) <=6
+        # the list belongs to the model author
+        dofList = list(dofList)
 
         if startVals is None:
             startVals=[0 for dof in dofList]
-- 
2.43.0


From 7ef6b48dd0aff691093ba289ce4079d5f9d351e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:35 +0000
Subject: [PATCH 091/104] fix: refused joints left dummy bodies and joints
 behind

---
 pymbs/input/mbs_system.py | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/pymbs/input/mbs_system.py b/pymbs/input/mbs_system.py
index e6ccd4e..7e1447c 100644
--- a/pymbs/input/mbs_system.py
+++ b/pymbs/input/mbs_system.py
@@ -394,6 +394,9 @@ class MbsSystem(Body):
         assert len(startVals) == len(dofList), 'Invalid startValue parameter for %s' % name
         assert len(startVals_d) == len(dofList)
 
+        # refuse before any dummy body is created
+        self._checkJoint(CS1, CS2)
+
 
         elemJointList = []
 
@@ -474,6 +477,21 @@ class MbsSystem(Body):
             return elemJointList
 
 
+    def _checkJoint(self, CS1, CS2):
+        """
+        test whether there already ends a joint on the parent Body of CS2
+        """
+        parentBody1 = CS1.getParentBody()
+        parentBody2 = CS2.getParentBody()
+
+        assert not parentBody1 == parentBody2
+
+        endingJoint = parentBody2.endOfJoint
+        if endingJoint is not None:
+            raise ValueError("Body '%s` is already the target body of joint '%s`" \
+                % ( parentBody2, endingJoint))
+
+
     def _addElementaryJoint(self, CS1, CS2, dof, \
                                 startVal=None, startVal_d=None, \
                                 name=None):
@@ -494,18 +512,9 @@ class MbsSystem(Body):
         assert isinstance(startVal_d, (type(None), int, float, symbolics.Symbol))
 
 
-        # test whether there already ends a joint on the parent Body of CS2
-        parentBody1 = CS1.getParentBody()
+        self._checkJoint(CS1, CS2)
         parentBody2 = CS2.getParentBody()
 
-        assert not parentBody1 == parentBody2
-
-        endingJoint = parentBody2.endOfJoint
-        if endingJoint is not None:
-            raise ValueError("Body '%s` is already the target body of joint '%s`" \
-                % ( parentBody2, endingJoint))
-
-
         J = Joint(name, CS1, CS2, dof, startVal, startVal_d)
 
         # TODO: add joint sensors (distance, angle)
-- 
2.43.0


From 8cb27b853291f4218f7ce8d66250b42662d1720a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:19 +0000
Subject: [PATCH 092/104] fix: a second simulation of one name repeated the
 model of the first one

---
 pymbs/input/mbs_system.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pymbs/input/mbs_system.py b/pymbs/input/mbs_system.py
index 7e1447c..e1ffeb4 100644
--- a/pymbs/input/mbs_system.py
+++ b/pymbs/input/mbs_system.py
@@ -44,6 +44,7 @@ In the following the members of the module pymbs.Input are explained in more
 detail.
 '''
 
+import shutil
 import sys
 import tempfile
 
@@ -1856,10 +1857,16 @@ class MbsSystem(Body):
         if modelname is None:
             modelname = 'pymbsModel'
 
+        # directory of its own and no modules of an earlier simulation, which
+        # would be used otherwise, if it has got the same name
+        tempdir = tempfile.mkdtemp()
+        for suffix in ('der_state', 'sensors'):
+            sys.modules.pop('%s_%s'%(modelname, suffix), None)
+
         _Graph = self.graph
-        _Graph.writeCode('py', modelname, tempfile.gettempdir())
+        _Graph.writeCode('py', modelname, tempdir)
 
-        sys.path.insert(0, tempfile.gettempdir())
+        sys.path.insert(0, tempdir)
 
         try:
             der_state_file = __import__('%s_der_state'%modelname, globals(),
@@ -1871,6 +1878,9 @@ class MbsSystem(Body):
                 "wrong during code generation.\n%s" \
                 % (modelname,sys.exc_info()), file=sys.stderr)
             return
+        finally:
+            sys.path.remove(tempdir)
+            shutil.rmtree(tempdir, ignore_errors=True)
 
         qd0 = list(np.zeros(len(q0)))
         integrator = Integrator(mod_der_state, q0, qd0)
-- 
2.43.0


From 9416431eff5776e0b4ace29966d2490b063d4e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:23 +0000
Subject: [PATCH 093/104] fix: a refused frame was added to its body
 nevertheless

---
 pymbs/input/frame.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymbs/input/frame.py b/pymbs/input/frame.py
index 2ecf962..885cf15 100644
--- a/pymbs/input/frame.py
+++ b/pymbs/input/frame.py
@@ -31,12 +31,13 @@ class Frame(AbstractFrame, MbsInputElement):
         :param p: Position vector of coordinate origin
         :param R: Rotation matrix
         """
+        assert not hasattr(self, name), f'name {name} already occupied'
+
         cs = Frame(name, self, p, R)
         self.children.append(cs)
         self.coordList.append(cs)
 
         # add to object namespace
-        assert not hasattr(self, name), f'name {name} already occupied'
         self._frames[name] = cs
 
         return cs
-- 
2.43.0


From 4dd4a9fa46bd34da96203b91fbb8adbc265db17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:42 +0000
Subject: [PATCH 094/104] fix: joint loads replaced loads of the same name

---
 pymbs/input/mbs_system.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pymbs/input/mbs_system.py b/pymbs/input/mbs_system.py
index e1ffeb4..daa44d9 100644
--- a/pymbs/input/mbs_system.py
+++ b/pymbs/input/mbs_system.py
@@ -903,6 +903,9 @@ class MbsSystem(Body):
             name = self._getName('load')
 
         self._checkName(name)
+        if name in self.loadDict:
+            raise ValueError('Force name %s already exists'\
+                                                        % name)
         assert isinstance(thejoint, Joint),\
             "The passed joint object has the wrong type: %s" % type(thejoint)
 
-- 
2.43.0


From 1aa978836025ea48c3bfbaa5c1f01e05981fde52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:12 +0000
Subject: [PATCH 095/104] fix: a variable refused for its initial value blocked
 its name

---
 symbolics/graph/EquationSystem.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/symbolics/graph/EquationSystem.cpp b/symbolics/graph/EquationSystem.cpp
index 980d556..2ae18fd 100644
--- a/symbolics/graph/EquationSystem.cpp
+++ b/symbolics/graph/EquationSystem.cpp
@@ -46,25 +46,26 @@ BasicPtr EquationSystem::addSymbol_Internal( SymbolPtr const& s,
   StringSymbolMap::iterator ii = m_SymbolMap.find(s->getName());
   if (ii != m_SymbolMap.end())
     return ii->second;
-  // add
-  m_SymbolMap[s->getName()] = s;
-
+  // check the initial value, before anything is added
+  BasicPtr init;
   if (initalValue == NULL)
   {
-    m_symbolsvaluemap[s] = Zero::getExactZero(s->getShape());
+    init = BasicPtr(Zero::getExactZero(s->getShape()));
   }
   else
   {
     if (s->getShape() != initalValue->getShape())
       throw ShapeError("Could not use Initvalue " + initalValue->toString() + " for Symbol " + s->toString() + "!");
-    BasicPtr init = BasicPtr(initalValue->simplify());
+    init = BasicPtr(initalValue->simplify());
     InitValueScanner sc;
     init->scanExp(sc);
     if (sc.variable)
       throw InitalValueError("Initvalue is not constant: " + init->toString() + "!");
-    m_symbolsvaluemap[s] = init;
   }
 
+  // add
+  m_SymbolMap[s->getName()] = s;
+  m_symbolsvaluemap[s] = init;
   m_symbolscommentmap[s] = comment;
 
   switch( s->getKind())
-- 
2.43.0


From e3afab8ae6c6b016a0a208260bb9f8479c46efe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:29 +0000
Subject: [PATCH 096/104] fix: parts of vectors that an expression needs as a
 whole were not computed before

---
 symbolics/graph/Equation.cpp | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/symbolics/graph/Equation.cpp b/symbolics/graph/Equation.cpp
index c237dc0..4972e71 100644
--- a/symbolics/graph/Equation.cpp
+++ b/symbolics/graph/Equation.cpp
@@ -359,20 +359,17 @@ bool Equation::DerivativeScanner::process_Arg(BasicPtr const &p, bool &stop)
     inder = false;
     return false;
   }
-  /*
-   DoTo: bei Element(MatrixSymbol*VectorSymbol) geht das hier schief
-   Eine L�sung w�re erst die Element exp zu elementarisieren (hoffnung auf Element(Matrix)) 
-  */
   else if (p->getType() == Type_Element)
   {
-    if (inelement)
-      throw InternalError("Error: element(element(exp)) is not supported!");
     const Element *e= Util::getAsConstPtr<Element>(p);
+    // only the element of a symbol needs nothing but this element
+    bool outer = inelement;
+    inelement = (e->getArg(0)->getType() == Type_Symbol) ||
+      ((e->getArg(0)->getType() == Type_Der) && (e->getArg(0)->getArg(0)->getType() == Type_Symbol));
     dim1 = e->getRow();
     dim2 = e->getCol();
-    inelement = true;
     p->getArg(0)->scanExp(*this);
-    inelement = false;
+    inelement = outer;
     return false;
   }
   else if (p->getType() == Type_Symbol)
@@ -414,6 +411,12 @@ bool Equation::DerivativeScanner::process_Arg(BasicPtr const &p, bool &stop)
       SymbolPtrElemSizeTMap::iterator ii = atoms.find(sp);
       if (ii != atoms.end())
       {
+        if (ii->second.kind == SEVERAL)
+        {
+          // all elements are needed, not only those found before
+          ii->second.kind = ALL;
+          ii->second.counter += ii->second.elements.size();
+        }
         ii->second.counter++;
       }
       else
@@ -443,14 +446,15 @@ bool Equation::SymbolScanner::process_Arg(BasicPtr const &p, bool &stop)
   }
   else if (p->getType() == Type_Element)
   {
-    if (inelement)
-      throw InternalError("Error: element(element(exp)) is not supported!");
     const Element *e= Util::getAsConstPtr<Element>(p);
+    // only the element of a symbol needs nothing but this element
+    bool outer = inelement;
+    inelement = (e->getArg(0)->getType() == Type_Symbol) ||
+      ((e->getArg(0)->getType() == Type_Der) && (e->getArg(0)->getArg(0)->getType() == Type_Symbol));
     dim1 = e->getRow();
     dim2 = e->getCol();
-    inelement = true;
     p->getArg(0)->scanExp(*this);
-    inelement = false;
+    inelement = outer;
     return false;
   }
   else if (p->getType() == Type_Symbol)
-- 
2.43.0


From 1e21d5c589533ac58fba19a81fcfe1eb7a969e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:57 +0000
Subject: [PATCH 097/104] fix: refused loads and visualisations left symbols
 and sensors behind

---
 pymbs/input/mbs_system.py | 44 +++++++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 16 deletions(-)

diff --git a/pymbs/input/mbs_system.py b/pymbs/input/mbs_system.py
index daa44d9..f374510 100644
--- a/pymbs/input/mbs_system.py
+++ b/pymbs/input/mbs_system.py
@@ -852,16 +852,22 @@ class MbsSystem(Body):
         if isinstance(CSref, Body):
             CSref = CSref._CS_0
         if isinstance(loadSymb, list):
-            loadSymb = self.addExpression(symbol_str=name+'_load', exp=symbolics.Matrix(loadSymb))
+            loadExpr = symbolics.Matrix(loadSymb)
+        else:
+            loadExpr = loadSymb
 
 
         assert CS1.__class__ == Frame
         assert CS2.__class__ == Frame, "CS2 should be a Frame but is a '%s' with '%s'"%(str(CS2.__class__), str(CS2))
 
-        assert isinstance(loadSymb, symbolics.Symbol)
+        assert isinstance(loadSymb, (list, symbolics.Symbol))
         assert CSref.__class__ in  (Frame, type(None))
 
 
+        if name in self.loadDict:
+            raise ValueError('Force name %s already exists'\
+                                                        % name)
+
         if typeString not in ['PtPForce', 'CmpForce', 'CmpTorque']:
             raise ValueError("Invalid force type specifier: %s"\
                                                     % typeString)
@@ -870,22 +876,23 @@ class MbsSystem(Body):
             # CSref does not make sense in PtP-case
             assert CSref is None
             #assert loadExpr.shape == (1,1)
-            assert len(loadSymb.shape()) == 0
+            assert len(loadExpr.shape()) == 0
+        else:
+            assert loadExpr.shape() == (3,) , "Shape %s is wrong for %s"%(loadExpr.shape(),name)
+
+        # new symbol for the values of a list, everything else has been checked
+        if isinstance(loadSymb, list):
+            loadSymb = self.addExpression(symbol_str=name+'_load', exp=loadExpr)
+
+        if typeString == "PtPForce":
             loadObject=PtPForce(name, CS1, CS2, loadSymb)
 
         elif typeString == "CmpForce":
-            assert loadSymb.shape() == (3,) , "Shape %s is wrong for %s"%(loadSymb.shape(),name)
             loadObject=CmpForce(name, CS1, CS2, loadSymb, CSref)
 
         elif typeString == "CmpTorque":
-            assert loadSymb.shape() == (3,), "Shape must be (3,) but it is %s"%str(loadSymb.shape)
             loadObject=CmpTorque(name, CS1, CS2, loadSymb, CSref)
 
-
-        if name in self.loadDict:
-            raise ValueError('Force name %s already exists'\
-                                                        % name)
-
         self.loadDict[name]=loadObject
 
         # return nothing
@@ -909,17 +916,17 @@ class MbsSystem(Body):
         assert isinstance(thejoint, Joint),\
             "The passed joint object has the wrong type: %s" % type(thejoint)
 
-        # Falls wir fuer die JointLoad einen Ausdruck aber kein Symbol erhalten,
-        # dann neue temporaere Variable anlegen
-        if (isinstance(loadSymb, symbolics.Basic) and not isinstance(loadSymb, symbolics.Symbol)):
-            loadSymb = self.addExpression(symbol_str=name+'_load', exp=loadSymb)
-
-        assert isinstance(loadSymb, symbolics.Symbol),\
+        assert isinstance(loadSymb, symbolics.Basic),\
             "loadSymb must be a Symbol, not a %s" % type(loadSymb)
 
         assert thejoint.jointLoad == None,\
             "The passed joint object already has a jointLoad"
 
+        # Falls wir fuer die JointLoad einen Ausdruck aber kein Symbol erhalten,
+        # dann neue temporaere Variable anlegen
+        if (not isinstance(loadSymb, symbolics.Symbol)):
+            loadSymb = self.addExpression(symbol_str=name+'_load', exp=loadSymb)
+
         loadObject = JointLoad(name, thejoint, loadSymb)
         thejoint.jointLoad = loadObject
         self.loadDict[name] = loadObject
@@ -1361,6 +1368,11 @@ class MbsSystem(Body):
                 nodePositions.append(position)
 
 
+        # wrong sizes are refused before any sensors are added
+        if typeString in ('box', 'line', 'coordsys', 'arrow'):
+            for size in args:
+                assert self._isscalar(size), 'sizes must be scalar, not %s' % str(size)
+
         # create empty lists
         sensPos = [None]*len(csList)
         sensOri = [None]*len(csList)
-- 
2.43.0


From 27ba58c6b2950af376bf4fd0782bfa1a8fe86769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:24 +0000
Subject: [PATCH 098/104] fix: parameters with matrices as default values were
 refused

---
 pymbs/input/mbs_system.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/pymbs/input/mbs_system.py b/pymbs/input/mbs_system.py
index f374510..898d9b7 100644
--- a/pymbs/input/mbs_system.py
+++ b/pymbs/input/mbs_system.py
@@ -786,30 +786,35 @@ class MbsSystem(Body):
         # End of <if isinstance(defaultValue, (list, tuple)):>
 
         if isinstance(defaultValue, symbolics.Matrix):
-            nr, nc = defaultValue.shape
+            shape = defaultValue.shape()
 
-            if defaultValue.shape == (3,3):
+            # position of each element
+            if len(shape) == 1:
+                indices = list(range(shape[0]))
+            else:
+                indices = [(a, b) for a in range(shape[0]) for b in range(shape[1])]
+
+            if shape == (3,3):
                 suffixes=["xx", "xy", "xz", "yx", "yy", "yz", "zx", "zy", "zz"]
-            elif defaultValue.shape == (3,1):
+            elif shape in ((3,), (3,1)):
                 suffixes=["x", "y", "z"]
+            elif len(shape) == 1:
+                suffixes=["_%d" % a for a in indices]
             else:
                 # create the crossproduct of the two index-sets:
-                suffixes=["__%d_%d" % (a,b) for a in range(nr) for b in range(nc)]
+                suffixes=["__%d_%d" % idx for idx in indices]
 
 
-            p = symbolics.zeros((nr,nc))
-            defaultValueList = defaultValue[:]# matrix to list
-            for v, suffix, idx in zip(defaultValueList,
-                                         suffixes, list(range(nr*nc))):
+            p = symbolics.Matrix(shape)
+            for suffix, idx in zip(suffixes, indices):
 
                 partName = "%s__%s" % (name, suffix)
                 partSymbolString = "%s_%s" % (symbol_str, suffix)
 
                 # create scalar Parameters for each component
-                # (the matrix p can still be accessed by a single index)
-                p[idx]=self.self.addParam(name=partName, symbol_str=partSymbolString, defaultValue=v)
+                p[idx]=self.addParam(name=partName, symbol_str=partSymbolString, defaultValue=defaultValue[idx])
 
-            # return the 3x3 matrix
+            # return a matrix of the same shape
             return p
         # End of: if isinstance(defaultValue, Symbolics.Matrix):
 
-- 
2.43.0


From 29ef7dabae4d24ec7f41ab77e61740d7144f7184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:02 +0000
Subject: [PATCH 099/104] fix: columns were accepted as positions and centres
 of mass, but not understood

---
 pymbs/common/abstractbody.py  | 4 ++++
 pymbs/common/abstractframe.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pymbs/common/abstractbody.py b/pymbs/common/abstractbody.py
index 12f8a2e..6a8d7ea 100644
--- a/pymbs/common/abstractbody.py
+++ b/pymbs/common/abstractbody.py
@@ -31,6 +31,10 @@ class AbstractBody(MbsElement):
         assert isinstance(inertia, symbolics.Basic) and (inertia.shape() == (3, 3)), \
             f'Inertia - Type {inertia.__class__}, Shape: {inertia.shape()}, Value: {inertia}'
 
+        # columns are vectors
+        if cg.shape() == (3, 1):
+            cg = symbolics.Matrix([cg[i, 0] for i in range(3)])
+
         # Test for symmetric inertia
         if not transpose(inertia) == inertia:
             print(f'Warning (Body "{name}"): Inertia matrix does not seem to be symmetric!')
diff --git a/pymbs/common/abstractframe.py b/pymbs/common/abstractframe.py
index 3046000..2bc85bc 100644
--- a/pymbs/common/abstractframe.py
+++ b/pymbs/common/abstractframe.py
@@ -26,6 +26,10 @@ class AbstractFrame(MbsElement):
         #for el in R:
         #     assert( isinstance(el, Basic) )
 
+        # columns are vectors
+        if p.shape() == (3, 1):
+            p = Matrix([p[i, 0] for i in range(3)])
+
         MbsElement.__init__(self, name, graph)
         self.p = p
         self.R = R
-- 
2.43.0


From 478f0721ffbacfc1fa1e164291d11fc3de9492a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:41 +0000
Subject: [PATCH 100/104] fix: skew_numpy was refused for every column

---
 pymbs/common/functions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pymbs/common/functions.py b/pymbs/common/functions.py
index d830479..176201b 100644
--- a/pymbs/common/functions.py
+++ b/pymbs/common/functions.py
@@ -293,9 +293,9 @@ def skew_numpy(arg):
         v = arg
         assert v.shape == (3, 1)
 
-        return np.matrix([[0, -v[2], v[1]],
-                          [v[2], 0, -v[0]],
-                          [-v[1], v[0], 0]])
+        return np.matrix([[0, -v[2, 0], v[1, 0]],
+                          [v[2, 0], 0, -v[0, 0]],
+                          [-v[1, 0], v[0, 0], 0]])
 
 
 def scalar_if_possible(arg):
-- 
2.43.0


From d72e0fe40c922e97b9a0ec74014e53760852b095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:59 +0000
Subject: [PATCH 101/104] fix: the FMU writer never packed the .fmu file

---
 symbolics/writer/FMUWriter.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/symbolics/writer/FMUWriter.cpp b/symbolics/writer/FMUWriter.cpp
index 19e125c..0d83c95 100644
--- a/symbolics/writer/FMUWriter.cpp
+++ b/symbolics/writer/FMUWriter.cpp
@@ -134,6 +134,7 @@ void FMUWriter::init()
     if ( ! filesystem::exists(path7za))
 		throw InternalError("FMUWriter: 7za could not be found on $PATH. Do "
                 "you have 7-zip installed?");
+    m_7_Zip_app = path7za;
 }
 /*****************************************************************************/
 
@@ -199,7 +200,11 @@ double FMUWriter::generateTarget_Impl(Graph::Graph &g)
 	if (filesystem::exists(fmu_file))
 		throw InternalError("FMUWriter: fmu file \"" + fmu_file + "\" already exists and is not removable");
 
-	std::string cmd = "\"\"" + m_7_Zip_app + "\" a -tzip \"" + fmu_file + "\" \"" + m_path + "/*\"\"";
+	std::string cmd = "\"" + m_7_Zip_app + "\" a -tzip \"" + fmu_file + "\" \"" + m_path + "/*\"";
+	#ifdef _WIN32
+		// cmd.exe removes the outer quotes
+		cmd = "\"" + cmd + "\"";
+	#endif
 	system(cmd.c_str());
 
 
-- 
2.43.0


From a309016571a65c0fef0d31c450f34002ae2960b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:46 +0000
Subject: [PATCH 102/104] fix: FMUs with vectors and matrices as parameters
 were not accepted by the compiler

---
 symbolics/writer/FMUWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolics/writer/FMUWriter.cpp b/symbolics/writer/FMUWriter.cpp
index 0d83c95..73192ce 100644
--- a/symbolics/writer/FMUWriter.cpp
+++ b/symbolics/writer/FMUWriter.cpp
@@ -510,7 +510,7 @@ double FMUWriter::generateModel(Graph::Graph& g)
 		for (size_t i = 0; i < m; ++i)
 			for (size_t j = 0; j < n; ++j)
 				f << "    " << m_p->print(new Element(*it, i, j)) << " = "
-				  << m_p->print(new Element(g.getEquation(*it), i, j)) << ";" << std::endl;
+				  << m_p->print(BasicPtr(new Element(g.getEquation(*it), i, j))->simplify()) << ";" << std::endl;
 	}
 	f << "}" << std::endl;
 	f << std::endl;
-- 
2.43.0


From 82c8867f24e358ee65cb5aae93677d0ed673b814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:06 +0000
Subject: [PATCH 103/104] fix: parameters M and C clashed with the equations of
 motion in FMUs

---
 symbolics/printer/FMUPrinter.cpp | 4 ++--
 symbolics/writer/FMUWriter.cpp   | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/symbolics/printer/FMUPrinter.cpp b/symbolics/printer/FMUPrinter.cpp
index 71fbd31..7d14739 100644
--- a/symbolics/printer/FMUPrinter.cpp
+++ b/symbolics/printer/FMUPrinter.cpp
@@ -30,7 +30,7 @@ std::string FMUPrinter::print_Symbol( const Symbol *symbol )
     if (name == "time")
         return "comp->time";
 	if (m_valueReferencesP->count(name))
-		return "r(" + name + "_)";
+		return "r(" + name + "_vr_)";
 	return name;
 }
 /*****************************************************************************/
@@ -52,7 +52,7 @@ std::string FMUPrinter::print_Element( const Element *e )
 		else
 			name =  s->getName() + "_" + str(e->getRow()) + "_" + str(e->getCol());
 		if (m_valueReferencesP->count(name))
-			return "r(" + name + "_)";
+			return "r(" + name + "_vr_)";
 	}
 
 	if (arg->is_Vector())
diff --git a/symbolics/writer/FMUWriter.cpp b/symbolics/writer/FMUWriter.cpp
index 73192ce..4c3586b 100644
--- a/symbolics/writer/FMUWriter.cpp
+++ b/symbolics/writer/FMUWriter.cpp
@@ -462,11 +462,11 @@ double FMUWriter::generateModel(Graph::Graph& g)
 	f << std::endl;
 	f << "// define all model variables and their value references" << std::endl;
 	f << "// conventions used here:" << std::endl;
-	f << "// - if x is a variable, then macro x_ is its variable reference" << std::endl;
+	f << "// - if x is a variable, then macro x_vr_ is its variable reference" << std::endl;
 	f << "// - the vr of a variable is its index in array  r, i, b or s" << std::endl;
 	f << "// - if k is the vr of a real state, then k+1 is the vr of its derivative" << std::endl;
 	for (std::map<std::string,int>::iterator it = m_valueReferences.begin(); it != m_valueReferences.end(); ++it)
-		f << "#define " << it->first << "_  " << it->second << std::endl;
+		f << "#define " << it->first << "_vr_  " << it->second << std::endl;
 	f << std::endl;
 	f << "// define state vector as vector of value references" << std::endl;
 	f << "#define STATES {";
@@ -477,7 +477,7 @@ double FMUWriter::generateModel(Graph::Graph& g)
 		for (size_t i = 0; i < m; ++i)
 			for (size_t j = 0; j < n; ++j)
 				f << (it==states.begin()&&!i&&!j ? " " : ", ") << (*it)->getName()
-					<< (m>1 ? "_" + str(i) : "") << (n>1 ? "_" + str(j) : "") << "_" ; 
+					<< (m>1 ? "_" + str(i) : "") << (n>1 ? "_" + str(j) : "") << "_vr_" ; 
 	}
 	f<< " }" << std::endl;
 	f << std::endl;
-- 
2.43.0


From a5ba1d14faaf8605bdc0f172462732ae4f603ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:01 +0000
Subject: [PATCH 104/104] fix: names of value references in FMUs stay as they
 were, variables avoid them

---
 symbolics/printer/FMUPrinter.cpp | 7 +++++--
 symbolics/writer/FMUWriter.cpp   | 6 +++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/symbolics/printer/FMUPrinter.cpp b/symbolics/printer/FMUPrinter.cpp
index 7d14739..f51d47b 100644
--- a/symbolics/printer/FMUPrinter.cpp
+++ b/symbolics/printer/FMUPrinter.cpp
@@ -30,7 +30,10 @@ std::string FMUPrinter::print_Symbol( const Symbol *symbol )
     if (name == "time")
         return "comp->time";
 	if (m_valueReferencesP->count(name))
-		return "r(" + name + "_vr_)";
+		return "r(" + name + "_)";
+	// a variable must not have the name of the macro for a value reference
+	if (!name.empty() && *name.rbegin() == '_' && m_valueReferencesP->count(name.substr(0, name.size()-1)))
+		return name + "var";
 	return name;
 }
 /*****************************************************************************/
@@ -52,7 +55,7 @@ std::string FMUPrinter::print_Element( const Element *e )
 		else
 			name =  s->getName() + "_" + str(e->getRow()) + "_" + str(e->getCol());
 		if (m_valueReferencesP->count(name))
-			return "r(" + name + "_vr_)";
+			return "r(" + name + "_)";
 	}
 
 	if (arg->is_Vector())
diff --git a/symbolics/writer/FMUWriter.cpp b/symbolics/writer/FMUWriter.cpp
index 4c3586b..73192ce 100644
--- a/symbolics/writer/FMUWriter.cpp
+++ b/symbolics/writer/FMUWriter.cpp
@@ -462,11 +462,11 @@ double FMUWriter::generateModel(Graph::Graph& g)
 	f << std::endl;
 	f << "// define all model variables and their value references" << std::endl;
 	f << "// conventions used here:" << std::endl;
-	f << "// - if x is a variable, then macro x_vr_ is its variable reference" << std::endl;
+	f << "// - if x is a variable, then macro x_ is its variable reference" << std::endl;
 	f << "// - the vr of a variable is its index in array  r, i, b or s" << std::endl;
 	f << "// - if k is the vr of a real state, then k+1 is the vr of its derivative" << std::endl;
 	for (std::map<std::string,int>::iterator it = m_valueReferences.begin(); it != m_valueReferences.end(); ++it)
-		f << "#define " << it->first << "_vr_  " << it->second << std::endl;
+		f << "#define " << it->first << "_  " << it->second << std::endl;
 	f << std::endl;
 	f << "// define state vector as vector of value references" << std::endl;
 	f << "#define STATES {";
@@ -477,7 +477,7 @@ double FMUWriter::generateModel(Graph::Graph& g)
 		for (size_t i = 0; i < m; ++i)
 			for (size_t j = 0; j < n; ++j)
 				f << (it==states.begin()&&!i&&!j ? " " : ", ") << (*it)->getName()
-					<< (m>1 ? "_" + str(i) : "") << (n>1 ? "_" + str(j) : "") << "_vr_" ; 
+					<< (m>1 ? "_" + str(i) : "") << (n>1 ? "_" + str(j) : "") << "_" ; 
 	}
 	f<< " }" << std::endl;
 	f << std::endl;
-- 
2.43.0

