From 9eeb0e426b3a0dbab9d93f54d67cff9b2c1eed94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:26 +0000
Subject: [PATCH 01/50] fix: stop circuit commands after their options are
 rejected

---
 src/commands/CircuitCommands.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/commands/CircuitCommands.cc b/src/commands/CircuitCommands.cc
index 0c7d982..8eb10fc 100644
--- a/src/commands/CircuitCommands.cc
+++ b/src/commands/CircuitCommands.cc
@@ -381,6 +381,7 @@ circuitNodeAliasCmd(CommandHandler &data)
     if (error)
     {
         data.SetErrorResult(errorString);
+        return;
     }
 
 //    const std::string commandName = data.GetCommandName();
@@ -437,6 +438,7 @@ void circuitGetCircuitNodeListCmd(CommandHandler &data)
     if (error)
     {
         data.SetErrorResult(errorString);
+        return;
     }
 
     NodeKeeper &nk = NodeKeeper::instance();
@@ -478,6 +480,7 @@ void circuitGetCircuitSolutionListCmd (CommandHandler &data)
     if (error)
     {
         data.SetErrorResult(errorString);
+        return;
     }
 
     NodeKeeper &nk = NodeKeeper::instance();
@@ -511,6 +514,7 @@ void circuitGetCircuitNodeValueCmd(CommandHandler &data)
     if (error)
     {
         data.SetErrorResult(errorString);
+        return;
     }
 
 //    const std::string commandName = data.GetCommandName();
@@ -571,6 +575,7 @@ circuitDeleteCircuitCmd(CommandHandler &data)
   if (error)
   {
       data.SetErrorResult(errorString);
+      return;
   }
 
   InstanceKeeper::delete_instance();
@@ -595,6 +600,7 @@ circuitGetCircuitEquationNumberCmd (CommandHandler &data)
   if (error)
   {
       data.SetErrorResult(errorString);
+      return;
   }
 
   // const std::string commandName = data.GetCommandName();
-- 
2.43.0


From 2bf3882ba1ea70c2c901d5c87b01db9212c2ae6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:26 +0000
Subject: [PATCH 02/50] fix: delete_circuit returns a result when it succeeds

---
 src/commands/CircuitCommands.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/commands/CircuitCommands.cc b/src/commands/CircuitCommands.cc
index 8eb10fc..f074737 100644
--- a/src/commands/CircuitCommands.cc
+++ b/src/commands/CircuitCommands.cc
@@ -580,6 +580,8 @@ circuitDeleteCircuitCmd(CommandHandler &data)
 
   InstanceKeeper::delete_instance();
   NodeKeeper::delete_instance();
+
+  data.SetEmptyResult();
 };
 
 void
-- 
2.43.0


From 29695f58159922bc1a468e14b8ddddcd59e35fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:26 +0000
Subject: [PATCH 03/50] fix: get_element_model_list reports an error for a
 dimension without element models

---
 src/commands/ModelCommands.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/commands/ModelCommands.cc b/src/commands/ModelCommands.cc
index a80ba1e..7075030 100644
--- a/src/commands/ModelCommands.cc
+++ b/src/commands/ModelCommands.cc
@@ -1631,6 +1631,13 @@ getNodeModelListCmd(CommandHandler &data)
       const Region::TetrahedronEdgeModelList_t &nml = reg->GetTetrahedronEdgeModelList();
       data.SetStringListResult(GetKeys(nml));
     }
+    else
+    {
+      std::ostringstream os;
+      os << "Command \"" << commandName << "\" is not supported on a device with dimension " << dimension << "\n";
+      errorString += os.str();
+      data.SetErrorResult(errorString);
+    }
   }
 }
 
-- 
2.43.0


From 842bd74ee76d7481c8b61580a11959083b104f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:34 +0000
Subject: [PATCH 04/50] fix: get_equation_numbers names the variable that has
 no equation

---
 src/commands/EquationCommands.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/commands/EquationCommands.cc b/src/commands/EquationCommands.cc
index 9716145..51fa214 100644
--- a/src/commands/EquationCommands.cc
+++ b/src/commands/EquationCommands.cc
@@ -762,6 +762,11 @@ getEquationNumbersCmd(CommandHandler &data)
   if (!variableName.empty())
   {
     equationName = reg->GetEquationNameFromVariable(variableName);
+
+    if (equationName.empty())
+    {
+      errorString += std::string("Could not find equation for variable ") + variableName + "\n";
+    }
   }
 
   if (!equationName.empty())
-- 
2.43.0


From 30110f5d4bf64dc47fbf1729e2a2fb6b192551f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:44 +0000
Subject: [PATCH 05/50] fix: debug_triangle_models returns a result on a region
 without triangles

---
 src/commands/ModelCommands.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/commands/ModelCommands.cc b/src/commands/ModelCommands.cc
index 7075030..40b8fcc 100644
--- a/src/commands/ModelCommands.cc
+++ b/src/commands/ModelCommands.cc
@@ -1990,8 +1990,8 @@ debugTriangleCmd(CommandHandler &data)
         os << "\n";
       }
       OutputStream::WriteOut(OutputStream::OutputType::INFO, os.str());
-      data.SetEmptyResult();
     }
+    data.SetEmptyResult();
 }
 
 void
-- 
2.43.0


From c864927d1d392e403caf5f684853d087fa4d0f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:56 +0000
Subject: [PATCH 06/50] fix: do not document required options as optional

---
 src/pythonapi/DevsimDoc.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pythonapi/DevsimDoc.cc b/src/pythonapi/DevsimDoc.cc
index 6d8af1d..a3904e6 100644
--- a/src/pythonapi/DevsimDoc.cc
+++ b/src/pythonapi/DevsimDoc.cc
@@ -476,7 +476,7 @@ R"(    devsim.get_material (device, region, contact)
 
     Parameters
     ----------
-    device : str, optional
+    device : str
        The selected device
     region : str, optional
        The selected region
@@ -529,7 +529,7 @@ R"(    devsim.set_material (device, region, contact, material)
 
     Parameters
     ----------
-    device : str, optional
+    device : str
        The selected device
     region : str, optional
        The selected region
@@ -1899,9 +1899,9 @@ R"(    devsim.set_initial_condition (static_rhs, dynamic_rhs)
 
     Parameters
     ----------
-    static_rhs : list, optional
+    static_rhs : list
        List of double values for non time-displacement terms in right hand side.
-    dynamic_rhs : list, optional
+    dynamic_rhs : list
        List of double values for time-displacement terms in right hand side.
 )";
 
-- 
2.43.0


From 9fd473e3c4d2df263a19338c6c94a40bfb061303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:21 +0000
Subject: [PATCH 07/50] fix: circuit_element checks its name before it creates
 nodes

---
 src/commands/CircuitCommands.cc | 37 ++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/src/commands/CircuitCommands.cc b/src/commands/CircuitCommands.cc
index f074737..b64c496 100644
--- a/src/commands/CircuitCommands.cc
+++ b/src/commands/CircuitCommands.cc
@@ -199,12 +199,33 @@ circuitElementCmd(CommandHandler &data)
         }
     }
 
+    if (type != 'V' && type != 'v' && type != 'I' && type != 'i' && type != 'C' && type != 'c' &&
+        type != 'L' && type != 'l' && type != 'R' && type != 'r')
+    {
+        std::ostringstream os;
+        os << "Cannot figure out what element type -name  \"" << name <<
+              "\" is\n";
+        errorString += os.str();
+        data.SetErrorResult(errorString);
+        return;
+    }
+
+    InstanceKeeper &ik = InstanceKeeper::instance();
+    if (ik.getInstanceModel(name))
+    {
+        std::ostringstream os;
+        os << "circuit element \"" << name <<
+              "\" already exists\n";
+        errorString += os.str();
+        data.SetErrorResult(errorString);
+        return;
+    }
+
     //// Should not fail
     CreateNode(n1, CircuitUpdateType::DEFAULT);
     CreateNode(n2, CircuitUpdateType::DEFAULT);
 
     NodeKeeper &nk = NodeKeeper::instance();
-    InstanceKeeper &ik = InstanceKeeper::instance();
     InstanceModel  *im = nullptr;
 
     if (type == 'V' || type == 'v')
@@ -242,20 +263,6 @@ circuitElementCmd(CommandHandler &data)
         ik.addInstanceModel(im);
         data.SetEmptyResult();
     }
-    else
-    {
-        std::ostringstream os;
-        os << "Cannot figure out what element type -name  \"" << name <<
-              "\" is\n";
-        errorString += os.str();
-    }
-
-    if (!errorString.empty())
-    {
-        data.SetErrorResult(errorString);
-        return;
-    }
-
 }
 
 void
-- 
2.43.0


From 70366ab8b1a8025e7352e2f89888ef7b3db9d08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:09 +0000
Subject: [PATCH 08/50] fix: get_material and set_material refuse region and
 contact together

---
 src/commands/MaterialCommands.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/commands/MaterialCommands.cc b/src/commands/MaterialCommands.cc
index 8ff294a..8637424 100644
--- a/src/commands/MaterialCommands.cc
+++ b/src/commands/MaterialCommands.cc
@@ -146,11 +146,11 @@ getParameterCmd(CommandHandler &data)
       {
         if (!regionName.empty())
         {
-          errorString = ValidateDeviceAndRegion(deviceName, regionName, dev, reg);
+          errorString += ValidateDeviceAndRegion(deviceName, regionName, dev, reg);
         }
         else if (!contactName.empty())
         {
-          errorString = ValidateDeviceAndContact(deviceName, contactName, dev, contact);
+          errorString += ValidateDeviceAndContact(deviceName, contactName, dev, contact);
         }
       }
       else
-- 
2.43.0


From d0c3b71c408e2735ef5ed2007b5791e745bef87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:09 +0000
Subject: [PATCH 09/50] fix: set_node_values and siblings refuse values
 together with init_from

---
 src/commands/ModelCommands.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/commands/ModelCommands.cc b/src/commands/ModelCommands.cc
index 40b8fcc..43a408b 100644
--- a/src/commands/ModelCommands.cc
+++ b/src/commands/ModelCommands.cc
@@ -920,7 +920,7 @@ setNodeValuesCmd(CommandHandler &data)
     Device *dev = nullptr;
     Region *reg = nullptr;
 
-    errorString = ValidateDeviceAndRegion(deviceName, regionName, dev, reg);
+    errorString += ValidateDeviceAndRegion(deviceName, regionName, dev, reg);
 
     if (!errorString.empty())
     {
-- 
2.43.0


From 3fa7e2d4fea92e09a777aa291b89edbeebe3d893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:42 +0000
Subject: [PATCH 10/50] fix: output does not leak or leave a Python exception
 pending when flush fails

---
 src/pythonapi/OutputStream.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pythonapi/OutputStream.cc b/src/pythonapi/OutputStream.cc
index 437922f..849584a 100644
--- a/src/pythonapi/OutputStream.cc
+++ b/src/pythonapi/OutputStream.cc
@@ -39,7 +39,11 @@ void OutputStream::WriteOut(OutputType ot, Verbosity_t verbosity, const std::str
       Py_Exit(-1);
     }
     PyFile_WriteString(m.c_str(), tc);
-    PyObject_CallMethod(tc, "flush", "");
+    // writing is not possible when the output was closed or replaced
+    PyErr_Clear();
+    PyObject *flushed = PyObject_CallMethod(tc, "flush", nullptr);
+    PyErr_Clear();
+    Py_XDECREF(flushed);
   };
 
   if (ot == OutputType::INFO)
-- 
2.43.0


From 56c73a821701f0b33845031e77811f84952f128e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:42 +0000
Subject: [PATCH 11/50] fix: release the modules whose dictionaries are
 searched for commands

---
 src/pythonapi/Interpreter.cc | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/pythonapi/Interpreter.cc b/src/pythonapi/Interpreter.cc
index c8d04f3..feb1c9a 100644
--- a/src/pythonapi/Interpreter.cc
+++ b/src/pythonapi/Interpreter.cc
@@ -25,8 +25,11 @@ PyObject *GetGlobalDictionary()
 {
   EnsurePythonGIL gil;
 
-  PyObject *main    = PyImport_ImportModule("__main__");
-  PyObject *globals = PyModule_GetDict(main);
+  ObjectHolder main(PyImport_ImportModule("__main__"));
+  PyErr_Clear();
+  dsAssert(!main.empty(), "Issue loading module __main__");
+  // the module stays alive in sys.modules
+  PyObject *globals = PyModule_GetDict(reinterpret_cast<PyObject *>(main.GetObject()));
   return globals;
 }
 
@@ -37,16 +40,18 @@ PyObject *GetDevsimDictionary()
   std::string module_name = TOSTRING(DEVSIM_MODULE_NAME);
   std::string long_module_name = "devsim." + module_name;
 
-  PyObject *devsim = nullptr;
-  devsim = PyImport_ImportModule(long_module_name.c_str());
-  if (!devsim)
+  ObjectHolder devsim(PyImport_ImportModule(long_module_name.c_str()));
+  if (devsim.empty())
   {
-    devsim = PyImport_ImportModule(module_name.c_str());
+    PyErr_Clear();
+    devsim = ObjectHolder(PyImport_ImportModule(module_name.c_str()));
   }
+  PyErr_Clear();
 
   //PyErr_Print();
-  dsAssert(devsim, std::string("Issue loading module ") + module_name);
-  PyObject *globals = PyModule_GetDict(devsim);
+  dsAssert(!devsim.empty(), std::string("Issue loading module ") + module_name);
+  // the module stays alive in sys.modules
+  PyObject *globals = PyModule_GetDict(reinterpret_cast<PyObject *>(devsim.GetObject()));
   return globals;
 }
 
-- 
2.43.0


From f595a8e6ff5126ce54a91b22834ce9c73f687a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:42 +0000
Subject: [PATCH 12/50] fix: release the version string of the Python module

---
 src/pythonapi/PythonCommands.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pythonapi/PythonCommands.cc b/src/pythonapi/PythonCommands.cc
index 82fa87c..9f8d2f1 100644
--- a/src/pythonapi/PythonCommands.cc
+++ b/src/pythonapi/PythonCommands.cc
@@ -247,7 +247,7 @@ DEVSIM_MODULE_INIT(void)
     PyModule_AddObject(module, "error", st->error);
 
     //https://www.python.org/dev/peps/pep-0396/
-    PyDict_SetItemString(PyModule_GetDict(module), "__version__", PyUnicode_FromString(DEVSIM_VERSION_STRING));
+    PyModule_AddStringConstant(module, "__version__", DEVSIM_VERSION_STRING);
 
     try {
       devsim_initialization();
-- 
2.43.0


From 3ce35c8a946c9b51158a1eaf96fa2ad9ff59f829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:42 +0000
Subject: [PATCH 13/50] fix: conversions from Python report failure instead of
 crashing, guessing or leaving an exception pending

---
 src/pythonapi/ObjectHolder.cc | 57 +++++++++++++++++++++++++++++------
 1 file changed, 48 insertions(+), 9 deletions(-)

diff --git a/src/pythonapi/ObjectHolder.cc b/src/pythonapi/ObjectHolder.cc
index 27ce406..99199ea 100644
--- a/src/pythonapi/ObjectHolder.cc
+++ b/src/pythonapi/ObjectHolder.cc
@@ -9,6 +9,7 @@ SPDX-License-Identifier: Apache-2.0
 /// Python is insisting on defined _POSIX_C_SOURCE and _X_OPEN_SOURCE
 #include "Python.h"
 #include "dsAssert.hh"
+#include "dsException.hh"
 #include "ControlGIL.hh"
 #include "dsMathTypes.hh"
 #include <cassert>
@@ -128,7 +129,12 @@ std::string GetStringFromStringObject(PyObject *obj)
   std::string ret;
   if (PyUnicode_CheckExact(obj))
   {
-    PyObject *sobj = PyUnicode_AsUTF8String(obj);
+    PyObject *sobj = PyUnicode_AsEncodedString(obj, "utf-8", "surrogateescape");
+    PyErr_Clear();
+    if (!sobj)
+    {
+      throw dsException("string cannot be encoded as UTF-8\n");
+    }
     ret = PyBytes_AsString(sobj);
     Py_DECREF(sobj);
   }
@@ -153,9 +159,13 @@ std::string ObjectHolder::GetString() const
 
     if (ret.empty())
     {
-      PyObject *strobj = PyObject_Str(obj);
-      ret = GetStringFromStringObject(strobj);
-      Py_DECREF(strobj);
+      ObjectHolder strobj(PyObject_Str(obj));
+      PyErr_Clear();
+      if (strobj.empty())
+      {
+        throw dsException("object cannot be converted to a string\n");
+      }
+      ret = GetStringFromStringObject(reinterpret_cast<PyObject *>(strobj.GetObject()));
     }
   }
   return ret;
@@ -207,6 +217,10 @@ ObjectHolder::BooleanEntry_t ObjectHolder::GetBoolean() const
       ok  = true;
       val = (ret == 1);
     }
+    else
+    {
+      PyErr_Clear();
+    }
   }
 
   return std::make_pair(ok, val);
@@ -217,7 +231,7 @@ ObjectHolder::IntegerEntry_t ObjectHolder::GetInteger() const
 {
   EnsurePythonGIL gil;
 
-  bool   ok = true;
+  bool   ok = false;
   int    val= 0;
 
   ObjectHolder::LongEntry_t lent = this->GetLong();
@@ -253,6 +267,13 @@ ObjectHolder::LongEntry_t ObjectHolder::GetLong() const
     {
       ok = true;
       val = PyLong_AsLong(obj);
+      if (PyErr_Occurred())
+      {
+        // out of range
+        PyErr_Clear();
+        ok = false;
+        val = 0;
+      }
     }
     else if (PyUnicode_CheckExact(obj) || PyBytes_CheckExact(obj))
     {
@@ -266,6 +287,12 @@ ObjectHolder::LongEntry_t ObjectHolder::GetLong() const
         {
           ok = true;
           val = PyLong_AsLong(iobj);
+          if (PyErr_Occurred())
+          {
+            // out of range
+            ok = false;
+            val = 0;
+          }
         }
         Py_DECREF(iobj);
       }
@@ -317,13 +344,25 @@ bool ObjectHolder::GetListOfObjects(ObjectHolderList_t &objs) const
   PyObject *obj = reinterpret_cast<PyObject *>(object_);
   if (obj && PySequence_Check(obj))
   {
+    Py_ssize_t len = PySequence_Size(obj);
+    if (len < 0)
+    {
+      PyErr_Clear();
+      return ok;
+    }
     ok = true;
-    size_t len = PySequence_Size(obj);
     objs.resize(len);
-    for (size_t i = 0; i < len; ++i)
+    for (Py_ssize_t i = 0; i < len; ++i)
     {
       //// this is a new reference
       PyObject *lobj = PySequence_GetItem(obj, i);
+      if (!lobj)
+      {
+        PyErr_Clear();
+        objs.clear();
+        ok = false;
+        break;
+      }
       //Py_INCREF(lobj);
       objs[i] = ObjectHolder(lobj);
     }
@@ -645,14 +684,14 @@ ObjectHolder::ObjectHolder(const std::string &s)
 {
   EnsurePythonGIL gil;
 
-  object_ = PyUnicode_FromStringAndSize(s.c_str(), s.size());
+  object_ = PyUnicode_DecodeUTF8(s.c_str(), s.size(), "surrogateescape");
 }
 
 ObjectHolder::ObjectHolder(const char *s)
 {
   EnsurePythonGIL gil;
 
-  object_ = PyUnicode_FromStringAndSize(s, strlen(s));
+  object_ = PyUnicode_DecodeUTF8(s, strlen(s), "surrogateescape");
 }
 
 ObjectHolder::ObjectHolder(const void *s, size_t len)
-- 
2.43.0


From 6e913dda7f5c053b4510c77ecff9ad520d8fcc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:38 +0000
Subject: [PATCH 14/50] fix: destroying a MKL Pardiso preconditioner without
 MKL ended the process

---
 src/math/MKLPardisoPreconditioner.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/math/MKLPardisoPreconditioner.cc b/src/math/MKLPardisoPreconditioner.cc
index a716ace..07ceadb 100644
--- a/src/math/MKLPardisoPreconditioner.cc
+++ b/src/math/MKLPardisoPreconditioner.cc
@@ -8,6 +8,7 @@ SPDX-License-Identifier: Apache-2.0
 
 #include "MKLPardisoPreconditioner.hh"
 #include "CompressedMatrix.hh"
+#include "BlasHeaders.hh"
 #include "dsAssert.hh"
 #include "OutputStream.hh"
 #include <utility>
@@ -134,6 +135,12 @@ MKLPardisoData::MKLPardisoData(int numeqn) {
 
 
 MKLPardisoData::~MKLPardisoData() {
+  // nothing was allocated, and calling PARDISO would throw
+  if (!MathLoader::IsMKLLoaded())
+  {
+    return;
+  }
+
   phase = -1;           /* Release internal memory. */
 
   PARDISO (pt, &maxfct, &mnum, &mtype, &phase,
-- 
2.43.0


From 425d9a5aad9d7075e5c504975d8ecc5c0ff73cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:43 +0000
Subject: [PATCH 15/50] fix: adding or replacing a model marks the models that
 use its name out of date

---
 src/Geometry/Region.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/Geometry/Region.cc b/src/Geometry/Region.cc
index 03d4b25..9cb58c1 100644
--- a/src/Geometry/Region.cc
+++ b/src/Geometry/Region.cc
@@ -917,6 +917,9 @@ void Region::AddNodeModel(NodeModelPtr nmp)
     {
       nodeModels[nm] = nmp;
     }
+
+    //// Anything depending on a model of this name is notified it is out of date
+    this->SignalCallbacks(nm);
 }
 
 void Region::AddEdgeModel(EdgeModelPtr emp)
@@ -955,6 +958,9 @@ void Region::AddEdgeModel(EdgeModelPtr emp)
     {
       edgeModels[nm] = emp;
     }
+
+    //// Anything depending on a model of this name is notified it is out of date
+    this->SignalCallbacks(nm);
 }
 
 void Region::AddTriangleEdgeModel(TriangleEdgeModelPtr emp)
@@ -993,6 +999,9 @@ void Region::AddTriangleEdgeModel(TriangleEdgeModelPtr emp)
     {
       triangleEdgeModels[nm] = emp;
     }
+
+    //// Anything depending on a model of this name is notified it is out of date
+    this->SignalCallbacks(nm);
 }
 
 void Region::AddTetrahedronEdgeModel(TetrahedronEdgeModelPtr emp)
@@ -1031,6 +1040,9 @@ void Region::AddTetrahedronEdgeModel(TetrahedronEdgeModelPtr emp)
     {
       tetrahedronEdgeModels[nm] = emp;
     }
+
+    //// Anything depending on a model of this name is notified it is out of date
+    this->SignalCallbacks(nm);
 }
 
 
-- 
2.43.0


From e66a3428e18894fd5c7bf33c1dc6f6298c8545a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:37 +0000
Subject: [PATCH 16/50] fix: restoring the circuit solution after a failed
 solve marks the models that use it out of date

---
 src/math/Newton.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/math/Newton.cc b/src/math/Newton.cc
index d603e65..85d1f23 100644
--- a/src/math/Newton.cc
+++ b/src/math/Newton.cc
@@ -445,6 +445,7 @@ void Newton<DoubleType>::RestoreSolutions()
     if (nk.HaveNodes())
     {
       nk.CopySolution("dcop_prev", "dcop");
+      nk.TriggerCallbacksOnNodes();
     }
   }
 }
-- 
2.43.0


From 08db10269db72a7f922634ff25872ab0a7adba90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:37 +0000
Subject: [PATCH 17/50] fix: setting a circuit node value marks the models that
 use the node under an alias out of date

---
 src/commands/CircuitCommands.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/commands/CircuitCommands.cc b/src/commands/CircuitCommands.cc
index b64c496..b5bea04 100644
--- a/src/commands/CircuitCommands.cc
+++ b/src/commands/CircuitCommands.cc
@@ -562,7 +562,8 @@ void circuitGetCircuitNodeValueCmd(CommandHandler &data)
     else if (commandName == "set_circuit_node_value")
     {
         nk.SetNodeValue(solution, node, val);
-        nk.TriggerCallbackOnNode(node);
+        //// the value is shared with the aliases of the node
+        nk.TriggerCallbacksOnNodes();
         data.SetEmptyResult();
     }
 }
-- 
2.43.0


From 69c009531594f19c18d8fb5d8ff4cd909ae3cdab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:19 +0000
Subject: [PATCH 18/50] fix: models of the electric field on triangles register
 the element couple they are calculated with

---
 src/models/TriangleEdgeFromEdgeModel.cc               | 1 +
 src/models/TriangleEdgeFromEdgeModelDerivative.cc     | 1 +
 src/models/TriangleEdgePairFromEdgeModel.cc           | 1 +
 src/models/TriangleEdgePairFromEdgeModelDerivative.cc | 1 +
 src/models/VectorTriangleEdgeModel.cc                 | 1 +
 5 files changed, 5 insertions(+)

diff --git a/src/models/TriangleEdgeFromEdgeModel.cc b/src/models/TriangleEdgeFromEdgeModel.cc
index 654db1f..df1a3c5 100644
--- a/src/models/TriangleEdgeFromEdgeModel.cc
+++ b/src/models/TriangleEdgeFromEdgeModel.cc
@@ -24,6 +24,7 @@ void TriangleEdgeFromEdgeModel<DoubleType>::derived_init()
 {
   auto rp = const_cast<Region *>(&GetRegion());
   RegisterCallback(edgeModelName);
+  RegisterCallback("ElementEdgeCouple");
   dsModelFactory<TriangleEdgeSubModel<DoubleType>>::create(y_ModelName, rp, TriangleEdgeModel::DisplayType::SCALAR, this->GetSelfPtr());
 }
 
diff --git a/src/models/TriangleEdgeFromEdgeModelDerivative.cc b/src/models/TriangleEdgeFromEdgeModelDerivative.cc
index c67c815..6188b1c 100644
--- a/src/models/TriangleEdgeFromEdgeModelDerivative.cc
+++ b/src/models/TriangleEdgeFromEdgeModelDerivative.cc
@@ -46,6 +46,7 @@ void TriangleEdgeFromEdgeModelDerivative<DoubleType>::derived_init()
 
   RegisterCallback(edgeModelName0);
   RegisterCallback(edgeModelName1);
+  RegisterCallback("ElementEdgeCouple");
   dsModelFactory<TriangleEdgeSubModel<DoubleType>>::create(x_ModelName1, rp, TriangleEdgeModel::DisplayType::NODISPLAY, this->GetSelfPtr());
   dsModelFactory<TriangleEdgeSubModel<DoubleType>>::create(x_ModelName2, rp, TriangleEdgeModel::DisplayType::NODISPLAY, this->GetSelfPtr());
   dsModelFactory<TriangleEdgeSubModel<DoubleType>>::create(y_ModelName0, rp, TriangleEdgeModel::DisplayType::NODISPLAY, this->GetSelfPtr());
diff --git a/src/models/TriangleEdgePairFromEdgeModel.cc b/src/models/TriangleEdgePairFromEdgeModel.cc
index 89a20fc..f3ebb04 100644
--- a/src/models/TriangleEdgePairFromEdgeModel.cc
+++ b/src/models/TriangleEdgePairFromEdgeModel.cc
@@ -25,6 +25,7 @@ void TriangleEdgePairFromEdgeModel<DoubleType>::derived_init()
   auto rp = const_cast<Region *>(&GetRegion());
 
   RegisterCallback(edgeModelName);
+  RegisterCallback("ElementEdgeCouple");
 
   model_names = {{
                   {edgeModelName + "_node0_x", edgeModelName + "_node0_y"},
diff --git a/src/models/TriangleEdgePairFromEdgeModelDerivative.cc b/src/models/TriangleEdgePairFromEdgeModelDerivative.cc
index a853c69..65732dd 100644
--- a/src/models/TriangleEdgePairFromEdgeModelDerivative.cc
+++ b/src/models/TriangleEdgePairFromEdgeModelDerivative.cc
@@ -36,6 +36,7 @@ void TriangleEdgePairFromEdgeModelDerivative<DoubleType>::derived_init()
   edgeModelNames[1] = tmpname + "@n1";
   RegisterCallback(edgeModelNames[0]);
   RegisterCallback(edgeModelNames[1]);
+  RegisterCallback("ElementEdgeCouple");
 
   for (size_t i = 0; i < 3; ++i) // derivatives
   {
diff --git a/src/models/VectorTriangleEdgeModel.cc b/src/models/VectorTriangleEdgeModel.cc
index 5acb045..c505b8c 100644
--- a/src/models/VectorTriangleEdgeModel.cc
+++ b/src/models/VectorTriangleEdgeModel.cc
@@ -25,6 +25,7 @@ void VectorTriangleEdgeModel<DoubleType>::derived_init()
   auto rp = const_cast<Region *>(&GetRegion());
 
   RegisterCallback(elementEdgeModelName);
+  RegisterCallback("ElementEdgeCouple");
   dsModelFactory<TriangleEdgeSubModel<DoubleType>>::create(y_ModelName, rp, TriangleEdgeModel::DisplayType::SCALAR, this->GetSelfPtr());
 }
 
-- 
2.43.0


From a32a3cd0ea79279caffb68b0d157f5a7192db437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:24 +0000
Subject: [PATCH 19/50] fix: models register the edge model that is used in
 place of an element edge model which does not exist

---
 src/AutoEquation/EdgeExprModel.cc            |  1 +
 src/AutoEquation/ModelExprEval.cc            | 32 +++++++++++++-------
 src/AutoEquation/ModelExprEval.hh            |  3 ++
 src/AutoEquation/NodeExprModel.cc            |  1 +
 src/AutoEquation/TetrahedronEdgeExprModel.cc |  1 +
 src/AutoEquation/TriangleEdgeExprModel.cc    |  1 +
 6 files changed, 28 insertions(+), 11 deletions(-)

diff --git a/src/AutoEquation/EdgeExprModel.cc b/src/AutoEquation/EdgeExprModel.cc
index 1d737c0..015dd4d 100644
--- a/src/AutoEquation/EdgeExprModel.cc
+++ b/src/AutoEquation/EdgeExprModel.cc
@@ -64,6 +64,7 @@ void EdgeExprModel<DoubleType>::RegisterModels()
     for (refmodels_t::iterator it = refs.begin(); it != refs.end(); ++it)
     {
         RegisterCallback(*it);
+        RegisterCallback(MEE::GetEdgeModelAlias(*it));
     }
 }
 
diff --git a/src/AutoEquation/ModelExprEval.cc b/src/AutoEquation/ModelExprEval.cc
index bc712ed..316bfce 100644
--- a/src/AutoEquation/ModelExprEval.cc
+++ b/src/AutoEquation/ModelExprEval.cc
@@ -34,6 +34,25 @@ SPDX-License-Identifier: Apache-2.0
 
 namespace MEE {
 
+std::string GetEdgeModelAlias(const std::string &model)
+{
+  std::string alias_model(model);
+
+  std::string::size_type rpos = alias_model.size();
+  if (rpos > 4)
+  {
+    rpos -= 4;
+
+    if ((alias_model.rfind("@en0") == rpos) || (alias_model.rfind("@en1") == rpos))
+    {
+      //// look for @n0, @n1 in place of @en0, @en11
+      alias_model.erase(rpos+1, 1);
+    }
+  }
+
+  return alias_model;
+}
+
 template <typename DoubleType>
 ModelExprEval<DoubleType>::ModelExprEval(data_ref_t &vals, const std::string &m, error_t &er) : data_ref(vals), model(m), errors(er), etype(ExpectedType::UNKNOWN)
 {
@@ -160,22 +179,13 @@ ModelExprData<DoubleType> ModelExprEval<DoubleType>::EvaluateModelType(Eqo::EqOb
 
     out = ModelExprData<DoubleType>(0.0, rp);
 
-    std::string alias_model(model);
+    const std::string &alias_model = GetEdgeModelAlias(model);
 
     //// Why not just try it all the time???
 //    if (model.find(":") != std::string::npos)
     {
-      std::string::size_type rpos = alias_model.size();
-      if (rpos > 4)
+      if (model.size() > 4)
       {
-        rpos -= 4;
-
-        if ((alias_model.rfind("@en0") == rpos) || (alias_model.rfind("@en1") == rpos))
-        {
-          //// look for @n0, @n1 in place of @en0, @en11
-          alias_model.erase(rpos+1, 1);
-        }
-
         if (ConstEdgeModelPtr nm = rp->GetEdgeModel(alias_model))
         {
           std::ostringstream os;
diff --git a/src/AutoEquation/ModelExprEval.hh b/src/AutoEquation/ModelExprEval.hh
index b5b149c..f32dd0c 100644
--- a/src/AutoEquation/ModelExprEval.hh
+++ b/src/AutoEquation/ModelExprEval.hh
@@ -23,6 +23,9 @@ namespace MEE {
 
 enum class ExpectedType {UNKNOWN = 0, NODE, EDGE, TRIANGLEEDGE, TETRAHEDRONEDGE};
 
+// The edge model used when an element edge model does not exist
+std::string GetEdgeModelAlias(const std::string &/*model*/);
+
 template <typename DoubleType>
 class ModelExprEval {
     public:
diff --git a/src/AutoEquation/NodeExprModel.cc b/src/AutoEquation/NodeExprModel.cc
index 3b37d96..ba0d119 100644
--- a/src/AutoEquation/NodeExprModel.cc
+++ b/src/AutoEquation/NodeExprModel.cc
@@ -68,6 +68,7 @@ void NodeExprModel<DoubleType>::RegisterModels()
     for (refmodels_t::iterator it = refs.begin(); it != refs.end(); ++it)
     {
         RegisterCallback(*it);
+        RegisterCallback(MEE::GetEdgeModelAlias(*it));
     }
 }
 
diff --git a/src/AutoEquation/TetrahedronEdgeExprModel.cc b/src/AutoEquation/TetrahedronEdgeExprModel.cc
index 28a0012..f0ca8ef 100644
--- a/src/AutoEquation/TetrahedronEdgeExprModel.cc
+++ b/src/AutoEquation/TetrahedronEdgeExprModel.cc
@@ -62,6 +62,7 @@ void TetrahedronEdgeExprModel<DoubleType>::RegisterModels()
     for (refmodels_t::iterator it = refs.begin(); it != refs.end(); ++it)
     {
         RegisterCallback(*it);
+        RegisterCallback(MEE::GetEdgeModelAlias(*it));
     }
 }
 
diff --git a/src/AutoEquation/TriangleEdgeExprModel.cc b/src/AutoEquation/TriangleEdgeExprModel.cc
index 8d802e8..9f44356 100644
--- a/src/AutoEquation/TriangleEdgeExprModel.cc
+++ b/src/AutoEquation/TriangleEdgeExprModel.cc
@@ -62,6 +62,7 @@ void TriangleEdgeExprModel<DoubleType>::RegisterModels()
     for (refmodels_t::iterator it = refs.begin(); it != refs.end(); ++it)
     {
         RegisterCallback(*it);
+        RegisterCallback(MEE::GetEdgeModelAlias(*it));
     }
 }
 
-- 
2.43.0


From b72fa42447ea02d41695ed939fc068d84b11af8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:08 +0000
Subject: [PATCH 20/50] fix: setting a single value of a model drops the copy
 of its values in the other precision

---
 src/models/ModelDataHolder.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/models/ModelDataHolder.cc b/src/models/ModelDataHolder.cc
index a574dcf..3bfb2a2 100644
--- a/src/models/ModelDataHolder.cc
+++ b/src/models/ModelDataHolder.cc
@@ -295,6 +295,8 @@ void ModelDataHolder::SetValue(size_t index, const float128 &nv)
 
   float128_values[index] = nv;
 
+  // the other representation is no longer current
+  clear_type(MDtype::DOUBLE);
 }
 #endif
 
@@ -317,6 +319,9 @@ void ModelDataHolder::SetValue(size_t index, const double &nv)
     expand_uniform();
 
     double_values[index] = nv;
+
+    // the other representation is no longer current
+    clear_type(MDtype::EXTENDED);
   }
 }
 
-- 
2.43.0


From 5f673aa9d0fd2d1efc4254fa7775e5e38dd25367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:30 +0000
Subject: [PATCH 21/50] fix: values calculated with a floating point exception
 are not handed out on the next read

---
 src/models/EdgeModel.cc            | 2 ++
 src/models/NodeModel.cc            | 2 ++
 src/models/TetrahedronEdgeModel.cc | 2 ++
 src/models/TriangleEdgeModel.cc    | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/src/models/EdgeModel.cc b/src/models/EdgeModel.cc
index 75ca993..2a34578 100644
--- a/src/models/EdgeModel.cc
+++ b/src/models/EdgeModel.cc
@@ -87,6 +87,8 @@ void EdgeModel::CalculateValues() const
     os << "There was a floating point exception of type \"" << FPECheck::getFPEString() << "\"  while evaluating the edge model " << name
     << " on Device: " << GetRegion().GetDevice()->GetName() << " on Region: " << GetRegion().GetName() << "\n";
     FPECheck::ClearFPE();
+    // do not hand out these values on the next read
+    MarkOld();
     GeometryStream::WriteOut(OutputStream::OutputType::FATAL, GetRegion(), os.str().c_str());
   }
 }
diff --git a/src/models/NodeModel.cc b/src/models/NodeModel.cc
index f085e38..63ac606 100644
--- a/src/models/NodeModel.cc
+++ b/src/models/NodeModel.cc
@@ -109,6 +109,8 @@ void NodeModel::CalculateValues() const
     os << "There was a floating point exception of type \"" << FPECheck::getFPEString() << "\"  while evaluating the node model " << name
     << " on Device: " << GetRegion().GetDevice()->GetName() << " on Region: " << GetRegion().GetName() << "\n";
     FPECheck::ClearFPE();
+    // do not hand out these values on the next read
+    MarkOld();
     GeometryStream::WriteOut(OutputStream::OutputType::FATAL, GetRegion(), os.str().c_str());
   }
 }
diff --git a/src/models/TetrahedronEdgeModel.cc b/src/models/TetrahedronEdgeModel.cc
index 55a5582..a2bc01c 100644
--- a/src/models/TetrahedronEdgeModel.cc
+++ b/src/models/TetrahedronEdgeModel.cc
@@ -85,6 +85,8 @@ void TetrahedronEdgeModel::CalculateValues() const
     os << "There was a floating point exception of type \"" << FPECheck::getFPEString() << "\"  while evaluating the edge model " << name
     << " on Device: " << GetRegion().GetDevice()->GetName() << " on Region: " << GetRegion().GetName() << "\n";
     FPECheck::ClearFPE();
+    // do not hand out these values on the next read
+    MarkOld();
     GeometryStream::WriteOut(OutputStream::OutputType::FATAL, GetRegion(), os.str().c_str());
   }
 }
diff --git a/src/models/TriangleEdgeModel.cc b/src/models/TriangleEdgeModel.cc
index 84d6554..80478b2 100644
--- a/src/models/TriangleEdgeModel.cc
+++ b/src/models/TriangleEdgeModel.cc
@@ -83,6 +83,8 @@ void TriangleEdgeModel::CalculateValues() const
     os << "There was a floating point exception of type \"" << FPECheck::getFPEString() << "\"  while evaluating the edge model " << name
     << " on Device: " << GetRegion().GetDevice()->GetName() << " on Region: " << GetRegion().GetName() << "\n";
     FPECheck::ClearFPE();
+    // do not hand out these values on the next read
+    MarkOld();
     GeometryStream::WriteOut(OutputStream::OutputType::FATAL, GetRegion(), os.str().c_str());
   }
 }
-- 
2.43.0


From 9c11ff272e4e0ba96917250cf7f4905a0a97fec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:06 +0000
Subject: [PATCH 22/50] fix: built-in models that depend on each other in a
 cycle are reported instead of exhausting the stack

---
 src/models/EdgeModel.cc            | 8 ++++++++
 src/models/NodeModel.cc            | 8 ++++++++
 src/models/TetrahedronEdgeModel.cc | 8 ++++++++
 src/models/TriangleEdgeModel.cc    | 8 ++++++++
 4 files changed, 32 insertions(+)

diff --git a/src/models/EdgeModel.cc b/src/models/EdgeModel.cc
index 2a34578..4385569 100644
--- a/src/models/EdgeModel.cc
+++ b/src/models/EdgeModel.cc
@@ -67,6 +67,14 @@ void EdgeModel::CalculateValues() const
   FPECheck::ClearFPE();
   if (!uptodate)
   {
+    if (inprocess)
+    {
+      std::ostringstream os;
+      os << "Cyclic dependency while evaluating the edge model " << name
+      << " on Device: " << GetRegion().GetDevice()->GetName() << " on Region: " << GetRegion().GetName() << "\n";
+      GeometryStream::WriteOut(OutputStream::OutputType::FATAL, GetRegion(), os.str().c_str());
+    }
+
     inprocess = true;
     try
     {
diff --git a/src/models/NodeModel.cc b/src/models/NodeModel.cc
index 63ac606..31cc353 100644
--- a/src/models/NodeModel.cc
+++ b/src/models/NodeModel.cc
@@ -89,6 +89,14 @@ void NodeModel::CalculateValues() const
   FPECheck::ClearFPE();
   if (!uptodate)
   {
+    if (inprocess)
+    {
+      std::ostringstream os;
+      os << "Cyclic dependency while evaluating the node model " << name
+      << " on Device: " << GetRegion().GetDevice()->GetName() << " on Region: " << GetRegion().GetName() << "\n";
+      GeometryStream::WriteOut(OutputStream::OutputType::FATAL, GetRegion(), os.str().c_str());
+    }
+
     inprocess = true;
     try
     {
diff --git a/src/models/TetrahedronEdgeModel.cc b/src/models/TetrahedronEdgeModel.cc
index a2bc01c..43e2b14 100644
--- a/src/models/TetrahedronEdgeModel.cc
+++ b/src/models/TetrahedronEdgeModel.cc
@@ -65,6 +65,14 @@ void TetrahedronEdgeModel::CalculateValues() const
   FPECheck::ClearFPE();
   if (!uptodate)
   {
+    if (inprocess)
+    {
+      std::ostringstream os;
+      os << "Cyclic dependency while evaluating the tetrahedron edge model " << name
+      << " on Device: " << GetRegion().GetDevice()->GetName() << " on Region: " << GetRegion().GetName() << "\n";
+      GeometryStream::WriteOut(OutputStream::OutputType::FATAL, GetRegion(), os.str().c_str());
+    }
+
     inprocess = true;
     try
     {
diff --git a/src/models/TriangleEdgeModel.cc b/src/models/TriangleEdgeModel.cc
index 80478b2..47a85ba 100644
--- a/src/models/TriangleEdgeModel.cc
+++ b/src/models/TriangleEdgeModel.cc
@@ -63,6 +63,14 @@ void TriangleEdgeModel::CalculateValues() const
   FPECheck::ClearFPE();
   if (!uptodate)
   {
+    if (inprocess)
+    {
+      std::ostringstream os;
+      os << "Cyclic dependency while evaluating the triangle edge model " << name
+      << " on Device: " << GetRegion().GetDevice()->GetName() << " on Region: " << GetRegion().GetName() << "\n";
+      GeometryStream::WriteOut(OutputStream::OutputType::FATAL, GetRegion(), os.str().c_str());
+    }
+
     inprocess = true;
     try
     {
-- 
2.43.0


From 58aa93949d8bbd7b4df5b3f86eaf957ce0e57d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:42 +0000
Subject: [PATCH 23/50] fix: an if in an expression does not overwrite the
 cached value of its condition

---
 src/AutoEquation/InterfaceModelExprEval.cc | 7 +++++--
 src/AutoEquation/ModelExprEval.cc          | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/AutoEquation/InterfaceModelExprEval.cc b/src/AutoEquation/InterfaceModelExprEval.cc
index df6f811..da7a59a 100644
--- a/src/AutoEquation/InterfaceModelExprEval.cc
+++ b/src/AutoEquation/InterfaceModelExprEval.cc
@@ -307,8 +307,11 @@ InterfaceModelExprData<DoubleType> InterfaceModelExprEval<DoubleType>::EvaluateI
   else
   {
     // Assume we are getting an array of 1's and zeros
-    test *= eval_function(values[1]);
-    out = test;
+    // The data of test is shared with the cache of evaluated expressions and must not be changed
+    InterfaceModelExprData<DoubleType> value = eval_function(values[1]);
+    out = InterfaceModelExprData<DoubleType>(1.0);
+    out *= test;
+    out *= value;
   }
 
   return out;
diff --git a/src/AutoEquation/ModelExprEval.cc b/src/AutoEquation/ModelExprEval.cc
index 316bfce..a286504 100644
--- a/src/AutoEquation/ModelExprEval.cc
+++ b/src/AutoEquation/ModelExprEval.cc
@@ -301,8 +301,11 @@ ModelExprData<DoubleType> ModelExprEval<DoubleType>::EvaluateIfType(Eqo::EqObjPt
   else
   {
     // Assume we are getting an array of 1's and zeros
-    test *= eval_function(values[1]);
-    out = test;
+    // The data of test is shared with the cache of evaluated expressions and must not be changed
+    ModelExprData<DoubleType> value = eval_function(values[1]);
+    out = ModelExprData<DoubleType>(1.0, data_ref);
+    out *= test;
+    out *= value;
   }
 
   return out;
-- 
2.43.0


From 9b36c9055b925e6a2b9e706cda837b84ffe766a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:47 +0000
Subject: [PATCH 24/50] fix: an interface model that is read by another has as
 many values as the interface has nodes

---
 src/models/InterfaceNodeModel.hh | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/models/InterfaceNodeModel.hh b/src/models/InterfaceNodeModel.hh
index f6b45fa..9c2e91d 100644
--- a/src/models/InterfaceNodeModel.hh
+++ b/src/models/InterfaceNodeModel.hh
@@ -93,7 +93,7 @@ class InterfaceNodeModel : public std::enable_shared_from_this<InterfaceNodeMode
 
         size_t GetLength() const
         {
-          return length;
+          return model_data.GetLength();
         }
 
         bool IsZero() const;
@@ -137,7 +137,6 @@ class InterfaceNodeModel : public std::enable_shared_from_this<InterfaceNodeMode
         mutable bool uptodate = false;
         mutable bool inprocess = false;
         mutable ModelDataHolder model_data;
-        size_t length = 0;
 };
 
 template <typename T1, typename T2, typename ... Args>
-- 
2.43.0


From 5882061a7190a429fd1ad130046a603b2dcc2640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:50 +0000
Subject: [PATCH 25/50] fix: a uniform edge value used in a tetrahedron edge
 expression has as many values as there are tetrahedron edges

---
 src/AutoEquation/ModelExprData.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/AutoEquation/ModelExprData.cc b/src/AutoEquation/ModelExprData.cc
index 9b4cefc..5d7dfcc 100644
--- a/src/AutoEquation/ModelExprData.cc
+++ b/src/AutoEquation/ModelExprData.cc
@@ -280,7 +280,7 @@ void ModelExprData<DoubleType>::convertToTetrahedronEdgeData()
     if (edgeScalarData->IsUniform())
     {
       const DoubleType val = edgeScalarData->GetUniformValue();
-      size_t       len = 6 * reg->GetTriangleList().size();
+      size_t       len = 6 * reg->GetTetrahedronList().size();
 
       type = datatype::TETRAHEDRONEDGEDATA;
       TetrahedronEdgeScalarData<DoubleType> *e = new TetrahedronEdgeScalarData<DoubleType>(val, len);
-- 
2.43.0


From b0fafdde26fa3f975201ea832900c0fe94f3c280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:37 +0000
Subject: [PATCH 26/50] fix: an unknown function of constant arguments is
 reported instead of evaluating to 0

---
 src/MathEval/MathEval.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/MathEval/MathEval.cc b/src/MathEval/MathEval.cc
index d23bca9..a1f3c21 100644
--- a/src/MathEval/MathEval.cc
+++ b/src/MathEval/MathEval.cc
@@ -457,6 +457,12 @@ DoubleType MathEval<DoubleType>::EvaluateMathFunc(const std::string &func, std::
     const Eqomfp::MathWrapper<DoubleType> &MyFunc = *(it->second);
     x = MyFunc.Evaluate(vals, error);
   }
+  else
+  {
+      std::ostringstream os;
+      os << "could not find function \"" << func << "\"";
+      error += os.str();
+  }
 
   return x;
 }
-- 
2.43.0


From 186e6610b0c0eedd3c38b2c4723d47dbf741165a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:48 +0000
Subject: [PATCH 27/50] fix: evaluating a model or a part of an expression does
 not clear floating point exceptions raised before it

---
 src/AutoEquation/InterfaceModelExprEval.cc | 3 +++
 src/AutoEquation/ModelExprEval.cc          | 3 +++
 src/models/EdgeModel.cc                    | 4 ++++
 src/models/InterfaceNodeModel.cc           | 4 ++++
 src/models/NodeModel.cc                    | 4 ++++
 src/models/TetrahedronEdgeModel.cc         | 4 ++++
 src/models/TriangleEdgeModel.cc            | 4 ++++
 7 files changed, 26 insertions(+)

diff --git a/src/AutoEquation/InterfaceModelExprEval.cc b/src/AutoEquation/InterfaceModelExprEval.cc
index da7a59a..f31cf4a 100644
--- a/src/AutoEquation/InterfaceModelExprEval.cc
+++ b/src/AutoEquation/InterfaceModelExprEval.cc
@@ -391,6 +391,8 @@ InterfaceModelExprData<DoubleType> InterfaceModelExprEval<DoubleType>::EvaluateI
 template <typename DoubleType>
 InterfaceModelExprData<DoubleType> InterfaceModelExprEval<DoubleType>::eval_function(Eqo::EqObjPtr arg)
 {
+  // exceptions of the evaluation of the expression that this is a part of
+  const FPECheck::FPEFlag_t pending = FPECheck::getFPEFlags();
   FPECheck::ClearFPE();
 
   const EngineAPI::EqObjType etype = EngineAPI::getEnumeratedType(arg);
@@ -467,6 +469,7 @@ InterfaceModelExprData<DoubleType> InterfaceModelExprEval<DoubleType>::eval_func
     cache->SetEntry(EngineAPI::getStringValue(arg), out);
   }
 
+  FPECheck::raiseFPE(pending);
   return out;
 }
 
diff --git a/src/AutoEquation/ModelExprEval.cc b/src/AutoEquation/ModelExprEval.cc
index a286504..e569ad5 100644
--- a/src/AutoEquation/ModelExprEval.cc
+++ b/src/AutoEquation/ModelExprEval.cc
@@ -409,6 +409,8 @@ ModelExprData<DoubleType> ModelExprEval<DoubleType>::EvaluateConstantType(Eqo::E
 template <typename DoubleType>
 ModelExprData<DoubleType> ModelExprEval<DoubleType>::eval_function(Eqo::EqObjPtr arg)
 {
+  // exceptions of the evaluation of the expression that this is a part of
+  const FPECheck::FPEFlag_t pending = FPECheck::getFPEFlags();
   FPECheck::ClearFPE();
 
   const EngineAPI::EqObjType etype = EngineAPI::getEnumeratedType(arg);
@@ -488,6 +490,7 @@ ModelExprData<DoubleType> ModelExprEval<DoubleType>::eval_function(Eqo::EqObjPtr
 #if 0
   os << "end eval_function " << model << " = " << EngineAPI::getStringValue(arg)  << " size " <<  indexes.size() << "\n";
 #endif
+  FPECheck::raiseFPE(pending);
   return out;
 }
 
diff --git a/src/models/EdgeModel.cc b/src/models/EdgeModel.cc
index 4385569..0759932 100644
--- a/src/models/EdgeModel.cc
+++ b/src/models/EdgeModel.cc
@@ -64,6 +64,8 @@ void EdgeModel::init()
 
 void EdgeModel::CalculateValues() const
 {
+  // exceptions of the calculation that needs these values
+  const FPECheck::FPEFlag_t pending = FPECheck::getFPEFlags();
   FPECheck::ClearFPE();
   if (!uptodate)
   {
@@ -99,6 +101,8 @@ void EdgeModel::CalculateValues() const
     MarkOld();
     GeometryStream::WriteOut(OutputStream::OutputType::FATAL, GetRegion(), os.str().c_str());
   }
+
+  FPECheck::raiseFPE(pending);
 }
 
 template <typename DoubleType>
diff --git a/src/models/InterfaceNodeModel.cc b/src/models/InterfaceNodeModel.cc
index 08b6a5e..22b4cd9 100644
--- a/src/models/InterfaceNodeModel.cc
+++ b/src/models/InterfaceNodeModel.cc
@@ -46,6 +46,8 @@ void InterfaceNodeModel::init()
 
 void InterfaceNodeModel::CalculateValues() const
 {
+  // exceptions of the calculation that needs these values
+  const FPECheck::FPEFlag_t pending = FPECheck::getFPEFlags();
   FPECheck::ClearFPE();
 
   // TODO: fix this so the values are actually cached
@@ -84,6 +86,8 @@ void InterfaceNodeModel::CalculateValues() const
     FPECheck::ClearFPE();
     GeometryStream::WriteOut(OutputStream::OutputType::FATAL, GetInterface(), os.str().c_str());
   }
+
+  FPECheck::raiseFPE(pending);
 }
 
 template <typename DoubleType>
diff --git a/src/models/NodeModel.cc b/src/models/NodeModel.cc
index 31cc353..1610dbe 100644
--- a/src/models/NodeModel.cc
+++ b/src/models/NodeModel.cc
@@ -86,6 +86,8 @@ void NodeModel::DefaultInitializeValues()
 
 void NodeModel::CalculateValues() const
 {
+  // exceptions of the calculation that needs these values
+  const FPECheck::FPEFlag_t pending = FPECheck::getFPEFlags();
   FPECheck::ClearFPE();
   if (!uptodate)
   {
@@ -121,6 +123,8 @@ void NodeModel::CalculateValues() const
     MarkOld();
     GeometryStream::WriteOut(OutputStream::OutputType::FATAL, GetRegion(), os.str().c_str());
   }
+
+  FPECheck::raiseFPE(pending);
 }
 
 //
diff --git a/src/models/TetrahedronEdgeModel.cc b/src/models/TetrahedronEdgeModel.cc
index 43e2b14..8ce79dc 100644
--- a/src/models/TetrahedronEdgeModel.cc
+++ b/src/models/TetrahedronEdgeModel.cc
@@ -62,6 +62,8 @@ void TetrahedronEdgeModel::init()
 
 void TetrahedronEdgeModel::CalculateValues() const
 {
+  // exceptions of the calculation that needs these values
+  const FPECheck::FPEFlag_t pending = FPECheck::getFPEFlags();
   FPECheck::ClearFPE();
   if (!uptodate)
   {
@@ -97,6 +99,8 @@ void TetrahedronEdgeModel::CalculateValues() const
     MarkOld();
     GeometryStream::WriteOut(OutputStream::OutputType::FATAL, GetRegion(), os.str().c_str());
   }
+
+  FPECheck::raiseFPE(pending);
 }
 
 template <typename DoubleType>
diff --git a/src/models/TriangleEdgeModel.cc b/src/models/TriangleEdgeModel.cc
index 47a85ba..b1a85da 100644
--- a/src/models/TriangleEdgeModel.cc
+++ b/src/models/TriangleEdgeModel.cc
@@ -60,6 +60,8 @@ void TriangleEdgeModel::init()
 
 void TriangleEdgeModel::CalculateValues() const
 {
+  // exceptions of the calculation that needs these values
+  const FPECheck::FPEFlag_t pending = FPECheck::getFPEFlags();
   FPECheck::ClearFPE();
   if (!uptodate)
   {
@@ -95,6 +97,8 @@ void TriangleEdgeModel::CalculateValues() const
     MarkOld();
     GeometryStream::WriteOut(OutputStream::OutputType::FATAL, GetRegion(), os.str().c_str());
   }
+
+  FPECheck::raiseFPE(pending);
 }
 
 template <typename DoubleType>
-- 
2.43.0


From f9dc8864cb09f076579982551fdbd3bbc5feb558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:46 +0000
Subject: [PATCH 28/50] fix: CylindricalEdgeNodeVolume@n0 keeps the values
 calculated for it

The calculation ended by replacing the values it had just given to the
model with as many zeros as the region has nodes.
---
 src/GeomModels/CylindricalEdgeNodeVolume.cc | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/GeomModels/CylindricalEdgeNodeVolume.cc b/src/GeomModels/CylindricalEdgeNodeVolume.cc
index 4ef4b34..8666b64 100644
--- a/src/GeomModels/CylindricalEdgeNodeVolume.cc
+++ b/src/GeomModels/CylindricalEdgeNodeVolume.cc
@@ -43,9 +43,6 @@ void CylindricalEdgeNodeVolume<DoubleType>::calcEdgeScalarValues() const
 
   dsAssert(dimension == 2, "CylindricalEdgeNodeVolume 2d Only");
 
-  std::vector<DoubleType> nv(r.GetNumberNodes());
-
-
   if (dimension == 2)
   {
     const Region &region = GetRegion();
@@ -67,8 +64,6 @@ void CylindricalEdgeNodeVolume<DoubleType>::calcEdgeScalarValues() const
   {
     dsAssert(false, "UNEXPECTED");
   }
-
-  SetValues(nv);
 }
 
 template <typename DoubleType>
-- 
2.43.0


From 705ad7c34328c6c02e8e9b614d8491e441eedaa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:14 +0000
Subject: [PATCH 29/50] fix: edge data becomes element data also in a region
 without elements

Converting edge values to triangle or tetrahedron edge values left the
type as it was when the region has no such elements, and the caller then
used element data that did not exist.
---
 src/AutoEquation/ModelExprData.cc | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/AutoEquation/ModelExprData.cc b/src/AutoEquation/ModelExprData.cc
index 5d7dfcc..7322dac 100644
--- a/src/AutoEquation/ModelExprData.cc
+++ b/src/AutoEquation/ModelExprData.cc
@@ -261,13 +261,10 @@ void ModelExprData<DoubleType>::convertToTriangleEdgeData()
       std::vector<DoubleType> out;
       const std::vector<DoubleType> &evals = edgeScalarData->GetScalarList();
       convertEdgeToTriangleEdgeData(*reg, evals, out);
-      if (!out.empty())
-      {
-        type = datatype::TRIANGLEEDGEDATA;
-        TriangleEdgeScalarData<DoubleType> *e = new TriangleEdgeScalarData<DoubleType>(out);
-        triangleEdgeScalarData = triangleEdgeScalarData_ptr<DoubleType>(e);
-        edgeScalarData.reset();
-      }
+      type = datatype::TRIANGLEEDGEDATA;
+      TriangleEdgeScalarData<DoubleType> *e = new TriangleEdgeScalarData<DoubleType>(out);
+      triangleEdgeScalarData = triangleEdgeScalarData_ptr<DoubleType>(e);
+      edgeScalarData.reset();
     }
   }
 }
@@ -292,13 +289,10 @@ void ModelExprData<DoubleType>::convertToTetrahedronEdgeData()
       std::vector<DoubleType> out;
       const std::vector<DoubleType> &evals = edgeScalarData->GetScalarList();
       convertEdgeToTetrahedronEdgeData(*reg, evals, out);
-      if (!out.empty())
-      {
-        type = datatype::TETRAHEDRONEDGEDATA;
-        TetrahedronEdgeScalarData<DoubleType> *e = new TetrahedronEdgeScalarData<DoubleType>(out);
-        tetrahedronEdgeScalarData = tetrahedronEdgeScalarData_ptr<DoubleType>(e);
-        edgeScalarData.reset();
-      }
+      type = datatype::TETRAHEDRONEDGEDATA;
+      TetrahedronEdgeScalarData<DoubleType> *e = new TetrahedronEdgeScalarData<DoubleType>(out);
+      tetrahedronEdgeScalarData = tetrahedronEdgeScalarData_ptr<DoubleType>(e);
+      edgeScalarData.reset();
     }
   }
 }
-- 
2.43.0


From 786628fef6b79a08f5b9bb244780e782ce6e0d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:58 +0000
Subject: [PATCH 30/50] fix: expressions of contact models, evaluated only on
 the contact, are not reused for models on the whole region

---
 src/AutoEquation/ModelExprEval.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/AutoEquation/ModelExprEval.cc b/src/AutoEquation/ModelExprEval.cc
index e569ad5..bd33887 100644
--- a/src/AutoEquation/ModelExprEval.cc
+++ b/src/AutoEquation/ModelExprEval.cc
@@ -421,7 +421,9 @@ ModelExprData<DoubleType> ModelExprEval<DoubleType>::eval_function(Eqo::EqObjPtr
 
   ModelExprData<DoubleType> out(data_ref);
 
-  bool cache_result = true;
+  // A contact model is only evaluated on the contact, and the cache is used for models on the whole region
+  const bool use_cache = indexes.empty();
+  bool cache_result = use_cache;
   ModelExprDataCachePtr<DoubleType> cache = const_cast<Region *>(data_ref)->GetModelExprDataCache<DoubleType>();
   if (!cache)
   {
@@ -429,7 +431,7 @@ ModelExprData<DoubleType> ModelExprEval<DoubleType>::eval_function(Eqo::EqObjPtr
     const_cast<Region *>(data_ref)->SetModelExprDataCache(cache);
   }
 
-  if (cache->GetEntry(EngineAPI::getStringValue(arg), out))
+  if (use_cache && cache->GetEntry(EngineAPI::getStringValue(arg), out))
   {
     cache_result = false;
   }
-- 
2.43.0


From be2a4ee56450df62943f19d254899ee45d1d17ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:42 +0000
Subject: [PATCH 31/50] fix: a Python function of a list without elements is
 not called for an element that does not exist

---
 src/MathEval/MathEval.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/MathEval/MathEval.cc b/src/MathEval/MathEval.cc
index a1f3c21..cac3b57 100644
--- a/src/MathEval/MathEval.cc
+++ b/src/MathEval/MathEval.cc
@@ -499,6 +499,7 @@ void MathEval<DoubleType>::EvaluateTclMathFunc(const std::string &func, std::vec
     tclObjVector.resize(cnt);
 
     size_t numelems = 0;
+    bool   hasvec   = false;
     for (size_t i = 0; i < cnt; ++i)
     {
       if (vvals[i] == nullptr)
@@ -508,15 +509,16 @@ void MathEval<DoubleType>::EvaluateTclMathFunc(const std::string &func, std::vec
       else
       {
         tclObjVector[i].clear();
-        if (numelems == 0)
+        if (!hasvec)
         {
+          hasvec   = true;
           numelems = vvals[i]->size();
         }
       }
     }
 
     //// This means we just want to get the one value for constant arguments
-    if (numelems == 0)
+    if (!hasvec)
     {
       numelems = 1;
       result.resize(1);
-- 
2.43.0


From 165b57a08886060ca9cdc0b8a28a5e3e77234c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:03 +0000
Subject: [PATCH 32/50] fix: interface models that depend on each other are an
 error, and not evaluated with 0.0

---
 src/AutoEquation/InterfaceModelExprEval.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/AutoEquation/InterfaceModelExprEval.cc b/src/AutoEquation/InterfaceModelExprEval.cc
index f31cf4a..f2f9ef9 100644
--- a/src/AutoEquation/InterfaceModelExprEval.cc
+++ b/src/AutoEquation/InterfaceModelExprEval.cc
@@ -180,7 +180,8 @@ InterfaceModelExprData<DoubleType> InterfaceModelExprEval<DoubleType>::EvaluateI
         std::ostringstream os;
         os << "Cyclic dependency while evaluating InterfaceNodeModel \"" << m;
         errors.push_back(os.str());
-        out = InterfaceModelExprData<DoubleType>();
+        // there is no value to be used instead
+        return out;
       }
       else
       {
-- 
2.43.0


From 98088f7ea517ff28a83f91a642e56694d98ce71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:21 +0000
Subject: [PATCH 33/50] fix: threads that evaluate parts of a list do not share
 the record of floating point exceptions

---
 src/utility/FPECheck.cc | 2 +-
 src/utility/FPECheck.hh | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utility/FPECheck.cc b/src/utility/FPECheck.cc
index 9227d42..b59ae05 100644
--- a/src/utility/FPECheck.cc
+++ b/src/utility/FPECheck.cc
@@ -14,7 +14,7 @@ SPDX-License-Identifier: Apache-2.0
 #include <cmath>
 #include <cassert>
 
-FPECheck::FPEFlag_t FPECheck::fpe_raised_ = 0;
+thread_local FPECheck::FPEFlag_t FPECheck::fpe_raised_ = 0;
 
 #ifndef _WIN32
 void fpehandle(int)
diff --git a/src/utility/FPECheck.hh b/src/utility/FPECheck.hh
index 7e3502b..65c625f 100644
--- a/src/utility/FPECheck.hh
+++ b/src/utility/FPECheck.hh
@@ -41,6 +41,6 @@ class FPECheck
     FPECheck(const FPECheck &);
     FPECheck &operator=(const FPECheck &);
 
-    static FPECheck::FPEFlag_t fpe_raised_;
+    static thread_local FPECheck::FPEFlag_t fpe_raised_;
 };
 #endif
-- 
2.43.0


From 2217161a8fa8a6db6c293b441d27166c5a23f538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:24 +0000
Subject: [PATCH 34/50] fix: results of an expression obtained together with an
 error were kept for other expressions

---
 src/AutoEquation/InterfaceModelExprEval.cc | 3 ++-
 src/AutoEquation/ModelExprEval.cc          | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/AutoEquation/InterfaceModelExprEval.cc b/src/AutoEquation/InterfaceModelExprEval.cc
index f2f9ef9..9ae5601 100644
--- a/src/AutoEquation/InterfaceModelExprEval.cc
+++ b/src/AutoEquation/InterfaceModelExprEval.cc
@@ -465,7 +465,8 @@ InterfaceModelExprData<DoubleType> InterfaceModelExprEval<DoubleType>::eval_func
     FPECheck::ClearFPE();
   }
 
-  if (cache_result && (out.GetType() != datatype::INVALID))
+  // a result is only good for other expressions if there are no errors for them to report
+  if (cache_result && errors.empty() && (out.GetType() != datatype::INVALID))
   {
     cache->SetEntry(EngineAPI::getStringValue(arg), out);
   }
diff --git a/src/AutoEquation/ModelExprEval.cc b/src/AutoEquation/ModelExprEval.cc
index bd33887..8afb940 100644
--- a/src/AutoEquation/ModelExprEval.cc
+++ b/src/AutoEquation/ModelExprEval.cc
@@ -484,7 +484,8 @@ ModelExprData<DoubleType> ModelExprEval<DoubleType>::eval_function(Eqo::EqObjPtr
     FPECheck::ClearFPE();
   }
 
-  if (cache_result && (out.GetType() != datatype::INVALID))
+  // a result is only good for other expressions if there are no errors for them to report
+  if (cache_result && errors.empty() && (out.GetType() != datatype::INVALID))
   {
     cache->SetEntry(EngineAPI::getStringValue(arg), out);
   }
-- 
2.43.0


From 86cbbc78b96b6a84ecc2b43cbfdc9beb56dc9e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:56 +0000
Subject: [PATCH 35/50] fix: parameter missing on a region of an interface was
 not reported

---
 src/AutoEquation/InterfaceModelExprEval.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/AutoEquation/InterfaceModelExprEval.cc b/src/AutoEquation/InterfaceModelExprEval.cc
index 9ae5601..535546c 100644
--- a/src/AutoEquation/InterfaceModelExprEval.cc
+++ b/src/AutoEquation/InterfaceModelExprEval.cc
@@ -103,6 +103,12 @@ InterfaceModelExprData<DoubleType> InterfaceModelExprEval<DoubleType>::EvaluateV
         const DoubleType val = nk.GetNodeValue("dcop", nm);
         out = InterfaceModelExprData<DoubleType>(val);
       }
+      else
+      {
+        std::ostringstream os;
+        os << "Value for \"" << nm << "\" not available.";
+        errors.push_back(os.str());
+      }
   }
   else
   {
-- 
2.43.0


From 0824f0b705a129c6b4af755f76c94b22c91955e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:35 +0000
Subject: [PATCH 36/50] fix: functions of edge data in a contact node model
 were not evaluated

---
 src/AutoEquation/ModelExprEval.cc | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/AutoEquation/ModelExprEval.cc b/src/AutoEquation/ModelExprEval.cc
index 8afb940..a56c166 100644
--- a/src/AutoEquation/ModelExprEval.cc
+++ b/src/AutoEquation/ModelExprEval.cc
@@ -714,11 +714,11 @@ ModelExprData<DoubleType> ModelExprEval<DoubleType>::EvaluateExternalMath(const
 
     //// This is for our contacts
     //// It only evaluates indexes on our list
-    if (indexsize)
+    //// Data on other parts of the mesh is evaluated everywhere
+    bool tcheck = (((etype == ExpectedType::NODE) && mytest.hasNodeData)
+                 ||((etype == ExpectedType::EDGE) && mytest.hasEdgeData));
+    if (indexsize && tcheck)
     {
-      bool tcheck = (((etype == ExpectedType::NODE) && mytest.hasNodeData)
-                   ||((etype == ExpectedType::EDGE) && mytest.hasEdgeData));
-
       DoubleType lres = 0.0;
       if (all_doubles)
       {
@@ -729,8 +729,7 @@ ModelExprData<DoubleType> ModelExprEval<DoubleType>::EvaluateExternalMath(const
       //// for every number in our array
       for (size_t i=0; i < vlen; ++i)
       {
-        /// This is in case we are processing edge data by mistake
-        if (tcheck && (k < indexsize))
+        if (k < indexsize)
         {
           const size_t myindex = indexes[k];
 //          os << "myindex " << myindex << "\t" << model << "\n";
@@ -771,7 +770,6 @@ ModelExprData<DoubleType> ModelExprEval<DoubleType>::EvaluateExternalMath(const
 
         if (!resultstr.empty())
         {
-          errors.push_back(resultstr);
           /// no need to continue if there are errors
           break;
         }
@@ -791,11 +789,11 @@ ModelExprData<DoubleType> ModelExprEval<DoubleType>::EvaluateExternalMath(const
 //        res = 0.0;
         emath.EvaluateMathFunc(name, dargs, vargs, resultstr, output, vlen);
       }
+    }
 
-      if (!resultstr.empty())
-      {
-        errors.push_back(resultstr);
-      }
+    if (!resultstr.empty())
+    {
+      errors.push_back(resultstr);
     }
     //// Apply similar refactoring for interface evaluation
 
-- 
2.43.0


From 9a903ff2ea79c56c627867ca5eaf5775afa5faa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:11 +0000
Subject: [PATCH 37/50] fix: vec_max and vec_min of no values read past the end
 of the list

---
 src/AutoEquation/InterfaceModelExprEval.cc | 4 ++++
 src/AutoEquation/ModelExprEval.cc          | 8 ++++++++
 2 files changed, 12 insertions(+)

diff --git a/src/AutoEquation/InterfaceModelExprEval.cc b/src/AutoEquation/InterfaceModelExprEval.cc
index 535546c..fc54ccb 100644
--- a/src/AutoEquation/InterfaceModelExprEval.cc
+++ b/src/AutoEquation/InterfaceModelExprEval.cc
@@ -663,6 +663,10 @@ InterfaceModelExprData<DoubleType> InterfaceModelExprEval<DoubleType>::EvaluateE
           DoubleType sum = std::accumulate(output.begin(), output.end(), static_cast<DoubleType>(0.0));
           out = InterfaceModelExprData<DoubleType>(sum);
         }
+        else if (((name == "vec_max") || (name == "vec_min")) && output.empty())
+        {
+          errors.push_back("Function " + name + " has no values to evaluate");
+        }
         else if (name == "vec_max")
         {
           DoubleType max = *(std::max_element(output.begin(), output.end()));
diff --git a/src/AutoEquation/ModelExprEval.cc b/src/AutoEquation/ModelExprEval.cc
index a56c166..aaa5c95 100644
--- a/src/AutoEquation/ModelExprEval.cc
+++ b/src/AutoEquation/ModelExprEval.cc
@@ -817,6 +817,10 @@ ModelExprData<DoubleType> ModelExprEval<DoubleType>::EvaluateExternalMath(const
       {
         max = res;
       }
+      else if (output.empty())
+      {
+        errors.push_back("Function " + name + " has no values to evaluate");
+      }
       else
       {
         max = *(std::max_element(output.begin(), output.end()));
@@ -830,6 +834,10 @@ ModelExprData<DoubleType> ModelExprEval<DoubleType>::EvaluateExternalMath(const
       {
         min = res;
       }
+      else if (output.empty())
+      {
+        errors.push_back("Function " + name + " has no values to evaluate");
+      }
       else
       {
         min = *(std::min_element(output.begin(), output.end()));
-- 
2.43.0


From 2a6b1f4725502c4e243107ba6e983433d6d7844b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:20 +0000
Subject: [PATCH 38/50] fix: an error during a solve left a partially updated
 solution

---
 src/math/Newton.cc | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/math/Newton.cc b/src/math/Newton.cc
index 85d1f23..fadafc3 100644
--- a/src/math/Newton.cc
+++ b/src/math/Newton.cc
@@ -642,6 +642,26 @@ bool Newton<DoubleType>::Solve(LinearSolver<DoubleType> &itermethod, const TimeM
 
   BackupSolutions();
 
+  /// an error while iterating must not leave a partially updated solution
+  struct RestoreOnError {
+    Newton<DoubleType> &newton_;
+    bool                active_;
+    ~RestoreOnError()
+    {
+      if (active_)
+      {
+        try
+        {
+          newton_.RestoreSolutions();
+        }
+        catch (...)
+        {
+          // the original error is the one to report
+        }
+      }
+    }
+  } restore_on_error{*this, true};
+
   /////
   ///// Permutation vector
   /////
@@ -858,6 +878,8 @@ bool Newton<DoubleType>::Solve(LinearSolver<DoubleType> &itermethod, const TimeM
 
   }
 
+  restore_on_error.active_ = false;
+
   if (ohm)
   {
     (*ohm)["iterations"] = ObjectHolder(iteration_list);
-- 
2.43.0


From 4072a39f49fd31efda0c387daabb0938d20d0659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:20 +0000
Subject: [PATCH 39/50] fix: a solver callback which returns no result was
 taken as a solution

---
 src/math/ExternalPreconditioner.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/math/ExternalPreconditioner.cc b/src/math/ExternalPreconditioner.cc
index 47daa32..6f9d4fd 100644
--- a/src/math/ExternalPreconditioner.cc
+++ b/src/math/ExternalPreconditioner.cc
@@ -274,6 +274,7 @@ void ExternalPreconditioner<DoubleType>::DerivedLUSolve(DoubleVec_t<DoubleType>
     if (!ret)
     {
       error_string += "python solver object did not return a dictionary\n";
+      dsAssert(ret, error_string);
     }
     else
     {
@@ -288,7 +289,7 @@ void ExternalPreconditioner<DoubleType>::DerivedLUSolve(DoubleVec_t<DoubleType>
       auto status = result_dictionary["status"].GetBoolean().second;
       auto message = result_dictionary["message"].GetString();
       error_string += message;
-      dsAssert(status, error_string);
+      dsAssert(ret && status, error_string);
       std::vector<double> xv;
       preswap(xv, x);
       bool ret = result_dictionary["x"].GetDoubleList(xv);
@@ -334,6 +335,7 @@ void ExternalPreconditioner<DoubleType>::DerivedLUSolve(ComplexDoubleVec_t<Doubl
     if (!ret)
     {
       error_string += "python solver object did not return a dictionary\n";
+      dsAssert(ret, error_string);
     }
     else
     {
@@ -348,7 +350,7 @@ void ExternalPreconditioner<DoubleType>::DerivedLUSolve(ComplexDoubleVec_t<Doubl
       auto status = result_dictionary["status"].GetBoolean().second;
       auto message = result_dictionary["message"].GetString();
       error_string += message;
-      dsAssert(status, error_string);
+      dsAssert(ret && status, error_string);
 
       bool ret = false;
       ComplexDoubleVec_t<double> xv;
-- 
2.43.0


From dc2e27a5632638b118d51a95d3aa0f9d6fa51711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:16 +0000
Subject: [PATCH 40/50] fix: a solution whose backup name is another kind of
 model was not saved, but restored

---
 src/Geometry/Region.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Geometry/Region.cc b/src/Geometry/Region.cc
index 9cb58c1..a3399e6 100644
--- a/src/Geometry/Region.cc
+++ b/src/Geometry/Region.cc
@@ -1441,6 +1441,10 @@ void Region::BackupSolutions(const std::string &suffix)
     {
       bnm->SetValues(nm->GetScalarValues<double>());
     }
+    else
+    {
+      dsAssert(false, std::string("Node Model: \"") + bname + "\" is not a Node Solution" );
+    }
   }
 }
 
-- 
2.43.0


From c2f713e8fa2a8989226a766c335f7f310dccae32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:16 +0000
Subject: [PATCH 41/50] fix: replacing an equation by one for another variable
 kept the old variable in use

---
 src/Geometry/Region.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/Geometry/Region.cc b/src/Geometry/Region.cc
index a3399e6..9e6678c 100644
--- a/src/Geometry/Region.cc
+++ b/src/Geometry/Region.cc
@@ -1156,12 +1156,20 @@ void Region::AddEquation(EquationHolder &eq)
     {
       if (oeq.GetVariable() != var)
       {
+        if (variableEquationMap.count(var))
+        {
+          std::ostringstream os;
+          os << "ERROR: Can't create equation if its variable is already being used\n"
+              << "New Equation: " << nm << ", Old Equation: " << variableEquationMap[var] << ", Variable: "  << var << "\n";
+          GeometryStream::WriteOut(OutputStream::OutputType::FATAL, *this, os.str());
+        }
+
         std::ostringstream os;
         os << "Warning: Adding a new equation by the same name with a different variable will remove mapping to other variable.\n"
             "Region: " << this->GetName() << ", Equation: " << nm << ", Old variable: " << oeq.GetVariable() << ", New Variable: " << var << "\n";
         GeometryStream::WriteOut(OutputStream::OutputType::INFO, *this, os.str());
 
-        variableEquationMap.erase(var);
+        variableEquationMap.erase(oeq.GetVariable());
         variableEquationMap[var] = nm;
       }
       else
-- 
2.43.0


From 21c30db205affa5ac1143a73f6727ab0ab430251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:19 +0000
Subject: [PATCH 42/50] fix: an error of PARDISO while solving was ignored

---
 src/math/MKLPardisoPreconditioner.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/math/MKLPardisoPreconditioner.cc b/src/math/MKLPardisoPreconditioner.cc
index 07ceadb..cbd916d 100644
--- a/src/math/MKLPardisoPreconditioner.cc
+++ b/src/math/MKLPardisoPreconditioner.cc
@@ -296,6 +296,8 @@ void MKLPardisoData::LUSolveImpl(void *x, const void *b_input)
 
   PARDISO (pt, &maxfct, &mnum, &mtype, &phase,
            &n, a, ia, ja, &idum, &nrhs, &iparm[0], &msglvl, b, x, &error);
+
+  dsAssert(error == 0, "PARDISO failed during LU Back Substitution");
 }
 
 template <>
-- 
2.43.0


From 14bb932f9e79c882b01b711337c95bfb0c12383d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:32 +0000
Subject: [PATCH 43/50] fix: a solve whose update is not a number left the
 solution at it

---
 src/math/Newton.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/math/Newton.cc b/src/math/Newton.cc
index fadafc3..1087787 100644
--- a/src/math/Newton.cc
+++ b/src/math/Newton.cc
@@ -26,6 +26,7 @@ SPDX-License-Identifier: Apache-2.0
 #include "ObjectHolder.hh"
 #include "Interpreter.hh"
 #include "dsTimer.hh"
+#include "FPECheck.hh"
 
 #ifdef DEVSIM_EXTENDED_PRECISION
 #include "Float128.hh"
@@ -844,6 +845,12 @@ bool Newton<DoubleType>::Solve(LinearSolver<DoubleType> &itermethod, const TimeM
     }
   }
 
+  /// values which are not finite are not a solution, the exception is reported by the caller
+  if (FPECheck::CheckFPE())
+  {
+    converged = false;
+  }
+
   if (!converged)
   {
     RestoreSolutions();
-- 
2.43.0


From 4df9d4fe9c46fd8265837d7af2a7bc1aa319db56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:28 +0000
Subject: [PATCH 44/50] fix: a contact equation whose edge or element
 derivative models exist only in part is refused, as a bulk equation is,
 instead of using a missing model or leaving the derivative out

---
 src/Equation/ContactEquation.cc | 126 ++++++++++++++++++++++++++++++--
 1 file changed, 120 insertions(+), 6 deletions(-)

diff --git a/src/Equation/ContactEquation.cc b/src/Equation/ContactEquation.cc
index dd4bd4c..af050a3 100644
--- a/src/Equation/ContactEquation.cc
+++ b/src/Equation/ContactEquation.cc
@@ -789,12 +789,25 @@ void ContactEquation<DoubleType>::AssembleEdgeEquation(const std::string &emodel
       ConstEdgeModelPtr edm0 = region.GetEdgeModel(dermodel0);
       ConstEdgeModelPtr edm1 = region.GetEdgeModel(dermodel1);
 
-      if (!edm0)
+      if ((!edm0) && (!edm1))
       {
         dsErrors::MissingContactEquationModel(region, *this, dermodel0, dsErrors::ModelInfo::EDGE, OutputStream::OutputType::VERBOSE1);
       }
       else
       {
+        // all of them must exist
+        if (!edm0)
+        {
+          dsErrors::MissingContactEquationModel(region, *this, dermodel0, dsErrors::ModelInfo::EDGE, OutputStream::OutputType::FATAL);
+          return;
+        }
+
+        if (!edm1)
+        {
+          dsErrors::MissingContactEquationModel(region, *this, dermodel1, dsErrors::ModelInfo::EDGE, OutputStream::OutputType::FATAL);
+          return;
+        }
+
         EdgeScalarData<DoubleType> edd0(*ec);
         EdgeScalarData<DoubleType> edd1(*ec);
         edd0.times_equal_model(*edm0);
@@ -1001,12 +1014,31 @@ void ContactEquation<DoubleType>::AssembleTriangleEdgeEquation(const std::string
       ConstTriangleEdgeModelPtr edm1 = region.GetTriangleEdgeModel(dermodel1);
       ConstTriangleEdgeModelPtr edm2 = region.GetTriangleEdgeModel(dermodel2);
 
-      if (!edm0)
+      if ((!edm0) && (!edm1) && (!edm2))
       {
         dsErrors::MissingContactEquationModel(region, *this, dermodel0, dsErrors::ModelInfo::EDGE, OutputStream::OutputType::VERBOSE1);
       }
       else
       {
+        // all of them must exist
+        if (!edm0)
+        {
+          dsErrors::MissingContactEquationModel(region, *this, dermodel0, dsErrors::ModelInfo::EDGE, OutputStream::OutputType::FATAL);
+          return;
+        }
+
+        if (!edm1)
+        {
+          dsErrors::MissingContactEquationModel(region, *this, dermodel1, dsErrors::ModelInfo::EDGE, OutputStream::OutputType::FATAL);
+          return;
+        }
+
+        if (!edm2)
+        {
+          dsErrors::MissingContactEquationModel(region, *this, dermodel2, dsErrors::ModelInfo::EDGE, OutputStream::OutputType::FATAL);
+          return;
+        }
+
         TriangleEdgeScalarData<DoubleType> edd0(*ec);
         TriangleEdgeScalarData<DoubleType> edd1(*ec);
         TriangleEdgeScalarData<DoubleType> edd2(*ec);
@@ -1242,12 +1274,37 @@ void ContactEquation<DoubleType>::AssembleTetrahedronEdgeEquation(const std::str
       ConstTetrahedronEdgeModelPtr edm2 = region.GetTetrahedronEdgeModel(dermodel2);
       ConstTetrahedronEdgeModelPtr edm3 = region.GetTetrahedronEdgeModel(dermodel3);
 
-      if (!edm0)
+      if ((!edm0) && (!edm1) && (!edm2) && (!edm3))
       {
         dsErrors::MissingContactEquationModel(region, *this, dermodel0, dsErrors::ModelInfo::EDGE, OutputStream::OutputType::VERBOSE1);
       }
       else
       {
+        // all of them must exist
+        if (!edm0)
+        {
+          dsErrors::MissingContactEquationModel(region, *this, dermodel0, dsErrors::ModelInfo::EDGE, OutputStream::OutputType::FATAL);
+          return;
+        }
+
+        if (!edm1)
+        {
+          dsErrors::MissingContactEquationModel(region, *this, dermodel1, dsErrors::ModelInfo::EDGE, OutputStream::OutputType::FATAL);
+          return;
+        }
+
+        if (!edm2)
+        {
+          dsErrors::MissingContactEquationModel(region, *this, dermodel2, dsErrors::ModelInfo::EDGE, OutputStream::OutputType::FATAL);
+          return;
+        }
+
+        if (!edm3)
+        {
+          dsErrors::MissingContactEquationModel(region, *this, dermodel3, dsErrors::ModelInfo::EDGE, OutputStream::OutputType::FATAL);
+          return;
+        }
+
         TetrahedronEdgeScalarData<DoubleType> edd0(*ec);
         TetrahedronEdgeScalarData<DoubleType> edd1(*ec);
         TetrahedronEdgeScalarData<DoubleType> edd2(*ec);
@@ -1486,12 +1543,25 @@ void ContactEquation<DoubleType>::AssembleEdgeEquationOnCircuit(const std::strin
       ConstEdgeModelPtr edm0 = region.GetEdgeModel(dermodel0);
       ConstEdgeModelPtr edm1 = region.GetEdgeModel(dermodel1);
 
-      if (!edm0)
+      if ((!edm0) && (!edm1))
       {
         dsErrors::MissingContactEquationModel(region, *this, dermodel0, dsErrors::ModelInfo::EDGE, OutputStream::OutputType::VERBOSE1);
       }
       else
       {
+        // all of them must exist
+        if (!edm0)
+        {
+          dsErrors::MissingContactEquationModel(region, *this, dermodel0, dsErrors::ModelInfo::EDGE, OutputStream::OutputType::FATAL);
+          return;
+        }
+
+        if (!edm1)
+        {
+          dsErrors::MissingContactEquationModel(region, *this, dermodel1, dsErrors::ModelInfo::EDGE, OutputStream::OutputType::FATAL);
+          return;
+        }
+
         EdgeScalarData<DoubleType> edd0(*ec);
         EdgeScalarData<DoubleType> edd1(*ec);
         edd0.times_equal_model(*edm0);
@@ -1717,12 +1787,31 @@ void ContactEquation<DoubleType>::AssembleTriangleEdgeEquationOnCircuit(const st
       ConstTriangleEdgeModelPtr edm1 = region.GetTriangleEdgeModel(dermodel1);
       ConstTriangleEdgeModelPtr edm2 = region.GetTriangleEdgeModel(dermodel2);
 
-      if (!edm0)
+      if ((!edm0) && (!edm1) && (!edm2))
       {
         dsErrors::MissingContactEquationModel(region, *this, dermodel0, dsErrors::ModelInfo::EDGE, OutputStream::OutputType::VERBOSE1);
       }
       else
       {
+        // all of them must exist
+        if (!edm0)
+        {
+          dsErrors::MissingContactEquationModel(region, *this, dermodel0, dsErrors::ModelInfo::EDGE, OutputStream::OutputType::FATAL);
+          return;
+        }
+
+        if (!edm1)
+        {
+          dsErrors::MissingContactEquationModel(region, *this, dermodel1, dsErrors::ModelInfo::EDGE, OutputStream::OutputType::FATAL);
+          return;
+        }
+
+        if (!edm2)
+        {
+          dsErrors::MissingContactEquationModel(region, *this, dermodel2, dsErrors::ModelInfo::EDGE, OutputStream::OutputType::FATAL);
+          return;
+        }
+
         TriangleEdgeScalarData<DoubleType> edd0(*ec);
         TriangleEdgeScalarData<DoubleType> edd1(*ec);
         TriangleEdgeScalarData<DoubleType> edd2(*ec);
@@ -1970,12 +2059,37 @@ void ContactEquation<DoubleType>::AssembleTetrahedronEdgeEquationOnCircuit(const
       ConstTetrahedronEdgeModelPtr edm2 = region.GetTetrahedronEdgeModel(dermodel2);
       ConstTetrahedronEdgeModelPtr edm3 = region.GetTetrahedronEdgeModel(dermodel3);
 
-      if (!edm0)
+      if ((!edm0) && (!edm1) && (!edm2) && (!edm3))
       {
         dsErrors::MissingContactEquationModel(region, *this, dermodel0, dsErrors::ModelInfo::EDGE, OutputStream::OutputType::VERBOSE1);
       }
       else
       {
+        // all of them must exist
+        if (!edm0)
+        {
+          dsErrors::MissingContactEquationModel(region, *this, dermodel0, dsErrors::ModelInfo::EDGE, OutputStream::OutputType::FATAL);
+          return;
+        }
+
+        if (!edm1)
+        {
+          dsErrors::MissingContactEquationModel(region, *this, dermodel1, dsErrors::ModelInfo::EDGE, OutputStream::OutputType::FATAL);
+          return;
+        }
+
+        if (!edm2)
+        {
+          dsErrors::MissingContactEquationModel(region, *this, dermodel2, dsErrors::ModelInfo::EDGE, OutputStream::OutputType::FATAL);
+          return;
+        }
+
+        if (!edm3)
+        {
+          dsErrors::MissingContactEquationModel(region, *this, dermodel3, dsErrors::ModelInfo::EDGE, OutputStream::OutputType::FATAL);
+          return;
+        }
+
         TetrahedronEdgeScalarData<DoubleType> edd0(*ec);
         TetrahedronEdgeScalarData<DoubleType> edd1(*ec);
         TetrahedronEdgeScalarData<DoubleType> edd2(*ec);
-- 
2.43.0


From 134c630a6dcb8b89a17a464b09b94c13704a1612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:06 +0000
Subject: [PATCH 45/50] fix: the derivative of an edge or triangle edge current
 or charge with respect to the circuit node is loaded once, not once for each
 variable of the region

---
 src/Equation/ContactEquation.cc | 126 ++++++++++++++++----------------
 1 file changed, 63 insertions(+), 63 deletions(-)

diff --git a/src/Equation/ContactEquation.cc b/src/Equation/ContactEquation.cc
index af050a3..5fee87e 100644
--- a/src/Equation/ContactEquation.cc
+++ b/src/Equation/ContactEquation.cc
@@ -1628,48 +1628,48 @@ void ContactEquation<DoubleType>::AssembleEdgeEquationOnCircuit(const std::strin
           m.push_back(dsMath::RealRowColVal<DoubleType>(crow, col, val));
         }
       }
+    }
 
+    {
+      std::string dermodel = emodel;
+      dermodel += ":" + circuitnode;
+      ConstEdgeModelPtr edm = region.GetEdgeModel(dermodel);
+      if (!edm)
       {
-        std::string dermodel = emodel;
-        dermodel += ":" + circuitnode;
-        ConstEdgeModelPtr edm = region.GetEdgeModel(dermodel);
-        if (!edm)
-        {
-          dsErrors::MissingContactEquationModel(region, *this, dermodel, dsErrors::ModelInfo::EDGE, OutputStream::OutputType::VERBOSE1);
-        }
-        else
-        {
-          EdgeScalarData<DoubleType> edd(*ec);
-          edd.times_equal_model(*edm);
+        dsErrors::MissingContactEquationModel(region, *this, dermodel, dsErrors::ModelInfo::EDGE, OutputStream::OutputType::VERBOSE1);
+      }
+      else
+      {
+        EdgeScalarData<DoubleType> edd(*ec);
+        edd.times_equal_model(*edm);
 
-          const Region::NodeToConstEdgeList_t &ntelist = region.GetNodeToEdgeList();
+        const Region::NodeToConstEdgeList_t &ntelist = region.GetNodeToEdgeList();
 
-          for (ConstNodeList_t::const_iterator cit = cnodes.begin(); cit != cnodes.end(); ++cit)
-          {
-            const ConstEdgeList &el = ntelist[(*cit)->GetIndex()];
+        for (ConstNodeList_t::const_iterator cit = cnodes.begin(); cit != cnodes.end(); ++cit)
+        {
+          const ConstEdgeList &el = ntelist[(*cit)->GetIndex()];
 
-            for (ConstEdgeList::const_iterator it = el.begin() ; it != el.end(); ++it)
+          for (ConstEdgeList::const_iterator it = el.begin() ; it != el.end(); ++it)
+          {
+            if (bothNodesOnContact(cnode_set, **it, n0_sign, n1_sign))
             {
-              if (bothNodesOnContact(cnode_set, **it, n0_sign, n1_sign))
-              {
-                continue;
-              }
+              continue;
+            }
 
-              const  size_t eind = (*it)->GetIndex();
-              const DoubleType val = edd[eind];
+            const  size_t eind = (*it)->GetIndex();
+            const DoubleType val = edd[eind];
 
-              if ((*it)->GetHead() == (*cit))
-              {
-                m.push_back(dsMath::RealRowColVal<DoubleType>(crow, crow, n0_sign * val));
-              }
-              else if ((*it)->GetTail() == (*cit))
-              {
-                m.push_back(dsMath::RealRowColVal<DoubleType>(crow, crow, n1_sign * val));
-              }
-              else
-              {
-                dsAssert(0, "UNEXPECTED");
-              }
+            if ((*it)->GetHead() == (*cit))
+            {
+              m.push_back(dsMath::RealRowColVal<DoubleType>(crow, crow, n0_sign * val));
+            }
+            else if ((*it)->GetTail() == (*cit))
+            {
+              m.push_back(dsMath::RealRowColVal<DoubleType>(crow, crow, n1_sign * val));
+            }
+            else
+            {
+              dsAssert(0, "UNEXPECTED");
             }
           }
         }
@@ -1898,45 +1898,45 @@ void ContactEquation<DoubleType>::AssembleTriangleEdgeEquationOnCircuit(const st
           m.push_back(dsMath::RealRowColVal<DoubleType>(crow, col, val));
         }
       }
+    }
 
+    {
+      std::string dermodel = emodel;
+      dermodel += ":" + circuitnode;
+      ConstTriangleEdgeModelPtr edm = region.GetTriangleEdgeModel(dermodel);
+      if (!edm)
       {
-        std::string dermodel = emodel;
-        dermodel += ":" + circuitnode;
-        ConstTriangleEdgeModelPtr edm = region.GetTriangleEdgeModel(dermodel);
-        if (!edm)
-        {
-          dsErrors::MissingContactEquationModel(region, *this, dermodel, dsErrors::ModelInfo::EDGE, OutputStream::OutputType::VERBOSE1);
-        }
-        else
-        {
-          TriangleEdgeScalarData<DoubleType> edd(*ec);
-          edd.times_equal_model(*edm);
+        dsErrors::MissingContactEquationModel(region, *this, dermodel, dsErrors::ModelInfo::EDGE, OutputStream::OutputType::VERBOSE1);
+      }
+      else
+      {
+        TriangleEdgeScalarData<DoubleType> edd(*ec);
+        edd.times_equal_model(*edm);
 
-          for (ConstNodeList_t::const_iterator cit = cnodes.begin(); cit != cnodes.end(); ++cit)
+        for (ConstNodeList_t::const_iterator cit = cnodes.begin(); cit != cnodes.end(); ++cit)
+        {
+          const ConstTriangleList &ntl = nttlist[(*cit)->GetIndex()];
+          for (ConstTriangleList::const_iterator ti = ntl.begin(); ti != ntl.end(); ++ti)
           {
-            const ConstTriangleList &ntl = nttlist[(*cit)->GetIndex()];
-            for (ConstTriangleList::const_iterator ti = ntl.begin(); ti != ntl.end(); ++ti)
+            const Triangle &triangle = **ti;
+            const size_t tindex = triangle.GetIndex();
+            const ConstEdgeList &edgeList = ttelist[tindex];
+            for (size_t eindex = 0; eindex < edgeList.size(); ++eindex)
             {
-              const Triangle &triangle = **ti;
-              const size_t tindex = triangle.GetIndex();
-              const ConstEdgeList &edgeList = ttelist[tindex];
-              for (size_t eindex = 0; eindex < edgeList.size(); ++eindex)
-              {
-                const Edge &edge = *edgeList[eindex];
+              const Edge &edge = *edgeList[eindex];
 
-                auto val = GetHeadOrTail(edge, *cit, n0_sign, n1_sign, DoubleType(0.0));
+              auto val = GetHeadOrTail(edge, *cit, n0_sign, n1_sign, DoubleType(0.0));
 
-                if ( (val == DoubleType(0.0)) || bothNodesOnContact(cnode_set, edge, n0_sign, n1_sign))
-                {
-                  continue;
-                }
+              if ( (val == DoubleType(0.0)) || bothNodesOnContact(cnode_set, edge, n0_sign, n1_sign))
+              {
+                continue;
+              }
 
-                const size_t vindex = 3 * tindex + eindex;
+              const size_t vindex = 3 * tindex + eindex;
 
-                val *= edd[vindex];
+              val *= edd[vindex];
 
-                m.push_back(dsMath::RealRowColVal<DoubleType>(crow, crow, val));
-              }
+              m.push_back(dsMath::RealRowColVal<DoubleType>(crow, crow, val));
             }
           }
         }
-- 
2.43.0


From f0dc69c4367ed0c9b8b0815cf4b7745ea91142fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:06 +0000
Subject: [PATCH 46/50] fix: assemble the edge_volume_model of an equation
 without an edge_model

---
 src/AutoEquation/ExprEquation.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/AutoEquation/ExprEquation.cc b/src/AutoEquation/ExprEquation.cc
index daad619..16e7fce 100644
--- a/src/AutoEquation/ExprEquation.cc
+++ b/src/AutoEquation/ExprEquation.cc
@@ -51,10 +51,12 @@ void ExprEquation<DoubleType>::DerivedAssemble(dsMath::RealRowColValueVec<Double
         {
             model_cache->clear();
             Equation<DoubleType>::EdgeCoupleAssemble(edge_model_, m, v, w);
-            if (!edge_volume_model_.empty())
-            {
-              Equation<DoubleType>::EdgeNodeVolumeAssemble(edge_volume_model_, m, v, w);
-            }
+        }
+
+        if (!edge_volume_model_.empty())
+        {
+            model_cache->clear();
+            Equation<DoubleType>::EdgeNodeVolumeAssemble(edge_volume_model_, m, v, w);
         }
 
         if (!node_model_.empty())
-- 
2.43.0


From 7348391c1d5848ee9189dc92e74986cf20661f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:47:49 +0000
Subject: [PATCH 47/50] fix: write the display type of an element model on
 triangles to saved devices

---
 src/AutoEquation/TriangleEdgeExprModel.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/AutoEquation/TriangleEdgeExprModel.cc b/src/AutoEquation/TriangleEdgeExprModel.cc
index 9f44356..596fae1 100644
--- a/src/AutoEquation/TriangleEdgeExprModel.cc
+++ b/src/AutoEquation/TriangleEdgeExprModel.cc
@@ -133,7 +133,7 @@ void TriangleEdgeExprModel<DoubleType>::calcTriangleEdgeScalarValues() const
 template <typename DoubleType>
 void TriangleEdgeExprModel<DoubleType>::Serialize(std::ostream &of) const
 {
-  of << "COMMAND element_model -device \"" << GetDeviceName() << "\" -region \"" << GetRegionName() << "\" -name \"" << GetName() << "\" -equation \"" << EngineAPI::getStringValue(equation) << ";\"";
+  of << "COMMAND element_model -device \"" << GetDeviceName() << "\" -region \"" << GetRegionName() << "\" -name \"" << GetName() << "\" -equation \"" << EngineAPI::getStringValue(equation) << ";\" -display_type \"" << GetDisplayTypeString() << "\"";
 }
 
 template class TriangleEdgeExprModel<double>;
-- 
2.43.0


From 4938c41b9831a6d47859cd695356dbbd1e5c4f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:47:49 +0000
Subject: [PATCH 48/50] fix: save the cylindrical element models with the
 commands that make them

---
 src/GeomModels/TriangleCylindricalEdgeCouple.cc | 2 +-
 src/GeomModels/TriangleCylindricalNodeVolume.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GeomModels/TriangleCylindricalEdgeCouple.cc b/src/GeomModels/TriangleCylindricalEdgeCouple.cc
index 80924fe..aaaf29a 100644
--- a/src/GeomModels/TriangleCylindricalEdgeCouple.cc
+++ b/src/GeomModels/TriangleCylindricalEdgeCouple.cc
@@ -161,7 +161,7 @@ Vector<DoubleType> TriangleCylindricalEdgeCouple<DoubleType>::calcTriangleCylind
 template <typename DoubleType>
 void TriangleCylindricalEdgeCouple<DoubleType>::Serialize(std::ostream &of) const
 {
-  of << "COMMAND element_cylindrical_edge_couple -device \"" << GetDeviceName() << "\" -region \"" << GetRegionName() << "\"";
+  of << "COMMAND cylindrical_edge_couple -device \"" << GetDeviceName() << "\" -region \"" << GetRegionName() << "\"";
 }
 
 template class TriangleCylindricalEdgeCouple<double>;
diff --git a/src/GeomModels/TriangleCylindricalNodeVolume.cc b/src/GeomModels/TriangleCylindricalNodeVolume.cc
index db0043a..c789501 100644
--- a/src/GeomModels/TriangleCylindricalNodeVolume.cc
+++ b/src/GeomModels/TriangleCylindricalNodeVolume.cc
@@ -261,7 +261,7 @@ std::vector<DoubleType> TriangleCylindricalNodeVolume<DoubleType>::calcTriangleC
 template <typename DoubleType>
 void TriangleCylindricalNodeVolume<DoubleType>::Serialize(std::ostream &of) const
 {
-  of << "COMMAND element_cylindrical_node_volume -device \"" << GetDeviceName() << "\" -region \"" << GetRegionName() << "\"";
+  of << "COMMAND cylindrical_node_volume -device \"" << GetDeviceName() << "\" -region \"" << GetRegionName() << "\"";
 }
 
 template class TriangleCylindricalNodeVolume<double>;
-- 
2.43.0


From 0fd56248098095bfe7729c6a57220154fa9b8fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:47:49 +0000
Subject: [PATCH 49/50] fix: save a derivative of element_from_edge_model in 3D
 with the command that makes it

---
 src/models/TetrahedronEdgeFromEdgeModelDerivative.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/TetrahedronEdgeFromEdgeModelDerivative.cc b/src/models/TetrahedronEdgeFromEdgeModelDerivative.cc
index 2cd56ed..48c6d34 100644
--- a/src/models/TetrahedronEdgeFromEdgeModelDerivative.cc
+++ b/src/models/TetrahedronEdgeFromEdgeModelDerivative.cc
@@ -147,7 +147,7 @@ void TetrahedronEdgeFromEdgeModelDerivative<DoubleType>::calcTetrahedronEdgeScal
 template <typename DoubleType>
 void TetrahedronEdgeFromEdgeModelDerivative<DoubleType>::Serialize(std::ostream &of) const
 {
-  of << "COMMAND element_pair_from_edge_model -device \"" << GetDeviceName() << "\" -region \"" << GetRegionName() << "\" -edge_model \"" << edgeModelName << "\" -derivative \"" << nodeModelName << "\"";
+  of << "COMMAND element_from_edge_model -device \"" << GetDeviceName() << "\" -region \"" << GetRegionName() << "\" -edge_model \"" << edgeModelName << "\" -derivative \"" << nodeModelName << "\"";
 }
 
 template class TetrahedronEdgeFromEdgeModelDerivative<double>;
-- 
2.43.0


From f74310b916e9ab9ab123f68df395b9d48cd4f86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:11:39 +0000
Subject: [PATCH 50/50] fix: the node told for the relative error of an
 equation is the one which has it

---
 src/Equation/Equation.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Equation/Equation.cc b/src/Equation/Equation.cc
index bde16dd..fd788f4 100644
--- a/src/Equation/Equation.cc
+++ b/src/Equation/Equation.cc
@@ -286,6 +286,7 @@ void Equation<DoubleType>::DefaultUpdate(NodeModel &nm, const dsMath::DoubleVec_
     DoubleType aerr = 0.0;
     DoubleType rerr = 0.0;
     size_t     aerr_node = 0;
+    size_t     rerr_node = 0;
 
     for (size_t i = 0; i < upds.size(); ++i)
     {
@@ -304,6 +305,7 @@ void Equation<DoubleType>::DefaultUpdate(NodeModel &nm, const dsMath::DoubleVec_
         if (nrerror > rerr)
         {
             rerr = nrerror;
+            rerr_node = i;
         }
 
     }
@@ -311,7 +313,7 @@ void Equation<DoubleType>::DefaultUpdate(NodeModel &nm, const dsMath::DoubleVec_
     setAbsError(aerr);
     setRelError(rerr);
     setAbsErrorNodeIndex(aerr_node);
-    setRelErrorNodeIndex(aerr_node);
+    setRelErrorNodeIndex(rerr_node);
 //    dsErrors::EquationMathErrorInfo(*this, rerr, aerr, OutputStream::OutputType::INFO);
 }
 
-- 
2.43.0

