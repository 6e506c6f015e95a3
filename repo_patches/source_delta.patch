From 5ccef15aea581a51e9590c2fe42d8ac67c324dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:24 +0000
Subject: [PATCH 01/29] fix: count an option with attached value once and drop
 its defaults

---
 single_include/blet/args.h | 2 --
 src/args.cpp               | 2 --
 2 files changed, 4 deletions(-)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 64b1326..87da6be 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -2921,8 +2921,6 @@ inline void Args::parseShortArgument_(int maxIndex, char* argv[], int* index) {
                              (*(it->second))->type_ == Argument::MULTI_NUMBER_OPTION)) {
             hasArg = true;
             arg = options.substr(i + 1, options.size() - i);
-            (*(it->second))->isExist_ = true;
-            ++(*(it->second))->count_;
             parseArgument_(maxIndex, argv, index, hasArg, charOption.c_str(), arg.c_str(), *(it->second));
             return;
         }
diff --git a/src/args.cpp b/src/args.cpp
index 3d2399b..65be8fc 100644
--- a/src/args.cpp
+++ b/src/args.cpp
@@ -367,8 +367,6 @@ void Args::parseShortArgument_(int maxIndex, char* argv[], int* index) {
                              (*(it->second))->type_ == Argument::MULTI_NUMBER_OPTION)) {
             hasArg = true;
             arg = options.substr(i + 1, options.size() - i);
-            (*(it->second))->isExist_ = true;
-            ++(*(it->second))->count_;
             parseArgument_(maxIndex, argv, index, hasArg, charOption.c_str(), arg.c_str(), *(it->second));
             return;
         }
-- 
2.43.0


From 761a176a0703072c0a8fc534e497141beeac8393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:38 +0000
Subject: [PATCH 02/29] fix: keep the declared defaults when an argument is
 copied

---
 single_include/blet/args.h | 2 +-
 src/argument.cpp           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 87da6be..8b3408e 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -3352,7 +3352,7 @@ inline Argument::Argument(const Argument& rhs) :
     validDeletable_(rhs.validDeletable_),
     this_(rhs.this_),
     action_(rhs.action_),
-    defaults_() {}
+    defaults_(rhs.defaults_) {}
 
 inline Argument::~Argument() {
     if (valid_ != NULL && validDeletable_) {
diff --git a/src/argument.cpp b/src/argument.cpp
index e5607e7..cac5c95 100644
--- a/src/argument.cpp
+++ b/src/argument.cpp
@@ -135,7 +135,7 @@ Argument::Argument(const Argument& rhs) :
     validDeletable_(rhs.validDeletable_),
     this_(rhs.this_),
     action_(rhs.action_),
-    defaults_() {}
+    defaults_(rhs.defaults_) {}
 
 Argument::~Argument() {
     if (valid_ != NULL && validDeletable_) {
-- 
2.43.0


From 0f65c4a832bcb6967bcb95f6614c1dc5e8b82f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:52 +0000
Subject: [PATCH 03/29] fix: do not share the ownership of the validator with a
 copy of argument

---
 single_include/blet/args.h | 2 +-
 src/argument.cpp           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 8b3408e..80e197b 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -3349,7 +3349,7 @@ inline Argument::Argument(const Argument& rhs) :
     help_(rhs.help_),
     metavar_(rhs.metavar_),
     valid_(rhs.valid_),
-    validDeletable_(rhs.validDeletable_),
+    validDeletable_(false), // the validator stays owned by rhs
     this_(rhs.this_),
     action_(rhs.action_),
     defaults_(rhs.defaults_) {}
diff --git a/src/argument.cpp b/src/argument.cpp
index cac5c95..f2a1ab3 100644
--- a/src/argument.cpp
+++ b/src/argument.cpp
@@ -132,7 +132,7 @@ Argument::Argument(const Argument& rhs) :
     help_(rhs.help_),
     metavar_(rhs.metavar_),
     valid_(rhs.valid_),
-    validDeletable_(rhs.validDeletable_),
+    validDeletable_(false), // the validator stays owned by rhs
     this_(rhs.this_),
     action_(rhs.action_),
     defaults_(rhs.defaults_) {}
-- 
2.43.0


From ae27453eb459d7ebadebbb96bbd3301dc7df108f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:11 +0000
Subject: [PATCH 04/29] fix: keep the help and version options registered when
 a destination is added

---
 include/blet/args/argument.h | 11 +++++------
 single_include/blet/args.h   | 23 +++++++++++++++++------
 src/argument.cpp             | 12 ++++++++++++
 3 files changed, 34 insertions(+), 12 deletions(-)

diff --git a/include/blet/args/argument.h b/include/blet/args/argument.h
index a2cd6ad..117489b 100644
--- a/include/blet/args/argument.h
+++ b/include/blet/args/argument.h
@@ -652,6 +652,8 @@ class Argument : public ArgumentElement {
 
     void toNumber_();
 
+    void replace_(Argument* argument);
+
     std::string metavarDefault_();
 
     void typeConstructor_();
@@ -692,8 +694,7 @@ class ArgumentType : public Argument {
         Argument(*argument),
         dest_(dest),
         toDestCustom_(toDest) {
-        delete argument;
-        *this_ = this;
+        replace_(argument);
     }
     virtual ~ArgumentType() {}
 
@@ -727,8 +728,7 @@ class ArgumentVectorType : public Argument {
         Argument(*argument),
         dest_(dest),
         toDestCustom_(toDest) {
-        delete argument;
-        *this_ = this;
+        replace_(argument);
     }
     virtual ~ArgumentVectorType() {}
 
@@ -799,8 +799,7 @@ class ArgumentVectorVectorType : public Argument {
         Argument(*argument),
         dest_(dest),
         toDestCustom_(toDest) {
-        delete argument;
-        *this_ = this;
+        replace_(argument);
     }
     virtual ~ArgumentVectorVectorType() {}
 
diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 80e197b..d1d121e 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -1203,6 +1203,8 @@ class Argument : public ArgumentElement {
 
     void toNumber_();
 
+    void replace_(Argument* argument);
+
     std::string metavarDefault_();
 
     void typeConstructor_();
@@ -1243,8 +1245,7 @@ class ArgumentType : public Argument {
         Argument(*argument),
         dest_(dest),
         toDestCustom_(toDest) {
-        delete argument;
-        *this_ = this;
+        replace_(argument);
     }
     inline virtual ~ArgumentType() {}
 
@@ -1278,8 +1279,7 @@ class ArgumentVectorType : public Argument {
         Argument(*argument),
         dest_(dest),
         toDestCustom_(toDest) {
-        delete argument;
-        *this_ = this;
+        replace_(argument);
     }
     inline virtual ~ArgumentVectorType() {}
 
@@ -1350,8 +1350,7 @@ class ArgumentVectorVectorType : public Argument {
         Argument(*argument),
         dest_(dest),
         toDestCustom_(toDest) {
-        delete argument;
-        *this_ = this;
+        replace_(argument);
     }
     inline virtual ~ArgumentVectorVectorType() {}
 
@@ -3601,6 +3600,18 @@ inline void Argument::toNumber_() {
     }
 }
 
+inline void Argument::replace_(Argument* argument) {
+    // keep the registration of help and version
+    if (args_.helpOption_ == argument) {
+        args_.helpOption_ = this;
+    }
+    if (args_.versionOption_ == argument) {
+        args_.versionOption_ = this;
+    }
+    delete argument;
+    *this_ = this;
+}
+
 inline std::string Argument::metavarDefault_() {
     const char* flag = NULL;
     // get short or long name
diff --git a/src/argument.cpp b/src/argument.cpp
index f2a1ab3..25e5b5a 100644
--- a/src/argument.cpp
+++ b/src/argument.cpp
@@ -384,6 +384,18 @@ void Argument::toNumber_() {
     }
 }
 
+void Argument::replace_(Argument* argument) {
+    // keep the registration of help and version
+    if (args_.helpOption_ == argument) {
+        args_.helpOption_ = this;
+    }
+    if (args_.versionOption_ == argument) {
+        args_.versionOption_ = this;
+    }
+    delete argument;
+    *this_ = this;
+}
+
 std::string Argument::metavarDefault_() {
     const char* flag = NULL;
     // get short or long name
-- 
2.43.0


From 1d719168f8aca64d8a3e255fa149f522f88d2813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:26 +0000
Subject: [PATCH 05/29] fix: accept the same name several times in
 removeArguments

---
 single_include/blet/args.h | 4 +++-
 src/args.cpp               | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index d1d121e..02be111 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -2826,7 +2826,9 @@ inline void Args::removeArguments(const Vector& nameOrFlags) {
         if (it == argumentFromName_.end()) {
             throw ArgumentException(nameOrFlags[i].c_str(), "argument not found");
         }
-        vIt.push_back(it);
+        if (std::find(vIt.begin(), vIt.end(), it) == vIt.end()) {
+            vIt.push_back(it);
+        }
     }
     for (std::size_t i = 0; i < vIt.size(); ++i) {
         Argument** ppArgument = vIt[i]->second;
diff --git a/src/args.cpp b/src/args.cpp
index 65be8fc..94e1387 100644
--- a/src/args.cpp
+++ b/src/args.cpp
@@ -273,7 +273,9 @@ void Args::removeArguments(const Vector& nameOrFlags) {
         if (it == argumentFromName_.end()) {
             throw ArgumentException(nameOrFlags[i].c_str(), "argument not found");
         }
-        vIt.push_back(it);
+        if (std::find(vIt.begin(), vIt.end(), it) == vIt.end()) {
+            vIt.push_back(it);
+        }
     }
     for (std::size_t i = 0; i < vIt.size(); ++i) {
         Argument** ppArgument = vIt[i]->second;
-- 
2.43.0


From 83d954463fca5ae067e93d37a513bf2be3aaaf7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:38 +0000
Subject: [PATCH 06/29] fix: check that each flag of a new argument is free

---
 single_include/blet/args.h | 4 ++--
 src/args.cpp               | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 02be111..c378807 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -2792,8 +2792,8 @@ inline Argument& Args::addArgument(const Vector& nameOrFlags) {
 
         for (std::size_t i = 0; i < nameOrFlags.size(); ++i) {
             Argument::validFormatFlag_(nameOrFlags[i].c_str());
-            if (argumentFromName_.find(nameOrFlags.front()) != argumentFromName_.end()) {
-                throw ArgumentException(nameOrFlags.front().c_str(), "invalid flag already exist");
+            if (argumentFromName_.find(nameOrFlags[i]) != argumentFromName_.end()) {
+                throw ArgumentException(nameOrFlags[i].c_str(), "invalid flag already exist");
             }
             if (std::find(newFlags.begin(), newFlags.end(), nameOrFlags[i]) == newFlags.end()) {
                 newFlags.push_back(nameOrFlags[i]);
diff --git a/src/args.cpp b/src/args.cpp
index 94e1387..8d912cc 100644
--- a/src/args.cpp
+++ b/src/args.cpp
@@ -239,8 +239,8 @@ Argument& Args::addArgument(const Vector& nameOrFlags) {
 
         for (std::size_t i = 0; i < nameOrFlags.size(); ++i) {
             Argument::validFormatFlag_(nameOrFlags[i].c_str());
-            if (argumentFromName_.find(nameOrFlags.front()) != argumentFromName_.end()) {
-                throw ArgumentException(nameOrFlags.front().c_str(), "invalid flag already exist");
+            if (argumentFromName_.find(nameOrFlags[i]) != argumentFromName_.end()) {
+                throw ArgumentException(nameOrFlags[i].c_str(), "invalid flag already exist");
             }
             if (std::find(newFlags.begin(), newFlags.end(), nameOrFlags[i]) == newFlags.end()) {
                 newFlags.push_back(nameOrFlags[i]);
-- 
2.43.0


From 5b6e39afa8b9059b4c475c3a745fa056b3338a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:17 +0000
Subject: [PATCH 07/29] fix: forget the previous default values when they are
 declared again

---
 single_include/blet/args.h | 7 ++++---
 src/argument.cpp           | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index c378807..1c50862 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -3732,9 +3732,12 @@ inline void Argument::typeConstructor_() {
 }
 
 inline void Argument::defaultsConstructor_() {
+    // forget the previous default arguments
+    clear();
+    argument_ = "";
+    default_ = "";
     // default arguments
     if (nargs_ > 0 && defaults_.size() > 0) {
-        clear();
         if (type_ == Argument::POSITIONAL_ARGUMENT || type_ == Argument::SIMPLE_OPTION) {
             if (defaults_.size() != nargs_) {
                 throw ArgumentException(nameOrFlags_.front().c_str(),
@@ -3748,7 +3751,6 @@ inline void Argument::defaultsConstructor_() {
                 throw ArgumentException(nameOrFlags_.front().c_str(),
                                         "invalid number of argument with number of default argument");
             }
-            default_ = "";
             for (std::size_t i = 0; i < defaults_.size(); ++i) {
                 if (i > 0) {
                     default_ += ", ";
@@ -3759,7 +3761,6 @@ inline void Argument::defaultsConstructor_() {
         }
         if (type_ == Argument::INFINITE_POSITIONAL_ARGUMENT || type_ == Argument::MULTI_OPTION ||
             type_ == Argument::INFINITE_OPTION || type_ == Argument::MULTI_INFINITE_OPTION) {
-            default_ = "";
             for (std::size_t i = 0; i < defaults_.size(); ++i) {
                 if (i > 0) {
                     default_ += ", ";
diff --git a/src/argument.cpp b/src/argument.cpp
index 25e5b5a..1c3eaaf 100644
--- a/src/argument.cpp
+++ b/src/argument.cpp
@@ -514,9 +514,12 @@ void Argument::typeConstructor_() {
 }
 
 void Argument::defaultsConstructor_() {
+    // forget the previous default arguments
+    clear();
+    argument_ = "";
+    default_ = "";
     // default arguments
     if (nargs_ > 0 && defaults_.size() > 0) {
-        clear();
         if (type_ == Argument::POSITIONAL_ARGUMENT || type_ == Argument::SIMPLE_OPTION) {
             if (defaults_.size() != nargs_) {
                 throw ArgumentException(nameOrFlags_.front().c_str(),
@@ -530,7 +533,6 @@ void Argument::defaultsConstructor_() {
                 throw ArgumentException(nameOrFlags_.front().c_str(),
                                         "invalid number of argument with number of default argument");
             }
-            default_ = "";
             for (std::size_t i = 0; i < defaults_.size(); ++i) {
                 if (i > 0) {
                     default_ += ", ";
@@ -541,7 +543,6 @@ void Argument::defaultsConstructor_() {
         }
         if (type_ == Argument::INFINITE_POSITIONAL_ARGUMENT || type_ == Argument::MULTI_OPTION ||
             type_ == Argument::INFINITE_OPTION || type_ == Argument::MULTI_INFINITE_OPTION) {
-            default_ = "";
             for (std::size_t i = 0; i < defaults_.size(); ++i) {
                 if (i > 0) {
                     default_ += ", ";
-- 
2.43.0


From 6e2078295451ffdfec6dab11e1713aa2a6ae0be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:29 +0000
Subject: [PATCH 08/29] fix: forget the values and additional arguments of the
 previous parse

---
 single_include/blet/args.h | 14 +++-----------
 src/args.cpp               |  1 +
 src/argument.cpp           | 13 ++-----------
 3 files changed, 6 insertions(+), 22 deletions(-)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 1c50862..e31c0d8 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -2618,6 +2618,7 @@ inline void Args::parseArguments(int argc, char* argv[]) {
     for (std::list<Argument*>::iterator it = arguments_.begin(); it != arguments_.end(); ++it) {
         (*it)->clear_();
     }
+    additionalArguments_.clear();
     // check help option exists
     if (helpOption_ == NULL) {
         const std::map<std::string, blet::args::Argument**>::const_iterator cith = argumentFromName_.find("-h");
@@ -3799,21 +3800,12 @@ inline void Argument::defaultsConstructor_() {
 }
 
 inline void Argument::clear_() {
-    argument_ = default_;
+    // forget the previous values
+    defaultsConstructor_();
     isNumber_ = false;
     number_ = 0.0;
     count_ = 0;
     isExist_ = false;
-    for (std::size_t i = 0; i < size(); ++i) {
-        at(i).argument_ = at(i).default_;
-        at(i).isNumber_ = false;
-        at(i).number_ = 0.0;
-        for (std::size_t j = 0; j < at(i).size(); ++j) {
-            at(i).at(j).argument_ = at(i).at(j).default_;
-            at(i).at(j).isNumber_ = false;
-            at(i).at(j).number_ = 0.0;
-        }
-    }
 }
 
 } // namespace args
diff --git a/src/args.cpp b/src/args.cpp
index 8d912cc..58c6c68 100644
--- a/src/args.cpp
+++ b/src/args.cpp
@@ -65,6 +65,7 @@ void Args::parseArguments(int argc, char* argv[]) {
     for (std::list<Argument*>::iterator it = arguments_.begin(); it != arguments_.end(); ++it) {
         (*it)->clear_();
     }
+    additionalArguments_.clear();
     // check help option exists
     if (helpOption_ == NULL) {
         const std::map<std::string, blet::args::Argument**>::const_iterator cith = argumentFromName_.find("-h");
diff --git a/src/argument.cpp b/src/argument.cpp
index 1c3eaaf..d791010 100644
--- a/src/argument.cpp
+++ b/src/argument.cpp
@@ -581,21 +581,12 @@ void Argument::defaultsConstructor_() {
 }
 
 void Argument::clear_() {
-    argument_ = default_;
+    // forget the previous values
+    defaultsConstructor_();
     isNumber_ = false;
     number_ = 0.0;
     count_ = 0;
     isExist_ = false;
-    for (std::size_t i = 0; i < size(); ++i) {
-        at(i).argument_ = at(i).default_;
-        at(i).isNumber_ = false;
-        at(i).number_ = 0.0;
-        for (std::size_t j = 0; j < at(i).size(); ++j) {
-            at(i).at(j).argument_ = at(i).at(j).default_;
-            at(i).at(j).isNumber_ = false;
-            at(i).at(j).number_ = 0.0;
-        }
-    }
 }
 
 } // namespace args
-- 
2.43.0


From 7c44be3f90bd1b57e117a9677ab64c1e86dcaea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:43 +0000
Subject: [PATCH 09/29] fix: replace the default values of a positional by the
 given ones

---
 single_include/blet/args.h | 3 +++
 src/args.cpp               | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index e31c0d8..c66c378 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -3157,12 +3157,14 @@ inline void Args::parsePositionnalArgument_(int argc, char* argv[], int* index,
             if (*index + argument.nargs_ > static_cast<unsigned int>(argc)) {
                 throw ParseArgumentException(argument.nameOrFlags_.front().c_str(), "bad number of argument");
             }
+            argument.clear();
             for (unsigned int i = *index; i < (*index + argument.nargs_); ++i) {
                 argument.push_back(argv[i]);
             }
             *index += argument.nargs_ - 1;
         }
         else if (argument.type_ == Argument::INFINITE_POSITIONAL_ARGUMENT) {
+            argument.clear();
             std::size_t countArg = 0;
             for (int i = *index; i < argc; ++i) {
                 if (!hasEndOption && endOfInfiniteArgument_(argv[i])) {
@@ -3174,6 +3176,7 @@ inline void Args::parsePositionnalArgument_(int argc, char* argv[], int* index,
             *index += countArg - 1;
         }
         else if (argument.type_ == Argument::INFINITE_NUMBER_POSITIONAL_ARGUMENT) {
+            argument.clear();
             std::size_t countArg = 0;
             for (int i = *index; i < argc; i += argument.nargs_) {
                 if (!hasEndOption && endOfInfiniteArgument_(argv[i])) {
diff --git a/src/args.cpp b/src/args.cpp
index 58c6c68..3b74f2d 100644
--- a/src/args.cpp
+++ b/src/args.cpp
@@ -604,12 +604,14 @@ void Args::parsePositionnalArgument_(int argc, char* argv[], int* index, bool ha
             if (*index + argument.nargs_ > static_cast<unsigned int>(argc)) {
                 throw ParseArgumentException(argument.nameOrFlags_.front().c_str(), "bad number of argument");
             }
+            argument.clear();
             for (unsigned int i = *index; i < (*index + argument.nargs_); ++i) {
                 argument.push_back(argv[i]);
             }
             *index += argument.nargs_ - 1;
         }
         else if (argument.type_ == Argument::INFINITE_POSITIONAL_ARGUMENT) {
+            argument.clear();
             std::size_t countArg = 0;
             for (int i = *index; i < argc; ++i) {
                 if (!hasEndOption && endOfInfiniteArgument_(argv[i])) {
@@ -621,6 +623,7 @@ void Args::parsePositionnalArgument_(int argc, char* argv[], int* index, bool ha
             *index += countArg - 1;
         }
         else if (argument.type_ == Argument::INFINITE_NUMBER_POSITIONAL_ARGUMENT) {
+            argument.clear();
             std::size_t countArg = 0;
             for (int i = *index; i < argc; i += argument.nargs_) {
                 if (!hasEndOption && endOfInfiniteArgument_(argv[i])) {
-- 
2.43.0


From 5d97bc410deb3b6826fad0b0a4e96288c8b6a8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:58 +0000
Subject: [PATCH 10/29] fix: do not fill C string destinations with pointers to
 temporaries

---
 include/blet/args/argument.h | 4 ++--
 single_include/blet/args.h   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/blet/args/argument.h b/include/blet/args/argument.h
index 117489b..fff9cda 100644
--- a/include/blet/args/argument.h
+++ b/include/blet/args/argument.h
@@ -253,9 +253,9 @@ class ArgumentElement : public std::vector<ArgumentElement> {
     /**
      * @brief Get the string argument
      *
-     * @return std::string
+     * @return const std::string&
      */
-    std::string getString() const {
+    const std::string& getString() const {
         return argument_;
     }
 
diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index c66c378..36b4ef1 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -806,7 +806,7 @@ class ArgumentElement : public std::vector<ArgumentElement> {
      *
      * @return std::string
      */
-    inline std::string getString() const {
+    inline const std::string& getString() const {
         return argument_;
     }
 
-- 
2.43.0


From d171194782869726c5ead485199d9867bc4165e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:10 +0000
Subject: [PATCH 11/29] fix: reject the empty string in ValidNumber

---
 single_include/blet/args.h | 2 +-
 src/valid.cpp              | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 36b4ef1..ae58d9d 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -4329,7 +4329,7 @@ inline bool ValidNumber::isValid(std::vector<std::string>& args) {
     for (std::size_t i = 0; i < args.size(); ++i) {
         char* endPtr = NULL;
         ::strtod(args[i].c_str(), &endPtr);
-        if (endPtr != NULL && endPtr[0] != '\0') {
+        if (endPtr == args[i].c_str() || endPtr[0] != '\0') {
             std::ostringstream oss("");
             oss << "\"" << args[i] << "\" is not a number";
             throw ParseArgumentValidException(oss.str().c_str());
diff --git a/src/valid.cpp b/src/valid.cpp
index 28c6553..e1e70af 100644
--- a/src/valid.cpp
+++ b/src/valid.cpp
@@ -49,7 +49,7 @@ bool ValidNumber::isValid(std::vector<std::string>& args) {
     for (std::size_t i = 0; i < args.size(); ++i) {
         char* endPtr = NULL;
         ::strtod(args[i].c_str(), &endPtr);
-        if (endPtr != NULL && endPtr[0] != '\0') {
+        if (endPtr == args[i].c_str() || endPtr[0] != '\0') {
             std::ostringstream oss("");
             oss << "\"" << args[i] << "\" is not a number";
             throw ParseArgumentValidException(oss.str().c_str());
-- 
2.43.0


From 4de0237dea59d383386aa6d92d9aa6a22541d0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:22 +0000
Subject: [PATCH 12/29] fix: apply the store false, help and version actions
 after a store true action

---
 single_include/blet/args.h | 8 ++++----
 src/argument.cpp           | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index ae58d9d..75d40ce 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -3675,10 +3675,6 @@ inline void Argument::typeConstructor_() {
                                     "positional argument cannot use with this action or this nargs");
         }
     }
-    else if (nargs_ == 0 || action_ == Action::STORE_TRUE) {
-        nargs_ = 0;
-        type_ = Argument::BOOLEAN_OPTION;
-    }
     else if (action_ == Action::STORE_FALSE) {
         nargs_ = 0;
         type_ = Argument::REVERSE_BOOLEAN_OPTION;
@@ -3703,6 +3699,10 @@ inline void Argument::typeConstructor_() {
         nargs_ = 0;
         type_ = Argument::VERSION_OPTION;
     }
+    else if (nargs_ == 0 || action_ == Action::STORE_TRUE) {
+        nargs_ = 0;
+        type_ = Argument::BOOLEAN_OPTION;
+    }
     // is simple
     else if (nargs_ == 1 && action_ == Action::NONE) {
         type_ = Argument::SIMPLE_OPTION;
diff --git a/src/argument.cpp b/src/argument.cpp
index d791010..22aa66c 100644
--- a/src/argument.cpp
+++ b/src/argument.cpp
@@ -453,10 +453,6 @@ void Argument::typeConstructor_() {
                                     "positional argument cannot use with this action or this nargs");
         }
     }
-    else if (nargs_ == 0 || action_ == Action::STORE_TRUE) {
-        nargs_ = 0;
-        type_ = Argument::BOOLEAN_OPTION;
-    }
     else if (action_ == Action::STORE_FALSE) {
         nargs_ = 0;
         type_ = Argument::REVERSE_BOOLEAN_OPTION;
@@ -481,6 +477,10 @@ void Argument::typeConstructor_() {
         nargs_ = 0;
         type_ = Argument::VERSION_OPTION;
     }
+    else if (nargs_ == 0 || action_ == Action::STORE_TRUE) {
+        nargs_ = 0;
+        type_ = Argument::BOOLEAN_OPTION;
+    }
     // is simple
     else if (nargs_ == 1 && action_ == Action::NONE) {
         type_ = Argument::SIMPLE_OPTION;
-- 
2.43.0


From 45e70a5623928de3896c90482b73b9c5075a9aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:32 +0000
Subject: [PATCH 13/29] fix: unregister only its own help or version action

---
 single_include/blet/args.h | 4 ++--
 src/argument.cpp           | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 75d40ce..27f8215 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -3473,11 +3473,11 @@ inline Argument& Argument::flag(const char* flag__) {
 
 inline Argument& Argument::action(enum Action::eAction action__) {
     // reset help option
-    if (action_ == Action::HELP) {
+    if (args_.helpOption_ == this) {
         args_.helpOption_ = NULL;
     }
     // reset version option
-    if (action_ == Action::VERSION) {
+    if (args_.versionOption_ == this) {
         args_.versionOption_ = NULL;
     }
     action_ = action__;
diff --git a/src/argument.cpp b/src/argument.cpp
index 22aa66c..41d1af7 100644
--- a/src/argument.cpp
+++ b/src/argument.cpp
@@ -251,11 +251,11 @@ Argument& Argument::flag(const char* flag__) {
 
 Argument& Argument::action(enum Action::eAction action__) {
     // reset help option
-    if (action_ == Action::HELP) {
+    if (args_.helpOption_ == this) {
         args_.helpOption_ = NULL;
     }
     // reset version option
-    if (action_ == Action::VERSION) {
+    if (args_.versionOption_ == this) {
         args_.versionOption_ = NULL;
     }
     action_ = action__;
-- 
2.43.0


From 384bef62fa27edf2c842c634c9226aa04eef53f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:45 +0000
Subject: [PATCH 14/29] fix: never read argv[0] as an option or when argc is 0

---
 include/blet/args/utils.h  | 2 +-
 single_include/blet/args.h | 4 ++--
 src/args.cpp               | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/blet/args/utils.h b/include/blet/args/utils.h
index ff4fda2..3d57969 100644
--- a/include/blet/args/utils.h
+++ b/include/blet/args/utils.h
@@ -89,7 +89,7 @@ inline bool isEndOption(const char* arg) {
  * @return int
  */
 inline int endOptionIndex(int argc, char** argv) {
-    for (int i = 0; i < argc; ++i) {
+    for (int i = 1; i < argc; ++i) {
         if (isEndOption(argv[i])) {
             return i;
         }
diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 27f8215..bf672dd 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -2538,7 +2538,7 @@ inline bool isEndOption(const char* arg) {
  * @return int
  */
 inline int endOptionIndex(int argc, char** argv) {
-    for (int i = 0; i < argc; ++i) {
+    for (int i = 1; i < argc; ++i) {
         if (isEndOption(argv[i])) {
             return i;
         }
@@ -2637,7 +2637,7 @@ inline void Args::parseArguments(int argc, char* argv[]) {
         addArgument(flags).action(Action::HELP).help("show this help message and exit");
     }
     // get argv[0] if filename is empty
-    if (binaryName_.empty()) {
+    if (binaryName_.empty() && argc > 0) {
         binaryName_ = argv[0];
     }
     // save index of "--" if exist
diff --git a/src/args.cpp b/src/args.cpp
index 3b74f2d..fbbda49 100644
--- a/src/args.cpp
+++ b/src/args.cpp
@@ -84,7 +84,7 @@ void Args::parseArguments(int argc, char* argv[]) {
         addArgument(flags).action(Action::HELP).help("show this help message and exit");
     }
     // get argv[0] if filename is empty
-    if (binaryName_.empty()) {
+    if (binaryName_.empty() && argc > 0) {
         binaryName_ = argv[0];
     }
     // save index of "--" if exist
-- 
2.43.0


From 68c640c76e51e2d3a1fad94dd2fdeaef9cdb654d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:13 +0000
Subject: [PATCH 15/29] fix: do not keep rejected default values

---
 single_include/blet/args.h | 3 +++
 src/argument.cpp           | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index bf672dd..dedfea0 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -3744,6 +3744,7 @@ inline void Argument::defaultsConstructor_() {
     if (nargs_ > 0 && defaults_.size() > 0) {
         if (type_ == Argument::POSITIONAL_ARGUMENT || type_ == Argument::SIMPLE_OPTION) {
             if (defaults_.size() != nargs_) {
+                defaults_.clear();
                 throw ArgumentException(nameOrFlags_.front().c_str(),
                                         "invalid number of argument with number of default argument");
             }
@@ -3752,6 +3753,7 @@ inline void Argument::defaultsConstructor_() {
         }
         if (type_ == Argument::NUMBER_POSITIONAL_ARGUMENT || type_ == Argument::NUMBER_OPTION) {
             if (defaults_.size() != nargs_) {
+                defaults_.clear();
                 throw ArgumentException(nameOrFlags_.front().c_str(),
                                         "invalid number of argument with number of default argument");
             }
@@ -3776,6 +3778,7 @@ inline void Argument::defaultsConstructor_() {
         if (type_ == Argument::INFINITE_NUMBER_POSITIONAL_ARGUMENT || type_ == Argument::MULTI_NUMBER_OPTION ||
             type_ == Argument::MULTI_NUMBER_INFINITE_OPTION) {
             if (defaults_.size() % nargs_ != 0) {
+                defaults_.clear();
                 throw ArgumentException(nameOrFlags_.front().c_str(),
                                         "invalid number of argument with number of default argument");
             }
diff --git a/src/argument.cpp b/src/argument.cpp
index 41d1af7..bb620f8 100644
--- a/src/argument.cpp
+++ b/src/argument.cpp
@@ -522,6 +522,7 @@ void Argument::defaultsConstructor_() {
     if (nargs_ > 0 && defaults_.size() > 0) {
         if (type_ == Argument::POSITIONAL_ARGUMENT || type_ == Argument::SIMPLE_OPTION) {
             if (defaults_.size() != nargs_) {
+                defaults_.clear();
                 throw ArgumentException(nameOrFlags_.front().c_str(),
                                         "invalid number of argument with number of default argument");
             }
@@ -530,6 +531,7 @@ void Argument::defaultsConstructor_() {
         }
         if (type_ == Argument::NUMBER_POSITIONAL_ARGUMENT || type_ == Argument::NUMBER_OPTION) {
             if (defaults_.size() != nargs_) {
+                defaults_.clear();
                 throw ArgumentException(nameOrFlags_.front().c_str(),
                                         "invalid number of argument with number of default argument");
             }
@@ -554,6 +556,7 @@ void Argument::defaultsConstructor_() {
         if (type_ == Argument::INFINITE_NUMBER_POSITIONAL_ARGUMENT || type_ == Argument::MULTI_NUMBER_OPTION ||
             type_ == Argument::MULTI_NUMBER_INFINITE_OPTION) {
             if (defaults_.size() % nargs_ != 0) {
+                defaults_.clear();
                 throw ArgumentException(nameOrFlags_.front().c_str(),
                                         "invalid number of argument with number of default argument");
             }
-- 
2.43.0


From d5a2d199daa2bdbf9897365e4956ddde2d687717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:44 +0000
Subject: [PATCH 16/29] fix: convert values to integer and long double
 destinations without loss

---
 include/blet/args/argument.h | 40 ++++++++++++++++++++++++++----------
 single_include/blet/args.h   | 40 ++++++++++++++++++++++++++----------
 2 files changed, 58 insertions(+), 22 deletions(-)

diff --git a/include/blet/args/argument.h b/include/blet/args/argument.h
index fff9cda..7554afb 100644
--- a/include/blet/args/argument.h
+++ b/include/blet/args/argument.h
@@ -28,6 +28,7 @@
 
 #include <cstdlib> // stdtod
 #include <cstring> // memcpy
+#include <limits>
 #include <string>
 #include <vector>
 
@@ -149,6 +150,23 @@ inline void boolTo(const bool& b, char (&ret)[Size]) {
     }
 }
 
+/**
+ * @brief convert a number to an integer type, limited to the range of the type (0 if not a number)
+ */
+template<typename T>
+inline T numberTo(long double number) {
+    if (number != number) {
+        return 0;
+    }
+    if (number <= static_cast<long double>(std::numeric_limits<T>::min())) {
+        return std::numeric_limits<T>::min();
+    }
+    if (number >= static_cast<long double>(std::numeric_limits<T>::max())) {
+        return std::numeric_limits<T>::max();
+    }
+    return static_cast<T>(number);
+}
+
 template<typename T>
 inline void strTo(const std::string&, T&) {
     throw ParseArgumentException("destination method not found for this type");
@@ -159,46 +177,46 @@ inline void strTo(const std::string& str, bool& ret) {
 }
 
 inline void strTo(const std::string& str, char& ret) {
-    ret = ::strtod(str.c_str(), NULL);
+    ret = numberTo<char>(::strtold(str.c_str(), NULL));
 }
 
 inline void strTo(const std::string& str, unsigned char& ret) {
-    ret = ::strtod(str.c_str(), NULL);
+    ret = numberTo<unsigned char>(::strtold(str.c_str(), NULL));
 }
 
 inline void strTo(const std::string& str, short& ret) {
-    ret = ::strtod(str.c_str(), NULL);
+    ret = numberTo<short>(::strtold(str.c_str(), NULL));
 }
 
 inline void strTo(const std::string& str, unsigned short& ret) {
-    ret = ::strtod(str.c_str(), NULL);
+    ret = numberTo<unsigned short>(::strtold(str.c_str(), NULL));
 }
 
 inline void strTo(const std::string& str, int& ret) {
-    ret = ::strtod(str.c_str(), NULL);
+    ret = numberTo<int>(::strtold(str.c_str(), NULL));
 }
 
 inline void strTo(const std::string& str, unsigned int& ret) {
-    ret = ::strtod(str.c_str(), NULL);
+    ret = numberTo<unsigned int>(::strtold(str.c_str(), NULL));
 }
 
 inline void strTo(const std::string& str, long& ret) {
-    ret = ::strtod(str.c_str(), NULL);
+    ret = numberTo<long>(::strtold(str.c_str(), NULL));
 }
 
 inline void strTo(const std::string& str, unsigned long& ret) {
-    ret = ::strtod(str.c_str(), NULL);
+    ret = numberTo<unsigned long>(::strtold(str.c_str(), NULL));
 }
 
 #if __cplusplus >= 201103L
 #ifdef _GLIBCXX_USE_LONG_LONG
 
 inline void strTo(const std::string& str, long long& ret) {
-    ret = ::strtod(str.c_str(), NULL);
+    ret = numberTo<long long>(::strtold(str.c_str(), NULL));
 }
 
 inline void strTo(const std::string& str, unsigned long long& ret) {
-    ret = ::strtod(str.c_str(), NULL);
+    ret = numberTo<unsigned long long>(::strtold(str.c_str(), NULL));
 }
 
 #endif
@@ -213,7 +231,7 @@ inline void strTo(const std::string& str, double& ret) {
 }
 
 inline void strTo(const std::string& str, long double& ret) {
-    ret = ::strtod(str.c_str(), NULL);
+    ret = ::strtold(str.c_str(), NULL);
 }
 
 inline void strTo(const std::string& str, std::string& ret) {
diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index dedfea0..3020142 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -165,6 +165,7 @@ struct Action {
 
 #include <cstdlib> // stdtod
 #include <cstring> // memcpy
+#include <limits>
 #include <string>
 #include <vector>
 
@@ -700,6 +701,23 @@ inline void boolTo(const bool& b, char (&ret)[Size]) {
     }
 }
 
+/**
+ * @brief convert a number to an integer type, limited to the range of the type (0 if not a number)
+ */
+template<typename T>
+inline T numberTo(long double number) {
+    if (number != number) {
+        return 0;
+    }
+    if (number <= static_cast<long double>(std::numeric_limits<T>::min())) {
+        return std::numeric_limits<T>::min();
+    }
+    if (number >= static_cast<long double>(std::numeric_limits<T>::max())) {
+        return std::numeric_limits<T>::max();
+    }
+    return static_cast<T>(number);
+}
+
 template<typename T>
 inline void strTo(const std::string&, T&) {
     throw ParseArgumentException("destination method not found for this type");
@@ -710,46 +728,46 @@ inline void strTo(const std::string& str, bool& ret) {
 }
 
 inline void strTo(const std::string& str, char& ret) {
-    ret = ::strtod(str.c_str(), NULL);
+    ret = numberTo<char>(::strtold(str.c_str(), NULL));
 }
 
 inline void strTo(const std::string& str, unsigned char& ret) {
-    ret = ::strtod(str.c_str(), NULL);
+    ret = numberTo<unsigned char>(::strtold(str.c_str(), NULL));
 }
 
 inline void strTo(const std::string& str, short& ret) {
-    ret = ::strtod(str.c_str(), NULL);
+    ret = numberTo<short>(::strtold(str.c_str(), NULL));
 }
 
 inline void strTo(const std::string& str, unsigned short& ret) {
-    ret = ::strtod(str.c_str(), NULL);
+    ret = numberTo<unsigned short>(::strtold(str.c_str(), NULL));
 }
 
 inline void strTo(const std::string& str, int& ret) {
-    ret = ::strtod(str.c_str(), NULL);
+    ret = numberTo<int>(::strtold(str.c_str(), NULL));
 }
 
 inline void strTo(const std::string& str, unsigned int& ret) {
-    ret = ::strtod(str.c_str(), NULL);
+    ret = numberTo<unsigned int>(::strtold(str.c_str(), NULL));
 }
 
 inline void strTo(const std::string& str, long& ret) {
-    ret = ::strtod(str.c_str(), NULL);
+    ret = numberTo<long>(::strtold(str.c_str(), NULL));
 }
 
 inline void strTo(const std::string& str, unsigned long& ret) {
-    ret = ::strtod(str.c_str(), NULL);
+    ret = numberTo<unsigned long>(::strtold(str.c_str(), NULL));
 }
 
 #if __cplusplus >= 201103L
 #ifdef _GLIBCXX_USE_LONG_LONG
 
 inline void strTo(const std::string& str, long long& ret) {
-    ret = ::strtod(str.c_str(), NULL);
+    ret = numberTo<long long>(::strtold(str.c_str(), NULL));
 }
 
 inline void strTo(const std::string& str, unsigned long long& ret) {
-    ret = ::strtod(str.c_str(), NULL);
+    ret = numberTo<unsigned long long>(::strtold(str.c_str(), NULL));
 }
 
 #endif
@@ -764,7 +782,7 @@ inline void strTo(const std::string& str, double& ret) {
 }
 
 inline void strTo(const std::string& str, long double& ret) {
-    ret = ::strtod(str.c_str(), NULL);
+    ret = ::strtold(str.c_str(), NULL);
 }
 
 inline void strTo(const std::string& str, std::string& ret) {
-- 
2.43.0


From 1770ac5a85fb91f2861c1d8e855a6d3bc4466334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:21 +0000
Subject: [PATCH 17/29] fix: limit the conversion of an argument to the range
 of the integer type

---
 include/blet/args/argument.h | 16 +++++++++++++++-
 single_include/blet/args.h   | 16 +++++++++++++++-
 2 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/include/blet/args/argument.h b/include/blet/args/argument.h
index 7554afb..71e7001 100644
--- a/include/blet/args/argument.h
+++ b/include/blet/args/argument.h
@@ -167,6 +167,20 @@ inline T numberTo(long double number) {
     return static_cast<T>(number);
 }
 
+template<typename T, bool IsInteger>
+struct NumberCast {
+    static T cast(double number) {
+        return number;
+    }
+};
+
+template<typename T>
+struct NumberCast<T, true> {
+    static T cast(double number) {
+        return numberTo<T>(number);
+    }
+};
+
 template<typename T>
 inline void strTo(const std::string&, T&) {
     throw ParseArgumentException("destination method not found for this type");
@@ -458,7 +472,7 @@ class Argument : public ArgumentElement {
      */
     template<typename T>
     operator T() const {
-        return getNumber();
+        return NumberCast<T, std::numeric_limits<T>::is_integer>::cast(getNumber());
     }
 
     /**
diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 3020142..a9cce88 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -718,6 +718,20 @@ inline T numberTo(long double number) {
     return static_cast<T>(number);
 }
 
+template<typename T, bool IsInteger>
+struct NumberCast {
+    static T cast(double number) {
+        return number;
+    }
+};
+
+template<typename T>
+struct NumberCast<T, true> {
+    static T cast(double number) {
+        return numberTo<T>(number);
+    }
+};
+
 template<typename T>
 inline void strTo(const std::string&, T&) {
     throw ParseArgumentException("destination method not found for this type");
@@ -1009,7 +1023,7 @@ class Argument : public ArgumentElement {
      */
     template<typename T>
     inline operator T() const {
-        return getNumber();
+        return NumberCast<T, std::numeric_limits<T>::is_integer>::cast(getNumber());
     }
 
     /**
-- 
2.43.0


From 00d30ae85ffb11abd05d957e1406a1c8bbd851d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:33 +0000
Subject: [PATCH 18/29] fix: check the number that is read in ValidMinMax,
 never accept NaN

---
 single_include/blet/args.h | 9 ++++-----
 src/valid.cpp              | 9 ++++-----
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index a9cce88..ee632d6 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -4393,15 +4393,14 @@ inline ValidMinMax::~ValidMinMax() {}
 
 inline bool ValidMinMax::isValid(std::vector<std::string>& args) {
     for (std::size_t i = 0; i < args.size(); ++i) {
-        std::stringstream ssArg("");
-        ssArg << args[i];
-        double number;
-        if (!(ssArg >> number)) {
+        char* endPtr = NULL;
+        double number = ::strtod(args[i].c_str(), &endPtr);
+        if (endPtr == args[i].c_str()) {
             std::ostringstream oss("");
             oss << "\"" << args[i] << "\" is not a number";
             throw ParseArgumentValidException(oss.str().c_str());
         }
-        if (number < min_ || number > max_) {
+        if (!(number >= min_ && number <= max_)) {
             std::ostringstream oss("");
             oss << args[i] << " is not between " << min_ << " and " << max_;
             throw ParseArgumentValidException(oss.str().c_str());
diff --git a/src/valid.cpp b/src/valid.cpp
index e1e70af..7f7c1d9 100644
--- a/src/valid.cpp
+++ b/src/valid.cpp
@@ -78,15 +78,14 @@ ValidMinMax::~ValidMinMax() {}
 
 bool ValidMinMax::isValid(std::vector<std::string>& args) {
     for (std::size_t i = 0; i < args.size(); ++i) {
-        std::stringstream ssArg("");
-        ssArg << args[i];
-        double number;
-        if (!(ssArg >> number)) {
+        char* endPtr = NULL;
+        double number = ::strtod(args[i].c_str(), &endPtr);
+        if (endPtr == args[i].c_str()) {
             std::ostringstream oss("");
             oss << "\"" << args[i] << "\" is not a number";
             throw ParseArgumentValidException(oss.str().c_str());
         }
-        if (number < min_ || number > max_) {
+        if (!(number >= min_ && number <= max_)) {
             std::ostringstream oss("");
             oss << args[i] << " is not between " << min_ << " and " << max_;
             throw ParseArgumentValidException(oss.str().c_str());
-- 
2.43.0


From a1e5ba12e43ce34dceae99871fac77c5a11cc8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:12 +0000
Subject: [PATCH 19/29] fix: read numbers in the same way as destinations and
 validators

---
 include/blet/args/argument.h |  2 ++
 single_include/blet/args.h   | 17 +++++++++++------
 src/argument.cpp             | 15 +++++++++------
 3 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/include/blet/args/argument.h b/include/blet/args/argument.h
index 71e7001..091a111 100644
--- a/include/blet/args/argument.h
+++ b/include/blet/args/argument.h
@@ -345,6 +345,8 @@ class ArgumentElement : public std::vector<ArgumentElement> {
     }
 
   protected:
+    void setNumber_();
+
     std::string argument_;
     std::string default_;
     bool isNumber_;
diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index ee632d6..e1c8030 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -896,6 +896,8 @@ class ArgumentElement : public std::vector<ArgumentElement> {
     }
 
   protected:
+    void setNumber_();
+
     std::string argument_;
     std::string default_;
     bool isNumber_;
@@ -3340,6 +3342,12 @@ inline ArgumentElement::ArgumentElement(const char* arg) :
     number_(0.0) {}
 inline ArgumentElement::~ArgumentElement() {}
 
+inline void ArgumentElement::setNumber_() {
+    char* endPtr = NULL;
+    number_ = ::strtod(argument_.c_str(), &endPtr);
+    isNumber_ = endPtr != argument_.c_str();
+}
+
 inline ArgumentElement::operator std::vector<std::string>() const {
     if (!empty() && front().empty()) {
         std::vector<std::string> ret;
@@ -3621,19 +3629,16 @@ inline void Argument::toNumber_() {
             for (std::size_t i = 0; i < size(); ++i) {
                 if (!at(i).empty()) {
                     for (std::size_t j = 0; j < at(i).size(); ++j) {
-                        std::stringstream ss(at(i).at(j).argument_);
-                        at(i).at(j).isNumber_ = static_cast<bool>(ss >> at(i).at(j).number_);
+                        at(i).at(j).setNumber_();
                     }
                 }
                 else {
-                    std::stringstream ss(at(i).argument_);
-                    at(i).isNumber_ = static_cast<bool>(ss >> at(i).number_);
+                    at(i).setNumber_();
                 }
             }
         }
         else {
-            std::stringstream ss(argument_);
-            isNumber_ = static_cast<bool>(ss >> number_);
+            setNumber_();
         }
     }
 }
diff --git a/src/argument.cpp b/src/argument.cpp
index bb620f8..9e7c809 100644
--- a/src/argument.cpp
+++ b/src/argument.cpp
@@ -86,6 +86,12 @@ ArgumentElement::ArgumentElement(const char* arg) :
     number_(0.0) {}
 ArgumentElement::~ArgumentElement() {}
 
+void ArgumentElement::setNumber_() {
+    char* endPtr = NULL;
+    number_ = ::strtod(argument_.c_str(), &endPtr);
+    isNumber_ = endPtr != argument_.c_str();
+}
+
 ArgumentElement::operator std::vector<std::string>() const {
     if (!empty() && front().empty()) {
         std::vector<std::string> ret;
@@ -367,19 +373,16 @@ void Argument::toNumber_() {
             for (std::size_t i = 0; i < size(); ++i) {
                 if (!at(i).empty()) {
                     for (std::size_t j = 0; j < at(i).size(); ++j) {
-                        std::stringstream ss(at(i).at(j).argument_);
-                        at(i).at(j).isNumber_ = static_cast<bool>(ss >> at(i).at(j).number_);
+                        at(i).at(j).setNumber_();
                     }
                 }
                 else {
-                    std::stringstream ss(at(i).argument_);
-                    at(i).isNumber_ = static_cast<bool>(ss >> at(i).number_);
+                    at(i).setNumber_();
                 }
             }
         }
         else {
-            std::stringstream ss(argument_);
-            isNumber_ = static_cast<bool>(ss >> number_);
+            setNumber_();
         }
     }
 }
-- 
2.43.0


From 409fd3d6d302374f1de8b39f806e0ef075b16a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:26 +0000
Subject: [PATCH 20/29] fix: fill a vector destination with nothing when the
 list of values is empty

---
 include/blet/args/argument.h | 28 ++++++++++++++++++++++++----
 single_include/blet/args.h   | 28 ++++++++++++++++++++++++----
 2 files changed, 48 insertions(+), 8 deletions(-)

diff --git a/include/blet/args/argument.h b/include/blet/args/argument.h
index 091a111..829669e 100644
--- a/include/blet/args/argument.h
+++ b/include/blet/args/argument.h
@@ -680,6 +680,26 @@ class Argument : public ArgumentElement {
         }
     }
 
+    /**
+     * @brief an argument without list of values
+     */
+    bool isSingle_() const {
+        switch (type_) {
+            case NUMBER_OPTION:
+            case INFINITE_OPTION:
+            case MULTI_OPTION:
+            case MULTI_INFINITE_OPTION:
+            case MULTI_NUMBER_OPTION:
+            case MULTI_NUMBER_INFINITE_OPTION:
+            case NUMBER_POSITIONAL_ARGUMENT:
+            case INFINITE_POSITIONAL_ARGUMENT:
+            case INFINITE_NUMBER_POSITIONAL_ARGUMENT:
+                return false;
+            default:
+                return true;
+        }
+    }
+
     virtual void toDest_() {
         /* do nothing */
     }
@@ -782,7 +802,7 @@ class ArgumentVectorType : public Argument {
                     }
                 }
             }
-            else {
+            else if (isSingle_()) {
                 arguments.push_back(argument_);
             }
             toDestCustom_(dest_, isExist_, arguments);
@@ -804,7 +824,7 @@ class ArgumentVectorType : public Argument {
                     }
                 }
             }
-            else {
+            else if (isSingle_()) {
                 T dest;
                 if (type_ == BOOLEAN_OPTION) {
                     boolTo(isExist_, dest);
@@ -855,7 +875,7 @@ class ArgumentVectorVectorType : public Argument {
                     arguments.push_back(tmpVector);
                 }
             }
-            else {
+            else if (isSingle_()) {
                 std::vector<std::string> tmpVector;
                 tmpVector.push_back(argument_);
                 arguments.push_back(tmpVector);
@@ -881,7 +901,7 @@ class ArgumentVectorVectorType : public Argument {
                     dest_.push_back(vectorDest);
                 }
             }
-            else {
+            else if (isSingle_()) {
                 T dest;
                 if (type_ == BOOLEAN_OPTION) {
                     boolTo(isExist_, dest);
diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index e1c8030..1e8461d 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -1231,6 +1231,26 @@ class Argument : public ArgumentElement {
         }
     }
 
+    /**
+     * @brief an argument without list of values
+     */
+    bool isSingle_() const {
+        switch (type_) {
+            case NUMBER_OPTION:
+            case INFINITE_OPTION:
+            case MULTI_OPTION:
+            case MULTI_INFINITE_OPTION:
+            case MULTI_NUMBER_OPTION:
+            case MULTI_NUMBER_INFINITE_OPTION:
+            case NUMBER_POSITIONAL_ARGUMENT:
+            case INFINITE_POSITIONAL_ARGUMENT:
+            case INFINITE_NUMBER_POSITIONAL_ARGUMENT:
+                return false;
+            default:
+                return true;
+        }
+    }
+
     inline virtual void toDest_() {
         /* do nothing */
     }
@@ -1333,7 +1353,7 @@ class ArgumentVectorType : public Argument {
                     }
                 }
             }
-            else {
+            else if (isSingle_()) {
                 arguments.push_back(argument_);
             }
             toDestCustom_(dest_, isExist_, arguments);
@@ -1355,7 +1375,7 @@ class ArgumentVectorType : public Argument {
                     }
                 }
             }
-            else {
+            else if (isSingle_()) {
                 T dest;
                 if (type_ == BOOLEAN_OPTION) {
                     boolTo(isExist_, dest);
@@ -1406,7 +1426,7 @@ class ArgumentVectorVectorType : public Argument {
                     arguments.push_back(tmpVector);
                 }
             }
-            else {
+            else if (isSingle_()) {
                 std::vector<std::string> tmpVector;
                 tmpVector.push_back(argument_);
                 arguments.push_back(tmpVector);
@@ -1432,7 +1452,7 @@ class ArgumentVectorVectorType : public Argument {
                     dest_.push_back(vectorDest);
                 }
             }
-            else {
+            else if (isSingle_()) {
                 T dest;
                 if (type_ == BOOLEAN_OPTION) {
                     boolTo(isExist_, dest);
-- 
2.43.0


From 47ffe1c20d43c40d2bd6517fd3300903e716df0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:12 +0000
Subject: [PATCH 21/29] fix: keep positionals in declaration order when
 required is set later

---
 include/blet/args/args.h     |  1 +
 include/blet/args/argument.h |  1 +
 single_include/blet/args.h   | 15 +++++++++++----
 src/args.cpp                 |  3 +++
 src/argument.cpp             | 10 ++++++----
 5 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/include/blet/args/args.h b/include/blet/args/args.h
index 1c0d5ec..89799e3 100644
--- a/include/blet/args/args.h
+++ b/include/blet/args/args.h
@@ -334,6 +334,7 @@ class Args : public Usage {
 
     std::string binaryName_;
 
+    std::size_t argumentIndex_;
     std::list<Argument*> arguments_;
     std::map<std::string, Argument**> argumentFromName_;
 
diff --git a/include/blet/args/argument.h b/include/blet/args/argument.h
index 829669e..2354d61 100644
--- a/include/blet/args/argument.h
+++ b/include/blet/args/argument.h
@@ -739,6 +739,7 @@ class Argument : public ArgumentElement {
     Argument** this_;
     enum Action::eAction action_;
     std::vector<std::string> defaults_;
+    std::size_t index_; // order of declaration
 };
 
 template<typename T>
diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 1e8461d..cac6cd8 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -1290,6 +1290,7 @@ class Argument : public ArgumentElement {
     Argument** this_;
     enum Action::eAction action_;
     std::vector<std::string> defaults_;
+    std::size_t index_; // order of declaration
 };
 
 template<typename T>
@@ -1938,6 +1939,7 @@ class Args : public Usage {
 
     std::string binaryName_;
 
+    std::size_t argumentIndex_;
     std::list<Argument*> arguments_;
     std::map<std::string, Argument**> argumentFromName_;
 
@@ -2650,6 +2652,7 @@ namespace args {
 inline Args::Args() :
     Usage(*this),
     binaryName_(),
+    argumentIndex_(0),
     arguments_(),
     argumentFromName_(),
     helpOption_(NULL),
@@ -2860,6 +2863,8 @@ inline Argument& Args::addArgument(const Vector& nameOrFlags) {
         argument->sortNameOrFlags_();
     }
 
+    argument->index_ = argumentIndex_;
+    ++argumentIndex_;
     arguments_.push_back(argument);
     Argument** addrNewArgument = &(arguments_.back());
     argument->this_ = addrNewArgument;
@@ -3400,7 +3405,8 @@ inline Argument::Argument(Args& args) :
     validDeletable_(true),
     this_(NULL),
     action_(Action::NONE),
-    defaults_() {}
+    defaults_(),
+    index_(0) {}
 
 inline Argument::Argument(const Argument& rhs) :
     ArgumentElement(rhs),
@@ -3417,7 +3423,8 @@ inline Argument::Argument(const Argument& rhs) :
     validDeletable_(false), // the validator stays owned by rhs
     this_(rhs.this_),
     action_(rhs.action_),
-    defaults_(rhs.defaults_) {}
+    defaults_(rhs.defaults_),
+    index_(rhs.index_) {}
 
 inline Argument::~Argument() {
     if (valid_ != NULL && validDeletable_) {
@@ -3574,7 +3581,7 @@ inline void Argument::validFormatFlag_(const char* flag) {
 inline bool Argument::compareOption_(const Argument* first, const Argument* second) {
     if (first->isPositionnalArgument_() && first->isRequired_ && second->isPositionnalArgument_() &&
         second->isRequired_) {
-        return false;
+        return first->index_ < second->index_;
     }
     else if (first->isPositionnalArgument_() && first->isRequired_ && second->isPositionnalArgument_()) {
         return true;
@@ -3583,7 +3590,7 @@ inline bool Argument::compareOption_(const Argument* first, const Argument* seco
         return false;
     }
     else if (first->isPositionnalArgument_() && second->isPositionnalArgument_()) {
-        return false;
+        return first->index_ < second->index_;
     }
     else if (first->isPositionnalArgument_()) {
         return false;
diff --git a/src/args.cpp b/src/args.cpp
index fbbda49..260face 100644
--- a/src/args.cpp
+++ b/src/args.cpp
@@ -43,6 +43,7 @@ namespace args {
 Args::Args() :
     Usage(*this),
     binaryName_(),
+    argumentIndex_(0),
     arguments_(),
     argumentFromName_(),
     helpOption_(NULL),
@@ -253,6 +254,8 @@ Argument& Args::addArgument(const Vector& nameOrFlags) {
         argument->sortNameOrFlags_();
     }
 
+    argument->index_ = argumentIndex_;
+    ++argumentIndex_;
     arguments_.push_back(argument);
     Argument** addrNewArgument = &(arguments_.back());
     argument->this_ = addrNewArgument;
diff --git a/src/argument.cpp b/src/argument.cpp
index 9e7c809..ed57808 100644
--- a/src/argument.cpp
+++ b/src/argument.cpp
@@ -124,7 +124,8 @@ Argument::Argument(Args& args) :
     validDeletable_(true),
     this_(NULL),
     action_(Action::NONE),
-    defaults_() {}
+    defaults_(),
+    index_(0) {}
 
 Argument::Argument(const Argument& rhs) :
     ArgumentElement(rhs),
@@ -141,7 +142,8 @@ Argument::Argument(const Argument& rhs) :
     validDeletable_(false), // the validator stays owned by rhs
     this_(rhs.this_),
     action_(rhs.action_),
-    defaults_(rhs.defaults_) {}
+    defaults_(rhs.defaults_),
+    index_(rhs.index_) {}
 
 Argument::~Argument() {
     if (valid_ != NULL && validDeletable_) {
@@ -298,7 +300,7 @@ void Argument::validFormatFlag_(const char* flag) {
 bool Argument::compareOption_(const Argument* first, const Argument* second) {
     if (first->isPositionnalArgument_() && first->isRequired_ && second->isPositionnalArgument_() &&
         second->isRequired_) {
-        return false;
+        return first->index_ < second->index_;
     }
     else if (first->isPositionnalArgument_() && first->isRequired_ && second->isPositionnalArgument_()) {
         return true;
@@ -307,7 +309,7 @@ bool Argument::compareOption_(const Argument* first, const Argument* second) {
         return false;
     }
     else if (first->isPositionnalArgument_() && second->isPositionnalArgument_()) {
-        return false;
+        return first->index_ < second->index_;
     }
     else if (first->isPositionnalArgument_()) {
         return false;
-- 
2.43.0


From 1317d4d7f824bfc3099626034c3fc1dc07223371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:07 +0000
Subject: [PATCH 22/29] fix: apply nargs('+') again to an infinite positional
 argument

---
 single_include/blet/args.h | 3 ++-
 src/argument.cpp           | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index cac6cd8..03c2dc1 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -3723,7 +3723,8 @@ inline void Argument::typeConstructor_() {
         if (nargs_ == 1 && action_ == Action::NONE) {
             type_ = Argument::POSITIONAL_ARGUMENT;
         }
-        else if ((nargs_ == '+' && action_ == Action::NONE) || (nargs_ == 1 && action_ == Action::INFINITE)) {
+        else if ((nargs_ == '+' && (action_ == Action::NONE || action_ == Action::INFINITE)) ||
+                 (nargs_ == 1 && action_ == Action::INFINITE)) {
             nargs_ = 1;
             action_ = Action::INFINITE;
             type_ = Argument::INFINITE_POSITIONAL_ARGUMENT;
diff --git a/src/argument.cpp b/src/argument.cpp
index ed57808..80fd0a9 100644
--- a/src/argument.cpp
+++ b/src/argument.cpp
@@ -442,7 +442,8 @@ void Argument::typeConstructor_() {
         if (nargs_ == 1 && action_ == Action::NONE) {
             type_ = Argument::POSITIONAL_ARGUMENT;
         }
-        else if ((nargs_ == '+' && action_ == Action::NONE) || (nargs_ == 1 && action_ == Action::INFINITE)) {
+        else if ((nargs_ == '+' && (action_ == Action::NONE || action_ == Action::INFINITE)) ||
+                 (nargs_ == 1 && action_ == Action::INFINITE)) {
             nargs_ = 1;
             action_ = Action::INFINITE;
             type_ = Argument::INFINITE_POSITIONAL_ARGUMENT;
-- 
2.43.0


From efb70766faf90cdf3f84f5582db9baa138acd8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:42 +0000
Subject: [PATCH 23/29] fix: keep the previous nargs or action of an argument
 when the new one is rejected

---
 include/blet/args/argument.h | 10 +++++++++-
 single_include/blet/args.h   | 21 +++++++++++++++++++--
 src/argument.cpp             | 11 ++++++++++-
 3 files changed, 38 insertions(+), 4 deletions(-)

diff --git a/include/blet/args/argument.h b/include/blet/args/argument.h
index 2354d61..44d071d 100644
--- a/include/blet/args/argument.h
+++ b/include/blet/args/argument.h
@@ -546,8 +546,16 @@ class Argument : public ArgumentElement {
      * @throw ArgumentException
      */
     Argument& nargs(std::size_t nargs__) {
+        std::size_t previousNargs = nargs_;
         nargs_ = nargs__;
-        typeConstructor_();
+        try {
+            typeConstructor_();
+        }
+        catch (const ArgumentException&) {
+            // keep the previous number of arguments
+            nargs_ = previousNargs;
+            throw;
+        }
         defaultsConstructor_();
         return *this;
     }
diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 03c2dc1..41c8069 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -1097,8 +1097,16 @@ class Argument : public ArgumentElement {
      * @throw ArgumentException
      */
     inline Argument& nargs(std::size_t nargs__) {
+        std::size_t previousNargs = nargs_;
         nargs_ = nargs__;
-        typeConstructor_();
+        try {
+            typeConstructor_();
+        }
+        catch (const ArgumentException&) {
+            // keep the previous number of arguments
+            nargs_ = previousNargs;
+            throw;
+        }
         defaultsConstructor_();
         return *this;
     }
@@ -3539,6 +3547,7 @@ inline Argument& Argument::flag(const char* flag__) {
 }
 
 inline Argument& Argument::action(enum Action::eAction action__) {
+    enum Action::eAction previousAction = action_;
     // reset help option
     if (args_.helpOption_ == this) {
         args_.helpOption_ = NULL;
@@ -3548,7 +3557,15 @@ inline Argument& Argument::action(enum Action::eAction action__) {
         args_.versionOption_ = NULL;
     }
     action_ = action__;
-    typeConstructor_();
+    try {
+        typeConstructor_();
+    }
+    catch (const ArgumentException&) {
+        // keep the previous action
+        action_ = previousAction;
+        typeConstructor_();
+        throw;
+    }
     defaultsConstructor_();
     return *this;
 }
diff --git a/src/argument.cpp b/src/argument.cpp
index 80fd0a9..5b4b91e 100644
--- a/src/argument.cpp
+++ b/src/argument.cpp
@@ -258,6 +258,7 @@ Argument& Argument::flag(const char* flag__) {
 }
 
 Argument& Argument::action(enum Action::eAction action__) {
+    enum Action::eAction previousAction = action_;
     // reset help option
     if (args_.helpOption_ == this) {
         args_.helpOption_ = NULL;
@@ -267,7 +268,15 @@ Argument& Argument::action(enum Action::eAction action__) {
         args_.versionOption_ = NULL;
     }
     action_ = action__;
-    typeConstructor_();
+    try {
+        typeConstructor_();
+    }
+    catch (const ArgumentException&) {
+        // keep the previous action
+        action_ = previousAction;
+        typeConstructor_();
+        throw;
+    }
     defaultsConstructor_();
     return *this;
 }
-- 
2.43.0


From 67cbb568f98297c40dc8031a603f46b46e54d7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:42 +0000
Subject: [PATCH 24/29] fix: valid() given the validator the argument already
 has deleted it

valid(v) twice with the same deletable object deleted it and kept the pointer:
it was used and deleted again after its end. The same object is not replaced;
the last call says whether it is deletable.
---
 include/blet/args/argument.h | 5 +++++
 single_include/blet/args.h   | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/include/blet/args/argument.h b/include/blet/args/argument.h
index 44d071d..7ab4ab7 100644
--- a/include/blet/args/argument.h
+++ b/include/blet/args/argument.h
@@ -582,6 +582,11 @@ class Argument : public ArgumentElement {
      * @return this reference
      */
     Argument& valid(IValid* pValid, bool isDeletable = true) {
+        if (valid_ == pValid) {
+            // the same object is not replaced
+            validDeletable_ = isDeletable;
+            return *this;
+        }
         if (valid_ != NULL && validDeletable_) {
             delete valid_;
         }
diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 41c8069..e8f8950 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -1133,6 +1133,11 @@ class Argument : public ArgumentElement {
      * @return this reference
      */
     inline Argument& valid(IValid* pValid, bool isDeletable = true) {
+        if (valid_ == pValid) {
+            // the same object is not replaced
+            validDeletable_ = isDeletable;
+            return *this;
+        }
         if (valid_ != NULL && validDeletable_) {
             delete valid_;
         }
-- 
2.43.0


From adb17b374c957561af55248badf1f20e32c5e81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:29 +0000
Subject: [PATCH 25/29] fix: setters of a copied argument acted on the parser
 object of the original

---
 include/blet/args/argument.h |  5 +++++
 single_include/blet/args.h   | 33 +++++++++++++++++++++++++--------
 src/argument.cpp             | 28 ++++++++++++++++++++--------
 3 files changed, 50 insertions(+), 16 deletions(-)

diff --git a/include/blet/args/argument.h b/include/blet/args/argument.h
index 7ab4ab7..6279317 100644
--- a/include/blet/args/argument.h
+++ b/include/blet/args/argument.h
@@ -607,6 +607,7 @@ class Argument : public ArgumentElement {
     Argument& dest(std::vector<std::vector<T> >& dest,
                    void (*toDest)(std::vector<std::vector<T> >& dest, bool isExists,
                                   const std::vector<std::vector<std::string> >& arguments) = NULL) {
+        checkRegistered_();
         bool validDeletable = validDeletable_;
         validDeletable_ = false;
         Argument* argumentType = new ArgumentVectorVectorType<T>(this, dest, toDest);
@@ -625,6 +626,7 @@ class Argument : public ArgumentElement {
     template<typename T>
     Argument& dest(std::vector<T>& dest, void (*toDest)(std::vector<T>& dest, bool isExists,
                                                         const std::vector<std::string>& arguments) = NULL) {
+        checkRegistered_();
         bool validDeletable = validDeletable_;
         validDeletable_ = false;
         Argument* argumentType = new ArgumentVectorType<T>(this, dest, toDest);
@@ -642,6 +644,7 @@ class Argument : public ArgumentElement {
      */
     template<typename T>
     Argument& dest(T& dest, void (*toDest)(T& dest, bool isExists, const std::string& argument) = NULL) {
+        checkRegistered_();
         bool validDeletable = validDeletable_;
         validDeletable_ = false;
         Argument* argumentType = new ArgumentType<T>(this, dest, toDest);
@@ -719,6 +722,8 @@ class Argument : public ArgumentElement {
 
     void toNumber_();
 
+    void checkRegistered_() const;
+
     void replace_(Argument* argument);
 
     std::string metavarDefault_();
diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index e8f8950..1beeae0 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -1158,6 +1158,7 @@ class Argument : public ArgumentElement {
     inline Argument& dest(std::vector<std::vector<T> >& dest,
                           void (*toDest)(std::vector<std::vector<T> >& dest, bool isExists,
                                          const std::vector<std::vector<std::string> >& arguments) = NULL) {
+        checkRegistered_();
         bool validDeletable = validDeletable_;
         validDeletable_ = false;
         Argument* argumentType = new ArgumentVectorVectorType<T>(this, dest, toDest);
@@ -1176,6 +1177,7 @@ class Argument : public ArgumentElement {
     template<typename T>
     inline Argument& dest(std::vector<T>& dest, void (*toDest)(std::vector<T>& dest, bool isExists,
                                                                const std::vector<std::string>& arguments) = NULL) {
+        checkRegistered_();
         bool validDeletable = validDeletable_;
         validDeletable_ = false;
         Argument* argumentType = new ArgumentVectorType<T>(this, dest, toDest);
@@ -1193,6 +1195,7 @@ class Argument : public ArgumentElement {
      */
     template<typename T>
     inline Argument& dest(T& dest, void (*toDest)(T& dest, bool isExists, const std::string& argument) = NULL) {
+        checkRegistered_();
         bool validDeletable = validDeletable_;
         validDeletable_ = false;
         Argument* argumentType = new ArgumentType<T>(this, dest, toDest);
@@ -1270,6 +1273,8 @@ class Argument : public ArgumentElement {
 
     void toNumber_();
 
+    void checkRegistered_() const;
+
     void replace_(Argument* argument);
 
     std::string metavarDefault_();
@@ -3434,7 +3439,7 @@ inline Argument::Argument(const Argument& rhs) :
     metavar_(rhs.metavar_),
     valid_(rhs.valid_),
     validDeletable_(false), // the validator stays owned by rhs
-    this_(rhs.this_),
+    this_(NULL), // a copy is not registered
     action_(rhs.action_),
     defaults_(rhs.defaults_),
     index_(rhs.index_) {}
@@ -3540,6 +3545,9 @@ inline Argument& Argument::flag(const char* flag__) {
     if (isPositionnalArgument_()) {
         throw ArgumentException(flag__, "can't add flag in positionnal argument");
     }
+    if (this_ == NULL) {
+        throw ArgumentException(flag__, "can't add flag in a copy of argument");
+    }
     validFormatFlag_(flag__);
     if (args_.argumentExists(flag__)) {
         throw ArgumentException(flag__, "invalid flag already exist");
@@ -3554,11 +3562,11 @@ inline Argument& Argument::flag(const char* flag__) {
 inline Argument& Argument::action(enum Action::eAction action__) {
     enum Action::eAction previousAction = action_;
     // reset help option
-    if (args_.helpOption_ == this) {
+    if (this_ != NULL && args_.helpOption_ == this) {
         args_.helpOption_ = NULL;
     }
     // reset version option
-    if (args_.versionOption_ == this) {
+    if (this_ != NULL && args_.versionOption_ == this) {
         args_.versionOption_ = NULL;
     }
     action_ = action__;
@@ -3577,7 +3585,9 @@ inline Argument& Argument::action(enum Action::eAction action__) {
 
 inline Argument& Argument::required(bool required__) {
     isRequired_ = required__;
-    args_.arguments_.sort(&Argument::compareOption_);
+    if (this_ != NULL) {
+        args_.arguments_.sort(&Argument::compareOption_);
+    }
     return *this;
 }
 
@@ -3692,7 +3702,14 @@ inline void Argument::toNumber_() {
     }
 }
 
+inline void Argument::checkRegistered_() const {
+    if (this_ == NULL) {
+        throw ArgumentException(nameOrFlags_.front().c_str(), "can't add destination in a copy of argument");
+    }
+}
+
 inline void Argument::replace_(Argument* argument) {
+    this_ = argument->this_;
     // keep the registration of help and version
     if (args_.helpOption_ == argument) {
         args_.helpOption_ = this;
@@ -3767,20 +3784,20 @@ inline void Argument::typeConstructor_() {
         type_ = Argument::REVERSE_BOOLEAN_OPTION;
     }
     else if (action_ == Action::HELP) {
-        if (args_.helpOption_ == NULL) {
+        if (this_ != NULL && args_.helpOption_ == NULL) {
             args_.helpOption_ = this;
         }
-        if (args_.helpOption_ != NULL && args_.helpOption_ != this) {
+        if (this_ != NULL && args_.helpOption_ != NULL && args_.helpOption_ != this) {
             throw ArgumentException(nameOrFlags_.front().c_str(), "help action already defined");
         }
         nargs_ = 0;
         type_ = Argument::HELP_OPTION;
     }
     else if (action_ == Action::VERSION) {
-        if (args_.versionOption_ == NULL) {
+        if (this_ != NULL && args_.versionOption_ == NULL) {
             args_.versionOption_ = this;
         }
-        if (args_.versionOption_ != NULL && args_.versionOption_ != this) {
+        if (this_ != NULL && args_.versionOption_ != NULL && args_.versionOption_ != this) {
             throw ArgumentException(nameOrFlags_.front().c_str(), "version action already defined");
         }
         nargs_ = 0;
diff --git a/src/argument.cpp b/src/argument.cpp
index 5b4b91e..27158f4 100644
--- a/src/argument.cpp
+++ b/src/argument.cpp
@@ -140,7 +140,7 @@ Argument::Argument(const Argument& rhs) :
     metavar_(rhs.metavar_),
     valid_(rhs.valid_),
     validDeletable_(false), // the validator stays owned by rhs
-    this_(rhs.this_),
+    this_(NULL), // a copy is not registered
     action_(rhs.action_),
     defaults_(rhs.defaults_),
     index_(rhs.index_) {}
@@ -246,6 +246,9 @@ Argument& Argument::flag(const char* flag__) {
     if (isPositionnalArgument_()) {
         throw ArgumentException(flag__, "can't add flag in positionnal argument");
     }
+    if (this_ == NULL) {
+        throw ArgumentException(flag__, "can't add flag in a copy of argument");
+    }
     validFormatFlag_(flag__);
     if (args_.argumentExists(flag__)) {
         throw ArgumentException(flag__, "invalid flag already exist");
@@ -260,11 +263,11 @@ Argument& Argument::flag(const char* flag__) {
 Argument& Argument::action(enum Action::eAction action__) {
     enum Action::eAction previousAction = action_;
     // reset help option
-    if (args_.helpOption_ == this) {
+    if (this_ != NULL && args_.helpOption_ == this) {
         args_.helpOption_ = NULL;
     }
     // reset version option
-    if (args_.versionOption_ == this) {
+    if (this_ != NULL && args_.versionOption_ == this) {
         args_.versionOption_ = NULL;
     }
     action_ = action__;
@@ -283,7 +286,9 @@ Argument& Argument::action(enum Action::eAction action__) {
 
 Argument& Argument::required(bool required__) {
     isRequired_ = required__;
-    args_.arguments_.sort(&Argument::compareOption_);
+    if (this_ != NULL) {
+        args_.arguments_.sort(&Argument::compareOption_);
+    }
     return *this;
 }
 
@@ -398,7 +403,14 @@ void Argument::toNumber_() {
     }
 }
 
+void Argument::checkRegistered_() const {
+    if (this_ == NULL) {
+        throw ArgumentException(nameOrFlags_.front().c_str(), "can't add destination in a copy of argument");
+    }
+}
+
 void Argument::replace_(Argument* argument) {
+    this_ = argument->this_;
     // keep the registration of help and version
     if (args_.helpOption_ == argument) {
         args_.helpOption_ = this;
@@ -473,20 +485,20 @@ void Argument::typeConstructor_() {
         type_ = Argument::REVERSE_BOOLEAN_OPTION;
     }
     else if (action_ == Action::HELP) {
-        if (args_.helpOption_ == NULL) {
+        if (this_ != NULL && args_.helpOption_ == NULL) {
             args_.helpOption_ = this;
         }
-        if (args_.helpOption_ != NULL && args_.helpOption_ != this) {
+        if (this_ != NULL && args_.helpOption_ != NULL && args_.helpOption_ != this) {
             throw ArgumentException(nameOrFlags_.front().c_str(), "help action already defined");
         }
         nargs_ = 0;
         type_ = Argument::HELP_OPTION;
     }
     else if (action_ == Action::VERSION) {
-        if (args_.versionOption_ == NULL) {
+        if (this_ != NULL && args_.versionOption_ == NULL) {
             args_.versionOption_ = this;
         }
-        if (args_.versionOption_ != NULL && args_.versionOption_ != this) {
+        if (this_ != NULL && args_.versionOption_ != NULL && args_.versionOption_ != this) {
             throw ArgumentException(nameOrFlags_.front().c_str(), "version action already defined");
         }
         nargs_ = 0;
-- 
2.43.0


From 40a5bafeb0ebe936b06183af23579976fea0b839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:41 +0000
Subject: [PATCH 26/29] fix: toupper of a negative character for the derived
 metavar of a flag that is not ASCII

---
 single_include/blet/args.h | 2 +-
 src/argument.cpp           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 1beeae0..496b7cc 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -3736,7 +3736,7 @@ inline std::string Argument::metavarDefault_() {
     // create a defaultUsageName from longName or shortName
     std::string defaultUsageName = flag;
     for (std::size_t i = 0; i < defaultUsageName.size(); ++i) {
-        defaultUsageName[i] = ::toupper(defaultUsageName[i]);
+        defaultUsageName[i] = ::toupper(static_cast<unsigned char>(defaultUsageName[i]));
     }
 
     if (action_ == Action::INFINITE || nargs_ == '+') {
diff --git a/src/argument.cpp b/src/argument.cpp
index 27158f4..bc6a4ef 100644
--- a/src/argument.cpp
+++ b/src/argument.cpp
@@ -437,7 +437,7 @@ std::string Argument::metavarDefault_() {
     // create a defaultUsageName from longName or shortName
     std::string defaultUsageName = flag;
     for (std::size_t i = 0; i < defaultUsageName.size(); ++i) {
-        defaultUsageName[i] = ::toupper(defaultUsageName[i]);
+        defaultUsageName[i] = ::toupper(static_cast<unsigned char>(defaultUsageName[i]));
     }
 
     if (action_ == Action::INFINITE || nargs_ == '+') {
-- 
2.43.0


From 156819e4471b261d9eac1fc923d7a5e66eac09a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:52 +0000
Subject: [PATCH 27/29] fix: leave nothing behind when addArgument() or flag()
 runs out of memory

---
 single_include/blet/args.h | 42 +++++++++++++++++++++++++++-----------
 src/args.cpp               | 36 +++++++++++++++++++++++---------
 src/argument.cpp           |  6 ++++--
 3 files changed, 60 insertions(+), 24 deletions(-)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 496b7cc..30a33ad 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -2849,6 +2849,7 @@ inline Argument& Args::addArgument(const Vector& nameOrFlags) {
         throw ArgumentException("", "invalid empty flag");
     }
     Argument* argument = NULL;
+    std::vector<std::string> newFlags;
     // is name
     if (nameOrFlags.size() == 1 && nameOrFlags.front()[0] != '-') {
         if (nameOrFlags.front().empty()) {
@@ -2857,15 +2858,13 @@ inline Argument& Args::addArgument(const Vector& nameOrFlags) {
         if (argumentFromName_.find(nameOrFlags.front()) != argumentFromName_.end()) {
             throw ArgumentException(nameOrFlags.front().c_str(), "bad name argument already exist");
         }
+        newFlags.push_back(nameOrFlags.front());
         // create argument
         argument = new Argument(*this);
-        argument->nameOrFlags_.push_back(nameOrFlags.front());
         argument->nargs_ = 1;
         argument->type_ = Argument::POSITIONAL_ARGUMENT;
     }
     else {
-        std::vector<std::string> newFlags;
-
         for (std::size_t i = 0; i < nameOrFlags.size(); ++i) {
             Argument::validFormatFlag_(nameOrFlags[i].c_str());
             if (argumentFromName_.find(nameOrFlags[i]) != argumentFromName_.end()) {
@@ -2877,18 +2876,35 @@ inline Argument& Args::addArgument(const Vector& nameOrFlags) {
         }
 
         argument = new Argument(*this);
-        argument->nameOrFlags_ = newFlags;
-        argument->sortNameOrFlags_();
     }
 
+    try {
+        argument->nameOrFlags_.swap(newFlags);
+        argument->sortNameOrFlags_();
+        arguments_.push_back(argument);
+    }
+    catch (...) {
+        delete argument;
+        throw;
+    }
+    Argument** addrNewArgument = &(arguments_.back());
+    try {
+        for (std::size_t i = 0; i < argument->nameOrFlags_.size(); ++i) {
+            argumentFromName_.insert(std::pair<std::string, Argument**>(argument->nameOrFlags_[i], addrNewArgument));
+        }
+    }
+    catch (...) {
+        // forget the new argument
+        for (std::size_t i = 0; i < argument->nameOrFlags_.size(); ++i) {
+            argumentFromName_.erase(argument->nameOrFlags_[i]);
+        }
+        arguments_.pop_back();
+        delete argument;
+        throw;
+    }
     argument->index_ = argumentIndex_;
     ++argumentIndex_;
-    arguments_.push_back(argument);
-    Argument** addrNewArgument = &(arguments_.back());
     argument->this_ = addrNewArgument;
-    for (std::size_t i = 0; i < argument->nameOrFlags_.size(); ++i) {
-        argumentFromName_.insert(std::pair<std::string, Argument**>(argument->nameOrFlags_[i], addrNewArgument));
-    }
     arguments_.sort(&Argument::compareOption_);
     return **addrNewArgument;
 }
@@ -3552,9 +3568,11 @@ inline Argument& Argument::flag(const char* flag__) {
     if (args_.argumentExists(flag__)) {
         throw ArgumentException(flag__, "invalid flag already exist");
     }
-    nameOrFlags_.push_back(flag__);
-    sortNameOrFlags_();
+    std::vector<std::string> newFlags(nameOrFlags_);
+    newFlags.push_back(flag__);
     args_.argumentFromName_.insert(std::pair<std::string, Argument**>(flag__, this_));
+    nameOrFlags_.swap(newFlags);
+    sortNameOrFlags_();
     args_.arguments_.sort(&Argument::compareOption_);
     return *this;
 }
diff --git a/src/args.cpp b/src/args.cpp
index 260face..9fd199e 100644
--- a/src/args.cpp
+++ b/src/args.cpp
@@ -222,6 +222,7 @@ Argument& Args::addArgument(const Vector& nameOrFlags) {
         throw ArgumentException("", "invalid empty flag");
     }
     Argument* argument = NULL;
+    std::vector<std::string> newFlags;
     // is name
     if (nameOrFlags.size() == 1 && nameOrFlags.front()[0] != '-') {
         if (nameOrFlags.front().empty()) {
@@ -230,15 +231,13 @@ Argument& Args::addArgument(const Vector& nameOrFlags) {
         if (argumentFromName_.find(nameOrFlags.front()) != argumentFromName_.end()) {
             throw ArgumentException(nameOrFlags.front().c_str(), "bad name argument already exist");
         }
+        newFlags.push_back(nameOrFlags.front());
         // create argument
         argument = new Argument(*this);
-        argument->nameOrFlags_.push_back(nameOrFlags.front());
         argument->nargs_ = 1;
         argument->type_ = Argument::POSITIONAL_ARGUMENT;
     }
     else {
-        std::vector<std::string> newFlags;
-
         for (std::size_t i = 0; i < nameOrFlags.size(); ++i) {
             Argument::validFormatFlag_(nameOrFlags[i].c_str());
             if (argumentFromName_.find(nameOrFlags[i]) != argumentFromName_.end()) {
@@ -250,18 +249,35 @@ Argument& Args::addArgument(const Vector& nameOrFlags) {
         }
 
         argument = new Argument(*this);
-        argument->nameOrFlags_ = newFlags;
-        argument->sortNameOrFlags_();
     }
 
+    try {
+        argument->nameOrFlags_.swap(newFlags);
+        argument->sortNameOrFlags_();
+        arguments_.push_back(argument);
+    }
+    catch (...) {
+        delete argument;
+        throw;
+    }
+    Argument** addrNewArgument = &(arguments_.back());
+    try {
+        for (std::size_t i = 0; i < argument->nameOrFlags_.size(); ++i) {
+            argumentFromName_.insert(std::pair<std::string, Argument**>(argument->nameOrFlags_[i], addrNewArgument));
+        }
+    }
+    catch (...) {
+        // forget the new argument
+        for (std::size_t i = 0; i < argument->nameOrFlags_.size(); ++i) {
+            argumentFromName_.erase(argument->nameOrFlags_[i]);
+        }
+        arguments_.pop_back();
+        delete argument;
+        throw;
+    }
     argument->index_ = argumentIndex_;
     ++argumentIndex_;
-    arguments_.push_back(argument);
-    Argument** addrNewArgument = &(arguments_.back());
     argument->this_ = addrNewArgument;
-    for (std::size_t i = 0; i < argument->nameOrFlags_.size(); ++i) {
-        argumentFromName_.insert(std::pair<std::string, Argument**>(argument->nameOrFlags_[i], addrNewArgument));
-    }
     arguments_.sort(&Argument::compareOption_);
     return **addrNewArgument;
 }
diff --git a/src/argument.cpp b/src/argument.cpp
index bc6a4ef..d416284 100644
--- a/src/argument.cpp
+++ b/src/argument.cpp
@@ -253,9 +253,11 @@ Argument& Argument::flag(const char* flag__) {
     if (args_.argumentExists(flag__)) {
         throw ArgumentException(flag__, "invalid flag already exist");
     }
-    nameOrFlags_.push_back(flag__);
-    sortNameOrFlags_();
+    std::vector<std::string> newFlags(nameOrFlags_);
+    newFlags.push_back(flag__);
     args_.argumentFromName_.insert(std::pair<std::string, Argument**>(flag__, this_));
+    nameOrFlags_.swap(newFlags);
+    sortNameOrFlags_();
     args_.arguments_.sort(&Argument::compareOption_);
     return *this;
 }
-- 
2.43.0


From 2f51882b4e2e4888dbea6f0389b414387ef35d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:46 +0000
Subject: [PATCH 28/29] fix: keep the ownership of the validator when dest()
 runs out of memory

---
 include/blet/args/argument.h | 18 +++---------------
 single_include/blet/args.h   | 21 ++++++---------------
 src/argument.cpp             |  3 +++
 3 files changed, 12 insertions(+), 30 deletions(-)

diff --git a/include/blet/args/argument.h b/include/blet/args/argument.h
index 6279317..a0081c5 100644
--- a/include/blet/args/argument.h
+++ b/include/blet/args/argument.h
@@ -608,11 +608,7 @@ class Argument : public ArgumentElement {
                    void (*toDest)(std::vector<std::vector<T> >& dest, bool isExists,
                                   const std::vector<std::vector<std::string> >& arguments) = NULL) {
         checkRegistered_();
-        bool validDeletable = validDeletable_;
-        validDeletable_ = false;
-        Argument* argumentType = new ArgumentVectorVectorType<T>(this, dest, toDest);
-        argumentType->validDeletable_ = validDeletable;
-        return *argumentType;
+        return *(new ArgumentVectorVectorType<T>(this, dest, toDest));
     }
 
     /**
@@ -627,11 +623,7 @@ class Argument : public ArgumentElement {
     Argument& dest(std::vector<T>& dest, void (*toDest)(std::vector<T>& dest, bool isExists,
                                                         const std::vector<std::string>& arguments) = NULL) {
         checkRegistered_();
-        bool validDeletable = validDeletable_;
-        validDeletable_ = false;
-        Argument* argumentType = new ArgumentVectorType<T>(this, dest, toDest);
-        argumentType->validDeletable_ = validDeletable;
-        return *argumentType;
+        return *(new ArgumentVectorType<T>(this, dest, toDest));
     }
 
     /**
@@ -645,11 +637,7 @@ class Argument : public ArgumentElement {
     template<typename T>
     Argument& dest(T& dest, void (*toDest)(T& dest, bool isExists, const std::string& argument) = NULL) {
         checkRegistered_();
-        bool validDeletable = validDeletable_;
-        validDeletable_ = false;
-        Argument* argumentType = new ArgumentType<T>(this, dest, toDest);
-        argumentType->validDeletable_ = validDeletable;
-        return *argumentType;
+        return *(new ArgumentType<T>(this, dest, toDest));
     }
 
     /**
diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 30a33ad..4af22c9 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -1159,11 +1159,7 @@ class Argument : public ArgumentElement {
                           void (*toDest)(std::vector<std::vector<T> >& dest, bool isExists,
                                          const std::vector<std::vector<std::string> >& arguments) = NULL) {
         checkRegistered_();
-        bool validDeletable = validDeletable_;
-        validDeletable_ = false;
-        Argument* argumentType = new ArgumentVectorVectorType<T>(this, dest, toDest);
-        argumentType->validDeletable_ = validDeletable;
-        return *argumentType;
+        return *(new ArgumentVectorVectorType<T>(this, dest, toDest));
     }
 
     /**
@@ -1178,11 +1174,7 @@ class Argument : public ArgumentElement {
     inline Argument& dest(std::vector<T>& dest, void (*toDest)(std::vector<T>& dest, bool isExists,
                                                                const std::vector<std::string>& arguments) = NULL) {
         checkRegistered_();
-        bool validDeletable = validDeletable_;
-        validDeletable_ = false;
-        Argument* argumentType = new ArgumentVectorType<T>(this, dest, toDest);
-        argumentType->validDeletable_ = validDeletable;
-        return *argumentType;
+        return *(new ArgumentVectorType<T>(this, dest, toDest));
     }
 
     /**
@@ -1196,11 +1188,7 @@ class Argument : public ArgumentElement {
     template<typename T>
     inline Argument& dest(T& dest, void (*toDest)(T& dest, bool isExists, const std::string& argument) = NULL) {
         checkRegistered_();
-        bool validDeletable = validDeletable_;
-        validDeletable_ = false;
-        Argument* argumentType = new ArgumentType<T>(this, dest, toDest);
-        argumentType->validDeletable_ = validDeletable;
-        return *argumentType;
+        return *(new ArgumentType<T>(this, dest, toDest));
     }
 
     /**
@@ -3728,6 +3716,9 @@ inline void Argument::checkRegistered_() const {
 
 inline void Argument::replace_(Argument* argument) {
     this_ = argument->this_;
+    // take the ownership of the validator
+    validDeletable_ = argument->validDeletable_;
+    argument->validDeletable_ = false;
     // keep the registration of help and version
     if (args_.helpOption_ == argument) {
         args_.helpOption_ = this;
diff --git a/src/argument.cpp b/src/argument.cpp
index d416284..f139d52 100644
--- a/src/argument.cpp
+++ b/src/argument.cpp
@@ -413,6 +413,9 @@ void Argument::checkRegistered_() const {
 
 void Argument::replace_(Argument* argument) {
     this_ = argument->this_;
+    // take the ownership of the validator
+    validDeletable_ = argument->validDeletable_;
+    argument->validDeletable_ = false;
     // keep the registration of help and version
     if (args_.helpOption_ == argument) {
         args_.helpOption_ = this;
-- 
2.43.0


From 19ee0c4034972e9569bcdeea1613d297c0ed06d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:58 +0000
Subject: [PATCH 29/29] fix: never add the help option without its text when
 memory runs out

---
 single_include/blet/args.h | 3 ++-
 src/args.cpp               | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 4af22c9..1077481 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -2697,7 +2697,8 @@ inline void Args::parseArguments(int argc, char* argv[]) {
         if (cithelp == argumentFromName_.end()) {
             flags.push_back("--help");
         }
-        addArgument(flags).action(Action::HELP).help("show this help message and exit");
+        std::string help("show this help message and exit");
+        addArgument(flags).action(Action::HELP).help_.swap(help);
     }
     // get argv[0] if filename is empty
     if (binaryName_.empty() && argc > 0) {
diff --git a/src/args.cpp b/src/args.cpp
index 9fd199e..e899371 100644
--- a/src/args.cpp
+++ b/src/args.cpp
@@ -82,7 +82,8 @@ void Args::parseArguments(int argc, char* argv[]) {
         if (cithelp == argumentFromName_.end()) {
             flags.push_back("--help");
         }
-        addArgument(flags).action(Action::HELP).help("show this help message and exit");
+        std::string help("show this help message and exit");
+        addArgument(flags).action(Action::HELP).help_.swap(help);
     }
     // get argv[0] if filename is empty
     if (binaryName_.empty() && argc > 0) {
-- 
2.43.0

