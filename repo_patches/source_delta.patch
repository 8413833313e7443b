From 87c0ec6d3289d83e9f1a886e3e8a776bd255ddfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:37 +0000
Subject: [PATCH 01/59] fix: clearInput/clearOutput of a unimodal phrase empty
 it consistently

---
 src/core/trainingset/xmmPhrase.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/core/trainingset/xmmPhrase.cpp b/src/core/trainingset/xmmPhrase.cpp
index 10a456e..754ab4d 100644
--- a/src/core/trainingset/xmmPhrase.cpp
+++ b/src/core/trainingset/xmmPhrase.cpp
@@ -428,7 +428,10 @@ void xmm::Phrase::clear() {
 void xmm::Phrase::clearInput() {
     if (!own_memory_)
         throw std::runtime_error("Cannot clear a shared data phrase");
-    if (!bimodal_) length_ = 0;
+    if (!bimodal_) {
+        clear();
+        return;
+    }
     input_length_ = 0;
     trim();
 }
@@ -436,7 +439,10 @@ void xmm::Phrase::clearInput() {
 void xmm::Phrase::clearOutput() {
     if (!own_memory_)
         throw std::runtime_error("Cannot clear a shared data phrase");
-    if (!bimodal_) length_ = 0;
+    if (!bimodal_) {
+        clear();
+        return;
+    }
     output_length_ = 0;
     trim();
 }
-- 
2.43.0


From d4e3adc32a2c0c4882c7e98035f92ab2f227f4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:15 +0000
Subject: [PATCH 02/59] fix: changing the dimension of a phrase frees exactly
 the memory it owns

---
 src/core/trainingset/xmmPhrase.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/trainingset/xmmPhrase.cpp b/src/core/trainingset/xmmPhrase.cpp
index 754ab4d..b56a2bd 100644
--- a/src/core/trainingset/xmmPhrase.cpp
+++ b/src/core/trainingset/xmmPhrase.cpp
@@ -570,14 +570,14 @@ void xmm::Phrase::onAttributeChange(xmm::AttributeBase* attr_pointer) {
         max_length_ = 0;
         empty_ = true;
         if (own_memory_) {
-            delete data_[0];
+            delete[] data_[0];
         }
         data_[0] = nullptr;
         if (bimodal_) {
             if (own_memory_) {
-                data_[1] = nullptr;
+                delete[] data_[1];
             }
-            delete data_[1];
+            data_[1] = nullptr;
         }
         column_names.resize(dimension.get());
     }
-- 
2.43.0


From 500d57b73cb6602626317a42b096ea8c255ec8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:15 +0000
Subject: [PATCH 03/59] fix: keep the input dimension of a phrase consistent
 with its dimension

---
 src/core/trainingset/xmmPhrase.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/core/trainingset/xmmPhrase.cpp b/src/core/trainingset/xmmPhrase.cpp
index b56a2bd..ef2b55d 100644
--- a/src/core/trainingset/xmmPhrase.cpp
+++ b/src/core/trainingset/xmmPhrase.cpp
@@ -47,7 +47,7 @@ xmm::Phrase::Phrase(MemoryMode memoryMode, Multimodality multimodality)
     label.onAttributeChange(this, &xmm::Phrase::onAttributeChange);
     dimension.setLimitMin((bimodal_) ? 2 : 1);
     dimension.set((bimodal_) ? 2 : 1, true);
-    dimension_input.setLimits((bimodal_) ? 1 : 0, (bimodal_) ? 2 : 0);
+    dimension_input.setLimits((bimodal_) ? 1 : 0, (bimodal_) ? 1 : 0);
     dimension_input.set((bimodal_) ? 1 : 0, true);
     data_ = new float*[bimodal_ ? 2 : 1];
     data_[0] = NULL;
@@ -581,8 +581,11 @@ void xmm::Phrase::onAttributeChange(xmm::AttributeBase* attr_pointer) {
         }
         column_names.resize(dimension.get());
     }
-    if (attr_pointer == &dimension)
+    if (attr_pointer == &dimension && bimodal_) {
         dimension_input.setLimitMax(dimension.get() - 1);
+        if (dimension_input.get() > dimension.get() - 1)
+            dimension_input.set(dimension.get() - 1, true);
+    }
     if (attr_pointer == &label) {
         PhraseEvent event(this, PhraseEvent::Type::LabelChanged);
         events.notifyListeners(event);
-- 
2.43.0


From e9b627f2eb5c988c586cac638f6fa3e7b448cbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:15 +0000
Subject: [PATCH 04/59] fix: a phrase connected to zero frames is empty

---
 src/core/trainingset/xmmPhrase.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/core/trainingset/xmmPhrase.cpp b/src/core/trainingset/xmmPhrase.cpp
index ef2b55d..be6b99e 100644
--- a/src/core/trainingset/xmmPhrase.cpp
+++ b/src/core/trainingset/xmmPhrase.cpp
@@ -290,7 +290,7 @@ void xmm::Phrase::connect(float* pointer_to_data, unsigned int length) {
     data_[0] = pointer_to_data;
     input_length_ = length;
     length_ = length;
-    empty_ = false;
+    empty_ = (length_ == 0);
 }
 
 void xmm::Phrase::connect(float* pointer_to_data_input,
@@ -305,7 +305,6 @@ void xmm::Phrase::connect(float* pointer_to_data_input,
     input_length_ = length;
     output_length_ = length;
     trim();
-    empty_ = false;
 }
 
 void xmm::Phrase::connect_input(float* pointer_to_data, unsigned int length) {
@@ -317,7 +316,6 @@ void xmm::Phrase::connect_input(float* pointer_to_data, unsigned int length) {
     data_[0] = pointer_to_data;
     input_length_ = length;
     trim();
-    empty_ = false;
 }
 
 void xmm::Phrase::connect_output(float* pointer_to_data, unsigned int length) {
@@ -329,7 +327,6 @@ void xmm::Phrase::connect_output(float* pointer_to_data, unsigned int length) {
     data_[1] = pointer_to_data;
     output_length_ = length;
     trim();
-    empty_ = false;
 }
 
 void xmm::Phrase::disconnect() {
-- 
2.43.0


From 5143be2f3da78400a33ad18fc02ac3e5d68588ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:43 +0000
Subject: [PATCH 05/59] fix: copying or assigning an empty or shared-memory
 phrase

---
 src/core/trainingset/xmmPhrase.cpp | 26 +++++++++-----------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/src/core/trainingset/xmmPhrase.cpp b/src/core/trainingset/xmmPhrase.cpp
index be6b99e..96a0fd5 100644
--- a/src/core/trainingset/xmmPhrase.cpp
+++ b/src/core/trainingset/xmmPhrase.cpp
@@ -66,8 +66,10 @@ xmm::Phrase::Phrase(Phrase const& src)
       input_length_(src.input_length_),
       output_length_(src.output_length_),
       max_length_(src.max_length_) {
+    data_ = new float*[bimodal_ ? 2 : 1];
+    data_[0] = NULL;
+    if (bimodal_) data_[1] = NULL;
     if (own_memory_) {
-        data_ = new float*[bimodal_ ? 2 : 1];
         if (max_length_ > 0) {
             unsigned int modality_dim =
                 bimodal_ ? dimension_input.get() : dimension.get();
@@ -152,22 +154,10 @@ xmm::Phrase::Phrase(Json::Value const& root)
 xmm::Phrase& xmm::Phrase::operator=(Phrase const& src) {
     if (this != &src) {
         if (own_memory_) {
-            if (data_) {
-                if (bimodal_) try {
-                        delete[] data_[1];
-                    } catch (std::exception& e) {
-                    }
-                try {
-                    delete[] data_[0];
-                } catch (std::exception& e) {
-                }
-            }
-            try {
-                delete[] data_;
-            } catch (std::exception& e) {
-            }
-            data_ = NULL;
+            if (bimodal_) delete[] data_[1];
+            delete[] data_[0];
         }
+        delete[] data_;
         own_memory_ = src.own_memory_;
         bimodal_ = src.bimodal_;
         empty_ = src.empty_;
@@ -180,8 +170,10 @@ xmm::Phrase& xmm::Phrase::operator=(Phrase const& src) {
         column_names = src.column_names;
         label = src.label;
 
+        data_ = new float*[bimodal_ ? 2 : 1];
+        data_[0] = NULL;
+        if (bimodal_) data_[1] = NULL;
         if (own_memory_) {
-            data_ = new float*[bimodal_ ? 2 : 1];
             if (max_length_ > 0) {
                 unsigned int modality_dim =
                     bimodal_ ? dimension_input.get() : dimension.get();
-- 
2.43.0


From 8eb0b5d6546af7df0be4d1b89d79fe7962d72916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:32 +0000
Subject: [PATCH 06/59] fix: assigning a phrase notifies its training sets of
 the new label

---
 src/core/trainingset/xmmPhrase.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/trainingset/xmmPhrase.cpp b/src/core/trainingset/xmmPhrase.cpp
index 96a0fd5..1424afe 100644
--- a/src/core/trainingset/xmmPhrase.cpp
+++ b/src/core/trainingset/xmmPhrase.cpp
@@ -153,6 +153,7 @@ xmm::Phrase::Phrase(Json::Value const& root)
 
 xmm::Phrase& xmm::Phrase::operator=(Phrase const& src) {
     if (this != &src) {
+        const bool relabelled = (label.get() != src.label.get());
         if (own_memory_) {
             if (bimodal_) delete[] data_[1];
             delete[] data_[0];
@@ -196,6 +197,10 @@ xmm::Phrase& xmm::Phrase::operator=(Phrase const& src) {
         dimension_input.onAttributeChange(this,
                                           &xmm::Phrase::onAttributeChange);
         label.onAttributeChange(this, &xmm::Phrase::onAttributeChange);
+        if (relabelled) {
+            PhraseEvent event(this, PhraseEvent::Type::LabelChanged);
+            events.notifyListeners(event);
+        }
     }
     return *this;
 }
-- 
2.43.0


From 21b507f6f2083b255e7e2b006563e88fbfca35a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:32 +0000
Subject: [PATCH 07/59] fix: copying a training set copies its phrases

---
 src/core/trainingset/xmmTrainingSet.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/core/trainingset/xmmTrainingSet.cpp b/src/core/trainingset/xmmTrainingSet.cpp
index 0099ea4..6704511 100644
--- a/src/core/trainingset/xmmTrainingSet.cpp
+++ b/src/core/trainingset/xmmTrainingSet.cpp
@@ -55,8 +55,7 @@ xmm::TrainingSet::TrainingSet(TrainingSet const &src)
       column_names(src.column_names),
       own_memory_(src.own_memory_),
       bimodal_(src.bimodal_),
-      labels_(src.labels_),
-      phrases_(src.phrases_) {
+      labels_(src.labels_) {
     dimension.onAttributeChange(this, &xmm::TrainingSet::onAttributeChange);
     dimension_input.onAttributeChange(this,
                                       &xmm::TrainingSet::onAttributeChange);
-- 
2.43.0


From 503d18050ec22cbc72abf2a6bd030402c5a20051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:32 +0000
Subject: [PATCH 08/59] fix: a training set stops listening to the phrases it
 no longer holds

---
 src/core/trainingset/xmmTrainingSet.cpp | 25 ++++++++++++++++++++++---
 src/core/trainingset/xmmTrainingSet.hpp |  7 +++++++
 2 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/src/core/trainingset/xmmTrainingSet.cpp b/src/core/trainingset/xmmTrainingSet.cpp
index 6704511..b18381c 100644
--- a/src/core/trainingset/xmmTrainingSet.cpp
+++ b/src/core/trainingset/xmmTrainingSet.cpp
@@ -127,7 +127,7 @@ xmm::TrainingSet &xmm::TrainingSet::operator=(TrainingSet const &src) {
     return *this;
 }
 
-xmm::TrainingSet::~TrainingSet() {}
+xmm::TrainingSet::~TrainingSet() { clear(); }
 
 bool xmm::TrainingSet::ownMemory() const { return own_memory_; }
 
@@ -219,6 +219,7 @@ std::shared_ptr<xmm::Phrase> xmm::TrainingSet::getPhrase(int n) const {
 }
 
 void xmm::TrainingSet::addPhrase(int phraseIndex, std::string label) {
+    releasePhrase(phraseIndex);
     phrases_[phraseIndex] = std::make_shared<Phrase>(
         own_memory_ ? MemoryMode::OwnMemory : MemoryMode::SharedMemory,
         bimodal_ ? Multimodality::Bimodal : Multimodality::Unimodal);
@@ -232,7 +233,9 @@ void xmm::TrainingSet::addPhrase(int phraseIndex, std::string label) {
 }
 
 void xmm::TrainingSet::addPhrase(int phraseIndex, Phrase const &phrase) {
-    phrases_[phraseIndex] = std::make_shared<Phrase>(phrase);
+    std::shared_ptr<Phrase> copy = std::make_shared<Phrase>(phrase);
+    releasePhrase(phraseIndex);
+    phrases_[phraseIndex] = copy;
     phrases_[phraseIndex]->events.removeListeners();
     phrases_[phraseIndex]->events.addListener(this,
                                               &xmm::TrainingSet::onPhraseEvent);
@@ -241,6 +244,7 @@ void xmm::TrainingSet::addPhrase(int phraseIndex, Phrase const &phrase) {
 
 void xmm::TrainingSet::addPhrase(int phraseIndex,
                                  std::shared_ptr<Phrase> phrase) {
+    releasePhrase(phraseIndex);
     phrases_[phraseIndex] = phrase;
     phrases_[phraseIndex]->events.addListener(this,
                                               &xmm::TrainingSet::onPhraseEvent);
@@ -248,10 +252,21 @@ void xmm::TrainingSet::addPhrase(int phraseIndex,
 }
 
 void xmm::TrainingSet::removePhrase(int phraseIndex) {
-    phrases_.erase(phraseIndex);
+    releasePhrase(phraseIndex);
     update();
 }
 
+void xmm::TrainingSet::releasePhrase(int phraseIndex) {
+    auto it = phrases_.find(phraseIndex);
+    if (it == phrases_.end()) return;
+    std::shared_ptr<Phrase> phrase = it->second;
+    phrases_.erase(it);
+    for (auto &other : phrases_) {
+        if (other.second == phrase) return;
+    }
+    phrase->events.removeListener(this, &xmm::TrainingSet::onPhraseEvent);
+}
+
 void xmm::TrainingSet::removePhrasesOfClass(std::string const &label) {
     bool contLoop(true);
     while (contLoop) {
@@ -269,6 +284,10 @@ void xmm::TrainingSet::removePhrasesOfClass(std::string const &label) {
 
 void xmm::TrainingSet::clear() {
     sub_training_sets_.clear();
+    for (auto &phrase : phrases_) {
+        phrase.second->events.removeListener(this,
+                                             &xmm::TrainingSet::onPhraseEvent);
+    }
     phrases_.clear();
     labels_.clear();
 }
diff --git a/src/core/trainingset/xmmTrainingSet.hpp b/src/core/trainingset/xmmTrainingSet.hpp
index 6fa03c6..cbc0b95 100644
--- a/src/core/trainingset/xmmTrainingSet.hpp
+++ b/src/core/trainingset/xmmTrainingSet.hpp
@@ -319,6 +319,13 @@ class TrainingSet : public Writable {
      */
     virtual void onAttributeChange(AttributeBase* attr_pointer);
 
+    /**
+     @brief remove a phrase from the set and stop listening to its events,
+     unless it is also stored under another index
+     @param phraseIndex index of the phrase
+     */
+    void releasePhrase(int phraseIndex);
+
     /**
      @brief create all the sub-training sets: one for each label
      @details each subset contains only the phrase for the given label
-- 
2.43.0


From 093ac4534e459b9d30237375d1b1e2e00691e9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:32 +0000
Subject: [PATCH 09/59] fix: removePhrasesOfClass with a label taken from the
 set itself

---
 src/core/trainingset/xmmTrainingSet.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/trainingset/xmmTrainingSet.cpp b/src/core/trainingset/xmmTrainingSet.cpp
index b18381c..82d02f7 100644
--- a/src/core/trainingset/xmmTrainingSet.cpp
+++ b/src/core/trainingset/xmmTrainingSet.cpp
@@ -268,11 +268,14 @@ void xmm::TrainingSet::releasePhrase(int phraseIndex) {
 }
 
 void xmm::TrainingSet::removePhrasesOfClass(std::string const &label) {
+    // the argument may refer to an element of labels(), or to the label of one
+    // of the phrases
+    const std::string target(label);
     bool contLoop(true);
     while (contLoop) {
         contLoop = false;
         for (auto &phrase : phrases_) {
-            if (phrase.second->label.get() == label) {
+            if (phrase.second->label.get() == target) {
                 removePhrase(phrase.first);
                 contLoop = true;
                 break;
-- 
2.43.0


From b6ad79d0031295ae1bf24d8df4681db5c6cb313d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:32 +0000
Subject: [PATCH 10/59] fix: assigning to a training set one of its own class
 subsets

---
 src/core/trainingset/xmmTrainingSet.cpp | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/core/trainingset/xmmTrainingSet.cpp b/src/core/trainingset/xmmTrainingSet.cpp
index 82d02f7..e23b1c4 100644
--- a/src/core/trainingset/xmmTrainingSet.cpp
+++ b/src/core/trainingset/xmmTrainingSet.cpp
@@ -104,23 +104,25 @@ xmm::TrainingSet::TrainingSet(Json::Value const &root)
 
 xmm::TrainingSet &xmm::TrainingSet::operator=(TrainingSet const &src) {
     if (this != &src) {
+        // the source may be one of the class subsets of this set
+        TrainingSet copy(src);
         clear();
-        own_memory_ = src.own_memory_;
-        bimodal_ = src.bimodal_;
-        dimension = src.dimension;
-        dimension_input = src.dimension_input;
-        column_names = src.column_names;
-        labels_ = src.labels_;
+        own_memory_ = copy.own_memory_;
+        bimodal_ = copy.bimodal_;
+        dimension = copy.dimension;
+        dimension_input = copy.dimension_input;
+        column_names = copy.column_names;
+        labels_ = copy.labels_;
         dimension.onAttributeChange(this, &xmm::TrainingSet::onAttributeChange);
         dimension_input.onAttributeChange(this,
                                           &xmm::TrainingSet::onAttributeChange);
         column_names.onAttributeChange(this,
                                        &xmm::TrainingSet::onAttributeChange);
-        for (auto phrase : src.phrases_) {
-            phrases_.insert(std::pair<int, std::shared_ptr<xmm::Phrase>>(
-                phrase.first, std::make_shared<Phrase>(*phrase.second)));
-            phrases_[phrase.first]->events.addListener(
-                this, &xmm::TrainingSet::onPhraseEvent);
+        phrases_ = copy.phrases_;
+        copy.clear();
+        for (auto &phrase : phrases_) {
+            phrase.second->events.addListener(this,
+                                              &xmm::TrainingSet::onPhraseEvent);
         }
         update();
     }
-- 
2.43.0


From 6bc397e9b06d8ab0182f0e1ef9648f5b41866329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:32 +0000
Subject: [PATCH 11/59] fix: keep the input dimension of a training set
 consistent with its dimension

---
 src/core/trainingset/xmmTrainingSet.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/core/trainingset/xmmTrainingSet.cpp b/src/core/trainingset/xmmTrainingSet.cpp
index e23b1c4..ede984c 100644
--- a/src/core/trainingset/xmmTrainingSet.cpp
+++ b/src/core/trainingset/xmmTrainingSet.cpp
@@ -44,7 +44,7 @@ xmm::TrainingSet::TrainingSet(MemoryMode memoryMode,
 
     dimension.setLimitMin((bimodal_) ? 2 : 1);
     dimension.set((bimodal_) ? 2 : 1, true);
-    dimension_input.setLimits((bimodal_) ? 1 : 0, (bimodal_) ? 2 : 0);
+    dimension_input.setLimits((bimodal_) ? 1 : 0, (bimodal_) ? 1 : 0);
     dimension_input.set((bimodal_) ? 1 : 0, true);
     column_names.resize(dimension.get());
 }
@@ -82,7 +82,8 @@ xmm::TrainingSet::TrainingSet(Json::Value const &root)
     bimodal_ = root.get("bimodal", false).asBool();
 
     dimension.setLimitMin((bimodal_) ? 2 : 1);
-    dimension_input.setLimits((bimodal_) ? 1 : 0, (bimodal_) ? 2 : 0);
+    dimension_input.setLimits((bimodal_) ? 1 : 0, (bimodal_) ? 1 : 0);
+    dimension_input.set((bimodal_) ? 1 : 0, true);
     dimension.set(root.get("dimension", bimodal_ ? 2 : 1).asInt());
     dimension_input.set(root.get("dimension_input", bimodal_ ? 1 : 0).asInt());
     std::vector<std::string> tmpColNames(dimension.get());
@@ -152,7 +153,11 @@ void xmm::TrainingSet::onAttributeChange(xmm::AttributeBase *attr_pointer) {
             it->second.dimension.set(dimension.get(), true);
 
         column_names.resize(dimension.get());
-        dimension_input.setLimitMax(dimension.get() - 1);
+        if (bimodal_) {
+            dimension_input.setLimitMax(dimension.get() - 1);
+            if (dimension_input.get() > dimension.get() - 1)
+                dimension_input.set(dimension.get() - 1, true);
+        }
     }
     if (attr_pointer == &dimension_input) {
         for (auto &phrase : phrases_) {
-- 
2.43.0


From 3d83fe4c7c2f9460edc98621b918fd098b4864e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:08 +0000
Subject: [PATCH 12/59] fix: class subsets follow the dimensions of their
 training set

---
 src/core/trainingset/xmmTrainingSet.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/trainingset/xmmTrainingSet.cpp b/src/core/trainingset/xmmTrainingSet.cpp
index ede984c..44f5b12 100644
--- a/src/core/trainingset/xmmTrainingSet.cpp
+++ b/src/core/trainingset/xmmTrainingSet.cpp
@@ -150,7 +150,7 @@ void xmm::TrainingSet::onAttributeChange(xmm::AttributeBase *attr_pointer) {
         for (std::map<std::string, TrainingSet>::iterator it =
                  sub_training_sets_.begin();
              it != sub_training_sets_.end(); ++it)
-            it->second.dimension.set(dimension.get(), true);
+            it->second.dimension.set(dimension.get());
 
         column_names.resize(dimension.get());
         if (bimodal_) {
@@ -166,7 +166,7 @@ void xmm::TrainingSet::onAttributeChange(xmm::AttributeBase *attr_pointer) {
         for (std::map<std::string, TrainingSet>::iterator it =
                  sub_training_sets_.begin();
              it != sub_training_sets_.end(); ++it)
-            it->second.dimension_input.set(dimension_input.get(), true);
+            it->second.dimension_input.set(dimension_input.get());
     }
     if (attr_pointer == &column_names) {
         for (auto &phrase : phrases_) {
-- 
2.43.0


From b4d5b302b1dde774ce1554a2c9201277df5ec896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:58 +0000
Subject: [PATCH 13/59] fix: a unimodal phrase read from JSON has no output
 frames

---
 src/core/trainingset/xmmPhrase.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/trainingset/xmmPhrase.cpp b/src/core/trainingset/xmmPhrase.cpp
index 1424afe..a37cb01 100644
--- a/src/core/trainingset/xmmPhrase.cpp
+++ b/src/core/trainingset/xmmPhrase.cpp
@@ -130,7 +130,7 @@ xmm::Phrase::Phrase(Json::Value const& root)
     length_ = static_cast<unsigned int>(root.get("length", 0).asInt());
     max_length_ = length_;
     input_length_ = length_;
-    output_length_ = length_;
+    output_length_ = bimodal_ ? length_ : 0;
     empty_ = (length_ == 0 && input_length_ == 0 && output_length_ == 0);
 
     if (bimodal_) {
-- 
2.43.0


From 9267c2184a32420e9d303bfa28ed737807b1a1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:38 +0000
Subject: [PATCH 14/59] fix: assigning an attribute does not copy the listener
 of the source

---
 src/core/common/xmmAttribute.hpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/core/common/xmmAttribute.hpp b/src/core/common/xmmAttribute.hpp
index d1dcfc8..6dce847 100644
--- a/src/core/common/xmmAttribute.hpp
+++ b/src/core/common/xmmAttribute.hpp
@@ -170,8 +170,7 @@ class Attribute : public AttributeBase {
      @return copy of the source Attribute object
      @warning the listener object is not copied from the source attribute
      */
-    template <typename U>
-    Attribute& operator=(Attribute<U> const& src) {
+    Attribute& operator=(Attribute const& src) {
         if (this != &src) {
             value_ = src.value_;
             limit_min_ = src.limit_min_;
@@ -317,8 +316,7 @@ class Attribute<std::vector<T>> : public AttributeBase {
      @return copy of the source Attribute object
      @warning the listener object is not copied from the source attribute
      */
-    template <typename U>
-    Attribute& operator=(Attribute<U> const& src) {
+    Attribute& operator=(Attribute const& src) {
         if (this != &src) {
             value_ = src.value_;
             limit_min_ = src.limit_min_;
@@ -505,8 +503,7 @@ class Attribute<std::vector<std::string>> : public AttributeBase {
      @return copy of the source Attribute object
      @warning the listener object is not copied from the source attribute
      */
-    template <typename U>
-    Attribute& operator=(Attribute<U> const& src) {
+    Attribute& operator=(Attribute const& src) {
         if (this != &src) {
             value_ = src.value_;
             limit_min_ = src.limit_min_;
-- 
2.43.0


From 811a7a132ad02534decef2a682c8579a6efde26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:38 +0000
Subject: [PATCH 15/59] fix: column names of shared parameters match the
 dimension from the start

---
 src/core/common/xmmAttribute.hpp            | 4 ++--
 src/core/model/xmmModelSharedParameters.cpp | 1 +
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/common/xmmAttribute.hpp b/src/core/common/xmmAttribute.hpp
index 6dce847..2598503 100644
--- a/src/core/common/xmmAttribute.hpp
+++ b/src/core/common/xmmAttribute.hpp
@@ -361,7 +361,7 @@ class Attribute<std::vector<T>> : public AttributeBase {
      @return the attribute's current value at a given index
      */
     T at(unsigned int index) const {
-        if (index < size_) {
+        if (index < value_.size()) {
             return value_[index];
         } else {
             throw std::out_of_range("Index out of range");
@@ -548,7 +548,7 @@ class Attribute<std::vector<std::string>> : public AttributeBase {
      @return the attribute's current value at a given index
      */
     std::string at(unsigned int index) const {
-        if (index < size_) {
+        if (index < value_.size()) {
             return value_[index];
         } else {
             throw std::out_of_range("Index out of range");
diff --git a/src/core/model/xmmModelSharedParameters.cpp b/src/core/model/xmmModelSharedParameters.cpp
index 21d74a8..3eb58b6 100644
--- a/src/core/model/xmmModelSharedParameters.cpp
+++ b/src/core/model/xmmModelSharedParameters.cpp
@@ -41,6 +41,7 @@ xmm::SharedParameters::SharedParameters()
       em_algorithm_max_iterations(0),
       em_algorithm_percent_chg(0.01, 0.),
       likelihood_window(1, 1) {
+    column_names.resize(dimension.get());
     bimodal.onAttributeChange(this, &xmm::SharedParameters::onAttributeChange);
     dimension.onAttributeChange(this,
                                 &xmm::SharedParameters::onAttributeChange);
-- 
2.43.0


From 9239146736b0a9d53266d19989f665627ddaf4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:38 +0000
Subject: [PATCH 16/59] fix: refuse NaN as the value of a bounded attribute

---
 src/core/common/xmmAttribute.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/common/xmmAttribute.cpp b/src/core/common/xmmAttribute.cpp
index bdf3655..b6ca1e4 100644
--- a/src/core/common/xmmAttribute.cpp
+++ b/src/core/common/xmmAttribute.cpp
@@ -87,7 +87,7 @@ void xmm::checkLimits<long>(long const& value, long const& limit_min,
 template <>
 void xmm::checkLimits<float>(float const& value, float const& limit_min,
                              float const& limit_max) {
-    if (value < limit_min || value > limit_max)
+    if (!(value >= limit_min && value <= limit_max))
         throw std::domain_error("Attribute value out of range. Range: [" +
                                 std::to_string(limit_min) + " ; " +
                                 std::to_string(limit_max) + "]");
@@ -96,7 +96,7 @@ void xmm::checkLimits<float>(float const& value, float const& limit_min,
 template <>
 void xmm::checkLimits<double>(double const& value, double const& limit_min,
                               double const& limit_max) {
-    if (value < limit_min || value > limit_max)
+    if (!(value >= limit_min && value <= limit_max))
         throw std::domain_error("Attribute value out of range. Range: [" +
                                 std::to_string(limit_min) + " ; " +
                                 std::to_string(limit_max) + "]");
-- 
2.43.0


From 642adfbfaceb818cbe55a56fa460906c50f59c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:38 +0000
Subject: [PATCH 17/59] fix: keep the input dimension of a model consistent
 with its dimension and modality

---
 src/core/model/xmmModelSharedParameters.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/core/model/xmmModelSharedParameters.cpp b/src/core/model/xmmModelSharedParameters.cpp
index 3eb58b6..998279a 100644
--- a/src/core/model/xmmModelSharedParameters.cpp
+++ b/src/core/model/xmmModelSharedParameters.cpp
@@ -147,16 +147,20 @@ void xmm::SharedParameters::onAttributeChange(AttributeBase* attr_pointer) {
         if (bimodal.get()) {
             dimension.setLimitMin(2);
             if (dimension.get() < 2) dimension.set(2);
-            dimension_input.setLimitMin(1);
+            dimension_input.setLimits(1, dimension.get() - 1);
             if (dimension_input.get() < 1) dimension_input.set(1);
         } else {
             dimension.setLimitMin(1);
             if (dimension.get() < 1) dimension.set(1);
-            dimension_input.setLimitMax(0);
+            dimension_input.setLimits(0, 0);
             dimension_input.set(0);
         }
     } else if (attr_pointer == &dimension) {
-        dimension_input.setLimitMax(dimension.get() - 1);
+        if (bimodal.get()) {
+            dimension_input.setLimitMax(dimension.get() - 1);
+            if (dimension_input.get() > dimension.get() - 1)
+                dimension_input.set(dimension.get() - 1);
+        }
         column_names.resize(dimension.get());
     }
     attr_pointer->changed = false;
-- 
2.43.0


From f7d9897fd269527befdc25a156625a329aee7a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:38 +0000
Subject: [PATCH 18/59] fix: read double parameters from JSON with double
 precision

---
 src/core/model/xmmModelSharedParameters.cpp | 2 +-
 src/models/gmm/xmmGmmParameters.cpp         | 4 ++--
 src/models/hmm/xmmHmmParameters.cpp         | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/core/model/xmmModelSharedParameters.cpp b/src/core/model/xmmModelSharedParameters.cpp
index 998279a..f125c39 100644
--- a/src/core/model/xmmModelSharedParameters.cpp
+++ b/src/core/model/xmmModelSharedParameters.cpp
@@ -96,7 +96,7 @@ xmm::SharedParameters::SharedParameters(Json::Value const& root)
     em_algorithm_max_iterations.set(
         root.get("em_algorithm_max_iterations", 0).asInt());
     em_algorithm_percent_chg.set(
-        root.get("em_algorithm_percent_chg", 0.01).asFloat());
+        root.get("em_algorithm_percent_chg", 0.01).asDouble());
     likelihood_window.set(root.get("likelihood_window", 1).asInt());
     std::vector<std::string> tmpColNames(dimension.get());
     for (int i = 0; i < tmpColNames.size(); i++)
diff --git a/src/models/gmm/xmmGmmParameters.cpp b/src/models/gmm/xmmGmmParameters.cpp
index 3e4fdb7..adf4c97 100644
--- a/src/models/gmm/xmmGmmParameters.cpp
+++ b/src/models/gmm/xmmGmmParameters.cpp
@@ -80,8 +80,8 @@ xmm::ClassParameters<xmm::GMM>::ClassParameters(Json::Value const& root)
         this, &xmm::ClassParameters<xmm::GMM>::onAttributeChange);
 
     gaussians.set(root["gaussians"].asInt());
-    relative_regularization.set(root["relative_regularization"].asFloat());
-    absolute_regularization.set(root["absolute_regularization"].asFloat());
+    relative_regularization.set(root["relative_regularization"].asDouble());
+    absolute_regularization.set(root["absolute_regularization"].asDouble());
     covariance_mode.set(static_cast<GaussianDistribution::CovarianceMode>(
         root["covariance_mode"].asInt()));
 }
diff --git a/src/models/hmm/xmmHmmParameters.cpp b/src/models/hmm/xmmHmmParameters.cpp
index 2e4711a..c30e442 100644
--- a/src/models/hmm/xmmHmmParameters.cpp
+++ b/src/models/hmm/xmmHmmParameters.cpp
@@ -92,8 +92,8 @@ xmm::ClassParameters<xmm::HMM>::ClassParameters(Json::Value const& root)
     : ClassParameters() {
     states.set(root["states"].asInt());
     gaussians.set(root["gaussians"].asInt());
-    relative_regularization.set(root["relative_regularization"].asFloat());
-    absolute_regularization.set(root["absolute_regularization"].asFloat());
+    relative_regularization.set(root["relative_regularization"].asDouble());
+    absolute_regularization.set(root["absolute_regularization"].asDouble());
     covariance_mode.set(static_cast<GaussianDistribution::CovarianceMode>(
         root["covariance_mode"].asInt()));
     transition_mode.set(
-- 
2.43.0


From 7465454c460fc2702b2e9cec964f481ae50bab0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:38 +0000
Subject: [PATCH 19/59] fix: refuse negative sizes in JSON documents

---
 src/core/model/xmmModelSharedParameters.cpp | 10 +++++-----
 src/core/trainingset/xmmPhrase.cpp          |  6 +++---
 src/core/trainingset/xmmTrainingSet.cpp     |  4 ++--
 src/models/gmm/xmmGmmParameters.cpp         |  2 +-
 src/models/hmm/xmmHmmParameters.cpp         |  4 ++--
 src/models/kmeans/xmmKMeansParameters.cpp   |  4 ++--
 6 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/core/model/xmmModelSharedParameters.cpp b/src/core/model/xmmModelSharedParameters.cpp
index f125c39..582848e 100644
--- a/src/core/model/xmmModelSharedParameters.cpp
+++ b/src/core/model/xmmModelSharedParameters.cpp
@@ -88,16 +88,16 @@ xmm::SharedParameters::SharedParameters(SharedParameters const& src)
 xmm::SharedParameters::SharedParameters(Json::Value const& root)
     : SharedParameters() {
     bimodal.set(root.get("bimodal", false).asBool());
-    dimension.set(root.get("dimension", bimodal.get() ? 2 : 1).asInt());
+    dimension.set(root.get("dimension", bimodal.get() ? 2 : 1).asUInt());
     dimension_input.set(
-        root.get("dimension_input", bimodal.get() ? 1 : 0).asInt());
+        root.get("dimension_input", bimodal.get() ? 1 : 0).asUInt());
     em_algorithm_min_iterations.set(
-        root.get("em_algorithm_min_iterations", 10).asInt());
+        root.get("em_algorithm_min_iterations", 10).asUInt());
     em_algorithm_max_iterations.set(
-        root.get("em_algorithm_max_iterations", 0).asInt());
+        root.get("em_algorithm_max_iterations", 0).asUInt());
     em_algorithm_percent_chg.set(
         root.get("em_algorithm_percent_chg", 0.01).asDouble());
-    likelihood_window.set(root.get("likelihood_window", 1).asInt());
+    likelihood_window.set(root.get("likelihood_window", 1).asUInt());
     std::vector<std::string> tmpColNames(dimension.get());
     for (int i = 0; i < tmpColNames.size(); i++)
         tmpColNames[i] = root["column_names"].get(i, "").asString();
diff --git a/src/core/trainingset/xmmPhrase.cpp b/src/core/trainingset/xmmPhrase.cpp
index a37cb01..e3c102b 100644
--- a/src/core/trainingset/xmmPhrase.cpp
+++ b/src/core/trainingset/xmmPhrase.cpp
@@ -109,13 +109,13 @@ xmm::Phrase::Phrase(Json::Value const& root)
 
     bimodal_ = root.get("bimodal", false).asBool();
     dimension.setLimitMin((bimodal_) ? 2 : 1);
-    dimension.set(root.get("dimension", bimodal_ ? 2 : 1).asInt(), true);
+    dimension.set(root.get("dimension", bimodal_ ? 2 : 1).asUInt(), true);
     if (bimodal_) {
         dimension_input.setLimits(1, dimension.get() - 1);
     } else {
         dimension_input.setLimits(0, 0);
     }
-    dimension_input.set(root.get("dimension_input", bimodal_ ? 1 : 0).asInt(), true);
+    dimension_input.set(root.get("dimension_input", bimodal_ ? 1 : 0).asUInt(), true);
     data_ = new float*[bimodal_ ? 2 : 1];
     data_[0] = NULL;
     if (bimodal_) data_[1] = NULL;
@@ -127,7 +127,7 @@ xmm::Phrase::Phrase(Json::Value const& root)
 
     label.set(root["label"].asString());
 
-    length_ = static_cast<unsigned int>(root.get("length", 0).asInt());
+    length_ = static_cast<unsigned int>(root.get("length", 0).asUInt());
     max_length_ = length_;
     input_length_ = length_;
     output_length_ = bimodal_ ? length_ : 0;
diff --git a/src/core/trainingset/xmmTrainingSet.cpp b/src/core/trainingset/xmmTrainingSet.cpp
index 44f5b12..fc7682a 100644
--- a/src/core/trainingset/xmmTrainingSet.cpp
+++ b/src/core/trainingset/xmmTrainingSet.cpp
@@ -84,8 +84,8 @@ xmm::TrainingSet::TrainingSet(Json::Value const &root)
     dimension.setLimitMin((bimodal_) ? 2 : 1);
     dimension_input.setLimits((bimodal_) ? 1 : 0, (bimodal_) ? 1 : 0);
     dimension_input.set((bimodal_) ? 1 : 0, true);
-    dimension.set(root.get("dimension", bimodal_ ? 2 : 1).asInt());
-    dimension_input.set(root.get("dimension_input", bimodal_ ? 1 : 0).asInt());
+    dimension.set(root.get("dimension", bimodal_ ? 2 : 1).asUInt());
+    dimension_input.set(root.get("dimension_input", bimodal_ ? 1 : 0).asUInt());
     std::vector<std::string> tmpColNames(dimension.get());
     for (int i = 0; i < root["column_names"].size(); i++) {
         tmpColNames[i] = root["column_names"].get(i, "").asString();
diff --git a/src/models/gmm/xmmGmmParameters.cpp b/src/models/gmm/xmmGmmParameters.cpp
index adf4c97..c9ebae7 100644
--- a/src/models/gmm/xmmGmmParameters.cpp
+++ b/src/models/gmm/xmmGmmParameters.cpp
@@ -79,7 +79,7 @@ xmm::ClassParameters<xmm::GMM>::ClassParameters(Json::Value const& root)
     covariance_mode.onAttributeChange(
         this, &xmm::ClassParameters<xmm::GMM>::onAttributeChange);
 
-    gaussians.set(root["gaussians"].asInt());
+    gaussians.set(root["gaussians"].asUInt());
     relative_regularization.set(root["relative_regularization"].asDouble());
     absolute_regularization.set(root["absolute_regularization"].asDouble());
     covariance_mode.set(static_cast<GaussianDistribution::CovarianceMode>(
diff --git a/src/models/hmm/xmmHmmParameters.cpp b/src/models/hmm/xmmHmmParameters.cpp
index c30e442..d0c5fee 100644
--- a/src/models/hmm/xmmHmmParameters.cpp
+++ b/src/models/hmm/xmmHmmParameters.cpp
@@ -90,8 +90,8 @@ xmm::ClassParameters<xmm::HMM>::ClassParameters(ClassParameters<HMM> const& src)
 
 xmm::ClassParameters<xmm::HMM>::ClassParameters(Json::Value const& root)
     : ClassParameters() {
-    states.set(root["states"].asInt());
-    gaussians.set(root["gaussians"].asInt());
+    states.set(root["states"].asUInt());
+    gaussians.set(root["gaussians"].asUInt());
     relative_regularization.set(root["relative_regularization"].asDouble());
     absolute_regularization.set(root["absolute_regularization"].asDouble());
     covariance_mode.set(static_cast<GaussianDistribution::CovarianceMode>(
diff --git a/src/models/kmeans/xmmKMeansParameters.cpp b/src/models/kmeans/xmmKMeansParameters.cpp
index 9620d03..9abadd6 100644
--- a/src/models/kmeans/xmmKMeansParameters.cpp
+++ b/src/models/kmeans/xmmKMeansParameters.cpp
@@ -61,8 +61,8 @@ xmm::ClassParameters<xmm::KMeans>::ClassParameters(
 
 xmm::ClassParameters<xmm::KMeans>::ClassParameters(Json::Value const& root)
     : ClassParameters() {
-    clusters.set(root["clusters"].asInt());
-    max_iterations.set(root["max_iterations"].asInt());
+    clusters.set(root["clusters"].asUInt());
+    max_iterations.set(root["max_iterations"].asUInt());
     relative_distance_threshold.set(
         root["relative_distance_threshold"].asFloat());
 }
-- 
2.43.0


From 21d2445e5008248f972284e0fcd55692839144e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:38 +0000
Subject: [PATCH 20/59] fix: assigning HMM parameters keeps the hierarchical
 flag

---
 src/models/hmm/xmmHmmParameters.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/models/hmm/xmmHmmParameters.cpp b/src/models/hmm/xmmHmmParameters.cpp
index d0c5fee..9f5fa96 100644
--- a/src/models/hmm/xmmHmmParameters.cpp
+++ b/src/models/hmm/xmmHmmParameters.cpp
@@ -114,6 +114,7 @@ xmm::ClassParameters<xmm::HMM>& xmm::ClassParameters<xmm::HMM>::operator=(
         covariance_mode = src.covariance_mode;
         transition_mode = src.transition_mode;
         regression_estimator = src.regression_estimator;
+        hierarchical = src.hierarchical;
         states.onAttributeChange(
             this, &xmm::ClassParameters<xmm::HMM>::onAttributeChange);
         gaussians.onAttributeChange(
-- 
2.43.0


From 4de8e9bf604860b1c57ca90663bb5c856a4ca04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:38 +0000
Subject: [PATCH 21/59] fix: JsonException::what returns a string that outlives
 the call

---
 src/core/common/xmmJson.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/core/common/xmmJson.hpp b/src/core/common/xmmJson.hpp
index 8a27eee..16bd536 100644
--- a/src/core/common/xmmJson.hpp
+++ b/src/core/common/xmmJson.hpp
@@ -190,7 +190,7 @@ class JsonException : public std::exception {
      @return exception message
      */
     virtual const char* what() const throw() {
-        std::string message;
+        std::string& message = message_;
         switch (errorType_) {
             case JsonErrorType::JsonMissingNode:
                 message = "Json Structure Error: Missing Node";
@@ -224,6 +224,11 @@ class JsonException : public std::exception {
      @brief Name of the Json Node presenting an error
      */
     std::vector<std::string> nodename_;
+
+    /**
+     @brief Text returned by what()
+     */
+    mutable std::string message_;
 };
 
 /**
-- 
2.43.0


From 5836cb11d918bcbe90dfe6941545f0083e063650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:20 +0000
Subject: [PATCH 22/59] fix: rescaling a bimodal phrase scales its output
 frames in place

---
 src/core/trainingset/xmmPhrase.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/trainingset/xmmPhrase.cpp b/src/core/trainingset/xmmPhrase.cpp
index e3c102b..e66e530 100644
--- a/src/core/trainingset/xmmPhrase.cpp
+++ b/src/core/trainingset/xmmPhrase.cpp
@@ -521,8 +521,8 @@ void xmm::Phrase::rescale(std::vector<float> offset, std::vector<float> gain) {
             }
             p = getPointer_output(t);
             for (int d = dimension_input.get(); d < dimension.get(); d++) {
-                p[d] -= offset[d];
-                p[d] *= gain[d];
+                p[d - dimension_input.get()] -= offset[d];
+                p[d - dimension_input.get()] *= gain[d];
             }
         } else {
             p = getPointer(t);
-- 
2.43.0


From d9a000c2059a59279206ca69c03f36951110a5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:12 +0000
Subject: [PATCH 23/59] fix: check the sizes in the JSON of phrases and
 training sets before using them

---
 src/core/trainingset/xmmPhrase.cpp      | 54 +++++++++----------------
 src/core/trainingset/xmmTrainingSet.cpp | 19 +++++++--
 2 files changed, 34 insertions(+), 39 deletions(-)

diff --git a/src/core/trainingset/xmmPhrase.cpp b/src/core/trainingset/xmmPhrase.cpp
index e66e530..da8d52c 100644
--- a/src/core/trainingset/xmmPhrase.cpp
+++ b/src/core/trainingset/xmmPhrase.cpp
@@ -93,34 +93,15 @@ xmm::Phrase::Phrase(Phrase const& src)
 }
 
 xmm::Phrase::Phrase(Json::Value const& root)
-    : own_memory_(true),
-      bimodal_(false),
-      empty_(true),
-      length_(0),
-      input_length_(0),
-      output_length_(0),
-      max_length_(0) {
-    if (!own_memory_)
-        throw std::runtime_error("Cannot read Phrase with Shared memory");
-
-    dimension.onAttributeChange(this, &xmm::Phrase::onAttributeChange);
-    dimension_input.onAttributeChange(this, &xmm::Phrase::onAttributeChange);
-    label.onAttributeChange(this, &xmm::Phrase::onAttributeChange);
-
-    bimodal_ = root.get("bimodal", false).asBool();
-    dimension.setLimitMin((bimodal_) ? 2 : 1);
-    dimension.set(root.get("dimension", bimodal_ ? 2 : 1).asUInt(), true);
-    if (bimodal_) {
-        dimension_input.setLimits(1, dimension.get() - 1);
-    } else {
-        dimension_input.setLimits(0, 0);
-    }
-    dimension_input.set(root.get("dimension_input", bimodal_ ? 1 : 0).asUInt(), true);
-    data_ = new float*[bimodal_ ? 2 : 1];
-    data_[0] = NULL;
-    if (bimodal_) data_[1] = NULL;
-
-    column_names.resize(dimension.get(), "");
+    : Phrase(MemoryMode::OwnMemory, root.get("bimodal", false).asBool()
+                                        ? Multimodality::Bimodal
+                                        : Multimodality::Unimodal) {
+    dimension.set(root.get("dimension", bimodal_ ? 2 : 1).asUInt());
+    dimension_input.set(root.get("dimension_input", bimodal_ ? 1 : 0).asUInt());
+
+    if (root["column_names"].size() > dimension.get())
+        throw JsonException(JsonException::JsonErrorType::JsonValueError,
+                            "column_names");
     for (int i = 0; i < root["column_names"].size(); i++) {
         column_names[i] = root["column_names"].get(i, "").asString();
     }
@@ -128,25 +109,28 @@ xmm::Phrase::Phrase(Json::Value const& root)
     label.set(root["label"].asString());
 
     length_ = static_cast<unsigned int>(root.get("length", 0).asUInt());
+    const Json::Value& first = root[bimodal_ ? "data_input" : "data"];
+    if (length_ > 0 && (!first.isArray() || length_ > first.size()))
+        throw JsonException(JsonException::JsonErrorType::JsonValueError,
+                            "length");
     max_length_ = length_;
     input_length_ = length_;
     output_length_ = bimodal_ ? length_ : 0;
-    empty_ = (length_ == 0 && input_length_ == 0 && output_length_ == 0);
+    empty_ = (length_ == 0);
 
     if (bimodal_) {
         data_[0] =
-            reallocate<float>(data_[0], max_length_ * dimension_input.get(),
-                              length_ * dimension_input.get());
+            reallocate<float>(data_[0], 0, max_length_ * dimension_input.get());
         data_[1] = reallocate<float>(
-            data_[1], max_length_ * (dimension.get() - dimension_input.get()),
-            length_ * (dimension.get() - dimension_input.get()));
+            data_[1], 0,
+            max_length_ * (dimension.get() - dimension_input.get()));
         json2array(root["data_input"], data_[0],
                    length_ * dimension_input.get());
         json2array(root["data_output"], data_[1],
                    length_ * (dimension.get() - dimension_input.get()));
     } else {
-        data_[0] = reallocate<float>(data_[0], max_length_ * dimension.get(),
-                                     length_ * dimension.get());
+        data_[0] =
+            reallocate<float>(data_[0], 0, max_length_ * dimension.get());
         json2array(root["data"], data_[0], length_ * dimension.get());
     }
 }
diff --git a/src/core/trainingset/xmmTrainingSet.cpp b/src/core/trainingset/xmmTrainingSet.cpp
index fc7682a..f73a76e 100644
--- a/src/core/trainingset/xmmTrainingSet.cpp
+++ b/src/core/trainingset/xmmTrainingSet.cpp
@@ -87,6 +87,9 @@ xmm::TrainingSet::TrainingSet(Json::Value const &root)
     dimension.set(root.get("dimension", bimodal_ ? 2 : 1).asUInt());
     dimension_input.set(root.get("dimension_input", bimodal_ ? 1 : 0).asUInt());
     std::vector<std::string> tmpColNames(dimension.get());
+    if (root["column_names"].size() > dimension.get())
+        throw JsonException(JsonException::JsonErrorType::JsonValueError,
+                            "column_names");
     for (int i = 0; i < root["column_names"].size(); i++) {
         tmpColNames[i] = root["column_names"].get(i, "").asString();
     }
@@ -95,10 +98,18 @@ xmm::TrainingSet::TrainingSet(Json::Value const &root)
     // Get Phrases
     phrases_.clear();
     for (auto p : root["phrases"]) {
-        phrases_.insert(std::pair<int, std::shared_ptr<xmm::Phrase>>(
-            p["index"].asInt(), std::make_shared<Phrase>(p)));
-        phrases_[p["index"].asInt()]->events.addListener(
-            this, &xmm::TrainingSet::onPhraseEvent);
+        std::shared_ptr<Phrase> phrase = std::make_shared<Phrase>(p);
+        if (phrase->bimodal() != bimodal_ ||
+            phrase->dimension.get() != dimension.get() ||
+            phrase->dimension_input.get() != dimension_input.get())
+            throw JsonException(JsonException::JsonErrorType::JsonValueError,
+                                "phrases");
+        if (!phrases_.insert(std::pair<int, std::shared_ptr<xmm::Phrase>>(
+                          p["index"].asInt(), phrase))
+                 .second)
+            throw JsonException(JsonException::JsonErrorType::JsonValueError,
+                                "index");
+        phrase->events.addListener(this, &xmm::TrainingSet::onPhraseEvent);
     }
     update();
 }
-- 
2.43.0


From ea4c5157d571f97088a63451e6a3845b1295c731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:35 +0000
Subject: [PATCH 24/59] fix: the determinant changes sign with every row
 exchange of the inversion

---
 src/core/common/xmmMatrix.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/common/xmmMatrix.hpp b/src/core/common/xmmMatrix.hpp
index b9611eb..86d5966 100644
--- a/src/core/common/xmmMatrix.hpp
+++ b/src/core/common/xmmMatrix.hpp
@@ -300,6 +300,7 @@ class Matrix {
             // if found > Exchange lines
             if (i != k) {
                 mat.swap_lines(i, k);
+                *det = -*det;
             }
 
             new_mat._data = mat._data;
-- 
2.43.0


From e20cde4f5a87edd033440dcba2853cef7a1212fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:35 +0000
Subject: [PATCH 25/59] fix: a matrix refers to its own data after resizing,
 copying and assignment

---
 src/core/common/xmmMatrix.hpp | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/src/core/common/xmmMatrix.hpp b/src/core/common/xmmMatrix.hpp
index 86d5966..ef0fdbf 100644
--- a/src/core/common/xmmMatrix.hpp
+++ b/src/core/common/xmmMatrix.hpp
@@ -141,6 +141,35 @@ class Matrix {
         data = data_it;
     }
 
+    /**
+     @brief Copy Constructor
+     @param src source matrix (shared data remains shared)
+     */
+    Matrix(Matrix const &src)
+        : nrows(src.nrows),
+          ncols(src.ncols),
+          _data(src._data),
+          data(src.data),
+          ownData(src.ownData) {
+        if (ownData) data = _data.begin();
+    }
+
+    /**
+     @brief Assignment
+     @param src source matrix (shared data remains shared)
+     */
+    Matrix &operator=(Matrix const &src) {
+        if (this != &src) {
+            nrows = src.nrows;
+            ncols = src.ncols;
+            _data = src._data;
+            ownData = src.ownData;
+            data = src.data;
+            if (ownData) data = _data.begin();
+        }
+        return *this;
+    }
+
     /**
      @brief Resize the matrix
      @param nrows_ Number of rows
@@ -151,6 +180,7 @@ class Matrix {
         nrows = nrows_;
         ncols = ncols_;
         _data.resize(nrows * ncols);
+        if (ownData) data = _data.begin();
     }
 
     /**
@@ -163,6 +193,7 @@ class Matrix {
         nrows = nrows_;
         ncols = nrows;
         _data.resize(nrows * ncols);
+        if (ownData) data = _data.begin();
     }
 
     /**
-- 
2.43.0


From 0f450714cd7336b6004b91d95aea4b021bd1d0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:35 +0000
Subject: [PATCH 26/59] fix: the pseudo-inverse does not leak its intermediate
 matrices

---
 src/core/common/xmmMatrix.hpp | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/core/common/xmmMatrix.hpp b/src/core/common/xmmMatrix.hpp
index ef0fdbf..520805e 100644
--- a/src/core/common/xmmMatrix.hpp
+++ b/src/core/common/xmmMatrix.hpp
@@ -37,6 +37,7 @@
 #include <exception>
 #include <iostream>
 #include <stdexcept>
+#include <memory>
 #include <vector>
 
 namespace xmm {
@@ -271,22 +272,18 @@ class Matrix {
             }
         }
 
-        inverse = new Matrix<T>(ncols, nrows);
-        Matrix<T> *transp, *prod, *dst;
-        transp = this->transpose();
+        std::unique_ptr<Matrix<T>> transp, prod, dst;
+        transp.reset(this->transpose());
         if (nrows >= ncols) {
-            prod = transp->product(this);
-            dst = prod->gauss_jordan_inverse(det);
-            inverse = dst->product(transp);
+            prod.reset(transp->product(this));
+            dst.reset(prod->gauss_jordan_inverse(det));
+            inverse = dst->product(transp.get());
         } else {
-            prod = this->product(transp);
-            dst = prod->gauss_jordan_inverse(det);
-            inverse = transp->product(dst);
+            prod.reset(this->product(transp.get()));
+            dst.reset(prod->gauss_jordan_inverse(det));
+            inverse = transp->product(dst.get());
         }
         *det = 0;
-        delete transp;
-        delete prod;
-        delete dst;
         return inverse;
     }
 
-- 
2.43.0


From 1a48e9de16dae518978a61c03621a03ae731f491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:35 +0000
Subject: [PATCH 27/59] fix: setting a gaussian from an axis-aligned ellipse

---
 src/core/distributions/xmmGaussianDistribution.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/core/distributions/xmmGaussianDistribution.cpp b/src/core/distributions/xmmGaussianDistribution.cpp
index ae2b290..b5d1d87 100644
--- a/src/core/distributions/xmmGaussianDistribution.cpp
+++ b/src/core/distributions/xmmGaussianDistribution.cpp
@@ -554,9 +554,11 @@ void xmm::GaussianDistribution::fromEllipse(Ellipse const& gaussian_ellipse,
         gaussian_ellipse.height * gaussian_ellipse.height / 5.991;
     double tantheta = std::tan(gaussian_ellipse.angle);
     double a, b, c;
-    b = (eigenVal1 - eigenVal2) * tantheta / (tantheta * tantheta + 1.);
-    c = eigenVal1 - b / tantheta;
-    a = eigenVal2 + b / tantheta;
+    double b_over_tan =
+        (eigenVal1 - eigenVal2) / (tantheta * tantheta + 1.);
+    b = b_over_tan * tantheta;
+    c = eigenVal1 - b_over_tan;
+    a = eigenVal2 + b_over_tan;
 
     if (covariance_mode.get() == CovarianceMode::Full) {
         covariance[dimension1 * dimension.get() + dimension1] = a;
-- 
2.43.0


From de8893ecf2b62fa8c5a2a957c729bb7e7f5cb865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:35 +0000
Subject: [PATCH 28/59] fix: setting the covariance mode of a gaussian converts
 its covariance only if needed and never fails half-way

---
 .../distributions/xmmGaussianDistribution.cpp | 23 +++++++++++++------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/core/distributions/xmmGaussianDistribution.cpp b/src/core/distributions/xmmGaussianDistribution.cpp
index b5d1d87..a27667c 100644
--- a/src/core/distributions/xmmGaussianDistribution.cpp
+++ b/src/core/distributions/xmmGaussianDistribution.cpp
@@ -142,7 +142,8 @@ void xmm::GaussianDistribution::onAttributeChange(AttributeBase* attr_pointer) {
         allocate();
     }
     if (attr_pointer == &covariance_mode) {
-        if (covariance_mode.get() == CovarianceMode::Diagonal) {
+        if (covariance_mode.get() == CovarianceMode::Diagonal &&
+            covariance.size() != dimension.get()) {
             std::vector<double> new_covariance(dimension.get());
             for (unsigned int d = 0; d < dimension.get(); ++d) {
                 new_covariance[d] = covariance[d * dimension.get() + d];
@@ -151,7 +152,8 @@ void xmm::GaussianDistribution::onAttributeChange(AttributeBase* attr_pointer) {
             inverse_covariance_.resize(dimension.get());
             if (bimodal_)
                 inverse_covariance_input_.resize(dimension_input.get());
-        } else if (covariance_mode.get() == CovarianceMode::Full) {
+        } else if (covariance_mode.get() == CovarianceMode::Full &&
+                   covariance.size() != dimension.get() * dimension.get()) {
             std::vector<double> new_covariance(
                 dimension.get() * dimension.get(), 0.0);
             for (unsigned int d = 0; d < dimension.get(); ++d) {
@@ -163,9 +165,12 @@ void xmm::GaussianDistribution::onAttributeChange(AttributeBase* attr_pointer) {
                 inverse_covariance_input_.resize(dimension_input.get() *
                                                  dimension_input.get());
         }
-        updateInverseCovariance();
-        if (bimodal_) {
-            updateOutputCovariance();
+        output_covariance.clear();
+        try {
+            updateInverseCovariance();
+        } catch (std::runtime_error const&) {
+            // the covariance is not invertible (e.g. not set yet): the
+            // determinants are null until it is updated
         }
     }
     attr_pointer->changed = false;
@@ -386,6 +391,8 @@ void xmm::GaussianDistribution::regularize(std::vector<double> regularization) {
 }
 
 void xmm::GaussianDistribution::updateInverseCovariance() {
+    covariance_determinant_ = 0.;
+    covariance_determinant_input_ = 0.;
     if (covariance_mode.get() == CovarianceMode::Full) {
         Matrix<double> cov_matrix(dimension.get(), dimension.get(), false);
 
@@ -423,11 +430,13 @@ void xmm::GaussianDistribution::updateInverseCovariance() {
         }
     } else  // DIAGONAL COVARIANCE
     {
-        covariance_determinant_ = 1.;
-        covariance_determinant_input_ = 1.;
         for (unsigned int d = 0; d < dimension.get(); ++d) {
             if (covariance[d] <= 0.0)
                 throw std::runtime_error("Non-invertible matrix");
+        }
+        covariance_determinant_ = 1.;
+        covariance_determinant_input_ = 1.;
+        for (unsigned int d = 0; d < dimension.get(); ++d) {
             inverse_covariance_[d] = 1. / covariance[d];
             covariance_determinant_ *= covariance[d];
             if (bimodal_ && d < dimension_input.get()) {
-- 
2.43.0


From dd0216a5dda77511e24da473a18fba830eab1c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:35 +0000
Subject: [PATCH 29/59] fix: a gaussian stays consistent when its dimension or
 input dimension changes

---
 .../distributions/xmmGaussianDistribution.cpp    | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/core/distributions/xmmGaussianDistribution.cpp b/src/core/distributions/xmmGaussianDistribution.cpp
index a27667c..9b8aabb 100644
--- a/src/core/distributions/xmmGaussianDistribution.cpp
+++ b/src/core/distributions/xmmGaussianDistribution.cpp
@@ -136,11 +136,25 @@ xmm::GaussianDistribution& xmm::GaussianDistribution::operator=(
 
 void xmm::GaussianDistribution::onAttributeChange(AttributeBase* attr_pointer) {
     if (attr_pointer == &dimension) {
-        dimension_input.setLimitMax(dimension.get() - 1);
+        if (bimodal_) {
+            dimension_input.setLimitMax(dimension.get() - 1);
+            if (dimension_input.get() > dimension.get() - 1)
+                dimension_input.set(dimension.get() - 1, true);
+        }
+        // nothing is defined until the covariance is updated
+        covariance_determinant_ = 0.;
+        covariance_determinant_input_ = 0.;
     }
     if (attr_pointer == &dimension || attr_pointer == &dimension_input) {
+        output_covariance.clear();
         allocate();
     }
+    if (attr_pointer == &dimension_input && covariance_determinant_ != 0.) {
+        try {
+            updateInverseCovariance();
+        } catch (std::runtime_error const&) {
+        }
+    }
     if (attr_pointer == &covariance_mode) {
         if (covariance_mode.get() == CovarianceMode::Diagonal &&
             covariance.size() != dimension.get()) {
-- 
2.43.0


From aa360e86fbb7c1efb9767b3fcea5fb57f4ff1bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:58 +0000
Subject: [PATCH 30/59] fix: reading a gaussian from JSON in every covariance
 mode, with its limits and output covariance

---
 .../distributions/xmmGaussianDistribution.cpp | 26 ++++++++++++++-----
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/core/distributions/xmmGaussianDistribution.cpp b/src/core/distributions/xmmGaussianDistribution.cpp
index 9b8aabb..1c1640e 100644
--- a/src/core/distributions/xmmGaussianDistribution.cpp
+++ b/src/core/distributions/xmmGaussianDistribution.cpp
@@ -86,26 +86,40 @@ xmm::GaussianDistribution::GaussianDistribution(GaussianDistribution const& src)
 xmm::GaussianDistribution::GaussianDistribution(Json::Value const& root)
     : covariance_determinant_(0.), covariance_determinant_input_(0.) {
     bimodal_ = root.get("bimodal", false).asBool();
-    dimension.set(root.get("dimension", bimodal_ ? 2 : 1).asInt());
-    dimension_input.set(root.get("dimension_input", bimodal_ ? 1 : 0).asInt());
+    dimension.setLimitMin((bimodal_) ? 2 : 1);
+    dimension.set(root.get("dimension", bimodal_ ? 2 : 1).asUInt());
+    dimension_input.setLimits(0, (bimodal_) ? dimension.get() - 1 : 0);
+    dimension_input.set(root.get("dimension_input", bimodal_ ? 1 : 0).asUInt());
     covariance_mode.set(
         static_cast<CovarianceMode>(root["covariance_mode"].asInt()));
 
+    // check the size of the document before allocating
+    if (root["mean"].size() != dimension.get())
+        throw JsonException(JsonException::JsonErrorType::JsonValueError,
+                            "mean");
     allocate();
 
     json2vector(root["mean"], mean, dimension.get());
-    json2vector(root["covariance"], covariance,
-                dimension.get() * dimension.get());
+    json2vector(root["covariance"], covariance, covariance.size());
 
     // updateInverseCovariance();
     // read from json instead of calling updateInverseCovariance() :
     json2vector(root["inverse_covariance"], inverse_covariance_,
-                dimension.get() * dimension.get());
+                inverse_covariance_.size());
     covariance_determinant_ = root.get("covariance_determinant", 0.).asDouble();
     json2vector(root["inverse_covariance_input"], inverse_covariance_input_,
-                dimension_input.get() * dimension_input.get());
+                inverse_covariance_input_.size());
     covariance_determinant_input_ =
         root.get("covariance_determinant_input", 0.).asDouble();
+    if (bimodal_ && root["output_covariance"].size() > 0) {
+        unsigned int dimension_output = dimension.get() - dimension_input.get();
+        output_covariance.resize(
+            (covariance_mode.get() == CovarianceMode::Full)
+                ? dimension_output * dimension_output
+                : dimension_output);
+        json2vector(root["output_covariance"], output_covariance,
+                    output_covariance.size());
+    }
 
     dimension.onAttributeChange(this,
                                 &xmm::GaussianDistribution::onAttributeChange);
-- 
2.43.0


From ffe937fc508cabf5ff3ed664f0ed0dcb80a8d157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:10 +0000
Subject: [PATCH 31/59] fix: axes and angle of the ellipse of a gaussian whose
 variances are nearly equal or axis-aligned

---
 .../distributions/xmmGaussianDistribution.cpp | 24 ++++++++-----------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/core/distributions/xmmGaussianDistribution.cpp b/src/core/distributions/xmmGaussianDistribution.cpp
index 1c1640e..9bc130f 100644
--- a/src/core/distributions/xmmGaussianDistribution.cpp
+++ b/src/core/distributions/xmmGaussianDistribution.cpp
@@ -564,15 +564,13 @@ xmm::Ellipse xmm::GaussianDistribution::toEllipse(unsigned int dimension1,
 
     // Compute Eigen Values to get width, height and angle
     double trace = a + c;
-    double determinant = a * c - b * b;
-    double eigenVal1 = 0.5 * (trace + sqrt(trace * trace - 4 * determinant));
-    double eigenVal2 = 0.5 * (trace - sqrt(trace * trace - 4 * determinant));
+    double delta = sqrt((a - c) * (a - c) + 4 * b * b);
+    double eigenVal1 = 0.5 * (trace + delta);
+    double eigenVal2 = 0.5 * (trace - delta);
     gaussian_ellipse.width = sqrt(5.991 * eigenVal1);
     gaussian_ellipse.height = sqrt(5.991 * eigenVal2);
-    gaussian_ellipse.angle = atan(b / (eigenVal1 - c));
-    if (std::isnan(gaussian_ellipse.angle)) {
-        gaussian_ellipse.angle = M_PI_2;
-    }
+    gaussian_ellipse.angle =
+        (delta == 0.) ? M_PI_2 : 0.5 * atan2(2 * b, a - c);
 
     return gaussian_ellipse;
 }
@@ -728,15 +726,13 @@ xmm::Ellipse xmm::covariance2ellipse(double c_xx, double c_xy, double c_yy) {
 
     // Compute Eigen Values to get width, height and angle
     double trace = c_xx + c_yy;
-    double determinant = c_xx * c_yy - c_xy * c_xy;
-    double eigenVal1 = 0.5 * (trace + sqrt(trace * trace - 4 * determinant));
-    double eigenVal2 = 0.5 * (trace - sqrt(trace * trace - 4 * determinant));
+    double delta = sqrt((c_xx - c_yy) * (c_xx - c_yy) + 4 * c_xy * c_xy);
+    double eigenVal1 = 0.5 * (trace + delta);
+    double eigenVal2 = 0.5 * (trace - delta);
     gaussian_ellipse.width = sqrt(5.991 * eigenVal1);
     gaussian_ellipse.height = sqrt(5.991 * eigenVal2);
-    gaussian_ellipse.angle = atan(c_xy / (eigenVal1 - c_yy));
-    if (std::isnan(gaussian_ellipse.angle)) {
-        gaussian_ellipse.angle = M_PI_2;
-    }
+    gaussian_ellipse.angle =
+        (delta == 0.) ? M_PI_2 : 0.5 * atan2(2 * c_xy, c_xx - c_yy);
 
     return gaussian_ellipse;
 }
-- 
2.43.0


From c00ceeb1ef9b30e92f39a7c299718e2eba9fae8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:17 +0000
Subject: [PATCH 32/59] fix: copying a k-means clustering copies its dimension
 and results

---
 src/models/kmeans/xmmKMeans.cpp        | 8 +++++++-
 src/models/kmeans/xmmKMeansResults.hpp | 2 +-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/models/kmeans/xmmKMeans.cpp b/src/models/kmeans/xmmKMeans.cpp
index cd04cd6..9aa2c07 100644
--- a/src/models/kmeans/xmmKMeans.cpp
+++ b/src/models/kmeans/xmmKMeans.cpp
@@ -48,14 +48,20 @@ xmm::KMeans::KMeans(unsigned int clusters_)
 }
 
 xmm::KMeans::KMeans(KMeans const& src)
-    : configuration(src.configuration),
+    : shared_parameters(
+          std::make_shared<SharedParameters>(*src.shared_parameters)),
+      configuration(src.configuration),
+      results(src.results),
       centers(src.centers),
       initialization_mode(src.initialization_mode) {}
 
 xmm::KMeans& xmm::KMeans::operator=(KMeans const& src) {
     if (this != &src) {
         initialization_mode = src.initialization_mode;
+        shared_parameters =
+            std::make_shared<SharedParameters>(*src.shared_parameters);
         configuration = src.configuration;
+        results = src.results;
         centers = src.centers;
     }
     return *this;
diff --git a/src/models/kmeans/xmmKMeansResults.hpp b/src/models/kmeans/xmmKMeansResults.hpp
index f327286..2f32f31 100644
--- a/src/models/kmeans/xmmKMeansResults.hpp
+++ b/src/models/kmeans/xmmKMeansResults.hpp
@@ -50,7 +50,7 @@ struct Results<KMeans> {
     /**
      @brief Likeliest Cluster
      */
-    unsigned int likeliest;
+    unsigned int likeliest = 0;
 };
 }
 
-- 
2.43.0


From 81f59766dc5bedacd590b3d01dc032567352d1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:17 +0000
Subject: [PATCH 33/59] fix: filtering with a k-means clustering that is not
 trained or was not reset

---
 src/models/kmeans/xmmKMeans.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/models/kmeans/xmmKMeans.cpp b/src/models/kmeans/xmmKMeans.cpp
index 9aa2c07..d5a375f 100644
--- a/src/models/kmeans/xmmKMeans.cpp
+++ b/src/models/kmeans/xmmKMeans.cpp
@@ -210,6 +210,9 @@ void xmm::KMeans::filter(std::vector<float> const& observation) {
     if (observation.size() != shared_parameters->dimension.get())
         throw std::runtime_error("Observation has wrong dimension");
     int dimension = static_cast<int>(shared_parameters->dimension.get());
+    if (centers.size() != configuration.clusters.get() * dimension)
+        throw std::runtime_error("KMeans is not trained");
+    results.distances.resize(configuration.clusters.get(), 0.0);
     results.likeliest = 0;
     float minDistance(std::numeric_limits<float>::max());
     for (unsigned int k = 0; k < configuration.clusters.get(); ++k) {
-- 
2.43.0


From 6eea6fb88c362de6ed901dba59257e8dae346332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:17 +0000
Subject: [PATCH 34/59] fix: a k-means cluster without frames keeps its center

---
 src/models/kmeans/xmmKMeans.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/models/kmeans/xmmKMeans.cpp b/src/models/kmeans/xmmKMeans.cpp
index d5a375f..fdeaf46 100644
--- a/src/models/kmeans/xmmKMeans.cpp
+++ b/src/models/kmeans/xmmKMeans.cpp
@@ -198,6 +198,10 @@ void xmm::KMeans::updateCenters(std::vector<float>& previous_centers,
             for (unsigned int d = 0; d < dimension; ++d) {
                 centers[k * dimension + d] /= float(numFramesPerCluster[k]);
             }
+        else  // a cluster without frames does not move
+            std::copy(previous_centers.begin() + k * dimension,
+                      previous_centers.begin() + (k + 1) * dimension,
+                      centers.begin() + k * dimension);
     }
 }
 
-- 
2.43.0


From 551c3a7c0d8e204b8d3f076fcb39d5723de439c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:17 +0000
Subject: [PATCH 35/59] fix: writing and reading a k-means clustering to and
 from JSON

---
 src/models/kmeans/xmmKMeans.cpp | 71 +++++++++++----------------------
 1 file changed, 23 insertions(+), 48 deletions(-)

diff --git a/src/models/kmeans/xmmKMeans.cpp b/src/models/kmeans/xmmKMeans.cpp
index fdeaf46..94324ae 100644
--- a/src/models/kmeans/xmmKMeans.cpp
+++ b/src/models/kmeans/xmmKMeans.cpp
@@ -232,57 +232,32 @@ void xmm::KMeans::filter(std::vector<float> const& observation) {
 #pragma mark -
 #pragma mark File IO
 Json::Value xmm::KMeans::toJson() const {
-    //    JSONNode json_model(JSON_NODE);
-    //    json_model.set_name("KMeans");
-    //
-    //    json_model.push_back(JSONNode("dimension", dimension_));
-    //    json_model.push_back(JSONNode("nbclusters", nbClusters_));
-    //    json_model.push_back(vector2json(centers, "centers"));
-
-    return Json::Value();
+    Json::Value root;
+    root["shared_parameters"] = shared_parameters->toJson();
+    root["configuration"] = configuration.toJson();
+    root["initialization_mode"] = static_cast<int>(initialization_mode);
+    root["centers"] = vector2json(centers);
+    return root;
 }
 
 void xmm::KMeans::fromJson(Json::Value const& root) {
-    //    try {
-    //        if (root.type() != JSON_NODE)
-    //            throw JSONException("Wrong type: was expecting 'JSON_NODE'",
-    //            root.name());
-    //        JSONNode::const_iterator root_it = root.begin();
-    //
-    //        // Get Dimension
-    //        root_it = root.find("dimension");
-    //        if (root_it == root.end())
-    //            throw JSONException("JSON Node is incomplete",
-    //            root_it->name());
-    //        if (root_it->type() != JSON_NUMBER)
-    //            throw JSONException("Wrong type for node 'dimension': was
-    //            expecting 'JSON_NUMBER'", root_it->name());
-    //        dimension_ = static_cast<unsigned int>(root_it->as_int());
-    //
-    //        // Get Number of Clusters
-    //        root_it = root.find("nbclusters");
-    //        if (root_it == root.end())
-    //            throw JSONException("JSON Node is incomplete",
-    //            root_it->name());
-    //        if (root_it->type() != JSON_NUMBER)
-    //            throw JSONException("Wrong type for node 'nbclusters': was
-    //            expecting 'JSON_NUMBER'", root_it->name());
-    //        nbClusters_ = static_cast<unsigned int>(root_it->as_int());
-    //
-    //        // Get Cluster Centers
-    //        root_it = root.find("centers");
-    //        if (root_it == root.end())
-    //            throw JSONException("JSON Node is incomplete",
-    //            root_it->name());
-    //        if (root_it->type() != JSON_ARRAY)
-    //            throw JSONException("Wrong type for node 'centers': was
-    //            expecting 'JSON_ARRAY'", root_it->name());
-    //        json2vector(*root_it, centers, nbClusters_);
-    //    } catch (JSONException &e) {
-    //        throw JSONException(e, root.name());
-    //    } catch (std::exception &e) {
-    //        throw JSONException(e, root.name());
-    //    }
+    KMeans tmp;
+    tmp.shared_parameters->fromJson(root["shared_parameters"]);
+    tmp.configuration.fromJson(root["configuration"]);
+    int mode = root.get("initialization_mode", 0).asInt();
+    if (mode < static_cast<int>(InitializationMode::Random) ||
+        mode > static_cast<int>(InitializationMode::Biased))
+        throw JsonException(JsonException::JsonErrorType::JsonValueError,
+                            "initialization_mode");
+    tmp.initialization_mode = static_cast<InitializationMode>(mode);
+    unsigned int size = root["centers"].size();
+    if (size > 0 && size != tmp.configuration.clusters.get() *
+                                tmp.shared_parameters->dimension.get())
+        throw JsonException(JsonException::JsonErrorType::JsonValueError,
+                            "centers");
+    tmp.centers.resize(size);
+    json2vector(root["centers"], tmp.centers, size);
+    *this = tmp;
 }
 
 #pragma mark > Utility
-- 
2.43.0


From c258d1a0545e61315ab0cfeb56dbb826c8c68b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:35 +0000
Subject: [PATCH 36/59] fix: the classes of a copied model use the shared
 parameters of the copy

---
 src/core/model/xmmModel.hpp            | 2 ++
 src/core/model/xmmModelSingleClass.hpp | 8 ++++++++
 src/models/hmm/xmmHmmSingleClass.cpp   | 6 ++++++
 src/models/hmm/xmmHmmSingleClass.hpp   | 7 +++++++
 4 files changed, 23 insertions(+)

diff --git a/src/core/model/xmmModel.hpp b/src/core/model/xmmModel.hpp
index 815d900..f01f34c 100644
--- a/src/core/model/xmmModel.hpp
+++ b/src/core/model/xmmModel.hpp
@@ -89,6 +89,7 @@ class Model : public Writable {
                 "Cannot copy: source model is still training");
         models = src.models;
         for (auto& model : models) {
+            model.second.setSharedParameters(shared_parameters);
             model.second.training_events.removeListeners();
             model.second.training_events.addListener(
                 this,
@@ -145,6 +146,7 @@ class Model : public Writable {
             models.clear();
             models = src.models;
             for (auto& model : this->models) {
+                model.second.setSharedParameters(shared_parameters);
                 model.second.training_events.removeListeners();
                 model.second.training_events.addListener(
                     this,
diff --git a/src/core/model/xmmModelSingleClass.hpp b/src/core/model/xmmModelSingleClass.hpp
index cad4a34..1f1dd81 100644
--- a/src/core/model/xmmModelSingleClass.hpp
+++ b/src/core/model/xmmModelSingleClass.hpp
@@ -274,6 +274,14 @@ class SingleClassProbabilisticModel : public Writable {
 
     ///@}
 
+    /**
+     @brief Attach the class to the shared parameters of another model
+     @param p pointer to a shared parameters object (owned by a Model)
+     */
+    virtual void setSharedParameters(std::shared_ptr<SharedParameters> p) {
+        shared_parameters = p;
+    }
+
     /**
      @brief label associated with the given model
      */
diff --git a/src/models/hmm/xmmHmmSingleClass.cpp b/src/models/hmm/xmmHmmSingleClass.cpp
index 401d2a5..047bdd8 100644
--- a/src/models/hmm/xmmHmmSingleClass.cpp
+++ b/src/models/hmm/xmmHmmSingleClass.cpp
@@ -94,6 +94,12 @@ xmm::SingleClassHMM& xmm::SingleClassHMM::operator=(SingleClassHMM const& src) {
     return *this;
 }
 
+void xmm::SingleClassHMM::setSharedParameters(
+    std::shared_ptr<SharedParameters> p) {
+    SingleClassProbabilisticModel::setSharedParameters(p);
+    for (auto& state : states) state.setSharedParameters(p);
+}
+
 #pragma mark -
 #pragma mark Parameters initialization
 void xmm::SingleClassHMM::allocate() {
diff --git a/src/models/hmm/xmmHmmSingleClass.hpp b/src/models/hmm/xmmHmmSingleClass.hpp
index 7dd78f3..e803c40 100644
--- a/src/models/hmm/xmmHmmSingleClass.hpp
+++ b/src/models/hmm/xmmHmmSingleClass.hpp
@@ -79,6 +79,13 @@ class SingleClassHMM : public SingleClassProbabilisticModel {
      */
     SingleClassHMM& operator=(SingleClassHMM const& src);
 
+    /**
+     @brief Attach the class and its states to the shared parameters of another
+     model
+     @param p pointer to a shared parameters object (owned by a Model)
+     */
+    virtual void setSharedParameters(std::shared_ptr<SharedParameters> p);
+
     /** @name Accessors */
     ///@{
 
-- 
2.43.0


From f76c9000b42ce03da8ed2b5d017de6ca3a8360e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:55 +0000
Subject: [PATCH 37/59] fix: copying a model copies its filtering state

---
 src/core/model/xmmModelResults.hpp     |  4 ++--
 src/core/model/xmmModelSingleClass.cpp |  5 +++--
 src/models/gmm/xmmGmmSingleClass.cpp   | 11 +++++++----
 src/models/hmm/xmmHierarchicalHmm.cpp  |  4 ++--
 src/models/hmm/xmmHmmResults.hpp       | 12 ++++++------
 src/models/hmm/xmmHmmSingleClass.cpp   | 24 +++++++++++++++---------
 src/models/hmm/xmmHmmSingleClass.hpp   | 14 ++++++++++----
 7 files changed, 45 insertions(+), 29 deletions(-)

diff --git a/src/core/model/xmmModelResults.hpp b/src/core/model/xmmModelResults.hpp
index c65fd38..0e7ce74 100644
--- a/src/core/model/xmmModelResults.hpp
+++ b/src/core/model/xmmModelResults.hpp
@@ -48,12 +48,12 @@ struct ClassResults {
     /**
      @brief Instantaneous likelihood
      */
-    double instant_likelihood;
+    double instant_likelihood = 0.0;
 
     /**
      @brief Cumulative log-likelihood computed on a sliding window
      */
-    double log_likelihood;
+    double log_likelihood = 0.0;
 
     /**
      @brief Predicted Output parameter vector (only used in regression mode)
diff --git a/src/core/model/xmmModelSingleClass.cpp b/src/core/model/xmmModelSingleClass.cpp
index 28259e4..58e570d 100644
--- a/src/core/model/xmmModelSingleClass.cpp
+++ b/src/core/model/xmmModelSingleClass.cpp
@@ -56,10 +56,9 @@ xmm::SingleClassProbabilisticModel::SingleClassProbabilisticModel(
     : label(src.label),
       shared_parameters(src.shared_parameters),
       training_status(this, label),
+      likelihood_buffer_(src.likelihood_buffer_),
       is_training_(false),
       cancel_training_(false) {
-    if (is_training_)
-        throw std::runtime_error("Cannot copy: target model is still training");
     if (src.is_training_)
         throw std::runtime_error("Cannot copy: source model is still training");
 }
@@ -78,6 +77,7 @@ xmm::SingleClassProbabilisticModel::SingleClassProbabilisticModel(
     }
     label = root["label"].asString();
     training_status.label = label;
+    likelihood_buffer_.resize(shared_parameters->likelihood_window.get());
 }
 
 xmm::SingleClassProbabilisticModel& xmm::SingleClassProbabilisticModel::
@@ -92,6 +92,7 @@ operator=(SingleClassProbabilisticModel const& src) {
         label = src.label;
         training_status = TrainingEvent(this, label),
         shared_parameters = src.shared_parameters;
+        likelihood_buffer_ = src.likelihood_buffer_;
         is_training_ = false;
         cancel_training_ = false;
     }
diff --git a/src/models/gmm/xmmGmmSingleClass.cpp b/src/models/gmm/xmmGmmSingleClass.cpp
index 64d7bd3..b3da2b1 100644
--- a/src/models/gmm/xmmGmmSingleClass.cpp
+++ b/src/models/gmm/xmmGmmSingleClass.cpp
@@ -41,9 +41,10 @@ xmm::SingleClassGMM::SingleClassGMM(SingleClassGMM const& src)
     : SingleClassProbabilisticModel(src),
       parameters(src.parameters),
       components(src.components),
-      mixture_coeffs(src.mixture_coeffs) {
-    beta.resize(parameters.gaussians.get());
-}
+      mixture_coeffs(src.mixture_coeffs),
+      results(src.results),
+      beta(src.beta),
+      current_regularization(src.current_regularization) {}
 
 xmm::SingleClassGMM::SingleClassGMM(std::shared_ptr<SharedParameters> p,
                                     Json::Value const& root)
@@ -67,9 +68,11 @@ xmm::SingleClassGMM& xmm::SingleClassGMM::operator=(SingleClassGMM const& src) {
     if (this != &src) {
         SingleClassProbabilisticModel::operator=(src);
         parameters = src.parameters;
-        beta.resize(parameters.gaussians.get());
+        beta = src.beta;
         mixture_coeffs = src.mixture_coeffs;
         components = src.components;
+        results = src.results;
+        current_regularization = src.current_regularization;
     }
     return *this;
 };
diff --git a/src/models/hmm/xmmHierarchicalHmm.cpp b/src/models/hmm/xmmHierarchicalHmm.cpp
index 4afd41a..44d4e15 100644
--- a/src/models/hmm/xmmHierarchicalHmm.cpp
+++ b/src/models/hmm/xmmHierarchicalHmm.cpp
@@ -44,7 +44,7 @@ xmm::HierarchicalHMM::HierarchicalHMM(HierarchicalHMM const &src)
     transition = src.transition;
     frontier_v1_ = src.frontier_v1_;
     frontier_v2_ = src.frontier_v2_;
-    forward_initialized_ = false;
+    forward_initialized_ = src.forward_initialized_;
 }
 
 xmm::HierarchicalHMM::HierarchicalHMM(Json::Value const &root)
@@ -70,7 +70,7 @@ xmm::HierarchicalHMM &xmm::HierarchicalHMM::operator=(
         transition = src.transition;
         frontier_v1_ = src.frontier_v1_;
         frontier_v2_ = src.frontier_v2_;
-        forward_initialized_ = false;
+        forward_initialized_ = src.forward_initialized_;
     }
     return *this;
 }
diff --git a/src/models/hmm/xmmHmmResults.hpp b/src/models/hmm/xmmHmmResults.hpp
index 633df90..b1a237d 100644
--- a/src/models/hmm/xmmHmmResults.hpp
+++ b/src/models/hmm/xmmHmmResults.hpp
@@ -45,12 +45,12 @@ struct ClassResults<HMM> {
     /**
      @brief Instantaneous likelihood
      */
-    double instant_likelihood;
+    double instant_likelihood = 0.0;
 
     /**
      @brief Cumulative log-likelihood computed on a sliding window
      */
-    double log_likelihood;
+    double log_likelihood = 0.0;
 
     /**
      @brief Predicted Output parameter vector (only used in regression mode)
@@ -70,23 +70,23 @@ struct ClassResults<HMM> {
      @details The time progression is computed as the centroid of the state
      probability distribution estimated by the forward algorithm
      */
-    double progress;
+    double progress = 0.0;
 
     /**
      @brief Likelihood to exit the gesture on the next time step
      */
-    double exit_likelihood;
+    double exit_likelihood = 0.0;
 
     /**
      @brief Likelihood to exit the gesture on the next time step (normalized -/-
      total likelihood)
      */
-    double exit_ratio;
+    double exit_ratio = 0.0;
 
     /**
      @brief Index of the likeliest state
      */
-    unsigned int likeliest_state;
+    unsigned int likeliest_state = 0;
 };
 }
 
diff --git a/src/models/hmm/xmmHmmSingleClass.cpp b/src/models/hmm/xmmHmmSingleClass.cpp
index 047bdd8..db979a5 100644
--- a/src/models/hmm/xmmHmmSingleClass.cpp
+++ b/src/models/hmm/xmmHmmSingleClass.cpp
@@ -43,10 +43,7 @@ xmm::SingleClassHMM::SingleClassHMM(SingleClassHMM const& src)
       transition(src.transition),
       is_hierarchical_(src.is_hierarchical_),
       exit_probabilities_(src.exit_probabilities_) {
-    alpha.resize(parameters.states.get());
-    previous_alpha_.resize(parameters.states.get());
-    beta_.resize(parameters.states.get());
-    previous_beta_.resize(parameters.states.get());
+    copyFilteringState(src);
 }
 
 xmm::SingleClassHMM::SingleClassHMM(std::shared_ptr<SharedParameters> p,
@@ -85,15 +82,24 @@ xmm::SingleClassHMM& xmm::SingleClassHMM::operator=(SingleClassHMM const& src) {
         prior = src.prior;
         exit_probabilities_ = src.exit_probabilities_;
         states = src.states;
-
-        alpha.resize(parameters.states.get());
-        previous_alpha_.resize(parameters.states.get());
-        beta_.resize(parameters.states.get());
-        previous_beta_.resize(parameters.states.get());
+        copyFilteringState(src);
     }
     return *this;
 }
 
+void xmm::SingleClassHMM::copyFilteringState(SingleClassHMM const& src) {
+    results = src.results;
+    alpha = src.alpha;
+    for (int i = 0; i < 3; i++) alpha_h[i] = src.alpha_h[i];
+    previous_alpha_ = src.previous_alpha_;
+    beta_ = src.beta_;
+    previous_beta_ = src.previous_beta_;
+    forward_initialized_ = src.forward_initialized_;
+    window_minindex_ = src.window_minindex_;
+    window_maxindex_ = src.window_maxindex_;
+    window_normalization_constant_ = src.window_normalization_constant_;
+}
+
 void xmm::SingleClassHMM::setSharedParameters(
     std::shared_ptr<SharedParameters> p) {
     SingleClassProbabilisticModel::setSharedParameters(p);
diff --git a/src/models/hmm/xmmHmmSingleClass.hpp b/src/models/hmm/xmmHmmSingleClass.hpp
index e803c40..6139811 100644
--- a/src/models/hmm/xmmHmmSingleClass.hpp
+++ b/src/models/hmm/xmmHmmSingleClass.hpp
@@ -441,11 +441,17 @@ class SingleClassHMM : public SingleClassProbabilisticModel {
      */
     void updateExitProbabilities(float* _exitProbabilities = NULL);
 
+    /**
+     @brief Copy the state of the filtering process of another model
+     @param src Source Model
+     */
+    void copyFilteringState(SingleClassHMM const& src);
+
   protected:
     /**
      @brief Defines if the forward algorithm has been initialized
      */
-    bool forward_initialized_;
+    bool forward_initialized_ = false;
 
     /**
      @brief used to store the alpha estimated at the previous time step
@@ -515,19 +521,19 @@ class SingleClassHMM : public SingleClassProbabilisticModel {
      @brief minimum index of the alpha window (used for regression & time
      progression)
      */
-    int window_minindex_;
+    int window_minindex_ = 0;
 
     /**
      @brief minimum index of the alpha window (used for regression & time
      progression)
      */
-    int window_maxindex_;
+    int window_maxindex_ = 0;
 
     /**
      @brief normalization constant of the alpha window (used for regression &
      time progression)
      */
-    double window_normalization_constant_;
+    double window_normalization_constant_ = 0.0;
 };
 }
 
-- 
2.43.0


From 2c9751bc80a2fc3692cb14d37dec7cf9cc501878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:55 +0000
Subject: [PATCH 38/59] fix: training always initializes the exit probability
 of every state

---
 src/models/hmm/xmmHmmSingleClass.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/models/hmm/xmmHmmSingleClass.cpp b/src/models/hmm/xmmHmmSingleClass.cpp
index db979a5..e981452 100644
--- a/src/models/hmm/xmmHmmSingleClass.cpp
+++ b/src/models/hmm/xmmHmmSingleClass.cpp
@@ -133,7 +133,8 @@ void xmm::SingleClassHMM::allocate() {
     for (auto& state : states) {
         state.allocate();
     }
-    if (is_hierarchical_) updateExitProbabilities(NULL);
+    exit_probabilities_.assign(numStates, 0.0);
+    exit_probabilities_[numStates - 1] = DEFAULT_EXITPROBABILITY_LAST_STATE();
 }
 
 void xmm::SingleClassHMM::initParametersToDefault(
@@ -1368,7 +1369,7 @@ void xmm::SingleClassHMM::updateExitProbabilities(float* exitProbabilities) {
         throw std::runtime_error(
             "Model is Not hierarchical: method cannot be used");
     if (exitProbabilities == NULL) {
-        exit_probabilities_.resize(numStates, 0.0);
+        exit_probabilities_.assign(numStates, 0.0);
         exit_probabilities_[numStates - 1] =
             DEFAULT_EXITPROBABILITY_LAST_STATE();
     } else {
@@ -1386,7 +1387,7 @@ void xmm::SingleClassHMM::addExitPoint(int stateIndex, float proba) {
     if (!is_hierarchical_)
         throw std::runtime_error(
             "Model is Not hierarchical: method cannot be used");
-    if (stateIndex >= parameters.states.get())
+    if (stateIndex < 0 || stateIndex >= parameters.states.get())
         throw std::out_of_range("State index out of bounds");
     exit_probabilities_[stateIndex] = proba;
 }
-- 
2.43.0


From c55dca996ab7c8f7992a1b9934d573ffce287051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:36 +0000
Subject: [PATCH 39/59] fix: updating the class transitions of an HMM neither
 fails nor changes exit points

---
 src/models/hmm/xmmHierarchicalHmm.cpp | 25 +------------------------
 src/models/hmm/xmmHierarchicalHmm.hpp | 20 --------------------
 2 files changed, 1 insertion(+), 44 deletions(-)

diff --git a/src/models/hmm/xmmHierarchicalHmm.cpp b/src/models/hmm/xmmHierarchicalHmm.cpp
index 44d4e15..4ff3418 100644
--- a/src/models/hmm/xmmHierarchicalHmm.cpp
+++ b/src/models/hmm/xmmHierarchicalHmm.cpp
@@ -102,20 +102,12 @@ void xmm::HierarchicalHMM::normalizeTransitions() {
     for (int i = 0; i < size(); i++) prior[i] /= sumPrior;
 }
 
-void xmm::HierarchicalHMM::joinTraining() {
-    Model<SingleClassHMM, HMM>::joinTraining();
-    updateTransitionParameters();
-}
-
 void xmm::HierarchicalHMM::updateTransitionParameters() {
     if (this->size() == prior.size())  // number of primitives has not changed
         return;
 
     updatePrior();
     updateTransition();
-
-    updateExitProbabilities();  // Update exit probabilities of Submodels
-                                // (signal level)
 }
 
 void xmm::HierarchicalHMM::updatePrior() {
@@ -132,17 +124,6 @@ void xmm::HierarchicalHMM::updateTransition() {
     }
 }
 
-void xmm::HierarchicalHMM::updateExitProbabilities() {
-    for (auto &model : models) {
-        model.second.updateExitProbabilities();
-    }
-}
-
-void xmm::HierarchicalHMM::addModelForClass(std::string const &label) {
-    Model<SingleClassHMM, HMM>::addModelForClass(label);
-    updateTransitionParameters();
-}
-
 void xmm::HierarchicalHMM::forward_init(std::vector<float> const &observation) {
     checkTraining();
     double norm_const(0.0);
@@ -353,13 +334,9 @@ void xmm::HierarchicalHMM::likelihoodAlpha(
     }
 }
 
-void xmm::HierarchicalHMM::removeClass(std::string const &label) {
-    Model<SingleClassHMM, HMM>::removeClass(label);
-    updateTransitionParameters();
-}
-
 void xmm::HierarchicalHMM::reset() {
     Model<SingleClassHMM, HMM>::reset();
+    updateTransitionParameters();
     results.instant_likelihoods.resize(size());
     results.instant_normalized_likelihoods.resize(size());
     results.smoothed_likelihoods.resize(size());
diff --git a/src/models/hmm/xmmHierarchicalHmm.hpp b/src/models/hmm/xmmHierarchicalHmm.hpp
index 849850b..185912e 100644
--- a/src/models/hmm/xmmHierarchicalHmm.hpp
+++ b/src/models/hmm/xmmHierarchicalHmm.hpp
@@ -78,12 +78,6 @@ class HierarchicalHMM : public Model<SingleClassHMM, HMM> {
     /** @name Class Manipulation */
     ///@{
 
-    /**
-     @brief Remove a specific class by label
-     @param label label of the class to remove
-     */
-    virtual void removeClass(std::string const& label);
-
     /**
      @brief Remove All models
      */
@@ -212,13 +206,6 @@ class HierarchicalHMM : public Model<SingleClassHMM, HMM> {
     std::vector<std::vector<double>> transition;
 
   protected:
-    /**
-     @brief Finishes the background training process by joining threads and
-     deleting the models which training failed
-     @details: updates transition parameters after joining
-     */
-    virtual void joinTraining();
-
     /**
      @brief update high-level parameters when a new primitive is learned
      @details  updated parameters: prior probabilities + transition matrix
@@ -237,13 +224,6 @@ class HierarchicalHMM : public Model<SingleClassHMM, HMM> {
      */
     void updateTransition();
 
-    /**
-     @brief Update exit probabilities of each sub-model
-     */
-    void updateExitProbabilities();
-
-    virtual void addModelForClass(std::string const& label);
-
     /**
      @brief Normalize segment level prior and transition matrices
      */
-- 
2.43.0


From 1e48296ed4e9ea6cb93677c690da62470ee6d2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:36 +0000
Subject: [PATCH 40/59] fix: the first frame of an ergodic class in a
 hierarchical HMM

---
 src/models/hmm/xmmHierarchicalHmm.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/models/hmm/xmmHierarchicalHmm.cpp b/src/models/hmm/xmmHierarchicalHmm.cpp
index 4ff3418..f750850 100644
--- a/src/models/hmm/xmmHierarchicalHmm.cpp
+++ b/src/models/hmm/xmmHierarchicalHmm.cpp
@@ -135,6 +135,9 @@ void xmm::HierarchicalHMM::forward_init(std::vector<float> const &observation) {
         for (int i = 0; i < 3; i++) {
             model.second.alpha_h[i].assign(N, 0.0);
         }
+        model.second.results.instant_likelihood = 0.0;
+        model.second.results.exit_likelihood = 0.0;
+        model.second.results.exit_ratio = 0.0;
 
         // Compute Emission probability and initialize on the first state of
         // the
@@ -144,11 +147,11 @@ void xmm::HierarchicalHMM::forward_init(std::vector<float> const &observation) {
             for (int i = 0; i < model.second.parameters.states.get(); i++) {
                 if (shared_parameters->bimodal.get()) {
                     model.second.alpha_h[0][i] =
-                        model.second.prior[i] *
+                        this->prior[model_index] * model.second.prior[i] *
                         model.second.states[i].obsProb_input(&observation[0]);
                 } else {
                     model.second.alpha_h[0][i] =
-                        model.second.prior[i] *
+                        this->prior[model_index] * model.second.prior[i] *
                         model.second.states[i].obsProb(&observation[0]);
                 }
                 model.second.results.instant_likelihood +=
-- 
2.43.0


From 5358efd98a1d2ebf48363117d0a541724b399c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:36 +0000
Subject: [PATCH 41/59] fix: progress, likeliest state and window of an HMM use
 the whole probability of each state

---
 src/models/hmm/xmmHierarchicalHmm.cpp |  6 +++--
 src/models/hmm/xmmHmmSingleClass.cpp  | 37 ++++++++++++---------------
 src/models/hmm/xmmHmmSingleClass.hpp  |  7 +++++
 3 files changed, 28 insertions(+), 22 deletions(-)

diff --git a/src/models/hmm/xmmHierarchicalHmm.cpp b/src/models/hmm/xmmHierarchicalHmm.cpp
index f750850..943b9de 100644
--- a/src/models/hmm/xmmHierarchicalHmm.cpp
+++ b/src/models/hmm/xmmHierarchicalHmm.cpp
@@ -294,8 +294,10 @@ void xmm::HierarchicalHMM::forward_update(
         }
 
         dstModel.second.results.exit_ratio =
-            dstModel.second.results.exit_likelihood /
-            dstModel.second.results.instant_likelihood;
+            (dstModel.second.results.instant_likelihood > 0.0)
+                ? dstModel.second.results.exit_likelihood /
+                      dstModel.second.results.instant_likelihood
+                : 0.0;
 
         dst_model_index++;
     }
diff --git a/src/models/hmm/xmmHmmSingleClass.cpp b/src/models/hmm/xmmHmmSingleClass.cpp
index e981452..429f3f6 100644
--- a/src/models/hmm/xmmHmmSingleClass.cpp
+++ b/src/models/hmm/xmmHmmSingleClass.cpp
@@ -1168,25 +1168,23 @@ unsigned int argmax(std::vector<double> const& v) {
     return amax;
 }
 
+double xmm::SingleClassHMM::stateProbability(unsigned int state) const {
+    return is_hierarchical_
+               ? alpha_h[0][state] + alpha_h[1][state] + alpha_h[2][state]
+               : alpha[state];
+}
+
 void xmm::SingleClassHMM::updateAlphaWindow() {
     unsigned int numStates = parameters.states.get();
 
     check_training();
     results.likeliest_state = 0;
     // Get likeliest State
-    double best_alpha(is_hierarchical_ ? (alpha_h[0][0] + alpha_h[1][0])
-                                       : alpha[0]);
+    double best_alpha(stateProbability(0));
     for (unsigned int i = 1; i < numStates; ++i) {
-        if (is_hierarchical_) {
-            if ((alpha_h[0][i] + alpha_h[1][i]) > best_alpha) {
-                best_alpha = alpha_h[0][i] + alpha_h[1][i];
-                results.likeliest_state = i;
-            }
-        } else {
-            if (alpha[i] > best_alpha) {
-                best_alpha = alpha[i];
-                results.likeliest_state = i;
-            }
+        if (stateProbability(i) > best_alpha) {
+            best_alpha = stateProbability(i);
+            results.likeliest_state = i;
         }
     }
 
@@ -1199,10 +1197,12 @@ void xmm::SingleClassHMM::updateAlphaWindow() {
     window_maxindex_ = (window_maxindex_ <= static_cast<int>(numStates))
                            ? window_maxindex_
                            : static_cast<int>(numStates);
+    // with a single state, the window is that state
+    if (window_maxindex_ <= static_cast<int>(results.likeliest_state))
+        window_maxindex_ = static_cast<int>(results.likeliest_state) + 1;
     window_normalization_constant_ = 0.0;
     for (int i = window_minindex_; i < window_maxindex_; ++i) {
-        window_normalization_constant_ +=
-            is_hierarchical_ ? (alpha_h[0][i] + alpha_h[1][i]) : alpha[i];
+        window_normalization_constant_ += stateProbability(i);
     }
 }
 
@@ -1305,13 +1305,10 @@ void xmm::SingleClassHMM::updateResults() {
     results.log_likelihood /= double(bufSize);
 
     results.progress = 0.0;
-    for (int i = window_minindex_; i < window_maxindex_; ++i) {
-        if (is_hierarchical_)
+    if (window_normalization_constant_ > 0.0) {
+        for (int i = window_minindex_; i < window_maxindex_; ++i)
             results.progress +=
-                (alpha_h[0][i] + alpha_h[1][i] + alpha_h[2][i]) * i /
-                window_normalization_constant_;
-        else
-            results.progress += alpha[i] * i / window_normalization_constant_;
+                stateProbability(i) * i / window_normalization_constant_;
     }
     double div = double(parameters.states.get() - 1);
     if(div == 0) div = 1;
diff --git a/src/models/hmm/xmmHmmSingleClass.hpp b/src/models/hmm/xmmHmmSingleClass.hpp
index 6139811..8ed658a 100644
--- a/src/models/hmm/xmmHmmSingleClass.hpp
+++ b/src/models/hmm/xmmHmmSingleClass.hpp
@@ -404,6 +404,13 @@ class SingleClassHMM : public SingleClassProbabilisticModel {
      */
     void addCyclicTransition(double proba);
 
+    /**
+     @brief Probability of a state estimated by the forward algorithm
+     @details in hierarchical mode, sums over the exit variables of the state
+     @param state index of the state
+     */
+    double stateProbability(unsigned int state) const;
+
     /**
      @brief Estimates the likeliest state and compute the bounds of the windows
      over the states.
-- 
2.43.0


From b8821318e78e8c776881551f815cb7ae12f33b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:36 +0000
Subject: [PATCH 42/59] fix: the regression of an HMM class weighs its states
 with probabilities that sum to one

---
 src/models/hmm/xmmHmmSingleClass.cpp | 60 ++++++++--------------------
 1 file changed, 17 insertions(+), 43 deletions(-)

diff --git a/src/models/hmm/xmmHmmSingleClass.cpp b/src/models/hmm/xmmHmmSingleClass.cpp
index 429f3f6..075d7b9 100644
--- a/src/models/hmm/xmmHmmSingleClass.cpp
+++ b/src/models/hmm/xmmHmmSingleClass.cpp
@@ -1226,6 +1226,8 @@ void xmm::SingleClassHMM::regression(
         states[results.likeliest_state].regression(observation_input);
         results.output_values =
             states[results.likeliest_state].results.output_values;
+        results.output_covariance =
+            states[results.likeliest_state].results.output_covariance;
         return;
     }
 
@@ -1237,10 +1239,9 @@ void xmm::SingleClassHMM::regression(
                                   HMM::RegressionEstimator::Full)
                                      ? parameters.states.get()
                                      : window_maxindex_;
-    double normalization_constant = (parameters.regression_estimator.get() ==
-                                     HMM::RegressionEstimator::Full)
-                                        ? 1.0
-                                        : window_normalization_constant_;
+    double normalization_constant = 0.0;
+    for (unsigned int i = clip_min_state; i < clip_max_state; ++i)
+        normalization_constant += stateProbability(i);
 
     if (normalization_constant <= 0.0) normalization_constant = 1.;
 
@@ -1249,47 +1250,20 @@ void xmm::SingleClassHMM::regression(
         states[i].likelihood(observation_input);
         states[i].regression(observation_input);
         tmp_predicted_output = states[i].results.output_values;
+        double weight = stateProbability(i) / normalization_constant;
         for (unsigned int d = 0; d < dimension_output; ++d) {
-            if (is_hierarchical_) {
-                results.output_values[d] += (alpha_h[0][i] + alpha_h[1][i]) *
-                                            tmp_predicted_output[d] /
-                                            normalization_constant;
-                if (parameters.covariance_mode.get() ==
-                    GaussianDistribution::CovarianceMode::Full) {
-                    for (int d2 = 0; d2 < dimension_output; ++d2)
-                        results.output_covariance[d * dimension_output + d2] +=
-                            (alpha_h[0][i] + alpha_h[1][i]) *
-                            (alpha_h[0][i] + alpha_h[1][i]) *
-                            states[i]
-                                .results
-                                .output_covariance[d * dimension_output + d2] /
-                            normalization_constant;
-                } else {
-                    results.output_covariance[d] +=
-                        (alpha_h[0][i] + alpha_h[1][i]) *
-                        (alpha_h[0][i] + alpha_h[1][i]) *
-                        states[i].results.output_covariance[d] /
-                        normalization_constant;
-                }
+            results.output_values[d] += weight * tmp_predicted_output[d];
+            if (parameters.covariance_mode.get() ==
+                GaussianDistribution::CovarianceMode::Full) {
+                for (int d2 = 0; d2 < dimension_output; ++d2)
+                    results.output_covariance[d * dimension_output + d2] +=
+                        weight * weight *
+                        states[i]
+                            .results
+                            .output_covariance[d * dimension_output + d2];
             } else {
-                results.output_values[d] +=
-                    alpha[i] * tmp_predicted_output[d] / normalization_constant;
-                if (parameters.covariance_mode.get() ==
-                    GaussianDistribution::CovarianceMode::Full) {
-                    for (int d2 = 0; d2 < dimension_output; ++d2)
-                        results.output_covariance[d * dimension_output + d2] +=
-                            alpha[i] * alpha[i] *
-                            states[i]
-                                .results
-                                .output_covariance[d * dimension_output + d2] /
-                            normalization_constant;
-
-                } else {
-                    results.output_covariance[d] +=
-                        alpha[i] * alpha[i] *
-                        states[i].results.output_covariance[d] /
-                        normalization_constant;
-                }
+                results.output_covariance[d] +=
+                    weight * weight * states[i].results.output_covariance[d];
             }
         }
     }
-- 
2.43.0


From e9dc6467e1fc4b290bcbb73dfb5e3718aaca5a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:36 +0000
Subject: [PATCH 43/59] fix: a non-hierarchical HMM counts every frame once,
 and its mode is the one of its last reset

---
 src/models/hmm/xmmHierarchicalHmm.cpp | 20 ++++++++++----------
 src/models/hmm/xmmHmmSingleClass.cpp  |  3 ++-
 2 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/models/hmm/xmmHierarchicalHmm.cpp b/src/models/hmm/xmmHierarchicalHmm.cpp
index 943b9de..ba8c219 100644
--- a/src/models/hmm/xmmHierarchicalHmm.cpp
+++ b/src/models/hmm/xmmHierarchicalHmm.cpp
@@ -340,6 +340,9 @@ void xmm::HierarchicalHMM::likelihoodAlpha(
 }
 
 void xmm::HierarchicalHMM::reset() {
+    for (auto &model : models) {
+        model.second.is_hierarchical_ = configuration.hierarchical.get();
+    }
     Model<SingleClassHMM, HMM>::reset();
     updateTransitionParameters();
     results.instant_likelihoods.resize(size());
@@ -362,20 +365,22 @@ void xmm::HierarchicalHMM::reset() {
     frontier_v1_.resize(this->size());
     frontier_v2_.resize(this->size());
     forward_initialized_ = false;
-    for (auto &model : models) {
-        model.second.is_hierarchical_ = configuration.hierarchical.get();
-        model.second.reset();
-    }
 }
 
 void xmm::HierarchicalHMM::filter(std::vector<float> const &observation) {
     checkTraining();
-    if (configuration.hierarchical.get()) {
+    if (models.begin()->second.is_hierarchical_) {
         if (forward_initialized_) {
             this->forward_update(observation);
         } else {
             this->forward_init(observation);
         }
+
+        // Compute time progression
+        for (auto &model : models) {
+            model.second.updateAlphaWindow();
+            model.second.updateResults();
+        }
     } else {
         int i(0);
         for (auto &model : models) {
@@ -384,11 +389,6 @@ void xmm::HierarchicalHMM::filter(std::vector<float> const &observation) {
         }
     }
 
-    // Compute time progression
-    for (auto &model : models) {
-        model.second.updateAlphaWindow();
-        model.second.updateResults();
-    }
     updateResults();
 
     if (shared_parameters->bimodal.get()) {
diff --git a/src/models/hmm/xmmHmmSingleClass.cpp b/src/models/hmm/xmmHmmSingleClass.cpp
index 075d7b9..4e19565 100644
--- a/src/models/hmm/xmmHmmSingleClass.cpp
+++ b/src/models/hmm/xmmHmmSingleClass.cpp
@@ -1110,12 +1110,13 @@ void xmm::SingleClassHMM::reset() {
     forward_initialized_ = false;
     if (is_hierarchical_) {
         for (int i = 0; i < 3; i++)
-            alpha_h[i].resize(parameters.states.get(), 0.0);
+            alpha_h[i].assign(parameters.states.get(), 0.0);
         alpha.clear();
         previous_alpha_.clear();
         beta_.clear();
         previous_beta_.clear();
     } else {
+        alpha.assign(parameters.states.get(), 0.0);
         addCyclicTransition(0.05);
     }
 }
-- 
2.43.0


From 0152bcb3ff8a6d87ee89b6593f7f608fbf630ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:36 +0000
Subject: [PATCH 44/59] fix: a state that always exits its class has no
 division by zero

---
 src/models/hmm/xmmHierarchicalHmm.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/models/hmm/xmmHierarchicalHmm.cpp b/src/models/hmm/xmmHierarchicalHmm.cpp
index ba8c219..acbce21 100644
--- a/src/models/hmm/xmmHierarchicalHmm.cpp
+++ b/src/models/hmm/xmmHierarchicalHmm.cpp
@@ -215,6 +215,7 @@ void xmm::HierarchicalHMM::forward_update(
             HMM::TransitionMode::Ergodic) {
             for (int k = 0; k < N; ++k) {
                 for (unsigned int j = 0; j < N; ++j) {
+                    if (dstModel.second.exit_probabilities_[j] >= 1) continue;
                     front[k] += dstModel.second.transition[j * N + k] /
                                 (1 - dstModel.second.exit_probabilities_[j]) *
                                 dstModel.second.alpha_h[0][j];
@@ -245,12 +246,15 @@ void xmm::HierarchicalHMM::forward_update(
 
             // k>0: rest of the primitive
             for (int k = 1; k < N; ++k) {
-                front[k] += dstModel.second.transition[k * 2] /
-                            (1 - dstModel.second.exit_probabilities_[k]) *
-                            dstModel.second.alpha_h[0][k];
-                front[k] += dstModel.second.transition[(k - 1) * 2 + 1] /
-                            (1 - dstModel.second.exit_probabilities_[k - 1]) *
-                            dstModel.second.alpha_h[0][k - 1];
+                if (dstModel.second.exit_probabilities_[k] < 1)
+                    front[k] += dstModel.second.transition[k * 2] /
+                                (1 - dstModel.second.exit_probabilities_[k]) *
+                                dstModel.second.alpha_h[0][k];
+                if (dstModel.second.exit_probabilities_[k - 1] < 1)
+                    front[k] +=
+                        dstModel.second.transition[(k - 1) * 2 + 1] /
+                        (1 - dstModel.second.exit_probabilities_[k - 1]) *
+                        dstModel.second.alpha_h[0][k - 1];
             }
 
             for (int i = 0; i < 3; i++) {
-- 
2.43.0


From ea324ea5b95580f8a01c7269013dccd66e2ab125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:36 +0000
Subject: [PATCH 45/59] fix: the transitions of an ergodic state without any
 frame sum to one

---
 src/models/hmm/xmmHmmSingleClass.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/models/hmm/xmmHmmSingleClass.cpp b/src/models/hmm/xmmHmmSingleClass.cpp
index 4e19565..0dcea2d 100644
--- a/src/models/hmm/xmmHmmSingleClass.cpp
+++ b/src/models/hmm/xmmHmmSingleClass.cpp
@@ -334,9 +334,14 @@ void xmm::SingleClassHMM::normalizeTransitions() {
             for (int j = 0; j < numStates; j++)
                 norm_transition += transition[i * numStates + j];
             for (int j = 0; j < numStates; j++)
-                transition[i * numStates + j] /= norm_transition;
+                transition[i * numStates + j] =
+                    (norm_transition > 0.)
+                        ? transition[i * numStates + j] / norm_transition
+                        : 1. / double(numStates);
         }
-        for (int i = 0; i < numStates; i++) prior[i] /= norm_prior;
+        for (int i = 0; i < numStates; i++)
+            prior[i] = (norm_prior > 0.) ? prior[i] / norm_prior
+                                         : 1. / double(numStates);
     } else {
         for (int i = 0; i < numStates; i++) {
             norm_transition = transition[i * 2] + transition[i * 2 + 1];
-- 
2.43.0


From b6052f5e97941d545796768721021a236209dee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:10 +0000
Subject: [PATCH 46/59] fix: estimating the prior of an HMM skips empty phrases

---
 src/models/hmm/xmmHmmSingleClass.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/models/hmm/xmmHmmSingleClass.cpp b/src/models/hmm/xmmHmmSingleClass.cpp
index 0dcea2d..37f3984 100644
--- a/src/models/hmm/xmmHmmSingleClass.cpp
+++ b/src/models/hmm/xmmHmmSingleClass.cpp
@@ -998,9 +998,11 @@ void xmm::SingleClassHMM::baumWelch_estimatePrior(TrainingSet* trainingSet) {
     double sumprior = 0.;
     int phraseIndex(0);
     for (auto it = trainingSet->cbegin(); it != trainingSet->cend(); it++) {
-        for (int i = 0; i < numStates; i++) {
-            prior[i] += gamma_sequence_[phraseIndex][i];
-            sumprior += gamma_sequence_[phraseIndex][i];
+        if (it->second->size() > 0) {
+            for (int i = 0; i < numStates; i++) {
+                prior[i] += gamma_sequence_[phraseIndex][i];
+                sumprior += gamma_sequence_[phraseIndex][i];
+            }
         }
         phraseIndex++;
     }
-- 
2.43.0


From 6d21f38cf91ef6241a8b33aa78efa16bc0a5355c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:10 +0000
Subject: [PATCH 47/59] fix: the output covariance over classes that have
 different covariance modes

---
 src/models/gmm/xmmGmm.cpp             | 23 +++++++++++------------
 src/models/hmm/xmmHierarchicalHmm.cpp | 23 +++++++++++------------
 2 files changed, 22 insertions(+), 24 deletions(-)

diff --git a/src/models/gmm/xmmGmm.cpp b/src/models/gmm/xmmGmm.cpp
index 67c69dc..16b15ff 100644
--- a/src/models/gmm/xmmGmm.cpp
+++ b/src/models/gmm/xmmGmm.cpp
@@ -142,19 +142,18 @@ void xmm::GMM::filter(std::vector<float> const& observation) {
                     results.output_values[d] +=
                         results.smoothed_normalized_likelihoods[i] *
                         model.second.results.output_values[d];
-                    if ((configuration.covariance_mode.get() ==
-                         GaussianDistribution::CovarianceMode::Full)) {
-                        for (int d2 = 0; d2 < dimension_output; d2++)
-                            results
-                                .output_covariance[d * dimension_output + d2] +=
-                                results.smoothed_normalized_likelihoods[i] *
-                                model.second.results
-                                    .output_covariance[d * dimension_output +
-                                                       d2];
-                    } else {
-                        results.output_covariance[d] +=
+                    bool fullModel(configuration.covariance_mode.get() ==
+                                   GaussianDistribution::CovarianceMode::Full);
+                    bool fullClass(
+                        model.second.parameters.covariance_mode.get() ==
+                        GaussianDistribution::CovarianceMode::Full);
+                    for (int d2 = 0; d2 < dimension_output; d2++) {
+                        if (d2 != d && !(fullModel && fullClass)) continue;
+                        results.output_covariance
+                            [fullModel ? d * dimension_output + d2 : d] +=
                             results.smoothed_normalized_likelihoods[i] *
-                            model.second.results.output_covariance[d];
+                            model.second.results.output_covariance
+                                [fullClass ? d * dimension_output + d2 : d];
                     }
                 }
                 i++;
diff --git a/src/models/hmm/xmmHierarchicalHmm.cpp b/src/models/hmm/xmmHierarchicalHmm.cpp
index acbce21..c69b127 100644
--- a/src/models/hmm/xmmHierarchicalHmm.cpp
+++ b/src/models/hmm/xmmHierarchicalHmm.cpp
@@ -426,19 +426,18 @@ void xmm::HierarchicalHMM::filter(std::vector<float> const &observation) {
                         results.smoothed_normalized_likelihoods[i] *
                         model.second.results.output_values[d];
 
-                    if ((configuration.covariance_mode.get() ==
-                         GaussianDistribution::CovarianceMode::Full)) {
-                        for (int d2 = 0; d2 < dimension_output; d2++)
-                            results
-                                .output_covariance[d * dimension_output + d2] +=
-                                results.smoothed_normalized_likelihoods[i] *
-                                model.second.results
-                                    .output_covariance[d * dimension_output +
-                                                       d2];
-                    } else {
-                        results.output_covariance[d] +=
+                    bool fullModel(configuration.covariance_mode.get() ==
+                                   GaussianDistribution::CovarianceMode::Full);
+                    bool fullClass(
+                        model.second.parameters.covariance_mode.get() ==
+                        GaussianDistribution::CovarianceMode::Full);
+                    for (int d2 = 0; d2 < dimension_output; d2++) {
+                        if (d2 != d && !(fullModel && fullClass)) continue;
+                        results.output_covariance
+                            [fullModel ? d * dimension_output + d2 : d] +=
                             results.smoothed_normalized_likelihoods[i] *
-                            model.second.results.output_covariance[d];
+                            model.second.results.output_covariance
+                                [fullClass ? d * dimension_output + d2 : d];
                     }
                 }
                 i++;
-- 
2.43.0


From 6d802922c2f65f0039a814697c969b2f60b92279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:10 +0000
Subject: [PATCH 48/59] fix: filtering with an untrained model or a frame of
 wrong size is refused

---
 src/core/model/xmmModel.hpp           | 16 ++++++++++++++++
 src/models/gmm/xmmGmm.cpp             |  1 +
 src/models/hmm/xmmHierarchicalHmm.cpp |  1 +
 3 files changed, 18 insertions(+)

diff --git a/src/core/model/xmmModel.hpp b/src/core/model/xmmModel.hpp
index f01f34c..891f102 100644
--- a/src/core/model/xmmModel.hpp
+++ b/src/core/model/xmmModel.hpp
@@ -557,6 +557,22 @@ class Model : public Writable {
         }
     }
 
+    /**
+     @brief Checks that an observation can be filtered
+     @throws runtime_error if the Model has no class
+     @throws domain_error if the observation does not have the dimension of the
+     model (input dimension if the model is bimodal)
+     */
+    inline void checkObservation(std::vector<float> const& observation) const {
+        if (models.empty())
+            throw std::runtime_error("The Model is not trained");
+        if (observation.size() != (shared_parameters->bimodal.get()
+                                       ? shared_parameters->dimension_input.get()
+                                       : shared_parameters->dimension.get()))
+            throw std::domain_error(
+                "Observation size does not match the dimension of the Model");
+    }
+
     /**
      @brief Look for configuration changes and throws an exception if the model
      is not up to date.
diff --git a/src/models/gmm/xmmGmm.cpp b/src/models/gmm/xmmGmm.cpp
index 16b15ff..0f600a7 100644
--- a/src/models/gmm/xmmGmm.cpp
+++ b/src/models/gmm/xmmGmm.cpp
@@ -107,6 +107,7 @@ void xmm::GMM::reset() {
 
 void xmm::GMM::filter(std::vector<float> const& observation) {
     checkTraining();
+    checkObservation(observation);
     int i(0);
     for (auto& model : models) {
         results.instant_likelihoods[i] = model.second.filter(observation);
diff --git a/src/models/hmm/xmmHierarchicalHmm.cpp b/src/models/hmm/xmmHierarchicalHmm.cpp
index c69b127..abcfd00 100644
--- a/src/models/hmm/xmmHierarchicalHmm.cpp
+++ b/src/models/hmm/xmmHierarchicalHmm.cpp
@@ -373,6 +373,7 @@ void xmm::HierarchicalHMM::reset() {
 
 void xmm::HierarchicalHMM::filter(std::vector<float> const &observation) {
     checkTraining();
+    checkObservation(observation);
     if (models.begin()->second.is_hierarchical_) {
         if (forward_initialized_) {
             this->forward_update(observation);
-- 
2.43.0


From 771a51f836fba609dd309565881c1c969ed37cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:29 +0000
Subject: [PATCH 49/59] fix: background training, its cancellation and its
 completion are free of races and deadlocks

---
 src/core/model/xmmModel.hpp            | 449 +++++++++++++++----------
 src/core/model/xmmModelSingleClass.hpp |   5 +-
 src/models/gmm/xmmGmm.cpp              |   2 +-
 src/models/gmm/xmmGmm.hpp              |  15 +-
 src/models/hmm/xmmHierarchicalHmm.cpp  |   4 +-
 src/models/hmm/xmmHierarchicalHmm.hpp  |  15 +-
 6 files changed, 289 insertions(+), 201 deletions(-)

diff --git a/src/core/model/xmmModel.hpp b/src/core/model/xmmModel.hpp
index 891f102..ae3f322 100644
--- a/src/core/model/xmmModel.hpp
+++ b/src/core/model/xmmModel.hpp
@@ -38,6 +38,7 @@
 #include "xmmModelResults.hpp"
 #include "xmmModelSingleClass.hpp"
 #include <atomic>
+#include <condition_variable>
 #include <thread>
 
 namespace xmm {
@@ -57,10 +58,8 @@ class Model : public Writable {
      */
     Model(bool bimodal = false)
         : shared_parameters(std::make_shared<SharedParameters>()),
-          cancel_required_(false),
           is_training_(false),
-          is_joining_(false),
-          models_still_training_(0) {
+          training_phase_(TrainingPhase::Idle) {
         shared_parameters->bimodal.set(bimodal);
         if (shared_parameters->bimodal.get()) {
             shared_parameters->dimension.set(2, true);
@@ -80,10 +79,8 @@ class Model : public Writable {
               std::make_shared<SharedParameters>(*src.shared_parameters)),
           configuration(src.configuration),
           training_events(src.training_events),
-          cancel_required_(false),
           is_training_(false),
-          is_joining_(false),
-          models_still_training_(0) {
+          training_phase_(TrainingPhase::Idle) {
         if (src.is_training_)
             throw std::runtime_error(
                 "Cannot copy: source model is still training");
@@ -103,10 +100,8 @@ class Model : public Writable {
      */
     explicit Model(Json::Value const& root)
         : shared_parameters(std::make_shared<SharedParameters>()),
-          cancel_required_(false),
           is_training_(false),
-          is_joining_(false),
-          models_still_training_(0) {
+          training_phase_(TrainingPhase::Idle) {
         shared_parameters->fromJson(root["shared_parameters"]);
         configuration.fromJson(root["configuration"]);
         models.clear();
@@ -134,15 +129,11 @@ class Model : public Writable {
             if (src.is_training_)
                 throw std::runtime_error(
                     "Cannot copy: source model is still training");
+            cancelTraining();
             shared_parameters =
                 std::make_shared<SharedParameters>(*src.shared_parameters);
             configuration = src.configuration;
             training_events = src.training_events;
-            is_joining_ = false;
-            is_training_ = false;
-            cancel_required_ = false;
-            models_still_training_ = 0;
-
             models.clear();
             models = src.models;
             for (auto& model : this->models) {
@@ -159,10 +150,7 @@ class Model : public Writable {
     /**
      @brief Destructor
      */
-    virtual ~Model() {
-        cancelTraining();
-        clear();
-    }
+    virtual ~Model() { cancelTraining(); }
 
     /** @name Class Manipulation */
     ///@{
@@ -172,6 +160,7 @@ class Model : public Writable {
      @return the number of classes in the model
      */
     unsigned int size() const {
+        std::lock_guard<std::mutex> lock(training_mutex_);
         return static_cast<unsigned int>(models.size());
     }
 
@@ -207,13 +196,21 @@ class Model : public Writable {
      @param label label of the class to remove
      */
     virtual void removeClass(std::string const& label) {
-        while (is_joining_) {
+        {
+            std::lock_guard<std::mutex> lock(training_mutex_);
+            if (models.count(label) == 0)
+                throw std::out_of_range("Class " + label + " does not exist");
+        }
+        // "label" may belong to the class to remove
+        std::string label_(label);
+        cancelTraining(label_);
+        {
+            std::unique_lock<std::mutex> lock(training_mutex_);
+            waitForCompletion(lock, true);
+            models.erase(label_);
+            // if other classes are training, the model is reset afterwards
+            if (training_phase_ == TrainingPhase::Running) return;
         }
-        cancelTraining(label);
-        auto it = models.find(label);
-        if (it == models.end())
-            throw std::out_of_range("Class " + label + " does not exist");
-        models.erase(it);
         reset();
     }
 
@@ -221,7 +218,7 @@ class Model : public Writable {
      @brief Remove all classes
      */
     virtual void clear() {
-        if (is_training_) cancelTraining();
+        cancelTraining();
         models.clear();
         reset();
     }
@@ -247,59 +244,15 @@ class Model : public Writable {
      */
     virtual void train(TrainingSet* trainingSet) {
         if (!trainingSet || trainingSet->size() < 1) return;
-        cancelTraining();
+        checkTrainingSet(trainingSet);
         clear();
 
-        is_training_ = true;
-
-        // Fetch training set parameters
-        shared_parameters->dimension.set(trainingSet->dimension.get());
-        if (shared_parameters->bimodal.get()) {
-            shared_parameters->dimension_input.set(
-                trainingSet->dimension_input.get());
-        }
-        shared_parameters->column_names.set(trainingSet->column_names.get());
-
-        // Update models
-        bool contLoop(true);
-        while (contLoop) {
-            contLoop = false;
-            for (auto it = models.begin(); it != models.end(); ++it) {
-                if (trainingSet->labels().count(it->first) == 0) {
-                    models.erase(it->first);
-                    contLoop = true;
-                    break;
-                }
-            }
-        }
-        for (typename std::set<std::string>::iterator it =
-                 trainingSet->labels().begin();
-             it != trainingSet->labels().end(); ++it) {
-            addModelForClass(*it);
-        }
-
-        // Start class training
-        for (auto it = this->models.begin(); it != this->models.end(); ++it) {
-            it->second.is_training_ = true;
-            it->second.cancel_training_ = false;
-            models_still_training_++;
-            if ((configuration.multithreading ==
-                 MultithreadingMode::Parallel) ||
-                (configuration.multithreading ==
-                 MultithreadingMode::Background)) {
-                training_threads_[it->first] =
-                    std::thread(&SingleClassModel::train, &it->second,
-                                trainingSet->getPhrasesOfClass(it->first));
-            } else {
-                it->second.train(trainingSet->getPhrasesOfClass(it->first));
-            }
-        }
-        if (configuration.multithreading == MultithreadingMode::Parallel) {
-            joinTraining();
-        }
-        if (configuration.multithreading == MultithreadingMode::Sequential) {
-            is_training_ = false;
+        std::unique_lock<std::mutex> lock(training_mutex_);
+        setTrainingSetParameters(trainingSet);
+        for (auto const& label : trainingSet->labels()) {
+            addModelForClass(label);
         }
+        trainClasses(lock, trainingSet, trainingSet->labels());
     }
 
     /**
@@ -316,8 +269,7 @@ class Model : public Writable {
         if (trainingSet->labels().count(label) == 0)
             throw std::out_of_range("Class " + label + " does not exist");
 
-        // Cancel Training of the class
-        cancelTraining(label);
+        checkTrainingSet(trainingSet);
 
         // Check Consistency of the new Training Set
         if (size() > 0) {
@@ -331,68 +283,49 @@ class Model : public Writable {
                     "models");
         }
 
-        is_training_ = true;
+        // Cancel Training of the class
+        cancelTraining(label);
 
-        // Fetch training set parameters
-        shared_parameters->dimension.set(trainingSet->dimension.get());
-        if (shared_parameters->bimodal.get()) {
-            shared_parameters->dimension_input.set(
-                trainingSet->dimension_input.get());
+        std::unique_lock<std::mutex> lock(training_mutex_);
+        waitForCompletion(lock, true);
+        if (training_phase_ != TrainingPhase::Running) {
+            joinCompletionThreads(lock);
+            setTrainingSetParameters(trainingSet);
         }
-        shared_parameters->column_names.set(trainingSet->column_names.get());
-
         addModelForClass(label);
-
-        // Start class training
-        models[label].is_training_ = true;
-        models[label].cancel_training_ = false;
-        models_still_training_++;
-        if (configuration.multithreading == MultithreadingMode::Sequential) {
-            models[label].train(trainingSet->getPhrasesOfClass(label));
-        } else {
-            training_threads_[label] =
-                std::thread(&SingleClassModel::train, &(this->models[label]),
-                            trainingSet->getPhrasesOfClass(label));
-        }
-        if (configuration.multithreading == MultithreadingMode::Parallel) {
-            joinTraining();
-        }
-        if (configuration.multithreading == MultithreadingMode::Sequential) {
-            is_training_ = false;
-        }
+        trainClasses(lock, trainingSet, std::set<std::string>{label});
     }
 
     /**
      @brief Cancels the training of all models
+     @details returns when the training is over: it must not be called from a
+     listener of the training events of a class
      */
     void cancelTraining() {
-        if (is_training_) {
-            for (auto& it : this->models) {
-                cancel_required_ = true;
-                it.second.cancelTraining();
-                while (it.second.isTraining()) {
-                }
-            }
-            joinTraining();
+        std::unique_lock<std::mutex> lock(training_mutex_);
+        for (auto const& label : classes_in_training_) {
+            models.find(label)->second.cancelTraining();
         }
-        cancel_required_ = false;
+        waitForCompletion(lock, false);
+        joinCompletionThreads(lock);
     }
 
     /**
      @brief Cancels the training of a given class
+     @details returns when the class is not training any more: it must not be
+     called from a listener of the training events of a class
      @param label label of the class to cancel
      */
     void cancelTraining(std::string const& label) {
-        if (is_training_ && (this->models.count(label) > 0)) {
-            cancel_required_ = true;
-            models[label].cancelTraining();
-            while (models[label].isTraining()) {
-            }
-            if (models_still_training_ == 0) {
-                joinTraining();
-            }
+        std::unique_lock<std::mutex> lock(training_mutex_);
+        if (training_phase_ == TrainingPhase::Idle) return;
+        if (classes_in_training_.count(label) > 0) {
+            models.find(label)->second.cancelTraining();
+            training_condition_.wait(lock, [this, &label]() {
+                return classes_in_training_.count(label) == 0;
+            });
         }
-        cancel_required_ = false;
+        if (classes_in_training_.empty()) waitForCompletion(lock, false);
     }
 
     ///@}
@@ -406,9 +339,7 @@ class Model : public Writable {
     virtual void reset() {
         checkTraining();
         // checkConfigurationChanges();
-        for (auto it = this->models.begin(); it != this->models.end(); ++it) {
-            it->second.reset();
-        }
+        resetFiltering();
     }
 
     /**
@@ -432,6 +363,7 @@ class Model : public Writable {
      @return Json value containing the object's information
      */
     virtual Json::Value toJson() const {
+        checkTraining();
         Json::Value root;
         root["shared_parameters"] = shared_parameters->toJson();
         root["configuration"] = configuration.toJson();
@@ -483,68 +415,203 @@ class Model : public Writable {
 
   protected:
     /**
-     @brief Finishes the background training process by joining threads and
-     deleting the models which training failed
+     @brief Phases of a training run
      */
-    virtual void joinTraining() {
-        if (!is_training_) return;
-        bool expectedState(false);
-        if (is_joining_.compare_exchange_weak(expectedState, true)) {
-            while (!training_threads_.empty()) {
-                training_threads_.begin()->second.join();
-                training_threads_.erase(training_threads_.begin());
+    enum class TrainingPhase {
+        /**
+         @brief no training run
+         */
+        Idle,
+
+        /**
+         @brief classes are training
+         */
+        Running,
+
+        /**
+         @brief all classes are trained, the model is being updated
+         */
+        Finishing,
+
+        /**
+         @brief the model is ready, the completion event is being delivered
+         */
+        Notifying
+    };
+
+    /**
+     @brief Resets the filtering process of each class
+     */
+    virtual void resetFiltering() {
+        for (auto it = this->models.begin(); it != this->models.end(); ++it) {
+            it->second.reset();
+        }
+    }
+
+    /**
+     @brief Checks that a training set can be used to train the model
+     @throws runtime_error if the model is bimodal and the training set is not
+     */
+    void checkTrainingSet(TrainingSet* trainingSet) const {
+        if (shared_parameters->bimodal.get() && !trainingSet->bimodal())
+            throw std::runtime_error(
+                "A bimodal Model needs a bimodal Training Set");
+    }
+
+    /**
+     @brief Fetch the parameters of a training set
+     */
+    void setTrainingSetParameters(TrainingSet* trainingSet) {
+        shared_parameters->dimension.set(trainingSet->dimension.get());
+        if (shared_parameters->bimodal.get()) {
+            shared_parameters->dimension_input.set(
+                trainingSet->dimension_input.get());
+        }
+        shared_parameters->column_names.set(trainingSet->column_names.get());
+    }
+
+    /**
+     @brief Trains a set of classes: starts a new training run or extends the
+     training run in progress.
+     @param lock lock on the training mutex
+     @param trainingSet Training Set
+     @param labels labels of the classes to train
+     */
+    void trainClasses(std::unique_lock<std::mutex>& lock,
+                      TrainingSet* trainingSet,
+                      std::set<std::string> const& labels) {
+        MultithreadingMode mode(configuration.multithreading);
+        bool newRun(training_phase_ != TrainingPhase::Running);
+        training_phase_ = TrainingPhase::Running;
+        is_training_ = true;
+        std::set<std::string> classes(labels);
+        for (auto const& label : classes) {
+            SingleClassModel& model = models.find(label)->second;
+            model.is_training_ = true;
+            model.cancel_training_ = false;
+            classes_in_training_.insert(label);
+        }
+        for (auto const& label : classes) {
+            SingleClassModel* model = &models.find(label)->second;
+            TrainingSet* classSet = trainingSet->getPhrasesOfClass(label);
+            if (mode == MultithreadingMode::Sequential) {
+                lock.unlock();
+                trainClass(label, model, classSet);
+                lock.lock();
+            } else {
+                std::thread& thread = training_threads_[label];
+                if (thread.joinable()) thread.join();
+                thread = std::thread(
+                    &Model<SingleClassModel, ModelType>::trainClass, this,
+                    label, model, classSet);
             }
-            bool classesUntrained(true);
-            while (classesUntrained) {
-                classesUntrained = false;
-                for (auto it = this->models.begin(); it != this->models.end();
-                     it++) {
-                    if (it->second.training_status.status ==
-                            TrainingEvent::Status::Cancel ||
-                        it->second.training_status.status ==
-                            TrainingEvent::Status::Error) {
-                        models.erase(it);
-                        classesUntrained = true;
-                        break;
-                    }
-                }
+        }
+        if (newRun && mode == MultithreadingMode::Background) {
+            completion_threads_.push_back(std::thread(
+                &Model<SingleClassModel, ModelType>::joinTraining, this));
+        } else if (newRun) {
+            lock.unlock();
+            joinTraining();
+        } else if (mode != MultithreadingMode::Background) {
+            waitForCompletion(lock, false);
+        }
+    }
+
+    /**
+     @brief Trains a single class
+     */
+    void trainClass(std::string label, SingleClassModel* model,
+                    TrainingSet* trainingSet) {
+        model->train(trainingSet);
+        std::lock_guard<std::mutex> lock(training_mutex_);
+        classes_in_training_.erase(label);
+        training_condition_.notify_all();
+    }
+
+    /**
+     @brief Finishes the training process when all classes have finished, by
+     joining threads and deleting the models which training failed
+     */
+    void joinTraining() {
+        std::unique_lock<std::mutex> lock(training_mutex_);
+        training_condition_.wait(
+            lock, [this]() { return classes_in_training_.empty(); });
+        training_phase_ = TrainingPhase::Finishing;
+        for (auto& thread : training_threads_) thread.second.join();
+        training_threads_.clear();
+        for (auto it = models.begin(); it != models.end();) {
+            if (it->second.training_status.status ==
+                    TrainingEvent::Status::Cancel ||
+                it->second.training_status.status ==
+                    TrainingEvent::Status::Error) {
+                it = models.erase(it);
+            } else {
+                ++it;
             }
-            is_joining_ = false;
-            is_training_ = false;
-            reset();
-            TrainingEvent event(this, "", TrainingEvent::Status::Alldone);
-            training_events.notifyListeners(event);
-        } else {
-            while (is_joining_) {
+        }
+        lock.unlock();
+        resetFiltering();
+        lock.lock();
+        training_phase_ = TrainingPhase::Notifying;
+        notifying_thread_ = std::this_thread::get_id();
+        is_training_ = false;
+        lock.unlock();
+        TrainingEvent event(this, "", TrainingEvent::Status::Alldone);
+        training_events.notifyListeners(event);
+        lock.lock();
+        // a listener may have started a new training run
+        if (training_phase_ == TrainingPhase::Notifying &&
+            notifying_thread_ == std::this_thread::get_id()) {
+            training_phase_ = TrainingPhase::Idle;
+            training_condition_.notify_all();
+        }
+    }
+
+    /**
+     @brief Waits until the training run in progress, if any, is over (its
+     completion event is delivered or being delivered by the current thread).
+     @param lock lock on the training mutex
+     @param allowRunning also returns if classes are training
+     */
+    void waitForCompletion(std::unique_lock<std::mutex>& lock,
+                           bool allowRunning) {
+        training_condition_.wait(lock, [this, allowRunning]() {
+            return training_phase_ == TrainingPhase::Idle ||
+                   (allowRunning &&
+                    training_phase_ == TrainingPhase::Running) ||
+                   (training_phase_ == TrainingPhase::Notifying &&
+                    notifying_thread_ == std::this_thread::get_id());
+        });
+    }
+
+    /**
+     @brief Joins the threads that finished the previous training runs
+     @param lock lock on the training mutex
+     */
+    void joinCompletionThreads(std::unique_lock<std::mutex>& lock) {
+        std::vector<std::thread> completed;
+        for (auto it = completion_threads_.begin();
+             it != completion_threads_.end();) {
+            if (it->get_id() == std::this_thread::get_id()) {
+                ++it;
+            } else {
+                completed.push_back(std::move(*it));
+                it = completion_threads_.erase(it);
             }
         }
+        lock.unlock();
+        for (auto& thread : completed) thread.join();
+        lock.lock();
     }
 
     /**
      @brief Monitors the training of each Model of the group.
      */
     void onTrainingEvent(TrainingEvent const& e) {
-        event_mutex_.lock();
+        std::lock_guard<std::mutex> lock(event_mutex_);
         TrainingEvent event(e);
         event.model = this;
         training_events.notifyListeners(event);
-        if (e.status != TrainingEvent::Status::Run) {
-            models_still_training_--;
-            ((SingleClassModel*)e.model)->is_training_ = false;
-            if (configuration.multithreading ==
-                    MultithreadingMode::Background &&
-                !is_joining_ &&       // avoid to call "joinTraining" if already
-                                      // called by the main thread
-                !cancel_required_ &&  // avoid to call "joinTraining" if cancel
-                                      // required by the main thread
-                models_still_training_ == 0) {
-                is_joining_ = false;
-                std::thread(&Model<SingleClassModel, ModelType>::joinTraining,
-                            this)
-                    .detach();
-            }
-        }
-        event_mutex_.unlock();
     }
 
     /**
@@ -553,8 +620,6 @@ class Model : public Writable {
      */
     inline void checkTraining() const {
         if (is_training_) throw std::runtime_error("The Model is training");
-        while (is_joining_) {
-        }
     }
 
     /**
@@ -614,32 +679,44 @@ class Model : public Writable {
     }
 
     /**
-     @brief Training Threads
+     @brief Protects the class list and the fields below during training
      */
-    std::map<std::string, std::thread> training_threads_;
+    mutable std::mutex training_mutex_;
 
     /**
-     @brief locks the Model while the models are training
-     Used in cancel method
+     @brief notified when a class or a training run is over
      */
-    std::atomic<bool> cancel_required_;
+    std::condition_variable training_condition_;
 
     /**
-     @brief locks the Model while the models are training
-     Used in cancel method
+     @brief defines if the model is training
      */
     std::atomic<bool> is_training_;
 
     /**
-     @brief specifies if a thread for joining the training process has been
-     launched.
+     @brief Phase of the current training run
      */
-    std::atomic<bool> is_joining_;
+    TrainingPhase training_phase_;
+
+    /**
+     @brief Thread that delivers the completion event of the training run
+     */
+    std::thread::id notifying_thread_;
+
+    /**
+     @brief Labels of the classes that are still training
+     */
+    std::set<std::string> classes_in_training_;
+
+    /**
+     @brief Training Threads
+     */
+    std::map<std::string, std::thread> training_threads_;
 
     /**
-     @brief Number of models that are still training
+     @brief Threads finishing the training runs in background
      */
-    unsigned int models_still_training_;
+    std::vector<std::thread> completion_threads_;
 
     /**
      @brief Mutex that prevents concurrent calls to onEvent()
diff --git a/src/core/model/xmmModelSingleClass.hpp b/src/core/model/xmmModelSingleClass.hpp
index 1f1dd81..b78d7c0 100644
--- a/src/core/model/xmmModelSingleClass.hpp
+++ b/src/core/model/xmmModelSingleClass.hpp
@@ -38,6 +38,7 @@
 #include "../common/xmmEvents.hpp"
 #include "../trainingset/xmmTrainingSet.hpp"
 #include "xmmModelSharedParameters.hpp"
+#include <atomic>
 #include <memory>
 #include <mutex>
 
@@ -368,12 +369,12 @@ class SingleClassProbabilisticModel : public Writable {
     /**
      @brief defines if the model is being trained.
      */
-    bool is_training_;
+    std::atomic<bool> is_training_;
 
     /**
      @brief defines if the model received a request to cancel training
      */
-    bool cancel_training_;
+    std::atomic<bool> cancel_training_;
 };
 }
 
diff --git a/src/models/gmm/xmmGmm.cpp b/src/models/gmm/xmmGmm.cpp
index 0f600a7..67fa262 100644
--- a/src/models/gmm/xmmGmm.cpp
+++ b/src/models/gmm/xmmGmm.cpp
@@ -83,7 +83,7 @@ void xmm::GMM::updateResults() {
 
 #pragma mark -
 #pragma mark Performance
-void xmm::GMM::reset() {
+void xmm::GMM::resetFiltering() {
     results.instant_likelihoods.resize(size());
     results.instant_normalized_likelihoods.resize(size());
     results.smoothed_likelihoods.resize(size());
diff --git a/src/models/gmm/xmmGmm.hpp b/src/models/gmm/xmmGmm.hpp
index 03d9247..bc4441c 100644
--- a/src/models/gmm/xmmGmm.hpp
+++ b/src/models/gmm/xmmGmm.hpp
@@ -70,13 +70,13 @@ class GMM : public Model<SingleClassGMM, GMM> {
      */
     GMM& operator=(GMM const& src);
 
-    /** @name Performance */
-    ///@{
-
     /**
-     @brief Resets the fitering process (recognition or regression)
+     @brief Destructor
      */
-    virtual void reset();
+    virtual ~GMM() { cancelTraining(); }
+
+    /** @name Performance */
+    ///@{
 
     /**
      @brief filters a incoming observation (performs recognition or regression)
@@ -148,6 +148,11 @@ class GMM : public Model<SingleClassGMM, GMM> {
     Results<GMM> results;
 
   protected:
+    /**
+     @brief Resets the filtering process of each class and the results
+     */
+    virtual void resetFiltering();
+
     /**
      @brief Update the results (Likelihoods)
      */
diff --git a/src/models/hmm/xmmHierarchicalHmm.cpp b/src/models/hmm/xmmHierarchicalHmm.cpp
index abcfd00..f2f9421 100644
--- a/src/models/hmm/xmmHierarchicalHmm.cpp
+++ b/src/models/hmm/xmmHierarchicalHmm.cpp
@@ -343,11 +343,11 @@ void xmm::HierarchicalHMM::likelihoodAlpha(
     }
 }
 
-void xmm::HierarchicalHMM::reset() {
+void xmm::HierarchicalHMM::resetFiltering() {
     for (auto &model : models) {
         model.second.is_hierarchical_ = configuration.hierarchical.get();
     }
-    Model<SingleClassHMM, HMM>::reset();
+    Model<SingleClassHMM, HMM>::resetFiltering();
     updateTransitionParameters();
     results.instant_likelihoods.resize(size());
     results.instant_normalized_likelihoods.resize(size());
diff --git a/src/models/hmm/xmmHierarchicalHmm.hpp b/src/models/hmm/xmmHierarchicalHmm.hpp
index 185912e..e0b06b9 100644
--- a/src/models/hmm/xmmHierarchicalHmm.hpp
+++ b/src/models/hmm/xmmHierarchicalHmm.hpp
@@ -75,6 +75,11 @@ class HierarchicalHMM : public Model<SingleClassHMM, HMM> {
      */
     HierarchicalHMM& operator=(HierarchicalHMM const& src);
 
+    /**
+     @brief Destructor
+     */
+    virtual ~HierarchicalHMM() { cancelTraining(); }
+
     /** @name Class Manipulation */
     ///@{
 
@@ -95,11 +100,6 @@ class HierarchicalHMM : public Model<SingleClassHMM, HMM> {
     /** @name Performance */
     ///@{
 
-    /**
-     @brief Resets the fitering process (recognition or regression)
-     */
-    virtual void reset();
-
     /**
      @brief filters a incoming observation (performs recognition or regression)
      @details the results of the inference process are stored in the results
@@ -206,6 +206,11 @@ class HierarchicalHMM : public Model<SingleClassHMM, HMM> {
     std::vector<std::vector<double>> transition;
 
   protected:
+    /**
+     @brief Resets the filtering process of each class and the results
+     */
+    virtual void resetFiltering();
+
     /**
      @brief update high-level parameters when a new primitive is learned
      @details  updated parameters: prior probabilities + transition matrix
-- 
2.43.0


From d84b633605038c78521ace587a90648ce3f22f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:29 +0000
Subject: [PATCH 50/59] fix: training a class without any frame is an error

---
 src/core/model/xmmModelSingleClass.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/core/model/xmmModelSingleClass.cpp b/src/core/model/xmmModelSingleClass.cpp
index 58e570d..43035d5 100644
--- a/src/core/model/xmmModelSingleClass.cpp
+++ b/src/core/model/xmmModelSingleClass.cpp
@@ -118,7 +118,12 @@ void xmm::SingleClassProbabilisticModel::train(TrainingSet* trainingSet) {
 
     training_status.status = TrainingEvent::Status::Run;
 
-    if (trainingSet && !trainingSet->empty()) {
+    unsigned int numFrames(0);
+    if (trainingSet) {
+        for (auto it = trainingSet->cbegin(); it != trainingSet->cend(); ++it)
+            numFrames += it->second->size();
+    }
+    if (numFrames > 0) {
         this->allocate();
     } else {
         trainingError = true;
-- 
2.43.0


From 02a183f1f499a28269bc3825d40e1127ade15a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:17 +0000
Subject: [PATCH 51/59] fix: loading a model checks that the sizes of its parts
 match

---
 src/core/model/xmmModelSharedParameters.cpp |  9 ++++++++-
 src/models/gmm/xmmGmmSingleClass.cpp        | 17 ++++++++++++++++-
 src/models/hmm/xmmHmmSingleClass.cpp        | 13 +++++++++++++
 3 files changed, 37 insertions(+), 2 deletions(-)

diff --git a/src/core/model/xmmModelSharedParameters.cpp b/src/core/model/xmmModelSharedParameters.cpp
index 582848e..01c12d3 100644
--- a/src/core/model/xmmModelSharedParameters.cpp
+++ b/src/core/model/xmmModelSharedParameters.cpp
@@ -88,7 +88,14 @@ xmm::SharedParameters::SharedParameters(SharedParameters const& src)
 xmm::SharedParameters::SharedParameters(Json::Value const& root)
     : SharedParameters() {
     bimodal.set(root.get("bimodal", false).asBool());
-    dimension.set(root.get("dimension", bimodal.get() ? 2 : 1).asUInt());
+    unsigned int dimension_ =
+        root.get("dimension", bimodal.get() ? 2 : 1).asUInt();
+    // check the size of the document before allocating
+    if (root.isMember("column_names") &&
+        root["column_names"].size() != dimension_)
+        throw JsonException(JsonException::JsonErrorType::JsonValueError,
+                            "column_names");
+    dimension.set(dimension_);
     dimension_input.set(
         root.get("dimension_input", bimodal.get() ? 1 : 0).asUInt());
     em_algorithm_min_iterations.set(
diff --git a/src/models/gmm/xmmGmmSingleClass.cpp b/src/models/gmm/xmmGmmSingleClass.cpp
index b3da2b1..0bbf10b 100644
--- a/src/models/gmm/xmmGmmSingleClass.cpp
+++ b/src/models/gmm/xmmGmmSingleClass.cpp
@@ -51,6 +51,10 @@ xmm::SingleClassGMM::SingleClassGMM(std::shared_ptr<SharedParameters> p,
     : SingleClassProbabilisticModel(p, root) {
     parameters.fromJson(root["parameters"]);
 
+    // check the size of the document before allocating
+    if (root["components"].size() != parameters.gaussians.get())
+        throw JsonException(JsonException::JsonErrorType::JsonValueError,
+                            "components");
     allocate();
 
     json2vector(root["mixture_coeffs"], mixture_coeffs,
@@ -58,7 +62,18 @@ xmm::SingleClassGMM::SingleClassGMM(std::shared_ptr<SharedParameters> p,
 
     int c(0);
     for (auto p : root["components"]) {
-        components[c++].fromJson(p);
+        components[c].fromJson(p);
+        if (p.get("bimodal", false).asBool() !=
+                shared_parameters->bimodal.get() ||
+            components[c].dimension.get() !=
+                shared_parameters->dimension.get() ||
+            components[c].dimension_input.get() !=
+                shared_parameters->dimension_input.get() ||
+            components[c].covariance_mode.get() !=
+                parameters.covariance_mode.get())
+            throw JsonException(JsonException::JsonErrorType::JsonValueError,
+                                "components");
+        c++;
     }
 
     updateInverseCovariances();
diff --git a/src/models/hmm/xmmHmmSingleClass.cpp b/src/models/hmm/xmmHmmSingleClass.cpp
index 37f3984..e0c3b62 100644
--- a/src/models/hmm/xmmHmmSingleClass.cpp
+++ b/src/models/hmm/xmmHmmSingleClass.cpp
@@ -51,6 +51,19 @@ xmm::SingleClassHMM::SingleClassHMM(std::shared_ptr<SharedParameters> p,
     : SingleClassProbabilisticModel(p, root), is_hierarchical_(true) {
     parameters.fromJson(root["parameters"]);
 
+    // check the size of the document before allocating
+    if (root["states"].size() != parameters.states.get())
+        throw JsonException(JsonException::JsonErrorType::JsonValueError,
+                            "states");
+    for (auto p : root["states"]) {
+        ClassParameters<GMM> stateParameters(p["parameters"]);
+        if (stateParameters.gaussians.get() != parameters.gaussians.get() ||
+            stateParameters.covariance_mode.get() !=
+                parameters.covariance_mode.get() ||
+            p["components"].size() != parameters.gaussians.get())
+            throw JsonException(JsonException::JsonErrorType::JsonValueError,
+                                "states");
+    }
     allocate();
 
     if (parameters.transition_mode.get() == HMM::TransitionMode::Ergodic) {
-- 
2.43.0


From 42cb65ee48e05bc133fc820edceafcced22682d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:17 +0000
Subject: [PATCH 52/59] fix: a configuration read from JSON has known modes

---
 src/core/model/xmmModelConfiguration.hpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/core/model/xmmModelConfiguration.hpp b/src/core/model/xmmModelConfiguration.hpp
index 6614fc8..7644595 100644
--- a/src/core/model/xmmModelConfiguration.hpp
+++ b/src/core/model/xmmModelConfiguration.hpp
@@ -115,11 +115,21 @@ class Configuration : public ClassParameters<ModelType> {
      */
     explicit Configuration(Json::Value const& root) {
         ClassParameters<ModelType>::fromJson(root["default_parameters"]);
-        multithreading = static_cast<MultithreadingMode>(
-            root.get("multithreading", 0).asInt());
+        int mode = root.get("multithreading", 0).asInt();
+        if (mode < static_cast<int>(MultithreadingMode::Sequential) ||
+            mode > static_cast<int>(MultithreadingMode::Background))
+            throw JsonException(JsonException::JsonErrorType::JsonValueError,
+                                "multithreading");
+        multithreading = static_cast<MultithreadingMode>(mode);
+        int estimator = root.get("multiClass_regression_estimator", 0).asInt();
+        if (estimator <
+                static_cast<int>(MultiClassRegressionEstimator::Likeliest) ||
+            estimator >
+                static_cast<int>(MultiClassRegressionEstimator::Mixture))
+            throw JsonException(JsonException::JsonErrorType::JsonValueError,
+                                "multiClass_regression_estimator");
         multiClass_regression_estimator =
-            static_cast<MultiClassRegressionEstimator>(
-                root.get("multiClass_regression_estimator", 0).asInt());
+            static_cast<MultiClassRegressionEstimator>(estimator);
         class_parameters_.clear();
         std::vector<std::string> members = root["class_parameters"].getMemberNames();
         for (auto label : members) {
-- 
2.43.0


From e685739b1a0f8f3ecb13d7cff0864cc57dba7ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:41 +0000
Subject: [PATCH 53/59] fix: a model read from JSON is ready for filtering and
 keeps its listeners

---
 src/core/model/xmmModel.hpp           | 1 +
 src/models/gmm/xmmGmm.cpp             | 4 +++-
 src/models/gmm/xmmGmmSingleClass.cpp  | 1 +
 src/models/hmm/xmmHierarchicalHmm.cpp | 3 +++
 src/models/hmm/xmmHmmSingleClass.cpp  | 3 +++
 5 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/core/model/xmmModel.hpp b/src/core/model/xmmModel.hpp
index ae3f322..7adc66c 100644
--- a/src/core/model/xmmModel.hpp
+++ b/src/core/model/xmmModel.hpp
@@ -386,6 +386,7 @@ class Model : public Writable {
             Model<SingleClassModel, ModelType> tmp(root);
             *this = tmp;
             training_events = _tmp_training_events;
+            reset();
         } catch (JsonException& e) {
             throw e;
         }
diff --git a/src/models/gmm/xmmGmm.cpp b/src/models/gmm/xmmGmm.cpp
index 67fa262..54e4d79 100644
--- a/src/models/gmm/xmmGmm.cpp
+++ b/src/models/gmm/xmmGmm.cpp
@@ -39,7 +39,9 @@ xmm::GMM::GMM(bool bimodal) : Model<SingleClassGMM, GMM>(bimodal) {}
 xmm::GMM::GMM(GMM const& src)
     : Model<SingleClassGMM, GMM>(src), results(src.results) {}
 
-xmm::GMM::GMM(Json::Value const& root) : Model<SingleClassGMM, GMM>(root) {}
+xmm::GMM::GMM(Json::Value const& root) : Model<SingleClassGMM, GMM>(root) {
+    reset();
+}
 
 xmm::GMM& xmm::GMM::operator=(GMM const& src) {
     if (this != &src) {
diff --git a/src/models/gmm/xmmGmmSingleClass.cpp b/src/models/gmm/xmmGmmSingleClass.cpp
index 0bbf10b..5a0a773 100644
--- a/src/models/gmm/xmmGmmSingleClass.cpp
+++ b/src/models/gmm/xmmGmmSingleClass.cpp
@@ -77,6 +77,7 @@ xmm::SingleClassGMM::SingleClassGMM(std::shared_ptr<SharedParameters> p,
     }
 
     updateInverseCovariances();
+    reset();
 }
 
 xmm::SingleClassGMM& xmm::SingleClassGMM::operator=(SingleClassGMM const& src) {
diff --git a/src/models/hmm/xmmHierarchicalHmm.cpp b/src/models/hmm/xmmHierarchicalHmm.cpp
index f2f9421..735bd9d 100644
--- a/src/models/hmm/xmmHierarchicalHmm.cpp
+++ b/src/models/hmm/xmmHierarchicalHmm.cpp
@@ -58,6 +58,7 @@ xmm::HierarchicalHMM::HierarchicalHMM(Json::Value const &root)
     }
     exit_transition.resize(size());
     json2vector(root["exit_transition"], exit_transition, size());
+    reset();
 }
 
 xmm::HierarchicalHMM &xmm::HierarchicalHMM::operator=(
@@ -505,8 +506,10 @@ Json::Value xmm::HierarchicalHMM::toJson() const {
 void xmm::HierarchicalHMM::fromJson(Json::Value const &root) {
     checkTraining();
     try {
+        EventGenerator<TrainingEvent> _tmp_training_events(training_events);
         HierarchicalHMM tmp(root);
         *this = tmp;
+        training_events = _tmp_training_events;
     } catch (JsonException &e) {
         throw e;
     }
diff --git a/src/models/hmm/xmmHmmSingleClass.cpp b/src/models/hmm/xmmHmmSingleClass.cpp
index e0c3b62..5737f28 100644
--- a/src/models/hmm/xmmHmmSingleClass.cpp
+++ b/src/models/hmm/xmmHmmSingleClass.cpp
@@ -83,6 +83,7 @@ xmm::SingleClassHMM::SingleClassHMM(std::shared_ptr<SharedParameters> p,
     for (auto p : root["states"]) {
         states[s++].fromJson(p);
     }
+    reset();
 }
 
 xmm::SingleClassHMM& xmm::SingleClassHMM::operator=(SingleClassHMM const& src) {
@@ -1345,6 +1346,8 @@ void xmm::SingleClassHMM::fromJson(Json::Value const& root) {
     check_training();
     try {
         SingleClassHMM tmp(shared_parameters, root);
+        tmp.is_hierarchical_ = is_hierarchical_;
+        tmp.reset();
         *this = tmp;
     } catch (JsonException& e) {
         throw e;
-- 
2.43.0


From 0aa2941f77a4b2788af3bcfe2ae8ccc751b0f78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:06 +0000
Subject: [PATCH 54/59] fix: training with NaN or infinite values ends with an
 error

---
 src/core/distributions/xmmGaussianDistribution.cpp | 5 +++--
 src/models/gmm/xmmGmmSingleClass.cpp               | 2 ++
 src/models/hmm/xmmHmmSingleClass.cpp               | 5 ++++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/core/distributions/xmmGaussianDistribution.cpp b/src/core/distributions/xmmGaussianDistribution.cpp
index 9bc130f..2d3c77e 100644
--- a/src/core/distributions/xmmGaussianDistribution.cpp
+++ b/src/core/distributions/xmmGaussianDistribution.cpp
@@ -429,12 +429,13 @@ void xmm::GaussianDistribution::updateInverseCovariance() {
 
         cov_matrix.data = covariance.begin();
         inverseMat = cov_matrix.pinv(&det);
-        covariance_determinant_ = det;
         copy(inverseMat->data,
              inverseMat->data + dimension.get() * dimension.get(),
              inverse_covariance_.begin());
         delete inverseMat;
         inverseMat = NULL;
+        if (std::isnan(det)) throw std::runtime_error("Non-invertible matrix");
+        covariance_determinant_ = det;
 
         // If regression active: create inverse covariance matrix for input
         // modality.
@@ -459,7 +460,7 @@ void xmm::GaussianDistribution::updateInverseCovariance() {
     } else  // DIAGONAL COVARIANCE
     {
         for (unsigned int d = 0; d < dimension.get(); ++d) {
-            if (covariance[d] <= 0.0)
+            if (!(covariance[d] > 0.0))
                 throw std::runtime_error("Non-invertible matrix");
         }
         covariance_determinant_ = 1.;
diff --git a/src/models/gmm/xmmGmmSingleClass.cpp b/src/models/gmm/xmmGmmSingleClass.cpp
index 5a0a773..84eb338 100644
--- a/src/models/gmm/xmmGmmSingleClass.cpp
+++ b/src/models/gmm/xmmGmmSingleClass.cpp
@@ -379,6 +379,8 @@ void xmm::SingleClassGMM::initCovariances_fullyObserved(
     }
 
     for (int n = 0; n < parameters.gaussians.get(); n++) {
+        // phrases with fewer frames than gaussians
+        if (factor[n] == 0) continue;
         for (int d1 = 0; d1 < dimension; d1++) {
             gmeans[n * dimension + d1] /= factor[n];
             if (parameters.covariance_mode.get() ==
diff --git a/src/models/hmm/xmmHmmSingleClass.cpp b/src/models/hmm/xmmHmmSingleClass.cpp
index 5737f28..7961f2a 100644
--- a/src/models/hmm/xmmHmmSingleClass.cpp
+++ b/src/models/hmm/xmmHmmSingleClass.cpp
@@ -242,7 +242,9 @@ void xmm::SingleClassHMM::initCovariances_fullyObserved(
         }
     }
 
-    for (unsigned int n = 0; n < numStates; n++)
+    for (unsigned int n = 0; n < numStates; n++) {
+        // phrases with fewer frames than states
+        if (factor[n] == 0) continue;
         for (unsigned int d1 = 0; d1 < dimension; d1++) {
             othermeans[n * dimension + d1] /= factor[n];
             if (parameters.covariance_mode.get() ==
@@ -254,6 +256,7 @@ void xmm::SingleClassHMM::initCovariances_fullyObserved(
                 states[n].components[0].covariance[d1] /= factor[n];
             }
         }
+    }
 
     for (int n = 0; n < numStates; n++) {
         for (int d1 = 0; d1 < dimension; d1++) {
-- 
2.43.0


From aa44b6f73f873220fe587940e4ecfda9d1c678da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:33 +0000
Subject: [PATCH 55/59] fix: writing a class that is not trained to JSON

---
 src/models/gmm/xmmGmmSingleClass.cpp | 6 +++---
 src/models/hmm/xmmHmmSingleClass.cpp | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/models/gmm/xmmGmmSingleClass.cpp b/src/models/gmm/xmmGmmSingleClass.cpp
index 84eb338..e4565a7 100644
--- a/src/models/gmm/xmmGmmSingleClass.cpp
+++ b/src/models/gmm/xmmGmmSingleClass.cpp
@@ -117,9 +117,9 @@ Json::Value xmm::SingleClassGMM::toJson() const {
     Json::Value root = SingleClassProbabilisticModel::toJson();
     root["mixture_coeffs"] = vector2json(mixture_coeffs);
     root["parameters"] = parameters.toJson();
-    root["components"].resize(
-        static_cast<Json::ArrayIndex>(parameters.gaussians.get()));
-    for (int c = 0; c < parameters.gaussians.get(); c++) {
+    // a class that is not trained has no components
+    root["components"].resize(static_cast<Json::ArrayIndex>(components.size()));
+    for (int c = 0; c < components.size(); c++) {
         root["components"][c] = components[c].toJson();
     }
     return root;
diff --git a/src/models/hmm/xmmHmmSingleClass.cpp b/src/models/hmm/xmmHmmSingleClass.cpp
index 7961f2a..777257c 100644
--- a/src/models/hmm/xmmHmmSingleClass.cpp
+++ b/src/models/hmm/xmmHmmSingleClass.cpp
@@ -1337,9 +1337,9 @@ Json::Value xmm::SingleClassHMM::toJson() const {
     root["transition"] = vector2json(transition);
     root["exitProbabilities"] = vector2json(exit_probabilities_);
 
-    root["states"].resize(
-        static_cast<Json::ArrayIndex>(parameters.states.get()));
-    for (int s = 0; s < parameters.states.get(); s++) {
+    // a class that is not trained has no states
+    root["states"].resize(static_cast<Json::ArrayIndex>(states.size()));
+    for (int s = 0; s < states.size(); s++) {
         root["states"][s] = states[s].toJson();
     }
     return root;
-- 
2.43.0


From 6569562711be709f87902d6626680aea544895b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:01 +0000
Subject: [PATCH 56/59] fix: exit points cannot be added while the model is
 training

---
 src/models/hmm/xmmHierarchicalHmm.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/models/hmm/xmmHierarchicalHmm.cpp b/src/models/hmm/xmmHierarchicalHmm.cpp
index 735bd9d..aa9c69b 100644
--- a/src/models/hmm/xmmHierarchicalHmm.cpp
+++ b/src/models/hmm/xmmHierarchicalHmm.cpp
@@ -84,6 +84,7 @@ void xmm::HierarchicalHMM::clear() {
 }
 
 void xmm::HierarchicalHMM::addExitPoint(int state, float proba) {
+    checkTraining();
     // prevent_attribute_change();
     for (auto &model : models) {
         model.second.addExitPoint(state, proba);
-- 
2.43.0


From d5050abdb9c7610c8f326d3141355f7c3c719af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:35 +0000
Subject: [PATCH 57/59] fix: event listeners can be added and removed by a
 listener

---
 src/core/common/xmmEvents.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/common/xmmEvents.hpp b/src/core/common/xmmEvents.hpp
index 6468eb7..f95be64 100644
--- a/src/core/common/xmmEvents.hpp
+++ b/src/core/common/xmmEvents.hpp
@@ -97,8 +97,10 @@ class EventGenerator {
      @param e event
      */
     void notifyListeners(EventType& e) const {
-        for (auto& callback : callbacks_) {
-            callback.second(e);
+        // a listener may add or remove listeners
+        std::map<void*, EventCallBack> callbacks(callbacks_);
+        for (auto& callback : callbacks) {
+            if (callbacks_.count(callback.first) > 0) callback.second(e);
         }
     }
 
-- 
2.43.0


From 1352664f369be4ccd39cfdd2c34495a8663b4940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:05 +0000
Subject: [PATCH 58/59] fix: rescaling a phrase with an offset or gain of
 another dimension

---
 src/core/trainingset/xmmPhrase.cpp      | 2 ++
 src/core/trainingset/xmmPhrase.hpp      | 2 ++
 src/core/trainingset/xmmTrainingSet.hpp | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/src/core/trainingset/xmmPhrase.cpp b/src/core/trainingset/xmmPhrase.cpp
index da8d52c..3c23f97 100644
--- a/src/core/trainingset/xmmPhrase.cpp
+++ b/src/core/trainingset/xmmPhrase.cpp
@@ -495,6 +495,8 @@ std::vector<std::pair<float, float>> xmm::Phrase::minmax() const {
 }
 
 void xmm::Phrase::rescale(std::vector<float> offset, std::vector<float> gain) {
+    if (offset.size() != dimension.get() || gain.size() != dimension.get())
+        throw std::invalid_argument("Offset or gain has wrong dimension");
     for (int t = 0; t < size(); t++) {
         float* p;
         if (bimodal_) {
diff --git a/src/core/trainingset/xmmPhrase.hpp b/src/core/trainingset/xmmPhrase.hpp
index 225c318..9fef521 100644
--- a/src/core/trainingset/xmmPhrase.hpp
+++ b/src/core/trainingset/xmmPhrase.hpp
@@ -425,6 +425,8 @@ class Phrase : public Writable {
      @brief rescale a phrase given an offset and gain
      @param offset constant offset to be subtracted
      @param gain gain to be applied
+     @throws invalid_argument if the offset or the gain does not have the
+     dimension of the phrase
      */
     void rescale(std::vector<float> offset, std::vector<float> gain);
 
diff --git a/src/core/trainingset/xmmTrainingSet.hpp b/src/core/trainingset/xmmTrainingSet.hpp
index cbc0b95..97e9e2f 100644
--- a/src/core/trainingset/xmmTrainingSet.hpp
+++ b/src/core/trainingset/xmmTrainingSet.hpp
@@ -282,6 +282,8 @@ class TrainingSet : public Writable {
      @brief rescale a phrase given an offset and gain
      @param offset constant offset to be subtracted
      @param gain gain to be applied
+     @throws invalid_argument if the offset or the gain does not have the
+     dimension of the phrases
      */
     void rescale(std::vector<float> offset, std::vector<float> gain);
 
-- 
2.43.0


From 3c3b29d3a3d8b8825290cd92736a73b6b340d3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:05 +0000
Subject: [PATCH 59/59] fix: training with phrases that do not match the
 training set

---
 src/core/model/xmmModelSingleClass.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/core/model/xmmModelSingleClass.cpp b/src/core/model/xmmModelSingleClass.cpp
index 43035d5..c506f9b 100644
--- a/src/core/model/xmmModelSingleClass.cpp
+++ b/src/core/model/xmmModelSingleClass.cpp
@@ -120,10 +120,17 @@ void xmm::SingleClassProbabilisticModel::train(TrainingSet* trainingSet) {
 
     unsigned int numFrames(0);
     if (trainingSet) {
-        for (auto it = trainingSet->cbegin(); it != trainingSet->cend(); ++it)
+        for (auto it = trainingSet->cbegin(); it != trainingSet->cend(); ++it) {
             numFrames += it->second->size();
+            // phrases that do not match the training set
+            if (it->second->bimodal() != trainingSet->bimodal() ||
+                it->second->dimension.get() != trainingSet->dimension.get() ||
+                it->second->dimension_input.get() !=
+                    trainingSet->dimension_input.get())
+                trainingError = true;
+        }
     }
-    if (numFrames > 0) {
+    if (numFrames > 0 && !trainingError) {
         this->allocate();
     } else {
         trainingError = true;
-- 
2.43.0

