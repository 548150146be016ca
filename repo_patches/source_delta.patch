From 8b060dd1ba75754cd585d59a010faade2527a7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:51 +0000
Subject: [PATCH 01/11] fix: compound assignment of probabilities updates the
 comparison key

---
 src/psdd_parameter.cpp | 20 +++-----------------
 1 file changed, 3 insertions(+), 17 deletions(-)

diff --git a/src/psdd_parameter.cpp b/src/psdd_parameter.cpp
index 20c3cd9..9ce1157 100644
--- a/src/psdd_parameter.cpp
+++ b/src/psdd_parameter.cpp
@@ -76,28 +76,14 @@ bool PsddParameter::operator>(const PsddParameter &other) const {
 }
 
 PsddParameter &PsddParameter::operator+=(const PsddParameter &other) {
-  if (parameter_ == -std::numeric_limits<double>::infinity()) {
-    // if this is zero
-    parameter_ = other.parameter_;
-  } else if (other.parameter_ == -std::numeric_limits<double>::infinity()) {
-    // No change on the paramter_
-  } else {
-    if (parameter_ > other.parameter_) {
-      parameter_ += std::log1p(std::exp(other.parameter_ - parameter_));
-    } else {
-      parameter_ = other.parameter_ +
-                   std::log1p(std::exp(parameter_ - other.parameter_));
-    }
-  }
+  *this = *this + other;
   return *this;
 }
-
 PsddParameter &PsddParameter::operator/=(const PsddParameter &other) {
-  parameter_ -= other.parameter_;
+  *this = *this / other;
   return *this;
 }
-
 PsddParameter &PsddParameter::operator*=(const PsddParameter &other) {
-  parameter_ += other.parameter_;
+  *this = *this * other;
   return *this;
 }
-- 
2.43.0


From 2b5519699515ac90508f61ef670b942a93bdfb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:51 +0000
Subject: [PATCH 02/11] fix: true nodes with different false parameters are
 different nodes

---
 src/psdd_node.cpp         | 4 +++-
 src/psdd_unique_table.cpp | 6 +++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/psdd_node.cpp b/src/psdd_node.cpp
index 612736e..0a3b946 100644
--- a/src/psdd_node.cpp
+++ b/src/psdd_node.cpp
@@ -983,7 +983,8 @@ PsddTopNode::PsddTopNode(uintmax_t *node_index, Vtree *vtree_node,
 bool PsddTopNode::operator==(const PsddTopNode &other) const {
   return variable_index_ == other.variable_index_ &&
          flag_index() == other.flag_index() &&
-         true_parameter_ == other.true_parameter_;
+         true_parameter_ == other.true_parameter_ &&
+         false_parameter_ == other.false_parameter_;
 }
 
 int PsddTopNode::node_type() const { return 3; }
@@ -999,6 +1000,7 @@ void PsddTopNode::CalculateHashValue() {
   std::size_t hash_value = std::hash<uint32_t>{}(variable_index_);
   hash_value ^= true_parameter_.hash_value() << 1;
   hash_value ^= std::hash<uintmax_t>{}(flag_index()) << 2;
+  hash_value ^= false_parameter_.hash_value() << 3;
   set_hash_value(hash_value);
 }
 
diff --git a/src/psdd_unique_table.cpp b/src/psdd_unique_table.cpp
index 9a19e80..95c25b0 100644
--- a/src/psdd_unique_table.cpp
+++ b/src/psdd_unique_table.cpp
@@ -31,9 +31,13 @@ struct PsddUniqueTableSetFunctional {
           node_b->psdd_top_node()->variable_index()) {
         return node_a->psdd_top_node()->variable_index() <
                node_b->psdd_top_node()->variable_index();
-      } else {
+      } else if (node_a->psdd_top_node()->true_parameter() !=
+                 node_b->psdd_top_node()->true_parameter()) {
         return node_a->psdd_top_node()->true_parameter() <
                node_b->psdd_top_node()->true_parameter();
+      } else {
+        return node_a->psdd_top_node()->false_parameter() <
+               node_b->psdd_top_node()->false_parameter();
       }
     } else {
       if (node_b->node_type() != DECISION_NODE_TYPE) {
-- 
2.43.0


From dd2b9925ac340a36f57b13405a4e3b963f3abd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:52 +0000
Subject: [PATCH 03/11] fix: sampling accepts draws next to one

---
 src/psdd_node.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/psdd_node.cpp b/src/psdd_node.cpp
index 0a3b946..0a814a6 100644
--- a/src/psdd_node.cpp
+++ b/src/psdd_node.cpp
@@ -942,17 +942,24 @@ void PsddDecisionNode::DirectSample(
       (generator->max() - generator->min()));
   PsddParameter acc = PsddParameter::CreateFromDecimal(0);
   auto element_size = primes_.size();
+  // A draw that cannot be told from the sum of all parameters belongs to the
+  // last partition with a positive parameter.
+  size_t selected = element_size;
   for (size_t i = 0; i < element_size; ++i) {
     PsddParameter cur_parameter = parameters_[i];
+    if (cur_parameter == PsddParameter::CreateFromDecimal(0)) {
+      continue;
+    }
+    selected = i;
     acc = acc + cur_parameter;
     if (uniform_rand < acc) {
       // Use this partition
-      primes_[i]->DirectSample(instantiation, generator);
-      subs_[i]->DirectSample(instantiation, generator);
-      return;
+      break;
     }
   }
-  assert(false);
+  assert(selected != element_size);
+  primes_[selected]->DirectSample(instantiation, generator);
+  subs_[selected]->DirectSample(instantiation, generator);
 }
 const std::vector<uintmax_t> &PsddDecisionNode::data_counts() const {
   return data_counts_;
@@ -1024,7 +1031,8 @@ void PsddTopNode::DirectSample(std::bitset<MAX_VAR> *instantiation,
   PsddParameter uniform_rand = PsddParameter::CreateFromDecimal(
       (generator->generate() - generator->min()) /
       (generator->max() - generator->min()));
-  if (uniform_rand < true_parameter_) {
+  if (uniform_rand < true_parameter_ ||
+      false_parameter_ == PsddParameter::CreateFromDecimal(0)) {
     instantiation->set(variable_index_);
   }
 }
-- 
2.43.0


From 38008a474b6f9e32d1ec8be406327e30a55c051e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:52 +0000
Subject: [PATCH 04/11] fix: blank lines of a CNF file are not empty clauses

---
 src/cnf.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cnf.cpp b/src/cnf.cpp
index 349bfb1..5963d92 100644
--- a/src/cnf.cpp
+++ b/src/cnf.cpp
@@ -53,13 +53,17 @@ CNF::CNF(const char *filename) {
     std::vector<SddLiteral> clause;
     std::stringstream ss(line);
     SddLiteral token;
+    bool is_clause = false;
     while (ss >> token) {
+      is_clause = true;
       if (token == 0) {
         break;
       }
       clause.push_back(token);
     }
-    clauses_.push_back(clause);
+    if (is_clause) {
+      clauses_.push_back(clause);
+    }
   }
   cnf_file.close();
 }
-- 
2.43.0


From f768bbd336f3e10d7f44978462abe9fa9fa75490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:52 +0000
Subject: [PATCH 05/11] fix: a fresh dataset is empty and reading replaces its
 content

---
 include/psdd/binary_data.h | 4 ++--
 src/binary_data.cpp        | 1 +
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/psdd/binary_data.h b/include/psdd/binary_data.h
index d4822fd..82b6ff8 100644
--- a/include/psdd/binary_data.h
+++ b/include/psdd/binary_data.h
@@ -27,8 +27,8 @@ class BinaryData {
   double CalculateEntropy() const;
  private:
   std::unordered_map<std::bitset<MAX_VAR>, uintmax_t> data_;
-  uint32_t variable_size_;
-  uintmax_t data_size_;
+  uint32_t variable_size_ = 0;
+  uintmax_t data_size_ = 0;
 };
 
 #endif //STRUCTURED_BAYESIAN_NETWORK_BINARY_DATA_H
diff --git a/src/binary_data.cpp b/src/binary_data.cpp
index 3342a4a..9218d15 100644
--- a/src/binary_data.cpp
+++ b/src/binary_data.cpp
@@ -18,6 +18,7 @@ void BinaryData::ReadFile(const char *data_file) {
     exit(1);
   }
   CsvRow *row;
+  data_.clear();
   data_size_ = 0;
   variable_size_ = 0;
   while ((row = CsvParser_getRow(csvparser))) {
-- 
2.43.0


From 7371eb274c80a5c098a72ae8e8c908b65fcecd06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:52 +0000
Subject: [PATCH 06/11] fix: csv parser stays inside its buffers at the end of
 the input

---
 src/csvparser.c | 482 ++++++++++++++++++++++++------------------------
 1 file changed, 242 insertions(+), 240 deletions(-)

diff --git a/src/csvparser.c b/src/csvparser.c
index 7e62b4a..4ea1624 100644
--- a/src/csvparser.c
+++ b/src/csvparser.c
@@ -1,240 +1,242 @@
-#include <stdlib.h>
-#include <string.h>
-#include <stdio.h>
-#include <errno.h>
-
-#include <psdd/csvparser.h>
-
-#ifdef __cplusplus
-extern "C" {
-#endif
-
-CsvParser *CsvParser_new(const char *filePath, const char *delimiter, int firstLineIsHeader) {
-  CsvParser *csvParser = (CsvParser *) malloc(sizeof(CsvParser));
-  if (filePath == NULL) {
-    csvParser->filePath_ = NULL;
-  } else {
-    int filePathLen = strlen(filePath);
-    csvParser->filePath_ = (char *) malloc((filePathLen + 1));
-    strcpy(csvParser->filePath_, filePath);
-  }
-  csvParser->firstLineIsHeader_ = firstLineIsHeader;
-  csvParser->errMsg_ = NULL;
-  if (delimiter == NULL) {
-    csvParser->delimiter_ = ',';
-  } else if (_CsvParser_delimiterIsAccepted(delimiter)) {
-    csvParser->delimiter_ = *delimiter;
-  } else {
-    csvParser->delimiter_ = '\0';
-  }
-  csvParser->header_ = NULL;
-  csvParser->fileHandler_ = NULL;
-  csvParser->fromString_ = 0;
-  csvParser->csvString_ = NULL;
-  csvParser->csvStringIter_ = 0;
-
-  return csvParser;
-}
-
-CsvParser *CsvParser_new_from_string(const char *csvString, const char *delimiter, int firstLineIsHeader) {
-  CsvParser *csvParser = CsvParser_new(NULL, delimiter, firstLineIsHeader);
-  csvParser->fromString_ = 1;
-  if (csvString != NULL) {
-    int csvStringLen = strlen(csvString);
-    csvParser->csvString_ = (char *) malloc(csvStringLen + 1);
-    strcpy(csvParser->csvString_, csvString);
-  }
-  return csvParser;
-}
-
-void CsvParser_destroy(CsvParser *csvParser) {
-  if (csvParser == NULL) {
-    return;
-  }
-  if (csvParser->filePath_ != NULL) {
-    free(csvParser->filePath_);
-  }
-  if (csvParser->errMsg_ != NULL) {
-    free(csvParser->errMsg_);
-  }
-  if (csvParser->fileHandler_ != NULL) {
-    fclose(csvParser->fileHandler_);
-  }
-  if (csvParser->header_ != NULL) {
-    CsvParser_destroy_row(csvParser->header_);
-  }
-  if (csvParser->csvString_ != NULL) {
-    free(csvParser->csvString_);
-  }
-  free(csvParser);
-}
-
-void CsvParser_destroy_row(CsvRow *csvRow) {
-  int i;
-  for (i = 0; i < csvRow->numOfFields_; i++) {
-    free(csvRow->fields_[i]);
-  }
-  free(csvRow->fields_);
-  free(csvRow);
-}
-
-const CsvRow *CsvParser_getHeader(CsvParser *csvParser) {
-  if (!csvParser->firstLineIsHeader_) {
-    _CsvParser_setErrorMessage(csvParser, "Cannot supply header, as current CsvParser object does not support header");
-    return NULL;
-  }
-  if (csvParser->header_ == NULL) {
-    csvParser->header_ = _CsvParser_getRow(csvParser);
-  }
-  return csvParser->header_;
-}
-
-CsvRow *CsvParser_getRow(CsvParser *csvParser) {
-  if (csvParser->firstLineIsHeader_ && csvParser->header_ == NULL) {
-    csvParser->header_ = _CsvParser_getRow(csvParser);
-  }
-  return _CsvParser_getRow(csvParser);
-}
-
-int CsvParser_getNumFields(const CsvRow *csvRow) {
-  return csvRow->numOfFields_;
-}
-
-const char **CsvParser_getFields(const CsvRow *csvRow) {
-  return (const char **) csvRow->fields_;
-}
-
-CsvRow *_CsvParser_getRow(CsvParser *csvParser) {
-  int numRowRealloc = 0;
-  int acceptedFields = 64;
-  int acceptedCharsInField = 64;
-  if (csvParser->filePath_ == NULL && (!csvParser->fromString_)) {
-    _CsvParser_setErrorMessage(csvParser, "Supplied CSV file path is NULL");
-    return NULL;
-  }
-  if (csvParser->csvString_ == NULL && csvParser->fromString_) {
-    _CsvParser_setErrorMessage(csvParser, "Supplied CSV string is NULL");
-    return NULL;
-  }
-  if (csvParser->delimiter_ == '\0') {
-    _CsvParser_setErrorMessage(csvParser, "Supplied delimiter is not supported");
-    return NULL;
-  }
-  if (!csvParser->fromString_) {
-    if (csvParser->fileHandler_ == NULL) {
-      csvParser->fileHandler_ = fopen(csvParser->filePath_, "r");
-      if (csvParser->fileHandler_ == NULL) {
-        int errorNum = errno;
-        const char *errStr = strerror(errorNum);
-        char *errMsg = (char *) malloc(1024 + strlen(errStr));
-        strcpy(errMsg, "");
-        sprintf(errMsg, "Error opening CSV file for reading: %s : %s", csvParser->filePath_, errStr);
-        _CsvParser_setErrorMessage(csvParser, errMsg);
-        free(errMsg);
-        return NULL;
-      }
-    }
-  }
-  CsvRow *csvRow = (CsvRow *) malloc(sizeof(CsvRow));
-  csvRow->fields_ = (char **) malloc(acceptedFields * sizeof(char *));
-  csvRow->numOfFields_ = 0;
-  int fieldIter = 0;
-  char *currField = (char *) malloc(acceptedCharsInField);
-  int inside_complex_field = 0;
-  int currFieldCharIter = 0;
-  int seriesOfQuotesLength = 0;
-  int lastCharIsQuote = 0;
-  int isEndOfFile = 0;
-  while (1) {
-    char currChar =
-        (csvParser->fromString_) ? csvParser->csvString_[csvParser->csvStringIter_] : fgetc(csvParser->fileHandler_);
-    csvParser->csvStringIter_++;
-    int endOfFileIndicator;
-    if (csvParser->fromString_) {
-      endOfFileIndicator = (currChar == '\0');
-    } else {
-      endOfFileIndicator = feof(csvParser->fileHandler_);
-    }
-    if (endOfFileIndicator) {
-      if (currFieldCharIter == 0 && fieldIter == 0) {
-        _CsvParser_setErrorMessage(csvParser, "Reached EOF");
-        free(currField);
-        CsvParser_destroy_row(csvRow);
-        return NULL;
-      }
-      currChar = '\n';
-      isEndOfFile = 1;
-    }
-    if (currChar == '\r') {
-      continue;
-    }
-    if (currFieldCharIter == 0 && !lastCharIsQuote) {
-      if (currChar == '\"') {
-        inside_complex_field = 1;
-        lastCharIsQuote = 1;
-        continue;
-      }
-    } else if (currChar == '\"') {
-      seriesOfQuotesLength++;
-      inside_complex_field = (seriesOfQuotesLength % 2 == 0);
-      if (inside_complex_field) {
-        currFieldCharIter--;
-      }
-    } else {
-      seriesOfQuotesLength = 0;
-    }
-    if (isEndOfFile || ((currChar == csvParser->delimiter_ || currChar == '\n') && !inside_complex_field)) {
-      currField[lastCharIsQuote ? currFieldCharIter - 1 : currFieldCharIter] = '\0';
-      csvRow->fields_[fieldIter] = (char *) malloc(currFieldCharIter + 1);
-      strcpy(csvRow->fields_[fieldIter], currField);
-      free(currField);
-      csvRow->numOfFields_++;
-      if (currChar == '\n') {
-        return csvRow;
-      }
-      if (csvRow->numOfFields_ != 0 && csvRow->numOfFields_ % acceptedFields == 0) {
-        csvRow->fields_ = (char **) realloc(csvRow->fields_, ((numRowRealloc + 2) * acceptedFields) * sizeof(char *));
-        numRowRealloc++;
-      }
-      acceptedCharsInField = 64;
-      currField = (char *) malloc(acceptedCharsInField);
-      currFieldCharIter = 0;
-      fieldIter++;
-      inside_complex_field = 0;
-    } else {
-      currField[currFieldCharIter] = currChar;
-      currFieldCharIter++;
-      if (currFieldCharIter == acceptedCharsInField - 1) {
-        acceptedCharsInField *= 2;
-        currField = (char *) realloc(currField, acceptedCharsInField);
-      }
-    }
-    lastCharIsQuote = (currChar == '\"') ? 1 : 0;
-  }
-}
-
-int _CsvParser_delimiterIsAccepted(const char *delimiter) {
-  char actualDelimiter = *delimiter;
-  if (actualDelimiter == '\n' || actualDelimiter == '\r' || actualDelimiter == '\0' ||
-      actualDelimiter == '\"') {
-    return 0;
-  }
-  return 1;
-}
-
-void _CsvParser_setErrorMessage(CsvParser *csvParser, const char *errorMessage) {
-  if (csvParser->errMsg_ != NULL) {
-    free(csvParser->errMsg_);
-  }
-  int errMsgLen = strlen(errorMessage);
-  csvParser->errMsg_ = (char *) malloc(errMsgLen + 1);
-  strcpy(csvParser->errMsg_, errorMessage);
-}
-
-const char *CsvParser_getErrorMessage(CsvParser *csvParser) {
-  return csvParser->errMsg_;
-}
-
-#ifdef __cplusplus
-}
-#endif
+#include <stdlib.h>
+#include <string.h>
+#include <stdio.h>
+#include <errno.h>
+
+#include <psdd/csvparser.h>
+
+#ifdef __cplusplus
+extern "C" {
+#endif
+
+CsvParser *CsvParser_new(const char *filePath, const char *delimiter, int firstLineIsHeader) {
+  CsvParser *csvParser = (CsvParser *) malloc(sizeof(CsvParser));
+  if (filePath == NULL) {
+    csvParser->filePath_ = NULL;
+  } else {
+    int filePathLen = strlen(filePath);
+    csvParser->filePath_ = (char *) malloc((filePathLen + 1));
+    strcpy(csvParser->filePath_, filePath);
+  }
+  csvParser->firstLineIsHeader_ = firstLineIsHeader;
+  csvParser->errMsg_ = NULL;
+  if (delimiter == NULL) {
+    csvParser->delimiter_ = ',';
+  } else if (_CsvParser_delimiterIsAccepted(delimiter)) {
+    csvParser->delimiter_ = *delimiter;
+  } else {
+    csvParser->delimiter_ = '\0';
+  }
+  csvParser->header_ = NULL;
+  csvParser->fileHandler_ = NULL;
+  csvParser->fromString_ = 0;
+  csvParser->csvString_ = NULL;
+  csvParser->csvStringIter_ = 0;
+
+  return csvParser;
+}
+
+CsvParser *CsvParser_new_from_string(const char *csvString, const char *delimiter, int firstLineIsHeader) {
+  CsvParser *csvParser = CsvParser_new(NULL, delimiter, firstLineIsHeader);
+  csvParser->fromString_ = 1;
+  if (csvString != NULL) {
+    int csvStringLen = strlen(csvString);
+    csvParser->csvString_ = (char *) malloc(csvStringLen + 1);
+    strcpy(csvParser->csvString_, csvString);
+  }
+  return csvParser;
+}
+
+void CsvParser_destroy(CsvParser *csvParser) {
+  if (csvParser == NULL) {
+    return;
+  }
+  if (csvParser->filePath_ != NULL) {
+    free(csvParser->filePath_);
+  }
+  if (csvParser->errMsg_ != NULL) {
+    free(csvParser->errMsg_);
+  }
+  if (csvParser->fileHandler_ != NULL) {
+    fclose(csvParser->fileHandler_);
+  }
+  if (csvParser->header_ != NULL) {
+    CsvParser_destroy_row(csvParser->header_);
+  }
+  if (csvParser->csvString_ != NULL) {
+    free(csvParser->csvString_);
+  }
+  free(csvParser);
+}
+
+void CsvParser_destroy_row(CsvRow *csvRow) {
+  int i;
+  for (i = 0; i < csvRow->numOfFields_; i++) {
+    free(csvRow->fields_[i]);
+  }
+  free(csvRow->fields_);
+  free(csvRow);
+}
+
+const CsvRow *CsvParser_getHeader(CsvParser *csvParser) {
+  if (!csvParser->firstLineIsHeader_) {
+    _CsvParser_setErrorMessage(csvParser, "Cannot supply header, as current CsvParser object does not support header");
+    return NULL;
+  }
+  if (csvParser->header_ == NULL) {
+    csvParser->header_ = _CsvParser_getRow(csvParser);
+  }
+  return csvParser->header_;
+}
+
+CsvRow *CsvParser_getRow(CsvParser *csvParser) {
+  if (csvParser->firstLineIsHeader_ && csvParser->header_ == NULL) {
+    csvParser->header_ = _CsvParser_getRow(csvParser);
+  }
+  return _CsvParser_getRow(csvParser);
+}
+
+int CsvParser_getNumFields(const CsvRow *csvRow) {
+  return csvRow->numOfFields_;
+}
+
+const char **CsvParser_getFields(const CsvRow *csvRow) {
+  return (const char **) csvRow->fields_;
+}
+
+CsvRow *_CsvParser_getRow(CsvParser *csvParser) {
+  int numRowRealloc = 0;
+  int acceptedFields = 64;
+  int acceptedCharsInField = 64;
+  if (csvParser->filePath_ == NULL && (!csvParser->fromString_)) {
+    _CsvParser_setErrorMessage(csvParser, "Supplied CSV file path is NULL");
+    return NULL;
+  }
+  if (csvParser->csvString_ == NULL && csvParser->fromString_) {
+    _CsvParser_setErrorMessage(csvParser, "Supplied CSV string is NULL");
+    return NULL;
+  }
+  if (csvParser->delimiter_ == '\0') {
+    _CsvParser_setErrorMessage(csvParser, "Supplied delimiter is not supported");
+    return NULL;
+  }
+  if (!csvParser->fromString_) {
+    if (csvParser->fileHandler_ == NULL) {
+      csvParser->fileHandler_ = fopen(csvParser->filePath_, "r");
+      if (csvParser->fileHandler_ == NULL) {
+        int errorNum = errno;
+        const char *errStr = strerror(errorNum);
+        char *errMsg = (char *) malloc(1024 + strlen(errStr));
+        strcpy(errMsg, "");
+        sprintf(errMsg, "Error opening CSV file for reading: %s : %s", csvParser->filePath_, errStr);
+        _CsvParser_setErrorMessage(csvParser, errMsg);
+        free(errMsg);
+        return NULL;
+      }
+    }
+  }
+  CsvRow *csvRow = (CsvRow *) malloc(sizeof(CsvRow));
+  csvRow->fields_ = (char **) malloc(acceptedFields * sizeof(char *));
+  csvRow->numOfFields_ = 0;
+  int fieldIter = 0;
+  char *currField = (char *) malloc(acceptedCharsInField);
+  int inside_complex_field = 0;
+  int currFieldCharIter = 0;
+  int seriesOfQuotesLength = 0;
+  int lastCharIsQuote = 0;
+  int isEndOfFile = 0;
+  while (1) {
+    char currChar =
+        (csvParser->fromString_) ? csvParser->csvString_[csvParser->csvStringIter_] : fgetc(csvParser->fileHandler_);
+    int endOfFileIndicator;
+    if (csvParser->fromString_) {
+      endOfFileIndicator = (currChar == '\0');
+    } else {
+      endOfFileIndicator = feof(csvParser->fileHandler_) || ferror(csvParser->fileHandler_);
+    }
+    if (!endOfFileIndicator) {
+      csvParser->csvStringIter_++;
+    }
+    if (endOfFileIndicator) {
+      if (currFieldCharIter == 0 && fieldIter == 0) {
+        _CsvParser_setErrorMessage(csvParser, "Reached EOF");
+        free(currField);
+        CsvParser_destroy_row(csvRow);
+        return NULL;
+      }
+      currChar = '\n';
+      isEndOfFile = 1;
+    }
+    if (currChar == '\r') {
+      continue;
+    }
+    if (currFieldCharIter == 0 && !lastCharIsQuote) {
+      if (currChar == '\"') {
+        inside_complex_field = 1;
+        lastCharIsQuote = 1;
+        continue;
+      }
+    } else if (currChar == '\"') {
+      seriesOfQuotesLength++;
+      inside_complex_field = (seriesOfQuotesLength % 2 == 0);
+      if (inside_complex_field) {
+        currFieldCharIter--;
+      }
+    } else {
+      seriesOfQuotesLength = 0;
+    }
+    if (isEndOfFile || ((currChar == csvParser->delimiter_ || currChar == '\n') && !inside_complex_field)) {
+      currField[lastCharIsQuote && currFieldCharIter > 0 ? currFieldCharIter - 1 : currFieldCharIter] = '\0';
+      csvRow->fields_[fieldIter] = (char *) malloc(currFieldCharIter + 1);
+      strcpy(csvRow->fields_[fieldIter], currField);
+      free(currField);
+      csvRow->numOfFields_++;
+      if (currChar == '\n') {
+        return csvRow;
+      }
+      if (csvRow->numOfFields_ != 0 && csvRow->numOfFields_ % acceptedFields == 0) {
+        csvRow->fields_ = (char **) realloc(csvRow->fields_, ((numRowRealloc + 2) * acceptedFields) * sizeof(char *));
+        numRowRealloc++;
+      }
+      acceptedCharsInField = 64;
+      currField = (char *) malloc(acceptedCharsInField);
+      currFieldCharIter = 0;
+      fieldIter++;
+      inside_complex_field = 0;
+    } else {
+      currField[currFieldCharIter] = currChar;
+      currFieldCharIter++;
+      if (currFieldCharIter == acceptedCharsInField - 1) {
+        acceptedCharsInField *= 2;
+        currField = (char *) realloc(currField, acceptedCharsInField);
+      }
+    }
+    lastCharIsQuote = (currChar == '\"') ? 1 : 0;
+  }
+}
+
+int _CsvParser_delimiterIsAccepted(const char *delimiter) {
+  char actualDelimiter = *delimiter;
+  if (actualDelimiter == '\n' || actualDelimiter == '\r' || actualDelimiter == '\0' ||
+      actualDelimiter == '\"') {
+    return 0;
+  }
+  return 1;
+}
+
+void _CsvParser_setErrorMessage(CsvParser *csvParser, const char *errorMessage) {
+  if (csvParser->errMsg_ != NULL) {
+    free(csvParser->errMsg_);
+  }
+  int errMsgLen = strlen(errorMessage);
+  csvParser->errMsg_ = (char *) malloc(errMsgLen + 1);
+  strcpy(csvParser->errMsg_, errorMessage);
+}
+
+const char *CsvParser_getErrorMessage(CsvParser *csvParser) {
+  return csvParser->errMsg_;
+}
+
+#ifdef __cplusplus
+}
+#endif
-- 
2.43.0


From 16766e5ae978be757f9110966a91ba36e1339220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:09 +0000
Subject: [PATCH 07/11] fix: zero parameters survive reading a PSDD file

---
 src/psdd_manager.cpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/psdd_manager.cpp b/src/psdd_manager.cpp
index 26e4627..fb7623d 100644
--- a/src/psdd_manager.cpp
+++ b/src/psdd_manager.cpp
@@ -6,12 +6,14 @@
 #include <psdd/psdd_unique_table.h>
 
 #include <cassert>
+#include <cstdlib>
 #include <fstream>
 #include <functional>
 #include <iostream>
 #include <queue>
 #include <sstream>
 #include <stack>
+#include <string>
 #include <unordered_set>
 namespace {
 using std::unordered_set;
@@ -223,6 +225,14 @@ std::pair<PsddNode *, PsddParameter> MultiplyWithCache(
     }
   }
 }
+
+// The logarithm of probability zero is written "-inf", which operator>> does
+// not parse.
+double ReadLogProbability(std::istringstream *input) {
+  std::string token;
+  *input >> token;
+  return std::strtod(token.c_str(), nullptr);
+}
 }  // namespace
 
 PsddManager *PsddManager::GetPsddManagerFromSddVtree(
@@ -612,10 +622,9 @@ PsddNode *PsddManager::ReadPsddFile(const char *psdd_filename,
       uintmax_t node_index;
       uint32_t vtree_index;
       uint32_t variable_index;
-      double neg_log_pr;
-      double pos_log_pr;
-      iss >> node_index >> vtree_index >> variable_index >> neg_log_pr >>
-          pos_log_pr;
+      iss >> node_index >> vtree_index >> variable_index;
+      double neg_log_pr = ReadLogProbability(&iss);
+      double pos_log_pr = ReadLogProbability(&iss);
       PsddNode *cur_node = GetPsddTopNode(
           variable_index, flag_index, PsddParameter::CreateFromLog(pos_log_pr),
           PsddParameter::CreateFromLog(neg_log_pr));
@@ -634,8 +643,8 @@ PsddNode *PsddManager::ReadPsddFile(const char *psdd_filename,
       for (size_t j = 0; j < element_size; j++) {
         uintmax_t prime_index;
         uintmax_t sub_index;
-        double weight_in_log;
-        iss >> prime_index >> sub_index >> weight_in_log;
+        iss >> prime_index >> sub_index;
+        double weight_in_log = ReadLogProbability(&iss);
         assert(construct_cache.find(prime_index) != construct_cache.end());
         assert(construct_cache.find(sub_index) != construct_cache.end());
         PsddNode *prime_node = construct_cache[prime_index];
-- 
2.43.0


From ba0c47ceb8b1d90205b1496793ea5b651ffbbf62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:27 +0000
Subject: [PATCH 08/11] fix: products involving false or zero parameters are
 handled

---
 src/psdd_manager.cpp | 58 +++++++++++++++++++++++++++++---------------
 1 file changed, 38 insertions(+), 20 deletions(-)

diff --git a/src/psdd_manager.cpp b/src/psdd_manager.cpp
index fb7623d..c6ff3dd 100644
--- a/src/psdd_manager.cpp
+++ b/src/psdd_manager.cpp
@@ -116,12 +116,16 @@ std::pair<PsddNode *, PsddParameter> MultiplyWithCache(
         if (cur_sub_result.first == nullptr) {
           continue;
         }
+        PsddParameter cur_second_param = second_parameters[j];
+        PsddParameter cur_parameter = cur_second_param * cur_first_param *
+                                      cur_prime_result.second *
+                                      cur_sub_result.second;
+        if (cur_parameter == PsddParameter::CreateFromDecimal(0)) {
+          continue;
+        }
         next_primes.push_back(cur_prime_result.first);
         next_subs.push_back(cur_sub_result.first);
-        PsddParameter cur_second_param = second_parameters[j];
-        next_parameters.push_back(cur_second_param * cur_first_param *
-                                  cur_prime_result.second *
-                                  cur_sub_result.second);
+        next_parameters.push_back(cur_parameter);
         partition = partition + next_parameters.back();
       }
     }
@@ -165,17 +169,21 @@ std::pair<PsddNode *, PsddParameter> MultiplyWithCache(
       assert(first_literal_node->variable_index() ==
              second_top_node->variable_index());
       if (first_literal_node->sign()) {
-        PsddNode *new_node = manager->GetPsddLiteralNode(
-            first_literal_node->literal(), flag_index);
         std::pair<PsddNode *, Probability> comp_result = {
-            new_node, second_top_node->true_parameter()};
+            nullptr, second_top_node->true_parameter()};
+        if (comp_result.second != PsddParameter::CreateFromDecimal(0)) {
+          comp_result.first = manager->GetPsddLiteralNode(
+              first_literal_node->literal(), flag_index);
+        }
         cache->Update(first, second, comp_result);
         return comp_result;
       } else {
-        PsddNode *new_node = manager->GetPsddLiteralNode(
-            first_literal_node->literal(), flag_index);
         std::pair<PsddNode *, Probability> comp_result = {
-            new_node, second_top_node->false_parameter()};
+            nullptr, second_top_node->false_parameter()};
+        if (comp_result.second != PsddParameter::CreateFromDecimal(0)) {
+          comp_result.first = manager->GetPsddLiteralNode(
+              first_literal_node->literal(), flag_index);
+        }
         cache->Update(first, second, comp_result);
         return comp_result;
       }
@@ -188,17 +196,21 @@ std::pair<PsddNode *, PsddParameter> MultiplyWithCache(
       assert(first_top_node->variable_index() ==
              second_literal_node->variable_index());
       if (second_literal_node->sign()) {
-        PsddNode *new_node = manager->GetPsddLiteralNode(
-            second_literal_node->literal(), flag_index);
         std::pair<PsddNode *, Probability> comp_result = {
-            new_node, first_top_node->true_parameter()};
+            nullptr, first_top_node->true_parameter()};
+        if (comp_result.second != PsddParameter::CreateFromDecimal(0)) {
+          comp_result.first = manager->GetPsddLiteralNode(
+              second_literal_node->literal(), flag_index);
+        }
         cache->Update(first, second, comp_result);
         return comp_result;
       } else {
-        PsddNode *new_node = manager->GetPsddLiteralNode(
-            second_literal_node->literal(), flag_index);
         std::pair<PsddNode *, Probability> comp_result = {
-            new_node, first_top_node->false_parameter()};
+            nullptr, first_top_node->false_parameter()};
+        if (comp_result.second != PsddParameter::CreateFromDecimal(0)) {
+          comp_result.first = manager->GetPsddLiteralNode(
+              second_literal_node->literal(), flag_index);
+        }
         cache->Update(first, second, comp_result);
         return comp_result;
       }
@@ -212,13 +224,15 @@ std::pair<PsddNode *, PsddParameter> MultiplyWithCache(
       PsddParameter neg_weight = first_top_node->false_parameter() *
                                  second_top_node->false_parameter();
       PsddParameter partition = pos_weight + neg_weight;
+      if (partition == PsddParameter::CreateFromDecimal(0)) {
+        std::pair<PsddNode *, Probability> comp_result = {
+            nullptr, PsddParameter::CreateFromDecimal(0)};
+        cache->Update(first, second, comp_result);
+        return comp_result;
+      }
       PsddNode *new_node = manager->GetPsddTopNode(
           first_top_node->variable_index(), flag_index, pos_weight / partition,
           neg_weight / partition);
-      assert(new_node->psdd_top_node()->true_parameter() !=
-             PsddParameter::CreateFromDecimal(0));
-      assert(new_node->psdd_top_node()->false_parameter() !=
-             PsddParameter::CreateFromDecimal(0));
       std::pair<PsddNode *, Probability> comp_result = {new_node, partition};
       cache->Update(first, second, comp_result);
       return comp_result;
@@ -582,6 +596,10 @@ PsddNode *PsddManager::NormalizePsddNode(Vtree *target_vtree_node,
 
 std::pair<PsddNode *, PsddParameter> PsddManager::Multiply(
     PsddNode *arg1, PsddNode *arg2, uintmax_t flag_index) {
+  if (arg1 == nullptr || arg2 == nullptr) {
+    // nullptr for PsddNode means false
+    return {nullptr, PsddParameter::CreateFromDecimal(0)};
+  }
   ComputationCache cache((uint32_t)leaf_vtree_map_.size());
   return MultiplyWithCache(arg1, arg2, this, flag_index, &cache);
 }
-- 
2.43.0


From 2355fc9c0805de9c049fe12255c32b8770ebac24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:12 +0000
Subject: [PATCH 09/11] fix: serialising several roots places parents before
 children

---
 src/psdd_node.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/psdd_node.cpp b/src/psdd_node.cpp
index 0a814a6..4facbed 100644
--- a/src/psdd_node.cpp
+++ b/src/psdd_node.cpp
@@ -56,6 +56,15 @@ void LeftToRightLeafTraverseHelper(std::vector<SddLiteral> *literal_vector,
     LeftToRightLeafTraverseHelper(literal_vector, sdd_vtree_right(cur_root));
   }
 }
+
+size_t VtreeDepth(Vtree *vtree) {
+  size_t depth = 0;
+  for (Vtree *cur = sdd_vtree_parent(vtree); cur != nullptr;
+       cur = sdd_vtree_parent(cur)) {
+    ++depth;
+  }
+  return depth;
+}
 } // namespace
 
 namespace vtree_util {
@@ -288,6 +297,15 @@ SerializePsddNodes(const std::vector<PsddNode *> &root_nodes) {
     }
     ++explore_index;
   }
+  if (root_nodes.size() > 1) {
+    // The roots can sit at different depths, so a parent may have been
+    // discovered after its child.
+    std::stable_sort(result.begin(), result.end(),
+                     [](PsddNode *first, PsddNode *second) {
+                       return VtreeDepth(first->vtree_node()) <
+                              VtreeDepth(second->vtree_node());
+                     });
+  }
   return result;
 }
 
-- 
2.43.0


From ed05ee2efff6f48a2857fd420f63b54ba58cc34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:52 +0000
Subject: [PATCH 10/11] fix: networks whose factor product is zero everywhere
 compile to no node

---
 src/pgm_compiler.cpp | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/pgm_compiler.cpp b/src/pgm_compiler.cpp
index e1562f1..8d64117 100644
--- a/src/pgm_compiler.cpp
+++ b/src/pgm_compiler.cpp
@@ -176,6 +176,10 @@ std::pair<PsddNode*, PsddParameter> PgmCompiler::compile_factor(
   PsddParameter result_norm = context_norm_cache->begin()->second;
   delete context_node_cache;
   delete context_norm_cache;
+  if (result == nullptr) {
+    // nullptr for PsddNode means a factor that is zero everywhere
+    return {nullptr, zero_param};
+  }
   return {m_pm->NormalizePsddNode(m_pm->vtree(), result, /*flag_index*/ 0),
           result_norm};
 }
@@ -198,6 +202,9 @@ std::pair<PsddNode*, PsddParameter> PgmCompiler::compile_network_with_vtree(
   auto factor_size = m_network->factor_size();
   for (auto i = 0; i < factor_size; i++) {
     auto compiled_cluster = compile_factor(i);
+    if (compiled_cluster.first == nullptr) {
+      return compiled_cluster;
+    }
     nodes.push_back(compiled_cluster.first);
     z = z * compiled_cluster.second;
     Vtree* attached_vnode = nullptr;
@@ -242,6 +249,9 @@ std::pair<PsddNode*, PsddParameter> PgmCompiler::compile_network_with_vtree(
           proc_nodes++;
           std::cout << "Processed " << proc_nodes << " Remaining "
                     << nodes.size() - proc_nodes << std::endl;
+          if (mult_result.first == nullptr) {
+            return mult_result;
+          }
           total = mult_result.first;
           z *= mult_result.second;
         }
@@ -263,6 +273,9 @@ std::pair<PsddNode*, PsddParameter> PgmCompiler::compile_network_with_vtree(
     std::cout << "Processed " << proc_nodes << " Remaining "
               << nodes.size() - proc_nodes << std::endl;
     auto mult_result = m_pm->Multiply(a, b, /*flag_index*/ 0);
+    if (mult_result.first == nullptr) {
+      return mult_result;
+    }
     z *= mult_result.second;
     output_buffer.push_back(mult_result.first);
     if ((proc_nodes % gc_freq) == 0) {
@@ -293,6 +306,9 @@ std::pair<PsddNode*, PsddParameter> PgmCompiler::compile_network(
   auto factor_size = m_network->factor_size();
   for (auto i = 0; i < factor_size; i++) {
     auto compiled_cluster = compile_factor(i);
+    if (compiled_cluster.first == nullptr) {
+      return compiled_cluster;
+    }
     nodes.push_back(compiled_cluster.first);
     z = z * compiled_cluster.second;
     // set factor order
@@ -327,6 +343,9 @@ std::pair<PsddNode*, PsddParameter> PgmCompiler::compile_network(
                 << std::endl;
       auto mult_result =
           m_pm->Multiply(final_result, cur_node, /*flag_index*/ 0);
+      if (mult_result.first == nullptr) {
+        return mult_result;
+      }
       final_result = mult_result.first;
       z *= mult_result.second;
     }
@@ -354,6 +373,9 @@ std::pair<PsddNode*, PsddParameter> PgmCompiler::compile_network_dc(
   auto factor_size = m_network->factor_size();
   for (auto i = 0; i < factor_size; i++) {
     auto compiled_cluster = compile_factor(i);
+    if (compiled_cluster.first == nullptr) {
+      return compiled_cluster;
+    }
     nodes.push_back(compiled_cluster.first);
     z = z * compiled_cluster.second;
     // set factor order
@@ -403,6 +425,9 @@ std::pair<PsddNode*, PsddParameter> PgmCompiler::compile_network_dc(
     std::cout.width(15);
     std::cout << std::left << nodes.size() - proc_nodes << std::flush;
     auto mult_result = m_pm->Multiply(a, b, /*flag_index*/ 0);
+    if (mult_result.first == nullptr) {
+      return mult_result;
+    }
     z *= mult_result.second;
     nodes_to_mult.push_back(mult_result.first);
     if ((proc_nodes % gc_freq) == 0) {
-- 
2.43.0


From 59e85ea155060751a8941f06f925d3035d5dca7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:16 +0000
Subject: [PATCH 11/11] fix: csvparser.c keeps its line endings

---
 src/csvparser.c | 484 ++++++++++++++++++++++++------------------------
 1 file changed, 242 insertions(+), 242 deletions(-)

diff --git a/src/csvparser.c b/src/csvparser.c
index 4ea1624..4b1f7d6 100644
--- a/src/csvparser.c
+++ b/src/csvparser.c
@@ -1,242 +1,242 @@
-#include <stdlib.h>
-#include <string.h>
-#include <stdio.h>
-#include <errno.h>
-
-#include <psdd/csvparser.h>
-
-#ifdef __cplusplus
-extern "C" {
-#endif
-
-CsvParser *CsvParser_new(const char *filePath, const char *delimiter, int firstLineIsHeader) {
-  CsvParser *csvParser = (CsvParser *) malloc(sizeof(CsvParser));
-  if (filePath == NULL) {
-    csvParser->filePath_ = NULL;
-  } else {
-    int filePathLen = strlen(filePath);
-    csvParser->filePath_ = (char *) malloc((filePathLen + 1));
-    strcpy(csvParser->filePath_, filePath);
-  }
-  csvParser->firstLineIsHeader_ = firstLineIsHeader;
-  csvParser->errMsg_ = NULL;
-  if (delimiter == NULL) {
-    csvParser->delimiter_ = ',';
-  } else if (_CsvParser_delimiterIsAccepted(delimiter)) {
-    csvParser->delimiter_ = *delimiter;
-  } else {
-    csvParser->delimiter_ = '\0';
-  }
-  csvParser->header_ = NULL;
-  csvParser->fileHandler_ = NULL;
-  csvParser->fromString_ = 0;
-  csvParser->csvString_ = NULL;
-  csvParser->csvStringIter_ = 0;
-
-  return csvParser;
-}
-
-CsvParser *CsvParser_new_from_string(const char *csvString, const char *delimiter, int firstLineIsHeader) {
-  CsvParser *csvParser = CsvParser_new(NULL, delimiter, firstLineIsHeader);
-  csvParser->fromString_ = 1;
-  if (csvString != NULL) {
-    int csvStringLen = strlen(csvString);
-    csvParser->csvString_ = (char *) malloc(csvStringLen + 1);
-    strcpy(csvParser->csvString_, csvString);
-  }
-  return csvParser;
-}
-
-void CsvParser_destroy(CsvParser *csvParser) {
-  if (csvParser == NULL) {
-    return;
-  }
-  if (csvParser->filePath_ != NULL) {
-    free(csvParser->filePath_);
-  }
-  if (csvParser->errMsg_ != NULL) {
-    free(csvParser->errMsg_);
-  }
-  if (csvParser->fileHandler_ != NULL) {
-    fclose(csvParser->fileHandler_);
-  }
-  if (csvParser->header_ != NULL) {
-    CsvParser_destroy_row(csvParser->header_);
-  }
-  if (csvParser->csvString_ != NULL) {
-    free(csvParser->csvString_);
-  }
-  free(csvParser);
-}
-
-void CsvParser_destroy_row(CsvRow *csvRow) {
-  int i;
-  for (i = 0; i < csvRow->numOfFields_; i++) {
-    free(csvRow->fields_[i]);
-  }
-  free(csvRow->fields_);
-  free(csvRow);
-}
-
-const CsvRow *CsvParser_getHeader(CsvParser *csvParser) {
-  if (!csvParser->firstLineIsHeader_) {
-    _CsvParser_setErrorMessage(csvParser, "Cannot supply header, as current CsvParser object does not support header");
-    return NULL;
-  }
-  if (csvParser->header_ == NULL) {
-    csvParser->header_ = _CsvParser_getRow(csvParser);
-  }
-  return csvParser->header_;
-}
-
-CsvRow *CsvParser_getRow(CsvParser *csvParser) {
-  if (csvParser->firstLineIsHeader_ && csvParser->header_ == NULL) {
-    csvParser->header_ = _CsvParser_getRow(csvParser);
-  }
-  return _CsvParser_getRow(csvParser);
-}
-
-int CsvParser_getNumFields(const CsvRow *csvRow) {
-  return csvRow->numOfFields_;
-}
-
-const char **CsvParser_getFields(const CsvRow *csvRow) {
-  return (const char **) csvRow->fields_;
-}
-
-CsvRow *_CsvParser_getRow(CsvParser *csvParser) {
-  int numRowRealloc = 0;
-  int acceptedFields = 64;
-  int acceptedCharsInField = 64;
-  if (csvParser->filePath_ == NULL && (!csvParser->fromString_)) {
-    _CsvParser_setErrorMessage(csvParser, "Supplied CSV file path is NULL");
-    return NULL;
-  }
-  if (csvParser->csvString_ == NULL && csvParser->fromString_) {
-    _CsvParser_setErrorMessage(csvParser, "Supplied CSV string is NULL");
-    return NULL;
-  }
-  if (csvParser->delimiter_ == '\0') {
-    _CsvParser_setErrorMessage(csvParser, "Supplied delimiter is not supported");
-    return NULL;
-  }
-  if (!csvParser->fromString_) {
-    if (csvParser->fileHandler_ == NULL) {
-      csvParser->fileHandler_ = fopen(csvParser->filePath_, "r");
-      if (csvParser->fileHandler_ == NULL) {
-        int errorNum = errno;
-        const char *errStr = strerror(errorNum);
-        char *errMsg = (char *) malloc(1024 + strlen(errStr));
-        strcpy(errMsg, "");
-        sprintf(errMsg, "Error opening CSV file for reading: %s : %s", csvParser->filePath_, errStr);
-        _CsvParser_setErrorMessage(csvParser, errMsg);
-        free(errMsg);
-        return NULL;
-      }
-    }
-  }
-  CsvRow *csvRow = (CsvRow *) malloc(sizeof(CsvRow));
-  csvRow->fields_ = (char **) malloc(acceptedFields * sizeof(char *));
-  csvRow->numOfFields_ = 0;
-  int fieldIter = 0;
-  char *currField = (char *) malloc(acceptedCharsInField);
-  int inside_complex_field = 0;
-  int currFieldCharIter = 0;
-  int seriesOfQuotesLength = 0;
-  int lastCharIsQuote = 0;
-  int isEndOfFile = 0;
-  while (1) {
-    char currChar =
-        (csvParser->fromString_) ? csvParser->csvString_[csvParser->csvStringIter_] : fgetc(csvParser->fileHandler_);
-    int endOfFileIndicator;
-    if (csvParser->fromString_) {
-      endOfFileIndicator = (currChar == '\0');
-    } else {
-      endOfFileIndicator = feof(csvParser->fileHandler_) || ferror(csvParser->fileHandler_);
-    }
-    if (!endOfFileIndicator) {
-      csvParser->csvStringIter_++;
-    }
-    if (endOfFileIndicator) {
-      if (currFieldCharIter == 0 && fieldIter == 0) {
-        _CsvParser_setErrorMessage(csvParser, "Reached EOF");
-        free(currField);
-        CsvParser_destroy_row(csvRow);
-        return NULL;
-      }
-      currChar = '\n';
-      isEndOfFile = 1;
-    }
-    if (currChar == '\r') {
-      continue;
-    }
-    if (currFieldCharIter == 0 && !lastCharIsQuote) {
-      if (currChar == '\"') {
-        inside_complex_field = 1;
-        lastCharIsQuote = 1;
-        continue;
-      }
-    } else if (currChar == '\"') {
-      seriesOfQuotesLength++;
-      inside_complex_field = (seriesOfQuotesLength % 2 == 0);
-      if (inside_complex_field) {
-        currFieldCharIter--;
-      }
-    } else {
-      seriesOfQuotesLength = 0;
-    }
-    if (isEndOfFile || ((currChar == csvParser->delimiter_ || currChar == '\n') && !inside_complex_field)) {
-      currField[lastCharIsQuote && currFieldCharIter > 0 ? currFieldCharIter - 1 : currFieldCharIter] = '\0';
-      csvRow->fields_[fieldIter] = (char *) malloc(currFieldCharIter + 1);
-      strcpy(csvRow->fields_[fieldIter], currField);
-      free(currField);
-      csvRow->numOfFields_++;
-      if (currChar == '\n') {
-        return csvRow;
-      }
-      if (csvRow->numOfFields_ != 0 && csvRow->numOfFields_ % acceptedFields == 0) {
-        csvRow->fields_ = (char **) realloc(csvRow->fields_, ((numRowRealloc + 2) * acceptedFields) * sizeof(char *));
-        numRowRealloc++;
-      }
-      acceptedCharsInField = 64;
-      currField = (char *) malloc(acceptedCharsInField);
-      currFieldCharIter = 0;
-      fieldIter++;
-      inside_complex_field = 0;
-    } else {
-      currField[currFieldCharIter] = currChar;
-      currFieldCharIter++;
-      if (currFieldCharIter == acceptedCharsInField - 1) {
-        acceptedCharsInField *= 2;
-        currField = (char *) realloc(currField, acceptedCharsInField);
-      }
-    }
-    lastCharIsQuote = (currChar == '\"') ? 1 : 0;
-  }
-}
-
-int _CsvParser_delimiterIsAccepted(const char *delimiter) {
-  char actualDelimiter = *delimiter;
-  if (actualDelimiter == '\n' || actualDelimiter == '\r' || actualDelimiter == '\0' ||
-      actualDelimiter == '\"') {
-    return 0;
-  }
-  return 1;
-}
-
-void _CsvParser_setErrorMessage(CsvParser *csvParser, const char *errorMessage) {
-  if (csvParser->errMsg_ != NULL) {
-    free(csvParser->errMsg_);
-  }
-  int errMsgLen = strlen(errorMessage);
-  csvParser->errMsg_ = (char *) malloc(errMsgLen + 1);
-  strcpy(csvParser->errMsg_, errorMessage);
-}
-
-const char *CsvParser_getErrorMessage(CsvParser *csvParser) {
-  return csvParser->errMsg_;
-}
-
-#ifdef __cplusplus
-}
-#endif
+#include <stdlib.h>
+#include <string.h>
+#include <stdio.h>
+#include <errno.h>
+
+#include <psdd/csvparser.h>
+
+#ifdef __cplusplus
+extern "C" {
+#endif
+
+CsvParser *CsvParser_new(const char *filePath, const char *delimiter, int firstLineIsHeader) {
+  CsvParser *csvParser = (CsvParser *) malloc(sizeof(CsvParser));
+  if (filePath == NULL) {
+    csvParser->filePath_ = NULL;
+  } else {
+    int filePathLen = strlen(filePath);
+    csvParser->filePath_ = (char *) malloc((filePathLen + 1));
+    strcpy(csvParser->filePath_, filePath);
+  }
+  csvParser->firstLineIsHeader_ = firstLineIsHeader;
+  csvParser->errMsg_ = NULL;
+  if (delimiter == NULL) {
+    csvParser->delimiter_ = ',';
+  } else if (_CsvParser_delimiterIsAccepted(delimiter)) {
+    csvParser->delimiter_ = *delimiter;
+  } else {
+    csvParser->delimiter_ = '\0';
+  }
+  csvParser->header_ = NULL;
+  csvParser->fileHandler_ = NULL;
+  csvParser->fromString_ = 0;
+  csvParser->csvString_ = NULL;
+  csvParser->csvStringIter_ = 0;
+
+  return csvParser;
+}
+
+CsvParser *CsvParser_new_from_string(const char *csvString, const char *delimiter, int firstLineIsHeader) {
+  CsvParser *csvParser = CsvParser_new(NULL, delimiter, firstLineIsHeader);
+  csvParser->fromString_ = 1;
+  if (csvString != NULL) {
+    int csvStringLen = strlen(csvString);
+    csvParser->csvString_ = (char *) malloc(csvStringLen + 1);
+    strcpy(csvParser->csvString_, csvString);
+  }
+  return csvParser;
+}
+
+void CsvParser_destroy(CsvParser *csvParser) {
+  if (csvParser == NULL) {
+    return;
+  }
+  if (csvParser->filePath_ != NULL) {
+    free(csvParser->filePath_);
+  }
+  if (csvParser->errMsg_ != NULL) {
+    free(csvParser->errMsg_);
+  }
+  if (csvParser->fileHandler_ != NULL) {
+    fclose(csvParser->fileHandler_);
+  }
+  if (csvParser->header_ != NULL) {
+    CsvParser_destroy_row(csvParser->header_);
+  }
+  if (csvParser->csvString_ != NULL) {
+    free(csvParser->csvString_);
+  }
+  free(csvParser);
+}
+
+void CsvParser_destroy_row(CsvRow *csvRow) {
+  int i;
+  for (i = 0; i < csvRow->numOfFields_; i++) {
+    free(csvRow->fields_[i]);
+  }
+  free(csvRow->fields_);
+  free(csvRow);
+}
+
+const CsvRow *CsvParser_getHeader(CsvParser *csvParser) {
+  if (!csvParser->firstLineIsHeader_) {
+    _CsvParser_setErrorMessage(csvParser, "Cannot supply header, as current CsvParser object does not support header");
+    return NULL;
+  }
+  if (csvParser->header_ == NULL) {
+    csvParser->header_ = _CsvParser_getRow(csvParser);
+  }
+  return csvParser->header_;
+}
+
+CsvRow *CsvParser_getRow(CsvParser *csvParser) {
+  if (csvParser->firstLineIsHeader_ && csvParser->header_ == NULL) {
+    csvParser->header_ = _CsvParser_getRow(csvParser);
+  }
+  return _CsvParser_getRow(csvParser);
+}
+
+int CsvParser_getNumFields(const CsvRow *csvRow) {
+  return csvRow->numOfFields_;
+}
+
+const char **CsvParser_getFields(const CsvRow *csvRow) {
+  return (const char **) csvRow->fields_;
+}
+
+CsvRow *_CsvParser_getRow(CsvParser *csvParser) {
+  int numRowRealloc = 0;
+  int acceptedFields = 64;
+  int acceptedCharsInField = 64;
+  if (csvParser->filePath_ == NULL && (!csvParser->fromString_)) {
+    _CsvParser_setErrorMessage(csvParser, "Supplied CSV file path is NULL");
+    return NULL;
+  }
+  if (csvParser->csvString_ == NULL && csvParser->fromString_) {
+    _CsvParser_setErrorMessage(csvParser, "Supplied CSV string is NULL");
+    return NULL;
+  }
+  if (csvParser->delimiter_ == '\0') {
+    _CsvParser_setErrorMessage(csvParser, "Supplied delimiter is not supported");
+    return NULL;
+  }
+  if (!csvParser->fromString_) {
+    if (csvParser->fileHandler_ == NULL) {
+      csvParser->fileHandler_ = fopen(csvParser->filePath_, "r");
+      if (csvParser->fileHandler_ == NULL) {
+        int errorNum = errno;
+        const char *errStr = strerror(errorNum);
+        char *errMsg = (char *) malloc(1024 + strlen(errStr));
+        strcpy(errMsg, "");
+        sprintf(errMsg, "Error opening CSV file for reading: %s : %s", csvParser->filePath_, errStr);
+        _CsvParser_setErrorMessage(csvParser, errMsg);
+        free(errMsg);
+        return NULL;
+      }
+    }
+  }
+  CsvRow *csvRow = (CsvRow *) malloc(sizeof(CsvRow));
+  csvRow->fields_ = (char **) malloc(acceptedFields * sizeof(char *));
+  csvRow->numOfFields_ = 0;
+  int fieldIter = 0;
+  char *currField = (char *) malloc(acceptedCharsInField);
+  int inside_complex_field = 0;
+  int currFieldCharIter = 0;
+  int seriesOfQuotesLength = 0;
+  int lastCharIsQuote = 0;
+  int isEndOfFile = 0;
+  while (1) {
+    char currChar =
+        (csvParser->fromString_) ? csvParser->csvString_[csvParser->csvStringIter_] : fgetc(csvParser->fileHandler_);
+    int endOfFileIndicator;
+    if (csvParser->fromString_) {
+      endOfFileIndicator = (currChar == '\0');
+    } else {
+      endOfFileIndicator = feof(csvParser->fileHandler_) || ferror(csvParser->fileHandler_);
+    }
+    if (!endOfFileIndicator) {
+      csvParser->csvStringIter_++;
+    }
+    if (endOfFileIndicator) {
+      if (currFieldCharIter == 0 && fieldIter == 0) {
+        _CsvParser_setErrorMessage(csvParser, "Reached EOF");
+        free(currField);
+        CsvParser_destroy_row(csvRow);
+        return NULL;
+      }
+      currChar = '\n';
+      isEndOfFile = 1;
+    }
+    if (currChar == '\r') {
+      continue;
+    }
+    if (currFieldCharIter == 0 && !lastCharIsQuote) {
+      if (currChar == '\"') {
+        inside_complex_field = 1;
+        lastCharIsQuote = 1;
+        continue;
+      }
+    } else if (currChar == '\"') {
+      seriesOfQuotesLength++;
+      inside_complex_field = (seriesOfQuotesLength % 2 == 0);
+      if (inside_complex_field) {
+        currFieldCharIter--;
+      }
+    } else {
+      seriesOfQuotesLength = 0;
+    }
+    if (isEndOfFile || ((currChar == csvParser->delimiter_ || currChar == '\n') && !inside_complex_field)) {
+      currField[lastCharIsQuote && currFieldCharIter > 0 ? currFieldCharIter - 1 : currFieldCharIter] = '\0';
+      csvRow->fields_[fieldIter] = (char *) malloc(currFieldCharIter + 1);
+      strcpy(csvRow->fields_[fieldIter], currField);
+      free(currField);
+      csvRow->numOfFields_++;
+      if (currChar == '\n') {
+        return csvRow;
+      }
+      if (csvRow->numOfFields_ != 0 && csvRow->numOfFields_ % acceptedFields == 0) {
+        csvRow->fields_ = (char **) realloc(csvRow->fields_, ((numRowRealloc + 2) * acceptedFields) * sizeof(char *));
+        numRowRealloc++;
+      }
+      acceptedCharsInField = 64;
+      currField = (char *) malloc(acceptedCharsInField);
+      currFieldCharIter = 0;
+      fieldIter++;
+      inside_complex_field = 0;
+    } else {
+      currField[currFieldCharIter] = currChar;
+      currFieldCharIter++;
+      if (currFieldCharIter == acceptedCharsInField - 1) {
+        acceptedCharsInField *= 2;
+        currField = (char *) realloc(currField, acceptedCharsInField);
+      }
+    }
+    lastCharIsQuote = (currChar == '\"') ? 1 : 0;
+  }
+}
+
+int _CsvParser_delimiterIsAccepted(const char *delimiter) {
+  char actualDelimiter = *delimiter;
+  if (actualDelimiter == '\n' || actualDelimiter == '\r' || actualDelimiter == '\0' ||
+      actualDelimiter == '\"') {
+    return 0;
+  }
+  return 1;
+}
+
+void _CsvParser_setErrorMessage(CsvParser *csvParser, const char *errorMessage) {
+  if (csvParser->errMsg_ != NULL) {
+    free(csvParser->errMsg_);
+  }
+  int errMsgLen = strlen(errorMessage);
+  csvParser->errMsg_ = (char *) malloc(errMsgLen + 1);
+  strcpy(csvParser->errMsg_, errorMessage);
+}
+
+const char *CsvParser_getErrorMessage(CsvParser *csvParser) {
+  return csvParser->errMsg_;
+}
+
+#ifdef __cplusplus
+}
+#endif
-- 
2.43.0

