From ab5a023b62f14cafca4d373711ba875b5f718bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:47 +0000
Subject: [PATCH 01/64] fix: reject incomplete UUID texts instead of reading
 them as some UUID

---
 ragel/uuid-parser.rl | 2 +-
 ron/uuid-parser.cc   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ragel/uuid-parser.rl b/ragel/uuid-parser.rl
index eceec05..3753ab5 100644
--- a/ragel/uuid-parser.rl
+++ b/ragel/uuid-parser.rl
@@ -25,7 +25,7 @@ namespace ron {
             write exec;
         }%%
 
-        if (cs && value.size()<=Word::MAX_BASE64_SIZE && origin.size()<=Word::MAX_BASE64_SIZE) {
+        if (cs >= UUID_first_final && value.size()<=Word::MAX_BASE64_SIZE && origin.size()<=Word::MAX_BASE64_SIZE) {
             this->value = Word{ABC[variety], value};
             this->origin = Word{ABC[version], origin};
         } else {
diff --git a/ron/uuid-parser.cc b/ron/uuid-parser.cc
index 6b9cc52..b830b39 100644
--- a/ron/uuid-parser.cc
+++ b/ron/uuid-parser.cc
@@ -247,7 +247,7 @@ Uuid::Uuid(Slice data) noexcept {
 
 #line 26 "ragel/uuid-parser.rl"
 
-    if (cs && value.size() <= Word::MAX_BASE64_SIZE &&
+    if (cs >= UUID_first_final && value.size() <= Word::MAX_BASE64_SIZE &&
         origin.size() <= Word::MAX_BASE64_SIZE) {
         this->value = Word{ABC[variety], value};
         this->origin = Word{ABC[version], origin};
-- 
2.43.0


From 9054a4973a3cede7960f05056f636dcb2c1e9284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:18 +0000
Subject: [PATCH 02/64] fix: report over-long numbers and id words as errors
 instead of ending the frame early

---
 ragel/text-grammar.rl |  18 +-
 ragel/text-parser.rl  |   3 +
 ron/text-parser.cc    | 918 +++++++++++++-----------------------------
 3 files changed, 299 insertions(+), 640 deletions(-)

diff --git a/ragel/text-grammar.rl b/ragel/text-grammar.rl
index ef32bff..bb71f3f 100644
--- a/ragel/text-grammar.rl
+++ b/ragel/text-grammar.rl
@@ -7,15 +7,17 @@
     include UTF8 "./utf8-grammar.rl";
 
     action end_id {
-        op_[0] = Uuid{variety, value, version, origin};
+        if (word_too_big(value) || word_too_big(origin)) { malformed = true; }
+        else op_[0] = Uuid{variety, value, version, origin};
     }
     action end_ref {
-        op_[1] = Uuid{variety, value, version, origin};
+        if (word_too_big(value) || word_too_big(origin)) { malformed = true; }
+        else op_[1] = Uuid{variety, value, version, origin};
     }
     action begin_int { intb = p; }
     action end_int {
         Range range{buffer, intb, p};
-        if (range.size()>=19 && int_too_big(Slice{intb,p})) { cs = 0; fbreak; }
+        if (range.size()>=19 && int_too_big(Slice{intb,p})) { malformed = true; }
         op_.emplace_back(INT, range);
         uuidb = nullptr; // sabotage uuid
     }
@@ -27,17 +29,17 @@
     action begin_float { floatb = p; }
     action end_float { 
         Range range{buffer, floatb, p};
-        if (range.size() > 24) { cs = 0; fbreak; }
+        if (range.size() > 24) { malformed = true; }
         op_.emplace_back(FLOAT, range);
     }
     action end_quoted_uuid {
-        if (word_too_big(value) || word_too_big(origin)) { cs = 0; fbreak; }
-        op_.push_back(Uuid{variety, value, version, origin}); 
+        if (word_too_big(value) || word_too_big(origin)) { malformed = true; }
+        else op_.push_back(Uuid{variety, value, version, origin}); 
     }
     action end_bare_uuid { 
         if (uuidb!=nullptr) { // " 123 " is an int, not an UUID
-            if (word_too_big(value) || word_too_big(origin)) { cs = 0; fbreak; }
-            op_.push_back(Uuid{variety, value, version, origin}); 
+            if (word_too_big(value) || word_too_big(origin)) { malformed = true; }
+            else op_.push_back(Uuid{variety, value, version, origin}); 
         }
     }
     action end_cp {
diff --git a/ragel/text-parser.rl b/ragel/text-parser.rl
index cb66f71..f488b38 100644
--- a/ragel/text-parser.rl
+++ b/ragel/text-parser.rl
@@ -62,6 +62,7 @@ Status TextFrame::Cursor::Next () {
     char term{0};
     Slice value, origin;
     char variety{0}, version{0};
+    bool malformed{false};  // a value is out of range
 
     Uuid prev = atoms.empty() ? Uuid::NIL : A2U(atoms[0]);
     atoms.clear();
@@ -76,6 +77,8 @@ Status TextFrame::Cursor::Next () {
     }%%
     data().Consume(p-pb);
 
+    if (malformed) cs = RON_error;
+
     //std::cerr << "ending with [" <<p<<"] state "<<cs<<" "<<op_.size()<<" atoms "<<(pe-p)<<" bytes left, prev_id_ "<<prev_id_.str()<<'\n';
 
     if (term && cs!=RON_error) {
diff --git a/ron/text-parser.cc b/ron/text-parser.cc
index 4ca2a7c..2cc5fcc 100644
--- a/ron/text-parser.cc
+++ b/ron/text-parser.cc
@@ -74,6 +74,7 @@ Status TextFrame::Cursor::Next() {
     char term{0};
     Slice value, origin;
     char variety{0}, version{0};
+    bool malformed{false};  // a value is out of range
 
     Uuid prev = atoms.empty() ? Uuid::NIL : A2U(atoms[0]);
     atoms.clear();
@@ -109,12 +110,7 @@ Status TextFrame::Cursor::Next() {
         {
             Range range{buffer, intb, p};
             if (range.size() >= 19 && int_too_big(Slice{intb, p})) {
-                cs = 0;
-                {
-                    p++;
-                    cs = 74;
-                    goto _out;
-                }
+                malformed = true;
             }
             op_.emplace_back(INT, range);
             uuidb = nullptr;  // sabotage uuid
@@ -134,12 +130,7 @@ Status TextFrame::Cursor::Next() {
         {
             Range range{buffer, floatb, p};
             if (range.size() > 24) {
-                cs = 0;
-                {
-                    p++;
-                    cs = 74;
-                    goto _out;
-                }
+                malformed = true;
             }
             op_.emplace_back(FLOAT, range);
         }
@@ -163,14 +154,8 @@ Status TextFrame::Cursor::Next() {
 #line 33 "ragel/./text-grammar.rl"
             {
                 if (word_too_big(value) || word_too_big(origin)) {
-                    cs = 0;
-                    {
-                        p++;
-                        cs = 74;
-                        goto _out;
-                    }
-                }
-                op_.push_back(Uuid{variety, value, version, origin});
+                    malformed = true;
+                } else op_.push_back(Uuid{variety, value, version, origin});
             }
 #line 48 "ragel/./text-grammar.rl"
             {
@@ -192,14 +177,8 @@ Status TextFrame::Cursor::Next() {
 #line 33 "ragel/./text-grammar.rl"
             {
                 if (word_too_big(value) || word_too_big(origin)) {
-                    cs = 0;
-                    {
-                        p++;
-                        cs = 74;
-                        goto _out;
-                    }
-                }
-                op_.push_back(Uuid{variety, value, version, origin});
+                    malformed = true;
+                } else op_.push_back(Uuid{variety, value, version, origin});
             }
 #line 48 "ragel/./text-grammar.rl"
             {
@@ -216,12 +195,7 @@ Status TextFrame::Cursor::Next() {
         {
             Range range{buffer, intb, p};
             if (range.size() >= 19 && int_too_big(Slice{intb, p})) {
-                cs = 0;
-                {
-                    p++;
-                    cs = 74;
-                    goto _out;
-                }
+                malformed = true;
             }
             op_.emplace_back(INT, range);
             uuidb = nullptr;  // sabotage uuid
@@ -234,14 +208,8 @@ Status TextFrame::Cursor::Next() {
             {
                 if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                     if (word_too_big(value) || word_too_big(origin)) {
-                        cs = 0;
-                        {
-                            p++;
-                            cs = 74;
-                            goto _out;
-                        }
-                    }
-                    op_.push_back(Uuid{variety, value, version, origin});
+                        malformed = true;
+                    } else op_.push_back(Uuid{variety, value, version, origin});
                 }
             }
 #line 48 "ragel/./text-grammar.rl"
@@ -265,14 +233,8 @@ Status TextFrame::Cursor::Next() {
             {
                 if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                     if (word_too_big(value) || word_too_big(origin)) {
-                        cs = 0;
-                        {
-                            p++;
-                            cs = 74;
-                            goto _out;
-                        }
-                    }
-                    op_.push_back(Uuid{variety, value, version, origin});
+                        malformed = true;
+                    } else op_.push_back(Uuid{variety, value, version, origin});
                 }
             }
 #line 48 "ragel/./text-grammar.rl"
@@ -296,14 +258,8 @@ Status TextFrame::Cursor::Next() {
             {
                 if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                     if (word_too_big(value) || word_too_big(origin)) {
-                        cs = 0;
-                        {
-                            p++;
-                            cs = 74;
-                            goto _out;
-                        }
-                    }
-                    op_.push_back(Uuid{variety, value, version, origin});
+                        malformed = true;
+                    } else op_.push_back(Uuid{variety, value, version, origin});
                 }
             }
 #line 48 "ragel/./text-grammar.rl"
@@ -321,12 +277,7 @@ Status TextFrame::Cursor::Next() {
         {
             Range range{buffer, floatb, p};
             if (range.size() > 24) {
-                cs = 0;
-                {
-                    p++;
-                    cs = 74;
-                    goto _out;
-                }
+                malformed = true;
             }
             op_.emplace_back(FLOAT, range);
         }
@@ -338,14 +289,8 @@ Status TextFrame::Cursor::Next() {
             {
                 if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                     if (word_too_big(value) || word_too_big(origin)) {
-                        cs = 0;
-                        {
-                            p++;
-                            cs = 74;
-                            goto _out;
-                        }
-                    }
-                    op_.push_back(Uuid{variety, value, version, origin});
+                        malformed = true;
+                    } else op_.push_back(Uuid{variety, value, version, origin});
                 }
             }
 #line 48 "ragel/./text-grammar.rl"
@@ -363,12 +308,7 @@ Status TextFrame::Cursor::Next() {
         {
             Range range{buffer, floatb, p};
             if (range.size() > 24) {
-                cs = 0;
-                {
-                    p++;
-                    cs = 74;
-                    goto _out;
-                }
+                malformed = true;
             }
             op_.emplace_back(FLOAT, range);
         }
@@ -380,14 +320,8 @@ Status TextFrame::Cursor::Next() {
             {
                 if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                     if (word_too_big(value) || word_too_big(origin)) {
-                        cs = 0;
-                        {
-                            p++;
-                            cs = 74;
-                            goto _out;
-                        }
-                    }
-                    op_.push_back(Uuid{variety, value, version, origin});
+                        malformed = true;
+                    } else op_.push_back(Uuid{variety, value, version, origin});
                 }
             }
 #line 48 "ragel/./text-grammar.rl"
@@ -408,7 +342,11 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
             {}
 #line 9 "ragel/./text-grammar.rl"
-            { op_[0] = Uuid{variety, value, version, origin}; }
+            {
+                if (word_too_big(value) || word_too_big(origin)) {
+                    malformed = true;
+                } else op_[0] = Uuid{variety, value, version, origin};
+            }
 #line 48 "ragel/./text-grammar.rl"
             {
                 term = (*p);
@@ -427,7 +365,11 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
             {}
 #line 12 "ragel/./text-grammar.rl"
-            { op_[1] = Uuid{variety, value, version, origin}; }
+            {
+                if (word_too_big(value) || word_too_big(origin)) {
+                    malformed = true;
+                } else op_[1] = Uuid{variety, value, version, origin};
+            }
 #line 48 "ragel/./text-grammar.rl"
             {
                 term = (*p);
@@ -446,7 +388,11 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
             {}
 #line 12 "ragel/./text-grammar.rl"
-            { op_[1] = Uuid{variety, value, version, origin}; }
+            {
+                if (word_too_big(value) || word_too_big(origin)) {
+                    malformed = true;
+                } else op_[1] = Uuid{variety, value, version, origin};
+            }
 #line 48 "ragel/./text-grammar.rl"
             {
                 term = (*p);
@@ -465,7 +411,11 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
             {}
 #line 9 "ragel/./text-grammar.rl"
-            { op_[0] = Uuid{variety, value, version, origin}; }
+            {
+                if (word_too_big(value) || word_too_big(origin)) {
+                    malformed = true;
+                } else op_[0] = Uuid{variety, value, version, origin};
+            }
 #line 48 "ragel/./text-grammar.rl"
             {
                 term = (*p);
@@ -535,12 +485,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, intb, p};
                 if (range.size() >= 19 && int_too_big(Slice{intb, p})) {
-                    cs = 0;
-                    {
-                        p++;
-                        cs = 1;
-                        goto _out;
-                    }
+                    malformed = true;
                 }
                 op_.emplace_back(INT, range);
                 uuidb = nullptr;  // sabotage uuid
@@ -551,12 +496,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
-                    cs = 0;
-                    {
-                        p++;
-                        cs = 1;
-                        goto _out;
-                    }
+                    malformed = true;
                 }
                 op_.emplace_back(FLOAT, range);
             }
@@ -571,14 +511,8 @@ Status TextFrame::Cursor::Next() {
 #line 33 "ragel/./text-grammar.rl"
                 {
                     if (word_too_big(value) || word_too_big(origin)) {
-                        cs = 0;
-                        {
-                            p++;
-                            cs = 1;
-                            goto _out;
-                        }
-                    }
-                    op_.push_back(Uuid{variety, value, version, origin});
+                        malformed = true;
+                    } else op_.push_back(Uuid{variety, value, version, origin});
                 }
                 goto st1;
             tr99 :
@@ -591,14 +525,8 @@ Status TextFrame::Cursor::Next() {
 #line 33 "ragel/./text-grammar.rl"
                 {
                     if (word_too_big(value) || word_too_big(origin)) {
-                        cs = 0;
-                        {
-                            p++;
-                            cs = 1;
-                            goto _out;
-                        }
-                    }
-                    op_.push_back(Uuid{variety, value, version, origin});
+                        malformed = true;
+                    } else op_.push_back(Uuid{variety, value, version, origin});
                 }
                 goto st1;
             tr115 :
@@ -606,12 +534,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, intb, p};
                 if (range.size() >= 19 && int_too_big(Slice{intb, p})) {
-                    cs = 0;
-                    {
-                        p++;
-                        cs = 1;
-                        goto _out;
-                    }
+                    malformed = true;
                 }
                 op_.emplace_back(INT, range);
                 uuidb = nullptr;  // sabotage uuid
@@ -624,14 +547,8 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
-                            {
-                                p++;
-                                cs = 1;
-                                goto _out;
-                            }
-                        }
-                        op_.push_back(Uuid{variety, value, version, origin});
+                            malformed = true;
+                        } else op_.push_back(Uuid{variety, value, version, origin});
                     }
                 }
                 goto st1;
@@ -646,14 +563,8 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
-                            {
-                                p++;
-                                cs = 1;
-                                goto _out;
-                            }
-                        }
-                        op_.push_back(Uuid{variety, value, version, origin});
+                            malformed = true;
+                        } else op_.push_back(Uuid{variety, value, version, origin});
                     }
                 }
                 goto st1;
@@ -668,14 +579,8 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
-                            {
-                                p++;
-                                cs = 1;
-                                goto _out;
-                            }
-                        }
-                        op_.push_back(Uuid{variety, value, version, origin});
+                            malformed = true;
+                        } else op_.push_back(Uuid{variety, value, version, origin});
                     }
                 }
                 goto st1;
@@ -684,12 +589,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
-                    cs = 0;
-                    {
-                        p++;
-                        cs = 1;
-                        goto _out;
-                    }
+                    malformed = true;
                 }
                 op_.emplace_back(FLOAT, range);
             }
@@ -701,14 +601,8 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
-                            {
-                                p++;
-                                cs = 1;
-                                goto _out;
-                            }
-                        }
-                        op_.push_back(Uuid{variety, value, version, origin});
+                            malformed = true;
+                        } else op_.push_back(Uuid{variety, value, version, origin});
                     }
                 }
                 goto st1;
@@ -717,12 +611,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
-                    cs = 0;
-                    {
-                        p++;
-                        cs = 1;
-                        goto _out;
-                    }
+                    malformed = true;
                 }
                 op_.emplace_back(FLOAT, range);
             }
@@ -734,14 +623,8 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
-                            {
-                                p++;
-                                cs = 1;
-                                goto _out;
-                            }
-                        }
-                        op_.push_back(Uuid{variety, value, version, origin});
+                            malformed = true;
+                        } else op_.push_back(Uuid{variety, value, version, origin});
                     }
                 }
                 goto st1;
@@ -753,7 +636,11 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 9 "ragel/./text-grammar.rl"
-                { op_[0] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        malformed = true;
+                    } else op_[0] = Uuid{variety, value, version, origin};
+                }
                 goto st1;
             tr195 :
 #line 14 "ragel/././uuid-grammar.rl"
@@ -763,7 +650,11 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 12 "ragel/./text-grammar.rl"
-                { op_[1] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        malformed = true;
+                    } else op_[1] = Uuid{variety, value, version, origin};
+                }
                 goto st1;
             tr205 :
 #line 17 "ragel/././uuid-grammar.rl"
@@ -773,7 +664,11 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 12 "ragel/./text-grammar.rl"
-                { op_[1] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        malformed = true;
+                    } else op_[1] = Uuid{variety, value, version, origin};
+                }
                 goto st1;
             tr215 :
 #line 17 "ragel/././uuid-grammar.rl"
@@ -783,7 +678,11 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 9 "ragel/./text-grammar.rl"
-                { op_[0] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        malformed = true;
+                    } else op_[0] = Uuid{variety, value, version, origin};
+                }
                 goto st1;
             st1:
                 if (++p == pe) goto _test_eof1;
@@ -962,12 +861,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, intb, p};
                 if (range.size() >= 19 && int_too_big(Slice{intb, p})) {
-                    cs = 0;
-                    {
-                        p++;
-                        cs = 4;
-                        goto _out;
-                    }
+                    malformed = true;
                 }
                 op_.emplace_back(INT, range);
                 uuidb = nullptr;  // sabotage uuid
@@ -985,12 +879,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
-                    cs = 0;
-                    {
-                        p++;
-                        cs = 4;
-                        goto _out;
-                    }
+                    malformed = true;
                 }
                 op_.emplace_back(FLOAT, range);
             }
@@ -1012,14 +901,8 @@ Status TextFrame::Cursor::Next() {
 #line 33 "ragel/./text-grammar.rl"
                 {
                     if (word_too_big(value) || word_too_big(origin)) {
-                        cs = 0;
-                        {
-                            p++;
-                            cs = 4;
-                            goto _out;
-                        }
-                    }
-                    op_.push_back(Uuid{variety, value, version, origin});
+                        malformed = true;
+                    } else op_.push_back(Uuid{variety, value, version, origin});
                 }
 #line 52 "ragel/./text-grammar.rl"
                 {
@@ -1039,14 +922,8 @@ Status TextFrame::Cursor::Next() {
 #line 33 "ragel/./text-grammar.rl"
                 {
                     if (word_too_big(value) || word_too_big(origin)) {
-                        cs = 0;
-                        {
-                            p++;
-                            cs = 4;
-                            goto _out;
-                        }
-                    }
-                    op_.push_back(Uuid{variety, value, version, origin});
+                        malformed = true;
+                    } else op_.push_back(Uuid{variety, value, version, origin});
                 }
 #line 52 "ragel/./text-grammar.rl"
                 {
@@ -1061,12 +938,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, intb, p};
                 if (range.size() >= 19 && int_too_big(Slice{intb, p})) {
-                    cs = 0;
-                    {
-                        p++;
-                        cs = 4;
-                        goto _out;
-                    }
+                    malformed = true;
                 }
                 op_.emplace_back(INT, range);
                 uuidb = nullptr;  // sabotage uuid
@@ -1079,14 +951,8 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
-                            {
-                                p++;
-                                cs = 4;
-                                goto _out;
-                            }
-                        }
-                        op_.push_back(Uuid{variety, value, version, origin});
+                            malformed = true;
+                        } else op_.push_back(Uuid{variety, value, version, origin});
                     }
                 }
 #line 52 "ragel/./text-grammar.rl"
@@ -1108,14 +974,8 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
-                            {
-                                p++;
-                                cs = 4;
-                                goto _out;
-                            }
-                        }
-                        op_.push_back(Uuid{variety, value, version, origin});
+                            malformed = true;
+                        } else op_.push_back(Uuid{variety, value, version, origin});
                     }
                 }
 #line 52 "ragel/./text-grammar.rl"
@@ -1137,14 +997,8 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
-                            {
-                                p++;
-                                cs = 4;
-                                goto _out;
-                            }
-                        }
-                        op_.push_back(Uuid{variety, value, version, origin});
+                            malformed = true;
+                        } else op_.push_back(Uuid{variety, value, version, origin});
                     }
                 }
 #line 52 "ragel/./text-grammar.rl"
@@ -1160,12 +1014,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
-                    cs = 0;
-                    {
-                        p++;
-                        cs = 4;
-                        goto _out;
-                    }
+                    malformed = true;
                 }
                 op_.emplace_back(FLOAT, range);
             }
@@ -1177,14 +1026,8 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
-                            {
-                                p++;
-                                cs = 4;
-                                goto _out;
-                            }
-                        }
-                        op_.push_back(Uuid{variety, value, version, origin});
+                            malformed = true;
+                        } else op_.push_back(Uuid{variety, value, version, origin});
                     }
                 }
 #line 52 "ragel/./text-grammar.rl"
@@ -1200,12 +1043,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
-                    cs = 0;
-                    {
-                        p++;
-                        cs = 4;
-                        goto _out;
-                    }
+                    malformed = true;
                 }
                 op_.emplace_back(FLOAT, range);
             }
@@ -1217,14 +1055,8 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
-                            {
-                                p++;
-                                cs = 4;
-                                goto _out;
-                            }
-                        }
-                        op_.push_back(Uuid{variety, value, version, origin});
+                            malformed = true;
+                        } else op_.push_back(Uuid{variety, value, version, origin});
                     }
                 }
 #line 52 "ragel/./text-grammar.rl"
@@ -1243,7 +1075,11 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 12 "ragel/./text-grammar.rl"
-                { op_[1] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        malformed = true;
+                    } else op_[1] = Uuid{variety, value, version, origin};
+                }
 #line 52 "ragel/./text-grammar.rl"
                 {
                     if ((*p) == '\n') {
@@ -1260,7 +1096,11 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 12 "ragel/./text-grammar.rl"
-                { op_[1] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        malformed = true;
+                    } else op_[1] = Uuid{variety, value, version, origin};
+                }
 #line 52 "ragel/./text-grammar.rl"
                 {
                     if ((*p) == '\n') {
@@ -1330,12 +1170,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, intb, p};
                 if (range.size() >= 19 && int_too_big(Slice{intb, p})) {
-                    cs = 0;
-                    {
-                        p++;
-                        cs = 5;
-                        goto _out;
-                    }
+                    malformed = true;
                 }
                 op_.emplace_back(INT, range);
                 uuidb = nullptr;  // sabotage uuid
@@ -1346,12 +1181,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
-                    cs = 0;
-                    {
-                        p++;
-                        cs = 5;
-                        goto _out;
-                    }
+                    malformed = true;
                 }
                 op_.emplace_back(FLOAT, range);
             }
@@ -1366,14 +1196,8 @@ Status TextFrame::Cursor::Next() {
 #line 33 "ragel/./text-grammar.rl"
                 {
                     if (word_too_big(value) || word_too_big(origin)) {
-                        cs = 0;
-                        {
-                            p++;
-                            cs = 5;
-                            goto _out;
-                        }
-                    }
-                    op_.push_back(Uuid{variety, value, version, origin});
+                        malformed = true;
+                    } else op_.push_back(Uuid{variety, value, version, origin});
                 }
                 goto st5;
             tr100 :
@@ -1386,14 +1210,8 @@ Status TextFrame::Cursor::Next() {
 #line 33 "ragel/./text-grammar.rl"
                 {
                     if (word_too_big(value) || word_too_big(origin)) {
-                        cs = 0;
-                        {
-                            p++;
-                            cs = 5;
-                            goto _out;
-                        }
-                    }
-                    op_.push_back(Uuid{variety, value, version, origin});
+                        malformed = true;
+                    } else op_.push_back(Uuid{variety, value, version, origin});
                 }
                 goto st5;
             tr116 :
@@ -1401,12 +1219,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, intb, p};
                 if (range.size() >= 19 && int_too_big(Slice{intb, p})) {
-                    cs = 0;
-                    {
-                        p++;
-                        cs = 5;
-                        goto _out;
-                    }
+                    malformed = true;
                 }
                 op_.emplace_back(INT, range);
                 uuidb = nullptr;  // sabotage uuid
@@ -1419,14 +1232,8 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
-                            {
-                                p++;
-                                cs = 5;
-                                goto _out;
-                            }
-                        }
-                        op_.push_back(Uuid{variety, value, version, origin});
+                            malformed = true;
+                        } else op_.push_back(Uuid{variety, value, version, origin});
                     }
                 }
                 goto st5;
@@ -1441,14 +1248,8 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
-                            {
-                                p++;
-                                cs = 5;
-                                goto _out;
-                            }
-                        }
-                        op_.push_back(Uuid{variety, value, version, origin});
+                            malformed = true;
+                        } else op_.push_back(Uuid{variety, value, version, origin});
                     }
                 }
                 goto st5;
@@ -1463,14 +1264,8 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
-                            {
-                                p++;
-                                cs = 5;
-                                goto _out;
-                            }
-                        }
-                        op_.push_back(Uuid{variety, value, version, origin});
+                            malformed = true;
+                        } else op_.push_back(Uuid{variety, value, version, origin});
                     }
                 }
                 goto st5;
@@ -1479,12 +1274,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
-                    cs = 0;
-                    {
-                        p++;
-                        cs = 5;
-                        goto _out;
-                    }
+                    malformed = true;
                 }
                 op_.emplace_back(FLOAT, range);
             }
@@ -1496,14 +1286,8 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
-                            {
-                                p++;
-                                cs = 5;
-                                goto _out;
-                            }
-                        }
-                        op_.push_back(Uuid{variety, value, version, origin});
+                            malformed = true;
+                        } else op_.push_back(Uuid{variety, value, version, origin});
                     }
                 }
                 goto st5;
@@ -1512,12 +1296,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
-                    cs = 0;
-                    {
-                        p++;
-                        cs = 5;
-                        goto _out;
-                    }
+                    malformed = true;
                 }
                 op_.emplace_back(FLOAT, range);
             }
@@ -1529,14 +1308,8 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
-                            {
-                                p++;
-                                cs = 5;
-                                goto _out;
-                            }
-                        }
-                        op_.push_back(Uuid{variety, value, version, origin});
+                            malformed = true;
+                        } else op_.push_back(Uuid{variety, value, version, origin});
                     }
                 }
                 goto st5;
@@ -1548,7 +1321,11 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 9 "ragel/./text-grammar.rl"
-                { op_[0] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        malformed = true;
+                    } else op_[0] = Uuid{variety, value, version, origin};
+                }
                 goto st5;
             tr196 :
 #line 14 "ragel/././uuid-grammar.rl"
@@ -1558,7 +1335,11 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 12 "ragel/./text-grammar.rl"
-                { op_[1] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        malformed = true;
+                    } else op_[1] = Uuid{variety, value, version, origin};
+                }
                 goto st5;
             tr206 :
 #line 17 "ragel/././uuid-grammar.rl"
@@ -1568,7 +1349,11 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 12 "ragel/./text-grammar.rl"
-                { op_[1] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        malformed = true;
+                    } else op_[1] = Uuid{variety, value, version, origin};
+                }
                 goto st5;
             tr216 :
 #line 17 "ragel/././uuid-grammar.rl"
@@ -1578,7 +1363,11 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 9 "ragel/./text-grammar.rl"
-                { op_[0] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        malformed = true;
+                    } else op_[0] = Uuid{variety, value, version, origin};
+                }
                 goto st5;
             st5:
                 if (++p == pe) goto _test_eof5;
@@ -2195,12 +1984,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, intb, p};
                 if (range.size() >= 19 && int_too_big(Slice{intb, p})) {
-                    cs = 0;
-                    {
-                        p++;
-                        cs = 25;
-                        goto _out;
-                    }
+                    malformed = true;
                 }
                 op_.emplace_back(INT, range);
                 uuidb = nullptr;  // sabotage uuid
@@ -2211,12 +1995,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
-                    cs = 0;
-                    {
-                        p++;
-                        cs = 25;
-                        goto _out;
-                    }
+                    malformed = true;
                 }
                 op_.emplace_back(FLOAT, range);
             }
@@ -2231,14 +2010,8 @@ Status TextFrame::Cursor::Next() {
 #line 33 "ragel/./text-grammar.rl"
                 {
                     if (word_too_big(value) || word_too_big(origin)) {
-                        cs = 0;
-                        {
-                            p++;
-                            cs = 25;
-                            goto _out;
-                        }
-                    }
-                    op_.push_back(Uuid{variety, value, version, origin});
+                        malformed = true;
+                    } else op_.push_back(Uuid{variety, value, version, origin});
                 }
                 goto st25;
             tr102 :
@@ -2251,14 +2024,8 @@ Status TextFrame::Cursor::Next() {
 #line 33 "ragel/./text-grammar.rl"
                 {
                     if (word_too_big(value) || word_too_big(origin)) {
-                        cs = 0;
-                        {
-                            p++;
-                            cs = 25;
-                            goto _out;
-                        }
-                    }
-                    op_.push_back(Uuid{variety, value, version, origin});
+                        malformed = true;
+                    } else op_.push_back(Uuid{variety, value, version, origin});
                 }
                 goto st25;
             tr119 :
@@ -2266,12 +2033,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, intb, p};
                 if (range.size() >= 19 && int_too_big(Slice{intb, p})) {
-                    cs = 0;
-                    {
-                        p++;
-                        cs = 25;
-                        goto _out;
-                    }
+                    malformed = true;
                 }
                 op_.emplace_back(INT, range);
                 uuidb = nullptr;  // sabotage uuid
@@ -2284,14 +2046,8 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
-                            {
-                                p++;
-                                cs = 25;
-                                goto _out;
-                            }
-                        }
-                        op_.push_back(Uuid{variety, value, version, origin});
+                            malformed = true;
+                        } else op_.push_back(Uuid{variety, value, version, origin});
                     }
                 }
                 goto st25;
@@ -2306,14 +2062,8 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
-                            {
-                                p++;
-                                cs = 25;
-                                goto _out;
-                            }
-                        }
-                        op_.push_back(Uuid{variety, value, version, origin});
+                            malformed = true;
+                        } else op_.push_back(Uuid{variety, value, version, origin});
                     }
                 }
                 goto st25;
@@ -2328,14 +2078,8 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
-                            {
-                                p++;
-                                cs = 25;
-                                goto _out;
-                            }
-                        }
-                        op_.push_back(Uuid{variety, value, version, origin});
+                            malformed = true;
+                        } else op_.push_back(Uuid{variety, value, version, origin});
                     }
                 }
                 goto st25;
@@ -2344,12 +2088,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
-                    cs = 0;
-                    {
-                        p++;
-                        cs = 25;
-                        goto _out;
-                    }
+                    malformed = true;
                 }
                 op_.emplace_back(FLOAT, range);
             }
@@ -2361,14 +2100,8 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
-                            {
-                                p++;
-                                cs = 25;
-                                goto _out;
-                            }
-                        }
-                        op_.push_back(Uuid{variety, value, version, origin});
+                            malformed = true;
+                        } else op_.push_back(Uuid{variety, value, version, origin});
                     }
                 }
                 goto st25;
@@ -2377,12 +2110,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
-                    cs = 0;
-                    {
-                        p++;
-                        cs = 25;
-                        goto _out;
-                    }
+                    malformed = true;
                 }
                 op_.emplace_back(FLOAT, range);
             }
@@ -2394,14 +2122,8 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
-                            {
-                                p++;
-                                cs = 25;
-                                goto _out;
-                            }
-                        }
-                        op_.push_back(Uuid{variety, value, version, origin});
+                            malformed = true;
+                        } else op_.push_back(Uuid{variety, value, version, origin});
                     }
                 }
                 goto st25;
@@ -2413,7 +2135,11 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 9 "ragel/./text-grammar.rl"
-                { op_[0] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        malformed = true;
+                    } else op_[0] = Uuid{variety, value, version, origin};
+                }
                 goto st25;
             tr199 :
 #line 14 "ragel/././uuid-grammar.rl"
@@ -2423,7 +2149,11 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 12 "ragel/./text-grammar.rl"
-                { op_[1] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        malformed = true;
+                    } else op_[1] = Uuid{variety, value, version, origin};
+                }
                 goto st25;
             tr208 :
 #line 17 "ragel/././uuid-grammar.rl"
@@ -2433,7 +2163,11 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 12 "ragel/./text-grammar.rl"
-                { op_[1] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        malformed = true;
+                    } else op_[1] = Uuid{variety, value, version, origin};
+                }
                 goto st25;
             tr219 :
 #line 17 "ragel/././uuid-grammar.rl"
@@ -2443,7 +2177,11 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 9 "ragel/./text-grammar.rl"
-                { op_[0] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        malformed = true;
+                    } else op_[0] = Uuid{variety, value, version, origin};
+                }
                 goto st25;
             st25:
                 if (++p == pe) goto _test_eof25;
@@ -2529,12 +2267,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, intb, p};
                 if (range.size() >= 19 && int_too_big(Slice{intb, p})) {
-                    cs = 0;
-                    {
-                        p++;
-                        cs = 28;
-                        goto _out;
-                    }
+                    malformed = true;
                 }
                 op_.emplace_back(INT, range);
                 uuidb = nullptr;  // sabotage uuid
@@ -2545,12 +2278,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
-                    cs = 0;
-                    {
-                        p++;
-                        cs = 28;
-                        goto _out;
-                    }
+                    malformed = true;
                 }
                 op_.emplace_back(FLOAT, range);
             }
@@ -2565,14 +2293,8 @@ Status TextFrame::Cursor::Next() {
 #line 33 "ragel/./text-grammar.rl"
                 {
                     if (word_too_big(value) || word_too_big(origin)) {
-                        cs = 0;
-                        {
-                            p++;
-                            cs = 28;
-                            goto _out;
-                        }
-                    }
-                    op_.push_back(Uuid{variety, value, version, origin});
+                        malformed = true;
+                    } else op_.push_back(Uuid{variety, value, version, origin});
                 }
                 goto st28;
             tr103 :
@@ -2585,14 +2307,8 @@ Status TextFrame::Cursor::Next() {
 #line 33 "ragel/./text-grammar.rl"
                 {
                     if (word_too_big(value) || word_too_big(origin)) {
-                        cs = 0;
-                        {
-                            p++;
-                            cs = 28;
-                            goto _out;
-                        }
-                    }
-                    op_.push_back(Uuid{variety, value, version, origin});
+                        malformed = true;
+                    } else op_.push_back(Uuid{variety, value, version, origin});
                 }
                 goto st28;
             tr120 :
@@ -2600,12 +2316,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, intb, p};
                 if (range.size() >= 19 && int_too_big(Slice{intb, p})) {
-                    cs = 0;
-                    {
-                        p++;
-                        cs = 28;
-                        goto _out;
-                    }
+                    malformed = true;
                 }
                 op_.emplace_back(INT, range);
                 uuidb = nullptr;  // sabotage uuid
@@ -2618,14 +2329,8 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
-                            {
-                                p++;
-                                cs = 28;
-                                goto _out;
-                            }
-                        }
-                        op_.push_back(Uuid{variety, value, version, origin});
+                            malformed = true;
+                        } else op_.push_back(Uuid{variety, value, version, origin});
                     }
                 }
                 goto st28;
@@ -2640,14 +2345,8 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
-                            {
-                                p++;
-                                cs = 28;
-                                goto _out;
-                            }
-                        }
-                        op_.push_back(Uuid{variety, value, version, origin});
+                            malformed = true;
+                        } else op_.push_back(Uuid{variety, value, version, origin});
                     }
                 }
                 goto st28;
@@ -2662,14 +2361,8 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
-                            {
-                                p++;
-                                cs = 28;
-                                goto _out;
-                            }
-                        }
-                        op_.push_back(Uuid{variety, value, version, origin});
+                            malformed = true;
+                        } else op_.push_back(Uuid{variety, value, version, origin});
                     }
                 }
                 goto st28;
@@ -2678,12 +2371,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
-                    cs = 0;
-                    {
-                        p++;
-                        cs = 28;
-                        goto _out;
-                    }
+                    malformed = true;
                 }
                 op_.emplace_back(FLOAT, range);
             }
@@ -2695,14 +2383,8 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
-                            {
-                                p++;
-                                cs = 28;
-                                goto _out;
-                            }
-                        }
-                        op_.push_back(Uuid{variety, value, version, origin});
+                            malformed = true;
+                        } else op_.push_back(Uuid{variety, value, version, origin});
                     }
                 }
                 goto st28;
@@ -2711,12 +2393,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
-                    cs = 0;
-                    {
-                        p++;
-                        cs = 28;
-                        goto _out;
-                    }
+                    malformed = true;
                 }
                 op_.emplace_back(FLOAT, range);
             }
@@ -2728,14 +2405,8 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
-                            {
-                                p++;
-                                cs = 28;
-                                goto _out;
-                            }
-                        }
-                        op_.push_back(Uuid{variety, value, version, origin});
+                            malformed = true;
+                        } else op_.push_back(Uuid{variety, value, version, origin});
                     }
                 }
                 goto st28;
@@ -2747,7 +2418,11 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 9 "ragel/./text-grammar.rl"
-                { op_[0] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        malformed = true;
+                    } else op_[0] = Uuid{variety, value, version, origin};
+                }
                 goto st28;
             tr200 :
 #line 14 "ragel/././uuid-grammar.rl"
@@ -2757,7 +2432,11 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 12 "ragel/./text-grammar.rl"
-                { op_[1] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        malformed = true;
+                    } else op_[1] = Uuid{variety, value, version, origin};
+                }
                 goto st28;
             tr209 :
 #line 17 "ragel/././uuid-grammar.rl"
@@ -2767,7 +2446,11 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 12 "ragel/./text-grammar.rl"
-                { op_[1] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        malformed = true;
+                    } else op_[1] = Uuid{variety, value, version, origin};
+                }
                 goto st28;
             tr220 :
 #line 17 "ragel/././uuid-grammar.rl"
@@ -2777,7 +2460,11 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 9 "ragel/./text-grammar.rl"
-                { op_[0] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        malformed = true;
+                    } else op_[0] = Uuid{variety, value, version, origin};
+                }
                 goto st28;
             st28:
                 if (++p == pe) goto _test_eof28;
@@ -2953,12 +2640,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, intb, p};
                 if (range.size() >= 19 && int_too_big(Slice{intb, p})) {
-                    cs = 0;
-                    {
-                        p++;
-                        cs = 32;
-                        goto _out;
-                    }
+                    malformed = true;
                 }
                 op_.emplace_back(INT, range);
                 uuidb = nullptr;  // sabotage uuid
@@ -2969,12 +2651,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
-                    cs = 0;
-                    {
-                        p++;
-                        cs = 32;
-                        goto _out;
-                    }
+                    malformed = true;
                 }
                 op_.emplace_back(FLOAT, range);
             }
@@ -2989,14 +2666,8 @@ Status TextFrame::Cursor::Next() {
 #line 33 "ragel/./text-grammar.rl"
                 {
                     if (word_too_big(value) || word_too_big(origin)) {
-                        cs = 0;
-                        {
-                            p++;
-                            cs = 32;
-                            goto _out;
-                        }
-                    }
-                    op_.push_back(Uuid{variety, value, version, origin});
+                        malformed = true;
+                    } else op_.push_back(Uuid{variety, value, version, origin});
                 }
                 goto st32;
             tr104 :
@@ -3009,14 +2680,8 @@ Status TextFrame::Cursor::Next() {
 #line 33 "ragel/./text-grammar.rl"
                 {
                     if (word_too_big(value) || word_too_big(origin)) {
-                        cs = 0;
-                        {
-                            p++;
-                            cs = 32;
-                            goto _out;
-                        }
-                    }
-                    op_.push_back(Uuid{variety, value, version, origin});
+                        malformed = true;
+                    } else op_.push_back(Uuid{variety, value, version, origin});
                 }
                 goto st32;
             tr123 :
@@ -3024,12 +2689,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, intb, p};
                 if (range.size() >= 19 && int_too_big(Slice{intb, p})) {
-                    cs = 0;
-                    {
-                        p++;
-                        cs = 32;
-                        goto _out;
-                    }
+                    malformed = true;
                 }
                 op_.emplace_back(INT, range);
                 uuidb = nullptr;  // sabotage uuid
@@ -3042,14 +2702,8 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
-                            {
-                                p++;
-                                cs = 32;
-                                goto _out;
-                            }
-                        }
-                        op_.push_back(Uuid{variety, value, version, origin});
+                            malformed = true;
+                        } else op_.push_back(Uuid{variety, value, version, origin});
                     }
                 }
                 goto st32;
@@ -3064,14 +2718,8 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
-                            {
-                                p++;
-                                cs = 32;
-                                goto _out;
-                            }
-                        }
-                        op_.push_back(Uuid{variety, value, version, origin});
+                            malformed = true;
+                        } else op_.push_back(Uuid{variety, value, version, origin});
                     }
                 }
                 goto st32;
@@ -3086,14 +2734,8 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
-                            {
-                                p++;
-                                cs = 32;
-                                goto _out;
-                            }
-                        }
-                        op_.push_back(Uuid{variety, value, version, origin});
+                            malformed = true;
+                        } else op_.push_back(Uuid{variety, value, version, origin});
                     }
                 }
                 goto st32;
@@ -3102,12 +2744,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
-                    cs = 0;
-                    {
-                        p++;
-                        cs = 32;
-                        goto _out;
-                    }
+                    malformed = true;
                 }
                 op_.emplace_back(FLOAT, range);
             }
@@ -3119,14 +2756,8 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
-                            {
-                                p++;
-                                cs = 32;
-                                goto _out;
-                            }
-                        }
-                        op_.push_back(Uuid{variety, value, version, origin});
+                            malformed = true;
+                        } else op_.push_back(Uuid{variety, value, version, origin});
                     }
                 }
                 goto st32;
@@ -3135,12 +2766,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
-                    cs = 0;
-                    {
-                        p++;
-                        cs = 32;
-                        goto _out;
-                    }
+                    malformed = true;
                 }
                 op_.emplace_back(FLOAT, range);
             }
@@ -3152,14 +2778,8 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
-                            {
-                                p++;
-                                cs = 32;
-                                goto _out;
-                            }
-                        }
-                        op_.push_back(Uuid{variety, value, version, origin});
+                            malformed = true;
+                        } else op_.push_back(Uuid{variety, value, version, origin});
                     }
                 }
                 goto st32;
@@ -3171,7 +2791,11 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 9 "ragel/./text-grammar.rl"
-                { op_[0] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        malformed = true;
+                    } else op_[0] = Uuid{variety, value, version, origin};
+                }
                 goto st32;
             tr201 :
 #line 14 "ragel/././uuid-grammar.rl"
@@ -3181,7 +2805,11 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 12 "ragel/./text-grammar.rl"
-                { op_[1] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        malformed = true;
+                    } else op_[1] = Uuid{variety, value, version, origin};
+                }
                 goto st32;
             tr210 :
 #line 17 "ragel/././uuid-grammar.rl"
@@ -3191,7 +2819,11 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 12 "ragel/./text-grammar.rl"
-                { op_[1] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        malformed = true;
+                    } else op_[1] = Uuid{variety, value, version, origin};
+                }
                 goto st32;
             tr221 :
 #line 17 "ragel/././uuid-grammar.rl"
@@ -3201,7 +2833,11 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 9 "ragel/./text-grammar.rl"
-                { op_[0] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        malformed = true;
+                    } else op_[0] = Uuid{variety, value, version, origin};
+                }
                 goto st32;
             st32:
                 if (++p == pe) goto _test_eof32;
@@ -4230,7 +3866,11 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 9 "ragel/./text-grammar.rl"
-                { op_[0] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        malformed = true;
+                    } else op_[0] = Uuid{variety, value, version, origin};
+                }
 #line 52 "ragel/./text-grammar.rl"
                 {
                     if ((*p) == '\n') {
@@ -4247,7 +3887,11 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 9 "ragel/./text-grammar.rl"
-                { op_[0] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        malformed = true;
+                    } else op_[0] = Uuid{variety, value, version, origin};
+                }
 #line 52 "ragel/./text-grammar.rl"
                 {
                     if ((*p) == '\n') {
@@ -4313,7 +3957,11 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 9 "ragel/./text-grammar.rl"
-                { op_[0] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        malformed = true;
+                    } else op_[0] = Uuid{variety, value, version, origin};
+                }
                 goto st64;
             tr218 :
 #line 17 "ragel/././uuid-grammar.rl"
@@ -4323,7 +3971,11 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 9 "ragel/./text-grammar.rl"
-                { op_[0] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        malformed = true;
+                    } else op_[0] = Uuid{variety, value, version, origin};
+                }
                 goto st64;
             st64:
                 if (++p == pe) goto _test_eof64;
@@ -4964,6 +4616,8 @@ Status TextFrame::Cursor::Next() {
 
     data().Consume(p - pb);
 
+    if (malformed) cs = RON_error;
+
     // std::cerr << "ending with [" <<p<<"] state "<<cs<<" "<<op_.size()<<"
     // atoms "<<(pe-p)<<" bytes left, prev_id_ "<<prev_id_.str()<<'\n';
 
-- 
2.43.0


From ca0a7a86b09974f115aee532898abcc1f89f23dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:18 +0000
Subject: [PATCH 03/64] fix: a float is not also a UUID; quote UUIDs that look
 like floats

---
 ragel/text-grammar.rl |  1 +
 ron/text-parser.cc    | 21 +++++++++++++++++++++
 ron/uuid.cc           | 16 ++++++++++++++++
 ron/uuid.hpp          |  5 ++---
 4 files changed, 40 insertions(+), 3 deletions(-)

diff --git a/ragel/text-grammar.rl b/ragel/text-grammar.rl
index bb71f3f..c694ec2 100644
--- a/ragel/text-grammar.rl
+++ b/ragel/text-grammar.rl
@@ -31,6 +31,7 @@
         Range range{buffer, floatb, p};
         if (range.size() > 24) { malformed = true; }
         op_.emplace_back(FLOAT, range);
+        uuidb = nullptr; // sabotage uuid
     }
     action end_quoted_uuid {
         if (word_too_big(value) || word_too_big(origin)) { malformed = true; }
diff --git a/ron/text-parser.cc b/ron/text-parser.cc
index 2cc5fcc..631cf74 100644
--- a/ron/text-parser.cc
+++ b/ron/text-parser.cc
@@ -133,6 +133,7 @@ Status TextFrame::Cursor::Next() {
                 malformed = true;
             }
             op_.emplace_back(FLOAT, range);
+            uuidb = nullptr;  // sabotage uuid
         }
 #line 48 "ragel/./text-grammar.rl"
             {
@@ -280,6 +281,7 @@ Status TextFrame::Cursor::Next() {
                 malformed = true;
             }
             op_.emplace_back(FLOAT, range);
+            uuidb = nullptr;  // sabotage uuid
         }
 #line 17 "ragel/././uuid-grammar.rl"
             { origin = Slice{wordb, p}; }
@@ -311,6 +313,7 @@ Status TextFrame::Cursor::Next() {
                 malformed = true;
             }
             op_.emplace_back(FLOAT, range);
+            uuidb = nullptr;  // sabotage uuid
         }
 #line 14 "ragel/././uuid-grammar.rl"
             { value = Slice{wordb, p}; }
@@ -499,6 +502,7 @@ Status TextFrame::Cursor::Next() {
                     malformed = true;
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr;  // sabotage uuid
             }
                 goto st1;
             tr89 :
@@ -592,6 +596,7 @@ Status TextFrame::Cursor::Next() {
                     malformed = true;
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr;  // sabotage uuid
             }
 #line 17 "ragel/././uuid-grammar.rl"
                 { origin = Slice{wordb, p}; }
@@ -614,6 +619,7 @@ Status TextFrame::Cursor::Next() {
                     malformed = true;
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr;  // sabotage uuid
             }
 #line 14 "ragel/././uuid-grammar.rl"
                 { value = Slice{wordb, p}; }
@@ -882,6 +888,7 @@ Status TextFrame::Cursor::Next() {
                     malformed = true;
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr;  // sabotage uuid
             }
 #line 52 "ragel/./text-grammar.rl"
                 {
@@ -1017,6 +1024,7 @@ Status TextFrame::Cursor::Next() {
                     malformed = true;
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr;  // sabotage uuid
             }
 #line 17 "ragel/././uuid-grammar.rl"
                 { origin = Slice{wordb, p}; }
@@ -1046,6 +1054,7 @@ Status TextFrame::Cursor::Next() {
                     malformed = true;
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr;  // sabotage uuid
             }
 #line 14 "ragel/././uuid-grammar.rl"
                 { value = Slice{wordb, p}; }
@@ -1184,6 +1193,7 @@ Status TextFrame::Cursor::Next() {
                     malformed = true;
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr;  // sabotage uuid
             }
                 goto st5;
             tr90 :
@@ -1277,6 +1287,7 @@ Status TextFrame::Cursor::Next() {
                     malformed = true;
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr;  // sabotage uuid
             }
 #line 17 "ragel/././uuid-grammar.rl"
                 { origin = Slice{wordb, p}; }
@@ -1299,6 +1310,7 @@ Status TextFrame::Cursor::Next() {
                     malformed = true;
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr;  // sabotage uuid
             }
 #line 14 "ragel/././uuid-grammar.rl"
                 { value = Slice{wordb, p}; }
@@ -1998,6 +2010,7 @@ Status TextFrame::Cursor::Next() {
                     malformed = true;
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr;  // sabotage uuid
             }
                 goto st25;
             tr93 :
@@ -2091,6 +2104,7 @@ Status TextFrame::Cursor::Next() {
                     malformed = true;
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr;  // sabotage uuid
             }
 #line 17 "ragel/././uuid-grammar.rl"
                 { origin = Slice{wordb, p}; }
@@ -2113,6 +2127,7 @@ Status TextFrame::Cursor::Next() {
                     malformed = true;
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr;  // sabotage uuid
             }
 #line 14 "ragel/././uuid-grammar.rl"
                 { value = Slice{wordb, p}; }
@@ -2281,6 +2296,7 @@ Status TextFrame::Cursor::Next() {
                     malformed = true;
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr;  // sabotage uuid
             }
                 goto st28;
             tr94 :
@@ -2374,6 +2390,7 @@ Status TextFrame::Cursor::Next() {
                     malformed = true;
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr;  // sabotage uuid
             }
 #line 17 "ragel/././uuid-grammar.rl"
                 { origin = Slice{wordb, p}; }
@@ -2396,6 +2413,7 @@ Status TextFrame::Cursor::Next() {
                     malformed = true;
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr;  // sabotage uuid
             }
 #line 14 "ragel/././uuid-grammar.rl"
                 { value = Slice{wordb, p}; }
@@ -2654,6 +2672,7 @@ Status TextFrame::Cursor::Next() {
                     malformed = true;
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr;  // sabotage uuid
             }
                 goto st32;
             tr95 :
@@ -2747,6 +2766,7 @@ Status TextFrame::Cursor::Next() {
                     malformed = true;
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr;  // sabotage uuid
             }
 #line 17 "ragel/././uuid-grammar.rl"
                 { origin = Slice{wordb, p}; }
@@ -2769,6 +2789,7 @@ Status TextFrame::Cursor::Next() {
                     malformed = true;
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr;  // sabotage uuid
             }
 #line 14 "ragel/././uuid-grammar.rl"
                 { value = Slice{wordb, p}; }
diff --git a/ron/uuid.cc b/ron/uuid.cc
index 57f0dbe..68d4957 100644
--- a/ron/uuid.cc
+++ b/ron/uuid.cc
@@ -59,6 +59,22 @@ void Uuid::write_base64(ron::String& ret) const {
     }
 }
 
+bool Uuid::is_ambiguous() const {
+    if (origin.is_zero() && value.is_all_digits()) return true;  // 123
+    // 1e5, 12E+3, 1e-05
+    ron::String text{};
+    write_base64(text);
+    size_t at = 0;
+    while (at < text.size() && isdigit(text[at])) ++at;
+    if (at == 0 || at == text.size()) return false;
+    if (text[at] != 'e' && text[at] != 'E') return false;
+    ++at;
+    if (at < text.size() && (text[at] == '+' || text[at] == '-')) ++at;
+    if (at == text.size()) return false;
+    while (at < text.size() && isdigit(text[at])) ++at;
+    return at == text.size();
+}
+
 String Uuid::str() const {
     ron::String ret;
     ret.reserve(Word::BASE64_WORD_LEN * 2 + 2 + 1);
diff --git a/ron/uuid.hpp b/ron/uuid.hpp
index b6b0c23..b342659 100644
--- a/ron/uuid.hpp
+++ b/ron/uuid.hpp
@@ -210,9 +210,8 @@ struct Uuid : public Atom {
     void write_base64(ron::String& to) const;
     ron::String str() const;
     inline bool zero() const { return value == ZERO; }
-    inline bool is_ambiguous() const {
-        return origin.is_zero() && value.is_all_digits();
-    }
+    /** Whether the bare text of the UUID reads as a number. */
+    bool is_ambiguous() const;
     inline bool is_error() const { return origin == Word::MAX_VALUE; }
     static Uuid Time(Word value, Word origin) {
         return Uuid{value, (uint64_t(origin) & Word::PAYLOAD_BITS) |
-- 
2.43.0


From 1e5315d72dd5d4c54ff08709c58929107fda1483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:37 +0000
Subject: [PATCH 04/64] fix: read and write all the 64 bit integers, -2^63 and
 signed 18 digit ones too

---
 ron/text-builder.cc |  2 +-
 ron/text.cc         | 12 +++++++-----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/ron/text-builder.cc b/ron/text-builder.cc
index 9a9c9ac..d022a98 100644
--- a/ron/text-builder.cc
+++ b/ron/text-builder.cc
@@ -37,7 +37,7 @@ Result TextFrame::Builder::WriteValues(const Cursor& cur) {
 }
 
 void TextFrame::Builder::WriteInt(int64_t value) {
-    char tmp[20];
+    char tmp[24];  // INT64_MIN takes 20 chars and a zero
     int len = sprintf(tmp, "%" PRId64, value);
     data_.append(tmp, static_cast<size_t>(len));
 }
diff --git a/ron/text.cc b/ron/text.cc
index 7ff30d0..14448a7 100644
--- a/ron/text.cc
+++ b/ron/text.cc
@@ -15,13 +15,13 @@ Result TextFrame::Cursor::ParseInteger(Atom& a) const {
     } else if (*i == '+') {
         i++;
     }
-    int64_t& ret = a.value.as_integer;
+    uint64_t ret{0};  // -INT64_MIN overflows int64_t
     while (i < range.end()) {
         ret *= 10;
         ret += *i - '0';
         i++;
     }
-    if (neg) ret = -ret;
+    a.value.as_u64 = neg ? 0 - ret : ret;
     return OK;
 }
 
@@ -69,19 +69,21 @@ Status TextFrame::Split(std::vector<TextFrame>& to) {
 
 bool TextFrame::Cursor::int_too_big(const Slice& data) {
     static const char* MAXINTSTR = "9223372036854775807";
+    static const char* MININTSTR = "9223372036854775808";
     if (data.size() < 19) {
         return false;
     }
     CharRef mem = data.begin();
     size_t sz = data.size();
+    bool neg = *mem == '-';
     if (*mem == '-' || *mem == '+') {
         ++mem;
         --sz;
     }
-    if (sz > 19) {
-        return true;
+    if (sz != 19) {
+        return sz > 19;
     }
-    int res = memcmp(mem, MAXINTSTR, sz);
+    int res = memcmp(mem, neg ? MININTSTR : MAXINTSTR, sz);
     return res > 0;
 }
 
-- 
2.43.0


From be8c2c1b4cbc0fd0730e4c0e5012a37e984c4040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:39 +0000
Subject: [PATCH 05/64] fix: write integral floats so that they read back as
 floats

---
 ron/text-builder.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ron/text-builder.cc b/ron/text-builder.cc
index d022a98..bca3010 100644
--- a/ron/text-builder.cc
+++ b/ron/text-builder.cc
@@ -55,6 +55,7 @@ void TextFrame::Builder::WriteFloat(double value) {
     // 17 is DBL_DECIMAL_DIG, enough to express 64 bit ISO floats
     int len = sprintf(tmp, "%.17G", value);
     data_.append(tmp, static_cast<size_t>(len));
+    if (!strpbrk(tmp, ".E")) data_.append(".0");  // "1" reads as an int
 }
 
 void TextFrame::Builder::WriteString(const String& value) {
-- 
2.43.0


From ca764f1e980af3ffcf0269704ce7a28dc2d782d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:44 +0000
Subject: [PATCH 06/64] fix: do not write form feeds as \f, the grammar has no
 such escape

---
 ron/encdec.hpp      | 4 ----
 ron/text-builder.cc | 4 ----
 2 files changed, 8 deletions(-)

diff --git a/ron/encdec.hpp b/ron/encdec.hpp
index 986b18f..40ebc94 100644
--- a/ron/encdec.hpp
+++ b/ron/encdec.hpp
@@ -114,10 +114,6 @@ inline void utf8esc_append(String& to, Codepoint cp) {
                 to.push_back(ESC);
                 to.push_back('b');
                 break;
-            case '\f':
-                to.push_back(ESC);
-                to.push_back('f');
-                break;
             case '\n':
                 to.push_back(ESC);
                 to.push_back('n');
diff --git a/ron/text-builder.cc b/ron/text-builder.cc
index bca3010..97705cd 100644
--- a/ron/text-builder.cc
+++ b/ron/text-builder.cc
@@ -83,10 +83,6 @@ void TextFrame::Builder::escape(String& to, const Slice& buf) {
                 to.push_back(ESC);
                 to.push_back('b');
                 break;
-            case '\f':
-                to.push_back(ESC);
-                to.push_back('f');
-                break;
             case '\n':
                 to.push_back(ESC);
                 to.push_back('n');
-- 
2.43.0


From db4658a4f28ba61dab767fb8c921cd23eae2f24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:24 +0000
Subject: [PATCH 07/64] fix: refuse empty and oversized op spans, a span of 0
 was read as 2^32 ops

---
 ragel/text-grammar.rl | 14 +++++++++-----
 ragel/text-parser.rl  |  1 +
 ron/text-parser.cc    | 26 ++++++++++++++++++--------
 3 files changed, 28 insertions(+), 13 deletions(-)

diff --git a/ragel/text-grammar.rl b/ragel/text-grammar.rl
index c694ec2..d16f9b1 100644
--- a/ragel/text-grammar.rl
+++ b/ragel/text-grammar.rl
@@ -62,15 +62,19 @@
     action string_uesc { cp = decode_hex_cp(Slice{p-4,4}); }
 
     action span_size_digit {
-        span_size_ *= 10;
-        span_size_ += fc - '0';
+        if (span_size_ > FSIZE_MAX/10) { malformed = true; }
+        else span_size_ = span_size_*10 + (fc - '0');
     }
     action end_span_size {
-        --span_size_;
+        if (!span_size_ || span_size_ > FSIZE_MAX) { malformed = true; }
+        else --span_size_;
     }
     action end_spread {
-        if (op_.back().value.cp_size) { NextCodepoint(op_.back()); }
-        span_size_ = cp_size-1;
+        if (!cp_size) { malformed = true; }
+        else {
+            NextCodepoint(op_.back());
+            span_size_ = cp_size-1;
+        }
     }
 
     WS = [ \r\n\t] @newline;
diff --git a/ragel/text-parser.rl b/ragel/text-parser.rl
index f488b38..25ece86 100644
--- a/ragel/text-parser.rl
+++ b/ragel/text-parser.rl
@@ -89,6 +89,7 @@ Status TextFrame::Cursor::Next () {
         return Status::ENDOFFRAME;
     } else {
         cs = RON_error;
+        span_size_ = 0;
         char msg[64];
         size_t msglen = sprintf((char*)msg, "syntax error at line %d col %d (offset %d)", line, (int)(p-lineb), (int)(p-pb));
         return Status::BAD_STATE.comment(msg);
diff --git a/ron/text-parser.cc b/ron/text-parser.cc
index 631cf74..5aa40ed 100644
--- a/ron/text-parser.cc
+++ b/ron/text-parser.cc
@@ -1556,10 +1556,12 @@ Status TextFrame::Cursor::Next() {
             tr39 :
 #line 68 "ragel/./text-grammar.rl"
             {
-                if (op_.back().value.cp_size) {
+                if (!cp_size) {
+                    malformed = true;
+                } else {
                     NextCodepoint(op_.back());
+                    span_size_ = cp_size - 1;
                 }
-                span_size_ = cp_size - 1;
             }
 #line 52 "ragel/./text-grammar.rl"
                 {
@@ -1572,7 +1574,9 @@ Status TextFrame::Cursor::Next() {
             tr59 :
 #line 65 "ragel/./text-grammar.rl"
             {
-                --span_size_;
+                if (!span_size_ || span_size_ > FSIZE_MAX) {
+                    malformed = true;
+                } else --span_size_;
             }
 #line 52 "ragel/./text-grammar.rl"
                 {
@@ -1608,16 +1612,20 @@ Status TextFrame::Cursor::Next() {
             tr40 :
 #line 68 "ragel/./text-grammar.rl"
             {
-                if (op_.back().value.cp_size) {
+                if (!cp_size) {
+                    malformed = true;
+                } else {
                     NextCodepoint(op_.back());
+                    span_size_ = cp_size - 1;
                 }
-                span_size_ = cp_size - 1;
             }
                 goto st10;
             tr60 :
 #line 65 "ragel/./text-grammar.rl"
             {
-                --span_size_;
+                if (!span_size_ || span_size_ > FSIZE_MAX) {
+                    malformed = true;
+                } else --span_size_;
             }
                 goto st10;
             st10:
@@ -1868,8 +1876,9 @@ Status TextFrame::Cursor::Next() {
             tr26 :
 #line 61 "ragel/./text-grammar.rl"
             {
-                span_size_ *= 10;
-                span_size_ += (*p) - '0';
+                if (span_size_ > FSIZE_MAX / 10) {
+                    malformed = true;
+                } else span_size_ = span_size_ * 10 + ((*p) - '0');
             }
                 goto st20;
             st20:
@@ -4650,6 +4659,7 @@ Status TextFrame::Cursor::Next() {
         return Status::ENDOFFRAME;
     } else {
         cs = RON_error;
+        span_size_ = 0;
         char msg[64];
         size_t msglen =
             sprintf((char *)msg, "syntax error at line %d col %d (offset %d)",
-- 
2.43.0


From 1d71066b94b55116a314dd6bcfc27495787a29f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:37 +0000
Subject: [PATCH 08/64] fix: decode a \u escape that ends a string, it read as
 a zero char

---
 ragel/cp-parser.rl |   4 +-
 ron/cp-parser.cc   | 146 ++++++++++++++++++++++++++-------------------
 2 files changed, 87 insertions(+), 63 deletions(-)

diff --git a/ragel/cp-parser.rl b/ragel/cp-parser.rl
index 4e96057..1bb30be 100644
--- a/ragel/cp-parser.rl
+++ b/ragel/cp-parser.rl
@@ -18,14 +18,14 @@ Result TextFrame::Cursor::NextCodepoint (Atom& a) const {
     CharRef p = str_data.begin();
     CharRef pe = str_data.end();
     CharRef pb = p;
-    CharRef eof = 0;
+    CharRef eof = pe;
     Codepoint cp = 0;
     fsize_t cp_size{0};
     int cs=0;
     %%write init;
     %%{
         include TEXT_FRAME "./text-grammar.rl";
-        action end_cp_brk { --p; fbreak; }
+        action end_cp_brk { if (p!=eof) { --p; fbreak; } }
         CP1 = (CP) %end_cp_brk;
         main := CP1*;
         write exec;
diff --git a/ron/cp-parser.cc b/ron/cp-parser.cc
index 65fa874..8681f78 100644
--- a/ron/cp-parser.cc
+++ b/ron/cp-parser.cc
@@ -27,7 +27,7 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
     CharRef p = str_data.begin();
     CharRef pe = str_data.end();
     CharRef pb = p;
-    CharRef eof = 0;
+    CharRef eof = pe;
     Codepoint cp = 0;
     fsize_t cp_size{0};
     int cs = 0;
@@ -95,11 +95,13 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
             }
 #line 28 "ragel/cp-parser.rl"
                 {
-                    --p;
-                    {
-                        p++;
-                        cs = 10;
-                        goto _out;
+                    if (p != eof) {
+                        --p;
+                        {
+                            p++;
+                            cs = 10;
+                            goto _out;
+                        }
                     }
                 }
 #line 8 "ragel/././utf8-grammar.rl"
@@ -114,11 +116,13 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
                 { cp_size++; }
 #line 28 "ragel/cp-parser.rl"
                 {
-                    --p;
-                    {
-                        p++;
-                        cs = 10;
-                        goto _out;
+                    if (p != eof) {
+                        --p;
+                        {
+                            p++;
+                            cs = 10;
+                            goto _out;
+                        }
                     }
                 }
 #line 8 "ragel/././utf8-grammar.rl"
@@ -160,11 +164,13 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
             }
 #line 28 "ragel/cp-parser.rl"
                 {
-                    --p;
-                    {
-                        p++;
-                        cs = 1;
-                        goto _out;
+                    if (p != eof) {
+                        --p;
+                        {
+                            p++;
+                            cs = 1;
+                            goto _out;
+                        }
                     }
                 }
                 goto st1;
@@ -177,11 +183,13 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
                 { cp_size++; }
 #line 28 "ragel/cp-parser.rl"
                 {
-                    --p;
-                    {
-                        p++;
-                        cs = 1;
-                        goto _out;
+                    if (p != eof) {
+                        --p;
+                        {
+                            p++;
+                            cs = 1;
+                            goto _out;
+                        }
                     }
                 }
                 goto st1;
@@ -297,11 +305,13 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
             }
 #line 28 "ragel/cp-parser.rl"
                 {
-                    --p;
-                    {
-                        p++;
-                        cs = 6;
-                        goto _out;
+                    if (p != eof) {
+                        --p;
+                        {
+                            p++;
+                            cs = 6;
+                            goto _out;
+                        }
                     }
                 }
 #line 9 "ragel/././utf8-grammar.rl"
@@ -316,11 +326,13 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
                 { cp_size++; }
 #line 28 "ragel/cp-parser.rl"
                 {
-                    --p;
-                    {
-                        p++;
-                        cs = 6;
-                        goto _out;
+                    if (p != eof) {
+                        --p;
+                        {
+                            p++;
+                            cs = 6;
+                            goto _out;
+                        }
                     }
                 }
 #line 9 "ragel/././utf8-grammar.rl"
@@ -351,11 +363,13 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
             }
 #line 28 "ragel/cp-parser.rl"
                 {
-                    --p;
-                    {
-                        p++;
-                        cs = 7;
-                        goto _out;
+                    if (p != eof) {
+                        --p;
+                        {
+                            p++;
+                            cs = 7;
+                            goto _out;
+                        }
                     }
                 }
 #line 10 "ragel/././utf8-grammar.rl"
@@ -370,11 +384,13 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
                 { cp_size++; }
 #line 28 "ragel/cp-parser.rl"
                 {
-                    --p;
-                    {
-                        p++;
-                        cs = 7;
-                        goto _out;
+                    if (p != eof) {
+                        --p;
+                        {
+                            p++;
+                            cs = 7;
+                            goto _out;
+                        }
                     }
                 }
 #line 10 "ragel/././utf8-grammar.rl"
@@ -399,11 +415,13 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
             }
 #line 28 "ragel/cp-parser.rl"
                 {
-                    --p;
-                    {
-                        p++;
-                        cs = 8;
-                        goto _out;
+                    if (p != eof) {
+                        --p;
+                        {
+                            p++;
+                            cs = 8;
+                            goto _out;
+                        }
                     }
                 }
 #line 11 "ragel/././utf8-grammar.rl"
@@ -418,11 +436,13 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
                 { cp_size++; }
 #line 28 "ragel/cp-parser.rl"
                 {
-                    --p;
-                    {
-                        p++;
-                        cs = 8;
-                        goto _out;
+                    if (p != eof) {
+                        --p;
+                        {
+                            p++;
+                            cs = 8;
+                            goto _out;
+                        }
                     }
                 }
 #line 11 "ragel/././utf8-grammar.rl"
@@ -476,11 +496,13 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
                 }
 #line 28 "ragel/cp-parser.rl"
                     {
-                        --p;
-                        {
-                            p++;
-                            cs = 0;
-                            goto _out;
+                        if (p != eof) {
+                            --p;
+                            {
+                                p++;
+                                cs = 0;
+                                goto _out;
+                            }
                         }
                     }
                     break;
@@ -493,11 +515,13 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
                     { cp_size++; }
 #line 28 "ragel/cp-parser.rl"
                     {
-                        --p;
-                        {
-                            p++;
-                            cs = 0;
-                            goto _out;
+                        if (p != eof) {
+                            --p;
+                            {
+                                p++;
+                                cs = 0;
+                                goto _out;
+                            }
                         }
                     }
                     break;
-- 
2.43.0


From 5eb4bf558fa2bec7d854c1c864fb1ec864e70b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:24 +0000
Subject: [PATCH 09/64] fix: reject over-long UTF-8, surrogates and \u0000
 instead of reading them as text

---
 ragel/cp-parser.rl    |   5 ++-
 ragel/text-grammar.rl |   5 ++-
 ragel/text-parser.rl  |   2 +-
 ragel/utf8-grammar.rl |   8 ++--
 ragel/utf8-parser.rl  |   8 ++--
 ron/cp-parser.cc      |  50 ++++++++++++++-------
 ron/slice.hpp         |   6 +++
 ron/text-parser.cc    | 100 ++++++++++++++++++++++++++----------------
 ron/utf8-parser.cc    |  37 +++++++++++-----
 9 files changed, 145 insertions(+), 76 deletions(-)

diff --git a/ragel/cp-parser.rl b/ragel/cp-parser.rl
index 1bb30be..7e1f3e1 100644
--- a/ragel/cp-parser.rl
+++ b/ragel/cp-parser.rl
@@ -19,7 +19,8 @@ Result TextFrame::Cursor::NextCodepoint (Atom& a) const {
     CharRef pe = str_data.end();
     CharRef pb = p;
     CharRef eof = pe;
-    Codepoint cp = 0;
+    Codepoint cp = 0, cp_min = 0;
+    bool malformed{false};
     fsize_t cp_size{0};
     int cs=0;
     %%write init;
@@ -30,7 +31,7 @@ Result TextFrame::Cursor::NextCodepoint (Atom& a) const {
         main := CP1*;
         write exec;
     }%%
-    if (cs!=CP_error) {
+    if (cs!=CP_error && !malformed) {
         a.value.cp = cp;
         --a.value.cp_size;
         a.origin.as_range.Consume(p-pb);
diff --git a/ragel/text-grammar.rl b/ragel/text-grammar.rl
index d16f9b1..ef95374 100644
--- a/ragel/text-grammar.rl
+++ b/ragel/text-grammar.rl
@@ -45,6 +45,7 @@
     }
     action end_cp {
         cp_size++;
+        if (!IsValidCodepoint(cp, cp_min)) { malformed = true; }
     }
     action begin_span {}
     action end_span {}
@@ -58,8 +59,8 @@
             lineb = p;
         }
     }
-    action string_esc { cp = decode_esc(fc); }
-    action string_uesc { cp = decode_hex_cp(Slice{p-4,4}); }
+    action string_esc { cp = decode_esc(fc); cp_min = 1; }
+    action string_uesc { cp = decode_hex_cp(Slice{p-4,4}); cp_min = 1; }
 
     action span_size_digit {
         if (span_size_ > FSIZE_MAX/10) { malformed = true; }
diff --git a/ragel/text-parser.rl b/ragel/text-parser.rl
index 25ece86..7d5dffa 100644
--- a/ragel/text-parser.rl
+++ b/ragel/text-parser.rl
@@ -56,7 +56,7 @@ Status TextFrame::Cursor::Next () {
     CharRef strb{p};
     CharRef uuidb{p};
     CharRef wordb{p};
-    Codepoint cp{0};
+    Codepoint cp{0}, cp_min{0};
     fsize_t cp_size{0};
     span_size_ = 0;
     char term{0};
diff --git a/ragel/utf8-grammar.rl b/ragel/utf8-grammar.rl
index 383bff8..28bf2ce 100644
--- a/ragel/utf8-grammar.rl
+++ b/ragel/utf8-grammar.rl
@@ -5,10 +5,10 @@ machine UTF8;
 alphtype unsigned char;
 
 action string_cont { cp = (cp<<6) | (fc&0x3f); }
-action string_lead1 { cp = fc; }
-action string_lead2 { cp = fc&0x1f; }
-action string_lead3 { cp = fc&0xf; }
-action string_lead4 { cp = fc&7; }
+action string_lead1 { cp = fc; cp_min = 0; }
+action string_lead2 { cp = fc&0x1f; cp_min = 0x80; }
+action string_lead3 { cp = fc&0xf; cp_min = 0x800; }
+action string_lead4 { cp = fc&7; cp_min = 0x10000; }
 
 CONT =  0x80..0xbf @string_cont;
 LEAD1 = 0x00..0x7f @string_lead1;
diff --git a/ragel/utf8-parser.rl b/ragel/utf8-parser.rl
index cea4b92..f0428cc 100644
--- a/ragel/utf8-parser.rl
+++ b/ragel/utf8-parser.rl
@@ -13,20 +13,22 @@ Result ParseUtf8 (Codepoints& into, const String& from) {
     CharRef p = reinterpret_cast<CharRef>(from.data());
     CharRef pe = p + from.size();
     CharRef eof = pe;
-    Codepoint cp = 0;
+    Codepoint cp = 0, cp_min = 0;
+    bool malformed{false};
     int cs=0;
     %%write init;
     %%{
         include UTF8 "./utf8-grammar.rl";
         action end_cp { 
-            into.push_back(cp); 
+            if (IsValidCodepoint(cp, cp_min)) { into.push_back(cp); }
+            else { malformed = true; }
             cp = 0;
         }
         CP2 = CODEPOINT %end_cp;
         main := CP2 *;
         write exec;
     }%%
-    return cs>=UTF8CP_first_final ? OK : BADSYNTAX;
+    return cs>=UTF8CP_first_final && !malformed ? OK : BADSYNTAX;
 }
 
 
diff --git a/ron/cp-parser.cc b/ron/cp-parser.cc
index 8681f78..8af31c5 100644
--- a/ron/cp-parser.cc
+++ b/ron/cp-parser.cc
@@ -28,7 +28,8 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
     CharRef pe = str_data.end();
     CharRef pb = p;
     CharRef eof = pe;
-    Codepoint cp = 0;
+    Codepoint cp = 0, cp_min = 0;
+    bool malformed{false};
     fsize_t cp_size{0};
     int cs = 0;
 
@@ -74,6 +75,7 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
 #line 58 "ragel/./text-grammar.rl"
             {
                 cp = decode_esc((*p));
+                cp_min = 1;
             }
                 goto st10;
             tr7 :
@@ -86,12 +88,14 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
 #line 8 "ragel/././utf8-grammar.rl"
             {
                 cp = (*p);
+                cp_min = 0;
             }
                 goto st10;
             tr15 :
 #line 43 "ragel/./text-grammar.rl"
             {
                 cp_size++;
+                if (!IsValidCodepoint(cp, cp_min)) malformed = true;
             }
 #line 28 "ragel/cp-parser.rl"
                 {
@@ -105,15 +109,16 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
                     }
                 }
 #line 8 "ragel/././utf8-grammar.rl"
-                { cp = (*p); }
+                { cp = (*p); cp_min = 0; }
                 goto st10;
             tr20 :
 #line 59 "ragel/./text-grammar.rl"
             {
                 cp = decode_hex_cp(Slice{p - 4, 4});
+                cp_min = 1;
             }
 #line 43 "ragel/./text-grammar.rl"
-                { cp_size++; }
+                { cp_size++; if (!IsValidCodepoint(cp, cp_min)) malformed = true; }
 #line 28 "ragel/cp-parser.rl"
                 {
                     if (p != eof) {
@@ -126,7 +131,7 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
                     }
                 }
 #line 8 "ragel/././utf8-grammar.rl"
-                { cp = (*p); }
+                { cp = (*p); cp_min = 0; }
                 goto st10;
             st10:
                 if (++p == pe) goto _test_eof10;
@@ -161,6 +166,7 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
 #line 43 "ragel/./text-grammar.rl"
             {
                 cp_size++;
+                if (!IsValidCodepoint(cp, cp_min)) malformed = true;
             }
 #line 28 "ragel/cp-parser.rl"
                 {
@@ -178,9 +184,10 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
 #line 59 "ragel/./text-grammar.rl"
             {
                 cp = decode_hex_cp(Slice{p - 4, 4});
+                cp_min = 1;
             }
 #line 43 "ragel/./text-grammar.rl"
-                { cp_size++; }
+                { cp_size++; if (!IsValidCodepoint(cp, cp_min)) malformed = true; }
 #line 28 "ragel/cp-parser.rl"
                 {
                     if (p != eof) {
@@ -296,12 +303,14 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
 #line 9 "ragel/././utf8-grammar.rl"
             {
                 cp = (*p) & 0x1f;
+                cp_min = 0x80;
             }
                 goto st6;
             tr17 :
 #line 43 "ragel/./text-grammar.rl"
             {
                 cp_size++;
+                if (!IsValidCodepoint(cp, cp_min)) malformed = true;
             }
 #line 28 "ragel/cp-parser.rl"
                 {
@@ -315,15 +324,16 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
                     }
                 }
 #line 9 "ragel/././utf8-grammar.rl"
-                { cp = (*p) & 0x1f; }
+                { cp = (*p) & 0x1f; cp_min = 0x80; }
                 goto st6;
             tr22 :
 #line 59 "ragel/./text-grammar.rl"
             {
                 cp = decode_hex_cp(Slice{p - 4, 4});
+                cp_min = 1;
             }
 #line 43 "ragel/./text-grammar.rl"
-                { cp_size++; }
+                { cp_size++; if (!IsValidCodepoint(cp, cp_min)) malformed = true; }
 #line 28 "ragel/cp-parser.rl"
                 {
                     if (p != eof) {
@@ -336,7 +346,7 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
                     }
                 }
 #line 9 "ragel/././utf8-grammar.rl"
-                { cp = (*p) & 0x1f; }
+                { cp = (*p) & 0x1f; cp_min = 0x80; }
                 goto st6;
             st6:
                 if (++p == pe) goto _test_eof6;
@@ -354,12 +364,14 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
 #line 10 "ragel/././utf8-grammar.rl"
             {
                 cp = (*p) & 0xf;
+                cp_min = 0x800;
             }
                 goto st7;
             tr18 :
 #line 43 "ragel/./text-grammar.rl"
             {
                 cp_size++;
+                if (!IsValidCodepoint(cp, cp_min)) malformed = true;
             }
 #line 28 "ragel/cp-parser.rl"
                 {
@@ -373,15 +385,16 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
                     }
                 }
 #line 10 "ragel/././utf8-grammar.rl"
-                { cp = (*p) & 0xf; }
+                { cp = (*p) & 0xf; cp_min = 0x800; }
                 goto st7;
             tr23 :
 #line 59 "ragel/./text-grammar.rl"
             {
                 cp = decode_hex_cp(Slice{p - 4, 4});
+                cp_min = 1;
             }
 #line 43 "ragel/./text-grammar.rl"
-                { cp_size++; }
+                { cp_size++; if (!IsValidCodepoint(cp, cp_min)) malformed = true; }
 #line 28 "ragel/cp-parser.rl"
                 {
                     if (p != eof) {
@@ -394,7 +407,7 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
                     }
                 }
 #line 10 "ragel/././utf8-grammar.rl"
-                { cp = (*p) & 0xf; }
+                { cp = (*p) & 0xf; cp_min = 0x800; }
                 goto st7;
             st7:
                 if (++p == pe) goto _test_eof7;
@@ -406,12 +419,14 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
 #line 11 "ragel/././utf8-grammar.rl"
             {
                 cp = (*p) & 7;
+                cp_min = 0x10000;
             }
                 goto st8;
             tr19 :
 #line 43 "ragel/./text-grammar.rl"
             {
                 cp_size++;
+                if (!IsValidCodepoint(cp, cp_min)) malformed = true;
             }
 #line 28 "ragel/cp-parser.rl"
                 {
@@ -425,15 +440,16 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
                     }
                 }
 #line 11 "ragel/././utf8-grammar.rl"
-                { cp = (*p) & 7; }
+                { cp = (*p) & 7; cp_min = 0x10000; }
                 goto st8;
             tr24 :
 #line 59 "ragel/./text-grammar.rl"
             {
                 cp = decode_hex_cp(Slice{p - 4, 4});
+                cp_min = 1;
             }
 #line 43 "ragel/./text-grammar.rl"
-                { cp_size++; }
+                { cp_size++; if (!IsValidCodepoint(cp, cp_min)) malformed = true; }
 #line 28 "ragel/cp-parser.rl"
                 {
                     if (p != eof) {
@@ -446,7 +462,7 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
                     }
                 }
 #line 11 "ragel/././utf8-grammar.rl"
-                { cp = (*p) & 7; }
+                { cp = (*p) & 7; cp_min = 0x10000; }
                 goto st8;
             st8:
                 if (++p == pe) goto _test_eof8;
@@ -493,6 +509,7 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
 #line 43 "ragel/./text-grammar.rl"
                 {
                     cp_size++;
+                    if (!IsValidCodepoint(cp, cp_min)) malformed = true;
                 }
 #line 28 "ragel/cp-parser.rl"
                     {
@@ -510,9 +527,10 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
 #line 59 "ragel/./text-grammar.rl"
                 {
                     cp = decode_hex_cp(Slice{p - 4, 4});
+                    cp_min = 1;
                 }
 #line 43 "ragel/./text-grammar.rl"
-                    { cp_size++; }
+                    { cp_size++; if (!IsValidCodepoint(cp, cp_min)) malformed = true; }
 #line 28 "ragel/cp-parser.rl"
                     {
                         if (p != eof) {
@@ -534,7 +552,7 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
 
 #line 32 "ragel/cp-parser.rl"
 
-    if (cs != CP_error) {
+    if (cs != CP_error && !malformed) {
         a.value.cp = cp;
         --a.value.cp_size;
         a.origin.as_range.Consume(p - pb);
diff --git a/ron/slice.hpp b/ron/slice.hpp
index 78aba93..8029269 100644
--- a/ron/slice.hpp
+++ b/ron/slice.hpp
@@ -24,6 +24,12 @@ using CharRef = Char const*;
 
 constexpr Codepoint CP_ERROR{0};
 
+/** Whether it is an Unicode scalar value that needs a sequence of this length
+    (min is the least codepoint such a sequence codes); 0 is forbidden. */
+constexpr bool IsValidCodepoint(Codepoint cp, Codepoint min = 1) {
+    return cp >= min && cp <= 0x10ffff && (cp < 0xd800 || cp > 0xdfff);
+}
+
 /** A byte string .ON strings are valid canonic UTF-8, but we treat them
     as byte buffers most of the time. For symbol-level work, use String16. */
 using String = std::string;
diff --git a/ron/text-parser.cc b/ron/text-parser.cc
index 5aa40ed..d80d3d7 100644
--- a/ron/text-parser.cc
+++ b/ron/text-parser.cc
@@ -68,7 +68,7 @@ Status TextFrame::Cursor::Next() {
     CharRef strb{p};
     CharRef uuidb{p};
     CharRef wordb{p};
-    Codepoint cp{0};
+    Codepoint cp{0}, cp_min{0};
     fsize_t cp_size{0};
     span_size_ = 0;
     char term{0};
@@ -726,31 +726,34 @@ Status TextFrame::Cursor::Next() {
                 cp_size = 0;
             }
 #line 8 "ragel/././utf8-grammar.rl"
-                { cp = (*p); }
+                { cp = (*p); cp_min = 0; }
                 goto st2;
             tr7 :
 #line 43 "ragel/./text-grammar.rl"
             {
                 cp_size++;
+                if (!IsValidCodepoint(cp, cp_min)) malformed = true;
             }
 #line 8 "ragel/././utf8-grammar.rl"
-                { cp = (*p); }
+                { cp = (*p); cp_min = 0; }
                 goto st2;
             tr159 :
 #line 58 "ragel/./text-grammar.rl"
             {
                 cp = decode_esc((*p));
+                cp_min = 1;
             }
                 goto st2;
             tr165 :
 #line 59 "ragel/./text-grammar.rl"
             {
                 cp = decode_hex_cp(Slice{p - 4, 4});
+                cp_min = 1;
             }
 #line 43 "ragel/./text-grammar.rl"
-                { cp_size++; }
+                { cp_size++; if (!IsValidCodepoint(cp, cp_min)) malformed = true; }
 #line 8 "ragel/././utf8-grammar.rl"
-                { cp = (*p); }
+                { cp = (*p); cp_min = 0; }
                 goto st2;
             tr171 :
 #line 7 "ragel/././utf8-grammar.rl"
@@ -803,6 +806,7 @@ Status TextFrame::Cursor::Next() {
 #line 43 "ragel/./text-grammar.rl"
             {
                 cp_size++;
+                if (!IsValidCodepoint(cp, cp_min)) malformed = true;
             }
 #line 23 "ragel/./text-grammar.rl"
                 {
@@ -814,9 +818,10 @@ Status TextFrame::Cursor::Next() {
 #line 59 "ragel/./text-grammar.rl"
             {
                 cp = decode_hex_cp(Slice{p - 4, 4});
+                cp_min = 1;
             }
 #line 43 "ragel/./text-grammar.rl"
-                { cp_size++; }
+                { cp_size++; if (!IsValidCodepoint(cp, cp_min)) malformed = true; }
 #line 23 "ragel/./text-grammar.rl"
                 {
                     op_.emplace_back(STRING, Range{buffer, strb, p});
@@ -1433,31 +1438,34 @@ Status TextFrame::Cursor::Next() {
                 cp_size = 0;
             }
 #line 8 "ragel/././utf8-grammar.rl"
-                { cp = (*p); }
+                { cp = (*p); cp_min = 0; }
                 goto st7;
             tr33 :
 #line 43 "ragel/./text-grammar.rl"
             {
                 cp_size++;
+                if (!IsValidCodepoint(cp, cp_min)) malformed = true;
             }
 #line 8 "ragel/././utf8-grammar.rl"
-                { cp = (*p); }
+                { cp = (*p); cp_min = 0; }
                 goto st7;
             tr44 :
 #line 58 "ragel/./text-grammar.rl"
             {
                 cp = decode_esc((*p));
+                cp_min = 1;
             }
                 goto st7;
             tr50 :
 #line 59 "ragel/./text-grammar.rl"
             {
                 cp = decode_hex_cp(Slice{p - 4, 4});
+                cp_min = 1;
             }
 #line 43 "ragel/./text-grammar.rl"
-                { cp_size++; }
+                { cp_size++; if (!IsValidCodepoint(cp, cp_min)) malformed = true; }
 #line 8 "ragel/././utf8-grammar.rl"
-                { cp = (*p); }
+                { cp = (*p); cp_min = 0; }
                 goto st7;
             tr56 :
 #line 7 "ragel/././utf8-grammar.rl"
@@ -1510,6 +1518,7 @@ Status TextFrame::Cursor::Next() {
 #line 43 "ragel/./text-grammar.rl"
             {
                 cp_size++;
+                if (!IsValidCodepoint(cp, cp_min)) malformed = true;
             }
 #line 23 "ragel/./text-grammar.rl"
                 {
@@ -1521,9 +1530,10 @@ Status TextFrame::Cursor::Next() {
 #line 59 "ragel/./text-grammar.rl"
             {
                 cp = decode_hex_cp(Slice{p - 4, 4});
+                cp_min = 1;
             }
 #line 43 "ragel/./text-grammar.rl"
-                { cp_size++; }
+                { cp_size++; if (!IsValidCodepoint(cp, cp_min)) malformed = true; }
 #line 23 "ragel/./text-grammar.rl"
                 {
                     op_.emplace_back(STRING, Range{buffer, strb, p});
@@ -1659,15 +1669,17 @@ Status TextFrame::Cursor::Next() {
 #line 43 "ragel/./text-grammar.rl"
             {
                 cp_size++;
+                if (!IsValidCodepoint(cp, cp_min)) malformed = true;
             }
                 goto st11;
             tr52 :
 #line 59 "ragel/./text-grammar.rl"
             {
                 cp = decode_hex_cp(Slice{p - 4, 4});
+                cp_min = 1;
             }
 #line 43 "ragel/./text-grammar.rl"
-                { cp_size++; }
+                { cp_size++; if (!IsValidCodepoint(cp, cp_min)) malformed = true; }
                 goto st11;
             st11:
                 if (++p == pe) goto _test_eof11;
@@ -1769,25 +1781,27 @@ Status TextFrame::Cursor::Next() {
                 cp_size = 0;
             }
 #line 9 "ragel/././utf8-grammar.rl"
-                { cp = (*p) & 0x1f; }
+                { cp = (*p) & 0x1f; cp_min = 0x80; }
                 goto st17;
             tr36 :
 #line 43 "ragel/./text-grammar.rl"
             {
                 cp_size++;
+                if (!IsValidCodepoint(cp, cp_min)) malformed = true;
             }
 #line 9 "ragel/././utf8-grammar.rl"
-                { cp = (*p) & 0x1f; }
+                { cp = (*p) & 0x1f; cp_min = 0x80; }
                 goto st17;
             tr53 :
 #line 59 "ragel/./text-grammar.rl"
             {
                 cp = decode_hex_cp(Slice{p - 4, 4});
+                cp_min = 1;
             }
 #line 43 "ragel/./text-grammar.rl"
-                { cp_size++; }
+                { cp_size++; if (!IsValidCodepoint(cp, cp_min)) malformed = true; }
 #line 9 "ragel/././utf8-grammar.rl"
-                { cp = (*p) & 0x1f; }
+                { cp = (*p) & 0x1f; cp_min = 0x80; }
                 goto st17;
             tr57 :
 #line 7 "ragel/././utf8-grammar.rl"
@@ -1808,25 +1822,27 @@ Status TextFrame::Cursor::Next() {
                 cp_size = 0;
             }
 #line 10 "ragel/././utf8-grammar.rl"
-                { cp = (*p) & 0xf; }
+                { cp = (*p) & 0xf; cp_min = 0x800; }
                 goto st18;
             tr37 :
 #line 43 "ragel/./text-grammar.rl"
             {
                 cp_size++;
+                if (!IsValidCodepoint(cp, cp_min)) malformed = true;
             }
 #line 10 "ragel/././utf8-grammar.rl"
-                { cp = (*p) & 0xf; }
+                { cp = (*p) & 0xf; cp_min = 0x800; }
                 goto st18;
             tr54 :
 #line 59 "ragel/./text-grammar.rl"
             {
                 cp = decode_hex_cp(Slice{p - 4, 4});
+                cp_min = 1;
             }
 #line 43 "ragel/./text-grammar.rl"
-                { cp_size++; }
+                { cp_size++; if (!IsValidCodepoint(cp, cp_min)) malformed = true; }
 #line 10 "ragel/././utf8-grammar.rl"
-                { cp = (*p) & 0xf; }
+                { cp = (*p) & 0xf; cp_min = 0x800; }
                 goto st18;
             tr58 :
 #line 7 "ragel/././utf8-grammar.rl"
@@ -1847,25 +1863,27 @@ Status TextFrame::Cursor::Next() {
                 cp_size = 0;
             }
 #line 11 "ragel/././utf8-grammar.rl"
-                { cp = (*p) & 7; }
+                { cp = (*p) & 7; cp_min = 0x10000; }
                 goto st19;
             tr38 :
 #line 43 "ragel/./text-grammar.rl"
             {
                 cp_size++;
+                if (!IsValidCodepoint(cp, cp_min)) malformed = true;
             }
 #line 11 "ragel/././utf8-grammar.rl"
-                { cp = (*p) & 7; }
+                { cp = (*p) & 7; cp_min = 0x10000; }
                 goto st19;
             tr55 :
 #line 59 "ragel/./text-grammar.rl"
             {
                 cp = decode_hex_cp(Slice{p - 4, 4});
+                cp_min = 1;
             }
 #line 43 "ragel/./text-grammar.rl"
-                { cp_size++; }
+                { cp_size++; if (!IsValidCodepoint(cp, cp_min)) malformed = true; }
 #line 11 "ragel/././utf8-grammar.rl"
-                { cp = (*p) & 7; }
+                { cp = (*p) & 7; cp_min = 0x10000; }
                 goto st19;
             st19:
                 if (++p == pe) goto _test_eof19;
@@ -3575,15 +3593,17 @@ Status TextFrame::Cursor::Next() {
 #line 43 "ragel/./text-grammar.rl"
             {
                 cp_size++;
+                if (!IsValidCodepoint(cp, cp_min)) malformed = true;
             }
                 goto st51;
             tr167 :
 #line 59 "ragel/./text-grammar.rl"
             {
                 cp = decode_hex_cp(Slice{p - 4, 4});
+                cp_min = 1;
             }
 #line 43 "ragel/./text-grammar.rl"
-                { cp_size++; }
+                { cp_size++; if (!IsValidCodepoint(cp, cp_min)) malformed = true; }
                 goto st51;
             st51:
                 if (++p == pe) goto _test_eof51;
@@ -3685,25 +3705,27 @@ Status TextFrame::Cursor::Next() {
                 cp_size = 0;
             }
 #line 9 "ragel/././utf8-grammar.rl"
-                { cp = (*p) & 0x1f; }
+                { cp = (*p) & 0x1f; cp_min = 0x80; }
                 goto st57;
             tr10 :
 #line 43 "ragel/./text-grammar.rl"
             {
                 cp_size++;
+                if (!IsValidCodepoint(cp, cp_min)) malformed = true;
             }
 #line 9 "ragel/././utf8-grammar.rl"
-                { cp = (*p) & 0x1f; }
+                { cp = (*p) & 0x1f; cp_min = 0x80; }
                 goto st57;
             tr168 :
 #line 59 "ragel/./text-grammar.rl"
             {
                 cp = decode_hex_cp(Slice{p - 4, 4});
+                cp_min = 1;
             }
 #line 43 "ragel/./text-grammar.rl"
-                { cp_size++; }
+                { cp_size++; if (!IsValidCodepoint(cp, cp_min)) malformed = true; }
 #line 9 "ragel/././utf8-grammar.rl"
-                { cp = (*p) & 0x1f; }
+                { cp = (*p) & 0x1f; cp_min = 0x80; }
                 goto st57;
             tr172 :
 #line 7 "ragel/././utf8-grammar.rl"
@@ -3724,25 +3746,27 @@ Status TextFrame::Cursor::Next() {
                 cp_size = 0;
             }
 #line 10 "ragel/././utf8-grammar.rl"
-                { cp = (*p) & 0xf; }
+                { cp = (*p) & 0xf; cp_min = 0x800; }
                 goto st58;
             tr11 :
 #line 43 "ragel/./text-grammar.rl"
             {
                 cp_size++;
+                if (!IsValidCodepoint(cp, cp_min)) malformed = true;
             }
 #line 10 "ragel/././utf8-grammar.rl"
-                { cp = (*p) & 0xf; }
+                { cp = (*p) & 0xf; cp_min = 0x800; }
                 goto st58;
             tr169 :
 #line 59 "ragel/./text-grammar.rl"
             {
                 cp = decode_hex_cp(Slice{p - 4, 4});
+                cp_min = 1;
             }
 #line 43 "ragel/./text-grammar.rl"
-                { cp_size++; }
+                { cp_size++; if (!IsValidCodepoint(cp, cp_min)) malformed = true; }
 #line 10 "ragel/././utf8-grammar.rl"
-                { cp = (*p) & 0xf; }
+                { cp = (*p) & 0xf; cp_min = 0x800; }
                 goto st58;
             tr173 :
 #line 7 "ragel/././utf8-grammar.rl"
@@ -3763,25 +3787,27 @@ Status TextFrame::Cursor::Next() {
                 cp_size = 0;
             }
 #line 11 "ragel/././utf8-grammar.rl"
-                { cp = (*p) & 7; }
+                { cp = (*p) & 7; cp_min = 0x10000; }
                 goto st59;
             tr12 :
 #line 43 "ragel/./text-grammar.rl"
             {
                 cp_size++;
+                if (!IsValidCodepoint(cp, cp_min)) malformed = true;
             }
 #line 11 "ragel/././utf8-grammar.rl"
-                { cp = (*p) & 7; }
+                { cp = (*p) & 7; cp_min = 0x10000; }
                 goto st59;
             tr170 :
 #line 59 "ragel/./text-grammar.rl"
             {
                 cp = decode_hex_cp(Slice{p - 4, 4});
+                cp_min = 1;
             }
 #line 43 "ragel/./text-grammar.rl"
-                { cp_size++; }
+                { cp_size++; if (!IsValidCodepoint(cp, cp_min)) malformed = true; }
 #line 11 "ragel/././utf8-grammar.rl"
-                { cp = (*p) & 7; }
+                { cp = (*p) & 7; cp_min = 0x10000; }
                 goto st59;
             st59:
                 if (++p == pe) goto _test_eof59;
diff --git a/ron/utf8-parser.cc b/ron/utf8-parser.cc
index 8b23d36..d18c324 100644
--- a/ron/utf8-parser.cc
+++ b/ron/utf8-parser.cc
@@ -22,7 +22,8 @@ Result ParseUtf8(Codepoints& into, const String& from) {
     CharRef p = reinterpret_cast<CharRef>(from.data());
     CharRef pe = p + from.size();
     CharRef eof = pe;
-    Codepoint cp = 0;
+    Codepoint cp = 0, cp_min = 0;
+    bool malformed{false};
     int cs = 0;
 
 #line 32 "ron/utf8-parser.cc"
@@ -58,16 +59,19 @@ Result ParseUtf8(Codepoints& into, const String& from) {
 #line 8 "ragel/./utf8-grammar.rl"
             {
                 cp = (*p);
+                cp_min = 0;
             }
                 goto st5;
             tr8 :
 #line 21 "ragel/utf8-parser.rl"
             {
-                into.push_back(cp);
+                if (IsValidCodepoint(cp, cp_min)) {
+                    into.push_back(cp);
+                } else malformed = true;
                 cp = 0;
             }
 #line 8 "ragel/./utf8-grammar.rl"
-                { cp = (*p); }
+                { cp = (*p); cp_min = 0; }
                 goto st5;
             st5:
                 if (++p == pe) goto _test_eof5;
@@ -99,16 +103,19 @@ Result ParseUtf8(Codepoints& into, const String& from) {
 #line 9 "ragel/./utf8-grammar.rl"
             {
                 cp = (*p) & 0x1f;
+                cp_min = 0x80;
             }
                 goto st1;
             tr9 :
 #line 21 "ragel/utf8-parser.rl"
             {
-                into.push_back(cp);
+                if (IsValidCodepoint(cp, cp_min)) {
+                    into.push_back(cp);
+                } else malformed = true;
                 cp = 0;
             }
 #line 9 "ragel/./utf8-grammar.rl"
-                { cp = (*p) & 0x1f; }
+                { cp = (*p) & 0x1f; cp_min = 0x80; }
                 goto st1;
             st1:
                 if (++p == pe) goto _test_eof1;
@@ -126,16 +133,19 @@ Result ParseUtf8(Codepoints& into, const String& from) {
 #line 10 "ragel/./utf8-grammar.rl"
             {
                 cp = (*p) & 0xf;
+                cp_min = 0x800;
             }
                 goto st2;
             tr10 :
 #line 21 "ragel/utf8-parser.rl"
             {
-                into.push_back(cp);
+                if (IsValidCodepoint(cp, cp_min)) {
+                    into.push_back(cp);
+                } else malformed = true;
                 cp = 0;
             }
 #line 10 "ragel/./utf8-grammar.rl"
-                { cp = (*p) & 0xf; }
+                { cp = (*p) & 0xf; cp_min = 0x800; }
                 goto st2;
             st2:
                 if (++p == pe) goto _test_eof2;
@@ -147,16 +157,19 @@ Result ParseUtf8(Codepoints& into, const String& from) {
 #line 11 "ragel/./utf8-grammar.rl"
             {
                 cp = (*p) & 7;
+                cp_min = 0x10000;
             }
                 goto st3;
             tr11 :
 #line 21 "ragel/utf8-parser.rl"
             {
-                into.push_back(cp);
+                if (IsValidCodepoint(cp, cp_min)) {
+                    into.push_back(cp);
+                } else malformed = true;
                 cp = 0;
             }
 #line 11 "ragel/./utf8-grammar.rl"
-                { cp = (*p) & 7; }
+                { cp = (*p) & 7; cp_min = 0x10000; }
                 goto st3;
             st3:
                 if (++p == pe) goto _test_eof3;
@@ -184,7 +197,9 @@ Result ParseUtf8(Codepoints& into, const String& from) {
                 case 5:
 #line 21 "ragel/utf8-parser.rl"
                 {
-                    into.push_back(cp);
+                    if (IsValidCodepoint(cp, cp_min)) {
+                        into.push_back(cp);
+                    } else malformed = true;
                     cp = 0;
                 } break;
 #line 189 "ron/utf8-parser.cc"
@@ -196,7 +211,7 @@ Result ParseUtf8(Codepoints& into, const String& from) {
 
 #line 28 "ragel/utf8-parser.rl"
 
-    return cs >= UTF8CP_first_final ? OK : BADSYNTAX;
+    return cs >= UTF8CP_first_final && !malformed ? OK : BADSYNTAX;
 }
 
 }  // namespace ron
-- 
2.43.0


From a06435d090358ba98ea0e47590dc306b69f4f9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:09 +0000
Subject: [PATCH 10/64] fix: parse hash texts at all, they were read as all
 zeros; refuse over-long ones

---
 ron/hash.hpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/ron/hash.hpp b/ron/hash.hpp
index 52b87e4..acc141b 100644
--- a/ron/hash.hpp
+++ b/ron/hash.hpp
@@ -60,23 +60,28 @@ struct SHA2 {
         return data;
     }
 
+    void SetKnownBits(String& bits, uint32_t bit_size) {
+        bits.resize(SIZE, 0);
+        std::swap(bits_, bits);
+        known_bits_ = std::min(bit_size, uint32_t(BIT_SIZE));
+    }
+
     static SHA2 ParseHex(const String& hash) {
         SHA2 ret;
-        assert(hash.size() <= HEX_SIZE);
+        if (hash.size() > HEX_SIZE) return ret;
         uint32_t b = uint32_t(hash.size()) << 2;
-        if (b > BIT_SIZE) b = BIT_SIZE;
-        if (decode<4, ABC16>(ret.bits_, hash, ret.known_bits_))
-            ret.known_bits_ = b;
+        String bits;
+        if (decode<4, ABC16>(bits, hash, b)) ret.SetKnownBits(bits, b);
         return ret;
     }
 
     static SHA2 ParseBase64(const String& hash) {
         SHA2 ret;
-        assert(hash.size() <= BASE64_SIZE);
+        if (hash.size() > BASE64_SIZE) return ret;
+        if (hash.size() == BASE64_SIZE && !valid(hash)) return ret;
         uint32_t b = uint32_t(hash.size()) * 6;
-        if (b > BIT_SIZE) b = BIT_SIZE;
-        if (decode<6, ABC64>(ret.bits_, hash, ret.known_bits_))
-            ret.known_bits_ = b;
+        String bits;
+        if (decode<6, ABC64>(bits, hash, b)) ret.SetKnownBits(bits, b);
         return ret;
     }
 
-- 
2.43.0


From 0b4aed245df877c87d34eff50bea629e5530772c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:45 +0000
Subject: [PATCH 11/64] fix: write the id of an op along with its ref, a lone
 ref is no valid spec

---
 ron/text.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ron/text.hpp b/ron/text.hpp
index 4d7118c..b5a734c 100644
--- a/ron/text.hpp
+++ b/ron/text.hpp
@@ -172,13 +172,14 @@ class TextFrame {
         void WriteSpec(Uuid id, Uuid ref) {
             WriteTerm();
             span_size_ = 1;
-            bool seq_id = id == prev_id_.inc();
-            if (!seq_id) {
+            bool seq_ref = ref == prev_id_;
+            // a ref can not go without an id
+            if (id != prev_id_.inc() || !seq_ref) {
                 Write(SPEC_PUNCT[EVENT]);
                 WriteUuid(id);
             }
-            if (ref != prev_id_) {
-                if (!seq_id) Write(' ');
+            if (!seq_ref) {
+                Write(' ');
                 Write(SPEC_PUNCT[REF]);
                 WriteUuid(ref);
             }
-- 
2.43.0


From c60bc477e0fd7c339ee20fb0919813f322c8faf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:52 +0000
Subject: [PATCH 12/64] fix: do not garble chars that are not one byte long,
 nor spans cut by a chunk end

---
 ron/text-builder.cc |  1 +
 ron/text.hpp        | 21 ++++++++-------------
 2 files changed, 9 insertions(+), 13 deletions(-)

diff --git a/ron/text-builder.cc b/ron/text-builder.cc
index 97705cd..0cdc306 100644
--- a/ron/text-builder.cc
+++ b/ron/text-builder.cc
@@ -19,6 +19,7 @@ Result TextFrame::Builder::WriteValues(const Cursor& cur) {
                 WriteUuid(A2U(atom));
                 break;
             case STRING:
+                char_at_ = data_.size();
                 Write(ATOM_PUNCT[STRING]);
                 if (atom.value.cp) {  // a char
                     WriteCodepoint(atom.value.cp);
diff --git a/ron/text.hpp b/ron/text.hpp
index b5a734c..83399c2 100644
--- a/ron/text.hpp
+++ b/ron/text.hpp
@@ -134,6 +134,8 @@ class TextFrame {
         Uuid prev_id_;
         Atom prev_2_;
         fsize_t span_size_;
+        /** Where the last string starts (the opening quote). */
+        size_t char_at_{0};
 
         /** Frame data (builder owns the memory) */
         String data_;
@@ -204,6 +206,7 @@ class TextFrame {
                         WriteUuid(A2U(a));
                         break;
                     case STRING:
+                        char_at_ = data_.size();
                         Write(ATOM_PUNCT[STRING]);
                         while (a.value.cp) {
                             WriteCodepoint(a.value.cp);
@@ -242,6 +245,9 @@ class TextFrame {
 
         template <class Cursor2>
         inline bool is_same_span(const Cursor2& cur) const {
+            if (!span_size_) {  // the chunk is over
+                return false;
+            }
             if (cur.ref() != prev_id_) {
                 return false;
             }
@@ -256,19 +262,8 @@ class TextFrame {
             if (prev_2_.type() == STRING) {
                 Atom a = cur.op()[2];
                 if (span_size_ == 1) {
-                    char ret[8];
-                    fsize_t retc{0};
-                    data_.pop_back();
-                    while (data_.back() != ATOM_PUNCT[STRING]) {
-                        ret[retc++] = data_.back();
-                        data_.pop_back();
-                    }
-                    data_.pop_back();
-                    Write('(');
-                    Write(ATOM_PUNCT[STRING]);
-                    for (fsize_t i = 0; i < retc; ++i) {
-                        data_.push_back(ret[i]);
-                    }
+                    data_.pop_back();  // reopen the string
+                    data_.insert(char_at_, 1, '(');
                 }
                 if (!a.value.cp) {
                     cur.NextCodepoint(a);
-- 
2.43.0


From 4504f8941a4810808f83bab0f02f9d54c4546828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:59 +0000
Subject: [PATCH 13/64] fix: read the strings of an Op in full, not just the
 first char

---
 ron/frames.hpp | 6 +++++-
 ron/op.hpp     | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/ron/frames.hpp b/ron/frames.hpp
index e8d941a..07159d3 100644
--- a/ron/frames.hpp
+++ b/ron/frames.hpp
@@ -127,7 +127,7 @@ Result ReadString(String& to, const Cursor& c, Atom a) {
     assert(a.type() == STRING);
     if (a.value.cp != 0) {
         utf8append(to, a.value.cp);
-        return OK;
+        if (!a.value.cp_size) return OK;
     }
     Result ret{OK};
     while (OK == (ret = c.NextCodepoint(a))) {
@@ -139,6 +139,10 @@ Result ReadString(String& to, const Cursor& c, Atom a) {
 template <class Cursor>
 Result ReadString16(String16& to, const Cursor& c, Atom a) {
     assert(a.type() == STRING);
+    if (a.value.cp != 0) {
+        utf16append(to, a.value.cp);
+        if (!a.value.cp_size) return OK;
+    }
     Result ret{OK};
     while (OK == (ret = c.NextCodepoint(a))) {
         utf16append(to, a.value.cp);
diff --git a/ron/op.hpp b/ron/op.hpp
index 101fc7e..83866df 100644
--- a/ron/op.hpp
+++ b/ron/op.hpp
@@ -22,7 +22,7 @@ struct Op {
     Result NextCodepoint(Atom& a) const {
         if (!a.value.cp_size) {
             a.value.cp = 0;
-            return OUTOFRANGE;
+            return ENDOFINPUT;
         }
         a.value.cp = strings_[a.origin.as_range.begin()];
         --a.value.cp_size;
-- 
2.43.0


From 339023a62a693cfe060318a3c805f3f97c592271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:20 +0000
Subject: [PATCH 14/64] fix: Op::Amend copies the values, it took numbers for
 zeros and lost the ends of strings

---
 ron/op.hpp | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/ron/op.hpp b/ron/op.hpp
index 83866df..13971d8 100644
--- a/ron/op.hpp
+++ b/ron/op.hpp
@@ -55,6 +55,12 @@ struct Op {
     void WriteAtoms(const String& value, Ts... args) {
         fsize_t b = strings_.size();
         Result re = ParseUtf8(strings_, value);
+        PushString(b);
+        WriteAtoms(args...);
+    }
+
+    /** Adds an atom for the tail of strings_ starting at b. */
+    void PushString(fsize_t b) {
         fsize_t cp_size = strings_.size() - b;
         if (cp_size) {
             Range range{b + 1, FSIZE(strings_.size())};
@@ -62,7 +68,6 @@ struct Op {
         } else {
             atoms_.push_back(Atom::String(0, Range{b, b}, cp_size));
         }
-        WriteAtoms(args...);
     }
 
     /** A convenience API method to add an op with any number of atoms. */
@@ -82,20 +87,23 @@ struct Op {
     Result WriteValues(const Cursor& cur) {
         const Atoms& op = cur.op();
         for (fsize_t i = 2; i < op.size(); ++i) {
-            Atom a = op[i];
-            if (a.type() != STRING) {
+            Atom a = cur.atom(i);  // parsed
+            if (a.type() == INT) {
+                WriteAtoms(a.value.as_integer);
+                continue;
+            } else if (a.type() == FLOAT) {
+                WriteAtoms(a.value.as_float);
+                continue;
+            } else if (a.type() != STRING) {
                 atoms_.push_back(a);
                 continue;
             }
             fsize_t b = strings_.size();
-            fsize_t cp_size{0};
-            while (a.value.cp_size) {  // Oopsie!!! FIXME
+            if (a.value.cp) strings_.push_back(a.value.cp);  // not BTB
+            while (a.value.cp_size && cur.NextCodepoint(a) == ron::OK) {
                 strings_.push_back(a.value.cp);
-                cur.NextCodepoint(a);
-                ++cp_size;
             }
-            Range range{b, FSIZE(strings_.size())};
-            atoms_.push_back(Atom::String(strings_[b], range, cp_size));
+            PushString(b);
         }
         return OK;
     }
-- 
2.43.0


From 7d84a19415c4f118b22e7afe3aa833353d1513ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:17 +0000
Subject: [PATCH 15/64] fix: end a chunk with the last op of a span, not with
 each of its ops

---
 ragel/text-parser.rl | 4 +++-
 ron/text-parser.cc   | 4 +++-
 ron/text.hpp         | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/ragel/text-parser.rl b/ragel/text-parser.rl
index 7d5dffa..6c16b1b 100644
--- a/ragel/text-parser.rl
+++ b/ragel/text-parser.rl
@@ -21,6 +21,7 @@ Status TextFrame::Cursor::Next () {
         if (atoms.back().type()==STRING && atoms.back().value.cp) {
             NextCodepoint(atoms.back());
         }
+        if (!span_size_) term_ = span_term_;
         return Status::OK;
     }
 
@@ -82,7 +83,8 @@ Status TextFrame::Cursor::Next () {
     //std::cerr << "ending with [" <<p<<"] state "<<cs<<" "<<op_.size()<<" atoms "<<(pe-p)<<" bytes left, prev_id_ "<<prev_id_.str()<<'\n';
 
     if (term && cs!=RON_error) {
-        term_ = chr2term(term); // FIXME gen a fn
+        span_term_ = chr2term(term); // FIXME gen a fn
+        term_ = span_size_ ? REDUCED : span_term_; // the last op ends the chunk
         return Status::OK;
     } else if (cs>=RON_first_final) {
         cs = RON_error;
diff --git a/ron/text-parser.cc b/ron/text-parser.cc
index d80d3d7..c8b52c7 100644
--- a/ron/text-parser.cc
+++ b/ron/text-parser.cc
@@ -29,6 +29,7 @@ Status TextFrame::Cursor::Next() {
         if (atoms.back().type() == STRING && atoms.back().value.cp) {
             NextCodepoint(atoms.back());
         }
+        if (!span_size_) term_ = span_term_;
         return Status::OK;
     }
 
@@ -4678,7 +4679,8 @@ Status TextFrame::Cursor::Next() {
     // atoms "<<(pe-p)<<" bytes left, prev_id_ "<<prev_id_.str()<<'\n';
 
     if (term && cs != RON_error) {
-        term_ = chr2term(term);  // FIXME gen a fn
+        span_term_ = chr2term(term);  // FIXME gen a fn
+        term_ = span_size_ ? REDUCED : span_term_;  // the last op ends the chunk
         return Status::OK;
     } else if (cs >= RON_first_final) {
         cs = RON_error;
diff --git a/ron/text.hpp b/ron/text.hpp
index 83399c2..91792d7 100644
--- a/ron/text.hpp
+++ b/ron/text.hpp
@@ -35,10 +35,11 @@ class TextFrame {
         Slice data_;           // 16 remaining data, base for ranges
         Atoms op_;             // 24
         TERM term_;            // 1
+        TERM span_term_;       // 1 the term of the current span
         uint8_t ragel_state_;  // 1
         fsize_t line_;         // 4
         fsize_t span_size_;    // 4
-                               // 50 bytes total
+                               // 51 bytes total
 
         static constexpr int RON_FULL_STOP = 255;
         static constexpr int SPEC_SIZE = 2;  // open RON
@@ -69,6 +70,7 @@ class TextFrame {
         explicit Cursor(const Slice data)
             : data_{data},
               op_{TERM::RAW},
+              span_term_{TERM::RAW},
               ragel_state_{0},
               line_{1},
               span_size_{0} {}
-- 
2.43.0


From 4dee7f44aa09a020c175e4a75b70e7b320b8f96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:48 +0000
Subject: [PATCH 16/64] fix: start every frame of a reused builder afresh, ids
 and spans do not carry over

---
 ron/text.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ron/text.hpp b/ron/text.hpp
index 91792d7..33ae79e 100644
--- a/ron/text.hpp
+++ b/ron/text.hpp
@@ -277,6 +277,12 @@ class TextFrame {
             return OK;
         }
 
+        /** The next frame is read on its own. */
+        inline void Reset() {
+            prev_id_ = Uuid::NIL;
+            prev_2_ = Uuid::FATAL;
+        }
+
        public:
         Builder()
             : prev_id_{Uuid::NIL},
@@ -318,7 +324,9 @@ class TextFrame {
         }
 
         Result EndFrame() {
+            WriteTerm(RAW);
             Write(FRAME_TERM);
+            Reset();
             return OK;
         }
 
@@ -328,6 +336,7 @@ class TextFrame {
             }
             std::swap(data_, to);
             data_.clear();
+            Reset();
             return OK;
         }
 
-- 
2.43.0


From 77043f39ab52b70481fe2aa1df58bb239cc3145e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:45 +0000
Subject: [PATCH 17/64] fix: convert astral chars and U+D7FF to standard UTF-16
 and back

---
 ron/encdec.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ron/encdec.hpp b/ron/encdec.hpp
index 40ebc94..346de97 100644
--- a/ron/encdec.hpp
+++ b/ron/encdec.hpp
@@ -146,9 +146,10 @@ inline void utf8esc_append(String& to, Codepoint cp) {
 }
 
 inline void utf16append(std::u16string& to, Codepoint cp) {
-    if (cp < 0xd7ff || (cp < 0x10000 && cp >= 0xe000)) {
+    if (cp < 0x10000) {
         to.push_back(static_cast<char16_t>(cp));
     } else {
+        cp -= 0x10000;
         to.push_back(static_cast<char16_t>(0xd800 + (cp >> 10)));
         to.push_back(static_cast<char16_t>(0xdc00 + (cp & 1023)));
     }
@@ -209,12 +210,15 @@ inline Codepoint utf16read(std::u16string::const_iterator& at,
     if (ret >= 0xe000) {
         return ret;
     }
+    if (at == end) {
+        return CP_ERROR;
+    }
     ret -= 0xd800;
     uint16_t next = *at;
     ret <<= 10;
     ret |= next - 0xdc00;
     ++at;
-    return ret;
+    return ret + 0x10000;
 }
 
 void utf8utf16(std::u16string& to, const String& from);
-- 
2.43.0


From 84501a66ff163c0b8c909bc0bf9fee992ec52fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:52 +0000
Subject: [PATCH 18/64] fix: Slice::str copies the slice, not the bytes past it

---
 ron/slice.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ron/slice.hpp b/ron/slice.hpp
index 8029269..bcd3295 100644
--- a/ron/slice.hpp
+++ b/ron/slice.hpp
@@ -213,8 +213,8 @@ class Slice {
     }
 
     inline String str() const {
-        return String{reinterpret_cast<const String::value_type*>(buf_),
-                      range_.begin(), range_.end()};
+        return String{reinterpret_cast<const String::value_type*>(begin()),
+                      size()};
     }
 
     inline Range range_of(Slice sub) const {
-- 
2.43.0


From bd390a54d1350a127850b8b688cfa9b54feb4dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:56 +0000
Subject: [PATCH 19/64] fix: the hash of a string value does not depend on how
 far it is parsed

---
 ron/hash.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ron/hash.hpp b/ron/hash.hpp
index acc141b..8b092ce 100644
--- a/ron/hash.hpp
+++ b/ron/hash.hpp
@@ -152,7 +152,8 @@ void WriteOpHashable(const Cursor& cursor, SomeStream& stream,
                 stream.WriteAtomRangeless(atom);
                 break;
             case STRING:
-                stream.WriteAtomRangeless(atom);
+                // same hash for any parsing state of the atom
+                stream.WriteAtomRangeless(Atom::String(0, {}, StringSize(atom)));
                 // TODO: slice_t, no alloc
                 String str;
                 ReadString(str, cursor, atom);
-- 
2.43.0


From 24bc0b4932f27eac884d0e3afed75f6e938ab9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:01 +0000
Subject: [PATCH 20/64] fix: form2uuid does not read past the table of forms

---
 ron/form.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ron/form.hpp b/ron/form.hpp
index 2a2ed67..bc76398 100644
--- a/ron/form.hpp
+++ b/ron/form.hpp
@@ -108,7 +108,7 @@ inline FORM uuid2form(Uuid u) {
 }
 
 inline Uuid form2uuid(FORM form) {
-    if (form < sizeof(FORMS)) {
+    if (form < sizeof(FORMS) / sizeof(*FORMS)) {
         return Uuid{FORMS[form], 0};
     } else {
         return Uuid::FATAL;
-- 
2.43.0


From b49380d2612e871cb67a1b8c424b1613fc727a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:06 +0000
Subject: [PATCH 21/64] fix: inc_stack iterators advance by values, not by
 spans

---
 ron/inc_stack.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ron/inc_stack.hpp b/ron/inc_stack.hpp
index 1e7a893..92f0024 100644
--- a/ron/inc_stack.hpp
+++ b/ron/inc_stack.hpp
@@ -41,12 +41,14 @@ class inc_stack {
             return i_ != b.i_ || off_ != b.off_;
         }
         void operator+=(len_t advance) {
+            advance += off_;
+            off_ = 0;
             while (advance > 0) {
                 if (i_->size <= advance) {
                     advance -= i_->size;
                     ++i_;
                 } else {
-                    i_ += advance;
+                    off_ = advance;
                     advance = 0;
                 }
             }
-- 
2.43.0


From f99d0d00d8f8c2f29954c5aba9e671b52998fe4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:10 +0000
Subject: [PATCH 22/64] fix: write all the digits of a partially known hash,
 make none up

---
 ron/encdec.hpp | 11 ++++++-----
 ron/hash.hpp   |  5 +++--
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/ron/encdec.hpp b/ron/encdec.hpp
index 346de97..5d1f315 100644
--- a/ron/encdec.hpp
+++ b/ron/encdec.hpp
@@ -14,12 +14,13 @@ void encode(String& coded, Slice raw, int bit_size) {
     uint32_t bits = 0;
     uint32_t bc = 0;
     static constexpr uint32_t MASK = (1U << bit_width) - 1U;
-    while (bit_size >= 8) {
-        bits <<= 8;
-        bc += 8;
-        bits |= *raw;
+    while (bit_size > 0) {
+        int step = bit_size < 8 ? bit_size : 8;
+        bits <<= step;
+        bc += step;
+        bits |= *raw >> (8 - step);
         ++raw;
-        bit_size -= 8;
+        bit_size -= step;
         while (bc >= bit_width) {
             bc -= bit_width;
             coded.push_back(coding[(bits >> bc) & MASK]);
diff --git a/ron/hash.hpp b/ron/hash.hpp
index 8b092ce..5cc1473 100644
--- a/ron/hash.hpp
+++ b/ron/hash.hpp
@@ -56,7 +56,7 @@ struct SHA2 {
     String hex() const {
         String data;
         data.reserve(HEX_SIZE);
-        encode<4, HEX_PUNCT>(data, bits_, known_bits_);
+        encode<4, HEX_PUNCT>(data, bits_, known_bits_ / 4 * 4);
         return data;
     }
 
@@ -91,7 +91,8 @@ struct SHA2 {
     String base64() const {
         String data;
         data.reserve(BASE64_SIZE);
-        encode<6, BASE_PUNCT>(data, bits_, known_bits_);
+        uint32_t b = known_bits_ == BIT_SIZE ? BIT_SIZE : known_bits_ / 6 * 6;
+        encode<6, BASE_PUNCT>(data, bits_, b);
         return data;
     }
 
-- 
2.43.0


From 6e06f5c540378fd4a283e5bd58b7c573aea8eb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:23 +0000
Subject: [PATCH 23/64] fix: hash_op yields a known hash

---
 ron/hash.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ron/hash.hpp b/ron/hash.hpp
index 5cc1473..c30e453 100644
--- a/ron/hash.hpp
+++ b/ron/hash.hpp
@@ -187,6 +187,7 @@ inline void hash_op(const typename Frame::Cursor& cur, SHA2& hash,
     WriteOpHashable<typename Frame::Cursor, SHA2Stream>(cur, stream, prev_hash,
                                                         ref_hash);
     stream.close(hash.bits_);
+    hash.known_bits_ = SHA2::BIT_SIZE;
 }
 
 template <typename Cursor>
-- 
2.43.0


From ce919ac30ddf078c2dfb195f1bc753571a6b43db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:01 +0000
Subject: [PATCH 24/64] fix: merge any number of causal tree pieces, not just
 three

---
 rdt/rga.hpp | 52 +++++++++++++++-------------------------------------
 1 file changed, 15 insertions(+), 37 deletions(-)

diff --git a/rdt/rga.hpp b/rdt/rga.hpp
index 5fc9140..bb9bb49 100644
--- a/rdt/rga.hpp
+++ b/rdt/rga.hpp
@@ -2,7 +2,7 @@
 #define CPP_RGA_HPP
 
 #include <algorithm>
-#include <unordered_map>
+#include <vector>
 #include "../ron/ron.hpp"
 #include "merge.hpp"
 
@@ -32,38 +32,19 @@ class RGArrayRDT {
     } id_cmp;
 
    public:
-    Status MergeBig(Builder &output, Cursors &inputs) const {
-        /*
-        typedef unordered_multimap<Uuid, Cursor *> insmap_t;
-        insmap_t inserts;
-        using insmap_t::value_type insmapval_t;
-        insmapval_t least{FATAL, nullptr};
-        for (int i = 0; i < inputs.size(); i++) {
-            const Cursor &c = inputs[i];
-            insmapval_t entry{c.id(), &c};
-            if (c.id() < least.first) least = entry;
-            inserts.insert(entry);
-        }
-
-        MCursor m{};
-        m.Add(*least.second);
-        inserts.erase(least);  //?
-        */
-        return Status::NOT_IMPLEMENTED;
-    }
-
     Status Merge(Builder &output, Cursors &inputs) const {
-        if (inputs.size() > 3) return MergeBig(output, inputs);
-
         MCursor m{};
         auto max = std::min_element(inputs.begin(), inputs.end(), id_cmp);
-        uint64_t added{0}, b{1};  // TODO refs[MAX_INPUTS]
+        std::vector<bool> added(inputs.size(), false);
+        size_t left{inputs.size()};
+        auto add = [&](PCursor i) {
+            m.Add(i);
+            added[i - inputs.begin()] = true;
+            --left;
+        };
         PCursor i;
-        for (i = inputs.begin(), b = 1; i != inputs.end(); i++, b <<= 1U) {
-            if (i->id() == max->id()) {
-                m.Add(i);
-                added |= b;
-            }
+        for (i = inputs.begin(); i != inputs.end(); i++) {
+            if (i->id() == max->id()) add(i);
         }
 
         while (!m.empty()) {
@@ -71,17 +52,14 @@ class RGArrayRDT {
             output.AppendOp(cur);
             const Uuid id = cur.id();
             m.Next();
-            for (i = inputs.begin(), b = 1; i != inputs.end(); i++, b <<= 1U)
-                if ((b & added) == 0 && i->ref() == id) {
-                    m.Add(i);
-                    added |= b;
-                }
+            if (!left) continue;
+            for (i = inputs.begin(); i != inputs.end(); i++)
+                if (!added[i - inputs.begin()] && i->ref() == id) add(i);
         }
         output.EndChunk(RAW);
 
-        return ++added == 1 << inputs.size()
-                   ? Status::OK
-                   : Status::CAUSEBREAK.comment("unattacheable pieces");
+        return !left ? Status::OK
+                     : Status::CAUSEBREAK.comment("unattacheable pieces");
     }
 
     Status GC(Builder &output, const Frame &input) const {
-- 
2.43.0


From 4a1125ffd76a30c255e19016d6d8d225ad88d0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:07 +0000
Subject: [PATCH 25/64] fix: the merge of a max object finds the root and the
 max in any input, compares values as values

---
 rdt/max.hpp | 57 +++++++++++++++++++++++++++++++++++------------------
 1 file changed, 38 insertions(+), 19 deletions(-)

diff --git a/rdt/max.hpp b/rdt/max.hpp
index 45cd5a8..cf59e84 100644
--- a/rdt/max.hpp
+++ b/rdt/max.hpp
@@ -1,8 +1,8 @@
 #ifndef rdt_max_hpp
 #define rdt_max_hpp
 
-#include <unordered_map>
 #include "../ron/form.hpp"
+#include "../ron/frames.hpp"
 #include "merge.hpp"
 
 namespace ron {
@@ -13,34 +13,53 @@ class MaxRDT {
     using Cursor = typename Frame::Cursor;
     using Cursors = typename Frame::Cursors;
 
-    static bool Less(const Cursor &a, const Cursor &b) {
-        if (a.op().size() == 2) {
-            if (b.op().size() > 2) return true;
-            return b.id() > a.id();
+    static int Compare(const Cursor &a, const Cursor &b) {
+        const Atom x = a.atom(2), y = b.atom(2);
+        if (x.type() != y.type()) return x.type() < y.type() ? -1 : 1;
+        switch (x.type()) {
+            case INT:
+                return x.value.as_integer < y.value.as_integer
+                           ? -1
+                           : x.value.as_integer > y.value.as_integer;
+            case FLOAT:
+                return x.value.as_float < y.value.as_float
+                           ? -1
+                           : x.value.as_float > y.value.as_float;
+            case STRING:
+                return GetString(a).compare(GetString(b));
+            case UUID:
+                break;
         }
-        if (b.op().size() == 2) return false;
-        return static_cast<Uuid>(a.atom(2)) < static_cast<Uuid>(b.atom(2));
+        return Uuid{x} < Uuid{y} ? -1 : Uuid{x} > Uuid{y};
+    }
+
+    /** The greater value wins, then the later op (a total order). */
+    static bool Less(const Cursor &a, const Cursor &b) {
+        bool a_has = a.op().size() > 2, b_has = b.op().size() > 2;
+        if (a_has != b_has) return b_has;
+        int cmp = a_has ? Compare(a, b) : 0;
+        return cmp ? cmp < 0 : a.id() < b.id();
     }
 
    public:
     Status Merge(typename Frame::Builder &output, Cursors &inputs) const {
         if (inputs.empty()) return Status::OK;
-        if (inputs[0].valid() && inputs[0].ref() == MAX_FORM_UUID) {
-            output.AppendOp(inputs[0]);
-            inputs[0].Next();
-        }
+        Cursor root = inputs.front(), max = root;
+        bool has_root{false}, has_max{false};
         // TODO  sanity: all ops ref the root
-        Cursor max = inputs.back();
-        inputs.back().Next();
-        for (int i = inputs.size() - 1; i >= 0; --i) {
-            while (inputs[i].valid()) {
-                if (Less(max, inputs[i])) {
-                    max = inputs[i];
+        for (Cursor &i : inputs) {
+            for (; i.valid(); i.Next()) {
+                if (i.ref() == MAX_FORM_UUID) {
+                    if (!has_root || i.id() < root.id()) root = i;
+                    has_root = true;
+                } else {
+                    if (!has_max || Less(max, i)) max = i;
+                    has_max = true;
                 }
-                inputs[i].Next();
             }
         }
-        output.AppendOp(max);
+        if (has_root) output.AppendOp(root);
+        if (has_max) output.AppendOp(max);
         output.EndChunk();
         return Status::OK;
     }
-- 
2.43.0


From 08cdce9fe425805117c91972f8aa5ca3f86faddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:27 +0000
Subject: [PATCH 26/64] fix: LWWObject reads absent and updated fields and
 floats, keeps the latest values

---
 rdt/lww_obj.hpp | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/rdt/lww_obj.hpp b/rdt/lww_obj.hpp
index 5d07b31..4fe1b30 100644
--- a/rdt/lww_obj.hpp
+++ b/rdt/lww_obj.hpp
@@ -10,8 +10,7 @@ template <class Frame>
 class LWWObject {
     using Cursor = typename Frame::Cursor;
 
-    Cursor cur_;
-    std::unordered_map<Uuid, Atom> vals_;
+    std::unordered_map<Uuid, Op> vals_;
     Uuid last_;
 
    public:
@@ -19,37 +18,38 @@ class LWWObject {
         if (c.op().size() < 4 || !HasValue(c, UUID)) {
             return;
         }
-        vals_[Uuid{c.atom(2)}] = c.atom(3);
-        last_ = c.id();
+        Uuid key{c.atom(2)};
+        auto i = vals_.find(key);
+        if (i == vals_.end()) {
+            vals_.emplace(key, Op::Amend(c.id(), c.ref(), c));
+        } else if (!(c.id() < i->second.id())) {
+            i->second = Op::Amend(c.id(), c.ref(), c);
+        }
+        if (last_ < c.id()) last_ = c.id();
     }
 
-    void Update(Frame frame) {
+    void Update(const Frame& frame) {
         Cursor c{frame};
         while (c.Next()) {
             Update(c);
         }
     }
 
-    /** Note that LWWObject does not own the memory. It serves like an index to
-     * a LWW frame. */
-    LWWObject(const Frame& state) : cur_{state}, vals_{}, last_{} {
-        do {
-            Update(cur_);
-        } while (cur_.Next());
-    }
+    LWWObject(const Frame& state) : vals_{}, last_{} { Update(state); }
 
     template <typename... Ts>
     inline Frame Write(Uuid id, Uuid key, Ts... args) {
+        Uuid prev = last_;
         last_ = id;
-        return OneOp<Frame>(id, last_, key, args...);
+        return OneOp<Frame>(id, prev, key, args...);
     }
 
     Atom atom(Uuid key, ATOM type) {
         auto i = vals_.find(key);
-        if (i == vals_.end() || i->second.type() != type) {
+        if (i == vals_.end() || i->second.atom(3).type() != type) {
             return Uuid::NIL;
         }
-        return i->second;
+        return i->second.atom(3);
     }
 
     /*inline int64_t integer(Uuid key) {
@@ -61,13 +61,14 @@ class LWWObject {
 
     inline double number(Uuid key) {
         Atom a = atom(key, FLOAT);
-        return Uuid::NIL == Uuid{a} ? std::nan("") : a.value.as_integer;
+        return Uuid::NIL == Uuid{a} ? std::nan("") : a.value.as_float;
     }
 
     inline String string(Uuid key) {
         Atom a = atom(key, STRING);
         String ret;
-        ReadString(ret, cur_, a);  // TODO error checking, tests :)
+        if (a.type() != STRING) return ret;
+        ReadString(ret, vals_.find(key)->second, a);
         return ret;
     }
 };
-- 
2.43.0


From 9877c06c26162bd35f1dc1eca6054b02b41978b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:28 +0000
Subject: [PATCH 27/64] fix: OpMeta::Load restores the hash it has saved

---
 ron/opmeta.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ron/opmeta.hpp b/ron/opmeta.hpp
index 14e8159..2f413bd 100644
--- a/ron/opmeta.hpp
+++ b/ron/opmeta.hpp
@@ -2,6 +2,7 @@
 #define CPP_OPMETA_HPP
 
 #include "form.hpp"
+#include "frames.hpp"
 #include "hash.hpp"
 #include "op.hpp"
 #include "slice.hpp"
@@ -126,7 +127,9 @@ struct OpMeta {
             return Status::BADSYNTAX.comment("no rdt id");
         }
         rdt = Uuid{load.atom(3)};
-        // hash;
+        if (HasValue(load, STRING, 4)) {
+            hash = SHA2::ParseBase64(GetString(load, 4));
+        }
         return Status::OK;
     }
 
-- 
2.43.0


From d316b1d1a0a7de2b23b0154f1af463fc3ff43045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:36 +0000
Subject: [PATCH 28/64] fix: the state at a version in the middle of a span has
 no later ops

---
 ragel/text-parser.rl | 6 ++++++
 rdt/rdt.hpp          | 3 +++
 ron/text-parser.cc   | 6 ++++++
 ron/text.hpp         | 9 ++++++++-
 4 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/ragel/text-parser.rl b/ragel/text-parser.rl
index 6c16b1b..cde29d9 100644
--- a/ragel/text-parser.rl
+++ b/ragel/text-parser.rl
@@ -14,6 +14,12 @@ Status TextFrame::Cursor::Next () {
     uint8_t &cs = ragel_state_;
     static_assert(RON_first_final<UINT8_MAX, "this grammar should not change much");
 
+    if (ends_ && valid() && id() == end_id_) {
+        cs = RON_error;
+        span_size_ = 0;
+        return Status::ENDOFFRAME;
+    }
+
     if (span_size_) {
         --span_size_;
         atoms[1] = atoms[0];
diff --git a/rdt/rdt.hpp b/rdt/rdt.hpp
index 3d22447..cde4e7d 100644
--- a/rdt/rdt.hpp
+++ b/rdt/rdt.hpp
@@ -183,6 +183,9 @@ Status SplitLogIntoChains(typename Frame::Cursors &chains, const Frame &input,
             at = cur.data().range().begin();
             ok = cur.Next();
         } while (ok && cur.ref() == prev && prev != cutoff);
+        if (prev == cutoff) {
+            nxt.EndAfter(cutoff);
+        }
         if (ok) {
             nxt.data().EndAt(at);
             chains.push_back(nxt);
diff --git a/ron/text-parser.cc b/ron/text-parser.cc
index c8b52c7..2b2b81b 100644
--- a/ron/text-parser.cc
+++ b/ron/text-parser.cc
@@ -22,6 +22,12 @@ Status TextFrame::Cursor::Next() {
     static_assert(RON_first_final < UINT8_MAX,
                   "this grammar should not change much");
 
+    if (ends_ && valid() && id() == end_id_) {
+        cs = RON_error;
+        span_size_ = 0;
+        return Status::ENDOFFRAME;
+    }
+
     if (span_size_) {
         --span_size_;
         atoms[1] = atoms[0];
diff --git a/ron/text.hpp b/ron/text.hpp
index 33ae79e..b9c65b4 100644
--- a/ron/text.hpp
+++ b/ron/text.hpp
@@ -39,7 +39,8 @@ class TextFrame {
         uint8_t ragel_state_;  // 1
         fsize_t line_;         // 4
         fsize_t span_size_;    // 4
-                               // 51 bytes total
+        bool ends_{false};     // 1 there is an op to stop after
+        Uuid end_id_{};        // 16 the op to stop after
 
         static constexpr int RON_FULL_STOP = 255;
         static constexpr int SPEC_SIZE = 2;  // open RON
@@ -92,6 +93,12 @@ class TextFrame {
          *  (full parser). */
         Result NextCodepoint(Atom& c) const;
 
+        /** Ends the frame after the op (it may be in the middle of a span). */
+        void EndAfter(Uuid id) {
+            ends_ = true;
+            end_id_ = id;
+        }
+
         /** Returns whether the last op was parsed successfully.  */
         inline bool valid() const { return ragel_state_ != 0; }
 
-- 
2.43.0


From 50f1b6c17b363d3f8b3e12b9de0eb2d5c3ed26b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:42 +0000
Subject: [PATCH 29/64] fix: a zero ref names no form, wherever it is in the
 list

---
 rdt/rdt.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdt/rdt.hpp b/rdt/rdt.hpp
index cde4e7d..d5648ab 100644
--- a/rdt/rdt.hpp
+++ b/rdt/rdt.hpp
@@ -73,7 +73,7 @@ template <class Frame>
 Status GetForm(FORM &ret, const typename Frame::Cursors &inputs) {
     Uuid form{};
     for (auto &i : inputs) {
-        if (!i.valid() || i.ref().version() != NAME) continue;
+        if (!i.valid() || i.ref().version() != NAME || i.ref().zero()) continue;
         if (form.zero()) {
             form = i.ref();
         } else if (form != i.ref()) {
-- 
2.43.0


From 4724d88483c8e9f097a6264fc247d87fc9a29df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:28 +0000
Subject: [PATCH 30/64] fix: skip every repetition of an op, also if a newer op
 comes next to one

---
 rdt/merge.hpp | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/rdt/merge.hpp b/rdt/merge.hpp
index 9935218..ce1ac08 100644
--- a/rdt/merge.hpp
+++ b/rdt/merge.hpp
@@ -91,22 +91,21 @@ class MergeCursor {
         push(0);
     }
 
-    bool step() {
-        if (cursors_[0]->Next()) {
-            push(0);
-        } else {
-            eject();
-        }
-        return size() > 0;
-    }
-
    public:
     // advances to the next op
     // @return non-empty
     bool Next() {
-        Uuid id{op()[OP_ID_IDX]};
-        while (step() && Uuid{op()[OP_ID_IDX]} == id)
-            ;  // idempotency
+        const Uuid id{op()[OP_ID_IDX]};
+        std::vector<PCursor> same;  // idempotency
+        while (!empty() && Uuid{op()[OP_ID_IDX]} == id) {
+            same.push_back(cursors_.front());
+            eject();
+        }
+        for (PCursor i : same) {
+            while (i->Next() && i->id() == id)
+                ;
+            Add(i);
+        }
         return size() > 0;
     }
     // returns the data buffer for the current cursor/op
-- 
2.43.0


From 8dd914523ada2191191c8be64f84f07e0e572bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:34 +0000
Subject: [PATCH 31/64] fix: undo the first removal of a chain too, do not
 write past the stack on long chains

---
 rdt/rga.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rdt/rga.hpp b/rdt/rga.hpp
index bb9bb49..3540728 100644
--- a/rdt/rga.hpp
+++ b/rdt/rga.hpp
@@ -163,15 +163,15 @@ Status ScanRGA(Booleans &tombstones, const Frame &frame) {
                     break;
                 case REMOVE:
                     if (kills.back()) break;
-                    at = ceiling[REMOVE] - (depth - ceiling[REMOVE]);
-                    if (at > 0) {  // aka ceiling[META_ENTRY]
-                        kills[at] = true;
+                    at = depth - ceiling[REMOVE];
+                    if (at < ceiling[REMOVE]) {  // the root stays
+                        kills[ceiling[REMOVE] - at] = true;
                     }
                     break;
                 case UNDO:
-                    at = ceiling[UNDO] - (depth - ceiling[UNDO]);
-                    if (at > ceiling[REMOVE]) {
-                        kills[at] = true;
+                    at = depth - ceiling[UNDO];
+                    if (at <= ceiling[UNDO] - ceiling[REMOVE]) {
+                        kills[ceiling[UNDO] - at] = true;
                     }
                     break;
                 case TRASH:
-- 
2.43.0


From 84dc9a3c7246e2445b9880dce9620eb86a6b0c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:54 +0000
Subject: [PATCH 32/64] fix: an op that refs itself is no part of a causal tree

---
 rdt/rga.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdt/rga.hpp b/rdt/rga.hpp
index 3540728..015f3bb 100644
--- a/rdt/rga.hpp
+++ b/rdt/rga.hpp
@@ -146,7 +146,7 @@ Status ScanRGA(Booleans &tombstones, const Frame &frame) {
         ++pos;
 
         // sanity checks
-        if (ref > id) return Status::BADARGS.comment("ref/id order reversal");
+        if (!(ref < id)) return Status::BADARGS.comment("ref/id order reversal");
         if (id.version() != TIME || ref.version() != TIME)
             return Status::BADARGS.comment("invalid event id");
 
-- 
2.43.0


From a01d2d59f696a29b3c2fd3f5e1247a29a12ae0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:00 +0000
Subject: [PATCH 33/64] fix: the error id has its form, in any order of static
 initialization

---
 db/const.hpp | 4 +++-
 ron/form.hpp | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/db/const.hpp b/db/const.hpp
index 499ec45..377ff94 100644
--- a/db/const.hpp
+++ b/db/const.hpp
@@ -47,7 +47,9 @@ static const Uuid JSON_MAP_ID{JSON_MAP_NAME, 0};
 static const Uuid MAP_IDS[] = {CHAIN_MAP_ID, META_MAP_ID, OP_MAP_ID,
                                YARN_MAP_ID,  SHA2_MAP_ID, PREV_MAP_ID,
                                HEAD_MAP_ID,  OBJ_MAP_ID,  CSV_MAP_ID,
-                               TXT_MAP_ID,   JSON_MAP_ID, Uuid::FATAL};
+                               TXT_MAP_ID,   JSON_MAP_ID,
+                               // Uuid::FATAL, which may be not initialized yet
+                               Uuid{Word::MAX_VALUE, Word::MAX_VALUE}};
 
 inline Uuid map2uuid(MAP e) { return MAP_IDS[e]; }
 
diff --git a/ron/form.hpp b/ron/form.hpp
index bc76398..272b19e 100644
--- a/ron/form.hpp
+++ b/ron/form.hpp
@@ -98,7 +98,8 @@ const std::unordered_map<Uuid, FORM> UUID2FORM = {
     {RGA_FORM_UUID, RGA_RDT_FORM},     {MX_FORM_UUID, MX_RDT_FORM},
     {MAX_FORM_UUID, MAX_RDT_FORM},     {JSON_FORM_UUID, JSON_MAP_FORM},
     {CSV_FORM_UUID, CSV_MAP_FORM},     {TXT_FORM_UUID, TXT_MAP_FORM},
-    {Uuid::FATAL, ERROR_NO_FORM}
+    // Uuid::FATAL, which may be not initialized yet
+    {Uuid{Word::MAX_VALUE, Word::MAX_VALUE}, ERROR_NO_FORM}
 
 };
 
-- 
2.43.0


From 0e7ddee3d619cfe1b1a76f2c644ef3276cb57c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:52 +0000
Subject: [PATCH 34/64] fix: the first field written to an object refs its
 creation, not nil

---
 rdt/lww_obj.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdt/lww_obj.hpp b/rdt/lww_obj.hpp
index 4fe1b30..445edff 100644
--- a/rdt/lww_obj.hpp
+++ b/rdt/lww_obj.hpp
@@ -15,6 +15,7 @@ class LWWObject {
 
    public:
     void Update(const Cursor& c) {
+        if (c.id().version() == TIME && last_ < c.id()) last_ = c.id();
         if (c.op().size() < 4 || !HasValue(c, UUID)) {
             return;
         }
@@ -25,7 +26,6 @@ class LWWObject {
         } else if (!(c.id() < i->second.id())) {
             i->second = Op::Amend(c.id(), c.ref(), c);
         }
-        if (last_ < c.id()) last_ = c.id();
     }
 
     void Update(const Frame& frame) {
-- 
2.43.0


From c7d6f72f781b87548a6a81e339b2d7cfedfcfd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:47 +0000
Subject: [PATCH 35/64] fix: an unmergeable record does not put the entire
 database into the read-only mode

---
 db/rocks_store.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/db/rocks_store.cc b/db/rocks_store.cc
index 3533ece..2ab25f6 100644
--- a/db/rocks_store.cc
+++ b/db/rocks_store.cc
@@ -1,6 +1,7 @@
 #include "rocks_store.hpp"
 #include <rocksdb/db.h>
 #include <rocksdb/merge_operator.h>
+#include <rocksdb/version.h>
 
 namespace ron {
 
@@ -77,7 +78,14 @@ class RDTMerge : public rocksdb::MergeOperator {
 
         Status ok = reducer_.Merge(out, key.form(), inputs);
 
-        if (!ok) return false;
+        if (!ok) {
+#if ROCKSDB_MAJOR >= 8
+            // a compaction keeps the inputs then; otherwise, one unmergeable
+            // record stops all the writes to the database
+            merge_out->op_failure_scope = OpFailureScope::kMustMerge;
+#endif
+            return false;
+        }
         swap(out, merge_out->new_value);
         return true;
     }
-- 
2.43.0


From c65d0b54555b741d640b0c7d149384927274ecb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:26 +0000
Subject: [PATCH 36/64] fix: a step past the end of the store is no call on an
 invalid iterator

---
 db/rocks_store.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/db/rocks_store.cc b/db/rocks_store.cc
index 2ab25f6..a8d7891 100644
--- a/db/rocks_store.cc
+++ b/db/rocks_store.cc
@@ -296,7 +296,9 @@ Status RocksDBStore<Frame>::Iterator::Next() {
         return Status::BAD_STATE.comment("closed");
     }
     auto i = static_pointer_cast<rocksdb::Iterator>(i_);
-    i->Next();
+    if (i->Valid()) {
+        i->Next();
+    }
     IFROK(i->status());
     if (!i->Valid()) {
         return Status::ENDOFINPUT;
-- 
2.43.0


From 6364090d3e553147b5b71c9e9d4db0180293b288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:00 +0000
Subject: [PATCH 37/64] fix: a backward seek in the in-memory store takes all
 the records of the key

---
 db/mem_store.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/db/mem_store.hpp b/db/mem_store.hpp
index 9311c69..a8632d9 100644
--- a/db/mem_store.hpp
+++ b/db/mem_store.hpp
@@ -131,14 +131,14 @@ class InMemoryStore {
             if (b_ == store_.end()) {
                 if (prev && !store_.empty()) {
                     --b_;
-                    e_ = b_;
+                    b_ = e_ = store_.lower_bound(b_->first);
                 } else {
                     return Status::OK;
                 }
             } else if (prev && b_->first != key) {
                 if (b_ != store_.begin()) {
                     --b_;
-                    e_ = b_;
+                    b_ = e_ = store_.lower_bound(b_->first);
                 } else {
                     b_ = e_ = store_.end();
                     return Status::OK;
-- 
2.43.0


From d8afd135c5d1e18686df28ba0965b66cc61ad7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:40 +0000
Subject: [PATCH 38/64] fix: after a backward seek, the joined iterator goes on
 from the key found

---
 db/joined_store.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/db/joined_store.hpp b/db/joined_store.hpp
index a991470..5edf54f 100644
--- a/db/joined_store.hpp
+++ b/db/joined_store.hpp
@@ -84,6 +84,9 @@ class JoinedStore {
                 } else {
                     at_ = std::max(ai_.key(), bi_.key());
                 }
+                // the other one may be behind now
+                IFOK(ai_.SeekTo(at_));
+                IFOK(bi_.SeekTo(at_));
             } else {
                 at_ = std::min(ai_.key(), bi_.key());
             }
-- 
2.43.0


From 307be4f6575bd0b7240227fb1db009ac8e7e92a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:41 +0000
Subject: [PATCH 39/64] fix: the joined iterator goes on when one of the stores
 ends

---
 db/joined_store.hpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/db/joined_store.hpp b/db/joined_store.hpp
index 5edf54f..d640eeb 100644
--- a/db/joined_store.hpp
+++ b/db/joined_store.hpp
@@ -60,13 +60,22 @@ class JoinedStore {
             : ai_{host.a_}, bi_{host.b_}, at_{Key::END}, merged_{} {}
 
         Status Next() {
-            if (ai_.key() == at_) {
-                IFOK(ai_.Next());
+            // the end of one store is not the end of the other
+            Status oka, okb;
+            bool a = ai_.key() == at_, b = bi_.key() == at_;
+            if (a) {
+                oka = ai_.Next();
             }
-            if (bi_.key() == at_) {
-                IFOK(bi_.Next());
+            if (b) {
+                okb = bi_.Next();
             }
             pick();
+            if (!oka && (oka != Status::ENDOFINPUT || at_ == Key::END)) {
+                return oka;
+            }
+            if (!okb && (okb != Status::ENDOFINPUT || at_ == Key::END)) {
+                return okb;
+            }
             return Status::OK;
         }
 
-- 
2.43.0


From b9437650e89a3e4f045f21c8aaa56e0f3e39a80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:41 +0000
Subject: [PATCH 40/64] fix: the joined store merges by the form of the key, as
 the stores do

---
 db/joined_store.hpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/db/joined_store.hpp b/db/joined_store.hpp
index d640eeb..a1427a4 100644
--- a/db/joined_store.hpp
+++ b/db/joined_store.hpp
@@ -36,7 +36,16 @@ class JoinedStore {
         } else if (b.empty()) {
             std::swap(a, into);
         } else {
-            IFOK(MergeFrames(into, Frames{a, b}));
+            Cursors inputs;
+            inputs.emplace_back(a);
+            if (!inputs.back().Next()) {
+                inputs.pop_back();
+            }
+            inputs.emplace_back(b);
+            if (!inputs.back().Next()) {
+                inputs.pop_back();
+            }
+            IFOK(MergeCursors(into, key.form(), inputs));
         }
         LOG('R', key, into.data());
         return Status::OK;
@@ -121,10 +130,13 @@ class JoinedStore {
             if (!inputs.back().Next()) {
                 inputs.pop_back();
             }
-            Status ok = MergeCursors<Frame>(merged_, inputs);
+            Status ok = MergeCursors<Frame>(merged_, at_.form(), inputs);
             LOG('_', at_, merged_.data());
-            return ok ? Cursor{merged_}
-                      : OneOp<Frame>(ok.code(), Uuid::FATAL).cursor();
+            if (!ok) {
+                // the cursor does not own the data
+                merged_ = OneOp<Frame>(ok.code(), Uuid::FATAL);
+            }
+            return Cursor{merged_};
         }
 
         inline Key key() const { return at_; }
-- 
2.43.0


From 663acb19ba75d1ee9980a01b334bb82ad1e619a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:00 +0000
Subject: [PATCH 41/64] fix: a seek in the in-memory store forgets the last key
 and its value

---
 db/mem_store.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/db/mem_store.hpp b/db/mem_store.hpp
index a8632d9..6ac4ba6 100644
--- a/db/mem_store.hpp
+++ b/db/mem_store.hpp
@@ -126,6 +126,8 @@ class InMemoryStore {
          * @return OK or error if something really bad happened
          */
         Status SeekTo(ron::Key key, bool prev = false) {
+            len_ = 0;
+            merged_.Clear();
             b_ = store_.lower_bound(key);
             e_ = b_;
             if (b_ == store_.end()) {
-- 
2.43.0


From e7271fe7fc26e4b5c149d63415f532bac8eb3218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:11 +0000
Subject: [PATCH 42/64] fix: a batch of writes to the joined store goes to the
 overlay, as single writes do

---
 db/joined_store.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/db/joined_store.hpp b/db/joined_store.hpp
index a1427a4..a21169d 100644
--- a/db/joined_store.hpp
+++ b/db/joined_store.hpp
@@ -51,7 +51,7 @@ class JoinedStore {
         return Status::OK;
     }
 
-    Status Write(const Records& batch) { return a_.Write(batch); }
+    Status Write(const Records& batch) { return b_.Write(batch); }
 
     class Iterator {
         typename StoreA::Iterator ai_;
-- 
2.43.0


From 2fc3d7914491ab0e68ad735fb73f0ac9cacf9b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:08 +0000
Subject: [PATCH 43/64] fix: a read of unmergeable records does not erase them
 from the in-memory store

---
 db/mem_store.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/db/mem_store.hpp b/db/mem_store.hpp
index 6ac4ba6..c16ec6f 100644
--- a/db/mem_store.hpp
+++ b/db/mem_store.hpp
@@ -178,6 +178,9 @@ class InMemoryStore {
             return Status::OK;
         }
         Status ok = Merge(result, range.first, range.second);
+        if (!ok) {
+            return ok;  // keep the records, more may come
+        }
         state_.erase(range.first, range.second);
         state_.insert(Record{key, result});
         LOG('e', key, result.data());
-- 
2.43.0


From c22fe6f17c0a4f86799780bb984273d83390891b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:21 +0000
Subject: [PATCH 44/64] fix: an unmergeable value in memory is an error to an
 iterator, not an empty value

---
 db/joined_store.hpp | 4 ++++
 db/mem_store.hpp    | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/db/joined_store.hpp b/db/joined_store.hpp
index a21169d..c865210 100644
--- a/db/joined_store.hpp
+++ b/db/joined_store.hpp
@@ -125,10 +125,14 @@ class JoinedStore {
             inputs.emplace_back(ai_.value());
             if (!inputs.back().Next()) {
                 inputs.pop_back();
+            } else if (inputs.back().ref() == Uuid::FATAL) {
+                return ai_.value();  // an error, no data to merge
             }
             inputs.emplace_back(bi_.value());
             if (!inputs.back().Next()) {
                 inputs.pop_back();
+            } else if (inputs.back().ref() == Uuid::FATAL) {
+                return bi_.value();
             }
             Status ok = MergeCursors<Frame>(merged_, at_.form(), inputs);
             LOG('_', at_, merged_.data());
diff --git a/db/mem_store.hpp b/db/mem_store.hpp
index c16ec6f..010507e 100644
--- a/db/mem_store.hpp
+++ b/db/mem_store.hpp
@@ -61,6 +61,7 @@ class InMemoryStore {
         Map& store_;
         MapIter b_, e_;
         Frame merged_;
+        Frame error_;
         fsize_t len_;
         friend class InMemoryStore;
 
@@ -92,6 +93,10 @@ class InMemoryStore {
                 }
             }
             Status ok = MergeCursors(merged_, key().form(), ins);
+            if (!ok) {
+                error_ = OneOp<Frame>(ok.code(), Uuid::FATAL);
+                return Cursor{error_};
+            }
             return Cursor{merged_};
         }
 
-- 
2.43.0


From db222b96c879e7932dead44236b140476fb2eedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:38 +0000
Subject: [PATCH 45/64] fix: a store opened by Open has its column family

---
 db/rocks_store.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/db/rocks_store.cc b/db/rocks_store.cc
index a8d7891..71fbec3 100644
--- a/db/rocks_store.cc
+++ b/db/rocks_store.cc
@@ -167,6 +167,9 @@ Status RocksDBStore<Frame>::Create(Uuid id) {
 template <typename Frame>
 Status RocksDBStore<Frame>::Open(Uuid id) {
     if (db_) return Status::BAD_STATE.comment("db open already");
+    if (!id.zero()) {
+        return Status::NOT_IMPLEMENTED.comment("use OpenAll for now");
+    }
 
     Options options;
     init_options<Frame>(options);
@@ -174,10 +177,7 @@ Status RocksDBStore<Frame>::Open(Uuid id) {
     rocksdb::DB* db;
     IFROK(DB::Open(options, ROCKSDB_STORE_DIR, &db));
     db_.reset(db);
-
-    if (!id.zero()) {
-        return Status::NOT_IMPLEMENTED.comment("use OpenAll for now");
-    }
+    cf_ = SharedPtr{db->DefaultColumnFamily(), [](void*) {}};
 
     return Status::OK;
 }
-- 
2.43.0


From 79af1899bc03dedb1510e40db9b251168700622b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:42 +0000
Subject: [PATCH 46/64] fix: batches, drops and iterators are refused on a
 closed store, too

---
 db/rocks_store.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/db/rocks_store.cc b/db/rocks_store.cc
index 71fbec3..66750a5 100644
--- a/db/rocks_store.cc
+++ b/db/rocks_store.cc
@@ -184,6 +184,7 @@ Status RocksDBStore<Frame>::Open(Uuid id) {
 
 template <typename Frame>
 Status RocksDBStore<Frame>::Drop() {
+    if (!db_ || !cf_) return Status::BAD_STATE.comment("closed");
     auto db = static_pointer_cast<rocksdb::DB>(db_);
     auto cf = static_pointer_cast<rocksdb::ColumnFamilyHandle>(cf_);
     IFROK(db->DropColumnFamily(cf.get()));
@@ -200,7 +201,7 @@ Status RocksDBStore<Frame>::Close() {
 
 template <typename Frame>
 Status RocksDBStore<Frame>::Write(Key key, const Frame& change) {
-    if (!db_) return Status::BAD_STATE.comment("closed");
+    if (!db_ || !cf_) return Status::BAD_STATE.comment("closed");
     if (key == Key::END && !change.empty()) {
         return Status::BADARGS.comment("can't write to Key::END");
     }
@@ -216,7 +217,7 @@ Status RocksDBStore<Frame>::Write(Key key, const Frame& change) {
 template <typename Frame>
 Status RocksDBStore<Frame>::Read(Key key, Frame& result) {
     result.Clear();
-    if (!db_) return Status::BAD_STATE.comment("closed");
+    if (!db_ || !cf_) return Status::BAD_STATE.comment("closed");
     if (key == Key::END) {
         return Status::OK;
     }
@@ -241,6 +242,7 @@ Status RocksDBStore<Frame>::Read(Key key, Frame& result) {
 
 template <typename Frame>
 Status RocksDBStore<Frame>::Write(const Records& batch) {
+    if (!db_ || !cf_) return Status::BAD_STATE.comment("closed");
     rocksdb::WriteBatch b;
     auto cf = static_pointer_cast<rocksdb::ColumnFamilyHandle>(cf_);
     for (auto i = batch.begin(); i != batch.end(); ++i) {
@@ -259,6 +261,7 @@ Status RocksDBStore<Frame>::Write(const Records& batch) {
 
 template <typename Frame>
 RocksDBStore<Frame>::Iterator::Iterator(RocksDBStore& host) {
+    if (!host.db_ || !host.cf_) return;  // closed
     auto db = static_pointer_cast<rocksdb::DB>(host.db_);
     auto cf = static_pointer_cast<rocksdb::ColumnFamilyHandle>(host.cf_);
     auto i = db->NewIterator(ro(), cf.get());
-- 
2.43.0


From 724d7be6e0e6f52d5cf8b6d5da54ec908b3c1aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:46 +0000
Subject: [PATCH 47/64] fix: a batch that writes to Key::END is refused as the
 single write is

---
 db/rocks_store.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/db/rocks_store.cc b/db/rocks_store.cc
index 66750a5..2df1038 100644
--- a/db/rocks_store.cc
+++ b/db/rocks_store.cc
@@ -246,6 +246,9 @@ Status RocksDBStore<Frame>::Write(const Records& batch) {
     rocksdb::WriteBatch b;
     auto cf = static_pointer_cast<rocksdb::ColumnFamilyHandle>(cf_);
     for (auto i = batch.begin(); i != batch.end(); ++i) {
+        if (i->first == Key::END && !i->second.empty()) {
+            return Status::BADARGS.comment("can't write to Key::END");
+        }
         uint64pair k = i->first.be();
         const String& data = i->second.data();
         rocksdb::Slice slice{data};
-- 
2.43.0


From a6d0ae86c6b0397fecb483e994646e0d9c2ff125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:04 +0000
Subject: [PATCH 48/64] fix: a write to a dropped branch does not put the
 entire database into the read-only mode

---
 db/rocks_store.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/db/rocks_store.cc b/db/rocks_store.cc
index 2df1038..68b4818 100644
--- a/db/rocks_store.cc
+++ b/db/rocks_store.cc
@@ -36,7 +36,13 @@ inline static Status status(const rocksdb::Status& orig) {
     return orig.ok() ? Status::OK : Status::DB_FAIL.comment(orig.ToString());
 }
 
-inline rocksdb::WriteOptions wo() { return rocksdb::WriteOptions{}; }
+inline rocksdb::WriteOptions wo() {
+    rocksdb::WriteOptions ret{};
+    // a write to a dropped branch comes to nothing then; otherwise, it stops
+    // all the writes to the database
+    ret.ignore_missing_column_families = true;
+    return ret;
+}
 
 inline rocksdb::ReadOptions ro() { return rocksdb::ReadOptions{}; }
 
-- 
2.43.0


From f6892967275b0032a37c9ba76760ad7cbadd03ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:14 +0000
Subject: [PATCH 49/64] fix: the active store is known after the replica is
 reopened

---
 db/replica.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/db/replica.cc b/db/replica.cc
index 04d8478..f3e617f 100644
--- a/db/replica.cc
+++ b/db/replica.cc
@@ -63,7 +63,7 @@ Status Replica<Store>::Open() {
     Frame active;
     if (GetMetaStore().Read(Key{ACTIVE_STORE_UUID, ZERO_RAW_FORM}, active)) {
         Cursor c{active};
-        if (c.valid() && HasStore(c.ref())) {
+        if (c.Next() && HasStore(c.ref())) {
             active_ = c.ref();
         }
     }
-- 
2.43.0


From 4fc280567b7ff832d0f75726d8ccab725030dbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:15 +0000
Subject: [PATCH 50/64] fix: a dropped branch is not the active one any more

---
 db/replica.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/db/replica.cc b/db/replica.cc
index f3e617f..6b7e4b2 100644
--- a/db/replica.cc
+++ b/db/replica.cc
@@ -137,6 +137,9 @@ inline Status Replica<Store>::DropStore(Uuid store) {
     }
     Store& kill = GetStore(store);
     IFOK(kill.Drop());
+    if (active_ == store) {
+        active_ = Uuid::NIL;
+    }
     stores_.erase(store);
     // TODO consistency checks
     return Status::OK;
-- 
2.43.0


From e2bc2283dd202a37adcd8a63abcea58bef27b890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:16 +0000
Subject: [PATCH 51/64] fix: an event can not create an object of a non-RDT
 type

---
 db/replica.cc | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/db/replica.cc b/db/replica.cc
index 6b7e4b2..c6d5e76 100644
--- a/db/replica.cc
+++ b/db/replica.cc
@@ -408,13 +408,18 @@ Status Replica<Store>::Commit::SaveChain(Builder&, Cursor& chain) {
     if (ref_id == tip_id) {  // the op refs the tip, we have the meta already
         tip_meta.Next(chain, tip_meta);
     } else if (ref_id.version() == NAME) {  // tree root, references nothing
-        FORM form = uuid2form(ref_id);
-        if (form == ERROR_NO_FORM) {
-            return Status::NOT_IMPLEMENTED.comment("form unknown: " +
-                                                   ref_id.str());
+        switch (uuid2form(ref_id)) {
+            case LWW_RDT_FORM:
+            case RGA_RDT_FORM:
+            case MX_RDT_FORM:
+            case MAX_RDT_FORM:
+            case YARN_RAW_FORM:
+                break;
+            default:  // logs, meta records and such must not be overwritten
+                return Status::NOT_IMPLEMENTED.comment("not an object type: " +
+                                                       ref_id.str());
         }
         tip_meta = OpMeta{chain, tip_meta};
-        // TODO check it is an RDT or yarn
     } else {  // ok, let's check the db
         // we enforce referential integrity but we
         // can't run datatype-specific checks here
-- 
2.43.0


From a2c8bc19fd6fb7c8e891ea869a924a111f99fec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:33 +0000
Subject: [PATCH 52/64] fix: the root of a yarn does not follow itself

---
 db/replica.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/db/replica.cc b/db/replica.cc
index c6d5e76..fed2cde 100644
--- a/db/replica.cc
+++ b/db/replica.cc
@@ -407,13 +407,13 @@ Status Replica<Store>::Commit::SaveChain(Builder&, Cursor& chain) {
     // find the referenced op and its metadata (hash, object id)
     if (ref_id == tip_id) {  // the op refs the tip, we have the meta already
         tip_meta.Next(chain, tip_meta);
+    } else if (ref_id == YARN_FORM_UUID) {  // the yarn root, see above
     } else if (ref_id.version() == NAME) {  // tree root, references nothing
         switch (uuid2form(ref_id)) {
             case LWW_RDT_FORM:
             case RGA_RDT_FORM:
             case MX_RDT_FORM:
             case MAX_RDT_FORM:
-            case YARN_RAW_FORM:
                 break;
             default:  // logs, meta records and such must not be overwritten
                 return Status::NOT_IMPLEMENTED.comment("not an object type: " +
-- 
2.43.0


From d00466db66f4bfd3fd206ae44352274ff5398fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:33 +0000
Subject: [PATCH 53/64] fix: events of other yarns are saved to a branch and do
 not become its tip

---
 db/replica.cc | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/db/replica.cc b/db/replica.cc
index fed2cde..38355dd 100644
--- a/db/replica.cc
+++ b/db/replica.cc
@@ -443,7 +443,9 @@ Status Replica<Store>::Commit::SaveChain(Builder&, Cursor& chain) {
     IFOK(join_.Write(Key{obj_id, LOG_FORM_UUID}, data));
     IFOK(join_.Write(Key{obj_id, tip_meta.rdt}, data));
 
-    tip_ = tip_meta.id;
+    if (base_ == Uuid::NIL || tip_meta.id.origin == base_.origin) {
+        tip_ = tip_meta.id;
+    }
 
     return tip_meta.id;
 }
@@ -668,9 +670,6 @@ Status Replica<Store>::Commit::WriteName(Cursor& cmd) {
 
 template <typename Store>
 Status Replica<Store>::Commit::Save() {
-    if (tip_ == base_) {
-        return Status::OK;
-    }
     if (base_ != Uuid::NIL && tip_.origin != base_.origin) {
         return Status::BAD_STATE.comment("tip changes origin? " + base_.str() +
                                          " -> " + tip_.str());
@@ -681,13 +680,20 @@ Status Replica<Store>::Commit::Save() {
     }
     // FIXME error handling!!!
     Records save;
-    Frame now = OneOp<Frame>(tip_, ZERO_FORM_UUID);
-    IFOK(mem_.Write(Key::ZERO, now));
-    mem_.Release(save);
+    if (tip_ != base_) {
+        Frame now = OneOp<Frame>(tip_, ZERO_FORM_UUID);
+        IFOK(mem_.Write(Key::ZERO, now));
+    }
+    if (!mem_.Release(save)) {  // nothing to save
+        return Status::OK;
+    }
     // Frames are applied transactionally, all or nothing.
     // We saw no errors => we may save the changes.
+    Uuid tip = tip_;
     base_ = tip_ = Uuid::NIL;
-    return main_.Write(save);
+    IFOK(main_.Write(save));
+    main_.tip = tip;
+    return Status::OK;
 }
 
 template <class Cursor>
-- 
2.43.0


From a7dba3510d7a79e7bf46f4dc7b9cd33a38f8093b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:28 +0000
Subject: [PATCH 54/64] fix: a text map of an array that has ops with no
 characters

---
 db/map/txt.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/db/map/txt.hpp b/db/map/txt.hpp
index ea8d977..5b9e5e4 100644
--- a/db/map/txt.hpp
+++ b/db/map/txt.hpp
@@ -13,16 +13,16 @@ Status TxtMapper<Commit>::Read(Builder& response, Cursor& query, Commit& branch)
     Frame state;
     IFOK( branch.Read(Key{id, RGA_RDT_FORM}, state) );
     vector<bool> tombs;
-    ScanRGA<Frame>(tombs, state);
+    IFOK( ScanRGA<Frame>(tombs, state) );
     Codepoints weave;
     // now, walk em both
     String text;
     Cursor c{state};
     fsize_t pos = 0;
     while (c.Next()) {
-        if (!tombs[pos]) {
+        if (!tombs[pos] && HasValue(c, STRING)) {
             // FIXME may send directly to the Builder?
-            utf8append(text, c.atom(2).value.cp);
+            ReadString(text, c, 2);
         }
         ++pos;
     }
-- 
2.43.0


From e41e1e0ce4bfb3172735e8701a9900e45f70b230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:29 +0000
Subject: [PATCH 55/64] fix: an interrupted creation of a branch does not make
 the replica unopenable

---
 db/replica.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/db/replica.cc b/db/replica.cc
index 38355dd..8a6a1a6 100644
--- a/db/replica.cc
+++ b/db/replica.cc
@@ -47,10 +47,16 @@ Status Replica<Store>::Open() {
         Frame meta_rec;
         IFOK(store.Read(Key{}, meta_rec));
         Cursor mc{meta_rec};
-        if (!mc.Next()) {
+        Uuid tip;
+        if (mc.Next()) {
+            tip = mc.id();
+        } else if (!meta_rec.empty()) {
             return Status::BADFRAME.comment("tip record is corrupted");
         }
-        Uuid tip = mc.id();
+        if (tip == Uuid::NIL && id != Uuid::NIL) {
+            // the creation of the branch was interrupted
+            tip = Uuid::Time(ZERO, id.origin);
+        }
         if (tip.origin != id.origin && id != Uuid::NIL) {
             return Status::BADFRAME.comment(
                 "tip record is from a different origin; " + tip.str() +
-- 
2.43.0


From 3ac403bd038074199ca71dcb8572f7ad666977f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:55 +0000
Subject: [PATCH 56/64] fix: a name is a part of the commit it is written in

---
 db/main.cc    | 5 +++++
 db/replica.cc | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/db/main.cc b/db/main.cc
index 8d03759..971cd03 100644
--- a/db/main.cc
+++ b/db/main.cc
@@ -179,6 +179,7 @@ Status CommandCreate(RonReplica& replica, Args& args) {
     if (tag != Uuid::NIL) {
         Commit c{replica, Uuid::NIL};
         IFOK(c.WriteName(tag, branch_id));
+        IFOK(c.Save());
     }
     return Status{branch_id, "You started a yarn"};
 }
@@ -212,6 +213,7 @@ Status CommandFork(RonReplica& replica, Args& args) {
     if (tag != Uuid::NIL) {
         Commit c{replica, Uuid::NIL};
         IFOK(c.WriteName(tag, new_branch_id));
+        IFOK(c.Save());
     }
     return Status{new_branch_id, "You forked a yarn"};
 }
@@ -590,6 +592,9 @@ Status CommandName(RonReplica& replica, Args& args) {
 
     Commit commit{replica, branch_id};
     Status ok = commit.WriteName(name, id);
+    if (ok) {
+        ok = commit.Save();
+    }
     if (ok) {
         ok = ok.comment("assigned name " + name.str() + " to " + id.str());
     }
diff --git a/db/replica.cc b/db/replica.cc
index 8a6a1a6..9edffcc 100644
--- a/db/replica.cc
+++ b/db/replica.cc
@@ -157,7 +157,7 @@ Status Replica<Store>::Commit::WriteName(Uuid key, Uuid value) {
     Uuid id = host_.Now(yarn_id());
     Key names_key{Uuid::NIL, LWW_RDT_FORM};
     Frame valop = OneOp<Frame>(id, Uuid::NIL, key, value);
-    IFOK(main_.Write(names_key, valop));
+    IFOK(join_.Write(names_key, valop));
     //???!!!last_name_id_ = id;
     return id;
 }
-- 
2.43.0


From 2388d548055d450f744773bb37166fcac76d4b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:56 +0000
Subject: [PATCH 57/64] fix: a name given after a reopening wins over those
 given before

---
 db/replica.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/db/replica.cc b/db/replica.cc
index 9edffcc..f947b23 100644
--- a/db/replica.cc
+++ b/db/replica.cc
@@ -64,6 +64,12 @@ Status Replica<Store>::Open() {
         }
         store.tip = tip;
         See(tip);
+        Frame names;
+        IFOK(store.Read(Key{Uuid::NIL, LWW_RDT_FORM}, names));
+        Cursor nc{names};
+        while (nc.Next()) {
+            See(nc.id());  // the next name must win
+        }
     }
 
     Frame active;
-- 
2.43.0


From 08602f4bf345ec401f5c20e8e8c24f7307688a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:57 +0000
Subject: [PATCH 58/64] fix: unstamped events are stamped and saved

---
 db/replica.cc  | 19 +++++++++----------
 db/replica.hpp |  1 +
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/db/replica.cc b/db/replica.cc
index f947b23..01078b3 100644
--- a/db/replica.cc
+++ b/db/replica.cc
@@ -570,23 +570,22 @@ inline bool is_query(const Cursor& c) {
 template <typename Store>
 Status Replica<Store>::Commit::WriteNewEvents(Builder& resp, Cursor& uc) {
     Builder stamp;
-    Uuid now = host_.Now(yarn_id());
+    const Uuid first = host_.Now(yarn_id());
+    Uuid now = first;
     constexpr uint64_t MAXSEQ = 1 << 30;
-    while (uc.valid() && uc.id().origin.payload() == 0) {
-        if (uc.id().origin.payload() != 0) {
-            return Status::BAD_STATE.comment("stamped already");
-        }
-        Uuid id{now.value.as_u64, now.origin};
+    while (uc.valid() && uc.id().version() == TIME &&
+           uc.id().origin.payload() == 0) {
         Uuid ref{uc.ref()};
-        if (ref.origin == 0 && ref.value < MAXSEQ) {
-            ref = Uuid{now.value.as_u64 + uc.ref().value.as_u64, now.origin};
+        if (ref.origin.payload() == 0 && ref.value < MAXSEQ) {
+            ref = Uuid{first.value + ref.value.as_u64, first.origin};
         }
-        stamp.AppendOp(Op::Amend(id, ref, uc));
+        stamp.AppendOp(Op::Amend(now, ref, uc));
         uc.Next();
-        now.inc();
+        ++now;
     }
     stamp.EndChunk(RAW);
     Cursor stamped{stamp.data()};
+    stamped.Next();
     Status ok;
     while (stamped.valid() && ok) {
         ok = SaveChain(resp, stamped);
diff --git a/db/replica.hpp b/db/replica.hpp
index 118ed48..518c4cd 100644
--- a/db/replica.hpp
+++ b/db/replica.hpp
@@ -343,6 +343,7 @@ class Replica {
         inline Status NewObject(Uuid rdt) {
             Frame creation = OneOp<Frame>(Uuid::Time(0, 0), rdt);
             Cursor c{creation};
+            c.Next();
             Builder re;
             return WriteNewEvents(re, c);
         }
-- 
2.43.0


From c17c0c54bdcaa2c76f5779ffeeed26d3ee6e59f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:57 +0000
Subject: [PATCH 59/64] fix: a frame goes to the active branch by default

---
 db/replica.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/db/replica.cc b/db/replica.cc
index 01078b3..1dc2ef8 100644
--- a/db/replica.cc
+++ b/db/replica.cc
@@ -723,6 +723,9 @@ Status Replica<Store>::Receive(Builder& resp, Cursor& c, Word yarn_id) {
     if (!open()) {
         return Status::NOTOPEN;
     }
+    if (yarn_id == ZERO) {
+        yarn_id = active_.origin;
+    }
     if (!HasBranch(yarn_id)) {
         // TODO 1 such check
         return Status::NOT_FOUND.comment("unknown branch");
-- 
2.43.0


From 28447d8c4f20fa7592527f93cb2fe7cb807fc651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:19 +0000
Subject: [PATCH 60/64] fix: a frame with a syntax error is refused entirely

---
 db/map/txt.hpp |  4 ++--
 db/replica.cc  | 23 ++++++++++++++---------
 db/replica.hpp |  5 +++--
 3 files changed, 19 insertions(+), 13 deletions(-)

diff --git a/db/map/txt.hpp b/db/map/txt.hpp
index 5b9e5e4..75400ba 100644
--- a/db/map/txt.hpp
+++ b/db/map/txt.hpp
@@ -27,8 +27,8 @@ Status TxtMapper<Commit>::Read(Builder& response, Cursor& query, Commit& branch)
         ++pos;
     }
     response.AppendOp(Op{id.derived(), TXT_MAP_ID, text});
-    query.Next(); // consume the query
-    return Status::OK;
+    Status ok = query.Next(); // consume the query
+    return ok == Status::ENDOFFRAME ? Status::OK : ok;
 }
 
 template <typename Commit>
diff --git a/db/replica.cc b/db/replica.cc
index 1dc2ef8..93e602e 100644
--- a/db/replica.cc
+++ b/db/replica.cc
@@ -10,6 +10,13 @@ const Uuid Replica<Store>::NOW_UUID{915334634030497792UL, 0};
 const Uuid ACTIVE_STORE_UUID{"0000active+0"};
 const Uuid NAME_UUID{"name"};
 
+/** Proceeds to the next op, if any; a syntax error is an error. */
+template <typename Cursor>
+inline Status Consume(Cursor& c) {
+    Status ok = c.Next();
+    return ok == Status::ENDOFFRAME ? Status::OK : ok;
+}
+
 //  L I F E C Y C L E
 
 template <typename Store>
@@ -498,15 +505,13 @@ Status Replica<Store>::Commit::QueryObject(Builder& response, Cursor& query) {
         Frame f;
         IFOK(join_.Read(key, f));
         AppendFrame<Frame>(response, f);
-        query.Next();
-        return Status::OK;
+        return Consume(query);
     } else if (host_.mode_ & KEEP_OBJECT_LOGS) {
         Key logkey{query.id(), LOG_FORM_UUID};
         Frame log;
         join_.Read(logkey, log);
-        Status ok = ObjectLogIntoState(response, log);
-        query.Next();
-        return ok;
+        IFOK(ObjectLogIntoState(response, log));
+        return Consume(query);
     } else {
         return Status::NOT_FOUND.comment("unsupported form");
     }
@@ -526,7 +531,7 @@ template <typename Store>
 Status Replica<Store>::Commit::QueryObjectLog(Builder& response,
                                               Cursor& query) {
     Uuid id = query.id();
-    query.Next();
+    IFOK(Consume(query));
     OpMeta meta;
     IFOK(FindOpMeta(meta, id));
     Key logkey{meta.object, meta.rdt};
@@ -580,7 +585,7 @@ Status Replica<Store>::Commit::WriteNewEvents(Builder& resp, Cursor& uc) {
             ref = Uuid{first.value + ref.value.as_u64, first.origin};
         }
         stamp.AppendOp(Op::Amend(now, ref, uc));
-        uc.Next();
+        IFOK(Consume(uc));
         ++now;
     }
     stamp.EndChunk(RAW);
@@ -675,7 +680,7 @@ Status Replica<Store>::Commit::WriteName(Cursor& cmd) {
         return Status::BADARGS.comment("a name must be a NAME UUID");
     }
     // TODO global/scoped names
-    cmd.Next();
+    IFOK(Consume(cmd));
     return WriteName(tag, tip_);
 }
 
@@ -754,7 +759,7 @@ Status Replica<Store>::Receive(Builder& resp, Cursor& c, Word yarn_id) {
                 break;
             case NAME:
                 if (c.id() == Uuid::COMMENT) {
-                    ok = c.Next();
+                    ok = Consume(c);
                 } else if (c.id() == NAME_UUID) {
                     ok = commit.WriteName(c);
                 } else {
diff --git a/db/replica.hpp b/db/replica.hpp
index 518c4cd..b761936 100644
--- a/db/replica.hpp
+++ b/db/replica.hpp
@@ -398,8 +398,9 @@ class Replica {
     inline Status ReceiveFrame(Builder &response, Frame frame,
                                Word branch = ZERO) {
         Cursor c{frame};
-        if (!c.Next()) {
-            return Status::OK;
+        Status ok = c.Next();
+        if (!ok) {
+            return ok == Status::ENDOFFRAME ? Status::OK : ok;
         }
         return Receive(response, c, branch);
     }
-- 
2.43.0


From a1ddda09af27bff59853e6fab689892e83c1965f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:51 +0000
Subject: [PATCH 61/64] fix: the active branch stays dropped, a later branch of
 that name is not active on reopening

---
 db/replica.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/db/replica.cc b/db/replica.cc
index 93e602e..7fc2728 100644
--- a/db/replica.cc
+++ b/db/replica.cc
@@ -154,11 +154,11 @@ inline Status Replica<Store>::DropStore(Uuid store) {
     if (!HasStore(store)) {
         return Status::NOT_FOUND.comment("no such store: " + store.str());
     }
+    if (active_ == store) {  // a later namesake must not become active
+        IFOK(SetActiveStore(Uuid::NIL));
+    }
     Store& kill = GetStore(store);
     IFOK(kill.Drop());
-    if (active_ == store) {
-        active_ = Uuid::NIL;
-    }
     stores_.erase(store);
     // TODO consistency checks
     return Status::OK;
-- 
2.43.0


From d8ae1c1885b2bad365d6597af3036bee73c1987d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:44 +0000
Subject: [PATCH 62/64] fix: a repair loses the branches that are in the log
 only

---
 db/rocks_store.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/db/rocks_store.cc b/db/rocks_store.cc
index 68b4818..284cc66 100644
--- a/db/rocks_store.cc
+++ b/db/rocks_store.cc
@@ -390,6 +390,12 @@ Status RocksDBStore<Frame>::Repair() {
         families.push_back(CFD{name, cfo});
     }
 
+    // a repair loses the branches that have no table files yet; if the database
+    // opens at all, its recovery makes those
+    Branches all;
+    OpenAll(all);
+    all.clear();
+
     IFROK(rocksdb::RepairDB(ROCKSDB_STORE_DIR, options, families));
 
     return Status::OK;
-- 
2.43.0


From a77eebb62c24ba146d3c0200dcc24647b2a9e505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:42 +0000
Subject: [PATCH 63/64] fix: a query of an object's log is answered with its
 state

---
 db/replica.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/db/replica.cc b/db/replica.cc
index 7fc2728..b88586e 100644
--- a/db/replica.cc
+++ b/db/replica.cc
@@ -534,7 +534,7 @@ Status Replica<Store>::Commit::QueryObjectLog(Builder& response,
     IFOK(Consume(query));
     OpMeta meta;
     IFOK(FindOpMeta(meta, id));
-    Key logkey{meta.object, meta.rdt};
+    Key logkey{meta.object, LOG_FORM_UUID};
     if (id == meta.object) {
         Frame obj;
         IFOK(join_.Read(logkey, obj));
-- 
2.43.0


From fa53daf8de2eb3fe6c0d0e1112bd04e8fc62a40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:42 +0000
Subject: [PATCH 64/64] fix: the answer to a query of a part of a log is not
 terminated

---
 db/replica.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/db/replica.cc b/db/replica.cc
index b88586e..c63bc87 100644
--- a/db/replica.cc
+++ b/db/replica.cc
@@ -548,6 +548,7 @@ Status Replica<Store>::Commit::QueryObjectLog(Builder& response,
     while (c.Next() && c.id() != id) {
         response.AppendOp(c);
     }
+    response.EndChunk();
     return c.id() == id ? Status::OK
                         : Status::NOT_FOUND.comment("no such op in the log");
 }
-- 
2.43.0

