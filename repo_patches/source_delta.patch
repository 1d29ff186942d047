From 1d44ad42ebf2790bfc7886cc6d725d7feab4ff47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:26:55 +0000
Subject: [PATCH 01/76] fix: witness hash of a transaction without witnesses is
 its txid hash

---
 src/Transaction.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Transaction.cpp b/src/Transaction.cpp
index 39d74b9..4a6a28e 100644
--- a/src/Transaction.cpp
+++ b/src/Transaction.cpp
@@ -540,6 +540,9 @@ int Tx::hash(uint8_t * h) const{
     return 32;
 }
 int Tx::whash(uint8_t * h) const{
+    if(!isSegwit()){ // without witnesses wtxid is equal to txid (bip141)
+        return hash(h);
+    }
     DoubleSha s;
     s.begin();
 
-- 
2.43.0


From 3beecf2ed691f254e26af9f519cdea7076efe995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:26:56 +0000
Subject: [PATCH 02/76] fix: Script parsing in pieces (empty piece, length
 split between pieces) and clear() of an empty script

---
 src/Script.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/Script.cpp b/src/Script.cpp
index 4fb5eb5..42379e0 100644
--- a/src/Script.cpp
+++ b/src/Script.cpp
@@ -254,12 +254,12 @@ Script::Script(const Script &other, ScriptType type){
     }
 }
 void Script::clear(){
-    if(scriptLen > 0 && scriptArray != NULL){
+    if(scriptArray != NULL){
         free(scriptArray);
         scriptArray = NULL;
-        scriptLen = 0;
-        lenLen = 0;
     }
+    scriptLen = 0;
+    lenLen = 0;
 }
 size_t Script::from_stream(ParseStream *s){
     if(status == PARSING_FAILED){
@@ -284,13 +284,21 @@ size_t Script::from_stream(ParseStream *s){
         }else{
             scriptLen = 0;
             lenLen = 1+(1 << (lenLen - 0xfc));
-            scriptArray = (uint8_t *) calloc( 255, sizeof(uint8_t));
+            // keep the varint here until it is complete
+            scriptArray = (uint8_t *) calloc( lenLen, sizeof(uint8_t));
+            if(scriptArray == NULL){ status = PARSING_FAILED; return 0; }
         }
         if(scriptArray == NULL && scriptLen > 0){ status = PARSING_FAILED; scriptLen = 0; return 0; }
     }
+    if(bytes_parsed+bytes_read == 0){ // nothing to read yet
+        return 0;
+    }
     while(s->available() > 0 && bytes_parsed+bytes_read < lenLen){
-        scriptLen += (s->read() << (8*(bytes_parsed+bytes_read-1)));
+        scriptArray[bytes_parsed+bytes_read] = s->read();
         bytes_read++;
+        if(bytes_parsed+bytes_read == lenLen){
+            scriptLen = littleEndianToInt(scriptArray+1, lenLen-1);
+        }
     }
     if(bytes_parsed+bytes_read == lenLen && scriptLen > 0){
         free(scriptArray);
-- 
2.43.0


From fcc5e6076751a810a99e405e3049a4ae316bfd86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:26:58 +0000
Subject: [PATCH 03/76] fix: Script::push of no data leaks a zero-size
 allocation

---
 src/Script.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Script.cpp b/src/Script.cpp
index 42379e0..9ded088 100644
--- a/src/Script.cpp
+++ b/src/Script.cpp
@@ -444,6 +444,9 @@ size_t Script::push(uint8_t code){
     return scriptLen;
 }
 size_t Script::push(const uint8_t * data, size_t len){
+    if(len == 0){
+        return scriptLen;
+    }
     if(scriptLen+len > MAX_SCRIPT_SIZE){
         clear();
         return 0;
-- 
2.43.0


From 267428fa18eddb86ca326ee7b83118bbba00db1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:26:59 +0000
Subject: [PATCH 04/76] fix: Witness::clear leaves a dangling pointer (double
 free)

---
 src/Script.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/Script.cpp b/src/Script.cpp
index 9ded088..c6d1dbe 100644
--- a/src/Script.cpp
+++ b/src/Script.cpp
@@ -517,10 +517,11 @@ Script::Script(const Script &other){
 
 void Witness::clear(){
     numElements = 0;
-    if(witnessLen > 0){
+    if(witnessArray != NULL){
         free(witnessArray);
-        witnessLen = 0;
+        witnessArray = NULL;
     }
+    witnessLen = 0;
 }
 void Witness::init(){
     numElements = 0;
@@ -613,7 +614,7 @@ size_t Witness::from_stream(ParseStream *s){
                 writeVarInt(cur_element_len, witnessArray, lenVarInt(cur_element_len));
             }else{
                 uint8_t * ptr = (uint8_t *)realloc( witnessArray, (witnessLen + cur_element_len + lenVarInt(cur_element_len)) * sizeof(uint8_t));
-                if(ptr == NULL){ free(witnessArray); witnessLen = 0; status=PARSING_FAILED; return 0;}
+                if(ptr == NULL){ clear(); status=PARSING_FAILED; return 0;}
                 witnessArray = ptr;
                 witnessLen += cur_element_len+lenVarInt(cur_element_len);
                 writeVarInt(cur_element_len, witnessArray+offset, lenVarInt(cur_element_len));
@@ -669,7 +670,7 @@ size_t Witness::push(const uint8_t * data, size_t len){
         if(witnessArray == NULL){ witnessLen = 0; return 0; }
     }else{
         uint8_t * ptr = (uint8_t *) realloc( witnessArray, (witnessLen + len + lenVarInt(len)) * sizeof(uint8_t));
-        if(ptr == NULL){ free(witnessArray); witnessLen = 0; return 0; }
+        if(ptr == NULL){ clear(); return 0; }
         witnessArray = ptr;
     }
     writeVarInt(len, witnessArray+witnessLen, lenVarInt(len));
-- 
2.43.0


From 4ace5b0d50d99cbb68a7d66285f062834a0df910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:27:01 +0000
Subject: [PATCH 05/76] fix: Witness parsing in pieces (empty piece, element
 length split between pieces, oversized element)

---
 src/Script.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/Script.cpp b/src/Script.cpp
index c6d1dbe..9112bc4 100644
--- a/src/Script.cpp
+++ b/src/Script.cpp
@@ -573,6 +573,9 @@ size_t Witness::from_stream(ParseStream *s){
             return bytes_read;
         }
     }
+    if(bytes_parsed+bytes_read == 0){ // nothing to read yet
+        return 0;
+    }
     if(bytes_parsed+bytes_read == lenLen && lenVarInt(numElements) != lenLen){
         status = PARSING_FAILED;
         bytes_parsed+=bytes_read;
@@ -594,9 +597,15 @@ size_t Witness::from_stream(ParseStream *s){
                 cur_element_len = 0;
                 curLen = 1+(1 << (curLen - 0xfc));
             }
+            if(curLen > 5){ // element is larger than 4 GB
+                status = PARSING_FAILED;
+                bytes_read+=cur_bytes_read;
+                bytes_parsed+=bytes_read;
+                return bytes_read;
+            }
         }
         while(s->available() && cur_bytes_parsed+cur_bytes_read < curLen){
-            cur_element_len += (s->read() << (8*(cur_bytes_parsed+cur_bytes_read-1)));
+            cur_element_len += ((size_t)s->read() << (8*(cur_bytes_parsed+cur_bytes_read-1)));
             cur_bytes_read++;
         }
         if(lenVarInt(cur_element_len) != curLen && cur_bytes_parsed+cur_bytes_read == curLen){
@@ -625,7 +634,7 @@ size_t Witness::from_stream(ParseStream *s){
             // s->read();
             cur_bytes_read++;
         }
-        if(cur_bytes_parsed+cur_bytes_read==cur_element_len+lenVarInt(cur_element_len)){
+        if(cur_bytes_parsed+cur_bytes_read >= curLen && cur_bytes_parsed+cur_bytes_read==cur_element_len+lenVarInt(cur_element_len)){
             curLen = 0;
             cur_element_len = 0;
             cur_element++;
-- 
2.43.0


From b7a27cee8ef518efe73e2000ef82de887e11db45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:27:02 +0000
Subject: [PATCH 06/76] fix: assigning a Witness resets its parsing state

---
 src/Script.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Script.cpp b/src/Script.cpp
index 9112bc4..5b37e8c 100644
--- a/src/Script.cpp
+++ b/src/Script.cpp
@@ -724,6 +724,7 @@ Witness::Witness(const Witness &other){
 };
 Witness &Witness::operator=(Witness const &other){
     if (this == &other){ return *this; } // self-assignment
+    reset();
     clear();
     numElements = other.numElements;
     if(other.witnessLen > 0){
-- 
2.43.0


From 40fc033b3ee8e8a7baa2d7759f722a4b09fa603e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:27:04 +0000
Subject: [PATCH 07/76] fix: TxIn constructors with a script initialize the
 hash

---
 src/Transaction.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Transaction.cpp b/src/Transaction.cpp
index 4a6a28e..5b85542 100644
--- a/src/Transaction.cpp
+++ b/src/Transaction.cpp
@@ -35,6 +35,7 @@ TxIn::TxIn(const uint8_t prev_id[32], uint32_t prev_index, uint32_t sequence_num
     }
 }
 TxIn::TxIn(const uint8_t prev_id[32], uint32_t prev_index, const Script script, uint32_t sequence_number){
+    init();
     outputIndex = prev_index;
     sequence = sequence_number;
     for(int i=0; i<32; i++){
@@ -57,6 +58,7 @@ TxIn::TxIn(const char * prev_id, uint32_t prev_index, uint32_t sequence_number){
     }
 }
 TxIn::TxIn(const char * prev_id, uint32_t prev_index, const Script script, uint32_t sequence_number){
+    init();
     outputIndex = prev_index;
     sequence = sequence_number;
     if(strlen(prev_id) < 64){
-- 
2.43.0


From 2235c8e9a26ff10bfa9d1d02562380e8ddb211cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:27:05 +0000
Subject: [PATCH 08/76] fix: parsing a TxIn again clears the old witness

---
 src/Transaction.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Transaction.cpp b/src/Transaction.cpp
index 5b85542..0c91bca 100644
--- a/src/Transaction.cpp
+++ b/src/Transaction.cpp
@@ -80,6 +80,7 @@ size_t TxIn::from_stream(ParseStream *s){
         outputIndex = 0;
         sequence = 0;
         scriptSig = Script();
+        witness = Witness();
     }
     status = PARSING_INCOMPLETE;
     size_t bytes_read = 0;
-- 
2.43.0


From 4258979920844daa95757487166d8c9def887e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:27:07 +0000
Subject: [PATCH 09/76] fix: Tx serializes all bytes of the number of inputs
 and outputs

---
 src/Transaction.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Transaction.cpp b/src/Transaction.cpp
index 0c91bca..07cddc2 100644
--- a/src/Transaction.cpp
+++ b/src/Transaction.cpp
@@ -311,7 +311,7 @@ size_t Tx::to_stream(SerializeStream *s, size_t offset) const{
     }
     size_t cur_offset = 4+2*is_segwit;
     size_t l = writeVarInt(inputsNumber, arr, 10);
-    if(s->available() && bytes_written+offset < cur_offset+l){
+    while(s->available() && bytes_written+offset < cur_offset+l){
         s->write(arr[bytes_written+offset-cur_offset]);
         bytes_written++;
     }
@@ -324,7 +324,7 @@ size_t Tx::to_stream(SerializeStream *s, size_t offset) const{
         cur_offset+=l;
     }
     l = writeVarInt(outputsNumber, arr, 10);
-    if(s->available() && bytes_written+offset < cur_offset+l){
+    while(s->available() && bytes_written+offset < cur_offset+l){
         s->write(arr[bytes_written+offset-cur_offset]);
         bytes_written++;
     }
-- 
2.43.0


From ec1ab052e2275fb36ea890b8a4bf2aeceb00259f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:27:08 +0000
Subject: [PATCH 10/76] fix: Tx parsing fails on a multibyte number of inputs
 or outputs instead of misreading it

---
 src/Transaction.cpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/Transaction.cpp b/src/Transaction.cpp
index 07cddc2..dd76b96 100644
--- a/src/Transaction.cpp
+++ b/src/Transaction.cpp
@@ -376,6 +376,11 @@ size_t Tx::from_stream(ParseStream *s){
         if(c == 0x00){ // segwit!
             segwit_flag = 1;
         }else{
+            if(c >= 0xfd){ // multibyte varint is not supported
+                status = PARSING_FAILED;
+                bytes_parsed+=bytes_read;
+                return bytes_read;
+            }
             inputsNumber = c; // FIXME: should be varint, but 255 inputs will kill the MCU...
             txIns = new TxIn[inputsNumber];
             for(unsigned int i=0; i<inputsNumber; i++){ // this will at least set all txins to PARSING_INCOMPLETE
@@ -393,8 +398,14 @@ size_t Tx::from_stream(ParseStream *s){
         }
     }
     if(s->available() && segwit_flag > 0 && bytes_read+bytes_parsed == 6){
-        inputsNumber = s->read();
+        uint8_t c = s->read();
         bytes_read++;
+        if(c >= 0xfd){ // multibyte varint is not supported
+            status = PARSING_FAILED;
+            bytes_parsed+=bytes_read;
+            return bytes_read;
+        }
+        inputsNumber = c;
         txIns = new TxIn[inputsNumber];
         for(unsigned int i=0; i<inputsNumber; i++){ // this will at least set all txins to PARSING_INCOMPLETE
             bytes_read += s->parse(&txIns[i]);
@@ -415,8 +426,14 @@ size_t Tx::from_stream(ParseStream *s){
         current_offset += txIns[i].length();
     }
     if(s->available() && bytes_read+bytes_parsed == current_offset){
-        outputsNumber = s->read();
+        uint8_t c = s->read();
         bytes_read++;
+        if(c >= 0xfd){ // multibyte varint is not supported
+            status = PARSING_FAILED;
+            bytes_parsed+=bytes_read;
+            return bytes_read;
+        }
+        outputsNumber = c;
         txOuts = new TxOut[outputsNumber];
         for(unsigned int i=0; i<outputsNumber; i++){ // this will at least set all txouts to PARSING_INCOMPLETE
             bytes_read += s->parse(&txOuts[i]);
-- 
2.43.0


From bfce8a31c8009a7e06f1e958476e77de20ac6ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:27:10 +0000
Subject: [PATCH 11/76] fix: Tx leaks empty input and output arrays

---
 src/Transaction.cpp | 31 +++++++++----------------------
 1 file changed, 9 insertions(+), 22 deletions(-)

diff --git a/src/Transaction.cpp b/src/Transaction.cpp
index dd76b96..ba3c36f 100644
--- a/src/Transaction.cpp
+++ b/src/Transaction.cpp
@@ -233,12 +233,7 @@ Tx::Tx(const Tx & other){
 Tx& Tx::operator=(Tx const &other){ // copy-paste =(
     if (this == &other){ return *this; } // self-assignment
     version = other.version;
-    if(inputsNumber > 0){
-        delete [] txIns;
-    }
-    if(outputsNumber > 0){
-        delete [] txOuts;
-    }
+    clear();
     inputsNumber = other.inputsNumber;
     outputsNumber = other.outputsNumber;
     txIns = new TxIn[inputsNumber];
@@ -259,16 +254,12 @@ Tx::~Tx(){
     clear();
 }
 void Tx::clear(){
-    if(inputsNumber > 0){
-        inputsNumber = 0;
-        delete [] txIns;
-        txIns = NULL;
-    }
-    if(outputsNumber > 0){
-        outputsNumber = 0;
-        delete [] txOuts;
-        txOuts = NULL;
-    }
+    inputsNumber = 0;
+    delete [] txIns;
+    txIns = NULL;
+    outputsNumber = 0;
+    delete [] txOuts;
+    txOuts = NULL;
 }
 size_t Tx::length() const{
     bool is_segwit = isSegwit();
@@ -627,9 +618,7 @@ uint8_t Tx::addInput(const TxIn txIn){
         arr[i] = txIns[i];
     }
     arr[inputsNumber] = txIn;
-    if(inputsNumber > 0){
-        delete [] txIns;
-    }
+    delete [] txIns;
     txIns = arr;
     inputsNumber++;
     return inputsNumber;
@@ -640,9 +629,7 @@ uint8_t Tx::addOutput(const TxOut txOut){
         arr[i] = txOuts[i];
     }
     arr[outputsNumber] = txOut;
-    if(outputsNumber > 0){
-        delete [] txOuts;
-    }
+    delete [] txOuts;
     txOuts = arr;
     outputsNumber++;
     return outputsNumber;
-- 
2.43.0


From dd367bb17fb6d5ad7bd213eb8841fc80aa33d75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:27:12 +0000
Subject: [PATCH 12/76] fix: non-hex characters are not parsed as 0xff bytes

---
 src/BaseClasses.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/BaseClasses.cpp b/src/BaseClasses.cpp
index ccc51b1..47dddd3 100644
--- a/src/BaseClasses.cpp
+++ b/src/BaseClasses.cpp
@@ -36,6 +36,10 @@ ParseByteStream::~ParseByteStream(){
 }
 size_t ParseByteStream::available(){
     if(format == HEX_ENCODING){
+        // non-hex characters end the stream
+        if(len - cursor < 2 || hexToVal(buf[cursor]) > 0x0F || hexToVal(buf[cursor+1]) > 0x0F){
+            return 0;
+        }
         return (len - cursor)/2;
     }else{
         return len-cursor;
@@ -43,7 +47,7 @@ size_t ParseByteStream::available(){
 };
 int ParseByteStream::read(){
     if(format == HEX_ENCODING){
-        if(cursor < len-1){
+        if(cursor+1 < len){
             uint8_t c1 = hexToVal(buf[cursor]);
             uint8_t c2 = hexToVal(buf[cursor+1]);
             if(c1 < 0x10 && c2 < 0x10){
-- 
2.43.0


From 9571cb5f86583dd5fed19398167ab5098ccefb76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:27:13 +0000
Subject: [PATCH 13/76] fix: serializing to a string from an offset beyond the
 end

---
 src/BaseClasses.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/BaseClasses.cpp b/src/BaseClasses.cpp
index 47dddd3..3f92f50 100644
--- a/src/BaseClasses.cpp
+++ b/src/BaseClasses.cpp
@@ -158,7 +158,8 @@ String Readable::toString() const{
 #if USE_ARDUINO_STRING || USE_STD_STRING
 String Streamable::serialize(size_t offset, size_t len) const{
     if(len == 0){
-        len = (length()-offset);
+        size_t l = length();
+        len = (offset < l) ? (l-offset) : 0;
     }
     char * arr = (char *)calloc(2*len+1, sizeof(char));
     serialize(arr, 2*len, offset, HEX_ENCODING);
-- 
2.43.0


From ad991488cd992c5f181a465e125018b66cfd5ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:03 +0000
Subject: [PATCH 14/76] fix: Script::push of a script longer than 75 bytes uses
 PUSHDATA and does not leak

---
 src/Script.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/Script.cpp b/src/Script.cpp
index 5b37e8c..dd88e78 100644
--- a/src/Script.cpp
+++ b/src/Script.cpp
@@ -479,12 +479,17 @@ size_t Script::push(const Signature sig, SigHashType sigType){
     return scriptLen;
 }
 size_t Script::push(const Script sc){
-    size_t len = sc.length();
-    uint8_t * tmp;
-    tmp = (uint8_t *)calloc(len, sizeof(uint8_t));
-    if(tmp == NULL){ return 0; }
-    sc.serialize(tmp, len);
-    push(tmp, len);
+    if(sc.scriptLen <= 75){
+        push(sc.scriptLen);
+    }else if(sc.scriptLen <= 0xff){
+        push(OP_PUSHDATA1);
+        push(sc.scriptLen);
+    }else{ // scripts are limited to MAX_SCRIPT_SIZE
+        push(OP_PUSHDATA2);
+        push(sc.scriptLen & 0xff);
+        push(sc.scriptLen >> 8);
+    }
+    push(sc.scriptArray, sc.scriptLen);
     return scriptLen;
 }
 Script Script::scriptPubkey(ScriptType type) const{
-- 
2.43.0


From 0d3989c9c38db69eaa3dff309ab10a231a018c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:05 +0000
Subject: [PATCH 15/76] fix: ECPoint::operator< is reversed

---
 src/BitcoinCurve.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BitcoinCurve.cpp b/src/BitcoinCurve.cpp
index 941b47f..97170f8 100644
--- a/src/BitcoinCurve.cpp
+++ b/src/BitcoinCurve.cpp
@@ -266,7 +266,7 @@ bool ECPoint::operator<(const ECPoint& other) const{
 	uint8_t sec2[65];
 	sec(sec1, sizeof(sec1));
 	other.sec(sec2, sizeof(sec2));
-	return memcmp(sec1, sec2, sizeof(sec1)) > 0;
+	return memcmp(sec1, sec2, sizeof(sec1)) < 0;
 }
 ECPoint operator*(const ECScalar& scalar, const ECPoint& point){
 	ECPoint r;
-- 
2.43.0


From 586de8031c2f076ec2b008a6398f05b30af9d536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:07 +0000
Subject: [PATCH 16/76] fix: sortedmulti sorts the public keys

---
 src/Script.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/Script.cpp b/src/Script.cpp
index dd88e78..c923a4c 100644
--- a/src/Script.cpp
+++ b/src/Script.cpp
@@ -103,9 +103,15 @@ static void quickSort(PublicKey array[], int low, int high) {
 }
 
 Script sortedmulti(uint8_t threshold, const PublicKey * pubkeys, uint8_t pubkeys_len){
-    // sort first
-    PublicKey * sortedkeys = (PublicKey *) pubkeys;
-    // TODO: the most
+    if(pubkeys_len == 0 || pubkeys_len > 16){
+        return Script();
+    }
+    // sort a copy
+    PublicKey sortedkeys[16];
+    for(int i=0; i<pubkeys_len; i++){
+        sortedkeys[i] = pubkeys[i];
+    }
+    quickSort(sortedkeys, 0, pubkeys_len-1);
     return multi(threshold, sortedkeys, pubkeys_len);
 }
 
-- 
2.43.0


From ff869a6597e8453988a891688a1211eb326c473f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:08 +0000
Subject: [PATCH 17/76] fix: Script(pubkey, P2SH_P2WPKH) is the nested segwit
 script

---
 src/Script.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Script.cpp b/src/Script.cpp
index c923a4c..02429c4 100644
--- a/src/Script.cpp
+++ b/src/Script.cpp
@@ -215,6 +215,9 @@ void Script::fromAddress(const char * address){
 }
 Script::Script(const PublicKey pubkey, ScriptType type){
     init();
+    if(type == P2SH_P2WPKH){
+        *this = sh(wpkh(pubkey));
+    }
     if(type == P2PKH){
         scriptLen = 25;
         scriptArray = (uint8_t *) calloc( scriptLen, sizeof(uint8_t));
-- 
2.43.0


From d856ee85fca00a0387f0a07cbb7a310f556b61dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:25 +0000
Subject: [PATCH 18/76] fix: scripts from bech32 addresses (bcrt prefix, upper
 case, 40-byte programs, witness versions above 0)

---
 src/Script.cpp            | 14 +++++---------
 src/utility/segwit_addr.c |  1 +
 2 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/Script.cpp b/src/Script.cpp
index 02429c4..972e462 100644
--- a/src/Script.cpp
+++ b/src/Script.cpp
@@ -152,8 +152,11 @@ void Script::fromAddress(const char * address){
     }
     ScriptType type = UNKNOWN_TYPE;
     const Network * network;
+    int ver = 0;
+    uint8_t prog[40];
+    size_t prog_len = 0;
     for(int i=0; i<networks_len; i++){
-        if(memcmp(address, networks[i]->bech32, strlen(networks[i]->bech32))==0){
+        if(segwit_addr_decode(&ver, prog, &prog_len, networks[i]->bech32, address) == 1){
             type = P2WPKH;
             network = networks[i];
             break;
@@ -161,17 +164,10 @@ void Script::fromAddress(const char * address){
     }
     // segwit
     if(type == P2WPKH){
-        int ver = 0;
-        uint8_t prog[32];
-        size_t prog_len = 0;
-        int r = segwit_addr_decode(&ver, prog, &prog_len, network->bech32, address);
-        if(r != 1){ // decoding failed
-            return;
-        }
         scriptLen = prog_len + 2;
         scriptArray = (uint8_t *) calloc( scriptLen, sizeof(uint8_t));
         if(scriptArray == NULL){ scriptLen = 0; return; }
-        scriptArray[0] = ver;
+        scriptArray[0] = (ver == 0) ? 0 : (OP_1 + ver - 1);
         scriptArray[1] = prog_len; // varint?
         memcpy(scriptArray+2, prog, prog_len);
     }else{ // legacy or nested segwit
diff --git a/src/utility/segwit_addr.c b/src/utility/segwit_addr.c
index 337968f..c329018 100755
--- a/src/utility/segwit_addr.c
+++ b/src/utility/segwit_addr.c
@@ -178,6 +178,7 @@ int segwit_addr_decode(int* witver, uint8_t* witdata, size_t* witdata_len, const
     uint8_t data[84];
     char hrp_actual[84];
     size_t data_len;
+    if (strlen(addr) > 90) return 0;
     if (!bech32_decode(hrp_actual, data, &data_len, addr)) return 0;
     if (data_len == 0 || data_len > 65) return 0;
     if (strncmp(hrp, hrp_actual, 84) != 0) return 0;
-- 
2.43.0


From ecb9e834d34968c3799bd2e82d54c84931f67542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:45 +0000
Subject: [PATCH 19/76] fix: segwit addresses of witness version 1 and above
 use bech32m (BIP350)

---
 src/utility/segwit_addr.c | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/utility/segwit_addr.c b/src/utility/segwit_addr.c
index c329018..c1f454e 100755
--- a/src/utility/segwit_addr.c
+++ b/src/utility/segwit_addr.c
@@ -47,7 +47,11 @@ static const int8_t charset_rev[128] = {
      1,  0,  3, 16, 11, 28, 12, 14,  6,  4,  2, -1, -1, -1, -1, -1
 };
 
-int bech32_encode(char *output, const char *hrp, const uint8_t *data, size_t data_len) {
+// checksum constants of bech32 (BIP173) and bech32m (BIP350)
+#define BECH32_CONST  1
+#define BECH32M_CONST 0x2bc830a3UL
+
+static int bech32_encode_const(char *output, const char *hrp, const uint8_t *data, size_t data_len, uint32_t checksum) {
     uint32_t chk = 1;
     size_t i = 0;
     while (hrp[i] != 0) {
@@ -75,7 +79,7 @@ int bech32_encode(char *output, const char *hrp, const uint8_t *data, size_t dat
     for (i = 0; i < 6; ++i) {
         chk = bech32_polymod_step(chk);
     }
-    chk ^= 1;
+    chk ^= checksum;
     for (i = 0; i < 6; ++i) {
         *(output++) = charset[(chk >> ((5 - i) * 5)) & 0x1f];
     }
@@ -83,7 +87,12 @@ int bech32_encode(char *output, const char *hrp, const uint8_t *data, size_t dat
     return 1;
 }
 
-int bech32_decode(char* hrp, uint8_t *data, size_t *data_len, const char *input) {
+int bech32_encode(char *output, const char *hrp, const uint8_t *data, size_t data_len) {
+    return bech32_encode_const(output, hrp, data, data_len, BECH32_CONST);
+}
+
+// the checksum found is written to checksum
+static int bech32_decode_const(char* hrp, uint8_t *data, size_t *data_len, const char *input, uint32_t *checksum) {
     uint32_t chk = 1;
     size_t i;
     size_t input_len = strlen(input);
@@ -137,7 +146,14 @@ int bech32_decode(char* hrp, uint8_t *data, size_t *data_len, const char *input)
     if (have_lower && have_upper) {
         return 0;
     }
-    return chk == 1;
+    *checksum = chk;
+    return 1;
+}
+
+int bech32_decode(char* hrp, uint8_t *data, size_t *data_len, const char *input) {
+    uint32_t checksum;
+    if (!bech32_decode_const(hrp, data, data_len, input, &checksum)) return 0;
+    return checksum == BECH32_CONST;
 }
 
 int convert_bits(uint8_t* out, size_t* outlen, int outbits, const uint8_t* in, size_t inlen, int inbits, int pad) {
@@ -171,7 +187,7 @@ int segwit_addr_encode(char *output, const char *hrp, int witver, const uint8_t
     data[0] = witver;
     convert_bits(data + 1, &datalen, 5, witprog, witprog_len, 8, 1);
     ++datalen;
-    return bech32_encode(output, hrp, data, datalen);
+    return bech32_encode_const(output, hrp, data, datalen, witver == 0 ? BECH32_CONST : BECH32M_CONST);
 }
 
 int segwit_addr_decode(int* witver, uint8_t* witdata, size_t* witdata_len, const char* hrp, const char* addr) {
@@ -179,10 +195,12 @@ int segwit_addr_decode(int* witver, uint8_t* witdata, size_t* witdata_len, const
     char hrp_actual[84];
     size_t data_len;
     if (strlen(addr) > 90) return 0;
-    if (!bech32_decode(hrp_actual, data, &data_len, addr)) return 0;
+    uint32_t checksum;
+    if (!bech32_decode_const(hrp_actual, data, &data_len, addr, &checksum)) return 0;
     if (data_len == 0 || data_len > 65) return 0;
     if (strncmp(hrp, hrp_actual, 84) != 0) return 0;
     if (data[0] > 16) return 0;
+    if (checksum != (data[0] == 0 ? BECH32_CONST : BECH32M_CONST)) return 0;
     *witdata_len = 0;
     if (!convert_bits(witdata, witdata_len, 8, data + 1, data_len - 1, 5, 0)) return 0;
     if (*witdata_len < 2 || *witdata_len > 40) return 0;
-- 
2.43.0


From 16bb11f12eeffc38d3b3111b021a712d2a1e758d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:42:22 +0000
Subject: [PATCH 20/76] fix: parse compressed points in pieces and reject x
 coordinates that are not on the curve

---
 src/BitcoinCurve.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/BitcoinCurve.cpp b/src/BitcoinCurve.cpp
index 97170f8..c7ecc06 100644
--- a/src/BitcoinCurve.cpp
+++ b/src/BitcoinCurve.cpp
@@ -8,7 +8,6 @@ const ECPoint InfinityPoint;
 const ECPoint GeneratorPoint("0279be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798");
 
 size_t ECPoint::from_stream(ParseStream *s){
-	static uint8_t first_byte;
 	if(status == PARSING_FAILED){
 		return 0;
 	}
@@ -29,12 +28,12 @@ size_t ECPoint::from_stream(ParseStream *s){
 				bytes_parsed += bytes_read;
 				return bytes_read;
 			}
-			first_byte = c;
 			if(c == 0x04){ // uncompressed
 				bytes_to_read += 32;
 				compressed = false;
 			}else{
 				compressed = true;
+				point[32] = c; // y is not known yet, keep its parity here
 			}
 		}
 	}
@@ -45,11 +44,15 @@ size_t ECPoint::from_stream(ParseStream *s){
 	if(bytes_to_read==0){
 		if(compressed){
 			uint8_t buf[33];
-			buf[0] = first_byte;
+			buf[0] = point[32];
 			memcpy(buf+1, point, 32);
-            uint8_t arr[65];
-            ecdsa_uncompress_pubkey(&secp256k1, buf, arr);
-            memcpy(point, arr+1, 64);
+			uint8_t arr[65] = { 0 };
+			if(!ecdsa_uncompress_pubkey(&secp256k1, buf, arr)){
+				status = PARSING_FAILED;
+				bytes_parsed += bytes_read;
+				return bytes_read;
+			}
+			memcpy(point, arr+1, 64);
 		}
 		status = PARSING_DONE;
 		if(!ECPoint::isValid()){
-- 
2.43.0


From eda63f0c89d40c9c9d02471101c8d08252826663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:42:23 +0000
Subject: [PATCH 21/76] fix: initialise points constructed from arrays

---
 src/BitcoinCurve.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/BitcoinCurve.cpp b/src/BitcoinCurve.cpp
index c7ecc06..2710c26 100644
--- a/src/BitcoinCurve.cpp
+++ b/src/BitcoinCurve.cpp
@@ -92,10 +92,12 @@ size_t ECPoint::fromSec(const uint8_t * arr, size_t len){
 }
 
 ECPoint::ECPoint(const uint8_t pubkeyArr[64], bool use_compressed){ 
+	reset();
 	memcpy(point, pubkeyArr, 64);
 	compressed = use_compressed;
 };
 ECPoint::ECPoint(const uint8_t * secArr){ 
+	reset();
 	if(secArr[0] == 0x04){
 		ECPoint::fromSec(secArr, 65);
 	}else{
-- 
2.43.0


From 89a70d573daec02979cee7987691a40d0ba63b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:42:24 +0000
Subject: [PATCH 22/76] fix: multiply points by scalars that are zero or not
 below the group order

---
 src/BitcoinCurve.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/BitcoinCurve.cpp b/src/BitcoinCurve.cpp
index 2710c26..57afa87 100644
--- a/src/BitcoinCurve.cpp
+++ b/src/BitcoinCurve.cpp
@@ -276,14 +276,20 @@ bool ECPoint::operator<(const ECPoint& other) const{
 ECPoint operator*(const ECScalar& scalar, const ECPoint& point){
 	ECPoint r;
 	uint8_t num[32];
+	bignum256 d;
 	scalar.getSecret(num);
+	bn_read_be(num, &d);
+	bn_mod(&d, &secp256k1.order);
+	bn_write_be(&d, num);
+	r.compressed = point.compressed;
+	if(bn_is_zero(&d) || point == InfinityPoint){
+		return r; // point at infinity
+	}
 	if(point == GeneratorPoint){
 		uint8_t pubkey[65];
 		ecdsa_get_public_key65(&secp256k1, num, pubkey);
 		r.parse(pubkey, 65);
 	}else{
-		bignum256 d;
-		bn_read_be(num, &d);
 		curve_point p, res;
 		bn_read_be(point.point, &p.x);
 		bn_read_be(point.point+32, &p.y);
-- 
2.43.0


From 8bbfee63be65300f72c92659a03e70721745908e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:42:26 +0000
Subject: [PATCH 23/76] fix: scalar negation of zero and arithmetic with large
 integers

---
 src/BitcoinCurve.cpp | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/src/BitcoinCurve.cpp b/src/BitcoinCurve.cpp
index 57afa87..294736b 100644
--- a/src/BitcoinCurve.cpp
+++ b/src/BitcoinCurve.cpp
@@ -211,30 +211,20 @@ ECScalar ECScalar::operator+(const ECScalar& other) const{
 	return sum;
 }
 ECScalar ECScalar::operator+(const uint32_t& i) const{
-	bignum256 a;
-	bn_read_be(this->num, &a);
-	bn_addi(&a, i);
-	bn_mod(&a, &secp256k1.order);
-	ECScalar sum;
-	bn_write_be(&a, sum.num);
-	return sum;
+	return *this + ECScalar(i);
 }
 ECScalar ECScalar::operator-() const{
     bignum256 a, b;
 	bn_read_be(this->num, &a);
+	bn_mod(&a, &secp256k1.order);
 	bn_subtract(&secp256k1.order, &a, &b);
+	bn_mod(&b, &secp256k1.order); // -0 is 0
 	ECScalar neg;
 	bn_write_be(&b, neg.num);
 	return neg;
 }
 ECScalar ECScalar::operator-(const uint32_t& i) const{
-    bignum256 a;
-	bn_read_be(this->num, &a);
-	bn_subi(&a, i, &secp256k1.order);
-    bn_mod(&a, &secp256k1.order);
-	ECScalar sum;
-	bn_write_be(&a, sum.num);
-	return sum;
+	return *this - ECScalar(i);
 }
 ECScalar ECScalar::operator-(const ECScalar& other) const{
 	return (*this+(-other));
-- 
2.43.0


From 9f0e877b7955b78eb99e36145913f05cf031504c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:43:08 +0000
Subject: [PATCH 24/76] fix: a scalar is valid only if it is below the group
 order

---
 src/BitcoinCurve.cpp | 5 +++++
 src/BitcoinCurve.h   | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/BitcoinCurve.cpp b/src/BitcoinCurve.cpp
index 294736b..2c9e1f8 100644
--- a/src/BitcoinCurve.cpp
+++ b/src/BitcoinCurve.cpp
@@ -250,6 +250,11 @@ ECScalar ECScalar::operator/(const ECScalar& other) const{
 	bn_write_be(&a, res.num);
 	return res;
 }
+bool ECScalar::isValid() const{
+	bignum256 a;
+	bn_read_be(num, &a);
+	return !bn_is_zero(&a) && bn_is_less(&a, &secp256k1.order);
+}
 bool ECScalar::operator<(const ECScalar& other) const{
 	bignum256 a,b;
 	bn_read_be(num, &a);
diff --git a/src/BitcoinCurve.h b/src/BitcoinCurve.h
index 1709010..2439d03 100644
--- a/src/BitcoinCurve.h
+++ b/src/BitcoinCurve.h
@@ -136,7 +136,7 @@ public:
     ECScalar operator*=(const ECScalar& other){ *this = *this*other; return *this; };
     ECScalar operator/=(const ECScalar& other){ *this = *this/other; return *this; };
     
-    virtual bool isValid() const{ uint8_t arr[32] = { 0 }; return (memcmp(num, arr, 32) != 0); };
+    virtual bool isValid() const;
     explicit operator bool() const { return isValid(); };
     bool operator==(const ECScalar& other) const{ return (memcmp(num, other.num, 32) == 0); };
     bool operator!=(const ECScalar& other) const{ return !operator==(other); };
-- 
2.43.0


From e1a73ff5e492b9be9e78f727d1f822e62dc40b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:43:10 +0000
Subject: [PATCH 25/76] fix: do not read out of bounds when dividing by a zero
 scalar

---
 src/BitcoinCurve.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/BitcoinCurve.cpp b/src/BitcoinCurve.cpp
index 2c9e1f8..0d5f63e 100644
--- a/src/BitcoinCurve.cpp
+++ b/src/BitcoinCurve.cpp
@@ -243,6 +243,10 @@ ECScalar ECScalar::operator/(const ECScalar& other) const{
     bignum256 a, b;
 	bn_read_be(this->num, &a);
 	bn_read_be(other.num, &b);
+	bn_mod(&b, &secp256k1.order);
+	if(bn_is_zero(&b)){
+		return ECScalar(); // zero has no inverse
+	}
 	bn_inverse(&b, &secp256k1.order);
 	bn_multiply(&b, &a, &secp256k1.order);
     bn_mod(&a, &secp256k1.order);
-- 
2.43.0


From a1166833c35fac361baecce0efc3344c90e32b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:43:11 +0000
Subject: [PATCH 26/76] fix: parse DER signatures in pieces and check the total
 length

---
 src/Bitcoin.cpp | 99 +++++++++++++++++++++----------------------------
 1 file changed, 43 insertions(+), 56 deletions(-)

diff --git a/src/Bitcoin.cpp b/src/Bitcoin.cpp
index 419a2fe..bfd01e8 100644
--- a/src/Bitcoin.cpp
+++ b/src/Bitcoin.cpp
@@ -140,66 +140,53 @@ size_t Signature::from_stream(ParseStream *stream){
     }
     status = PARSING_INCOMPLETE;
     size_t bytes_read = 0;
-    uint8_t c = 0;
-    if(stream->available() && bytes_parsed+bytes_read < 1){
-        c = stream->read();
+    while(status == PARSING_INCOMPLETE && stream->available()){
+        size_t pos = bytes_parsed+bytes_read;
+        uint8_t c = stream->read();
         bytes_read++;
-        if(c!=0x30){
+        bool ok = true;
+        size_t s_start = (size_t)4+tot[1];
+        size_t end = s_start+2+tot[2];
+        if(pos == 0){
+            ok = (c == 0x30);
+        }else if(pos == 1){
+            tot[0] = c;
+            ok = (c <= 70);
+        }else if(pos == 2){ // r
+            ok = (c == 0x02);
+        }else if(pos == 3){
+            tot[1] = c;
+            ok = (c > 0 && c <= 33);
+        }else if(pos < s_start){
+            if(tot[1] == 33 && pos == 4){
+                ok = (c == 0);
+            }else{
+                r[pos+32-s_start] = c;
+            }
+            if(pos+1 == s_start){
+                ok = ok && (rlen() == tot[1]);
+            }
+        }else if(pos == s_start){ // s
+            ok = (c == 0x02);
+        }else if(pos == s_start+1){
+            tot[2] = c;
+            ok = (c > 0 && c <= 33);
+        }else{
+            if(tot[2] == 33 && pos == s_start+2){
+                ok = (c == 0);
+            }else{
+                s[pos+32-end] = c;
+            }
+            if(pos+1 == end){
+                ok = ok && (slen() == tot[2]) && (tot[0] == end-2);
+                status = PARSING_DONE;
+            }
+        }
+        if(!ok){
             status = PARSING_FAILED;
-            return bytes_read;
         }
     }
-    if(stream->available() && bytes_parsed+bytes_read < 2){
-        tot[0] = stream->read();
-        bytes_read++;
-        if(tot[0] > 70){ status = PARSING_FAILED; return bytes_read; }
-    }
-    // r
-    if(stream->available() && bytes_parsed+bytes_read < 3){
-        c = stream->read();
-        bytes_read++;
-        if(c != 0x02){ status = PARSING_FAILED; return bytes_read; }
-    }
-    if(stream->available() && bytes_parsed+bytes_read < 4){
-        tot[1] = stream->read();
-        bytes_read++;
-        if(tot[1] > 33){ status = PARSING_FAILED; return bytes_read; }
-    }
-    if(stream->available() && tot[1]==33 && bytes_parsed+bytes_read < 5){
-        c = stream->read();
-        bytes_read++;
-        if(c != 0){ status = PARSING_FAILED; return bytes_read; }
-    }
-    while(stream->available() && bytes_parsed+bytes_read < (size_t)4+tot[1]){
-        r[bytes_parsed+bytes_read-4+32-tot[1]] = stream->read();
-        bytes_read++;
-    }
-    if(rlen() != tot[1]){ status = PARSING_FAILED; return bytes_read; }
-    // s
-    if(stream->available() && bytes_parsed+bytes_read < (size_t)4+tot[1]+1){
-        c = stream->read();
-        bytes_read++;
-        if(c != 0x02){ status = PARSING_FAILED; return bytes_read; }
-    }
-    if(stream->available() && bytes_parsed+bytes_read < (size_t)4+tot[1]+2){
-        tot[2] = stream->read();
-        bytes_read++;
-        if(tot[2] > 33){ status = PARSING_FAILED; return bytes_read; }
-    }
-    if(stream->available() && tot[2]==33 && bytes_parsed+bytes_read < (size_t)4+tot[1]+3){
-        c = stream->read();
-        bytes_read++;
-        if(c != 0){ status = PARSING_FAILED; return bytes_read; }
-    }
-    while(stream->available() && bytes_parsed+bytes_read < (size_t)4+tot[1]+2+tot[2]){
-        s[bytes_parsed+bytes_read-4-tot[1]-2-tot[2]+32] = stream->read();
-        bytes_read++;
-    }
-    if(slen() != tot[2]){ status = PARSING_FAILED; return bytes_read; }
-    if(bytes_parsed+bytes_read == (size_t)4+tot[1]+2+tot[2]){
-        status = PARSING_DONE;
-    }
-    bytes_parsed+=bytes_read;
+    bytes_parsed += bytes_read;
     return bytes_read;
 }
 
-- 
2.43.0


From 951108795316b4e918db9c470aa8c36f314d3c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:43:13 +0000
Subject: [PATCH 27/76] fix: verify signatures with HD public keys

---
 src/Bitcoin.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Bitcoin.cpp b/src/Bitcoin.cpp
index bfd01e8..3e26fdf 100644
--- a/src/Bitcoin.cpp
+++ b/src/Bitcoin.cpp
@@ -425,7 +425,7 @@ bool PublicKey::verify(const Signature sig, const uint8_t hash[32]) const{
     uint8_t signature[64] = {0};
     sig.bin(signature, 64);
     uint8_t pub[65];
-    serialize(pub, 65);
+    sec(pub, 65);
     return (ecdsa_verify_digest(&secp256k1, pub, signature, hash)==0);
 }
 bool PublicKey::schnorr_verify(const SchnorrSignature sig, const uint8_t hash[32]) const{
-- 
2.43.0


From 96a65790d6792e4134f74f52e1fdcdd6a2e0cd99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:43:45 +0000
Subject: [PATCH 28/76] fix: do not write DER signatures beyond the end of the
 buffer

---
 src/Bitcoin.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Bitcoin.cpp b/src/Bitcoin.cpp
index 3e26fdf..37e0af0 100644
--- a/src/Bitcoin.cpp
+++ b/src/Bitcoin.cpp
@@ -242,6 +242,9 @@ size_t Signature::der(uint8_t * bytes, size_t len) const{
     memzero(bytes, len);
     uint8_t _rlen = rlen();
     uint8_t _slen = slen();
+    if(len < (size_t)6+_rlen+_slen){
+        return 0;
+    }
     bytes[0] = 0x30;
     bytes[1] = 4+_rlen+2+_slen-2;
     bytes[2] = 0x02;
-- 
2.43.0


From ce87787218bfa3af27ed37aae5e9b839b9d0bc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:43:47 +0000
Subject: [PATCH 29/76] fix: verify Schnorr signatures according to BIP340

---
 src/Bitcoin.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/Bitcoin.cpp b/src/Bitcoin.cpp
index 37e0af0..7d82498 100644
--- a/src/Bitcoin.cpp
+++ b/src/Bitcoin.cpp
@@ -432,6 +432,9 @@ bool PublicKey::verify(const Signature sig, const uint8_t hash[32]) const{
     return (ecdsa_verify_digest(&secp256k1, pub, signature, hash)==0);
 }
 bool PublicKey::schnorr_verify(const SchnorrSignature sig, const uint8_t hash[32]) const{
+    if(!ECPoint::isValid()){
+        return false;
+    }
     PublicKey pub = *this;
     if(!pub.isEven()){
         pub = -pub;
@@ -440,6 +443,14 @@ bool PublicKey::schnorr_verify(const SchnorrSignature sig, const uint8_t hash[32
     sig.serialize(rs, sizeof(rs));
     PublicKey R;
     R.from_x(rs, 32);
+    if(!R.isValid()){
+        return false;
+    }
+    ECScalar s;
+    s.setSecret(rs+32);
+    if(!s.isValid() && s != ECScalar()){ // not below the group order
+        return false;
+    }
     // calculate hash using tagged hash with "BIP0340/challenge" prefix
     uint8_t e[32];
     uint8_t tmp[32];
@@ -453,11 +464,7 @@ bool PublicKey::schnorr_verify(const SchnorrSignature sig, const uint8_t hash[32
     tch.write(hash, 32);
     tch.end(e);
     PrivateKey challenge(e);
-    PublicKey S = challenge*pub + R;
-    S.x(tmp, sizeof(tmp));
-    PrivateKey s(rs+32);
-    s.publicKey().x(e, 32);
-    return memcmp(tmp, e, 32) == 0;
+    return s*GeneratorPoint == challenge*pub + R;
 };
 
 // ---------------------------------------------------------------- PrivateKey class
-- 
2.43.0


From b0c8ff251ff26e829f4b3ec70217b5db0533dd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:43:48 +0000
Subject: [PATCH 30/76] fix: reject malformed WIF keys and leave no usable key
 behind

---
 src/Bitcoin.cpp | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/Bitcoin.cpp b/src/Bitcoin.cpp
index 7d82498..0136a42 100644
--- a/src/Bitcoin.cpp
+++ b/src/Bitcoin.cpp
@@ -555,12 +555,14 @@ String PrivateKey::wif() const{
 #endif
 int PrivateKey::fromWIF(const char * wifArr, size_t wifSize){
     uint8_t arr[40] = { 0 };
+    // no usable key unless everything is correct
+    memzero(num, 32);
+    pubKey = PublicKey();
     size_t l = fromBase58Check(wifArr, wifSize, arr, sizeof(arr));
     if( (l < 33) || (l > 34) ){
-        memzero(num, 32);
+        memzero(arr, sizeof(arr));
         return 0;
     }
-    bool compressed;
     network = &DEFAULT_NETWORK;
     bool found = false;
     for(int i=0; i<networks_len; i++){
@@ -570,18 +572,17 @@ int PrivateKey::fromWIF(const char * wifArr, size_t wifSize){
             break;
         }
     }
-    if(!found){
+    bool compressed = (l == 34);
+    if(!found || (compressed && arr[33] != 0x01)){
+        memzero(arr, sizeof(arr));
         return 0;
     }
-
-    if(l == 34){
-        compressed = (arr[33] > 0);
-    }
-    if(l == 33){
-        compressed = false;
-    }
     memcpy(num, arr+1, 32);
     memzero(arr, 40); // clear memory
+    if(!ECScalar::isValid()){
+        memzero(num, 32);
+        return 0;
+    }
 
     pubKey = *this * GeneratorPoint;
     pubKey.compressed = compressed;
@@ -697,10 +698,14 @@ SchnorrSignature PrivateKey::schnorr_sign(const uint8_t hash[32]) const{
 }
 #if USE_ARDUINO_STRING || USE_STD_STRING
 PrivateKey::PrivateKey(const String wifString){
+    reset();
+    network = &DEFAULT_NETWORK;
     fromWIF(wifString.c_str());
 }
 #else
 PrivateKey::PrivateKey(const char * wifArr){
+    reset();
+    network = &DEFAULT_NETWORK;
     fromWIF(wifArr);
 }
 #endif
-- 
2.43.0


From 29095ede70b5c0d6dcc334ea42855d1bc4e75bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:06 +0000
Subject: [PATCH 31/76] fix: reject extended private keys of wrong length or
 with an invalid secret

---
 src/HDWallet.cpp | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/HDWallet.cpp b/src/HDWallet.cpp
index f822fc4..befd915 100644
--- a/src/HDWallet.cpp
+++ b/src/HDWallet.cpp
@@ -134,6 +134,9 @@ size_t HDPrivateKey::from_stream(ParseStream *s){
     }
     if(status == PARSING_DONE){
         bytes_parsed = 0;
+        // no usable key until the new one is complete
+        memzero(num, 32);
+        pubKey = PublicKey();
     }
     status = PARSING_INCOMPLETE;
     size_t bytes_read = 0;
@@ -213,31 +216,29 @@ size_t HDPrivateKey::from_stream(ParseStream *s){
         bytes_read++;
     }
     if(bytes_parsed+bytes_read == 78){
-        status = PARSING_DONE;
-        uint8_t zero[32] = { 0 };
-        if(memcmp(num, zero, 32)==0){ // should we add something else here?
+        if(ECScalar::isValid()){
+            status = PARSING_DONE;
+            pubKey = *this * GeneratorPoint;
+        }else{ // zero or not below the group order
             status = PARSING_FAILED;
+            memzero(num, 32);
         }
-        bignum256 n;
-        bn_read_be(num, &n);
-        bn_mod(&n, &secp256k1.order);
-        bn_write_be(&n, num);
-        pubKey = *this * GeneratorPoint;
-        pubKey.compressed = true;
     }
     bytes_parsed += bytes_read;
     return bytes_read;
 }
 size_t HDPrivateKey::from_str(const char * xprvArr, size_t xprvLen){
     init();
+    pubKey = PublicKey();
     uint8_t arr[85] = { 0 };
     size_t l = fromBase58Check(xprvArr, xprvLen, arr, sizeof(arr));
-    if(l == 0){
+    if(l != 78){
         return 0; // decoding error
     }
-    ParseByteStream s(arr, sizeof(arr));
+    ParseByteStream s(arr, l);
     HDPrivateKey::from_stream(&s);
-    return xprvLen;
+    memzero(arr, sizeof(arr));
+    return (status == PARSING_DONE) ? xprvLen : 0;
 }
 int HDPrivateKey::fromSeed(const uint8_t * seed, size_t seedSize, const Network * net){
     init();
-- 
2.43.0


From fd3723514199c4d45feb98ea82278f8b5ea6efe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:07 +0000
Subject: [PATCH 32/76] fix: reject extended public keys of wrong length or
 with an invalid point

---
 src/HDWallet.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/HDWallet.cpp b/src/HDWallet.cpp
index befd915..5d1da20 100644
--- a/src/HDWallet.cpp
+++ b/src/HDWallet.cpp
@@ -643,28 +643,31 @@ size_t HDPublicKey::from_stream(ParseStream *s){
     }
     // uncompressing the pubkey
     if(bytes_parsed+bytes_read == 78){
-        status = PARSING_DONE;
         uint8_t arr[33];
         memcpy(arr, point, 33);
-        uint8_t buf[65];
-        ecdsa_uncompress_pubkey(&secp256k1, arr, buf);
-        memcpy(point, buf+1, 64);
-        if(!isValid()){
+        uint8_t buf[65] = { 0 };
+        // only the compressed form fits here
+        if((arr[0] == 0x02 || arr[0] == 0x03) && ecdsa_uncompress_pubkey(&secp256k1, arr, buf)){
+            status = PARSING_DONE;
+        }else{
             status = PARSING_FAILED;
         }
+        memcpy(point, buf+1, 64);
+        compressed = true;
     }
     bytes_parsed += bytes_read;
     return bytes_read;
 }
 size_t HDPublicKey::from_str(const char * xpubArr, size_t xpubLen){
+    reset();
     uint8_t arr[85] = { 0 };
     size_t l = fromBase58Check(xpubArr, xpubLen, arr, sizeof(arr));
-    if(l == 0){
+    if(l != 78){
         return 0; // decoding error
     }
-    ParseByteStream s(arr, sizeof(arr));
+    ParseByteStream s(arr, l);
     HDPublicKey::from_stream(&s);
-    return xpubLen;
+    return (status == PARSING_DONE) ? xpubLen : 0;
 }
 
 HDPublicKey::HDPublicKey():PublicKey(){
-- 
2.43.0


From 78798487eb062609e719916075d28775a0f14185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:09 +0000
Subject: [PATCH 33/76] fix: initialise every field of an HD public key made
 from text

---
 src/HDWallet.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/HDWallet.cpp b/src/HDWallet.cpp
index 5d1da20..7b34041 100644
--- a/src/HDWallet.cpp
+++ b/src/HDWallet.cpp
@@ -717,8 +717,12 @@ HDPublicKey &HDPublicKey::operator=(const HDPublicKey &other){
 HDPublicKey::HDPublicKey(const char * xpubArr){
     reset();
     memzero(prefix, 4);
+    memzero(chainCode, 32);
+    depth = 0;
+    memzero(parentFingerprint, 4);
     childNumber = 0;
     network = &DEFAULT_NETWORK;
+    type = UNKNOWN_TYPE;
     from_str(xpubArr, strlen(xpubArr));
 }
 HDPublicKey::~HDPublicKey(void) {
-- 
2.43.0


From 3828476a3d0bd3ad4ba279feec1caf837d4a3130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:10 +0000
Subject: [PATCH 34/76] fix: hardened public derivation and children of invalid
 keys give an invalid key

---
 src/HDWallet.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/HDWallet.cpp b/src/HDWallet.cpp
index 7b34041..a7e8f3a 100644
--- a/src/HDWallet.cpp
+++ b/src/HDWallet.cpp
@@ -385,6 +385,9 @@ HDPrivateKey HDPrivateKey::child(uint32_t index, bool hardened) const{
         hardened = true;
     }
     HDPrivateKey child;
+    if(!isValid()){
+        return child; // an invalid key has no children
+    }
 
     uint8_t sec[65] = { 0 };
     PublicKey p = publicKey();
@@ -783,6 +786,9 @@ String HDPublicKey::fingerprint() const{
 
 HDPublicKey HDPublicKey::child(uint32_t index) const{
     HDPublicKey child;
+    if(index >= HARDENED_INDEX || !isValid()){
+        return child; // invalid key: only normal children of a valid key can be derived
+    }
 
     uint8_t secArr[65] = { 0 };
     int l = sec(secArr, sizeof(secArr));
-- 
2.43.0


From f689a9534709639ab818c218e99b72c24c7623c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:12 +0000
Subject: [PATCH 35/76] fix: malformed derivation paths give an invalid key and
 are read within bounds

---
 src/HDWallet.cpp | 126 ++++++++++++++++++-----------------------------
 1 file changed, 48 insertions(+), 78 deletions(-)

diff --git a/src/HDWallet.cpp b/src/HDWallet.cpp
index a7e8f3a..5433674 100644
--- a/src/HDWallet.cpp
+++ b/src/HDWallet.cpp
@@ -16,6 +16,48 @@ using std::string;
 #define String string
 #endif
 
+// ---------------------------------------------------------------- derivation paths
+
+// Parses a path like "m/84h/1'/0" to a list of indexes.
+// Leading "m/" and trailing "/" are optional. Returns NULL if the path is malformed.
+// Returned array should be freed afterwards.
+static uint32_t * parse_path(const char * path, size_t * derivationLen){
+    size_t len = strlen(path);
+    uint32_t * derivation = (uint32_t *)calloc(len+1, sizeof(uint32_t));
+    if(derivation == NULL){ return NULL; }
+    size_t i = 0;
+    *derivationLen = 0;
+    if(path[0] == 'm'){ // remove leading "m/"
+        if(len > 1 && path[1] != '/'){
+            free(derivation);
+            return NULL;
+        }
+        i = (len > 1) ? 2 : 1;
+    }
+    while(i < len){
+        uint32_t index = 0;
+        bool ok = (path[i] >= '0' && path[i] <= '9'); // at least one digit
+        while(ok && path[i] >= '0' && path[i] <= '9'){
+            uint32_t d = path[i]-'0';
+            ok = (index <= (HARDENED_INDEX-1-d)/10);
+            index = index*10 + d;
+            i++;
+        }
+        if(ok && (path[i] == 'h' || path[i] == '\'')){
+            index += HARDENED_INDEX;
+            i++;
+        }
+        if(!ok || (i < len && path[i] != '/')){
+            free(derivation);
+            return NULL;
+        }
+        i++; // skip "/"
+        derivation[*derivationLen] = index;
+        *derivationLen += 1;
+    }
+    return derivation;
+}
+
 // ---------------------------------------------------------------- HDPrivateKey class
 
 void HDPrivateKey::init(){
@@ -479,48 +521,10 @@ HDPrivateKey HDPrivateKey::derive(uint32_t * index, size_t len) const{
     return pk;
 }
 HDPrivateKey HDPrivateKey::derive(const char * path) const{
-    static const char VALID_CHARS[] = "0123456789/'h";
-    size_t len = strlen(path);
-    const char * cur = path;
-    if(path[0] == 'm'){ // remove leading "m/"
-        cur+=2;
-        len-=2;
-    }
-    if(cur[len-1] == '/'){ // remove trailing "/"
-        len--;
-    }
-    HDPrivateKey pk; // invalid private key to return if something failed
-    size_t derivationLen = 1;
-    // checking if all chars are valid and counting derivation length
-    for(size_t i=0; i<len; i++){
-        const char * pch = strchr(VALID_CHARS, cur[i]);
-        if(pch == NULL){ // wrong character
-            return pk;
-        }
-        if(cur[i] == '/'){
-            derivationLen++;
-        }
-    }
-    uint32_t * derivation = (uint32_t *)calloc(derivationLen, sizeof(uint32_t));
+    HDPrivateKey pk; // invalid key to return if something failed
+    size_t derivationLen = 0;
+    uint32_t * derivation = parse_path(path, &derivationLen);
     if(derivation == NULL){ return pk; }
-    size_t current = 0;
-    for(size_t i=0; i<len; i++){
-        if(cur[i] == '/'){ // next
-            current++;
-            continue;
-        }
-        const char * pch = strchr(VALID_CHARS, cur[i]);
-        uint32_t val = pch-VALID_CHARS;
-        if(derivation[current] >= HARDENED_INDEX){ // can't have anything after hardened
-            free(derivation);
-            return pk;
-        }
-        if(val < 10){
-            derivation[current] = derivation[current]*10 + val;
-        }else{ // h or ' -> hardened
-            derivation[current] += HARDENED_INDEX;
-        }
-    }
     pk = derive(derivation, derivationLen);
     free(derivation);
     return pk;
@@ -828,44 +832,10 @@ HDPublicKey HDPublicKey::derive(uint32_t * index, size_t len) const{
     return pk;
 }
 HDPublicKey HDPublicKey::derive(const char * path) const{
-    static const char VALID_CHARS[] = "0123456789/";
-    size_t len = strlen(path);
-    const char * cur = path;
-    if(path[0] == 'm'){ // remove leading "m/"
-        cur+=2;
-        len-=2;
-    }
-    if(cur[len-1] == '/'){ // remove trailing "/"
-        len--;
-    }
-    HDPublicKey pk; // dummy to return if something failed
-    size_t derivationLen = 1;
-    // checking if all chars are valid and counting derivation length
-    for(size_t i=0; i<len; i++){
-        const char * pch = strchr(VALID_CHARS, cur[i]);
-        if(pch == NULL){ // wrong character
-            return pk;
-        }
-        if(cur[i] == '/'){
-            derivationLen++;
-        }
-    }
-    uint32_t * derivation = (uint32_t *)calloc(derivationLen, sizeof(uint32_t));
+    HDPublicKey pk; // invalid key to return if something failed
+    size_t derivationLen = 0;
+    uint32_t * derivation = parse_path(path, &derivationLen);
     if(derivation == NULL){ return pk; }
-    size_t current = 0;
-    for(size_t i=0; i<len; i++){
-        if(cur[i] == '/'){ // next
-            if(derivation[current] >= HARDENED_INDEX){ // can't be hardened
-                free(derivation);
-                return pk;
-            }
-            current++;
-            continue;
-        }
-        const char * pch = strchr(VALID_CHARS, cur[i]);
-        uint32_t val = pch-VALID_CHARS;
-        derivation[current] = derivation[current]*10 + val;
-    }
     pk = derive(derivation, derivationLen);
     free(derivation);
     return pk;
-- 
2.43.0


From 0159d166c54b3733e5676c1028aa4b9558859111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:13 +0000
Subject: [PATCH 36/76] fix: accept mnemonics of 15 and 21 words

---
 src/utility/trezor/bip39.c | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/utility/trezor/bip39.c b/src/utility/trezor/bip39.c
index e02422f..aa340c5 100755
--- a/src/utility/trezor/bip39.c
+++ b/src/utility/trezor/bip39.c
@@ -116,7 +116,7 @@ int mnemonic_to_entropy(const char *mnemonic, uint8_t *entropy)
 	n++;
 
 	// check number of words
-	if (n != 12 && n != 18 && n != 24) {
+	if (n < 12 || n > 24 || n % 3 != 0) {
 		return 0;
 	}
 
@@ -167,21 +167,16 @@ int mnemonic_check(const char *mnemonic)
 {
 	uint8_t bits[32 + 1];
 	int seed_len = mnemonic_to_entropy(mnemonic, bits);
-	if (seed_len != (12 * 11) && seed_len != (18 * 11) && seed_len != (24 * 11)) {
+	if (seed_len == 0) {
 		return 0;
 	}
 	int words = seed_len / 11;
 
 	uint8_t checksum = bits[words * 4 / 3];
 	sha256_Raw(bits, words * 4 / 3, bits);
-	if (words == 12) {
-		return (bits[0] & 0xF0) == (checksum & 0xF0); // compare first 4 bits
-	} else if (words == 18) {
-		return (bits[0] & 0xFC) == (checksum & 0xFC); // compare first 6 bits
-	} else if (words == 24) {
-		return bits[0] == checksum; // compare 8 bits
-	}
-	return 0;
+	// compare first words/3 bits
+	uint8_t mask = 0xFF << (8 - words / 3);
+	return (bits[0] & mask) == (checksum & mask);
 }
 
 // passphrase must be at most 256 characters otherwise it would be truncated
-- 
2.43.0


From 04f60a9b33a1fe4ef14146f7328f704f36896479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:14 +0000
Subject: [PATCH 37/76] fix: do not convert mnemonics with a wrong checksum to
 entropy

---
 src/Bitcoin.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Bitcoin.cpp b/src/Bitcoin.cpp
index 0136a42..89ff891 100644
--- a/src/Bitcoin.cpp
+++ b/src/Bitcoin.cpp
@@ -48,7 +48,7 @@ size_t mnemonicToEntropy(const char * mnemonic, size_t mnemonicLen, uint8_t * ou
         }
     }
     size_t entropy_len = (num_words*4)/3;
-    if(outputLen < entropy_len){
+    if(outputLen < entropy_len || !mnemonic_check(mnemonic)){
         return 0;
     }
     uint8_t res[33] = {0};
-- 
2.43.0


From e36ba825a3b4f65fc23015ba3afd625bb3b0734a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:44 +0000
Subject: [PATCH 38/76] fix: a NUL character is not a Base58 or Base43 digit

---
 src/Conversion.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Conversion.cpp b/src/Conversion.cpp
index 7a37261..7854d74 100644
--- a/src/Conversion.cpp
+++ b/src/Conversion.cpp
@@ -373,7 +373,7 @@ size_t fromBase58(const char * encoded, size_t encodedSize, uint8_t * output, si
     // looking for the end of char array
     for(l=0; l<encodedSize; l++){
         const char * pch = strchr(BASE58_CHARS, encoded[l]);
-        if(pch==NULL){ // char not in the alphabet
+        if(pch==NULL || encoded[l]==0){ // char not in the alphabet
             break;
         }
     }
@@ -570,7 +570,7 @@ size_t fromBase43(const char * encoded, size_t encodedSize, uint8_t * output, si
     // looking for the end of char array
     for(l=0; l<encodedSize; l++){
         const char * pch = strchr(BASE43_CHARS, encoded[l]);
-        if(pch==NULL){ // char not in the alphabet
+        if(pch==NULL || encoded[l]==0){ // char not in the alphabet
             break;
         }
     }
-- 
2.43.0


From f611a6f287f948dabcd83b3892236d28f74c6df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:46 +0000
Subject: [PATCH 39/76] fix: keep leading zeroes and long data when decoding
 Base58 and Base43

---
 src/Conversion.cpp | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/Conversion.cpp b/src/Conversion.cpp
index 7854d74..99b41d9 100644
--- a/src/Conversion.cpp
+++ b/src/Conversion.cpp
@@ -378,11 +378,8 @@ size_t fromBase58(const char * encoded, size_t encodedSize, uint8_t * output, si
         }
     }
     encodedSize = l;
-    size_t size = fromBase58Length(encoded, encodedSize);
-    uint8_t * tmp = (uint8_t *) calloc(size, sizeof(uint8_t));
-    if(tmp == NULL){ return 0; }
-
-    uint8_t zeroCount = 0;
+    // leading zeroes
+    size_t zeroCount = 0;
     for(size_t i = 0; i<encodedSize; i++){
         if(encoded[i] == BASE58_CHARS[0]){
             zeroCount++;
@@ -390,6 +387,10 @@ size_t fromBase58(const char * encoded, size_t encodedSize, uint8_t * output, si
             break;
         }
     }
+    size_t size = zeroCount + fromBase58Length(encoded+zeroCount, encodedSize-zeroCount);
+    uint8_t * tmp = (uint8_t *) calloc(size, sizeof(uint8_t));
+    if(tmp == NULL){ return 0; }
+
 
     uint16_t val = 0;
     for(size_t i = 0; i < encodedSize; i++){
@@ -408,7 +409,7 @@ size_t fromBase58(const char * encoded, size_t encodedSize, uint8_t * output, si
         }
     }
     // shifting array
-    uint8_t shift = 0;
+    size_t shift = 0;
     for(size_t i = zeroCount; i < size; i++){
         if(tmp[i] == 0){
             shift++;
@@ -575,11 +576,8 @@ size_t fromBase43(const char * encoded, size_t encodedSize, uint8_t * output, si
         }
     }
     encodedSize = l;
-    size_t size = fromBase43Length(encoded, encodedSize);
-    uint8_t * tmp = (uint8_t *) calloc(size, sizeof(uint8_t));
-    if(tmp == NULL){ return 0; }
-
-    uint8_t zeroCount = 0;
+    // leading zeroes
+    size_t zeroCount = 0;
     for(size_t i = 0; i<encodedSize; i++){
         if(encoded[i] == BASE43_CHARS[0]){
             zeroCount++;
@@ -587,6 +585,10 @@ size_t fromBase43(const char * encoded, size_t encodedSize, uint8_t * output, si
             break;
         }
     }
+    size_t size = zeroCount + fromBase43Length(encoded+zeroCount, encodedSize-zeroCount);
+    uint8_t * tmp = (uint8_t *) calloc(size, sizeof(uint8_t));
+    if(tmp == NULL){ return 0; }
+
 
     uint16_t val = 0;
     for(size_t i = 0; i < encodedSize; i++){
@@ -605,7 +607,7 @@ size_t fromBase43(const char * encoded, size_t encodedSize, uint8_t * output, si
         }
     }
     // shifting array
-    uint8_t shift = 0;
+    size_t shift = 0;
     for(size_t i = zeroCount; i < size; i++){
         if(tmp[i] == 0){
             shift++;
-- 
2.43.0


From 926ab81cdd23b1b62be0ba7c14beb3a5bcbb7553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:47 +0000
Subject: [PATCH 40/76] fix: do not write hex data beyond the end of the output

---
 src/Conversion.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Conversion.cpp b/src/Conversion.cpp
index 99b41d9..24ec951 100644
--- a/src/Conversion.cpp
+++ b/src/Conversion.cpp
@@ -111,6 +111,10 @@ size_t fromHex(const char * hex, size_t hexLen, uint8_t * array, size_t arraySiz
         if((v1 > 0x0F) || (v2 > 0x0F)){ // if invalid char stop parsing
             return i;
         }
+        if(i >= arraySize){ // doesn't fit
+            memzero(array, arraySize);
+            return 0;
+        }
         array[i] = (v1<<4) | v2;
     }
     return hexLen/2;
-- 
2.43.0


From 1e71a4490e2133ed530014addba1d0678ebb4cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:48 +0000
Subject: [PATCH 41/76] fix: decode binary text longer than 256 bytes

---
 src/Conversion.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Conversion.cpp b/src/Conversion.cpp
index 24ec951..df675ee 100644
--- a/src/Conversion.cpp
+++ b/src/Conversion.cpp
@@ -149,7 +149,7 @@ size_t fromBin(const char * bin, size_t binLen, uint8_t * array, size_t arraySiz
     for(size_t i = 0; i < binLen; i++){
         // we go in reverse order (from the end of the string)
         uint8_t exp = (i%8); // shift
-        uint8_t n = (i/8); // current byte from the end
+        size_t n = (i/8); // current byte from the end
         char c = bin[binLen-i-1];
         if(c == '1'){
             // set bit
-- 
2.43.0


From 782bc028aeb6f0fd0666f70e5f3af64bacdd217d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:50 +0000
Subject: [PATCH 42/76] fix: Base64 of empty data reads and writes nothing

---
 src/Conversion.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Conversion.cpp b/src/Conversion.cpp
index df675ee..68b9459 100644
--- a/src/Conversion.cpp
+++ b/src/Conversion.cpp
@@ -655,6 +655,7 @@ size_t toBase64Length(const uint8_t * array, size_t arraySize, uint8_t flags){
 size_t toBase64(const uint8_t * array, size_t arraySize, char * output, size_t outputSize, uint8_t flags){
     if(array == NULL || output == NULL){ return 0; }
     memzero(output, outputSize);
+    if(arraySize == 0){ return 0; }
     size_t cur = 0;
     if(outputSize < toBase64Length(array, arraySize, flags)){
         return 0;
@@ -713,7 +714,7 @@ String toBase64(const uint8_t * array, size_t arraySize, uint8_t flags){
 }
 #endif
 size_t fromBase64Length(const char * array, size_t arraySize, uint8_t flags){
-    if(array == NULL){ return 0; }
+    if(array == NULL || arraySize == 0){ return 0; }
     if(arraySize % 4 != 0 && (flags & BASE64_NOPADDING) == 0){ return 0; }
     size_t v = (arraySize / 4) * 3;
     if(flags & BASE64_NOPADDING){
-- 
2.43.0


From 37af34247b82558a5e6db3d0118bc2581a47c422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:51 +0000
Subject: [PATCH 43/76] fix: reject malformed Base64 text and decode it within
 bounds

---
 src/Conversion.cpp | 78 ++++++++++++++++++----------------------------
 1 file changed, 31 insertions(+), 47 deletions(-)

diff --git a/src/Conversion.cpp b/src/Conversion.cpp
index 68b9459..fbdd494 100644
--- a/src/Conversion.cpp
+++ b/src/Conversion.cpp
@@ -733,62 +733,46 @@ size_t fromBase64Length(const char * array, size_t arraySize, uint8_t flags){
 }
 size_t fromBase64(const char * encoded, size_t encodedSize, uint8_t * output, size_t outputSize, uint8_t flags){
     if(encoded == NULL || output == NULL){ return 0; }
-    size_t cur = 0;
     memzero(output, outputSize);
-    if(outputSize < fromBase64Length(encoded, encodedSize, flags)){
+    size_t len = encodedSize;
+    if(len % 4 == 0){ // removing padding
+        for(int i=0; i<2 && len > 0 && encoded[len-1] == '='; i++){
+            len--;
+        }
+    }else if((flags & BASE64_NOPADDING) == 0){
         return 0;
     }
-    while(cur*4 < encodedSize){
-        if(cur*4+3 >= encodedSize && (flags & BASE64_NOPADDING) == 0){
-            memzero(output, outputSize);
-            return 0;
+    if(len % 4 == 1){
+        return 0;
+    }
+    size_t outputLen = (len / 4) * 3 + ((len % 4 != 0) ? (len % 4) - 1 : 0);
+    if(outputSize < outputLen){
+        return 0;
+    }
+    uint32_t val = 0;
+    size_t cur = 0;
+    for(size_t i=0; i<len; i++){
+        char c = encoded[i];
+        // replace characters for urlsafe version
+        if(c=='-' && (flags & BASE64_URLSAFE)){
+            c = '+';
         }
-        uint32_t val = 0;
-        for(size_t i=0; i<4; i++){
-            char c = encoded[cur*4+i];
-            // replace characters for urlsafe version
-            if(c=='-' && (flags & BASE64_URLSAFE)){
-                c = '+';
-            }
-            if(c=='_' && (flags & BASE64_URLSAFE)){
-                c = '/';
-            }
-            const char * pch = strchr(BASE64_CHARS, c);
-            if(pch==NULL || ((flags & BASE64_NOPADDING) && (c == 0))){
-                if((encoded[cur*4+i] == '=') || (c == 0 && (flags & BASE64_NOPADDING))){
-                    if(i==3){
-                        val = (val >> 2);
-                        if(outputSize < 3*cur+2){
-                            memzero(output, outputSize);
-                            return 0;
-                        }
-                        intToBigEndian(val, output+3*cur, 2);
-                        return 3*cur + 2;
-                    }
-                    if(i==2){
-                        val = (val >> 4);
-                        if(outputSize < 3*cur+1){
-                            memzero(output, outputSize);
-                            return 0;
-                        }
-                        output[3*cur] = (val & 0xFF);
-                        return 3*cur + 1;
-                    }
-                }
-                memzero(output, outputSize);
-                return 0;
-            }else{
-                val = (val << 6) + ((pch - BASE64_CHARS) & 0x3F);
-            }
+        if(c=='_' && (flags & BASE64_URLSAFE)){
+            c = '/';
         }
-        if(outputSize < 3*(cur+1)){
+        const char * pch = strchr(BASE64_CHARS, c);
+        if(pch==NULL || c==0){ // char not in the alphabet
             memzero(output, outputSize);
             return 0;
         }
-        intToBigEndian(val, output+3*cur, 3);
-        cur++;
+        val = (val << 6) + (pch - BASE64_CHARS);
+        // every char except the first one in the group completes a byte
+        if(i % 4 != 0){
+            output[cur] = ((val >> (2*(3-(i % 4)))) & 0xFF);
+            cur++;
+        }
     }
-    return 3 * cur;
+    return outputLen;
 }
 #if USE_STD_STRING || USE_ARDUINO_STRING
 size_t fromBase64(String encoded, uint8_t * output, size_t outputSize, uint8_t flags){
-- 
2.43.0


From 37f8235dde6757dbd5d497b49829d9f10285197f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:53 +0000
Subject: [PATCH 44/76] fix: fill integers wider than eight bytes with zeroes

---
 src/Conversion.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Conversion.cpp b/src/Conversion.cpp
index fbdd494..23dc65d 100644
--- a/src/Conversion.cpp
+++ b/src/Conversion.cpp
@@ -817,7 +817,7 @@ uint64_t littleEndianToInt(const uint8_t * array, size_t arraySize){
 
 void intToLittleEndian(uint64_t num, uint8_t * array, size_t arraySize){
     for(size_t i = 0; i < arraySize; i++){
-        array[i] = ((num >> (8*i)) & 0xFF);
+        array[i] = (i < 8) ? ((num >> (8*i)) & 0xFF) : 0;
     }
 }
 
@@ -832,7 +832,7 @@ uint64_t bigEndianToInt(const uint8_t * array, size_t arraySize){
 
 void intToBigEndian(uint64_t num, uint8_t * array, size_t arraySize){
     for(size_t i = 0; i < arraySize; i++){
-        array[arraySize-i-1] = ((num >> (8*i)) & 0xFF);
+        array[arraySize-i-1] = (i < 8) ? ((num >> (8*i)) & 0xFF) : 0;
     }
 }
 
-- 
2.43.0


From 7949f000f565abd2eb116ecef45552721b66b78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:54 +0000
Subject: [PATCH 45/76] fix: do not read a varint from an empty buffer

---
 src/Conversion.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Conversion.cpp b/src/Conversion.cpp
index 23dc65d..5e3e421 100644
--- a/src/Conversion.cpp
+++ b/src/Conversion.cpp
@@ -851,6 +851,9 @@ uint8_t lenVarInt(uint64_t num){
     return 9;
 }
 uint64_t readVarInt(const uint8_t * array, size_t arraySize){
+    if(arraySize == 0){
+        return 0;
+    }
     if(array[0] < 0xfd){
         return array[0];
     }else{
-- 
2.43.0


From a0f8f146e7e267ebcff23a446acd1a213abde121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:47:06 +0000
Subject: [PATCH 46/76] fix: a NUL character is not a descriptor character

---
 src/PSBT.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PSBT.cpp b/src/PSBT.cpp
index a262a08..1b71327 100644
--- a/src/PSBT.cpp
+++ b/src/PSBT.cpp
@@ -55,7 +55,7 @@ size_t descriptorChecksum(const char * span, size_t spanLen, char * output, size
     for(size_t i=0; i<spanLen; i++){
         char ch = span[i];
         const char * pch = strchr(INPUT_CHARSET, ch);
-        if(pch==NULL){ // char not in the alphabet
+        if(pch==NULL || ch==0){ // char not in the alphabet
             return 0;
         }
         size_t pos = pch - INPUT_CHARSET;
@@ -80,7 +80,7 @@ size_t descriptorChecksum(const char * span, size_t spanLen, char * output, size
 #if (USE_ARDUINO_STRING || USE_STD_STRING)
 String descriptorChecksum(String descriptor){
     char checksum[10] = { 0 };
-    descriptorChecksum(descriptor.c_str(), strlen(descriptor.c_str()), checksum, sizeof(checksum));
+    descriptorChecksum(descriptor.c_str(), descriptor.length(), checksum, sizeof(checksum));
     return String(checksum);
 }
 #endif
-- 
2.43.0


From 55c04e23087245bc5e7fb7065c9baa7b2eddb79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:05 +0000
Subject: [PATCH 47/76] fix: a point off the curve is not valid even if its x
 is fine

---
 src/BitcoinCurve.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/BitcoinCurve.cpp b/src/BitcoinCurve.cpp
index 0d5f63e..3f24cdb 100644
--- a/src/BitcoinCurve.cpp
+++ b/src/BitcoinCurve.cpp
@@ -116,7 +116,8 @@ bool ECPoint::isValid() const{
 	}
     curve_point pub;
 	uint8_t buf[65];
-	sec(buf, 65);
+	buf[0] = 0x04; // both coordinates, not only the parity of y
+	memcpy(buf+1, point, 64);
 	return ecdsa_read_pubkey(&secp256k1, buf, &pub);
 };
 bool ECPoint::isEven() const{
-- 
2.43.0


From 0b1dcf3a73f659f65b554e1f48450243cad35548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:06 +0000
Subject: [PATCH 48/76] fix: do not compare uninitialized bytes of compressed
 points

---
 src/BitcoinCurve.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/BitcoinCurve.cpp b/src/BitcoinCurve.cpp
index 3f24cdb..236bd58 100644
--- a/src/BitcoinCurve.cpp
+++ b/src/BitcoinCurve.cpp
@@ -267,8 +267,8 @@ bool ECScalar::operator<(const ECScalar& other) const{
 	return bn_is_less(&a, &b);
 }
 bool ECPoint::operator<(const ECPoint& other) const{
-	uint8_t sec1[65];
-	uint8_t sec2[65];
+	uint8_t sec1[65] = { 0 };
+	uint8_t sec2[65] = { 0 };
 	sec(sec1, sizeof(sec1));
 	other.sec(sec2, sizeof(sec2));
 	return memcmp(sec1, sec2, sizeof(sec1)) < 0;
-- 
2.43.0


From 429fb81f6c6797acd23f7f454684fc49d0bee969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:08 +0000
Subject: [PATCH 49/76] fix: do not read past the payload in toBase58Check

---
 src/Conversion.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Conversion.cpp b/src/Conversion.cpp
index 5e3e421..c988069 100644
--- a/src/Conversion.cpp
+++ b/src/Conversion.cpp
@@ -351,7 +351,7 @@ size_t toBase58Check(const uint8_t * array, size_t arraySize, char * output, siz
 #if USE_ARDUINO_STRING || USE_STD_STRING
 String toBase58Check(const uint8_t * array, size_t arraySize){
     if(array == NULL){ return String(); }
-    size_t len = toBase58Length(array, arraySize + 4) + 1; // +4 checksum +1 for null terminator
+    size_t len = toBase58Length(array, arraySize) + 6 + 1; // +6 for the checksum, +1 for null terminator
     char * buf = (char *)malloc(len);
     if(buf == NULL){ return String(); }
     toBase58Check(array, arraySize, buf, len);
-- 
2.43.0


From aa0ef31a19a725ce89c26f6975383b9bb3b2935f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:30 +0000
Subject: [PATCH 50/76] fix: destroying a PSBT whose transaction could not be
 parsed

---
 src/PSBT.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/PSBT.cpp b/src/PSBT.cpp
index 1b71327..f07191b 100644
--- a/src/PSBT.cpp
+++ b/src/PSBT.cpp
@@ -181,6 +181,7 @@ size_t PSBT::from_stream(ParseStream *s){
         tx.parse(arr+l, value.length()-l);
         if(tx.getStatus() != PARSING_DONE){
             status = PARSING_FAILED;
+            tx = Tx(); // there is no metadata for its inputs and outputs
         }
         free(arr);
         if(status == PARSING_FAILED){
-- 
2.43.0


From 0dca3bb66c3b9cc7e040a72d1528693cf3d697cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:32 +0000
Subject: [PATCH 51/76] fix: start parsing a PSBT from a clean state

---
 src/PSBT.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/PSBT.cpp b/src/PSBT.cpp
index f07191b..5c63980 100644
--- a/src/PSBT.cpp
+++ b/src/PSBT.cpp
@@ -120,7 +120,11 @@ size_t PSBT::from_stream(ParseStream *s){
             }
             delete [] txOutsMeta;
         }
-        tx.reset();
+        tx = Tx();
+        txInsMeta = NULL;
+        txOutsMeta = NULL;
+        key = Script();
+        value = Script();
         bytes_parsed = 0;
         current_section = 0;
         last_key_pos = 5;
-- 
2.43.0


From bdd7fc6c771a72dd9beb102953c78847bf5d376f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:34 +0000
Subject: [PATCH 52/76] fix: parse a PSBT that comes in pieces

---
 src/PSBT.cpp | 38 ++++++++++++++++----------------------
 1 file changed, 16 insertions(+), 22 deletions(-)

diff --git a/src/PSBT.cpp b/src/PSBT.cpp
index 5c63980..45a62b9 100644
--- a/src/PSBT.cpp
+++ b/src/PSBT.cpp
@@ -142,13 +142,12 @@ size_t PSBT::from_stream(ParseStream *s){
             return bytes_read;
         }
     }
-    // global scope
-    if(bytes_read+bytes_parsed == last_key_pos){
-        bytes_read += s->parse(&key);
-        bytes_read += s->parse(&value);
-    }
-    while(s->available() && key.getStatus() == PARSING_INCOMPLETE){
+    // global scope, transaction comes first
+    if(s->available() && last_key_pos == 5 && value.getStatus() == PARSING_DONE){
         bytes_read += s->parse(&key);
+        if(key.getStatus() == PARSING_DONE){
+            bytes_read += s->parse(&value);
+        }
     }
     if(key.getStatus() == PARSING_FAILED){
         status = PARSING_FAILED;
@@ -156,7 +155,7 @@ size_t PSBT::from_stream(ParseStream *s){
         bytes_parsed += bytes_read;
         return bytes_read;
     }
-    while(s->available() && value.getStatus() == PARSING_INCOMPLETE){
+    if(s->available() && last_key_pos == 5 && value.getStatus() == PARSING_INCOMPLETE){
         bytes_read += s->parse(&value);
     }
     if(value.getStatus() == PARSING_FAILED){
@@ -165,7 +164,7 @@ size_t PSBT::from_stream(ParseStream *s){
         bytes_parsed += bytes_read;
         return bytes_read;
     }
-    if(last_key_pos == 5 && value.getStatus() == PARSING_DONE && key.getStatus() == PARSING_DONE){
+    if(last_key_pos == 5 && bytes_read+bytes_parsed > 5 && value.getStatus() == PARSING_DONE && key.getStatus() == PARSING_DONE){
         uint8_t * arr = (uint8_t *)calloc(key.length(), sizeof(uint8_t));
         if(arr == NULL){ status = PARSING_FAILED; return 0; }
         key.serialize(arr, key.length());
@@ -209,17 +208,18 @@ size_t PSBT::from_stream(ParseStream *s){
     }
     // parsing keys and values
     while(s->available() && current_section < sections_number){
-        if(key.getStatus() == PARSING_DONE && value.getStatus() == PARSING_DONE){
+        if(value.getStatus() == PARSING_DONE){ // not in the middle of the value
             bytes_read += s->parse(&key);
-        }
-        if(key.getStatus() == PARSING_DONE){
-            if(key.length() == 1){ // delimiter
-                current_section ++;
-                last_key_pos += key.length();
-                continue;
-            }else{
+            if(key.getStatus() == PARSING_DONE){
+                if(key.length() == 1){ // delimiter
+                    current_section ++;
+                    last_key_pos += key.length();
+                    continue;
+                }
                 bytes_read += s->parse(&value);
             }
+        }else{
+            bytes_read += s->parse(&value);
         }
         if(key.getStatus() == PARSING_FAILED || value.getStatus() == PARSING_FAILED){
             status = PARSING_FAILED;
@@ -227,12 +227,6 @@ size_t PSBT::from_stream(ParseStream *s){
             bytes_parsed += bytes_read;
             return bytes_read;
         }
-        if(key.getStatus() == PARSING_INCOMPLETE){
-            bytes_read += s->parse(&key);
-        }
-        if(value.getStatus() == PARSING_INCOMPLETE){
-            bytes_read += s->parse(&value);
-        }
         if(key.getStatus() == PARSING_DONE && value.getStatus() == PARSING_DONE){
             int res = add(current_section, &key, &value);
             if(res < 0){
-- 
2.43.0


From 2a0f79fdf322982b6435e7b880c29867751e8204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:35 +0000
Subject: [PATCH 53/76] fix: length of the length prefix of PSBT keys and
 values

---
 src/PSBT.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/PSBT.cpp b/src/PSBT.cpp
index 45a62b9..1515004 100644
--- a/src/PSBT.cpp
+++ b/src/PSBT.cpp
@@ -180,9 +180,9 @@ size_t PSBT::from_stream(ParseStream *s){
         arr = (uint8_t *)calloc(value.length(), sizeof(uint8_t));
         if(arr == NULL){ status = PARSING_FAILED; return 0; }
         value.serialize(arr, value.length());
-        size_t l = lenVarInt(value.length());
-        tx.parse(arr+l, value.length()-l);
-        if(tx.getStatus() != PARSING_DONE){
+        size_t l = lenVarInt(value.scriptLen);
+        size_t tx_len = tx.parse(arr+l, value.length()-l);
+        if(tx.getStatus() != PARSING_DONE || tx_len != value.scriptLen){
             status = PARSING_FAILED;
             tx = Tx(); // there is no metadata for its inputs and outputs
         }
@@ -257,7 +257,7 @@ int PSBT::add(uint8_t section, const Script * k, const Script * v){
     uint8_t * val_arr = (uint8_t *)calloc(v->length(), sizeof(uint8_t));
     if(val_arr == NULL){ free(key_arr); return 0; }
     v->serialize(val_arr, v->length());
-    uint8_t key_code = key_arr[lenVarInt(k->length())];
+    uint8_t key_code = key_arr[lenVarInt(k->scriptLen)];
     int res = 0;
 
     if(section < 1+tx.inputsNumber){ // input section
@@ -271,7 +271,7 @@ int PSBT::add(uint8_t section, const Script * k, const Script * v){
                     break;
                 }
                 Tx tempTx;
-                tempTx.parse(val_arr+lenVarInt(v->length()), v->length()-lenVarInt(v->length()));
+                tempTx.parse(val_arr+lenVarInt(v->scriptLen), v->length()-lenVarInt(v->scriptLen));
                 if(tempTx.getStatus() != PARSING_DONE){
                     res = -2;
                     break;
@@ -295,7 +295,7 @@ int PSBT::add(uint8_t section, const Script * k, const Script * v){
                     res = -1;
                     break;
                 }
-                txInsMeta[input].txOut.parse(val_arr+lenVarInt(v->length()), v->length()-lenVarInt(v->length()));
+                txInsMeta[input].txOut.parse(val_arr+lenVarInt(v->scriptLen), v->length()-lenVarInt(v->scriptLen));
                 if(txInsMeta[input].txOut.getStatus() != PARSING_DONE){
                     res = -2;
                     break;
@@ -381,12 +381,12 @@ int PSBT::add(uint8_t section, const Script * k, const Script * v){
                     res = -1;
                     break;
                 }
-                memcpy(der->fingerprint, val_arr+lenVarInt(v->length()), 4);
-                der->derivationLen = (v->length()-lenVarInt(v->length())-4)/sizeof(uint32_t);
+                memcpy(der->fingerprint, val_arr+lenVarInt(v->scriptLen), 4);
+                der->derivationLen = (v->length()-lenVarInt(v->scriptLen)-4)/sizeof(uint32_t);
                 der->derivation = (uint32_t *)calloc(der->derivationLen, sizeof(uint32_t));
                 if(der->derivation == NULL){ der->derivationLen = 0; res = -1; break; }
                 for(size_t i=0; i<der->derivationLen; i++){
-                    der->derivation[i] = littleEndianToInt(val_arr+lenVarInt(v->length())+4*(i+1),4);
+                    der->derivation[i] = littleEndianToInt(val_arr+lenVarInt(v->scriptLen)+4*(i+1),4);
                 }
                 res = 1;
                 break;
@@ -443,12 +443,12 @@ int PSBT::add(uint8_t section, const Script * k, const Script * v){
                     res = -1;
                     break;
                 }
-                memcpy(der->fingerprint, val_arr+lenVarInt(v->length()), 4);
-                der->derivationLen = (v->length()-lenVarInt(v->length())-4)/sizeof(uint32_t);
+                memcpy(der->fingerprint, val_arr+lenVarInt(v->scriptLen), 4);
+                der->derivationLen = (v->length()-lenVarInt(v->scriptLen)-4)/sizeof(uint32_t);
                 der->derivation = (uint32_t *)calloc(der->derivationLen, sizeof(uint32_t));
                 if(der->derivation == NULL){ der->derivationLen = 0; res = -1; break; }
                 for(size_t i=0; i<der->derivationLen; i++){
-                    der->derivation[i] = littleEndianToInt(val_arr+lenVarInt(v->length())+4*(i+1),4);
+                    der->derivation[i] = littleEndianToInt(val_arr+lenVarInt(v->scriptLen)+4*(i+1),4);
                 }
                 res = 1;
                 break;
-- 
2.43.0


From 8881a3d4ae2e7dd5ebfca45728c3964434b96c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:37 +0000
Subject: [PATCH 54/76] fix: reject a PSBT with more sections than the parser
 can count

---
 src/PSBT.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/PSBT.cpp b/src/PSBT.cpp
index 1515004..22d5e30 100644
--- a/src/PSBT.cpp
+++ b/src/PSBT.cpp
@@ -191,6 +191,12 @@ size_t PSBT::from_stream(ParseStream *s){
             bytes_parsed += bytes_read;
             return bytes_read;
         }
+        if(tx.inputsNumber + tx.outputsNumber > 254){ // number of sections should fit in one byte
+            tx = Tx();
+            status = PARSING_FAILED;
+            bytes_parsed += bytes_read;
+            return bytes_read;
+        }
         txInsMeta = new PSBTInputMetadata[tx.inputsNumber];
         for(size_t i=0; i<tx.inputsNumber; i++){
             txInsMeta[i].derivationsLen = 0;
-- 
2.43.0


From 4f8d538d6d8aaf9121d151418c8357590886b02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:39 +0000
Subject: [PATCH 55/76] fix: section number after the last PSBT output is out
 of range

---
 src/PSBT.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PSBT.cpp b/src/PSBT.cpp
index 22d5e30..67144f9 100644
--- a/src/PSBT.cpp
+++ b/src/PSBT.cpp
@@ -254,7 +254,7 @@ size_t PSBT::from_stream(ParseStream *s){
 }
 
 int PSBT::add(uint8_t section, const Script * k, const Script * v){
-    if(section == 0 || section > 1+tx.inputsNumber+tx.outputsNumber){
+    if(section == 0 || section >= 1+tx.inputsNumber+tx.outputsNumber){
         return 0;
     }
     uint8_t * key_arr = (uint8_t *)calloc(k->length(), sizeof(uint8_t));
-- 
2.43.0


From 15940e6841e89e0be510a1fe451c4653f4e30151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:41 +0000
Subject: [PATCH 56/76] fix: check derivation records of a PSBT before storing
 them

---
 src/PSBT.cpp | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/PSBT.cpp b/src/PSBT.cpp
index 67144f9..1eb5620 100644
--- a/src/PSBT.cpp
+++ b/src/PSBT.cpp
@@ -369,6 +369,11 @@ int PSBT::add(uint8_t section, const Script * k, const Script * v){
                     res = -1;
                     break;
                 }
+                // fingerprint and up to 255 indexes
+                if(v->scriptLen < 4 || v->scriptLen % 4 != 0 || v->scriptLen > 4+255*4 || txInsMeta[input].derivationsLen == 255){
+                    res = -2;
+                    break;
+                }
                 if(txInsMeta[input].derivationsLen == 0){
                     txInsMeta[input].derivationsLen = 1;
                     txInsMeta[input].derivations = new PSBTDerivation[txInsMeta[input].derivationsLen];
@@ -382,6 +387,8 @@ int PSBT::add(uint8_t section, const Script * k, const Script * v){
                     delete [] p;
                 }
                 PSBTDerivation * der = &txInsMeta[input].derivations[txInsMeta[input].derivationsLen-1];
+                der->derivation = NULL;
+                der->derivationLen = 0;
                 der->pubkey.parse(key_arr+2, k->length()-2);
                 if(der->pubkey.getStatus() != PARSING_DONE){
                     res = -1;
@@ -389,8 +396,10 @@ int PSBT::add(uint8_t section, const Script * k, const Script * v){
                 }
                 memcpy(der->fingerprint, val_arr+lenVarInt(v->scriptLen), 4);
                 der->derivationLen = (v->length()-lenVarInt(v->scriptLen)-4)/sizeof(uint32_t);
-                der->derivation = (uint32_t *)calloc(der->derivationLen, sizeof(uint32_t));
-                if(der->derivation == NULL){ der->derivationLen = 0; res = -1; break; }
+                if(der->derivationLen > 0){
+                    der->derivation = (uint32_t *)calloc(der->derivationLen, sizeof(uint32_t));
+                    if(der->derivation == NULL){ der->derivationLen = 0; res = -1; break; }
+                }
                 for(size_t i=0; i<der->derivationLen; i++){
                     der->derivation[i] = littleEndianToInt(val_arr+lenVarInt(v->scriptLen)+4*(i+1),4);
                 }
@@ -431,6 +440,11 @@ int PSBT::add(uint8_t section, const Script * k, const Script * v){
                     res = -1;
                     break;
                 }
+                // fingerprint and up to 255 indexes
+                if(v->scriptLen < 4 || v->scriptLen % 4 != 0 || v->scriptLen > 4+255*4 || txOutsMeta[output].derivationsLen == 255){
+                    res = -2;
+                    break;
+                }
                 if(txOutsMeta[output].derivationsLen == 0){
                     txOutsMeta[output].derivationsLen = 1;
                     txOutsMeta[output].derivations = new PSBTDerivation[txOutsMeta[output].derivationsLen];
@@ -444,6 +458,8 @@ int PSBT::add(uint8_t section, const Script * k, const Script * v){
                     delete [] p;
                 }
                 PSBTDerivation * der = &txOutsMeta[output].derivations[txOutsMeta[output].derivationsLen-1];
+                der->derivation = NULL;
+                der->derivationLen = 0;
                 der->pubkey.parse(key_arr+2, k->length()-2);
                 if(der->pubkey.getStatus() != PARSING_DONE){
                     res = -1;
@@ -451,8 +467,10 @@ int PSBT::add(uint8_t section, const Script * k, const Script * v){
                 }
                 memcpy(der->fingerprint, val_arr+lenVarInt(v->scriptLen), 4);
                 der->derivationLen = (v->length()-lenVarInt(v->scriptLen)-4)/sizeof(uint32_t);
-                der->derivation = (uint32_t *)calloc(der->derivationLen, sizeof(uint32_t));
-                if(der->derivation == NULL){ der->derivationLen = 0; res = -1; break; }
+                if(der->derivationLen > 0){
+                    der->derivation = (uint32_t *)calloc(der->derivationLen, sizeof(uint32_t));
+                    if(der->derivation == NULL){ der->derivationLen = 0; res = -1; break; }
+                }
                 for(size_t i=0; i<der->derivationLen; i++){
                     der->derivation[i] = littleEndianToInt(val_arr+lenVarInt(v->scriptLen)+4*(i+1),4);
                 }
-- 
2.43.0


From 43e6cb63b6899fb79ce80e633d4d0ca73c2103d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:43 +0000
Subject: [PATCH 57/76] fix: free key and value of a malformed PSBT output
 record

---
 src/PSBT.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/PSBT.cpp b/src/PSBT.cpp
index 1eb5620..7d44731 100644
--- a/src/PSBT.cpp
+++ b/src/PSBT.cpp
@@ -420,7 +420,8 @@ int PSBT::add(uint8_t section, const Script * k, const Script * v){
         switch(key_code){
             case 0: { // PSBT_OUT_REDEEM_SCRIPT
                 if(k->length() != 2){
-                    return -1;
+                    res = -1;
+                    break;
                 }
                 txOutsMeta[output].redeemScript.parse(val_arr, v->length());
                 res = 1;
@@ -428,7 +429,8 @@ int PSBT::add(uint8_t section, const Script * k, const Script * v){
             }
             case 1: { // PSBT_OUT_WITNESS_SCRIPT
                 if(k->length() != 2){
-                    return -1;
+                    res = -1;
+                    break;
                 }
                 txOutsMeta[output].witnessScript.parse(val_arr, v->length());
                 res = 1;
-- 
2.43.0


From c7f915134aa9bf24ad69612aac821ea817e1a901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:45 +0000
Subject: [PATCH 58/76] fix: check partial signatures of a PSBT before storing
 them

---
 src/PSBT.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/PSBT.cpp b/src/PSBT.cpp
index 7d44731..e0d9227 100644
--- a/src/PSBT.cpp
+++ b/src/PSBT.cpp
@@ -320,8 +320,9 @@ int PSBT::add(uint8_t section, const Script * k, const Script * v){
                     res = -1;
                     break;
                 }
-                psig.signature.parse(val_arr+1, v->length()-1);
-                if(psig.signature.getStatus() != PARSING_DONE){
+                // DER signature and sighash type
+                size_t sig_len = psig.signature.parse(val_arr+lenVarInt(v->scriptLen), v->scriptLen);
+                if(v->scriptLen == 0 || psig.signature.getStatus() != PARSING_DONE || sig_len+1 != v->scriptLen){
                     res = -2;
                     break;
                 }
-- 
2.43.0


From 1cf851863920dea359466260f7a49f159a7859a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:47 +0000
Subject: [PATCH 59/76] fix: keep the sighash type of a PSBT partial signature

---
 src/PSBT.cpp | 3 ++-
 src/PSBT.h   | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/PSBT.cpp b/src/PSBT.cpp
index e0d9227..ca95c5f 100644
--- a/src/PSBT.cpp
+++ b/src/PSBT.cpp
@@ -326,6 +326,7 @@ int PSBT::add(uint8_t section, const Script * k, const Script * v){
                     res = -2;
                     break;
                 }
+                psig.sigHashType = val_arr[v->length()-1];
                 if(txInsMeta[input].signaturesLen == 0){
                     txInsMeta[input].signaturesLen = 1;
                     txInsMeta[input].signatures = new PSBTPartialSignature[txInsMeta[input].signaturesLen];
@@ -525,7 +526,7 @@ size_t PSBT::to_stream(SerializeStream *s, size_t offset) const{
                 uint8_t val_arr[100];
                 uint8_t val_len = 1+txInsMeta[input].signatures[i].signature.serialize(val_arr+1, 98);
                 val_arr[0] = val_len;
-                val_arr[val_len] = SIGHASH_ALL;
+                val_arr[val_len] = txInsMeta[input].signatures[i].sigHashType;
                 while(s->available() && bytes_written+offset-cur < (size_t)val_len+1){
                     s->write(val_arr[bytes_written+offset-cur]);
                     bytes_written++;
diff --git a/src/PSBT.h b/src/PSBT.h
index 60073a2..be6b7d5 100644
--- a/src/PSBT.h
+++ b/src/PSBT.h
@@ -24,6 +24,8 @@ typedef struct{
     PublicKey pubkey;
     /** \brief Signature we generated */
     Signature signature;
+    /** \brief Sighash type of the signature */
+    uint8_t sigHashType;
 } PSBTPartialSignature;
 
 /** \brief Data required for input signing */
-- 
2.43.0


From 0b6d0be28e6fe15514d5605b6ed384d25f60f7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:49 +0000
Subject: [PATCH 60/76] fix: signing a PSBT twice should not duplicate the
 signatures

---
 src/PSBT.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/PSBT.cpp b/src/PSBT.cpp
index ca95c5f..3fc408e 100644
--- a/src/PSBT.cpp
+++ b/src/PSBT.cpp
@@ -327,6 +327,19 @@ int PSBT::add(uint8_t section, const Script * k, const Script * v){
                     break;
                 }
                 psig.sigHashType = val_arr[v->length()-1];
+                size_t known = 0; // one signature per public key
+                while(known < txInsMeta[input].signaturesLen && (txInsMeta[input].signatures[known].pubkey != psig.pubkey || txInsMeta[input].signatures[known].pubkey.compressed != psig.pubkey.compressed)){
+                    known++;
+                }
+                if(known < txInsMeta[input].signaturesLen){
+                    txInsMeta[input].signatures[known] = psig;
+                    res = 1;
+                    break;
+                }
+                if(txInsMeta[input].signaturesLen == 255){
+                    res = -2;
+                    break;
+                }
                 if(txInsMeta[input].signaturesLen == 0){
                     txInsMeta[input].signaturesLen = 1;
                     txInsMeta[input].signatures = new PSBTPartialSignature[txInsMeta[input].signaturesLen];
-- 
2.43.0


From 566c084f3eeb78bbd72c04a22b9aae7c8ce1be02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:50 +0000
Subject: [PATCH 61/76] fix: write section delimiters of a PSBT only inside of
 the window

---
 src/PSBT.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/PSBT.cpp b/src/PSBT.cpp
index 3fc408e..3395b1e 100644
--- a/src/PSBT.cpp
+++ b/src/PSBT.cpp
@@ -547,8 +547,10 @@ size_t PSBT::to_stream(SerializeStream *s, size_t offset) const{
                 cur += val_len+1;
             }
         }
-        s->write(0);
-        bytes_written++;
+        if(s->available() && bytes_written+offset == cur){
+            s->write(0);
+            bytes_written++;
+        }
         section++;
         cur++;
     }
-- 
2.43.0


From 29e61ef29548ae679d76e8ce36d4183767e4befa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:52 +0000
Subject: [PATCH 62/76] fix: do not leak empty arrays when a PSBT is copied

---
 src/PSBT.cpp | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/PSBT.cpp b/src/PSBT.cpp
index 3395b1e..734e509 100644
--- a/src/PSBT.cpp
+++ b/src/PSBT.cpp
@@ -574,31 +574,35 @@ PSBT::PSBT(PSBT const &other){
     txInsMeta = NULL; txOutsMeta = NULL; status = PARSING_DONE; current_section = 0; last_key_pos = 0;
     tx = other.tx;
     status = other.status;
-    txInsMeta = new PSBTInputMetadata[tx.inputsNumber];
-    txOutsMeta = new PSBTOutputMetadata[tx.outputsNumber];
+    if(tx.inputsNumber > 0){
+        txInsMeta = new PSBTInputMetadata[tx.inputsNumber];
+    }
+    if(tx.outputsNumber > 0){
+        txOutsMeta = new PSBTOutputMetadata[tx.outputsNumber];
+    }
     for(size_t i=0; i<tx.inputsNumber; i++){
         txInsMeta[i] = other.txInsMeta[i];
-        txInsMeta[i].derivations = new PSBTDerivation[txInsMeta[i].derivationsLen];
+        txInsMeta[i].derivations = (txInsMeta[i].derivationsLen > 0) ? new PSBTDerivation[txInsMeta[i].derivationsLen] : NULL;
         for(size_t j=0; j<txInsMeta[i].derivationsLen; j++){
             txInsMeta[i].derivations[j] = other.txInsMeta[i].derivations[j];
-            txInsMeta[i].derivations[j].derivation = (uint32_t *)calloc(txInsMeta[i].derivations[j].derivationLen, sizeof(uint32_t));
+            txInsMeta[i].derivations[j].derivation = (txInsMeta[i].derivations[j].derivationLen == 0) ? NULL : (uint32_t *)calloc(txInsMeta[i].derivations[j].derivationLen, sizeof(uint32_t));
             if(txInsMeta[i].derivations[j].derivation == NULL){
                 txInsMeta[i].derivations[j].derivationLen = 0;
             }else{
                 memcpy(txInsMeta[i].derivations[j].derivation, other.txInsMeta[i].derivations[j].derivation, txInsMeta[i].derivations[j].derivationLen*sizeof(uint32_t));
             }
         }
-        txInsMeta[i].signatures = new PSBTPartialSignature[txInsMeta[i].signaturesLen];
+        txInsMeta[i].signatures = (txInsMeta[i].signaturesLen > 0) ? new PSBTPartialSignature[txInsMeta[i].signaturesLen] : NULL;
         for(size_t j=0; j<txInsMeta[i].signaturesLen; j++){
             txInsMeta[i].signatures[j] = other.txInsMeta[i].signatures[j];
         }
     }
     for(size_t i=0; i<tx.outputsNumber; i++){
         txOutsMeta[i] = other.txOutsMeta[i];
-        txOutsMeta[i].derivations = new PSBTDerivation[txOutsMeta[i].derivationsLen];
+        txOutsMeta[i].derivations = (txOutsMeta[i].derivationsLen > 0) ? new PSBTDerivation[txOutsMeta[i].derivationsLen] : NULL;
         for(size_t j=0; j<txOutsMeta[i].derivationsLen; j++){
             txOutsMeta[i].derivations[j] = other.txOutsMeta[i].derivations[j];
-            txOutsMeta[i].derivations[j].derivation = (uint32_t *)calloc(txOutsMeta[i].derivations[j].derivationLen, sizeof(uint32_t));
+            txOutsMeta[i].derivations[j].derivation = (txOutsMeta[i].derivations[j].derivationLen == 0) ? NULL : (uint32_t *)calloc(txOutsMeta[i].derivations[j].derivationLen, sizeof(uint32_t));
             if(txOutsMeta[i].derivations[j].derivation == NULL){
                 txOutsMeta[i].derivations[j].derivationLen = 0;
             }else{
@@ -822,7 +826,7 @@ PSBT& PSBT::operator=(PSBT const &other){
                 txInsMeta[i].derivations = new PSBTDerivation[txInsMeta[i].derivationsLen];
                 for(size_t j=0; j<txInsMeta[i].derivationsLen; j++){
                     txInsMeta[i].derivations[j] = other.txInsMeta[i].derivations[j];
-                    txInsMeta[i].derivations[j].derivation = (uint32_t*)calloc(txInsMeta[i].derivations[j].derivationLen, sizeof(uint32_t));
+                    txInsMeta[i].derivations[j].derivation = (txInsMeta[i].derivations[j].derivationLen == 0) ? NULL : (uint32_t*)calloc(txInsMeta[i].derivations[j].derivationLen, sizeof(uint32_t));
                     if(txInsMeta[i].derivations[j].derivation == NULL){
                         txInsMeta[i].derivations[j].derivationLen = 0;
                     }else{
@@ -842,10 +846,10 @@ PSBT& PSBT::operator=(PSBT const &other){
         txOutsMeta = new PSBTOutputMetadata[tx.outputsNumber];
         for(size_t i=0; i<tx.outputsNumber; i++){
             txOutsMeta[i] = other.txOutsMeta[i];
-            txOutsMeta[i].derivations = new PSBTDerivation[txOutsMeta[i].derivationsLen];
+            txOutsMeta[i].derivations = (txOutsMeta[i].derivationsLen > 0) ? new PSBTDerivation[txOutsMeta[i].derivationsLen] : NULL;
             for(size_t j=0; j<txOutsMeta[i].derivationsLen; j++){
                 txOutsMeta[i].derivations[j] = other.txOutsMeta[i].derivations[j];
-                txOutsMeta[i].derivations[j].derivation = (uint32_t *)calloc(txOutsMeta[i].derivations[j].derivationLen, sizeof(uint32_t));
+                txOutsMeta[i].derivations[j].derivation = (txOutsMeta[i].derivations[j].derivationLen == 0) ? NULL : (uint32_t *)calloc(txOutsMeta[i].derivations[j].derivationLen, sizeof(uint32_t));
                 if(txOutsMeta[i].derivations[j].derivation == NULL){
                     txOutsMeta[i].derivations[j].derivationLen = 0;
                 }else{
-- 
2.43.0


From 560bd3418e519907031bb1d873cc3d2fdb68c150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:54 +0000
Subject: [PATCH 63/76] fix: derivation shorter than the cached account path

---
 src/PSBT.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PSBT.cpp b/src/PSBT.cpp
index 734e509..a985369 100644
--- a/src/PSBT.cpp
+++ b/src/PSBT.cpp
@@ -672,7 +672,7 @@ uint8_t PSBT::sign(const HDPrivateKey root){
                     }
                     PrivateKey pk;
                     // checking if cached key is ok
-                    if(memcmp(first_derivation, txInsMeta[i].derivations[j].derivation, first_derivation_len*sizeof(uint32_t))==0){
+                    if(txInsMeta[i].derivations[j].derivationLen >= first_derivation_len && memcmp(first_derivation, txInsMeta[i].derivations[j].derivation, first_derivation_len*sizeof(uint32_t))==0){
                         pk = account.derive(txInsMeta[i].derivations[j].derivation+first_derivation_len, txInsMeta[i].derivations[j].derivationLen - first_derivation_len);
                     }else{
                         pk = root.derive(txInsMeta[i].derivations[j].derivation, txInsMeta[i].derivations[j].derivationLen);
-- 
2.43.0


From aab3a1648cc9a81f634a453717381607499c7ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:56 +0000
Subject: [PATCH 64/76] fix: an output that does not exist is not mine

---
 src/PSBT.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/PSBT.cpp b/src/PSBT.cpp
index a985369..79a9bb7 100644
--- a/src/PSBT.cpp
+++ b/src/PSBT.cpp
@@ -757,6 +757,9 @@ uint64_t PSBT::fee() const{
 
 bool PSBT::isMine(uint8_t outputNumber, const HDPublicKey xpub) const{
     bool mine = false;
+    if(outputNumber >= tx.outputsNumber){
+        return false;
+    }
     if(txOutsMeta[outputNumber].derivationsLen > 0){
         for(unsigned int j=0; j<txOutsMeta[outputNumber].derivationsLen; j++){
             HDPublicKey pub = xpub.derive(txOutsMeta[outputNumber].derivations[j].derivation, txOutsMeta[outputNumber].derivations[j].derivationLen);
@@ -771,6 +774,9 @@ bool PSBT::isMine(uint8_t outputNumber, const HDPublicKey xpub) const{
 
 bool PSBT::isMine(uint8_t outputNumber, const HDPrivateKey xprv) const{
     bool mine = false;
+    if(outputNumber >= tx.outputsNumber){
+        return false;
+    }
     if(txOutsMeta[outputNumber].derivationsLen > 0){
         for(unsigned int j=0; j<txOutsMeta[outputNumber].derivationsLen; j++){
             HDPublicKey pub = xprv.derive(txOutsMeta[outputNumber].derivations[j].derivation, txOutsMeta[outputNumber].derivations[j].derivationLen).xpub();
-- 
2.43.0


From 9bf4dffbfd26bbfb5c0a4f9f0570ad7cbd3f66f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:58 +0000
Subject: [PATCH 65/76] fix: fee of a PSBT that spends an output without value

---
 src/PSBT.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PSBT.cpp b/src/PSBT.cpp
index 79a9bb7..3932330 100644
--- a/src/PSBT.cpp
+++ b/src/PSBT.cpp
@@ -741,7 +741,7 @@ uint64_t PSBT::fee() const{
     uint64_t input_amount = 0;
     uint64_t output_amount = 0;
     for(size_t i=0; i<tx.inputsNumber; i++){
-        if(txInsMeta[i].txOut.amount == 0){
+        if(txInsMeta[i].txOut.amount == 0 && txInsMeta[i].txOut.scriptPubkey.length() <= 1){ // not known
             return 0;
         }
         input_amount += txInsMeta[i].txOut.amount;
-- 
2.43.0


From 1ea594efd87488a5bfbaa6ea5e90cfb311ec57d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:00 +0000
Subject: [PATCH 66/76] fix: amounts of legacy Electrum inputs are not known

---
 src/Electrum.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Electrum.cpp b/src/Electrum.cpp
index 13bdd26..2e20c3f 100644
--- a/src/Electrum.cpp
+++ b/src/Electrum.cpp
@@ -57,6 +57,7 @@ size_t ElectrumTx::from_stream(ParseStream *s){
             is_segwit = false;
             txInsMeta = new ElectrumInputMetadata[tx.inputsNumber];
             for(unsigned i=0; i<tx.inputsNumber; i++){
+                txInsMeta[i].amount = 0; // not there in legacy transactions
                 if(tx.txIns[i].scriptSig.length() != 88){ // no idea how to parse other things
                     status = PARSING_FAILED;
                     bytes_parsed+=bytes_read;
-- 
2.43.0


From 3de0b7557f960bc9ecd082143b323df50656b72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:01 +0000
Subject: [PATCH 67/76] fix: an invalid key in a segwit Electrum transaction is
 an error

---
 src/Electrum.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Electrum.cpp b/src/Electrum.cpp
index 2e20c3f..95ebd31 100644
--- a/src/Electrum.cpp
+++ b/src/Electrum.cpp
@@ -119,6 +119,11 @@ size_t ElectrumTx::from_stream(ParseStream *s){
             start += 7;
             while(s->available() && bytes_parsed+bytes_read < start + 78){
                 bytes_read+=s->parse(&txInsMeta[i].hd);
+                if(txInsMeta[i].hd.getStatus() == PARSING_FAILED){
+                    status = PARSING_FAILED;
+                    bytes_parsed += bytes_read;
+                    return bytes_read;
+                }
             }
             start += 78;
             while(s->available() && bytes_parsed+bytes_read < start + 4){
-- 
2.43.0


From e564c0fe3e174c11561b7d9b3f08a4c48e2a8778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:03 +0000
Subject: [PATCH 68/76] fix: copies of Electrum transactions that could not be
 parsed

---
 src/Electrum.cpp | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/Electrum.cpp b/src/Electrum.cpp
index 95ebd31..e96f51c 100644
--- a/src/Electrum.cpp
+++ b/src/Electrum.cpp
@@ -2,23 +2,28 @@
 
 ElectrumTx::ElectrumTx(ElectrumTx const &other){
     tx = other.tx;
-    is_segwit = false;
-    txInsMeta = new ElectrumInputMetadata[tx.inputsNumber];
-    for(unsigned int i=0; i<tx.inputsNumber; i++){
-        txInsMeta[i] = other.txInsMeta[i];
+    is_segwit = other.is_segwit;
+    txInsMeta = NULL;
+    if(other.txInsMeta != NULL){
+        txInsMeta = new ElectrumInputMetadata[tx.inputsNumber];
+        for(unsigned int i=0; i<tx.inputsNumber; i++){
+            txInsMeta[i] = other.txInsMeta[i];
+        }
     }
     status = other.status;
     bytes_parsed = other.bytes_parsed;
 }
 ElectrumTx& ElectrumTx::operator=(ElectrumTx const &other){
     if (this == &other){ return *this; } // self-assignment
-    if(tx.inputsNumber > 0){
-        delete [] txInsMeta;
-    }
+    delete [] txInsMeta;
     tx = other.tx;
-    txInsMeta = new ElectrumInputMetadata[tx.inputsNumber];
-    for(unsigned int i=0; i<tx.inputsNumber; i++){
-        txInsMeta[i] = other.txInsMeta[i];
+    is_segwit = other.is_segwit;
+    txInsMeta = NULL;
+    if(other.txInsMeta != NULL){
+        txInsMeta = new ElectrumInputMetadata[tx.inputsNumber];
+        for(unsigned int i=0; i<tx.inputsNumber; i++){
+            txInsMeta[i] = other.txInsMeta[i];
+        }
     }
     status = other.status;
     bytes_parsed = other.bytes_parsed;
@@ -30,9 +35,7 @@ size_t ElectrumTx::from_stream(ParseStream *s){
         return 0;
     }
     if(status == PARSING_DONE){
-        if(tx.inputsNumber > 0){
-            delete [] txInsMeta;
-        }
+        delete [] txInsMeta;
         txInsMeta = NULL;
         tx = Tx();
         bytes_parsed = 0;
-- 
2.43.0


From 6a7ac0251636727842b56fad3b404485cb7cdfd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:05 +0000
Subject: [PATCH 69/76] fix: another chain code means other keys of an Electrum
 transaction

---
 src/Electrum.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Electrum.cpp b/src/Electrum.cpp
index e96f51c..c864ea3 100644
--- a/src/Electrum.cpp
+++ b/src/Electrum.cpp
@@ -159,7 +159,7 @@ uint8_t ElectrumTx::sign(const HDPrivateKey account){
         HDPublicKey pub = account.xpub();
         ScriptType type = txInsMeta[i].hd.type;
         pub.type = type;
-        if(pub == txInsMeta[i].hd){
+        if(pub == txInsMeta[i].hd && memcmp(pub.chainCode, txInsMeta[i].hd.chainCode, 32) == 0){
             PrivateKey pk = account.child(txInsMeta[i].derivation[0]).child(txInsMeta[i].derivation[1]);
             if(type == P2PKH || type == P2SH || type == UNKNOWN_TYPE || type == DIRECT_SCRIPT){
                 tx.signInput(i, pk);
-- 
2.43.0


From 26293190e3c75dcd44fb84d3a87633317a9738eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:43 +0000
Subject: [PATCH 70/76] fix: stop at the first witness that can not be parsed

---
 src/Transaction.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Transaction.cpp b/src/Transaction.cpp
index ba3c36f..38dca78 100644
--- a/src/Transaction.cpp
+++ b/src/Transaction.cpp
@@ -447,6 +447,9 @@ size_t Tx::from_stream(ParseStream *s){
     if(segwit_flag > 0 && bytes_read+bytes_parsed == current_offset){
         for(unsigned int i=0; i<inputsNumber; i++){ // this will at least set all txins witnesses to PARSING_INCOMPLETE
             bytes_read += s->parse(&txIns[i].witness);
+            if(txIns[i].witness.getStatus() == PARSING_FAILED){ // the rest is not a witness
+                break;
+            }
         }
     }
     if(segwit_flag > 0){
-- 
2.43.0


From 54347235ed9adce174f77b3a83559769c9bd8cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:37 +0000
Subject: [PATCH 71/76] fix: leak of a parsed PSBT without outputs

---
 src/PSBT.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PSBT.cpp b/src/PSBT.cpp
index 3932330..219723f 100644
--- a/src/PSBT.cpp
+++ b/src/PSBT.cpp
@@ -197,12 +197,12 @@ size_t PSBT::from_stream(ParseStream *s){
             bytes_parsed += bytes_read;
             return bytes_read;
         }
-        txInsMeta = new PSBTInputMetadata[tx.inputsNumber];
+        txInsMeta = (tx.inputsNumber > 0) ? new PSBTInputMetadata[tx.inputsNumber] : NULL;
         for(size_t i=0; i<tx.inputsNumber; i++){
             txInsMeta[i].derivationsLen = 0;
             txInsMeta[i].signaturesLen = 0;
         }
-        txOutsMeta = new PSBTOutputMetadata[tx.outputsNumber];
+        txOutsMeta = (tx.outputsNumber > 0) ? new PSBTOutputMetadata[tx.outputsNumber] : NULL;
         for(size_t i=0; i<tx.outputsNumber; i++){
             txOutsMeta[i].derivationsLen = 0;
         }
-- 
2.43.0


From e19da425797f93f3e92aac4394cdf609a1f7228e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:37 +0000
Subject: [PATCH 72/76] fix: ElectrumTx fee() and sign() dereferenced NULL on a
 partially parsed transaction

---
 src/Electrum.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Electrum.cpp b/src/Electrum.cpp
index c864ea3..11a6f40 100644
--- a/src/Electrum.cpp
+++ b/src/Electrum.cpp
@@ -155,6 +155,9 @@ ElectrumTx::~ElectrumTx(){
 }
 uint8_t ElectrumTx::sign(const HDPrivateKey account){
     uint8_t res = 0; // number of signed inputs
+    if(txInsMeta == NULL){ // nothing parsed yet, or not completely
+        return res;
+    }
     for(unsigned int i=0; i<tx.inputsNumber; i++){
         HDPublicKey pub = account.xpub();
         ScriptType type = txInsMeta[i].hd.type;
@@ -173,6 +176,9 @@ uint8_t ElectrumTx::sign(const HDPrivateKey account){
 }
 
 uint64_t ElectrumTx::fee() const{
+    if(txInsMeta == NULL){ // nothing parsed yet, or not completely
+        return 0;
+    }
     uint64_t inputs_amount = 0;
     for(unsigned int i=0; i < tx.inputsNumber; i++){
         if(txInsMeta[i].amount == 0){
-- 
2.43.0


From d7176f4545cbcca541a98bb8258d79f1067f2583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:16 +0000
Subject: [PATCH 73/76] fix: decoded keys were left in freed memory by
 fromBase58

---
 src/Conversion.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Conversion.cpp b/src/Conversion.cpp
index c988069..28a1a4c 100644
--- a/src/Conversion.cpp
+++ b/src/Conversion.cpp
@@ -422,10 +422,12 @@ size_t fromBase58(const char * encoded, size_t encodedSize, uint8_t * output, si
         }
     }
     if(size-shift > outputSize){
+        memzero(tmp, size);
         free(tmp);
         return 0;
     }
     memcpy(output, tmp+shift, size-shift);
+    memzero(tmp, size); // may be a secret
     free(tmp);
     return size-shift;
 }
@@ -436,6 +438,7 @@ size_t fromBase58Check(const char * encoded, size_t encodedSize, uint8_t * outpu
     if(arr == NULL){ return 0; }
     size_t l = fromBase58(encoded, encodedSize, arr, outputSize+4);
     if(l<4){
+        memzero(arr, outputSize+4);
         free(arr);
         return 0;
     }
@@ -443,6 +446,7 @@ size_t fromBase58Check(const char * encoded, size_t encodedSize, uint8_t * outpu
     uint8_t hash[32];
     doubleSha(arr, l-4, hash);
     if(memcmp(arr+l-4, hash, 4)!=0){
+        memzero(arr, outputSize+4); // a mistyped key is still a secret
         free(arr);
         return 0;
     }
-- 
2.43.0


From a2b8de183bf2d15c3673a0743dd3f6d9ef659be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:31 +0000
Subject: [PATCH 74/76] fix: ElectrumTx took a segwit transaction with a
 malformed witness item for its own format

---
 src/Electrum.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Electrum.cpp b/src/Electrum.cpp
index 11a6f40..fba3c60 100644
--- a/src/Electrum.cpp
+++ b/src/Electrum.cpp
@@ -82,7 +82,8 @@ size_t ElectrumTx::from_stream(ParseStream *s){
         }
     }
     if(tx.getStatus() == PARSING_FAILED){
-        if(tx.inputsNumber > 0 && tx.txIns[0].witness.getStatus() == PARSING_FAILED){
+        // only a number of elements that can't be there marks the format of Electrum
+        if(tx.inputsNumber > 0 && tx.txIns[0].witness.getStatus() == PARSING_FAILED && tx.txIns[0].witness.count() == 0){
             for(unsigned int i=0; i<tx.inputsNumber; i++){
                 tx.txIns[i].witness = Witness();
             }
-- 
2.43.0


From 78939f0f34929c127daa5d11490ec3f3d3fca821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:33 +0000
Subject: [PATCH 75/76] fix: PSBT took a spent output that contradicts the full
 previous transaction

---
 src/PSBT.cpp | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/PSBT.cpp b/src/PSBT.cpp
index 219723f..2eb5429 100644
--- a/src/PSBT.cpp
+++ b/src/PSBT.cpp
@@ -253,6 +253,14 @@ size_t PSBT::from_stream(ParseStream *s){
     return bytes_read;
 }
 
+// checks if the output we already know for the input is not the one that is given now
+static bool contradicts(const TxOut &known, const TxOut &given){
+    if(known.amount == 0 && known.scriptPubkey.length() <= 1){ // not known yet
+        return false;
+    }
+    return known.amount != given.amount || known.scriptPubkey != given.scriptPubkey;
+}
+
 int PSBT::add(uint8_t section, const Script * k, const Script * v){
     if(section == 0 || section >= 1+tx.inputsNumber+tx.outputsNumber){
         return 0;
@@ -292,7 +300,12 @@ int PSBT::add(uint8_t section, const Script * k, const Script * v){
                     res = -3;
                     break;
                 }
-                txInsMeta[input].txOut = tempTx.txOuts[tx.txIns[input].outputIndex];
+                TxOut prevOut = tempTx.txOuts[tx.txIns[input].outputIndex];
+                if(contradicts(txInsMeta[input].txOut, prevOut)){
+                    res = -3;
+                    break;
+                }
+                txInsMeta[input].txOut = prevOut;
                 res = 1;
                 break;
             }
@@ -301,11 +314,17 @@ int PSBT::add(uint8_t section, const Script * k, const Script * v){
                     res = -1;
                     break;
                 }
-                txInsMeta[input].txOut.parse(val_arr+lenVarInt(v->scriptLen), v->length()-lenVarInt(v->scriptLen));
-                if(txInsMeta[input].txOut.getStatus() != PARSING_DONE){
+                TxOut prevOut;
+                prevOut.parse(val_arr+lenVarInt(v->scriptLen), v->length()-lenVarInt(v->scriptLen));
+                if(prevOut.getStatus() != PARSING_DONE){
                     res = -2;
                     break;
                 }
+                if(contradicts(txInsMeta[input].txOut, prevOut)){
+                    res = -3;
+                    break;
+                }
+                txInsMeta[input].txOut = prevOut;
                 res = 1;
                 break;
             }
-- 
2.43.0


From e504f100099bc7a4e352c0098ffb8bf27b5b99cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:02 +0000
Subject: [PATCH 76/76] fix: Witness::count() cut the number of elements to 8
 bits

---
 src/Bitcoin.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Bitcoin.h b/src/Bitcoin.h
index 2fcc15d..b56e78d 100644
--- a/src/Bitcoin.h
+++ b/src/Bitcoin.h
@@ -571,7 +571,7 @@ public:
     Witness(const Witness &other); // copy
     ~Witness(){ if(witnessArray){ free(witnessArray); } };
     /** \brief returns number of elements in the witness */
-    uint8_t count() const{ return numElements; };
+    uint32_t count() const{ return numElements; };
     /** \brief adds `<len><data>` to the witness */
     size_t push(const uint8_t * data, size_t len);
     /** \brief adds `<len><sec>` to the witness */
-- 
2.43.0

