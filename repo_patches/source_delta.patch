From 23b530548181c6eb7c21c8c1b16c17c2e9f8f550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:10 +0000
Subject: [PATCH 01/27] fix: post() called a function that does not exist and
 always threw

---
 index.js | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/index.js b/index.js
index 9be2d49..4ef554a 100644
--- a/index.js
+++ b/index.js
@@ -199,12 +199,11 @@ module.exports = {
 		if(!Buffer.isBuffer(data)) data = toBuffer(data);
 		
 		filename = toBuffer(filename.replace(RE_BADCHAR, '').substring(0, 256), exports.encoding);
-		var e = encodeCrc(data, line_size);
 		return Buffer.concat([
 			toBuffer('=ybegin line='+line_size+' size='+data.length+' name='),
 			filename, nl,
-			e.output,
-			toBuffer('\r\n=yend size='+data.length+' crc32=' + e.crc32.toString('hex'))
+			y.encode(data, line_size),
+			toBuffer('\r\n=yend size='+data.length+' crc32=' + y.crc32(data).toString('hex'))
 		]);
 	},
 	multi_post: function(filename, size, parts, line_size) {
-- 
2.43.0


From 72d21a1fa64bc5960679d8d329e7cd5ab4e4e10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:10 +0000
Subject: [PATCH 02/27] fix: strip every CR, LF and NUL from filenames, not
 only the sequence CR LF NUL

---
 index.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/index.js b/index.js
index 4ef554a..c19ac32 100644
--- a/index.js
+++ b/index.js
@@ -6,7 +6,7 @@ var toBuffer = Buffer.alloc ? Buffer.from : Buffer;
 var bufferSlice = Buffer.prototype.readBigInt64BE ? Buffer.prototype.subarray : Buffer.prototype.slice;
 
 var nl = toBuffer([13, 10]);
-var RE_BADCHAR = /\r\n\0/g;
+var RE_BADCHAR = /[\r\n\0]/g;
 var RE_YPROP = /([a-z_][a-z_0-9]*)=/;
 var RE_NUMBER = /^\d+$/;
 var decodePrev = ['\r\n', '=', '\r', '', '\r\n.', '\r\n.\r', '\r\n='];
-- 
2.43.0


From 68a64a43f9f385d6569295d54a3494fdd9b048be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:10 +0000
Subject: [PATCH 03/27] fix: honour the encoding setting when posting

module.exports is replaced, so exports.encoding was always undefined.
---
 index.js | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/index.js b/index.js
index c19ac32..1044dcd 100644
--- a/index.js
+++ b/index.js
@@ -198,7 +198,7 @@ module.exports = {
 		
 		if(!Buffer.isBuffer(data)) data = toBuffer(data);
 		
-		filename = toBuffer(filename.replace(RE_BADCHAR, '').substring(0, 256), exports.encoding);
+		filename = toBuffer(filename.replace(RE_BADCHAR, '').substring(0, 256), module.exports.encoding);
 		return Buffer.concat([
 			toBuffer('=ybegin line='+line_size+' size='+data.length+' name='),
 			filename, nl,
@@ -363,7 +363,7 @@ function YEncoder(filename, size, parts, line_size) {
 	this.pos = 0;
 	this.crc = toBuffer([0,0,0,0]);
 	
-	filename = toBuffer(filename.replace(RE_BADCHAR, '').substring(0, 256), exports.encoding);
+	filename = toBuffer(filename.replace(RE_BADCHAR, '').substring(0, 256), module.exports.encoding);
 	if(parts > 1) {
 		this.yInfo = Buffer.concat([
 			toBuffer(' total='+parts+' line='+line_size+' size='+size+' name='),
-- 
2.43.0


From 069d10354064c1d700d680f7baa2084f2fae3a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:32 +0000
Subject: [PATCH 04/27] fix: decodeChunk() ignored the output buffer when
 called as documented (data, state, output), and the state in (data, null,
 state)

---
 index.js | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/index.js b/index.js
index 1044dcd..76937b6 100644
--- a/index.js
+++ b/index.js
@@ -131,10 +131,12 @@ module.exports = {
 	decodeTo: y.decodeTo,
 	
 	decodeChunk: function(data, output, prev) {
-		// both output and prev are optional
-		if(typeof output !== 'undefined' && !Buffer.isBuffer(output)) {
-			prev = output;
-			output = null;
+		var state;
+		// both output and prev are optional, and can be given in either order
+		if(!Buffer.isBuffer(output) && (Buffer.isBuffer(prev) || (output !== null && typeof output !== 'undefined'))) {
+			state = output;
+			output = prev;
+			prev = state;
 		}
 		if(prev === null || typeof prev === 'undefined')
 			prev = '\r\n';
@@ -149,7 +151,7 @@ module.exports = {
 			ended: 0,
 			state: prev
 		};
-		var state = decodePrev.indexOf(prev);
+		state = decodePrev.indexOf(prev);
 		if(state < 0) {
 			for(var l=-3; l<0; i++) {
 				state = decodePrev.indexOf(prev.slice(l));
-- 
2.43.0


From ca07ca818350f01a4a2b11964af5eebe8cabcb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:32 +0000
Subject: [PATCH 05/27] fix: decodeChunk() threw a ReferenceError when given a
 state it does not recognise, such as that of an ended decode

---
 index.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/index.js b/index.js
index 76937b6..25a3b12 100644
--- a/index.js
+++ b/index.js
@@ -153,7 +153,7 @@ module.exports = {
 		};
 		state = decodePrev.indexOf(prev);
 		if(state < 0) {
-			for(var l=-3; l<0; i++) {
+			for(var l=-3; l<0; l++) {
 				state = decodePrev.indexOf(prev.slice(l));
 				if(state >= 0) break;
 			}
-- 
2.43.0


From f1d131f2e02eb883937a2c7504037ace0636807d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:32 +0000
Subject: [PATCH 06/27] fix: decodeChunk() on empty data returned a number for
 ended and did not return the supplied output

---
 index.js | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/index.js b/index.js
index 25a3b12..462706b 100644
--- a/index.js
+++ b/index.js
@@ -147,8 +147,8 @@ module.exports = {
 		if(data.length == 0) return {
 			read: 0,
 			written: 0,
-			output: toBuffer([]),
-			ended: 0,
+			output: output || toBuffer([]),
+			ended: false,
 			state: prev
 		};
 		state = decodePrev.indexOf(prev);
-- 
2.43.0


From 524a7818e5a9c85a774ab3b8faa4e7e5040bd598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:32 +0000
Subject: [PATCH 07/27] fix: minSize() counted a newline after the last line,
 exceeding the size of what encode() can return

---
 index.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/index.js b/index.js
index 462706b..746b68e 100644
--- a/index.js
+++ b/index.js
@@ -173,7 +173,7 @@ module.exports = {
 	minSize: function(length, line_size) {
 		if(!length) return 0;
 		return length // no characters escaped
-			+ 2 * Math.floor(length / (line_size||128)); // newlines
+			+ 2 * Math.floor((length-1) / (line_size||128)); // newlines (there's none after the last line)
 	},
 	maxSize: function(length, line_size, esc_ratio) {
 		if(!length) return 0;
-- 
2.43.0


From 3548cacb5280aad658f934ebdfebfbf1405c9d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:32 +0000
Subject: [PATCH 08/27] fix: decodeTo() silently returned 0 instead of throwing
 when the output is too small

---
 src/yencode.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yencode.cc b/src/yencode.cc
index c971dbf..be6e5b8 100644
--- a/src/yencode.cc
+++ b/src/yencode.cc
@@ -266,7 +266,7 @@ FUNC(DecodeTo) {
 	
 	// check that destination buffer has enough space
 	if(node::Buffer::Length(args[1]) < arg_len)
-		RETURN_VAL( Integer::New(ISOLATE 0) );
+		RETURN_ERROR("Destination buffer does not have enough space");
 	
 	bool isRaw = false;
 	if (args.Length() > 2)
-- 
2.43.0


From 1e342efea86d4a60131f9d68efe1fb5098d5cf39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:32 +0000
Subject: [PATCH 09/27] fix: crc32_zeroes() and crc32_shift() truncated their
 length to 32 bits

---
 src/yencode.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yencode.cc b/src/yencode.cc
index be6e5b8..8bdd479 100644
--- a/src/yencode.cc
+++ b/src/yencode.cc
@@ -400,7 +400,7 @@ FUNC(CRC32Zeroes) {
 			RETURN_ERROR("Second argument must be a 4 byte buffer");
 		crc1 = read_crc32(args[1]);
 	}
-	int len = ARG_TO_INT(args[0]);
+	int64_t len = ARG_TO_INT(args[0]);
 	if(len < 0)
 		crc1 = crc32_unzero(crc1, -len);
 	else
@@ -436,7 +436,7 @@ FUNC(CRC32Shift) {
 			RETURN_ERROR("Second argument must be a 4 byte buffer");
 		crc1 = read_crc32(args[1]);
 	}
-	int n = ARG_TO_INT(args[0]);
+	int64_t n = ARG_TO_INT(args[0]);
 	if(n < 0)
 		crc1 = crc32_shift(crc1, ~crc32_powmod(-n));
 	else
-- 
2.43.0


From 75de40d819072ee6d10133c820a8e1e4f55ef4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:49 +0000
Subject: [PATCH 10/27] fix: lengths of 2 GB and over were truncated to 32 bits
 when returned

---
 src/yencode.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/yencode.cc b/src/yencode.cc
index 8bdd479..68031f4 100644
--- a/src/yencode.cc
+++ b/src/yencode.cc
@@ -166,7 +166,7 @@ FUNC(EncodeTo) {
 		RETURN_ERROR("Destination buffer does not have enough space (use `maxSize` to compute required space)");
 	
 	size_t len = encode(line_size, &col, (const unsigned char*)node::Buffer::Data(args[0]), (unsigned char*)node::Buffer::Data(args[1]), arg_len, true);
-	RETURN_VAL( Integer::New(ISOLATE len) );
+	RETURN_VAL( Number::New(ISOLATE (double)len) );
 }
 
 FUNC(EncodeIncr) {
@@ -223,7 +223,7 @@ FUNC(EncodeIncr) {
 	
 	size_t len = encode(line_size, &col, (const unsigned char*)node::Buffer::Data(args[0]), result, arg_len, false);
 	
-	SET_OBJ(ret, "written", Integer::New(ISOLATE len));
+	SET_OBJ(ret, "written", Number::New(ISOLATE (double)len));
 	if(allocResult) {
 		result = (unsigned char*)realloc(result, len);
 		SET_OBJ(ret, "output", NEW_BUFFER((char*)result, len, free_buffer, (void*)len));
@@ -273,7 +273,7 @@ FUNC(DecodeTo) {
 		isRaw = ARG_TO_BOOL(args[2]);
 	
 	size_t len = decode(isRaw, (const unsigned char*)node::Buffer::Data(args[0]), (unsigned char*)node::Buffer::Data(args[1]), arg_len, NULL);
-	RETURN_VAL( Integer::New(ISOLATE len) );
+	RETURN_VAL( Number::New(ISOLATE (double)len) );
 }
 
 
@@ -320,8 +320,8 @@ FUNC(DecodeIncr) {
 #endif
 	
 	Local<Object> ret = NEW_OBJECT;
-	SET_OBJ(ret, "read", Integer::New(ISOLATE sp - src));
-	SET_OBJ(ret, "written", Integer::New(ISOLATE len));
+	SET_OBJ(ret, "read", Number::New(ISOLATE (double)(sp - src)));
+	SET_OBJ(ret, "written", Number::New(ISOLATE (double)len));
 	if(allocResult) {
 		SET_OBJ(ret, "output", NEW_BUFFER((char*)result, len, free_buffer, (void*)len));
 		MARK_EXT_MEM(len);
-- 
2.43.0


From f0b752976fc6f721de31bba0621e8fe6b9b8f340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:49 +0000
Subject: [PATCH 11/27] fix: encodeIncr() checked the output size against the
 default line size, overflowing the output if shorter lines are used

---
 src/yencode.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/yencode.cc b/src/yencode.cc
index 68031f4..64401ab 100644
--- a/src/yencode.cc
+++ b/src/yencode.cc
@@ -184,10 +184,6 @@ FUNC(EncodeIncr) {
 		if(node::Buffer::HasInstance(args[1])) {
 			// grab destination
 			allocResult = false;
-			// check that destination buffer has enough space
-			size_t dest_len = YENC_MAX_SIZE(arg_len, line_size);
-			if(node::Buffer::Length(args[1]) < dest_len)
-				RETURN_ERROR("Destination buffer does not have enough space (use `maxSize` to compute required space)");
 			result = (unsigned char*)node::Buffer::Data(args[1]);
 			argp++;
 		}
@@ -204,6 +200,9 @@ FUNC(EncodeIncr) {
 				if (col == line_size) col = 0; // allow this case
 			}
 		}
+		// check that destination buffer has enough space (this depends on the line size)
+		if(!allocResult && node::Buffer::Length(args[1]) < YENC_MAX_SIZE(arg_len, line_size))
+			RETURN_ERROR("Destination buffer does not have enough space (use `maxSize` to compute required space)");
 	}
 	
 	Local<Object> ret = NEW_OBJECT;
-- 
2.43.0


From 405a534164dfef74cbcc169f63064647e87840b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:16 +0000
Subject: [PATCH 12/27] fix: the column reported by incremental encoding was
 off if the data ended on the end of a line, and could not be fed back if it
 reached the line size

---
 src/encoder.cc       | 2 ++
 src/encoder_common.h | 2 ++
 src/yencode.cc       | 4 ++--
 3 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/encoder.cc b/src/encoder.cc
index b0642fb..fbc7bcd 100644
--- a/src/encoder.cc
+++ b/src/encoder.cc
@@ -107,8 +107,10 @@ size_t RapidYenc::do_encode_generic(int line_size, int* colOffset, const unsigne
 			if (RapidYenc::escapedLUT[c] && c != '.'-42) {
 				memcpy(p, &RapidYenc::escapedLUT[c], sizeof(uint16_t));
 				p += 2;
+				col += 2;
 			} else {
 				*(p++) = c + 42;
+				col++;
 			}
 		}
 		
diff --git a/src/encoder_common.h b/src/encoder_common.h
index 8e4975c..a3bf76c 100644
--- a/src/encoder_common.h
+++ b/src/encoder_common.h
@@ -65,8 +65,10 @@ static size_t do_encode_simd(int line_size, int* colOffset, const unsigned char*
 				if (RapidYenc::escapedLUT[c] && c != '.'-42) {
 					memcpy(p, RapidYenc::escapedLUT + c, 2);
 					p += 2;
+					(*colOffset) += 2;
 				} else {
 					*(p++) = c + 42;
+					(*colOffset)++;
 				}
 				if(i == 0) break;
 				c = es[i++];
diff --git a/src/yencode.cc b/src/yencode.cc
index 64401ab..276d4ad 100644
--- a/src/yencode.cc
+++ b/src/yencode.cc
@@ -195,9 +195,9 @@ FUNC(EncodeIncr) {
 			argp++;
 			if (args.Length() > argp) {
 				col = (int)ARG_TO_INT(args[argp]);
-				if (col > line_size || col < 0)
+				// if the previous call filled the line (an escape sequence can exceed it by one), this call starts with a newline
+				if (col > line_size+1 || col < 0)
 					RETURN_ERROR("Column offset cannot exceed the line size and cannot be negative");
-				if (col == line_size) col = 0; // allow this case
 			}
 		}
 		// check that destination buffer has enough space (this depends on the line size)
-- 
2.43.0


From 0f7d02e74ac3a38b89b492da82e084512e6c5f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:43 +0000
Subject: [PATCH 13/27] fix: from_post() failed if not called as a method of
 the module

---
 index.js | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/index.js b/index.js
index 746b68e..6ea3be3 100644
--- a/index.js
+++ b/index.js
@@ -236,7 +236,7 @@ module.exports = {
 		var sp = yencStart;
 		var p = bufferFind(data, '\r\n', yencStart+8);
 		while(p > 0) {
-			var line = bufferSlice.call(data, sp, p).toString(this.encoding).trim();
+			var line = bufferSlice.call(data, sp, p).toString(module.exports.encoding).trim();
 			lines.push(line);
 			sp = p+2;
 			if(line.substring(0, 6) == '=yend ') { // no data in post
@@ -270,7 +270,7 @@ module.exports = {
 				ret.yencEnd = p;
 			} else
 				ret.yencEnd = p+2;
-			var endLine = bufferSlice.call(data, yencEnd+2, p).toString(this.encoding).trim();
+			var endLine = bufferSlice.call(data, yencEnd+2, p).toString(module.exports.encoding).trim();
 			
 			warnings = warnings.concat(decoderParseLines([endLine], ydata));
 		}
-- 
2.43.0


From 995769a975e784855612bbcd50a02ce5a51665e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:43 +0000
Subject: [PATCH 14/27] fix: from_post() mixed up tags and properties in a post
 with inherited properties (constructor, __proto__, etc)

---
 index.js | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/index.js b/index.js
index 6ea3be3..280ba04 100644
--- a/index.js
+++ b/index.js
@@ -72,6 +72,14 @@ else
 		return -1;
 	};
 
+// names come from the post, so mustn't be mixed up with inherited ones, like `constructor` or `__proto__`
+var hasProp = function(obj, key) {
+	return Object.prototype.hasOwnProperty.call(obj, key);
+};
+var setProp = function(obj, key, val) {
+	Object.defineProperty(obj, key, {value: val, enumerable: true, configurable: true, writable: true});
+};
+
 var decoderParseLines = function(lines, ydata) {
 	var warnings = [];
 	for(var i=0; i<lines.length; i++) {
@@ -100,20 +108,20 @@ var decoderParseLines = function(lines, ydata) {
 				val = (p<0 ? line.substring(valPos) : line.substring(valPos, p));
 				line = line.substring(valPos + val.length +1);
 			}
-			if(prop in yprops) {
+			if(hasProp(yprops, prop)) {
 				warnings.push(DecoderWarning('duplicate_property', 'Duplicate property encountered: `' + prop + '`'));
 			}
-			yprops[prop] = val;
+			setProp(yprops, prop, val);
 			m = line.match(RE_YPROP);
 		}
 		if(line != '') {
 			warnings.push(DecoderWarning('ignored_line_data', 'Unknown additional end-of-line data ignored: "' + line + '"'));
 		}
 		
-		if(tag in ydata) {
+		if(hasProp(ydata, tag)) {
 			warnings.push(DecoderWarning('duplicate_line', 'Duplicate line encountered: `' + tag + '`'));
 		}
-		ydata[tag] = yprops;
+		setProp(ydata, tag, yprops);
 	}
 	return warnings;
 };
-- 
2.43.0


From 047fcf6f996692f85e6eb9010489790797028b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:43 +0000
Subject: [PATCH 15/27] fix: a part rejected by YEncoder.encode() was still
 counted in its part number and CRC32

---
 index.js | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/index.js b/index.js
index 280ba04..6276a9e 100644
--- a/index.js
+++ b/index.js
@@ -394,20 +394,22 @@ YEncoder.prototype = {
 	encode: function(data) {
 		if(!Buffer.isBuffer(data)) data = toBuffer(data);
 		
-		this.part++;
-		if(this.part > this.parts)
+		// check everything before changing anything, so that a rejected part leaves the state as is
+		var part = this.part + 1;
+		if(part > this.parts)
 			throw new Error('Exceeded number of specified yEnc parts');
 		var end = this.pos + data.length;
 		if(end > this.size)
 			throw new Error('Exceeded total file size');
+		if(part == this.parts && end != this.size)
+			throw new Error('File size doesn\'t match total data length');
+		this.part = part;
 		
 		var yInfo = this.yInfo;
 		var crc = y.crc32(data), fullCrc = '';
 		this.crc = y.crc32_combine(this.crc, crc, data.length);
 		if(this.part == this.parts) {
 			// final part treated slightly differently
-			if(end != this.size)
-				throw new Error('File size doesn\'t match total data length');
 			fullCrc = ' crc32='+this.crc.toString('hex');
 			this.yInfo = null;
 		}
-- 
2.43.0


From 096631ae78480bea0cda22306f70e781c5578e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:42 +0000
Subject: [PATCH 16/27] fix: decode() with stripDots lost the last byte of data
 that ends in an escaped CR (and LF)

---
 src/decoder.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decoder.cc b/src/decoder.cc
index 6dda4ef..2b0cbe7 100644
--- a/src/decoder.cc
+++ b/src/decoder.cc
@@ -29,7 +29,7 @@ static size_t do_decode_noend_scalar(const unsigned char* src, unsigned char* de
 				i++;
 				if(c == '\r') {
 					*state = YDEC_STATE_CR;
-					if(i >= 0) return 0;
+					if(i >= 0) return p - dest;
 				} else {
 					*state = YDEC_STATE_NONE;
 					break;
@@ -39,7 +39,7 @@ static size_t do_decode_noend_scalar(const unsigned char* src, unsigned char* de
 				if(es[i] != '\n') break;
 				i++;
 				*state = YDEC_STATE_CRLF;
-				if(i >= 0) return 0;
+				if(i >= 0) return p - dest;
 				// Else fall-thru
 			case YDEC_STATE_CRLF:
 				// skip past first dot
-- 
2.43.0


From 23c579b8f8688fff6c5f6af228edc03582744859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:14 +0000
Subject: [PATCH 17/27] fix: line size and column were narrowed to 32 bits
 before being checked, accepting invalid values

---
 src/yencode.cc | 37 ++++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/src/yencode.cc b/src/yencode.cc
index 276d4ad..9ae7836 100644
--- a/src/yencode.cc
+++ b/src/yencode.cc
@@ -4,6 +4,7 @@
 #include <node_version.h>
 #include <v8.h>
 #include <stdlib.h>
+#include <limits.h>
 #include <string.h>
 
 #include "encoder.h"
@@ -114,14 +115,16 @@ FUNC(Encode) {
 	
 	int line_size = 128, col = 0;
 	if (args.Length() >= 2) {
-		line_size = (int)ARG_TO_INT(args[1]);
-		if (line_size == 0) line_size = 128; // allow this case
-		if (line_size < 0)
+		int64_t arg_line = ARG_TO_INT(args[1]);
+		if (arg_line == 0) arg_line = 128; // allow this case
+		if (arg_line < 0 || arg_line > INT_MAX) // check before narrowing
 			RETURN_ERROR("Line size must be at least 1 byte");
+		line_size = (int)arg_line;
 		if (args.Length() >= 3) {
-			col = (int)ARG_TO_INT(args[2]);
-			if (col > line_size || col < 0)
+			int64_t arg_col = ARG_TO_INT(args[2]);
+			if (arg_col > line_size || arg_col < 0)
 				RETURN_ERROR("Column offset cannot exceed the line size and cannot be negative");
+			col = (int)arg_col;
 			if (col == line_size) col = 0; // allow this case
 		}
 	}
@@ -148,14 +151,16 @@ FUNC(EncodeTo) {
 	
 	int line_size = 128, col = 0;
 	if (args.Length() >= 3) {
-		line_size = (int)ARG_TO_INT(args[2]);
-		if (line_size == 0) line_size = 128; // allow this case
-		if (line_size < 0)
+		int64_t arg_line = ARG_TO_INT(args[2]);
+		if (arg_line == 0) arg_line = 128; // allow this case
+		if (arg_line < 0 || arg_line > INT_MAX) // check before narrowing
 			RETURN_ERROR("Line size must be at least 1 byte");
+		line_size = (int)arg_line;
 		if (args.Length() >= 4) {
-			col = (int)ARG_TO_INT(args[3]);
-			if (col > line_size || col < 0)
+			int64_t arg_col = ARG_TO_INT(args[3]);
+			if (arg_col > line_size || arg_col < 0)
 				RETURN_ERROR("Column offset cannot exceed the line size and cannot be negative");
+			col = (int)arg_col;
 			if (col == line_size) col = 0; // allow this case
 		}
 	}
@@ -188,16 +193,18 @@ FUNC(EncodeIncr) {
 			argp++;
 		}
 		if (args.Length() > argp) {
-			line_size = (int)ARG_TO_INT(args[argp]);
-			if (line_size == 0) line_size = 128; // allow this case
-			if (line_size < 0)
+			int64_t arg_line = ARG_TO_INT(args[argp]);
+			if (arg_line == 0) arg_line = 128; // allow this case
+			if (arg_line < 0 || arg_line > INT_MAX) // check before narrowing
 				RETURN_ERROR("Line size must be at least 1 byte");
+			line_size = (int)arg_line;
 			argp++;
 			if (args.Length() > argp) {
-				col = (int)ARG_TO_INT(args[argp]);
+				int64_t arg_col = ARG_TO_INT(args[argp]);
 				// if the previous call filled the line (an escape sequence can exceed it by one), this call starts with a newline
-				if (col > line_size+1 || col < 0)
+				if (arg_col > arg_line+1 || arg_col > INT_MAX || arg_col < 0)
 					RETURN_ERROR("Column offset cannot exceed the line size and cannot be negative");
+				col = (int)arg_col;
 			}
 		}
 		// check that destination buffer has enough space (this depends on the line size)
-- 
2.43.0


From 774bcaa5cc65ee72e834f43d2c94381280dc35b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:48 +0000
Subject: [PATCH 18/27] fix: names could still break header lines if the
 encoding turns a character into CR, LF or NUL

---
 index.js | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/index.js b/index.js
index 6276a9e..3ff4003 100644
--- a/index.js
+++ b/index.js
@@ -9,6 +9,13 @@ var nl = toBuffer([13, 10]);
 var RE_BADCHAR = /[\r\n\0]/g;
 var RE_YPROP = /([a-z_][a-z_0-9]*)=/;
 var RE_NUMBER = /^\d+$/;
+
+var encodeName = function(filename) {
+	filename = toBuffer(filename.replace(RE_BADCHAR, '').substring(0, 256), module.exports.encoding);
+	// a single byte encoding maps characters it lacks to other bytes, which can be CR, LF or NUL
+	return toBuffer(filename.toString('binary').replace(RE_BADCHAR, ''), 'binary');
+};
+
 var decodePrev = ['\r\n', '=', '\r', '', '\r\n.', '\r\n.\r', '\r\n='];
 
 var DecoderError = function(code, message) {
@@ -208,7 +215,7 @@ module.exports = {
 		
 		if(!Buffer.isBuffer(data)) data = toBuffer(data);
 		
-		filename = toBuffer(filename.replace(RE_BADCHAR, '').substring(0, 256), module.exports.encoding);
+		filename = encodeName(filename);
 		return Buffer.concat([
 			toBuffer('=ybegin line='+line_size+' size='+data.length+' name='),
 			filename, nl,
@@ -373,7 +380,7 @@ function YEncoder(filename, size, parts, line_size) {
 	this.pos = 0;
 	this.crc = toBuffer([0,0,0,0]);
 	
-	filename = toBuffer(filename.replace(RE_BADCHAR, '').substring(0, 256), module.exports.encoding);
+	filename = encodeName(filename);
 	if(parts > 1) {
 		this.yInfo = Buffer.concat([
 			toBuffer(' total='+parts+' line='+line_size+' size='+size+' name='),
-- 
2.43.0


From bf5193632237f3addb00d75f71462fe4e2bb7717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:52 +0000
Subject: [PATCH 19/27] fix: decode() and decodeChunk() returned an unusable
 (detached) Buffer if nothing was decoded

---
 src/yencode.cc | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/yencode.cc b/src/yencode.cc
index 9ae7836..36cdec6 100644
--- a/src/yencode.cc
+++ b/src/yencode.cc
@@ -255,6 +255,10 @@ FUNC(Decode) {
 	
 	unsigned char *result = (unsigned char*) malloc(arg_len);
 	size_t len = decode(isRaw, (const unsigned char*)node::Buffer::Data(args[0]), result, arg_len, NULL);
+	if (len == 0) { // an empty external buffer would be considered to be detached
+		free(result);
+		RETURN_VAL( NEW_BUFFER(0) );
+	}
 	result = (unsigned char*)realloc(result, len);
 	MARK_EXT_MEM(len);
 	RETURN_VAL( NEW_BUFFER((char*)result, len, free_buffer, (void*)len) );
@@ -319,7 +323,13 @@ FUNC(DecodeIncr) {
 	unsigned char* dp = result;
 	YencDecoderEnd ended = RapidYenc::decode_end((const void**)&sp, (void**)&dp, arg_len, &state);
 	size_t len = dp - result;
-	if(allocResult) result = (unsigned char*)realloc(result, len);
+	if(allocResult) {
+		if(len == 0) { // an empty external buffer would be considered to be detached
+			free(result);
+			result = NULL;
+		} else
+			result = (unsigned char*)realloc(result, len);
+	}
 	
 #ifdef DBG_ALIGN_SOURCE
 	free(newSrc);
@@ -329,7 +339,10 @@ FUNC(DecodeIncr) {
 	SET_OBJ(ret, "read", Number::New(ISOLATE (double)(sp - src)));
 	SET_OBJ(ret, "written", Number::New(ISOLATE (double)len));
 	if(allocResult) {
-		SET_OBJ(ret, "output", NEW_BUFFER((char*)result, len, free_buffer, (void*)len));
+		if(len == 0)
+			SET_OBJ(ret, "output", NEW_BUFFER(0));
+		else
+			SET_OBJ(ret, "output", NEW_BUFFER((char*)result, len, free_buffer, (void*)len));
 		MARK_EXT_MEM(len);
 	}
 	SET_OBJ(ret, "ended", Integer::New(ISOLATE (int)ended));
-- 
2.43.0


From c8aafafb06b82683845f1acbff47fe00849c8a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:52 +0000
Subject: [PATCH 20/27] fix: decodeChunk() accepted empty values that aren't
 Buffers

---
 index.js | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/index.js b/index.js
index 3ff4003..4a07610 100644
--- a/index.js
+++ b/index.js
@@ -159,13 +159,16 @@ module.exports = {
 		if(Buffer.isBuffer(prev)) prev = prev.toString();
 		prev = prev.slice(-4); // only care about the last 4 chars of previous state
 		if(prev == '\r\n.=') prev = '\r\n='; // aliased after dot stripped
-		if(data.length == 0) return {
-			read: 0,
-			written: 0,
-			output: output || toBuffer([]),
-			ended: false,
-			state: prev
-		};
+		if(data.length == 0) {
+			y.decodeIncr(data, 0); // rejects anything that isn't a Buffer
+			return {
+				read: 0,
+				written: 0,
+				output: output || toBuffer([]),
+				ended: false,
+				state: prev
+			};
+		}
 		state = decodePrev.indexOf(prev);
 		if(state < 0) {
 			for(var l=-3; l<0; l++) {
-- 
2.43.0


From 51dec9e5bbb1a246aa95f6ebf74884b0841fe498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:25 +0000
Subject: [PATCH 21/27] fix: from_post didn't find lines located beyond 2GB

---
 index.js | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/index.js b/index.js
index 4a07610..54a11e1 100644
--- a/index.js
+++ b/index.js
@@ -30,10 +30,16 @@ var DecoderWarning = function(code, message) {
 }
 DecoderWarning.prototype = { toString: function() { return this.message; } };
 
+// Node's indexOf and lastIndexOf can't deal with positions beyond 2GB, so search in (overlapping) sections
+var FIND_SECTION = 0x40000000, FIND_OVERLAP = 64; // must exceed the size of any string searched for
 var bufferFind, bufferFindRev;
 if(Buffer.prototype.indexOf)
 	bufferFind = function(buf, search, start) {
-		return buf.indexOf(search, start, module.exports.encoding);
+		for(var i = start || 0; i < buf.length; i += FIND_SECTION - FIND_OVERLAP) {
+			var p = bufferSlice.call(buf, i, i+FIND_SECTION).indexOf(search, 0, module.exports.encoding);
+			if(p >= 0) return i+p;
+		}
+		return -1;
 	};
 else
 	bufferFind = function(buf, search, start) {
@@ -57,7 +63,12 @@ else
 	};
 if(Buffer.prototype.lastIndexOf)
 	bufferFindRev = function(buf, search) {
-		return buf.lastIndexOf(search, -1, module.exports.encoding);
+		for(var i = buf.length; i > 0; i -= FIND_SECTION - FIND_OVERLAP) {
+			var start = Math.max(0, i-FIND_SECTION);
+			var p = bufferSlice.call(buf, start, i).lastIndexOf(search, -1, module.exports.encoding);
+			if(p >= 0) return start+p;
+		}
+		return -1;
 	};
 else
 	bufferFindRev = function(buf, search) {
-- 
2.43.0


From d6e2a5369490d86b94fbb8cb4bc8ad981e99311d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:55 +0000
Subject: [PATCH 22/27] fix: CRLF overwritten on big-endian CPUs by a line's
 first character above 255 before wrapping

---
 src/common.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common.h b/src/common.h
index 37dcaef..91e659f 100644
--- a/src/common.h
+++ b/src/common.h
@@ -107,7 +107,7 @@
 // combine two 8-bit ints into a 16-bit one
 #if __BYTE_ORDER__ == __ORDER_BIG_ENDIAN__
 #define UINT16_PACK(a, b) (((a) << 8) | (b))
-#define UINT32_PACK(a, b, c, d) (((a) << 24) | ((b) << 16) | ((c) << 8) | (d))
+#define UINT32_PACK(a, b, c, d) (((a) << 24) | ((b) << 16) | (((c) & 0xff) << 8) | (d))
 #define UINT32_16_PACK(a, b) (((a) << 16) | (b))
 #else
 #define UINT16_PACK(a, b) ((a) | ((b) << 8))
-- 
2.43.0


From cdf030cf269087bb516358362c1fe37dbb1865a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:55 +0000
Subject: [PATCH 23/27] fix: unaligned multi-word loads in the AArch32 CRC of 8
 to 15 bytes

---
 src/crc_arm.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crc_arm.cc b/src/crc_arm.cc
index 6eb6815..7cc663b 100644
--- a/src/crc_arm.cc
+++ b/src/crc_arm.cc
@@ -96,7 +96,7 @@ static uint32_t crc32_multiply_arm(uint32_t a, uint32_t b) {
 static uint32_t arm_crc_calc(uint32_t crc, const unsigned char *src, long len) {
 	
 	// initial alignment
-	if (len >= 16) { // 16 is an arbitrary number; it just needs to be >=8
+	if (len >= 8) { // at least 8, so that the alignment steps have enough; no more, as several words must not be read from an unaligned address
 		if ((uintptr_t)src & sizeof(uint8_t)) {
 			crc = __crc32b(crc, *src);
 			src++;
-- 
2.43.0


From 14852a14cca4d2e02cfcda608a9b0257c2838c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:18 +0000
Subject: [PATCH 24/27] fix: RVV decoding of runs of '=' with vectors of 512
 bits or more

---
 src/decoder_rvv.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/decoder_rvv.cc b/src/decoder_rvv.cc
index d2315ff..aa5a1cb 100644
--- a/src/decoder_rvv.cc
+++ b/src/decoder_rvv.cc
@@ -31,10 +31,11 @@ static inline vbool4_t mask_lshift(vbool4_t m, unsigned shiftIn, size_t vl) {
 }
 template<int shift>
 static inline vbool64_t mask_lshift(vbool64_t m, unsigned shiftIn, size_t vl) {
+	size_t bytes = (vl+7)/8; // there may be less than 8 elements
 	vuint8m1_t mv = RV_VEC_CAST(64, 8, m);
-	vuint8m1_t mvl = RV(vsll_vx_u8m1)(mv, shift, vl/8);
-	vuint8m1_t mvr = RV(vsrl_vx_u8m1)(mv, 8-shift, vl/8);
-	mvr = RV(vslide1up_vx_u8m1)(mvr, shiftIn, vl/8);
+	vuint8m1_t mvl = RV(vsll_vx_u8m1)(mv, shift, bytes);
+	vuint8m1_t mvr = RV(vsrl_vx_u8m1)(mv, 8-shift, bytes);
+	mvr = RV(vslide1up_vx_u8m1)(mvr, shiftIn, bytes);
 	
 	return RV(vmor_mm_b64)(
 		RV_MASK_CAST(64, 8, mvl), RV_MASK_CAST(64, 8, mvr), vl
@@ -226,9 +227,9 @@ HEDLEY_ALWAYS_INLINE void do_decode_rvv(const uint8_t* src, long& len, unsigned
 					unsigned vl64 = vl2/64;
 					vbool64_t carry = RV(vmadc_vv_u64m1_b64)(cmpEq64, evenStart64, vl64);
 					carry = mask_lshift<1>(carry, 0, vl64);
-					oddGroups64 = RV(vadd_vv_u64m1)(cmpEq64, evenStart64, 1);
+					oddGroups64 = RV(vadd_vv_u64m1)(cmpEq64, evenStart64, vl64);
 					while(RV(vcpop_m_b64)(carry, vl64)) {
-						vbool64_t nextCarry = RV(vmadc_vx_u64m1_b64)(oddGroups64, 1, vl64);
+						vbool64_t nextCarry = RV(vmand_mm_b64)(RV(vmadc_vx_u64m1_b64)(oddGroups64, 1, vl64), carry, vl64);
 						oddGroups64 = RV(vadd_vx_u64m1_mu)(carry, oddGroups64, oddGroups64, 1, vl64);
 						carry = mask_lshift<1>(nextCarry, 0, vl64);
 					}
-- 
2.43.0


From 767a0bbe28e0f5ce3035adff4940bd1a0a0d7f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:35 +0000
Subject: [PATCH 25/27] fix: from_post took quadratic time on long words in
 header and trailer lines

---
 index.js | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/index.js b/index.js
index 54a11e1..3b67867 100644
--- a/index.js
+++ b/index.js
@@ -7,7 +7,7 @@ var bufferSlice = Buffer.prototype.readBigInt64BE ? Buffer.prototype.subarray :
 
 var nl = toBuffer([13, 10]);
 var RE_BADCHAR = /[\r\n\0]/g;
-var RE_YPROP = /([a-z_][a-z_0-9]*)=/;
+var RE_YPROP = /(?:^|[^a-z_0-9])[0-9]*([a-z_][a-z_0-9]*)=/; // must not retry at every character of a long word
 var RE_NUMBER = /^\d+$/;
 
 var encodeName = function(filename) {
@@ -112,11 +112,12 @@ var decoderParseLines = function(lines, ydata) {
 		// parse props
 		var m = line.match(RE_YPROP);
 		while(m) {
-			if(m.index != 0) {
-				warnings.push(DecoderWarning('ignored_line_data', 'Unknown additional data ignored: "' + line.substring(0, m.index) + '"'));
-			}
 			var prop = m[1], val;
 			var valPos = m.index + m[0].length;
+			var propPos = valPos - prop.length - 1;
+			if(propPos != 0) {
+				warnings.push(DecoderWarning('ignored_line_data', 'Unknown additional data ignored: "' + line.substring(0, propPos) + '"'));
+			}
 			if(tag == 'begin' && prop == 'name') {
 				// special treatment of filename - the value is the rest of the line (can include spaces)
 				val = line.substring(valPos);
-- 
2.43.0


From ca3555e81cb4cd3f09fdf7158879f0add4d0f556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:14 +0000
Subject: [PATCH 26/27] fix: raise an Error when no memory can be allocated for
 a result, rather than crash

---
 src/yencode.cc | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/yencode.cc b/src/yencode.cc
index 36cdec6..b5947aa 100644
--- a/src/yencode.cc
+++ b/src/yencode.cc
@@ -102,6 +102,12 @@ static inline size_t YENC_MAX_SIZE(size_t len, size_t line_size) {
 #endif
 
 
+// returns memory that isn't needed; if that fails, the whole allocation is kept
+static inline unsigned char* shrink_buffer(unsigned char* data, size_t len) {
+	unsigned char* ret = (unsigned char*)realloc(data, len);
+	return ret ? ret : data;
+}
+
 // encode(str, line_size, col)
 FUNC(Encode) {
 	FUNC_START;
@@ -133,8 +139,10 @@ FUNC(Encode) {
 	size_t dest_len = YENC_MAX_SIZE(arg_len, line_size);
 	
 	unsigned char *result = (unsigned char*) malloc(dest_len);
+	if(!result)
+		RETURN_ERROR("Out of memory");
 	size_t len = encode(line_size, &col, (const unsigned char*)node::Buffer::Data(args[0]), result, arg_len, true);
-	result = (unsigned char*)realloc(result, len);
+	result = shrink_buffer(result, len);
 	MARK_EXT_MEM(len);
 	RETURN_VAL( NEW_BUFFER((char*)result, len, free_buffer, (void*)len) );
 }
@@ -225,13 +233,15 @@ FUNC(EncodeIncr) {
 		// allocate enough memory to handle worst case requirements
 		size_t dest_len = YENC_MAX_SIZE(arg_len, line_size);
 		result = (unsigned char*) malloc(dest_len);
+		if(!result)
+			RETURN_ERROR("Out of memory");
 	}
 	
 	size_t len = encode(line_size, &col, (const unsigned char*)node::Buffer::Data(args[0]), result, arg_len, false);
 	
 	SET_OBJ(ret, "written", Number::New(ISOLATE (double)len));
 	if(allocResult) {
-		result = (unsigned char*)realloc(result, len);
+		result = shrink_buffer(result, len);
 		SET_OBJ(ret, "output", NEW_BUFFER((char*)result, len, free_buffer, (void*)len));
 		MARK_EXT_MEM(len);
 	}
@@ -254,12 +264,14 @@ FUNC(Decode) {
 		isRaw = ARG_TO_BOOL(args[1]);
 	
 	unsigned char *result = (unsigned char*) malloc(arg_len);
+	if(!result)
+		RETURN_ERROR("Out of memory");
 	size_t len = decode(isRaw, (const unsigned char*)node::Buffer::Data(args[0]), result, arg_len, NULL);
 	if (len == 0) { // an empty external buffer would be considered to be detached
 		free(result);
 		RETURN_VAL( NEW_BUFFER(0) );
 	}
-	result = (unsigned char*)realloc(result, len);
+	result = shrink_buffer(result, len);
 	MARK_EXT_MEM(len);
 	RETURN_VAL( NEW_BUFFER((char*)result, len, free_buffer, (void*)len) );
 }
@@ -319,7 +331,11 @@ FUNC(DecodeIncr) {
 	sp = (const unsigned char*)newSrc;
 #endif
 	
-	if(allocResult) result = (unsigned char*) malloc(arg_len);
+	if(allocResult) {
+		result = (unsigned char*) malloc(arg_len);
+		if(!result)
+			RETURN_ERROR("Out of memory");
+	}
 	unsigned char* dp = result;
 	YencDecoderEnd ended = RapidYenc::decode_end((const void**)&sp, (void**)&dp, arg_len, &state);
 	size_t len = dp - result;
@@ -328,7 +344,7 @@ FUNC(DecodeIncr) {
 			free(result);
 			result = NULL;
 		} else
-			result = (unsigned char*)realloc(result, len);
+			result = shrink_buffer(result, len);
 	}
 	
 #ifdef DBG_ALIGN_SOURCE
-- 
2.43.0


From ce3b9cdd74c68f2761fefd13b490ee221066fe33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:01 +0000
Subject: [PATCH 27/27] fix: leave a multi_post encoder unchanged if encoding a
 part fails

---
 index.js | 40 ++++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/index.js b/index.js
index 3b67867..3baed3c 100644
--- a/index.js
+++ b/index.js
@@ -425,26 +425,28 @@ YEncoder.prototype = {
 			throw new Error('Exceeded total file size');
 		if(part == this.parts && end != this.size)
 			throw new Error('File size doesn\'t match total data length');
-		this.part = part;
 		
-		var yInfo = this.yInfo;
 		var crc = y.crc32(data), fullCrc = '';
-		this.crc = y.crc32_combine(this.crc, crc, data.length);
-		if(this.part == this.parts) {
+		var combinedCrc = y.crc32_combine(this.crc, crc, data.length);
+		if(part == this.parts) {
 			// final part treated slightly differently
-			fullCrc = ' crc32='+this.crc.toString('hex');
-			this.yInfo = null;
+			fullCrc = ' crc32='+combinedCrc.toString('hex');
 		}
 		
 		var ret = Buffer.concat([
-			toBuffer('=ybegin part='+this.part),
-			yInfo,
+			toBuffer('=ybegin part='+part),
+			this.yInfo,
 			toBuffer('=ypart begin='+( this.pos+1 )+' end='+end+'\r\n'),
 			y.encode(data, this.line_size),
-			toBuffer('\r\n=yend size='+data.length+' part='+this.part+' pcrc32='+crc.toString('hex')+fullCrc)
+			toBuffer('\r\n=yend size='+data.length+' part='+part+' pcrc32='+crc.toString('hex')+fullCrc)
 		]);
 		
+		// encoding can fail as well, so only change anything once it's done
+		this.part = part;
 		this.pos = end;
+		this.crc = combinedCrc;
+		if(part == this.parts)
+			this.yInfo = null;
 		return ret;
 	},
 	
@@ -453,18 +455,20 @@ YEncoder.prototype = {
 		
 		if(this.size != data.length)
 			throw new Error('File size doesn\'t match total data length');
-		this.encode = singleEncodeError;
 		
+		var crc = y.crc32(data);
+		var ret = Buffer.concat([
+			this.yInfo,
+			y.encode(data, this.line_size),
+			toBuffer('\r\n=yend size='+data.length+' crc32=' + crc.toString('hex'))
+		]);
+		
+		// encoding can fail as well, so only change anything once it's done
+		this.encode = singleEncodeError;
 		this.part = 1;
 		this.pos = data.length;
-		this.crc = y.crc32(data);
-		
-		var yInfo = this.yInfo;
+		this.crc = crc;
 		this.yInfo = null;
-		return Buffer.concat([
-			yInfo,
-			y.encode(data, this.line_size),
-			toBuffer('\r\n=yend size='+data.length+' crc32=' + this.crc.toString('hex'))
-		]);
+		return ret;
 	}
 };
-- 
2.43.0

