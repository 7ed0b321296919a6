From c8872db39f6c67539dfeb67abb9946a47ee0708a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:01 +0000
Subject: [PATCH 001/227] fix: uuencode output must not depend on how the input
 stream fragments its reads

A short read produced a short line in the middle of the data, and a
maximum line length of 0 or 1 overran the input buffer or looped forever.
---
 src/vmime/utility/encoder/uuEncoder.cpp | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/vmime/utility/encoder/uuEncoder.cpp b/src/vmime/utility/encoder/uuEncoder.cpp
index 24dcdc8..eff292d 100644
--- a/src/vmime/utility/encoder/uuEncoder.cpp
+++ b/src/vmime/utility/encoder/uuEncoder.cpp
@@ -75,8 +75,10 @@ size_t uuEncoder::encode(
 	const string propFilename = getProperties().getProperty <string>("filename", "");
 	const string propMode = getProperties().getProperty <string>("mode", "644");
 
-	const size_t maxLineLength =
-		std::min(getProperties().getProperty <size_t>("maxlinelength", 46), static_cast <size_t>(46));
+	const size_t maxLineLength = std::max(
+		std::min(getProperties().getProperty <size_t>("maxlinelength", 46), static_cast <size_t>(46)),
+		static_cast <size_t>(2)
+	);
 
 	size_t total = 0;
 	size_t inTotal = 0;
@@ -105,7 +107,23 @@ size_t uuEncoder::encode(
 		// Process up to 45 characters per line
 		std::fill(inBuffer, inBuffer + sizeof(inBuffer), 0);
 
-		const size_t inLength = in.read(inBuffer, maxLineLength - 1);
+		size_t inLength = 0;
+
+		// A single read may return less data than requested
+		while (inLength < maxLineLength - 1) {
+
+			const size_t read = in.read(inBuffer + inLength, maxLineLength - 1 - inLength);
+
+			if (read == 0) {
+				break;
+			}
+
+			inLength += read;
+		}
+
+		if (inLength == 0) {
+			break;
+		}
 
 		outBuffer[0] = UUENCODE(static_cast <unsigned int>(inLength)); // Line length
 
-- 
2.43.0


From 432a0a2f8852a0e3dfe114a29076dabf0532d29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:24 +0000
Subject: [PATCH 002/227] fix: uuencode decoder must decode partial groups and
 stay within its buffers

The number of characters of a line was rounded down, so any data whose length
is not a multiple of 3 was decoded wrongly; a line starting with 'b' which is
not a prelude made the remaining length wrap around and overran the buffer.
---
 src/vmime/utility/encoder/uuEncoder.cpp | 55 +++++++++++++++----------
 1 file changed, 33 insertions(+), 22 deletions(-)

diff --git a/src/vmime/utility/encoder/uuEncoder.cpp b/src/vmime/utility/encoder/uuEncoder.cpp
index eff292d..25d015e 100644
--- a/src/vmime/utility/encoder/uuEncoder.cpp
+++ b/src/vmime/utility/encoder/uuEncoder.cpp
@@ -64,6 +64,27 @@ static inline unsigned int UUDECODE(const unsigned int c) {
 }
 
 
+// Read exactly 'count' bytes, unless end of data is reached: a single
+// read may return less data than requested
+static size_t readFully(utility::inputStream& in, byte_t* const data, const size_t count) {
+
+	size_t total = 0;
+
+	while (total < count) {
+
+		const size_t read = in.read(data + total, count - total);
+
+		if (read == 0) {
+			break;
+		}
+
+		total += read;
+	}
+
+	return total;
+}
+
+
 size_t uuEncoder::encode(
 	utility::inputStream& in,
 	utility::outputStream& out,
@@ -107,19 +128,7 @@ size_t uuEncoder::encode(
 		// Process up to 45 characters per line
 		std::fill(inBuffer, inBuffer + sizeof(inBuffer), 0);
 
-		size_t inLength = 0;
-
-		// A single read may return less data than requested
-		while (inLength < maxLineLength - 1) {
-
-			const size_t read = in.read(inBuffer + inLength, maxLineLength - 1 - inLength);
-
-			if (read == 0) {
-				break;
-			}
-
-			inLength += read;
-		}
+		const size_t inLength = readFully(in, inBuffer, maxLineLength - 1);
 
 		if (inLength == 0) {
 			break;
@@ -173,9 +182,9 @@ size_t uuEncoder::decode(
 
 	in.reset();  // may not work...
 
-	// Process the data
-	byte_t inBuffer[64];
-	byte_t outBuffer[64];
+	// Process the data (a line holds at most 63 bytes, that is 84 characters)
+	byte_t inBuffer[84];
+	byte_t outBuffer[63];
 
 	size_t total = 0;
 	size_t inTotal = 0;
@@ -198,7 +207,7 @@ size_t uuEncoder::decode(
 		}
 
 		const size_t outLength = UUDECODE(lengthChar);
-		const size_t inLength = std::min((outLength * 4) / 3, static_cast <size_t>(64));
+		const size_t inLength = ((outLength + 2) / 3) * 4;
 		size_t inPos = 0;
 
 		switch (lengthChar) {
@@ -214,7 +223,7 @@ size_t uuEncoder::decode(
 			case 'b': {
 
 				// Read 5 characters more to check for begin ("begin ...\r\n" or "begin ...\n")
-				inPos = in.read(inBuffer, 5);
+				inPos = readFully(in, inBuffer, 5);
 
 				if (inPos == 5 &&
 				    inBuffer[0] == 'e' &&
@@ -290,7 +299,7 @@ size_t uuEncoder::decode(
 			case 'e': {
 
 				// Read 3 characters more to check for end ("end\r\n" or "end\n")
-				inPos = in.read(inBuffer, 3);
+				inPos = readFully(in, inBuffer, 3);
 
 				if (inPos == 3 &&
 				    inBuffer[0] == 'n' &&
@@ -308,8 +317,10 @@ size_t uuEncoder::decode(
 		}
 
 		// Read encoded data
-		if (in.read(inBuffer + inPos, inLength - inPos) != inLength - inPos) {
-			// Premature end of data
+		if (inPos > inLength ||
+		    readFully(in, inBuffer + inPos, inLength - inPos) != inLength - inPos) {
+
+			// Malformed line or premature end of data
 			break;
 		}
 
@@ -323,7 +334,7 @@ size_t uuEncoder::decode(
 			const byte_t c3 = inBuffer[i + 2];
 			const byte_t c4 = inBuffer[i + 3];
 
-			const size_t n = std::min(inLength - i, static_cast <size_t>(3));
+			const size_t n = std::min(outLength - j, static_cast <size_t>(3));
 
 			if (n >= 3) {
 				outBuffer[j + 2] = static_cast <byte_t>(UUDECODE(c3) << 6 | UUDECODE(c4));
-- 
2.43.0


From de809747b46d4a3fd80c5fefc6bc9e9224b58849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:24 +0000
Subject: [PATCH 003/227] fix: read back only the mode and the file name from
 the uuencode prelude

---
 src/vmime/utility/encoder/uuEncoder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vmime/utility/encoder/uuEncoder.cpp b/src/vmime/utility/encoder/uuEncoder.cpp
index 25d015e..c0f21b1 100644
--- a/src/vmime/utility/encoder/uuEncoder.cpp
+++ b/src/vmime/utility/encoder/uuEncoder.cpp
@@ -270,7 +270,7 @@ size_t uuEncoder::decode(
 
 						while (*p && parserHelpers::isSpace(*p)) ++p;
 
-						byte_t* modeStart = buffer;
+						byte_t* modeStart = p;
 
 						while (*p && !parserHelpers::isSpace(*p)) ++p;
 
@@ -278,7 +278,7 @@ size_t uuEncoder::decode(
 
 						while (*p && parserHelpers::isSpace(*p)) ++p;
 
-						byte_t* filenameStart = buffer;
+						byte_t* filenameStart = p;
 
 						while (*p && !(*p == '\r' || *p == '\n')) ++p;
 
-- 
2.43.0


From 9aeaf787314732aa6f7bd403546e1a59a12d5062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:41 +0000
Subject: [PATCH 004/227] fix: quoted-printable soft line break must not split
 a CRLF sequence in text mode

---
 src/vmime/utility/encoder/qpEncoder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vmime/utility/encoder/qpEncoder.cpp b/src/vmime/utility/encoder/qpEncoder.cpp
index 4aeb640..997c446 100644
--- a/src/vmime/utility/encoder/qpEncoder.cpp
+++ b/src/vmime/utility/encoder/qpEncoder.cpp
@@ -343,8 +343,8 @@ size_t qpEncoder::encode(
 
 			} // switch (c)
 
-			// Soft line break : "=\r\n"
-			if (cutLines && curCol >= maxLineLength - 1) {
+			// Soft line break : "=\r\n" (never between the CR and the LF of a line break)
+			if (cutLines && curCol >= maxLineLength - 1 && !(text && c == '\r')) {
 
 				outBuffer[outBufferPos] = '=';
 				outBuffer[outBufferPos + 1] = '\r';
-- 
2.43.0


From 057a355bd6cdb9603770a6e310a9c1fcf089f682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:40 +0000
Subject: [PATCH 005/227] fix: encoded size estimates must be upper bounds of
 the encoded size

Line breaks were underestimated by the base64, quoted-printable and uuencode
encoders (and a maximum line length of 0 divided by zero).
---
 src/vmime/utility/encoder/b64Encoder.cpp | 16 +++++++++++++---
 src/vmime/utility/encoder/qpEncoder.cpp  | 13 +++++++++++--
 src/vmime/utility/encoder/uuEncoder.cpp  | 18 +++++++++++++++---
 3 files changed, 39 insertions(+), 8 deletions(-)

diff --git a/src/vmime/utility/encoder/b64Encoder.cpp b/src/vmime/utility/encoder/b64Encoder.cpp
index ef4e581..843164d 100644
--- a/src/vmime/utility/encoder/b64Encoder.cpp
+++ b/src/vmime/utility/encoder/b64Encoder.cpp
@@ -332,9 +332,19 @@ size_t b64Encoder::getEncodedSize(const size_t n) const {
 	const bool cutLines = (propMaxLineLength != static_cast <size_t>(-1));
 	const size_t maxLineLength = std::min(propMaxLineLength, static_cast <size_t>(76));
 
-	return (n * 4) / 3                               // 3 bytes of input provide 4 bytes of output
-		 + (cutLines ? (n / maxLineLength) * 2 : 0)  // CRLF (2 bytes) for each line.
-		 + 4;                                        // padding
+	// 3 bytes of input provide 4 bytes of output (the last group is padded)
+	const size_t encodedSize = ((n + 2) / 3) * 4;
+
+	if (!cutLines) {
+		return encodedSize;
+	}
+
+	// Count CRLF (2 bytes) for each line: a line holds at least 4 bytes, and
+	// is ended when CRLF and the next 4 bytes do not fit anymore
+	const size_t minLineLength =
+		maxLineLength > 10 ? maxLineLength - 6 : static_cast <size_t>(4);
+
+	return encodedSize + (encodedSize / minLineLength) * 2;
 }
 
 
diff --git a/src/vmime/utility/encoder/qpEncoder.cpp b/src/vmime/utility/encoder/qpEncoder.cpp
index 997c446..681c6d5 100644
--- a/src/vmime/utility/encoder/qpEncoder.cpp
+++ b/src/vmime/utility/encoder/qpEncoder.cpp
@@ -551,8 +551,17 @@ size_t qpEncoder::getEncodedSize(const size_t n) const {
 	const size_t maxLineLength = std::min(propMaxLineLength, static_cast <size_t>(74));
 
 	// Worst cast: 1 byte of input provide 3 bytes of output
-	// Count CRLF (2 bytes) for each line.
-	return n * 3 + (cutLines ? (n / maxLineLength) * 2 : 0);
+	const size_t encodedSize = n * 3;
+
+	if (!cutLines) {
+		return encodedSize;
+	}
+
+	// Count soft line break ("=\r\n", 3 bytes) for each line
+	const size_t minLineLength =
+		maxLineLength > 2 ? maxLineLength - 1 : static_cast <size_t>(1);
+
+	return encodedSize + (encodedSize / minLineLength) * 3;
 }
 
 
diff --git a/src/vmime/utility/encoder/uuEncoder.cpp b/src/vmime/utility/encoder/uuEncoder.cpp
index c0f21b1..09fbf7a 100644
--- a/src/vmime/utility/encoder/uuEncoder.cpp
+++ b/src/vmime/utility/encoder/uuEncoder.cpp
@@ -368,10 +368,22 @@ size_t uuEncoder::decode(
 
 size_t uuEncoder::getEncodedSize(const size_t n) const {
 
-	// 3 bytes of input provide 4 bytes of output.
-	// Count CRLF (2 bytes) for each line of 45 characters.
+	const string propFilename = getProperties().getProperty <string>("filename", "");
+	const string propMode = getProperties().getProperty <string>("mode", "644");
+
+	const size_t maxLineLength = std::max(
+		std::min(getProperties().getProperty <size_t>("maxlinelength", 46), static_cast <size_t>(46)),
+		static_cast <size_t>(2)
+	);
+
+	// Each line holds (maxLineLength - 1) bytes of input, 3 bytes of input provide
+	// 4 bytes of output. Count line length and CRLF (3 bytes) for each line.
+	const size_t lineLength = maxLineLength - 1;
+	const size_t lineCount = (n + lineLength - 1) / lineLength;
+
 	// Also reserve some space for header and footer.
-	return 200 + n * 3 + (n / 45) * 2;
+	return 50 + propMode.length() + propFilename.length()
+		+ lineCount * (((lineLength + 2) / 3) * 4 + 3);
 }
 
 
-- 
2.43.0


From 798aebcb344e00a6e095bf1d6a7796747a072b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:48 +0000
Subject: [PATCH 006/227] fix: message::clone() must return a message

---
 src/vmime/message.cpp | 10 ++++++++++
 src/vmime/message.hpp |  2 ++
 2 files changed, 12 insertions(+)

diff --git a/src/vmime/message.cpp b/src/vmime/message.cpp
index 9e6956d..d07003d 100644
--- a/src/vmime/message.cpp
+++ b/src/vmime/message.cpp
@@ -45,5 +45,15 @@ string message::generate(
 }
 
 
+shared_ptr <component> message::clone() const {
+
+	shared_ptr <message> msg = make_shared <message>();
+
+	msg->copyFrom(*this);
+
+	return msg;
+}
+
+
 } // vmime
 
diff --git a/src/vmime/message.hpp b/src/vmime/message.hpp
index 53bc095..eb5a46d 100644
--- a/src/vmime/message.hpp
+++ b/src/vmime/message.hpp
@@ -51,6 +51,8 @@ public:
 		const size_t maxLineLength = generationContext::getDefaultContext().getMaxLineLength(),
 		const size_t curLinePos = 0
 	) const;
+
+	shared_ptr <component> clone() const;
 };
 
 
-- 
2.43.0


From 8c510f39503a6a94852276fa91eb6d969324178f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:48 +0000
Subject: [PATCH 007/227] fix: body::copyFrom() must work on a body which has
 no parent part and keep the boundary

---
 src/vmime/body.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vmime/body.cpp b/src/vmime/body.cpp
index 1ba7d42..43b1c2d 100644
--- a/src/vmime/body.cpp
+++ b/src/vmime/body.cpp
@@ -817,13 +817,16 @@ void body::copyFrom(const component& other) {
 	m_prologText = bdy.m_prologText;
 	m_epilogText = bdy.m_epilogText;
 
+	m_boundary = bdy.m_boundary;
+
 	m_contents = bdy.m_contents;
 
 	removeAllParts();
 
 	for (size_t p = 0 ; p < bdy.getPartCount() ; ++p) {
 
-		shared_ptr <bodyPart> part = m_part->createChildPart();
+		shared_ptr <bodyPart> part =
+			m_part ? m_part->createChildPart() : make_shared <bodyPart>();
 
 		part->copyFrom(*bdy.getPartAt(p));
 
-- 
2.43.0


From 07407bb3693f5fda2bbce120798d0dbec64e8c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:48 +0000
Subject: [PATCH 008/227] fix: do not read past the end of the buffer when
 guessing the multipart boundary

---
 src/vmime/body.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/vmime/body.cpp b/src/vmime/body.cpp
index 43b1c2d..1d32588 100644
--- a/src/vmime/body.cpp
+++ b/src/vmime/body.cpp
@@ -196,8 +196,6 @@ void body::parseImpl(
 					const size_t bufferLen =
 						parser->read(buffer, std::min(end - pos, sizeof(buffer) / sizeof(buffer[0])));
 
-					buffer[sizeof(buffer) / sizeof(buffer[0]) - 1] = '\0';
-
 					// Skip transport padding bytes (SPACE or HTAB), if any
 					size_t boundarySkip = 0;
 
@@ -211,11 +209,15 @@ void body::parseImpl(
 					byte_t boundaryBytes[100];
 					size_t boundaryLen = 0;
 
-					for (byte_t c = buffer[boundarySkip] ;
-					     boundaryLen < bufferLen && boundaryLen < 100 && !(c == '\r' || c == '\n') ;
-					     ++boundaryLen, c = buffer[boundarySkip + boundaryLen]) {
+					while (boundarySkip + boundaryLen < bufferLen && boundaryLen < 100) {
+
+						const byte_t c = buffer[boundarySkip + boundaryLen];
+
+						if (c == '\r' || c == '\n') {
+							break;
+						}
 
-						boundaryBytes[boundaryLen] = c;
+						boundaryBytes[boundaryLen++] = c;
 					}
 
 					if (boundaryLen >= 1 && boundaryLen < 100) {
-- 
2.43.0


From e9b29e51d001449185c9a07f887f52a62c12ce55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:46 +0000
Subject: [PATCH 009/227] fix: a multipart body must not look for its boundary
 beyond its own end

---
 src/vmime/body.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vmime/body.cpp b/src/vmime/body.cpp
index 1d32588..b3ea3fb 100644
--- a/src/vmime/body.cpp
+++ b/src/vmime/body.cpp
@@ -75,8 +75,8 @@ size_t body::findNextBoundaryPosition(
 
 		pos = parser->findNext(boundary, pos);
 
-		if (pos == npos) {
-			break;  // not found
+		if (pos == npos || pos + boundary.length() > end) {
+			return npos;  // not found (in this body)
 		}
 
 		if (pos == 0) {
@@ -118,7 +118,7 @@ size_t body::findNextBoundaryPosition(
 		return pos;
 	}
 
-	return pos;
+	return npos;
 }
 
 
-- 
2.43.0


From 5925d4ceebfc8d17be09c6de0082e23a675048e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:37 +0000
Subject: [PATCH 010/227] fix: keep exactly the undecoded base64 bytes of an
 encoded word for the next one

---
 src/vmime/word.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vmime/word.cpp b/src/vmime/word.cpp
index a16b4b5..9a2e803 100644
--- a/src/vmime/word.cpp
+++ b/src/vmime/word.cpp
@@ -396,8 +396,8 @@ void word::parseWithState(
 							const size_t theoricalEncodedLen =
 								((decodedLen + ((decodedLen % 3) ? (3 - (decodedLen % 3)) : 0) ) / 3) * 4;
 
-							if (state && actualEncodedLen != theoricalEncodedLen) {
-								state->undecodedBytes.assign(dataPos + theoricalEncodedLen, dataEnd);
+							if (state && actualEncodedLen > theoricalEncodedLen) {
+								state->undecodedBytes = encodedBuffer.substr(theoricalEncodedLen);
 							}
 						}
 
-- 
2.43.0


From 503fe23cd146bc8ad652a8e7122db3f963e16575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:22 +0000
Subject: [PATCH 011/227] fix: do not prepend undecoded base64 bytes to a
 quoted-printable encoded word

---
 src/vmime/word.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vmime/word.cpp b/src/vmime/word.cpp
index 9a2e803..f7e990e 100644
--- a/src/vmime/word.cpp
+++ b/src/vmime/word.cpp
@@ -368,7 +368,10 @@ void word::parseWithState(
 
 						if (state && !state->undecodedBytes.empty()) {
 
-							encodedBuffer = state->undecodedBytes + encodedBuffer;
+							if (*encPos == 'B' || *encPos == 'b') {
+								encodedBuffer = state->undecodedBytes + encodedBuffer;
+							}
+
 							state->undecodedBytes.clear();
 						}
 
-- 
2.43.0


From 751b013a82f2cd4c8de6a920ae58e438b313f70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:35 +0000
Subject: [PATCH 012/227] fix: do not read past the end of an invalid UTF-8
 string when encoding it to IDNA

---
 src/vmime/charsetConverter_idna.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/vmime/charsetConverter_idna.cpp b/src/vmime/charsetConverter_idna.cpp
index db4e131..44fed1d 100644
--- a/src/vmime/charsetConverter_idna.cpp
+++ b/src/vmime/charsetConverter_idna.cpp
@@ -104,6 +104,16 @@ void charsetConverter_idna::convert(const string& in, string& out, status* st) {
 		string inUTF8;
 		charset::convert(in, inUTF8, m_source, vmime::charsets::UTF_8);
 
+		// The source may claim to be UTF-8 and not be
+		if (!utf8::is_valid(inUTF8)) {
+
+			if (!m_options.silentlyReplaceInvalidSequences) {
+				throw exceptions::illegal_byte_sequence_for_charset();
+			}
+
+			inUTF8 = utf8::replace_invalid(inUTF8);
+		}
+
 		const char* ch = inUTF8.c_str();
 		const char* end = inUTF8.c_str() + inUTF8.length();
 
-- 
2.43.0


From f3af9439e181d1dbcb58fa2bca993c2b375213a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:35 +0000
Subject: [PATCH 013/227] fix: leave an undecodable IDNA string as it is
 instead of emptying it

---
 src/vmime/charsetConverter_idna.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/vmime/charsetConverter_idna.cpp b/src/vmime/charsetConverter_idna.cpp
index 44fed1d..f0f7315 100644
--- a/src/vmime/charsetConverter_idna.cpp
+++ b/src/vmime/charsetConverter_idna.cpp
@@ -190,15 +190,21 @@ void charsetConverter_idna::convert(const string& in, string& out, status* st) {
 			}
 
 			string outUTF8(&outUTF8Bytes[0], p);
-			charset::convert(outUTF8, out, vmime::charsets::UTF_8, m_dest);
 
-			if (st) {
-				st->outputBytesWritten = out.length();
+			if (utf8::is_valid(outUTF8)) {
+				charset::convert(outUTF8, out, vmime::charsets::UTF_8, m_dest);
+			} else {
+				out = in;  // not an IDNA string, after all
 			}
 
 		} else {
 
-			// TODO
+			// Not an IDNA string, after all
+			out = in;
+		}
+
+		if (st) {
+			st->outputBytesWritten = out.length();
 		}
 	}
 }
-- 
2.43.0


From 3d3fa04633ca21fc3f34b1caf0bd51ea1a6eb812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:25 +0000
Subject: [PATCH 014/227] fix: no integer overflow when parsing the numbers of
 a date

---
 src/vmime/dateTime.cpp | 71 +++++++++++++++++-------------------------
 1 file changed, 29 insertions(+), 42 deletions(-)

diff --git a/src/vmime/dateTime.cpp b/src/vmime/dateTime.cpp
index 9dde881..4f37702 100644
--- a/src/vmime/dateTime.cpp
+++ b/src/vmime/dateTime.cpp
@@ -75,6 +75,28 @@ static const char* monthNames[] = {
 	"Jul", "Aug", "Sep", "Oct", "Nov", "Dec"
 };
 
+/** Parse a sequence of digits and advance after it. Values which
+  * are too large to be meaningful in a date are truncated.
+  *
+  * @param p current position (points to a digit)
+  * @param pend end position
+  * @return number read
+  */
+static int parseNumber(const char*& p, const char* const pend) {
+
+	int number = 0;
+
+	do {
+
+		number = std::min(number * 10 + (*p - '0'), 99999);
+		++p;
+
+	} while (p < pend && parserHelpers::isDigit(*p));
+
+	return number;
+}
+
+
 void datetime::parseImpl(
 	parsingContext& /* ctx */,
 	const string& buffer,
@@ -114,12 +136,7 @@ void datetime::parseImpl(
 			if (p < pend && parserHelpers::isDigit(*p)) {
 
 				// Month day
-				int day = 0;
-
-				do {
-					day = day * 10 + (*p - '0');
-					++p;
-				} while (p < pend && parserHelpers::isDigit(*p));
+				const int day = parseNumber(p, pend);
 
 				m_day = (day >= 1 && day <= 31) ? day : 1;
 
@@ -257,12 +274,7 @@ void datetime::parseImpl(
 		if (!dayParsed && p < pend && parserHelpers::isDigit(*p)) {
 
 			// Month day
-			int day = 0;
-
-			do {
-				day = day * 10 + (*p - '0');
-				++p;
-			} while (p < pend && parserHelpers::isDigit(*p));
+			const int day = parseNumber(p, pend);
 
 			m_day = (day >= 1 && day <= 31) ? day : 1;
 
@@ -282,12 +294,7 @@ void datetime::parseImpl(
 			} else {
 
 				// Year
-				int year = 0;
-
-				do {
-					year = year * 10 + (*p - '0');
-					++p;
-				} while (p < pend && parserHelpers::isDigit(*p));
+				const int year = parseNumber(p, pend);
 
 				if (year < 70)         m_year = year + 2000;
 				else if (year < 1000)  m_year = year + 1900;
@@ -309,12 +316,7 @@ void datetime::parseImpl(
 		if (p < pend && parserHelpers::isDigit(*p)) {
 
 			// Hour
-			int hour = 0;
-
-			do {
-				hour = hour * 10 + (*p - '0');
-				++p;
-			} while (p < pend && parserHelpers::isDigit(*p));
+			const int hour = parseNumber(p, pend);
 
 			m_hour = (hour >= 0 && hour <= 23) ? hour : 0;
 
@@ -329,12 +331,7 @@ void datetime::parseImpl(
 				if (p < pend && parserHelpers::isDigit(*p)) {
 
 					// Minute
-					int minute = 0;
-
-					do {
-						minute = minute * 10 + (*p - '0');
-						++p;
-					} while (p < pend && parserHelpers::isDigit(*p));
+					const int minute = parseNumber(p, pend);
 
 					m_minute = (minute >= 0 && minute <= 59) ? minute : 0;
 
@@ -349,12 +346,7 @@ void datetime::parseImpl(
 						if (p < pend && parserHelpers::isDigit(*p)) {
 
 							// Second
-							int second = 0;
-
-							do {
-								second = second * 10 + (*p - '0');
-								++p;
-							} while (p < pend && parserHelpers::isDigit(*p));
+							const int second = parseNumber(p, pend);
 
 							m_second = (second >= 0 && second <= 59) ? second : 0;
 
@@ -396,12 +388,7 @@ void datetime::parseImpl(
 			++p;
 
 			// Zone offset (in hour/minutes)
-			int offset = 0;
-
-			do {
-				offset = offset * 10 + (*p - '0');
-				++p;
-			} while (p < pend && parserHelpers::isDigit(*p));
+			const int offset = parseNumber(p, pend);
 
 			const int hourOff = offset / 100;
 			const int minOff = offset % 100;
-- 
2.43.0


From 218d5f9a9995aa322e6f9ac7fcbb7771bc3e15b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:39 +0000
Subject: [PATCH 015/227] fix: date parser must not produce a day which does
 not exist or read past its end

---
 src/vmime/dateTime.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/vmime/dateTime.cpp b/src/vmime/dateTime.cpp
index 4f37702..81a8d67 100644
--- a/src/vmime/dateTime.cpp
+++ b/src/vmime/dateTime.cpp
@@ -124,7 +124,7 @@ void datetime::parseImpl(
 
 		bool dayParsed = false;
 
-		if (parserHelpers::isAlpha(*p)) {
+		if (p < pend && parserHelpers::isAlpha(*p)) {
 
 			// Ill-formed date/time, this may be the month,
 			// so we skip day parsing (will be done later)
@@ -257,7 +257,7 @@ void datetime::parseImpl(
 
 			m_month = JANUARY;
 
-			if (parserHelpers::isDigit(*p)) {
+			if (p < pend && parserHelpers::isDigit(*p)) {
 
 				// Here, we expected a month, but it maybe
 				// a ill-formed date, so try to parse a year
@@ -557,6 +557,11 @@ void datetime::parseImpl(
 			m_zone = 0;
 		}
 
+		// The day may not exist in this month
+		if (m_day > utility::datetimeUtils::getDaysInMonth(m_year, m_month)) {
+			m_day = 1;
+		}
+
 	} else {
 
 		m_year = 1970;
-- 
2.43.0


From 0df33d7373603d128115438a0940da0d1c3822e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:39 +0000
Subject: [PATCH 016/227] fix: parsing a date must not keep fields of the date
 previously held

---
 src/vmime/dateTime.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/vmime/dateTime.cpp b/src/vmime/dateTime.cpp
index 81a8d67..f50d02f 100644
--- a/src/vmime/dateTime.cpp
+++ b/src/vmime/dateTime.cpp
@@ -108,6 +108,17 @@ void datetime::parseImpl(
 	const char* const pend = buffer.data() + end;
 	const char* p = buffer.data() + position;
 
+	// Anything which is not specified has a default value
+	m_year = 1970;
+	m_month = JANUARY;
+	m_day = 1;
+
+	m_hour = 0;
+	m_minute = 0;
+	m_second = 0;
+
+	m_zone = 0;
+
 	// Parse the date and time value
 	while (p < pend && parserHelpers::isSpace(*p)) ++p;
 
@@ -562,17 +573,6 @@ void datetime::parseImpl(
 			m_day = 1;
 		}
 
-	} else {
-
-		m_year = 1970;
-		m_month = JANUARY;
-		m_day = 1;
-
-		m_hour = 0;
-		m_minute = 0;
-		m_second = 0;
-
-		m_zone = 0;
 	}
 
 	setParsedBounds(position, end);
-- 
2.43.0


From f7dc7da9686a8b20b035ddd4c6528324f90f9893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:45 +0000
Subject: [PATCH 017/227] fix: convert dates correctly when the zone offset
 exceeds one day

---
 src/vmime/utility/datetimeUtils.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/vmime/utility/datetimeUtils.cpp b/src/vmime/utility/datetimeUtils.cpp
index b1a6c55..5ce213e 100644
--- a/src/vmime/utility/datetimeUtils.cpp
+++ b/src/vmime/utility/datetimeUtils.cpp
@@ -109,7 +109,7 @@ static inline void addHoursAndMinutes(datetime& d, const int h, const int m) {
 
 	d.setHour(d.getHour() + h);
 
-	if (d.getHour() >= 24) {
+	while (d.getHour() >= 24) {
 		d.setHour(d.getHour() - 24);
 		nextDay(d);
 	}
@@ -125,11 +125,11 @@ static inline void substractHoursAndMinutes(datetime& d, const int h, const int
 		d.setMinute(d.getMinute() - m);
 	}
 
-	if (h > d.getHour()) {
-		d.setHour(24 - (h - d.getHour()));
+	d.setHour(d.getHour() - h);
+
+	while (d.getHour() < 0) {
+		d.setHour(d.getHour() + 24);
 		prevDay(d);
-	} else {
-		d.setHour(d.getHour() - h);
 	}
 }
 
-- 
2.43.0


From 4670aba30e6f19c5a5da40cc989cbbbd411c3440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:38 +0000
Subject: [PATCH 018/227] fix: the size announced for a header field or a
 parameter must not be smaller than its real size

---
 src/vmime/headerField.cpp              |  9 +++++++-
 src/vmime/parameter.cpp                | 32 ++++----------------------
 src/vmime/parameterizedHeaderField.cpp | 12 ++--------
 3 files changed, 15 insertions(+), 38 deletions(-)

diff --git a/src/vmime/headerField.cpp b/src/vmime/headerField.cpp
index 077d3a2..f061d99 100644
--- a/src/vmime/headerField.cpp
+++ b/src/vmime/headerField.cpp
@@ -28,6 +28,8 @@
 
 #include "vmime/exception.hpp"
 
+#include "vmime/utility/outputStreamAdapter.hpp"
+
 
 namespace vmime {
 
@@ -289,7 +291,12 @@ void headerField::generateImpl(
 
 size_t headerField::getGeneratedSize(const generationContext& ctx) {
 
-	return m_name.length() + 2 /* ": " */ + m_value->getGeneratedSize(ctx);
+	std::ostringstream oss;
+	utility::outputStreamAdapter osa(oss);
+
+	generate(ctx, osa);
+
+	return oss.str().length();
 }
 
 
diff --git a/src/vmime/parameter.cpp b/src/vmime/parameter.cpp
index 5cb5b75..f09d93a 100644
--- a/src/vmime/parameter.cpp
+++ b/src/vmime/parameter.cpp
@@ -620,35 +620,13 @@ void parameter::generateImpl(
 
 size_t parameter::getGeneratedSize(const generationContext& ctx) {
 
-	const string& name = m_name;
-	const string& value = m_value->getBuffer();
-
-	const size_t bytesNeedingEncoding =
-		value.length() - utility::stringUtils::countASCIIchars(value.begin(), value.end());
-
-	const size_t valueLength = value.length();
-
-	// Compute generated length in the very worst case
-
-	// Non-encoded parameter + value (worst case: quoting + QP)
-	size_t len = name.length() + 1 /* = */ + 2 /* "" */ + 7 /* =?...?Q?...?= */
-		+ m_value->getCharset().getName().length() + valueLength + bytesNeedingEncoding * 2 + 1 /* ; */;
-
-	// Encoded parameter + value
-	const size_t maxEncodedValueLengthOnLine =
-		  ctx.getMaxLineLength() - 2 /* CRLF */ - NEW_LINE_SEQUENCE_LENGTH
-		- name.length() - 5 /* *00*= */ - 1 /* ; */;
-
-	const size_t encodedValueLength = (valueLength + bytesNeedingEncoding * 2)
-		+ m_value->getCharset().getName().length() + m_value->getLanguage().length() + 2 /* 2 x ' */;
-
-	const size_t numberOfSections = 1 /* worst case: generation starts at the end of a line */
-		+ std::max(size_t(1), encodedValueLength / maxEncodedValueLengthOnLine);
-
-	len += numberOfSections * (name.length() + 5 /* *00*= */ + 1 /* ; */ + 2 /* CRLF */ + NEW_LINE_SEQUENCE_LENGTH) + encodedValueLength;
+	string str;
+	utility::outputStreamStringAdapter os(str);
 
-	return len;
+	generate(ctx, os);
 
+	// Worst case: generation starts at the end of a line
+	return str.length() + 2 * NEW_LINE_SEQUENCE.length();
 }
 
 
diff --git a/src/vmime/parameterizedHeaderField.cpp b/src/vmime/parameterizedHeaderField.cpp
index af98495..ece3afc 100644
--- a/src/vmime/parameterizedHeaderField.cpp
+++ b/src/vmime/parameterizedHeaderField.cpp
@@ -382,16 +382,8 @@ void parameterizedHeaderField::generateImpl(
 
 size_t parameterizedHeaderField::getGeneratedSize(const generationContext& ctx)
 {
-	size_t size = headerField::getGeneratedSize(ctx);
-
-	for (std::vector <shared_ptr <parameter> >::const_iterator
-	     it = m_params.begin() ; it != m_params.end() ; ++it) {
-
-		size += 2;  // "; "
-		size += (*it)->getGeneratedSize(ctx);
-	}
-
-	return size;
+	// Parameters are generated with the field
+	return headerField::getGeneratedSize(ctx);
 }
 
 
-- 
2.43.0


From bc1f0a9aa487e62b99f22eb77ad80771c43b4a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:38 +0000
Subject: [PATCH 019/227] fix: the size announced for a multipart body must
 count its boundaries

---
 src/vmime/body.cpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/vmime/body.cpp b/src/vmime/body.cpp
index b3ea3fb..7f27607 100644
--- a/src/vmime/body.cpp
+++ b/src/vmime/body.cpp
@@ -531,11 +531,24 @@ size_t body::getGeneratedSize(const generationContext& ctx) {
 	// MIME-Multipart
 	if (getPartCount() != 0) {
 
-		size_t size = 0;
+		// Length of the boundary string (see generateImpl())
+		size_t boundaryLength = m_boundary.empty() ? 50 /* random */ : m_boundary.length();
+
+		if (m_part) {
+
+			shared_ptr <contentTypeField> ctf =
+				m_part->getHeader()->findField <contentTypeField>(fields::CONTENT_TYPE);
+
+			if (ctf && ctf->hasBoundary()) {
+				boundaryLength = ctf->getBoundary().length();
+			}
+		}
 
 		// Size of parts and boundaries
+		size_t size = 2 /* -- */ + boundaryLength + 4 /* --, CRLF */;
+
 		for (size_t p = 0 ; p < getPartCount() ; ++p) {
-			size += 100;  // boundary, CRLF...
+			size += 2 /* CRLF */ + 4 /* CRLF, -- */ + boundaryLength;
 			size += getPartAt(p)->getGeneratedSize(ctx);
 		}
 
@@ -552,7 +565,7 @@ size_t body::getGeneratedSize(const generationContext& ctx) {
 				text::FORCE_NO_ENCODING | text::NO_NEW_LINE_SEQUENCE
 			);
 
-			size += oss.str().size();
+			size += oss.str().size() + 2 /* CRLF */;
 		}
 
 		const text epilogText = getActualEpilogText(ctx);
@@ -567,7 +580,7 @@ size_t body::getGeneratedSize(const generationContext& ctx) {
 				text::FORCE_NO_ENCODING | text::NO_NEW_LINE_SEQUENCE
 			);
 
-			size += oss.str().size();
+			size += oss.str().size() + 2 /* CRLF */;
 		}
 
 		return size;
-- 
2.43.0


From 7cef3bf37853b8c471c15d7f89c45a299926af18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:08 +0000
Subject: [PATCH 020/227] fix: end position reported after parsing an email
 address

---
 src/vmime/emailAddress.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vmime/emailAddress.cpp b/src/vmime/emailAddress.cpp
index e687380..2730268 100644
--- a/src/vmime/emailAddress.cpp
+++ b/src/vmime/emailAddress.cpp
@@ -554,10 +554,10 @@ void emailAddress::parseImpl(
 		m_domainName = word(domainNameFromIDNA(domainPart.str()), vmime::charsets::UTF_8);
 	}
 
-	setParsedBounds(position, p - pend);
+	setParsedBounds(position, position + (p - pstart));
 
 	if (newPosition) {
-		*newPosition = p - pend;
+		*newPosition = position + (p - pstart);
 	}
 }
 
-- 
2.43.0


From 6d42f3e4edc896ec896a4a67c9b48b3a85e68d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:08 +0000
Subject: [PATCH 021/227] fix: parsing a mailbox group must not keep the
 mailboxes previously held

---
 src/vmime/mailboxGroup.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vmime/mailboxGroup.cpp b/src/vmime/mailboxGroup.cpp
index ff9c74f..a3bc44a 100644
--- a/src/vmime/mailboxGroup.cpp
+++ b/src/vmime/mailboxGroup.cpp
@@ -69,6 +69,8 @@ void mailboxGroup::parseImpl(
 		++p;
 	}
 
+	m_list.clear();
+
 	string name;
 
 	while (p < pend && *p != ':') {
-- 
2.43.0


From 2ac652ae2a24da033adc9ac711be023931766f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:17 +0000
Subject: [PATCH 022/227] fix: parsing a relay must not keep the parts
 previously held

---
 src/vmime/relay.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/vmime/relay.cpp b/src/vmime/relay.cpp
index f989615..9128e4e 100644
--- a/src/vmime/relay.cpp
+++ b/src/vmime/relay.cpp
@@ -69,6 +69,14 @@ void relay::parseImpl(
 	const char* const pstart = buffer.data() + position;
 	const char* p = pend - 1;
 
+	m_from.clear();
+	m_via.clear();
+	m_by.clear();
+	m_id.clear();
+	m_for.clear();
+	m_with.clear();
+	m_date = datetime();
+
 	// Find the beginning of the date part
 	while (p >= pstart && *p != ';') {
 		--p;
-- 
2.43.0


From dd19df7e60c1c862c4cc50f1db0918bb50060e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:28 +0000
Subject: [PATCH 023/227] fix: parsing a media type must not keep the subtype
 previously held

---
 src/vmime/mediaType.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vmime/mediaType.cpp b/src/vmime/mediaType.cpp
index 46163bc..722cab7 100644
--- a/src/vmime/mediaType.cpp
+++ b/src/vmime/mediaType.cpp
@@ -95,6 +95,10 @@ void mediaType::parseImpl(
 				)
 			)
 		);
+
+	} else {
+
+		m_subType.clear();
 	}
 
 	setParsedBounds(position, end);
-- 
2.43.0


From 1e3c36320e9b9710f047ae47c9a847ce24484ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:34 +0000
Subject: [PATCH 024/227] fix: mailbox parser must not read past the end

---
 src/vmime/mailbox.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vmime/mailbox.cpp b/src/vmime/mailbox.cpp
index 23f46d9..5b9abf2 100644
--- a/src/vmime/mailbox.cpp
+++ b/src/vmime/mailbox.cpp
@@ -102,6 +102,8 @@ void mailbox::parseImpl(
 		if (state == State_None) {
 			while (p < pend && parserHelpers::isSpace(*p))
 				++p;
+			if (p >= pend)
+				break;
 			if (*p == ',' || *p == ';')
 				/* Completely new mailbox -- stop parsing this one. */
 				break;
-- 
2.43.0


From 3f43ef8573e26cebbb10b4d57d5acdcd8a66895b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:10 +0000
Subject: [PATCH 025/227] fix: encoded word parser must not look for its end
 mark beyond the given range

---
 src/vmime/word.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/word.cpp b/src/vmime/word.cpp
index f7e990e..4b676e7 100644
--- a/src/vmime/word.cpp
+++ b/src/vmime/word.cpp
@@ -324,7 +324,7 @@ void word::parseWithState(
 				//const string::const_iterator encEnd = p;
 				const string::const_iterator dataPos = ++p; // skip '?'
 
-				for ( ; p != pend && !(*p == '?' && *(p + 1) == '=') ; ++p) {}
+				for ( ; p != pend && !(*p == '?' && p + 1 != pend && *(p + 1) == '=') ; ++p) {}
 
 				if (p != pend) {  // some data is specified
 
-- 
2.43.0


From 126e6835f16f286a7a66fc11031d36774d914f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:29 +0000
Subject: [PATCH 026/227] fix: white space before the domain of an email
 address is not part of the domain

---
 src/vmime/emailAddress.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/vmime/emailAddress.cpp b/src/vmime/emailAddress.cpp
index 2730268..e09a608 100644
--- a/src/vmime/emailAddress.cpp
+++ b/src/vmime/emailAddress.cpp
@@ -444,7 +444,11 @@ void emailAddress::parseImpl(
 
 			case State_DomainPartStart:
 
-				if (c == '(') {
+				if (parserHelpers::isSpace(c)) {
+
+					++p;
+
+				} else if (c == '(') {
 
 					state = State_DomainPartComment;
 					++commentLevel;
-- 
2.43.0


From 5439aff879270ff8e70a9438955e647c69b3133e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:26 +0000
Subject: [PATCH 027/227] fix: a line break in a parameter value must not end
 the header field

---
 src/vmime/parameter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vmime/parameter.cpp b/src/vmime/parameter.cpp
index f09d93a..282d817 100644
--- a/src/vmime/parameter.cpp
+++ b/src/vmime/parameter.cpp
@@ -360,7 +360,7 @@ void parameter::generateImpl(
 
 			default:
 
-				if (!parserHelpers::isAscii(value[i])) {
+				if (!parserHelpers::isAscii(value[i]) || value[i] == '\r' || value[i] == '\n') {
 					needQuotedPrintable = true;
 					needQuoting = true;
 				}
@@ -413,7 +413,7 @@ void parameter::generateImpl(
 				sevenBitStream << '\\' << value[i];  // escape 'x' with '\x'
 				pos += 2;
 
-			} else if (parserHelpers::isAscii(c)) {
+			} else if (parserHelpers::isAscii(c) && c != '\r' && c != '\n') {
 
 				sevenBitStream << value[i];
 				++pos;
-- 
2.43.0


From f8b9635fe36db11fcefd22f406bf7842e285e30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:18 +0000
Subject: [PATCH 028/227] fix: parse the whole stream when its length is not
 specified

---
 src/vmime/component.cpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/vmime/component.cpp b/src/vmime/component.cpp
index e5e0370..46fe68e 100644
--- a/src/vmime/component.cpp
+++ b/src/vmime/component.cpp
@@ -83,10 +83,28 @@ void component::parse(
 		std::ostringstream oss;
 		utility::outputStreamAdapter ossAdapter(oss);
 
-		utility::bufferedStreamCopyRange(*inputStream, ossAdapter, position, end - position);
+		if (end == 0) {
+
+			// Length not specified: read until the end of the stream
+			inputStream->skip(position);
+			utility::bufferedStreamCopy(*inputStream, ossAdapter);
+
+		} else {
+
+			utility::bufferedStreamCopyRange(*inputStream, ossAdapter, position, end - position);
+		}
 
 		const string buffer = oss.str();
-		parseImpl(ctx, buffer, 0, buffer.length(), NULL);
+		parseImpl(ctx, buffer, 0, buffer.length(), newPosition);
+
+		// Parsed bounds are relative to the stream, not to the buffer
+		if (position != 0) {
+			offsetParsedBounds(position);
+		}
+
+		if (newPosition) {
+			*newPosition += position;
+		}
 
 	} else {
 
-- 
2.43.0


From c9aa2533721904e36f6475a2dce5244244656f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:30 +0000
Subject: [PATCH 029/227] fix: the parser must not depend on how the stream
 fragments its reads

---
 .../utility/parserInputStreamAdapter.cpp      | 32 ++++++++++++++-----
 .../utility/parserInputStreamAdapter.hpp      |  4 ++-
 2 files changed, 27 insertions(+), 9 deletions(-)

diff --git a/src/vmime/utility/parserInputStreamAdapter.cpp b/src/vmime/utility/parserInputStreamAdapter.cpp
index 98bbe60..dd0379e 100644
--- a/src/vmime/utility/parserInputStreamAdapter.cpp
+++ b/src/vmime/utility/parserInputStreamAdapter.cpp
@@ -48,7 +48,28 @@ void parserInputStreamAdapter::reset() {
 
 size_t parserInputStreamAdapter::read(byte_t* const data, const size_t count) {
 
-	return m_stream->read(data, count);
+	return readAll(data, count);
+}
+
+
+size_t parserInputStreamAdapter::readAll(byte_t* const data, const size_t count) const {
+
+	// The underlying stream may return less bytes than requested even
+	// though the end of the stream is not reached
+	size_t total = 0;
+
+	while (total < count) {
+
+		const size_t readBytes = m_stream->read(data + total, count - total);
+
+		if (readBytes == 0) {
+			break;
+		}
+
+		total += readBytes;
+	}
+
+	return total;
 }
 
 
@@ -70,7 +91,7 @@ const string parserInputStreamAdapter::extract(const size_t begin, const size_t
 
 		m_stream->seek(begin);
 
-		const size_t readBytes = m_stream->read(buffer, end - begin);
+		const size_t readBytes = readAll(buffer, end - begin);
 		buffer[readBytes] = '\0';
 
 		m_stream->seek(initialPos);
@@ -115,7 +136,6 @@ size_t parserInputStreamAdapter::findNext(
 		size_t findBufferLen = 0;
 		size_t findBufferOffset = 0;
 
-		bool isEOF = false;
 
 		// Fill in initial buffer
 		findBufferLen = read(findBuffer, BUFFER_SIZE);
@@ -142,7 +162,7 @@ size_t parserInputStreamAdapter::findNext(
 			memcpy(findBuffer1, findBuffer2, (BUFFER_SIZE / 2));
 
 			// Read more bytes
-			if (findBufferLen < BUFFER_SIZE && (eof() || isEOF)) {
+			if (findBufferLen < BUFFER_SIZE) {
 
 				break;
 
@@ -150,10 +170,6 @@ size_t parserInputStreamAdapter::findNext(
 
 				const size_t bytesRead = read(findBuffer2, BUFFER_SIZE / 2);
 
-				if (bytesRead == 0) {
-					isEOF = true;
-				}
-
 				findBufferLen = (BUFFER_SIZE / 2) + bytesRead;
 				findBufferOffset += (BUFFER_SIZE / 2);
 			}
diff --git a/src/vmime/utility/parserInputStreamAdapter.hpp b/src/vmime/utility/parserInputStreamAdapter.hpp
index e448d29..44cfdb6 100644
--- a/src/vmime/utility/parserInputStreamAdapter.hpp
+++ b/src/vmime/utility/parserInputStreamAdapter.hpp
@@ -118,7 +118,7 @@ public:
 		try {
 
 			byte_t buffer[32];
-			const size_t readBytes = m_stream->read(buffer, length);
+			const size_t readBytes = readAll(buffer, length);
 
 			m_stream->seek(initialPos);
 
@@ -161,6 +161,8 @@ public:
 
 private:
 
+	size_t readAll(byte_t* const data, const size_t count) const;
+
 	mutable shared_ptr <seekableInputStream> m_stream;
 };
 
-- 
2.43.0


From 1238045bc1fe50b6e013394bf82c77e791e3b636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:51 +0000
Subject: [PATCH 030/227] fix: the size announced for a body must take into
 account the maximum line length

---
 src/vmime/body.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vmime/body.cpp b/src/vmime/body.cpp
index 7f27607..b7dc598 100644
--- a/src/vmime/body.cpp
+++ b/src/vmime/body.cpp
@@ -598,6 +598,10 @@ size_t body::getGeneratedSize(const generationContext& ctx) {
 			shared_ptr <utility::encoder::encoder> srcEncoder = m_contents->getEncoding().getEncoder();
 			shared_ptr <utility::encoder::encoder> dstEncoder = getEncoding().getEncoder();
 
+			// Same properties as those used when generating the contents
+			dstEncoder->getProperties()["maxlinelength"] = ctx.getMaxLineLength();
+			dstEncoder->getProperties()["text"] = (getContentType().getType() == mediaTypes::TEXT);
+
 			return dstEncoder->getEncodedSize(srcEncoder->getDecodedSize(m_contents->getLength()));
 		}
 	}
-- 
2.43.0


From 72ea8cf81862d11011ef40bbd8dabde368f00725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:51 +0000
Subject: [PATCH 031/227] fix: a file is no more at its end after seeking

---
 src/vmime/platforms/posix/posixFile.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vmime/platforms/posix/posixFile.cpp b/src/vmime/platforms/posix/posixFile.cpp
index 9773b3a..4c961b6 100644
--- a/src/vmime/platforms/posix/posixFile.cpp
+++ b/src/vmime/platforms/posix/posixFile.cpp
@@ -278,6 +278,8 @@ void posixFileReaderInputStream::seek(const size_t pos) {
 	if (newPos == off_t(-1)) {
 		posixFileSystemFactory::reportError(m_path, errno);
 	}
+
+	m_eof = false;
 }
 
 
-- 
2.43.0


From b96d3fff873445db46bb688eb8585904f291818e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:35 +0000
Subject: [PATCH 032/227] fix: boundary at the very end of a body must not
 depend on what follows the body

---
 src/vmime/body.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/vmime/body.cpp b/src/vmime/body.cpp
index b7dc598..bcfc3ac 100644
--- a/src/vmime/body.cpp
+++ b/src/vmime/body.cpp
@@ -94,13 +94,17 @@ size_t body::findNextBoundaryPosition(
 			continue;
 		}
 
-		parser->seek(pos + boundary.length());
+		// Boundary should be followed by a new line or a dash, if it is not
+		// at the very end of this body
+		if (pos + boundary.length() < end) {
 
-		const byte_t next = parser->peekByte();
+			parser->seek(pos + boundary.length());
 
-		// Boundary should be followed by a new line or a dash
-		if (!isspace(next) && next != '-') {
-			continue;
+			const byte_t next = parser->peekByte();
+
+			if (!isspace(next) && next != '-') {
+				continue;
+			}
 		}
 
 		// Get rid of the "[CR]" just before "[LF]--", if any
-- 
2.43.0


From f34ebdcb89a0b6e5b27ba2241edc4cfd5ec4c94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:25 +0000
Subject: [PATCH 033/227] fix: boundary guessing must not match a delimiter
 which crosses the end of the body

---
 src/vmime/body.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vmime/body.cpp b/src/vmime/body.cpp
index bcfc3ac..6ce6cb5 100644
--- a/src/vmime/body.cpp
+++ b/src/vmime/body.cpp
@@ -188,6 +188,8 @@ void body::parseImpl(
 
 					if ((pos != npos) && (pos + 3 < end)) {
 						pos += 3;  // skip \n--
+					} else {
+						pos = npos;
 					}
 				}
 
-- 
2.43.0


From b2585467c85ba19955e8cb1fe42193ed4d8668c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:19 +0000
Subject: [PATCH 034/227] fix: no extra space between words when one of them
 starts a new line

---
 src/vmime/word.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/vmime/word.cpp b/src/vmime/word.cpp
index 4b676e7..f278ef9 100644
--- a/src/vmime/word.cpp
+++ b/src/vmime/word.cpp
@@ -645,7 +645,9 @@ void word::generate(
 
 				if (curLineLength != NEW_LINE_SEQUENCE_LENGTH &&
 				    !state->isFirstWord &&
-				    state->prevWordIsEncoded) {
+				    state->prevWordIsEncoded &&
+				    !state->lastCharIsSpace &&
+				    !parserHelpers::isSpace(*curLineStart)) {
 
 					os << " "; // Separate from previous word
 				}
@@ -681,6 +683,8 @@ void word::generate(
 			}
 		}
 
+		state->prevWordIsEncoded = false;
+
 	/*
 		RFC #2047:
 		4. Encodings
@@ -748,6 +752,13 @@ void word::generate(
 
 		if (startNewLine) {
 
+			// The folding white space stands for the leading space
+			if (!state->isFirstWord && !state->lastCharIsSpace &&
+			    !state->prevWordIsEncoded && m_buffer[0] == ' ') {
+
+				wordEnc.getNextChunk(1);
+			}
+
 			os << NEW_LINE_SEQUENCE;
 			curLineLength = NEW_LINE_SEQUENCE_LENGTH;
 
-- 
2.43.0


From e571431fe0bc7aaa0f2d6ae9226bc3721dcfb590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:46 +0000
Subject: [PATCH 035/227] fix: characters of a stateful charset must be
 converted together when encoded in a word

---
 src/vmime/wordEncoder.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/vmime/wordEncoder.cpp b/src/vmime/wordEncoder.cpp
index 404a57b..7f4264a 100644
--- a/src/vmime/wordEncoder.cpp
+++ b/src/vmime/wordEncoder.cpp
@@ -224,6 +224,15 @@ const string wordEncoder::getNextChunk(const size_t maxLength) {
 			inputCount += inputCharLength;
 		}
 
+		// Convert all the characters at once: with a stateful charset (eg. ISO-2022-JP),
+		// characters converted one by one are separated by superfluous shift sequences
+		encodeBuffer.clear();
+
+		conv->convert(
+			string(m_buffer.begin() + m_pos, m_buffer.begin() + m_pos + inputCount),
+			encodeBuffer
+		);
+
 		// Encode chunk
 		utility::inputStreamStringAdapter in(encodeBuffer);
 
-- 
2.43.0


From 64498269533a41679807d28bde5d26071bfa1bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:29 +0000
Subject: [PATCH 036/227] fix: quote or encode the name of a mailbox as a whole

---
 src/vmime/mailbox.cpp | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/vmime/mailbox.cpp b/src/vmime/mailbox.cpp
index 5b9abf2..c364b69 100644
--- a/src/vmime/mailbox.cpp
+++ b/src/vmime/mailbox.cpp
@@ -364,16 +364,37 @@ void mailbox::generateImpl(
 
 		for (size_t w = 0 ; !forceEncode && w != m_name.getWordCount() ; ++w) {
 
-			if (m_name.getWordAt(w)->getCharset() != charset(charsets::US_ASCII)) {
+			const shared_ptr <const word> wd = m_name.getWordAt(w);
+
+			if (wd->getCharset() != charset(charsets::US_ASCII) || !wd->getLanguage().empty()) {
 				forceEncode = true;
 			}
 		}
 
 		size_t pos = curLinePos;
+		text name = m_name;
+
+		if (!forceEncode) {
+
+			// Quote (or encode) the name as a whole: the words must not be
+			// quoted separately
+			const string buffer = m_name.getWholeBuffer();
+
+			name = text(word(buffer, charset(charsets::US_ASCII)));
+
+			// If the name cannot be quoted, the special characters
+			// it contains require it to be encoded
+			if (buffer.find_first_of("\"\\\r\n") != string::npos ||
+			    (pos + 2 + buffer.length() >= ctx.getMaxLineLength() &&
+			     buffer.find_first_of(";,<>()[]@/?.=:") != string::npos)) {
+
+				forceEncode = true;
+			}
+		}
 
-		m_name.encodeAndFold(
+		name.encodeAndFold(
 			ctx, os, pos, &pos,
-			text::QUOTE_IF_POSSIBLE | (forceEncode ? text::FORCE_ENCODING : 0)
+			forceEncode ? text::FORCE_ENCODING : text::QUOTE_IF_POSSIBLE
 		);
 
 		if (pos + generatedEmail.length() + 3 > ctx.getMaxLineLength()) {
-- 
2.43.0


From 1730f5e286bf5143cca1f45fe2329fa38a23c304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:31 +0000
Subject: [PATCH 037/227] fix: encode the name of a mailbox group whenever it
 contains special characters

---
 src/vmime/mailboxGroup.cpp | 33 +++++----------------------------
 1 file changed, 5 insertions(+), 28 deletions(-)

diff --git a/src/vmime/mailboxGroup.cpp b/src/vmime/mailboxGroup.cpp
index a3bc44a..e7d4037 100644
--- a/src/vmime/mailboxGroup.cpp
+++ b/src/vmime/mailboxGroup.cpp
@@ -124,40 +124,17 @@ void mailboxGroup::generateImpl(
 	// We have to encode the name:
 	//   - if it contains characters in a charset different from "US-ASCII",
 	//   - and/or if it contains one or more of these special chars:
-	//        SPACE  TAB  "  ;  ,  <  >  (  )  @  /  ?  .  =  :
+	//        SPACE  TAB  CR  LF  "  \  ;  ,  <  >  (  )  [  ]  @  /  ?  .  =  :
 
-	// Check whether there are words that are not "US-ASCII"
-	// and/or contain the special chars.
+	// Check whether there are words that contain the special chars.
 	bool forceEncode = false;
 
 	for (size_t w = 0 ; !forceEncode && w < m_name.getWordCount() ; ++w) {
 
-		if (m_name.getWordAt(w)->getCharset() == charset(charsets::US_ASCII)) {
+		const string& buffer = m_name.getWordAt(w)->getBuffer();
 
-			const string& buffer = m_name.getWordAt(w)->getBuffer();
-
-			for (string::const_iterator c = buffer.begin() ;
-			     !forceEncode && c != buffer.end() ; ++c) {
-
-				switch (*c) {
-
-					case ' ':
-					case '\t':
-					case ';':
-					case ',':
-					case '<': case '>':
-					case '(': case ')':
-					case '@':
-					case '/':
-					case '?':
-					case '.':
-					case '=':
-					case ':':
-
-						forceEncode = true;
-						break;
-				}
-			}
+		if (buffer.find_first_of(" \t\r\n\"\\;,<>()[]@/?.=:") != string::npos) {
+			forceEncode = true;
 		}
 	}
 
-- 
2.43.0


From 6ef08aaa2dfe90d1b8c3b19066d618eb33544f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:11 +0000
Subject: [PATCH 038/227] fix: encoded local part of an email address whose
 text starts with '='

---
 src/vmime/emailAddress.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/vmime/emailAddress.cpp b/src/vmime/emailAddress.cpp
index e09a608..521df63 100644
--- a/src/vmime/emailAddress.cpp
+++ b/src/vmime/emailAddress.cpp
@@ -213,6 +213,7 @@ void emailAddress::parseImpl(
 	bool stop = false;
 	int commentLevel = 0;
 	bool localPartIsRFC2047 = false;
+	int rfc2047SepCount = 0;  // number of '?' found in the encoded word
 
 	while (p < pend && !stop) {
 
@@ -398,6 +399,7 @@ void emailAddress::parseImpl(
 				if (c == '?') {
 
 					state = State_LocalPartRFC2047MiddleQM;
+					++rfc2047SepCount;
 					++p;
 
 				} else {
@@ -410,13 +412,20 @@ void emailAddress::parseImpl(
 
 			case State_LocalPartRFC2047MiddleQM:
 
-				if (c == '=') {
+				// "=?charset?encoding?text?=" (the text may start with '=')
+				if (c == '=' && rfc2047SepCount >= 3) {
 
 					// End of RFC-2047 encoded word
 					state = State_LocalPartRFC2047End;
 					localPart << "?=";
 					++p;
 
+				} else if (c == '?') {
+
+					++rfc2047SepCount;
+					localPart << '?';
+					++p;
+
 				} else {
 
 					state = State_LocalPartRFC2047Middle;
-- 
2.43.0


From c4358d0961b3c81f43b605f2c4e55c1bb2874664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:55 +0000
Subject: [PATCH 039/227] fix: quoted local part of an email address in a
 mailbox

---
 src/vmime/mailbox.cpp | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/src/vmime/mailbox.cpp b/src/vmime/mailbox.cpp
index c364b69..90ad977 100644
--- a/src/vmime/mailbox.cpp
+++ b/src/vmime/mailbox.cpp
@@ -68,6 +68,28 @@ angle-addr      =       [CFWS] "<" addr-spec ">" [CFWS] / obs-angle-addr
 
 */
 
+/** If the specified text starts with a quoted string which is the local part
+  * of an address ("john doe"@example.com), return the end of this string.
+  *
+  * @return pointer to the '@' sign which follows the quoted string, or NULL
+  */
+static const char* findEndOfQuotedLocalPart(const char* p, const char* const pend) {
+
+	if (p == pend || *p != '"') {
+		return NULL;
+	}
+
+	for (++p ; p < pend && *p != '"' ; ++p) {
+
+		if (*p == '\\' && ++p == pend) {
+			return NULL;
+		}
+	}
+
+	return (pend - p >= 2 && *(p + 1) == '@') ? p + 1 : NULL;
+}
+
+
 void mailbox::parseImpl(
 	parsingContext& ctx,
 	const string& buffer,
@@ -111,6 +133,14 @@ void mailbox::parseImpl(
 				state = State_Bracket;
 				continue;
 			}
+			if (const char* const q = findEndOfQuotedLocalPart(p, pend)) {
+				address.assign(p, q);
+				name.append(p, q);
+				hold += static_cast <unsigned int>(q - p);
+				p = q;
+				state = State_Address_Unbracketed;
+				continue;
+			}
 			if (*p == '"') {  // Quoted string
 				state = State_String;
 				++p;
@@ -156,6 +186,12 @@ void mailbox::parseImpl(
 					} else if (*p == ')') {
 						--comment;
 					}
+				} else if (address.empty() && findEndOfQuotedLocalPart(p, pend)) {
+					const char* const q = findEndOfQuotedLocalPart(p, pend);
+					address.assign(p, q);
+					name.append(p, q);
+					hold += static_cast <unsigned int>(q - p);
+					p = q - 1;
 				} else if (*p == '(') {
 					++comment;
 				} else if (*p == '\\') {
-- 
2.43.0


From 8769f1dc0a94beef228887bd8d25f81c20b400a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:18 +0000
Subject: [PATCH 040/227] fix: special characters in quoted strings and
 comments of an address list

---
 src/vmime/address.cpp      |  8 ++++++++
 src/vmime/mailboxGroup.cpp | 17 +++++++++++++++--
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/vmime/address.cpp b/src/vmime/address.cpp
index 5703a38..c2f0703 100644
--- a/src/vmime/address.cpp
+++ b/src/vmime/address.cpp
@@ -101,6 +101,14 @@ shared_ptr <address> address::parseNext(
 
 			escaped = false;
 
+		} else if (quoted && buffer[pos] != '\\' && buffer[pos] != '"') {
+
+			// Special characters have no meaning in a quoted string
+
+		} else if (commentLevel > 0 && buffer[pos] == '"') {
+
+			// Nor do quotes in a comment
+
 		} else {
 
 			switch (buffer[pos]) {
diff --git a/src/vmime/mailboxGroup.cpp b/src/vmime/mailboxGroup.cpp
index e7d4037..5fbbc50 100644
--- a/src/vmime/mailboxGroup.cpp
+++ b/src/vmime/mailboxGroup.cpp
@@ -73,8 +73,21 @@ void mailboxGroup::parseImpl(
 
 	string name;
 
-	while (p < pend && *p != ':') {
-		name += *p;
+	bool quoted = false;
+
+	while (p < pend && (quoted || *p != ':')) {
+
+		if (*p == '"') {
+			quoted = !quoted;
+		} else {
+
+			if (quoted && *p == '\\' && p + 1 < pend) {
+				++p;
+			}
+
+			name += *p;
+		}
+
 		++p;
 	}
 
-- 
2.43.0


From 7579cfa3a82b201872205437fd55a78385138a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:37 +0000
Subject: [PATCH 041/227] fix: the local part of an email address must not be
 folded

---
 src/vmime/emailAddress.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/vmime/emailAddress.cpp b/src/vmime/emailAddress.cpp
index 521df63..4b51c24 100644
--- a/src/vmime/emailAddress.cpp
+++ b/src/vmime/emailAddress.cpp
@@ -584,6 +584,10 @@ void emailAddress::generateImpl(
 
 	string localPart, domainPart;
 
+	// The local part cannot be folded
+	generationContext localCtx(ctx);
+	localCtx.setMaxLineLength(lineLengthLimits::infinite);
+
 	if (ctx.getInternationalizedEmailSupport() &&
 	    (!utility::stringUtils::is7bit(m_localName.getBuffer()) ||
 	     !utility::stringUtils::is7bit(m_domainName.getBuffer()))) {
@@ -593,7 +597,7 @@ void emailAddress::generateImpl(
 		word localPartWord(localPartUTF8, vmime::charsets::UTF_8);
 
 		vmime::utility::outputStreamStringAdapter os(localPart);
-		localPartWord.generate(ctx, os, 0, NULL, text::FORCE_NO_ENCODING | text::QUOTE_IF_NEEDED, NULL);
+		localPartWord.generate(localCtx, os, 0, NULL, text::FORCE_NO_ENCODING | text::QUOTE_IF_NEEDED, NULL);
 
 		// Domain part
 		domainPart = m_domainName.getConvertedText(vmime::charsets::UTF_8);
@@ -602,7 +606,7 @@ void emailAddress::generateImpl(
 
 		// Local part
 		vmime::utility::outputStreamStringAdapter os(localPart);
-		m_localName.generate(ctx, os, 0, NULL, text::QUOTE_IF_NEEDED, NULL);
+		m_localName.generate(localCtx, os, 0, NULL, text::QUOTE_IF_NEEDED, NULL);
 
 		// Domain part as IDNA
 		domainPart = domainNameToIDNA(m_domainName.getConvertedText(vmime::charsets::UTF_8));
-- 
2.43.0


From 43d92a3b127dfe3264eb962f8b335b58f6b94e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:45 +0000
Subject: [PATCH 042/227] fix: local part of an email address which starts with
 '='

---
 src/vmime/emailAddress.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/vmime/emailAddress.cpp b/src/vmime/emailAddress.cpp
index 4b51c24..0ad30af 100644
--- a/src/vmime/emailAddress.cpp
+++ b/src/vmime/emailAddress.cpp
@@ -344,10 +344,9 @@ void emailAddress::parseImpl(
 
 				} else {
 
+					// Not an encoded word
 					state = State_LocalPartMiddle;
 					localPart << '=';
-					localPart << c;
-					++p;
 				}
 
 				break;
-- 
2.43.0


From cc94f0f7dface0280fbd28c3486a30162df250ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:15 +0000
Subject: [PATCH 043/227] fix: keep leading and trailing white space of
 parameter values

---
 src/vmime/parameter.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/vmime/parameter.cpp b/src/vmime/parameter.cpp
index 282d817..70ca6f5 100644
--- a/src/vmime/parameter.cpp
+++ b/src/vmime/parameter.cpp
@@ -256,7 +256,13 @@ void parameter::parse(
 			// if the data is not encoded, because it can recover
 			// from parsing errors.
 			vmime::text t;
-			t.parse(ctx, chunk.data);
+
+			if (chunk.data.find("=?") != string::npos) {
+				t.parse(ctx, chunk.data);
+			} else {
+				// No encoded word: keep white spaces
+				value << chunk.data;
+			}
 
 			if (t.getWordCount() != 0) {
 
-- 
2.43.0


From 150d525c7c270a900a9fd7f36b1da4cb163ce273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:10 +0000
Subject: [PATCH 044/227] fix: quote and escape the whole value of a parameter
 which is not encoded

---
 src/vmime/parameter.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/vmime/parameter.cpp b/src/vmime/parameter.cpp
index 70ca6f5..de1a37e 100644
--- a/src/vmime/parameter.cpp
+++ b/src/vmime/parameter.cpp
@@ -29,6 +29,7 @@
 
 #include "vmime/utility/outputStreamAdapter.hpp"
 #include "vmime/utility/outputStreamStringAdapter.hpp"
+#include "vmime/utility/stringUtils.hpp"
 
 
 namespace vmime {
@@ -377,6 +378,20 @@ void parameter::generateImpl(
 
 	const bool cutValue = (valueLength != value.length());  // has the value been cut?
 
+	// Send the value in quoted-printable, if needed
+	string generatedValue;
+
+	if ((needQuotedPrintable || cutValue || !m_value->getLanguage().empty()) &&
+	    genMode != generationContext::PARAMETER_VALUE_NO_ENCODING) {
+
+		utility::outputStreamStringAdapter generatedValueStream(generatedValue);
+		m_value->generate(generatedValueStream);
+
+		// Some parts of the value may have been left unencoded
+		needQuoting = utility::stringUtils::needQuoting(generatedValue, "()<>@,;:\\\"/[]?= \t\r\n");
+		generatedValue = utility::stringUtils::quote(generatedValue, "\\\"", "\\");
+	}
+
 	if (needQuoting) {
 
 		sevenBitStream << name << "=\"";
@@ -402,7 +417,7 @@ void parameter::generateImpl(
 		// Send the name in quoted-printable, so outlook express et.al.
 		// will understand the real filename
 		size_t oldLen = sevenBitBuffer.length();
-		m_value->generate(sevenBitStream);
+		sevenBitStream << generatedValue;
 		pos += sevenBitBuffer.length() - oldLen;
 		extended = true;		// also send with RFC-2231 encoding
 
-- 
2.43.0


From 4da3c7ace98588f95d85b6ea0391e9070fbd41d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:17 +0000
Subject: [PATCH 045/227] fix: encode quotes and backslashes in an extended
 parameter value

---
 src/vmime/parameter.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vmime/parameter.cpp b/src/vmime/parameter.cpp
index de1a37e..24020d3 100644
--- a/src/vmime/parameter.cpp
+++ b/src/vmime/parameter.cpp
@@ -539,6 +539,8 @@ void parameter::generateImpl(
 				case '\r':
 				case '\n':
 				case '%':
+				case '\'':
+				case '\\':
 				case '"':
 				case ';':
 				case ',':
-- 
2.43.0


From f84a06f07071a824683578398c052827032678cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:04 +0000
Subject: [PATCH 046/227] fix: RFC-2047 encode a parameter value whose charset
 requires it

---
 src/vmime/parameter.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/vmime/parameter.cpp b/src/vmime/parameter.cpp
index 24020d3..6e316ab 100644
--- a/src/vmime/parameter.cpp
+++ b/src/vmime/parameter.cpp
@@ -378,10 +378,17 @@ void parameter::generateImpl(
 
 	const bool cutValue = (valueLength != value.length());  // has the value been cut?
 
+	// Check whether there is a recommended encoding for this charset.
+	// If so, the whole buffer will be encoded. Else, the number of
+	// 7-bit (ASCII) bytes in the input will be used to determine if
+	// we need to encode the whole buffer.
+	encoding recommendedEnc;
+	const bool alwaysEncode = m_value->getCharset().getRecommendedEncoding(recommendedEnc);
+
 	// Send the value in quoted-printable, if needed
 	string generatedValue;
 
-	if ((needQuotedPrintable || cutValue || !m_value->getLanguage().empty()) &&
+	if ((needQuotedPrintable || cutValue || alwaysEncode || !m_value->getLanguage().empty()) &&
 	    genMode != generationContext::PARAMETER_VALUE_NO_ENCODING) {
 
 		utility::outputStreamStringAdapter generatedValueStream(generatedValue);
@@ -403,15 +410,9 @@ void parameter::generateImpl(
 		pos += name.length() + 1;
 	}
 
-	// Check whether there is a recommended encoding for this charset.
-	// If so, the whole buffer will be encoded. Else, the number of
-	// 7-bit (ASCII) bytes in the input will be used to determine if
-	// we need to encode the whole buffer.
-	encoding recommendedEnc;
-	const bool alwaysEncode = m_value->getCharset().getRecommendedEncoding(recommendedEnc);
 	bool extended = alwaysEncode;
 
-	if ((needQuotedPrintable || cutValue || !m_value->getLanguage().empty()) &&
+	if ((needQuotedPrintable || cutValue || alwaysEncode || !m_value->getLanguage().empty()) &&
 	    genMode != generationContext::PARAMETER_VALUE_NO_ENCODING) {
 
 		// Send the name in quoted-printable, so outlook express et.al.
-- 
2.43.0


From d110794d1f04a4accecf78e8982387ac583198d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:13 +0000
Subject: [PATCH 047/227] fix: line breaks in the local part of an
 internationalized address need encoding

---
 src/vmime/emailAddress.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vmime/emailAddress.cpp b/src/vmime/emailAddress.cpp
index 0ad30af..c3f2948 100644
--- a/src/vmime/emailAddress.cpp
+++ b/src/vmime/emailAddress.cpp
@@ -588,6 +588,8 @@ void emailAddress::generateImpl(
 	localCtx.setMaxLineLength(lineLengthLimits::infinite);
 
 	if (ctx.getInternationalizedEmailSupport() &&
+	    // Line breaks need encoding
+	    m_localName.getBuffer().find_first_of("\r\n") == string::npos &&
 	    (!utility::stringUtils::is7bit(m_localName.getBuffer()) ||
 	     !utility::stringUtils::is7bit(m_domainName.getBuffer()))) {
 
-- 
2.43.0


From 5a413619d1d0e1a11ea6ab6176095d43f10f9fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:14 +0000
Subject: [PATCH 048/227] fix: a single-letter time zone may be followed by
 something

---
 src/vmime/dateTime.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/dateTime.cpp b/src/vmime/dateTime.cpp
index f50d02f..ce30937 100644
--- a/src/vmime/dateTime.cpp
+++ b/src/vmime/dateTime.cpp
@@ -421,7 +421,7 @@ void datetime::parseImpl(
 			do {
 				zone[zoneLength++] = *p;
 				++p;
-			} while (zoneLength < 3 && p < pend);
+			} while (zoneLength < 3 && p < pend && parserHelpers::isAlpha(*p));
 
 			switch (zone[0])
 			{
-- 
2.43.0


From 1564e50a1967ec6046e8bd03772153f972c4cbaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:20 +0000
Subject: [PATCH 049/227] fix: date and time of a Unix time must be those of
 the specified zone

---
 src/vmime/dateTime.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/vmime/dateTime.cpp b/src/vmime/dateTime.cpp
index ce30937..b6538a4 100644
--- a/src/vmime/dateTime.cpp
+++ b/src/vmime/dateTime.cpp
@@ -663,25 +663,28 @@ datetime::datetime(const datetime& d)
 
 datetime::datetime(const time_t t, const int zone) {
 
+	// Date and time, as seen in the specified zone
+	const time_t lt = t + static_cast <time_t>(zone) * 60;
+
 #if VMIME_HAVE_LOCALTIME_S
 
 	struct tm tms;
 
-	if (!gmtime_s(&tms, &t)) {
-		localtime_s(&tms, &t);
+	if (!gmtime_s(&tms, &lt)) {
+		localtime_s(&tms, &lt);
 	}
 
 #elif VMIME_HAVE_LOCALTIME_R
 	struct tm tms;
 
-	if (!gmtime_r(&t, &tms)) {
-		localtime_r(&t, &tms);
+	if (!gmtime_r(&lt, &tms)) {
+		localtime_r(&lt, &tms);
 	}
 
 #else
 
-	struct tm* gtm = gmtime(&t);
-	struct tm* ltm = localtime(&t);
+	struct tm* gtm = gmtime(&lt);
+	struct tm* ltm = localtime(&lt);
 
 	struct tm tms;
 
-- 
2.43.0


From 7c1859bd25f518fe784192bfb296f45a532daf8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:20 +0000
Subject: [PATCH 050/227] fix: offset of the local time around a change of
 daylight saving time

---
 src/vmime/platforms/posix/posixHandler.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/vmime/platforms/posix/posixHandler.cpp b/src/vmime/platforms/posix/posixHandler.cpp
index 3e9d196..a85e9bc 100644
--- a/src/vmime/platforms/posix/posixHandler.cpp
+++ b/src/vmime/platforms/posix/posixHandler.cpp
@@ -118,19 +118,19 @@ const vmime::datetime posixHandler::getCurrentLocalTime() const {
 	tm gmt = *::gmtime(&t);  // WARNING: this is not thread-safe!
 #endif
 
-	// "A negative value for tm_isdst causes mktime() to attempt
-	//  to determine whether Daylight Saving Time is in effect
-	//  for the specified time."
-	local.tm_isdst = -1;
-	gmt.tm_isdst = -1;
+	// Calculate the difference (in minutes): there is at most
+	// one day between the local date and the UTC date
+	const int days = (local.tm_year != gmt.tm_year)
+		? (local.tm_year < gmt.tm_year ? -1 : 1)
+		: (local.tm_yday - gmt.tm_yday);
 
-	// Calculate the difference (in seconds)
-	const time_t diff = ::mktime(&local) - ::mktime(&gmt);
+	const int diff =
+		(days * 24 + local.tm_hour - gmt.tm_hour) * 60 + local.tm_min - gmt.tm_min;
 
 	// Return the date
 	return vmime::datetime(
 		local.tm_year + 1900, local.tm_mon + 1, local.tm_mday,
-		local.tm_hour, local.tm_min, local.tm_sec, static_cast <int>(diff / 60)
+		local.tm_hour, local.tm_min, local.tm_sec, diff
 	);
 }
 
-- 
2.43.0


From 927a0d0d070b01ba4e6e4c6a47f1513829970040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:49 +0000
Subject: [PATCH 051/227] fix: comparison of content dispositions must be
 symmetric

---
 src/vmime/contentDisposition.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/contentDisposition.cpp b/src/vmime/contentDisposition.cpp
index 8c78475..23ea3f3 100644
--- a/src/vmime/contentDisposition.cpp
+++ b/src/vmime/contentDisposition.cpp
@@ -92,7 +92,7 @@ contentDisposition& contentDisposition::operator=(const string& name) {
 
 bool contentDisposition::operator==(const contentDisposition& value) const {
 
-	return utility::stringUtils::toLower(m_name) == value.m_name;
+	return utility::stringUtils::isStringEqualNoCase(m_name, value.m_name);
 }
 
 
-- 
2.43.0


From 2bf1aef6b1f40834cd47b855865f0edbd6809972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:49 +0000
Subject: [PATCH 052/227] fix: comparison of encodings must be symmetric

---
 src/vmime/encoding.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/encoding.cpp b/src/vmime/encoding.cpp
index bca3157..e949eff 100644
--- a/src/vmime/encoding.cpp
+++ b/src/vmime/encoding.cpp
@@ -140,7 +140,7 @@ encoding& encoding::operator=(const string& name) {
 
 bool encoding::operator==(const encoding& value) const {
 
-	return utility::stringUtils::toLower(m_name) == value.m_name;
+	return utility::stringUtils::isStringEqualNoCase(m_name, value.m_name);
 }
 
 
-- 
2.43.0


From 9c3477dfecd9b3fa988e1423516cd5d305384150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:49 +0000
Subject: [PATCH 053/227] fix: an escape in a comment of a message id applies
 to the next character only

---
 src/vmime/messageId.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vmime/messageId.cpp b/src/vmime/messageId.cpp
index 35712f3..0cc75a4 100644
--- a/src/vmime/messageId.cpp
+++ b/src/vmime/messageId.cpp
@@ -87,6 +87,7 @@ void messageId::parseImpl(
 		if (escape) {
 
 			// Ignore this character
+			escape = false;
 
 		} else {
 
-- 
2.43.0


From ac717b15574eb59d9dfbfd4c2bc5efb9eb852898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:49 +0000
Subject: [PATCH 054/227] fix: message ids which are not separated by a space

---
 src/vmime/messageId.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vmime/messageId.cpp b/src/vmime/messageId.cpp
index 0cc75a4..4acd7fd 100644
--- a/src/vmime/messageId.cpp
+++ b/src/vmime/messageId.cpp
@@ -176,8 +176,11 @@ shared_ptr <messageId> messageId::parseNext(
 
 		const size_t begin = pos;
 
+		// Message ids may follow one another without any space
 		while (pos < end && !parserHelpers::isSpace(buffer[pos])) {
-			++pos;
+			if (buffer[pos++] == '>') {
+				break;
+			}
 		}
 
 		shared_ptr <messageId> mid = make_shared <messageId>();
-- 
2.43.0


From c07c4f461d962ce8da583452ca36c3de3621ff6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:05 +0000
Subject: [PATCH 055/227] fix: keywords of a trace field are whole words

---
 src/vmime/relay.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/vmime/relay.cpp b/src/vmime/relay.cpp
index 9128e4e..05e5f1b 100644
--- a/src/vmime/relay.cpp
+++ b/src/vmime/relay.cpp
@@ -135,32 +135,32 @@ void relay::parseImpl(
 
 				if (!inComment) {
 
-					if (utility::stringUtils::isStringEqualNoCase(word, "from", 4)) {
+					if (utility::stringUtils::isStringEqualNoCase(word, "from")) {
 
 						newPart = Part_From;
 						keyword = true;
 
-					} else if (utility::stringUtils::isStringEqualNoCase(word, "by", 2)) {
+					} else if (utility::stringUtils::isStringEqualNoCase(word, "by")) {
 
 						newPart = Part_By;
 						keyword = true;
 
-					} else if (utility::stringUtils::isStringEqualNoCase(word, "via", 2)) {
+					} else if (utility::stringUtils::isStringEqualNoCase(word, "via")) {
 
 						newPart = Part_Via;
 						keyword = true;
 
-					} else if (utility::stringUtils::isStringEqualNoCase(word, "with", 2)) {
+					} else if (utility::stringUtils::isStringEqualNoCase(word, "with")) {
 
 						newPart = Part_With;
 						keyword = true;
 
-					} else if (utility::stringUtils::isStringEqualNoCase(word, "id", 2)) {
+					} else if (utility::stringUtils::isStringEqualNoCase(word, "id")) {
 
 						newPart = Part_Id;
 						keyword = true;
 
-					} else if (utility::stringUtils::isStringEqualNoCase(word, "for", 2)) {
+					} else if (utility::stringUtils::isStringEqualNoCase(word, "for")) {
 
 						newPart = Part_For;
 						keyword = true;
-- 
2.43.0


From ddc8170ec36b007898a147b78dfec0328cd4b19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:21 +0000
Subject: [PATCH 056/227] fix: comments in a trace field may be nested, or made
 of a single word

---
 src/vmime/relay.cpp | 55 ++++++++++++++++++++++++++++++++++++---------
 1 file changed, 44 insertions(+), 11 deletions(-)

diff --git a/src/vmime/relay.cpp b/src/vmime/relay.cpp
index 05e5f1b..4ec0173 100644
--- a/src/vmime/relay.cpp
+++ b/src/vmime/relay.cpp
@@ -57,6 +57,33 @@ relay::relay(const relay& r)
                        ["for"  addr-spec]        ; initial form
 */
 
+/** Find the end of a (possibly nested) comment.
+  *
+  * @param word word to read
+  * @param pos position in the word: in a comment, or at a '('
+  * @param level number of open parenthesis; updated by this function
+  * @return position after the end of the comment, or the length
+  * of the word if the comment is not finished
+  */
+static size_t updateCommentLevel(const string& word, size_t pos, int& level) {
+
+	while (pos < word.length()) {
+
+		const char c = word[pos++];
+
+		if (c == '\\' && pos < word.length()) {
+			++pos;
+		} else if (c == '(') {
+			++level;
+		} else if (c == ')' && --level == 0) {
+			break;
+		}
+	}
+
+	return pos;
+}
+
+
 void relay::parseImpl(
 	parsingContext& ctx,
 	const string& buffer,
@@ -110,7 +137,7 @@ void relay::parseImpl(
 
 		Parts part = Part_None;
 		bool cont = true;
-		bool inComment = false;
+		int commentLevel = 0;
 
 		while (cont) {
 
@@ -118,22 +145,22 @@ void relay::parseImpl(
 
 			if ((cont = !(iss >> word).fail())) {
 
-				// A little hack for handling comments
-				if (inComment) {
+				// End of a comment
+				if (commentLevel > 0) {
 
-					size_t par = word.find(')');
+					const size_t commentEnd = updateCommentLevel(word, 0, commentLevel);
 
-					if (par != string::npos) {
+					previous.push_back(string(word.begin(), word.begin() + commentEnd));
+					word.erase(word.begin(), word.begin() + commentEnd);
 
-						previous.push_back(string(word.begin(), word.begin() + par + 1));
-						word.erase(word.begin(), word.begin() + par + 1);
-						inComment = false;
+					if (word.empty()) {
+						continue;
 					}
 				}
 
 				bool keyword = false;
 
-				if (!inComment) {
+				if (commentLevel == 0) {
 
 					if (utility::stringUtils::isStringEqualNoCase(word, "from")) {
 
@@ -169,8 +196,14 @@ void relay::parseImpl(
 
 				if (!keyword) {
 
-					if (word.find('(') != string::npos) {
-						inComment = true;
+					for (size_t pos = 0 ; pos < word.length() ; ) {
+
+						// Outside of a comment, go to the beginning of the next one
+						if (commentLevel == 0 && (pos = word.find('(', pos)) == string::npos) {
+							break;
+						}
+
+						pos = updateCommentLevel(word, pos, commentLevel);
 					}
 
 					previous.push_back(word);
-- 
2.43.0


From 933e17ff0fa7a7e6f70212f6768017ae4b4f7805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:35 +0000
Subject: [PATCH 057/227] fix: disposition modifiers are not case-sensitive

---
 src/vmime/disposition.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vmime/disposition.cpp b/src/vmime/disposition.cpp
index c8fa617..5190f51 100644
--- a/src/vmime/disposition.cpp
+++ b/src/vmime/disposition.cpp
@@ -150,7 +150,7 @@ void disposition::removeModifier(const string& modifier) {
 	for (std::vector <string>::iterator it = m_modifiers.begin() ;
 	     it != m_modifiers.end() ; ++it) {
 
-		if (*it == modifierLC) {
+		if (utility::stringUtils::toLower(*it) == modifierLC) {
 			m_modifiers.erase(it);
 			break;
 		}
@@ -171,7 +171,7 @@ bool disposition::hasModifier(const string& modifier) const {
 	for (std::vector <string>::const_iterator it = m_modifiers.begin() ;
 	     it != m_modifiers.end() ; ++it) {
 
-		if (*it == modifierLC) {
+		if (utility::stringUtils::toLower(*it) == modifierLC) {
 			return true;
 		}
 	}
-- 
2.43.0


From 23ef4bd24c50e6a3ed1b2e0dbfd24ed0e3bf4005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:35 +0000
Subject: [PATCH 058/227] fix: white space around the slash in the mode of a
 disposition

---
 src/vmime/disposition.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vmime/disposition.cpp b/src/vmime/disposition.cpp
index 5190f51..8b9c35c 100644
--- a/src/vmime/disposition.cpp
+++ b/src/vmime/disposition.cpp
@@ -223,8 +223,8 @@ void disposition::parseImpl(
 
 	if (slash != string::npos) {
 
-		m_actionMode = string(mode.begin(), mode.begin() + slash);
-		m_sendingMode = string(mode.begin() + slash + 1, mode.end());
+		m_actionMode = utility::stringUtils::trim(string(mode.begin(), mode.begin() + slash));
+		m_sendingMode = utility::stringUtils::trim(string(mode.begin() + slash + 1, mode.end()));
 
 	} else {
 
-- 
2.43.0


From 86ebca93c76de0f1b2fc78e29373da8977b62081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:57 +0000
Subject: [PATCH 059/227] fix: quoted local part in a mail path

---
 src/vmime/path.cpp | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/vmime/path.cpp b/src/vmime/path.cpp
index a672b22..f0f0117 100644
--- a/src/vmime/path.cpp
+++ b/src/vmime/path.cpp
@@ -141,7 +141,16 @@ void path::parseImpl(
 
 		const size_t addrStart = pos;
 
-		while (pos < end && buffer[pos] != '>') {
+		bool quoted = false;
+
+		while (pos < end && (quoted || buffer[pos] != '>')) {
+
+			if (buffer[pos] == '"') {
+				quoted = !quoted;
+			} else if (quoted && buffer[pos] == '\\' && pos + 1 < end) {
+				++pos;
+			}
+
 			++pos;
 		}
 
@@ -158,9 +167,22 @@ void path::parseImpl(
 		addrSpec = string(buffer.begin() + position, buffer.begin() + end);
 	}
 
-	const size_t at = addrSpec.find_first_of('@');
+	// The local part may be a quoted string
+	size_t at = 0;
+	bool quoted = false;
+
+	while (at < addrSpec.length() && (quoted || addrSpec[at] != '@')) {
+
+		if (addrSpec[at] == '"') {
+			quoted = !quoted;
+		} else if (quoted && addrSpec[at] == '\\') {
+			++at;
+		}
+
+		++at;
+	}
 
-	if (at != string::npos) {
+	if (at < addrSpec.length()) {
 
 		m_localPart = string(addrSpec.begin(), addrSpec.begin() + at);
 		m_domain = string(addrSpec.begin() + at + 1, addrSpec.end());
-- 
2.43.0


From c4f21e7d0a5d2d5a853327772dabff191d5ab51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:57 +0000
Subject: [PATCH 060/227] fix: white space around a mail path without brackets

---
 src/vmime/path.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vmime/path.cpp b/src/vmime/path.cpp
index f0f0117..c0ef6f9 100644
--- a/src/vmime/path.cpp
+++ b/src/vmime/path.cpp
@@ -23,6 +23,7 @@
 
 #include "vmime/path.hpp"
 #include "vmime/parserHelpers.hpp"
+#include "vmime/utility/stringUtils.hpp"
 
 
 namespace vmime {
@@ -164,7 +165,9 @@ void path::parseImpl(
 
 	} else {
 
-		addrSpec = string(buffer.begin() + position, buffer.begin() + end);
+		addrSpec = utility::stringUtils::trim(
+			string(buffer.begin() + pos, buffer.begin() + end)
+		);
 	}
 
 	// The local part may be a quoted string
-- 
2.43.0


From 5a4908b6bc59f068f11e8862e34a7d2fe7f1a3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:39 +0000
Subject: [PATCH 061/227] fix: clone of a word must keep its language

---
 src/vmime/word.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/word.cpp b/src/vmime/word.cpp
index f278ef9..a777448 100644
--- a/src/vmime/word.cpp
+++ b/src/vmime/word.cpp
@@ -895,7 +895,7 @@ const string word::getConvertedText(
 
 shared_ptr <component> word::clone() const {
 
-	return make_shared <word>(m_buffer, m_charset);
+	return make_shared <word>(*this);
 }
 
 
-- 
2.43.0


From 8f67176c30b7dc9cceb6ce7db84f3ad4999cda51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:50 +0000
Subject: [PATCH 062/227] fix: assignment of a mailbox group must not share its
 mailboxes

---
 src/vmime/mailboxGroup.cpp | 7 +++++++
 src/vmime/mailboxGroup.hpp | 1 +
 2 files changed, 8 insertions(+)

diff --git a/src/vmime/mailboxGroup.cpp b/src/vmime/mailboxGroup.cpp
index 5fbbc50..d5d7b62 100644
--- a/src/vmime/mailboxGroup.cpp
+++ b/src/vmime/mailboxGroup.cpp
@@ -212,6 +212,13 @@ shared_ptr <component> mailboxGroup::clone() const {
 }
 
 
+mailboxGroup& mailboxGroup::operator=(const mailboxGroup& other) {
+
+	copyFrom(other);
+	return *this;
+}
+
+
 mailboxGroup& mailboxGroup::operator=(const component& other) {
 
 	copyFrom(other);
diff --git a/src/vmime/mailboxGroup.hpp b/src/vmime/mailboxGroup.hpp
index 494f22a..d4da612 100644
--- a/src/vmime/mailboxGroup.hpp
+++ b/src/vmime/mailboxGroup.hpp
@@ -49,6 +49,7 @@ public:
 	void copyFrom(const component& other);
 	shared_ptr <component> clone() const;
 	mailboxGroup& operator=(const component& other);
+	mailboxGroup& operator=(const mailboxGroup& other);
 
 	const std::vector <shared_ptr <component> > getChildComponents();
 
-- 
2.43.0


From a11a2e7b88a6518d52c3597fbe1b8bf625921b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:50 +0000
Subject: [PATCH 063/227] fix: copying a container onto itself must not empty
 it

---
 src/vmime/addressList.cpp              | 4 ++++
 src/vmime/body.cpp                     | 4 ++++
 src/vmime/mailboxGroup.cpp             | 4 ++++
 src/vmime/messageIdSequence.cpp        | 4 ++++
 src/vmime/parameterizedHeaderField.cpp | 4 ++++
 src/vmime/text.cpp                     | 4 ++++
 6 files changed, 24 insertions(+)

diff --git a/src/vmime/addressList.cpp b/src/vmime/addressList.cpp
index 75f6224..ed86357 100644
--- a/src/vmime/addressList.cpp
+++ b/src/vmime/addressList.cpp
@@ -113,6 +113,10 @@ void addressList::generateImpl(
 
 void addressList::copyFrom(const component& other) {
 
+	if (this == &other) {
+		return;
+	}
+
 	const addressList& addrList = dynamic_cast <const addressList&>(other);
 
 	removeAllAddresses();
diff --git a/src/vmime/body.cpp b/src/vmime/body.cpp
index 6ce6cb5..975f533 100644
--- a/src/vmime/body.cpp
+++ b/src/vmime/body.cpp
@@ -837,6 +837,10 @@ shared_ptr <component> body::clone() const {
 
 void body::copyFrom(const component& other) {
 
+	if (this == &other) {
+		return;
+	}
+
 	const body& bdy = dynamic_cast <const body&>(other);
 
 	m_prologText = bdy.m_prologText;
diff --git a/src/vmime/mailboxGroup.cpp b/src/vmime/mailboxGroup.cpp
index d5d7b62..274c731 100644
--- a/src/vmime/mailboxGroup.cpp
+++ b/src/vmime/mailboxGroup.cpp
@@ -192,6 +192,10 @@ void mailboxGroup::generateImpl(
 
 void mailboxGroup::copyFrom(const component& other) {
 
+	if (this == &other) {
+		return;
+	}
+
 	const mailboxGroup& source = dynamic_cast <const mailboxGroup&>(other);
 
 	m_name = source.m_name;
diff --git a/src/vmime/messageIdSequence.cpp b/src/vmime/messageIdSequence.cpp
index e1d324a..bbc7a48 100644
--- a/src/vmime/messageIdSequence.cpp
+++ b/src/vmime/messageIdSequence.cpp
@@ -56,6 +56,10 @@ shared_ptr <component> messageIdSequence::clone() const {
 
 void messageIdSequence::copyFrom(const component& other) {
 
+	if (this == &other) {
+		return;
+	}
+
 	const messageIdSequence& midSeq = dynamic_cast <const messageIdSequence&>(other);
 
 	removeAllMessageIds();
diff --git a/src/vmime/parameterizedHeaderField.cpp b/src/vmime/parameterizedHeaderField.cpp
index ece3afc..e444351 100644
--- a/src/vmime/parameterizedHeaderField.cpp
+++ b/src/vmime/parameterizedHeaderField.cpp
@@ -389,6 +389,10 @@ size_t parameterizedHeaderField::getGeneratedSize(const generationContext& ctx)
 
 void parameterizedHeaderField::copyFrom(const component& other) {
 
+	if (this == &other) {
+		return;
+	}
+
 	headerField::copyFrom(other);
 
 	const parameterizedHeaderField& source = dynamic_cast<const parameterizedHeaderField&>(other);
diff --git a/src/vmime/text.cpp b/src/vmime/text.cpp
index 2c14110..85ceb43 100644
--- a/src/vmime/text.cpp
+++ b/src/vmime/text.cpp
@@ -104,6 +104,10 @@ void text::generateImpl(
 
 void text::copyFrom(const component& other) {
 
+	if (this == &other) {
+		return;
+	}
+
 	const text& t = dynamic_cast <const text&>(other);
 
 	removeAllWords();
-- 
2.43.0


From fbac3b0f7ca0a9be9367a4ef0ca66a3c2617731c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:50 +0000
Subject: [PATCH 064/227] fix: copying an encoding must copy its usage

---
 src/vmime/encoding.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vmime/encoding.cpp b/src/vmime/encoding.cpp
index e949eff..a54b870 100644
--- a/src/vmime/encoding.cpp
+++ b/src/vmime/encoding.cpp
@@ -293,6 +293,7 @@ void encoding::copyFrom(const component& other) {
 	const encoding& e = dynamic_cast <const encoding&>(other);
 
 	m_name = e.m_name;
+	m_usage = e.m_usage;
 }
 
 
-- 
2.43.0


From aca0e0255a99483f6628a1e8bc7f2fed6c764a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:39 +0000
Subject: [PATCH 065/227] fix: generate a body which is not attached to a part

---
 src/vmime/body.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/vmime/body.cpp b/src/vmime/body.cpp
index 975f533..bb78d2d 100644
--- a/src/vmime/body.cpp
+++ b/src/vmime/body.cpp
@@ -721,7 +721,8 @@ void body::setContentType(const mediaType& type) {
 const mediaType body::getContentType() const {
 
 	shared_ptr <const contentTypeField> ctf =
-		m_part->getHeader()->findField <contentTypeField>(fields::CONTENT_TYPE);
+		m_part ? m_part->getHeader()->findField <contentTypeField>(fields::CONTENT_TYPE)
+		       : null;
 
 	if (ctf) {
 
@@ -757,7 +758,8 @@ void body::setCharset(const charset& chset) {
 const charset body::getCharset() const {
 
 	const shared_ptr <const contentTypeField> ctf =
-		m_part->getHeader()->findField <contentTypeField>(fields::CONTENT_TYPE);
+		m_part ? m_part->getHeader()->findField <contentTypeField>(fields::CONTENT_TYPE)
+		       : null;
 
 	if (ctf) {
 
@@ -788,7 +790,8 @@ void body::setEncoding(const encoding& enc) {
 const encoding body::getEncoding() const {
 
 	shared_ptr <const headerField> cef =
-		m_part->getHeader()->findField(fields::CONTENT_TRANSFER_ENCODING);
+		m_part ? m_part->getHeader()->findField(fields::CONTENT_TRANSFER_ENCODING)
+		       : null;
 
 	if (cef) {
 
-- 
2.43.0


From 8798d03d1062cf06b68cd461c8e84ed112ba5715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:39 +0000
Subject: [PATCH 066/227] fix: check the position before inserting a part

---
 src/vmime/body.cpp | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/vmime/body.cpp b/src/vmime/body.cpp
index bb78d2d..055ef0d 100644
--- a/src/vmime/body.cpp
+++ b/src/vmime/body.cpp
@@ -1014,16 +1014,21 @@ void body::insertPartBefore(
 	const shared_ptr <bodyPart>& part
 ) {
 
+	if (std::find(m_parts.begin(), m_parts.end(), beforePart) == m_parts.end()) {
+		throw exceptions::no_such_part();
+	}
+
+	if (part == beforePart) {
+		return;
+	}
+
+	// This may move 'part' from another position in this body
 	initNewPart(part);
 
 	const std::vector <shared_ptr <bodyPart> >::iterator it = std::find(
 		m_parts.begin(), m_parts.end(), beforePart
 	);
 
-	if (it == m_parts.end()) {
-		throw exceptions::no_such_part();
-	}
-
 	m_parts.insert(it, part);
 }
 
@@ -1044,16 +1049,21 @@ void body::insertPartAfter(
 	const shared_ptr <bodyPart>& part
 ) {
 
+	if (std::find(m_parts.begin(), m_parts.end(), afterPart) == m_parts.end()) {
+		throw exceptions::no_such_part();
+	}
+
+	if (part == afterPart) {
+		return;
+	}
+
+	// This may move 'part' from another position in this body
 	initNewPart(part);
 
 	const std::vector <shared_ptr <bodyPart> >::iterator it = std::find(
 		m_parts.begin(), m_parts.end(), afterPart
 	);
 
-	if (it == m_parts.end()) {
-		throw exceptions::no_such_part();
-	}
-
 	m_parts.insert(it + 1, part);
 }
 
-- 
2.43.0


From 6263bdd6e1d4268cb69e099c6000fee0ace3e542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:50 +0000
Subject: [PATCH 067/227] fix: parts and bodies must not refer to a part they
 no longer belong to

---
 src/vmime/body.cpp     | 12 ++++++++++--
 src/vmime/bodyPart.cpp | 23 +++++++++++++++++------
 src/vmime/bodyPart.hpp |  1 +
 3 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/src/vmime/body.cpp b/src/vmime/body.cpp
index 055ef0d..ae30a8d 100644
--- a/src/vmime/body.cpp
+++ b/src/vmime/body.cpp
@@ -51,6 +51,7 @@ body::body()
 
 body::~body() {
 
+	removeAllParts();
 }
 
 
@@ -816,8 +817,7 @@ void body::setParentPart(bodyPart* parent) {
 	for (std::vector <shared_ptr <bodyPart> >::iterator it = m_parts.begin() ;
 	     it != m_parts.end() ; ++it) {
 
-		shared_ptr <bodyPart> childPart = *it;
-		parent->importChildPart(childPart);
+		(*it)->m_parent = parent;
 	}
 }
 
@@ -1086,18 +1086,26 @@ void body::removePart(const shared_ptr <bodyPart>& part) {
 		throw exceptions::no_such_part();
 	}
 
+	(*it)->m_parent = NULL;
 	m_parts.erase(it);
 }
 
 
 void body::removePart(const size_t pos) {
 
+	m_parts[pos]->m_parent = NULL;
 	m_parts.erase(m_parts.begin() + pos);
 }
 
 
 void body::removeAllParts() {
 
+	for (std::vector <shared_ptr <bodyPart> >::iterator it = m_parts.begin() ;
+	     it != m_parts.end() ; ++it) {
+
+		(*it)->m_parent = NULL;
+	}
+
 	m_parts.clear();
 }
 
diff --git a/src/vmime/bodyPart.cpp b/src/vmime/bodyPart.cpp
index 5c59fe5..3b6a78a 100644
--- a/src/vmime/bodyPart.cpp
+++ b/src/vmime/bodyPart.cpp
@@ -36,6 +36,13 @@ bodyPart::bodyPart()
 }
 
 
+bodyPart::~bodyPart() {
+
+	// The body may still be referenced by someone else
+	m_body->setParentPart(NULL);
+}
+
+
 void bodyPart::parseImpl(
 	parsingContext& ctx,
 	const shared_ptr <utility::parserInputStreamAdapter>& parser,
@@ -145,15 +152,19 @@ shared_ptr <body> bodyPart::getBody() {
 
 void bodyPart::setBody(const shared_ptr <body>& b) {
 
-	bodyPart* oldPart = b->m_part;
-
-	m_body = b;
-	m_body->setParentPart(this);
+	if (b == m_body) {
+		return;
+	}
 
 	// A body is associated to one and only one part
-	if (oldPart) {
-		oldPart->setBody(make_shared <body>());
+	if (b->m_part) {
+		b->m_part->setBody(make_shared <body>());
 	}
+
+	m_body->setParentPart(NULL);
+
+	m_body = b;
+	m_body->setParentPart(this);
 }
 
 
diff --git a/src/vmime/bodyPart.hpp b/src/vmime/bodyPart.hpp
index e7e5ade..4173182 100644
--- a/src/vmime/bodyPart.hpp
+++ b/src/vmime/bodyPart.hpp
@@ -44,6 +44,7 @@ class VMIME_EXPORT bodyPart : public component {
 public:
 
 	bodyPart();
+	~bodyPart();
 
 	/** Return the header section of this part.
 	  *
-- 
2.43.0


From 3583f556e4a00f2e9ae8fc437efd5ba875b2b780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:51 +0000
Subject: [PATCH 068/227] fix: iconv: incomplete sequence at the end of a
 chunk, and full output buffer, are not invalid sequences

---
 src/vmime/charsetConverter_iconv.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/vmime/charsetConverter_iconv.cpp b/src/vmime/charsetConverter_iconv.cpp
index 5c4cc17..b6d76b3 100644
--- a/src/vmime/charsetConverter_iconv.cpp
+++ b/src/vmime/charsetConverter_iconv.cpp
@@ -194,14 +194,20 @@ void charsetConverter_iconv::convert(
 		if (iconv(cd, ICONV_IN_TYPE(&inPtr), ptrLength,
 			      ICONV_OUT_TYPE(&outPtr), &outLength) == static_cast <size_t>(-1)) {
 
+			const int error = errno;
+
 			if (st && inPtr) {
 				st->inputBytesRead += (inPtr - inBuffer);
 				st->outputBytesWritten += (outPtr - outBuffer);
 			}
 
+			// An incomplete sequence is not an error as long as there is more
+			// data to come, nor is a full output buffer
+			const bool isInvalid = (error != E2BIG && !(error == EINVAL && !in.eof()));
+
 			// Illegal input sequence or input sequence has no equivalent
 			// sequence in the destination charset.
-			if (prevIsInvalid) {
+			if (prevIsInvalid && isInvalid) {
 
 				// Write successfully converted bytes
 				out.write(outBuffer, sizeof(outBuffer) - outLength);
@@ -217,6 +223,7 @@ void charsetConverter_iconv::convert(
 				// Skip a byte and leave unconverted bytes in the input buffer
 				std::copy(const_cast <byte_t*>(inPtr + 1), inBuffer + sizeof(inBuffer), inBuffer);
 				inPos = inLength - 1;
+				prevIsInvalid = false;
 
 			} else {
 
@@ -227,9 +234,7 @@ void charsetConverter_iconv::convert(
 				std::copy(const_cast <byte_t*>(inPtr), inBuffer + sizeof(inBuffer), inBuffer);
 				inPos = inLength;
 
-				if (errno != E2BIG) {
-					prevIsInvalid = true;
-				}
+				prevIsInvalid = isInvalid;
 			}
 
 		} else {
-- 
2.43.0


From abbb0ae9cb59dc1cc6e29376a1d79963137a42d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:51 +0000
Subject: [PATCH 069/227] fix: iconv: count the bytes which end the conversion

---
 src/vmime/charsetConverter_iconv.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/vmime/charsetConverter_iconv.cpp b/src/vmime/charsetConverter_iconv.cpp
index b6d76b3..a5718b2 100644
--- a/src/vmime/charsetConverter_iconv.cpp
+++ b/src/vmime/charsetConverter_iconv.cpp
@@ -242,8 +242,12 @@ void charsetConverter_iconv::convert(
 			// Write successfully converted bytes
 			out.write(outBuffer, sizeof(outBuffer) - outLength);
 
-			if (st && inPtr) {
-				st->inputBytesRead += (inPtr - inBuffer);
+			if (st) {
+
+				if (inPtr) {
+					st->inputBytesRead += (inPtr - inBuffer);
+				}
+
 				st->outputBytesWritten += (outPtr - outBuffer);
 			}
 
-- 
2.43.0


From 10ea7ca96e6a55cf219eb892fea25d106086ebff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:52 +0000
Subject: [PATCH 070/227] fix: iconv: use the replacement specified in filtered
 stream

---
 src/vmime/charsetConverter_iconv.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vmime/charsetConverter_iconv.cpp b/src/vmime/charsetConverter_iconv.cpp
index a5718b2..7e4da2a 100644
--- a/src/vmime/charsetConverter_iconv.cpp
+++ b/src/vmime/charsetConverter_iconv.cpp
@@ -374,7 +374,7 @@ void charsetFilteredOutputStream_iconv::writeImpl(
 					throw exceptions::illegal_byte_sequence_for_charset();
 				}
 
-				outputInvalidChar(m_stream, cd);
+				outputInvalidChar(m_stream, cd, m_options);
 
 				std::copy(
 					m_unconvBuffer + 1,
@@ -510,7 +510,7 @@ void charsetFilteredOutputStream_iconv::flush() {
 					throw exceptions::illegal_byte_sequence_for_charset();
 				}
 
-				outputInvalidChar(m_stream, cd);
+				outputInvalidChar(m_stream, cd, m_options);
 
 				offset++;
 				m_unconvCount--;
-- 
2.43.0


From f31f32c1f8d7204d7fb1c6035a479c1f4abeb607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:52 +0000
Subject: [PATCH 071/227] fix: iconv: return to initial state when flushing
 filtered stream

---
 src/vmime/charsetConverter_iconv.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/vmime/charsetConverter_iconv.cpp b/src/vmime/charsetConverter_iconv.cpp
index 7e4da2a..37d8660 100644
--- a/src/vmime/charsetConverter_iconv.cpp
+++ b/src/vmime/charsetConverter_iconv.cpp
@@ -533,6 +533,14 @@ void charsetFilteredOutputStream_iconv::flush() {
 		}
 	}
 
+	// Return to the initial state
+	byte_t* outPtr = m_outputBuffer;
+	size_t outLength = sizeof(m_outputBuffer);
+
+	if (iconv(cd, NULL, NULL, ICONV_OUT_TYPE(&outPtr), &outLength) != static_cast <size_t>(-1)) {
+		m_stream.write(m_outputBuffer, sizeof(m_outputBuffer) - outLength);
+	}
+
 	m_stream.flush();
 }
 
-- 
2.43.0


From a15b8e2033e32bd2d31b57c9a02001be8e1637d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:06 +0000
Subject: [PATCH 072/227] fix: ICU: filtered stream must refuse invalid input
 when asked to

---
 src/vmime/charsetConverter_icu.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/vmime/charsetConverter_icu.cpp b/src/vmime/charsetConverter_icu.cpp
index 5016dca..c4df079 100644
--- a/src/vmime/charsetConverter_icu.cpp
+++ b/src/vmime/charsetConverter_icu.cpp
@@ -353,7 +353,7 @@ charsetFilteredOutputStream_icu::charsetFilteredOutputStream_icu(
 
 		// Tell ICU top stop (and return an error) on illegal byte sequences
 		ucnv_setToUCallBack(
-			m_to, UCNV_TO_U_CALLBACK_STOP, UCNV_SUB_STOP_ON_ILLEGAL, NULL, NULL, &err
+			m_from, UCNV_TO_U_CALLBACK_STOP, UCNV_SUB_STOP_ON_ILLEGAL, NULL, NULL, &err
 		);
 
 		if (U_FAILURE(err)) {
@@ -517,6 +517,13 @@ void charsetFilteredOutputStream_icu::flush() {
 
 		if (U_FAILURE(toErr) && toErr != U_BUFFER_OVERFLOW_ERROR) {
 
+			if (toErr == U_INVALID_CHAR_FOUND ||
+			    toErr == U_TRUNCATED_CHAR_FOUND ||
+			    toErr == U_ILLEGAL_CHAR_FOUND) {
+
+				throw exceptions::illegal_byte_sequence_for_charset();
+			}
+
 			throw exceptions::charset_conv_error(
 				"[ICU] Error converting to Unicode from '" + m_sourceCharset.getName() + "'."
 			);
@@ -551,6 +558,13 @@ void charsetFilteredOutputStream_icu::flush() {
 
 			if (fromErr != U_BUFFER_OVERFLOW_ERROR && U_FAILURE(fromErr)) {
 
+				if (fromErr == U_INVALID_CHAR_FOUND ||
+				    fromErr == U_TRUNCATED_CHAR_FOUND ||
+				    fromErr == U_ILLEGAL_CHAR_FOUND) {
+
+					throw exceptions::illegal_byte_sequence_for_charset();
+				}
+
 				throw exceptions::charset_conv_error(
 					"[ICU] Error converting from Unicode to '" + m_destCharset.getName() + "'."
 				);
-- 
2.43.0


From a63b44352c200ac8bdf7ea67cd69bb585743b39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:15 +0000
Subject: [PATCH 073/227] fix: ICU: return to initial state when flushing
 filtered stream

---
 src/vmime/charsetConverter_icu.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/vmime/charsetConverter_icu.cpp b/src/vmime/charsetConverter_icu.cpp
index c4df079..cd5a814 100644
--- a/src/vmime/charsetConverter_icu.cpp
+++ b/src/vmime/charsetConverter_icu.cpp
@@ -530,12 +530,11 @@ void charsetFilteredOutputStream_icu::flush() {
 		}
 
 		const size_t uniLength = uniTarget - &uniBuffer[0];
-		if(uniLength == 0) {
-			continue;
-		}
+		// (even if there is nothing to convert, a stateful charset may have
+		// to return to its initial state)
 
 		// Allocate buffer for destination charset
-		const size_t cpSize = ucnv_getMinCharSize(m_to) * uniLength;
+		const size_t cpSize = ucnv_getMaxCharSize(m_to) * (uniLength + 1);
 		std::vector <char> cpBuffer(cpSize);
 
 		// Convert from Unicode to destination charset
-- 
2.43.0


From 2ea2c1273ad8166b41874b2eb1f106a279b6875b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:09 +0000
Subject: [PATCH 074/227] fix: iconv: count the bytes which replace an invalid
 sequence

---
 src/vmime/charsetConverter_iconv.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/vmime/charsetConverter_iconv.cpp b/src/vmime/charsetConverter_iconv.cpp
index 37d8660..69be47d 100644
--- a/src/vmime/charsetConverter_iconv.cpp
+++ b/src/vmime/charsetConverter_iconv.cpp
@@ -83,9 +83,10 @@ extern "C" {
 
 
 
-// Output replacement char when an invalid sequence is encountered
+// Output replacement char when an invalid sequence is encountered,
+// and return the number of bytes written
 template <typename OUTPUT_CLASS, typename ICONV_DESC>
-void outputInvalidChar(
+vmime::size_t outputInvalidChar(
 	OUTPUT_CLASS& out,
 	ICONV_DESC cd,
 	const vmime::charsetConverterOptions& opts = vmime::charsetConverterOptions()
@@ -102,7 +103,10 @@ void outputInvalidChar(
 		ICONV_OUT_TYPE(&invalidCharOutPtr), &invalidCharOutLen) != static_cast <size_t>(-1)) {
 
 		out.write(invalidCharOutBuffer, 16 - invalidCharOutLen);
+		return 16 - invalidCharOutLen;
 	}
+
+	return 0;
 }
 
 
@@ -218,7 +222,11 @@ void charsetConverter_iconv::convert(
 
 				// Output a special character to indicate we don't known how to
 				// convert the sequence at this position
-				outputInvalidChar(out, cd, m_options);
+				const size_t written = outputInvalidChar(out, cd, m_options);
+
+				if (st) {
+					st->outputBytesWritten += written;
+				}
 
 				// Skip a byte and leave unconverted bytes in the input buffer
 				std::copy(const_cast <byte_t*>(inPtr + 1), inBuffer + sizeof(inBuffer), inBuffer);
-- 
2.43.0


From a523913fd6b8e6e5edde8467d272caff9905747e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:24 +0000
Subject: [PATCH 075/227] fix: quoted-printable lines which contain a lone CR
 must not exceed the maximum length

---
 src/vmime/utility/encoder/qpEncoder.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/vmime/utility/encoder/qpEncoder.cpp b/src/vmime/utility/encoder/qpEncoder.cpp
index 681c6d5..3830e1d 100644
--- a/src/vmime/utility/encoder/qpEncoder.cpp
+++ b/src/vmime/utility/encoder/qpEncoder.cpp
@@ -344,7 +344,21 @@ size_t qpEncoder::encode(
 			} // switch (c)
 
 			// Soft line break : "=\r\n" (never between the CR and the LF of a line break)
-			if (cutLines && curCol >= maxLineLength - 1 && !(text && c == '\r')) {
+			bool softBreak = (cutLines && curCol >= maxLineLength - 1);
+
+			if (softBreak && text && c == '\r') {
+
+				// Need to get more data?
+				if (bufferPos >= bufferLength) {
+
+					bufferLength = in.read(buffer, sizeof(buffer));
+					bufferPos = 0;
+				}
+
+				softBreak = !(bufferPos < bufferLength && buffer[bufferPos] == '\n');
+			}
+
+			if (softBreak) {
 
 				outBuffer[outBufferPos] = '=';
 				outBuffer[outBufferPos + 1] = '\r';
-- 
2.43.0


From 2c9981f389af5c442f5ff8a40e6e71829d1b4e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:33 +0000
Subject: [PATCH 076/227] fix: NUL is not allowed in 7-bit encoding

---
 src/vmime/encoding.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/encoding.cpp b/src/vmime/encoding.cpp
index a54b870..6cc3a5f 100644
--- a/src/vmime/encoding.cpp
+++ b/src/vmime/encoding.cpp
@@ -157,7 +157,7 @@ const encoding encoding::decideImpl(
 
 	const string::difference_type length = end - begin;
 	const string::difference_type count = std::count_if(
-		begin, end, [](unsigned char x) { return x <= 127; });
+		begin, end, [](unsigned char x) { return x >= 1 && x <= 127; });
 
 	// All is in 7-bit US-ASCII --> 7-bit (or Quoted-Printable...)
 	if (length == count) {
-- 
2.43.0


From 3a72c5d00781f16b87c8f15b48470ea18ceba552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:50 +0000
Subject: [PATCH 077/227] fix: message parser must not fail on a single-part
 message with an unknown text type

---
 src/vmime/messageParser.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/vmime/messageParser.cpp b/src/vmime/messageParser.cpp
index d7dd592..37874cb 100644
--- a/src/vmime/messageParser.cpp
+++ b/src/vmime/messageParser.cpp
@@ -151,10 +151,17 @@ void messageParser::findTextParts(
 
 		if (accept) {
 
-			shared_ptr <textPart> txtPart = textPartFactory::getInstance()->create(type);
-			txtPart->parse(msg, msg, msg);
+			try {
+
+				shared_ptr <textPart> txtPart = textPartFactory::getInstance()->create(type);
+				txtPart->parse(msg, msg, msg);
+
+				m_textParts.push_back(txtPart);
 
-			m_textParts.push_back(txtPart);
+			} catch (exceptions::no_factory_available& e) {
+
+				// Content-type not recognized.
+			}
 		}
 
 	// Multipart message
-- 
2.43.0


From ae70e924db41a34695d75e338daaee10638ace66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:50 +0000
Subject: [PATCH 078/227] fix: adding an attachment must keep all the fields
 which describe the existing contents

---
 src/vmime/attachmentHelper.cpp | 72 ++++++++++++++++++++++------------
 1 file changed, 47 insertions(+), 25 deletions(-)

diff --git a/src/vmime/attachmentHelper.cpp b/src/vmime/attachmentHelper.cpp
index 8605122..9f6e5a8 100644
--- a/src/vmime/attachmentHelper.cpp
+++ b/src/vmime/attachmentHelper.cpp
@@ -30,12 +30,51 @@
 #include "vmime/disposition.hpp"
 #include "vmime/emptyContentHandler.hpp"
 
+#include "vmime/utility/stringUtils.hpp"
+
 #include <iterator>
 
 
 namespace vmime {
 
 
+// Move the fields which describe the contents of a part ("Content-*")
+// from one header to another one, with their parameters
+static void moveContentFields(const shared_ptr <header>& from, const shared_ptr <header>& to) {
+
+	const std::vector <shared_ptr <headerField> > fieldList = from->getFieldList();
+
+	for (size_t i = 0 ; i < fieldList.size() ; ++i) {
+
+		const string name = utility::stringUtils::toLower(fieldList[i]->getName());
+
+		if (name.compare(0, 8, "content-") == 0) {
+			from->removeField(fieldList[i]);
+			to->appendField(fieldList[i]);
+		}
+	}
+
+	// An inline root part is not an attachment, but another part may be
+	// one: see isBodyPartAnAttachment()
+	mediaType type(mediaTypes::TEXT, mediaTypes::TEXT_PLAIN);
+	shared_ptr <const mediaType> ctype = to->findFieldValue <mediaType>(fields::CONTENT_TYPE);
+
+	if (ctype) {
+		type = *ctype;
+	}
+
+	shared_ptr <const contentDispositionField> cdf =
+		to->findField <contentDispositionField>(fields::CONTENT_DISPOSITION);
+
+	if ((type.getType() == mediaTypes::TEXT || type.getType() == mediaTypes::MULTIPART) &&
+	    cdf && cdf->getValue <contentDisposition>()->getName() == contentDispositionTypes::INLINE &&
+	    !to->hasField(fields::CONTENT_ID) && !to->hasField(fields::CONTENT_LOCATION)) {
+
+		to->removeAllFields(fields::CONTENT_DISPOSITION);
+	}
+}
+
+
 // static
 bool attachmentHelper::isBodyPartAnAttachment(
 	const shared_ptr <const bodyPart>& part,
@@ -235,19 +274,7 @@ void attachmentHelper::addAttachment(const shared_ptr <message>& msg, const shar
 			// the root part of the message
 			shared_ptr <bodyPart> container = make_shared <bodyPart>();
 
-			if (msg->getHeader()->hasField(fields::CONTENT_TYPE)) {
-
-				container->getHeader()->ContentType()->setValue(
-					msg->getHeader()->ContentType()->getValue()
-				);
-			}
-
-			if (msg->getHeader()->hasField(fields::CONTENT_TRANSFER_ENCODING)) {
-
-				container->getHeader()->ContentTransferEncoding()->setValue(
-					msg->getHeader()->ContentTransferEncoding()->getValue()
-				);
-			}
+			moveContentFields(msg->getHeader(), container->getHeader());
 
 			// Move parts from the root part to this new part
 			const std::vector <shared_ptr <bodyPart> > partList =
@@ -268,17 +295,15 @@ void attachmentHelper::addAttachment(const shared_ptr <message>& msg, const shar
 			// root to a new child part.
 			shared_ptr <bodyPart> child = make_shared <bodyPart>();
 
-			if (msg->getHeader()->hasField(fields::CONTENT_TYPE)) {
+			moveContentFields(msg->getHeader(), child->getHeader());
 
-				child->getHeader()->ContentType()->setValue(
-					msg->getHeader()->ContentType()->getValue()
-				);
-			}
+			if (!child->getHeader()->hasField(fields::CONTENT_TYPE) &&
+			    !child->getHeader()->hasField(fields::CONTENT_DISPOSITION)) {
 
-			if (msg->getHeader()->hasField(fields::CONTENT_TRANSFER_ENCODING)) {
-
-				child->getHeader()->ContentTransferEncoding()->setValue(
-					msg->getHeader()->ContentTransferEncoding()->getValue()
+				// This is the default type of the root part, but not the
+				// one which is assumed when looking for attachments
+				child->getHeader()->ContentType()->setValue(
+					mediaType(mediaTypes::TEXT, mediaTypes::TEXT_PLAIN)
 				);
 			}
 
@@ -291,9 +316,6 @@ void attachmentHelper::addAttachment(const shared_ptr <message>& msg, const shar
 		// Set the root part to 'multipart/mixed'
 		msg->getHeader()->ContentType()->setValue(mpMixed);
 
-		msg->getHeader()->removeAllFields(vmime::fields::CONTENT_DISPOSITION);
-		msg->getHeader()->removeAllFields(vmime::fields::CONTENT_TRANSFER_ENCODING);
-
 		part = msg;
 	}
 
-- 
2.43.0


From 65a58f0845c2893f4621edef85b6f35b622ad6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:50 +0000
Subject: [PATCH 079/227] fix: an attachment must not be added inside of
 another attachment

---
 src/vmime/attachmentHelper.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/vmime/attachmentHelper.cpp b/src/vmime/attachmentHelper.cpp
index 9f6e5a8..41b817f 100644
--- a/src/vmime/attachmentHelper.cpp
+++ b/src/vmime/attachmentHelper.cpp
@@ -330,6 +330,12 @@ shared_ptr <bodyPart> attachmentHelper::findBodyPart(
 	const mediaType& type
 ) {
 
+	// A part which is attached to the message, and all it contains,
+	// does not belong to the message itself
+	if (isBodyPartAnAttachment(part)) {
+		return null;
+	}
+
 	if (part->getBody()->getContentType() == type) {
 		return part;
 	}
-- 
2.43.0


From 2fa224b5b29cc0631c3e4c88451b56b478fdb88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:36 +0000
Subject: [PATCH 080/227] fix: CRLF to LF filter: write the last CR on flush()

---
 src/vmime/utility/filteredStream.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/vmime/utility/filteredStream.cpp b/src/vmime/utility/filteredStream.cpp
index d5ec17b..16d87c0 100644
--- a/src/vmime/utility/filteredStream.cpp
+++ b/src/vmime/utility/filteredStream.cpp
@@ -282,9 +282,13 @@ void CRLFToLFFilteredOutputStream::writeImpl(const byte_t* const data, const siz
 
 void CRLFToLFFilteredOutputStream::flush() {
 
-	m_stream.flush();
+	// The last '\r' has not been written yet: see writeImpl()
+	if (m_previousChar == '\r') {
+		m_stream.write("\r", 1);
+		m_previousChar = '\0';
+	}
 
-	// TODO
+	m_stream.flush();
 }
 
 
-- 
2.43.0


From bcbbd5c1b8213c3cde46cb5554ab116ed5edbbad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:36 +0000
Subject: [PATCH 081/227] fix: dot filter for input streams: the first line of
 the content is a line, too

---
 src/vmime/utility/filteredStream.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vmime/utility/filteredStream.cpp b/src/vmime/utility/filteredStream.cpp
index 16d87c0..b7259d8 100644
--- a/src/vmime/utility/filteredStream.cpp
+++ b/src/vmime/utility/filteredStream.cpp
@@ -51,7 +51,7 @@ size_t filteredOutputStream::getBlockSize() {
 dotFilteredInputStream::dotFilteredInputStream(inputStream& is)
 	: m_stream(is),
 	  m_previousChar2('\0'),
-	  m_previousChar1('\0') {
+	  m_previousChar1('\n') {
 
 }
 
@@ -71,7 +71,7 @@ bool dotFilteredInputStream::eof() const {
 void dotFilteredInputStream::reset() {
 
 	m_previousChar2 = '\0';
-	m_previousChar1 = '\0';
+	m_previousChar1 = '\n';  // beginning of a line
 
 	m_stream.reset();
 }
-- 
2.43.0


From 438a754eb69fe37a81bb57a9efa32a826e562f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:45 +0000
Subject: [PATCH 082/227] fix: dot filter for output streams: the content must
 not be changed after a leading dot

---
 src/vmime/utility/filteredStream.cpp | 14 ++++++++------
 src/vmime/utility/filteredStream.hpp |  1 +
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/vmime/utility/filteredStream.cpp b/src/vmime/utility/filteredStream.cpp
index b7259d8..1a807b1 100644
--- a/src/vmime/utility/filteredStream.cpp
+++ b/src/vmime/utility/filteredStream.cpp
@@ -133,7 +133,8 @@ size_t dotFilteredInputStream::skip(const size_t /* count */) {
 dotFilteredOutputStream::dotFilteredOutputStream(outputStream& os)
 	: m_stream(os),
 	  m_previousChar('\0'),
-	  m_start(true) {
+	  m_start(true),
+	  m_leadingDot(false) {
 
 }
 
@@ -154,15 +155,15 @@ void dotFilteredOutputStream::writeImpl(const byte_t* const data, const size_t c
 	const byte_t* end = data + count;
 	const byte_t* start = data;
 
-	if (m_previousChar == '.') {
+	// <DOT><CR><LF> at the beginning of content, with the <DOT> alone
+	// in the first buffer
+	if (m_leadingDot) {
 
 		if (data[0] == '\n' || data[0] == '\r') {
-
 			m_stream.write(".", 1);  // extra <DOT>
-			m_stream.write(data, 1);
-
-			pos = data + 1;
 		}
+
+		m_leadingDot = false;
 	}
 
 	// Replace "\n." with "\n.."
@@ -185,6 +186,7 @@ void dotFilteredOutputStream::writeImpl(const byte_t* const data, const size_t c
 				m_stream.write("..", 2);
 			} else {
 				m_stream.write(".", 1);
+				m_leadingDot = (pos + 1 == end);
 			}
 
 			start = pos + 1;
diff --git a/src/vmime/utility/filteredStream.hpp b/src/vmime/utility/filteredStream.hpp
index 2414c54..2acf38e 100644
--- a/src/vmime/utility/filteredStream.hpp
+++ b/src/vmime/utility/filteredStream.hpp
@@ -126,6 +126,7 @@ private:
 	outputStream& m_stream;
 	byte_t m_previousChar;
 	bool m_start;
+	bool m_leadingDot;
 };
 
 
-- 
2.43.0


From b0e53af4719359780e7865c21ba639145c497228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:45 +0000
Subject: [PATCH 083/227] fix: stop-sequence filter: find the sequence when it
 overlaps with a beginning of itself

---
 src/vmime/utility/filteredStream.hpp | 141 +++++----------------------
 1 file changed, 23 insertions(+), 118 deletions(-)

diff --git a/src/vmime/utility/filteredStream.hpp b/src/vmime/utility/filteredStream.hpp
index 2acf38e..dbbc8f8 100644
--- a/src/vmime/utility/filteredStream.hpp
+++ b/src/vmime/utility/filteredStream.hpp
@@ -237,6 +237,7 @@ public:
 	void reset() {
 
 		m_found = 0;
+		m_eof = false;
 		m_stream.reset();
 	}
 
@@ -247,134 +248,38 @@ public:
 			return 0;
 		}
 
-		if (m_stream.eof()) {
-
-			if (m_found != 0) {
-
-				const size_t found = m_found;
-
-				for (size_t f = 0 ; f < found ; ++f) {
-					data[f] = m_sequence[f];
-				}
-
-				m_found = 0;
-				m_eof = true;
+		// Put back the beginning of the sequence which was found at the
+		// end of the previous buffer, as it may not be the sequence
+		std::copy(m_sequence, m_sequence + m_found, data);
 
-				return found;
+		size_t read = m_found;
 
-			} else {
-
-				m_eof = true;
-				return 0;
-			}
+		if (m_stream.eof()) {
+			m_found = 0;
+			m_eof = true;
+			return read;
 		}
 
-		size_t read = m_stream.read(data, count - COUNT);
-
-		byte_t* end = data + read;
-		byte_t* pos = data;
-
-		while (pos < end) {
-
-			// Very simple case, search for the whole sequence
-			if (m_found == 0) {
-
-				while (pos < end) {
-
-					pos = std::find(pos, end, m_sequence[0]);
-
-					if (pos == end) {
-						return read;
-					}
-
-					m_found = 1;
-					++pos;
-
-					while (pos < end && m_found < COUNT && m_sequence[m_found] == *pos) {
-						++m_found;
-						++pos;
-					}
-
-					// Didn't found whole sequence
-					if (m_found != COUNT) {
-
-						// We reached the end of the buffer
-						if (pos == end) {
-
-							return read - m_found;
+		read += m_stream.read(data + read, count - read);
 
-						// Common prefix but not whole sequence
-						} else {
+		// Search for the whole sequence
+		byte_t* const end = data + read;
+		byte_t* const pos = std::search(data, end, m_sequence, m_sequence + COUNT);
 
-							m_found = 0;
-						}
-
-					// Whole sequence found
-					} else {
-
-						// End of stream
-						return pos - data - m_found;
-					}
-				}
-
-			// More complex case: search for a sequence which has begun
-			// in a previous buffer
-			} else {
-
-				// Search for the end of the previously started sequence
-				while (pos < end && m_found < COUNT && m_sequence[m_found] == *pos) {
-					++m_found;
-					++pos;
-				}
-
-				if (m_found != COUNT) {
-
-					// End of buffer
-					if (pos == end) {
-
-						// No data: this buffer is a sub-sequence of the
-						// searched sequence
-						return 0;
-
-					// Common prefix
-					} else {
-
-						// We have to reinject the incomplete sequence into
-						// the stream data
-
-						// -- shift right data
-						const size_t n = pos - data;
-
-						byte_t* newEnd = data + read + m_found - n;
-						byte_t* oldEnd = data + read;
-
-						for (size_t i = 0 ; i < read - n ; ++i) {
-
-							--newEnd;
-							--oldEnd;
-
-							*newEnd = *oldEnd;
-						}
-
-						// -- copy the prefix just before data
-						for (size_t f = 0 ; f < m_found ; ++f) {
-							data[f] = m_sequence[f];
-						}
-
-						read += m_found - n;
-						end += m_found - n;
-
-						m_found = 0;
-					}
+		if (pos != end) {
+			m_found = COUNT;
+			return pos - data;
+		}
 
-				} else {
+		// Keep the longest beginning of the sequence on which the buffer
+		// finishes: the sequence may continue in the next buffer
+		m_found = std::min(read, static_cast <size_t>(COUNT - 1));
 
-					return 0;  // no more data
-				}
-			}
+		while (m_found != 0 && !std::equal(end - m_found, end, m_sequence)) {
+			--m_found;
 		}
 
-		return read;
+		return read - m_found;
 	}
 
 	size_t skip(const size_t /* count */) {
-- 
2.43.0


From c27bdfe1eed48763b87bd3767f839180e4f1a1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:27 +0000
Subject: [PATCH 084/227] fix: string and region adapters: stop at the end of
 the range

---
 src/vmime/utility/inputStreamStringAdapter.cpp         | 6 +++---
 src/vmime/utility/seekableInputStreamRegionAdapter.cpp | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/vmime/utility/inputStreamStringAdapter.cpp b/src/vmime/utility/inputStreamStringAdapter.cpp
index bf09a9b..e96de12 100644
--- a/src/vmime/utility/inputStreamStringAdapter.cpp
+++ b/src/vmime/utility/inputStreamStringAdapter.cpp
@@ -64,11 +64,11 @@ void inputStreamStringAdapter::reset() {
 
 size_t inputStreamStringAdapter::read(byte_t* const data, const size_t count) {
 
-	if (m_pos + count >= m_end) {
+	if (count >= m_end - m_pos) {
 
 		const size_t remaining = m_end - m_pos;
 
-		std::copy(m_buffer.begin() + m_pos, m_buffer.end(), data);
+		std::copy(m_buffer.begin() + m_pos, m_buffer.begin() + m_end, data);
 		m_pos = m_end;
 
 		return remaining;
@@ -85,7 +85,7 @@ size_t inputStreamStringAdapter::read(byte_t* const data, const size_t count) {
 
 size_t inputStreamStringAdapter::skip(const size_t count) {
 
-	if (m_pos + count >= m_end) {
+	if (count >= m_end - m_pos) {
 
 		const size_t remaining = m_end - m_pos;
 		m_pos = m_end;
diff --git a/src/vmime/utility/seekableInputStreamRegionAdapter.cpp b/src/vmime/utility/seekableInputStreamRegionAdapter.cpp
index 3272366..43ce2d6 100644
--- a/src/vmime/utility/seekableInputStreamRegionAdapter.cpp
+++ b/src/vmime/utility/seekableInputStreamRegionAdapter.cpp
@@ -59,7 +59,7 @@ size_t seekableInputStreamRegionAdapter::read(byte_t* const data, const size_t c
 
 	size_t readBytes = 0;
 
-	if (m_position + count >= m_length) {
+	if (count >= m_length - m_position) {
 
 		const size_t remaining = m_length - m_position;
 		readBytes = m_stream->read(data, remaining);
@@ -77,7 +77,7 @@ size_t seekableInputStreamRegionAdapter::read(byte_t* const data, const size_t c
 
 size_t seekableInputStreamRegionAdapter::skip(const size_t count) {
 
-	if (m_position + count >= m_length) {
+	if (count >= m_length - m_position) {
 
 		const size_t remaining = m_length - m_position;
 		m_position += remaining;
-- 
2.43.0


From 0b12b359633912eecfe30e635ee1fbdc9dd8db14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:27 +0000
Subject: [PATCH 085/227] fix: std::istream adapter: rewinding and position
 once the end has been reached

---
 src/vmime/utility/inputStreamAdapter.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/vmime/utility/inputStreamAdapter.cpp b/src/vmime/utility/inputStreamAdapter.cpp
index 28be103..082120a 100644
--- a/src/vmime/utility/inputStreamAdapter.cpp
+++ b/src/vmime/utility/inputStreamAdapter.cpp
@@ -43,8 +43,8 @@ bool inputStreamAdapter::eof() const {
 void inputStreamAdapter::reset() {
 
 	m_stream.exceptions(std::ios_base::badbit);
-	m_stream.seekg(0, std::ios::beg);
 	m_stream.clear();
+	m_stream.seekg(0, std::ios::beg);
 }
 
 
@@ -68,7 +68,8 @@ size_t inputStreamAdapter::skip(const size_t count) {
 
 size_t inputStreamAdapter::getPosition() const {
 
-	return m_stream.tellg();
+	// tellg() fails once the end of the stream has been reached
+	return m_stream.rdbuf()->pubseekoff(0, std::ios_base::cur, std::ios_base::in);
 }
 
 
-- 
2.43.0


From f35b3f17b72f0f74fb7ef3501fb0de9f8f9a0dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:27 +0000
Subject: [PATCH 086/227] fix: parser stream: find tokens which begin with a
 non-ASCII byte

---
 src/vmime/utility/parserInputStreamAdapter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/utility/parserInputStreamAdapter.cpp b/src/vmime/utility/parserInputStreamAdapter.cpp
index dd0379e..eea650b 100644
--- a/src/vmime/utility/parserInputStreamAdapter.cpp
+++ b/src/vmime/utility/parserInputStreamAdapter.cpp
@@ -146,7 +146,7 @@ size_t parserInputStreamAdapter::findNext(
 			for (byte_t *begin = findBuffer, *end = findBuffer + findBufferLen - token.length() ;
 			     begin <= end ; ++begin) {
 
-				if (begin[0] == token[0] &&
+				if (begin[0] == static_cast <byte_t>(token[0]) &&
 				    (token.length() == 1 ||
 				     memcmp(static_cast <const void *>(&begin[1]),
 				            static_cast <const void *>(token.data() + 1),
-- 
2.43.0


From 78a62c7a308a674d1d25a1fd9f9b3433962199f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:27 +0000
Subject: [PATCH 087/227] fix: file stream: do not skip beyond the end of the
 file

---
 src/vmime/platforms/posix/posixFile.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/vmime/platforms/posix/posixFile.cpp b/src/vmime/platforms/posix/posixFile.cpp
index 4c961b6..48f79ee 100644
--- a/src/vmime/platforms/posix/posixFile.cpp
+++ b/src/vmime/platforms/posix/posixFile.cpp
@@ -41,6 +41,8 @@
 #include <stdio.h>
 #include <string.h>
 
+#include <algorithm>
+
 #include "vmime/exception.hpp"
 
 
@@ -249,9 +251,20 @@ size_t posixFileReaderInputStream::skip(const size_t count) {
 		posixFileSystemFactory::reportError(m_path, errno);
 	}
 
-	const off_t newPos = ::lseek(m_fd, count, SEEK_CUR);
+	// Do not go beyond the end of the file
+	const off_t endPos = ::lseek(m_fd, 0, SEEK_END);
 
-	if (newPos == off_t(-1)) {
+	if (endPos == off_t(-1)) {
+		posixFileSystemFactory::reportError(m_path, errno);
+	}
+
+	off_t newPos = curPos;
+
+	if (endPos > curPos) {
+		newPos += std::min(count, static_cast <size_t>(endPos - curPos));
+	}
+
+	if (::lseek(m_fd, newPos, SEEK_SET) == off_t(-1)) {
 		posixFileSystemFactory::reportError(m_path, errno);
 	}
 
-- 
2.43.0


From f68608931e6c5481c387fb371eb205653d3b473d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:27 +0000
Subject: [PATCH 088/227] fix: file stream: write all the bytes, not only those
 which the first call accepted

---
 src/vmime/platforms/posix/posixFile.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vmime/platforms/posix/posixFile.cpp b/src/vmime/platforms/posix/posixFile.cpp
index 48f79ee..eedf4b7 100644
--- a/src/vmime/platforms/posix/posixFile.cpp
+++ b/src/vmime/platforms/posix/posixFile.cpp
@@ -169,6 +169,7 @@ void posixFileWriterOutputStream::writeImpl(
 
 			array += ret;
 			size -= ret;
+			continue;
 		}
 
 		break;
-- 
2.43.0


From a92ef535175c01024807e9af21a67e82d29b9daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:34 +0000
Subject: [PATCH 089/227] fix: path: joining a path with itself

---
 src/vmime/utility/path.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vmime/utility/path.cpp b/src/vmime/utility/path.cpp
index 0c70f11..0629ae7 100644
--- a/src/vmime/utility/path.cpp
+++ b/src/vmime/utility/path.cpp
@@ -75,7 +75,8 @@ path path::operator/(const component& c) const {
 
 path& path::operator/=(const path& p) {
 
-	const list::size_type size = m_list.size();
+	// Warning: 'p' may be this path
+	const list::size_type size = p.m_list.size();
 
 	m_list.resize(size + p.m_list.size());
 	std::copy(p.m_list.begin(), p.m_list.end(), m_list.begin() + size);
-- 
2.43.0


From 73303896d3c3865ac4e501ffcc6f7ae4bfebd29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:34 +0000
Subject: [PATCH 090/227] fix: path: renameParent() must not rename when the
 last component differs

---
 src/vmime/utility/path.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/utility/path.cpp b/src/vmime/utility/path.cpp
index 0629ae7..507e297 100644
--- a/src/vmime/utility/path.cpp
+++ b/src/vmime/utility/path.cpp
@@ -235,7 +235,7 @@ void path::renameParent(const path& oldPath, const path& newPath) {
 		equal = (m_list[i].isEquivalent(oldPath.m_list[i]));
 	}
 
-	if (i != oldPath.m_list.size())
+	if (!equal) {
 		return;
 
 	list newList;
-- 
2.43.0


From b556df8b5839fc5255db3d4d9b363c5935f8e3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:34 +0000
Subject: [PATCH 091/227] fix: path: separators of several characters

---
 src/vmime/utility/path.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/utility/path.cpp b/src/vmime/utility/path.cpp
index 507e297..05375d6 100644
--- a/src/vmime/utility/path.cpp
+++ b/src/vmime/utility/path.cpp
@@ -296,7 +296,7 @@ path path::fromString(const string& str, const string& sep, const charset& cset)
 		   p.appendComponent(component(comp, cset));
 		}
 
-		start = end + 1;
+		start = end + sep.length();
 
 	} while (end != string::npos);
 
-- 
2.43.0


From d11c2a747c70d875e8fbe695a7c31ffdd5e04134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:34 +0000
Subject: [PATCH 092/227] fix: URL: only IPv6 addresses are enclosed in
 brackets

---
 src/vmime/utility/urlUtils.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/vmime/utility/urlUtils.cpp b/src/vmime/utility/urlUtils.cpp
index ca0f9c6..252af6e 100644
--- a/src/vmime/utility/urlUtils.cpp
+++ b/src/vmime/utility/urlUtils.cpp
@@ -72,7 +72,11 @@ const string urlUtils::encodeHost(const string& s) {
 		return encode(s);
 	}
 
-	for (auto it = s.begin() + 1 ; it != s.end() - 1 ; ++it) {
+	if (s.find(':') == string::npos) {
+		return encode(s);
+	}
+
+	for (auto it = s.begin() ; it != s.end() ; ++it) {
 		if (!parserHelpers::isXDigit(*it) && *it != ':') {
 			return encode(s);
 		}
-- 
2.43.0


From 14a58628390062498897ac8b316b004f63b20551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:34 +0000
Subject: [PATCH 093/227] fix: URL: '@' in the protocol does not end a user
 name

---
 src/vmime/utility/path.cpp | 6 ++++--
 src/vmime/utility/url.cpp  | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/vmime/utility/path.cpp b/src/vmime/utility/path.cpp
index 05375d6..8262852 100644
--- a/src/vmime/utility/path.cpp
+++ b/src/vmime/utility/path.cpp
@@ -78,8 +78,9 @@ path& path::operator/=(const path& p) {
 	// Warning: 'p' may be this path
 	const list::size_type size = p.m_list.size();
 
-	m_list.resize(size + p.m_list.size());
-	std::copy(p.m_list.begin(), p.m_list.end(), m_list.begin() + size);
+	for (list::size_type i = 0 ; i < size ; ++i) {
+		m_list.push_back(p.m_list[i]);
+	}
 
 	return *this;
 }
@@ -237,6 +238,7 @@ void path::renameParent(const path& oldPath, const path& newPath) {
 
 	if (!equal) {
 		return;
+	}
 
 	list newList;
 
diff --git a/src/vmime/utility/url.cpp b/src/vmime/utility/url.cpp
index f0d9c65..5a196ca 100644
--- a/src/vmime/utility/url.cpp
+++ b/src/vmime/utility/url.cpp
@@ -245,7 +245,7 @@ void url::parse(const string& str) {
 
 	} else {
 
-		if (atPos != string::npos && atPos < slashPos) {
+		if (atPos != string::npos && atPos > protoEnd && atPos < slashPos) {
 
 			const string userPart(str.begin() + protoEnd + 3, str.begin() + atPos);
 			const size_t colonPos = userPart.find(':');
-- 
2.43.0


From 10579ee93d331d959489bd58208db5a781764a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:20 +0000
Subject: [PATCH 094/227] fix: property set: assigning a set to itself must not
 clear it

---
 src/vmime/propertySet.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vmime/propertySet.cpp b/src/vmime/propertySet.cpp
index e0d4848..3aa37d8 100644
--- a/src/vmime/propertySet.cpp
+++ b/src/vmime/propertySet.cpp
@@ -58,6 +58,10 @@ propertySet::~propertySet() {
 
 propertySet& propertySet::operator=(const propertySet& set) {
 
+	if (this == &set) {
+		return *this;
+	}
+
 	removeAllProperties();
 
 	for (std::list <shared_ptr <property> >::const_iterator it = set.m_props.begin() ;
-- 
2.43.0


From 53f8c23aafe2445ea13a68fd69a8b9e422468360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:20 +0000
Subject: [PATCH 095/227] fix: property set: read quoted values

---
 src/vmime/propertySet.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/vmime/propertySet.cpp b/src/vmime/propertySet.cpp
index 3aa37d8..72759c0 100644
--- a/src/vmime/propertySet.cpp
+++ b/src/vmime/propertySet.cpp
@@ -140,7 +140,7 @@ void propertySet::parse(const string& props) {
 
 						value.reserve(50);
 
-						const char quoteChar = *pos;
+						const char quoteChar = *pos++;
 						bool theEnd = false;
 						bool escape = false;
 
@@ -163,10 +163,6 @@ void propertySet::parse(const string& props) {
 							}
 						}
 
-						if (pos != end) {
-							++pos;
-						}
-
 					// Simple value
 					} else {
 
-- 
2.43.0


From 40d4e16c6359ceca633cd9fe0814bdd08b2ca186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:20 +0000
Subject: [PATCH 096/227] fix: property set: empty values

---
 src/vmime/propertySet.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vmime/propertySet.cpp b/src/vmime/propertySet.cpp
index 72759c0..6424415 100644
--- a/src/vmime/propertySet.cpp
+++ b/src/vmime/propertySet.cpp
@@ -126,10 +126,12 @@ void propertySet::parse(const string& props) {
 			const string option(optStart, optEnd);
 			string value = "1";
 
-			if (pos != end) {
+			if (pos != end && *pos == '=') {
 
 				++pos; // skip '='
 
+				value.clear();
+
 				// Extract the value
 				for ( ; pos != end && parserHelpers::isSpace(*pos) ; ++pos) {}
 
-- 
2.43.0


From 832d26b12e37804d440b1896ff75e4c3da09fbfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:20 +0000
Subject: [PATCH 097/227] fix: property set: properties end at the semicolon,
 and the last value is the one which is kept

---
 src/vmime/propertySet.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vmime/propertySet.cpp b/src/vmime/propertySet.cpp
index 6424415..892ad3a 100644
--- a/src/vmime/propertySet.cpp
+++ b/src/vmime/propertySet.cpp
@@ -117,7 +117,7 @@ void propertySet::parse(const string& props) {
 			// Extract the property name
 			const string::const_iterator optStart = pos;
 
-			for ( ; pos != end && *pos != '=' ; ++pos) {}
+			for ( ; pos != end && *pos != '=' && *pos != ';' ; ++pos) {}
 
 			string::const_iterator optEnd = pos;
 
@@ -170,7 +170,7 @@ void propertySet::parse(const string& props) {
 
 						const string::const_iterator valStart = pos;
 
-						for ( ; pos != end && !parserHelpers::isSpace(*pos) ; ++pos) {}
+						for ( ; pos != end && *pos != ';' && !parserHelpers::isSpace(*pos) ; ++pos) {}
 
 						value = string(valStart, pos);
 					}
@@ -184,7 +184,7 @@ void propertySet::parse(const string& props) {
 				}
 			}
 
-			m_props.push_back(make_shared <property>(option, value));
+			findOrCreate(option)->setValue(value);
 		}
 	}
 }
-- 
2.43.0


From 7b54bb4a3c189d9a96d524cab575ced40815b8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:27 +0000
Subject: [PATCH 098/227] fix: message set: assigning a set copied the pointers
 to its ranges (double free)

---
 src/vmime/net/messageSet.cpp | 9 +++++++++
 src/vmime/net/messageSet.hpp | 2 ++
 2 files changed, 11 insertions(+)

diff --git a/src/vmime/net/messageSet.cpp b/src/vmime/net/messageSet.cpp
index fe2d645..1299f41 100644
--- a/src/vmime/net/messageSet.cpp
+++ b/src/vmime/net/messageSet.cpp
@@ -178,6 +178,15 @@ messageSet::messageSet(const messageSet& other)
 }
 
 
+messageSet& messageSet::operator=(const messageSet& other) {
+
+	messageSet copy(other);
+	std::swap(m_ranges, copy.m_ranges);
+
+	return *this;
+}
+
+
 messageSet::~messageSet() {
 
 	for (size_t i = 0, n = m_ranges.size() ; i < n ; ++i) {
diff --git a/src/vmime/net/messageSet.hpp b/src/vmime/net/messageSet.hpp
index 848c4c9..0fa6674 100644
--- a/src/vmime/net/messageSet.hpp
+++ b/src/vmime/net/messageSet.hpp
@@ -215,6 +215,8 @@ public:
 
 	messageSet(const messageSet& other);
 
+	messageSet& operator=(const messageSet& other);
+
 	/** Constructs an empty set.
 	  *
 	  * @return new empty message set
-- 
2.43.0


From 8df07702698512acf21eccd0953f42ad305d372e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:27 +0000
Subject: [PATCH 099/227] fix: message set: an empty list of numbers made an
 invalid range instead of an empty set

---
 src/vmime/net/messageSet.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vmime/net/messageSet.cpp b/src/vmime/net/messageSet.cpp
index 1299f41..8049070 100644
--- a/src/vmime/net/messageSet.cpp
+++ b/src/vmime/net/messageSet.cpp
@@ -271,7 +271,9 @@ messageSet messageSet::byNumber(const std::vector <size_t>& numbers) {
 		}
 	}
 
-	set.m_ranges.push_back(new numberMessageRange(rangeStart, previous));
+	if (!sortedNumbers.empty()) {
+		set.m_ranges.push_back(new numberMessageRange(rangeStart, previous));
+	}
 
 	return set;
 }
-- 
2.43.0


From 3012ed0e2087115c0ef1b37db486ed944a173a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:27 +0000
Subject: [PATCH 100/227] fix: message set: UIDs which are not canonical 32-bit
 numbers were changed into other UIDs

---
 src/vmime/net/messageSet.cpp | 44 ++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/src/vmime/net/messageSet.cpp b/src/vmime/net/messageSet.cpp
index 8049070..9e2084e 100644
--- a/src/vmime/net/messageSet.cpp
+++ b/src/vmime/net/messageSet.cpp
@@ -305,15 +305,18 @@ messageSet messageSet::byUID(const std::vector <message::uid>& uids) {
 	for (size_t i = 0, n = uids.size() ; i < n ; ++i) {
 
 		const string uid = uids[i];
-		int numericUID = 0;
+		vmime_uint64 numericUID = 0;
 
 		const char* p = uid.c_str();
 
-		for ( ; *p >= '0' && *p <= '9' ; ++p) {
+		for ( ; *p >= '0' && *p <= '9' && numericUID <= 0xffffffffu ; ++p) {
 			numericUID = (numericUID * 10) + (*p - '0');
 		}
 
-		if (*p != '\0') {
+		// Only numbers which have the same textual representation as the UID
+		// can be used (eg. not "007"), and they must fit in 32 bits
+		if (*p != '\0' || uid.empty() || uid[0] == '0' || numericUID > 0xffffffffu ||
+		    static_cast <size_t>(p - uid.c_str()) != uid.length()) {
 
 			messageSet set;
 
@@ -325,7 +328,7 @@ messageSet messageSet::byUID(const std::vector <message::uid>& uids) {
 			return set;
 		}
 
-		numericUIDs.push_back(numericUID);
+		numericUIDs.push_back(static_cast <vmime_uint32>(numericUID));
 	}
 
 	// Sort a copy of the list
@@ -337,9 +340,14 @@ messageSet messageSet::byUID(const std::vector <message::uid>& uids) {
 	std::sort(sortedUIDs.begin(), sortedUIDs.end());
 
 	// Build the set by detecting ranges of continuous numbers
-	vmime_uint32 previous = static_cast <vmime_uint32>(-1), rangeStart = static_cast <vmime_uint32>(-1);
 	messageSet set;
 
+	if (sortedUIDs.empty()) {
+		return set;
+	}
+
+	vmime_uint32 previous = sortedUIDs[0], rangeStart = sortedUIDs[0];
+
 	for (std::vector <vmime_uint32>::const_iterator it = sortedUIDs.begin() ;
 	     it != sortedUIDs.end() ; ++it) {
 
@@ -349,29 +357,21 @@ messageSet messageSet::byUID(const std::vector <message::uid>& uids) {
 			continue;  // skip duplicates
 		}
 
-		if (previous == static_cast <vmime_uint32>(-1)) {
+		if (current == previous + 1) {
 
 			previous = current;
-			rangeStart = current;
 
 		} else {
 
-			if (current == previous + 1) {
-
-				previous = current;
+			set.m_ranges.push_back(
+				new UIDMessageRange(
+					utility::stringUtils::toString(rangeStart),
+					utility::stringUtils::toString(previous)
+				)
+			);
 
-			} else {
-
-				set.m_ranges.push_back(
-					new UIDMessageRange(
-						utility::stringUtils::toString(rangeStart),
-						utility::stringUtils::toString(previous)
-					)
-				);
-
-				previous = current;
-				rangeStart = current;
-			}
+			previous = current;
+			rangeStart = current;
 		}
 	}
 
-- 
2.43.0


From bd24c8ac7726930e5fbf29d674bd5e48ef6fe580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:09 +0000
Subject: [PATCH 101/227] fix: IMAP: the set of a UID search key is not
 parenthesized

---
 src/vmime/net/imap/IMAPSearchAttributes.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/vmime/net/imap/IMAPSearchAttributes.cpp b/src/vmime/net/imap/IMAPSearchAttributes.cpp
index 7675f3e..025bef7 100644
--- a/src/vmime/net/imap/IMAPSearchAttributes.cpp
+++ b/src/vmime/net/imap/IMAPSearchAttributes.cpp
@@ -224,16 +224,15 @@ public:
 
 	void generate(std::ostringstream& out) const override {
 
-		if (*m_token) {
-			out << m_token << " (";
-		}
-		else {
-			out << "(";
-		}
 		tokenMessageSetEnumerator enu;
 		m_keyword.enumerate(enu);
-		out << enu.str();
-		out << ")";
+
+		// NOTE: the sequence set following "UID" cannot be parenthesized
+		if (*m_token) {
+			out << m_token << " " << enu.str();
+		} else {
+			out << "(" << enu.str() << ")";
+		}
 	}
 };
 
-- 
2.43.0


From ae1b803715d8ec2822111b05f71a1207d90439c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:09 +0000
Subject: [PATCH 102/227] fix: IMAP parser: long sequence and UID sets are
 parsed without recursion

---
 src/vmime/net/imap/IMAPParser.hpp | 52 ++++++++++++++++++++++++-------
 1 file changed, 40 insertions(+), 12 deletions(-)

diff --git a/src/vmime/net/imap/IMAPParser.hpp b/src/vmime/net/imap/IMAPParser.hpp
index 78b7697..054ae06 100644
--- a/src/vmime/net/imap/IMAPParser.hpp
+++ b/src/vmime/net/imap/IMAPParser.hpp
@@ -770,17 +770,31 @@ public:
 	DECLARE_COMPONENT(uid_set)
 
 		bool parseImpl(IMAPParser& parser, string& line, size_t* currentPos) {
+		~uid_set() {
+
+			while (next_uid_set) {
+				std::unique_ptr <IMAPParser::uid_set> next = std::move(next_uid_set->next_uid_set);
+				next_uid_set = std::move(next);
+			}
+		}
+
 
 			size_t pos = *currentPos;
 
-			// We have either a 'uid_range' or a 'uniqueid'
-			if (!VIMAP_PARSER_TRY_GET(IMAPParser::uid_range, uid_range)) {
-				VIMAP_PARSER_GET(IMAPParser::uniqueid, uniqueid);
-			}
+			// NOTE: sets can be very long, so do not use recursion here
+			for (IMAPParser::uid_set* set = this ; ; set = set->next_uid_set.get()) {
+
+				// We have either a 'uid_range' or a 'uniqueid'
+				if (!VIMAP_PARSER_TRY_GET(IMAPParser::uid_range, set->uid_range)) {
+					VIMAP_PARSER_GET(IMAPParser::uniqueid, set->uniqueid);
+				}
+
+				// And maybe another 'uid-set' following
+				if (!VIMAP_PARSER_TRY_CHECK(one_char <','>)) {
+					break;
+				}
 
-			// And maybe another 'uid-set' following
-			if (VIMAP_PARSER_TRY_CHECK(one_char <','>)) {
-				VIMAP_PARSER_GET(IMAPParser::uid_set, next_uid_set);
+				set->next_uid_set.reset(new IMAPParser::uid_set());
 			}
 
 			*currentPos = pos;
@@ -1567,12 +1581,18 @@ public:
 
 			size_t pos = *currentPos;
 
-			if (!VIMAP_PARSER_TRY_GET(IMAPParser::seq_range, range)) {
-				VIMAP_PARSER_GET(IMAPParser::seq_number, number);
-			}
+			// NOTE: sets can be very long, so do not use recursion here
+			for (IMAPParser::sequence_set* set = this ; ; set = set->nextSet.get()) {
+
+				if (!VIMAP_PARSER_TRY_GET(IMAPParser::seq_range, set->range)) {
+					VIMAP_PARSER_GET(IMAPParser::seq_number, set->number);
+				}
+
+				if (!VIMAP_PARSER_TRY_CHECK(one_char <','> )) {
+					break;
+				}
 
-			if (VIMAP_PARSER_TRY_CHECK(one_char <','> )) {
-				VIMAP_PARSER_GET(sequence_set, nextSet);
+				set->nextSet.reset(new IMAPParser::sequence_set());
 			}
 
 			*currentPos = pos;
@@ -1596,6 +1616,14 @@ public:
 
 		mod_sequence_value()
 			: value(0) {
+		~sequence_set() {
+
+			while (nextSet) {
+				std::unique_ptr <IMAPParser::sequence_set> next = std::move(nextSet->nextSet);
+				nextSet = std::move(next);
+			}
+		}
+
 
 		}
 
-- 
2.43.0


From 61c965e9f7a5057934bf383f8982801f62a29d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:09 +0000
Subject: [PATCH 103/227] fix: IMAP parser: a sequence range is written with a
 colon

---
 src/vmime/net/imap/IMAPParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/net/imap/IMAPParser.hpp b/src/vmime/net/imap/IMAPParser.hpp
index 054ae06..62a5bf6 100644
--- a/src/vmime/net/imap/IMAPParser.hpp
+++ b/src/vmime/net/imap/IMAPParser.hpp
@@ -1552,7 +1552,7 @@ public:
 
 			VIMAP_PARSER_GET(seq_number, first);
 
-			VIMAP_PARSER_CHECK(one_char <'*'> );
+			VIMAP_PARSER_CHECK(one_char <':'> );
 
 			VIMAP_PARSER_GET(seq_number, last);
 
-- 
2.43.0


From 30568fb6aca76d2815d6be0b1b1b66a5cf4e2fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:09 +0000
Subject: [PATCH 104/227] fix: IMAP parser: list of several body extensions

---
 src/vmime/net/imap/IMAPParser.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vmime/net/imap/IMAPParser.hpp b/src/vmime/net/imap/IMAPParser.hpp
index 62a5bf6..b1c1992 100644
--- a/src/vmime/net/imap/IMAPParser.hpp
+++ b/src/vmime/net/imap/IMAPParser.hpp
@@ -2542,6 +2542,7 @@ public:
 			size_t pos = *currentPos;
 
 			// "HEADER.FIELDS" [".NOT"] SPACE header_list
+				VIMAP_PARSER_TRY_CHECK(SPACE);
 			const bool b1 = VIMAP_PARSER_TRY_CHECK_WITHARG(special_atom, "header.fields.not");
 			const bool b2 = (b1 ? false : VIMAP_PARSER_TRY_CHECK_WITHARG(special_atom, "header.fields"));
 
-- 
2.43.0


From 677f9f5a7b26f17b2e77781509f60dc963d4521e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:09 +0000
Subject: [PATCH 105/227] fix: IMAP parser: empty list of message attributes

---
 src/vmime/net/imap/IMAPParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/net/imap/IMAPParser.hpp b/src/vmime/net/imap/IMAPParser.hpp
index b1c1992..5c390e1 100644
--- a/src/vmime/net/imap/IMAPParser.hpp
+++ b/src/vmime/net/imap/IMAPParser.hpp
@@ -3737,7 +3737,7 @@ public:
 
 			VIMAP_PARSER_CHECK(one_char <'('> );
 
-			items.push_back(std::unique_ptr <msg_att_item>(parser.get <msg_att_item>(line, &pos)));
+			VIMAP_PARSER_GET_PUSHBACK(msg_att_item, items);
 
 			while (!VIMAP_PARSER_TRY_CHECK(one_char <')'> )) {
 				VIMAP_PARSER_CHECK(SPACE);
-- 
2.43.0


From 0de4a8a89cf5a0b748034757711acb38ccc85e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:09 +0000
Subject: [PATCH 106/227] fix: IMAP parser: depth of nested bodies and
 extensions is bounded

---
 src/vmime/net/imap/IMAPParser.hpp | 42 ++++++++++++++++++++++++++++++-
 1 file changed, 41 insertions(+), 1 deletion(-)

diff --git a/src/vmime/net/imap/IMAPParser.hpp b/src/vmime/net/imap/IMAPParser.hpp
index 5c390e1..4794507 100644
--- a/src/vmime/net/imap/IMAPParser.hpp
+++ b/src/vmime/net/imap/IMAPParser.hpp
@@ -267,7 +267,8 @@ public:
 	IMAPParser()
 		: m_progress(NULL),
 		  m_strict(false),
-		  m_literalHandler(NULL) {
+		  m_literalHandler(NULL),
+		  m_depth(0) {
 
 	}
 
@@ -2535,6 +2536,9 @@ public:
 	//                     SPACE header_list / "TEXT" / "MIME"
 	//
 
+			nestedComponent nested(parser);
+			VIMAP_PARSER_FAIL_UNLESS(!nested.isTooDeep());
+
 	DECLARE_COMPONENT(section_text)
 
 		bool parseImpl(IMAPParser& parser, string& line, size_t* currentPos) {
@@ -3559,6 +3563,9 @@ public:
 
 	DECLARE_COMPONENT(msg_att_item)
 
+			nestedComponent nested(parser);
+			VIMAP_PARSER_FAIL_UNLESS(!nested.isTooDeep());
+
 		bool parseImpl(IMAPParser& parser, string& line, size_t* currentPos) {
 
 			size_t pos = *currentPos;
@@ -4910,6 +4917,39 @@ public:
 			throw exceptions::illegal_state("Store disconnected");
 
 		if (toh) {
+	// Literals received so far in the current line, by position of the literal in the line
+	std::map <size_t, string> m_literals;
+
+	// Current depth of nested components, and its limit (protects from stack overflow)
+	size_t m_depth;
+
+	static const size_t MAX_DEPTH = 200;
+
+	class nestedComponent {
+
+	public:
+
+		nestedComponent(IMAPParser& parser)
+			: m_parser(parser) {
+
+			++m_parser.m_depth;
+		}
+
+		~nestedComponent() {
+
+			--m_parser.m_depth;
+		}
+
+		bool isTooDeep() const {
+
+			return m_parser.m_depth > MAX_DEPTH;
+		}
+
+	private:
+
+		IMAPParser& m_parser;
+	};
+
 			toh->resetTimeOut();
 		}
 
-- 
2.43.0


From 2b9593e19d0d9d8a627c43a5b527def89e7a30e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:09 +0000
Subject: [PATCH 107/227] fix: IMAP parser: a literal was read again after
 backtracking

---
 src/vmime/net/imap/IMAPParser.hpp | 71 ++++++++++++++++++++-----------
 1 file changed, 47 insertions(+), 24 deletions(-)

diff --git a/src/vmime/net/imap/IMAPParser.hpp b/src/vmime/net/imap/IMAPParser.hpp
index 4794507..bdbfd36 100644
--- a/src/vmime/net/imap/IMAPParser.hpp
+++ b/src/vmime/net/imap/IMAPParser.hpp
@@ -1152,7 +1152,22 @@ public:
 					VIMAP_PARSER_CHECK(CRLF);
 
 
-					if (parser.m_literalHandler != NULL) {
+					// If this component is being parsed again (after having failed to
+					// parse the text as something else), then the literal has already
+					// been received
+					std::map <size_t, vmime::string>::const_iterator known =
+						parser.m_literals.find(*currentPos);
+
+					if (known != parser.m_literals.end()) {
+
+						value = known->second;
+
+						*currentPos = pos;
+
+						return true;
+					}
+
+					if (parser.m_literalHandler != NULL && m_component != NULL) {
 
 						shared_ptr <literalHandler::target> target =
 							parser.m_literalHandler->targetFor(*m_component, m_data);
@@ -1179,6 +1194,8 @@ public:
 
 					line += parser.readLine();
 
+					parser.m_literals[*currentPos] = value;
+
 					DEBUG_FOUND("string[literal]", "<length=" << length << ", value='" << value << "'>");
 
 				} else {
@@ -4562,6 +4579,8 @@ public:
 
 			if (!response_done) {  // incomplete (partial) response
 				return true;
+
+				parser.m_literals.clear();
 			}
 
 			if (response_done->response_fatal) {
@@ -4677,6 +4696,8 @@ public:
 				}
 			}
 
+			m_literals.clear();
+
 			// Else, return response if the tag is the one we expect
 			if (resp->response_done && resp->response_done->response_tagged &&
 			    resp->response_done->response_tagged->tag) {
@@ -4728,6 +4749,8 @@ public:
 		component* resp = new TYPE;
 		return internalGet <TYPE>(resp, line, currentPos);
 	}
+		m_literals.clear();
+
 
 	/** Parse a token which takes 2 arguments and advance.
 	  * If the token has been parsed successfully, a raw pointer to it
@@ -4894,29 +4917,6 @@ public:
 		std::cout << std::endl << "Read line:" << std::endl << line << std::endl;
 #endif
 
-		if (m_tracer) {
-			string::size_type len = line.length();
-			while (len != 0 && (line[len - 1] == '\r' || line[len - 1] == '\n')) --len;
-			m_tracer->traceReceive(line.substr(0, len));
-		}
-
-		return (line);
-	}
-
-	/** Fill in the input buffer with data available from the socket stream.
-	  * The function blocks until some data is available.
-	  */
-	void read() {
-
-		string receiveBuffer;
-
-		shared_ptr <timeoutHandler> toh = m_timeoutHandler.lock();
-		shared_ptr <socket> sok = m_socket.lock();
-
-		if (!sok)
-			throw exceptions::illegal_state("Store disconnected");
-
-		if (toh) {
 	// Literals received so far in the current line, by position of the literal in the line
 	std::map <size_t, string> m_literals;
 
@@ -4950,6 +4950,29 @@ public:
 		IMAPParser& m_parser;
 	};
 
+		if (m_tracer) {
+			string::size_type len = line.length();
+			while (len != 0 && (line[len - 1] == '\r' || line[len - 1] == '\n')) --len;
+			m_tracer->traceReceive(line.substr(0, len));
+		}
+
+		return (line);
+	}
+
+	/** Fill in the input buffer with data available from the socket stream.
+	  * The function blocks until some data is available.
+	  */
+	void read() {
+
+		string receiveBuffer;
+
+		shared_ptr <timeoutHandler> toh = m_timeoutHandler.lock();
+		shared_ptr <socket> sok = m_socket.lock();
+
+		if (!sok)
+			throw exceptions::illegal_state("Store disconnected");
+
+		if (toh) {
 			toh->resetTimeOut();
 		}
 
-- 
2.43.0


From 9a568aa6b5c62b7188b21d60fb34da05c97485e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:09 +0000
Subject: [PATCH 108/227] fix: IMAP parser: an unquoted astring is not empty

---
 src/vmime/net/imap/IMAPParser.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vmime/net/imap/IMAPParser.hpp b/src/vmime/net/imap/IMAPParser.hpp
index bdbfd36..3c71022 100644
--- a/src/vmime/net/imap/IMAPParser.hpp
+++ b/src/vmime/net/imap/IMAPParser.hpp
@@ -1305,6 +1305,10 @@ public:
 						end = true;
 					}
 				}
+
+				if (value.empty()) {
+					VIMAP_PARSER_FAIL();
+				}
 			}
 
 			*currentPos = pos;
-- 
2.43.0


From 1bea6ddbf3958a2eec08dbfacc94b26206b499d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:09 +0000
Subject: [PATCH 109/227] fix: IMAP parser: literal handler called with no
 component

---
 src/vmime/net/imap/IMAPParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/net/imap/IMAPParser.hpp b/src/vmime/net/imap/IMAPParser.hpp
index 3c71022..b85d2fd 100644
--- a/src/vmime/net/imap/IMAPParser.hpp
+++ b/src/vmime/net/imap/IMAPParser.hpp
@@ -1104,7 +1104,7 @@ public:
 					VIMAP_PARSER_GET(quoted_text, text);
 					VIMAP_PARSER_CHECK(one_char <'"'>);
 
-					if (parser.m_literalHandler != NULL) {
+					if (parser.m_literalHandler != NULL && m_component != NULL) {
 
 						shared_ptr <literalHandler::target> target =
 							parser.m_literalHandler->targetFor(*m_component, m_data);
-- 
2.43.0


From 78c3200cee48377d7ba0c147192a8fdbccd0c588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:09 +0000
Subject: [PATCH 110/227] fix: IMAP parser: INBOX is a whole mailbox name

---
 src/vmime/net/imap/IMAPParser.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/vmime/net/imap/IMAPParser.hpp b/src/vmime/net/imap/IMAPParser.hpp
index b85d2fd..6294488 100644
--- a/src/vmime/net/imap/IMAPParser.hpp
+++ b/src/vmime/net/imap/IMAPParser.hpp
@@ -1811,7 +1811,10 @@ public:
 
 			size_t pos = *currentPos;
 
-			if (VIMAP_PARSER_TRY_CHECK_WITHARG(special_atom, "inbox")) {
+			std::unique_ptr <astring> astr;
+			VIMAP_PARSER_GET(astring, astr);
+
+			if (utility::stringUtils::isStringEqualNoCase(astr->value, "inbox")) {
 
 				type = INBOX;
 				name = "INBOX";
@@ -1819,9 +1822,6 @@ public:
 			} else {
 
 				type = OTHER;
-
-				std::unique_ptr <astring> astr;
-				VIMAP_PARSER_GET(astring, astr);
 				name = astr->value;
 			}
 
-- 
2.43.0


From 541535266cb702468c3c7e43e6ca162facfe336b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:09 +0000
Subject: [PATCH 111/227] fix: IMAP parser: capability with an empty
 authentication type

---
 src/vmime/net/imap/IMAPParser.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vmime/net/imap/IMAPParser.hpp b/src/vmime/net/imap/IMAPParser.hpp
index 6294488..f033f9b 100644
--- a/src/vmime/net/imap/IMAPParser.hpp
+++ b/src/vmime/net/imap/IMAPParser.hpp
@@ -2259,7 +2259,9 @@ public:
 				size_t pos = 5;
 				auth_type.reset(parser.get <IMAPParser::auth_type>(value, &pos));
 
-				atom.reset();
+				if (auth_type) {
+					atom.reset();
+				}
 			}
 
 			*currentPos = pos;
-- 
2.43.0


From 5edacfb2b106985e7c7642de901a8ef3a629fd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:09 +0000
Subject: [PATCH 112/227] fix: IMAP parser: an atom may contain an opening
 bracket

---
 src/vmime/net/imap/IMAPParser.hpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/vmime/net/imap/IMAPParser.hpp b/src/vmime/net/imap/IMAPParser.hpp
index f033f9b..c07fe21 100644
--- a/src/vmime/net/imap/IMAPParser.hpp
+++ b/src/vmime/net/imap/IMAPParser.hpp
@@ -1335,6 +1335,11 @@ public:
 
 	DECLARE_COMPONENT(atom)
 
+		atom(const bool allowBracket = true)
+			: m_allowBracket(allowBracket) {
+
+		}
+
 		bool parseImpl(IMAPParser& parser, string& line, size_t* currentPos) {
 
 			size_t pos = *currentPos;
@@ -1355,15 +1360,16 @@ public:
 					case '"':   // quoted_specials
 					case '\\':  // quoted_specials
 
-					case '[':
-					case ']':   // for "special_atom"
+					case ']':
 
 						end = true;
 						break;
 
 					default:
 
-						if (c <= 0x1f || c >= 0x7f) {
+						if (c == '[' && !m_allowBracket) {   // for "special_atom"
+							end = true;
+						} else if (c <= 0x1f || c >= 0x7f) {
 							end = true;
 						} else {
 							++pos;
@@ -1389,6 +1395,10 @@ public:
 
 
 		string value;
+
+	private:
+
+		const bool m_allowBracket;
 	};
 
 
@@ -1411,7 +1421,8 @@ public:
 		}
 
 		special_atom(const char* str)
-			: m_string(str) {  // 'string' must be in lower-case
+			: atom(false),
+			  m_string(str) {  // 'string' must be in lower-case
 
 		}
 
-- 
2.43.0


From 9c6d7eecc1a5b6630097091a84a0dbf95e577f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:09 +0000
Subject: [PATCH 113/227] fix: IMAP parser: leaks when reading a response fails

---
 src/vmime/net/imap/IMAPParser.hpp | 121 ++++++++++++++++--------------
 1 file changed, 66 insertions(+), 55 deletions(-)

diff --git a/src/vmime/net/imap/IMAPParser.hpp b/src/vmime/net/imap/IMAPParser.hpp
index c07fe21..ee0dbfd 100644
--- a/src/vmime/net/imap/IMAPParser.hpp
+++ b/src/vmime/net/imap/IMAPParser.hpp
@@ -770,7 +770,6 @@ public:
 
 	DECLARE_COMPONENT(uid_set)
 
-		bool parseImpl(IMAPParser& parser, string& line, size_t* currentPos) {
 		~uid_set() {
 
 			while (next_uid_set) {
@@ -779,6 +778,7 @@ public:
 			}
 		}
 
+		bool parseImpl(IMAPParser& parser, string& line, size_t* currentPos) {
 
 			size_t pos = *currentPos;
 
@@ -1610,6 +1610,14 @@ public:
 
 	DECLARE_COMPONENT(sequence_set)
 
+		~sequence_set() {
+
+			while (nextSet) {
+				std::unique_ptr <IMAPParser::sequence_set> next = std::move(nextSet->nextSet);
+				nextSet = std::move(next);
+			}
+		}
+
 		bool parseImpl(IMAPParser& parser, string& line, size_t* currentPos) {
 
 			size_t pos = *currentPos;
@@ -1649,14 +1657,6 @@ public:
 
 		mod_sequence_value()
 			: value(0) {
-		~sequence_set() {
-
-			while (nextSet) {
-				std::unique_ptr <IMAPParser::sequence_set> next = std::move(nextSet->nextSet);
-				nextSet = std::move(next);
-			}
-		}
-
 
 		}
 
@@ -2536,9 +2536,13 @@ public:
 
 			size_t pos = *currentPos;
 
+			nestedComponent nested(parser);
+			VIMAP_PARSER_FAIL_UNLESS(!nested.isTooDeep());
+
 			if (VIMAP_PARSER_TRY_CHECK(one_char <'('> )) {
 
 				VIMAP_PARSER_GET_PUSHBACK(body_extension, body_extensions);
+				VIMAP_PARSER_TRY_CHECK(SPACE);
 
 				while (!VIMAP_PARSER_TRY_CHECK(one_char <')'> )) {
 					VIMAP_PARSER_GET_PUSHBACK(body_extension, body_extensions);
@@ -2570,9 +2574,6 @@ public:
 	//                     SPACE header_list / "TEXT" / "MIME"
 	//
 
-			nestedComponent nested(parser);
-			VIMAP_PARSER_FAIL_UNLESS(!nested.isTooDeep());
-
 	DECLARE_COMPONENT(section_text)
 
 		bool parseImpl(IMAPParser& parser, string& line, size_t* currentPos) {
@@ -2580,7 +2581,6 @@ public:
 			size_t pos = *currentPos;
 
 			// "HEADER.FIELDS" [".NOT"] SPACE header_list
-				VIMAP_PARSER_TRY_CHECK(SPACE);
 			const bool b1 = VIMAP_PARSER_TRY_CHECK_WITHARG(special_atom, "header.fields.not");
 			const bool b2 = (b1 ? false : VIMAP_PARSER_TRY_CHECK_WITHARG(special_atom, "header.fields"));
 
@@ -3563,6 +3563,9 @@ public:
 
 			size_t pos = *currentPos;
 
+			nestedComponent nested(parser);
+			VIMAP_PARSER_FAIL_UNLESS(!nested.isTooDeep());
+
 			VIMAP_PARSER_CHECK(one_char <'('> );
 
 			if (!VIMAP_PARSER_TRY_GET(IMAPParser::body_type_mpart, body_type_mpart)) {
@@ -3597,9 +3600,6 @@ public:
 
 	DECLARE_COMPONENT(msg_att_item)
 
-			nestedComponent nested(parser);
-			VIMAP_PARSER_FAIL_UNLESS(!nested.isTooDeep());
-
 		bool parseImpl(IMAPParser& parser, string& line, size_t* currentPos) {
 
 			size_t pos = *currentPos;
@@ -4579,6 +4579,8 @@ public:
 				// We have read a CRLF, read another line
 				curLine = parser.readLine();
 				pos = 0;
+
+				parser.m_literals.clear();
 			}
 
 			if (!partial) {
@@ -4596,8 +4598,6 @@ public:
 
 			if (!response_done) {  // incomplete (partial) response
 				return true;
-
-				parser.m_literals.clear();
 			}
 
 			if (response_done->response_fatal) {
@@ -4696,8 +4696,18 @@ public:
 			size_t pos = 0;
 			string line = readLine();
 
+			m_literals.clear();
+
 			m_literalHandler = lh;
-			response* resp = get <response>(line, &pos);
+			response* resp = NULL;
+
+			try {
+				resp = get <response>(line, &pos);
+			} catch (...) {
+				m_literalHandler = NULL;
+				throw;
+			}
+
 			m_literalHandler = NULL;
 
 			if (!resp) {
@@ -4713,8 +4723,6 @@ public:
 				}
 			}
 
-			m_literals.clear();
-
 			// Else, return response if the tag is the one we expect
 			if (resp->response_done && resp->response_done->response_tagged &&
 			    resp->response_done->response_tagged->tag) {
@@ -4723,7 +4731,10 @@ public:
 					return resp;
 				} else {
 					// Not our response tag, cache it for later
-					m_pendingResponses[resp->response_done->response_tagged->tag->tagString] = resp;
+					response*& pending = m_pendingResponses[resp->response_done->response_tagged->tag->tagString];
+
+					delete pending;
+					pending = resp;
 				}
 			} else {
 				// Untagged response
@@ -4738,6 +4749,8 @@ public:
 		size_t pos = 0;
 		string line = readLine();
 
+		m_literals.clear();
+
 		greeting* greet = get <greeting>(line, &pos);
 
 		if (!greet) {
@@ -4766,8 +4779,6 @@ public:
 		component* resp = new TYPE;
 		return internalGet <TYPE>(resp, line, currentPos);
 	}
-		m_literals.clear();
-
 
 	/** Parse a token which takes 2 arguments and advance.
 	  * If the token has been parsed successfully, a raw pointer to it
@@ -4797,16 +4808,16 @@ private:
 
 		const size_t oldPos = *currentPos;
 
+		std::unique_ptr <component> parsedResp(resp);
+
 		if (!resp->parse(*this, line, currentPos)) {
 
 			*currentPos = oldPos;
 
-			delete resp;
-
 			return NULL;
 		}
 
-		return static_cast <TYPE*>(resp);
+		return static_cast <TYPE*>(parsedResp.release());
 	}
 
 	const string lastLine() const {
@@ -4906,34 +4917,6 @@ private:
 
 	std::map <std::string, response*> m_pendingResponses;
 
-public:
-
-	/** Read a line from the input buffer. The function blocks until a
-	  * complete line is read from the buffer. Position in input buffer
-	  * will be updated.
-	  *
-	  * @return next line
-	  */
-	const string readLine() {
-
-		size_t pos;
-
-		while ((pos = m_buffer.find('\n')) == string::npos) {
-			read();
-		}
-
-		string line;
-		line.resize(pos + 1);
-		std::copy(m_buffer.begin(), m_buffer.begin() + pos + 1, line.begin());
-
-		m_buffer.erase(m_buffer.begin(), m_buffer.begin() + pos + 1);
-
-		m_lastLine = line;
-
-#if DEBUG_RESPONSE
-		std::cout << std::endl << "Read line:" << std::endl << line << std::endl;
-#endif
-
 	// Literals received so far in the current line, by position of the literal in the line
 	std::map <size_t, string> m_literals;
 
@@ -4967,6 +4950,34 @@ public:
 		IMAPParser& m_parser;
 	};
 
+public:
+
+	/** Read a line from the input buffer. The function blocks until a
+	  * complete line is read from the buffer. Position in input buffer
+	  * will be updated.
+	  *
+	  * @return next line
+	  */
+	const string readLine() {
+
+		size_t pos;
+
+		while ((pos = m_buffer.find('\n')) == string::npos) {
+			read();
+		}
+
+		string line;
+		line.resize(pos + 1);
+		std::copy(m_buffer.begin(), m_buffer.begin() + pos + 1, line.begin());
+
+		m_buffer.erase(m_buffer.begin(), m_buffer.begin() + pos + 1);
+
+		m_lastLine = line;
+
+#if DEBUG_RESPONSE
+		std::cout << std::endl << "Read line:" << std::endl << line << std::endl;
+#endif
+
 		if (m_tracer) {
 			string::size_type len = line.length();
 			while (len != 0 && (line[len - 1] == '\r' || line[len - 1] == '\n')) --len;
-- 
2.43.0


From 093b78e36cea9a7f12a70558f3184395834e2eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:56 +0000
Subject: [PATCH 114/227] fix: IMAP parser: dates were never parsed (month and
 year read as one atom), and the sign of the zone was ignored

---
 src/vmime/net/imap/IMAPParser.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/vmime/net/imap/IMAPParser.hpp b/src/vmime/net/imap/IMAPParser.hpp
index ee0dbfd..b631904 100644
--- a/src/vmime/net/imap/IMAPParser.hpp
+++ b/src/vmime/net/imap/IMAPParser.hpp
@@ -2368,8 +2368,8 @@ public:
 
 			VIMAP_PARSER_CHECK(one_char <'-'> );
 
-			shared_ptr <atom> amo;
-			VIMAP_PARSER_GET(atom, amo);
+			shared_ptr <text> amo;
+			VIMAP_PARSER_GET(text_except <'-'> , amo);
 
 			VIMAP_PARSER_CHECK(one_char <'-'> );
 
@@ -2399,6 +2399,7 @@ public:
 
 			if (!(VIMAP_PARSER_TRY_CHECK(one_char <'+'> ))) {
 				VIMAP_PARSER_CHECK(one_char <'-'> );
+				sign = -1;
 			}
 
 			shared_ptr <number> nz;
-- 
2.43.0


From 105f674a3859c225ede6b9fa5488196cffe1ee79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:56 +0000
Subject: [PATCH 115/227] fix: IMAP parser: progress listener of an interrupted
 literal is not used later

---
 src/vmime/net/imap/IMAPParser.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vmime/net/imap/IMAPParser.hpp b/src/vmime/net/imap/IMAPParser.hpp
index b631904..eb21c0f 100644
--- a/src/vmime/net/imap/IMAPParser.hpp
+++ b/src/vmime/net/imap/IMAPParser.hpp
@@ -4706,6 +4706,7 @@ public:
 				resp = get <response>(line, &pos);
 			} catch (...) {
 				m_literalHandler = NULL;
+				m_progress = NULL;
 				throw;
 			}
 
-- 
2.43.0


From 678f90e007a4a3b4fa02f8ff5b266fffb571a2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:06 +0000
Subject: [PATCH 116/227] fix: SMTP extension keywords are case-insensitive,
 and two AUTH lines are merged

---
 src/vmime/net/smtp/SMTPConnection.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/vmime/net/smtp/SMTPConnection.cpp b/src/vmime/net/smtp/SMTPConnection.cpp
index 07d0376..1568730 100644
--- a/src/vmime/net/smtp/SMTPConnection.cpp
+++ b/src/vmime/net/smtp/SMTPConnection.cpp
@@ -38,6 +38,8 @@
 
 #include "vmime/net/defaultConnectionInfos.hpp"
 
+#include <algorithm>
+
 #if VMIME_HAVE_SASL_SUPPORT
 	#include "vmime/security/sasl/SASLContext.hpp"
 #else
@@ -252,13 +254,15 @@ void SMTPConnection::helo() {
 			string ext;
 			iss >> ext;
 
+			ext = utility::stringUtils::toUpper(ext);  // keywords are case-insensitive
+
 			std::vector <string> params;
 			string param;
 
 			// Special case: some servers send "AUTH=MECH [MECH MECH...]"
-			if (ext.length() >= 5 && utility::stringUtils::toUpper(ext.substr(0, 5)) == "AUTH=") {
+			if (ext.length() >= 5 && ext.substr(0, 5) == "AUTH=") {
 
-				params.push_back(utility::stringUtils::toUpper(ext.substr(5)));
+				params.push_back(ext.substr(5));
 				ext = "AUTH";
 			}
 
@@ -266,7 +270,14 @@ void SMTPConnection::helo() {
 				params.push_back(utility::stringUtils::toUpper(param));
 			}
 
-			m_extensions[ext] = params;
+			// A server may send both "AUTH MECH" and "AUTH=MECH"
+			std::vector <string>& extParams = m_extensions[ext];
+
+			for (const string& p : params) {
+				if (std::find(extParams.begin(), extParams.end(), p) == extParams.end()) {
+					extParams.push_back(p);
+				}
+			}
 		}
 	}
 }
-- 
2.43.0


From 3b0ae69d6b064e05babf7778fe44e6abc4b68e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:06 +0000
Subject: [PATCH 117/227] fix: send a message to the members of the groups in
 its To, Cc and Bcc fields

---
 src/vmime/net/transport.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/vmime/net/transport.cpp b/src/vmime/net/transport.cpp
index c2260b2..54873bc 100644
--- a/src/vmime/net/transport.cpp
+++ b/src/vmime/net/transport.cpp
@@ -31,6 +31,7 @@
 
 #include "vmime/utility/stream.hpp"
 #include "vmime/mailboxList.hpp"
+#include "vmime/mailboxGroup.hpp"
 #include "vmime/message.hpp"
 #include "vmime/dateTime.hpp"
 #include "vmime/messageId.hpp"
@@ -125,10 +126,20 @@ static void extractMailboxes(
 
 	for (size_t i = 0 ; i < list.getAddressCount() ; ++i) {
 
-		shared_ptr <mailbox> mbox = dynamicCast <mailbox>(list.getAddressAt(i)->clone());
+		shared_ptr <const address> addr = list.getAddressAt(i);
 
-		if (mbox) {
-			recipients.appendMailbox(mbox);
+		if (addr->isGroup()) {
+
+			// Send to each member of the group
+			shared_ptr <const mailboxGroup> group = dynamicCast <const mailboxGroup>(addr);
+
+			for (size_t j = 0 ; j < group->getMailboxCount() ; ++j) {
+				recipients.appendMailbox(vmime::clone(group->getMailboxAt(j)));
+			}
+
+		} else {
+
+			recipients.appendMailbox(dynamicCast <mailbox>(addr->clone()));
 		}
 	}
 }
-- 
2.43.0


From 8a6e15eb425df29534e778592bedc4d766cfccac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:06 +0000
Subject: [PATCH 118/227] fix: a dot at the very beginning of the content was
 not doubled in the SMTP DATA phase

---
 src/vmime/net/smtp/SMTPTransport.cpp | 2 +-
 src/vmime/utility/filteredStream.cpp | 9 +++++++++
 src/vmime/utility/filteredStream.hpp | 8 ++++++++
 3 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/vmime/net/smtp/SMTPTransport.cpp b/src/vmime/net/smtp/SMTPTransport.cpp
index e557137..937cb4a 100644
--- a/src/vmime/net/smtp/SMTPTransport.cpp
+++ b/src/vmime/net/smtp/SMTPTransport.cpp
@@ -409,7 +409,7 @@ void SMTPTransport::send(
 	// Send the message data
 	// Stream copy with "\n." to "\n.." transformation
 	utility::outputStreamSocketAdapter sos(*m_connection->getSocket());
-	utility::dotFilteredOutputStream fos(sos);
+	utility::dotFilteredOutputStream fos(sos, /* startOfLine */ true);
 
 	utility::bufferedStreamCopy(is, fos, size, progress);
 
diff --git a/src/vmime/utility/filteredStream.cpp b/src/vmime/utility/filteredStream.cpp
index 1a807b1..3218a00 100644
--- a/src/vmime/utility/filteredStream.cpp
+++ b/src/vmime/utility/filteredStream.cpp
@@ -139,6 +139,15 @@ dotFilteredOutputStream::dotFilteredOutputStream(outputStream& os)
 }
 
 
+dotFilteredOutputStream::dotFilteredOutputStream(outputStream& os, const bool startOfLine)
+	: m_stream(os),
+	  m_previousChar(startOfLine ? '\n' : '\0'),
+	  m_start(!startOfLine),
+	  m_leadingDot(false) {
+
+}
+
+
 outputStream& dotFilteredOutputStream::getNextOutputStream() {
 
 	return m_stream;
diff --git a/src/vmime/utility/filteredStream.hpp b/src/vmime/utility/filteredStream.hpp
index dbbc8f8..0fe43f5 100644
--- a/src/vmime/utility/filteredStream.hpp
+++ b/src/vmime/utility/filteredStream.hpp
@@ -111,6 +111,14 @@ public:
 	  */
 	dotFilteredOutputStream(outputStream& os);
 
+	/** Construct a new filter for the specified output stream.
+	  *
+	  * @param os stream into which write filtered data
+	  * @param startOfLine if true, the content starts at the beginning of
+	  * a line, and a leading '.' is always doubled
+	  */
+	dotFilteredOutputStream(outputStream& os, const bool startOfLine);
+
 	outputStream& getNextOutputStream();
 
 	void flush();
-- 
2.43.0


From 5de73c0895218960f7e5a08e36e174977a304b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:52 +0000
Subject: [PATCH 119/227] fix: do not add an empty line to a message sent with
 DATA when it already ends with CRLF

---
 src/vmime/net/smtp/SMTPTransport.cpp | 60 ++++++++++++++++++++++++++--
 1 file changed, 57 insertions(+), 3 deletions(-)

diff --git a/src/vmime/net/smtp/SMTPTransport.cpp b/src/vmime/net/smtp/SMTPTransport.cpp
index 937cb4a..09e02b4 100644
--- a/src/vmime/net/smtp/SMTPTransport.cpp
+++ b/src/vmime/net/smtp/SMTPTransport.cpp
@@ -52,6 +52,59 @@ namespace net {
 namespace smtp {
 
 
+namespace {
+
+	/** Forwards data to another stream, and remembers whether
+	  * the last bytes written are the end of a line.
+	  */
+	class lineEndTrackingOutputStream : public utility::outputStream {
+
+	public:
+
+		explicit lineEndTrackingOutputStream(utility::outputStream& os)
+			: m_stream(os),
+			  m_previous('\0'),
+			  m_last('\0') {
+
+		}
+
+		bool isAtStartOfLine() const {
+
+			return m_previous == '\r' && m_last == '\n';
+		}
+
+		void flush() {
+
+			m_stream.flush();
+		}
+
+		size_t getBlockSize() {
+
+			return m_stream.getBlockSize();
+		}
+
+	protected:
+
+		void writeImpl(const byte_t* const data, const size_t count) {
+
+			if (count != 0) {
+				m_previous = (count >= 2 ? data[count - 2] : m_last);
+				m_last = data[count - 1];
+			}
+
+			m_stream.write(data, count);
+		}
+
+	private:
+
+		utility::outputStream& m_stream;
+
+		byte_t m_previous, m_last;
+	};
+
+}
+
+
 SMTPTransport::SMTPTransport(
 	const shared_ptr <session>& sess,
 	const shared_ptr <security::authenticator>& auth,
@@ -409,14 +462,15 @@ void SMTPTransport::send(
 	// Send the message data
 	// Stream copy with "\n." to "\n.." transformation
 	utility::outputStreamSocketAdapter sos(*m_connection->getSocket());
-	utility::dotFilteredOutputStream fos(sos, /* startOfLine */ true);
+	lineEndTrackingOutputStream los(sos);
+	utility::dotFilteredOutputStream fos(los, /* startOfLine */ true);
 
 	utility::bufferedStreamCopy(is, fos, size, progress);
 
 	fos.flush();
 
-	// Send end-of-data delimiter
-	m_connection->getSocket()->send("\r\n.\r\n");
+	// Send end-of-data delimiter (an extra CRLF must not be added [RFC-5321, 4.1.1.4])
+	m_connection->getSocket()->send(los.isAtStartOfLine() ? ".\r\n" : "\r\n.\r\n");
 
 	if (m_connection->getTracer()) {
 		m_connection->getTracer()->traceSendBytes(size);
-- 
2.43.0


From 482ace05c0f7aa74e6b3992f4041bbecda0b1a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:20 +0000
Subject: [PATCH 120/227] fix: a pipelined envelope command which fails leaves
 unread responses, so disconnect

---
 src/vmime/net/smtp/SMTPTransport.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/vmime/net/smtp/SMTPTransport.cpp b/src/vmime/net/smtp/SMTPTransport.cpp
index 09e02b4..e5a138b 100644
--- a/src/vmime/net/smtp/SMTPTransport.cpp
+++ b/src/vmime/net/smtp/SMTPTransport.cpp
@@ -347,12 +347,24 @@ void SMTPTransport::sendEnvelope(
 		}
 	}
 
+	// If an error occurs when using pipelining, the responses to the commands
+	// which were sent after the failed one would be mistaken for the responses
+	// to the next commands (and the server may be waiting for message data)
+	auto abortPipeline = [this, hasPipelining]() {
+
+		if (hasPipelining) {
+			disconnect();
+		}
+	};
+
 	// Read response for "MAIL" command
 	commands->writeToSocket(m_connection->getSocket(), m_connection->getTracer());
 
 	if ((resp = m_connection->readResponse())->getCode() != 250) {
 		auto code = resp->getCode();
 
+		abortPipeline();
+
 		// SIZE extension: insufficient system storage
 		if (code == 452) {
 
@@ -393,6 +405,8 @@ void SMTPTransport::sendEnvelope(
 
 		if (code != 250 && code != 251) {
 
+			abortPipeline();
+
 			// SIZE extension: insufficient system storage
 			if (code == 452) {
 
-- 
2.43.0


From e2f434d5eabfcef7a0fcf12e5abdc615560c67b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:33 +0000
Subject: [PATCH 121/227] fix: do not send raw UTF-8 headers without requesting
 SMTPUTF8

---
 src/vmime/net/smtp/SMTPTransport.cpp | 40 +++++++++++++++++-----------
 src/vmime/net/smtp/SMTPTransport.hpp |  6 +++++
 2 files changed, 31 insertions(+), 15 deletions(-)

diff --git a/src/vmime/net/smtp/SMTPTransport.cpp b/src/vmime/net/smtp/SMTPTransport.cpp
index e5a138b..1d3a6d8 100644
--- a/src/vmime/net/smtp/SMTPTransport.cpp
+++ b/src/vmime/net/smtp/SMTPTransport.cpp
@@ -232,6 +232,24 @@ bool SMTPTransport::mailboxNeedsUTF8(const mailbox& mb) {
 }
 
 
+// static
+bool SMTPTransport::envelopeNeedsUTF8(
+	const mailbox& expeditor,
+	const mailboxList& recipients,
+	const mailbox& sender
+) {
+
+	bool needSMTPUTF8 = mailboxNeedsUTF8(sender.isEmpty() ? expeditor : sender);
+
+	for (size_t i = 0 ; i < recipients.getMailboxCount() ; ++i) {
+		const mailbox& mbox = *recipients.getMailboxAt(i);
+		needSMTPUTF8 = needSMTPUTF8 || mailboxNeedsUTF8(mbox);
+	}
+
+	return needSMTPUTF8;
+}
+
+
 void SMTPTransport::sendEnvelope(
 	const mailbox& expeditor,
 	const mailboxList& recipients,
@@ -271,19 +289,7 @@ void SMTPTransport::sendEnvelope(
 
 	// Check whether we need SMTPUTF8
 	const bool hasSMTPUTF8 = m_connection->hasExtension("SMTPUTF8");
-	bool needSMTPUTF8 = false;
-
-	if (!sender.isEmpty()) {
-		needSMTPUTF8 = needSMTPUTF8 || mailboxNeedsUTF8(sender);
-	} else {
-		needSMTPUTF8 = needSMTPUTF8 || mailboxNeedsUTF8(expeditor);
-	}
-
-	for (size_t i = 0 ; i < recipients.getMailboxCount() ; ++i) {
-
-		const mailbox& mbox = *recipients.getMailboxAt(i);
-		needSMTPUTF8 = needSMTPUTF8 || mailboxNeedsUTF8(mbox);
-	}
+	const bool needSMTPUTF8 = envelopeNeedsUTF8(expeditor, recipients, sender);
 
 	// Emit the "MAIL" command
 	const bool hasSize = m_connection->hasExtension("SIZE");
@@ -514,9 +520,13 @@ void SMTPTransport::send(
 	}
 
 	// Generate the message with Internationalized Email support,
-	// if this is supported by the SMTP server
+	// if this is supported by the SMTP server, and if SMTPUTF8 is
+	// going to be requested for this message [RFC-6531, 3.4]
 	generationContext ctx(generationContext::getDefaultContext());
-	ctx.setInternationalizedEmailSupport(m_connection->hasExtension("SMTPUTF8"));
+	ctx.setInternationalizedEmailSupport(
+		m_connection->hasExtension("SMTPUTF8") &&
+		envelopeNeedsUTF8(expeditor, recipients, sender)
+	);
 
 	// If CHUNKING is not supported, generate the message to a temporary
 	// buffer then use the send() method which takes an inputStream
diff --git a/src/vmime/net/smtp/SMTPTransport.hpp b/src/vmime/net/smtp/SMTPTransport.hpp
index 6dc118a..e287c86 100644
--- a/src/vmime/net/smtp/SMTPTransport.hpp
+++ b/src/vmime/net/smtp/SMTPTransport.hpp
@@ -101,6 +101,12 @@ private:
 
 	static bool mailboxNeedsUTF8(const mailbox& mb);
 
+	static bool envelopeNeedsUTF8(
+		const mailbox& expeditor,
+		const mailboxList& recipients,
+		const mailbox& sender
+	);
+
 	/** Send the MAIL and RCPT commands to the server, checking the
 	  * response, and using pipelining if supported by the server.
 	  * Optionally, the DATA command can also be sent.
-- 
2.43.0


From e9756590969642e9bf5c6eeec5a99bd134ed06d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:55 +0000
Subject: [PATCH 122/227] fix: refuse addresses which would inject something
 into an SMTP command, and quote local parts with SMTPUTF8

---
 src/vmime/net/smtp/SMTPCommand.cpp | 63 ++++++++++++++++++------------
 1 file changed, 37 insertions(+), 26 deletions(-)

diff --git a/src/vmime/net/smtp/SMTPCommand.cpp b/src/vmime/net/smtp/SMTPCommand.cpp
index c636d4b..2d66964 100644
--- a/src/vmime/net/smtp/SMTPCommand.cpp
+++ b/src/vmime/net/smtp/SMTPCommand.cpp
@@ -33,14 +33,49 @@
 #include "vmime/net/tracer.hpp"
 
 #include "vmime/mailbox.hpp"
+#include "vmime/exception.hpp"
+
 #include "vmime/utility/outputStreamAdapter.hpp"
 
+#include <algorithm>
+
 
 namespace vmime {
 namespace net {
 namespace smtp {
 
 
+/** Generates the address for a MAIL or RCPT command. An address which
+  * cannot be represented is refused, as it would alter the command.
+  */
+static const string generatePath(const string& cmdName, const emailAddress& email, const bool utf8) {
+
+	const string local = email.getLocalName().getBuffer();
+	const string domain = email.getDomainName().getBuffer();
+
+	auto isControl = [](const char c) {
+		return static_cast <unsigned char>(c) < 0x20 || c == 0x7f;
+	};
+
+	if (std::any_of(local.begin(), local.end(), isControl) ||
+	    std::any_of(domain.begin(), domain.end(), isControl) ||
+	    domain.find_first_of(" <>\"(),;@\\") != string::npos) {
+
+		throw exceptions::command_error(cmdName, "", "Invalid character in email address.");
+	}
+
+	generationContext ctx(generationContext::getDefaultContext());
+	ctx.setInternationalizedEmailSupport(utf8);
+
+	std::ostringstream oss;
+	vmime::utility::outputStreamAdapter os(oss);
+
+	email.generate(ctx, os);
+
+	return oss.str();
+}
+
+
 SMTPCommand::SMTPCommand(const string& text, const string& traceText)
 	: m_text(text),
 	  m_traceText(traceText)
@@ -117,19 +152,7 @@ shared_ptr <SMTPCommand> SMTPCommand::MAIL(
 
 	std::ostringstream cmd;
 	cmd.imbue(std::locale::classic());
-	cmd << "MAIL FROM:<";
-
-	if (utf8) {
-
-		cmd << mbox.getEmail().toText().getConvertedText(vmime::charsets::UTF_8);
-
-	} else {
-
-		vmime::utility::outputStreamAdapter cmd2(cmd);
-		mbox.getEmail().generate(cmd2);
-	}
-
-	cmd << ">";
+	cmd << "MAIL FROM:<" << generatePath("MAIL", mbox.getEmail(), utf8) << ">";
 
 	if (dsnAttrs && !dsnAttrs->getReturnFormat().empty()) {
 		cmd << " " << dsn::RET << "=" << dsnAttrs->getReturnFormat();
@@ -158,19 +181,7 @@ shared_ptr <SMTPCommand> SMTPCommand::RCPT(
 
 	std::ostringstream cmd;
 	cmd.imbue(std::locale::classic());
-	cmd << "RCPT TO:<";
-
-	if (utf8) {
-
-		cmd << mbox.getEmail().toText().getConvertedText(vmime::charsets::UTF_8);
-
-	} else {
-
-		vmime::utility::outputStreamAdapter cmd2(cmd);
-		mbox.getEmail().generate(cmd2);
-	}
-
-	cmd << ">";
+	cmd << "RCPT TO:<" << generatePath("RCPT", mbox.getEmail(), utf8) << ">";
 
 	if (dsnAttrs && !dsnAttrs->getNotificationConditions().empty()) {
 		cmd << " " << dsn::NOTIFY << "=" << dsnAttrs->getNotificationConditions();
-- 
2.43.0


From 87c61b4827d34c50ce12beeca599aa6e6daf20e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:03 +0000
Subject: [PATCH 123/227] fix: encode the DSN envelope identifier as xtext

---
 src/vmime/net/smtp/SMTPCommand.cpp | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/vmime/net/smtp/SMTPCommand.cpp b/src/vmime/net/smtp/SMTPCommand.cpp
index 2d66964..b284724 100644
--- a/src/vmime/net/smtp/SMTPCommand.cpp
+++ b/src/vmime/net/smtp/SMTPCommand.cpp
@@ -76,6 +76,31 @@ static const string generatePath(const string& cmdName, const emailAddress& emai
 }
 
 
+/** Encodes a string as "xtext" [RFC-3461, 4].
+  */
+static const string encodeXText(const string& str) {
+
+	static const char hexDigits[] = "0123456789ABCDEF";
+
+	string res;
+
+	for (const char c : str) {
+
+		const unsigned char uc = static_cast <unsigned char>(c);
+
+		if (uc < 33 || uc > 126 || c == '+' || c == '=') {
+			res += '+';
+			res += hexDigits[uc >> 4];
+			res += hexDigits[uc & 15];
+		} else {
+			res += c;
+		}
+	}
+
+	return res;
+}
+
+
 SMTPCommand::SMTPCommand(const string& text, const string& traceText)
 	: m_text(text),
 	  m_traceText(traceText)
@@ -158,7 +183,7 @@ shared_ptr <SMTPCommand> SMTPCommand::MAIL(
 		cmd << " " << dsn::RET << "=" << dsnAttrs->getReturnFormat();
 	}
 	if (dsnAttrs && !dsnAttrs->getEnvelopId().empty()) {
-		cmd << " " << dsn::ENVID << "=<" << dsnAttrs->getEnvelopId() << ">";
+		cmd << " " << dsn::ENVID << "=<" << encodeXText(dsnAttrs->getEnvelopId()) << ">";
 	}
 
 	if (utf8) {
-- 
2.43.0


From 7fe2969d8e02c4bddeab0d8a159a0007ceb336fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:14 +0000
Subject: [PATCH 124/227] fix: a 7-bit local part with '?=' is not encoded

---
 src/vmime/emailAddress.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/vmime/emailAddress.cpp b/src/vmime/emailAddress.cpp
index c3f2948..1a603e1 100644
--- a/src/vmime/emailAddress.cpp
+++ b/src/vmime/emailAddress.cpp
@@ -607,7 +607,18 @@ void emailAddress::generateImpl(
 
 		// Local part
 		vmime::utility::outputStreamStringAdapter os(localPart);
-		m_localName.generate(localCtx, os, 0, NULL, text::QUOTE_IF_NEEDED, NULL);
+		int flags = text::QUOTE_IF_NEEDED;
+
+		// Do not encode what can be written as is: the result would
+		// not be the same mailbox (eg. "a?=" is a valid local part)
+		if (utility::stringUtils::is7bit(m_localName.getBuffer()) &&
+		    m_localName.getBuffer().find_first_of("\r\n") == string::npos &&
+		    m_localName.getBuffer().find("=?") == string::npos) {
+
+			flags |= text::FORCE_NO_ENCODING;
+		}
+
+		m_localName.generate(localCtx, os, 0, NULL, flags, NULL);
 
 		// Domain part as IDNA
 		domainPart = domainNameToIDNA(m_domainName.getConvertedText(vmime::charsets::UTF_8));
-- 
2.43.0


From b7d0610ae56c57e5d93ef999e07718c73b84f60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:14 +0000
Subject: [PATCH 125/227] fix: stringUtils::is7bit() is true for any string of
 7-bit characters

---
 src/vmime/utility/stringUtils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/utility/stringUtils.cpp b/src/vmime/utility/stringUtils.cpp
index 823a3ea..9fed981 100644
--- a/src/vmime/utility/stringUtils.cpp
+++ b/src/vmime/utility/stringUtils.cpp
@@ -166,7 +166,7 @@ size_t stringUtils::countASCIIchars(
 
 bool stringUtils::is7bit(const string& str) {
 
-	return countASCIIchars(str.begin(), str.end()) == str.length();
+	return findFirstNonASCIIchar(str.begin(), str.end()) == string::npos;
 }
 
 
-- 
2.43.0


From 6c5294b56d553566dc06f691e518d73b8622396d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:52 +0000
Subject: [PATCH 126/227] fix: read POP3 responses line by line: un-stuff only
 the lines starting with a dot, whatever the fragmentation, end at the
 CRLF.CRLF line, accept empty multi-line responses and single-line errors

---
 src/vmime/net/pop3/POP3Response.cpp | 402 ++++++++++++++--------------
 src/vmime/net/pop3/POP3Response.hpp |   8 +-
 2 files changed, 196 insertions(+), 214 deletions(-)

diff --git a/src/vmime/net/pop3/POP3Response.cpp b/src/vmime/net/pop3/POP3Response.cpp
index 725841e..08998cf 100644
--- a/src/vmime/net/pop3/POP3Response.cpp
+++ b/src/vmime/net/pop3/POP3Response.cpp
@@ -33,9 +33,7 @@
 #include "vmime/platform.hpp"
 
 #include "vmime/utility/stringUtils.hpp"
-#include "vmime/utility/filteredStream.hpp"
-#include "vmime/utility/stringUtils.hpp"
-#include "vmime/utility/inputStreamSocketAdapter.hpp"
+#include "vmime/utility/outputStreamStringAdapter.hpp"
 
 #include "vmime/net/socket.hpp"
 #include "vmime/net/timeoutHandler.hpp"
@@ -46,6 +44,140 @@ namespace net {
 namespace pop3 {
 
 
+/** Decodes the data of a multi-line response (everything which follows
+  * the first line), as specified in RFC-1939/3: finds the terminator line,
+  * and removes the dot that was added to the lines starting with a dot.
+  * The end of line that precedes the terminator line is not part of the data.
+  */
+class POP3MultiLineDecoder {
+
+public:
+
+	/** Constructs a new decoder.
+	  *
+	  * @param acceptLF if true, lines can end with LF instead of CRLF
+	  */
+	POP3MultiLineDecoder(const bool acceptLF)
+		: m_acceptLF(acceptLF),
+		  m_state(STATE_LINE_START) {
+
+	}
+
+	/** Decodes some data.
+	  *
+	  * @param data received data
+	  * @param result string to which decoded data is appended
+	  */
+	void decode(const string& data, string& result) {
+
+		for (size_t i = 0, n = data.length() ; i < n && m_state != STATE_DONE ; ++i) {
+			decode(data[i], result);
+		}
+	}
+
+	/** Returns whether the terminator line has been found.
+	  *
+	  * @return true if there is no more data in this response
+	  */
+	bool isDone() const {
+
+		return m_state == STATE_DONE;
+	}
+
+private:
+
+	void decode(const char c, string& result) {
+
+		switch (m_state) {
+
+			case STATE_LINE_START:
+
+				if (c == '.') {
+					m_state = STATE_DOT;
+				} else {
+					decodeText(c, result);
+				}
+
+				break;
+
+			case STATE_DOT:
+
+				if (c == '\r') {
+					m_state = STATE_DOT_CR;
+				} else if (c == '\n' && m_acceptLF) {
+					m_state = STATE_DONE;
+				} else if (c == '.') {   // "\n.." --> "\n."
+					decodeText(c, result);
+				} else {
+					decodeText('.', result);
+					decodeText(c, result);
+				}
+
+				break;
+
+			case STATE_DOT_CR:
+
+				if (c == '\n') {
+					m_state = STATE_DONE;
+				} else {
+					decodeText('.', result);
+					decodeText('\r', result);
+					decodeText(c, result);
+				}
+
+				break;
+
+			default:
+
+				decodeText(c, result);
+				break;
+		}
+	}
+
+	void decodeText(const char c, string& result) {
+
+		if (c == '\n' && (m_state == STATE_TEXT_CR || m_acceptLF)) {
+
+			result += m_endOfLine;
+			m_endOfLine = (m_state == STATE_TEXT_CR ? "\r\n" : "\n");
+			m_state = STATE_LINE_START;
+
+			return;
+		}
+
+		// The end of line does not precede the terminator line
+		result += m_endOfLine;
+		m_endOfLine.clear();
+
+		if (m_state == STATE_TEXT_CR) {
+			result += '\r';
+		}
+
+		if (c == '\r') {
+			m_state = STATE_TEXT_CR;
+		} else {
+			result += c;
+			m_state = STATE_TEXT;
+		}
+	}
+
+
+	enum State {
+		STATE_LINE_START,  /**< At the beginning of a line. */
+		STATE_DOT,         /**< After a dot at the beginning of a line. */
+		STATE_DOT_CR,      /**< After ".<CR>" at the beginning of a line. */
+		STATE_TEXT,        /**< In a line. */
+		STATE_TEXT_CR,     /**< After CR in a line. */
+		STATE_DONE         /**< After the terminator line. */
+	};
+
+	const bool m_acceptLF;
+
+	State m_state;
+	string m_endOfLine;
+};
+
+
 POP3Response::POP3Response(
 	const shared_ptr <socket>& sok,
 	const shared_ptr <timeoutHandler>& toh,
@@ -67,15 +199,20 @@ shared_ptr <POP3Response> POP3Response::readResponse(
 		new POP3Response(conn->getSocket(), conn->getTimeoutHandler(), conn->getTracer())
 	);
 
-	string buffer;
-	resp->readResponseImpl(buffer, /* multiLine */ false);
+	string firstLine, nextLines;
+	utility::outputStreamStringAdapter nextLinesStream(nextLines);
 
-	resp->m_firstLine = buffer;
-	resp->m_code = getResponseCode(buffer);
-	stripResponseCode(buffer, resp->m_text);
+	resp->readResponseImpl(
+		firstLine, /* multiLine */ false, nextLinesStream,
+		/* progress */ NULL, /* predictedSize */ 0
+	);
+
+	resp->m_firstLine = firstLine;
+	resp->m_code = getResponseCode(firstLine);
+	stripResponseCode(firstLine, resp->m_text);
 
 	if (resp->m_tracer) {
-		resp->m_tracer->traceReceive(buffer);
+		resp->m_tracer->traceReceive(firstLine);
 	}
 
 	return resp;
@@ -91,11 +228,13 @@ shared_ptr <POP3Response> POP3Response::readMultilineResponse(
 		new POP3Response(conn->getSocket(), conn->getTimeoutHandler(), conn->getTracer())
 	);
 
-	string buffer;
-	resp->readResponseImpl(buffer, /* multiLine */ true);
-
 	string firstLine, nextLines;
-	stripFirstLine(buffer, nextLines, &firstLine);
+	utility::outputStreamStringAdapter nextLinesStream(nextLines);
+
+	resp->readResponseImpl(
+		firstLine, /* multiLine */ true, nextLinesStream,
+		/* progress */ NULL, /* predictedSize */ 0
+	);
 
 	resp->m_firstLine = firstLine;
 	resp->m_code = getResponseCode(firstLine);
@@ -139,12 +278,18 @@ shared_ptr <POP3Response> POP3Response::readLargeResponse(
 	);
 
 	string firstLine;
-	const size_t length = resp->readResponseImpl(firstLine, os, progress, predictedSize);
+	const size_t length = resp->readResponseImpl(
+		firstLine, /* multiLine */ true, os, progress, predictedSize
+	);
 
 	resp->m_firstLine = firstLine;
 	resp->m_code = getResponseCode(firstLine);
 	stripResponseCode(firstLine, resp->m_text);
 
+	if (!resp->isSuccess()) {
+		throw exceptions::command_error("?", firstLine);
+	}
+
 	if (resp->m_tracer) {
 		resp->m_tracer->traceReceive(firstLine);
 		resp->m_tracer->traceReceiveBytes(length - firstLine.length());
@@ -191,94 +336,9 @@ size_t POP3Response::getLineCount() const {
 }
 
 
-void POP3Response::readResponseImpl(string& buffer, const bool multiLine) {
-
-	bool foundTerminator = false;
-
-	if (m_timeoutHandler) {
-		m_timeoutHandler->resetTimeOut();
-	}
-
-	buffer.clear();
-
-	char last1 = '\0', last2 = '\0';
-
-	for ( ; !foundTerminator ; ) {
-
-		// Check whether the time-out delay is elapsed
-		if (m_timeoutHandler && m_timeoutHandler->isTimeOut()) {
-
-			if (!m_timeoutHandler->handleTimeOut()) {
-				throw exceptions::operation_timed_out();
-			}
-
-			m_timeoutHandler->resetTimeOut();
-		}
-
-		// Receive data from the socket
-		string receiveBuffer;
-		m_socket->receive(receiveBuffer);
-
-		if (receiveBuffer.empty()) {  // buffer is empty
-
-			if (m_socket->getStatus() & socket::STATUS_WANT_WRITE) {
-				m_socket->waitForWrite();
-			} else {
-				m_socket->waitForRead();
-			}
-
-			continue;
-		}
-
-		// We have received data: reset the time-out counter
-		if (m_timeoutHandler) {
-			m_timeoutHandler->resetTimeOut();
-		}
-
-		// Check for transparent characters: '\n..' becomes '\n.'
-		const char first = receiveBuffer[0];
-
-		if (first == '.' && last2 == '\n' && last1 == '.') {
-
-			receiveBuffer.erase(receiveBuffer.begin());
-
-		} else if (receiveBuffer.length() >= 2 && first == '.' &&
-		           receiveBuffer[1] == '.' && last1 == '\n') {
-
-			receiveBuffer.erase(receiveBuffer.begin());
-		}
-
-		for (size_t trans ;
-		     string::npos != (trans = receiveBuffer.find("\n..")) ; ) {
-
-			receiveBuffer.replace(trans, 3, "\n.");
-		}
-
-		last1 = receiveBuffer[receiveBuffer.length() - 1];
-		last2 = static_cast <char>((receiveBuffer.length() >= 2) ? receiveBuffer[receiveBuffer.length() - 2] : 0);
-
-		// Append the data to the response buffer
-		buffer += receiveBuffer;
-
-		// Check for terminator string (and strip it if present)
-		foundTerminator = checkTerminator(buffer, multiLine);
-
-		// If there is an error (-ERR) when executing a command that
-		// requires a multi-line response, the error response will
-		// include only one line, so we stop waiting for a multi-line
-		// terminator and check for a "normal" one.
-		if (multiLine &&
-		    !foundTerminator &&
-		    buffer.length() >= 4 && buffer[0] == '-') {
-
-			foundTerminator = checkTerminator(buffer, false);
-		}
-	}
-}
-
-
 size_t POP3Response::readResponseImpl(
 	string& firstLine,
+	const bool multiLine,
 	utility::outputStream& os,
 	utility::progressListener* progress,
 	const size_t predictedSize
@@ -286,8 +346,9 @@ size_t POP3Response::readResponseImpl(
 
 	size_t current = 0, total = predictedSize;
 
-	string temp;
-	bool codeDone = false;
+	string buffer;
+	bool firstLineDone = false;
+	scoped_ptr <POP3MultiLineDecoder> decoder;
 
 	if (progress) {
 		progress->start(total);
@@ -297,14 +358,7 @@ size_t POP3Response::readResponseImpl(
 		m_timeoutHandler->resetTimeOut();
 	}
 
-	utility::inputStreamSocketAdapter sis(*m_socket);
-	utility::stopSequenceFilteredInputStream <5> sfis1(sis, "\r\n.\r\n");
-	utility::stopSequenceFilteredInputStream <3> sfis2(sfis1, "\n.\n");
-	utility::dotFilteredInputStream dfis(sfis2);   // "\n.." --> "\n."
-
-	utility::inputStream& is = dfis;
-
-	while (!is.eof()) {
+	while (!firstLineDone || (decoder && !decoder->isDone())) {
 
 		// Check whether the time-out delay is elapsed
 		if (m_timeoutHandler && m_timeoutHandler->isTimeOut()) {
@@ -312,22 +366,20 @@ size_t POP3Response::readResponseImpl(
 			if (!m_timeoutHandler->handleTimeOut()) {
 				throw exceptions::operation_timed_out();
 			}
+
+			m_timeoutHandler->resetTimeOut();
 		}
 
 		// Receive data from the socket
-		byte_t buffer[65536];
-		const size_t read = is.read(buffer, sizeof(buffer));
+		string receiveBuffer;
+		m_socket->receive(receiveBuffer);
 
-		if (read == 0) {  // buffer is empty
+		if (receiveBuffer.empty()) {  // buffer is empty
 
 			if (m_socket->getStatus() & socket::STATUS_WANT_WRITE) {
 				m_socket->waitForWrite();
-			} else if (m_socket->getStatus() & socket::STATUS_WANT_READ) {
-				m_socket->waitForRead();
 			} else {
-				// Input stream needs more bytes to continue, but there
-				// is enough data into socket buffer. Do not waitForRead(),
-				// just retry read()ing on the stream.
+				m_socket->waitForRead();
 			}
 
 			continue;
@@ -339,38 +391,46 @@ size_t POP3Response::readResponseImpl(
 		}
 
 		// Notify progress
-		current += read;
+		current += receiveBuffer.length();
 
 		if (progress) {
 			total = std::max(total, current);
 			progress->progress(current, total);
 		}
 
-		// If we don't have extracted the response code yet
-		if (!codeDone) {
+		// Extract the first line, if we don't have it yet
+		if (!firstLineDone) {
 
-			vmime::utility::stringUtils::appendBytesToString(temp, buffer, read);
+			buffer += receiveBuffer;
 
-			string responseData;
+			const size_t end = buffer.find('\n');
 
-			if (stripFirstLine(temp, responseData, &firstLine) == true) {
+			if (end == string::npos) {
+				continue;
+			}
 
-				if (getResponseCode(firstLine) != CODE_OK) {
-					throw exceptions::command_error("?", firstLine);
-				}
+			const bool isLF = (end == 0 || buffer[end - 1] != '\r');
 
-				codeDone = true;
+			firstLine = buffer.substr(0, isLF ? end : end - 1);
+			firstLineDone = true;
 
-				os.write(responseData.data(), responseData.length());
-				temp.clear();
+			receiveBuffer = buffer.substr(end + 1);
 
-				continue;
+			// If there is an error (-ERR) when executing a command that
+			// requires a multi-line response, the error response will
+			// include only one line
+			if (multiLine && getResponseCode(firstLine) == CODE_OK) {
+				decoder.reset(new POP3MultiLineDecoder(/* acceptLF */ isLF));
 			}
+		}
 
-		} else {
+		// Inject the data into the output stream
+		if (decoder) {
+
+			string data;
+			decoder->decode(receiveBuffer, data);
 
-			// Inject the data into the output stream
-			os.write(buffer, read);
+			os.write(data.data(), data.length());
 		}
 	}
 
@@ -382,38 +442,6 @@ size_t POP3Response::readResponseImpl(
 }
 
 
-// static
-bool POP3Response::stripFirstLine(
-	const string& buffer,
-	string& result,
-	string* firstLine
-) {
-
-	const size_t end = buffer.find('\n');
-
-	if (end != string::npos) {
-
-		if (firstLine) {
-			*firstLine = utility::stringUtils::trim(buffer.substr(0, end));
-		}
-
-		result = buffer.substr(end + 1);
-
-		return true;
-
-	} else {
-
-		if (firstLine) {
-			*firstLine = utility::stringUtils::trim(buffer);
-		}
-
-		result = "";
-
-		return false;
-	}
-}
-
-
 // static
 POP3Response::ResponseCode POP3Response::getResponseCode(const string& buffer) {
 
@@ -431,7 +459,7 @@ POP3Response::ResponseCode POP3Response::getResponseCode(const string& buffer) {
 
 			if (buffer[0] == '+' &&
 			    (buffer[1] == 'O' || buffer[1] == 'o') &&
-			    (buffer[2] == 'K' || buffer[1] == 'k')) {
+			    (buffer[2] == 'K' || buffer[2] == 'k')) {
 
 				return CODE_OK;
 			}
@@ -456,46 +484,6 @@ void POP3Response::stripResponseCode(const string& buffer, string& result) {
 }
 
 
-// static
-bool POP3Response::checkTerminator(string& buffer, const bool multiLine) {
-
-	// Multi-line response
-	if (multiLine) {
-
-		static const string term1("\r\n.\r\n");
-		static const string term2("\n.\n");
-
-		return checkOneTerminator(buffer, term1) ||
-		       checkOneTerminator(buffer, term2);
-
-	// Normal response
-	} else {
-
-		static const string term1("\r\n");
-		static const string term2("\n");
-
-		return checkOneTerminator(buffer, term1) ||
-		       checkOneTerminator(buffer, term2);
-	}
-
-	return false;
-}
-
-
-// static
-bool POP3Response::checkOneTerminator(string& buffer, const string& term) {
-
-	if (buffer.length() >= term.length() &&
-		std::equal(buffer.end() - term.length(), buffer.end(), term.begin())) {
-
-		buffer.erase(buffer.end() - term.length(), buffer.end());
-		return true;
-	}
-
-	return false;
-}
-
-
 } // pop3
 } // net
 } // vmime
diff --git a/src/vmime/net/pop3/POP3Response.hpp b/src/vmime/net/pop3/POP3Response.hpp
index 69f8d5d..24895e5 100644
--- a/src/vmime/net/pop3/POP3Response.hpp
+++ b/src/vmime/net/pop3/POP3Response.hpp
@@ -152,25 +152,19 @@ private:
 		const shared_ptr <tracer>& tracer
 	);
 
-	void readResponseImpl(string& buffer, const bool multiLine);
-
 	size_t readResponseImpl(
 		string& firstLine,
+		const bool multiLine,
 		utility::outputStream& os,
 		utility::progressListener* progress,
 		const size_t predictedSize
 	);
 
 
-	static bool stripFirstLine(const string& buffer, string& result, string* firstLine);
-
 	static ResponseCode getResponseCode(const string& buffer);
 
 	static void stripResponseCode(const string& buffer, string& result);
 
-	static bool checkTerminator(string& buffer, const bool multiLine);
-	static bool checkOneTerminator(string& buffer, const string& term);
-
 
 	shared_ptr <socket> m_socket;
 	shared_ptr <timeoutHandler> m_timeoutHandler;
-- 
2.43.0


From c8d067d563a03d9c5b5152ff796fcda712cdb191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:52 +0000
Subject: [PATCH 127/227] fix: do not ignore the bounds of a partial extraction
 of a POP3 message

---
 src/vmime/net/pop3/POP3Message.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/net/pop3/POP3Message.cpp b/src/vmime/net/pop3/POP3Message.cpp
index 8d6b7f5..f898479 100644
--- a/src/vmime/net/pop3/POP3Message.cpp
+++ b/src/vmime/net/pop3/POP3Message.cpp
@@ -158,7 +158,7 @@ void POP3Message::extract(
 		throw exceptions::illegal_state("Store disconnected");
 	}
 
-	if (start != 0 && length != static_cast <size_t>(-1)) {
+	if (start != 0 || length != static_cast <size_t>(-1)) {
 		throw exceptions::partial_fetch_not_supported();
 	}
 
-- 
2.43.0


From c203db3a9b1dc4450875b7043faaffd6b301d30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:15 +0000
Subject: [PATCH 128/227] fix: a POP3 message keeps its number when the server
 counts fewer messages after a deletion

---
 src/vmime/net/pop3/POP3Folder.cpp | 63 +++++++++++++++----------------
 1 file changed, 30 insertions(+), 33 deletions(-)

diff --git a/src/vmime/net/pop3/POP3Folder.cpp b/src/vmime/net/pop3/POP3Folder.cpp
index b69a483..ea5b367 100644
--- a/src/vmime/net/pop3/POP3Folder.cpp
+++ b/src/vmime/net/pop3/POP3Folder.cpp
@@ -53,7 +53,8 @@ POP3Folder::POP3Folder(
 	  m_path(path),
 	  m_name(path.isEmpty() ? folder::path::component("") : path.getLastComponent()),
 	  m_mode(-1),
-	  m_open(false) {
+	  m_open(false),
+	  m_messageCount(0) {
 
 	store->registerFolder(this);
 }
@@ -715,8 +716,6 @@ void POP3Folder::status(size_t& count, size_t& unseen) {
 
 	count = status->getMessageCount();
 	unseen = status->getUnseenCount();
-
-	m_messageCount = count;
 }
 
 
@@ -749,49 +748,47 @@ shared_ptr <folderStatus> POP3Folder::getStatus() {
 	status->setMessageCount(count);
 	status->setUnseenCount(count);
 
-	// Update local message count
-	if (m_messageCount != count) {
+	// Update local message count. Note that the server does not count the
+	// messages marked as deleted, but the other messages keep their number.
+	if (m_messageCount < count) {
 
 		const size_t oldCount = m_messageCount;
 
 		m_messageCount = count;
 
-		if (count > oldCount) {
-
-			std::vector <size_t> nums;
-			nums.resize(count - oldCount);
+		std::vector <size_t> nums;
+		nums.resize(count - oldCount);
 
-			for (size_t i = oldCount + 1, j = 0 ; i <= count ; ++i, ++j) {
-				nums[j] = i;
-			}
+		for (size_t i = oldCount + 1, j = 0 ; i <= count ; ++i, ++j) {
+			nums[j] = i;
+		}
 
-			// Notify message count changed
-			shared_ptr <events::messageCountEvent> event =
-				make_shared <events::messageCountEvent>(
-					dynamicCast <folder>(shared_from_this()),
-					events::messageCountEvent::TYPE_ADDED,
-					nums
-				);
+		// Notify message count changed
+		shared_ptr <events::messageCountEvent> event =
+			make_shared <events::messageCountEvent>(
+				dynamicCast <folder>(shared_from_this()),
+				events::messageCountEvent::TYPE_ADDED,
+				nums
+			);
 
-			notifyMessageCount(event);
+		notifyMessageCount(event);
 
-			// Notify folders with the same path
-			for (std::list <POP3Folder*>::iterator it = store->m_folders.begin() ;
-			     it != store->m_folders.end() ; ++it) {
+		// Notify folders with the same path
+		for (std::list <POP3Folder*>::iterator it = store->m_folders.begin() ;
+		     it != store->m_folders.end() ; ++it) {
 
-				if ((*it) != this && (*it)->getFullPath() == m_path) {
+			if ((*it) != this && (*it)->getFullPath() == m_path) {
 
-					(*it)->m_messageCount = count;
+				(*it)->m_messageCount = count;
 
-					shared_ptr <events::messageCountEvent> event =
-						make_shared <events::messageCountEvent>(
-							dynamicCast <folder>((*it)->shared_from_this()),
-							events::messageCountEvent::TYPE_ADDED,
-							nums
-						);
+				shared_ptr <events::messageCountEvent> event =
+					make_shared <events::messageCountEvent>(
+						dynamicCast <folder>((*it)->shared_from_this()),
+						events::messageCountEvent::TYPE_ADDED,
+						nums
+					);
 
-					(*it)->notifyMessageCount(event);
-				}
+				(*it)->notifyMessageCount(event);
 			}
 		}
 	}
-- 
2.43.0


From 4cb47158622bce547c91f049a564f19d6f5a92d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:15 +0000
Subject: [PATCH 129/227] fix: folders of a lost POP3 connection are not usable
 with the next connection

---
 src/vmime/net/pop3/POP3Store.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/vmime/net/pop3/POP3Store.cpp b/src/vmime/net/pop3/POP3Store.cpp
index b06640f..649b46e 100644
--- a/src/vmime/net/pop3/POP3Store.cpp
+++ b/src/vmime/net/pop3/POP3Store.cpp
@@ -131,6 +131,16 @@ void POP3Store::connect() {
 		throw exceptions::already_connected();
 	}
 
+	// If the previous connection was lost, its folders cannot be used
+	// with the new one, as messages may have been renumbered
+	for (std::list <POP3Folder*>::iterator it = m_folders.begin() ;
+	     it != m_folders.end() ; ++it) {
+
+		(*it)->onStoreDisconnected();
+	}
+
+	m_folders.clear();
+
 	m_connection = make_shared <POP3Connection>(
 		dynamicCast <POP3Store>(shared_from_this()), getAuthenticator()
 	);
-- 
2.43.0


From b21e57ea460d548f4ea600ac1da395c216324ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:15 +0000
Subject: [PATCH 130/227] fix: refuse POP3 credentials which would inject
 commands

---
 src/vmime/net/pop3/POP3Connection.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/vmime/net/pop3/POP3Connection.cpp b/src/vmime/net/pop3/POP3Connection.cpp
index 749f7ef..682bcec 100644
--- a/src/vmime/net/pop3/POP3Connection.cpp
+++ b/src/vmime/net/pop3/POP3Connection.cpp
@@ -276,6 +276,16 @@ void POP3Connection::authenticate(const messageId& randomMID) {
 	const string username = getAuthenticator()->getUsername();
 	const string password = getAuthenticator()->getPassword();
 
+	// A line break would allow to inject other commands
+	static const string forbiddenChars("\r\n\0", 3);
+
+	if (username.find_first_of(forbiddenChars) != string::npos ||
+	    password.find_first_of(forbiddenChars) != string::npos) {
+
+		internalDisconnect();
+		throw exceptions::authentication_error("Invalid character in user name or password.");
+	}
+
 	shared_ptr <POP3Connection> conn = dynamicCast <POP3Connection>(shared_from_this());
 	shared_ptr <POP3Response> response;
 
-- 
2.43.0


From f92efab51e6c2a8300c080170e92d71c5a64f2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:53 +0000
Subject: [PATCH 131/227] fix: after a failed POP3 deletion, flag and notify
 the messages which have been deleted

---
 src/vmime/net/pop3/POP3Folder.cpp | 36 +++++++++++++++++++------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/src/vmime/net/pop3/POP3Folder.cpp b/src/vmime/net/pop3/POP3Folder.cpp
index ea5b367..656b6ab 100644
--- a/src/vmime/net/pop3/POP3Folder.cpp
+++ b/src/vmime/net/pop3/POP3Folder.cpp
@@ -615,6 +615,9 @@ void POP3Folder::deleteMessages(const messageSet& msgs) {
 		throw exceptions::illegal_state("Folder not open");
 	}
 
+	std::vector <size_t> list;
+	shared_ptr <POP3Response> errorResponse;
+
 	for (std::vector <size_t>::const_iterator
 	     it = nums.begin() ; it != nums.end() ; ++it) {
 
@@ -624,16 +627,14 @@ void POP3Folder::deleteMessages(const messageSet& msgs) {
 			POP3Response::readResponse(store->getConnection());
 
 		if (!response->isSuccess()) {
-			throw exceptions::command_error("DELE", response->getFirstLine());
+			errorResponse = response;
+			break;
 		}
-	}
 
-	// Sort message list
-	std::vector <size_t> list;
-
-	list.resize(nums.size());
-	std::copy(nums.begin(), nums.end(), list.begin());
+		list.push_back(*it);
+	}
 
+	// Sort the list of messages which have actually been deleted
 	std::sort(list.begin(), list.end());
 
 	// Update local flags
@@ -648,14 +649,21 @@ void POP3Folder::deleteMessages(const messageSet& msgs) {
 	}
 
 	// Notify message flags changed
-	shared_ptr <events::messageChangedEvent> event =
-		make_shared <events::messageChangedEvent>(
-			dynamicCast <folder>(shared_from_this()),
-			events::messageChangedEvent::TYPE_FLAGS,
-			list
-		);
+	if (!list.empty()) {
 
-	notifyMessageChanged(event);
+		shared_ptr <events::messageChangedEvent> event =
+			make_shared <events::messageChangedEvent>(
+				dynamicCast <folder>(shared_from_this()),
+				events::messageChangedEvent::TYPE_FLAGS,
+				list
+			);
+
+		notifyMessageChanged(event);
+	}
+
+	if (errorResponse) {
+		throw exceptions::command_error("DELE", errorResponse->getFirstLine());
+	}
 }
 
 
-- 
2.43.0


From e0b4d6e5b5ceb52b6ad942e853c470e8673dd134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:19 +0000
Subject: [PATCH 132/227] fix: posixFile::rename() leaves no file or directory
 behind when it fails

---
 src/vmime/platforms/posix/posixFile.cpp | 26 +++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/vmime/platforms/posix/posixFile.cpp b/src/vmime/platforms/posix/posixFile.cpp
index eedf4b7..81e0979 100644
--- a/src/vmime/platforms/posix/posixFile.cpp
+++ b/src/vmime/platforms/posix/posixFile.cpp
@@ -502,14 +502,36 @@ void posixFile::rename(const path& newName) {
 
 	posixFile dest(newName);
 
-	if (isDirectory()) {
+	// Do not create the destination if there is nothing to rename
+	struct stat buf;
+
+	if (::stat(m_nativePath.c_str(), &buf) == -1) {
+		posixFileSystemFactory::reportError(m_path, errno);
+	}
+
+	const bool destExisted = dest.exists();
+
+	if (S_ISDIR(buf.st_mode)) {
 		dest.createDirectory();
 	} else {
 		dest.createFile();
 	}
 
 	if (::rename(m_nativePath.c_str(), newNativePath.c_str()) == -1) {
-		posixFileSystemFactory::reportError(m_path, errno);
+
+		const int err = errno;
+
+		// Do not leave an empty file or directory behind
+		if (!destExisted) {
+
+			if (S_ISDIR(buf.st_mode)) {
+				::rmdir(newNativePath.c_str());
+			} else {
+				::unlink(newNativePath.c_str());
+			}
+		}
+
+		posixFileSystemFactory::reportError(m_path, err);
 	}
 
 	m_path = newName;
-- 
2.43.0


From a334621e22d2f7fdbdd07725758493cf386309f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:19 +0000
Subject: [PATCH 133/227] fix: destroying a maildir folder deletes links, not
 what they point to

---
 src/vmime/net/maildir/maildirUtils.cpp  | 14 +++++++-------
 src/vmime/platforms/posix/posixFile.cpp |  5 +++--
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/vmime/net/maildir/maildirUtils.cpp b/src/vmime/net/maildir/maildirUtils.cpp
index 9942e56..8b49f64 100644
--- a/src/vmime/net/maildir/maildirUtils.cpp
+++ b/src/vmime/net/maildir/maildirUtils.cpp
@@ -187,16 +187,16 @@ void maildirUtils::recursiveFSDelete(const shared_ptr <utility::file>& dir) {
 
 		shared_ptr <utility::file> file = files->nextElement();
 
-		if (file->isDirectory()) {
+		try {
 
-			maildirUtils::recursiveFSDelete(file);
+			// This also works for a link to a directory: the link is
+			// deleted, not the contents of the directory
+			file->remove();
 
-		} else {
+		} catch (exceptions::filesystem_exception&) {
 
-			try {
-				file->remove();
-			} catch (exceptions::filesystem_exception&) {
-				// Ignore
+			if (file->isDirectory()) {
+				maildirUtils::recursiveFSDelete(file);
 			}
 		}
 	}
diff --git a/src/vmime/platforms/posix/posixFile.cpp b/src/vmime/platforms/posix/posixFile.cpp
index 81e0979..80e504a 100644
--- a/src/vmime/platforms/posix/posixFile.cpp
+++ b/src/vmime/platforms/posix/posixFile.cpp
@@ -541,9 +541,10 @@ void posixFile::rename(const path& newName) {
 
 void posixFile::remove() {
 
+	// If this is a symbolic link, remove the link and not its target
 	struct stat buf;
 
-	if (::stat(m_nativePath.c_str(), &buf) == -1) {
+	if (::lstat(m_nativePath.c_str(), &buf) == -1) {
 		posixFileSystemFactory::reportError(m_path, errno);
 	}
 
@@ -553,7 +554,7 @@ void posixFile::remove() {
 			posixFileSystemFactory::reportError(m_path, errno);
 		}
 
-	} else if (S_ISREG(buf.st_mode)) {
+	} else if (S_ISREG(buf.st_mode) || S_ISLNK(buf.st_mode)) {
 
 		if (::unlink(m_nativePath.c_str()) == -1) {
 			posixFileSystemFactory::reportError(m_path, errno);
-- 
2.43.0


From 87bdf873e81ce69d62cda338d8dba28c4c4658db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:19 +0000
Subject: [PATCH 134/227] fix: getting the attributes of a KMail maildir folder
 which has no sub-folder

---
 src/vmime/net/maildir/format/kmailMaildirFormat.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vmime/net/maildir/format/kmailMaildirFormat.cpp b/src/vmime/net/maildir/format/kmailMaildirFormat.cpp
index 4eb89e8..b000778 100644
--- a/src/vmime/net/maildir/format/kmailMaildirFormat.cpp
+++ b/src/vmime/net/maildir/format/kmailMaildirFormat.cpp
@@ -305,6 +305,11 @@ bool kmailMaildirFormat::folderHasSubfolders(const folder::path& path) const {
 		folderPathToFileSystemPath(path, CONTAINER_DIRECTORY)
 	);
 
+	// The container directory exists only if a sub-folder has been created
+	if (!rootDir->exists()) {
+		return false;
+	}
+
 	shared_ptr <utility::fileIterator> it = rootDir->getFiles();
 
 	while (it->hasMoreElements()) {
-- 
2.43.0


From 8ea6b9317f4e253b96be034386dcebdc2daa259f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:19 +0000
Subject: [PATCH 135/227] fix: renaming a KMail maildir folder which has no
 sub-folders, or into a folder which has none

---
 .../net/maildir/format/kmailMaildirFormat.cpp | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/vmime/net/maildir/format/kmailMaildirFormat.cpp b/src/vmime/net/maildir/format/kmailMaildirFormat.cpp
index b000778..e241bb5 100644
--- a/src/vmime/net/maildir/format/kmailMaildirFormat.cpp
+++ b/src/vmime/net/maildir/format/kmailMaildirFormat.cpp
@@ -268,13 +268,14 @@ void kmailMaildirFormat::renameFolder(const folder::path& oldPath, const folder:
 		const utility::file::path newContPath =
 			folderPathToFileSystemPath(newPath, CONTAINER_DIRECTORY);
 
+		// The container directory of the new parent may not exist yet
+		fsf->create(newRootPath.getParent())->createDirectory(true);
+
 		rootDir->rename(newRootPath);
 
-		// Container directory may not exist, so ignore error when trying to rename it
-		try {
+		// Container directory may not exist
+		if (contDir->exists()) {
 			contDir->rename(newContPath);
-		} catch (exceptions::filesystem_exception& e) {
-			// Ignore
 		}
 
 	} catch (exceptions::filesystem_exception& e) {
@@ -286,8 +287,15 @@ void kmailMaildirFormat::renameFolder(const folder::path& oldPath, const folder:
 			folderPathToFileSystemPath(oldPath, CONTAINER_DIRECTORY);
 
 		try {
-			rootDir->rename(rootPath);
-			contDir->rename(contPath);
+
+			if (rootDir->getFullPath() != rootPath) {
+				rootDir->rename(rootPath);
+			}
+
+			if (contDir->getFullPath() != contPath) {
+				contDir->rename(contPath);
+			}
+
 		} catch (exceptions::filesystem_exception& e) {
 			// Ignore (not recoverable)
 		}
-- 
2.43.0


From 3a02c6d29f3c0416468efe9e380124b42d604162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:20 +0000
Subject: [PATCH 136/227] fix: a Courier maildir folder is not the parent of
 all folders whose names begin with its own

---
 src/vmime/net/maildir/format/courierMaildirFormat.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/vmime/net/maildir/format/courierMaildirFormat.cpp b/src/vmime/net/maildir/format/courierMaildirFormat.cpp
index e611949..0f482b4 100644
--- a/src/vmime/net/maildir/format/courierMaildirFormat.cpp
+++ b/src/vmime/net/maildir/format/courierMaildirFormat.cpp
@@ -303,6 +303,9 @@ bool courierMaildirFormat::listDirectories(
 			for (size_t i = 0, n = root.getSize() ; i < n ; ++i) {
 				base += "." + toModifiedUTF7(root[i]);
 			}
+
+			// ".a.b" is a sub-folder of ".a", ".ab" is not
+			base += ".";
 		}
 
 		// Enumerate directories
-- 
2.43.0


From c0660fb3745627e83f291a9749be242aac02c4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:20 +0000
Subject: [PATCH 137/227] fix: names of Courier maildir folders are encoded in
 modified UTF-7 without collisions

---
 .../maildir/format/courierMaildirFormat.cpp   | 184 ++++++++++--------
 1 file changed, 101 insertions(+), 83 deletions(-)

diff --git a/src/vmime/net/maildir/format/courierMaildirFormat.cpp b/src/vmime/net/maildir/format/courierMaildirFormat.cpp
index 0f482b4..6a7ca24 100644
--- a/src/vmime/net/maildir/format/courierMaildirFormat.cpp
+++ b/src/vmime/net/maildir/format/courierMaildirFormat.cpp
@@ -386,75 +386,72 @@ const string courierMaildirFormat::toModifiedUTF7(const folder::path::component&
 	// that name would be a maildir subdirectory called ".R&AOk-sum&AOk-").
 	//
 
-	// Transcode path component to UTF-7 charset.
+	// Transcode path component to UTF-16BE.
 	// WARNING: This may throw "exceptions::charset_conv_error"
-	const string cvt = text.getConvertedText(charset(charsets::UTF_7));
+	const string cvt = text.getConvertedText(charset("UTF-16BE"));
+
+	static const char ALPHABET[] =
+		"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+,";
 
-	// Transcode to modified UTF-7 (RFC-2060).
 	string out;
-	out.reserve((cvt.length() * 3) / 2);
+	out.reserve(cvt.length() * 2);
 
 	bool inB64sequence = false;
+	unsigned int bits = 0;   // bits which have not been written yet
+	int bitCount = 0;
 
-	for (string::const_iterator it = cvt.begin() ; it != cvt.end() ; ++it) {
-
-		const unsigned char c = *it;
+	for (size_t i = 0 ; i <= cvt.length() ; i += 2) {
 
-		switch (c) {
+		const bool end = (i + 1 >= cvt.length());
+		const unsigned int c = end ? 0 :
+			(static_cast <unsigned char>(cvt[i]) << 8) | static_cast <unsigned char>(cvt[i + 1]);
 
-			// Beginning of Base64 sequence: replace '+' with '&'
-			case '+': {
+		const bool direct = (c >= 0x20 && c <= 0x7e && c != '.' && c != '/');
 
-				if (!inB64sequence) {
-					inB64sequence = true;
-					out += '&';
-				} else {
-					out += '+';
-				}
+		// End of Base64 sequence
+		if (inB64sequence && (end || direct)) {
 
-				break;
+			if (bitCount > 0) {
+				out += ALPHABET[(bits << (6 - bitCount)) & 0x3f];
 			}
-			// End of Base64 sequence
-			case '-': {
 
-				inB64sequence = false;
+			out += '-';
+
+			inB64sequence = false;
+			bits = 0;
+			bitCount = 0;
+		}
+
+		if (end) {
+
+			break;
+
+		} else if (direct) {
+
+			out += static_cast <char>(c);
+
+			// '&' (0x26) is represented by the two-octet sequence "&-"
+			if (c == '&') {
 				out += '-';
-				break;
 			}
-			// ',' is used instead of '/' in modified Base64,
-			// and simply UTF7-encoded out of a Base64 sequence
-			case '/': {
-
-				if (inB64sequence) {
-					out += ',';
-				} else {
-					out += "&Lw-";
-				}
 
-				break;
-			}
-			// Encode period (should not happen in a Base64 sequence)
-			case '.': {
+		} else {
 
-				out += "&Lg-";
-				break;
+			// Beginning of Base64 sequence
+			if (!inB64sequence) {
+				inB64sequence = true;
+				out += '&';
 			}
-			// '&' (0x26) is represented by the two-octet sequence "&-"
-			case '&': {
 
-				if (!inB64sequence) {
-					out += "&-";
-				} else {
-					out += '&';
-				}
+			bits = (bits << 16) | c;
+			bitCount += 16;
 
-				break;
+			while (bitCount >= 6) {
+				bitCount -= 6;
+				out += ALPHABET[(bits >> bitCount) & 0x3f];
 			}
-			default: {
 
-				out += c;
-				break;
-			}
+			bits &= (1u << bitCount) - 1;
 		}
 	}
 
@@ -465,63 +462,84 @@ const string courierMaildirFormat::toModifiedUTF7(const folder::path::component&
 // static
 const folder::path::component courierMaildirFormat::fromModifiedUTF7(const string& text) {
 
-	// Transcode from modified UTF-7
+	// Transcode from modified UTF-7 to UTF-16BE
 	string out;
-	out.reserve(text.length());
+	out.reserve(text.length() * 2);
 
 	bool inB64sequence = false;
-	unsigned char prev = 0;
+	unsigned int bits = 0;   // bits which have not been read yet
+	int bitCount = 0;
 
-	for (string::const_iterator it = text.begin() ; it != text.end() ; ++it) {
+	for (size_t i = 0 ; i < text.length() ; ++i) {
 
-		const unsigned char c = *it;
+		const unsigned char c = text[i];
 
-		switch (c) {
+		if (!inB64sequence) {
 
-			// Start of Base64 sequence
-			case '&': {
+			// "&-" --> "&"
+			if (c == '&' && i + 1 < text.length() && text[i + 1] == '-') {
 
-				if (!inB64sequence) {
-					inB64sequence = true;
-					out += '+';
-				} else {
-					out += '&';
-				}
+				out += '\0';
+				out += '&';
+				++i;
 
-				break;
-			}
-			// End of Base64 sequence (or "&-" --> "&")
-			case '-': {
+			// Start of Base64 sequence
+			} else if (c == '&') {
 
-				if (inB64sequence && prev == '&') {
-					out += '&';
-				} else {
-					out += '-';
-				}
+				inB64sequence = true;
+				bits = 0;
+				bitCount = 0;
 
-				inB64sequence = false;
-				break;
-			}
-			// ',' is used instead of '/' in modified Base64
-			case ',': {
+			} else {
 
-				out += (inB64sequence ? '/' : ',');
-				break;
+				out += '\0';
+				out += static_cast <char>(c);
 			}
-			default: {
 
-				out += c;
-				break;
+			continue;
+		}
+
+		unsigned int value = 0;
+
+		if (c >= 'A' && c <= 'Z') {
+			value = c - 'A';
+		} else if (c >= 'a' && c <= 'z') {
+			value = c - 'a' + 26;
+		} else if (c >= '0' && c <= '9') {
+			value = c - '0' + 52;
+		} else if (c == '+') {
+			value = 62;
+		} else if (c == ',') {
+			value = 63;
+		} else {
+
+			// End of Base64 sequence (an incomplete character is discarded)
+			inB64sequence = false;
+
+			if (c != '-') {
+				--i;
 			}
 
+			continue;
 		}
 
-		prev = c;
+		bits = (bits << 6) | value;
+		bitCount += 6;
+
+		if (bitCount >= 16) {
+
+			bitCount -= 16;
+
+			out += static_cast <char>((bits >> (bitCount + 8)) & 0xff);
+			out += static_cast <char>((bits >> bitCount) & 0xff);
+
+			bits &= (1u << bitCount) - 1;
+		}
 	}
 
 	// Store it as UTF-8 by default
 	string cvt;
-	charset::convert(out, cvt, charset(charsets::UTF_7), charset(charsets::UTF_8));
+	charset::convert(out, cvt, charset("UTF-16BE"), charset(charsets::UTF_8));
 
 	return folder::path::component(cvt, charset(charsets::UTF_8));
 }
-- 
2.43.0


From d9f2cf10001342e48f54759998b754fa2228964f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:20 +0000
Subject: [PATCH 138/227] fix: names of maildir folders can not lead outside
 the root of the store

---
 .../maildir/format/courierMaildirFormat.cpp   |  6 ++++
 .../net/maildir/format/kmailMaildirFormat.cpp | 12 ++++++++
 src/vmime/net/maildir/maildirFolder.cpp       | 28 ++++++++++++++++---
 src/vmime/net/maildir/maildirStore.cpp        |  5 ++++
 4 files changed, 47 insertions(+), 4 deletions(-)

diff --git a/src/vmime/net/maildir/format/courierMaildirFormat.cpp b/src/vmime/net/maildir/format/courierMaildirFormat.cpp
index 6a7ca24..474f87f 100644
--- a/src/vmime/net/maildir/format/courierMaildirFormat.cpp
+++ b/src/vmime/net/maildir/format/courierMaildirFormat.cpp
@@ -209,6 +209,12 @@ const utility::file::path courierMaildirFormat::folderPathToFileSystemPath(
 		string folderComp;
 
 		for (size_t i = 0, n = path.getSize() ; i < n ; ++i) {
+
+			// An empty name would result in the special names "." and ".."
+			if (path[i].getBuffer().empty()) {
+				throw exceptions::invalid_folder_name();
+			}
+
 			folderComp += "." + toModifiedUTF7(path[i]);
 		}
 
diff --git a/src/vmime/net/maildir/format/kmailMaildirFormat.cpp b/src/vmime/net/maildir/format/kmailMaildirFormat.cpp
index e241bb5..4834885 100644
--- a/src/vmime/net/maildir/format/kmailMaildirFormat.cpp
+++ b/src/vmime/net/maildir/format/kmailMaildirFormat.cpp
@@ -131,6 +131,18 @@ const utility::file::path kmailMaildirFormat::folderPathToFileSystemPath(
 	// Root path
 	utility::file::path fsPath = getContext()->getStore()->getFileSystemPath();
 
+	// Never leave the directory of the parent folder
+	for (size_t i = 0 ; i < path.getSize() ; ++i) {
+
+		const string& name = path[i].getBuffer();
+
+		if (name.empty() || name[0] == '.' || name.find('\0') != string::npos ||
+		    !platform::getHandler()->getFileSystemFactory()->isValidPathComponent(path[i])) {
+
+			throw exceptions::invalid_folder_name();
+		}
+	}
+
 	const size_t pathSize = path.getSize();
 	const size_t count = (type == CONTAINER_DIRECTORY
 		? pathSize : (pathSize >= 1 ? pathSize - 1 : 0));
diff --git a/src/vmime/net/maildir/maildirFolder.cpp b/src/vmime/net/maildir/maildirFolder.cpp
index 4485767..337b1cc 100644
--- a/src/vmime/net/maildir/maildirFolder.cpp
+++ b/src/vmime/net/maildir/maildirFolder.cpp
@@ -218,10 +218,17 @@ void maildirFolder::create(const folderAttributes& /* attribs */) {
 		throw exceptions::illegal_state("Folder is open");
 	} else if (exists()) {
 		throw exceptions::illegal_state("Folder already exists");
-	} else if (!store->isValidFolderName(m_name)) {
+	} else if (m_path.isEmpty()) {
 		throw exceptions::invalid_folder_name();
 	}
 
+	for (size_t i = 0 ; i < m_path.getSize() ; ++i) {
+
+		if (!store->isValidFolderName(m_path[i])) {
+			throw exceptions::invalid_folder_name();
+		}
+	}
+
 	// Create directory on file system
 	try {
 		store->getFormat()->createFolder(m_path);
@@ -274,7 +281,15 @@ bool maildirFolder::exists() {
 
 	shared_ptr <maildirStore> store = m_store.lock();
 
-	return store->getFormat()->folderExists(m_path);
+	if (!store) {
+		throw exceptions::illegal_state("Store disconnected");
+	}
+
+	try {
+		return store->getFormat()->folderExists(m_path);
+	} catch (exceptions::invalid_folder_name&) {
+		return false;
+	}
 }
 
 
@@ -545,8 +560,13 @@ void maildirFolder::rename(const folder::path& newPath) {
 		throw exceptions::illegal_state("Store disconnected");
 	} else if (m_path.isEmpty() || newPath.isEmpty()) {
 		throw exceptions::illegal_operation("Cannot rename root folder");
-	} else if (!store->isValidFolderName(newPath.getLastComponent())) {
-		throw exceptions::invalid_folder_name();
+	}
+
+	for (size_t i = 0 ; i < newPath.getSize() ; ++i) {
+
+		if (!store->isValidFolderName(newPath[i])) {
+			throw exceptions::invalid_folder_name();
+		}
 	}
 
 	// Rename the directory on the file system
diff --git a/src/vmime/net/maildir/maildirStore.cpp b/src/vmime/net/maildir/maildirStore.cpp
index a994f45..fd228b5 100644
--- a/src/vmime/net/maildir/maildirStore.cpp
+++ b/src/vmime/net/maildir/maildirStore.cpp
@@ -136,6 +136,11 @@ bool maildirStore::isValidFolderName(const folder::path::component& name) const
 
 	const string& buf = name.getBuffer();
 
+	// Name cannot be empty
+	if (buf.empty() || buf.find('\0') != string::npos) {
+		return false;
+	}
+
 	// Name cannot start/end with spaces
 	if (utility::stringUtils::trim(buf) != buf) {
 		return false;
-- 
2.43.0


From c841ae0ed9f2598b1e91d3d1923dbf263b2f7d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:20 +0000
Subject: [PATCH 139/227] fix: refuse to rename a maildir folder into itself or
 over another folder

---
 src/vmime/net/maildir/maildirFolder.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/vmime/net/maildir/maildirFolder.cpp b/src/vmime/net/maildir/maildirFolder.cpp
index 337b1cc..914cb1e 100644
--- a/src/vmime/net/maildir/maildirFolder.cpp
+++ b/src/vmime/net/maildir/maildirFolder.cpp
@@ -569,6 +569,14 @@ void maildirFolder::rename(const folder::path& newPath) {
 		}
 	}
 
+	if (!exists()) {
+		throw exceptions::folder_not_found();
+	} else if (newPath == m_path || m_path.isParentOf(newPath)) {
+		throw exceptions::illegal_operation("Cannot rename a folder into itself");
+	} else if (store->getFormat()->folderExists(newPath)) {
+		throw exceptions::illegal_operation("A folder with this name already exists");
+	}
+
 	// Rename the directory on the file system
 	try {
 		store->getFormat()->renameFolder(m_path, newPath);
-- 
2.43.0


From e608330fdf0c5392151391cc10aea6e524f2719e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:20 +0000
Subject: [PATCH 140/227] fix: paths of the sub-folders of a renamed maildir
 folder

---
 src/vmime/net/maildir/maildirFolder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vmime/net/maildir/maildirFolder.cpp b/src/vmime/net/maildir/maildirFolder.cpp
index 914cb1e..8b9575c 100644
--- a/src/vmime/net/maildir/maildirFolder.cpp
+++ b/src/vmime/net/maildir/maildirFolder.cpp
@@ -619,7 +619,7 @@ void maildirFolder::rename(const folder::path& newPath) {
 
 		} else if ((*it) != this && oldPath.isParentOf((*it)->getFullPath())) {
 
-			folder::path oldPath((*it)->m_path);
+			const folder::path oldSubPath((*it)->m_path);
 
 			(*it)->m_path.renameParent(oldPath, newPath);
 
@@ -627,7 +627,7 @@ void maildirFolder::rename(const folder::path& newPath) {
 				make_shared <events::folderEvent>(
 					dynamicCast <folder>((*it)->shared_from_this()),
 					events::folderEvent::TYPE_RENAMED,
-					oldPath, (*it)->m_path
+					oldSubPath, (*it)->m_path
 				);
 
 			(*it)->notifyFolder(event);
-- 
2.43.0


From 54d882a0a76fc3b97820e7542f2bbbf88f10b549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:20 +0000
Subject: [PATCH 141/227] fix: a dash in the unique name of a maildir message
 does not separate flags

---
 src/vmime/net/maildir/maildirUtils.cpp | 32 +++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/vmime/net/maildir/maildirUtils.cpp b/src/vmime/net/maildir/maildirUtils.cpp
index 8b49f64..9882fa0 100644
--- a/src/vmime/net/maildir/maildirUtils.cpp
+++ b/src/vmime/net/maildir/maildirUtils.cpp
@@ -68,15 +68,36 @@ bool maildirUtils::isMessageFile(const utility::file& file) {
 // characters when reading file names.
 
 
+//
+// However, a dash may also be found in the unique identifier (for
+// example, in the host name), so it is a separator only if what
+// follows it are flags.
+
+static size_t findSeparator(const string& filename) {
+
+	size_t sep = filename.rfind(':');  // try colon
+
+	if (sep == string::npos) {
+
+		sep = filename.rfind('-');  // try dash (Windows)
+
+		if (sep != string::npos && filename.compare(sep + 1, 2, "2,") != 0) {
+			sep = string::npos;
+		}
+	}
+
+	return sep;
+}
+
+
 const utility::file::path::component maildirUtils::extractId(
 	const utility::file::path::component& filename
 ) {
 
-	size_t sep = filename.getBuffer().rfind(':');  // try colon
+	const size_t sep = findSeparator(filename.getBuffer());
 
 	if (sep == string::npos) {
-		sep = filename.getBuffer().rfind('-');  // try dash (Windows)
-		if (sep == string::npos) return (filename);
+		return filename;
 	}
 
 	return utility::path::component(
@@ -87,11 +108,10 @@ const utility::file::path::component maildirUtils::extractId(
 
 int maildirUtils::extractFlags(const utility::file::path::component& comp) {
 
-	size_t sep = comp.getBuffer().rfind(':');  // try colon
+	const size_t sep = findSeparator(comp.getBuffer());
 
 	if (sep == string::npos) {
-		sep = comp.getBuffer().rfind('-');  // try dash (Windows)
-		if (sep == string::npos) return 0;
+		return 0;
 	}
 
 	const string flagsString(comp.getBuffer().begin() + sep + 1, comp.getBuffer().end());
-- 
2.43.0


From 206d3b130d2ecb32981c0078a827d898b6360274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:20 +0000
Subject: [PATCH 142/227] fix: the flags in the names of maildir messages are
 in ASCII order

---
 src/vmime/net/maildir/maildirUtils.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vmime/net/maildir/maildirUtils.cpp b/src/vmime/net/maildir/maildirUtils.cpp
index 9882fa0..40f6c4c 100644
--- a/src/vmime/net/maildir/maildirUtils.cpp
+++ b/src/vmime/net/maildir/maildirUtils.cpp
@@ -142,12 +142,13 @@ const utility::file::path::component maildirUtils::buildFlags(const int flags) {
 
 	str += "2,";
 
+	// The letters must be in ASCII order
+	if (flags & message::FLAG_DRAFT)   str += "D";
 	if (flags & message::FLAG_MARKED)  str += "F";
 	if (flags & message::FLAG_PASSED)  str += "P";
 	if (flags & message::FLAG_REPLIED) str += "R";
 	if (flags & message::FLAG_SEEN)    str += "S";
 	if (flags & message::FLAG_DELETED) str += "T";
-	if (flags & message::FLAG_DRAFT)   str += "D";
 
 	return utility::file::path::component(str);
 }
-- 
2.43.0


From c273cec690c922135e15d93baf692d01a269a054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:20 +0000
Subject: [PATCH 143/227] fix: refuse to flag or copy maildir messages which do
 not exist, and to copy messages to a folder which does not exist

---
 src/vmime/net/maildir/maildirFolder.cpp | 24 +++++++++++++++++++++---
 src/vmime/net/maildir/maildirUtils.cpp  |  6 ++++++
 2 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/vmime/net/maildir/maildirFolder.cpp b/src/vmime/net/maildir/maildirFolder.cpp
index 8b9575c..592f252 100644
--- a/src/vmime/net/maildir/maildirFolder.cpp
+++ b/src/vmime/net/maildir/maildirFolder.cpp
@@ -661,7 +661,12 @@ void maildirFolder::setMessageFlags(
 
 	if (msgs.isNumberSet()) {
 
-		const std::vector <size_t> nums = maildirUtils::messageSetToNumberList(msgs, m_messageCount);
+		std::vector <size_t> nums = maildirUtils::messageSetToNumberList(msgs, m_messageCount);
+		std::sort(nums.begin(), nums.end());
+
+		if (!nums.empty() && (nums.front() < 1 || nums.back() > m_messageCount)) {
+			throw exceptions::message_not_found();
+		}
 
 		// Change message flags
 		shared_ptr <utility::fileSystemFactory> fsf = platform::getHandler()->getFileSystemFactory();
@@ -1008,6 +1013,21 @@ messageSet maildirFolder::copyMessages(const folder::path& dest, const messageSe
 	utility::file::path destTmpDirPath = store->getFormat()->
 		folderPathToFileSystemPath(dest, maildirFormat::TMP_DIRECTORY);
 
+	if (msgs.isUIDSet()) {
+		throw exceptions::operation_not_supported();
+	} else if (!store->getFormat()->folderExists(dest)) {
+		throw exceptions::folder_not_found();
+	}
+
+	const std::vector <size_t> nums = maildirUtils::messageSetToNumberList(msgs, m_messageCount);
+
+	for (size_t i = 0 ; i < nums.size() ; ++i) {
+
+		if (nums[i] < 1 || nums[i] > m_messageCount) {
+			throw exceptions::message_not_found();
+		}
+	}
+
 	// Create destination directories
 	try {
 
@@ -1030,8 +1050,6 @@ messageSet maildirFolder::copyMessages(const folder::path& dest, const messageSe
 	}
 
 	// Copy messages
-	const std::vector <size_t> nums = maildirUtils::messageSetToNumberList(msgs, m_messageCount);
-
 	try {
 
 		for (std::vector <size_t>::const_iterator it =
diff --git a/src/vmime/net/maildir/maildirUtils.cpp b/src/vmime/net/maildir/maildirUtils.cpp
index 40f6c4c..b3716b9 100644
--- a/src/vmime/net/maildir/maildirUtils.cpp
+++ b/src/vmime/net/maildir/maildirUtils.cpp
@@ -247,7 +247,13 @@ public:
 		if (last == size_t(-1)) last = m_msgCount;
 
 		for (size_t i = range.getFirst() ; i <= last ; ++i) {
+
 			list.push_back(i);
+
+			// No need to enumerate all the messages which do not exist
+			if (i > m_msgCount) {
+				break;
+			}
 		}
 	}
 
-- 
2.43.0


From df10baae1ab37deee34f4dde118fc788684e180b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:20 +0000
Subject: [PATCH 144/227] fix: which maildir messages are marked for deletion
 depends on their flags, not on the last change of their flags

---
 src/vmime/net/maildir/maildirFolder.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/vmime/net/maildir/maildirFolder.cpp b/src/vmime/net/maildir/maildirFolder.cpp
index 592f252..9da5848 100644
--- a/src/vmime/net/maildir/maildirFolder.cpp
+++ b/src/vmime/net/maildir/maildirFolder.cpp
@@ -696,9 +696,11 @@ void maildirFolder::setMessageFlags(
 				const utility::file::path::component newPath =
 					maildirUtils::buildFilename(maildirUtils::extractId(path), newFlags);
 
-				file->rename(curDirPath / newPath);
+				if (newPath != path) {
+					file->rename(curDirPath / newPath);
+				}
 
-				if (flags & message::FLAG_DELETED) {
+				if (newFlags & message::FLAG_DELETED) {
 					m_messageInfos[num].type = messageInfos::TYPE_DELETED;
 				} else {
 					m_messageInfos[num].type = messageInfos::TYPE_CUR;
@@ -708,7 +710,7 @@ void maildirFolder::setMessageFlags(
 
 			} catch (exceptions::filesystem_exception& e) {
 
-				// Ignore (not important)
+				throw exceptions::command_error("STORE", "", "", e);
 			}
 		}
 
-- 
2.43.0


From 0d845599659cfce5007283800b096f8ee05d8b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:20 +0000
Subject: [PATCH 145/227] fix: track maildir messages which are new, deleted or
 moved by another program

---
 src/vmime/net/maildir/maildirFolder.cpp | 100 ++++++++++++++++++------
 src/vmime/net/maildir/maildirFolder.hpp |   3 +-
 2 files changed, 78 insertions(+), 25 deletions(-)

diff --git a/src/vmime/net/maildir/maildirFolder.cpp b/src/vmime/net/maildir/maildirFolder.cpp
index 9da5848..c5293b5 100644
--- a/src/vmime/net/maildir/maildirFolder.cpp
+++ b/src/vmime/net/maildir/maildirFolder.cpp
@@ -308,6 +308,11 @@ void maildirFolder::scanFolder() {
 		m_messageCount = 0;
 		m_unreadMessageCount = 0;
 
+		// Message numbers are kept only while the folder is open
+		if (!m_open) {
+			m_messageInfos.clear();
+		}
+
 		shared_ptr <utility::fileSystemFactory> fsf = platform::getHandler()->getFileSystemFactory();
 
 		utility::file::path newDirPath =
@@ -354,27 +359,37 @@ void maildirFolder::scanFolder() {
 			// "maildirUtils::messageIdComparator" to compare only the 'unique'
 			// portion of the filename...
 
-			if (msgInfos.type == messageInfos::TYPE_CUR) {
+			const std::vector <utility::file::path::component>::iterator pos =
+				std::find_if(
+					curMessageFilenames.begin(),
+					curMessageFilenames.end(),
+					maildirUtils::messageIdComparator(msgInfos.path)
+				);
 
-				const std::vector <utility::file::path::component>::iterator pos =
-					std::find_if(
-						curMessageFilenames.begin(),
-						curMessageFilenames.end(),
-						maildirUtils::messageIdComparator(msgInfos.path)
-					);
+			// If we cannot find this message in the 'cur' directory, it
+			// means it has been deleted (and expunged), except if it is
+			// still in the 'new' directory (see below).
+			if (pos == curMessageFilenames.end()) {
 
-				// If we cannot find this message in the 'cur' directory,
-				// it means it has been deleted (and expunged).
-				if (pos == curMessageFilenames.end()) {
+				if (msgInfos.type != messageInfos::TYPE_NEW ||
+				    std::find(newMessageFilenames.begin(), newMessageFilenames.end(),
+				              msgInfos.path) == newMessageFilenames.end()) {
 
 					msgInfos.type = messageInfos::TYPE_DELETED;
+				}
 
-				// Otherwise, update its information.
-				} else {
+			// Otherwise, update its information.
+			} else {
+
+				msgInfos.path = *pos;
 
-					msgInfos.path = *pos;
-					curMessageFilenames.erase(pos);
+				if (maildirUtils::extractFlags(msgInfos.path) & message::FLAG_DELETED) {
+					msgInfos.type = messageInfos::TYPE_DELETED;
+				} else {
+					msgInfos.type = messageInfos::TYPE_CUR;
 				}
+
+				curMessageFilenames.erase(pos);
 			}
 		}
 
@@ -394,6 +409,24 @@ void maildirFolder::scanFolder() {
 			shared_ptr <utility::file> file = fsf->create(newDirPath / *it);
 			file->rename(curDirPath / newFilename);
 
+			// Maybe this message is already in our list
+			bool found = false;
+
+			for (size_t i = 0 ; !found && i < m_messageInfos.size() ; ++i) {
+
+				if (m_messageInfos[i].type == messageInfos::TYPE_NEW && m_messageInfos[i].path == *it) {
+
+					m_messageInfos[i].path = newFilename;
+					m_messageInfos[i].type = messageInfos::TYPE_CUR;
+
+					found = true;
+				}
+			}
+
+			if (found) {
+				continue;
+			}
+
 			// Append to message list
 			messageInfos msgInfos;
 			msgInfos.path = newFilename;
@@ -682,7 +715,7 @@ void maildirFolder::setMessageFlags(
 			try {
 
 				const utility::file::path::component path = m_messageInfos[num].path;
-				shared_ptr <utility::file> file = fsf->create(curDirPath / path);
+				shared_ptr <utility::file> file = fsf->create(getMessageFSPath(*it));
 
 				int newFlags = maildirUtils::extractFlags(path);
 
@@ -696,7 +729,7 @@ void maildirFolder::setMessageFlags(
 				const utility::file::path::component newPath =
 					maildirUtils::buildFilename(maildirUtils::extractId(path), newFlags);
 
-				if (newPath != path) {
+				if (file->getFullPath() != curDirPath / newPath) {
 					file->rename(curDirPath / newPath);
 				}
 
@@ -854,7 +887,14 @@ messageSet maildirFolder::addMessage(
 	// Append the message to the cache list
 	messageInfos msgInfos;
 	msgInfos.path = filename;
-	msgInfos.type = messageInfos::TYPE_CUR;
+
+	if (flags == message::FLAG_RECENT) {
+		msgInfos.type = messageInfos::TYPE_NEW;
+	} else if (flags != -1 && (flags & message::FLAG_DELETED)) {
+		msgInfos.type = messageInfos::TYPE_DELETED;
+	} else {
+		msgInfos.type = messageInfos::TYPE_CUR;
+	}
 
 	m_messageInfos.push_back(msgInfos);
 	m_messageCount++;
@@ -1007,9 +1047,6 @@ messageSet maildirFolder::copyMessages(const folder::path& dest, const messageSe
 
 	shared_ptr <utility::fileSystemFactory> fsf = platform::getHandler()->getFileSystemFactory();
 
-	utility::file::path curDirPath =
-		store->getFormat()->folderPathToFileSystemPath(m_path, maildirFormat::CUR_DIRECTORY);
-
 	utility::file::path destCurDirPath = store->getFormat()->
 		folderPathToFileSystemPath(dest, maildirFormat::CUR_DIRECTORY);
 	utility::file::path destTmpDirPath = store->getFormat()->
@@ -1064,7 +1101,7 @@ messageSet maildirFolder::copyMessages(const folder::path& dest, const messageSe
 			const utility::file::path::component filename =
 				maildirUtils::buildFilename(maildirUtils::generateId(), flags);
 
-			shared_ptr <utility::file> file = fsf->create(curDirPath / msg.path);
+			shared_ptr <utility::file> file = fsf->create(getMessageFSPath(num));
 			shared_ptr <utility::fileReader> fr = file->getFileReader();
 			shared_ptr <utility::inputStream> is = fr->getInputStream();
 
@@ -1391,10 +1428,25 @@ int maildirFolder::getFetchCapabilities() const {
 
 const utility::file::path maildirFolder::getMessageFSPath(const size_t number) const {
 
-	utility::file::path curDirPath = m_store.lock()->getFormat()->
-		folderPathToFileSystemPath(m_path, maildirFormat::CUR_DIRECTORY);
+	shared_ptr <maildirStore> store = m_store.lock();
+
+	if (!store) {
+		throw exceptions::illegal_state("Store disconnected");
+	} else if (number < 1 || number > m_messageInfos.size()) {
+		throw exceptions::message_not_found();
+	}
+
+	const messageInfos& msgInfos = m_messageInfos[number - 1];
+
+	utility::file::path dirPath = store->getFormat()->
+		folderPathToFileSystemPath(
+			m_path,
+			msgInfos.type == messageInfos::TYPE_NEW ?
+				maildirFormat::NEW_DIRECTORY :
+				maildirFormat::CUR_DIRECTORY
+		);
 
-	return curDirPath / m_messageInfos[number - 1].path;
+	return dirPath / msgInfos.path;
 }
 
 
diff --git a/src/vmime/net/maildir/maildirFolder.hpp b/src/vmime/net/maildir/maildirFolder.hpp
index 24f2bf8..0ca566e 100644
--- a/src/vmime/net/maildir/maildirFolder.hpp
+++ b/src/vmime/net/maildir/maildirFolder.hpp
@@ -187,7 +187,8 @@ private:
 
 		enum Type {
 			TYPE_CUR,
-			TYPE_DELETED
+			TYPE_DELETED,
+			TYPE_NEW
 		};
 
 		utility::file::path::component path;    // filename
-- 
2.43.0


From c79c05229ddd0d76ac0dbad914b96ec61fef8422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:20 +0000
Subject: [PATCH 146/227] fix: numbers of the messages in two maildir folder
 objects with the same path

---
 src/vmime/net/maildir/maildirFolder.cpp | 107 ++++++++++++------------
 src/vmime/net/maildir/maildirFolder.hpp |   2 +
 2 files changed, 56 insertions(+), 53 deletions(-)

diff --git a/src/vmime/net/maildir/maildirFolder.cpp b/src/vmime/net/maildir/maildirFolder.cpp
index c5293b5..2c50946 100644
--- a/src/vmime/net/maildir/maildirFolder.cpp
+++ b/src/vmime/net/maildir/maildirFolder.cpp
@@ -153,6 +153,9 @@ void maildirFolder::open(const int mode, bool /* failIfModeIsNotAvailable */) {
 
 	m_open = true;
 	m_mode = mode;
+
+	// Files may have been moved from 'new' to 'cur'
+	checkNewMessagesInOtherFolders(false);
 }
 
 
@@ -916,27 +919,12 @@ messageSet maildirFolder::addMessage(
 
 	notifyMessageCount(event);
 
-	// Notify folders with the same path
-	for (std::list <maildirFolder*>::iterator it = store->m_folders.begin() ;
-	     it != store->m_folders.end() ; ++it) {
-
-		if ((*it) != this && (*it)->getFullPath() == m_path) {
-
-			(*it)->m_messageCount = m_messageCount;
-			(*it)->m_unreadMessageCount = m_unreadMessageCount;
-
-			(*it)->m_messageInfos.resize(m_messageInfos.size());
-			std::copy(m_messageInfos.begin(), m_messageInfos.end(), (*it)->m_messageInfos.begin());
-
-			shared_ptr <events::messageCountEvent> event =
-				make_shared <events::messageCountEvent>(
-					dynamicCast <folder>((*it)->shared_from_this()),
-					events::messageCountEvent::TYPE_ADDED,
-					nums
-				);
+	// Notify folders with the same path (messages may not have the same
+	// numbers in these folders)
+	if (checkNewMessagesInOtherFolders(true)) {
 
-			(*it)->notifyMessageCount(event);
-		}
+		// The message may have been moved from 'new' to 'cur'
+		checkNewMessages();
 	}
 
 	return messageSet::empty();
@@ -1159,59 +1147,72 @@ shared_ptr <folderStatus> maildirFolder::getStatus() {
 
 	shared_ptr <maildirStore> store = m_store.lock();
 
-	const size_t oldCount = m_messageCount;
+	if (!store) {
+		throw exceptions::illegal_state("Store disconnected");
+	}
 
-	scanFolder();
+	const bool newMessages = checkNewMessages();
 
 	shared_ptr <maildirFolderStatus> status = make_shared <maildirFolderStatus>();
 
 	status->setMessageCount(m_messageCount);
 	status->setUnseenCount(m_unreadMessageCount);
 
-	// Notify message count changed (new messages)
-	if (m_messageCount > oldCount) {
+	// Notify folders with the same path
+	checkNewMessagesInOtherFolders(newMessages);
+
+	return status;
+}
 
-		std::vector <size_t> nums;
-		nums.reserve(m_messageCount - oldCount);
 
-		for (size_t i = oldCount + 1, j = 0 ; i <= m_messageCount ; ++i, ++j) {
-			nums[j] = i;
+bool maildirFolder::checkNewMessagesInOtherFolders(const bool newMessages) {
+
+	shared_ptr <maildirStore> store = m_store.lock();
+	bool checked = false;
+
+	for (std::list <maildirFolder*>::iterator it = store->m_folders.begin() ;
+	     it != store->m_folders.end() ; ++it) {
+
+		// Files may have been moved, so always check folders which are open
+		if ((*it) != this && (newMessages || (*it)->isOpen()) && (*it)->getFullPath() == m_path) {
+
+			(*it)->checkNewMessages();
+			checked = true;
 		}
+	}
 
-		shared_ptr <events::messageCountEvent> event =
-			make_shared <events::messageCountEvent>(
-				dynamicCast <folder>(shared_from_this()),
-				events::messageCountEvent::TYPE_ADDED,
-				nums
-			);
+	return checked;
+}
 
-		notifyMessageCount(event);
 
-		// Notify folders with the same path
-		for (std::list <maildirFolder*>::iterator it = store->m_folders.begin() ;
-		     it != store->m_folders.end() ; ++it) {
+bool maildirFolder::checkNewMessages() {
 
-			if ((*it) != this && (*it)->getFullPath() == m_path) {
+	const size_t oldCount = m_messageCount;
 
-				(*it)->m_messageCount = m_messageCount;
-				(*it)->m_unreadMessageCount = m_unreadMessageCount;
+	scanFolder();
 
-				(*it)->m_messageInfos.resize(m_messageInfos.size());
-				std::copy(m_messageInfos.begin(), m_messageInfos.end(), (*it)->m_messageInfos.begin());
+	if (m_messageCount <= oldCount) {
+		return false;
+	}
 
-				shared_ptr <events::messageCountEvent> event =
-					make_shared <events::messageCountEvent>(
-						dynamicCast <folder>((*it)->shared_from_this()),
-						events::messageCountEvent::TYPE_ADDED,
-						nums
-					);
+	// Notify message count changed (new messages)
+	std::vector <size_t> nums;
+	nums.reserve(m_messageCount - oldCount);
 
-				(*it)->notifyMessageCount(event);
-			}
-		}
+	for (size_t i = oldCount + 1 ; i <= m_messageCount ; ++i) {
+		nums.push_back(i);
 	}
 
-	return status;
+	shared_ptr <events::messageCountEvent> event =
+		make_shared <events::messageCountEvent>(
+			dynamicCast <folder>(shared_from_this()),
+			events::messageCountEvent::TYPE_ADDED,
+			nums
+		);
+
+	notifyMessageCount(event);
+
+	return true;
 }
 
 
diff --git a/src/vmime/net/maildir/maildirFolder.hpp b/src/vmime/net/maildir/maildirFolder.hpp
index 0ca566e..4adaff7 100644
--- a/src/vmime/net/maildir/maildirFolder.hpp
+++ b/src/vmime/net/maildir/maildirFolder.hpp
@@ -150,6 +150,8 @@ public:
 private:
 
 	void scanFolder();
+	bool checkNewMessages();
+	bool checkNewMessagesInOtherFolders(const bool newMessages);
 
 	void listFolders(std::vector <shared_ptr <folder> >& list, const bool recursive);
 
-- 
2.43.0


From 7a661403ff449dabef87045c847323155a621ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:20 +0000
Subject: [PATCH 147/227] fix: expunging a maildir folder removes the right
 messages from the list of messages

---
 src/vmime/net/maildir/maildirFolder.cpp | 99 +++++++++++++------------
 src/vmime/net/maildir/maildirFolder.hpp |  1 +
 2 files changed, 53 insertions(+), 47 deletions(-)

diff --git a/src/vmime/net/maildir/maildirFolder.cpp b/src/vmime/net/maildir/maildirFolder.cpp
index 2c50946..dab3a67 100644
--- a/src/vmime/net/maildir/maildirFolder.cpp
+++ b/src/vmime/net/maildir/maildirFolder.cpp
@@ -1230,11 +1230,8 @@ void maildirFolder::expunge() {
 
 	shared_ptr <utility::fileSystemFactory> fsf = platform::getHandler()->getFileSystemFactory();
 
-	utility::file::path curDirPath = store->getFormat()->
-		folderPathToFileSystemPath(m_path, maildirFormat::CUR_DIRECTORY);
-
 	std::vector <size_t> nums;
-	size_t unreadCount = 0;
+	std::vector <utility::file::path::component> ids;
 
 	for (size_t num = 1 ; num <= m_messageCount ; ++num) {
 
@@ -1243,24 +1240,11 @@ void maildirFolder::expunge() {
 		if (infos.type == messageInfos::TYPE_DELETED) {
 
 			nums.push_back(num);
-
-			for (std::vector <maildirMessage*>::iterator it =
-			     m_messages.begin() ; it != m_messages.end() ; ++it) {
-
-				if ((*it)->m_num == num) {
-					(*it)->m_expunged = true;
-				} else if ((*it)->m_num > num) {
-					(*it)->m_num--;
-				}
-			}
-
-			if (maildirUtils::extractFlags(infos.path) & message::FLAG_SEEN) {
-				++unreadCount;
-			}
+			ids.push_back(maildirUtils::extractId(infos.path));
 
 			// Delete file from file system
 			try {
-				shared_ptr <utility::file> file = fsf->create(curDirPath / infos.path);
+				shared_ptr <utility::file> file = fsf->create(getMessageFSPath(num));
 				file->remove();
 			} catch (exceptions::filesystem_exception& e) {
 				// Ignore (not important)
@@ -1268,15 +1252,59 @@ void maildirFolder::expunge() {
 		}
 	}
 
-	if (!nums.empty()) {
+	removeMessages(nums);
+
+	// Notify folders with the same path
+	for (std::list <maildirFolder*>::iterator it = store->m_folders.begin() ;
+	     it != store->m_folders.end() ; ++it) {
 
-		for (std::vector <size_t>::size_type i = nums.size() ; i != 0 ; --i) {
-			m_messageInfos.erase(m_messageInfos.begin() + (i - 1));
+		if ((*it) != this && (*it)->getFullPath() == m_path) {
+
+			// Messages may not have the same numbers in this other folder
+			std::vector <size_t> otherNums;
+
+			for (size_t i = 0 ; i < (*it)->m_messageInfos.size() ; ++i) {
+
+				const utility::file::path::component id =
+					maildirUtils::extractId((*it)->m_messageInfos[i].path);
+
+				if (std::find(ids.begin(), ids.end(), id) != ids.end()) {
+					otherNums.push_back(i + 1);
+				}
+			}
+
+			(*it)->removeMessages(otherNums);
 		}
 	}
+}
+
+
+void maildirFolder::removeMessages(const std::vector <size_t>& nums) {
+
+	// Start from the last message, so that numbers remain valid
+	for (size_t i = nums.size() ; i != 0 ; --i) {
 
-	m_messageCount -= static_cast <size_t>(nums.size());
-	m_unreadMessageCount -= unreadCount;
+		const size_t num = nums[i - 1];
+
+		for (std::vector <maildirMessage*>::iterator it =
+		     m_messages.begin() ; it != m_messages.end() ; ++it) {
+
+			if ((*it)->m_num == num) {
+				(*it)->m_expunged = true;
+			} else if ((*it)->m_num > num) {
+				(*it)->m_num--;
+			}
+		}
+
+		if (!(maildirUtils::extractFlags(m_messageInfos[num - 1].path) & message::FLAG_SEEN) &&
+		    m_unreadMessageCount > 0) {
+
+			--m_unreadMessageCount;
+		}
+
+		m_messageInfos.erase(m_messageInfos.begin() + (num - 1));
+		--m_messageCount;
+	}
 
 	// Notify message expunged
 	shared_ptr <events::messageCountEvent> event =
@@ -1287,29 +1315,6 @@ void maildirFolder::expunge() {
 		);
 
 	notifyMessageCount(event);
-
-	// Notify folders with the same path
-	for (std::list <maildirFolder*>::iterator it = store->m_folders.begin() ;
-	     it != store->m_folders.end() ; ++it) {
-
-		if ((*it) != this && (*it)->getFullPath() == m_path) {
-
-			(*it)->m_messageCount = m_messageCount;
-			(*it)->m_unreadMessageCount = m_unreadMessageCount;
-
-			(*it)->m_messageInfos.resize(m_messageInfos.size());
-			std::copy(m_messageInfos.begin(), m_messageInfos.end(), (*it)->m_messageInfos.begin());
-
-			shared_ptr <events::messageCountEvent> event =
-				make_shared <events::messageCountEvent>(
-					dynamicCast <folder>((*it)->shared_from_this()),
-					events::messageCountEvent::TYPE_REMOVED,
-					nums
-				);
-
-			(*it)->notifyMessageCount(event);
-		}
-	}
 }
 
 
diff --git a/src/vmime/net/maildir/maildirFolder.hpp b/src/vmime/net/maildir/maildirFolder.hpp
index 4adaff7..241ec0f 100644
--- a/src/vmime/net/maildir/maildirFolder.hpp
+++ b/src/vmime/net/maildir/maildirFolder.hpp
@@ -151,6 +151,7 @@ private:
 
 	void scanFolder();
 	bool checkNewMessages();
+	void removeMessages(const std::vector <size_t>& nums);
 	bool checkNewMessagesInOtherFolders(const bool newMessages);
 
 	void listFolders(std::vector <shared_ptr <folder> >& list, const bool recursive);
-- 
2.43.0


From 70167343cbbd2255a780268c329b9516bef71e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:20 +0000
Subject: [PATCH 148/227] fix: changing the flags of a maildir message does not
 hide it from other folder objects with the same path

---
 src/vmime/net/maildir/maildirFolder.cpp | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/vmime/net/maildir/maildirFolder.cpp b/src/vmime/net/maildir/maildirFolder.cpp
index dab3a67..f3e1199 100644
--- a/src/vmime/net/maildir/maildirFolder.cpp
+++ b/src/vmime/net/maildir/maildirFolder.cpp
@@ -809,7 +809,30 @@ void maildirFolder::setMessageFlags(
 
 		notifyMessageChanged(event);
 
-		// TODO: notify other folders with the same path
+		// The files have been renamed: update other folders with the same path
+		for (std::list <maildirFolder*>::iterator it = store->m_folders.begin() ;
+		     it != store->m_folders.end() ; ++it) {
+
+			if ((*it) == this || (*it)->getFullPath() != m_path) {
+				continue;
+			}
+
+			for (size_t i = 0 ; i < nums.size() ; ++i) {
+
+				const messageInfos& infos = m_messageInfos[nums[i] - 1];
+
+				const std::vector <messageInfos>::iterator pos = std::find_if(
+					(*it)->m_messageInfos.begin(), (*it)->m_messageInfos.end(),
+					[&infos](const messageInfos& other) {
+						return maildirUtils::messageIdComparator(infos.path)(other.path);
+					}
+				);
+
+				if (pos != (*it)->m_messageInfos.end()) {
+					*pos = infos;
+				}
+			}
+		}
 
 	} else {
 
-- 
2.43.0


From 2f3c595bcc33467fe92b0894cb394a7c510ba747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:21 +0000
Subject: [PATCH 149/227] fix: use of a maildir message after it has been
 expunged or its folder closed

---
 src/vmime/net/maildir/maildirMessage.cpp | 26 +++++++++++++++++-------
 src/vmime/net/maildir/maildirMessage.hpp |  2 ++
 2 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/vmime/net/maildir/maildirMessage.cpp b/src/vmime/net/maildir/maildirMessage.cpp
index ae99c59..e63b6ac 100644
--- a/src/vmime/net/maildir/maildirMessage.cpp
+++ b/src/vmime/net/maildir/maildirMessage.cpp
@@ -157,12 +157,28 @@ void maildirMessage::setFlags(const int flags, const int mode) {
 
 	if (!folder) {
 		throw exceptions::folder_not_found();
+	} else if (m_expunged) {
+		throw exceptions::message_not_found();
 	}
 
 	folder->setMessageFlags(messageSet::byNumber(m_num), flags, mode);
 }
 
 
+const utility::file::path maildirMessage::getFSPath() const {
+
+	shared_ptr <const maildirFolder> folder = m_folder.lock();
+
+	if (!folder) {
+		throw exceptions::folder_not_found();
+	} else if (m_expunged) {
+		throw exceptions::message_not_found();
+	}
+
+	return folder->getMessageFSPath(m_num);
+}
+
+
 void maildirMessage::extract(
 	utility::outputStream& os,
 	utility::progressListener* progress,
@@ -203,11 +219,9 @@ void maildirMessage::extractImpl(
 	const bool /* peek */
 ) const {
 
-	shared_ptr <const maildirFolder> folder = m_folder.lock();
-
 	shared_ptr <utility::fileSystemFactory> fsf = platform::getHandler()->getFileSystemFactory();
 
-	const utility::file::path path = folder->getMessageFSPath(m_num);
+	const utility::file::path path = getFSPath();
 	shared_ptr <utility::file> file = fsf->create(path);
 
 	shared_ptr <utility::fileReader> reader = file->getFileReader();
@@ -253,13 +267,11 @@ void maildirMessage::extractImpl(
 
 void maildirMessage::fetchPartHeader(const shared_ptr <messagePart>& p) {
 
-	shared_ptr <maildirFolder> folder = m_folder.lock();
-
 	shared_ptr <maildirMessagePart> mp = dynamicCast <maildirMessagePart>(p);
 
 	shared_ptr <utility::fileSystemFactory> fsf = platform::getHandler()->getFileSystemFactory();
 
-	const utility::file::path path = folder->getMessageFSPath(m_num);
+	const utility::file::path path = getFSPath();
 	shared_ptr <utility::file> file = fsf->create(path);
 
 	shared_ptr <utility::fileReader> reader = file->getFileReader();
@@ -296,7 +308,7 @@ void maildirMessage::fetch(const shared_ptr <maildirFolder>& msgFolder, const fe
 
 	shared_ptr <utility::fileSystemFactory> fsf = platform::getHandler()->getFileSystemFactory();
 
-	const utility::file::path path = folder->getMessageFSPath(m_num);
+	const utility::file::path path = getFSPath();
 	shared_ptr <utility::file> file = fsf->create(path);
 
 	if (options.has(fetchAttributes::FLAGS)) {
diff --git a/src/vmime/net/maildir/maildirMessage.hpp b/src/vmime/net/maildir/maildirMessage.hpp
index 8cd0aac..f415900 100644
--- a/src/vmime/net/maildir/maildirMessage.hpp
+++ b/src/vmime/net/maildir/maildirMessage.hpp
@@ -103,6 +103,8 @@ private:
 
 	shared_ptr <header> getOrCreateHeader();
 
+	const utility::path getFSPath() const;
+
 	void extractImpl(
 		utility::outputStream& os,
 		utility::progressListener* progress,
-- 
2.43.0


From fd2b771ed2df6e94e55091fefe0cd5804ebe0ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:21 +0000
Subject: [PATCH 150/227] fix: partial extraction of a part of a maildir
 message does not go beyond the end of the part

---
 src/vmime/net/maildir/maildirMessage.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/vmime/net/maildir/maildirMessage.cpp b/src/vmime/net/maildir/maildirMessage.cpp
index e63b6ac..27b0838 100644
--- a/src/vmime/net/maildir/maildirMessage.cpp
+++ b/src/vmime/net/maildir/maildirMessage.cpp
@@ -230,11 +230,11 @@ void maildirMessage::extractImpl(
 	is->skip(start + partialStart);
 
 	byte_t buffer[8192];
-	size_t remaining =
-		(partialLength == static_cast <size_t>(-1)
-			? length
-			: std::min(partialLength, length)
-		);
+	size_t remaining = (partialStart < length ? length - partialStart : 0);
+
+	if (partialLength != static_cast <size_t>(-1)) {
+		remaining = std::min(partialLength, remaining);
+	}
 
 	const size_t total = remaining;
 	size_t current = 0;
-- 
2.43.0


From 3314797f36f9b2693757665841cfdef2c5b4c9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:21 +0000
Subject: [PATCH 151/227] fix: use of a maildir folder after its store has been
 disconnected

---
 src/vmime/net/maildir/maildirFolder.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/vmime/net/maildir/maildirFolder.cpp b/src/vmime/net/maildir/maildirFolder.cpp
index f3e1199..7b10611 100644
--- a/src/vmime/net/maildir/maildirFolder.cpp
+++ b/src/vmime/net/maildir/maildirFolder.cpp
@@ -109,6 +109,12 @@ int maildirFolder::getMode() const {
 
 const folderAttributes maildirFolder::getAttributes() {
 
+	shared_ptr <maildirStore> store = m_store.lock();
+
+	if (!store) {
+		throw exceptions::illegal_state("Store disconnected");
+	}
+
 	folderAttributes attribs;
 
 	if (m_path.isEmpty()) {
@@ -117,7 +123,7 @@ const folderAttributes maildirFolder::getAttributes() {
 		attribs.setType(folderAttributes::TYPE_CONTAINS_FOLDERS | folderAttributes::TYPE_CONTAINS_MESSAGES);
 	}
 
-	if (m_store.lock()->getFormat()->folderHasSubfolders(m_path)) {
+	if (store->getFormat()->folderHasSubfolders(m_path)) {
 		attribs.setFlags(folderAttributes::FLAG_HAS_CHILDREN);  // contains at least one sub-folder
 	}
 
@@ -549,7 +555,7 @@ std::vector <shared_ptr <folder> > maildirFolder::getFolders(const bool recursiv
 
 	shared_ptr <maildirStore> store = m_store.lock();
 
-	if (!isOpen() && !store) {
+	if (!store) {
 		throw exceptions::illegal_state("Store disconnected");
 	}
 
@@ -1343,10 +1349,14 @@ void maildirFolder::removeMessages(const std::vector <size_t>& nums) {
 
 shared_ptr <folder> maildirFolder::getParent() {
 
+	shared_ptr <maildirStore> store = m_store.lock();
+
 	if (m_path.isEmpty()) {
 		return null;
+	} else if (!store) {
+		throw exceptions::illegal_state("Store disconnected");
 	} else {
-		return shared_ptr <maildirFolder>(new maildirFolder(m_path.getParent(), m_store.lock()));
+		return shared_ptr <maildirFolder>(new maildirFolder(m_path.getParent(), store));
 	}
 }
 
-- 
2.43.0


From a0e837148963064a7cf66594c8ee369749f6cba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:21 +0000
Subject: [PATCH 152/227] fix: when a Courier maildir folder can not be
 renamed, its sub-folders keep their names

---
 .../maildir/format/courierMaildirFormat.cpp   | 32 ++++++++++++++-----
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/vmime/net/maildir/format/courierMaildirFormat.cpp b/src/vmime/net/maildir/format/courierMaildirFormat.cpp
index 474f87f..def492d 100644
--- a/src/vmime/net/maildir/format/courierMaildirFormat.cpp
+++ b/src/vmime/net/maildir/format/courierMaildirFormat.cpp
@@ -116,19 +116,35 @@ void courierMaildirFormat::renameFolder(
 	const folder::path& newPath
 ) {
 
-	const std::vector <folder::path> folders = listFolders(oldPath, true);
+	std::vector <folder::path> oldPaths = listFolders(oldPath, true);
+	oldPaths.push_back(oldPath);
 
-	for (std::vector <folder::path>::size_type i = 0, n = folders.size() ; i < n ; ++i) {
+	std::vector <folder::path> newPaths = oldPaths;
+	size_t count = 0;
 
-		const folder::path folderOldPath = folders[i];
+	try {
 
-		folder::path folderNewPath = folderOldPath;
-		folderNewPath.renameParent(oldPath, newPath);
+		for ( ; count < oldPaths.size() ; ++count) {
 
-		renameFolderImpl(folderOldPath, folderNewPath);
-	}
+			newPaths[count].renameParent(oldPath, newPath);
+			renameFolderImpl(oldPaths[count], newPaths[count]);
+		}
+
+	} catch (exceptions::filesystem_exception&) {
+
+		// Revert to old location
+		try {
 
-	renameFolderImpl(oldPath, newPath);
+			while (count-- != 0) {
+				renameFolderImpl(newPaths[count], oldPaths[count]);
+			}
+
+		} catch (exceptions::filesystem_exception&) {
+			// Ignore (not recoverable)
+		}
+
+		throw;
+	}
 }
 
 
-- 
2.43.0


From 137c71b32315918a577afa21b6c858b729603b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:16 +0000
Subject: [PATCH 153/227] fix: importing a certificate from an empty stream
 read the first byte of an empty array

---
 src/vmime/security/cert/gnutls/X509Certificate_GnuTLS.cpp   | 4 ++--
 src/vmime/security/cert/openssl/X509Certificate_OpenSSL.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/vmime/security/cert/gnutls/X509Certificate_GnuTLS.cpp b/src/vmime/security/cert/gnutls/X509Certificate_GnuTLS.cpp
index 2ac0ed8..8d1b105 100644
--- a/src/vmime/security/cert/gnutls/X509Certificate_GnuTLS.cpp
+++ b/src/vmime/security/cert/gnutls/X509Certificate_GnuTLS.cpp
@@ -106,7 +106,7 @@ shared_ptr <X509Certificate> X509Certificate::import(
 		bytes.insert(bytes.end(), chunk, chunk + len);
 	}
 
-	return import(&bytes[0], bytes.size());
+	return import(bytes.data(), bytes.size());
 }
 
 
@@ -152,7 +152,7 @@ void X509Certificate::import(
 		bytes.insert(bytes.end(), chunk, chunk + len);
 	}
 
-	import(&bytes[0], bytes.size(), certs);
+	import(bytes.data(), bytes.size(), certs);
 }
 
 
diff --git a/src/vmime/security/cert/openssl/X509Certificate_OpenSSL.cpp b/src/vmime/security/cert/openssl/X509Certificate_OpenSSL.cpp
index bd5a75d..b0fffa9 100644
--- a/src/vmime/security/cert/openssl/X509Certificate_OpenSSL.cpp
+++ b/src/vmime/security/cert/openssl/X509Certificate_OpenSSL.cpp
@@ -196,7 +196,7 @@ shared_ptr <X509Certificate> X509Certificate::import(utility::inputStream& is) {
 		bytes.insert(bytes.end(), chunk, chunk + len);
 	}
 
-	return import(&bytes[0], bytes.size());
+	return import(bytes.data(), bytes.size());
 }
 
 
@@ -235,7 +235,7 @@ void X509Certificate::import(
 		bytes.insert(bytes.end(), chunk, chunk + len);
 	}
 
-	import(&bytes[0], bytes.size(), certs);
+	import(bytes.data(), bytes.size(), certs);
 }
 
 
-- 
2.43.0


From ad38fda71cd628464cb1163257cb17556684aa7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:16 +0000
Subject: [PATCH 154/227] fix: reading a serial number of more than 64 bytes
 overran a buffer

---
 .../cert/gnutls/X509Certificate_GnuTLS.cpp        | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/vmime/security/cert/gnutls/X509Certificate_GnuTLS.cpp b/src/vmime/security/cert/gnutls/X509Certificate_GnuTLS.cpp
index 8d1b105..3a5d291 100644
--- a/src/vmime/security/cert/gnutls/X509Certificate_GnuTLS.cpp
+++ b/src/vmime/security/cert/gnutls/X509Certificate_GnuTLS.cpp
@@ -213,12 +213,19 @@ void X509Certificate_GnuTLS::write(
 
 const byteArray X509Certificate_GnuTLS::getSerialNumber() const {
 
-	char serial[64];
-	size_t serialSize = sizeof(serial);
+	size_t serialSize = 0;
 
-	gnutls_x509_crt_get_serial(m_data->cert, serial, &serialSize);
+	gnutls_x509_crt_get_serial(m_data->cert, NULL, &serialSize);
 
-	return byteArray(serial, serial + serialSize);
+	byteArray serial(serialSize);
+
+	if (gnutls_x509_crt_get_serial(m_data->cert, serial.data(), &serialSize) < 0) {
+		return byteArray();
+	}
+
+	serial.resize(serialSize);
+
+	return serial;
 }
 
 
-- 
2.43.0


From c4b766be2afa5067b0b0d00069bc3235aac53482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:58 +0000
Subject: [PATCH 155/227] fix: a certificate chain was accepted without
 verifying the signatures between its certificates (any server could be
 impersonated)

---
 .../cert/gnutls/X509Certificate_GnuTLS.cpp     | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/vmime/security/cert/gnutls/X509Certificate_GnuTLS.cpp b/src/vmime/security/cert/gnutls/X509Certificate_GnuTLS.cpp
index 3a5d291..e64d8c0 100644
--- a/src/vmime/security/cert/gnutls/X509Certificate_GnuTLS.cpp
+++ b/src/vmime/security/cert/gnutls/X509Certificate_GnuTLS.cpp
@@ -234,7 +234,23 @@ bool X509Certificate_GnuTLS::checkIssuer(const shared_ptr <const X509Certificate
 	shared_ptr <const X509Certificate_GnuTLS> issuer =
 		dynamicCast <const X509Certificate_GnuTLS>(issuer_);
 
-	return gnutls_x509_crt_check_issuer(m_data->cert, issuer->m_data->cert) >= 1;
+	if (gnutls_x509_crt_check_issuer(m_data->cert, issuer->m_data->cert) < 1) {
+		return false;
+	}
+
+	// The issuer's name can be written by anybody: only the signature shows
+	// that the certificate was really issued by that (certificate) authority
+	unsigned int verify = 0;
+
+	const int res = gnutls_x509_crt_verify(
+		m_data->cert, &(issuer->m_data->cert), 1,
+		GNUTLS_VERIFY_ALLOW_X509_V1_CA_CRT
+			| GNUTLS_VERIFY_DISABLE_TIME_CHECKS
+			| GNUTLS_VERIFY_DISABLE_TRUSTED_TIME_CHECKS,
+		&verify
+	);
+
+	return res == 0 && verify == 0;
 }
 
 
-- 
2.43.0


From a885e52aec4e1e6054542754fdc3c8f491759055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:58 +0000
Subject: [PATCH 156/227] fix: an empty certificate chain was accepted

---
 src/vmime/security/cert/defaultCertificateVerifier.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/security/cert/defaultCertificateVerifier.cpp b/src/vmime/security/cert/defaultCertificateVerifier.cpp
index c41396f..abfb1eb 100644
--- a/src/vmime/security/cert/defaultCertificateVerifier.cpp
+++ b/src/vmime/security/cert/defaultCertificateVerifier.cpp
@@ -62,7 +62,7 @@ void defaultCertificateVerifier::verify(
 ) {
 
 	if (chain->getCount() == 0) {
-		return;
+		throw certificateNotTrustedException();
 	}
 
 	const string type = chain->getAt(0)->getType();
-- 
2.43.0


From f2a29e2240f7e118aba61d90e174cdef8534ecda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:32 +0000
Subject: [PATCH 157/227] fix: DER certificates could not be imported with
 OpenSSL

---
 .../cert/openssl/X509Certificate_OpenSSL.cpp  | 22 ++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/vmime/security/cert/openssl/X509Certificate_OpenSSL.cpp b/src/vmime/security/cert/openssl/X509Certificate_OpenSSL.cpp
index b0fffa9..bb1a312 100644
--- a/src/vmime/security/cert/openssl/X509Certificate_OpenSSL.cpp
+++ b/src/vmime/security/cert/openssl/X509Certificate_OpenSSL.cpp
@@ -208,6 +208,16 @@ shared_ptr <X509Certificate> X509Certificate::import(
 
 	shared_ptr <X509Certificate_OpenSSL> cert = make_shared <X509Certificate_OpenSSL>();
 
+	// Try DER format
+	const unsigned char* derData = data;
+
+	if (d2i_X509(&(cert->m_data->cert), &derData, static_cast <long>(length))) {
+		return cert;
+	}
+
+	// Try PEM format
+	cert = make_shared <X509Certificate_OpenSSL>();
+
 	BIO* membio = BIO_new_mem_buf(const_cast <byte_t*>(data), static_cast <int>(length));
 
 	if (!PEM_read_bio_X509(membio, &(cert->m_data->cert), 0, 0)) {
@@ -246,8 +256,18 @@ void X509Certificate::import(
 	std::vector <shared_ptr <X509Certificate> >& certs
 ) {
 
+	shared_ptr <X509Certificate_OpenSSL> cert = make_shared <X509Certificate_OpenSSL>();
+
+	// Try DER format
+	const unsigned char* derData = data;
+
+	if (d2i_X509(&(cert->m_data->cert), &derData, static_cast <long>(length))) {
+		certs.push_back(cert);
+		return;
+	}
+
+	// Try PEM format
 	BIO* membio = BIO_new_mem_buf(const_cast <byte_t*>(data), static_cast <int>(length));
-	shared_ptr <X509Certificate_OpenSSL> cert = null;
 
 	while (true) {
 
-- 
2.43.0


From 17931789f422059511546931e0f66039b06bdcdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:32 +0000
Subject: [PATCH 158/227] fix: OpenSSL: a certificate chain was accepted
 without verifying the signatures between its certificates

---
 .../cert/openssl/X509Certificate_OpenSSL.cpp  | 20 ++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/vmime/security/cert/openssl/X509Certificate_OpenSSL.cpp b/src/vmime/security/cert/openssl/X509Certificate_OpenSSL.cpp
index bb1a312..bb3e57e 100644
--- a/src/vmime/security/cert/openssl/X509Certificate_OpenSSL.cpp
+++ b/src/vmime/security/cert/openssl/X509Certificate_OpenSSL.cpp
@@ -378,7 +378,25 @@ bool X509Certificate_OpenSSL::checkIssuer(const shared_ptr <const X509Certificat
 	vmime::string subjOfIssuer((char*)subject, n);
 	BIO_free(out);
 
-	return subjOfIssuer == thisIssuerName;
+	if (subjOfIssuer != thisIssuerName) {
+		return false;
+	}
+
+	// The issuer's name can be written by anybody: only the signature shows
+	// that the certificate was really issued by that (certificate) authority
+	EVP_PKEY* issuerKey = X509_get_pubkey(cert->m_data->cert);
+
+	if (!issuerKey) {
+		return false;
+	}
+
+	const bool issued =
+		X509_check_ca(cert->m_data->cert) > 0 &&
+		X509_verify(m_data->cert, issuerKey) == 1;
+
+	EVP_PKEY_free(issuerKey);
+
+	return issued;
 }
 
 
-- 
2.43.0


From 6206d7d425703c3a773b562a77c6f5f657f3011a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:18 +0000
Subject: [PATCH 159/227] fix: OpenSSL: a host name matched certificates for
 any name it ends with, or which ends with it

---
 .../cert/openssl/X509Certificate_OpenSSL.cpp  | 62 +++++++------------
 .../cert/openssl/X509Certificate_OpenSSL.hpp  | 10 ---
 2 files changed, 21 insertions(+), 51 deletions(-)

diff --git a/src/vmime/security/cert/openssl/X509Certificate_OpenSSL.cpp b/src/vmime/security/cert/openssl/X509Certificate_OpenSSL.cpp
index bb3e57e..0a5d336 100644
--- a/src/vmime/security/cert/openssl/X509Certificate_OpenSSL.cpp
+++ b/src/vmime/security/cert/openssl/X509Certificate_OpenSSL.cpp
@@ -447,50 +447,39 @@ bool X509Certificate_OpenSSL::verify(const shared_ptr <const X509Certificate>& c
 }
 
 
-// static
-bool X509Certificate_OpenSSL::cnMatch(const char* cnBuf, const char* host) {
-
-	// Right-to-left match, looking for a '*' wildcard
-	const bool hasWildcard = (strlen(cnBuf) > 1 && cnBuf[0] == '*' && cnBuf[1] == '.');
-	const char* cnBufReverseEndPtr = (cnBuf + (hasWildcard ? 2 : 0));
-	const char* hostPtr = host + strlen(host);
-	const char* cnPtr = cnBuf + strlen(cnBuf);
-
-	bool matches = true;
+bool X509Certificate_OpenSSL::verifyHostName(
+	const string& hostname,
+	std::vector <std::string>* nonMatchingNames
+) const {
 
-	while (matches && --hostPtr >= host && --cnPtr >= cnBufReverseEndPtr) {
-		matches = (toupper(*hostPtr) == toupper(*cnPtr));
+	if (hostname.empty() || hostname.find('\0') != string::npos) {
+		return false;
 	}
 
-	return matches;
-}
+	// Check subject alternative names and, if there is no DNS name in them,
+	// subject common name against hostname
+	if (X509_check_host(m_data->cert, hostname.data(), hostname.length(),
+			X509_CHECK_FLAG_NO_PARTIAL_WILDCARDS, NULL) == 1 ||
+	    X509_check_ip_asc(m_data->cert, hostname.c_str(), 0) == 1) {
 
+		return true;
+	}
 
-bool X509Certificate_OpenSSL::verifyHostName(
-	const string& hostname,
-	std::vector <std::string>* nonMatchingNames
-) const {
+	if (!nonMatchingNames) {
+		return false;
+	}
 
-	// First, check subject common name against hostname
+	// Get subject common name
 	char CNBuffer[1024];
 	CNBuffer[sizeof(CNBuffer) - 1] = '\0';
 
 	X509_NAME* xname = X509_get_subject_name(m_data->cert);
 
 	if (X509_NAME_get_text_by_NID(xname, NID_commonName, CNBuffer, sizeof(CNBuffer)) != -1) {
-
-		if (cnMatch(CNBuffer, hostname.c_str())) {
-			return true;
-		}
-
-		if (nonMatchingNames) {
-			nonMatchingNames->push_back(CNBuffer);
-		}
+		nonMatchingNames->push_back(CNBuffer);
 	}
 
-	// Now, look in subject alternative names
-	bool verify = false;
-
+	// Get subject alternative names
 	STACK_OF(GENERAL_NAME)* altNames = static_cast <GENERAL_NAMES*>
 		(X509_get_ext_d2i(m_data->cert, NID_subject_alt_name, NULL, NULL));
 
@@ -498,14 +487,12 @@ bool X509Certificate_OpenSSL::verifyHostName(
 		return false;
 	}
 
-	// Check each name within the extension
 	for (int i = 0, n = sk_GENERAL_NAME_num(altNames) ; i < n ; ++i) {
 
 		const GENERAL_NAME* currentName = sk_GENERAL_NAME_value(altNames, i);
 
 		if (currentName->type == GEN_DNS) {
 
-			// Current name is a DNS name, let's check it
 			const char *DNSName = (const char *) ASN1_STRING_get0_data(currentName->d.dNSName);
 
 			// Make sure there isn't an embedded NUL character in the DNS name
@@ -514,20 +501,13 @@ bool X509Certificate_OpenSSL::verifyHostName(
 				break;
 			}
 
-			if (cnMatch(DNSName, hostname.c_str())) {
-				verify = true;
-				break;
-			}
-
-			if (nonMatchingNames) {
-				nonMatchingNames->push_back(DNSName);
-			}
+			nonMatchingNames->push_back(DNSName);
 		}
 	}
 
 	sk_GENERAL_NAME_pop_free(altNames, GENERAL_NAME_free);
 
-	return verify;
+	return false;
 }
 
 
diff --git a/src/vmime/security/cert/openssl/X509Certificate_OpenSSL.hpp b/src/vmime/security/cert/openssl/X509Certificate_OpenSSL.hpp
index c0ebf3c..74d2640 100644
--- a/src/vmime/security/cert/openssl/X509Certificate_OpenSSL.hpp
+++ b/src/vmime/security/cert/openssl/X509Certificate_OpenSSL.hpp
@@ -87,16 +87,6 @@ public:
 
 private:
 
-	/** Internal utility function to test whether a hostname matches
-	  * the specified X509 Common Name (wildcard is supported).
-	  *
-	  * @param cnBuf pointer to buffer holding Common Name
-	  * @param host pointer to buffer holding host name
-	  * @return true if the hostname matches the Common Name, or
-	  * false otherwise
-	  */
-	static bool cnMatch(const char* cnBuf, const char* host);
-
 	/** Internal utility function to convert ASN1_TIME
 	 *  structs to vmime::datetime
 	 *
-- 
2.43.0


From b3686657c50164bec7cd2c8c4ae7cec0918022f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:50 +0000
Subject: [PATCH 160/227] fix: SASL credentials were truncated at the first NUL
 character

---
 src/vmime/security/sasl/SASLSession.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vmime/security/sasl/SASLSession.cpp b/src/vmime/security/sasl/SASLSession.cpp
index 7498b46..88d0749 100644
--- a/src/vmime/security/sasl/SASLSession.cpp
+++ b/src/vmime/security/sasl/SASLSession.cpp
@@ -202,6 +202,11 @@ int SASLSession::gsaslCallback(
 				return GSASL_NO_CALLBACK;
 		}
 
+		// GNU SASL handles NUL-terminated strings: do not send truncated data
+		if (res.find('\0') != string::npos) {
+			return GSASL_NO_CALLBACK;
+		}
+
 		gsasl_property_set(sctx, prop, res.c_str());
 
 		return GSASL_OK;
-- 
2.43.0


From 8c3cd496c2979bf961ca3cd89a2553f869530ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:50 +0000
Subject: [PATCH 161/227] fix: XOAUTH2: a missing access token aborted the
 authentication, and a ^A in the credentials was sent as a separator

---
 .../security/sasl/XOAuth2SASLMechanism.cpp    | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/vmime/security/sasl/XOAuth2SASLMechanism.cpp b/src/vmime/security/sasl/XOAuth2SASLMechanism.cpp
index e5ecd4b..e84e14e 100644
--- a/src/vmime/security/sasl/XOAuth2SASLMechanism.cpp
+++ b/src/vmime/security/sasl/XOAuth2SASLMechanism.cpp
@@ -76,8 +76,23 @@ bool XOAuth2SASLMechanism::step(
 	// The SASL XOAUTH2 initial client response has the following format:
 	//    base64("user=" {User} "^Aauth=Bearer " {Access Token} "^A^A")
 
-	const std::string user(sess->getAuthenticator()->getUsername());
-	const std::string accessToken(sess->getAuthenticator()->getAccessToken());
+	std::string user;
+	std::string accessToken;
+
+	try {
+
+		user = sess->getAuthenticator()->getUsername();
+		accessToken = sess->getAuthenticator()->getAccessToken();
+
+	} catch (exceptions::no_auth_information&) {
+
+		throw exceptions::sasl_exception("No user name or access token available.");
+	}
+
+	// ^A is the field separator, and cannot be quoted
+	if (user.find('\x01') != std::string::npos || accessToken.find('\x01') != std::string::npos) {
+		throw exceptions::sasl_exception("Invalid character in user name or access token.");
+	}
 
 	std::ostringstream initRespBytes;
 	initRespBytes.write("user=", 5);
-- 
2.43.0


From 602be50af940340f902dd9caf9ad2aebe4b1d800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:51 +0000
Subject: [PATCH 162/227] fix: SASL authentication failed if GNU SASL had no
 mechanism to suggest among the registered ones

---
 src/vmime/net/imap/IMAPConnection.cpp | 7 ++-----
 src/vmime/net/pop3/POP3Connection.cpp | 7 ++-----
 src/vmime/net/smtp/SMTPConnection.cpp | 7 ++-----
 3 files changed, 6 insertions(+), 15 deletions(-)

diff --git a/src/vmime/net/imap/IMAPConnection.cpp b/src/vmime/net/imap/IMAPConnection.cpp
index 0e4020f..6937d32 100644
--- a/src/vmime/net/imap/IMAPConnection.cpp
+++ b/src/vmime/net/imap/IMAPConnection.cpp
@@ -369,14 +369,11 @@ void IMAPConnection::authenticateSASL() {
 		throw exceptions::authentication_error("No SASL mechanism available.");
 	}
 
-	// Try to suggest a mechanism among all those supported
+	// Try to suggest a mechanism among all those supported (there may be none,
+	// eg. if the server only supports mechanisms unknown to the SASL library)
 	shared_ptr <security::sasl::SASLMechanism> suggestedMech =
 		saslContext->suggestMechanism(mechList);
 
-	if (!suggestedMech) {
-		throw exceptions::authentication_error("Unable to suggest SASL mechanism.");
-	}
-
 	// Allow application to choose which mechanisms to use
 	mechList = dynamicCast <security::sasl::SASLAuthenticator>(getAuthenticator())->
 		getAcceptableMechanisms(mechList, suggestedMech);
diff --git a/src/vmime/net/pop3/POP3Connection.cpp b/src/vmime/net/pop3/POP3Connection.cpp
index 682bcec..180d900 100644
--- a/src/vmime/net/pop3/POP3Connection.cpp
+++ b/src/vmime/net/pop3/POP3Connection.cpp
@@ -448,14 +448,11 @@ void POP3Connection::authenticateSASL() {
 		throw exceptions::authentication_error("No SASL mechanism available.");
 	}
 
-	// Try to suggest a mechanism among all those supported
+	// Try to suggest a mechanism among all those supported (there may be none,
+	// eg. if the server only supports mechanisms unknown to the SASL library)
 	shared_ptr <security::sasl::SASLMechanism> suggestedMech =
 		saslContext->suggestMechanism(mechList);
 
-	if (!suggestedMech) {
-		throw exceptions::authentication_error("Unable to suggest SASL mechanism.");
-	}
-
 	// Allow application to choose which mechanisms to use
 	mechList = dynamicCast <security::sasl::SASLAuthenticator>(getAuthenticator())->
 		getAcceptableMechanisms(mechList, suggestedMech);
diff --git a/src/vmime/net/smtp/SMTPConnection.cpp b/src/vmime/net/smtp/SMTPConnection.cpp
index 1568730..93abf04 100644
--- a/src/vmime/net/smtp/SMTPConnection.cpp
+++ b/src/vmime/net/smtp/SMTPConnection.cpp
@@ -418,14 +418,11 @@ void SMTPConnection::authenticateSASL() {
 		throw exceptions::authentication_error("No SASL mechanism available.");
 	}
 
-	// Try to suggest a mechanism among all those supported
+	// Try to suggest a mechanism among all those supported (there may be none,
+	// eg. if the server only supports mechanisms unknown to the SASL library)
 	shared_ptr <security::sasl::SASLMechanism> suggestedMech =
 		saslContext->suggestMechanism(mechList);
 
-	if (!suggestedMech) {
-		throw exceptions::authentication_error("Unable to suggest SASL mechanism.");
-	}
-
 	// Allow application to choose which mechanisms to use
 	mechList = dynamicCast <security::sasl::SASLAuthenticator>(getAuthenticator())->
 		getAcceptableMechanisms(mechList, suggestedMech);
-- 
2.43.0


From d6901844cb576aa73400441580d2b7f643f3d6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:51 +0000
Subject: [PATCH 163/227] fix: a SASL mechanism which fails to give its initial
 response prevented the next ones from being tried

---
 src/vmime/net/imap/IMAPConnection.cpp | 10 +++++++++-
 src/vmime/net/pop3/POP3Connection.cpp | 10 +++++++++-
 src/vmime/net/smtp/SMTPConnection.cpp | 10 +++++++++-
 3 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/vmime/net/imap/IMAPConnection.cpp b/src/vmime/net/imap/IMAPConnection.cpp
index 6937d32..8ef2ae5 100644
--- a/src/vmime/net/imap/IMAPConnection.cpp
+++ b/src/vmime/net/imap/IMAPConnection.cpp
@@ -399,7 +399,15 @@ void IMAPConnection::authenticateSASL() {
 			byte_t* initialResp = 0;
 			size_t initialRespLen = 0;
 
-			saslSession->evaluateChallenge(NULL, 0, &initialResp, &initialRespLen);
+			try {
+
+				saslSession->evaluateChallenge(NULL, 0, &initialResp, &initialRespLen);
+
+			} catch (exceptions::sasl_exception&) {
+
+				// This mechanism cannot be used: try next one
+				continue;
+			}
 
 			string encodedInitialResp(saslContext->encodeB64(initialResp, initialRespLen));
 			delete [] initialResp;
diff --git a/src/vmime/net/pop3/POP3Connection.cpp b/src/vmime/net/pop3/POP3Connection.cpp
index 180d900..6d17631 100644
--- a/src/vmime/net/pop3/POP3Connection.cpp
+++ b/src/vmime/net/pop3/POP3Connection.cpp
@@ -478,7 +478,15 @@ void POP3Connection::authenticateSASL() {
 			byte_t* initialResp = 0;
 			size_t initialRespLen = 0;
 
-			saslSession->evaluateChallenge(NULL, 0, &initialResp, &initialRespLen);
+			try {
+
+				saslSession->evaluateChallenge(NULL, 0, &initialResp, &initialRespLen);
+
+			} catch (exceptions::sasl_exception&) {
+
+				// This mechanism cannot be used: try next one
+				continue;
+			}
 
 			string encodedInitialResp(saslContext->encodeB64(initialResp, initialRespLen));
 			delete [] initialResp;
diff --git a/src/vmime/net/smtp/SMTPConnection.cpp b/src/vmime/net/smtp/SMTPConnection.cpp
index 93abf04..7de9cdd 100644
--- a/src/vmime/net/smtp/SMTPConnection.cpp
+++ b/src/vmime/net/smtp/SMTPConnection.cpp
@@ -446,7 +446,15 @@ void SMTPConnection::authenticateSASL() {
 			byte_t* initialResp = 0;
 			size_t initialRespLen = 0;
 
-			saslSession->evaluateChallenge(NULL, 0, &initialResp, &initialRespLen);
+			try {
+
+				saslSession->evaluateChallenge(NULL, 0, &initialResp, &initialRespLen);
+
+			} catch (exceptions::sasl_exception&) {
+
+				// This mechanism cannot be used: try next one
+				continue;
+			}
 
 			string encodedInitialResp(saslContext->encodeB64(initialResp, initialRespLen));
 			delete [] initialResp;
-- 
2.43.0


From ec01971416607df851ba324d732f79459c11df12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:23 +0000
Subject: [PATCH 164/227] fix: endless SASL exchange if the server goes on
 after the client has cancelled it

---
 src/vmime/net/imap/IMAPConnection.cpp | 8 ++++++++
 src/vmime/net/pop3/POP3Connection.cpp | 8 ++++++++
 src/vmime/net/smtp/SMTPConnection.cpp | 8 ++++++++
 3 files changed, 24 insertions(+)

diff --git a/src/vmime/net/imap/IMAPConnection.cpp b/src/vmime/net/imap/IMAPConnection.cpp
index 8ef2ae5..e7b135d 100644
--- a/src/vmime/net/imap/IMAPConnection.cpp
+++ b/src/vmime/net/imap/IMAPConnection.cpp
@@ -425,6 +425,8 @@ void IMAPConnection::authenticateSASL() {
 
 		authCmd->send(dynamicCast <IMAPConnection>(shared_from_this()));
 
+		bool cancelled = false;
+
 		for (bool cont = true ; cont ; ) {
 
 			scoped_ptr <IMAPParser::response> resp(m_parser->readResponse(*m_tag));
@@ -457,6 +459,11 @@ void IMAPConnection::authenticateSASL() {
 					continue;
 				}
 
+				// The server must reject the exchange once it has been cancelled
+				if (cancelled) {
+					throw exceptions::invalid_response("AUTHENTICATE", response);
+				}
+
 				byte_t* challenge = 0;
 				size_t challengeLen = 0;
 
@@ -497,6 +504,7 @@ void IMAPConnection::authenticateSASL() {
 
 					// Cancel SASL exchange
 					sendRaw(utility::stringUtils::bytesFromString("*\r\n"), 3);
+					cancelled = true;
 
 					if (m_tracer) {
 						m_tracer->traceSend("*");
diff --git a/src/vmime/net/pop3/POP3Connection.cpp b/src/vmime/net/pop3/POP3Connection.cpp
index 6d17631..613f9c5 100644
--- a/src/vmime/net/pop3/POP3Connection.cpp
+++ b/src/vmime/net/pop3/POP3Connection.cpp
@@ -504,6 +504,8 @@ void POP3Connection::authenticateSASL() {
 
 		authCmd->send(dynamicCast <POP3Connection>(shared_from_this()));
 
+		bool cancelled = false;
+
 		for (bool cont = true ; cont ; ) {
 
 			shared_ptr <POP3Response> response =
@@ -519,6 +521,11 @@ void POP3Connection::authenticateSASL() {
 
 				case POP3Response::CODE_READY: {
 
+					// The server must reject the exchange once it has been cancelled
+					if (cancelled) {
+						throw exceptions::invalid_response("AUTH", response->getFirstLine());
+					}
+
 					byte_t* challenge = 0;
 					size_t challengeLen = 0;
 
@@ -555,6 +562,7 @@ void POP3Connection::authenticateSASL() {
 
 						// Cancel SASL exchange
 						m_socket->send("*\r\n");
+						cancelled = true;
 
 						if (m_tracer) {
 							m_tracer->traceSend("*");
diff --git a/src/vmime/net/smtp/SMTPConnection.cpp b/src/vmime/net/smtp/SMTPConnection.cpp
index 7de9cdd..414f97f 100644
--- a/src/vmime/net/smtp/SMTPConnection.cpp
+++ b/src/vmime/net/smtp/SMTPConnection.cpp
@@ -470,6 +470,8 @@ void SMTPConnection::authenticateSASL() {
 			sendRequest(SMTPCommand::AUTH(mech->getName()));
 		}
 
+		bool cancelled = false;
+
 		for (bool cont = true ; cont ; ) {
 
 			shared_ptr <SMTPResponse> response = readResponse();
@@ -483,6 +485,11 @@ void SMTPConnection::authenticateSASL() {
 				}
 				case 334: {
 
+					// The server must reject the exchange once it has been cancelled
+					if (cancelled) {
+						throw exceptions::invalid_response("AUTH", response->getText());
+					}
+
 					byte_t* challenge = 0;
 					size_t challengeLen = 0;
 
@@ -519,6 +526,7 @@ void SMTPConnection::authenticateSASL() {
 
 						// Cancel SASL exchange
 						m_socket->send("*\r\n");
+						cancelled = true;
 
 						if (m_tracer) {
 							m_tracer->traceSend("*");
-- 
2.43.0


From 4cbf67bbd452da11322aebebfd13e6d10417dd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:23 +0000
Subject: [PATCH 165/227] fix: IMAP: SASL initial response was sent to servers
 without SASL-IR capability

---
 src/vmime/net/imap/IMAPConnection.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vmime/net/imap/IMAPConnection.cpp b/src/vmime/net/imap/IMAPConnection.cpp
index e7b135d..df4282e 100644
--- a/src/vmime/net/imap/IMAPConnection.cpp
+++ b/src/vmime/net/imap/IMAPConnection.cpp
@@ -394,7 +394,10 @@ void IMAPConnection::authenticateSASL() {
 
 		shared_ptr <IMAPCommand> authCmd;
 
-		if (saslSession->getMechanism()->hasInitialResponse()) {
+		// The initial response can be sent along with the command only if the
+		// server supports it (RFC-4959), otherwise it is the response to the
+		// first (empty) challenge
+		if (saslSession->getMechanism()->hasInitialResponse() && hasCapability("SASL-IR")) {
 
 			byte_t* initialResp = 0;
 			size_t initialRespLen = 0;
-- 
2.43.0


From 0894832901058d253de84f5b2ced55c8d41a4cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:23 +0000
Subject: [PATCH 166/227] fix: IMAP: responses were not decoded by the SASL
 security layer

---
 src/vmime/net/imap/IMAPConnection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/net/imap/IMAPConnection.cpp b/src/vmime/net/imap/IMAPConnection.cpp
index df4282e..4b17fc8 100644
--- a/src/vmime/net/imap/IMAPConnection.cpp
+++ b/src/vmime/net/imap/IMAPConnection.cpp
@@ -439,7 +439,7 @@ void IMAPConnection::authenticateSASL() {
 			    resp->response_done->response_tagged->resp_cond_state->
 			    	status == IMAPParser::resp_cond_state::OK) {
 
-				m_socket = saslSession->getSecuredSocket(m_socket);
+				setSocket(saslSession->getSecuredSocket(m_socket));
 				return;
 
 			} else {
-- 
2.43.0


From b392d89e20d931085d9665d15230fde2a1a95cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:23 +0000
Subject: [PATCH 167/227] fix: IMAP: line breaks and NULs in the user name or
 password were sent as is in LOGIN

---
 src/vmime/net/imap/IMAPConnection.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/vmime/net/imap/IMAPConnection.cpp b/src/vmime/net/imap/IMAPConnection.cpp
index 4b17fc8..6e00440 100644
--- a/src/vmime/net/imap/IMAPConnection.cpp
+++ b/src/vmime/net/imap/IMAPConnection.cpp
@@ -297,6 +297,17 @@ void IMAPConnection::authenticate() {
 	const string username = getAuthenticator()->getUsername();
 	const string password = getAuthenticator()->getPassword();
 
+	// These characters cannot be sent in a quoted string (and a line break
+	// would allow to inject other commands)
+	static const string forbiddenChars("\r\n\0", 3);
+
+	if (username.find_first_of(forbiddenChars) != string::npos ||
+	    password.find_first_of(forbiddenChars) != string::npos) {
+
+		internalDisconnect();
+		throw exceptions::authentication_error("Invalid character in user name or password.");
+	}
+
 	shared_ptr <IMAPConnection> conn = dynamicCast <IMAPConnection>(shared_from_this());
 	IMAPCommand::LOGIN(username, password)->send(conn);
 
-- 
2.43.0


From b0918d5186776c7003513385f546f06b8999c72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:23 +0000
Subject: [PATCH 168/227] fix: IMAP: LOGIN was sent to servers which advertise
 LOGINDISABLED

---
 src/vmime/net/imap/IMAPConnection.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/vmime/net/imap/IMAPConnection.cpp b/src/vmime/net/imap/IMAPConnection.cpp
index 6e00440..7f58d4e 100644
--- a/src/vmime/net/imap/IMAPConnection.cpp
+++ b/src/vmime/net/imap/IMAPConnection.cpp
@@ -294,6 +294,15 @@ void IMAPConnection::authenticate() {
 #endif // VMIME_HAVE_SASL_SUPPORT
 
 	// Normal authentication
+
+	// " A client implementation MUST NOT issue the LOGIN command if the
+	//   LOGINDISABLED capability is advertised " (RFC-3501, 6.2.3)
+	if (hasCapability("LOGINDISABLED")) {
+
+		internalDisconnect();
+		throw exceptions::authentication_error("LOGIN is disabled by the server.");
+	}
+
 	const string username = getAuthenticator()->getUsername();
 	const string password = getAuthenticator()->getPassword();
 
-- 
2.43.0


From 1992087837a3b351eebef7558c57155bc6d4eee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:23 +0000
Subject: [PATCH 169/227] fix: connection.tls.required was ignored if
 connection.tls was not set too: credentials were sent in the clear

---
 src/vmime/net/imap/IMAPConnection.cpp | 4 ++--
 src/vmime/net/pop3/POP3Connection.cpp | 4 ++--
 src/vmime/net/smtp/SMTPConnection.cpp | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/vmime/net/imap/IMAPConnection.cpp b/src/vmime/net/imap/IMAPConnection.cpp
index 7f58d4e..bb4235e 100644
--- a/src/vmime/net/imap/IMAPConnection.cpp
+++ b/src/vmime/net/imap/IMAPConnection.cpp
@@ -196,10 +196,10 @@ void IMAPConnection::connect() {
 
 #if VMIME_HAVE_TLS_SUPPORT
 	// Setup secured connection, if requested
-	const bool tls = HAS_PROPERTY(PROPERTY_CONNECTION_TLS)
-		&& GET_PROPERTY(bool, PROPERTY_CONNECTION_TLS);
 	const bool tlsRequired = HAS_PROPERTY(PROPERTY_CONNECTION_TLS_REQUIRED)
 		&& GET_PROPERTY(bool, PROPERTY_CONNECTION_TLS_REQUIRED);
+	const bool tls = tlsRequired || (HAS_PROPERTY(PROPERTY_CONNECTION_TLS)
+		&& GET_PROPERTY(bool, PROPERTY_CONNECTION_TLS));
 
 	if (!store->isIMAPS() && tls) {  // only if not IMAPS
 
diff --git a/src/vmime/net/pop3/POP3Connection.cpp b/src/vmime/net/pop3/POP3Connection.cpp
index 613f9c5..904f98a 100644
--- a/src/vmime/net/pop3/POP3Connection.cpp
+++ b/src/vmime/net/pop3/POP3Connection.cpp
@@ -159,10 +159,10 @@ void POP3Connection::connect() {
 
 #if VMIME_HAVE_TLS_SUPPORT
 	// Setup secured connection, if requested
-	const bool tls = HAS_PROPERTY(PROPERTY_CONNECTION_TLS)
-		&& GET_PROPERTY(bool, PROPERTY_CONNECTION_TLS);
 	const bool tlsRequired = HAS_PROPERTY(PROPERTY_CONNECTION_TLS_REQUIRED)
 		&& GET_PROPERTY(bool, PROPERTY_CONNECTION_TLS_REQUIRED);
+	const bool tls = tlsRequired || (HAS_PROPERTY(PROPERTY_CONNECTION_TLS)
+		&& GET_PROPERTY(bool, PROPERTY_CONNECTION_TLS));
 
 	if (!store->isPOP3S() && tls) {  // only if not POP3S
 
diff --git a/src/vmime/net/smtp/SMTPConnection.cpp b/src/vmime/net/smtp/SMTPConnection.cpp
index 414f97f..0385d24 100644
--- a/src/vmime/net/smtp/SMTPConnection.cpp
+++ b/src/vmime/net/smtp/SMTPConnection.cpp
@@ -166,10 +166,10 @@ void SMTPConnection::connect() {
 
 #if VMIME_HAVE_TLS_SUPPORT
 	// Setup secured connection, if requested
-	const bool tls = HAS_PROPERTY(PROPERTY_CONNECTION_TLS)
-		&& GET_PROPERTY(bool, PROPERTY_CONNECTION_TLS);
 	const bool tlsRequired = HAS_PROPERTY(PROPERTY_CONNECTION_TLS_REQUIRED)
 		&& GET_PROPERTY(bool, PROPERTY_CONNECTION_TLS_REQUIRED);
+	const bool tls = tlsRequired || (HAS_PROPERTY(PROPERTY_CONNECTION_TLS)
+		&& GET_PROPERTY(bool, PROPERTY_CONNECTION_TLS));
 
 	if (!transport->isSMTPS() && tls) {  // only if not SMTPS
 
-- 
2.43.0


From b0c7a0fc13d189697c39d0af2dd50998af5b6a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:23 +0000
Subject: [PATCH 170/227] fix: passwords and access tokens were shown in
 protocol traces

---
 src/vmime/net/imap/IMAPCommand.cpp    | 2 +-
 src/vmime/net/imap/IMAPConnection.cpp | 2 +-
 src/vmime/net/pop3/POP3Command.cpp    | 2 +-
 src/vmime/net/smtp/SMTPCommand.cpp    | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/vmime/net/imap/IMAPCommand.cpp b/src/vmime/net/imap/IMAPCommand.cpp
index 256924e..b1fcb56 100644
--- a/src/vmime/net/imap/IMAPCommand.cpp
+++ b/src/vmime/net/imap/IMAPCommand.cpp
@@ -81,7 +81,7 @@ shared_ptr <IMAPCommand> IMAPCommand::AUTHENTICATE(const string& mechName, const
 	cmd.imbue(std::locale::classic());
 	cmd << "AUTHENTICATE " << mechName << " " << initialResponse;
 
-	return createCommand(cmd.str());
+	return createCommand(cmd.str(), "AUTHENTICATE " + mechName + " {initial-response}");
 }
 
 
diff --git a/src/vmime/net/imap/IMAPConnection.cpp b/src/vmime/net/imap/IMAPConnection.cpp
index bb4235e..9dc4f75 100644
--- a/src/vmime/net/imap/IMAPConnection.cpp
+++ b/src/vmime/net/imap/IMAPConnection.cpp
@@ -843,7 +843,7 @@ void IMAPConnection::sendCommand(const shared_ptr <IMAPCommand>& cmd) {
 	if (m_tracer) {
 
 		std::ostringstream oss;
-		oss << string(*m_tag) << " " << cmd->getText();
+		oss << string(*m_tag) << " " << cmd->getTraceText();
 
 		m_tracer->traceSend(oss.str());
 	}
diff --git a/src/vmime/net/pop3/POP3Command.cpp b/src/vmime/net/pop3/POP3Command.cpp
index 0e79888..fbdc84e 100644
--- a/src/vmime/net/pop3/POP3Command.cpp
+++ b/src/vmime/net/pop3/POP3Command.cpp
@@ -81,7 +81,7 @@ shared_ptr <POP3Command> POP3Command::AUTH(const string& mechName, const string&
 	cmd.imbue(std::locale::classic());
 	cmd << "AUTH " << mechName << " " << initialResponse;
 
-	return createCommand(cmd.str());
+	return createCommand(cmd.str(), "AUTH " + mechName + " {initial-response}");
 }
 
 
diff --git a/src/vmime/net/smtp/SMTPCommand.cpp b/src/vmime/net/smtp/SMTPCommand.cpp
index b284724..eeb416a 100644
--- a/src/vmime/net/smtp/SMTPCommand.cpp
+++ b/src/vmime/net/smtp/SMTPCommand.cpp
@@ -148,7 +148,7 @@ shared_ptr <SMTPCommand> SMTPCommand::AUTH(const string& mechName, const std::st
 	cmd.imbue(std::locale::classic());
 	cmd << "AUTH " << mechName << " " << initialResponse;
 
-	return createCommand(cmd.str());
+	return createCommand(cmd.str(), "AUTH " + mechName + " {initial-response}");
 }
 
 
-- 
2.43.0


From 627dfab46b0ca5bbb9ed219fefd35c9fe3b8e02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:05 +0000
Subject: [PATCH 171/227] fix: SMTP, IMAP: responses received in the clear
 before STARTTLS, or on the previous connection, were taken as responses of
 the new stream

---
 src/vmime/net/imap/IMAPConnection.cpp | 4 ++++
 src/vmime/net/imap/IMAPParser.hpp     | 7 +++++++
 src/vmime/net/smtp/SMTPConnection.cpp | 5 +++++
 3 files changed, 16 insertions(+)

diff --git a/src/vmime/net/imap/IMAPConnection.cpp b/src/vmime/net/imap/IMAPConnection.cpp
index 9dc4f75..6f0ac79 100644
--- a/src/vmime/net/imap/IMAPConnection.cpp
+++ b/src/vmime/net/imap/IMAPConnection.cpp
@@ -165,6 +165,7 @@ void IMAPConnection::connect() {
 
 	m_parser->setSocket(m_socket);
 	m_parser->setTimeoutHandler(m_timeoutHandler);
+	m_parser->clearBuffer();
 
 
 	setState(STATE_NON_AUTHENTICATED);
@@ -597,6 +598,9 @@ void IMAPConnection::startTLS() {
 		m_socket = tlsSocket;
 		m_parser->setSocket(m_socket);
 
+		// Discard what was received before the connection was secured
+		m_parser->clearBuffer();
+
 		m_secured = true;
 		m_cntInfos = make_shared <tls::TLSSecuredConnectionInfos>(
 			m_cntInfos->getHost(), m_cntInfos->getPort(), tlsSession, tlsSocket
diff --git a/src/vmime/net/imap/IMAPParser.hpp b/src/vmime/net/imap/IMAPParser.hpp
index eb21c0f..2758517 100644
--- a/src/vmime/net/imap/IMAPParser.hpp
+++ b/src/vmime/net/imap/IMAPParser.hpp
@@ -290,6 +290,13 @@ public:
 		m_socket = sok;
 	}
 
+	/** Discard the data which has been received but has not been parsed yet.
+	  */
+	void clearBuffer() {
+
+		m_buffer.clear();
+	}
+
 	/** Set the timeout handler currently used by this parser.
 	  *
 	  * @param toh timeout handler
diff --git a/src/vmime/net/smtp/SMTPConnection.cpp b/src/vmime/net/smtp/SMTPConnection.cpp
index 0385d24..19d9f35 100644
--- a/src/vmime/net/smtp/SMTPConnection.cpp
+++ b/src/vmime/net/smtp/SMTPConnection.cpp
@@ -126,6 +126,8 @@ void SMTPConnection::connect() {
 	m_socket = transport->getSocketFactory()->create(m_timeoutHandler);
 	m_socket->setTracer(m_tracer);
 
+	m_responseState = SMTPResponse::state();
+
 #if VMIME_HAVE_TLS_SUPPORT
 	if (transport->isSMTPS()) {  // dedicated port/SMTPS
 
@@ -597,6 +599,9 @@ void SMTPConnection::startTLS() {
 
 		m_socket = tlsSocket;
 
+		// Discard what was received before the connection was secured
+		m_responseState = SMTPResponse::state();
+
 		m_secured = true;
 		m_cntInfos = make_shared <tls::TLSSecuredConnectionInfos>(
 			m_cntInfos->getHost(), m_cntInfos->getPort(), tlsSession, tlsSocket
-- 
2.43.0


From ca0ca95899cdac956403c0ce7b4feb787f80503f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:02 +0000
Subject: [PATCH 172/227] fix: a connection which could not be established was
 left open, and reported as secured

---
 src/vmime/net/imap/IMAPConnection.cpp | 20 ++++++++++++++++++++
 src/vmime/net/imap/IMAPConnection.hpp |  1 +
 src/vmime/net/pop3/POP3Connection.cpp | 20 ++++++++++++++++++++
 src/vmime/net/pop3/POP3Connection.hpp |  1 +
 src/vmime/net/smtp/SMTPConnection.cpp | 26 ++++++++++++++++++++++++--
 src/vmime/net/smtp/SMTPConnection.hpp |  1 +
 6 files changed, 67 insertions(+), 2 deletions(-)

diff --git a/src/vmime/net/imap/IMAPConnection.cpp b/src/vmime/net/imap/IMAPConnection.cpp
index 6f0ac79..d58cf9e 100644
--- a/src/vmime/net/imap/IMAPConnection.cpp
+++ b/src/vmime/net/imap/IMAPConnection.cpp
@@ -118,6 +118,26 @@ void IMAPConnection::connect() {
 		throw exceptions::already_connected();
 	}
 
+	try {
+
+		internalConnect();
+
+	} catch (...) {
+
+		// Do not leave a half-opened connection
+		try {
+			internalDisconnect();
+		} catch (...) {
+			// The first error is the one to report
+		}
+
+		throw;
+	}
+}
+
+
+void IMAPConnection::internalConnect() {
+
 	m_state = STATE_NONE;
 	m_hierarchySeparator = '\0';
 
diff --git a/src/vmime/net/imap/IMAPConnection.hpp b/src/vmime/net/imap/IMAPConnection.hpp
index d229d0f..29482ff 100644
--- a/src/vmime/net/imap/IMAPConnection.hpp
+++ b/src/vmime/net/imap/IMAPConnection.hpp
@@ -158,6 +158,7 @@ private:
 	shared_ptr <tracer> m_tracer;
 
 
+	void internalConnect();
 	void internalDisconnect();
 
 	void initHierarchySeparator();
diff --git a/src/vmime/net/pop3/POP3Connection.cpp b/src/vmime/net/pop3/POP3Connection.cpp
index 904f98a..d677cdf 100644
--- a/src/vmime/net/pop3/POP3Connection.cpp
+++ b/src/vmime/net/pop3/POP3Connection.cpp
@@ -106,6 +106,26 @@ void POP3Connection::connect() {
 		throw exceptions::already_connected();
 	}
 
+	try {
+
+		internalConnect();
+
+	} catch (...) {
+
+		// Do not leave a half-opened connection
+		try {
+			internalDisconnect();
+		} catch (...) {
+			// The first error is the one to report
+		}
+
+		throw;
+	}
+}
+
+
+void POP3Connection::internalConnect() {
+
 	const string address = GET_PROPERTY(string, PROPERTY_SERVER_ADDRESS);
 	const port_t port = GET_PROPERTY(port_t, PROPERTY_SERVER_PORT);
 
diff --git a/src/vmime/net/pop3/POP3Connection.hpp b/src/vmime/net/pop3/POP3Connection.hpp
index 26b3f3c..f3f78bc 100644
--- a/src/vmime/net/pop3/POP3Connection.hpp
+++ b/src/vmime/net/pop3/POP3Connection.hpp
@@ -102,6 +102,7 @@ private:
 	void invalidateCapabilities();
 	const std::vector <string> getCapabilities();
 
+	void internalConnect();
 	void internalDisconnect();
 
 
diff --git a/src/vmime/net/smtp/SMTPConnection.cpp b/src/vmime/net/smtp/SMTPConnection.cpp
index 19d9f35..7661308 100644
--- a/src/vmime/net/smtp/SMTPConnection.cpp
+++ b/src/vmime/net/smtp/SMTPConnection.cpp
@@ -112,6 +112,26 @@ void SMTPConnection::connect() {
 		throw exceptions::already_connected();
 	}
 
+	try {
+
+		internalConnect();
+
+	} catch (...) {
+
+		// Do not leave a half-opened connection
+		try {
+			internalDisconnect();
+		} catch (...) {
+			// The first error is the one to report
+		}
+
+		throw;
+	}
+}
+
+
+void SMTPConnection::internalConnect() {
+
 	const string address = GET_PROPERTY(string, PROPERTY_SERVER_ADDRESS);
 	const port_t port = GET_PROPERTY(port_t, PROPERTY_SERVER_PORT);
 
@@ -650,8 +670,10 @@ void SMTPConnection::internalDisconnect() {
 		}
 	}
 
-	m_socket->disconnect();
-	m_socket = null;
+	if (m_socket) {
+		m_socket->disconnect();
+		m_socket = null;
+	}
 
 	m_timeoutHandler = null;
 
diff --git a/src/vmime/net/smtp/SMTPConnection.hpp b/src/vmime/net/smtp/SMTPConnection.hpp
index d8a2375..cd907d6 100644
--- a/src/vmime/net/smtp/SMTPConnection.hpp
+++ b/src/vmime/net/smtp/SMTPConnection.hpp
@@ -94,6 +94,7 @@ public:
 
 private:
 
+	void internalConnect();
 	void internalDisconnect();
 
 	void helo();
-- 
2.43.0


From cd30c5123035077f0e28180285623ca7ea44ba76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:05 +0000
Subject: [PATCH 173/227] fix: follow the EXPUNGE and EXISTS responses of an
 IMAP server to the message

---
 src/vmime/net/imap/IMAPFolder.cpp       | 57 ++++++++++++++-----------
 src/vmime/net/imap/IMAPFolderStatus.cpp | 13 ++++++
 src/vmime/net/imap/IMAPFolderStatus.hpp |  1 +
 3 files changed, 45 insertions(+), 26 deletions(-)

diff --git a/src/vmime/net/imap/IMAPFolder.cpp b/src/vmime/net/imap/IMAPFolder.cpp
index 34da36d..0a3ddeb 100644
--- a/src/vmime/net/imap/IMAPFolder.cpp
+++ b/src/vmime/net/imap/IMAPFolder.cpp
@@ -1414,7 +1414,10 @@ shared_ptr <folderStatus> IMAPFolder::getStatus() {
 				shared_ptr <IMAPFolderStatus> status = make_shared <IMAPFolderStatus>();
 				status->updateFromResponse(*responseData->mailbox_data);
 
-				m_status->updateFromResponse(*responseData->mailbox_data);
+				// When the folder is open, the server tells about the changes by itself
+				if (!isOpen()) {
+					m_status->updateFromResponse(*responseData->mailbox_data);
+				}
 
 				return status;
 			}
@@ -1602,9 +1605,6 @@ void IMAPFolder::processStatusUpdate(const IMAPParser::response* resp) {
 
 	std::vector <shared_ptr <events::event> > events;
 
-	shared_ptr <IMAPFolderStatus> oldStatus = vmime::clone(m_status);
-	int expungedMessageCount = 0;
-
 	// Process tagged response
 	if (resp->response_done &&
 	    resp->response_done->response_tagged &&
@@ -1630,7 +1630,32 @@ void IMAPFolder::processStatusUpdate(const IMAPParser::response* resp) {
 		} else if ((*it)->response_data &&
 		           (*it)->response_data->mailbox_data) {
 
-			m_status->updateFromResponse(*(*it)->response_data->mailbox_data);
+			const size_t oldMessageCount = m_status->getMessageCount();
+
+			// The result of the STATUS command is not an update for this folder
+			if ((*it)->response_data->mailbox_data->type != IMAPParser::mailbox_data::STATUS) {
+				m_status->updateFromResponse(*(*it)->response_data->mailbox_data);
+			}
+
+			// New messages arrived
+			if (m_status->getMessageCount() > oldMessageCount) {
+
+				std::vector <size_t> newMessageNumbers;
+
+				for (size_t msgNumber = oldMessageCount + 1 ;
+				     msgNumber <= m_status->getMessageCount() ; ++msgNumber) {
+
+					newMessageNumbers.push_back(msgNumber);
+				}
+
+				events.push_back(
+					make_shared <events::messageCountEvent>(
+						dynamicCast <folder>(shared_from_this()),
+						events::messageCountEvent::TYPE_ADDED,
+						newMessageNumbers
+					)
+				);
+			}
 
 			// Update folder attributes, if available
 			if ((*it)->response_data->mailbox_data->type == IMAPParser::mailbox_data::LIST) {
@@ -1691,31 +1716,11 @@ void IMAPFolder::processStatusUpdate(const IMAPParser::response* resp) {
 					)
 				);
 
-				expungedMessageCount++;
+				m_status->updateFromResponse(*msgData);
 			}
 		}
 	}
 
-	// New messages arrived
-	if (m_status->getMessageCount() > oldStatus->getMessageCount() - expungedMessageCount) {
-
-		std::vector <size_t> newMessageNumbers;
-
-		for (size_t msgNumber = oldStatus->getMessageCount() - expungedMessageCount ;
-		     msgNumber <= m_status->getMessageCount() ; ++msgNumber) {
-
-			newMessageNumbers.push_back(msgNumber);
-		}
-
-		events.push_back(
-			make_shared <events::messageCountEvent>(
-				dynamicCast <folder>(shared_from_this()),
-				events::messageCountEvent::TYPE_ADDED,
-				newMessageNumbers
-			)
-		);
-	}
-
 	// Dispatch notifications
 	for (std::vector <shared_ptr <events::event> >::iterator evit =
 	     events.begin() ; evit != events.end() ; ++evit) {
diff --git a/src/vmime/net/imap/IMAPFolderStatus.cpp b/src/vmime/net/imap/IMAPFolderStatus.cpp
index 55df337..c9e2edd 100644
--- a/src/vmime/net/imap/IMAPFolderStatus.cpp
+++ b/src/vmime/net/imap/IMAPFolderStatus.cpp
@@ -211,6 +211,19 @@ bool IMAPFolderStatus::updateFromResponse(const IMAPParser::mailbox_data& resp)
 }
 
 
+bool IMAPFolderStatus::updateFromResponse(const IMAPParser::message_data& resp) {
+
+	// Each EXPUNGE response decrements the number of messages in the mailbox
+	if (resp.type == IMAPParser::message_data::EXPUNGE && m_count > 0) {
+
+		--m_count;
+		return true;
+	}
+
+	return false;
+}
+
+
 bool IMAPFolderStatus::updateFromResponse(const IMAPParser::resp_text_code& resp) {
 
 	bool changed = false;
diff --git a/src/vmime/net/imap/IMAPFolderStatus.hpp b/src/vmime/net/imap/IMAPFolderStatus.hpp
index b9a73ec..a0ea24f 100644
--- a/src/vmime/net/imap/IMAPFolderStatus.hpp
+++ b/src/vmime/net/imap/IMAPFolderStatus.hpp
@@ -101,6 +101,7 @@ public:
 	  * @return true if the status changed, or false otherwise
 	  */
 	bool updateFromResponse(const IMAPParser::resp_text_code& resp);
+	bool updateFromResponse(const IMAPParser::message_data& resp);
 
 private:
 
-- 
2.43.0


From 20474a3b932233d0afa6244b0cdc6ec3b57070c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:05 +0000
Subject: [PATCH 174/227] fix: do not confuse an expunged IMAP message with the
 one which took its number

---
 src/vmime/net/imap/IMAPFolder.cpp  | 10 +++++++++-
 src/vmime/net/imap/IMAPMessage.cpp | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/vmime/net/imap/IMAPFolder.cpp b/src/vmime/net/imap/IMAPFolder.cpp
index 0a3ddeb..136d930 100644
--- a/src/vmime/net/imap/IMAPFolder.cpp
+++ b/src/vmime/net/imap/IMAPFolder.cpp
@@ -807,6 +807,10 @@ void IMAPFolder::fetchMessages(
 
 	for (std::vector <shared_ptr <message> >::iterator it = msg.begin() ; it != msg.end() ; ++it) {
 
+		if ((*it)->isExpunged()) {
+			throw exceptions::message_not_found();
+		}
+
 		list.push_back((*it)->getNumber());
 		numberToMsg[(*it)->getNumber()] = dynamicCast <IMAPMessage>(*it);
 	}
@@ -1682,7 +1686,7 @@ void IMAPFolder::processStatusUpdate(const IMAPParser::response* resp) {
 				for (std::vector <IMAPMessage*>::iterator mit =
 				     m_messages.begin() ; mit != m_messages.end() ; ++mit) {
 
-					if ((*mit)->getNumber() == msgNumber) {
+					if (!(*mit)->isExpunged() && (*mit)->getNumber() == msgNumber) {
 						(*mit)->processFetchResponse(/* options */ 0, *msgData);
 					}
 				}
@@ -1701,6 +1705,10 @@ void IMAPFolder::processStatusUpdate(const IMAPParser::response* resp) {
 				for (std::vector <IMAPMessage*>::iterator jt =
 				     m_messages.begin() ; jt != m_messages.end() ; ++jt) {
 
+					if ((*jt)->isExpunged()) {
+						continue;
+					}
+
 					if ((*jt)->getNumber() == msgNumber) {
 						(*jt)->setExpunged();
 					} else if ((*jt)->getNumber() > msgNumber) {
diff --git a/src/vmime/net/imap/IMAPMessage.cpp b/src/vmime/net/imap/IMAPMessage.cpp
index fa33b83..2e53c62 100644
--- a/src/vmime/net/imap/IMAPMessage.cpp
+++ b/src/vmime/net/imap/IMAPMessage.cpp
@@ -327,7 +327,11 @@ size_t IMAPMessage::extractImpl(
 	if (!folder->isOpen()) {
 		throw exceptions::illegal_state("Folder not open");
 	}
-	
+
+	if (m_expunged) {
+		throw exceptions::message_not_found();
+	}
+
 	IMAPMessage_literalHandler literalHandler(os, progress);
 
 	if (length == 0) {
@@ -666,6 +670,10 @@ void IMAPMessage::setFlags(const int flags, const int mode) {
 		throw exceptions::folder_not_found();
 	}
 
+	if (m_expunged) {
+		throw exceptions::message_not_found();
+	}
+
 	if (!m_uid.empty()) {
 		folder->setMessageFlags(messageSet::byUID(m_uid), flags, mode);
 	} else {
-- 
2.43.0


From 784829ff5b97d2bfc56dd33d0121ec11a96f45d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:05 +0000
Subject: [PATCH 175/227] fix: do not ignore what the IMAP server announces,
 nor take another mailbox for the folder

---
 src/vmime/net/imap/IMAPFolder.cpp  | 37 +++++++++++++++++++++++++++---
 src/vmime/net/imap/IMAPFolder.hpp  |  7 ++++++
 src/vmime/net/imap/IMAPMessage.cpp |  9 ++++----
 3 files changed, 45 insertions(+), 8 deletions(-)

diff --git a/src/vmime/net/imap/IMAPFolder.cpp b/src/vmime/net/imap/IMAPFolder.cpp
index 136d930..f89e32e 100644
--- a/src/vmime/net/imap/IMAPFolder.cpp
+++ b/src/vmime/net/imap/IMAPFolder.cpp
@@ -481,6 +481,26 @@ bool IMAPFolder::exists() {
 }
 
 
+bool IMAPFolder::isSameMailbox(const IMAPParser::mailbox_list& list) const {
+
+	const string& name = list.mailbox->name;
+
+	if (name == IMAPUtils::pathToString(m_connection->hierarchySeparator(), m_path)) {
+		return true;
+	}
+
+	// "INBOX" is case-insensitive
+	if (m_path.getSize() == 1 &&
+	    utility::stringUtils::isStringEqualNoCase(m_path[0].getBuffer(), "inbox") &&
+	    utility::stringUtils::isStringEqualNoCase(name, "inbox")) {
+
+		return true;
+	}
+
+	return IMAPUtils::stringToPath(list.quoted_char, name) == m_path;
+}
+
+
 int IMAPFolder::testExistAndGetType() {
 
 	// To test whether a folder exists, we simple list it using
@@ -534,8 +554,10 @@ int IMAPFolder::testExistAndGetType() {
 		auto *mailboxData = (*it)->response_data->mailbox_data.get();
 
 		// We are only interested in responses of type "LIST"
+		// ...and about this folder (its name may contain wildcards)
 		if (mailboxData &&
-		    mailboxData->type == IMAPParser::mailbox_data::LIST) {
+		    mailboxData->type == IMAPParser::mailbox_data::LIST &&
+		    isSameMailbox(*mailboxData->mailbox_list)) {
 
 			// Get the folder type/flags at the same time
 			IMAPUtils::mailboxFlagsToFolderAttributes(
@@ -547,6 +569,8 @@ int IMAPFolder::testExistAndGetType() {
 		}
 	}
 
+	processStatusUpdate(resp.get());
+
 	m_attribs = make_shared <folderAttributes>(attribs);
 
 	return m_attribs->getType();
@@ -646,6 +670,8 @@ std::vector <shared_ptr <message> > IMAPFolder::getMessages(const messageSet& ms
 		}
 	}
 
+	processStatusUpdate(resp.get());
+
 	return messages;
 }
 
@@ -761,7 +787,7 @@ std::vector <shared_ptr <folder> > IMAPFolder::getFolders(const bool recursive)
 			mailboxData->mailbox_list->quoted_char, mailbox->name
 		);
 
-		if (recursive || m_path.isDirectParentOf(path)) {
+		if (recursive ? m_path.isParentOf(path) : m_path.isDirectParentOf(path)) {
 
 			// Append folder to list
 			shared_ptr <folderAttributes> attribs = make_shared <folderAttributes>();
@@ -777,6 +803,8 @@ std::vector <shared_ptr <folder> > IMAPFolder::getFolders(const bool recursive)
 		}
 	}
 
+	processStatusUpdate(resp.get());
+
 	return v;
 }
 
@@ -1423,6 +1451,8 @@ shared_ptr <folderStatus> IMAPFolder::getStatus() {
 					m_status->updateFromResponse(*responseData->mailbox_data);
 				}
 
+				processStatusUpdate(resp.get());
+
 				return status;
 			}
 		}
@@ -1662,7 +1692,8 @@ void IMAPFolder::processStatusUpdate(const IMAPParser::response* resp) {
 			}
 
 			// Update folder attributes, if available
-			if ((*it)->response_data->mailbox_data->type == IMAPParser::mailbox_data::LIST) {
+			if ((*it)->response_data->mailbox_data->type == IMAPParser::mailbox_data::LIST &&
+			    isSameMailbox(*(*it)->response_data->mailbox_data->mailbox_list)) {
 
 				folderAttributes attribs;
 				IMAPUtils::mailboxFlagsToFolderAttributes(
diff --git a/src/vmime/net/imap/IMAPFolder.hpp b/src/vmime/net/imap/IMAPFolder.hpp
index ef54719..940db27 100644
--- a/src/vmime/net/imap/IMAPFolder.hpp
+++ b/src/vmime/net/imap/IMAPFolder.hpp
@@ -217,6 +217,13 @@ private:
 
 	int testExistAndGetType();
 
+	/** Tests whether an item of a LIST response is about this folder.
+	  *
+	  * @param list item of the response
+	  * @return true if the item has the name of this folder, false otherwise
+	  */
+	bool isSameMailbox(const IMAPParser::mailbox_list& list) const;
+
 	void setMessageFlagsImpl(const string& set, const int flags, const int mode);
 
 	void copyMessagesImpl(const string& set, const folder::path& dest);
diff --git a/src/vmime/net/imap/IMAPMessage.cpp b/src/vmime/net/imap/IMAPMessage.cpp
index 2e53c62..65488b0 100644
--- a/src/vmime/net/imap/IMAPMessage.cpp
+++ b/src/vmime/net/imap/IMAPMessage.cpp
@@ -318,12 +318,12 @@ size_t IMAPMessage::extractImpl(
 	const int extractFlags
 ) const {
 
-	shared_ptr <const IMAPFolder> folder = m_folder.lock();
+	shared_ptr <IMAPFolder> folder = m_folder.lock();
 
 	if (!folder) {
 		throw exceptions::folder_not_found();
 	}
-	
+
 	if (!folder->isOpen()) {
 		throw exceptions::illegal_state("Folder not open");
 	}
@@ -481,9 +481,8 @@ size_t IMAPMessage::extractImpl(
 	}
 
 
-	if (extractFlags & EXTRACT_BODY) {
-		// TODO: update the flags (eg. flag "\Seen" may have been set)
-	}
+	// Update the flags (eg. flag "\Seen" may have been set), if available
+	folder->processStatusUpdate(resp.get());
 
 	return literalHandler.getTarget()->getBytesWritten();
 }
-- 
2.43.0


From 87b3d751a5c985a6134afc9256653c7d60805228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:52 +0000
Subject: [PATCH 176/227] fix: do not lose what the IMAP server announces when
 it refuses a command

---
 src/vmime/net/imap/IMAPFolder.cpp  | 21 ++++++++++++++++++++-
 src/vmime/net/imap/IMAPMessage.cpp |  1 +
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/vmime/net/imap/IMAPFolder.cpp b/src/vmime/net/imap/IMAPFolder.cpp
index f89e32e..2d2063e 100644
--- a/src/vmime/net/imap/IMAPFolder.cpp
+++ b/src/vmime/net/imap/IMAPFolder.cpp
@@ -415,6 +415,7 @@ void IMAPFolder::create(const folderAttributes& attribs) {
 	if (resp->isBad() || resp->response_done->response_tagged->
 			resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
 
+		processStatusUpdate(resp.get());
 		throw exceptions::command_error("CREATE", resp->getErrorLog(), "bad response");
 	}
 
@@ -454,6 +455,7 @@ void IMAPFolder::destroy() {
 	if (resp->isBad() || resp->response_done->response_tagged->
 			resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
 
+		processStatusUpdate(resp.get());
 		throw exceptions::command_error("DELETE", resp->getErrorLog(), "bad response");
 	}
 
@@ -536,6 +538,7 @@ int IMAPFolder::testExistAndGetType() {
 	if (resp->isBad() || resp->response_done->response_tagged->
 			resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
 
+		processStatusUpdate(resp.get());
 		throw exceptions::command_error("LIST", resp->getErrorLog(), "bad response");
 	}
 
@@ -633,6 +636,7 @@ std::vector <shared_ptr <message> > IMAPFolder::getMessages(const messageSet& ms
 	if (resp->isBad() || resp->response_done->response_tagged->
 			resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
 
+		processStatusUpdate(resp.get());
 		throw exceptions::command_error("UID FETCH ... UID", resp->getErrorLog(), "bad response");
 	}
 
@@ -761,6 +765,7 @@ std::vector <shared_ptr <folder> > IMAPFolder::getFolders(const bool recursive)
 	if (resp->isBad() || resp->response_done->response_tagged->
 			resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
 
+		processStatusUpdate(resp.get());
 		throw exceptions::command_error("LIST", resp->getErrorLog(), "bad response");
 	}
 
@@ -854,6 +859,7 @@ void IMAPFolder::fetchMessages(
 	if (resp->isBad() || resp->response_done->response_tagged->
 		resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
 
+		processStatusUpdate(resp.get());
 		throw exceptions::command_error("FETCH", resp->getErrorLog(), "bad response");
 	}
 
@@ -952,6 +958,7 @@ std::vector <shared_ptr <message> > IMAPFolder::getAndFetchMessages(
 	if (resp->isBad() || resp->response_done->response_tagged->
 		resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
 
+		processStatusUpdate(resp.get());
 		throw exceptions::command_error("FETCH", resp->getErrorLog(), "bad response");
 	}
 
@@ -1090,6 +1097,7 @@ void IMAPFolder::deleteMessages(const messageSet& msgs) {
 	if (resp->isBad() || resp->response_done->response_tagged->
 		resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
 
+		processStatusUpdate(resp.get());
 		throw exceptions::command_error("STORE", resp->getErrorLog(), "bad response");
 	}
 
@@ -1116,6 +1124,7 @@ void IMAPFolder::setMessageFlags(
 		if (resp->isBad() || resp->response_done->response_tagged->
 			resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
 
+			processStatusUpdate(resp.get());
 			throw exceptions::command_error("STORE", resp->getErrorLog(), "bad response");
 		}
 
@@ -1181,6 +1190,7 @@ messageSet IMAPFolder::addMessage(
 	}
 
 	if (!ok) {
+		processStatusUpdate(resp.get());
 		throw exceptions::command_error("APPEND", resp->getErrorLog(), "bad response");
 	}
 
@@ -1233,7 +1243,8 @@ messageSet IMAPFolder::addMessage(
 	if (finalResp->isBad() || finalResp->response_done->response_tagged->
 			resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
 
-		throw exceptions::command_error("APPEND", resp->getErrorLog(), "bad response");
+		processStatusUpdate(finalResp.get());
+		throw exceptions::command_error("APPEND", finalResp->getErrorLog(), "bad response");
 	}
 
 	processStatusUpdate(finalResp.get());
@@ -1270,6 +1281,7 @@ void IMAPFolder::expunge() {
 	if (resp->isBad() || resp->response_done->response_tagged->
 		resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
 
+		processStatusUpdate(resp.get());
 		throw exceptions::command_error("EXPUNGE", resp->getErrorLog(), "bad response");
 	}
 
@@ -1303,6 +1315,7 @@ void IMAPFolder::rename(const folder::path& newPath) {
 	if (resp->isBad() || resp->response_done->response_tagged->
 		resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
 
+		processStatusUpdate(resp.get());
 		throw exceptions::command_error("RENAME", resp->getErrorLog(), "bad response");
 	}
 
@@ -1369,6 +1382,7 @@ messageSet IMAPFolder::copyMessages(const folder::path& dest, const messageSet&
 	if (resp->isBad() || resp->response_done->response_tagged->
 		resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
 
+		processStatusUpdate(resp.get());
 		throw exceptions::command_error("COPY", resp->getErrorLog(), "bad response");
 	}
 
@@ -1429,6 +1443,7 @@ shared_ptr <folderStatus> IMAPFolder::getStatus() {
 	if (resp->isBad() || resp->response_done->response_tagged->
 			resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
 
+		processStatusUpdate(resp.get());
 		throw exceptions::command_error("STATUS", resp->getErrorLog(), "bad response");
 	}
 
@@ -1481,6 +1496,7 @@ void IMAPFolder::noop() {
 	if (resp->isBad() || resp->response_done->response_tagged->
 			resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
 
+		processStatusUpdate(resp.get());
 		throw exceptions::command_error("NOOP", resp->getErrorLog());
 	}
 
@@ -1506,6 +1522,7 @@ std::vector <size_t> IMAPFolder::getMessageNumbersStartingOnUID(const message::u
 	if (resp->isBad() ||
 	    resp->response_done->response_tagged->resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
 
+		processStatusUpdate(resp.get());
 		throw exceptions::command_error("SEARCH", resp->getErrorLog(), "bad response");
 	}
 
@@ -1554,6 +1571,7 @@ std::vector <size_t> IMAPFolder::getMessageNumbersMatchingSearchAttributes(
 	if (resp->isBad() ||
 		resp->response_done->response_tagged->resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
 
+		processStatusUpdate(resp.get());
 		throw exceptions::command_error("SEARCH", resp->getErrorLog(), "bad response");
 	}
 
@@ -1602,6 +1620,7 @@ std::vector <message::uid> IMAPFolder::getMessageUIDsMatchingSearchAttributes(
 	if (resp->isBad() ||
 		resp->response_done->response_tagged->resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
 
+		processStatusUpdate(resp.get());
 		throw exceptions::command_error("UIDSEARCH", resp->getErrorLog(), "bad response");
 	}
 
diff --git a/src/vmime/net/imap/IMAPMessage.cpp b/src/vmime/net/imap/IMAPMessage.cpp
index 65488b0..69ee1d6 100644
--- a/src/vmime/net/imap/IMAPMessage.cpp
+++ b/src/vmime/net/imap/IMAPMessage.cpp
@@ -477,6 +477,7 @@ size_t IMAPMessage::extractImpl(
 	if (resp->isBad() || resp->response_done->response_tagged->
 		resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
 
+		folder->processStatusUpdate(resp.get());
 		throw exceptions::command_error("FETCH", resp->getErrorLog(), "bad response");
 	}
 
-- 
2.43.0


From aadd52631b63921247128dfdf4192e881f85c13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:52 +0000
Subject: [PATCH 177/227] fix: do not return messages which were not asked for,
 nor with a wrong number, from an IMAP folder

---
 src/vmime/net/imap/IMAPFolder.cpp | 39 ++++++++++++++++++++++++++++---
 1 file changed, 36 insertions(+), 3 deletions(-)

diff --git a/src/vmime/net/imap/IMAPFolder.cpp b/src/vmime/net/imap/IMAPFolder.cpp
index 2d2063e..5e50896 100644
--- a/src/vmime/net/imap/IMAPFolder.cpp
+++ b/src/vmime/net/imap/IMAPFolder.cpp
@@ -44,6 +44,7 @@
 #include "vmime/utility/outputStreamAdapter.hpp"
 
 #include <algorithm>
+#include <set>
 #include <sstream>
 
 
@@ -52,6 +53,30 @@ namespace net {
 namespace imap {
 
 
+// Returns the number that the message of a FETCH response had before the
+// response was received (ie. before the messages were renumbered because
+// of the EXPUNGE responses which precede).
+static size_t numberBeforeResponse(const IMAPParser::response& resp, size_t pos) {
+
+	auto& respDataList = resp.continue_req_or_response_data;
+	size_t number = respDataList[pos]->response_data->message_data->number;
+
+	while (pos-- > 0) {
+
+		auto* respData = respDataList[pos]->response_data.get();
+
+		if (respData && respData->message_data &&
+		    respData->message_data->type == IMAPParser::message_data::EXPUNGE &&
+		    respData->message_data->number <= number) {
+
+			++number;
+		}
+	}
+
+	return number;
+}
+
+
 IMAPFolder::IMAPFolder(
 	const folder::path& path,
 	const shared_ptr <IMAPStore>& store,
@@ -610,6 +635,7 @@ std::vector <shared_ptr <message> > IMAPFolder::getMessages(const messageSet& ms
 	}
 
 	std::vector <shared_ptr <message> > messages;
+	std::set <string> uids;
 
 	// Sequence number message set:
 	//     C: . FETCH uuuu1,uuuu2,uuuu3 UID
@@ -657,7 +683,7 @@ std::vector <shared_ptr <message> > IMAPFolder::getMessages(const messageSet& ms
 		}
 
 		// Find UID in message attributes
-		const size_t msgNum = messageData->number;
+		const size_t msgNum = numberBeforeResponse(*resp, it - respDataList.begin());
 		message::uid msgUID;
 
 		for (auto &att : messageData->msg_att->items) {
@@ -668,7 +694,7 @@ std::vector <shared_ptr <message> > IMAPFolder::getMessages(const messageSet& ms
 			}
 		}
 
-		if (!msgUID.empty()) {
+		if (!msgUID.empty() && uids.insert(msgUID).second) {
 			shared_ptr <IMAPFolder> thisFolder = dynamicCast <IMAPFolder>(shared_from_this());
 			messages.push_back(make_shared <IMAPMessage>(thisFolder, msgNum, msgUID));
 		}
@@ -965,6 +991,7 @@ std::vector <shared_ptr <message> > IMAPFolder::getAndFetchMessages(
 	auto &respDataList = resp->continue_req_or_response_data;
 
 	std::vector <shared_ptr <message> > messages;
+	std::set <string> uids;
 
 	for (auto it = respDataList.begin() ; it != respDataList.end() ; ++it) {
 
@@ -980,7 +1007,7 @@ std::vector <shared_ptr <message> > IMAPFolder::getAndFetchMessages(
 		}
 
 		// Get message number
-		const size_t msgNum = messageData->number;
+		const size_t msgNum = numberBeforeResponse(*resp, it - respDataList.begin());
 
 		// Get message UID
 		message::uid msgUID;
@@ -993,6 +1020,12 @@ std::vector <shared_ptr <message> > IMAPFolder::getAndFetchMessages(
 			}
 		}
 
+		// A response without UID was not requested, and is
+		// only an update for a message which we already know of
+		if (msgUID.empty() || !uids.insert(msgUID).second) {
+			continue;
+		}
+
 		// Create a new message reference
 		shared_ptr <IMAPFolder> thisFolder = dynamicCast <IMAPFolder>(shared_from_this());
 		shared_ptr <IMAPMessage> msg = make_shared <IMAPMessage>(thisFolder, msgNum, msgUID);
-- 
2.43.0


From 8b0b7910c02300a55ff0a8fbf0d86be476c5d9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:52 +0000
Subject: [PATCH 178/227] fix: allow opening an IMAP folder when another object
 for the same folder exists, but is not open

---
 src/vmime/net/imap/IMAPFolder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/net/imap/IMAPFolder.cpp b/src/vmime/net/imap/IMAPFolder.cpp
index 5e50896..f626dad 100644
--- a/src/vmime/net/imap/IMAPFolder.cpp
+++ b/src/vmime/net/imap/IMAPFolder.cpp
@@ -183,7 +183,7 @@ void IMAPFolder::open(const int mode, bool failIfModeIsNotAvailable) {
 	for (std::list <IMAPFolder*>::iterator it = store->m_folders.begin() ;
 	     it != store->m_folders.end() ; ++it) {
 
-		if ((*it) != this && (*it)->getFullPath() == m_path) {
+		if ((*it)->isOpen() && (*it)->getFullPath() == m_path) {
 			throw exceptions::folder_already_open();
 		}
 	}
-- 
2.43.0


From db4e0010c9d5c7922cc336659fbd2bc4dedcd2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:52 +0000
Subject: [PATCH 179/227] fix: do not take the message flags of an IMAP folder
 for the attributes of the mailbox

---
 src/vmime/net/imap/IMAPFolder.cpp | 31 ++++++-------------------------
 1 file changed, 6 insertions(+), 25 deletions(-)

diff --git a/src/vmime/net/imap/IMAPFolder.cpp b/src/vmime/net/imap/IMAPFolder.cpp
index f626dad..0a4ed35 100644
--- a/src/vmime/net/imap/IMAPFolder.cpp
+++ b/src/vmime/net/imap/IMAPFolder.cpp
@@ -209,7 +209,7 @@ void IMAPFolder::open(const int mode, bool failIfModeIsNotAvailable) {
 
 		std::vector <string> selectParams;
 
-		if (m_connection->hasCapability("CONDSTORE")) {
+		if (connection->hasCapability("CONDSTORE")) {
 			selectParams.push_back("CONDSTORE");
 		}
 
@@ -257,33 +257,14 @@ void IMAPFolder::open(const int mode, bool failIfModeIsNotAvailable) {
 							break;
 					}
 				}
-
-			// Untagged responses: FLAGS, EXISTS, RECENT (required)
-			} else if (responseData->mailbox_data) {
-
-				switch (responseData->mailbox_data->type) {
-
-					default: break;
-
-					case IMAPParser::mailbox_data::FLAGS: {
-
-						if (!m_attribs) {
-							m_attribs = make_shared <folderAttributes>();
-						}
-
-						IMAPUtils::mailboxFlagsToFolderAttributes(
-							connection,
-							m_path,
-							*responseData->mailbox_data->mailbox_flag_list,
-							*m_attribs
-						);
-
-						break;
-					}
-				}
 			}
 		}
 
+		// NOTE: the flags of the FLAGS response are those which can be
+		// set on messages, not the attributes of the mailbox
+
+		m_status = make_shared <IMAPFolderStatus>();
+
 		processStatusUpdate(resp.get());
 
 		// Check for access mode (read-only or read-write)
-- 
2.43.0


From 85745d0149aa9fdfc9003f7f89e8f9fc978ca9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:52 +0000
Subject: [PATCH 180/227] fix: open an IMAP folder read-only when this is how
 the server opened it

---
 src/vmime/net/imap/IMAPFolder.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/vmime/net/imap/IMAPFolder.cpp b/src/vmime/net/imap/IMAPFolder.cpp
index 0a4ed35..c129114 100644
--- a/src/vmime/net/imap/IMAPFolder.cpp
+++ b/src/vmime/net/imap/IMAPFolder.cpp
@@ -270,26 +270,28 @@ void IMAPFolder::open(const int mode, bool failIfModeIsNotAvailable) {
 		// Check for access mode (read-only or read-write)
 		auto *respTextCode = resp->response_done->response_tagged->resp_cond_state->resp_text->resp_text_code.get();
 
-		if (respTextCode) {
+		int openMode = mode;
 
-			const int openMode =
-				(respTextCode->type == IMAPParser::resp_text_code::READ_WRITE)
-					? MODE_READ_WRITE
-					: MODE_READ_ONLY;
+		if (respTextCode && respTextCode->type == IMAPParser::resp_text_code::READ_ONLY) {
 
-			if (failIfModeIsNotAvailable &&
-			    mode == MODE_READ_WRITE && openMode == MODE_READ_ONLY) {
+			openMode = MODE_READ_ONLY;
 
+			if (failIfModeIsNotAvailable && mode == MODE_READ_WRITE) {
 				throw exceptions::operation_not_supported();
 			}
 		}
 
 		m_connection = connection;
 		m_open = true;
-		m_mode = mode;
+		m_mode = openMode;
 
 	} catch (std::exception&) {
 
+		// Do not leave the connection open
+		if (connection->isConnected()) {
+			connection->disconnect();
+		}
+
 		throw;
 	}
 }
-- 
2.43.0


From b3ec8a221360d3d369c80cc907a415504381cbad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:52 +0000
Subject: [PATCH 181/227] fix: wait for the server to have expunged the
 messages when closing an IMAP folder

---
 src/vmime/net/imap/IMAPFolder.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/vmime/net/imap/IMAPFolder.cpp b/src/vmime/net/imap/IMAPFolder.cpp
index c129114..bbe8874 100644
--- a/src/vmime/net/imap/IMAPFolder.cpp
+++ b/src/vmime/net/imap/IMAPFolder.cpp
@@ -328,6 +328,15 @@ void IMAPFolder::close(const bool expunge) {
 		}
 
 		IMAPCommand::CLOSE()->send(oldConnection);
+
+		// Read the response
+		scoped_ptr <IMAPParser::response> resp(oldConnection->readResponse());
+
+		if (resp->isBad() || resp->response_done->response_tagged->
+				resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
+
+			throw exceptions::command_error("CLOSE", resp->getErrorLog(), "bad response");
+		}
 	}
 
 	// Close this folder connection
-- 
2.43.0


From 97011d6df62ecb20d80e7ef844220cc5cb73e852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:52 +0000
Subject: [PATCH 182/227] fix: give the right path to the sub-folders of a
 renamed IMAP folder

---
 src/vmime/net/imap/IMAPFolder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vmime/net/imap/IMAPFolder.cpp b/src/vmime/net/imap/IMAPFolder.cpp
index bbe8874..1979157 100644
--- a/src/vmime/net/imap/IMAPFolder.cpp
+++ b/src/vmime/net/imap/IMAPFolder.cpp
@@ -1366,7 +1366,7 @@ void IMAPFolder::rename(const folder::path& newPath) {
 
 		if ((*it) != this && oldPath.isParentOf((*it)->getFullPath())) {
 
-			folder::path oldPath((*it)->m_path);
+			const folder::path oldSubPath((*it)->m_path);
 
 			(*it)->m_path.renameParent(oldPath, newPath);
 
@@ -1374,7 +1374,7 @@ void IMAPFolder::rename(const folder::path& newPath) {
 				make_shared <events::folderEvent>(
 					dynamicCast <folder>((*it)->shared_from_this()),
 					events::folderEvent::TYPE_RENAMED,
-					oldPath, (*it)->m_path
+					oldSubPath, (*it)->m_path
 				);
 
 			(*it)->notifyFolder(event);
-- 
2.43.0


From 1989f3015bfffff26feade353a2f21830f04a7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:52 +0000
Subject: [PATCH 183/227] fix: do not return an older message from
 IMAPFolder::getMessageNumbersStartingOnUID()

---
 src/vmime/net/imap/IMAPFolder.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vmime/net/imap/IMAPFolder.cpp b/src/vmime/net/imap/IMAPFolder.cpp
index 1979157..0dd3ebe 100644
--- a/src/vmime/net/imap/IMAPFolder.cpp
+++ b/src/vmime/net/imap/IMAPFolder.cpp
@@ -1534,7 +1534,10 @@ std::vector <size_t> IMAPFolder::getMessageNumbersStartingOnUID(const message::u
 	// Send the request
 	std::ostringstream uidSearchKey;
 	uidSearchKey.imbue(std::locale::classic());
-	uidSearchKey << "UID " << uid << ":*";
+
+	// NOTE: "*" is the largest UID in use, and the order of the bounds does not
+	// matter: "UID n:*" always matches the last message, even if its UID is less than n
+	uidSearchKey << "UID " << uid << ":4294967295";
 
 	std::vector <string> searchKeys;
 	searchKeys.push_back(uidSearchKey.str());
-- 
2.43.0


From 9d7ced010ebe91326cb531b0cd1a774745440d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:52 +0000
Subject: [PATCH 184/227] fix: check that the IMAP folder is open before
 searching, or changing flags

---
 src/vmime/net/imap/IMAPFolder.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/vmime/net/imap/IMAPFolder.cpp b/src/vmime/net/imap/IMAPFolder.cpp
index 0dd3ebe..a7660ac 100644
--- a/src/vmime/net/imap/IMAPFolder.cpp
+++ b/src/vmime/net/imap/IMAPFolder.cpp
@@ -1136,6 +1136,10 @@ void IMAPFolder::setMessageFlags(
 	const int mode
 ) {
 
+	if (!isOpen()) {
+		throw exceptions::illegal_state("Folder not open");
+	}
+
 	const std::vector <string> flagList = IMAPUtils::messageFlagList(flags);
 
 	if ((mode == message::FLAG_MODE_SET) || !flagList.empty()) {
@@ -1531,6 +1535,10 @@ void IMAPFolder::noop() {
 
 std::vector <size_t> IMAPFolder::getMessageNumbersStartingOnUID(const message::uid& uid) {
 
+	if (!isOpen()) {
+		throw exceptions::illegal_state("Folder not open");
+	}
+
 	// Send the request
 	std::ostringstream uidSearchKey;
 	uidSearchKey.imbue(std::locale::classic());
@@ -1589,6 +1597,10 @@ std::vector <size_t> IMAPFolder::getMessageNumbersMatchingSearchAttributes(
 	const vmime::charset* charset
 ) {
 
+	if (!isOpen()) {
+		throw exceptions::illegal_state("Folder not open");
+	}
+
 	auto searchKeys = sa.generate();
 
 	IMAPCommand::SEARCH(searchKeys, charset)->send(m_connection);
@@ -1638,6 +1650,10 @@ std::vector <message::uid> IMAPFolder::getMessageUIDsMatchingSearchAttributes(
 	const vmime::charset* charset
 ) {
 
+	if (!isOpen()) {
+		throw exceptions::illegal_state("Folder not open");
+	}
+
 	auto searchKeys = sa.generate();
 
 	IMAPCommand::UIDSEARCH(searchKeys, charset)->send(m_connection);
-- 
2.43.0


From aa0931ba52af30cf276c25b209942ea63362a3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:52 +0000
Subject: [PATCH 185/227] fix: do not duplicate the header fields fetched from
 an IMAP server

---
 src/vmime/net/imap/IMAPMessage.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vmime/net/imap/IMAPMessage.cpp b/src/vmime/net/imap/IMAPMessage.cpp
index 69ee1d6..0e36eaf 100644
--- a/src/vmime/net/imap/IMAPMessage.cpp
+++ b/src/vmime/net/imap/IMAPMessage.cpp
@@ -629,6 +629,11 @@ int IMAPMessage::processFetchResponse(
 
 						vmime::header& hdr = *getOrCreateHeader();
 
+						// These fields may have been fetched before
+						for (auto& fld : tempHeader.getFieldList()) {
+							hdr.removeAllFields(fld->getName());
+						}
+
 						for (auto& fld : tempHeader.getFieldList()) {
 							hdr.appendField(vmime::clone(fld));
 						}
-- 
2.43.0


From 4c921ba2651a409459c6d28c92140d3c98f67466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:52 +0000
Subject: [PATCH 186/227] fix: keep all the message identifiers of the
 In-Reply-To field of an IMAP envelope

---
 src/vmime/net/imap/IMAPMessage.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/vmime/net/imap/IMAPMessage.cpp b/src/vmime/net/imap/IMAPMessage.cpp
index 0e36eaf..aa57e3e 100644
--- a/src/vmime/net/imap/IMAPMessage.cpp
+++ b/src/vmime/net/imap/IMAPMessage.cpp
@@ -592,9 +592,8 @@ int IMAPMessage::processFetchResponse(
 
 					// In-Reply-To
 					if (!env->env_in_reply_to->isNIL) {
-						shared_ptr <messageId> mid = make_shared <messageId>(env->env_in_reply_to->value);
 						messageIdSequence sequence;
-						sequence.appendMessageId(mid);
+						sequence.parse(env->env_in_reply_to->value);
 						hdr->InReplyTo()->setValue(sequence);
 					}
 				}
-- 
2.43.0


From 42f36dccc30f79b112112738b20e13470a39b4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:52 +0000
Subject: [PATCH 187/227] fix: do not take the start or the end of a group for
 an address in an IMAP envelope

---
 src/vmime/net/imap/IMAPUtils.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vmime/net/imap/IMAPUtils.cpp b/src/vmime/net/imap/IMAPUtils.cpp
index 80e8487..5ee53e4 100644
--- a/src/vmime/net/imap/IMAPUtils.cpp
+++ b/src/vmime/net/imap/IMAPUtils.cpp
@@ -728,6 +728,11 @@ void IMAPUtils::convertAddressList(
 
 	for (auto& addr : src.addresses) {
 
+		// Start or end of a group: this is not an address
+		if (addr->addr_host->isNIL) {
+			continue;
+		}
+
 		text name;
 		text::decodeAndUnfold(addr->addr_name->value, &name);
 
-- 
2.43.0


From d3f95e04ca2a592e99137afc7af3a8ca566dc98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:52 +0000
Subject: [PATCH 188/227] fix: do not give the header of an IMAP part as part
 of its contents

---
 src/vmime/net/imap/IMAPMessagePartContentHandler.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/vmime/net/imap/IMAPMessagePartContentHandler.cpp b/src/vmime/net/imap/IMAPMessagePartContentHandler.cpp
index 040d2ab..07484b3 100644
--- a/src/vmime/net/imap/IMAPMessagePartContentHandler.cpp
+++ b/src/vmime/net/imap/IMAPMessagePartContentHandler.cpp
@@ -86,7 +86,7 @@ void IMAPMessagePartContentHandler::generate(
 			std::ostringstream oss;
 			utility::outputStreamAdapter tmp(oss);
 
-			msg->extractPart(part, tmp, NULL);
+			msg->extractImpl(part, tmp, NULL, 0, -1, IMAPMessage::EXTRACT_BODY);
 
 			// Decode to another temporary buffer
 			utility::inputStreamStringAdapter in(oss.str());
@@ -110,7 +110,7 @@ void IMAPMessagePartContentHandler::generate(
 		// No encoding to perform
 		} else {
 
-			msg->extractPart(part, os);
+			msg->extractImpl(part, os, NULL, 0, -1, IMAPMessage::EXTRACT_BODY);
 		}
 
 	// Need to encode data before
@@ -120,7 +120,7 @@ void IMAPMessagePartContentHandler::generate(
 		std::ostringstream oss;
 		utility::outputStreamAdapter tmp(oss);
 
-		msg->extractPart(part, tmp, NULL);
+		msg->extractImpl(part, tmp, NULL, 0, -1, IMAPMessage::EXTRACT_BODY);
 
 		// Encode temporary buffer to output stream
 		shared_ptr <utility::encoder::encoder> theEncoder = enc.getEncoder();
@@ -180,7 +180,7 @@ void IMAPMessagePartContentHandler::extractRaw(
 	if (!msg || !part)
 		throw exceptions::message_not_found();
 
-	msg->extractPart(part, os, progress);
+	msg->extractImpl(part, os, progress, 0, -1, IMAPMessage::EXTRACT_BODY);
 }
 
 
-- 
2.43.0


From c49c2eb0e7ccd9bd8f7073748d5e0a81cc059e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:52 +0000
Subject: [PATCH 189/227] fix: give the size and the name of the message parts
 of an IMAP structure

---
 src/vmime/net/imap/IMAPMessagePart.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/vmime/net/imap/IMAPMessagePart.cpp b/src/vmime/net/imap/IMAPMessagePart.cpp
index ed2c0bd..3f7e37a 100644
--- a/src/vmime/net/imap/IMAPMessagePart.cpp
+++ b/src/vmime/net/imap/IMAPMessagePart.cpp
@@ -57,7 +57,7 @@ namespace {
 	vmime::string getPartName(const T& body_type) {
 		if (const auto* pparam = body_type->body_fields->body_fld_param.get()) {
 			for (const auto& param : pparam->items) {
-				if (param->string1->value == "NAME") {
+				if (utility::stringUtils::isStringEqualNoCase(param->string1->value, "name")) {
 					return param->string2->value;
 				}
 			}
@@ -96,6 +96,10 @@ IMAPMessagePart::IMAPMessagePart(
 			part->body_type_msg->media_message->media_subtype->value
 		);
 
+		m_size = part->body_type_msg->body_fields->body_fld_octets->value;
+
+		m_name = getPartName(part->body_type_msg);
+
 	} else {
 
 		m_mediaType = vmime::mediaType(
-- 
2.43.0


From 0caf5cb32cb10730efac9e7c25f095be184e36e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:52 +0000
Subject: [PATCH 190/227] fix: escape the strings searched for in an IMAP
 folder

---
 src/vmime/net/imap/IMAPSearchAttributes.cpp | 29 +++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/vmime/net/imap/IMAPSearchAttributes.cpp b/src/vmime/net/imap/IMAPSearchAttributes.cpp
index 025bef7..3e692b1 100644
--- a/src/vmime/net/imap/IMAPSearchAttributes.cpp
+++ b/src/vmime/net/imap/IMAPSearchAttributes.cpp
@@ -51,6 +51,29 @@ protected:
 };
 
 
+// Writes a quoted string
+static void quoted(std::ostringstream& out, const string& str) {
+
+	out << '"';
+
+	for (const char c : str) {
+
+		// These characters cannot be sent in a quoted string
+		if (c == '\r' || c == '\n' || c == '\0') {
+			throw exceptions::invalid_argument();
+		}
+
+		if (c == '"' || c == '\\') {
+			out << '\\';
+		}
+
+		out << c;
+	}
+
+	out << '"';
+}
+
+
 // Represents a string search token with the search string quoted
 class stringToken : public typedSearchToken <string> {
 
@@ -63,7 +86,8 @@ public:
 
 	void generate(std::ostringstream& out) const override {
 
-		out << m_token << " \"" << m_keyword << "\"";
+		out << m_token << " ";
+		quoted(out, m_keyword);
 	};
 };
 
@@ -85,7 +109,8 @@ public:
 
 	void generate(std::ostringstream& out) const override {
 
-		out << m_token << " " << m_keyword << " \"" << m_headerKeyword << "\"";
+		out << m_token << " " << m_keyword << " ";
+		quoted(out, m_headerKeyword);
 	};
 
 protected:
-- 
2.43.0


From 662b96d551bf839f54bbfefd36951d0e4ab6cccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:52 +0000
Subject: [PATCH 191/227] fix: do not search for negative sizes in an IMAP
 folder

---
 src/vmime/net/imap/IMAPSearchAttributes.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/net/imap/IMAPSearchAttributes.cpp b/src/vmime/net/imap/IMAPSearchAttributes.cpp
index 3e692b1..b426419 100644
--- a/src/vmime/net/imap/IMAPSearchAttributes.cpp
+++ b/src/vmime/net/imap/IMAPSearchAttributes.cpp
@@ -136,7 +136,7 @@ public:
 };
 
 
-class numberToken : public typedSearchToken< int > {
+class numberToken : public typedSearchToken <uint32_t> {
 
 public:
 
-- 
2.43.0


From 1a75077116768be8aafe81dfe6034612992771b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:52 +0000
Subject: [PATCH 192/227] fix: search for the flags of IMAP messages, not for
 keywords which have the same name

---
 src/vmime/net/imap/IMAPSearchAttributes.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/vmime/net/imap/IMAPSearchAttributes.cpp b/src/vmime/net/imap/IMAPSearchAttributes.cpp
index b426419..354451a 100644
--- a/src/vmime/net/imap/IMAPSearchAttributes.cpp
+++ b/src/vmime/net/imap/IMAPSearchAttributes.cpp
@@ -163,14 +163,15 @@ public:
 
 	void generate(std::ostringstream& out) const override {
 
-		out << m_token << " ";
+		// System flags are not keywords: they have their own search keys
+		out << m_token;
 
 		switch (m_keyword) {
-			case vmime::net::message::Flags::FLAG_SEEN: out << "Seen"; break;
-			case vmime::net::message::Flags::FLAG_REPLIED: out << "Answered"; break;
-			case vmime::net::message::Flags::FLAG_MARKED: out << "Flagged"; break;
-			case vmime::net::message::Flags::FLAG_DRAFT: out << "Draft"; break;
-			case vmime::net::message::Flags::FLAG_DELETED: out << "Deleted"; break;
+			case vmime::net::message::Flags::FLAG_SEEN: out << "SEEN"; break;
+			case vmime::net::message::Flags::FLAG_REPLIED: out << "ANSWERED"; break;
+			case vmime::net::message::Flags::FLAG_MARKED: out << "FLAGGED"; break;
+			case vmime::net::message::Flags::FLAG_DRAFT: out << "DRAFT"; break;
+			case vmime::net::message::Flags::FLAG_DELETED: out << "DELETED"; break;
 			default: throw exceptions::operation_not_supported();
 		}
 	};
@@ -401,7 +402,7 @@ IMAPSearchTokenPtr IMAPSearchTokenFactory::HEADER(const char* fieldName, const s
 
 IMAPSearchTokenPtr IMAPSearchTokenFactory::KEYWORD(vmime::net::message::Flags flag) {
 
-	return vmime::make_shared <helpers::flagToken>("KEYWORD", flag);
+	return vmime::make_shared <helpers::flagToken>("", flag);
 }
 
 
@@ -551,7 +552,7 @@ IMAPSearchTokenPtr IMAPSearchTokenFactory::UNFLAGGED() {
 
 IMAPSearchTokenPtr IMAPSearchTokenFactory::UNKEYWORD(vmime::net::message::Flags flag) {
 
-	return vmime::make_shared <helpers::flagToken>("UNKEYWORD", flag);
+	return vmime::make_shared <helpers::flagToken>("UN", flag);
 }
 
 
-- 
2.43.0


From 9e53744f06ab0d7231b31b5484f64832e61b61d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:52 +0000
Subject: [PATCH 193/227] fix: do not report that an IMAP message which does
 not exist any more is empty

---
 src/vmime/net/imap/IMAPMessage.cpp | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/vmime/net/imap/IMAPMessage.cpp b/src/vmime/net/imap/IMAPMessage.cpp
index aa57e3e..4fbffd6 100644
--- a/src/vmime/net/imap/IMAPMessage.cpp
+++ b/src/vmime/net/imap/IMAPMessage.cpp
@@ -482,9 +482,32 @@ size_t IMAPMessage::extractImpl(
 	}
 
 
+	// A server ignores the UIDs which do not exist
+	bool found = false;
+
+	for (auto &respData : resp->continue_req_or_response_data) {
+
+		if (!respData->response_data || !respData->response_data->message_data ||
+		    respData->response_data->message_data->type != IMAPParser::message_data::FETCH) {
+
+			continue;
+		}
+
+		for (auto &att : respData->response_data->message_data->msg_att->items) {
+
+			if (att->type == IMAPParser::msg_att_item::BODY_SECTION) {
+				found = true;
+			}
+		}
+	}
+
 	// Update the flags (eg. flag "\Seen" may have been set), if available
 	folder->processStatusUpdate(resp.get());
 
+	if (!found) {
+		throw exceptions::message_not_found();
+	}
+
 	return literalHandler.getTarget()->getBytesWritten();
 }
 
-- 
2.43.0


From dc0cefec84df1898b436cc8ec1980f04dc1d64a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:52 +0000
Subject: [PATCH 194/227] fix: do not crash when the IMAP server closes the
 connection instead of giving its capabilities

---
 src/vmime/net/imap/IMAPConnection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/net/imap/IMAPConnection.cpp b/src/vmime/net/imap/IMAPConnection.cpp
index d58cf9e..2d515ed 100644
--- a/src/vmime/net/imap/IMAPConnection.cpp
+++ b/src/vmime/net/imap/IMAPConnection.cpp
@@ -705,7 +705,7 @@ void IMAPConnection::fetchCapabilities() {
 
 	scoped_ptr <IMAPParser::response> resp(m_parser->readResponse(*m_tag));
 
-	if (resp->response_done->response_tagged->
+	if (!resp->isBad() && resp->response_done->response_tagged->
 			resp_cond_state->status == IMAPParser::resp_cond_state::OK) {
 
 		processCapabilityResponseData(resp.get());
-- 
2.43.0


From 9e96986e77456191aae4baa31269f3bd5e5d5219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:52 +0000
Subject: [PATCH 195/227] fix: close the socket of an IMAP connection even if
 the LOGOUT command cannot be sent

---
 src/vmime/net/imap/IMAPConnection.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/vmime/net/imap/IMAPConnection.cpp b/src/vmime/net/imap/IMAPConnection.cpp
index 2d515ed..e810902 100644
--- a/src/vmime/net/imap/IMAPConnection.cpp
+++ b/src/vmime/net/imap/IMAPConnection.cpp
@@ -793,7 +793,15 @@ void IMAPConnection::internalDisconnect() {
 
 	if (isConnected()) {
 
-		IMAPCommand::LOGOUT()->send(dynamicCast <IMAPConnection>(shared_from_this()));
+		try {
+
+			IMAPCommand::LOGOUT()->send(dynamicCast <IMAPConnection>(shared_from_this()));
+
+		} catch (std::exception&) {
+
+			// The connection may be lost already (or the
+			// object is being destroyed): close it anyway
+		}
 	}
 
 	if (m_socket) {
-- 
2.43.0


From 1bfeb3b469e32d1a4878e8fa4bf7e6b7d980dd0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:52 +0000
Subject: [PATCH 196/227] fix: encode the hierarchy separator and the
 characters out of the BMP in the names of IMAP folders

---
 src/vmime/net/imap/IMAPUtils.cpp | 56 ++++++++++++++------------------
 1 file changed, 25 insertions(+), 31 deletions(-)

diff --git a/src/vmime/net/imap/IMAPUtils.cpp b/src/vmime/net/imap/IMAPUtils.cpp
index 5ee53e4..ed7c37d 100644
--- a/src/vmime/net/imap/IMAPUtils.cpp
+++ b/src/vmime/net/imap/IMAPUtils.cpp
@@ -173,19 +173,12 @@ const string IMAPUtils::toModifiedUTF7(
 	const folder::path::component& text
 ) {
 
-	// We will replace the hierarchy separator with an equivalent
-	// UTF-7 sequence, so we compute it here...
 	const char base64alphabet[] =
 		"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+,=";
 
-	const unsigned int hs = static_cast <unsigned int>(static_cast <unsigned char>(hierarchySeparator));
-
-	string hsUTF7;
-	hsUTF7.resize(3);
-
-	hsUTF7[0] = base64alphabet[0];
-	hsUTF7[1] = base64alphabet[(hs & 0xF0) >> 4];
-	hsUTF7[2] = base64alphabet[(hs & 0x0F) << 2];
+	// The hierarchy separator will be replaced with an equivalent
+	// UTF-7 Base64 sequence
+	const int hs = static_cast <int>(static_cast <unsigned char>(hierarchySeparator));
 
 	// iconv() is buggy with UTF-8 to UTF-7 conversion, so we do it "by hand".
 	// This code is largely inspired from "imap/utf7.c", in mutt 1.4.
@@ -208,16 +201,6 @@ const string IMAPUtils::toModifiedUTF7(
 
 		const unsigned char c = cvt[i];
 
-		// Replace hierarchy separator with an equivalent UTF-7 Base64 sequence
-		if (!base64 && c == hierarchySeparator) {
-
-			out += "&" + hsUTF7 + "-";
-
-			++i;
-			--remaining;
-			continue;
-		}
-
 		size_t n = 0;
 		int ch = 0;
 
@@ -239,7 +222,7 @@ const string IMAPUtils::toModifiedUTF7(
 			return "";
 		}
 
-		if (n > remaining) {
+		if (n >= remaining) {
 			return "";  // error
 		}
 
@@ -262,7 +245,7 @@ const string IMAPUtils::toModifiedUTF7(
 		i += n;
 		remaining -= n;
 
-		if (ch < 0x20 || ch >= 0x7f) {
+		if (ch < 0x20 || ch >= 0x7f || ch == hs) {
 
 			if (!base64) {
 				out += '&';
@@ -271,20 +254,31 @@ const string IMAPUtils::toModifiedUTF7(
 				k = 10;
 			}
 
-			if (ch & ~0xffff) {
-				ch = 0xfffe;
+			// Characters which are not in the BMP are encoded using surrogate pairs
+			int units[2] = { ch, 0 };
+			size_t unitCount = 1;
+
+			if (ch > 0x10ffff) {
+				units[0] = 0xfffd;
+			} else if (ch & ~0xffff) {
+				units[0] = 0xd800 + ((ch - 0x10000) >> 10);
+				units[1] = 0xdc00 + ((ch - 0x10000) & 0x3ff);
+				unitCount = 2;
 			}
 
-			out += base64alphabet[b | ch >> k];
+			for (size_t u = 0 ; u < unitCount ; ++u) {
 
-			k -= 6;
+				out += base64alphabet[b | units[u] >> k];
 
-			for ( ; k >= 0 ; k -= 6) {
-				out += base64alphabet[(ch >> k) & 0x3f];
-			}
+				k -= 6;
 
-			b = (ch << (-k)) & 0x3f;
-			k += 16;
+				for ( ; k >= 0 ; k -= 6) {
+					out += base64alphabet[(units[u] >> k) & 0x3f];
+				}
+
+				b = (units[u] << (-k)) & 0x3f;
+				k += 16;
+			}
 
 		} else {
 
-- 
2.43.0


From eaa9f8e4160e1566bffc31068a5616a4d5c723bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:52 +0000
Subject: [PATCH 197/227] fix: decode the names of IMAP folders which contain
 "+"

---
 src/vmime/net/imap/IMAPUtils.cpp | 120 +++++++++++++++++++------------
 1 file changed, 75 insertions(+), 45 deletions(-)

diff --git a/src/vmime/net/imap/IMAPUtils.cpp b/src/vmime/net/imap/IMAPUtils.cpp
index ed7c37d..e1da229 100644
--- a/src/vmime/net/imap/IMAPUtils.cpp
+++ b/src/vmime/net/imap/IMAPUtils.cpp
@@ -315,75 +315,105 @@ const string IMAPUtils::toModifiedUTF7(
 
 const folder::path::component IMAPUtils::fromModifiedUTF7(const string& text) {
 
-	// Transcode from modified UTF-7 (RFC-2060).
+	// Transcode from modified UTF-7 (RFC-2060) to UTF-8.
+	const string base64alphabet =
+		"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+,";
+
 	string out;
 	out.reserve(text.length());
 
-	bool inB64sequence = false;
-	bool plusOutput = false;
-	unsigned char prev = 0;
+	for (size_t i = 0, len = text.length() ; i < len ; ) {
 
-	for (string::const_iterator it = text.begin() ; it != text.end() ; ++it) {
+		// Characters which are not in a Base64 sequence represent themselves
+		if (text[i] != '&') {
 
-		const unsigned char c = *it;
+			out += text[i];
 
-		switch (c) {
+			// "+-" --> "+" (as in unmodified UTF-7)
+			i += (text[i] == '+' && i + 1 < len && text[i + 1] == '-') ? 2 : 1;
 
-			// Start of Base64 sequence
-			case '&': {
+			continue;
+		}
 
-				if (!inB64sequence) {
-					inB64sequence = true;
-					plusOutput = false;
-				} else {
-					out += '&';
-				}
+		++i;
 
-				break;
+		if (i < len && text[i] == '-') {  // special case "&-" --> "&"
+
+			out += '&';
+			++i;
+
+			continue;
+		}
+
+		// Base64 sequence (UTF-16)
+		unsigned int bits = 0, high = 0;
+		int bitCount = 0;
+
+		for ( ; i < len && text[i] != '-' ; ++i) {
+
+			const size_t value = base64alphabet.find(text[i]);
+
+			if (value == string::npos) {
+				break;  // error: not terminated
 			}
-			// End of Base64 sequence (or "&-" --> "&")
-			case '-': {
 
-				if (inB64sequence && prev == '&') {  // special case "&-" --> "&"
-					out += '&';
-				} else {
-					out += '-';
-				}
+			bits = ((bits << 6) | static_cast <unsigned int>(value)) & 0x3fffff;
+			bitCount += 6;
 
-				inB64sequence = false;
-				break;
+			if (bitCount < 16) {
+				continue;
 			}
-			// ',' is used instead of '/' in modified Base64
-			case ',': {
 
-				if (inB64sequence && !plusOutput) {
-					out += '+';
-					plusOutput = true;
+			bitCount -= 16;
+
+			unsigned int ch = (bits >> bitCount) & 0xffff;
+
+			if (ch >= 0xd800 && ch <= 0xdbff) {  // high surrogate
+
+				if (high) {
+					out += "\xef\xbf\xbd";
 				}
 
-				out += (inB64sequence ? '/' : ',');
-				break;
+				high = ch;
+				continue;
 			}
-			default: {
 
-				if (inB64sequence && !plusOutput) {
-					out += '+';
-					plusOutput = true;
-				}
+			if (ch >= 0xdc00 && ch <= 0xdfff) {  // low surrogate
+				ch = high ? 0x10000 + ((high - 0xd800) << 10) + (ch - 0xdc00) : 0xfffd;
+			} else if (high) {
+				out += "\xef\xbf\xbd";
+			}
 
-				out += c;
-				break;
+			high = 0;
+
+			if (ch < 0x80) {
+				out += static_cast <char>(ch);
+			} else if (ch < 0x800) {
+				out += static_cast <char>(0xc0 | (ch >> 6));
+				out += static_cast <char>(0x80 | (ch & 0x3f));
+			} else if (ch < 0x10000) {
+				out += static_cast <char>(0xe0 | (ch >> 12));
+				out += static_cast <char>(0x80 | ((ch >> 6) & 0x3f));
+				out += static_cast <char>(0x80 | (ch & 0x3f));
+			} else {
+				out += static_cast <char>(0xf0 | (ch >> 18));
+				out += static_cast <char>(0x80 | ((ch >> 12) & 0x3f));
+				out += static_cast <char>(0x80 | ((ch >> 6) & 0x3f));
+				out += static_cast <char>(0x80 | (ch & 0x3f));
 			}
 		}
 
-		prev = c;
-	}
+		if (high) {
+			out += "\xef\xbf\xbd";
+		}
 
-	// Store it as UTF-8 by default
-	string cvt;
-	charset::convert(out, cvt, charset(charsets::UTF_7), charset(charsets::UTF_8));
+		// End of Base64 sequence
+		if (i < len && text[i] == '-') {
+			++i;
+		}
+	}
 
-	return folder::path::component(cvt, charset(charsets::UTF_8));
+	return folder::path::component(out, charset(charsets::UTF_8));
 }
 
 
-- 
2.43.0


From dd6999fb5fc57e33d440568a66f96f813284fd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:06 +0000
Subject: [PATCH 198/227] fix: the boundaries which contain spaces, or 70
 characters, were replaced

---
 src/vmime/body.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vmime/body.cpp b/src/vmime/body.cpp
index ae30a8d..365dca2 100644
--- a/src/vmime/body.cpp
+++ b/src/vmime/body.cpp
@@ -675,12 +675,12 @@ const string body::generateRandomBoundaryString() {
 
 bool body::isValidBoundary(const string& boundary) {
 
-	static const string validChars("0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'()+_,-./:=?");
+	static const string validChars("0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'()+_,-./:=? ");
 
 	const string::const_iterator end = boundary.end();
 	bool valid = false;
 
-	if (boundary.length() > 0 && boundary.length() < 70) {
+	if (boundary.length() > 0 && boundary.length() <= 70) {
 
 		const char last = *(end - 1);
 
-- 
2.43.0


From 64e8f263cffcd2d204fb528e3ac92551cab7768a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:12 +0000
Subject: [PATCH 199/227] fix: do not return messages which only changed, and
 were not asked for, from an IMAP folder

---
 src/vmime/net/imap/IMAPFolder.cpp | 87 ++++++++++++++++++++++++++++++-
 1 file changed, 85 insertions(+), 2 deletions(-)

diff --git a/src/vmime/net/imap/IMAPFolder.cpp b/src/vmime/net/imap/IMAPFolder.cpp
index a7660ac..9c45cc9 100644
--- a/src/vmime/net/imap/IMAPFolder.cpp
+++ b/src/vmime/net/imap/IMAPFolder.cpp
@@ -77,6 +77,85 @@ static size_t numberBeforeResponse(const IMAPParser::response& resp, size_t pos)
 }
 
 
+// Finds whether a message is in a message set. A server may tell at any
+// time that messages have changed, even if they are not those requested.
+class IMAPMessageSetMatcher : public messageSetEnumerator {
+
+public:
+
+	IMAPMessageSetMatcher(const size_t number, const message::uid& uid, const size_t messageCount)
+		: m_number(number),
+		  m_uid(toNumber(uid)),
+		  m_isLast(number >= messageCount),
+		  m_matches(false) {
+
+	}
+
+	void enumerateNumberMessageRange(const numberMessageRange& range) {
+
+		matchRange(m_number, range.getFirst(), range.getLast());
+	}
+
+	void enumerateUIDMessageRange(const UIDMessageRange& range) {
+
+		matchRange(m_uid, toNumber(range.getFirst()), toNumber(range.getLast()));
+	}
+
+	bool matches() const {
+
+		return m_matches;
+	}
+
+private:
+
+	// Returns ANY ("*") if this is not a number
+	static size_t toNumber(const message::uid& uid) {
+
+		std::istringstream iss(static_cast <string>(uid));
+		iss.imbue(std::locale::classic());
+
+		size_t number = 0;
+
+		if (!(iss >> number)) {
+			number = ANY;
+		}
+
+		return number;
+	}
+
+	void matchRange(const size_t value, const size_t first, const size_t last) {
+
+		if (value >= std::min(first, last) && value <= std::max(first, last)) {
+			m_matches = true;
+		} else if (m_isLast && (first == ANY || last == ANY)) {
+			m_matches = true;  // "*" is the last message
+		}
+	}
+
+
+	static const size_t ANY = static_cast <size_t>(-1);
+
+	const size_t m_number;
+	const size_t m_uid;
+	const bool m_isLast;
+	bool m_matches;
+};
+
+
+static bool isMessageInSet(
+	const messageSet& msgs,
+	const size_t number,
+	const message::uid& uid,
+	const size_t messageCount
+) {
+
+	IMAPMessageSetMatcher matcher(number, uid, messageCount);
+	msgs.enumerate(matcher);
+
+	return matcher.matches();
+}
+
+
 IMAPFolder::IMAPFolder(
 	const folder::path& path,
 	const shared_ptr <IMAPStore>& store,
@@ -686,7 +765,9 @@ std::vector <shared_ptr <message> > IMAPFolder::getMessages(const messageSet& ms
 			}
 		}
 
-		if (!msgUID.empty() && uids.insert(msgUID).second) {
+		if (!msgUID.empty() && isMessageInSet(msgs, msgNum, msgUID, getMessageCount()) &&
+		    uids.insert(msgUID).second) {
+
 			shared_ptr <IMAPFolder> thisFolder = dynamicCast <IMAPFolder>(shared_from_this());
 			messages.push_back(make_shared <IMAPMessage>(thisFolder, msgNum, msgUID));
 		}
@@ -1014,7 +1095,9 @@ std::vector <shared_ptr <message> > IMAPFolder::getAndFetchMessages(
 
 		// A response without UID was not requested, and is
 		// only an update for a message which we already know of
-		if (msgUID.empty() || !uids.insert(msgUID).second) {
+		if (msgUID.empty() || !isMessageInSet(msgs, msgNum, msgUID, getMessageCount()) ||
+		    !uids.insert(msgUID).second) {
+
 			continue;
 		}
 
-- 
2.43.0


From 50db7aa618c2f50601690185be2564b69a5c3833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:00 +0000
Subject: [PATCH 200/227] fix: Unregister a POP3 or maildir folder from its
 store even if closing it fails

---
 src/vmime/net/maildir/maildirFolder.cpp | 6 +++++-
 src/vmime/net/pop3/POP3Folder.cpp       | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/vmime/net/maildir/maildirFolder.cpp b/src/vmime/net/maildir/maildirFolder.cpp
index 7b10611..17f6128 100644
--- a/src/vmime/net/maildir/maildirFolder.cpp
+++ b/src/vmime/net/maildir/maildirFolder.cpp
@@ -74,7 +74,11 @@ maildirFolder::~maildirFolder() {
 		if (store) {
 
 			if (m_open) {
-				close(false);
+				try {
+					close(false);
+				} catch (...) {
+					// Ignore exception here to make sure unregisterFolder is called
+				}
 			}
 
 			store->unregisterFolder(this);
diff --git a/src/vmime/net/pop3/POP3Folder.cpp b/src/vmime/net/pop3/POP3Folder.cpp
index 656b6ab..83252ca 100644
--- a/src/vmime/net/pop3/POP3Folder.cpp
+++ b/src/vmime/net/pop3/POP3Folder.cpp
@@ -69,7 +69,11 @@ POP3Folder::~POP3Folder() {
 		if (store) {
 
 			if (m_open) {
-				close(false);
+				try {
+					close(false);
+				} catch (...) {
+					// Ignore exception here to make sure unregisterFolder is called
+				}
 			}
 
 			store->unregisterFolder(this);
-- 
2.43.0


From 917c08e8388682a79f92d46e2ea73b2d425a492d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:24 +0000
Subject: [PATCH 201/227] fix: Report that a POP3 or IMAP connection is closed
 instead of using its missing socket

---
 src/vmime/net/imap/IMAPConnection.cpp | 8 ++++++++
 src/vmime/net/pop3/POP3Command.cpp    | 8 +++++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/vmime/net/imap/IMAPConnection.cpp b/src/vmime/net/imap/IMAPConnection.cpp
index e810902..b54db71 100644
--- a/src/vmime/net/imap/IMAPConnection.cpp
+++ b/src/vmime/net/imap/IMAPConnection.cpp
@@ -861,6 +861,10 @@ void IMAPConnection::initHierarchySeparator() {
 
 void IMAPConnection::sendCommand(const shared_ptr <IMAPCommand>& cmd) {
 
+	if (!m_socket) {
+		throw exceptions::not_connected();
+	}
+
 	if (!m_firstTag) {
 		++(*m_tag);
 	}
@@ -884,6 +888,10 @@ void IMAPConnection::sendCommand(const shared_ptr <IMAPCommand>& cmd) {
 
 void IMAPConnection::sendRaw(const byte_t* buffer, const size_t count) {
 
+	if (!m_socket) {
+		throw exceptions::not_connected();
+	}
+
 	m_socket->sendRaw(buffer, count);
 }
 
diff --git a/src/vmime/net/pop3/POP3Command.cpp b/src/vmime/net/pop3/POP3Command.cpp
index fbdc84e..f259ea0 100644
--- a/src/vmime/net/pop3/POP3Command.cpp
+++ b/src/vmime/net/pop3/POP3Command.cpp
@@ -251,7 +251,13 @@ const string POP3Command::getTraceText() const {
 
 void POP3Command::send(const shared_ptr <POP3Connection>& conn) {
 
-	conn->getSocket()->send(m_text + "\r\n");
+	shared_ptr <socket> sok = (conn ? conn->getSocket() : null);
+
+	if (!sok) {
+		throw exceptions::not_connected();
+	}
+
+	sok->send(m_text + "\r\n");
 
 	if (conn->getTracer()) {
 		conn->getTracer()->traceSend(m_traceText);
-- 
2.43.0


From b6b0ac7e23f7721e6f04349cc63c8b26370089ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:14 +0000
Subject: [PATCH 202/227] fix: Reject an invalid message count in the response
 to STAT

---
 src/vmime/net/pop3/POP3Folder.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/vmime/net/pop3/POP3Folder.cpp b/src/vmime/net/pop3/POP3Folder.cpp
index 83252ca..0af29c9 100644
--- a/src/vmime/net/pop3/POP3Folder.cpp
+++ b/src/vmime/net/pop3/POP3Folder.cpp
@@ -45,6 +45,15 @@ namespace net {
 namespace pop3 {
 
 
+/** Test whether a message count sent by the server makes sense. Extracting
+  * a negative number from a stream does not fail, but gives a huge one.
+  */
+static bool isValidMessageCount(const size_t count) {
+
+	return count <= 0x7fffffff;
+}
+
+
 POP3Folder::POP3Folder(
 	const folder::path& path,
 	const shared_ptr <POP3Store>& store
@@ -162,12 +171,15 @@ void POP3Folder::open(const int mode, bool failIfModeIsNotAvailable) {
 
 		std::istringstream iss(response->getText());
 		iss.imbue(std::locale::classic());
-		iss >> m_messageCount;
 
-		if (iss.fail()) {
+		size_t count = 0;
+		iss >> count;
+
+		if (iss.fail() || !isValidMessageCount(count)) {
 			throw exceptions::invalid_response("STAT", response->getFirstLine());
 		}
 
+		m_messageCount = count;
 		m_open = true;
 		m_mode = mode;
 
@@ -755,6 +767,10 @@ shared_ptr <folderStatus> POP3Folder::getStatus() {
 	iss.imbue(std::locale::classic());
 	iss >> count;
 
+	if (iss.fail() || !isValidMessageCount(count)) {
+		throw exceptions::invalid_response("STAT", response->getFirstLine());
+	}
+
 	shared_ptr <POP3FolderStatus> status = make_shared <POP3FolderStatus>();
 
 	status->setMessageCount(count);
-- 
2.43.0


From d44f4dafe7f887305aa80a2a092a4793755edf31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:24 +0000
Subject: [PATCH 203/227] fix: Report that the TLS peer closed the connection
 instead of waiting for data which cannot come

---
 src/vmime/net/tls/gnutls/TLSSocket_GnuTLS.cpp   | 6 ++++++
 src/vmime/net/tls/openssl/TLSSocket_OpenSSL.cpp | 3 ++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/vmime/net/tls/gnutls/TLSSocket_GnuTLS.cpp b/src/vmime/net/tls/gnutls/TLSSocket_GnuTLS.cpp
index 97466fc..8f8ad86 100644
--- a/src/vmime/net/tls/gnutls/TLSSocket_GnuTLS.cpp
+++ b/src/vmime/net/tls/gnutls/TLSSocket_GnuTLS.cpp
@@ -219,6 +219,12 @@ size_t TLSSocket_GnuTLS::receiveRaw(byte_t* buffer, const size_t count) {
 		}
 
 		TLSSession_GnuTLS::throwTLSException("gnutls_record_recv", static_cast <int>(ret));
+
+	} else if (ret == 0 && count != 0) {
+
+		// The peer closed the connection: nothing more will ever be received
+		disconnect();
+		throw exceptions::socket_not_connected_exception();
 	}
 
 	return static_cast <size_t>(ret);
diff --git a/src/vmime/net/tls/openssl/TLSSocket_OpenSSL.cpp b/src/vmime/net/tls/openssl/TLSSocket_OpenSSL.cpp
index bbda81b..31752ec 100644
--- a/src/vmime/net/tls/openssl/TLSSocket_OpenSSL.cpp
+++ b/src/vmime/net/tls/openssl/TLSSocket_OpenSSL.cpp
@@ -532,8 +532,9 @@ void TLSSocket_OpenSSL::handleError(int rc) {
 
 		case SSL_ERROR_ZERO_RETURN:
 
+			// The peer closed the connection
 			disconnect();
-			return;
+			throw exceptions::socket_not_connected_exception();
 
 		case SSL_ERROR_SYSCALL: {
 
-- 
2.43.0


From 3fc91d50e457cd06c75e936b64294796b1bce355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:14 +0000
Subject: [PATCH 204/227] fix: Reject a number which does not fit in 32 bits in
 an IMAP response

---
 src/vmime/net/imap/IMAPParser.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/vmime/net/imap/IMAPParser.hpp b/src/vmime/net/imap/IMAPParser.hpp
index 2758517..6d7c985 100644
--- a/src/vmime/net/imap/IMAPParser.hpp
+++ b/src/vmime/net/imap/IMAPParser.hpp
@@ -687,8 +687,17 @@ public:
 				const char c = line[pos];
 
 				if (c >= '0' && c <= '9') {
-					val = (val * 10) + (c - '0');
+
+					const unsigned int digit = c - '0';
+
+					// A number is an unsigned 32-bit integer
+					if (val > (0xffffffffu - digit) / 10) {
+						return false;
+					}
+
+					val = (val * 10) + digit;
 					++pos;
+
 				} else {
 					valid = false;
 				}
-- 
2.43.0


From 6522bc8029c5fb6866ca6dfb4c36588af47e21ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:21 +0000
Subject: [PATCH 205/227] fix: Close the SMTP connection when the sending of
 message data is interrupted

---
 src/vmime/net/smtp/SMTPTransport.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/vmime/net/smtp/SMTPTransport.cpp b/src/vmime/net/smtp/SMTPTransport.cpp
index 1d3a6d8..e7d7124 100644
--- a/src/vmime/net/smtp/SMTPTransport.cpp
+++ b/src/vmime/net/smtp/SMTPTransport.cpp
@@ -485,9 +485,19 @@ void SMTPTransport::send(
 	lineEndTrackingOutputStream los(sos);
 	utility::dotFilteredOutputStream fos(los, /* startOfLine */ true);
 
-	utility::bufferedStreamCopy(is, fos, size, progress);
+	try {
+
+		utility::bufferedStreamCopy(is, fos, size, progress);
+
+		fos.flush();
 
-	fos.flush();
+	} catch (...) {
+
+		// Next commands would be taken for the rest of the message data:
+		// this connection cannot be used anymore
+		m_connection->getSocket()->disconnect();
+		throw;
+	}
 
 	// Send end-of-data delimiter (an extra CRLF must not be added [RFC-5321, 4.1.1.4])
 	m_connection->getSocket()->send(los.isAtStartOfLine() ? ".\r\n" : "\r\n.\r\n");
-- 
2.43.0


From c1e5efc12cfe1f2c5d84b98ea5df067edf52bbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:21 +0000
Subject: [PATCH 206/227] fix: Close the IMAP connection when a response, or
 the data of APPEND, is interrupted

---
 src/vmime/net/imap/IMAPConnection.cpp | 25 +++++++++++++++++-
 src/vmime/net/imap/IMAPConnection.hpp |  6 +++++
 src/vmime/net/imap/IMAPFolder.cpp     | 38 ++++++++++++++++++++-------
 3 files changed, 59 insertions(+), 10 deletions(-)

diff --git a/src/vmime/net/imap/IMAPConnection.cpp b/src/vmime/net/imap/IMAPConnection.cpp
index b54db71..27a95fe 100644
--- a/src/vmime/net/imap/IMAPConnection.cpp
+++ b/src/vmime/net/imap/IMAPConnection.cpp
@@ -896,9 +896,32 @@ void IMAPConnection::sendRaw(const byte_t* buffer, const size_t count) {
 }
 
 
+void IMAPConnection::closeSocket() {
+
+	if (m_socket) {
+		m_socket->disconnect();
+	}
+}
+
+
 IMAPParser::response* IMAPConnection::readResponse(IMAPParser::literalHandler* lh) {
 
-	return m_parser->readResponse(*m_tag, lh);
+	try {
+
+		return m_parser->readResponse(*m_tag, lh);
+
+	} catch (exceptions::invalid_response&) {
+
+		// The whole response has been read
+		throw;
+
+	} catch (...) {
+
+		// The rest of this response would be taken for the response
+		// to the next command: this connection cannot be used anymore
+		closeSocket();
+		throw;
+	}
 }
 
 
diff --git a/src/vmime/net/imap/IMAPConnection.hpp b/src/vmime/net/imap/IMAPConnection.hpp
index 29482ff..36b5f46 100644
--- a/src/vmime/net/imap/IMAPConnection.hpp
+++ b/src/vmime/net/imap/IMAPConnection.hpp
@@ -102,6 +102,12 @@ public:
 	bool isSecuredConnection() const;
 	shared_ptr <connectionInfos> getConnectionInfos() const;
 
+	/** Closes the socket, without telling the server. This is for when
+	  * the exchange of data with the server has been interrupted, and
+	  * this connection cannot be used anymore.
+	  */
+	void closeSocket();
+
 	shared_ptr <const socket> getSocket() const;
 	void setSocket(const shared_ptr <socket>& sok);
 
diff --git a/src/vmime/net/imap/IMAPFolder.cpp b/src/vmime/net/imap/IMAPFolder.cpp
index 9c45cc9..0563f96 100644
--- a/src/vmime/net/imap/IMAPFolder.cpp
+++ b/src/vmime/net/imap/IMAPFolder.cpp
@@ -1324,19 +1324,39 @@ messageSet IMAPFolder::addMessage(
 	std::vector <byte_t> vbuffer(blockSize);
 	byte_t* buffer = &vbuffer.front();
 
-	while (!is.eof()) {
+	try {
 
-		// Read some data from the input stream
-		const size_t read = is.read(buffer, blockSize);
-		current += read;
+		while (!is.eof()) {
 
-		// Put read data into socket output stream
-		m_connection->sendRaw(buffer, read);
+			// Read some data from the input stream
+			const size_t read = is.read(buffer, blockSize);
 
-		// Notify progress
-		if (progress) {
-			progress->progress(current, total);
+			if (read > total - current) {
+				// The data in excess would be taken for commands
+				throw exceptions::invalid_argument();
+			}
+
+			current += read;
+
+			// Put read data into socket output stream
+			m_connection->sendRaw(buffer, read);
+
+			// Notify progress
+			if (progress) {
+				progress->progress(current, total);
+			}
 		}
+
+		if (current != total) {
+			throw exceptions::invalid_argument();
+		}
+
+	} catch (...) {
+
+		// Next commands would be taken for the rest of the message data:
+		// this connection cannot be used anymore
+		m_connection->closeSocket();
+		throw;
 	}
 
 	m_connection->sendRaw(utility::stringUtils::bytesFromString("\r\n"), 2);
-- 
2.43.0


From 82e80db753ba994048b6b39cea6792846e4496d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:21 +0000
Subject: [PATCH 207/227] fix: Close the POP3 or SMTP connection when a
 response is interrupted: the next command would get the rest of it

---
 src/vmime/net/pop3/POP3Response.cpp   | 22 ++++++++++++++++++++++
 src/vmime/net/pop3/POP3Response.hpp   |  8 ++++++++
 src/vmime/net/smtp/SMTPConnection.cpp | 18 +++++++++++++++---
 3 files changed, 45 insertions(+), 3 deletions(-)

diff --git a/src/vmime/net/pop3/POP3Response.cpp b/src/vmime/net/pop3/POP3Response.cpp
index 08998cf..f9efeea 100644
--- a/src/vmime/net/pop3/POP3Response.cpp
+++ b/src/vmime/net/pop3/POP3Response.cpp
@@ -344,6 +344,28 @@ size_t POP3Response::readResponseImpl(
 	const size_t predictedSize
 ) {
 
+	try {
+
+		return receiveResponse(firstLine, multiLine, os, progress, predictedSize);
+
+	} catch (...) {
+
+		// The rest of this response would be taken for the response
+		// to the next command: this connection cannot be used anymore
+		m_socket->disconnect();
+		throw;
+	}
+}
+
+
+size_t POP3Response::receiveResponse(
+	string& firstLine,
+	const bool multiLine,
+	utility::outputStream& os,
+	utility::progressListener* progress,
+	const size_t predictedSize
+) {
+
 	size_t current = 0, total = predictedSize;
 
 	string buffer;
diff --git a/src/vmime/net/pop3/POP3Response.hpp b/src/vmime/net/pop3/POP3Response.hpp
index 24895e5..394dd3d 100644
--- a/src/vmime/net/pop3/POP3Response.hpp
+++ b/src/vmime/net/pop3/POP3Response.hpp
@@ -160,6 +160,14 @@ private:
 		const size_t predictedSize
 	);
 
+	size_t receiveResponse(
+		string& firstLine,
+		const bool multiLine,
+		utility::outputStream& os,
+		utility::progressListener* progress,
+		const size_t predictedSize
+	);
+
 
 	static ResponseCode getResponseCode(const string& buffer);
 
diff --git a/src/vmime/net/smtp/SMTPConnection.cpp b/src/vmime/net/smtp/SMTPConnection.cpp
index 7661308..d5697a0 100644
--- a/src/vmime/net/smtp/SMTPConnection.cpp
+++ b/src/vmime/net/smtp/SMTPConnection.cpp
@@ -693,9 +693,21 @@ void SMTPConnection::sendRequest(const shared_ptr <SMTPCommand>& cmd) {
 
 shared_ptr <SMTPResponse> SMTPConnection::readResponse() {
 
-	shared_ptr <SMTPResponse> resp = SMTPResponse::readResponse(
-		m_tracer, m_socket, m_timeoutHandler, m_responseState
-	);
+	shared_ptr <SMTPResponse> resp;
+
+	try {
+
+		resp = SMTPResponse::readResponse(
+			m_tracer, m_socket, m_timeoutHandler, m_responseState
+		);
+
+	} catch (...) {
+
+		// The rest of this response would be taken for the response
+		// to the next command: this connection cannot be used anymore
+		m_socket->disconnect();
+		throw;
+	}
 
 	m_responseState = resp->getCurrentState();
 
-- 
2.43.0


From 8134426914b5bbb395f844ba5d3957379d518454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:42 +0000
Subject: [PATCH 208/227] fix: sending with a sendmail transport which is not
 connected

---
 src/vmime/net/sendmail/sendmailTransport.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vmime/net/sendmail/sendmailTransport.cpp b/src/vmime/net/sendmail/sendmailTransport.cpp
index 75508ee..d289af3 100644
--- a/src/vmime/net/sendmail/sendmailTransport.cpp
+++ b/src/vmime/net/sendmail/sendmailTransport.cpp
@@ -152,6 +152,10 @@ void sendmailTransport::send(
 	const sendOptions& /* options */
 ) {
 
+	if (!isConnected()) {
+		throw exceptions::not_connected();
+	}
+
 	// If no recipient/expeditor was found, throw an exception
 	if (recipients.isEmpty()) {
 		throw exceptions::no_recipient();
-- 
2.43.0


From ec9b6e95eaa571d2f44dd9abbbfbe80f27e053b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:42 +0000
Subject: [PATCH 209/227] fix: the last CR of a message was not given to the
 sendmail program

---
 src/vmime/net/sendmail/sendmailTransport.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vmime/net/sendmail/sendmailTransport.cpp b/src/vmime/net/sendmail/sendmailTransport.cpp
index d289af3..44d82f0 100644
--- a/src/vmime/net/sendmail/sendmailTransport.cpp
+++ b/src/vmime/net/sendmail/sendmailTransport.cpp
@@ -217,6 +217,8 @@ void sendmailTransport::internalSend(
 
 	utility::bufferedStreamCopy(is, fos, size, progress);
 
+	fos.flush();
+
 	// Wait for sendmail to exit
 	proc->waitForFinish();
 }
-- 
2.43.0


From f14007cdf9dc90fdd5b0a10fdf6f48c81e9d4e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:42 +0000
Subject: [PATCH 210/227] fix: a child process which exits early killed the
 calling application (SIGPIPE), and writing to it could be partial

---
 .../platforms/posix/posixChildProcess.cpp     | 58 ++++++++++++++++++-
 1 file changed, 55 insertions(+), 3 deletions(-)

diff --git a/src/vmime/platforms/posix/posixChildProcess.cpp b/src/vmime/platforms/posix/posixChildProcess.cpp
index 4a9fef3..57801b9 100644
--- a/src/vmime/platforms/posix/posixChildProcess.cpp
+++ b/src/vmime/platforms/posix/posixChildProcess.cpp
@@ -107,6 +107,45 @@ static const string getPosixErrorMessage(const int num) {
 }
 
 
+// Blocks the SIGPIPE signal, and discards the one which has been generated
+
+class sigPipeBlocker {
+
+public:
+
+	sigPipeBlocker() {
+
+		sigset_t pending;
+
+		sigemptyset(&m_sigPipe);
+		sigaddset(&m_sigPipe, SIGPIPE);
+
+		sigpending(&pending);
+		m_wasPending = (sigismember(&pending, SIGPIPE) == 1);
+
+		sigprocmask(SIG_BLOCK, &m_sigPipe, &m_oldMask);
+	}
+
+	~sigPipeBlocker() {
+
+		sigset_t pending;
+		sigpending(&pending);
+
+		if (!m_wasPending && sigismember(&pending, SIGPIPE) == 1) {
+			int num;
+			sigwait(&m_sigPipe, &num);
+		}
+
+		sigprocmask(SIG_SETMASK, &m_oldMask, NULL);
+	}
+
+private:
+
+	sigset_t m_sigPipe, m_oldMask;
+	bool m_wasPending;
+};
+
+
 // Output stream adapter for POSIX pipe
 
 class outputStreamPosixPipeAdapter : public utility::outputStream {
@@ -127,9 +166,22 @@ protected:
 
 	void writeImpl(const byte_t* const data, const size_t count) {
 
-		if (::write(m_desc, data, count) == -1) {
-			const string errorMsg = getPosixErrorMessage(errno);
-			throw exceptions::system_error(errorMsg);
+		// The process may have exited: this must not kill the calling application
+		const sigPipeBlocker blocker;
+
+		for (size_t written = 0 ; written < count ; ) {
+
+			const ssize_t ret = ::write(m_desc, data + written, count - written);
+
+			if (ret != -1) {
+
+				written += static_cast <size_t>(ret);
+
+			} else if (errno != EINTR) {
+
+				const string errorMsg = getPosixErrorMessage(errno);
+				throw exceptions::system_error(errorMsg);
+			}
 		}
 	}
 
-- 
2.43.0


From c032fe9338e5ab3bbff62a2d5734934d73335080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:42 +0000
Subject: [PATCH 211/227] fix: the end of the output of a child process was not
 initialized

---
 src/vmime/platforms/posix/posixChildProcess.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/vmime/platforms/posix/posixChildProcess.cpp b/src/vmime/platforms/posix/posixChildProcess.cpp
index 57801b9..6bce2be 100644
--- a/src/vmime/platforms/posix/posixChildProcess.cpp
+++ b/src/vmime/platforms/posix/posixChildProcess.cpp
@@ -198,7 +198,8 @@ class inputStreamPosixPipeAdapter : public utility::inputStream {
 public:
 
 	inputStreamPosixPipeAdapter(const int desc)
-		: m_desc(desc) {
+		: m_desc(desc),
+		  m_eof(false) {
 	}
 
 	bool eof() const {
@@ -237,7 +238,11 @@ public:
 
 		ssize_t bytesRead = 0;
 
-		if ((bytesRead = ::read(m_desc, data, count)) == -1) {
+		do {
+			bytesRead = ::read(m_desc, data, count);
+		} while (bytesRead == -1 && errno == EINTR);
+
+		if (bytesRead == -1) {
 			const string errorMsg = getPosixErrorMessage(errno);
 			throw exceptions::system_error(errorMsg);
 		}
-- 
2.43.0


From 57fde8111cac38ffc8d75a9eec82fe229d5606a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:42 +0000
Subject: [PATCH 212/227] fix: an interrupted message was sent truncated by the
 sendmail program, and the child process was left behind

---
 src/vmime/platforms/posix/posixChildProcess.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/vmime/platforms/posix/posixChildProcess.cpp b/src/vmime/platforms/posix/posixChildProcess.cpp
index 6bce2be..d782f17 100644
--- a/src/vmime/platforms/posix/posixChildProcess.cpp
+++ b/src/vmime/platforms/posix/posixChildProcess.cpp
@@ -283,6 +283,17 @@ posixChildProcess::posixChildProcess(const utility::file::path& path)
 
 posixChildProcess::~posixChildProcess() {
 
+	if (m_started && m_pipe[1] != 0) {
+
+		// The data given to the process is not complete: do not let it
+		// believe that it is (it would read the end of its standard input)
+		kill(m_pid, SIGKILL);
+
+		while (waitpid(m_pid, NULL, 0) == -1 && errno == EINTR) {
+			;
+		}
+	}
+
 	if (m_started) {
 		sigprocmask(SIG_SETMASK, &m_oldProcMask, NULL);
 	}
-- 
2.43.0


From 2e5afb75ff38b26216bdbdf1f55324b81af88ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:42 +0000
Subject: [PATCH 213/227] fix: redirecting both the input and the output of a
 child process, which inherited a modified signal mask

---
 .../platforms/posix/posixChildProcess.cpp     | 47 ++++++++++++++-----
 1 file changed, 34 insertions(+), 13 deletions(-)

diff --git a/src/vmime/platforms/posix/posixChildProcess.cpp b/src/vmime/platforms/posix/posixChildProcess.cpp
index d782f17..fd8cee7 100644
--- a/src/vmime/platforms/posix/posixChildProcess.cpp
+++ b/src/vmime/platforms/posix/posixChildProcess.cpp
@@ -335,15 +335,22 @@ void posixChildProcess::start(const std::vector <string>& args, const int flags)
 		argv[i + 1] = m_argVector[i].c_str();
 	}
 
-	// Create a pipe to communicate with the child process
-	int fd[2];
+	// Create pipes to communicate with the child process
+	int in[2], out[2];
 
-	if (pipe(fd) == -1) {
+	if (pipe(in) == -1) {
 		throw exceptions::system_error(getPosixErrorMessage(errno));
 	}
 
-	m_pipe[0] = fd[0];
-	m_pipe[1] = fd[1];
+	if (pipe(out) == -1) {
+
+		const string errorMsg = getPosixErrorMessage(errno);
+
+		close(in[0]);
+		close(in[1]);
+
+		throw exceptions::system_error(errorMsg);
+	}
 
 	// Block SIGCHLD so the calling application doesn't notice
 	// process exiting before we do
@@ -362,25 +369,33 @@ void posixChildProcess::start(const std::vector <string>& args, const int flags)
 
 		sigprocmask(SIG_SETMASK, &m_oldProcMask, NULL);
 
-		close(fd[0]);
-		close(fd[1]);
+		close(in[0]);
+		close(in[1]);
+		close(out[0]);
+		close(out[1]);
 
 		throw exceptions::system_error(errorMsg);
 
 	} else if (pid == 0) {  // child process
 
 		if (flags & FLAG_REDIRECT_STDIN) {
-			dup2(fd[0], STDIN_FILENO);
-		} else {
-			close(fd[0]);
+			dup2(in[0], STDIN_FILENO);
 		}
 
 		if (flags & FLAG_REDIRECT_STDOUT) {
-			dup2(fd[1], STDOUT_FILENO);
-		} else {
-			close(fd[1]);
+			dup2(out[1], STDOUT_FILENO);
 		}
 
+		for (const int fd : { in[0], in[1], out[0], out[1] }) {
+
+			if (fd > STDERR_FILENO) {
+				close(fd);
+			}
+		}
+
+		// Signal mask is inherited
+		sigprocmask(SIG_SETMASK, &m_oldProcMask, NULL);
+
 		posixFileSystemFactory* pfsf = new posixFileSystemFactory();
 
 		const string path = pfsf->pathToString(m_processPath);
@@ -391,6 +406,12 @@ void posixChildProcess::start(const std::vector <string>& args, const int flags)
 		_exit(255);
 	}
 
+	close(in[0]);
+	close(out[1]);
+
+	m_pipe[0] = out[0];
+	m_pipe[1] = in[1];
+
 	if (flags & FLAG_REDIRECT_STDIN) {
 
 		m_stdIn = make_shared <outputStreamPosixPipeAdapter>(m_pipe[1]);
-- 
2.43.0


From 31210ea43183f9287cc47200fc407c9d38681259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:18 +0000
Subject: [PATCH 214/227] fix: fail, and do not wait, when data is read from a
 posix socket which is not connected

---
 src/vmime/platforms/posix/posixSocket.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vmime/platforms/posix/posixSocket.cpp b/src/vmime/platforms/posix/posixSocket.cpp
index c0ce0cf..34f98ee 100644
--- a/src/vmime/platforms/posix/posixSocket.cpp
+++ b/src/vmime/platforms/posix/posixSocket.cpp
@@ -644,6 +644,10 @@ size_t posixSocket::getBlockSize() const {
 
 bool posixSocket::waitForData(const bool read, const bool write, const int msecs) {
 
+	if (m_desc == -1) {
+		throwSocketError(ENOTCONN);
+	}
+
 	for (int i = 0 ; i <= msecs / 10 ; ++i) {
 
 		// Check whether data is available
-- 
2.43.0


From c2797d9a3782a8ed3e574bac3395ebb4bb5bcc4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:18 +0000
Subject: [PATCH 215/227] fix: posix socket: address of an IPv6 peer

---
 src/vmime/platforms/posix/posixSocket.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/vmime/platforms/posix/posixSocket.cpp b/src/vmime/platforms/posix/posixSocket.cpp
index 34f98ee..dc33a16 100644
--- a/src/vmime/platforms/posix/posixSocket.cpp
+++ b/src/vmime/platforms/posix/posixSocket.cpp
@@ -574,17 +574,25 @@ static bool isNumericAddress(const char* address) {
 const string posixSocket::getPeerAddress() const {
 
 	// Get address of connected peer
-	sockaddr peer;
+	sockaddr_storage peer;
 	socklen_t peerLen = sizeof(peer);
 
-	if (getpeername(m_desc, &peer, &peerLen) != 0) {
+	if (getpeername(m_desc, reinterpret_cast <sockaddr *>(&peer), &peerLen) != 0) {
 		throwSocketError(errno);
 	}
 
 	// Convert to numerical presentation format
 	char buf[INET6_ADDRSTRLEN];
 
-	if (!inet_ntop(peer.sa_family, &(reinterpret_cast <struct sockaddr_in *>(&peer))->sin_addr, buf, sizeof(buf))) {
+	const void* addr;
+
+	if (peer.ss_family == AF_INET6) {
+		addr = &(reinterpret_cast <sockaddr_in6 *>(&peer))->sin6_addr;
+	} else {
+		addr = &(reinterpret_cast <sockaddr_in *>(&peer))->sin_addr;
+	}
+
+	if (!inet_ntop(peer.ss_family, addr, buf, sizeof(buf))) {
 		throwSocketError(errno);
 	}
 
@@ -595,10 +603,10 @@ const string posixSocket::getPeerAddress() const {
 const string posixSocket::getPeerName() const {
 
 	// Get address of connected peer
-	sockaddr peer;
+	sockaddr_storage peer;
 	socklen_t peerLen = sizeof(peer);
 
-	if (getpeername(m_desc, &peer, &peerLen) != 0) {
+	if (getpeername(m_desc, reinterpret_cast <sockaddr *>(&peer), &peerLen) != 0) {
 		throwSocketError(errno);
 	}
 
@@ -623,7 +631,7 @@ const string posixSocket::getPeerName() const {
 		struct hostent *hp;
 
 		if ((hp = gethostbyaddr(reinterpret_cast <const void *>(&peer),
-				sizeof(peer), peer.sa_family)) != NULL) {
+				sizeof(peer), peer.ss_family)) != NULL) {
 
 			return string(hp->h_name);
 		}
-- 
2.43.0


From 0c74cca78a22d0d605f3dafad872ca42dd5d3898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:18 +0000
Subject: [PATCH 216/227] fix: posix socket: a connection which was reset is
 not connected

---
 src/vmime/platforms/posix/posixSocket.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vmime/platforms/posix/posixSocket.cpp b/src/vmime/platforms/posix/posixSocket.cpp
index dc33a16..4813098 100644
--- a/src/vmime/platforms/posix/posixSocket.cpp
+++ b/src/vmime/platforms/posix/posixSocket.cpp
@@ -522,7 +522,9 @@ bool posixSocket::isConnected() const {
 
 	char buff;
 
-	return ::recv(m_desc, &buff, 1, MSG_PEEK) != 0;
+	const ssize_t ret = ::recv(m_desc, &buff, 1, MSG_PEEK);
+
+	return ret > 0 || (ret < 0 && IS_EAGAIN(errno));
 }
 
 
-- 
2.43.0


From 10cc4c0d5f98e344a5b0832a29a24d4f2e66f036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:18 +0000
Subject: [PATCH 217/227] fix: posix socket: a signal during connect() is not
 an error

---
 src/vmime/platforms/posix/posixSocket.cpp | 32 +++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/vmime/platforms/posix/posixSocket.cpp b/src/vmime/platforms/posix/posixSocket.cpp
index 4813098..226bf39 100644
--- a/src/vmime/platforms/posix/posixSocket.cpp
+++ b/src/vmime/platforms/posix/posixSocket.cpp
@@ -313,9 +313,37 @@ void posixSocket::connect(const vmime::string& address, const vmime::port_t port
 
 		} else {
 
+			int error = 0;
+
 			if (::connect(sock, curAddrInfo->ai_addr, curAddrInfo->ai_addrlen) < 0) {
+				error = errno;
+			}
+
+			// Interrupted by a signal: the connection is established
+			// asynchronously, so wait until it is done
+			while (error == EINTR) {
+
+				pollfd fds[1];
+				fds[0].fd = sock;
+				fds[0].events = POLLOUT;
+
+				if (::poll(fds, sizeof(fds) / sizeof(fds[0]), /* timeout */ -1) > 0) {
+
+					socklen_t len = sizeof(error);
+
+					if (getsockopt(sock, SOL_SOCKET, SO_ERROR, &error, &len) < 0) {
+						error = errno;
+					}
+
+				} else if (errno != EINTR) {
+
+					error = errno;
+				}
+			}
+
+			if (error != 0) {
 
-				connectErrno = errno;
+				connectErrno = error;
 				::close(sock);
 				sock = -1;
 				continue;  // try next
@@ -463,7 +491,7 @@ void posixSocket::resolve(
 				break;
 			}
 
-		} else if (gaiError != EAI_AGAIN) {
+		} else if (gaiError != EAI_AGAIN && gaiError != EAI_INTR) {
 
 			if (gaiError == EAI_SYSTEM) {
 
-- 
2.43.0


From b2adb739357b2942d671f821b01d8f057a81e364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:18 +0000
Subject: [PATCH 218/227] fix: posix socket: report why connect() failed

---
 src/vmime/platforms/posix/posixSocket.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vmime/platforms/posix/posixSocket.cpp b/src/vmime/platforms/posix/posixSocket.cpp
index 226bf39..eb35dcb 100644
--- a/src/vmime/platforms/posix/posixSocket.cpp
+++ b/src/vmime/platforms/posix/posixSocket.cpp
@@ -141,7 +141,7 @@ void posixSocket::connect(const vmime::string& address, const vmime::port_t port
 
 	// Connect to host
 	int sock = -1;
-	int connectErrno = 0;
+	int connectErrno = ETIMEDOUT;
 
 	if (m_timeoutHandler != NULL) {
 		m_timeoutHandler->resetTimeOut();
@@ -149,7 +149,7 @@ void posixSocket::connect(const vmime::string& address, const vmime::port_t port
 
 	for (struct ::addrinfo* curAddrInfo = addrInfo ;
 	     sock == -1 && curAddrInfo != NULL ;
-	     curAddrInfo = curAddrInfo->ai_next, connectErrno = ETIMEDOUT) {
+	     curAddrInfo = curAddrInfo->ai_next) {
 
 		if (curAddrInfo->ai_family != AF_INET && curAddrInfo->ai_family != AF_INET6) {
 			continue;
-- 
2.43.0


From 4e17087a0408506602ace18ae2268c97a6d6fea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:42 +0000
Subject: [PATCH 219/227] fix: a plain parameter does not complete an extended
 one

---
 src/vmime/parameterizedHeaderField.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/vmime/parameterizedHeaderField.cpp b/src/vmime/parameterizedHeaderField.cpp
index e444351..e9ffa7a 100644
--- a/src/vmime/parameterizedHeaderField.cpp
+++ b/src/vmime/parameterizedHeaderField.cpp
@@ -302,12 +302,16 @@ void parameterizedHeaderField::parseImpl(
 						}
 
 						// Append a new section for a multi-section parameter
-						parameter::valueChunk chunk;
-						chunk.encoded = encoded;
-						chunk.data = value;
+						// (a normal parameter is not a section of an extended one)
+						if (!info.extended || extended) {
 
-						info.value.push_back(chunk);
-						info.end = position + (p - pstart);
+							parameter::valueChunk chunk;
+							chunk.encoded = encoded;
+							chunk.data = value;
+
+							info.value.push_back(chunk);
+							info.end = position + (p - pstart);
+						}
 
 					} else {
 
-- 
2.43.0


From 12e097a1786ef39faf11bd70e992c657cc1f8f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:55 +0000
Subject: [PATCH 220/227] fix: brackets in a comment do not hide the end of the
 address

---
 src/vmime/address.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/vmime/address.cpp b/src/vmime/address.cpp
index c2f0703..d1b67f2 100644
--- a/src/vmime/address.cpp
+++ b/src/vmime/address.cpp
@@ -105,9 +105,10 @@ shared_ptr <address> address::parseNext(
 
 			// Special characters have no meaning in a quoted string
 
-		} else if (commentLevel > 0 && buffer[pos] == '"') {
+		} else if (commentLevel > 0 &&
+		           (buffer[pos] == '"' || buffer[pos] == '<' || buffer[pos] == '>')) {
 
-			// Nor do quotes in a comment
+			// Nor do quotes and brackets in a comment
 
 		} else {
 
-- 
2.43.0


From a38febf4b6787d97e72e66eaeb0adb1fde7b0559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:55 +0000
Subject: [PATCH 221/227] fix: a comment before the local part of an address

---
 src/vmime/emailAddress.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/vmime/emailAddress.cpp b/src/vmime/emailAddress.cpp
index 1a603e1..eb7c637 100644
--- a/src/vmime/emailAddress.cpp
+++ b/src/vmime/emailAddress.cpp
@@ -212,6 +212,7 @@ void emailAddress::parseImpl(
 	bool atFound = false;
 	bool stop = false;
 	int commentLevel = 0;
+	bool commentBefore = false;  // in (or after) a comment at the beginning
 	bool localPartIsRFC2047 = false;
 	int rfc2047SepCount = 0;  // number of '?' found in the encoded word
 
@@ -230,6 +231,8 @@ void emailAddress::parseImpl(
 
 				if (parserHelpers::isSpace(c)) {
 					++p;
+				} else if (c == '@' && commentBefore) {
+					state = State_LocalPartMiddle;
 				} else {
 					state = State_LocalPartStart;
 				}
@@ -251,6 +254,7 @@ void emailAddress::parseImpl(
 				} else if (c == '(') {
 
 					state = State_LocalPartComment;
+					commentBefore = true;
 					++commentLevel;
 					++p;
 
@@ -284,7 +288,7 @@ void emailAddress::parseImpl(
 
 					if (--commentLevel == 0) {
 						// End of comment
-						state = State_LocalPartMiddle;
+						state = commentBefore ? State_Before : State_LocalPartMiddle;
 					}
 
 					++p;
@@ -370,6 +374,7 @@ void emailAddress::parseImpl(
 					// By allowing comments anywhere in the local part,
 					// we are more permissive than RFC-2822
 					state = State_LocalPartComment;
+					commentBefore = false;
 					++commentLevel;
 					++p;
 
-- 
2.43.0


From 83e02733dee2942bcf45549364482bfffa625a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:09 +0000
Subject: [PATCH 222/227] fix: resetting the importance removes every field

---
 src/vmime/misc/importanceHelper.cpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/vmime/misc/importanceHelper.cpp b/src/vmime/misc/importanceHelper.cpp
index 20c8e13..ecbac0c 100644
--- a/src/vmime/misc/importanceHelper.cpp
+++ b/src/vmime/misc/importanceHelper.cpp
@@ -39,13 +39,8 @@ void importanceHelper::resetImportance(const shared_ptr <message>& msg) {
 
 void importanceHelper::resetImportanceHeader(const shared_ptr <header>& hdr) {
 
-	shared_ptr <headerField> fld;
-
-	if ((fld = hdr->findField("X-Priority")))
-		hdr->removeField(fld);
-
-	if ((fld = hdr->findField("Importance")))
-		hdr->removeField(fld);
+	hdr->removeAllFields("X-Priority");
+	hdr->removeAllFields("Importance");
 }
 
 
-- 
2.43.0


From aa78a90a55e59184a1e53d941361a7982eb23a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:38 +0000
Subject: [PATCH 223/227] fix: a message with an empty X-Priority is not of
 high importance

---
 src/vmime/misc/importanceHelper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/misc/importanceHelper.cpp b/src/vmime/misc/importanceHelper.cpp
index ecbac0c..02535d9 100644
--- a/src/vmime/misc/importanceHelper.cpp
+++ b/src/vmime/misc/importanceHelper.cpp
@@ -59,7 +59,7 @@ importanceHelper::Importance importanceHelper::getImportanceHeader(const shared_
 
 		const string value = fld->getValue <text>()->getWholeBuffer();
 
-		int n = IMPORTANCE_NORMAL;
+		int n = 3;  // "normal", if there is no number
 
 		std::istringstream iss(value);
 		iss.imbue(std::locale::classic());
-- 
2.43.0


From a277069a567463f4720d8276a1ce9c31ebfe38de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:27:14 +0000
Subject: [PATCH 224/227] fix: a copy of a context has its charset conversion
 options

---
 src/vmime/context.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vmime/context.cpp b/src/vmime/context.cpp
index 3fc4941..e9045e1 100644
--- a/src/vmime/context.cpp
+++ b/src/vmime/context.cpp
@@ -35,7 +35,8 @@ context::context()
 
 context::context(const context& ctx)
 	: object(),
-	  m_internationalizedEmail(ctx.m_internationalizedEmail) {
+	  m_internationalizedEmail(ctx.m_internationalizedEmail),
+	  m_charsetConvOptions(ctx.m_charsetConvOptions) {
 
 }
 
-- 
2.43.0


From 113065e642d936afccddc62bf2c61b27ec063101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:27:14 +0000
Subject: [PATCH 225/227] fix: assigning a generation context also copies its
 message id wrapping

---
 src/vmime/generationContext.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vmime/generationContext.cpp b/src/vmime/generationContext.cpp
index 24757c7..514c782 100644
--- a/src/vmime/generationContext.cpp
+++ b/src/vmime/generationContext.cpp
@@ -132,6 +132,7 @@ void generationContext::copyFrom(const generationContext& ctx) {
 	m_maxLineLength = ctx.m_maxLineLength;
 	m_prologText = ctx.m_prologText;
 	m_epilogText = ctx.m_epilogText;
+	m_wrapMessageId = ctx.m_wrapMessageId;
 	m_paramValueMode = ctx.m_paramValueMode;
 }
 
-- 
2.43.0


From 85394575981606d9816d5ec9af01097f10b0951d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:27:14 +0000
Subject: [PATCH 226/227] fix: a copy of a parsing context has its recovery
 method and host name setting

---
 src/vmime/parsingContext.cpp | 12 +++++++++++-
 src/vmime/parsingContext.hpp |  2 ++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/vmime/parsingContext.cpp b/src/vmime/parsingContext.cpp
index e80eab7..5d50db0 100644
--- a/src/vmime/parsingContext.cpp
+++ b/src/vmime/parsingContext.cpp
@@ -35,11 +35,21 @@ parsingContext::parsingContext()
 
 parsingContext::parsingContext(const parsingContext& ctx)
 	: context(ctx),
-	  m_headerParseErrorRecovery(vmime::headerParseRecoveryMethod::SKIP_LINE) {
+	  m_headerParseErrorRecovery(ctx.m_headerParseErrorRecovery),
+	  m_useMyHostname(ctx.m_useMyHostname) {
 
 }
 
 
+void parsingContext::copyFrom(const parsingContext& ctx) {
+
+	context::copyFrom(ctx);
+
+	m_headerParseErrorRecovery = ctx.m_headerParseErrorRecovery;
+	m_useMyHostname = ctx.m_useMyHostname;
+}
+
+
 parsingContext& parsingContext::getDefaultContext() {
 
 	static thread_local parsingContext ctx;
diff --git a/src/vmime/parsingContext.hpp b/src/vmime/parsingContext.hpp
index 95c5195..308e4ec 100644
--- a/src/vmime/parsingContext.hpp
+++ b/src/vmime/parsingContext.hpp
@@ -101,6 +101,8 @@ public:
 	  */
 	void setUseMyHostname(bool useMyHostname);
 
+	void copyFrom(const parsingContext& ctx);
+
 protected:
 
 	headerParseRecoveryMethod::headerLineError m_headerParseErrorRecovery;
-- 
2.43.0


From 0d644422a02b27224b3e47186030de36b28b7e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:27:14 +0000
Subject: [PATCH 227/227] fix: parameter values are generated with the context
 given

---
 src/vmime/parameter.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/vmime/parameter.cpp b/src/vmime/parameter.cpp
index 6e316ab..c75c842 100644
--- a/src/vmime/parameter.cpp
+++ b/src/vmime/parameter.cpp
@@ -392,7 +392,12 @@ void parameter::generateImpl(
 	    genMode != generationContext::PARAMETER_VALUE_NO_ENCODING) {
 
 		utility::outputStreamStringAdapter generatedValueStream(generatedValue);
-		m_value->generate(generatedValueStream);
+
+		// The value is not folded according to the length of the lines
+		generationContext valueCtx(ctx);
+		valueCtx.setMaxLineLength(lineLengthLimits::convenient);
+
+		m_value->generate(valueCtx, generatedValueStream);
 
 		// Some parts of the value may have been left unencoded
 		needQuoting = utility::stringUtils::needQuoting(generatedValue, "()<>@,;:\\\"/[]?= \t\r\n");
-- 
2.43.0

