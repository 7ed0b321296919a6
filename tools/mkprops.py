#!/usr/bin/env python3
"""Writes properties.jsonl from the table below (one place to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
        anchors=dict(files=["src/vmime/"+f if not f.startswith(("src","contrib")) else f for f in files],
            mechanism=[dict(name=n, where="src/vmime/"+w) for n, w in mech],
            **({"state":[dict(name=a,meaning=b,where="src/vmime/"+c) for a,b,c in state]} if state else {}),
            observe_at=observe or ["public C++ API"], hook_needed=None)))

# ---------------------------------------------------------------- parsing
prop("C01","Parsing any bytes as a message is safe and yields a usable tree",
 "Parsing any sequence of bytes as a message (from memory or from a stream) terminates without crashing, reading or writing outside its buffers, or running away in time, and yields a tree. Every part, header field, value and body of that tree can then be visited, printed, cloned, regenerated and extracted, again ending normally or with a vmime exception only.",
 "inputs configurations","all byte strings (multipart soups, nested/duplicated/missing boundaries, malformed fields, 8-bit, NUL, long lines, deep nesting), all parse recovery settings, both input kinds",
 "The suite parses about a hundred fixed well-formed or lightly malformed messages; memory safety and termination quantify over every input an attacker can mail.",
 ["body.cpp","bodyPart.cpp","header.cpp","headerField.cpp","component.cpp","utility/parserInputStreamAdapter.cpp","message.cpp"],
 [("boundary search and guessing","body.cpp body::parseImpl, findNextBoundaryPosition"),("field splitting and recovery","headerField.cpp headerField::parseNext"),("stream lookahead","utility/parserInputStreamAdapter.cpp")],
 ["message::parse, header/body walk, generate, contentHandler::extract under ASan/UBSan"])
prop("C02","Any bytes are a parsable header value, and parsing stays inside its range",
 "Every header field value type (text, addresses, dates, media types, dispositions, message ids, relays, parameters, paths) accepts any bytes without crashing, out-of-bounds access or endless looping, and stays within the given range. The result depends only on the bytes inside that range (not on what surrounds it or on the value held before), and whatever is parsed from a well-folded field value never breaks out of its field when generated again.",
 "inputs","all byte strings biased to the syntax characters and keywords of each grammar, for each value type, as whole string and as sub-range of a larger buffer",
 "Tests give each value type a handful of literal strings; totality and fixed-point behaviour are claims about all strings.",
 ["text.cpp","word.cpp","mailbox.cpp","mailboxGroup.cpp","addressList.cpp","emailAddress.cpp","dateTime.cpp","mediaType.cpp","disposition.cpp","contentDisposition.cpp","messageId.cpp","messageIdSequence.cpp","relay.cpp","parameter.cpp","path.cpp","encoding.cpp","parameterizedHeaderField.cpp"],
 [("value parsers","word.cpp word::parseNext; mailbox.cpp mailbox::parseImpl; address.cpp address::parseNext; dateTime.cpp datetime::parseImpl; relay.cpp relay::parseImpl")])
prop("C03","Unmodified parsed bodies extract byte-for-byte and lie where reported",
 "After parsing a message, every component's reported position and length lie inside the input and inside its parent, and siblings do not overlap. The raw contents of a leaf part equal the bytes of the input at that place, its decoded contents equal the independent decoding of those bytes, and bytes are never lost, duplicated or altered, whatever they are.",
 "inputs","all well-formed MIME trees with arbitrary bytes in leaf bodies, prologs and epilogs, LF and CRLF line ends, all transfer encodings",
 "Tests compare positions for a few constant messages; exact byte fidelity is a statement about arbitrary content.",
 ["body.cpp","bodyPart.cpp","header.cpp","component.cpp","streamContentHandler.cpp","stringContentHandler.cpp"],
 [("body bounds","body.cpp body::parseImpl"),("decoding handlers","streamContentHandler.cpp extract/extractRaw; stringContentHandler.cpp extract/extractRaw"),("parsed bounds","component.cpp setParsedBounds")])
prop("C04","Parsing gives the same result from memory and from any stream",
 "Parsing the same bytes from a string, from a seekable stream and from a non-seekable stream gives the same tree: same fields, values, parts, prologs, epilogs, positions and contents. This holds however the underlying stream fragments its reads.",
 "inputs schedules","all messages (well-formed and malformed) x all read fragmentations of the stream",
 "No test varies the chunking of the input stream; the buffer-boundary behaviour only shows for particular offsets.",
 ["component.cpp","utility/parserInputStreamAdapter.cpp","utility/seekableInputStreamRegionAdapter.cpp","body.cpp","bodyPart.cpp"],
 [("buffered lookahead search","utility/parserInputStreamAdapter.cpp findNext/matchBytes"),("region adapter","utility/seekableInputStreamRegionAdapter.cpp")])
prop("C05","A generated MIME tree parses back to the same tree",
 "A message built through the API (any fields, any nesting of multiparts, any contents including lines that look like boundaries or From lines) and generated, parses back to the same structure: same field names, values and parameters in order, same part tree, prologs and epilogs, and byte-identical decoded contents. The announced size of the generated message is an upper bound of its real size.",
 "inputs configurations","all part trees up to a depth and fan-out bound, all contents, boundaries, transfer encodings, maximum line lengths",
 "Tests generate a few fixed trees; boundary collisions, empty bodies and encodings interact over all contents.",
 ["body.cpp","bodyPart.cpp","header.cpp","headerField.cpp","component.cpp","generationContext.cpp"],
 [("boundary choice","body.cpp body::generateRandomBoundaryString/isValidBoundary"),("generation","body.cpp body::generateImpl; bodyPart.cpp bodyPart::generateImpl"),("size estimate","component.cpp getGeneratedSize")])
# ---------------------------------------------------------------- codecs
prop("C07","Transfer encodings round-trip any bytes and emit conforming text",
 "Encoding any bytes with base64, quoted-printable (text, binary and RFC 2047 modes), uuencode, 7bit, 8bit or binary and decoding the result returns the same bytes, and the result does not depend on how the input or output streams fragment their reads. Encoded output uses only the alphabet and line length its encoding and settings allow, and base64 and quoted-printable output is readable by an independent decoder.",
 "inputs schedules configurations","all byte strings, all read fragmentations, all encoder properties (line length, text mode, RFC 2047 mode)",
 "The encoder tests use short constants with one read; boundaries of internal buffers and soft line breaks depend on length, content and fragmentation.",
 ["utility/encoder/b64Encoder.cpp","utility/encoder/qpEncoder.cpp","utility/encoder/uuEncoder.cpp","utility/encoder/noopEncoder.cpp","utility/encoder/sevenBitEncoder.cpp","utility/encoder/encoderFactory.cpp","utility/streamUtils.cpp"],
 [("base64","utility/encoder/b64Encoder.cpp encode/decode"),("quoted-printable","utility/encoder/qpEncoder.cpp encode/decode"),("uuencode","utility/encoder/uuEncoder.cpp encode/decode")])
prop("C08","Decoders accept any bytes and size estimates are upper bounds",
 "Decoding any bytes with any transfer decoder terminates without out-of-bounds access, with output or a vmime exception, independent of read fragmentation, and equal to a reference decoding for base64 and quoted-printable. The size an encoder announces for its output is never smaller than what encode or decode actually writes.",
 "inputs schedules configurations","all byte strings (valid, truncated, corrupted encodings), all fragmentations, all line-length settings",
 "Tests decode valid constants only; truncated or hostile encodings and all sizes are not sampled.",
 ["utility/encoder/b64Encoder.cpp","utility/encoder/qpEncoder.cpp","utility/encoder/uuEncoder.cpp","utility/encoder/encoder.cpp"],
 [("decoders","utility/encoder/b64Encoder.cpp decode; qpEncoder.cpp decode; uuEncoder.cpp decode"),("size estimates","utility/encoder/*.cpp getEncodedSize/getDecodedSize")])
# ---------------------------------------------------------------- header text
prop("C09","Header text of any language survives generation and parsing",
 "A text made of any words in any supported charset (with or without language tags), put in a header and generated at any line length, parses back to the same characters in the same order (words separated by white space), with nothing lost, added or merged wrongly. Encoded words never split a character, so each one can be decoded on its own by an independent decoder.",
 "inputs configurations","all Unicode strings, all charsets convertible by the library, all line lengths and starting columns",
 "Word-splitting depends on character widths against the remaining line length: tests cover a few dozen literals.",
 ["text.cpp","word.cpp","wordEncoder.cpp","charset.cpp","encoding.cpp"],
 [("chunking in whole characters","wordEncoder.cpp getNextChunk/guessBestEncoding"),("encoded-word parsing","word.cpp word::parseNext/parse"),("folding","word.cpp word::generate")])
prop("C10","Generated headers are always well-formed on the wire",
 "Whatever free-form values are stored in header fields through the API, the generated header keeps its structure: each field starts on its own line, continuation lines start with white space, no stored text, display name, local part or parameter value can start a new field or end the header, and no bare CR or LF is emitted from them. Unstructured text (one word) is folded wherever it has white space so that lines stay within the maximum line length (a line of encoded words may exceed it by the last character it holds).",
 "inputs configurations","all field values (any bytes in text, display names, parameters), all maximum line lengths >= 40",
 "Injection and folding faults need unusual values (CR/LF, long words, column coincidences) that no test enumerates.",
 ["headerField.cpp","parameterizedHeaderField.cpp","parameter.cpp","word.cpp","wordEncoder.cpp","header.cpp"],
 [("folding and encoding decisions","word.cpp word::generate; wordEncoder.cpp isEncodingNeeded"),("parameter quoting","parameter.cpp parameter::generateImpl"),("field output","headerField.cpp headerField::generateImpl")])
prop("C11","Parameters round-trip in every generation mode",
 "Any parameter value (any characters, any length, any supported charset) attached to a field, generated in any of the parameter encoding modes, parses back to the same value, in modes whose format can express it. Parameters keep their names and distinctness, and quoted, extended and multi-section values written by other agents are reassembled correctly.",
 "inputs configurations","all parameter names/values/charsets, all modes, all section splits",
 "Interactions of splitting, percent-encoding, quoting and charset are combinatorial; tests hold about twenty literals.",
 ["parameter.cpp","parameterizedHeaderField.cpp","word.cpp"],
 [("section output","parameter.cpp parameter::generateImpl"),("section reassembly","parameterizedHeaderField.cpp parseImpl; parameter.cpp parseImpl")])
prop("C12","Addresses of every form survive generation and parsing",
 "Any list of mailboxes and groups (any display names, quoted or internationalised local parts and domains, empty groups) generated into a header parses back to the same list: same names, same addresses, same grouping and order. Writing an e-mail address as text and parsing it again gives an equal address.",
 "inputs configurations","all address lists with arbitrary Unicode names and valid local/domain parts, all line lengths, internationalised addresses enabled or not",
 "Tests hold some fifty literal address lists; quoting, comments and encoding interact over arbitrary names.",
 ["address.cpp","addressList.cpp","mailbox.cpp","mailboxGroup.cpp","emailAddress.cpp","mailboxList.cpp","charsetConverter_idna.cpp"],
 [("address parsing","address.cpp address::parseNext; mailbox.cpp parseImpl; mailboxGroup.cpp parseImpl"),("name quoting","mailbox.cpp mailbox::generateImpl"),("IDNA","charsetConverter_idna.cpp")])
prop("C13","Dates round-trip, compare and convert consistently",
 "Any valid Gregorian date (years 1583 to 9999) with any time zone (up to 99:59) generated in a header parses back to the same fields, and equality and ordering of dates agree with the order of the instants they denote, whatever zones they are expressed in. Conversions between universal and local time, to and from Unix time, week numbers, week days and calendar helpers agree with an independent calendar computation.",
 "inputs","all dates from 1900 to 9999 with all zone offsets, all Unix times in 64-bit-safe range, alternate date syntaxes (two-digit years, named and military zones, comments)",
 "Tests hold a few literal dates; carry, leap-year and zone arithmetic is a claim about all dates.",
 ["dateTime.cpp","utility/datetimeUtils.cpp"],
 [("parsing","dateTime.cpp datetime::parseImpl"),("comparison","dateTime.cpp operator<, operator=="),("zone arithmetic","utility/datetimeUtils.cpp toUniversalTime/toLocalTime/fromUniversalTime")])
prop("C14","Structured field values round-trip",
 "Media types, content dispositions, transfer encodings, message ids and their sequences, delivery dispositions, trace (Received) values and mail paths, with any contents their grammar allows, generated and parsed back are equal to the original. Equality is an equivalence relation consistent with this, and case-insensitive parts compare case-insensitively.",
 "inputs","all values of each type within its grammar, all line lengths",
 "Each type has a few literal tests.",
 ["mediaType.cpp","contentDisposition.cpp","encoding.cpp","messageId.cpp","messageIdSequence.cpp","disposition.cpp","relay.cpp","path.cpp"],
 [("grammars","messageId.cpp messageId::parseImpl; disposition.cpp parseImpl/generateImpl; relay.cpp parseImpl/generateImpl; mediaType.cpp")])
prop("C15","Clones and copies are equal and independent",
 "Cloning or copying any message, part, header, field, parameter or value gives an object that generates exactly the same text as its source. Changing either one afterwards never affects the other.",
 "inputs histories","all component trees (parsed or built), all subsequent mutations of source or copy",
 "Tests clone almost nothing; shared sub-objects only show through later mutation of arbitrary component types.",
 ["bodyPart.cpp","body.cpp","header.cpp","headerField.cpp","parameterizedHeaderField.cpp","parameter.cpp","text.cpp","word.cpp","mailbox.cpp","addressList.cpp","relay.cpp","path.cpp","disposition.cpp","contentTypeField.cpp"],
 [("clone/copyFrom","every component .cpp: clone, copyFrom")])
prop("C16","Component collections behave like ordered lists",
 "Every sequence of insert, append, remove, replace, clear and lookup operations on headers, bodies, address lists, groups, parameters, texts and id sequences gives the contents an ordered-list model predicts. Lookup by name is case-insensitive, replacing a field keeps the others, and invalid operations throw without changing anything.",
 "histories inputs","all operation sequences over each container, positions and names arbitrary",
 "Tests call each operation once or twice on fixed two-element containers.",
 ["header.cpp","body.cpp","addressList.cpp","mailboxList.cpp","mailboxGroup.cpp","parameterizedHeaderField.cpp","text.cpp","messageIdSequence.cpp"],
 [("container operations","header.cpp; body.cpp; addressList.cpp; mailboxGroup.cpp; parameterizedHeaderField.cpp; text.cpp; messageIdSequence.cpp")])
# ---------------------------------------------------------------- charset
prop("C17","Charset conversion is faithful and independent of buffering",
 "Converting any text between charsets gives the same characters as an independent converter, and converting there and back restores the text when the target can represent it. Results do not depend on the entry point (string, stream, filtered stream) or on how the data is split, and invalid or inexpressible input follows the configured policy (substitute or fail) at every position without losing neighbouring valid text.",
 "inputs schedules configurations","all Unicode strings and malformed byte strings, charset pairs, chunkings, option settings, for the ICU and the iconv back ends",
 "Tests convert fixed samples; splitting a multi-byte sequence across every buffer position is not sampled.",
 ["charset.cpp","charsetConverter.cpp","charsetConverter_icu.cpp","charsetConverter_iconv.cpp","charsetConverter_idna.cpp"],
 [("conversion loops","charsetConverter_icu.cpp convert, charsetFilteredOutputStream_icu; charsetConverter_iconv.cpp convert, charsetFilteredOutputStream_iconv")])
prop("C18","The automatically chosen transfer encoding carries the data intact",
 "For any contents and charset, the transfer encoding the library selects by itself encodes them so that the transferred text is safe for its declared encoding (7bit output has no 8-bit bytes, NUL or over-long lines) and decodes back to the identical bytes. Textual data is kept byte-identical whether it is given as string, stream or file contents.",
 "inputs configurations","all byte strings (ASCII, 8-bit, long lines, control characters, boundary lengths), all charsets and usages",
 "Selection depends on proportions, line lengths and markers of the whole data; tests use three or four constants.",
 ["encoding.cpp","stringContentHandler.cpp","streamContentHandler.cpp","fileContentHandler.cpp","emptyContentHandler.cpp"],
 [("selection","encoding.cpp encoding::decide/decideImpl"),("re-encoding","stringContentHandler.cpp generate; streamContentHandler.cpp generate")])
# ---------------------------------------------------------------- message API
prop("C19","A built message parses back to what was put in",
 "A message assembled with the message builder (any sender, recipients, subject, plain or HTML text with embedded objects, attachments of any bytes) and generated, when read back with the message parser gives the same sender, recipients, subject, date, text parts with their charsets, embedded objects with their identifiers, and attachments with their names, types, descriptions and exact contents.",
 "inputs configurations","all combinations of recipients, text parts, embedded objects and attachments, any Unicode/bytes in them",
 "Tests do not exercise builder and parser together at all beyond two literals.",
 ["messageBuilder.cpp","messageParser.cpp","plainTextPart.cpp","htmlTextPart.cpp","defaultAttachment.cpp","fileAttachment.cpp","parsedMessageAttachment.cpp","attachmentHelper.cpp"],
 [("construction","messageBuilder.cpp construct; htmlTextPart.cpp generateIn; defaultAttachment.cpp generateIn"),("extraction","messageParser.cpp findTextParts/findSubTextParts; attachmentHelper.cpp")])
prop("C20","Attachments can be added to and found in any message",
 "Adding an attachment to any message (single-part, multipart/mixed, alternative, related, already with attachments) keeps every existing text part and attachment intact and adds exactly that attachment, recoverable with the same bytes, name and type. The attachments reported for a message are exactly its parts that are attachments, each reported once.",
 "histories inputs","all starting message shapes x sequences of added attachments (files, streams, messages) x options",
 "Tests add one attachment to four fixed shapes.",
 ["attachmentHelper.cpp","bodyPartAttachment.cpp","defaultAttachment.cpp","generatedMessageAttachment.cpp","parsedMessageAttachment.cpp"],
 [("classification","attachmentHelper.cpp isBodyPartAnAttachment/findAttachmentsInBodyPart"),("insertion","attachmentHelper.cpp addAttachment")])
prop("C21","Read receipts carry their request's data intact",
 "Whether a message asks for a read receipt, to whom, and whether it is itself a receipt is reported exactly as its headers say. A receipt built for any message parses back with the same recipient, original message id, disposition, human text and reporting agent.",
 "inputs","all recipients, message ids, dispositions, texts, reporting agents",
 "No test touches receipts.",
 ["mdn/MDNHelper.cpp","mdn/receivedMDNInfos.cpp","mdn/sendableMDNInfos.cpp","disposition.cpp"],
 [("building","mdn/MDNHelper.cpp buildMDN/createThirdMDNPart"),("reading","mdn/receivedMDNInfos.cpp extract")])
# ---------------------------------------------------------------- streams & utilities
prop("C22","Stream filters transform content exactly, however it is split",
 "Dot-stuffing, dot-unstuffing, CRLF/LF conversions and stop-sequence filters give the output of their whole-string definition for any content and any splitting of reads and writes. Dot-stuffing followed by unstuffing restores the content, and the end marker is recognised exactly where it occurs.",
 "inputs schedules","all byte strings over an alphabet rich in CR, LF and dots, all splittings",
 "Filter state spans chunk borders: tests use a few fixed splits.",
 ["utility/filteredStream.cpp","utility/filteredStream.hpp"],
 [("filters","utility/filteredStream.cpp; utility/filteredStream.hpp stopSequenceFilteredInputStream")])
prop("C23","Stream adapters deliver exactly the underlying bytes",
 "Every input adapter (string, range of string, byte buffer, pointer, std stream, region of a seekable stream, parser adapter) delivers exactly the bytes of its source for any sequence of read, peek, skip, seek and end-of-stream queries, never writing beyond the requested count. Output adapters and copy helpers store exactly what was written, and report the exact number of bytes.",
 "histories inputs","all sources x all operation sequences, read sizes and seek positions",
 "Tests call a few fixed reads; partial reads at the end of ranges are not sampled.",
 ["utility/inputStreamStringAdapter.cpp","utility/inputStreamByteBufferAdapter.cpp","utility/inputStreamPointerAdapter.cpp","utility/inputStreamAdapter.cpp","utility/seekableInputStreamRegionAdapter.cpp","utility/parserInputStreamAdapter.cpp","utility/outputStreamStringAdapter.cpp","utility/outputStreamByteArrayAdapter.cpp","utility/outputStreamAdapter.cpp","utility/streamUtils.cpp"],
 [("adapters","utility/*Adapter.cpp"),("copy helpers","utility/streamUtils.cpp bufferedStreamCopy/bufferedStreamCopyRange")])
prop("C24","Message digests equal the standard for any input and any splitting",
 "MD5 and SHA-1 of any bytes equal the values of an independent implementation, whatever the sequence of updates, resets and buffer types used to feed them. The hexadecimal form is the digest's bytes in order.",
 "inputs histories","all byte strings with lengths around block borders, all update splits and resets",
 "Tests check the RFC samples and two or three splits.",
 ["security/digest/md5/md5MessageDigest.cpp","security/digest/sha1/sha1MessageDigest.cpp","security/digest/messageDigest.cpp"],
 [("block buffering and padding","security/digest/md5/md5MessageDigest.cpp update/finalize; security/digest/sha1/sha1MessageDigest.cpp update/finalize")])
prop("C25","URLs and paths round-trip and obey path algebra",
 "A URL with any protocol, host, port, user name, password, path and parameters written as text parses back to the same components, and percent-encoding restores any bytes. Folder paths behave like lists of components: joining, parent, descendant, renaming and comparison satisfy the list laws for any component names.",
 "inputs histories","all component strings (any bytes), ports, parameters; all path operation sequences",
 "Tests hold some thirty literal URLs and paths.",
 ["utility/url.cpp","utility/urlUtils.cpp","utility/path.cpp"],
 [("build and parse","utility/url.cpp url::build/parse"),("percent encoding","utility/urlUtils.cpp encode/decode"),("path operators","utility/path.cpp")])
prop("C26","Property sets store, convert and print like a map",
 "A property set holds exactly the last value set for each case-insensitive name, across any sequence of sets, reads, removals, typed conversions and parsing of its textual form. Values read back in the type they were written equal what was written.",
 "histories inputs","all operation sequences over names and typed values; all textual forms",
 "No direct tests exist.",
 ["propertySet.cpp","propertySet.hpp"],
 [("lookup and conversion","propertySet.hpp setProperty/getProperty; propertySet.cpp parse")])
# ---------------------------------------------------------------- net
prop("C27","Message sets denote exactly the chosen messages",
 "A set of messages built from any sequence of numbers, ranges and unique identifiers denotes exactly those messages: ranges stay minimal and disjoint where optimised, enumeration and membership agree with a set model, and the text sent to an IMAP server denotes the same set. Response code sets read from a server denote what the server said.",
 "inputs histories","all number/UID lists (duplicates, unordered, adjacent), all ranges including open-ended",
 "Tests hold a few fixed lists.",
 ["net/messageSet.cpp","net/imap/IMAPUtils.cpp"],
 [("construction","net/messageSet.cpp byNumber/byUID/addRange"),("wire form","net/imap/IMAPUtils.cpp messageSetToSequenceSet, buildMessageSet")])
prop("C28","Any bytes from an IMAP server are handled cleanly",
 "Whatever bytes an IMAP server sends, the client's response reader terminates with a parsed response or an exception, without out-of-bounds access or unbounded recursion, and independent of how the bytes arrive. Grammar-conforming responses (literals, quoted strings with escapes, nested body structures, flags, response codes) are parsed into exactly the values the server meant.",
 "inputs schedules","all byte strings and all responses derivable from the grammar, all fragmentations",
 "Tests parse a few literal lines with one fragmentation.",
 ["net/imap/IMAPParser.hpp","net/imap/IMAPCommand.cpp","net/imap/IMAPTag.cpp"],
 [("response grammar","net/imap/IMAPParser.hpp")])
prop("C29","IMAP operations act on exactly the intended messages and folders",
 "Against a conforming IMAP server, any sequence of client operations (select, list, create, rename, delete, append, fetch, store, copy, move, expunge, search, status) leaves the server in the state a simple model predicts, and reports to the caller what the server holds. Folder names, flags, search strings and credentials of any content reach the server exactly, and can never be interpreted as other protocol commands.",
 "histories inputs schedules","all operation sequences over a small mailbox model, any Unicode folder names and byte contents, all fragmentations",
 "Tests hold no IMAP session tests beyond tag/utility literals.",
 ["net/imap/IMAPFolder.cpp","net/imap/IMAPConnection.cpp","net/imap/IMAPMessage.cpp","net/imap/IMAPStore.cpp","net/imap/IMAPUtils.cpp","net/imap/IMAPCommand.cpp","net/imap/IMAPSearchAttributes.cpp","net/imap/IMAPMessagePart.cpp"],
 [("command building","net/imap/IMAPCommand.cpp"),("quoting and folder encoding","net/imap/IMAPUtils.cpp quoteString/toModifiedUTF7/fromModifiedUTF7"),("state tracking","net/imap/IMAPFolder.cpp processStatusUpdate/expunge/fetchMessages")])
prop("C30","POP3 operations retrieve and delete exactly the intended messages",
 "Against a conforming POP3 server, any sequence of operations (connect with any authentication, list, fetch headers, sizes and UIDs, retrieve, delete, reset, disconnect) reports exactly what the server holds, delivers message contents byte-for-byte, and deletes exactly the messages asked for.",
 "histories inputs schedules","all operation sequences over arbitrary mailboxes (any message bytes, dot lines, empty), all fragmentations, all capability sets",
 "Tests hold three fixed command/response literals.",
 ["net/pop3/POP3Connection.cpp","net/pop3/POP3Folder.cpp","net/pop3/POP3Response.cpp","net/pop3/POP3Command.cpp","net/pop3/POP3Message.cpp","net/pop3/POP3Utils.cpp"],
 [("multi-line responses","net/pop3/POP3Response.cpp readResponseImpl/retrieveResponseBlock"),("folder operations","net/pop3/POP3Folder.cpp")])
prop("C31","SMTP delivers exactly the message to exactly the recipients",
 "Sending any message over SMTP to a conforming server delivers it byte-for-byte (line ends as CRLF) with exactly the given envelope sender and recipients, for every combination of server extensions (pipelining, chunking, size, internationalised addresses, delivery notifications). If the server refuses any step, sending fails with an exception naming the failed command and no message is reported as sent; nothing in an address can inject a command.",
 "inputs schedules configurations fault_sequences","all message bytes, envelopes, extension sets, fragmentations and per-command refusals",
 "Tests hold about a dozen fixed dialogues.",
 ["net/smtp/SMTPTransport.cpp","net/smtp/SMTPConnection.cpp","net/smtp/SMTPResponse.cpp","net/smtp/SMTPCommand.cpp","net/smtp/SMTPCommandSet.cpp","net/smtp/SMTPChunkingOutputStreamAdapter.cpp"],
 [("envelope","net/smtp/SMTPTransport.cpp sendEnvelope"),("data phase","net/smtp/SMTPTransport.cpp send"),("chunking","net/smtp/SMTPChunkingOutputStreamAdapter.cpp"),("pipelining","net/smtp/SMTPCommandSet.cpp")])
prop("C32","A maildir store keeps every message intact and inside its root",
 "Any sequence of folder and message operations on a maildir store leaves on disk exactly the folders, messages, contents and flags a simple model predicts, in both supported directory layouts, and reopening the store shows the same. No operation, whatever the folder names, touches anything outside the store's root.",
 "histories inputs configurations","all operation sequences (create, rename, delete, list, append, fetch, flag, copy, expunge, status), any folder names, both layouts",
 "Tests check fixed listings and renames in both layouts.",
 ["net/maildir/maildirFolder.cpp","net/maildir/maildirMessage.cpp","net/maildir/maildirStore.cpp","net/maildir/maildirUtils.cpp","net/maildir/format/kmailMaildirFormat.cpp","net/maildir/format/courierMaildirFormat.cpp","platforms/posix/posixFile.cpp"],
 [("layout mapping","net/maildir/format/*.cpp folderPathToFileSystemPath"),("folder operations","net/maildir/maildirFolder.cpp"),("flags in file names","net/maildir/maildirUtils.cpp")])
prop("C33","The sendmail transport hands over message and recipients exactly",
 "Sending through the local sendmail program passes it exactly the bytes of the message (with LF in place of CRLF) and exactly the given sender and recipients, as separate arguments, whatever characters they contain. A program which is missing or fails makes sending fail with an exception; a message whose stream fails is never taken by the program for a complete one. No child process, open file or changed signal mask is left behind. Child processes in general receive their arguments and input, give their output and report their exit status exactly.",
 "inputs fault_sequences","all message bytes and sizes, all addresses, exit codes",
 "No test exercises this transport.",
 ["net/sendmail/sendmailTransport.cpp","platforms/posix/posixChildProcess.cpp"],
 [("argument vector and pipe","net/sendmail/sendmailTransport.cpp internalSend; platforms/posix/posixChildProcess.cpp start/waitForFinish")])
prop("C34","Only certificates valid for the server and trusted are accepted",
 "Certificate verification accepts a chain exactly when every certificate is currently valid, the chain is correctly signed and ends in a trusted root (or the leaf itself is trusted), and the leaf names the server connected to. In every other case it throws, and matching of host names follows the certificate's names (with wildcard rules) only.",
 "inputs configurations","all generated chains (valid, expired, reordered, wrong issuer, self-signed, name mismatches, wildcards), trusted sets, host names, for both TLS back ends",
 "No test touches certificates.",
 ["security/cert/defaultCertificateVerifier.cpp","security/cert/gnutls/X509Certificate_GnuTLS.cpp","security/cert/openssl/X509Certificate_OpenSSL.cpp"],
 [("chain verification","security/cert/defaultCertificateVerifier.cpp verifyX509"),("identity","security/cert/gnutls/X509Certificate_GnuTLS.cpp verifyHostName")])
prop("C35","Credentials are sent only as configured and exactly as given",
 "Authentication to SMTP, POP3 and IMAP servers succeeds with a conforming server exactly when the credentials match, for every mechanism (plain login, PLAIN, LOGIN, CRAM-MD5, APOP, XOAUTH2 and similar), whatever characters the user name and password contain. When a secure connection is required and the server does not provide one, no credential is sent and connecting fails. Protocol traces show neither passwords nor access tokens.",
 "inputs configurations fault_sequences","all credentials, all mechanism offers, TLS required/offered/refused",
 "No test covers authentication beyond two POP3/SMTP dialogues.",
 ["security/sasl/SASLSession.cpp","security/sasl/SASLContext.cpp","security/sasl/builtinSASLMechanism.cpp","security/sasl/XOAuth2SASLMechanism.cpp","security/sasl/defaultSASLAuthenticator.cpp","net/smtp/SMTPConnection.cpp","net/pop3/POP3Connection.cpp","net/imap/IMAPConnection.cpp"],
 [("mechanism loop","net/smtp/SMTPConnection.cpp authenticateSASL; net/pop3/POP3Connection.cpp authenticate; net/imap/IMAPConnection.cpp authenticateSASL"),("TLS requirement","net/*/…Connection.cpp connect/startTLS")])
prop("C36","Server failures surface as errors, never as hangs, crashes or false success",
 "If, at any point of any session, an SMTP, POP3 or IMAP server closes the connection (with or without a TLS close_notify), stops answering or stops receiving, or a stream given by the user fails, the client operation in progress ends with an exception (a timeout if nothing arrives): it does not report success. Only closing a folder or disconnecting may ignore that. Whatever the server sends instead of its answer (garbage, corrupted bytes), the client neither crashes nor waits for ever. What arrives late is never taken for the answer to a later command: a later operation gives its own result or throws. Disconnecting or destroying the client afterwards is always safe, leaves no connection open, and the same client can then connect again and gets the results of a session without fault.",
 "fault_sequences histories","all sessions x all fault points x all fault kinds (close, close_notify, stall, late answers, send failure, garbage, corruption, failing user stream)",
 "Tests inject no faults.",
 ["net/smtp/SMTPResponse.cpp","net/smtp/SMTPConnection.cpp","net/pop3/POP3Response.cpp","net/pop3/POP3Connection.cpp","net/imap/IMAPParser.hpp","net/imap/IMAPConnection.cpp"],
 [("read loops with timeouts","net/smtp/SMTPResponse.cpp readResponseLine; net/pop3/POP3Response.cpp; net/imap/IMAPParser.hpp read")])
prop("C37","The platform's sockets carry exactly the bytes of a connection",
 "Over any history of connects, sends, receives, waits and disconnects of a socket of the posix platform, and of the other end of its TCP connections (IPv4 or IPv6, by address or by name): the peer gets exactly the bytes which were sent, in order, and the client exactly those of the peer, including what was sent before the peer ended the connection; a receive gives at most what was asked for, and nothing (with STATUS_WOULDBLOCK) when nothing has arrived. A non-blocking send gives the number of bytes which it took. The end or the reset of a connection, a refused connection, and any use of a socket without a connection are reported as exceptions, the refused connection with its reason; isConnected() is false from then on. waitForRead() and waitForWrite() return true if and only if data has arrived (or the end) or can be sent. An operation fails with operation_timed_out if and only if the time-out handler says that the time is over and that it must not be prolonged. Signals change nothing. getPeerAddress() is the address of the peer. A new connect() or disconnect() closes the former connection; no descriptor is leaked.",
 "histories schedules","all interleavings of client and peer operations on TCP connections, all sizes up to several MB, time-out handler answers, FIN/RST at any point",
 "No test opens a socket.",
 ["platforms/posix/posixSocket.cpp","utility/inputStreamSocketAdapter.cpp","utility/outputStreamSocketAdapter.cpp","net/defaultTimeoutHandler.cpp"],
 [("connect, waitForData, receiveRaw, sendRaw","platforms/posix/posixSocket.cpp"),("stream adapters","utility/inputStreamSocketAdapter.cpp read; utility/outputStreamSocketAdapter.cpp writeImpl")])
prop("C38","The message parser presents messages written by any program",
 "For a message written by another program, plain or HTML, alternative or related in either nesting, mixed with attachments, the message parser reports every text part with its bytes and charset, the plain text alternative of the HTML text, and exactly the objects the HTML text refers to by Content-ID or by Content-Location, each with its type, encoding and bytes, which can be looked up by the reference. Its date is the one of the first Received field, or of the Date field when there is none. Attached text is an attachment and not a text of the message.",
 "inputs","all nestings of alternative, related and mixed parts x all ways of referring to objects x all encodings and charsets x all orders of header fields",
 "The suite reads a few constant MHTML messages; which parts belong to the text is a rule over all the shapes other programs write.",
 ["messageParser.cpp","htmlTextPart.cpp","plainTextPart.cpp","textPartFactory.cpp","relay.cpp"],
 [("text parts","messageParser.cpp messageParser::findSubTextParts"),("embedded objects","htmlTextPart.cpp htmlTextPart::parse, findEmbeddedParts"),("plain text alternative","htmlTextPart.cpp htmlTextPart::findPlainTextPart")])
prop("C39","What is set in a header is what is read from it",
 "A value set in a header field (by pointer, by reference or as text) is what is then read from it by name in any case and by type, until it is replaced or the field is removed. A value of the wrong type for a standard field is refused and changes nothing, and other fields are not affected. The typed parameters of Content-Type and Content-Disposition (charset, boundary, file name, size, dates) and the importance of a message read back as they were set, also after generating and parsing, are absent after being removed or reset, and any importance found in a message is read without failure.",
 "inputs histories","all sequences of setting, replacing, removing and reading fields, parameters and importance x all value types x messages with any existing fields of these names",
 "The tests set one value in one field; that every field keeps its own value and type through any sequence of changes is about histories.",
 ["header.cpp","headerField.cpp","headerFieldFactory.cpp","headerFieldFactory.hpp","contentDispositionField.cpp","contentTypeField.cpp","parameterizedHeaderField.cpp","misc/importanceHelper.cpp"],
 [("field and value types","headerFieldFactory.cpp headerFieldFactory::create, isValueTypeValid"),("values of a field","headerField.cpp headerField::setValue, setValueConst"),("importance","misc/importanceHelper.cpp importanceHelper::getImportanceHeader, setImportanceHeader, resetImportanceHeader"),("typed parameters","contentDispositionField.cpp; contentTypeField.cpp")])
prop("C40","Sessions give the right service, configured from its own properties",
 "A session gives, for every supported protocol named in any letter case, by name, by URL or by property, a service of that protocol and of the kind asked for (store or transport), nothing for a protocol of the other kind, and an error for an unknown protocol. The parts of a URL and the properties set on the session or through a service reach that service only: each property reads back with its type, or its documented default, or an error when required and not set; credentials come from them; and connecting goes to exactly the host and port (or directory) they give. Sessions do not influence one another.",
 "inputs histories","all histories of setting and removing properties, obtaining services, reading their configuration and connecting x all protocols x several sessions",
 "The tests of services configure one service in one way; that configuration reaches the right service and only it after any history is not sampled.",
 ["net/session.cpp","net/serviceFactory.cpp","net/serviceInfos.cpp","net/serviceInfos.hpp","net/service.cpp","net/imap/IMAPServiceInfos.cpp","net/pop3/POP3ServiceInfos.cpp","net/smtp/SMTPServiceInfos.cpp","net/maildir/maildirServiceInfos.cpp","net/sendmail/sendmailServiceInfos.cpp","security/defaultAuthenticator.cpp","net/defaultConnectionInfos.cpp"],
 [("URL to properties","net/serviceFactory.cpp serviceFactory::create"),("kind of service","net/session.cpp session::getStore, getTransport"),("values and defaults","net/serviceInfos.hpp serviceInfos::getPropertyValue"),("credentials","security/defaultAuthenticator.cpp defaultAuthenticator::getUsername, getPassword, getAccessToken")])
prop("C41","Header and body are told apart, whatever the header lines",
 "The header of a message or body part ends at its first empty line (or, with the method ASSUME_END_OF_HEADERS, at its first line which is not a header field), and the body is everything after it. A line which is not a header field is skipped, or ends the header, as the parsing context says; it never changes, hides or adds another field, and the context reports that recovery was needed exactly when there was such a line. Folded lines belong to the field they continue. A header read this way and generated is well-formed and reads back the same.",
 "inputs","all header lines x line ends x recovery methods x ways of reading x nesting",
 "The tests recover from one or two malformed headers; that no other line or ending loses fields or moves the start of the body is about all inputs.",
 ["headerField.cpp","header.cpp","bodyPart.cpp","parsingContext.cpp","parserHelpers.hpp"],
 [("lines, folding and recovery","headerField.cpp headerField::parseNext"),("end of the header","header.cpp header::parseImpl; bodyPart.cpp bodyPart::parseImpl"),("ends of lines","parserHelpers.hpp findEOL")])
prop("C42","Contexts: settings are honoured, copied and put back",
 "What is parsed or generated with a given context depends on the settings of that context alone, not on those of the default context; the same settings give the same result in an original context, in a copy of it, and when it is made the default one. A copy of a parsing or generation context has all its settings, and changing one does not change the other. Switching the default context makes it have the settings of the context given until the end of the switch, when all its previous settings are back, for switches nested in each other as well.",
 "histories","all histories of setting, copying, assigning and switching contexts x all settings x messages parsed and generated",
 "The tests set one option in one context; that no setting is lost or leaks through any sequence of copies and switches is about histories.",
 ["context.cpp","context.hpp","parsingContext.cpp","generationContext.cpp","charsetConverterOptions.hpp","parameter.cpp","component.cpp"],
 [("copies","context.cpp; parsingContext.cpp; generationContext.cpp copyFrom and copy constructors"),("switches","context.hpp context::switcher"),("explicit contexts","component.cpp component::parse, component::generate; parameter.cpp parameter::generateImpl")])
prop("C43","Files and directories through the file system interface",
 "Creating (with or without parent directories), renaming, removing, writing, reading and listing files and directories through the file system interface does to the real tree exactly what was asked, and to nothing else. An operation which cannot be done (missing parent, existing target, directory which is not empty, missing permission) fails with an error and leaves the tree as it was; an existing file is never overwritten by creating or renaming. Queries about existence, kind, length, access, parent and entries say what is there, including names with any characters, and a file read in any pieces, with skips and seeks, gives the bytes which were written.",
 "histories","all sequences of operations x all trees and names x permissions",
 "The tests do not use the file system interface on its own; that no sequence of operations loses or overwrites files is about histories.",
 ["platforms/posix/posixFile.cpp","platforms/posix/posixFile.hpp","utility/file.hpp","utility/path.cpp"],
 [("operations","platforms/posix/posixFile.cpp posixFile::createFile, createDirectoryImpl, rename, remove"),("streams","platforms/posix/posixFile.cpp posixFileReaderInputStream, posixFileWriterOutputStream"),("listing","platforms/posix/posixFile.cpp posixFileIterator")])
if __name__ == "__main__":
    here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(here, "w") as f:
        for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
    import sys
    try:
        import jsonschema
        s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
        for p in P: jsonschema.validate(p, s)
        print(len(P), "properties, valid")
    except ImportError: print(len(P), "properties")
