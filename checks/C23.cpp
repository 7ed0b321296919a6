// C23: input adapters deliver exactly the bytes of their source, output adapters and copies store exactly what was written.
#include "common.hpp"
#include "vmime/utility/seekableInputStreamRegionAdapter.hpp"
#include "vmime/utility/inputStreamByteBufferAdapter.hpp"
#include "vmime/utility/inputStreamPointerAdapter.hpp"
#include "vmime/utility/outputStreamByteArrayAdapter.hpp"
#include "vmime/utility/progressListener.hpp"
#include "vmime/platforms/posix/posixFile.hpp"
#include <fstream>
#include <sstream>
#include <sys/resource.h>
#include <signal.h>
#include <unistd.h>
namespace U = vmime::utility;
typedef vmime::shared_ptr <U::seekableInputStream> SK;
// seekable stream which delivers few bytes at a time
struct shortReads : U::seekableInputStream { SK in; size_t k; shortReads(SK i, size_t n) : in(i), k(n) {} bool eof() const override { return in->eof(); } void reset() override { in->reset(); } vmime::size_t read(vmime::byte_t* const d, const vmime::size_t n) override { return in->read(d, std::min<size_t>(n, k)); } vmime::size_t skip(const vmime::size_t n) override { return in->skip(n); } vmime::size_t getPosition() const override { return in->getPosition(); } void seek(const vmime::size_t p) override { in->seek(p); } };
struct kind { bool exactEof = true, shorts = false, memory = true; std::string name; };
struct source { std::string D; SK s; kind k; std::shared_ptr<std::string> keep; std::shared_ptr<std::istream> is; std::string file; vmime::shared_ptr <vmime::utility::file> f; };
static std::string tmpFile() { static unsigned n = 0; return pbt::scratchDir() + "/c23-" + std::to_string(getpid()) + "-" + std::to_string(n++); }
static vmime::shared_ptr <U::file> fileOf(const std::string& p) { auto fs = vmime::platform::getHandler()->getFileSystemFactory(); return fs->create(fs->stringToPath(p)); }
static void put(const std::string& path, const std::string& d) { FILE* f = fopen(path.c_str(), "wb"); if (!f || fwrite(d.data(), 1, d.size(), f) != d.size() || fclose(f)) throw std::runtime_error("cannot write scratch file"); }
static std::string slurp(const std::string& path) { std::ifstream f(path, std::ios::binary); std::ostringstream o; o << f.rdbuf(); return o.str(); }
static std::string data(Source& s) { switch (s.weighted({ 4, 3, 1, 1 })) { case 0: return s.str(40, "ab .\r\n-0"); case 1: return s.bytes(s.size(80)); case 2: { size_t n = s.sizeNear(4096, { 2048 }) + 2048 * (size_t) s.draw(2); return s.bulk(n, "ab-\n"); } default: return ""; } }
static bool noFiles = false;
static source make(Source& s, unsigned depth) {
	source r; r.D = data(s); r.keep = std::make_shared<std::string>();
	size_t k = s.draw(depth < 2 ? 8 : 5); if (noFiles && k == 5) k = 4; switch (k) {
	case 0: *r.keep = r.D; r.k.name = "string"; r.s = vmime::make_shared <U::inputStreamStringAdapter>(*r.keep); break;
	case 1: case 2: { std::string a = data(s).substr(0, 50), b = data(s).substr(0, 50); *r.keep = a + r.D + b; r.k.name = "range of a string"; r.s = vmime::make_shared <U::inputStreamStringAdapter>(*r.keep, a.size(), a.size() + r.D.size()); break; }
	case 3: *r.keep = r.D; r.k.name = "byte buffer"; r.s = vmime::make_shared <U::inputStreamByteBufferAdapter>(reinterpret_cast <const vmime::byte_t*>(r.keep->data()), r.D.size()); break;
	case 4: { r.k.exactEof = false; r.k.memory = false; auto is = new std::istringstream(r.D); if (s.coin()) { r.k.name = "std::istream"; r.is.reset(is); r.s = vmime::make_shared <U::inputStreamAdapter>(*is); } else { r.k.name = "pointer to a std::istream"; bool own = s.coin(); if (!own) r.is.reset(is); r.s = vmime::make_shared <U::inputStreamPointerAdapter>(is, own); } break; }
	case 5: { r.k.exactEof = false; r.k.memory = false; r.file = tmpFile(); put(r.file, r.D); if (s.coin()) { r.k.name = "std::ifstream"; r.is = std::make_shared<std::ifstream>(r.file, std::ios::binary); r.s = vmime::make_shared <U::inputStreamAdapter>(*r.is); } else { r.k.name = "file"; r.f = fileOf(r.file); auto st = r.f->getFileReader()->getInputStream(); r.s = vmime::dynamicCast <U::seekableInputStream>(st); CHECK_MSG(r.s, "stream of a file is not seekable"); } break; }
	case 6: case 7: { source u = make(s, depth + 1); size_t b = s.draw(u.D.size()), n = s.draw(u.D.size() - b); auto reg = vmime::make_shared <U::seekableInputStreamRegionAdapter>(u.s, b, n); std::string d = u.D.substr(b, n); bool sh = u.k.shorts; r = u; r.D = d; r.s = reg; r.k.exactEof = true; r.k.memory = true; r.k.shorts = sh; r.k.name = "region of " + u.k.name; break; }
	default: { source u = make(s, depth + 1); r = u; if (s.coin()) { r.s = vmime::make_shared <shortReads>(u.s, 1 + s.draw(4)); r.k.shorts = true; r.k.name = "slow " + u.k.name; } else { r.s = vmime::make_shared <U::parserInputStreamAdapter>(u.s); r.k.name = "parser adapter of " + u.k.name; r.k.shorts = false; } }
	}
	return r;
}
static bool notLF(vmime::byte_t c) { return c != '\n'; } static bool isAB(vmime::byte_t c) { return c == 'a' || c == 'b' || c == ' '; } static bool any(vmime::byte_t) { return true; }
static void inputs(Source& s, Ctx& c) {
	noFiles = false;
	source u = make(s, 0); const std::string& D = u.D; size_t pos = 0; bool hit = false; unsigned ops = 0, moved = 0; c.label(u.k.name.substr(0, u.k.name.find(" of ")).c_str()); c.mix(D); NOTE(c, u.k.name << " " << pbt::esc(D.substr(0, 300)) << (D.size() > 300 ? "..." : ""));
	auto P = vmime::dynamicCast <U::parserInputStreamAdapter>(u.s); if (!P && s.oneIn(3)) { P = vmime::make_shared <U::parserInputStreamAdapter>(u.s); u.s = P; u.k.shorts = false; u.k.name = "parser adapter of " + u.k.name; }
	while (ops < 40 && s.more(14)) {
		++ops; size_t rem = D.size() - pos;
		switch (s.weighted({ 6, 3, 3, 1, 2, (unsigned) (P ? 12 : 0) })) {
		case 0: { size_t n = s.weighted({ 6, 1, 1 }) == 0 ? s.size(20) : s.coin() ? rem + s.draw(3) : (rem ? rem - s.draw(std::min<size_t>(rem, 2)) : 0); std::string b(n + 16, '\x5a'); size_t k = u.s->read(reinterpret_cast <vmime::byte_t*>(&b[0]), n); NOTE(c, "at " << pos << " read(" << n << ") = " << k); size_t want = std::min(n, rem); if (u.k.shorts) CHECK_MSG(k <= want && (k > 0 || want == 0), u.k.name << ": read(" << n << ") with " << rem << " left gives " << k); else CHECK_EQ(k, want, u.k.name + ": bytes read"); CHECK_EQ(pbt::esc(b.substr(0, k)), pbt::esc(D.substr(pos, k)), u.k.name + ": content"); CHECK_MSG(b.substr(k) == std::string(b.size() - k, '\x5a'), u.k.name << ": bytes stored after the " << k << " ones read"); if (n > rem) hit = true; pos += k; moved += k > 0; break; }
		case 1: { size_t n = s.weighted({ 6, 1, 1 }) == 0 ? s.size(20) : s.coin() ? rem : rem + 1 + s.draw(3); if (u.k.memory && s.oneIn(12)) n = (size_t) -1 - s.draw(3); size_t k = u.s->skip(n); NOTE(c, "at " << pos << " skip(" << n << ") = " << k); CHECK_EQ(k, std::min(n, rem), u.k.name + ": bytes skipped"); if (n > rem) hit = true; pos += k; break; }
		case 2: { size_t p = s.draw(D.size()); u.s->seek(p); NOTE(c, "seek(" << p << ")"); pos = p; hit = false; ++moved; break; }
		case 3: u.s->reset(); NOTE(c, "reset()"); pos = 0; hit = false; break;
		case 4: break;
		default: {
			switch (s.draw(5)) {
			case 0: { auto b = P->peekByte(); NOTE(c, "at " << pos << " peekByte()"); CHECK_EQ((unsigned) b, rem ? (unsigned) (unsigned char) D[pos] : 0u, u.k.name + ": peekByte()"); break; }
			case 1: { auto b = P->getByte(); NOTE(c, "at " << pos << " getByte()"); CHECK_EQ((unsigned) b, rem ? (unsigned) (unsigned char) D[pos] : 0u, u.k.name + ": getByte()"); if (rem) ++pos; else hit = true; break; }
			case 2: { size_t n = s.draw(std::min<size_t>(32, rem + 2)); std::string t = D.substr(pos, n); bool same = true; if (t.size() < n) { t.resize(n, 'Q'); same = false; } else if (n && s.coin()) { size_t i = s.draw(n - 1); t[i] = (char) (t[i] ^ 1); same = false; } NOTE(c, "at " << pos << " matchBytes(" << pbt::esc(t) << ")"); CHECK_EQ((int) P->matchBytes(t.data(), n), (int) same, u.k.name + ": matchBytes()"); break; }
			case 3: { size_t b = s.draw(D.size()), e = b + s.draw(D.size() - b); NOTE(c, "extract(" << b << ", " << e << ")"); CHECK_EQ(pbt::esc(P->extract(b, e)), pbt::esc(D.substr(b, e - b)), u.k.name + ": extract()"); hit = hit && pos == D.size() ? hit : false; break; }
			case 4: { size_t e = s.coin() ? D.size() : s.draw(D.size()); int w = (int) s.draw(2); auto pr = w == 0 ? notLF : w == 1 ? isAB : any; size_t q = pos; while (q < e && q < D.size() && pr((vmime::byte_t) D[q])) ++q; NOTE(c, "at " << pos << " skipIf(" << w << ", " << e << ")"); size_t k = P->skipIf(pr, e); CHECK_EQ(k, q - pos, u.k.name + ": skipIf()"); pos = q; break; }
			default: { std::string t = s.oneIn(4) || D.empty() ? s.str(4, "ab-\n.\r") : ""; if (t.empty() && !D.empty()) { size_t b = s.draw(D.size() - 1); t = D.substr(b, 1 + s.draw(s.oneIn(6) ? 2047 : 12)); } if (t.empty()) t = "x"; if (t.size() > 2048) t.resize(2048); size_t st = s.coin() ? 0 : s.draw(D.size()); size_t w = D.find(t, st); NOTE(c, "findNext(" << pbt::esc(t.substr(0, 60)) << ", " << st << ")"); CHECK_EQ((long long) P->findNext(t, st), (long long) (w == std::string::npos ? vmime::npos : w), u.k.name + ": findNext()"); break; }
			}
		} }
		CHECK_EQ(u.s->getPosition(), pos, u.k.name + ": position");
		bool e = u.s->eof(); if (u.k.exactEof && u.k.name.find("std::") == std::string::npos && u.k.name.find("file") == std::string::npos) CHECK_EQ((int) e, (int) (pos >= D.size()), u.k.name + ": end of stream"); else { CHECK_MSG(!e || pos == D.size(), u.k.name << ": eof() at " << pos << " of " << D.size()); (void) hit; }
	}
	// what is left, to the end
	std::string rest; unsigned idle = 0; while (!u.s->eof()) { vmime::byte_t b[700]; size_t k = u.s->read(b, s.coin() ? sizeof b : 7); rest.append((const char*) b, k); idle = k ? 0 : idle + 1; CHECK_MSG(idle < 3, u.k.name << ": reads nothing, and is not at its end"); } CHECK_EQ(pbt::esc(rest), pbt::esc(D.substr(pos)), u.k.name + ": the rest"); c.nontrivial(moved > 1 && D.size() > 3);
	u.s.reset(); P.reset(); if (!u.file.empty()) unlink(u.file.c_str());
}
struct listener : U::progressListener { std::vector<std::string> ev; size_t last = 0, total = 0, started = 0, stopped = 0; bool mono = true; void start(const vmime::size_t t) override { ++started; total = t; } void progress(const vmime::size_t cu, const vmime::size_t t) override { if (cu < last || t < cu || !started || stopped) mono = false; last = cu; } void stop(const vmime::size_t t) override { ++stopped; total = t; } };
struct rlim { rlimit old; bool set = false; rlim(size_t n) { getrlimit(RLIMIT_FSIZE, &old); rlimit x = old; x.rlim_cur = n; signal(SIGXFSZ, SIG_IGN); set = setrlimit(RLIMIT_FSIZE, &x) == 0; } ~rlim() { if (set) setrlimit(RLIMIT_FSIZE, &old); } };
static void outputs(Source& s, Ctx& c) {
	std::string want, str, file; vmime::byteArray arr; std::ostringstream oss; vmime::shared_ptr <U::outputStream> os; int kind = (int) s.draw(3); static const char* names[] = { "string output", "byte array output", "std::ostream output", "file output" }; c.label(names[kind]); size_t limit = 0;
	switch (kind) { case 0: if (s.coin()) want = str = "before "; os = vmime::make_shared <U::outputStreamStringAdapter>(str); break; case 1: if (s.coin()) { want = "xy"; arr.push_back('x'); arr.push_back('y'); } os = vmime::make_shared <U::outputStreamByteArrayAdapter>(arr); break; case 2: os = vmime::make_shared <U::outputStreamAdapter>(oss); break; default: { file = tmpFile(); unlink(file.c_str()); auto f = fileOf(file); f->createFile(); os = f->getFileWriter()->getOutputStream(); if (s.oneIn(3)) { limit = 1 + s.draw(60); c.label("file which cannot take everything"); } } }
	std::unique_ptr<rlim> rl; noFiles = limit != 0; if (limit) rl.reset(new rlim(limit)); unsigned ops = 0; bool failed = false;
	try { while (ops < 30 && s.more(6)) { ++ops; std::string d = data(s); NOTE(c, "write " << pbt::esc(d.substr(0, 200)));
		switch (s.draw(7)) { case 0: os->write(d.data(), d.size()); want += d; break; case 1: os->write(reinterpret_cast <const vmime::byte_t*>(d.data()), d.size()); want += d; break; case 2: *os << d; want += d; break; case 3: *os << "literal\r\n"; want += "literal\r\n"; break; case 4: { int v = (int) s.draw(2000000) - 1000000; *os << v; want += std::to_string(v); break; } case 5: { vmime::byte_t b = (vmime::byte_t) s.draw(255); *os << b; want += (char) b; break; } case 6: os->write("lit"); want += "lit"; break;
		default: { source u = make(s, 1); std::string D = u.D; NOTE(c, "copy of " << u.k.name << " " << pbt::esc(D.substr(0, 200))); size_t k = 0, n = D.size(); switch (s.draw(2)) { case 0: k = U::bufferedStreamCopy(*u.s, *os); want += D; break; case 1: { size_t st = s.draw(D.size() + (u.k.memory ? 2 : 0)), len = s.oneIn(5) ? (size_t) s.draw(5000) : s.draw(D.size() + 2); k = U::bufferedStreamCopyRange(*u.s, *os, st, len); std::string d2 = st < D.size() ? D.substr(st, len) : ""; want += d2; n = d2.size(); break; } default: { listener l; k = U::bufferedStreamCopy(*u.s, *os, s.draw(D.size() + 5), &l); want += D; CHECK_MSG(l.started == 1 && l.stopped == 1 && l.mono && l.total == D.size() && l.last == D.size(), "progress: started " << l.started << " stopped " << l.stopped << " total " << l.total << " last " << l.last << " of " << D.size()); } } CHECK_EQ(k, n, "bytes copied"); u.s.reset(); if (!u.file.empty()) unlink(u.file.c_str()); } }
	} os->flush(); } catch (vmime::exceptions::filesystem_exception& e) { if (!limit) throw; failed = true; NOTE(c, "refused: " << e.what()); }
	rl.reset(); os.reset(); c.mix(want); std::string got = kind == 0 ? str : kind == 1 ? std::string(arr.begin(), arr.end()) : kind == 2 ? oss.str() : slurp(file); if (!file.empty()) unlink(file.c_str());
	if (failed) { size_t n = std::min(got.size(), want.size()); CHECK_EQ(pbt::esc(got.substr(0, n)), pbt::esc(want.substr(0, n)), "beginning of a file which could not take everything"); c.label("a write was refused"); } else CHECK_EQ(pbt::esc(got), pbt::esc(want), std::string(names[kind]));
	c.nontrivial(ops > 1);
}
static void run(Source& s, Ctx& c) { if (s.draw(2)) inputs(s, c); else outputs(s, c); }
Property makeProperty() {
	Property p; p.id = "C23"; p.run = run; p.init = installPlatform; p.quick = 400000; p.thorough = 5000000;
	p.rule = "input adapters (string, range of a string, byte buffer, std streams, owned pointers, files, regions, nested regions, slow streams, parser adapters over any of them) driven by up to 40 reads, skips, seeks, resets, peeks, matches, extractions and searches, compared with a string and a position after each; output adapters and files (some of which cannot take everything) fed by writes, operators and copies; non-trivial: several moves over more than three bytes, or several writes";
	p.assumptions = { "positions given to seek() lie within the stream", "findNext() is asked for at most 2048 bytes, matchBytes() for at most 32" };
	return p;
}
