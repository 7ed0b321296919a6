#include "gen.hpp"
#include "vmime/utility/seekableInputStreamRegionAdapter.hpp"
#include "vmime/platforms/posix/posixFile.hpp"
#include <fstream>
#include <unistd.h>

static const char* firstDiff(const std::string& a, const std::string& b, std::string& out) {
	auto la = std::vector<std::string>(), lb = la; std::istringstream ia(a), ib(b); std::string l;
	while (std::getline(ia, l)) la.push_back(l); while (std::getline(ib, l)) lb.push_back(l);
	for (size_t i = 0 ; i < std::max(la.size(), lb.size()) ; ++i) {
		std::string x = i < la.size() ? la[i] : "(end)", y = i < lb.size() ? lb[i] : "(end)";
		if (x != y) { out = "got <" + x.substr(0, 300) + "> expected <" + y.substr(0, 300) + ">"; break; }
	}
	return out.c_str();
}
static void same(const std::string& got, const std::string& want, const std::string& what) {
	if (got == want) return; std::string d; firstDiff(got, want, d); FAIL(what << ": " << d);
}

static void run(Source& s, Ctx& c) {
	std::string in = genMessageText(s);
	if (s.oneIn(4)) { std::string t = s.bulk((size_t) s.pickInt({ 2040, 4090, 4096, 8190 }), "ab \n"); size_t p = s.draw(in.size()); in.insert(p, t); }
	size_t pre = s.oneIn(3) ? 1 + s.draw(30) : 0; std::string post = s.oneIn(3) ? s.pick({ "x", "\r\n--b1\r\n", "\n", "--", "tail tail" }) : "";
	std::vector<size_t> cuts = genCuts(s); bool late = s.coin();
	unsigned how = (unsigned) s.draw(6);
	NOTE(c, "source " << how << " offset " << pre << " fragments " << showCuts(cuts) << (late ? " late end of stream" : "") << " bytes " << pbt::show(in));
	c.mix(in); c.mix(how); c.nontrivial(in.size() > 10);
	std::string all = std::string(pre, '#') + in + post; size_t end = pre + in.size();
	if (end == 0) return;  // means: length not specified

	vmime::parsingContext ctx;
	auto ref = vmime::make_shared<vmime::message>();
	size_t np0 = 0, np1 = 0;
	ref->parse(ctx, all, pre, end, &np0);
	auto m = vmime::make_shared<vmime::message>();
	std::string name; vmime::shared_ptr<vmime::utility::inputStream> st; bool knowsNew = true;
	switch (how) {
	case 0: name = "seekable stream"; st = vmime::make_shared<chunkSeekIn>(all, cuts); break;
	case 1: name = "plain stream"; st = vmime::make_shared<chunkIn>(all, cuts, late); break;
	case 2: name = "string stream"; st = vmime::make_shared<vmime::utility::inputStreamStringAdapter>(all); break;
	case 3: name = "byte buffer"; st = vmime::make_shared<vmime::utility::inputStreamByteBufferAdapter>(reinterpret_cast<const byte_t*>(all.data()), all.size()); break;
	case 4: name = "std stream"; { auto iss = new std::istringstream(all); st = vmime::make_shared<vmime::utility::inputStreamPointerAdapter>(iss, true); } break;
	case 5: name = "file"; {
		std::string p = pbt::scratchDir() + "/msg" + std::to_string(getpid()); std::ofstream(p, std::ios::binary) << all;
		auto f = vmime::platform::getHandler()->getFileSystemFactory()->create(vmime::platform::getHandler()->getFileSystemFactory()->stringToPath(p));
		st = f->getFileReader()->getInputStream(); break; }
	default: name = "region of a stream"; st = vmime::make_shared<vmime::utility::seekableInputStreamRegionAdapter>(vmime::make_shared<chunkSeekIn>("zz" + all + "yy", cuts), 2, all.size()); break;
	}
	c.label(name);
	if (pre == 0 && post.empty() && s.oneIn(3)) { c.label("length not given"); m->parse(st, 0); knowsNew = false; }
	else m->parse(ctx, st, pre, end, &np1);
	if (knowsNew) CHECK_EQ(np1, np0, name + ": end position");
	same(dump(m), dump(ref), name);
	// contents are readable again, and in any order, and the tree generates the same text
	same(dump(m), dump(ref), name + ", read again");
	std::string g0, g1; bool ok0 = tolerant([&] { g0 = genStr(*ref, 78); }), ok1 = tolerant([&] { g1 = genStr(*m, 78); });
	CHECK_EQ(ok1, ok0, name + ": generation");
	// a multipart whose boundary had to be guessed keeps it; otherwise generation is deterministic except for random boundaries
	if (g0.find("=_") == std::string::npos) CHECK_EQ(g1, g0, name + ": generated text");
	// also the header alone
	if (s.oneIn(4)) {
		auto h0 = vmime::make_shared<vmime::header>(), h1 = vmime::make_shared<vmime::header>();
		std::string hd = in.substr(0, s.draw(in.size()));
		h0->parse(ctx, hd); h1->parse(ctx, vmime::make_shared<chunkSeekIn>(hd, cuts), 0, hd.size());
		if (!hd.empty()) { CHECK_EQ(genStr(*h1), genStr(*h0), "header from a stream"); CHECK_EQ(h1->getParsedLength(), h0->getParsedLength(), "header length"); }
	}
}

Property makeProperty() {
	Property p; p.id = "C04"; p.run = run; p.init = installPlatform; p.quick = 40000; p.thorough = 1500000;
	p.rule = "MIME text (well-formed, broken, large) at an offset of a larger source, parsed from memory and from one of 7 kinds of streams with scripted short reads; full dumps (fields, values, parameters, positions, raw and decoded contents) compared; non-trivial: more than 10 bytes";
	return p;
}
