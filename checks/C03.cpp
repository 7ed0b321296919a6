#include "gen.hpp"

// ---- independent model of a well-formed MIME entity
struct node { std::vector<std::pair<std::string, std::string>> fields; std::string boundary, prolog, epilog, cte, raw, decoded; std::vector<node> kids; int unended = 0; };

static std::string modelBoundary(Source& s, unsigned& serial) {
	std::string b = s.pick({ "b", "=_b", "--b", "a'()+,./:=?b", "B-", "x_" }) + std::to_string(serial++);
	if (s.oneIn(6)) b += std::string(s.draw(60), 'k');
	return b + "z";  // no boundary is a prefix of another one
}
static std::string bodyBytes(Source& s, const std::vector<std::string>& outer) {
	std::string r;
	unsigned n = (unsigned) s.draw(6);
	for (unsigned i = 0 ; i < n ; ++i) {
		switch (s.draw(8)) {
		case 0: r += s.str(8); break;
		case 1: r += s.pick({ "\r\n", "\n", "\r", "\r\n\r\n", "--", "\r\n--", "-", "\r\n-", "\n--", " " }); break;
		case 2: if (!outer.empty()) { const std::string& b = s.pick(outer); r += s.pick({ "--", "x--", "\n-", "\n --", "\r\n--", "\n---" }) + b.substr(0, 1 + s.draw(b.size() - 1)); } break;
		case 3: r += s.bulk((size_t) s.pickInt({ 300, 2030, 2047, 2048, 2049, 4090, 4096, 9000 }), s.pick({ "ab \n", "", "-\r\n", "b01z-\r\n" })); break;
		case 4: r += s.str(20, "abc .:\r\n"); break;
		case 5: r += s.pick({ "Subject: x\r\n", "From a@b Mon\n", ".", "..\r\n", "=", "=3D", "=\r\n" }); break;
		case 6: r += std::string(s.size(70), s.coin() ? 'x' : '\n'); break;
		case 7: if (!outer.empty()) { const std::string& b = s.pick(outer); r += s.pick({ "x--", " --", "\n-", "=\r\n -", "\n\t--" }) + b + s.pick({ "", "--", "\r\n" }); } break;
		default: r += s.pick({ "\0", "\xff\xfe", "\xc3\xa9", "\x1a" }); break;
		}
	}
	// a delimiter line may not occur inside
	for (const auto& b : outer) {
		std::string d = "--" + b; size_t p = 0;
		while ((p = r.find(d, p)) != std::string::npos) { if (p == 0 || r[p - 1] == '\n') r[p] = 'x'; ++p; }
	}
	return r;
}
static node genNode(Source& s, std::vector<std::string>& outer, unsigned depth, unsigned& serial) {
	node n; unsigned nf = (unsigned) s.draw(3);
	for (unsigned i = 0 ; i < nf ; ++i) n.fields.push_back({ s.pick({ "Subject", "X-One", "X-Two", "Content-Description", "x-lower", "From", "Date" }), "" });
	for (auto& f : n.fields) f.second = f.first == "From" ? "a@b.c" : f.first == "Date" ? "Mon, 12 Jan 2015 10:20:30 +0100" : s.pick({ "v", "hello world", "a; b=c", "x:y", "\"q\"" }) + std::to_string(s.draw(99));
	if (depth < 4 && s.draw(depth == 0 ? 3 : 6) != 0 && (depth == 0 || s.coin())) {
		n.boundary = modelBoundary(s, serial); outer.push_back(n.boundary);
		n.fields.push_back({ "Content-Type", "multipart/" + s.pick({ "mixed", "alternative", "related", "x-y" }) + "; boundary=\"" + n.boundary + "\"" });
		if (s.oneIn(4)) n.prolog = s.pick({ "This is a multi-part message.", "prolog", "-- x", "a b c" });
		if (s.oneIn(4)) n.epilog = s.pick({ "epilog", "end of message", "-x" });
		unsigned k = 1 + (unsigned) s.draw(4);
		for (unsigned i = 0 ; i < k ; ++i) n.kids.push_back(genNode(s, outer, depth + 1, serial));
		outer.pop_back();
	} else {
		n.raw = bodyBytes(s, outer);
		switch (s.draw(3)) {
		case 0: n.cte = s.pick({ "", "7bit", "8bit", "binary" }); n.decoded = n.raw; break;
		case 1: { n.cte = "base64"; n.decoded = n.raw; std::string e = refB64(n.decoded), o; size_t w = (size_t) s.pickInt({ 76, 4, 60, 1000000 }); for (size_t i = 0 ; i < e.size() ; i += w) { if (i) o += "\r\n"; o += e.substr(i, w); } n.raw = o; if (s.coin()) n.raw += "\r\n"; break; }
		case 2: { n.cte = "quoted-printable"; n.decoded = n.raw; std::string o; size_t col = 0; for (unsigned char ch : n.decoded) { if (col > 70) { o += "=\r\n"; col = 0; } if (ch > 32 && ch < 127 && ch != '=' && !(ch == '-' && col == 0)) { o += (char) ch; ++col; } else { char h[8]; snprintf(h, 8, "=%02X", ch); o += h; col += 3; } } n.raw = o; break; }
		default: n.decoded = n.raw; break;
		}
		if (!n.cte.empty()) n.fields.insert(n.fields.begin() + (long) s.draw(n.fields.size()), { "Content-Transfer-Encoding", n.cte });
		if (s.oneIn(3)) n.fields.push_back({ "Content-Type", s.pick({ "text/plain; charset=utf-8", "application/octet-stream", "image/png; name=\"a.png\"", "message/rfc822" }) });
	}
	return n;
}
// with bare LF line ends, a CR at the end of a part would belong to the delimiter
static void noFinalCR(node& n) { if (n.kids.empty() && !n.raw.empty() && n.raw.back() == '\r') { if (n.decoded == n.raw) n.decoded.back() = '.'; n.raw.back() = '.'; } for (auto& k : n.kids) noFinalCR(k); }
static void put(const node& n, std::string& o, Source& s, const std::string& nl) {
	for (auto& f : n.fields) o += f.first + ": " + f.second + nl;
	o += nl;
	if (n.boundary.empty()) { o += n.raw; return; }
	if (!n.prolog.empty()) o += n.prolog + nl;
	for (auto& k : n.kids) { o += "--" + n.boundary + (s.oneIn(8) ? " \t" : "") + nl; put(k, o, s, nl); if (n.unended != 3 || &k != &n.kids.back()) o += nl; }
	// the data ends too early: within the last delimiter line, or before it
	if (n.unended) { if (n.unended == 1) o += "--" + n.boundary; else if (n.unended == 2) o += "--" + n.boundary + nl; return; }
	o += "--" + n.boundary + "--" + (s.oneIn(10) ? " " : "");
	if (!n.epilog.empty()) o += nl + n.epilog; else if (s.coin()) o += nl;
}
static void cmp(const node& n, const vmime::shared_ptr<vmime::bodyPart>& p, const std::string& at) {
	auto fl = p->getHeader()->getFieldList();
	CHECK_EQ(fl.size(), n.fields.size(), at + " number of fields");
	for (size_t i = 0 ; i < fl.size() ; ++i) {
		CHECK_EQ(fl[i]->getName(), n.fields[i].first, at + " field name");
		auto t = vmime::dynamicCast<vmime::text>(fl[i]->getValue());
		if (t) CHECK_EQ(t->getWholeBuffer(), n.fields[i].second, at + " field value");
	}
	auto b = p->getBody();
	if ((n.unended == 1 || n.unended == 2) && b->getPartCount() == n.kids.size() + 1) CHECK_EQ(extractRawStr(b->getPartAt(n.kids.size())->getBody()->getContents()), std::string(), at + " part after the last delimiter");
	else CHECK_EQ(b->getPartCount(), n.kids.size(), at + " number of parts");
	if (n.kids.empty()) {
		CHECK_EQ(extractRawStr(b->getContents()), n.raw, at + " raw contents");
		CHECK_EQ(b->getContents()->getLength(), n.raw.size(), at + " announced length");
		CHECK_EQ(extractStr(b->getContents()), n.decoded, at + " decoded contents");
		return;
	}
	CHECK_EQ(b->getPrologText(), n.prolog, at + " prolog");
	CHECK_EQ(b->getEpilogText(), n.epilog, at + " epilog");
	for (size_t i = 0 ; i < n.kids.size() ; ++i) cmp(n.kids[i], b->getPartAt(i), at + "/" + std::to_string(i));
}

// ---- positions of any parsed tree
static void inside(const vmime::component& c, size_t lo, size_t hi, const char* what) {
	size_t a = c.getParsedOffset(), n = c.getParsedLength();
	if (n == 0) return;
	CHECK_MSG(a >= lo && a + n <= hi, what << " at " << a << "+" << n << " outside its parent " << lo << ".." << hi);
}
static void bounds(const vmime::shared_ptr<vmime::bodyPart>& p, const std::string& in, size_t lo, size_t hi) {
	inside(*p, lo, hi, "part");
	size_t a = p->getParsedOffset(), e = a + p->getParsedLength();
	auto h = p->getHeader(); auto b = p->getBody();
	inside(*h, a, e, "header"); inside(*b, a, e, "body");
	if (h->getParsedLength() && b->getParsedLength()) CHECK_MSG(h->getParsedOffset() + h->getParsedLength() <= b->getParsedOffset(), "header overlaps body");
	size_t at = h->getParsedOffset();
	for (auto& f : h->getFieldList()) {
		inside(*f, h->getParsedOffset(), h->getParsedOffset() + h->getParsedLength(), "field");
		if (!f->getParsedLength()) continue;
		CHECK_MSG(f->getParsedOffset() >= at, "field overlaps the field before");
		at = f->getParsedOffset() + f->getParsedLength();
		CHECK_EQ(lower(in.substr(f->getParsedOffset(), f->getName().size())), lower(f->getName()), "text at the position of the field");
		inside(*f->getValue(), f->getParsedOffset(), at, "field value");
	}
	at = b->getParsedOffset();
	if (b->getPartCount() == 0 && b->getParsedLength()) {
		std::string want = in.substr(b->getParsedOffset(), b->getParsedLength());
		bool multipart = b->getContents()->isEmpty();  // a multipart without any part keeps no contents
		if (!multipart) {
			CHECK_EQ(extractRawStr(b->getContents()), want, "raw contents of the part");
			std::string enc = b->getContents()->getEncoding().getName();
			if (enc == "base64") { std::string d; if (tolerant([&] { d = extractStr(b->getContents()); }) && want.find_first_not_of("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/") == std::string::npos && want.size() % 4 == 0) CHECK_EQ(d, refUnB64(want), "decoded contents"); }
			else if (enc == "7bit" || enc == "8bit" || enc == "binary") CHECK_EQ(extractStr(b->getContents()), want, "decoded contents");
		}
	}
	for (auto& k : b->getPartList()) {
		if (k->getParsedLength()) { CHECK_MSG(k->getParsedOffset() >= at, "part at " << k->getParsedOffset() << " overlaps what is before " << at); at = k->getParsedOffset() + k->getParsedLength(); }
		bounds(k, in, b->getParsedOffset(), b->getParsedOffset() + b->getParsedLength());
	}
}

static void run(Source& s, Ctx& c) {
	if (s.draw(2) != 0) {
		std::vector<std::string> outer; unsigned serial = 0;
		node n = genNode(s, outer, 0, serial);
		if (!n.kids.empty() && s.oneIn(8)) { n.unended = 1 + (int) s.draw(2); n.epilog.clear(); c.label("model: no final delimiter"); }
		std::string o, nl = s.oneIn(4) ? "\n" : "\r\n"; if (nl == "\n") noFinalCR(n); put(n, o, s, nl);
		NOTE(c, "message " << pbt::show(o)); c.mix(o); c.nontrivial(!n.kids.empty() || n.raw.size() > 2); c.label(n.kids.empty() ? "model: single part" : "model: multipart");
		auto m = vmime::make_shared<vmime::message>();
		bool pre = s.oneIn(4); std::string in = o; size_t off = 0;
		if (pre) { off = 1 + s.draw(40); in = std::string(off, 'p') + o + s.pick({ "", "tail", "\r\n--b0z\r\n" }); c.label("inside a larger buffer"); }
		size_t np = 0;
		if (pre) m->parse(in, off, off + o.size(), &np); else { m->parse(in); np = o.size(); }
		CHECK_EQ(np, off + o.size(), "end position");
		cmp(n, m, "part");
		bounds(m, in, off, off + o.size());
	} else {
		std::string in = genMessageText(s);
		NOTE(c, "bytes " << pbt::show(in)); c.mix(in); c.nontrivial(in.size() > 10); c.label("soup");
		auto m = vmime::make_shared<vmime::message>();
		m->parse(in);
		if (m->getBody()->getPartCount()) c.label("soup: multipart");
		bounds(m, in, 0, in.size());
	}
}

Property makeProperty() {
	Property p; p.id = "C03"; p.run = run; p.init = installPlatform; p.quick = 60000; p.thorough = 2000000;
	p.rule = "two thirds: MIME trees written out by an independent generator (known structure, positions, contents) and compared part by part; one third: broken MIME text, positions and contents checked against the input; non-trivial: multipart or more than a few bytes";
	return p;
}
