#include "textgen.hpp"
#include "vmime/mailboxField.hpp"
// Whatever is stored in the free-form parts of a header, the generated header keeps its structure.

static std::string hostile(Source& s) {
	std::string r; unsigned n = 1 + (unsigned) s.draw(6);
	for (unsigned i = 0 ; i < n ; ++i) switch (s.draw(9)) {
		case 0: r += s.str(12); break;
		case 1: r += s.pick({ "\r\n", "\n", "\r", "\r\n\r\n", "\r\nBcc: victim@x.y\r\n", "\nX: y\n", "\r\n ", " \r\n\t", "\r\r\n", "\n\n", "\r\nSubject: z" }); break;
		case 2: r += s.pick({ "=?", "?=", "=?utf-8?Q?a?=", "=?utf-8?Q?=0D=0AX:_y?=", "=?utf-8?B?DQpYOiB5?=", "=?us-ascii?Q?a", " =?x?Q?b?=" }); break;
		case 3: { unsigned l = 1 + (unsigned) s.draw(s.oneIn(4) ? 200 : 20); for (unsigned k = 0 ; k < l ; ++k) r += (char) ('a' + s.draw(25)); break; }
		case 4: { unsigned l = 1 + (unsigned) s.draw(12); for (unsigned k = 0 ; k < l ; ++k) { if (k) r += ' '; unsigned m = 1 + (unsigned) s.draw(12); for (unsigned z = 0 ; z < m ; ++z) r += (char) ('a' + s.draw(25)); } break; }
		case 5: { unsigned l = 1 + (unsigned) s.draw(30); for (unsigned k = 0 ; k < l ; ++k) { uint32_t cp = genCodepoint(s); putUtf8(r, cp); } break; }
		case 6: r += s.pick({ " ", "  ", "\t", ":", ";", ",", "\"", "\\", "\\\"", "<", ">", "@", "(", ")", "%", "'", "*", ".", "=" }); break;
		case 7: r += s.oneIn(8) ? std::string("\0", 1) : std::string(s.pick({ "\xff\xfe", "\x80", "\x7f", "\x1b$B", "\x0b", "\x0c", "\xc3" })); break;
		default: r += ' '; break;
	}
	return r;
}
static bool clean(const std::string& t) { for (unsigned char c : t) if (c < 32 || c > 126) return false; return true; }
static vmime::text genText(Source& s, std::vector<std::string>& raw) {
	vmime::text t; unsigned n = 1 + (unsigned) s.draw(2);
	for (unsigned i = 0 ; i < n ; ++i) { std::string h = hostile(s); raw.push_back(h); t.appendWord(vmime::make_shared<vmime::word>(h, vmime::charset(s.pick({ "utf-8", "us-ascii", "iso-8859-1", "utf-8", "iso-2022-jp", "x-unknown", "windows-1252" })), s.oneIn(8) ? "en" : "")); }
	return t;
}
struct fld { std::string name; int kind; bool foldable; };

static const size_t SLACK = 14;
static void run(Source& s, Ctx& c) {
	size_t mll = (size_t) s.pickInt({ 78, 78, 76, 100, 998, 60, 50, 40 }); vmime::generationContext gc; gc.setMaxLineLength(mll); bool intl = s.oneIn(5); gc.setInternationalizedEmailSupport(intl);
	static const vmime::generationContext::EncodedParameterValueModes M[] = { vmime::generationContext::PARAMETER_VALUE_RFC2231_ONLY, vmime::generationContext::PARAMETER_VALUE_RFC2231_AND_RFC2047, vmime::generationContext::PARAMETER_VALUE_RFC2047_ONLY, vmime::generationContext::PARAMETER_VALUE_NO_ENCODING }; gc.setEncodedParameterValueMode(M[s.draw(3)]);
	auto fac = vmime::headerFieldFactory::getInstance(); auto h = vmime::make_shared<vmime::header>();
	std::vector<fld> fs; unsigned n = 1 + (unsigned) s.draw(4); std::string all; bool hostileSeen = false;
	for (unsigned i = 0 ; i < n ; ++i) {
		fld f; f.kind = (int) s.draw(6); f.foldable = false; vmime::shared_ptr<vmime::headerField> hf; std::vector<std::string> raw;
		switch (f.kind) {
		case 0: case 1: f.name = s.pick({ "Subject", "Comments", "X-A-Rather-Long-Field-Name", "X-T" }); hf = fac->create(f.name); hf->setValue(genText(s, raw)); f.foldable = raw.size() == 1;  /* words are not separated by white space */ c.label("text"); break;
		case 2: { f.name = "From"; hf = fac->create(f.name); auto t = genText(s, raw); hf->setValue(vmime::mailbox(t, vmime::emailAddress("me", "example.org"))); c.label("display name"); break; }
		case 3: { f.name = s.pick({ "To", "Cc" }); hf = fac->create(f.name); auto l = vmime::make_shared<vmime::addressList>(); unsigned k = 1 + (unsigned) s.draw(2); for (unsigned j = 0 ; j < k ; ++j) { if (s.oneIn(3)) { auto g = vmime::make_shared<vmime::mailboxGroup>(genText(s, raw)); g->appendMailbox(vmime::make_shared<vmime::mailbox>(genText(s, raw), vmime::emailAddress("a", "b.c"))); l->appendAddress(g); } else l->appendAddress(vmime::make_shared<vmime::mailbox>(genText(s, raw), vmime::emailAddress("u" + std::to_string(j), "example.org"))); } hf->setValue(l); c.label("address list"); break; }
		case 4: { f.name = "Reply-To"; hf = fac->create(f.name); std::string l = hostile(s); raw.push_back(l); auto al = vmime::make_shared<vmime::addressList>(); al->appendAddress(vmime::make_shared<vmime::mailbox>(vmime::emailAddress(vmime::word(l, vmime::charset("utf-8")), vmime::word("example.org", vmime::charset("utf-8"))))); hf->setValue(al); c.label("local part"); break; }
		case 5: { f.name = s.pick({ "Content-Disposition", "Content-Type" }); hf = fac->create(f.name); if (f.name == "Content-Type") hf->setValue(vmime::mediaType("text", "plain")); else hf->setValue(vmime::contentDisposition("attachment")); auto pf = vmime::dynamicCast<vmime::parameterizedHeaderField>(hf); unsigned k = 1 + (unsigned) s.draw(2); for (unsigned j = 0 ; j < k ; ++j) { std::string v = hostile(s); raw.push_back(v); pf->appendParameter(vmime::make_shared<vmime::parameter>("p" + std::to_string(j), vmime::word(v, vmime::charset(s.pick({ "utf-8", "us-ascii", "iso-8859-1" })), s.oneIn(8) ? "fr" : ""))); } c.label("parameter"); break; }
		default: { f.name = s.pick({ "Subject", "X-Str", "Comments" }); hf = fac->create(f.name); std::string v = hostile(s); raw.push_back(v); hf->setValue(v); c.label("from a string"); break; }
		}
		for (auto& r : raw) { all += f.name + "=" + pbt::show(r) + " "; c.mix(r); if (!clean(r)) hostileSeen = true; }
		h->appendField(hf); fs.push_back(f);
	}
	c.mix(mll); c.nontrivial(hostileSeen);
	strOut o; if (intl) { if (!tolerant([&] { h->generate(gc, o); })) { c.label("unknown charset"); return; } } else h->generate(gc, o); const std::string& g = o.s;
	NOTE(c, "line length " << mll << (intl ? " intl" : "") << " values " << all << "\ngenerated " << pbt::show(g));
	for (size_t i = 0 ; i < g.size() ; ++i) { if (g[i] == '\r') CHECK_MSG(i + 1 < g.size() && g[i + 1] == '\n', "bare CR at " << i << " in " << pbt::show(g)); if (g[i] == '\n') CHECK_MSG(i && g[i - 1] == '\r', "bare LF at " << i << " in " << pbt::show(g)); }
	// structure
	auto ls = splitLines(g); CHECK_MSG(!ls.empty() && ls.back().empty(), "header does not end with a line end: " << pbt::show(g)); ls.pop_back();
	size_t k = 0; bool fold = false;
	for (auto& l : ls) {
		CHECK_MSG(!l.empty(), "empty line inside of the header: " << pbt::show(g));
		if (l[0] != ' ' && l[0] != '\t') { CHECK_MSG(k < fs.size() && l.compare(0, fs[k].name.size() + 1, fs[k].name + ":") == 0, "line " << pbt::show(l) << " is not the field expected, in " << pbt::show(g)); fold = fs[k].foldable; ++k; }
		// an encoded word may exceed the limit by its last character
		bool ew = l.find("=?") != std::string::npos;
		size_t st = l.find(' '); std::string lt = l.substr(0, l.find_last_not_of(" \t") + 1); bool single = lt.find_first_of(" \t", st == std::string::npos ? 0 : st + 1) == std::string::npos;  // nowhere to fold
		if (fold && !single) CHECK_MSG(l.size() <= (ew ? std::min(mll, (size_t) 76) + SLACK : mll + 2), "line of " << l.size() << " bytes, maximum " << mll << ": " << pbt::show(l) << " in " << pbt::show(g));
		if (fold && !intl) for (char ch : l) CHECK_MSG(!(ch & 0x80), "8-bit byte in " << pbt::show(g));
	}
	CHECK_EQ(k, fs.size(), "number of fields of " + pbt::show(g));
	auto p = vmime::make_shared<vmime::header>(); p->parse(g + "\r\nbody: x\r\n");
	CHECK_EQ(p->getFieldCount(), fs.size(), "number of fields vmime finds in " + pbt::show(g));
	for (size_t i = 0 ; i < fs.size() ; ++i) CHECK_EQ(p->getFieldAt(i)->getName(), fs[i].name, "field " + std::to_string(i) + " of " + pbt::show(g));
}
Property makeProperty() {
	Property p; p.id = "C10"; p.run = run; p.init = installPlatform; p.quick = 60000; p.thorough = 3000000;
	p.rule = "headers of 1 to 5 fields whose texts, display names, group names, local parts, parameter values and string-assigned values hold any bytes (line ends, whole injected fields, encoded words, NUL, invalid UTF-8, long runs), 8 line lengths, 4 parameter modes, internationalised or not; non-trivial: some value holds a byte which is not printable ASCII";
	return p;
}
