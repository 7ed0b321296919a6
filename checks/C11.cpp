#include "textgen.hpp"
// Parameters: API -> text in each mode -> (independent RFC 2231/2047 reader, vmime's parser); and foreign syntax -> vmime's parser.

struct prm { std::string name, u8, enc, cs; };
static std::string showP(const std::string& n, const std::string& v) { return n + " = " + pbt::show(v); }

static std::string genPName(Source& s, unsigned i) { return s.pick({ "filename", "name", "p", "a-very-long-parameter-name", "X-y", "title" }) + std::to_string(i); }
static void genValue(Source& s, prm& p, bool ctl) {
	const csInfo& cs = s.pick(charsetsKnown()); std::vector<uint32_t> cp; unsigned n = 1 + (unsigned) s.draw(s.oneIn(6) ? 30 : 4), mixed = (unsigned) s.draw(3);
	for (unsigned i = 0 ; i < n ; ++i) { if (i) cp.push_back(' '); genLetters(s, cs, 1 + (unsigned) s.draw(s.oneIn(12) ? 150 : 10), cp, mixed == 0 ? 0 : mixed == 1 ? 10 : 5); }
	if (ctl && s.oneIn(8)) { size_t k = (size_t) s.draw(cp.size() - 1); cp[k] = (uint32_t) s.pickInt({ '\r', '\n', '\t', 1, 127, ' ', '%', '\'', '*' }); }
	if (ctl && s.oneIn(10)) cp.insert(cp.begin(), ' ');
	if (ctl && s.oneIn(10)) cp.push_back(' ');
	if (std::string(cs.name) == "iso-2022-jp") for (auto& x : cp) if (x < 0x20) x = ' ';  // a line end resets the state
	p.u8 = toUtf8(cp); size_t q;
	// what looks like an encoded word cannot be told from one
	while ((q = p.u8.find("=?")) != std::string::npos) p.u8[q] = 'x';
	while ((q = p.u8.find("?=")) != std::string::npos) p.u8[q] = 'x';
	p.cs = cs.name; CHECK_MSG(iconvTo(p.u8, "utf-8", cs.name, p.enc), cs.name << pbt::show(p.u8));
}
static int hx(char c) { return hexval((unsigned char) c); }
static std::string unpct(const std::string& s) { std::string r; for (size_t i = 0 ; i < s.size() ; ++i) if (s[i] == '%' && i + 2 < s.size() && hx(s[i + 1]) >= 0 && hx(s[i + 2]) >= 0) { r += (char) (hx(s[i + 1]) * 16 + hx(s[i + 2])); i += 2; } else r += s[i]; return r; }
// independent reader. name (lower case) -> value in UTF-8. Throws std::string
static std::map<std::string, std::string> refParams(const std::string& field, std::string* mainValue, std::map<std::string, bool>* ext) {
	std::string u; for (size_t i = 0 ; i < field.size() ; ++i) { if (field[i] == '\r' && i + 1 < field.size() && field[i + 1] == '\n') { ++i; continue; } u += field[i]; }
	std::vector<std::string> it(1); bool q = false;
	for (size_t i = 0 ; i < u.size() ; ++i) { if (q && u[i] == '\\' && i + 1 < u.size()) { it.back() += u[i]; it.back() += u[++i]; continue; } if (u[i] == '"') q = !q; if (u[i] == ';' && !q) it.emplace_back(); else it.back() += u[i]; }
	if (q) throw std::string("open quoted string");
	*mainValue = trimWs(it[0]);
	struct sec { bool enc; std::string v; }; std::map<std::string, std::map<unsigned, sec>> xs; std::map<std::string, std::string> plain, out;
	for (size_t i = 1 ; i < it.size() ; ++i) {
		std::string t = trimWs(it[i]); size_t e = t.find('='); if (e == std::string::npos || !e) throw "not a parameter: " + t;
		std::string n = t.substr(0, e), v = t.substr(e + 1);
		if (!v.empty() && v[0] == '"') { if (v.size() < 2 || v.back() != '"') throw "bad quoted string: " + t; std::string w; for (size_t k = 1 ; k + 1 < v.size() ; ++k) { if (v[k] == '\\') ++k; w += v[k]; } v = w; }
		else for (char c : v) if (strchr("()<>@,;:\\\"/[]?= \t", c) || (unsigned char) c < 33 || (c & 0x80) || c == 127) throw "not a token: " + pbt::show(v);
		for (char c : n) if (!strchr("*", c) && (strchr("()<>@,;:\\\"/[]?= \t%'", c) || (unsigned char) c < 33 || (c & 0x80))) throw "bad name " + n;
		n = lower(n); bool enc = false; if (n.back() == '*') { enc = true; n.pop_back(); }
		size_t st = n.find('*'); unsigned num = 0; bool x = enc;
		if (st != std::string::npos) { std::string d = n.substr(st + 1); if (d.empty() || (d.size() > 1 && d[0] == '0') || d.find_first_not_of("0123456789") != std::string::npos) throw "bad section " + n; num = (unsigned) atoi(d.c_str()); n.resize(st); x = true; }
		if (x) { if (xs[n].count(num)) throw "section given twice " + n; xs[n][num] = sec{ enc, v }; } else { if (plain.count(n)) throw "parameter given twice " + n; plain[n] = v; }
	}
	for (auto& p : plain) { if (ext) (*ext)[p.first] = false; out[p.first] = p.second.find("=?") == std::string::npos ? p.second : refDecode2047(p.second); }
	for (auto& p : xs) {
		std::string bytes, cs = "us-ascii"; unsigned k = 0;
		for (auto& z : p.second) { if (z.first != k++) throw "missing section of " + p.first; std::string v = z.second.v; if (z.first == 0 && z.second.enc) { size_t a = v.find('\''), b = a == std::string::npos ? a : v.find('\'', a + 1); if (b == std::string::npos) throw "no charset in " + p.first; cs = v.substr(0, a); v = v.substr(b + 1); } bytes += z.second.enc ? unpct(v) : v; }
		std::string d; if (!iconvTo(bytes, cs, "utf-8", d)) throw "value of " + p.first + " is not valid " + cs; out[p.first] = d; if (ext) (*ext)[p.first] = true;
	}
	return out;
}
static std::string pct(Source& s, const std::string& t) { std::string r; for (char c : t) { if (isalnum((unsigned char) c) && !s.oneIn(6)) r += c; else { char b[8]; snprintf(b, sizeof b, s.coin() ? "%%%02X" : "%%%02x", (unsigned char) c); r += b; } } return r; }
static std::string quoteP(Source& s, const std::string& t) { std::string r = "\""; for (char c : t) { if (c == '"' || c == '\\' || (s.oneIn(25) && !(c & 0x80))) r += '\\'; r += c; } return r + '"'; }
static std::string fold(Source& s) { return s.pick({ "", " ", " ", "\r\n ", "\r\n\t", "  " }); }

static void checkParsed(Ctx& c, const vmime::shared_ptr<vmime::parameterizedHeaderField>& f, const std::vector<prm>& ps, const std::string& text, bool exact) {
	(void) c;
	CHECK_EQ(f->getParameterCount(), ps.size(), "number of parameters of " + pbt::show(text));
	for (auto& p : ps) {
		auto q = f->findParameter(p.name); CHECK_MSG(!!q, "no parameter " << p.name << " in " << pbt::show(text));
		CHECK_EQ(q->getName(), p.name, "name");
		std::string u; const vmime::word& w = q->getValue();
		CHECK_MSG(iconvTo(w.getBuffer(), w.getCharset().getName(), "utf-8", u), "value of " << p.name << " is not valid " << w.getCharset().getName() << ": " << pbt::show(w.getBuffer()) << " from " << pbt::show(text));
		if (exact) CHECK_EQ(u, p.u8, "value of " + p.name + " parsed from " + pbt::show(text)); else CHECK_EQ(collapse(u), collapse(p.u8), "value of " + p.name + " parsed from " + pbt::show(text));
	}
}
static void run(Source& s, Ctx& c) {
	unsigned n = 1 + (unsigned) s.draw(3); std::vector<prm> ps(n);
	bool foreign = s.oneIn(3);
	std::string fname = s.pick({ "Content-Disposition", "Content-Type", "Content-Disposition" }), mainV = fname == "Content-Type" ? "image/png" : "attachment";
	auto parse = [&](const std::string& t) { auto h = vmime::make_shared<vmime::header>(); h->parse(t + "\r\nX-N: 1\r\n\r\n"); CHECK_EQ(h->getFieldCount(), (size_t) 2, "fields of " + pbt::show(t)); auto f = vmime::dynamicCast<vmime::parameterizedHeaderField>(h->getFieldAt(0)); CHECK(!!f); CHECK_EQ(genStr(*f->getValue()), mainV, "value of the field " + pbt::show(t)); return f; };
	if (foreign) {
		c.label("foreign syntax");
		std::string t = fname + ": " + mainV; bool exact = true;
		for (unsigned i = 0 ; i < n ; ++i) {
			prm& p = ps[i]; p.name = genPName(s, i); int form = (int) s.draw(3); genValue(s, p, false);
			bool ascii = true; for (char ch : p.u8) if ((ch & 0x80) || (unsigned char) ch < 32) ascii = false;
			if (form == 0 && (!ascii || p.cs == "iso-2022-jp")) form = 1;
			std::string eq = s.oneIn(5) ? " = " : "="; auto sep = [&] { t += (s.oneIn(6) ? " ;" : ";") + fold(s); };
			// next to an extended value, a plain one for those who do not know better
			int fb = form == 1 || form == 2 ? (int) s.weighted({ 4, 1, 1 }) : 0; auto fallback = [&] { sep(); t += p.name + eq + s.pick({ "fallback.txt", "\"fall back\"", "x", "\"=?utf-8?Q?y?=\"" }); c.label("with a plain fallback"); }; if (fb == 1) fallback();
			switch (form) {
			case 0: { bool tok = true; for (char ch : p.u8) if (strchr("()<>@,;:\\\"/[]?= \t", ch)) tok = false; sep(); t += p.name + eq + (tok && s.coin() ? p.u8 : quoteP(s, p.u8)); c.label("plain"); break; }
			case 1: sep(); t += p.name + "*" + eq + p.cs + "'" + s.pick({ "", "en", "fr-FR" }) + "'" + pct(s, p.enc); c.label("extended"); break;
			case 2: { // sections, cut at any byte; plain ones hold ASCII only
				unsigned k = 0; size_t a = 0; c.label("sections"); bool allEnc = p.cs == "iso-2022-jp" || s.coin();
				do { size_t b = std::min(p.enc.size(), a + 1 + (size_t) s.draw(s.coin() ? 8 : 40)); std::string piece = p.enc.substr(a, b - a); bool asc = true; for (char ch : piece) if ((ch & 0x80) || (unsigned char) ch < 32) asc = false; if (p.cs == "big5" || p.cs == "shift_jis") asc = false;
					bool enc = k == 0 || allEnc || !asc || s.coin(); sep(); t += p.name + "*" + std::to_string(k) + (enc ? "*" : "") + eq + (enc ? (k == 0 ? p.cs + "'" + s.pick({ "", "en" }) + "'" : "") + pct(s, piece) : quoteP(s, piece)); a = b; ++k; } while (a < p.enc.size());
				break; }
			default: { // plain sections only
				if (!ascii || p.cs == "iso-2022-jp") { sep(); t += p.name + "*" + eq + p.cs + "''" + pct(s, p.enc); break; }
				unsigned k = 0; size_t a = 0; c.label("plain sections");
				do { size_t b = std::min(p.enc.size(), a + 1 + (size_t) s.draw(s.coin() ? 8 : 40)); sep(); t += p.name + "*" + std::to_string(k) + eq + quoteP(s, p.enc.substr(a, b - a)); a = b; ++k; } while (a < p.enc.size());
				break; }
			}
			if (fb == 2) fallback();
			c.mix(p.u8); c.mix((uint64_t) form);
		}
		if (s.oneIn(5)) t += s.pick({ ";", " ", "; ", " ;" });
		std::string w; for (auto& p : ps) w += showP(p.name, p.u8) + "\n";
		NOTE(c, "text " << pbt::show(t) << "\n" << w); c.nontrivial(true);
		{ std::string mv, tt = t; while (!tt.empty() && strchr("; ", tt.back())) tt.pop_back(); size_t e = 0; std::string t2; bool q = false; for (; e < tt.size() ; ++e) { if (q && tt[e] == '\\') { t2 += tt[e++]; t2 += tt[e]; continue; } if (tt[e] == '"') q = !q; if (!q && tt[e] == ' ' && ((e + 1 < tt.size() && tt[e + 1] == '=') || (e && tt[e - 1] == '='))) continue; t2 += tt[e]; }
			try { auto r = refParams(t2.substr(t2.find(':') + 1), &mv, nullptr); for (auto& p : ps) CHECK_EQ(collapse(r[lower(p.name)]), collapse(p.u8), "self check " + pbt::show(t2)); } catch (std::string& e2) { FAIL("self check: " << e2 << " in " << pbt::show(t2)); } }
		checkParsed(c, parse(t), ps, t, exact);
		return;
	}
	int mode = (int) s.draw(3); bool ctl = s.oneIn(3);
	static const vmime::generationContext::EncodedParameterValueModes M[] = { vmime::generationContext::PARAMETER_VALUE_RFC2231_ONLY, vmime::generationContext::PARAMETER_VALUE_RFC2231_AND_RFC2047, vmime::generationContext::PARAMETER_VALUE_RFC2047_ONLY, vmime::generationContext::PARAMETER_VALUE_NO_ENCODING };
	size_t mll = (size_t) s.pickInt({ 78, 78, 76, 40, 50, 100, 998 });
	vmime::generationContext gc; gc.setMaxLineLength(mll); gc.setEncodedParameterValueMode(M[mode]);
	c.label(std::string("mode ") + std::to_string(mode));
	auto f = vmime::dynamicCast<vmime::parameterizedHeaderField>(vmime::headerFieldFactory::getInstance()->create(fname)); CHECK(!!f);
	if (fname == "Content-Type") f->setValue(vmime::mediaType("image", "png")); else f->setValue(vmime::contentDisposition("attachment"));
	std::string w; std::vector<bool> lossy(n, false);
	for (unsigned i = 0 ; i < n ; ++i) {
		prm& p = ps[i]; p.name = genPName(s, i); genValue(s, p, ctl);
		bool plainAscii = true; for (char ch : p.enc) if ((ch & 0x80) || (unsigned char) ch < 32 || ch == 127) plainAscii = false;
		if (mode == 3) lossy[i] = !plainAscii || p.cs == "iso-2022-jp" || p.enc.size() + p.name.size() + 20 > mll;
		w += showP(p.name, p.u8) + " in " + p.cs + "\n"; c.mix(p.u8); c.mix(p.cs);
		auto q = vmime::make_shared<vmime::parameter>(p.name, vmime::word(p.enc, vmime::charset(p.cs))); f->appendParameter(q);
	}
	c.mix(mode); c.mix(mll); c.nontrivial(true);
	strOut o; f->generate(gc, o); std::string g = o.s;
	NOTE(c, "mode " << mode << " line length " << mll << " generated " << pbt::show(g) << "\n" << w);
	if (g.find("*0*=") != std::string::npos) c.label("split into sections");
	for (auto& l : splitLines(g)) for (char ch : l) CHECK_MSG(ch != '\r' && ch != '\n', "bare line end in " << pbt::show(g));
	std::map<std::string, std::string> r; std::string mv; std::map<std::string, bool> ext;
	bool rawCtl = false; for (char ch : g) if (((unsigned char) ch < 32 && ch != '\r' && ch != '\n') || ch == 127) rawCtl = true;
	if (!rawCtl) { try { r = refParams(g.substr(g.find(':') + 1), &mv, &ext); } catch (std::string& e) { FAIL("independent reader: " << e << " in " << pbt::show(g)); }
		CHECK_EQ(mv, mainV, "value of the field"); CHECK_EQ(r.size(), ps.size(), "number of parameters of " + pbt::show(g)); }
	auto pf = parse(g);
	std::vector<prm> cmp;
	for (unsigned i = 0 ; i < n ; ++i) if (!lossy[i]) cmp.push_back(ps[i]);
	for (auto& p : cmp) if (!rawCtl) { if (mode < 2) CHECK_EQ(r[lower(p.name)], p.u8, "independent reading of " + p.name + " in " + pbt::show(g)); else CHECK_EQ(collapse(r[lower(p.name)]), collapse(p.u8), "independent reading of " + p.name + " in " + pbt::show(g)); }
	if (cmp.size() == ps.size()) checkParsed(c, pf, ps, g, mode < 2); else for (auto& p : cmp) { auto q = pf->findParameter(p.name); CHECK_MSG(!!q, "no parameter " << p.name); std::string u; CHECK(iconvTo(q->getValue().getBuffer(), q->getValue().getCharset().getName(), "utf-8", u)); CHECK_EQ(collapse(u), collapse(p.u8), "value of " + p.name); }
}
Property makeProperty() {
	Property p; p.id = "C11"; p.run = run; p.init = installPlatform; p.quick = 120000; p.thorough = 3000000;
	p.rule = "1 to 4 parameters per field with values in 15 charsets (short to several kB, all separators, line ends, control characters), generated in the 4 modes at 7 line lengths and read back by vmime and by an independent RFC 2231 / RFC 2047 reader; and foreign syntax (tokens, quoted strings, extended values, encoded and plain sections cut at any byte) read by vmime; non-trivial: every case";
	return p;
}
