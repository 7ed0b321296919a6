#include "gen.hpp"
#include "vmime/relay.hpp"
#include "vmime/path.hpp"
#include "vmime/disposition.hpp"
// Structured values: value -> header text -> vmime; foreign syntax -> vmime; laws of equality.

static const char* const TOK = "abcdefgXYZ0123-_.+!#$&^`{}|~'*%";
static std::string token(Source& s, unsigned max = 10) { if (s.oneIn(15)) max = 120; return s.bytes(1 + s.draw(max - 1), TOK); }
static std::string recase(Source& s, std::string t) { for (auto& c : t) if (s.coin()) c = (char) (islower((unsigned char) c) ? toupper(c) : tolower(c)); return t; }
static std::string dotAtom(Source& s) { std::string r; unsigned n = 1 + (unsigned) s.draw(s.oneIn(20) ? 12 : 2); for (unsigned i = 0 ; i < n ; ++i) r += (i ? "." : "") + s.bytes(1 + s.draw(8), "abcxyz0129-_+=/!#$%&'*?^`{}|~A"); return r; }
static std::string domain(Source& s) { if (s.oneIn(5)) return s.pick({ "[127.0.0.1]", "[IPv6:::1]", "localhost" }); std::string r; unsigned n = 1 + (unsigned) s.draw(2); for (unsigned i = 0 ; i < n ; ++i) r += (i ? "." : "") + s.pick({ "fo", "by", "vi", "wi", "id", "from", "", "", "" }) + s.bytes(1 + s.draw(8), "abcdeforthwi123-"); return r; }
static std::string ows(Source& s) { return s.pick({ "", "", " ", "\r\n ", "\t", "  " }); }
static std::string ws(Source& s) { return s.pick({ " ", " ", "  ", "\r\n ", "\r\n\t" }); }

template <class T> static vmime::shared_ptr<T> viaHeader(Source& s, Ctx& c, const std::string& name, const vmime::headerFieldValue& v, std::string* txt, size_t* mll = nullptr) {
	vmime::generationContext gc; size_t m = (size_t) s.pickInt({ 78, 78, 998, 40, 30, 120 }); gc.setMaxLineLength(m); bool wrap = s.coin(); gc.setWrapMessageId(wrap); if (mll) *mll = wrap ? m : 0;
	auto f = vmime::headerFieldFactory::getInstance()->create(name); f->setValue(v); strOut o; f->generate(gc, o); *txt = o.s;
	NOTE(c, "line length " << m << " wrap " << wrap << " " << pbt::show(o.s)); c.mix(o.s);
	vmime::header h; h.parse(o.s + "\r\nX-N: 1\r\n\r\n"); CHECK_EQ(h.getFieldCount(), (size_t) 2, "fields of " + pbt::show(o.s)); CHECK_EQ(h.getFieldAt(0)->getName(), name, "name");
	auto p = h.getFieldAt(0)->getValue<T>(); CHECK_MSG(!!p, "type of the value of " << pbt::show(o.s)); return p;
}
template <class T> static vmime::shared_ptr<T> fromText(Ctx& c, const std::string& name, const std::string& t) { NOTE(c, "text " << pbt::show(t)); c.mix(t); vmime::header h; h.parse(name + ": " + t + "\r\nX-N: 1\r\n\r\n"); CHECK_EQ(h.getFieldCount(), (size_t) 2, "fields of " + pbt::show(t)); auto p = h.getFieldAt(0)->getValue<T>(); CHECK(!!p); return p; }
// a and b are equal iff same; laws of equality with a third value
template <class T> static void laws(const T& a, const T& b, bool same, const std::string& what) {
	CHECK_MSG(a == a && !(a != a), "not reflexive: " << what); CHECK_EQ(a == b, same, "== of " + what); CHECK_EQ(b == a, same, "== (the other way) of " + what); CHECK_EQ(a != b, !same, "!= of " + what); CHECK_EQ(b != a, !same, "!= (the other way) of " + what);
	T k(a); CHECK_EQ(k == a, true, "copy of " + what); k = b; CHECK_EQ(k == a, same, "assigned " + what); CHECK_EQ(k == b, true, "assigned " + what);
	auto d = vmime::dynamicCast<T>(a.clone()); CHECK_EQ(*d == a, true, "clone of " + what); CHECK_EQ(*d == b, same, "clone of " + what);
}

struct rel { std::string from, by, via, id, for_; std::vector<std::string> with; vmime::datetime date; };
static std::string showR(const rel& r) { std::string t = "from [" + r.from + "] by [" + r.by + "] via [" + r.via + "] id [" + r.id + "] for [" + r.for_ + "] with"; for (auto& w : r.with) t += " [" + w + "]"; return t + " date " + r.date.generate(); }
static rel fromR(const vmime::relay& r) { rel x; x.from = r.getFrom(); x.by = r.getBy(); x.via = r.getVia(); x.id = r.getId(); x.for_ = r.getFor(); x.with = r.getWithList(); x.date = r.getDate(); return x; }
static std::string comment(Source& s, unsigned depth = 0) { std::string r = "("; unsigned n = 1 + (unsigned) s.draw(3); for (unsigned i = 0 ; i < n ; ++i) { if (i) r += ' '; if (depth < 2 && s.oneIn(6)) r += comment(s, depth + 1); else r += s.pick({ "by", "for", "with", "id", "[10.1.2.3]", "mail", "HELO", "user=x@y.z", "a=b", "TLSv1.2;", "c=d;e=f", ";" }); } return r + ")"; }
static bool isKw(const std::string& w) { std::string l = lower(w); return l == "from" || l == "by" || l == "via" || l == "with" || l == "id" || l == "for"; }
static std::string relVal(Source& s, const std::string& first) { std::string r = first; if (isKw(r)) r += ".x"; while (s.oneIn(3)) r += " " + comment(s); if (s.oneIn(8)) r += " extra"; return r; }
static rel genRelay(Source& s) {
	rel r; if (s.draw(3)) r.from = relVal(s, domain(s)); if (s.draw(3)) r.by = relVal(s, domain(s)); if (s.oneIn(4)) r.via = relVal(s, s.pick({ "TCP", "smtpd", "withers", "vision" }));
	while (s.oneIn(2) && r.with.size() < 4) r.with.push_back(relVal(s, s.pick({ "SMTP", "ESMTPS", "HTTP", "winmail" })));
	if (s.coin()) r.id = relVal(s, s.coin() ? "<" + dotAtom(s) + "@" + domain(s) + ">" : token(s)); if (s.coin()) r.for_ = relVal(s, s.coin() ? "<" + dotAtom(s) + "@" + domain(s) + ">" : s.pick({ "formula@x.org", "bob@by.example", "victor@x" }));
	r.date = vmime::datetime((int) s.range(1990, 2040), (int) s.range(1, 12), (int) s.range(1, 28), (int) s.draw(23), (int) s.draw(59), (int) s.draw(59), (int) s.range(-24, 28) * 30); return r;
}

static void run(Source& s, Ctx& c) {
	c.nontrivial(true); std::string t;
	switch (s.draw(7)) {
	case 0: {
		c.label("media type"); std::string a = token(s), b = token(s); vmime::mediaType m(a, b); NOTE(c, a << " / " << b);
		CHECK_EQ(m.getType() + " " + m.getSubType(), lower(a) + " " + lower(b), "constructed");
		auto p = viaHeader<vmime::mediaType>(s, c, "Content-Type", m, &t); CHECK(*p == m); CHECK_EQ(p->getType() + " " + p->getSubType(), lower(a) + " " + lower(b), "parsed back from " + pbt::show(t));
		std::string f = ows(s) + recase(s, a) + "/" + recase(s, b) + s.pick({ "", " ", "; charset=utf-8", " ; x=y", ";" }); auto q = fromText<vmime::mediaType>(c, "Content-Type", f); CHECK_MSG(*q == m, "parsed from " << pbt::show(f) << " as " << pbt::show(q->getType()) << " / " << pbt::show(q->getSubType()));
		bool same = s.coin(); std::string a2 = same ? recase(s, a) : s.coin() ? a : token(s), b2 = same ? recase(s, b) : token(s); same = lower(a2) == lower(a) && lower(b2) == lower(b); vmime::mediaType n; switch (s.draw(3)) { case 0: n = vmime::mediaType(a2, b2); break; case 1: n = a2 + "/" + b2; break; case 2: n.setFromString(a2 + "/" + b2); break; default: n.setType(a2); n.setSubType(b2); } laws(m, n, same, a + "/" + b + " and " + a2 + "/" + b2); break; }
	case 1: {
		c.label("content disposition"); std::string a = s.coin() ? token(s) : s.pick({ "inline", "attachment", "form-data" }); vmime::contentDisposition m; if (s.coin()) m = vmime::contentDisposition(recase(s, a)); else m.setName(recase(s, a));
		auto p = viaHeader<vmime::contentDisposition>(s, c, "Content-Disposition", m, &t); laws(*p, m, true, "parsed back from " + pbt::show(t)); CHECK_EQ(lower(p->getName()), lower(a), "name from " + pbt::show(t));
		std::string f = ows(s) + recase(s, a) + s.pick({ "", " ", "; filename=x", " ; x=y" }); auto q = fromText<vmime::contentDisposition>(c, "Content-Disposition", f); laws(*q, m, true, "parsed from " + pbt::show(f));
		std::string b = s.coin() ? recase(s, a) : token(s); vmime::contentDisposition n; switch (s.draw(2)) { case 0: n = vmime::contentDisposition(b); break; case 1: n = b; break; default: n.setName(b); } laws(m, n, lower(a) == lower(b), pbt::show(a) + " and " + pbt::show(b)); break; }
	case 2: {
		c.label("transfer encoding"); std::string a = s.coin() ? token(s) : s.pick({ "7bit", "8bit", "binary", "base64", "quoted-printable", "x-uuencode" }); vmime::encoding m; if (s.coin()) m = vmime::encoding(recase(s, a)); else m.setName(recase(s, a)); if (s.coin()) m.setUsage(vmime::encoding::USAGE_TEXT);
		auto p = viaHeader<vmime::encoding>(s, c, "Content-Transfer-Encoding", m, &t); laws(*p, m, true, "parsed back from " + pbt::show(t)); CHECK_EQ(lower(p->getName()), lower(a), "name from " + pbt::show(t));
		std::string f = ows(s) + recase(s, a); if (s.oneIn(3)) { f = ows(s) + "\""; for (char ch : recase(s, a)) { if (ch == '"' || ch == '\\' || s.oneIn(5)) f += '\\'; f += ch; } f += "\""; } f += s.pick({ "", " " }); auto q = fromText<vmime::encoding>(c, "Content-Transfer-Encoding", f); laws(*q, m, true, "parsed from " + pbt::show(f));
		std::string b = s.coin() ? recase(s, a) : token(s); vmime::encoding n; switch (s.draw(2)) { case 0: n = vmime::encoding(b); break; case 1: n = b; break; default: n.setName(b); } laws(m, n, lower(a) == lower(b), pbt::show(a) + " and " + pbt::show(b)); break; }
	case 3: {
		c.label("message id"); std::string l = dotAtom(s), r = s.oneIn(8) ? "" : domain(s); vmime::messageId m(l, r); CHECK_EQ(m.getId(), r.empty() ? l : l + "@" + r, "id");
		size_t mll; auto p = viaHeader<vmime::messageId>(s, c, s.pick({ "Message-Id", "Content-Id" }), m, &t, &mll); laws(*p, m, true, "parsed back from " + pbt::show(t)); CHECK_EQ(p->getLeft() + " " + p->getRight(), l + " " + r, "parsed back from " + pbt::show(t));
		if (!r.empty()) { auto cm = [&] { std::string k; if (s.oneIn(3)) { k = s.pick({ "(x)", "(a (b) c)", "(a <b@c>)", "(\\))", "(a\\(b)", "(<)", "(a \"q\")" }); } return k; }; std::string f = ows(s) + cm() + ows(s) + "<" + l + "@" + r + ">" + ows(s) + cm(); if (s.oneIn(6)) f = ows(s) + l + "@" + r; auto q = fromText<vmime::messageId>(c, "Message-Id", f); CHECK_EQ(q->getLeft() + " " + q->getRight(), l + " " + r, "parsed from " + pbt::show(f)); }
		std::string l2 = s.coin() ? l : dotAtom(s), r2 = s.coin() ? r : domain(s); vmime::messageId n; if (s.coin() && !r2.empty()) n = "<" + l2 + "@" + r2 + ">"; else { n.setLeft(l2); n.setRight(r2); } laws(m, n, l == l2 && r == r2, l + "@" + r + " and " + l2 + "@" + r2);
		auto g1 = vmime::messageId::generateId(), g2 = vmime::messageId::generateId(); CHECK(g1 != g2); CHECK_EQ(g1.getRight(), std::string("verif.example"), "generated id"); CHECK(vmime::messageId(g1.generate()) == g1); break; }
	case 4: {
		c.label("message id sequence"); unsigned n = 1 + (unsigned) s.draw(s.oneIn(4) ? 30 : 4); std::vector<std::string> ids; vmime::messageIdSequence q; for (unsigned i = 0 ; i < n ; ++i) { std::string l = dotAtom(s), r = domain(s); ids.push_back(l + "@" + r); q.appendMessageId(vmime::make_shared<vmime::messageId>(l, r)); }
		std::string name = s.pick({ "References", "In-Reply-To" }); auto show = [](const vmime::messageIdSequence& v) { std::vector<std::string> r; for (auto& m : v.getMessageIdList()) r.push_back(m->getId()); return r; };
		auto p = viaHeader<vmime::messageIdSequence>(s, c, name, q, &t); CHECK_EQ(show(*p), ids, "parsed back from " + pbt::show(t));
		std::string f; for (auto& i : ids) f += ws(s) + "<" + i + ">"; if (s.oneIn(5)) { f.clear(); for (auto& i : ids) f += "<" + i + ">" + ows(s); } f += ows(s); auto z = fromText<vmime::messageIdSequence>(c, name, f); CHECK_EQ(show(*z), ids, "parsed from " + pbt::show(f)); break; }
	case 5: {
		c.label("disposition"); vmime::disposition d; std::string am = s.coin() ? s.pick({ "manual-action", "automatic-action" }) : token(s), sm = s.coin() ? s.pick({ "MDN-sent-manually", "MDN-sent-automatically" }) : token(s), ty = s.coin() ? s.pick({ "displayed", "deleted", "dispatched" }) : token(s); std::vector<std::string> mods;
		d.setActionMode(am); d.setSendingMode(sm); d.setType(ty); if (s.oneIn(4)) { am = sm = ty = ""; d = vmime::disposition(am, sm, ty, ""); am = "automatic-action"; sm = "MDN-sent-automatically"; ty = "displayed"; }
		unsigned n = (unsigned) s.draw(3); for (unsigned i = 0 ; i < n ; ++i) { std::string k = s.coin() ? s.pick({ "error", "warning", "expired", "Error" }) : token(s); d.addModifier(k); CHECK(d.hasModifier(recase(s, k))); bool had = false; for (auto& x : mods) if (lower(x) == lower(k)) had = true; if (!had) mods.push_back(k); }
		if (!mods.empty() && s.oneIn(4)) { size_t k = (size_t) s.draw(mods.size() - 1); std::string g = recase(s, mods[k]); d.removeModifier(g); mods.erase(mods.begin() + k); CHECK(!d.hasModifier(g)); }
		auto low = [](std::vector<std::string> v) { std::vector<std::string> r; for (auto& x : v) if (!x.empty()) r.push_back(lower(x)); return r; };
		auto same = [&](const vmime::disposition& x, const std::string& from) { CHECK_EQ(x.getActionMode(), am, "action mode from " + from); CHECK_EQ(x.getSendingMode(), sm, "sending mode from " + from); CHECK_EQ(x.getType(), ty, "type from " + from); CHECK_EQ(low(x.getModifierList()), low(mods), "modifiers from " + from); for (auto& k : mods) CHECK_MSG(x.hasModifier(recase(s, k)), "has no modifier " << k << " from " << from); CHECK(!x.hasModifier("no-such")); };
		auto p = viaHeader<vmime::disposition>(s, c, "Disposition", d, &t); same(*p, pbt::show(t)); same(*vmime::dynamicCast<vmime::disposition>(p->clone()), "clone"); vmime::disposition e; e = *p; same(e, "copy");
		std::string f = ows(s) + am + ows(s) + "/" + ows(s) + sm + ows(s) + ";" + ows(s) + ty; bool first = true; for (auto& k : mods) { f += ows(s) + (first ? "/" : ",") + ows(s) + recase(s, k); first = false; } f += ows(s);
		auto q = fromText<vmime::disposition>(c, "Disposition", f); same(*q, pbt::show(f));
		if (!mods.empty()) { std::string k = recase(s, mods[0]); q->removeModifier(k); CHECK_MSG(!q->hasModifier(mods[0]), "modifier " << k << " not removed from " << pbt::show(f)); CHECK_EQ(low(q->getModifierList()).size(), mods.size() - 1, "modifiers left"); q->addModifier(mods[0]); q->addModifier(recase(s, mods[0])); CHECK_EQ(q->getModifierList().size(), mods.size(), "modifier added twice"); }
		break; }
	case 6: {
		c.label("relay"); rel r = genRelay(s); vmime::relay v; v.setFrom(r.from); v.setBy(r.by); v.setVia(r.via); v.setId(r.id); v.setFor(r.for_); v.getWithList() = r.with; v.setDate(r.date);
		auto p = viaHeader<vmime::relay>(s, c, "Received", v, &t); CHECK_EQ(showR(fromR(*p)), showR(r), "parsed back from " + pbt::show(t));
		auto uw = [&](const std::string& x) { std::string o; for (char ch : x) if (ch == ' ') o += ws(s); else o += ch; return o; };  // any white space between words
		std::vector<std::string> parts; if (!r.from.empty()) parts.push_back("from " + r.from); if (!r.by.empty()) parts.push_back("by " + r.by); if (!r.via.empty()) parts.push_back("via " + r.via); for (auto& w : r.with) parts.push_back("with " + w); if (!r.id.empty()) parts.push_back("id " + r.id); if (!r.for_.empty()) parts.push_back("for " + r.for_);
		std::string f = ows(s); for (auto& x : parts) { std::string k = x; if (s.oneIn(4)) for (size_t i = 0 ; k[i] != ' ' ; ++i) k[i] = (char) toupper(k[i]); f += uw(k) + ws(s); } f += ";" + ows(s) + r.date.generate(); if (s.oneIn(3)) f += " (PDT)";
		auto q = fromText<vmime::relay>(c, "Received", f); CHECK_EQ(showR(fromR(*q)), showR(r), "parsed from " + pbt::show(f)); break; }
	default: {
		c.label("path"); std::string l = dotAtom(s), d = domain(s); bool qs = s.oneIn(4); if (qs) { l = "\"" + s.bytes(1 + s.draw(8), "abc@.,;<> ()") + "\""; c.label("quoted local part"); } switch (s.draw(9)) { case 0: l.clear(); d.clear(); break; case 1: l.clear(); break; case 2: d.clear(); break; default: break; }
		vmime::path m(l, d); auto p = viaHeader<vmime::path>(s, c, "Return-Path", m, &t); CHECK_EQ(p->getLocalPart() + " | " + p->getDomain(), l + " | " + d, "parsed back from " + pbt::show(t)); laws(*p, m, true, "parsed back from " + pbt::show(t));
		if (!l.empty() && !d.empty()) { std::string f = ows(s) + "<" + ows(s) + l + "@" + d + ows(s) + ">" + ows(s); if (s.oneIn(4)) f = ows(s) + l + "@" + d + ows(s); auto q = fromText<vmime::path>(c, "Return-Path", f); CHECK_EQ(q->getLocalPart() + " | " + q->getDomain(), l + " | " + d, "parsed from " + pbt::show(f)); }
		std::string l2 = s.coin() ? l : dotAtom(s), d2 = s.coin() ? d : domain(s); vmime::path n; n.setLocalPart(l2); n.setDomain(d2); laws(m, n, l == l2 && d == d2, l + "@" + d + " and " + l2 + "@" + d2); break; }
	}
}
Property makeProperty() {
	Property p; p.id = "C14"; p.run = run; p.init = installPlatform; p.quick = 480000; p.thorough = 6000000;
	p.rule = "media types, content dispositions, transfer encodings, message ids and sequences of up to 31, delivery dispositions with modifiers, trace values with nested comments, mail paths with quoted local parts, generated at 6 line lengths in their header field and parsed back; the same values in foreign syntax (white space, folding, comments, case); laws of equality against a model; non-trivial: every case";
	return p;
}
