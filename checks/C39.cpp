// C39: what is set in a header is what is read back: typed values, parameters, importance.
#include "addrgen.hpp"
#include "vmime/misc/importanceHelper.hpp"
typedef vmime::shared_ptr <vmime::headerFieldValue> val;
static const char* const TYPES[] = { "text", "mailbox", "addressList", "mailboxList", "datetime", "relay", "mediaType", "encoding", "contentDisposition", "messageId", "messageIdSequence", "path", "disposition" };
static const struct { const char* name; int type; } FIELDS[] = { { "From", 1 }, { "Sender", 1 }, { "Delivered-To", 1 }, { "To", 2 }, { "Cc", 2 }, { "Bcc", 2 }, { "Reply-To", 2 }, { "Date", 4 }, { "Received", 5 }, { "Subject", 0 }, { "Organization", 0 }, { "User-Agent", 0 }, { "Return-Path", 11 }, { "Content-Type", 6 }, { "Content-Transfer-Encoding", 7 }, { "Content-Description", 0 }, { "Mime-Version", 0 }, { "Content-Disposition", 8 }, { "Content-Id", 9 }, { "Message-Id", 9 }, { "Content-Location", 0 }, { "In-Reply-To", 10 }, { "References", 10 }, { "Original-Message-Id", 9 }, { "Disposition", 12 }, { "Disposition-Notification-To", 3 }, { "X-Custom", -1 }, { "Importance", -1 }, { "Keywords", -1 } };
static const size_t NF = sizeof(FIELDS) / sizeof(FIELDS[0]);
static std::string canon(const vmime::component& v) { return v.generate(1000000); }
static vmime::datetime genDate(Source& s) { return vmime::datetime((int) s.range(1970, 2099), (int) s.range(1, 12), (int) s.range(1, 28), (int) s.draw(23), (int) s.draw(59), (int) s.draw(59), (int) s.range(-720, 840)); }
static vmime::mailbox genMb(Source& s) { vmime::emailAddress e(s.pick({ "a", "user.name", "u+1" }), s.pick({ "example.com", "b.example" })); return s.coin() ? vmime::mailbox(e) : vmime::mailbox(vmime::text(s.pick({ "Name", "caf\xc3\xa9", "A, B", "\"q\"" }), vmime::charset("utf-8")), e); }
static vmime::messageId genId(Source& s) { return vmime::messageId(s.pick({ "1", "a.b", "x$y" }) + std::to_string(s.draw(9)), s.pick({ "h.example", "[10.0.0.1]" })); }
static val genVal(Source& s, int t) {
	switch (t) {
	case 0: return vmime::make_shared <vmime::text>(s.pick({ "one", "two words", "caf\xc3\xa9 cr\xc3\xa8me", "1.0", "=?x", "http://x.example/?a=b" }), vmime::charset("utf-8"));
	case 1: return vmime::make_shared <vmime::mailbox>(genMb(s));
	case 2: { auto l = vmime::make_shared <vmime::addressList>(); unsigned n = (unsigned) s.draw(3); for (unsigned i = 0 ; i < n ; ++i) if (s.draw(3)) l->appendAddress(vmime::make_shared <vmime::mailbox>(genMb(s))); else { auto g = vmime::make_shared <vmime::mailboxGroup>(vmime::text("group", vmime::charset("us-ascii"))); if (s.coin()) g->appendMailbox(vmime::make_shared <vmime::mailbox>(genMb(s))); l->appendAddress(g); } return l; }
	case 3: { auto l = vmime::make_shared <vmime::mailboxList>(); unsigned n = (unsigned) s.draw(3); for (unsigned i = 0 ; i < n ; ++i) l->appendMailbox(vmime::make_shared <vmime::mailbox>(genMb(s))); return l; }
	case 4: return vmime::make_shared <vmime::datetime>(genDate(s));
	case 5: { auto r = vmime::make_shared <vmime::relay>(); if (s.coin()) r->setFrom("a.example"); if (s.coin()) r->setBy("b.example"); if (s.coin()) r->getWithList().push_back("ESMTP"); if (s.coin()) r->setId("x1"); r->setDate(genDate(s)); return r; }
	case 6: return vmime::make_shared <vmime::mediaType>(s.pick({ "text/plain", "multipart/mixed", "application/x-y", "text/html" }));
	case 7: return vmime::make_shared <vmime::encoding>(s.pick({ "base64", "7bit", "8bit", "quoted-printable", "x-own" }));
	case 8: return vmime::make_shared <vmime::contentDisposition>(s.pick({ "inline", "attachment", "form-data" }));
	case 9: return vmime::make_shared <vmime::messageId>(genId(s));
	case 10: { auto l = vmime::make_shared <vmime::messageIdSequence>(); unsigned n = (unsigned) s.draw(3); for (unsigned i = 0 ; i < n ; ++i) l->appendMessageId(vmime::make_shared <vmime::messageId>(genId(s))); return l; }
	case 11: return vmime::make_shared <vmime::path>(s.pick({ "user", "a.b" }), s.pick({ "example.com", "d" }));
	default: { auto d = vmime::make_shared <vmime::disposition>(); d->setActionMode("manual-action"); d->setSendingMode("MDN-sent-manually"); d->setType(s.pick({ "displayed", "deleted" })); if (s.coin()) d->addModifier("error"); return d; }
	}
}
template <class T> static bool is(const vmime::headerFieldValue* v) { return dynamic_cast <const T*>(v) != nullptr; }
static bool isType(const vmime::headerFieldValue* v, int t) { switch (t) { case 0: return is<vmime::text>(v); case 1: return is<vmime::mailbox>(v); case 2: return is<vmime::addressList>(v); case 3: return is<vmime::mailboxList>(v); case 4: return is<vmime::datetime>(v); case 5: return is<vmime::relay>(v); case 6: return is<vmime::mediaType>(v); case 7: return is<vmime::encoding>(v); case 8: return is<vmime::contentDisposition>(v); case 9: return is<vmime::messageId>(v); case 10: return is<vmime::messageIdSequence>(v); case 11: return is<vmime::path>(v); default: return is<vmime::disposition>(v); } }
template <class T> static vmime::shared_ptr <vmime::headerFieldValue> ask(const vmime::shared_ptr <vmime::header>& h, const std::string& n) { return h->findFieldValue <T>(n); }
static vmime::shared_ptr <vmime::headerFieldValue> asked(const vmime::shared_ptr <vmime::header>& h, const std::string& n, int t) { switch (t) { case 0: return ask<vmime::text>(h, n); case 1: return ask<vmime::mailbox>(h, n); case 2: return ask<vmime::addressList>(h, n); case 3: return ask<vmime::mailboxList>(h, n); case 4: return ask<vmime::datetime>(h, n); case 5: return ask<vmime::relay>(h, n); case 6: return ask<vmime::mediaType>(h, n); case 7: return ask<vmime::encoding>(h, n); case 8: return ask<vmime::contentDisposition>(h, n); case 9: return ask<vmime::messageId>(h, n); case 10: return ask<vmime::messageIdSequence>(h, n); case 11: return ask<vmime::path>(h, n); default: return ask<vmime::disposition>(h, n); } }
static vmime::shared_ptr <vmime::headerField> access(const vmime::shared_ptr <vmime::header>& h, size_t i) {
	switch (i) { case 0: return h->From(); case 1: return h->Sender(); case 2: return h->DeliveredTo(); case 3: return h->To(); case 4: return h->Cc(); case 5: return h->Bcc(); case 6: return h->ReplyTo(); case 7: return h->Date(); case 9: return h->Subject(); case 10: return h->Organization(); case 11: return h->UserAgent(); case 12: return h->ReturnPath(); case 13: return h->ContentType(); case 14: return h->ContentTransferEncoding(); case 15: return h->ContentDescription(); case 16: return h->MimeVersion(); case 17: return h->ContentDisposition(); case 18: return h->ContentId(); case 19: return h->MessageId(); case 20: return h->ContentLocation(); case 21: return h->InReplyTo(); case 22: return h->References(); case 23: return h->OriginalMessageId(); case 24: return h->Disposition(); case 25: return h->DispositionNotificationTo(); default: return h->getField(FIELDS[i].name); }
}
static std::string mix(Source& s, std::string v) { if (s.oneIn(3)) for (auto& c : v) if (s.coin()) c = (char) (s.coin() ? toupper((unsigned char) c) : tolower((unsigned char) c)); return v; }
static void typed(Source& s, Ctx& c) {
	c.label("typed values"); auto h = vmime::make_shared <vmime::header>(); struct ent { int type; std::string text; }; std::map<size_t, ent> M; unsigned sets = 0, bad = 0;
	for (unsigned op = 0 ; op < 25 && s.more(10) ; ++op) {
		size_t i = s.draw(NF - 1); int ft = FIELDS[i].type, t = ft >= 0 && s.draw(3) ? ft : (int) s.draw(12); val v = genVal(s, t); std::string name = mix(s, FIELDS[i].name), text = canon(*v); bool have = M.count(i) != 0; NOTE(c, name << " = " << TYPES[t] << " " << pbt::esc(text)); c.mix(name + text);
		switch (s.draw(4)) {
		case 0: { h->removeAllFields(name); M.erase(i); break; }
		default: {
			auto f = s.coin() ? access(h, i) : h->getField(name); CHECK_MSG(f, "no field"); if (!have) { ent e; e.type = -2; e.text = canon(*f->getValue()); M[i] = e; for (int k = 0 ; k < 13 ; ++k) if (isType(f->getValue().get(), k)) M[i].type = k; CHECK_EQ(M[i].type, ft < 0 ? 0 : ft, "type of the value of a new field " + name); }
			bool ok = ft < 0 || t == ft, threw = false; auto old = f->getValue(); int how = (int) s.draw(3); vmime::shared_ptr <const vmime::headerFieldValue> cv = v;
			try { if (how == 0) f->setValue(v); else if (how == 1) f->setValue(*v); else if (how == 2) f->setValueConst(cv); else { vmime::string str = text; if (ok && ft >= 0) f->setValue(str); else f->setValue(*v); } } catch (const vmime::exceptions::bad_field_value_type&) { threw = true; }
			CHECK_EQ((int) threw, (int) !ok, "a " + std::string(TYPES[t]) + " value is refused for " + name); auto now = f->getValue(); if (threw) { ++bad; CHECK_MSG(now == old, "value replaced by a refused one"); CHECK_EQ(canon(*now), M[i].text, "value after a refused one"); break; }
			++sets; if (how == 0) CHECK_MSG(now == v, "not the value which was set"); else CHECK_MSG(now != v, "the value is shared"); if (how != 3) CHECK_EQ(canon(*now), text, "value of " + name); CHECK_MSG(isType(now.get(), t), "type of the value of " << name); M[i].type = t; M[i].text = canon(*now);
		} }
		CHECK_EQ(h->getFieldCount(), M.size(), "number of fields");
		for (size_t k = 0 ; k < NF ; ++k) { std::string n = mix(s, FIELDS[k].name); auto it = M.find(k); CHECK_EQ((int) h->hasField(n), (int) (it != M.end()), "hasField(" + n + ")"); auto f = h->findField(n); CHECK_EQ((int) (f != nullptr), (int) (it != M.end()), "findField(" + n + ")"); if (!f) { CHECK_MSG(!h->findFieldValue <vmime::text>(n), "value of a field which is not there"); continue; } int at = s.coin() ? it->second.type : (int) s.draw(12); auto w = asked(h, n, at); CHECK_EQ((int) (w != nullptr), (int) (at == it->second.type), "findFieldValue <" + std::string(TYPES[at]) + ">(" + n + ")"); if (w) { CHECK_MSG(w == f->getValue(), "another value"); CHECK_EQ(canon(*w), it->second.text, "value of " + n); } }
	}
	c.nontrivial(sets > 1); if (bad) c.label("refused type");
}
// contents of a field with parameters
static void params(Source& s, Ctx& c) {
	c.label("parameters"); auto hd = vmime::make_shared <vmime::header>(); std::map<std::string, std::string> str; std::map<std::string, vmime::datetime> dt; bool ct = s.coin(); std::string pre; if (s.coin()) pre = ct ? "text/x; " + s.pick({ "Charset=koi8-r", "BOUNDARY=\"a b\"", "report-type=x; name=y" }) : "inline; " + s.pick({ "FileName=f", "size=1", "read-date=\"Tue, 3 Mar 2020 01:02:03 +0100\"" });
	auto f = hd->getField(ct ? "Content-Type" : "Content-Disposition"); if (!pre.empty()) { f->parse(pre); NOTE(c, "parsed " << pre); if (pre.find("Charset") != pre.npos) str["charset"] = "koi8-r"; if (pre.find("BOUNDARY") != pre.npos) str["boundary"] = "a b"; if (pre.find("report-type") != pre.npos) str["report-type"] = "x"; if (pre.find("FileName") != pre.npos) str["filename"] = "f"; if (pre.find("size") != pre.npos) str["size"] = "1"; if (pre.find("read-date") != pre.npos) dt["read-date"] = vmime::datetime(2020, 3, 3, 1, 2, 3, 60); }
	unsigned ops = 0;
	auto check = [&](const vmime::shared_ptr <vmime::headerField>& g, const std::string& w) {
		auto has = [&](const char* n) { return str.count(n) + dt.count(n) != 0; }; auto ge = [&](const char* n) { return str.count(n) ? str[n] : std::string(); };
		if (ct) { auto x = vmime::dynamicCast <vmime::contentTypeField>(g); CHECK_MSG(x, "not a contentTypeField"); CHECK_EQ((int) x->hasBoundary(), (int) has("boundary"), w + "hasBoundary()"); CHECK_EQ(x->getBoundary(), ge("boundary"), w + "getBoundary()"); CHECK_EQ((int) x->hasCharset(), (int) has("charset"), w + "hasCharset()"); CHECK_EQ(x->getCharset().getName(), has("charset") ? ge("charset") : vmime::charset().getName(), w + "getCharset()"); CHECK_EQ((int) x->hasReportType(), (int) has("report-type"), w + "hasReportType()"); CHECK_EQ(x->getReportType(), ge("report-type"), w + "getReportType()"); return; }
		auto x = vmime::dynamicCast <vmime::contentDispositionField>(g); CHECK_MSG(x, "not a contentDispositionField"); CHECK_EQ((int) x->hasFilename(), (int) has("filename"), w + "hasFilename()"); CHECK_EQ(x->getFilename().getConvertedText(vmime::charset("utf-8")), ge("filename"), w + "getFilename()"); CHECK_EQ((int) x->hasSize(), (int) has("size"), w + "hasSize()"); CHECK_EQ(x->getSize(), ge("size"), w + "getSize()");
		auto d = [&](const char* n, bool h, const vmime::datetime& v) { CHECK_EQ((int) h, (int) has(n), w + "has " + n); vmime::datetime want = has(n) ? dt[n] : vmime::datetime::now(); CHECK_MSG(v == want && (!has(n) || v.getZone() == want.getZone()), w << n << " is " << v.generate() << ", expected " << want.generate()); }; d("creation-date", x->hasCreationDate(), x->getCreationDate()); d("modification-date", x->hasModificationDate(), x->getModificationDate()); d("read-date", x->hasReadDate(), x->getReadDate());
	};
	check(f, "");
	for (unsigned op = 0 ; op < 15 && s.more(6) ; ++op) {
		++ops; int o = (int) s.draw(ct ? 3 : 5); std::string v;
		if (ct) { auto x = vmime::dynamicCast <vmime::contentTypeField>(f); switch (o) { case 0: v = s.pick({ "b", "=_a b", "----=_x/1+2", "q\"q", "\\" }); NOTE(c, "boundary " << v); x->setBoundary(v); str["boundary"] = v; break; case 1: v = s.pick({ "utf-8", "iso-8859-1", "x-own" }); NOTE(c, "charset " << v); x->setCharset(vmime::charset(v)); str["charset"] = v; break; case 2: v = s.pick({ "delivery-status", "disposition-notification" }); NOTE(c, "report-type " << v); x->setReportType(v); str["report-type"] = v; break; default: v = s.pick({ "boundary", "charset", "report-type" }); if (auto p = x->findParameter(mix(s, v))) { NOTE(c, "remove " << v); CHECK_EQ(str.count(v), 1u, "parameter found"); x->removeParameter(p); str.erase(v); } else CHECK_EQ(str.count(v), 0u, "parameter not found"); } }
		else { auto x = vmime::dynamicCast <vmime::contentDispositionField>(f); switch (o) { case 0: v = s.pick({ "a.txt", "caf\xc3\xa9 1.pdf", "a \"b\"\\c", "x;y=z", "'%41" }) ; if (s.oneIn(5)) v += std::string(90, 'n'); NOTE(c, "filename " << pbt::esc(v)); x->setFilename(vmime::word(v, vmime::charset("utf-8"))); str["filename"] = v; break; case 1: v = std::to_string(s.draw(0xffffffffu)); NOTE(c, "size " << v); x->setSize(v); str["size"] = v; break; case 2: case 3: case 4: { auto d = genDate(s); NOTE(c, "date " << o << " " << d.generate()); if (o == 2) x->setCreationDate(d); else if (o == 3) x->setModificationDate(d); else x->setReadDate(d); dt[o == 2 ? "creation-date" : o == 3 ? "modification-date" : "read-date"] = d; break; } default: v = s.pick({ "filename", "size", "creation-date", "modification-date", "read-date" }); if (auto p = x->findParameter(mix(s, v))) { NOTE(c, "remove " << v); CHECK_EQ(str.count(v) + dt.count(v), 1u, "parameter found"); x->removeParameter(p); str.erase(v); dt.erase(v); } else CHECK_EQ(str.count(v) + dt.count(v), 0u, "parameter not found"); } }
		check(f, "");
	}
	if (ct && !f->getValue <vmime::mediaType>()->getType().size()) f->setValue(vmime::mediaType("text/plain")); if (pre.empty()) { if (ct) f->setValue(vmime::mediaType("text/x")); else f->setValue(vmime::contentDisposition("attachment")); }
	std::string g = hd->generate((size_t) s.pickInt({ 78, 998, 50 })); NOTE(c, pbt::esc(g)); c.mix(g); auto h2 = vmime::make_shared <vmime::header>(); h2->parse(g + "\r\n"); auto f2 = h2->findField(ct ? "content-type" : "content-disposition"); CHECK_MSG(f2, "no field after parsing"); check(f2, "parsed again: "); check(vmime::clone(f2), "cloned: "); c.nontrivial(ops > 1);
}
// X-Priority and Importance
static void importance(Source& s, Ctx& c) {
	c.label("importance"); typedef vmime::misc::importanceHelper H; std::string t = "Subject: s\r\n"; std::vector<std::string> xp, im; unsigned n = (unsigned) s.draw(3);
	for (unsigned i = 0 ; i < n ; ++i) { bool x = s.coin(); std::string v = x ? s.pick({ "1", "2 (High)", "3", "4", "5 (Lowest)", "", "x", "0", "6", "-1", "99999999999999999999", "1st", " 5", "=?utf-8?Q?2?=", "1.5" }) : s.pick({ "high", "low", "normal", "HIGH", "Low", "", "urgent", "high ", "=?us-ascii?Q?low?=" }); if (s.oneIn(8)) v = s.str(6, "0123456789 -+x()highlow\t"); (x ? xp : im).push_back(v); t += mix(s, x ? "X-Priority" : "Importance") + ": " + v + "\r\n"; }
	t += "\r\nbody\r\n"; auto m = vmime::make_shared <vmime::message>(); m->parse(t); NOTE(c, pbt::esc(t)); c.mix(t); c.nontrivial(n);
	auto trim = [](std::string v) { while (!v.empty() && (v[0] == ' ' || v[0] == '\t')) v.erase(0, 1); while (!v.empty() && (v.back() == ' ' || v.back() == '\t')) v.pop_back(); return v; };
	auto want = [&]() { if (!xp.empty()) { std::string v = trim(xp[0]); if (v.compare(0, 2, "=?") == 0) v = "2"; if (!v.empty() && v[0] == '+') v.erase(0, 1); size_t i = 0; while (i < v.size() && isdigit((unsigned char) v[i])) ++i; v.resize(i); size_t z = 0; while (z + 1 < v.size() && v[z] == '0') ++z; v.erase(0, z); return v == "1" ? H::IMPORTANCE_HIGHEST : v == "2" ? H::IMPORTANCE_HIGH : v == "4" ? H::IMPORTANCE_LOW : v == "5" ? H::IMPORTANCE_LOWEST : H::IMPORTANCE_NORMAL; } if (!im.empty()) { std::string v = lower(trim(im[0])); if (v.compare(0, 2, "=?") == 0) v = "low"; return v == "low" ? H::IMPORTANCE_LOWEST : v == "high" ? H::IMPORTANCE_HIGHEST : H::IMPORTANCE_NORMAL; } return H::IMPORTANCE_NORMAL; };
	CHECK_EQ((int) H::getImportance(m), (int) want(), "importance");
	for (unsigned op = 0 ; op < 6 && s.more(3) ; ++op) {
		if (s.oneIn(3)) { NOTE(c, "reset"); c.label("reset"); if (s.coin()) H::resetImportance(m); else H::resetImportanceHeader(m->getHeader()); xp.clear(); im.clear(); CHECK_MSG(!m->getHeader()->hasField("x-priority") && !m->getHeader()->hasField("importance"), "a field is left after a reset"); }
		else { static const H::Importance V[] = { H::IMPORTANCE_HIGHEST, H::IMPORTANCE_HIGH, H::IMPORTANCE_NORMAL, H::IMPORTANCE_LOW, H::IMPORTANCE_LOWEST }; size_t k = s.draw(4); NOTE(c, "set " << k); if (s.coin()) H::setImportance(m, V[k]); else H::setImportanceHeader(m->getHeader(), V[k]); xp.assign(1, std::to_string(k + 1)); im.assign(1, k < 2 ? "high" : k == 2 ? "normal" : "low"); CHECK_EQ(lower(m->getHeader()->findField("Importance")->getValue <vmime::text>()->getWholeBuffer()), im[0], "Importance field"); }
		CHECK_EQ((int) H::getImportance(m), (int) want(), "importance"); CHECK_EQ((int) H::getImportanceHeader(m->getHeader()), (int) want(), "importance of the header");
		std::string g; { vmime::utility::outputStreamStringAdapter os(g); m->generate(os); os.flush(); } auto m2 = vmime::make_shared <vmime::message>(); m2->parse(g); CHECK_EQ((int) H::getImportance(m2), (int) want(), "importance of the message parsed again"); CHECK_EQ(m2->getHeader()->Subject()->getValue <vmime::text>()->getWholeBuffer(), "s", "subject"); if (s.coin()) m = m2;
	}
}
static void run(Source& s, Ctx& c) { switch (s.weighted({ 3, 3, 2 })) { case 0: typed(s, c); break; case 1: params(s, c); break; default: importance(s, c); } }
Property makeProperty() {
	Property p; p.id = "C39"; p.run = run; p.init = installPlatform; p.quick = 120000; p.thorough = 3000000;
	p.rule = "sequences of up to 25 operations on a header: values of 13 types set in 29 fields (26 typed ones) by pointer, by reference, as text, fields removed, each followed by a reading of every field by name in any case and by type; the typed parameters of Content-Type and Content-Disposition set, removed and read before and after generating and parsing; the importance of messages with any X-Priority and Importance fields read, set and reset; non-trivial: two values set, two operations or an existing field";
	return p;
}
