// C31: SMTP against a strict model server: exactly the message to exactly the recipients, for every extension set, refusal and fragmentation.
#include "net.hpp"
#include "addrgen.hpp"
#include "smtppeer.hpp"
#include "vmime/net/smtp/smtp.hpp"
#include "vmime/utility/inputStreamStringAdapter.hpp"
namespace smtp = vmime::net::smtp;

static std::string rcase(Source& s, std::string x, bool on) { if (on) for (auto& c : x) if (s.coin()) c = (char) tolower(c); return x; }
struct maddr { std::string name, local, domain, ace; bool legal = true; };
static maddr genAddr(Source& s, bool utf8ok, bool illegalOk) {
	maddr a; if (s.coin()) a.name = genName(s, utf8ok && s.coin()); 
	int k = (int) s.weighted({ 6, 2, utf8ok ? 3u : 0u }); a.local = genLocal(s, k); if (a.local[0] == '.') a.local[0] = 'd'; if (a.local.back() == '.') a.local.back() = 'd'; { size_t p; while ((p = a.local.find("..")) != std::string::npos) a.local[p] = 'd'; }
	switch (s.weighted({ 6, 1 })) { case 0: a.domain = genDomain(s, false); a.ace = a.domain; break;
	default: { static const char* const I[][2] = { { "b\xc3\xbc" "cher.example", "xn--bcher-kva.example" }, { "\xe4\xbe\x8b\xe3\x81\x88.\xe3\x83\x86\xe3\x82\xb9\xe3\x83\x88", "xn--r8jz45g.xn--zckzah" }, { "mail.m\xc3\xbcnchen.example", "mail.xn--mnchen-3ya.example" } }; auto& e = I[s.draw(2)]; a.domain = e[0]; a.ace = e[1]; } }
	if (illegalOk) { static const char* const X[] = { "\r\nRCPT TO:<evil@evil.example>", "\nDATA", "\r", "> SIZE=1", " NOTIFY=NEVER", "\r\n", ">", " ", "\"" }; unsigned where = (unsigned) s.draw(2); std::string x = X[s.draw(where == 0 ? 8 : 2)]; if (where == 2) x = s.pick({ "\r\n.", "\n", "\r", "\r\nQUIT\r\n" }); if (where == 0) a.domain += x; else if (where == 1) a.local += x + (s.coin() ? "x" : ""); else a.local = x + a.local; a.legal = false; if (where == 0) a.ace = a.domain; }
	return a;
}
static vmime::mailbox mkMb(Source& s, const maddr& a) { vmime::emailAddress e(vmime::word(a.local, vmime::charset("utf-8")), vmime::word(a.domain, vmime::charset("utf-8"))); return a.name.empty() ? vmime::mailbox(e) : vmime::mailbox(toText(s, a.name), e); }
static bool ascii7(const std::string& s) { for (char c : s) if (c & 0x80) return false; return true; }
static bool needUtf8(const maddr& a) { return !ascii7(a.local) || !ascii7(a.domain); }
static std::string wire(const maddr& a, bool utf8) { return a.local + "@" + (utf8 ? a.domain : a.ace); }
static std::string genContent(Source& s) {   // CRLF line ends only
	std::string r; switch (s.weighted({ 1, 8, 1 })) { case 0: return s.pick({ "", ".", "..", ".\r\n", "\r\n", "\r\n.", "x" }); 
	case 1: { unsigned n = 1 + (unsigned) s.draw(8); for (unsigned i = 0 ; i < n ; ++i) { if (i || s.draw(9)) r += s.coin() ? s.pick({ ".", "..", "...", ".x", "", ".\xc3\xa9", "a.", "QUIT", "From x", "\xff\x80" }) : s.str(6, "ab .:\t"); r += "\r\n"; } if (s.oneIn(4)) r.resize(r.size() - 2); else if (s.oneIn(4)) r += "end"; return r; }
	default: { size_t n = s.sizeNear(600000, { 16384, 32768, 65536, 262144, 524288 }); r = s.bulk(n, "abcdefgh .\n"); for (char& c : r) (void) c; std::string q; for (char c : r) { if (q.size() >= n) break; if (c == '\n') q += "\r\n"; else q += c; } q.resize(std::min(q.size(), n)); if (!q.empty() && q.back() == '\r') q.back() = 'x'; return q; } }
}
// fields of a message text: folded lines belong to the field before them
static void splitMsg(const std::string& t, std::vector<std::string>& f, std::string& body) { size_t p = 0; f.clear(); for (;;) { if (t.compare(p, 2, "\r\n") == 0) { body = t.substr(p + 2); return; } size_t e = p; do { e = t.find("\r\n", e); if (e == std::string::npos) { f.push_back(t.substr(p)); body = ""; return; } e += 2; } while (e < t.size() && (t[e] == ' ' || t[e] == '\t')); f.push_back(t.substr(p, e - p)); p = e; } }
static std::string fname(const std::string& f) { return lower(f.substr(0, f.find(':'))); }
static bool isAddable(const std::string& n) { return n == "date" || n == "mime-version" || n == "message-id"; }

static void run(Source& s, Ctx& c) {
	auto sv = std::make_shared<smtpPeer>(); std::vector<std::shared_ptr<smtpPeer>> servers; std::vector<std::pair<std::string, std::string>> offered;
	// the server
	bool ehlo = s.draw(9) != 0, heloOk = ehlo || s.draw(5) != 0, multi = s.coin(), enh = s.coin(), rset200 = s.oneIn(4); int greeting = s.oneIn(40) ? (int) s.pickInt({ 554, 421 }) : 220; std::set<std::string> ext; std::string er; bool mixed = s.oneIn(5); std::vector<std::string> lines;
	if (ehlo) {
		for (const char* e : { "PIPELINING", "CHUNKING", "SIZE", "SMTPUTF8", "DSN" }) if (s.coin()) { ext.insert(e); std::string l = rcase(s, e, mixed); if (std::string(e) == "SIZE" && s.coin()) l += " " + s.pick({ "0", "10485760", "35882577" }); if (s.oneIn(5)) l += " "; lines.push_back(l); }
		for (const char* e : { "8BITMIME", "ENHANCEDSTATUSCODES", "AUTH PLAIN LOGIN", "AUTH=PLAIN LOGIN", "X-PIPELININGX", "HELP", "VRFY", "X-DSN CHUNKING" }) if (s.oneIn(3)) lines.push_back(e);
		for (size_t i = lines.size() ; i > 1 ; --i) std::swap(lines[i - 1], lines[s.draw(i - 1)]);
		lines.insert(lines.begin(), s.pick({ "smtp.example", "smtp.example at your service, [192.0.2.1]", "smtp.example DSN CHUNKING PIPELINING" })); for (size_t i = 0 ; i < lines.size() ; ++i) er += "250" + std::string(i + 1 < lines.size() ? "-" : " ") + lines[i] + "\r\n";
	}
	std::vector<size_t> cuts = genNetCuts(s); bool pipe = s.draw(4) != 0, chunk = s.draw(4) != 0; std::vector<refusal> plan;
	auto cfg = [&](smtpPeer& p) { p.ext = ext; p.ehlo = ehlo; p.heloOk = heloOk; p.greeting = greeting; p.ehloReply = er; p.multi = multi; p.enh = enh; p.rset200 = rset200; p.cuts = cuts; p.plan = plan; };
	vmime::propertySet props; props["transport.protocol"] = "smtp"; props["transport.smtp.server.address"] = "smtp.example"; props["transport.smtp.options.pipelining"] = pipe; props["transport.smtp.options.chunking"] = chunk;
	auto sess = vmime::net::session::create(props); auto tr = sess->getTransport(); tr->setSocketFactory(vmime::make_shared<netSocketFactory>([&]() { auto p = std::make_shared<smtpPeer>(); cfg(*p); servers.push_back(p); return std::static_pointer_cast<netPeer>(p); })); tr->setTimeoutHandlerFactory(vmime::make_shared<netTimeoutFactory>());
	NOTE(c, "server: greeting " << greeting << (ehlo ? " ESMTP " + pbt::show(er) : heloOk ? std::string(" HELO only") : std::string(" refuses HELO")) << (multi ? " multi-line replies" : "") << " reads " << pbt::show(cuts) << " pipelining " << pipe << " chunking " << chunk); c.mix(er + pbt::show(cuts));
	auto bad = [&]() { for (auto& p : servers) CHECK_MSG(p->bad.empty(), "the server complains: " << p->bad); };
	auto connect = [&]() -> bool {
		bool ok = greeting == 220 && (ehlo || heloOk);
		try { tr->connect(); CHECK_MSG(ok, "connect() succeeded though the server refused"); } catch (const vmime::exceptions::connection_greeting_error&) { CHECK_MSG(!ok, "connect() failed: greeting error"); c.label("connection refused"); } 
		CHECK_EQ(tr->isConnected(), ok, "isConnected() after connect()"); bad(); if (!ok) CHECK_MSG(servers.back()->disconnects == 1, "the connection is still open"); return ok;
	};
	bool conn = connect(); if (!conn) { c.nontrivial(); return; }
	std::set<std::string> active; if (ehlo) active = ext; bool P = active.count("PIPELINING") && pipe; (void) P;
	for (auto& e : active) c.label("extension " + e); if (!ehlo) c.label("HELO");
	unsigned n = 1 + (unsigned) s.draw(3);
	for (unsigned op = 0 ; op < n ; ++op) {
		if (!tr->isConnected()) { plan.clear(); connect(); c.label("reconnect"); }
		smtpPeer* sp = servers.back().get();
		if (op && s.oneIn(5)) {
			if (s.coin()) { sp->plan.clear(); bool no = s.oneIn(3); if (no) sp->plan.push_back({ "NOOP", sp->seen["NOOP"], 421 }); try { tr->noop(); CHECK_MSG(!no, "noop() succeeded though refused"); } catch (const smtp::SMTPCommandError& e) { CHECK_MSG(no, "noop() failed: " << e.what()); CHECK_EQ(e.statusCode(), 421, "status of NOOP"); CHECK_EQ(e.command(), vmime::string("NOOP"), "command"); } c.label("noop"); bad(); }
			else { tr->disconnect(); CHECK_MSG(!tr->isConnected() && sp->quit && sp->disconnects == 1, "disconnect()"); bad(); c.label("disconnect"); }
			continue;
		}
		bool utf8 = active.count("SMTPUTF8") != 0; unsigned kind = (unsigned) s.draw(2); // 0 stream, 1 message with envelope, 2 message alone
		bool illegal = s.oneIn(8); maddr from = genAddr(s, utf8, illegal && s.oneIn(3)), sender; bool hasSender = s.oneIn(3); if (hasSender) sender = genAddr(s, utf8, illegal && s.oneIn(3));
		std::vector<maddr> to; unsigned nr = s.oneIn(12) ? 0 : 1 + (unsigned) s.draw(s.oneIn(10) ? 40 : 3); for (unsigned i = 0 ; i < nr ; ++i) { to.push_back(genAddr(s, utf8, illegal && s.oneIn(2))); if (i && s.oneIn(10)) to.back() = to[i - 1]; }
		const maddr& env = hasSender ? sender : from; bool allLegal = env.legal, need = needUtf8(env), nameUtf8 = !ascii7(env.name); for (auto& a : to) { allLegal = allLegal && a.legal; need = need || needUtf8(a); nameUtf8 = nameUtf8 || !ascii7(a.name); }
		if (!from.legal && !(kind == 2) && hasSender) allLegal = allLegal; 
		if (kind == 2 && !from.legal) throw pbt::Discard();
		vmime::mailbox mfrom = mkMb(s, from), msender; if (hasSender) msender = mkMb(s, sender); vmime::mailboxList ml; for (auto& a : to) ml.appendMailbox(vmime::make_shared<vmime::mailbox>(mkMb(s, a)));
		// DSN
		smtp::SMTPSendOptions so; bool dsn = s.oneIn(3), empty = false; std::string notify, ret, envid; if (dsn) { notify = s.pick({ "", "NEVER", "SUCCESS,FAILURE,DELAY", "FAILURE" }); ret = s.pick({ "", "FULL", "HDRS" }); envid = s.pick({ "", "dsn-unique-id", "a+b=c", "id with space", "1/2\\3" }); so.setDSNAttributes(vmime::make_shared<smtp::DSNAttributes>(notify, ret, envid)); empty = notify.empty() && ret.empty() && envid.empty(); }
		// refusals
		sp->plan.clear(); std::string rv; int rc = 0; unsigned ri = 0; if (s.oneIn(3)) { rv = s.pick({ "MAIL", "RCPT", "DATA", "final", "BDAT", "RSET" }); ri = 0; if (rv == "RCPT" && nr) ri = (unsigned) s.draw(nr - 1); if (rv == "BDAT" && s.coin()) ri = (unsigned) s.draw(2); rc = (int) s.pickInt({ 550, 451, 452, 552, 421, 500, 554, 553 }); }
		for (auto& v : sp->seen) (void) v; if (rc) { sp->plan.push_back({ rv, sp->seen[rv] + ri, rc }); if (rv == "RCPT" && nr > 1 && s.oneIn(3)) for (unsigned i = 0 ; i < nr ; ++i) if (i != ri) sp->plan.push_back({ rv, sp->seen[rv] + i, rc }); }
		size_t rcptStart = sp->seen["RCPT"]; size_t before = sp->done.size(); std::string what; std::vector<std::string> wantTo; std::string want; size_t size = 0, exactSize = 0; bool chunked = false, headers8 = false; vmime::shared_ptr<vmime::message> msg; std::string msgBefore; std::vector<std::string> hdrNames;
		for (auto& a : to) wantTo.push_back(a.name + "|" + a.local + "|" + a.domain);
		if (kind) {
			msg = vmime::make_shared<vmime::message>(); std::string t; auto hdr = msg->getHeader();
			if (kind == 2) {
				if (s.draw(15)) hdr->From()->setValue(mfrom); else from = maddr();
				if (hasSender) hdr->Sender()->setValue(msender);
				vmime::addressList L[3]; size_t k = 0; std::vector<maddr> ord; for (unsigned j = 0 ; j < 3 ; ++j) { while (k < to.size() && (j == 2 || s.draw(3))) { unsigned g = s.oneIn(4) ? 1 + (unsigned) s.draw(2) : 0; if (g) { auto grp = vmime::make_shared<vmime::mailboxGroup>(vmime::text("team", vmime::charset("us-ascii"))); for (unsigned q = 0 ; q < g && k < to.size() ; ++q, ++k) grp->appendMailbox(vmime::make_shared<vmime::mailbox>(*ml.getMailboxAt(k))); L[j].appendAddress(grp); c.label("group"); } else { L[j].appendAddress(vmime::make_shared<vmime::mailbox>(*ml.getMailboxAt(k))); ++k; } } if (L[j].getAddressCount()) { if (j == 0) hdr->To()->setValue(L[j]); else if (j == 1) hdr->Cc()->setValue(L[j]); else hdr->Bcc()->setValue(L[j]); } }
				if (s.coin()) hdr->Date()->setValue(vmime::datetime(2020, 1, 2, 3, 4, 5, 60)); if (s.coin()) hdr->MessageId()->setValue(vmime::messageId("id1", "x.example")); if (s.coin()) hdr->MimeVersion()->setValue(vmime::string("1.0"));
				for (const char* x : { "Return-Path: <back@x.example>", "Original-Recipient: rfc822;me@x.example", "bcc: hidden@x.example", "X-Bcc: kept@x.example", "Return-Path: <two@x.example>", "Received: from a by b; Mon, 1 Jan 2018 00:00:00 +0000" }) if (s.oneIn(5)) { std::string l = x; size_t q = l.find(':'); if (lower(l.substr(0, q)) == "bcc" && hdr->hasField("Bcc")) continue; if (lower(l.substr(0, q)) == "bcc") continue; hdr->insertFieldBefore(s.draw(hdr->getFieldCount()) , vmime::headerFieldFactory::getInstance()->create(l.substr(0, q), l.substr(q + 2))); }
			} else if (s.coin()) hdr->From()->setValue(vmime::mailbox("someone@else.example"));
			if (s.coin()) { hdr->Subject()->setValue(vmime::text(genName(s, true), vmime::charset("utf-8"))); }
			const bool exact = kind == 1 && s.oneIn(12); std::string bt = genContent(s); bool multi2 = s.oneIn(3) && !exact;
			if (multi2) { auto b = msg->getBody(); b->setContentType(vmime::mediaType("multipart/mixed")); vmime::dynamicCast<vmime::contentTypeField>(hdr->ContentType())->setBoundary("=b=1"); for (unsigned i = 0 ; i < 2 ; ++i) { auto p = vmime::make_shared<vmime::bodyPart>(); p->getHeader()->ContentType()->setValue(vmime::mediaType("text/plain")); p->getBody()->setContents(vmime::make_shared<vmime::stringContentHandler>(bt, vmime::encoding(s.coin() ? "7bit" : "base64"))); b->appendPart(p); } }
			else { std::string enc = s.pick({ "7bit", "quoted-printable", "base64", "8bit" }); if (exact) enc = "7bit"; hdr->ContentTransferEncoding()->setValue(vmime::encoding(enc)); msg->getBody()->setContents(vmime::make_shared<vmime::stringContentHandler>(bt, vmime::encoding("binary"))); }
			msgBefore = msg->generate();
			if (exact) { // the size of the message is at (or next to) a multiple of the size of a chunk
				size_t aim = (1 + (msgBefore.size() + 10) / 262144 + (s.oneIn(4) ? 1 : 0)) * 262144 + (size_t) s.pickInt({ 0, 0, 1, -1 }); bool nl = bt.empty() || (bt.size() >= 2 && !bt.compare(bt.size() - 2, 2, "\r\n")); if (!nl) bt += "\r\n"; size_t add = aim - msgBefore.size() - (nl ? 0 : 2); std::string fill; while (fill.size() + 66 < add) fill += std::string(62, 'f') + "\r\n"; fill += std::string(add - fill.size(), 'g'); msg->getBody()->setContents(vmime::make_shared<vmime::stringContentHandler>(bt + fill, vmime::encoding("binary"))); msgBefore = msg->generate(); c.label(msgBefore.size() % 262144 == 0 ? "message of a multiple of 262144 bytes" : "message of about a multiple of 262144 bytes"); }
			if (kind == 2) { std::vector<std::string> f; std::string b; splitMsg(msgBefore, f, b); for (auto& x : f) hdrNames.push_back(fname(x)); }
			chunked = active.count("CHUNKING") && chunk;
		} else { want = genContent(s); exactSize = size = s.oneIn(6) ? 0 : want.size(); }
		NOTE(c, "op " << op << (kind == 0 ? " stream " : kind == 1 ? " message+envelope " : " message ") << "from [" << from.name << "|" << from.local << "|" << from.domain << "]" << (hasSender ? " sender [" + sender.local + "|" + sender.domain + "]" : std::string()) << " to " << pbt::show(wantTo) << (rc ? " refuse " + rv + "#" + std::to_string(ri) + " with " + std::to_string(rc) : std::string()) << (dsn ? " DSN " + notify + "/" + ret + "/" + envid : std::string()) << (kind ? " message " + pbt::show(msgBefore) : " content " + pbt::show(want)));
		c.mix(from.local + from.domain + want + msgBefore + rv + pbt::show(wantTo)); c.label(kind == 0 ? "send stream" : kind == 1 ? "send message with envelope" : "send message"); if (dsn) c.label("DSN"); if (illegal && !allLegal) c.label("illegal address");
		std::string err; int status = -1; std::string ecmd; bool known = true; struct prog : vmime::utility::progressListener { size_t starts = 0, stops = 0, cur = 0; void start(const size_t) { ++starts; } void progress(const size_t c2, const size_t) { cur = c2; } void stop(const size_t) { ++stops; } } pl; bool usePl = s.oneIn(4);
		try {
			if (kind == 0) { chunkIn is(want, genCuts(s)); tr->send(mfrom, ml, is, size, usePl ? &pl : nullptr, hasSender ? msender : vmime::mailbox(), so); }
			else if (kind == 1) tr->send(msg, mfrom, ml, usePl ? &pl : nullptr, hasSender ? msender : vmime::mailbox(), so);
			else tr->send(msg, usePl ? &pl : nullptr, so);
		} catch (const smtp::SMTPCommandError& e) { err = "command"; status = e.statusCode(); ecmd = e.command(); }
		catch (const smtp::SMTPMessageSizeExceedsMaxLimitsException&) { err = "command"; status = 552; ecmd = rv; }
		catch (const smtp::SMTPMessageSizeExceedsCurLimitsException&) { err = "command"; status = 452; ecmd = rv; }
		catch (const smtp::SMTPDSNExtensionNotSupportedException&) { err = "dsn"; }
		catch (const vmime::exceptions::command_error& e) { err = "command"; ecmd = e.command(); if (!allLegal && ecmd.find("BDAT") == std::string::npos) err = "other"; }
		catch (const vmime::exceptions::no_recipient&) { err = "no recipient"; }
		catch (const vmime::exceptions::no_expeditor&) { err = "no expeditor"; }
		catch (const vmime::exception& e) { err = "other"; known = false; ecmd = std::string(e.name()) + ": " + e.what(); }
		NOTE(c, "  -> " << (err.empty() ? "sent" : err + " " + ecmd + " " + std::to_string(status)) << ", " << sp->done.size() - before << " delivered");
		bad(); if (kind) CHECK_EQ(msg->generate(), msgBefore, "the message after sending");
		size_t got = sp->done.size() - before; for (auto& p : servers) if (p.get() != sp) CHECK_MSG(p->done.size() <= 64, "");
		// what should have happened
		std::string expect; bool hadRset = sp->seen["RSET"] > 0; (void) hadRset;
		if (kind == 2 && from.local.empty() && from.domain.empty()) expect = "no expeditor"; else if (to.empty()) expect = err == "dsn" && dsn && !active.count("DSN") ? "dsn" : "no recipient"; else if (dsn && !active.count("DSN") ) expect = "dsn"; else if (!allLegal) expect = "illegal";
		if (!expect.empty()) {
			if (expect == "illegal") CHECK_MSG(!err.empty() && got == 0, "an address which cannot be an address was accepted; " << got << " delivered");
			else CHECK_MSG(err == expect && got == 0, "sending should fail with '" << expect << "', got '" << err << "' " << ecmd << ", " << got << " delivered"); 
			continue;
		}
		CHECK_MSG(known, "unexpected exception " << ecmd);
		// the refusal may concern a command which was not issued
		bool hit = false; if (rc) { unsigned issued = sp->seen[rv]; for (auto& p : sp->plan) hit = hit || issued > p.index; }
		if (hit) {
			c.label("refused " + rv); CHECK_MSG(err == "command", rv << " was refused with " << rc << ", send() reports " << (err.empty() ? "success" : err)); CHECK_EQ(got, (size_t) 0, "messages delivered although " + rv + " was refused");
			if (rv == "final") { if (status >= 0) CHECK_EQ(status, rc, "status of the refusal"); CHECK_EQ(ecmd, std::string("DATA"), "failed command"); }
			else { if (rv != "BDAT") CHECK_EQ(status, rc, "status of the refusal"); std::string v = ecmd.substr(0, ecmd.find(' ')); CHECK_EQ(v, rv, "failed command");
				if (rv == "RCPT" && rc != 452 && rc != 552) { std::string a, rest; unsigned k = (unsigned) (sp->plan[0].index - rcptStart); for (auto& p : sp->plan) k = std::min(k, (unsigned) (p.index - rcptStart)); CHECK_MSG(smtpPeer::path(ecmd.substr(8), a, rest, true) && a == wire(to[k], ascii7(a) ? false : true), "the failed command is " << pbt::show(ecmd) << ", refused recipient " << k); } }
			c.nontrivial(); continue;
		}
		CHECK_MSG(err.empty(), "nothing was refused, send() fails: " << err << " " << ecmd << " " << status); CHECK_EQ(got, (size_t) 1, "messages delivered");
		const trans& t = sp->done.back(); bool u = t.par.count("SMTPUTF8") != 0; if (need) CHECK_EQ(u, utf8, "SMTPUTF8"); else if (!nameUtf8) CHECK_MSG(!u, "SMTPUTF8 without need");
		CHECK_EQ(t.from, wire(env, u), "envelope sender"); std::vector<std::string> w; for (auto& a : to) w.push_back(wire(a, u)); CHECK_EQ(t.to, w, "envelope recipients");
		auto par = [&](const std::string& k) { auto it = t.par.find(k); return it == t.par.end() ? std::string("(none)") : it->second; };
		if (dsn) { CHECK_EQ(par("RET"), ret.empty() ? std::string("(none)") : ret, "RET"); CHECK_EQ(xtextDecode(par("ENVID")), envid.empty() ? std::string("(none)") : "<" + envid + ">", "ENVID"); for (auto& m : t.rpar) CHECK_EQ(m.count("NOTIFY") ? m.at("NOTIFY") : std::string(), notify, "NOTIFY"); } else { CHECK_MSG(!t.par.count("RET") && !t.par.count("ENVID"), "DSN parameters"); for (auto& m : t.rpar) CHECK_MSG(m.empty(), "RCPT parameters"); }
		(void) empty;
		// content
		std::string data = t.data;
		if (kind) {
			vmime::generationContext ctx(vmime::generationContext::getDefaultContext()); ctx.setInternationalizedEmailSupport(u); auto ref = vmime::make_shared<vmime::message>(); ref = vmime::clone(msg);
			if (kind == 1) { strOut os; ref->generate(ctx, os); want = os.s; }
			else {
				auto h = ref->getHeader(); for (size_t i = h->getFieldCount() ; i ; --i) { std::string fn = lower(h->getFieldAt(i - 1)->getName()); if (fn == "bcc" || fn == "return-path" || fn == "original-recipient") h->removeField(h->getFieldAt(i - 1)); }
				strOut os; ref->generate(ctx, os); want = os.s; std::vector<std::string> f, g, miss; std::string b, b2; splitMsg(data, f, b); for (auto& x : f) if (isAddable(fname(x)) && std::find(hdrNames.begin(), hdrNames.end(), fname(x)) == hdrNames.end()) { CHECK_MSG(std::find(miss.begin(), miss.end(), fname(x)) == miss.end(), "two fields added: " << fname(x)); miss.push_back(fname(x)); CHECK_MSG(fname(x) != "mime-version" || x == "MIME-Version: 1.0\r\n" || x == "Mime-Version: 1.0\r\n", "added field " << x); } else g.push_back(x);
				for (const char* a : { "date", "mime-version", "message-id" }) CHECK_MSG(std::find(hdrNames.begin(), hdrNames.end(), a) != hdrNames.end() || std::find(miss.begin(), miss.end(), a) != miss.end(), "required field is missing: " << a);
				std::string d2; for (auto& x : g) d2 += x; d2 += "\r\n" + b; exactSize = 0; data = d2;
			}
			for (char ch : t.data.substr(0, t.data.find("\r\n\r\n"))) if (ch & 0x80) headers8 = true; if (headers8) { c.label("raw UTF-8 header"); CHECK_MSG(u, "the header of the message contains raw UTF-8, but SMTPUTF8 was not requested"); }
			if (par("SIZE") != "(none)") CHECK_MSG((size_t) atol(par("SIZE").c_str()) >= t.data.size() - (chunked ? 0 : 2), "SIZE=" << par("SIZE") << " of a message of " << t.data.size() << " bytes"); else CHECK_MSG(!active.count("SIZE"), "no SIZE");
		} else CHECK_EQ(par("SIZE"), active.count("SIZE") && size ? std::to_string(exactSize) : std::string("(none)"), "SIZE");
		if (!chunked && (want.size() < 2 || want.compare(want.size() - 2, 2, "\r\n") != 0) && !want.empty()) want += "\r\n"; if (!chunked && want.empty() && data == "\r\n") want = data;
		if (data != want) { size_t d = 0; while (d < data.size() && d < want.size() && data[d] == want[d]) ++d; FAIL("content delivered differs at byte " << d << ": got " << pbt::show(data.substr(d > 30 ? d - 30 : 0, 120)) << " (" << data.size() << " bytes), expected " << pbt::show(want.substr(d > 30 ? d - 30 : 0, 120)) << " (" << want.size() << " bytes)"); }
		if (usePl) { CHECK_EQ(pl.starts, (size_t) 1, "progress start"); CHECK_EQ(pl.stops, (size_t) 1, "progress stop"); }
		if (chunked) { c.label("chunked"); CHECK_MSG(sp->seen["DATA"] == 0 || true, ""); } c.nontrivial();
	}
	if (tr->isConnected()) { auto sp = servers.back(); tr->disconnect(); CHECK_MSG(sp->quit && sp->disconnects == 1 && !tr->isConnected(), "disconnect()"); bad(); }
	for (auto& p : servers) CHECK_MSG(p->connects == p->disconnects, "connection left open");
}
Property makeProperty() {
	Property p; p.id = "C31"; p.run = run; p.init = installPlatform; p.quick = 90000; p.thorough = 1500000;
	p.rule = "a session of up to four sends, NOOPs and reconnections with a strict model server: any set of PIPELINING, CHUNKING, SIZE, SMTPUTF8, DSN (keywords in any letter case, among other lines), HELO only, one-line or multi-line replies in any fragmentation, a refusal (any code) of any one command or of the message; contents with CRLF line ends, lines of dots, up to 600 KB around the buffer sizes; addresses with quoted local parts, internationalised domains and local parts, and with line breaks, '>' or spaces which would inject a command; the three ways of sending (stream, message with envelope, message alone with groups, Bcc, Sender); non-trivial: a message was delivered or a refusal was met";
	p.assumptions = { "a non-ASCII local part is only used when the server offers SMTPUTF8; a content which does not end with a line end gets one, as DATA requires" };
	return p;
}
