// C30: POP3 against a strict model server: what the server holds is what is reported and retrieved, and exactly the messages asked for are deleted.
#include "pop3peer.hpp"
#include "vmime/net/session.hpp"
#include "vmime/net/store.hpp"
#include "vmime/net/folder.hpp"
#include "vmime/net/folderStatus.hpp"
#include "vmime/net/message.hpp"
#include "vmime/net/messageSet.hpp"
#include "vmime/net/fetchAttributes.hpp"
#include "vmime/net/events.hpp"
using vmime::net::messageSet; using vmime::net::fetchAttributes;
static std::string genBody(Source& s, bool lf) {
	switch (s.weighted({ 1, 8, 1 })) { case 0: return ""; 
	case 1: { std::string r; unsigned n = 1 + (unsigned) s.draw(8); for (unsigned i = 0 ; i < n ; ++i) { r += s.coin() ? s.pick({ ".", "..", "...", ".x", "", "a.", "+OK", "-ERR", "\xff\x80", " .", "\r", "\r.", ".\r" }) : s.str(6, "ab .:\t"); if (lf && s.coin()) r += s.pick({ "\n.\n", "\n", "\n..\n", "\n.", "\n." }); r += "\r\n"; } return r; }
	default: { size_t n = s.sizeNear(200000, { 4000, 16384, 32768, 65536, 131072 }); std::string r = s.bulk(n, "abcdefgh ..\n"), q; for (char c : r) { if (q.size() >= n) break; if (c == '\n') q += "\r\n"; else q += c; } return q + "\r\n"; } }
}
static std::string genPop3Msg(Source& s, bool lf, std::string& subject) {
	std::string r; subject = s.str(12, "abcdefgh-XYZ"); if (s.draw(9)) { if (s.coin()) r += "From: <a@b.example>\r\n"; r += "Subject: " + subject + "\r\n"; if (s.coin()) r += "X-Long: " + std::string(s.draw(200), 'x') + "\r\n .folded\r\n"; if (s.oneIn(8)) { return r; } r += "\r\n"; } else subject = "?";
	return r + genBody(s, lf);
}
struct cntProg : vmime::utility::progressListener { unsigned starts = 0, stops = 0; bool bad = false; size_t last = 0; void start(const size_t) { ++starts; } void progress(const size_t c, const size_t t) { if (!starts || stops || c > t || c < last) bad = true; last = c; } void stop(const size_t) { ++stops; } };
struct chgListener : vmime::net::events::messageChangedListener { std::vector<std::vector<size_t>> ev; void messageChanged(const vmime::shared_ptr<vmime::net::events::messageChangedEvent>& e) { ev.push_back(e->getNumbers()); } };
static std::vector<size_t> expand(const std::vector<std::pair<size_t, size_t>>& rs, size_t count) { std::vector<size_t> r; for (auto& x : rs) for (size_t i = x.first, l = x.second == (size_t) -1 ? count : x.second ; i <= l ; ++i) r.push_back(i); return r; }

static void run(Source& s, Ctx& c) {
	auto box = std::make_shared<pop3Mailbox>(); std::vector<std::shared_ptr<pop3Peer>> servers; std::map<std::string, std::string> subjects; unsigned uidn = 0;
	bool lfOnly = s.oneIn(12), lf = !lfOnly && s.oneIn(6); auto addMsg = [&]() { std::string sub, m = genPop3Msg(s, lf, sub); if (lfOnly) { std::string q; for (char ch : m) if (ch != '\r') q += ch; m.clear(); for (char ch : q) { if (ch == '\n') m += "\r\n"; else m += ch; } } std::string u = s.pick({ "whqtswO00WBw418f9t5JxYwZ", "QhdPYR:00WBw1Ph7x7", ".", "..x", "~!#", "1", "+OK", "-ERR" }) + std::to_string(++uidn); box->msgs.push_back(m); box->uids.push_back(u); subjects[u] = sub; };
	unsigned nm = (unsigned) s.draw(5); for (unsigned i = 0 ; i < nm ; ++i) addMsg();
	// server options
	bool hasStamp = s.coin(), apopOk = s.draw(3) != 0, uidl = s.draw(5) != 0, top = s.draw(5) != 0, capa = s.draw(3) != 0, extra = s.coin(), greetOk = s.draw(39) != 0, apopCloses = s.oneIn(3); std::string stamp, gt = s.pick({ "POP3 server ready", "", "x", "(c) ready" });
	if (hasStamp) { stamp = s.pick({ "<1896.697170952@dbc.mtview.ca.us>", "<a@b>", "<123.456.x+y=@host-1.example>", "<1.2@[127.0.0.1]>", "<A.B@EXAMPLE>", "<0@0.x>" }); gt += (gt.empty() ? "" : " ") + stamp + s.pick({ "", "", " ", " ready", "." }); }
	std::string okText = s.pick({ "OK", "OK", "OK", "ok", "Ok" }), user = s.pick({ "vincent", "user@example.org", "d\xc3\xa9", "x" }), pass = s.pick({ "couic", "p w", " lead", "p\xc3\xa4ss", "=x", "%" });
	std::vector<std::string> capas; for (const char* x : { "TOP", "UIDL", "USER", "SASL PLAIN CRAM-MD5", "PIPELINING", ".dotted", "EXPIRE NEVER" }) if (s.coin()) capas.push_back(x);
	std::vector<size_t> cuts = genNetCuts(s); std::vector<pop3Refusal> plan;
	bool sasl = s.oneIn(3), saslFb = s.draw(3) != 0, apop = s.coin(), apopFb = s.coin(); std::string cu = user, cp = pass; bool inject = false;
	switch (s.weighted({ 12, 1, 1, 1 })) { case 1: cp += "x"; break; case 2: cu += "x"; break; case 3: { inject = true; std::string x = s.pick({ "\r\n", "\nSTAT", "\r", "x\r\nDELE 1" }); if (s.coin()) cu += x; else cp += x; if (s.oneIn(3)) cp += std::string(1, '\0'); break; } default: break; }
	auto cfg = [&](pop3Peer& p) { p.box = box; p.greetText = gt; p.stamp = stamp; p.user = user; p.pass = pass; p.okText = okText; p.greetOk = greetOk; p.apop = apopOk; p.uidl = uidl; p.top = top; p.capa = capa; p.capas = capas; p.extra = extra; p.lfOnly = lfOnly; p.apopCloses = apopCloses; p.cuts = cuts; p.plan = plan; };
	vmime::propertySet props; props["store.protocol"] = "pop3"; props["store.pop3.server.address"] = "pop3.example"; props["store.pop3.auth.username"] = cu; props["store.pop3.auth.password"] = cp; props["store.pop3.options.sasl"] = sasl; props["store.pop3.options.sasl.fallback"] = saslFb; props["store.pop3.options.apop"] = apop; props["store.pop3.options.apop.fallback"] = apopFb;
	auto sess = vmime::net::session::create(props); auto st = sess->getStore(); st->setSocketFactory(vmime::make_shared<netSocketFactory>([&]() { auto p = std::make_shared<pop3Peer>(); cfg(*p); servers.push_back(p); return std::static_pointer_cast<netPeer>(p); })); st->setTimeoutHandlerFactory(vmime::make_shared<netTimeoutFactory>());
	NOTE(c, "server: greeting " << pbt::show(gt) << (greetOk ? "" : " refused") << " APOP " << apopOk << " UIDL " << uidl << " TOP " << top << (lfOnly ? " LF line ends" : "") << " reads " << pbt::show(cuts) << "; client: " << pbt::show(cu) << "/" << pbt::show(cp) << " sasl " << sasl << "/" << saslFb << " apop " << apop << "/" << apopFb); for (auto& m : box->msgs) NOTE(c, "message " << pbt::show(m)); c.mix(gt + pbt::show(cuts)); for (auto& m : box->msgs) c.mix(m);
	auto bad = [&]() { for (auto& p : servers) CHECK_MSG(p->bad.empty(), "the server complains: " << p->bad); };
	auto connect = [&]() -> bool {
		// what has to happen
		bool ok = greetOk; std::string why = "greeting"; bool credOk = cu == user && cp == pass;
		if (ok) { why = ""; if (sasl && !saslFb) { ok = false; why = "SASL"; } else if (inject) { ok = false; why = "injection"; } else { bool decided = false; if (apop) { if (hasStamp) { if (credOk && apopOk) decided = true; else if (!apopFb || apopCloses) { ok = false; decided = true; why = "APOP"; } } else if (!apopFb) { ok = false; decided = true; why = "no APOP"; } } if (!decided && !credOk) { ok = false; why = "PASS"; } } }
		std::string got; try { st->connect(); } catch (const vmime::exceptions::connection_greeting_error&) { got = "greeting"; } catch (const vmime::exceptions::authentication_error&) { got = "auth"; }
		pop3Peer& p = *servers.back(); bad(); NOTE(c, "connect: " << (got.empty() ? "ok" : got) << ", commands " << pbt::show(p.log)); CHECK_EQ(got, std::string(ok ? "" : why == "greeting" ? "greeting" : "auth"), "connect()"); CHECK_EQ(st->isConnected(), ok, "isConnected()"); CHECK_EQ(p.auth, ok, "authenticated on the server");
		CHECK_MSG(p.auths <= 1, "several authentications"); if (!ok) { CHECK_EQ(p.disconnects, p.connects, "the connection is left open"); c.label("connection refused: " + why); } else c.label(p.seen.count("APOP") ? p.seen.count("PASS") ? "USER/PASS after APOP" : "APOP" : "USER/PASS");
		if (apop && !credOk && hasStamp && apopFb == false) CHECK_MSG(!p.seen.count("PASS"), "the password was sent in the clear without fallback");
		if (apop && !apopFb) CHECK_MSG(!p.seen.count("PASS"), "the password was sent in the clear though APOP has no fallback"); return ok;
	};
	if (!connect()) { c.nontrivial(); return; }
	vmime::shared_ptr<vmime::net::folder> f = st->getDefaultFolder(); auto lst = std::make_shared<chgListener>(); f->addMessageChangedListener(lst.get()); bool open = false; size_t known = 0; std::vector<vmime::shared_ptr<vmime::net::message>> held; std::set<vmime::net::message*> marked; // messages which were held when they were deleted
	struct drop { vmime::shared_ptr<vmime::net::folder>& f; chgListener* l; ~drop() { if (f) f->removeMessageChangedListener(l); } } dropper{ f, lst.get() };
	unsigned ops = 1 + (unsigned) s.draw(10); bool did = false;
	auto reqErr = [&](const char* what, std::function<void()> fn) { bool t = false; try { fn(); } catch (const vmime::exceptions::command_error&) { t = true; } catch (const vmime::exceptions::illegal_state&) { t = true; } catch (const vmime::exceptions::message_not_found&) { t = true; } catch (const vmime::exceptions::folder_not_found&) { t = true; } CHECK_MSG(t, what << " succeeded"); };
	for (unsigned op = 0 ; op < ops ; ++op) {
		pop3Peer& p = *servers.back(); p.plan.clear(); auto no = [&](const char* v) { bool r = s.oneIn(12); if (r) { p.plan.push_back({ v, p.seen[v], false }); NOTE(c, "next " << v << " refused"); c.label(std::string("refused ") + v); } return r; };
		unsigned k = (unsigned) s.weighted({ open ? 1u : 12u, 6, 3, 3, 4, 2, 1, 1, 2 }); NOTE(c, "operation " << k << (open ? " (folder open)" : "")); c.mix(std::to_string(k));
		if (k == 0) { // open or close
			if (!open) { bool r = no("STAT"); if (r) reqErr("open()", [&]() { f->open(vmime::net::folder::MODE_READ_WRITE); }); else { f->open(vmime::net::folder::MODE_READ_WRITE); open = true; known = p.count(); CHECK_EQ(f->getMessageCount(), known, "getMessageCount()"); marked.clear(); } CHECK_EQ(f->isOpen(), open, "isOpen()"); }
			else { bool exp = s.coin(); std::vector<bool> before = p.del; bool r = !exp && no("RSET"); f->close(exp); open = false; CHECK_MSG(!f->isOpen(), "isOpen() after close()"); if (exp) CHECK_MSG(p.del == before, "close(true) changed the deletions"); else if (!r) CHECK_EQ(p.count(), p.del.size(), "messages after close(false)"); for (auto& m : held) { std::ostringstream o; vmime::utility::outputStreamAdapter a(o); reqErr("extract() of a message of a closed folder", [&]() { m->extract(a); }); } held.clear(); c.label(exp ? "close(true)" : "close(false)"); }
			bad(); continue;
		}
		if (!open && k < 6) { size_t before = p.log.size(); reqErr("an operation on a closed folder", [&]() { switch (k) { case 1: f->getMessage(1); break; case 2: f->deleteMessages(messageSet::byNumber(1)); break; case 3: { std::vector<vmime::shared_ptr<vmime::net::message>> v; f->fetchMessages(v, fetchAttributes(fetchAttributes::SIZE)); break; } default: f->getMessageCount(); } }); CHECK_EQ(p.log.size(), before, "commands sent for a closed folder"); continue; }
		switch (k) {
		case 1: { // retrieve
			size_t n = 1 + s.draw(known); if (n > known) { reqErr("getMessage() of a message which does not exist", [&]() { f->getMessage(n); }); break; }
			auto m = s.coin() && !held.empty() ? held[s.draw(held.size() - 1)] : f->getMessage(n); n = m->getNumber(); CHECK_MSG(n >= 1 && n <= known, "message number"); held.push_back(m); bool gone = n > p.del.size() || p.del[n - 1], r = no("RETR"); std::string got; vmime::utility::outputStreamStringAdapter os(got); cntProg pr; bool usePr = s.coin();
			if (s.oneIn(6)) { size_t before = p.log.size(); bool t = false; try { if (s.coin()) m->extract(os, nullptr, 1 + s.draw(5)); else m->extract(os, nullptr, s.draw(2), s.draw(9)); } catch (const vmime::exceptions::partial_fetch_not_supported&) { t = true; } CHECK_MSG(t && got.empty() && p.log.size() == before, "partial extraction delivered " << pbt::show(got)); c.label("partial"); break; }
			if (gone || r) { reqErr("extract()", [&]() { m->extract(os, usePr ? &pr : nullptr); }); CHECK_MSG(got.empty(), "data delivered by a refused RETR: " << pbt::show(got)); break; }
			std::string exp = box->msgs[n - 1]; if (exp.size() >= 2) exp.resize(exp.size() - 2); if (lfOnly) { std::string q; for (char ch : exp) if (ch != '\r') q += ch; exp = q; }
			if (s.oneIn(4)) { auto pm = m->getParsedMessage(); vmime::message ref; ref.parse(exp); CHECK_EQ(pm->generate(), ref.generate(), "getParsedMessage()"); c.label("getParsedMessage"); }
			else { m->extract(os, usePr ? &pr : nullptr); CHECK_EQ(got, exp, "content of message " << n); if (usePr) CHECK_MSG(pr.starts == 1 && pr.stops == 1 && !pr.bad, "progress listener"); c.label("extract"); did = true; if (exp.find("\r\n.") != std::string::npos) c.label("dot lines"); if (exp.empty()) c.label("empty message"); }
			break; }
		case 2: { // delete
			std::vector<std::pair<size_t, size_t>> rs; std::vector<size_t> nums; messageSet ms = messageSet::empty(); unsigned form = (unsigned) s.weighted({ 5, 3, 1, 3 });
			if (form == 0) { unsigned q = 1 + (unsigned) s.draw(2); for (unsigned i = 0 ; i < q ; ++i) nums.push_back(1 + s.draw(s.oneIn(8) ? known + 1 : known ? known - 1 : 0)); ms = nums.size() == 1 && s.coin() ? messageSet::byNumber(nums[0]) : messageSet::byNumber(nums); std::set<size_t> u(nums.begin(), nums.end()); nums.assign(u.begin(), u.end()); }
			else if (form == 1) { size_t a = 1 + s.draw(known), b = s.oneIn(4) ? (size_t) -1 : a + s.draw(2); ms = messageSet::byNumber(a, b); nums = expand({ { a, b } }, known); }
			else if (form == 3) { unsigned q = 2 + (unsigned) s.draw(2); for (unsigned i = 0 ; i < q ; ++i) { size_t a = 1 + s.draw(known), b = a + (s.oneIn(3) ? s.draw(2) : 0); if (a == b) ms.addRange(vmime::net::numberMessageRange(a)); else ms.addRange(vmime::net::numberMessageRange(a, b)); for (size_t x = a ; x <= b ; ++x) nums.push_back(x); } c.label("ranges in any order"); }
			else { ms = messageSet::byUID(vmime::net::message::uid("x1")); }
			NOTE(c, "delete " << pbt::show(nums)); std::vector<bool> exp = p.del; int r = no("DELE") ? (int) p.seen["DELE"] : -1; bool ok = !nums.empty(); unsigned seq = p.seen["DELE"]; for (size_t n : nums) { if ((int) seq++ == r || n < 1 || n > exp.size() || exp[n - 1]) { ok = false; break; } exp[n - 1] = true; }
			std::vector<bool> was = p.del; size_t evs = lst->ev.size(); bool t = false; try { f->deleteMessages(ms); } catch (const vmime::exceptions::invalid_argument&) { t = true; CHECK_MSG(nums.empty(), "invalid_argument"); } catch (const vmime::exceptions::command_error&) { t = true; } catch (const vmime::exceptions::message_not_found&) { t = true; exp = was; }
			bad(); CHECK_EQ(!t, ok, "success of deleteMessages()"); CHECK_EQ(p.del, exp, "messages marked as deleted on the server"); if (ok) { did = true; c.label("delete"); CHECK_EQ(lst->ev.size(), evs + 1, "message changed events"); std::vector<size_t> e = lst->ev.back(); std::sort(e.begin(), e.end()); std::sort(nums.begin(), nums.end()); CHECK_EQ(e, nums, "numbers in the event"); c.label("delete"); } else { c.label("failed deletion"); }
			for (auto& m : held) { size_t i = m->getNumber() - 1; if (exp[i] && !was[i]) marked.insert(m.get()); CHECK_EQ((m->getFlags() & vmime::net::message::FLAG_DELETED) != 0, marked.count(m.get()) != 0, "FLAG_DELETED of message " << i + 1); }
			break; }
		case 3: { // fetch many
			if (!known) { CHECK_EQ(f->getMessages(messageSet::byNumber(1, -1)).size(), 0u, "getMessages() of an empty folder"); break; }
			int at = 0; if (s.coin()) at |= fetchAttributes::SIZE; if (s.coin()) at |= fetchAttributes::UID; if (s.oneIn(3)) at |= fetchAttributes::FULL_HEADER; else if (s.oneIn(4)) at |= fetchAttributes::ENVELOPE; std::vector<vmime::shared_ptr<vmime::net::message>> v = s.coin() ? f->getMessages(messageSet::byNumber(1, -1)) : f->getMessages(messageSet::byNumber(1 + s.draw(known - 1))); bool rl = at & fetchAttributes::SIZE && no("LIST"), ru = at & fetchAttributes::UID && no("UIDL"); bool hdr = at & (fetchAttributes::FULL_HEADER | fetchAttributes::ENVELOPE), hdrFail = false; if (hdr) { if (!top) hdrFail = true; for (auto& m : v) if (m->getNumber() > p.del.size() || p.del[m->getNumber() - 1]) hdrFail = true; }
			cntProg pr; bool usePr = s.coin(); if (hdrFail) { reqErr("fetchMessages()", [&]() { f->fetchMessages(v, fetchAttributes(at)); }); break; } f->fetchMessages(v, fetchAttributes(at), usePr ? &pr : nullptr); if (usePr) CHECK_MSG(pr.starts == 1 && pr.stops == 1 && !pr.bad, "progress listener");
			for (auto& m : v) { size_t i = m->getNumber() - 1; bool gone = p.del[i]; if (at & fetchAttributes::SIZE && !rl && !gone) CHECK_EQ(m->getSize(), p.octets(i), "size of message " << i + 1); else { bool t = false; try { m->getSize(); } catch (const vmime::exceptions::unfetched_object&) { t = true; } CHECK_MSG(t, "size of a message which has not been fetched"); } CHECK_EQ(std::string(m->getUID()), at & fetchAttributes::UID && uidl && !ru && !gone ? box->uids[i] : std::string(), "UID of message " << i + 1); if (hdr) { std::string sub = subjects[box->uids[i]]; auto h = m->getHeader(); if (sub == "?") CHECK_MSG(true, ""); else if (sub.empty()) { } else CHECK_EQ(h->Subject()->getValue<vmime::text>()->getConvertedText(vmime::charsets::UTF_8), sub, "Subject of message " << i + 1); } held.push_back(m); }
			c.label("fetch several"); did = true; break; }
		case 4: { // fetch one
			if (!known) break; size_t n = 1 + s.draw(known - 1); auto m = f->getMessage(n); bool gone = n > p.del.size() || p.del[n - 1]; int at = 0; if (s.coin()) at |= fetchAttributes::SIZE; if (s.coin()) at |= fetchAttributes::UID; if (s.oneIn(3)) at |= fetchAttributes::FULL_HEADER; bool rl = at & fetchAttributes::SIZE && no("LIST"), ru = at & fetchAttributes::UID && no("UIDL"), hf = at & fetchAttributes::FULL_HEADER && (gone || !top || no("TOP"));
			if (hf) { reqErr("fetchMessage()", [&]() { f->fetchMessage(m, fetchAttributes(at)); }); bool t = false; try { m->getHeader(); } catch (const vmime::exceptions::unfetched_object&) { t = true; } CHECK_MSG(t, "header after a refused TOP"); break; } f->fetchMessage(m, fetchAttributes(at));
			if (at & fetchAttributes::SIZE && !rl && !gone) CHECK_EQ(m->getSize(), p.octets(n - 1), "size of message " << n); CHECK_EQ(std::string(m->getUID()), at & fetchAttributes::UID && uidl && !ru && !gone ? box->uids[n - 1] : std::string(), "UID of message " << n);
			if (at & fetchAttributes::FULL_HEADER) { std::string t = box->msgs[n - 1]; size_t e = t.compare(0, 2, "\r\n") == 0 ? 0 : t.find("\r\n\r\n"); if (e != std::string::npos) t.resize(e == 0 ? 2 : e + 4); if (lfOnly) { std::string q; for (char ch : t) if (ch != '\r') q += ch; t = q; } vmime::header ref; ref.parse(t); vmime::header h(*vmime::dynamicCast<const vmime::header>(m->getHeader())); CHECK_EQ(h.generate(), ref.generate(), "header of message " << n); }
			held.push_back(m); c.label("fetch one"); did = true; break; }
		case 5: { bool t = false; try { f->fetchMessage(known ? f->getMessage(1) : throw vmime::exceptions::operation_not_supported(), fetchAttributes(fetchAttributes::FLAGS)); } catch (const vmime::exceptions::operation_not_supported&) { t = true; } CHECK_MSG(t, "fetch of FLAGS"); break; }
		case 6: { bool r = no("STAT"); if (r) reqErr("getStatus()", [&]() { f->getStatus(); }); else { auto x = f->getStatus(); CHECK_EQ(x->getMessageCount(), p.count(), "message count in the status"); if (open) { CHECK_EQ(f->getMessageCount(), known, "getMessageCount() after getStatus()"); } } c.label("status"); break; }
		case 7: { bool r = no("NOOP"); if (r) reqErr("noop()", [&]() { st->noop(); }); else st->noop(); c.label("noop"); break; }
		default: { // disconnect (or lose the connection) and come back
			std::vector<std::string> expM, expU; bool lost = s.oneIn(3), refused = !lost && s.oneIn(6); if (lost) { p.closed = true; CHECK_MSG(!st->isConnected(), "still connected"); expM = box->msgs; expU = box->uids; c.label("connection lost"); } else { if (refused) p.plan.push_back({ "QUIT", p.seen["QUIT"], true }); for (size_t i = 0 ; i < p.del.size() ; ++i) if (refused || !p.del[i]) { expM.push_back(box->msgs[i]); expU.push_back(box->uids[i]); } st->disconnect(); CHECK_MSG(!st->isConnected() && p.seen["QUIT"] == 1, "disconnect()"); CHECK_EQ(p.disconnects, p.connects, "the connection is left open"); c.label("disconnect"); }
			bad(); CHECK_EQ(box->msgs, expM, "messages left on the server"); CHECK_EQ(box->uids, expU, "messages left on the server");
			if (op + 1 == ops) break; if (s.coin()) { unsigned q = 1 + (unsigned) s.draw(1); for (unsigned i = 0 ; i < q ; ++i) addMsg(); } plan.clear(); connect(); pop3Peer& q = *servers.back(); 
			// what belongs to the previous connection is unusable, and does nothing on the new one
			{ size_t before = q.log.size(); if (open) { reqErr("deletion with a folder of the previous connection", [&]() { f->deleteMessages(messageSet::byNumber(1)); }); reqErr("getMessage() with a folder of the previous connection", [&]() { f->getMessage(1); }); } for (auto& m : held) { std::ostringstream o; vmime::utility::outputStreamAdapter a(o); reqErr("extract() of a message of the previous connection", [&]() { m->extract(a); }); } reqErr("open() of a folder of the previous connection", [&]() { f->open(vmime::net::folder::MODE_READ_WRITE); }); CHECK_EQ(q.log.size(), before, "commands sent for objects of the previous connection"); }
			held.clear(); f->removeMessageChangedListener(lst.get()); f = st->getDefaultFolder(); f->addMessageChangedListener(lst.get()); CHECK_EQ(q.count(), q.del.size(), "deletions at the end of the previous connection"); open = false; marked.clear(); break; }
		}
		bad(); CHECK_MSG(!servers.back()->stalled, "the client waits for data that never comes");
	}
	// end: dropping the objects does not delete anything which was not asked
	if (did) c.nontrivial();
	if (st->isConnected()) { pop3Peer& p = *servers.back(); p.plan.clear(); std::vector<std::string> exp; bool keep = s.coin(); for (size_t i = 0 ; i < p.del.size() ; ++i) if (!p.del[i]) exp.push_back(box->msgs[i]); (void) keep; st->disconnect(); CHECK_EQ(box->msgs, exp, "messages left on the server at the end"); }
	bad();
}
Property makeProperty() { Property p; p.id = "C30"; p.run = run; p.quick = 40000; p.thorough = 700000; p.caseCpuSeconds = 20; p.caseWallSeconds = 40; p.workers = 8; 
	p.rule = "a generated mailbox (0-5 messages: dot lines, 8-bit bytes, empty, header only, large, bare CR and LF), a model POP3 server with generated options (greeting with or without a timestamp, APOP, UIDL, TOP, CAPA, terse or chatty replies, LF line ends, refusals of single commands), generated fragmentation of its output and would-block reads, and a random history of operations (connect with SASL/APOP/USER and fallbacks, right, wrong and injecting credentials; open, close(true/false), getMessage, extract, getParsedMessage, fetch one or many, delete sets and ranges, status, noop, disconnect, lost connection, reconnect, use of objects of the previous connection); non-trivial: at least one retrieval, deletion or fetch was compared with the model, or the connection had to be refused";
	p.assumptions = { "one client per maildrop (RFC 1939 locks it)", "the end of line which precedes the terminating dot is not part of the delivered message (as in vmime since its beginning); what a folder counts after it was closed with deletions pending and opened again in the same connection is what STAT says", "SASL exchanges are decided by C35" };
	return p; }
