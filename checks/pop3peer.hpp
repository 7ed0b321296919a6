// A strict model POP3 server (RFC 1939, 2449).
#pragma once
#include "net.hpp"
#include "vmime/security/digest/messageDigestFactory.hpp"
inline std::string hexMd5(const std::string& x) { auto d = vmime::security::digest::messageDigestFactory::getInstance()->create("md5"); d->update(x); d->finalize(); return d->getHexDigest(); }
struct pop3Mailbox { std::vector<std::string> msgs; std::vector<std::string> uids; };     // messages as they are transmitted: lines ended by CRLF
struct pop3Refusal { std::string verb; unsigned nth; bool drop; };
struct pop3Peer : netPeer {
	std::shared_ptr<pop3Mailbox> box; std::vector<bool> del; std::vector<pop3Refusal> plan; std::map<std::string, unsigned> seen;
	std::string greetText, stamp, user, pass, okText = "OK"; bool greetOk = true, apop = true, uidl = true, top = true, capa = true, extra = false, lfOnly = false, auth = false, quit = false, apopCloses = false;
	std::vector<std::string> capas, log; std::string bad, gotUser; bool userOk = false; unsigned auths = 0;
	void violation(const std::string& x) { if (bad.empty()) bad = x; }
	std::string eol() const { return lfOnly ? "\n" : "\r\n"; }
	void ok(const std::string& t) { out += "+" + okText + (t.empty() ? "" : " " + t) + eol(); }
	void err(const std::string& t) { out += "-ERR" + (t.empty() ? "" : " " + t) + eol(); }
	void onConnect(const std::string&, int) { del.assign(box->msgs.size(), false); if (greetOk) ok(greetText); else { err("go away"); } }
	size_t count() const { size_t n = 0; for (bool d : del) n += !d; return n; }
	size_t octets(size_t i) const { return box->msgs[i].size(); }
	void lines(const std::string& x) { // x: lines, each ended by CRLF
		size_t p = 0; while (p < x.size()) { size_t e = x.find("\r\n", p); std::string l = x.substr(p, e == std::string::npos ? std::string::npos : e - p); if (!l.empty() && l[0] == '.') out += "."; out += l + eol(); p = e == std::string::npos ? x.size() : e + 2; } out += "." + eol(); }
	bool num(const std::string& a, size_t& i) { if (a.empty() || a.find_first_not_of("0123456789") != std::string::npos || a.size() > 18) { violation("malformed message number: " + pbt::show(a)); err("syntax"); return false; } i = (size_t) atoll(a.c_str()); if (i < 1 || i > del.size() || del[i - 1]) { err("no such message"); return false; } --i; return true; }
	void command(const std::string& l) {
		log.push_back(l); for (char ch : l) if (ch == '\r' || ch == '\n' || ch == 0) violation("bare CR, LF or NUL in a command: " + pbt::show(l));
		std::string v = l.substr(0, l.find(' ')), a = l.size() > v.size() ? l.substr(v.size() + 1) : ""; if (l.size() == v.size() + 1) violation("trailing space: " + pbt::show(l));
		unsigned k = seen[v]++; for (auto& r : plan) if (r.verb == v && r.nth == k) { if (r.drop) { closed = true; return; } err("[SYS/TEMP] refused"); return; }
		if (v == "QUIT") { quit = true; if (auth) { std::vector<std::string> m, u; for (size_t i = 0 ; i < del.size() ; ++i) if (!del[i]) { m.push_back(box->msgs[i]); u.push_back(box->uids[i]); } box->msgs = m; box->uids = u; } ok("bye"); closed = true; return; }
		if (v == "CAPA") { if (!a.empty()) violation("malformed " + l); if (!capa) { err("what?"); return; } ok("list follows"); std::string x; for (auto& c : capas) x += c + "\r\n"; lines(x); return; }
		if (!auth) {
			if (v == "USER") { if (a.empty()) violation("malformed " + pbt::show(l)); gotUser = a; userOk = true; ok("name is valid"); return; }
			if (v == "PASS") { if (!userOk) { violation("PASS without USER"); err("no"); return; } userOk = false; ++auths; if (gotUser == user && a == pass) { auth = true; ok("maildrop ready"); } else err("[AUTH] invalid password"); return; }
			if (v == "APOP") { size_t sp = a.rfind(' '); if (stamp.empty()) { violation("APOP without a timestamp"); err("no"); return; } if (sp == std::string::npos) { violation("malformed " + l); err("syntax"); return; } if (apop && a.substr(0, sp) == user && a.substr(sp + 1) == hexMd5(stamp + pass)) { auth = true; ++auths; ok("maildrop ready"); } else { err("permission denied"); if (apopCloses) closed = true; } return; }
			if (v == "AUTH") { err("no such mechanism"); return; }
			if (v == "NOOP") { err("not in this state"); return; }
			violation("unexpected command before the authentication: " + pbt::show(l)); err("what?"); return;
		}
		size_t i;
		if (v == "STAT") { if (!a.empty()) violation("malformed " + l); size_t n = 0, z = 0; for (size_t j = 0 ; j < del.size() ; ++j) if (!del[j]) { ++n; z += octets(j); } ok(std::to_string(n) + " " + std::to_string(z) + (extra ? " x" : "")); }
		else if (v == "LIST" || v == "UIDL") { if (v == "UIDL" && !uidl) { err("not supported"); return; }
			auto item = [&](size_t j) { return std::to_string(j + 1) + " " + (v == "LIST" ? std::to_string(octets(j)) + (extra ? " octets" : "") : box->uids[j]); };
			if (a.empty()) { ok(extra ? std::to_string(count()) + " messages" : ""); std::string x; for (size_t j = 0 ; j < del.size() ; ++j) if (!del[j]) x += item(j) + "\r\n"; lines(x); } else if (num(a, i)) ok(item(i)); }
		else if (v == "RETR") { if (num(a, i)) { ok(extra ? std::to_string(octets(i)) + " octets" : ""); lines(box->msgs[i]); } }
		else if (v == "TOP") { size_t sp = a.find(' '); if (sp == std::string::npos || sp + 1 == a.size() || a.find_first_not_of("0123456789", sp + 1) != std::string::npos) { violation("malformed " + l); err("syntax"); return; } if (!top) { err("not supported"); return; } if (num(a.substr(0, sp), i)) { ok(""); size_t n = (size_t) atoll(a.c_str() + sp + 1); const std::string& m = box->msgs[i]; size_t p = 0; bool body = false; while (p < m.size()) { size_t e = m.find("\r\n", p); if (e == std::string::npos) break; if (body) { if (!n) break; --n; } if (e == p) body = true; p = e + 2; } lines(m.substr(0, p)); } }
		else if (v == "DELE") { if (num(a, i)) { del[i] = true; ok("deleted"); } }
		else if (v == "RSET") { if (!a.empty()) violation("malformed " + l); del.assign(del.size(), false); ok(""); }
		else if (v == "NOOP") { if (!a.empty()) violation("malformed " + l); ok(""); }
		else { violation("unknown command " + pbt::show(l)); err("what?"); }
	}
	void onData(std::string& in) {
		for (;;) {
			if (quit || closed) { in.clear(); return; } size_t e = in.find("\r\n"); if (e == std::string::npos) return; std::string l = in.substr(0, e); in.erase(0, e + 2);
			if (!out.empty()) violation("command sent before the reply to the previous one was read: " + pbt::show(l)); command(l);
		}
	}
};
