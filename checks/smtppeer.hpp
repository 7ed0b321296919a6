// A strict model SMTP server (RFC 5321 and the extensions which the client uses).
#pragma once
#include "net.hpp"
struct trans { std::string from; std::vector<std::string> to; std::string data; std::map<std::string, std::string> par; std::vector<std::map<std::string, std::string>> rpar; };
struct refusal { std::string verb; unsigned index = 0; int code = 0; };   // the index-th command of that verb since the last RSET/transaction
inline std::string xtextDecode(const std::string& s) { std::string r; for (size_t i = 0 ; i < s.size() ; ++i) { if (s[i] == '+' && i + 2 < s.size() && hexval((unsigned char) s[i + 1]) >= 0 && hexval((unsigned char) s[i + 2]) >= 0) { r += (char) (hexval((unsigned char) s[i + 1]) * 16 + hexval((unsigned char) s[i + 2])); i += 2; } else r += s[i]; } return r; }

struct smtpPeer : netPeer {
	// configuration
	std::set<std::string> ext; bool ehlo = true, heloOk = true; int greeting = 220; std::string ehloReply; bool multi = false, enh = false; bool rset200 = false;
	std::vector<refusal> plan; std::map<std::string, unsigned> seen;
	// state
	std::string bad; bool greeted = false, inData = false, dataRefused = false, quit = false, bdatBroken = false; size_t bdatLeft = 0; bool bdatLast = false; int bdatCode = 0; bool chunking = false;
	bool haveFrom = false; trans cur; std::vector<trans> done; unsigned cmds = 0, groups = 0; bool eod = true; std::string data; unsigned rcpts = 0;
	void violation(const std::string& w) { if (bad.empty()) bad = w; }
	void reply(int code, const std::string& text) {
		std::string e = enh && code != 354 && code != 220 ? std::to_string(code / 100) + ".1.5 " : "";
		if (multi) out += std::to_string(code) + "-" + e + text + "\r\n" + std::to_string(code) + "-" + "\r\n" + std::to_string(code) + " " + e + "end\r\n"; else out += std::to_string(code) + " " + e + text + "\r\n";
	}
	void onConnect(const std::string&, int) { if (greeting == 220 && multi) out += "220-hello\r\n"; out += std::to_string(greeting) + " smtp.example ready\r\n"; }
	int refused(const std::string& verb) { unsigned n = seen[verb]++; for (auto& r : plan) if (r.verb == verb && r.index == n) return r.code; return 0; }
	void clear() { haveFrom = false; cur = trans(); rcpts = 0; chunking = false; bdatBroken = false; data.clear(); }
	bool early = false;
	void commit() { if (early) violation("message data sent before the reply to DATA was read"); early = false; cur.data = data; done.push_back(cur); clear(); }
	// path: <local@domain>; false when it is not one
	static bool path(const std::string& s, std::string& addr, std::string& rest, bool utf8) {
		if (s.empty() || s[0] != '<') return false; size_t i = 1; std::string local; 
		if (i < s.size() && s[i] == '"') { ++i; for (;; ++i) { if (i >= s.size()) return false; if (s[i] == '"') break; if (s[i] == '\\') { if (++i >= s.size()) return false; } else if ((unsigned char) s[i] < 32) return false; if (!utf8 && (s[i] & 0x80)) return false; local += s[i]; } ++i; }
		else { while (i < s.size() && s[i] != '@') { if ((s[i] & 0x80) ? !utf8 : (!isalnum((unsigned char) s[i]) && s[i] != '.' && !strchr("!#$%&'*+-/=?^_`{|}~", s[i]))) return false; local += s[i++]; } if (local.empty() || local[0] == '.' || local.back() == '.' || local.find("..") != std::string::npos) return false; }
		if (i >= s.size() || s[i] != '@') return false;
		size_t e = s.find('>', i); if (e == std::string::npos) return false; std::string dom = s.substr(i + 1, e - i - 1); if (dom.empty() || dom[0] == '.' || dom.back() == '.') return false;
		for (char ch : dom) if ((ch & 0x80) ? !utf8 : (!isalnum((unsigned char) ch) && ch != '-' && ch != '.')) return false;
		addr = local + "@" + dom; rest = s.substr(e + 1); return true;
	}
	static bool params(const std::string& rest, std::map<std::string, std::string>& m) { size_t i = 0; while (i < rest.size()) { if (rest[i] != ' ') return false; size_t e = rest.find(' ', i + 1); if (e == std::string::npos) e = rest.size(); std::string p = rest.substr(i + 1, e - i - 1); if (p.empty()) return false; size_t q = p.find('='); std::string k = q == std::string::npos ? p : p.substr(0, q), v = q == std::string::npos ? "" : p.substr(q + 1); for (char ch : v) if ((unsigned char) ch <= 32 || (ch & 0x80) || ch == '=') return false; if (m.count(k)) return false; m[k] = v; i = e; } return true; }
	void command(const std::string& l) {
		++cmds; for (char ch : l) if (ch == '\r' || ch == '\n' || ch == 0) violation("bare CR, LF or NUL in a command: " + pbt::show(l));
		std::string verb = l.substr(0, l.find(' ')), arg = l.size() > verb.size() ? l.substr(verb.size() + 1) : "";
		if (!greeted && verb != "EHLO" && verb != "HELO" && verb != "QUIT") { violation("command before EHLO/HELO: " + l); reply(503, "no greeting"); return; }
		if (int code = refused(verb)) { if (verb == "RSET") clear(); if (verb == "BDAT") { bdatCode = code; } else { reply(code, "refused " + verb); return; } }
		if (verb == "EHLO" || verb == "HELO") {
			if (arg.empty() || arg.find(' ') != std::string::npos) violation("malformed " + l);
			if (verb == "EHLO" && !ehlo) { reply(502, "not implemented"); return; }
			if (verb == "HELO" && !heloOk) { reply(550, "go away"); return; }
			greeted = true; clear(); if (verb == "EHLO") out += ehloReply; else { reply(250, "smtp.example"); ext.clear(); }
		} else if (verb == "MAIL") {
			std::string rest; if (haveFrom) { violation("MAIL inside a transaction"); reply(503, "nested"); return; }
			bool utf8 = l.size() >= 8 && l.find(" SMTPUTF8") != std::string::npos;
			if (arg.compare(0, 5, "FROM:") != 0 || !path(arg.substr(5), cur.from, rest, utf8) || !params(rest, cur.par)) { violation("malformed command " + pbt::show(l)); reply(501, "syntax"); return; }
			for (auto& p : cur.par) { std::string need = p.first == "SIZE" ? "SIZE" : p.first == "SMTPUTF8" ? "SMTPUTF8" : p.first == "RET" || p.first == "ENVID" ? "DSN" : "?"; if (!ext.count(need)) violation("parameter of an extension the server does not offer: " + pbt::show(l)); }
			haveFrom = true; reply(250, "ok");
		} else if (verb == "RCPT") {
			std::string a, rest; std::map<std::string, std::string> pr; if (!haveFrom) { reply(503, "no MAIL"); return; }
			if (arg.compare(0, 3, "TO:") != 0 || !path(arg.substr(3), a, rest, cur.par.count("SMTPUTF8") != 0) || !params(rest, pr)) { violation("malformed command " + pbt::show(l)); reply(501, "syntax"); return; }
			for (auto& p : pr) if (p.first != "NOTIFY" || !ext.count("DSN")) violation("parameter of an extension the server does not offer: " + pbt::show(l));
			cur.to.push_back(a); cur.rpar.push_back(pr); ++rcpts; reply(rcpts % 3 == 2 ? 251 : 250, "ok");
		} else if (verb == "DATA") {
			if (!arg.empty()) violation("malformed " + l); if (!haveFrom || !rcpts || chunking) { reply(503, "no recipient"); return; }
			inData = true; early = false; data.clear(); eod = false; reply(354, "go ahead");
		} else if (verb == "BDAT") {
			if (!ext.count("CHUNKING")) violation("BDAT without CHUNKING"); size_t sp = arg.find(' '); std::string n = arg.substr(0, sp), last = sp == std::string::npos ? "" : arg.substr(sp + 1);
			if (n.empty() || n.size() > 9 || n.find_first_not_of("0123456789") != std::string::npos || (sp != std::string::npos && last != "LAST")) { violation("malformed " + l); reply(501, "syntax"); return; }
			bdatLeft = (size_t) atoi(n.c_str()); bdatLast = last == "LAST"; if (!chunking) data.clear(); chunking = true; if (!haveFrom || !rcpts || bdatBroken) bdatCode = bdatCode ? bdatCode : 503; if (bdatLeft == 0) bdatEnd();
		} else if (verb == "RSET") { if (!arg.empty()) violation("malformed " + l); clear(); reply(rset200 ? 200 : 250, "ok"); }
		else if (verb == "NOOP") reply(250, "ok");
		else if (verb == "QUIT") { quit = true; reply(221, "bye"); closed = true; }
		else { violation("unknown command " + pbt::show(l)); reply(500, "what?"); }
	}
	void bdatEnd() { if (bdatCode) { bdatBroken = true; reply(bdatCode, "refused BDAT"); bdatCode = 0; if (bdatLast) { bool f = haveFrom; (void) f; data.clear(); } } else if (bdatLast) { commit(); reply(250, "delivered"); } else reply(250, "got it"); }
	void onData(std::string& in) {
		for (;;) {
			if (quit) { in.clear(); return; }
			if (in.empty()) return;
			if (inData) {
				if (!out.empty()) early = true;
				size_t at = data.size() < 6 ? 0 : data.size() - 6; data += in; in.clear(); size_t e = data.compare(0, 3, ".\r\n") == 0 ? 0 : data.find("\r\n.\r\n", at); if (e == std::string::npos) return;
				size_t end = data.compare(0, 3, ".\r\n") == 0 ? 3 : e + 5; in = data.substr(end); data.resize(end - 3);
				std::string u; for (size_t i = 0 ; i < data.size() ; ++i) { if (data[i] == '.' && (i == 0 || (i >= 2 && data[i - 1] == '\n' && data[i - 2] == '\r'))) continue; u += data[i]; } data = u; inData = false;
				if (int code = refused("final")) { clear(); reply(code, "refused message"); } else { commit(); reply(250, "delivered"); } continue;
			}
			if (bdatLeft) { size_t n = std::min(bdatLeft, in.size()); data += in.substr(0, n); in.erase(0, n); bdatLeft -= n; if (bdatLeft) return; bdatEnd(); continue; }
			size_t e = in.find("\r\n"); if (e == std::string::npos) return; std::string l = in.substr(0, e); in.erase(0, e + 2);
			if (!out.empty() && l != "QUIT" && !ext.count("PIPELINING")) violation("command sent before the reply to the previous one was read, without PIPELINING: " + pbt::show(l));
			command(l);
		}
	}
};
