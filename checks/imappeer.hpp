// A strict model IMAP4rev1 server: mailboxes, messages with UIDs, flags, dates and MIME structure, shared by several connections.
#pragma once
#include "net.hpp"
#include <list>
struct imapAddr { std::string name, mbox, host; bool hasName = false, group = false; }; // group: mbox empty = end of group
struct imapEnv { std::string date, subject, msgid, irt; bool hasSubject = false, hasMid = false, hasIrt = false; std::vector<imapAddr> from, sender, replyTo, to, cc, bcc; };
struct imapPart { // structure of a message or of a part
	std::string type, subtype, id, desc, enc, dsp, hdr, body; std::vector<std::pair<std::string, std::string>> params, dspParams; std::vector<imapPart> kids; std::shared_ptr<imapPart> inner; imapEnv env; bool multi = false, ext = true;
	std::string raw() const { return hdr + body; }
};
struct imapDate { int y = 2020, m = 1, d = 1, H = 0, M = 0, S = 0, z = 0; };
inline const char* imapMonth(int m) { static const char* n[] = { "Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec" }; return n[m - 1]; }
inline std::string imapDateTime(const imapDate& d) { char b[64]; int z = std::abs(d.z); snprintf(b, sizeof b, "%2d-%s-%04d %02d:%02d:%02d %c%02d%02d", d.d, imapMonth(d.m), d.y, d.H, d.M, d.S, d.z < 0 ? '-' : '+', z / 60, z % 60); return b; }
struct imapMsg { uint32_t uid = 0; std::set<std::string> flags; std::string raw; imapDate date; uint64_t modseq = 1; std::shared_ptr<const imapPart> tree; bool recent = false; };
struct imapBox { std::string name; std::vector<std::shared_ptr<imapMsg>> msgs; uint32_t uidNext = 1, uidValidity = 1; bool noselect = false, noinferiors = false, readOnly = false, noPerm = false; std::string use; uint64_t modseq = 1; };
inline std::string imapUpper(std::string x) { for (char& c : x) c = (char) toupper((unsigned char) c); return x; }
inline bool imapIHas(const std::string& hay, const std::string& ndl) { return lower(hay).find(lower(ndl)) != std::string::npos; }
inline std::vector<std::pair<std::string, std::string>> imapHeaders(const std::string& hdr) { // name, unfolded value
	std::vector<std::pair<std::string, std::string>> r; size_t p = 0; while (p < hdr.size()) { size_t e = hdr.find("\r\n", p); if (e == std::string::npos) e = hdr.size(); std::string l = hdr.substr(p, e - p); p = e + 2; if (l.empty()) break; if ((l[0] == ' ' || l[0] == '\t') && !r.empty()) { r.back().second += l; continue; } size_t c = l.find(':'); if (c == std::string::npos) continue; std::string v = l.substr(c + 1); while (!v.empty() && (v[0] == ' ' || v[0] == '\t')) v.erase(0, 1); r.push_back({ l.substr(0, c), v }); } return r;
}
struct imapKey { std::string op, a, b; uint64_t n = 0; imapDate d; std::vector<imapKey> kids; std::vector<std::pair<uint64_t, uint64_t>> set; }; // 0 in a set = *
inline int imapDay(const imapDate& d) { return d.y * 10000 + d.m * 100 + d.d; }
inline int imapHdrDay(const imapPart& t) { for (auto& h : imapHeaders(t.hdr)) if (lower(h.first) == "date") { int dd = 0, y = 0; char mon[8] = ""; const char* v = h.second.c_str(); const char* cm = strchr(v, ','); if (sscanf(cm ? cm + 1 : v, "%d %3s %d", &dd, mon, &y) == 3) for (int m = 1 ; m <= 12 ; ++m) if (!strcasecmp(mon, imapMonth(m))) return y * 10000 + m * 100 + dd; } return 0; }
inline bool imapInSet(const std::vector<std::pair<uint64_t, uint64_t>>& set, uint64_t v, uint64_t max) { for (auto& r : set) { uint64_t a = r.first ? r.first : max, b = r.second ? r.second : max; if (a > b) std::swap(a, b); if (v >= a && v <= b) return true; } return false; }
inline bool imapMatch(const imapKey& k, const imapMsg& m, uint64_t num, uint64_t maxNum, uint64_t maxUid) {
	auto has = [&](const char* f) { return m.flags.count(f) != 0; }; const imapPart& t = *m.tree;
	auto field = [&](const std::string& n, const std::string& v) { for (auto& h : imapHeaders(t.hdr)) if (lower(h.first) == lower(n) && (v.empty() || imapIHas(h.second, v))) return true; return false; };
	const std::string& o = k.op; if (o == "ALL") return true; if (o == "AND") { for (auto& x : k.kids) if (!imapMatch(x, m, num, maxNum, maxUid)) return false; return true; } if (o == "NOT") return !imapMatch(k.kids[0], m, num, maxNum, maxUid); if (o == "OR") return imapMatch(k.kids[0], m, num, maxNum, maxUid) || imapMatch(k.kids[1], m, num, maxNum, maxUid);
	if (o == "ANSWERED") return has("\\Answered"); if (o == "DELETED") return has("\\Deleted"); if (o == "DRAFT") return has("\\Draft"); if (o == "FLAGGED") return has("\\Flagged"); if (o == "SEEN") return has("\\Seen"); if (o == "RECENT") return m.recent; if (o == "NEW") return m.recent && !has("\\Seen"); if (o == "OLD") return !m.recent;
	if (o == "UNANSWERED") return !has("\\Answered"); if (o == "UNDELETED") return !has("\\Deleted"); if (o == "UNDRAFT") return !has("\\Draft"); if (o == "UNFLAGGED") return !has("\\Flagged"); if (o == "UNSEEN") return !has("\\Seen"); if (o == "KEYWORD") return m.flags.count(k.a) != 0; if (o == "UNKEYWORD") return m.flags.count(k.a) == 0;
	if (o == "BCC" || o == "CC" || o == "FROM" || o == "SUBJECT" || o == "TO") return field(o, k.a); if (o == "HEADER") return field(k.a, k.b); if (o == "BODY") return imapIHas(t.body, k.a); if (o == "TEXT") return imapIHas(m.raw, k.a);
	if (o == "LARGER") return m.raw.size() > k.n; if (o == "SMALLER") return m.raw.size() < k.n; if (o == "BEFORE") return imapDay(m.date) < imapDay(k.d); if (o == "ON") return imapDay(m.date) == imapDay(k.d); if (o == "SINCE") return imapDay(m.date) >= imapDay(k.d);
	if (o == "SENTBEFORE") return imapHdrDay(t) < imapDay(k.d); if (o == "SENTON") return imapHdrDay(t) == imapDay(k.d); if (o == "SENTSINCE") return imapHdrDay(t) >= imapDay(k.d); if (o == "SET") return imapInSet(k.set, num, maxNum); if (o == "UID") return imapInSet(k.set, m.uid, maxUid); return false;
}
struct imapNote { int kind = 0; size_t n = 0; }; // 0 EXPUNGE n, 1 EXISTS n, 2 FETCH flags of n
struct imapPeer;
struct imapServer {
	char sep = '/'; bool nilSep = false, condstore = false, uidplus = true, children = true, specialUse = false, capsInGreeting = false, early = false, uidInFetch = false, preauth = false, alwaysExists = false, literals = false, junk = false, lowerNames = false, quotedBody = false, flagsOnFetch = true; uint32_t validity = 1000; uint64_t rs = 1;
	std::map<std::string, std::shared_ptr<imapBox>> boxes; std::map<std::string, std::shared_ptr<const imapPart>> known; std::vector<std::string> faults, log; std::list<imapPeer*> peers; std::string user = "user", pass = "secret";
	unsigned rnd(unsigned n) { rs = rs * 6364136223846793005ull + 1442695040888963407ull; return (unsigned) ((rs >> 33) % n); }
	static bool inbox(const std::string& n) { return n.size() == 5 && !strcasecmp(n.c_str(), "INBOX"); }
	std::shared_ptr<imapBox> find(const std::string& n) { auto it = boxes.find(inbox(n) ? "INBOX" : n); return it == boxes.end() ? nullptr : it->second; }
	std::shared_ptr<imapBox> make(const std::string& n) { auto b = std::make_shared<imapBox>(); b->name = n; b->uidValidity = ++validity; boxes[n] = b; return b; }
	bool hasKids(const std::string& n) { if (nilSep) return false; for (auto& b : boxes) if (b.first.size() > n.size() && b.first.compare(0, n.size(), n) == 0 && b.first[n.size()] == sep) return true; return false; }
	std::shared_ptr<imapMsg> add(imapBox& b, const std::string& raw, const std::shared_ptr<const imapPart>& tree) { auto m = std::make_shared<imapMsg>(); m->uid = b.uidNext; b.uidNext += 1 + rnd(4) / 3 * rnd(1000); m->raw = raw; m->tree = tree; m->modseq = ++b.modseq; b.msgs.push_back(m); return m; }
	std::shared_ptr<const imapPart> structureOf(const std::string& raw) { auto it = known.find(raw); if (it != known.end()) return it->second; auto p = std::make_shared<imapPart>(); p->type = "text"; p->subtype = "plain"; p->enc = "7bit"; size_t e = raw.compare(0, 2, "\r\n") == 0 ? 2 : raw.find("\r\n\r\n"); if (e == std::string::npos) e = raw.size(); else if (e != 2 || raw.compare(0, 2, "\r\n")) e += 4; p->hdr = raw.substr(0, e); p->body = raw.substr(e); return p; }
};
struct imapSyntax { std::string what; };
struct imapPeer : netPeer {
	imapServer& S; int state = 0; std::shared_ptr<imapBox> sel; bool ro = false, quit = false; std::vector<std::shared_ptr<imapMsg>> view; std::set<uint32_t> dirty; std::vector<imapNote> notes; size_t announced = 0; std::string tag; bool litAsked = false; std::set<std::string> tags;
	explicit imapPeer(imapServer& s) : S(s) { S.peers.push_back(this); }
	~imapPeer() { S.peers.remove(this); }
	void put(const std::string& x) { out += x + "\r\n"; }
	std::string caps() { std::string r = "CAPABILITY IMAP4rev1"; if (S.condstore) r += " CONDSTORE"; if (S.uidplus) r += " UIDPLUS"; if (S.children) r += " CHILDREN"; if (S.specialUse) r += " SPECIAL-USE CREATE-SPECIAL-USE"; return r; }
	void onConnect(const std::string&, int) { state = S.preauth ? 1 : 0; put(std::string(S.preauth ? "* PREAUTH " : "* OK ") + (S.capsInGreeting ? "[" + caps() + "] " : "") + "ready"); }
	// ---- output
	std::string str(const std::string& x, bool allowQuoted = true) { bool lit = !allowQuoted; for (unsigned char c : x) if (c == '\r' || c == '\n' || c == 0 || c >= 0x80) lit = true; if (!lit && S.literals && S.rnd(3) == 0) lit = true; if (lit) return "{" + std::to_string(x.size()) + "}\r\n" + x; std::string r = "\""; for (char c : x) { if (c == '"' || c == '\\') r += '\\'; r += c; } return r + "\""; }
	std::string nstr(const std::string& x, bool has) { return has ? str(x) : "NIL"; }
	std::string mboxName(const std::string& x) { bool atom = !x.empty(); for (unsigned char c : x) if (c <= 32 || c >= 127 || strchr("(){%*\"\\", c)) atom = false; if (atom && imapUpper(x) == "NIL") atom = false; return atom && S.rnd(2) ? x : str(x); }
	std::string params(const std::vector<std::pair<std::string, std::string>>& p) { if (p.empty()) return "NIL"; std::string r = "("; for (auto& x : p) r += (r.size() > 1 ? " " : "") + str(S.lowerNames ? lower(x.first) : imapUpper(x.first)) + " " + str(x.second); return r + ")"; }
	std::string addrs(const std::vector<imapAddr>& v) { if (v.empty()) return "NIL"; std::string r = "("; for (auto& a : v) r += "(" + (a.group ? "NIL NIL " + (a.mbox.empty() ? std::string("NIL") : str(a.mbox)) + " NIL" : nstr(a.name, a.hasName) + " NIL " + str(a.mbox) + " " + str(a.host)) + ")"; return r + ")"; }
	std::string envelope(const imapEnv& e) { return "(" + nstr(e.date, !e.date.empty()) + " " + nstr(e.subject, e.hasSubject) + " " + addrs(e.from) + " " + addrs(e.sender.empty() ? e.from : e.sender) + " " + addrs(e.replyTo.empty() ? e.from : e.replyTo) + " " + addrs(e.to) + " " + addrs(e.cc) + " " + addrs(e.bcc) + " " + nstr(e.irt, e.hasIrt) + " " + nstr(e.msgid, e.hasMid) + ")"; }
	std::string bodystructure(const imapPart& p) {
		auto dsp = [&]() { return p.dsp.empty() ? std::string("NIL") : "(" + str(S.lowerNames ? lower(p.dsp) : imapUpper(p.dsp)) + " " + params(p.dspParams) + ")"; }; auto cs = [&](const std::string& x) { return str(S.lowerNames ? lower(x) : imapUpper(x)); };
		if (p.multi) { std::string r = "("; for (auto& k : p.kids) r += bodystructure(k); r += " " + cs(p.subtype); if (p.ext) r += " " + params(p.params) + " " + dsp() + " NIL"; return r + ")"; }
		auto qs = [&](const std::string& x) { return "\"" + (S.lowerNames ? lower(x) : imapUpper(x)) + "\""; }; std::string r = "(" + (lower(p.type) == "text" || p.inner ? qs(p.type) : cs(p.type)) + " " + (p.inner ? qs(p.subtype) : cs(p.subtype)) + " " + params(p.params) + " " + nstr(p.id, !p.id.empty()) + " " + nstr(p.desc, !p.desc.empty()) + " " + cs(p.enc) + " " + std::to_string(p.body.size()); size_t lines = (size_t) std::count(p.body.begin(), p.body.end(), '\n');
		if (p.inner) r += " " + envelope(p.inner->env) + " " + bodystructure(*p.inner) + " " + std::to_string(lines); else if (lower(p.type) == "text") r += " " + std::to_string(lines); if (p.ext) r += " NIL " + dsp() + " NIL"; return r + ")";
	}
	std::string flagList(const imapMsg& m) { std::string r = "("; for (auto& f : m.flags) r += (r.size() > 1 ? " " : "") + f; if (m.recent) r += std::string(r.size() > 1 ? " " : "") + "\\Recent"; return r + ")"; }
	void flush(bool expunge) { // what changed since the client was last told
		if (S.junk && S.rnd(4) == 0) put(S.rnd(2) ? "* OK [ALERT] the disk is nearly full" : "* OK still here");
		if (!sel) return; std::set<imapMsg*> now; for (auto& m : sel->msgs) now.insert(m.get()); bool gone = false;
		if (expunge) for (size_t i = view.size() ; i-- > 0 ; ) if (!now.count(view[i].get())) { put("* " + std::to_string(i + 1) + " EXPUNGE"); notes.push_back({ 0, i + 1 }); view.erase(view.begin() + i); gone = true; }
		std::set<imapMsg*> have; for (auto& m : view) have.insert(m.get()); bool added = false; for (auto& m : sel->msgs) if (!have.count(m.get())) { view.push_back(m); added = true; }
		if (added || (gone && S.alwaysExists)) { put("* " + std::to_string(view.size()) + " EXISTS"); notes.push_back({ 1, view.size() }); if (S.rnd(2)) put("* " + std::to_string(S.rnd(2)) + " RECENT"); }
		for (size_t i = 0 ; i < view.size() ; ++i) if (dirty.count(view[i]->uid) && now.count(view[i].get())) { put("* " + std::to_string(i + 1) + " FETCH (" + (S.uidInFetch ? "UID " + std::to_string(view[i]->uid) + " " : "") + "FLAGS " + flagList(*view[i]) + (S.condstore ? " MODSEQ (" + std::to_string(view[i]->modseq) + ")" : "") + ")"); notes.push_back({ 2, i + 1 }); } dirty.clear();
	}
	// a server may tell what changed before it gives what was asked for; messages may disappear only in the UID commands
	std::vector<std::shared_ptr<imapMsg>> pick(const std::vector<size_t>& ix) { std::vector<std::shared_ptr<imapMsg>> r; for (size_t i : ix) r.push_back(view[i]); return r; }
	bool early(bool expunge, const std::shared_ptr<imapMsg>& m, size_t& i) { if (S.early && S.rnd(2) == 0) flush(expunge); for (i = 0 ; i < view.size() ; ++i) if (view[i] == m) return true; return false; }
	void done(const std::string& st, bool expunge = true) { flush(expunge); put(tag + " " + st); }
	static void changed(imapServer& S, imapBox* b, uint32_t uid, imapPeer* except) { for (auto* p : S.peers) if (p != except && p->sel.get() == b) p->dirty.insert(uid); }
	// ---- input
	std::string c; size_t p = 0;
	[[noreturn]] void syn(const std::string& w) { throw imapSyntax{ w }; }
	bool at(char x) { return p < c.size() && c[p] == x; }
	void need(char x) { if (!at(x)) syn(std::string("expected '") + x + "' at byte " + std::to_string(p)); ++p; }
	void end() { if (p != c.size()) syn("extra bytes after the command at byte " + std::to_string(p)); }
	static bool atomCh(unsigned char x) { return x > 32 && x < 127 && !strchr("(){%*\"\\]", x); }
	std::string atom(const char* more = "") { size_t b = p; while (p < c.size() && (atomCh((unsigned char) c[p]) || (c[p] && strchr(more, c[p])))) ++p; if (p == b) syn("atom expected at byte " + std::to_string(p)); return c.substr(b, p - b); }
	uint64_t number() { size_t b = p; while (p < c.size() && isdigit((unsigned char) c[p])) ++p; if (p == b || p - b > 10) syn("number expected at byte " + std::to_string(b)); uint64_t n = std::stoull(c.substr(b, p - b)); if (n > 0xffffffffull) syn("number over 32 bits"); return n; }
	std::string literal() { need('{'); uint64_t n = number(); need('}'); if (c.compare(p, 2, "\r\n")) syn("literal"); p += 2; if (c.size() - p < n) syn("short literal"); std::string r = c.substr(p, n); p += n; return r; }
	std::string quoted() { need('"'); std::string r; while (!at('"')) { if (p >= c.size() || c[p] == '\r' || c[p] == '\n' || c[p] == 0) syn("unterminated quoted string"); if (c[p] == '\\') { ++p; if (!at('"') && !at('\\')) syn("bad escape in a quoted string"); } r += c[p++]; } ++p; return r; }
	std::string str8() { return at('"') ? quoted() : literal(); }
	std::string astring() { if (at('"')) return quoted(); if (at('{')) return literal(); return atom("]"); }
	std::string mailbox() { std::string r = astring(); for (unsigned char x : r) if (x < 32 || x >= 127) syn("mailbox name which is not in modified UTF-7: " + pbt::show(r)); for (size_t i = 0 ; i < r.size() ; ++i) if (r[i] == '&') { size_t e = r.find('-', i); if (e == std::string::npos) syn("mailbox name: unterminated base64"); for (size_t j = i + 1 ; j < e ; ++j) if (!isalnum((unsigned char) r[j]) && r[j] != '+' && r[j] != ',') syn("mailbox name: bad base64 in " + pbt::show(r)); i = e; } return r; }
	std::vector<std::pair<uint64_t, uint64_t>> seqset() { std::vector<std::pair<uint64_t, uint64_t>> r; for ( ; ; ) { auto one = [&]() -> uint64_t { if (at('*')) { ++p; return 0; } uint64_t n = number(); if (n == 0) syn("zero in a sequence set"); return n; }; uint64_t a = one(), b = a; if (at(':')) { ++p; b = one(); } r.push_back({ a, b }); if (!at(',')) break; ++p; } return r; }
	std::vector<std::string> flags() { need('('); std::vector<std::string> r; while (!at(')')) { if (!r.empty()) need(' '); std::string f; if (at('\\')) { ++p; f = "\\"; } f += atom(); if (f == "\\Recent") syn("\\Recent cannot be stored"); if (f[0] == '\\' && f != "\\Answered" && f != "\\Flagged" && f != "\\Deleted" && f != "\\Seen" && f != "\\Draft") syn("unknown system flag " + f); r.push_back(f); } ++p; return r; }
	std::vector<size_t> resolve(const std::vector<std::pair<uint64_t, uint64_t>>& set, bool uid, bool& bad) { // indexes into view
		std::vector<size_t> r; bad = false; if (!uid) for (auto& x : set) for (uint64_t v : { x.first, x.second }) if (v > view.size() || (v == 0 && view.empty())) bad = true; if (bad) return r; for (size_t i = 0 ; i < view.size() ; ++i) if (imapInSet(set, uid ? view[i]->uid : i + 1, uid ? view.back()->uid : view.size())) r.push_back(i); return r; }
	imapDate date1() { bool q = at('"'); if (q) ++p; imapDate d; size_t b = p; d.d = (int) number(); if (p - b > 2 || d.d < 1 || d.d > 31) syn("day"); need('-'); month(d); need('-'); b = p; d.y = (int) number(); if (p - b != 4) syn("year"); if (q) need('"'); return d; }
	void month(imapDate& d) { std::string m = c.substr(p, 3); d.m = 0; for (int i = 1 ; i <= 12 ; ++i) if (!strcasecmp(m.c_str(), imapMonth(i))) d.m = i; if (!d.m) syn("month"); p += 3; }
	int digits(int n) { int r = 0; while (n--) { if (p >= c.size() || !isdigit((unsigned char) c[p])) syn("digit expected in a date at byte " + std::to_string(p)); r = r * 10 + (c[p++] - '0'); } return r; }
	imapDate dateTime() { imapDate d; need('"'); if (at(' ')) { ++p; d.d = digits(1); } else d.d = digits(2); need('-'); month(d); need('-'); d.y = digits(4); need(' '); d.H = digits(2); need(':'); d.M = digits(2); need(':'); d.S = digits(2); need(' '); bool neg = at('-'); if (!neg) need('+'); else ++p; int h = digits(2), m = digits(2); d.z = (neg ? -1 : 1) * (h * 60 + m); if (d.d < 1 || d.d > 31 || d.H > 23 || d.M > 59 || d.S > 60 || m > 59) syn("date out of range"); need('"'); return d; }
	imapKey key() {
		imapKey k; if (at('(')) { ++p; k.op = "AND"; k.kids.push_back(key()); while (at(' ')) { ++p; k.kids.push_back(key()); } need(')'); return k; }
		if (at('*') || (p < c.size() && isdigit((unsigned char) c[p]))) { k.op = "SET"; k.set = seqset(); bool b; resolve(k.set, false, b); if (b) k.op = "BADSET"; return k; }
		k.op = imapUpper(atom()); static const std::set<std::string> plain = { "ALL", "ANSWERED", "DELETED", "DRAFT", "FLAGGED", "NEW", "OLD", "RECENT", "SEEN", "UNANSWERED", "UNDELETED", "UNDRAFT", "UNFLAGGED", "UNSEEN" }, strs = { "BCC", "BODY", "CC", "FROM", "SUBJECT", "TEXT", "TO" }, dates = { "BEFORE", "ON", "SINCE", "SENTBEFORE", "SENTON", "SENTSINCE" };
		if (plain.count(k.op)) return k; need(' '); if (strs.count(k.op)) k.a = astring(); else if (dates.count(k.op)) k.d = date1(); else if (k.op == "HEADER") { k.a = astring(); need(' '); k.b = astring(); } else if (k.op == "KEYWORD" || k.op == "UNKEYWORD") k.a = atom(); else if (k.op == "LARGER" || k.op == "SMALLER") k.n = number(); else if (k.op == "NOT") k.kids.push_back(key()); else if (k.op == "OR") { k.kids.push_back(key()); need(' '); k.kids.push_back(key()); } else if (k.op == "UID") k.set = seqset(); else syn("unknown search key " + k.op); return k;
	}
	static bool badSet(const imapKey& k) { if (k.op == "BADSET") return true; for (auto& x : k.kids) if (badSet(x)) return true; return false; }
	struct item { std::string name, section; std::vector<std::string> fields; std::vector<size_t> path; bool peek = false, partial = false; uint64_t from = 0, len = 0; std::string text; };
	item fetchItem() {
		item i; size_t b = p; while (p < c.size() && (isalnum((unsigned char) c[p]) || c[p] == '.')) ++p; i.name = imapUpper(c.substr(b, p - b)); static const std::set<std::string> ok = { "FLAGS", "UID", "RFC822.SIZE", "INTERNALDATE", "ENVELOPE", "BODYSTRUCTURE", "RFC822.HEADER", "BODY", "BODY.PEEK" }; if (i.name == "MODSEQ") { if (!S.condstore) syn("MODSEQ without CONDSTORE"); return i; } if (!ok.count(i.name)) syn("unknown fetch item " + pbt::show(i.name));
		if (i.name.compare(0, 4, "BODY") == 0 && i.name != "BODYSTRUCTURE") { if (!at('[')) { if (i.name == "BODY.PEEK") syn("BODY.PEEK without a section"); i.name = "BODYSTRUCTURE"; return i; } i.peek = i.name == "BODY.PEEK"; i.name = "BODY"; size_t s0 = p; need('['); while (p < c.size() && isdigit((unsigned char) c[p])) { uint64_t n = number(); if (!n) syn("part 0"); i.path.push_back(n); if (!at('.')) break; ++p; } b = p; while (p < c.size() && (isalpha((unsigned char) c[p]) || c[p] == '.')) ++p; i.section = imapUpper(c.substr(b, p - b)); if (i.section == "HEADER.FIELDS") { need(' '); need('('); for ( ; ; ) { i.fields.push_back(astring()); if (!at(' ')) break; ++p; } need(')'); } else if (i.section != "" && i.section != "HEADER" && i.section != "TEXT" && (i.section != "MIME" || i.path.empty())) syn("unknown section " + pbt::show(i.section)); need(']'); i.text = c.substr(s0, p - s0); if (at('<')) { ++p; i.partial = true; i.from = number(); need('.'); i.len = number(); if (!i.len) syn("zero length"); need('>'); } } return i;
	}
	static bool section(const imapPart& root, const item& i, std::string& r) {
		const imapPart* q = &root; for (size_t k = 0 ; k < i.path.size() ; ++k) { if (q->multi) { if (i.path[k] > q->kids.size()) return false; q = &q->kids[i.path[k] - 1]; } else if (q->inner) { q = q->inner.get(); --k; } else if (i.path[k] != 1 || k + 1 < i.path.size()) return false; else if (q != &root) return false; }
		if (i.section == "HEADER.FIELDS") { r = ""; const std::string& h = q->hdr; size_t p = 0; bool keep = false; while (p < h.size()) { size_t e = h.find("\r\n", p); e = e == std::string::npos ? h.size() : e + 2; std::string l = h.substr(p, e - p); p = e; if (l == "\r\n") break; if (l[0] != ' ' && l[0] != '\t') { std::string n = lower(l.substr(0, l.find(':'))); keep = false; for (auto& f : i.fields) keep = keep || lower(f) == n; } if (keep) r += l; } r += "\r\n"; return true; }
		if (i.path.empty()) r = i.section == "HEADER" ? q->hdr : i.section == "TEXT" ? q->body : q->raw(); else if (i.section == "MIME") r = q->hdr; else if (i.section == "") r = q->body; else return false; return true;
	}
	void command() {
		p = 0; tag = atom("]"); if (!tags.insert(tag).second) S.faults.push_back("tag " + tag + " used twice"); need(' '); std::string v = imapUpper(atom()); bool uid = false; if (v == "UID") { uid = true; need(' '); v = imapUpper(atom()); if (v != "FETCH" && v != "STORE" && v != "COPY" && v != "SEARCH") syn("UID " + v); } S.log.push_back((uid ? "UID " : "") + v);
		auto want = [&](int st) { if (state < st) syn(v + " in state " + std::to_string(state)); };
		if (v == "CAPABILITY") { end(); put("* " + caps()); done("OK done"); return; } if (v == "NOOP") { end(); done("OK done"); return; } if (v == "LOGOUT") { end(); put("* BYE bye"); put(tag + " OK done"); quit = closed = true; return; }
		if (v == "LOGIN") { if (state != 0) syn("LOGIN when authenticated"); need(' '); std::string u = astring(); need(' '); std::string w = astring(); end(); if (u == S.user && w == S.pass) { state = 1; done("OK logged in"); } else done("NO bad credentials"); return; }
		want(1);
		if (v == "LIST") { need(' '); std::string ref = mailbox(); need(' '); std::string pat = at('"') ? quoted() : at('{') ? literal() : atom("]%*"); end(); std::string d = S.nilSep ? "NIL" : S.sep == '\\' || S.sep == '"' ? std::string("\"\\") + S.sep + "\"" : std::string("\"") + S.sep + "\"";
			if (pat.empty()) { put("* LIST (\\Noselect) " + d + " \"\""); done("OK done"); return; } std::string full = ref + pat; for (auto& b : S.boxes) if (glob(full, 0, b.first, 0) || (b.first == "INBOX" && glob(imapUpper(full), 0, b.first, 0))) { std::vector<std::string> f; if (b.second->noselect) f.push_back("\\Noselect"); if (b.second->noinferiors) f.push_back("\\Noinferiors"); else if (S.children) f.push_back(S.hasKids(b.first) ? "\\HasChildren" : "\\HasNoChildren"); if (!b.second->use.empty()) f.push_back(b.second->use); std::string l; for (auto& x : f) l += (l.empty() ? "" : " ") + x; put("* LIST (" + l + ") " + d + " " + mboxName(b.first)); } done("OK done"); return; }
		if (v == "CREATE") { need(' '); std::string n = mailbox(); std::string use; if (at(' ')) { ++p; need('('); if (imapUpper(atom()) != "USE" || !S.specialUse) syn("CREATE parameter"); need(' '); need('('); need('\\'); use = "\\" + atom(); need(')'); need(')'); } end(); if (!S.nilSep && !n.empty() && n.back() == S.sep) n.pop_back(); if (n.empty() || S.find(n)) { auto b = n.empty() ? nullptr : S.find(n); (void) b; done("NO already exists"); return; } create(n); S.find(n)->use = use; done("OK created"); return; }
		if (v == "DELETE") { need(' '); std::string n = mailbox(); end(); auto b = S.find(n); if (!b || b->name == "INBOX" || (b->noselect && S.hasKids(n))) { done("NO cannot"); return; } if (S.hasKids(n)) { b->noselect = true; b->msgs.clear(); } else S.boxes.erase(n); done("OK deleted"); return; }
		if (v == "RENAME") { need(' '); std::string a = mailbox(); need(' '); std::string b = mailbox(); end(); auto x = S.find(a); if (!x || x->name == "INBOX" || b.empty() || S.find(b) || (!S.nilSep && b.compare(0, a.size() + 1, a + S.sep) == 0)) { done("NO cannot"); return; } std::map<std::string, std::shared_ptr<imapBox>> nb; for (auto& q : S.boxes) { std::string n = q.first; if (n == a || (!S.nilSep && n.compare(0, a.size() + 1, a + S.sep) == 0)) n = b + n.substr(a.size()); q.second->name = n; nb[n] = q.second; } S.boxes = nb; parents(b); done("OK renamed"); return; }
		if (v == "STATUS") { need(' '); std::string n = mailbox(); need(' '); need('('); std::vector<std::string> it; for ( ; ; ) { it.push_back(imapUpper(atom())); if (!at(' ')) break; ++p; } need(')'); end(); auto b = S.find(n); if (!b || b->noselect) { done("NO no such mailbox"); return; } std::string r; for (auto& x : it) { uint64_t q = 0; if (x == "MESSAGES") q = b->msgs.size(); else if (x == "RECENT") q = 0; else if (x == "UIDNEXT") q = b->uidNext; else if (x == "UIDVALIDITY") q = b->uidValidity; else if (x == "UNSEEN") { for (auto& m : b->msgs) q += !m->flags.count("\\Seen"); } else if (x == "HIGHESTMODSEQ" && S.condstore) q = b->modseq; else syn("status item " + x); r += (r.empty() ? "" : " ") + x + " " + std::to_string(q); } put("* STATUS " + mboxName(n) + " (" + r + ")"); done("OK done"); return; }
		if (v == "SELECT" || v == "EXAMINE") { need(' '); std::string n = mailbox(); if (at(' ')) { ++p; need('('); if (imapUpper(atom()) != "CONDSTORE" || !S.condstore) syn("SELECT parameter"); need(')'); } end(); sel = nullptr; state = 1; auto b = S.find(n); if (!b || b->noselect) { put(tag + " NO no such mailbox"); return; } sel = b; view = b->msgs; dirty.clear(); notes.clear(); state = 2; ro = v == "EXAMINE" || b->readOnly; if (S.rnd(2)) put("* FLAGS (\\Answered \\Flagged \\Deleted \\Seen \\Draft $Forwarded)"); put("* " + std::to_string(view.size()) + " EXISTS"); put("* 0 RECENT"); if (S.rnd(2)) put("* FLAGS (\\Answered \\Flagged \\Deleted \\Seen \\Draft)"); size_t u = 0; for (size_t i = 0 ; i < view.size() && !u ; ++i) if (!view[i]->flags.count("\\Seen")) u = i + 1; if (u) put("* OK [UNSEEN " + std::to_string(u) + "] first unseen"); put("* OK [UIDVALIDITY " + std::to_string(b->uidValidity) + "] ok"); if (S.rnd(2)) put("* OK [UIDNEXT " + std::to_string(b->uidNext) + "] ok"); put("* OK [PERMANENTFLAGS (\\Deleted \\Seen \\*)] limited"); if (S.condstore) put("* OK [HIGHESTMODSEQ " + std::to_string(b->modseq) + "] ok"); put(tag + " OK " + (ro ? "[READ-ONLY]" : S.rnd(5) ? "[READ-WRITE]" : "") + " done"); return; }
		if (v == "APPEND") { need(' '); std::string n = mailbox(); need(' '); std::set<std::string> fl; if (at('(')) { for (auto& f : flags()) fl.insert(f); need(' '); } imapDate d; bool has = false; if (at('"')) { d = dateTime(); has = true; need(' '); } std::string m = literal(); end(); auto b = S.find(n); if (!b || b->noselect) { done("NO [TRYCREATE] no such mailbox"); return; } auto x = S.add(*b, m, S.structureOf(m)); x->flags = fl; if (has) x->date = d; done(std::string("OK ") + (S.uidplus ? "[APPENDUID " + std::to_string(b->uidValidity) + " " + std::to_string(x->uid) + "] " : "") + "done"); return; }
		want(2);
		if (v == "CLOSE") { end(); if (!ro) expunge(); sel = nullptr; view.clear(); state = 1; put(tag + " OK closed"); return; }
		if (v == "EXPUNGE") { end(); if (ro) { done("NO read-only"); return; } expunge(); done("OK done"); return; }
		if (v == "COPY") { need(' '); auto set = seqset(); need(' '); std::string n = mailbox(); end(); bool bad; auto ix = resolve(set, uid, bad); if (bad) { done("BAD no such message", uid); return; } auto b = S.find(n); if (!b || b->noselect) { done("NO [TRYCREATE] no such mailbox"); return; } std::string from, to; for (size_t i : ix) { auto x = S.add(*b, view[i]->raw, view[i]->tree); x->flags = view[i]->flags; x->date = view[i]->date; from += (from.empty() ? "" : ",") + std::to_string(view[i]->uid); to += (to.empty() ? "" : ",") + std::to_string(x->uid); } done(std::string("OK ") + (S.uidplus && !ix.empty() ? "[COPYUID " + std::to_string(b->uidValidity) + " " + from + " " + to + "] " : "") + "done"); return; }
		if (v == "STORE") { need(' '); auto set = seqset(); need(' '); int mode = 0; if (at('+')) { mode = 1; ++p; } else if (at('-')) { mode = 2; ++p; } std::string w = imapUpper(atom()); if (w != "FLAGS" && w != "FLAGS.SILENT") syn("STORE " + w); need(' '); auto fl = flags(); end(); bool bad; auto ix = resolve(set, uid, bad); if (bad) { done("BAD no such message", uid); return; } if (ro) { done("NO read-only", uid); return; } for (auto& mp : pick(ix)) { size_t i; if (!early(uid, mp, i)) continue; auto& m = *mp; if (mode == 0) m.flags.clear(); for (auto& f : fl) { if (mode == 2) m.flags.erase(f); else m.flags.insert(f); } m.modseq = ++sel->modseq; changed(S, sel.get(), m.uid, this); if (w == "FLAGS") put("* " + std::to_string(i + 1) + " FETCH (" + (uid ? "UID " + std::to_string(m.uid) + " " : "") + "FLAGS " + flagList(m) + (S.condstore ? " MODSEQ (" + std::to_string(m.modseq) + ")" : "") + ")"); } done("OK done", uid); return; }
		if (v == "SEARCH") { need(' '); if (imapUpper(c.substr(p, 7)) == "CHARSET") { p += 7; need(' '); std::string cs = astring(); need(' '); if (imapUpper(cs) != "UTF-8" && imapUpper(cs) != "US-ASCII") { done("NO [BADCHARSET] unknown charset", uid); return; } } imapKey k; k.op = "AND"; k.kids.push_back(key()); while (at(' ')) { ++p; k.kids.push_back(key()); } end(); if (badSet(k)) { done("BAD no such message", uid); return; } std::string r; for (size_t i = 0 ; i < view.size() ; ++i) if (imapMatch(k, *view[i], i + 1, view.size(), view.back()->uid)) r += " " + std::to_string(uid ? view[i]->uid : i + 1); put("* SEARCH" + r); done("OK done", uid); return; }
		if (v == "FETCH") { need(' '); auto set = seqset(); need(' '); std::vector<item> it; if (at('(')) { ++p; for ( ; ; ) { it.push_back(fetchItem()); if (!at(' ')) break; ++p; } need(')'); } else it.push_back(fetchItem()); end(); bool bad; auto ix = resolve(set, uid, bad); if (bad) { done("BAD no such message", uid); return; } bool noPart = false;
			for (auto& mp : pick(ix)) { size_t i; if (!early(uid, mp, i)) continue; auto& m = *mp; std::string r; bool setSeen = false, hasFlags = false, hasUid = false; for (auto& x : it) { if (x.name == "FLAGS") hasFlags = true; if (x.name == "UID") hasUid = true; if (x.name == "BODY" && !x.peek && !ro && !m.flags.count("\\Seen")) setSeen = true; } if (setSeen) { m.flags.insert("\\Seen"); m.modseq = ++sel->modseq; changed(S, sel.get(), m.uid, this); }
				auto add = [&](const std::string& y) { r += (r.empty() ? "" : " ") + y; }; if (uid && !hasUid && S.rnd(2)) { add("UID " + std::to_string(m.uid)); hasUid = true; } bool partOk = true;
				for (auto& x : it) { const imapPart& t = *m.tree; if (x.name == "FLAGS") add("FLAGS " + flagList(m)); else if (x.name == "UID") add("UID " + std::to_string(m.uid)); else if (x.name == "MODSEQ") add("MODSEQ (" + std::to_string(m.modseq) + ")"); else if (x.name == "RFC822.SIZE") add("RFC822.SIZE " + std::to_string(m.raw.size())); else if (x.name == "INTERNALDATE") add("INTERNALDATE \"" + imapDateTime(m.date) + "\""); else if (x.name == "ENVELOPE") add("ENVELOPE " + envelope(t.env)); else if (x.name == "BODYSTRUCTURE") add("BODYSTRUCTURE " + bodystructure(t)); else if (x.name == "RFC822.HEADER") add("RFC822.HEADER " + str(t.hdr)); else { std::string d; if (!section(t, x, d)) { partOk = false; noPart = true; break; } std::string o; if (x.partial) { o = "<" + std::to_string(x.from) + ">"; d = x.from >= d.size() ? "" : d.substr(x.from, x.len); } bool q = S.quotedBody && d.size() < 200; add("BODY" + x.text + o + " " + str(d, q)); } }
				if (uid && !hasUid) add("UID " + std::to_string(m.uid)); if (setSeen && !hasFlags && S.flagsOnFetch) add("FLAGS " + flagList(m)); if (partOk) put("* " + std::to_string(i + 1) + " FETCH (" + r + ")"); }
			done(noPart ? "NO no such part" : "OK done", uid); return; }
		syn("unknown command " + pbt::show(v));
	}
	void expunge() { auto& v = sel->msgs; v.erase(std::remove_if(v.begin(), v.end(), [](const std::shared_ptr<imapMsg>& m) { return m->flags.count("\\Deleted") != 0; }), v.end()); }
	void parents(const std::string& n) { if (!S.nilSep) for (size_t i = 1 ; i < n.size() ; ++i) if (n[i] == S.sep && !S.find(n.substr(0, i))) S.make(n.substr(0, i)); }
	void create(const std::string& n) { parents(n); S.make(n); }
	bool glob(const std::string& g, size_t a, const std::string& t, size_t b) { for ( ; a < g.size() ; ++a) { if (g[a] == '*' || g[a] == '%') { for (size_t k = b ; k <= t.size() ; ++k) { if (glob(g, a + 1, t, k)) return true; if (k < t.size() && g[a] == '%' && !S.nilSep && t[k] == S.sep) return false; } return false; } if (b >= t.size() || t[b] != g[a]) return false; ++b; } return b == t.size(); }
	size_t asked = 0; // one past the position of the last literal which was asked for
	void onData(std::string& in) {
		for ( ; ; ) { // a complete command: lines up to one which does not announce a literal
			size_t q = 0, e; for ( ; ; ) {
				e = in.find("\r\n", q); if (e == std::string::npos) { if (in.size() > 1000000) { S.faults.push_back("endless line"); closed = true; } return; }
				size_t b = e > q && in[e - 1] == '}' ? in.rfind('{', e) : std::string::npos; std::string d = b == std::string::npos || b < q ? "" : in.substr(b + 1, e - 2 - b); if (d.empty() || d.size() > 8 || d.find_first_not_of("0123456789") != std::string::npos) break;
				if (asked <= e) { if (in.size() > e + 2) S.faults.push_back("literal sent before it was asked for"); asked = e + 1; put("+ go on"); } size_t n = (size_t) std::stoul(d); if (in.size() < e + 2 + n) return; q = e + 2 + n; }
			c = in.substr(0, e); in.erase(0, e + 2); asked = 0; if (closed) return; try { if (c.find('\0') != std::string::npos && c.find('{') == std::string::npos) syn("NUL in a command"); command(); } catch (const imapSyntax& x) { S.faults.push_back(x.what + " in command " + pbt::show(c)); put((tag.empty() ? "*" : tag) + " BAD syntax"); } }
	}
};
