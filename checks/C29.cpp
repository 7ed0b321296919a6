// C29: IMAP against a strict model server: what the server holds is what is reported and retrieved, operations change exactly what was asked for, and the folder follows what the server announces.
#include "imapgen.hpp"
#include "vmime/net/imap/IMAPUtils.hpp"
#include "vmime/net/session.hpp"
#include "vmime/net/store.hpp"
#include "vmime/net/folder.hpp"
#include "vmime/net/folderStatus.hpp"
#include "vmime/net/message.hpp"
#include "vmime/net/messageSet.hpp"
#include "vmime/net/fetchAttributes.hpp"
#include "vmime/net/events.hpp"
#include "vmime/net/imap/IMAPFolder.hpp"
#include "vmime/net/imap/IMAPFolderStatus.hpp"
#include "vmime/net/imap/IMAPSearchAttributes.hpp"
#include "vmime/net/imap/IMAPMessage.hpp"
namespace vn = vmime::net; using vn::messageSet; using vn::fetchAttributes; using vmime::shared_ptr;
typedef vmime::net::folder::path vpath; typedef std::vector<std::string> upath; typedef vn::imap::IMAPSearchTokenFactory TF;
// ---- modified UTF-7 (RFC 3501, 5.1.3), written from the text of the RFC
static const char* B64M = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+,";
static void b64utf16(std::string& r, const std::vector<uint16_t>& u) { uint32_t acc = 0; int n = 0; for (uint16_t x : u) { acc = (acc << 16) | x; n += 16; while (n >= 6) { r += B64M[(acc >> (n - 6)) & 63]; n -= 6; } acc &= (1u << n) - 1; } if (n) r += B64M[(acc << (6 - n)) & 63]; }
static std::string toM7(const std::string& t, char sep) {
	std::vector<uint32_t> cp; getUtf8(t, cp); std::string r; std::vector<uint16_t> run; auto flush = [&]() { if (run.empty()) return; r += '&'; b64utf16(r, run); r += '-'; run.clear(); };
	for (uint32_t c : cp) { if (c >= 0x20 && c < 0x7f && c != (unsigned char) sep) { flush(); r += (char) c; if (c == '&') r += '-'; } else if (c < 0x10000) run.push_back((uint16_t) c); else { run.push_back((uint16_t) (0xd800 + ((c - 0x10000) >> 10))); run.push_back((uint16_t) (0xdc00 + ((c - 0x10000) & 0x3ff))); } } flush(); return r;
}
static std::string fromM7(const std::string& t) {
	std::string r; for (size_t i = 0 ; i < t.size() ; ++i) { if (t[i] != '&') { r += t[i]; continue; } size_t e = t.find('-', i); if (e == std::string::npos) return "?malformed"; if (e == i + 1) { r += '&'; i = e; continue; } uint32_t acc = 0; int n = 0; std::vector<uint16_t> u; for (size_t j = i + 1 ; j < e ; ++j) { const char* q = strchr(B64M, t[j]); if (!q) return "?malformed"; acc = (acc << 6) | (uint32_t) (q - B64M); n += 6; if (n >= 16) { u.push_back((uint16_t) (acc >> (n - 16))); n -= 16; acc &= (1u << n) - 1; } } for (size_t k = 0 ; k < u.size() ; ++k) { uint32_t c = u[k]; if (c >= 0xd800 && c < 0xdc00 && k + 1 < u.size()) { c = 0x10000 + ((c - 0xd800) << 10) + (u[k + 1] - 0xdc00); ++k; } putUtf8(r, c); } i = e; } return r;
}
static upath splitName(const std::string& n, const imapServer& S) { upath r; size_t b = 0; if (S.nilSep) { r.push_back(fromM7(n)); return r; } for ( ; ; ) { size_t e = n.find(S.sep, b); r.push_back(fromM7(n.substr(b, e == std::string::npos ? e : e - b))); if (e == std::string::npos) break; b = e + 1; } return r; }
static std::string wireName(const upath& p, const imapServer& S) { std::string r; for (auto& c : p) r += (r.empty() ? "" : std::string(1, S.sep)) + toM7(c, S.nilSep ? '/' : S.sep); return r; }
static vpath toV(const upath& p) { vpath r; for (auto& c : p) r /= vpath::component(c, vmime::charset("utf-8")); return r; }
static upath fromV(const vpath& p) { upath r; for (size_t i = 0 ; i < p.getSize() ; ++i) r.push_back(p[i].getConvertedText(vmime::charset("utf-8"))); return r; }
static std::string showP(const upath& p) { std::string r; for (auto& c : p) r += "/" + pbt::show(c); return r.empty() ? "/" : r; }
static bool under(const upath& a, const upath& b) { return b.size() > a.size() && std::equal(a.begin(), a.end(), b.begin()); }
static std::string genComp(Source& s) {
	switch (s.weighted({ 6, 3, 3, 2 })) { case 0: return s.pick({ "a", "b", "foo", "foobar", "Drafts", "x" }); case 1: return s.pick({ "a b", "R&D", "&", "a-b", "C++", "a*", "a%", "q\"q", "b\\s", "{1}", "(x)", "a/b", "a.b", "1+1", "&AOk-", "NIL", "#x", "~", "a]", "inbox2", "x,y", "tab\tq" }); case 2: return s.pick({ "\xc3\xa9t\xc3\xa9", "\xe6\x97\xa5\xe6\x9c\xac\xe8\xaa\x9e", "\xd0\x9f-\xd0\x98", "a\xe2\x98\xba" "b", "\xf0\x9f\x98\x80", "\xc3\xa9&\xc3\xa9", "\xc3\xa9/\xc3\xa9", "\xc2\x80", "\xef\xbf\xbd", "x\x7fy" });
	default: { std::string r; unsigned n = 1 + (unsigned) s.draw(5); for (unsigned i = 0 ; i < n ; ++i) { uint32_t c = s.coin() ? 0x20 + (uint32_t) s.draw(0x5e) : genCodepoint(s); if (c == 0 || c == '\r' || c == '\n') c = 'z'; putUtf8(r, c); } for (size_t i ; (i = r.find("+-")) != std::string::npos ; ) r.erase(i + 1, 1); /* KF-imap-plus-minus */ return r; } }
}
// ---- messages
static std::string decName(const std::string& x) { return x == "=?utf-8?Q?J=C3=BCrgen?=" ? "J\xc3\xbcrgen" : x == "=?iso-8859-1?Q?=E9?= x" ? "\xc3\xa9 x" : x; }
// ---- flags
static int toVF(const std::set<std::string>& f) { int r = 0; if (f.count("\\Seen")) r |= vn::message::FLAG_SEEN; if (f.count("\\Answered")) r |= vn::message::FLAG_REPLIED; if (f.count("\\Flagged")) r |= vn::message::FLAG_MARKED; if (f.count("\\Deleted")) r |= vn::message::FLAG_DELETED; if (f.count("\\Draft")) r |= vn::message::FLAG_DRAFT; return r; }
static std::set<std::string> fromVF(int f) { std::set<std::string> r; if (f == -1) return r; if (f & vn::message::FLAG_SEEN) r.insert("\\Seen"); if (f & vn::message::FLAG_REPLIED) r.insert("\\Answered"); if (f & vn::message::FLAG_MARKED) r.insert("\\Flagged"); if (f & vn::message::FLAG_DELETED) r.insert("\\Deleted"); if (f & vn::message::FLAG_DRAFT) r.insert("\\Draft"); return r; }
static int genFlags(Source& s) { int r = 0; for (int f : { (int) vn::message::FLAG_SEEN, (int) vn::message::FLAG_REPLIED, (int) vn::message::FLAG_MARKED, (int) vn::message::FLAG_DELETED, (int) vn::message::FLAG_DRAFT }) if (s.oneIn(3)) r |= f; return r; }
// ---- a copy of what the server holds
struct smsg { uint32_t uid; std::set<std::string> flags; std::string raw, date; bool operator==(const smsg& o) const { return uid == o.uid && flags == o.flags && raw == o.raw && date == o.date; } };
typedef std::map<std::string, std::vector<smsg>> snap;
static snap take(const imapServer& S) { snap r; for (auto& b : S.boxes) { auto& v = r[b.first + (b.second->noselect ? " (noselect)" : "") + (b.second->use.empty() ? "" : " " + b.second->use)]; for (auto& m : b.second->msgs) v.push_back({ m->uid, m->flags, m->raw, imapDateTime(m->date) }); } return r; }
static std::string keyOf(const imapBox& b) { return b.name + (b.noselect ? " (noselect)" : "") + (b.use.empty() ? "" : " " + b.use); }
static std::string showS(const snap& x) { std::string r; for (auto& b : x) { r += pbt::show(b.first) + " ["; for (auto& m : b.second) { r += " " + std::to_string(m.uid) + ":"; for (auto& f : m.flags) r += f; r += ":" + std::to_string(m.raw.size()) + ":" + m.date; } r += " ] "; } return r; }
struct listener : vn::events::messageCountListener, vn::events::messageChangedListener, vn::events::folderListener {
	std::vector<std::pair<int, std::vector<size_t>>> ev; std::set<size_t> changed; std::vector<std::string> fe;
	void messagesAdded(const shared_ptr<vn::events::messageCountEvent>& e) { ev.push_back({ 1, e->getNumbers() }); } void messagesRemoved(const shared_ptr<vn::events::messageCountEvent>& e) { ev.push_back({ 0, e->getNumbers() }); } void messageChanged(const shared_ptr<vn::events::messageChangedEvent>& e) { for (size_t n : e->getNumbers()) changed.insert(n); }
	void folderCreated(const shared_ptr<vn::events::folderEvent>&) { fe.push_back("created"); } void folderRenamed(const shared_ptr<vn::events::folderEvent>&) { fe.push_back("renamed"); } void folderDeleted(const shared_ptr<vn::events::folderEvent>&) { fe.push_back("deleted"); }
};
struct held { shared_ptr<vn::message> m; std::shared_ptr<imapMsg> x; bool known = false; std::set<std::string> fetched; bool flagsKnown = false; };
struct openF { shared_ptr<vn::folder> f; std::shared_ptr<imapPeer> p; upath path; bool ro = false; std::unique_ptr<listener> l; size_t cnt = 0; std::vector<held> h; ~openF() { if (f && l) { f->removeMessageCountListener(l.get()); f->removeMessageChangedListener(l.get()); } } };
static std::vector<std::pair<std::string, std::string>> wantAddrs(const std::vector<imapAddr>& v) { std::vector<std::pair<std::string, std::string>> r; for (auto& a : v) if (!a.group) r.push_back({ a.hasName ? decName(a.name) : "", a.mbox + "@" + a.host }); return r; }
static std::pair<std::string, std::string> gotAddr(const vmime::mailbox& m) { return { m.getName().getConvertedText(vmime::charset("utf-8")), m.getEmail().toString() }; }
static std::vector<std::pair<std::string, std::string>> gotAddrs(const vmime::addressList& a) { std::vector<std::pair<std::string, std::string>> r; for (auto& m : a.toMailboxList()->getMailboxList()) r.push_back(gotAddr(*m)); return r; }
struct strTo : strOut { std::string& r; explicit strTo(std::string& x) : r(x) { } ~strTo() { r = s; } };
static std::string genH(const vmime::header& h) { return h.generate(); }
static std::string refHdr(const std::string& raw) { vmime::header h; h.parse(raw); return h.generate(); }
static void checkPart(const vn::messagePart& p, const imapPart& t, const std::string& where) {
	CHECK_EQ(lower(p.getType().getType()), lower(t.type), "type of part " << where); CHECK_EQ(lower(p.getType().getSubType()), lower(t.subtype), "subtype of part " << where); auto str = p.getStructure(); CHECK_EQ(str->getPartCount(), t.kids.size(), "number of sub-parts of part " << where); if (!t.multi) { CHECK_EQ(p.getSize(), t.body.size(), "size of part " << where); std::string nm; for (auto& x : t.params) if (x.first == "name") nm = x.second; CHECK_EQ(p.getName(), nm, "name of part " << where); if (t.ext) CHECK_EQ(lower(p.getDisposition().getName()), t.dsp.empty() ? lower(vmime::contentDisposition().getName()) : t.dsp, "disposition of part " << where); }
	for (size_t i = 0 ; i < t.kids.size() ; ++i) { CHECK_EQ(str->getPartAt(i)->getNumber(), i, "number of part " << where); checkPart(*str->getPartAt(i), t.kids[i], where + "." + std::to_string(i + 1)); }
}
static void checkParsed(const vmime::bodyPart& b, const imapPart& t, const std::string& where) {
	CHECK_EQ(genH(*b.getHeader()), refHdr(t.hdr), "header of parsed part " << where); CHECK_EQ(b.getBody()->getPartCount(), t.kids.size(), "number of parts of parsed part " << where); for (size_t i = 0 ; i < t.kids.size() ; ++i) checkParsed(*b.getBody()->getPartAt(i), t.kids[i], where + "." + std::to_string(i + 1));
	if (!t.multi) { auto ct = b.getBody()->getContents(); std::string raw, dec; { strTo o(raw); ct->extractRaw(o); } CHECK_EQ(raw, t.body, "raw contents of parsed part " << where); { strTo o(dec); ct->extract(o); } std::string want = t.enc == "base64" ? refUnB64(t.body) : t.enc == "quoted-printable" ? refUnQP(t.body, false) : t.body; CHECK_EQ(dec, want, "contents of parsed part " << where); std::string gen; { strTo o(gen); ct->generate(o, vmime::encoding(t.enc), 0); } CHECK_EQ(gen, t.body, "generated contents of parsed part " << where); }
}
// ---- search
static vmime::datetime toDT(const imapDate& d) { return vmime::datetime(d.y, d.m, d.d, d.H, d.M, d.S, d.z); }
struct searchTok { imapKey k; vn::imap::IMAPSearchTokenPtr t; bool bad = false; };
static searchTok genTok(Source& s, const std::vector<std::shared_ptr<imapMsg>>& view, int depth, bool eight) {
	searchTok r; auto word = [&]() { std::string w = s.pick({ "hello", "needle", "x", "\"y\"", "\\z", "\"", "\\", "bob", "BOB", "a)", " ", "H.Example", "{3}", "zzz" }); if (eight && s.oneIn(3)) w += "\xc3\xa9"; return w; }; auto dt = [&]() { imapDate d; if (!view.empty() && s.coin()) d = view[s.draw(view.size() - 1)]->date; else { d.y = (int) s.range(1990, 2035); d.m = (int) s.range(1, 12); d.d = (int) s.range(1, 28); } return d; };
	auto set = [&](bool uid, messageSet& ms) { if (view.empty()) { r.bad = !uid; uint64_t n = 1 + s.draw(3); r.k.set.push_back({ n, n }); if (uid) ms.addRange(vn::UIDMessageRange(vn::message::uid(n))); else ms.addRange(vn::numberMessageRange(n)); return; } unsigned n = 1 + (unsigned) s.draw(2); for (unsigned i = 0 ; i < n ; ++i) { uint64_t a = 1 + s.draw(view.size() - 1), b = a + s.draw(view.size() - a); if (uid) { a = view[a - 1]->uid; b = view[b - 1]->uid; } r.k.set.push_back({ a, b }); if (uid) ms.addRange(vn::UIDMessageRange(vn::message::uid(a), vn::message::uid(b))); else ms.addRange(vn::numberMessageRange(a, b)); } };
	unsigned k = (unsigned) s.weighted({ 6, 6, 3, 2, 2, 2, 2, depth > 0 ? 5u : 0u });
	switch (k) {
	case 0: { unsigned i = (unsigned) s.draw(12); static const char* n[] = { "ANSWERED", "DELETED", "DRAFT", "FLAGGED", "NEW", "OLD", "RECENT", "SEEN", "UNANSWERED", "UNDELETED", "UNDRAFT", "UNFLAGGED", "UNSEEN" }; r.k.op = n[i]; switch (i) { case 0: r.t = TF::ANSWERED(); break; case 1: r.t = TF::DELETED(); break; case 2: r.t = TF::DRAFT(); break; case 3: r.t = TF::FLAGGED(); break; case 4: r.t = TF::NEW(); break; case 5: r.t = TF::OLD(); break; case 6: r.t = TF::RECENT(); break; case 7: r.t = TF::SEEN(); break; case 8: r.t = TF::UNANSWERED(); break; case 9: r.t = TF::UNDELETED(); break; case 10: r.t = TF::UNDRAFT(); break; case 11: r.t = TF::UNFLAGGED(); break; default: r.t = TF::UNSEEN(); } break; }
	case 1: { r.k.a = word(); switch (s.draw(6)) { case 0: r.k.op = "BCC"; r.t = TF::BCC(r.k.a); break; case 1: r.k.op = "BODY"; r.t = TF::BODY(r.k.a); break; case 2: r.k.op = "CC"; r.t = TF::CC(r.k.a); break; case 3: r.k.op = "FROM"; r.t = TF::FROM(r.k.a); break; case 4: r.k.op = "SUBJECT"; r.t = TF::SUBJECT(r.k.a); break; case 5: r.k.op = "TEXT"; r.t = TF::TEXT(r.k.a); break; default: r.k.op = "TO"; r.t = TF::TO(r.k.a); } break; }
	case 2: { r.k.d = dt(); vmime::datetime d = toDT(r.k.d); switch (s.draw(5)) { case 0: r.k.op = "BEFORE"; r.t = TF::BEFORE(d); break; case 1: r.k.op = "ON"; r.t = TF::ON(d); break; case 2: r.k.op = "SINCE"; r.t = TF::SINCE(d); break; case 3: r.k.op = "SENTBEFORE"; r.t = TF::SENTBEFORE(d); break; case 4: r.k.op = "SENTON"; r.t = TF::SENTON(d); break; default: r.k.op = "SENTSINCE"; r.t = TF::SENTSINCE(d); } break; }
	case 3: { static const char* names[] = { "X-Custom", "X-Priority", "Subject", "Received" }; const char* n = names[s.draw(3)]; r.k.op = "HEADER"; r.k.a = n; if (s.coin()) r.t = TF::HEADER(n); else { r.k.b = word(); r.t = TF::HEADER(n, r.k.b); } break; }
	case 4: { bool un = s.coin(); static const vn::message::Flags fl[] = { vn::message::FLAG_SEEN, vn::message::FLAG_REPLIED, vn::message::FLAG_MARKED, vn::message::FLAG_DRAFT, vn::message::FLAG_DELETED }; static const char* n[] = { "SEEN", "ANSWERED", "FLAGGED", "DRAFT", "DELETED" }; size_t i = s.draw(4); r.k.op = (un ? "UN" : "") + std::string(n[i]); r.t = un ? TF::UNKEYWORD(fl[i]) : TF::KEYWORD(fl[i]); break; }
	case 5: { uint64_t n = s.coin() && !view.empty() ? view[s.draw(view.size() - 1)]->raw.size() : (uint64_t) s.pickInt({ 0, 1, 500, 2147483647, 2147483648ll, 4294967295ll }); r.k.n = n; if (s.coin()) { r.k.op = "LARGER"; r.t = TF::LARGER((uint32_t) n); } else { r.k.op = "SMALLER"; r.t = TF::SMALLER((uint32_t) n); } break; }
	case 6: { bool uid = s.coin(); messageSet ms = messageSet::empty(); r.k.op = uid ? "UID" : "SET"; set(uid, ms); r.t = uid ? TF::UID(ms) : TF::MESSAGESET(ms); break; }
	default: switch (s.draw(2)) { case 0: { r.k.op = "AND"; unsigned n = 1 + (unsigned) s.draw(2); std::vector<vn::imap::IMAPSearchTokenPtr> v; for (unsigned i = 0 ; i < n ; ++i) { searchTok x = genTok(s, view, depth - 1, eight); r.k.kids.push_back(x.k); r.bad = r.bad || x.bad; v.push_back(x.t); } r.t = TF::AND(std::move(v)); break; } case 1: { searchTok x = genTok(s, view, depth - 1, eight); r.k.op = "NOT"; r.k.kids.push_back(x.k); r.bad = x.bad; r.t = TF::NOT(x.t); break; } default: { searchTok x = genTok(s, view, depth - 1, eight), y = genTok(s, view, depth - 1, eight); r.k.op = "OR"; r.k.kids = { x.k, y.k }; r.bad = x.bad || y.bad; r.t = TF::OR(x.t, y.t); } } }
	return r;
}
static std::string showK(const imapKey& k) { std::string r = k.op; if (!k.a.empty()) r += " " + pbt::show(k.a); if (!k.b.empty()) r += " " + pbt::show(k.b); for (auto& x : k.kids) r += " (" + showK(x) + ")"; for (auto& x : k.set) r += " " + std::to_string(x.first) + ":" + std::to_string(x.second); if (k.n) r += " " + std::to_string(k.n); return r; }

struct world {
	Source& s; Ctx& c; imapServer S; std::vector<std::shared_ptr<imapPeer>> conns; shared_ptr<vn::session> sess; shared_ptr<vn::store> st; std::list<openF> open; unsigned bn = 0; std::vector<size_t> cuts;
	world(Source& a, Ctx& b) : s(a), c(b) { }
	std::shared_ptr<imapPart> newTree() { auto t = std::make_shared<imapPart>(genMsg(s, 2, bn)); S.known[t->raw()] = t; return t; }
	imapDate genDate() { imapDate d; d.y = (int) s.range(1990, 2035); d.m = (int) s.range(1, 12); d.d = (int) s.range(1, 28); d.H = (int) s.draw(23); d.M = (int) s.draw(59); d.S = (int) s.draw(59); d.z = (int) s.pickInt({ 0, 60, -300, 330, -210, 840, -30 }); return d; }
	void addMsg(imapBox& b) { auto t = newTree(); auto m = S.add(b, t->raw(), t); m->date = genDate(); m->flags = fromVF(genFlags(s)); if (s.oneIn(5)) m->flags.insert("$Forwarded"); }
	upath genPath(bool parentExists) { upath p; if (s.coin() && !S.boxes.empty()) { p = anyPath(); if (S.nilSep || (p.size() > 2)) p.clear(); } p.push_back(genComp(s)); if (!S.nilSep && s.oneIn(6) && !parentExists) p.push_back(genComp(s)); if (p[0] == "INBOX" && p.size() == 1) p[0] = "x"; if (imapServer::inbox(p[0])) p[0] = "INBOX"; return p; }
	upath anyPath() { auto it = S.boxes.begin(); std::advance(it, (long) s.draw(S.boxes.size() - 1)); return splitName(it->first, S); }
	std::shared_ptr<imapBox> box(const upath& p) { for (auto& b : S.boxes) if (splitName(b.first, S) == p) return b.second; return nullptr; }
	void faults(const char* what) { for (auto& f : S.faults) FAIL("protocol error" << " (" << what << "): " << f); }
	void expectThrow(const char* what, std::function<void()> f) { bool t = false; try { f(); } catch (const vmime::exceptions::command_error&) { t = true; } catch (const vmime::exceptions::illegal_state&) { t = true; } catch (const vmime::exceptions::message_not_found&) { t = true; } catch (const vmime::exceptions::folder_not_found&) { t = true; } catch (const vmime::exceptions::operation_not_supported&) { t = true; } catch (const vmime::exceptions::illegal_operation&) { t = true; } catch (const vmime::exceptions::invalid_argument&) { t = true; } catch (const vmime::exceptions::folder_already_open&) { t = true; } CHECK_MSG(t, what << " succeeded"); }
	bool isOpen(const upath& p, bool subtree = false) { for (auto& o : open) if (o.path == p || (subtree && under(p, o.path))) return true; return false; }
	void same(const snap& want, const char* what) { snap now = take(S); CHECK_MSG(now == want, "mailboxes after " << what << " are " << showS(now) << ", expected " << showS(want)); }
	// the folder has to have followed what the server announced
	void sync(openF& o, const char* what) {
		std::vector<std::pair<int, std::vector<size_t>>> want; std::set<size_t> chg; for (auto& n : o.p->notes) { if (n.kind == 0) { want.push_back({ 0, { n.n } }); CHECK_MSG(o.cnt > 0, "model"); --o.cnt; } else if (n.kind == 1) { if (n.n > o.cnt) { std::vector<size_t> v; for (size_t i = o.cnt + 1 ; i <= n.n ; ++i) v.push_back(i); want.push_back({ 1, v }); } o.cnt = n.n; } else chg.insert(n.n); } o.p->notes.clear();
		auto show = [](const std::vector<std::pair<int, std::vector<size_t>>>& v) { std::string r; for (auto& e : v) { r += e.first ? " added" : " removed"; for (size_t n : e.second) r += " " + std::to_string(n); } return r; }; CHECK_MSG(o.l->ev == want, "events after " << what << ":" << show(o.l->ev) << ", expected" << show(want)); for (size_t n : chg) CHECK_MSG(o.l->changed.count(n), "no event for the changed flags of message " << n << " after " << what); o.l->ev.clear(); o.l->changed.clear();
		CHECK_EQ(o.cnt, o.p->view.size(), "model count"); CHECK_EQ(o.f->getMessageCount(), o.p->view.size(), "getMessageCount() after " << what); CHECK_MSG(o.f->isOpen(), "the folder is closed after " << what);
		for (auto& h : o.h) { size_t n = 0; for (size_t i = 0 ; i < o.p->view.size() ; ++i) if (o.p->view[i] == h.x) n = i + 1; CHECK_EQ(h.m->isExpunged(), n == 0, "isExpunged() of the message with UID " << h.x->uid << " after " << what); if (n) { CHECK_EQ(h.m->getNumber(), n, "number of the message with UID " << h.x->uid << " after " << what); vn::message::uid u = h.m->getUID(); if (!u.empty()) CHECK_EQ(std::string(u), std::to_string(h.x->uid), "UID of message " << n); } if (n && h.flagsKnown) { bool dirty = o.p->dirty.count(h.x->uid) != 0 || std::find(o.p->sel->msgs.begin(), o.p->sel->msgs.end(), h.x) == o.p->sel->msgs.end(); /* expunged by another client, not announced yet */ if (!dirty) CHECK_EQ(h.m->getFlags(), toVF(h.x->flags), "flags of message " << n << " after " << what); } }
		if (!want.empty()) c.label("notified by the server");
	}
	void hold(openF& o, const shared_ptr<vn::message>& m, const std::shared_ptr<imapMsg>& x) { held h; h.m = m; h.x = x; o.h.push_back(h); }
	// a message which the server announced during the operation, and which has an UID that was asked for
	bool pending(openF& o, const std::vector<std::shared_ptr<imapMsg>>& old, const shared_ptr<vn::message>& m) { for (auto& x : o.p->view) if (std::find(old.begin(), old.end(), x) == old.end() && std::to_string(x->uid) == std::string(m->getUID())) return true; return false; }
	// all the messages asked for, except those which went away meanwhile
	void returned(openF& o, const std::vector<shared_ptr<vn::message>>& r, const std::set<std::shared_ptr<imapMsg>>& in, const char* what, const std::string& sh) {
		std::set<std::string> got; for (auto& m : r) CHECK_MSG(got.insert(std::string(m->getUID())).second, what << "(" << sh << ") returned twice the message with UID " << std::string(m->getUID())); for (auto& x : in) if (std::find(o.p->view.begin(), o.p->view.end(), x) != o.p->view.end()) CHECK_MSG(got.count(std::to_string(x->uid)), what << "(" << sh << ") did not return the message with UID " << x->uid);
	}
	bool live(openF& o, const held& h) { return std::find(o.p->view.begin(), o.p->view.end(), h.x) != o.p->view.end(); }
	void other() { // another client
		auto it = S.boxes.begin(); std::advance(it, (long) s.draw(S.boxes.size() - 1)); auto b = it->second; if (!open.empty() && s.draw(3)) b = open.front().p->sel; if (!b || b->noselect) return; switch (s.draw(3)) { case 0: addMsg(*b); break; case 1: { unsigned n = 1 + (unsigned) s.draw(1); while (n-- && !b->msgs.empty()) b->msgs.erase(b->msgs.begin() + (long) s.draw(b->msgs.size() - 1)); break; } default: if (!b->msgs.empty()) { auto m = b->msgs[s.draw(b->msgs.size() - 1)]; auto f = fromVF(genFlags(s)); if (m->flags.count("$Forwarded")) f.insert("$Forwarded"); m->flags = f; m->modseq = ++b->modseq; imapPeer::changed(S, b.get(), m->uid, nullptr); } } c.label("change by another client");
	}
	// a set of messages, as the client and the server see it
	messageSet genSet(openF& o, std::set<std::shared_ptr<imapMsg>>& in, bool& bad, std::string& show) {
		auto& v = o.p->view; bool uid = s.coin(); messageSet r = messageSet::empty(); bad = false; unsigned n = 1 + (unsigned) s.draw(2); std::vector<std::pair<uint64_t, uint64_t>> rs; for (unsigned i = 0 ; i < n ; ++i) { uint64_t a, b; if (v.empty() || s.oneIn(12)) a = b = uid ? s.coin() ? 4000000000ull : 1 + s.draw(50) : v.size() + 1 + s.draw(1); else { a = b = 1 + s.draw(v.size() - 1); if (s.oneIn(3)) b = 0; else if (s.coin()) b = a + s.draw(v.size() - a); if (uid) { a = v[a - 1]->uid; if (b) b = v[b - 1]->uid; if (b && s.oneIn(4)) b += 1; } } rs.push_back({ a, b }); show += " " + std::to_string(a) + ":" + std::to_string(b);
			if (uid) { if (a == b && s.coin()) r.addRange(vn::UIDMessageRange(vn::message::uid(a))); else r.addRange(vn::UIDMessageRange(vn::message::uid(a), b ? vn::message::uid(b) : vn::message::uid("*"))); } else { if (a == b && s.coin()) r.addRange(vn::numberMessageRange(a)); else r.addRange(vn::numberMessageRange(a, b ? (size_t) b : (size_t) -1)); } if (!uid && (a > v.size() || b > v.size())) bad = true; }
		show = (uid ? "UIDs" : "numbers") + show; for (size_t i = 0 ; i < v.size() ; ++i) if (imapInSet(rs, uid ? v[i]->uid : i + 1, uid ? v.back()->uid : v.size())) in.insert(v[i]); return r;
	}
	messageSet emptySet() { return messageSet::empty(); }
	std::vector<uint32_t> uidsOf(const messageSet& m) { struct en : vn::messageSetEnumerator { std::vector<uint32_t> r; void enumerateNumberMessageRange(const vn::numberMessageRange&) { r.push_back(0); } void enumerateUIDMessageRange(const vn::UIDMessageRange& x) { for (uint64_t a = std::stoull(std::string(x.getFirst())), b = std::stoull(std::string(x.getLast())) ; a <= b && r.size() < 1000 ; ++a) r.push_back((uint32_t) a); } } e; m.enumerate(e); return e.r; }
	void checkFetched(const held& h, const fetchAttributes& a, bool fh) {
		auto& m = *h.m; auto& t = *h.x->tree; if (a.has(fetchAttributes::SIZE)) CHECK_EQ(m.getSize(), h.x->raw.size(), "getSize()"); if (a.has(fetchAttributes::UID)) CHECK_EQ(std::string(m.getUID()), std::to_string(h.x->uid), "getUID()"); if (a.has(fetchAttributes::STRUCTURE)) { auto str = m.getStructure(); CHECK_EQ(str->getPartCount(), (size_t) 1, "number of root parts"); checkPart(*str->getPartAt(0), t, "1"); }
		if (a.has(fetchAttributes::UID) && S.condstore) { auto im = vmime::dynamicCast<vn::imap::IMAPMessage>(h.m); CHECK_EQ(im->getModSequence(), h.x->modseq, "getModSequence()"); }
		if (fh) { if (a.has(fetchAttributes::FULL_HEADER)) CHECK_EQ(genH(*m.getHeader()), refHdr(t.hdr), "full header"); return; } bool listed = a.has(fetchAttributes::IMPORTANCE) || !a.getHeaderFields().empty(); if (a.has(fetchAttributes::ENVELOPE)) { auto hd = m.getHeader(); auto first = [&](const char* n, const std::vector<imapAddr>& w) { auto ww = wantAddrs(w); auto f = hd->findField(n); if (ww.empty()) { CHECK_MSG(!f, n << " present"); return; } CHECK_MSG(f != nullptr, n << " missing"); CHECK_MSG(gotAddr(*f->getValue<vmime::mailbox>()) == ww[0], n << " is " << f->generate()); }; auto all = [&](const char* n, const std::vector<imapAddr>& w) { auto ww = wantAddrs(w); auto f = hd->findField(n); std::vector<std::pair<std::string, std::string>> g; if (f) g = gotAddrs(*f->getValue<vmime::addressList>()); if (g != ww) { std::string x; for (auto& q : g) x += pbt::show(q.first) + "<" + q.second + "> "; FAIL(n << " is not that of the message: " << x); } };
			auto& e = t.env; vmime::datetime d(e.date); CHECK_MSG(*hd->Date()->getValue<vmime::datetime>() == d, "Date: " << hd->Date()->generate() << ", expected " << e.date); CHECK_EQ(hd->Subject()->getValue<vmime::text>()->getConvertedText(vmime::charset("utf-8")), e.hasSubject ? decName(e.subject) : std::string(), "Subject"); first("From", e.from); first("Sender", e.sender.empty() ? e.from : e.sender); all("Reply-To", e.replyTo.empty() ? e.from : e.replyTo); all("To", e.to); all("Cc", e.cc); all("Bcc", e.bcc);
			if (e.hasMid) CHECK_EQ("<" + hd->MessageId()->getValue<vmime::messageId>()->getId() + ">", e.msgid, "Message-ID"); else CHECK_MSG(!hd->hasField("Message-Id"), "Message-ID present"); std::string irt; if (hd->hasField("In-Reply-To")) { auto q = hd->InReplyTo()->getValue<vmime::messageIdSequence>(); for (size_t i = 0 ; i < q->getMessageIdCount() ; ++i) irt += (i ? " " : "") + ("<" + q->getMessageIdAt(i)->getId() + ">"); } CHECK_EQ(irt, e.hasIrt ? e.irt : std::string(), "In-Reply-To"); }
		if (listed && !a.has(fetchAttributes::FULL_HEADER)) { auto hd = m.getHeader(); std::vector<std::string> names = a.getHeaderFields(); if (a.has(fetchAttributes::IMPORTANCE)) { names.push_back("Importance"); names.push_back("X-Priority"); } for (auto& n : names) { std::vector<std::string> want, got; for (auto& x : imapHeaders(t.hdr)) if (lower(x.first) == lower(n)) want.push_back(collapse1(x.second)); for (auto& f : std::const_pointer_cast<vmime::header>(hd)->findAllFields(n)) { std::string g = f->generate(); got.push_back(collapse1(g.substr(g.find(':') + 1))); } CHECK_MSG(got == want, "fetched header fields " << n << ": " << got.size() << " found, " << want.size() << " expected" << (got.size() && want.size() ? ", " + pbt::show(got[0]) : "")); } }
	}
	static std::string collapse1(const std::string& x) { std::string r; for (char ch : x) { if (ch == '\r' || ch == '\n' || ch == '\t') ch = ' '; if (ch == ' ' && (r.empty() || r.back() == ' ')) continue; r += ch; } while (!r.empty() && r.back() == ' ') r.pop_back(); return r; }
	fetchAttributes genAttrs(bool& fh) { fetchAttributes a; unsigned n = 1 + (unsigned) s.draw(3); static const int v[] = { fetchAttributes::SIZE, fetchAttributes::FLAGS, fetchAttributes::UID, fetchAttributes::STRUCTURE, fetchAttributes::ENVELOPE, fetchAttributes::FULL_HEADER, fetchAttributes::IMPORTANCE, fetchAttributes::PEEK }; for (unsigned i = 0 ; i < n ; ++i) { size_t k = s.draw(8); if (k < 8) a.add(v[k]); else a.add(s.pick({ "X-Custom", "Received", "x-priority" })); } fh = a.has(fetchAttributes::FULL_HEADER); return a; }
	static std::string showA(const fetchAttributes& a) { std::string r; const char* n[] = { "ENVELOPE", "STRUCTURE", "CONTENT_INFO", "FLAGS", "SIZE", "FULL_HEADER", "UID", "IMPORTANCE", "PEEK" }; for (int i = 0 ; i < 9 ; ++i) if (a.has(1 << i)) r += std::string(" ") + n[i]; for (auto& h : a.getHeaderFields()) r += " " + h; return r; }
	// reading the header fields without PEEK sets \Seen
	void seen(openF& o, snap& w, const std::set<std::shared_ptr<imapMsg>>& in) { if (o.ro || !o.p->sel) return; auto b = o.p->sel; for (auto& m : w[keyOf(*b)]) for (auto& x : in) if (x->uid == m.uid) m.flags.insert("\\Seen"); }
	void marked(openF& o, const std::set<std::shared_ptr<imapMsg>>& in) { for (auto& h : o.h) if (in.count(h.x)) h.flagsKnown = false; }
	void folderOps();
	void openOps(openF& o);
	void go();
};
void world::folderOps() {
	unsigned k = (unsigned) s.weighted({ 4, 4, 4, 2, 3, 3, 4 }); snap before = take(S); upath p = s.draw(3) ? anyPath() : genPath(false); NOTE(c, "folder operation " << k << " on " << showP(p)); auto b = box(p);
	switch (k) {
	case 0: { auto f = st->getFolder(toV(p)); CHECK_EQ(f->exists(), b != nullptr, "exists() for " << showP(p)); same(before, "exists()"); break; }
	case 1: { bool rec = s.coin(); if (s.coin()) p.clear(); auto f = p.empty() ? st->getRootFolder() : st->getFolder(toV(p)); std::vector<shared_ptr<vn::folder>> got; if (!p.empty() && !box(p)) { try { got = f->getFolders(rec); } catch (const vmime::exceptions::command_error&) { } } else got = f->getFolders(rec); std::multiset<upath> g, w; for (auto& x : got) g.insert(fromV(x->getFullPath())); for (auto& q : S.boxes) { upath u = splitName(q.first, S); if (rec ? under(p, u) : under(p, u) && u.size() == p.size() + 1) w.insert(u); }
		if (g != w) { std::string a, z; for (auto& x : g) a += " " + showP(x); for (auto& x : w) z += " " + showP(x); FAIL("getFolders(" << rec << ") of " << showP(p) << " returned" << a << ", expected" << z); }
		for (auto& x : got) { upath u = fromV(x->getFullPath()); auto q = box(u); auto at = x->getAttributes(); CHECK_EQ(x->getName().getConvertedText(vmime::charset("utf-8")), u.back(), "getName()"); checkAttr: CHECK_EQ((at.getFlags() & vn::folderAttributes::FLAG_NO_OPEN) != 0, q->noselect, "NO_OPEN of " << showP(u)); CHECK_EQ((at.getType() & vn::folderAttributes::TYPE_CONTAINS_MESSAGES) != 0, !q->noselect, "CONTAINS_MESSAGES of " << showP(u)); if (S.children && !q->noinferiors) CHECK_EQ((at.getFlags() & vn::folderAttributes::FLAG_HAS_CHILDREN) != 0, S.hasKids(q->name), "HAS_CHILDREN of " << showP(u)); if (false) goto checkAttr; } same(before, "getFolders()"); break; }
	case 2: { auto f = st->getFolder(toV(p)); listener l; f->addFolderListener(&l); vn::folderAttributes at; at.setType(vn::folderAttributes::TYPE_CONTAINS_MESSAGES | (s.coin() && !S.nilSep ? vn::folderAttributes::TYPE_CONTAINS_FOLDERS : 0)); std::string use; if (s.oneIn(4)) { switch (s.draw(2)) { case 0: at.setSpecialUse(vn::folderAttributes::SPECIALUSE_DRAFTS); use = "\\Drafts"; break; case 1: at.setSpecialUse(vn::folderAttributes::SPECIALUSE_TRASH); use = "\\Trash"; break; default: at.setSpecialUse(vn::folderAttributes::SPECIALUSE_SENT); use = "\\Sent"; } } if (b || (!use.empty() && !S.specialUse)) { expectThrow("create() of an existing folder", [&]() { f->create(at); }); CHECK_MSG(l.fe.empty(), "event for a refused create()"); same(before, "a refused create()"); break; }
		std::string wn = wireName(p, S); f->create(at); snap w = before; if (!S.nilSep) for (size_t i = 1 ; i < p.size() ; ++i) { upath q(p.begin(), p.begin() + (long) i); if (!box(q)) w[wireName(q, S)]; bool have = false; for (auto& x : before) { upath y = splitName(x.first.substr(0, x.first.find(" (")), S); (void) y; have = have || x.first == wireName(q, S); } (void) have; } b = box(p); if (!b) { std::string names; for (auto& x : S.boxes) names += " " + pbt::show(x.first); FAIL("create() of " << showP(p) << ": the mailboxes are" << names); } for (size_t i = 1 ; i < p.size() ; ++i) { upath q(p.begin(), p.begin() + (long) i); auto pb = box(q); CHECK_MSG(pb != nullptr, "create(): parent " << showP(q) << " missing"); w[keyOf(*pb)]; } CHECK_EQ(b->use, use, "special use"); w[keyOf(*b)]; same(w, "create()"); CHECK_EQ(l.fe.size(), (size_t) 1, "events of create()"); CHECK_EQ(l.fe[0], std::string("created"), "event of create()"); c.label("create"); f->removeFolderListener(&l); break; }
	case 3: { if (isOpen(p)) break; auto f = st->getFolder(toV(p)); listener l; f->addFolderListener(&l); bool can = b && b->name != "INBOX" && !(b->noselect && S.hasKids(b->name)); if (!can) { expectThrow("destroy()", [&]() { f->destroy(); }); CHECK_MSG(l.fe.empty(), "event for a refused destroy()"); same(before, "a refused destroy()"); break; } std::string kk = keyOf(*b); bool kids = S.hasKids(b->name); f->destroy(); snap w = before; w.erase(kk); if (kids) w[keyOf(*b)]; same(w, "destroy()"); CHECK_EQ(l.fe.size(), (size_t) 1, "events of destroy()"); c.label("destroy"); f->removeFolderListener(&l); break; }
	case 4: { if (isOpen(p, true)) break; upath np = genPath(false); auto f = st->getFolder(toV(p)); bool can = b && b->name != "INBOX" && !box(np) && !under(p, np) && np != p; if (under(p, np)) break; struct sub { shared_ptr<vn::folder> f; upath p; std::unique_ptr<listener> l; ~sub() { if (f && l) f->removeFolderListener(l.get()); } }; std::list<sub> subs; for (auto& q : S.boxes) { upath u = splitName(q.first, S); if (u != p && u.size() && s.coin()) { subs.emplace_back(); sub& x = subs.back(); x.f = st->getFolder(toV(u)); x.p = u; x.l = std::make_unique<listener>(); x.f->addFolderListener(x.l.get()); } } listener l; f->addFolderListener(&l); NOTE(c, "rename to " << showP(np));
		if (!can) { expectThrow("rename()", [&]() { f->rename(toV(np)); }); same(before, "a refused rename()"); CHECK_MSG(fromV(f->getFullPath()) == p, "path after a refused rename()"); for (auto& x : subs) CHECK_MSG(fromV(x.f->getFullPath()) == x.p && x.l->fe.empty(), "another folder changed"); f->removeFolderListener(&l); break; }
		snap w; std::map<upath, upath> moved; for (auto& q : S.boxes) { upath u = splitName(q.first, S), v = u; if (u == p || under(p, u)) { v = np; v.insert(v.end(), u.begin() + (long) p.size(), u.end()); } moved[u] = v; } std::map<upath, std::vector<smsg>> content; for (auto& q : S.boxes) { imapBox cp = *q.second; content[moved[splitName(q.first, S)]] = before[keyOf(cp)]; } f->rename(toV(np)); std::map<upath, std::vector<smsg>> after; for (auto& q : S.boxes) after[splitName(q.first, S)] = take(S)[keyOf(*q.second)]; for (size_t i = 1 ; i < np.size() ; ++i) content[upath(np.begin(), np.begin() + (long) i)]; if (!(after == content)) { std::string a, z; for (auto& x : after) a += " " + showP(x.first); for (auto& x : content) z += " " + showP(x.first); FAIL("after rename(): mailboxes" << a << ", expected" << z); }
		CHECK_MSG(fromV(f->getFullPath()) == np, "getFullPath() after rename() is " << showP(fromV(f->getFullPath()))); CHECK_EQ(f->getName().getConvertedText(vmime::charset("utf-8")), np.back(), "getName() after rename()"); CHECK_EQ(l.fe.size(), (size_t) 1, "events of rename()"); CHECK_EQ(l.fe[0], std::string("renamed"), "event of rename()"); for (auto& x : subs) { bool in = under(p, x.p); upath v = moved[x.p]; CHECK_MSG(fromV(x.f->getFullPath()) == v, "path of folder " << showP(x.p) << " after rename() of " << showP(p) << " to " << showP(np) << " is " << showP(fromV(x.f->getFullPath()))); CHECK_EQ(x.l->fe.size(), (size_t) (in ? 1 : 0), "events of another folder"); if (in) { CHECK_EQ(x.l->fe[0], std::string("renamed"), "event of a sub-folder"); c.label("sub-folder renamed"); } } f->removeFolderListener(&l); c.label("rename"); break; }
	case 5: { auto f = st->getFolder(toV(p)); if (!b || b->noselect) { expectThrow("getStatus()", [&]() { f->getStatus(); }); break; } auto t = f->getStatus(); size_t un = 0; for (auto& m : b->msgs) un += !m->flags.count("\\Seen"); CHECK_EQ(t->getMessageCount(), b->msgs.size(), "status: messages"); CHECK_EQ(t->getUnseenCount(), un, "status: unseen"); auto it = vmime::dynamicCast<vn::imap::IMAPFolderStatus>(t); CHECK_EQ(it->getUIDNext(), b->uidNext, "status: UIDNEXT"); CHECK_EQ(it->getUIDValidity(), b->uidValidity, "status: UIDVALIDITY"); if (S.condstore) CHECK_EQ(it->getHighestModSeq(), b->modseq, "status: HIGHESTMODSEQ"); break; }
	default: { if (!b) break; auto f = st->getFolder(toV(p)); auto at = f->getAttributes(); CHECK_EQ((at.getFlags() & vn::folderAttributes::FLAG_NO_OPEN) != 0, b->noselect, "NO_OPEN of " << showP(p)); if (S.children && !b->noinferiors) CHECK_EQ((at.getFlags() & vn::folderAttributes::FLAG_HAS_CHILDREN) != 0, S.hasKids(b->name), "HAS_CHILDREN of " << showP(p)); int u = b->name == "INBOX" ? vn::folderAttributes::SPECIALUSE_INBOX : b->use == "\\Drafts" ? vn::folderAttributes::SPECIALUSE_DRAFTS : b->use == "\\Trash" ? vn::folderAttributes::SPECIALUSE_TRASH : b->use == "\\Sent" ? vn::folderAttributes::SPECIALUSE_SENT : vn::folderAttributes::SPECIALUSE_NONE; CHECK_EQ(at.getSpecialUse(), u, "special use of " << showP(p)); auto pr = f->getParent(); upath pp(p.begin(), p.end() - 1); CHECK_MSG(fromV(pr->getFullPath()) == pp, "getParent()"); } }
	for (auto& o : open) o.p->notes.size();
}
void world::openOps(openF& o) {
	auto& v = o.p->view; auto b = o.p->sel; snap before = take(S); unsigned k = (unsigned) s.weighted({ 4, 6, 6, 3, 5, 3, 3, 4, 3, 5, 4, 2, 3, 5, 3, 2 }); NOTE(c, "operation " << k << " in " << showP(o.path) << " (" << v.size() << " messages)"); c.mix(std::to_string(k)); std::string what = "operation";
	auto key = keyOf(*b); std::string sh; std::set<std::shared_ptr<imapMsg>> in; bool bad = false;
	switch (k) {
	case 0: { what = "getMessage()"; size_t n = s.draw(v.size() + 1); if (n < 1 || n > v.size()) { expectThrow("getMessage()", [&]() { o.f->getMessage(n); }); break; } hold(o, o.f->getMessage(n), v[n - 1]); break; }
	case 1: { what = "getMessages()"; messageSet ms = genSet(o, in, bad, sh); NOTE(c, "getMessages " << sh); if (bad) { expectThrow("getMessages()", [&]() { o.f->getMessages(ms); }); break; } std::vector<std::shared_ptr<imapMsg>> old = v; auto r = o.f->getMessages(ms); returned(o, r, in, "getMessages", sh); for (auto& m : r) { std::shared_ptr<imapMsg> x; for (auto& q : old) if (std::to_string(q->uid) == std::string(m->getUID())) x = q; if (!x && pending(o, old, m)) continue; CHECK_MSG(x && in.count(x), "getMessages(" << sh << ") returned a message with UID " << std::string(m->getUID())); in.erase(x); if (o.h.size() < 12) hold(o, m, x); } break; }
	case 2: { what = "fetchMessages()"; std::vector<shared_ptr<vn::message>> ms; std::vector<size_t> ix; for (size_t i = 0 ; i < o.h.size() ; ++i) if (live(o, o.h[i]) && s.coin()) { ms.push_back(o.h[i].m); ix.push_back(i); in.insert(o.h[i].x); } if (ms.empty()) break; bool fh; fetchAttributes a = genAttrs(fh); if (!a.has(fetchAttributes::SIZE | fetchAttributes::FLAGS | fetchAttributes::UID) && showA(a) == " PEEK") a.add(fetchAttributes::SIZE); NOTE(c, "fetchMessages" << showA(a)); o.f->fetchMessages(ms, a); bool body = (a.has(fetchAttributes::IMPORTANCE) || !a.getHeaderFields().empty()) && !fh && !a.has(fetchAttributes::PEEK); for (size_t i : ix) { held& h = o.h[i]; bool hadFull = h.fetched.count("full") != 0, hadPart = h.fetched.count("part") != 0; if (fh) h.fetched.insert("full"); else if (a.has(fetchAttributes::ENVELOPE) || a.has(fetchAttributes::IMPORTANCE) || !a.getHeaderFields().empty()) h.fetched.insert("part"); (void) hadPart; if (fh || !hadFull) checkFetched(h, a, fh); if (a.has(fetchAttributes::FLAGS)) { CHECK_EQ(h.m->getFlags(), toVF(h.x->flags), "getFlags()"); h.flagsKnown = true; } } if (body) { snap w = before; seen(o, w, in); same(w, "fetchMessages()"); if (!S.flagsOnFetch) marked(o, in); before = take(S); } c.label("fetchMessages"); break; }
	case 3: { what = "getAndFetchMessages()"; messageSet ms = genSet(o, in, bad, sh); bool fh; fetchAttributes a = genAttrs(fh); NOTE(c, "getAndFetchMessages " << sh << showA(a)); if (bad) { expectThrow("getAndFetchMessages()", [&]() { o.f->getAndFetchMessages(ms, a); }); break; } std::vector<std::shared_ptr<imapMsg>> old = v; auto r = o.f->getAndFetchMessages(ms, a); returned(o, r, in, "getAndFetchMessages", sh); bool body = (a.has(fetchAttributes::IMPORTANCE) || !a.getHeaderFields().empty()) && !fh && !a.has(fetchAttributes::PEEK); for (auto& m : r) { std::shared_ptr<imapMsg> x; for (auto& q : old) if (std::to_string(q->uid) == std::string(m->getUID())) x = q; if (!x && pending(o, old, m)) continue; CHECK_MSG(x && in.count(x), "getAndFetchMessages returned a message with UID " << std::string(m->getUID())); held h; h.m = m; h.x = x; checkFetched(h, a, fh); if (a.has(fetchAttributes::FLAGS)) { CHECK_EQ(m->getFlags(), toVF(x->flags), "getFlags()"); h.flagsKnown = true; } if (o.h.size() < 12) o.h.push_back(h); } snap w = before; if (body) { seen(o, w, in); if (!S.flagsOnFetch) marked(o, in); } same(w, "getAndFetchMessages()"); before = take(S); break; }
	case 4: case 5: { what = "setFlags()"; int fl = genFlags(s), mode = (int) s.pickInt({ vn::message::FLAG_MODE_SET, vn::message::FLAG_MODE_ADD, vn::message::FLAG_MODE_REMOVE }); bool one = k == 4; messageSet ms = messageSet::empty(); held* h = nullptr; if (one) { if (o.h.empty()) break; h = &o.h[s.draw(o.h.size() - 1)]; in.insert(h->x); sh = "UID " + std::to_string(h->x->uid); } else ms = genSet(o, in, bad, sh); NOTE(c, (one ? "setFlags " : "setMessageFlags ") << sh << " flags " << fl << " mode " << mode); auto doit = [&]() { if (one) h->m->setFlags(fl, mode); else o.f->setMessageFlags(ms, fl, mode); }; bool nothing = mode != vn::message::FLAG_MODE_SET && fl == 0; if (one && !live(o, *h)) { if (!nothing) expectThrow("setFlags() on an expunged message", doit); break; } if ((bad || o.ro) && !nothing) { expectThrow("setMessageFlags()", doit); break; } doit(); snap w = before; if (!nothing) for (auto& x : in) for (auto& m : w[key]) if (m.uid == x->uid) { auto f = fromVF(fl); if (mode == vn::message::FLAG_MODE_SET) m.flags = f; else for (auto& y : f) { if (mode == vn::message::FLAG_MODE_ADD) m.flags.insert(y); else m.flags.erase(y); } } same(w, "setFlags()"); before = w; c.label("flags set"); break; }
	case 6: { what = "deleteMessages()"; messageSet ms = genSet(o, in, bad, sh); NOTE(c, "deleteMessages " << sh); if (bad || o.ro) { expectThrow("deleteMessages()", [&]() { o.f->deleteMessages(ms); }); break; } o.f->deleteMessages(ms); snap w = before; for (auto& x : in) for (auto& m : w[key]) if (m.uid == x->uid) m.flags.insert("\\Deleted"); same(w, "deleteMessages()"); before = w; c.label("delete"); break; }
	case 7: { what = "expunge()"; if (o.ro) { expectThrow("expunge()", [&]() { o.f->expunge(); }); break; } o.f->expunge(); snap w = before; auto& q = w[key]; size_t n0 = q.size(); q.erase(std::remove_if(q.begin(), q.end(), [](const smsg& m) { return m.flags.count("\\Deleted") != 0; }), q.end()); same(w, "expunge()"); before = w; if (q.size() != n0) c.label("expunged"); break; }
	case 8: { what = "addMessage()"; auto t = newTree(); std::string raw = t->raw(); int fl = s.oneIn(3) ? -1 : genFlags(s); imapDate d = genDate(); bool hasD = s.coin(); vmime::datetime vd = toDT(d); messageSet r = messageSet::empty(); uint32_t un = b->uidNext; bool obj = s.oneIn(3) && !t->multi && !t->inner; shared_ptr<vmime::message> om; if (obj) { om = vmime::make_shared<vmime::message>(); om->parse(raw); std::string g; { strTo g1(g); om->generate(g1); } auto t2 = std::make_shared<imapPart>(*t); size_t e = g.find("\r\n\r\n"); CHECK_MSG(e != std::string::npos, "generated message without header"); t2->hdr = g.substr(0, e + 4); t2->body = g.substr(e + 4); for (auto& x : imapHeaders(t2->hdr)) if (lower(x.first) == "content-transfer-encoding") t2->enc = lower(trimWs(x.second)); raw = g; if (!S.known.count(g)) S.known[g] = t2; c.label("append of a message object"); } auto doit = [&]() { if (obj) r = o.f->addMessage(om, fl, hasD ? &vd : nullptr); else { chunkIn ci(raw, genCuts(s)); r = o.f->addMessage(ci, raw.size(), fl, hasD ? &vd : nullptr); } }; if (o.ro) { expectThrow("addMessage() to a read-only folder", doit); break; } doit(); snap w = before; smsg x; x.uid = un; x.flags = fromVF(fl); x.raw = raw; x.date = imapDateTime(hasD ? d : imapDate()); w[key].push_back(x); same(w, "addMessage()"); before = w; if (S.uidplus) { auto u = uidsOf(r); CHECK_MSG(u.size() == 1 && u[0] == un, "the set returned by addMessage()"); } else CHECK_MSG(r.isEmpty(), "the set returned by addMessage() without UIDPLUS"); c.label("append"); break; }
	case 9: { what = "extract()"; if (o.h.empty()) break; held& h = o.h[s.draw(o.h.size() - 1)]; bool peek = s.coin(); size_t len = h.x->raw.size(), st0 = s.coin() ? 0 : s.draw(len + 2), l = s.coin() ? (size_t) -1 : s.draw(len + 2); std::string got; NOTE(c, "extract UID " << h.x->uid << " from " << st0 << " length " << (long) l << (peek ? " peek" : "")); auto doit = [&]() { strTo os(got); h.m->extract(os, nullptr, st0, l, peek); }; if (!live(o, h)) { if (l) expectThrow("extract() of an expunged message", doit); break; } in.insert(h.x); try { doit(); } catch (const vmime::exceptions::message_not_found&) { if (live(o, h)) throw; c.label("expunged during an operation"); before = take(S); break; } std::string want = st0 >= len ? "" : h.x->raw.substr(st0, l); CHECK_EQ(got, want, "extract() of " << l << " bytes from " << st0); snap w = before; if (!peek && l) { seen(o, w, in); marked(o, in); } same(w, "extract()"); before = w; c.label("extract"); break; }
	case 10: { what = "extractPart()"; std::vector<held*> hs; for (auto& h : o.h) if (live(o, h)) hs.push_back(&h); if (hs.empty()) break; held& h = *hs[s.draw(hs.size() - 1)]; in.insert(h.x); try { o.f->fetchMessage(h.m, fetchAttributes(fetchAttributes::STRUCTURE)); auto part = h.m->getStructure()->getPartAt(0); const imapPart* t = h.x->tree.get(); std::string where = "1"; while (!t->kids.empty() && s.draw(3)) { size_t i = s.draw(t->kids.size() - 1); part = part->getStructure()->getPartAt(i); t = &t->kids[i]; where += "." + std::to_string(i + 1); } bool peek = s.coin(); if (s.oneIn(4)) { h.m->fetchPartHeader(part); CHECK_EQ(genH(*part->getHeader()), refHdr(t->hdr), "header of part " << where); peek = true; } else { std::string full = t->hdr + t->body, got; size_t st0 = s.coin() ? 0 : s.coin() ? s.draw(full.size() + 2) : t->hdr.size() - s.draw(1) + s.draw(1), l = s.coin() ? (size_t) -1 : s.draw(full.size() + 2); NOTE(c, "extractPart " << where << " from " << st0 << " length " << (long) l); { strTo os(got); h.m->extractPart(part, os, nullptr, st0, l, peek); } CHECK_EQ(got, st0 >= full.size() ? std::string() : full.substr(st0, l), "extractPart() of part " << where << " from " << st0 << ", " << (long) l << " bytes"); } snap now = take(S), w = before; snap w2 = before; seen(o, w2, in); if (peek) same(w, "extractPart()"); else { CHECK_MSG(now == w || now == w2, "mailboxes after extractPart()"); marked(o, in); } before = now; c.label("extractPart"); } catch (const vmime::exceptions::message_not_found&) { if (live(o, h)) throw; c.label("expunged during an operation"); before = take(S); } break; }
	case 11: { what = "getParsedMessage()"; std::vector<held*> hs; for (auto& h : o.h) if (live(o, h)) hs.push_back(&h); if (hs.empty()) break; held& h = *hs[s.draw(hs.size() - 1)]; in.insert(h.x); try { auto m = h.m->getParsedMessage(); checkParsed(*m, *h.x->tree, "1"); marked(o, in); before = take(S); c.label("getParsedMessage"); } catch (const vmime::exceptions::message_not_found&) { if (live(o, h)) throw; c.label("expunged during an operation"); before = take(S); } break; }
	case 12: { what = "copyMessages()"; messageSet ms = genSet(o, in, bad, sh); upath d = s.draw(5) ? anyPath() : genPath(false); auto db = box(d); NOTE(c, "copyMessages " << sh << " to " << showP(d)); messageSet r = messageSet::empty(); auto doit = [&]() { r = o.f->copyMessages(toV(d), ms); }; if (bad || !db || db->noselect) { expectThrow("copyMessages()", doit); break; } size_t n0 = db->msgs.size(); std::vector<smsg> add; for (auto& x : v) if (in.count(x)) add.push_back({ 0, x->flags, x->raw, imapDateTime(x->date) }); doit(); snap w = before; std::vector<uint32_t> nu; for (size_t i = 0 ; i < add.size() ; ++i) { if (n0 + i < db->msgs.size()) add[i].uid = db->msgs[n0 + i]->uid; nu.push_back(add[i].uid); w[keyOf(*db)].push_back(add[i]); } same(w, "copyMessages()"); before = w; if (S.uidplus && !add.empty()) { auto u = uidsOf(r); CHECK_MSG(u == nu, "the set returned by copyMessages()"); } c.label("copy"); break; }
	case 13: { what = "search"; auto f = vmime::dynamicCast<vn::imap::IMAPFolder>(o.f); bool eight = s.oneIn(3), uid = s.coin(); std::vector<shared_ptr<const vn::imap::IMAPSearchToken>> toks; imapKey k2; k2.op = "AND"; unsigned n = 1 + (unsigned) s.draw(2); bool sb = false; for (unsigned i = 0 ; i < n ; ++i) { searchTok t = genTok(s, v, 2, eight); k2.kids.push_back(t.k); toks.push_back(t.t); sb = sb || t.bad; } vn::imap::IMAPSearchAttributes at(std::move(toks)); NOTE(c, "search" << (uid ? " UIDs" : "") << ": " << showK(k2)); vmime::charset cs("UTF-8"); std::vector<uint64_t> want, got; for (size_t i = 0 ; i < v.size() ; ++i) if (imapMatch(k2, *v[i], i + 1, v.size(), v.back()->uid)) want.push_back(uid ? v[i]->uid : i + 1); auto doit = [&]() { if (uid) { for (auto& u : f->getMessageUIDsMatchingSearchAttributes(at, eight ? &cs : nullptr)) got.push_back(std::stoull(std::string(u))); } else for (size_t q : f->getMessageNumbersMatchingSearchAttributes(at, eight ? &cs : nullptr)) got.push_back(q); }; if (sb) { expectThrow("search", doit); break; } doit(); std::sort(got.begin(), got.end()); CHECK_MSG(got == want, "search " << showK(k2) << " returned " << got.size() << " messages, expected " << want.size()); c.label(want.empty() ? "search: none" : "search: some"); break; }
	case 14: { what = "getMessageNumbersStartingOnUID()"; uint32_t u = v.empty() || s.oneIn(4) ? (uint32_t) (b->uidNext + s.draw(1)) : v[s.draw(v.size() - 1)]->uid + (uint32_t) s.draw(1); std::vector<size_t> want; for (size_t i = 0 ; i < v.size() ; ++i) if (v[i]->uid >= u) want.push_back(i + 1); auto got = o.f->getMessageNumbersStartingOnUID(vn::message::uid(u)); CHECK_MSG(got == want, "getMessageNumbersStartingOnUID(" << u << ") returned " << got.size() << " messages, expected " << want.size()); break; }
	default: { what = "getStatus()"; auto t = o.f->getStatus(); CHECK_EQ(t->getMessageCount(), b->msgs.size(), "status: messages"); size_t un = 0; for (auto& m : b->msgs) un += !m->flags.count("\\Seen"); CHECK_EQ(t->getUnseenCount(), un, "status: unseen"); } }
	faults(what.c_str()); same(before, what.c_str()); sync(o, what.c_str());
}
void world::go() {
	S.rs = s.draw(1000000); S.sep = s.pick({ "/", ".", "/", "\\", "^" })[0]; S.nilSep = s.oneIn(10); if (S.nilSep) S.sep = '/'; S.early = s.oneIn(3); S.uidInFetch = s.coin(); S.condstore = s.oneIn(3); S.uidplus = s.draw(3) != 0; S.children = s.draw(3) != 0; S.specialUse = s.coin(); S.capsInGreeting = s.coin(); S.preauth = s.oneIn(5); S.alwaysExists = s.coin(); S.literals = s.coin(); S.junk = s.coin(); S.lowerNames = s.coin(); S.quotedBody = s.coin(); S.flagsOnFetch = s.draw(4) != 0; cuts = genNetCuts(s);
	S.make("INBOX"); unsigned nb = (unsigned) s.draw(4); for (unsigned i = 0 ; i < nb ; ++i) { upath p = genPath(false); if (box(p)) continue; std::string n = wireName(p, S); imapPeer tmp(S); tmp.create(n); auto b = S.find(n); if (s.oneIn(8)) b->noselect = true; else if (s.oneIn(6)) b->readOnly = true; else if (s.oneIn(6) && S.specialUse) b->use = s.pick({ "\\Drafts", "\\Trash", "\\Sent" }); if (s.oneIn(8) && !S.hasKids(n)) b->noinferiors = true; }
	for (auto& b : S.boxes) if (!b.second->noselect) { unsigned n = b.first == "INBOX" ? (unsigned) s.draw(6) : (unsigned) s.draw(2); for (unsigned i = 0 ; i < n ; ++i) addMsg(*b.second); }
	vmime::propertySet props; props["store.protocol"] = "imap"; props["store.imap.server.address"] = "imap.example"; props["store.imap.auth.username"] = "user"; props["store.imap.auth.password"] = "secret"; props["store.imap.options.sasl"] = false; sess = vn::session::create(props); st = sess->getStore();
	st->setSocketFactory(vmime::make_shared<netSocketFactory>([&]() { auto p = std::make_shared<imapPeer>(S); p->cuts = cuts; conns.push_back(p); return std::static_pointer_cast<netPeer>(p); })); st->setTimeoutHandlerFactory(vmime::make_shared<netTimeoutFactory>());
	NOTE(c, "server: separator " << (S.nilSep ? "NIL" : std::string(1, S.sep)) << (S.condstore ? " CONDSTORE" : "") << (S.uidplus ? " UIDPLUS" : "") << (S.children ? " CHILDREN" : "") << (S.specialUse ? " SPECIAL-USE" : "") << "; mailboxes " << showS(take(S)) << "; reads " << pbt::show(cuts)); c.mix(showS(take(S)) + pbt::show(cuts));
	st->connect(); faults("connect()"); CHECK_MSG(st->isConnected(), "not connected"); unsigned ops = 1 + (unsigned) s.draw(14); unsigned did = 0;
	for (unsigned i = 0 ; i < ops ; ++i) {
		switch (s.weighted({ open.empty() ? 8u : 3u, open.empty() ? 6u : 0u, open.empty() ? 0u : 16u, open.size() == 1 ? 1u : 0u, open.empty() ? 0u : 2u, 3, 2 })) {
		case 0: folderOps(); ++did; break;
		case 1: case 3: { upath p = s.draw(2) ? upath(1, "INBOX") : s.draw(4) ? anyPath() : genPath(false); auto b = box(p); bool rw = s.draw(3) != 0, fail = s.coin(); NOTE(c, "open " << showP(p) << (rw ? " read-write" : " read-only") << (fail ? ", fails if not available" : "")); auto f = st->getFolder(toV(p)); size_t nc = conns.size(); auto doit = [&]() { f->open(rw ? vn::folder::MODE_READ_WRITE : vn::folder::MODE_READ_ONLY, fail); }; snap before = take(S); if (isOpen(p) || !b || b->noselect || (rw && fail && b->readOnly)) { expectThrow("open()", doit); CHECK_MSG(!f->isOpen(), "open after a failed open()"); for (size_t q = nc ; q < conns.size() ; ++q) CHECK_EQ(conns[q]->connects, conns[q]->disconnects, "connections left open by a failed open()"); c.label("open refused"); break; }
			open.emplace_back(); openF& o = open.back(); o.f = f; o.path = p; o.l = std::make_unique<listener>(); doit(); o.p = conns.back(); o.ro = !rw || b->readOnly; CHECK_MSG(f->isOpen(), "not open"); CHECK_EQ(f->getMode(), o.ro ? (int) vn::folder::MODE_READ_ONLY : (int) vn::folder::MODE_READ_WRITE, "getMode()"); o.cnt = o.p->view.size(); CHECK_EQ(f->getMessageCount(), o.cnt, "getMessageCount() after open()"); auto imf = vmime::dynamicCast<vn::imap::IMAPFolder>(f); CHECK_EQ(imf->getUIDValidity(), b->uidValidity, "getUIDValidity()"); if (S.condstore) CHECK_EQ(imf->getHighestModSequence(), b->modseq, "getHighestModSequence()"); f->addMessageCountListener(o.l.get()); f->addMessageChangedListener(o.l.get()); same(before, "open()"); { auto at = f->getAttributes(); int u = b->name == "INBOX" ? vn::folderAttributes::SPECIALUSE_INBOX : b->use == "\\Drafts" ? vn::folderAttributes::SPECIALUSE_DRAFTS : b->use == "\\Trash" ? vn::folderAttributes::SPECIALUSE_TRASH : b->use == "\\Sent" ? vn::folderAttributes::SPECIALUSE_SENT : vn::folderAttributes::SPECIALUSE_NONE; CHECK_EQ(at.getSpecialUse(), u, "special use after open()"); } ++did; c.label(o.ro ? "open read-only" : "open read-write"); break; }
		case 2: openOps(open.size() > 1 && s.coin() ? open.back() : open.front()); ++did; break;
		case 4: { bool last = s.coin(); auto it = last ? std::prev(open.end()) : open.begin(); openF& o = *it; bool ex = s.coin(); snap w = take(S); NOTE(c, "close(" << ex << ") of " << showP(o.path)); auto b = o.p->sel; if (ex && o.ro) { expectThrow("close(true) of a read-only folder", [&]() { o.f->close(true); }); CHECK_MSG(o.f->isOpen(), "closed"); same(w, "a refused close()"); break; } o.f->close(ex); if (ex) { auto& q = w[keyOf(*b)]; q.erase(std::remove_if(q.begin(), q.end(), [](const smsg& m) { return m.flags.count("\\Deleted") != 0; }), q.end()); } same(w, "close()"); CHECK_MSG(!o.f->isOpen(), "still open"); CHECK_EQ(o.p->connects, o.p->disconnects, "connection after close()"); for (auto& h : o.h) { std::string g; expectThrow("extract() after close()", [&]() { strTo os(g); h.m->extract(os); }); } bool reuse = s.coin(); open.erase(it); (void) reuse; c.label("close"); break; }
		case 5: other(); break;
		default: { NOTE(c, "noop"); st->noop(); break; } }
		faults("operation"); for (auto& o : open) sync(o, "the operation");
	}
	NOTE(c, "end"); if (s.coin()) for (auto& o : open) { snap w = take(S); o.f->close(false); same(w, "close(false)"); open.size(); } if (s.coin()) { open.clear(); st->disconnect(); CHECK_MSG(!st->isConnected(), "still connected"); } faults("disconnect()"); if (did) c.nontrivial();
}
static void run(Source& s, Ctx& c) { std::unique_ptr<world> w(new world(s, c)); struct fin { std::unique_ptr<world>& w; ~fin() { w->open.clear(); w->st.reset(); } } f{ w }; w->go(); }
Property makeProperty() {
	Property p; p.id = "C29"; p.rule = "the client completed at least one folder operation, an open or an operation in an open folder"; p.run = run; p.quick = 40000; p.thorough = 1500000; p.init = installPlatform; p.mutatePct = 30;
	p.probes.push_back({ "KF-imap-plus-minus", "IMAPUtils::fromModifiedUTF7() takes \"+-\" for \"+\": a mailbox whose name contains \"+-\" is shown, and then addressed, without the \"-\" (pinned by IMAPUtilsTest::testFromModifiedUTF7)", [](Ctx&) { CHECK_EQ(vn::imap::IMAPUtils::fromModifiedUTF7("a+-b").getConvertedText(vmime::charset("utf-8")), std::string("a+-b"), "name"); } });
	p.probes.push_back({ "KF-imap-content-info", "fetchAttributes::CONTENT_INFO asks an IMAP server for the header field CONTENT_TYPE, which does not exist, instead of CONTENT-TYPE (pinned by IMAPUtilsTest::testBuildFetchCommand)", [](Ctx&) { std::string q = vn::imap::IMAPUtils::buildFetchCommand(nullptr, vn::messageSet::byNumber(1), fetchAttributes(fetchAttributes::CONTENT_INFO))->getText(); for (auto& ch : q) ch = (char) toupper(ch); CHECK_MSG(q.find("CONTENT-TYPE") != std::string::npos, "command " << q); } });
	return p;
}
