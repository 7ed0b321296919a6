// C28: the IMAP response reader: total on any bytes, exact on responses of the grammar, whatever the fragmentation.
// OWN-COVERAGE (the parser is a header)
#include "net.hpp"
#include "vmime/net/imap/IMAPParser.hpp"
#include "vmime/net/imap/IMAPTag.hpp"
using namespace vmime::net; typedef imap::IMAPParser P; typedef std::string S;

// ---- canonical text of a parsed response
static S q(const S& s) { return "'" + pbt::esc(s) + "'"; }
static S n(unsigned long long v) { return std::to_string(v); }
static S d(const P::xstring* s) { return !s ? S("-") : s->isNIL ? S("NIL") : q(s->value); }
static S d(const P::number* v) { return v ? n(v->value) : S("-"); }
static S d(const P::seq_number* v) { return !v ? S("-") : v->star ? S("*") : d(v->number.get()); }
static S d(const P::uid_set* v) { S r; for (; v ; v = v->next_uid_set.get()) { if (!r.empty()) r += ","; if (v->uid_range) r += d(v->uid_range->uniqueid1.get()) + ":" + d(v->uid_range->uniqueid2.get()); else r += d(v->uniqueid.get()); } return r; }
static S d(const P::sequence_set* v) { S r; for (; v ; v = v->nextSet.get()) { if (!r.empty()) r += ","; if (v->range) r += d(v->range->first.get()) + ":" + d(v->range->last.get()); else r += d(v->number.get()); } return r; }
static S d(const P::flag* f) { switch (f->type) { case P::flag::UNKNOWN: return "\\" + f->name; case P::flag::ANSWERED: return "\\answered"; case P::flag::FLAGGED: return "\\flagged"; case P::flag::DELETED: return "\\deleted"; case P::flag::SEEN: return "\\seen"; case P::flag::DRAFT: return "\\draft"; case P::flag::STAR: return "\\*"; default: return f->flag_keyword ? f->flag_keyword->value : S("-"); } }
static S d(const P::flag_list* l) { if (!l) return "-"; S r = "("; for (auto& f : l->flags) r += d(f.get()) + " "; return r + ")"; }
static S d(const P::mailbox* m) { return !m ? S("-") : (m->type == P::mailbox::INBOX ? S("INBOX!") : S()) + q(m->name); }
static S d(const P::mailbox_flag* f) { typedef P::mailbox_flag F; switch (f->type) { case F::HASCHILDREN: return "\\haschildren"; case F::HASNOCHILDREN: return "\\hasnochildren"; case F::SPECIALUSE_ALL: return "\\all"; case F::SPECIALUSE_ARCHIVE: return "\\archive"; case F::SPECIALUSE_DRAFTS: return "\\drafts"; case F::SPECIALUSE_FLAGGED: return "\\flagged"; case F::SPECIALUSE_JUNK: return "\\junk"; case F::SPECIALUSE_SENT: return "\\sent"; case F::SPECIALUSE_TRASH: return "\\trash"; case F::SPECIALUSE_IMPORTANT: return "\\important"; case F::MARKED: return "\\marked"; case F::NOINFERIORS: return "\\noinferiors"; case F::NOSELECT: return "\\noselect"; case F::UNMARKED: return "\\unmarked"; default: return "?" + f->name; } }
static S d(const P::mailbox_flag_list* l) { if (!l) return "-"; S r = "("; for (auto& f : l->flags) r += d(f.get()) + " "; return r + ")"; }
static S d(const P::mailbox_list* l) { if (!l) return "-"; return d(l->mailbox_flag_list.get()) + " " + q(S(1, l->quoted_char)) + " " + d(l->mailbox.get()); }
static S d(const P::capability_data* c) { if (!c) return "-"; S r = "CAP("; for (auto& x : c->capabilities) r += x->auth_type ? "AUTH=" + x->auth_type->name + (x->auth_type->type == P::auth_type::KERBEROS_V4 ? "!k" : x->auth_type->type == P::auth_type::GSSAPI ? "!g" : x->auth_type->type == P::auth_type::SKEY ? "!s" : "") + " " : (x->atom ? x->atom->value : S("-")) + " "; return r + ")"; }
static S d(const P::status_att_list* l) { if (!l) return "-"; static const char* const N[] = { "HIGHESTMODSEQ", "MESSAGES", "RECENT", "UIDNEXT", "UIDVALIDITY", "UNSEEN" }; S r = "("; for (auto& v : l->values) { r += S(N[v->type]) + " "; if (v->type == P::status_att_val::HIGHESTMODSEQ) r += v->value_as_mod_sequence_value() ? n(v->value_as_mod_sequence_value()->value) : S("-"); else r += d(v->value_as_number()); r += " "; } return r + ")"; }
static S d(const P::address_list* l) { if (!l) return "-"; S r = "("; for (auto& a : l->addresses) r += "[" + d(a->addr_name.get()) + " " + d(a->addr_adl.get()) + " " + d(a->addr_mailbox.get()) + " " + d(a->addr_host.get()) + "]"; return r + ")"; }
static S d(const P::envelope* e) { if (!e) return "-"; return "ENV(" + d(e->env_date.get()) + " " + d(e->env_subject.get()) + " " + d(e->env_from.get()) + d(e->env_sender.get()) + d(e->env_reply_to.get()) + d(e->env_to.get()) + d(e->env_cc.get()) + d(e->env_bcc.get()) + " " + d(e->env_in_reply_to.get()) + " " + d(e->env_message_id.get()) + ")"; }
static S d(const P::body_fld_param* p) { if (!p) return "-"; S r = "("; for (auto& i : p->items) r += q(i->string1->value) + "=" + q(i->string2->value) + " "; return r + ")"; }
static S d(const P::body_fld_dsp* p) { return !p ? S("-") : p->str() ? q(p->str()->value) + d(p->body_fld_param()) : S("NIL"); }
static S d(const P::body_fld_lang* p) { if (!p) return "-"; S r = "("; for (auto& i : p->strings) r += d(i.get()) + " "; return r + ")"; }
static S d(const P::body_extension* e) { if (e->number) return d(e->number.get()); if (e->nstring) return d(e->nstring.get()); S r = "("; for (auto& i : e->body_extensions) r += d(i.get()) + " "; return r + ")"; }
template <class V> static S dx(const V& v) { S r = "X("; for (auto& i : v) r += d(i.get()) + " "; return r + ")"; }
static S d(const P::body_fields* f) { return !f ? S("-") : d(f->body_fld_param.get()) + " " + d(f->body_fld_id.get()) + " " + d(f->body_fld_desc.get()) + " " + q(f->body_fld_enc->value) + " " + d(f->body_fld_octets.get()); }
static S d(const P::xbody* b) {
	if (!b) return "-"; S r = "{";
	if (auto m = b->body_type_mpart.get()) { r += "multipart "; for (auto& i : m->list) r += d(i.get()); r += " " + q(m->media_subtype->value); if (auto e = m->body_ext_mpart.get()) r += " " + d(e->body_fld_param.get()) + " " + d(e->body_fld_dsp.get()) + " " + d(e->body_fld_lang.get()) + " " + dx(e->body_extensions); else r += " - - - X()"; return r + "}"; }
	auto o = b->body_type_1part.get(); if (!o) return "{?}";
	if (auto t = o->body_type_text.get()) r += "text " + q(t->media_text->media_subtype->value) + " " + d(t->body_fields.get()) + " " + d(t->body_fld_lines.get());
	else if (auto t = o->body_type_msg.get()) r += "message " + q(t->media_message->media_subtype->value) + " " + d(t->body_fields.get()) + " " + d(t->envelope.get()) + " " + d(t->body.get()) + " " + d(t->body_fld_lines.get());
	else if (auto t = o->body_type_basic.get()) r += "basic " + q(t->media_basic->media_type->value) + " " + q(t->media_basic->media_subtype->value) + " " + d(t->body_fields.get());
	if (auto e = o->body_ext_1part.get()) r += " " + d(e->body_fld_md5.get()) + " " + d(e->body_fld_dsp.get()) + " " + d(e->body_fld_lang.get()) + " " + dx(e->body_extensions); else r += " - - - X()"; return r + "}";
}
static S d(const P::section_text* t) { if (!t) return "-"; static const char* const N[] = { "HEADER", "HEADER.FIELDS", "HEADER.FIELDS.NOT", "MIME", "TEXT" }; S r = N[t->type]; if (t->header_list) { r += "("; for (auto& f : t->header_list->fld_names) r += q(f->value) + " "; r += ")"; } return r; }
static S d(const P::section* s) { if (!s) return "-"; S r = "["; for (auto x : s->nz_numbers) r += n(x) + "."; if (s->section_text1) r += d(s->section_text1.get()); if (s->section_text2) r += d(s->section_text2.get()); return r + "]"; }
static S d(const P::msg_att_item* i) {
	switch (i->type) {
	case P::msg_att_item::ENVELOPE: return d(i->envelope.get()); case P::msg_att_item::FLAGS: return "FLAGS" + d(i->flag_list.get()); case P::msg_att_item::INTERNALDATE: return i->date_time ? "DATE" : "-";
	case P::msg_att_item::RFC822: return "RFC822 " + d(i->nstring.get()); case P::msg_att_item::RFC822_SIZE: return "SIZE " + d(i->number.get()); case P::msg_att_item::RFC822_HEADER: return "RFC822.HEADER " + d(i->nstring.get()); case P::msg_att_item::RFC822_TEXT: return "RFC822.TEXT " + d(i->nstring.get());
	case P::msg_att_item::BODY: return "BODY" + d(i->body.get()); case P::msg_att_item::BODY_STRUCTURE: return "BODYSTRUCTURE" + d(i->body.get()); case P::msg_att_item::BODY_SECTION: return "BODY" + d(i->section.get()) + "<" + d(i->number.get()) + "> " + d(i->nstring.get());
	case P::msg_att_item::UID: return "UID " + d(i->uniqueid.get()); case P::msg_att_item::MODSEQ: return "MODSEQ " + (i->mod_sequence_value ? n(i->mod_sequence_value->value) : S("-"));
	} return "?";
}
static S d(const P::resp_text_code* c) {
	typedef P::resp_text_code C; S num = d(c->nz_number.get());
	switch (c->type) {
	case C::HIGHESTMODSEQ: return "HIGHESTMODSEQ " + n(c->mod_sequence_value->value); case C::NOMODSEQ: return "NOMODSEQ"; case C::MODIFIED: return "MODIFIED " + d(c->sequence_set.get()); case C::APPENDUID: return "APPENDUID " + num + " " + d(c->uid_set.get()); case C::COPYUID: return "COPYUID " + num + " " + d(c->uid_set.get()) + " " + d(c->uid_set2.get());
	case C::UIDNOTSTICKY: return "UIDNOTSTICKY"; case C::ALERT: return "ALERT"; case C::PARSE: return "PARSE"; case C::CAPABILITY: return d(c->capability_data.get()); case C::PERMANENTFLAGS: return "PERMANENTFLAGS" + d(c->flag_list.get()); case C::READ_ONLY: return "READ-ONLY"; case C::READ_WRITE: return "READ-WRITE"; case C::TRYCREATE: return "TRYCREATE";
	case C::UIDVALIDITY: return "UIDVALIDITY " + num; case C::UIDNEXT: return "UIDNEXT " + num; case C::UNSEEN: return "UNSEEN " + num; default: return "OTHER " + (c->atom ? c->atom->value : S("-")) + " " + (c->text ? q(c->text->value) : S("-"));
	}
}
static S d(const P::resp_text* t) { return !t ? S("-") : "[" + (t->resp_text_code ? d(t->resp_text_code.get()) : S()) + "]" + q(t->text); }
static S d(const P::resp_cond_state* s) { return S(s->status == P::resp_cond_state::OK ? "OK" : s->status == P::resp_cond_state::NO ? "NO" : "BAD") + d(s->resp_text.get()); }
static S d(const P::response_data* r) {
	if (r->resp_cond_state) return d(r->resp_cond_state.get()); if (r->resp_cond_bye) return "BYE" + d(r->resp_cond_bye->resp_text.get());
	if (auto m = r->mailbox_data.get()) switch (m->type) {
	case P::mailbox_data::FLAGS: return "FLAGS" + d(m->mailbox_flag_list.get()); case P::mailbox_data::LIST: return "LIST" + d(m->mailbox_list.get()); case P::mailbox_data::LSUB: return "LSUB" + d(m->mailbox_list.get()); case P::mailbox_data::MAILBOX: return "MAILBOX " + (m->text ? q(m->text->value) : S("-")); case P::mailbox_data::SEARCH: { S x = "SEARCH("; for (auto& v : m->search_nz_number_list) x += n(v->value) + " "; return x + ")"; }
	case P::mailbox_data::STATUS: return "STATUS " + d(m->mailbox.get()) + d(m->status_att_list.get()); case P::mailbox_data::EXISTS: return "EXISTS " + d(m->number.get()); case P::mailbox_data::RECENT: return "RECENT " + d(m->number.get()); }
	if (auto m = r->message_data.get()) { if (m->type == P::message_data::EXPUNGE) return "EXPUNGE " + n(m->number); S x = "FETCH " + n(m->number) + "("; for (auto& i : m->msg_att->items) x += d(i.get()) + "|"; return x + ")"; }
	if (r->capability_data) return d(r->capability_data.get()); return "?";
}
static S d(const P::response* r) {
	S x; for (auto& c : r->continue_req_or_response_data) x += c->continue_req ? "+" + d(c->continue_req->resp_text.get()) + "\n" : c->response_data ? d(c->response_data.get()) + "\n" : S("?\n");
	if (!r->response_done) x += "(partial)"; else if (auto t = r->response_done->response_tagged.get()) x += t->tag->tagString + " " + d(t->resp_cond_state.get()); else if (auto f = r->response_done->response_fatal.get()) x += "FATAL" + d(f->resp_cond_bye->resp_text.get()); return x + (r->isBad() ? " bad" : "");
}
static S d(const P::greeting* g) { if (g->resp_cond_auth) return S(g->resp_cond_auth->condition == P::resp_cond_auth::OK ? "OK" : "PREAUTH") + d(g->resp_cond_auth->resp_text.get()); return "BYE" + (g->resp_cond_bye ? d(g->resp_cond_bye->resp_text.get()) : S("?")); }

// ---- generator: writes the wire text and what it means
struct Gen {
	Source& s; bool strict; S w; S x; size_t depth = 0, literals = 0; bool handler = false; std::vector<S> handled; bool handleNext = false; std::vector<char> plan;
	Gen(Source& src, bool st) : s(src), strict(st) { }
	void lit(const S& t) { for (char ch : t) w += s.oneIn(6) && isalpha((unsigned char) ch) ? (char) (ch ^ 32) : ch; }  // a keyword, in any case
	void sp() { w += " "; }
	static bool quotable(const S& v) { for (unsigned char ch : v) if (ch == 0 || ch > 0x7f || ch == '\r' || ch == '\n') return false; return true; }
	S value() { switch (s.draw(7)) { case 0: return ""; case 1: return s.pick({ "NIL", "nil", "INBOX", "a\\b\"c", "\\\\", "\"", "{3}", "text/plain", "(", "a b", ")", "a]b", "[", "us-ascii", "=?utf-8?Q?x?=", "~peter", "\\" }); case 2: return s.str(12, "ab\r\n{}()\"\\ ]*%\xc3\xa9\t"); case 3: { S r; size_t k = s.size(40); for (size_t i = 0 ; i < k ; ++i) r += (char) (1 + s.draw(254)); return r; } case 4: if (s.oneIn(20)) return S(s.sizeNear(9000, { 4000, 8000, 4096 }), 'k') + "\r\n"; return s.str(30, "abc=./-01 "); default: return s.str(10, "abcdefgh0123.-_@"); } }
	void str(const S& v, bool noLiteral = false) { if (quotable(v) && (noLiteral || !s.oneIn(4))) { w += '"'; for (char ch : v) { if (ch == '"' || ch == '\\') w += '\\'; w += ch; } w += '"'; } else { w += "{" + n(v.size()) + "}\r\n" + v; ++literals; } }
	S string() { S v = value(); str(v); return q(v); }
	S nstring() { if (s.oneIn(4)) { lit("NIL"); return "NIL"; } return string(); }
	S astring(const S& v) { bool ok = !v.empty() && !s.oneIn(3); for (unsigned char ch : v) if (ch <= 0x20 || ch >= 0x7f || strchr("(){%*\"\\", ch) || (strict && ch == ']')) ok = false; if (ok) w += v; else str(v); return v; }
	S atomText() { static const char A[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.$!#&'+,/:;<=>?@[^`|}~"; return s.str(1, A).size() ? S(1, A[s.draw(50)]) + s.str(8, A) : S("a"); }
	unsigned long number(bool nz = false) { unsigned long v = s.draw(3) == 0 ? s.pick(std::vector<unsigned long>{ 1, 9, 10, 255, 65536, 2147483647, 2147483648ul, 4294967295ul }) : s.draw(300); if (nz && v == 0) v = 1; w += std::to_string(v); return v; }
	unsigned long long modseq() { unsigned long long v = s.coin() ? s.pick(std::vector<unsigned long long>{ 1, 4294967296ull, 9223372036854775807ull, 18446744073709551615ull }) : 1 + s.draw(100000); w += std::to_string(v); return v; }
	S flag(bool perm) { switch (s.draw(perm ? 4 : 3)) { case 0: { S k = atomText(); w += k; return k; } case 1: { S k = s.pick({ "Recent", "XYZ", "Answeredx", "See" }); w += "\\" + k; return "\\" + lower(k); } case 4: w += "\\*"; return "\\*"; default: { S k = s.pick({ "Answered", "Flagged", "Deleted", "Seen", "Draft" }); w += "\\"; lit(k); return "\\" + lower(k); } } }
	S flagList(bool perm = false) { w += "("; S r = "("; size_t k = s.size(6); for (size_t i = 0 ; i < k ; ++i) { if (i) sp(); r += flag(perm) + " "; } w += ")"; return r + ")"; }
	S mbxFlag() { switch (s.draw(3)) { case 0: { S k = atomText(); w += k; return "?" + lower(k); } case 1: { S k = s.pick({ "Subscribed", "XYZ", "Noselectx", "Al", "Remote" }); w += "\\" + k; return "?\\" + lower(k); } default: { S k = s.pick({ "HasChildren", "HasNoChildren", "All", "Archive", "Drafts", "Flagged", "Junk", "Sent", "Trash", "Important", "Marked", "Noinferiors", "Noselect", "Unmarked" }); w += "\\"; lit(k); return "\\" + lower(k); } } }
	S mbxFlags() { w += "("; S r = "("; size_t k = s.size(6); for (size_t i = 0 ; i < k ; ++i) { if (i) sp(); r += mbxFlag() + " "; } w += ")"; return r + ")"; }
	S mailbox() { if (s.oneIn(4)) { S v = s.pick({ "INBOX", "inbox", "InBoX" }); astring(v); return "INBOX!'INBOX'"; } S v = s.oneIn(4) ? s.pick({ "INBOX/a", "INBOX[1]", "xINBOX", "INBO", "NIL", "inbox.sub" }) : value(); if (lower(v) == "inbox") v += "x"; astring(v); return q(v); }
	S caps() { lit("CAPABILITY"); S r = "CAP("; size_t k = 1 + s.size(6); for (size_t i = 0 ; i < k ; ++i) { sp(); if (s.oneIn(3)) { S m = s.pick({ "PLAIN", "CRAM-MD5", "KERBEROS_V4", "GSSAPI", "SKEY", "XOAUTH2", "SCRAM-SHA-1" }); lit("AUTH"); w += "="; lit(m); S l = lower(m); r += "AUTH=" + l + (l == "kerberos_v4" ? "!k" : l == "gssapi" ? "!g" : l == "skey" ? "!s" : "") + " "; } else { S a = s.coin() ? s.pick({ "IMAP4rev1", "STARTTLS", "AUTH", "AUT=x", "CONDSTORE", "NAMESPACE", "LITERAL+", "AUTHX=PLAIN" }) : atomText(); if (lower(a).substr(0, 5) == "auth=") a = "x" + a; w += a; r += a + " "; } } return r + ")"; }
	S uidRange() { unsigned long a = number(true); if (s.oneIn(3)) { w += ":"; unsigned long b = number(true); return n(a) + ":" + n(b); } return n(a); }
	S uidSet() { S r = uidRange(); size_t k = s.size(4); for (size_t i = 0 ; i < k ; ++i) { w += ","; r += "," + uidRange(); } return r; }
	S seqNum() { if (s.oneIn(5)) { w += "*"; return "*"; } return n(number(true)); }
	S seqSet() { S r; size_t k = 1 + s.size(4); for (size_t i = 0 ; i < k ; ++i) { if (i) { w += ","; r += ","; } r += seqNum(); if (s.oneIn(3)) { w += ":"; r += ":" + seqNum(); } } return r; }
	S text() { S t = s.coin() ? s.pick({ "done", "Completed.", "go ahead (x)", "]", "user \"x\" {3}", "1 EXISTS", "NIL", "a] b" }) : s.str(30, "abcd ()[]{}\"\\*%.0"); if (!strict && s.oneIn(4)) t += "\xc3\xa9"; while (!t.empty() && (t[0] == ' ' || t[0] == '[' || t[0] == '=')) t.erase(0, 1); if (t.empty()) t = "x"; return t; }
	S respText() {
		S code; size_t at = w.size(); (void) at;
		if (s.oneIn(2)) {
			w += "["; switch (s.draw(15)) {
			case 0: lit("ALERT"); code = "ALERT"; break; case 1: lit("PARSE"); code = "PARSE"; break; case 2: code = caps(); break; case 3: lit("PERMANENTFLAGS"); sp(); code = "PERMANENTFLAGS" + flagList(true); break;
			case 4: lit("READ-ONLY"); code = "READ-ONLY"; break; case 5: lit("READ-WRITE"); code = "READ-WRITE"; break; case 6: lit("TRYCREATE"); code = "TRYCREATE"; break; case 7: lit("UIDVALIDITY"); sp(); code = "UIDVALIDITY " + n(number(true)); break;
			case 8: lit("UIDNEXT"); sp(); code = "UIDNEXT " + n(number(true)); break; case 9: lit("UNSEEN"); sp(); code = "UNSEEN " + n(number(true)); break; case 10: lit("HIGHESTMODSEQ"); sp(); code = "HIGHESTMODSEQ " + n(modseq()); break; case 11: lit("NOMODSEQ"); code = "NOMODSEQ"; break;
			case 12: lit("MODIFIED"); sp(); code = "MODIFIED " + seqSet(); break; case 13: lit("APPENDUID"); sp(); { S a = n(number(true)); sp(); code = "APPENDUID " + a + " " + uidSet(); } break; case 14: lit("COPYUID"); sp(); { S a = n(number(true)); sp(); S b = uidSet(); sp(); code = "COPYUID " + a + " " + b + " " + uidSet(); } break;
			default: { S a = s.coin() ? s.pick({ "UIDNOTSTICKY", "CLOSED", "EXPUNGEISSUED", "UIDNEXTX", "ALERTS", "BADURL", "X" }) : atomText(); if (lower(a) == "uidnotsticky") { w += a; code = "UIDNOTSTICKY"; } else { static const std::set<S> K = { "alert", "parse", "capability", "permanentflags", "read-only", "read-write", "trycreate", "uidvalidity", "uidnext", "unseen", "highestmodseq", "nomodseq", "modified", "appenduid", "copyuid" }; if (K.count(lower(a))) a += "x"; w += a; code = "OTHER " + a + " -"; if (s.coin()) { sp(); S t = s.pick({ "1", "\"x\" y", "(a b)", "imap://x/" }); w += t; code = "OTHER " + a + " " + q(t); } } }
			} w += "]"; sp();
		} S t = text(); w += t; return "[" + code + "]" + q(t);
	}
	S address() { w += "("; S r = "["; for (int i = 0 ; i < 4 ; ++i) { if (i) { sp(); r += " "; } r += nstring(); } w += ")"; return r + "]"; }
	S addresses() { if (s.oneIn(2)) { lit("NIL"); return "()"; } w += "("; S r = "("; size_t k = 1 + s.size(3); for (size_t i = 0 ; i < k ; ++i) { if (i && s.oneIn(4)) sp(); r += address(); } w += ")"; return r + ")"; }
	S envelope() { w += "("; S a = nstring(); sp(); S r = "ENV(" + a + " "; r += nstring() + " "; for (int i = 0 ; i < 6 ; ++i) { sp(); r += addresses(); } sp(); r += " " + nstring(); sp(); r += " " + nstring(); w += ")"; return r + ")"; }
	S params() { if (s.oneIn(3)) { lit("NIL"); return "()"; } w += "("; S r = "("; size_t k = 1 + s.size(3); for (size_t i = 0 ; i < k ; ++i) { if (i) sp(); r += string() + "="; sp(); r += string() + " "; } w += ")"; return r + ")"; }
	S dsp() { if (s.oneIn(3)) { lit("NIL"); return "NIL"; } w += "("; S r = string(); sp(); r += params(); w += ")"; return r; }
	S lang() { if (s.coin()) { S v = nstring(); return "(" + v + " )"; } w += "("; S r = "("; size_t k = 1 + s.size(3); for (size_t i = 0 ; i < k ; ++i) { if (i) sp(); r += string() + " "; } w += ")"; return r + ")"; }
	S ext(int lvl) { switch (s.draw(lvl > 3 ? 1 : 2)) { case 0: return n(number()); case 1: return nstring(); default: { w += "("; S r = "("; size_t k = 1 + s.size(3); for (size_t i = 0 ; i < k ; ++i) { if (i) sp(); r += ext(lvl + 1) + " "; } w += ")"; return r + ")"; } } }
	S exts() { S r = "X("; size_t k = s.size(3); for (size_t i = 0 ; i < k ; ++i) { sp(); r += ext(0) + " "; } return r + ")"; }
	S tail(bool multi) { int k = (int) s.draw(3); S r; if (k == 0) return " - - - X()"; sp(); r = " " + (multi ? params() : nstring()); if (k == 1) return r + " - - X()"; sp(); r += " " + dsp(); if (k == 2) return r + " - X()"; sp(); r += " " + lang() + " "; return r + exts(); }
	S fields() { S r = params(); sp(); r += " " + nstring(); sp(); r += " " + nstring(); sp(); r += " " + string(); sp(); return r + " " + n(number()); }
	S body(bool extData) {
		++depth; S r = "{"; w += "("; unsigned k = depth > 4 ? 2 + (unsigned) s.draw(1) : s.weighted({ 2, 2, 3, 3 });
		if (k == 0) { r += "multipart "; size_t m = 1 + s.size(3); for (size_t i = 0 ; i < m ; ++i) r += body(extData); sp(); r += " " + string(); r += extData ? tail(true) : S(" - - - X()"); }
		else {
			if (k == 1) { w += "\""; lit("MESSAGE"); w += "\""; sp(); w += "\""; lit("RFC822"); S sub = w.substr(w.rfind('"') + 1); w += "\""; r += "message " + q(sub) + " "; sp(); r += fields() + " "; sp(); r += envelope() + " "; sp(); r += body(extData) + " "; sp(); r += n(number()); }
			else if (k == 2) { w += "\""; lit("TEXT"); w += "\""; sp(); r += "text " + string() + " "; sp(); r += fields() + " "; sp(); r += n(number()); }
			else { S t = s.pick({ "APPLICATION", "IMAGE", "message", "textual", "x-" }); S u = t == "message" ? s.pick({ "delivery-status", "partial", "external-body" }) : value(); if (lower(t) == "text") t = "a"; str(t, t == "message"); sp(); r += "basic " + q(t) + " " + q(u) + " "; str(u); sp(); r += fields(); }
			r += extData ? tail(false) : S(" - - - X()");
		} w += ")"; --depth; return r + "}";
	}
	S sectionText(bool mime) { switch (s.draw(mime ? 4 : 3)) { case 0: lit("HEADER"); return "HEADER"; case 1: case 2: { bool no = s.coin(); S k = no ? "HEADER.FIELDS.NOT" : "HEADER.FIELDS"; lit(k); sp(); w += "("; k += "("; size_t m = 1 + s.size(3); for (size_t i = 0 ; i < m ; ++i) { if (i) sp(); S v = s.coin() ? s.pick({ "Subject", "DATE", "X-y" }) : value(); if (strict) v = quotable(v) ? v : "x"; k += q(astring(v)) + " "; } w += ")"; return k + ")"; } case 3: lit("TEXT"); return "TEXT"; default: lit("MIME"); return "MIME"; } }
	S section() { w += "["; S r = "["; size_t k = s.size(3); for (size_t i = 0 ; i < k ; ++i) { if (i) w += "."; r += n(number(true)) + "."; } if (s.coin()) { if (k) w += "."; r += sectionText(k > 0); } w += "]"; return r + "]"; }
	S content() { if (!handler) return nstring(); size_t at = w.size(); S v = nstring(); (void) at; if (v == "NIL") return v; bool take = s.coin(); plan.push_back(take); if (!take) return v; handled.push_back(v); return q("[literal-handler]"); }
	S item() {
		switch (s.weighted({ 3, 3, 1, 1, 1, 1, 1, 2, 4, 2, 2, 1 })) {
		case 0: lit("ENVELOPE"); sp(); return envelope(); case 1: lit("FLAGS"); sp(); return "FLAGS" + flagList();
		case 2: { lit("INTERNALDATE"); sp(); char b[64]; static const char* const M[] = { "Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec" }; snprintf(b, sizeof b, "\"%2u-%s-%04u %02u:%02u:%02u %c%02u%02u\"", 1 + (unsigned) s.draw(30), M[s.draw(11)], 1970 + (unsigned) s.draw(100), (unsigned) s.draw(23), (unsigned) s.draw(59), (unsigned) s.draw(59), s.coin() ? '+' : '-', (unsigned) s.draw(12), (unsigned) s.draw(59)); w += b; return "DATE"; }
		case 3: lit("RFC822"); sp(); return "RFC822 " + nstring(); case 4: lit("RFC822.SIZE"); sp(); return "SIZE " + n(number()); case 5: lit("RFC822.HEADER"); sp(); return "RFC822.HEADER " + nstring(); case 6: lit("RFC822.TEXT"); sp(); return "RFC822.TEXT " + content();
		case 7: lit("BODY"); sp(); return "BODY" + body(false); case 8: { lit("BODY"); S r = "BODY" + section(); S o = "-"; if (s.oneIn(3)) { w += "<"; o = n(number()); w += ">"; } sp(); return r + "<" + o + "> " + content(); }
		case 9: lit("BODYSTRUCTURE"); sp(); return "BODYSTRUCTURE" + body(true); case 10: lit("UID"); sp(); return "UID " + n(number(true)); default: lit("MODSEQ"); sp(); w += "("; { S r = "MODSEQ " + n(modseq()); w += ")"; return r; }
		}
	}
	void state(S& r) { switch (s.weighted({ 4, 1, 1 })) { case 0: lit("OK"); sp(); r += "OK" + respText(); break; case 1: lit("NO"); sp(); r += "NO" + respText(); break; default: lit("BAD"); sp(); r += "BAD" + respText(); bad = true; } }
	bool bad = false;
	S data() {
		w += "* "; S r;
		switch (s.weighted({ 2, 1, 1, 2, 1, 2, 2, 2, 1, 1, 6, 2 })) {
		case 0: state(r); break; case 1: lit("BYE"); sp(); r = "BYE" + respText(); break; case 2: lit("FLAGS"); sp(); r = "FLAGS" + mbxFlags(); break;
		case 3: case 4: { bool l = s.coin(); S k = l ? "LIST" : "LSUB"; lit(k); sp(); r = k + mbxFlags() + " "; sp(); if (s.oneIn(4)) { lit("NIL"); r += q(S(1, '\0')); } else { S v = s.pick({ "/", ".", "\\", "\"", "|" }); str(v, true); r += q(v); } sp(); r += " " + mailbox(); break; }
		case 5: { lit("SEARCH"); r = "SEARCH("; size_t k = s.size(8); for (size_t i = 0 ; i < k ; ++i) { sp(); r += n(number(true)) + " "; } r += ")"; break; }
		case 6: { lit("STATUS"); sp(); r = "STATUS " + mailbox(); sp(); w += "("; size_t k = 1 + s.size(5); r += "("; for (size_t i = 0 ; i < k ; ++i) { if (i) sp(); S a = s.pick({ "HIGHESTMODSEQ", "MESSAGES", "RECENT", "UIDNEXT", "UIDVALIDITY", "UNSEEN" }); lit(a); sp(); r += a + " " + (a == "HIGHESTMODSEQ" ? n(modseq()) : n(number())) + " "; } w += ")"; r += ")"; break; }
		case 7: { S v = n(number()); sp(); bool e = s.coin(); lit(e ? "EXISTS" : "RECENT"); r = S(e ? "EXISTS " : "RECENT ") + v; break; }
		case 8: { S v = n(number(true)); sp(); lit("EXPUNGE"); r = "EXPUNGE " + v; break; }
		case 9: r = caps(); break;
		default: { S v = n(number(true)); sp(); lit("FETCH"); sp(); w += "("; r = "FETCH " + v + "("; size_t k = 1 + s.size(4); for (size_t i = 0 ; i < k ; ++i) { if (i) sp(); r += item() + "|"; } w += ")"; r += ")"; } }
		w += "\r\n"; return r + "\n";
	}
};
extern "C" { extern const int pbt_own_coverage = 1; }
struct prog : vmime::utility::progressListener { size_t total = 0, last = 0; unsigned starts = 0, stops = 0; bool bad = false; void start(const size_t t) { total = t; last = 0; ++starts; } void progress(const size_t c, const size_t t) { if (c > t || c < last || t != total) bad = true; last = c; } void stop(const size_t t) { if (t != total) bad = true; ++stops; } };
struct lh : P::literalHandler { const std::vector<char>& plan; size_t i = 0; std::vector<std::unique_ptr<S>> got; std::vector<std::unique_ptr<prog>> pr; bool wrong = false; explicit lh(const std::vector<char>& p) : plan(p) { } vmime::shared_ptr<target> targetFor(const P::component& c, const int data) { auto it = dynamic_cast<const P::msg_att_item*>(&c); if (!it || (data != P::msg_att_item::BODY_SECTION && data != P::msg_att_item::RFC822_TEXT) || data != it->type) wrong = true; bool t = i < plan.size() ? plan[i] : (i % 2) == 0; ++i; if (!t) return vmime::null; got.push_back(std::unique_ptr<S>(new S)); pr.push_back(std::unique_ptr<prog>(new prog)); return vmime::make_shared<targetString>(pr.back().get(), *got.back()); } };
static imap::IMAPTag nthTag(size_t i) { imap::IMAPTag t; while (i--) ++t; return t; }
struct link_ { std::shared_ptr<netPeer> peer; vmime::shared_ptr<netSocket> sok; vmime::shared_ptr<timeoutHandler> toh; P p; link_(const S& out, const std::vector<size_t>& cuts, bool strict, bool close) { peer = std::make_shared<netPeer>(); peer->out = out; peer->cuts = cuts; peer->closed = close; sok = vmime::make_shared<netSocket>(peer); sok->connect("h", 1); toh = vmime::make_shared<netTimeout>(); p.setSocket(sok); p.setTimeoutHandler(toh); p.setStrict(strict); } };

static void grammar(Source& s, Ctx& c) {
	bool strict = s.oneIn(4); Gen g(s, strict); g.handler = s.coin(); S wire; bool greet = s.oneIn(5); S wantGreet; if (greet) { g.w += "* "; switch (s.draw(2)) { case 0: g.lit("OK"); wantGreet = "OK"; break; case 1: g.lit("PREAUTH"); wantGreet = "PREAUTH"; break; default: g.lit("BYE"); wantGreet = "BYE"; } g.sp(); wantGreet += g.respText(); g.w += "\r\n"; }
	// responses in the order the server sends them; the client asks for the tags in another order
	struct rsp { S tag, want; std::vector<char> plan; std::vector<S> handled; bool cont; }; std::vector<rsp> rs; size_t k = 1 + s.draw(2); bool ooo = k > 1 && s.oneIn(3); if (ooo) g.handler = false; size_t datas = 0;
	for (size_t i = 0 ; i < k ; ++i) {
		rsp r; r.tag = S(nthTag(i)); r.cont = !ooo && s.oneIn(6); g.plan.clear(); g.handled.clear(); S x; size_t m = s.size(4); datas += m; for (size_t j = 0 ; j < m ; ++j) x += g.data();
		if (r.cont) { g.w += "+"; if (!strict && s.oneIn(3)) { if (s.coin()) { g.w += "\r\n"; x += "+[]''\n(partial) bad"; } else { g.w += " \r\n"; x += "+[]''\n(partial) bad"; } } else { g.sp(); S t = g.respText(); g.w += "\r\n"; x += "+" + t + "\n(partial) bad"; } }
		else { g.bad = false; S t; g.w += r.tag + " "; g.state(t); bool b = t.compare(0, 3, "BAD") == 0; g.w += "\r\n"; x += r.tag + " " + t + (b ? " bad" : ""); } r.want = x; r.plan = g.plan; r.handled = g.handled; rs.push_back(r);
	}
	auto cuts = genNetCuts(s); NOTE(c, (strict ? "strict, " : "") << "read sizes " << showCuts(cuts)); NOTE(c, "server sends: " << pbt::esc(g.w)); link_ t(g.w, cuts, strict, true);
	if (greet) { std::unique_ptr<P::greeting> gr(t.p.readGreeting()); CHECK_EQ(d(gr.get()), wantGreet, "greeting"); c.label("greeting"); }
	std::vector<size_t> order(k); for (size_t i = 0 ; i < k ; ++i) order[i] = i; if (ooo) std::reverse(order.begin(), order.end());
	for (size_t i : order) {
		lh h(rs[i].plan); std::unique_ptr<P::response> r(t.p.readResponse(nthTag(i), g.handler ? &h : nullptr)); CHECK_EQ(d(r.get()), rs[i].want, "response " + rs[i].tag);
		if (g.handler) { CHECK_MSG(!h.wrong, "literal handler called for another component"); CHECK_EQ(h.i, rs[i].plan.size(), "calls of the literal handler"); CHECK_EQ(h.got.size(), rs[i].handled.size(), "targets"); for (size_t j = 0 ; j < h.got.size() ; ++j) { CHECK_EQ(q(*h.got[j]), rs[i].handled[j], "data given to the target"); CHECK_MSG(!h.pr[j]->bad && h.pr[j]->starts == 1 && h.pr[j]->stops == 1 && h.pr[j]->total == h.got[j]->size(), "progress of a literal"); } if (!h.got.empty()) c.label("literal handler"); }
	}
	CHECK_EQ(t.peer->out, S(), "bytes left unread"); if (ooo) c.label("answers for other tags first"); c.label(strict ? "strict" : "relaxed"); if (g.literals) c.label("with literals"); c.mix(g.w); c.nontrivial(datas > 0);
}
// ---- any bytes: the outcome does not depend on how they arrive
static S outcome(const S& bytes, const std::vector<size_t>& cuts, bool strict, bool greet, bool handler, bool close, size_t reads) {
	link_ t(bytes, cuts, strict, close); S r; static const std::vector<char> plan = { 1, 0, 1, 1 }; lh h(plan);
	try { if (greet) { std::unique_ptr<P::greeting> g(t.p.readGreeting()); r += "greeting " + d(g.get()) + "\n"; } for (size_t i = 0 ; i < reads ; ++i) { std::unique_ptr<P::response> x(t.p.readResponse(nthTag(i), handler ? &h : nullptr)); r += d(x.get()) + "\n"; } }
	catch (vmime::exceptions::invalid_response&) { r += "invalid response"; } catch (vmime::exceptions::operation_timed_out&) { r += "timed out"; } catch (vmime::exceptions::socket_exception&) { r += "closed"; }
	for (auto& v : h.got) r += "target " + q(*v) + "\n"; r += n(t.peer->out.size()); return r.substr(0, r.rfind('\n') + 1) + r.substr(r.rfind('\n') + 1);
}
static void anything(Source& s, Ctx& c) {
	bool strict = s.oneIn(3), greet = s.oneIn(5), handler = s.coin(); Gen g(s, strict); g.handler = false; S w; std::string kind;
	switch (s.weighted({ 6, 2, 1 })) {
	case 0: { kind = "damaged response"; size_t k = 1 + s.draw(2); for (size_t i = 0 ; i < k ; ++i) { size_t m = s.size(3); for (size_t j = 0 ; j < m ; ++j) g.data(); S t; g.w += S(nthTag(i)) + " "; g.state(t); g.w += "\r\n"; } w = g.w; size_t e = 1 + s.draw(5); for (size_t i = 0 ; i < e && !w.empty() ; ++i) { size_t p = s.draw(w.size() - 1); switch (s.draw(6)) { case 0: w.erase(p, 1 + s.draw(3)); break; case 1: w.insert(p, s.pick({ "(", ")", "\"", "\\", "{3}\r\n", "{", "}", " ", "\r\n", "\n", "NIL", "*", "[", "]", "<", "999999999999", "{99999}\r\n", "((", "+ ", "\t", "body[" })); break; case 2: w[p] = (char) s.draw(255); break; case 3: w.resize(p); break; case 4: { size_t l = std::min<size_t>(1 + s.draw(30), w.size() - p); w.insert(s.draw(w.size()), w.substr(p, l)); break; } case 5: w.insert(p, 1, '\0'); break; default: { size_t q2 = s.draw(w.size() - 1); std::swap(w[p], w[q2]); } } } break; }
	case 1: { kind = "tokens"; static const std::vector<S> T = { "* ", "+ ", "OK ", "NO ", "BAD ", "BYE ", "a001 ", "A001 ", "1 ", "FETCH ", "EXISTS", "(", ")", "BODY", "BODY[", "]", "BODYSTRUCTURE ", "ENVELOPE ", "FLAGS ", "\\Seen", "\\", "NIL ", "\"x\" ", "\"", "{3}\r\nabc", "{0}\r\n", "UID ", "12 ", "\r\n", "\n", "[", "CAPABILITY ", "AUTH=", "LIST ", "STATUS ", "SEARCH ", "INBOX ", "=?", "?=", "COPYUID ", "1:*", ",", ":", "<", ">", "HEADER.FIELDS ", ".", "\"text\" ", "\"message\" ", "\"rfc822\" ", "INTERNALDATE ", "\"01-Jan-2000 00:00:00 +0000\"", "MODSEQ ", "MODIFIED ", " " }; size_t k = s.size(60); if (s.coin()) w = "* 1 FETCH ("; for (size_t i = 0 ; i < k ; ++i) w += s.pick(T); w += "\r\n"; break; }
	default: { kind = "deep or long"; size_t depth = s.oneIn(20) ? 8000 : 1 + s.draw(500); S open, close2; switch (s.draw(6)) { case 0: w = "* 1 FETCH (BODYSTRUCTURE "; open = "("; close2 = ")"; break; case 1: w = "* 1 FETCH (BODY (\"a\" \"b\" NIL NIL NIL \"7bit\" 3 NIL NIL NIL "; open = "("; close2 = ")"; break; case 2: w = "* OK [COPYUID 1 "; open = "1,"; break; case 3: w = "* OK [MODIFIED "; open = "1:2,"; break; case 4: w = "* LIST ("; open = "\\A "; break; case 5: w = "* 1 FETCH (BODY "; open = "(\"MESSAGE\" \"RFC822\" NIL NIL NIL \"7BIT\" 3 (NIL NIL NIL NIL NIL NIL NIL NIL NIL NIL) "; close2 = " 1)"; break; default: w = "* 1 FETCH (BODY[HEADER.FIELDS ("; open = "a "; } size_t dd = open.size() > 8 ? std::min<size_t>(depth, 3000) : depth; for (size_t i = 0 ; i < dd ; ++i) w += open; if (s.coin()) w += "(\"TEXT\" \"PLAIN\" NIL NIL NIL \"7BIT\" 3 1)"; if (s.coin()) for (size_t i = 0 ; i < dd ; ++i) w += close2; w += ")\r\na001 OK x\r\n"; } }
	if (greet && s.coin()) w = "* OK hi\r\n" + w; auto cuts = genNetCuts(s); if (w.size() > 3000 && !cuts.empty() && cuts[0] < 20) cuts = { 777 }; bool close = s.coin(); NOTE(c, kind << (strict ? ", strict" : "") << (greet ? ", greeting" : "") << (handler ? ", literal handler" : "") << ", read sizes " << showCuts(cuts)); NOTE(c, "server sends: " << pbt::esc(w));
	S a = outcome(w, {}, strict, greet, handler, close, 3), b = outcome(w, cuts, strict, greet, handler, close, 3); auto norm = [](S v) { return v.substr(0, v.rfind('\n') + 1) + v.substr(v.rfind('\n') + 1).substr(0, 3); }; (void) norm;
	// what is left on the wire depends on the reads; the values do not
	auto cut = [](S v) { size_t e = v.size(); while (e && isdigit((unsigned char) v[e - 1])) --e; return v.substr(0, e); }; CHECK_EQ(cut(b), cut(a), "outcome with other read sizes"); c.label(kind.c_str()); c.label(a.find("invalid") != S::npos ? "refused" : a.find("closed") != S::npos || a.find("timed out") != S::npos ? "incomplete" : "accepted"); c.mix(w); c.nontrivial(w.size() > 20);
}
// ---- a literal interrupted: what had been set for it is not used later
static void interrupted(Source& s, Ctx& c) {
	Gen g(s, false); S data = s.str(30, "abc"), later = s.str(30, "xyz"); S first = "* 1 FETCH (BODY[] {" + n(data.size() + 10 + s.draw(20)) + "}\r\n" + data; S rest = "* 2 FETCH (BODY[] {" + n(later.size()) + "}\r\n" + later + ")\r\na001 OK done\r\n"; auto cuts = genNetCuts(s); NOTE(c, "interrupted after " << pbt::esc(first) << ", read sizes " << showCuts(cuts));
	link_ t(first, cuts, false, false); { std::vector<char> plan = { 1 }; lh h(plan); bool threw = false; try { std::unique_ptr<P::response> r(t.p.readResponse(nthTag(0), &h)); } catch (vmime::exceptions::operation_timed_out&) { threw = true; } CHECK_MSG(threw, "no timeout"); CHECK_EQ(*h.got.at(0), data, "data received before the timeout"); }
	t.peer->out = rest; std::unique_ptr<P::response> r(t.p.readResponse(nthTag(0))); CHECK_EQ(d(r.get()), "FETCH 2(BODY[]<-> " + q(later) + "|)\na001 OK[]'done'", "response after the interruption"); c.label("interrupted literal"); c.mix(first + later); c.nontrivial(!data.empty());
}
static void run(Source& s, Ctx& c) { switch (s.weighted({ 10, 8, 1 })) { case 0: grammar(s, c); break; case 1: anything(s, c); break; default: interrupted(s, c); } }
Property makeProperty() {
	Property p; p.id = "C28"; p.run = run; p.init = installPlatform; p.quick = 60000; p.thorough = 3000000;
	p.rule = "sequences of responses written from the grammar of RFC 3501 (with CONDSTORE and UIDPLUS): every response kind, code and fetch item, strings quoted with escapes or as literals of any bytes, nested body structures with extension data, answers for other tags first, literal handlers; damaged responses, token salads, deep nesting and long sets; read sizes down to one byte with nothing available in between; strict and relaxed; non-trivial: at least one untagged response, or more than 20 bytes";
	return p;
}
