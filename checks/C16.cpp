// C16: component collections behave like ordered lists.
#include "gen.hpp"
#include "vmime/mailboxField.hpp"
using comp = vmime::shared_ptr<vmime::component>;
using P = std::vector<comp>;
struct L {
	std::string name; bool elemOps = true, bounded = false;  // bounded: bad positions are refused
	std::function<comp()> make;
	std::function<size_t()> count; std::function<bool()> empty; std::function<comp(size_t)> at, cat;
	std::function<P()> list, clist, kids;
	std::function<void(comp)> append, removeE; std::function<void(size_t, comp)> beforeP, afterP; std::function<void(comp, comp)> beforeE, afterE; std::function<void(size_t)> removeP; std::function<void()> clear;
};
template <class V> static P conv(const V& v) { P r; for (auto& x : v) r.push_back(vmime::constCast<vmime::component>(vmime::dynamicCast<const vmime::component>(x))); return r; }
template <class T> static vmime::shared_ptr<T> as(comp c) { return vmime::dynamicCast<T>(c); }
#define ORDERED(T, Elem) \
	l.count = [o] { return o->get##Elem##Count(); }; l.empty = [o] { return o->get##Elem##Count() == 0; }; l.at = [o](size_t i) -> comp { return o->get##Elem##At(i); }; l.cat = [o](size_t i) -> comp { vmime::shared_ptr<const vmime::T> k = o; return conv(std::vector<vmime::shared_ptr<const vmime::component>>{ vmime::shared_ptr<const vmime::component>(k->get##Elem##At(i)) })[0]; }; \
	l.list = [o] { return conv(o->get##Elem##List()); }; l.clist = [o] { vmime::shared_ptr<const vmime::T> k = o; return conv(k->get##Elem##List()); }; l.kids = [o] { return conv(o->getChildComponents()); };
static L makeList(Source& s) {
	L l;
	switch (s.draw(5)) {
	case 0: { auto o = vmime::make_shared<vmime::addressList>(); l.name = "addressList"; l.bounded = true; ORDERED(addressList, Address) using E = vmime::address; l.append = [o](comp c) { o->appendAddress(as<E>(c)); }; l.removeE = [o](comp c) { o->removeAddress(as<E>(c)); }; l.beforeP = [o](size_t i, comp c) { o->insertAddressBefore(i, as<E>(c)); }; l.afterP = [o](size_t i, comp c) { o->insertAddressAfter(i, as<E>(c)); }; l.beforeE = [o](comp b, comp c) { o->insertAddressBefore(as<E>(b), as<E>(c)); }; l.afterE = [o](comp b, comp c) { o->insertAddressAfter(as<E>(b), as<E>(c)); }; l.removeP = [o](size_t i) { o->removeAddress(i); }; l.clear = [o] { o->removeAllAddresses(); };
		l.empty = [o] { return o->isEmpty(); }; l.make = [&s]() -> comp { if (s.oneIn(3)) return vmime::make_shared<vmime::mailboxGroup>(vmime::text("g")); return vmime::make_shared<vmime::mailbox>("m@h"); }; break; }
	case 1: { auto o = vmime::make_shared<vmime::mailboxList>(); l.name = "mailboxList"; l.bounded = true; ORDERED(mailboxList, Mailbox) using E = vmime::mailbox; l.append = [o](comp c) { o->appendMailbox(as<E>(c)); }; l.removeE = [o](comp c) { o->removeMailbox(as<E>(c)); }; l.beforeP = [o](size_t i, comp c) { o->insertMailboxBefore(i, as<E>(c)); }; l.afterP = [o](size_t i, comp c) { o->insertMailboxAfter(i, as<E>(c)); }; l.beforeE = [o](comp b, comp c) { o->insertMailboxBefore(as<E>(b), as<E>(c)); }; l.afterE = [o](comp b, comp c) { o->insertMailboxAfter(as<E>(b), as<E>(c)); }; l.removeP = [o](size_t i) { o->removeMailbox(i); }; l.clear = [o] { o->removeAllMailboxes(); };
		l.empty = [o] { return o->isEmpty(); }; l.make = []() -> comp { return vmime::make_shared<vmime::mailbox>("m@h"); }; break; }
	case 2: { auto o = vmime::make_shared<vmime::mailboxGroup>(); l.name = "mailboxGroup"; l.bounded = true; ORDERED(mailboxGroup, Mailbox) using E = vmime::mailbox; l.append = [o](comp c) { o->appendMailbox(as<E>(c)); }; l.removeE = [o](comp c) { o->removeMailbox(as<E>(c)); }; l.beforeP = [o](size_t i, comp c) { o->insertMailboxBefore(i, as<E>(c)); }; l.afterP = [o](size_t i, comp c) { o->insertMailboxAfter(i, as<E>(c)); }; l.beforeE = [o](comp b, comp c) { o->insertMailboxBefore(as<E>(b), as<E>(c)); }; l.afterE = [o](comp b, comp c) { o->insertMailboxAfter(as<E>(b), as<E>(c)); }; l.removeP = [o](size_t i) { o->removeMailbox(i); }; l.clear = [o] { o->removeAllMailboxes(); };
		l.empty = [o] { return o->isEmpty(); }; l.make = []() -> comp { return vmime::make_shared<vmime::mailbox>("m@h"); }; break; }
	case 3: { auto o = vmime::make_shared<vmime::text>(); l.name = "text"; l.elemOps = false; ORDERED(text, Word) using E = vmime::word; l.append = [o](comp c) { o->appendWord(as<E>(c)); }; l.beforeP = [o](size_t i, comp c) { o->insertWordBefore(i, as<E>(c)); }; l.afterP = [o](size_t i, comp c) { o->insertWordAfter(i, as<E>(c)); }; l.removeP = [o](size_t i) { o->removeWord(i); }; l.clear = [o] { o->removeAllWords(); };
		l.empty = [o] { return o->isEmpty(); }; l.make = [&s]() -> comp { return vmime::make_shared<vmime::word>(s.str(3, "ab "), vmime::charset("utf-8")); }; break; }
	case 4: { auto o = vmime::make_shared<vmime::messageIdSequence>(); l.name = "messageIdSequence"; ORDERED(messageIdSequence, MessageId) using E = vmime::messageId; l.append = [o](comp c) { o->appendMessageId(as<E>(c)); }; l.removeE = [o](comp c) { o->removeMessageId(as<E>(c)); }; l.beforeP = [o](size_t i, comp c) { o->insertMessageIdBefore(i, as<E>(c)); }; l.afterP = [o](size_t i, comp c) { o->insertMessageIdAfter(i, as<E>(c)); }; l.beforeE = [o](comp b, comp c) { o->insertMessageIdBefore(as<E>(b), as<E>(c)); }; l.afterE = [o](comp b, comp c) { o->insertMessageIdAfter(as<E>(b), as<E>(c)); }; l.removeP = [o](size_t i) { o->removeMessageId(i); }; l.clear = [o] { o->removeAllMessageIds(); };
		l.empty = [o] { return o->isEmpty(); }; l.make = []() -> comp { return vmime::make_shared<vmime::messageId>("a", "b"); }; break; }
	default: { auto f = vmime::headerFieldFactory::getInstance()->create("Content-Disposition"); auto o = vmime::dynamicCast<vmime::parameterizedHeaderField>(f); l.name = "parameterizedHeaderField"; ORDERED(parameterizedHeaderField, Parameter) using E = vmime::parameter; l.append = [o](comp c) { o->appendParameter(as<E>(c)); }; l.removeE = [o](comp c) { o->removeParameter(as<E>(c)); }; l.beforeP = [o](size_t i, comp c) { o->insertParameterBefore(i, as<E>(c)); }; l.afterP = [o](size_t i, comp c) { o->insertParameterAfter(i, as<E>(c)); }; l.beforeE = [o](comp b, comp c) { o->insertParameterBefore(as<E>(b), as<E>(c)); }; l.afterE = [o](comp b, comp c) { o->insertParameterAfter(as<E>(b), as<E>(c)); }; l.removeP = [o](size_t i) { o->removeParameter(i); }; l.clear = [o] { o->removeAllParameters(); };
		l.empty = [o] { return o->isEmpty(); }; l.make = [&s]() -> comp { return vmime::make_shared<vmime::parameter>(s.pick({ "a", "A", "b" })); };
		l.kids = [o, f] { P r = conv(o->getChildComponents()); CHECK_MSG(!r.empty() && r[0] == f->getValue(), "the value of the field is not its first child"); r.erase(r.begin()); return r; }; }
	}
	return l;
}
static std::string ids(const P& m, const P& pool) { std::string r; for (auto& x : m) { size_t i = std::find(pool.begin(), pool.end(), x) - pool.begin(); r += i < pool.size() ? std::to_string(i) + " " : std::string("? "); } return r; }
template <class F> static bool refused(F f) { try { f(); return false; } catch (const vmime::exception&) { return true; } catch (const std::out_of_range&) { return true; } }
static void runList(Source& s, Ctx& c) {
	L l = makeList(s); c.label(l.name); c.mix(l.name); P pool, m; unsigned steps = 0, bad = 0;
	auto el = [&]() -> comp { if (!pool.empty() && s.oneIn(4)) return pool[s.draw(pool.size() - 1)]; pool.push_back(l.make()); return pool.back(); };
	auto member = [&](bool& ok) -> comp { if (pool.empty()) { ok = false; return l.make(); } comp e = pool[s.draw(pool.size() - 1)]; ok = std::find(m.begin(), m.end(), e) != m.end(); return e; };
	while (s.more(12) && steps < 60) {
		++steps; std::string w; P was = m; bool thrown = false, expect = false;
		auto go = [&](bool ok, std::function<void()> real, std::function<void()> model) { expect = !ok; if (!ok) ++bad; thrown = refused(real); if (ok) model(); };
		size_t n = m.size();
		switch (s.draw(9)) {
		case 0: case 1: { comp e = el(); w = "append"; go(true, [&] { l.append(e); }, [&] { m.push_back(e); }); break; }
		case 2: { bool oob = l.bounded && s.oneIn(5); if (!n && !oob) continue; size_t i = oob ? n + s.draw(2) : s.draw(n - 1); comp e = el(); w = "insert before position " + std::to_string(i); go(!oob, [&] { l.beforeP(i, e); }, [&] { m.insert(m.begin() + i, e); }); break; }
		case 3: { bool oob = l.bounded && s.oneIn(5); if (!n && !oob) continue; size_t i = oob ? n + s.draw(2) : s.draw(n - 1); comp e = el(); w = "insert after position " + std::to_string(i); go(!oob, [&] { l.afterP(i, e); }, [&] { m.insert(m.begin() + i + 1, e); }); break; }
		case 4: { bool oob = l.bounded && s.oneIn(5); if (!n && !oob) continue; size_t i = oob ? n + s.draw(2) : s.draw(n - 1); w = "remove position " + std::to_string(i); go(!oob, [&] { l.removeP(i); }, [&] { m.erase(m.begin() + i); }); break; }
		case 5: { if (!l.elemOps) continue; bool ok; comp b = member(ok), e = el(); w = "insert before element"; go(ok, [&] { l.beforeE(b, e); }, [&] { m.insert(std::find(m.begin(), m.end(), b), e); }); break; }
		case 6: { if (!l.elemOps) continue; bool ok; comp b = member(ok), e = el(); w = "insert after element"; go(ok, [&] { l.afterE(b, e); }, [&] { m.insert(std::find(m.begin(), m.end(), b) + 1, e); }); break; }
		case 7: { if (!l.elemOps) continue; bool ok; comp b = member(ok); w = "remove element"; go(ok, [&] { l.removeE(b); }, [&] { m.erase(std::find(m.begin(), m.end(), b)); }); break; }
		case 8: if (s.oneIn(3)) { w = "clear"; go(true, [&] { l.clear(); }, [&] { m.clear(); }); } else continue; break;
		default: continue;
		}
		c.mix(w); NOTE(c, l.name << ": " << w << " on [" << ids(was, pool) << "]");
		CHECK_MSG(thrown == expect, l.name << ": " << w << (thrown ? " refused" : " accepted") << " on " << n << " elements");
		CHECK_EQ(ids(l.list(), pool), ids(m, pool), l.name + ": contents after " + w + " on [" + ids(was, pool) + "]");
		CHECK_EQ(ids(l.clist(), pool), ids(m, pool), l.name + ": contents (const) after " + w); CHECK_EQ(ids(l.kids(), pool), ids(m, pool), l.name + ": children after " + w);
		CHECK_EQ(l.count(), m.size(), l.name + ": count after " + w); CHECK_EQ((int) l.empty(), (int) m.empty(), l.name + ": emptiness after " + w);
		for (size_t i = 0 ; i < m.size() ; ++i) CHECK_MSG(l.at(i) == m[i] && l.cat(i) == m[i], l.name << ": element " << i << " after " << w);
	}
	c.nontrivial(steps >= 3); if (bad) c.label("with invalid operations");
}
static std::string anyCase(Source& s, std::string n) { for (auto& ch : n) if (isalpha((unsigned char) ch) && s.oneIn(3)) ch ^= 0x20; return n; }
static void runHeader(Source& s, Ctx& c) {
	auto h = vmime::make_shared<vmime::header>(); using F = vmime::shared_ptr<vmime::headerField>; std::vector<F> m, pool; unsigned steps = 0; c.label("header"); c.mix("header");
	static const std::vector<std::string> N = { "Subject", "X-A", "X-AB", "To", "Content-Type", "Received", "X_1", "Date" };
	auto show = [&](const std::vector<F>& v) { std::string r; for (auto& x : v) r += x ? std::to_string(std::find(pool.begin(), pool.end(), x) - pool.begin()) + ":" + x->getName() + " " : "null "; return r; };
	auto el = [&]() -> F { if (!pool.empty() && s.oneIn(5)) return pool[s.draw(pool.size() - 1)]; F f = vmime::headerFieldFactory::getInstance()->create(anyCase(s, s.pick(N))); try { f->parse(s.pick({ "v", "text/plain; charset=utf-8", "a@b" })); } catch (vmime::exception&) { } pool.push_back(f); return f; };
	auto fnd = [&](const std::string& n) { size_t i = 0; while (i < m.size() && lower(m[i]->getName()) != lower(n)) ++i; return i; };
	while (s.more(14) && steps < 60) {
		++steps; std::string w, was = show(m); size_t n = m.size(); bool ok = true, thrown = false;
		std::string nm = anyCase(s, s.pick(N));
		switch (s.draw(13)) {
		case 0: case 1: { F f = el(); w = "append"; h->appendField(f); m.push_back(f); break; }
		case 2: { if (!n) continue; size_t i = s.draw(n - 1); F f = el(); w = "insert before " + std::to_string(i); h->insertFieldBefore(i, f); m.insert(m.begin() + i, f); break; }
		case 3: { if (!n) continue; size_t i = s.draw(n - 1); F f = el(); w = "insert after " + std::to_string(i); h->insertFieldAfter(i, f); m.insert(m.begin() + i + 1, f); break; }
		case 4: { if (!n) continue; size_t i = s.draw(n - 1); w = "remove " + std::to_string(i); h->removeField(i); m.erase(m.begin() + i); break; }
		case 5: case 6: case 7: case 8: { if (pool.empty()) continue; F b = pool[s.draw(pool.size() - 1)]; auto it = std::find(m.begin(), m.end(), b); ok = it != m.end(); F f; int k = (int) s.draw(3); if (k != 3) f = el(); it = std::find(m.begin(), m.end(), b); ok = it != m.end();
			w = k == 0 ? "insert before element" : k == 1 ? "insert after element" : k == 2 ? "replace element" : "remove element";
			thrown = refused([&] { if (k == 0) h->insertFieldBefore(b, f); else if (k == 1) h->insertFieldAfter(b, f); else if (k == 2) h->replaceField(b, f); else h->removeField(b); });
			if (ok) { if (k == 0) m.insert(it, f); else if (k == 1) m.insert(it + 1, f); else if (k == 2) *it = f; else m.erase(it); } break; }
		case 9: { w = "remove all " + nm; h->removeAllFields(nm); std::vector<F> r; for (auto& x : m) if (lower(x->getName()) != lower(nm)) r.push_back(x); m = r; break; }
		case 10: if (s.oneIn(4)) { w = "clear"; h->removeAllFields(); m.clear(); } else continue; break;
		case 11: { size_t i = fnd(nm); w = "get " + nm; F f = h->getField(nm); CHECK_MSG(f, "getField returned nothing"); if (i < n) CHECK_MSG(f == m[i], "getField(" << nm << ") is not the first field of this name in " << was); else { CHECK_MSG(std::find(pool.begin(), pool.end(), f) == pool.end(), "getField(" << nm << ") returned another field"); CHECK_EQ(f->getName(), nm, "name of a created field"); pool.push_back(f); m.push_back(f); } break; }
		case 12: { w = "accessor"; std::string an = s.pick({ "Subject", "To", "Content-Type", "Date" }); size_t i = fnd(an); F f = an == "Subject" ? h->Subject() : an == "To" ? h->To() : an == "Date" ? h->Date() : h->ContentType(); if (i < n) CHECK_MSG(f == m[i], "accessor of " << an << " in " << was); else { pool.push_back(f); m.push_back(f); } break; }
		default: { w = "find " + nm; size_t i = fnd(nm); F f = h->findField(nm); CHECK_MSG(f == (i < n ? m[i] : F()), "findField(" << nm << ") in " << was); CHECK_EQ((int) h->hasField(nm), (int) (i < n), "hasField(" + nm + ") in " + was); std::vector<F> r; for (auto& x : m) if (lower(x->getName()) == lower(nm)) r.push_back(x); CHECK_EQ(show(h->findAllFields(nm)), show(r), "findAllFields(" + nm + ") in " + was); }
		}
		c.mix(w); NOTE(c, "header: " << w << " on " << was);
		CHECK_MSG(thrown == !ok, "header: " << w << (thrown ? " refused" : " accepted"));
		CHECK_EQ(show(h->getFieldList()), show(m), "header: contents after " + w + " on [" + was + "]");
		CHECK_EQ(h->getFieldCount(), m.size(), "header: count"); CHECK_EQ((int) h->isEmpty(), (int) m.empty(), "header: empty");
		for (size_t i = 0 ; i < m.size() ; ++i) CHECK_MSG(h->getFieldAt(i) == m[i], "header: field " << i << " after " << w);
	}
	// the text has the fields in this order
	std::string want; for (auto& x : m) want += x->generate() + "\r\n"; CHECK_EQ(h->generate(), want, "text of the header");
	c.nontrivial(steps >= 3);
}
// a forest of parts which move, with a model of who contains whom
static void runBody(Source& s, Ctx& c) {
	c.label("bodies"); c.mix("bodies"); using BP = vmime::shared_ptr<vmime::bodyPart>; std::vector<BP> pool; std::vector<std::vector<size_t>> kids; std::vector<int> parent; unsigned steps = 0, moves = 0; std::vector<vmime::shared_ptr<vmime::body>> kept;
	auto add = [&] { auto p = vmime::make_shared<vmime::bodyPart>(); p->getBody()->setPrologText("p" + std::to_string(pool.size())); pool.push_back(p); kids.push_back({}); parent.push_back(-1); return pool.size() - 1; };
	add(); add();
	auto below = [&](size_t x, size_t anc) { for (int y = (int) x ; y >= 0 ; y = parent[(size_t) y]) if ((size_t) y == anc) return true; return false; };
	auto detach = [&](size_t e) { if (parent[e] >= 0) { auto& k = kids[(size_t) parent[e]]; k.erase(std::find(k.begin(), k.end(), e)); parent[e] = -1; ++moves; } };
	auto shape = [&](bool real) { std::string r; for (size_t i = 0 ; i < pool.size() ; ++i) { if (!pool[i]) continue; r += std::to_string(i) + "^"; bodyPart: if (real) { auto* pp = pool[i]->getParentPart(); size_t k = 0; while (k < pool.size() && pool[k].get() != pp) ++k; r += pp == nullptr ? "-" : k < pool.size() ? std::to_string(k) : "?"; } else r += parent[i] < 0 ? "-" : std::to_string(parent[i]); r += "("; if (real) { for (auto& x : pool[i]->getBody()->getPartList()) r += std::to_string(std::find(pool.begin(), pool.end(), x) - pool.begin()) + " "; } else for (size_t k : kids[i]) r += std::to_string(k) + " "; r += ") "; goto next; goto bodyPart; next:; } return r; };
	auto live = [&](size_t& out) { std::vector<size_t> v; for (size_t i = 0 ; i < pool.size() ; ++i) if (pool[i]) v.push_back(i); if (v.empty()) return false; out = v[s.draw(v.size() - 1)]; return true; };
	while (s.more(14) && steps < 50) {
		++steps; std::string w, was = shape(false); bool ok = true, thrown = false; size_t o, e;
		if (pool.size() < 12 && s.oneIn(3)) add();
		if (!live(o) || !live(e)) break;
		auto b = pool[o]->getBody(); size_t n = kids[o].size(); std::string ow = std::to_string(o), ew = std::to_string(e); std::string head = pool[o]->getHeader()->generate();
		switch (s.draw(10)) {
		case 0: case 1: case 2: if (below(o, e)) continue; w = "append " + ew + " to " + ow; b->appendPart(pool[e]); detach(e); kids[o].push_back(e); parent[e] = (int) o; break;
		case 3: { if (below(o, e) || parent[e] == (int) o || !n) continue; size_t i = s.draw(n - 1); bool bef = s.coin(); w = "insert " + ew + " in " + ow + (bef ? " before position " : " after position ") + std::to_string(i); if (bef) b->insertPartBefore(i, pool[e]); else b->insertPartAfter(i, pool[e]); detach(e); kids[o].insert(kids[o].begin() + (long) i + !bef, e); parent[e] = (int) o; break; }
		case 4: { if (below(o, e)) continue; size_t r; if (!live(r)) continue; bool bef = s.coin(); ok = parent[r] == (int) o; if (r == e) continue; w = "insert " + ew + " in " + ow + (bef ? " before " : " after ") + std::to_string(r); thrown = refused([&] { if (bef) b->insertPartBefore(pool[r], pool[e]); else b->insertPartAfter(pool[r], pool[e]); }); if (ok) { detach(e); auto& k = kids[o]; k.insert(std::find(k.begin(), k.end(), r) + !bef, e); parent[e] = (int) o; } else CHECK_EQ(pool[o]->getHeader()->generate(), head, "header after a refused insertion"); break; }
		case 5: { ok = parent[e] == (int) o; w = "remove " + ew + " from " + ow; thrown = refused([&] { b->removePart(pool[e]); }); if (ok) detach(e); break; }
		case 6: { if (!n) continue; size_t i = s.draw(n - 1); w = "remove position " + std::to_string(i) + " from " + ow; b->removePart(i); detach(kids[o][i]); break; }
		case 7: { if (s.oneIn(2)) continue; w = "clear " + ow; b->removeAllParts(); while (!kids[o].empty()) detach(kids[o][0]); break; }
		case 8: { // the body of one part becomes that of another, which loses its own
			if (o != e && (below(e, o) || below(o, e))) continue; w = "body of " + ew + " to " + ow; auto old = b; pool[o]->setBody(pool[e]->getBody()); if (o != e) { for (size_t k : kids[o]) parent[k] = -1; kids[o].clear(); for (size_t k : kids[e]) parent[k] = (int) o; kids[o].swap(kids[e]); CHECK_MSG(pool[e]->getBody()->getPartCount() == 0 && pool[e]->getBody() != pool[o]->getBody(), "the part the body comes from must get a new one"); ++moves; } if (o != e && s.oneIn(3)) { kept.push_back(old); old->removeAllParts(); } break; }
		case 9: { // a part nobody uses any more is destroyed, its children survive when they are still referenced
			if (parent[e] >= 0 || pool.size() < 3) continue; w = "destroy " + ew; if (s.oneIn(3)) kept.push_back(pool[e]->getBody()); else for (size_t k : kids[e]) { parent[k] = -1; } bool keep = !kept.empty() && kept.back() == pool[e]->getBody(); if (keep) for (size_t k : kids[e]) parent[k] = -1; kids[e].clear(); b.reset(); pool[e].reset(); if (keep) { kept.back()->removeAllParts(); } break; }
		default: w = "generate " + ow; b->generate(); CHECK_EQ(b->getPartCount(), n, "part count"); CHECK_EQ((int) b->isEmpty(), (int) (n == 0), "emptiness"); for (size_t i = 0 ; i < n ; ++i) CHECK_MSG(b->getPartAt(i) == pool[kids[o][i]], "part " << i);
		}
		c.mix(w); NOTE(c, "bodies: " << w << " on " << was);
		CHECK_MSG(thrown == !ok, "body: " << w << (thrown ? " refused" : " accepted"));
		CHECK_EQ(shape(true), shape(false), "parts after: " + w + ", from " + was);
		if (pool[o] && !kids[o].empty() && !thrown && w[0] != 'g' && w[0] != 'b' && w[0] != 'r' && w[0] != 'd') { auto ctf = pool[o]->getHeader()->findField<vmime::contentTypeField>("Content-Type"); CHECK_MSG(ctf && ctf->hasBoundary() && vmime::body::isValidBoundary(ctf->getBoundary()), "a part with children must have a boundary after " << w); }
	}
	if (moves) c.label("parts moved"); c.nontrivial(steps >= 3);
}
static void run(Source& s, Ctx& c) { switch (s.draw(3)) { case 0: runHeader(s, c); break; case 1: runBody(s, c); break; default: runList(s, c); } }
Property makeProperty() {
	Property p; p.id = "C16"; p.run = run; p.init = installPlatform; p.quick = 60000; p.thorough = 4000000;
	p.rule = "a history of up to 60 operations (append, insert before / after a position or an element, remove, replace, clear, look up by name in any letter case; elements and positions valid or not; parts moved between bodies, bodies between parts, parts destroyed) on one container or a forest of parts, compared with a list model after each; non-trivial: at least 3 operations";
	p.assumptions = { "unchecked positions (header, text, message ids, parameters' removeParameter, body) are used only when valid; a part is never put below itself" };
	return p;
}
