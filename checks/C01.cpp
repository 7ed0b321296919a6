#include "gen.hpp"
#include "vmime/attachmentHelper.hpp"

static size_t walk(const vmime::shared_ptr<vmime::bodyPart>& p, unsigned depth) {
	size_t n = 1;
	auto hdr = p->getHeader();
	for (auto& f : hdr->getFieldList()) {
		tolerant([&] { f->getName(); f->getValue()->generate(); f->generate(40); f->generate(); });
		tolerant([&] { auto c = vmime::clone(f); c->generate(78); });
		tolerant([&] { hdr->hasField(f->getName()); hdr->findField(f->getName()); hdr->findAllFields(f->getName()); });
		auto ctf = vmime::dynamicCast<vmime::contentTypeField>(f);
		if (ctf) { tolerant([&] { ctf->getBoundary(); }); tolerant([&] { ctf->getCharset(); }); tolerant([&] { ctf->getReportType(); }); }
		auto cdf = vmime::dynamicCast<vmime::contentDispositionField>(f);
		if (cdf) { tolerant([&] { cdf->getFilename(); }); tolerant([&] { cdf->getSize(); }); tolerant([&] { cdf->getCreationDate(); }); }
		auto pf = vmime::dynamicCast<vmime::parameterizedHeaderField>(f);
		if (pf) for (auto& q : pf->getParameterList()) tolerant([&] { q->getValue().generate(); q->getValueAs<vmime::text>(); q->generate(); });
	}
	tolerant([&] { hdr->generate(60); });
	auto b = p->getBody();
	tolerant([&] { b->getContentType(); b->getCharset(); b->getEncoding(); });
	auto h = b->getContents();
	h->getLength(); h->isEmpty(); h->isEncoded(); h->isBuffered();
	tolerant([&] { strOut o; h->extract(o); });
	tolerant([&] { strOut o; h->extractRaw(o); });
	tolerant([&] { strOut o; h->generate(o, vmime::encoding("base64"), 76); });
	tolerant([&] { auto c = h->clone(); strOut o; c->extract(o); });
	for (auto& q : b->getPartList()) { CHECK(q->getParentPart() == p.get()); n += walk(q, depth + 1); }
	return n;
}

static void run(Source& s, Ctx& c) {
	std::string msg = genMessageText(s);
	vmime::parsingContext ctx;
	ctx.setHeaderParseErrorRecoveryMethod((vmime::headerParseRecoveryMethod::headerLineError) s.draw(2));
	ctx.setInternationalizedEmailSupport(s.coin());
	unsigned how = (unsigned) s.draw(2); auto cuts = genCuts(s);
	NOTE(c, "input kind " << how << " " << showCuts(cuts) << "\n" << pbt::esc(msg, 6000));
	auto m = vmime::make_shared<vmime::message>();
	bool ok = tolerant([&] {
		if (how == 0) m->parse(ctx, msg);
		else if (how == 1) m->parse(ctx, vmime::make_shared<chunkSeekIn>(msg, cuts), 0, msg.size());
		else m->parse(ctx, vmime::make_shared<chunkIn>(msg, cuts), 0, msg.size());
	});
	c.label(ok ? "parsed" : "rejected by exception");
	if (!ok) return;
	size_t n = walk(m, 0);
	if (n > 1) c.label("multipart"); if (n > 4) c.label("5+ parts");
	c.mix(msg); c.nontrivial(m->getHeader()->getFieldCount() > 0 && msg.size() > 20);
	tolerant([&] { m->generate(); });
	tolerant([&] { m->generate(70); });
	vmime::generationContext gc;
	tolerant([&] { m->getGeneratedSize(gc); });
	tolerant([&] { auto k = vmime::clone(m); k->generate(); });
	tolerant([&] { vmime::attachmentHelper::findAttachmentsInMessage(m); });
	tolerant([&] { vmime::messageParser mp(m); for (auto& a : mp.getAttachmentList()) { tolerant([&] { strOut o; a->getData()->extract(o); a->getName(); a->getDescription(); a->getType(); }); }
		for (auto& t : mp.getTextPartList()) tolerant([&] { strOut o; t->getText()->extract(o); t->getCharset(); }); });
	tolerant([&] { vmime::mdn::MDNHelper::isMDN(m); vmime::mdn::MDNHelper::getPossibleMDNs(m); auto i = vmime::mdn::MDNHelper::getReceivedMDN(m); i.getDisposition(); });
}

Property makeProperty() {
	Property p; p.id = "C01"; p.run = run; p.init = installPlatform; p.quick = 60000; p.thorough = 4000000; p.mutatePct = 50;
	p.rule = "MIME entities with broken structure (fields from all grammars, wrong/missing/duplicated boundaries, nested multiparts to depth 5), random text and random bytes, then byte-level mutation; coverage-guided; non-trivial: parsed with at least one field and more than 20 bytes";
	p.assumptions = { "nesting depth of generated messages is at most 6" };
	return p;
}
