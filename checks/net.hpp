// In-memory network: a socket whose peer is a model server (or a script), with generated fragmentation and would-block reads.
#pragma once
#include "common.hpp"
#include "vmime/net/socket.hpp"
#include "vmime/net/timeoutHandler.hpp"
#include <functional>

// thrown-by-socket conditions use the same exceptions as the POSIX socket
struct netPeer {
	virtual ~netPeer() { }
	virtual void onConnect(const std::string& /* host */, int /* port */) { }
	virtual void onData(std::string& /* in: consume what is complete */) { }
	std::string out; bool closed = false;            // what the client will read; then end of stream
	std::string in; std::string sent;                // received and not yet consumed; everything received
	size_t failSendAfter = (size_t) -1, cutAfter = (size_t) -1;  // faults: bytes accepted from the client; bytes delivered to it
	size_t delivered = 0, bigReads = 0; unsigned connects = 0, disconnects = 0; bool stalled = false;
	std::vector<size_t> cuts; size_t ci = 0;         // sizes of reads; 0 = nothing available yet
};
class netSocket : public vmime::net::socket {
public:
	explicit netSocket(const std::shared_ptr<netPeer>& p) : m_p(p) { }
	~netSocket() { disconnect(); }
	void connect(const vmime::string& a, const vmime::port_t port) { m_con = true; ++m_p->connects; m_p->onConnect(a, (int) port); }
	void disconnect() { if (m_con) ++m_p->disconnects; m_con = false; }
	bool isConnected() const { return m_con && !(m_p->closed && m_p->out.empty()); }
	bool waitForRead(const int = 30000) { return true; }
	bool waitForWrite(const int = 30000) { return true; }
	static bool wire() { static const bool w = getenv("PBT_WIRE") != nullptr; return w; }
	void receive(vmime::string& b) { size_t n = take(4000); b = m_p->out.substr(0, n); if (wire()) fprintf(stderr, "S: %s\n", b.c_str()); m_p->out.erase(0, n); m_p->delivered += n; }
	size_t receiveRaw(byte_t* b, const size_t count) { size_t n = take(count); memcpy(b, m_p->out.data(), n); m_p->out.erase(0, n); m_p->delivered += n; return n; }
	void send(const vmime::string& b) { sendRaw(reinterpret_cast<const byte_t*>(b.data()), b.size()); }
	void send(const char* s) { send(vmime::string(s)); }
	void sendRaw(const byte_t* b, const size_t count) {
		if (!m_con) throw vmime::exceptions::socket_exception("not connected");
		size_t n = count; bool fail = false; if (m_p->sent.size() + n > m_p->failSendAfter) { n = m_p->failSendAfter - m_p->sent.size(); fail = true; }
		std::string d(reinterpret_cast<const char*>(b), n); if (wire()) fprintf(stderr, "C: %s\n", d.c_str()); m_p->sent += d; m_p->in += d; if (n && !m_p->closed) m_p->onData(m_p->in);
		m_idle = 0; if (fail) { m_p->closed = true; throw vmime::exceptions::socket_exception("broken pipe"); }
	}
	size_t sendRawNonBlocking(const byte_t* b, const size_t count) { sendRaw(b, count); return count; }
	size_t getBlockSize() const { return 16384; }
	unsigned int getStatus() const { return m_want ? STATUS_WANT_READ : 0; }
	const vmime::string getPeerName() const { return "server.example"; }
	const vmime::string getPeerAddress() const { return "192.0.2.1"; }
	vmime::shared_ptr<vmime::net::timeoutHandler> getTimeoutHandler() { return vmime::null; }
	void setTracer(const vmime::shared_ptr<vmime::net::tracer>&) { }
	vmime::shared_ptr<vmime::net::tracer> getTracer() { return vmime::null; }
private:
	size_t take(size_t count) { m_want = false; size_t n = takeSome(count); m_want = n == 0; return n; }
	size_t takeSome(size_t count) {
		if (!m_con) throw vmime::exceptions::socket_exception("not connected");
		if (m_p->delivered >= m_p->cutAfter) { m_p->closed = true; m_p->out.clear(); }
		if (m_p->out.empty()) { if (m_p->closed) throw vmime::exceptions::socket_exception("connection closed by the server"); if (++m_idle > 2) { m_p->stalled = true; throw vmime::exceptions::operation_timed_out(); } return 0; }
		size_t n = std::min(count, m_p->out.size()); n = std::min(n, m_p->cutAfter - m_p->delivered);
		if (!m_p->cuts.empty()) { size_t k = m_p->cuts[m_p->ci++ % m_p->cuts.size()]; if (k == 0) { if (++m_block < 3) return 0; k = 1; } n = std::min(n, k); }
		m_block = 0; m_idle = 0; return n;
	}
	std::shared_ptr<netPeer> m_p; bool m_con = false, m_want = true; unsigned m_idle = 0, m_block = 0;
};
// a handler which counts, and never ends the wait by itself
class netTimeout : public vmime::net::timeoutHandler { public: bool isTimeOut() { return false; } void resetTimeOut() { } bool handleTimeOut() { return true; } };
class netTimeoutFactory : public vmime::net::timeoutHandlerFactory { public: vmime::shared_ptr<vmime::net::timeoutHandler> create() { return vmime::make_shared<netTimeout>(); } };
class netSocketFactory : public vmime::net::socketFactory {
public:
	std::function<std::shared_ptr<netPeer>()> make; // a peer per connection
	explicit netSocketFactory(std::function<std::shared_ptr<netPeer>()> f) : make(f) { }
	vmime::shared_ptr<vmime::net::socket> create() { return vmime::make_shared<netSocket>(make()); }
	vmime::shared_ptr<vmime::net::socket> create(const vmime::shared_ptr<vmime::net::timeoutHandler>&) { return create(); }
};
inline std::vector<size_t> genNetCuts(Source& s) {
	std::vector<size_t> r; switch (s.draw(4)) { case 0: return r; case 1: r.push_back(1); return r; case 2: r.push_back(1 + s.draw(9)); if (s.coin()) r.push_back(0); return r; default: { size_t n = 1 + s.draw(5); for (size_t i = 0 ; i < n ; ++i) r.push_back(s.draw(s.coin() ? 3 : 60)); if (n == 1 && r[0] == 0) r[0] = 1; return r; } }
}
