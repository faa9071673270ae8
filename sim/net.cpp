// In-process TCP, epoll, eventfd and timerfd.  Descriptors start at VFD0 so that
// they cannot collide with real ones.  The model follows Linux where it matters
// for an application: edge triggered events, half close, RST after data on a
// closed socket, ENOTCONN on shutdown of a dead connection, finite windows.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "internal.hpp"
#include <arpa/inet.h>
#include <deque>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <map>
#include <memory>
#include <netdb.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <stdarg.h>
#include <stdlib.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/timerfd.h>
#include <sys/uio.h>
#include <unistd.h>

namespace sim { namespace net {
NetConfig cfg;
static const int VFD0 = 1 << 20;
struct Epoll; struct Obj; using P = std::shared_ptr<Obj>;
struct Item { std::weak_ptr<Obj> obj; int fd; epoll_event ev; bool queued = false; Epoll *ep; };
struct Obj {
	enum T { SOCK, LISTEN, EVENTFD, TIMERFD, EPOLL } type;
	int fd = -1; bool nonblock = false;
	std::vector<std::shared_ptr<Item>> items;   // epoll registrations
	virtual ~Obj() {}
	virtual u32 mask() = 0;
};
struct Epoll : Obj { std::map<int, std::shared_ptr<Item>> reg; std::deque<std::shared_ptr<Item>> ready; Epoll() { type = EPOLL; } u32 mask() override { return ready.empty() ? 0 : EPOLLIN; } };
struct EventFd : Obj { u64 n = 0; bool sem = false; EventFd() { type = EVENTFD; } u32 mask() override { return (n ? EPOLLIN : 0) | EPOLLOUT; } };
struct TimerFd : Obj { i64 when = -1; u64 gen = 0, expired = 0; i64 interval = 0; TimerFd() { type = TIMERFD; } u32 mask() override { return expired ? EPOLLIN : 0; } };
struct Sock; using SP = std::shared_ptr<Sock>;
struct Sock : Obj {
	enum S { NEW, CONNECTING, UP, DEAD } st = NEW;
	u16 lport = 0, rport = 0, listen_port = 0;      // listen_port: the server side port of this connection
	std::weak_ptr<Sock> peer;
	std::string rx; size_t rxoff = 0; bool rx_fin = false, tx_shut = false, rd_shut = false, closed = false;
	int err = 0;
	size_t inflight = 0;                            // bytes on their way to the peer
	bool cut = false;                               // the direction from here is dead (bytes vanish)
	i64 last_arrival = 0;
	bool server = false; u64 id = 0;
	bool is_listen = false; u32 backlog = 0; std::deque<SP> acceptq;
	Sock() { type = SOCK; }
	bool tx_full = false, rx_hold = false;          // after an injected short send / receive: no room / no data until the next edge
	size_t queued() const { return rx.size() - rxoff; }
	size_t avail() const { return rx_hold ? 0 : queued(); }
	size_t window() { SP p = peer.lock(); if (!p) return 1; if (tx_full) return 0; size_t used = p->queued() + inflight; return used >= cfg.rcvbuf ? 0 : cfg.rcvbuf - used; }
	u32 mask() override {
		if (is_listen) return acceptq.empty() ? 0 : EPOLLIN;
		u32 m = 0;
		if (st == NEW) return EPOLLOUT | EPOLLHUP;
		if (err) m |= EPOLLERR | EPOLLIN | EPOLLOUT;
		if (st == DEAD) m |= EPOLLHUP | EPOLLIN | EPOLLOUT | EPOLLRDHUP;
		if (st == UP) {
			if (avail() || (rx_fin && !rx_hold) || rd_shut) m |= EPOLLIN;
			if (rx_fin) m |= EPOLLRDHUP;
			if (rx_fin && tx_shut) m |= EPOLLHUP;
			if (tx_shut || window()) m |= EPOLLOUT;
		}
		return m;
	}
};
static std::vector<P> *tab;
static std::map<u16, std::weak_ptr<Sock>> *listeners;
static std::vector<std::weak_ptr<Sock>> *conns;
static std::vector<SP> *graveyard;                  // closed sockets that still receive
static u16 next_port; static u64 next_id, moved, nbroken, nconnects; static bool refuse_all, partitioned;
static void init() { if (!tab) { tab = new std::vector<P>; listeners = new std::map<u16, std::weak_ptr<Sock>>; conns = new std::vector<std::weak_ptr<Sock>>; graveyard = new std::vector<SP>; next_port = 40000; } }
static int install(P o) {
	init();
	for (size_t i = 0; i < tab->size(); ++i) if (!(*tab)[i]) { (*tab)[i] = o; return o->fd = VFD0 + (int)i; }
	tab->push_back(o); return o->fd = VFD0 + (int)tab->size() - 1;
}
static P get(int fd) { if (fd < VFD0 || !tab || (size_t)(fd - VFD0) >= tab->size()) return nullptr; return (*tab)[fd - VFD0]; }
static SP sock(int fd) { P p = get(fd); return p && p->type == Obj::SOCK ? std::static_pointer_cast<Sock>(p) : nullptr; }
static void event(Obj *o) {                          // something about o changed
	for (auto &it : o->items) if (!it->queued && it->ep) { it->queued = true; it->ep->ready.push_back(it); wake(K_EPOLL, it->ep, -1); }
	wake(K_NET, o, -1);
	static int anyone; wake(K_NET, &anyone, -1);     // poll() waiters
}
static void *poll_obj() { static int x; return &x; }
static void ev(Obj *o) { event(o); wake(K_NET, poll_obj(), -1); }
static i64 delay_of() {
	u64 k = 0;
	i64 d = cfg.min_delay, range = cfg.max_delay - cfg.min_delay;
	if (range > 0) { k = draw("net.delay", 0, 7); d += range * (i64)k / 7; }
	if (fault("net.slow_segment", cfg.p_slow)) d += cfg.slow_max * (i64)(1 + fault_value("net.slow_by", 8)) / 8;
	return d;
}
static void kill(SP s, int err) { // local side learns that the connection is dead
	if (!s || s->st == Sock::DEAD) return;
	s->st = Sock::DEAD; s->err = err; s->rx_fin = true;
	mix(0xDEAD0000 + s->id);
	ev(s.get());
}
static void send_rst(SP from, SP to, i64 d) {
	if (!to) return;
	post_event(now() + d, [to] { kill(to, ECONNRESET); });
	(void)from;
}
static void deliver(SP from, SP to, std::string data, bool fin);
static void deliver_at(i64 t, SP from, SP to, std::string data, bool fin) { post_event(t, [=] { deliver(from, to, data, fin); }); }
static void deliver(SP from, SP to, std::string data, bool fin) {
	if (partitioned) { deliver_at(now() + 200 * MS, from, to, std::move(data), fin); return; }
	from->inflight -= data.size();
	if (to->st == Sock::DEAD) return;
	if (to->closed) { if (data.size()) { to->st = Sock::DEAD; send_rst(to, from, cfg.min_delay); } else if (fin) to->rx_fin = true; return; }
	if (to->rd_shut && data.size()) { ev(from.get()); return; }
	moved += data.size();
	mix(0xD47A0000 + to->id * 131 + data.size());
	if (to->rxoff > 65536) { to->rx.erase(0, to->rxoff); to->rxoff = 0; }
	to->rx += data;
	if (fin) to->rx_fin = true;
	ev(to.get());
}
// transmit: called in the sender's context
static void transmit(SP s, std::string data, bool fin) {
	SP p = s->peer.lock();
	if (!p || s->cut) { return; }
	i64 t = now() + delay_of();
	if (t < s->last_arrival) t = s->last_arrival;
	if (fault("net.reset", cfg.p_reset)) {
		size_t k = data.empty() ? 0 : fault_value("net.reset_after", data.size() + 1);
		s->inflight += k; deliver_at(t, s, p, data.substr(0, k), false);
		s->cut = p->cut = true; ++nbroken;
		note("connection %llu is reset after %zu of %zu bytes", (unsigned long long)s->id, k, data.size());
		send_rst(s, p, t - now() + 1000); send_rst(p, s, fault_value("net.reset_lag", 4) * cfg.max_delay + cfg.min_delay);
		s->last_arrival = t; return;
	}
	if (data.size() && fault("net.truncate", cfg.p_fin)) {   // the sending host vanishes orderly in the middle of a message
		size_t k = fault_value("net.truncate_after", data.size());
		s->inflight += k; deliver_at(t, s, p, data.substr(0, k), true);
		s->cut = true; ++nbroken;
		note("connection %llu ends after %zu of %zu bytes", (unsigned long long)s->id, k, data.size());
		send_rst(p, s, cfg.max_delay); s->last_arrival = t; return;
	}
	if (data.size() && fault("net.corrupt", cfg.p_corrupt)) data[fault_value("net.corrupt_at", data.size())] ^= 1 << fault_value("net.corrupt_bit", 8);
	// large writes travel as several segments
	size_t off = 0;
	while (data.size() - off > 16384) { std::string part = data.substr(off, 16384); s->inflight += part.size(); deliver_at(t, s, p, part, false); off += 16384; t += 20 * US; }
	if (off) data.erase(0, off);
	s->inflight += data.size();
	deliver_at(t, s, p, std::move(data), fin);
	s->last_arrival = t;
}
static void window_update(SP s) { // reader consumed: the peer may write again
	SP p = s->peer.lock();
	if (p && !p->closed) post_event(now() + cfg.min_delay, [p] { ev(p.get()); });
}
static void syn(SP c, u16 port, int attempt) {
	if (c->closed || c->st != Sock::CONNECTING) return;
	if (partitioned) { if (attempt > 600) { c->err = ETIMEDOUT; c->st = Sock::DEAD; ev(c.get()); return; } post_event(now() + 200 * MS, [=] { syn(c, port, attempt + 1); }); return; }
	SP l; auto i = listeners->find(port); if (i != listeners->end()) l = i->second.lock();
	if (!l || l->closed || refuse_all) { c->err = ECONNREFUSED; c->st = Sock::DEAD; ev(c.get()); return; }
	if (l->acceptq.size() > l->backlog) { if (attempt > 30) { c->err = ETIMEDOUT; c->st = Sock::DEAD; ev(c.get()); return; } post_event(now() + 1 * SEC, [=] { syn(c, port, attempt + 1); }); return; }
	SP s = std::make_shared<Sock>(); s->st = Sock::UP; s->server = true; s->lport = port; s->rport = c->lport; s->listen_port = c->listen_port = port;
	s->id = c->id; s->peer = c; c->peer = s;
	graveyard->push_back(s);                        // keeps it alive while it sits in flight
	conns->push_back(s); conns->push_back(c);
	c->st = Sock::UP;
	l->acceptq.push_back(s);
	mix(0xC0110000 + s->id);
	ev(c.get()); ev(l.get());
}
static int do_close(P o) {
	(*tab)[o->fd - VFD0] = nullptr;
	for (auto &it : o->items) { if (it->ep) it->ep->reg.erase(it->fd); it->ep = nullptr; }
	o->items.clear();
	if (o->type == Obj::EPOLL) { auto e = static_cast<Epoll *>(o.get()); for (auto &r : e->reg) { r.second->ep = nullptr; if (auto x = r.second->obj.lock()) for (size_t i = 0; i < x->items.size(); ++i) if (x->items[i] == r.second) { x->items.erase(x->items.begin() + i); break; } } e->reg.clear(); e->ready.clear(); }
	if (o->type == Obj::SOCK) {
		SP s = std::static_pointer_cast<Sock>(o);
		graveyard->push_back(s);
		if (s->is_listen) {
			listeners->erase(s->lport);
			for (auto &q : s->acceptq) { q->closed = true; q->st = Sock::DEAD; send_rst(q, q->peer.lock(), cfg.min_delay); }
			s->acceptq.clear();
		} else if (s->st == Sock::UP) {
			if (s->avail()) { s->st = Sock::DEAD; send_rst(s, s->peer.lock(), delay_of()); }
			else if (!s->tx_shut) { s->tx_shut = true; transmit(s, "", true); }
		}
		s->closed = true;
		wake(K_NET, s.get(), -1);
	}
	return 0;
}
// ---- public
std::size_t open_connections() { Guard g; if (!conns) return 0; size_t n = 0; for (auto &w : *conns) if (auto s = w.lock()) if (!s->closed && s->st == Sock::UP) ++n; return n; }
void reset_all(u16 port) {
	Guard g; if (!conns) return;
	for (auto &w : *conns) if (auto s = w.lock()) if (s->listen_port == port && s->st == Sock::UP) { s->cut = true; ++nbroken; SP x = s; post_event(now() + cfg.min_delay, [x] { kill(x, ECONNRESET); }); }
	count(R->faults, R->nfaults_c, "net.reset_all", 1);
}
void set_refuse(bool b) { refuse_all = b; if (b) { Guard g; count(R->faults, R->nfaults_c, "net.refuse_phase", 1); } }
void set_partition(bool b) { partitioned = b; if (b) { Guard g; count(R->faults, R->nfaults_c, "net.partition", 1); } }
u64 bytes_moved() { return moved; }
u64 broken() { return nbroken; }
u64 connects() { return nconnects; }
int open_vfds() { int n = 0; if (tab) for (auto &p : *tab) if (p) ++n; return n; }
}
using namespace net;
bool net_owns(int fd) { return fd >= VFD0; }
int net_close(int fd) {
	Guard g; schedpoint();
	P o = get(fd);
	if (!o) { errno = EBADF; return -1; }
	return do_close(o);
}
static ssize_t fail(int e) { errno = e; return -1; }
static ssize_t sock_send(int fd, const struct iovec *v, int c, int flags) {
	Guard g; schedpoint();
	SP s = sock(fd);
	if (!s) return fail(get(fd) ? ENOTSOCK : EBADF);
	size_t n = 0; for (int i = 0; i < c; ++i) n += v[i].iov_len;
	for (;;) {
		if (s->err) { int e = s->err; s->err = 0; return fail(e); }
		if (s->st == Sock::NEW || s->st == Sock::CONNECTING) return fail(s->st == Sock::NEW ? ENOTCONN : EAGAIN);
		if (s->st == Sock::DEAD || s->tx_shut) return fail(EPIPE);
		if (n == 0) return 0;
		size_t w = s->cut ? n : s->window();
		if (w) {
			size_t m = n < w ? n : w;
			if (m > 1 && fault("net.short_send", net::cfg.p_short)) {
				m = 1 + fault_value("net.short_send_len", m - 1);
				// a short non-blocking send means that the buffer was full: room comes back later, with an edge
				s->tx_full = true; post_event(now() + 20 * US, [s] { s->tx_full = false; ev(s.get()); });
			}
			std::string d; d.reserve(m);
			for (int i = 0; i < c && d.size() < m; ++i) d.append((const char *)v[i].iov_base, std::min(v[i].iov_len, m - d.size()));
			transmit(s, std::move(d), false);
			return m;
		}
		if (s->nonblock || (flags & MSG_DONTWAIT)) return fail(EAGAIN);
		block(K_NET, s.get());
		if (s->closed) return fail(EBADF);
	}
}
static ssize_t sock_recv(int fd, const struct iovec *v, int c, int flags) {
	Guard g; schedpoint();
	SP s = sock(fd);
	if (!s) return fail(get(fd) ? ENOTSOCK : EBADF);
	size_t n = 0; for (int i = 0; i < c; ++i) n += v[i].iov_len;
	for (;;) {
		if (s->avail()) {
			size_t m = std::min(n, s->avail());
			if (m > 1 && !(flags & MSG_PEEK) && fault("net.short_recv", net::cfg.p_short / 4)) {
				m = 1 + fault_value("net.short_recv_len", m - 1);
				// a short receive means that there was no more: the rest arrives later, with an edge
				s->rx_hold = true; post_event(now() + 20 * US, [s] { s->rx_hold = false; ev(s.get()); });
			}
			size_t done = 0;
			for (int i = 0; i < c && done < m; ++i) { size_t k = std::min(v[i].iov_len, m - done); memcpy(v[i].iov_base, s->rx.data() + s->rxoff + done, k); done += k; }
			if (!(flags & MSG_PEEK)) { s->rxoff += m; if (s->rxoff == s->rx.size()) { s->rx.clear(); s->rxoff = 0; } window_update(s); }
			return m;
		}
		if (s->err) { int e = s->err; s->err = 0; return fail(e); }
		if (s->st == Sock::NEW) return fail(ENOTCONN);
		if ((s->rx_fin && !s->rx_hold) || s->rd_shut || s->st == Sock::DEAD) return 0;
		if (n == 0) return 0;
		if (s->nonblock || (flags & MSG_DONTWAIT)) return fail(EAGAIN);
		block(K_NET, s.get());
		if (s->closed) return fail(EBADF);
	}
}
ssize_t net_writev(int fd, const struct iovec *v, int c) {
	P o = get(fd);
	if (o && o->type == Obj::EVENTFD) {
		Guard g; schedpoint();
		u64 x = 0; memcpy(&x, v[0].iov_base, std::min<size_t>(8, v[0].iov_len));
		static_cast<EventFd *>(o.get())->n += x; ev(o.get()); return 8;
	}
	return sock_send(fd, v, c, 0);
}
ssize_t net_readv(int fd, const struct iovec *v, int c) {
	P o = get(fd);
	if (o && (o->type == Obj::EVENTFD || o->type == Obj::TIMERFD)) {
		Guard g; schedpoint();
		for (;;) {
			u64 *n = o->type == Obj::EVENTFD ? &static_cast<EventFd *>(o.get())->n : &static_cast<TimerFd *>(o.get())->expired;
			if (*n) { u64 x = *n; *n = 0; memcpy(v[0].iov_base, &x, 8); return 8; }
			if (o->nonblock) return fail(EAGAIN);
			block(K_NET, o.get());
		}
	}
	return sock_recv(fd, v, c, 0);
}
ssize_t net_write(int fd, const void *p, size_t n) { struct iovec v{(void *)p, n}; return net_writev(fd, &v, 1); }
ssize_t net_read(int fd, void *p, size_t n) { struct iovec v{p, n}; return net_readv(fd, &v, 1); }

namespace net {
int raw_connect(u16 port, i64 timeout) {
	int fd = ::socket(AF_INET, SOCK_STREAM, 0);
	sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons(port); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
	int one = 1; ::ioctl(fd, FIONBIO, &one);
	if (::connect(fd, (sockaddr *)&a, sizeof a) && errno != EINPROGRESS) { ::close(fd); return -1; }
	pollfd p{fd, POLLOUT, 0};
	if (::poll(&p, 1, (int)(timeout / MS)) != 1) { ::close(fd); return -1; }
	int e = 0; socklen_t l = sizeof e; ::getsockopt(fd, SOL_SOCKET, SO_ERROR, &e, &l);
	if (e) { ::close(fd); return -1; }
	one = 0; ::ioctl(fd, FIONBIO, &one);
	return fd;
}
}
}
using namespace sim;
using namespace sim::net;
#define EXPORT extern "C" __attribute__((visibility("default")))
static long sysret(long r) { if (r < 0 && r > -4096) { errno = -r; return -1; } return r; }
#define PASS(fd, call) if (!net_owns(fd)) return sysret(call)

EXPORT int socket(int d, int t, int p) noexcept {
	if (!g_active || g_in || (d != AF_INET && d != AF_INET6)) { if (g_active && !g_in && d != AF_UNIX && d != AF_NETLINK) { errno = EAFNOSUPPORT; return -1; } return sysret(raw_syscall(SYS_socket, d, t, p)); }
	Guard g; schedpoint();
	if (fault("net.socket_fails", 0)) { errno = EMFILE; return -1; }
	auto s = std::make_shared<Sock>(); s->nonblock = t & SOCK_NONBLOCK; s->id = ++next_id;
	return install(s);
}
EXPORT int bind(int fd, const struct sockaddr *a, socklen_t l) noexcept {
	PASS(fd, raw_syscall(SYS_bind, fd, (long)a, l));
	Guard g; SP s = sock(fd); if (!s) return fail(EBADF);
	u16 p = ntohs(((sockaddr_in *)a)->sin_port);
	if (p && listeners->count(p) && !(*listeners)[p].expired()) return fail(EADDRINUSE);
	s->lport = p ? p : ++next_port; return 0;
}
EXPORT int listen(int fd, int n) noexcept {
	PASS(fd, raw_syscall(SYS_listen, fd, n));
	Guard g; SP s = sock(fd); if (!s) return fail(EBADF);
	if (!s->lport) s->lport = ++next_port;
	s->is_listen = true; s->backlog = n < 1 ? 1 : n; (*listeners)[s->lport] = s; ev(s.get()); return 0;
}
static void fill(struct sockaddr *a, socklen_t *l, u16 port) {
	if (!a || !l) return;
	sockaddr_in x{}; x.sin_family = AF_INET; x.sin_port = htons(port); x.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
	memcpy(a, &x, std::min<size_t>(*l, sizeof x)); *l = sizeof x;
}
EXPORT int accept4(int fd, struct sockaddr *a, socklen_t *l, int fl) {
	PASS(fd, raw_syscall(SYS_accept4, fd, (long)a, (long)l, fl));
	Guard g; schedpoint();
	SP s = sock(fd); if (!s) return fail(EBADF);
	if (!s->is_listen) return fail(EINVAL);
	while (s->acceptq.empty()) { if (s->nonblock) return fail(EAGAIN); block(K_NET, s.get()); if (s->closed) return fail(EBADF); }
	if (fault("net.accept_fails", net::cfg.p_accept)) { static const int es[] = {EMFILE, ENOMEM, ENFILE, ENOBUFS}; int e = es[fault_value("net.accept_errno", 4)]; if (e == ECONNABORTED) { ++nbroken; SP c = s->acceptq.front(); s->acceptq.pop_front(); c->closed = true; c->st = Sock::DEAD; send_rst(c, c->peer.lock(), net::cfg.min_delay); } else if (!s->acceptq.empty()) { SP x = s; post_event(now() + 10 * MS, [x] { ev(x.get()); }); } return fail(e); }
	SP c = s->acceptq.front(); s->acceptq.pop_front();
	c->nonblock = fl & SOCK_NONBLOCK;
	fill(a, l, c->rport);
	return install(c);
}
EXPORT int accept(int fd, struct sockaddr *a, socklen_t *l) { return accept4(fd, a, l, 0); }
EXPORT int connect(int fd, const struct sockaddr *a, socklen_t l) {
	PASS(fd, raw_syscall(SYS_connect, fd, (long)a, l));
	Guard g; schedpoint();
	SP s = sock(fd); if (!s) return fail(EBADF);
	if (s->st == Sock::UP) return fail(EISCONN);
	if (s->st == Sock::CONNECTING) return fail(EALREADY);
	++nconnects; s->st = Sock::CONNECTING; s->rport = ntohs(((sockaddr_in *)a)->sin_port);
	if (!s->lport) s->lport = ++next_port;
	i64 d = delay_of(); u16 port = s->rport;
	if (fault("net.connect_slow", net::cfg.p_connect_slow)) d += net::cfg.slow_max;
	if (fault("net.refuse", net::cfg.p_refuse)) post_event(now() + d, [s] { if (!s->closed) { s->err = ECONNREFUSED; s->st = Sock::DEAD; ev(s.get()); } });
	else post_event(now() + d, [s, port] { syn(s, port, 0); });
	if (s->nonblock) return fail(EINPROGRESS);
	while (s->st == Sock::CONNECTING) block(K_NET, s.get());
	if (s->err) { int e = s->err; s->err = 0; return fail(e); }
	return 0;
}
EXPORT ssize_t send(int fd, const void *p, size_t n, int f) { PASS(fd, raw_syscall(SYS_sendto, fd, (long)p, n, f, 0, 0)); struct iovec v{(void *)p, n}; return sock_send(fd, &v, 1, f); }
EXPORT ssize_t sendto(int fd, const void *p, size_t n, int f, const struct sockaddr *a, socklen_t l) { PASS(fd, raw_syscall(SYS_sendto, fd, (long)p, n, f, (long)a, l)); struct iovec v{(void *)p, n}; return sock_send(fd, &v, 1, f); }
EXPORT ssize_t sendmsg(int fd, const struct msghdr *m, int f) { PASS(fd, raw_syscall(SYS_sendmsg, fd, (long)m, f)); return sock_send(fd, m->msg_iov, (int)m->msg_iovlen, f); }
EXPORT ssize_t recv(int fd, void *p, size_t n, int f) { PASS(fd, raw_syscall(SYS_recvfrom, fd, (long)p, n, f, 0, 0)); struct iovec v{p, n}; return sock_recv(fd, &v, 1, f); }
EXPORT ssize_t recvfrom(int fd, void *p, size_t n, int f, struct sockaddr *a, socklen_t *l) { PASS(fd, raw_syscall(SYS_recvfrom, fd, (long)p, n, f, (long)a, (long)l)); struct iovec v{p, n}; return sock_recv(fd, &v, 1, f); }
EXPORT ssize_t recvmsg(int fd, struct msghdr *m, int f) { PASS(fd, raw_syscall(SYS_recvmsg, fd, (long)m, f)); return sock_recv(fd, m->msg_iov, (int)m->msg_iovlen, f); }
EXPORT int shutdown(int fd, int how) noexcept {
	PASS(fd, raw_syscall(SYS_shutdown, fd, how));
	Guard g; schedpoint();
	SP s = sock(fd); if (!s) return fail(EBADF);
	if (s->is_listen) { ev(s.get()); return 0; }
	if (s->st != Sock::UP || (s->tx_shut && s->rx_fin)) return fail(ENOTCONN);
	if (how == SHUT_RD || how == SHUT_RDWR) s->rd_shut = true;
	if ((how == SHUT_WR || how == SHUT_RDWR) && !s->tx_shut) { s->tx_shut = true; transmit(s, "", true); }
	ev(s.get());
	return 0;
}
EXPORT int getsockopt(int fd, int lv, int o, void *v, socklen_t *l) noexcept {
	PASS(fd, raw_syscall(SYS_getsockopt, fd, lv, o, (long)v, (long)l));
	Guard g; SP s = sock(fd); if (!s) return fail(EBADF);
	int x = 0;
	if (lv == SOL_SOCKET && o == SO_ERROR) { x = s->err; s->err = 0; }
	else if (lv == SOL_SOCKET && (o == SO_SNDBUF || o == SO_RCVBUF)) x = (int)net::cfg.rcvbuf;
	else if (lv == SOL_SOCKET && o == SO_TYPE) x = SOCK_STREAM;
	memcpy(v, &x, std::min<size_t>(*l, sizeof x)); *l = sizeof x; return 0;
}
EXPORT int setsockopt(int fd, int lv, int o, const void *v, socklen_t l) noexcept { PASS(fd, raw_syscall(SYS_setsockopt, fd, lv, o, (long)v, l)); Guard g; return sock(fd) ? 0 : fail(EBADF); }
EXPORT int getsockname(int fd, struct sockaddr *a, socklen_t *l) noexcept { PASS(fd, raw_syscall(SYS_getsockname, fd, (long)a, (long)l)); Guard g; SP s = sock(fd); if (!s) return fail(EBADF); fill(a, l, s->lport); return 0; }
EXPORT int getpeername(int fd, struct sockaddr *a, socklen_t *l) noexcept { PASS(fd, raw_syscall(SYS_getpeername, fd, (long)a, (long)l)); Guard g; SP s = sock(fd); if (!s) return fail(EBADF); if (s->st != Sock::UP) return fail(ENOTCONN); fill(a, l, s->rport); return 0; }
EXPORT int ioctl(int fd, unsigned long rq, ...) noexcept {
	va_list ap; va_start(ap, rq); void *arg = va_arg(ap, void *); va_end(ap);
	PASS(fd, raw_syscall(SYS_ioctl, fd, rq, (long)arg));
	Guard g; P o = get(fd); if (!o) return fail(EBADF);
	if (rq == FIONBIO) { o->nonblock = *(int *)arg; return 0; }
	if (rq == FIONREAD) { SP s = sock(fd); *(int *)arg = s ? (int)s->avail() : 0; return 0; }
	return 0;
}
static int fcntl_impl(int fd, int cmd, long arg) {
	PASS(fd, raw_syscall(SYS_fcntl, fd, cmd, arg));
	Guard g; P o = get(fd); if (!o) return fail(EBADF);
	if (cmd == F_GETFL) return O_RDWR | (o->nonblock ? O_NONBLOCK : 0);
	if (cmd == F_SETFL) { o->nonblock = arg & O_NONBLOCK; return 0; }
	return 0;
}
EXPORT int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap); return fcntl_impl(fd, cmd, arg); }
EXPORT int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap); return fcntl_impl(fd, cmd, arg); }
EXPORT int poll(struct pollfd *f, nfds_t n, int to) {
	bool ours = false; for (nfds_t i = 0; i < n; ++i) if (net_owns(f[i].fd)) ours = true;
	if (!ours) {
		if (g_active && !g_in && n == 0) { sim::sleep_ns(to < 0 ? 3600 * SEC : to * MS); return 0; }
		return sysret(raw_syscall(SYS_poll, (long)f, n, to));
	}
	Guard g; schedpoint();
	i64 end = to < 0 ? -1 : now() + to * MS;
	for (;;) {
		int k = 0;
		for (nfds_t i = 0; i < n; ++i) {
			P o = get(f[i].fd); f[i].revents = 0;
			if (!o) { if (f[i].fd >= 0) { f[i].revents = POLLNVAL; ++k; } continue; }
			u32 m = o->mask() & (f[i].events | EPOLLERR | EPOLLHUP);
			f[i].revents = m; if (m) ++k;
		}
		if (k || to == 0) return k;
		if (end >= 0 && now() >= end) return 0;
		block(K_NET, poll_obj(), end);
	}
}
// ---- epoll
EXPORT int epoll_create1(int fl) noexcept { if (!g_active || g_in) return sysret(raw_syscall(SYS_epoll_create1, fl)); Guard g; return install(std::make_shared<Epoll>()); }
EXPORT int epoll_create(int) noexcept { return epoll_create1(0); }
EXPORT int epoll_ctl(int ep, int opn, int fd, struct epoll_event *e) noexcept {
	PASS(ep, raw_syscall(SYS_epoll_ctl, ep, opn, fd, (long)e));
	Guard g; schedpoint();
	P p = get(ep); P o = get(fd);
	if (!p || p->type != Obj::EPOLL || !o) return fail(EBADF);
	Epoll *x = static_cast<Epoll *>(p.get());
	auto i = x->reg.find(fd);
	if (opn == EPOLL_CTL_ADD) {
		if (i != x->reg.end()) return fail(EEXIST);
		auto it = std::make_shared<Item>(); it->obj = o; it->fd = fd; it->ev = *e; it->ep = x;
		x->reg[fd] = it; o->items.push_back(it);
		if (o->mask() & (e->events | EPOLLERR | EPOLLHUP)) { it->queued = true; x->ready.push_back(it); wake(K_EPOLL, x, -1); }
		return 0;
	}
	if (i == x->reg.end()) return fail(ENOENT);
	auto it = i->second;
	if (opn == EPOLL_CTL_MOD) {
		it->ev = *e;
		if (!it->queued && (o->mask() & (e->events | EPOLLERR | EPOLLHUP))) { it->queued = true; x->ready.push_back(it); wake(K_EPOLL, x, -1); }
	} else {
		it->ep = nullptr; x->reg.erase(i);
		for (size_t k = 0; k < o->items.size(); ++k) if (o->items[k] == it) { o->items.erase(o->items.begin() + k); break; }
	}
	return 0;
}
EXPORT int epoll_wait(int ep, struct epoll_event *out, int max, int to) {
	PASS(ep, raw_syscall(SYS_epoll_wait, ep, (long)out, max, to));
	Guard g; schedpoint();
	P p = get(ep); if (!p || p->type != Obj::EPOLL) return fail(EBADF);
	Epoll *x = static_cast<Epoll *>(p.get());
	i64 end = to < 0 ? -1 : now() + to * MS;
	for (;;) {
		int n = 0; std::vector<std::shared_ptr<Item>> again;
		while (n < max && !x->ready.empty()) {
			auto it = x->ready.front(); x->ready.pop_front(); it->queued = false;
			if (it->ep != x) continue;
			P o = it->obj.lock(); if (!o) continue;
			u32 m = o->mask() & (it->ev.events | EPOLLERR | EPOLLHUP);
			if (!m) continue;
			out[n].events = m; out[n].data = it->ev.data; ++n;
			if (!(it->ev.events & EPOLLET)) again.push_back(it);
		}
		for (auto &it : again) if (!it->queued) { it->queued = true; x->ready.push_back(it); }
		if (n || to == 0) return n;
		if (end >= 0 && now() >= end) return 0;
		block(K_EPOLL, x, end);
		if (get(ep) != p) return fail(EBADF);
	}
}
EXPORT int epoll_pwait(int ep, struct epoll_event *out, int max, int to, const sigset_t *) { return epoll_wait(ep, out, max, to); }
EXPORT int eventfd(unsigned int n, int fl) noexcept { if (!g_active || g_in) return sysret(raw_syscall(SYS_eventfd2, n, fl)); Guard g; auto e = std::make_shared<EventFd>(); e->n = n; e->nonblock = fl & EFD_NONBLOCK; return install(e); }
EXPORT int timerfd_create(clockid_t c, int fl) noexcept { if (!g_active || g_in) return sysret(raw_syscall(SYS_timerfd_create, c, fl)); Guard g; auto e = std::make_shared<TimerFd>(); e->nonblock = fl & TFD_NONBLOCK; return install(e); }
EXPORT int timerfd_settime(int fd, int fl, const struct itimerspec *n, struct itimerspec *o) noexcept {
	PASS(fd, raw_syscall(SYS_timerfd_settime, fd, fl, (long)n, (long)o));
	Guard g; schedpoint();
	P p = get(fd); if (!p || p->type != Obj::TIMERFD) return fail(EBADF);
	TimerFd *t = static_cast<TimerFd *>(p.get());
	if (o) memset(o, 0, sizeof *o);
	i64 v = (i64)n->it_value.tv_sec * SEC + n->it_value.tv_nsec;
	++t->gen; t->expired = 0; t->when = -1;
	if (v) {
		t->when = fl & TFD_TIMER_ABSTIME ? v : now() + v;
		u64 gen = t->gen; std::weak_ptr<Obj> w = p;
		post_event(t->when, [w, gen] { if (auto q = w.lock()) { auto t = static_cast<TimerFd *>(q.get()); if (t->gen == gen) { t->expired = 1; ev(q.get()); } } });
	}
	return 0;
}
EXPORT int timerfd_gettime(int fd, struct itimerspec *o) noexcept { PASS(fd, raw_syscall(SYS_timerfd_gettime, fd, (long)o)); memset(o, 0, sizeof *o); return 0; }
// ---- names
EXPORT int getaddrinfo(const char *node, const char *service, const struct addrinfo *hints, struct addrinfo **res) {
	if (!g_active || g_in) { static auto f = (int (*)(const char *, const char *, const struct addrinfo *, struct addrinfo **))dlsym(RTLD_NEXT, "getaddrinfo"); return f(node, service, hints, res); }
	Guard g; schedpoint();
	if (fault("dns.fails", net::cfg.p_dns)) { ++net::nbroken; return EAI_AGAIN; }
	block(K_SLEEP, nullptr, now() + 1 * MS);
	struct Both { addrinfo a; sockaddr_in s; };
	Both *b = (Both *)calloc(1, sizeof(Both));
	b->s.sin_family = AF_INET; b->s.sin_port = htons(service ? atoi(service) : 0); b->s.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
	b->a.ai_family = AF_INET; b->a.ai_socktype = SOCK_STREAM; b->a.ai_protocol = IPPROTO_TCP; b->a.ai_addrlen = sizeof b->s; b->a.ai_addr = (sockaddr *)&b->s; b->a.ai_flags = 0x5151;
	*res = &b->a; (void)node; (void)hints;
	return 0;
}
EXPORT void freeaddrinfo(struct addrinfo *a) noexcept { if (a && a->ai_flags == 0x5151) { free(a); return; } static auto f = (void (*)(struct addrinfo *))dlsym(RTLD_NEXT, "freeaddrinfo"); if (a) f(a); }
