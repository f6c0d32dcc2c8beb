// A simulated ZeroMQ: the C API subset the message bus uses, in-process transport only, with injected would-block results
// and the library's high-water marks (ROUTER/DEALER/PUB/SUB; default 1000 on each side; DEALER blocks, PUB drops).
#include <zmq.h>

#include <cerrno>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <deque>
#include <map>
#include <memory>
#include <string>
#include <vector>

#include "rt.h"

namespace
{
struct Pipe
{
    std::deque<std::string> q;
    int id = 0;
    bool reader_open = true, writer_open = true;
    int hwm = 2000;   // 0: unlimited
};
struct Socket;
struct Ctx
{
    std::map<std::string, Socket *> bound;
    int next_id = 1;
    int sockets = 0;
    bool shut = false;
};
struct Socket
{
    Ctx *ctx;
    int type;
    int sndhwm = 1000, rcvhwm = 1000;
    bool subscribed = false;
    std::vector<std::string> prefixes;
    std::vector<std::string> bound;
    std::vector<std::shared_ptr<Pipe>> in, out;
    size_t rr = 0;                       // fair queueing cursor
    std::string second;                  // ROUTER: payload frame that follows a handed-out identity frame
    bool has_second = false;
    int more = 0;
    int eagain_left = 0;
    std::vector<Socket *> peers;         // for PUB: connected SUB sockets
};
struct Msg
{
    char *data;
    size_t size;
    zmq_free_fn *ffn;
    void *hint;
    int more;
    int magic;
};
static_assert(sizeof(Msg) <= sizeof(zmq_msg_t), "message layout");
constexpr int MAGIC = 0x5a4d51;
Msg *M(zmq_msg_t *m) { return reinterpret_cast<Msg *>(m); }
const Msg *M(const zmq_msg_t *m) { return reinterpret_cast<const Msg *>(m); }

struct Scope
{
    sim::Quiet q;
    sim::NoAllocFaults n;
};
// A finite burst of would-block results.
bool would_block(Socket *s, const char *kind)
{
    if (s->eagain_left > 0)
    {
        --s->eagain_left;
        return true;
    }
    if (s->eagain_left < 0)   // a burst has just ended: this call succeeds
    {
        s->eagain_left = 0;
        return false;
    }
    long b = sim::choose(kind, 6, 0.1);
    if (!b) return false;
    s->eagain_left = static_cast<int>(b) - 1;
    if (s->eagain_left == 0) s->eagain_left = -1;
    return true;
}
void set_payload(zmq_msg_t *m, const std::string &s, int more)
{
    zmq_msg_close(m);
    zmq_msg_init_size(m, s.size());
    memcpy(M(m)->data, s.data(), s.size());
    M(m)->more = more;
}
bool readable(const Socket *s)
{
    if (s->has_second) return true;
    for (auto &p : s->in)
        if (!p->q.empty()) return true;
    return false;
}
}  // namespace

extern "C"
{
int zmq_errno(void) { return errno; }
const char *zmq_strerror(int e) { return strerror(e); }
void zmq_version(int *a, int *b, int *c)
{
    *a = 4;
    *b = 3;
    *c = 5;
}
void *zmq_ctx_new(void)
{
    Scope sc;
    return new Ctx;
}
int zmq_ctx_set(void *, int, int) { return 0; }
int zmq_ctx_get(void *, int) { return 0; }
int zmq_ctx_shutdown(void *c)
{
    static_cast<Ctx *>(c)->shut = true;
    return 0;
}
int zmq_ctx_term(void *c)
{
    Scope sc;
    Ctx *x = static_cast<Ctx *>(c);
    // The real call blocks until every socket is closed.
    if (x->sockets) sim::violation("context destroyed with open sockets", "ZeroMQ context terminated with %d open socket(s)", x->sockets);
    delete x;
    return 0;
}
void *zmq_socket(void *c, int type)
{
    Scope sc;
    Socket *s = new Socket;
    s->ctx = static_cast<Ctx *>(c);
    s->type = type;
    ++s->ctx->sockets;
    return s;
}
int zmq_close(void *p)
{
    Scope sc;
    Socket *s = static_cast<Socket *>(p);
    for (auto &b : s->bound) s->ctx->bound.erase(b);
    for (auto &x : s->in) x->reader_open = false;
    for (auto &x : s->out) x->writer_open = false;   // what is in the pipe stays readable
    for (auto &kv : s->ctx->bound)
    {
        auto &v = kv.second->peers;
        for (size_t i = 0; i < v.size(); ++i)
            if (v[i] == s) v.erase(v.begin() + static_cast<long>(i--));
        auto &out = kv.second->out;
        out.erase(std::remove_if(out.begin(), out.end(), [](const std::shared_ptr<Pipe> &x) { return !x->reader_open; }), out.end());
        auto &in = kv.second->in;
        in.erase(std::remove_if(in.begin(), in.end(), [](const std::shared_ptr<Pipe> &x) { return !x->writer_open && x->q.empty(); }), in.end());
    }
    --s->ctx->sockets;
    delete s;
    return 0;
}
int zmq_setsockopt(void *p, int opt, const void *v, size_t n)
{
    Scope sc;
    Socket *s = static_cast<Socket *>(p);
    if (opt == ZMQ_SUBSCRIBE)
    {
        s->prefixes.emplace_back(static_cast<const char *>(v ? v : ""), v ? n : 0);
        s->subscribed = true;
    }
    else if (opt == ZMQ_SNDHWM && n == sizeof(int)) s->sndhwm = *static_cast<const int *>(v);
    else if (opt == ZMQ_RCVHWM && n == sizeof(int)) s->rcvhwm = *static_cast<const int *>(v);
    return 0;
}
int zmq_getsockopt(void *p, int opt, void *v, size_t *n)
{
    Socket *s = static_cast<Socket *>(p);
    if (opt == ZMQ_RCVMORE && *n >= sizeof(int)) *static_cast<int *>(v) = s->more;
    else if (opt == ZMQ_EVENTS && *n >= sizeof(int)) *static_cast<int *>(v) = readable(s) ? ZMQ_POLLIN : 0;
    else if (*n >= sizeof(int)) *static_cast<int *>(v) = 0;
    return 0;
}
int zmq_bind(void *p, const char *addr)
{
    Scope sc;
    Socket *s = static_cast<Socket *>(p);
    if (s->ctx->bound.count(addr))
    {
        errno = EADDRINUSE;
        return -1;
    }
    s->ctx->bound[addr] = s;
    s->bound.emplace_back(addr);
    return 0;
}
int zmq_connect(void *p, const char *addr)
{
    Scope sc;
    Socket *s = static_cast<Socket *>(p);
    auto it = s->ctx->bound.find(addr);
    if (it == s->ctx->bound.end())
    {
        errno = ECONNREFUSED;
        return -1;
    }
    Socket *peer = it->second;
    auto pipe = std::make_shared<Pipe>();
    pipe->id = s->ctx->next_id++;
    auto hwm = [](int a, int b) { return a && b ? a + b : 0; };
    if (s->type == ZMQ_DEALER || s->type == ZMQ_PUB || s->type == ZMQ_PUSH)
    {
        pipe->hwm = hwm(s->sndhwm, peer->rcvhwm);
        s->out.push_back(pipe);
        peer->in.push_back(pipe);
    }
    else
    {
        pipe->hwm = hwm(peer->sndhwm, s->rcvhwm);
        s->in.push_back(pipe);
        peer->out.push_back(pipe);
        peer->peers.push_back(s);
    }
    return 0;
}

int zmq_msg_init(zmq_msg_t *m)
{
    memset(static_cast<void *>(m), 0, sizeof *m);
    M(m)->magic = MAGIC;
    return 0;
}
int zmq_msg_init_size(zmq_msg_t *m, size_t n)
{
    zmq_msg_init(m);
    M(m)->data = static_cast<char *>(malloc(n ? n : 1));
    M(m)->size = n;
    return 0;
}
int zmq_msg_init_data(zmq_msg_t *m, void *d, size_t n, zmq_free_fn *f, void *hint)
{
    zmq_msg_init(m);
    M(m)->data = static_cast<char *>(d);
    M(m)->size = n;
    M(m)->ffn = f;
    M(m)->hint = hint;
    return 0;
}
int zmq_msg_close(zmq_msg_t *m)
{
    if (M(m)->magic != MAGIC)
    {
        errno = EFAULT;
        return -1;
    }
    if (M(m)->ffn) M(m)->ffn(M(m)->data, M(m)->hint);
    else free(M(m)->data);
    M(m)->data = nullptr;
    M(m)->size = 0;
    M(m)->ffn = nullptr;
    M(m)->magic = 0;
    return 0;
}
int zmq_msg_move(zmq_msg_t *d, zmq_msg_t *s)
{
    if (d == s) return 0;
    zmq_msg_close(d);
    *M(d) = *M(s);
    zmq_msg_init(s);
    return 0;
}
int zmq_msg_copy(zmq_msg_t *d, zmq_msg_t *s)
{
    if (d == s) return 0;
    zmq_msg_close(d);
    zmq_msg_init_size(d, M(s)->size);
    memcpy(M(d)->data, M(s)->data, M(s)->size);
    return 0;
}
void *zmq_msg_data(zmq_msg_t *m) { return M(m)->data; }
size_t zmq_msg_size(const zmq_msg_t *m) { return M(m)->size; }
int zmq_msg_more(const zmq_msg_t *m) { return M(m)->more; }
int zmq_msg_get(const zmq_msg_t *m, int) { return M(m)->more; }

static int put(Socket *s, const char *d, size_t n, int flags)
{
    if (s->type == ZMQ_PUB)
    {
        // PUB never blocks: a subscriber at its high-water mark misses the message.
        for (size_t i = 0; i < s->out.size(); ++i)
        {
            auto &p = s->out[i];
            if (!p->reader_open) continue;
            Socket *sub = nullptr;
            for (auto *c : s->peers)
                for (auto &ip : c->in)
                    if (ip == p) sub = c;
            if (!sub) continue;
            bool match = false;
            for (auto &pre : sub->prefixes) match = match || (n >= pre.size() && !memcmp(d, pre.data(), pre.size()));
            if (!match) continue;
            if (p->hwm && p->q.size() >= static_cast<size_t>(p->hwm))
            {
                sim::probe("published message dropped at high-water mark");
                continue;
            }
            p->q.emplace_back(d, n);
        }
        return static_cast<int>(n);
    }
    if ((flags & ZMQ_DONTWAIT) && would_block(s, "zmq_send_again"))
    {
        errno = EAGAIN;
        return -1;
    }
    for (auto &p : s->out)
        if (!p->hwm || p->q.size() < static_cast<size_t>(p->hwm))
        {
            p->q.emplace_back(d, n);
            return static_cast<int>(n);
        }
    sim::probe("send refused at high-water mark");
    if (!(flags & ZMQ_DONTWAIT)) sim::violation("no progress", "blocking send on a socket at its high-water mark");
    errno = EAGAIN;
    return -1;
}
int zmq_send(void *p, const void *d, size_t n, int flags)
{
    sim::yield_point();
    Scope sc;
    return put(static_cast<Socket *>(p), static_cast<const char *>(d), n, flags);
}
int zmq_msg_send(zmq_msg_t *m, void *p, int flags)
{
    sim::yield_point();
    Scope sc;
    int r = put(static_cast<Socket *>(p), M(m)->data, M(m)->size, flags);
    if (r >= 0)
    {
        zmq_msg_close(m);
        zmq_msg_init(m);
    }
    return r;
}
int zmq_msg_recv(zmq_msg_t *m, void *p, int flags)
{
    sim::yield_point();
    Scope sc;
    Socket *s = static_cast<Socket *>(p);
    if (s->has_second)
    {
        // Later frames of a multi-part message are available together with the first.
        set_payload(m, s->second, 0);
        s->has_second = false;
        s->more = 0;
        return static_cast<int>(M(m)->size);
    }
    if ((flags & ZMQ_DONTWAIT) && would_block(s, "zmq_recv_again"))
    {
        errno = EAGAIN;
        return -1;
    }
    for (size_t i = 0; i < s->in.size(); ++i)
    {
        auto pipe = s->in[(s->rr + i) % s->in.size()];
        if (pipe->q.empty()) continue;
        std::string payload = std::move(pipe->q.front());
        pipe->q.pop_front();
        s->rr = (s->rr + i + 1) % s->in.size();
        if (s->type == ZMQ_ROUTER)
        {
            std::string id(5, '\0');
            memcpy(&id[1], &pipe->id, 4);
            s->second = std::move(payload);
            s->has_second = true;
            s->more = 1;
            set_payload(m, id, 1);
            return 5;
        }
        s->more = 0;
        set_payload(m, payload, 0);
        return static_cast<int>(M(m)->size);
    }
    if (!(flags & ZMQ_DONTWAIT)) sim::violation("no progress", "blocking receive on an empty socket");
    errno = EAGAIN;
    return -1;
}
int zmq_recv(void *p, void *buf, size_t n, int flags)
{
    zmq_msg_t m;
    zmq_msg_init(&m);
    int r = zmq_msg_recv(&m, p, flags);
    if (r >= 0) memcpy(buf, M(&m)->data, std::min<size_t>(n, static_cast<size_t>(r)));
    zmq_msg_close(&m);
    return r;
}
int zmq_poll(zmq_pollitem_t *items, int n, long timeout)
{
    sim::yield_point();
    Scope sc;
    int ready = 0;
    for (int i = 0; i < n; ++i)
    {
        items[i].revents = 0;
        Socket *s = static_cast<Socket *>(items[i].socket);
        if (s && (items[i].events & ZMQ_POLLIN) && readable(s)) items[i].revents |= ZMQ_POLLIN;
        if (s && (items[i].events & ZMQ_POLLOUT)) items[i].revents |= ZMQ_POLLOUT;
        if (items[i].revents) ++ready;
    }
    if (!ready && timeout < 0) sim::violation("no progress", "infinite poll on empty sockets");
    return ready;
}
}
