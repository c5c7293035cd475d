// Closed world for the real code: libc's socket calls and clocks are replaced here, at link time, so
// that every AF_INET socket of the process lives on the abstract AF_UNIX namespace (deterministic,
// synchronous, private to the process) and time is a variable the explorer owns.
#include "simnet.h"

#include <arpa/inet.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/timerfd.h>
#include <sys/un.h>
#include <time.h>
#include <unistd.h>
#include <netdb.h>
#include <atomic>
#include <map>

namespace {

struct VSock {
    bool used = false;
    bool listener = false;
    quint16 local = 0;
    quint16 peer = 0;
    quint32 peerHost = 0x7f000001;
    bool v6 = false;     // an AF_INET6 socket
    bool peerV6 = false;
    bool connecting = false;
    int pendingErr = 0;
};

const int kMaxFd = 8192;
VSock g_socks[kMaxFd];
quint16 g_nextPort = 40000;
sim::ConnectMode g_connectMode = sim::ConnectAsync;
qint64 g_nowNs = 0;
quint32 g_host = 0x7f000001; // of the next connecting socket
bool g_v6 = false;
std::map<quint16, QByteArray> g_bound;
std::atomic<bool> g_names{true};
int g_failConnects = 0;
int g_failAccepts = 0, g_failAcceptsErr = 0, g_failSockets = 0, g_failSocketsErr = 0;
bool g_rawListener[kMaxFd]; // the harness's own
int g_sendBuffer = 0;        // of accepted sockets, 0: the system's

typedef int (*fn_socket)(int, int, int);
template <typename F> F real(const char *name)
{
    return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}

VSock *vs(int fd)
{
    if (fd < 0 || fd >= kMaxFd || !g_socks[fd].used)
        return nullptr;
    return &g_socks[fd];
}

socklen_t abstractName(quint16 port, struct sockaddr_un *un)
{
    memset(un, 0, sizeof(*un));
    un->sun_family = AF_UNIX;
    int n = snprintf(un->sun_path + 1, sizeof(un->sun_path) - 1, "nrpmc.%d.%u", (int)getpid(), (unsigned)port);
    return offsetof(struct sockaddr_un, sun_path) + 1 + n;
}

// A connecting socket carries its virtual host in its own name, where accept() finds it.
socklen_t hostName(quint32 host, quint16 port, struct sockaddr_un *un)
{
    memset(un, 0, sizeof(*un));
    un->sun_family = AF_UNIX;
    int n = snprintf(un->sun_path + 1, sizeof(un->sun_path) - 1, "nrpmc.%d.host.%d.%u.%u", (int)getpid(), (int)g_v6, (unsigned)host, (unsigned)port);
    return offsetof(struct sockaddr_un, sun_path) + 1 + n;
}
void bindHost(int fd, quint16 port)
{
    if (g_host == 0x7f000001)
        return;
    struct sockaddr_un un;
    socklen_t len = hostName(g_host, port, &un);
    syscall(SYS_bind, fd, &un, len);
}

void fillInet(struct sockaddr *addr, socklen_t *len, quint16 port, quint32 host = 0x7f000001, bool v6 = false)
{
    if (v6) {
        struct sockaddr_in6 in;
        memset(&in, 0, sizeof(in));
        in.sin6_family = AF_INET6;
        in.sin6_port = htons(port);
        quint32 words[4] = {htonl(0x20010db8), 0, 0, htonl(host)};
        memcpy(&in.sin6_addr, words, sizeof(words));
        if (addr && len) {
            socklen_t n = *len < sizeof(in) ? *len : sizeof(in);
            memcpy(addr, &in, n);
            *len = sizeof(in);
        }
        return;
    }
    struct sockaddr_in in;
    memset(&in, 0, sizeof(in));
    in.sin_family = AF_INET;
    in.sin_addr.s_addr = htonl(host);
    in.sin_port = htons(port);
    if (addr && len) {
        socklen_t n = *len < sizeof(in) ? *len : sizeof(in);
        memcpy(addr, &in, n);
        *len = sizeof(in);
    }
}

quint16 portOf(const struct sockaddr *addr)
{
    if (addr->sa_family == AF_INET)
        return ntohs(reinterpret_cast<const struct sockaddr_in *>(addr)->sin_port);
    return ntohs(reinterpret_cast<const struct sockaddr_in6 *>(addr)->sin6_port);
}

quint16 nextPort()
{
    if (g_nextPort >= 60000)
        g_nextPort = 40000;
    return g_nextPort++;
}

} // namespace

namespace sim {

void (*onCall)() = nullptr;

void setConnectMode(ConnectMode m) { g_connectMode = m; }
void setHost(quint32 ip) { g_host = ip; }
void setV6(bool v6) { g_v6 = v6; }
void setNames(bool known) { g_names = known; }
QByteArray boundHost(quint16 port)
{
    auto it = g_bound.find(port);
    return it == g_bound.end() ? QByteArray() : it->second;
}
void setSendBuffer(int bytes) { g_sendBuffer = bytes; }
void failConnects(int err) { g_failConnects = err; }
void failAccepts(int n, int err)
{
    g_failAccepts = n;
    g_failAcceptsErr = err;
}
void failSockets(int n, int err)
{
    g_failSockets = n;
    g_failSocketsErr = err;
}
void resetNet()
{
    g_host = 0x7f000001;
    g_v6 = false;
    g_bound.clear();
    g_names = true;
    g_sendBuffer = 0;
    g_failAccepts = g_failSockets = g_failConnects = 0;
    g_nextPort = 40000;
    g_connectMode = ConnectAsync;
}
qint64 nowNs() { return g_nowNs; }
void setNowNs(qint64 ns) { g_nowNs = ns; }
double wall()
{
    struct timespec ts;
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec / 1e9;
}

int rawConnect(quint16 port)
{
    int fd = real<fn_socket>("socket")(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0);
    if (fd < 0)
        return -1;
    bindHost(fd, nextPort());
    struct sockaddr_un un;
    socklen_t len = abstractName(port, &un);
    if (real<int (*)(int, const struct sockaddr *, socklen_t)>("connect")(fd, reinterpret_cast<struct sockaddr *>(&un), len) != 0) {
        ::close(fd);
        return -1;
    }
    return fd;
}

int rawListen(quint16 port)
{
    int fd = real<fn_socket>("socket")(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0);
    struct sockaddr_un un;
    socklen_t len = abstractName(port, &un);
    if (real<int (*)(int, const struct sockaddr *, socklen_t)>("bind")(fd, reinterpret_cast<struct sockaddr *>(&un), len) != 0) {
        ::close(fd);
        return -1;
    }
    real<int (*)(int, int)>("listen")(fd, 1024);
    g_rawListener[fd] = true;
    return fd;
}

int rawUnixConnect(const char *path)
{
    int fd = real<fn_socket>("socket")(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0);
    struct sockaddr_un un;
    memset(&un, 0, sizeof(un));
    un.sun_family = AF_UNIX;
    strncpy(un.sun_path, path, sizeof(un.sun_path) - 1);
    if (real<int (*)(int, const struct sockaddr *, socklen_t)>("connect")(fd, reinterpret_cast<struct sockaddr *>(&un), sizeof(un)) != 0) {
        ::close(fd);
        return -1;
    }
    return fd;
}

int rawUnixListen(const char *path)
{
    int fd = real<fn_socket>("socket")(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0);
    struct sockaddr_un un;
    memset(&un, 0, sizeof(un));
    un.sun_family = AF_UNIX;
    strncpy(un.sun_path, path, sizeof(un.sun_path) - 1);
    ::unlink(path);
    if (real<int (*)(int, const struct sockaddr *, socklen_t)>("bind")(fd, reinterpret_cast<struct sockaddr *>(&un), sizeof(un)) != 0) {
        ::close(fd);
        return -1;
    }
    real<int (*)(int, int)>("listen")(fd, 1024);
    g_rawListener[fd] = true;
    return fd;
}

} // namespace sim

static inline void called()
{
    if (sim::onCall)
        sim::onCall();
}

extern "C" {

int rename(const char *from, const char *to)
{
    static auto r = real<int (*)(const char *, const char *)>("rename");
    called();
    return r(from, to);
}

int unlink(const char *path)
{
    called();
    return (int)syscall(SYS_unlink, path);
}

int mkdir(const char *path, mode_t mode)
{
    called();
    return (int)syscall(SYS_mkdir, path, mode);
}

int socket(int domain, int type, int protocol)
{
    called();
    static fn_socket r = real<fn_socket>("socket");
    bool stream = (type & ~(SOCK_NONBLOCK | SOCK_CLOEXEC)) == SOCK_STREAM;
    if ((domain == AF_INET || domain == AF_INET6) && stream) {
        if (g_failSockets) {
            if (g_failSockets > 0)
                g_failSockets--;
            errno = g_failSocketsErr;
            return -1;
        }
        int fd = r(AF_UNIX, type, 0);
        if (fd >= 0 && fd < kMaxFd) {
            g_socks[fd] = VSock();
            g_socks[fd].used = true;
            g_socks[fd].v6 = domain == AF_INET6;
        }
        return fd;
    }
    if (domain == AF_INET || domain == AF_INET6) { // no other network traffic exists in this world
        errno = EACCES;
        return -1;
    }
    return r(domain, type, protocol);
}

int close(int fd)
{
    called();
    if (fd >= 0 && fd < kMaxFd)
        g_socks[fd].used = g_rawListener[fd] = false;
    return (int)syscall(SYS_close, fd);
}

int bind(int fd, const struct sockaddr *addr, socklen_t len)
{
    called();
    static auto r = real<int (*)(int, const struct sockaddr *, socklen_t)>("bind");
    VSock *s = vs(fd);
    if (!s)
        return r(fd, addr, len);
    s->local = portOf(addr);
    if (s->local == 0)
        s->local = nextPort();
    char text[INET6_ADDRSTRLEN] = "";
    if (addr->sa_family == AF_INET)
        inet_ntop(AF_INET, &reinterpret_cast<const struct sockaddr_in *>(addr)->sin_addr, text, sizeof(text));
    else
        inet_ntop(AF_INET6, &reinterpret_cast<const struct sockaddr_in6 *>(addr)->sin6_addr, text, sizeof(text));
    g_bound[s->local] = text;
    struct sockaddr_un un;
    socklen_t n = abstractName(s->local, &un);
    return r(fd, reinterpret_cast<struct sockaddr *>(&un), n);
}

int listen(int fd, int backlog)
{
    called();
    static auto r = real<int (*)(int, int)>("listen");
    VSock *s = vs(fd);
    if (s) {
        s->listener = true;
        backlog = 4096;
    }
    return r(fd, backlog);
}

int accept4(int fd, struct sockaddr *addr, socklen_t *len, int flags)
{
    called();
    static auto r = real<int (*)(int, struct sockaddr *, socklen_t *, int)>("accept4");
    VSock *s = vs(fd);
    if (g_failAccepts && !(fd >= 0 && fd < kMaxFd && g_rawListener[fd])) {
        if (g_failAccepts > 0)
            g_failAccepts--;
        errno = g_failAcceptsErr;
        return -1;
    }
    if (!s) {
        int n = r(fd, addr, len, flags);
        if (n >= 0 && g_sendBuffer)
            real<int (*)(int, int, int, const void *, socklen_t)>("setsockopt")(n, SOL_SOCKET, SO_SNDBUF, &g_sendBuffer, sizeof(int));
        return n;
    }
    struct sockaddr_un from;
    memset(&from, 0, sizeof(from));
    socklen_t fl = sizeof(from) - 1;
    int n = r(fd, reinterpret_cast<struct sockaddr *>(&from), &fl, flags);
    if (n >= 0 && g_sendBuffer)
        real<int (*)(int, int, int, const void *, socklen_t)>("setsockopt")(n, SOL_SOCKET, SO_SNDBUF, &g_sendBuffer, sizeof(int));
    if (n >= 0 && n < kMaxFd) {
        g_socks[n] = VSock();
        g_socks[n].used = true;
        g_socks[n].local = s->local;
        unsigned host = 0, port = 0;
        int pid = 0, v6 = 0;
        g_socks[n].v6 = s->v6;
        if (fl > offsetof(struct sockaddr_un, sun_path) + 1 && sscanf(from.sun_path + 1, "nrpmc.%d.host.%d.%u.%u", &pid, &v6, &host, &port) == 4) {
            g_socks[n].peerHost = host;
            g_socks[n].peerV6 = v6;
            g_socks[n].peer = (quint16)port;
        } else {
            g_socks[n].peer = nextPort();
        }
        fillInet(addr, len, g_socks[n].peer, g_socks[n].peerHost, g_socks[n].peerV6);
    }
    return n;
}

int accept(int fd, struct sockaddr *addr, socklen_t *len)
{
    return accept4(fd, addr, len, 0);
}

int connect(int fd, const struct sockaddr *addr, socklen_t len)
{
    called();
    static auto r = real<int (*)(int, const struct sockaddr *, socklen_t)>("connect");
    VSock *s = vs(fd);
    if (!s)
        return r(fd, addr, len);
    if (s->connecting) { // second call: the answer of the first
        s->connecting = false;
        if (s->pendingErr) {
            errno = s->pendingErr;
            return -1;
        }
        return 0;
    }
    quint16 port = portOf(addr);
    if (!s->local) {
        s->local = nextPort();
        bindHost(fd, s->local);
    }
    s->peer = port;
    if (g_failConnects < 0) { // nothing is ever ready on a timer that is not set
        int t = timerfd_create(CLOCK_MONOTONIC, TFD_NONBLOCK | TFD_CLOEXEC);
        if (t >= 0) {
            syscall(SYS_dup3, t, fd, O_CLOEXEC);
            syscall(SYS_close, t);
        }
        errno = EINPROGRESS;
        return -1;
    }
    struct sockaddr_un un;
    socklen_t n = abstractName(port, &un);
    int rc = g_failConnects ? -1 : r(fd, reinterpret_cast<struct sockaddr *>(&un), n);
    int err = rc == 0 ? 0 : (g_failConnects ? g_failConnects : errno == ENOENT ? ECONNREFUSED : errno);
    if (g_connectMode == sim::ConnectSync) {
        if (err) {
            errno = err;
            return -1;
        }
        return 0;
    }
    s->connecting = true;
    s->pendingErr = err;
    errno = EINPROGRESS;
    return -1;
}

int getsockname(int fd, struct sockaddr *addr, socklen_t *len)
{
    static auto r = real<int (*)(int, struct sockaddr *, socklen_t *)>("getsockname");
    VSock *s = vs(fd);
    if (!s)
        return r(fd, addr, len);
    fillInet(addr, len, s->local, 0x7f000001, s->v6);
    return 0;
}

int getpeername(int fd, struct sockaddr *addr, socklen_t *len)
{
    static auto r = real<int (*)(int, struct sockaddr *, socklen_t *)>("getpeername");
    VSock *s = vs(fd);
    if (!s)
        return r(fd, addr, len);
    if (!s->peer) {
        errno = ENOTCONN;
        return -1;
    }
    fillInet(addr, len, s->peer, s->peerHost, s->peerV6 || (s->v6 && !s->peerV6 && s->peerHost == 0x7f000001));
    return 0;
}

int setsockopt(int fd, int level, int name, const void *val, socklen_t len)
{
    static auto r = real<int (*)(int, int, int, const void *, socklen_t)>("setsockopt");
    VSock *s = vs(fd);
    if (!s)
        return r(fd, level, name, val, len);
    if (level == SOL_SOCKET && (name == SO_SNDBUF || name == SO_RCVBUF))
        return r(fd, level, name, val, len);
    return 0;
}

int getsockopt(int fd, int level, int name, void *val, socklen_t *len)
{
    static auto r = real<int (*)(int, int, int, void *, socklen_t *)>("getsockopt");
    VSock *s = vs(fd);
    if (!s || level == SOL_SOCKET) {
        int rc = r(fd, level, name, val, len);
        return rc;
    }
    if (val && len && *len >= sizeof(int)) {
        *reinterpret_cast<int *>(val) = 0;
        *len = sizeof(int);
    }
    return 0;
}

// The only name there is.
int getaddrinfo(const char *node, const char *service, const struct addrinfo *hints, struct addrinfo **res)
{
    static auto r = real<int (*)(const char *, const char *, const struct addrinfo *, struct addrinfo **)>("getaddrinfo");
    struct addrinfo h;
    memset(&h, 0, sizeof(h));
    if (hints)
        h = *hints;
    h.ai_flags = AI_NUMERICHOST;
    if (node && g_names && strcmp(node, "proxy.test") == 0)
        return r("127.0.0.1", service, &h, res);
    return r(node, service, &h, res);
}

int clock_gettime(clockid_t id, struct timespec *ts)
{
    if (id == CLOCK_PROCESS_CPUTIME_ID || id == CLOCK_THREAD_CPUTIME_ID)
        return (int)syscall(SYS_clock_gettime, id, ts);
    qint64 ns = g_nowNs;
    if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)
        ns += sim::kEpochNs;
    ts->tv_sec = ns / 1000000000LL;
    ts->tv_nsec = ns % 1000000000LL;
    return 0;
}

int gettimeofday(struct timeval *tv, void *)
{
    qint64 ns = g_nowNs + sim::kEpochNs;
    tv->tv_sec = ns / 1000000000LL;
    tv->tv_usec = (ns % 1000000000LL) / 1000;
    return 0;
}

time_t time(time_t *t)
{
    time_t v = (g_nowNs + sim::kEpochNs) / 1000000000LL;
    if (t)
        *t = v;
    return v;
}

} // extern "C"
