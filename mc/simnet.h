#pragma once
#include <QByteArray>
#include <QtGlobal>

namespace sim {
// Virtual 2027-01-01T00:00:00Z
const qint64 kEpochNs = 1798761600LL * 1000000000LL;

enum ConnectMode {
    ConnectAsync, // EINPROGRESS first, result with the next write event (what TCP does)
    ConnectSync   // result within connect() (allowed by POSIX; what a local refusal or no route gives)
};
void setConnectMode(ConnectMode m);
void failConnects(int err); // connect() fails with this from now on, in the way of the mode; < 0: never answers; 0: works
void setHost(quint32 ip);       // the address the next connecting sockets have at the accepting side
void setV6(bool v6);            // ... and whether it is that IPv4 address or 2001:db8:: with it as its last four bytes
QByteArray boundHost(quint16 port); // what the socket last bound to this port was bound to
void setSendBuffer(int bytes);  // of accepted sockets: small ones make a slow reader felt after a few kB
void setNames(bool known);      // whether the name "proxy.test" can be looked up
void failAccepts(int n, int err); // the next n calls of accept() by the program fail (n < 0: all, until the next call of this)
void failSockets(int n, int err); // ... of socket() for a TCP socket
void resetNet();

extern void (*onCall)(); // before each call that changes what others see of the process
qint64 nowNs();
void setNowNs(qint64 ns);
double wall(); // real seconds

// Raw, non-virtual descriptors the harness uses for its own end of a connection.
int rawConnect(quint16 port);
int rawListen(quint16 port);
int rawUnixConnect(const char *path);
int rawUnixListen(const char *path);
} // namespace sim
