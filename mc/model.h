#pragma once
#include "world.h"
#include <QSet>
#include <array>

// Reference model of the proxy: a handful of connection slots, who is registered as what, and which
// messages each operation must produce at each connection. It is explored on its own (breadth first,
// states and transitions counted) and every transition is replayed on the real proxy in lockstep.

enum OpKind {
    OpOpen,       // a: slot
    OpClose,      // a: slot (the peer goes away)
    OpRegServer,  // a: slot, b: uuid
    OpRegClient,  // a: slot, b: uuid, c: server uuid
    OpHello,      // a: slot
    OpPing,       // a: slot
    OpData,       // a: slot (client role), b: payload
    OpFrame,      // a: slot (server role), b: slot whose (last known) tunnel address is used, c: payload
    OpFrameTo,    // a: slot (server role), b: literal address, c: payload
    OpDisc,       // a: slot, b: slot whose (last known) tunnel address is used
    OpDiscTo,     // a: slot, b: literal address
    OpBad,        // a: slot, b: kind of malformed request
    OpNullUuid,   // a: slot, b: 0 server, 1 client with null client uuid, 2 client with null server uuid
    OpTick        // b: ms of silence
};

struct Op {
    OpKind kind;
    int a, b, c;
};
QString opText(const Op &o);

enum Role { Gone, Fresh, Server, Client };

struct MSlot {
    Role role = Gone;
    int uuid = -1;
    int server = -1; // slot of the server (client role)
    int addr = -1;   // tunnel address; last known one after the client left
    int addrServer = -1;
    qint64 idle = 0; // ms since opened (Fresh) or since last received byte (Server)
    bool operator==(const MSlot &o) const { return role == o.role && uuid == o.uuid && server == o.server && addr == o.addr; }
};

struct Expect {
    struct Resp {
        bool ok;
        QString error; // empty: not checked
        int what;      // 0 register/disconnect, 1 hello, 2 ping, 3 error
    };
    struct Note {
        bool connected;
        int slot; // the client slot it is about
        int addr; // for disconnects
    };
    struct DataE {
        int addr;
        QByteArray bytes;
    };
    std::vector<Resp> resp;
    std::vector<Note> notes;
    std::vector<DataE> data;
    bool closed = false;
};

struct MState {
    static const int kMax = 8;
    int n = 0;
    qint64 inactiveTimeout = 8000;
    std::array<MSlot, kMax> s;
    int nextSym = 1; // symbolic addresses while exploring
    // Effects of one operation at each slot. Addresses of new clients: symbolic unless lookup is set.
    void apply(const Op &o, std::array<Expect, kMax> &ex);
    QByteArray key() const;
    bool uuidBusy(int u) const;
    int serverByUuid(int u) const;
    int clientByAddr(int server, int addr) const;

private:
    void drop(int slot, std::array<Expect, kMax> &ex, bool tellPeer);
};

enum Category {
    CatUp = 1,       // data client -> server
    CatDown = 2,     // data server -> client
    CatLeak = 4,     // something arrived where nothing may arrive
    CatResp = 8,     // responses
    CatNote = 16,    // connect/disconnect notifications
    CatClose = 32,   // a connection closed that must not, or stayed open
    CatAddr = 64,    // tunnel addresses
    CatGarbage = 128, // undecodable output
    CatLivelock = 256,
    CatMon = 512,     // the monitor's report
    CatAll = 1023
};

struct LockstepConfig {
    std::vector<Transport> transports; // per slot
    ServerOptions server;
    int categories = CatAll;
    bool checkMonitor = false; // compares the monitor's report after each step
    bool split = false;        // deliver the harness's bytes one by one, the loop running in between
    SimDispatcher::Order order = SimDispatcher::Ascending;
};

QByteArray payloadOf(int i);
int payloadCount();

class Lockstep
{
public:
    Lockstep(Ctx &c, const LockstepConfig &cfg);
    ~Lockstep();
    bool step(const Op &o); // false: mismatch or finished
    MState model;
    World world;
    std::array<std::unique_ptr<Conn>, MState::kMax> conns;
    Ctx &ctx;
    LockstepConfig cfg;
    bool diverged = false; // a mismatch outside the property's categories

private:
    int m_pingStamp = 1000;
    std::array<qint64, MState::kMax> m_opened{};
    void deliver(Conn &c, const QByteArray &d);
    bool mismatch(int cat, const QString &key, const QString &msg);
    bool compare(const Op &o, const std::array<Expect, MState::kMax> &ex, const MState &before, int reqId, const QVariant &stamp);
    bool monitorMatches();
    bool entryMatches(const QVariantMap &e, int slot, const QString &uuidKey, const QString &name);
    bool listMatches(const QVariantList &list, bool all);
};

// Breadth-first exploration of the model over an alphabet; yields the histories to replay.
struct ModelCheck : Check {
    QString name;
    LockstepConfig cfg;
    std::function<std::vector<Op>(const MState &)> alphabet; // enabled operations, simplest first
    std::vector<Op> prefix;      // start from a non-initial state
    int depth = 6;               // bound on the history length
    int memory = 0;              // the last `memory` operations are part of the state identity
    size_t maxTraces = 200000;
    std::function<void(Lockstep &)> atEnd; // extra oracle at the end of each history

    ModelCheck(const QString &n, const LockstepConfig &c, std::function<std::vector<Op>(const MState &)> a, int d, int mem = 0) :
        name(n), cfg(c), alphabet(a), depth(d), memory(mem)
    {
    }
    void prepare(bool thorough) override;
    size_t count() const override { return m_traces.size(); }
    QString describe(size_t i) const override;
    void run(size_t i, Ctx &ctx) override;
    QString bounds() const override;
    quint64 modelStates() const override { return m_states; }
    quint64 modelTransitions() const override { return m_transitions; }

private:
    struct Node {
        int parent;
        Op op;
        int len;
        bool inner; // some longer history contains it
    };
    std::vector<Node> m_nodes;
    std::vector<int> m_traces;
    quint64 m_states = 0, m_transitions = 0;
    bool m_cut = false;
    std::vector<Op> history(int node) const;
};
