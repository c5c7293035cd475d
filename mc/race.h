#pragma once
#include "world.h"

// Exhaustive interleaving of a few endpoints' scripts on the real proxy: every merge of the scripts, and
// between any two actions either nothing, one pass of the event loop, or (optionally) coming to rest.
// The oracle judges the complete history; it depends on what was sent, not on how the loop served it.

struct Act {
    enum Kind { RegClient, RegServer, Data, Close, Frame, Disc, Hello } kind;
    int who; // endpoint
    int a, b;
};
QString actText(const Act &a);

enum RaceInvariant {
    RiNotifyOnce = 1,   // exactly one ClientConnected / ClientDisconnected per client
    RiUp = 2,           // client -> server bytes
    RiDown = 4,         // server -> client bytes
    RiClose = 8,        // who is closed at the end
    RiResp = 16,        // one response per request
    RiUnique = 32,      // addresses and identities
    RiMonitor = 64,     // the monitor's final report
    RiLeak = 128        // nothing arrives at the wrong place
};

struct RaceConfig {
    QString name;
    std::vector<Transport> transports; // per endpoint
    std::vector<int> preServer;        // per endpoint: uuid to register as server beforehand, -1 none
    std::vector<std::pair<int, int>> preClient; // per endpoint: {uuid, server endpoint}, {-1,-1} none
    std::vector<std::vector<Act>> scripts;
    std::vector<int> stalled;  // endpoints that do not read until the scripts are done; their output is backed up in the proxy
    bool settles = false;      // between two actions also: coming to rest
    int maxPasses = 3;   // gaps with one pass (or coming to rest)
    bool bothOrders = true;
    int invariants = 0;
    size_t limit = 200000;
};

struct RaceCheck : Check {
    RaceConfig cfg;
    RaceCheck(const RaceConfig &c) : cfg(c) {}
    void prepare(bool thorough) override;
    size_t count() const override { return m_cases.size(); }
    QString describe(size_t i) const override;
    void run(size_t i, Ctx &ctx) override;
    QString bounds() const override;

private:
    struct Case {
        std::vector<quint8> merge; // which script moves
        std::vector<quint8> gaps;  // after action k: 0 nothing, 1 a pass, 2 coming to rest
        bool desc;
    };
    std::vector<Case> m_cases;
    bool m_cut = false;
};

void addSlowRaces(MultiCheck *m, int invariants);
