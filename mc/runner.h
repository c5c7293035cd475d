#pragma once
#include <QByteArray>
#include <QString>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>

// What one execution reports.
struct Ctx {
    bool failed = false;
    QString key;      // identifies the failing input/call site/history (known-findings are listed by it)
    QString message;  // for people
    quint64 obsHash = 1469598103934665603ULL;
    bool verbose = false;
    quint64 steps = 0;
    bool stateful = false;

    void fail(const QString &key, const QString &message);
    void observe(const QByteArray &data); // folded into the observation hash (determinism self-test)
    void step() { steps++; }              // one transition of the real code checked against the oracle
    void state(const QByteArray &canonical); // counts distinct abstract states of the implementation seen
    void outcome(const QByteArray &o);       // counts distinct observed outcomes
};

struct Check {
    virtual ~Check() {}
    // enumerates the space for the tier; afterwards count() executions exist
    virtual void prepare(bool thorough) = 0;
    virtual size_t count() const = 0;
    virtual QString describe(size_t i) const = 0;
    virtual void run(size_t i, Ctx &ctx) = 0;
    virtual QString bounds() const = 0; // the stated bounds, for the evidence
    // numbers of the explored reference model, if the check has an explicit one (0: counted at run time)
    virtual quint64 modelStates() const { return 0; }
    virtual quint64 modelTransitions() const { return 0; }
    virtual QStringList assumptions() const;
    int caseSeconds = 60; // real time after which an execution counts as hanging (re-run alone before reporting)
};

typedef std::function<Check *()> CheckFactory;
std::map<std::string, CheckFactory> &checkRegistry();
struct CheckReg {
    CheckReg(const char *id, CheckFactory f) { checkRegistry()[id] = f; }
};

// A check made of several parts, enumerated one after the other.
struct MultiCheck : Check {
    std::vector<std::unique_ptr<Check>> parts;
    std::vector<QString> names;
    void add(const QString &name, Check *c)
    {
        parts.emplace_back(c);
        names.push_back(name);
    }
    std::pair<size_t, size_t> locate(size_t i) const;
    void prepare(bool thorough) override
    {
        for (auto &p : parts)
            p->prepare(thorough);
    }
    size_t count() const override;
    QString describe(size_t i) const override;
    void run(size_t i, Ctx &ctx) override;
    QString bounds() const override;
    quint64 modelStates() const override;
    quint64 modelTransitions() const override;
};

// A check given by a list of closures.
struct ListCheck : Check {
    struct Item {
        QString name;
        std::function<void(Ctx &)> run;
    };
    std::vector<Item> items;
    QString boundsText;
    std::function<void(ListCheck &, bool)> fill;
    ListCheck(const QString &b, std::function<void(ListCheck &, bool)> f) : boundsText(b), fill(f) {}
    void add(const QString &name, std::function<void(Ctx &)> f) { items.push_back({name, f}); }
    void prepare(bool thorough) override { fill(*this, thorough); }
    size_t count() const override { return items.size(); }
    QString describe(size_t i) const override { return items[i].name; }
    void run(size_t i, Ctx &ctx) override { items[i].run(ctx); }
    QString bounds() const override { return boundsText; }
};

extern bool g_thorough;
bool tooBig(int pid);
int forkChild();                      // ends with its parent
int waitChild(int pid, double seconds); // its status; ends it after that time or when it takes too much memory
QString scratchDir(); // private to this process, removed at the end
