#pragma once
#include <QAbstractEventDispatcher>
#include <QList>
#include <QMap>
#include <QSocketNotifier>
#include <functional>
#include <vector>

// Deterministic event dispatcher: the explorer decides when a pass happens, in which order ready
// descriptors are served, and when virtual time moves.
class SimDispatcher : public QAbstractEventDispatcher
{
public:
    enum Order { Ascending, Descending };

    explicit SimDispatcher(QObject *parent = nullptr) : QAbstractEventDispatcher(parent) {}

    bool processEvents(QEventLoop::ProcessEventsFlags flags) override;
    bool hasPendingEvents() override { return false; }
    void registerSocketNotifier(QSocketNotifier *notifier) override;
    void unregisterSocketNotifier(QSocketNotifier *notifier) override;
    void registerTimer(int timerId, int interval, Qt::TimerType timerType, QObject *object) override;
    bool unregisterTimer(int timerId) override;
    bool unregisterTimers(QObject *object) override;
    QList<TimerInfo> registeredTimers(QObject *object) const override;
    int remainingTime(int timerId) override;
    void wakeUp() override {}
    void interrupt() override {}
    void flush() override {}

    // One pass: posted events, then every descriptor that is ready now, in the chosen order, then due timers.
    // Returns whether anything happened.
    bool pass();
    // From now on it may be busy without end (0: no more): only so many passes at a time are made.
    void setBusy(int passes) { m_busy = passes; }
    // Passes until nothing is ready. False if it does not come to rest.
    bool settle(int maxPasses = 20000);
    // Moves virtual time, firing timers in due order and settling after each instant.
    bool advance(qint64 ms);
    qint64 nextTimer() const; // virtual ms of the next due timer, -1 if none
    void setOrder(Order o) { m_order = o; }
    int timerCount() const { return m_timers.size(); }
    int notifierCount() const { return (int)m_notifiers.size(); }
    quint64 eventCount() const { return m_events; }

private:
    struct Timer {
        int id;
        qint64 interval;
        qint64 due;
        quint64 seq;
        Qt::TimerType type;
        QObject *object;
        bool firing;
    };
    bool fireDue();
    static void flushPosted();
    std::vector<QSocketNotifier *> m_notifiers;
    QMap<int, Timer> m_timers;
    Order m_order = Ascending;
    quint64 m_seq = 0;
    int m_busy = 0;
    quint64 m_events = 0;
};

extern SimDispatcher *g_disp;
extern std::function<void()> g_idle; // called by the program's own event loop whenever nothing is ready
extern bool g_inProgram;             // the code under test is running, not the harness
