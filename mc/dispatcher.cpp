#include "dispatcher.h"
#include "simnet.h"

#include <QCoreApplication>
#include <QEvent>
#include <algorithm>
#include <poll.h>

SimDispatcher *g_disp = nullptr;
std::function<void()> g_idle;
bool g_inProgram = false;

namespace {
struct Inside {
    bool before = g_inProgram;
    explicit Inside(bool in = true) { g_inProgram = in; }
    ~Inside() { g_inProgram = before; }
};
}

static qint64 nowMs() { return sim::nowNs() / 1000000LL; }

void SimDispatcher::registerSocketNotifier(QSocketNotifier *n) { m_notifiers.push_back(n); }

void SimDispatcher::unregisterSocketNotifier(QSocketNotifier *n)
{
    m_notifiers.erase(std::remove(m_notifiers.begin(), m_notifiers.end(), n), m_notifiers.end());
}

void SimDispatcher::registerTimer(int id, int interval, Qt::TimerType type, QObject *object)
{
    Timer t;
    t.id = id;
    t.interval = interval;
    t.due = nowMs() + interval;
    t.seq = m_seq++;
    t.type = type;
    t.object = object;
    t.firing = false;
    m_timers.insert(id, t);
}

bool SimDispatcher::unregisterTimer(int id) { return m_timers.remove(id) > 0; }

bool SimDispatcher::unregisterTimers(QObject *object)
{
    bool any = false;
    for (auto it = m_timers.begin(); it != m_timers.end();) {
        if (it->object == object) {
            it = m_timers.erase(it);
            any = true;
        } else {
            ++it;
        }
    }
    return any;
}

QList<QAbstractEventDispatcher::TimerInfo> SimDispatcher::registeredTimers(QObject *object) const
{
    QList<TimerInfo> out;
    for (const Timer &t : m_timers)
        if (t.object == object)
            out.append(TimerInfo(t.id, (int)t.interval, t.type));
    return out;
}

int SimDispatcher::remainingTime(int id)
{
    if (!m_timers.contains(id))
        return -1;
    qint64 r = m_timers[id].due - nowMs();
    return r < 0 ? 0 : (int)r;
}

void SimDispatcher::flushPosted()
{
    Inside in;
    QCoreApplication::sendPostedEvents();
    QCoreApplication::sendPostedEvents(nullptr, QEvent::DeferredDelete);
}

bool SimDispatcher::fireDue()
{
    bool any = false;
    for (;;) {
        int best = -1;
        for (const Timer &t : m_timers) {
            if (t.firing || t.due > nowMs())
                continue;
            if (best < 0 || t.due < m_timers[best].due || (t.due == m_timers[best].due && t.seq < m_timers[best].seq))
                best = t.id;
        }
        if (best < 0)
            return any;
        Timer &t = m_timers[best];
        QObject *object = t.object;
        t.due = nowMs() + std::max<qint64>(t.interval, 1);
        t.seq = m_seq++;
        t.firing = true;
        any = true;
        m_events++;
        {
            Inside in;
            QTimerEvent e(best);
            QCoreApplication::sendEvent(object, &e);
        }
        if (m_timers.contains(best))
            m_timers[best].firing = false;
        flushPosted();
    }
}

bool SimDispatcher::pass()
{
    quint64 before = m_events;
    flushPosted();

    std::vector<struct pollfd> fds;
    std::vector<QSocketNotifier *> snapshot;
    for (QSocketNotifier *n : m_notifiers) {
        if (!n->isEnabled())
            continue;
        struct pollfd p;
        p.fd = (int)n->socket();
        p.events = n->type() == QSocketNotifier::Read ? POLLIN : n->type() == QSocketNotifier::Write ? POLLOUT : POLLPRI;
        p.revents = 0;
        fds.push_back(p);
        snapshot.push_back(n);
    }
    if (!fds.empty())
        ::poll(fds.data(), fds.size(), 0);
    struct Ready {
        QSocketNotifier *n;
        int fd;
        int type;
    };
    std::vector<Ready> ready;
    for (size_t i = 0; i < fds.size(); ++i) {
        int type = snapshot[i]->type();
        short mask = type == QSocketNotifier::Read ? (POLLIN | POLLHUP | POLLERR) : type == QSocketNotifier::Write ? (POLLOUT | POLLHUP | POLLERR) : POLLPRI;
        if (fds[i].revents & POLLNVAL) {
            snapshot[i]->setEnabled(false);
            continue;
        }
        if (fds[i].revents & mask)
            ready.push_back({snapshot[i], fds[i].fd, type});
    }
    std::sort(ready.begin(), ready.end(), [this](const Ready &a, const Ready &b) {
        if (a.fd != b.fd)
            return m_order == Ascending ? a.fd < b.fd : a.fd > b.fd;
        return a.type < b.type;
    });
    for (const Ready &r : ready) {
        // it may be gone or switched off by an earlier one
        if (std::find(m_notifiers.begin(), m_notifiers.end(), r.n) == m_notifiers.end() || !r.n->isEnabled() || (int)r.n->socket() != r.fd)
            continue;
        m_events++;
        Inside in;
        QEvent e(QEvent::SockAct);
        QCoreApplication::sendEvent(r.n, &e);
    }
    flushPosted();
    fireDue();
    return m_events != before;
}

bool SimDispatcher::settle(int maxPasses)
{
    if (m_busy)
        maxPasses = std::min(maxPasses, m_busy);
    for (int i = 0; i < maxPasses; ++i)
        if (!pass())
            return true;
    return m_busy;
}

qint64 SimDispatcher::nextTimer() const
{
    qint64 best = -1;
    for (const Timer &t : m_timers)
        if (best < 0 || t.due < best)
            best = t.due;
    return best;
}

bool SimDispatcher::advance(qint64 ms)
{
    bool ok = settle();
    qint64 end = nowMs() + ms;
    for (;;) {
        qint64 next = nextTimer();
        if (next < 0 || next > end)
            break;
        if (next > nowMs())
            sim::setNowNs(next * 1000000LL);
        fireDue();
        ok = settle() && ok;
    }
    sim::setNowNs(end * 1000000LL);
    return settle() && ok;
}

bool SimDispatcher::processEvents(QEventLoop::ProcessEventsFlags)
{
    Inside out(false);
    if (pass())
        return true;
    if (g_idle)
        g_idle();
    return false;
}
