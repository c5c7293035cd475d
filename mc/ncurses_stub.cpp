#include "stub/ncurses.h"

#include <algorithm>
#include <cstdarg>
#include <cstdio>

static WINDOW *g_screen = nullptr;
WINDOW *stdscr = nullptr;
std::vector<WINDOW *> fakeWindows;
int fakeKey = -1;
bool fakeScreenOn = false;
int fakeLines = 60, fakeColumns = 220;

void WINDOW::resize(int hh, int ww)
{
    h = hh;
    w = ww;
    rows.resize(std::max(0, hh));
    for (std::string &r : rows)
        r.resize(std::max(0, ww), ' ');
}

WINDOW *newwin(int h, int w, int y, int x)
{
    WINDOW *n = new WINDOW;
    n->y = y;
    n->x = x;
    n->resize(h, w);
    fakeWindows.push_back(n);
    return n;
}

WINDOW *initscr()
{
    g_screen = stdscr = newwin(fakeLines, fakeColumns, 0, 0);
    fakeScreenOn = true;
    return stdscr;
}

int delwin(WINDOW *w)
{
    auto it = std::find(fakeWindows.begin(), fakeWindows.end(), w);
    if (it == fakeWindows.end())
        return ERR;
    fakeWindows.erase(it);
    if (w == stdscr)
        stdscr = nullptr;
    delete w;
    return OK;
}

int endwin()
{
    fakeScreenOn = false;
    return OK;
}

int werase(WINDOW *w)
{
    if (!w)
        return ERR;
    for (std::string &r : w->rows)
        r.assign(r.size(), ' ');
    return OK;
}

int wclear(WINDOW *w) { return werase(w); }

int wresize(WINDOW *w, int h, int width)
{
    w->resize(h, width);
    return OK;
}

int mvwaddch(WINDOW *w, int y, int x, chtype c)
{
    if (!w || y < 0 || x < 0 || y >= w->h || x >= w->w)
        return ERR;
    w->rows[y][x] = char(c);
    return OK;
}

int mvwaddstr(WINDOW *w, int y, int x, const char *s)
{
    if (!w || y < 0 || x < 0 || y >= w->h || x >= w->w)
        return ERR;
    for (; *s; ++s) {
        if (*s == '\n' || x >= w->w) {
            x = 0;
            if (++y >= w->h)
                return ERR;
            if (*s == '\n')
                continue;
        }
        w->rows[y][x++] = *s;
    }
    return OK;
}

int mvwprintw(WINDOW *w, int y, int x, const char *fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(nullptr, 0, fmt, ap);
    va_end(ap);
    std::string s(n + 1, 0);
    va_start(ap, fmt);
    vsnprintf(&s[0], s.size(), fmt, ap);
    va_end(ap);
    return mvwaddstr(w, y, x, s.c_str());
}

int getch()
{
    int k = fakeKey;
    fakeKey = -1;
    return k;
}

int wgetch(WINDOW *) { return getch(); }
