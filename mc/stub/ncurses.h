// A screen in memory with the part of ncurses the monitor uses; included instead of the system's.
#pragma once
#include <string>
#include <vector>

struct WINDOW {
    int y = 0, x = 0, h = 0, w = 0;
    std::vector<std::string> rows;
    void resize(int hh, int ww);
};
extern WINDOW *stdscr;
extern std::vector<WINDOW *> fakeWindows; // alive, in order of creation
extern bool fakeScreenOn;                 // between initscr and endwin
extern int fakeLines, fakeColumns;        // of the terminal when the program starts
extern int fakeKey;                       // what getch returns next, -1: nothing

typedef unsigned long chtype;
#ifndef TRUE
#define TRUE 1
#define FALSE 0
#endif
#define OK 0
#define ERR (-1)
#define KEY_DOWN 0402
#define KEY_UP 0403
#define KEY_LEFT 0404
#define KEY_RIGHT 0405
#define ACS_LTEE '{'
#define ACS_TTEE 'T'
#define ACS_HLINE '-'
#define ACS_VLINE '|'
#define ACS_LLCORNER 'L'
#define ACS_RTEE '}'
#define ACS_ULCORNER 'U'
#define ACS_URCORNER 'u'
#define ACS_LRCORNER 'l'
#define ACS_BTEE 't'
#define ACS_PLUS '+'
#define COLOR_BLACK 0
#define COLOR_RED 1
#define COLOR_GREEN 2
#define COLOR_PAIR(n) ((n) << 8)
#define A_BOLD 0x200000
#define A_NORMAL 0
#define getmaxyx(win, yy, xx) ((yy) = (win)->h, (xx) = (win)->w)

WINDOW *initscr();
WINDOW *newwin(int h, int w, int y, int x);
int delwin(WINDOW *w);
int endwin();
int werase(WINDOW *w);
int wclear(WINDOW *w);
int wresize(WINDOW *w, int h, int width);
int mvwprintw(WINDOW *w, int y, int x, const char *fmt, ...) __attribute__((format(printf, 4, 5)));
int mvwaddch(WINDOW *w, int y, int x, chtype c);
int mvwaddstr(WINDOW *w, int y, int x, const char *s);
int getch();
int wgetch(WINDOW *w);
inline bool has_colors() { return true; }
inline int start_color() { return OK; }
inline int init_pair(int, int, int) { return OK; }
inline int cbreak() { return OK; }
inline int noecho() { return OK; }
inline int nonl() { return OK; }
inline int nodelay(WINDOW *, bool) { return OK; }
inline int curs_set(int) { return OK; }
inline int clear() { return wclear(stdscr); }
inline int erase() { return werase(stdscr); }
inline int keypad(WINDOW *, bool) { return OK; }
inline int refresh() { return OK; }
inline int wrefresh(WINDOW *) { return OK; }
inline int scrollok(WINDOW *, bool) { return OK; }
inline int scroll(WINDOW *) { return OK; }
inline int scrl(int) { return OK; }
inline int wscrl(WINDOW *, int) { return OK; }
inline int box(WINDOW *, chtype, chtype) { return OK; }
inline int wattron(WINDOW *, int) { return OK; }
inline int wattroff(WINDOW *, int) { return OK; }
