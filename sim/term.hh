// Terminal emulator: the simulated screen the program (through the real ncurses) draws on.
#pragma once
#include <string>
#include <vector>
#include <cstdint>

struct Cell { unsigned char ch = ' '; uint8_t attr = 0; int8_t fg = -1, bg = -1; };
enum { A_BOLDF = 1, A_REVF = 2, A_UNDERF = 4, A_ACSF = 8, A_OTHERF = 16 };

class Term {
public:
    int rows = 24, cols = 80;
    int cy = 0, cx = 0;
    bool pendingWrap = false;
    bool altScreen = false, cursorVisible = true, appKeypad = false, appCursor = false;
    bool colorUsed = false;          // any SGR colour was ever set
    unsigned long bytesSeen = 0;
    unsigned long unknownSeq = 0;
    std::string unknownSample;

    void init(int r, int c);
    void feed(const char *p, size_t n);
    void resize(int r, int c, bool garbage);
    void scribble();                 // another program (the shell) wrote on the screen
    const Cell &at(int y, int x) const { return (altScreen ? alt : main_)[y * cols + x]; }
    std::string dump() const;        // textual, run length encoded attributes
    uint64_t hash() const;

private:
    std::vector<Cell> main_, alt;
    int top = 0, bot = 23;
    Cell pen;
    int sy = 0, sx = 0; Cell spen;
    int altSaveY = 0, altSaveX = 0;
    bool g1 = false; char gset[2] = {'B', 'B'};
    unsigned char lastCh = ' ';
    int state = 0;
    std::string seq;
    bool autowrap = true;
    std::vector<Cell> &cur() { return altScreen ? alt : main_; }
    Cell blank() const { Cell c; c.bg = pen.bg; return c; }
    void put(unsigned char c);
    void lineFeed();
    void revIndex();
    void scrollUp(int t, int b, int n);
    void scrollDown(int t, int b, int n);
    void csi(char fin);
    void clampCursor();
};
