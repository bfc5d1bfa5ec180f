#include "term.hh"
#include <cstring>
#include <cstdio>
#include <algorithm>

void Term::init(int r, int c)
{
    rows = r; cols = c;
    main_.assign(r * c, Cell()); alt.assign(r * c, Cell());
    top = 0; bot = r - 1; cy = cx = 0;
}

void Term::resize(int r, int c, bool garbage)
{
    for (std::vector<Cell> *b : {&main_, &alt}) {
        std::vector<Cell> n(r * c);
        for (int y = 0; y < std::min(r, rows); ++y)
            for (int x = 0; x < std::min(c, cols); ++x)
                n[y * c + x] = (*b)[y * cols + x];
        if (garbage)
            for (int i = 0; i < r * c; ++i)
                n[i].ch = "#%&@"[i % 4];
        b->swap(n);
    }
    rows = r; cols = c; top = 0; bot = r - 1; pendingWrap = false;
    clampCursor();
}

void Term::scribble()
{
    std::vector<Cell> &b = cur();
    for (int i = 0; i < rows * cols; ++i) { b[i] = Cell(); b[i].ch = "shell$ "[i % 7]; }
    cy = rows - 1; cx = 0; pendingWrap = false;
}

void Term::clampCursor()
{
    cy = std::max(0, std::min(cy, rows - 1));
    cx = std::max(0, std::min(cx, cols - 1));
}

void Term::scrollUp(int t, int b, int n)
{
    std::vector<Cell> &s = cur();
    n = std::min(n, b - t + 1);
    for (int y = t; y <= b; ++y)
        for (int x = 0; x < cols; ++x)
            s[y * cols + x] = (y + n <= b) ? s[(y + n) * cols + x] : blank();
}

void Term::scrollDown(int t, int b, int n)
{
    std::vector<Cell> &s = cur();
    n = std::min(n, b - t + 1);
    for (int y = b; y >= t; --y)
        for (int x = 0; x < cols; ++x)
            s[y * cols + x] = (y - n >= t) ? s[(y - n) * cols + x] : blank();
}

void Term::lineFeed()
{
    if (cy == bot) scrollUp(top, bot, 1);
    else if (cy < rows - 1) cy++;
}

void Term::revIndex()
{
    if (cy == top) scrollDown(top, bot, 1);
    else if (cy > 0) cy--;
}

void Term::put(unsigned char c)
{
    if (pendingWrap && autowrap) { cx = 0; lineFeed(); }
    pendingWrap = false;
    Cell n = pen;
    n.ch = c;
    if (gset[g1 ? 1 : 0] == '0' && c >= 0x5f && c <= 0x7e) n.attr |= A_ACSF;
    cur()[cy * cols + cx] = n;
    lastCh = c;
    if (cx == cols - 1) pendingWrap = true;
    else cx++;
}

void Term::csi(char fin)
{
    bool priv = false;
    std::string s = seq;
    char lead = 0;
    if (!s.empty() && (s[0] == '?' || s[0] == '>' || s[0] == '!')) { lead = s[0]; priv = true; s.erase(0, 1); }
    std::vector<int> p;
    int v = -1;
    for (char ch : s) {
        if (ch >= '0' && ch <= '9') v = (v < 0 ? 0 : v) * 10 + (ch - '0');
        else if (ch == ';' || ch == ':') { p.push_back(v); v = -1; }
    }
    p.push_back(v);
    auto P = [&](size_t i, int d) { return (i < p.size() && p[i] > 0) ? p[i] : d; };
    std::vector<Cell> &b = cur();
    int n;
    if (priv) {
        if (lead == '?' && (fin == 'h' || fin == 'l')) {
            bool on = fin == 'h';
            for (int q : p) switch (q) {
                case 1: appCursor = on; break;
                case 7: autowrap = on; break;
                case 25: cursorVisible = on; break;
                case 12: case 3: case 4: case 5: case 6: case 8: case 1034: break;
                case 47: case 1047: case 1049:
                    if (on && !altScreen) {
                        altSaveY = cy; altSaveX = cx; altScreen = true;
                        alt.assign(rows * cols, Cell());
                    } else if (!on && altScreen) { altScreen = false; cy = altSaveY; cx = altSaveX; clampCursor(); }
                    pendingWrap = false;
                    break;
                default: break;
            }
            return;
        }
        if (lead == '?' && fin == 'c') return; // linux cursor shape
        if (lead == '!' && fin == 'p') return;
        if (lead == '>') return;
        unknownSeq++; return;
    }
    switch (fin) {
    case 'A': cy = std::max(cy >= top ? top : 0, cy - P(0, 1)); pendingWrap = false; break;
    case 'B': case 'e': cy = std::min(cy <= bot ? bot : rows - 1, cy + P(0, 1)); pendingWrap = false; break;
    case 'C': case 'a': cx = std::min(cols - 1, cx + P(0, 1)); pendingWrap = false; break;
    case 'D': cx = std::max(0, cx - P(0, 1)); pendingWrap = false; break;
    case 'G': case '`': cx = P(0, 1) - 1; clampCursor(); pendingWrap = false; break;
    case 'd': cy = P(0, 1) - 1; clampCursor(); pendingWrap = false; break;
    case 'H': case 'f': cy = P(0, 1) - 1; cx = P(1, 1) - 1; clampCursor(); pendingWrap = false; break;
    case 'J': {
        int m = P(0, 0), from = 0, to = rows * cols;
        if (m == 0) from = cy * cols + cx; else if (m == 1) to = cy * cols + cx + 1;
        for (int i = from; i < to; ++i) b[i] = blank();
        pendingWrap = false;
        break; }
    case 'K': {
        int m = P(0, 0), from = 0, to = cols;
        if (m == 0) from = cx; else if (m == 1) to = cx + 1;
        for (int i = from; i < to; ++i) b[cy * cols + i] = blank();
        pendingWrap = false;
        break; }
    case 'X': n = P(0, 1); for (int i = cx; i < std::min(cols, cx + n); ++i) b[cy * cols + i] = blank(); break;
    case 'P': n = std::min(P(0, 1), cols - cx);
        for (int i = cx; i < cols; ++i) b[cy * cols + i] = (i + n < cols) ? b[cy * cols + i + n] : blank();
        break;
    case '@': n = std::min(P(0, 1), cols - cx);
        for (int i = cols - 1; i >= cx; --i) b[cy * cols + i] = (i - n >= cx) ? b[cy * cols + i - n] : blank();
        break;
    case 'L': if (cy >= top && cy <= bot) scrollDown(cy, bot, P(0, 1)); break;
    case 'M': if (cy >= top && cy <= bot) scrollUp(cy, bot, P(0, 1)); break;
    case 'S': scrollUp(top, bot, P(0, 1)); break;
    case 'T': scrollDown(top, bot, P(0, 1)); break;
    case 'r': { int t = P(0, 1) - 1, e = P(1, rows) - 1;
        if (t < e && e < rows) { top = t; bot = e; } else { top = 0; bot = rows - 1; }
        cy = cx = 0; pendingWrap = false; break; }
    case 'b': n = P(0, 1); for (int i = 0; i < n; ++i) put(lastCh); break;
    case 'Z': { n = P(0, 1); while (n-- > 0 && cx > 0) cx = (cx - 1) / 8 * 8; pendingWrap = false; break; }
    case 'I': { n = P(0, 1); while (n-- > 0) cx = std::min(cols - 1, (cx / 8 + 1) * 8); break; }
    case 'm':
        for (size_t i = 0; i < p.size(); ++i) {
            int q = p[i] < 0 ? 0 : p[i];
            if (q == 0) { pen = Cell(); }
            else if (q == 1) pen.attr |= A_BOLDF;
            else if (q == 4) pen.attr |= A_UNDERF;
            else if (q == 7) pen.attr |= A_REVF;
            else if (q == 3 || q == 2) pen.attr |= A_OTHERF;
            else if (q == 22 || q == 21) pen.attr &= ~(A_BOLDF | A_OTHERF);
            else if (q == 23) pen.attr &= ~A_OTHERF;
            else if (q == 24) pen.attr &= ~A_UNDERF;
            else if (q == 27) pen.attr &= ~A_REVF;
            else if (q == 10) { gset[0] = 'B'; }
            else if (q == 11) { gset[0] = '0'; }
            else if (q >= 30 && q <= 37) { pen.fg = q - 30; colorUsed = true; }
            else if (q == 39) pen.fg = -1;
            else if (q >= 40 && q <= 47) { pen.bg = q - 40; colorUsed = true; }
            else if (q == 49) pen.bg = -1;
            else if ((q == 38 || q == 48) && i + 2 < p.size() && p[i + 1] == 5) {
                (q == 38 ? pen.fg : pen.bg) = (int8_t)(p[i + 2] & 0x7f); colorUsed = true; i += 2;
            }
            else if (q == 5 || q == 8 || q == 25 || q == 28) {}
        }
        break;
    case 'h': case 'l': case 'n': case 'c': case 't': case 'g': case 'q': break;
    case 's': sy = cy; sx = cx; break;
    case 'u': cy = sy; cx = sx; clampCursor(); break;
    default: unknownSeq++; unknownSample = "CSI " + seq + fin;
    }
}

void Term::feed(const char *ptr, size_t len)
{
    bytesSeen += len;
    for (size_t i = 0; i < len; ++i) {
        unsigned char c = ptr[i];
        switch (state) {
        case 0:
            if (c == 27) { state = 1; seq.clear(); }
            else if (c == '\n' || c == 11 || c == 12) { lineFeed(); pendingWrap = false; }
            else if (c == '\r') { cx = 0; pendingWrap = false; }
            else if (c == '\b') { if (cx > 0) cx--; pendingWrap = false; }
            else if (c == '\t') { cx = std::min(cols - 1, (cx / 8 + 1) * 8); }
            else if (c == 14) g1 = true;
            else if (c == 15) g1 = false;
            else if (c == 7 || c == 0) {}
            else if (c < 32) {}
            else put(c);
            break;
        case 1:
            if (c == '[') { state = 2; seq.clear(); }
            else if (c == '(' || c == ')' || c == '*' || c == '+' || c == '#' || c == '%') { state = 3; seq.assign(1, c); }
            else if (c == ']') { state = 4; }
            else {
                state = 0;
                switch (c) {
                case '7': sy = cy; sx = cx; spen = pen; break;
                case '8': cy = sy; cx = sx; pen = spen; clampCursor(); pendingWrap = false; break;
                case 'M': revIndex(); break;
                case 'D': lineFeed(); break;
                case 'E': cx = 0; lineFeed(); break;
                case '=': appKeypad = true; break;
                case '>': appKeypad = false; break;
                case 'c': pen = Cell(); top = 0; bot = rows - 1; cy = cx = 0; cur().assign(rows * cols, Cell()); break;
                case 'H': break;
                default: unknownSeq++; unknownSample = std::string("ESC ") + (char)c;
                }
            }
            break;
        case 2:
            if (c >= 0x40 && c <= 0x7e) { state = 0; csi(c); }
            else seq += (char)c;
            break;
        case 3:
            if (seq[0] == '(') gset[0] = c; else if (seq[0] == ')') gset[1] = c;
            state = 0;
            break;
        case 4:
            if (c == 7) state = 0; else if (c == 27) state = 5;
            break;
        case 5: state = 0; break;
        }
    }
}

std::string Term::dump() const
{
    // rows; each row: text hex-free (printable) with ACS as '+', then attribute runs
    std::string out;
    char buf[64];
    const std::vector<Cell> &s = altScreen ? alt : main_;
    for (int y = 0; y < rows; ++y) {
        std::string txt, at;
        int x = 0;
        for (int i = 0; i < cols; ++i) {
            const Cell &c = s[y * cols + i];
            unsigned char ch = c.ch;
            if (c.attr & A_ACSF) ch = (c.ch == 'q') ? '-' : (c.ch == 'x') ? '|' : '+';
            txt += (char)((ch >= 32 && ch < 127) ? ch : '?');
        }
        while (x < cols) {
            const Cell &c = s[y * cols + x];
            int e = x;
            while (e < cols && s[y * cols + e].attr == c.attr && s[y * cols + e].fg == c.fg && s[y * cols + e].bg == c.bg) e++;
            if (c.attr || c.fg >= 0 || c.bg >= 0) {
                snprintf(buf, sizeof buf, "%d,%d,%d,%d,%d;", x, e, c.attr, c.fg, c.bg);
                at += buf;
            }
            x = e;
        }
        size_t l = txt.find_last_not_of(' ');
        txt.resize(l == std::string::npos ? 0 : l + 1);
        out += txt; out += '\x01'; out += at; out += '\x02';
    }
    return out;
}

uint64_t Term::hash() const
{
    uint64_t h = 1469598103934665603ull;
    const std::vector<Cell> &s = altScreen ? alt : main_;
    for (const Cell &c : s) {
        h = (h ^ c.ch) * 1099511628211ull;
        h = (h ^ (unsigned)((c.attr << 16) | ((uint8_t)c.fg << 8) | (uint8_t)c.bg)) * 1099511628211ull;
    }
    h = (h ^ cy) * 1099511628211ull; h = (h ^ cx) * 1099511628211ull; h = (h ^ rows) * 1099511628211ull;
    return h;
}
