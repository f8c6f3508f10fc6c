// Reference tokenizer, written from the language description; works on wide characters that may be symbolic.
#ifndef LEXREF_H
#define LEXREF_H
#include "core.h"
#include "vx.h"
using namespace Core; using namespace Core::Basic;
enum { MAXC = 96, MAXT = 48, MAXX = 64 };
enum { K_ID, K_INT, K_FLOAT, K_CHAR, K_STR, K_SP, K_LC, K_MC, K_CONST };
static const char *const kindName[] = {"LexerDefs.Identifier", "LexerDefs.IntLiteral", "LexerDefs.FloatLiteral", "LexerDefs.CharLiteral", "LexerDefs.StringLiteral"};
static const wchar_t *const consts[] = {L"=", L"+=", L"-=", L"*=", L"/=", L"÷=", L"%=", L"&=", L"|=", L"$=", L"<<=", L">>=", L"==", L"!=", L"<", L">", L"<=", L">=", L"+", L"-", L"*", L"/", L"÷", L"%", L"|", L"$", L"&",
  L"<<", L">>", L"||", L"$$", L"&&", L"or", L"أو", L"nor", L"وليس", L"xor", L"أو_حصرا", L"xnor", L"وليس_حصرا", L"and", L"و", L"nand", L"أو_ليس", L"++", L"--", L"!", L"!!", L"not", L"ليس", L"...", L"->", L".", L".>",
  L"<.", L"=>", L"..", L"..>", L"<.>", L":", L":>", L"<:", L"::", L"::>", L"<::", L"in", L"في", L";", L"؛", L"\\", L"?", L"؟", L",", L"،", L"(", L")", L"[", L"]", L"~", L"{", L"}", L"@", L"@<"};
static const wchar_t *const keywords[] = {L"do", L"import", L"اشمل", L"def", L"عرّف", L"عرف", L"use", L"استخدم", L"dump_ast", L"أدرج_ش_ب_م", L"alias", L"لقب"};
static bool isalnum_(int c) { return (c >= 48 && c <= 57) || (c >= 65 && c <= 90) || (c >= 97 && c <= 122) || c == 95; }
static bool in(int c, int a, int b) { return (unsigned)(c - a) <= (unsigned)(b - a); }
static bool isDig(int c) { return in(c, '0', '9'); }
static bool isHex(int c) { return in(c, '0', '9') || in(c, 'a', 'f') || in(c, 'A', 'F'); }
static bool isLet(int c) { return in(c, 'a', 'z') || in(c, 'A', 'Z') || c == '_' || in(c, 0x620, 0x65F) || in(c, 0x66E, 0x6DC); }
static bool isSp(int c) { return c == ' ' || c == '\r' || c == '\n' || c == '\t' || c == 0x200F; }
struct Text { int w[MAXC]; int n; };     // characters, without the end mark
static int at(const Text &t, int p) { return p < t.n ? t.w[p] : FILE_TERMINATOR; }
static int digs(const Text &t, int p) { while (p < t.n && isDig(t.w[p])) p++; return p; }
// Each returns the end of the longest match starting at p, or p.
static int mIdent(const Text &t, int p) { if (p >= t.n || !isLet(t.w[p])) return p; p++; while (p < t.n && (isLet(t.w[p]) || isDig(t.w[p]))) p++; return p; }
static int mInt(const Text &t, int p) {
  if (p >= t.n || !isDig(t.w[p])) return p;
  int e = p;
  if (t.w[p] == '0' && p + 1 < t.n) { int c = t.w[p + 1], q = p + 2;
    if (c == 'b' || c == 'B' || c == L'ن') { while (q < t.n && in(t.w[q], '0', '1')) q++; }
    else if (c == 'o' || c == 'O' || c == L'م') { while (q < t.n && in(t.w[q], '0', '7')) q++; }
    else if (c == 'h' || c == 'H' || c == 'x' || c == 'X') { while (q < t.n && isHex(t.w[q])) q++; }
    if (q > p + 2) e = q; }
  if (e == p) e = digs(t, p);
  if (e < t.n) { int c = t.w[e]; if (c == 'u' || c == 'U' || c == L'ط') e++; }
  if (e < t.n) { int c = t.w[e]; if (c == 'i' || c == 'I' || c == L'ص') { int q = digs(t, e + 1); if (q > e + 1) e = q; } }
  return e;
}
static int mPost(const Text &t, int p) { if (p < t.n && (t.w[p] == 'f' || t.w[p] == 'F' || t.w[p] == L'ع')) return digs(t, p + 1); return p; }
static int mExp(const Text &t, int p) { if (p < t.n && (t.w[p] == 'e' || t.w[p] == 'E')) { int q = p + 1; if (q < t.n && (t.w[q] == '+' || t.w[q] == '-')) q++; int r = digs(t, q); if (r > q) return r; } return p; }
static int mFloat(const Text &t, int p) {
  int d = digs(t, p), best = p;
  if (d > p) { int q = mPost(t, d); if (q > d) best = q; q = mExp(t, d); if (q > d) { q = mPost(t, q); if (q > best) best = q; } }
  if (at(t, d) == '.') { int q = digs(t, d + 1); if (q > d + 1) { q = mExp(t, q); q = mPost(t, q); if (q > best) best = q; } }
  return best;
}
static int mEsc(const Text &t, int p) { // t[p] is a backslash
  int c = at(t, p + 1), k;
  if (c == '\\' || c == '"' || c == '\'' || c == 'n' || c == 't' || c == 'f' || c == 'r' || c == L'ج' || c == L'ت' || c == L'ر') return p + 2;
  if (c == 'h' || c == 'x') k = 2; else if (c == 'u') k = 4; else if (c == 'U') k = 8; else return p;
  for (int i = 0; i < k; i++) if (p + 2 + i >= t.n || !isHex(t.w[p + 2 + i])) return p;
  return p + 2 + k;
}
static int mCh(const Text &t, int p, int quote) { if (p >= t.n) return p; if (t.w[p] == '\\') return mEsc(t, p); if (t.w[p] == quote) return p; return p + 1; }
static int mChar(const Text &t, int p) { if (at(t, p) != '\'') return p; int q = mCh(t, p + 1, '\''); if (q == p + 1 || at(t, q) != '\'') return p; return q + 1; }
static int mPart(const Text &t, int p) { if (at(t, p) != '"') return p; int q = p + 1; for (;;) { int r = mCh(t, q, '"'); if (r == q) break; q = r; } return at(t, q) == '"' ? q + 1 : p; }
static int mStr(const Text &t, int p) { int e = mPart(t, p); if (e == p) return p; for (;;) { int q = e; while (q < t.n && isSp(t.w[q])) q++; int r = mPart(t, q); if (r == q) return e; e = r; } }
static int mSp(const Text &t, int p) { while (p < t.n && isSp(t.w[p])) p++; return p; }
static int mLine(const Text &t, int p) { int q; if (at(t, p) == '#') q = p + 1; else if (at(t, p) == '/' && at(t, p + 1) == '/') q = p + 2; else return p; while (q < t.n) if (t.w[q++] == '\n') return q; return q; }
static int mMulti(const Text &t, int p) { if (at(t, p) != '/' || at(t, p + 1) != '*') return p; for (int q = p + 2; q + 1 < t.n; q++) if (t.w[q] == '*' && t.w[q + 1] == '/') return q + 2; return p; }
static int mConst(const Text &t, int p, int &idx) {
  int best = p; if (p >= t.n) return p;
  for (int i = 0; i < (int)(sizeof consts / sizeof *consts); i++) { const wchar_t *s = consts[i]; int k = 0; while (s[k] && p + k < t.n && s[k] == t.w[p + k]) k++; if (!s[k] && p + k > best) { best = p + k; idx = i; } }
  return best;
}
static int hexv(int c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
struct Item { int kind, idx, line, col, n; bool kw; int x[MAXX]; }; // kind -1: diagnostic with the unrecognised text
static int unesc(const Text &t, int p, int e, int quote, int *x) { // the characters a string or character literal denotes
  int n = 0; bool inside = false;
  while (p < e) {
    if (!inside) { if (t.w[p] == quote) inside = true; p++; continue; }
    if (t.w[p] == quote) { inside = false; p++; continue; }
    if (t.w[p] != '\\') { x[n++] = t.w[p++]; continue; }
    int c = t.w[p + 1], k = 0; p += 2;
    if (c == 'n' || c == L'ج') x[n++] = '\n'; else if (c == 't' || c == L'ت') x[n++] = '\t'; else if (c == 'r' || c == L'ر') x[n++] = '\r'; else if (c == 'f') x[n++] = '\f';
    else if (c == 'h' || c == 'x') k = 2; else if (c == 'u') k = 4; else if (c == 'U') k = 8; else x[n++] = c;
    if (k) { int v = 0; for (int i = 0; i < k; i++) v = v << 4 | hexv(t.w[p + i]); p += k; x[n++] = v; }
  }
  return n;
}
// Tokens and diagnostics of a text, in order.
static int reference(const Text &t, Item *out, int line0 = 1, int col0 = 1) {
  int n = 0, p = 0, line = line0, col = col0, err = -1;
  while (p < t.n) {
    int ends[9], ci = 0;
    ends[K_ID] = mIdent(t, p); ends[K_INT] = mInt(t, p); ends[K_FLOAT] = mFloat(t, p); ends[K_CHAR] = mChar(t, p); ends[K_STR] = mStr(t, p); ends[K_SP] = mSp(t, p); ends[K_LC] = mLine(t, p); ends[K_MC] = mMulti(t, p); ends[K_CONST] = mConst(t, p, ci);
    int k = K_CONST; for (int i = 0; i < K_CONST; i++) if (ends[i] > ends[k]) k = i;
    int e = ends[k];
    if (e == p) { // not the start of any token
      if (err < 0) { err = n++; Item &d = out[err]; d.kind = -1; d.idx = 0; d.line = line; d.col = col; d.n = 0; d.kw = false; }
      out[err].x[out[err].n++] = t.w[p]; e = p + 1;
    } else {
      err = -1;
      if (k != K_SP && k != K_LC && k != K_MC) {
        Item &d = out[n++]; d.kind = k; d.idx = ci; d.line = line; d.col = col; d.kw = false;
        if (k == K_STR) d.n = unesc(t, p, e, '"', d.x); else if (k == K_CHAR) d.n = unesc(t, p, e, '\'', d.x); else { d.n = e - p; for (int i = p; i < e; i++) d.x[i - p] = t.w[i]; }
        if (k == K_CONST) d.kw = consts[ci][0] != '@';
        if (k == K_ID) for (const wchar_t *w : keywords) { int i = 0; while (i < d.n && w[i] == d.x[i]) i++; if (i == d.n && !w[i]) { d.kw = true; break; } }
      }
    }
    for (; p < e; p++) { if (t.w[p] == '\n') { line++; col = 1; } else if (t.w[p] == '\r') col = 1; else col++; }
  }
  return n;
}
// ---- building texts: '?' style holes are added by the harness
static void add(Text &t, const wchar_t *s) { while (*s) t.w[t.n++] = *s++; }
static void hole(Text &t, int lo, int hi, const char *nm) { t.w[t.n++] = vx_range(lo, hi, nm); }
static int enc(int c, char *b) { // UTF-8 without branching on a symbolic character of known size class
  if (c < 0x80) { b[0] = c; return 1; } if (c < 0x800) { b[0] = 0xC0 | c >> 6; b[1] = 0x80 | (c & 63); return 2; }
  if (c < 0x10000) { b[0] = 0xE0 | c >> 12; b[1] = 0x80 | (c >> 6 & 63); b[2] = 0x80 | (c & 63); return 3; }
  b[0] = 0xF0 | c >> 18; b[1] = 0x80 | (c >> 12 & 63); b[2] = 0x80 | (c >> 6 & 63); b[3] = 0x80 | (c & 63); return 4;
}
static int encode(const int *w, int n, char *b) { int k = 0; for (int i = 0; i < n; i++) k += enc(w[i], b + k); b[k] = 0; return k; }
// ---- running the real lexer
struct Got { int kind; /* 0 token, -1 diagnostic */ std::string id, text; bool kw; int line, col; };
struct Run { std::vector<Got> v; };
static void location(Data::SourceLocation *s, int &l, int &c) { auto r = ti_cast<Data::SourceLocationRecord>(s); l = r ? r->line : -1; c = r ? r->column : -1; }
struct Lex {
  Main::RootManager *rm; Processing::Lexer lx; Run *run; Data::SourceLocationRecord sl;
  Slot<void, Data::Token const *> ts; Slot<void, SharedPtr<Notices::Notice> const &> ns;
  Lex(Main::RootManager *m, Run *r) : rm(m), run(r),
    ts(std::function<void(Data::Token const *)>([this](Data::Token const *t) { auto &s = t->getSourceLocation(); Got g; g.kind = 0; g.id = ID_GENERATOR->getDesc(t->getId()).getBuf(); g.text = std::string(t->getText().getBuf(), t->getText().getLength()); g.kw = t->isKeyword(); g.line = s.line; g.col = s.column; run->v.push_back(g); })),
    ns(std::function<void(SharedPtr<Notices::Notice> const &)>([this](SharedPtr<Notices::Notice> const &n) { Got g; g.kind = -1; g.id = n->getCode().getBuf(); g.kw = false; location(n->getSourceLocation().get(), g.line, g.col);
      if (n->isA<Notices::UnrecognizedCharNotice>()) g.text = n.s_cast_get<Notices::UnrecognizedCharNotice>()->getText().getBuf(); run->v.push_back(g); }))
  { lx.initialize(m->getRootScope()); lx.tokenGenerated.connect(ts); lx.noticeSignal.connect(ns); start(); }
  void start() { sl.filename = "t"; sl.line = 1; sl.column = 1; }
  void finish() { lx.handleNewChar('\n', sl); lx.handleNewChar(FILE_TERMINATOR, sl); } // as the engine does
};
static bool same(const std::string &s, const int *x, int n) { for (int i = 0; i < n; i++) if (x[i] == 0) { n = i; break; } /* a text ends at a NUL */ char b[MAXX * 4 + 1]; int k = encode(x, n, b); if ((int)s.size() != k) return false; bool ok = true; for (int i = 0; i < k; i++) ok &= s[i] == b[i]; return ok; }
static bool modifier(int idx) { return consts[idx][0] == '@'; } // @ and @< stand for themselves; the other constants are one kind, told apart by their text
static std::string constId(int idx) { if (!modifier(idx)) return "CONSTTOKEN"; char b[64]; int n = 0; while (consts[idx][n]) n++; int x[16]; for (int i = 0; i < n; i++) x[i] = consts[idx][i]; int k = encode(x, n, b);
  std::string r = "LexerDefs.__"; for (int i = 0; i < k; i++) { unsigned char c = b[i]; if (isalnum_(c)) r += c; else { r += '_'; r += "0123456789abcdef"[c >> 4]; r += "0123456789abcdef"[c & 15]; } } return r; }
#endif
