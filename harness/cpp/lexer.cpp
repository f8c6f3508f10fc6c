#include "lexref.h"
static void check(const Text &t, const Run &r, const Item *ref, int n) {
  vx_assert((int)r.v.size() == n, "as many tokens and diagnostics as the text has");
  for (int i = 0; i < n; i++) { const Got &g = r.v[i]; const Item &d = ref[i];
#ifdef POSITIONS
    vx_assert(g.line == d.line, "line of the first character"); vx_assert(g.col == d.col, "column of the first character");
#else
    vx_assert((g.kind < 0) == (d.kind < 0), "token or diagnostic");
    vx_assert(same(g.text, d.x, d.n), "text of the token");
    if (d.kind >= 0) { vx_assert(g.kw == d.kw, "keyword flag"); vx_assert(g.id == (d.kind == K_CONST ? constId(d.idx) : std::string(kindName[d.kind])), "kind of the token"); }
    else vx_assert(g.id == "CL1001", "kind of the diagnostic");
#endif
  }
}
static void run(Main::RootManager *rm, const Text &t, bool twice = false) {
  char b[MAXC * 4 + 1]; int k = encode(t.w, t.n, b); static Item ref[MAXT];
  Run r1; Lex l1(rm, &r1); l1.lx.handleNewString(b, l1.sl); l1.finish(); int n = reference(t, ref);
  check(t, r1, ref, n);
  if (twice) { Run r2; l1.run = &r2; l1.start(); for (int i = 0; i < k; i++) l1.lx.handleNewChar(b[i], l1.sl); l1.finish(); check(t, r2, ref, n); } // the same lexer again
  vx_cover("end");
}
#define ROOT Main::RootManager *rm = new Main::RootManager(); Text t; t.n = 0
#define A(nm) hole(t, 9, 126, nm)
#define T(s) add(t, L##s)
#if VX_THOROUGH
#define A3(nm) A(nm)
#else
#define A3(nm)
#endif
#if SET == 1   // what the tokens are
extern "C" void t_any() { ROOT; A("a"); A("b"); A3("c"); run(rm, t); }
extern "C" void t_wide() { ROOT; hole(t, 0x80, 0x7FF, "w"); A("a"); run(rm, t); }
extern "C" void t_wide3() { ROOT; T("x"); hole(t, 0x2000, 0x20FF, "w"); T("y"); hole(t, 0x1F600, 0x1F6FF, "v"); T("1"); run(rm, t); }
extern "C" void t_arabic() { ROOT; T("و"); hole(t, 0x600, 0x6FF, "w"); T("س"); hole(t, 0x600, 0x6FF, "v"); run(rm, t); }
extern "C" void t_keyword() { ROOT; T("d"); A("a"); T("f "); A("b"); T("or "); A3("c"); T("se"); run(rm, t); }
extern "C" void t_number() { ROOT; T("0"); A("a"); T("1"); A("b"); A3("c"); run(rm, t); }
extern "C" void t_float() { ROOT; T("1"); A("a"); A("b"); T("2"); A3("c"); run(rm, t); }
extern "C" void t_float2() { ROOT; T("7.5"); A("a"); T("9"); A("b"); T("32"); run(rm, t); }
extern "C" void t_suffix() { ROOT; T("0x1"); A("a"); A("b"); T("8 "); run(rm, t); }
extern "C" void t_dots() { ROOT; T("."); A("a"); A("b"); T("."); A3("c"); run(rm, t); }
extern "C" void t_angle() { ROOT; T("<"); A("a"); A("b"); T("="); run(rm, t); }
extern "C" void t_colon() { ROOT; T(":"); A("a"); T(":"); A("b"); run(rm, t); }
extern "C" void t_string() { ROOT; T("\""); A("a"); T("\" \""); A("b"); T("\"z"); run(rm, t); }
extern "C" void t_string2() { ROOT; T("\"k"); A("a"); A("b"); T("\""); run(rm, t); }
extern "C" void t_char() { ROOT; T("'"); A("a"); T("'"); A("b"); T("'"); run(rm, t); }
extern "C" void t_comment() { ROOT; T("p/*"); A("a"); A("b"); T("/q*/"); A3("c"); run(rm, t); }
extern "C" void t_line() { ROOT; T("p/"); A("a"); T("q"); A("b"); T("r"); run(rm, t); }
extern "C" void t_hash() { ROOT; T("#"); A("a"); T("\n"); A("b"); T("#"); run(rm, t); }
extern "C" void t_unknown() { ROOT; T("`"); A("a"); T("^"); A("b"); T("§x"); run(rm, t, true); }
extern "C" void t_again() { ROOT; T("a+"); A("a"); T(" a+1 "); A("b"); T("+a"); run(rm, t, true); }
#elif SET == 2  // where they are
extern "C" void t_any() { ROOT; A("a"); A("b"); T("x"); A3("c"); T("y"); run(rm, t); }
extern "C" void t_lines() { ROOT; T("x\n"); A("a"); T("y"); A("b"); T("\nz"); run(rm, t); }
extern "C" void t_comment() { ROOT; T("/*"); A("a"); T("\n"); A("b"); T("*/x\ny"); run(rm, t); }
extern "C" void t_line() { ROOT; T("#"); A("a"); T("b\n"); A("b"); T("//c\nx"); run(rm, t, true); }
extern "C" void t_string() { ROOT; T("\"l"); A("a"); T("\n"); A("b"); T("\"x\ny"); run(rm, t); }
extern "C" void t_unknown() { ROOT; T("x `"); A("a"); T("` "); A("b"); T("y"); run(rm, t); }
extern "C" void t_backtrack() { ROOT; T("1"); A("a"); T("+"); A("b"); T("\nx"); run(rm, t); }
extern "C" void t_backtrack2() { ROOT; T("\"a\" \n"); A("a"); T(" "); A("b"); T("x"); run(rm, t); }
extern "C" void t_wide() { ROOT; hole(t, 0x80, 0x7FF, "w"); T(" x"); hole(t, 0x2000, 0x20FF, "v"); T("y"); run(rm, t); }
extern "C" void t_wide4() { ROOT; T("\""); hole(t, 0x1F600, 0x1F6FF, "v"); A("a"); T("\" x"); run(rm, t); }
extern "C" void t_returns() { ROOT; T("x\r\n"); A("a"); T("\r"); A("b"); T("\t y"); run(rm, t); }
#elif SET == 3  // what string and character literals denote
extern "C" void t_plain() { ROOT; T("\""); A("a"); A("b"); A3("c"); T("\""); run(rm, t); }
extern "C" void t_first() { ROOT; T("\"\\"); A("a"); T("xy"); A("b"); T("\""); run(rm, t); }
extern "C" void t_last() { ROOT; T("\"xy"); A("a"); T("\\"); A("b"); T("\""); run(rm, t); }
extern "C" void t_both() { ROOT; T("\"\\"); A("a"); T("\\"); A("b"); T("\""); run(rm, t); }
extern "C" void t_hex() { ROOT; T("\"p\\x"); A("a"); A("b"); T("q\""); run(rm, t); }
extern "C" void t_hexh() { ROOT; T("\"\\h"); A("a"); T("4\\h4"); A("b"); T("\""); run(rm, t); }
extern "C" void t_unicode() { ROOT; T("\"\\u0"); hole(t, '1', '7', "a"); A("b"); T("7q\""); run(rm, t); }
extern "C" void t_unicode8() { ROOT; T("\"\\U0001F6"); A("a"); A("b"); T("q\""); run(rm, t); }
extern "C" void t_parts() { ROOT; T("\"a\""); A("a"); T("\""); A("b"); T("\"\"\""); run(rm, t); }
extern "C" void t_char() { ROOT; T("'"); A("a"); T("' '\\"); A("b"); T("'"); run(rm, t); }
extern "C" void t_charhex() { ROOT; T("'\\x"); A("a"); A("b"); T("'"); run(rm, t); }
extern "C" void t_arabic() { ROOT; T("\"\\"); hole(t, 0x620, 0x65F, "w"); hole(t, 0x600, 0x6FF, "v"); T("\""); run(rm, t); }
#endif
