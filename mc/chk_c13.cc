// C13: input decks are read as documented and bad decks are refused.
#include "comp.hh"
#include <cstring>
#include <cstdlib>
#include <cmath>
#include <algorithm>
#include <map>
#include <unistd.h>
#include <fcntl.h>
using namespace rt;
namespace {
typedef std::string S;
struct Kvr {
    void *k; static int (*rd)(void *, const char *); static int (*gt)(void *, int, const char *, S &, double &); static void *(*nw)(); static void (*fr)(void *); static void (*rs)(void *);
    static void bind() { nw = fn<void *(*)()>(0, "mcs_kvr_new"); fr = fn<void (*)(void *)>(0, "mcs_kvr_free"); rd = fn<int (*)(void *, const char *)>(0, "mcs_kvr_read"); gt = fn<int (*)(void *, int, const char *, S &, double &)>(0, "mcs_kvr_get"); rs = fn<void (*)(void *)>(0, "mcs_kvr_reset"); }
    Kvr() { k = nw(); } ~Kvr() { fr(k); }
    int read(const S &f) { return rd(k, f.c_str()); }
    int get(int t, const S &key, S &s, double &d) { return gt(k, t, key.c_str(), s, d); }
};
int (*Kvr::rd)(void *, const char *); int (*Kvr::gt)(void *, int, const char *, S &, double &); void *(*Kvr::nw)(); void (*Kvr::fr)(void *); void (*Kvr::rs)(void *);
struct File { S n; int fd; File(const char *suf) : n(fmt("c13_%d%s", scratchPid(), suf)) { fd = open(n.c_str(), O_CREAT | O_RDWR | O_TRUNC, 0600); if (fd < 0) { perror(n.c_str()); exit(2); } } ~File() { close(fd); unlink(n.c_str()); }
    void put(const S &t) { if (ftruncate(fd, 0) || pwrite(fd, t.data(), t.size(), 0) != (ssize_t)t.size()) { perror("write"); exit(2); } } };
S show(const S &s) { S o; for (char c : s) { if (c == '\n') o += "\\n"; else if (c == '\t') o += "\\t"; else if ((unsigned char)c < 32 || (unsigned char)c > 126) o += fmt("\\x%02x", (unsigned char)c); else o += c; } return o; }
bool tokChar(char c) { return isalnum((unsigned char)c) || c == '+' || c == '-' || c == '_' || c == '.'; }
S lower(S s) { for (char &c : s) c = tolower(c); return s; }
// the deck as documented: a line is blank, a comment, or one key and one value made of a-z A-Z 0-9 + - _ .
bool parse(const S &t, std::map<S, S> &kv)
{
    size_t i = 0; while (i < t.size()) {
        size_t e = t.find('\n', i); S l = t.substr(i, e == S::npos ? S::npos : e - i); i = e == S::npos ? t.size() : e + 1;
        size_t h = l.find('#'); if (h != S::npos) l = l.substr(0, h);
        std::vector<S> tok; S cur; for (char c : l) { if (c == ' ' || c == '\t') { if (!cur.empty()) tok.push_back(cur); cur.clear(); } else { if (!tokChar(c)) return false; cur += c; } } if (!cur.empty()) tok.push_back(cur);
        if (tok.empty()) continue; if (tok.size() != 2) return false;
        if (!kv.emplace(lower(tok[0]), tok[1]).second) return false;
    }
    return true;
}
void checkDeck(File &f, const S &t)
{
    f.put(t); std::map<S, S> kv; bool ok = parse(t, kv); Kvr k; int r = k.read(f.n); S s; double d;
    if ((r < 0) != ok) fail(ST_WRONG, "deck '%s' is %s but was %s", show(t).c_str(), ok ? "a good deck" : "a bad deck", r < 0 ? "accepted" : "refused");
    if (ok) {
        for (auto &x : kv) { s = "?"; if (k.get(0, x.first, s, d) >= 0 || s != x.second) fail(ST_WRONG, "deck '%s': the value of '%s' is '%s', not '%s'", show(t).c_str(), x.first.c_str(), show(s).c_str(), x.second.c_str()); }
        for (const char *q : {"zz", "k1", "kv", ""}) if (!kv.count(q)) { if (k.get(0, q, s, d) < 0) fail(ST_WRONG, "deck '%s' has no key '%s', but the value '%s' was returned", show(t).c_str(), q, show(s).c_str()); }
    }
    countCase(ok && !kv.empty());
}
Scenario decks(const S &alpha, int len, int first, int second)
{
    Scenario s; s.name = fmt("decks/%s/length%d/%s%s", show(alpha).c_str(), len, first < 0 ? "" : show(S(1, alpha[first])).c_str(), second < 0 ? "" : show(S(1, alpha[second])).c_str()); s.cpuLimit = 120;
    s.body = [=] { Kvr::bind(); File f(".deck"); S t(len, ' '); int n = alpha.size(), from = 0; if (first >= 0) { t[0] = alpha[first]; from = 1; } if (second >= 0) { t[1] = alpha[second]; from = 2; }
        std::vector<int> ix(len, 0); for (;;) { for (int i = from; i < len; i++) t[i] = alpha[ix[i]]; checkDeck(f, t); int i = len - 1; while (i >= from && ++ix[i] == n) ix[i--] = 0; if (i < from) break; } };
    return s;
}
// line-level decks: sequences of whole lines
Scenario lines(int n)
{
    Scenario s; s.name = fmt("lines/%d", n); s.cpuLimit = 120;
    s.body = [=] { Kvr::bind(); File f(".deck");
        static const std::vector<S> L = {"", "   ", "\t", "# comment", "  # c # d", "a 1", "  a\t\t1  ", "a 1#c", "a 1 # c d", "A 2", "b x_y.z+1-2", "b 1 2", "b", " b # 1", "c$ 1", "c 1$", "a=1", "\"q\" 1", "b\t-1", "bb 1", "\r", "a 1\r", "ab 5"};
        std::vector<size_t> ix(n, 0); for (;;) { S t; for (int i = 0; i < n; i++) t += L[ix[i]] + (i + 1 < n ? "\n" : ""); checkDeck(f, t); checkDeck(f, t + "\n"); int i = n - 1; while (i >= 0 && ++ix[i] == L.size()) ix[i--] = 0; if (i < 0) break; } };
    return s;
}
bool isInt(const S &v) { size_t i = v.size() && (v[0] == '+' || v[0] == '-'); if (i >= v.size()) return false; for (; i < v.size(); i++) if (!isdigit((unsigned char)v[i])) return false; return true; }
bool isDec(const S &v)
{
    size_t i = v.size() && (v[0] == '+' || v[0] == '-'); int nd = 0; while (i < v.size() && isdigit((unsigned char)v[i])) { i++; nd++; } if (i < v.size() && v[i] == '.') { i++; while (i < v.size() && isdigit((unsigned char)v[i])) { i++; nd++; } }
    if (!nd) return false; if (i == v.size()) return true; if (v[i] != 'e' && v[i] != 'E') return false; i++; if (i < v.size() && (v[i] == '+' || v[i] == '-')) i++; if (i == v.size()) return false; for (; i < v.size(); i++) if (!isdigit((unsigned char)v[i])) return false; return true;
}
void checkValue(File &f, const S &v)
{
    f.put("key " + v + "\n"); Kvr k; S s; double d; if (k.read(f.n) >= 0) fail(ST_WRONG, "the deck 'key %s' is refused", show(v).c_str());
    if (k.get(0, "key", s, d) >= 0 || s != v) fail(ST_WRONG, "string value '%s' is returned as '%s'", v.c_str(), show(s).c_str());
    int r = k.get(1, "key", s, d); bool ok = isInt(v); if (ok) { errno = 0; long long x = strtoll(v.c_str(), nullptr, 10); ok = !errno && x >= -2147483648ll && x <= 2147483647ll; if (ok && r < 0 && d != (double)x) fail(ST_WRONG, "integer value '%s' is returned as %g", v.c_str(), d); }
    if ((r < 0) != ok) fail(ST_WRONG, "value '%s' is %s integer but was %s", v.c_str(), ok ? "an" : "no", r < 0 ? fmt("accepted as %g", d).c_str() : "refused");
    for (int t = 2; t <= 3; t++) {
        bool dec = isDec(v); double x = 0; bool over = false, under = false; if (dec) { if (t == 2) { x = strtod(v.c_str(), nullptr); over = std::isinf(x); under = x != 0 ? std::fabs(x) < 2.3e-308 : v.find_first_of("123456789") < v.find_first_of("eE"); } else { float y = strtof(v.c_str(), nullptr); x = y; over = std::isinf(y); under = y != 0 ? std::fabs(y) < 1.2e-38f : v.find_first_of("123456789") < v.find_first_of("eE"); } }
        bool letters = false; for (char c : lower(v)) if (c == 'n' || c == 'i' || c == 'x' || c == 'p') letters = true;
        r = k.get(t, "key", s, d); if (!dec && letters) continue;     // nan, inf, hexadecimal: not decided
        ok = dec && !over; if (ok && under && r >= 0) continue;
        if ((r < 0) != ok) fail(ST_WRONG, "value '%s' is %s %s but was %s", v.c_str(), ok ? "a" : "no", t == 2 ? "double" : "float", r < 0 ? fmt("accepted as %g", d).c_str() : "refused");
        if (ok && d != x) fail(ST_WRONG, "value '%s' is returned as %.17g", v.c_str(), d);
    }
    bool tr = lower(v) == "true", fa = lower(v) == "false"; r = k.get(4, "key", s, d);
    if ((r < 0) != (tr || fa)) fail(ST_WRONG, "value '%s' is %s but was %s", v.c_str(), tr || fa ? "a truth value" : "neither true nor false", r < 0 ? fmt("accepted as %g", d).c_str() : "refused"); if (r < 0 && (d != 0) != tr) fail(ST_WRONG, "'%s' is read as %g", v.c_str(), d);
    for (int t = 0; t < 5; t++) if (k.get(t, "other", s, d) < 0) fail(ST_WRONG, "a value was returned for a key that is not in the deck");
    countCase(isDec(v) || tr || fa);
}
Scenario values(int len, int first)
{
    static const S alpha = "0129+-.eE_at"; Scenario s; s.name = fmt("values/length%d/%c", len, alpha[first]); s.cpuLimit = 120;
    s.body = [=] { Kvr::bind(); File f(".deck"); S t(len, ' '); t[0] = alpha[first]; int n = alpha.size(); std::vector<int> ix(len, 0); for (;;) { for (int i = 1; i < len; i++) t[i] = alpha[ix[i]]; checkValue(f, t); int i = len - 1; while (i >= 1 && ++ix[i] == n) ix[i--] = 0; if (i < 1) break; } };
    return s;
}
Scenario specialValues()
{
    Scenario s; s.name = "values/special"; s.cpuLimit = 60;
    s.body = [=] { Kvr::bind(); File f(".deck");
        std::vector<S> v = {"2147483647", "2147483648", "-2147483648", "-2147483649", "4294967296", "4294967297", "9223372036854775807", "9223372036854775808", "18446744073709551617", "99999999999999999999999999", "-99999999999999999999999", "0000000000000000000000012", "1e308", "1e309", "-1e309", "1.7976931348623157e308", "1e38", "1e39", "4.9e-324", "1e-400", "0e999999", "0.1", "0.30000000000000004", "1e-5", "123456789.123456789", "3.4028235e38", "3.4028236e38", "true", "True", "TRUE", "tRuE", "false", "False", "FALSE", "0", "1", "yes", "no", "on", "off", "t", "f", "truefalse", "true.", "_true", "true1", "TychoTwoSided", "10.0.0", "1e5.5", "--5", "+-5", "5-", "5e", "5e+", "e5", ".", "-", "+", "5.", ".5", "-.5e-5", "nan", "inf", "0x10", "Infinity"};
        for (S w : {S("true"), S("false")}) for (size_t i = 0; i <= w.size(); i++) for (char c = 33; c < 127; c++) if (tokChar(c)) { S x = w; if (i < w.size()) { x[i] = c; v.push_back(x); x = w; } x.insert(i, 1, c); v.push_back(x); if (i < w.size()) { x = w; x.erase(i, 1); v.push_back(x); } }
        for (auto &x : v) checkValue(f, x); };
    return s;
}
// sequences of operations against a state machine
Scenario sequences(int depth)
{
    Scenario s; s.name = fmt("operations/depth%d", depth); s.cpuLimit = 120;
    s.body = [=] { Kvr::bind(); File a("a"), b("b"), bad("c"); a.put("k 1\n"); b.put("k 2\nm 3\n"); bad.put("k 7\nbroken\nm 8\n");
        int n = 7; std::vector<int> op(depth, 0); for (;;) {
            Kvr k; char st = 'E'; S str, trace; double d;        // E empty, A, B loaded, X failed to parse
            for (int o : op) { int r; trace += char('0' + o);
                if (o < 4) { r = k.read(o == 0 ? a.n : o == 1 ? b.n : o == 2 ? bad.n : S("no such file")); if (st == 'X') { if (r < 0) fail(ST_WRONG, "operations %s: a reader that failed reads another deck on top of it", trace.c_str()); continue; } bool want = st == 'E' && o < 2; if ((r < 0) != want) fail(ST_WRONG, "operations %s: reading is %s", trace.c_str(), r < 0 ? "accepted" : "refused"); if (st == 'E' && o < 3) st = "ABX"[o]; }
                else if (o == 4) { Kvr::rs(k.k); st = 'E'; }
                else { S key = o == 5 ? "k" : "M"; r = k.get(1, key, str, d); if (st == 'X') continue; bool want = st == 'B' || (st == 'A' && o == 5); if ((r < 0) != want) fail(ST_WRONG, "operations %s: get('%s') is %s", trace.c_str(), key.c_str(), r < 0 ? "answered" : "refused"); double v = o == 6 ? 3 : st == 'A' ? 1 : 2; if (r < 0 && d != v) fail(ST_WRONG, "operations %s: get('%s') is %g, not %g", trace.c_str(), key.c_str(), d, v); } }
            countCase(); int i = depth - 1; while (i >= 0 && ++op[i] == n) op[i--] = 0; if (i < 0) break; } };
    return s;
}
// ---- the program with whole decks
Deck base() { RunCase k; return k.deck(); }
Scenario mainDeck(const S &name, const S &text, int np, Scenario::Expect e, const RunCase &k)
{
    Scenario s; s.name = "main/" + name; s.expect = e; S file = rawFile(text, ".deck"); auto pm = std::make_shared<std::vector<char>>(pmeshBytes(meshOf("tet3"), np == 1 ? std::vector<int>{0, 0, 0} : std::vector<int>{0, 1, 0}, np));
    const std::vector<double> *ref = e == Scenario::RUNS && k.ref != RunCase::NONE ? &reference(k) : nullptr; Config c; c.nRanks = np; c.race = false; c.strictLevel = false; c.strictBuf = false; int ng = k.ng;
    s.body = [=] { countCase(); runMain(c, *pm, file); if (ref) checkPsi(readPsi("out.psi"), *ref, ng, 1e-11, "run with this deck"); };
    return s;
}
std::vector<S> deckLines(const Deck &over) { std::vector<S> l; S t = deckText(over); size_t i = 0; while (i < t.size()) { size_t e = t.find('\n', i); l.push_back(t.substr(i, e - i)); i = e + 1; } return l; }
S join(const std::vector<S> &l) { S t; for (auto &x : l) t += x + "\n"; return t; }
std::vector<Scenario> make()
{
    std::vector<Scenario> v; bool T = g_thorough;
    if (needSyms({"mcs_kvr_new", "mcs_kvr_read", "mcs_kvr_get", "mcs_kvr_free", "mcs_kvr_reset"}, "deck reader")) {
        S al = "k1 \t#\n!"; int n = al.size(), L = T ? 8 : 6;
        for (int len = 0; len <= L; len++) { if (len < 4) v.push_back(decks(al, len, -1, -1)); else for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) v.push_back(decks(al, len, a, b)); }
        S al2 = "aA1 \n"; for (int len = 5; len <= (T ? 10 : 8); len++) for (int a = 0; a < 5; a++) for (int b = 0; b < 5; b++) v.push_back(decks(al2, len, a, b));
        for (int i = 1; i <= (T ? 4 : 3); i++) v.push_back(lines(i));
        for (int len = 1; len <= (T ? 6 : 4); len++) for (int a = 0; a < 12; a++) v.push_back(values(len, a));
        v.push_back(specialValues()); for (int d = 1; d <= (T ? 6 : 5); d++) v.push_back(sequences(d));
    }
    RunCase k; k.mesh = "tet3"; k.iterMax = 2; k.part = {0, 0, 0}; Deck B = base(); std::vector<S> L = deckLines(B); size_t n = L.size();
    auto good = [&](const S &nm, const S &t, const RunCase &q, int np = 1) { v.push_back(mainDeck(nm, t, np, Scenario::RUNS, q)); };
    auto bad = [&](const S &nm, const S &t, int np = 1) { v.push_back(mainDeck(nm, t, np, Scenario::REFUSES, k)); };
    // order, blank space and comments do not matter
    for (size_t r = 0; r < n; r++) { auto l = L; std::rotate(l.begin(), l.begin() + r, l.end()); good(fmt("rotated%zu", r), join(l), k, 1 + r % 2); std::reverse(l.begin(), l.end()); good(fmt("reversed%zu", r), join(l), k); }
    for (size_t r = 0; r < n; r++) for (size_t q = r + 1; q < n; q += T ? 1 : 4) { auto l = L; std::swap(l[r], l[q]); good(fmt("swapped%zu.%zu", r, q), join(l), k); }
    for (size_t r = 0; r <= n; r++) for (const char *x : {"", "   \t ", "# snOrder 8", "   # sigmaT1 9 # x", "unusedKey 17", "SNORDERX 4"}) { auto l = L; l.insert(l.begin() + r, x); good(fmt("line%zu '%s'", r, show(x).c_str()), join(l), k); }
    for (size_t r = 0; r < n; r++) { auto l = L; size_t sp = l[r].find(' '); for (int d = 0; d < 5; d++) { l = L; S key = l[r].substr(0, sp), val = l[r].substr(sp + 1); l[r] = d == 0 ? "\t" + key + "   \t" + val + " " : d == 1 ? key + " " + val + "#" + key + " 99" : d == 2 ? key + "\t" + val + "  # note" : d == 3 ? lower(key) + " " + val : "   " + key + " " + val + "\t\t"; good(fmt("decorated%d %s", d, key.c_str()), join(l), k); } }
    { S t = join(L); t.pop_back(); good("no newline at the end", t, k); }
    // missing, repeated and broken entries
    for (size_t r = 0; r < n; r++) {
        S key = L[r].substr(0, L[r].find(' ')), val = L[r].substr(L[r].find(' ') + 1); auto l = L; l.erase(l.begin() + r); bad("missing " + key, join(l), 1 + r % 2); l = L; l[r] = "#" + l[r]; bad("commented out " + key, join(l));
        for (size_t q : {(size_t)0, r, n}) { l = L; l.insert(l.begin() + q, L[r]); bad(fmt("repeated %s at %zu", key.c_str(), q), join(l)); l = L; l.insert(l.begin() + q, lower(key) + " 3"); bad(fmt("repeated with another value %s at %zu", key.c_str(), q), join(l)); }
        for (S x : {S(""), val + " " + val, val + " extra", S("\"") + val + "\"", val + ";", "= " + val, val + ",", S("$"), val + "\\"}) { l = L; l[r] = key + " " + x; bad("broken " + key + " '" + show(x) + "'", join(l)); }
        l = L; l[r] = key + "=" + val; bad("broken " + key + " with =", join(l)); l[r] = key + val; bad("broken " + key + " without space", join(l)); l[r] = key + ": " + val; bad("broken " + key + " with :", join(l));
    }
    // types and documented choices
    auto set = [&](const S &key, const S &val) { Deck d = B; bool f = false; for (auto &x : d) if (x.first == key) { x.second = val; f = true; } if (!f) d.push_back({key, val}); return deckText(d); };
    for (const char *key : {"snOrder", "iterMax", "maxCellsPerStep", "intraAngleP", "interAngleP", "nGroups", "DD_IterMax"}) for (const char *val : {"x", "1.5", "2.0", "4x", "2e0", "1_000", "99999999999", "4294967298", "18446744073709551618", "-", "+", ".", "true", "-1", "-2147483648", "2-", "2.", "0x2"}) bad(S(key) + " " + val, set(key, val));
    for (const char *key : {"snOrder", "maxCellsPerStep", "nGroups"}) bad(S(key) + " 0", set(key, "0"));
    for (const char *val : {"1", "3", "5", "29", "31", "32", "34", "64", "100"}) bad(S("snOrder ") + val, set("snOrder", val));
    for (const char *val : {"5", "6", "7", "100"}) bad(S("intraAngleP ") + val, set("intraAngleP", val)); for (const char *val : {"3", "4", "100"}) bad(S("interAngleP ") + val, set("interAngleP", val));
    for (const char *key : {"errMax", "DD_ErrMax", "sigmaT1", "sigmaS1", "sigmaT2", "sigmaS2"}) for (const char *val : {"x", "1.5x", "1e", "1e+", "1.2.3", "--1", "1_0", "true", "e5", ".", "-", "1e999", "1d5", "1e5.5"}) bad(S(key) + " " + val, set(key, val));
    for (const char *key : {"OutputFile", "SourceIteration"}) { for (const char *val : {"0", "1", "yes", "no", "t", "f", "tru", "truee", "fals", "on", "off", "true.", "2", "T", "F"}) bad(S(key) + " " + val, set(key, val)); for (const char *val : {"true", "TRUE", "True"}) good(S(key) + " " + val, set(key, val), k); }
    struct Ch { const char *key; std::vector<const char *> ok, no; };
    for (auto &c : std::vector<Ch>{{"SweepType", {"OriginalTycho1", "OriginalTycho2", "TraverseGraph"}, {"OriginalTycho", "OriginalTycho3", "TraverseGraph1", "Traverse", "GraphTraversal", "PBJx", "PB", "SchurX", "Schu", "PBJOute", "PBJouterx", "0", "1", "none", "-"}}, {"MPIType", {"TychoTwoSided", "CapsaicinTwoSided"}, {"Tycho", "TychoTwoSide", "TychoTwoSidedX", "OneSided", "TwoSided", "0", "1"}}, {"GaussElim", {"Original", "NoPivot", "CramerGlu", "CramerIntel"}, {"Pivot", "NoPivo", "NoPivots", "Cramer", "Glu", "0", "OriginalX"}}}) {
        for (auto x : c.ok) { good(S(c.key) + " " + x, set(c.key, x), k); good(S(c.key) + " " + x + " on two ranks", set(c.key, x), k, 2); } for (auto x : c.no) bad(S(c.key) + " " + x, set(c.key, S(x) == "-" ? "none-" : x), 1);
    }
    for (int i = 0; i < 5; i++) good(fmt("intraAngleP %d", i), set("intraAngleP", fmt("%d", i)), k, 2); for (int i = 0; i < 3; i++) good(fmt("interAngleP %d", i), set("interAngleP", fmt("%d", i)), k, 2);
    // values are used as written
    for (auto x : {"1", "01", "+1", "3"}) { RunCase q = k; q.iterMax = atoi(x); good(S("iterMax ") + x, set("iterMax", x), q); } { RunCase q = k; q.ref = RunCase::NONE; good("iterMax 0", set("iterMax", "0"), q); }
    for (auto x : {"1", "2", "5"}) { RunCase q = k; q.ng = atoi(x); good(S("nGroups ") + x, set("nGroups", x), q); }
    for (auto x : {"1", "3", "2147483647"}) good(S("maxCellsPerStep ") + x, set("maxCellsPerStep", x), k, 2);
    for (auto x : {"2", "4", "6", "+2", "002"}) { RunCase q = k; q.sn = atoi(x); if (q.sn != 2) { q.mesh = "tet3"; } RProblem P(meshOf("tet3"), q.sn, 1, 1, 1, 1); if (P.acyclic() && P.minDot() > 1e-7) good(S("snOrder ") + x, set("snOrder", x), q); }
    for (auto x : {"0.2", "2e-1", ".2", "+0.2", "20.e-2", "0.20000000000000001"}) { RunCase q = k; q.t1 = 0.2; good(S("sigmaT1 ") + x, set("sigmaT1", x), q); q = k; q.s1 = 0.2; q.t1 = 0.3; Deck d = B; for (auto &y : d) { if (y.first == "sigmaS1") y.second = x; if (y.first == "sigmaT1") y.second = "0.3"; } good(S("sigmaS1 ") + x, deckText(d), q); q = k; q.t2 = 0.2; good(S("sigmaT2 ") + x, set("sigmaT2", x), q); q = k; q.s2 = 0.2; q.t2 = 0.3; d = B; for (auto &y : d) { if (y.first == "sigmaS2") y.second = x; if (y.first == "sigmaT2") y.second = "0.3"; } good(S("sigmaS2 ") + x, deckText(d), q); }
    // no deck, empty deck, binary deck, example values
    bad("empty", ""); bad("blank", "\n\n  \n"); bad("comment only", "# nothing\n"); { S t = join(L); t[t.size() / 2] = '\0'; bad("with a zero byte", t); }
    { Scenario s = mainDeck("no deck file", "x", 1, Scenario::REFUSES, k); auto pm = std::make_shared<std::vector<char>>(pmeshBytes(meshOf("tet3"), {0, 0, 0}, 1)); s.body = [=] { Config c; runMain(c, *pm, g_scratch + "/no/such/deck"); }; v.push_back(s); }
    return v;
}
}
static Check chk{"C13", "input decks",
    "the reader against an independent parser: every text up to length 6 (thorough 8) over 7 characters and up to length 8 (10) over 5, every sequence of up to 3 (4) lines of 23 kinds, every value string up to length 4 (6) over 12 characters for all types, every operation sequence up to depth 5 (6); the program on decks with every order rotation, decoration, missing, repeated and broken entry, undocumented choices, and values checked by their effect on the flux", "exploration", make, nullptr, {"hexadecimal, nan and inf spellings of numbers are not decided"}, 200, 780};
static Reg reg(&chk);
