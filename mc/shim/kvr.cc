#include "../api.hh"
#include "KeyValueReader.hh"
#include <string>
#include <exception>
using CKG_Utils::KeyValueReader;
extern "C" void *mcs_kvr_new() { return new KeyValueReader(); }
extern "C" void mcs_kvr_free(void *k) { delete (KeyValueReader *)k; }
static int guard(void (*f)(void *), void *a)
{
    try { f(a); return -1; } catch (KeyValueReader::Exception e) { return (int)e; } catch (std::exception &) { return 100; } catch (...) { return 101; }
}
extern "C" int mcs_kvr_read(void *k, const char *name)
{ struct A { void *k; const char *n; } a{k, name}; return guard([](void *p) { A *a = (A *)p; ((KeyValueReader *)a->k)->readFile(a->n); }, &a); }
// type: 0 string 1 int 2 double 3 float 4 bool
extern "C" int mcs_kvr_get(void *k, int type, const char *key, std::string &s, double &d)
{
    struct A { void *k; int t; const char *key; std::string *s; double *d; } a{k, type, key, &s, &d};
    return guard([](void *p) { A *a = (A *)p; KeyValueReader &r = *(KeyValueReader *)a->k;
        switch (a->t) { case 0: r.getString(a->key, *a->s); break;
            case 1: { int v = -12345; r.getInt(a->key, v); *a->d = v; break; } case 2: { double v = -1; r.getDouble(a->key, v); *a->d = v; break; }
            case 3: { float v = -1; r.getFloat(a->key, v); *a->d = v; break; } case 4: { bool v = false; r.getBool(a->key, v); *a->d = v; break; } } }, &a);
}
extern "C" void mcs_kvr_reset(void *k) { ((KeyValueReader *)k)->reset(); }
