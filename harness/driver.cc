// Command interpreter over the PUBLIC API of libdisir. Reads one JSON command per line on stdin and
// writes one JSON response per line on stdout. Holds no knowledge of what is right: it only reports
// what the library did. The TLA+ specifications judge the recorded traces.
#include <disir/disir.h>
#include <disir/context.h>
#include <disir/config.h>
#include <disir/mold.h>
#include <disir/collection.h>
#include <disir/archive.h>
#include <disir/plugin.h>
#include <disir/libdisir.h>
#include <disir/test.h>
#include <disir/fslib/json.h>
#include <disir/fslib/toml.h>
#include <disir/fslib/util.h>
#include <nlohmann/json.hpp>
#include <cstdio>
#include <cstring>
#include <cmath>
#include <cinttypes>
#include <map>
#include <string>
#include <vector>
#include <functional>
#include <unordered_map>
#include <fstream>
#include <iostream>
#include <sstream>
#include <unistd.h>
#include <fcntl.h>
#include <dirent.h>
#include <execinfo.h>
#include <sys/stat.h>

using json = nlohmann::ordered_json;
using std::string;

// ---------------------------------------------------------------- allocation tracking
extern "C" int __sanitizer_install_malloc_and_free_hooks (
    void (*malloc_hook)(const volatile void *, size_t), void (*free_hook)(const volatile void *));
struct Alloc { size_t size; unsigned long seq; void *bt[16]; int n; };
static bool g_in = false;      // inside a library call
static bool g_busy = false;    // inside a hook
static bool g_bt = false;
static unsigned long g_seq = 0;
static std::unordered_map<const volatile void *, Alloc> *g_live;
static void on_malloc (const volatile void *p, size_t n)
{
    if (!g_in || g_busy || !g_live) return;
    g_busy = true;
    Alloc a; a.size = n; a.seq = g_seq; a.n = 0;
    if (g_bt) a.n = backtrace (a.bt, 16);
    (*g_live)[p] = a;
    g_busy = false;
}
static void on_free (const volatile void *p)
{
    if (g_busy || !g_live) return;
    g_busy = true;
    g_live->erase (p);
    g_busy = false;
}
struct InLib { bool o; InLib () { o = g_in; g_in = true; } ~InLib () { g_in = o; } };
#define LIB(e) ({ InLib _il; (e); })

// ---------------------------------------------------------------- file operation stand-ins
#include "faults.h"
// ---------------------------------------------------------------- names
static const char *stname (int s)
{
    static const std::map<int, const char *> m = {
#define S(x) {DISIR_STATUS_##x, #x}
        S(OK), S(NO_CAN_DO), S(INVALID_ARGUMENT), S(TOO_FEW_ARGUMENTS), S(CONTEXT_IN_WRONG_STATE),
        S(WRONG_CONTEXT), S(INVALID_CONTEXT), S(DESTROYED_CONTEXT), S(FATAL_CONTEXT),
        S(BAD_CONTEXT_OBJECT), S(NO_MEMORY), S(NO_ERROR), S(INTERNAL_ERROR),
        S(INSUFFICIENT_RESOURCES), S(EXISTS), S(CONFLICTING_SEMVER), S(CONFLICT), S(EXHAUSTED),
        S(MOLD_MISSING), S(WRONG_VALUE_TYPE), S(NOT_EXIST), S(RESTRICTION_VIOLATED),
        S(ELEMENTS_INVALID), S(NOT_SUPPORTED), S(PLUGIN_ERROR), S(LOAD_ERROR), S(CONFIG_INVALID),
        S(GROUP_MISSING), S(PERMISSION_ERROR), S(FS_ERROR), S(DEFAULT_MISSING), S(UNKNOWN)
#undef S
    };
    auto i = m.find (s);
    return i == m.end () ? "BAD_STATUS" : i->second;
}
static enum disir_value_type vtype (const string &s)
{
    if (s == "STRING") return DISIR_VALUE_TYPE_STRING;
    if (s == "INTEGER") return DISIR_VALUE_TYPE_INTEGER;
    if (s == "FLOAT") return DISIR_VALUE_TYPE_FLOAT;
    if (s == "BOOLEAN") return DISIR_VALUE_TYPE_BOOLEAN;
    if (s == "ENUM") return DISIR_VALUE_TYPE_ENUM;
    return DISIR_VALUE_TYPE_UNKNOWN;
}
static string vtname (int t)
{
    switch (t) {
    case DISIR_VALUE_TYPE_STRING: return "STRING";
    case DISIR_VALUE_TYPE_INTEGER: return "INTEGER";
    case DISIR_VALUE_TYPE_FLOAT: return "FLOAT";
    case DISIR_VALUE_TYPE_BOOLEAN: return "BOOLEAN";
    case DISIR_VALUE_TYPE_ENUM: return "ENUM";
    default: return "UNKNOWN"; }
}
static string ctname (int t)
{
    switch (t) {
    case DISIR_CONTEXT_CONFIG: return "CONFIG";
    case DISIR_CONTEXT_MOLD: return "MOLD";
    case DISIR_CONTEXT_SECTION: return "SECTION";
    case DISIR_CONTEXT_KEYVAL: return "KEYVAL";
    case DISIR_CONTEXT_DOCUMENTATION: return "DOCUMENTATION";
    case DISIR_CONTEXT_DEFAULT: return "DEFAULT";
    case DISIR_CONTEXT_RESTRICTION: return "RESTRICTION";
    default: return "UNKNOWN"; }
}
static enum disir_context_type ctype (const string &s)
{
    for (int i = 1; i < DISIR_CONTEXT_UNKNOWN; i++)
        if (ctname (i) == s) return (enum disir_context_type) i;
    return DISIR_CONTEXT_UNKNOWN;
}
static enum disir_restriction_type rtype (const string &s)
{
    if (s == "MIN") return DISIR_RESTRICTION_INC_ENTRY_MIN;
    if (s == "MAX") return DISIR_RESTRICTION_INC_ENTRY_MAX;
    if (s == "ENUM") return DISIR_RESTRICTION_EXC_VALUE_ENUM;
    if (s == "RANGE") return DISIR_RESTRICTION_EXC_VALUE_RANGE;
    if (s == "NUMERIC") return DISIR_RESTRICTION_EXC_VALUE_NUMERIC;
    return DISIR_RESTRICTION_UNKNOWN;
}
static string rtname (int t)
{
    switch (t) {
    case DISIR_RESTRICTION_INC_ENTRY_MIN: return "MIN";
    case DISIR_RESTRICTION_INC_ENTRY_MAX: return "MAX";
    case DISIR_RESTRICTION_EXC_VALUE_ENUM: return "ENUM";
    case DISIR_RESTRICTION_EXC_VALUE_RANGE: return "RANGE";
    case DISIR_RESTRICTION_EXC_VALUE_NUMERIC: return "NUMERIC";
    default: return "UNKNOWN"; }
}
static string dstr (double d)
{
    char b[64];
    snprintf (b, sizeof b, "%.17g", d);
    return b;
}
static string safe (const char *p, size_t n)
{
    string s (p, n);
    try { (void) json (s).dump (); return s; }
    catch (...) {
        string h = "hex:"; char b[3];
        for (unsigned char c : s) { snprintf (b, 3, "%02x", c); h += b; }
        return h;
    }
}
static string safe (const char *p) { return p ? safe (p, strlen (p)) : string ("(null)"); }
static string unhex (const string &s)
{
    if (s.compare (0, 4, "hex:") != 0) return s;
    string o;
    for (size_t i = 4; i + 1 < s.size (); i += 2) o += (char) strtol (s.substr (i, 2).c_str (), 0, 16);
    return o;
}

// ---------------------------------------------------------------- handles
static std::map<string, disir_context *> X;      // contexts the "user" holds a reference to
static std::vector<string> Xorder;
static std::map<string, disir_config *> C;
static std::map<string, disir_mold *> M;
static std::map<string, disir_collection *> K;
static std::map<string, disir_update *> U;
static std::map<string, disir_instance *> I;
static std::map<string, disir_archive *> A;
static std::map<string, disir_import *> P;
static std::map<string, string> SAVED;           // pointers identity
static string g_scratch;

static void setx (const string &n, disir_context *c)
{
    X[n] = c;
    Xorder.push_back (n);
}
static struct disir_version ver (const json &j)
{
    struct disir_version v;
    v.sv_major = j[0].get<uint32_t> ();
    v.sv_minor = j[1].get<uint32_t> ();
    return v;
}
static json jver (const struct disir_version &v) { return json::array ({v.sv_major, v.sv_minor}); }
static bool has (const json &c, const char *k) { return c.contains (k) && !c[k].is_null (); }
static string str (const json &c, const char *k) { return unhex (c[k].get<string> ()); }

// A path into a tree of elements: "x" gives the base context, "at" a list of [name, index].
struct Ctx {
    disir_context *c = nullptr; bool owned = false;
    ~Ctx () { if (owned && c) LIB (dc_putcontext (&c)); }
};
static int resolve (const json &c, Ctx &o, const char *key = "x", const char *atkey = "at")
{
    string h = c[key];
    if (X.count (h)) { o.c = X[h]; }
    else if (C.count (h)) { o.c = LIB (dc_config_getcontext (C[h])); o.owned = true; }
    else if (M.count (h)) { o.c = LIB (dc_mold_getcontext (M[h])); o.owned = true; }
    else return 1;
    if (has (c, atkey)) {
        for (auto &e : c[atkey]) {
            disir_context *n = nullptr;
            int st = LIB (dc_find_element (o.c, e[0].get<string> ().c_str (), e[1].get<int> (), &n));
            if (st != DISIR_STATUS_OK) return 2;
            if (o.owned) LIB (dc_putcontext (&o.c));
            o.c = n; o.owned = true;
        }
    }
    return 0;
}

// ---------------------------------------------------------------- values
// A document with a NUL in it has been read: a text may go on behind its end.
static bool g_nul = false;
static json getval (disir_context *c, int t, int *stout)
{
    json r; int st = -1;
    if (t == DISIR_VALUE_TYPE_STRING || t == DISIR_VALUE_TYPE_ENUM) {
        const char *p = nullptr; int32_t n = -1;
        st = t == DISIR_VALUE_TYPE_STRING ? LIB (dc_get_value_string (c, &p, &n))
                                          : LIB (dc_get_value_enum (c, &p, &n));
        if (st == DISIR_STATUS_OK) {
            r = p == nullptr ? string ("(null)") : safe (p, n);
            if (p && g_nul && n > (int) strlen (p) && p[n] == '\0') r = safe (p, strlen (p));
            else if (p && (int) strlen (p) != n) r = "SIZE-MISMATCH";
        }
    } else if (t == DISIR_VALUE_TYPE_INTEGER) {
        int64_t v = 0; st = LIB (dc_get_value_integer (c, &v));
        if (st == DISIR_STATUS_OK) r = std::to_string (v);
    } else if (t == DISIR_VALUE_TYPE_FLOAT) {
        double v = 0; st = LIB (dc_get_value_float (c, &v));
        if (st == DISIR_STATUS_OK) r = dstr (v);
    } else if (t == DISIR_VALUE_TYPE_BOOLEAN) {
        uint8_t v = 7; st = LIB (dc_get_value_boolean (c, &v));
        if (st == DISIR_STATUS_OK) r = v == 1 ? "true" : v == 0 ? "false" : "BADBOOL";
    }
    if (stout) *stout = st;
    return r;
}
static int setval (disir_context *c, const string &t, const string &v, int n = -1)
{
    if (n >= 0 && t == "STRING") return LIB (dc_set_value_string (c, v.c_str (), n));
    if (n >= 0 && t == "ENUM") return LIB (dc_set_value_enum (c, v.c_str (), n));
    if (n >= 0 && t == "ANY") return LIB (dc_set_value (c, v.c_str (), n));
    if (t == "STRING") return LIB (dc_set_value_string (c, v.c_str (), v.size ()));
    if (t == "ENUM") return LIB (dc_set_value_enum (c, v.c_str (), v.size ()));
    if (t == "INTEGER") return LIB (dc_set_value_integer (c, strtoll (v.c_str (), 0, 10)));
    if (t == "FLOAT") return LIB (dc_set_value_float (c, strtod (v.c_str (), 0)));
    if (t == "BOOLEAN") return LIB (dc_set_value_boolean (c, v == "true"));
    return LIB (dc_set_value (c, v.c_str (), v.size ()));   // "ANY": from text
}

// ---------------------------------------------------------------- projections
static json dump_ctx (disir_context *c, bool flags);
static json dump_children (disir_context *c, bool flags)
{
    json r = json::array ();
    disir_collection *col = nullptr;
    int st = LIB (dc_get_elements (c, &col));
    if (st != DISIR_STATUS_OK) { if (st == DISIR_STATUS_NOT_EXIST) return r; return string ("ERR ") + stname (st); }
    disir_context *e = nullptr;
    while (LIB (dc_collection_next (col, &e)) == DISIR_STATUS_OK) {
        r.push_back (dump_ctx (e, flags));
        LIB (dc_putcontext (&e));
    }
    LIB (dc_collection_finished (&col));
    return r;
}
static json dump_ctx (disir_context *c, bool flags)
{
    json r = json::object ();
    const char *n = nullptr; int32_t sz = 0;
    int ct = LIB (dc_context_type (c));
    r["k"] = ctname (ct);
    if (ct == DISIR_CONTEXT_KEYVAL || ct == DISIR_CONTEXT_SECTION) {
        LIB (dc_get_name (c, &n, &sz));
        r["name"] = safe (n);
    }
    if (ct == DISIR_CONTEXT_KEYVAL) {
        int t = LIB (dc_value_type (c));
        r["t"] = vtname (t);
        r["v"] = getval (c, t, nullptr);
    }
    if (flags) r["inv"] = LIB (dc_context_valid (c)) == DISIR_STATUS_OK ? 0 : 1;
    if (ct != DISIR_CONTEXT_KEYVAL) r["els"] = dump_children (c, flags);
    return r;
}
static json dump_config (disir_config *cfg, bool flags)
{
    json r = json::object ();
    struct disir_version v = {0, 0};
    int st = LIB (dc_config_get_version (cfg, &v));
    r["ver"] = st == DISIR_STATUS_OK ? jver (v) : json (stname (st));
    disir_context *c = LIB (dc_config_getcontext (cfg));
    if (flags) r["inv"] = LIB (dc_context_valid (c)) == DISIR_STATUS_OK ? 0 : 1;
    r["els"] = dump_children (c, flags);
    LIB (dc_putcontext (&c));
    return r;
}
static json dump_docs (disir_context *c, const json &vers)
{
    json r = json::array ();
    for (auto &jv : vers) {
        const char *d = nullptr; int32_t n = 0; int st;
        if (jv.is_null ()) st = LIB (dc_get_documentation (c, NULL, &d, &n));
        else { auto v = ver (jv); st = LIB (dc_get_documentation (c, &v, &d, &n)); }
        r.push_back (st == DISIR_STATUS_OK ? json (d ? safe (d, n) : string ("(null)")) : json (string ("ERR ") + stname (st)));
    }
    return r;
}
static json getdefault (disir_context *c, const json &jv)
{
    char buf[70000]; int32_t n = -1; int st;
    if (jv.is_null ()) st = LIB (dc_get_default (c, NULL, sizeof buf, buf, &n));
    else { auto v = ver (jv); st = LIB (dc_get_default (c, &v, sizeof buf, buf, &n)); }
    if (st != DISIR_STATUS_OK) return string ("ERR ") + stname (st);
    return g_nul ? safe (buf) : safe (buf, n);
}
static json dump_mold_el (disir_context *c, const json &vers, bool restr)
{
    json r = json::object ();
    int ct = LIB (dc_context_type (c));
    const char *n = nullptr;
    r["k"] = ctname (ct);
    if (ct == DISIR_CONTEXT_KEYVAL || ct == DISIR_CONTEXT_SECTION) {
        LIB (dc_get_name (c, &n, NULL)); r["name"] = safe (n);
        struct disir_version v = {0,0};
        int st = LIB (dc_get_introduced (c, &v));
        r["intro"] = st == DISIR_STATUS_OK ? jver (v) : json (stname (st));
        v = {0,0}; st = LIB (dc_get_deprecated (c, &v));
        r["depr"] = st == DISIR_STATUS_OK ? jver (v) : json (stname (st));
    }
    if (ct == DISIR_CONTEXT_KEYVAL) {
        r["t"] = vtname (LIB (dc_value_type (c)));
        json ds = json::array ();
        disir_collection *col = nullptr; disir_context *e = nullptr;
        if (LIB (dc_get_default_contexts (c, &col)) == DISIR_STATUS_OK && col) {
            while (LIB (dc_collection_next (col, &e)) == DISIR_STATUS_OK) {
                struct disir_version v = {0,0};
                json d = json::object ();
                int st = LIB (dc_get_introduced (e, &v));
                d["intro"] = st == DISIR_STATUS_OK ? jver (v) : json (stname (st));
                d["v"] = getval (e, LIB (dc_value_type (c)), nullptr);
                ds.push_back (d);
                LIB (dc_putcontext (&e));
            }
            LIB (dc_collection_finished (&col));
        }
        r["defs"] = ds;
        json at = json::array ();
        for (auto &v : vers) at.push_back (getdefault (c, v));
        r["at"] = at;
    }
    r["docs"] = dump_docs (c, vers);
    if (restr && ct != DISIR_CONTEXT_MOLD) {
        json rs = json::array ();
        disir_collection *col = nullptr; disir_context *e = nullptr;
        if (LIB (dc_restriction_collection (c, &col)) == DISIR_STATUS_OK && col) {
            while (LIB (dc_collection_next (col, &e)) == DISIR_STATUS_OK) {
                json d = json::object ();
                enum disir_restriction_type t;
                LIB (dc_get_restriction_type (e, &t));
                d["rt"] = rtname (t);
                struct disir_version v = {0,0};
                LIB (dc_get_introduced (e, &v)); d["intro"] = jver (v);
                v = {0,0}; LIB (dc_get_deprecated (e, &v)); d["depr"] = jver (v);
                if (t == DISIR_RESTRICTION_EXC_VALUE_RANGE) {
                    double lo = 0, hi = 0; LIB (dc_restriction_get_range (e, &lo, &hi));
                    d["lo"] = dstr (lo); d["hi"] = dstr (hi);
                } else if (t == DISIR_RESTRICTION_EXC_VALUE_ENUM) {
                    const char *s = nullptr; LIB (dc_restriction_get_string (e, &s)); d["s"] = safe (s);
                } else {
                    double x = 0; LIB (dc_restriction_get_numeric (e, &x)); d["n"] = dstr (x);
                }
                d["docs"] = dump_docs (e, vers);
                rs.push_back (d);
                LIB (dc_putcontext (&e));
            }
            LIB (dc_collection_finished (&col));
        }
        r["rest"] = rs;
        int lo = -99, hi = -99;
        LIB (dc_restriction_entries_minimum (c, &lo)); LIB (dc_restriction_entries_maximum (c, &hi));
        r["min"] = lo; r["max"] = hi;
    }
    if (ct != DISIR_CONTEXT_KEYVAL) {
        json els = json::array ();
        disir_collection *col = nullptr; disir_context *e = nullptr;
        if (LIB (dc_get_elements (c, &col)) == DISIR_STATUS_OK) {
            while (LIB (dc_collection_next (col, &e)) == DISIR_STATUS_OK) {
                els.push_back (dump_mold_el (e, vers, restr));
                LIB (dc_putcontext (&e));
            }
            LIB (dc_collection_finished (&col));
        }
        r["els"] = els;
    }
    return r;
}
static json dump_mold (disir_mold *m, const json &vers)
{
    disir_context *c = LIB (dc_mold_getcontext (m));
    json r = dump_mold_el (c, vers, true);
    struct disir_version v = {0,0};
    LIB (dc_mold_get_version (m, &v)); r["ver"] = jver (v);
    LIB (dc_putcontext (&c));
    return r;
}

static json drain (disir_collection *col, bool names, std::function<json(disir_context *)> f = nullptr)
{
    json r = json::array (); disir_context *e = nullptr;
    while (LIB (dc_collection_next (col, &e)) == DISIR_STATUS_OK) {
        if (f) r.push_back (f (e));
        else {
            char *n = nullptr;
            int t = LIB (dc_context_type (e));
            if (t == DISIR_CONTEXT_CONFIG || t == DISIR_CONTEXT_MOLD) r.push_back ("");
            else {
                int st = LIB (dc_resolve_root_name (e, &n));
                r.push_back (st == DISIR_STATUS_OK ? json (safe (n)) : json (string ("ERR ") + stname (st)));
                if (st == DISIR_STATUS_OK) free (n);
            }
        }
        LIB (dc_putcontext (&e));
    }
    return r;
}

// ---------------------------------------------------------------- mold building from a description
static int add_docs (disir_context *c, const json &d)
{
    if (!d.contains ("docs")) return 0;
    for (auto &x : d["docs"]) {
        string s = unhex (x["v"].get<string> ());
        disir_context *dc = nullptr;
        int st = LIB (dc_begin (c, DISIR_CONTEXT_DOCUMENTATION, &dc));
        if (st) return st;
        st = LIB (dc_set_value_string (dc, s.c_str (), s.size ()));
        if (st) { LIB (dc_destroy (&dc)); return st; }
        if (has (x, "intro")) { auto v = ver (x["intro"]); st = LIB (dc_add_introduced (dc, &v)); if (st) { LIB (dc_destroy (&dc)); return st; } }
        st = LIB (dc_finalize (&dc));
        if (st) { if (dc) LIB (dc_destroy (&dc)); return st; }
    }
    return 0;
}
static int add_restr (disir_context *p, const json &r)
{
    disir_context *c = nullptr;
    int st = LIB (dc_begin (p, DISIR_CONTEXT_RESTRICTION, &c));
    if (st) return st;
    string t = r["rt"];
    st = LIB (dc_set_restriction_type (c, rtype (t)));
    if (!st) {
        if (t == "RANGE") st = LIB (dc_restriction_set_range (c, strtod (r["lo"].get<string> ().c_str (), 0), strtod (r["hi"].get<string> ().c_str (), 0)));
        else if (t == "ENUM") st = LIB (dc_restriction_set_string (c, unhex (r["s"].get<string> ()).c_str ()));
        else st = LIB (dc_restriction_set_numeric (c, strtod (r["n"].get<string> ().c_str (), 0)));
    }
    if (!st && has (r, "intro")) { auto v = ver (r["intro"]); st = LIB (dc_add_introduced (c, &v)); }
    if (!st && has (r, "depr")) { auto v = ver (r["depr"]); st = LIB (dc_add_deprecated (c, &v)); }
    if (!st) st = add_docs (c, r);
    if (st) { LIB (dc_destroy (&c)); return st; }
    st = LIB (dc_finalize (&c));
    if (st && c) LIB (dc_destroy (&c));
    return st;
}
static int add_default (disir_context *p, const string &t, const json &d)
{
    string v = unhex (d["v"].get<string> ());
    struct disir_version w, *pw = nullptr;
    if (has (d, "intro")) { w = ver (d["intro"]); pw = &w; }
    if (t == "STRING" || t == "ENUM") return LIB (dc_add_default_string (p, v.c_str (), v.size (), pw));
    if (t == "INTEGER") return LIB (dc_add_default_integer (p, strtoll (v.c_str (), 0, 10), pw));
    if (t == "FLOAT") return LIB (dc_add_default_float (p, strtod (v.c_str (), 0), pw));
    return LIB (dc_add_default_boolean (p, v == "true", pw));
}
static int build_els (disir_context *p, const json &els, string &why)
{
    for (auto &e : els) {
        bool kv = e["k"] == "KEYVAL";
        disir_context *c = nullptr;
        int st = LIB (dc_begin (p, kv ? DISIR_CONTEXT_KEYVAL : DISIR_CONTEXT_SECTION, &c));
        if (st) { why = "begin"; return st; }
        string n = e["name"];
        st = LIB (dc_set_name (c, n.c_str (), n.size ()));
        if (!st && kv) {
            string t = e["t"];
            st = LIB (dc_set_value_type (c, vtype (t)));
            for (auto &d : e["defs"]) if (!st) { st = add_default (c, t, d); if (st) why = "default"; }
        }
        // sections carry their own introduced; keyvals derive it from their defaults
        if (!st && !kv && has (e, "intro")) { auto v = ver (e["intro"]); st = LIB (dc_add_introduced (c, &v)); if (st) why = "intro"; }
        if (!st && has (e, "depr")) { auto v = ver (e["depr"]); st = LIB (dc_add_deprecated (c, &v)); if (st) why = "depr"; }
        if (!st && e.contains ("rest")) for (auto &r : e["rest"]) if (!st) { st = add_restr (c, r); if (st) why = "restr"; }
        if (!st) { st = add_docs (c, e); if (st && why.empty ()) why = "docs"; }
        if (!st && !kv) st = build_els (c, e["els"], why);
        if (st) { if (why.empty ()) why = "el " + n; LIB (dc_destroy (&c)); return st; }
        st = LIB (dc_finalize (&c));
        if (st) { why = "finalize " + n; if (c) LIB (dc_putcontext (&c)); return st; }
    }
    return 0;
}
static json build_mold (const json &m, disir_mold **out)
{
    json r = json::object ();
    disir_context *c = nullptr; string why;
    int st = LIB (dc_mold_begin (&c));
    if (!st) st = add_docs (c, m);
    if (!st) st = build_els (c, m["els"], why);
    if (!st) { st = LIB (dc_mold_finalize (&c, out)); if (st) why = "mold_finalize"; }
    if (st && c) LIB (dc_destroy (&c));
    r["st"] = stname (st);
    if (!why.empty ()) r["why"] = why;
    if (!st) { struct disir_version v; LIB (dc_mold_get_version (*out, &v)); r["ver"] = jver (v); }
    return r;
}

// ---------------------------------------------------------------- commands
typedef std::function<json (const json &)> Op;
static std::map<string, Op> ops;
static json st (int s) { json r = json::object (); r["st"] = stname (s); return r; }
static json bad (const string &s) { json r = json::object (); r["st"] = "HARNESS " + s; return r; }

static void rmtree (const string &p);
static string storedir ();
static void end_all ()
{
    for (auto &k : K) if (k.second) LIB (dc_collection_finished (&k.second));
    K.clear ();
    for (auto &u : U) if (u.second) LIB (disir_update_finished (&u.second, NULL));
    U.clear ();
    for (auto i = Xorder.rbegin (); i != Xorder.rend (); ++i) {
        auto f = X.find (*i);
        if (f == X.end ()) continue;
        if (f->second) LIB (dc_putcontext (&f->second));
        X.erase (f);
    }
    Xorder.clear ();
    for (auto &c : C) if (c.second) LIB (disir_config_finished (&c.second));
    C.clear ();
    for (auto &m : M) if (m.second) LIB (disir_mold_finished (&m.second));
    M.clear ();
    for (auto &p : P) if (p.second && !I.empty ()) { LIB (disir_import_finalize (I.begin ()->second, DISIR_IMPORT_DISCARD, &p.second, NULL)); }
    P.clear ();
    for (auto &a : A) if (a.second && !I.empty ()) LIB (disir_archive_finalize (I.begin ()->second, NULL, &a.second));
    A.clear ();
    for (auto &i : I) if (i.second) LIB (disir_instance_destroy (&i.second));
    I.clear ();
    SAVED.clear ();
    rmtree (storedir ());
}

#define NEED(k) if (!has (c, k)) return bad (string ("missing ") + k)
#define RESOLVE(o) Ctx o; { int _e = resolve (c, o); if (_e) return bad (_e == 1 ? "nohandle" : "nopath"); }

static const struct disir_version *optver (const json &c, const char *k, struct disir_version &v)
{
    if (!has (c, k)) return nullptr;
    v = ver (c[k]);
    return &v;
}

#include "driver_core.inc"
#include "driver_store.inc"
#include "driver_fs.inc"
#include "driver_arc.inc"

int main (int argc, char **argv)
{
    if (argc > 1) g_scratch = argv[1];
    g_live = new std::unordered_map<const volatile void *, Alloc>;
    g_bt = getenv ("DRV_LEAKBT") != nullptr;
    g_fds = fds ();
    { time_t z = 0; tzset (); (void) gmtime (&z); }      // libc's own one-time allocations
    __sanitizer_install_malloc_and_free_hooks (on_malloc, on_free);
    register_core ();
    register_store ();
    register_fs ();
    register_arc ();
    g_temps = new std::set<string>;
    if (!g_scratch.empty ()) { mkdir (g_scratch.c_str (), 0755); if (chdir (g_scratch.c_str ()) != 0) return 8; }
    string line;
    while (std::getline (std::cin, line)) {
        if (line.empty ()) continue;
        json c = json::parse (line), r;
        string op = c["op"];
        auto f = ops.find (op);
        g_seq++;
        if (f == ops.end ()) r = bad ("unknown op " + op);
        else r = f->second (c);
        string o = r.dump (-1, ' ', false, json::error_handler_t::replace);
        o += "\n";
        size_t w = 0;
        while (w < o.size ()) { ssize_t k = ::write (1, o.data () + w, o.size () - w); if (k <= 0) return 9; w += k; }
    }
    end_all ();
    _exit (0);
}
