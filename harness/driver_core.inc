// Core operations: contexts, configs, molds, queries, values, collections, compare, update, errors.
static int leftovers ();
static int g_fds;
static int fds () { int n = 0; DIR *d = opendir ("/proc/self/fd"); if (!d) return 0; while (readdir (d)) n++; closedir (d); return n; }
static json cmd_end (const json &c)
{
    json r = st (0);
    end_all ();
    size_t n = g_live->size (); long bytes = 0;
    for (auto &p : *g_live) bytes += p.second.size;
    r["leak"] = n;
    r["tmp"] = leftovers (); g_temps->clear ();
    r["fds"] = fds () - g_fds;
    if (n && g_bt) {
        int k = 0;
        for (auto &p : *g_live) {
            fprintf (stderr, "LEAK %zu bytes seq %lu\n", p.second.size, p.second.seq);
            backtrace_symbols_fd (p.second.bt, p.second.n, 2);
            if (++k > 6) break;
        }
    }
    g_busy = true; g_live->clear (); g_busy = false;
    return r;
}

static void register_core ()
{
    ops["end"] = cmd_end;
    ops["reset"] = [](const json &c) -> json { end_all (); g_nul = g_crashed = false; g_temps->clear (); g_fds = fds (); g_busy = true; g_live->clear (); g_busy = false; return st (0); };
    ops["mold"] = [](const json &c) -> json {
        disir_mold *m = nullptr;
        json r = build_mold (c["mold"], &m);
        if (m) M[c["m"]] = m;
        return r;
    };
    ops["mfree"] = [](const json &c) -> json {
        string h = c["m"]; if (!M.count (h)) return bad ("nohandle");
        int s = LIB (disir_mold_finished (&M[h])); M.erase (h); return st (s);
    };
    ops["cfree"] = [](const json &c) -> json {
        string h = c["c"]; if (!C.count (h)) return bad ("nohandle");
        int s = LIB (disir_config_finished (&C[h])); C.erase (h); return st (s);
    };
    ops["mdump"] = [](const json &c) -> json {
        json r = st (0); if (!M.count (c["m"])) return bad ("nohandle");
        r["d"] = dump_mold (M[c["m"]], c["vers"]); return r;
    };
    ops["mvalid"] = [](const json &c) -> json {
        if (!M.count (c["m"])) return bad ("nohandle");
        disir_collection *col = nullptr;
        int s = LIB (disir_mold_valid (M[c["m"]], &col));
        json r = st (s);
        r["col"] = col ? drain (col, true) : json::array ();
        if (col) LIB (dc_collection_finished (&col));
        return r;
    };
    ops["gen"] = [](const json &c) -> json {
        if (!M.count (c["m"])) return bad ("nohandle");
        struct disir_version v; disir_config *cfg = nullptr;
        int s = LIB (disir_generate_config_from_mold (M[c["m"]], (disir_version *) optver (c, "ver", v), &cfg));
        json r = st (s);
        if (cfg) { if (C.count (c["c"])) LIB (disir_config_finished (&C[c["c"]])); C[c["c"]] = cfg; }
        return r;
    };
    ops["dump"] = [](const json &c) -> json {
        json r = st (0);
        if (C.count (c["c"])) { r["d"] = dump_config (C[c["c"]], c.value ("flags", false)); return r; }
        Ctx o; if (resolve (c, o, "c")) return bad ("nohandle");
        int s = LIB (dc_context_valid (o.c));
        if (s == DISIR_STATUS_DESTROYED_CONTEXT || s == DISIR_STATUS_INVALID_ARGUMENT) return st (s);
        r["d"] = dump_ctx (o.c, c.value ("flags", false));
        struct disir_version v = {0, 0};
        if (LIB (dc_context_type (o.c)) == DISIR_CONTEXT_CONFIG) { r["d"].erase ("k"); int e = LIB (dc_get_version (o.c, &v)); r["d"]["ver"] = e == 0 ? jver (v) : json (stname (e)); }
        return r;
    };
    ops["valid"] = [](const json &c) -> json {
        if (!C.count (c["c"])) return bad ("nohandle");
        disir_collection *col = (disir_collection *) nullptr;
        int s;
        if (c.value ("nocol", false)) s = LIB (disir_config_valid (C[c["c"]], NULL));
        else s = LIB (disir_config_valid (C[c["c"]], &col));
        json r = st (s);
        r["col"] = col ? drain (col, true) : json::array ();
        if (col) LIB (dc_collection_finished (&col));
        return r;
    };
    ops["getmold"] = [](const json &c) -> json {
        if (!C.count (c["c"])) return bad ("nohandle");
        disir_mold *m = nullptr;
        int s = LIB (disir_config_get_mold (C[c["c"]], &m));
        json r = st (s);
        r["same"] = has (c, "m") && M.count (c["m"]) && M[c["m"]] == m;
        if (m) LIB (disir_mold_finished (&m));
        return r;
    };
    // ---- by-query access
    ops["cset"] = [](const json &c) -> json {
        string t = c["t"], v = str (c, "v"), q = str (c, "q"); int s;
        if (C.count (c["x"]) && !c.value ("ctx", false)) {
            disir_config *g = C[c["x"]];
            if (t == "STRING") s = LIB (disir_config_set_keyval_string (g, v.c_str (), "%s", q.c_str ()));
            else if (t == "ENUM") s = LIB (disir_config_set_keyval_enum (g, v.c_str (), "%s", q.c_str ()));
            else if (t == "INTEGER") s = LIB (disir_config_set_keyval_integer (g, strtoll (v.c_str (), 0, 10), "%s", q.c_str ()));
            else if (t == "FLOAT") s = LIB (disir_config_set_keyval_float (g, strtod (v.c_str (), 0), "%s", q.c_str ()));
            else s = LIB (disir_config_set_keyval_boolean (g, v == "true", "%s", q.c_str ()));
            return st (s);
        }
        RESOLVE (o);
        if (t == "STRING") s = LIB (dc_config_set_keyval_string (o.c, v.c_str (), "%s", q.c_str ()));
        else if (t == "ENUM") s = LIB (dc_config_set_keyval_enum (o.c, v.c_str (), "%s", q.c_str ()));
        else if (t == "INTEGER") s = LIB (dc_config_set_keyval_integer (o.c, strtoll (v.c_str (), 0, 10), "%s", q.c_str ()));
        else if (t == "FLOAT") s = LIB (dc_config_set_keyval_float (o.c, strtod (v.c_str (), 0), "%s", q.c_str ()));
        else s = LIB (dc_config_set_keyval_boolean (o.c, v == "true", "%s", q.c_str ()));
        return st (s);
    };
    ops["cget"] = [](const json &c) -> json {
        string t = c["t"], q = str (c, "q"); int s; json r, v;
        const char *p = nullptr; int64_t i = 0; double d = 0; uint8_t b = 9;
        bool cx = !(C.count (c["x"]) && !c.value ("ctx", false));
        Ctx o; disir_config *g = nullptr;
        if (cx) { int e = resolve (c, o); if (e) return bad (e == 1 ? "nohandle" : "nopath"); } else g = C[c["x"]];
        if (t == "STRING") s = cx ? LIB (dc_config_get_keyval_string (o.c, &p, "%s", q.c_str ())) : LIB (disir_config_get_keyval_string (g, &p, "%s", q.c_str ()));
        else if (t == "ENUM") s = cx ? LIB (dc_config_get_keyval_enum (o.c, &p, "%s", q.c_str ())) : LIB (disir_config_get_keyval_enum (g, &p, "%s", q.c_str ()));
        else if (t == "INTEGER") s = cx ? LIB (dc_config_get_keyval_integer (o.c, &i, "%s", q.c_str ())) : LIB (disir_config_get_keyval_integer (g, &i, "%s", q.c_str ()));
        else if (t == "FLOAT") s = cx ? LIB (dc_config_get_keyval_float (o.c, &d, "%s", q.c_str ())) : LIB (disir_config_get_keyval_float (g, &d, "%s", q.c_str ()));
        else s = cx ? LIB (dc_config_get_keyval_boolean (o.c, &b, "%s", q.c_str ())) : LIB (disir_config_get_keyval_boolean (g, &b, "%s", q.c_str ()));
        r = st (s);
        if (s == 0) {
            if (t == "STRING" || t == "ENUM") v = safe (p);
            else if (t == "INTEGER") v = std::to_string (i);
            else if (t == "FLOAT") v = dstr (d);
            else v = b == 1 ? "true" : b == 0 ? "false" : "BADBOOL";
            r["v"] = v;
        }
        return r;
    };
    ops["query"] = [](const json &c) -> json {          // resolve, report what was found, let go
        RESOLVE (o); string q = str (c, "q"); disir_context *e = nullptr;
        int s = LIB (dc_query_resolve_context (o.c, "%s", &e, q.c_str ()));
        json r = st (s);
        if (s == 0 && e) {
            char *n = nullptr;
            r["k"] = ctname (LIB (dc_context_type (e)));
            int s2 = LIB (dc_resolve_root_name (e, &n));
            r["root"] = s2 == 0 ? safe (n) : string ("ERR ") + stname (s2);
            if (s2 == 0) free (n);
            if (has (c, "as")) setx (c["as"], e); else LIB (dc_putcontext (&e));
        } else if (e) r["k"] = "SET-ON-ERROR";
        return r;
    };
    // ---- context construction
    ops["cbegin"] = [](const json &c) -> json {
        if (!M.count (c["m"])) return bad ("nohandle");
        disir_context *x = nullptr;
        int s = LIB (dc_config_begin (M[c["m"]], &x));
        if (x) setx (c["as"], x);
        return st (s);
    };
    ops["mbegin"] = [](const json &c) -> json {
        disir_context *x = nullptr; int s = LIB (dc_mold_begin (&x));
        if (x) setx (c["as"], x);
        return st (s);
    };
    ops["cfin"] = [](const json &c) -> json {
        string h = c["x"]; if (!X.count (h)) return bad ("nohandle");
        disir_config *g = nullptr; disir_context *x = X[h];
        int s = LIB (dc_config_finalize (&x, &g));
        json r = st (s);
        r["kept"] = x != nullptr;
        if (x) X[h] = x; else X.erase (h);
        if (g) { if (C.count (c["c"])) LIB (disir_config_finished (&C[c["c"]])); C[c["c"]] = g; }
        r["cfg"] = g != nullptr;
        return r;
    };
    ops["mfin"] = [](const json &c) -> json {
        string h = c["x"]; if (!X.count (h)) return bad ("nohandle");
        disir_mold *g = nullptr; disir_context *x = X[h];
        int s = LIB (dc_mold_finalize (&x, &g));
        json r = st (s);
        r["kept"] = x != nullptr;
        if (x) X[h] = x; else X.erase (h);
        if (g) M[c["m"]] = g;
        r["mold"] = g != nullptr;
        return r;
    };
    ops["begin"] = [](const json &c) -> json {
        RESOLVE (o); disir_context *x = nullptr;
        int s = LIB (dc_begin (o.c, ctype (c["k"]), &x));
        if (s == 0 && x) setx (c["as"], x);
        return st (s);
    };
    ops["fin"] = [](const json &c) -> json {
        string h = c["x"]; if (!X.count (h)) return bad ("nohandle");
        disir_context *x = X[h];
        int s = LIB (dc_finalize (&x));
        json r = st (s); r["kept"] = x != nullptr;
        if (x) X[h] = x; else X.erase (h);
        return r;
    };
    ops["finkeep"] = [](const json &c) -> json {
        string h = c["x"]; if (!X.count (h)) return bad ("nohandle");
        return st (LIB (dc_finalize_keep_reference (X[h])));
    };
    ops["put"] = [](const json &c) -> json {
        string h = c["x"]; if (!X.count (h)) return bad ("nohandle");
        disir_context *x = X[h]; int s = LIB (dc_putcontext (&x));
        if (!x) X.erase (h); else X[h] = x;
        return st (s);
    };
    ops["destroy"] = [](const json &c) -> json {
        if (has (c, "at")) {
            RESOLVE (o); disir_context *x = o.c;
            o.owned = false; o.c = nullptr;
            // destroying gives up the reference found; the element itself goes with it
            int s = LIB (dc_destroy (&x));
            return st (s);
        }
        string h = c["x"]; if (!X.count (h)) return bad ("nohandle");
        disir_context *x = X[h]; int s = LIB (dc_destroy (&x));
        if (!x) X.erase (h); else X[h] = x;
        return st (s);
    };
    ops["hold"] = [](const json &c) -> json {            // take a reference on an element
        RESOLVE (o);
        if (!o.owned) return bad ("cannot hold a handle");
        setx (c["as"], o.c); o.owned = false;
        return st (0);
    };
    ops["setname"] = [](const json &c) -> json {
        RESOLVE (o); string n = str (c, "name");
        return st (LIB (dc_set_name (o.c, n.c_str (), n.size ())));
    };
    ops["getname"] = [](const json &c) -> json {
        RESOLVE (o); const char *n = nullptr; int32_t z = -1;
        int s = LIB (dc_get_name (o.c, &n, &z));
        json r = st (s); if (s == 0) { r["name"] = safe (n); r["size"] = z; } return r;
    };
    ops["settype"] = [](const json &c) -> json { RESOLVE (o); return st (LIB (dc_set_value_type (o.c, vtype (c["t"])))); };
    ops["gettype"] = [](const json &c) -> json {
        RESOLVE (o); enum disir_value_type t = (enum disir_value_type) 0; int s = LIB (dc_get_value_type (o.c, &t));
        json r = st (s); if (s == 0) r["t"] = vtname (t); return r;
    };
    ops["vtype"] = [](const json &c) -> json { RESOLVE (o); json r = st (0); r["t"] = vtname (LIB (dc_value_type (o.c))); r["s"] = safe (LIB (dc_value_type_string (o.c))); return r; };
    ops["setv"] = [](const json &c) -> json { RESOLVE (o); return st (setval (o.c, c["t"], str (c, "v"), c.value ("n", -1))); };
    ops["setself"] = [](const json &c) -> json {          // set a text from the storage it is read from
        RESOLVE (o); const char *p = nullptr; int32_t n = 0; bool e = c["t"] == "ENUM";
        int s = e ? LIB (dc_get_value_enum (o.c, &p, &n)) : LIB (dc_get_value_string (o.c, &p, &n));
        if (s != DISIR_STATUS_OK || !p) return st (s);
        int k = std::min ((int) c["off"], (int) n);
        return st (e ? LIB (dc_set_value_enum (o.c, p + k, n - k)) : LIB (dc_set_value_string (o.c, p + k, n - k)));
    };
    ops["getv"] = [](const json &c) -> json {
        RESOLVE (o); int s = -1; json v = getval (o.c, vtype (c["t"]), &s);
        json r = st (s); if (s == 0) r["v"] = v; return r;
    };
    ops["gettext"] = [](const json &c) -> json {          // rendering into a buffer of a given size
        RESOLVE (o); int n = c["size"]; int32_t out = -7;
        char *buf = (char *) malloc (n > 0 ? n : 1); memset (buf, 0x5a, n > 0 ? n : 1);
        int s = LIB (dc_get_value (o.c, n, buf, &out));
        json r = st (s);
        r["size"] = out;
        if (s == 0 && n > 0) { size_t l = strnlen (buf, n); r["term"] = l < (size_t) n; r["text"] = safe (buf, l < (size_t) n ? l : 0); r["len"] = l; }
        free (buf); return r;
    };
    ops["setver"] = [](const json &c) -> json {
        auto v = ver (c["ver"]); RESOLVE (o);
        return st (LIB (dc_set_version (o.c, &v)));
    };
    ops["getver"] = [](const json &c) -> json {
        RESOLVE (o); struct disir_version v = {77, 77}; int s = LIB (dc_get_version (o.c, &v));
        json r = st (s); if (s == 0) r["ver"] = jver (v); return r;
    };
    ops["intro"] = [](const json &c) -> json { RESOLVE (o); auto v = ver (c["ver"]); return st (LIB (dc_add_introduced (o.c, &v))); };
    ops["depr"] = [](const json &c) -> json { RESOLVE (o); auto v = ver (c["ver"]); return st (LIB (dc_add_deprecated (o.c, &v))); };
    ops["getintro"] = [](const json &c) -> json { RESOLVE (o); struct disir_version v = {77, 77}; int s = LIB (dc_get_introduced (o.c, &v)); json r = st (s); if (s == 0) r["ver"] = jver (v); return r; };
    ops["getdepr"] = [](const json &c) -> json { RESOLVE (o); struct disir_version v = {77, 77}; int s = LIB (dc_get_deprecated (o.c, &v)); json r = st (s); if (s == 0) r["ver"] = jver (v); return r; };
    ops["ctxvalid"] = [](const json &c) -> json { RESOLVE (o); return st (LIB (dc_context_valid (o.c))); };
    ops["ctxtype"] = [](const json &c) -> json { RESOLVE (o); json r = st (0); r["k"] = ctname (LIB (dc_context_type (o.c))); r["s"] = safe (LIB (dc_context_type_string (o.c))); return r; };
    ops["ctxerr"] = [](const json &c) -> json { RESOLVE (o); json r = st (0); const char *e = LIB (dc_context_error (o.c)); r["set"] = e != nullptr && *e; return r; };
    ops["fatal"] = [](const json &c) -> json { RESOLVE (o); json r = st (LIB (dc_fatal_error (o.c, "%s", "fatal by user"))); if (r["st"] == "OK") { const char *e = LIB (dc_context_error (o.c)); r["told"] = e != nullptr && string (e) == "fatal by user"; } return r; };
    ops["rootname"] = [](const json &c) -> json {
        RESOLVE (o); char *n = nullptr; int s = LIB (dc_resolve_root_name (o.c, &n));
        json r = st (s); if (s == 0) { r["root"] = safe (n); free (n); } return r;
    };
    ops["find"] = [](const json &c) -> json {
        RESOLVE (o); disir_context *e = nullptr; string n = str (c, "name");
        int s = LIB (dc_find_element (o.c, n.c_str (), c["idx"].get<unsigned> (), &e));
        json r = st (s);
        if (s == 0 && e) { if (has (c, "as")) setx (c["as"], e); else { r["d"] = dump_ctx (e, false); LIB (dc_putcontext (&e)); } }
        return r;
    };
    ops["finds"] = [](const json &c) -> json {
        RESOLVE (o); disir_collection *col = nullptr; string n = str (c, "name");
        int s = LIB (dc_find_elements (o.c, n.c_str (), &col));
        json r = st (s);
        if (s == 0) { r["size"] = LIB (dc_collection_size (col)); r["d"] = drain (col, false, [](disir_context *e) { return dump_ctx (e, false); }); LIB (dc_collection_finished (&col)); }
        return r;
    };
    ops["elems"] = [](const json &c) -> json {
        RESOLVE (o); disir_collection *col = nullptr;
        int s = LIB (dc_get_elements (o.c, &col));
        json r = st (s);
        if (s == 0) { r["size"] = LIB (dc_collection_size (col)); r["d"] = drain (col, false, [](disir_context *e) { return dump_ctx (e, false); }); LIB (dc_collection_finished (&col)); }
        return r;
    };
    ops["genroot"] = [](const json &c) -> json { RESOLVE (o); return st (LIB (dc_generate_from_config_root (o.c))); };
    ops["setdef"] = [](const json &c) -> json { RESOLVE (o); struct disir_version v; return st (LIB (dc_keyval_set_default (o.c, (disir_version *) optver (c, "ver", v)))); };
    ops["getdef"] = [](const json &c) -> json {
        RESOLVE (o); struct disir_version v; int n = c.value ("size", 4096); int32_t out = -7;
        char *buf = (char *) malloc (n > 0 ? n : 1); memset (buf, 0x5a, n > 0 ? n : 1);
        int s = LIB (dc_get_default (o.c, (disir_version *) optver (c, "ver", v), n, buf, &out));
        json r = st (s);
        if (s == 0) { size_t l = strnlen (buf, n); r["size"] = out; r["text"] = l < (size_t) n ? safe (buf, l) : string ("UNTERMINATED"); }
        free (buf); return r;
    };
    ops["limits"] = [](const json &c) -> json {
        RESOLVE (o); int lo = -99, hi = -99;
        int s = LIB (dc_restriction_entries_minimum (o.c, &lo)); int s2 = LIB (dc_restriction_entries_maximum (o.c, &hi));
        json r = st (s ? s : s2); if (!s && !s2) { r["min"] = lo; r["max"] = hi; } return r;
    };
    // ---- mold pieces
    ops["adddef"] = [](const json &c) -> json { RESOLVE (o); return st (add_default (o.c, c["t"], c)); };
    ops["adddeftext"] = [](const json &c) -> json { RESOLVE (o); struct disir_version v; string s = str (c, "v"); return st (LIB (dc_add_default (o.c, s.c_str (), s.size (), (disir_version *) optver (c, "intro", v)))); };
    ops["addrest"] = [](const json &c) -> json { RESOLVE (o); return st (add_restr (o.c, c)); };
    ops["addmin"] = [](const json &c) -> json { RESOLVE (o); struct disir_version v; return st (LIB (dc_add_restriction_entries_min (o.c, c["n"].get<int64_t> (), (disir_version *) optver (c, "intro", v)))); };
    ops["addmax"] = [](const json &c) -> json { RESOLVE (o); struct disir_version v; return st (LIB (dc_add_restriction_entries_max (o.c, c["n"].get<int64_t> (), (disir_version *) optver (c, "intro", v)))); };
    ops["addkv"] = [](const json &c) -> json {
        RESOLVE (o); string t = c["t"], v = str (c, "v"), n = str (c, "name"), doc = has (c, "doc") ? str (c, "doc") : string ("doc");
        struct disir_version w; auto *pv = (disir_version *) optver (c, "intro", w); disir_context *x = nullptr; disir_context **px = has (c, "as") ? &x : nullptr; int s;
        if (t == "STRING") s = LIB (dc_add_keyval_string (o.c, n.c_str (), v.c_str (), doc.c_str (), pv, px));
        else if (t == "ENUM") s = LIB (dc_add_keyval_enum (o.c, n.c_str (), v.c_str (), doc.c_str (), pv, px));
        else if (t == "INTEGER") s = LIB (dc_add_keyval_integer (o.c, n.c_str (), strtoll (v.c_str (), 0, 10), doc.c_str (), pv, px));
        else if (t == "FLOAT") s = LIB (dc_add_keyval_float (o.c, n.c_str (), strtod (v.c_str (), 0), doc.c_str (), pv, px));
        else s = LIB (dc_add_keyval_boolean (o.c, n.c_str (), v == "true", doc.c_str (), pv, px));
        if (x) setx (c["as"], x);
        return st (s);
    };
    ops["rvadd"] = [](const json &c) -> json {           // the one-call ways to add a value restriction
        RESOLVE (o); string t = c["rt"]; struct disir_version w; auto *pv = (disir_version *) optver (c, "intro", w);
        string doc = has (c, "doc") ? str (c, "doc") : string (); const char *d = has (c, "doc") ? doc.c_str () : NULL;
        disir_context *x = nullptr; disir_context **px = has (c, "as") ? &x : nullptr; int s;
        if (t == "RANGE") s = LIB (dc_add_restriction_value_range (o.c, strtod (c["lo"].get<string> ().c_str (), 0), strtod (c["hi"].get<string> ().c_str (), 0), d, pv, px));
        else if (t == "ENUM") s = LIB (dc_add_restriction_value_enum (o.c, str (c, "s").c_str (), d, pv, px));
        else s = LIB (dc_add_restriction_value_numeric (o.c, strtod (c["n"].get<string> ().c_str (), 0), d, pv, px));
        if (x) setx (c["as"], x);
        json r = st (s); r["out"] = x != nullptr; return r;
    };
    ops["rcoll"] = [](const json &c) -> json {
        RESOLVE (o); disir_collection *col = nullptr; int s = LIB (dc_restriction_collection (o.c, &col)); json r = st (s);
        json d = json::array ();
        if (s == 0) { d = drain (col, false, [](disir_context *e) { enum disir_restriction_type t = (enum disir_restriction_type) 0; LIB (dc_get_restriction_type (e, &t)); return json (rtname (t)); }); LIB (dc_collection_finished (&col)); }
        r["d"] = d; return r;
    };
    ops["rget"] = [](const json &c) -> json {            // every getter of a restriction
        RESOLVE (o); json r = st (0); enum disir_restriction_type t = (enum disir_restriction_type) 0;
        int s = LIB (dc_get_restriction_type (o.c, &t)); r["st"] = stname (s); if (s) return r;
        r["rt"] = rtname (t);
        const char *p = nullptr; double a = 0, b = 0;
        s = LIB (dc_restriction_get_string (o.c, &p)); r["s"] = s ? string ("ERR ") + stname (s) : safe (p);
        s = LIB (dc_restriction_get_numeric (o.c, &a)); r["n"] = s ? string ("ERR ") + stname (s) : dstr (a);
        s = LIB (dc_restriction_get_range (o.c, &a, &b)); r["lo"] = s ? string ("ERR ") + stname (s) : dstr (a); r["hi"] = s ? string ("ERR ") + stname (s) : dstr (b);
        return r;
    };
    ops["defs"] = [](const json &c) -> json {            // the defaults of a mold keyval, in their order
        RESOLVE (o); disir_collection *col = nullptr; int s = LIB (dc_get_default_contexts (o.c, &col)); json r = st (s);
        json d = json::array (); int t = LIB (dc_value_type (o.c));
        if (s == 0) { d = drain (col, false, [&](disir_context *e) { return getval (e, t, nullptr); }); LIB (dc_collection_finished (&col)); }
        r["d"] = d; return r;
    };
    ops["xdump"] = [](const json &c) -> json {           // a mold element, finalized or not, as its getters tell it
        RESOLVE (o); json r = st (0);
        int s = LIB (dc_context_valid (o.c));
        if (s == DISIR_STATUS_DESTROYED_CONTEXT) return st (s);
        r["d"] = dump_mold_el (o.c, c["vers"], true); return r;
    };
    ops["rtype"] = [](const json &c) -> json { RESOLVE (o); return st (LIB (dc_set_restriction_type (o.c, rtype (c["rt"])))); };
    ops["rnum"] = [](const json &c) -> json { RESOLVE (o); return st (LIB (dc_restriction_set_numeric (o.c, strtod (c["n"].get<string> ().c_str (), 0)))); };
    ops["rrange"] = [](const json &c) -> json { RESOLVE (o); return st (LIB (dc_restriction_set_range (o.c, strtod (c["lo"].get<string> ().c_str (), 0), strtod (c["hi"].get<string> ().c_str (), 0)))); };
    ops["rstr"] = [](const json &c) -> json { RESOLVE (o); return st (LIB (dc_restriction_set_string (o.c, str (c, "s").c_str ()))); };
    // ---- documentation
    ops["adddoc"] = [](const json &c) -> json { RESOLVE (o); string d = str (c, "v"); return st (LIB (dc_add_documentation (o.c, d.c_str (), d.size ()))); };
    ops["adddocv"] = [](const json &c) -> json { RESOLVE (o); json d = json::object (); d["docs"] = json::array ({c}); return st (add_docs (o.c, d)); };
    ops["getdoc"] = [](const json &c) -> json {
        RESOLVE (o); struct disir_version v; const char *d = nullptr; int32_t n = -1;
        int s = LIB (dc_get_documentation (o.c, (disir_version *) optver (c, "ver", v), &d, &n));
        json r = st (s); if (s == 0) { r["doc"] = d ? safe (d, n) : string ("(null)"); } return r;
    };
    // ---- collections
    ops["knew"] = [](const json &c) -> json { K[c["k"]] = LIB (dc_collection_create ()); return st (K[c["k"]] ? 0 : 10); };
    ops["kpush"] = [](const json &c) -> json { if (!K.count (c["k"])) return bad ("nohandle"); RESOLVE (o); return st (LIB (dc_collection_push_context (K[c["k"]], o.c))); };
    ops["knext"] = [](const json &c) -> json {
        if (!K.count (c["k"])) return bad ("nohandle"); disir_context *e = nullptr;
        int s = LIB (dc_collection_next (K[c["k"]], &e)); json r = st (s);
        r["got"] = e != nullptr;
        if (e) {
            // identity: which held handle is this
            r["k"] = ctname (LIB (dc_context_type (e)));
            const char *n = nullptr;
            if (LIB (dc_get_name (e, &n, NULL)) == 0) r["name"] = safe (n); else r["name"] = "";
            r["dead"] = LIB (dc_context_valid (e)) == DISIR_STATUS_DESTROYED_CONTEXT;
            int t = LIB (dc_value_type (e));
            if (LIB (dc_context_type (e)) == DISIR_CONTEXT_KEYVAL) r["v"] = getval (e, t, nullptr); else r["v"] = "";
            if (has (c, "as")) setx (c["as"], e); else LIB (dc_putcontext (&e));
        }
        return r;
    };
    ops["kreset"] = [](const json &c) -> json { if (!K.count (c["k"])) return bad ("nohandle"); return st (LIB (dc_collection_reset (K[c["k"]]))); };
    ops["ksize"] = [](const json &c) -> json { if (!K.count (c["k"])) return bad ("nohandle"); json r = st (0); r["size"] = LIB (dc_collection_size (K[c["k"]])); return r; };
    ops["kfree"] = [](const json &c) -> json { if (!K.count (c["k"])) return bad ("nohandle"); int s = LIB (dc_collection_finished (&K[c["k"]])); K.erase (c["k"].get<string> ()); return st (s); };
    ops["kelems"] = [](const json &c) -> json {
        RESOLVE (o); disir_collection *col = nullptr; int s;
        if (has (c, "name")) s = LIB (dc_find_elements (o.c, str (c, "name").c_str (), &col));
        else s = LIB (dc_get_elements (o.c, &col));
        if (s == 0) K[c["k"]] = col;
        return st (s);
    };
    // ---- comparison
    ops["compare"] = [](const json &c) -> json {
        Ctx a, b; if (resolve (c, a, "x", "at") || resolve (c, b, "y", "bt")) return bad ("nohandle");
        disir_diff_report *rep = nullptr;
        int s = LIB (dc_compare (a.c, b.c, c.value ("norep", false) ? NULL : &rep));
        json r = st (s); json lines = json::array ();
        if (rep) {
            for (int i = 0; i < rep->dr_entries; i++) { lines.push_back (safe (rep->dr_diff_string[i])); free (rep->dr_diff_string[i]); }
            free (rep->dr_diff_string); free (rep);
        }
        r["n"] = lines.size (); r["lines"] = lines; r["rep"] = rep != nullptr;
        return r;
    };
    // ---- update
    ops["upd"] = [](const json &c) -> json {
        if (!C.count (c["c"])) return bad ("nohandle");
        struct disir_version v; disir_update *u = nullptr;
        int s = LIB (disir_update_config (C[c["c"]], (disir_version *) optver (c, "ver", v), &u));
        if (u) U[c["u"]] = u;
        json r = st (s); r["upd"] = u != nullptr; return r;
    };
    ops["updconf"] = [](const json &c) -> json {
        if (!U.count (c["u"])) return bad ("nohandle");
        const char *n = nullptr, *k = nullptr, *m = nullptr;
        int s = LIB (disir_update_conflict (U[c["u"]], &n, &k, &m));
        json r = st (s); if (s == DISIR_STATUS_OK) { r["name"] = safe (n); r["keyval"] = safe (k); r["mold"] = safe (m); } return r;
    };
    ops["updres"] = [](const json &c) -> json { if (!U.count (c["u"])) return bad ("nohandle"); return st (LIB (disir_update_resolve (U[c["u"]], str (c, "v").c_str ()))); };
    ops["updcont"] = [](const json &c) -> json { if (!U.count (c["u"])) return bad ("nohandle"); return st (LIB (disir_update_continue (U[c["u"]]))); };
    ops["updfin"] = [](const json &c) -> json {
        if (!U.count (c["u"])) return bad ("nohandle"); disir_config *g = nullptr;
        int s = has (c, "as") ? LIB (disir_update_finished (&U[c["u"]], &g)) : LIB (disir_update_finished (&U[c["u"]], NULL));
        if (!U[c["u"]]) U.erase (c["u"].get<string> ());
        if (g) C[c["as"]] = g;
        json r = st (s); r["cfg"] = g != nullptr; return r;
    };
    // ---- versions
    ops["vcmp"] = [](const json &c) -> json { auto a = ver (c["a"]), b = ver (c["b"]); int k = LIB (dc_version_compare (&a, &b)); json r = st (0); r["sign"] = k < 0 ? -1 : k > 0 ? 1 : 0; return r; };
    ops["vparse"] = [](const json &c) -> json { struct disir_version v = {0,0}; int s = LIB (dc_version_convert (str (c, "s").c_str (), &v)); json r = st (s); if (s == 0) r["ver"] = jver (v); return r; };
    ops["vset"] = [](const json &c) -> json { auto a = ver (c["a"]), b = ver (c["b"]); LIB ((dc_version_set (&b, &a), 0)); json r = st (0); r["ver"] = jver (b); r["src"] = jver (a); return r; };
    ops["vprint"] = [](const json &c) -> json {
        auto v = ver (c["ver"]); int n = c["size"]; char *b = (char *) malloc (n > 0 ? n : 1); memset (b, 0x5a, n > 0 ? n : 1);
        char *q = LIB (dc_version_string (b, n, &v)); json r = st (0); r["ok"] = q == b; r["text"] = q ? safe (q) : string (""); free (b); return r;
    };
    // ---- instance error text
    ops["ierrset"] = [](const json &c) -> json { if (!I.count (c["i"])) return bad ("nohandle"); LIB ((disir_error_set (I[c["i"]], "%s", str (c, "v").c_str ()), 0)); return st (0); };
    ops["ierrwrap"] = [](const json &c) -> json {          // an error text that quotes the present one
        if (!I.count (c["i"])) return bad ("nohandle"); const char *e = LIB (disir_error (I[c["i"]]));
        LIB ((disir_error_set (I[c["i"]], "%s%s%s", str (c, "a").c_str (), e ? e : "", str (c, "b").c_str ()), 0)); return st (0);
    };
    ops["iblank"] = [](const json &c) -> json {
        disir_instance *i = nullptr; int s = LIB (disir_instance_create (NULL, NULL, &i));
        if (i) I[c["i"]] = i; return st (s);
    };
    ops["ifree"] = [](const json &c) -> json {
        string h = c["i"]; if (!I.count (h)) return bad ("nohandle");
        int s = LIB (disir_instance_destroy (&I[h])); json r = st (s); r["null"] = I[h] == nullptr; I.erase (h); return r;
    };
    ops["ierrclear"] = [](const json &c) -> json { if (!I.count (c["i"])) return bad ("nohandle"); LIB ((disir_error_clear (I[c["i"]]), 0)); return st (0); };
    ops["ierr"] = [](const json &c) -> json { if (!I.count (c["i"])) return bad ("nohandle"); const char *e = LIB (disir_error (I[c["i"]])); json r = st (0); r["set"] = e != nullptr; r["text"] = e ? safe (e) : string (""); return r; };
    ops["ierrcopy"] = [](const json &c) -> json {
        if (!I.count (c["i"])) return bad ("nohandle"); int n = c["size"]; int32_t w = -7; char *b = (char *) malloc (n > 0 ? n : 1); memset (b, 0x5a, n > 0 ? n : 1);
        int s = LIB (disir_error_copy (I[c["i"]], b, n, c.value ("nosize", false) ? NULL : &w)); json r = st (s); r["size"] = w;
        size_t l = n > 0 ? strnlen (b, n) : 0; r["touched"] = !(n > 0 && (unsigned char) b[0] == 0x5a);
        r["term"] = n > 0 && l < (size_t) n; r["text"] = r["term"].get<bool> () ? safe (b, l) : string (""); free (b); return r;
    };
}
