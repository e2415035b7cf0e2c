// Documents (configs and molds as text) and stores.
static std::map<string, string> DOCS;

static void spill (const string &path, const string &text)
{
    FILE *f = fopen (path.c_str (), "w");
    if (!f) return;
    if (!text.empty ()) fwrite (text.data (), 1, text.size (), f);
    fclose (f);
}
static string slurp (const string &path)
{
    string r; char buf[4096]; size_t n;
    FILE *f = fopen (path.c_str (), "r");
    if (!f) return r;
    while ((n = fread (buf, 1, sizeof buf, f)) > 0) r.append (buf, n);
    fclose (f);
    return r;
}
// What is nested deeper than this is read and let go of, not described.
static const int DEEP = 40;
static int levels (const json &d)
{
    int n = 0;
    if (d.contains ("els")) for (auto &e : d["els"]) n = std::max (n, levels (e));
    return n + 1;
}
static string docpath () { return g_scratch + "/document"; }
static disir_instance *inst (const json &c) { return has (c, "i") && I.count (c["i"]) ? I[c["i"]] : nullptr; }

static void register_store ()
{
    ops["ser"] = [](const json &c) -> json {
        if (!C.count (c["c"])) return bad ("nohandle");
        FILE *f = fopen (docpath ().c_str (), "w+");
        string fmt = c["fmt"];
        int s = fmt == "json" ? LIB (dio_json_serialize_config (inst (c), C[c["c"]], f))
                              : LIB (dio_toml_serialize_config (inst (c), C[c["c"]], f));
        fclose (f);
        json r = st (s);
        string t = slurp (docpath ());
        if (s == DISIR_STATUS_OK) { DOCS[c["d"]] = t; r["text"] = t; }
        else r["empty"] = t.empty ();
        return r;
    };
    ops["mser"] = [](const json &c) -> json {
        if (!M.count (c["m"])) return bad ("nohandle");
        FILE *f = fopen (docpath ().c_str (), "w+");
        int s = LIB (dio_json_serialize_mold (inst (c), M[c["m"]], f));
        fclose (f);
        json r = st (s);
        if (s == DISIR_STATUS_OK) { r["text"] = DOCS[c["d"]] = slurp (docpath ()); }
        return r;
    };
    ops["docput"] = [](const json &c) -> json {
        const string &t = DOCS[c["d"]] = str (c, "text");
        if (t.find ('\0') != string::npos || t.find ("\\u0000") != string::npos) g_nul = true; return st (0); };
    ops["unser"] = [](const json &c) -> json {
        if (!DOCS.count (c["d"]) || !M.count (c["m"])) return bad ("nohandle");
        spill (docpath (), DOCS[c["d"]]);
        FILE *f = fopen (docpath ().c_str (), "r");
        string fmt = c["fmt"];
        disir_config *cfg = nullptr;
        int s = fmt == "json" ? LIB (dio_json_unserialize_config (inst (c), f, M[c["m"]], &cfg))
                              : LIB (dio_toml_unserialize_config (inst (c), f, M[c["m"]], &cfg));
        fclose (f);
        json r = st (s);
        r["cfg"] = cfg != nullptr;
        if (cfg) {
            json d = dump_config (cfg, true);
            if (levels (d) > DEEP) { LIB (disir_config_finished (&cfg)); r["cfg"] = false; r["deep"] = true; }
            else {
                if (C.count (c["c"])) LIB (disir_config_finished (&C[c["c"]]));
                C[c["c"]] = cfg;
                r["d"] = d;
            }
        }
        return r;
    };
    ops["munser"] = [](const json &c) -> json {
        if (!DOCS.count (c["d"])) return bad ("nohandle");
        spill (docpath (), DOCS[c["d"]]);
        FILE *f = fopen (docpath ().c_str (), "r");
        disir_mold *m = nullptr;
        int s = LIB (dio_json_unserialize_mold (inst (c), f, &m));
        fclose (f);
        json r = st (s);
        r["mold"] = m != nullptr;
        if (m) {
            if (s != DISIR_STATUS_OK) LIB (disir_mold_finished (&m));
            else {
                json d = dump_mold (m, c["vers"]);
                if (levels (d) > DEEP) { LIB (disir_mold_finished (&m)); r["mold"] = false; r["deep"] = true; }
                else { M[c["m"]] = m; r["d"] = d; }
            }
        }
        return r;
    };
}
