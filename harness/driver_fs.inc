// File-backed stores: instances with plugins, entries written, read, queried, listed, removed.
#include <algorithm>
static string storedir () { return g_scratch + "/store"; }
static void rmtree (const string &p)
{
    struct stat sb;
    if (p.compare (0, g_scratch.size () + 1, g_scratch + "/") != 0) return;   // never outside the scratch directory
    if (lstat (p.c_str (), &sb) != 0) return;
    if (S_ISDIR (sb.st_mode)) {
        DIR *d = opendir (p.c_str ());
        if (d) {
            while (dirent *e = readdir (d)) { string n = e->d_name; if (n != "." && n != "..") rmtree (p + "/" + n); }
            closedir (d);
        }
        rmdir (p.c_str ());
    } else unlink (p.c_str ());
}
static void mkdirs (const string &p) { for (size_t i = 1; i <= p.size (); i++) if (i == p.size () || p[i] == '/') mkdir (p.substr (0, i).c_str (), 0755); }
static void listing (const string &dir, const string &rel, std::vector<string> &out)
{
    DIR *d = opendir (dir.c_str ());
    if (!d) return;
    while (dirent *e = readdir (d)) {
        string n = e->d_name; if (n == "." || n == "..") continue;
        string p = dir + "/" + n; struct stat sb;
        if (lstat (p.c_str (), &sb) != 0) continue;
        if (S_ISDIR (sb.st_mode)) listing (p, rel + n + "/", out);
        else out.push_back (safe ((rel + n).c_str ()));
    }
    closedir (d);
}
static string under (const json &c, const char *k) { string s = str (c, k); return storedir () + (s.empty () ? "" : "/" + s); }
static char *dups (const string &s) { return strdup (s.c_str ()); }
// "@LEN:n@" stands for an id whose mold path is n bytes long.
static std::map<string, int> g_mbase;   // instance/group -> length of the mold base path
static string entryid (const json &c)
{
    string e = str (c, "e");
    if (e.compare (0, 5, "@LEN:") != 0) return e;
    int n = atoi (e.c_str () + 5), used = g_mbase[string (c["i"]) + "/" + string (c["g"])] + 1 + 5;   // '/' and ".json"
    string r;
    while ((int) r.size () < n - used) r += r.size () % 2 ? "/" : "a";
    if (!r.empty () && r.back () == '/') r.back () = 'a';
    return r;
}
static json entry (const disir_entry *e)
{
    return { {"name", safe (e->de_entry_name)}, {"r", (int) e->flag.DE_READABLE}, {"w", (int) e->flag.DE_WRITABLE}, {"ns", (int) e->flag.DE_NAMESPACE_ENTRY},
             {"over", (int) e->flag.DE_OVERRIDE}, {"single", (int) e->flag.DE_SINGLE} };
}
static void told (json &r, disir_instance *i) { r["err"] = disir_error (i) != nullptr; }
static json entries (disir_entry *q)
{
    std::vector<std::pair<string, json>> v;
    while (q) { disir_entry *n = q->next; v.push_back ({ safe (q->de_entry_name), entry (q) }); LIB (disir_entry_finished (&q)); q = n; }
    std::sort (v.begin (), v.end (), [](auto &a, auto &b) { return a.first < b.first; });
    json l = json::array (); for (auto &x : v) l.push_back (x.second);
    return l;
}
static json given_config (int s, disir_config *cfg, const json &c)
{
    json r = st (s);
    r["cfg"] = cfg != nullptr;
    if (cfg) {
        json d = dump_config (cfg, true);
        if (levels (d) > DEEP) { LIB (disir_config_finished (&cfg)); r["cfg"] = false; r["deep"] = true; }
        else { if (C.count (c["c"])) LIB (disir_config_finished (&C[c["c"]])); C[c["c"]] = cfg; r["d"] = d; }
    }
    return r;
}
static json given_mold (int s, disir_mold *m, const json &c)
{
    json r = st (s);
    r["mold"] = m != nullptr;
    if (m) {
        if (s != DISIR_STATUS_OK) LIB (disir_mold_finished (&m));
        else { M[c["m"]] = m; r["d"] = dump_mold (m, c["vers"]); }
    }
    return r;
}
#define WITHI disir_instance *i = inst (c); if (!i) return bad ("nohandle"); string e = entryid (c), g = str (c, "g"); (void) e; (void) g;

static void register_fs ()
{
    ops["inst"] = [](const json &c) -> json {
        disir_instance *i = nullptr; int s = LIB (disir_instance_create (NULL, NULL, &i));
        if (!i) return st (s);
        I[c["i"]] = i;
        mkdirs (storedir ());
        for (auto &p : c["plugs"]) {
            disir_register_plugin q; memset (&q, 0, sizeof q);
            string name = p["name"], cx = p["cx"], mx = p["mx"], fmt = p["fmt"];
            q.dp_name = &name[0]; q.dp_description = (char *) "d"; q.dp_config_entry_type = &cx[0]; q.dp_mold_entry_type = &mx[0];
            q.dp_config_base_id = dups (under (p, "cb")); q.dp_mold_base_id = dups (under (p, "mb"));
            bool J = fmt == "json";
            q.dp_config_read = J ? dio_json_config_read : dio_toml_config_read;
            q.dp_config_write = J ? dio_json_config_write : dio_toml_config_write;
            q.dp_config_remove = dio_json_config_remove;
            q.dp_config_fd_write = J ? dio_json_config_fd_write : [](disir_instance *i, disir_config *g, FILE *f) { return dio_toml_serialize_config (i, g, f); };
            q.dp_config_fd_read = J ? dio_json_config_fd_read : [](disir_instance *i, FILE *f, disir_mold *m, disir_config **g) { return dio_toml_unserialize_config (i, f, m, g); };
            q.dp_config_entries = dio_json_config_entries; q.dp_config_query = dio_json_config_query;
            q.dp_mold_read = dio_json_mold_read; q.dp_mold_write = dio_json_mold_write;
            q.dp_mold_entries = dio_json_mold_entries; q.dp_mold_query = dio_json_mold_query;
            for (auto &n : p["no"]) {
                string w = n;
                if (w == "cread") q.dp_config_read = NULL; if (w == "cwrite") q.dp_config_write = NULL; if (w == "cremove") q.dp_config_remove = NULL;
                if (w == "centries") q.dp_config_entries = NULL; if (w == "cquery") q.dp_config_query = NULL;
                if (w == "mread") q.dp_mold_read = NULL; if (w == "mwrite") q.dp_mold_write = NULL; if (w == "mentries") q.dp_mold_entries = NULL; if (w == "mquery") q.dp_mold_query = NULL;
                if (w == "cfdwrite") q.dp_config_fd_write = NULL; if (w == "cfdread") q.dp_config_fd_read = NULL;
            }
            string io = p["io"], gr = p["group"];
            g_mbase[string (c["i"]) + "/" + gr] = under (p, "mb").size ();
            s = LIB (disir_plugin_register (i, &q, io.c_str (), gr.c_str ()));
            if (s != DISIR_STATUS_OK) return st (s);
        }
        return st (0);
    };
    ops["plugs"] = [](const json &c) -> json {
        disir_instance *i = inst (c); if (!i) return bad ("nohandle");
        disir_plugin *q = nullptr; int s = LIB (disir_plugin_registered (i, &q));
        json r = st (s), l = json::array ();
        while (q) { disir_plugin *n = q->next; l.push_back (safe (q->pl_group_id)); LIB (disir_plugin_finished (&q)); q = n; }
        r["groups"] = l; return r;
    };
    ops["fput"] = [](const json &c) -> json {
        string p = under (c, "path"), t = c.contains ("text") ? str (c, "text") : DOCS[c["d"]];
        struct stat sb;
        if (stat (p.c_str (), &sb) == 0 && S_ISDIR (sb.st_mode)) return bad ("directory");
        mkdirs (p.substr (0, p.rfind ('/')));
        spill (p, t);
        if (t.find ('\0') != string::npos || t.find ("\\u0000") != string::npos) g_nul = true;
        return st (0);
    };
    ops["fdel"] = [](const json &c) -> json { string p = under (c, "path"); rmtree (p); return st (0); };
    ops["fls"] = [](const json &) -> json {
        std::vector<string> v; listing (storedir (), "", v); std::sort (v.begin (), v.end ());
        if (g_crashed)      // what a write that was cut short left is no part of the store
            v.erase (std::remove_if (v.begin (), v.end (), [](const string &f) { return f.compare (f.rfind ('/') == string::npos ? 0 : f.rfind ('/') + 1, 7, ".disir.") == 0; }), v.end ());
        json r = st (0); r["files"] = v; return r;
    };
    ops["cread"] = [](const json &c) -> json { WITHI
        disir_mold *m = has (c, "m") ? M[c["m"]] : nullptr; disir_config *cfg = nullptr;
        int s = LIB (disir_config_read (i, g.c_str (), e.c_str (), m, &cfg));
        json r = given_config (s, cfg, c); told (r, i); return r; };
    ops["cwrite"] = [](const json &c) -> json { WITHI
        if (!C.count (c["c"])) return bad ("nohandle");
        int s = LIB (disir_config_write (i, g.c_str (), e.c_str (), C[c["c"]]));
        json r = st (s); told (r, i);
        if (s == DISIR_STATUS_OK && has (c, "_path")) r["text"] = slurp (under (c, "_path"));
        return r; };
    ops["cremove"] = [](const json &c) -> json { WITHI int s = LIB (disir_config_remove (i, g.c_str (), e.c_str ())); json r = st (s); told (r, i); return r; };
    ops["cquery"] = [](const json &c) -> json { WITHI
        disir_entry *q = nullptr; bool want = !c.value ("null", false);
        int s = LIB (disir_config_query (i, g.c_str (), e.c_str (), want ? &q : NULL));
        json r = st (s); if (q) { json d = entry (q); r["e"] = d; LIB (disir_entry_finished (&q)); } told (r, i); return r; };
    ops["mquery"] = [](const json &c) -> json { WITHI
        disir_entry *q = nullptr; bool want = !c.value ("null", false);
        int s = LIB (disir_mold_query (i, g.c_str (), e.c_str (), want ? &q : NULL));
        json r = st (s); if (q) { json d = entry (q); r["e"] = d; LIB (disir_entry_finished (&q)); } told (r, i); return r; };
    ops["centries"] = [](const json &c) -> json { WITHI
        disir_entry *q = nullptr; int s = LIB (disir_config_entries (i, g.c_str (), &q)); json r = st (s); r["list"] = entries (q); return r; };
    ops["mentries"] = [](const json &c) -> json { WITHI
        disir_entry *q = nullptr; int s = LIB (disir_mold_entries (i, g.c_str (), &q)); json r = st (s); r["list"] = entries (q); return r; };
    ops["mread"] = [](const json &c) -> json { WITHI
        disir_mold *m = nullptr; int s = LIB (disir_mold_read (i, g.c_str (), e.c_str (), &m));
        json r = given_mold (s, m, c); told (r, i); return r; };
    ops["mwrite"] = [](const json &c) -> json { WITHI
        if (!M.count (c["m"])) return bad ("nohandle");
        int s = LIB (disir_mold_write (i, g.c_str (), e.c_str (), M[c["m"]])); json r = st (s); told (r, i); return r; };
}
