// Archives: exported, looked into with libarchive, made by hand, imported; under faults and crashes.
#include <archive.h>
#include <archive_entry.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <csignal>
#include <disir/version.h>
extern "C" const char *libdisir_version_string;
static string replaced (string t)
{
    size_t i; while ((i = t.find ("@VERSION@")) != string::npos) t.replace (i, 9, libdisir_version_string);
    return t;
}
static string masked (string t)
{
    string v = libdisir_version_string; size_t i = 0;
    while ((i = t.find (v, i)) != string::npos) { t.replace (i, v.size (), "@VERSION@"); i += 9; }
    return t;
}
// What is in the archive at a path: null (nothing there), "bad", or its files in the order of their names.
static json peek (const string &path)
{
    struct stat sb;
    if (lstat (path.c_str (), &sb) != 0) return nullptr;
    struct archive *a = archive_read_new (); struct archive_entry *e;
    archive_read_support_format_tar (a); archive_read_support_filter_all (a);
    std::vector<std::pair<string, json>> v; bool good = archive_read_open_filename (a, path.c_str (), 10240) == ARCHIVE_OK; int rc = ARCHIVE_EOF;
    while (good && (rc = archive_read_next_header (a, &e)) == ARCHIVE_OK) {
        string t; char buf[8192]; ssize_t n;
        while ((n = archive_read_data (a, buf, sizeof buf)) > 0) t.append (buf, n);
        if (n < 0) { good = false; break; }
        const char *p = archive_entry_pathname (e);
        v.push_back ({ p ? p : "", { {"n", safe (p ? p : "")}, {"text", safe (masked (t).c_str ())}, {"file", archive_entry_filetype (e) == AE_IFREG} } });
    }
    if (rc != ARCHIVE_EOF) good = false;
    archive_read_free (a);
    if (!good) return "bad";
    std::sort (v.begin (), v.end (), [](auto &x, auto &y) { return x.first < y.first; });
    json l = json::array (); for (auto &x : v) l.push_back (x.second);
    return l;
}
static string arcpath (const json &c) { return c.value ("raw", false) ? str (c, "path") : c.value ("slash", false) ? under (c, "path") + "/" : under (c, "path"); }
static bool g_dirty = false;    // a failing operation may have left temporary files behind
static bool temporary (const string &p) { return p.compare (0, 11, "/tmp/disir.") == 0 || p.compare (0, 9, "/tmp/arc.") == 0; }
static void purge (const string &p)
{
    struct stat sb;
    if (!temporary (p) || p.find ("..") != string::npos || lstat (p.c_str (), &sb) != 0) return;
    if (S_ISDIR (sb.st_mode)) {
        DIR *d = opendir (p.c_str ());
        if (d) { while (dirent *e = readdir (d)) { string n = e->d_name; if (n != "." && n != "..") purge (p + "/" + n); } closedir (d); }
        rmdir (p.c_str ());
    } else unlink (p.c_str ());
}
static int leftovers ()
{
    if (g_dirty && A.empty ()) { for (auto &p : *g_temps) purge (p); g_temps->clear (); g_dirty = false; }
    int n = 0; struct stat sb;
    for (auto &p : *g_temps) if (lstat (p.c_str (), &sb) == 0) n++;
    return n;
}
// Temporary files of the store itself (of a write that did not come to its end).
static int sweep (const string &dir)
{
    int n = 0; DIR *d = opendir (dir.c_str ()); if (!d) return 0;
    std::vector<string> sub;
    while (dirent *e = readdir (d)) {
        string f = e->d_name; if (f == "." || f == "..") continue;
        string p = dir + "/" + f; struct stat sb;
        if (lstat (p.c_str (), &sb) != 0) continue;
        if (S_ISDIR (sb.st_mode)) sub.push_back (p);
        else if (f.compare (0, 7, ".disir.") == 0) { unlink (p.c_str ()); n++; }
    }
    closedir (d);
    for (auto &p : sub) n += sweep (p);
    return n;
}
// Run f with the n-th file operation failing ("fail"), or the disk full after n bytes of a file ("full").
static json trouble (const json &c, const std::function<json ()> &f)
{
    json t = c["fault"]; string k = t["k"]; int n = t["n"];
    struct rlimit old, lim; getrlimit (RLIMIT_FSIZE, &old);
    g_count = 0; g_fail = g_die = 0; g_broken = false; g_errno = t.value ("e", EIO);
    if (k == "full") { signal (SIGXFSZ, SIG_IGN); lim = old; lim.rlim_cur = n; setrlimit (RLIMIT_FSIZE, &lim); }
    else g_fail = n;
    g_window = true;
    json r = f ();
    g_window = false; g_fail = 0;
    if (k == "full") setrlimit (RLIMIT_FSIZE, &old);
    if (g_broken || k == "full") g_dirty = true;
    r["ops"] = g_count; r["hit"] = g_broken;
    return r;
}
// Run f in a process of its own that ends in front of its n-th file operation.
static string crashing (const json &c, const std::function<void ()> &f)
{
    fflush (NULL);
    int n = c["fault"]["n"];
    pid_t p = fork ();
    if (p == 0) {
        g_count = 0; g_die = n; g_window = true;
        f ();
        g_window = false;
        _exit (98);
    }
    int w = 0; waitpid (p, &w, 0);
    return WIFEXITED (w) && WEXITSTATUS (w) == 97 ? "CRASHED" : WIFEXITED (w) && WEXITSTATUS (w) == 98 ? "DONE" : "BROKEN";
}
static bool crashes (const json &c) { return has (c, "fault") && c["fault"]["k"] == "crash"; }
static disir_import *imp (const json &c) { return P.count (c["p"]) ? P[c["p"]] : nullptr; }
static int g_entries;
// The index of the entry of a group; entries have no order that matters.
static int place (disir_import *p, const json &c)
{
    if (has (c, "idx")) return c["idx"];
    const char *e, *g, *v, *info;
    for (int i = 0; i < 1000; i++) {
        e = g = nullptr;
        int s = LIB (disir_import_entry_status (p, i, &e, &g, &v, &info));
        if (s == DISIR_STATUS_INVALID_ARGUMENT && !e) break;
        if (str (c, "e") == e && str (c, "g") == g) return i;
    }
    return -2;
}
static json report (import_report *rep)
{
    json l = json::array ();
    if (!rep) return l;
    std::vector<string> v;
    for (int i = 0; i < rep->ir_entries; i++) v.push_back (rep->ir_entry[i] ? safe (rep->ir_entry[i]) : "(none)");
    std::sort (v.begin (), v.end ());
    for (auto &x : v) l.push_back (x);
    return l;
}

// Files a write left unfinished.
static int unfinished (const string &dir)
{
    int n = 0; DIR *d = opendir (dir.c_str ()); if (!d) return 0;
    while (dirent *e = readdir (d)) {
        string f = e->d_name; if (f == "." || f == "..") continue;
        string p = dir + "/" + f; struct stat sb;
        if (lstat (p.c_str (), &sb) != 0) continue;
        if (S_ISDIR (sb.st_mode)) n += unfinished (p); else if (f.compare (0, 7, ".disir.") == 0) n++;
    }
    closedir (d);
    return n;
}
// A write or removal of the entry kept at _path, disturbed. Whether the file is as it was; if it is not,
// whether it is what an undisturbed call makes of it.
static json disturbed (const json &c, disir_instance *i, const std::function<int ()> &call)
{
    string p = under (c, "_path"); struct stat sb;
    auto there = [&] () { return lstat (p.c_str (), &sb) == 0; };
    bool had = there (); json was = had ? json (slurp (p)) : json ();
    json r;
    if (crashes (c)) { r = { {"st", crashing (c, [&] { call (); })} }; g_crashed = true; }
    else {
        int n = unfinished (storedir ());
        r = trouble (c, [&] () -> json { return st (call ()); }); told (r, i);
        r["left"] = unfinished (storedir ()) - n;
    }
    bool has_ = there (); json is = has_ ? json (slurp (p)) : json ();
    r["kept"] = had == has_ && was == is;
    if (has_ && c["op"] == "cwrite" && (r["st"] == "OK" || r["st"] == "DONE" || !r["kept"])) r["text"] = is;
    if (!r["kept"]) {
        if (c["op"] == "cremove") r["whole"] = !has_;
        else { call (); r["whole"] = has_ && there () && slurp (p) == is; }
    }
    return r;
}

static void register_arc ()
{
    auto cw = ops["cwrite"], cr = ops["cremove"], mw = ops["mwrite"];
    ops["cwrite"] = [cw](const json &c) -> json {
        if (!has (c, "fault")) return cw (c);
        WITHI if (!C.count (c["c"])) return bad ("nohandle");
        return disturbed (c, i, [&] () { return LIB (disir_config_write (i, g.c_str (), e.c_str (), C[c["c"]])); }); };
    ops["cremove"] = [cr](const json &c) -> json {
        if (!has (c, "fault")) return cr (c);
        WITHI return disturbed (c, i, [&] () { return LIB (disir_config_remove (i, g.c_str (), e.c_str ())); }); };
    ops["mwrite"] = [mw](const json &c) -> json {
        if (!has (c, "fault")) return mw (c);
        WITHI if (!M.count (c["m"])) return bad ("nohandle");
        return disturbed (c, i, [&] () { return LIB (disir_mold_write (i, g.c_str (), e.c_str (), M[c["m"]])); }); };
    ops["mkd"] = [](const json &c) -> json { mkdirs (under (c, "path")); return st (0); };
    ops["abegin"] = [](const json &c) -> json {
        disir_instance *i = inst (c); if (!i) return bad ("nohandle");
        if (A.count (c["a"])) return bad ("handle in use");
        disir_archive *a = nullptr; string p = has (c, "path") ? arcpath (c) : "";
        auto run = [&] () -> json {
            int s = LIB (disir_archive_export_begin (i, has (c, "path") ? p.c_str () : NULL, &a));
            json r = st (s); return r; };
        json r = has (c, "fault") ? trouble (c, run) : run ();
        if (a) A[c["a"]] = a;
        r["got"] = a != nullptr; told (r, i); r["tmp"] = leftovers (); return r;
    };
    ops["aentry"] = [](const json &c) -> json { WITHI
        if (!A.count (c["a"])) return bad ("nohandle");
        auto run = [&] () -> json { int s = LIB (disir_archive_append_entry (i, A[c["a"]], g.c_str (), e.c_str ())); return st (s); };
        json r = has (c, "fault") ? trouble (c, run) : run (); told (r, i); return r; };
    ops["agroup"] = [](const json &c) -> json { WITHI
        if (!A.count (c["a"])) return bad ("nohandle");
        auto run = [&] () -> json { int s = LIB (disir_archive_append_group (i, A[c["a"]], g.c_str ())); return st (s); };
        json r = has (c, "fault") ? trouble (c, run) : run (); told (r, i); return r; };
    ops["afin"] = [](const json &c) -> json {
        disir_instance *i = inst (c); if (!i || !A.count (c["a"])) return bad ("nohandle");
        string p = has (c, "path") ? arcpath (c) : "";
        disir_archive *&a = A[c["a"]];
        auto call = [&] () { return LIB (disir_archive_finalize (i, has (c, "path") ? p.c_str () : NULL, &a)); };
        json r;
        if (crashes (c)) {
            r = { {"st", crashing (c, [&] { call (); })} };
            LIB (disir_archive_finalize (i, NULL, &a));
            sweep (storedir ());
        }
        else if (has (c, "fault")) { r = trouble (c, [&] () -> json { return st (call ()); }); told (r, i); r["swept"] = sweep (storedir ()); }
        else { r = st (call ()); told (r, i); }
        r["kept"] = a != nullptr;
        if (!a) A.erase (c["a"]);
        for (auto &w : c["_look"]) { json l = peek (storedir () + "/" + string (w)); r["look"].push_back ({ {"path", w}, {"arc", l.is_null () ? json ("absent") : l} }); }
        if (A.empty ()) r["tmp"] = leftovers ();
        return r;
    };
    // An archive made by hand: items [{n, text | d, type, to}], cut to a part of its bytes, one of them changed.
    ops["aput"] = [](const json &c) -> json {
        string p = under (c, "path");
        mkdirs (p.substr (0, p.rfind ('/')));
        string made = g_scratch + "/made";
        struct archive *a = archive_write_new ();
        archive_write_set_format_pax_restricted (a);
        string z = c.value ("filter", "xz"); if (z == "xz") archive_write_add_filter_xz (a); else if (z == "gz") archive_write_add_filter_gzip (a);
        archive_write_open_filename (a, made.c_str ());
        for (auto &x : c["items"]) {
            struct archive_entry *e = archive_entry_new ();
            string t = x.contains ("text") ? replaced (str (x, "text")) : x.contains ("d") ? DOCS[x["d"]] : "", y = x.value ("type", "file"), n = str (x, "n");
            size_t k; while ((k = n.find ("@STORE@")) != string::npos) n.replace (k, 7, storedir ());
            archive_entry_set_pathname (e, n.c_str ());
            archive_entry_set_perm (e, x.value ("mode", 0644));
            archive_entry_set_mtime (e, 1, 0);
            archive_entry_set_filetype (e, y == "dir" ? AE_IFDIR : y == "symlink" ? AE_IFLNK : y == "fifo" ? AE_IFIFO : y == "dev" ? AE_IFCHR : AE_IFREG);
            if (y == "symlink" || y == "hardlink") {
                string to = str (x, "to"); while ((k = to.find ("@STORE@")) != string::npos) to.replace (k, 7, storedir ());
                if (y == "symlink") archive_entry_set_symlink (e, to.c_str ()); else archive_entry_set_hardlink (e, to.c_str ());
            }
            if (y != "file") t = "";
            archive_entry_set_size (e, t.size ());
            archive_write_header (a, e);
            if (!t.empty ()) archive_write_data (a, t.data (), t.size ());
            archive_entry_free (e);
        }
        archive_write_close (a); archive_write_free (a);
        string b = slurp (made); unlink (made.c_str ());
        if (has (c, "cut")) b = b.substr (0, (size_t) (b.size () * (double) c["cut"]));
        if (has (c, "flip") && !b.empty ()) { size_t k = (size_t) (b.size () * (double) c["flip"]); if (k >= b.size ()) k = b.size () - 1; b[k] ^= 0x55; }
        if (has (c, "bytes")) b = str (c, "bytes");
        spill (p, b);
        return st (0);
    };
    ops["aimport"] = [](const json &c) -> json {
        disir_instance *i = inst (c); if (!i) return bad ("nohandle");
        if (P.count (c["p"])) return bad ("handle in use");
        disir_import *p = nullptr; int n = -1; string path = arcpath (c);
        auto run = [&] () -> json { return st (LIB (disir_archive_import (i, path.c_str (), &p, &n))); };
        json r = has (c, "fault") ? trouble (c, run) : run ();
        r["got"] = p != nullptr; told (r, i);
        if (A.empty ()) r["tmp"] = leftovers ();
        if (!p) return r;
        P[c["p"]] = p; json l = json::array ();
        for (int k = 0; k < n; k++) {
            const char *e = nullptr, *g = nullptr, *v = nullptr, *info = nullptr;
            int s = LIB (disir_import_entry_status (p, k, &e, &g, &v, &info));
            l.push_back ({ {"g", safe (g)}, {"e", safe (e)}, {"vtext", safe (v)}, {"st", stname (s)} });
        }
        r["n"] = n; r["list"] = l; return r;
    };
    ops["istat"] = [](const json &c) -> json {
        disir_import *p = imp (c); if (!p) return bad ("nohandle");
        int k = place (p, c); if (k == -2) return bad ("noentry");
        const char *e = nullptr, *g = nullptr, *v = nullptr;
        int s = LIB (disir_import_entry_status (p, k, &e, &g, &v, NULL));
        return st (s);
    };
    ops["ires"] = [](const json &c) -> json {
        disir_import *p = imp (c); if (!p) return bad ("nohandle");
        static const std::map<string, int> opt = { {"UPDATE", DISIR_IMPORT_UPDATE}, {"FORCE", DISIR_IMPORT_FORCE}, {"DO", DISIR_IMPORT_DO}, {"DISCARD", DISIR_IMPORT_DISCARD}, {"UPDATE_WITH_DISCARD", DISIR_IMPORT_UPDATE_WITH_DISCARD}, {"NONE", 77} };
        int k = place (p, c); if (k == -2) return bad ("noentry");
        return st (LIB (disir_import_resolve_entry (p, k, (disir_import_option) opt.at (c["opt"]))));
    };
    ops["ifin"] = [](const json &c) -> json {
        disir_instance *i = inst (c); if (!i || !imp (c)) return bad ("nohandle");
        static const std::map<string, int> opt = { {"DO", DISIR_IMPORT_DO}, {"DISCARD", DISIR_IMPORT_DISCARD}, {"FORCE", DISIR_IMPORT_FORCE}, {"UPDATE", DISIR_IMPORT_UPDATE}, {"NONE", 77} };
        disir_import *&p = P[c["p"]]; import_report *rep = nullptr; bool want = c["report"];
        auto run = [&] () -> json { return st (LIB (disir_import_finalize (i, (disir_import_option) opt.at (c["opt"]), &p, want ? &rep : NULL))); };
        json r = has (c, "fault") ? trouble (c, run) : run ();
        r["kept"] = p != nullptr;
        if (!p) P.erase (c["p"]);
        r["report"] = rep != nullptr;
        if (rep) { r["lines"] = report (rep); LIB (disir_import_report_destroy (&rep)); }
        json t = json::array ();
        for (auto &w : c["_paths"]) { string f = storedir () + "/" + string (w); struct stat sb; if (lstat (f.c_str (), &sb) == 0) t.push_back ({ {"path", w}, {"text", slurp (f)} }); }
        r["texts"] = t;
        if (has (c, "fault")) r["swept"] = sweep (storedir ());
        return r;
    };
}
