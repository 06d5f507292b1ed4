// C28: group operations go to the registered plugins in priority order.
#include "dis.hh"
#include <disir/plugin.h>
#include <string.h>
const char *PROPERTY = "C28";
const char *RULE = "one group operation over a set of registered plugins; distinct by operation, plugins (groups, operations they have, entries, answers) and entry; non-trivial: more than one plugin registered";
std::vector<std::pair<const char *, long>> REQUIRED = {
    {"operations", 60000}, {"config-read", 4000}, {"config-write", 4000}, {"config-remove", 4000}, {"config-query", 4000}, {"config-entries", 4000}, {"mold-read", 4000}, {"mold-write", 4000}, {"mold-query", 4000}, {"mold-entries", 4000},
    {"several_in_group", 20000}, {"shadowed", 2000}, {"missing_operation", 3000}, {"unknown_group", 3000}, {"duplicates", 2000}, {"late_registrations", 2000}, {"failed_queries", 2000}, {"plugins_finished", 5000}};
long driver_directed () { return 0; }
void driver_setup () {}

enum { CR, CW, CX, CQ, CE, MR, MW, MQ, ME, OPS };
static const char *ON[] = {"config-read", "config-write", "config-remove", "config-query", "config-entries", "mold-read", "mold-write", "mold-query", "mold-entries"};
struct Fake
{
    int no; std::string group, io, name; bool has[OPS]; int finished = 0;
    std::map<std::string, enum disir_status> conf, mold;      // answers to queries; absent: NOT_EXIST
    enum disir_status listing[2], result[OPS];
    struct disir_config *gave_config = nullptr; struct disir_mold *gave_mold = nullptr;
};
struct Call { int plugin, op; std::string id; const void *object; };
static std::vector<Call> calls;
static std::string wrong;
static struct disir_mold *the_mold;
static struct disir_instance *the_instance;
static Fake *fake (struct disir_instance *i, struct disir_register_plugin *p, int op, const char *id, const void *object)
{
    auto *f = (Fake *) p->dp_storage;
    calls.push_back ({f->no, op, id ? id : "", object});
    if (i != the_instance) wrong = "another instance";
    if (f->name != p->dp_name) wrong = "the plugin's name is " + std::string (p->dp_name);
    if (strf ("cb%d", f->no) != p->dp_config_base_id || strf ("mb%d", f->no) != p->dp_mold_base_id || strf ("ct%d", f->no) != p->dp_config_entry_type || strf ("mt%d", f->no) != p->dp_mold_entry_type) wrong = "the plugin's strings changed";
    if (!f->has[op]) wrong = "an operation the plugin does not have";
    return f;
}
static enum disir_status answer (Fake *f, int op)
{
    auto st = f->result[op];
    if (st != DISIR_STATUS_OK) disir_error_set (the_instance, "refused by %d in %s", f->no, ON[op]);
    return st;
}
static enum disir_status asked (Fake *f, const std::map<std::string, enum disir_status>& m, const char *id, struct disir_entry **e)
{
    auto it = m.find (id);
    auto st = it == m.end () ? DISIR_STATUS_NOT_EXIST : it->second;
    if (st == DISIR_STATUS_EXISTS && e)
    {
        *e = (struct disir_entry *) calloc (1, sizeof **e);
        (*e)->de_entry_name = strdup (id);
        (*e)->de_attributes = 1 + f->no;
    }
    if (st != DISIR_STATUS_EXISTS) disir_error_set (the_instance, "not with %d: %s", f->no, id);
    return st;
}
static enum disir_status listed (Fake *f, const std::map<std::string, enum disir_status>& m, enum disir_status st, struct disir_entry **out)
{
    struct disir_entry *head = nullptr;
    int n = 0;
    for (auto& x : m)
    {
        if (x.second != DISIR_STATUS_EXISTS) continue;
        if (st != DISIR_STATUS_OK && n++ > 1) break;
        auto *e = (struct disir_entry *) calloc (1, sizeof *head);
        e->de_entry_name = strdup (x.first.c_str ());
        e->de_attributes = 1 + f->no;
        if (!head) { head = e; head->prev = e; }
        else { e->prev = head->prev; head->prev->next = e; head->prev = e; }
    }
    *out = head;
    return st;
}
static enum disir_status f_finished (struct disir_instance *, struct disir_register_plugin *p) { ((Fake *) p->dp_storage)->finished++; return DISIR_STATUS_OK; }
static enum disir_status f_cr (struct disir_instance *i, struct disir_register_plugin *p, const char *id, struct disir_mold *m, struct disir_config **out)
{
    auto *f = fake (i, p, CR, id, m);
    auto st = answer (f, CR);
    f->gave_config = nullptr;
    if (st == DISIR_STATUS_OK) { disir_generate_config_from_mold (the_mold, nullptr, out); f->gave_config = *out; }
    return st;
}
static enum disir_status f_cw (struct disir_instance *i, struct disir_register_plugin *p, const char *id, struct disir_config *c) { return answer (fake (i, p, CW, id, c), CW); }
static enum disir_status f_cx (struct disir_instance *i, struct disir_register_plugin *p, const char *id) { return answer (fake (i, p, CX, id, nullptr), CX); }
static enum disir_status f_cq (struct disir_instance *i, struct disir_register_plugin *p, const char *id, struct disir_entry **e) { auto *f = fake (i, p, CQ, id, nullptr); return asked (f, f->conf, id, e); }
static enum disir_status f_ce (struct disir_instance *i, struct disir_register_plugin *p, struct disir_entry **e) { auto *f = fake (i, p, CE, nullptr, nullptr); return listed (f, f->conf, f->listing[0], e); }
static enum disir_status f_mr (struct disir_instance *i, struct disir_register_plugin *p, const char *id, struct disir_mold **out)
{
    auto *f = fake (i, p, MR, id, nullptr);
    auto st = answer (f, MR);
    f->gave_mold = nullptr;
    if (st == DISIR_STATUS_OK)
    {
        struct disir_config *cfg = nullptr;
        disir_generate_config_from_mold (the_mold, nullptr, &cfg);
        disir_config_get_mold (cfg, out);
        disir_config_finished (&cfg);
        f->gave_mold = *out;
    }
    return st;
}
static enum disir_status f_mw (struct disir_instance *i, struct disir_register_plugin *p, const char *id, struct disir_mold *m) { return answer (fake (i, p, MW, id, m), MW); }
static enum disir_status f_mq (struct disir_instance *i, struct disir_register_plugin *p, const char *id, struct disir_entry **e) { auto *f = fake (i, p, MQ, id, nullptr); return asked (f, f->mold, id, e); }
static enum disir_status f_me (struct disir_instance *i, struct disir_register_plugin *p, struct disir_entry **e) { auto *f = fake (i, p, ME, nullptr, nullptr); return listed (f, f->mold, f->listing[1], e); }

static const char *GROUPS[] = {"one", "two", "", "one_more", "on"};
static const char *IDS[] = {"a", "b", "dir/a", "dir/b", "dir/a_b"};
static const enum disir_status BAD[] = {DISIR_STATUS_FS_ERROR, DISIR_STATUS_PERMISSION_ERROR, DISIR_STATUS_MOLD_MISSING, DISIR_STATUS_INVALID_CONTEXT, DISIR_STATUS_NO_MEMORY, DISIR_STATUS_RESTRICTION_VIOLATED};
struct Rec { const char *what; };
static bool add (Case& c, std::vector<Fake *>& ps)
{
    Rng& r = c.r;
    auto *f = new Fake;
    f->no = (int) ps.size ();
    f->group = r.chance (3, 5) ? "one" : GROUPS[r.below (5)];
    f->io = strf ("io%d", f->no);
    f->name = strf ("plugin number %d", f->no);
    bool whole = r.chance (1, 2);
    for (auto& h : f->has) h = whole || r.chance (3, 4);
    for (int k = 0; k < OPS; k++) f->result[k] = r.chance (4, 5) ? DISIR_STATUS_OK : BAD[r.below (6)];
    for (auto& l : f->listing) l = r.chance (7, 8) ? DISIR_STATUS_OK : BAD[r.below (6)];
    for (auto *id : IDS) for (auto *m : {&f->conf, &f->mold}) { auto k = r.below (8); if (k < 4) (*m)[id] = DISIR_STATUS_EXISTS; else if (k == 4) (*m)[id] = BAD[r.below (6)]; }
    struct disir_register_plugin p;
    memset (&p, 0, sizeof p);
    auto dup = [] (const std::string& s) { return strdup (s.c_str ()); };
    p.dp_name = dup (f->name); p.dp_description = dup ("d"); p.dp_config_entry_type = dup (strf ("ct%d", f->no)); p.dp_mold_entry_type = dup (strf ("mt%d", f->no));
    p.dp_config_base_id = dup (strf ("cb%d", f->no)); p.dp_mold_base_id = dup (strf ("mb%d", f->no));
    p.dp_storage = f;
    p.dp_plugin_finished = f_finished;
    if (f->has[CR]) p.dp_config_read = f_cr;
    if (f->has[CW]) p.dp_config_write = f_cw;
    if (f->has[CX]) p.dp_config_remove = f_cx;
    if (f->has[CQ]) p.dp_config_query = f_cq;
    if (f->has[CE]) p.dp_config_entries = f_ce;
    if (f->has[MR]) p.dp_mold_read = f_mr;
    if (f->has[MW]) p.dp_mold_write = f_mw;
    if (f->has[MQ]) p.dp_mold_query = f_mq;
    if (f->has[ME]) p.dp_mold_entries = f_me;
    auto io = dup (f->io), group = dup (f->group);
    auto st = disir_plugin_register (the_instance, &p, io, group);
    // what was passed is the caller's again (but for the base ids, which the instance took over)
    for (auto *s : {p.dp_name, p.dp_description, p.dp_config_entry_type, p.dp_mold_entry_type, io, group}) { memset (s, '#', strlen (s)); free (s); }
    memset (&p, 0xee, sizeof p);
    if (st != DISIR_STATUS_OK) { c.violation ("register", "registering a plugin returned %s", sname (st)); delete f; return false; }
    ps.push_back (f);
    return true;
}
static std::string show (const std::vector<Call>& v) { std::string s; for (auto& x : v) s += strf ("%d:%s(%s) ", x.plugin, ON[x.op], x.id.c_str ()); return s.empty () ? "none" : s; }
static std::string plugins_text (const std::vector<Fake *>& ps)
{
    std::string s;
    for (auto *f : ps)
    {
        s += strf ("%d[%s]", f->no, f->group.c_str ());
        for (int k = 0; k < OPS; k++) s += f->has[k] ? (f->result[k] ? 'f' : '1') : '-';
        for (auto *m : {&f->conf, &f->mold}) { s += ' '; for (auto *id : IDS) { auto it = m->find (id); s += it == m->end () ? '0' : it->second == DISIR_STATUS_EXISTS ? '1' : 'e'; } }
        s += strf (" %d%d;", f->listing[0], f->listing[1]);
    }
    return s;
}
void driver_case (Case& c)
{
    Rng& r = c.r;
    MMold mm;
    mm.ver = Ver {1, 0};
    MEl k; k.name = "k"; k.vtype = DISIR_VALUE_TYPE_INTEGER; MDef d; d.intro = Ver {1, 0}; d.v = Val::I (1); k.defs.push_back (d);
    mm.kids.push_back (k);
    the_mold = build_mold (c, mm);
    struct disir_config *cfg = nullptr;
    std::vector<Fake *> ps;
    the_instance = nullptr;
    if (the_mold && EXPECT_OK (c, disir_generate_config_from_mold (the_mold, nullptr, &cfg)) && EXPECT_OK (c, disir_instance_create (nullptr, nullptr, &the_instance)))
    {
        // the instance comes with plugins of its own when the machine is configured so; they are in other groups
        for (int n = (int) r.below (5); n > 0; n--) add (c, ps);
        for (int n = 0; n < 60 && !c.failed; n++)
        {
            if (r.chance (1, 15) && ps.size () < 9) { add (c, ps); c.count ("late_registrations"); if (c.failed) break; }
            int op = (int) r.below (OPS);
            std::string group = r.chance (1, 2) ? "one" : r.chance (1, 8) ? "unknown" : GROUPS[r.below (5)];
            std::string id = r.chance (1, 20) ? "dir/" : r.chance (1, 30) ? "" : r.chance (1, 30) ? "elsewhere" : IDS[r.below (5)];
            std::vector<Fake *> in;
            for (auto *f : ps) if (f->group == group) in.push_back (f);
            c.count ("operations");
            c.count (ON[op]);
            if (in.size () > 1) c.count ("several_in_group");
            if (in.empty ()) c.count ("unknown_group");
            c.log ("%s of '%s' in '%s' with %s", ON[op], id.c_str (), group.c_str (), plugins_text (ps).c_str ());
            if (ps.size () > 1) c.nontrivial (strf ("%d ", op) + group + "/" + id + " " + plugins_text (ps));
            // what is to happen
            std::vector<Call> want;
            enum disir_status st = DISIR_STATUS_OK;
            bool any = false;
            Fake *chosen = nullptr;
            std::string text;                                  // the plugin's own words
            bool mold = op >= MR;
            auto query = [&] (Fake *f) { auto& m = mold ? f->mold : f->conf; auto it = m.find (id); return it == m.end () ? DISIR_STATUS_NOT_EXIST : it->second; };
            const void *object = nullptr;
            struct disir_config *gc = nullptr; struct disir_mold *gm = nullptr; struct disir_entry *ge = nullptr;
            std::multimap<std::string, unsigned> list;
            bool status_free = false;
            bool with_mold = r.chance (1, 2), with_entry = r.chance (2, 3);
            switch (op)
            {
            case CR: case MR:
            {
                int q = op == CR ? CQ : MQ;
                for (auto *f : in)
                {
                    if (!f->has[q]) { c.count ("missing_operation"); continue; }
                    want.push_back ({f->no, q, id, nullptr});
                    auto a = query (f);
                    if (a == DISIR_STATUS_EXISTS) { chosen = f; break; }
                    if (a != DISIR_STATUS_NOT_EXIST) { c.count ("failed_queries"); status_free = true; }
                }
                if (!chosen) st = DISIR_STATUS_NOT_EXIST;
                else if (!chosen->has[op]) st = DISIR_STATUS_NO_CAN_DO;
                else { st = chosen->result[op]; want.push_back ({chosen->no, op, id, op == CR && with_mold ? the_mold : nullptr}); if (st) text = strf ("refused by %d in %s", chosen->no, ON[op]); }
                if (chosen) { status_free = false; int n = 0; for (auto *f : in) if (f->has[q] && query (f) == DISIR_STATUS_EXISTS) n++; if (n > 1) c.count ("shadowed"); }
                break;
            }
            case CW: case CX: case MW:
                object = op == CW ? (void *) cfg : op == MW ? (void *) the_mold : nullptr;
                if (id.empty () || id.back () == '/') st = DISIR_STATUS_FS_ERROR;
                else if (in.empty ()) st = DISIR_STATUS_NOT_EXIST;
                else if (!in[0]->has[op]) { st = DISIR_STATUS_NO_CAN_DO; c.count ("missing_operation"); }
                else { chosen = in[0]; st = chosen->result[op]; want.push_back ({chosen->no, op, id, object}); if (st) text = strf ("refused by %d in %s", chosen->no, ON[op]); }
                break;
            case CQ: case MQ:
                for (auto *f : in)
                {
                    if (!f->has[op]) { c.count ("missing_operation"); continue; }
                    any = true;
                    want.push_back ({f->no, op, id, nullptr});
                    st = query (f);
                    if (st == DISIR_STATUS_EXISTS) { chosen = f; break; }
                    if (st != DISIR_STATUS_NOT_EXIST) c.count ("failed_queries");
                }
                if (!any) st = DISIR_STATUS_GROUP_MISSING;
                break;
            default:
                for (auto *f : in)
                {
                    if (!f->has[op]) { c.count ("missing_operation"); continue; }
                    want.push_back ({f->no, op, "", nullptr});
                    auto s = f->listing[op == ME];
                    if (s != DISIR_STATUS_OK) { st = s; status_free = true; continue; }
                    for (auto& x : mold ? f->mold : f->conf) if (x.second == DISIR_STATUS_EXISTS) { if (!list.count (x.first)) list.insert ({x.first, 1 + f->no}); else c.count ("duplicates"); }
                }
            }
            calls.clear ();
            wrong.clear ();
            disir_error_set (the_instance, "an older error");
            enum disir_status got = DISIR_STATUS_OK;
            auto *g = group.c_str (), *i = id.c_str ();
            auto *in_ = the_instance;
            switch (op)
            {
            case CR: got = disir_config_read (in_, g, i, with_mold ? the_mold : nullptr, &gc); break;
            case CW: got = disir_config_write (in_, g, i, cfg); break;
            case CX: got = disir_config_remove (in_, g, i); break;
            case CQ: got = disir_config_query (in_, g, i, with_entry ? &ge : nullptr); break;
            case CE: got = disir_config_entries (in_, g, &ge); break;
            case MR: got = disir_mold_read (in_, g, i, &gm); break;
            case MW: got = disir_mold_write (in_, g, i, the_mold); break;
            case MQ: got = disir_mold_query (in_, g, i, with_entry ? &ge : nullptr); break;
            default: got = disir_mold_entries (in_, g, &ge);
            }
            std::string err = disir_error (in_) ? disir_error (in_) : "";
            bool same = calls.size () == want.size ();
            for (size_t q = 0; same && q < want.size (); q++) same = calls[q].plugin == want[q].plugin && calls[q].op == want[q].op && calls[q].id == want[q].id && (calls[q].object == want[q].object || want[q].op == CQ || want[q].op == MQ);
            if (!wrong.empty ()) c.violation (strf ("%s:call", ON[op]), "%s called a plugin with %s", ON[op], wrong.c_str ());
            if (!same) c.violation (strf ("%s:calls", ON[op]), "%s of '%s' in '%s' made the calls %s instead of %s", ON[op], i, g, show (calls).c_str (), show (want).c_str ());
            bool listing = op == CE || op == ME;
            if (!status_free && got != st && !(listing && in.empty ())) c.violation (strf ("%s:status", ON[op]), "%s of '%s' in '%s' returned %s instead of %s", ON[op], i, g, sname (got), sname (st));
            if (status_free && !listing && got == DISIR_STATUS_OK) c.violation (strf ("%s:status", ON[op]), "%s of '%s' in '%s', where no plugin has it, returned OK", ON[op], i, g);
            if (got != DISIR_STATUS_OK && got != DISIR_STATUS_EXISTS && !listing && (err.empty () || err.find ("an older error") != std::string::npos)) c.violation (strf ("%s:silent", ON[op]), "%s returned %s with the error text '%s'", ON[op], sname (got), err.c_str ());
            if (!text.empty () && err.find (text) == std::string::npos) c.violation (strf ("%s:text", ON[op]), "%s failed in a plugin that said '%s'; the error text is '%s'", ON[op], text.c_str (), err.c_str ());
            if (op == CR && (gc != nullptr) != (chosen && chosen->has[CR] && st == DISIR_STATUS_OK)) c.violation ("config-read:object", "config read returned %s and object %p", sname (got), (void *) gc);
            if (op == CR && gc && chosen && gc != chosen->gave_config) c.violation ("config-read:object", "config read gave another object than the plugin");
            if (op == MR && gm && chosen && gm != chosen->gave_mold) c.violation ("mold-read:object", "mold read gave another object than the plugin");
            if (op == MR && (gm != nullptr) != (chosen && chosen->has[MR] && st == DISIR_STATUS_OK)) c.violation ("mold-read:object", "mold read returned %s and object %p", sname (got), (void *) gm);
            if (op == CQ || op == MQ)
            {
                if ((ge != nullptr) != (chosen && with_entry)) c.violation (strf ("%s:entry", ON[op]), "%s returned %s and entry %p", ON[op], sname (got), (void *) ge);
                else if (ge && (ge->de_entry_name != id || ge->de_attributes != 1u + chosen->no)) c.violation (strf ("%s:entry", ON[op]), "%s gave the entry %s of plugin %u", ON[op], ge->de_entry_name, ge->de_attributes - 1);
                if (ge) disir_entry_finished (&ge);
            }
            if (listing)
            {
                std::multimap<std::string, unsigned> have;
                while (ge) { auto *x = ge->next; have.insert ({ge->de_entry_name, ge->de_attributes}); disir_entry_finished (&ge); ge = x; }
                if (have != list)
                {
                    std::string a, b;
                    for (auto& x : list) a += strf ("%s@%u ", x.first.c_str (), x.second - 1);
                    for (auto& x : have) b += strf ("%s@%u ", x.first.c_str (), x.second - 1);
                    c.violation (strf ("%s:list", ON[op]), "%s in '%s' lists %s instead of %s", ON[op], g, b.c_str (), a.c_str ());
                }
            }
            if (gc) disir_config_finished (&gc);
            if (gm) disir_mold_finished (&gm);
        }
        // the groups registered, in order
        struct disir_plugin *pl = nullptr;
        std::string have, want;
        if (EXPECT_OK (c, disir_plugin_registered (the_instance, &pl)))
        {
            while (pl) { auto *x = pl->next; have += std::string (pl->pl_group_id) + ","; disir_plugin_finished (&pl); pl = x; }
            for (auto *f : ps) want += f->group + ",";
            if (have.size () < want.size () || have.compare (have.size () - want.size (), want.size (), want)) c.violation ("registered", "the groups registered are %s instead of %s", have.c_str (), want.c_str ());
        }
        auto st = disir_instance_destroy (&the_instance);
        if (st != DISIR_STATUS_OK) c.violation ("destroy", "destroying the instance returned %s", sname (st));
        for (auto *f : ps) { c.count ("plugins_finished"); if (f->finished != 1) c.violation ("finished", "destroying the instance called the finish step of a plugin %d times", f->finished); }
    }
    if (cfg) disir_config_finished (&cfg);
    if (the_mold) disir_mold_finished (&the_mold);
    for (auto *f : ps) delete f;
    calls.clear ();
    calls.shrink_to_fit ();
}
