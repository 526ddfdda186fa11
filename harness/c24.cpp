// C24: windows under random life cycles and toolkit events, on the broadway backend.
#include "common.hpp"
#include <chrono>
#include <cmath>
#include <unistd.h>
#include <deque>
#include <cmp/desktop_gui/desktop_gui_application.hpp>
#include <cmp/desktop_gui/window.hpp>
using namespace h;
struct W;
struct Native { GtkWidget* w; W* owner; bool destroyed = false; int id; double sum = 0, last_total = 0; uint64_t updates = 0; uint64_t opened_at; double open_from = 0, open_to = 0, last_seen = 0; std::u8string title; int width = 0, height = 0; bool maximized = false, shown = false; };
struct Ev { char kind; W* self; int key; int type; int depth; };
static std::vector<std::unique_ptr<Native>> g_nat; // every native window ever opened
static std::vector<std::unique_ptr<W>> g_win;      // live window objects
static std::set<const W*> g_live;
static std::vector<Ev> g_ev;
static std::string g_hist;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static double g_open_from; // before the opening call that is under way
static Rng* R; static uint64_t g_tick, g_updates; static int g_depth; static bool g_running, g_shutdown; static long g_budget, g_after;
static void logop(const std::string& s) { g_hist += " " + s; if (g_hist.size() > 1500) g_hist.erase(0, g_hist.size() - 1500); set_case("C24" + g_hist); }
static void bad(const char* key, const std::string& d) { fail(key, d + " | history:" + (g_hist.size() > 700 ? g_hist.substr(g_hist.size() - 700) : g_hist)); }
static Native* of(const W* w); static void random_op();
static void on_update(W* self, double d, double t);
static std::vector<W*> g_closing; // objects whose close handler is on the stack
static std::vector<Native*> g_sizing; // native windows whose resize handler is on the stack: the toolkit may be in the middle of showing them
static std::vector<W*> g_active; // objects with one of their member functions on the stack
static std::map<std::pair<int, int>, std::pair<uint64_t, uint64_t>> g_pace;
static int g_burst_kind, g_bursts; // in one kind of handler per application, many windows are opened at once: the library's own tables have to grow under its feet
static void burst(int kind) {
    if (kind != g_burst_kind || g_bursts >= 4 || g_depth > 1 || g_shutdown || !R->chance(1, 3)) return;
    std::vector<std::unique_ptr<cmp::window>> many; size_t n = (size_t)12 << g_bursts++; logop(fmt("burst(%zu)", n));
    for (size_t i = 0; i < n; ++i) many.push_back(std::make_unique<cmp::window>(60, 60, u8"burst", cmp::window_mode::standard));
    if (R->chance(1, 2)) std::reverse(many.begin(), many.end()); many.clear(); ++counter("bursts_in_handlers");
}
struct W : cmp::window {
    bool allow = true; int id; static int next; bool act = false;
    W(int a, int b, const std::u8string& t, cmp::window_mode m) : window(a, b, t, m), id(++next) { g_live.insert(this); }
    W(W&& o) : window(std::move(o)), allow(o.allow), id(++next), act(o.act) { g_live.insert(this); }
    W& operator=(W&& o) { window::operator=(std::move(o)); return *this; }
    ~W() { g_live.erase(this); }
    void rec(char k, int key = 0, int type = 0) {
        if (!g_live.count(this)) { bad("event-to-destroyed-object", fmt("event %c", k)); return; }
        g_ev.push_back({k, this, key, type, g_depth});
        Native* n = of(this); if (!n) bad("event-without-window", fmt("event %c reached window object %d, which owns no native window", k, id));
    }
    void nest(const char* what) { if (act && g_depth < 2 && R->chance(1, 2)) { act = false; ++g_depth; g_active.push_back(this); random_op(); g_active.pop_back(); --g_depth; ++counter(what); } }
    void update(double d, double t) override { rec('u'); on_update(this, d, t); }
    void handle_key_down_event(cmp::key_event& e) override { rec('d', (int)e.get_key(), (int)e.get_key_event_type()); if (e.get_event_type() != cmp::event_type::key_event) bad("event-type", "key event"); nest("actions_in_key_handlers"); burst(0); }
    void handle_key_up_event(cmp::key_event& e) override { rec('k', (int)e.get_key(), (int)e.get_key_event_type()); if (e.get_event_type() != cmp::event_type::key_event) bad("event-type", "key event"); nest("actions_in_key_handlers"); burst(1); }
    void handle_resize_event() override { rec('r'); g_sizing.push_back(of(this)); nest("actions_in_resize_handlers"); burst(2); g_sizing.pop_back(); }
    void handle_close_event(cmp::close_event& e) override {
        rec('c'); if (!e.should_close()) bad("should-close-default", "a close event starts with should_close false"); if (e.get_event_type() != cmp::event_type::close_event) bad("event-type", "close event");
        burst(3); bool a = allow; if (act && g_depth < 2) { act = false; ++g_depth; g_active.push_back(this); g_closing.push_back(this); random_op(); g_closing.pop_back(); g_active.pop_back(); --g_depth; ++counter("actions_in_close_handlers"); }
        if (!a) e.set_should_close(false); else if (R->chance(1, 4)) { e.set_should_close(false); e.set_should_close(true); }
    }
};
int W::next = 0;
static Native* of(const W* w) { for (auto& n : g_nat) if (n->owner == w && !n->destroyed) return n.get(); return nullptr; }
static Native* native_by(GtkWidget* w) { for (auto& n : g_nat) if (n->w == w && !n->destroyed) return n.get(); return nullptr; }
extern "C" void on_destroy(GtkWidget* w, gpointer) { Native* n = native_by(w); if (n) { n->destroyed = true; n->owner = nullptr; } }
static int critical; static std::string critical_text;
static GLogWriterOutput writer(GLogLevelFlags lv, const GLogField* f, gsize n, gpointer) {
    if (lv & (G_LOG_LEVEL_CRITICAL | G_LOG_LEVEL_ERROR)) { ++critical; for (gsize i = 0; i < n; ++i) if (!strcmp(f[i].key, "MESSAGE")) critical_text = (const char*)f[i].value; }
    return G_LOG_WRITER_HANDLED;
}
static std::u8string title(Rng& r) { if (r.chance(1, 6)) { ++counter("long_titles"); return encode<std::u8string>(gen_text(r, 700, false, false) + U"."); } return encode<std::u8string>(gen_text(r, 12, false, false)); }
static void adopt(W* w, const char* how) { // a native window was opened by w
    GtkWidget* g = w->grab_native_handle().gtk_application_window;
    if (!g) { bad("not-opened", std::string(how) + " left no native window"); return; }
    if (native_by(g)) { bad("native-shared", std::string(how) + " returned a native window that is in use"); return; }
    g_nat.push_back(std::make_unique<Native>(Native{g, w, false, (int)g_nat.size(), 0, 0, 0, g_tick, g_open_from, now(), 0})); g_signal_connect(g, "destroy", G_CALLBACK(on_destroy), nullptr);
}
// what a window was opened with, and was told since, is what it shows
static void look(Native* n, const char* when) {
    if (n->destroyed) return; // by a handler
    int gw = 0, gh = 0; gtk_window_get_default_size(GTK_WINDOW(n->w), &gw, &gh); // what it is given on the screen is the toolkit's business
    if (gtk_widget_get_realized(n->w)) n->width = gw, n->height = gh;
    if (gw != n->width || gh != n->height) bad("size", fmt("%s: %dx%d instead of %dx%d", when, gw, gh, n->width, n->height));
    if (n->owner && n->owner->get_title() != n->title) bad("title", std::string(when) + ": " + dump_units(n->owner->get_title()) + " instead of " + dump_units(n->title));
    const char* t = gtk_window_get_title(GTK_WINDOW(n->w)); if (std::string(t ? t : "") != std::string(n->title.begin(), n->title.end())) bad("title", std::string(when) + ": the toolkit has another title");
    if (gtk_widget_is_visible(n->w) != n->shown) bad(n->shown ? "show" : "hide", fmt("%s: visible is %d", when, !n->shown));
    if (n->maximized != (gtk_window_is_maximized(GTK_WINDOW(n->w)) != FALSE) && gtk_widget_get_mapped(n->w)) bad("mode", fmt("%s: maximized is %d", when, !n->maximized));
    if (n->maximized && gtk_widget_get_mapped(n->w)) ++counter("maximized_windows_seen"); ++counter("windows_looked_at");
}
static void opened(W* w, const char* how, int a, int b, const std::u8string& t, cmp::window_mode m) {
    size_t k = g_nat.size(); adopt(w, how); if (g_nat.size() == k) return;
    Native* n = g_nat.back().get(); n->title = t; n->width = a; n->height = b; n->maximized = m == cmp::window_mode::maximized; look(n, how);
}
static W* pick_window(Rng& r, W* not_this = nullptr) { std::vector<W*> v; for (auto& w : g_win) if (w.get() != not_this) v.push_back(w.get()); return v.empty() ? nullptr : v[r.below(v.size())]; }
static void check_ownership() { // what each object believes must match the model
    for (auto& w : g_win) { Native* n = of(w.get()); GtkWidget* g = w->grab_native_handle().gtk_application_window; if (g != (n ? n->w : nullptr)) bad(n ? "lost-native-window" : "dangling-native-window", fmt("object %d", w->id)); }
    for (auto& x : g_nat) if (!x->destroyed && x->owner) look(x.get(), "later");
    if (critical) { bad("toolkit-critical", critical_text); critical = 0; }
}
static int key_of(guint kv) {
    if (kv >= 0xffbe && kv <= 0xffbe + 23) return (int)cmp::key::f1 + (int)(kv - 0xffbe);
    if (kv >= '0' && kv <= '9') return (int)cmp::key::number_0 + (int)(kv - '0');
    if (kv >= 0xffb0 && kv <= 0xffb9) return (int)cmp::key::numpad_0 + (int)(kv - 0xffb0);
    if (kv >= 'a' && kv <= 'z') return (int)cmp::key::a + (int)(kv - 'a'); if (kv >= 'A' && kv <= 'Z') return (int)cmp::key::a + (int)(kv - 'A');
    return kv == ' ' ? (int)cmp::key::space_bar : (int)cmp::key::unknown;
}
static void send_key(Native* n, guint kv, bool down) {
    guint code = (guint)R->below(256); GdkModifierType mods = (GdkModifierType)(R->chance(1, 2) ? 0 : R->below(16) | (R->chance(1, 3) ? GDK_BUTTON1_MASK : 0) | (R->chance(1, 4) ? GDK_SUPER_MASK : 0));
    size_t before = g_ev.size(); W* owner = n->owner; GtkWidget* nw = n->w;
    GListModel* l = gtk_widget_observe_controllers(nw); std::vector<GtkEventController*> cs; for (guint i = 0; i < g_list_model_get_n_items(l); ++i) { auto* o = (GtkEventController*)g_list_model_get_item(l, i); if (GTK_IS_EVENT_CONTROLLER_KEY(o)) cs.push_back(o); else g_object_unref(o); }
    for (auto* o : cs) { gboolean ret = FALSE; if (gtk_event_controller_get_widget(o) != nw) {} /* the window went away meanwhile */ else if (down) g_signal_emit_by_name(o, "key-pressed", kv, code, mods, &ret); else g_signal_emit_by_name(o, "key-released", kv, code, mods); g_object_unref(o); }
    g_object_unref(l);
    std::vector<Ev> got; for (size_t i = before; i < g_ev.size(); ++i) if (g_ev[i].depth == g_depth) got.push_back(g_ev[i]); // not those of actions in the handler
    if (got.size() != 1) { bad("key-count", fmt("key %x %s: %zu events", kv, down ? "press" : "release", got.size())); return; }
    auto& e = got[0];
    if (e.self != owner) bad("key-wrong-window", fmt("key %x reached object %d instead of %d", kv, e.self->id, owner->id));
    if (e.kind != (down ? 'd' : 'k') || e.type != (int)(down ? cmp::key_event_type::key_down : cmp::key_event_type::key_up)) bad("key-type", fmt("key %x %s arrived as %c type %d", kv, down ? "press" : "release", e.kind, e.type));
    if (e.key != key_of(kv)) bad("key-translation", fmt("keysym %x became %d instead of %d", kv, e.key, key_of(kv)));
    ++counter(down ? "key_presses" : "key_releases"); ev(mix64(kv * 2 + down) ^ mix64(g_tick));
}
static void close_native(Native* n, bool through_object) {
    W* owner = n->owner; bool realized = gtk_widget_get_realized(n->w), allow = owner->allow; int id = n->id; size_t before = g_ev.size(); W* o = owner;
    if (through_object) owner->close(); else gtk_window_close(GTK_WINDOW(n->w));
    size_t closes = 0; for (size_t i = before; i < g_ev.size(); ++i) if (g_ev[i].kind == 'c' && g_ev[i].self == o && g_ev[i].depth == g_depth) ++closes;
    Native* m = g_nat[(size_t)id].get();
    if (g_depth == 0) { // nested closes are judged by the ownership checks
        if (realized) {
            if (closes != 1) bad("close-count", fmt("%zu close events", closes));
            if (m->destroyed != allow) bad(allow ? "close-refused" : "close-forced", fmt("should_close %d, destroyed %d", allow, m->destroyed));
            ++counter(allow ? "closes_allowed" : "closes_vetoed");
        } else if (closes && m->destroyed != allow) bad("close-unrealized", "");
    }
    ev(mix64(g_tick * 4 + allow * 2 + through_object));
}
static bool sizing(Native* n) { if (n) for (Native* a : g_sizing) if (a == n) return true; return false; }
static bool closing(W* w) { for (W* a : g_closing) if (a == w) return true; return false; }
static bool active(W* w) { for (W* a : g_active) if (a == w) return true; return false; }
static size_t g_most = 6; // windows at once, in this history
static void random_op() {
    Rng& r = *R; ++g_tick; g_open_from = now(); ++counter("operations");
    int op = (int)r.below(14); W* w = pick_window(r);
    if (!w || (g_win.size() < g_most / 2 && r.chance(1, 3))) op = 0;
    Native* n = w ? of(w) : nullptr;
    switch (op) {
        case 0: { if (g_win.size() >= g_most) break; logop("new"); int a = 50 + (int)r.below(r.chance(1, 12) ? 3000 : r.chance(1, 8) ? 500 : 200), b = 50 + (int)r.below(r.chance(1, 12) ? 2000 : r.chance(1, 8) ? 400 : 100); auto t = title(r); auto m = r.chance(2, 3) ? cmp::window_mode::standard : (cmp::window_mode)r.below(3); auto x = std::make_unique<W>(a, b, t, m); opened(x.get(), "constructor", a, b, t, m); Native* xn = of(x.get());
            if (xn && r.chance(3, 4)) { xn->shown = true; x->show(); look(xn, "show"); } x->allow = r.chance(3, 4); x->act = r.chance(1, 4); g_win.push_back(std::move(x)); ++counter("windows_opened"); break; }
        case 1: if (n && !sizing(n)) { logop(fmt("show%d", w->id)); n->shown = true; w->show(); look(n, "show"); } break;
        case 2: if (n && !sizing(n)) { logop(fmt("hide%d", w->id)); n->shown = false; w->hide(); look(n, "hide"); ++counter("hides"); } break;
        case 3: if (n) { auto t = title(r); logop(fmt("title%d", w->id)); n->title = t; w->set_title(t); look(n, "set_title"); ++counter("titles"); } break;
        case 4: case 5: if (n) { guint kv; switch (r.below(7)) { case 0: kv = 0xffbe + (guint)r.below(26); break; case 1: kv = 0xffae + (guint)r.below(14); break; case 2: kv = (guint)r.below(0x80); break; case 3: kv = 'a' + (guint)r.below(26); break; case 4: kv = 'A' + (guint)r.below(26); break; case 5: kv = 0xff00 + (guint)r.below(256); break; default: kv = 1 + (guint)r.below(0x1000000); } logop(fmt("key%d:%x", w->id, kv)); send_key(n, kv, r.chance(1, 2)); } break;
        case 6: if (n && !active(w) && !sizing(n)) { size_t b = g_ev.size(); logop(fmt("resize%d", w->id)); g_object_notify(G_OBJECT(n->w), r.chance(1, 2) ? "default-width" : "default-height"); size_t k = 0; for (size_t i = b; i < g_ev.size(); ++i) k += g_ev[i].depth == g_depth; if (k != 1 || g_ev[b].kind != 'r' || g_ev[b].self != w) bad("resize-delivery", fmt("%zu events", k)); ++counter("resizes"); ev(mix64(g_tick) + 3); } break;
        case 7: if (n && !closing(w) && !sizing(n)) { if (active(w)) ++counter("closes_of_the_active_window"); logop(fmt("close%d%s", w->id, w->allow ? "" : "!")); close_native(n, true); } break;
        case 8: if (n && !closing(w) && !sizing(n)) { logop(fmt("nclose%d%s", w->id, w->allow ? "" : "!")); close_native(n, false); } break;
        case 9: { // move construction; the new object takes the native window over
            logop(fmt("move%d", w->id)); auto x = std::make_unique<W>(std::move(*w)); if (n) n->owner = x.get(); ++counter(n ? "moves_of_open_windows" : "moves_of_closed_windows"); if (active(w)) ++counter("moves_of_the_active_window"); g_win.push_back(std::move(x)); break; }
        case 10: { W* d = pick_window(r, w); if (!d || active(d) || active(w) || sizing(of(d)) || sizing(n)) break; logop(fmt("assign%d<-%d", d->id, w->id)); Native* dn = of(d); d->act = false; int did = dn ? dn->id : -1; *d = std::move(*w); if (did >= 0 && !g_nat[(size_t)did]->destroyed) bad("assigned-over-window-stays", fmt("object %d", d->id)); if (n) n->owner = d; ++counter("move_assignments"); if (r.chance(1, 10)) { W& alias = *d; *d = std::move(alias); } break; }
        case 11: if (!active(w) && !(n && sizing(n))) { if (g_running && g_win.size() < 2) break; logop(fmt("delete%d", w->id)); int id = n ? n->id : -1; for (size_t i = 0; i < g_win.size(); ++i) if (g_win[i].get() == w) { auto dead = std::move(g_win[i]); g_win.erase(g_win.begin() + (long)i); dead.reset(); break; } if (id >= 0 && !g_nat[(size_t)id]->destroyed) bad("deleted-window-stays", ""); ++counter("window_objects_destroyed"); } break;
        case 12: { bool was = n; logop(fmt("open%d", w->id)); int a = 50 + (int)r.below(r.chance(1, 12) ? 3000 : r.chance(1, 8) ? 500 : 200), b = 50 + (int)r.below(r.chance(1, 12) ? 2000 : r.chance(1, 8) ? 400 : 100); auto t = title(r); auto m = (cmp::window_mode)r.below(3); bool ok = w->open(a, b, t, m); if (ok == was) bad("open-result", fmt("open returned %d on a window that was %s", ok, was ? "open" : "closed")); if (ok && !was) { opened(w, "open", a, b, t, m); ++counter("reopened"); Native* k = of(w); if (k && r.chance(2, 3)) { k->shown = true; w->show(); look(k, "show"); } } else if (n) { look(n, "open while open"); ++counter("opens_of_open_windows"); } break; }
        default: if (w) { w->allow = r.chance(3, 4); w->act = r.chance(1, 4); }
    }
    if (g_depth == 0) check_ownership();
}
static void on_update(W* self, double d, double t) {
    ++g_updates; Native* n = of(self); if (!n) return;
    struct Seen { int id; ~Seen() { if ((size_t)id < g_nat.size()) g_nat[(size_t)id]->last_seen = now(); } } seen{n->id};
    if (R->chance(1, 150)) usleep(15000);
    if (!g_running) bad("update-outside-run", "");
    if (!(d >= 0) || !(t >= 0) || t + 1e-9 < n->last_total) bad("update-times", fmt("delta %g total %g after total %g", d, t, n->last_total));
    n->sum += d; n->last_total = t; if (std::fabs(n->sum - t) > 1e-4 + t * 1e-6) bad("update-delta", fmt("the deltas sum up to %.9f but the total is %.9f", n->sum, t)), n->sum = t;
    { // against a clock of our own: never more than the time since the opening call, never less than at this window's previous update
        double up = now() - n->open_from + 0.005, low = n->last_seen ? n->last_seen - n->open_to - 0.005 : 0;
        if (t > up || t < low) bad("update-total", fmt("total %.6f, but %.6f to %.6f s have passed since the window was opened", t, low, up));
        if (low > 0.02) ++counter("totals_bounded_below");
    }
    ++n->updates; ++counter("updates");
    // nobody is left out: every window open all along keeps pace
    for (auto& o : g_nat) if (o.get() != n && !o->destroyed && o->owner) { /* compared below through their counts */
        auto& s = g_pace[{n->id, o->id}];
        if (s.first && n->updates - s.first >= 5) { if (o->updates == s.second) bad("window-not-updated", fmt("window %d got no update while window %d got 5", o->id, n->id)); s = {n->updates, o->updates}; ++counter("pace_checks"); }
        else if (!s.first) s = {n->updates, o->updates};
    }
    if (!g_shutdown) { ++g_depth; burst(4); if (R->chance(1, 2)) { logop("[u]"); g_active.push_back(self); random_op(); g_active.pop_back(); ++counter("operations_in_updates"); } --g_depth; check_ownership(); if (--g_budget <= 0) { g_shutdown = true; g_after = 0; logop("shutdown"); } return; }
    if (++g_after > 200000) { bad("run-does-not-end", "windows keep being updated although all of them were closed"); finish_now(true); }
    self->allow = true; self->act = false;
    if (Native* k = of(self)) { if (gtk_widget_get_realized(k->w)) { int id = k->id; self->close(); if (!g_nat[(size_t)id]->destroyed) bad("close-refused", "at shutdown"); } else { k->shown = true; self->show(); } }
}
static void history(Rng& r) {
    g_hist.clear(); size_t n = 3 + r.below(50); g_most = 6; if (r.chance(1, 12)) { g_most = 40; n += 60; ++counter("histories_with_many_windows"); }
    for (size_t i = 0; i < n; ++i) { random_op(); if (r.chance(1, 10)) { for (int k = 0; k < 20 && g_main_context_iteration(nullptr, FALSE); ++k); check_ownership(); } if (S().total_violations) return; }
    if (r.chance(1, 2)) {
        for (size_t i = 0; i < g_win.size(); ++i) if (W* w = g_win[i].get()) if (Native* n = of(w)) if (r.chance(1, 2)) { n->shown = true; w->show(); } // handlers may open and destroy other windows
        logop("run"); size_t open = 0; for (auto& w : g_win) open += of(w.get()) != nullptr; g_running = true; g_shutdown = false; g_budget = 5 + (long)r.below(60); uint64_t u0 = g_updates;
        int rc = cmp::app()->run(); g_running = false;
        if (rc != 0) bad("run-result", fmt("%d", rc)); size_t left = 0; for (auto& x : g_nat) left += !x->destroyed; if (left) bad("run-ended-early", fmt("%zu windows left", left)); if (open && g_updates == u0) bad("no-updates", fmt("%zu open windows", open)); ++counter(open ? "runs_with_windows" : "runs_without_windows"); check_ownership(); ev(mix64(g_tick) + 9);
    }
    if (r.chance(1, 2)) std::reverse(g_win.begin(), g_win.end());
    while (!g_win.empty()) { size_t i = r.below(g_win.size()); auto dead = std::move(g_win[i]); g_win.erase(g_win.begin() + (long)i); dead.reset(); }
    for (auto& x : g_nat) if (!x->destroyed) { bad("native-window-leaked", ""); break; }
    if (g_list_model_get_n_items(gtk_window_get_toplevels())) bad("toplevels-left", fmt("%u", g_list_model_get_n_items(gtk_window_get_toplevels())));
    for (int k = 0; k < 50 && g_main_context_iteration(nullptr, FALSE); ++k);
    g_nat.clear(); g_ev.clear(); g_pace.clear(); ++counter("histories"); if (counter("histories") <= 2) sample(g_hist.substr(0, 300));
}
int main(int argc, char** argv) {
    init(argc, argv); g_log_set_writer_func(writer, nullptr, nullptr); Rng r(shard_seed(24)); R = &r;
    // key names
    { const char* fixed[] = {"Space Bar", "Unknown"}; for (int k = 0; k <= (int)cmp::key::unknown; ++k) { std::string want = k < 24 ? fmt("F%d", k + 1) : k < 34 ? fmt("%d", k - 24) : k < 44 ? fmt("Numpad %d", k - 34) : k < 70 ? std::string(1, (char)('A' + k - 44)) : fixed[k - 70]; auto g = cmp::to_u8string((cmp::key)k); if (std::string(g.begin(), g.end()) != want) bad("key-name", fmt("key %d is %s instead of %s", k, std::string(g.begin(), g.end()).c_str(), want.c_str())); ++counter("key_names"); } }
    int apps = 4, per = S().thorough ? 200 : 120;
    for (int a = 0; a < apps && !S().total_violations; ++a) {
        char* av[] = {argv[0], nullptr}; cmp::desktop_gui_application app{1, av}; g_burst_kind = (int)((S().shard * 4 + (unsigned)a) % 5); g_bursts = 0;
        if (cmp::app() != &app || cmp::dgui_app() != &app) bad("app-instance", ""); ++counter("applications");
        // every keysym of interest once
        if (a == 0) { g_open_from = now(); g_win.push_back(std::make_unique<W>(100, 100, u8"k", cmp::window_mode::standard)); adopt(g_win[0].get(), "constructor"); for (guint kv = 0; kv < 0x180; ++kv) { send_key(g_nat[0].get(), kv, kv & 1); send_key(g_nat[0].get(), kv, !(kv & 1)); } for (guint kv = 0xff00; kv < 0x10000; ++kv) { send_key(g_nat[0].get(), kv, true); send_key(g_nat[0].get(), kv, false); } g_win.clear(); g_nat.clear(); g_ev.clear(); counter("keysyms_enumerated") += 0x280; }
        for (int i = 0; i < per && !S().total_violations; ++i) history(r);
    }
    return done();
}
