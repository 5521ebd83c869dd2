// P46: Plugins are loaded whole or not at all, and finalized once before they go.
// TECHNIQUE: stateful property-based testing: generated histories of loading and unloading plugin libraries that are missing, malformed or refuse to start, the same one several times and in any order, with logging at generated levels; oracle: model of the loaded plugins, of the calls the libraries saw and of the libraries mapped into the process
// NOTE: The plugin libraries are compiled when the check starts, in a scratch directory.
#include "pbt.hpp"
#include "mcp.hpp"
#include <dlfcn.h>
#include <fcntl.h>
#include <unistd.h>
#include <fstream>
#include <map>
extern "C" {
#include "mcp_plugin.h"
}
using namespace pbt;

struct Ctl { // how a plugin library is to behave; it finds this by the environment
    int no_descriptor, no_name, no_version, no_init, no_final;
    int init_rc, final_rc;
    int inits, finals;
    void* context;
};
static const int kLibs = 3;
static Ctl g_ctl[kLibs];
static std::string g_dir;
static const char* kSource = R"(
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#define mcp_plugin_get_descriptor host_get_descriptor
#include "mcp_plugin.h"
#undef mcp_plugin_get_descriptor
struct ctl { int no_descriptor, no_name, no_version, no_init, no_final; int init_rc, final_rc; int inits, finals; void* context; };
static struct ctl* ctl(void) { char n[20]; sprintf(n, "P46_CTL%d", LIB); return (struct ctl*)strtoull(getenv(n), 0, 16); }
static int up(void* c) { struct ctl* k = ctl(); k->inits++; k->context = c; return k->init_rc; }
static int down(void) { struct ctl* k = ctl(); k->finals++; return k->final_rc; }
static mcp_plugin_descriptor_t d;
#ifdef GOOD
const mcp_plugin_descriptor_t* mcp_plugin_get_descriptor(void)
#else
const mcp_plugin_descriptor_t* some_other_symbol(void)
#endif
{
    struct ctl* k = ctl();
    static char name[20];
    sprintf(name, "plugin %d", LIB);
    memset(&d, 0, sizeof d);
    d.name = k->no_name ? 0 : name;
    d.version = k->no_version ? 0 : "1.2";
    d.author = "a";
    d.initialize = k->no_init ? 0 : up;
    d.finalize = k->no_final ? 0 : down;
    return k->no_descriptor ? 0 : &d;
}
)";
static std::string lib(int i) { return g_dir + fmt("/lib%d.so", i); }
static void compile() {
    g_dir = scratch_dir();
    std::ofstream(g_dir + "/p.c") << kSource;
    std::string inc = getenv("VERIF_REPO") ? getenv("VERIF_REPO") : "/repo";
    for (int i = 0; i <= kLibs; i++) {
        std::string cmd = fmt("clang -shared -fPIC -DLIB=%d %s -I%s/include -o '%s' '%s/p.c'", i, i < kLibs ? "-DGOOD" : "", inc.c_str(), lib(i).c_str(), g_dir.c_str());
        if (system(cmd.c_str()) != 0) { fprintf(stderr, "cannot compile a plugin\n"); _exit(3); }
    }
    std::ofstream(g_dir + "/text.so") << "this is no library\n";
    for (int i = 0; i < kLibs; i++) setenv(fmt("P46_CTL%d", i).c_str(), fmt("%llx", (unsigned long long)(uintptr_t)&g_ctl[i]).c_str(), 1);
    setenv(fmt("P46_CTL%d", kLibs).c_str(), "0", 1);
}
static bool mapped(const std::string& p) {
    void* h = dlopen(p.c_str(), RTLD_NOW | RTLD_NOLOAD);
    if (h) dlclose(h);
    return h != nullptr;
}

static void history(Case& c) {
    struct Open { mcp_plugin_t* p; int lib; };
    std::vector<Open> open;
    memset(g_ctl, 0, sizeof g_ctl);
    int ctxs[3], steps = (int)c.range(2, 16), loads = 0, refused = 0, unloads = 0;
    for (int i = 0; i < steps; i++) {
        bool loud = c.chance(1, 2);
        mcp_log_set_quiet(!loud);
        mcp_log_set_level(loud ? (mcp_log_level_t)c.range(0, 5) : MCP_LOG_LEVEL_FATAL);
        if (c.chance(3, 5)) {
            int which = (int)c.weighted({4, 3, 2, 1, 1, 1});
            void* ctx = c.chance(1, 6) ? nullptr : (void*)&ctxs[c.draw(3)];
            if (which >= kLibs) {
                std::string path = which == kLibs ? lib(kLibs) : which == kLibs + 1 ? g_dir + "/text.so" : g_dir + "/missing.so";
                mcp_plugin_t* p = mcp_plugin_load(path.c_str(), ctx);
                c.note("load %s", which == kLibs ? "a library without descriptor function" : which == kLibs + 1 ? "a text file" : "a missing file");
                PBT_CHECK(p == nullptr, "it was loaded");
                PBT_CHECK(!mapped(path), "the library that was refused is still mapped");
                refused++;
                continue;
            }
            Ctl& k = g_ctl[which];
            int already = 0;
            for (auto& o : open) already += o.lib == which;
            int fault = already ? 0 : (int)c.weighted({6, 1, 1, 1, 1, 1, 2});
            // a second load of a library that is in use may only be refused by its initialize function
            if (already && c.chance(1, 5)) fault = 6;
            k.no_descriptor = fault == 1, k.no_name = fault == 2, k.no_version = fault == 3, k.no_init = fault == 4, k.no_final = fault == 5;
            k.init_rc = fault == 6 ? (c.flip() ? -1 : (int)c.range(1, 5)) : 0;
            int inits = k.inits, finals = k.finals;
            k.context = &k;
            mcp_plugin_t* p = mcp_plugin_load(lib(which).c_str(), ctx);
            static const char* F[] = {"", " without descriptor", " without name", " without version", " without initialize", " without finalize", " that refuses to start"};
            c.note("load plugin %d%s%s", which, F[fault], loud ? ", logging" : "");
            PBT_CHECK(k.finals == finals, "loading finalized the plugin");
            if (fault == 0 || fault == 6) PBT_CHECK(k.inits == inits + 1 && k.context == ctx, "initialize was called %d times%s", k.inits - inits, k.context == ctx ? "" : ", with another context");
            else PBT_CHECK(k.inits == inits, "a plugin%s was initialized", F[fault]);
            if (fault) {
                PBT_CHECK(p == nullptr, "a plugin%s was loaded", F[fault]);
                PBT_CHECK(already || !mapped(lib(which)), "a plugin that was refused is still mapped");
                refused++;
            } else {
                PBT_CHECK(p != nullptr, "a good plugin was not loaded");
                open.push_back({p, which});
                loads++;
            }
        } else if (!open.empty()) {
            size_t at = (size_t)c.draw(open.size());
            Open o = open[at];
            open.erase(open.begin() + (long)at);
            Ctl& k = g_ctl[o.lib];
            k.final_rc = c.chance(1, 4) ? (int)c.range(-3, 3) : 0;
            int inits = k.inits, finals = k.finals, left = 0;
            for (auto& x : open) left += x.lib == o.lib;
            int rc = mcp_plugin_unload(o.p);
            c.note("unload plugin %d (finalize returns %d)%s -> %d", o.lib, k.final_rc, loud ? ", logging" : "", rc);
            PBT_CHECK(k.finals == finals + 1 && k.inits == inits, "finalize was called %d times", k.finals - finals);
            PBT_CHECK(rc == k.final_rc, "unloading returned %d, finalize %d", rc, k.final_rc);
            PBT_CHECK(mapped(lib(o.lib)) == (left > 0), left ? "a library in use was unmapped" : "the library is still mapped");
            unloads++;
        }
        for (auto& o : open) {
            const mcp_plugin_descriptor_t* d = mcp_plugin_get_descriptor(o.p);
            PBT_CHECK(d && d->name && fmt("plugin %d", o.lib) == d->name, "plugin %d has another's descriptor", o.lib);
            PBT_CHECK(mapped(lib(o.lib)), "the library of a loaded plugin is not mapped");
        }
    }
    for (auto& o : open) {
        g_ctl[o.lib].final_rc = 0;
        PBT_CHECK(mcp_plugin_unload(o.p) == 0, "unloading failed");
    }
    quiet_logs();
    PBT_CHECK(mcp_plugin_load(nullptr, nullptr) == nullptr && mcp_plugin_unload(nullptr) != 0 && mcp_plugin_get_descriptor(nullptr) == nullptr, "no plugin at all was accepted");
    for (int i = 0; i < kLibs; i++) PBT_CHECK(!mapped(lib(i)), "plugin %d is still mapped at the end", i);
    c.nontrivial(loads >= 1 && refused + unloads >= 2);
}

int main(int argc, char** argv) {
    Options o;
    o.property = "P46";
    o.rule = "at least one plugin loaded, and two unloaded or refused";
    o.tests = {{"history", history, 8000, 80000, 120, 25}};
    o.assumptions = {"a plugin handle is not used after it was unloaded"};
    o.worker_init = [] { quiet_logs(); compile(); };
    return run(argc, argv, o);
}
