/* C23: plugin manager against a model of what is installed and loaded. */
#include "pbt.h"
#include "plugins/plugins.h"
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <dirent.h>

char const *const PROPERTY = "C23";
char const *const RULE = "Histories of up to 50 calls on 1..3 plugins backed by real shared libraries in a scratch directory, which between the calls are replaced by other versions, touched, damaged or deleted; load and unload events, looked-up functions, changes and errors are compared with a model, the loader is asked whether closed libraries are really gone, and the allocation of the path fails at times; "
	"and generated directory trees (nested, links, dangling links, other extensions) that are searched for plugins. Non-trivial: a reload, a failed load or at least one reported plugin.";
unsigned const QUICK_CASES = 90000, THOROUGH_CASES = 1500000;
struct Known const KNOWN[] = { {0} };

enum { N = 3, BAD = -1, GONE = 0 };
static char *lib[5]; static size_t libn[5];
static void libraries(void) { if( lib[1] ) return; for( int v=1; v <= 4; v++ ) { char p[500]; snprintf(p, sizeof p, "%s/plugin%d.so", getenv("VF_BUILD"), v); FILE *f = fopen(p, "rb"); if( !f ) abort(); fseek(f, 0, SEEK_END); libn[v] = (size_t)ftell(f); lib[v] = mmap(NULL, libn[v], PROT_READ, MAP_PRIVATE, fileno(f), 0); if( lib[v]==MAP_FAILED ) abort(); fclose(f); } }
typedef struct { struct HarbolPlugin pl; char path[300]; int disk, loaded, count, err; bool has_path; time_t mtime, seen; int loads, unloads, want_loads, want_unloads; bool re; } Slot;
static Slot S[N]; static Slot *cur; static int datum;
static void mtime(Slot *s, time_t t) { struct timespec ts[2] = { { t, 0 }, { t, (long)g_u(2) * 500000000 } }; CHECK(!utimensat(AT_FDCWD, s->path, ts, 0), "no time was set"); s->mtime = t; }
static void install(Slot *s, int v) {
	char tmp[320]; snprintf(tmp, sizeof tmp, "%s.new", s->path); FILE *f = fopen(tmp, "wb"); CHECK(f, "no scratch file"); if( v==BAD ) fputs(g_p(1,2) ? "no library" : "\x7f""ELF\2\1\1", f); else fwrite(lib[v], 1, libn[v], f); fclose(f);
	CHECK(!rename(tmp, s->path), "no rename"); s->disk = v; mtime(s, (g_p(1,6) ? 0 : 1000) + (time_t)g_u(5));
}
static int call(Slot *s, char const *fn) { int (*f)(void) = (int (*)(void))(uintptr_t)harbol_plugin_get_obj(&s->pl, fn); CHECK(f, "%s was not found", fn); return f(); }
static void loaded_as(Slot *s, int v) { CHECK(s->pl.dll, "no library is loaded"); CHECK(s->pl.path && !strcmp(s->pl.path, s->path), "the path is %s", s->pl.path ? s->pl.path : "missing"); int got = call(s, "version"); CHECK(got==v, "version %d is loaded, expected %d", got, v); }
static void on_load(struct HarbolPlugin *pl, void *u, bool re) { CHECK(u==&datum && pl==&cur->pl, "the load event got other data"); CHECK(re==cur->re, "the load event says reloading: %d", re); CHECK(pl->err==HarbolPluginErrNone, "a successful load keeps error %d", pl->err); cur->loads++; loaded_as(cur, cur->disk); int c = call(cur, "count"); CHECK(c==1, "the library was not loaded afresh: counted %d", c); cur->count = 1; }
static void on_unload(struct HarbolPlugin *pl, void *u, bool re) { CHECK(u==&datum && pl==&cur->pl, "the unload event got other data"); CHECK(re==cur->re, "the unload event says reloading: %d", re); cur->unloads++; if( cur->loaded > 0 ) loaded_as(cur, cur->loaded); }
static bool still_open(Slot *s) { void *h = dlopen(s->path, RTLD_LAZY | RTLD_NOLOAD); if( h ) dlclose(h); return h != NULL; }

static void histories(void) {
	libraries(); memset(S, 0, sizeof S); int n = 1 + (int)g_u(N);
	for( int i=0; i < n; i++ ) { snprintf(S[i].path, sizeof S[i].path, "%s/p%d.%s", g_scratch(), i, g_p(1,2) ? "so" : "plugin"); remove(S[i].path); if( g_p(7,8) ) install(&S[i], 1 + (int)g_u(4)); }
	for( int step=0; step < 50 && g_more(14); step++ ) {
		Slot *s = cur = &S[g_u((unsigned)n)]; int w = (int)(s - S); bool with = g_p(3,4), ok; int l0 = s->loads, u0 = s->unloads;
		switch( g_u(10) ) {
			case 0: { int v = g_p(1,6) ? BAD : 1 + (int)g_u(4); LOG("install %d: version %d\n", w, v); install(s, v); break; }
			case 1: if( s->disk ) { if( g_p(1,3) ) { LOG("delete %d\n", w); remove(s->path); s->disk = GONE; } else { time_t t = (g_p(1,6) ? 0 : 1000) + (time_t)g_u(5); mtime(s, t); LOG("touch %d: %ld\n", w, (long)t); } } break;
			case 2: case 3: case 4: if( !s->loaded && !s->has_path ) { /* load */
				bool fail = g_p(1,10); s->re = false; LOG("load %d%s\n", w, fail ? " without memory" : ""); if( fail ) vf_fail_after(0); char *path = g_cstr(s->path, strlen(s->path));
				ok = harbol_plugin_load(&s->pl, path, with && !fail ? on_load : NULL, &datum); bool hit = vf_fail_hit(); vf_fail_off(); bool want = s->disk > 0 && !(fail && hit);
				CHECK(ok==want, "loading gives %d, expected %d", ok, want);
				if( ok ) { s->loaded = s->disk; s->has_path = true; s->seen = s->mtime; s->err = HarbolPluginErrNone; if( with && !fail ) CHECK(s->loads==l0 + 1, "%d load events", s->loads - l0); else s->count = 0; memset(path, 'x', strlen(path)); }
				else { g_nontrivial(); s->err = s->disk > 0 ? HarbolPluginErrBadPath : HarbolPluginErrLibLoadFail; CHECK(s->loads==l0, "a load event for a failed load"); CHECK(!s->pl.dll && !s->pl.path, "a failed load left something"); CHECK(!still_open(s), "a failed load left its library open"); CLASSIFY("failed load"); }
				break; }
			/* fallthrough */
			case 5: { bool want = s->has_path && s->disk && s->mtime != s->seen; LOG("changed %d\n", w); ok = harbol_plugin_changed(&s->pl); CHECK(ok==want, "changed gives %d, expected %d", ok, want); if( want ) { s->seen = s->mtime; CLASSIFY("change noticed"); } if( !s->has_path ) s->err = HarbolPluginErrNoPath; break; }
			case 6: case 7: { /* reload */
				bool with2 = g_p(3,4), was = s->loaded > 0; s->re = true; LOG("reload %d\n", w); if( s->has_path ) g_nontrivial(); ok = harbol_plugin_reload(&s->pl, with ? on_load : NULL, with2 ? on_unload : NULL, &datum); bool want = s->has_path && s->disk > 0;
				CHECK(ok==want, "reloading gives %d, expected %d", ok, want);
				if( !s->has_path ) { s->err = HarbolPluginErrNoPath; CHECK(s->loads==l0 && s->unloads==u0, "events for a plugin without a path"); break; }
				CHECK(s->unloads==u0 + (was && with2), "%d unload events", s->unloads - u0); CHECK(s->loads==l0 + (ok && with), "%d load events", s->loads - l0); CLASS_IF(!was, "reload of a plugin that was not loaded");
				if( ok ) { s->loaded = s->disk; s->err = HarbolPluginErrNone; if( !with ) s->count = 0; CLASSIFY("reload"); } else { s->loaded = 0; s->err = HarbolPluginErrCantReload; CHECK(!s->pl.dll, "a failed reload keeps a handle"); CHECK(!still_open(s), "a failed reload left the library open"); CLASSIFY("failed reload"); }
				break; }
			case 8: { /* look up */
				LOG("look up %d\n", w); void *f = harbol_plugin_get_obj(&s->pl, "odd_only"), *g = harbol_plugin_get_obj(&s->pl, "no such thing"); CHECK(!g, "a missing object was found");
				if( !s->loaded ) { CHECK(!f, "an object of no library was found"); s->err = HarbolPluginErrNoLibLoaded; } else { s->err = HarbolPluginErrNone; CHECK((f != NULL)==(s->loaded % 2), "looking up an object that version %d has or has not", s->loaded); int c = call(s, "count"); CHECK(c==++s->count, "the library counted %d, expected %d", c, s->count); }
				break; }
			default: if( g_p(1,2) ) { /* clear */
				s->re = false; LOG("clear %d\n", w); bool was = s->loaded > 0; harbol_plugin_clear(&s->pl, with ? on_unload : NULL, &datum); if( was ) CHECK(s->unloads==u0 + with, "%d unload events", s->unloads - u0); CHECK(s->loads==l0, "a load event");
				s->loaded = 0; s->has_path = false; s->err = HarbolPluginErrNone; CHECK(!s->pl.dll && !s->pl.path, "a cleared plugin has a library or path"); CHECK(!still_open(s), "clearing left the library open"); CLASSIFY("clear"); }
		}
		CHECK(s->pl.err==s->err, "the error is %s (%d), expected %d", harbol_plugin_get_err(&s->pl), s->pl.err, s->err);
		if( s->loaded ) loaded_as(s, s->loaded), s->err = HarbolPluginErrNone; else CHECK(!s->pl.dll, "a library is loaded");
		CHECK(s->pl.err==s->err, "the error is %s (%d), expected %d", harbol_plugin_get_err(&s->pl), s->pl.err, s->err);
		for( int i=0; i < n; i++ ) if( &S[i] != s && S[i].loaded ) { cur = &S[i]; loaded_as(&S[i], S[i].loaded); S[i].err = HarbolPluginErrNone; }
		char const *msg = harbol_plugin_get_err(&s->pl); CHECK(msg && *msg, "no message for error %d", s->err); for( int e=0; e <= HarbolPluginErrCantReload + 1; e++ ) { struct HarbolPlugin o = { .err = e }; CHECK((e==s->err)==!strcmp(msg, harbol_plugin_get_err(&o)), "the messages of errors %d and %d", e, s->err); }
	}
	if( g_p(1,20) ) { /* a library that the loader finds but the path doesn't lead to */
		struct HarbolPlugin q = {0}; CHECK(!harbol_plugin_load(&q, "libm.so.6", NULL, NULL) && q.err==HarbolPluginErrBadPath && !q.dll && !q.path, "a library that is at no path was loaded or left something: error %d", q.err); CLASSIFY("library at no path"); }
	for( int i=0; i < n; i++ ) { cur = &S[i]; cur->re = false; harbol_plugin_clear(&S[i].pl, NULL, NULL); CHECK(!still_open(&S[i]), "clearing left the library open"); remove(S[i].path); }
}

/* ---- directories */
static Str found[400]; static size_t nf, wantn; static struct { char path[800]; bool seen; } want[400]; static char base[400]; static char const *wext; static char made[600][800]; static size_t nm; static bool mdir[600];
static char *spare(char const *p, bool dir) { CHECK(nm < 600, "too many files"); snprintf(made[nm], 800, "%s", p); mdir[nm] = dir; return made[nm++]; }
static int deepest; /* directories below this depth can not be opened */
static void tree(char const *dir, int depth) {
	bool visible = depth < deepest;
	char p[800]; static char const *EXT[] = { "so", "so", "so", "plugin", "txt", "soo", "s", "", "SO", "Plugin" }, *const DIRS[] = { "", "", "", ".so", "~", " x", ".d.so", "-" };
	for( int i=0; i < 8 && g_more(3) && nm < 300; i++ ) {
		char const *e = EXT[g_u(10)]; unsigned kind = (unsigned)g_u(9);
		if( kind==8 ) { /* hidden, and empty: what lies in hidden directories is left open */
			if( g_p(1,2) ) { snprintf(p, sizeof p, "%s/.h%d%s", dir, i, g_p(1,4) ? ".so" : ""); CHECK(!mkdir(p, 0700), "no scratch directory"); spare(p, true); CLASSIFY("hidden directory"); continue; }
			snprintf(p, sizeof p, "%s/.f%d%s%s", dir, i, *e ? "." : "", e); FILE *f = fopen(p, "wb"); CHECK(f, "no scratch file %s", p); fclose(f); spare(p, false); CLASSIFY("hidden file"); }
		else if( kind < 4 && g_p(1,40) ) { char nm[256]; memset(nm, 'a' + i, 255); nm[255] = 0; if( *e ) { size_t el = strlen(e); memcpy(nm + 255 - el, e, el); nm[254 - el] = '.'; } snprintf(p, sizeof p, "%s/%s", dir, nm); FILE *f = fopen(p, "wb"); CHECK(f, "no scratch file %s", p); fclose(f); spare(p, false); CLASSIFY("longest possible name"); }
		else if( kind < 4 ) { snprintf(p, sizeof p, "%s/f%d%s%s%s", dir, i, g_p(1,6) ? ".so.x" : g_p(1,12) ? " y~" : "", *e || g_p(1,4) ? "." : "", e); FILE *f = fopen(p, "wb"); CHECK(f, "no scratch file %s", p); fclose(f); spare(p, false); }
		else if( kind < 6 && depth < 4 ) { snprintf(p, sizeof p, "%s/d%d%s", dir, i, DIRS[g_u(8)]); CHECK(!mkdir(p, 0700), "no scratch directory"); spare(p, true); tree(p, depth + 1); continue; }
		else if( kind==6 ) { snprintf(p, sizeof p, "%s/dangling%d.so", dir, i); CHECK(!symlink("nothing/here", p), "no link"); spare(p, false); CLASSIFY("dangling link"); continue; }
		else { char t[800]; snprintf(t, sizeof t, "%s/target", base); snprintf(p, sizeof p, "%s/link%d.%s", dir, i, e); CHECK(!symlink(t, p), "no link"); spare(p, false); CLASSIFY("link to a file"); }
		char const *name = strrchr(p, '/') + 1, *ext = strrchr(name, '.'); ext = ext ? ext + 1 : ""; if( visible && !strcmp(ext, wext) && wantn < 400 ) { strcpy(want[wantn].path, p); want[wantn++].seen = false; }
	}
}
static void on_file(char const path[], char const name[], void *u) {
	CHECK(u==&datum, "the event got other data"); char const *s = strrchr(path, '/'); CHECK(s && !strcmp(s + 1, name), "%s is not the name of %s", name, path); struct stat a, b; CHECK(!lstat(path, &a), "%s was reported, but is not there", path);
	for( size_t i=0; i < wantn; i++ ) { size_t rel = strlen(base), l = strlen(want[i].path) - rel, k = strlen(path); if( k >= l && !strcmp(path + k - l, want[i].path + rel) && !lstat(want[i].path, &b) && a.st_ino==b.st_ino ) { CHECK(!want[i].seen, "%s was reported twice", path); want[i].seen = true; return; } }
	FAIL("%s was reported", path);
}
static void drop(char const *p) { DIR *d = opendir(p); struct stat s; if( d ) { for( struct dirent *e; (e = readdir(d)); ) if( strcmp(e->d_name, ".") && strcmp(e->d_name, "..") ) { char q[900]; snprintf(q, sizeof q, "%s/%s", p, e->d_name); if( !lstat(q, &s) && S_ISDIR(s.st_mode) ) drop(q); else unlink(q); } closedir(d); } rmdir(p); }
static int free_fd(void) { int fd = open("/dev/null", O_RDONLY); close(fd); return fd; }
static void directories(void) {
	nm = wantn = 0; wext = g_p(1,2) ? "so" : g_p(1,2) ? "plugin" : g_p(5,6) ? "txt" : ""; snprintf(base, sizeof base, "%s/tree", g_scratch()); if( !access(base, F_OK) ) drop(base); /* left by a case that failed */ CHECK(!mkdir(base, 0700), "no scratch directory"); spare(base, true);
	char p[800]; snprintf(p, sizeof p, "%s/target", base); FILE *f = fopen(p, "wb"); CHECK(f, "no scratch file"); fclose(f); spare(p, false); if( !*wext ) { strcpy(want[wantn].path, p); want[wantn++].seen = false; CLASSIFY("files without an extension"); }
	deepest = g_p(1,4) ? 1 + (int)g_u(3) : 99; tree(base, 0); if( wantn ) g_nontrivial();
	/* the directory is named relative to the current one */
	Str d = {0}; for( int i=0; i < 12; i++ ) s_puts(&d, "../"); s_puts(&d, base + 1); if( g_p(1,4) ) s_addc(&d, '/'); LOG("%zu plugins (.%s) among %zu files\n", wantn, wext, nm);
	int fd = free_fd(); struct rlimit old, few; CHECK(!getrlimit(RLIMIT_NOFILE, &old), "no limits"); few = old; if( deepest < 99 ) { few.rlim_cur = (rlim_t)(fd + deepest); CLASSIFY("directories that can not be opened"); LOG("directories open at a time: %d\n", deepest); } CHECK(!setrlimit(RLIMIT_NOFILE, &few), "no limit");
	bool ok = harbol_plugin_dir_open(s_exact(&d), on_file, &datum, !strcmp(wext, "so") && g_p(1,2) ? NULL : g_cstr(wext, strlen(wext))); setrlimit(RLIMIT_NOFILE, &old);
	for( size_t i = nm; i-- > 0; ) if( mdir[i] ) rmdir(made[i]); else unlink(made[i]);
	CHECK(ok, "the directory was not opened"); CHECK(free_fd()==fd, "a directory was left open"); for( size_t i=0; i < wantn; i++ ) CHECK(want[i].seen, "%s was not reported", want[i].path);
	if( g_p(1,4) ) { wantn = 0; CHECK(!harbol_plugin_dir_open(s_exact(&d), on_file, &datum, "so"), "a missing directory was opened"); CLASSIFY("missing directory"); }
}
struct Target const TARGETS[] = { { "histories", histories, 3 }, { "directories", directories, 1 }, {0} };
