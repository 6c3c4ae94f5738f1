/* C27: directory listings (tinydir) against the tree of files that was made. */
#include "pbt.h"
#include <sys/types.h>
#include <sys/stat.h>
#include <dirent.h>
#include <fcntl.h>
#include <unistd.h>
#include <errno.h>
#include <limits.h>
/* as in the library's own build (-std=c99): entries are looked at through links */
#undef _DEFAULT_SOURCE
#undef _BSD_SOURCE
#undef _XOPEN_SOURCE
#undef _POSIX_C_SOURCE
#include "plugins/tinydir.h"

char const *const PROPERTY = "C27";
char const *const RULE = "Directories of 0..12 (rarely 300) files, directories, fifos and links (to files, to directories, dangling) with names of 1..255 bytes (several, leading and trailing dots, spaces, bytes above 127), up to two levels, listed one by one and sorted, through relative, absolute, slash-terminated and up to 4096 bytes long paths; "
	"single entries opened by path; missing entries, indices out of range, files in place of directories, refused memory. Non-trivial: the directory has at least three entries.";
unsigned const QUICK_CASES = 60000, THOROUGH_CASES = 1500000;
struct Known const KNOWN[] = { {0} };
enum { FILE_, DIR_, FIFO, LFILE, LDIR, DANGLING };
typedef struct { char name[256]; int kind; bool seen; } Ent;
static Ent E[310]; static size_t ne; static char base[300];
static tinydir_dir D_, *const D = &D_; static tinydir_file F_, *const F = &F_, LAST_, *const last = &LAST_;

static void wipe(char const *p) { DIR *d = opendir(p); struct stat s; if( d ) { for( struct dirent *e; (e = readdir(d)); ) if( strcmp(e->d_name, ".") && strcmp(e->d_name, "..") ) { char q[PATH_MAX]; snprintf(q, sizeof q, "%s/%s", p, e->d_name); if( !lstat(q, &s) && S_ISDIR(s.st_mode) ) wipe(q); else unlink(q); } closedir(d); } rmdir(p); }
static char *at(char const *name) { char *q = g_buf(strlen(base) + strlen(name) + 2); sprintf(q, "%s/%s", base, name); return q; }
static void name_of(char *out) {
	size_t n = g_p(1,12) ? 200 + g_u(56) : 1 + g_u(8); for( size_t i=0; i < n; i++ ) { unsigned k = (unsigned)g_u(14); out[i] = k < 5 ? 'a' + (char)g_u(4) : k < 7 ? 'A' + (char)g_u(3) : k < 10 ? '.' : k==10 ? ' ' : k==11 ? '-' : k==12 ? (char)(128 + g_u(100)) : "0_~\\"[g_u(4)]; } out[n] = 0;
	if( ne && g_p(1,3) ) { /* most of another entry's name */ char const *o = E[g_u(ne)].name; size_t l = strlen(o), keep = g_p(1,2) ? l - g_u(l < 3 ? l : 3) : g_u(l + 1); char add[300]; strcpy(add, out); size_t k = g_p(2,3) ? 1 + g_u(3) : strlen(add); add[k < strlen(add) ? k : strlen(add)] = 0; snprintf(out, 256, "%.*s%s", (int)keep, o, add); n = strlen(out); CLASSIFY("names that begin alike"); }
	if( !strcmp(out, ".") || !strcmp(out, "..") ) strcpy(out, "x."); CLASS_IF(n >= 200, "long name");
}
static Ent *find(char const *n) { for( size_t i=0; i < ne; i++ ) if( !strcmp(E[i].name, n) ) return &E[i]; return NULL; }
static bool model_dir(Ent const *e) { return e->kind==DIR_ || e->kind==LDIR; }
static void make(bool dangling) {
	snprintf(base, sizeof base, "%s/list", g_scratch()); if( !access(base, F_OK) ) wipe(base); CHECK(!mkdir(base, 0700), "no scratch directory"); ne = 0;
	size_t want = g_p(1,60) ? 50 + g_u(250) : g_u(13); LOG("entries:");
	for( size_t k=0; k < want; k++ ) {
		Ent e = {0}; name_of(e.name); if( find(e.name) ) continue; unsigned w = (unsigned)g_u(dangling ? 13 : 12); e.kind = w < 6 ? FILE_ : w < 9 ? DIR_ : w==9 ? FIFO : w==10 ? LFILE : w==11 ? LDIR : DANGLING; char *p = at(e.name); int r = 0;
		switch( e.kind ) { case FILE_: r = open(p, O_CREAT | O_WRONLY, 0600); if( r >= 0 ) { close(r); r = 0; } break; case DIR_: r = mkdir(p, 0700); break; case FIFO: r = mkfifo(p, 0600); break; case LFILE: r = symlink("/dev/null", p); break; case LDIR: r = symlink(".", p); break; default: r = symlink("nowhere/at/all", p); CLASSIFY("dangling link"); }
		CHECK(r==0, "cannot make %s", g_q(e.name, strlen(e.name))); LOG(" %s%s", g_q(e.name, strlen(e.name)), (char const *[]){ "", "/", "|", "@f", "@d", "@?" }[e.kind]); E[ne++] = e;
	}
	LOG("\n"); if( ne >= 3 ) g_nontrivial(); CLASS_IF(ne > 50, "large directory"); CLASS_IF(!ne, "empty directory");
}
/* an existing path of the directory, as long as asked for */
static char *path_to(char const *name, size_t longer) {
	Str t = {0}; bool rel = g_p(1,3); if( rel ) s_puts(&t, "list"); else s_puts(&t, base); while( longer && t.n + strlen(name) + 4 < longer ) s_puts(&t, "/."); if( name[0] ) { s_addc(&t, '/'); s_puts(&t, name); } return s_exact(&t);
}
static void examine(tinydir_file const *f, char const *dir, char const *op) {
	bool self = !strcmp(f->name, ".") || !strcmp(f->name, ".."); Ent *e = self ? NULL : find(f->name); char const *dot = strrchr(f->name, '.'); struct stat a, b;
	CHECK(self || e, "%s gives %s, which is not there", op, g_q(f->name, strlen(f->name))); bool isd = self || model_dir(e), isr = !self && e->kind==FILE_;
	CHECK(!!f->is_dir==isd && !!f->is_reg==isr, "%s: %s is taken for a %s%s", op, f->name, f->is_dir ? "directory" : "", f->is_reg ? "regular file" : "");
	CHECK(f->extension && !strcmp(f->extension, dot ? dot + 1 : "") , "%s: the extension of %s is %s", op, f->name, f->extension); CHECK(f->extension >= f->name && f->extension < f->name + sizeof f->name, "%s: the extension points out of the file", op);
	size_t dl = strlen(dir), nl = strlen(f->name), pl = strlen(f->path); while( dl > 1 && dir[dl-1]=='/' ) dl--;
	CHECK(pl > nl && !strcmp(f->path + pl - nl, f->name) && f->path[pl-nl-1]=='/' && !strncmp(f->path, dir, dl), "%s: the path of %s is %s", op, f->name, f->path);
	if( pl < 3000 && !stat(f->path, &a) && !stat(at(f->name), &b) ) CHECK(a.st_ino==b.st_ino && a.st_dev==b.st_dev, "%s: the path of %s leads elsewhere", op, f->name);
	if( e ) { CHECK(!e->seen, "%s gives %s twice", op, f->name); e->seen = true; }
}
static void complete(char const *op) { for( size_t i=0; i < ne; i++ ) { CHECK(E[i].seen || E[i].kind==DANGLING, "%s does not give %s", op, g_q(E[i].name, strlen(E[i].name))); E[i].seen = false; } }
static int order(tinydir_file const *a, tinydir_file const *b) { if( !!a->is_dir != !!b->is_dir ) return a->is_dir ? -1 : 1; return strcmp(a->name, b->name); }

static void directory(void) {
	CHECK(!chdir(g_scratch()), "no scratch directory");
	make(g_p(1,4)); bool dang = false; for( size_t i=0; i < ne; i++ ) dang |= E[i].kind==DANGLING; int fd0 = dup(0), fd1; close(fd0);
	for( int k=0; k < 12 && (k==0 || g_more(4)); k++ ) {
		size_t longer = g_p(1,8) ? g_u(4200) : 0; char *dir = path_to("", longer); if( g_p(1,5) && strlen(dir) < 4000 ) { Str t = {0}; s_puts(&t, dir); s_addc(&t, '/'); if( g_p(1,4) ) s_addc(&t, '/'); dir = s_exact(&t); CLASSIFY("trailing slash"); } size_t dlen = strlen(dir); CLASS_IF(dlen > 256, "long path");
		memset(D, 0x5A, sizeof *D); memset(F, 0x5A, sizeof *F);
		switch( g_u(6) ) {
			case 0: { LOG("list %s\n", g_q(dir, dlen)); int r = tinydir_open(D, dir); if( dlen >= 4096 ) { CHECK(r==-1, "a path of %zu bytes was opened", dlen); CLASSIFY("path too long"); break; } CHECK(r==0, "open failed: %s", strerror(errno)); bool lost = false; size_t guard = 0;
				while( D->has_next ) { CHECK(guard++ < 1000, "the listing does not end"); if( tinydir_readfile(D, F)==0 ) examine(F, dir, "listing"); else { lost = true; CHECK(dang || dlen + 256 >= 4096, "an entry cannot be read"); } CHECK(tinydir_next(D)==0, "next failed"); }
				CHECK(tinydir_next(D)==-1 && tinydir_readfile(D, F)==-1, "there is something after the end"); if( !lost || dlen + 300 < 4096 ) complete("listing"); else for( size_t i=0; i < ne; i++ ) E[i].seen = false; tinydir_close(D); CHECK(!D->has_next && tinydir_readfile(D, F)==-1, "a closed listing goes on"); if( g_p(1,4) ) tinydir_close(D); break; }
			case 1: case 2: { LOG("sorted %s\n", g_q(dir, dlen)); bool oom = g_p(1,8); if( oom ) vf_fail_after((long)g_u(2)); int r = tinydir_open_sorted(D, dir); bool hit = vf_fail_hit(); vf_fail_off(); if( r==-1 ) { CHECK(hit || dang || dlen + 300 >= 4096, "sorted listing failed: %s", strerror(errno)); CHECK(dlen >= 4096 || D->n_files==0, "a failed listing has entries"); CLASSIFY("sorted listing refused"); break; }
				CHECK(dlen < 4096, "a path of %zu bytes was opened", dlen); CHECK(D->n_files==ne + 2, "%zu entries, expected %zu", D->n_files, ne + 2);
				for( size_t i=0; i < D->n_files; i++ ) { CHECK(tinydir_readfile_n(D, F, i)==0, "entry %zu cannot be read", i); examine(F, dir, "sorted listing"); if( i ) CHECK(order(last, F) < 0, "%s comes before %s", last->name, F->name); memcpy(last, F, sizeof *F); }
				CHECK(tinydir_readfile_n(D, F, D->n_files + g_u(3))==-1, "an entry beyond the last"); complete("sorted listing");
				if( g_p(1,2) && D->n_files ) { size_t i = g_u(D->n_files + 1); bool sub = i < D->n_files && !tinydir_readfile_n(D, F, i) && F->is_dir; Ent *e = sub ? find(F->name) : NULL; LOG("subdirectory %zu\n", i); size_t n0 = D->n_files; int q = tinydir_open_subdir_n(D, i);
					if( !sub ) { CHECK(q==-1 && D->n_files==n0, "entry %zu is no directory but was entered", i); CLASSIFY("no subdirectory"); } else if( e && e->kind==DIR_ && dlen + 300 < 4096 ) { CHECK(q==0 && D->n_files==2, "an empty subdirectory has %zu entries", D->n_files); CHECK(!tinydir_readfile_n(D, F, 0) && !strcmp(F->name, ".") && !tinydir_readfile_n(D, F, 1) && !strcmp(F->name, ".."), "an empty subdirectory has other entries"); CLASSIFY("subdirectory"); } }
				tinydir_close(D); break; }
			case 3: case 4: { char nm[300]; Ent *e = ne && g_p(3,4) ? &E[g_u(ne)] : NULL; if( e ) strcpy(nm, e->name); else if( g_p(1,4) ) strcpy(nm, g_p(1,2) ? "." : ".."); else { name_of(nm); if( find(nm) ) break; } char *p = path_to(nm, longer); size_t pl = strlen(p); LOG("open file %s\n", g_q(p, pl)); bool self = !strcmp(nm, ".") || !strcmp(nm, "..");
				int r = tinydir_file_open(F, p); CLASS_IF(pl > 256, "long path of a file"); if( pl >= 4096 ) { CHECK(r==-1, "a path of %zu bytes was opened", pl); break; }
				if( (!e && !self) || (e && e->kind==DANGLING) ) { CHECK(r==-1, "%s, which is not there, was opened", nm); CLASSIFY("missing file"); break; }
				if( pl + 300 >= 4096 && r==-1 ) break; CHECK(r==0, "%s was not found: %s", g_q(p, pl), strerror(errno)); for( size_t i=0; i < ne; i++ ) E[i].seen = false; CHECK(!strcmp(F->name, nm), "%s was opened instead of %s", F->name, nm); struct stat a, b; CHECK(!stat(F->path, &a) && !stat(p, &b) && a.st_ino==b.st_ino, "another file was opened");
				CHECK(!!F->is_dir==(self || model_dir(e)) && !!F->is_reg==(!self && e->kind==FILE_), "%s is taken for something else", nm); char const *dot = strrchr(nm, '.'); CHECK(!strcmp(F->extension, dot ? dot + 1 : ""), "the extension of %s is %s", nm, F->extension); break; }
			default: { Ent *e = ne ? &E[g_u(ne)] : NULL; LOG("refusals\n"); CHECK(tinydir_open(D, "")==-1 && tinydir_open(NULL, dir)==-1 && tinydir_open(D, NULL)==-1 && tinydir_file_open(F, "")==-1 && tinydir_file_open(NULL, dir)==-1 && tinydir_readfile(NULL, F)==-1 && tinydir_next(NULL)==-1 && tinydir_readfile_n(NULL, F, 0)==-1 && tinydir_open_subdir_n(NULL, 0)==-1, "a call without its arguments succeeded"); tinydir_close(NULL);
				char *p = at("not there"); CHECK(tinydir_open(D, p)==-1 && !D->has_next, "a missing directory was opened"); CHECK(tinydir_open_sorted(D, p)==-1 && D->n_files==0, "a missing directory was opened"); CHECK(tinydir_file_open(F, at("not there/x"))==-1, "a file in a missing directory was opened");
				if( e && !model_dir(e) && e->kind != FIFO ) { CHECK(tinydir_open(D, at(e->name))==-1 && !D->has_next, "a file was opened as a directory"); CLASSIFY("file as a directory"); } }
		}
		fd1 = dup(0); close(fd1); CHECK(fd1==fd0, "a directory was left open");
	}
	wipe(base);
}
struct Target const TARGETS[] = { { "directory", directory, 1 }, {0} };
