/* LD_PRELOAD: the passwd database says that everyone's home is $HOME, so that
 * programs asking it instead of the environment stay inside the sandbox. */
#define _GNU_SOURCE
#include <pwd.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

static struct passwd me(uid_t uid) {
	static char name[] = "someone", pw[] = "x", gecos[] = "", shell[] = "/bin/sh", none[] = "/nonexistent";
	char *h = getenv("HOME");
	struct passwd p = {name, pw, uid, uid, gecos, h && *h ? h : none, shell};
	return p;
}
int getpwuid_r(uid_t uid, struct passwd *p, char *b, size_t n, struct passwd **r) { *p = me(uid); *r = p; return 0; }
int getpwnam_r(const char *s, struct passwd *p, char *b, size_t n, struct passwd **r) { *p = me(getuid()); *r = p; return 0; }
struct passwd *getpwuid(uid_t uid) { static struct passwd p; p = me(uid); return &p; }
