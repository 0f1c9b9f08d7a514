// Database files of the SQLite checks: scratch directories, contents, and calls in a process of their own.
#pragma once
#include "sql.hpp"
#include <dirent.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace std;
static int fired;
#include "sqlvfs.hpp"
static void wipe_dir(const Str &p) { if (DIR *d = opendir(p.c_str())) { while (dirent *e = readdir(d)) { Str n = e->d_name; if (n != "." && n != "..") { Str f = p + "/" + n; struct stat s; if (!lstat(f.c_str(), &s) && S_ISDIR(s.st_mode)) wipe_dir(f); else remove(f.c_str()); } } closedir(d); rmdir(p.c_str()); } }
static Str fresh() { static Str old; static int nth; if (!old.empty()) wipe_dir(old); old = mc::fmt("setup-%07d-%07d", (int)getpid(), nth++); wipe_dir(old); mkdir(old.c_str(), 0755); return old; }
static int fds() { int n = 0; if (DIR *d = opendir("/proc/self/fd")) { while (readdir(d)) n++; closedir(d); } return n; }
static Str slurp(const Str &p) { Str r; if (FILE *f = fopen(p.c_str(), "rb")) { char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) r.append(b, n); fclose(f); } return r; }
static Str content(sqlite3 *d) { Str o; for (auto &r : dump(d, "select type,name,sql from sqlite_master where name not like 'sqlite_%' order by name")) { o += showrow(r); if (r[0] == T("table")) o += showtab(dump(d, ("select * from " + r[1].substr(2) + " order by 1").c_str())); o += "; "; } return o; }
static Str content_of(const Str &path) { sqlite3 *d = nullptr; Str r; if (sqlite3_open_v2(path.c_str(), &d, SQLITE_OPEN_READWRITE, "unix") != SQLITE_OK) { sqlite3_close(d); return ""; } r = content(d); sqlite3_close(d); return r; }
static void make(const Str &path, const char *sql) { sqlite3 *d; MC_CHECK(sqlite3_open_v2(path.c_str(), &d, SQLITE_OPEN_READWRITE | SQLITE_OPEN_CREATE, "unix") == SQLITE_OK && sqlite3_exec(d, "pragma synchronous=off", 0, 0, 0) == SQLITE_OK && sqlite3_exec(d, sql, 0, 0, 0) == SQLITE_OK && sqlite3_close(d) == SQLITE_OK, "harness: %s", sql); }
enum End { RETURNED = 0, NOHANDLE = 3, CRASHED = 42, STOPPED = 1000 };
// in a process of its own: a failing setup stops the process
static int in_child(const std::function<int()> &f) { fflush(nullptr); pid_t p = fork(); if (p == 0) { for (int s : {SIGSEGV, SIGABRT, SIGILL}) signal(s, SIG_DFL); int fd = open("/dev/null", O_WRONLY); dup2(fd, 2); _exit(f()); } int st; MC_CHECK(p > 0 && waitpid(p, &st, 0) == p, "harness: fork"); if (WIFSIGNALED(st)) { MC_CHECK(WTERMSIG(st) == SIGSEGV || WTERMSIG(st) == SIGABRT || WTERMSIG(st) == SIGILL, "ended by signal %d", WTERMSIG(st)); return STOPPED; } MC_CHECK(WEXITSTATUS(st) != 99, "a memory error is reported"); return WEXITSTATUS(st); }
static const char *const HOW[] = {"stopped", "returned", "returned no handle", "was killed"};
static const char *how(int r) { return r == STOPPED ? HOW[0] : r == RETURNED ? HOW[1] : r == NOHANDLE ? HOW[2] : HOW[3]; }
static Str abspath(const Str &p) { char b[4096]; return realpath(p.c_str(), b) ? b : p; }
