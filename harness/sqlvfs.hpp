// A file layer under the SQLite engine whose nth operation fails, or ends the process.  Uses `fired`.
#pragma once
static long io_left = -1; static bool io_persist; static int io_code; static long io_seen;
static bool io_crash;                                // instead of failing, the process ends there; a write is torn
static bool io() { io_seen++; if (io_left < 0) return false; if (io_left > 0) { io_left--; return false; } fired++; if (io_crash) _exit(42); if (!io_persist) io_left = -1; return true; }
struct F { sqlite3_file base; sqlite3_file *real; }; static sqlite3_vfs *rv; static sqlite3_vfs myvfs; static sqlite3_io_methods iom;
#define R(f) (((F *)(f))->real)
static void io_setup() {
  rv = sqlite3_vfs_find(nullptr); iom.iVersion = 1;
  iom.xClose = [](sqlite3_file *f) -> int { int rc = R(f)->pMethods->xClose(R(f)); return rc; }; iom.xRead = [](sqlite3_file *f, void *p, int n, sqlite3_int64 o) -> int { if (io()) return SQLITE_IOERR_READ; return R(f)->pMethods->xRead(R(f), p, n, o); };
  iom.xWrite = [](sqlite3_file *f, const void *p, int n, sqlite3_int64 o) -> int { if (io_crash && io_left == 0) R(f)->pMethods->xWrite(R(f), p, n / 2, o); if (io()) return io_code; return R(f)->pMethods->xWrite(R(f), p, n, o); }; iom.xTruncate = [](sqlite3_file *f, sqlite3_int64 n) -> int { if (io()) return SQLITE_IOERR_TRUNCATE; return R(f)->pMethods->xTruncate(R(f), n); };
  iom.xSync = [](sqlite3_file *f, int g) -> int { if (io()) return SQLITE_IOERR_FSYNC; return 0; }; iom.xFileSize = [](sqlite3_file *f, sqlite3_int64 *n) -> int { if (io()) return SQLITE_IOERR_FSTAT; return R(f)->pMethods->xFileSize(R(f), n); };
  iom.xLock = [](sqlite3_file *f, int l) -> int { if (io()) return SQLITE_BUSY; return R(f)->pMethods->xLock(R(f), l); }; iom.xUnlock = [](sqlite3_file *f, int l) -> int { return R(f)->pMethods->xUnlock(R(f), l); }; iom.xCheckReservedLock = [](sqlite3_file *f, int *r) -> int { return R(f)->pMethods->xCheckReservedLock(R(f), r); };
  iom.xFileControl = [](sqlite3_file *f, int o, void *p) -> int { return R(f)->pMethods->xFileControl(R(f), o, p); }; iom.xSectorSize = [](sqlite3_file *f) -> int { return R(f)->pMethods->xSectorSize(R(f)); }; iom.xDeviceCharacteristics = [](sqlite3_file *) -> int { return 0; };
  myvfs = *rv; myvfs.iVersion = 1; myvfs.zName = "faulty"; myvfs.szOsFile = sizeof(F) + rv->szOsFile; myvfs.pNext = nullptr;
  myvfs.xOpen = [](sqlite3_vfs *, const char *n, sqlite3_file *f, int fl, int *o) -> int { f->pMethods = nullptr; if (io()) return SQLITE_CANTOPEN; R(f) = (sqlite3_file *)((F *)f + 1); int rc = rv->xOpen(rv, n, R(f), fl, o); if (R(f)->pMethods) f->pMethods = &iom; return rc; };
  myvfs.xDelete = [](sqlite3_vfs *, const char *n, int s) -> int { if (io()) return SQLITE_IOERR_DELETE; return rv->xDelete(rv, n, s); }; myvfs.xAccess = [](sqlite3_vfs *, const char *n, int fl, int *r) -> int { return rv->xAccess(rv, n, fl, r); }; myvfs.xFullPathname = [](sqlite3_vfs *, const char *n, int z, char *o) -> int { return rv->xFullPathname(rv, n, z, o); };
  sqlite3_vfs_register(&myvfs, 0);
}
