// PROJ strings need no database, and looking for datum shifts in it dominates the run time of reprojections.
// Include in at most one translation unit of a harness; call noProjDatabase() first in main.
#pragma once
#include <cstdlib>
#include <dlfcn.h>
#include <proj.h>

inline void noProjDatabase()
{
    setenv("PROJ_DATA", "/nonexistent", 1);
    setenv("PROJ_LIB", "/nonexistent", 1);
}

// interposed: as in libproj, but the missing database is not reported as an error of a successful call
extern "C" PJ* proj_create_crs_to_crs(PJ_CONTEXT* ctx, const char* from, const char* to, PJ_AREA* area)
{
    typedef PJ* (*fn)(PJ_CONTEXT*, const char*, const char*, PJ_AREA*);
    static fn real = reinterpret_cast<fn>(dlsym(RTLD_NEXT, "proj_create_crs_to_crs"));
    PJ* p = real(ctx, from, to, area);
    if (p)
        proj_errno_reset(p);
    return p;
}
