// Seam for the dynamic linker: while a Loader is installed, dlopen and friends of the code under test go to it.
#pragma once

namespace fakedl
{
struct Loader
{
    virtual void *open(const char *path, int flags) = 0;
    virtual bool owns(void *handle) = 0;
    virtual void *sym(void *handle, const char *name) = 0;
    virtual int close(void *handle) = 0;
    virtual const char *err() = 0;
};
void install(Loader *l);
}  // namespace fakedl
