#include "fakedl.h"

namespace
{
fakedl::Loader *loader = nullptr;
}
void fakedl::install(Loader *l) { loader = l; }

extern "C"
{
void *__real_dlopen(const char *, int);
void *__real_dlsym(void *, const char *);
int __real_dlclose(void *);
char *__real_dlerror();

void *__wrap_dlopen(const char *path, int flags) { return loader ? loader->open(path, flags) : __real_dlopen(path, flags); }
void *__wrap_dlsym(void *h, const char *name) { return loader && loader->owns(h) ? loader->sym(h, name) : __real_dlsym(h, name); }
int __wrap_dlclose(void *h) { return loader && loader->owns(h) ? loader->close(h) : __real_dlclose(h); }
char *__wrap_dlerror() { return loader ? const_cast<char *>(loader->err()) : __real_dlerror(); }
}
