#include "m_default.h"
#include "sym.h"
using namespace utils::memory;
memory_resource *tu2_system() { return system_memory_resource(); }
memory_resource *tu2_null() { return null_memory_resource(); }
memory_resource *tu2_get() { return get_default_resource(); }
memory_resource *tu2_set(memory_resource *r) { return set_default_resource(r); }
memory_resource *tu2_allocator() { return allocator<char>().resource(); }
