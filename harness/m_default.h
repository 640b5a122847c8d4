// what two translation units see of the resource singletons
#pragma once
#include <utils/memory/allocator.h>
utils::memory::memory_resource *tu2_system();
utils::memory::memory_resource *tu2_null();
utils::memory::memory_resource *tu2_get();
utils::memory::memory_resource *tu2_set(utils::memory::memory_resource *);
utils::memory::memory_resource *tu2_allocator();
bool tu2_initial_is_system();
