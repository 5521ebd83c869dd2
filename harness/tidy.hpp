// Whatever a case did, it leaves no connection or other file open.
#pragma once
#include "pbt.hpp"
#include <fcntl.h>
#include <vector>

template <void (*body)(pbt::Case&)> static void tidy(pbt::Case& c) {
    auto fds = [] {
        std::vector<int> v;
        for (int i = 0; i < 256; i++) if (fcntl(i, F_GETFD) >= 0) v.push_back(i);
        return v;
    };
    auto before = fds();
    body(c);
    auto after = fds();
    PBT_CHECK(after == before, "%zu files are open afterwards, %zu were before", after.size(), before.size());
}
