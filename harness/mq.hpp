// Generated MQTT sessions, and guards that keep the code under test inside its scratch directory.
#pragma once
#include "pbt.hpp"
#include "mq_shim.h"
#include <dirent.h>
#include <memory>
#include <stdio.h>
#include <string>
#include <sys/stat.h>
#include <unistd.h>
#include <vector>

struct MqDel { void operator()(mq_session* s) const { mq_free(s); } };
using Mq = std::unique_ptr<mq_session, MqDel>;
inline std::string mq_text(const mq_session* s) {
    size_t n = 0;
    char* p = mq_dump(s, &n);
    std::string r(p, n);
    free(p);
    return r;
}
inline std::string gen_topic(pbt::Case& c) {
    if (c.chance(1, 40)) return std::string(c.pick({255u, 256u, 4096u, 65535u}), 't');
    std::string s;
    for (size_t i = 0, n = 1 + c.draw(4); i < n; i++) { if (i) s += '/'; s += c.chance(1, 4) ? std::string(c.pick({"+", "#", "\xc3\xa9", " "})) : c.ident(1, 6); }
    return s;
}
inline Mq gen_session(pbt::Case& c, bool nonempty_topics = true) {
    (void)nonempty_topics;
    Mq s(mq_new(c.draw(1ull << 40), c.pick({0u, 0u, 1u, 10u, 60u, 86400u, 4294967295u}), (uint32_t)c.draw(65536)));
    for (size_t i = 0, n = c.small(0, 6); i < n; i++) mq_sub(s.get(), gen_topic(c).c_str(), (int)c.draw(3));
    for (size_t i = 0, n = c.small(0, 6); i < n; i++) {
        std::string p = c.chance(1, 8) ? std::string() : c.chance(1, 10) ? std::string(c.pick({255u, 256u, 4095u, 4096u, 65535u, 65536u, 200000u}), (char)c.draw(256)) : c.bytes(60);
        mq_msg(s.get(), (uint16_t)c.draw(65536), gen_topic(c).c_str(), p.data(), p.size(), (int)c.draw(3), (int)c.draw(2), c.draw(1ull << 41), (uint32_t)c.draw(9));
    }
    return s;
}
inline std::vector<std::string> files_in(const std::string& dir) {
    std::vector<std::string> r;
    DIR* d = opendir(dir.c_str());
    if (!d) return r;
    while (struct dirent* e = readdir(d)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) r.push_back(dir + "/" + e->d_name);
    closedir(d);
    return r;
}
