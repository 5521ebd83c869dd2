// A scripted HTTP server on loopback: each connection brings one request and gets one planned answer.
#pragma once
#include "pbt.hpp"
#include "ws.hpp"
#include <algorithm>
#include <atomic>
#include <functional>
#include <mutex>
#include <thread>

struct Plan {
    std::string wire;
    std::vector<size_t> cuts; // lengths of the pieces
    bool stall = false;       // leaves the connection open
    bool reset = false;
};
struct Server {
    int fd = -1;
    uint16_t port = 0;
    std::string host;
    std::thread th;
    std::vector<std::thread> kids;
    std::atomic<bool> stopping{false};
    std::mutex mu;
    std::vector<std::string> seen; // whole requests
    std::function<Plan(const std::string&)> answer;
    void open() {
        host = own_host();
        fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
        struct sockaddr_in a;
        memset(&a, 0, sizeof a);
        a.sin_family = AF_INET;
        inet_pton(AF_INET, host.c_str(), &a.sin_addr);
        PBT_CHECK(bind(fd, (struct sockaddr*)&a, sizeof a) == 0 && listen(fd, 64) == 0, "cannot listen");
        socklen_t l = sizeof a;
        getsockname(fd, (struct sockaddr*)&a, &l);
        port = ntohs(a.sin_port);
        th = std::thread([this] {
            for (;;) {
                struct pollfd p = {fd, POLLIN, 0};
                if (poll(&p, 1, 50) <= 0) {
                    if (stopping) return;
                    continue;
                }
                int k = accept4(fd, nullptr, nullptr, SOCK_CLOEXEC);
                if (k < 0) continue;
                kids.emplace_back([this, k] { serve(k); });
            }
        });
    }
    void serve(int k) {
        int one = 1;
        setsockopt(k, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
        std::string in;
        char buf[4096];
        double end = mono() + 20;
        for (;;) {
            size_t e = in.find("\r\n\r\n");
            if (e != std::string::npos) {
                size_t l = 0, at = in.find("\r\nContent-Length:");
                if (at != std::string::npos && at < e) l = strtoul(in.c_str() + at + 17, nullptr, 10);
                if (in.size() >= e + 4 + l) break;
            }
            struct pollfd p = {k, POLLIN, 0};
            if (poll(&p, 1, 100) <= 0) {
                if (stopping || mono() > end) break;
                continue;
            }
            ssize_t n = recv(k, buf, sizeof buf, 0);
            if (n <= 0) break;
            in.append(buf, (size_t)n);
        }
        Plan pl;
        {
            std::lock_guard<std::mutex> g(mu);
            seen.push_back(in);
            pl = answer(in);
        }
        size_t at = 0;
        for (size_t i = 0; i < pl.cuts.size() && at < pl.wire.size(); i++) {
            size_t n = std::min(pl.cuts[i], pl.wire.size() - at);
            if (n && !all(k, pl.wire.data() + at, n)) break;
            at += n;
            if (i < 20) usleep(300);
        }
        if (at < pl.wire.size()) all(k, pl.wire.data() + at, pl.wire.size() - at);
        if (pl.stall) while (!stopping && mono() < end) {
            struct pollfd p = {k, POLLIN, 0};
            if (poll(&p, 1, 50) > 0 && recv(k, buf, sizeof buf, 0) <= 0) break;
        }
        if (pl.reset) {
            struct linger l = {1, 0};
            setsockopt(k, SOL_SOCKET, SO_LINGER, &l, sizeof l);
        } else {
            shutdown(k, SHUT_WR); // what was sent arrives before the close
            while (recv(k, buf, sizeof buf, MSG_DONTWAIT) > 0) {}
        }
        close(k);
    }
    static bool all(int k, const char* p, size_t n) {
        while (n) {
            ssize_t w = send(k, p, n, MSG_NOSIGNAL);
            if (w <= 0) return false;
            p += w;
            n -= (size_t)w;
        }
        return true;
    }
    void shut() {
        stopping = true;
        if (th.joinable()) th.join();
        for (auto& t : kids) if (t.joinable()) t.join();
        kids.clear();
        if (fd >= 0) close(fd);
        fd = -1;
    }
    ~Server() { shut(); }
};

