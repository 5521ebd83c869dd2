// A raw HTTP/1.1 client over a loopback socket, for driving the servers with any splitting.
#pragma once
#include "ws.hpp"
#include <map>
struct HttpReply {
    int status = 0;
    std::vector<std::pair<std::string, std::string>> headers; // names in lower case
    std::string body;
    bool has(const std::string& n) const { for (auto& h : headers) if (h.first == n) return true; return false; }
    std::string get(const std::string& n) const { for (auto& h : headers) if (h.first == n) return h.second; return ""; }
};
struct HttpClient {
    int fd = -1;
    bool eof = false;
    std::string in;
    HttpClient() = default;
    HttpClient(const HttpClient&) = delete;
    ~HttpClient() { close_now(); }
    bool open(const std::string& host, uint16_t port) { eof = false; in.clear(); fd = dial(host, port); return fd >= 0; }
    void close_now(bool reset = false) {
        if (fd < 0) return;
        if (reset) { struct linger l = {1, 0}; setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l); }
        ::close(fd);
        fd = -1;
    }
    void pump() {
        if (fd < 0 || eof) return;
        static thread_local char buf[65536];
        for (;;) {
            ssize_t n = recv(fd, buf, sizeof buf, 0);
            if (n > 0) { in.append(buf, (size_t)n); continue; }
            if (n == 0 || (errno != EAGAIN && errno != EINTR)) eof = true;
            break;
        }
    }
    bool feed(const std::string& s, double secs = 10) {
        size_t at = 0;
        double t0 = mono();
        while (at < s.size()) {
            if (fd < 0) return false;
            ssize_t n = send(fd, s.data() + at, s.size() - at, MSG_NOSIGNAL);
            if (n > 0) { at += (size_t)n; continue; }
            pump();
            if (n < 0 && errno != EAGAIN && errno != EINTR) return false;
            if (eof) return false;
            struct pollfd p = {fd, POLLIN | POLLOUT, 0};
            poll(&p, 1, 20);
            if (mono() - t0 > secs) return false;
        }
        return true;
    }
    // takes the head of a response; 1 when taken, 0 not yet, -1 malformed
    int head(HttpReply& r) {
        size_t e = in.find("\r\n\r\n");
        if (e == std::string::npos) return 0;
        std::string h = in.substr(0, e);
        r = HttpReply();
        if (sscanf(h.c_str(), "HTTP/1.%*d %d", &r.status) != 1) return -1;
        size_t p = h.find("\r\n");
        while (p != std::string::npos) {
            size_t q = h.find("\r\n", p + 2);
            std::string l = h.substr(p + 2, q == std::string::npos ? q : q - p - 2);
            size_t colon = l.find(':');
            if (colon == std::string::npos) return -1;
            std::string n = l.substr(0, colon), v = l.substr(colon + 1);
            for (auto& ch : n) ch = (char)tolower((unsigned char)ch);
            while (!v.empty() && v[0] == ' ') v.erase(0, 1);
            r.headers.push_back({n, v});
            p = q;
        }
        in.erase(0, e + 4);
        return 1;
    }
    template <class F> bool until(F f, double secs) {
        double t0 = mono();
        for (;;) {
            pump();
            if (f()) return true;
            if (eof || fd < 0) return false;
            if (mono() - t0 > secs) return false;
            struct pollfd p = {fd, POLLIN, 0};
            poll(&p, 1, 5);
        }
    }
    bool wait_head(HttpReply& r, double secs = 15) {
        int k = 0;
        until([&] { return (k = head(r)) != 0; }, secs);
        return k == 1;
    }
    // a whole response: body by its length, else up to the end of the connection; `how` says what went wrong
    bool reply(HttpReply& r, std::string& how, double secs = 15) {
        if (!wait_head(r, secs)) { how = eof ? "the connection ends before a response" : "no response"; return false; }
        if (r.status == 204 || r.status == 304) return true;
        if (r.has("content-length")) {
            size_t n = strtoul(r.get("content-length").c_str(), nullptr, 10);
            until([&] { return in.size() >= n; }, secs);
            if (in.size() < n) { how = pbt::fmt("the response body has %zu of %zu bytes", in.size(), n); return false; }
            r.body = in.substr(0, n);
            in.erase(0, n);
            return true;
        }
        until([&] { return false; }, secs);
        r.body = in;
        in.clear();
        if (!eof) { how = pbt::fmt("a response without a length (status %d, body so far %s) does not end", r.status, pbt::esc(r.body).c_str()); return false; }
        return true;
    }
};
