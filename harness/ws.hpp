// A raw WebSocket client (RFC 6455) over a loopback socket, for driving the server with any framing.
#pragma once
#include "pbt.hpp"
#include <arpa/inet.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <string>
#include <sys/socket.h>
#include <time.h>
#include <unistd.h>
#include <vector>

inline double mono() {
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return (double)ts.tv_sec + (double)ts.tv_nsec / 1e9;
}
// an address of this process only, so that parallel workers never meet
inline std::string own_host() {
    unsigned pid = (unsigned)getpid();
    return pbt::fmt("127.%u.%u.%u", 1 + (pid >> 16) % 250, (pid >> 8) & 255, 1 + (pid & 255) % 254);
}
inline int dial(const std::string& host, uint16_t port) { // -1 when refused
    struct sockaddr_in a;
    memset(&a, 0, sizeof a);
    a.sin_family = AF_INET;
    a.sin_port = htons(port);
    inet_pton(AF_INET, host.c_str(), &a.sin_addr);
    int fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
    if (fd < 0) return -1;
    if (connect(fd, (struct sockaddr*)&a, sizeof a) != 0) { close(fd); return -1; }
    int one = 1;
    setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
    fcntl(fd, F_SETFL, O_NONBLOCK);
    return fd;
}

struct WsClient {
    int fd = -1;
    std::string in;                     // unparsed input
    bool upgraded = false, refused = false, eof = false, closing = false;
    std::vector<std::string> messages;  // complete text messages received
    std::string partial;
    size_t pongs = 0, odd = 0;
    void open(const std::string& host, uint16_t port, const char* path = "/ws") {
        fd = dial(host, port);
        if (fd < 0) { refused = eof = true; return; }
        std::string rq = pbt::fmt("GET %s HTTP/1.1\r\nHost: x\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Protocol: mcp-protocol\r\n\r\n", path);
        if (send(fd, rq.data(), rq.size(), MSG_NOSIGNAL) != (ssize_t)rq.size()) eof = true;
    }
    void parse() {
        if (!upgraded) {
            size_t e = in.find("\r\n\r\n");
            if (e == std::string::npos) return;
            if (in.compare(0, 12, "HTTP/1.1 101") != 0) { refused = true; return; }
            upgraded = true;
            in.erase(0, e + 4);
        }
        for (;;) {
            if (in.size() < 2) return;
            unsigned char b0 = (unsigned char)in[0], b1 = (unsigned char)in[1];
            size_t n = b1 & 127, h = 2;
            if (n == 126) { if (in.size() < 4) return; n = ((unsigned char)in[2] << 8) | (unsigned char)in[3]; h = 4; }
            else if (n == 127) {
                if (in.size() < 10) return;
                n = 0;
                for (int i = 2; i < 10; i++) n = n << 8 | (unsigned char)in[(size_t)i];
                h = 10;
            }
            if (b1 & 128) { odd++; h += 4; }
            if (in.size() < h + n) return;
            std::string body = in.substr(h, n);
            in.erase(0, h + n);
            int op = b0 & 15;
            if (op == 0 || op == 1 || op == 2) {
                if (op == 2) odd++;
                partial += body;
                if (b0 & 128) { messages.push_back(partial); partial.clear(); }
            } else if (op == 8) closing = true;
            else if (op == 10) pongs++;
        }
    }
    void pump() {
        if (fd < 0 || eof) return;
        static thread_local char buf[65536];
        for (;;) {
            ssize_t n = recv(fd, buf, sizeof buf, 0);
            if (n > 0) { in.append(buf, (size_t)n); continue; }
            if (n == 0 || (errno != EAGAIN && errno != EINTR)) eof = true;
            break;
        }
        parse();
    }
    // waits until f() or the deadline
    template <class F> bool until(F f, double secs) {
        double t0 = mono();
        for (;;) {
            pump();
            if (f()) return true;
            if (eof) return false;
            if (mono() - t0 > secs) return false;
            struct pollfd p = {fd, POLLIN, 0};
            poll(&p, 1, 5);
        }
    }
    bool ready(double secs = 10) { until([&] { return upgraded || refused; }, secs); return upgraded; }
    static std::string frame(int op, bool fin, const std::string& body, uint32_t mask) {
        std::string s;
        s += (char)((fin ? 128 : 0) | op);
        size_t n = body.size();
        if (n < 126) s += (char)(128 | n);
        else if (n < 65536) { s += (char)(128 | 126); s += (char)(n >> 8); s += (char)n; }
        else { s += (char)(128 | 127); for (int i = 7; i >= 0; i--) s += (char)(n >> (8 * i)); }
        unsigned char m[4] = {(unsigned char)(mask >> 24), (unsigned char)(mask >> 16), (unsigned char)(mask >> 8), (unsigned char)mask};
        s.append((char*)m, 4);
        for (size_t i = 0; i < n; i++) s += (char)(body[i] ^ m[i & 3]);
        return s;
    }
    // sends all of it, reading meanwhile; false when the connection ends
    bool feed(const std::string& s, double secs = 10) {
        size_t at = 0;
        double t0 = mono();
        while (at < s.size()) {
            if (fd < 0 || eof) return false;
            ssize_t n = send(fd, s.data() + at, s.size() - at, MSG_NOSIGNAL);
            if (n > 0) { at += (size_t)n; continue; }
            if (n < 0 && errno != EAGAIN && errno != EINTR) { pump(); return false; }
            pump();
            struct pollfd p = {fd, POLLIN | POLLOUT, 0};
            poll(&p, 1, 20);
            if (mono() - t0 > secs) return false;
        }
        return true;
    }
    void close_now(bool reset = false) {
        if (fd < 0) return;
        if (reset) { struct linger l = {1, 0}; setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l); }
        ::close(fd);
        fd = -1;
    }
    ~WsClient() { close_now(); }
    WsClient() = default;
    WsClient(WsClient&& o) { *this = std::move(o); }
    WsClient& operator=(WsClient&& o) {
        close_now();
        fd = o.fd; o.fd = -1;
        in = std::move(o.in); upgraded = o.upgraded; refused = o.refused; eof = o.eof; closing = o.closing;
        messages = std::move(o.messages); partial = std::move(o.partial); pongs = o.pongs; odd = o.odd;
        return *this;
    }
};
