// Reference reader for server-sent events (line ends LF, CRLF or CR; fields
// joined as the event-stream format says).
#pragma once
#include <string>
#include <vector>
struct SseEvent {
    bool has_id = false, has_type = false, has_data = false;
    std::string id, type, data;
};
// Reads every complete event of `s`; `rest` gets what follows the last blank line.
static inline std::vector<SseEvent> sse_read(const std::string& s, std::string* rest = nullptr) {
    std::vector<SseEvent> out;
    SseEvent e;
    size_t i = 0, start = 0;
    while (i < s.size()) {
        size_t j = i;
        while (j < s.size() && s[j] != '\n' && s[j] != '\r') j++;
        if (j == s.size()) break;
        size_t next = j + 1;
        if (s[j] == '\r' && next < s.size() && s[next] == '\n') next++;
        std::string line = s.substr(i, j - i);
        i = next;
        if (line.empty()) {
            if (e.has_id || e.has_type || e.has_data) out.push_back(e);
            e = SseEvent();
            start = i;
            continue;
        }
        if (line[0] == ':') continue;
        size_t colon = line.find(':');
        std::string name = line.substr(0, colon), value = colon == std::string::npos ? "" : line.substr(colon + 1);
        if (!value.empty() && value[0] == ' ') value.erase(0, 1);
        if (name == "id") { e.has_id = true; e.id = value; }
        else if (name == "event") { e.has_type = true; e.type = value; }
        else if (name == "data") {
            if (e.has_data) e.data += "\n";
            e.has_data = true;
            e.data += value;
        }
    }
    if (rest) *rest = s.substr(start);
    return out;
}
