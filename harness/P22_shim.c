#include "internal/sthttp_transport_internal.h"
/* the configured list applied to one origin, as the transport does it */
int p22_allowed(const char* list, const char* const* origins, int n, int* out) {
    sthttp_transport_data_t d;
    memset(&d, 0, sizeof d);
    if (!parse_allowed_origins(list, &d.allowed_origins, &d.allowed_origins_count)) return -1;
    d.validate_origin = true;
    for (int i = 0; i < n; i++) out[i] = validate_origin(&d, origins[i]);
    free_allowed_origins(d.allowed_origins, d.allowed_origins_count);
    return 0;
}
