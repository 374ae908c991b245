//---------------------------------------------------------------------------------------------------- GRIB messages
#include "eccodes.h"

static void unhex(const S& hx, std::vector<char>& p) {
    for (size_t i = 0; i + 1 < hx.size(); i += 2) p.push_back((char)strtol(hx.substr(i, 2).c_str(), nullptr, 16));
}
static S tohex(const char* d, size_t len) {
    static const char* x = "0123456789abcdef";
    S h;
    h.reserve(2 * len);
    for (size_t i = 0; i < len; ++i) { h += x[(unsigned char)d[i] >> 4]; h += x[d[i] & 15]; }
    return h;
}
static S gextra(const S& o, const Value& op) {
    if (o != "grib") return "";
    codes_handle* h = nullptr;
    std::vector<char> p;
    if (has(op, "hex")) {
        unhex(str(op, "hex"), p);
        h = codes_handle_new_from_message_copy(nullptr, p.data(), p.size());
    }
    else h = codes_grib_handle_new_from_samples(nullptr, str(op, "sample", "GRIB1").c_str());
    if (!h) throw std::runtime_error("driver: no GRIB handle");
    std::shared_ptr<void> guard(nullptr, [&](void*) { codes_handle_delete(h); });
    Value set = op["set"];
    for (size_t i = 0; i < set.size(); ++i) {
        S k = set[i][0];
        int rc;
        if (set[i][1].isNumber()) rc = codes_set_long(h, k.c_str(), (long long)set[i][1]);
        else {
            S v = set[i][1];
            size_t l = v.size();
            rc = codes_set_string(h, k.c_str(), v.c_str(), &l);
        }
        if (rc) throw std::runtime_error("driver: setting " + k + " gives " + n(rc));
    }
    if (has(op, "seed")) {
        size_t c = 0;
        codes_get_size(h, "values", &c);
        if (has(op, "npoints")) c = num(op, "npoints");
        std::vector<double> v(c);
        uint64_t z = u64(op["seed"]);
        for (size_t i = 0; i < c; ++i) v[i] = (double)((mix(z + i) >> 40) & 0xFFFF) / 16;
        if (flag(op, "missing")) {  // points without value
            codes_set_long(h, "bitmapPresent", 1);
            for (size_t i = 0; i < c; ++i) if ((mix(z ^ (i * 7919)) & 15) == 0) v[i] = 9999;
        }
        if (codes_set_double_array(h, "values", v.data(), c)) throw std::runtime_error("driver: setting values");
    }
    S get = "{";
    Value g = op["get"];
    for (size_t i = 0; has(op, "get") && i < g.size(); ++i) {
        char b[256];
        size_t l = sizeof(b);
        S k = g[i];
        get += S(i ? "," : "") + q(k) + ":" + (codes_get_string(h, k.c_str(), b, &l) ? S("null") : q(b));
    }
    const void* m = nullptr;
    size_t l = 0;
    codes_get_message(h, &m, &l);
    if (flag(op, "values")) {
        size_t c = 0;
        codes_get_size(h, "values", &c);
        std::vector<double> v(c);
        codes_get_double_array(h, "values", v.data(), &c);
        get += S(get.size() > 1 ? "," : "") + "\"values\":[";
        char b[40];
        for (size_t i = 0; i < c; ++i) { snprintf(b, 40, "%.17g", v[i]); get += S(i ? "," : "") + b; }
        get += "]";
    }
    return "{\"hex\":" + q(tohex(static_cast<const char*>(m), l)) + ",\"get\":" + get + "}}";
}
