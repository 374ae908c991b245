//---------------------------------------------------------------------------------------------------- the C interface
// The same operations as above, with the same answers, through fdb_c.h
#include "fdb5/api/fdb_c.h"

static std::atomic<long long> cFails{0};
static std::atomic<int> cLast{0};
static bool cQuiet = false;   // several threads: no exact count
static void onFail(void* ctx, int code) {
    ++*static_cast<std::atomic<long long>*>(ctx);
    cLast = code;
}
struct Contract : public std::runtime_error { using std::runtime_error::runtime_error; };
struct CFailed : public std::runtime_error { using std::runtime_error::runtime_error; };

template <typename F> static int craw(const char* what, F f, S* text = nullptr) {
    long long before = cFails;
    int rc = f();
    long long d = cFails - before;
    const char* t = fdb_error_string(rc);
    if (!t) throw Contract(S("C-CONTRACT ") + what + ": no error text");
    if (text) *text = t;
    if (rc < 0 || rc > 3) throw Contract(S("C-CONTRACT ") + what + ": unknown code " + n(rc));
    bool err = rc == FDB_ERROR_GENERAL_EXCEPTION || rc == FDB_ERROR_UNKNOWN_EXCEPTION;
    if (!cQuiet && d != (err ? 1 : 0)) throw Contract(S("C-CONTRACT ") + what + ": code " + n(rc) + " with " + n(d) + " calls of the failure handler");
    if (!cQuiet && err && cLast != rc) throw Contract(S("C-CONTRACT ") + what + ": the failure handler was given " + n(cLast) + " instead of " + n(rc));
    if (err && !*t) throw Contract(S("C-CONTRACT ") + what + ": empty error text");
    return rc;
}
template <typename F> static void C(const char* what, F f) {
    S t;
    int rc = craw(what, f, &t);
    if (rc == FDB_ITERATION_COMPLETE) throw Contract(S("C-CONTRACT ") + what + ": end of an iteration");
    if (rc) throw CFailed(t);
}
template <typename F> static bool cnext(const char* what, F f) {
    S t;
    int rc = craw(what, f, &t);
    if (rc == FDB_SUCCESS) return true;
    if (rc == FDB_ITERATION_COMPLETE) return false;
    throw CFailed(t);
}
struct CReq {
    fdb_request_t* r = nullptr;
    CReq(const Value& op) {
        if (flag(op, "all")) return;
        C("new_request", [&] { return fdb_new_request(&r); });
        Value v = op["req"];
        for (size_t i = 0; i < v.size(); ++i) {
            S k = v[i][0];
            std::vector<S> vs;
            std::vector<const char*> ps;
            for (size_t j = 0; j < v[i][1].size(); ++j) vs.push_back(v[i][1][j]);
            if (flag(op, "slashes") && vs.size()) {    // the values in one string
                S all = vs[0];
                for (size_t j = 1; j < vs.size(); ++j) all += "/" + vs[j];
                vs = {all};
            }
            for (auto& s : vs) ps.push_back(s.c_str());
            C("request_add", [&] { return fdb_request_add(r, k.c_str(), ps.data(), ps.size()); });
        }
    }
    ~CReq() { if (r) fdb_delete_request(r); }
};
struct CReader {
    fdb_datareader_t* d = nullptr;
    CReader() { C("new_datareader", [&] { return fdb_new_datareader(&d); }); }
    ~CReader() { if (d) fdb_delete_datareader(d); }
};
static std::map<S, std::shared_ptr<CReader>> creaders;
struct CKey {
    fdb_key_t* k = nullptr;
    CKey(const Value& v) {
        C("new_key", [&] { return fdb_new_key(&k); });
        for (size_t i = 0; i < v.size(); ++i) C("key_add", [&] { S a = v[i][0], b = v[i][1]; return fdb_key_add(k, a.c_str(), b.c_str()); });
    }
    ~CKey() { fdb_delete_key(k); }
};

static S cgetreq(fdb_request_t* r, const Value& names) {
    S o = "{";
    for (size_t i = 0; i < names.size(); ++i) {
        S k = names[i];
        char** vs = nullptr;
        size_t c = 0;
        C("request_get", [&] { return fdb_request_get(r, k.c_str(), &vs, &c); });
        S l;
        for (size_t j = 0; j < c; ++j) {
            l += S(j ? "," : "") + q(vs[j]);
            delete[] vs[j];
        }
        delete[] vs;
        o += S(i ? "," : "") + q(k) + ":[" + l + "]";
    }
    return o + "}";
}

static S capi(const S& o, const Value& op, const std::shared_ptr<Handle>& H) {
    fdb_handle_t* f = H->c;
    if (o == "archive") {
        std::vector<char> p;
        payload(u64(op["seed"]), num(op, "len"), p);
        {
            CKey k(op["key"]);
            C("archive", [&] { return fdb_archive(f, k.k, p.data(), p.size()); });
        }
        memset(p.data(), 0xEE, p.size());
        return "{}";
    }
    if (o == "archive_file") {
        std::ifstream is(str(op, "file"), std::ios::binary);
        std::vector<char> b((std::istreambuf_iterator<char>(is)), std::istreambuf_iterator<char>());
        if (has(op, "req")) {
            CReq r(op);
            C("archive_multiple", [&] { return fdb_archive_multiple(f, r.r, b.data(), b.size()); });
        }
        else C("archive_multiple", [&] { return fdb_archive_multiple(f, nullptr, b.data(), b.size()); });
        return "{}";
    }
    if (o == "flush") { C("flush", [&] { return fdb_flush(f); }); return "{}"; }
    if (o == "list") {
        fdb_listiterator_t* it = nullptr;
        {
            CReq r(op);
            C("list", [&] { return fdb_list(f, r.r, &it, str(op, "mode2", "full") != "full", num(op, "level", 3)); });
        }
        if (flag(op, "closefirst")) {
            C("delete_handle", [&] { return fdb_delete_handle(f); });
            H->c = nullptr;
        }
        std::shared_ptr<void> guard(nullptr, [&](void*) { fdb_delete_listiterator(it); });
        fdb_split_key_t* sk = nullptr;
        C("new_splitkey", [&] { return fdb_new_splitkey(&sk); });
        std::shared_ptr<void> g2(nullptr, [&](void*) { fdb_delete_splitkey(sk); });
        S out = "{\"items\":[";
        long long cnt = 0;
        while (cnext("listiterator_next", [&] { return fdb_listiterator_next(it); })) {
            if (num(op, "max", -1) == cnt) break;
            out += cnt++ ? ",{\"k\":[" : "{\"k\":[";
            C("listiterator_splitkey", [&] { return fdb_listiterator_splitkey(it, sk); });
            S lv[3];
            const char *k = nullptr, *v = nullptr;
            size_t level = 0;
            while (cnext("splitkey_next", [&] { return fdb_splitkey_next_metadata(sk, &k, &v, &level); })) {
                if (level > 2) throw Contract("C-CONTRACT level " + n(level));
                lv[level] += S(lv[level].empty() ? "" : ",") + "[" + q(k) + "," + q(v) + "]";
            }
            if (cnext("splitkey_next after its end", [&] { return fdb_splitkey_next_metadata(sk, &k, &v, &level); }))
                throw Contract("C-CONTRACT a finished split key goes on");
            for (int i = 0; i < 3; ++i) out += S(i ? "," : "") + "[" + lv[i] + "]";
            out += "]";
            if (num(op, "level", 3) == 3) {
                const char* uri = nullptr;
                size_t off = 0, len = 0;
                C("listiterator_attrs", [&] { return fdb_listiterator_attrs(it, &uri, &off, &len); });
                S path = uri;
                out += ",\"path\":" + q(path) + ",\"uri\":" + q(path) + ",\"furi\":" + q(path + "#" + n(off)) + ",\"off\":" + n(off) + ",\"len\":" + n(len);
                if (flag(op, "read")) {
                    std::ifstream is(path, std::ios::binary);
                    std::vector<char> b(len);
                    is.seekg(off);
                    is.read(b.data(), len);
                    b.resize(is.gcount() < 0 ? 0 : is.gcount());
                    out += ",\"n\":" + n(b.size()) + ",\"rec\":" + records(b.data(), b.size());
                }
            }
            out += "}";
        }
        if (num(op, "max", -1) < 0 && cnext("listiterator_next after its end", [&] { return fdb_listiterator_next(it); }))
            throw Contract("C-CONTRACT a finished listing goes on");
        return out + "],\"n\":" + n(cnt) + "}";
    }
    if (o == "retrieve") {
        auto rd = std::make_shared<CReader>();
        if (has(op, "reuse")) {
            std::lock_guard<std::mutex> l(dhMutex);
            auto i = creaders.find(str(op, "reuse"));
            if (i != creaders.end()) rd = i->second;
        }
        {
            CReq r(op);
            if (flag(op, "expand")) C("expand_request", [&] { return fdb_expand_request(r.r); });
            C("retrieve", [&] { return fdb_retrieve(f, r.r, rd->d); });
        }
        if (has(op, "keep")) {
            std::lock_guard<std::mutex> l(dhMutex);
            creaders[str(op, "keep")] = rd;
            return "{}";
        }
        long est = -1, got = 0;
        std::vector<char> all, buf(num(op, "chunk", 1 << 20));
        C("open", [&] { return fdb_datareader_open(rd->d, &est); });
        do {
            C("read", [&] { return fdb_datareader_read(rd->d, buf.data(), buf.size(), &got); });
            if (got < 0) throw Contract("C-CONTRACT read gives " + n(got) + " and success");
            all.insert(all.end(), buf.data(), buf.data() + got);
        } while (got > 0);
        C("close", [&] { return fdb_datareader_close(rd->d); });
        return "{\"est\":" + n(est) + ",\"n\":" + n(all.size()) + ",\"rec\":" + records(all.data(), all.size()) + "}";
    }
    if (o == "wipe") {
        fdb_wipe_iterator_t* it = nullptr;
        {
            CReq r(op);
            C("wipe", [&] { return fdb_wipe(f, r.r, flag(op, "doit"), flag(op, "porcelain"), flag(op, "unsafe"), &it); });
        }
        std::shared_ptr<void> guard(nullptr, [&](void*) { fdb_delete_wipe_iterator(it); });
        S out = "{\"items\":[";
        for (bool first = true;; first = false) {
            fdb_wipe_element_t* e = nullptr;
            bool more = cnext("wipe_iterator_next", [&] { return fdb_wipe_iterator_next(it, &e); });
            std::shared_ptr<void> g2(nullptr, [&](void*) { if (e) fdb_delete_wipe_element(e); });
            if (!more) break;
            const char* s = nullptr;
            C("wipe_element_string", [&] { return fdb_wipe_element_string(e, &s); });
            out += S(first ? "" : ",") + "{\"msg\":" + q(s) + "}";
        }
        return out + "]}";
    }
    if (o == "purge") {
        fdb_purge_iterator_t* it = nullptr;
        {
            CReq r(op);
            C("purge", [&] { return fdb_purge(f, r.r, flag(op, "doit"), flag(op, "porcelain"), &it); });
        }
        std::shared_ptr<void> guard(nullptr, [&](void*) { fdb_delete_purge_iterator(it); });
        S out = "{\"items\":[";
        for (bool first = true;; first = false) {
            fdb_purge_element_t* e = nullptr;
            bool more = cnext("purge_iterator_next", [&] { return fdb_purge_iterator_next(it, &e); });
            std::shared_ptr<void> g2(nullptr, [&](void*) { if (e) fdb_delete_purge_element(e); });
            if (!more) break;
            const char* s = nullptr;
            C("purge_element_string", [&] { return fdb_purge_element_string(e, &s); });
            out += S(first ? "" : ",") + q(s);
        }
        return out + "]}";
    }
    if (o == "close") {
        C("delete_handle", [&] { return fdb_delete_handle(f); });
        H->c = nullptr;
        return "{}";
    }
    throw std::runtime_error("driver: not in the C interface: " + o);
}

static void chandler() {
    static std::once_flag once;
    std::call_once(once, [] { fdb_set_failure_handler(onFail, &cFails); });
}

static S copen(const Value& op) {
    chandler();
    auto h = std::make_shared<Handle>();
    if (has(op, "config")) {
        S c = str(op, "config"), u = str(op, "user", "{}");
        C("new_handle_from_yaml", [&] { return fdb_new_handle_from_yaml(&h->c, c.c_str(), u.c_str()); });
    }
    else C("new_handle", [&] { return fdb_new_handle(&h->c); });
    std::lock_guard<std::mutex> l(handlesMutex);
    handles[str(op, "h", "0")] = h;
    return "{}";
}

// a program on a reader; steps that fail are answered with their text
static S creader(const Value& op) {
    std::shared_ptr<CReader> rd;
    if (has(op, "keep")) {
        std::lock_guard<std::mutex> l(dhMutex);
        rd = creaders.at(str(op, "keep"));
    }
    else rd = std::make_shared<CReader>();   // one without data
    S out;
    Value sc = op["script"];
    for (size_t i = 0; i < sc.size(); ++i) {
        S c = sc[i][0], r = "null";
        long v = -4711;
        long a = sc[i].size() > 1 ? (long)(long long)sc[i][1] : 0;
        try {
            if (c == "open") { C("open", [&] { return fdb_datareader_open(rd->d, a ? nullptr : &v); }); r = a ? S("null") : n(v); }
            else if (c == "close") C("close", [&] { return fdb_datareader_close(rd->d); });
            else if (c == "pos") { C("tell", [&] { return fdb_datareader_tell(rd->d, &v); }); r = n(v); }
            else if (c == "size") { C("size", [&] { return fdb_datareader_size(rd->d, &v); }); r = n(v); }
            else if (c == "seek") C("seek", [&] { return fdb_datareader_seek(rd->d, a); });
            else if (c == "skip") C("skip", [&] { return fdb_datareader_skip(rd->d, a); });
            else if (c == "read") {
                std::vector<char> b(a + 8, 0x5A);
                C("read", [&] { return fdb_datareader_read(rd->d, b.data(), a, &v); });
                bool guard = true;
                for (size_t z = a; z < b.size(); ++z) if (b[z] != 0x5A) guard = false;
                r = "[" + n(v) + "," + q(v > 0 ? md5(b.data(), v) : "") + (guard ? "" : ",\"OVERRUN\"") + "]";
            }
            else r = q("?");
        }
        catch (Contract&) { throw; }
        catch (std::exception& e) { r = errJson("ex", e.what()); }
        out += (i ? "," : "") + r;
    }
    if (flag(op, "free")) {
        std::lock_guard<std::mutex> l(dhMutex);
        creaders.erase(str(op, "keep"));
    }
    return "{\"r\":[" + out + "]}";
}

static S cextra(const S& o, const Value& op) {
    chandler();
    if (o == "creader") return creader(op);
    if (o == "cthreads") { cQuiet = flag(op, "on"); return "{}"; }
    if (o == "creq") {      // add, get, expand, get
        CReq r(op);
        if (flag(op, "expand")) C("expand_request", [&] { return fdb_expand_request(r.r); });
        return "{\"values\":" + cgetreq(r.r, op["names"]) + "}";
    }
    if (o == "cmisc") {
        const char *a = nullptr, *b = nullptr;
        C("version", [&] { return fdb_version(&a); });
        C("vcs_version", [&] { return fdb_vcs_version(&b); });
        return "{\"v\":[" + q(a) + "," + q(b) + "],\"s\":[" + q(fdb_error_string(0)) + "," + q(fdb_error_string(3)) + "," + q(fdb_error_string(99)) + "]}";
    }
    if (o == "cnull") {     // each pointer missing, one at a time: an error, and nothing else
        S bad;
        fdb_handle_t* f = H(op)->c;
        fdb_key_t* k = nullptr;
        fdb_request_t* r = nullptr;
        fdb_datareader_t* d = nullptr;
        fdb_split_key_t* s = nullptr;
        fdb_new_key(&k); fdb_new_request(&r); fdb_new_datareader(&d); fdb_new_splitkey(&s);
        const char *cp = nullptr, *val[] = {"od"};
        char** vals = nullptr;
        size_t sz = 0;
        long l = 0;
        char b[8];
        fdb_listiterator_t* li = nullptr;
        fdb_wipe_iterator_t* wi = nullptr;
        fdb_purge_iterator_t* pi = nullptr;
        fdb_wipe_element_t* we = nullptr;
        fdb_purge_element_t* pe = nullptr;
        fdb_handle_t* nf = nullptr;
        std::vector<std::pair<const char*, std::function<int()>>> calls = {
            {"version", [&] { return fdb_version(nullptr); }},
            {"vcs_version", [&] { return fdb_vcs_version(nullptr); }},
            {"new_key", [&] { return fdb_new_key(nullptr); }},
            {"key_add.0", [&] { return fdb_key_add(nullptr, "a", "b"); }},
            {"key_add.1", [&] { return fdb_key_add(k, nullptr, "b"); }},
            {"key_add.2", [&] { return fdb_key_add(k, "a", nullptr); }},
            {"delete_key", [&] { return fdb_delete_key(nullptr); }},
            {"new_request", [&] { return fdb_new_request(nullptr); }},
            {"request_add.0", [&] { return fdb_request_add(nullptr, "class", val, 1); }},
            {"request_add.1", [&] { return fdb_request_add(r, nullptr, val, 1); }},
            {"request_add.2", [&] { return fdb_request_add(r, "class", nullptr, 1); }},
            {"request_get.0", [&] { return fdb_request_get(nullptr, "class", &vals, &sz); }},
            {"request_get.1", [&] { return fdb_request_get(r, nullptr, &vals, &sz); }},
            {"request_get.2", [&] { return fdb_request_get(r, "class", nullptr, &sz); }},
            {"request_get.3", [&] { return fdb_request_get(r, "class", &vals, nullptr); }},
            {"expand_request", [&] { return fdb_expand_request(nullptr); }},
            {"delete_request", [&] { return fdb_delete_request(nullptr); }},
            {"new_splitkey", [&] { return fdb_new_splitkey(nullptr); }},
            {"splitkey_next.0", [&] { return fdb_splitkey_next_metadata(nullptr, &cp, &cp, &sz); }},
            {"splitkey_next.1", [&] { return fdb_splitkey_next_metadata(s, nullptr, &cp, &sz); }},
            {"splitkey_next.2", [&] { return fdb_splitkey_next_metadata(s, &cp, nullptr, &sz); }},
            {"splitkey_next of none", [&] { return fdb_splitkey_next_metadata(s, &cp, &cp, &sz); }},
            {"delete_splitkey", [&] { return fdb_delete_splitkey(nullptr); }},
            {"listiterator_next", [&] { return fdb_listiterator_next(nullptr); }},
            {"listiterator_attrs", [&] { return fdb_listiterator_attrs(nullptr, &cp, &sz, &sz); }},
            {"listiterator_splitkey", [&] { return fdb_listiterator_splitkey(nullptr, s); }},
            {"delete_listiterator", [&] { return fdb_delete_listiterator(nullptr); }},
            {"new_datareader", [&] { return fdb_new_datareader(nullptr); }},
            {"datareader_open", [&] { return fdb_datareader_open(nullptr, &l); }},
            {"datareader_close", [&] { return fdb_datareader_close(nullptr); }},
            {"datareader_tell.0", [&] { return fdb_datareader_tell(nullptr, &l); }},
            {"datareader_tell.1", [&] { return fdb_datareader_tell(d, nullptr); }},
            {"datareader_seek", [&] { return fdb_datareader_seek(nullptr, 0); }},
            {"datareader_skip", [&] { return fdb_datareader_skip(nullptr, 0); }},
            {"datareader_size.0", [&] { return fdb_datareader_size(nullptr, &l); }},
            {"datareader_size.1", [&] { return fdb_datareader_size(d, nullptr); }},
            {"datareader_read.0", [&] { return fdb_datareader_read(nullptr, b, 1, &l); }},
            {"datareader_read.1", [&] { return fdb_datareader_read(d, nullptr, 1, &l); }},
            {"datareader_read.2", [&] { return fdb_datareader_read(d, b, 1, nullptr); }},
            {"open without data", [&] { return fdb_datareader_open(d, &l); }},
            {"read without data", [&] { return fdb_datareader_read(d, b, 1, &l); }},
            {"tell without data", [&] { return fdb_datareader_tell(d, &l); }},
            {"seek without data", [&] { return fdb_datareader_seek(d, 0); }},
            {"skip without data", [&] { return fdb_datareader_skip(d, 0); }},
            {"size without data", [&] { return fdb_datareader_size(d, &l); }},
            {"close without data", [&] { return fdb_datareader_close(d); }},
            {"delete_datareader", [&] { return fdb_delete_datareader(nullptr); }},
            {"new_handle", [&] { return fdb_new_handle(nullptr); }},
            {"new_handle_from_yaml.0", [&] { return fdb_new_handle_from_yaml(nullptr, "{}", "{}"); }},
            {"new_handle_from_yaml.1", [&] { return fdb_new_handle_from_yaml(&nf, nullptr, "{}"); }},
            {"new_handle_from_yaml.2", [&] { return fdb_new_handle_from_yaml(&nf, "{}", nullptr); }},
            {"archive.0", [&] { return fdb_archive(nullptr, k, "x", 1); }},
            {"archive.1", [&] { return fdb_archive(f, nullptr, "x", 1); }},
            {"archive.2", [&] { return fdb_archive(f, k, nullptr, 1); }},
            {"archive_multiple.0", [&] { return fdb_archive_multiple(nullptr, r, "x", 1); }},
            {"archive_multiple.2", [&] { return fdb_archive_multiple(f, r, nullptr, 1); }},
            {"list.0", [&] { return fdb_list(nullptr, r, &li, true, 3); }},
            {"list.2", [&] { return fdb_list(f, r, nullptr, true, 3); }},
            {"retrieve.0", [&] { return fdb_retrieve(nullptr, r, d); }},
            {"retrieve.1", [&] { return fdb_retrieve(f, nullptr, d); }},
            {"retrieve.2", [&] { return fdb_retrieve(f, r, nullptr); }},
            {"flush", [&] { return fdb_flush(nullptr); }},
            {"delete_handle", [&] { return fdb_delete_handle(nullptr); }},
            {"wipe.0", [&] { return fdb_wipe(nullptr, r, false, false, false, &wi); }},
            {"wipe.1", [&] { return fdb_wipe(f, nullptr, false, false, false, &wi); }},
            {"wipe.2", [&] { return fdb_wipe(f, r, false, false, false, nullptr); }},
            {"wipe_next.0", [&] { return fdb_wipe_iterator_next(nullptr, &we); }},
            {"wipe_element_string", [&] { return fdb_wipe_element_string(nullptr, &cp); }},
            {"delete_wipe_element", [&] { return fdb_delete_wipe_element(nullptr); }},
            {"purge.0", [&] { return fdb_purge(nullptr, r, false, false, &pi); }},
            {"purge.1", [&] { return fdb_purge(f, nullptr, false, false, &pi); }},
            {"purge.2", [&] { return fdb_purge(f, r, false, false, nullptr); }},
            {"purge_next.0", [&] { return fdb_purge_iterator_next(nullptr, &pe); }},
            {"purge_element_string", [&] { return fdb_purge_element_string(nullptr, &cp); }},
            {"delete_purge_element", [&] { return fdb_delete_purge_element(nullptr); }}};
        long long cnt = 0;
        for (auto& c : calls) {
            if (has(op, "only") && str(op, "only") != c.first) continue;
            fprintf(stderr, "cnull %s\n", c.first);
            int rc = craw(c.first, c.second);
            ++cnt;
            if (rc != FDB_ERROR_GENERAL_EXCEPTION && rc != FDB_ERROR_UNKNOWN_EXCEPTION) bad += S(bad.empty() ? "" : ",") + "[" + q(c.first) + "," + n(rc) + "]";
        }
        fdb_delete_key(k); fdb_delete_request(r); fdb_delete_datareader(d); fdb_delete_splitkey(s);
        return "{\"n\":" + n(cnt) + ",\"bad\":[" + bad + "]}";
    }
    return "";
}
