#include <dlfcn.h>
#include "fdb5/database/ReadVisitor.h"
#include "fdb5/types/TypesRegistry.h"

//---------------------------------------------------------------------------------------------------- schemas
struct Decide : public fdb5::WriteVisitor {
    std::vector<Key>& prev;
    const fdb5::Schema& schema;
    S db, idx, datum;
    bool done = false;
    Decide(std::vector<Key>& p, const fdb5::Schema& s) : fdb5::WriteVisitor(p), prev(p), schema(s) {}
    bool selectDatabase(const Key& k, const Key&) override { db = keyJson(k); return true; }
    bool selectIndex(const Key& k) override { idx = keyJson(k); return true; }
    bool createIndex(const Key& k, size_t) override { idx = keyJson(k); return true; }
    bool selectDatum(const Key& k, const Key&) override { datum = keyJson(k); done = true; return true; }
    const fdb5::Schema& databaseSchema() const override { return schema; }
    void print(std::ostream& o) const override { o << "Decide"; }
};

static S decisions(const fdb5::Schema& schema, const Value& op) {
    S out = "[";
    for (size_t i = 0; i < op["keys"].size(); ++i) {
        S r;
        try {
            std::vector<Key> prev(3);
            Decide d(prev, schema);
            Value kv = op["keys"][i];
            schema.expand(toKey(kv), d);
            r = d.done ? "[" + d.db + "," + d.idx + "," + d.datum + "]" : S("null");
        }
        catch (std::exception& e) { r = q(e.what()); }
        out += (i ? "," : "") + r;
    }
    out += "]";
    if (has(op, "reqs2")) {
        out += ",\"exp\":[";
        for (size_t i = 0; i < op["reqs2"].size(); ++i) {
            S r;
            try {
                Value rv = op["reqs2"][i];
                std::map<Key, const fdb5::Rule*> m;
                schema.matchDatabase(toReq(rv), m, "");
                std::vector<S> ks;
                for (auto& kr : m) ks.push_back(keyJson(kr.first));
                std::sort(ks.begin(), ks.end());
                for (auto& k : ks) r += (r.empty() ? "" : ",") + k;
                r = "[" + r + "]";
            }
            catch (std::exception& e) { r = q(e.what()); }
            out += (i ? "," : "") + r;
        }
        out += "]";
    }
    if (has(op, "fps")) {
        out += ",\"fp\":[";
        for (size_t i = 0; i < op["fps"].size(); ++i) {
            S r;
            try {
                auto k = schema.matchDatabase(S(op["fps"][i]));
                r = k ? keyJson(*k) : S("null");
            }
            catch (std::exception& e) { r = q(e.what()); }
            out += (i ? "," : "") + r;
        }
        out += "]";
    }
    return out;
}

template <class T>
static S bytesOf(const T& x) {
    eckit::Buffer b(1 << 16);
    eckit::ResizableMemoryStream s(b);
    s << x;
    return S(static_cast<const char*>(b.data()), s.position());
}

template <class T>
static void check(S& bad, const S& what, const T& x, const S& a, const S& b, const S& x1, const S& x2) {
    if (a != b) bad += (bad.empty() ? "" : ",") + q(what + ": " + a.substr(0, 600) + " became " + b.substr(0, 600));
    else if (x1 != x2) bad += (bad.empty() ? "" : ",") + q(what + " is encoded differently after decoding: " + a.substr(0, 600));
}

/// encode, decode, encode again
template <class T, class Show>
static void trip(S& bad, long long& cnt, const S& what, const T& x, Show show) {
    ++cnt;
    S a = bytesOf(x);
    eckit::MemoryStream in(a.data(), a.size());
    std::unique_ptr<T> y_;
    try { y_.reset(new T(in)); }
    catch (std::exception& e) {
        bad += (bad.empty() ? "" : ",") + q(what + " cannot be decoded: " + e.what() + ": " + show(x).substr(0, 600));
        return;
    }
    T& y = *y_;
    check(bad, what, x, show(x), show(y), a, bytesOf(y));
    // nothing may be left: what follows on the stream must still be readable
    eckit::Buffer b(1 << 16);
    eckit::ResizableMemoryStream s(b);
    s << x;
    s << S("sentinel");
    eckit::MemoryStream in2(static_cast<const char*>(b.data()), s.position());
    T z(in2);
    S t;
    in2 >> t;
    if (t != "sentinel") bad += (bad.empty() ? "" : ",") + q(what + ": decoding reads more or less than was encoded: " + show(x));
}

template <class T>
static S printed(const T& x) {
    std::ostringstream o;
    o << x;
    return o.str();
}

static S extra(const S& o, const Value& op) {
    if (o == "io") {   // the fault injector, if preloaded
        auto set = reinterpret_cast<void (*)(const char*)>(::dlsym(RTLD_DEFAULT, "vf_io"));
        auto mark = reinterpret_cast<void (*)(const char*)>(::dlsym(RTLD_DEFAULT, "vf_io_mark"));
        auto count = reinterpret_cast<long (*)(const char*)>(::dlsym(RTLD_DEFAULT, "vf_io_count"));
        if (!set) throw std::runtime_error("driver: iofault is not loaded");
        long c = has(op, "count") ? count(str(op, "count").c_str()) : 0;
        if (has(op, "spec")) set(str(op, "spec").c_str());
        if (has(op, "mark")) mark(str(op, "mark").c_str());
        return "{\"count\":" + n(c) + "}";
    }
    if (o == "schema") {
        S text = str(op, "text");
        std::istringstream in(text);
        fdb5::Schema a(in);
        std::ostringstream d1, d2, d3;
        a.dump(d1);
        S out = "{\"a\":" + decisions(a, op).insert(0, "{\"keys\":") + "}";
        {
            std::istringstream in2(d1.str());
            fdb5::Schema b(in2);
            b.dump(d2);
            out += ",\"b\":" + decisions(b, op).insert(0, "{\"keys\":") + "}";
        }
        S bytes = bytesOf(a);
        {
            eckit::MemoryStream ms(bytes.data(), bytes.size());
            std::unique_ptr<fdb5::Schema> c(eckit::Reanimator<fdb5::Schema>::reanimate(ms));
            c->dump(d3);
            out += ",\"c\":" + decisions(*c, op).insert(0, "{\"keys\":") + "}";
            out += ",\"again\":" + S(bytesOf(*c) == bytes ? "true" : "false");
        }
        return out + ",\"d1\":" + q(d1.str()) + ",\"d2\":" + q(d2.str()) + ",\"d3\":" + q(d3.str()) + "}";
    }
    if (o == "stream") {   // everything that the queries of a handle deliver, through a stream and back
        S bad;
        long long cnt = 0;
        auto showKey = [](const Key& k) { return keyJson(k); };
        for (auto& tr : toolReqs(op)) {
            trip(bad, cnt, "request", tr, [](const fdb5::FDBToolRequest& r) { return printed(r); });
            for (int level = 1; level <= 3; ++level) {
                auto it = F(op).list(tr, false, level);
                fdb5::ListElement e;
                while (it.next(e)) {
                    trip(bad, cnt, "list element", e, [&](const fdb5::ListElement& x) {
                        std::ostringstream os;
                        x.print(os, x.hasLocation(), x.hasLocation(), true, " ");
                        return elemJson(x, op) + os.str();
                    });
                    for (auto& k : e.keys()) trip(bad, cnt, "key", k, showKey);
                    if (e.hasLocation()) {
                        ++cnt;
                        S a = bytesOf(e.location());
                        eckit::MemoryStream in(a.data(), a.size());
                        std::unique_ptr<fdb5::FieldLocation> l(eckit::Reanimator<fdb5::FieldLocation>::reanimate(in));
                        auto show = [](const fdb5::FieldLocation& x) {
                            std::ostringstream os;
                            x.dump(os);
                            return x.fullUri().asRawString() + " " + n(x.offset()) + " " + n(x.length()) + " " + keyJson(x.remapKey()) + os.str();
                        };
                        check(bad, "location", 0, show(e.location()), show(*l), a, bytesOf(*l));
                    }
                }
                auto ax = F(op).axesIterator(tr, level);
                fdb5::AxesElement ae;
                while (ax.next(ae)) {
                    trip(bad, cnt, "axes element", ae, [](const fdb5::AxesElement& x) { return keyJson(x.key()) + axisJson(x.axes()); });
                    for (int v = 1; v <= fdb5::IndexAxis::currentVersion(); ++v) {
                        ++cnt;
                        eckit::Buffer b(1 << 20);
                        eckit::ResizableMemoryStream s(b);
                        ae.axes().encode(s, v);
                        eckit::MemoryStream in(static_cast<const char*>(b.data()), s.position());
                        std::unique_ptr<fdb5::IndexAxis> back_;
                        try { back_.reset(new fdb5::IndexAxis(in, v)); }
                        catch (std::exception& e) {
                            bad += (bad.empty() ? "" : ",") + q("axes version " + n(v) + " cannot be decoded: " + e.what() + ": " + axisJson(ae.axes()).substr(0, 600));
                            continue;
                        }
                        fdb5::IndexAxis& back = *back_;
                        check(bad, "axes version " + n(v), 0, axisJson(ae.axes()), axisJson(back), "", "");
                        if (level == 3 && ae.axes().encodeSize(v) < s.position())
                            bad += (bad.empty() ? "" : ",") + q("axes version " + n(v) + ": encodeSize() is less than what is encoded");
                    }
                }
            }
            if (flag(op, "local", true)) {
                auto st = F(op).stats(tr);
                fdb5::StatsElement se;
                while (st.next(se))
                    trip(bad, cnt, "stats element", se, [](const fdb5::StatsElement& x) {
                        std::ostringstream os;
                        x.indexStatistics.report(os);
                        x.dbStatistics.report(os);
                        return os.str();
                    });
                auto ct = F(op).status(tr);
                fdb5::StatusElement ce;
                while (ct.next(ce)) trip(bad, cnt, "status element", ce, [](const fdb5::StatusElement& x) { return ctrlJson(x); });
                auto wp = F(op).wipe(tr, false, false, false);
                fdb5::WipeElement we;
                while (wp.next(we)) trip(bad, cnt, "wipe element", we, [](const fdb5::WipeElement& x) { return printed(x); });
            }
        }
        for (size_t i = 0; has(op, "keys") && i < op["keys"].size(); ++i) {
            Value kv = op["keys"][i];
            trip(bad, cnt, "key", toKey(kv), showKey);
        }
        return "{\"n\":" + n(cnt) + ",\"bad\":[" + bad + "]}";
    }
    throw std::runtime_error("driver: unknown op " + o);
}
