// fdbdrv: JSON-lines driver over the public API of fdb5, used by all monitors in /verif.
// Reads one JSON object per line on stdin, writes one JSON object per line on the original stdout.
#include <fcntl.h>
#include "eckit/config/ResourceMgr.h"
#include <signal.h>
#include <string.h>
#include <sys/stat.h>
#include <time.h>
#include <unistd.h>

#include <atomic>
#include <condition_variable>
#include <fstream>
#include <functional>
#include <future>
#include <iostream>
#include <map>
#include <memory>
#include <mutex>
#include <random>
#include <sstream>
#include <thread>

#include "eckit/config/LocalConfiguration.h"
#include "eckit/config/YAMLConfiguration.h"
#include "eckit/exception/Exceptions.h"
#include "eckit/filesystem/PathName.h"
#include "eckit/filesystem/URI.h"
#include "eckit/io/DataHandle.h"
#include "eckit/io/FileHandle.h"
#include "eckit/io/MemoryHandle.h"
#include "eckit/message/Message.h"
#include "eckit/parser/JSONParser.h"
#include "eckit/runtime/Main.h"
#include "eckit/serialisation/MemoryStream.h"
#include "eckit/serialisation/ResizableMemoryStream.h"
#include "eckit/io/Buffer.h"
#include "eckit/utils/MD5.h"
#include "eckit/value/Value.h"
#include "metkit/mars/MarsExpansion.h"
#include "metkit/mars/MarsRequest.h"

#include "fdb5/LibFdb5.h"
#include "fdb5/api/FDB.h"
#include "fdb5/api/fdb_c.h"
#include "fdb5/api/helpers/AxesIterator.h"
#include "fdb5/api/helpers/ControlIterator.h"
#include "fdb5/api/helpers/DumpIterator.h"
#include "fdb5/api/helpers/FDBToolRequest.h"
#include "fdb5/api/helpers/ListElement.h"
#include "fdb5/api/helpers/ListIterator.h"
#include "fdb5/api/helpers/MoveIterator.h"
#include "fdb5/api/helpers/PurgeIterator.h"
#include "fdb5/api/helpers/StatsIterator.h"
#include "fdb5/api/helpers/StatusIterator.h"
#include "fdb5/api/helpers/WipeIterator.h"
#include "fdb5/database/FieldLocation.h"
#include "fdb5/database/IndexAxis.h"
#include "fdb5/database/Key.h"
#include "fdb5/database/WriteVisitor.h"
#include "fdb5/message/MessageArchiver.h"
#include "fdb5/rules/Rule.h"
#include "fdb5/rules/Schema.h"
#include "fdb5/types/Type.h"
#include "fdb5/types/TypesRegistry.h"

using eckit::Value;
using fdb5::FDB;
using fdb5::Key;
using metkit::mars::MarsRequest;

typedef std::string S;

static uint64_t now_ns() {
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return uint64_t(t.tv_sec) * 1000000000ull + t.tv_nsec;
}

//---------------------------------------------------------------------------------------------------- payload
// payload(seed, len): "VFP1" | u32 len | u64 seed | splitmix64 stream; truncated to len.
static uint64_t mix(uint64_t z) {
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
static void payload(uint64_t seed, size_t len, std::vector<char>& out) {
    size_t n = std::max<size_t>(len, 16);
    out.resize((n + 7) / 8 * 8 + 8);
    memcpy(&out[0], "VFP1", 4);
    uint32_t l32 = len;
    memcpy(&out[4], &l32, 4);
    memcpy(&out[8], &seed, 8);
    uint64_t* w = reinterpret_cast<uint64_t*>(&out[0]);
    uint64_t base = mix(seed + 0x1234567);
    for (size_t i = 2; i * 8 < n; ++i) {
        w[i] = mix(base + i * 0x9E3779B97F4A7C15ull);
    }
    out.resize(len);
}

//---------------------------------------------------------------------------------------------------- json out
static S q(const S& s) {
    S o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}
static S n(long long v) { return std::to_string(v); }

static S keyJson(const Key& k) {
    S o = "[";
    bool first = true;
    for (const auto& kv : k) {
        if (!first) o += ",";
        first = false;
        o += "[" + q(kv.first) + "," + q(kv.second) + "]";
    }
    return o + "]";
}

static S errJson(const char* type, const S& what) {
    return "{\"err\":" + q(type) + ",\"what\":" + q(what.substr(0, 1500)) + "}";
}

//---------------------------------------------------------------------------------------------------- json in
static bool has(const Value& v, const char* k) { return v.contains(k) && !v[k].isNil(); }
static S str(const Value& v, const char* k, const S& d = "") { return has(v, k) ? S(v[k]) : d; }
static long long num(const Value& v, const char* k, long long d = 0) { return has(v, k) ? (long long)(v[k]) : d; }
static bool flag(const Value& v, const char* k, bool d = false) { return has(v, k) ? bool(v[k]) : d; }
static uint64_t u64(const Value& v) {
    if (v.isString()) return strtoull(S(v).c_str(), nullptr, 0);
    return uint64_t((long long)v);
}

static Key toKey(const Value& v) {
    Key k;
    for (size_t i = 0; i < v.size(); ++i) {
        k.set(S(v[i][0]), S(v[i][1]));
    }
    return k;
}
// request as [[k,[v,...]],...]
static MarsRequest toReq(const Value& v, const S& verb = "retrieve") {
    MarsRequest r(verb);
    for (size_t i = 0; i < v.size(); ++i) {
        std::vector<S> vals;
        Value l = v[i][1];
        for (size_t j = 0; j < l.size(); ++j) vals.push_back(S(l[j]));
        r.values(S(v[i][0]), vals);
    }
    return r;
}
static std::vector<fdb5::FDBToolRequest> toolReqs(const Value& op) {
    if (flag(op, "all")) return {fdb5::FDBToolRequest(MarsRequest("retrieve"), true, {})};
    if (has(op, "reqs"))
        return fdb5::FDBToolRequest::requestsFromString(str(op, "reqs"), {}, flag(op, "raw", true), "retrieve");
    return {fdb5::FDBToolRequest(toReq(op["req"]))};
}

//---------------------------------------------------------------------------------------------------- state
struct Handle {
    std::unique_ptr<FDB> fdb;
    fdb_handle_t* c = nullptr;
    std::mutex m;
    std::vector<S> events;
    std::mutex em;
    std::vector<std::pair<size_t, std::future<std::shared_ptr<const fdb5::FieldLocation>>>> futs;
};
static std::map<S, std::shared_ptr<Handle>> handles;
static std::mutex handlesMutex;
static std::map<S, std::unique_ptr<eckit::DataHandle>> dhs;
static std::mutex dhMutex;

static std::shared_ptr<Handle> H(const Value& op) {
    std::lock_guard<std::mutex> l(handlesMutex);
    auto it = handles.find(str(op, "h", "0"));
    if (it == handles.end()) throw std::runtime_error("driver: no handle");
    return it->second;
}
static FDB& F(const Value& op) { return *H(op)->fdb; }

static fdb5::Config config(const Value& op) {
    if (!has(op, "config")) {
        if (has(op, "user")) return fdb5::Config(eckit::LocalConfiguration(), eckit::YAMLConfiguration(str(op, "user"))).expandConfig();
        return fdb5::Config().expandConfig();
    }
    eckit::YAMLConfiguration c{str(op, "config")};
    if (has(op, "user")) {
        eckit::YAMLConfiguration u{str(op, "user")};
        fdb5::Config cc(c, u);
        return flag(op, "noexpand") ? cc : cc.expandConfig();
    }
    fdb5::Config cc(c);
    return flag(op, "noexpand") ? cc : cc.expandConfig();
}

//---------------------------------------------------------------------------------------------------- data
// Consumes a data handle; splits it into self-describing records; verifies every byte
static S records(const char* p, size_t len) {
    S o = "[";
    size_t pos = 0;
    bool first = true;
    std::vector<char> exp;
    while (pos < len) {
        if (!first) o += ",";
        first = false;
        if (len - pos >= 16 && memcmp(p + pos, "VFP1", 4) == 0) {
            uint32_t l;
            uint64_t seed;
            memcpy(&l, p + pos + 4, 4);
            memcpy(&seed, p + pos + 8, 8);
            if (l >= 16 && l <= len - pos) {
                payload(seed, l, exp);
                bool ok = memcmp(exp.data(), p + pos, l) == 0;
                o += "[" + q(std::to_string(seed)) + "," + n(l) + "," + (ok ? "1" : "0") + "]";
                pos += l;
                continue;
            }
        }
        o += "[\"garbage\"," + n(len - pos) + ",0]";
        break;
    }
    return o + "]";
}
static S md5(const char* p, size_t len) {
    eckit::MD5 m;
    m.add(p, len);
    return m.digest();
}
static S slurp(eckit::DataHandle& dh, size_t chunk, std::vector<char>& all) {
    eckit::Length est = dh.openForRead();
    eckit::AutoClose closer(dh);
    std::vector<char> buf(chunk);
    long got;
    while ((got = dh.read(buf.data(), buf.size())) > 0) all.insert(all.end(), buf.data(), buf.data() + got);
    S o = "\"est\":" + n(est);
    if (got < 0) throw std::runtime_error("driver: DataHandle::read returned negative");
    return o;
}
static S readOut(eckit::DataHandle& dh, const Value& op) {
    std::vector<char> all;
    S e = slurp(dh, num(op, "chunk", 1 << 20), all);
    S mode = str(op, "mode", "records");
    S o = "{" + e + ",\"n\":" + n(all.size()) + ",\"md5\":" + q(md5(all.data(), all.size()));
    if (mode == "records") o += ",\"rec\":" + records(all.data(), all.size());
    if (mode == "file") {
        std::ofstream f(str(op, "file"), std::ios::binary);
        f.write(all.data(), all.size());
    }
    if (mode == "hex") {
        S h;
        char b[3];
        for (unsigned char c : all) { snprintf(b, 3, "%02x", c); h += b; }
        o += ",\"hex\":" + q(h);
    }
    return o + "}";
}

static S elemJson(const fdb5::ListElement& e, const Value& op) {
    S o = "{\"k\":[";
    for (int i = 0; i < 3; ++i) o += (i ? "," : "") + keyJson(e.keys()[i]);
    o += "]";
    if (e.hasLocation()) {
        o += ",\"uri\":" + q(e.uri().asRawString()) + ",\"furi\":" + q(e.location().fullUri().asRawString()) + ",\"path\":" + q(e.uri().path()) + ",\"off\":" + n(e.offset()) + ",\"len\":" + n(e.length());
        o += ",\"ts\":" + n(e.timestamp());
        if (flag(op, "read")) {
            try {
                std::unique_ptr<eckit::DataHandle> dh(e.location().dataHandle());
                std::vector<char> all;
                slurp(*dh, 1 << 20, all);
                o += ",\"n\":" + n(all.size()) + ",\"rec\":" + records(all.data(), all.size());
                if (flag(op, "md5")) o += ",\"md5\":" + q(md5(all.data(), all.size()));
            }
            catch (std::exception& x) {
                o += ",\"readerr\":" + q(x.what());
            }
        }
    }
    return o + "}";
}

static S axisJson(const fdb5::IndexAxis& a) {
    S o = "{";
    bool f = true;
    for (const auto& kv : a.map()) {
        if (!f) o += ",";
        f = false;
        o += q(kv.first) + ":[";
        bool g = true;
        for (const auto& v : kv.second) {
            if (!g) o += ",";
            g = false;
            o += q(v);
        }
        o += "]";
    }
    return o + "}";
}

static fdb5::ListMode listMode(const S& m) {
    if (m == "dedup") return fdb5::ListMode::Deduplicate;
    if (m == "onlydup") return fdb5::ListMode::OnlyDuplicates;
    return fdb5::ListMode::Full;
}

static fdb5::ControlIdentifiers idents(const Value& v) {
    fdb5::ControlIdentifiers ids;
    for (size_t i = 0; i < v.size(); ++i) {
        S s = v[i];
        if (s == "list") ids |= fdb5::ControlIdentifier::List;
        else if (s == "retrieve") ids |= fdb5::ControlIdentifier::Retrieve;
        else if (s == "archive") ids |= fdb5::ControlIdentifier::Archive;
        else if (s == "wipe") ids |= fdb5::ControlIdentifier::Wipe;
        else if (s == "uniqueroot") ids |= fdb5::ControlIdentifier::UniqueRoot;
        else throw std::runtime_error("driver: ident");
    }
    return ids;
}
static S ctrlJson(const fdb5::ControlElement& e) {
    S o = "{\"key\":" + keyJson(e.key) + ",\"loc\":" + q(e.location.asRawString()) + ",\"ids\":[";
    bool f = true;
    const char* nm[] = {"list", "retrieve", "archive", "wipe", "uniqueroot"};
    int i = 0;
    for (auto id : fdb5::ControlIdentifierList) {
        if (e.controlIdentifiers.enabled(id)) {
            o += S(f ? "" : ",") + q(nm[i]);
            f = false;
        }
        ++i;
    }
    return o + "]}";
}

//---------------------------------------------------------------------------------------------------- barriers
struct Barrier {
    std::mutex m;
    std::condition_variable c;
    size_t n, w = 0, gen = 0;
    explicit Barrier(size_t k) : n(k) {}
    void wait() {
        std::unique_lock<std::mutex> l(m);
        size_t g = gen;
        if (++w == n) { w = 0; ++gen; c.notify_all(); return; }
        c.wait_for(l, std::chrono::seconds(60), [&] { return gen != g; });
    }
};
static Barrier* parBarrier = nullptr;

static const char* wipeType(fdb5::WipeElementType t) {
    switch (t) {
        case fdb5::WipeElementType::ERROR: return "error";
        case fdb5::WipeElementType::CATALOGUE_INFO: return "info";
        case fdb5::WipeElementType::CATALOGUE: return "catalogue";
        case fdb5::WipeElementType::CATALOGUE_INDEX: return "index";
        case fdb5::WipeElementType::CATALOGUE_SAFE: return "catalogue-safe";
        case fdb5::WipeElementType::CATALOGUE_CONTROL: return "control";
        case fdb5::WipeElementType::STORE: return "store";
        case fdb5::WipeElementType::STORE_AUX: return "aux";
        case fdb5::WipeElementType::STORE_SAFE: return "store-safe";
        case fdb5::WipeElementType::UNKNOWN: return "unknown";
    }
    return "?";
}

static S one(const Value& op);
struct Mv {
    std::unique_ptr<fdb5::MoveIterator> it;
    std::vector<fdb5::MoveElement> copied;
    fdb5::MoveElement toc;
    bool sync = false, cleaned = false;
    size_t next = 0;
};
static Mv mv;
static S run(const Value& op);

struct CollectVisitor : public fdb5::WriteVisitor {};

#include "fdbdrv_extra.h"
#include "capi.h"
#include "gribs.h"

static S one(const Value& op) {
    const S o = str(op, "op");
    if (o == "grib") return gextra(o, op);
    if (o == "open" && flag(op, "c")) return copen(op);
    if (o[0] == 'c') {
        S r = cextra(o, op);
        if (!r.empty()) return r;
    }
    if (has(op, "h")) {
        std::shared_ptr<Handle> h;
        {
            std::lock_guard<std::mutex> l(handlesMutex);
            auto it = handles.find(str(op, "h"));
            if (it != handles.end() && it->second->c) {
                h = it->second;
                if (o == "close" || flag(op, "closefirst")) handles.erase(it);
            }
        }
        if (h) return capi(o, op, h);
    }
    if (o == "open") {
        auto h = std::make_shared<Handle>();
        h->fdb = std::make_unique<FDB>(config(op));
        std::lock_guard<std::mutex> l(handlesMutex);
        handles[str(op, "h", "0")] = h;
        return "{}";
    }
    if (o == "close") {
        std::shared_ptr<Handle> h;
        {
            std::lock_guard<std::mutex> l(handlesMutex);
            auto it = handles.find(str(op, "h", "0"));
            if (it == handles.end()) return "{}";
            h = it->second;
            handles.erase(it);
        }
        h->fdb.reset();
        return "{}";
    }
    if (o == "archive") {
        std::vector<char> p;
        auto hh = H(op);
        if (has(op, "hex")) {
            S hx = str(op, "hex");
            for (size_t i = 0; i + 1 < hx.size(); i += 2) p.push_back((char)strtol(hx.substr(i, 2).c_str(), nullptr, 16));
        }
        else payload(u64(op["seed"]), num(op, "len"), p);
        hh->fdb->archive(toKey(op["key"]), p.data(), p.size());
        // the caller's buffer is reusable as soon as archive() returns
        memset(p.data(), 0xEE, p.size());
        return "{}";
    }
    if (o == "archive_file") {
        eckit::FileHandle fh{eckit::PathName(str(op, "file"))};
        if (has(op, "req")) F(op).archive(toReq(op["req"], "archive"), fh);
        else if (flag(op, "mem")) {
            std::ifstream f(str(op, "file"), std::ios::binary);
            std::vector<char> b((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
            F(op).archive(b.data(), b.size());
        }
        else F(op).archive(fh);
        return "{}";
    }
    if (o == "flush") { F(op).flush(); return "{}"; }
    if (o == "dirty") return S("{\"dirty\":") + (F(op).dirty() ? "true" : "false") + "}";
    if (o == "enabled") {
        S r = "{";
        int i = 0;
        const char* nm[] = {"list", "retrieve", "archive", "wipe", "uniqueroot"};
        for (auto id : fdb5::ControlIdentifierList) { r += S(i ? "," : "") + q(nm[i]) + ":" + (F(op).enabled(id) ? "true" : "false"); ++i; }
        return r + "}";
    }
    if (o == "fname") return "{\"name\":" + q(F(op).name()) + "}";
    if (o == "fstats") {
        std::ostringstream os;
        F(op).stats().report(os, "");
        return "{\"text\":" + q(os.str()) + "}";
    }
    if (o == "retrieve") {
        MarsRequest r = has(op, "req") ? toReq(op["req"]) : MarsRequest::parse(str(op, "reqs"));
        if (flag(op, "expand")) {
            metkit::mars::MarsExpansion ex(false, false);
            r = ex.expand(r);
        }
        std::unique_ptr<eckit::DataHandle> dh(F(op).retrieve(r));
        if (has(op, "keep")) {
            std::lock_guard<std::mutex> l(dhMutex);
            dhs[str(op, "keep")] = std::move(dh);
            return "{}";
        }
        return readOut(*dh, op);
    }
    if (o == "readlist" || o == "readuris") {
        std::unique_ptr<eckit::DataHandle> dh;
        if (o == "readlist") {
            auto reqs = toolReqs(op);
            auto it = flag(op, "inspect") ? F(op).inspect(reqs[0].request()) : F(op).list(reqs[0], listMode(str(op, "mode2", "dedup")), 3);
            dh.reset(F(op).read(it, flag(op, "sorted")));
        }
        else {
            std::vector<eckit::URI> uris;
            Value v = op["uris"];
            for (size_t i = 0; i < v.size(); ++i) uris.emplace_back(S(v[i]));
            if (flag(op, "single")) dh.reset(F(op).read(uris[0]));
            else dh.reset(F(op).read(uris, flag(op, "sorted")));
        }
        if (has(op, "keep")) {
            std::lock_guard<std::mutex> l(dhMutex);
            dhs[str(op, "keep")] = std::move(dh);
            return "{}";
        }
        return readOut(*dh, op);
    }
    if (o == "dh") {  // script on a kept data handle
        eckit::DataHandle* dh;
        {
            std::lock_guard<std::mutex> l(dhMutex);
            dh = dhs.at(str(op, "keep")).get();
        }
        S out = "[";
        Value sc = op["script"];
        for (size_t i = 0; i < sc.size(); ++i) {
            S c = sc[i][0];
            S r;
            try {
                if (c == "open") r = n(dh->openForRead());
                else if (c == "close") { dh->close(); r = "null"; }
                else if (c == "read") {
                    std::vector<char> b((long long)sc[i][1] + 8, 0x5A);
                    size_t want = (long long)sc[i][1];
                    long g = dh->read(b.data(), want);
                    bool guard = true;
                    for (size_t z = want; z < b.size(); ++z) if (b[z] != 0x5A) guard = false;
                    r = "[" + n(g) + "," + q(g > 0 ? md5(b.data(), g) : "") + (guard ? "" : ",\"OVERRUN\"") + "]";
                }
                else if (c == "seek") r = n(dh->seek(eckit::Offset((long long)sc[i][1])));
                else if (c == "skip") { dh->skip(eckit::Length((long long)sc[i][1])); r = "null"; }
                else if (c == "pos") r = n(dh->position());
                else if (c == "rewind") { dh->rewind(); r = "null"; }
                else if (c == "size") r = n(dh->size());
                else if (c == "est") r = n(dh->estimate());
                else if (c == "canseek") r = dh->canSeek() ? "true" : "false";
                else if (c == "copy") {
                    eckit::MemoryHandle mh(1024, true);
                    dh->saveInto(mh);
                    r = "[" + n((long long)mh.size()) + "," + q(md5(static_cast<const char*>(mh.data()), mh.size())) + "]";
                }
                else r = q("?");
            }
            catch (std::exception& e) { r = errJson("ex", e.what()); }
            out += (i ? "," : "") + r;
        }
        return "{\"r\":" + out + "]}";
    }
    if (o == "dhfree") {
        std::lock_guard<std::mutex> l(dhMutex);
        dhs.erase(str(op, "keep"));
        return "{}";
    }
    if (o == "list" || o == "inspect") {
        S out = "{\"items\":[";
        bool first = true;
        long long cnt = 0, max = num(op, "max", -1);
        for (auto& tr : toolReqs(op)) {
            auto it = o == "list" ? F(op).list(tr, listMode(str(op, "mode2", "full")), num(op, "level", 3))
                                  : F(op).inspect(tr.request());
            if (flag(op, "closefirst")) {  // iterator must keep working after the handle has gone
                std::lock_guard<std::mutex> l(handlesMutex);
                handles.erase(str(op, "h", "0"));
            }
            fdb5::ListElement e;
            while (it.next(e)) {
                if (max >= 0 && cnt >= max) break;
                ++cnt;
                if (flag(op, "count")) continue;
                out += (first ? "" : ",") + elemJson(e, op);
                first = false;
            }
        }
        return out + "],\"n\":" + n(cnt) + "}";
    }
    if (o == "compact") {
        std::ostringstream os;
        std::pair<size_t, eckit::Length> r{0, 0};
        for (auto& tr : toolReqs(op)) {
            auto it = F(op).list(tr, listMode(str(op, "mode2", "dedup")), 3);
            auto p = it.dumpCompact(os);
            r.first += p.first;
            r.second += p.second;
        }
        return "{\"n\":" + n(r.first) + ",\"bytes\":" + n(r.second) + ",\"text\":" + q(os.str()) + "}";
    }
    if (o == "axes") {
        auto a = F(op).axes(toolReqs(op)[0], num(op, "level", 3));
        return "{\"axes\":" + axisJson(a) + "}";
    }
    if (o == "axesit") {
        auto it = F(op).axesIterator(toolReqs(op)[0], num(op, "level", 3));
        S out = "{\"items\":[";
        bool f = true;
        fdb5::AxesElement e;
        while (it.next(e)) {
            out += S(f ? "" : ",") + "{\"key\":" + keyJson(e.key()) + ",\"axes\":" + axisJson(e.axes()) + "}";
            f = false;
        }
        return out + "]}";
    }
    if (o == "stats") {
        auto it = F(op).stats(toolReqs(op)[0]);
        S out = "{\"items\":[";
        bool f = true;
        fdb5::StatsElement e;
        while (it.next(e)) {
            std::ostringstream a, b;
            e.indexStatistics.report(a);
            e.dbStatistics.report(b);
            out += S(f ? "" : ",") + "{\"index\":" + q(a.str()) + ",\"db\":" + q(b.str()) +
                   ",\"fields\":" + n(e.indexStatistics.fieldsCount()) + ",\"size\":" + n(e.indexStatistics.fieldsSize()) +
                   ",\"dfields\":" + n(e.indexStatistics.duplicatesCount()) + ",\"dsize\":" + n(e.indexStatistics.duplicatesSize()) + "}";
            f = false;
        }
        return out + "]}";
    }
    if (o == "dump") {
        auto it = F(op).dump(toolReqs(op)[0], flag(op, "simple"));
        S out = "{\"items\":[";
        bool f = true;
        fdb5::DumpElement e;
        while (it.next(e)) { out += S(f ? "" : ",") + q(e); f = false; }
        return out + "]}";
    }
    if (o == "status" || o == "control") {
        auto rs = toolReqs(op);
        S out = "{\"items\":[";
        bool f = true;
        fdb5::ControlElement e;
        if (o == "status") {
            auto it = F(op).status(rs[0]);
            while (it.next(e)) { out += S(f ? "" : ",") + ctrlJson(e); f = false; }
        }
        else {
            auto it = F(op).control(rs[0], str(op, "action") == "enable" ? fdb5::ControlAction::Enable : fdb5::ControlAction::Disable, idents(op["ids"]));
            while (it.next(e)) { out += S(f ? "" : ",") + ctrlJson(e); f = false; }
        }
        return out + "]}";
    }
    if (o == "wipe") {
        auto it = F(op).wipe(toolReqs(op)[0], flag(op, "doit"), flag(op, "porcelain"), flag(op, "unsafe"));
        S out = "{\"items\":[";
        bool f = true;
        fdb5::WipeElement e;
        while (it.next(e)) {
            out += S(f ? "" : ",") + "{\"type\":" + q(wipeType(e.type())) + ",\"msg\":" + q(e.msg()) + ",\"uris\":[";
            f = false;
            bool g = true;
            for (const auto& u : e.uris()) { out += S(g ? "" : ",") + q(u.asRawString()); g = false; }
            out += "]}";
        }
        return out + "]}";
    }
    if (o == "purge") {
        auto it = F(op).purge(toolReqs(op)[0], flag(op, "doit"), flag(op, "porcelain"));
        S out = "{\"items\":[";
        bool f = true;
        fdb5::PurgeElement e;
        while (it.next(e)) { out += S(f ? "" : ",") + q(e); f = false; }
        return out + "]}";
    }
    if (o == "move") {
        auto it = F(op).move(toolReqs(op)[0], eckit::URI(str(op, "dest")));
        long long c = 0;
        fdb5::MoveElement e;
        std::vector<fdb5::MoveElement> copied;
        bool gotSync = false;
        while (it.next(e)) {  // the protocol of fdb-move: copy all; the TOC last; then remove the source
            ++c;
            if (e.sync()) { gotSync = true; break; }
            e.execute();
            copied.push_back(e);
        }
        if (gotSync) {
            e.execute();
            if (!flag(op, "keep")) {
                e.cleanup();
                for (auto& x : copied) x.cleanup();
                fdb5::MoveElement r;
                while (it.next(r)) r.cleanup();
            }
        }
        return "{\"n\":" + n(c) + "}";
    }
    if (o == "mv") {  // the same protocol, one step at a time
        auto act = str(op, "act");
        if (act == "begin") {
            mv = Mv();
            mv.it = std::make_unique<fdb5::MoveIterator>(F(op).move(toolReqs(op)[0], eckit::URI(str(op, "dest"))));
            return "{}";
        }
        ASSERT(mv.it);
        long long k = num(op, "n", 1), c = 0;
        fdb5::MoveElement e;
        if (act == "copy") {
            while (c < k && !mv.sync && mv.it->next(e)) {
                if (e.sync()) { mv.sync = true; mv.toc = e; break; }
                e.execute();
                mv.copied.push_back(e);
                ++c;
            }
            return "{\"n\":" + n(c) + ",\"sync\":" + (mv.sync ? "true" : "false") + "}";
        }
        if (act == "toc") { ASSERT(mv.sync); mv.toc.execute(); return "{}"; }
        if (act == "clean") {
            for (; c < k; ++c) {
                if (!mv.cleaned) { mv.toc.cleanup(); mv.cleaned = true; }
                else if (mv.next < mv.copied.size()) mv.copied[mv.next++].cleanup();
                else if (mv.it->next(e)) e.cleanup();
                else break;
            }
            return "{\"n\":" + n(c) + "}";
        }
        if (act == "drop") { mv = Mv(); return "{}"; }
    }
    if (o == "reindex") {  // locate every field of req in handle "from", index it in handle "h"
        Value fop = op["from"];
        auto it = F(fop).inspect(toReq(fop["req"]));
        fdb5::ListElement e;
        long long c = 0;
        while (it.next(e)) {
            Key k = e.combinedKey();
            if (has(op, "set")) for (size_t i = 0; i < op["set"].size(); ++i) k.set(S(op["set"][i][0]), S(op["set"][i][1]));
            F(op).reindex(k, e.location());
            ++c;
        }
        return "{\"n\":" + n(c) + "}";
    }
    if (o == "callbacks") {
        auto h = H(op);
        Handle* hp = h.get();
        if (flag(op, "archive", true))
            h->fdb->registerArchiveCallback([hp](const Key& k, const void* d, size_t l, std::future<std::shared_ptr<const fdb5::FieldLocation>> f) {
                S s = "{\"t\":\"a\",\"ns\":" + n(now_ns()) + ",\"key\":" + keyJson(k) + ",\"rec\":" + records(static_cast<const char*>(d), l) + ",\"len\":" + n(l);
                std::lock_guard<std::mutex> g(hp->em);
                s += ",\"idx\":" + n(hp->events.size()) + "}";
                hp->futs.emplace_back(hp->events.size(), std::move(f));
                hp->events.push_back(s);
            });
        std::vector<S> probe;    // operations run inside the flush callback
        if (has(op, "probe")) for (size_t i = 0; i < op["probe"].size(); ++i) probe.push_back(S(op["probe"][i]));
        if (flag(op, "flush", true))
            h->fdb->registerFlushCallback([hp, probe]() {
                S pr;
                for (auto& x : probe) pr += (pr.empty() ? "" : ",") + run(eckit::JSONParser::decodeString(x));
                std::lock_guard<std::mutex> g(hp->em);
                hp->events.push_back("{\"t\":\"f\",\"ns\":" + n(now_ns()) + ",\"idx\":" + n(hp->events.size()) + ",\"probe\":[" + pr + "]}");
            });
        return "{}";
    }
    if (o == "events") {
        auto h = H(op);
        std::lock_guard<std::mutex> g(h->em);
        S out = "{\"events\":[";
        for (size_t i = 0; i < h->events.size(); ++i) out += (i ? "," : "") + h->events[i];
        out += "],\"locs\":[";
        bool f = true;
        for (auto& pr : h->futs) {
            S r;
            if (!pr.second.valid()) continue;
            if (pr.second.wait_for(std::chrono::seconds(num(op, "wait", 10))) != std::future_status::ready) r = "\"timeout\"";
            else {
                try {
                    auto loc = pr.second.get();
                    if (!loc) r = "null";
                    else {
                        r = "{\"uri\":" + q(loc->uri().asRawString()) + ",\"off\":" + n(loc->offset()) + ",\"len\":" + n(loc->length());
                        if (flag(op, "read")) {
                            std::unique_ptr<eckit::DataHandle> dh(loc->dataHandle());
                            std::vector<char> all;
                            slurp(*dh, 1 << 20, all);
                            r += ",\"rec\":" + records(all.data(), all.size());
                        }
                        r += "}";
                    }
                }
                catch (std::exception& e) { r = errJson("ex", e.what()); }
            }
            out += S(f ? "" : ",") + "[" + n(pr.first) + "," + r + "]";
            f = false;
        }
        if (flag(op, "clear", true)) { h->events.clear(); h->futs.clear(); }
        return out + "]}";
    }
    if (o == "env") {
        if (has(op, "v")) ::setenv(str(op, "k").c_str(), str(op, "v").c_str(), 1);
        else ::unsetenv(str(op, "k").c_str());
        return "{}";
    }
    if (o == "sleep") { ::usleep(num(op, "us")); return "{}"; }
    if (o == "now") return "{\"ns\":" + n(now_ns()) + "}";
    if (o == "barrier") { if (parBarrier) parBarrier->wait(); return "{}"; }
    if (o == "exit") { ::_exit(num(op, "code", 0)); }
    if (o == "par") {
        Value t = op["threads"];
        size_t k = t.size();
        Barrier b(k);
        parBarrier = &b;
        std::vector<S> res(k);
        std::vector<std::thread> th;
        // Values are refcounted without synchronisation: parse each thread's ops separately from text
        std::vector<S> texts;
        for (size_t i = 0; i < k; ++i) texts.push_back(S(t[i]));
        for (size_t i = 0; i < k; ++i)
            th.emplace_back([&, i] {
                // 'lines': one JSON document per line
                std::istringstream is(texts[i]);
                S line, out = "[";
                bool f = true;
                std::vector<Value> ops;
                {
                    static std::mutex pm;
                    std::lock_guard<std::mutex> g(pm);
                    while (std::getline(is, line)) ops.push_back(eckit::JSONParser::decodeString(line));
                }
                b.wait();
                for (auto& v : ops) {
                    uint64_t t0 = now_ns();
                    S r = run(v);
                    uint64_t t1 = now_ns();
                    out += S(f ? "" : ",") + "[" + std::to_string(t0) + "," + std::to_string(t1) + "," + r + "]";
                    f = false;
                }
                res[i] = out + "]";
            });
        for (auto& x : th) x.join();
        parBarrier = nullptr;
        S out = "{\"threads\":[";
        for (size_t i = 0; i < k; ++i) out += (i ? "," : "") + res[i];
        return out + "]}";
    }
    return extra(o, op);
}

static S run(const Value& op) {
    try { return one(op); }
    catch (Contract& e) { return errJson("contract", e.what()); }
    catch (CFailed& e) { return errJson("C", e.what()); }
    catch (eckit::UserError& e) { return errJson("UserError", e.what()); }
    catch (eckit::AssertionFailed& e) { return errJson("Assert", e.what()); }
    catch (eckit::SeriousBug& e) { return errJson("SeriousBug", e.what()); }
    catch (eckit::Exception& e) { return errJson("eckit", e.what()); }
    catch (std::exception& e) { return errJson("std", e.what()); }
    catch (...) { return errJson("unknown", ""); }
}

// Access to a private setter: the only way to give values to resources that have no environment variable
typedef void (eckit::ResourceMgr::*ResSet)(const S&, const S&);
template <ResSet M> struct Rob { friend ResSet resSet() { return M; } };
ResSet resSet();
template struct Rob<&eckit::ResourceMgr::set>;

static Value op0() { return eckit::JSONParser::decodeString("{}"); }

int main(int argc, char** argv) {
    ::signal(SIGPIPE, SIG_IGN);
    int ofd = ::dup(1);
    ::fcntl(ofd, F_SETFD, FD_CLOEXEC);
    ::dup2(2, 1);
    FILE* out = fdopen(ofd, "w");
    eckit::Main::initialise(argc, argv);
    if (const char* rs = getenv("VF_RES")) {  // name=value;name=value: eckit resources
        std::istringstream is(rs);
        S kv;
        while (std::getline(is, kv, ';')) {
            auto p = kv.find('=');
            if (p != S::npos) (eckit::ResourceMgr::instance().*resSet())(kv.substr(0, p), kv.substr(p + 1));
        }
    }
    if (getenv("VF_READY")) { fputs("{\"ready\":1}\n", out); fflush(out); }
    S line;
    bool clean = false;
    while (std::getline(std::cin, line)) {
        if (line.empty()) continue;
        S r;
        uint64_t t0 = now_ns();
        try {
            Value v = eckit::JSONParser::decodeString(line);
            if (v.contains("op") && S(v["op"]) == "quit") { clean = true; break; }
            r = run(v);
        }
        catch (std::exception& e) { r = errJson("driver", e.what()); }
        uint64_t t1 = now_ns();
        S o = "[" + std::to_string(t0) + "," + std::to_string(t1) + "," + r + "]\n";
        fputs(o.c_str(), out);
        fflush(out);
    }
    try {
        dhs.clear();
        creaders.clear();
        for (auto& h : handles)
            if (h.second->c) capi("close", op0(), h.second);
        handles.clear();
    }
    catch (std::exception& e) {
        fputs(("{\"closeerr\":" + q(e.what()) + "}\n").c_str(), out);
        fflush(out);
    }
    fputs("{\"bye\":1}\n", out);
    fflush(out);
    return 0;
}
