// Entry point shared by all the monitor binaries.
#include "vf.hpp"

#include <algorithm>
#include <exception>
#include <fcntl.h>
#include <sys/mman.h>
#include <thread>
#include <unistd.h>

// The number of threads the library believes to be available is set by the
// harness, so that the multi-threaded code paths are used whatever the host is.
unsigned std::thread::hardware_concurrency() noexcept
{
    const char *e = std::getenv("VF_HC");
    return e ? static_cast<unsigned>(std::atoi(e)) : 4u;
}

namespace
{

std::string jstr(const std::string &s)
{
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            r += '\\';
            r += static_cast<char>(c);
        } else if (c == '\n') {
            r += "\\n";
        } else if (c < 0x20 || c >= 0x7f) {
            char b[8];
            std::snprintf(b, sizeof(b), "\\u%04x", c);
            r += b;
        } else {
            r += static_cast<char>(c);
        }
    }
    return r + "\"";
}

} // namespace

int main(int argc, char **argv)
{
    std::string out, progress, only;
    vf::u64 seed = 1, shard = 0, nshards = 1, only_idx = ~vf::u64(0), scale_num = 1, scale_den = 1;
    std::string skip_wl;
    vf::u64 skip_idx = 0;
    bool thorough = false, list = false, have_skip = false;
    for (int i = 1; i < argc; ++i) {
        const std::string a = argv[i];
        auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--out") {
            out = val();
        } else if (a == "--progress") {
            progress = val();
        } else if (a == "--seed") {
            seed = std::strtoull(val().c_str(), nullptr, 10);
        } else if (a == "--shard") {
            shard = std::strtoull(val().c_str(), nullptr, 10);
        } else if (a == "--nshards") {
            nshards = std::strtoull(val().c_str(), nullptr, 10);
        } else if (a == "--thorough") {
            thorough = true;
        } else if (a == "--only") {
            only = val();
        } else if (a == "--idx") {
            only_idx = std::strtoull(val().c_str(), nullptr, 10);
        } else if (a == "--after") {
            skip_wl = val();
            skip_idx = std::strtoull(val().c_str(), nullptr, 10);
            have_skip = true;
        } else if (a == "--scale") {
            scale_num = std::strtoull(val().c_str(), nullptr, 10);
            scale_den = std::strtoull(val().c_str(), nullptr, 10);
        } else if (a == "--list") {
            list = true;
        } else {
            std::fprintf(stderr, "unknown argument %s\n", a.c_str());
            return 2;
        }
    }

    auto &wls = vf::workloads();
    std::sort(wls.begin(), wls.end(), [](const auto &a, const auto &b) { return a.name < b.name; });
    if (list) {
        for (const auto &w : wls) {
            std::printf("%s %llu %llu\n", w.name.c_str(), static_cast<unsigned long long>(w.n_quick),
                        static_cast<unsigned long long>(w.n_thorough));
        }
        return 0;
    }

    char *prog = nullptr;
    constexpr std::size_t psz = 4096;
    if (!progress.empty()) {
        const int fd = ::open(progress.c_str(), O_RDWR | O_CREAT, 0644);
        if (fd >= 0 && ::ftruncate(fd, psz) == 0) {
            auto *p = ::mmap(nullptr, psz, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            if (p != MAP_FAILED) {
                prog = static_cast<char *>(p);
            }
        }
    }

    vf::u64 cases = 0;
    bool skipping = have_skip;
    for (const auto &w : wls) {
        if (!only.empty() && w.name != only) {
            continue;
        }
        vf::u64 n = thorough ? w.n_thorough : w.n_quick;
        n = std::max<vf::u64>(1, n * scale_num / scale_den);
        for (vf::u64 i = 0; i < n; ++i) {
            if (only_idx != ~vf::u64(0)) {
                if (i > 0) {
                    break;
                }
                i = only_idx;
            } else if (i % nshards != shard) {
                continue;
            }
            if (skipping) {
                if (w.name == skip_wl && i == skip_idx) {
                    skipping = false;
                }
                continue;
            }
            vf::Case c{w.name, i, thorough, vf::Rng(vf::mix64(seed * 1000003u + i) ^ vf::hash_str(w.name))};
            if (prog) {
                std::snprintf(prog, psz, "%s %llu\n", w.name.c_str(), static_cast<unsigned long long>(i));
            }
            try {
                w.f(c);
            } catch (const std::exception &e) {
                c.fail("uncaught", std::string("uncaught exception: ") + e.what());
            } catch (...) {
                c.fail("uncaught", "uncaught unknown exception");
            }
            ++cases;
        }
    }

    auto &r = vf::rec();
    if (!out.empty()) {
        std::FILE *f = std::fopen((out + ".tmp").c_str(), "w");
        if (!f) {
            return 2;
        }
        std::string s = "{\"cases\":" + std::to_string(cases) + ",\"evals\":" + std::to_string(r.evals.load())
                        + ",\"violations\":[";
        bool first = true;
        for (const auto &[k, v] : r.viol) {
            s += (first ? "" : ",");
            first = false;
            s += "{\"key\":" + jstr(v.key) + ",\"msg\":" + jstr(v.msg.substr(0, 4000)) + ",\"workload\":"
                 + jstr(v.workload) + ",\"idx\":" + std::to_string(v.idx) + ",\"count\":" + std::to_string(v.count)
                 + "}";
        }
        s += "],\"counters\":{";
        first = true;
        for (const auto &[k, v] : r.counters) {
            s += (first ? "" : ",");
            first = false;
            s += jstr(k) + ":" + std::to_string(v);
        }
        s += "},\"samples\":[";
        first = true;
        for (const auto &v : r.samples) {
            s += (first ? "" : ",");
            first = false;
            s += jstr(v);
        }
        s += "],\"distinct\":[";
        first = true;
        for (auto v : r.distinct) {
            s += (first ? "" : ",");
            first = false;
            s += std::to_string(v);
        }
        s += "]}\n";
        std::fwrite(s.data(), 1, s.size(), f);
        std::fclose(f);
        std::rename((out + ".tmp").c_str(), out.c_str());
    }
    std::fflush(nullptr);
    return r.viol.empty() ? 0 : 1;
}
