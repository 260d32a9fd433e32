#include "exec.h"
#include <atomic>
#include <chrono>
#include <csignal>
#include <fstream>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace tse;

static std::string esc(const std::string &s) {
    std::string r = "\"";
    for (char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c == '\n') r += "\\n";
        else if ((unsigned char)c < 32) r += ' ';
        else r += c;
    }
    return r + "\"";
}

bool tse::runCtors(Engine &E, State &st) {
    // static constructors, concretely
    std::vector<std::pair<uint64_t, Func *>> ctors;
    if (auto *g = E.mod->getNamedGlobal("llvm.global_ctors"))
        if (g->hasInitializer())
            if (auto *ca = llvm::dyn_cast<llvm::ConstantArray>(g->getInitializer()))
                for (unsigned i = 0; i < ca->getNumOperands(); i++) {
                    auto *cs = llvm::cast<llvm::ConstantStruct>(ca->getOperand(i));
                    if (auto *f = llvm::dyn_cast<llvm::Function>(cs->getOperand(1)->stripPointerCasts()))
                        ctors.push_back({llvm::cast<llvm::ConstantInt>(cs->getOperand(0))->getZExtValue(), E.getFunc(f)});
                }
    std::stable_sort(ctors.begin(), ctors.end(), [](auto &a, auto &b) { return a.first < b.first; });
    for (auto &c : ctors) {
        E.startFunction(st, c.second, {});
        E.runPath(st);
        if (!E.work.empty()) { fprintf(stderr, "static constructors fork\n"); return false; }
    }
    return true;
}

int main(int argc, char **argv) {
    std::string bc, out = "/dev/stdout", entry = "vp_main";
    int jobs = 8, split = 400;
    double budget = 600;
    bool conc = false;
    Engine E;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto nx = [&]() { return std::string(argv[++i]); };
        if (a == "--out") out = nx();
        else if (a == "--jobs") jobs = atoi(nx().c_str());
        else if (a == "--split") split = atoi(nx().c_str());
        else if (a == "--budget") budget = atof(nx().c_str());
        else if (a == "--entry") entry = nx();
        else if (a == "--real-strings") E.stubStrings = false;
        else if (a == "--opaque-numbers") E.opaqueNumbers = true;
        else if (a == "--max-instrs") E.maxInstrs = strtoull(nx().c_str(), 0, 10);
        else if (a == "--seed") E.seed = strtoull(nx().c_str(), 0, 10);
        else if (a == "-v") E.verbose = true;
        else if (a == "--conc") conc = true;
        else if (a == "--spec" || a == "--instrument" || a == "--max-visits" || a == "--max-events") i++;
        else bc = a;
    }
    auto T0 = std::chrono::steady_clock::now();
    auto el = [&]() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count(); };
    E.load(bc);
    S.init();
    if (conc) return concMain(E, argc, argv);
    auto st = std::make_unique<State>();
    E.initState(*st);
    if (!runCtors(E, *st)) return 3;
    E.paths = 0;
    st->instrs = 0;
    auto *mf = E.mod->getFunction(entry);
    if (!mf) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 3; }
    E.startFunction(*st, E.getFunc(mf), {});
    E.work.push_back(std::move(st));
    // breadth first until there is enough to share
    size_t head = 0;
    {
        std::vector<std::unique_ptr<State>> q;
        q.swap(E.work);
        while (head < q.size() && (int)(q.size() - head) < split && jobs > 1 && el() < budget) {
            auto cur = std::move(q[head++]);
            // run until the state forks or ends
            while (true) {
                bool ended = false;
                try {
                    while (!cur->frames.empty() && E.work.empty()) {
                        E.step(*cur);
                        if (cur->instrs > E.maxInstrs) E.fail(*cur, "operation does not terminate (instruction limit)");
                    }
                    if (cur->frames.empty()) { E.runPath(*cur); ended = true; }
                } catch (StopPath &p) {
                    ended = true;
                    E.totalInstrs += cur->instrs;
                    if (p.e.k == PathEnd::KILLED) E.killed++;
                    else if (p.e.k == PathEnd::ERROR) E.errors++;
                    else E.paths++;
                }
                if (!E.work.empty()) {
                    for (auto &w : E.work) q.push_back(std::move(w));
                    E.work.clear();
                    if (!ended) q.push_back(std::move(cur));
                    break;
                }
                if (ended) break;
            }
        }
        for (size_t i = head; i < q.size(); i++) E.work.push_back(std::move(q[i]));
    }
    std::vector<std::unique_ptr<State>> items;
    items.swap(E.work);
    auto *ctr = (std::atomic<uint64_t> *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    auto *stop = ctr + 1;
    int nw = jobs;
    if (items.size() < (size_t)nw) nw = items.size();
    std::vector<pid_t> pids;
    std::vector<std::string> parts;
    auto dump = [&](const std::string &path, uint64_t left) {
        std::ofstream f(path);
        f << "{\"paths\":" << E.paths << ",\"killed\":" << E.killed << ",\"errors\":" << E.errors << ",\"instrs\":" << E.totalInstrs
          << ",\"forks\":" << E.forks << ",\"branches\":" << E.branchesSym << ",\"asserts_solver\":" << E.assertsSolver << ",\"asserts_folded\":" << E.assertsFolded
          << ",\"queries\":" << S.st.queries << ",\"sat\":" << S.st.sat << ",\"unsat\":" << S.st.unsat << ",\"unknown\":" << S.st.unknown << ",\"cache_hits\":" << S.st.cacheHits
          << ",\"solver_s\":" << S.st.seconds << ",\"left\":" << left << ",\"reach\":{";
        bool c = false;
        for (auto &p : E.reach) { f << (c ? "," : "") << esc(p.first) << ":" << p.second; c = true; }
        f << "},\"havoc\":{";
        c = false;
        for (auto &p : E.havocExt) { f << (c ? "," : "") << esc(llvm::demangle(p.first)) << ":" << p.second; c = true; }
        f << "},\"errmsgs\":{";
        c = false;
        for (auto &p : E.errorMsgs) { f << (c ? "," : "") << esc(p.first) << ":" << p.second; c = true; }
        f << "},\"functions\":[";
        c = false;
        for (auto &p : E.funcs) if (p.second->executed && p.second->defined && !p.second->h) { f << (c ? "," : "") << esc(p.second->name); c = true; }
        f << "],\"violations\":[";
        c = false;
        for (auto &v : E.violations) {
            f << (c ? "," : "") << "{\"msg\":" << esc(v.msg) << ",\"where\":" << esc(v.where) << ",\"inputs\":[";
            bool d = false;
            for (auto &i : v.inputs) { f << (d ? "," : "") << "[" << esc(i.first) << "," << i.second << "]"; d = true; }
            f << "]}";
            c = true;
        }
        f << "],\"samples\":[";
        c = false;
        for (auto &x : E.samples) { f << (c ? "," : "") << x; c = true; }
        f << "]}\n";
    };
    uint64_t nSeen = 0, nextSample = 1;
    auto sample = [&](State &s) {
        // a geometric sample of the explored paths, as concrete inputs
        if (++nSeen < nextSample || E.samples.size() >= 12) return;
        nextSample = nextSample * 3 + 1;
        std::string r = "[";
        bool d = false;
        for (auto &i : s.inputs) { r += std::string(d ? "," : "") + "[" + esc(i.name) + "," + std::to_string(evalE(i.e, s.model)) + "]"; d = true; }
        E.samples.push_back(r + "]");
    };
    auto worker = [&]() -> uint64_t {
        uint64_t left = 0;
        while (true) {
            uint64_t i = ctr->fetch_add(1);
            if (i >= items.size()) break;
            if (el() > budget || stop->load() > 3) { left++; continue; }
            // spread the order a little so that early items cover different prefixes
            E.work.push_back(std::move(items[i]));
            while (!E.work.empty()) {
                if (el() > budget || stop->load() > 3) { left += E.work.size(); E.work.clear(); break; }
                auto s = std::move(E.work.back());
                E.work.pop_back();
                size_t nv = E.violations.size();
                bool ok = E.runPath(*s);
                if (ok) sample(*s);
                if (E.violations.size() != nv) stop->fetch_add(1);
            }
        }
        return left;
    };
    if (nw <= 1) {
        uint64_t left = worker();
        dump(out, left);
        return 0;
    }
    dump(out + ".m", 0);
    // children count from zero
    for (int w = 0; w < nw; w++) {
        pid_t p = ::fork();
        if (p == 0) {
            E.paths = E.killed = E.errors = E.totalInstrs = E.forks = E.branchesSym = E.assertsSolver = E.assertsFolded = 0;
            E.reach.clear(); E.havocExt.clear(); E.errorMsgs.clear(); E.violations.clear(); E.violMsgs.clear();
            S.st = SolverStats();
            for (auto &i : items) if (i) i->instrs = 0;
            uint64_t left = worker();
            dump(out + "." + std::to_string(w), left);
            _exit(0);
        }
        pids.push_back(p);
    }
    int bad = 0;
    for (pid_t p : pids) {
        int s = 0;
        waitpid(p, &s, 0);
        if (!WIFEXITED(s) || WEXITSTATUS(s)) bad++;
    }
    std::ofstream f(out);
    f << "{\"shards\":" << nw << ",\"bad\":" << bad << ",\"items\":" << items.size() << "}\n";
    return bad ? 3 : 0;
}
