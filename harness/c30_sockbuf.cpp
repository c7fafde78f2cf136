// C30: the socket buffer against a plain string model.
#include "vt.h"
#include <assert.h>
#include "CSocketBuf.h"
using namespace vt;
using lce::CSocketBuf;

static void same(const CSocketBuf &b, const std::string &m, const char *op) {
    if (b.getSize() != (int)m.size()) { fail(fmt("size:%s", op), fmt("size %d, should be %zu", b.getSize(), m.size())); return; }
    if (!m.empty() && memcmp(b.getData(), m.data(), m.size())) fail(fmt("content:%s", op), fmt("content of %zu bytes differs after %s", m.size(), op));
    if (b.getBufSize() < b.getSize()) fail("capacity", "smaller than its content");
}
static void one(Rng &r, uint64_t) {
    static const int I[] = {0, 1, 2, 3, 7, 16, 64, 100, 1000, 4096}, M[] = {0, 1, 2, 5, 16, 17, 64, 100, 1000, 5000, 100000};
    int init = I[r.below(10)], max = M[r.below(11)];
    if (r.chance(80) && max < init) std::swap(init, max);
    std::vector<CSocketBuf *> b; std::vector<std::string> m; std::vector<int> mx;
    b.push_back(new CSocketBuf(init, max)); m.push_back(""); mx.push_back(max);
    uint64_t h = fnv(&init, sizeof init) ^ fnv(&max, sizeof max);
    int n = 20 + (int)r.below(120);
    std::string log = fmt("init %d max %d:", init, max);
    for (int i = 0; i < n; i++) {
        size_t k = r.below(b.size()); CSocketBuf &B = *b[k]; std::string &X = m[k]; int op = (int)r.below(100); h = h * 31 + op / 5;
        const char *name = "";
        count("ops");
        if (op < 35) { // append
            size_t len = r.chance(10) ? (size_t)std::max(0, mx[k] - (int)X.size()) + r.below(3) : r.edge(std::max(4, mx[k] / 2));
            std::string d = r.bytes(len); Exact e(d);
            bool fit = (int64_t)X.size() + (int64_t)len <= mx[k];
            log += fmt(" add%zu", len); cur(log);
            bool ok = B.addData(e.p, (int)len); name = "append";
            VT_CHECK(ok == fit, fit ? "refused" : "accepted", fmt("%zu bytes appended to %zu of at most %d: %d", len, X.size(), mx[k], ok));
            if (ok) X += d; else count("refused");
        } else if (op < 60) { // consume
            size_t len = r.chance(25) ? X.size() : r.chance(30) ? std::min<size_t>(1, X.size()) : r.below(X.size() + 1);
            if (len == 0 && X.empty()) continue;
            log += fmt(" rm%zu", len); cur(log);
            B.removeData((int)len); X.erase(0, len); name = "consume";
            if (X.empty()) count("emptied");
        } else if (op < 85) { // receive in place, as the managers do
            log += " recv"; cur(log);
            if (B.getFreeSize() == 0) B.addFreeBuf();
            int f = B.getFreeSize(); name = "receive";
            int cap = std::max(mx[k], B.getBufSize());
            VT_CHECK(f >= 0, "free", fmt("free size %d", f));
            VT_CHECK(f > 0 || (int)X.size() >= mx[k], "no-room", fmt("no room although %zu of %d are used", X.size(), mx[k]));
            VT_CHECK((int)X.size() + f <= cap, "over-max", fmt("%zu used and %d free exceed %d", X.size(), f, cap));
            if (f > 0) {
                int g = r.chance(30) ? f : 1 + (int)r.below(f); std::string d = r.bytes(g);
                memcpy(B.getFreeBuf(), d.data(), g); memset(B.getFreeBuf() + g, 0x5a, f - g);
                VT_CHECK(B.addData(g), "receive-refused", "bytes written into the free part were refused");
                X += d; count("received");
            } else count("full");
        } else if (op < 90) { log += " reset"; cur(log); B.reset(); X.clear(); name = "reset"; }
        else if (op < 94 && b.size() < 5) { log += " copy"; cur(log); b.push_back(new CSocketBuf(B)); m.push_back(std::string(X)); mx.push_back(mx[k]); name = "copy"; count("copies"); }
        else if (op < 97) { size_t j = r.below(b.size()); log += " assign"; cur(log); *b[j] = B; m[j] = std::string(m[k]); mx[j] = mx[k]; name = "assign"; count("copies"); }
        else if (op < 98 && b.size() < 6) { log += " default"; cur(log); b.push_back(new CSocketBuf()); m.push_back(""); mx.push_back(0); }
        else { log += " addfree"; cur(log); B.addFreeBuf(); name = "grow"; }
        for (size_t j = 0; j < b.size(); j++) same(*b[j], m[j], name);
        VT_CHECK(b[k]->getBufMaxSize() == mx[k], "max", "maximum changed");
        VT_CHECK(b[k]->getBufSize() <= std::max(mx[k], 4096), "grown-past-max", fmt("capacity %d, maximum %d", b[k]->getBufSize(), mx[k]));
    }
    distinct("history", h);
    if (r.chance(1)) sample(log);
    for (size_t j = 0; j < b.size(); j++) delete b[j];
}
int main(int argc, char **argv) { init(argc, argv); cases(one); return done(); }
