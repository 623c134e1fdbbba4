// Replays scripts of calls into the real library and reports what can be
// observed after each call, one JSON object per line.
//
// The input is a sequence of scenarios; every line is one call, written as
// blank-separated tokens (see tools/script.py, which writes them).  Every
// scenario runs in a process of its own, so that a crash or a hang is just one
// more observation.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <sstream>
#include <fstream>
#include <iostream>
#include <memory>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include "lpglobal.h"
#include "complexity.h"
#include "quality.h"
#include "tradeoff.h"
#include "uppertriangularmatrix.h"
#include "ovaluesn.h"
#include "hvaluesn.h"
#include "dvaluesn.h"
#include "oqualities.h"
#include "hqualities.h"
#include "dqualities.h"
#include "opartition.h"
#include "hpartition.h"
#include "dpartition.h"
#include "opartitioner.h"
#include "hpartitioner.h"
#include "dpartitioner.h"
#include "oaggregationn.h"
#include "haggregationn.h"
#include "daggregationn.h"

using namespace std;
using namespace lpaggreg;
typedef long double real;

// Built with -DPAR, every thread has objects of its own and runs a script of
// its own; see parallel().
#ifdef PAR
#include <thread>
#include <atomic>
#define TL thread_local
#else
#define TL
#endif

// ---------------------------------------------------------------- output ---
static TL string out;   // the JSON object of the current call

static void put(const string &s) { out += s; }
static string num(long long v) { return to_string(v); }

// sign, integer part, 15 bits, 15 bits; [] when it is not finite or too big
static string limbs(real x)
{
    if (!std::isfinite(x) || fabsl(x) >= 268435456.0L) return "[]";
    bool neg = x < 0;
    unsigned long long n = (unsigned long long) floorl(fabsl(x) * 1073741824.0L + 0.5L);
    long long l = n & 32767, m = (n >> 15) & 32767, h = n >> 30;
    if (neg) { l = -l; m = -m; h = -h; }
    return "[" + num(h) + "," + num(m) + "," + num(l) + "]";
}

static string strf(float p) { char b[64]; snprintf(b, sizeof b, "%a", (double) p); return b; }

// [a,m,"text",n]: p = a/2^m = n/2^30 with m<=30; a=-1 if that is not enough
// (n is then rounded down)
static string flt(float p)
{
    string t = ",\"" + strf(p) + "\",";
    if (!std::isfinite(p) || p < 0 || p >= 1.99f) return "[-1,0" + t + "0]";
    long long n = (long long) floorl((real) p * 1073741824.0L);
    if ((real) n != (real) p * 1073741824.0L) return "[-1,0" + t + num(n) + "]";
    long long a = n; int m = 30;
    if (a == 0) m = 0;
    while (m > 0 && a % 2 == 0) { a /= 2; m--; }
    return "[" + num(a) + "," + num(m) + t + num(n) + "]";
}

struct Digest
{
    unsigned long long h = 1469598103934665603ULL;
    void add(const string &s) { for (char c : s) { h ^= (unsigned char) c; h *= 1099511628211ULL; } }
    void add(real x) { char b[96]; snprintf(b, sizeof b, "%La;", x); add(string(b)); }
    string str() const { char b[32]; snprintf(b, sizeof b, "\"%016llx\"", h); return b; }
};

// ----------------------------------------------------------------- input ---
struct Tok
{
    vector<string> t; size_t i = 0;
    Tok(const string &line) { istringstream s(line); string w; while (s >> w) t.push_back(w); }
    string s() { if (i >= t.size()) { fprintf(stderr, "short line: %s\n", t.empty() ? "" : t[0].c_str()); exit(97); } return t[i++]; }
    int n() { return atoi(s().c_str()); }
    float f() { return strtof(s().c_str(), 0); }
    real r() { return strtold(s().c_str(), 0); }
    vector<int> ints(int n_) { vector<int> v; for (int k = 0; k < n_; k++) v.push_back(n()); return v; }
    bool end() { return i >= t.size(); }
};

// --------------------------------------------------------------- objects ---
struct Store
{
    char kind; int n, L, I, J, K, T; real mul; vector<int> par;
    shared_ptr<OValuesN1> o1; shared_ptr<OValuesN2> o2; shared_ptr<OValuesN3> o3; shared_ptr<OValuesN4> o4;
    shared_ptr<HValuesN1> h1; shared_ptr<HValuesN2> h2; shared_ptr<HValuesN3> h3; shared_ptr<HValuesN4> h4;
    shared_ptr<DValuesN2> d2; shared_ptr<DValuesN3> d3; shared_ptr<DValuesN4> d4;
    shared_ptr<OValues> ov; shared_ptr<HValues> hv; shared_ptr<DValues> dv;
    void set(int h, int a, int b, int c, int t, double v)
    {
        if (o1) (*o1)(t, v); if (o2) (*o2)(a, t, v); if (o3) (*o3)(a, b, t, v); if (o4) (*o4)(a, b, c, t, v);
        if (h1) (*h1)(h, v); if (h2) (*h2)(h, a, v); if (h3) (*h3)(h, a, b, v); if (h4) (*h4)(h, a, b, c, v);
        if (d2) (*d2)(h, t, v); if (d3) (*d3)(h, a, t, v); if (d4) (*d4)(h, a, b, t, v);
    }
    double get(int h, int a, int b, int c, int t)
    {
        if (o1) return (*o1)(t); if (o2) return (*o2)(a, t); if (o3) return (*o3)(a, b, t); if (o4) return (*o4)(a, b, c, t);
        if (h1) return (*h1)(h); if (h2) return (*h2)(h, a); if (h3) return (*h3)(h, a, b); if (h4) return (*h4)(h, a, b, c);
        if (d2) return (*d2)(h, t); if (d3) return (*d3)(h, a, t); if (d4) return (*d4)(h, a, b, t);
        return NAN;
    }
    double idx(int h, int k, int t)
    {
        if (ov) {
            vector<double> v = o1 ? (*o1)[k] : o2 ? (*o2)[k] : o3 ? (*o3)[k] : (*o4)[k];
            vector<double> w = (*ov)[k];
            return v.at(t) == w.at(t) ? v.at(t) : NAN;
        }
        if (hv) return (*hv)[h][k];
        return (*dv)[h][k].at(t);
    }
};

struct Qual
{
    char kind; int L, T; vector<int> par;
    shared_ptr<OQualities> o; shared_ptr<HQualities> h; shared_ptr<DQualities> d;
    real mul = 1;     // what the scale of the matrix becomes when it is computed
};

struct Part
{
    char kind;
    shared_ptr<OPartition> o; shared_ptr<HPartition> h; shared_ptr<DPartition> d;
};

struct Parter
{
    char kind;
    shared_ptr<OPartitioner> o; shared_ptr<HPartitioner> h; shared_ptr<DPartitioner> d;
    // its matrix; in scenarios where objects are destroyed, the driver does not keep it alive
    oqualities om_; hqualities hm_; dqualities dm_;
    weak_ptr<UpperTriangularMatrix<shared_ptr<Quality> > > ow; weak_ptr<vector<shared_ptr<Quality> > > hw; weak_ptr<vector<oqualities> > dw;
    oqualities om() { return ow.lock(); }
    hqualities hm() { return hw.lock(); }
    dqualities dm() { return dw.lock(); }
    void shares(oqualities o, hqualities h, dqualities d);
    Partitioner *base() { return kind == 'O' ? (Partitioner *) o.get() : kind == 'H' ? (Partitioner *) h.get() : (Partitioner *) d.get(); }
};

static TL map<int, Store> stores;
static TL map<int, Qual> quals;
static TL map<int, Parter> parters;
static TL map<int, Part> parts;
static TL map<const void *, real> scale_;   // matrix -> unit of its entries
static TL vector<shared_ptr<void> > keep;   // matrices stay allocated: an address names one matrix
static TL bool loose = false;               // nothing is kept: objects will be destroyed
void Parter::shares(oqualities o, hqualities h, dqualities d) { ow = o; hw = h; dw = d; if (!loose) { om_ = o; hm_ = h; dm_ = d; } }
static void keeps(shared_ptr<void> m) { if (!loose) keep.push_back(m); }

static real scaleOf(const void *m) { auto it = scale_.find(m); return it == scale_.end() ? 1 : it->second; }

static string q2(Quality &q, real s) { return "[" + limbs(q.getGain() * s) + "," + limbs(q.getLoss() * s) + "]"; }

// ------------------------------------------------------------------ dump ---
static void dumpUtm(oqualities m, real s, Digest &dg)
{
    int n = m->getSize();
    put("[");
    for (int i = 0; i < n; i++) {
        put(i ? ",[" : "[");
        for (int j = i; j < n; j++) {
            if (j > i) put(",");
            Quality q = *(*m)(i, j);
            put(q2(q, s)); dg.add(q.getGain()); dg.add(q.getLoss());
        }
        put("]");
    }
    put("]");
}

static void dumpMat(char kind, oqualities o, hqualities h, dqualities d, const char *name)
{
    Digest dg;
    const void *key = kind == 'O' ? (void *) o.get() : kind == 'H' ? (void *) h.get() : (void *) d.get();
    if (key == 0) { put(string("\"") + name + "\":[],\"dg\":\"null\""); return; }
    real s = scaleOf(key);
    put(string("\"") + name + "\":[");
    if (kind == 'O') dumpUtm(o, s, dg);
    if (kind == 'H') for (size_t k = 0; k < h->size(); k++) {
        Quality q = *(*h)[k];
        put(string(k ? "," : "") + "[[" + q2(q, s) + "]]"); dg.add(q.getGain()); dg.add(q.getLoss());
    }
    if (kind == 'D') for (size_t k = 0; k < d->size(); k++) { if (k) put(","); dumpUtm((*d)[k], s, dg); }
    put("],\"dg\":" + dg.str());
}

static string digestOf(char kind, oqualities o, hqualities h, dqualities d)
{
    string save = out; out.clear();
    dumpMat(kind, o, h, d, "x");
    string r = out.substr(out.rfind("\"dg\":") + 5);
    out = save;
    return r;
}

static string metaJson(HValuesMetaData md)
{
    string r = "{\"hsize\":" + num(md.getHsize()) + ",\"leaves\":" + num(md.getLeaveSize()) + ",\"root\":" + num(md.getRoot());
    auto list = [](vector<int> v) { string s = "["; for (size_t k = 0; k < v.size(); k++) s += (k ? "," : "") + num(v[k]); return s + "]"; };
    r += ",\"parents\":" + list(md.getParents()) + ",\"path\":" + list(md.getPath());
    map<int, int> sz = md.getSize();
    vector<int> keys, vals; for (auto p : sz) { keys.push_back(p.first); vals.push_back(p.second); }
    r += ",\"skeys\":" + list(keys) + ",\"sizes\":" + list(vals) + ",\"children\":[";
    auto ch = md.getChildren();
    for (size_t k = 0; k < ch.size(); k++) r += (k ? "," : "") + list(ch[k]);
    return r + "]}";
}

static string intOf(real x) { real r = roundl(x); if (!std::isfinite(x) || fabsl(x - r) > 1e-6L || fabsl(r) > 2e9L) return "-999999999"; return num((long long) r); }

static void dumpStore(Store &s)
{
    put("\"v\":[");
    bool first = true;
    for (int h = 0; h < s.L; h++) for (int a = 0; a < s.I; a++) for (int b = 0; b < s.J; b++) for (int c = 0; c < s.K; c++) for (int t = 0; t < s.T; t++) {
        put((first ? "" : ",") + intOf(s.get(h, a, b, c, t) / s.mul)); first = false;
    }
    put("],\"idx\":["); first = true;
    int V = s.I * s.J * s.K;
    for (int h = 0; h < s.L; h++) for (int k = 0; k < V; k++) for (int t = 0; t < s.T; t++) {
        put((first ? "" : ",") + intOf(s.idx(h, k, t) / s.mul)); first = false;
    }
    int T = s.ov ? s.ov->getOsize() : s.dv ? s.dv->getOsize() : 1;
    int VV = s.ov ? s.ov->getVsize() : s.hv ? s.hv->getVsize() : s.dv->getVsize();
    int I = s.I, J = s.J, K = s.K;
    if (s.o3) { I = s.o3->getI(); J = s.o3->getJ(); }
    if (s.o4) { I = s.o4->getI(); J = s.o4->getJ(); K = s.o4->getK(); }
    if (s.h3) { I = s.h3->getI(); J = s.h3->getJ(); }
    if (s.h4) { I = s.h4->getI(); J = s.h4->getJ(); K = s.h4->getK(); }
    if (s.d4) { I = s.d4->getI(); J = s.d4->getJ(); }
    put("],\"T\":" + num(T) + ",\"V\":" + num(VV) + ",\"dims\":[" + num(I) + "," + num(J) + "," + num(K) + "]");
    if (s.hv) put(",\"meta\":" + metaJson(s.hv->getMetaData()));
    if (s.dv) put(",\"meta\":" + metaJson(s.dv->getMetaData()));
}

static string opart(OPart p, real s)
{
    Quality q = *p.getQuality();
    return "[0," + num(p.getStart()) + "," + num(p.getEnd()) + "," + num(p.getSize()) + "," + limbs(q.getGain() * s) + "," + limbs(q.getLoss() * s) + ",1," + num(p.getSize()) + "]";
}
static string hpart(HPart p, real s)
{
    Quality q = *p.getQuality();
    return "[" + num(p.getH()) + ",0,0," + num(p.getSize()) + "," + limbs(q.getGain() * s) + "," + limbs(q.getLoss() * s) + "," + num(p.getSize()) + ",1]";
}
static string dpart(DPart p, real s)
{
    Quality q = *p.getQuality();
    return "[" + num(p.getH()) + "," + num(p.getStart()) + "," + num(p.getEnd()) + "," + num(p.getSize()) + "," + limbs(q.getGain() * s) + "," + limbs(q.getLoss() * s) + "," + num(p.getHSize()) + "," + num(p.getOSize()) + "]";
}

static real scaleOfPart(Part &b)
{
    return scaleOf(b.kind == 'O' ? (void *) b.o->getQualities().get() : b.kind == 'H' ? (void *) b.h->getQualities().get() : (void *) b.d->getQualities().get());
}

// fields of one partition, without braces; also the key (structure only)
static string partFields(Part &b)
{
    string r = "\"parts\":["; string key; real s; Quality q; float par; string mdg;
    if (b.kind == 'O') {
        s = scaleOf(b.o->getQualities().get()); auto v = b.o->getParts();
        for (size_t k = 0; k < v.size(); k++) { r += (k ? "," : "") + opart(v[k], s); key += "0:" + num(v[k].getStart()) + ":" + num(v[k].getEnd()) + ";"; }
        q = *b.o->getQuality(); par = b.o->getParameter();
        mdg = digestOf('O', b.o->getQualities(), 0, 0);
    } else if (b.kind == 'H') {
        s = scaleOf(b.h->getQualities().get()); auto v = b.h->getParts();
        for (size_t k = 0; k < v.size(); k++) { r += (k ? "," : "") + hpart(v[k], s); key += num(v[k].getH()) + ":0:0;"; }
        q = *b.h->getQuality(); par = b.h->getParameter();
        mdg = digestOf('H', 0, b.h->getQualities(), 0);
    } else {
        s = scaleOf(b.d->getQualities().get()); auto v = b.d->getParts();
        for (size_t k = 0; k < v.size(); k++) { r += (k ? "," : "") + dpart(v[k], s); key += num(v[k].getH()) + ":" + num(v[k].getStart()) + ":" + num(v[k].getEnd()) + ";"; }
        q = *b.d->getQuality(); par = b.d->getParameter();
        mdg = digestOf('D', 0, 0, b.d->getQualities());
    }
    Digest dq; dq.add(q.getGain()); dq.add(q.getLoss());
    r += "],\"q\":" + q2(q, s) + ",\"p\":" + flt(par) + ",\"key\":\"" + key + "\",\"qdg\":" + dq.str() + ",\"mdg\":" + mdg;
    return r;
}

// the decisions a partition reports, and its hierarchy
static string decFields(Part &b)
{
    string r = ",\"dec\":[";
    if (b.kind == 'O') { auto c = b.o->getCuts(); for (size_t k = 0; k < c.size(); k++) r += (k ? "," : "") + num(c[k]); }
    if (b.kind == 'H') { auto c = b.h->getAggregated(); for (size_t k = 0; k < c.size(); k++) r += (k ? "," : "") + num(c[k] ? 1 : 0); }
    if (b.kind == 'D') {
        auto c = b.d->getCuts();
        for (size_t h = 0; h < c.size(); h++) {
            UpperTriangularMatrix<int> &m = *c[h]; int n = m.getSize(); r += h ? ",[" : "[";
            for (int i = 0; i < n; i++) { r += i ? ",[" : "["; for (int j = i; j < n; j++) r += (j > i ? "," : "") + num(m(i, j)); r += "]"; }
            r += "]";
        }
    }
    r += "]";
    if (b.kind == 'H') r += ",\"meta\":" + metaJson(b.h->getMetaData());
    if (b.kind == 'D') r += ",\"meta\":" + metaJson(b.d->getMetaData());
    return r;
}

static Part bestOf(Parter &p, float x)
{
    Part b; b.kind = p.kind;
    if (p.kind == 'O') b.o = p.o->computeBestPartition(x);
    if (p.kind == 'H') b.h = p.h->computeBestPartition(x);
    if (p.kind == 'D') b.d = p.d->computeBestPartition(x);
    return b;
}

static string mdgOf(Parter &p) { return digestOf(p.kind, p.om(), p.hm(), p.dm()); }

static void dumpLists(Parter &p)
{
    real s = scaleOf(p.kind == 'O' ? (void *) p.om().get() : p.kind == 'H' ? (void *) p.hm().get() : (void *) p.dm().get());
    vector<float> pl = p.base()->getPList();
    put("\"pl\":[");
    for (size_t k = 0; k < pl.size(); k++) put((k ? "," : "") + flt(pl[k]));
    put("],\"parts\":[");
    vector<pair<float, Part> > ps;
    if (p.kind == 'O') for (auto e : p.o->getPartitions()) { Part b; b.kind = 'O'; b.o = e.second; ps.push_back(make_pair(e.first, b)); }
    if (p.kind == 'H') for (auto e : p.h->getPartitions()) { Part b; b.kind = 'H'; b.h = e.second; ps.push_back(make_pair(e.first, b)); }
    if (p.kind == 'D') for (auto e : p.d->getPartitions()) { Part b; b.kind = 'D'; b.d = e.second; ps.push_back(make_pair(e.first, b)); }
    for (size_t k = 0; k < ps.size(); k++) put((k ? "," : "") + string("{\"at\":") + flt(ps[k].first) + "," + partFields(ps[k].second) + "}");
    put("],\"ql\":[");
    bool first = true;
    for (auto e : p.base()->getQualityList()) { put(string(first ? "" : ",") + "[" + flt(e.first) + "," + q2(*e.second, s) + "]"); first = false; }
    put("],\"tu\":["); first = true;
    if (p.kind == 'O') for (auto t : p.o->getPartitionsTuples()) {
        put(string(first ? "" : ",") + "[" + flt(get<0>(t)) + ",[0," + num(get<1>(t)) + "," + num(get<2>(t)) + ",-1," + limbs(get<3>(t) * s) + "," + limbs(get<4>(t) * s) + "]]"); first = false;
    }
    if (p.kind == 'H') for (auto t : p.h->getPartitionsTuples()) {
        put(string(first ? "" : ",") + "[" + flt(get<0>(t)) + ",[" + num(get<1>(t)) + ",0,0," + num(get<2>(t)) + "," + limbs(get<3>(t) * s) + "," + limbs(get<4>(t) * s) + "]]"); first = false;
    }
    if (p.kind == 'D') for (auto t : p.d->getPartitionsTuples()) {
        put(string(first ? "" : ",") + "[" + flt(get<0>(t)) + ",[" + num(get<1>(t)) + "," + num(get<3>(t)) + "," + num(get<4>(t)) + "," + num(get<2>(t)) + "," + limbs(get<5>(t) * s) + "," + limbs(get<6>(t) * s) + "]]"); first = false;
    }
    put("]");
}

// ------------------------------------------------------------- the calls ---
static void opStore(Tok &k)
{
    int sid = k.n(); Store s; string kd = k.s(); s.kind = kd[0]; s.n = k.n(); string ctor = k.s();
    s.L = k.n(); s.I = k.n(); s.J = k.n(); s.K = k.n(); s.T = k.n(); s.mul = strtod(k.s().c_str(), 0);
    int hs = k.n(); s.par = k.ints(hs);
    bool vec = ctor == "vec";
    // nested arrays [leaf][a][b][c][t]
    vector<vector<vector<vector<vector<double> > > > > A;
    if (vec) {
        for (int h = 0; h < s.L; h++) { A.push_back(vector<vector<vector<vector<double> > > >());
        for (int a = 0; a < s.I; a++) { A[h].push_back(vector<vector<vector<double> > >());
        for (int b = 0; b < s.J; b++) { A[h][a].push_back(vector<vector<double> >());
        for (int c = 0; c < s.K; c++) { A[h][a][b].push_back(vector<double>());
        for (int t = 0; t < s.T; t++) A[h][a][b][c].push_back((double) (k.n() * s.mul)); } } } }
    }
    if (s.kind == 'O') {
        if (s.n == 1) s.ov = s.o1 = vec ? make_shared<OValuesN1>(A[0][0][0][0]) : make_shared<OValuesN1>((unsigned) s.T);
        if (s.n == 2) { vector<vector<double> > v; if (vec) for (int a = 0; a < s.I; a++) v.push_back(A[0][a][0][0]);
            s.ov = s.o2 = vec ? make_shared<OValuesN2>(v) : make_shared<OValuesN2>(s.I, s.T); }
        if (s.n == 3) { vector<vector<vector<double> > > v; if (vec) for (int a = 0; a < s.I; a++) { v.push_back(vector<vector<double> >()); for (int b = 0; b < s.J; b++) v[a].push_back(A[0][a][b][0]); }
            s.ov = s.o3 = vec ? make_shared<OValuesN3>(v) : make_shared<OValuesN3>(s.I, s.J, s.T); }
        if (s.n == 4) s.ov = s.o4 = vec ? make_shared<OValuesN4>(A[0]) : make_shared<OValuesN4>(s.I, s.J, s.K, s.T);
    }
    if (s.kind == 'H') {
        if (s.n == 1) { vector<double> v; if (vec) for (int h = 0; h < s.L; h++) v.push_back(A[h][0][0][0][0]);
            s.hv = s.h1 = vec ? make_shared<HValuesN1>(v, s.par) : make_shared<HValuesN1>((unsigned) s.L, s.par); }
        if (s.n == 2) { vector<vector<double> > v; if (vec) for (int h = 0; h < s.L; h++) { v.push_back(vector<double>()); for (int a = 0; a < s.I; a++) v[h].push_back(A[h][a][0][0][0]); }
            s.hv = s.h2 = vec ? make_shared<HValuesN2>(v, s.par) : make_shared<HValuesN2>(s.L, s.I, s.par); }
        if (s.n == 3) { vector<vector<vector<double> > > v; if (vec) for (int h = 0; h < s.L; h++) { v.push_back(vector<vector<double> >()); for (int a = 0; a < s.I; a++) { v[h].push_back(vector<double>()); for (int b = 0; b < s.J; b++) v[h][a].push_back(A[h][a][b][0][0]); } }
            s.hv = s.h3 = vec ? make_shared<HValuesN3>(v, s.par) : make_shared<HValuesN3>(s.L, s.I, s.J, s.par); }
        if (s.n == 4) { vector<vector<vector<vector<double> > > > v; if (vec) for (int h = 0; h < s.L; h++) { v.push_back(vector<vector<vector<double> > >()); for (int a = 0; a < s.I; a++) { v[h].push_back(vector<vector<double> >()); for (int b = 0; b < s.J; b++) { v[h][a].push_back(vector<double>()); for (int c = 0; c < s.K; c++) v[h][a][b].push_back(A[h][a][b][c][0]); } } }
            s.hv = s.h4 = vec ? make_shared<HValuesN4>(v, s.par) : make_shared<HValuesN4>(s.L, s.I, s.J, s.K, s.par); }
    }
    if (s.kind == 'D') {
        if (s.n == 2) { vector<vector<double> > v; if (vec) for (int h = 0; h < s.L; h++) v.push_back(A[h][0][0][0]);
            s.dv = s.d2 = vec ? make_shared<DValuesN2>(v, s.par) : make_shared<DValuesN2>(s.L, s.T, s.par); }
        if (s.n == 3) { vector<vector<vector<double> > > v; if (vec) for (int h = 0; h < s.L; h++) { v.push_back(vector<vector<double> >()); for (int a = 0; a < s.I; a++) v[h].push_back(A[h][a][0][0]); }
            s.dv = s.d3 = vec ? make_shared<DValuesN3>(v, s.par) : make_shared<DValuesN3>(s.L, s.I, s.T, s.par); }
        if (s.n == 4) { vector<vector<vector<vector<double> > > > v; if (vec) for (int h = 0; h < s.L; h++) { v.push_back(vector<vector<vector<double> > >()); for (int a = 0; a < s.I; a++) { v[h].push_back(vector<vector<double> >()); for (int b = 0; b < s.J; b++) v[h][a].push_back(A[h][a][b][0]); } }
            s.dv = s.d4 = vec ? make_shared<DValuesN4>(v, s.par) : make_shared<DValuesN4>(s.L, s.I, s.J, s.T, s.par); }
    }
    stores[sid] = s;
    dumpStore(stores[sid]);
}

static void opFill(Tok &k)
{
    // fill sid order values..., through the setter, in one of several orders
    Store &s = stores.at(k.n()); int order = k.n();
    int n = s.L * s.I * s.J * s.K * s.T;
    vector<int> v = k.ints(n), ix(n);
    for (int e = 0; e < n; e++) ix[e] = order == 0 ? e : order == 1 ? n - 1 - e : (int) ((e * 7919LL + 3) % n);
    vector<bool> done(n, false);
    auto write = [&](int x) {
        int y = x; int t = y % s.T; y /= s.T; int c = y % s.K; y /= s.K; int b = y % s.J; y /= s.J; int a = y % s.I; int h = y / s.I;
        s.set(h, a, b, c, t, (double) (v[x] * s.mul)); done[x] = true;
    };
    for (int x : ix) write(x);
    for (int x = 0; x < n; x++) if (!done[x]) write(x);
    dumpStore(s);
}

static void noteMatrix(Qual &q, real sc)
{
    if (q.o) { auto m = q.o->getQualities(); if (m) { scale_[m.get()] = sc; keeps(m); } }
    if (q.h) { auto m = q.h->getQualities(); if (m) { scale_[m.get()] = sc; keeps(m); } }
    if (q.d) { auto m = q.d->getQualities(); if (m) { scale_[m.get()] = sc; keeps(m); } }
}
static void dumpQual(Qual &q)
{
    dumpMat(q.kind, q.o ? q.o->getQualities() : oqualities(), q.h ? q.h->getQualities() : hqualities(), q.d ? q.d->getQualities() : dqualities(), "mat");
    bool has = (q.o && q.o->getQualities()) || (q.h && q.h->getQualities()) || (q.d && q.d->getQualities());
    put(",\"size\":" + num(!has ? -1 : q.o ? q.o->size() : q.h ? q.h->size() : q.d->size()));
    if (q.h) put(",\"meta\":" + metaJson(q.h->getMetaData()));
    if (q.d) put(",\"meta\":" + metaJson(q.d->getMetaData()));
}

static void opQualm(Tok &k)
{
    int qid = k.n(); Qual q; q.kind = k.s()[0]; q.L = k.n(); q.T = k.n(); real den = k.r(); int hs = k.n(); q.par = k.ints(hs);
    dqualities d(new vector<oqualities>());
    for (int h = 0; h < hs; h++) {
        oqualities u(new UpperTriangularMatrix<shared_ptr<Quality> >(q.T));
        for (int i = 0; i < q.T; i++) for (int j = i; j < q.T; j++) { int g = k.n(), l = k.n(); (*u)(i, j, shared_ptr<Quality>(new Quality(g / den, l / den))); }
        d->push_back(u);
    }
    if (q.kind == 'O') q.o = make_shared<OQualities>((*d)[0]);
    if (q.kind == 'H') { hqualities h(new vector<shared_ptr<Quality> >()); for (auto u : *d) h->push_back((*u)(0, 0)); q.h = make_shared<HQualities>(h, HValuesMetaData(q.L, q.par)); }
    if (q.kind == 'D') q.d = make_shared<DQualities>(d, HValuesMetaData(q.L, q.par));
    q.mul = 1 / den;
    noteMatrix(q, den);
    quals[qid] = q;
    dumpQual(quals[qid]);
}

static void opParter(Tok &k)
{
    int pid = k.n(); Qual &q = quals.at(k.n()); string mode = k.s();
    Parter p; p.kind = q.kind; bool obj = mode == "obj";
    if (q.o) { auto m = q.o->getQualities(); p.shares(m, 0, 0); p.o = obj ? make_shared<OPartitioner>(*q.o) : make_shared<OPartitioner>(m); }
    if (q.h) { auto m = q.h->getQualities(); p.shares(0, m, 0); p.h = obj ? make_shared<HPartitioner>(*q.h) : make_shared<HPartitioner>(m, q.h->getMetaData()); }
    if (q.d) { auto m = q.d->getQualities(); p.shares(0, 0, m); p.d = obj ? make_shared<DPartitioner>(*q.d) : make_shared<DPartitioner>(m, q.d->getMetaData()); }
    parters[pid] = p;
    put("\"mdg\":" + mdgOf(p));
}

static void opPart(Tok &k)
{
    // a partition built from decisions
    int bid = k.n(); Qual &q = quals.at(k.n()); float p = k.f(); Part b; b.kind = q.kind;
    if (q.o) { b.o = make_shared<OPartition>(k.ints(q.T), q.o->getQualities(), p); }
    if (q.h) { vector<int> f = k.ints(q.par.size()); vector<bool> ag(f.begin(), f.end()); b.h = make_shared<HPartition>(ag, q.h->getQualities(), p, q.h->getMetaData()); }
    if (q.d) {
        vector<shared_ptr<UpperTriangularMatrix<int> > > cuts;
        for (size_t h = 0; h < q.par.size(); h++) {
            shared_ptr<UpperTriangularMatrix<int> > u(new UpperTriangularMatrix<int>(q.T));
            for (int i = 0; i < q.T; i++) for (int j = i; j < q.T; j++) (*u)(i, j, k.n());
            cuts.push_back(u);
        }
        b.d = make_shared<DPartition>(cuts, q.d->getQualities(), p, q.d->getMetaData());
    }
    parts[bid] = b;
    put("\"ask\":" + flt(p) + "," + partFields(parts[bid]) + decFields(parts[bid]));
}

template<typename A> static string flat1(const A &v, real m) { string r = "["; for (size_t k = 0; k < v.size(); k++) r += (k ? "," : "") + limbs(v[k] / m); return r + "]"; }
static void fl(string &r, double v, real m) { if (r.size() > 1) r += ","; r += limbs(v / m); }
template<typename A> static void fl(string &r, const vector<A> &v, real m) { for (auto &e : v) fl(r, e, m); }
template<typename A> static string flat(const A &v, real m) { string r = "["; fl(r, v, m); return r + "]"; }

static TL real aggScale = 1;      // that of the qualities of the partition
template<typename AG> static void dumpAgg(AG &ag, real m)
{
    put("\"agg\":["); bool first = true;
    for (auto &a : ag.getAggregates()) {
        auto p = a.getPart(); Quality dummy;
        put((first ? "" : ",") + string("{\"sum\":") + flat(a.getSum(), m) + ",\"mean\":" + flat(a.getMean(), m) + ",\"part\":"); first = false;
        struct F { static string s(OPart x) { return opart(x, aggScale); } static string s(HPart x) { return hpart(x, aggScale); } static string s(DPart x) { return dpart(x, aggScale); } };
        string t = F::s(p); put(t + "}");
    }
    put("]");
}

// an aggregation that is kept and read later
struct Agg { shared_ptr<void> p; string (*read)(void *, real); real mul; };
static TL map<int, Agg> aggs;
template<typename AG> static string readAgg(void *p, real m) { string save = out; out.clear(); dumpAgg(*(AG *) p, m); string r = out; out = save; return r; }
// the aggregates alone, without the aggregation they are from
template<typename AG> struct Held
{
    decltype(declval<AG>().getAggregates()) all;
    decltype(declval<AG>().getAggregates()) getAggregates() { return all; }
};
template<typename AG, typename B, typename V> static void keepAgg(int aid, B b, V v, real m)
{
    Agg a; a.mul = m; auto p = make_shared<AG>(b, v);
    if (loose && aid % 2) { auto h = make_shared<Held<AG> >(Held<AG>{p->getAggregates()}); a.p = h; a.read = readAgg<Held<AG> >; }
    else { a.p = p; a.read = readAgg<AG>; }
    aggs[aid] = a;
    put(a.read(a.p.get(), m));
}
static void opAggKeep(Tok &k)
{
    int aid = k.n(); Part &b = parts.at(k.n()); Store &s = stores.at(k.n()); aggScale = scaleOfPart(b);
    if (s.o1) keepAgg<OAggregationN1>(aid, b.o, s.o1, s.mul); if (s.o2) keepAgg<OAggregationN2>(aid, b.o, s.o2, s.mul);
    if (s.o3) keepAgg<OAggregationN3>(aid, b.o, s.o3, s.mul); if (s.o4) keepAgg<OAggregationN4>(aid, b.o, s.o4, s.mul);
    if (s.h1) keepAgg<HAggregationN1>(aid, b.h, s.h1, s.mul); if (s.h2) keepAgg<HAggregationN2>(aid, b.h, s.h2, s.mul);
    if (s.h3) keepAgg<HAggregationN3>(aid, b.h, s.h3, s.mul); if (s.h4) keepAgg<HAggregationN4>(aid, b.h, s.h4, s.mul);
    if (s.d2) keepAgg<DAggregationN2>(aid, b.d, s.d2, s.mul); if (s.d3) keepAgg<DAggregationN3>(aid, b.d, s.d3, s.mul);
    if (s.d4) keepAgg<DAggregationN4>(aid, b.d, s.d4, s.mul);
}

// a copy of a store, of a partitioner or of a partition, made by its class
template<typename A, typename B> static void copyStore(shared_ptr<A> &x, shared_ptr<B> &base) { if (x) { x = make_shared<A>(*x); base = x; } }
static void opCopy(Tok &k)
{
    string what = k.s(); int from = k.n(), to = k.n();
    if (what == "store") {
        Store s = stores.at(from);
        copyStore(s.o1, s.ov); copyStore(s.o2, s.ov); copyStore(s.o3, s.ov); copyStore(s.o4, s.ov);
        copyStore(s.h1, s.hv); copyStore(s.h2, s.hv); copyStore(s.h3, s.hv); copyStore(s.h4, s.hv);
        copyStore(s.d2, s.dv); copyStore(s.d3, s.dv); copyStore(s.d4, s.dv);
        stores[to] = s; dumpStore(stores[to]); return;
    }
    if (what == "parter") {
        Parter p = parters.at(from);
        if (p.o) p.o = make_shared<OPartitioner>(*p.o); if (p.h) p.h = make_shared<HPartitioner>(*p.h); if (p.d) p.d = make_shared<DPartitioner>(*p.d);
        parters[to] = p; dumpLists(parters[to]); put(",\"mdg\":" + mdgOf(p)); return;
    }
    Part b = parts.at(from);
    if (b.o) b.o = make_shared<OPartition>(*b.o); if (b.h) b.h = make_shared<HPartition>(*b.h); if (b.d) b.d = make_shared<DPartition>(*b.d);
    parts[to] = b; put(partFields(parts[to]) + decFields(parts[to]));
}

// the parts of a partition, kept without it
struct Take { vector<OPart> o; vector<HPart> h; vector<DPart> d; real s; };
static TL map<int, Take> takes;
static void dumpTake(Take &t)
{
    put("\"parts\":["); bool first = true;
    for (auto &x : t.o) { put((first ? "" : ",") + opart(x, t.s)); first = false; }
    for (auto &x : t.h) { put((first ? "" : ",") + hpart(x, t.s)); first = false; }
    for (auto &x : t.d) { put((first ? "" : ",") + dpart(x, t.s)); first = false; }
    put("]");
}
static void opTake(Tok &k)
{
    int id = k.n(); Part &b = parts.at(k.n()); Take t; t.s = scaleOfPart(b);
    if (b.o) t.o = b.o->getParts(); if (b.h) t.h = b.h->getParts(); if (b.d) t.d = b.d->getParts();
    takes[id] = t; dumpTake(takes[id]);
}

// an object is destroyed; the driver keeps no other reference to it
static void opDrop(Tok &k)
{
    string what = k.s(); int id = k.n();
    if (what == "store") stores.erase(id);
    if (what == "qual") quals.erase(id);
    if (what == "parter") parters.erase(id);
    if (what == "part") parts.erase(id);
    if (what == "agg") aggs.erase(id);
    if (what == "take") takes.erase(id);
    put("\"ok\":1");
}

static void opAgg(Tok &k)
{
    Part &b = parts.at(k.n()); Store &s = stores.at(k.n()); aggScale = scaleOfPart(b);
    if (s.o1) { OAggregationN1 a(b.o, s.o1); dumpAgg(a, s.mul); } if (s.o2) { OAggregationN2 a(b.o, s.o2); dumpAgg(a, s.mul); }
    if (s.o3) { OAggregationN3 a(b.o, s.o3); dumpAgg(a, s.mul); } if (s.o4) { OAggregationN4 a(b.o, s.o4); dumpAgg(a, s.mul); }
    if (s.h1) { HAggregationN1 a(b.h, s.h1); dumpAgg(a, s.mul); } if (s.h2) { HAggregationN2 a(b.h, s.h2); dumpAgg(a, s.mul); }
    if (s.h3) { HAggregationN3 a(b.h, s.h3); dumpAgg(a, s.mul); } if (s.h4) { HAggregationN4 a(b.h, s.h4); dumpAgg(a, s.mul); }
    if (s.d2) { DAggregationN2 a(b.d, s.d2); dumpAgg(a, s.mul); } if (s.d3) { DAggregationN3 a(b.d, s.d3); dumpAgg(a, s.mul); }
    if (s.d4) { DAggregationN4 a(b.d, s.d4); dumpAgg(a, s.mul); }
}

template<typename P> static string partEq(P a, P b)
{
    auto x = a->getParts(); auto y = b->getParts(); string r = "[";
    for (size_t i = 0; i < x.size() && i < 8; i++) for (size_t j = 0; j < y.size() && j < 8; j++) {
        bool e = x[i] == y[j], n = x[i] != y[j];
        r += string(r.size() > 1 ? "," : "") + "[" + num(i) + "," + num(j) + "," + num(e) + "," + num(n) + "]";
    }
    return r + "]";
}

static void opEq(Tok &k)
{
    Part &a = parts.at(k.n()), &b = parts.at(k.n());
    bool e = false, n = false, e2 = false, n2 = false; string pe;
    if (a.kind == 'O') { e = *a.o == *b.o; n = *a.o != *b.o; e2 = *b.o == *a.o; n2 = *b.o != *a.o; pe = partEq(a.o, b.o); }
    if (a.kind == 'H') { e = *a.h == *b.h; n = *a.h != *b.h; e2 = *b.h == *a.h; n2 = *b.h != *a.h; pe = partEq(a.h, b.h); }
    if (a.kind == 'D') { e = *a.d == *b.d; n = *a.d != *b.d; e2 = *b.d == *a.d; n2 = *b.d != *a.d; pe = partEq(a.d, b.d); }
    put("\"eq\":" + num(e) + ",\"ne\":" + num(n) + ",\"eqr\":" + num(e2) + ",\"ner\":" + num(n2) + ",\"peq\":" + pe);
    put(",\"a\":{" + partFields(a) + "},\"b\":{" + partFields(b) + "}");
}

static void opQarith(Tok &k)
{
    // qarith den g1 l1 g2 l2
    real den = k.r(); real g1 = k.n() / den, l1 = k.n() / den, g2 = k.n() / den, l2 = k.n() / den;
    Quality a(g1, l1), b(g2, l2);
    Quality s = a + b, d = a - b, m = a * b;
    put("\"add\":" + q2(s, 1) + ",\"sub\":" + q2(d, 1) + ",\"mul\":" + q2(m, 1));
    Quality a1(g1, l1), a2(g1, l1), a3(g1, l1); a1 += b; a2 -= b; a3 *= b;
    put(",\"iadd\":" + q2(a1, 1) + ",\"isub\":" + q2(a2, 1) + ",\"imul\":" + q2(a3, 1));
    if (g2 != 0 && l2 != 0) { Quality v = a / b; Quality a4(g1, l1); a4 /= b; put(",\"div\":" + q2(v, 1) + ",\"idiv\":" + q2(a4, 1)); }
    else put(",\"div\":[],\"idiv\":[]");
    put(",\"eq\":" + num(a == b) + ",\"ne\":" + num(a != b) + ",\"a\":" + q2(a, den) + ",\"b\":" + q2(b, den));
    Quality z; z.addToGain(g1); z.addToLoss(l1); z.addToGain(g2); z.addToLoss(l2); put(",\"acc\":" + q2(z, 1));
    Quality w; w.setGain(g1); w.setLoss(l2); put(",\"set\":" + q2(w, 1));
    Quality self(g1, l1); self += self; put(",\"self\":" + q2(self, 1));
    Quality s2(g1, l1); s2 -= s2; put(",\"sself\":" + q2(s2, 1)); Quality s3(g1, l1); s3 *= s3; put(",\"mself\":" + q2(s3, 1));
    Quality s4(g1, l1), s5 = s4 + s4; put(",\"pself\":" + q2(s5, 1) + ",\"eself\":" + num(s4 == s4));
    if (g1 != 0 && l1 != 0) { s4 /= s4; put(",\"dself\":" + q2(s4, 1)); } else put(",\"dself\":[]");
    ostringstream os; os << a; ostringstream ex; ex << "(" << (real) g1 << "," << (real) l1 << ")"; put(",\"str\":" + num(os.str() == ex.str()));
}

static string t3(Tradeoff &t, real s) { return "[" + limbs(t.getValue() * s) + "," + limbs(t.getQuality()->getGain() * s) + "," + limbs(t.getQuality()->getLoss() * s) + "]"; }

static void opTarith(Tok &k)
{
    // tarith v1 g1 l1 v2 g2 l2 p    (integers)
    real v1 = k.n(), g1 = k.n(), l1 = k.n(), v2 = k.n(), g2 = k.n(), l2 = k.n(); float p = k.f();
    shared_ptr<Quality> qa(new Quality(g1, l1)), qb(new Quality(g2, l2));
    Tradeoff a(v1, qa), b(v2, qb);
    Tradeoff s = a + b, d = a - b, m = a * b;
    put("\"add\":" + t3(s, 1) + ",\"sub\":" + t3(d, 1) + ",\"mul\":" + t3(m, 1));
    Tradeoff a1(v1, qa), a2(v1, qa), a3(v1, qa); a1 += b; a2 -= b; a3 *= b;
    put(",\"iadd\":" + t3(a1, 1) + ",\"isub\":" + t3(a2, 1) + ",\"imul\":" + t3(a3, 1));
    if (v2 != 0 && g2 != 0 && l2 != 0) { Tradeoff v = a / b; Tradeoff a4(v1, qa); a4 /= b; put(",\"div\":" + t3(v, 1) + ",\"idiv\":" + t3(a4, 1)); }
    else put(",\"div\":[],\"idiv\":[]");
    put(",\"a\":" + t3(a, 1) + ",\"b\":" + t3(b, 1) + ",\"qa\":" + q2(*qa, 1) + ",\"qb\":" + q2(*qb, 1));
    // from a quality and p: the value, and a copy of the quality
    Tradeoff c(qa, p); Tradeoff e; e.set(qa, p); Tradeoff f(qa);
    put(",\"fromp\":" + t3(c, 1) + ",\"setp\":" + t3(e, 1) + ",\"plain\":" + t3(f, 1));
    c += b; e += b; f += b; a += b;
    put(",\"qkept\":" + q2(*qa, 1));
    qa->addToGain(1000); qa->addToLoss(2000);
    put(",\"ckept\":" + t3(c, 1) + ",\"p\":" + flt(p));
    Tradeoff z; put(",\"zero\":" + t3(z, 1));
    Tradeoff r(qb); r.computePIC(p); put(",\"pic\":" + t3(r, 1));
}

static void opRegs(Tok &k)
{
    // regs nq (g l)* nt (v g l)* n (call d a b)*     objects that are combined again and again; all of them after every call
    vector<shared_ptr<Quality> > q; vector<shared_ptr<Tradeoff> > t;
    int nq = k.n(); for (int i = 0; i < nq; i++) { real g = k.n(), l = k.n(); q.push_back(make_shared<Quality>(g, l)); }
    int nt = k.n(); for (int i = 0; i < nt; i++) { real v = k.r(), g = k.n(), l = k.n(); t.push_back(v == 0 && g == 0 && l == 0 ? make_shared<Tradeoff>() : make_shared<Tradeoff>(v, make_shared<Quality>(g, l))); }
    int n = k.n(); put("\"steps\":[");
    for (int c = 0; c < n; c++) {
        string o = k.s(); int d = k.n() - 1, a = k.n(), b = k.n(); float p = b / 2.0f;
        shared_ptr<Tradeoff> *T = &t[0] - 1; shared_ptr<Quality> *Q = &q[0] - 1;
        if (o == "tadd") *t[d] += *T[a]; else if (o == "tsub") *t[d] -= *T[a]; else if (o == "tmul") *t[d] *= *T[a];
        else if (o == "tplus") t[d] = make_shared<Tradeoff>(*T[a] + *T[b]);
        else if (o == "tminus") t[d] = make_shared<Tradeoff>(*T[a] - *T[b]);
        else if (o == "ttimes") t[d] = make_shared<Tradeoff>(*T[a] * *T[b]);
        else if (o == "tset") t[d]->set(Q[a], p); else if (o == "tnew") t[d] = make_shared<Tradeoff>(Q[a], p);
        else if (o == "tpic") t[d]->computePIC(p);
        else if (o == "tval") t[d] = make_shared<Tradeoff>((real) b, Q[a]); else if (o == "tplain") t[d] = make_shared<Tradeoff>(Q[a]);
        else if (o == "tnull") t[d] = make_shared<Tradeoff>();
        else if (o == "qadd") *q[d] += *Q[a]; else if (o == "qsub") *q[d] -= *Q[a]; else if (o == "qmul") *q[d] *= *Q[a];
        else if (o == "qplus") q[d] = make_shared<Quality>(*Q[a] + *Q[b]);
        else if (o == "qminus") q[d] = make_shared<Quality>(*Q[a] - *Q[b]);
        else if (o == "qtimes") q[d] = make_shared<Quality>(*Q[a] * *Q[b]);
        else if (o == "qacc") { q[d]->addToGain(a); q[d]->addToLoss(b); }
        else if (o == "qput") { q[d]->setGain(a); q[d]->setLoss(b); }
        else { fprintf(stderr, "unknown call %s\n", o.c_str()); exit(97); }
        put(c ? ",{\"t\":[" : "{\"t\":[");
        for (int i = 0; i < nt; i++) { if (i) put(","); put(t3(*t[i], 2)); }
        put("],\"q\":[");
        for (int i = 0; i < nq; i++) { if (i) put(","); put(q2(*q[i], 1)); }
        put("],\"cmp\":[" + num(*t[0] < *t[1]) + "," + num(*t[0] == *t[1]) + "," + num(*q[0] == *q[1]) + "]}");
    }
    put("]");
}

static void opTorder(Tok &k)
{
    // torder e1 e2 e3 n (v g l)*    numbers beside +-2^e
    real off[3]; for (int c = 0; c < 3; c++) { int e = k.n(); off[c] = e == 0 ? 0 : e > 0 ? ldexpl(1, e) : -ldexpl(1, -e); }
    int n = k.n(); vector<Tradeoff> t;
    for (int i = 0; i < n; i++) { real v = k.n() + off[0], g = k.n() + off[1], l = k.n() + off[2]; t.push_back(Tradeoff(v, shared_ptr<Quality>(new Quality(g, l)))); }
    put("\"cmp\":[");
    for (int i = 0; i < n; i++) {
        put(i ? ",[" : "[");
        for (int j = 0; j < n; j++) put(string(j ? "," : "") + "[" + num(t[i] < t[j]) + "," + num(t[i] <= t[j]) + "," + num(t[i] == t[j]) + "," + num(t[i] != t[j]) + "," + num(t[i] >= t[j]) + "," + num(t[i] > t[j]) + "]");
        put("]");
    }
    put("],\"after\":[");
    for (int i = 0; i < n; i++) { Tradeoff x(t[i].getValue() - off[0], shared_ptr<Quality>(new Quality(t[i].getQuality()->getGain() - off[1], t[i].getQuality()->getLoss() - off[2]))); put((i ? "," : "") + t3(x, 1)); }
    put("]");
}

static string uv(double v) { return intOf(v); }
static string uv(int v) { return num(v); }
static string uv(long double v) { return intOf(v); }
static string uv(shared_ptr<Quality> v) { return v ? (v->getLoss() == 0 ? intOf(v->getGain()) : string("-888888888")) : string("-777777777"); }
static string uv(shared_ptr<Tradeoff> v) { return v ? intOf(v->getQuality()->getGain()) : string("-777777777"); }
template<typename T> static T mk(int v) { return (T) v; }
template<> shared_ptr<Quality> mk(int v) { return shared_ptr<Quality>(new Quality(v, 0)); }
template<> shared_ptr<Tradeoff> mk(int v) { return shared_ptr<Tradeoff>(new Tradeoff(v, shared_ptr<Quality>(new Quality(v, 0)))); }
// a write to one element through its pointer must not reach another one
static void poke(shared_ptr<Quality> v, int x) { v->setGain(x); }
static void poke(shared_ptr<Tradeoff> v, int x) { v->getQuality()->setGain(x); }
template<typename T> static void poke(T, int) {}

template<typename T> static void utmRun(Tok &k, bool ptr)
{
    int n = k.n(); string init = k.s();
    shared_ptr<UpperTriangularMatrix<T> > mp;
    if (init == "none") mp.reset(new UpperTriangularMatrix<T>(n)); else mp.reset(new UpperTriangularMatrix<T>(n, mk<T>(atoi(init.c_str()))));
    UpperTriangularMatrix<T> &m = *mp;
    auto dump = [&]() {
        put("{\"size\":" + num(m.getSize()) + ",\"elements\":" + num(m.getElements()) + ",\"at\":[");
        for (int i = 0; i < n; i++) { put(i ? ",[" : "["); for (int j = i; j < n; j++) put((j > i ? "," : "") + uv(m(i, j))); put("]"); }
        put("],\"lin\":[");
        for (int e = 0; e < m.getElements(); e++) put((e ? "," : "") + uv(m[e]));
        put("]}");
    };
    put("\"dumps\":["); dump();
    while (!k.end()) {
        string w = k.s();
        if (w == "w") { int i = k.n(), j = k.n(), v = k.n(); m(i, j, mk<T>(v)); }
        if (w == "p") { int i = k.n(), j = k.n(), v = k.n(); if (ptr) poke(m(i, j), v); else m(i, j, mk<T>(v)); }
        if (w == "d") { put(","); dump(); }
    }
    put("]");
}

// a big matrix: every position gets the value i * n + j, in some order
template<typename T> static void utmFill(Tok &k)
{
    int n = k.n(), order = k.n();
    UpperTriangularMatrix<T> m(n);
    if (order == 0) for (int i = 0; i < n; i++) for (int j = i; j < n; j++) m(i, j, mk<T>(i * n + j));
    if (order == 1) for (int i = n - 1; i >= 0; i--) for (int j = n - 1; j >= i; j--) m(i, j, mk<T>(i * n + j));
    if (order == 2) for (int j = 0; j < n; j++) for (int i = 0; i <= j; i++) m(i, j, mk<T>(i * n + j));
    if (order == 3) for (int d = n - 1; d >= 0; d--) for (int i = 0; i + d < n; i++) m(i, i + d, mk<T>(i * n + i + d));
    put("\"size\":" + num(m.getSize()) + ",\"elements\":" + num(m.getElements()) + ",\"at\":[");
    for (int i = 0; i < n; i++) { put(i ? ",[" : "["); for (int j = i; j < n; j++) put((j > i ? "," : "") + uv(m(i, j))); put("]"); }
    put("],\"lin\":[");
    for (int e = 0; e < m.getElements(); e++) put((e ? "," : "") + uv(m[e]));
    put("]");
}

static void opUtmFill(Tok &k)
{
    string ty = k.s();
    if (ty == "int") utmFill<int>(k); if (ty == "double") utmFill<double>(k); if (ty == "long") utmFill<long double>(k);
    if (ty == "quality") utmFill<shared_ptr<Quality> >(k); if (ty == "tradeoff") utmFill<shared_ptr<Tradeoff> >(k);
}

static void opUtm(Tok &k)
{
    string ty = k.s();
    if (ty == "int") utmRun<int>(k, false); if (ty == "double") utmRun<double>(k, false); if (ty == "long") utmRun<long double>(k, false);
    if (ty == "quality") utmRun<shared_ptr<Quality> >(k, true); if (ty == "tradeoff") utmRun<shared_ptr<Tradeoff> >(k, true);
}

static void call(const string &line)
{
    Tok k(line); string op = k.s();
    if (op == "store") opStore(k);
    else if (op == "fill") opFill(k);
    else if (op == "set") { Store &s = stores.at(k.n()); int h = k.n(), a = k.n(), b = k.n(), c = k.n(), t = k.n(), v = k.n(); s.set(h, a, b, c, t, (double) (v * s.mul)); put("\"ok\":1"); }
    else if (op == "get") dumpStore(stores.at(k.n()));
    else if (op == "meta") { int L = k.n(); int hs = k.n(); put("\"meta\":" + metaJson(HValuesMetaData(L, k.ints(hs)))); }
    else if (op == "qual") {
        int qid = k.n(); Store &s = stores.at(k.n()); Qual q; q.kind = s.kind; q.L = s.L; q.T = s.kind == 'H' ? 1 : s.T; q.par = s.par; q.mul = s.mul;
        if (s.ov) q.o = make_shared<OQualities>(s.ov); if (s.hv) q.h = make_shared<HQualities>(s.hv); if (s.dv) q.d = make_shared<DQualities>(s.dv);
        quals[qid] = q; put("\"ok\":1");
    }
    else if (op == "qualm") opQualm(k);
    else if (op == "compute") {
        Qual &q = quals.at(k.n());
        const void *before = q.o ? (void *) q.o->getQualities().get() : q.h ? (void *) q.h->getQualities().get() : (void *) q.d->getQualities().get();
        if (q.o) q.o->computeQualities(); if (q.h) q.h->computeQualities(); if (q.d) q.d->computeQualities();
        const void *after = q.o ? (void *) q.o->getQualities().get() : q.h ? (void *) q.h->getQualities().get() : (void *) q.d->getQualities().get();
        bool fresh = before != after || before == 0;
        if (fresh || k.n()) noteMatrix(q, 1 / q.mul);
        dumpQual(q); put(",\"fresh\":" + num(fresh));
    }
    else if (op == "normalize") {
        Qual &q = quals.at(k.n());
        if (q.o) q.o->normalize(); if (q.h) q.h->normalize(); if (q.d) q.d->normalize();
        noteMatrix(q, 1); dumpQual(q);
    }
    else if (op == "dumpq") dumpQual(quals.at(k.n()));
    else if (op == "parter") opParter(k);
    else if (op == "best") {
        int bid = k.n(); Parter &p = parters.at(k.n()); float x = k.f();
        parts[bid] = bestOf(p, x); put(partFields(parts[bid]) + decFields(parts[bid])); put(",\"ask\":" + flt(x));
    }
    else if (op == "dumpb") { Part &b = parts.at(k.n()); put(partFields(b) + decFields(b)); }
    else if (op == "part") opPart(k);
    else if (op == "sweep") {
        Parter &p = parters.at(k.n()); float th = k.f(); string mode = k.s(); float mn = 0, mx = 1;
        if (mode == "range") { mn = k.f(); mx = k.f(); }
        string before = mdgOf(p);
        bool base = k.end() ? false : k.n() == 1;
        if (base) { if (mode == "range") p.base()->computeBestPartitions(th, mn, mx); else p.base()->computeBestPartitions(th); }
        else if (p.kind == 'O') { if (mode == "range") p.o->computeBestPartitions(th, mn, mx); else p.o->computeBestPartitions(th); }
        else if (p.kind == 'H') { if (mode == "range") p.h->computeBestPartitions(th, mn, mx); else p.h->computeBestPartitions(th); }
        else if (p.kind == 'D') { if (mode == "range") p.d->computeBestPartitions(th, mn, mx); else p.d->computeBestPartitions(th); }
        dumpLists(p);
        put(",\"min\":" + flt(mn) + ",\"max\":" + flt(mx) + ",\"th\":" + flt(th) + ",\"mdg0\":" + before + ",\"mdg\":" + mdgOf(p));
        // the same parameters, one by one, on a partitioner of its own
        Parter f; f.kind = p.kind;
        if (p.kind == 'O') f.o = make_shared<OPartitioner>(bestOf(p, mn).o->getQualities());
        if (p.kind == 'H' || p.kind == 'D') {
            auto b0 = bestOf(p, mn);
            if (p.kind == 'H') f.h = make_shared<HPartitioner>(b0.h->getQualities(), b0.h->getMetaData());
            else f.d = make_shared<DPartitioner>(b0.d->getQualities(), b0.d->getMetaData());
        }
        put(",\"direct\":["); bool first = true;
        for (float x : p.base()->getPList()) { Part b = bestOf(f, x); put(string(first ? "" : ",") + "{" + partFields(b) + "}"); first = false; }
        put("]");
    }
    else if (op == "lists") { Parter &p = parters.at(k.n()); dumpLists(p); put(",\"mdg\":" + mdgOf(p)); }
    else if (op == "getp") { Parter &p = parters.at(k.n()); put("\"min\":" + flt(p.base()->getP(P_MIN)) + ",\"max\":" + flt(p.base()->getP(P_MAX)) + ",\"opt\":" + flt(p.base()->getP(P_OPT))); }
    else if (op == "auc") { Parter &p = parters.at(k.n()); real s = k.r(); put("\"auc\":" + limbs(((real) p.base()->computeAUC() - 1) * s)); }
    else if (op == "agg") opAgg(k);
    else if (op == "aggkeep") opAggKeep(k);
    else if (op == "dumpagg") { Agg &a = aggs.at(k.n()); put(a.read(a.p.get(), a.mul)); }
    else if (op == "copy") opCopy(k);
    else if (op == "take") opTake(k);
    else if (op == "dumptake") dumpTake(takes.at(k.n()));
    else if (op == "loose") { loose = true; put("\"ok\":1"); }
    else if (op == "drop") opDrop(k);
    else if (op == "eq") opEq(k);
    else if (op == "qarith") opQarith(k);
    else if (op == "qnear") {
        // qnear g l: equality of (g,l) with neighbours at relative distances around the precision
        real g = k.n(), l = k.n(); real s = k.r(); g *= s; l *= s; Quality a(g, l); real big = g > l ? g : l;
        put("\"near\":["); bool first = true;
        for (real f : {0.0L, 0.4e-13L, -0.4e-13L}) { Quality b(g + big * f, l), c(g, l + big * f), d(g + big * f, l - big * f); put((first ? "" : ",") + num(a == b) + "," + num(a == c) + "," + num(b == a) + "," + num(d == a) + "," + num(!(a != d))); first = false; }
        put("],\"far\":["); first = true;
        for (real f : {3e-13L, -3e-13L, 0.01L, -0.01L, 1.0L}) { Quality b(g + big * f, l), c(g, l + big * f), d(g + big * f, l - big * f); put((first ? "" : ",") + num(a == b) + "," + num(a == c) + "," + num(b == a) + "," + num(d == a) + "," + num(!(a != d))); first = false; }
        put("]");
    }
    else if (op == "nop") put("\"ok\":1");
    else if (op == "tarith") opTarith(k);
    else if (op == "regs") opRegs(k);
    else if (op == "torder") opTorder(k);
    else if (op == "utm") opUtm(k);
    else if (op == "utmfill") opUtmFill(k);
    else { fprintf(stderr, "unknown call %s\n", op.c_str()); exit(97); }
}

static void emit(FILE *o, int sc, int ix) { fprintf(o, "{\"sc\":%d,\"ix\":%d,\"res\":{%s}}\n", sc, ix, out.c_str()); fflush(o); }

#ifdef PAR
static atomic<int> races(0), ticks(0), arrived(0);
// called by ThreadSanitizer for every pair of conflicting accesses without order
extern "C" void __tsan_on_report(void *) { races.fetch_add(1, memory_order_relaxed); }

struct Step { int tick; int n; string dg; };
struct Objects
{
    map<int, Store> stores; map<int, Qual> quals; map<const void *, real> scale; vector<shared_ptr<void> > keep;
};

static string digested(const string &line) { out.clear(); call(line); Digest d; d.add(out); return d.str(); }

// the calls of one analysis; relaxed operations order nothing between the threads
static void analysis(const vector<string> *sc, const Objects *given, vector<Step> *to, int wait)
{
    stores = given->stores; quals = given->quals; scale_ = given->scale; keep = given->keep;
    for (auto &q : quals) {      // qualities are objects of the thread on the shared matrix
        if (q.second.o) q.second.o = make_shared<OQualities>(*q.second.o);
        if (q.second.h) q.second.h = make_shared<HQualities>(*q.second.h);
        if (q.second.d) q.second.d = make_shared<DQualities>(*q.second.d);
    }
    arrived.fetch_add(1, memory_order_relaxed);
    while (arrived.load(memory_order_relaxed) < wait) this_thread::yield();
    for (size_t i = 0; i < sc->size(); i++) {
        string d = digested((*sc)[i]);
        to->push_back(Step{ticks.fetch_add(1, memory_order_relaxed), (int) i, d});
    }
    stores.clear(); quals.clear(); parters.clear(); parts.clear(); aggs.clear(); takes.clear(); keep.clear();
}

// a child runs the analyses; false if it dies
static bool child(const char *file, int id, const vector<string> &prelude, const vector<vector<string> > &as, int solo, int limit)
{
    struct stat before; if (stat(file, &before)) exit(96);
    pid_t pid = fork();
    if (pid == 0) {
        struct rlimit cl = {(rlim_t) limit, (rlim_t) limit + 1}; setrlimit(RLIMIT_CPU, &cl); alarm(limit * 3);
        for (auto &l : prelude) { out.clear(); call(l); }
        Objects g; g.stores = stores; g.quals = quals; g.scale = scale_; g.keep = keep;
        vector<vector<Step> > got(as.size()); vector<thread> ts; races = 0;
        for (size_t t = 0; t < as.size(); t++) if (solo < 0 || solo == (int) t) ts.emplace_back(analysis, &as[t], &g, &got[t], solo < 0 ? (int) as.size() : 1);
        for (auto &t : ts) t.join();
        map<int, string> lines;
        for (size_t t = 0; t < as.size(); t++) for (auto &x : got[t]) {
            char b[200]; snprintf(b, sizeof b, "{\"sc\":%d,\"solo\":%d,\"th\":%d,\"n\":%d,\"dg\":", id, solo >= 0, (int) t, x.n);
            if (x.dg.size() != 18 || x.dg.find_first_not_of("\"0123456789abcdef") != string::npos) abort();      // memory is corrupt
            lines[x.tick] = b + x.dg + "}\n";
        }
        FILE *f = fopen(file, "a");
        for (auto &l : lines) fputs(l.second.c_str(), f);
        if (solo < 0) fprintf(f, "{\"sc\":%d,\"races\":%d}\n", id, races.load());
        fclose(f); _exit(42);      // (ThreadSanitizer's own exit is 0)
    }
    int st = 0; waitpid(pid, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 97) { fprintf(stderr, "driver: bad script\n"); exit(97); }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 42) return true;
    if (truncate(file, before.st_size)) exit(96);      // what it had begun to write
    FILE *f = fopen(file, "a"); fprintf(f, "{\"sc\":%d,\"died\":%d}\n", id, solo < 0 ? 1 : 0); fclose(f);
    return false;
}

// Scenarios of "prelude" and "thread" sections.  Every analysis first runs
// alone, in a process of its own, then all of them at the same time.
static int parallel(const char *script, const char *file, int limit)
{
    ifstream in(script); FILE *o = fopen(file, "w"); fclose(o);
    string line; int id = -1, deaths = 0; vector<string> prelude; vector<vector<string> > as;
    auto run = [&]() {
        if (id < 0 || deaths >= 4) return;     // no need to go on
        for (size_t t = 0; t < as.size(); t++) if (!child(file, id, prelude, as, (int) t, limit)) return;
        if (!child(file, id, prelude, as, -1, limit)) deaths++;
    };
    while (getline(in, line)) {
        if (line.empty()) continue;
        if (line.compare(0, 9, "scenario ") == 0) { run(); as.clear(); prelude.clear(); id = atoi(line.c_str() + 9); }
        else if (line == "thread") as.push_back(vector<string>());
        else (as.empty() ? prelude : as.back()).push_back(line);
    }
    run();
    return 0;
}
#endif

int main(int argc, char **argv)
{
    if (argc < 4) { fprintf(stderr, "driver SCRIPT OUT SECONDS\n"); return 98; }
#ifdef PAR
    return parallel(argv[1], argv[2], atoi(argv[3]));
#endif
    ifstream in(argv[1]); int limit = atoi(argv[3]);
    struct rlimit rl = {512L << 20, 512L << 20}; setrlimit(RLIMIT_STACK, &rl);
    FILE *o = fopen(argv[2], "w"); fclose(o);
    string line; vector<string> sc; int id = -1; bool more = true;
    int deaths = 0;
    auto run = [&]() {
        if (id < 0 || deaths >= 20) return;     // no need to go on
        fflush(stdout); fflush(stderr);
        int pipefd[2]; if (pipe(pipefd)) exit(96);
        pid_t pid = fork();
        if (pid == 0) {
            close(pipefd[0]); alarm(limit * 15);
            struct rlimit cl = {(rlim_t) limit, (rlim_t) limit + 1}; setrlimit(RLIMIT_CPU, &cl);
            int e = open("/dev/null", 1); (void) e;
            FILE *f = fopen(argv[2], "a"); 
            for (size_t i = 0; i < sc.size(); i++) {
                int n = (int) i; if (write(pipefd[1], &n, sizeof n) < 0) _exit(95);
                out.clear(); call(sc[i]); emit(f, id, (int) i);
            }
            fclose(f); _exit(0);
        }
        close(pipefd[1]); int at = -1, n; while (read(pipefd[0], &n, sizeof n) == sizeof n) at = n;
        close(pipefd[0]); int st = 0; waitpid(pid, &st, 0);
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
            if (WIFEXITED(st) && (WEXITSTATUS(st) == 97 || WEXITSTATUS(st) == 95)) { fprintf(stderr, "driver: bad script\n"); exit(97); }
            // cut a line that was begun
            string all; { ifstream r(argv[2]); stringstream b; b << r.rdbuf(); all = b.str(); }
            size_t e = all.rfind('\n'); all = e == string::npos ? "" : all.substr(0, e + 1);
            FILE *f = fopen(argv[2], "w"); fwrite(all.data(), 1, all.size(), f);
            const char *why = WIFSIGNALED(st) && (WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGXCPU) ? "timeout" : "crash";
            fprintf(f, "{\"sc\":%d,\"ix\":%d,\"res\":{\"died\":\"%s\"}}\n", id, at, why); fclose(f);
            if (why[0] == 't') deaths += 10; else deaths++;
        }
    };
    while (getline(in, line)) {
        if (line.empty()) continue;
        if (line.compare(0, 9, "scenario ") == 0) { run(); sc.clear(); id = atoi(line.c_str() + 9); }
        else sc.push_back(line);
    }
    run(); (void) more;
    return 0;
}
