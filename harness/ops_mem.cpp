// storage of secrets: keys living in storage of the harness, which can be looked at while they live and after
// they are destroyed, and the heap blocks the library gives back while it works on them
#include "driver.h"
#include <new>
using std::string; using std::vector;
const Network *net(const string &n);
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
extern "C" size_t __sanitizer_get_allocated_size(const volatile void *);
static bool watching = false; static uint8_t given[1<<16]; static size_t ngiven = 0; static vector<size_t> *sizes = 0;
static void onMalloc(const volatile void *, size_t){}
static void onFree(const volatile void *p){
    if(!watching || !p) return;
    size_t n = __sanitizer_get_allocated_size(p); if(n > 2048) n = 2048;
    if(ngiven + n + 1 > sizeof(given)) return;
    for(size_t i=0;i<n;i++) given[ngiven+i] = ((const volatile uint8_t*)p)[i];
    ngiven += n; sizes->push_back(n);
}
struct Watch { Watch(){ static bool on = false; if(!on){ on = true; sizes = new vector<size_t>; sizes->reserve(4096); __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree); } ngiven = 0; sizes->clear(); watching = true; } ~Watch(){ watching = false; } };
static void blocks(Out &o){ // what was given back, as a list of hex strings
    string s = "["; size_t at = 0;
    for(size_t i=0;i<sizes->size();i++){ if(i) s += ","; s += "\""+hexs(given+at, (*sizes)[i])+"\""; at += (*sizes)[i]; }
    o.raw("freed", s+"]");
}
struct Cell { string k; void *p; size_t n; Cell(const string &k, size_t n):k(k),p(malloc(n)),n(n){ memset(p, 0, n); } ~Cell(){ free(p); }
    ECScalar &sc(){ return *(ECScalar*)p; } PrivateKey &prv(){ return *(PrivateKey*)p; } HDPrivateKey &hd(){ return *(HDPrivateKey*)p; }
    string dump(){ vector<uint8_t> b(n); for(size_t i=0;i<n;i++) b[i] = ((volatile uint8_t*)p)[i]; return hexs(b.data(), n); }
    __attribute__((noinline)) void destroy(){ if(k=="scalar") sc().~ECScalar(); else if(k=="prv") prv().~PrivateKey(); else hd().~HDPrivateKey(); asm volatile("":::"memory"); } };
static size_t sizeOf(const string &k){ return k=="scalar" ? sizeof(ECScalar) : k=="prv" ? sizeof(PrivateKey) : sizeof(HDPrivateKey); }
static void look(Cell &c, Out &o){
    uint8_t s[32]; int st;
    if(c.k=="scalar"){ c.sc().getSecret(s); st = c.sc().getStatus(); } else if(c.k=="prv"){ c.prv().getSecret(s); st = c.prv().getStatus(); } else { c.hd().getSecret(s); st = c.hd().getStatus(); }
    o.num("st", st); o.hex("sec", s, 32); o.str("cc", c.k=="hdprv" ? hexs(c.hd().chainCode, 32) : "");
}
bool ops_mem(World &w, const Ev &e, Out &o){
    const string op = e.S("op"); if(op.compare(0, 3, "ws_")) return false;
    long id = e.N("o"); auto cell = [&](const char *f)->Cell&{ return *(Cell*)w.misc.at(e.N(f)).get(); };
    auto b = unhex(e.S("data")), b2 = unhex(e.S("cc0")); string txt((const char*)b.data(), b.size()), how = e.S("how"); uint8_t *p = b.data(); const Network *nw = e.has("net") ? net(e.S("net")) : &Mainnet;
    if(op=="ws_new" || op=="ws_copy" || op=="ws_kid" || op=="ws_sum" || op=="ws_key"){
        string k = op=="ws_new" ? e.S("k") : op=="ws_copy" ? cell("p").k : op=="ws_kid" ? "hdprv" : op=="ws_key" ? "prv" : "scalar";
        auto c = std::make_shared<Cell>(k, sizeOf(k)); void *q = c->p;
        { Watch t;
          if(op=="ws_copy"){ Cell &s = cell("p"); if(k=="scalar") new(q) ECScalar(s.sc()); else if(k=="prv") new(q) PrivateKey(s.prv()); else new(q) HDPrivateKey(s.hd()); }
          else if(op=="ws_kid"){ HDPrivateKey &s = cell("p").hd(); uint32_t i = e.N("i"); if(e.N("hard")) new(q) HDPrivateKey(s.hardenedChild(i)); else new(q) HDPrivateKey(s.child(i)); }
          else if(op=="ws_sum") new(q) ECScalar(cell("p").sc() + cell("q").sc());
          else if(op=="ws_key") new(q) PrivateKey(cell("p").sc());
          else if(k=="scalar"){ if(how=="bytes") new(q) ECScalar(p, b.size()); else if(how=="hex") new(q) ECScalar(e.S("data").c_str()); else new(q) ECScalar(); }
          else if(k=="prv"){ if(how=="bytes") new(q) PrivateKey(p, true, nw); else if(how=="text") new(q) PrivateKey(txt); else new(q) PrivateKey(); }
          else { if(how=="bytes") new(q) HDPrivateKey(p, b2.data()); else if(how=="text") new(q) HDPrivateKey(txt.c_str()); else if(how=="seed"){ new(q) HDPrivateKey(); c->hd().fromSeed(p, b.size()); } else new(q) HDPrivateKey(); }
        }
        blocks(o); w.misc[id] = c; look(*c, o); return true;
    }
    Cell &c = cell("o");
    if(op=="ws_assign"){ Cell &s = cell("p"); { Watch t; if(c.k=="scalar") c.sc() = s.sc(); else if(c.k=="prv") c.prv() = s.prv(); else c.hd() = s.hd(); } blocks(o); look(c, o); return true; }
    if(op=="ws_set"){ { Watch t; if(c.k=="scalar") c.sc().setSecret(p); else c.prv().setSecret(p); } blocks(o); look(c, o); return true; }
    if(op=="ws_feed"){ size_t n; { Watch t; if(c.k=="scalar") n = c.sc().parse(p, b.size()); else if(c.k=="prv") n = c.prv().parse(p, b.size()); else n = c.hd().parse(p, b.size()); } o.num("n", (long)n); blocks(o); look(c, o); return true; }
    if(op=="ws_text"){ { Watch t; if(c.k=="prv") c.prv().fromWIF(txt.c_str(), txt.size()); else c.hd().fromString(txt.c_str(), txt.size()); } blocks(o); look(c, o); return true; }
    if(op=="ws_use"){ // exports and computations leave the key alone
        char buf[200]; uint8_t h[32]; for(int i=0;i<32;i++) h[i] = i; string x, y, z;
        { Watch t;
          if(c.k=="scalar"){ ECScalar a = c.sc() + c.sc(); PublicKey q = c.sc() * GeneratorPoint; x = c.sc().toString(); y = c.sc().serialize(); }
          else { x = c.prv().wif(); c.prv().wif(buf, sizeof(buf)); Signature g = c.prv().sign(h); PublicKey q = c.prv().publicKey(); y = c.prv().address();
                 if(c.k=="hdprv"){ z = c.hd().xprv(); c.hd().xprv(buf, sizeof(buf)); HDPrivateKey d = c.hd().derive("m/1h/2"); HDPublicKey u = c.hd().xpub(); string f = c.hd().fingerprint(); } } }
        memset(buf, 0, sizeof(buf)); blocks(o); look(c, o); return true;
    }
    if(op=="ws_mem"){ o.str("live", c.dump()); look(c, o); return true; }
    if(op=="ws_del"){ string l = c.dump(); { Watch t; c.destroy(); } o.str("live", l); o.str("mem", c.dump()); blocks(o); w.misc.erase(id); return true; }
    return false;
}
