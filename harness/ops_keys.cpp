// points, scalars, signatures, HD keys, mnemonics
#include "driver.h"
using std::string; using std::vector;
#define B2(x) ((x)?1:0)
string full(const Streamable *s);
const Network *net(const string &n);
string netname(const Network *n);
string typeName(ScriptType t);
ScriptType typeOf(const string &s);
uint32_t un4(const string &h);
string LE4(uint32_t v);
string scriptHex(const Script &s);

static PrivateKey prvOf(const Ev &e, const char *k="key"){
    auto b = unhex(e.S(k)); b.resize(32);
    return PrivateKey(b.data(), !e.N("unc"), net(e.S("net")));
}
static PublicKey pubOf(const string &h){ auto b = unhex(h); PublicKey p; p.parse(b.data(), b.size()); return p; }
static ECScalar scOf(const string &h){ auto b = unhex(h); b.resize(32); ECScalar s; s.setSecret(b.data()); return s; }
static string scHex(const ECScalar &s){ uint8_t b[32]; s.getSecret(b); return hexs(b,32); }
// points enter as x||y (64 bytes) or "" for the point at infinity
static ECPoint ptOf(const string &h){ ECPoint p; if(!h.empty()){ auto b = unhex(h); memcpy(p.point, b.data(), 64); } return p; }
static string ptHex(const ECPoint &p){ return p==InfinityPoint ? string() : hexs(p.point, 64); }
void hdprvOut(const HDPrivateKey &k, Out &O){
    Out o; uint8_t s[32]; k.getSecret(s); o.hex("key", s, 32); o.hex("cc", k.chainCode, 32); o.num("depth", k.depth);
    o.hex("fp", k.parentFingerprint, 4); o.str("child", LE4(k.childNumber)); o.str("type", typeName(k.type)); o.str("net", netname(k.network));
    o.str("pub", k.publicKey().sec()); O.raw("f", "{"+o.s.substr(1)+"}");
}
void hdpubOut(const HDPublicKey &k, Out &O){
    Out o; o.str("pub", k.sec()); o.hex("cc", k.chainCode, 32); o.num("depth", k.depth);
    o.hex("fp", k.parentFingerprint, 4); o.str("child", LE4(k.childNumber)); o.str("type", typeName(k.type)); o.str("net", netname(k.network));
    O.raw("f", "{"+o.s.substr(1)+"}");
}
static void tick(float){}
bool ops_keys(World &w, const Ev &e, Out &o){
    const string op = e.S("op"); long id = e.N("o");
    if(op=="sc_op"){
        ECScalar a = scOf(e.S("a")), b = scOf(e.S("b")); string f = e.S("f"); uint32_t u = un4(e.has("u") ? e.S("u") : string("00000000"));
        ECScalar r;
        if(f=="add") r = a+b; else if(f=="sub") r = a-b; else if(f=="mul") r = a*b; else if(f=="div") r = a/b;
        else if(f=="neg") r = -a; else if(f=="addu") r = a+u; else if(f=="subu") r = a-u; else if(f=="addueq"){ r = a; r += u; } else if(f=="subueq"){ r = a; r -= u; }
        else if(f=="addeq"){ r = a; r += b; } else if(f=="subeq"){ r = a; r -= b; } else if(f=="muleq"){ r = a; r *= b; } else if(f=="diveq"){ r = a; r /= b; }
        else if(f=="u") r = ECScalar(u);
        else if(f=="mulu") r = a*u; else if(f=="divu") r = a/u; else if(f=="umul") r = u*a; else if(f=="udiv") r = u/a; else if(f=="uadd") r = u+a; else if(f=="usub") r = u-a;
        else if(f=="cmp"){ o.num("lt", B2(a<b)); o.num("gt", B2(a>b)); o.num("le", B2(a<=b)); o.num("ge", B2(a>=b)); o.num("eq", B2(a==b)); o.num("ne", B2(a!=b)); return true; }
        else return false;
        o.str("r", scHex(r)); o.num("v", B2(r.isValid())); return true;
    }
    if(op=="pt_op"){
        ECPoint a = ptOf(e.S("a")), b = ptOf(e.S("b")); string f = e.S("f"); ECPoint r;
        if(e.N("au")) a.compressed = false;
        if(e.N("bu")) b.compressed = false;
        if(f=="add") r = a+b; else if(f=="sub") r = a-b; else if(f=="neg") r = -a;
        else if(f=="addeq"){ r = a; r += b; } else if(f=="subeq"){ r = a; r -= b; }
        else if(f=="mul") r = scOf(e.S("k"))*a; else if(f=="rmul") r = a*scOf(e.S("k")); else if(f=="div") r = a/scOf(e.S("k"));
        else if(f=="gmul") r = scOf(e.S("k"))*GeneratorPoint;
        else if(f=="valid"){ o.num("v", B2(a.isValid())); o.num("even", B2(a.isEven())); return true; }
        else if(f=="cmp"){ o.num("lt", B2(a<b)); o.num("gt", B2(a>b)); o.num("le", B2(a<=b)); o.num("ge", B2(a>=b)); o.num("eq", B2(a==b)); return true; }
        else return false;
        o.str("r", ptHex(r)); return true;
    }
    if(op=="pubkey"){ // public key of a secret, every way to get it
        PrivateKey k = prvOf(e); o.str("sec", k.publicKey().sec()); o.str("pt", hexs(k.publicKey().point,64));
        uint8_t x[32]; size_t n = k.publicKey().x(x, 32); o.hex("x", x, n); o.num("even", B2(k.publicKey().isEven()));
        auto b = unhex(e.S("key")); PrivateKey k2; k2.setSecret(b.data()); o.str("pt2", hexs(k2.publicKey().point,64));
        PrivateKey k3(scOf(e.S("key"))); o.str("pt3", hexs(k3.publicKey().point,64));
        ECPoint q; q.from_x(x, 32); o.str("lift", hexs(q.point, 64));
        return true;
    }
    if(op=="sec"){ // parse a sec string in one go (fresh object)
        auto b = unhex(e.S("data")); PublicKey p; uint8_t *q = (uint8_t*)malloc(b.size()?b.size():1); memcpy(q, b.data(), b.size());
        size_t n = p.fromSec(q, b.size()); free(q);
        o.num("n", (long)n); o.num("st", p.getStatus()); o.num("v", B2(p.isValid())); o.num("c", B2(p.compressed));
        o.str("pt", p.isValid() ? hexs(p.point,64) : ""); o.str("out", p.isValid() ? p.sec() : "");
        return true;
    }
    if(op=="prv_new"){ w.put(id, "prv", prvOf(e)); return true; }
    if(op=="pub_new"){ w.put(id, "pub", pubOf(e.S("sec"))); return true; }
    if(op=="sig_new"){ auto b = unhex(e.S("rs")); w.put(id, "sig", Signature(b.data(), b.data()+32)); return true; }
    if(op=="sig_bin"){ Signature &g = w.get<Signature>(id); size_t n = e.N("len"); uint8_t *p = (uint8_t*)malloc(n?n:1); memset(p,0,n); g.bin(p, n); o.hex("out", p, n); free(p); return true; }
    if(op=="sig_frombin"){ auto b = unhex(e.S("data")); Signature g; g.fromBin(b.data(), b.size()); w.put(id, "sig", g); return true; }
    if(op=="sig_der"){ Signature &g = w.get<Signature>(id); uint8_t *p = (uint8_t*)malloc(e.N("cap")); size_t n = g.der(p, e.N("cap")); o.hex("out", p, n); free(p); return true; }
    if(op=="sign"){
        PrivateKey k = prvOf(e); auto h = unhex(e.S("h")); Signature g = k.sign(h.data()), g2 = k.sign(h.data());
        uint8_t b[65]; g.bin(b, 65); o.hex("sig", b, 64); o.num("rec", b[64]);
        uint8_t d[72]; size_t n = g.der(d, 72); o.hex("der", d, n); o.num("len", (long)g.length());
        o.num("same", B2(g==g2)); o.num("ver", B2(k.publicKey().verify(g, h.data())));
        Signature p; p.fromDer(d, n); o.num("rt", B2(p==g));
        return true;
    }
    if(op=="verify"){
        PublicKey p = pubOf(e.S("sec")); auto b = unhex(e.S("sig")); auto h = unhex(e.S("h"));
        Signature g(b.data(), b.data()+32); o.num("r", B2(p.verify(g, h.data()))); return true;
    }
    if(op=="ssign"){
        PrivateKey k = prvOf(e); auto h = unhex(e.S("h")); SchnorrSignature g = k.schnorr_sign(h.data()), g2 = k.schnorr_sign(h.data());
        uint8_t b[64]; g.serialize(b, 64); o.hex("sig", b, 64); o.num("same", B2(g==g2)); o.num("ver", B2(k.publicKey().schnorr_verify(g, h.data())));
        return true;
    }
    if(op=="sverify"){
        PublicKey p; if(e.has("x")){ auto x = unhex(e.S("x")); p.from_x(x.data(), 32); } else p = pubOf(e.S("sec"));
        auto b = unhex(e.S("sig")); auto h = unhex(e.S("h"));
        SchnorrSignature g(b.data()); o.num("r", B2(p.schnorr_verify(g, h.data()))); return true;
    }
    if(op=="ecdh"){
        PrivateKey a = prvOf(e, "a"), b = prvOf(e, "b"); uint8_t s[32], t[32];
        bool hash = e.N("hash"); PublicKey pa = a.publicKey(), pb = b.publicKey();
        a.ecdh(pb, s, hash); b.ecdh(pa, t, hash); o.hex("z1", s, 32); o.hex("z2", t, 32);
        return true;
    }
    if(op=="wif"){
        PrivateKey k = prvOf(e); o.asc("wif", k.wif()); char buf[60]; int n = k.wif(buf, sizeof buf); o.num("n", n); o.asc("wif2", string(buf));
        string t = k.wif(); PrivateKey q(t); o.str("k", scHex(q)); o.num("c", B2(q.publicKey().compressed)); o.str("qnet", netname(q.network)); o.str("pt", hexs(q.publicKey().point,64));
        const Readable &rd = k; o.asc("ts", k.toString()); std::string cv = k; o.asc("conv", cv);
        size_t sl = rd.stringLength(); char *tb = (char*)malloc(sl+1); memset(tb, 0, sl+1); rd.toString(tb, sl+1); o.asc("tbuf", string(tb, strnlen(tb, sl+1))); free(tb);
        return true;
    }
    if(op=="fromwif"){
        auto b = unhex(e.S("data")); PrivateKey q = prvOf(e); char *p = (char*)malloc(b.size()+1); memcpy(p, b.data(), b.size()); p[b.size()]=0;
        int r = q.fromWIF(p, b.size());
        o.num("r", r); o.num("v", B2(q.isValid())); o.str("k", scHex(q)); o.num("c", B2(q.publicKey().compressed)); o.str("qnet", netname(q.network)); o.str("pt", ptHex(q.publicKey()));
        PrivateKey q2{string(p)}; o.num("v2", B2(q2.isValid())); o.str("k2", scHex(q2));
        PrivateKey q3 = prvOf(e); int r3 = q3.fromWIF(p); o.num("r3", r3); o.num("v3", B2(q3.isValid())); o.str("k3", scHex(q3));
        PrivateKey q4; q4.fromString(p); o.num("v4", B2(q4.isValid())); o.str("k4", scHex(q4));
        free(p); return true;
    }
    if(op=="addrs"){ // addresses of a private key / its public key on a network
        PrivateKey k = prvOf(e); PublicKey p = k.publicKey(); const Network *n = net(e.S("net"));
        o.asc("leg", p.legacyAddress(n)); o.asc("seg", p.segwitAddress(n)); o.asc("nest", p.nestedSegwitAddress(n)); o.asc("adr", p.address(n));
        o.asc("kleg", k.legacyAddress()); o.asc("kseg", k.segwitAddress()); o.asc("knest", k.nestedSegwitAddress()); o.asc("kadr", k.address());
        char b[100]; p.legacyAddress(b, 100, n); o.asc("bleg", b); p.segwitAddress(b, 100, n); o.asc("bseg", b); p.nestedSegwitAddress(b, 100, n); o.asc("bnest", b);
        return true;
    }
    // ---------------------------------------------------------------- HD
    if(op=="hd_seed"){ auto b = unhex(e.S("seed")); HDPrivateKey k; int r = k.fromSeed(b.data(), b.size(), net(e.S("net"))); w.put(id, "hdprv", k); o.num("v", B2(r && k.isValid())); hdprvOut(k, o); return true; }
    if(op=="hd_mnemonic"){
        auto m = unhex(e.S("m")); auto p = unhex(e.S("pass")); string ms((char*)m.data(), m.size()), ps((char*)p.data(), p.size());
        string via = e.S("via");
        if(via=="ctor"){ HDPrivateKey k(ms, ps, net(e.S("net"))); w.put(id, "hdprv", k); }
        else if(via=="ctor4"){ HDPrivateKey k(ms.c_str(), ms.size(), ps.c_str(), ps.size(), net(e.S("net"))); w.put(id, "hdprv", k); }
        else if(via=="cstr"){ HDPrivateKey k; k.fromMnemonic(ms.c_str(), ps.c_str(), net(e.S("net")), tick); w.put(id, "hdprv", k); }
        else if(via=="str"){ HDPrivateKey k; k.fromMnemonic(ms, ps, net(e.S("net")), tick); w.put(id, "hdprv", k); }
        else if(via=="again"){ HDPrivateKey k; k.fromSeed((const uint8_t*)"0123456789abcdef", 16, &Mainnet); k = k.child(3, true); k.type = P2WPKH; k.fromMnemonic(ms, ps, net(e.S("net"))); w.put(id, "hdprv", k); }
        else { HDPrivateKey k; k.fromMnemonic(ms.c_str(), ms.size(), ps.c_str(), ps.size(), net(e.S("net"))); w.put(id, "hdprv", k); }
        o.num("v", B2(w.get<HDPrivateKey>(id).isValid()));
        hdprvOut(w.get<HDPrivateKey>(id), o); return true;
    }
    if(op=="hd_new"){
        auto s = unhex(e.S("key")), c = unhex(e.S("cc")), f = unhex(e.S("fp")); 
        w.put(id, "hdprv", HDPrivateKey(s.data(), c.data(), (uint8_t)e.N("depth"), f.empty() ? NULL : f.data(), un4(e.S("child")), net(e.S("net")), typeOf(e.S("type"))));
        o.num("v", B2(w.get<HDPrivateKey>(id).isValid())); hdprvOut(w.get<HDPrivateKey>(id), o); return true;
    }
    if(op=="hd_child"){
        const HDPrivateKey &k = w.get<HDPrivateKey>(e.N("p")); uint32_t i = un4(e.S("i"));
        if(e.N("h")==1) w.put(id, "hdprv", k.hardenedChild(i)); else if(e.N("h")==2) w.put(id, "hdprv", k.child(i, true)); else w.put(id, "hdprv", k.child(i));
        o.num("v", B2(w.get<HDPrivateKey>(id).isValid()));
        hdprvOut(w.get<HDPrivateKey>(id), o); return true;
    }
    if(op=="hd_path"){
        const HDPrivateKey &k = w.get<HDPrivateKey>(e.N("p")); auto b = unhex(e.S("path"));
        char *p = (char*)malloc(b.size()+1); memcpy(p, b.data(), b.size()); p[b.size()] = 0;
        w.put(id, "hdprv", k.derive((const char*)p)); free(p);
        o.num("v", B2(w.get<HDPrivateKey>(id).isValid())); hdprvOut(w.get<HDPrivateKey>(id), o); return true;
    }
    if(op=="hd_idx"){
        const HDPrivateKey &k = w.get<HDPrivateKey>(e.N("p")); auto b = unhex(e.S("idx")); vector<uint32_t> v;
        for(size_t i=0;i+4<=b.size();i+=4) v.push_back(b[i]|b[i+1]<<8|b[i+2]<<16|(uint32_t)b[i+3]<<24);
        v.reserve(1);
        w.put(id, "hdprv", k.derive(v.data(), v.size()));
        o.num("v", B2(w.get<HDPrivateKey>(id).isValid())); hdprvOut(w.get<HDPrivateKey>(id), o); return true;
    }
    if(op=="hd_xpub"){ const HDPrivateKey &k = w.get<HDPrivateKey>(e.N("p")); w.put(id, "hdpub", k.xpub()); o.num("v", B2(w.get<HDPublicKey>(id).isValid())); hdpubOut(w.get<HDPublicKey>(id), o); return true; }
    if(op=="hp_verify"){ auto b = unhex(e.S("sig")); auto h = unhex(e.S("h")); Signature g(b.data(), b.data()+32); o.num("r", B2(w.get<HDPublicKey>(id).verify(g, h.data()))); return true; }
    if(op=="hp_child"){
        const HDPublicKey &k = w.get<HDPublicKey>(e.N("p")); w.put(id, "hdpub", k.child(un4(e.S("i"))));
        o.num("v", B2(w.get<HDPublicKey>(id).isValid())); hdpubOut(w.get<HDPublicKey>(id), o); return true;
    }
    if(op=="hp_path"){
        const HDPublicKey &k = w.get<HDPublicKey>(e.N("p")); auto b = unhex(e.S("path"));
        char *p = (char*)malloc(b.size()+1); memcpy(p, b.data(), b.size()); p[b.size()] = 0;
        w.put(id, "hdpub", k.derive((const char*)p)); free(p);
        o.num("v", B2(w.get<HDPublicKey>(id).isValid())); hdpubOut(w.get<HDPublicKey>(id), o); return true;
    }
    if(op=="hp_idx"){
        const HDPublicKey &k = w.get<HDPublicKey>(e.N("p")); auto b = unhex(e.S("idx")); vector<uint32_t> v;
        for(size_t i=0;i+4<=b.size();i+=4) v.push_back(b[i]|b[i+1]<<8|b[i+2]<<16|(uint32_t)b[i+3]<<24);
        v.reserve(1);
        w.put(id, "hdpub", k.derive(v.data(), v.size()));
        o.num("v", B2(w.get<HDPublicKey>(id).isValid())); hdpubOut(w.get<HDPublicKey>(id), o); return true;
    }
    if(op=="hd_text"){ // every textual and binary form of an HD private key
        const HDPrivateKey &k = w.get<HDPrivateKey>(id); uint8_t f[4]; k.fingerprint(f);
        o.asc("xprv", k.xprv()); char b[120]; memset(b,0,120); int n = k.xprv(b, 112); o.num("n", n); o.asc("xprv2", b);
        memset(b,0,120); k.xpub(b, 112); o.asc("xpub", b); o.hex("f", f, 4); o.asc("fs", k.fingerprint()); o.asc("addr", k.address());
        o.asc("ts", k.toString()); o.str("ser", full(&k));
        return true;
    }
    if(op=="hp_text"){
        const HDPublicKey &k = w.get<HDPublicKey>(id); uint8_t f[4]; k.fingerprint(f);
        o.asc("xpub", k.xpub()); char b[120]; memset(b,0,120); int n = k.xpub(b, 112); o.num("n", n); o.asc("xpub2", b);
        o.hex("f", f, 4); o.asc("fs", k.fingerprint()); o.asc("addr", k.address()); o.asc("ts", k.toString()); o.str("ser", full(&k));
        return true;
    }
    if(op=="hd_str" || op=="hp_str"){ // construct / parse from text
        auto b = unhex(e.S("data")); char *p = (char*)malloc(b.size()+1); memcpy(p, b.data(), b.size()); p[b.size()] = 0;
        if(op=="hd_str"){
            if(e.S("via")=="ctor") w.put(id, "hdprv", HDPrivateKey((const char*)p)); else { HDPrivateKey k; size_t n = k.fromString(p, b.size()); o.num("r", B2(n > 0)); w.put(id, "hdprv", k); }
            HDPrivateKey &k = w.get<HDPrivateKey>(id); o.num("v", B2(k.isValid())); if(k.isValid()) hdprvOut(k, o);
        }else{
            if(e.S("via")=="ctor") w.put(id, "hdpub", HDPublicKey((const char*)p)); else { HDPublicKey k; size_t n = k.fromString(p, b.size()); o.num("r", B2(n > 0)); w.put(id, "hdpub", k); }
            HDPublicKey &k = w.get<HDPublicKey>(id); o.num("v", B2(k.isValid())); if(k.isValid()) hdpubOut(k, o);
        }
        free(p); return true;
    }
    // ---------------------------------------------------------------- BIP39
    if(op=="mn_gen"){ // mnemonicFromEntropy / generateMnemonic
        auto b = unhex(e.S("data")); b.reserve(1); const char *r = NULL; string f = e.S("f");
        if(f=="entropy") r = mnemonicFromEntropy(b.data(), b.size());
        else if(f=="gen") r = generateMnemonic((uint8_t)e.N("words"), b.data(), b.size());
        else if(f=="gen24") r = generateMnemonic(b.data(), b.size());
        else if(f=="genstr") r = generateMnemonic((uint8_t)e.N("words"), string((char*)b.data(), b.size()));
        else if(f=="genstr24") r = generateMnemonic(string((char*)b.data(), b.size()));
        else if(f=="rand") r = generateMnemonic((uint8_t)e.N("words"));
        else return false;
        o.num("null", B2(r==NULL)); o.asc("m", r ? string(r) : string());
        return true;
    }
    if(op=="mn_check"){
        auto b = unhex(e.S("m")); string m((char*)b.data(), b.size());
        o.num("r", B2(checkMnemonic(m)));
        size_t cap = e.N("cap", 32); uint8_t *p = (uint8_t*)malloc(cap?cap:1); size_t n = mnemonicToEntropy(m, p, cap); o.num("n", (long)n); o.hex("ent", p, n<=cap?n:cap); free(p);
        return true;
    }
    return false;
}
bool project_keys(World &w, long id, Out &o){
    Box *b = w.obj.at(id).get(); string k = b->kind;
    if(k=="sig"){ Signature &g = w.get<Signature>(id); o.num("st", g.getStatus()); o.num("len", (long)g.length()); o.str("ser", full(&g)); uint8_t a[64]; g.bin(a, 64); o.hex("rs", a, 64); o.num("v", B2(g.isValid())); return true; }
    if(k=="ssig"){ o.num("st", b->s()->getStatus()); o.num("len", (long)b->s()->length()); o.str("ser", full(b->s())); return true; }
    if(k=="point"||k=="pub"){ ECPoint &p = *(k=="point" ? &w.get<ECPoint>(id) : (ECPoint*)&w.get<PublicKey>(id)); o.num("st", p.getStatus()); o.num("len", (long)p.length()); o.str("ser", full(&p)); o.num("v", B2(p.isValid())); o.str("pt", hexs(p.point,64)); return true; }
    if(k=="scalar"||k=="prv"){ ECScalar &p = *(k=="scalar" ? &w.get<ECScalar>(id) : (ECScalar*)&w.get<PrivateKey>(id)); o.num("st", p.getStatus()); o.num("len", (long)p.length()); o.str("ser", full(&p)); o.num("v", B2(p.isValid()));
        if(k=="prv") o.str("pub", w.get<PrivateKey>(id).publicKey().sec()); return true; }
    if(k=="hdprv"){ HDPrivateKey &p = w.get<HDPrivateKey>(id); o.num("st", p.getStatus()); o.num("len", (long)p.length()); o.str("ser", full(&p)); o.num("v", B2(p.isValid())); hdprvOut(p, o); return true; }
    if(k=="hdpub"){ HDPublicKey &p = w.get<HDPublicKey>(id); o.num("st", p.getStatus()); o.num("len", (long)p.length()); o.str("ser", full(&p)); o.num("v", B2(p.isValid())); hdpubOut(p, o); return true; }
    return false;
}
