// the remaining forms of the public API: constructors, buffer variants, plain byte streams
#include "driver.h"
using std::string; using std::vector;
#define B2(x) ((x)?1:0)
string full(const Streamable *s);
const Network *net(const string &n);
string netname(const Network *n);
string typeName(ScriptType t);
ScriptType typeOf(const string &s);
uint32_t un4(const string &h); uint64_t un8(const string &h);
string LE4(uint32_t v);
string scriptHex(const Script &s);
void hdprvOut(const HDPrivateKey &k, Out &O);
void hdpubOut(const HDPublicKey &k, Out &O);

static uint8_t *heap(const vector<uint8_t> &b){ uint8_t *p = (uint8_t*)malloc(b.size() ? b.size() : 1); memcpy(p, b.data(), b.size()); return p; }
static char *cstr(const string &s){ char *p = (char*)malloc(s.size()+1); memcpy(p, s.c_str(), s.size()+1); return p; }
// text functions writing into a buffer of exactly cap bytes: result and, if it claims success, the text
template<class F> static void into(Out &o, const char *nm, size_t cap, F f){
    char *p = (char*)malloc(cap ? cap : 1); memset(p, 'x', cap ? cap : 1);
    long n = (long)f(p, cap); string t;
    if(n > 0 && (size_t)n <= cap) t = string(p, n);
    free(p); o.raw(nm, "{\"n\":"+std::to_string(n)+",\"t\":\""+hexs(t)+"\"}");
}
bool ops_api(World &w, const Ev &e, Out &o){
    const string op = e.S("op"); long id = e.N("o");
    if(op=="pt_ctor"){ // points and public keys from x||y, SEC bytes, SEC hex
        auto b = unhex(e.S("data")); string via = e.S("via"); uint8_t *p = heap(b); char *h = cstr(e.S("data")); bool c = e.N("c");
        ECPoint q; PublicKey k; bool isk = false;
        if(via=="xy") q = ECPoint(p, c); else if(via=="sec") q = ECPoint((const uint8_t*)p); else if(via=="hex") q = ECPoint((const char*)h);
        else { isk = true;
            if(via=="kxy") k = PublicKey(p, c); else if(via=="ksec") k = PublicKey((const uint8_t*)p); else if(via=="khex") k = PublicKey((const char*)h);
            else if(via=="kpt"){ ECPoint t(p, c); k = PublicKey(t); } else return false; }
        free(p); free(h);
        if(isk) w.put(id, "pub", k); else w.put(id, "point", q);
        const ECPoint &r = isk ? (ECPoint&)w.get<PublicKey>(id) : w.get<ECPoint>(id);
        o.num("v", B2(r.isValid())); o.num("cc", B2(r.compressed)); o.str("pt", r.isValid() ? hexs(r.point,64) : "");
        o.num("b", B2((bool)r));
        if(r.isValid()){ size_t cap = e.N("cap"); uint8_t *z = (uint8_t*)malloc(cap?cap:1); size_t n = r.sec(z, cap); o.hex("sec", z, n<=cap?n:cap); n = r.x(z, cap); o.num("xn", (long)n); o.hex("x", z, n<=cap?n:0); free(z);
            o.str("xs", r.x()); o.str("ss", r.sec()); o.num("sl", (long)r.stringLength()); }
        return true;
    }
    if(op=="sc_ctor"){ // scalars from bytes and hex
        auto b = unhex(e.S("data")); uint8_t *p = heap(b); char *h = cstr(e.S("data"));
        if(e.S("via")=="bytes") w.put(id, "scalar", ECScalar(p, b.size())); else w.put(id, "scalar", ECScalar((const char*)h));
        free(p); free(h); o.num("st", w.get<ECScalar>(id).getStatus()); return true;
    }
    if(op=="sig_ctor"){
        auto b = unhex(e.S("data")); uint8_t *p = heap(b); char *h = cstr(e.S("data")); string via = e.S("via");
        if(via=="der") w.put(id, "sig", Signature((const uint8_t*)p)); else if(via=="derlen") w.put(id, "sig", Signature(p, b.size())); else w.put(id, "sig", Signature((const char*)h));
        free(p); free(h); o.num("st", w.get<Signature>(id).getStatus()); return true;
    }
    if(op=="ssig_ctor"){
        auto b = unhex(e.S("data")); uint8_t *p = heap(b); char *h = cstr(e.S("data")); string via = e.S("via");
        if(via=="rs") w.put(id, "ssig", SchnorrSignature(p, p+32)); else if(via=="arr") w.put(id, "ssig", SchnorrSignature((const uint8_t*)p)); else w.put(id, "ssig", SchnorrSignature((const char*)h));
        free(p); free(h); o.num("st", w.get<SchnorrSignature>(id).getStatus()); o.num("v", B2(w.get<SchnorrSignature>(id).isValid())); return true;
    }
    if(op=="sig_index"){ // the recovery index travels with the binary form
        auto b = unhex(e.S("data")); uint8_t *p = heap(b); Signature g; g.fromBin(p, b.size()); free(p); uint8_t a[65]; memset(a, 0xee, 65); g.bin(a, 65);
        o.hex("out", a, 65); o.num("idx", g.index); Signature c(g), d; d = g; o.num("ci", c.index); o.num("di", d.index); o.num("v", B2(g.isValid())); return true;
    }
    if(op=="prv_addr"){ // addresses of a private key, in buffers
        auto b = unhex(e.S("key")); PrivateKey k(b.data(), !e.N("unc"), net(e.S("net"))); size_t cap = e.N("cap"); PublicKey q = k.publicKey(); const Network *n = net(e.S("net"));
        into(o, "leg", cap, [&](char *p, size_t c){ return k.legacyAddress(p, c); }); into(o, "adr", cap, [&](char *p, size_t c){ return k.address(p, c); });
        into(o, "nest", cap, [&](char *p, size_t c){ return k.nestedSegwitAddress(p, c); });
        into(o, "qleg", cap, [&](char *p, size_t c){ return q.legacyAddress(p, c, n); }); into(o, "qadr", cap, [&](char *p, size_t c){ return q.address(p, c, n); });
        into(o, "qnest", cap, [&](char *p, size_t c){ return q.nestedSegwitAddress(p, c, n); });
        into(o, "wif", cap, [&](char *p, size_t c){ return k.wif(p, c); });
        if(cap >= 76){ // segwit addresses need 76 bytes
            char *p = (char*)malloc(cap); long r = k.segwitAddress(p, cap); o.num("segn", r); o.asc("seg", string(p)); r = q.segwitAddress(p, cap, n); o.num("qsegn", r); o.asc("qseg", string(p)); free(p); }
        return true;
    }
    if(op=="hd_buf"){ // texts of an HD key into buffers
        size_t cap = e.N("cap");
        if(w.obj.at(id)->kind=="hdprv"){ const HDPrivateKey &k = w.get<HDPrivateKey>(id);
            into(o, "x", cap, [&](char *p, size_t c){ return k.xprv(p, c); }); into(o, "xp", cap, [&](char *p, size_t c){ return k.xpub(p, c); }); 
            into(o, "ts", cap, [&](char *p, size_t c){ return k.toString(p, c); });
            if(cap >= 76){ char *p = (char*)malloc(cap); memset(p, 0, cap); k.address(p, cap); o.asc("adr", string(p)); free(p); } }
        else { const HDPublicKey &k = w.get<HDPublicKey>(id);
            into(o, "x", cap, [&](char *p, size_t c){ return k.xpub(p, c); }); into(o, "ts", cap, [&](char *p, size_t c){ return k.toString(p, c); });
            if(cap >= 76){ char *p = (char*)malloc(cap); memset(p, 0, cap); k.address(p, cap); o.asc("adr", string(p)); free(p); } }
        return true;
    }
    if(op=="hp_new"){
        auto s = unhex(e.S("pt")), c = unhex(e.S("cc")), f = unhex(e.S("fp"));
        w.put(id, "hdpub", HDPublicKey(s.data(), c.data(), (uint8_t)e.N("depth"), f.empty() ? NULL : f.data(), un4(e.S("child")), net(e.S("net")), typeOf(e.S("type"))));
        o.num("v", B2(w.get<HDPublicKey>(id).isValid())); hdpubOut(w.get<HDPublicKey>(id), o); return true;
    }
    if(op=="hd_same"){ // comparison operators of keys
        const HDPrivateKey &a = w.get<HDPrivateKey>(id), &b = w.get<HDPrivateKey>(e.N("p")); o.num("r", B2(a==b)); o.num("nr", B2(a!=b)); return true;
    }
    if(op=="to_addr"){ // output paying to an address
        char *p = cstr(string((char*)unhex(e.S("data")).data(), unhex(e.S("data")).size())); uint64_t a = un8(e.S("amt"));
        if(e.N("rev")) w.put(id, "txout", TxOut((const char*)p, a)); else w.put(id, "txout", TxOut(a, (const char*)p));
        free(p); o.asc("a", w.get<TxOut>(id).address(net(e.S("net")))); into(o, "buf", 100, [&](char *q, size_t c){ return w.get<TxOut>(id).address(q, c, net(e.S("net"))); }); return true;
    }
    if(op=="s_addrs"){ // std::string form of the address constructor
        string t((char*)unhex(e.S("data")).data(), unhex(e.S("data")).size()); w.put(id, "script", Script(t)); o.str("script", scriptHex(w.get<Script>(id))); return true;
    }
    if(op=="txt"){ // every textual form of an object through Readable / Streamable
        Streamable *s = w.obj.at(id)->s(); size_t n = s->stringLength(); o.num("sl", (long)n);
        char *p = (char*)malloc(n+1); memset(p, 0, n+1); size_t r = s->toString(p, n+1); o.num("n", (long)r); o.asc("out", string(p)); free(p);
        std::string z = *s; o.asc("conv", z); o.asc("ts", s->toString()); o.asc("ser", s->serialize(0, 0)); return true;
    }
    // ---------------------------------------------------------------- plain byte streams
    if(op=="bs_read"){ // data: bytes (or the text if hex); plan: comma separated counts, 0 = one byte through read()
        string via = e.S("via"); vector<uint8_t> b = unhex(e.S("data")); string t((char*)b.data(), b.size()); uint8_t *p = heap(b); char *h = cstr(t);
        ParseByteStream *s = via=="raw" ? new ParseByteStream(p, b.size()) : via=="hex" ? new ParseByteStream(p, b.size(), HEX_ENCODING) : via=="cstr" ? new ParseByteStream((const char*)h) : via=="null" ? new ParseByteStream((const char*)NULL) : new ParseByteStream((const char*)h, RAW);
        string res, plan = e.S("plan"); std::stringstream ss(plan); string it;
        while(std::getline(ss, it, ',')){
            int k = atoi(it.c_str()); long av = (long)s->available(); string got; long n;
            if(k==0){ int c = s->read(); n = c>=0 ? 1 : 0; if(c>=0){ uint8_t x = (uint8_t)c; got = hexs(&x,1); } }
            else { uint8_t *q = (uint8_t*)malloc(k); n = (long)s->read(q, k); got = hexs(q, n<=k ? n : k); free(q); }
            res += (res.empty()?"":",")+string("{\"k\":")+std::to_string(k)+",\"av\":"+std::to_string(av)+",\"n\":"+std::to_string(n)+",\"d\":\""+got+"\",\"last\":"+std::to_string(s->getLast())+"}";
        }
        delete s; free(p); free(h); o.raw("res", "["+res+"]"); return true;
    }
    if(op=="bs_write"){ // write pieces (comma separated hex; "=xx" one byte through write(b)) into a stream of cap bytes
        size_t cap = e.N("cap"); string via = e.S("via"); char *p = (char*)malloc(cap?cap:1); memset(p, 'z', cap?cap:1);
        SerializeByteStream *s = via=="raw" ? new SerializeByteStream((uint8_t*)p, cap) : via=="hex" ? new SerializeByteStream((uint8_t*)p, cap, HEX_ENCODING) : new SerializeByteStream(p, cap);
        string res; std::stringstream ss(e.S("plan")); string it;
        while(std::getline(ss, it, ',')){
            long av = (long)s->available(), n;
            if(it[0]=='=') n = (long)s->write((uint8_t)unhex(it.substr(1))[0]); else { auto b = unhex(it); n = (long)s->write(b.data(), b.size()); }
            res += (res.empty()?"":",")+string("{\"p\":\"")+it.substr(it[0]=='=')+"\",\"av\":"+std::to_string(av)+",\"n\":"+std::to_string(n)+"}";
        }
        long left = (long)s->available(); delete s; o.raw("res", "["+res+"]"); o.num("left", left);
        o.hex("out", (uint8_t*)p, cap); free(p); return true;
    }
    return false;
}
