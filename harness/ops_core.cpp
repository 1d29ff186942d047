// streamable objects, scripts, witnesses, transactions
#include "driver.h"
using std::string; using std::vector;
#define B2(x) ((x)?1:0)

static string le4(uint32_t v){ uint8_t a[4] = {(uint8_t)v,(uint8_t)(v>>8),(uint8_t)(v>>16),(uint8_t)(v>>24)}; return hexs(a,4); }
static string le8(uint64_t v){ uint8_t a[8]; for(int i=0;i<8;i++) a[i]=(uint8_t)(v>>(8*i)); return hexs(a,8); }
uint32_t un4(const string &h){ auto b = unhex(h); return b[0]|b[1]<<8|b[2]<<16|(uint32_t)b[3]<<24; }
uint64_t un8(const string &h){ auto b = unhex(h); uint64_t v=0; for(int i=7;i>=0;i--) v = v<<8|b[i]; return v; }
string LE4(uint32_t v){ return le4(v); }
string LE8(uint64_t v){ return le8(v); }

const Network *net(const string &n){
    if(n=="test") return &Testnet;
    if(n=="reg") return &Regtest;
    if(n=="sig") return &Signet;
    return &Mainnet;
}
string typeName(ScriptType t){
    switch(t){ case UNKNOWN_TYPE: return "UNKNOWN"; case DIRECT_SCRIPT: return "DIRECT"; case P2PKH: return "P2PKH"; case P2SH: return "P2SH"; case P2WPKH: return "P2WPKH";
        case P2WSH: return "P2WSH"; case P2SH_P2WPKH: return "P2SH_P2WPKH"; case P2SH_P2WSH: return "P2SH_P2WSH"; case MULTISIG: return "MULTISIG"; }
    return "bad";
}
ScriptType typeOf(const string &s){
    for(int t=UNKNOWN_TYPE; t<=MULTISIG; t++) if(typeName((ScriptType)t)==s) return (ScriptType)t;
    return UNKNOWN_TYPE;
}
string netname(const Network *n){
    if(n==&Mainnet) return "main";
    if(n==&Testnet) return "test";
    if(n==&Regtest) return "reg";
    if(n==&Signet) return "sig";
    return "bad";
}

Box *mk(const string &k){
    Box *b = NULL;
    if(k=="script") b = new BoxT<Script>();
    else if(k=="witness") b = new BoxT<Witness>();
    else if(k=="txin") b = new BoxT<TxIn>();
    else if(k=="txout") b = new BoxT<TxOut>();
    else if(k=="tx") b = new BoxT<Tx>();
    else if(k=="psbt") b = new BoxT<PSBT>();
    else if(k=="etx") b = new BoxT<ElectrumTx>();
    else if(k=="sig") b = new BoxT<Signature>();
    else if(k=="ssig") b = new BoxT<SchnorrSignature>();
    else if(k=="point") b = new BoxT<ECPoint>();
    else if(k=="pub") b = new BoxT<PublicKey>();
    else if(k=="scalar") b = new BoxT<ECScalar>();
    else if(k=="prv") b = new BoxT<PrivateKey>();
    else if(k=="hdprv") b = new BoxT<HDPrivateKey>();
    else if(k=="hdpub") b = new BoxT<HDPublicKey>();
    if(b) b->kind = k;
    return b;
}

// serialization observed through the public API, exactly sized heap buffers so that
// any overrun is a sanitizer report
string full(const Streamable *s){
    size_t n = s->length();
    uint8_t *p = (uint8_t*)malloc(n ? n : 1);
    size_t w = s->serialize(p, n);
    string r = hexs(p, w < n ? w : n);
    free(p);
    return r;
}
string scriptHex(const Script &s){ return s.scriptLen ? hexs(s.scriptArray, s.scriptLen) : ""; }

static string witHex(const Witness &w){ return full(&w); }

static string txinJson(const TxIn &t){
    return string("{\"hash\":\"")+hexs(t.hash,32)+"\",\"idx\":\""+le4(t.outputIndex)+"\",\"script\":\""+scriptHex(t.scriptSig)
        +"\",\"seq\":\""+le4(t.sequence)+"\",\"wit\":\""+witHex(t.witness)+"\",\"nw\":"+std::to_string(t.witness.count())+"}";
}
static string txoutJson(const TxOut &t){
    return string("{\"amt\":\"")+le8(t.amount)+"\",\"script\":\""+scriptHex(t.scriptPubkey)+"\"}";
}
string txJson(const Tx &t){
    string r = "{\"ver\":\""+le4(t.version)+"\",\"lock\":\""+le4(t.locktime)+"\",\"ins\":[";
    for(size_t i=0;i<t.inputsNumber;i++) r += (i?",":"") + txinJson(t.txIns[i]);
    r += "],\"outs\":[";
    for(size_t i=0;i<t.outputsNumber;i++) r += (i?",":"") + txoutJson(t.txOuts[i]);
    uint8_t a[32], b[32]; t.txid(a); t.wtxid(b);
    uint8_t ha[32], hb[32]; t.hash(ha); t.whash(hb);
    r += "],\"segwit\":"+std::to_string(B2(t.isSegwit()))+",\"txid\":\""+hexs(a,32)+"\",\"wtxid\":\""+hexs(b,32)
        +"\",\"hash\":\""+hexs(ha,32)+"\",\"whash\":\""+hexs(hb,32)+"\",\"stxid\":\""+t.txid()+"\",\"swtxid\":\""+t.wtxid()+"\"}";
    return r;
}

// a user-defined source that hands out its bytes through the ParseStream interface
struct CustomSource : ParseStream {
    vector<uint8_t> d; size_t c; int l;
    CustomSource(const vector<uint8_t> &x):d(x),c(0),l(-1){}
    size_t available(){ return d.size()-c; }
    int read(){ if(c<d.size()){ l = d[c++]; return l; } return -1; }
    size_t read(uint8_t *a, size_t n){ size_t k=0; while(k<n && c<d.size()) a[k++] = d[c++]; if(k) l = a[k-1]; return k; }
    int getLast(){ return l; }
};
struct CustomSink : SerializeStream {
    vector<uint8_t> d; size_t cap;
    CustomSink(size_t n):cap(n){}
    size_t available(){ return cap-d.size(); }
    size_t write(uint8_t b){ if(d.size()<cap){ d.push_back(b); return 1; } return 0; }
    size_t write(const uint8_t *a, size_t n){ size_t k=0; while(k<n && d.size()<cap) d.push_back(a[k++]); return k; }
};

static size_t feed(Streamable *s, const string &data, const string &fmt){
    if(fmt=="hex" || fmt=="HEX" || fmt=="hexs"){
        string t = data; if(fmt=="HEX") for(char &c : t) c = toupper(c);
        if(fmt=="hexs") return s->parse(std::string(t));
        char *p = (char*)malloc(t.size() ? t.size() : 1); memcpy(p, t.data(), t.size());
        size_t r = s->parse(p, t.size(), HEX_ENCODING);
        free(p); return r;
    }
    vector<uint8_t> b = unhex(data);
    if(fmt=="custom"){ CustomSource c(b); return c.parse(s); }
    uint8_t *p = (uint8_t*)malloc(b.size() ? b.size() : 1); memcpy(p, b.data(), b.size());
    size_t r = s->parse(p, b.size());
    free(p); return r;
}
void project(World &w, long id, Out &o);

bool ops_core(World &w, const Ev &e, Out &o){
    const string op = e.S("op"); long id = e.N("o");
    if(op=="new"){ Box *b = mk(e.S("k")); if(!b) return false; w.obj[id].reset(b); return true; }
    if(op=="feed"){
        Streamable *s = w.obj.at(id)->s();
        size_t n = feed(s, e.S("data"), e.S("fmt"));
        o.num("n", (long)n); o.num("st", s->getStatus());
        return true;
    }
    if(op=="feedtext"){ // text in the HEX parser that need not be hex; data is the hex code of the text
        Streamable *s = w.obj.at(id)->s();
        vector<uint8_t> b = unhex(e.S("data"));
        char *p = (char*)malloc(b.size() ? b.size() : 1); memcpy(p, b.data(), b.size());
        size_t n = s->parse(p, b.size(), HEX_ENCODING); free(p);
        o.num("n", (long)n); o.num("st", s->getStatus());
        return true;
    }
    if(op=="reset"){ w.obj.at(id)->s()->reset(); o.num("st", w.obj.at(id)->s()->getStatus()); return true; }
    if(op=="get"){ project(w, id, o); return true; }
    if(op=="ser"){
        Streamable *s = w.obj.at(id)->s();
        size_t off = e.N("off"), len = e.N("len"); string fmt = e.S("fmt");
        if(fmt=="custom"){ CustomSink c(len); size_t n = c.serialize(s, off); o.num("n", (long)n); o.str("out", hexs(c.d.data(), c.d.size())); return true; }
        if(fmt=="str"){ string r = s->serialize((size_t)off, (size_t)len); o.num("n", (long)r.size()/2); o.str("out", r); return true; }
        uint8_t *p = (uint8_t*)malloc(len ? len : 1);
        size_t n = s->serialize(p, len, off, fmt=="hex" ? HEX_ENCODING : RAW);
        o.num("n", (long)n);
        if(fmt=="hex") o.str("out", string((char*)p, 2*n <= len ? 2*n : len));
        else o.str("out", hexs(p, n<=len ? n : len));
        free(p);
        return true;
    }
    if(op=="str"){ // toString, into exactly stringLength()+1 bytes, and the std::string form
        Streamable *s = w.obj.at(id)->s();
        o.asc("out", s->toString());
        return true;
    }
    if(op=="fromstr"){ // data: hex code of the text
        Streamable *s = w.obj.at(id)->s();
        vector<uint8_t> b = unhex(e.S("data"));
        char *p = (char*)malloc(b.size()+1); memcpy(p, b.data(), b.size()); p[b.size()] = 0;
        size_t n = s->fromString(p, b.size()); free(p);
        o.num("n", (long)n); o.num("st", s->getStatus());
        return true;
    }
    if(op=="use"){ // touch an object in whatever state it is; nothing about the values is recorded
        Streamable *s = w.obj.at(id)->s(); size_t n = s->length(); if(n > 2000000) n = 2000000;
        uint8_t *p = (uint8_t*)malloc(n ? n : 1); volatile uint8_t sum = 0; size_t m = s->serialize(p, n);
        for(size_t i=0;i<m && i<n;i++) sum += p[i];
        free(p); return true;
    }
    if(op=="copy"){ Box *b = w.obj.at(e.N("p"))->clone(); w.obj[id].reset(b); return true; }     // T o(p)
    if(op=="assign"){ w.obj.at(id)->assign(w.obj.at(e.N("p")).get()); return true; }             // o = p
    if(op=="del"){ w.obj.erase(id); return true; }
    if(op=="eq"){
        string k = w.obj.at(id)->kind; long p = e.N("p"); bool r, nr;
        if(k=="script"){ r = w.get<Script>(id)==w.get<Script>(p); nr = w.get<Script>(id)!=w.get<Script>(p); }
        else if(k=="witness"){ r = w.get<Witness>(id)==w.get<Witness>(p); nr = w.get<Witness>(id)!=w.get<Witness>(p); }
        else if(k=="sig"){ r = w.get<Signature>(id)==w.get<Signature>(p); nr = w.get<Signature>(id)!=w.get<Signature>(p); }
        else if(k=="ssig"){ r = w.get<SchnorrSignature>(id)==w.get<SchnorrSignature>(p); nr = w.get<SchnorrSignature>(id)!=w.get<SchnorrSignature>(p); }
        else if(k=="point"){ r = w.get<ECPoint>(id)==w.get<ECPoint>(p); nr = w.get<ECPoint>(id)!=w.get<ECPoint>(p); }
        else if(k=="pub"){ r = w.get<PublicKey>(id)==w.get<PublicKey>(p); nr = w.get<PublicKey>(id)!=w.get<PublicKey>(p); }
        else if(k=="scalar"){ r = w.get<ECScalar>(id)==w.get<ECScalar>(p); nr = w.get<ECScalar>(id)!=w.get<ECScalar>(p); }
        else if(k=="prv"){ r = w.get<PrivateKey>(id)==w.get<PrivateKey>(p); nr = w.get<PrivateKey>(id)!=w.get<PrivateKey>(p); }
        else return false;
        o.num("r", B2(r)); o.num("nr", B2(nr)); return true;
    }
    // ---- scripts
    if(op=="s_code"){ o.num("r", (long)w.get<Script>(id).push((uint8_t)e.N("code"))); return true; }
    if(op=="s_data"){ auto b = unhex(e.S("data")); b.reserve(1); o.num("r", (long)w.get<Script>(id).push(b.data(), b.size())); return true; }
    if(op=="s_pub"){ o.num("r", (long)w.get<Script>(id).push(w.get<PublicKey>(e.N("p")))); return true; }
    if(op=="s_sig"){ o.num("r", (long)w.get<Script>(id).push(w.get<Signature>(e.N("p")), (SigHashType)e.N("t",1))); return true; }
    if(op=="s_script"){ o.num("r", (long)w.get<Script>(id).push(w.get<Script>(e.N("p")))); return true; }
    if(op=="s_type"){ o.str("type", typeName(w.get<Script>(id).type())); o.num("b", B2((bool)w.get<Script>(id))); return true; }
    if(op=="s_clear"){ w.get<Script>(id).clear(); return true; }
    if(op=="s_from"){ auto b = unhex(e.S("data")); b.reserve(1); w.put(id, "script", Script(b.data(), b.size())); return true; }
    if(op=="s_addr"){ // Script from address text
        auto b = unhex(e.S("data")); string t((char*)b.data(), b.size());
        char *p = (char*)malloc(t.size()+1); memcpy(p, t.c_str(), t.size()+1);
        w.put(id, "script", Script((const char*)p)); free(p);
        o.str("script", scriptHex(w.get<Script>(id)));
        return true;
    }
    if(op=="s_toaddr"){
        const Script &s = w.get<Script>(id);
        char buf[100]; memset(buf, 'x', sizeof buf);
        size_t n = s.address(buf, sizeof buf, net(e.S("net")));
        o.num("n", (long)n); o.asc("a", n && n<100 ? string(buf, n) : string());
        o.asc("as", s.address(net(e.S("net"))));
        size_t cap = e.N("cap", -1);
        if(e.has("cap")){ char *p = (char*)malloc(cap?cap:1); size_t m = s.address(p, cap, net(e.S("net"))); o.num("m", (long)m); o.asc("b", m<=cap?string(p,m):string("?")); free(p); }
        return true;
    }
    if(op=="s_kind"){ // script made from a key: pkh, wpkh, Script(pub,type)
        const PublicKey &p = w.get<PublicKey>(e.N("p")); string t = e.S("t");
        Script s;
        if(t=="pkh") s = pkh(p); else if(t=="wpkh") s = wpkh(p);
        else if(t=="P2PKH") s = Script(p, P2PKH); else if(t=="P2WPKH") s = Script(p, P2WPKH);
        else if(t=="P2SH_P2WPKH") s = Script(p, P2SH_P2WPKH);
        else if(t=="scriptP2PKH") s = p.script(P2PKH); else if(t=="scriptP2WPKH") s = p.script(P2WPKH);
        else if(t=="scriptP2SH_P2WPKH") s = p.script(P2SH_P2WPKH);
        else return false;
        w.put(id, "script", s); o.str("script", scriptHex(s)); return true;
    }
    if(op=="s_wrap"){
        const Script &p = w.get<Script>(e.N("p")); string t = e.S("t");
        Script s;
        if(t=="sh") s = sh(p); else if(t=="wsh") s = wsh(p);
        else if(t=="P2SH") s = Script(p, P2SH); else if(t=="P2WSH") s = Script(p, P2WSH);
        else if(t=="spkP2SH") s = p.scriptPubkey(P2SH); else if(t=="spkP2WSH") s = p.scriptPubkey(P2WSH);
        else return false;
        w.put(id, "script", s); o.str("script", scriptHex(s)); return true;
    }
    if(op=="s_multi"){ // keys: concatenated sec strings "len:hex" separated by ','
        vector<PublicKey> ks; string l = e.S("keys"); size_t i=0;
        while(i<l.size()){ size_t j=l.find(',',i); if(j==string::npos) j=l.size(); auto b=unhex(l.substr(i,j-i)); PublicKey k; k.parse(b.data(), b.size()); ks.push_back(k); i=j+1; }
        vector<string> before; for(auto &k: ks) before.push_back(k.sec());
        Script s = e.N("sorted") ? sortedmulti((uint8_t)e.N("m"), ks.data(), (uint8_t)ks.size()) : multi((uint8_t)e.N("m"), ks.data(), (uint8_t)ks.size());
        bool same = true; for(size_t k=0;k<ks.size();k++) if(ks[k].sec()!=before[k]) same = false;
        w.put(id, "script", s); o.str("script", scriptHex(s)); o.num("kept", B2(same)); return true;
    }
    // ---- witnesses
    if(op=="w_data"){ auto b = unhex(e.S("data")); b.reserve(1); o.num("r", (long)w.get<Witness>(id).push(b.data(), b.size())); return true; }
    if(op=="w_pub"){ o.num("r", (long)w.get<Witness>(id).push(w.get<PublicKey>(e.N("p")))); return true; }
    if(op=="w_sig"){ o.num("r", (long)w.get<Witness>(id).push(w.get<Signature>(e.N("p")), (SigHashType)e.N("t",1))); return true; }
    if(op=="w_script"){ o.num("r", (long)w.get<Witness>(id).push(w.get<Script>(e.N("p")))); return true; }
    if(op=="w_sigpub"){ w.put(id, "witness", Witness(w.get<Signature>(e.N("p")), w.get<PublicKey>(e.N("q")))); return true; }
    if(op=="w_clear"){ w.get<Witness>(id).clear(); return true; }
    if(op=="w_from"){ auto b = unhex(e.S("data")); b.reserve(1); w.put(id, "witness", Witness(b.data(), b.size())); return true; }
    // ---- transactions
    if(op=="ti_new"){ // id is in display order
        auto h = unhex(e.S("id")); auto sb = unhex(e.S("script")); sb.reserve(1);
        Script s(sb.data(), sb.size()); string c = e.S("ctor");
        uint32_t idx = un4(e.S("idx")), seq = un4(e.S("seq"));
        if(c=="bytes_script") w.put(id, "txin", TxIn(h.data(), idx, s, seq));
        else if(c=="bytes") w.put(id, "txin", TxIn(h.data(), idx, seq));
        else if(c=="hex_script") w.put(id, "txin", TxIn(e.S("id").c_str(), idx, s, seq));
        else if(c=="hex") w.put(id, "txin", TxIn(e.S("id").c_str(), idx, seq));
        else return false;
        return true;
    }
    if(op=="ti_wit"){ w.get<TxIn>(id).witness = w.get<Witness>(e.N("p")); return true; }
    if(op=="to_new"){
        auto sb = unhex(e.S("script")); sb.reserve(1); Script s(sb.data(), sb.size()); uint64_t a = un8(e.S("amt"));
        if(e.N("rev")) w.put(id, "txout", TxOut(s, a)); else w.put(id, "txout", TxOut(a, s));
        return true;
    }
    if(op=="tx_in"){ o.num("r", w.get<Tx>(id).addInput(w.get<TxIn>(e.N("p")))); return true; }
    if(op=="tx_out"){ o.num("r", w.get<Tx>(id).addOutput(w.get<TxOut>(e.N("p")))); return true; }
    if(op=="tx_set"){ w.get<Tx>(id).version = un4(e.S("ver")); w.get<Tx>(id).locktime = un4(e.S("lock")); return true; }
    if(op=="tx_wit"){ w.get<Tx>(id).txIns[e.N("i")].witness = w.get<Witness>(e.N("p")); return true; }
    if(op=="tx_ssig"){ w.get<Tx>(id).txIns[e.N("i")].scriptSig = w.get<Script>(e.N("p")); return true; }
    if(op=="tx_iset"){
        TxIn &n = w.get<Tx>(id).txIns[e.N("i")]; string f = e.S("f"), v = e.S("v");
        if(f=="hash"){ auto b = unhex(v); memcpy(n.hash, b.data(), 32); }
        else if(f=="idx") n.outputIndex = un4(v); else if(f=="seq") n.sequence = un4(v); else return false;
        return true;
    }
    if(op=="tx_oset"){
        TxOut &n = w.get<Tx>(id).txOuts[e.N("i")]; string f = e.S("f"), v = e.S("v");
        if(f=="amt") n.amount = un8(v); else if(f=="script"){ auto b = unhex(v); b.reserve(1); n.scriptPubkey = Script(b.data(), b.size()); } else return false;
        return true;
    }
    if(op=="tx_swap"){
        Tx &t = w.get<Tx>(id); int i = e.N("i"), j = e.N("j");
        if(e.S("f")=="in"){ TxIn x = t.txIns[i]; t.txIns[i] = t.txIns[j]; t.txIns[j] = x; }
        else { TxOut x = t.txOuts[i]; t.txOuts[i] = t.txOuts[j]; t.txOuts[j] = x; }
        return true;
    }
    if(op=="tx_hashes"){
        const Tx &t = w.get<Tx>(id); uint8_t h[32];
        t.hashPrevouts(h); o.hex("hp", h, 32); t.hashSequence(h); o.hex("hs", h, 32); t.hashOutputs(h); o.hex("ho", h, 32);
        return true;
    }
    if(op=="tx_sighash"){
        auto sb = unhex(e.S("script")); sb.reserve(1); Script s(sb.data(), sb.size()); uint8_t h[32];
        if(e.S("alg")=="legacy") w.get<Tx>(id).sigHash(h, (uint8_t)e.N("i"), s);
        else w.get<Tx>(id).sigHashSegwit(h, (uint8_t)e.N("i"), s, un8(e.S("amt")));
        o.hex("h", h, 32); return true;
    }
    if(op=="tx_sign"){
        Tx &t = w.get<Tx>(id); auto sb = unhex(e.S("script")); sb.reserve(1); Script s(sb.data(), sb.size());
        auto k = unhex(e.S("key")); PrivateKey pk(k.data(), !e.N("unc"), net("main")); string m = e.S("m"); Signature g;
        uint8_t i = (uint8_t)e.N("i");
        if(m=="legacy") g = t.signInput(i, pk, s);
        else if(m=="legacy_pkh") g = t.signInput(i, pk);
        else if(m=="segwit_wpkh") g = t.signSegwitInput(i, pk, un8(e.S("amt")), P2WPKH);
        else if(m=="segwit_nested_wpkh") g = t.signSegwitInput(i, pk, un8(e.S("amt")), P2SH_P2WPKH);
        else if(m=="segwit_wsh") g = t.signSegwitInput(i, pk, s, un8(e.S("amt")), P2WSH);
        else if(m=="segwit_nested_wsh") g = t.signSegwitInput(i, pk, s, un8(e.S("amt")), P2SH_P2WSH);
        else return false;
        uint8_t b[65]; g.bin(b, 65); o.hex("sig", b, 64); o.num("rec", b[64]);
        return true;
    }
    return false;
}
void project_core(World &w, long id, Out &o){
    Box *b = w.obj.at(id).get(); string k = b->kind;
    o.num("st", b->s()->getStatus());
    o.num("len", (long)b->s()->length());
    o.str("ser", full(b->s()));
    if(k=="script"){ o.str("script", scriptHex(w.get<Script>(id))); o.num("b", B2((bool)w.get<Script>(id))); }
    else if(k=="witness"){ o.num("nw", w.get<Witness>(id).count()); o.num("b", B2((bool)w.get<Witness>(id))); }
    else if(k=="txin") o.raw("f", txinJson(w.get<TxIn>(id)));
    else if(k=="txout") o.raw("f", txoutJson(w.get<TxOut>(id)));
    else if(k=="tx") o.raw("f", txJson(w.get<Tx>(id)));
}
