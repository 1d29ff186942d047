// PSBT and Electrum transactions
#include "driver.h"
using std::string; using std::vector;
string full(const Streamable *s);
string scriptHex(const Script &s);
string LE4(uint32_t v); string LE8(uint64_t v);
string typeName(ScriptType t);
static string q(const string &k, const string &v){ return "\""+k+"\":\""+v+"\""; }
static string secHex(const PublicKey &p){ return full(&p); }
static string dersJson(const PSBTDerivation *d, size_t n){
    string r = "[";
    for(size_t i=0;i<n;i++){
        string path; for(size_t j=0;j<d[i].derivationLen;j++) path += LE4(d[i].derivation[j]);
        r += (i?",{":"{")+q("pub", secHex(d[i].pubkey))+","+q("fp", hexs(d[i].fingerprint, 4))+","+q("path", path)+"}";
    }
    return r+"]";
}
static string baseTx(const Tx &t){   // the transaction without witness data
    Tx c = t; for(size_t i=0;i<c.inputsNumber;i++) c.txIns[i].witness = Witness();
    return full(&c);
}
static string psbtJson(const PSBT &p){
    string r = "{"+q("tx", baseTx(p.tx))+","+q("fee", LE8(p.fee()))+",\"ins\":[";
    for(size_t i=0;i<p.tx.inputsNumber;i++){
        const PSBTInputMetadata &m = p.txInsMeta[i];
        r += (i?",{":"{")+q("amt", LE8(m.txOut.amount))+","+q("script", scriptHex(m.txOut.scriptPubkey))+","+q("redeem", scriptHex(m.redeemScript))+","
            +q("wscript", scriptHex(m.witnessScript))+",\"ders\":"+dersJson(m.derivations, m.derivationsLen)+",\"sigs\":[";
        for(size_t j=0;j<m.signaturesLen;j++){
            uint8_t b[65]; Signature g = m.signatures[j].signature; g.bin(b, 65);
            r += (j?",{":"{")+q("pub", secHex(m.signatures[j].pubkey))+","+q("rs", hexs(b, 64))+"}";
        }
        r += "]}";
    }
    r += "],\"outs\":[";
    for(size_t i=0;i<p.tx.outputsNumber;i++){
        const PSBTOutputMetadata &m = p.txOutsMeta[i];
        r += (i?",{":"{")+q("redeem", scriptHex(m.redeemScript))+","+q("wscript", scriptHex(m.witnessScript))+",\"ders\":"+dersJson(m.derivations, m.derivationsLen)+"}";
    }
    return r+"]}";
}
static string etxJson(const ElectrumTx &t){
    string r = "{"+q("tx", full(&t.tx))+","+q("fee", LE8(t.fee()))+",\"ins\":[";
    for(size_t i=0;t.txInsMeta && i<t.tx.inputsNumber;i++){
        const ElectrumInputMetadata &m = t.txInsMeta[i];
        uint8_t d[4] = {(uint8_t)m.derivation[0],(uint8_t)(m.derivation[0]>>8),(uint8_t)m.derivation[1],(uint8_t)(m.derivation[1]>>8)};
        r += (i?",{":"{")+q("hd", full(&m.hd))+","+q("der", hexs(d,4))+","+q("amt", LE8(m.amount))+","+q("type", typeName(m.hd.type))+"}";
    }
    return r+"]}";
}
bool ops_psbt(World &w, const Ev &e, Out &o){
    const string op = e.S("op"); long id = e.N("o");
    if(op=="ps_sign"){ o.num("r", w.get<PSBT>(id).sign(w.get<HDPrivateKey>(e.N("p")))); return true; }
    if(op=="el_sign"){ o.num("r", w.get<ElectrumTx>(id).sign(w.get<HDPrivateKey>(e.N("p")))); return true; }
    if(op=="ps_mine"){
        bool pub = w.obj.at(e.N("p"))->kind=="hdpub"; const PSBT &t = w.get<PSBT>(id);
        o.num("r", (pub ? t.isMine((uint8_t)e.N("i"), w.get<HDPublicKey>(e.N("p"))) : t.isMine((uint8_t)e.N("i"), w.get<HDPrivateKey>(e.N("p")))) ? 1 : 0);
        return true;
    }
    if(op=="ps_add"){
        auto k = unhex(e.S("key")), v = unhex(e.S("val")); k.reserve(1); v.reserve(1);
        Script ks(k.data(), k.size()), vs(v.data(), v.size());
        o.num("r", w.get<PSBT>(id).add((uint8_t)e.N("i"), &ks, &vs)); return true;
    }
    if(op=="ps_b64"){ o.asc("out", w.get<PSBT>(id).toBase64()); return true; }
    if(op=="ps_again"){     // what p writes, read by a new object
        PSBT &t = w.get<PSBT>(e.N("p")); string f = e.S("fmt"); PSBT q;
        if(f=="raw"){ vector<uint8_t> b(t.length()+1); size_t n = t.serialize(b.data(), b.size()); o.num("n", (long)q.parse(b.data(), n)); }
        else if(f=="hex"){ string x = t.toString(); o.num("n", (long)q.parse(x.c_str(), x.size())); }
        else o.num("n", (long)q.parseBase64(t.toBase64()));
        w.put(id, "psbt", q); return true;
    }
    if(op=="ps_feed64"){
        auto b = unhex(e.S("data")); PSBT &t = w.get<PSBT>(id);
        o.num("n", (long)t.parseBase64(string((const char*)b.data(), b.size()))); o.num("st", t.getStatus()); return true;
    }
    return false;
}
bool project_psbt(World &w, long id, Out &o){
    Box *b = w.obj.at(id).get();
    if(b->kind!="psbt" && b->kind!="etx") return false;
    o.num("st", b->s()->getStatus()); o.num("len", (long)b->s()->length()); o.str("ser", full(b->s()));
    if(b->kind=="psbt"){ const PSBT &p = w.get<PSBT>(id); o.num("v", p.isValid()); o.raw("f", psbtJson(p)); }
    else{ const ElectrumTx &p = w.get<ElectrumTx>(id); o.num("v", p.isValid()); o.raw("f", etxJson(p)); }
    return true;
}
