// text encodings, integers, hashes, descriptor checksum
#include "driver.h"
#include <sys/time.h>
#include <unistd.h>
using std::string; using std::vector;
#define B2(x) ((x)?1:0)
uint64_t un8(const string &h);
string LE8(uint64_t v);
template<class F> static void outbuf(Out &o, const Ev &e, F f){ // exactly sized output buffer
    size_t cap = e.N("cap"); uint8_t *p = (uint8_t*)malloc(cap?cap:1); memset(p, 0xEE, cap?cap:1);
    size_t n = f(p, cap); o.num("n", (long)n); o.hex("out", p, n<=cap?n:cap);
    free(p);
}
bool ops_codec(World &w, const Ev &e, Out &o){
    const string op = e.S("op"); long id = e.N("o");
    if(op=="enc"){ // bytes -> text
        auto b = unhex(e.S("data")); size_t n = b.size(); string f = e.S("f"); uint8_t fl = (uint8_t)e.N("fl");
        uint8_t *p = (uint8_t*)malloc(n?n:1); memcpy(p, b.data(), n);
        string s; size_t L = 0;
        if(f=="hex"){ s = toHex(p, n); L = 2*n; } else if(f=="bin"){ s = toBin(p, n); L = 8*n; }
        else if(f=="b58"){ s = toBase58(p, n); L = toBase58Length(p, n); } else if(f=="b58c"){ s = toBase58Check(p, n); }
        else if(f=="b43"){ s = toBase43(p, n); L = toBase43Length(p, n); } else if(f=="b64"){ s = toBase64(p, n, fl); L = toBase64Length(p, n, fl); }
        else { free(p); return false; }
        o.asc("txt", s); o.num("L", (long)L);
        outbuf(o, e, [&](uint8_t *q, size_t cap)->size_t{
            if(f=="hex") return toHex(p, n, (char*)q, cap);
            if(f=="bin") return toBin(p, n, (char*)q, cap);
            if(f=="b58") return toBase58(p, n, (char*)q, cap);
            if(f=="b58c") return toBase58Check(p, n, (char*)q, cap);
            if(f=="b43") return toBase43(p, n, (char*)q, cap);
            return toBase64(p, n, (char*)q, cap, fl);
        });
        free(p); return true;
    }
    if(op=="dec"){ // text -> bytes
        auto b = unhex(e.S("data")); size_t n = b.size(); string f = e.S("f"); uint8_t fl = (uint8_t)e.N("fl");
        char *p = (char*)malloc(n?n:1); memcpy(p, b.data(), n);   // deliberately not NUL-terminated
        outbuf(o, e, [&](uint8_t *q, size_t cap)->size_t{
            if(f=="hex") return fromHex(p, n, q, cap);
            if(f=="bin") return fromBin(p, n, q, cap);
            if(f=="b58") return fromBase58(p, n, q, cap);
            if(f=="b58c") return fromBase58Check(p, n, q, cap);
            if(f=="b43") return fromBase43(p, n, q, cap);
            return fromBase64(p, n, q, cap, fl);
        });
        string t((char*)b.data(), n);
        { size_t cap = e.N("cap"); uint8_t *q = (uint8_t*)malloc(cap?cap:1); size_t m = 0;
          if(f=="hex") m = fromHex(t, q, cap); else if(f=="bin") m = fromBin(t, q, cap); else if(f=="b58") m = fromBase58(t, q, cap);
          else if(f=="b58c") m = fromBase58Check(t, q, cap); else if(f=="b43") m = fromBase43(t, q, cap); else m = fromBase64(t, q, cap, fl);
          o.num("n2", (long)m); o.hex("out2", q, m<=cap?m:cap); free(q); }
        free(p); return true;
    }
    if(op=="b64hex"){ auto b = unhex(e.S("data")); string t((char*)b.data(), b.size()); uint8_t fl = (uint8_t)e.N("fl");
        o.asc("r", e.S("f")=="h2b" ? hexToBase64(t, fl) : base64ToHex(t, fl)); return true; }
    if(op=="ints"){ // fixed width integers of width w
        size_t k = e.N("w"); uint64_t v = un8(e.S("v")); uint8_t *p = (uint8_t*)malloc(k?k:1);
        intToLittleEndian(v, p, k); o.hex("le", p, k); o.str("le_back", LE8(littleEndianToInt(p, k)));
        intToBigEndian(v, p, k); o.hex("be", p, k); o.str("be_back", LE8(bigEndianToInt(p, k)));
        free(p); return true;
    }
    if(op=="varint"){
        uint64_t v = un8(e.S("v")); size_t cap = e.N("cap"); uint8_t *p = (uint8_t*)malloc(cap?cap:1);
        o.num("L", lenVarInt(v)); size_t n = writeVarInt(v, p, cap); o.num("n", (long)n); o.hex("out", p, n<=cap?n:cap); free(p); return true;
    }
    if(op=="rvarint"){ auto b = unhex(e.S("data")); size_t n = b.size(); uint8_t *p = (uint8_t*)malloc(n?n:1); memcpy(p, b.data(), n); o.str("v", LE8(readVarInt(p, n))); free(p); return true; }
    // ---------------------------------------------------------------- hashes
    if(op=="hash"){ // one-shot
        auto b = unhex(e.S("data")); size_t n = b.size(); uint8_t *p = (uint8_t*)malloc(n?n:1); memcpy(p, b.data(), n);
        auto k = unhex(e.S("key")); uint8_t *q = (uint8_t*)malloc(k.size()?k.size():1); memcpy(q, k.data(), k.size());
        string f = e.S("f"); uint8_t h[64]; size_t L = 0; string via = e.S("via"); string t((char*)p, n);
        bool ch = via=="char", st = via=="str";
        if(f=="sha256"){ st ? sha256(t, h) : ch ? sha256((const char*)p, n, h) : sha256(p, n, h); L=32; }
        else if(f=="sha512"){ st ? sha512(t, h) : ch ? sha512((const char*)p, n, h) : sha512(p, n, h); L=64; }
        else if(f=="rmd160"){ st ? rmd160(t, h) : ch ? rmd160((const char*)p, n, h) : rmd160(p, n, h); L=20; }
        else if(f=="hash160"){ st ? hash160(t, h) : ch ? hash160((const char*)p, n, h) : hash160(p, n, h); L=20; }
        else if(f=="dsha"){ st ? doubleSha(t, h) : ch ? doubleSha((const char*)p, n, h) : doubleSha(p, n, h); L=32; }
        else if(f=="hmac256"){ sha256Hmac(q, k.size(), p, n, h); L=32; }
        else if(f=="hmac512"){ sha512Hmac(q, k.size(), p, n, h); L=64; }
        else if(f=="tagged"){ string tag((char*)q, k.size()); st ? tagged_hash(tag, t, h) : ch ? tagged_hash(tag.c_str(), (const char*)p, n, h) : tagged_hash(tag.c_str(), p, n, h); L=32; }
        else { free(p); free(q); return false; }
        o.hex("h", h, L); free(p); free(q); return true;
    }
    if(op=="h_new"){
        string f = e.S("f"); auto k = unhex(e.S("key")); uint8_t *q = (uint8_t*)malloc(k.size()?k.size():1); memcpy(q, k.data(), k.size());
        if(f=="sha256"){ w.misc[id] = std::make_shared<SHA256>(); } else if(f=="sha512"){ w.misc[id] = std::make_shared<SHA512>(); }
        else if(f=="rmd160"){ w.misc[id] = std::make_shared<RMD160>(); } else if(f=="hash160"){ w.misc[id] = std::make_shared<Hash160>(); }
        else if(f=="dsha"){ w.misc[id] = std::make_shared<DoubleSha>(); }
        else if(f=="hmac256"){ auto s = std::make_shared<SHA256>(); s->beginHMAC(q, k.size()); w.misc[id] = s; }
        else if(f=="hmac512"){ auto s = std::make_shared<SHA512>(); s->beginHMAC(q, k.size()); w.misc[id] = s; }
        else if(f=="tagged"){ string t((char*)q, k.size()); w.misc[id] = std::make_shared<TaggedHash>(t.c_str()); }
        else { free(q); return false; }
        free(q); return true;
    }
    if(op=="h_write" || op=="h_byte" || op=="h_end" || op=="h_begin"){
        string f = e.S("f"); auto b = unhex(e.S("data")); size_t n = b.size(); uint8_t *p = (uint8_t*)malloc(n?n:1); memcpy(p, b.data(), n);
        auto k = unhex(e.S("key")); uint8_t h[64]; size_t r = 0, L = 0; void *x = w.misc.at(id).get();
        HashAlgorithm *a = f=="sha256"||f=="hmac256" ? (HashAlgorithm*)(SHA256*)x : f=="sha512"||f=="hmac512" ? (HashAlgorithm*)(SHA512*)x : f=="rmd160" ? (HashAlgorithm*)(RMD160*)x
            : f=="hash160" ? (HashAlgorithm*)(Hash160*)x : f=="dsha" ? (HashAlgorithm*)(DoubleSha*)x : (HashAlgorithm*)(TaggedHash*)x;
        if(op=="h_write") r = a->write(p, n);
        else if(op=="h_byte") r = a->write(p[0]);
        else if(op=="h_begin"){
            if(f=="sha256") ((SHA256*)x)->begin(); else if(f=="sha512") ((SHA512*)x)->begin(); else if(f=="rmd160") ((RMD160*)x)->begin();
            else if(f=="hash160") ((Hash160*)x)->begin(); else if(f=="dsha") ((DoubleSha*)x)->begin();
            else if(f=="hmac256") ((SHA256*)x)->beginHMAC(k.data(), k.size()); else if(f=="hmac512") ((SHA512*)x)->beginHMAC(k.data(), k.size());
        }
        else { if(f=="hmac256") r = ((SHA256*)x)->endHMAC(h); else if(f=="hmac512") r = ((SHA512*)x)->endHMAC(h); else r = a->end(h);
            L = (f=="sha512"||f=="hmac512") ? 64 : (f=="rmd160"||f=="hash160") ? 20 : 32; o.hex("h", h, L); }
        o.num("r", (long)r); free(p); return true;
    }
    if(op=="hrep"){ // a long message: the same bytes many times, then others
        { struct itimerval it = {{0,0},{400,0}}; setitimer(ITIMER_PROF, &it, 0); alarm(840); }
        string f = e.S("f"); auto b = unhex(e.S("data")), t = unhex(e.S("tail")), k = unhex(e.S("key")); long times = e.N("times"); uint8_t h[64]; size_t L = 0;
        size_t per = (1<<20)/b.size(); vector<uint8_t> big; for(size_t i=0;i<per;i++) big.insert(big.end(), b.begin(), b.end());
        auto all = [&](HashAlgorithm &a){ long n = times; while(n >= (long)per){ a.write(big.data(), big.size()); n -= per; } while(n-- > 0) a.write(b.data(), b.size()); a.write(t.data(), t.size()); };
        if(f=="sha256"){ SHA256 a; all(a); a.end(h); L=32; } else if(f=="sha512"){ SHA512 a; all(a); a.end(h); L=64; } else if(f=="rmd160"){ RMD160 a; all(a); a.end(h); L=20; }
        else if(f=="hash160"){ Hash160 a; all(a); a.end(h); L=20; } else if(f=="dsha"){ DoubleSha a; all(a); a.end(h); L=32; }
        else if(f=="hmac256"){ SHA256 a; a.beginHMAC(k.data(), k.size()); all(a); a.endHMAC(h); L=32; } else if(f=="hmac512"){ SHA512 a; a.beginHMAC(k.data(), k.size()); all(a); a.endHMAC(h); L=64; } else return false;
        o.hex("h", h, L); return true;
    }
    if(op=="desc"){ auto b = unhex(e.S("data")); string t((char*)b.data(), b.size()); o.asc("r", descriptorChecksum(t));
        size_t cap = e.N("cap", 9); char *p = (char*)malloc(cap?cap:1); size_t n = descriptorChecksum(t.c_str(), t.size(), p, cap); o.num("n", (long)n); o.asc("out", n<=cap ? string(p, n>8?8:n) : string("?")); free(p); return true; }
    return false;
}
