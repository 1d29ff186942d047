#pragma once
#include <string>
#include <map>
#include <memory>
#include <vector>
#include <sstream>
#include "Bitcoin.h"
#include "PSBT.h"
#include "Electrum.h"
#include "Hash.h"
#include "Conversion.h"

struct Ev { std::map<std::string,std::string> str; std::map<std::string,long> num;
    std::string S(const char *k) const { auto i = str.find(k); return i==str.end() ? std::string() : i->second; }
    long N(const char *k, long d=0) const { auto i = num.find(k); return i==num.end() ? d : i->second; }
    bool has(const char *k) const { return str.count(k) || num.count(k); }
};
std::string hexs(const uint8_t *p, size_t n);
std::vector<uint8_t> unhex(const std::string &s);
inline std::string hexs(const std::string &s){ return hexs((const uint8_t*)s.data(), s.size()); }
struct Out { std::string s;
    void str(const char *k, const std::string &v){ s += ",\""; s += k; s += "\":\""; s += v; s += "\""; }
    void num(const char *k, long v){ s += ",\""; s += k; s += "\":"; s += std::to_string(v); }
    void raw(const char *k, const std::string &v){ s += ",\""; s += k; s += "\":"; s += v; }
    void hex(const char *k, const uint8_t *p, size_t n){ str(k, hexs(p,n)); }
    void asc(const char *k, const std::string &v){ str(k, hexs(v)); }   // text, hex-coded
};
struct Box { virtual ~Box(){}; virtual Streamable *s() = 0; virtual Box *clone() = 0; virtual void assign(Box *o) = 0; std::string kind; };
template<class T> struct BoxT : Box { T v; BoxT(){}; BoxT(const T &o):v(o){};
    Streamable *s(){ return &v; };
    Box *clone(){ auto *b = new BoxT<T>(v); b->kind = kind; return b; };
    void assign(Box *o){ v = ((BoxT<T>*)o)->v; } };
struct World { std::map<long, std::unique_ptr<Box>> obj;
    std::map<long, std::shared_ptr<void>> misc;
    template<class T> T &get(long i){ return ((BoxT<T>*)obj.at(i).get())->v; }
    template<class T> void put(long i, const char *kind, const T &v){ auto *b = new BoxT<T>(v); b->kind = kind; obj[i].reset(b); } };
bool dispatch(World &w, const Ev &e, Out &o);
