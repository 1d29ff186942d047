// Conformance driver: replays scenarios (ndjson, one API call per line) into the
// library built from /repo's working tree and records every call with what it
// returned and what can then be observed through the public API.
// Each scenario runs in a child process of its own; a crash, a sanitizer report or
// a hang becomes a "crash" event, which no action of the specification explains.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include <fstream>
#include <sstream>
#include <iostream>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <errno.h>
extern "C" size_t __sanitizer_get_current_allocated_bytes();
extern "C" void __gcov_dump() __attribute__((weak));   // present in coverage builds only
#include "driver.h"

using std::string; using std::vector; using std::map;

static uint32_t rng_state = 1;
extern "C" uint32_t random32(void){
    rng_state ^= rng_state << 13; rng_state ^= rng_state >> 17; rng_state ^= rng_state << 5;
    return rng_state;
}

// ------------------------------------------------------------------ JSON (flat)
bool parseLine(const string &l, Ev &e){
    size_t i = l.find('{'); if(i == string::npos) return false; i++;
    while(i < l.size()){
        while(i < l.size() && (l[i]==' '||l[i]==',')) i++;
        if(l[i]=='}') return true;
        if(l[i] != '"') return false;
        size_t j = l.find('"', i+1); string k = l.substr(i+1, j-i-1);
        i = l.find(':', j)+1;
        while(l[i]==' ') i++;
        if(l[i]=='"'){ j = l.find('"', i+1); e.str[k] = l.substr(i+1, j-i-1); i = j+1; }
        else{ char *end; e.num[k] = strtol(l.c_str()+i, &end, 10); i = end - l.c_str(); }
    }
    return false;
}
string hexs(const uint8_t *p, size_t n){
    static const char *d = "0123456789abcdef"; string r; r.reserve(2*n);
    for(size_t i=0;i<n;i++){ r += d[p[i]>>4]; r += d[p[i]&15]; }
    return r;
}
static int hv(char c){ return c<='9' ? c-'0' : (c|32)-'a'+10; }
vector<uint8_t> unhex(const string &s){
    vector<uint8_t> r(s.size()/2);
    for(size_t i=0;i<r.size();i++) r[i] = (uint8_t)(hv(s[2*i])*16 + hv(s[2*i+1]));
    return r;
}

static void emit(int fd, const string &s){
    const char *p = s.data(); size_t n = s.size();
    while(n){ ssize_t w = write(fd, p, n); if(w<0){ if(errno==EINTR) continue; _exit(97);} p += w; n -= w; }
}

static void runScenario(const vector<string> &lines, int fd){
    rng_state = 0x9e3779b9;
    World w; size_t base = __sanitizer_get_current_allocated_bytes();
    for(size_t i=0;i<lines.size();i++){
        Ev e; Out o;
        if(!parseLine(lines[i], e)){ fprintf(stderr, "driver: bad line %s\n", lines[i].c_str()); _exit(98); }
        if(e.S("op")=="end"){ // destroy everything; what the library still holds is a leak
            w.obj.clear(); w.misc.clear(); e = Ev();
            o.num("held", (long)__sanitizer_get_current_allocated_bytes() - (long)base);
        }
        else if(!dispatch(w, e, o)){ fprintf(stderr, "driver: unknown op %s\n", lines[i].c_str()); _exit(98); }
        string l = lines[i]; size_t p = l.rfind('}');
        emit(fd, l.substr(0, p) + o.s + "}\n");
    }
    // objects are destroyed here, inside the monitored child
}

int main(int argc, char **argv){
    if(argc < 3){ fprintf(stderr, "usage: driver SCENARIOS OUT [seconds]\n"); return 2; }
    int limit = argc > 3 ? atoi(argv[3]) : 20;
    std::ifstream in(argv[1]);
    int fd = open(argv[2], O_CREAT|O_TRUNC|O_WRONLY|O_APPEND, 0644);
    if(!in || fd < 0){ perror("driver"); return 2; }
    vector<vector<string>> scn; vector<long> ids; string line; long cur = -1;
    while(std::getline(in, line)){
        if(line.empty()) continue;
        Ev e; if(!parseLine(line, e)){ fprintf(stderr, "driver: bad line: %s\n", line.c_str()); return 2; }
        long s = e.num["s"];
        if(scn.empty() || s != cur){ scn.push_back({}); ids.push_back(s); cur = s; }
        scn.back().push_back(line);
    }
    string errf = string(argv[2]) + ".err";
    int bad = 0;
    for(size_t k=0;k<scn.size();k++){
        { std::ostringstream b; b << "{\"s\":" << ids[k] << ",\"op\":\"begin\"}\n"; emit(fd, b.str()); }
        pid_t pid = fork();
        if(pid < 0){ perror("fork"); return 2; }
        if(pid == 0){
            int ef = open(errf.c_str(), O_CREAT|O_TRUNC|O_WRONLY, 0644);
            dup2(ef, 2); dup2(ef, 1);
            struct rlimit rl = {0,0}; setrlimit(RLIMIT_CORE, &rl);
            struct itimerval it = {{0,0},{limit,0}}; setitimer(ITIMER_PROF, &it, 0);   // CPU time, so that a busy machine is not taken for a hang
            alarm(30*limit);
            runScenario(scn[k], fd);
            if(__gcov_dump) __gcov_dump();
            _exit(0);
        }
        int st = 0; while(waitpid(pid, &st, 0) < 0 && errno == EINTR);
        if(WIFEXITED(st) && WEXITSTATUS(st) == 98){
            std::ifstream ef(errf); string t; while(std::getline(ef,t)) fprintf(stderr, "%s\n", t.c_str());
            return 2;
        }
        if(!(WIFEXITED(st) && WEXITSTATUS(st) == 0)){
            string why; std::ifstream ef(errf); string t;
            while(std::getline(ef, t)) if(t.find("SUMMARY:")!=string::npos) why = t;
            if(why.empty()){ char b[64]; snprintf(b, 64, WIFSIGNALED(st) ? "signal %d" : "exit %d", WIFSIGNALED(st)?WTERMSIG(st):WEXITSTATUS(st)); why = b; }
            string c; for(char ch : why) if(ch!='"' && ch!='\\' && (unsigned char)ch>=32) c += ch;
            std::ostringstream b; b << "{\"s\":" << ids[k] << ",\"op\":\"crash\",\"why\":\"" << c << "\"}\n";
            emit(fd, b.str()); bad++;
        }
    }
    unlink(errf.c_str());
    return 0;
}
