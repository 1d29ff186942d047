#include "driver.h"
bool ops_core(World &w, const Ev &e, Out &o);
bool ops_keys(World &w, const Ev &e, Out &o);
bool ops_codec(World &w, const Ev &e, Out &o);
bool ops_psbt(World &w, const Ev &e, Out &o);
bool ops_api(World &w, const Ev &e, Out &o);
bool ops_mem(World &w, const Ev &e, Out &o);
void project_core(World &w, long id, Out &o);
bool project_keys(World &w, long id, Out &o);
bool project_psbt(World &w, long id, Out &o);
void project(World &w, long id, Out &o){
    int st = w.obj.at(id)->s()->getStatus();
    if(st != 0){ o.num("st", st); return; }   // no value to observe
    if(project_keys(w, id, o) || project_psbt(w, id, o)) return;
    project_core(w, id, o);
}
bool dispatch(World &w, const Ev &e, Out &o){
    return ops_core(w, e, o) || ops_keys(w, e, o) || ops_codec(w, e, o) || ops_psbt(w, e, o) || ops_api(w, e, o) || ops_mem(w, e, o);
}
