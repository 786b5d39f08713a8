/* The simulated host's side of the VST3 interfaces. */
#ifndef VS_HOST_H
#define VS_HOST_H
#include "vst3/vst3_c_api.h"
#include <stddef.h>

/* allocation seam of the bridge's C code */
void* vs_malloc(size_t n);
void vs_free(void* p);
void* vs_calloc(size_t a, size_t b);
void* vs_realloc(void* p, size_t n);
char* vs_strdup(const char* s);
void vs_alloc_fail(int64_t nth);      /* the nth allocation from now on fails; 0: none */
int32_t vs_alloc_live(void);
int32_t vs_alloc_errors(void);        /* frees of blocks not live, writes after free or out of bounds */
int32_t vs_alloc_failed(void);
void vs_alloc_check(void);
void vs_alloc_reset(void);
int32_t vs_is_live(void* p);

/* host objects whose methods call the simulator */
void* vs_obj(int32_t kind, int64_t id); /* 0 stream 1 changes 2 queue 3 events 4 handler */
void vs_obj_free(void* o);
int32_t vs_obj_refs(void* o);

/* calls into the plugin */
void* vs_factory(void);
int32_t vs_entry(void);
int32_t vs_exit(void);
int32_t vs_qi(void* o, const void* iid, void** out);
uint32_t vs_addref(void* o);
uint32_t vs_release(void* o);
int32_t f_info(void* o, void* info);
int32_t f_count(void* o);
int32_t f_class(void* o, int32_t i, void* info);
int32_t f_create(void* o, const void* cid, const void* iid, void** out);
int32_t c_init(void* o, void* ctx);
int32_t c_term(void* o);
int32_t c_ctrlid(void* o, void* id);
int32_t c_iomode(void* o, int32_t m);
int32_t c_buscount(void* o, int32_t t, int32_t d);
int32_t c_businfo(void* o, int32_t t, int32_t d, int32_t i, void* info);
int32_t c_routing(void* o);
int32_t c_activate(void* o, int32_t t, int32_t d, int32_t i, int32_t s);
int32_t c_active(void* o, int32_t s);
int32_t c_setstate(void* o, void* s);
int32_t c_getstate(void* o, void* s);
int32_t a_setarr(void* o, void* in, int32_t ni, void* out, int32_t no);
int32_t a_getarr(void* o, int32_t d, int32_t i, void* arr);
int32_t a_cansize(void* o, int32_t s);
uint32_t a_latency(void* o);
int32_t a_setup(void* o, int32_t mode, int32_t size, int32_t maxb, double sr);
int32_t a_setproc(void* o, int32_t s);
int32_t a_process(void* o, void* d);
uint32_t a_tail(void* o);
int32_t e_init(void* o);
int32_t e_term(void* o);
int32_t e_setcompstate(void* o, void* s);
int32_t e_setstate(void* o, void* s);
int32_t e_getstate(void* o, void* s);
int32_t e_count(void* o);
int32_t e_info(void* o, int32_t i, void* info);
int32_t e_str(void* o, uint32_t id, double v, void* s);
int32_t e_val(void* o, uint32_t id, void* s, double* v);
double e_toplain(void* o, uint32_t id, double v);
double e_tonorm(void* o, uint32_t id, double v);
double e_get(void* o, uint32_t id);
int32_t e_set(void* o, uint32_t id, double v);
int32_t e_handler(void* o, void* h);
void* e_view(void* o, const char* name);
const void* vs_iid(int32_t k);

/* process data in one allocation */
struct Steinberg_Vst_AudioBusBuffers* vs_buses(int32_t n);
void vs_bus(struct Steinberg_Vst_AudioBusBuffers* b, int32_t i, int32_t channels, float** bufs);
void vs_note(struct Steinberg_Vst_Event* e, int32_t type, int32_t bus, int32_t off, int32_t chan, int32_t pitch, float vel);
#endif
